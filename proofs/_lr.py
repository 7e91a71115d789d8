"""LR tables: what has to hold of them (lr_ok), shared by the driver proof and by the verified checker that decides it for the real tables."""
LR = r"""
global size_of usize == 8;
pub open spec fn ERR() -> int { 0x7FFF }
pub open spec fn DEF() -> int { 0x7FFE }
// the tables of parser.rs; rlhs is rule_name_to_component_id of the rule's name
pub struct Tab { pub ac: Vec<i16>, pub av: Vec<i16>, pub ai: Vec<u32>, pub ad: Vec<i16>, pub gc: Vec<i16>, pub gv: Vec<i16>, pub gi: Vec<u32>, pub rlen: Vec<usize>, pub rlhs: Vec<u32>, pub nt: u32, pub nn: u32, pub end: u32, pub ws: u32, pub nkinds: u32 }
// what the grammar file says (rhs, start) and certificates
pub struct Ann { pub start: u32, pub rhs: Vec<Vec<u32>>, pub items: Vec<Vec<(u32, u32)>>, pub acc: Vec<bool>, pub nullable: Vec<bool>, pub lev: Vec<u64>, pub levmax: u64, pub sz: Vec<u64>, pub v: Vec<u64> }
pub open spec fn act(t: Tab, s: int, c: int) -> int { let i = t.ai[s] + c; if t.ac[i] as int == c { if t.av[i] as int == DEF() { t.ad[s] as int } else { t.av[i] as int } } else { ERR() } }
pub open spec fn go(t: Tab, s: int, n: int) -> int { let i = t.gi[s] + n; if t.gc[i] as int == n { t.gv[i] as int } else { -1 } }
pub open spec fn has(a: Ann, s: int, r: int, d: int) -> bool { exists|i: int| 0 <= i < a.items[s]@.len() && (#[trigger] a.items[s]@[i]).0 == r && a.items[s]@[i].1 == d }
pub open spec fn shape(t: Tab, a: Ann) -> bool {
    t.ac.len() == t.av.len() && t.ad.len() == t.ai.len() && t.gi.len() == t.ai.len() && t.gc.len() == t.gv.len() && 0 < t.ai.len() <= 32766
    && (forall|s: int| #![trigger t.ai[s]] 0 <= s < t.ai.len() ==> t.ai[s] + t.nt <= t.ac.len()) && (forall|s: int| #![trigger t.gi[s]] 0 <= s < t.ai.len() ==> t.gi[s] + t.nn <= t.gc.len())
    && t.rlen.len() == t.rlhs.len() && a.rhs.len() == t.rlen.len() && a.items.len() == t.ai.len() && a.acc.len() == t.ai.len() && a.v.len() == t.ai.len()
    && t.nt < 16000 && t.nn < 16000 && a.nullable.len() == t.nt + t.nn && a.lev.len() == t.nt + t.nn && a.sz.len() == t.nt + t.nn
    && t.end < t.nt && a.start < t.nt + t.nn && !a.acc[0] && t.nt + t.nn <= t.ws < t.nkinds }
// going from s to q over symbol x
pub open spec fn step_ok(t: Tab, a: Ann, s: int, x: int, q: int) -> bool {
    0 < q < t.ai.len() && (a.acc[q] ==> s == 0 && x == a.start) && (a.nullable[x] ==> a.v[s] >= a.v[q] + a.sz[x])
    && forall|i: int| 0 <= i < a.items[q]@.len() ==> #[trigger] back_ok(t, a, s, x, a.items[q]@[i]) }
pub open spec fn back_ok(t: Tab, a: Ann, s: int, x: int, it: (u32, u32)) -> bool { it.1 > 0 ==> it.0 < a.rhs.len() && it.1 <= a.rhs[it.0 as int]@.len() && a.rhs[it.0 as int]@[it.1 - 1] == x && has(a, s, it.0 as int, it.1 - 1) }
pub open spec fn act_ok(t: Tab, a: Ann, s: int, c: int) -> bool { let v = act(t, s, c);
    v == ERR() || (v > 0 ==> c != t.end && step_ok(t, a, s, c, v - 1)) && (v < 0 ==> v > -32768 && -v - 1 < t.rlen.len() && has(a, s, -v - 1, a.rhs[-v - 1]@.len() as int)) && (v == 0 ==> c == t.end && a.acc[s]) }
pub open spec fn goto_ok(t: Tab, a: Ann, s: int, n: int) -> bool { go(t, s, n) >= 0 ==> step_ok(t, a, s, t.nt + n, go(t, s, n)) }
pub open spec fn item_ok(t: Tab, a: Ann, s: int, it: (u32, u32)) -> bool { it.0 < a.rhs.len() && it.1 <= a.rhs[it.0 as int]@.len() && (s == 0 ==> it.1 == 0) && (it.1 == 0 ==> t.rlhs[it.0 as int] < t.nn && go(t, s, t.rlhs[it.0 as int] as int) >= 0) }
pub open spec fn items_ok(t: Tab, a: Ann, s: int) -> bool { forall|i: int| 0 <= i < a.items[s]@.len() ==> #[trigger] item_ok(t, a, s, a.items[s]@[i]) }
pub open spec fn sumsz(a: Ann, r: Seq<u32>) -> int decreases r.len() { if r.len() == 0 { 0 } else { sumsz(a, r.drop_last()) + a.sz[r.last() as int] } }
pub open spec fn others_nullable(a: Ann, r: Seq<u32>, j: int) -> bool { forall|i: int| 0 <= i < r.len() && i != j ==> a.nullable[#[trigger] r[i] as int] }
pub open spec fn unit_ok(t: Tab, a: Ann, r: Seq<u32>, l: int, j: int) -> bool { others_nullable(a, r, j) ==> a.lev[r[j] as int] < a.lev[l] <= a.levmax }
pub open spec fn rule_ok(t: Tab, a: Ann, r: int) -> bool { let x = a.rhs[r]@; let l = t.nt + t.rlhs[r];
    t.rlen[r] == x.len() && t.rlhs[r] < t.nn && (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]) < t.nt + t.nn)
    && ((forall|i: int| 0 <= i < x.len() ==> a.nullable[#[trigger] x[i] as int]) ==> a.nullable[l] && a.sz[l] >= 1 + sumsz(a, x))
    && (forall|j: int| 0 <= j < x.len() ==> #[trigger] unit_ok(t, a, x, l, j)) }
pub open spec fn lr_ok(t: Tab, a: Ann) -> bool { shape(t, a)
    && (forall|s: int, c: int| 0 <= s < t.ai.len() && 0 <= c < t.nt ==> #[trigger] act_ok(t, a, s, c))
    && (forall|s: int, n: int| 0 <= s < t.ai.len() && 0 <= n < t.nn ==> #[trigger] goto_ok(t, a, s, n))
    && (forall|s: int| 0 <= s < t.ai.len() ==> #[trigger] items_ok(t, a, s)) && (forall|r: int| 0 <= r < t.rlen.len() ==> #[trigger] rule_ok(t, a, r)) }
"""
def build(u): raise Exception("library")
