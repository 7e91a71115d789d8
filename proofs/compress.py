"""compress_action_table, compress_goto_table (generator) with lookup_parser_action, lookup_goto_state (parser): every entry looked up in the compressed tables is the entry of the uncompressed ones."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
PG = "crates/parser-generator/src/parser_generator.rs"; BI = "crates/parser-generator/src/parser_generator/bison.rs"; CST = "crates/postgresql-cst-parser/src/cst.rs"
TYPES = r"""
use std::collections::HashMap;
#[verifier::external_body] pub struct Component { x: u8 }
#[verifier::external_body] pub struct State { x: u8 }
#[verifier::external_body] pub struct IdMapper { x: u8 }
pub struct StateSet { pub states: Vec<State> }
// of Lalr, the parts the functions use
pub struct Lalr { pub id_mapper: IdMapper, pub state_set: StateSet, pub action_table: HashMap<(usize, ComponentId), Action>, pub goto_table: HashMap<(usize, ComponentId), usize> }
pub uninterp spec fn CID(m: IdMapper, c: Component) -> ComponentId;
impl IdMapper { #[verifier::external_body] pub fn to_component_id(&self, c: &Component) -> (r: ComponentId) ensures r == CID(*self, *c) { unimplemented!() } }
#[verifier::external_body] pub fn hget<'a, V>(m: &'a HashMap<(usize, ComponentId), V>, k: &(usize, ComponentId)) -> (r: Option<&'a V>) ensures (match r { Some(v) => m@.contains_key(*k) && *v == m@[*k], None => !m@.contains_key(*k) }) { unimplemented!() }
#[verifier::external_body] pub fn own_max(v: &Vec<u32>) -> (r: u32) requires v@.len() > 0 ensures v@.contains(r), forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] <= r { *v.iter().max().unwrap() }
#[verifier::external_body] pub fn own_prefix(v: &Vec<i16>, n: usize) -> (r: Vec<i16>) requires n <= v@.len() ensures r@ == v@.take(n as int) { v[..n].to_vec() }
// the map of counts
#[verifier::external_body] pub struct Counts { m: std::collections::BTreeMap<i16, u16> }
impl Counts { pub uninterp spec fn view(&self) -> Map<i16, u16>;
  #[verifier::external_body] pub fn new() -> (r: Counts) ensures r@ == Map::<i16, u16>::empty() { unimplemented!() } }
pub open spec fn count(m: Map<i16, u16>, a: i16) -> int { if m.contains_key(a) { m[a] as int } else { 0 } }
#[verifier::external_body] pub fn bump(c: &mut Counts, a: i16) requires count(old(c)@, a) < 65535 ensures final(c)@ == old(c)@.insert(a, (count(old(c)@, a) + 1) as u16) { unimplemented!() }
#[verifier::external_body] pub fn most(c: &Counts) -> (r: i16) requires exists|a: i16| #[trigger] c@.contains_key(a) ensures c@.contains_key(r), forall|a: i16| #[trigger] c@.contains_key(a) ==> c@[a] <= c@[r] { unimplemented!() }
pub open spec fn at(a: int, t: int, b: int) -> int { a * t + b }
pub open spec fn code(m: Map<(usize, ComponentId), Action>, k: (usize, ComponentId)) -> int { if m.contains_key(k) { match m[k] { Action::Shift(s) => s + 1, Action::Reduce(r) => -r - 1, Action::Accept => 0, Action::Error => 0x7FFF } } else { 0x7FFF } }
// the uncompressed tables
pub open spec fn acode(l: Lalr, ts: Seq<Component>, i: int, j: int) -> int { code(l.action_table@, (i as usize, CID(l.id_mapper, ts[j]))) }
pub open spec fn gcode(l: Lalr, ts: Seq<Component>, i: int, j: int) -> int { let k = (i as usize, CID(l.id_mapper, ts[j])); if l.goto_table@.contains_key(k) { l.goto_table@[k] as int } else { -1 } }
// the documented limits: the numbers fit the 16 bits of an entry and do not meet the reserved codes
pub open spec fn dims(l: Lalr, ts: Seq<Component>) -> bool { 1 <= ts.len() < 0x7FFE && 1 <= l.state_set.states@.len() && l.state_set.states@.len() * ts.len() <= 0xFFFF_FFFF && ts.len() * (l.state_set.states@.len() * ts.len()) <= usize::MAX }
pub open spec fn within(l: Lalr) -> bool { forall|k: (usize, ComponentId)| #[trigger] l.action_table@.contains_key(k) ==> match l.action_table@[k] { Action::Shift(s) => s < 0x7FFD, Action::Reduce(r) => r < 0x7FFF, _ => true } }
pub open spec fn gwithin(l: Lalr) -> bool { forall|k: (usize, ComponentId)| #[trigger] l.goto_table@.contains_key(k) ==> l.goto_table@[k] < 0x7FFF }
pub open spec fn live(l: Lalr, ts: Seq<Component>, i: int) -> bool { exists|j: int| 0 <= j < ts.len() && #[trigger] acode(l, ts, i, j) != 0x7FFF }
pub open spec fn lively(l: Lalr, ts: Seq<Component>) -> bool { forall|i: int| 0 <= i < l.state_set.states@.len() ==> #[trigger] live(l, ts, i) }
// what the parser reads
pub open spec fn look_act(off: Seq<u32>, chk: Seq<i16>, val: Seq<i16>, def: Seq<i16>, i: int, j: int) -> int { let x = off[i] as int + j; if chk[x] == j { if val[x] == 0x7FFE { def[i] as int } else { val[x] as int } } else { 0x7FFF } }
pub open spec fn look_goto(off: Seq<u32>, chk: Seq<i16>, val: Seq<i16>, i: int, j: int) -> int { let x = off[i] as int + j; if chk[x] == j { val[x] as int } else { -1 } }
pub open spec fn room(off: Seq<u32>, chk: Seq<i16>, val: Seq<i16>, s: int, t: int) -> bool { off.len() == s && chk.len() == val.len() && forall|i: int| 0 <= i < s ==> (#[trigger] off[i]) + t <= val.len() }
// row k of the list can be read at its offset; e: the code that stands for no entry
pub open spec fn placed(row: Seq<i16>, e: i16, o: int, c: Seq<i16>, v: Seq<i16>) -> bool { forall|b: int| 0 <= b < row.len() ==> if (#[trigger] row[b]) == e { c[o + b] != b } else { c[o + b] == b && v[o + b] == row[b] } }
pub open spec fn fits(row: Seq<i16>, e: i16, o: int, c: Seq<i16>, v: Seq<i16>, used: bool, b: int) -> bool { if row[b] == e { c[o + b] != b } else { (c[o + b] == b && v[o + b] == row[b]) || (c[o + b] != b && c[o + b] == -1 && !used) } }
pub open spec fn wrote(row: Seq<i16>, e: i16, o: int, n: int, c: Seq<i16>, v: Seq<i16>, c2: Seq<i16>, v2: Seq<i16>) -> bool { c2.len() == c.len() && v2.len() == v.len() && (forall|b: int| 0 <= b < n && (#[trigger] row[b]) != e ==> c2[o + b] == b && v2[o + b] == row[b])
   && (forall|x: int| 0 <= x < c.len() && (x < o || x >= o + n || row[x - o] == e) ==> (#[trigger] c2[x]) == c[x]) && (forall|x: int| 0 <= x < c.len() && (x < o || x >= o + n || row[x - o] == e) ==> (#[trigger] v2[x]) == v[x]) }
pub proof fn keeps(r1: Seq<i16>, o1: int, row: Seq<i16>, e: i16, o: int, c: Seq<i16>, v: Seq<i16>, used: Seq<bool>, c2: Seq<i16>, v2: Seq<i16>)
  requires c.len() == v.len(), used.len() == c.len(), r1.len() == row.len(), 0 <= o, o + row.len() <= c.len(), 0 <= o1, o1 + r1.len() <= c.len(), placed(r1, e, o1, c, v), used[o1], forall|b: int| 0 <= b < row.len() ==> #[trigger] fits(row, e, o, c, v, used[o], b), wrote(row, e, o, row.len() as int, c, v, c2, v2), o < c.len(), o1 < c.len()
  ensures placed(r1, e, o1, c2, v2)
{ assert forall|b: int| 0 <= b < r1.len() implies if (#[trigger] r1[b]) == e { c2[o1 + b] != b } else { c2[o1 + b] == b && v2[o1 + b] == r1[b] } by {
    let x = o1 + b; if o <= x < o + row.len() && row[x - o] != e { let d = x - o; assert(fits(row, e, o, c, v, used[o], d)); assert(c2[o + d] == d && v2[o + d] == row[d]); if c[x] != d { assert(c[x] == -1); assert(!used[o]); assert(d != b); } } else { assert(c2[x] == c[x]); assert(v2[x] == v[x]); } } }
pub proof fn now(row: Seq<i16>, e: i16, o: int, c: Seq<i16>, v: Seq<i16>, used: bool, c2: Seq<i16>, v2: Seq<i16>)
  requires c.len() == v.len(), 0 <= o, o + row.len() <= c.len(), forall|b: int| 0 <= b < row.len() ==> #[trigger] fits(row, e, o, c, v, used, b), wrote(row, e, o, row.len() as int, c, v, c2, v2) ensures placed(row, e, o, c2, v2)
{ assert forall|b: int| 0 <= b < row.len() implies if (#[trigger] row[b]) == e { c2[o + b] != b } else { c2[o + b] == b && v2[o + b] == row[b] } by { assert(fits(row, e, o, c, v, used, b)); if row[b] == e { assert(c2[o + b] == c[o + b]); } } }
// cells from m on are free
pub open spec fn free(c: Seq<i16>, used: Seq<bool>, m: int) -> bool { (forall|x: int| m <= x < c.len() ==> (#[trigger] c[x]) == -1) && (forall|x: int| m <= x < used.len() ==> !(#[trigger] used[x])) }
pub proof fn mul(a: int, b: int, s: int, t: int) requires 0 <= a < s, 0 <= b < t ensures 0 <= a * t, 0 <= at(a, t, b) < s * t, at(a, t, b) == a * t + b, (a + 1) * t == a * t + t, a * t + t <= s * t { assert(0 <= a * t && (a + 1) * t == a * t + t && a * t + t <= s * t) by (nonlinear_arith) requires 0 <= a < s, 0 <= b < t; }
pub proof fn size(a: int, b: int, s: int, t: int) requires 0 <= a < s, 0 <= b <= t, 1 <= t ensures a * t + b <= t * (s * t), a * t + t <= t * (s * t), a * t + t <= s * t, 0 <= a * t
{ assert(a * t + t <= s * t && 0 <= a * t) by (nonlinear_arith) requires 0 <= a < s, 1 <= t; let x = s * t; assert(x <= t * x) by (nonlinear_arith) requires 0 <= x, 1 <= t; }
pub proof fn uniq(a: int, b: int, c: int, d: int, t: int) requires 0 <= b < t, 0 <= d < t, a * t + b == c * t + d ensures a == c, b == d { assert(a == c) by (nonlinear_arith) requires 0 <= b < t, 0 <= d < t, a * t + b == c * t + d { if a < c { assert(c * t >= a * t + t); } if a > c { assert(a * t >= c * t + t); } } }
pub open spec fn filled(u: Seq<i16>, t: int, w: spec_fn(int, int) -> int) -> bool { forall|a: int, b: int| 0 <= a && 0 <= b < t && a * t + b < u.len() ==> u[at(a, t, b)] == #[trigger] w(a, b) }
pub proof fn fill(u: Seq<i16>, x: i16, i: int, j: int, t: int, w: spec_fn(int, int) -> int) requires filled(u, t, w), 0 <= i, 0 <= j < t, u.len() == i * t + j, x == w(i, j) ensures filled(u.push(x), t, w)
{ let u2 = u.push(x); assert forall|a: int, b: int| 0 <= a && 0 <= b < t && a * t + b < u2.len() implies u2[at(a, t, b)] == #[trigger] w(a, b) by { assert(0 <= a * t) by (nonlinear_arith) requires 0 <= a, 0 < t; if a * t + b == u.len() { uniq(a, b, i, j, t); } } }
pub open spec fn is_row(row: Seq<i16>, t: int, w: spec_fn(int, int) -> int, k: int, d: int) -> bool { row.len() == t && forall|b: int| 0 <= b < t ==> (#[trigger] row[b]) == if w(k, b) == d { 0x7FFE } else { w(k, b) } }
pub open spec fn is_grow(row: Seq<i16>, t: int, w: spec_fn(int, int) -> int, k: int) -> bool { row.len() == t && forall|b: int| 0 <= b < t ==> (#[trigger] row[b]) == w(k, b) }
"""
def statics(f, names):
    """the tables of the parser as parameters of the look-up function"""
    t, e, b, ns = f.sig(); f.src = f.src[:t[e].start] + ", " + ", ".join("%s: &Vec<%s>" % x for x in names) + f.src[t[e].start:]; f.notes.append("the parser's tables as parameters")
def table(u, f, goto):
    """invariants common to both functions"""
    W = "%s" % ("gcode" if goto else "acode"); T = "$1"; base = "base_goto_table" if goto else "uncompressed_action_table"
    E = "-1i16" if goto else "0x7FFFi16"
    f.rw("$x.iter().max().unwrap()", "own_max(&$x)"); f.src = re.sub(r"\*\s*own_max\(", "own_max(", f.src)
    f.rw("$x[..$y].to_vec()", "own_prefix(&$x, $y)"); f.rw("lalr.action_table.get($k*)", "hget(&lalr.action_table, $k)"); f.rw("lalr.goto_table.get($k*)", "hget(&lalr.goto_table, $k)")
    f.desugar()
    return W, base, E
def build(u):
    for n in ("Action",): u.add(re.sub(r"#\[[^\]]*\]", "", u.item(BI, "enum", n).text))
    u.add("#[derive(Clone, Copy)] " + re.sub(r"#\[[^\]]*\]|//.*", "", u.item(BI, "struct", "ComponentId").text)); u.add(re.sub(r"#\[[^\]]*\]|///.*", "", u.item(PG, "struct", "CompressedParserTable").text).replace("struct", "pub struct", 1).replace("pub pub", "pub").replace("state_to_offset:", "pub state_to_offset:").replace("compressed_values:", "pub compressed_values:").replace("index_check:", "pub index_check:"))
    for n in ("ERROR_ACTION_CODE", "DEFAULT_ACTION_CODE", "UNUSED_ENTRY_CODE", "INVALID_GOTO_CODE"):
        t = re.sub(r"^\s*const", "pub const", u.item(PG, "const", n).text.strip()); v = t.split("=")[1].strip(" ;")
        if v.startswith("!"): t = "#[verifier::external_body] " + t.replace("const", "exec const", 1).replace("=", "ensures %s == -1 {" % n) if 0 else t
        u.add(t)
    u.add(TYPES)
    f = u.fn(PG, "compress_action_table"); f.src = f.src
    g = f.lift("find_most_common_action"); g.rw("BTreeMap<i16, u16>", "Counts"); g.rw("BTreeMap::new()", "Counts::new()"); g.rw("*$c.entry($a*).or_default() += 1;", "bump(&mut $c, $a);"); g.rw("$c.iter().max_by_key(|(_, v)| *v).map(|(k, _)| *k).unwrap()", "most(&$c)"); g.desugar()
    g.contract("requires 1 <= $2@.len() < 0x7FFE, $1 * $2@.len() + $2@.len() <= $0@.len(), $1 * $2@.len() <= usize::MAX, $0@.len() <= usize::MAX, exists|j: int| 0 <= j < $2@.len() && $0@[#[trigger] at($1 as int, $2@.len() as int, j)] != 0x7FFF ensures exists|j: int| 0 <= j < $2@.len() && $0@[#[trigger] at($1 as int, $2@.len() as int, j)] == r && r != 0x7FFF")
    g.loop(0, """invariant __e0 == $2@.len(), 0 <= __i0 <= __e0, __e0 < 0x7FFE, $1 * $2@.len() + $2@.len() <= $0@.len(), $0@.len() <= usize::MAX, forall|a: i16| #[trigger] cnt@.contains_key(a) ==> cnt@[a] <= __i0 && a != 0x7FFF && exists|j: int| 0 <= j < __i0 && $0@[#[trigger] at($1 as int, $2@.len() as int, j)] == a,
        forall|j: int| 0 <= j < __i0 && $0@[#[trigger] at($1 as int, $2@.len() as int, j)] != 0x7FFF ==> cnt@.contains_key($0@[at($1 as int, $2@.len() as int, j)]) decreases __e0 - __i0""",
        " let ghost c0 = cnt@; proof { assert(at($1 as int, $2@.len() as int, __i0 as int) == $1 * $2@.len() + __i0); } ")
    g.start(); u.put(g)
    W, base, E = table(u, f, False)
    f.contract("""requires dims(*$0, $1@), within(*$0), lively(*$0, $1@)
      ensures r.0.index_check@.len() == r.0.compressed_values@.len(), r.1@.len() == $0.state_set.states@.len(), room(r.0.state_to_offset@, r.0.index_check@, r.0.compressed_values@, $0.state_set.states@.len() as int, $1@.len() as int),
        forall|i: int, j: int| 0 <= i < $0.state_set.states@.len() && 0 <= j < $1@.len() ==> look_act(r.0.state_to_offset@, r.0.index_check@, r.0.compressed_values@, r.1@, i, j) == #[trigger] acode(*$0, $1@, i, j)""")
    body(f, False, W, base, E); u.put(f)
    f = u.fn(PG, "compress_goto_table"); W, base, E = table(u, f, True)
    f.contract("""requires dims(*$0, $1@), gwithin(*$0)
      ensures r.index_check@.len() == r.compressed_values@.len(), room(r.state_to_offset@, r.index_check@, r.compressed_values@, $0.state_set.states@.len() as int, $1@.len() as int),
        forall|i: int, j: int| 0 <= i < $0.state_set.states@.len() && 0 <= j < $1@.len() ==> look_goto(r.state_to_offset@, r.index_check@, r.compressed_values@, i, j) == #[trigger] gcode(*$0, $1@, i, j)""")
    body(f, True, W, base, E); u.put(f)
    tabs = [("ACTION_TABLE_INDEX", "u32"), ("ACTION_CHECK_TABLE", "i16"), ("ACTION_TABLE", "i16"), ("ACTION_DEF_RULE_TABLE", "i16")]
    f = u.fn(CST, "lookup_parser_action"); statics(f, tabs)
    f.contract("requires room(ACTION_TABLE_INDEX@, ACTION_CHECK_TABLE@, ACTION_TABLE@, s@, t@), ACTION_DEF_RULE_TABLE@.len() == s@, $0 < s@, $1 < t@, t@ < 0x7FFE, ACTION_TABLE@.len() <= usize::MAX ensures r == look_act(ACTION_TABLE_INDEX@, ACTION_CHECK_TABLE@, ACTION_TABLE@, ACTION_DEF_RULE_TABLE@, $0 as int, $1 as int)"); f.ghost_param("s: Ghost<int>, t: Ghost<int>"); f.start(); u.put(f)
    tabs = [("GOTO_TABLE_INDEX", "u32"), ("GOTO_CHECK_TABLE", "i16"), ("GOTO_TABLE", "i16")]
    f = u.fn(CST, "lookup_goto_state"); statics(f, tabs)
    f.contract("requires room(GOTO_TABLE_INDEX@, GOTO_CHECK_TABLE@, GOTO_TABLE@, s@, t@), $0 < s@, $1 < t@, t@ < 0x7FFE, GOTO_TABLE@.len() <= usize::MAX ensures r == look_goto(GOTO_TABLE_INDEX@, GOTO_CHECK_TABLE@, GOTO_TABLE@, $0 as int, $1 as int)"); f.ghost_param("s: Ghost<int>, t: Ghost<int>"); f.start(); u.put(f)
    u.add(ROUND)
    return u
ROUND = r"""//@fn round
// the property: through compression and look-up, every entry comes back
fn round_action(lalr: &Lalr, ts: &Vec<Component>, state: u32, cid: u32) -> (r: i16) requires dims(*lalr, ts@), within(*lalr), lively(*lalr, ts@), state < lalr.state_set.states@.len(), cid < ts@.len() ensures r == acode(*lalr, ts@, state as int, cid as int)
{ let (c, d) = compress_action_table(lalr, ts); let n = c.compressed_values.len(); assert(acode(*lalr, ts@, state as int, cid as int) == acode(*lalr, ts@, state as int, cid as int)); lookup_parser_action(state, cid, &c.state_to_offset, &c.index_check, &c.compressed_values, &d, Ghost(lalr.state_set.states@.len() as int), Ghost(ts@.len() as int)) }
fn round_goto(lalr: &Lalr, ts: &Vec<Component>, state: u32, cid: u32) -> (r: i16) requires dims(*lalr, ts@), gwithin(*lalr), state < lalr.state_set.states@.len(), cid < ts@.len() ensures r == gcode(*lalr, ts@, state as int, cid as int)
{ let c = compress_goto_table(lalr, ts); let n = c.compressed_values.len(); assert(gcode(*lalr, ts@, state as int, cid as int) == gcode(*lalr, ts@, state as int, cid as int)); lookup_goto_state(state, cid, &c.state_to_offset, &c.index_check, &c.compressed_values, Ghost(lalr.state_set.states@.len() as int), Ghost(ts@.len() as int)) }
//@end"""
def body(f, goto, W, base, E):
    A = base + "@"; CV = "compressed_values@"; CI = "index_check@"; OU = "offset_used@"; SO = "state_to_offset@"; SD = "state_default_actions@"
    f.src = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] " + f.src
    f.start(" let ghost s = $0.state_set.states@.len() as int; let ghost t = $1@.len() as int; let ghost la = *$0; let ghost ts = $1@; let ghost w = |a: int, b: int| %s(*$0, $1@, a, b); let ghost mut rows: Seq<Seq<i16>> = Seq::empty(); proof { assert(!0i16 == -1i16) by (bit_vector); } " % W)
    f.loop(0, "invariant __e0 == s, 0 <= __i0 <= __e0, %s.len() == __i0 * t, filled(%s, t, w) decreases __e0 - __i0" % (A, A), "", " proof { mul(i as int, 0, s, t); } ")
    f.loop(1, "invariant __e1 == t, 0 <= __i1 <= __e1, %s.len() == i * t + __i1, filled(%s, t, w) decreases __e1 - __i1" % (A, A), " let ghost u0 = %s; let ghost j0 = __i1 as int; " % A, " proof { assert(%s.len() == u0.len() + 1); let x = %s[u0.len() as int]; assert(%s =~= u0.push(x)); assert(x == w(i as int, j0)); fill(u0, x, i as int, j0, t, w); } " % (A, A, A))
    row = "rows[q]"
    def isrow(k): return "is_row(#[trigger] rows[q], t, w, q, %s[q] as int)" % SD if not goto else "is_grow(#[trigger] rows[q], t, w, q)"
    def inv(k, r="rows"): return ("%s.len() == t * (s * t), %s.len() == %s.len(), %s.len() == %s.len(), %s.len() == s, " % (CV, CI, CV, OU, CV, SO) + ("" if goto else "%s.len() == s, " % SD) + "rows.len() == %s, " % k
        + "forall|q: int| 0 <= q < %s ==> %s && placed(rows[q], %s, %s[q] as int, %s, %s) && %s[q] <= q * t && %s[%s[q] as int], free(%s, %s, %s * t), " % (k, isrow(k), E, SO, CI, CV, SO, OU, SO, CI, OU, "(%s)" % k)).replace("rows", r)
    f.loop(2, "invariant __e2 == s, 0 <= __i2 <= __e2, " + inv("__i2") + "s >= 1 decreases __e2 - __i2",
        " let ghost k = __i2 as int; proof { mul(k, 0, s, t); size(k, 0, s, t); " + ("" if goto else "assert(live(la, ts, k)); let j = choose|j: int| 0 <= j < t && #[trigger] acode(la, ts, k, j) != 0x7FFF; assert(w(k, j) != 0x7FFF); mul(k, j, s, t); ") + "} " + (" let ghost row0 = %s.subrange(k * t, k * t + t); proof { assert forall|b: int| 0 <= b < t implies (#[trigger] row0[b]) == w(k, b) by { mul(k, b, s, t); assert(%s[at(k, t, b)] == w(k, b)); } assert(is_grow(row0, t, w, k)); } " % (A, A) if goto else ""), " proof { rows = rows.push(%s); } " % ("row0" if goto else "row@"))
    n = 3
    if not goto:
        f.loop(3, "invariant __e3 == t, 0 <= __i3 <= __e3, row@.len() == t, forall|b: int| 0 <= b < __i3 ==> (#[trigger] row@[b]) == if w(k, b) == state_def_rule { 0x7FFE } else { w(k, b) } decreases __e3 - __i3", " proof { mul(k, __i3 as int, s, t); assert(w(k, __i3 as int) == w(k, __i3 as int)); } "); n = 4
    R = "row0" if goto else "row@"
    f.loop(n, "invariant_except_break 0 <= __i%d <= k * t, " % n + inv("k") + "true ensures " + inv("k + 1", "rows.push(%s)" % R) + "true decreases k * t + 1 - __i%d" % n)
    fit = "forall|b: int| 0 <= b < %%s ==> #[trigger] fits(%s, %s, i as int, %s, %s, %s[i as int], b)" % (R, E, CI, CV, OU)
    f.loop(n + 1, "invariant_except_break ok, 0 <= __i%d <= __e%d, __e%d == t, %s ensures ok ==> %s, i == k * t ==> ok decreases __e%d - __i%d" % (n + 1, n + 1, n + 1, fit % ("__i%d" % (n + 1)), fit % "t", n + 1, n + 1), " proof { size(k, __i%d as int, s, t); mul(k, __i%d as int, s, t); assert(w(k, __i%d as int) == w(k, __i%d as int)); assert(%s[__i%d as int] == %s[__i%d as int]); } " % ((n + 1,) * 4 + (R, n + 1) + (R, n + 1)))
    f.loop(n + 2, "invariant 0 <= __i%d <= __e%d, __e%d == t, wrote(%s, %s, i as int, __i%d as int, c0, v0, %s, %s) decreases __e%d - __i%d" % (n + 2, n + 2, n + 2, R, E, n + 2, CI, CV, n + 2, n + 2), " proof { size(k, __i%d as int, s, t); mul(k, __i%d as int, s, t); assert(w(k, __i%d as int) == w(k, __i%d as int)); assert(%s[__i%d as int] == %s[__i%d as int]); } " % ((n + 2,) * 4 + (R, n + 2) + (R, n + 2)))
    f.before("state_to_offset[$x*] = $y*;", " let ghost c0 = %s; let ghost v0 = %s; let ghost o0 = %s; let ghost u0 = %s; " % (CI, CV, SO, OU) + ("" if goto else "let ghost d0 = %s; " % SD), optional=False, nth=0)
    f.before("break;", """ proof { size(k, t, s, t); mul(k, 0, s, t); now(%s, %s, i as int, c0, v0, u0[i as int], %s, %s); let z = rows.push(%s);
        assert forall|q: int| 0 <= q < k + 1 implies %s && placed(z[q], %s, %s[q] as int, %s, %s) && %s[q] <= q * t && %s[%s[q] as int] by { if q < k { assert(z[q] == rows[q]); mul(q, 0, k, t); size(q, t, s, t); assert(%s[q] == o0[q]); keeps(rows[q], o0[q] as int, %s, %s, i as int, c0, v0, u0, %s, %s); } }
        assert forall|x: int| (k + 1) * t <= x < %s.len() implies (#[trigger] %s[x]) == -1 by { assert(%s[x] == c0[x]); } } """ % (R, E, CI, CV, R, isrow("").replace("rows", "z"), E, SO, CI, CV, SO, OU, SO, SO, R, E, CI, CV, CI, CI, CI), optional=False, nth=-1)
    f.before("let max_table_index = $x*;" , """ proof { assert forall|q: int| 0 <= q < s implies (#[trigger] %s[q]) + t <= s * t && %s[q] + t <= t * (s * t) by { assert(%s); mul(q, 0, s, t); size(q, t, s, t); assert(%s[q] <= q * t); } } let ghost so = %s; let ghost cv = %s; let ghost ci = %s; """ % (SO, SO, isrow("").replace("#[trigger] ", ""), SO, SO, CV, CI), optional=False, nth=0)
    look = "look_act(so, ci.take(m), cv.take(m), %s, q, b)" % SD if not goto else "look_goto(so, ci.take(m), cv.take(m), q, b)"
    f.before("let max_table_index = $x*;", """ proof { let m = max_table_index as int; assert(m <= cv.len()); assert forall|q: int| 0 <= q < s implies (#[trigger] so[q]) + t <= m by { }
        assert forall|q: int, b: int| 0 <= q < s && 0 <= b < t implies %s == #[trigger] %s(la, ts, q, b) by { assert(%s); assert(w(q, b) == %s(la, ts, q, b)); let x = rows[q][b]; assert(so[q] + t <= m); } } """ % (look, W, isrow("").replace("#[trigger] ", ""), W), after=True, optional=False, nth=0)
    return f
