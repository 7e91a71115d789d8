"""LALR(1): the definition (valid LR(1) items of symbol strings, merged over strings with the same LR(0) items), yacc's conflict rules, and what parse tables have to be."""
SPEC = r"""
// a grammar; terminals are 0..nt, nonterminals nt..nt+nn, the last rule is the added start rule; over: the terminal after %prec (or >= nt), tlev/tdir: precedence level (0: none) and direction (0 left, 1 right, 2 none) of terminals; by, at: where the rules of a nonterminal are
pub struct Gram { pub nt: u32, pub nn: u32, pub end: u32, pub lhs: Vec<u32>, pub rhs: Vec<Vec<u32>>, pub over: Vec<u32>, pub tlev: Vec<u32>, pub tdir: Vec<u8>, pub by: Vec<Vec<u32>>, pub at: Vec<u32> }
pub open spec fn nr(g: Gram) -> int { g.lhs.len() as int }
pub open spec fn sy(g: Gram, r: int, d: int) -> int { g.rhs[r]@[d] as int }
pub open spec fn ln(g: Gram, r: int) -> int { g.rhs[r]@.len() as int }
pub open spec fn rl(g: Gram, r: int) -> bool { 0 <= r < nr(g) }
pub open spec fn syms_ok(g: Gram, r: int) -> bool { ln(g, r) <= 1000 && forall|d: int| 0 <= d < ln(g, r) ==> (#[trigger] sy(g, r, d)) < g.nt + g.nn && sy(g, r, d) != g.end }
pub open spec fn rule_in(g: Gram, r: int) -> bool { r < nr(g) - 1 ==> g.nt <= g.lhs[r] < g.nt + g.nn && g.at[r] < g.by[g.lhs[r] - g.nt]@.len() && g.by[g.lhs[r] - g.nt]@[g.at[r] as int] == r }
pub open spec fn by_ok(g: Gram, n: int) -> bool { forall|k: int| 0 <= k < g.by[n]@.len() ==> (#[trigger] g.by[n]@[k]) < nr(g) - 1 && g.lhs[g.by[n]@[k] as int] == g.nt + n }
pub open spec fn gram_ok(g: Gram) -> bool { 1 <= nr(g) <= 0x100000 && g.rhs.len() == nr(g) && g.over.len() == nr(g) && g.at.len() == nr(g) && g.nt < 16000 && g.nn < 16000 && g.end < g.nt && g.tlev.len() == g.nt && g.tdir.len() == g.nt && g.by.len() == g.nn
  && g.lhs[nr(g) - 1] == g.nt + g.nn && ln(g, nr(g) - 1) == 1 && (forall|r: int| rl(g, r) ==> #[trigger] syms_ok(g, r)) && (forall|r: int| rl(g, r) ==> #[trigger] rule_in(g, r)) && (forall|n: int| 0 <= n < g.nn ==> #[trigger] by_ok(g, n)) }
// symbols that derive the empty string; first terminals
pub open spec fn prod(g: Gram, y: int, r: int) -> bool { rl(g, r) && g.lhs[r] == y }
pub open spec fn nul(g: Gram, n: nat, y: int) -> bool decreases n { n > 0 && exists|r: int| #[trigger] prod(g, y, r) && forall|k: int| 0 <= k < ln(g, r) ==> nul(g, (n - 1) as nat, #[trigger] sy(g, r, k)) }
pub open spec fn nullable(g: Gram, y: int) -> bool { exists|n: nat| nul(g, n, y) }
pub open spec fn nulls(g: Gram, r: int, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> nullable(g, #[trigger] sy(g, r, k)) }
pub open spec fn fst(g: Gram, n: nat, y: int, a: int) -> bool decreases n { n > 0 && ((y < g.nt && y == a) || exists|r: int, k: int| #[trigger] fsym(g, y, r, k) && fst(g, (n - 1) as nat, sy(g, r, k), a)) }
pub open spec fn fsym(g: Gram, y: int, r: int, k: int) -> bool { prod(g, y, r) && 0 <= k < ln(g, r) && nulls(g, r, 0, k) }
pub open spec fn first(g: Gram, y: int, a: int) -> bool { exists|n: nat| fst(g, n, y, a) }
pub open spec fn sf(g: Gram, r: int, d: int, k: int, a: int) -> bool { d <= k < ln(g, r) && nulls(g, r, d, k) && first(g, sy(g, r, k), a) }
pub open spec fn sfirst(g: Gram, r: int, d: int, a: int) -> bool { exists|k: int| #[trigger] sf(g, r, d, k, a) }
// a may follow what rule r has before position d, when b follows the rule
pub open spec fn fol(g: Gram, r: int, d: int, b: int, a: int) -> bool { sfirst(g, r, d, a) || (nulls(g, r, d, ln(g, r)) && a == b) }
// LR(0) and LR(1) items valid for a string of symbols
pub open spec fn pos_ok(g: Gram, r: int, d: int) -> bool { rl(g, r) && 0 <= d <= ln(g, r) }
pub open spec fn before(g: Gram, r: int, r2: int, d2: int) -> bool { rl(g, r2) && 0 <= d2 < ln(g, r2) && sy(g, r2, d2) == g.lhs[r] }
pub open spec fn before1(g: Gram, r: int, a: int, r2: int, d2: int, b: int) -> bool { before(g, r, r2, d2) && fol(g, r2, d2 + 1, b, a) }
pub open spec fn v0(g: Gram, n: nat, w: Seq<int>, r: int, d: int) -> bool decreases n { n > 0 && pos_ok(g, r, d) && ((w.len() == 0 && r == nr(g) - 1 && d == 0) || (d > 0 && w.len() > 0 && w.last() == sy(g, r, d - 1) && v0(g, (n - 1) as nat, w.drop_last(), r, d - 1)) || (d == 0 && exists|r2: int, d2: int| #[trigger] before(g, r, r2, d2) && v0(g, (n - 1) as nat, w, r2, d2))) }
pub open spec fn v1(g: Gram, n: nat, w: Seq<int>, r: int, d: int, a: int) -> bool decreases n { n > 0 && pos_ok(g, r, d) && ((w.len() == 0 && r == nr(g) - 1 && d == 0 && a == g.end) || (d > 0 && w.len() > 0 && w.last() == sy(g, r, d - 1) && v1(g, (n - 1) as nat, w.drop_last(), r, d - 1, a)) || (d == 0 && exists|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && v1(g, (n - 1) as nat, w, r2, d2, b))) }
pub open spec fn valid0(g: Gram, w: Seq<int>, r: int, d: int) -> bool { exists|n: nat| v0(g, n, w, r, d) }
pub open spec fn valid1(g: Gram, w: Seq<int>, r: int, d: int, a: int) -> bool { exists|n: nat| v1(g, n, w, r, d, a) }
// LALR(1): strings with the same LR(0) items share a state, its lookaheads are those of all of them
pub open spec fn same(g: Gram, w: Seq<int>, v: Seq<int>) -> bool { forall|r: int, d: int| valid0(g, w, r, d) == #[trigger] valid0(g, v, r, d) }
pub open spec fn lookahead(g: Gram, w: Seq<int>, r: int, d: int, a: int) -> bool { exists|v: Seq<int>| same(g, w, v) && #[trigger] valid1(g, v, r, d, a) }
pub open spec fn can_go(g: Gram, w: Seq<int>, x: int) -> bool { exists|r: int, d: int| #[trigger] valid0(g, w, r, d) && d < ln(g, r) && sy(g, r, d) == x }
pub open spec fn can_reduce(g: Gram, w: Seq<int>, r: int, a: int) -> bool { rl(g, r) && valid0(g, w, r, ln(g, r)) && lookahead(g, w, r, ln(g, r), a) }
// yacc: precedence of a rule; shift or reduce
pub open spec fn last_term(g: Gram, x: Seq<u32>) -> int decreases x.len() { if x.len() == 0 { -1 } else if x.last() < g.nt { x.last() as int } else { last_term(g, x.drop_last()) } }
pub open spec fn prec(g: Gram, r: int) -> int { let t = if g.over[r] < g.nt { g.over[r] as int } else { last_term(g, g.rhs[r]@) }; if t < 0 { 0 } else { g.tlev[t] as int } }
pub enum Want { Err, Shift, Accept, Reduce(int) }
pub open spec fn red(g: Gram, r: int) -> Want { if r == nr(g) - 1 { Want::Accept } else { Want::Reduce(r) } }
pub open spec fn resolve(g: Gram, r: int, a: int) -> Want { let p = prec(g, r); let q = g.tlev[a] as int; if p == 0 || q == 0 || p < q { Want::Shift } else if p > q { red(g, r) } else if g.tdir[a] == 0 { red(g, r) } else if g.tdir[a] == 1 { Want::Shift } else { Want::Err } }
pub open spec fn prescribed(g: Gram, w: Seq<int>, a: int, m: Want) -> bool {
  if exists|r: int| #[trigger] can_reduce(g, w, r, a) { exists|r: int| #[trigger] can_reduce(g, w, r, a) && (forall|k: int| k < r ==> !#[trigger] can_reduce(g, w, k, a)) && m == if can_go(g, w, a) { resolve(g, r, a) } else { red(g, r) } }
  else { m == if can_go(g, w, a) { Want::Shift } else { Want::Err } } }
pub open spec fn means(v: int) -> Want { if v == ERR() { Want::Err } else if v == 0 { Want::Accept } else if v > 0 { Want::Shift } else { Want::Reduce(-v - 1) } }
// the state the tables lead to over a string of symbols
pub open spec fn run(t: Tab, w: Seq<int>) -> Option<int> decreases w.len() { if w.len() == 0 { Some(0int) } else { match run(t, w.drop_last()) { None => None, Some(s) => { let x = w.last();
  if 0 <= x < t.nt { if 0 < act(t, s, x) < ERR() { Some(act(t, s, x) - 1) } else { None } } else if t.nt <= x < t.nt + t.nn { if go(t, s, x - t.nt) >= 0 { Some(go(t, s, x - t.nt)) } else { None } } else { None } } } } }
pub open spec fn right_state(g: Gram, t: Tab, w: Seq<int>, s: int) -> bool { 0 <= s < t.ai.len() && (forall|a: int| 0 <= a < g.nt ==> prescribed(g, w, a, means(#[trigger] act(t, s, a)))) && (forall|n: int| 0 <= n < g.nn ==> ((#[trigger] go(t, s, n)) >= 0) == can_go(g, w, g.nt + n)) }
// the theorem: wherever the tables lead, they have what LALR(1) with yacc's conflict rules prescribes
pub open spec fn lalr_tables(g: Gram, t: Tab) -> bool { forall|w: Seq<int>| (#[trigger] run(t, w)) is Some ==> right_state(g, t, w, run(t, w)->Some_0) }
"""
AUT = r"""
// certificate: an automaton. it: items (rule, position), state q has first[q]..first[q+1], the first kern[q] of them its kernel; sof: state of an item; src: for other items, the item they come from; via, dst: edge and item reached over the next symbol; grp: where the items for the next nonterminal start; edges ex (symbol), et (target), es (source), state q has efirst[q]..efirst[q+1]; kb, bk: for the kernel items of an edge's target, where they come from
pub struct Aut { pub it: Vec<(u32, u32)>, pub first: Vec<usize>, pub kern: Vec<usize>, pub sof: Vec<usize>, pub src: Vec<usize>, pub via: Vec<usize>, pub dst: Vec<usize>, pub grp: Vec<usize>, pub ex: Vec<u32>, pub et: Vec<usize>, pub es: Vec<usize>, pub efirst: Vec<usize>, pub kb: Vec<usize>, pub bk: Vec<usize> }
pub open spec fn ns(m: Aut) -> int { m.kern.len() as int }
pub open spec fn ir(m: Aut, i: int) -> int { m.it[i].0 as int }
pub open spec fn id(m: Aut, i: int) -> int { m.it[i].1 as int }
pub open spec fn inq(m: Aut, q: int, i: int) -> bool { m.first[q] <= i < m.first[q + 1] && i < m.it.len() }
pub open spec fn ine(m: Aut, q: int, e: int) -> bool { m.efirst[q] <= e < m.efirst[q + 1] && e < m.ex.len() }
pub open spec fn st_ok(g: Gram, m: Aut, q: int) -> bool { m.first[q] < m.first[q + 1] <= m.it.len() && 1 <= m.kern[q] && m.first[q] + m.kern[q] <= m.first[q + 1] && m.efirst[q] <= m.efirst[q + 1] <= m.ex.len()
  && (forall|i: int| m.first[q] <= i < m.first[q + 1] ==> #[trigger] m.sof[i] == q) && (forall|e: int| m.efirst[q] <= e < m.efirst[q + 1] ==> #[trigger] m.es[e] == q) && (q == 0 ==> m.kern[0] == 1 && ir(m, m.first[0] as int) == nr(g) - 1 && id(m, m.first[0] as int) == 0) }
pub open spec fn grp1(g: Gram, m: Aut, q: int, s: int, n: int, k: int) -> bool { inq(m, q, s + k) && ir(m, s + k) == g.by[n]@[k] && id(m, s + k) == 0 }
pub open spec fn grp_ok(g: Gram, m: Aut, q: int, s: int, n: int) -> bool { forall|k: int| 0 <= k < g.by[n]@.len() ==> #[trigger] grp1(g, m, q, s, n, k) }
pub open spec fn next_ok(g: Gram, m: Aut, i: int) -> bool { let q = m.sof[i] as int; let r = ir(m, i); let d = id(m, i); let e = m.via[i] as int; let x = sy(g, r, d);
  ine(m, q, e) && m.ex[e] == x && m.et[e] < ns(m) && inq(m, m.et[e] as int, m.dst[i] as int) && ir(m, m.dst[i] as int) == r && id(m, m.dst[i] as int) == d + 1 && (x >= g.nt ==> grp_ok(g, m, q, m.grp[i] as int, x - g.nt)) }
pub open spec fn from_ok(g: Gram, m: Aut, i: int) -> bool { let q = m.sof[i] as int; let j = m.src[i] as int; id(m, i) == 0 && m.first[q] <= j < i && rl(g, ir(m, j)) && id(m, j) < ln(g, ir(m, j)) && sy(g, ir(m, j), id(m, j)) == g.lhs[ir(m, i)] }
pub open spec fn it_ok(g: Gram, m: Aut, i: int) -> bool { let q = m.sof[i] as int; q < ns(m) && inq(m, q, i) && pos_ok(g, ir(m, i), id(m, i)) && (id(m, i) < ln(g, ir(m, i)) ==> next_ok(g, m, i))
  && if i < m.first[q] + m.kern[q] { (q != 0 ==> id(m, i) > 0) && (i > m.first[q] ==> less(m, i - 1, i)) } else { from_ok(g, m, i) } }
pub open spec fn less(m: Aut, i: int, j: int) -> bool { ir(m, i) < ir(m, j) || (ir(m, i) == ir(m, j) && id(m, i) < id(m, j)) }
pub open spec fn back(g: Gram, m: Aut, e: int, k: int) -> bool { let b = m.bk[m.kb[e] + k] as int; let i = m.first[m.et[e] as int] + k; m.kb[e] + k < m.bk.len() && inq(m, m.es[e] as int, b) && ir(m, b) == ir(m, i) && id(m, b) + 1 == id(m, i) && rl(g, ir(m, b)) && id(m, b) < ln(g, ir(m, b)) && sy(g, ir(m, b), id(m, b)) == m.ex[e] }
pub open spec fn ed_ok(g: Gram, m: Aut, e: int) -> bool { let q = m.es[e] as int; q < ns(m) && ine(m, q, e) && 0 < m.et[e] < ns(m) && m.ex[e] < g.nt + g.nn && (e > m.efirst[q] ==> m.ex[e - 1] < m.ex[e]) && (forall|k: int| 0 <= k < m.kern[m.et[e] as int] ==> #[trigger] back(g, m, e, k)) }
pub open spec fn hask(m: Aut, q: int, r: int, d: int) -> bool { exists|k: int| 0 <= k < m.kern[q] && ir(m, #[trigger] at(m, q, k)) == r && id(m, at(m, q, k)) == d }
pub open spec fn at(m: Aut, q: int, k: int) -> int { m.first[q] + k }
pub open spec fn differ(m: Aut, p: int, q: int) -> bool { exists|r: int, d: int| #[trigger] hask(m, p, r, d) != hask(m, q, r, d) }
pub open spec fn lens(m: Aut) -> bool { let n = m.it.len(); let c = m.ex.len(); ns(m) > 0 && m.first.len() == ns(m) + 1 && m.efirst.len() == ns(m) + 1 && m.sof.len() == n && m.src.len() == n && m.via.len() == n && m.dst.len() == n && m.grp.len() == n && m.et.len() == c && m.es.len() == c && m.kb.len() == c && n < 0x4000_0000 && c < 0x4000_0000 && m.bk.len() < 0x4000_0000 }
#[verifier::opaque] pub open spec fn sts_ok(g: Gram, m: Aut) -> bool { forall|q: int| 0 <= q < ns(m) ==> #[trigger] st_ok(g, m, q) }
#[verifier::opaque] pub open spec fn its_ok(g: Gram, m: Aut) -> bool { forall|i: int| 0 <= i < m.it.len() ==> #[trigger] it_ok(g, m, i) }
#[verifier::opaque] pub open spec fn eds_ok(g: Gram, m: Aut) -> bool { forall|e: int| 0 <= e < m.ex.len() ==> #[trigger] ed_ok(g, m, e) }
#[verifier::opaque] pub open spec fn all_differ(m: Aut) -> bool { forall|p: int, q: int| 0 <= p < q < ns(m) ==> #[trigger] differ(m, p, q) }
pub open spec fn aut_ok(g: Gram, m: Aut) -> bool { gram_ok(g) && lens(m) && sts_ok(g, m) && its_ok(g, m) && eds_ok(g, m) && all_differ(m) }
proof fn st(g: Gram, m: Aut, q: int) requires aut_ok(g, m), 0 <= q < ns(m) ensures st_ok(g, m, q) { reveal(sts_ok); }
proof fn itm(g: Gram, m: Aut, i: int) requires aut_ok(g, m), 0 <= i < m.it.len() ensures it_ok(g, m, i), st_ok(g, m, m.sof[i] as int) { reveal(its_ok); assert(it_ok(g, m, i)); st(g, m, m.sof[i] as int); }
proof fn edg(g: Gram, m: Aut, e: int) requires aut_ok(g, m), 0 <= e < m.ex.len() ensures ed_ok(g, m, e) { reveal(eds_ok); }
pub open spec fn hasi(m: Aut, q: int, r: int, d: int) -> bool { exists|i: int| #[trigger] inq(m, q, i) && ir(m, i) == r && id(m, i) == d }
pub open spec fn edge(m: Aut, p: int, x: int, q: int) -> bool { exists|e: int| #[trigger] ine(m, p, e) && m.ex[e] == x && m.et[e] == q }
pub open spec fn path(m: Aut, w: Seq<int>, q: int) -> bool decreases w.len() { 0 <= q < ns(m) && if w.len() == 0 { q == 0 } else { exists|p: int| #[trigger] edge(m, p, w.last(), q) && path(m, w.drop_last(), p) } }
// at most one edge per symbol
proof fn sorted_edges(g: Gram, m: Aut, q: int, e: int, f: int) requires aut_ok(g, m), 0 <= q < ns(m), ine(m, q, e), ine(m, q, f), e < f ensures m.ex[e] < m.ex[f] decreases f - e
{ st(g, m, q); edg(g, m, f); assert(m.es[f] == q); if e < f - 1 { sorted_edges(g, m, q, e, f - 1); } }
proof fn one_edge(g: Gram, m: Aut, q: int, e: int, f: int) requires aut_ok(g, m), 0 <= q < ns(m), ine(m, q, e), ine(m, q, f), m.ex[e] == m.ex[f] ensures e == f { if e < f { sorted_edges(g, m, q, e, f); } if f < e { sorted_edges(g, m, q, f, e); } }
proof fn edge_target(g: Gram, m: Aut, p: int, x: int, q: int) requires aut_ok(g, m), 0 <= p < ns(m), edge(m, p, x, q) ensures 0 < q < ns(m) { st(g, m, p); let e = choose|e: int| #[trigger] ine(m, p, e) && m.ex[e] == x && m.et[e] == q; edg(g, m, e); }
// the items of a state are those valid for every string that leads to it
proof fn items_valid(g: Gram, m: Aut, w: Seq<int>, q: int, i: int) requires aut_ok(g, m), path(m, w, q), inq(m, q, i) ensures valid0(g, w, ir(m, i), id(m, i)) decreases w.len(), i
{ st(g, m, q); itm(g, m, i); assert(m.sof[i] == q); let r = ir(m, i); let d = id(m, i);
  if i < m.first[q] + m.kern[q] {
    if w.len() == 0 { assert(i == m.first[0]); assert(v0(g, 1, w, r, d)); }
    else { let p = choose|p: int| #[trigger] edge(m, p, w.last(), q) && path(m, w.drop_last(), p); edge_target(g, m, p, w.last(), q); let e = choose|e: int| #[trigger] ine(m, p, e) && m.ex[e] == w.last() && m.et[e] == q; st(g, m, p); edg(g, m, e); assert(m.es[e] == p); let k = i - m.first[q]; assert(back(g, m, e, k)); let b = m.bk[m.kb[e] + k] as int;
      items_valid(g, m, w.drop_last(), p, b); let n = choose|n: nat| v0(g, n, w.drop_last(), ir(m, b), id(m, b)); assert(v0(g, n + 1, w, r, d)); } }
  else { let j = m.src[i] as int; assert(inq(m, q, j)); items_valid(g, m, w, q, j); let n = choose|n: nat| v0(g, n, w, ir(m, j), id(m, j)); assert(before(g, r, ir(m, j), id(m, j))); assert(v0(g, n + 1, w, r, d)); } }
proof fn advance(g: Gram, m: Aut, p: int, q: int, i: int) requires aut_ok(g, m), 0 <= p < ns(m), inq(m, p, i), id(m, i) < ln(g, ir(m, i)), edge(m, p, sy(g, ir(m, i), id(m, i)), q) ensures inq(m, q, m.dst[i] as int), ir(m, m.dst[i] as int) == ir(m, i), id(m, m.dst[i] as int) == id(m, i) + 1, hasi(m, q, ir(m, i), id(m, i) + 1)
{ st(g, m, p); itm(g, m, i); assert(m.sof[i] == p); let e = choose|e: int| #[trigger] ine(m, p, e) && m.ex[e] == sy(g, ir(m, i), id(m, i)) && m.et[e] == q; one_edge(g, m, p, e, m.via[i] as int); }
proof fn group(g: Gram, m: Aut, q: int, i: int, r: int) -> (j: int) requires aut_ok(g, m), 0 <= q < ns(m), inq(m, q, i), id(m, i) < ln(g, ir(m, i)), rl(g, r), sy(g, ir(m, i), id(m, i)) == g.lhs[r] ensures inq(m, q, j), ir(m, j) == r, id(m, j) == 0, j == m.grp[i] + g.at[r], r < nr(g) - 1, g.at[r] < g.by[g.lhs[r] - g.nt]@.len()
{ st(g, m, q); itm(g, m, i); assert(m.sof[i] == q); assert(syms_ok(g, ir(m, i))); assert(rule_in(g, r)); let n = g.lhs[r] - g.nt; assert(g.by[n]@[g.at[r] as int] == r); assert(grp_ok(g, m, q, m.grp[i] as int, n)); let a = g.at[r] as int; assert(grp1(g, m, q, m.grp[i] as int, n, a)); m.grp[i] + g.at[r] }
proof fn items_all(g: Gram, m: Aut, n: nat, w: Seq<int>, q: int, r: int, d: int) requires aut_ok(g, m), path(m, w, q), v0(g, n, w, r, d) ensures hasi(m, q, r, d) decreases n
{ st(g, m, q);
  if w.len() == 0 && r == nr(g) - 1 && d == 0 { assert(inq(m, q, m.first[0] as int)); }
  else if d > 0 { let p = choose|p: int| #[trigger] edge(m, p, w.last(), q) && path(m, w.drop_last(), p); items_all(g, m, (n - 1) as nat, w.drop_last(), p, r, d - 1); let i = choose|i: int| #[trigger] inq(m, p, i) && ir(m, i) == r && id(m, i) == d - 1; advance(g, m, p, q, i); }
  else { let (r2, d2) = choose|r2: int, d2: int| #[trigger] before(g, r, r2, d2) && v0(g, (n - 1) as nat, w, r2, d2); items_all(g, m, (n - 1) as nat, w, q, r2, d2); let i = choose|i: int| #[trigger] inq(m, q, i) && ir(m, i) == r2 && id(m, i) == d2; let j = group(g, m, q, i, r); } }
proof fn path_exists(g: Gram, m: Aut, n: nat, w: Seq<int>, r: int, d: int) -> (q: int) requires aut_ok(g, m), v0(g, n, w, r, d) ensures path(m, w, q) decreases n
{ if w.len() == 0 && r == nr(g) - 1 && d == 0 { assert(path(m, w, 0)); 0 }
  else if d > 0 { let p = path_exists(g, m, (n - 1) as nat, w.drop_last(), r, d - 1); items_all(g, m, (n - 1) as nat, w.drop_last(), p, r, d - 1); let i = choose|i: int| #[trigger] inq(m, p, i) && ir(m, i) == r && id(m, i) == d - 1; itm(g, m, i); st(g, m, p); assert(m.sof[i] == p); let e = m.via[i] as int; let q = m.et[e] as int; assert(edge(m, p, w.last(), q)); edge_target(g, m, p, w.last(), q); q }
  else { let (r2, d2) = choose|r2: int, d2: int| #[trigger] before(g, r, r2, d2) && v0(g, (n - 1) as nat, w, r2, d2); path_exists(g, m, (n - 1) as nat, w, r2, d2) } }
proof fn has_kernel(g: Gram, m: Aut, q: int, r: int, d: int) requires aut_ok(g, m), 0 <= q < ns(m) ensures hask(m, q, r, d) ==> hasi(m, q, r, d), d > 0 && hasi(m, q, r, d) ==> hask(m, q, r, d), q != 0 ==> (hasi(m, q, nr(g) - 1, 0) == false), hask(m, q, r, d) && d == 0 ==> q == 0 && r == nr(g) - 1, d < 0 ==> !hask(m, q, r, d)
{ st(g, m, q);
  if hask(m, q, r, d) { let k = choose|k: int| 0 <= k < m.kern[q] && ir(m, #[trigger] at(m, q, k)) == r && id(m, at(m, q, k)) == d; assert(inq(m, q, at(m, q, k))); itm(g, m, at(m, q, k)); assert(m.sof[at(m, q, k)] == q); }
  if d > 0 && hasi(m, q, r, d) { let i = choose|i: int| #[trigger] inq(m, q, i) && ir(m, i) == r && id(m, i) == d; itm(g, m, i); assert(m.sof[i] == q); let k = i - m.first[q]; assert(at(m, q, k) == i); }
  if q != 0 && hasi(m, q, nr(g) - 1, 0) { let i = choose|i: int| #[trigger] inq(m, q, i) && ir(m, i) == nr(g) - 1 && id(m, i) == 0; itm(g, m, i); assert(m.sof[i] == q); let j = m.src[i] as int; assert(syms_ok(g, ir(m, j))); assert(sy(g, ir(m, j), id(m, j)) < g.nt + g.nn); } }
proof fn distinct(g: Gram, m: Aut, p: int, q: int) requires aut_ok(g, m), 0 <= p < q < ns(m), forall|r: int, d: int| hasi(m, p, r, d) == #[trigger] hasi(m, q, r, d) ensures false
{ reveal(all_differ); assert(differ(m, p, q)); let (r, d) = choose|r: int, d: int| #[trigger] hask(m, p, r, d) != hask(m, q, r, d); has_kernel(g, m, p, r, d); has_kernel(g, m, q, r, d); if d == 0 { has_kernel(g, m, q, nr(g) - 1, 0); assert(hasi(m, p, nr(g) - 1, 0) == hasi(m, q, nr(g) - 1, 0)); } }
proof fn exact(g: Gram, m: Aut, w: Seq<int>, q: int, r: int, d: int) requires aut_ok(g, m), path(m, w, q) ensures valid0(g, w, r, d) == hasi(m, q, r, d)
{ if valid0(g, w, r, d) { let n = choose|n: nat| v0(g, n, w, r, d); items_all(g, m, n, w, q, r, d); } if hasi(m, q, r, d) { let i = choose|i: int| #[trigger] inq(m, q, i) && ir(m, i) == r && id(m, i) == d; items_valid(g, m, w, q, i); } }
proof fn same_state(g: Gram, m: Aut, w: Seq<int>, p: int, v: Seq<int>, q: int) requires aut_ok(g, m), path(m, w, p), path(m, v, q) ensures p == q <==> same(g, w, v)
{ if p == q { assert forall|r: int, d: int| valid0(g, w, r, d) == #[trigger] valid0(g, v, r, d) by { exact(g, m, w, p, r, d); exact(g, m, v, q, r, d); } }
  if same(g, w, v) && p != q { assert forall|r: int, d: int| hasi(m, p, r, d) == #[trigger] hasi(m, q, r, d) by { exact(g, m, w, p, r, d); exact(g, m, v, q, r, d); assert(valid0(g, w, r, d) == valid0(g, v, r, d)); } if p < q { distinct(g, m, p, q); } else { assert forall|r: int, d: int| hasi(m, q, r, d) == #[trigger] hasi(m, p, r, d) by { assert(hasi(m, p, r, d) == hasi(m, q, r, d)); } distinct(g, m, q, p); } } }
// lookaheads over the automaton
pub open spec fn la(g: Gram, m: Aut, n: nat, q: int, r: int, d: int, a: int) -> bool decreases n { n > 0 && pos_ok(g, r, d) && 0 <= q < ns(m) && ((q == 0 && r == nr(g) - 1 && d == 0 && a == g.end) || (d > 0 && exists|p: int| #[trigger] edge(m, p, sy(g, r, d - 1), q) && la(g, m, (n - 1) as nat, p, r, d - 1, a)) || (d == 0 && exists|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && la(g, m, (n - 1) as nat, q, r2, d2, b))) }
proof fn la_valid(g: Gram, m: Aut, n: nat, q: int, r: int, d: int, a: int) -> (w: Seq<int>) requires aut_ok(g, m), la(g, m, n, q, r, d, a) ensures path(m, w, q), valid1(g, w, r, d, a) decreases n
{ if q == 0 && r == nr(g) - 1 && d == 0 && a == g.end { let w = Seq::<int>::empty(); assert(v1(g, 1, w, r, d, a)); w }
  else if d > 0 { let p = choose|p: int| #[trigger] edge(m, p, sy(g, r, d - 1), q) && la(g, m, (n - 1) as nat, p, r, d - 1, a); let v = la_valid(g, m, (n - 1) as nat, p, r, d - 1, a); let x = sy(g, r, d - 1); let w = v.push(x); assert(w.drop_last() =~= v); let d1 = d - 1; let k = choose|k: nat| v1(g, k, v, r, d1, a); assert(v1(g, k + 1, w, r, d, a)); w }
  else { let (r2, d2, b) = choose|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && la(g, m, (n - 1) as nat, q, r2, d2, b); let w = la_valid(g, m, (n - 1) as nat, q, r2, d2, b); let k = choose|k: nat| v1(g, k, w, r2, d2, b);  assert(v1(g, k + 1, w, r, d, a)); w } }
proof fn valid_la(g: Gram, m: Aut, n: nat, w: Seq<int>, q: int, r: int, d: int, a: int) requires aut_ok(g, m), path(m, w, q), v1(g, n, w, r, d, a) ensures la(g, m, n, q, r, d, a) decreases n
{ if w.len() == 0 && r == nr(g) - 1 && d == 0 && a == g.end {}
  else if d > 0 { let p = choose|p: int| #[trigger] edge(m, p, w.last(), q) && path(m, w.drop_last(), p); valid_la(g, m, (n - 1) as nat, w.drop_last(), p, r, d - 1, a);  }
  else { let (r2, d2, b) = choose|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && v1(g, (n - 1) as nat, w, r2, d2, b); valid_la(g, m, (n - 1) as nat, w, q, r2, d2, b);  } }
proof fn v1_v0(g: Gram, n: nat, w: Seq<int>, r: int, d: int, a: int) requires v1(g, n, w, r, d, a) ensures v0(g, n, w, r, d) decreases n
{ if w.len() == 0 && r == nr(g) - 1 && d == 0 && a == g.end {} else if d > 0 { v1_v0(g, (n - 1) as nat, w.drop_last(), r, d - 1, a); } else { let (r2, d2, b) = choose|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && v1(g, (n - 1) as nat, w, r2, d2, b); v1_v0(g, (n - 1) as nat, w, r2, d2, b); assert(before(g, r, r2, d2)); } }
pub open spec fn inla(g: Gram, m: Aut, q: int, r: int, d: int, a: int) -> bool { exists|n: nat| la(g, m, n, q, r, d, a) }
proof fn look_exact(g: Gram, m: Aut, w: Seq<int>, q: int, r: int, d: int, a: int) requires aut_ok(g, m), path(m, w, q) ensures lookahead(g, w, r, d, a) == inla(g, m, q, r, d, a)
{ if lookahead(g, w, r, d, a) { let v = choose|v: Seq<int>| same(g, w, v) && #[trigger] valid1(g, v, r, d, a); let n = choose|n: nat| v1(g, n, v, r, d, a); v1_v0(g, n, v, r, d, a); let p = path_exists(g, m, n, v, r, d); same_state(g, m, w, q, v, p); valid_la(g, m, n, v, p, r, d, a); }
  if inla(g, m, q, r, d, a) { let n = choose|n: nat| la(g, m, n, q, r, d, a); let v = la_valid(g, m, n, q, r, d, a); same_state(g, m, w, q, v, q); } }
"""
BITS = r"""
// rows of bits
pub open spec fn bit(v: Seq<u64>, a: int) -> bool { 0 <= a && a / 64 < v.len() && (v[a / 64] >> ((a % 64) as u64)) & 1u64 == 1u64 }
proof fn or_bit(x: u64, y: u64, s: u64) requires s < 64 ensures ((x | y) >> s) & 1u64 == 1u64 <==> ((x >> s) & 1u64 == 1u64 || (y >> s) & 1u64 == 1u64) { assert(((x | y) >> s) & 1u64 == 1u64 <==> ((x >> s) & 1u64 == 1u64 || (y >> s) & 1u64 == 1u64)) by (bit_vector) requires s < 64; }
proof fn sub_bit(x: u64, y: u64, s: u64) requires s < 64, x & !y == 0, (x >> s) & 1u64 == 1u64 ensures (y >> s) & 1u64 == 1u64 { assert((y >> s) & 1u64 == 1u64) by (bit_vector) requires s < 64, x & !y == 0, (x >> s) & 1u64 == 1u64; }
proof fn one_bit(x: u64, k: u64, s: u64) requires s < 64, k < 64 ensures ((x | (1u64 << k)) >> s) & 1u64 == 1u64 <==> ((x >> s) & 1u64 == 1u64 || s == k) { assert(((x | (1u64 << k)) >> s) & 1u64 == 1u64 <==> ((x >> s) & 1u64 == 1u64 || s == k)) by (bit_vector) requires s < 64, k < 64; }
proof fn no_bit(s: u64) requires s < 64 ensures (0u64 >> s) & 1u64 == 0u64 { assert((0u64 >> s) & 1u64 == 0u64) by (bit_vector) requires s < 64; }
proof fn some_bit(x: u64) -> (s: u64) requires x != 0 ensures s < 64, (x >> s) & 1u64 == 1u64 decreases x
{ assert(x & 1u64 == 0u64 || x & 1u64 == 1u64) by (bit_vector); if x & 1 == 1 { assert((x >> 0u64) & 1u64 == 1u64) by (bit_vector) requires x & 1u64 == 1u64; 0 } else { let h = x >> 1u64; assert(h != 0 && h < x && (x >> 63u64) & 1u64 == (h >> 62u64) & 1u64 && (h >> 63u64) & 1u64 == 0u64) by (bit_vector) requires x != 0u64, x & 1u64 == 0u64, h == x >> 1u64; let s = some_bit(h); if s == 63 { 0 } else { let u = (s + 1) as u64; assert((x >> u) & 1u64 == 1u64) by (bit_vector) requires s < 63u64, u == s + 1u64, h == x >> 1u64, (h >> s) & 1u64 == 1u64; u } } }
pub open spec fn none(v: Seq<u64>) -> bool { forall|a: int| 0 <= a ==> !#[trigger] bit(v, a) }
pub open spec fn subset(v: Seq<u64>, w: Seq<u64>) -> bool { forall|a: int| #[trigger] bit(v, a) ==> bit(w, a) }
fn b_get(v: &Vec<u64>, a: usize) -> (b: bool) ensures b == bit(v@, a as int) { if a / 64 < v.len() { (v[a / 64] >> ((a % 64) as u64)) & 1u64 == 1u64 } else { false } }
fn b_zero(w: usize) -> (v: Vec<u64>) ensures v.len() == w, none(v@) { let mut v: Vec<u64> = Vec::new(); let mut i = 0; while i < w invariant v.len() == i, i <= w, forall|k: int| 0 <= k < i ==> v[k] == 0u64 decreases w - i { v.push(0); i += 1; }
  proof { assert forall|a: int| 0 <= a implies !#[trigger] bit(v@, a) by { if a / 64 < v.len() { no_bit((a % 64) as u64); } } } v }
fn b_set(v: &mut Vec<u64>, a: usize) requires a < old(v).len() * 64 ensures final(v).len() == old(v).len(), forall|c: int| #[trigger] bit(final(v)@, c) == (bit(old(v)@, c) || c == a)
{ let k = a / 64; let s = (a % 64) as u64; let x = v[k]; let ghost v0 = v@; v.set(k, x | (1u64 << s)); proof { assert forall|c: int| #[trigger] bit(v@, c) == (bit(v0, c) || c == a) by { if 0 <= c && c / 64 == k { one_bit(x, s, (c % 64) as u64); } } } }
fn b_sub(v: &Vec<u64>, w: &Vec<u64>) -> (b: bool) requires v.len() == w.len() ensures b ==> subset(v@, w@)
{ let mut i = 0; let n = v.len(); while i < n invariant n == v.len(), n == w.len(), i <= n, forall|k: int| 0 <= k < i ==> #[trigger] v[k] & !w[k] == 0 decreases n - i { if v[i] & !w[i] != 0 { return false; } i += 1; }
  proof { assert forall|a: int| #[trigger] bit(v@, a) implies bit(w@, a) by { assert(v[a / 64] & !w[a / 64] == 0); sub_bit(v[a / 64], w[a / 64], (a % 64) as u64); } } true }
fn b_or(v: &Vec<u64>, w: &Vec<u64>) -> (r: Vec<u64>) requires v.len() == w.len() ensures r.len() == v.len(), forall|a: int| #[trigger] bit(r@, a) == (bit(v@, a) || bit(w@, a))
{ let mut r: Vec<u64> = Vec::with_capacity(v.len()); let mut i = 0; let n = v.len(); while i < n invariant n == v.len(), n == w.len(), r.len() == i, i <= n, forall|k: int| 0 <= k < i ==> #[trigger] r[k] == v[k] | w[k] decreases n - i { r.push(v[i] | w[i]); i += 1; }
  proof { assert forall|a: int| #[trigger] bit(r@, a) == (bit(v@, a) || bit(w@, a)) by { if 0 <= a && a / 64 < n { assert(r[a / 64] == v[a / 64] | w[a / 64]); or_bit(v[a / 64], w[a / 64], (a % 64) as u64); } } } r }
fn b_any(v: &Vec<u64>) -> (b: bool) ensures b == !none(v@)
{ let mut i = 0; let n = v.len(); while i < n invariant n == v.len(), i <= n, forall|k: int| 0 <= k < i ==> #[trigger] v[k] == 0u64 decreases n - i { if v[i] != 0 { proof { let s = some_bit(v[i as int]); let a = i * 64 + s; assert(a / 64 == i && a % 64 == s); assert(bit(v@, a)); } return true; } i += 1; }
  proof { assert forall|a: int| 0 <= a implies !#[trigger] bit(v@, a) by { if a / 64 < n { assert(v[a / 64] == 0); no_bit((a % 64) as u64); } } } false }
"""
NUL = r"""
pub open spec fn ny(g: Gram) -> int { g.nt + g.nn + 1 }
// nullable symbols
proof fn nul_mono(g: Gram, n: nat, m: nat, y: int) requires n <= m, nul(g, n, y) ensures nul(g, m, y) decreases n
{ let r = choose|r: int| #[trigger] prod(g, y, r) && forall|k: int| 0 <= k < ln(g, r) ==> nul(g, (n - 1) as nat, #[trigger] sy(g, r, k)); assert forall|k: int| 0 <= k < ln(g, r) implies nul(g, (m - 1) as nat, #[trigger] sy(g, r, k)) by { nul_mono(g, (n - 1) as nat, (m - 1) as nat, sy(g, r, k)); } }
proof fn nul_common(g: Gram, r: int, i: int) -> (n: nat) requires 0 <= i <= ln(g, r), nulls(g, r, 0, i) ensures forall|k: int| 0 <= k < i ==> nul(g, n, #[trigger] sy(g, r, k)) decreases i
{ if i == 0 { 0 } else { let n = nul_common(g, r, i - 1); let y = sy(g, r, i - 1); assert(nullable(g, y)); let m = choose|m: nat| nul(g, m, y); let x = if n < m { m } else { n }; assert forall|k: int| 0 <= k < i implies nul(g, x, #[trigger] sy(g, r, k)) by { if k == i - 1 { nul_mono(g, m, x, y); } else { nul_mono(g, n, x, sy(g, r, k)); } } x } }
proof fn nul_rule(g: Gram, r: int) requires rl(g, r), nulls(g, r, 0, ln(g, r)) ensures nullable(g, g.lhs[r] as int) { let n = nul_common(g, r, ln(g, r)); assert(prod(g, g.lhs[r] as int, r)); assert(nul(g, n + 1, g.lhs[r] as int)); }
pub open spec fn nb_sound(g: Gram, b: Seq<bool>) -> bool { b.len() == ny(g) && forall|y: int| 0 <= y < b.len() && #[trigger] b[y] ==> nullable(g, y) }
pub open spec fn nb_ok(g: Gram, b: Seq<bool>) -> bool { b.len() == ny(g) && forall|y: int| 0 <= y < b.len() ==> (#[trigger] b[y]) == nullable(g, y) }
pub open spec fn all_nb(g: Gram, b: Seq<bool>, r: int, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> b[#[trigger] sy(g, r, k)] }
pub open spec fn nb_closed(g: Gram, b: Seq<bool>, r: int) -> bool { all_nb(g, b, r, 0, ln(g, r)) ==> b[g.lhs[r] as int] }
proof fn lhs_in(g: Gram, r: int) requires gram_ok(g), rl(g, r) ensures g.lhs[r] < ny(g) { assert(rule_in(g, r)); }
proof fn nul_closed(g: Gram, b: Seq<bool>, n: nat, y: int) requires gram_ok(g), b.len() == ny(g), forall|r: int| rl(g, r) ==> #[trigger] nb_closed(g, b, r), nul(g, n, y) ensures 0 <= y < b.len(), b[y] decreases n
{ let r = choose|r: int| #[trigger] prod(g, y, r) && forall|k: int| 0 <= k < ln(g, r) ==> nul(g, (n - 1) as nat, #[trigger] sy(g, r, k)); lhs_in(g, r); assert(nb_closed(g, b, r)); assert forall|k: int| 0 <= k < ln(g, r) implies b[#[trigger] sy(g, r, k)] by { nul_closed(g, b, (n - 1) as nat, sy(g, r, k)); } }
fn x_all(g: &Gram, b: &Vec<bool>, r: usize, d: usize) -> (v: bool) requires gram_ok(*g), r < g.lhs.len(), d <= ln(*g, r as int), b.len() == ny(*g) ensures v == all_nb(*g, b@, r as int, d as int, ln(*g, r as int))
{ let x = &g.rhs[r]; let n = x.len(); let mut i = d; proof { assert(syms_ok(*g, r as int)); }
  while i < n invariant gram_ok(*g), r < g.lhs.len(), x == &g.rhs[r as int], n == x.len(), d <= i <= n, b.len() == ny(*g), syms_ok(*g, r as int), all_nb(*g, b@, r as int, d as int, i as int) decreases n - i
  { let ghost y = sy(*g, r as int, i as int); assert(y == x[i as int]); if !b[x[i] as usize] { return false; } i += 1; } true }
fn x_nullable(g: &Gram) -> (o: Option<Vec<bool>>) requires gram_ok(*g) ensures o matches Some(b) ==> nb_ok(*g, b@)
{ let n = g.lhs.len(); let len = g.nt as usize + g.nn as usize + 1; let mut b: Vec<bool> = Vec::new(); while b.len() < len invariant b.len() <= len, forall|k: int| 0 <= k < b.len() ==> !#[trigger] b[k] decreases len - b.len() { b.push(false); }
  let mut rounds = 0usize; let mut more = true;
  while more && rounds < len invariant gram_ok(*g), n == g.lhs.len(), len == ny(*g), nb_sound(*g, b@) decreases len - rounds
  { more = false; let mut r = 0usize;
    while r < n invariant gram_ok(*g), n == g.lhs.len(), r <= n, len == ny(*g), nb_sound(*g, b@) decreases n - r
    { proof { lhs_in(*g, r as int); assert(syms_ok(*g, r as int)); } let l = g.lhs[r] as usize;
      if !b[l] && x_all(g, &b, r, 0) { proof { assert forall|k: int| 0 <= k < ln(*g, r as int) implies nullable(*g, #[trigger] sy(*g, r as int, k)) by { assert(b[sy(*g, r as int, k)]); } nul_rule(*g, r as int); } b.set(l, true); more = true; }
      r += 1; }
    rounds += 1; }
  let mut r = 0usize;
  while r < n invariant gram_ok(*g), n == g.lhs.len(), r <= n, nb_sound(*g, b@), forall|k: int| 0 <= k < r ==> #[trigger] nb_closed(*g, b@, k) decreases n - r
  { proof { lhs_in(*g, r as int); } let l = g.lhs[r] as usize; if !b[l] && x_all(g, &b, r, 0) { return None; } r += 1; }
  proof { assert forall|y: int| 0 <= y < b.len() implies (#[trigger] b[y]) == nullable(*g, y) by { if nullable(*g, y) { let m = choose|m: nat| nul(*g, m, y); nul_closed(*g, b@, m, y); } } }
  Some(b) }
"""
FST = r"""
// first terminals
pub open spec fn rows(f: Seq<Vec<u64>>, n: int, w: int) -> bool { f.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] f[i])@.len() == w }
pub open spec fn f_sound(g: Gram, v: Seq<u64>, y: int) -> bool { forall|a: int| #[trigger] bit(v, a) ==> first(g, y, a) }
pub open spec fn fs_sound(g: Gram, f: Seq<Vec<u64>>) -> bool { forall|y: int| 0 <= y < f.len() ==> f_sound(g, #[trigger] f[y]@, y) }
pub open spec fn f_exact(g: Gram, v: Seq<u64>, y: int) -> bool { forall|a: int| 0 <= a ==> (#[trigger] bit(v, a)) == first(g, y, a) }
pub open spec fn fs_ok(g: Gram, f: Seq<Vec<u64>>, w: int) -> bool { rows(f, ny(g), w) && forall|y: int| 0 <= y < f.len() ==> f_exact(g, #[trigger] f[y]@, y) }
pub open spec fn fs_closed(g: Gram, b: Seq<bool>, f: Seq<Vec<u64>>, r: int) -> bool { forall|k: int| 0 <= k < ln(g, r) && all_nb(g, b, r, 0, k) ==> subset(f[#[trigger] sy(g, r, k)]@, f[g.lhs[r] as int]@) }
proof fn first_step(g: Gram, r: int, k: int, a: int) requires rl(g, r), 0 <= k < ln(g, r), nulls(g, r, 0, k), first(g, sy(g, r, k), a) ensures first(g, g.lhs[r] as int, a)
{ let n = choose|n: nat| fst(g, n, sy(g, r, k), a); assert(fsym(g, g.lhs[r] as int, r, k)); assert(fst(g, n + 1, g.lhs[r] as int, a)); }
proof fn first_closed(g: Gram, b: Seq<bool>, f: Seq<Vec<u64>>, n: nat, y: int, a: int) requires gram_ok(g), nb_ok(g, b), f.len() == ny(g), forall|r: int| rl(g, r) ==> #[trigger] fs_closed(g, b, f, r), forall|c: int| 0 <= c < g.nt ==> bit((#[trigger] f[c])@, c), fst(g, n, y, a), 0 <= a ensures y < f.len(), 0 <= y ==> bit(f[y]@, a) decreases n
{ if y < g.nt && y == a {} else { let (r, k) = choose|r: int, k: int| #[trigger] fsym(g, y, r, k) && fst(g, (n - 1) as nat, sy(g, r, k), a); lhs_in(g, r); assert(syms_ok(g, r)); first_closed(g, b, f, (n - 1) as nat, sy(g, r, k), a); assert(fs_closed(g, b, f, r)); assert forall|i: int| 0 <= i < k implies b[#[trigger] sy(g, r, i)] by { assert(nullable(g, sy(g, r, i))); } assert(subset(f[sy(g, r, k)]@, f[y]@)); } }
fn x_first_rule(g: &Gram, b: &Vec<bool>, f: &mut Vec<Vec<u64>>, r: usize, w: usize) -> (more: bool) requires gram_ok(*g), nb_ok(*g, b@), r < g.lhs.len(), rows(old(f)@, ny(*g), w as int), fs_sound(*g, old(f)@) ensures rows(final(f)@, ny(*g), w as int), fs_sound(*g, final(f)@)
{ let x = &g.rhs[r]; let n = x.len(); let mut k = 0usize; let mut more = false; proof { assert(syms_ok(*g, r as int)); lhs_in(*g, r as int); } let l = g.lhs[r] as usize;
  while k < n invariant gram_ok(*g), nb_ok(*g, b@), r < g.lhs.len(), rows(f@, ny(*g), w as int), fs_sound(*g, f@), x == &g.rhs[r as int], n == x.len(), k <= n, l == g.lhs[r as int], l < ny(*g), syms_ok(*g, r as int), nulls(*g, r as int, 0, k as int) decreases n - k
  { let ghost yy = sy(*g, r as int, k as int); let y = x[k] as usize; assert(y == yy);
    if !b_sub(&f[y], &f[l]) { let row = b_or(&f[l], &f[y]); proof { assert forall|a: int| #[trigger] bit(row@, a) implies first(*g, l as int, a) by { assert(f_sound(*g, f[l as int]@, l as int)); assert(f_sound(*g, f[y as int]@, y as int)); if bit(f[y as int]@, a) { first_step(*g, r as int, k as int, a); } } } f.set(l, row); more = true; }
    if !b[y] { return more; } k += 1; }
  more }
fn x_first_closed(g: &Gram, b: &Vec<bool>, f: &Vec<Vec<u64>>, r: usize, w: usize) -> (v: bool) requires gram_ok(*g), nb_ok(*g, b@), r < g.lhs.len(), rows(f@, ny(*g), w as int) ensures v ==> fs_closed(*g, b@, f@, r as int)
{ let x = &g.rhs[r]; let n = x.len(); let mut k = 0usize; proof { assert(syms_ok(*g, r as int)); lhs_in(*g, r as int); } let l = g.lhs[r] as usize;
  while k < n invariant gram_ok(*g), nb_ok(*g, b@), r < g.lhs.len(), rows(f@, ny(*g), w as int), x == &g.rhs[r as int], n == x.len(), k <= n, l == g.lhs[r as int], l < ny(*g), syms_ok(*g, r as int), forall|i: int| 0 <= i < k ==> subset(f[#[trigger] sy(*g, r as int, i)]@, f[l as int]@) decreases n - k
  { let ghost yy = sy(*g, r as int, k as int); let y = x[k] as usize; assert(y == yy);
    if !b_sub(&f[y], &f[l]) { return false; }
    if !b[y] { assert forall|i: int| 0 <= i < ln(*g, r as int) && all_nb(*g, b@, r as int, 0, i) implies subset(f[#[trigger] sy(*g, r as int, i)]@, f[l as int]@) by { if i > k { assert(b[sy(*g, r as int, k as int)]); } } return true; }
    k += 1; }
  true }
fn x_firsts(g: &Gram, b: &Vec<bool>, w: usize) -> (o: Option<Vec<Vec<u64>>>) requires gram_ok(*g), nb_ok(*g, b@), g.nt <= w * 64, w < 1000 ensures o matches Some(f) ==> fs_ok(*g, f@, w as int)
{ let n = g.lhs.len(); let len = g.nt as usize + g.nn as usize + 1; let nt = g.nt as usize; let mut f: Vec<Vec<u64>> = Vec::new();
  while f.len() < len invariant len == ny(*g), nt == g.nt, g.nt <= w * 64, w < 1000, f.len() <= len, rows(f@, f.len() as int, w as int), fs_sound(*g, f@), forall|c: int| 0 <= c < g.nt && c < f.len() ==> bit((#[trigger] f[c])@, c) decreases len - f.len()
  { let mut v = b_zero(w); let y = f.len(); let ghost v0 = v@;
    if y < nt { b_set(&mut v, y); proof { assert forall|a: int| #[trigger] bit(v@, a) implies first(*g, y as int, a) by { assert(!bit(v0, a)); assert(fst(*g, 1, y as int, a)); } } } else { proof { assert forall|a: int| #[trigger] bit(v@, a) implies first(*g, y as int, a) by { assert(0 <= a); } } }
    f.push(v); }
  let mut rounds = 0usize; let mut more = true;
  while more && rounds < len invariant gram_ok(*g), nb_ok(*g, b@), n == g.lhs.len(), len == ny(*g), rows(f@, ny(*g), w as int), fs_sound(*g, f@) decreases len - rounds
  { more = false; let mut r = 0usize;
    while r < n invariant gram_ok(*g), nb_ok(*g, b@), n == g.lhs.len(), r <= n, rows(f@, ny(*g), w as int), fs_sound(*g, f@) decreases n - r { if x_first_rule(g, b, &mut f, r, w) { more = true; } r += 1; }
    rounds += 1; }
  let mut r = 0usize;
  while r < n invariant gram_ok(*g), nb_ok(*g, b@), n == g.lhs.len(), r <= n, rows(f@, ny(*g), w as int), fs_sound(*g, f@), forall|k: int| 0 <= k < r ==> #[trigger] fs_closed(*g, b@, f@, k) decreases n - r { if !x_first_closed(g, b, &f, r, w) { return None; } r += 1; }
  let mut c = 0usize;
  while c < nt invariant gram_ok(*g), nt == g.nt, c <= nt, rows(f@, ny(*g), w as int), forall|k: int| 0 <= k < c ==> bit((#[trigger] f[k])@, k) decreases nt - c { if !b_get(&f[c], c) { return None; } c += 1; }
  proof { assert forall|y: int| 0 <= y < f.len() implies f_exact(*g, #[trigger] f[y]@, y) by { assert(f_sound(*g, f[y]@, y)); assert forall|a: int| 0 <= a implies (#[trigger] bit(f[y]@, a)) == first(*g, y, a) by { if first(*g, y, a) { let m = choose|m: nat| fst(*g, m, y, a); first_closed(*g, b@, f@, m, y, a); } } } }
  Some(f) }
// first terminals of the rest of a rule, backwards: entry ln - d is for position d
pub open spec fn sf_exact(g: Gram, v: Seq<u64>, r: int, d: int) -> bool { forall|a: int| 0 <= a ==> (#[trigger] bit(v, a)) == sfirst(g, r, d, a) }
pub open spec fn fr_ok(g: Gram, v: Seq<Vec<u64>>, n: Seq<bool>, r: int, w: int) -> bool { rows(v, ln(g, r) + 1, w) && n.len() == ln(g, r) + 1 && forall|e: int| 0 <= e <= ln(g, r) ==> #[trigger] fr_at(g, v, n, r, e) }
pub open spec fn fr_at(g: Gram, v: Seq<Vec<u64>>, n: Seq<bool>, r: int, e: int) -> bool { sf_exact(g, v[e]@, r, ln(g, r) - e) && n[e] == nulls(g, r, ln(g, r) - e, ln(g, r)) }
pub open spec fn frs_ok(g: Gram, v: Seq<Vec<Vec<u64>>>, n: Seq<Vec<bool>>, w: int, len: int) -> bool { v.len() == len && n.len() == len && forall|r: int| 0 <= r < len ==> fr_ok(g, #[trigger] v[r]@, n[r]@, r, w) }
fn x_suffix(g: &Gram, b: &Vec<bool>, f: &Vec<Vec<u64>>, r: usize, w: usize) -> (o: (Vec<Vec<u64>>, Vec<bool>)) requires gram_ok(*g), nb_ok(*g, b@), fs_ok(*g, f@, w as int), r < g.lhs.len() ensures fr_ok(*g, o.0@, o.1@, r as int, w as int)
{ let x = &g.rhs[r]; let n = x.len(); let mut v: Vec<Vec<u64>> = Vec::new(); let mut m: Vec<bool> = Vec::new(); v.push(b_zero(w)); m.push(true); let mut e = 0usize; let ghost gr = r as int; proof { assert(syms_ok(*g, gr)); assert(fr_at(*g, v@, m@, gr, 0)); }
  while e < n invariant gram_ok(*g), nb_ok(*g, b@), fs_ok(*g, f@, w as int), gr == r, r < g.lhs.len(), x == &g.rhs[r as int], n == x.len(), e <= n, syms_ok(*g, gr), v.len() == e + 1, m.len() == e + 1, rows(v@, e + 1, w as int), forall|i: int| 0 <= i <= e ==> #[trigger] fr_at(*g, v@, m@, gr, i) decreases n - e
  { let d = n - e - 1; let ghost yy = sy(*g, gr, d as int); let y = x[d] as usize; assert(y == yy); let ghost v0 = v@; let ghost m0 = m@; let z = b[y]; let zz = z && m[e]; assert(fr_at(*g, v0, m0, gr, e as int));
    let row = if z { b_or(&f[y], &v[e]) } else { let o = b_zero(w); b_or(&f[y], &o) };
    proof { assert(f_exact(*g, f[y as int]@, y as int)); assert(sf_exact(*g, v[e as int]@, gr, d + 1));
      assert forall|a: int| 0 <= a implies (#[trigger] bit(row@, a)) == sfirst(*g, gr, d as int, a) by {
        if first(*g, yy, a) { assert(sf(*g, gr, d as int, d as int, a)); }
        if z && bit(v[e as int]@, a) { let k = choose|k: int| #[trigger] sf(*g, gr, d + 1, k, a); assert(sf(*g, gr, d as int, k, a)); }
        if sfirst(*g, gr, d as int, a) { let k = choose|k: int| #[trigger] sf(*g, gr, d as int, k, a); if k > d { assert(nullable(*g, yy)); assert(sf(*g, gr, d + 1, k, a)); } } }
      assert(zz == nulls(*g, gr, d as int, n as int)) by { if nulls(*g, gr, d as int, n as int) { assert(nullable(*g, yy)); } } }
    v.push(row); m.push(zz); e += 1;
    proof { assert forall|i: int| 0 <= i <= e implies #[trigger] fr_at(*g, v@, m@, gr, i) by { if i < e { assert(fr_at(*g, v0, m0, gr, i)); } } } }
  (v, m) }
fn x_suffixes(g: &Gram, b: &Vec<bool>, f: &Vec<Vec<u64>>, w: usize) -> (o: (Vec<Vec<Vec<u64>>>, Vec<Vec<bool>>)) requires gram_ok(*g), nb_ok(*g, b@), fs_ok(*g, f@, w as int) ensures frs_ok(*g, o.0@, o.1@, w as int, nr(*g))
{ let n = g.lhs.len(); let mut v: Vec<Vec<Vec<u64>>> = Vec::new(); let mut m: Vec<Vec<bool>> = Vec::new(); let mut r = 0usize;
  while r < n invariant gram_ok(*g), nb_ok(*g, b@), fs_ok(*g, f@, w as int), n == g.lhs.len(), r <= n, frs_ok(*g, v@, m@, w as int, r as int) decreases n - r
  { let (a, c) = x_suffix(g, b, f, r, w); let ghost v0 = v@; let ghost m0 = m@; v.push(a); m.push(c); r += 1; proof { assert forall|i: int| 0 <= i < r implies fr_ok(*g, #[trigger] v[i]@, m[i]@, i, w as int) by { if i < r - 1 { assert(fr_ok(*g, v0[i]@, m0[i]@, i, w as int)); } } } }
  (v, m) }
"""
LOOK = r"""
// lookaheads of the items of the automaton, as rows by item
pub open spec fn w_row(g: Gram, m: Aut, v: Seq<u64>, i: int) -> bool { forall|a: int| #[trigger] bit(v, a) ==> inla(g, m, m.sof[i] as int, ir(m, i), id(m, i), a) }
pub open spec fn w_rows(g: Gram, m: Aut, l: Seq<Vec<u64>>) -> bool { forall|i: int| 0 <= i < l.len() ==> w_row(g, m, #[trigger] l[i]@, i) }
pub open spec fn more_ok(g: Gram, m: Aut, l: Seq<Vec<u64>>, i: int) -> bool { let r = ir(m, i); let d = id(m, i); d < ln(g, r) ==> subset(l[i]@, l[m.dst[i] as int]@) && (sy(g, r, d) >= g.nt ==> forall|k: int| 0 <= k < g.by[sy(g, r, d) - g.nt]@.len() ==> #[trigger] clo_ok(g, l, r, d, i, m.grp[i] + k)) }
pub open spec fn clo_ok(g: Gram, l: Seq<Vec<u64>>, r: int, d: int, i: int, j: int) -> bool { forall|b: int, a: int| 0 <= a && #[trigger] bit(l[i]@, b) && #[trigger] fol(g, r, d + 1, b, a) ==> bit(l[j]@, a) }
proof fn la_go(g: Gram, m: Aut, i: int, a: int) requires aut_ok(g, m), 0 <= i < m.it.len(), id(m, i) < ln(g, ir(m, i)), inla(g, m, m.sof[i] as int, ir(m, i), id(m, i), a) ensures inla(g, m, m.sof[m.dst[i] as int] as int, ir(m, m.dst[i] as int), id(m, m.dst[i] as int), a)
{ itm(g, m, i); let p = m.sof[i] as int; let e = m.via[i] as int; let q = m.et[e] as int; let r = ir(m, i); let d = id(m, i); let n = choose|n: nat| la(g, m, n, p, r, d, a); st(g, m, q); assert(m.sof[m.dst[i] as int] == q); assert(edge(m, p, sy(g, r, d), q)); let d2 = d + 1; assert(d2 - 1 == d); assert(edge(m, p, sy(g, r, d2 - 1), q) && la(g, m, n, p, r, d2 - 1, a)); assert(la(g, m, n + 1, q, r, d2, a)); }
proof fn la_clo(g: Gram, m: Aut, i: int, k: int, b: int, a: int) requires aut_ok(g, m), 0 <= i < m.it.len(), id(m, i) < ln(g, ir(m, i)), sy(g, ir(m, i), id(m, i)) >= g.nt, 0 <= k < g.by[sy(g, ir(m, i), id(m, i)) - g.nt]@.len(), inla(g, m, m.sof[i] as int, ir(m, i), id(m, i), b), fol(g, ir(m, i), id(m, i) + 1, b, a) ensures inla(g, m, m.sof[m.grp[i] + k] as int, ir(m, m.grp[i] + k), id(m, m.grp[i] + k), a)
{ itm(g, m, i); let q = m.sof[i] as int; let r2 = ir(m, i); let d2 = id(m, i); assert(syms_ok(g, r2)); let n = choose|n: nat| la(g, m, n, q, r2, d2, b); let x = sy(g, r2, d2) - g.nt; assert(by_ok(g, x)); assert(grp_ok(g, m, q, m.grp[i] as int, x)); let r = g.by[x]@[k] as int; assert(grp1(g, m, q, m.grp[i] as int, x, k)); let j = m.grp[i] + k; assert(m.sof[j] == q); assert(before1(g, r, a, r2, d2, b)); assert(la(g, m, n + 1, q, r, 0, a)); }
proof fn grp_at(g: Gram, m: Aut, q: int, s: int, n: int, k: int) requires grp_ok(g, m, q, s, n), 0 <= k < g.by[n]@.len() ensures inq(m, q, s + k), ir(m, s + k) == g.by[n]@[k], id(m, s + k) == 0 { assert(grp1(g, m, q, s, n, k)); }
// everything there is is in the rows
proof fn la_bit(g: Gram, m: Aut, l: Seq<Vec<u64>>, n: nat, q: int, r: int, d: int, a: int) -> (i: int) requires aut_ok(g, m), l.len() == m.it.len(), forall|i: int| 0 <= i < m.it.len() ==> #[trigger] more_ok(g, m, l, i), bit(l[m.first[0] as int]@, g.end as int), la(g, m, n, q, r, d, a), 0 <= a ensures inq(m, q, i), ir(m, i) == r, id(m, i) == d, bit(l[i]@, a) decreases n
{ st(g, m, q);
  if q == 0 && r == nr(g) - 1 && d == 0 && a == g.end { m.first[0] as int }
  else if d > 0 { let p = choose|p: int| #[trigger] edge(m, p, sy(g, r, d - 1), q) && la(g, m, (n - 1) as nat, p, r, d - 1, a); let j = la_bit(g, m, l, (n - 1) as nat, p, r, d - 1, a); itm(g, m, j); st(g, m, p); advance(g, m, p, q, j); assert(more_ok(g, m, l, j)); m.dst[j] as int }
  else { let (r2, d2, b) = choose|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && la(g, m, (n - 1) as nat, q, r2, d2, b); fol_pos(g, m, (n - 1) as nat, q, r2, d2, b); let j = la_bit(g, m, l, (n - 1) as nat, q, r2, d2, b); assert(more_ok(g, m, l, j)); assert(pos_ok(g, r, 0)); let o = group(g, m, q, j, r); assert(syms_ok(g, r2)); assert(rule_in(g, r)); let kk = g.at[r] as int; assert(clo_ok(g, l, r2, d2, j, m.grp[j] + kk)); assert(clo_ok(g, l, r2, d2, j, m.grp[j] + g.at[r])); o } }
proof fn first_pos(g: Gram, n: nat, y: int, a: int) requires fst(g, n, y, a), 0 <= y ensures 0 <= a decreases n { if y < g.nt && y == a {} else { let (r, k) = choose|r: int, k: int| #[trigger] fsym(g, y, r, k) && fst(g, (n - 1) as nat, sy(g, r, k), a); first_pos(g, (n - 1) as nat, sy(g, r, k), a); } }
proof fn fol_pos(g: Gram, m: Aut, n: nat, q: int, r: int, d: int, a: int) requires la(g, m, n, q, r, d, a) ensures 0 <= a decreases n
{ if q == 0 && r == nr(g) - 1 && d == 0 && a == g.end {}
  else if d > 0 { let p = choose|p: int| #[trigger] edge(m, p, sy(g, r, d - 1), q) && la(g, m, (n - 1) as nat, p, r, d - 1, a); fol_pos(g, m, (n - 1) as nat, p, r, d - 1, a); }
  else { let (r2, d2, b) = choose|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && la(g, m, (n - 1) as nat, q, r2, d2, b); fol_pos(g, m, (n - 1) as nat, q, r2, d2, b); if sfirst(g, r2, d2 + 1, a) { let k = choose|k: int| #[trigger] sf(g, r2, d2 + 1, k, a); let h = choose|h: nat| fst(g, h, sy(g, r2, k), a); first_pos(g, h, sy(g, r2, k), a); } } }
pub open spec fn la_rows(g: Gram, m: Aut, l: Seq<Vec<u64>>) -> bool { l.len() == m.it.len() && w_rows(g, m, l) && (forall|i: int| 0 <= i < m.it.len() ==> #[trigger] more_ok(g, m, l, i)) && bit(l[m.first[0] as int]@, g.end as int) }
// one item's contributions; answers whether something was added
fn x_give(g: &Gram, m: &Aut, fr: &Vec<Vec<Vec<u64>>>, sn: &Vec<Vec<bool>>, l: &mut Vec<Vec<u64>>, i: usize, w: usize) -> (more: bool) requires aut_ok(*g, *m), frs_ok(*g, fr@, sn@, w as int, nr(*g)), rows(old(l)@, m.it.len() as int, w as int), w_rows(*g, *m, old(l)@), i < m.it.len() ensures rows(final(l)@, m.it.len() as int, w as int), w_rows(*g, *m, final(l)@)
{ let r = m.it[i].0 as usize; let d = m.it[i].1 as usize; proof { itm(*g, *m, i as int); assert(syms_ok(*g, r as int)); } let x = &g.rhs[r]; let n = x.len(); if d >= n { return false; }
  let mut more = false; let ghost yy = sy(*g, r as int, d as int); let y = x[d] as usize; assert(y == yy); let src = b_or(&l[i], &l[i]); let j = m.dst[i]; let nt = g.nt as usize; let ghost gi = i as int; let ghost q = m.sof[gi] as int;
  proof { assert(w_row(*g, *m, l[gi]@, gi)); }
  if !b_sub(&src, &l[j]) { let row = b_or(&l[j], &src); proof { assert(w_row(*g, *m, l[j as int]@, j as int)); assert forall|a: int| #[trigger] bit(row@, a) implies inla(*g, *m, m.sof[j as int] as int, ir(*m, j as int), id(*m, j as int), a) by { if bit(src@, a) { assert(bit(l[gi]@, a)); la_go(*g, *m, gi, a); } } } l.set(j, row); more = true; }
  if y >= nt && b_any(&src) { let h = y - nt; let c = g.by[h].len(); let mut k = 0usize; let f = &fr[r][n - d - 1]; let e = sn[r][n - d - 1]; proof { assert(fr_ok(*g, fr[r as int]@, sn[r as int]@, r as int, w as int)); assert(fr_at(*g, fr[r as int]@, sn[r as int]@, r as int, n - d - 1)); assert(grp_ok(*g, *m, q, m.grp[gi] as int, h as int)); }
    let add = if e { b_or(f, &src) } else { b_or(f, f) }; let s = m.grp[i];
    let ghost b0 = choose|b: int| 0 <= b && bit(src@, b);
    while k < c invariant aut_ok(*g, *m), rows(l@, m.it.len() as int, w as int), w_rows(*g, *m, l@), i < m.it.len(), gi == i, n == ln(*g, r as int), d < n, r == ir(*m, gi), d == id(*m, gi), y == sy(*g, r as int, d as int), y >= nt, nt == g.nt, h == y - nt, h < g.nn, c == g.by[h as int].len(), k <= c, s == m.grp[gi], q == m.sof[gi], add.len() == w, grp_ok(*g, *m, q, s as int, h as int), bit(src@, b0),
        forall|a: int| #[trigger] bit(src@, a) ==> inla(*g, *m, q, r as int, d as int, a), forall|a: int| #[trigger] bit(add@, a) ==> sfirst(*g, r as int, d + 1, a) || (nulls(*g, r as int, d + 1, n as int) && bit(src@, a)) decreases c - k
    { proof { grp_at(*g, *m, q, s as int, h as int, k as int); } let o = s + k;
      if !b_sub(&add, &l[o]) { let row = b_or(&l[o], &add); proof { assert(w_row(*g, *m, l[o as int]@, o as int)); assert forall|a: int| #[trigger] bit(row@, a) implies inla(*g, *m, m.sof[o as int] as int, ir(*m, o as int), id(*m, o as int), a) by { if bit(add@, a) { let b = if sfirst(*g, r as int, d + 1, a) { b0 } else { a }; assert(bit(src@, b)); la_clo(*g, *m, gi, k as int, b, a); } } } l.set(o, row); more = true; }
      k += 1; } }
  more }
fn x_given(g: &Gram, m: &Aut, fr: &Vec<Vec<Vec<u64>>>, sn: &Vec<Vec<bool>>, l: &Vec<Vec<u64>>, i: usize, w: usize) -> (v: bool) requires aut_ok(*g, *m), frs_ok(*g, fr@, sn@, w as int, nr(*g)), rows(l@, m.it.len() as int, w as int), i < m.it.len() ensures v ==> more_ok(*g, *m, l@, i as int)
{ let r = m.it[i].0 as usize; let d = m.it[i].1 as usize; proof { itm(*g, *m, i as int); assert(syms_ok(*g, r as int)); } let x = &g.rhs[r]; let n = x.len(); if d >= n { return true; }
  let ghost yy = sy(*g, r as int, d as int); let y = x[d] as usize; assert(y == yy); let j = m.dst[i]; let nt = g.nt as usize; let ghost gi = i as int; let ghost q = m.sof[gi] as int;
  if !b_sub(&l[i], &l[j]) { return false; }
  if y >= nt { let h = y - nt; let c = g.by[h].len(); let mut k = 0usize; let f = &fr[r][n - d - 1]; let e = sn[r][n - d - 1]; proof { assert(fr_ok(*g, fr[r as int]@, sn[r as int]@, r as int, w as int)); assert(fr_at(*g, fr[r as int]@, sn[r as int]@, r as int, n - d - 1)); assert(grp_ok(*g, *m, q, m.grp[gi] as int, h as int)); }
    let s = m.grp[i]; let some = b_any(&l[i]);
    while k < c invariant aut_ok(*g, *m), rows(l@, m.it.len() as int, w as int), i < m.it.len(), gi == i, n == ln(*g, r as int), d < n, r == ir(*m, gi), d == id(*m, gi), y == sy(*g, r as int, d as int), y >= nt, nt == g.nt, h == y - nt, h < g.nn, c == g.by[h as int].len(), k <= c, s == m.grp[gi], q == m.sof[gi], f.len() == w, grp_ok(*g, *m, q, s as int, h as int), some == !none(l[gi]@), sf_exact(*g, f@, r as int, d + 1), e == nulls(*g, r as int, d + 1, n as int),
        forall|z: int| 0 <= z < k ==> #[trigger] clo_ok(*g, l@, r as int, d as int, gi, m.grp[gi] + z) decreases c - k
    { proof { grp_at(*g, *m, q, s as int, h as int, k as int); } let o = s + k;
      if some && !b_sub(f, &l[o]) { return false; }
      if e && !b_sub(&l[i], &l[o]) { return false; }
      assert(clo_ok(*g, l@, r as int, d as int, gi, m.grp[gi] + k)) by { assert forall|b: int, a: int| 0 <= a && #[trigger] bit(l[gi]@, b) && #[trigger] fol(*g, r as int, d + 1, b, a) implies bit(l[o as int]@, a) by { if sfirst(*g, r as int, d + 1, a) { assert(bit(f@, a)); } } }
      k += 1; } }
  true }
fn x_looks(g: &Gram, m: &Aut, fr: &Vec<Vec<Vec<u64>>>, sn: &Vec<Vec<bool>>, w: usize) -> (o: Option<Vec<Vec<u64>>>) requires aut_ok(*g, *m), frs_ok(*g, fr@, sn@, w as int, nr(*g)), g.nt <= w * 64, w < 1000 ensures o matches Some(l) ==> la_rows(*g, *m, l@)
{ let len = m.it.len(); let mut l: Vec<Vec<u64>> = Vec::with_capacity(len);
  while l.len() < len invariant len == m.it.len(), l.len() <= len, rows(l@, l.len() as int, w as int), w_rows(*g, *m, l@) decreases len - l.len() { let z = b_zero(w); proof { assert(w_row(*g, *m, z@, l.len() as int)); } l.push(z); }
  proof { st(*g, *m, 0); } let s = m.first[0]; let mut z = b_zero(w); let ghost z0 = z@; b_set(&mut z, g.end as usize);
  proof { assert forall|a: int| #[trigger] bit(z@, a) implies inla(*g, *m, m.sof[s as int] as int, ir(*m, s as int), id(*m, s as int), a) by { assert(!bit(z0, a)); assert(m.sof[s as int] == 0); assert(syms_ok(*g, nr(*g) - 1)); assert(la(*g, *m, 1, 0, nr(*g) - 1, 0, a)); } }
  l.set(s, z);
  let mut rounds = 0usize; let mut more = true;
  while more && rounds < 1000 invariant aut_ok(*g, *m), frs_ok(*g, fr@, sn@, w as int, nr(*g)), len == m.it.len(), rows(l@, len as int, w as int), w_rows(*g, *m, l@) decreases 1000 - rounds
  { more = false; let mut i = 0usize;
    while i < len invariant aut_ok(*g, *m), frs_ok(*g, fr@, sn@, w as int, nr(*g)), len == m.it.len(), i <= len, rows(l@, len as int, w as int), w_rows(*g, *m, l@) decreases len - i { if x_give(g, m, fr, sn, &mut l, i, w) { more = true; } i += 1; }
    rounds += 1; }
  let mut i = 0usize;
  while i < len invariant aut_ok(*g, *m), frs_ok(*g, fr@, sn@, w as int, nr(*g)), len == m.it.len(), i <= len, rows(l@, len as int, w as int), w_rows(*g, *m, l@), forall|k: int| 0 <= k < i ==> #[trigger] more_ok(*g, *m, l@, k) decreases len - i { if !x_given(g, m, fr, sn, &l, i, w) { return None; } i += 1; }
  if !b_get(&l[s], g.end as usize) { return None; }
  Some(l) }
"""
CERT = r"""
// the grammar and the certificate are well-formed
fn x_syms(g: &Gram, r: usize) -> (b: bool) requires r < g.rhs.len(), g.nt < 16000, g.nn < 16000 ensures b ==> syms_ok(*g, r as int)
{ let x = &g.rhs[r]; let n = x.len(); if n > 1000 { return false; } let mut k = 0usize;
  while k < n invariant x == &g.rhs[r as int], r < g.rhs.len(), n == x.len(), k <= n, g.nt < 16000, g.nn < 16000, forall|d: int| 0 <= d < k ==> (#[trigger] sy(*g, r as int, d)) < g.nt + g.nn && sy(*g, r as int, d) != g.end decreases n - k { if x[k] >= g.nt + g.nn || x[k] == g.end { return false; } k += 1; } true }
fn x_gram(g: &Gram) -> (b: bool) ensures b ==> gram_ok(*g)
{ let n = g.lhs.len(); if !(1 <= n && n <= 0x100000 && g.rhs.len() == n && g.over.len() == n && g.at.len() == n && g.nt < 16000 && g.nn < 16000 && g.end < g.nt && g.tlev.len() == g.nt as usize && g.tdir.len() == g.nt as usize && g.by.len() == g.nn as usize) { return false; }
  if g.lhs[n - 1] != g.nt + g.nn || g.rhs[n - 1].len() != 1 { return false; }
  let mut r = 0usize;
  while r < n invariant n == g.lhs.len(), g.rhs.len() == n, g.at.len() == n, g.nt < 16000, g.nn < 16000, g.by.len() == g.nn, r <= n, forall|k: int| 0 <= k < r ==> #[trigger] syms_ok(*g, k), forall|k: int| 0 <= k < r ==> #[trigger] rule_in(*g, k) decreases n - r
  { if !x_syms(g, r) { return false; }
    if r < n - 1 { let l = g.lhs[r]; if l < g.nt || l >= g.nt + g.nn { return false; } let b = &g.by[(l - g.nt) as usize]; let a = g.at[r] as usize; if a >= b.len() || b[a] as usize != r { return false; } }
    r += 1; }
  let mut x = 0usize; let nn = g.nn as usize;
  while x < nn invariant n == g.lhs.len(), n >= 1, nn == g.nn, g.nt < 16000, g.nn < 16000, g.by.len() == g.nn, x <= nn, forall|k: int| 0 <= k < x ==> #[trigger] by_ok(*g, k) decreases nn - x
  { let b = &g.by[x]; let m = b.len(); let mut k = 0usize;
    while k < m invariant n == g.lhs.len(), n >= 1, nn == g.nn, g.nt < 16000, g.nn < 16000, g.by.len() == g.nn, x < nn, b == &g.by[x as int], m == b.len(), k <= m, forall|j: int| 0 <= j < k ==> (#[trigger] g.by[x as int]@[j]) < nr(*g) - 1 && g.lhs[g.by[x as int]@[j] as int] == g.nt + x decreases m - k
    { let r = b[k] as usize; if r >= n - 1 || g.lhs[r] != g.nt + x as u32 { return false; } k += 1; }
    x += 1; }
  true }
fn x_lens(m: &Aut) -> (b: bool) ensures b ==> lens(*m)
{ let n = m.it.len(); let c = m.ex.len(); let k = m.kern.len(); 0 < k && k < 0x4000_0000 && m.first.len() == k + 1 && m.efirst.len() == k + 1 && m.sof.len() == n && m.src.len() == n && m.via.len() == n && m.dst.len() == n && m.grp.len() == n && m.et.len() == c && m.es.len() == c && m.kb.len() == c && n < 0x4000_0000 && c < 0x4000_0000 && m.bk.len() < 0x4000_0000 }
fn x_st(g: &Gram, m: &Aut, q: usize) -> (b: bool) requires gram_ok(*g), lens(*m), q < m.kern.len() ensures b ==> st_ok(*g, *m, q as int)
{ let a = m.first[q]; let z = m.first[q + 1]; let k = m.kern[q]; if !(a < z && z <= m.it.len() && 1 <= k && k <= z - a) { return false; } let ea = m.efirst[q]; let ez = m.efirst[q + 1]; if !(ea <= ez && ez <= m.ex.len()) { return false; }
  let mut i = a; while i < z invariant lens(*m), q < m.kern.len(), a == m.first[q as int], z == m.first[q + 1], a <= i <= z, z <= m.it.len(), forall|j: int| a <= j < i ==> #[trigger] m.sof[j] == q decreases z - i { if m.sof[i] != q { return false; } i += 1; }
  let mut e = ea; while e < ez invariant lens(*m), q < m.kern.len(), ea == m.efirst[q as int], ez == m.efirst[q + 1], ea <= e <= ez, ez <= m.ex.len(), forall|j: int| ea <= j < e ==> #[trigger] m.es[j] == q decreases ez - e { if m.es[e] != q { return false; } e += 1; }
  if q == 0 { if k != 1 || m.it[a].0 as usize != g.lhs.len() - 1 || m.it[a].1 != 0 { return false; } }
  true }
fn x_inq(m: &Aut, q: usize, i: usize) -> (b: bool) requires lens(*m), q < m.kern.len() ensures b == inq(*m, q as int, i as int) { m.first[q] <= i && i < m.first[q + 1] && i < m.it.len() }
fn x_grp(g: &Gram, m: &Aut, q: usize, s: usize, n: usize) -> (b: bool) requires gram_ok(*g), lens(*m), q < m.kern.len(), n < g.nn ensures b ==> grp_ok(*g, *m, q as int, s as int, n as int)
{ let v = &g.by[n]; let c = v.len(); let mut k = 0usize; if s >= m.it.len() { return c == 0; }
  while k < c invariant lens(*m), q < m.kern.len(), n < g.nn, gram_ok(*g), v == &g.by[n as int], c == v.len(), k <= c, s < m.it.len(), forall|j: int| 0 <= j < k ==> #[trigger] grp1(*g, *m, q as int, s as int, n as int, j) decreases c - k
  { if k >= m.it.len() - s { return false; } let i = s + k; if !x_inq(m, q, i) || m.it[i].0 != v[k] || m.it[i].1 != 0 { return false; } proof { assert(grp1(*g, *m, q as int, s as int, n as int, k as int)); } k += 1; } true }
fn x_it(g: &Gram, m: &Aut, i: usize) -> (b: bool) requires gram_ok(*g), lens(*m), sts_ok(*g, *m), i < m.it.len() ensures b ==> it_ok(*g, *m, i as int)
{ let q = m.sof[i]; if q >= m.kern.len() || !x_inq(m, q, i) { return false; } let r = m.it[i].0 as usize; let d = m.it[i].1 as usize; if r >= g.lhs.len() || d > g.rhs[r].len() { return false; }
  proof { reveal(sts_ok); assert(st_ok(*g, *m, q as int)); assert(syms_ok(*g, r as int)); }
  if d < g.rhs[r].len() { let x = g.rhs[r][d]; proof { assert(x == sy(*g, r as int, d as int)); assert(sy(*g, r as int, d as int) < g.nt + g.nn); } let e = m.via[i]; let j = m.dst[i];
    if !(m.efirst[q] <= e && e < m.efirst[q + 1] && e < m.ex.len() && m.ex[e] == x && m.et[e] < m.kern.len()) { return false; } if !x_inq(m, m.et[e], j) || m.it[j].0 as usize != r || m.it[j].1 as usize != d + 1 { return false; }
    if x >= g.nt && !x_grp(g, m, q, m.grp[i], (x - g.nt) as usize) { return false; } }
  if i - m.first[q] < m.kern[q] { if q != 0 && d == 0 { return false; } if i > m.first[q] { let p = m.it[i - 1]; if !(p.0 < m.it[i].0 || (p.0 == m.it[i].0 && p.1 < m.it[i].1)) { return false; } } }
  else { let j = m.src[i]; if d != 0 || j < m.first[q] || j >= i { return false; } let r2 = m.it[j].0 as usize; let d2 = m.it[j].1 as usize; if r2 >= g.lhs.len() || d2 >= g.rhs[r2].len() || g.rhs[r2][d2] != g.lhs[r] { return false; } }
  true }
fn x_ed(g: &Gram, m: &Aut, e: usize) -> (b: bool) requires gram_ok(*g), lens(*m), sts_ok(*g, *m), e < m.ex.len() ensures b ==> ed_ok(*g, *m, e as int)
{ let q = m.es[e]; let t = m.et[e]; let x = m.ex[e]; if q >= m.kern.len() || !(m.efirst[q] <= e && e < m.efirst[q + 1]) || t == 0 || t >= m.kern.len() || x >= g.nt + g.nn { return false; } if e > m.efirst[q] && !(m.ex[e - 1] < x) { return false; }
  proof { reveal(sts_ok); assert(st_ok(*g, *m, q as int)); assert(st_ok(*g, *m, t as int)); } let n = m.kern[t]; let s = m.kb[e]; let f = m.first[t]; if s > m.bk.len() || n > m.bk.len() - s { return false; } let mut k = 0usize;
  while k < n invariant gram_ok(*g), lens(*m), e < m.ex.len(), q == m.es[e as int], q < m.kern.len(), t == m.et[e as int], x == m.ex[e as int], t < m.kern.len(), n == m.kern[t as int], s == m.kb[e as int], f == m.first[t as int], s + n <= m.bk.len(), f + n <= m.it.len(), k <= n, forall|j: int| 0 <= j < k ==> #[trigger] back(*g, *m, e as int, j) decreases n - k
  { let b = m.bk[s + k]; let i = f + k; if !x_inq(m, q, b) || m.it[b].0 != m.it[i].0 { return false; } let r = m.it[b].0 as usize; let d = m.it[b].1 as usize; if r >= g.lhs.len() || d >= g.rhs[r].len() || m.it[i].1 as usize != d + 1 || g.rhs[r][d] != x { return false; } k += 1; }
  true }
// kernels of different states differ
pub open spec fn lt2(a: (u32, u32), b: (u32, u32)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
proof fn kern_sorted(g: Gram, m: Aut, q: int, i: int, j: int) requires gram_ok(g), lens(m), sts_ok(g, m), its_ok(g, m), 0 <= q < ns(m), 0 <= i < j < m.kern[q] ensures lt2(m.it[at(m, q, i)], m.it[at(m, q, j)]) decreases j - i
{ reveal(sts_ok); reveal(its_ok); assert(st_ok(g, m, q)); let b = at(m, q, j); assert(it_ok(g, m, b)); assert(m.sof[b] == q); assert(less(m, b - 1, b)); if i < j - 1 { kern_sorted(g, m, q, i, j - 1); } }
proof fn not_in(g: Gram, m: Aut, p: int, q: int, k: int) requires gram_ok(g), lens(m), sts_ok(g, m), its_ok(g, m), 0 <= p < ns(m), 0 <= q < ns(m), 0 <= k < m.kern[p], k <= m.kern[q], forall|j: int| 0 <= j < k ==> m.it[at(m, p, j)] == m.it[#[trigger] at(m, q, j)], k < m.kern[q] ==> lt2(m.it[at(m, p, k)], m.it[at(m, q, k)]) ensures differ(m, p, q), differ(m, q, p)
{ let x = m.it[at(m, p, k)]; let r = x.0 as int; let d = x.1 as int; assert(hask(m, p, r, d)); 
  if hask(m, q, r, d) { let j = choose|j: int| 0 <= j < m.kern[q] && ir(m, #[trigger] at(m, q, j)) == r && id(m, at(m, q, j)) == d; if j < k { kern_sorted(g, m, p, j, k); } else if j > k { kern_sorted(g, m, q, k, j); } }
  assert(hask(m, q, r, d) != hask(m, p, r, d)); }
fn x_differ(g: &Gram, m: &Aut, p: usize, q: usize) -> (b: bool) requires gram_ok(*g), lens(*m), sts_ok(*g, *m), its_ok(*g, *m), p < m.kern.len(), q < m.kern.len() ensures b ==> differ(*m, p as int, q as int)
{ proof { reveal(sts_ok); assert(st_ok(*g, *m, p as int)); assert(st_ok(*g, *m, q as int)); } let a = m.first[p]; let b = m.first[q]; let n = m.kern[p]; let c = m.kern[q]; let mut k = 0usize; let ghost gp = p as int; let ghost gq = q as int;
  while k < n && k < c invariant gram_ok(*g), lens(*m), sts_ok(*g, *m), its_ok(*g, *m), p < m.kern.len(), q < m.kern.len(), gp == p, gq == q, a == m.first[gp], b == m.first[gq], n == m.kern[gp], c == m.kern[gq], a + n <= m.it.len(), b + c <= m.it.len(), k <= n, k <= c, forall|j: int| 0 <= j < k ==> m.it[at(*m, gp, j)] == m.it[#[trigger] at(*m, gq, j)] decreases n - k
  { let x = m.it[a + k]; let y = m.it[b + k]; proof { assert(at(*m, gp, k as int) == a + k); assert(at(*m, gq, k as int) == b + k); }
    if x.0 != y.0 || x.1 != y.1 { proof { assert forall|j: int| 0 <= j < k implies m.it[at(*m, gq, j)] == m.it[#[trigger] at(*m, gp, j)] by { assert(m.it[at(*m, gp, j)] == m.it[at(*m, gq, j)]); } if lt2(x, y) { not_in(*g, *m, gp, gq, k as int); } else { not_in(*g, *m, gq, gp, k as int); } } return true; }
    k += 1; }
  if k < n { proof { not_in(*g, *m, gp, gq, k as int); } return true; }
  if k < c { proof { assert forall|j: int| 0 <= j < k implies m.it[at(*m, gq, j)] == m.it[#[trigger] at(*m, gp, j)] by { assert(m.it[at(*m, gp, j)] == m.it[at(*m, gq, j)]); } not_in(*g, *m, gq, gp, k as int); } return true; }
  false }
fn x_aut(g: &Gram, m: &Aut) -> (b: bool) requires gram_ok(*g) ensures b ==> aut_ok(*g, *m)
{ if !x_lens(m) { return false; } let n = m.kern.len(); let c = m.it.len(); let h = m.ex.len(); let mut q = 0usize;
  while q < n invariant gram_ok(*g), lens(*m), n == m.kern.len(), q <= n, forall|k: int| 0 <= k < q ==> #[trigger] st_ok(*g, *m, k) decreases n - q { if !x_st(g, m, q) { return false; } q += 1; }
  proof { reveal(sts_ok); } assert(sts_ok(*g, *m)); let mut i = 0usize;
  while i < c invariant gram_ok(*g), lens(*m), sts_ok(*g, *m), c == m.it.len(), i <= c, forall|k: int| 0 <= k < i ==> #[trigger] it_ok(*g, *m, k) decreases c - i { if !x_it(g, m, i) { return false; } i += 1; }
  proof { reveal(its_ok); } assert(its_ok(*g, *m)); let mut e = 0usize;
  while e < h invariant gram_ok(*g), lens(*m), sts_ok(*g, *m), h == m.ex.len(), e <= h, forall|k: int| 0 <= k < e ==> #[trigger] ed_ok(*g, *m, k) decreases h - e { if !x_ed(g, m, e) { return false; } e += 1; }
  proof { reveal(eds_ok); } assert(eds_ok(*g, *m)); let mut p = 0usize;
  while p < n invariant gram_ok(*g), lens(*m), sts_ok(*g, *m), its_ok(*g, *m), n == m.kern.len(), p <= n, forall|x: int, y: int| 0 <= x < p && x < y < n ==> #[trigger] differ(*m, x, y) decreases n - p
  { let mut q = p + 1;
    while q < n invariant gram_ok(*g), lens(*m), sts_ok(*g, *m), its_ok(*g, *m), n == m.kern.len(), p < n, p < q <= n, forall|x: int, y: int| 0 <= x < p && x < y < n ==> #[trigger] differ(*m, x, y), forall|y: int| p < y < q ==> #[trigger] differ(*m, p as int, y) decreases n - q { if !x_differ(g, m, p, q) { return false; } q += 1; }
    p += 1; }
  proof { reveal(all_differ); } true }
"""
TABLE = r"""
// the tables against the automaton; to: the tables' state for each of its states (a larger number: the tables do not lead there)
pub open spec fn redq(g: Gram, m: Aut, l: Seq<Vec<u64>>, q: int, r: int, a: int) -> bool { exists|i: int| #[trigger] redi(g, m, l, q, r, a, i) }
pub open spec fn redi(g: Gram, m: Aut, l: Seq<Vec<u64>>, q: int, r: int, a: int, i: int) -> bool { inq(m, q, i) && ir(m, i) == r && id(m, i) == ln(g, r) && bit(l[i]@, a) }
pub open spec fn has_edge(m: Aut, q: int, x: int) -> bool { exists|e: int| #[trigger] ine(m, q, e) && m.ex[e] == x }
pub open spec fn wanted(g: Gram, m: Aut, q: int, best: int, a: int) -> Want { if best >= 0 { if has_edge(m, q, a) { resolve(g, best, a) } else { red(g, best) } } else if has_edge(m, q, a) { Want::Shift } else { Want::Err } }
pub open spec fn least(g: Gram, m: Aut, l: Seq<Vec<u64>>, q: int, a: int, best: int) -> bool { (best >= 0 ==> redq(g, m, l, q, best, a)) && forall|r: int| #[trigger] redq(g, m, l, q, r, a) ==> 0 <= best <= r }
pub open spec fn cell_ok(g: Gram, t: Tab, m: Aut, l: Seq<Vec<u64>>, to: Seq<usize>, q: int, a: int) -> bool { let v = act(t, to[q] as int, a); (exists|best: int| #[trigger] least(g, m, l, q, a, best) && means(v) == wanted(g, m, q, best, a)) && (0 < v < ERR() ==> v <= t.ai.len() && exists|q2: int| #[trigger] edge(m, q, a, q2) && to[q2] == v - 1) }
pub open spec fn gcell_ok(g: Gram, t: Tab, m: Aut, to: Seq<usize>, q: int, n: int) -> bool { let v = go(t, to[q] as int, n); (v >= 0) == has_edge(m, q, g.nt + n) && (v >= 0 ==> v < t.ai.len() && exists|q2: int| #[trigger] edge(m, q, g.nt + n, q2) && to[q2] == v) }
pub open spec fn state_ok(g: Gram, t: Tab, m: Aut, l: Seq<Vec<u64>>, to: Seq<usize>, q: int) -> bool { to[q] < t.ai.len() ==> (forall|a: int| 0 <= a < g.nt ==> #[trigger] cell_ok(g, t, m, l, to, q, a)) && (forall|n: int| 0 <= n < g.nn ==> #[trigger] gcell_ok(g, t, m, to, q, n)) }
pub open spec fn t_shape(g: Gram, t: Tab) -> bool { t.nt == g.nt && t.nn == g.nn && t.ac.len() == t.av.len() && t.ad.len() == t.ai.len() && t.gi.len() == t.ai.len() && t.gc.len() == t.gv.len() && (forall|s: int| #![trigger t.ai[s]] 0 <= s < t.ai.len() ==> t.ai[s] + t.nt <= t.ac.len()) && (forall|s: int| #![trigger t.gi[s]] 0 <= s < t.ai.len() ==> t.gi[s] + t.nn <= t.gc.len()) }
pub open spec fn fits(g: Gram, t: Tab, m: Aut, l: Seq<Vec<u64>>, to: Seq<usize>) -> bool { aut_ok(g, m) && la_rows(g, m, l) && t_shape(g, t) && t.ai.len() > 0 && to.len() == ns(m) && to[0] == 0 && forall|q: int| 0 <= q < ns(m) ==> #[trigger] state_ok(g, t, m, l, to, q) }
proof fn run_path(g: Gram, t: Tab, m: Aut, l: Seq<Vec<u64>>, to: Seq<usize>, w: Seq<int>) -> (q: int) requires fits(g, t, m, l, to), run(t, w) is Some ensures path(m, w, q), to[q] == run(t, w)->Some_0, to[q] < t.ai.len() decreases w.len()
{ if w.len() == 0 { 0 } else { let p = run_path(g, t, m, l, to, w.drop_last()); let x = w.last(); let s = to[p] as int; assert(state_ok(g, t, m, l, to, p));
    if x < t.nt { assert(cell_ok(g, t, m, l, to, p, x)); let q = choose|q: int| #[trigger] edge(m, p, x, q) && to[q] == act(t, s, x) - 1; edge_target(g, m, p, x, q); q } else { let n = x - t.nt; assert(gcell_ok(g, t, m, to, p, n)); let q = choose|q: int| #[trigger] edge(m, p, g.nt + n, q) && to[q] == go(t, s, n); assert(g.nt + n == x); edge_target(g, m, p, x, q); q } } }
proof fn go_exact(g: Gram, m: Aut, w: Seq<int>, q: int, x: int) requires aut_ok(g, m), path(m, w, q) ensures can_go(g, w, x) == has_edge(m, q, x)
{ st(g, m, q);
  if can_go(g, w, x) { let (r, d) = choose|r: int, d: int| #[trigger] valid0(g, w, r, d) && d < ln(g, r) && sy(g, r, d) == x; exact(g, m, w, q, r, d); let i = choose|i: int| #[trigger] inq(m, q, i) && ir(m, i) == r && id(m, i) == d; itm(g, m, i); assert(m.sof[i] == q); assert(ine(m, q, m.via[i] as int)); }
  if has_edge(m, q, x) { let e = choose|e: int| #[trigger] ine(m, q, e) && m.ex[e] == x; edg(g, m, e); assert(m.es[e] == q); st(g, m, m.et[e] as int); assert(back(g, m, e, 0)); let b = m.bk[m.kb[e] + 0] as int; assert(inq(m, q, b)); let r = ir(m, b); let d = id(m, b); assert(hasi(m, q, r, d)); exact(g, m, w, q, r, d); assert(valid0(g, w, r, d)); } }
proof fn red_exact(g: Gram, m: Aut, l: Seq<Vec<u64>>, w: Seq<int>, q: int, r: int, a: int) requires aut_ok(g, m), la_rows(g, m, l), path(m, w, q), 0 <= a ensures can_reduce(g, w, r, a) == redq(g, m, l, q, r, a)
{ st(g, m, q); let d = ln(g, r); exact(g, m, w, q, r, d); look_exact(g, m, w, q, r, d, a);
  if can_reduce(g, w, r, a) { let n = choose|n: nat| la(g, m, n, q, r, d, a); let i = la_bit(g, m, l, n, q, r, d, a); assert(redi(g, m, l, q, r, a, i)); }
  if redq(g, m, l, q, r, a) { let i = choose|i: int| #[trigger] redi(g, m, l, q, r, a, i); itm(g, m, i); assert(m.sof[i] == q); assert(w_row(g, m, l[i]@, i)); assert(hasi(m, q, r, d)); } }
proof fn theorem(g: Gram, t: Tab, m: Aut, l: Seq<Vec<u64>>, to: Seq<usize>) requires fits(g, t, m, l, to) ensures lalr_tables(g, t)
{ assert forall|w: Seq<int>| (#[trigger] run(t, w)) is Some implies right_state(g, t, w, run(t, w)->Some_0) by {
    let q = run_path(g, t, m, l, to, w); let s = to[q] as int; assert(state_ok(g, t, m, l, to, q));
    assert forall|a: int| 0 <= a < g.nt implies prescribed(g, w, a, means(#[trigger] act(t, s, a))) by {
      assert(cell_ok(g, t, m, l, to, q, a)); let best = choose|best: int| #[trigger] least(g, m, l, q, a, best) && means(act(t, s, a)) == wanted(g, m, q, best, a); go_exact(g, m, w, q, a);
      assert forall|r: int| #[trigger] can_reduce(g, w, r, a) == redq(g, m, l, q, r, a) by { red_exact(g, m, l, w, q, r, a); }
      if best >= 0 { assert(redq(g, m, l, q, best, a)); assert(can_reduce(g, w, best, a)); assert forall|k: int| k < best implies !#[trigger] can_reduce(g, w, k, a) by { if redq(g, m, l, q, k, a) { assert(best <= k); } } }
      else { assert forall|r: int| !#[trigger] can_reduce(g, w, r, a) by { if redq(g, m, l, q, r, a) { assert(0 <= best); } } } }
    assert forall|n: int| 0 <= n < g.nn implies ((#[trigger] go(t, s, n)) >= 0) == can_go(g, w, g.nt + n) by { assert(gcell_ok(g, t, m, to, q, n)); go_exact(g, m, w, q, g.nt + n); } } }
fn x_edge(m: &Aut, q: usize, x: u32) -> (o: Option<usize>) requires lens(*m), q < m.kern.len(), m.efirst[q as int] <= m.efirst[q + 1] <= m.ex.len() ensures o is Some ==> ine(*m, q as int, o->Some_0 as int) && m.ex[o->Some_0 as int] == x, o is None ==> !has_edge(*m, q as int, x as int)
{ let mut e = m.efirst[q]; let z = m.efirst[q + 1];
  while e < z invariant lens(*m), q < m.kern.len(), z == m.efirst[q + 1], z <= m.ex.len(), m.efirst[q as int] <= e <= z, forall|k: int| m.efirst[q as int] <= k < e ==> #[trigger] m.ex[k] != x decreases z - e { if m.ex[e] == x { return Some(e); } e += 1; } None }
fn x_least(g: &Gram, m: &Aut, l: &Vec<Vec<u64>>, q: usize, a: usize) -> (o: Option<usize>) requires aut_ok(*g, *m), la_rows(*g, *m, l@), q < m.kern.len() ensures least(*g, *m, l@, q as int, a as int, match o { Some(r) => r as int, None => -1 }), o matches Some(r) ==> r < g.lhs.len()
{ proof { st(*g, *m, q as int); } let mut i = m.first[q]; let z = m.first[q + 1]; let mut o: Option<usize> = None; let ghost s = i as int;
  while i < z invariant aut_ok(*g, *m), la_rows(*g, *m, l@), q < m.kern.len(), s == m.first[q as int], z == m.first[q + 1], z <= m.it.len(), s <= i <= z, o matches Some(r) ==> r < g.lhs.len() && redq(*g, *m, l@, q as int, r as int, a as int), forall|r: int, j: int| j < i && #[trigger] redi(*g, *m, l@, q as int, r, a as int, j) ==> o is Some && o->Some_0 <= r decreases z - i
  { let r = m.it[i].0 as usize; proof { itm(*g, *m, i as int); }
    if m.it[i].1 as usize == g.rhs[r].len() && b_get(&l[i], a) { proof { assert(redi(*g, *m, l@, q as int, r as int, a as int, i as int)); }
      let better = match o { None => true, Some(b) => r < b }; if better { o = Some(r); } }
    i += 1; }
  proof { let best: int = match o { Some(r) => r as int, None => -1 }; assert forall|r: int| #[trigger] redq(*g, *m, l@, q as int, r, a as int) implies 0 <= best <= r by { let j = choose|j: int| #[trigger] redi(*g, *m, l@, q as int, r, a as int, j); assert(j < z); } }
  o }
fn x_prec(g: &Gram, r: usize) -> (p: u32) requires gram_ok(*g), r < g.lhs.len() ensures p == prec(*g, r as int)
{ if g.over[r] < g.nt { return g.tlev[g.over[r] as usize]; } let x = &g.rhs[r]; let mut i = x.len(); proof { assert(x@.take(i as int) =~= x@); }
  while i > 0 invariant gram_ok(*g), r < g.lhs.len(), x == &g.rhs[r as int], i <= x.len(), last_term(*g, x@) == last_term(*g, x@.take(i as int)), g.over[r as int] >= g.nt decreases i
  { proof { assert(x@.take(i as int).last() == x[i - 1]); assert(x@.take(i as int).drop_last() =~= x@.take(i - 1)); } if x[i - 1] < g.nt { return g.tlev[x[i - 1] as usize]; } i -= 1; }
  0 }
fn x_cell(g: &Gram, t: &Tab, m: &Aut, l: &Vec<Vec<u64>>, to: &Vec<usize>, q: usize, a: usize) -> (b: bool) requires aut_ok(*g, *m), la_rows(*g, *m, l@), t_shape(*g, *t), q < m.kern.len(), to.len() == m.kern.len(), to[q as int] < t.ai.len(), a < g.nt ensures b ==> cell_ok(*g, *t, *m, l@, to@, q as int, a as int)
{ proof { st(*g, *m, q as int); } let v = x_act(t, to[q], a); let e = x_edge(m, q, a as u32); let o = x_least(g, m, l, q, a); let ghost gq = q as int; let ghost ga = a as int; let ghost best: int = match o { Some(r) => r as int, None => -1 };
  // 0 error, 1 shift, 2 reduce
  let w: u8 = match o { None => if e.is_some() { 1 } else { 0 }, Some(r) => if e.is_none() { 2 } else { let p = x_prec(g, r); let z = g.tlev[a]; if p == 0 || z == 0 || p < z { 1 } else if p > z { 2 } else if g.tdir[a] == 0 { 2 } else if g.tdir[a] == 1 { 1 } else { 0 } } };
  proof { if let Some(x) = e { assert(has_edge(*m, gq, ga)); } assert(w == 0 ==> wanted(*g, *m, gq, best, ga) == Want::Err); assert(w == 1 ==> wanted(*g, *m, gq, best, ga) == Want::Shift); assert(w == 2 ==> best >= 0 && wanted(*g, *m, gq, best, ga) == red(*g, best)); assert(w <= 2); }
  if w == 0 { v == 0x7FFF }
  else if w == 1 { match e { None => false, Some(x) => { proof { edg(*g, *m, x as int); assert(m.es[x as int] == gq); assert(edge(*m, gq, ga, m.et[x as int] as int)); } v > 0 && v < 0x7FFF && v as usize <= t.ai.len() && to[m.et[x]] == (v - 1) as usize } } }
  else { match o { None => false, Some(r) => if r == g.lhs.len() - 1 { v == 0 } else { v < 0 && v > -32768 && (-v - 1) as usize == r } } } }
fn x_gcell(g: &Gram, t: &Tab, m: &Aut, to: &Vec<usize>, q: usize, n: usize) -> (b: bool) requires aut_ok(*g, *m), t_shape(*g, *t), q < m.kern.len(), to.len() == m.kern.len(), to[q as int] < t.ai.len(), n < g.nn ensures b ==> gcell_ok(*g, *t, *m, to@, q as int, n as int)
{ proof { st(*g, *m, q as int); } let v = x_go(t, to[q], n); match x_edge(m, q, g.nt + n as u32) { None => v < 0, Some(x) => { proof { edg(*g, *m, x as int); assert(m.es[x as int] == q); assert(edge(*m, q as int, g.nt + n as int, m.et[x as int] as int)); assert(has_edge(*m, q as int, g.nt + n as int)); } v >= 0 && (v as usize) < t.ai.len() && to[m.et[x]] == v as usize } } }
fn x_shape(g: &Gram, t: &Tab) -> (b: bool) ensures b ==> t_shape(*g, *t)
{ let n = t.ai.len(); if !(t.nt == g.nt && t.nn == g.nn && t.ac.len() == t.av.len() && t.ad.len() == n && t.gi.len() == n && t.gc.len() == t.gv.len()) { return false; } let mut s = 0usize;
  while s < n invariant n == t.ai.len(), t.gi.len() == n, s <= n, forall|k: int| #![trigger t.ai[k]] 0 <= k < s ==> t.ai[k] + t.nt <= t.ac.len(), forall|k: int| #![trigger t.gi[k]] 0 <= k < s ==> t.gi[k] + t.nn <= t.gc.len() decreases n - s { if t.ai[s] as u64 + t.nt as u64 > t.ac.len() as u64 || t.gi[s] as u64 + t.nn as u64 > t.gc.len() as u64 { return false; } s += 1; } true }
// 0: the tables are right; otherwise which step fails: 1 grammar, 2 automaton, 3 lookaheads, 4 shape of the tables, 5 an action, 6 a goto
pub fn check(g: &Gram, t: &Tab, m: &Aut, to: &Vec<usize>) -> (b: (u32, usize, usize)) ensures b.0 == 0 ==> lalr_tables(*g, *t)
{ if !x_gram(g) { return (1, 0, 0); } if !x_aut(g, m) { return (2, 0, 0); } let w = g.nt as usize / 64 + 1;
  let nb = match x_nullable(g) { Some(b) => b, None => return (3, 0, 0) }; let f = match x_firsts(g, &nb, w) { Some(f) => f, None => return (3, 1, 0) }; let (fr, sn) = x_suffixes(g, &nb, &f, w); let l = match x_looks(g, m, &fr, &sn, w) { Some(l) => l, None => return (3, 2, 0) };
  if !x_shape(g, t) { return (4, 0, 0); } let n = m.kern.len(); if to.len() != n || to[0] != 0 || t.ai.len() == 0 { return (4, 1, 0); } let mut q = 0usize; let nt = g.nt as usize; let nn = g.nn as usize;
  while q < n invariant aut_ok(*g, *m), la_rows(*g, *m, l@), t_shape(*g, *t), n == m.kern.len(), to.len() == n, nt == g.nt, nn == g.nn, q <= n, forall|k: int| 0 <= k < q ==> #[trigger] state_ok(*g, *t, *m, l@, to@, k) decreases n - q
  { if to[q] < t.ai.len() { let mut a = 0usize;
    while a < nt invariant aut_ok(*g, *m), la_rows(*g, *m, l@), t_shape(*g, *t), n == m.kern.len(), to.len() == n, nt == g.nt, q < n, to[q as int] < t.ai.len(), a <= nt, forall|k: int| 0 <= k < a ==> #[trigger] cell_ok(*g, *t, *m, l@, to@, q as int, k) decreases nt - a { if !x_cell(g, t, m, &l, to, q, a) { return (5, q, a); } a += 1; }
    let mut x = 0usize;
    while x < nn invariant aut_ok(*g, *m), t_shape(*g, *t), n == m.kern.len(), to.len() == n, nn == g.nn, q < n, to[q as int] < t.ai.len(), x <= nn, forall|k: int| 0 <= k < x ==> #[trigger] gcell_ok(*g, *t, *m, to@, q as int, k) decreases nn - x { if !x_gcell(g, t, m, to, q, x) { return (6, q, x); } x += 1; }
    }
    q += 1; }
  proof { theorem(*g, *t, *m, l@, to@); }
  (0, 0, 0) }
"""
