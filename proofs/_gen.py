"""The LALR(1) generator: grammar, first sets, validity of items, as in _lalr.py but over the generator's own data."""
GRAM = r"""
// a grammar as the generator holds it; the last rule is the added start rule
pub ghost struct G { pub rules: Seq<LalrRule>, pub comps: Seq<Component>, pub end: int }
pub open spec fn nr(g: G) -> int { g.rules.len() as int }
pub open spec fn sy(g: G, r: int, d: int) -> int { g.rules[r].components@[d].0 as int }
pub open spec fn ln(g: G, r: int) -> int { g.rules[r].components@.len() as int }
pub open spec fn lh(g: G, r: int) -> int { g.rules[r].name_id.0 as int }
pub open spec fn term(g: G, y: int) -> bool { g.comps[y] is Terminal }
pub open spec fn rl(g: G, r: int) -> bool { 0 <= r < nr(g) }
pub open spec fn sym_ok(g: G, r: int, d: int) -> bool { let y = sy(g, r, d); y < g.comps.len() && y != lh(g, nr(g) - 1) && (!term(g, y) ==> exists|k: int| #[trigger] prod(g, y, k)) }
pub open spec fn rule_ok(g: G, r: int) -> bool { lh(g, r) < g.comps.len() && !term(g, lh(g, r)) && ln(g, r) <= 0x3FFF_FFFF && forall|d: int| 0 <= d < ln(g, r) ==> #[trigger] sym_ok(g, r, d) }
pub open spec fn wf(g: G) -> bool { nr(g) >= 1 && ln(g, nr(g) - 1) == 1 && 0 <= g.end < g.comps.len() && term(g, g.end) && forall|r: int| rl(g, r) ==> #[trigger] rule_ok(g, r) }
// symbols that derive the empty string; first terminals
pub open spec fn prod(g: G, y: int, r: int) -> bool { rl(g, r) && lh(g, r) == y }
pub open spec fn nul(g: G, n: nat, y: int) -> bool decreases n { n > 0 && exists|r: int| #[trigger] prod(g, y, r) && forall|k: int| 0 <= k < ln(g, r) ==> nul(g, (n - 1) as nat, #[trigger] sy(g, r, k)) }
pub open spec fn isnul(g: G, y: int) -> bool { exists|n: nat| nul(g, n, y) }
pub open spec fn nulls(g: G, r: int, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> isnul(g, #[trigger] sy(g, r, k)) }
pub open spec fn fst(g: G, n: nat, y: int, a: int) -> bool decreases n { n > 0 && ((0 <= y < g.comps.len() && term(g, y) && y == a) || exists|r: int, k: int| #[trigger] fsym(g, y, r, k) && fst(g, (n - 1) as nat, sy(g, r, k), a)) }
pub open spec fn fsym(g: G, y: int, r: int, k: int) -> bool { prod(g, y, r) && 0 <= k < ln(g, r) && nulls(g, r, 0, k) }
pub open spec fn first(g: G, y: int, a: int) -> bool { exists|n: nat| fst(g, n, y, a) }
pub open spec fn sf(g: G, r: int, d: int, k: int, a: int) -> bool { d <= k < ln(g, r) && nulls(g, r, d, k) && first(g, sy(g, r, k), a) }
pub open spec fn sfirst(g: G, r: int, d: int, a: int) -> bool { exists|k: int| #[trigger] sf(g, r, d, k, a) }
// a may follow what rule r has before position d, when b follows the rule
pub open spec fn fol(g: G, r: int, d: int, b: int, a: int) -> bool { sfirst(g, r, d, a) || (nulls(g, r, d, ln(g, r)) && a == b) }
"""
FIRST = r"""
proof fn nul_mono(g: G, n: nat, m: nat, y: int) requires n <= m, nul(g, n, y) ensures nul(g, m, y) decreases n
{ let r = choose|r: int| #[trigger] prod(g, y, r) && forall|k: int| 0 <= k < ln(g, r) ==> nul(g, (n - 1) as nat, #[trigger] sy(g, r, k)); assert forall|k: int| 0 <= k < ln(g, r) implies nul(g, (m - 1) as nat, #[trigger] sy(g, r, k)) by { nul_mono(g, (n - 1) as nat, (m - 1) as nat, sy(g, r, k)); } }
proof fn nul_common(g: G, r: int, i: int) -> (n: nat) requires 0 <= i <= ln(g, r), nulls(g, r, 0, i) ensures forall|k: int| 0 <= k < i ==> nul(g, n, #[trigger] sy(g, r, k)) decreases i
{ if i == 0 { 0 } else { let n = nul_common(g, r, i - 1); let y = sy(g, r, i - 1); assert(isnul(g, y)); let m = choose|m: nat| nul(g, m, y); let x = if n < m { m } else { n }; assert forall|k: int| 0 <= k < i implies nul(g, x, #[trigger] sy(g, r, k)) by { if k == i - 1 { nul_mono(g, m, x, y); } else { nul_mono(g, n, x, sy(g, r, k)); } } x } }
proof fn nul_rule(g: G, r: int) requires rl(g, r), nulls(g, r, 0, ln(g, r)) ensures isnul(g, lh(g, r)) { let n = nul_common(g, r, ln(g, r)); assert(prod(g, lh(g, r), r)); assert(nul(g, n + 1, lh(g, r))); }
proof fn first_step(g: G, r: int, k: int, a: int) requires rl(g, r), 0 <= k < ln(g, r), nulls(g, r, 0, k), first(g, sy(g, r, k), a) ensures first(g, lh(g, r), a)
{ let n = choose|n: nat| fst(g, n, sy(g, r, k), a); assert(fsym(g, lh(g, r), r, k)); assert(fst(g, n + 1, lh(g, r), a)); }
pub open spec fn has_rule(g: G, d: Set<int>, r: int) -> bool { d.contains(lh(g, r)) && forall|k: int| 0 <= k < ln(g, r) && term(g, #[trigger] sy(g, r, k)) ==> d.contains(sy(g, r, k)) }
pub open spec fn dom_ok(g: G, d: Set<int>) -> bool { d.contains(g.end) && forall|r: int| rl(g, r) ==> #[trigger] has_rule(g, d, r) }
pub open spec fn in_dom(g: G, d: Set<int>, r: int) -> bool { forall|k: int| 0 <= k < ln(g, r) ==> d.contains(#[trigger] sy(g, r, k)) }
proof fn in_d(g: G, d: Set<int>, r: int) requires wf(g), dom_ok(g, d), rl(g, r) ensures in_dom(g, d, r), d.contains(lh(g, r)), rule_ok(g, r)
{ assert(rule_ok(g, r)); assert(has_rule(g, d, r)); assert forall|k: int| 0 <= k < ln(g, r) implies d.contains(#[trigger] sy(g, r, k)) by { assert(sym_ok(g, r, k)); let y = sy(g, r, k); if !term(g, y) { let q = choose|q: int| #[trigger] prod(g, y, q); assert(has_rule(g, d, q)); } } }
pub open spec fn entry0(g: G, nu: Map<int, bool>, fi: Map<int, Set<int>>, y: int) -> bool { 0 <= y < g.comps.len() && !nu[y] && fi[y] == if term(g, y) { set![y] } else { Set::<int>::empty() } }
pub open spec fn init(g: G, nu: Map<int, bool>, fi: Map<int, Set<int>>) -> bool { nu.dom() == fi.dom() && forall|y: int| #[trigger] fi.contains_key(y) ==> entry0(g, nu, fi, y) }
pub open spec fn entry(g: G, nu: Map<int, bool>, fi: Map<int, Set<int>>, y: int) -> bool { 0 <= y < g.comps.len() && (nu[y] ==> isnul(g, y)) && fi[y].finite() && (term(g, y) ==> fi[y].contains(y)) && forall|a: int| #[trigger] fi[y].contains(a) ==> first(g, y, a) }
pub open spec fn sound(g: G, nu: Map<int, bool>, fi: Map<int, Set<int>>) -> bool { nu.dom() == fi.dom() && dom_ok(g, fi.dom()) && forall|y: int| #[trigger] fi.contains_key(y) ==> entry(g, nu, fi, y) }
proof fn init_sound(g: G, nu: Map<int, bool>, fi: Map<int, Set<int>>) requires init(g, nu, fi), dom_ok(g, fi.dom()) ensures sound(g, nu, fi)
{ assert forall|y: int| #[trigger] fi.contains_key(y) implies entry(g, nu, fi, y) by { assert(entry0(g, nu, fi, y)); assert forall|a: int| #[trigger] fi[y].contains(a) implies first(g, y, a) by { assert(fst(g, 1, y, a)); } } }
pub open spec fn all_nu(g: G, nu: Map<int, bool>, r: int, k: int) -> bool { forall|j: int| 0 <= j < k ==> nu[#[trigger] sy(g, r, j)] }
pub open spec fn stable(g: G, nu: Map<int, bool>, fi: Map<int, Set<int>>, r: int) -> bool { (all_nu(g, nu, r, ln(g, r)) ==> nu[lh(g, r)]) && forall|k: int| 0 <= k < ln(g, r) && all_nu(g, nu, r, k) ==> fi[#[trigger] sy(g, r, k)].subset_of(fi[lh(g, r)]) }
pub open spec fn all_stable(g: G, nu: Map<int, bool>, fi: Map<int, Set<int>>) -> bool { forall|r: int| rl(g, r) ==> #[trigger] stable(g, nu, fi, r) }
pub open spec fn full(g: G, nu: Map<int, bool>, fi: Map<int, Set<int>>) -> bool { nu.dom() == fi.dom() && dom_ok(g, fi.dom()) && (forall|y: int| #[trigger] fi.contains_key(y) ==> nu[y] == isnul(g, y) && fi[y].finite() && forall|a: int| fi[y].contains(a) == #[trigger] first(g, y, a)) }
proof fn nul_full(g: G, nu: Map<int, bool>, fi: Map<int, Set<int>>, n: nat, y: int) requires wf(g), sound(g, nu, fi), all_stable(g, nu, fi), nul(g, n, y) ensures fi.contains_key(y), nu[y] decreases n
{ let r = choose|r: int| #[trigger] prod(g, y, r) && forall|k: int| 0 <= k < ln(g, r) ==> nul(g, (n - 1) as nat, #[trigger] sy(g, r, k)); in_d(g, fi.dom(), r); assert(stable(g, nu, fi, r)); assert forall|k: int| 0 <= k < ln(g, r) implies nu[#[trigger] sy(g, r, k)] by { nul_full(g, nu, fi, (n - 1) as nat, sy(g, r, k)); } }
proof fn fst_full(g: G, nu: Map<int, bool>, fi: Map<int, Set<int>>, n: nat, y: int, a: int) requires wf(g), sound(g, nu, fi), all_stable(g, nu, fi), fst(g, n, y, a), fi.contains_key(y) ensures fi[y].contains(a) decreases n
{ assert(entry(g, nu, fi, y)); if term(g, y) && y == a {} else { let (r, k) = choose|r: int, k: int| #[trigger] fsym(g, y, r, k) && fst(g, (n - 1) as nat, sy(g, r, k), a); in_d(g, fi.dom(), r); assert(fi.contains_key(sy(g, r, k))); fst_full(g, nu, fi, (n - 1) as nat, sy(g, r, k), a); assert(stable(g, nu, fi, r));
    assert forall|j: int| 0 <= j < k implies nu[#[trigger] sy(g, r, j)] by { assert(isnul(g, sy(g, r, j))); let m = choose|m: nat| nul(g, m, sy(g, r, j)); nul_full(g, nu, fi, m, sy(g, r, j)); } } }
proof fn finished(g: G, nu: Map<int, bool>, fi: Map<int, Set<int>>) requires wf(g), sound(g, nu, fi), all_stable(g, nu, fi) ensures full(g, nu, fi)
{ assert forall|y: int| #[trigger] fi.contains_key(y) implies nu[y] == isnul(g, y) && fi[y].finite() && forall|a: int| fi[y].contains(a) == #[trigger] first(g, y, a) by { assert(entry(g, nu, fi, y)); if isnul(g, y) { let n = choose|n: nat| nul(g, n, y); nul_full(g, nu, fi, n, y); }
    assert forall|a: int| fi[y].contains(a) == #[trigger] first(g, y, a) by { if first(g, y, a) { let n = choose|n: nat| fst(g, n, y, a); fst_full(g, nu, fi, n, y, a); } } } }
// a rule's contribution: its left side's set only grows, by first terminals
pub open spec fn grown(g: G, f0: Map<int, Set<int>>, f: Map<int, Set<int>>, y: int) -> bool { f == f0.insert(y, f[y]) && f0[y].subset_of(f[y]) }
proof fn add_first(g: G, nu: Map<int, bool>, f: Map<int, Set<int>>, r: int, k: int) requires wf(g), sound(g, nu, f), rl(g, r), 0 <= k < ln(g, r), all_nu(g, nu, r, k) ensures sound(g, nu, f.insert(lh(g, r), f[lh(g, r)].union(f[sy(g, r, k)])))
{ in_d(g, f.dom(), r); let y = lh(g, r); let h = f.insert(y, f[y].union(f[sy(g, r, k)])); assert(h.dom() =~= f.dom()); assert(entry(g, nu, f, y)); assert(entry(g, nu, f, sy(g, r, k)));
  assert forall|j: int| 0 <= j < k implies isnul(g, #[trigger] sy(g, r, j)) by { assert(entry(g, nu, f, sy(g, r, j))); }
  assert forall|a: int| #[trigger] h[y].contains(a) implies first(g, y, a) by { if !f[y].contains(a) { first_step(g, r, k, a); } }
  assert forall|x: int| #[trigger] h.contains_key(x) implies entry(g, nu, h, x) by { assert(entry(g, nu, f, x)); } }
proof fn add_nul(g: G, nu: Map<int, bool>, f: Map<int, Set<int>>, r: int) requires wf(g), sound(g, nu, f), rl(g, r), all_nu(g, nu, r, ln(g, r)) ensures sound(g, nu.insert(lh(g, r), true), f)
{ in_d(g, f.dom(), r); let y = lh(g, r); let h = nu.insert(y, true); assert(h.dom() =~= f.dom()); assert forall|j: int| 0 <= j < ln(g, r) implies isnul(g, #[trigger] sy(g, r, j)) by { assert(entry(g, nu, f, sy(g, r, j))); } nul_rule(g, r);
  assert forall|x: int| #[trigger] f.contains_key(x) implies entry(g, h, f, x) by { assert(entry(g, nu, f, x)); } }
proof fn same_size(a: Set<int>, b: Set<int>) requires a.subset_of(b), b.finite(), a.len() == b.len() ensures a == b { vstd::set_lib::lemma_subset_equality(a, b); }
// the rest of a rule from a position on
pub open spec fn tail_ok(g: G, f: Set<int>, n: bool, r: int, d: int) -> bool { n == nulls(g, r, d, ln(g, r)) && f.finite() && forall|a: int| f.contains(a) == #[trigger] sfirst(g, r, d, a) }
pub open spec fn row_ok(g: G, f: Seq<TSet>, n: Seq<bool>, r: int) -> bool { f.len() == ln(g, r) + 1 && n.len() == ln(g, r) + 1 && forall|d: int| 0 <= d <= ln(g, r) ==> #[trigger] tail_ok(g, f[d]@, n[d], r, d) }
pub open spec fn rows_ok(g: G, f: Seq<Vec<TSet>>, n: Seq<Vec<bool>>, k: int) -> bool { forall|r: int| 0 <= r < k ==> #[trigger] row_ok(g, f[r]@, n[r]@, r) }
proof fn tail_step(g: G, f: Set<int>, n: bool, r: int, d: int, h: Set<int>) requires rl(g, r), 0 <= d < ln(g, r), tail_ok(g, f, n, r, d + 1), h.finite(), forall|a: int| h.contains(a) == #[trigger] first(g, sy(g, r, d), a) ensures tail_ok(g, if isnul(g, sy(g, r, d)) { f.union(h) } else { Set::<int>::empty().union(h) }, isnul(g, sy(g, r, d)) && n, r, d)
{ let z = isnul(g, sy(g, r, d)); let u = if z { f.union(h) } else { Set::<int>::empty().union(h) };
  assert forall|a: int| u.contains(a) == #[trigger] sfirst(g, r, d, a) by {
    if first(g, sy(g, r, d), a) { assert(h.contains(a)); assert(sf(g, r, d, d, a)); }
    if z && f.contains(a) { assert(sfirst(g, r, d + 1, a)); let k = choose|k: int| #[trigger] sf(g, r, d + 1, k, a); assert(sf(g, r, d, k, a)); }
    if sfirst(g, r, d, a) { let k = choose|k: int| #[trigger] sf(g, r, d, k, a); if k > d { assert(isnul(g, sy(g, r, d))); assert(sf(g, r, d + 1, k, a)); assert(sfirst(g, r, d + 1, a)); } else { assert(h.contains(a)); } } }
  assert((z && n) == nulls(g, r, d, ln(g, r))) by { if nulls(g, r, d, ln(g, r)) { assert(isnul(g, sy(g, r, d))); } } }
proof fn tail_end(g: G, r: int, f: Set<int>) requires f == Set::<int>::empty() ensures tail_ok(g, f, true, r, ln(g, r)) { assert forall|a: int| f.contains(a) == #[trigger] sfirst(g, r, ln(g, r), a) by {} }
"""
CLOS = r"""
// items, and what a set of items brings in
pub open spec fn pos_ok(g: G, r: int, d: int) -> bool { rl(g, r) && 0 <= d <= ln(g, r) }
pub open spec fn before(g: G, r: int, r2: int, d2: int) -> bool { rl(g, r) && rl(g, r2) && 0 <= d2 < ln(g, r2) && sy(g, r2, d2) == lh(g, r) }
pub open spec fn before1(g: G, r: int, a: int, r2: int, d2: int, b: int) -> bool { before(g, r, r2, d2) && fol(g, r2, d2 + 1, b, a) }
pub open spec fn at(s: Seq<Item>, j: int, r: int, d: int) -> bool { 0 <= j < s.len() && s[j].rule_index == r && s[j].dot_pos == d }
pub open spec fn has(s: Seq<Item>, r: int, d: int) -> bool { exists|j: int| #[trigger] at(s, j, r, d) }
pub open spec fn hasla(s: Seq<Item>, r: int, d: int, a: int) -> bool { exists|j: int| #[trigger] at(s, j, r, d) && s[j].lookahead@.contains(a) }
pub open spec fn cl(g: G, n: nat, k: spec_fn(int, int) -> bool, r: int, d: int) -> bool decreases n { n > 0 && pos_ok(g, r, d) && (k(r, d) || (d == 0 && exists|r2: int, d2: int| #[trigger] before(g, r, r2, d2) && cl(g, (n - 1) as nat, k, r2, d2))) }
pub open spec fn cla(g: G, n: nat, k: spec_fn(int, int, int) -> bool, r: int, d: int, a: int) -> bool decreases n { n > 0 && pos_ok(g, r, d) && (k(r, d, a) || (d == 0 && exists|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && cla(g, (n - 1) as nat, k, r2, d2, b))) }
pub open spec fn incl(g: G, k: spec_fn(int, int) -> bool, r: int, d: int) -> bool { exists|n: nat| cl(g, n, k, r, d) }
pub open spec fn incla(g: G, k: spec_fn(int, int, int) -> bool, r: int, d: int, a: int) -> bool { exists|n: nat| cla(g, n, k, r, d, a) }
pub open spec fn kin(s: Seq<Item>) -> spec_fn(int, int) -> bool { |r: int, d: int| has(s, r, d) }
pub open spec fn kla(s: Seq<Item>) -> spec_fn(int, int, int) -> bool { |r: int, d: int, a: int| hasla(s, r, d, a) }
pub open spec fn less(a: Item, b: Item) -> bool { a.rule_index < b.rule_index || (a.rule_index == b.rule_index && a.dot_pos < b.dot_pos) }
pub open spec fn sorted(s: Seq<Item>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> less(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn la_in(g: G, dm: Set<int>, t: Set<int>) -> bool { forall|a: int| #[trigger] t.contains(a) ==> dm.contains(a) && 0 <= a < g.comps.len() && term(g, a) }
pub open spec fn nonempty(t: Set<int>) -> bool { exists|a: int| #[trigger] t.contains(a) }
pub open spec fn kern_ok(g: G, dm: Set<int>, s: Seq<Item>, i: int) -> bool { pos_ok(g, s[i].rule_index as int, s[i].dot_pos as int) && (s[i].dot_pos > 0 || s[i].rule_index == nr(g) - 1) && la_in(g, dm, s[i].lookahead@) && nonempty(s[i].lookahead@) }
pub open spec fn kernel(g: G, dm: Set<int>, s: Seq<Item>) -> bool { sorted(s) && forall|i: int| 0 <= i < s.len() ==> #[trigger] kern_ok(g, dm, s, i) }
pub open spec fn it_ok(g: G, dm: Set<int>, s: Seq<Item>, i: int) -> bool { pos_ok(g, s[i].rule_index as int, s[i].dot_pos as int) && la_in(g, dm, s[i].lookahead@) && nonempty(s[i].lookahead@) }
pub open spec fn closed0(g: G, s: Seq<Item>) -> bool { forall|r: int, r2: int, d2: int| has(s, r2, d2) && #[trigger] before(g, r, r2, d2) ==> has(s, r, 0) }
pub open spec fn closed1(g: G, s: Seq<Item>) -> bool { forall|r: int, a: int, r2: int, d2: int, b: int| hasla(s, r2, d2, b) && #[trigger] before1(g, r, a, r2, d2, b) ==> hasla(s, r, 0, a) }
pub open spec fn state_ok(g: G, dm: Set<int>, s: Seq<Item>) -> bool { sorted(s) && (forall|i: int| 0 <= i < s.len() ==> #[trigger] it_ok(g, dm, s, i)) && closed0(g, s) && closed1(g, s) }
// s is the closure of k0
pub open spec fn holds(k0: Seq<Item>, s: Seq<Item>) -> bool { (forall|r: int, d: int| #[trigger] has(k0, r, d) ==> has(s, r, d)) && forall|r: int, d: int, a: int| #[trigger] hasla(k0, r, d, a) ==> hasla(s, r, d, a) }
pub open spec fn within(g: G, k0: Seq<Item>, s: Seq<Item>) -> bool { (forall|r: int, d: int| #[trigger] has(s, r, d) ==> incl(g, kin(k0), r, d)) && forall|r: int, d: int, a: int| #[trigger] hasla(s, r, d, a) ==> incla(g, kla(k0), r, d, a) }
pub open spec fn closure_of(g: G, dm: Set<int>, k0: Seq<Item>, s: Seq<Item>) -> bool { state_ok(g, dm, s) && holds(k0, s) && within(g, k0, s) }
// every symbol derives something
pub open spec fn live_sym(g: G, y: int) -> bool { isnul(g, y) || exists|a: int| first(g, y, a) }
pub open spec fn live(g: G) -> bool { forall|r: int, d: int| rl(g, r) && 0 <= d < ln(g, r) ==> live_sym(g, #[trigger] sy(g, r, d)) }
pub open spec fn gives(g: G, it: Item, a: int) -> bool { sfirst(g, it.rule_index as int, it.dot_pos + 1, a) || (nulls(g, it.rule_index as int, it.dot_pos + 1, ln(g, it.rule_index as int)) && it.lookahead@.contains(a)) }
// the work list
pub open spec fn snd(g: G, dm: Set<int>, k0: Seq<Item>, it: Item) -> bool { let r = it.rule_index as int; let d = it.dot_pos as int; incl(g, kin(k0), r, d) && pos_ok(g, r, d) && la_in(g, dm, it.lookahead@) && nonempty(it.lookahead@) && forall|a: int| #[trigger] it.lookahead@.contains(a) ==> incla(g, kla(k0), r, d, a) }
pub open spec fn snds(g: G, dm: Set<int>, k0: Seq<Item>, s: Seq<Item>, j: int) -> bool { snd(g, dm, k0, s[j]) }
pub open spec fn ent(s: Seq<Item>, x: Map<int, usize>, k: int, r: int) -> bool { k <= x[r] < s.len() && s[x[r] as int].rule_index == r && s[x[r] as int].dot_pos == 0 }
pub open spec fn own(g: G, s: Seq<Item>, x: Map<int, usize>, j: int) -> bool { s[j].dot_pos == 0 && s[j].rule_index < nr(g) - 1 && x.contains_key(s[j].rule_index as int) && x[s[j].rule_index as int] == j }
pub open spec fn cinv(g: G, dm: Set<int>, k0: Seq<Item>, s: Seq<Item>, x: Map<int, usize>, m: Seq<bool>, q: Seq<usize>) -> bool { m.len() == s.len() && s.len() <= usize::MAX && s.len() >= k0.len() && (forall|j: int| 0 <= j < k0.len() ==> #[trigger] s[j] == k0[j]) && (forall|r: int| #[trigger] x.contains_key(r) ==> ent(s, x, k0.len() as int, r)) && (forall|j: int| k0.len() <= j < s.len() ==> #[trigger] own(g, s, x, j)) && (forall|j: int| 0 <= j < s.len() ==> #[trigger] snds(g, dm, k0, s, j)) && (forall|j: int| 0 <= j < q.len() ==> #[trigger] q[j] < s.len()) && (forall|j: int| 0 <= j < m.len() && #[trigger] m[j] ==> q.contains(j as usize)) }
pub open spec fn rule_done(g: G, s: Seq<Item>, x: Map<int, usize>, it: Item, r: int) -> bool { x.contains_key(r) && forall|a: int| #[trigger] gives(g, it, a) ==> s[x[r] as int].lookahead@.contains(a) }
pub open spec fn done(g: G, s: Seq<Item>, x: Map<int, usize>, it: Item) -> bool { forall|r: int| #[trigger] before(g, r, it.rule_index as int, it.dot_pos as int) ==> rule_done(g, s, x, it, r) }
pub open spec fn donej(g: G, s: Seq<Item>, x: Map<int, usize>, j: int) -> bool { done(g, s, x, s[j]) }
// every item but j0 is in the list or has brought in what it brings in
pub open spec fn cov(g: G, s: Seq<Item>, x: Map<int, usize>, q: Seq<usize>, j0: int) -> bool { forall|j: int| 0 <= j < s.len() && j != j0 && !q.contains(j as usize) ==> #[trigger] donej(g, s, x, j) }
pub open spec fn part(g: G, s: Seq<Item>, x: Map<int, usize>, it: Item, l: Seq<usize>, t: int) -> bool { forall|u: int| 0 <= u < t ==> rule_done(g, s, x, it, #[trigger] l[u] as int) }
pub open spec fn alike(a: Item, b: Item) -> bool { a.rule_index == b.rule_index && a.dot_pos == b.dot_pos }
pub open spec fn above(s: Seq<Item>, x: Map<int, usize>, s2: Seq<Item>, x2: Map<int, usize>) -> bool { s.len() <= s2.len() && (forall|j: int| 0 <= j < s.len() ==> alike(s[j], #[trigger] s2[j]) && s[j].lookahead@.subset_of(s2[j].lookahead@)) && (forall|r: int| #[trigger] x.contains_key(r) ==> x2.contains_key(r) && x2[r] == x[r] && x[r] < s.len()) }
proof fn rule_done_mono(g: G, s: Seq<Item>, x: Map<int, usize>, s2: Seq<Item>, x2: Map<int, usize>, it: Item, r: int) requires above(s, x, s2, x2), rule_done(g, s, x, it, r) ensures rule_done(g, s2, x2, it, r) { assert(x.contains_key(r)); let i = x[r] as int; assert(s[i].lookahead@.subset_of(s2[i].lookahead@)); }
proof fn same_gives(g: G, a: Item, b: Item) requires alike(a, b), a.lookahead@ == b.lookahead@ ensures forall|c: int| #![trigger gives(g, a, c)] #![trigger gives(g, b, c)] gives(g, a, c) == gives(g, b, c) {}
proof fn cov_step(g: G, s: Seq<Item>, x: Map<int, usize>, q: Seq<usize>, s2: Seq<Item>, x2: Map<int, usize>, q2: Seq<usize>, j0: int) requires cov(g, s, x, q, j0), above(s, x, s2, x2), forall|j: int| #![trigger s2[j]] 0 <= j < s2.len() && !q2.contains(j as usize) ==> j < s.len() && !q.contains(j as usize) && (j == j0 || s2[j].lookahead@ == s[j].lookahead@) ensures cov(g, s2, x2, q2, j0)
{ assert forall|j: int| 0 <= j < s2.len() && j != j0 && !q2.contains(j as usize) implies #[trigger] donej(g, s2, x2, j) by { let y = s2[j]; assert(j < s.len()); assert(alike(s[j], y)); assert(donej(g, s, x, j)); same_gives(g, s[j], y); assert forall|r: int| #[trigger] before(g, r, y.rule_index as int, y.dot_pos as int) implies rule_done(g, s2, x2, y, r) by { assert(before(g, r, s[j].rule_index as int, s[j].dot_pos as int)); assert(rule_done(g, s, x, s[j], r)); rule_done_mono(g, s, x, s2, x2, s[j], r); } } }
proof fn part_step(g: G, s: Seq<Item>, x: Map<int, usize>, s2: Seq<Item>, x2: Map<int, usize>, it: Item, l: Seq<usize>, t: int) requires above(s, x, s2, x2), part(g, s, x, it, l, t), rule_done(g, s2, x2, it, l[t] as int) ensures part(g, s2, x2, it, l, t + 1)
{ assert forall|u: int| 0 <= u < t + 1 implies rule_done(g, s2, x2, it, #[trigger] l[u] as int) by { if u < t { rule_done_mono(g, s, x, s2, x2, it, l[u] as int); } } }
proof fn dom_first(g: G, dm: Set<int>, n: nat, y: int, a: int) requires wf(g), dom_ok(g, dm), dm.contains(y), fst(g, n, y, a) ensures dm.contains(a), 0 <= a < g.comps.len(), term(g, a) decreases n
{ if 0 <= y < g.comps.len() && term(g, y) && y == a {} else { let (r, k) = choose|r: int, k: int| #[trigger] fsym(g, y, r, k) && fst(g, (n - 1) as nat, sy(g, r, k), a); in_d(g, dm, r); assert(dm.contains(sy(g, r, k))); dom_first(g, dm, (n - 1) as nat, sy(g, r, k), a); } }
proof fn term_first(g: G, y: int, a: int) requires wf(g), 0 <= y < g.comps.len(), term(g, y) ensures first(g, y, a) == (a == y)
{ if first(g, y, a) { let n = choose|n: nat| fst(g, n, y, a); if y != a { let (r, k) = choose|r: int, k: int| #[trigger] fsym(g, y, r, k) && fst(g, (n - 1) as nat, sy(g, r, k), a); assert(rule_ok(g, r)); } } if a == y { assert(fst(g, 1, y, a)); } }
proof fn rest_first(g: G, r: int, d: int) -> (a: int) requires wf(g), live(g), rl(g, r), 0 <= d <= ln(g, r), !nulls(g, r, d, ln(g, r)) ensures sfirst(g, r, d, a) decreases ln(g, r) - d
{ let k = choose|k: int| d <= k < ln(g, r) && !isnul(g, #[trigger] sy(g, r, k)); if isnul(g, sy(g, r, d)) { assert(k > d); let a = rest_first(g, r, d + 1); let j = choose|j: int| #[trigger] sf(g, r, d + 1, j, a); assert(sf(g, r, d, j, a)); a } else { assert(live_sym(g, sy(g, r, d))); let a = choose|a: int| first(g, sy(g, r, d), a); assert(sf(g, r, d, d, a)); a } }
// what an item brings in is sound
proof fn brought(g: G, dm: Set<int>, k0: Seq<Item>, it: Item, n: Item) requires wf(g), live(g), dom_ok(g, dm), snd(g, dm, k0, it), n.dot_pos == 0, before(g, n.rule_index as int, it.rule_index as int, it.dot_pos as int), forall|a: int| n.lookahead@.contains(a) == #[trigger] gives(g, it, a) ensures snd(g, dm, k0, n)
{ let r2 = it.rule_index as int; let d2 = it.dot_pos as int; let r = n.rule_index as int; let m = choose|m: nat| cl(g, m, kin(k0), r2, d2); assert(cl(g, m + 1, kin(k0), r, 0)); in_d(g, dm, r2);
  let b0 = choose|b: int| #[trigger] it.lookahead@.contains(b);
  if nulls(g, r2, d2 + 1, ln(g, r2)) { assert(gives(g, it, b0)); assert(n.lookahead@.contains(b0)); } else { let a = rest_first(g, r2, d2 + 1); assert(gives(g, it, a)); assert(n.lookahead@.contains(a)); }
  assert forall|a: int| #[trigger] n.lookahead@.contains(a) implies dm.contains(a) && 0 <= a < g.comps.len() && term(g, a) by { assert(gives(g, it, a)); if sfirst(g, r2, d2 + 1, a) { let k = choose|k: int| #[trigger] sf(g, r2, d2 + 1, k, a); let h = choose|h: nat| fst(g, h, sy(g, r2, k), a); assert(dm.contains(sy(g, r2, k))); dom_first(g, dm, h, sy(g, r2, k), a); } }
  assert forall|a: int| #[trigger] n.lookahead@.contains(a) implies incla(g, kla(k0), r, 0, a) by { assert(gives(g, it, a)); let b = if sfirst(g, r2, d2 + 1, a) { b0 } else { a }; assert(it.lookahead@.contains(b)); let h = choose|h: nat| cla(g, h, kla(k0), r2, d2, b); assert(before1(g, r, a, r2, d2, b)); assert(cla(g, h + 1, kla(k0), r, 0, a)); } }
proof fn add_new(g: G, dm: Set<int>, k0: Seq<Item>, s: Seq<Item>, x: Map<int, usize>, m: Seq<bool>, q: Seq<usize>, it: Item, n: Item) requires cinv(g, dm, k0, s, x, m, q), snd(g, dm, k0, n), !x.contains_key(n.rule_index as int), n.dot_pos == 0, n.rule_index < nr(g) - 1, s.len() < usize::MAX, forall|a: int| n.lookahead@.contains(a) == #[trigger] gives(g, it, a)
  ensures cinv(g, dm, k0, s.push(n), x.insert(n.rule_index as int, s.len() as usize), m.push(true), q.push(s.len() as usize)), above(s, x, s.push(n), x.insert(n.rule_index as int, s.len() as usize)), rule_done(g, s.push(n), x.insert(n.rule_index as int, s.len() as usize), it, n.rule_index as int)
{ let s2 = s.push(n); let x2 = x.insert(n.rule_index as int, s.len() as usize); let q2 = q.push(s.len() as usize);
  assert forall|r: int| #[trigger] x2.contains_key(r) implies ent(s2, x2, k0.len() as int, r) by { if r != n.rule_index { assert(x.contains_key(r)); assert(ent(s, x, k0.len() as int, r)); } }
  assert forall|r: int| #[trigger] x.contains_key(r) implies x2.contains_key(r) && x2[r] == x[r] && x[r] < s.len() by { assert(ent(s, x, k0.len() as int, r)); }
  assert forall|j: int| k0.len() <= j < s2.len() implies #[trigger] own(g, s2, x2, j) by { if j < s.len() { assert(own(g, s, x, j)); } }
  assert forall|j: int| 0 <= j < s2.len() implies #[trigger] snds(g, dm, k0, s2, j) by { if j < s.len() { assert(snds(g, dm, k0, s, j)); } }
  assert forall|j: int| 0 <= j < s2.len() && #[trigger] m.push(true)[j] implies q2.contains(j as usize) by { if j < s.len() { assert(m[j]); let k = q.index_of(j as usize); assert(q2[k] == j); } else { assert(q2[q.len() as int] == j); } } }
proof fn add_old(g: G, dm: Set<int>, k0: Seq<Item>, s: Seq<Item>, x: Map<int, usize>, m: Seq<bool>, q: Seq<usize>, it: Item, n: Item, i: int, o: Item) requires cinv(g, dm, k0, s, x, m, q), snd(g, dm, k0, n), x.contains_key(n.rule_index as int), i == x[n.rule_index as int], n.dot_pos == 0, alike(o, s[i]), o.lookahead@ == s[i].lookahead@.union(n.lookahead@), forall|a: int| n.lookahead@.contains(a) == #[trigger] gives(g, it, a)
  ensures cinv(g, dm, k0, s.update(i, o), x, m, q), above(s, x, s.update(i, o), x), rule_done(g, s.update(i, o), x, it, n.rule_index as int)
{ let s2 = s.update(i, o); let r = n.rule_index as int; assert(ent(s, x, k0.len() as int, r)); assert(snds(g, dm, k0, s, i)); assert(own(g, s, x, i));
  assert forall|r: int| #[trigger] x.contains_key(r) implies ent(s2, x, k0.len() as int, r) && x[r] < s.len() by { assert(ent(s, x, k0.len() as int, r)); }
  assert forall|j: int| k0.len() <= j < s2.len() implies #[trigger] own(g, s2, x, j) by { assert(own(g, s, x, j)); }
  assert forall|j: int| 0 <= j < s2.len() implies #[trigger] snds(g, dm, k0, s2, j) by { assert(snds(g, dm, k0, s, j)); if j == i { let b = choose|b: int| #[trigger] s[i].lookahead@.contains(b); assert(o.lookahead@.contains(b)); } }
  assert forall|j: int| 0 <= j < s.len() implies alike(s[j], #[trigger] s2[j]) && s[j].lookahead@.subset_of(s2[j].lookahead@) by {}
  assert forall|a: int| #[trigger] gives(g, it, a) implies s2[x[r] as int].lookahead@.contains(a) by { assert(n.lookahead@.contains(a)); } }
proof fn pushed(q: Seq<usize>, i: usize) ensures forall|j: usize| #[trigger] q.push(i).contains(j) == (q.contains(j) || j == i)
{ let p = q.push(i); assert forall|j: usize| #[trigger] p.contains(j) == (q.contains(j) || j == i) by { if q.contains(j) { let k = q.index_of(j); assert(p[k] == j); } if j == i { assert(p[q.len() as int] == j); } if p.contains(j) { let k = p.index_of(j); if k < q.len() { assert(q[k] == j); } } } }
proof fn popped(q: Seq<usize>, q2: Seq<usize>, i: usize) requires q.len() > 0, q2 == q.subrange(1, q.len() as int), i == q[0] ensures forall|j: usize| #[trigger] q.contains(j) == (q2.contains(j) || j == i)
{ assert forall|j: usize| #[trigger] q.contains(j) == (q2.contains(j) || j == i) by { if q.contains(j) { let k = q.index_of(j); if k > 0 { assert(q2[k - 1] == j); } } if q2.contains(j) { let k = q2.index_of(j); assert(q[k + 1] == j); } } }
// nothing left to do: closed
proof fn emptied(g: G, dm: Set<int>, k0: Seq<Item>, s: Seq<Item>, x: Map<int, usize>, m: Seq<bool>, q: Seq<usize>) requires wf(g), cinv(g, dm, k0, s, x, m, q), cov(g, s, x, q, -1), q.len() == 0 ensures closed0(g, s), closed1(g, s), holds(k0, s), within(g, k0, s), forall|i: int| 0 <= i < s.len() ==> #[trigger] it_ok(g, dm, s, i)
{ assert forall|r: int, r2: int, d2: int| has(s, r2, d2) && #[trigger] before(g, r, r2, d2) implies has(s, r, 0) by { let j = choose|j: int| #[trigger] at(s, j, r2, d2); assert(donej(g, s, x, j)); assert(rule_done(g, s, x, s[j], r)); assert(ent(s, x, k0.len() as int, r)); assert(at(s, x[r] as int, r, 0)); }
  assert forall|r: int, a: int, r2: int, d2: int, b: int| hasla(s, r2, d2, b) && #[trigger] before1(g, r, a, r2, d2, b) implies hasla(s, r, 0, a) by { let j = choose|j: int| #[trigger] at(s, j, r2, d2) && s[j].lookahead@.contains(b); assert(donej(g, s, x, j)); assert(before(g, r, r2, d2)); assert(rule_done(g, s, x, s[j], r)); assert(ent(s, x, k0.len() as int, r)); assert(gives(g, s[j], a)); assert(at(s, x[r] as int, r, 0)); }
  assert forall|r: int, d: int| #[trigger] has(k0, r, d) implies has(s, r, d) by { let j = choose|j: int| #[trigger] at(k0, j, r, d); assert(s[j] == k0[j]); assert(at(s, j, r, d)); }
  assert forall|r: int, d: int, a: int| #[trigger] hasla(k0, r, d, a) implies hasla(s, r, d, a) by { let j = choose|j: int| #[trigger] at(k0, j, r, d) && k0[j].lookahead@.contains(a); assert(s[j] == k0[j]); assert(at(s, j, r, d)); }
  assert forall|r: int, d: int| #[trigger] has(s, r, d) implies incl(g, kin(k0), r, d) by { let j = choose|j: int| #[trigger] at(s, j, r, d); assert(snds(g, dm, k0, s, j)); }
  assert forall|r: int, d: int, a: int| #[trigger] hasla(s, r, d, a) implies incla(g, kla(k0), r, d, a) by { let j = choose|j: int| #[trigger] at(s, j, r, d) && s[j].lookahead@.contains(a); assert(snds(g, dm, k0, s, j)); }
  assert forall|i: int| 0 <= i < s.len() implies #[trigger] it_ok(g, dm, s, i) by { assert(snds(g, dm, k0, s, i)); } }
proof fn started(g: G, dm: Set<int>, s: Seq<Item>, x: Map<int, usize>, m: Seq<bool>, q: Seq<usize>) requires s.len() <= usize::MAX, kernel(g, dm, s), x == Map::<int, usize>::empty(), m.len() == s.len(), forall|j: int| 0 <= j < m.len() ==> !#[trigger] m[j], q.len() == s.len(), forall|j: int| 0 <= j < q.len() ==> #[trigger] q[j] == j ensures cinv(g, dm, s, s, x, m, q), cov(g, s, x, q, -1)
{ assert forall|j: int| 0 <= j < s.len() implies #[trigger] snds(g, dm, s, s, j) by { assert(kern_ok(g, dm, s, j)); let r = s[j].rule_index as int; let d = s[j].dot_pos as int; assert(at(s, j, r, d)); assert(kin(s)(r, d)); assert(cl(g, 1, kin(s), r, d)); assert forall|a: int| #[trigger] s[j].lookahead@.contains(a) implies incla(g, kla(s), r, d, a) by { assert(hasla(s, r, d, a)); assert(kla(s)(r, d, a)); assert(cla(g, 1, kla(s), r, d, a)); } }
  assert forall|j: int| 0 <= j < s.len() && j != -1 && !q.contains(j as usize) implies #[trigger] donej(g, s, x, j) by { assert(q[j] == j); } }
// sorting
pub open spec fn perm(p: Seq<int>, n: int) -> bool { p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]) && forall|j: int| 0 <= j < n ==> #[trigger] p.contains(j) }
pub open spec fn arranged(a: Seq<Item>, b: Seq<Item>, p: Seq<int>) -> bool { perm(p, a.len() as int) && b.len() == a.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]] }
pub open spec fn ordered(s: Seq<Item>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !less(#[trigger] s[j], #[trigger] s[i]) }
proof fn arr_has(a: Seq<Item>, b: Seq<Item>, p: Seq<int>) requires arranged(a, b, p) ensures forall|r: int, d: int| #[trigger] has(a, r, d) == has(b, r, d), forall|r: int, d: int, c: int| #[trigger] hasla(a, r, d, c) == hasla(b, r, d, c)
{ assert forall|r: int, d: int, c: int| #[trigger] hasla(a, r, d, c) == hasla(b, r, d, c) by {
    if hasla(a, r, d, c) { let j = choose|j: int| #[trigger] at(a, j, r, d) && a[j].lookahead@.contains(c); assert(p.contains(j)); let i = p.index_of(j); assert(b[i] == a[p[i]]); assert(at(b, i, r, d)); }
    if hasla(b, r, d, c) { let i = choose|i: int| #[trigger] at(b, i, r, d) && b[i].lookahead@.contains(c); assert(b[i] == a[p[i]]); assert(at(a, p[i], r, d)); } }
  assert forall|r: int, d: int| #[trigger] has(a, r, d) == has(b, r, d) by {
    if has(a, r, d) { let j = choose|j: int| #[trigger] at(a, j, r, d); assert(p.contains(j)); let i = p.index_of(j); assert(b[i] == a[p[i]]); assert(at(b, i, r, d)); }
    if has(b, r, d) { let i = choose|i: int| #[trigger] at(b, i, r, d); assert(b[i] == a[p[i]]); assert(at(a, p[i], r, d)); } } }
pub open spec fn split(a: Item, b: Item) -> bool { a.rule_index != b.rule_index || a.dot_pos != b.dot_pos }
proof fn all_split(g: G, dm: Set<int>, k0: Seq<Item>, s: Seq<Item>, x: Map<int, usize>, m: Seq<bool>, q: Seq<usize>, i: int, j: int) requires cinv(g, dm, k0, s, x, m, q), kernel(g, dm, k0), 0 <= i < s.len(), 0 <= j < s.len(), i != j ensures split(s[i], s[j])
{ let k = k0.len(); if i < k { assert(s[i] == k0[i]); assert(kern_ok(g, dm, k0, i)); } else { assert(own(g, s, x, i)); } if j < k { assert(s[j] == k0[j]); assert(kern_ok(g, dm, k0, j)); } else { assert(own(g, s, x, j)); }
  if i < k && j < k { if i < j { assert(less(k0[i], k0[j])); } else { assert(less(k0[j], k0[i])); } } }
proof fn sorted_after(g: G, dm: Set<int>, k0: Seq<Item>, s: Seq<Item>, x: Map<int, usize>, m: Seq<bool>, q: Seq<usize>, b: Seq<Item>, p: Seq<int>) requires wf(g), kernel(g, dm, k0), cinv(g, dm, k0, s, x, m, q), cov(g, s, x, q, -1), q.len() == 0, arranged(s, b, p), ordered(b) ensures closure_of(g, dm, k0, b)
{ emptied(g, dm, k0, s, x, m, q); arr_has(s, b, p);
  assert forall|i: int, j: int| 0 <= i < j < b.len() implies less(#[trigger] b[i], #[trigger] b[j]) by { assert(b[i] == s[p[i]] && b[j] == s[p[j]]); assert(p[i] != p[j]); all_split(g, dm, k0, s, x, m, q, p[i], p[j]); assert(!less(b[j], b[i])); }
  assert forall|i: int| 0 <= i < b.len() implies #[trigger] it_ok(g, dm, b, i) by { assert(b[i] == s[p[i]]); assert(it_ok(g, dm, s, p[i])); }
  assert forall|r: int, d: int| #[trigger] has(k0, r, d) implies has(b, r, d) by { assert(has(s, r, d)); }
  assert forall|r: int, d: int, a: int| #[trigger] hasla(k0, r, d, a) implies hasla(b, r, d, a) by { assert(hasla(s, r, d, a)); }
  assert forall|r: int, d: int| #[trigger] has(b, r, d) implies incl(g, kin(k0), r, d) by { assert(has(s, r, d)); }
  assert forall|r: int, d: int, a: int| #[trigger] hasla(b, r, d, a) implies incla(g, kla(k0), r, d, a) by { assert(hasla(s, r, d, a)); }
  assert forall|r: int, r2: int, d2: int| has(b, r2, d2) && #[trigger] before(g, r, r2, d2) implies has(b, r, 0) by { assert(has(s, r2, d2)); assert(has(s, r, 0)); }
  assert forall|r: int, a: int, r2: int, d2: int, c: int| hasla(b, r2, d2, c) && #[trigger] before1(g, r, a, r2, d2, c) implies hasla(b, r, 0, a) by { assert(hasla(s, r2, d2, c)); assert(hasla(s, r, 0, a)); } }
proof fn unsorted_after(g: G, dm: Set<int>, k0: Seq<Item>, s: Seq<Item>, x: Map<int, usize>, m: Seq<bool>, q: Seq<usize>) requires wf(g), kernel(g, dm, k0), cinv(g, dm, k0, s, x, m, q), cov(g, s, x, q, -1), q.len() == 0, s.len() == k0.len() ensures closure_of(g, dm, k0, s)
{ emptied(g, dm, k0, s, x, m, q); assert(s =~= k0); }
proof fn no_more(g: G, s: Seq<Item>, x: Map<int, usize>, q: Seq<usize>, j: int) requires cov(g, s, x, q, j), 0 <= j < s.len(), q.contains(j as usize) || donej(g, s, x, j) ensures cov(g, s, x, q, -1) { assert forall|i: int| 0 <= i < s.len() && i != -1 && !q.contains(i as usize) implies #[trigger] donej(g, s, x, i) by {} }
proof fn pop_step(g: G, dm: Set<int>, k0: Seq<Item>, s: Seq<Item>, x: Map<int, usize>, m: Seq<bool>, q: Seq<usize>, q2: Seq<usize>, i: usize) requires cinv(g, dm, k0, s, x, m, q), cov(g, s, x, q, -1), q.len() > 0, q2 == q.subrange(1, q.len() as int), i == q[0] ensures i < s.len(), snds(g, dm, k0, s, i as int), cinv(g, dm, k0, s, x, m.update(i as int, false), q2), cov(g, s, x, q2, i as int)
{ popped(q, q2, i); assert(q[0] < s.len()); let m2 = m.update(i as int, false); assert forall|j: int| 0 <= j < q2.len() implies #[trigger] q2[j] < s.len() by { assert(q[j + 1] < s.len()); } assert forall|j: int| 0 <= j < m2.len() && #[trigger] m2[j] implies q2.contains(j as usize) by { assert(m[j]); }
  assert forall|j: int| 0 <= j < s.len() && j != i && !q2.contains(j as usize) implies #[trigger] donej(g, s, x, j) by { assert(!q.contains(j as usize)); } }
proof fn mark_step(g: G, dm: Set<int>, k0: Seq<Item>, s: Seq<Item>, x: Map<int, usize>, m: Seq<bool>, q: Seq<usize>, i: int) requires cinv(g, dm, k0, s, x, m, q), 0 <= i < s.len(), i <= usize::MAX ensures cinv(g, dm, k0, s, x, m.update(i, true), q.push(i as usize))
{ pushed(q, i as usize); let q2 = q.push(i as usize); let m2 = m.update(i, true); assert forall|j: int| 0 <= j < q2.len() implies #[trigger] q2[j] < s.len() by { if j < q.len() { assert(q[j] < s.len()); } } assert forall|j: int| 0 <= j < m2.len() && #[trigger] m2[j] implies q2.contains(j as usize) by { if j != i { assert(m[j]); } } }
"""
MERGE = r"""
// states and edges
pub open spec fn same_items(a: Seq<Item>, b: Seq<Item>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> alike(#[trigger] a[k], b[k]) }
pub open spec fn same_la(a: Seq<Item>, b: Seq<Item>) -> bool { same_items(a, b) && forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).lookahead@ == b[k].lookahead@ }
pub open spec fn joined(a: Seq<Item>, b: Seq<Item>, c: Seq<Item>) -> bool { c.len() == a.len() && forall|k: int| 0 <= k < c.len() ==> alike(#[trigger] c[k], a[k]) && c[k].lookahead@ == a[k].lookahead@.union(b[k].lookahead@) }
pub open spec fn its(ss: Seq<State>, q: int) -> Seq<Item> { ss[q].items@ }
pub open spec fn new_edge(a: Seq<State>, c: Seq<State>, p: int, x: int, t: int) -> bool { c[p].edge@ == a[p].edge@.insert((x, t)) && forall|q: int| 0 <= q < a.len() && q != p ==> (#[trigger] c[q]).edge@ == a[q].edge@ }
pub open spec fn merged(a: Seq<State>, c: Seq<State>, p: int, x: int, t: int, s: Seq<Item>) -> bool { 0 <= t < a.len() && c.len() == a.len() && same_items(s, its(a, t)) && joined(its(a, t), s, its(c, t)) && (forall|q: int| 0 <= q < a.len() && q != t ==> (#[trigger] c[q]).items == a[q].items) && new_edge(a, c, p, x, t) }
pub open spec fn fresh(a: Seq<State>, c: Seq<State>, p: int, x: int, t: int, s: State) -> bool { t == a.len() && c.len() == a.len() + 1 && (forall|q: int| 0 <= q < a.len() ==> !same_items(s.items@, #[trigger] its(a, q))) && c[t] == s && (forall|q: int| 0 <= q < a.len() ==> (#[trigger] c[q]).items == a[q].items) && new_edge(a, c, p, x, t) }
pub open spec fn grew(a: Seq<State>, n: Set<int>, u: Seq<usize>, c: Seq<State>, n2: Set<int>, u2: Seq<usize>, p: int, x: int, t: int, s: State) -> bool { (merged(a, c, p, x, t, s.items@) || fresh(a, c, p, x, t, s)) && ((t < a.len() && same_la(its(a, t), its(c, t)) && n2 == n && u2 == u) || (n2 == n.insert(t) && u2 == u.push(t as usize))) }
"""
VALID = r"""
// LR(0) and LR(1) items valid for a string of symbols; LALR(1): strings with the same LR(0) items share a state, its lookaheads are those of all of them
pub open spec fn v0(g: G, n: nat, w: Seq<int>, r: int, d: int) -> bool decreases n { n > 0 && pos_ok(g, r, d) && ((w.len() == 0 && r == nr(g) - 1 && d == 0) || (d > 0 && w.len() > 0 && w.last() == sy(g, r, d - 1) && v0(g, (n - 1) as nat, w.drop_last(), r, d - 1)) || (d == 0 && exists|r2: int, d2: int| #[trigger] before(g, r, r2, d2) && v0(g, (n - 1) as nat, w, r2, d2))) }
pub open spec fn v1(g: G, n: nat, w: Seq<int>, r: int, d: int, a: int) -> bool decreases n { n > 0 && pos_ok(g, r, d) && ((w.len() == 0 && r == nr(g) - 1 && d == 0 && a == g.end) || (d > 0 && w.len() > 0 && w.last() == sy(g, r, d - 1) && v1(g, (n - 1) as nat, w.drop_last(), r, d - 1, a)) || (d == 0 && exists|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && v1(g, (n - 1) as nat, w, r2, d2, b))) }
pub open spec fn valid0(g: G, w: Seq<int>, r: int, d: int) -> bool { exists|n: nat| v0(g, n, w, r, d) }
pub open spec fn valid1(g: G, w: Seq<int>, r: int, d: int, a: int) -> bool { exists|n: nat| v1(g, n, w, r, d, a) }
pub open spec fn same(g: G, w: Seq<int>, v: Seq<int>) -> bool { forall|r: int, d: int| valid0(g, w, r, d) == #[trigger] valid0(g, v, r, d) }
pub open spec fn lookahead(g: G, w: Seq<int>, r: int, d: int, a: int) -> bool { exists|v: Seq<int>| same(g, w, v) && #[trigger] valid1(g, v, r, d, a) }
pub open spec fn can_go(g: G, w: Seq<int>, x: int) -> bool { exists|r: int, d: int| #[trigger] valid0(g, w, r, d) && d < ln(g, r) && sy(g, r, d) == x }
pub open spec fn can_reduce(g: G, w: Seq<int>, r: int, a: int) -> bool { rl(g, r) && valid0(g, w, r, ln(g, r)) && lookahead(g, w, r, ln(g, r), a) }
"""
AUTO = r"""
pub open spec fn edge(ss: Seq<State>, p: int, x: int, q: int) -> bool { 0 <= p < ss.len() && 0 <= q < ss.len() && ss[p].edge@.contains((x, q)) }
pub open spec fn path(ss: Seq<State>, w: Seq<int>, q: int) -> bool decreases w.len() { 0 <= q < ss.len() && if w.len() == 0 { q == 0 } else { exists|p: int| #[trigger] edge(ss, p, w.last(), q) && path(ss, w.drop_last(), p) } }
pub open spec fn ahead(g: G, r: int, d: int, x: int) -> bool { rl(g, r) && 0 <= d < ln(g, r) && sy(g, r, d) == x }
pub open spec fn kgo(g: G, s: Seq<Item>, x: int) -> spec_fn(int, int) -> bool { |r: int, d: int| ahead(g, r, d - 1, x) && has(s, r, d - 1) }
pub open spec fn kgola(g: G, s: Seq<Item>, x: int) -> spec_fn(int, int, int) -> bool { |r: int, d: int, a: int| ahead(g, r, d - 1, x) && hasla(s, r, d - 1, a) }
pub open spec fn gofwd(g: G, s: Seq<Item>, x: int, t: Seq<Item>) -> bool { forall|r: int, d: int| #[trigger] ahead(g, r, d, x) && has(s, r, d) ==> has(t, r, d + 1) }
pub open spec fn gola(g: G, s: Seq<Item>, x: int, t: Seq<Item>) -> bool { forall|r: int, d: int, a: int| ahead(g, r, d, x) && #[trigger] hasla(s, r, d, a) ==> hasla(t, r, d + 1, a) }
pub open spec fn goback(g: G, s: Seq<Item>, x: int, t: Seq<Item>) -> bool { forall|r: int, d: int| #[trigger] has(t, r, d) ==> incl(g, kgo(g, s, x), r, d) }
pub open spec fn goes(g: G, s: Seq<Item>, x: int) -> bool { exists|r: int, d: int| #[trigger] has(s, r, d) && ahead(g, r, d, x) }
pub open spec fn eok(g: G, s: Seq<Item>, x: int, t: Seq<Item>) -> bool { gofwd(g, s, x, t) && goback(g, s, x, t) && goes(g, s, x) }
pub open spec fn eqs(g: G, ss: Seq<State>, p: int, x: int, q: int) -> bool { eok(g, its(ss, p), x, its(ss, q)) }
pub open spec fn distinct(ss: Seq<State>) -> bool { forall|p: int, q: int| 0 <= p < q < ss.len() ==> !same_items(#[trigger] its(ss, p), #[trigger] its(ss, q)) }
pub open spec fn lasnd(g: G, ss: Seq<State>, q: int, r: int, d: int, a: int) -> bool { exists|w: Seq<int>| path(ss, w, q) && #[trigger] valid1(g, w, r, d, a) }
pub open spec fn in_snd(g: G, ss: Seq<State>, q: int) -> bool { forall|r: int, d: int, a: int| #[trigger] hasla(its(ss, q), r, d, a) ==> lasnd(g, ss, q, r, d, a) }
pub open spec fn q_ok(g: G, dm: Set<int>, ss: Seq<State>, q: int) -> bool { state_ok(g, dm, its(ss, q)) && in_snd(g, ss, q) && forall|x: int, t: int| #[trigger] ss[q].edge@.contains((x, t)) ==> 0 <= t < ss.len() }
pub open spec fn kst(g: G) -> spec_fn(int, int) -> bool { |r: int, d: int| r == nr(g) - 1 && d == 0 }
pub open spec fn st_ok(g: G, s: Seq<Item>) -> bool { has(s, nr(g) - 1, 0) && hasla(s, nr(g) - 1, 0, g.end) && forall|r: int, d: int| #[trigger] has(s, r, d) ==> incl(g, kst(g), r, d) }
pub open spec fn inv(g: G, dm: Set<int>, ss: Seq<State>) -> bool { ss.len() > 0 && st_ok(g, its(ss, 0)) && distinct(ss) && (forall|q: int| 0 <= q < ss.len() ==> #[trigger] q_ok(g, dm, ss, q)) && forall|p: int, x: int, q: int| #[trigger] edge(ss, p, x, q) ==> eqs(g, ss, p, x, q) }
pub open spec fn flowed(g: G, ss: Seq<State>, p: int, s: Seq<Item>, x: int) -> bool { exists|t: int| #[trigger] edge(ss, p, x, t) && gola(g, s, x, its(ss, t)) }
pub open spec fn flow(g: G, ss: Seq<State>, p: int) -> bool { forall|x: int| #[trigger] goes(g, its(ss, p), x) ==> flowed(g, ss, p, its(ss, p), x) }
// item sets compared
proof fn same_has(a: Seq<Item>, b: Seq<Item>) requires same_items(a, b) ensures forall|r: int, d: int| #![trigger has(a, r, d)] #![trigger has(b, r, d)] has(a, r, d) == has(b, r, d)
{ assert forall|r: int, d: int| #![trigger has(a, r, d)] #![trigger has(b, r, d)] has(a, r, d) == has(b, r, d) by { if has(a, r, d) { let j = choose|j: int| #[trigger] at(a, j, r, d); assert(alike(a[j], b[j])); assert(at(b, j, r, d)); } if has(b, r, d) { let j = choose|j: int| #[trigger] at(b, j, r, d); assert(alike(a[j], b[j])); assert(at(a, j, r, d)); } } }
proof fn same_hasla(a: Seq<Item>, b: Seq<Item>) requires same_la(a, b) ensures forall|r: int, d: int, c: int| #![trigger hasla(a, r, d, c)] #![trigger hasla(b, r, d, c)] hasla(a, r, d, c) == hasla(b, r, d, c)
{ assert forall|r: int, d: int, c: int| #![trigger hasla(a, r, d, c)] #![trigger hasla(b, r, d, c)] hasla(a, r, d, c) == hasla(b, r, d, c) by { if hasla(a, r, d, c) { let j = choose|j: int| #[trigger] at(a, j, r, d) && a[j].lookahead@.contains(c); assert(alike(a[j], b[j])); assert(a[j].lookahead@ == b[j].lookahead@); assert(at(b, j, r, d)); } if hasla(b, r, d, c) { let j = choose|j: int| #[trigger] at(b, j, r, d) && b[j].lookahead@.contains(c); assert(alike(a[j], b[j])); assert(a[j].lookahead@ == b[j].lookahead@); assert(at(a, j, r, d)); } } }
proof fn joined_la(a: Seq<Item>, b: Seq<Item>, c: Seq<Item>) requires same_items(b, a), joined(a, b, c) ensures same_items(c, a), forall|r: int, d: int, y: int| #![trigger hasla(a, r, d, y)] #![trigger hasla(b, r, d, y)] #![trigger hasla(c, r, d, y)] hasla(c, r, d, y) == (hasla(a, r, d, y) || hasla(b, r, d, y))
{ assert forall|r: int, d: int, y: int| #![trigger hasla(a, r, d, y)] #![trigger hasla(b, r, d, y)] #![trigger hasla(c, r, d, y)] hasla(c, r, d, y) == (hasla(a, r, d, y) || hasla(b, r, d, y)) by {
    if hasla(c, r, d, y) { let j = choose|j: int| #[trigger] at(c, j, r, d) && c[j].lookahead@.contains(y); assert(alike(c[j], a[j])); assert(alike(b[j], a[j])); assert(at(a, j, r, d) && at(b, j, r, d)); }
    if hasla(a, r, d, y) { let j = choose|j: int| #[trigger] at(a, j, r, d) && a[j].lookahead@.contains(y); assert(alike(c[j], a[j])); assert(at(c, j, r, d)); }
    if hasla(b, r, d, y) { let j = choose|j: int| #[trigger] at(b, j, r, d) && b[j].lookahead@.contains(y); assert(alike(b[j], a[j])); assert(alike(c[j], a[j])); assert(at(c, j, r, d)); } } }
proof fn joined_ok(g: G, dm: Set<int>, a: Seq<Item>, b: Seq<Item>, c: Seq<Item>) requires same_items(b, a), joined(a, b, c), state_ok(g, dm, a), state_ok(g, dm, b) ensures state_ok(g, dm, c)
{ joined_la(a, b, c); same_has(c, a); same_has(b, a);
  assert forall|i: int, j: int| 0 <= i < j < c.len() implies less(#[trigger] c[i], #[trigger] c[j]) by { assert(less(a[i], a[j])); }
  assert forall|i: int| 0 <= i < c.len() implies #[trigger] it_ok(g, dm, c, i) by { assert(it_ok(g, dm, a, i) && it_ok(g, dm, b, i)); assert(alike(c[i], a[i])); let y = choose|y: int| #[trigger] a[i].lookahead@.contains(y); assert(c[i].lookahead@.contains(y)); }
  assert forall|r: int, r2: int, d2: int| has(c, r2, d2) && #[trigger] before(g, r, r2, d2) implies has(c, r, 0) by { assert(has(a, r2, d2)); assert(has(a, r, 0)); }
  assert forall|r: int, y: int, r2: int, d2: int, z: int| hasla(c, r2, d2, z) && #[trigger] before1(g, r, y, r2, d2, z) implies hasla(c, r, 0, y) by { if hasla(a, r2, d2, z) { assert(hasla(a, r, 0, y)); } else { assert(hasla(b, r2, d2, z)); assert(hasla(b, r, 0, y)); } } }
proof fn sorted_same(a: Seq<Item>, b: Seq<Item>, k: int) requires sorted(a), sorted(b), forall|r: int, d: int| #[trigger] has(a, r, d) == has(b, r, d), 0 <= k < a.len() ensures k < b.len(), alike(a[k], b[k]) decreases k
{ assert forall|i: int| 0 <= i < k implies i < b.len() && #[trigger] alike(a[i], b[i]) by { sorted_same(a, b, i); }
  let r = a[k].rule_index as int; let d = a[k].dot_pos as int; assert(at(a, k, r, d)); assert(has(a, r, d)); assert(has(b, r, d)); let j = choose|j: int| #[trigger] at(b, j, r, d);
  if j < k { assert(alike(a[j], b[j])); assert(less(a[j], a[k])); }
  if j > k { let r2 = b[k].rule_index as int; let d2 = b[k].dot_pos as int; assert(at(b, k, r2, d2)); assert(has(b, r2, d2)); assert(has(a, r2, d2)); let i = choose|i: int| #[trigger] at(a, i, r2, d2); assert(less(b[k], b[j])); if i < k { assert(alike(a[i], b[i])); assert(less(b[i], b[k])); } else if i > k { assert(less(a[k], a[i])); } } }
proof fn same_sets(a: Seq<Item>, b: Seq<Item>) requires sorted(a), sorted(b), forall|r: int, d: int| #[trigger] has(a, r, d) == has(b, r, d) ensures same_items(a, b)
{ assert forall|k: int| 0 <= k < a.len() implies k < b.len() && alike(#[trigger] a[k], b[k]) by { sorted_same(a, b, k); } assert forall|r: int, d: int| #[trigger] has(b, r, d) == has(a, r, d) by { assert(has(a, r, d) == has(b, r, d)); } if a.len() < b.len() { sorted_same(b, a, a.len() as int); } if a.len() > b.len() { sorted_same(a, b, b.len() as int); } }
proof fn cl_mono(g: G, n: nat, k: spec_fn(int, int) -> bool, k2: spec_fn(int, int) -> bool, r: int, d: int) requires cl(g, n, k, r, d), forall|r: int, d: int| #[trigger] k(r, d) ==> k2(r, d) ensures cl(g, n, k2, r, d) decreases n
{ if !k(r, d) { let (r2, d2) = choose|r2: int, d2: int| #[trigger] before(g, r, r2, d2) && cl(g, (n - 1) as nat, k, r2, d2); cl_mono(g, (n - 1) as nat, k, k2, r2, d2); } }
proof fn incl_mono(g: G, k: spec_fn(int, int) -> bool, k2: spec_fn(int, int) -> bool, r: int, d: int) requires incl(g, k, r, d), forall|r: int, d: int| #[trigger] k(r, d) ==> k2(r, d) ensures incl(g, k2, r, d) { let n = choose|n: nat| cl(g, n, k, r, d); cl_mono(g, n, k, k2, r, d); }
proof fn cl_in(g: G, n: nat, k: spec_fn(int, int) -> bool, s: Seq<Item>, r: int, d: int) requires closed0(g, s), cl(g, n, k, r, d), forall|r: int, d: int| #[trigger] k(r, d) ==> has(s, r, d) ensures has(s, r, d) decreases n
{ if !k(r, d) { let (r2, d2) = choose|r2: int, d2: int| #[trigger] before(g, r, r2, d2) && cl(g, (n - 1) as nat, k, r2, d2); cl_in(g, (n - 1) as nat, k, s, r2, d2); } }
proof fn eok_same(g: G, s: Seq<Item>, x: int, t: Seq<Item>, s2: Seq<Item>, t2: Seq<Item>) requires eok(g, s, x, t), same_items(s, s2), same_items(t, t2) ensures eok(g, s2, x, t2)
{ same_has(s, s2); same_has(t, t2); assert forall|r: int, d: int| #[trigger] has(t2, r, d) implies incl(g, kgo(g, s2, x), r, d) by { assert(has(t, r, d)); assert forall|r: int, d: int| #[trigger] kgo(g, s, x)(r, d) implies kgo(g, s2, x)(r, d) by { assert(has(s, r, d - 1)); } incl_mono(g, kgo(g, s, x), kgo(g, s2, x), r, d); }
  let (r, d) = choose|r: int, d: int| #[trigger] has(s, r, d) && ahead(g, r, d, x); assert(has(s2, r, d)); }
proof fn same_ref(a: Seq<Item>) ensures same_items(a, a) {}
proof fn same_sym(a: Seq<Item>, b: Seq<Item>) requires same_items(a, b) ensures same_items(b, a) { assert forall|k: int| 0 <= k < b.len() implies alike(#[trigger] b[k], a[k]) by { assert(alike(a[k], b[k])); } }
proof fn same_tr(a: Seq<Item>, b: Seq<Item>, c: Seq<Item>) requires same_items(a, b), same_items(b, c) ensures same_items(a, c) { assert forall|k: int| 0 <= k < a.len() implies alike(#[trigger] a[k], c[k]) by { assert(alike(b[k], c[k])); } }
proof fn one_target(g: G, dm: Set<int>, ss: Seq<State>, p: int, x: int, q: int, t: int) requires inv(g, dm, ss), edge(ss, p, x, q), edge(ss, p, x, t) ensures q == t
{ assert(eqs(g, ss, p, x, q) && eqs(g, ss, p, x, t)); let k = kgo(g, its(ss, p), x); assert(q_ok(g, dm, ss, q) && q_ok(g, dm, ss, t));
  assert forall|r: int, d: int| #[trigger] has(its(ss, q), r, d) == has(its(ss, t), r, d) by {
    if has(its(ss, q), r, d) { let n = choose|n: nat| cl(g, n, k, r, d); cl_in(g, n, k, its(ss, t), r, d); }
    if has(its(ss, t), r, d) { let n = choose|n: nat| cl(g, n, k, r, d); cl_in(g, n, k, its(ss, q), r, d); } }
  same_sets(its(ss, q), its(ss, t)); same_sym(its(ss, q), its(ss, t)); }
proof fn path_mono(a: Seq<State>, c: Seq<State>, w: Seq<int>, q: int) requires path(a, w, q), a.len() <= c.len(), forall|p: int, x: int, t: int| #[trigger] edge(a, p, x, t) ==> edge(c, p, x, t) ensures path(c, w, q) decreases w.len()
{ if w.len() > 0 { let p = choose|p: int| #[trigger] edge(a, p, w.last(), q) && path(a, w.drop_last(), p); path_mono(a, c, w.drop_last(), p); assert(edge(c, p, w.last(), q)); } }
proof fn lasnd_mono(g: G, a: Seq<State>, c: Seq<State>, q: int, r: int, d: int, y: int) requires lasnd(g, a, q, r, d, y), a.len() <= c.len(), forall|p: int, x: int, t: int| #[trigger] edge(a, p, x, t) ==> edge(c, p, x, t) ensures lasnd(g, c, q, r, d, y) { let w = choose|w: Seq<int>| path(a, w, q) && #[trigger] valid1(g, w, r, d, y); path_mono(a, c, w, q); }
proof fn cla_snd(g: G, ss: Seq<State>, t: int, k: spec_fn(int, int, int) -> bool, n: nat, r: int, d: int, a: int) requires cla(g, n, k, r, d, a), forall|r: int, d: int, a: int| #[trigger] k(r, d, a) && pos_ok(g, r, d) ==> lasnd(g, ss, t, r, d, a) ensures lasnd(g, ss, t, r, d, a) decreases n
{ if !k(r, d, a) { let (r2, d2, b) = choose|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && cla(g, (n - 1) as nat, k, r2, d2, b); cla_snd(g, ss, t, k, (n - 1) as nat, r2, d2, b); let w = choose|w: Seq<int>| path(ss, w, t) && #[trigger] valid1(g, w, r2, d2, b); let m = choose|m: nat| v1(g, m, w, r2, d2, b); assert(v1(g, m + 1, w, r, d, a)); assert(valid1(g, w, r, d, a)); } }
proof fn step_snd(g: G, ss: Seq<State>, p: int, x: int, t: int, r: int, d: int, a: int) requires edge(ss, p, x, t), lasnd(g, ss, p, r, d - 1, a), ahead(g, r, d - 1, x) ensures lasnd(g, ss, t, r, d, a)
{ let d1 = d - 1; let v = choose|w: Seq<int>| path(ss, w, p) && #[trigger] valid1(g, w, r, d1, a); let w = v.push(x); assert(w.drop_last() =~= v); assert(w.last() == x); let m = choose|m: nat| v1(g, m, v, r, d1, a); assert(v1(g, m + 1, w, r, d, a)); assert(path(ss, w, t)); assert(valid1(g, w, r, d, a)); }
// the kernel reached from the items s over x
pub open spec fn reached(g: G, s: Seq<Item>, x: int, k: Seq<Item>) -> bool { k.len() > 0 && (forall|r: int, d: int| #[trigger] has(k, r, d) == kgo(g, s, x)(r, d)) && forall|r: int, d: int, a: int| #[trigger] hasla(k, r, d, a) == kgola(g, s, x)(r, d, a) }
pub open spec fn covers(a: Seq<Item>, s: Seq<Item>) -> bool { same_items(a, s) && forall|r: int, d: int, y: int| #[trigger] hasla(s, r, d, y) ==> hasla(a, r, d, y) }
// a state's items may have gained lookaheads only
pub open spec fn larger(a: Seq<State>, c: Seq<State>) -> bool { a.len() <= c.len() && (forall|q: int| 0 <= q < a.len() ==> covers(its(c, q), #[trigger] its(a, q))) && forall|p: int, x: int, t: int| #[trigger] edge(a, p, x, t) ==> edge(c, p, x, t) }
proof fn grown_larger(g: G, dm: Set<int>, a: Seq<State>, c: Seq<State>, p: int, x: int, t: int, s: State) requires inv(g, dm, a), 0 <= p < a.len(), merged(a, c, p, x, t, s.items@) || fresh(a, c, p, x, t, s) ensures larger(a, c), edge(c, p, x, t), forall|q: int| 0 <= q < a.len() && q != t ==> its(c, q) == #[trigger] its(a, q), t < a.len() ==> joined(its(a, t), s.items@, its(c, t)) && same_items(s.items@, its(a, t)), t == a.len() ==> its(c, t) == s.items@ && forall|q: int| 0 <= q < a.len() ==> !same_items(s.items@, #[trigger] its(a, q))
{ assert forall|q: int| 0 <= q < a.len() implies covers(its(c, q), #[trigger] its(a, q)) by { if q == t { joined_la(its(a, t), s.items@, its(c, t)); } else { assert(c[q].items == a[q].items); same_ref(its(a, q)); } }
  assert forall|q: int| 0 <= q < a.len() && q != t implies its(c, q) == #[trigger] its(a, q) by { assert(c[q].items == a[q].items); }
  assert forall|p1: int, x1: int, t1: int| #[trigger] edge(a, p1, x1, t1) implies edge(c, p1, x1, t1) by { if p1 != p { assert(c[p1].edge@ == a[p1].edge@); } } }
proof fn grown_edges(a: Seq<State>, c: Seq<State>, p: int, x: int, t: int, s: State, p1: int, x1: int, t1: int) requires 0 <= p < a.len(), (merged(a, c, p, x, t, s.items@) || fresh(a, c, p, x, t, s)), s.edge@ == Set::<(int, int)>::empty(), edge(c, p1, x1, t1), forall|q: int, y: int, z: int| 0 <= q < a.len() && #[trigger] a[q].edge@.contains((y, z)) ==> 0 <= z < a.len() ensures edge(a, p1, x1, t1) || (p1 == p && x1 == x && t1 == t)
{ if p1 < a.len() { if p1 != p { assert(c[p1].edge@ == a[p1].edge@); assert(a[p1].edge@.contains((x1, t1))); } else { assert(c[p].edge@ == a[p].edge@.insert((x, t))); if !(x1 == x && t1 == t) { assert(a[p].edge@.contains((x1, t1))); } } } else { assert(c[t] == s); } }
// one more state reached: what held still holds
proof fn grow_step(g: G, dm: Set<int>, a: Seq<State>, c: Seq<State>, i: int, s0: Seq<Item>, x: int, k: Seq<Item>, t: int, s: State) requires inv(g, dm, a), 0 <= i < a.len(), merged(a, c, i, x, t, s.items@) || fresh(a, c, i, x, t, s), s.edge@ == Set::<(int, int)>::empty(), covers(its(a, i), s0), reached(g, s0, x, k), closure_of(g, dm, k, s.items@) ensures inv(g, dm, c), larger(a, c), flowed(g, c, i, s0, x), forall|p: int, y: int, z: int| p != i && #[trigger] edge(c, p, y, z) ==> edge(a, p, y, z)
{ grown_larger(g, dm, a, c, i, x, t, s); let b = s.items@;
  assert forall|q: int, y: int, z: int| 0 <= q < a.len() && #[trigger] a[q].edge@.contains((y, z)) implies 0 <= z < a.len() by { assert(q_ok(g, dm, a, q)); }
  assert forall|p: int, y: int, z: int| p != i && #[trigger] edge(c, p, y, z) implies edge(a, p, y, z) by { grown_edges(a, c, i, x, t, s, p, y, z); }
  let tt = its(c, t); if t < a.len() { assert(q_ok(g, dm, a, t)); joined_la(its(a, t), b, tt); same_sym(b, its(a, t)); same_tr(tt, its(a, t), b); joined_ok(g, dm, its(a, t), b, tt); } else { same_ref(b); }
  assert(same_items(tt, b)); same_sym(tt, b); same_has(tt, b); same_has(its(a, i), s0); assert(covers(its(c, i), its(a, i))); same_tr(its(c, i), its(a, i), s0); same_sym(its(c, i), s0); same_has(its(c, i), s0);
  // the new edge
  assert forall|r: int, d: int| #[trigger] ahead(g, r, d, x) && has(s0, r, d) implies has(b, r, d + 1) by { assert(kgo(g, s0, x)(r, d + 1)); assert(has(k, r, d + 1)); }
  assert forall|r: int, d: int| #[trigger] has(b, r, d) implies incl(g, kgo(g, s0, x), r, d) by { assert forall|r: int, d: int| #[trigger] kin(k)(r, d) implies kgo(g, s0, x)(r, d) by { assert(has(k, r, d)); } incl_mono(g, kin(k), kgo(g, s0, x), r, d); }
  assert(goes(g, s0, x)) by { let r = k[0].rule_index as int; let d = k[0].dot_pos as int; assert(at(k, 0, r, d)); assert(has(k, r, d)); assert(kgo(g, s0, x)(r, d)); assert(has(s0, r, d - 1)); }
  eok_same(g, s0, x, b, its(c, i), tt); assert(eqs(g, c, i, x, t));
  assert forall|p: int, y: int, q: int| #[trigger] edge(c, p, y, q) implies eqs(g, c, p, y, q) by { grown_edges(a, c, i, x, t, s, p, y, q); if edge(a, p, y, q) { assert(eqs(g, a, p, y, q)); assert(covers(its(c, p), its(a, p)) && covers(its(c, q), its(a, q))); same_sym(its(c, p), its(a, p)); same_sym(its(c, q), its(a, q)); eok_same(g, its(a, p), y, its(a, q), its(c, p), its(c, q)); } }
  // lookaheads
  assert forall|r: int, d: int, y: int| ahead(g, r, d, x) && #[trigger] hasla(s0, r, d, y) implies hasla(b, r, d + 1, y) by { assert(kgola(g, s0, x)(r, d + 1, y)); assert(hasla(k, r, d + 1, y)); }
  assert(gola(g, s0, x, tt)) by { assert forall|r: int, d: int, y: int| ahead(g, r, d, x) && #[trigger] hasla(s0, r, d, y) implies hasla(tt, r, d + 1, y) by { assert(hasla(b, r, d + 1, y)); } }
  assert forall|r: int, d: int, y: int| #[trigger] hasla(b, r, d, y) implies lasnd(g, c, t, r, d, y) by { let kk = kla(k); assert forall|r: int, d: int, y: int| #[trigger] kk(r, d, y) && pos_ok(g, r, d) implies lasnd(g, c, t, r, d, y) by { assert(hasla(k, r, d, y)); assert(kgola(g, s0, x)(r, d, y)); assert(hasla(s0, r, d - 1, y)); assert(hasla(its(a, i), r, d - 1, y)); assert(q_ok(g, dm, a, i)); lasnd_mono(g, a, c, i, r, d - 1, y); step_snd(g, c, i, x, t, r, d, y); }
    let n = choose|n: nat| cla(g, n, kk, r, d, y); cla_snd(g, c, t, kk, n, r, d, y); }
  assert forall|q: int| 0 <= q < c.len() implies #[trigger] q_ok(g, dm, c, q) by {
    assert forall|r: int, d: int, y: int| #[trigger] hasla(its(c, q), r, d, y) implies lasnd(g, c, q, r, d, y) by { if q == t && hasla(b, r, d, y) {} else { assert(q_ok(g, dm, a, q)); assert(hasla(its(a, q), r, d, y)); lasnd_mono(g, a, c, q, r, d, y); } }
    if q < a.len() { assert(q_ok(g, dm, a, q)); assert forall|y: int, z: int| #[trigger] c[q].edge@.contains((y, z)) implies 0 <= z < c.len() by { if q != i { assert(c[q].edge@ == a[q].edge@); assert(a[q].edge@.contains((y, z))); } else if !(y == x && z == t) { assert(a[q].edge@.contains((y, z))); } } if q != t { assert(its(c, q) == its(a, q)); } } else { assert(c[q] == s); } }
  assert forall|p: int, q: int| 0 <= p < q < c.len() implies !same_items(#[trigger] its(c, p), #[trigger] its(c, q)) by { if same_items(its(c, p), its(c, q)) { assert(covers(its(c, p), its(a, p))); same_sym(its(c, p), its(a, p)); if q < a.len() { assert(covers(its(c, q), its(a, q))); same_tr(its(a, p), its(c, p), its(c, q)); same_tr(its(a, p), its(c, q), its(a, q)); } else { same_sym(its(c, p), its(c, q)); same_tr(its(c, q), its(c, p), its(a, p)); } } }
  let z0 = its(c, 0); assert(covers(z0, its(a, 0))); same_has(z0, its(a, 0)); assert(st_ok(g, z0)) by { assert forall|r: int, d: int| #[trigger] has(z0, r, d) implies incl(g, kst(g), r, d) by { assert(has(its(a, 0), r, d)); } } }
// what was done stays done
proof fn flowed_mono(g: G, a: Seq<State>, c: Seq<State>, p: int, s: Seq<Item>, x: int) requires flowed(g, a, p, s, x), larger(a, c) ensures flowed(g, c, p, s, x)
{ let t = choose|t: int| #[trigger] edge(a, p, x, t) && gola(g, s, x, its(a, t)); assert(edge(c, p, x, t)); assert(covers(its(c, t), its(a, t))); assert forall|r: int, d: int, y: int| ahead(g, r, d, x) && #[trigger] hasla(s, r, d, y) implies hasla(its(c, t), r, d + 1, y) by { assert(hasla(its(a, t), r, d + 1, y)); } }
proof fn flowed_la(g: G, a: Seq<State>, p: int, s: Seq<Item>, s2: Seq<Item>, x: int) requires flowed(g, a, p, s, x), same_la(s, s2) ensures flowed(g, a, p, s2, x)
{ same_hasla(s, s2); let t = choose|t: int| #[trigger] edge(a, p, x, t) && gola(g, s, x, its(a, t)); assert forall|r: int, d: int, y: int| ahead(g, r, d, x) && #[trigger] hasla(s2, r, d, y) implies hasla(its(a, t), r, d + 1, y) by { assert(hasla(s, r, d, y)); } }
proof fn flow_mono(g: G, a: Seq<State>, c: Seq<State>, p: int) requires 0 <= p < a.len(), flow(g, a, p), larger(a, c), same_la(its(a, p), its(c, p)) ensures flow(g, c, p)
{ same_has(its(a, p), its(c, p)); assert forall|x: int| #[trigger] goes(g, its(c, p), x) implies flowed(g, c, p, its(c, p), x) by { let (r, d) = choose|r: int, d: int| #[trigger] has(its(c, p), r, d) && ahead(g, r, d, x); assert(has(its(a, p), r, d)); assert(goes(g, its(a, p), x)); flowed_mono(g, a, c, p, its(a, p), x); flowed_la(g, c, p, its(a, p), its(c, p), x); } }
// the first state
proof fn first_state(g: G, dm: Set<int>, ss: Seq<State>, k: Seq<Item>) requires wf(g), ss.len() == 1, ss[0].edge@ == Set::<(int, int)>::empty(), k.len() == 1, k[0].rule_index == nr(g) - 1, k[0].dot_pos == 0, k[0].lookahead@ == set![g.end], closure_of(g, dm, k, its(ss, 0)) ensures inv(g, dm, ss)
{ let s = its(ss, 0); let r0 = nr(g) - 1; assert(at(k, 0, r0, 0)); assert(has(k, r0, 0)); assert(hasla(k, r0, 0, g.end));
  assert forall|r: int, d: int| #[trigger] has(s, r, d) implies incl(g, kst(g), r, d) by { assert forall|r: int, d: int| #[trigger] kin(k)(r, d) implies kst(g)(r, d) by { assert(has(k, r, d)); } incl_mono(g, kin(k), kst(g), r, d); }
  assert forall|r: int, d: int, y: int| #[trigger] hasla(s, r, d, y) implies lasnd(g, ss, 0, r, d, y) by { let kk = kla(k); assert forall|r: int, d: int, y: int| #[trigger] kk(r, d, y) && pos_ok(g, r, d) implies lasnd(g, ss, 0, r, d, y) by { assert(hasla(k, r, d, y)); let w = Seq::<int>::empty(); assert(v1(g, 1, w, r, d, y)); assert(valid1(g, w, r, d, y)); assert(path(ss, w, 0)); } let n = choose|n: nat| cla(g, n, kk, r, d, y); cla_snd(g, ss, 0, kk, n, r, d, y); }
  assert(q_ok(g, dm, ss, 0)); }
"""
EXACT = r"""
pub open spec fn fin(g: G, dm: Set<int>, ss: Seq<State>) -> bool { inv(g, dm, ss) && forall|p: int| 0 <= p < ss.len() ==> #[trigger] flow(g, ss, p) }
proof fn cl_valid(g: G, w: Seq<int>, k: spec_fn(int, int) -> bool, n: nat, r: int, d: int) requires cl(g, n, k, r, d), forall|r: int, d: int| #[trigger] k(r, d) && pos_ok(g, r, d) ==> valid0(g, w, r, d) ensures valid0(g, w, r, d) decreases n
{ if !k(r, d) { let (r2, d2) = choose|r2: int, d2: int| #[trigger] before(g, r, r2, d2) && cl(g, (n - 1) as nat, k, r2, d2); cl_valid(g, w, k, (n - 1) as nat, r2, d2); let m = choose|m: nat| v0(g, m, w, r2, d2); assert(v0(g, m + 1, w, r, d)); } }
// the items of a state are those valid for every string that leads to it
proof fn items_valid(g: G, dm: Set<int>, ss: Seq<State>, w: Seq<int>, q: int, r: int, d: int) requires inv(g, dm, ss), path(ss, w, q), has(its(ss, q), r, d) ensures valid0(g, w, r, d) decreases w.len()
{ if w.len() == 0 { let k = kst(g); assert forall|r: int, d: int| #[trigger] k(r, d) && pos_ok(g, r, d) implies valid0(g, w, r, d) by { assert(v0(g, 1, w, r, d)); } let n = choose|n: nat| cl(g, n, k, r, d); cl_valid(g, w, k, n, r, d); }
  else { let x = w.last(); let v = w.drop_last(); let p = choose|p: int| #[trigger] edge(ss, p, w.last(), q) && path(ss, w.drop_last(), p); assert(eqs(g, ss, p, x, q)); let k = kgo(g, its(ss, p), x);
    assert forall|r: int, d: int| #[trigger] k(r, d) && pos_ok(g, r, d) implies valid0(g, w, r, d) by { items_valid(g, dm, ss, v, p, r, d - 1); let d1 = d - 1; let m = choose|m: nat| v0(g, m, v, r, d1); assert(v0(g, m + 1, w, r, d)); }
    let n = choose|n: nat| cl(g, n, k, r, d); cl_valid(g, w, k, n, r, d); } }
proof fn items_all(g: G, dm: Set<int>, ss: Seq<State>, n: nat, w: Seq<int>, q: int, r: int, d: int) requires inv(g, dm, ss), path(ss, w, q), v0(g, n, w, r, d) ensures has(its(ss, q), r, d) decreases n
{ if w.len() == 0 && r == nr(g) - 1 && d == 0 {}
  else if d > 0 { let p = choose|p: int| #[trigger] edge(ss, p, w.last(), q) && path(ss, w.drop_last(), p); items_all(g, dm, ss, (n - 1) as nat, w.drop_last(), p, r, d - 1); assert(eqs(g, ss, p, w.last(), q)); assert(ahead(g, r, d - 1, w.last())); }
  else { let (r2, d2) = choose|r2: int, d2: int| #[trigger] before(g, r, r2, d2) && v0(g, (n - 1) as nat, w, r2, d2); items_all(g, dm, ss, (n - 1) as nat, w, q, r2, d2); assert(q_ok(g, dm, ss, q)); } }
proof fn exact(g: G, dm: Set<int>, ss: Seq<State>, w: Seq<int>, q: int, r: int, d: int) requires inv(g, dm, ss), path(ss, w, q) ensures valid0(g, w, r, d) == has(its(ss, q), r, d)
{ if valid0(g, w, r, d) { let n = choose|n: nat| v0(g, n, w, r, d); items_all(g, dm, ss, n, w, q, r, d); } if has(its(ss, q), r, d) { items_valid(g, dm, ss, w, q, r, d); } }
proof fn path_exists(g: G, dm: Set<int>, ss: Seq<State>, n: nat, w: Seq<int>, r: int, d: int) -> (q: int) requires fin(g, dm, ss), v0(g, n, w, r, d) ensures path(ss, w, q) decreases n
{ if w.len() == 0 && r == nr(g) - 1 && d == 0 { 0 }
  else if d > 0 { let p = path_exists(g, dm, ss, (n - 1) as nat, w.drop_last(), r, d - 1); let x = w.last(); let s = its(ss, p); items_all(g, dm, ss, (n - 1) as nat, w.drop_last(), p, r, d - 1); assert(has(s, r, d - 1) && ahead(g, r, d - 1, x)); assert(goes(g, s, x)); assert(flow(g, ss, p)); assert(flowed(g, ss, p, s, x)); let q = choose|t: int| #[trigger] edge(ss, p, x, t) && gola(g, s, x, its(ss, t)); q }
  else { let (r2, d2) = choose|r2: int, d2: int| #[trigger] before(g, r, r2, d2) && v0(g, (n - 1) as nat, w, r2, d2); path_exists(g, dm, ss, (n - 1) as nat, w, r2, d2) } }
proof fn same_state(g: G, dm: Set<int>, ss: Seq<State>, w: Seq<int>, p: int, v: Seq<int>, q: int) requires inv(g, dm, ss), path(ss, w, p), path(ss, v, q) ensures p == q <==> same(g, w, v)
{ if p == q { assert forall|r: int, d: int| valid0(g, w, r, d) == #[trigger] valid0(g, v, r, d) by { exact(g, dm, ss, w, p, r, d); exact(g, dm, ss, v, q, r, d); } }
  if same(g, w, v) && p != q { assert forall|r: int, d: int| #[trigger] has(its(ss, p), r, d) == has(its(ss, q), r, d) by { exact(g, dm, ss, w, p, r, d); exact(g, dm, ss, v, q, r, d); assert(valid0(g, w, r, d) == valid0(g, v, r, d)); } assert(q_ok(g, dm, ss, p) && q_ok(g, dm, ss, q)); same_sets(its(ss, p), its(ss, q)); same_sym(its(ss, p), its(ss, q)); } }
proof fn v1_v0(g: G, n: nat, w: Seq<int>, r: int, d: int, a: int) requires v1(g, n, w, r, d, a) ensures v0(g, n, w, r, d) decreases n
{ if w.len() == 0 && r == nr(g) - 1 && d == 0 && a == g.end {} else if d > 0 { v1_v0(g, (n - 1) as nat, w.drop_last(), r, d - 1, a); } else { let (r2, d2, b) = choose|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && v1(g, (n - 1) as nat, w, r2, d2, b); v1_v0(g, (n - 1) as nat, w, r2, d2, b); assert(before(g, r, r2, d2)); } }
proof fn valid_la(g: G, dm: Set<int>, ss: Seq<State>, n: nat, w: Seq<int>, q: int, r: int, d: int, a: int) requires fin(g, dm, ss), path(ss, w, q), v1(g, n, w, r, d, a) ensures hasla(its(ss, q), r, d, a) decreases n
{ if w.len() == 0 && r == nr(g) - 1 && d == 0 && a == g.end {}
  else if d > 0 { let x = w.last(); let p = choose|p: int| #[trigger] edge(ss, p, w.last(), q) && path(ss, w.drop_last(), p); let s = its(ss, p); valid_la(g, dm, ss, (n - 1) as nat, w.drop_last(), p, r, d - 1, a); assert(ahead(g, r, d - 1, x)); let j = choose|j: int| #[trigger] at(s, j, r, d - 1) && s[j].lookahead@.contains(a); assert(has(s, r, d - 1)); assert(goes(g, s, x)); assert(flow(g, ss, p)); assert(flowed(g, ss, p, s, x)); let t = choose|t: int| #[trigger] edge(ss, p, x, t) && gola(g, s, x, its(ss, t)); one_target(g, dm, ss, p, x, q, t); }
  else { let (r2, d2, b) = choose|r2: int, d2: int, b: int| #[trigger] before1(g, r, a, r2, d2, b) && v1(g, (n - 1) as nat, w, r2, d2, b); valid_la(g, dm, ss, (n - 1) as nat, w, q, r2, d2, b); assert(q_ok(g, dm, ss, q)); } }
proof fn look_exact(g: G, dm: Set<int>, ss: Seq<State>, w: Seq<int>, q: int, r: int, d: int, a: int) requires fin(g, dm, ss), path(ss, w, q) ensures lookahead(g, w, r, d, a) == hasla(its(ss, q), r, d, a)
{ if lookahead(g, w, r, d, a) { let v = choose|v: Seq<int>| same(g, w, v) && #[trigger] valid1(g, v, r, d, a); let n = choose|n: nat| v1(g, n, v, r, d, a); v1_v0(g, n, v, r, d, a); let p = path_exists(g, dm, ss, n, v, r, d); same_state(g, dm, ss, w, q, v, p); valid_la(g, dm, ss, n, v, p, r, d, a); }
  if hasla(its(ss, q), r, d, a) { assert(q_ok(g, dm, ss, q)); let v = choose|v: Seq<int>| path(ss, v, q) && #[trigger] valid1(g, v, r, d, a); same_state(g, dm, ss, w, q, v, q); } }
"""
TABLES = r"""
// yacc: shift or reduce; what the tables have to say
pub enum Want { Err, Shift, Accept, Reduce(int) }
pub open spec fn red(g: G, r: int) -> Want { if r == nr(g) - 1 { Want::Accept } else { Want::Reduce(r) } }
pub open spec fn resolve(l: Lalr, r: int, a: int) -> Want { match (l.rules@[r].reduce_priority, l.assoc@[a]) { (Some(p), Some(q)) => if p.priority < q.priority { Want::Shift } else if p.priority > q.priority { red(gram(l), r) } else { match q.directive { AssocDirective::Left => red(gram(l), r), AssocDirective::Right => Want::Shift, AssocDirective::NonAssoc => Want::Err } }, _ => Want::Shift } }
pub open spec fn prescribed(l: Lalr, w: Seq<int>, a: int, m: Want) -> bool { let g = gram(l);
  if exists|r: int| #[trigger] can_reduce(g, w, r, a) { exists|r: int| #[trigger] can_reduce(g, w, r, a) && (forall|k: int| k < r ==> !#[trigger] can_reduce(g, w, k, a)) && m == if can_go(g, w, a) { resolve(l, r, a) } else { red(g, r) } }
  else { m == if can_go(g, w, a) { Want::Shift } else { Want::Err } } }
pub open spec fn act(t: Map<(int, int), Action>, s: int, a: int) -> Option<Action> { if t.contains_key((s, a)) { Some(t[(s, a)]) } else { None } }
pub open spec fn means(o: Option<Action>) -> Want { match o { None => Want::Err, Some(Action::Error) => Want::Err, Some(Action::Shift(_)) => Want::Shift, Some(Action::Accept) => Want::Accept, Some(Action::Reduce(r)) => Want::Reduce(r as int) } }
pub open spec fn run(l: Lalr, w: Seq<int>) -> Option<int> decreases w.len() { if w.len() == 0 { Some(0int) } else { match run(l, w.drop_last()) { None => None, Some(s) => match act(l.action_table@, s, w.last()) { Some(Action::Shift(t)) => Some(t as int), _ => if l.goto_table@.contains_key((s, w.last())) { Some(l.goto_table@[(s, w.last())] as int) } else { None } } } } }
pub open spec fn terminal(l: Lalr, a: int) -> bool { exists|k: int| 0 <= k < l.all_terminal@.len() && (#[trigger] l.all_terminal@[k]).0 == a }
pub open spec fn right_state(l: Lalr, w: Seq<int>, s: int) -> bool { (forall|a: int| #[trigger] terminal(l, a) ==> prescribed(l, w, a, means(act(l.action_table@, s, a)))) && forall|n: int| 0 <= n < gram(l).comps.len() && !term(gram(l), n) ==> #[trigger] l.goto_table@.contains_key((s, n)) == can_go(gram(l), w, n) }
// the theorem: wherever the tables lead, they have what LALR(1) with yacc's conflict rules prescribes
pub open spec fn lalr_tables(l: Lalr) -> bool { forall|w: Seq<int>| (#[trigger] run(l, w)) is Some ==> right_state(l, w, run(l, w)->Some_0) }
// the tables against the states
pub open spec fn redat(g: G, s: Seq<Item>, r: int, a: int) -> bool { rl(g, r) && hasla(s, r, ln(g, r), a) }
pub open spec fn least(g: G, s: Seq<Item>, r: int, a: int) -> bool { redat(g, s, r, a) && forall|k: int| #[trigger] redat(g, s, k, a) ==> r <= k }
pub open spec fn has_edge(ss: Seq<State>, i: int, x: int) -> bool { exists|t: int| #[trigger] edge(ss, i, x, t) }
pub open spec fn wants(l: Lalr, ss: Seq<State>, i: int, a: int, m: Want) -> bool { let g = gram(l); let s = its(ss, i); let e = has_edge(ss, i, a);
  (exists|r: int| #[trigger] least(g, s, r, a) && m == if e { resolve(l, r, a) } else { red(g, r) }) || ((forall|r: int| !#[trigger] redat(g, s, r, a)) && m == if e { Want::Shift } else { Want::Err }) }
pub open spec fn cell(l: Lalr, ss: Seq<State>, t: Map<(int, int), Action>, i: int, a: int) -> bool { wants(l, ss, i, a, means(act(t, i, a))) }
pub open spec fn row(l: Lalr, ss: Seq<State>, t: Map<(int, int), Action>, u: Map<(int, int), usize>, i: int) -> bool { (forall|a: int| #[trigger] terminal(l, a) ==> cell(l, ss, t, i, a)) && forall|n: int| 0 <= n < gram(l).comps.len() && !term(gram(l), n) ==> #[trigger] u.contains_key((i, n)) == has_edge(ss, i, n) }
pub open spec fn shifts(ss: Seq<State>, t: Map<(int, int), Action>, u: Map<(int, int), usize>) -> bool { (forall|i: int, x: int| #[trigger] t.contains_key((i, x)) ==> match t[(i, x)] { Action::Shift(q) => edge(ss, i, x, q as int), _ => true }) && forall|i: int, x: int| #[trigger] u.contains_key((i, x)) ==> edge(ss, i, x, u[(i, x)] as int) }
pub open spec fn filled(l: Lalr, dm: Set<int>) -> bool { let ss = l.state_set.states@; fin(gram(l), dm, ss) && shifts(ss, l.action_table@, l.goto_table@) && forall|i: int| 0 <= i < ss.len() ==> #[trigger] row(l, ss, l.action_table@, l.goto_table@, i) }
proof fn run_path(l: Lalr, dm: Set<int>, w: Seq<int>) requires filled(l, dm), run(l, w) is Some ensures path(l.state_set.states@, w, run(l, w)->Some_0) decreases w.len()
{ if w.len() > 0 { run_path(l, dm, w.drop_last()); let s = run(l, w.drop_last())->Some_0; let x = w.last(); let ss = l.state_set.states@; if let Some(Action::Shift(t)) = act(l.action_table@, s, x) { assert(edge(ss, s, x, t as int)); } else { assert(l.goto_table@.contains_key((s, x))); assert(edge(ss, s, x, l.goto_table@[(s, x)] as int)); } } }
proof fn go_exact(g: G, dm: Set<int>, ss: Seq<State>, w: Seq<int>, q: int, x: int) requires fin(g, dm, ss), path(ss, w, q) ensures can_go(g, w, x) == has_edge(ss, q, x)
{ let s = its(ss, q);
  if can_go(g, w, x) { let (r, d) = choose|r: int, d: int| #[trigger] valid0(g, w, r, d) && d < ln(g, r) && sy(g, r, d) == x; exact(g, dm, ss, w, q, r, d); let n = choose|n: nat| v0(g, n, w, r, d); assert(pos_ok(g, r, d)); assert(ahead(g, r, d, x)); assert(goes(g, s, x)); assert(flow(g, ss, q)); assert(flowed(g, ss, q, s, x)); }
  if has_edge(ss, q, x) { let t = choose|t: int| #[trigger] edge(ss, q, x, t); assert(eqs(g, ss, q, x, t)); let (r, d) = choose|r: int, d: int| #[trigger] has(s, r, d) && ahead(g, r, d, x); exact(g, dm, ss, w, q, r, d); assert(valid0(g, w, r, d)); } }
proof fn red_exact(g: G, dm: Set<int>, ss: Seq<State>, w: Seq<int>, q: int, r: int, a: int) requires fin(g, dm, ss), path(ss, w, q) ensures can_reduce(g, w, r, a) == redat(g, its(ss, q), r, a)
{ let s = its(ss, q); if rl(g, r) { let d = ln(g, r); exact(g, dm, ss, w, q, r, d); look_exact(g, dm, ss, w, q, r, d, a); if redat(g, s, r, a) { let j = choose|j: int| #[trigger] at(s, j, r, d) && s[j].lookahead@.contains(a); assert(has(s, r, d)); } } }
proof fn theorem(l: Lalr, dm: Set<int>) requires filled(l, dm) ensures lalr_tables(l)
{ let g = gram(l); let ss = l.state_set.states@;
  assert forall|w: Seq<int>| (#[trigger] run(l, w)) is Some implies right_state(l, w, run(l, w)->Some_0) by {
    run_path(l, dm, w); let q = run(l, w)->Some_0; let s = its(ss, q); assert(row(l, ss, l.action_table@, l.goto_table@, q));
    assert forall|a: int| #[trigger] terminal(l, a) implies prescribed(l, w, a, means(act(l.action_table@, q, a))) by {
      assert(cell(l, ss, l.action_table@, q, a)); go_exact(g, dm, ss, w, q, a); assert forall|r: int| #[trigger] can_reduce(g, w, r, a) == redat(g, s, r, a) by { red_exact(g, dm, ss, w, q, r, a); }
      if exists|r: int| #[trigger] least(g, s, r, a) { let m = means(act(l.action_table@, q, a)); assert(!(forall|r: int| !#[trigger] redat(g, s, r, a))); let r = choose|r: int| #[trigger] least(g, s, r, a) && m == if has_edge(ss, q, a) { resolve(l, r, a) } else { red(g, r) }; assert(can_reduce(g, w, r, a)); assert forall|k: int| k < r implies !#[trigger] can_reduce(g, w, k, a) by { if redat(g, s, k, a) { assert(r <= k); } } }
      else { assert forall|r: int| !#[trigger] can_reduce(g, w, r, a) by { assert(!redat(g, s, r, a)); } } }
    assert forall|n: int| 0 <= n < g.comps.len() && !term(g, n) implies #[trigger] l.goto_table@.contains_key((q, n)) == can_go(g, w, n) by { go_exact(g, dm, ss, w, q, n); } } }
"""
GROUP = r"""
// items grouped by the symbol after the dot
pub open spec fn adv(g: G, a: Item, x: int, b: Item) -> bool { ahead(g, a.rule_index as int, a.dot_pos as int, x) && b.rule_index == a.rule_index && b.dot_pos == a.dot_pos + 1 && b.lookahead@ == a.lookahead@ }
pub open spec fn from(g: G, s: Seq<Item>, j: int, x: int, it: Item) -> bool { exists|i: int| 0 <= i < j && adv(g, #[trigger] s[i], x, it) }
pub open spec fn grp1(g: G, dm: Set<int>, s: Seq<Item>, j: int, x: int, v: Seq<Item>) -> bool { v.len() > 0 && kernel(g, dm, v) && forall|k: int| 0 <= k < v.len() ==> from(g, s, j, x, #[trigger] v[k]) }
pub open spec fn in_grp(g: G, s: Seq<Item>, m: Map<int, Seq<Item>>, i: int) -> bool { let x = sy(g, s[i].rule_index as int, s[i].dot_pos as int); s[i].dot_pos < ln(g, s[i].rule_index as int) ==> m.contains_key(x) && exists|k: int| 0 <= k < m[x].len() && adv(g, s[i], x, #[trigger] m[x][k]) }
pub open spec fn grouped(g: G, dm: Set<int>, s: Seq<Item>, j: int, m: Map<int, Seq<Item>>) -> bool { (forall|x: int| #[trigger] m.contains_key(x) ==> grp1(g, dm, s, j, x, m[x])) && forall|i: int| 0 <= i < j ==> #[trigger] in_grp(g, s, m, i) }
pub open spec fn with(m: Map<int, Seq<Item>>, x: int, it: Item) -> Map<int, Seq<Item>> { m.insert(x, (if m.contains_key(x) { m[x] } else { Seq::<Item>::empty() }).push(it)) }
proof fn from_more(g: G, s: Seq<Item>, j: int, x: int, it: Item) requires from(g, s, j, x, it) ensures from(g, s, j + 1, x, it) { let i = choose|i: int| 0 <= i < j && adv(g, #[trigger] s[i], x, it); assert(adv(g, s[i], x, it)); }
proof fn grp_more(g: G, dm: Set<int>, s: Seq<Item>, j: int, x: int, v: Seq<Item>) requires grp1(g, dm, s, j, x, v) ensures grp1(g, dm, s, j + 1, x, v) { assert forall|k: int| 0 <= k < v.len() implies from(g, s, j + 1, x, #[trigger] v[k]) by { from_more(g, s, j, x, v[k]); } }
proof fn grp_skip(g: G, dm: Set<int>, s: Seq<Item>, j: int, m: Map<int, Seq<Item>>) requires grouped(g, dm, s, j, m), s[j].dot_pos >= ln(g, s[j].rule_index as int) ensures grouped(g, dm, s, j + 1, m) { assert forall|x: int| #[trigger] m.contains_key(x) implies grp1(g, dm, s, j + 1, x, m[x]) by { grp_more(g, dm, s, j, x, m[x]); } }
proof fn grp_step(g: G, dm: Set<int>, s: Seq<Item>, j: int, m: Map<int, Seq<Item>>, x: int, it: Item) requires state_ok(g, dm, s), 0 <= j < s.len(), grouped(g, dm, s, j, m), adv(g, s[j], x, it) ensures grouped(g, dm, s, j + 1, with(m, x, it))
{ let m2 = with(m, x, it); let v0 = if m.contains_key(x) { m[x] } else { Seq::<Item>::empty() }; let v = m2[x]; assert(it_ok(g, dm, s, j)); assert(v =~= v0.push(it));
  assert(grp1(g, dm, s, j + 1, x, v)) by { if m.contains_key(x) { assert(grp1(g, dm, s, j, x, v0)); } let e = v0.len() as int; assert(from(g, s, j + 1, x, it)) by { assert(adv(g, s[j], x, it)); }
    assert forall|k: int| 0 <= k < v.len() implies from(g, s, j + 1, x, #[trigger] v[k]) by { if k < e { assert(v[k] == v0[k]); from_more(g, s, j, x, v0[k]); } }
    assert forall|k: int| 0 <= k < v.len() implies #[trigger] kern_ok(g, dm, v, k) by { if k < e { assert(v[k] == v0[k]); assert(kern_ok(g, dm, v0, k)); } }
    assert forall|a: int, b: int| 0 <= a < b < v.len() implies less(#[trigger] v[a], #[trigger] v[b]) by { if b < e { assert(v[a] == v0[a] && v[b] == v0[b]); } else { assert(v[a] == v0[a]); assert(from(g, s, j, x, v0[a])); let i = choose|i: int| 0 <= i < j && adv(g, #[trigger] s[i], x, v0[a]); assert(less(s[i], s[j])); } } }
  assert forall|y: int| #[trigger] m2.contains_key(y) implies grp1(g, dm, s, j + 1, y, m2[y]) by { if y != x { assert(m.contains_key(y)); grp_more(g, dm, s, j, y, m[y]); } }
  assert forall|i: int| 0 <= i < j + 1 implies #[trigger] in_grp(g, s, m2, i) by { let y = sy(g, s[i].rule_index as int, s[i].dot_pos as int); if i < j { assert(in_grp(g, s, m, i)); if s[i].dot_pos < ln(g, s[i].rule_index as int) { let k = choose|k: int| 0 <= k < m[y].len() && adv(g, s[i], y, #[trigger] m[y][k]); assert(m2[y][k] == m[y][k]); } } else { assert(m2[x][v0.len() as int] == it); } } }
proof fn grp_reached(g: G, dm: Set<int>, s: Seq<Item>, m: Map<int, Seq<Item>>, x: int) requires state_ok(g, dm, s), grouped(g, dm, s, s.len() as int, m), m.contains_key(x) ensures reached(g, s, x, m[x]), kernel(g, dm, m[x])
{ let v = m[x]; assert(grp1(g, dm, s, s.len() as int, x, v));
  assert forall|r: int, d: int, a: int| #[trigger] hasla(v, r, d, a) == kgola(g, s, x)(r, d, a) by {
    if hasla(v, r, d, a) { let k = choose|k: int| #[trigger] at(v, k, r, d) && v[k].lookahead@.contains(a); assert(from(g, s, s.len() as int, x, v[k])); let i = choose|i: int| 0 <= i < s.len() && adv(g, #[trigger] s[i], x, v[k]); assert(at(s, i, r, d - 1)); assert(hasla(s, r, d - 1, a)); }
    if kgola(g, s, x)(r, d, a) { let i = choose|i: int| #[trigger] at(s, i, r, d - 1) && s[i].lookahead@.contains(a); assert(in_grp(g, s, m, i)); let k = choose|k: int| 0 <= k < m[x].len() && adv(g, s[i], x, #[trigger] m[x][k]); assert(at(v, k, r, d)); } }
  assert forall|r: int, d: int| #[trigger] has(v, r, d) == kgo(g, s, x)(r, d) by {
    if has(v, r, d) { let k = choose|k: int| #[trigger] at(v, k, r, d); assert(from(g, s, s.len() as int, x, v[k])); let i = choose|i: int| 0 <= i < s.len() && adv(g, #[trigger] s[i], x, v[k]); assert(at(s, i, r, d - 1)); assert(has(s, r, d - 1)); }
    if kgo(g, s, x)(r, d) { let i = choose|i: int| #[trigger] at(s, i, r, d - 1); assert(in_grp(g, s, m, i)); let k = choose|k: int| 0 <= k < m[x].len() && adv(g, s[i], x, #[trigger] m[x][k]); assert(at(v, k, r, d)); } } }
proof fn grp_all(g: G, dm: Set<int>, s: Seq<Item>, m: Map<int, Seq<Item>>, x: int) requires grouped(g, dm, s, s.len() as int, m), goes(g, s, x) ensures m.contains_key(x) { let (r, d) = choose|r: int, d: int| #[trigger] has(s, r, d) && ahead(g, r, d, x); let i = choose|i: int| #[trigger] at(s, i, r, d); assert(in_grp(g, s, m, i)); }
// the states still to be followed
pub open spec fn todo(g: G, ss: Seq<State>, need: Set<int>, q: Seq<usize>, ex: int) -> bool { ss.len() <= usize::MAX && (forall|p: int| #[trigger] need.contains(p) ==> 0 <= p < ss.len() && q.contains(p as usize)) && (forall|k: int| 0 <= k < q.len() ==> #[trigger] q[k] < ss.len()) && forall|p: int| 0 <= p < ss.len() && p != ex && !need.contains(p) ==> #[trigger] flow(g, ss, p) }
proof fn todo_step(g: G, dm: Set<int>, a: Seq<State>, n: Set<int>, u: Seq<usize>, c: Seq<State>, n2: Set<int>, u2: Seq<usize>, i: int, x: int, t: int, s: State) requires inv(g, dm, a), 0 <= i < a.len(), c.len() <= usize::MAX, todo(g, a, n, u, i), grew(a, n, u, c, n2, u2, i, x, t, s), larger(a, c) ensures todo(g, c, n2, u2, i)
{ grown_larger(g, dm, a, c, i, x, t, s); if u2 != u { pushed(u, t as usize); }
  assert forall|p: int| #[trigger] n2.contains(p) implies 0 <= p < c.len() && u2.contains(p as usize) by { if n.contains(p) {} else { assert(p == t); } }
  assert forall|k: int| 0 <= k < u2.len() implies #[trigger] u2[k] < c.len() by { if k < u.len() { assert(u[k] < a.len()); } }
  assert forall|p: int| 0 <= p < c.len() && p != i && !n2.contains(p) implies #[trigger] flow(g, c, p) by { assert(p < a.len()); assert(!n.contains(p)); assert(flow(g, a, p)); if p != t { assert(its(c, p) == its(a, p)); } assert(same_la(its(a, p), its(c, p))); flow_mono(g, a, c, p); } }
proof fn flow_now(g: G, dm: Set<int>, ss: Seq<State>, i: int, s: Seq<Item>, m: Map<int, Seq<Item>>) requires inv(g, dm, ss), 0 <= i < ss.len(), same_la(s, its(ss, i)), grouped(g, dm, s, s.len() as int, m), forall|x: int| #[trigger] m.contains_key(x) ==> flowed(g, ss, i, s, x) ensures flow(g, ss, i)
{ same_has(s, its(ss, i)); assert forall|x: int| #[trigger] goes(g, its(ss, i), x) implies flowed(g, ss, i, its(ss, i), x) by { let (r, d) = choose|r: int, d: int| #[trigger] has(its(ss, i), r, d) && ahead(g, r, d, x); assert(has(s, r, d)); assert(goes(g, s, x)); grp_all(g, dm, s, m, x); flowed_la(g, ss, i, s, its(ss, i), x); } }
// the grammar before the start rule is added
pub open spec fn ext(a: G, b: G) -> bool { a.comps == b.comps && a.end == b.end && nr(a) <= nr(b) && forall|r: int| 0 <= r < nr(a) ==> #[trigger] b.rules[r] == a.rules[r] }
proof fn nul_ext(a: G, b: G, n: nat, y: int) requires ext(a, b), nul(a, n, y) ensures nul(b, n, y) decreases n
{ let r = choose|r: int| #[trigger] prod(a, y, r) && forall|k: int| 0 <= k < ln(a, r) ==> nul(a, (n - 1) as nat, #[trigger] sy(a, r, k)); assert(b.rules[r] == a.rules[r]); assert(prod(b, y, r)); assert forall|k: int| 0 <= k < ln(b, r) implies nul(b, (n - 1) as nat, #[trigger] sy(b, r, k)) by { assert(nul(a, (n - 1) as nat, sy(a, r, k))); nul_ext(a, b, (n - 1) as nat, sy(a, r, k)); } }
proof fn fst_ext(a: G, b: G, n: nat, y: int, c: int) requires ext(a, b), fst(a, n, y, c) ensures fst(b, n, y, c) decreases n
{ if 0 <= y < a.comps.len() && term(a, y) && y == c {} else { let (r, k) = choose|r: int, k: int| #[trigger] fsym(a, y, r, k) && fst(a, (n - 1) as nat, sy(a, r, k), c); assert(b.rules[r] == a.rules[r]); fst_ext(a, b, (n - 1) as nat, sy(a, r, k), c);
    assert forall|j: int| 0 <= j < k implies isnul(b, #[trigger] sy(b, r, j)) by { assert(isnul(a, sy(a, r, j))); let m = choose|m: nat| nul(a, m, sy(a, r, j)); nul_ext(a, b, m, sy(a, r, j)); } assert(fsym(b, y, r, k)); } }
proof fn live_ext(a: G, b: G, y: int) requires ext(a, b), live_sym(a, y) ensures live_sym(b, y) { if isnul(a, y) { let m = choose|m: nat| nul(a, m, y); nul_ext(a, b, m, y); } else { let c = choose|c: int| first(a, y, c); let n = choose|n: nat| fst(a, n, y, c); fst_ext(a, b, n, y, c); assert(first(b, y, c)); } }
"""
