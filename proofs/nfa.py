"""Automata crate: NFA construction from a pattern tree, epsilon closure, subset construction, one automaton per start state (C20)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, _nfa, _rx
A = "crates/automata/src/"; LIB = A + "lib.rs"; NFA = A + "nfa.rs"; DFA = A + "dfa.rs"; RX = A + "regexp.rs"
SHIM = r"""
global size_of usize == 8;
// an arena state is represented by its number (NFAState's equality and order are those of state_id); edges and accepting rules are the arena's content
#[derive(Clone, Copy)] pub struct St { pub state_id: usize }
#[verifier::external_body] pub struct NFA { x: u8 }
pub open spec fn sid(s: St) -> int { s.state_id as int }
impl NFA { pub uninterp spec fn e(&self) -> Set<Edge>; pub uninterp spec fn a(&self) -> Map<int, u32>; pub uninterp spec fn n(&self) -> int;
  #[verifier::external_body] pub fn new() -> (r: NFA) ensures r.e() == Set::<Edge>::empty(), r.a() == Map::<int, u32>::empty(), r.n() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn new_state(&mut self) -> (r: St) ensures r.state_id == old(self).n(), final(self).n() == old(self).n() + 1, final(self).e() == old(self).e(), final(self).a() == old(self).a() { unimplemented!() }
  #[verifier::external_body] pub fn add_transition(&mut self, s: St, d: St, c: Transition) ensures final(self).e() == old(self).e().insert(Edge { s: sid(s), c: c, d: sid(d) }), final(self).a() == old(self).a(), final(self).n() == old(self).n() { unimplemented!() }
  #[verifier::external_body] pub fn set_accept(&mut self, s: St, v: u32) ensures final(self).a() == old(self).a().insert(sid(s), v), final(self).e() == old(self).e(), final(self).n() == old(self).n() { unimplemented!() }
  #[verifier::external_body] pub fn next(&self, s: St, c: Transition) -> (r: Option<Vec<St>>) ensures (match r { None => forall|d: int| !self.e().contains(#[trigger] ed(s, c, d)), Some(v) => listed(self.e(), s, c, v@) }) { unimplemented!() }
  #[verifier::external_body] pub fn accept_of(&self, s: St) -> (r: Option<u32>) ensures r == (if self.a().contains_key(sid(s)) { Some(self.a()[sid(s)]) } else { None }) { unimplemented!() } }
pub open spec fn ed(s: St, c: Transition, d: int) -> Edge { Edge { s: sid(s), c: c, d: d } }
pub open spec fn listed(e: Set<Edge>, s: St, c: Transition, v: Seq<St>) -> bool { (forall|k: int| 0 <= k < v.len() ==> e.contains(ed(s, c, sid(#[trigger] v[k])))) && forall|d: int| #[trigger] e.contains(ed(s, c, d)) ==> exists|k: int| 0 <= k < v.len() && sid(#[trigger] v[k]) == d }
// HashMap<String, RegexpNode>
#[verifier::external_body] pub struct Defs { x: u8 }
impl Defs { pub uninterp spec fn view(&self) -> Map<Seq<char>, Rx>;
  #[verifier::external_body] pub fn new() -> (r: Defs) ensures r@ == Map::<Seq<char>, Rx>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: String, v: RegexpNode) ensures final(self)@ == old(self)@.insert(k@, deep(v)) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&RegexpNode>) ensures (match r { Some(v) => self@.contains_key(k@) && deep(*v) == self@[k@], None => !self@.contains_key(k@) }) { unimplemented!() } }
// BTreeSet<&NFAState>, BTreeMap<BTreeSet<&NFAState>, usize>
#[verifier::external_body] pub struct StateSet { x: u8 }
impl StateSet { pub uninterp spec fn view(&self) -> Set<int>;
  #[verifier::external_body] pub fn new() -> (r: StateSet) ensures r@ == Set::<int>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, s: St) -> (r: bool) ensures final(self)@ == old(self)@.insert(sid(s)), r == !old(self)@.contains(sid(s)) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<int>::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: StateSet) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn items(&self) -> (r: Vec<St>) ensures (forall|k: int| 0 <= k < r@.len() ==> self@.contains(sid(#[trigger] r@[k]))), forall|t: int| #[trigger] self@.contains(t) ==> exists|k: int| 0 <= k < r@.len() && sid(#[trigger] r@[k]) == t { unimplemented!() } }
#[verifier::external_body] pub struct SetMap { x: u8 }
impl SetMap { pub uninterp spec fn view(&self) -> Map<Set<int>, usize>;
  #[verifier::external_body] pub fn new() -> (r: SetMap) ensures r@ == Map::<Set<int>, usize>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: StateSet, v: usize) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r + 1 < usize::MAX { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &StateSet) -> (r: Option<&usize>) ensures (match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) }) { unimplemented!() } }
#[verifier::external_body] pub proof fn few(m: SetMap) ensures m@.len() + 1 < usize::MAX {}  // fewer than 2^64 states
#[verifier::external_body] pub fn filled(v: usize) -> (r: [usize; 256]) ensures forall|i: int| 0 <= i < 256 ==> #[trigger] r@[i] == v { [v; 256] }
pub open spec fn same_but(a: Seq<DFAState>, b: Seq<DFAState>, i: int, j: int, v: usize) -> bool { a.len() == b.len() && (forall|k: int| 0 <= k < a.len() && k != i ==> #[trigger] b[k] == a[k]) && b[i].accept_lexer_rule_id == a[i].accept_lexer_rule_id && b[i].transitions@ == a[i].transitions@.update(j, v) }
#[verifier::external_body] pub fn set_to(r: &mut Vec<DFAState>, i: usize, j: usize, v: usize) requires i < old(r)@.len(), j < 256 ensures same_but(old(r)@, final(r)@, i as int, j as int, v) { r[i].transitions[j] = v; }
#[verifier::external_body] pub fn has_byte(v: &Vec<u8>, b: u8) -> (r: bool) ensures r == v@.contains(b) { v.contains(&b) }
#[verifier::external_body] pub fn own(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
pub open spec fn PARSED(s: Seq<char>) -> Rx { SYN(s)->Some_0 }
#[verifier::external_body] pub struct RegexpParser { x: u8 }
impl RegexpParser { #[verifier::external_body] pub fn new() -> (r: RegexpParser) { unimplemented!() } #[verifier::external_body] pub fn parse(&mut self, s: &String) -> (r: RegexpNode) requires SYN(s@) is Some ensures deep(r) == PARSED(s@) { unimplemented!() } }
"""
SPEC = r"""
pub open spec fn seen(e: Set<Edge>, n: int, s: int) -> bool { forall|g: Edge| #[trigger] e.contains(g) ==> 0 <= g.s < n && g.s != s }
pub open spec fn meaning(d: Map<Seq<char>, Rx>, f: nat, n: Rx) -> spec_fn(Seq<u8>) -> bool { |w: Seq<u8>| lang(d, f, n, w) }
pub open spec fn altl(d: Map<Seq<char>, Rx>, f: nat, v: Seq<Rx>, i: nat) -> spec_fn(Seq<u8>) -> bool { |w: Seq<u8>| alt(d, f, v, i, w) }
pub open spec fn catl(d: Map<Seq<char>, Rx>, f: nat, v: Seq<Rx>, i: nat) -> spec_fn(Seq<u8>) -> bool { |w: Seq<u8>| cat(d, f, v, i, w) }
pub open spec fn repl(d: Map<Seq<char>, Rx>, f: nat, n: Rx, i: nat) -> spec_fn(Seq<u8>) -> bool { |w: Seq<u8>| rep(d, f, n, i, w) }
pub open spec fn reps(d: Map<Seq<char>, Rx>, f: nat, n: Rx, lo: nat, i: nat) -> spec_fn(Seq<u8>) -> bool { |w: Seq<u8>| exists|k: nat| #[trigger] times(k) && lo <= k < i && rep(d, f, n, k, w) }
// the edges that were added are a fragment that spells what the tree matches
pub open spec fn built(e0: Set<Edge>, e1: Set<Edge>, s: int, t: int, lo: int, hi: int, l: spec_fn(Seq<u8>) -> bool) -> bool { let c = e1.difference(e0); lo <= hi && e0.subset_of(e1) && frag(c, s, t, lo, hi) && spells(c, s, t, l) }
pub proof fn added(e0: Set<Edge>, c: Set<Edge>, e1: Set<Edge>, s: int, t: int, lo: int, hi: int, l: spec_fn(Seq<u8>) -> bool) requires seen(e0, lo, s), e1 =~= e0.union(c), frag(c, s, t, lo, hi), lo <= hi, spells(c, s, t, l) ensures built(e0, e1, s, t, lo, hi, l) { assert(e1.difference(e0) =~= c); }
pub proof fn respell(c: Set<Edge>, s: int, t: int, l: spec_fn(Seq<u8>) -> bool, k: spec_fn(Seq<u8>) -> bool) requires spells(c, s, t, l), forall|w: Seq<u8>| #[trigger] l(w) == k(w) ensures spells(c, s, t, k) { assert forall|w: Seq<u8>| #[trigger] reach(c, s, w, t) == k(w) by { assert(l(w) == k(w)); } }
pub open spec fn one_hop(e: Set<Edge>, s: int, t: int) -> bool { forall|g: Edge| #[trigger] e.contains(g) ==> g.s == s && g.d == t && g.c is Char && e.contains(bedge(g.c->Char_0, s, t)) }
pub proof fn reline(e: Set<Edge>, s: int, x: int, t: int, lo: int, hi: int, p: spec_fn(Seq<u8>) -> bool, q: spec_fn(Seq<u8>) -> bool, p2: spec_fn(Seq<u8>) -> bool, q2: spec_fn(Seq<u8>) -> bool) requires line(e, s, x, t, lo, hi, p, q), forall|w: Seq<u8>| #[trigger] p(w) == p2(w), forall|w: Seq<u8>| #[trigger] q(w) == q2(w) ensures line(e, s, x, t, lo, hi, p2, q2) { respell(e, s, x, p, p2); respell(e, s, t, q, q2); }
pub open spec fn among(c: Seq<St>, t: int) -> bool { exists|k: int| 0 <= k < c.len() && sid(#[trigger] c[k]) == t }
// the set is closed but for what the list still has to visit
pub open spec fn open_at(e: Set<Edge>, s: Set<int>, c: Seq<St>) -> bool { forall|g: Edge| #[trigger] e.contains(g) && g.c == Transition::Epsilon && s.contains(g.s) ==> s.contains(g.d) || among(c, g.s) }
pub open spec fn nearly(e: Set<Edge>, s: Set<int>, c: Seq<St>, y: int) -> bool { forall|g: Edge| #[trigger] e.contains(g) && g.c == Transition::Epsilon && s.contains(g.s) ==> s.contains(g.d) || among(c, g.s) || g.s == y }
pub proof fn pushed(c: Seq<St>, s: St) ensures forall|t: int| #[trigger] among(c.push(s), t) <==> among(c, t) || t == sid(s)
{ let p = c.push(s); assert forall|t: int| #[trigger] among(p, t) <==> among(c, t) || t == sid(s) by { if among(c, t) { let k = choose|k: int| 0 <= k < c.len() && sid(#[trigger] c[k]) == t; assert(sid(p[k]) == t); } if t == sid(s) { assert(sid(p[c.len() as int]) == t); } if among(p, t) { let k = choose|k: int| 0 <= k < p.len() && sid(#[trigger] p[k]) == t; if k < c.len() { assert(sid(c[k]) == t); } } } }
pub open spec fn waits(w: Seq<StateSet>, s: Set<int>) -> bool { exists|k: int| 0 <= k < w.len() && (#[trigger] w[k])@ == s }
pub open spec fn numbered(m: Map<Set<int>, usize>, sets: Seq<Set<int>>) -> bool { m.len() == sets.len() && sets.len() < usize::MAX && (forall|i: int| 0 <= i < sets.len() ==> m.contains_key(#[trigger] sets[i]) && m[sets[i]] == i) && forall|k: Set<int>| #[trigger] m.contains_key(k) ==> m[k] < sets.len() && sets[m[k] as int] == k }
pub open spec fn row(e: Set<Edge>, sets: Seq<Set<int>>, r: Seq<DFAState>, i: int, n: int) -> bool { forall|b: int| 0 <= b < n ==> #[trigger] col(e, sets, r, i, b) }
pub open spec fn half(e: Set<Edge>, sets: Seq<Set<int>>, r: Seq<DFAState>, i: int) -> bool { forall|b: int| 0 <= b < 256 ==> to(r, i, b) == usize::MAX || #[trigger] col(e, sets, r, i, b) }
// the construction under way: all rows but those of waiting sets are done, of row src the first n columns
pub open spec fn progress(e: Set<Edge>, a: Map<int, u32>, x: int, r: Seq<DFAState>, sets: Seq<Set<int>>, m: Map<Set<int>, usize>, w: Seq<StateSet>, src: int, n: int) -> bool {
  r.len() == sets.len() && r.len() > 0 && is_closure(e, sets[0], x) && numbered(m, sets) && (forall|i: int| 0 <= i < r.len() ==> best(a, #[trigger] sets[i], r[i].accept_lexer_rule_id)) && (forall|i: int| 0 <= i < r.len() ==> #[trigger] half(e, sets, r, i))
  && (forall|i: int| 0 <= i < r.len() && i != src ==> waits(w, #[trigger] sets[i]) || row(e, sets, r, i, 256)) && (0 <= src < r.len() ==> row(e, sets, r, src, n)) && forall|k: int| 0 <= k < w.len() ==> m.contains_key((#[trigger] w[k])@) }
pub proof fn taken(e: Set<Edge>, a: Map<int, u32>, x: int, r: Seq<DFAState>, sets: Seq<Set<int>>, m: Map<Set<int>, usize>, w0: Seq<StateSet>, w: Seq<StateSet>, s: Set<int>, src: int)
  requires progress(e, a, x, r, sets, m, w0, -1, 0), w0.len() > 0, w == w0.drop_last(), s == w0.last()@, m.contains_key(s), src == m[s] ensures 0 <= src < sets.len(), sets[src] == s, progress(e, a, x, r, sets, m, w, src, 0)
{ assert forall|i: int| 0 <= i < r.len() && i != src implies waits(w, #[trigger] sets[i]) || row(e, sets, r, i, 256) by { if waits(w0, sets[i]) { let k = choose|k: int| 0 <= k < w0.len() && (#[trigger] w0[k])@ == sets[i]; assert(m[sets[i]] == i); assert(k < w.len()); assert(w[k]@ == sets[i]); } }
  assert forall|k: int| 0 <= k < w.len() implies m.contains_key((#[trigger] w[k])@) by { assert(w[k] == w0[k]); } }
pub proof fn nowhere(e: Set<Edge>, a: Map<int, u32>, x: int, r: Seq<DFAState>, sets: Seq<Set<int>>, m: Map<Set<int>, usize>, w: Seq<StateSet>, src: int, b: u8)
  requires progress(e, a, x, r, sets, m, w, src, b as int), 0 <= src < sets.len(), is_after(e, sets[src], b, Set::empty()) ensures progress(e, a, x, r, sets, m, w, src, b + 1)
{ assert forall|t: int| !#[trigger] after(e, sets[src], b, t) by { assert(!Set::<int>::empty().contains(t)); } assert(half(e, sets, r, src)); assert((b as int) as u8 == b); assert(col(e, sets, r, src, b as int)) by { if to(r, src, b as int) == usize::MAX {} }
  assert forall|c: int| 0 <= c < b + 1 implies #[trigger] col(e, sets, r, src, c) by { if c < b { assert(row(e, sets, r, src, b as int)); } } }
pub proof fn somewhere(e: Set<Edge>, a: Map<int, u32>, x: int, r: Seq<DFAState>, sets: Seq<Set<int>>, m: Map<Set<int>, usize>, w: Seq<StateSet>, r1: Seq<DFAState>, sets1: Seq<Set<int>>, m1: Map<Set<int>, usize>, w1: Seq<StateSet>, r2: Seq<DFAState>, src: int, b: u8, dst: int, nx: Set<int>)
  requires progress(e, a, x, r, sets, m, w, src, b as int), 0 <= src < sets.len(), 0 <= dst < usize::MAX, same_but(r1, r2, src, b as int, dst as usize), is_after(e, sets[src], b, nx), r1[src].transitions@.len() == 256,
    (m.contains_key(nx) && dst == m[nx] && r1 == r && sets1 == sets && m1 == m && w1 == w)
    || (!m.contains_key(nx) && dst == m.len() && m1 == m.insert(nx, dst as usize) && sets1 == sets.push(nx) && dst + 1 < usize::MAX && r1.len() == r.len() + 1 && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r1[i] == r[i]) && w1.len() == w.len() + 1 && (forall|k: int| 0 <= k < w.len() ==> #[trigger] w1[k] == w[k]) && w1.last()@ == nx
        && best(a, nx, r1.last().accept_lexer_rule_id) && forall|c: int| 0 <= c < 256 ==> #[trigger] r1.last().transitions@[c] == usize::MAX)
  ensures progress(e, a, x, r2, sets1, m1, w1, src, b + 1)
{ assert((b as int) as u8 == b); assert(sets1.len() == r2.len()); assert(sets1[src] == sets[src]); assert(dst < sets1.len() && sets1[dst] == nx); assert(to(r2, src, b as int) == dst); assert(is_after(e, sets1[src], b, sets1[dst])); assert(col(e, sets1, r2, src, b as int));
  assert forall|i: int, c: int| 0 <= i < r.len() && 0 <= c < 256 && !(i == src && c == b) && (to(r, i, c) == usize::MAX || col(e, sets, r, i, c)) implies to(r2, i, c) == to(r, i, c) && (to(r2, i, c) == usize::MAX || #[trigger] col(e, sets1, r2, i, c)) && (col(e, sets, r, i, c) ==> col(e, sets1, r2, i, c)) by { assert(r1[i] == r[i]); assert(sets1[i] == sets[i]); if i == src { assert(r2[i].transitions@[c] == r1[i].transitions@[c]); } else { assert(r2[i] == r1[i]); } if to(r, i, c) != usize::MAX { assert(sets1[to(r, i, c)] == sets[to(r, i, c)]); } }
  assert forall|i: int| 0 <= i < r2.len() implies #[trigger] half(e, sets1, r2, i) by { if i < r.len() { assert(half(e, sets, r, i)); assert forall|c: int| 0 <= c < 256 implies to(r2, i, c) == usize::MAX || #[trigger] col(e, sets1, r2, i, c) by { if !(i == src && c == b) { assert(to(r, i, c) == usize::MAX || col(e, sets, r, i, c)); } } } else { assert(r2[i] == r1.last()); } }
  assert forall|i: int| 0 <= i < r2.len() && i != src implies waits(w1, #[trigger] sets1[i]) || row(e, sets1, r2, i, 256) by { if i < r.len() { assert(sets1[i] == sets[i]);
      if waits(w, sets[i]) { let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k])@ == sets[i]; assert(w1[k] == w[k]); } else { assert(row(e, sets, r, i, 256)); assert forall|c: int| 0 <= c < 256 implies #[trigger] col(e, sets1, r2, i, c) by { assert(col(e, sets, r, i, c)); } } } else { assert(w1[w1.len() - 1]@ == nx); } }
  assert forall|c: int| 0 <= c < b + 1 implies #[trigger] col(e, sets1, r2, src, c) by { if c < b { assert(row(e, sets, r, src, b as int)); assert(col(e, sets, r, src, c)); } }
  assert forall|i: int| 0 <= i < r2.len() implies best(a, #[trigger] sets1[i], r2[i].accept_lexer_rule_id) by { if i < r.len() { assert(r1[i] == r[i]); assert(sets1[i] == sets[i]); if i != src { assert(r2[i] == r1[i]); } } else { assert(r2[i] == r1[i]); } }
  assert(sets1[0] == sets[0]);
  assert(numbered(m1, sets1)) by { if !m.contains_key(nx) { assert forall|i: int| 0 <= i < sets1.len() implies m1.contains_key(#[trigger] sets1[i]) && m1[sets1[i]] == i by { if i < sets.len() { assert(sets1[i] == sets[i]); assert(m.contains_key(sets[i])); } } assert forall|k: Set<int>| #[trigger] m1.contains_key(k) implies m1[k] < sets1.len() && sets1[m1[k] as int] == k by { if k != nx { assert(m.contains_key(k)); assert(sets1[m[k] as int] == sets[m[k] as int]); } } } }
  assert forall|k: int| 0 <= k < w1.len() implies m1.contains_key((#[trigger] w1[k])@) by { if k < w.len() { assert(w1[k] == w[k]); assert(m.contains_key(w[k]@)); } } }
pub proof fn child(n: RegexpNode, v: Vec<RegexpNode>, i: int) requires n == RegexpNode::Alternative(v) || n == RegexpNode::Concatenation(v), 0 <= i < v@.len() ensures decreases_to!(n => v@[i]) { match n { RegexpNode::Alternative(u) => { assert(decreases_to!(n => u@[i])); } RegexpNode::Concatenation(u) => { assert(decreases_to!(n => u@[i])); } _ => {} } }
pub proof fn sound_child(d: Map<Seq<char>, Rx>, f: nat, n: Rx, v: Seq<Rx>, i: int) requires sound(d, f, n), n == Rx::Alt(v) || n == Rx::Cat(v), 0 <= i < v.len() ensures sound(d, f, v[i]) { match n { Rx::Alt(u) => { assert(sound(d, f, u[i])); } Rx::Cat(u) => { assert(sound(d, f, u[i])); } _ => {} } }
pub proof fn empty_frag(s: int, t: int, lo: int) requires s != t, s < lo, t < lo ensures frag(Set::empty(), s, t, lo, lo), spells(Set::empty(), s, t, none()) { start_line(s, t, lo); }
pub open spec fn defs_of(s: Seq<NameDefinition>, i: nat) -> Map<Seq<char>, Rx> decreases i { if i == 0 || i > s.len() { Map::empty() } else { defs_of(s, (i - 1) as nat).insert(s[i - 1].name@, PARSED(s[i - 1].definition@)) } }
pub open spec fn rules_of(d: Map<Seq<char>, Rx>, f: nat, p: Seq<FlexPatternDef>, i: nat) -> Seq<spec_fn(Seq<u8>) -> bool> { Seq::new(i, |k: int| meaning(d, f, PARSED(p[k].pattern@))) }
pub open spec fn active(p: Seq<FlexPatternDef>) -> spec_fn(int, int) -> bool { |r: int, q: int| p[r].state_set@.contains(q as usize) }
// the number of different states named
pub uninterp spec fn STATES(p: Seq<FlexPatternDef>) -> int;
#[verifier::external_body] pub fn count_states(p: &[FlexPatternDef]) -> (r: usize) ensures r == STATES(p@) { p.iter().flat_map(|p| p.state_set.iter().cloned()).collect::<std::collections::HashSet<_>>().len() }
pub open spec fn valid(r: Seq<DFAState>) -> bool { r.len() > 0 && forall|i: int, b: int| 0 <= i < r.len() && 0 <= b < 256 ==> #[trigger] to(r, i, b) == usize::MAX || to(r, i, b) < r.len() }
pub proof fn is_valid(e: Set<Edge>, a: Map<int, u32>, x: int, r: Seq<DFAState>, sets: Seq<Set<int>>) requires dfa_ok(e, a, x, r, sets) ensures valid(r) { assert forall|i: int, b: int| 0 <= i < r.len() && 0 <= b < 256 implies #[trigger] to(r, i, b) == usize::MAX || to(r, i, b) < r.len() by { assert(col(e, sets, r, i, b)); } }
// the rule of the longest prefix, of at most j bytes, that has one
pub open spec fn longest(r: Seq<DFAState>, w: Seq<u8>, j: nat) -> Option<u32> decreases j { if verdict(r, w.take(j as int)) is Some || j == 0 { verdict(r, w.take(j as int)) } else { longest(r, w, (j - 1) as nat) } }
// j bytes can be read and no more
pub open spec fn as_far(r: Seq<DFAState>, w: Seq<u8>, j: nat) -> bool { j <= w.len() && drun(r, w.take(j as int)) is Some && (j < w.len() ==> drun(r, w.take((j + 1) as int)) is None) }
pub open spec fn matched(r: Seq<DFAState>, w: Seq<u8>, j: nat, o: Option<u32>) -> bool { as_far(r, w, j) && o == (if verdict(r, w.take(j as int).push(0)) is Some { verdict(r, w.take(j as int).push(0)) } else { longest(r, w, j) }) }
pub open spec fn in_range(p: Seq<FlexPatternDef>, i: int) -> bool { forall|k: int| 0 <= k < p[i].state_set@.len() ==> #[trigger] p[i].state_set@[k] < STATES(p) }
"""
def norm(t): return re.sub(r"#\[[^\]]*\]|//.*", "", t)
def types(u):
    u.add("#[derive(Clone, Copy)] " + norm(u.item(NFA, "enum", "Transition").text)); u.add(norm(u.item(RX, "enum", "RegexpNode").text))
    u.add(norm(u.item(LIB, "struct", "NameDefinition").text)); u.add(norm(u.item(LIB, "struct", "FlexPatternDef").text))
    u.add(norm(u.item(DFA, "struct", "DFAState").text)); u.add(norm(u.item(DFA, "struct", "DFA").text))
    u.add(vx.rewrite(norm(u.item(DFA, "const", "INVALID_STATE").text), "!0", "usize::MAX")[0])
    t = norm(u.item(LIB, "struct", "NFAFragment").text); t = vx.rewrite(vx.rewrite(t, "&'a NFAState<'a>", "pub_St")[0], "NFAFragment<'a>", "NFAFragment")[0]
    u.add(re.sub(r"(\w+):\s*pub_St", r"pub \1: St", re.sub(r"pub\s+(\w+:)", r"\1", t)))
def common(f):
    f.rw("nfa: &'a NFA<'a>", "nfa: &mut NFA"); f.rw("NFAFragment<'a>", "NFAFragment"); f.rw("&'a NFAState<'a>", "St"); f.rw("StateSet<'a>", "StateSet"); f.rw("HashMap<String, RegexpNode>", "Defs")
    f.rw("for &$v in &$x* {", "for __p in &$x { let $v = *__p;"); f.rw("for &$v in $x {", "for __p in &$x { let $v = *__p;"); f.rw("for $v in $a*..=$b* {", "for __w in ($a as u16)..($b as u16 + 1) { let $v = __w as u8;")
    f.rw("$s.transitions.borrow().get(&Transition::$c)", "nfa.next($s, Transition::$c)"); f.rw("$s.transitions.borrow().get(&$c)", "nfa.next($s, $c)"); f.rw("*$s.accept_lexer_rule_id.borrow()", "nfa.accept_of($s)")
def generics(f): f.rw("fn %s<'a>(" % f.name, "fn %s(" % f.name)
def build(u):
    u.add("use vstd::utf8::*;"); types(u); u.add("//@fn theory\n" + _nfa.WALK + _nfa.TREE + _rx.SYN + _nfa.LANG + _nfa.FRAG + _nfa.STAR + _nfa.SUBSET + "\n//@end"); u.add(SHIM); u.add("//@fn theory\n" + SPEC + "\n//@end")
    f = u.fn(LIB, "new", "<'a> NFAFragment<'a>"); common(f); f.contract("ensures r.start_state.state_id == old($0).n(), r.accept_state.state_id == old($0).n() + 1, final($0).n() == old($0).n() + 2, final($0).e() == old($0).e(), final($0).a() == old($0).a()"); f.start(); u.put(f, "NFAFragment", "impl NFAFragment")
    # ------------------------------------------------------------ tree to NFA
    f = u.fn(LIB, "build_nfa_from_regex_node"); generics(f); common(f)
    f.rw("let &NFAFragment { start_state: $a, accept_state: $b, } = $r;", "let $a = $r.start_state; let $b = $r.accept_state;", note="destructuring of a fragment as two lets"); f.rw("let $n @ NFAFragment { start_state: $a, accept_state: $b, } = $x*;", "let $n = $x; let $a = $n.start_state; let $b = $n.accept_state;", note="`name @ pattern` as a let and two lets")
    f.rw("$s.add_transition($d, $c*);", "nfa.add_transition($s, $d, $c);", need=1); f.rw("$v.contains(&$b)", "has_byte($v, $b)"); f.rw("$m.get($k).unwrap_or_else(|| panic!($x*))", "match $m.get($k) { Some(__v) => __v, None => vstd::pervasive::unreached() }")
    f.desugar(); f.ghost_param("Ghost(f): Ghost<nat>")
    f.rw("build_nfa_from_regex_node(nfa, $a*, regexp_node, $d);", "build_nfa_from_regex_node(nfa, $a, regexp_node, $d, Ghost((f - 1) as nat));"); f.rw("build_nfa_from_regex_node(nfa, $a*, node, $d);", "build_nfa_from_regex_node(nfa, $a, node, $d, Ghost(f));")
    f.contract("""requires $1.start_state.state_id != $1.accept_state.state_id, $1.start_state.state_id < old($0).n(), $1.accept_state.state_id < old($0).n(), seen(old($0).e(), old($0).n(), sid($1.start_state)), sound($3@, f, deep(*$2))
      ensures final($0).a() == old($0).a(), built(old($0).e(), final($0).e(), sid($1.start_state), sid($1.accept_state), old($0).n(), final($0).n(), meaning($3@, f, deep(*$2))) decreases f, *$2""")
    f.start("let ghost e0 = $0.e(); let ghost a0 = $0.a(); let ghost lo = $0.n(); let ghost s = sid($1.start_state); let ghost t = sid($1.accept_state); let ghost d = $3@; let ghost tree = *$2; let ghost mut ec = Set::<Edge>::empty(); let ghost mut c = Set::<Edge>::empty(); let ghost mut mid = lo; let ghost mut hi = lo; let ghost mut x = s; proof { start_line(s, t, lo); }")
    f.before("build_nfa_from_regex_node(nfa, $a*, $n, $d, $g*);", "let ghost e1 = nfa.e(); proof { mid = sid(node_start); } "); f.before("build_nfa_from_regex_node(nfa, $a*, $n, $d, $g*);", " proof { hi = nfa.n(); c = nfa.e().difference(e1); assert(nfa.e() =~= e1.union(c)); } ", after=True)
    base = "invariant nfa.a() == a0, nfa.n() >= lo, nfa.e() =~= e0.union(ec), tree == *$2, d == $3@, s == sid(start), t == sid(accept), start == $1.start_state, accept == $1.accept_state, s != t, 0 <= s < lo, 0 <= t < lo, sound(d, f, deep(tree)), seen(e0, lo, s), "
    f.loop(0, base + "tree == RegexpNode::Alternative(*nodes), __e0 == nodes@.len(), __i0 <= __e0, frag(ec, s, t, lo, nfa.n()), spells(ec, s, t, altl(d, f, deeps(nodes@), __i0 as nat)) decreases __e0 - __i0", "let ghost m0 = nfa.n(); proof { child(tree, *nodes, __i0 as int); deep_list(*nodes); assert(deep(nodes@[__i0 as int]) == deeps(nodes@)[__i0 as int]); sound_child(d, f, deep(tree), deeps(nodes@), __i0 as int); }",
      "proof { let l = altl(d, f, deeps(nodes@), (__i0 - 1) as nat); let k = meaning(d, f, deep(*node)); alternative(ec, c, s, t, lo, mid, hi, l, k); ec = ec.union(c).insert(ep(s, mid)).insert(ep(mid + 1, t)); respell(ec, s, t, either(l, k), altl(d, f, deeps(nodes@), __i0 as nat)); }")
    f.loop(1, base + "tree == RegexpNode::AnyOf(*bytes), __e1 == bytes@.len(), __i1 <= __e1, nfa.n() == lo, one_hop(ec, s, t), forall|k: int| 0 <= k < __i1 ==> ec.contains(bedge(#[trigger] bytes@[k], s, t)), forall|b: u8| #[trigger] ec.contains(bedge(b, s, t)) ==> bytes@.contains(b) decreases __e1 - __i1", "",
      "proof { ec = ec.insert(bedge(*byte, s, t)); }")
    f.loop(2, base + "tree == RegexpNode::Concatenation(*nodes), __e2 == nodes@.len(), __i2 <= __e2, sid(state) == x, line(ec, s, x, t, lo, nfa.n(), catl(d, f, deeps(nodes@), __i2 as nat), none()) decreases __e2 - __i2", "proof { child(tree, *nodes, __i2 as int); deep_list(*nodes); assert(deep(nodes@[__i2 as int]) == deeps(nodes@)[__i2 as int]); sound_child(d, f, deep(tree), deeps(nodes@), __i2 as int); }",
      "proof { let p = catl(d, f, deeps(nodes@), (__i2 - 1) as nat); let k = meaning(d, f, deep(*node)); link_line(ec, c, s, x, t, lo, mid, hi, p, none(), k); ec = ec.union(c).insert(ep(x, mid)); x = mid + 1; reline(ec, s, x, t, lo, hi, then(p, k), none(), catl(d, f, deeps(nodes@), __i2 as nat), none()); }")
    f.loop(3, base + "tree == RegexpNode::NoneOf(*bytes), __e3 == 256, 1 <= __i3 <= __e3, nfa.n() == lo, one_hop(ec, s, t), forall|b: u8| #[trigger] ec.contains(bedge(b, s, t)) <==> (1 <= b < __i3 && !bytes@.contains(b)) decreases __e3 - __i3", "",
      "proof { if !bytes@.contains(byte) { ec = ec.insert(bedge(byte, s, t)); } }")
    f.loop(4, base.replace("tree == *$2, ", "") + "tree == RegexpNode::Repeat(*node, *min, *max), *min <= *max, __e4 == *max, __i4 <= __e4, sid(state) == x, line(ec, s, x, t, lo, nfa.n(), repl(d, f, deep(**node), __i4 as nat), reps(d, f, deep(**node), *min as nat, __i4 as nat)) decreases __e4 - __i4", "proof { assert(decreases_to!(tree => *node)); assert(decreases_to!(tree => **node)); }",
      """proof { let j = (__i4 - 1) as nat; let m = *min as nat; let p = repl(d, f, deep(**node), j); let q0 = reps(d, f, deep(**node), m, j); let q = reps(d, f, deep(**node), m, j + 1); let k = meaning(d, f, deep(**node)); assert(times(j)); let n0 = mid;
        if j >= m { exit_line(ec, s, x, t, lo, n0, p, q0); ec = ec.insert(ep(x, t)); reline(ec, s, x, t, lo, n0, p, either(q0, p), p, q); } else { reline(ec, s, x, t, lo, n0, p, q0, p, q); }
        link_line(ec, c, s, x, t, lo, mid, hi, p, q, k); ec = ec.union(c).insert(ep(x, mid)); x = mid + 1; reline(ec, s, x, t, lo, hi, then(p, k), q, repl(d, f, deep(**node), j + 1), q); }""")
    f.end("""proof { let l = meaning(d, f, deep(tree));
      match tree {
        RegexpNode::Alternative(v) => { deep_list(v); respell(ec, s, t, altl(d, f, deeps(v@), v@.len()), l); }
        RegexpNode::AnyOf(v) => { let p = |b: u8| v@.contains(b); assert forall|b: u8| p(b) implies #[trigger] ec.contains(bedge(b, s, t)) by { let k = choose|k: int| 0 <= k < v@.len() && v@[k] == b; } bytes(ec, s, t, lo, p); respell(ec, s, t, |w: Seq<u8>| w.len() == 1 && p(w[0]), l); }
        RegexpNode::NoneOf(v) => { let p = |b: u8| b != 0 && !v@.contains(b); assert forall|g: Edge| #[trigger] ec.contains(g) implies g.s == s && g.d == t && g.c is Char && p(g.c->Char_0) by { assert(ec.contains(bedge(g.c->Char_0, s, t))); } assert forall|b: u8| #[trigger] p(b) implies ec.contains(Edge { s: s, c: Transition::Char(b), d: t }) by { assert(1 <= b); assert(ec.contains(bedge(b, s, t))); } bytes(ec, s, t, lo, p); respell(ec, s, t, |w: Seq<u8>| w.len() == 1 && p(w[0]), l); }
        RegexpNode::Char(k) => { let p = |b: u8| b == k; ec = ec.insert(bedge(k, s, t)); bytes(ec, s, t, lo, p); respell(ec, s, t, |w: Seq<u8>| w.len() == 1 && p(w[0]), l); }
        RegexpNode::Concatenation(v) => { deep_list(v); let p = catl(d, f, deeps(v@), v@.len()); exit_line(ec, s, x, t, lo, $0.n(), p, none()); ec = ec.insert(ep(x, t)); respell(ec, s, t, either(none(), p), l); }
        RegexpNode::Repeat(a, m, n) => { let p = repl(d, f, deep(*a), n as nat); let q = reps(d, f, deep(*a), m as nat, n as nat); exit_line(ec, s, x, t, lo, $0.n(), p, q); ec = ec.insert(ep(x, t)); assert(times(n as nat)); respell(ec, s, t, either(q, p), l); }
        RegexpNode::ZeroOrMore(a) => { let k = meaning(d, f, deep(*a)); star(c, s, t, mid, hi, k, true); ec = star_edges(c, s, t, mid, true); assert forall|w: Seq<u8>| #[trigger] rps(k, 0)(w) == l(w) by { assert forall|i: nat| rep(d, f, deep(*a), i, w) == rp(k, i, w) by { rep_is(d, f, deep(*a), i, w, k); } } respell(ec, s, t, rps(k, 0), l); }
        RegexpNode::OneOrMore(a) => { let k = meaning(d, f, deep(*a)); star(c, s, t, mid, hi, k, false); ec = star_edges(c, s, t, mid, false); assert forall|w: Seq<u8>| #[trigger] rps(k, 1)(w) == l(w) by { assert forall|i: nat| rep(d, f, deep(*a), i, w) == rp(k, i, w) by { rep_is(d, f, deep(*a), i, w, k); } } respell(ec, s, t, rps(k, 1), l); }
        RegexpNode::Reference(n) => { let k = meaning(d, (f - 1) as nat, d[n@]); empty_frag(s, t, lo); alternative(Set::empty(), c, s, t, lo, mid, hi, none(), k); ec = Set::<Edge>::empty().union(c).insert(ep(s, mid)).insert(ep(mid + 1, t)); respell(ec, s, t, either(none(), k), l); } }
      assert($0.e() =~= e0.union(ec)); added(e0, ec, $0.e(), s, t, lo, $0.n(), l); }""")
    f.src = "#[verifier::loop_isolation(false)] " + f.src; u.put(f)
    # ------------------------------------------------------------ subset construction
    f = u.fn(NFA, "collect_epsilon_closure"); generics(f); common(f); f.while_let(); f.ghost_param("nfa: &NFA"); f.desugar()
    f.contract("""requires closed(nfa.e(), old($0)@) ensures closed(nfa.e(), final($0)@), final($0)@.contains(sid($1)), forall|t: int| #[trigger] old($0)@.contains(t) ==> final($0)@.contains(t), forall|t: int| #[trigger] final($0)@.contains(t) ==> old($0)@.contains(t) || eps(nfa.e(), sid($1), t)""")
    f.rw("!0", "u32::MAX"); f.start("let ghost set0 = $0@; let ghost x = sid($1); let ghost mut gs = $1; proof { stay(nfa.e(), x); if set0.contains(x) { assert(set0.insert(x) =~= set0); } }")
    inv = "forall|t: int| #[trigger] set0.contains(t) ==> $0@.contains(t), forall|t: int| #[trigger] $0@.contains(t) ==> set0.contains(t) || eps(nfa.e(), x, t), $0@.contains(x), forall|k: int| 0 <= k < candidate@.len() ==> eps(nfa.e(), x, sid(#[trigger] candidate@[k])) "
    f.before("let mut candidate = $x*;", " assert(among(candidate@, x)) by { assert(sid(candidate@[0]) == x); } ", after=True)
    f.loop(0, "invariant open_at(nfa.e(), $0@, candidate@), " + inv + "ensures open_at(nfa.e(), $0@, candidate@), candidate@.len() == 0, " + inv, "let ghost c1 = candidate@; ", "proof { assert forall|g: Edge| #[trigger] nfa.e().contains(g) && g.c == Transition::Epsilon && g.s == sid(gs) implies $0@.contains(g.d) by { assert(nfa.e().contains(ed(gs, Transition::Epsilon, g.d))); } }")
    f.before("if let Some($v) = nfa.next($s, Transition::Epsilon) {", "proof { gs = s; assert(c1 == candidate@.push(s)); pushed(candidate@, s); assert(sid(c1[c1.len() - 1]) == sid(s)); assert forall|k: int| 0 <= k < candidate@.len() implies eps(nfa.e(), x, sid(#[trigger] candidate@[k])) by { assert(c1[k] == candidate@[k]); } } ")
    f.loop(1, "invariant __i0 <= __e0, __e0 == new_states@.len(), listed(nfa.e(), s, Transition::Epsilon, new_states@), eps(nfa.e(), x, sid(s)), nearly(nfa.e(), $0@, candidate@, sid(s)), forall|k: int| 0 <= k < __i0 ==> $0@.contains(sid(#[trigger] new_states@[k])), " + inv + "decreases __e0 - __i0", "let ghost c0 = candidate@; let ghost s0 = $0@; proof { let z = new_states@[__i0 as int]; pushed(c0, z); assert(nfa.e().contains(ed(s, Transition::Epsilon, sid(z)))); assert(nfa.e().contains(ep(sid(s), sid(z)))); eps_more(nfa.e(), x, sid(s), sid(z)); if s0.contains(sid(z)) { assert(s0.insert(sid(z)) =~= s0); } }")
    f.src = "#[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] " + f.src; u.put(f)
    f = u.fn(DFA, "select_highest_priority_rule"); f.rw("&BTreeSet<&NFAState>", "&StateSet"); common(f); f.ghost_param("nfa: &NFA")
    f.rw("$s.iter().fold($i*, |$a, $x| $b*)", "{ let mut __acc: Option<u32> = $i; let __v = $s.items(); let mut __k: usize = 0; while __k < __v.len() { let $a = __acc; let $x = __v[__k]; __k = __k + 1; __acc = $b; } __acc }", need=1, note="`fold` as a loop with an accumulator")
    f.contract("requires forall|t: int| #[trigger] nfa.a().contains_key(t) ==> nfa.a()[t] < u32::MAX ensures best(nfa.a(), $0@, r)"); f.start()
    f.loop(0, """invariant __k <= __v@.len(), forall|t: int| #[trigger] nfa.a().contains_key(t) ==> nfa.a()[t] < u32::MAX, forall|k: int| 0 <= k < __v@.len() ==> $0@.contains(sid(#[trigger] __v@[k])),
      (match __acc { None => true, Some(v) => v < u32::MAX && exists|t: int| #[trigger] $0@.contains(t) && nfa.a().contains_key(t) && nfa.a()[t] == v }), forall|k: int| 0 <= k < __k && nfa.a().contains_key(sid(#[trigger] __v@[k])) ==> __acc is Some && __acc->Some_0 <= nfa.a()[sid(__v@[k])] decreases __v@.len() - __k""")
    u.put(f)
    f = u.fn(DFA, "construct_dfa_with_state_mapping"); generics(f); f.rw("for $v in &$s {", "let __items = $s.items(); for $v in &__items {", note="a set is traversed through its list of members"); common(f); f.rw("mut dfa_to_nfa: Option<&mut Vec<Vec<usize>>>,", "", need=1, note="the optional output parameter for debugging is dropped"); f.rw("if let Some(dfa_to_nfa) = dfa_to_nfa.as_mut() { dfa_to_nfa.push($x*); }", "", note="the optional output parameter for debugging is dropped")
    f.rw("BTreeSet::new()", "StateSet::new()"); f.rw("BTreeMap::new()", "SetMap::new()"); f.rw("[$x*; 256]", "filled($x)"); f.rw("!0", "usize::MAX"); f.rw("select_highest_priority_rule($x*)", "select_highest_priority_rule($x, nfa)"); f.rw("collect_epsilon_closure($x*);", "collect_epsilon_closure($x, nfa);")
    f.rw("*$m.get($k*).unwrap()", "match $m.get($k) { Some(__x) => *__x, None => vstd::pervasive::unreached() }")
    f.rw("$a[$i].transitions[$j*] = $v;", "set_to(&mut $a, $i, $j, $v);"); f.rw("nfa.next($s, $c)", "nfa.next(*$s, $c)"); f.ghost_param("nfa: &NFA"); f.while_let(); f.desugar()
    f.contract("requires forall|t: int| #[trigger] nfa.a().contains_key(t) ==> nfa.a()[t] < u32::MAX ensures exists|sets: Seq<Set<int>>| dfa_ok(nfa.e(), nfa.a(), sid($0), r.states@, sets)")
    f.start("let ghost e = nfa.e(); let ghost a = nfa.a(); let ghost x = sid($0); let ghost mut sets = Seq::<Set<int>>::empty(); ")
    f.before("collect_epsilon_closure(&mut first_set, $x*);", " proof { closed_eps(e, first_set@, x); sets = seq![first_set@]; } ", after=True)
    f.before("let mut nfa_states_vec = vec![first_set];", " proof { assert(sets.len() == 1); assert(nfa_states_vec@[0]@ == sets[0]); assert(waits(nfa_states_vec@, sets[0])); assert(to(dfa_states@, 0, 0) == usize::MAX); assert(progress(e, a, x, dfa_states@, sets, nfa_map@, nfa_states_vec@, -1, 0)); } ", after=True)
    f.loop(0, "invariant progress(e, a, x, dfa_states@, sets, nfa_map@, nfa_states_vec@, -1, 0) ensures progress(e, a, x, dfa_states@, sets, nfa_map@, nfa_states_vec@, -1, 0), nfa_states_vec@.len() == 0", "let ghost w0 = nfa_states_vec@; ")
    f.before("let src_state_index = $x*;", " let ghost src = src_state_index as int; proof { taken(e, a, x, dfa_states@, sets, nfa_map@, w0, nfa_states_vec@, nfa_states@, src); } ", after=True)
    P = "progress(e, a, x, dfa_states@, sets, nfa_map@, nfa_states_vec@, src, __i0 as int)"
    f.loop(1, "invariant __i0 <= 256, __e0 == 256, 0 <= src < sets.len(), src == src_state_index, sets[src] == nfa_states@, " + P + " ensures __i0 == 256, " + P + " decreases 256 - __i0", "let ghost r0 = dfa_states@; let ghost sets0 = sets; let ghost m0 = nfa_map@; let ghost w1 = nfa_states_vec@; ")
    G = "closed(e, next_set@), forall|t: int| #[trigger] next_set@.contains(t) ==> after(e, nfa_states@, b, t)"
    f.loop(2, "invariant __i1 <= __e1, __e1 == __items@.len(), " + G + ", forall|k: int, z: int| 0 <= k < __i1 && #[trigger] e.contains(bedge(b, sid(__items@[k]), z)) ==> next_set@.contains(z) decreases __e1 - __i1", "let ghost n1 = next_set@; let ghost it = __items@[__i1 as int]; assert(nfa_states@.contains(sid(it))); ", "proof { assert forall|z: int| #[trigger] e.contains(bedge(b, sid(it), z)) implies next_set@.contains(z) by { assert(e.contains(ed(it, Transition::Char(b), z))); } } ")
    f.loop(3, "invariant __i2 <= __e2, __e2 == new_states@.len(), " + G + ", forall|t: int| #[trigger] n1.contains(t) ==> next_set@.contains(t), forall|k: int| 0 <= k < __i2 ==> next_set@.contains(sid(#[trigger] new_states@[k])) decreases __e2 - __i2", "let ghost z = sid(new_states@[__i2 as int]); assert(e.contains(ed(*nfa_state, Transition::Char(b), z))); assert(e.contains(bedge(b, sid(*nfa_state), z))); ")
    f.before("if next_set.is_empty() {", """ proof { assert forall|t: int| #[trigger] after(e, nfa_states@, b, t) implies next_set@.contains(t) by { let (y, z) = choose|y: int, z: int| nfa_states@.contains(y) && #[trigger] e.contains(bedge(b, y, z)) && eps(e, z, t);
      let k = choose|k: int| 0 <= k < __items@.len() && sid(#[trigger] __items@[k]) == y; assert(next_set@.contains(z)); closed_eps(e, next_set@, z); } assert(is_after(e, sets[src], b, next_set@)); } """)
    f.rw("DFA { states: $x* }", "let __r = DFA { states: $x }; __r", need=1, note="the result is named"); f.before("__r }", "  proof { assert(dfa_ok(nfa.e(), nfa.a(), sid(start_state), __r.states@, sets)); } "); f.before("let __r = $x*;", " proof { assert forall|i: int, b: int| 0 <= i < dfa_states@.len() && 0 <= b < 256 implies #[trigger] col(e, sets, dfa_states@, i, b) by { assert(!waits(nfa_states_vec@, sets[i])); assert(row(e, sets, dfa_states@, i, 256)); } assert(dfa_ok(e, a, x, dfa_states@, sets)); } ")
    f.before("continue;", " proof { nowhere(e, a, x, dfa_states@, sets, nfa_map@, nfa_states_vec@, src, b); } ")
    f.before("nfa_states_vec.push($x*);", " proof { sets = sets.push(next_set@); } ")
    f.before("set_to(&mut $a, $i, $j*, $v);", " let ghost r1 = $a@;".replace("$a", "dfa_states"))
    f.before("set_to(&mut $a, $i, $j*, $v);", " proof { somewhere(e, a, x, r0, sets0, m0, w1, r1, sets, nfa_map@, nfa_states_vec@, dfa_states@, src, b, dst_state_index as int, next_set0); } ", after=True); f.before("let dst_state_index = $x*;", " let ghost next_set0 = next_set@; proof { few(nfa_map); } ")
    f.src = "#[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] " + f.src; u.put(f)
    f = u.fn(DFA, "from", "<'a> From<&'a NFAState<'a>> for DFA"); common(f); f.rw("-> Self", "-> DFA"); f.rw("construct_dfa_with_state_mapping($s, None)", "construct_dfa_with_state_mapping($s, nfa)", note="the optional output parameter for debugging is dropped"); f.ghost_param("nfa: &NFA")
    f.contract("requires forall|t: int| #[trigger] nfa.a().contains_key(t) ==> nfa.a()[t] < u32::MAX ensures exists|sets: Seq<Set<int>>| dfa_ok(nfa.e(), nfa.a(), sid($0), r.states@, sets)"); f.start(); u.put(f, "DFA", "impl DFA")
    # ------------------------------------------------------------ one automaton per start state
    f = u.fn(LIB, "to_flex_pattern_dfa"); f.rw("let nfa = NFA::new();", "let mut nfa = NFA::new();", need=1, note="the arena is owned by the caller rather than behind shared references"); f.rw("HashMap::new()", "Defs::new()"); f.rw("&nfa", "&mut nfa")
    f.rw("$v.iter().flat_map(|$p| $q.state_set.iter().cloned()).collect::<HashSet<_>>().len()", "count_states($v)", need=1, note="the number of different states named, through a helper")
    f.rw("(0..$n).map(|_| nfa.new_state()).collect::<Vec<_>>()", "{ let mut __v: Vec<St> = Vec::new(); for __k in 0..$n { __v.push(nfa.new_state()); } __v }", need=1, note="a mapped range as a loop")
    f.rw("$v.into_iter().map(DFA::from).collect()", "{ let mut __d: Vec<DFA> = Vec::new(); for __s in &$v { __d.push(DFA::from(*__s, &nfa)); } __d }", need=1, note="a mapped list as a loop")
    f.rw("$a.accept_state.set_accept($v*);", "nfa.set_accept($a.accept_state, $v);", need=1); f.rw("$s[$i].add_transition($d*, Transition::Epsilon);", "nfa.add_transition($s[$i], $d, Transition::Epsilon);", need=1); f.rw("$n.name.clone()", "own(&$n.name)")
    f.rw("for &$v in &$x* {", "for __p in &$x { let $v = *__p;"); f.desugar(); f.ghost_param("Ghost(f): Ghost<nat>"); f.rw("build_nfa_from_regex_node($a*, &named_pattern_definitions);", "build_nfa_from_regex_node($a, &named_pattern_definitions, Ghost(f));")
    f.contract("""requires $0@.len() < u32::MAX, forall|i: int| 0 <= i < $0@.len() ==> in_range($0@, i) && SYN($0@[i].pattern@) is Some && sound(defs_of($1@, $1@.len()), f, PARSED((#[trigger] $0@[i]).pattern@)), forall|i: int| 0 <= i < $1@.len() ==> SYN((#[trigger] $1@[i]).definition@) is Some
      ensures r@.len() == STATES($0@), forall|q: int, w: Seq<u8>| 0 <= q < r@.len() ==> first_rule(rules_of(defs_of($1@, $1@.len()), f, $0@, $0@.len()), active($0@), q, w, #[trigger] verdict(r@[q].states@, w)), forall|q: int| 0 <= q < r@.len() ==> valid((#[trigger] r@[q]).states@)""")
    f.start("let ghost d = defs_of($1@, $1@.len()); let ghost at = active($0@); let ghost p = $0@; let ghost mut k: int = 0; let ghost mut ec = Set::<Edge>::empty(); ")
    f.loop(0, "invariant __i0 <= __e0, __e0 == $1@.len(), named_pattern_definitions@ == defs_of($1@, __i0 as nat), nfa.e() == Set::<Edge>::empty(), nfa.a() == Map::<int, u32>::empty(), nfa.n() == 0 decreases __e0 - __i0")
    f.loop(1, "invariant __i1 <= __e1, __e1 == num_state, __v@.len() == __i1, nfa.n() == __i1, nfa.e() == Set::<Edge>::empty(), nfa.a() == Map::<int, u32>::empty(), forall|q: int| 0 <= q < __v@.len() ==> sid(#[trigger] __v@[q]) == q decreases __e1 - __i1")
    base = "k == num_state, state_start_node@.len() == k, forall|q: int| 0 <= q < state_start_node@.len() ==> sid(#[trigger] state_start_node@[q]) == q, "
    f.loop(2, "invariant __i2 <= __e2, __e2 == $0@.len(), " + base + "inv(nfa.e(), nfa.a(), k, nfa.n(), rules_of(d, f, p, __i2 as nat), at) decreases __e2 - __i2",
      "let ghost e0 = nfa.e(); let ghost a0 = nfa.a(); let ghost mid = nfa.n(); let ghost ls = rules_of(d, f, p, __i2 as nat); proof { assert(in_range(p, __i2 as int)); }", 
      "proof { let l = meaning(d, f, PARSED(p[i as int].pattern@)); add_rule(e0, a0, k, mid, nfa.n(), ls, at, ec, l, nfa.e()); assert(ls.push(l) =~= rules_of(d, f, p, __i2 as nat)); }")
    f.before("let state_start_node = $x*;", " proof { k = num_state as int; assert(rules_of(d, f, p, 0) =~= Seq::empty()); assert forall|q: int, w: Seq<u8>, r: int| 0 <= q < k implies !#[trigger] hit(nfa.e(), nfa.a(), q, w, r) by {} } ", after=True)
    f.before("build_nfa_from_regex_node($x*);", " proof { ec = nfa.e().difference(e0); assert(nfa.e() =~= e0.union(ec)); }", after=True); f.before("let mut __i3", " let ghost e1 = nfa.e(); let ghost hi = nfa.n(); let ghost a1 = nfa.a(); ", optional=False)
    f.loop(3, "invariant __i3 <= __e3, __e3 == p[i as int].state_set@.len(), nfa.n() == hi, nfa.a() == a1, forall|g: Edge| #[trigger] nfa.e().contains(g) == (e1.contains(g) || exists|j: int| 0 <= j < __i3 && g == ep(p[i as int].state_set@[j] as int, mid)) decreases __e3 - __i3")
    f.loop(4, "invariant __i4 <= __e4, __e4 == state_start_node@.len(), __d@.len() == __i4, forall|q: int, w: Seq<u8>| 0 <= q < __i4 ==> first_rule(rules_of(d, f, p, p.len()), at, q, w, #[trigger] verdict(__d@[q].states@, w)), forall|q: int| 0 <= q < __i4 ==> valid((#[trigger] __d@[q]).states@) decreases __e4 - __i4", "",
      "proof { let q = (__i4 - 1) as int; let rs = __d@[q].states@; let sets = choose|sets: Seq<Set<int>>| dfa_ok(nfa.e(), nfa.a(), q, rs, sets); is_valid(nfa.e(), nfa.a(), q, rs, sets); assert forall|w: Seq<u8>| first_rule(rules_of(d, f, p, p.len()), at, q, w, #[trigger] verdict(rs, w)) by { gives_first(nfa.e(), nfa.a(), k, nfa.n(), rules_of(d, f, p, p.len()), at, q, rs, sets, w); } }")
    f.src = "#[verifier::loop_isolation(false)] " + f.src; u.put(f)
    f = u.fn(DFA, "match_bytes", "DFA"); f.rw("for &$v in $x {", "for __p in $x { let $v = *__p;"); f.desugar()
    f.contract("requires valid($0.states@) ensures exists|j: nat| matched($0.states@, $1@, j, r)"); f.start("let ghost rs = $0.states@; let ghost w = $1@; let ghost mut j: nat = 0; assert(w.take(0) =~= Seq::empty());")
    f.loop(0, "invariant_except_break j == __i0 invariant __i0 <= __e0, __e0 == w.len(), j <= w.len(), state < rs.len(), drun(rs, w.take(j as int)) == Some(state as int), accepted == longest(rs, w, j) ensures as_far(rs, w, j) decreases __e0 - __i0",
      "let ghost w1 = w.take((j + 1) as int); proof { assert(w1.drop_last() =~= w.take(j as int)); assert(w1.last() == w[j as int]); assert(to(rs, state as int, w1.last() as int) == rs[state as int].transitions@[w1.last() as int]); }", "proof { j = (j + 1) as nat; assert(verdict(rs, w1) == rs[state as int].accept_lexer_rule_id); }")
    f.before("let next_state = $s*.transitions[0];", " proof { let w0 = w.take(j as int).push(0u8); assert(w0.drop_last() =~= w.take(j as int)); assert(to(rs, state as int, 0) == rs[state as int].transitions@[0]); } "); f.before("accepted }", " proof { assert(matched(rs, w, j, accepted)); } ", optional=False)
    f.src = "#[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] " + f.src; u.put(f, "DFA", "impl DFA")
    return u
