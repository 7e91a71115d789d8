"""The LALR(1) generator itself: first sets, closure, merging of states, tables (C18)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, _gen
P = "crates/parser-generator/src/parser_generator/"; LALR = P + "lalr.rs"; BISON = P + "bison.rs"; IDM = P + "id_mapper.rs"
SHIM = r"""
global size_of usize == 8;
// names; tokens
#[verifier::external_body] pub struct Name { x: u8 }
pub uninterp spec fn name_of(s: Seq<char>) -> Name;
impl Name { #[verifier::external_body] pub fn new(s: &str) -> (r: Name) ensures r == name_of(s@) { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Name) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct TokenKind { x: u8 }
pub uninterp spec fn token_of(n: Name) -> TokenKind;
pub uninterp spec fn raw_of(n: Name) -> TokenKind;
impl TokenKind { #[verifier::external_body] pub fn from(n: &Name) -> (r: TokenKind) ensures r == token_of(*n) { unimplemented!() }
  #[verifier::external_body] pub fn raw(n: Name) -> (r: TokenKind) ensures r == raw_of(n) { unimplemented!() } }
// BTreeSet<ComponentId>, HashSet<ComponentId>
#[verifier::external_body] pub struct TSet { x: u8 }
impl TSet { pub uninterp spec fn view(&self) -> Set<int>;
  #[verifier::external_body] pub fn new() -> (r: TSet) ensures r@ == Set::<int>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn one(c: ComponentId) -> (r: TSet) ensures r@ == set![c.0 as int] { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: TSet) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn extend(&mut self, o: TSet) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
  #[verifier::external_body] pub fn extend_ref(&mut self, o: &TSet) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures self@.finite(), r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, c: &ComponentId) -> (r: bool) ensures r == self@.contains(c.0 as int) { unimplemented!() }
  #[verifier::external_body] pub fn same(&self, o: &TSet) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
  #[verifier::external_body] pub fn items(&self) -> (r: Vec<ComponentId>) ensures (forall|k: int| 0 <= k < r@.len() ==> self@.contains((#[trigger] r@[k]).0 as int)), forall|t: int| #[trigger] self@.contains(t) ==> exists|k: int| 0 <= k < r@.len() && (#[trigger] r@[k]).0 == t { unimplemented!() }
  #[verifier::external_body] pub fn empties(n: usize) -> (r: Vec<TSet>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k])@ == Set::<int>::empty() { unimplemented!() } }
// HashMap<ComponentId, bool>, HashMap<ComponentId, HashSet<ComponentId>>
#[verifier::external_body] pub struct NulMap { x: u8 }
impl NulMap { pub uninterp spec fn view(&self) -> Map<int, bool>;
  #[verifier::external_body] pub fn new() -> (r: NulMap) ensures r@ == Map::<int, bool>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: ComponentId, v: bool) ensures final(self)@ == old(self)@.insert(k.0 as int, v) { unimplemented!() }
  #[verifier::external_body] pub fn set_at(&mut self, k: &ComponentId, v: bool) requires old(self)@.contains_key(k.0 as int) ensures final(self)@ == old(self)@.insert(k.0 as int, v) { unimplemented!() }
  #[verifier::external_body] pub fn at(&self, k: &ComponentId) -> (r: bool) requires self@.contains_key(k.0 as int) ensures r == self@[k.0 as int] { unimplemented!() } }
#[verifier::external_body] pub struct FirstMap { x: u8 }
impl FirstMap { pub uninterp spec fn view(&self) -> Map<int, Set<int>>;
  #[verifier::external_body] pub fn new() -> (r: FirstMap) ensures r@ == Map::<int, Set<int>>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: ComponentId, v: TSet) ensures final(self)@ == old(self)@.insert(k.0 as int, v@) { unimplemented!() }
  #[verifier::external_body] pub fn extend_at(&mut self, k: &ComponentId, v: TSet) requires old(self)@.contains_key(k.0 as int) ensures final(self)@ == old(self)@.insert(k.0 as int, old(self)@[k.0 as int].union(v@)) { unimplemented!() }
  #[verifier::external_body] pub fn at(&self, k: &ComponentId) -> (r: &TSet) requires self@.contains_key(k.0 as int) ensures r@ == self@[k.0 as int] { unimplemented!() } }
"""
LINK = r"""
pub open spec fn gram(l: Lalr) -> G { G { rules: l.rules@, comps: l.id_mapper.components@, end: l.end_rule_component_id.0 as int } }
pub open spec fn frame(a: Lalr, b: Lalr) -> bool { a.id_mapper == b.id_mapper && a.assoc == b.assoc && a.rules == b.rules && a.rule_indices_by_name_id == b.rule_indices_by_name_id && a.accept_rule_component_id == b.accept_rule_component_id && a.accept_rule_component == b.accept_rule_component && a.end_rule_component_id == b.end_rule_component_id && a.end_rule_component == b.end_rule_component && a.state_set == b.state_set && a.action_table == b.action_table && a.goto_table == b.goto_table && a.all_terminal == b.all_terminal }
pub open spec fn blank(g: G, f: Seq<TSet>, n: Seq<bool>, r: int) -> bool { f.len() == ln(g, r) + 1 && n.len() == ln(g, r) + 1 && forall|d: int| 0 <= d <= ln(g, r) ==> (#[trigger] f[d])@ == Set::<int>::empty() && n[d] }
// the first sets the generator keeps are right
pub open spec fn firsts_ok(l: Lalr) -> bool { let g = gram(l); dom_ok(g, l.first_set@.dom()) && (forall|y: int, a: int| #![trigger l.first_set@[y].contains(a)] l.first_set@.contains_key(y) ==> l.first_set@[y].contains(a) == first(g, y, a)) && l.first_set_after@.len() == nr(g) && l.nullable@.len() == nr(g) && rows_ok(g, l.first_set_after@, l.nullable@, nr(g)) }
"""
SHIM2 = r"""
// HashMap<usize, usize>, VecDeque<usize>
#[verifier::external_body] pub struct IdxMap { x: u8 }
impl IdxMap { pub uninterp spec fn view(&self) -> Map<int, usize>;
  #[verifier::external_body] pub fn new() -> (r: IdxMap) ensures r@ == Map::<int, usize>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: usize, v: usize) ensures final(self)@ == old(self)@.insert(k as int, v) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &usize) -> (r: Option<&usize>) ensures (match r { Some(v) => self@.contains_key(*k as int) && *v == self@[*k as int], None => !self@.contains_key(*k as int) }) { unimplemented!() } }
#[verifier::external_body] pub struct IdxQ { x: u8 }
impl IdxQ { pub uninterp spec fn view(&self) -> Seq<usize>;
  #[verifier::external_body] pub fn new() -> (r: IdxQ) ensures r@.len() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn upto(n: usize) -> (r: IdxQ) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == k { unimplemented!() }
  #[verifier::external_body] pub fn push_back(&mut self, v: usize) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
  #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<usize>) ensures (match r { Some(v) => old(self)@.len() > 0 && v == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }) { unimplemented!() } }
// BTreeSet<(ComponentId, usize)>, HashSet<usize>
#[verifier::external_body] pub struct EdgeSet { x: u8 }
impl EdgeSet { pub uninterp spec fn view(&self) -> Set<(int, int)>;
  #[verifier::external_body] pub fn new() -> (r: EdgeSet) ensures r@ == Set::<(int, int)>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, e: (ComponentId, usize)) ensures final(self)@ == old(self)@.insert((e.0.0 as int, e.1 as int)) { unimplemented!() }
  #[verifier::external_body] pub fn items(&self) -> (r: Vec<(ComponentId, usize)>) ensures (forall|k: int| 0 <= k < r@.len() ==> self@.contains(pair(#[trigger] r@[k]))), forall|x: int, t: int| #[trigger] self@.contains((x, t)) ==> exists|k: int| 0 <= k < r@.len() && pair(#[trigger] r@[k]) == (x, t) { unimplemented!() } }
pub open spec fn pair(e: (ComponentId, usize)) -> (int, int) { (e.0.0 as int, e.1 as int) }
#[verifier::external_body] pub struct NumSet { x: u8 }
impl NumSet { pub uninterp spec fn view(&self) -> Set<int>;
  #[verifier::external_body] pub fn new() -> (r: NumSet) ensures r@ == Set::<int>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: usize) ensures final(self)@ == old(self)@.insert(k as int) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: &usize) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k as int), r == old(self)@.contains(*k as int) { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, k: &usize) -> (r: bool) ensures r == self@.contains(*k as int) { unimplemented!() } }
// HashMap<(usize, ComponentId), Action>, HashMap<(usize, ComponentId), usize>, BTreeMap<ComponentId, Vec<Item>>
#[verifier::external_body] pub struct ActMap { x: u8 }
impl ActMap { pub uninterp spec fn view(&self) -> Map<(int, int), Action>;
  #[verifier::external_body] pub fn new() -> (r: ActMap) ensures r@ == Map::<(int, int), Action>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: (usize, ComponentId), v: Action) ensures final(self)@ == old(self)@.insert(key(k), v) { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, k: &(usize, ComponentId)) -> (r: bool) ensures r == self@.contains_key(key(*k)) { unimplemented!() } }
pub open spec fn key(k: (usize, ComponentId)) -> (int, int) { (k.0 as int, k.1.0 as int) }
#[verifier::external_body] pub struct GotoMap { x: u8 }
impl GotoMap { pub uninterp spec fn view(&self) -> Map<(int, int), usize>;
  #[verifier::external_body] pub fn new() -> (r: GotoMap) ensures r@ == Map::<(int, int), usize>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: (usize, ComponentId), v: usize) ensures final(self)@ == old(self)@.insert(key(k), v) { unimplemented!() } }
#[verifier::external_body] pub struct NextMap { x: u8 }
impl NextMap { pub uninterp spec fn view(&self) -> Map<int, Seq<Item>>;
  #[verifier::external_body] pub fn new() -> (r: NextMap) ensures r@ == Map::<int, Seq<Item>>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn push_at(&mut self, k: ComponentId, v: Item) ensures final(self)@ == with(old(self)@, k.0 as int, v) { unimplemented!() }
  #[verifier::external_body] pub fn pop_first(&mut self) -> (r: Option<(ComponentId, Vec<Item>)>) ensures (match r { Some(e) => old(self)@.contains_key(e.0.0 as int) && e.1@ == old(self)@[e.0.0 as int] && final(self)@ == old(self)@.remove(e.0.0 as int), None => old(self)@ == Map::<int, Seq<Item>>::empty() && final(self)@ == old(self)@ }) { unimplemented!() } }
#[verifier::external_body] pub fn sort_items(v: &mut Vec<Item>) ensures exists|p: Seq<int>| #[trigger] arranged(old(v)@, final(v)@, p), ordered(final(v)@) { unimplemented!() }
"""
BYNAME = r"""
// the lists of rules by left side; every rule but the added one is in its list
pub open spec fn by_name(l: Lalr, y: int) -> bool { let g = gram(l); let v = l.rule_indices_by_name_id@[y]@; (forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]) < nr(g) - 1 && lh(g, v[k] as int) == y) && forall|r: int| 0 <= r < nr(g) - 1 && #[trigger] prod(g, y, r) ==> exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == r }
pub open spec fn lists_ok(l: Lalr) -> bool { l.rule_indices_by_name_id@.len() == gram(l).comps.len() && forall|y: int| 0 <= y < gram(l).comps.len() ==> #[trigger] by_name(l, y) }
pub open spec fn gen_ok(l: Lalr) -> bool { wf(gram(l)) && live(gram(l)) && firsts_ok(l) && lists_ok(l) }
pub open spec fn dm(l: Lalr) -> Set<int> { l.first_set@.dom() }
proof fn all_done(l: Lalr, s: Seq<Item>, x: Map<int, usize>, it: Item, v: Seq<usize>, j: int) requires wf(gram(l)), rl(gram(l), it.rule_index as int), it.dot_pos < ln(gram(l), it.rule_index as int), lists_ok(l), v == l.rule_indices_by_name_id@[sy(gram(l), it.rule_index as int, it.dot_pos as int)]@, part(gram(l), s, x, it, v, v.len() as int), alike(s[j], it), s[j].lookahead@ == it.lookahead@ ensures donej(gram(l), s, x, j)
{ let g = gram(l); let r2 = it.rule_index as int; let d2 = it.dot_pos as int; let y = sy(g, r2, d2); assert(rule_ok(g, r2)); assert(sym_ok(g, r2, d2)); assert(by_name(l, y)); same_gives(g, it, s[j]);
  assert forall|r: int| #[trigger] before(g, r, s[j].rule_index as int, s[j].dot_pos as int) implies rule_done(g, s, x, s[j], r) by { assert(prod(g, y, r)); let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k] == r; assert(rule_done(g, s, x, it, v[k] as int)); } }
proof fn nothing(g: G, s: Seq<Item>, x: Map<int, usize>, j: int) requires wf(g), rl(g, s[j].rule_index as int), s[j].dot_pos < ln(g, s[j].rule_index as int) ==> forall|r: int| !#[trigger] prod(g, sy(g, s[j].rule_index as int, s[j].dot_pos as int), r) ensures donej(g, s, x, j) { assert forall|r: int| #[trigger] before(g, r, s[j].rule_index as int, s[j].dot_pos as int) implies rule_done(g, s, x, s[j], r) by { assert(prod(g, sy(g, s[j].rule_index as int, s[j].dot_pos as int), r)); } }
proof fn no_rules(g: G, y: int) requires wf(g), 0 <= y < g.comps.len(), term(g, y) ensures forall|r: int| !#[trigger] prod(g, y, r) { assert forall|r: int| !#[trigger] prod(g, y, r) by { if prod(g, y, r) { assert(rule_ok(g, r)); } } }
"""
NEWSHIM = r"""
impl Component { #[verifier::external_body] pub fn clone(&self) -> (r: Component) ensures r == *self { unimplemented!() } }
impl Assoc { #[verifier::external_body] pub fn clone(&self) -> (r: Assoc) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn clone_opt(o: &Option<Assoc>) -> (r: Option<Assoc>) ensures r == *o { unimplemented!() }
#[verifier::external_body] pub fn nones(n: usize) -> (r: Vec<Option<Assoc>>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k]) is None { unimplemented!() }
#[verifier::external_body] pub fn lists_of(n: usize) -> (r: Vec<Vec<usize>>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k])@.len() == 0 { unimplemented!() }
// HashMap<Component, ComponentId>, HashMap<String, Assoc>; the maps of declarations that are not used
#[verifier::external_body] pub struct CompMap { x: u8 }
impl CompMap { pub uninterp spec fn view(&self) -> Map<Component, ComponentId>;
  #[verifier::external_body] pub fn new() -> (r: CompMap) ensures r@ == Map::<Component, ComponentId>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, c: &Component) -> (r: bool) ensures r == self@.contains_key(*c) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, c: &Component) -> (r: Option<&ComponentId>) ensures (match r { Some(v) => self@.contains_key(*c) && *v == self@[*c], None => !self@.contains_key(*c) }) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, c: Component, v: ComponentId) ensures final(self)@ == old(self)@.insert(c, v) { unimplemented!() } }
#[verifier::external_body] pub struct AssocMap { x: u8 }
impl AssocMap { pub uninterp spec fn view(&self) -> Map<Name, Assoc>;
  #[verifier::external_body] pub fn entries(&self) -> (r: Vec<(&Name, &Assoc)>) ensures (forall|k: int| 0 <= k < r@.len() ==> self@.contains_key(*(#[trigger] r@[k]).0) && self@[*r@[k].0] == *r@[k].1), forall|n: Name| #[trigger] self@.contains_key(n) ==> exists|k: int| 0 <= k < r@.len() && *(#[trigger] r@[k]).0 == n { unimplemented!() } }
#[verifier::external_body] pub struct Other { x: u8 }
// sort, sort_by_key, dedup
pub open spec fn same_members(a: Seq<Component>, b: Seq<Component>) -> bool { forall|c: Component| #![trigger a.contains(c)] #![trigger b.contains(c)] a.contains(c) == b.contains(c) }
pub open spec fn distinct_all(a: Seq<Component>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] a[i] != #[trigger] a[j] }
pub open spec fn together(a: Seq<Component>) -> bool { forall|i: int, j: int, k: int| 0 <= i < j < k < a.len() && #[trigger] a[i] == #[trigger] a[k] ==> #[trigger] a[j] == a[i] }
pub open spec fn picks(a: Seq<Component>, b: Seq<Component>, p: Seq<int>) -> bool { p.len() == b.len() && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < a.len() && b[i] == a[p[i]]) }
pub open spec fn rising(p: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] < #[trigger] p[j] }
pub open spec fn injective(p: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j] }
#[verifier::external_body] pub fn sort_comps(v: &mut Vec<Component>) ensures same_members(old(v)@, final(v)@), together(final(v)@) { unimplemented!() }
#[verifier::external_body] pub fn dedup_comps(v: &mut Vec<Component>) ensures same_members(old(v)@, final(v)@), exists|p: Seq<int>| #[trigger] picks(old(v)@, final(v)@, p) && rising(p), forall|i: int| 0 <= i < final(v)@.len() - 1 ==> #[trigger] final(v)@[i] != final(v)@[i + 1] { unimplemented!() }
#[verifier::external_body] pub fn sort_comps_by_identifier(v: &mut Vec<Component>) ensures same_members(old(v)@, final(v)@), exists|p: Seq<int>| #[trigger] picks(old(v)@, final(v)@, p) && injective(p) { unimplemented!() }
proof fn no_twins(a: Seq<Component>, b: Seq<Component>, p: Seq<int>) requires together(a), picks(a, b, p), rising(p), forall|i: int| 0 <= i < b.len() - 1 ==> #[trigger] b[i] != b[i + 1] ensures distinct_all(b)
{ assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by { if b[i] == b[j] { assert(b[i] != b[i + 1]); assert(p[i] < p[i + 1]); if i + 1 < j { assert(p[i + 1] < p[j]); assert(a[p[i]] == a[p[j]]); assert(a[p[i + 1]] == a[p[i]]); } } } }
proof fn still_distinct(a: Seq<Component>, b: Seq<Component>, p: Seq<int>) requires distinct_all(a), picks(a, b, p), injective(p) ensures distinct_all(b)
{ assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by { assert(p[i] != p[j]); if p[i] < p[j] { assert(a[p[i]] != a[p[j]]); } else { assert(a[p[j]] != a[p[i]]); } } }
"""
NEW = r"""
// the symbols of a grammar file
pub open spec fn accept_name() -> Name { name_of("$accept"@) }
pub open spec fn end_token() -> TokenKind { raw_of(name_of("$end"@)) }
pub open spec fn named(b: Bison, c: Component, r: int) -> bool { 0 <= r < b.rules@.len() && c == Component::NonTerminal(b.rules@[r].name) }
pub open spec fn occurs(b: Bison, c: Component, r: int, d: int) -> bool { 0 <= r < b.rules@.len() && 0 <= d < b.rules@[r].components@.len() && b.rules@[r].components@[d] == c && c is Terminal }
pub open spec fn declared(b: Bison, c: Component, n: Name) -> bool { b.assoc@.contains_key(n) && c == Component::Terminal(token_of(n)) }
pub open spec fn is_symbol(b: Bison, c: Component) -> bool { c == Component::NonTerminal(accept_name()) || c == Component::Terminal(end_token()) || (exists|r: int| #[trigger] named(b, c, r)) || (exists|r: int, d: int| #[trigger] occurs(b, c, r, d)) || (exists|n: Name| #[trigger] declared(b, c, n)) }
pub open spec fn holds_symbols(b: Bison, t: Set<Component>) -> bool { (forall|c: Component| #[trigger] is_symbol(b, c) ==> t.contains(c)) && t.len() <= 0x10000 }
pub open spec fn part_ok(b: Bison, r: int, d: int) -> bool { match b.rules@[r].components@[d] { Component::NonTerminal(n) => n != accept_name() && exists|k: int| #[trigger] named(b, b.rules@[r].components@[d], k), _ => true } }
pub open spec fn file_rule(b: Bison, r: int) -> bool { let u = b.rules@[r]; u.name != accept_name() && u.components@.len() <= 0x3FFF_FFFF && (forall|d: int| 0 <= d < u.components@.len() ==> #[trigger] part_ok(b, r, d)) && (u.prec is Some ==> is_symbol(b, Component::Terminal(token_of(u.prec->Some_0)))) }
pub open spec fn file_ok(b: Bison) -> bool { 1 <= b.rules@.len() < usize::MAX && (exists|t: Set<Component>| #[trigger] holds_symbols(b, t)) && forall|r: int| 0 <= r < b.rules@.len() ==> #[trigger] file_rule(b, r) }
// numbers of symbols
pub open spec fn numbered(m: IdMapper) -> bool { let s = m.components@; s.len() <= 0x10000 && m.component_map@.len() == s.len()
  && (forall|i: int| 0 <= i < s.len() ==> m.component_map@.contains_key(#[trigger] s[i]) && m.component_map@[s[i]].0 == i)
  && (forall|c: Component| #[trigger] m.component_map@.contains_key(c) ==> m.component_map@[c].0 < s.len() && s[m.component_map@[c].0 as int] == c) }
pub open spec fn num(m: IdMapper, c: Component) -> int { m.component_map@[c].0 as int }
pub open spec fn has_num(m: IdMapper, c: Component, i: int) -> bool { 0 <= i < m.components@.len() && m.components@[i] == c }
pub open spec fn level(b: Bison, c: Component, o: Option<Assoc>) -> bool { match o { Some(a) => exists|n: Name| #[trigger] declared(b, c, n) && b.assoc@[n] == a, None => forall|n: Name| !#[trigger] declared(b, c, n) } }
pub open spec fn last_term(u: Rule, d: int) -> bool { 0 <= d < u.components@.len() && u.components@[d] is Terminal && forall|k: int| d < k < u.components@.len() ==> !((#[trigger] u.components@[k]) is Terminal) }
pub open spec fn prio_of(m: IdMapper, a: Seq<Option<Assoc>>, u: Rule, o: Option<Assoc>) -> bool { match u.prec { Some(p) => o == a[num(m, Component::Terminal(token_of(p)))], None => (exists|d: int| #[trigger] last_term(u, d) && o == a[num(m, u.components@[d])]) || ((forall|d: int| 0 <= d < u.components@.len() ==> !((#[trigger] u.components@[d]) is Terminal)) && o is None) } }
pub open spec fn parts_read(m: IdMapper, u: Rule, v: Seq<ComponentId>) -> bool { v.len() == u.components@.len() && forall|d: int| 0 <= d < v.len() ==> has_num(m, u.components@[d], (#[trigger] v[d]).0 as int) }
pub open spec fn rule_read(m: IdMapper, a: Seq<Option<Assoc>>, u: Rule, x: LalrRule) -> bool { has_num(m, Component::NonTerminal(u.name), x.name_id.0 as int) && parts_read(m, u, x.components@) && prio_of(m, a, u, x.reduce_priority) }
pub open spec fn rules_read(b: Bison, m: IdMapper, a: Seq<Option<Assoc>>, x: Seq<LalrRule>) -> bool { x.len() <= b.rules@.len() && forall|r: int| 0 <= r < x.len() ==> rule_read(m, a, b.rules@[r], #[trigger] x[r]) }
pub open spec fn all_listed(b: Bison, t: Seq<Component>) -> bool { forall|c: Component| #[trigger] t.contains(c) == (is_symbol(b, c) && c is Terminal) }
// the generator's grammar is the file's
pub open spec fn reads(b: Bison, l: Lalr) -> bool { let m = l.id_mapper; numbered(m) && (forall|c: Component| #[trigger] m.component_map@.contains_key(c) == is_symbol(b, c)) && l.rules@.len() == b.rules@.len() && rules_read(b, m, l.assoc@, l.rules@) && l.assoc@.len() == m.components@.len() && (forall|i: int| 0 <= i < l.assoc@.len() ==> level(b, m.components@[i], #[trigger] l.assoc@[i]))
  && has_num(m, Component::NonTerminal(accept_name()), l.accept_rule_component_id.0 as int) && has_num(m, Component::Terminal(end_token()), l.end_rule_component_id.0 as int) && forall|i: int| 0 <= i < m.components@.len() ==> #[trigger] terminal(l, i) == (m.components@[i] is Terminal) }
"""
def norm(t): return re.sub(r"\s+", " ", re.sub(r"//[^\n]*", "", re.sub(r"#\[[^\]]*\]", "", t)))
def types(u):
    def sub(t):
        for a, b in (("HashMap<ComponentId, Vec<ComponentId>>", "FirstMap"), ("HashMap<(usize, ComponentId), Action>", "ActMap"), ("HashMap<(usize, ComponentId), usize>", "GotoMap"), ("BTreeSet<(ComponentId, usize)>", "EdgeSet"), ("BTreeSet<ComponentId>", "TSet"), ("HashMap<usize, usize>", "IdxMap"), ("HashSet<usize>", "NumSet"), ("HashMap<Component, ComponentId>", "CompMap"), ("HashMap<String, Assoc>", "AssocMap"), ("HashMap<String, String>", "Other"), ("HashMap<String, Option<String>>", "Other"), ("String", "Name")): t = t.replace(a, b)
        return t
    u.add("#[derive(Clone, Copy)] " + norm(u.item(BISON, "struct", "ComponentId").text)); u.add(sub(norm(u.item(BISON, "enum", "Component").text))); u.add("#[derive(Clone, Copy)] " + norm(u.item(BISON, "enum", "AssocDirective").text)); u.add(sub(norm(u.item(BISON, "struct", "Assoc").text))); u.add("#[derive(Clone, Copy)] " + norm(u.item(BISON, "enum", "Action").text))
    u.add(sub(norm(u.item(BISON, "struct", "Rule").text))); u.add(sub(norm(u.item(BISON, "struct", "Bison").text))); m = sub(norm(u.item(IDM, "struct", "IdMapper").text)).replace("component_map:", "pub component_map:").replace("pub pub", "pub"); u.add(m)
    for n in ("LalrRule", "Lalr", "Item", "State", "StateSet"): u.add(sub(norm(u.item(LALR, "struct", n).text)))
LOOSE = "#[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] "
def common(f):
    f.rw("for &$v in &$x* {", "for __p in &$x { let $v = *__p;"); f.rw("$u |= $x*;", "$u = ($x) || $u;", note="`|=` of flags evaluated left operand last"); f.rw("self.$a[$i][$j] &= $x*;", "self.$a[$i][$j] = self.$a[$i][$j] && $x;")
    f.rw("HashSet::from([$x*])", "TSet::one($x)"); f.rw("BTreeSet::from([$x*])", "TSet::one($x)"); f.rw("HashSet::new()", "TSet::new()")
    f.rw("for $v in (0..$b*).rev() {", "let mut __r: usize = $b; while __r > 0 { __r = __r - 1; let $v = __r;", note="a reversed range as a while loop counting down")
def build(u):
    types(u); u.add(SHIM);  u.add(SHIM2); u.add(NEWSHIM)
    u.add("//@fn theory\n" + _gen.GRAM + _gen.FIRST + LINK + _gen.CLOS + BYNAME + _gen.MERGE + _gen.VALID + _gen.AUTO + _gen.EXACT + _gen.TABLES + _gen.GROUP + NEW + "\n//@end")
    first_sets(u); closure(u); merging(u); tables(u); mapper(u); new(u)
    return u
def first_sets(u):
    f = u.fn(LALR, "build_first_set", "Lalr")
    f.rw("let mut nullable: HashMap<ComponentId, bool> = HashMap::new();", "let mut nullable = NulMap::new();", need=1); f.rw("let mut first_set: HashMap<ComponentId, HashSet<ComponentId>> = HashMap::new();", "let mut first_set = FirstMap::new();", need=1); common(f)
    f.rw("first_set.get_mut($k*).unwrap().extend($s);", "first_set.extend_at($k, $s);"); f.rw("*nullable.get_mut($k*).unwrap() = $v;", "nullable.set_at($k, $v);"); f.rw("first_set[&$x*]", "first_set.at(&$x)"); f.rw("nullable[&$x*]", "nullable.at(&$x)"); f.rw("self.first_set = first_set.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect();", "self.first_set = first_set;", note="sets turned into lists of the same members: kept as sets")
    f.rw("vec![Default::default(); $n*]", "TSet::empties($n)")
    for n, t in (("first_set_after", "TSet"), ("nullable", "bool")): f.rw("self.%s = $a*.iter().map(|$r| $b*).collect();" % n, "self.%s = { let mut __v: Vec<Vec<%s>> = Vec::new(); let mut __k: usize = 0; while __k < $a.len() { let $r = &$a[__k]; __k = __k + 1; __v.push($b); } __v };" % (n, t), need=1, note="`map` and `collect` as a loop")
    f.desugar()
    f.contract("requires wf(gram(*old($0))) ensures frame(*final($0), *old($0)), firsts_ok(*final($0))")
    f.start("let ghost l0 = *$0; let ghost g = gram(*$0); let ghost mut nu0 = Map::<int, bool>::empty(); let ghost mut fi0 = Map::<int, Set<int>>::empty(); let ghost mut f1 = Map::<int, Set<int>>::empty(); ")
    f.before("loop {", "proof { init_sound(g, nullable@, first_set@); } ", nth=0); f.before("self.first_set_after = {", "proof { finished(g, nullable@, first_set@); } ", nth=0)
    f.rw("nullable.insert($k, true);", "nullable.set_at(&$k, true);"); f.before("nullable.set_at($x*);", "proof { add_nul(g, nullable@, first_set@, ri as int); } "); f.before("while i < $x* {", "proof { assert(first_set@ =~= f1.insert(lh(g, ri as int), first_set@[lh(g, ri as int)])); } ", nth=0)
    f.before("first_set.extend_at($x*);", " proof { assert(first_set@ =~= f1.insert(lh(g, ri as int), first_set@[lh(g, ri as int)])); } ", after=True)
    f.loop(0, "invariant __i0 <= __e0, __e0 == nr(g), init(g, nullable@, first_set@), first_set@.contains_key(g.end), forall|r: int| 0 <= r < __i0 ==> #[trigger] has_rule(g, first_set@.dom(), r) decreases __e0 - __i0", "proof { assert(rule_ok(g, __i0 as int)); } let ghost d0 = first_set@.dom(); ", "proof { assert forall|r: int| 0 <= r < __i0 implies #[trigger] has_rule(g, first_set@.dom(), r) by { if r < __i0 - 1 { assert(has_rule(g, d0, r)); } } } ")
    f.loop(1, "invariant __i1 <= __e1, __e1 == ln(g, i as int), init(g, nullable@, first_set@), d0.subset_of(first_set@.dom()), first_set@.contains_key(lh(g, i as int)), forall|k: int| 0 <= k < __i1 && term(g, #[trigger] sy(g, i as int, k)) ==> first_set@.contains_key(sy(g, i as int, k)) decreases __e1 - __i1", "proof { assert(sym_ok(g, i as int, __i1 as int)); }")
    f.loop(2, "invariant sound(g, nullable@, first_set@) ensures sound(g, nullable@, first_set@), all_stable(g, nullable@, first_set@)", "proof { nu0 = nullable@; fi0 = first_set@; } ")
    f.loop(3, "invariant __i2 <= __e2, __e2 == nr(g), sound(g, nullable@, first_set@), !updated ==> forall|r: int| 0 <= r < __i2 ==> #[trigger] stable(g, nullable@, first_set@, r) decreases __e2 - __i2", "proof { in_d(g, first_set@.dom(), __i2 as int); f1 = first_set@; nu0 = nullable@; } let ghost up0 = updated; ", """proof { if !updated { let y = lh(g, ri as int); assert(entry(g, nullable@, first_set@, y)); same_size(f1[y], first_set@[y]); assert(first_set@ =~= f1); assert(stable(g, nullable@, first_set@, ri as int));
      assert forall|r: int| 0 <= r < __i2 implies #[trigger] stable(g, nullable@, first_set@, r) by { if r < __i2 - 1 { assert(stable(g, nu0, f1, r)); } } } } """)
    f.loop(4, "invariant 0 <= i <= ln(g, ri as int), nullable@ == nu0, sound(g, nullable@, first_set@), grown(g, f1, first_set@, rule_id.0 as int), prev_len == f1[rule_id.0 as int].len(), all_nu(g, nu0, ri as int, i as int), forall|k: int| 0 <= k < i ==> f1[#[trigger] sy(g, ri as int, k)].subset_of(first_set@[rule_id.0 as int]) ensures 0 <= i <= ln(g, ri as int), nullable@ == nu0, sound(g, nullable@, first_set@), grown(g, f1, first_set@, rule_id.0 as int), all_nu(g, nu0, ri as int, i as int), i < ln(g, ri as int) ==> !nu0[sy(g, ri as int, i as int)], forall|k: int| 0 <= k <= i && k < ln(g, ri as int) ==> f1[#[trigger] sy(g, ri as int, k)].subset_of(first_set@[rule_id.0 as int]) decreases ln(g, ri as int) - i", "proof { in_d(g, first_set@.dom(), ri as int); add_first(g, nullable@, first_set@, ri as int, i as int); } ")
    f.loop(5, "invariant __k <= nr(g), __v@.len() == __k, forall|r: int| 0 <= r < __k ==> (#[trigger] __v@[r])@.len() == ln(g, r) + 1 && forall|d: int| 0 <= d <= ln(g, r) ==> (#[trigger] __v@[r]@[d])@ == Set::<int>::empty() decreases nr(g) - __k", "proof { assert(rule_ok(g, __k as int)); } ")
    f.loop(6, "invariant __k <= nr(g), __v@.len() == __k, forall|r: int| 0 <= r < __k ==> (#[trigger] __v@[r])@.len() == ln(g, r) + 1 && forall|d: int| 0 <= d <= ln(g, r) ==> #[trigger] __v@[r]@[d] decreases nr(g) - __k", "proof { assert(rule_ok(g, __k as int)); } ")
    after = "forall|r: int| __i3 <= r < nr(g) ==> blank(g, $0.first_set_after@[r]@, $0.nullable@[r]@, r)"
    f.loop(7, "invariant __i3 <= __e3, __e3 == nr(g), frame(*$0, l0), $0.first_set_after@.len() == nr(g), $0.nullable@.len() == nr(g), rows_ok(g, $0.first_set_after@, $0.nullable@, __i3 as int), " + after.replace("blank(", "#[trigger] blank(") + " decreases __e3 - __i3", "proof { assert(blank(g, $0.first_set_after@[__i3 as int]@, $0.nullable@[__i3 as int]@, __i3 as int)); in_d(g, first_set@.dom(), __i3 as int); tail_end(g, __i3 as int, $0.first_set_after@[__i3 as int]@[ln(g, __i3 as int)]@); } ")
    R = "$0.first_set_after@[i as int]@"; N = "$0.nullable@[i as int]@"
    f.loop(8, "invariant 0 <= __r <= ln(g, i as int), frame(*$0, l0), $0.first_set_after@.len() == nr(g), $0.nullable@.len() == nr(g), rows_ok(g, $0.first_set_after@, $0.nullable@, i as int), " + after.replace("blank(", "#[trigger] blank(") + ", R.len() == ln(g, i as int) + 1, N.len() == R.len(), forall|d: int| 0 <= d < __r ==> (#[trigger] R[d])@ == Set::<int>::empty() && N[d], forall|d: int| __r <= d <= ln(g, i as int) ==> #[trigger] tail_ok(g, R[d]@, N[d], i as int, d) decreases __r".replace("R[", R + "[").replace("N[", N + "[").replace("R.", R + ".").replace("N.", N + "."),
      "let ghost y = sy(g, i as int, __r - 1); proof { in_d(g, first_set@.dom(), i as int); assert(first_set@.contains_key(y)); assert(tail_ok(g, R[__r as int]@, N[__r as int], i as int, __r as int)); tail_step(g, R[__r as int]@, N[__r as int], i as int, __r - 1, first_set@[y]); in_d(g, first_set@.dom(), i as int); assert(first_set@.contains_key(y)); assert(nullable@[y] == isnul(g, y)); } ".replace("R[", R + "[").replace("N[", N + "["))
    f.src = LOOSE + f.src; u.put(f, "Lalr", "impl Lalr")

def closure(u):
    f = u.fn(LALR, "insert_lookaheads", "Item"); f.rw("BTreeSet<ComponentId>", "TSet"); f.rw("self.lookahead.extend(lookaheads);", "self.lookahead.extend_ref(lookaheads);"); f.contract("ensures alike(*final(self), *old(self)), final(self).lookahead@ == old(self).lookahead@.union(lookaheads@), r == (final(self).lookahead@ != old(self).lookahead@)"); f.start("let ghost t0 = self.lookahead@; ")
    f.before("self.lookahead.len() != prev_len", "proof { if self.lookahead@.finite() && t0.finite() && self.lookahead@.len() == t0.len() { same_size(t0, self.lookahead@); } } ", nth=-1); u.put(f, "Item", "impl Item")
    f = u.fn(LALR, "push_item", "State"); f.contract("ensures final(self).items@ == old(self).items@.push(item), final(self).edge == old(self).edge, final(self).item_indices@ == if item.dot_pos == 0 { old(self).item_indices@.insert(item.rule_index as int, old(self).items@.len() as usize) } else { old(self).item_indices@ }".replace("{", "{")); u.put(f, "State", "impl State")
    f = u.fn(LALR, "closure", "Lalr"); common(f)
    f.rw("VecDeque::from_iter(0..$x*)", "IdxQ::upto($x)", need=1); f.rw("state.items.sort_by_key(|$i| ($i.rule_index, $i.dot_pos));", "sort_items(&mut state.items);", need=1)
    f.rw("self.first_set[$x*]", "self.first_set.at($x)"); f.rw("$s.items[$k*].lookahead.iter().for_each(|$c| $b*);", "let __l = $s.items[$k].lookahead.items(); for $c in __l.iter() { $b; }", note="`for_each` as a loop"); f.rw("self.rule_indices_by_name_id[$k*].iter().for_each(|&$c| $b*);", "let __w = &self.rule_indices_by_name_id[$k]; for __p in __w.iter() { let $c = *__p; $b }", note="`for_each` as a loop")
    f.rw("if let Some(&$j) = $x {", "if let Some(__q) = $x { let $j = *__q;"); f.while_let(); f.desugar()
    f.contract("requires gen_ok(*old($0)), kernel(gram(*old($0)), dm(*old($0)), old(state).items@), old(state).item_indices@ == Map::<int, usize>::empty() ensures *final($0) == *old($0), final(state).edge == old(state).edge, closure_of(gram(*old($0)), dm(*old($0)), old(state).items@, final(state).items@)")
    f.start("let ghost g = gram(*$0); let ghost dmm = dm(*$0); let ghost k0 = state.items@; let ghost ed0 = state.edge; let ghost mut it0 = arbitrary::<Item>(); let ghost mut q0 = Seq::<usize>::empty(); ")
    S = "state.items@, state.item_indices@"
    f.before("loop {", "let ghost mut m0 = Seq::<bool>::empty(); let ghost mut j0 = 0int; let ghost mut gw = Seq::<usize>::empty(); proof { started(g, dmm, S, in_deq@, deq@); } ".replace("S,", S + ","), nth=0)
    f.before("in_deq[j] = false;", "proof { popped(q0, deq@, j); m0 = in_deq@; pop_step(g, dmm, k0, S, m0, q0, deq@, j); it0 = state.items@[j as int]; j0 = j as int; } ".replace("S,", S + ","), nth=0)
    f.before("let component_id", "proof { in_d(g, dmm, rule_index as int); assert(sym_ok(g, rule_index as int, dot_pos as int)); } ", nth=0)
    f.before("continue;", "proof { if dot_pos < ln(g, rule_index as int) { no_rules(g, sy(g, rule_index as int, dot_pos as int)); } nothing(g, S, j0); no_more(g, S, deq@, j0); } ".replace("S,", S + ","))
    f.before("let mut lookaheads = ", "let ghost y = sy(g, rule_index as int, dot_pos as int); proof { assert(row_ok(g, self.first_set_after@[rule_index as int]@, self.nullable@[rule_index as int]@, rule_index as int)); assert(tail_ok(g, self.first_set_after@[rule_index as int]@[dot_pos + 1]@, self.nullable@[rule_index as int]@[dot_pos + 1], rule_index as int, dot_pos + 1)); assert(by_name(*self, y)); } ", nth=0)
    f.before("let __w = $x*;", " proof { gw = __w@; assert forall|a: int| lookaheads@.contains(a) == #[trigger] gives(g, it0, a) by { } } ", nth=0, after=True)
    inv = "cinv(g, dmm, k0, S, in_deq@, deq@), cov(g, S, deq@, -1), state.edge == ed0".replace("S,", S + ",")
    f.loop(0, "invariant %s ensures deq@.len() == 0, %s" % (inv, inv), "proof { q0 = deq@; } ", "proof { if !deq@.contains(j0 as usize) { all_done(*$0, S, it0, gw, j0); } no_more(g, S, deq@, j0); } ".replace("S,", S + ","))
    f.loop(1, "invariant __i0 <= __e0, __e0 == __l@.len(), forall|a: int| #[trigger] lookaheads@.contains(a) == (sfirst(g, rule_index as int, dot_pos + 1, a) || exists|k: int| 0 <= k < __i0 && (#[trigger] __l@[k]).0 == a) decreases __e0 - __i0", "proof { let cc = __l@[__i0 as int].0 as int; assert(it0.lookahead@.contains(cc)); assert forall|a: int| first(g, cc, a) == (a == cc) by { term_first(g, cc, a); } } let ghost la1 = lookaheads@; ", "proof { let cc = __l@[__i0 - 1].0 as int; assert forall|a: int| #[trigger] lookaheads@.contains(a) == (sfirst(g, rule_index as int, dot_pos + 1, a) || exists|k: int| 0 <= k < __i0 && (#[trigger] __l@[k]).0 == a) by { term_first(g, cc, a); assert(lookaheads@.contains(a) == (la1.contains(a) || a == cc)); } } ")
    f.loop(2, "invariant __i1 <= __e1, __e1 == __w@.len(), state.edge == ed0, cinv(g, dmm, k0, S, in_deq@, deq@), cov(g, S, deq@, j0), part(g, S, it0, __w@, __i1 as int), 0 <= j0 < state.items@.len(), alike(state.items@[j0], it0), state.items@[j0].lookahead@ == it0.lookahead@ || deq@.contains(j0 as usize) decreases __e1 - __i1".replace("S,", S + ","),
      "let ghost s1 = state.items@; let ghost x1 = state.item_indices@; let ghost m1 = in_deq@; let ghost q1 = deq@; let ghost rr = __w@[__i1 as int]; proof { assert(prod(g, y, rr as int)); assert(before(g, rr as int, it0.rule_index as int, it0.dot_pos as int)); if x1.contains_key(rr as int) { assert(ent(s1, x1, k0.len() as int, rr as int)); } } ",
      """proof { let s2 = state.items@; let x2 = state.item_indices@; let m2 = in_deq@; let q2 = deq@;
        if x1.contains_key(rr as int) { let i = x1[rr as int] as int; let n = Item { rule_index: rr, dot_pos: 0, lookahead: lookaheads }; brought(g, dmm, k0, it0, n); add_old(g, dmm, k0, s1, x1, m1, q1, it0, n, i, s2[i]); assert(s2 =~= s1.update(i, s2[i])); pushed(q1, i as usize);
          if s2[i].lookahead@ != s1[i].lookahead@ && !m1[i] { assert(q2 == q1.push(i as usize)); assert(m2 =~= m1.update(i, true)); mark_step(g, dmm, k0, s2, x2, m1, q1, i); } else { assert(q2 == q1 && m2 == m1); if m1[i] { assert(q1.contains(i as usize)); } }
          assert forall|j: int| #![trigger s2[j]] 0 <= j < s2.len() && !q2.contains(j as usize) implies j < s1.len() && !q1.contains(j as usize) && (j == j0 || s2[j].lookahead@ == s1[j].lookahead@) by { if j != i { assert(s2[j] == s1[j]); } } }
        else { let n = s2.last(); brought(g, dmm, k0, it0, n); assert(s2 =~= s1.push(n)); assert(s1.len() < state.items.len()); add_new(g, dmm, k0, s1, x1, m1, q1, it0, n); pushed(q1, s1.len() as usize); assert(m2 =~= m1.push(true)); assert(q2 =~= q1.push(s1.len() as usize));
          assert forall|j: int| #![trigger s2[j]] 0 <= j < s2.len() && !q2.contains(j as usize) implies j < s1.len() && !q1.contains(j as usize) && (j == j0 || s2[j].lookahead@ == s1[j].lookahead@) by { if j < s1.len() { assert(s2[j] == s1[j]); } } }
        cov_step(g, s1, x1, q1, s2, x2, q2, j0); part_step(g, s1, x1, s2, x2, it0, __w@, __i1 - 1); assert(alike(s1[j0], s2[j0])); } """)
    f.end("proof { } ") if False else None
    f.before("sort_items(&mut $s.items);", "let ghost s3 = state.items@; ", nth=0)
    f.before("sort_items(&mut $s.items);", " proof { let p = choose|p: Seq<int>| #[trigger] arranged(s3, state.items@, p); sorted_after(g, dmm, k0, s3, state.item_indices@, in_deq@, deq@, state.items@, p); } ", nth=0, after=True)
    f.end("proof { if state.items@.len() == k0.len() { unsorted_after(g, dmm, k0, S, in_deq@, deq@); } }".replace("S,", S + ","))
    f.src = LOOSE + f.src; u.put(f, "Lalr", "impl Lalr")

def merging(u):
    for n, la in (("equals_without_lookahead", False), ("equals", True)):
        f = u.fn(LALR, n, "State"); f.rw("$l.lookahead == $r.lookahead", "$l.lookahead.same(&$r.lookahead)")
        f.rw("self.$a.iter().zip(&other.$b).all(|($l, $r)| $e*)", "{ let mut __k: usize = 0; let mut __b = true; while __k < self.$a.len() && __k < other.$b.len() { let $l = &self.$a[__k]; let $r = &other.$b[__k]; if !($e) { __b = false; break; } __k = __k + 1; } __b }", need=1, note="`zip` and `all` as a loop")
        p = "same_la" if la else "same_items"; w = "forall|k: int| 0 <= k < __k ==> alike(#[trigger] self.items@[k], other.items@[k])" + (", forall|k: int| 0 <= k < __k ==> (#[trigger] self.items@[k]).lookahead@ == other.items@[k].lookahead@" if la else "")
        f.contract("ensures r == %s(self.items@, other.items@)" % p); i = "0 <= __k <= self.items@.len(), self.items@.len() == other.items@.len(), " + w
        f.loop(0, "invariant_except_break __b invariant %s ensures __b ==> __k == self.items@.len(), !__b ==> !%s(self.items@, other.items@) decreases self.items@.len() - __k" % (i, p)); f.src = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] " + f.src; u.put(f, "State", "impl State")
    f = u.fn(LALR, "add_state_lalr", "StateSet"); f.rw("VecDeque<usize>", "IdxQ"); common(f); f.rw("$u |= $a* != $b;", "$u = ($a != $b) || $u;")
    f.rw("self.states.iter().position(|$s| $e*)", "{ let mut __k: usize = 0; let mut __o: Option<usize> = None; while __k < self.states.len() { let $s = &self.states[__k]; if $e { __o = Some(__k); break; } __k = __k + 1; } __o }", need=1, note="`position` as a loop")
    f.rw("self.states[$i].items.iter_mut().zip($z.items).for_each(|($l, $r)| $b*);", "let __z = $z.items; let mut __k: usize = 0; while __k < self.states[$i].items.len() && __k < __z.len() { let $l = &mut self.states[$i].items[__k]; let $r = &__z[__k]; $b __k = __k + 1; }", need=1, note="`zip` and `for_each` as a loop")
    f.rw("$l.lookahead.extend($r.lookahead);", "$l.lookahead.extend_ref(&$r.lookahead);")
    f.contract("requires from_index < old($0).states@.len() ensures exists|t: int| grew(old($0).states@, old($0).need_update@, old(que)@, final($0).states@, final($0).need_update@, final(que)@, from_index as int, comp.0 as int, t, state)")
    f.start("let ghost a = $0.states@; let ghost n0 = $0.need_update@; let ghost u0 = que@; let ghost st = state; let ghost mut gc = Seq::<State>::empty(); let ghost mut gt = 0int; ")
    f.loop(0, "invariant_except_break __o is None invariant __k <= a.len(), $0.states@ == a, forall|q: int| 0 <= q < __k ==> !same_items(st.items@, #[trigger] its(a, q)) ensures (match __o { Some(t) => t < a.len() && same_items(st.items@, its(a, t as int)), None => __k == a.len() && forall|q: int| 0 <= q < a.len() ==> !same_items(st.items@, #[trigger] its(a, q)) }) decreases a.len() - __k", "proof { assert(its(a, __k as int) == $0.states@[__k as int].items@); } ")
    f.before("return;", "proof { assert(same_la(st.items@, its(a, i as int))); assert(joined(its(a, i as int), st.items@, its($0.states@, i as int))) by { assert forall|k: int| 0 <= k < its(a, i as int).len() implies alike(#[trigger] its(a, i as int)[k], its(a, i as int)[k]) && its(a, i as int)[k].lookahead@ == its(a, i as int)[k].lookahead@.union(st.items@[k].lookahead@) by { assert(alike(st.items@[k], its(a, i as int)[k])); assert(its(a, i as int)[k].lookahead@.union(st.items@[k].lookahead@) =~= its(a, i as int)[k].lookahead@); } } assert(grew(a, n0, u0, $0.states@, $0.need_update@, que@, from_index as int, comp.0 as int, i as int, st)); } ".replace("$0", "self"))
    f.before("let mut updated = $x;", " let ghost b1 = $0.states@; let ghost gi = i as int; ".replace("$0", "self"), after=True)
    I = "self.states@"; A = "its(a, gi)"; C = "its(self.states@, gi)"
    f.loop(1, "invariant 0 <= __k <= C.len(), __z@ == st.items@, self.states@.len() == a.len(), self.need_update@ == n0, que@ == u0, forall|q: int| 0 <= q < a.len() && q != gi ==> #[trigger] self.states@[q] == b1[q], self.states@[gi].edge == b1[gi].edge, C.len() == A.len(), forall|k: int| 0 <= k < __k ==> alike(#[trigger] C[k], A[k]) && C[k].lookahead@ == A[k].lookahead@.union(st.items@[k].lookahead@), forall|k: int| __k <= k < C.len() ==> #[trigger] C[k] == A[k], !updated ==> forall|k: int| 0 <= k < __k ==> (#[trigger] C[k]).lookahead@ == A[k].lookahead@ decreases C.len() - __k".replace("C.", C + ".").replace("C[", C + "[").replace("A[", A + "[").replace("A.", A + "."), "let ghost c1 = %s; let ghost up1 = updated; " % C,
      "proof { let c2 = %s; let k = __k - 1; assert forall|j: int| 0 <= j < c2.len() && j != k implies #[trigger] c2[j] == c1[j] by {} if !updated { assert(c1[k].lookahead@.subset_of(c2[k].lookahead@)); same_size(c1[k].lookahead@, c2[k].lookahead@); } } " % C)
    f.before("if updated {", "let ghost c9 = self.states@; proof { gc = c9; gt = gi; assert(joined(its(a, gi), st.items@, its(c9, gi))); assert(new_edge(a, c9, from_index as int, comp.0 as int, gi)); assert(merged(a, c9, from_index as int, comp.0 as int, gi, st.items@)); if !updated { assert(same_la(its(a, gi), its(c9, gi))); assert(grew(a, n0, u0, c9, n0, u0, from_index as int, comp.0 as int, gi, st)); } else { assert(grew(a, n0, u0, c9, n0.insert(gi), u0.push(i), from_index as int, comp.0 as int, gi, st)); } } ", nth=-1)
    f.end("proof { if self.states@.len() > a.len() { let t = a.len() as int; assert(fresh(a, self.states@, from_index as int, comp.0 as int, t, st)); assert(grew(a, n0, u0, self.states@, self.need_update@, que@, from_index as int, comp.0 as int, t, st)); } else { assert(self.states@ == gc); assert(grew(a, n0, u0, self.states@, self.need_update@, que@, from_index as int, comp.0 as int, gt, st)); } } ")
    f.src = LOOSE + f.src; u.put(f, "StateSet", "impl StateSet")

READY = r"""
// what the constructor leaves behind: the grammar without the added rule
pub open spec fn base_sym(l: Lalr, r: int, d: int) -> bool { let g = gram(l); let y = sy(g, r, d); y < g.comps.len() && y != l.accept_rule_component_id.0 && (!term(g, y) ==> exists|k: int| #[trigger] prod(g, y, k)) }
pub open spec fn base_rule(l: Lalr, r: int) -> bool { let g = gram(l); lh(g, r) < g.comps.len() && !term(g, lh(g, r)) && lh(g, r) != l.accept_rule_component_id.0 && ln(g, r) <= 0x3FFF_FFFF && forall|d: int| 0 <= d < ln(g, r) ==> #[trigger] base_sym(l, r, d) }
pub open spec fn listed(l: Lalr, y: int) -> bool { let g = gram(l); let v = l.rule_indices_by_name_id@[y]@; (forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]) < nr(g) && lh(g, v[k] as int) == y) && forall|r: int| #[trigger] prod(g, y, r) ==> exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == r }
pub open spec fn ready(l: Lalr) -> bool { let g = gram(l); let z = l.accept_rule_component_id.0 as int;
  1 <= nr(g) < usize::MAX && z < g.comps.len() && !term(g, z) && g.end < g.comps.len() && term(g, g.end) && (forall|r: int| 0 <= r < nr(g) ==> #[trigger] base_rule(l, r)) && l.rule_indices_by_name_id@.len() == g.comps.len() && (forall|y: int| 0 <= y < g.comps.len() ==> #[trigger] listed(l, y)) && l.assoc@.len() == g.comps.len()
  && (forall|k: int| 0 <= k < l.all_terminal@.len() ==> (#[trigger] l.all_terminal@[k]).0 < g.comps.len() && term(g, l.all_terminal@[k].0 as int)) && forall|i: int, j: int| 0 <= i < j < l.all_terminal@.len() ==> (#[trigger] l.all_terminal@[i]).0 != (#[trigger] l.all_terminal@[j]).0 }
pub open spec fn added(a: Lalr, b: Lalr) -> bool { b.id_mapper == a.id_mapper && b.assoc == a.assoc && b.rule_indices_by_name_id == a.rule_indices_by_name_id && b.accept_rule_component_id == a.accept_rule_component_id && b.end_rule_component_id == a.end_rule_component_id && b.all_terminal == a.all_terminal && b.rules@.len() == a.rules@.len() + 1 && b.rules@.drop_last() == a.rules@ && b.rules@.last().name_id == a.accept_rule_component_id && b.rules@.last().components@.len() == 1 && b.rules@.last().components@[0] == a.rules@[0].name_id && b.rules@.last().reduce_priority is None }
// no useless symbols: each left side derives the empty string or one that starts with a terminal
pub open spec fn fertile(l: Lalr) -> bool { forall|r: int| 0 <= r < l.rules@.len() ==> live_sym(gram(l), #[trigger] lh(gram(l), r)) }
proof fn augmented(a: Lalr, b: Lalr) requires ready(a), fertile(a), added(a, b) ensures wf(gram(b)), live(gram(b)), lists_ok(b)
{ let g = gram(a); let h = gram(b); let z = a.accept_rule_component_id.0 as int; let n = nr(g);
  assert forall|r: int| 0 <= r < n implies #[trigger] h.rules[r] == g.rules[r] by { assert(h.rules[r] == b.rules@.drop_last()[r]); } assert(ext(g, h));
  assert(base_rule(a, 0)); assert(prod(h, lh(g, 0), 0)); assert(h.rules[n] == b.rules@.last());
  assert forall|r: int| rl(h, r) implies #[trigger] rule_ok(h, r) by { if r < n { assert(base_rule(a, r)); assert(h.rules[r] == g.rules[r]); assert forall|d: int| 0 <= d < ln(h, r) implies #[trigger] sym_ok(h, r, d) by { assert(base_sym(a, r, d)); let y = sy(g, r, d); if !term(g, y) { let k = choose|k: int| #[trigger] prod(g, y, k); assert(h.rules[k] == g.rules[k]); assert(prod(h, y, k)); } } } else { assert(sym_ok(h, n, 0)); } }
  assert forall|r: int, d: int| rl(h, r) && 0 <= d < ln(h, r) implies live_sym(h, #[trigger] sy(h, r, d)) by { let y = sy(h, r, d); assert(rule_ok(h, r)); assert(sym_ok(h, r, d));
    if term(h, y) { assert(fst(h, 1, y, y)); assert(first(h, y, y)); } else { if r < n { assert(h.rules[r] == g.rules[r]); assert(base_rule(a, r)); assert(base_sym(a, r, d)); let k = choose|k: int| #[trigger] prod(g, y, k); assert(base_rule(a, k)); } else { assert(y == lh(g, 0)); } live_ext(g, h, y); } }
  assert forall|y: int| 0 <= y < h.comps.len() implies #[trigger] by_name(b, y) by { assert(listed(a, y)); let v = b.rule_indices_by_name_id@[y]@; assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]) < nr(h) - 1 && lh(h, v[k] as int) == y by { assert(h.rules[v[k] as int] == g.rules[v[k] as int]); }
    assert forall|r: int| 0 <= r < nr(h) - 1 && #[trigger] prod(h, y, r) implies exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == r by { assert(h.rules[r] == g.rules[r]); assert(prod(g, y, r)); } } }
proof fn todo_pop(g: G, ss: Seq<State>, need: Set<int>, q: Seq<usize>, q2: Seq<usize>, i: usize) requires todo(g, ss, need, q, -1), q.len() > 0, q2 == q.subrange(1, q.len() as int), i == q[0] ensures i < ss.len(), !need.contains(i as int) ==> todo(g, ss, need, q2, -1), todo(g, ss, need.remove(i as int), q2, i as int)
{ popped(q, q2, i); assert(q[0] < ss.len()); assert forall|k: int| 0 <= k < q2.len() implies #[trigger] q2[k] < ss.len() by { assert(q2[k] == q[k + 1]); }
  let n2 = need.remove(i as int); assert forall|p: int| #[trigger] n2.contains(p) implies 0 <= p < ss.len() && q2.contains(p as usize) by { assert(need.contains(p)); }
  if !need.contains(i as int) { assert forall|p: int| #[trigger] need.contains(p) implies 0 <= p < ss.len() && q2.contains(p as usize) by {} } }
// the actions of one state
pub open spec fn kept(a: Map<(int, int), Action>, b: Map<(int, int), Action>, i: int) -> bool { forall|p: int, x: int| p != i ==> #[trigger] act(b, p, x) == act(a, p, x) }
pub open spec fn keptg(a: Map<(int, int), usize>, b: Map<(int, int), usize>, i: int) -> bool { forall|p: int, x: int| p != i ==> #[trigger] b.contains_key((p, x)) == a.contains_key((p, x)) }
pub open spec fn sh(g: G, ss: Seq<State>, t: Map<(int, int), Action>, i: int, x: int) -> bool { match act(t, i, x) { None => !has_edge(ss, i, x), Some(Action::Shift(_)) => has_edge(ss, i, x), _ => false } }
pub open spec fn gone(g: G, t: Map<(int, int), Action>, u: Map<(int, int), usize>, i: int, x: int) -> bool { if term(g, x) { t.contains_key((i, x)) } else { u.contains_key((i, x)) } }
pub open spec fn edging(g: G, ss: Seq<State>, t: Map<(int, int), Action>, u: Map<(int, int), usize>, i: int, v: Seq<(ComponentId, usize)>, k: int) -> bool { shifts(ss, t, u) && (forall|x: int| #[trigger] t.contains_key((i, x)) ==> t[(i, x)] is Shift) && forall|q: int| 0 <= q < k ==> gone(g, t, u, i, (#[trigger] v[q]).0.0 as int) }
pub open spec fn none_at(t: Map<(int, int), Action>, u: Map<(int, int), usize>, i: int) -> bool { forall|x: int| !#[trigger] t.contains_key((i, x)) && !u.contains_key((i, x)) }
pub open spec fn none_from(t: Map<(int, int), Action>, u: Map<(int, int), usize>, n: int) -> bool { forall|i: int| i >= n ==> #[trigger] none_at(t, u, i) }
pub open spec fn tk(l: Lalr, k: int) -> int { l.all_terminal@[k].0 as int }
pub open spec fn tinv(l: Lalr, ss: Seq<State>, t: Map<(int, int), Action>, i: int, k: int) -> bool { (forall|q: int| 0 <= q < k ==> cell(l, ss, t, i, #[trigger] tk(l, q))) && forall|q: int| k <= q < l.all_terminal@.len() ==> sh(gram(l), ss, t, i, #[trigger] tk(l, q)) }
pub open spec fn apart(l: Lalr) -> bool { forall|i: int, j: int| 0 <= i < j < l.all_terminal@.len() ==> #[trigger] tk(l, i) != #[trigger] tk(l, j) }
pub open spec fn all_terms(l: Lalr) -> bool { forall|k: int| 0 <= k < l.all_terminal@.len() ==> 0 <= #[trigger] tk(l, k) < gram(l).comps.len() && term(gram(l), tk(l, k)) }
pub open spec fn only(t: Map<(int, int), Action>, t2: Map<(int, int), Action>, i: int, a: int) -> bool { forall|p: int, x: int| (p != i || x != a) ==> #[trigger] act(t2, p, x) == act(t, p, x) }
proof fn tstep(l: Lalr, ss: Seq<State>, t: Map<(int, int), Action>, t2: Map<(int, int), Action>, i: int, k: int) requires tinv(l, ss, t, i, k), apart(l), 0 <= k < l.all_terminal@.len(), only(t, t2, i, tk(l, k)), cell(l, ss, t2, i, tk(l, k)) ensures tinv(l, ss, t2, i, k + 1)
{ assert forall|q: int| 0 <= q < k + 1 implies cell(l, ss, t2, i, #[trigger] tk(l, q)) by { if q < k { assert(tk(l, q) != tk(l, k)); assert(act(t2, i, tk(l, q)) == act(t, i, tk(l, q))); assert(cell(l, ss, t, i, tk(l, q))); } }
  assert forall|q: int| k + 1 <= q < l.all_terminal@.len() implies sh(gram(l), ss, t2, i, #[trigger] tk(l, q)) by { assert(tk(l, k) != tk(l, q)); assert(act(t2, i, tk(l, q)) == act(t, i, tk(l, q))); } }
proof fn edges_done(l: Lalr, ss: Seq<State>, t: Map<(int, int), Action>, u: Map<(int, int), usize>, i: int, v: Seq<(ComponentId, usize)>) requires 0 <= i < ss.len(), all_terms(l), edging(gram(l), ss, t, u, i, v, v.len() as int), forall|p: int, q: int, x: int| #[trigger] edge(ss, p, x, q) ==> 0 <= q < ss.len(), forall|x: int, t: int| #[trigger] ss[i].edge@.contains((x, t)) ==> exists|k: int| 0 <= k < v.len() && pair(#[trigger] v[k]) == (x, t) ensures tinv(l, ss, t, i, 0), forall|n: int| 0 <= n < gram(l).comps.len() && !term(gram(l), n) ==> #[trigger] u.contains_key((i, n)) == has_edge(ss, i, n)
{ let g = gram(l);
  assert forall|x: int| has_edge(ss, i, x) implies #[trigger] gone(g, t, u, i, x) by { let q = choose|q: int| #[trigger] edge(ss, i, x, q); assert(ss[i].edge@.contains((x, q))); let k = choose|k: int| 0 <= k < v.len() && pair(#[trigger] v[k]) == (x, q); assert(gone(g, t, u, i, v[k].0.0 as int)); }
  assert forall|x: int| #[trigger] t.contains_key((i, x)) implies has_edge(ss, i, x) by { let q = t[(i, x)]->Shift_0 as int; assert(edge(ss, i, x, q)); }
  assert forall|x: int| #[trigger] u.contains_key((i, x)) implies has_edge(ss, i, x) by { assert(edge(ss, i, x, u[(i, x)] as int)); }
  assert forall|q: int| 0 <= q < l.all_terminal@.len() implies sh(g, ss, t, i, #[trigger] tk(l, q)) by { let x = tk(l, q); assert(gone(g, t, u, i, x) || !has_edge(ss, i, x)); }
  assert forall|n: int| 0 <= n < g.comps.len() && !term(g, n) implies #[trigger] u.contains_key((i, n)) == has_edge(ss, i, n) by { assert(gone(g, t, u, i, n) || !has_edge(ss, i, n)); } }
proof fn kept_tr(a: Map<(int, int), Action>, b: Map<(int, int), Action>, c: Map<(int, int), Action>, i: int) requires kept(a, b, i), kept(b, c, i) ensures kept(a, c, i) { assert forall|p: int, x: int| p != i implies #[trigger] act(c, p, x) == act(a, p, x) by { assert(act(c, p, x) == act(b, p, x)); } }
proof fn keptg_tr(a: Map<(int, int), usize>, b: Map<(int, int), usize>, c: Map<(int, int), usize>, i: int) requires keptg(a, b, i), keptg(b, c, i) ensures keptg(a, c, i) { assert forall|p: int, x: int| p != i implies #[trigger] c.contains_key((p, x)) == a.contains_key((p, x)) by { assert(c.contains_key((p, x)) == b.contains_key((p, x))); } }
proof fn edging_step(g: G, ss: Seq<State>, t: Map<(int, int), Action>, u: Map<(int, int), usize>, t2: Map<(int, int), Action>, u2: Map<(int, int), usize>, i: int, v: Seq<(ComponentId, usize)>, k: int) requires edging(g, ss, t, u, i, v, k), 0 <= k < v.len(), edge(ss, i, v[k].0.0 as int, v[k].1 as int), if term(g, v[k].0.0 as int) { t2 == t.insert((i, v[k].0.0 as int), Action::Shift(v[k].1)) && u2 == u } else { t2 == t && u2 == u.insert((i, v[k].0.0 as int), v[k].1) } ensures edging(g, ss, t2, u2, i, v, k + 1), kept(t, t2, i), keptg(u, u2, i)
{ assert forall|p: int, x: int| p != i implies #[trigger] act(t2, p, x) == act(t, p, x) by { assert((p, x) != (i, v[k].0.0 as int)); } assert forall|p: int, x: int| p != i implies #[trigger] u2.contains_key((p, x)) == u.contains_key((p, x)) by { assert((p, x) != (i, v[k].0.0 as int)); } assert forall|p: int, x: int| #[trigger] t2.contains_key((p, x)) implies match t2[(p, x)] { Action::Shift(q) => edge(ss, p, x, q as int), _ => true } by { if !(p == i && x == v[k].0.0) { assert(t.contains_key((p, x))); } }
  assert forall|p: int, x: int| #[trigger] u2.contains_key((p, x)) implies edge(ss, p, x, u2[(p, x)] as int) by { if !(p == i && x == v[k].0.0) { assert(u.contains_key((p, x))); } }
  assert forall|x: int| #[trigger] t2.contains_key((i, x)) implies t2[(i, x)] is Shift by { if x != v[k].0.0 { assert(t.contains_key((i, x))); } }
  assert forall|q: int| 0 <= q < k + 1 implies gone(g, t2, u2, i, (#[trigger] v[q]).0.0 as int) by { if q < k { assert(gone(g, t, u, i, v[q].0.0 as int)); } } }
proof fn set_cell(l: Lalr, ss: Seq<State>, t: Map<(int, int), Action>, t2: Map<(int, int), Action>, i: int, a: int, r: int) requires sh(gram(l), ss, t, i, a), least(gram(l), its(ss, i), r, a), means(act(t2, i, a)) == if act(t, i, a) is None { red(gram(l), r) } else { resolve(l, r, a) } ensures cell(l, ss, t2, i, a) { assert(has_edge(ss, i, a) == (act(t, i, a) is Some)); }
proof fn keep_cell(l: Lalr, ss: Seq<State>, t: Map<(int, int), Action>, i: int, a: int) requires sh(gram(l), ss, t, i, a), forall|r: int| !#[trigger] redat(gram(l), its(ss, i), r, a) ensures cell(l, ss, t, i, a) { assert(has_edge(ss, i, a) == (act(t, i, a) is Some)); }
proof fn finish(l: Lalr, f: Lalr, dm: Set<int>, ss: Seq<State>) requires ss == f.state_set.states@, fin(gram(l), dm, ss), gram(l) == gram(f), l.assoc == f.assoc, l.rules == f.rules, l.all_terminal == f.all_terminal, shifts(ss, f.action_table@, f.goto_table@), forall|p: int| 0 <= p < ss.len() ==> #[trigger] row(l, ss, f.action_table@, f.goto_table@, p) ensures lalr_tables(f)
{ assert forall|p: int| 0 <= p < ss.len() implies #[trigger] row(f, ss, f.action_table@, f.goto_table@, p) by { assert(row(l, ss, f.action_table@, f.goto_table@, p)); row_kept(l, f, ss, f.action_table@, f.goto_table@, f.action_table@, f.goto_table@, -1, p); } theorem(f, dm); }
proof fn row_kept(l: Lalr, m: Lalr, ss: Seq<State>, t: Map<(int, int), Action>, u: Map<(int, int), usize>, t2: Map<(int, int), Action>, u2: Map<(int, int), usize>, i: int, p: int) requires row(l, ss, t, u, p), p != i, kept(t, t2, i), keptg(u, u2, i), gram(l) == gram(m), l.assoc == m.assoc, l.rules == m.rules, l.all_terminal == m.all_terminal ensures row(m, ss, t2, u2, p)
{ assert forall|a: int| #[trigger] terminal(m, a) implies cell(m, ss, t2, p, a) by { assert(terminal(l, a)); assert(cell(l, ss, t, p, a)); assert(act(t2, p, a) == act(t, p, a)); let w = means(act(t2, p, a)); assert(wants(l, ss, p, a, w)); assert forall|r: int| resolve(l, r, a) == #[trigger] resolve(m, r, a) by {} } }
proof fn row_now(l: Lalr, ss: Seq<State>, t: Map<(int, int), Action>, u: Map<(int, int), usize>, i: int) requires tinv(l, ss, t, i, l.all_terminal@.len() as int), forall|n: int| 0 <= n < gram(l).comps.len() && !term(gram(l), n) ==> #[trigger] u.contains_key((i, n)) == has_edge(ss, i, n) ensures row(l, ss, t, u, i)
{ assert forall|a: int| #[trigger] terminal(l, a) implies cell(l, ss, t, i, a) by { let k = choose|k: int| 0 <= k < l.all_terminal@.len() && (#[trigger] l.all_terminal@[k]).0 == a; assert(tk(l, k) == a); } }
// the complete items, in order
pub open spec fn complete(g: G, it: Item) -> bool { it.dot_pos == ln(g, it.rule_index as int) }
pub open spec fn inl(s: Seq<Item>, j: int, it: Item) -> bool { exists|k: int| 0 <= k < j && #[trigger] s[k] == it }
pub open spec fn lists(v: Seq<&Item>, it: Item) -> bool { exists|k: int| 0 <= k < v.len() && *#[trigger] v[k] == it }
pub open spec fn picked(g: G, s: Seq<Item>, j: int, v: Seq<&Item>) -> bool { (forall|k: int| 0 <= k < v.len() ==> inl(s, j, *#[trigger] v[k]) && complete(g, *v[k])) && (forall|q: int| 0 <= q < j && complete(g, #[trigger] s[q]) ==> lists(v, s[q])) && forall|a: int, b: int| 0 <= a < b < v.len() ==> less(*#[trigger] v[a], *#[trigger] v[b]) }
proof fn pick(g: G, s: Seq<Item>, j: int, v: Seq<&Item>, v2: Seq<&Item>) requires sorted(s), 0 <= j < s.len(), picked(g, s, j, v), v2 == (if complete(g, s[j]) { v.push(&s[j]) } else { v }) ensures picked(g, s, j + 1, v2)
{ let n = v.len() as int;
  assert forall|k: int| 0 <= k < v2.len() implies inl(s, j + 1, *#[trigger] v2[k]) && complete(g, *v2[k]) by { if k < n { assert(v2[k] == v[k]); let q = choose|q: int| 0 <= q < j && #[trigger] s[q] == *v[k]; assert(s[q] == *v2[k]); } else { assert(s[j] == *v2[k]); } }
  assert forall|q: int| 0 <= q < j + 1 && complete(g, #[trigger] s[q]) implies lists(v2, s[q]) by { if q < j { assert(lists(v, s[q])); let k = choose|k: int| 0 <= k < v.len() && *#[trigger] v[k] == s[q]; assert(*v2[k] == s[q]); } else { assert(*v2[n] == s[j]); } }
  assert forall|a: int, b: int| 0 <= a < b < v2.len() implies less(*#[trigger] v2[a], *#[trigger] v2[b]) by { assert(v2[a] == v[a]); if b < n { assert(v2[b] == v[b]); } else { assert(inl(s, j, *v[a])); let q = choose|q: int| 0 <= q < j && #[trigger] s[q] == *v[a]; assert(less(s[q], s[j])); } } }
proof fn pick_one(g: G, s: Seq<Item>, v: Seq<&Item>, k: int, a: int) requires picked(g, s, s.len() as int, v), forall|j: int| 0 <= j < s.len() ==> rl(g, (#[trigger] s[j]).rule_index as int), 0 <= k < v.len(), v[k].lookahead@.contains(a), forall|q: int| 0 <= q < k ==> !(#[trigger] v[q]).lookahead@.contains(a) ensures least(g, s, v[k].rule_index as int, a)
{ let r = v[k].rule_index as int; assert(inl(s, s.len() as int, *v[k])); let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == *v[k]; assert(at(s, j, r, ln(g, r))); assert(hasla(s, r, ln(g, r), a));
  assert forall|q: int| #[trigger] redat(g, s, q, a) implies r <= q by { let i = choose|i: int| #[trigger] at(s, i, q, ln(g, q)) && s[i].lookahead@.contains(a); assert(complete(g, s[i])); assert(lists(v, s[i])); let z = choose|z: int| 0 <= z < v.len() && *#[trigger] v[z] == s[i]; if z > k { assert(less(*v[k], *v[z])); } } }
proof fn pick_none(g: G, s: Seq<Item>, v: Seq<&Item>, a: int) requires picked(g, s, s.len() as int, v), forall|q: int| 0 <= q < v.len() ==> !(#[trigger] v[q]).lookahead@.contains(a) ensures forall|r: int| !#[trigger] redat(g, s, r, a)
{ assert forall|q: int| !#[trigger] redat(g, s, q, a) by { if redat(g, s, q, a) { let i = choose|i: int| #[trigger] at(s, i, q, ln(g, q)) && s[i].lookahead@.contains(a); assert(complete(g, s[i])); assert(lists(v, s[i])); let z = choose|z: int| 0 <= z < v.len() && *#[trigger] v[z] == s[i]; } } }
proof fn todo_all(g: G, ss: Seq<State>, need: Set<int>, q: Seq<usize>, i: int) requires todo(g, ss, need, q, i), need.contains(i) || flow(g, ss, i) ensures todo(g, ss, need, q, -1) {}
"""
def inline_closure(f, name):
    """a closure called at one place: its body there, the argument bound to its parameter"""
    m = re.search(r"let %s = \|(\w+)\s*:\s*[^|]*\|\s*->\s*[^{]*\{" % name, f.src)
    if not m: raise vx.Lost(f.name + ": closure " + name)
    i = m.end(); d = 1
    while d: d += {"{": 1, "}": -1}.get(f.src[i], 0); i += 1
    body = f.src[m.end():i - 1]; rest = f.src[i:].lstrip(); assert rest.startswith(";")
    f.src = f.src[:m.start()] + rest[1:]; f.rw(name + "($x)", "{ let %s = $x; %s }" % (m.group(1), body.strip()), need=1, note="the closure `%s` inlined at its call" % name)
def tables(u):
    u.add("//@fn generator\n" + READY + "\n//@end")
    f = u.fn(LALR, "build_lalr1_parse_table", "Lalr")
    f.rw("dbg!($x*);", "")
    f.rw("need_update: HashSet::new()", "need_update: NumSet::new()", need=1); f.rw("edge: BTreeSet::new()", "edge: EdgeSet::new()"); f.rw("item_indices: HashMap::new()", "item_indices: IdxMap::new()"); f.rw("VecDeque::new()", "IdxQ::new()", need=1)
    f.rw("let mut next_states: BTreeMap<ComponentId, Vec<_>> = BTreeMap::new();", "let mut next_states = NextMap::new();", need=1); f.rw("next_states.entry($k*).or_default().push($v*);", "next_states.push_at($k, $v);", need=1); f.rw("for ($a, $b) in next_states {", "let mut __n = next_states; while let Some(($a, $b)) = __n.pop_first() {", need=1, note="a map consumed in order of its keys")
    f.rw("let mut action_table: HashMap<(usize, ComponentId), Action> = HashMap::new();", "let mut action_table = ActMap::new();", need=1); f.rw("let mut goto_table: HashMap<(usize, ComponentId), usize> = HashMap::new();", "let mut goto_table = GotoMap::new();", need=1)
    f.rw("let $r: Vec<_> = $s.items.iter().filter(|$i| $c*).collect();", "let $r = { let mut __v: Vec<&Item> = Vec::new(); let mut __k: usize = 0; while __k < $s.items.len() { let $i = &$s.items[__k]; __k = __k + 1; if $c { __v.push($i); } } __v };", note="`filter` and `collect` as a loop")
    inline_closure(f, "get_conflicted_reduce_rule")
    f.rw("reduce_rules.iter().find(|$i| $c*)", "let mut __f: Option<&&Item> = None; let mut __k: usize = 0; while __k < reduce_rules.len() { let $i = &reduce_rules[__k]; __k = __k + 1; if $c { __f = Some($i); break; } } __f", note="`find` as a loop")
    f.rw("for $e in &$s.edge {", "let __l = $s.edge.items(); for $e in __l.iter() {", note="a set visited in any order")
    f.rw("if let Entry::Vacant($e) = $t.entry($k) { $e.insert($v); continue; }", "if !$t.contains_key(&$k) { $t.insert($k, $v); continue; }")
    common(f); f.while_let(); f.desugar()
    if os.environ.get("DBG"): print(f.src)
    X = lambda s: re.sub(r"\b(SS|NN|AA|TT)\b", lambda m: {"SS": "state_set.states@", "NN": "state_set.need_update@", "AA": "action_table@", "TT": "goto_table@"}[m.group(1)], s)
    B = f.before; f.before = lambda a, s, **k: B(a, X(s), **k); L = f.loop; f.loop = lambda k, *a: L(k, *[X(s) for s in a])
    f.contract("requires ready(*old($0)), fertile(*old($0)) ensures added(*old($0), *final($0)), lalr_tables(*final($0))")
    f.start("let ghost l0 = *$0; proof { assert(base_rule(l0, 0)); } ")
    f.before("self.build_first_set();", "let ghost l1 = *self; proof { assert(l1.rules@.drop_last() =~= l0.rules@); augmented(l0, l1); } ", nth=0)
    f.before("self.build_first_set();", " let ghost l2 = *self; let ghost g = gram(l2); let ghost dmm = dm(l2); let ghost mut q0 = Seq::<usize>::empty(); let ghost mut gi = 0int; let ghost mut gs = Seq::<Item>::empty(); let ghost mut gm = Map::<int, Seq<Item>>::empty(); proof { assert(gram(l1) == g); assert forall|y: int| 0 <= y < g.comps.len() implies #[trigger] by_name(l2, y) by { assert(by_name(l1, y)); } assert(gen_ok(l2)); } ", nth=0, after=True)
    f.before("self.closure($x*);", "let ghost k0 = its(SS, 0); proof { assert(k0.len() == 1 && k0[0].lookahead@.contains(g.end)); assert(dmm.contains(g.end)); assert(kern_ok(g, dmm, k0, 0)); assert(kernel(g, dmm, k0)); } ", nth=0)
    f.before("self.closure($x*);", " proof { first_state(g, dmm, SS, k0); } ", nth=0, after=True)
    f.before("loop {", "proof { assert(que@[0] == 0); assert(que@.contains(0usize)); assert(todo(g, SS, NN, que@, -1)); } ", nth=0)
    f.before("if !state_set.need_update.contains($x*) {", "proof { todo_pop(g, SS, NN, q0, que@, i); } ", nth=0)
    f.before("if !state_set.need_update.remove($x*) {", "proof { todo_pop(g, SS, NN, q0, que@, i); assert(!NN.contains(i as int) ==> NN.remove(i as int) =~= NN); } ", nth=0)
    f.before("let mut next_states =", "let ghost s0 = its(SS, i as int); proof { assert(q_ok(g, dmm, SS, i as int)); gi = i as int; gs = s0; } ", nth=0)
    f.before("continue;", "proof { grp_skip(g, dmm, s0, j as int, next_states@); } ", nth=1)
    f.before("next_states.push_at($x*);", "let ghost m1 = next_states@; proof { assert(sym_ok(g, ri as int, dot_pos as int)); assert(ahead(g, ri as int, dot_pos as int, comp.0 as int)); } ", nth=0)
    f.before("next_states.push_at($x*);", " proof { let it = next_states@[comp.0 as int].last(); grp_step(g, dmm, s0, j as int, m1, comp.0 as int, it); } ", nth=0, after=True)
    f.before("let mut __n = next_states;", "let ghost m0 = next_states@; proof { gm = m0; same_ref(s0); } ", nth=0)
    f.before("self.closure($x*);", "let ghost x = comp.0 as int; let ghost a = SS; let ghost n1 = NN; let ghost u1 = que@; proof { grp_reached(g, dmm, s0, m0, x); } ", nth=1)
    f.before("self.closure($x*);", " let ghost st = state; ", nth=1, after=True)
    f.before("state_set.add_state_lalr($x*);", """ proof { let c = SS; let n2 = NN; let u2 = que@; let ii = i as int; assert(state_set.states.len() == c.len()); let t = choose|t: int| grew(a, n1, u1, c, n2, u2, ii, x, t, st); grow_step(g, dmm, a, c, ii, s0, x, m0[x], t, st); todo_step(g, dmm, a, n1, u1, c, n2, u2, ii, x, t, st); grown_larger(g, dmm, a, c, ii, x, t, st);
        assert(covers(its(c, ii), its(a, ii))); same_tr(its(c, ii), its(a, ii), s0); assert(covers(its(c, ii), s0));
        if !n2.contains(ii) { assert(!n1.contains(ii)); same_tr(s0, its(a, ii), its(c, ii)); assert(same_la(its(a, ii), its(c, ii))); assert(same_la(s0, its(c, ii))); }
        assert forall|y: int| #![trigger m0.contains_key(y)] m0.contains_key(y) && !__n@.contains_key(y) implies flowed(g, c, ii, s0, y) by { if y != x { flowed_mono(g, a, c, ii, s0, y); } } } """, nth=0, after=True)
    f.before("let mut action_table =", "let ghost ss = SS; let ghost mut t1 = Map::<(int, int), Action>::empty(); let ghost mut u1 = Map::<(int, int), usize>::empty(); proof { assert(fin(g, dmm, ss)); assert(apart(l2)) by { assert forall|i: int, j: int| 0 <= i < j < l2.all_terminal@.len() implies #[trigger] tk(l2, i) != #[trigger] tk(l2, j) by { assert(l0.all_terminal@[i].0 != l0.all_terminal@[j].0); } } assert(all_terms(l2)) by { assert forall|k: int| 0 <= k < l2.all_terminal@.len() implies 0 <= #[trigger] tk(l2, k) < g.comps.len() && term(g, tk(l2, k)) by { assert(l0.all_terminal@[k].0 < g.comps.len()); } } } ", nth=0)
    f.before("let reduce_rules =", "let ghost si = s.items@; proof { assert(q_ok(g, dmm, ss, i as int)); assert forall|j: int| 0 <= j < si.len() implies rl(g, (#[trigger] si[j]).rule_index as int) by { assert(it_ok(g, dmm, si, j)); } } ", nth=0)
    f.before("{ let mut __i3: usize = $x*;", "proof { edges_done(l2, ss, AA, TT, i as int, __l@); } ", nth=0)
    f.before("__f } {", "proof { match __f { Some(it) => { pick_one(g, si, reduce_rules@, __k - 1, ta); } None => { pick_none(g, si, reduce_rules@, ta); } } } ", nth=0)
    f.before("let reduce_action =", "proof { gr = item.rule_index as int; assert(least(g, si, gr, ta)); } ", nth=0)
    f.before("continue;", "proof { assert(only(t2, action_table@, i as int, ta)); set_cell(l2, ss, t2, AA, i as int, ta, gr); tstep(l2, ss, t2, action_table@, i as int, __i3 - 1); } ", nth=2)
    f.loop(0, "invariant *self == l2, inv(g, dmm, SS), todo(g, SS, NN, que@, -1) ensures *self == l2, inv(g, dmm, SS), todo(g, SS, NN, que@, -1), que@.len() == 0", "proof { q0 = que@; } ", "proof { if !NN.contains(gi) { flow_now(g, dmm, SS, gi, gs, gm); } todo_all(g, SS, NN, que@, gi); } ")
    f.loop(1, "invariant __i0 <= __e0, __e0 == s0.len(), grouped(g, dmm, s0, __i0 as int, next_states@) decreases __e0 - __i0", "proof { assert(it_ok(g, dmm, s0, __i0 as int)); in_d(g, dmm, s0[__i0 as int].rule_index as int); } ")
    I = "*self == l2, i < SS.len(), inv(g, dmm, SS), todo(g, SS, NN, que@, i as int), covers(its(SS, i as int), s0), !NN.contains(i as int) ==> same_la(s0, its(SS, i as int)), forall|y: int| #[trigger] __n@.contains_key(y) ==> m0.contains_key(y) && __n@[y] == m0[y], forall|y: int| #![trigger m0.contains_key(y)] m0.contains_key(y) && !__n@.contains_key(y) ==> flowed(g, SS, i as int, s0, y)"
    f.loop(2, "invariant %s ensures %s, __n@ == Map::<int, Seq<Item>>::empty()" % (I, I))
    f.loop(3, "invariant __i1 <= __e1, __e1 == ss.len(), SS == ss, shifts(ss, AA, TT), none_from(AA, TT, __i1 as int), forall|p: int| 0 <= p < __i1 ==> #[trigger] row(l2, ss, AA, TT, p) decreases __e1 - __i1", "proof { t1 = action_table@; u1 = goto_table@; assert(none_at(t1, u1, __i1 as int)); } ",
      "proof { row_now(l2, ss, AA, TT, __i1 - 1); assert forall|p: int| 0 <= p < __i1 implies #[trigger] row(l2, ss, AA, TT, p) by { if p < __i1 - 1 { assert(row(l2, ss, t1, u1, p)); row_kept(l2, l2, ss, t1, u1, AA, TT, __i1 - 1, p); } } assert forall|p: int| p >= __i1 implies #[trigger] none_at(AA, TT, p) by { assert(none_at(t1, u1, p)); assert forall|x: int| !#[trigger] action_table@.contains_key((p, x)) && !goto_table@.contains_key((p, x)) by { assert(act(AA, p, x) == act(t1, p, x)); assert(!t1.contains_key((p, x)) && !u1.contains_key((p, x))); } } } ")
    f.loop(4, "invariant __k <= si.len(), picked(g, si, __k as int, __v@) decreases si.len() - __k", "let ghost v1 = __v@; ", "proof { pick(g, si, __k - 1, v1, __v@); } ")
    f.loop(5, "invariant __i2 <= __e2, __e2 == __l@.len(), kept(t1, AA, i as int), keptg(u1, TT, i as int), edging(g, ss, AA, TT, i as int, __l@, __i2 as int) decreases __e2 - __i2", "let ghost ta = action_table@; let ghost ua = goto_table@; " + "proof { assert(ss[i as int].edge@.contains(pair(__l@[__i2 as int]))); assert(edge(ss, i as int, __l@[__i2 as int].0.0 as int, __l@[__i2 as int].1 as int)); assert(eqs(g, ss, i as int, __l@[__i2 as int].0.0 as int, __l@[__i2 as int].1 as int)); let (rr, dd) = choose|r: int, d: int| #[trigger] has(its(ss, i as int), r, d) && ahead(g, r, d, __l@[__i2 as int].0.0 as int); assert(rule_ok(g, rr)); assert(sym_ok(g, rr, dd)); } ", "proof { edging_step(g, ss, ta, ua, AA, TT, i as int, __l@, __i2 - 1); kept_tr(t1, ta, AA, i as int); keptg_tr(u1, ua, TT, i as int); } ")
    f.loop(6, "invariant __i3 <= __e3, __e3 == l2.all_terminal@.len(), kept(t1, AA, i as int), shifts(ss, AA, TT), tinv(l2, ss, AA, i as int, __i3 as int) decreases __e3 - __i3", "let ghost mut gr = -1int; let ghost t2 = action_table@; let ghost ta = tk(l2, __i3 as int); ", "proof { assert(only(t2, AA, i as int, ta)); if gr >= 0 { set_cell(l2, ss, t2, AA, i as int, ta, gr); } else { keep_cell(l2, ss, AA, i as int, ta); } tstep(l2, ss, t2, AA, i as int, __i3 - 1); } ")
    f.loop(7, "invariant_except_break __f is None, forall|q: int| 0 <= q < __k ==> !(#[trigger] reduce_rules@[q]).lookahead@.contains(ta) invariant __k <= reduce_rules@.len() decreases reduce_rules@.len() - __k")
    f.end("proof { finish(l2, *self, dmm, ss); } ")
    f.src = LOOSE + f.src; u.put(f, "Lalr", "impl Lalr")

def mapper(u):
    """IdMapper, as in unit idmap but over the real symbols"""
    f = u.fn(IDM, "new", "IdMapper"); f.rw("HashMap::new()", "CompMap::new()"); f.contract("ensures numbered(r), r.components@.len() == 0"); f.start(); u.put(f, "IdMapper", "impl IdMapper")
    f = u.fn(IDM, "len", "IdMapper"); f.contract("requires numbered(*self) ensures r == self.components@.len()"); f.start(); u.put(f, "IdMapper", "impl IdMapper")
    f = u.fn(IDM, "insert", "IdMapper"); f.rw("if let Entry::Vacant($e) = self.component_map.entry($k*) {", "let k = $k; if !self.component_map.contains_key(&k) {"); f.rw("e.insert($i*);", "self.component_map.insert(k, $i);")
    f.contract("requires numbered(*old(self)), old(self).component_map@.contains_key($1) || old(self).components@.len() < 0x10000 ensures numbered(*final(self)), forall|q__: Component| #[trigger] final(self).component_map@.contains_key(q__) == (old(self).component_map@.contains_key(q__) || q__ == $1)"); f.start(); u.put(f, "IdMapper", "impl IdMapper")
    f = u.fn(IDM, "to_component_id", "IdMapper"); f.rw("if let Some(&$i) = $e* {", "if let Some(p) = $e { let $i = *p;", need=False); f.rw("dbg!($x*);", "", need=False); f.rw("panic!($x*);", "vstd::pervasive::unreached()"); f.contract("requires numbered(*self), self.component_map@.contains_key(*$1) ensures r == self.component_map@[*$1], has_num(*self, *$1, r.0 as int)"); f.start(); u.put(f, "IdMapper", "impl IdMapper")
NEWPROOF = r"""
pub open spec fn tsym(b: Bison, c: Component) -> bool { is_symbol(b, c) && c is Terminal }
pub open spec fn in_order(r: int, d: int, n: int, m: int) -> bool { r < n || (r == n && d < m) }
pub open spec fn tlist(b: Bison, v: Seq<Component>, n: int, m: int) -> bool { (forall|k: int| 0 <= k < v.len() ==> tsym(b, #[trigger] v[k])) && forall|c: Component, r: int, d: int| #[trigger] occurs(b, c, r, d) && in_order(r, d, n, m) ==> v.contains(c) }
pub open spec fn nlist(b: Bison, v: Seq<Component>, n: int) -> bool { v.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] v[k] == Component::NonTerminal(b.rules@[k].name) }
pub open spec fn dlist(b: Bison, v: Seq<Component>, e: Seq<(&Name, &Assoc)>, n: int) -> bool { forall|k: int| 0 <= k < n ==> v.contains(Component::Terminal(token_of(*(#[trigger] e[k]).0))) }
pub open spec fn ents(b: Bison, e: Seq<(&Name, &Assoc)>) -> bool { (forall|k: int| 0 <= k < e.len() ==> b.assoc@.contains_key(*(#[trigger] e[k]).0) && b.assoc@[*e[k].0] == *e[k].1) && forall|n: Name| #[trigger] b.assoc@.contains_key(n) ==> exists|k: int| 0 <= k < e.len() && *(#[trigger] e[k]).0 == n }
proof fn pushed_c(v: Seq<Component>, x: Component) ensures v.push(x).contains(x), forall|c: Component| v.contains(c) ==> #[trigger] v.push(x).contains(c) { let w = v.push(x); assert(w[v.len() as int] == x); assert forall|c: Component| v.contains(c) implies #[trigger] w.contains(c) by { let k = choose|k: int| 0 <= k < v.len() && v[k] == c; assert(w[k] == c); } }
// room for one more symbol
pub open spec fn inside(b: Bison, m: IdMapper) -> bool { forall|c: Component| #[trigger] m.component_map@.contains_key(c) ==> is_symbol(b, c) }
pub open spec fn mapped(m: IdMapper, v: Seq<Component>, n: int) -> bool { forall|k: int| 0 <= k < n ==> m.component_map@.contains_key(#[trigger] v[k]) }
proof fn room(b: Bison, m: IdMapper, c: Component) requires file_ok(b), numbered(m), inside(b, m), is_symbol(b, c) ensures m.component_map@.contains_key(c) || m.components@.len() < 0x10000
{ if !m.component_map@.contains_key(c) { let t = choose|t: Set<Component>| #[trigger] holds_symbols(b, t); let d = m.component_map@.dom(); let e = d.insert(c); assert forall|x: Component| e.contains(x) implies #[trigger] t.contains(x) by { if x != c { assert(m.component_map@.contains_key(x)); } } vstd::set_lib::lemma_len_subset(e, t); vstd::set_lib::lemma_len_subset(d, e); assert(e.len() == d.len() + 1); } }
pub open spec fn collected(m: IdMapper, v: Seq<Component>, w: Seq<ComponentId>) -> bool { w.len() <= v.len() && forall|k: int| 0 <= k < w.len() ==> has_num(m, #[trigger] v[k], w[k].0 as int) }
pub open spec fn levels(b: Bison, m: IdMapper, e: Seq<(&Name, &Assoc)>, n: int, a: Seq<Option<Assoc>>) -> bool { a.len() == m.components@.len() && forall|i: int| 0 <= i < a.len() ==> level_upto(b, m.components@[i], #[trigger] a[i], e, n) }
pub open spec fn level_upto(b: Bison, c: Component, o: Option<Assoc>, e: Seq<(&Name, &Assoc)>, n: int) -> bool { match o { Some(x) => exists|q: Name| #[trigger] declared(b, c, q) && b.assoc@[q] == x, None => forall|k: int| 0 <= k < n ==> c != Component::Terminal(token_of(*(#[trigger] e[k]).0)) } }
pub open spec fn idxs(x: Seq<LalrRule>, v: Seq<usize>, y: int) -> bool { (forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]) < x.len() && x[v[k] as int].name_id.0 == y) && forall|r: int| 0 <= r < x.len() && (#[trigger] x[r]).name_id.0 == y ==> exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == r }
pub open spec fn idxs_all(x: Seq<LalrRule>, v: Seq<Vec<usize>>) -> bool { forall|y: int| 0 <= y < v.len() ==> idxs(x, (#[trigger] v[y])@, y) }
proof fn idxs_push(x: Seq<LalrRule>, v: Seq<Vec<usize>>, w: Seq<Vec<usize>>, t: LalrRule) requires idxs_all(x, v), t.name_id.0 < v.len(), w.len() == v.len(), x.len() < usize::MAX, forall|y: int| 0 <= y < v.len() ==> #[trigger] w[y]@ == (if y == t.name_id.0 { v[y]@.push(x.len() as usize) } else { v[y]@ }) ensures idxs_all(x.push(t), w)
{ let x2 = x.push(t); assert forall|y: int| 0 <= y < w.len() implies idxs(x2, (#[trigger] w[y])@, y) by { let a = v[y]@; let c = w[y]@; assert(idxs(x, a, y)); assert forall|k: int| 0 <= k < c.len() implies (#[trigger] c[k]) < x2.len() && x2[c[k] as int].name_id.0 == y by { if k < a.len() { assert(c[k] == a[k]); } }
  assert forall|r: int| 0 <= r < x2.len() && (#[trigger] x2[r]).name_id.0 == y implies exists|k: int| 0 <= k < c.len() && #[trigger] c[k] == r by { if r < x.len() { assert(x[r].name_id.0 == y); let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == r; assert(c[k] == r); } else { assert(c[a.len() as int] == r); } } } }
pub open spec fn last_upto(u: Rule, l: Option<&Component>, n: int) -> bool { match l { None => forall|k: int| 0 <= k < n ==> !((#[trigger] u.components@[k]) is Terminal), Some(c) => exists|d: int| #[trigger] lastp(u, *c, d, n) } }
pub open spec fn lastp(u: Rule, c: Component, d: int, n: int) -> bool { 0 <= d < n && u.components@[d] == c && c is Terminal && forall|k: int| d < k < n ==> !((#[trigger] u.components@[k]) is Terminal) }
pub open spec fn cand(m: IdMapper, u: Rule, p: Option<ComponentId>) -> bool { match u.prec { Some(q) => p is Some && p->Some_0.0 == num(m, Component::Terminal(token_of(q))) && p->Some_0.0 < m.components@.len(), None => match p { Some(i) => i.0 < m.components@.len() && exists|d: int| #[trigger] last_term(u, d) && i.0 == num(m, u.components@[d]), None => forall|d: int| 0 <= d < u.components@.len() ==> !((#[trigger] u.components@[d]) is Terminal) } } }
proof fn listing(b: Bison, t0: Seq<Component>, e: Seq<(&Name, &Assoc)>, t: Seq<Component>) requires ents(b, e), tlist(b, t0, b.rules@.len() as int, 0), dlist(b, t0, e, e.len() as int), t == t0.push(Component::Terminal(end_token())) ensures all_listed(b, t)
{ let x = Component::Terminal(end_token()); pushed_c(t0, x); assert(is_symbol(b, x)); assert forall|c: Component| #[trigger] t.contains(c) == (is_symbol(b, c) && c is Terminal) by {
  if t.contains(c) { let k = choose|k: int| 0 <= k < t.len() && t[k] == c; if k < t0.len() { assert(t[k] == t0[k]); assert(tsym(b, t0[k])); } }
  if is_symbol(b, c) && c is Terminal && c != x { if exists|r: int, d: int| #[trigger] occurs(b, c, r, d) { let (r, d) = choose|r: int, d: int| #[trigger] occurs(b, c, r, d); assert(in_order(r, d, b.rules@.len() as int, 0)); assert(t0.contains(c)); } else { assert forall|r: int| !#[trigger] named(b, c, r) by {} let n = choose|n: Name| #[trigger] declared(b, c, n); let k = choose|k: int| 0 <= k < e.len() && *(#[trigger] e[k]).0 == n; assert(t0.contains(Component::Terminal(token_of(*e[k].0)))); } } } }
proof fn everything(b: Bison, m: IdMapper, t: Seq<Component>, n: Seq<Component>) requires inside(b, m), mapped(m, t, t.len() as int), mapped(m, n, n.len() as int), all_listed(b, t), n.len() == b.rules@.len() + 1, nlist(b, n.drop_last(), b.rules@.len() as int), n.last() == Component::NonTerminal(accept_name()) ensures forall|c: Component| #[trigger] m.component_map@.contains_key(c) == is_symbol(b, c)
{ assert forall|c: Component| #[trigger] m.component_map@.contains_key(c) == is_symbol(b, c) by { if is_symbol(b, c) { if c is Terminal { assert(t.contains(c)); let k = choose|k: int| 0 <= k < t.len() && t[k] == c; assert(m.component_map@.contains_key(t[k])); } else if c == Component::NonTerminal(accept_name()) { assert(m.component_map@.contains_key(n[n.len() - 1])); }
  else { assert forall|r: int, d: int| !#[trigger] occurs(b, c, r, d) by {} assert forall|q: Name| !#[trigger] declared(b, c, q) by {} let r = choose|r: int| #[trigger] named(b, c, r); assert(n.drop_last()[r] == c); assert(m.component_map@.contains_key(n[r])); } } } }
proof fn level_step(b: Bison, m: IdMapper, e: Seq<(&Name, &Assoc)>, n: int, a: Seq<Option<Assoc>>, c: Seq<Option<Assoc>>, id: ComponentId) requires numbered(m), ents(b, e), 0 <= n < e.len(), levels(b, m, e, n, a), has_num(m, Component::Terminal(token_of(*e[n].0)), id.0 as int), c == a.update(id.0 as int, Some(*e[n].1)) ensures levels(b, m, e, n + 1, c)
{ assert forall|i: int| 0 <= i < c.len() implies level_upto(b, m.components@[i], #[trigger] c[i], e, n + 1) by { assert(level_upto(b, m.components@[i], a[i], e, n)); if i == id.0 { assert(declared(b, m.components@[i], *e[n].0)); } else { assert(m.component_map@[m.components@[i]].0 == i); assert(m.component_map@[m.components@[id.0 as int]].0 == id.0); } } }
proof fn whole(b: Bison, l: Lalr, t: Seq<Component>, e: Seq<(&Name, &Assoc)>)
  requires file_ok(b), numbered(l.id_mapper), forall|c: Component| #[trigger] l.id_mapper.component_map@.contains_key(c) == is_symbol(b, c), l.rules@.len() == b.rules@.len(), rules_read(b, l.id_mapper, l.assoc@, l.rules@), ents(b, e), levels(b, l.id_mapper, e, e.len() as int, l.assoc@), idxs_all(l.rules@, l.rule_indices_by_name_id@), l.rule_indices_by_name_id@.len() == l.id_mapper.components@.len(),
    l.all_terminal@.len() == t.len(), collected(l.id_mapper, t, l.all_terminal@), all_listed(b, t), distinct_all(t), has_num(l.id_mapper, Component::NonTerminal(accept_name()), l.accept_rule_component_id.0 as int), has_num(l.id_mapper, Component::Terminal(end_token()), l.end_rule_component_id.0 as int)
  ensures reads(b, l), ready(l)
{ let m = l.id_mapper; let g = gram(l); let s = m.components@; let z = l.accept_rule_component_id.0 as int;
  assert forall|i: int| 0 <= i < l.assoc@.len() implies level(b, s[i], #[trigger] l.assoc@[i]) by { assert(level_upto(b, s[i], l.assoc@[i], e, e.len() as int)); if l.assoc@[i] is None { assert forall|n: Name| !#[trigger] declared(b, s[i], n) by { if declared(b, s[i], n) { let k = choose|k: int| 0 <= k < e.len() && *(#[trigger] e[k]).0 == n; assert(s[i] != Component::Terminal(token_of(*e[k].0))); } } } }
  assert forall|i: int| 0 <= i < s.len() implies #[trigger] terminal(l, i) == (s[i] is Terminal) by { assert(m.component_map@.contains_key(s[i])); assert(is_symbol(b, s[i]));
    if terminal(l, i) { let k = choose|k: int| 0 <= k < l.all_terminal@.len() && (#[trigger] l.all_terminal@[k]).0 == i; assert(has_num(m, t[k], i)); assert(t.contains(t[k])); }
    if s[i] is Terminal { assert(t.contains(s[i])); let k = choose|k: int| 0 <= k < t.len() && t[k] == s[i]; assert(has_num(m, t[k], l.all_terminal@[k].0 as int)); assert(m.component_map@[s[l.all_terminal@[k].0 as int]].0 == l.all_terminal@[k].0); assert(l.all_terminal@[k].0 == i); } }
  assert(reads(b, l));
  assert forall|k: int| 0 <= k < l.all_terminal@.len() implies (#[trigger] l.all_terminal@[k]).0 < g.comps.len() && term(g, l.all_terminal@[k].0 as int) by { assert(has_num(m, t[k], l.all_terminal@[k].0 as int)); assert(t.contains(t[k])); }
  assert forall|i: int, j: int| 0 <= i < j < l.all_terminal@.len() implies (#[trigger] l.all_terminal@[i]).0 != (#[trigger] l.all_terminal@[j]).0 by { assert(has_num(m, t[i], l.all_terminal@[i].0 as int)); assert(has_num(m, t[j], l.all_terminal@[j].0 as int)); assert(t[i] != t[j]); }
  assert forall|y: int| 0 <= y < g.comps.len() implies #[trigger] listed(l, y) by { let v = l.rule_indices_by_name_id@[y]@; assert(idxs(l.rules@, v, y)); assert forall|r: int| #[trigger] prod(g, y, r) implies exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == r by { assert(l.rules@[r].name_id.0 == y); } }
  assert forall|r: int| 0 <= r < nr(g) implies #[trigger] base_rule(l, r) by { let u = b.rules@[r]; assert(file_rule(b, r)); assert(rule_read(m, l.assoc@, u, l.rules@[r]));
    assert forall|d: int| 0 <= d < ln(g, r) implies #[trigger] base_sym(l, r, d) by { assert(part_ok(b, r, d)); let y = sy(g, r, d); let c = u.components@[d]; assert(has_num(m, c, l.rules@[r].components@[d].0 as int)); if !term(g, y) { let k = choose|k: int| #[trigger] named(b, c, k); assert(rule_read(m, l.assoc@, b.rules@[k], l.rules@[k])); assert(m.component_map@[s[lh(g, k)]].0 == lh(g, k)); assert(m.component_map@[s[y]].0 == y); assert(prod(g, y, k)); } } } }
"""
def new(u):
    u.add("//@fn theory2\n" + NEWPROOF + "\n//@end")
    f = u.fn(LALR, "new", "Lalr")
    f.rw("$v.components.iter().filter(|$c| $m*).for_each(|$e| $b*);", "for __c in $v.components.iter() { let $c = __c; if $m { let $e = __c; $b; } }", note="filter + for_each as a loop")
    f.rw("$v.iter().for_each(|$c| $b*);", "for $c in $v.iter() { $b; }", note="for_each as a loop")
    f.rw("for $n in $b.assoc.keys() {", "let __a = $b.assoc.entries(); for __p in __a.iter() { let $n = __p.0;", note="keys of a map as a list"); f.rw("for ($n, $a) in &$b.assoc {", "let __a = $b.assoc.entries(); for __p in __a.iter() { let $n = __p.0; let $a = __p.1;", note="entries of a map as a list")
    f.rw("$v.sort_by_key(|$c| $c.to_rule_identifier());", "sort_comps_by_identifier(&mut $v);"); f.rw("terminal_components.sort();", "sort_comps(&mut terminal_components);"); f.rw("terminal_components.dedup();", "dedup_comps(&mut terminal_components);")
    f.rw("let $v = $x*.iter().map(|$c| $e*).collect();", "let mut __v: Vec<ComponentId> = Vec::new(); for $c in $x.iter() { __v.push($e); } let $v = __v;", note="map + collect as a loop that pushes")
    f.rw("let $n: Option<Assoc> = $o*.as_ref().map(|$p| $a*).map(|$c| $b*).or_else(|| { $d* }).and_then(|$e| $f*);", "let __p: Option<ComponentId> = match &$o { Some($p) => { let $c = $a; Some($b) } None => { $d } }; let $n: Option<Assoc> = match __p { Some($e) => $f, None => None };", note="Option combinators as matches")
    LAST = "None => { let mut __l: Option<&Component> = None; for __c in $x.iter() { let $c = __c; if $m { __l = Some(__c); } } match __l { Some($e) => Some($b), None => None } }"
    for it in (".filter(|$c| $m*).last()", ".filter(|$c| $m*).next_back()", ".rev().find(|$c| $m*)", ".rfind(|$c| $m*)", ".rev().filter(|$c| $m*).next()"): f.rw("None => { $x*.iter()" + it + ".map(|$e| $b*) }", LAST, note="`%s` as a loop that keeps the last hit" % it)
    for it in (".find(|$c| $m*)", ".filter(|$c| $m*).next()"): f.rw("None => { $x*.iter()" + it + ".map(|$e| $b*) }", LAST.replace("if $m {", "if __l.is_none() && ($m) {"), note="`%s` as a loop that keeps the first hit" % it)
    f.src = re.sub(r'TokenKind::RAW\(("[^"]*")\.to_string\(\)\)', r'TokenKind::raw(Name::new(\1))', f.src); f.src = re.sub(r'("[^"]*")\.to_string\(\)', r'Name::new(\1)', f.src)
    f.rw("vec![None; $n*]", "nones($n)"); f.rw("vec![Vec::new(); $n*]", "lists_of($n)"); f.rw("assoc[$i*].clone()", "clone_opt(&assoc[$i])")
    f.rw("first_set: HashMap::new()", "first_set: FirstMap::new()"); f.rw("action_table: HashMap::new()", "action_table: ActMap::new()"); f.rw("goto_table: HashMap::new()", "goto_table: GotoMap::new()"); f.rw("need_update: HashSet::new()", "need_update: NumSet::new()")
    f.desugar(); f.contract("requires file_ok(*$0) ensures reads(*$0, r), ready(r)"); f.start("let ghost b = *$0; ")
    hook(f)
    if os.environ.get("DBG"): print(f.src)
    f.src = LOOSE + f.src; u.put(f, "Lalr", "impl Lalr")
def hook(f):
    T, N, M = "terminal_components@", "non_terminal_components@", "id_mapper"
    f.before("let mut __i2: usize", "proof { assert(ents(b, __a@)); assert(tlist(b, %s, b.rules@.len() as int, 0)); } " % T)
    f.before("let accept_rule_component = ", "let ghost t0 = %s; let ghost e0 = __a@; " % T)
    f.before("sort_comps(&mut terminal_components);", "let ghost t1 = %s; proof { listing(b, t0, e0, t1); } " % T)
    f.before("dedup_comps(&mut terminal_components);", "let ghost t2 = %s; " % T)
    f.before("sort_comps_by_identifier(&mut terminal_components);", "let ghost t3 = %s; proof { let p = choose|p: Seq<int>| #[trigger] picks(t2, t3, p) && rising(p); no_twins(t2, t3, p); } " % T)
    f.before("let mut __i3: usize", "proof { let p = choose|p: Seq<int>| #[trigger] picks(t3, %s, p) && injective(p); still_distinct(t3, %s, p); assert(all_listed(b, %s)) by { assert forall|c: Component| #[trigger] %s.contains(c) == (is_symbol(b, c) && c is Terminal) by { assert(t1.contains(c) == t2.contains(c)); } } } " % (T, T, T, T))
    f.before("let mut __v: Vec<ComponentId>", "proof { everything(b, id_mapper, %s, %s); } " % (T, N), nth=0)
    f.before("let mut assoc = ", "proof { assert(is_symbol(b, accept_rule_component)); assert(is_symbol(b, end_rule_component)); } ")
    f.before("let mut __i6: usize", "proof { assert(ents(b, __a@)); assert(levels(b, id_mapper, __a@, 0, assoc@)); } ")
    f.before("let mut rule_indices_by_name_id = ", "let ghost e1 = __a@; proof { assert(levels(b, id_mapper, e1, e1.len() as int, assoc@)); } ")
    f.before("match __l {", "proof { if __l is Some { let d = choose|d: int| #[trigger] lastp(*rule, *__l->Some_0, d, rule.components@.len() as int); assert(last_term(*rule, d)); assert(occurs(b, *__l->Some_0, __i7 - 1, d)); assert(is_symbol(b, *__l->Some_0)); } } ")
    f.before("let reduce_priority", "proof { assert(cand(id_mapper, *rule, __p)); } ")
    f.before("let rule = LalrRule", "let ghost u = *rule; ")
    f.before("rule_indices_by_name_id[", "let ghost w0 = rule_indices_by_name_id@; let ghost x0 = lalr_rule@; proof { assert(rule_read(id_mapper, assoc@, u, rule)); } ")
    f.rw("Self { $x* }", "let __s = Self { $x }; proof { whole(b, __s, %s, e1); } __s" % T, note="the value bound to a name")
    f.loop(0, "invariant __i0 <= __e0, nlist(b, %s, __i0 as int), tlist(b, %s, __i0 as int, 0) decreases __e0 - __i0" % (N, T))
    f.loop(1, "invariant __i1 <= __e1, tlist(b, %s, __i0 - 1, __i1 as int) decreases __e1 - __i1" % T, "let ghost g0 = %s; " % T,
      "proof { if *__c is Terminal { pushed_c(g0, *__c); assert(occurs(b, *__c, __i0 - 1, __i1 - 1)); assert(is_symbol(b, *__c)); } else { assert(%s == g0); } assert forall|c: Component, r: int, d: int| #[trigger] occurs(b, c, r, d) && in_order(r, d, __i0 - 1, __i1 as int) implies %s.contains(c) by { if !in_order(r, d, __i0 - 1, __i1 - 1) { assert(c == *__c); } else { assert(g0.contains(c)); } } } " % (T, T))
    f.loop(2, "invariant __i2 <= __e2, tlist(b, %s, b.rules@.len() as int, 0), dlist(b, %s, __a@, __i2 as int) decreases __e2 - __i2" % (T, T), "let ghost g0 = %s; " % T,
      "proof { let x = Component::Terminal(token_of(*name)); pushed_c(g0, x); assert(declared(b, x, *name)); assert(is_symbol(b, x)); assert forall|c: Component, r: int, d: int| #[trigger] occurs(b, c, r, d) && in_order(r, d, b.rules@.len() as int, 0) implies %s.contains(c) by { assert(g0.contains(c)); } } " % T)
    f.loop(3, "invariant __i3 <= __e3, numbered(id_mapper), inside(b, id_mapper), mapped(id_mapper, %s, __i3 as int) decreases __e3 - __i3" % T, "proof { assert(%s.contains(%s[__i3 as int])); room(b, id_mapper, %s[__i3 as int]); } " % (T, T, T))
    f.loop(4, "invariant __i4 <= __e4, numbered(id_mapper), inside(b, id_mapper), mapped(id_mapper, %s, %s.len() as int), mapped(id_mapper, %s, __i4 as int) decreases __e4 - __i4" % (T, T, N), "proof { let c = %s[__i4 as int]; if __i4 < b.rules@.len() { assert(named(b, c, __i4 as int)); } assert(is_symbol(b, c)); room(b, id_mapper, c); } " % N)
    f.loop(5, "invariant __i5 <= __e5, __v@.len() == __i5, collected(id_mapper, %s, __v@) decreases __e5 - __i5" % T)
    f.loop(6, "invariant __i6 <= __e6, levels(b, id_mapper, __a@, __i6 as int, assoc@) decreases __e6 - __i6", "let ghost a0 = assoc@; proof { assert(declared(b, Component::Terminal(token_of(*__a@[__i6 as int].0)), *__a@[__i6 as int].0)); assert(is_symbol(b, Component::Terminal(token_of(*__a@[__i6 as int].0)))); } ",
      "proof { level_step(b, id_mapper, __a@, __i6 - 1, a0, assoc@, id); } ")
    f.loop(7, "invariant __i7 <= __e7, lalr_rule@.len() == __i7, rules_read(b, id_mapper, assoc@, lalr_rule@), rule_indices_by_name_id@.len() == id_mapper.components@.len(), idxs_all(lalr_rule@, rule_indices_by_name_id@) decreases __e7 - __i7",
      "proof { assert(file_rule(b, __i7 as int)); assert(named(b, Component::NonTerminal(b.rules@[__i7 as int].name), __i7 as int)); assert(is_symbol(b, Component::NonTerminal(b.rules@[__i7 as int].name))); } ",
      "proof { idxs_push(x0, w0, rule_indices_by_name_id@, lalr_rule@[x0.len() as int]); assert forall|r: int| 0 <= r < lalr_rule@.len() implies rule_read(id_mapper, assoc@, b.rules@[r], #[trigger] lalr_rule@[r]) by { if r < x0.len() { assert(lalr_rule@[r] == x0[r]); } } } ")
    f.loop(8, "invariant __i8 <= __e8, __v@.len() == __i8, collected(id_mapper, rule.components@, __v@) decreases __e8 - __i8", "proof { let c = rule.components@[__i8 as int]; assert(part_ok(b, __i7 - 1, __i8 as int)); if c is Terminal { assert(occurs(b, c, __i7 - 1, __i8 as int)); } assert(is_symbol(b, c)); } ")
    f.loop(9, "invariant __i9 <= __e9, last_upto(*rule, __l, __i9 as int) decreases __e9 - __i9", "let ghost l0 = __l; ", "proof { if *__c is Terminal { assert(lastp(*rule, *__c, __i9 - 1, __i9 as int)); } else if l0 is Some { let d = choose|d: int| #[trigger] lastp(*rule, *l0->Some_0, d, __i9 - 1); assert(lastp(*rule, *l0->Some_0, d, __i9 as int)); } } ")
