"""IdMapper (generator): symbols get the numbers 0, 1, 2, ... in the order of their first insertion, each its own, and keep them."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
ID = "crates/parser-generator/src/parser_generator/id_mapper.rs"; BI = "crates/parser-generator/src/parser_generator/bison.rs"
TYPES = r"""
global size_of usize == 8;
#[verifier::external_body] pub struct Component { x: u8 }
impl Component { #[verifier::external_body] pub fn clone(&self) -> (r: Component) ensures r == *self { unimplemented!() } }
// HashMap<Component, ComponentId>
#[verifier::external_body] pub struct CompMap { x: u8 }
impl CompMap { pub uninterp spec fn view(&self) -> Map<Component, ComponentId>;
  #[verifier::external_body] pub fn new() -> (r: CompMap) ensures r@ == Map::<Component, ComponentId>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, c: &Component) -> (r: bool) ensures r == self@.contains_key(*c) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, c: &Component) -> (r: Option<&ComponentId>) ensures (match r { Some(v) => self@.contains_key(*c) && *v == self@[*c], None => !self@.contains_key(*c) }) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, c: Component, v: ComponentId) ensures final(self)@ == old(self)@.insert(c, v) { unimplemented!() } }
"""
SPEC = r"""
pub open spec fn numbered(m: IdMapper) -> bool { let s = m.components@; s.len() <= 0x10000 && m.component_map@.len() == s.len()
  && (forall|i: int| 0 <= i < s.len() ==> m.component_map@.contains_key(#[trigger] s[i]) && m.component_map@[s[i]].0 == i)
  && (forall|c: Component| #[trigger] m.component_map@.contains_key(c) ==> m.component_map@[c].0 < s.len() && s[m.component_map@[c].0 as int] == c) }
// each symbol its own number, no number twice, no gaps
pub proof fn own_numbers(m: IdMapper, a: Component, b: Component) requires numbered(m), m.component_map@.contains_key(a), m.component_map@.contains_key(b), m.component_map@[a].0 == m.component_map@[b].0 ensures a == b {}
pub proof fn no_gap(m: IdMapper, i: int) requires numbered(m), 0 <= i < m.components@.len() ensures exists|c: Component| #[trigger] m.component_map@.contains_key(c) && m.component_map@[c].0 == i { assert(m.component_map@.contains_key(m.components@[i])); }
"""
def build(u):
    u.add("#[derive(Clone, Copy)] " + re.sub(r"#\[[^\]]*\]|//.*", "", u.item(BI, "struct", "ComponentId").text)); u.add(TYPES)
    t = re.sub(r"#\[[^\]]*\]|//.*", "", u.item(ID, "struct", "IdMapper").text); t = t.replace("HashMap<Component, ComponentId>", "CompMap").replace("component_map:", "pub component_map:").replace("pub pub", "pub")
    u.add(t); u.add(SPEC)
    fs = []
    f = u.fn(ID, "new"); f.rw("HashMap::new()", "CompMap::new()"); f.contract("ensures numbered(r), r.components@.len() == 0"); f.start(); fs.append(f)
    f = u.fn(ID, "contains"); f.contract("ensures r == old(self).component_map@.contains_key(*$1), *final(self) == *old(self)"); f.start(); fs.append(f)
    f = u.fn(ID, "len"); f.contract("requires numbered(*self) ensures r == self.components@.len()"); f.start(); fs.append(f)
    f = u.fn(ID, "insert"); f.rw("if let Entry::Vacant($e) = self.component_map.entry($k*) {", "let k = $k; if !self.component_map.contains_key(&k) {"); f.rw("e.insert($i*);", "self.component_map.insert(k, $i);")
    f.contract("""requires numbered(*old(self)), old(self).components@.len() < 0x10000 ensures numbered(*final(self)), final(self).component_map@.contains_key($1), old(self).component_map@.contains_key($1) ==> *final(self) == *old(self),
      !old(self).component_map@.contains_key($1) ==> final(self).components@ == old(self).components@.push($1), forall|c: Component| #[trigger] old(self).component_map@.contains_key(c) ==> final(self).component_map@.contains_key(c) && final(self).component_map@[c] == old(self).component_map@[c]""")
    f.start(); fs.append(f)
    f = u.fn(ID, "to_component_id"); f.rw("if let Some(&$i) = $e* {", "if let Some(p) = $e { let $i = *p;", need=False); f.rw("dbg!($x*);", "", need=False); f.rw("panic!($x*);", "vstd::pervasive::unreached()"); f.contract("requires numbered(*self), self.component_map@.contains_key(*$1) ensures r == self.component_map@[*$1]"); f.start(); fs.append(f)
    u.add("impl IdMapper {")
    for f in fs: u.put(f)
    u.add("}")
    return u
