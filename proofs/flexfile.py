"""Reading a lexer specification (flex_file.rs): states, definitions and rules are the file's, in order."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
FF = "crates/lexer-generator/src/flex_file.rs"
SHIM = r"""
global size_of usize == 8;
pub uninterp spec fn ulen(c: char) -> int;
pub open spec fn bytes(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { bytes(s.drop_last()) + ulen(s.last()) } }
#[verifier::external_body] pub proof fn ulen_pos(c: char) ensures 1 <= ulen(c) <= 4, c < '\u{80}' ==> ulen(c) == 1 {}
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\x0C' || c == '\r' }
pub uninterp spec fn wide(c: char) -> bool;  // white space of Unicode beyond ASCII's
pub open spec fn blank(c: char) -> bool { ws(c) || wide(c) }
pub open spec fn letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn prefix(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn all_blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> blank(#[trigger] s[i]) }
// byte offsets of characters
pub open spec fn off(s: Seq<char>, k: int) -> int { bytes(s.subrange(0, k)) }
pub open spec fn edge(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == b }
pub open spec fn idx(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == b }
proof fn off_up(s: Seq<char>, j: int, k: int) requires 0 <= j < k <= s.len() ensures off(s, j) < off(s, k) decreases k
{ ulen_pos(s[k - 1]); assert(s.subrange(0, k).drop_last() =~= s.subrange(0, k - 1)); if j < k - 1 { off_up(s, j, k - 1); } }
proof fn idx_off(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures edge(s, off(s, k)), idx(s, off(s, k)) == k
{ let m = idx(s, off(s, k)); assert(off(s, k) == off(s, k)); if m < k { off_up(s, m, k); } else if k < m { off_up(s, k, m); } }
proof fn off_next(s: Seq<char>, k: int) requires 0 <= k < s.len() ensures off(s, k + 1) == off(s, k) + ulen(s[k]), s[k] < '\u{80}' ==> off(s, k + 1) == off(s, k) + 1
{ ulen_pos(s[k]); assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k)); }
proof fn off_zero(s: Seq<char>) ensures off(s, 0) == 0 { assert(s.subrange(0, 0).len() == 0); }
// first character that is c; first blank
pub open spec fn seek(s: Seq<char>, i: int, c: char) -> int decreases s.len() - i { if 0 <= i < s.len() && s[i] != c { seek(s, i + 1, c) } else { i } }
pub open spec fn seek_blank(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && !blank(s[i]) { seek_blank(s, i + 1) } else { i } }
proof fn seek_in(s: Seq<char>, i: int, c: char) requires 0 <= i <= s.len() ensures i <= seek(s, i, c) <= s.len(), seek(s, i, c) < s.len() ==> s[seek(s, i, c)] == c decreases s.len() - i { if i < s.len() && s[i] != c { seek_in(s, i + 1, c); } }
proof fn seek_blank_in(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures i <= seek_blank(s, i) <= s.len(), seek_blank(s, i) < s.len() ==> blank(s[seek_blank(s, i)]) decreases s.len() - i { if i < s.len() && !blank(s[i]) { seek_blank_in(s, i + 1); } }
pub open spec fn trim_end(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trim_start(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s[0]) { trim_start(s.skip(1)) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
pub open spec fn split_at(s: Seq<char>, c: char, i: int) -> Seq<Seq<char>> decreases s.len() - i { let e = seek(s, i, c); if i < 0 || i > s.len() || e < i { Seq::empty() } else if e >= s.len() { seq![s.subrange(i, s.len() as int)] } else { seq![s.subrange(i, e)] + split_at(s, c, e + 1) } }
pub open spec fn newline(s: Seq<char>, i: int) -> int { seek(s, i, '\n') }
pub open spec fn chomp(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub open spec fn lines(s: Seq<char>, i: int) -> Seq<Seq<char>> decreases s.len() - i { if i < 0 || i >= s.len() { Seq::empty() } else { let e = newline(s, i); if e < i { Seq::empty() } else if e >= s.len() { seq![s.subrange(i, s.len() as int)] } else { seq![chomp(s.subrange(i, e))] + lines(s, e + 1) } } }
// String, the iterator over the lines
#[verifier::external_body] pub struct Str { x: u8 }
pub open spec fn strsv(s: Seq<Str>) -> Seq<Seq<char>> { s.map_values(|x: Str| x@) }
impl Str { pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body] pub fn new() -> (r: Str) ensures r@ == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
  #[verifier::external_body] pub fn push_str(&mut self, c: &Str) ensures final(self)@ == old(self)@ + c@ { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == bytes(self@) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn trim(&self) -> (r: Str) ensures r@ == trimmed(self@) { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Str) ensures r@ == self@ { unimplemented!() } }
pub fn str_clone(s: &Str) -> (r: Str) ensures r@ == s@ { s.clone() }
#[verifier::external_body] pub fn str_of(s: &str) -> (r: Str) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn str_is(a: &Str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn has_prefix(a: &Str, b: &str) -> (r: bool) ensures r == prefix(a@, b@) { unimplemented!() }
#[verifier::external_body] pub fn has_char(a: &Str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@[0] == c) { unimplemented!() }
#[verifier::external_body] pub fn chars_of(s: &Str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn find_char(s: &Str, c: char) -> (r: Option<usize>) ensures (match r { Some(b) => b <= 0x7fff_ffff_ffff_fffe && seek(s@, 0, c) < s@.len() && b == off(s@, seek(s@, 0, c)), None => seek(s@, 0, c) >= s@.len() }) { unimplemented!() }
#[verifier::external_body] pub fn find_blank(s: &Str) -> (r: Option<usize>) ensures (match r { Some(b) => seek_blank(s@, 0) < s@.len() && b == off(s@, seek_blank(s@, 0)), None => seek_blank(s@, 0) >= s@.len() }) { unimplemented!() }
#[verifier::external_body] pub fn char_position_of_blank(s: &Str) -> (r: Option<usize>) ensures (match r { Some(b) => seek_blank(s@, 0) < s@.len() && b == seek_blank(s@, 0), None => seek_blank(s@, 0) >= s@.len() }) { unimplemented!() }
#[verifier::external_body] pub fn before_byte(s: &Str, b: usize) -> (r: Str) requires edge(s@, b as int) ensures r@ == s@.subrange(0, idx(s@, b as int)) { unimplemented!() }
#[verifier::external_body] pub fn from_byte(s: &Str, b: usize) -> (r: Str) requires edge(s@, b as int) ensures r@ == s@.skip(idx(s@, b as int)) { unimplemented!() }
#[verifier::external_body] pub fn between_bytes(s: &Str, a: usize, b: usize) -> (r: Str) requires edge(s@, a as int), edge(s@, b as int), a <= b ensures r@ == s@.subrange(idx(s@, a as int), idx(s@, b as int)) { unimplemented!() }
#[verifier::external_body] pub fn split_all(s: &Str, c: char) -> (r: Vec<Str>) ensures strsv(r@) == split_at(s@, c, 0) { unimplemented!() }
#[verifier::external_body] pub fn split_first(s: &Str, c: char) -> (r: Option<(Str, Str)>) ensures (match r { Some(p) => seek(s@, 0, c) < s@.len() && p.0@ == s@.subrange(0, seek(s@, 0, c)) && p.1@ == s@.skip(seek(s@, 0, c) + 1), None => seek(s@, 0, c) >= s@.len() }) { unimplemented!() }
#[verifier::external_body] pub fn without_prefix(s: &Str, p: &str) -> (r: Option<Str>) ensures (match r { Some(x) => prefix(s@, p@) && x@ == s@.skip(p@.len() as int), None => !prefix(s@, p@) }) { unimplemented!() }
#[verifier::external_body] pub fn begins_name(s: &Str) -> (r: bool) ensures r == (s@.len() > 0 && (letter(s@[0]) || s@[0] == '_')) { unimplemented!() }
#[verifier::external_body] pub fn copies(v: &Vec<Str>) -> (r: Vec<Str>) ensures strsv(r@) == strsv(v@), r@.len() == v@.len() { unimplemented!() }
pub fn name_vec(v: Vec<Str>) -> (r: Vec<Str>) ensures r == v { v }
#[verifier::external_body] pub struct Lines { x: u8 }
impl Lines { pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Str>) ensures (match r { Some(x) => old(self)@.len() > 0 && x@ == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }) { unimplemented!() } }
#[verifier::external_body] pub fn lines_of(s: &Str) -> (r: Lines) ensures r@ == lines(s@, 0) { unimplemented!() }
"""
THEORY = r"""
pub struct RuleV { pub states: Seq<Seq<char>>, pub pattern: Seq<char>, pub actions: Seq<char> }
pub struct DefV { pub name: Seq<char>, pub def: Seq<char> }
pub open spec fn rulev(r: Rule) -> RuleV { RuleV { states: strsv(r.states@), pattern: r.pattern@, actions: r.actions@ } }
pub open spec fn rulesv(s: Seq<Rule>) -> Seq<RuleV> { s.map_values(|r: Rule| rulev(r)) }
pub open spec fn defv(d: Definition) -> DefV { DefV { name: d.name@, def: d.def@ } }
pub open spec fn defsv(s: Seq<Definition>) -> Seq<DefV> { s.map_values(|d: Definition| defv(d)) }
// an action goes on to the line at which its braces balance
pub open spec fn deeper(c: char, d: int) -> int { if c == '{' { d + 1 } else if c == '}' { d - 1 } else { d } }
pub open spec fn depth_at(l: Seq<char>, i: int, d: int) -> int decreases l.len() - i { if 0 <= i < l.len() { depth_at(l, i + 1, deeper(l[i], d)) } else { d } }
pub open spec fn with_nl(l: Seq<char>) -> Seq<char> { l.push('\n') }
pub open spec fn act_of(l: Seq<char>, q: Seq<Seq<char>>, d: int) -> (Seq<char>, Seq<Seq<char>>) decreases q.len() { let e = depth_at(l, 0, d); if e == 0 || q.len() == 0 { (with_nl(l), q) } else { let r = act_of(q[0], q.skip(1), e); (with_nl(l) + r.0, r.1) } }
pub open spec fn fine_action(l: Seq<char>, q: Seq<Seq<char>>, d: int) -> bool decreases q.len() { let e = depth_at(l, 0, d); -0x7000_0000 <= d <= 0x7000_0000 && l.len() <= 0x0fff_ffff && (e == 0 || (q.len() > 0 && fine_action(q[0], q.skip(1), e))) }
// a rule: its pattern up to white space (or <<EOF>>), the action after it
pub open spec fn pat_of(l: Seq<char>) -> Seq<char> { if prefix(l, "<<EOF>>"@) { "<<EOF>>"@ } else { l.subrange(0, seek_blank(l, 0)) } }
pub open spec fn after_pattern(l: Seq<char>) -> Seq<char> { if prefix(l, "<<EOF>>"@) { l.skip(7) } else { l.skip(seek_blank(l, 0)) } }
// the state list in front of it
pub open spec fn listed(l: Seq<char>) -> bool { l.len() > 0 && l[0] == '<' && !prefix(l, "<<"@) }
pub open spec fn states_of(st: Seq<Seq<char>>, l: Seq<char>) -> Seq<Seq<char>> { if listed(l) { split_at(l.subrange(1, seek(l, 0, '>')), ',', 0) } else { st } }
pub open spec fn body_of(l: Seq<char>) -> Seq<char> { if listed(l) { l.skip(seek(l, 0, '>') + 1) } else { l } }
pub open spec fn scope(l: Seq<char>) -> bool { listed(l) && body_of(l) == seq!['{'] }
pub open spec fn active(st: Seq<Seq<char>>) -> Seq<Seq<char>> { if st.len() == 0 { st.push("INITIAL"@) } else { st } }
pub open spec fn ends(l: Seq<char>) -> bool { prefix(l, "%%"@) || (l.len() > 0 && l[0] == '}') }
pub open spec fn empty_line(l: Seq<char>) -> bool { trimmed(l).len() == 0 }
// the rules of a section or scope, and the lines after it
pub open spec fn srules(st: Seq<Seq<char>>, q: Seq<Seq<char>>) -> (Seq<RuleV>, Seq<Seq<char>>) decreases q.len() {
  if q.len() == 0 { (Seq::empty(), q) } else { let l = q[0]; let t = q.skip(1); let s2 = states_of(st, l); let b = body_of(l);
    if ends(l) { (Seq::empty(), t) }
    else if empty_line(l) || (!scope(l) && empty_line(b)) { srules(st, t) }
    else if scope(l) { let x = srules(s2, t); if x.1.len() >= q.len() { x } else { let y = srules(st, x.1); (x.0 + y.0, y.1) } }
    else { let a = act_of(after_pattern(b), t, 0); if a.1.len() >= q.len() { (Seq::empty(), t) } else { let y = srules(st, a.1); (seq![RuleV { states: active(s2), pattern: pat_of(b), actions: a.0 }] + y.0, y.1) } } } }
pub open spec fn fine_rules(st: Seq<Seq<char>>, q: Seq<Seq<char>>) -> bool decreases q.len() {
  q.len() == 0 || { let l = q[0]; let t = q.skip(1); let s2 = states_of(st, l); let b = body_of(l);
    ends(l) || (if empty_line(l) { fine_rules(st, t) } else { (listed(l) ==> seek(l, 0, '>') < l.len()) && (
      if scope(l) { fine_rules(s2, t) && { let x = srules(s2, t); x.1.len() < q.len() && fine_rules(st, x.1) } }
      else if empty_line(b) { fine_rules(st, t) }
      else { (prefix(b, "<<EOF>>"@) || seek_blank(b, 0) < b.len()) && fine_action(after_pattern(b), t, 0) && { let a = act_of(after_pattern(b), t, 0); a.1.len() < q.len() && fine_rules(st, a.1) } }) }) } }
proof fn action_short(l: Seq<char>, q: Seq<Seq<char>>, d: int) ensures act_of(l, q, d).1.len() <= q.len() decreases q.len() { let e = depth_at(l, 0, d); if e != 0 && q.len() > 0 { action_short(q[0], q.skip(1), e); } }
proof fn rules_short(st: Seq<Seq<char>>, q: Seq<Seq<char>>) ensures srules(st, q).1.len() <= q.len() decreases q.len() {
  if q.len() > 0 { let l = q[0]; let t = q.skip(1); let s2 = states_of(st, l); let b = body_of(l); rules_short(st, t); rules_short(s2, t); let x = srules(s2, t); if x.1.len() < q.len() { rules_short(st, x.1); } action_short(after_pattern(b), t, 0); let a = act_of(after_pattern(b), t, 0); if a.1.len() < q.len() { rules_short(st, a.1); } } }
proof fn depth_bound(l: Seq<char>, i: int, d: int) requires 0 <= i <= l.len() ensures -(l.len() - i) <= depth_at(l, i, d) - d <= l.len() - i decreases l.len() - i { if i < l.len() { depth_bound(l, i + 1, deeper(l[i], d)); } }
proof fn rules_step(st: Seq<Seq<char>>, q: Seq<Seq<char>>) requires q.len() > 0, fine_rules(st, q) ensures ({ let l = q[0]; let t = q.skip(1); let s2 = states_of(st, l); let b = body_of(l); let a = act_of(after_pattern(b), t, 0);
    (ends(l) ==> srules(st, q) == (Seq::<RuleV>::empty(), t)) && (!ends(l) && empty_line(l) ==> srules(st, q) == srules(st, t) && fine_rules(st, t)) && (!ends(l) && !empty_line(l) ==> (listed(l) ==> seek(l, 0, '>') < l.len()) && (
      if scope(l) { fine_rules(s2, t) && fine_rules(st, srules(s2, t).1) && srules(st, q) == (srules(s2, t).0 + srules(st, srules(s2, t).1).0, srules(st, srules(s2, t).1).1) }
      else if empty_line(b) { srules(st, q) == srules(st, t) && fine_rules(st, t) }
      else { (prefix(b, "<<EOF>>"@) || seek_blank(b, 0) < b.len()) && fine_action(after_pattern(b), t, 0) && fine_rules(st, a.1) && srules(st, q) == (seq![RuleV { states: active(s2), pattern: pat_of(b), actions: a.0 }] + srules(st, a.1).0, srules(st, a.1).1) })) })
{ let l = q[0]; let t = q.skip(1); action_short(after_pattern(body_of(l)), t, 0); rules_short(states_of(st, l), t); }
proof fn angle(l: Seq<char>) ensures prefix(l, "<"@) == (l.len() > 0 && l[0] == '<') { reveal_strlit("<"); if l.len() > 0 { assert(l.subrange(0, 1) =~= seq![l[0]]); assert("<"@ =~= seq!['<']); assert(seq![l[0]][0] == l[0]); assert("<"@[0] == '<'); } }
proof fn one_byte(l: Seq<char>) requires l.len() > 0, l[0] == '{' ensures (bytes(l) == 1) == (l == seq!['{']) { off_zero(l); off_next(l, 0); assert(l.subrange(0, l.len() as int) =~= l); if l.len() > 1 { off_up(l, 1, l.len() as int); } else { assert(l =~= seq!['{']); } if l == seq!['{'] { assert(l.len() == 1); } }
proof fn rulesv_push(a: Seq<Rule>, r: Rule) ensures rulesv(a.push(r)) == rulesv(a).push(rulev(r)) { assert(rulesv(a.push(r)) =~= rulesv(a).push(rulev(r))); }
proof fn rulesv_add(a: Seq<Rule>, b: Seq<Rule>) ensures rulesv(a + b) == rulesv(a) + rulesv(b) { assert(rulesv(a + b) =~= rulesv(a) + rulesv(b)); }
proof fn strsv_push(a: Seq<Str>, t: Str) ensures strsv(a.push(t)) == strsv(a).push(t@) { assert(strsv(a.push(t)) =~= strsv(a).push(t@)); }
// the section of definitions
pub struct Head { pub states: Seq<Seq<char>>, pub defs: Seq<DefV>, pub rest: Seq<Seq<char>> }
pub open spec fn code_end(q: Seq<Seq<char>>) -> Seq<Seq<char>> decreases q.len() { if q.len() == 0 { q } else if q[0] == "%}"@ { q.skip(1) } else { code_end(q.skip(1)) } }
pub open spec fn names_(l: Seq<char>) -> bool { l.len() > 0 && (letter(l[0]) || l[0] == '_') }
pub open spec fn definition(l: Seq<char>) -> DefV { DefV { name: l.subrange(0, seek(l, 0, '\t')), def: trimmed(l.skip(seek(l, 0, '\t') + 1)) } }
pub open spec fn head(h: Head) -> Head decreases h.rest.len() { let q = h.rest;
  if q.len() == 0 { h } else { let l = q[0]; let t = q.skip(1);
    if prefix(l, "%%"@) { Head { rest: t, ..h } }
    else if prefix(l, "%{"@) { if code_end(t).len() >= q.len() { h } else { head(Head { rest: code_end(t), ..h }) } }
    else if prefix(l, "%x "@) { head(Head { states: h.states.push(l.skip(3)), rest: t, ..h }) }
    else if names_(l) { head(Head { defs: h.defs.push(definition(l)), rest: t, ..h }) }
    else { head(Head { rest: t, ..h }) } } }
pub open spec fn fine_head(q: Seq<Seq<char>>) -> bool decreases q.len() { q.len() == 0 || { let l = q[0]; let t = q.skip(1);
    prefix(l, "%%"@) || (if prefix(l, "%{"@) { code_end(t).len() < q.len() && fine_head(code_end(t)) } else { (!prefix(l, "%x "@) && names_(l) ==> seek(l, 0, '\t') < l.len()) && fine_head(t) }) } }
proof fn code_short(q: Seq<Seq<char>>) ensures code_end(q).len() <= q.len() decreases q.len() { if q.len() > 0 && q[0] != "%}"@ { code_short(q.skip(1)); } }
pub open spec fn joined(q: Seq<Seq<char>>) -> Seq<char> decreases q.len() { if q.len() == 0 { Seq::empty() } else { with_nl(q[0]) + joined(q.skip(1)) } }
pub open spec fn start_of(s: Seq<char>) -> Head { Head { states: seq!["INITIAL"@], defs: Seq::empty(), rest: lines(s, 0) } }
pub open spec fn fine_file(s: Seq<char>) -> bool { fine_head(lines(s, 0)) && fine_rules(Seq::empty(), head(start_of(s)).rest) }
"""
LOOSE = "#[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] "
def norm(t): return re.sub(r"\s+", " ", re.sub(r"//[^\n]*", "", re.sub(r"#\[[^\]]*\]", "", t)))
def strs(t): return re.sub(r"\bString\b", "Str", t)
def pre(f):
    f.src = strs(f.src); f.src = re.sub(r"\bit: &mut impl Iterator<Item = Str>", "it: &mut Lines", f.src)
    f.src = re.sub(r"\bmut it = s\.iter\(\)\.cloned\(\)", "mut it = lines_of(s)", f.src)
    f.rw("$l.trim().is_empty()", "$l.trim().is_empty()", ); f.rw("$l.starts_with('}')", "has_char(&$l, '}')", optional=True) if 0 else None
    f.src = re.sub(r"\b(\w+)\.starts_with\(('(?:[^'\\]|\\.)')\)", r"has_char(&\1, \2)", f.src); f.src = re.sub(r'\b(\w+)\.starts_with\(("[^"]*")\)', r"has_prefix(&\1, \2)", f.src)
    f.src = re.sub(r'\b(\w+)\.strip_prefix\(("[^"]*")\)', r"without_prefix(&\1, \2)", f.src); f.src = re.sub(r"\b(\w+)\.find\(('(?:[^'\\]|\\.)')\)", r"find_char(&\1, \2)", f.src)
    f.src = re.sub(r"\b(\w+)\.find\(char::is_whitespace\)", r"find_blank(&\1)", f.src); f.src = re.sub(r"\b(\w+)\.find\(\|c: char\| c\.is_whitespace\(\)\)", r"find_blank(&\1)", f.src); f.src = re.sub(r"\b(\w+)\.chars\(\)\.position\(\|c\| c\.is_whitespace\(\)\)", r"char_position_of_blank(&\1)", f.src)
    f.src = re.sub(r"\b(\w+)\[([^\]\[]+?)\.\.([^\]\[]+?)\]\.split\((',')\)\.map\(str::to_owned\)\.collect\(\)", r"split_all(&between_bytes(&\1, \2, \3), \4)", f.src)
    f.src = re.sub(r"\b(\w+)\[\.\.(\w+)\]", r"before_byte(&\1, \2)", f.src); f.src = re.sub(r"\b(\w+)\[([\w +]+)\.\.\]", r"from_byte(&\1, \2)", f.src)
    f.src = re.sub(r"\b(\w+)\.split_once\(('(?:[^'\\]|\\.)')\)", r"split_first(&\1, \2)", f.src); f.src = re.sub(r'("[^"]*")\.(?:to_owned|to_string)\(\)', r"str_of(\1)", f.src); f.src = re.sub(r"\.(?:to_owned|to_string)\(\)", ".clone()", f.src)
    f.src = re.sub(r'([\w.]+) \+= "\\n";', r"\1.push('\\n');", f.src); f.src = re.sub(r"([\w.]+) \+= &(\w+);", r"\1.push_str(&\2);", f.src)
    f.src = re.sub(r'\b(\w+) == ("[^"]*")', r"str_is(&\1, \2)", f.src)
    f.src = re.sub(r"\b(\w+)\.split_at\((\w+)\)", r"(before_byte(&\1, \2), from_byte(&\1, \2))", f.src); f.src = re.sub(r"\b(\w+)\.chars\(\)\.all\((?:char::is_whitespace|\|(\w+)(?:: char)?\| \2\.is_whitespace\(\))\)", r"\1.trim().is_empty()", f.src); f.src = re.sub(r"\bstates\.clone\(\)", "copies(&states)", f.src)
def build(u):
    u.add(SHIM)
    for n in ("Definition", "Rule", "FlexFile"): u.add(strs(norm(u.item(FF, "struct", n).text)))
    u.add("//@fn theory\n" + THEORY + "\n//@end"); acts_(u); pat_of(u); srules(u); code(u); whole(u)
    return u
def acts_(u):
    f = u.fn(FF, "parse_actions"); pre(f); f.rw("for c in line.chars() {", "let __cs = chars_of(&line); for c in __cs.iter() {"); f.src = re.sub(r"\bc == '", "*c == '", f.src); f.desugar()
    f.contract("requires fine_action($0@, old($1)@, 0) ensures r@ == act_of($0@, old($1)@, 0).0, final($1)@ == act_of($0@, old($1)@, 0).1")
    f.start("let ghost A = act_of($0@, $1@, 0); ")
    f.before("let __cs =", "let ghost q1 = it@; let ghost d1 = depth as int; let ghost l1 = line@; proof { depth_bound(l1, 0, d1); } ")
    f.before("res.push_str(", "let ghost b0 = res@; ")
    f.loop(0, "invariant fine_action(line@, it@, depth as int), res@ + act_of(line@, it@, depth as int).0 == A.0, act_of(line@, it@, depth as int).1 == A.1", "", "proof { let a = act_of(line@, it@, depth as int).0; assert(res@ =~= b0 + (l1.push('\\n'))); assert(res@ + a =~= b0 + (l1.push('\\n') + a)); } ")
    f.before("return ", "proof { assert(res@ =~= b0 + l1.push('\\n')); } ")
    f.loop(1, "invariant 0 <= __i0 <= __e0, __e0 == l1.len(), it@ == q1, line@ == l1, depth_at(l1, __i0 as int, depth as int) == depth_at(l1, 0, d1), -(__i0 as int) <= depth - d1 <= __i0 decreases __e0 - __i0")
    f.src = LOOSE + f.src; u.put(f)
def pat_of(u):
    f = u.fn(FF, "parse_pattern_actions"); pre(f)
    f.contract('requires !empty_line($0@) ==> (prefix($0@, "<<EOF>>"@) || seek_blank($0@, 0) < $0@.len()) && fine_action(after_pattern($0@), old($1)@, 0) ensures (match r { Some(p) => !empty_line($0@) && p.0@ == pat_of($0@) && p.1@ == act_of(after_pattern($0@), old($1)@, 0).0 && final($1)@ == act_of(after_pattern($0@), old($1)@, 0).1, None => empty_line($0@) && final($1)@ == old($1)@ })')
    f.start('proof { let l = $0@; reveal_strlit("<<EOF>>"); seek_blank_in(l, 0); idx_off(l, seek_blank(l, 0)); } ')
    u.put(f)
def srules(u):
    f = u.fn(FF, "parse_rules"); pre(f); f.src = f.src.replace("while let Some(mut line) = it.next() {", "while let Some(__l) = it.next() { let mut line = __l; "); f.while_let()
    f.rw("rules.extend(parse_rules($a*));", "let mut nested_rules = parse_rules($a); rules.append(&mut nested_rules);")
    f.contract("requires fine_rules(strsv($0@), old($1)@) ensures rulesv(r@) == srules(strsv($0@), old($1)@).0, final($1)@ == srules(strsv($0@), old($1)@).1")
    f.start("let ghost S = strsv($0@); let ghost R = srules(S, $1@); proof { assert(rulesv(Seq::empty()) =~= Seq::<RuleV>::empty()); assert(Seq::<RuleV>::empty() + R.0 =~= R.0); } ")
    f.before("rules.append(", "let ghost n0 = nested_rules@; let ghost z = rulesv(nested_rules@); proof { rulesv_add(g, n0); } ")
    f.before("continue;", "proof { assert(rules@ == g + n0); let y = srules(S, it@).0; assert((rulesv(g) + z) + y =~= rulesv(g) + (z + y)); } ", nth=-1)
    f.before("rules.push($x*);", " proof { assert(strsv(rules@.last().states@) =~= active(states_of(S, q[0]))); } ", after=True)
    f.before("None => {}", "", nth=-1) if 0 else None
    f.loop(0, "invariant strsv(states@) == S, fine_rules(S, it@), rulesv(rules@) + srules(S, it@).0 == R.0, srules(S, it@).1 == R.1", "let ghost q = it@; let ghost g = rules@; proof { reveal_strlit(\"{\"); if q.len() > 0 { let l = q[0]; assert(\"{\"@ =~= seq!['{']); rules_step(S, q); angle(l); if body_of(l).len() > 0 && body_of(l)[0] == '{' { one_byte(body_of(l)); } seek_in(l, 0, '>'); if listed(l) && seek(l, 0, '>') < l.len() { off_zero(l); off_next(l, 0); off_next(l, seek(l, 0, '>')); idx_off(l, 1); idx_off(l, seek(l, 0, '>')); idx_off(l, seek(l, 0, '>') + 1); } } } ",
      "proof { if rules@.len() > g.len() { let x = rules@.last(); assert(rules@ == g.push(x)); rulesv_push(g, x); let y = srules(S, it@).0; assert(rulesv(g).push(rulev(x)) + y =~= rulesv(g) + (seq![rulev(x)] + y)); } } ")
    f.src = LOOSE + f.src; u.put(f)
def code(u):
    f = u.fn(FF, "skip_c_source"); pre(f); f.src = f.src.replace("for line in it {", "while let Some(line) = it.next() {"); f.while_let()
    f.contract("ensures final($0)@ == code_end(old($0)@)"); f.start("let ghost E = code_end($0@); "); f.loop(0, "invariant code_end(it@) == E"); f.src = LOOSE + f.src; u.put(f)
def whole(u):
    f = u.fn(FF, "parse_flex_file"); f.rw("s: impl AsRef<str>", "s: &Str"); m = re.search(r"let (\w+) = s\.as_ref\(\)\.lines\(\)\.map\(str::to_owned\)\.collect::<Vec<_>>\(\);", f.src)
    if m: f.src = re.sub(r"\blet mut it = %s\.(?:iter\(\)\.cloned|into_iter)\(\);" % m.group(1), "let mut it = lines_of(s);", f.src.replace(m.group(0), "")); f.notes.append("the lines as one shim")
    f.rw("let mut it = s.as_ref().lines().map(str::to_owned);", "let mut it = lines_of(s);")
    m = re.search(r'let (\w+) = Regex::new\("\^\(\[a-zA-Z_\]\[a-zA-Z0-9_\]\*\)"\)\.unwrap\(\);', f.src)
    if not m: raise vx.Lost("parse_flex_file: the expression for names")
    f.src = f.src[:m.start()] + f.src[m.end():].replace("%s.is_match(&line)" % m.group(1), "begins_name(&line)"); f.notes.append("the regular expression for names as a shim")
    f.rw("FlexFile::default()", "FlexFile { all_states: Vec::new(), definitions: Vec::new(), rules: Vec::new(), rest_code: Str::new() }")
    pre(f); f.src = f.src.replace("for line in it {", "while let Some(line) = it.next() {"); f.while_let()
    f.contract("requires fine_file($0@) ensures ({ let h = head(start_of($0@)); let z = srules(Seq::empty(), h.rest); strsv(r.all_states@) == h.states && defsv(r.definitions@) == h.defs && rulesv(r.rules@) == z.0 && r.rest_code@ == joined(z.1) })")
    f.start('let ghost H = head(start_of($0@)); let ghost Z = srules(Seq::empty(), H.rest); proof { reveal_strlit("%x "); assert(strsv(Seq::empty()) =~= Seq::<Seq<char>>::empty()); assert(defsv(Seq::empty()) =~= Seq::<DefV>::empty()); } ')
    NOW = "Head { states: strsv(flex_file.all_states@), defs: defsv(flex_file.definitions@), rest: it@ }"
    f.before("let mut it = lines_of(", "proof { assert(strsv(flex_file.all_states@) =~= seq![\"INITIAL\"@]); } ")
    f.before("flex_file.rules = ", "proof { assert(head(%s) == H); assert(%s == H); } " % (NOW, NOW)) if 0 else None
    STEP = "proof { assert(head(%s) == H) by { if flex_file.all_states@.len() > n0.len() { assert(flex_file.all_states@ == n0.push(flex_file.all_states@.last())); strsv_push(n0, flex_file.all_states@.last()); } if flex_file.definitions@.len() > d0.len() { let x = flex_file.definitions@.last(); assert(flex_file.definitions@ == d0.push(x)); assert(defsv(d0.push(x)) =~= defsv(d0).push(defv(x))); } } } " % NOW
    f.before("continue;", STEP)
    f.loop(0, "invariant head(%s) == H, fine_head(it@), flex_file.rules@.len() == 0, flex_file.rest_code@.len() == 0" % NOW, "let ghost q = it@; let ghost n0 = flex_file.all_states@; let ghost d0 = flex_file.definitions@; proof { if q.len() > 0 { code_short(q.skip(1)); seek_in(q[0], 0, '\\t'); } } ", STEP)
    f.loop(1, "invariant strsv(flex_file.all_states@) == H.states, defsv(flex_file.definitions@) == H.defs, rulesv(flex_file.rules@) == Z.0, flex_file.rest_code@ + joined(it@) == joined(Z.1)", "let ghost q = it@; let ghost b0 = flex_file.rest_code@; ", "proof { assert(flex_file.rest_code@ =~= b0 + with_nl(q[0])); assert(flex_file.rest_code@ + joined(it@) =~= b0 + (with_nl(q[0]) + joined(it@))); } ")
    f.src = LOOSE + f.src; u.put(f)
