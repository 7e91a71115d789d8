"""Parser of lexer patterns (crates/automata/src/regexp.rs): the tree built for a text is the one its syntax says (C20)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, _nfa, _rx
RX = "crates/automata/src/regexp.rs"
SHIM = r"""
global size_of usize == 8;
pub assume_specification [ u8::is_ascii_digit ] (c: &u8) -> (r: bool) ensures r == dig(*c);
pub assume_specification [ u8::is_ascii_hexdigit ] (c: &u8) -> (r: bool) ensures r == (hexd(*c) >= 0);
// text of a byte slice that is valid UTF-8
#[verifier::external_body] pub struct Text { x: String }
impl Text { pub uninterp spec fn bytes(&self) -> Seq<u8>;
  #[verifier::external_body] pub fn of(b: &[u8]) -> (r: Text) requires valid_utf8(b@) ensures r.bytes() == b@ { Text { x: std::str::from_utf8(b).unwrap().to_string() } }
  #[verifier::external_body] pub fn number(&self) -> (r: usize) requires number(self.bytes()) ensures r == dec(self.bytes()) { self.x.parse().unwrap() }
  #[verifier::external_body] pub fn string(&self) -> (r: String) ensures r@ == decode_utf8(self.bytes()) { self.x.clone() } }
#[verifier::external_body] pub fn bytes_of(s: &str) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@), r@.len() < 0x7fff_ffff_ffff_ffff { s.as_bytes().to_vec() }
pub fn pop_last(v: &mut Vec<Vec<RegexpNode>>) -> (r: RegexpNode) requires old(v)@.len() > 0, old(v)@.last()@.len() > 0
  ensures final(v)@.len() == old(v)@.len(), final(v)@.drop_last() == old(v)@.drop_last(), final(v)@.last()@ == old(v)@.last()@.drop_last(), r == old(v)@.last()@.last()
{ let ghost v0 = v@; let mut t = match v.pop() { Some(x) => x, None => vstd::pervasive::unreached() }; let r = match t.pop() { Some(x) => x, None => vstd::pervasive::unreached() }; v.push(t); assert(v@.drop_last() =~= v0.drop_last()); r }
pub fn push_last(v: &mut Vec<Vec<RegexpNode>>, n: RegexpNode) requires old(v)@.len() > 0 ensures final(v)@.len() == old(v)@.len(), final(v)@.drop_last() == old(v)@.drop_last(), final(v)@.last()@ == old(v)@.last()@.push(n)
{ let ghost v0 = v@; let mut t = match v.pop() { Some(x) => x, None => vstd::pervasive::unreached() }; t.push(n); v.push(t); assert(v@.drop_last() =~= v0.drop_last()); }
pub fn take_first(v: Vec<RegexpNode>) -> (r: RegexpNode) requires v@.len() > 0 ensures r == v@[0] { let mut v = v; v.remove(0) }
pub fn take_last<T>(v: &mut Vec<T>) -> (r: T) requires old(v)@.len() > 0 ensures r == old(v)@.last(), final(v)@ == old(v)@.drop_last() { match v.pop() { Some(x) => x, None => vstd::pervasive::unreached() } }
pub fn find_byte(v: &Vec<u8>, c: u8) -> (r: Option<usize>) ensures (match r { Some(k) => bt(v@, k as int, c) && forall|m: int| 0 <= m < k ==> #[trigger] v@[m] != c, None => !v@.contains(c) })
{ let mut i: usize = 0; while i < v.len() invariant i <= v@.len(), forall|m: int| 0 <= m < i ==> #[trigger] v@[m] != c decreases v@.len() - i { if v[i] == c { return Some(i); } i = i + 1; } None }
pub fn all_digits(v: &Vec<u8>) -> (r: bool) ensures r == digits(v@) { let mut i: usize = 0; while i < v.len() invariant i <= v@.len(), forall|m: int| 0 <= m < i ==> dig(#[trigger] v@[m]) decreases v@.len() - i { if !v[i].is_ascii_digit() { assert(!dig(v@[i as int])); return false; } i = i + 1; } true }
pub fn part(v: &Vec<u8>, a: usize, b: usize) -> (r: Vec<u8>) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { let mut r: Vec<u8> = Vec::new(); let mut i = a; while i < b invariant a <= i <= b <= v@.len(), r@ == v@.subrange(a as int, i as int) decreases b - i { r.push(v[i]); i = i + 1; assert(r@ =~= v@.subrange(a as int, i as int)); } r }
pub fn starts_at(v: &Vec<u8>, i: usize, m: &[u8]) -> (r: bool) requires i <= v@.len(), v@.len() < 0x7fff_ffff_ffff_ffff, m@.len() < 100 ensures r == (i + m@.len() <= v@.len() && v@.subrange(i as int, i + m@.len()) == m@)
{ if i + m.len() > v.len() { return false; } let mut k: usize = 0; while k < m.len() invariant k <= m@.len(), i + m@.len() <= v@.len(), v@.len() < 0x7fff_ffff_ffff_ffff, m@.len() < 100, forall|j: int| 0 <= j < k ==> v@[i + j] == #[trigger] m@[j] decreases m@.len() - k { if v[i + k] != m[k] { assert(v@.subrange(i as int, i + m@.len())[k as int] != m@[k as int]); return false; } k = k + 1; } assert(v@.subrange(i as int, i + m@.len()) =~= m@); true }
"""
LEM = r"""
pub open spec fn chars(v: Seq<RegexpNode>) -> bool { forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] is Char }
pub open spec fn vals(v: Seq<RegexpNode>) -> Seq<u8> { Seq::new(v.len(), |k: int| v[k]->Char_0) }
// the parser reads the text b at i with the open lists st
pub open spec fn pos(p: RegexpParser, b: Seq<u8>, i: int) -> bool { p.bytes@ == b && p.index == i && 0 <= i <= b.len() < 0x7fff_ffff_ffff_ffff }
pub open spec fn top(p: RegexpParser) -> Seq<Rx> { deeps(p.parsing_context_stack@.last()@) }
pub open spec fn below(p: RegexpParser, q: RegexpParser) -> bool { p.parsing_context_stack@.len() == q.parsing_context_stack@.len() && p.parsing_context_stack@.drop_last() == q.parsing_context_stack@.drop_last() }
pub proof fn vals_push(v: Seq<RegexpNode>, c: u8) requires chars(v) ensures vals(v.push(RegexpNode::Char(c))) == vals(v).push(c), chars(v.push(RegexpNode::Char(c))) { assert(vals(v.push(RegexpNode::Char(c))) =~= vals(v).push(c)); }
pub proof fn vals_take(v: Seq<RegexpNode>, m: int) requires chars(v), 0 <= m <= v.len() ensures vals(v.take(m)) == vals(v).take(m), chars(v.take(m)) { assert(vals(v.take(m)) =~= vals(v).take(m)); }
pub proof fn span_step(lo: u8, hi: u8, k: int) requires lo <= hi, 0 <= k <= hi - lo ensures span(lo, hi).take(k + 1) == span(lo, hi).take(k).push((lo + k) as u8), k == hi - lo ==> span(lo, hi).take(k + 1) == span(lo, hi), span(lo, hi).take(0) == Seq::<u8>::empty() { assert(span(lo, hi).take(k + 1) =~= span(lo, hi).take(k).push((lo + k) as u8)); if k == hi - lo { assert(span(lo, hi).take(k + 1) =~= span(lo, hi)); } assert(span(lo, hi).take(0) =~= Seq::<u8>::empty()); }
pub proof fn deeps_push(v: Seq<RegexpNode>, n: RegexpNode) ensures deeps(v.push(n)) == deeps(v).push(deep(n)) { assert(deeps(v.push(n)) =~= deeps(v).push(deep(n))); }
pub proof fn deeps_pop(v: Seq<RegexpNode>) requires v.len() > 0 ensures deeps(v.drop_last()) == deeps(v).drop_last(), deeps(v).last() == deep(v.last()) { assert(deeps(v.drop_last()) =~= deeps(v).drop_last()); }
pub proof fn deeps_add(v: Seq<RegexpNode>, u: Seq<RegexpNode>) ensures deeps(v + u) == deeps(v) + deeps(u) { assert(deeps(v + u) =~= deeps(v) + deeps(u)); }
pub proof fn deeps_none() ensures deeps(Seq::empty()) == Seq::<Rx>::empty() { assert(deeps(Seq::empty()) =~= Seq::<Rx>::empty()); }
pub proof fn esc_end(b: Seq<u8>, i: int) ensures esc(b, i) is Some ==> i + 2 <= esc(b, i)->Some_0.1 <= b.len() {}
pub proof fn flat_step(v: Seq<Rx>, k: int) requires 0 <= k < v.len() ensures flat(v.take(k + 1)) == flat(v.take(k)) + (match v[k] { Rx::Cat(u) => u, x => seq![x] }) { assert(v.take(k + 1).drop_last() =~= v.take(k)); assert(v.take(k + 1).last() == v[k]); }
pub proof fn one_comma(c: Seq<u8>, k: int) requires comma(c, k) ensures c.contains(44), (choose|m: int| comma(c, m)) == k { assert(c[k] == 44); let m = choose|m: int| comma(c, m); if m < k { assert(c[m] != 44); } if k < m { assert(c[k] != 44); } }
pub proof fn closes(b: Seq<u8>, i: int) requires close(b, i) is Some ensures i <= close(b, i)->Some_0 < b.len(), b[close(b, i)->Some_0] == 125 decreases b.len() - i { if b[i] != 125 { closes(b, i + 1); } }
// a class being read: between items (0), after an element (1), after an element and the minus of a range (2)
pub open spec fn reading(b: Seq<u8>, s: int, total: Option<(Seq<u8>, int)>, ph: int, g: int, acc: Seq<u8>, lo: u8, i: int, n: Seq<u8>, minus: bool) -> bool { total is Some && s <= i <= b.len() && (ph == 0 || ph == 1 || ph == 2)
  && (ph == 0 ==> items(b, s, i, n) == total && !minus && (i == s ==> n.len() == 0)) && (ph == 1 ==> s <= g < i && n == acc.push(lo) && elem(b, g) == Some((lo, i)) && items(b, s, g, acc) == total && minus == bt(b, g, 45) && (g == s ==> acc.len() == 0))
  && (ph == 2 ==> s <= g < i - 1 && n == acc.push(lo).push(45) && elem(b, g) == Some((lo, i - 1)) && items(b, s, g, acc) == total && minus && bt(b, i - 1, 45) && !bt(b, i, 93)) }
pub open spec fn dash(b: Seq<u8>, i: int) -> bool { bt(b, i, 45) && !bt(b, i + 1, 93) }
pub proof fn elem_end(b: Seq<u8>, i: int) requires elem(b, i) is Some ensures i < elem(b, i)->Some_0.1 <= b.len(), 0 <= i < b.len() { esc_end(b, i); }
// between items nothing is pending; a minus is then the first byte or the last
pub proof fn settle(b: Seq<u8>, s: int, total: Option<(Seq<u8>, int)>, ph: int, g: int, acc: Seq<u8>, lo: u8, i: int, n: Seq<u8>, minus: bool) requires reading(b, s, total, ph, g, acc, lo, i, n, minus), ph == 0 || (ph == 1 && !dash(b, i))
  ensures items(b, s, i, n) == total, minus ==> bt(b, i, 93) || n.len() == 1, i == s ==> n.len() == 0, !bt(b, i, 93) ==> elem(b, i) is Some, bt(b, i, 93) ==> total == Some((n, i + 1))
{ if ph == 1 { elem_end(b, g); assert(!bt(b, g, 93)); assert(item(b, s, g) == Some((lo, lo, i))); assert(acc + span(lo, lo) =~= n); } }
// an item that continues as a range
pub proof fn range(b: Seq<u8>, s: int, total: Option<(Seq<u8>, int)>, ph: int, g: int, acc: Seq<u8>, lo: u8, i: int, n: Seq<u8>, minus: bool) requires reading(b, s, total, ph, g, acc, lo, i, n, minus), ph == 1, dash(b, i) ensures !minus, elem(b, i) == Some((45u8, i + 1)) { elem_end(b, g); assert(!bt(b, g, 93)); }
pub proof fn range_end(b: Seq<u8>, s: int, total: Option<(Seq<u8>, int)>, ph: int, g: int, acc: Seq<u8>, lo: u8, i: int, n: Seq<u8>, minus: bool) requires reading(b, s, total, ph, g, acc, lo, i, n, minus), ph == 2 ensures elem(b, i) is Some, !bt(b, i, 45), lo <= elem(b, i)->Some_0.0, items(b, s, elem(b, i)->Some_0.1, acc + span(lo, elem(b, i)->Some_0.0)) == total
{ elem_end(b, g); assert(!bt(b, g, 93)); assert(item(b, s, g) is Some); elem_end(b, i); }
pub proof fn ascii_ok(c: Seq<u8>) requires digits(c) ensures valid_utf8(c) decreases c.len() { if c.len() > 0 { assert(dig(c[0])); let r = pop_first_scalar(c); assert forall|k: int| 0 <= k < r.len() implies dig(#[trigger] r[k]) by { assert(r[k] == c[k + 1]); } ascii_ok(r); } }
"""
def norm(t): return re.sub(r"#\[[^\]]*\]|//.*", "", t)
def build(u):
    u.add("use vstd::utf8::*;"); u.add(norm(u.item(RX, "enum", "RegexpNode").text)); u.add(re.sub(r"(\n\s*)(\w+:)", r"\1pub \2", norm(u.item(RX, "struct", "RegexpParser").text)))
    u.add("//@fn theory\n" + _nfa.TREE + _rx.SYN + LEM + "\n//@end"); u.add(SHIM)
    m = u.item(RX, "const", "EOF_MARKER").text; u.add("fn eof_marker() -> (r: [u8; 7]) ensures r@ == EOF_TEXT() { let r: [u8; 7] = %s; assert(r@ =~= EOF_TEXT()); r }" % m[m.index("=") + 1:].strip().rstrip(";"))
    S = "impl RegexpNode"; P = "impl RegexpParser"
    f = u.fn(RX, "as_char_value", "RegexpNode"); f.rw("panic!($x*)", "vstd::pervasive::unreached()"); f.contract("requires *$0 is Char ensures r == $0->Char_0"); f.start(); u.put(f, "RegexpNode", S)
    f = u.fn(RX, "concat", "RegexpNode"); f.rw("$v.into_iter().next().unwrap()", "take_first($v)")
    f.rw("$v.into_iter().flat_map(|$n| { $b* }).collect()", "{ let mut __r: Vec<RegexpNode> = Vec::new(); let mut __v = $v; while __v.len() > 0 { let $n = __v.remove(0); let mut __m: Vec<RegexpNode> = { $b }; __r.append(&mut __m); } __r }", need=1, note="`flat_map` as a loop")
    f.contract("ensures deep(r) == concat(deeps($0@))"); f.start("let ghost all = $0@; let ghost mut k: int = 0; proof { deeps_none(); assert(deeps(all).take(0) =~= Seq::empty()); }")
    f.loop(0, "invariant 0 <= k <= all.len(), __v@ == all.skip(k), deeps(__r@) == flat(deeps(all).take(k)) decreases __v@.len()", "let ghost r0 = __r@; let ghost x = __v@[0]; ", "")
    f.before("__r.append(&mut __m);", " let ghost m0 = __m@; ")
    f.before("__r.append(&mut __m);", " proof { flat_step(deeps(all), k); assert(x == all[k]); assert(__r@ =~= r0 + m0); deeps_add(r0, m0); match x { RegexpNode::Concatenation(u) => { deep_list(u); } _ => { assert(m0 =~= seq![x]); assert(deeps(m0) =~= seq![deep(x)]); } } assert(__v@ =~= all.skip(k + 1)); k = k + 1; } ", after=True)
    f.before("RegexpNode::Concatenation(flatten)", " proof { assert(deeps(all).take(k) =~= deeps(all)); deep_list(flatten); } ")
    f.src = "#[verifier::loop_isolation(false)] " + f.src; u.put(f, "RegexpNode", S)
    f = u.fn(RX, "alternate", "RegexpNode"); f.rw("$v.into_iter().next().unwrap()", "take_first($v)"); f.contract("ensures deep(r) == alternate(deeps($0@))"); f.start("proof { deep_list($0); } "); u.put(f, "RegexpNode", S)
    keep = "below(*old($0), *final($0)), final($0).parsing_context_stack@ == old($0).parsing_context_stack@"
    at = "pos(*old($0), old($0).bytes@, old($0).index as int)"
    def end(j): return "pos(*final($0), old($0).bytes@, %s)" % j
    f = u.fn(RX, "pop_node", "RegexpParser"); f.rw("self.parsing_context_stack.last_mut().unwrap().pop().unwrap()", "pop_last(&mut self.parsing_context_stack)", need=1)
    f.contract("requires old($0).parsing_context_stack@.len() > 0, old($0).parsing_context_stack@.last()@.len() > 0 ensures below(*old($0), *final($0)), final($0).bytes@ == old($0).bytes@, final($0).index == old($0).index, final($0).parsing_context_stack@.last()@ == old($0).parsing_context_stack@.last()@.drop_last(), r == old($0).parsing_context_stack@.last()@.last()"); f.start(); u.put(f, "RegexpParser", P)
    f = u.fn(RX, "parse_escape_sequence_as_byte", "RegexpParser"); f.rw("unreachable!()", "vstd::pervasive::unreached()")
    f.contract("requires " + at + ", esc(old($0).bytes@, old($0).index as int) is Some ensures esc(old($0).bytes@, old($0).index as int) == Some((r, final($0).index as int)), " + end("final($0).index as int") + ", " + keep)
    f.start("let ghost b = $0.bytes@; let ghost i = $0.index as int; let ghost st = $0.parsing_context_stack@; ")
    inv = "$0.bytes@ == b, $0.parsing_context_stack@ == st, b.len() < 0x7fff_ffff_ffff_ffff, i + 1 < b.len(), bt(b, i, 92), i + 2 <= $0.index <= end, end == i + 4, $0.index <= b.len(), esc(b, i) is Some, c == b[i + 1], "
    h = inv + "c == 120, $0.index >= i + 3 ==> hex(b, i + 2), $0.index == i + 4 ==> hex(b, i + 3), v == (if $0.index == i + 2 { 0 } else if $0.index == i + 3 { hexd(b[i + 2]) } else { hexd(b[i + 2]) * 16 + hexd(b[i + 3]) })"
    o = inv + "oct(b, i + 1), $0.index >= i + 3 ==> oct(b, i + 2), $0.index == i + 4 ==> oct(b, i + 3), v == (if $0.index == i + 2 { c - 48 } else if $0.index == i + 3 { (c - 48) * 8 + (b[i + 2] - 48) } else { (c - 48) * 64 + (b[i + 2] - 48) * 8 + (b[i + 3] - 48) })"
    f.loop(0, "invariant " + h + " ensures " + h + ", $0.index == i + 4 || !hex(b, $0.index as int) decreases end - $0.index"); f.loop(1, "invariant " + o + " ensures " + o + ", $0.index == i + 4 || !oct(b, $0.index as int) decreases end - $0.index")
    f.src = "#[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] " + f.src; u.put(f, "RegexpParser", P)
    f = u.fn(RX, "parse_escape_sequence_as_node", "RegexpParser")
    f.contract("requires " + at + ", esc(old($0).bytes@, old($0).index as int) is Some ensures r is Char, esc(old($0).bytes@, old($0).index as int) == Some((r->Char_0, final($0).index as int)), " + end("final($0).index as int") + ", " + keep); f.start(); u.put(f, "RegexpParser", P)
    f = u.fn(RX, "parse_quoted_string", "RegexpParser");
    Q = "quoted(old($0).bytes@, old($0).index + 1, Seq::empty())"
    f.contract("requires " + at + ", bt(old($0).bytes@, old($0).index as int, 34), " + Q + " is Some ensures deep(r) == concat(" + Q + "->Some_0.0), " + end(Q + "->Some_0.1") + ", " + keep)
    f.start("let ghost b = $0.bytes@; let ghost i = $0.index as int; let ghost st = $0.parsing_context_stack@; let ghost total = quoted(b, i + 1, Seq::empty()); proof { deeps_none(); } ")
    inv = "$0.bytes@ == b, $0.parsing_context_stack@ == st, $0.index <= b.len() < 0x7fff_ffff_ffff_ffff, total is Some"
    f.loop(0, "invariant_except_break quoted(b, $0.index as int, deeps(nodes@)) == total invariant " + inv + " ensures total == Some((deeps(nodes@), $0.index as int)) decreases b.len() - $0.index", "let ghost n0 = nodes@; let ghost i0 = $0.index as int; proof { esc_end(b, i0); } ", "proof { deeps_push(n0, nodes@.last()); assert(nodes@ =~= n0.push(nodes@.last())); } ")
    f.before("continue;", " proof { deeps_push(n0, nodes@.last()); assert(nodes@ =~= n0.push(nodes@.last())); } ")
    f.src = "#[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] " + f.src; u.put(f, "RegexpParser", P)
    f = u.fn(RX, "parse_character_class_to_node", "RegexpParser"); f.rw("$v.into_iter().map(|$n| match $n { $b* }).collect::<Vec<_>>()", "{ let mut __r: Vec<u8> = Vec::new(); let mut __v = $v; while __v.len() > 0 { let $n = __v.remove(0); __r.push(match $n { $b }); } __r }", note="`map` as a loop")
    f.rw("panic!()", "vstd::pervasive::unreached()"); f.rw("unreachable!()", "vstd::pervasive::unreached()"); f.rw("nodes.pop().unwrap()", "take_last(&mut nodes)"); f.rw("for $v in $a..=$b {", "for __w in ($a as u16)..($b as u16 + 1) { let $v = __w as u8;"); f.desugar()
    C = "class(old($0).bytes@, old($0).index as int)"
    f.contract("requires " + at + ", bt(old($0).bytes@, old($0).index as int, 91), " + C + " is Some ensures " + C + " == Some((deep(r), final($0).index as int)), " + end("final($0).index as int") + ", " + keep)
    f.start("let ghost b = $0.bytes@; let ghost i = $0.index as int; let ghost st = $0.parsing_context_stack@; let ghost neg = bt(b, i + 1, 94); let ghost s = if neg { i + 2 } else { i + 1 }; let ghost total = items(b, s, s, Seq::empty()); let ghost mut ph: int = 0; let ghost mut g: int = s; let ghost mut acc = Seq::<u8>::empty(); let ghost mut lo: u8 = 0; ")
    f.before("let mut is_minus = false;", " proof { assert(is_not == neg); assert(vals(nodes@) =~= Seq::empty()); } ")
    f.loop(0, "invariant $0.bytes@ == b, $0.parsing_context_stack@ == st, is_not == neg, b.len() < 0x7fff_ffff_ffff_ffff, chars(nodes@), reading(b, s, total, ph, g, acc, lo, $0.index as int, vals(nodes@), is_minus) decreases b.len() - $0.index",
      """let ghost i0 = $0.index as int; let ghost n0 = nodes@; let ghost v0 = vals(nodes@); let ghost ph0 = ph; let ghost new = elem(b, i0)->Some_0;
      proof { esc_end(b, i0); if ph == 2 { range_end(b, s, total, ph, g, acc, lo, i0, v0, is_minus); elem_end(b, i0); } else if ph == 1 && dash(b, i0) { range(b, s, total, ph, g, acc, lo, i0, v0, is_minus); } else { settle(b, s, total, ph, g, acc, lo, i0, v0, is_minus); if !bt(b, i0, 93) { elem_end(b, i0); } } } """,
      """proof { if ph0 == 2 { ph = 0; span_step(lo, new.0, new.0 - lo); assert(vals(nodes@) == acc + span(lo, new.0)); assert(items(b, s, $0.index as int, vals(nodes@)) == total); assert(reading(b, s, total, ph, g, acc, lo, $0.index as int, vals(nodes@), is_minus)); } else { assert(nodes@ == n0.push(RegexpNode::Char(new.0))); vals_push(n0, new.0); if ph0 == 1 && dash(b, i0) { ph = 2; assert(reading(b, s, total, ph, g, acc, lo, $0.index as int, vals(nodes@), is_minus)); } else { ph = 1; g = i0; acc = v0; lo = new.0; assert(elem(b, g) == Some((lo, $0.index as int))); assert(reading(b, s, total, ph, g, acc, lo, $0.index as int, vals(nodes@), is_minus)); } } }""")
    f.loop(1, "invariant __v@ == n0.skip(__r@.len() as int), __r@.len() <= n0.len(), chars(n0), __r@ == v0.take(__r@.len() as int) decreases __v@.len()", "let ghost r0 = __r@; assert(__v@[0] == n0[__r@.len() as int]); ", "assert(__v@ =~= n0.skip(__r@.len() as int)); assert(__r@ =~= v0.take(__r@.len() as int)); ")
    f.before("let node: RegexpNode = $x*;", " proof { assert(bs@ =~= v0); } ")
    f.before("let last = $x*;", " let ghost m = acc.len() as int; proof { assert(nodes@ == n0.push(RegexpNode::Char(new.0))); assert(ph0 == 2); assert(v0.len() == m + 2); assert(v0[m] == lo); assert(v0[m + 1] == 45); assert(n0.len() == m + 2); } ")
    f.before("{ let mut __i0 = $x*;", " proof { assert(first == lo && last == new.0); assert(nodes@ =~= n0.take(m)); vals_take(n0, m); assert(v0.take(m) =~= acc); span_step(lo, new.0, 0); assert(acc + Seq::<u8>::empty() =~= acc); } ")
    f.loop(2, "invariant __e0 == last as u16 + 1, first == lo, last == new.0, lo <= new.0, first <= __i0 <= __e0, chars(nodes@), vals(nodes@) == acc + span(lo, new.0).take(__i0 - lo) decreases __e0 - __i0", "let ghost nn = nodes@; proof { span_step(lo, new.0, __i0 - lo); } ", "proof { assert(nodes@ == nn.push(RegexpNode::Char((__i0 - 1) as u8))); vals_push(nn, (__i0 - 1) as u8); assert((acc + span(lo, new.0).take(__i0 - 1 - lo)).push((__i0 - 1) as u8) =~= acc + span(lo, new.0).take(__i0 - lo)); }")
    f.before("vstd::pervasive::unreached() }", " proof { let i1 = $I as int; if ph == 2 { range_end(b, s, total, ph, g, acc, lo, i1, vals(nodes@), is_minus); } else { settle(b, s, total, ph, g, acc, lo, i1, vals(nodes@), is_minus); } } ".replace("$I", "self.index"), nth=-1)
    f.src = "#[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] " + f.src; u.put(f, "RegexpParser", P)
    # ------------------------------------------------------------ braces
    f = u.fn(RX, "parse_ref_or_qualifier", "RegexpParser"); f.rw("$v.iter().position(|&$b| $c == $d)", "find_byte(&$v, $d)", note="`position` through a helper"); f.rw("$v.iter().all(|&$b| $c.is_ascii_digit())", "all_digits(&$v)", note="`all` through a helper")
    f.rw("std::str::from_utf8(&$v[0..$i]).unwrap()", "Text::of(part(&$v, 0, $i).as_slice())"); f.rw("std::str::from_utf8(&$v[$i + 1..]).unwrap()", "Text::of(part(&$v, $i + 1, $v.len()).as_slice())"); f.rw("std::str::from_utf8(&$v).unwrap()", "Text::of($v.as_slice())"); f.rw("$s.parse().unwrap()", "$s.number()"); f.rw("$s.to_string()", "$s.string()"); f.rw("$s.into()", "Box::new($s)")
    B = "brace(old($0).bytes@, old($0).index as int, top(*old($0)))"; open_ = "old($0).parsing_context_stack@.len() > 0"
    f.contract("requires " + at + ", " + open_ + ", " + B + " is Some ensures " + B + " == Some((top(*final($0)).push(deep(r)), final($0).index as int)), " + end("final($0).index as int") + ", below(*old($0), *final($0))")
    f.start("let ghost b = $0.bytes@; let ghost i = $0.index as int; let ghost st = $0.parsing_context_stack@; let ghost top0 = top(*$0); let ghost j = close(b, i + 1)->Some_0; proof { closes(b, i + 1); if st.last()@.len() > 0 { deeps_pop(st.last()@); } } ")
    inv = "$0.bytes@ == b, $0.parsing_context_stack@ == st, b.len() < 0x7fff_ffff_ffff_ffff, close(b, i + 1) == Some(j), "
    f.loop(0, "invariant_except_break i + 1 <= $0.index <= j, close(b, $0.index as int) == Some(j), content@ == b.subrange(i + 1, $0.index as int) invariant " + inv + "j < b.len() ensures $0.index == j + 1, content@ == b.subrange(i + 1, j) decreases b.len() - $0.index", "let ghost c0 = content@; proof { closes(b, $0.index as int); } ", "proof { closes(b, $0.index as int); assert(content@ =~= b.subrange(i + 1, $0.index as int)); } ")
    f.before("if let Some($v) = find_byte($x*) {", " let ghost txt = content@; ")
    f.before("let last = self.pop_node();", " proof { one_comma(txt, i as int); assert(txt.subrange(0, choose|k: int| comma(txt, k)).len() >= 0); let k = choose|k: int| comma(txt, k); ascii_ok(txt.subrange(0, k)); ascii_ok(txt.subrange(k + 1, txt.len() as int)); } ", nth=0)
    f.before("let last = self.pop_node();", " proof { ascii_ok(txt); } ", nth=-1)
    f.before("let s = Text::of($x*);", " proof { assert(top(*self) == top0); } ")
    f.src = "#[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] " + f.src; u.put(f, "RegexpParser", P)
    # ------------------------------------------------------------ items, groups, alternatives
    f = u.fn(RX, "parse_group", "RegexpParser"); f.rw("assert_eq!($a*, $b*);", "if !($a == $b) { let __x: () = vstd::pervasive::unreached(); }", note="assert_eq! as a call that must not be reached")
    G = "alts(old($0).bytes@, old($0).index + 1, Seq::empty(), Seq::empty())"
    f.contract("requires " + at + ", bt(old($0).bytes@, old($0).index as int, 40), " + G + " is Some, bt(old($0).bytes@, " + G + "->Some_0.1, 41) ensures deep(r) == " + G + "->Some_0.0, " + end(G + "->Some_0.1 + 1") + ", " + keep + " decreases old($0).bytes@.len() - old($0).index, 0nat"); f.start(); u.put(f, "RegexpParser", P)
    f = u.fn(RX, "parse_single_node", "RegexpParser"); f.rw("self.bytes[self.index..].starts_with(&EOF_MARKER)", "starts_at(&self.bytes, self.index, eof_marker().as_slice())", need=1, note="`starts_with` through a helper"); f.rw("EOF_MARKER.len()", "7"); f.rw("unreachable!()", "vstd::pervasive::unreached()"); f.rw("$s.into()", "Box::new($s)"); f.rw("vec![$x*]", "{ let __v: Vec<u8> = vec![$x]; proof { assert(__v@ =~= seq![10u8]); } __v }")
    O = "one(old($0).bytes@, old($0).index as int, top(*old($0)))"
    f.contract("requires " + at + ", " + open_ + ", " + O + " is Some ensures " + O + " == Some((top(*final($0)).push(deep(r)), final($0).index as int)), " + end("final($0).index as int") + ", below(*old($0), *final($0)) decreases old($0).bytes@.len() - old($0).index, 1nat")
    f.start("let ghost b = $0.bytes@; let ghost i = $0.index as int; let ghost st = $0.parsing_context_stack@; let ghost top0 = top(*$0); proof { esc_end(b, i); if st.last()@.len() > 0 { deeps_pop(st.last()@); } } ")
    f.src = "#[verifier::loop_isolation(false)] " + f.src; u.put(f, "RegexpParser", P)
    f = u.fn(RX, "parse_alternative", "RegexpParser"); f.rw("self.parsing_context_stack.last_mut().unwrap().push($x)", "push_last(&mut self.parsing_context_stack, $x)", need=1); f.rw("self.parsing_context_stack.pop().unwrap()", "take_last(&mut self.parsing_context_stack)", need=1); f.rw("self.parsing_context_stack.push(vec![])", "self.parsing_context_stack.push(Vec::new())"); f.rw("= vec![];", "= Vec::new();")
    L = "alts(old($0).bytes@, old($0).index as int, Seq::empty(), Seq::empty())"
    f.contract("requires " + at + ", " + L + " is Some ensures " + L + " == Some((deep(r), final($0).index as int)), " + end("final($0).index as int") + ", " + keep + " decreases old($0).bytes@.len() - old($0).index, 2nat")
    f.start("let ghost b = $0.bytes@; let ghost i = $0.index as int; let ghost st = $0.parsing_context_stack@; let ghost total = alts(b, i, Seq::empty(), Seq::empty()); ")
    f.before("while self.index < self.bytes.len()", " proof { deeps_none(); assert(self.parsing_context_stack@.drop_last() =~= st); } ")
    inv = "$0.bytes@ == b, b.len() < 0x7fff_ffff_ffff_ffff, i <= $0.index <= b.len(), total is Some, $0.parsing_context_stack@.len() == st.len() + 1, $0.parsing_context_stack@.drop_last() == st, alts(b, $0.index as int, deeps(alt_nodes@), top(*$0)) == total"
    f.loop(0, "invariant " + inv + " ensures " + inv + ", stop(b, $0.index as int) decreases b.len() - $0.index", "let ghost a0 = alt_nodes@; let ghost top1 = top(*$0); let ghost st1 = $0.parsing_context_stack@; ", "")
    f.before("alt_nodes.push($x*);", " proof { deeps_push(a0, alt_nodes@.last()); assert(alt_nodes@ == a0.push(alt_nodes@.last())); } ", after=True, nth=0)
    f.before("self.parsing_context_stack.push(Vec::new());", " proof { deeps_none(); assert(self.parsing_context_stack@.drop_last() =~= st); } ", after=True, nth=-1)
    f.before("push_last(&mut self.parsing_context_stack, node);", " let ghost v0 = self.parsing_context_stack@.last()@; "); f.before("push_last(&mut self.parsing_context_stack, node);", " proof { deeps_push(v0, node0); } ", after=True); f.before("push_last(&mut self.parsing_context_stack, node);", " let ghost node0 = node; ")
    f.before("let nodes = $x*;", " let ghost a0 = alt_nodes@; ", nth=-1); f.before("alt_nodes.push($x*);", " proof { deeps_push(a0, alt_nodes@.last()); assert(alt_nodes@ == a0.push(alt_nodes@.last())); } ", after=True, nth=-1)
    f.src = "#[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] " + f.src; u.put(f, "RegexpParser", P)
    f = u.fn(RX, "parse", "RegexpParser"); f.rw("$p.as_bytes().to_vec()", "bytes_of($p)", need=1)
    f.contract("requires SYN($1@) is Some ensures deep(r) == SYN($1@)->Some_0"); f.start(); u.put(f, "RegexpParser", P)
    return u
