"""The syntax of lexer patterns: from bytes to pattern trees (flex: classes, escapes, quoting, names and repetition in braces, operators, groups, alternatives)."""
SYN = r"""
pub open spec fn bt(b: Seq<u8>, i: int, c: u8) -> bool { 0 <= i < b.len() && b[i] == c }
pub open spec fn hexd(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 102 { c - 87 } else if 65 <= c <= 70 { c - 55 } else { -1 } }
pub open spec fn hex(b: Seq<u8>, i: int) -> bool { 0 <= i < b.len() && hexd(b[i]) >= 0 }
pub open spec fn oct(b: Seq<u8>, i: int) -> bool { 0 <= i < b.len() && 48 <= b[i] <= 55 }
// the escape at i: its byte and where it ends; at most two hexadecimal or three octal digits
pub open spec fn esc(b: Seq<u8>, i: int) -> Option<(u8, int)> {
  if !bt(b, i, 92) || i + 1 >= b.len() { None } else { let c = b[i + 1];
    if c == 97 { Some((7u8, i + 2)) } else if c == 98 { Some((8u8, i + 2)) } else if c == 102 { Some((12u8, i + 2)) } else if c == 110 { Some((10u8, i + 2)) } else if c == 114 { Some((13u8, i + 2)) } else if c == 116 { Some((9u8, i + 2)) } else if c == 118 { Some((11u8, i + 2)) }
    else if c == 120 { if !hex(b, i + 2) { None } else if !hex(b, i + 3) { Some((hexd(b[i + 2]) as u8, i + 3)) } else { Some(((hexd(b[i + 2]) * 16 + hexd(b[i + 3])) as u8, i + 4)) } }
    else if oct(b, i + 1) { if !oct(b, i + 2) { Some(((c - 48) as u8, i + 2)) } else if !oct(b, i + 3) { Some((((c - 48) * 8 + (b[i + 2] - 48)) as u8, i + 3)) } else if c > 51 { None } else { Some((((c - 48) * 64 + (b[i + 2] - 48) * 8 + (b[i + 3] - 48)) as u8, i + 4)) } }
    else { Some((c, i + 2)) } } }
// classes: one byte, plain or escaped; an item is a byte or a range; a plain minus stands for itself first or last only
pub open spec fn elem(b: Seq<u8>, i: int) -> Option<(u8, int)> { if !(0 <= i < b.len()) || b[i] == 93 { None } else if b[i] == 92 { esc(b, i) } else if b[i] == 91 && bt(b, i + 1, 58) { None } else { Some((b[i], i + 1)) } }
pub open spec fn item(b: Seq<u8>, s: int, i: int) -> Option<(u8, u8, int)> {
  match elem(b, i) { None => None, Some((lo, k)) =>
    if bt(b, k, 45) && !bt(b, k + 1, 93) { if bt(b, i, 45) || bt(b, k + 1, 45) { None } else { match elem(b, k + 1) { None => None, Some((hi, e)) => if lo <= hi { Some((lo, hi, e)) } else { None } } } }
    else if bt(b, i, 45) && i != s && !bt(b, k, 93) { None } else { Some((lo, lo, k)) } } }
pub open spec fn span(lo: u8, hi: u8) -> Seq<u8> { Seq::new((hi - lo + 1) as nat, |k: int| (lo + k) as u8) }
pub open spec fn items(b: Seq<u8>, s: int, i: int, acc: Seq<u8>) -> Option<(Seq<u8>, int)> decreases b.len() - i {
  if bt(b, i, 93) { Some((acc, i + 1)) } else { match item(b, s, i) { None => None, Some((lo, hi, e)) => if i < e <= b.len() { items(b, s, e, acc + span(lo, hi)) } else { None } } } }
pub open spec fn class(b: Seq<u8>, i: int) -> Option<(Rx, int)> { let neg = bt(b, i + 1, 94); let s = if neg { i + 2 } else { i + 1 };
  if bt(b, s, 93) { None } else { match items(b, s, s, Seq::empty()) { None => None, Some((v, j)) => Some((if neg { Rx::NoneOf(v) } else { Rx::AnyOf(v) }, j)) } } }
// quoted text
pub open spec fn quoted(b: Seq<u8>, i: int, acc: Seq<Rx>) -> Option<(Seq<Rx>, int)> decreases b.len() - i {
  if !(0 <= i < b.len()) { None } else if b[i] == 34 { Some((acc, i + 1)) } else if b[i] == 92 { match esc(b, i) { None => None, Some((c, e)) => if i < e <= b.len() { quoted(b, e, acc.push(Rx::Char(c))) } else { None } } } else { quoted(b, i + 1, acc.push(Rx::Char(b[i]))) } }
// braces: a repetition or a name
pub open spec fn close(b: Seq<u8>, i: int) -> Option<int> decreases b.len() - i { if !(0 <= i < b.len()) || b[i] == 92 { None } else if b[i] == 125 { Some(i) } else { close(b, i + 1) } }
pub open spec fn dig(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn digits(c: Seq<u8>) -> bool { forall|k: int| 0 <= k < c.len() ==> dig(#[trigger] c[k]) }
pub open spec fn dec(c: Seq<u8>) -> nat decreases c.len() { if c.len() == 0 { 0 } else { dec(c.drop_last()) * 10 + (c.last() - 48) as nat } }
pub open spec fn number(c: Seq<u8>) -> bool { c.len() > 0 && digits(c) && dec(c) <= usize::MAX }
pub open spec fn comma(c: Seq<u8>, k: int) -> bool { bt(c, k, 44) && forall|m: int| 0 <= m < k ==> #[trigger] c[m] != 44 }
pub open spec fn rep_last(v: Seq<Rx>, lo: nat, hi: nat) -> Seq<Rx> { v.drop_last().push(Rx::Rep(Box::new(v.last()), lo, hi)) }
pub open spec fn brace(b: Seq<u8>, i: int, acc: Seq<Rx>) -> Option<(Seq<Rx>, int)> {
  match close(b, i + 1) { None => None, Some(j) => { let c = b.subrange(i + 1, j);
    if c.contains(44) { let k = choose|k: int| comma(c, k); let (lo, hi) = (c.subrange(0, k), c.subrange(k + 1, c.len() as int)); if number(lo) && number(hi) && acc.len() > 0 { Some((rep_last(acc, dec(lo), dec(hi)), j + 1)) } else { None } }
    else if digits(c) { if number(c) && acc.len() > 0 { Some((rep_last(acc, dec(c), dec(c)), j + 1)) } else { None } }
    else if valid_utf8(c) { Some((acc.push(Rx::Ref(decode_utf8(c))), j + 1)) } else { None } } } }
// sequences of items and alternatives
pub open spec fn flat(v: Seq<Rx>) -> Seq<Rx> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + (match v.last() { Rx::Cat(u) => u, x => seq![x] }) } }
pub open spec fn concat(v: Seq<Rx>) -> Rx { if v.len() == 1 { v[0] } else { Rx::Cat(flat(v)) } }
pub open spec fn alternate(v: Seq<Rx>) -> Rx { if v.len() == 1 { v[0] } else { Rx::Alt(v) } }
pub open spec fn EOF_TEXT() -> Seq<u8> { seq![60u8, 60, 69, 79, 70, 62, 62] }
pub open spec fn eof_at(b: Seq<u8>, i: int) -> bool { 0 <= i && i + 7 <= b.len() && b.subrange(i, i + 7) == EOF_TEXT() }
pub open spec fn stop(b: Seq<u8>, i: int) -> bool { i >= b.len() || b[i] == 41 || b[i] == 93 || b[i] == 125 }
pub open spec fn one(b: Seq<u8>, i: int, acc: Seq<Rx>) -> Option<(Seq<Rx>, int)> decreases b.len() - i, 0nat {
  if !(0 <= i < b.len()) { None } else if eof_at(b, i) { Some((acc.push(Rx::Char(0)), i + 7)) } else { let c = b[i];
    if c == 91 { match class(b, i) { None => None, Some((r, j)) => Some((acc.push(r), j)) } }
    else if c == 40 { match alts(b, i + 1, Seq::empty(), Seq::empty()) { None => None, Some((r, j)) => if bt(b, j, 41) { Some((acc.push(r), j + 1)) } else { None } } }
    else if c == 123 { brace(b, i, acc) }
    else if c == 92 { match esc(b, i) { None => None, Some((k, j)) => Some((acc.push(Rx::Char(k)), j)) } }
    else if c == 34 { match quoted(b, i + 1, Seq::empty()) { None => None, Some((v, j)) => Some((acc.push(concat(v)), j)) } }
    else if c == 42 { if acc.len() > 0 { Some((acc.drop_last().push(Rx::Star(Box::new(acc.last()))), i + 1)) } else { None } }
    else if c == 43 { if acc.len() > 0 { Some((acc.drop_last().push(Rx::Plus(Box::new(acc.last()))), i + 1)) } else { None } }
    else if c == 63 { if acc.len() > 0 { Some((rep_last(acc, 0, 1), i + 1)) } else { None } }
    else if c == 46 { Some((acc.push(Rx::NoneOf(seq![10u8])), i + 1)) }
    else if c == 47 || c == 94 || c == 36 || c == 60 || c == 124 || c == 41 || c == 93 || c == 125 { None }
    else { Some((acc.push(Rx::Char(c)), i + 1)) } } }
pub open spec fn alts(b: Seq<u8>, i: int, done: Seq<Rx>, acc: Seq<Rx>) -> Option<(Rx, int)> decreases b.len() - i, 1nat {
  if i < 0 || i > b.len() { None } else if stop(b, i) { if acc.len() == 0 { None } else { Some((alternate(done.push(concat(acc))), i)) } }
  else if b[i] == 124 { if acc.len() == 0 { None } else { alts(b, i + 1, done.push(concat(acc)), Seq::empty()) } }
  else { match one(b, i, acc) { None => None, Some((a, j)) => if i < j <= b.len() { alts(b, j, done, a) } else { None } } } }
// the tree of a pattern text, if it is in the supported syntax
pub open spec fn SYN(s: Seq<char>) -> Option<Rx> { let b = encode_utf8(s); match alts(b, 0, Seq::empty(), Seq::empty()) { None => None, Some((r, j)) => if j == b.len() { Some(r) } else { None } } }
"""
