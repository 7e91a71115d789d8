"""What a scan of a text is (PostgreSQL's lexical rules over the bytes of the text), the invariants of a scanner in the middle of a token, and lemmas."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _lex
SPEC = r"""
// ---- what the next token is, byte by byte; byte 0 stands for the end
pub ghost enum KS { Raw(Seq<u8>), Kw(Seq<char>), Plain(TokenKind) }
pub open spec fn kview(k: TokenKind) -> KS { match k { TokenKind::RAW(x) => KS::Raw(utf8(x@)), TokenKind::KEYWORD(x) => KS::Kw(x@), _ => KS::Plain(k) } }
pub ghost enum Out { Tok(KS, int, int), End, Err(Seq<char>), Report(Seq<char>, int) }
pub open spec fn ch(b: Seq<u8>, i: int) -> u8 { if 0 <= i < b.len() { b[i] } else { 0 } }
pub open spec fn dist(b: Seq<u8>, i: int) -> int { if i < b.len() { b.len() - i } else { 0 } }
pub open spec fn span(b: Seq<u8>, i: int, k: int) -> int decreases dist(b, i) { if 0 <= i < b.len() && cls(k, b[i]) { span(b, i + 1, k) } else { i } }
pub open spec fn plain(k: TokenKind, s: int, e: int) -> Out { Out::Tok(KS::Plain(k), s, e) }
pub open spec fn has_nl(b: Seq<u8>, i: int, j: int) -> bool { exists|p: int| i <= p < j && NL(#[trigger] b[p]) }
pub open spec fn at2(b: Seq<u8>, i: int, c: u8, d: u8) -> bool { 0 <= i && i + 1 < b.len() && b[i] == c && b[i + 1] == d }
// comments nest
pub open spec fn in_comment(b: Seq<u8>, s: int, i: int, depth: int) -> Out decreases dist(b, i) {
  if i >= b.len() { Out::Err("unterminated /* comment"@) }
  else if at2(b, i, 47, 42) { in_comment(b, s, i + 2, depth + 1) }
  else if at2(b, i, 42, 47) { if depth <= 0 { plain(TokenKind::C_COMMENT, s, i + 2) } else { in_comment(b, s, i + 2, depth - 1) } }
  else { in_comment(b, s, i + 1, depth) } }
// quoted strings: q is the state of its kind
pub open spec fn unterminated(q: State) -> Seq<char> { if q is xb { "unterminated bit string literal"@ } else if q is xh { "unterminated hexadecimal string literal"@ } else { "unterminated quoted string"@ } }
pub open spec fn doubles(q: State) -> bool { q is xq || q is xe || q is xus }
pub open spec fn strstate(q: State) -> bool { q is xb || q is xh || q is xq || q is xe || q is xus }
pub open spec fn strkind(q: State) -> TokenKind { if q is xb { TokenKind::BCONST } else if q is xh { TokenKind::XCONST } else if q is xus { TokenKind::USCONST } else { TokenKind::SCONST } }
pub open spec fn strq(b: Seq<u8>, s: int, i: int, q: State) -> Out decreases dist(b, i), 1nat {
  if i >= b.len() { Out::Err(unterminated(q)) }
  else if b[i] == 39 { if doubles(q) && ch(b, i + 1) == 39 { strq(b, s, i + 2, q) } else { after_q(b, s, i + 1, q) } }
  else if q is xe && b[i] == 92 { esc(b, s, i) }
  else { strq(b, s, i + 1, q) } }
// after the closing quote: white space with a line break and another quote continue the string
pub open spec fn after_q(b: Seq<u8>, s: int, p: int, q: State) -> Out decreases dist(b, p), 0nat {
  let j = span(b, p, #SPACE); if p <= j < b.len() && b[j] == 39 && has_nl(b, p, j) { strq(b, s, j + 1, q) } else { plain(strkind(q), s, p) } }
pub open spec fn digit(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 122 { c - 87 } else { c - 55 } }
pub open spec fn val(s: Seq<u8>, radix: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { val(s.drop_last(), radix) * radix + digit(s.last()) } }
pub open spec fn hexes(b: Seq<u8>, i: int, n: int) -> bool { 0 <= i && i + n <= b.len() && forall|p: int| i <= p < i + n ==> HEX(#[trigger] b[p]) }
// \uXXXX and \UXXXXXXXX
pub open spec fn uesc(b: Seq<u8>, i: int) -> Option<(int, int)> { if ch(b, i + 1) == 117 && hexes(b, i + 2, 4) { Some((6, val(b.subrange(i + 2, i + 6), 16))) } else if ch(b, i + 1) == 85 && hexes(b, i + 2, 8) { Some((10, val(b.subrange(i + 2, i + 10), 16))) } else { None } }
pub open spec fn first_half(v: int) -> bool { 0xD800 <= v <= 0xDBFF }
pub open spec fn second_half(v: int) -> bool { 0xDC00 <= v <= 0xDFFF }
pub open spec fn esc(b: Seq<u8>, s: int, i: int) -> Out decreases dist(b, i), 0nat {
  if i >= b.len() || i + 1 >= b.len() { Out::Err(unterminated(State::xe)) }
  else if UU(b[i + 1]) { match uesc(b, i) { None => Out::Report("invalid Unicode escape"@, i), Some((n, v)) =>
    if first_half(v) { second(b, s, i + n) } else if second_half(v) { Out::Err("invalid Unicode surrogate pair"@) } else if 1 <= v <= 0x10FFFF { strq(b, s, i + n, State::xe) } else { Out::Err("invalid Unicode escape value"@) } } }
  else { strq(b, s, i + 2, State::xe) } }
// the second half of a surrogate pair has to follow
pub open spec fn second(b: Seq<u8>, s: int, i: int) -> Out decreases dist(b, i), 2nat {
  if i >= b.len() { Out::Err("invalid Unicode surrogate pair"@) }
  else if b[i] == 92 && UU(ch(b, i + 1)) { match uesc(b, i) { None => Out::Report("invalid Unicode escape"@, i), Some((n, v)) => if second_half(v) { strq(b, s, i + n, State::xe) } else { Out::Err("invalid Unicode surrogate pair"@) } } }
  else { Out::Err("invalid Unicode surrogate pair"@) } }
// quoted identifiers; body: where the text between the quotes starts
pub open spec fn dq(b: Seq<u8>, s: int, i: int, body: int, k: TokenKind) -> Out decreases dist(b, i) {
  if i >= b.len() { Out::Err("unterminated quoted identifier"@) }
  else if b[i] == 34 { if ch(b, i + 1) == 34 { dq(b, s, i + 2, body, k) } else if i == body { Out::Err("zero-length delimited identifier"@) } else { plain(k, s, i + 1) } }
  else { dq(b, s, i + 1, body, k) } }
// dollar quotes end at the first occurrence of the tag
pub open spec fn occurs(b: Seq<u8>, i: int, t: Seq<u8>) -> bool { 0 <= i && i + t.len() <= b.len() && b.subrange(i, i + t.len()) == t }
pub open spec fn dollar(b: Seq<u8>, s: int, i: int, t: Seq<u8>) -> Out decreases dist(b, i) {
  if i >= b.len() { Out::Err("unterminated dollar-quoted string"@) } else if occurs(b, i, t) { plain(TokenKind::SCONST, s, i + t.len()) } else { dollar(b, s, i + 1, t) } }
pub open spec fn dollar_start(b: Seq<u8>, i: int) -> Out {
  let j = span(b, i + 2, #TAGCONT);
  if ch(b, i + 1) == 36 { dollar(b, i, i + 2, b.subrange(i, i + 2)) }
  else if IDSTART(ch(b, i + 1)) { if ch(b, j) == 36 { dollar(b, i, j + 1, b.subrange(i, j + 1)) } else { raw(b, i) } }
  else if DIGIT(ch(b, i + 1)) { param(b, i) } else { raw(b, i) } }
pub open spec fn raw(b: Seq<u8>, i: int) -> Out { Out::Tok(KS::Raw(b.subrange(i, i + 1)), i, i + 1) }
pub open spec fn param(b: Seq<u8>, i: int) -> Out { let e = span(b, i + 1, #DIGIT); if val(b.subrange(i + 1, e), 10) <= 0x7fffffff { plain(TokenKind::PARAM, i, e) } else { Out::Err("parameter number too large"@) } }
// numbers: the kind of the longest match, integers by their value
pub open spec fn strip_us(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else if s[0] == 95 { strip_us(s.drop_first()) } else { seq![s[0]] + strip_us(s.drop_first()) } }
pub open spec fn int_value(s: Seq<u8>, radix: int) -> int { let t = strip_us(s); if radix == 10 { val(t, 10) } else { val(t.skip(2), radix) } }
pub open spec fn int_kind(s: Seq<u8>, radix: int) -> TokenKind { if int_value(s, radix) <= 0x7fffffff { TokenKind::ICONST } else { TokenKind::FCONST } }
pub open spec fn integer(b: Seq<u8>, i: int, e: int, radix: int) -> Out { plain(int_kind(b.subrange(i, e), radix), i, e) }
pub open spec fn number(b: Seq<u8>, i: int) -> Out { let m = longest(TAB(0), b.skip(i)); let e = i + m.0; let r = m.1;
  if r == 64 { integer(b, i, e, 10) } else if r == 65 { integer(b, i, e, 16) } else if r == 66 { integer(b, i, e, 8) } else if r == 67 { integer(b, i, e, 2) }
  else if r == 68 { Out::Err("invalid hexadecimal integer"@) } else if r == 69 { Out::Err("invalid octal integer"@) } else if r == 70 { Out::Err("invalid binary integer"@) }
  else if r == 71 || r == 73 { plain(TokenKind::FCONST, i, e) } else if r == 72 { integer(b, i, e - 2, 10) } else { Out::Err("trailing junk after numeric literal"@) } }
// operators
pub open spec fn pair_at(s: Seq<u8>, p: int) -> bool { at2(s, p, 47, 42) || at2(s, p, 45, 45) }
pub open spec fn cut(s: Seq<u8>, p: int) -> int decreases dist(s, p) { if p >= s.len() { s.len() as int } else if pair_at(s, p) { p } else { cut(s, p + 1) } }
pub open spec fn PM(c: u8) -> bool { c == 43 || c == 45 }
pub open spec fn SPECIAL(c: u8) -> bool { @SPECIAL@ }
pub open spec fn has_special(s: Seq<u8>, n: int) -> bool { exists|p: int| 0 <= p < n && SPECIAL(#[trigger] s[p]) }
pub open spec fn strip(s: Seq<u8>, n: int) -> int decreases n { if n > 1 && PM(s[n - 1]) { strip(s, n - 1) } else { n } }
pub open spec fn op_len(s: Seq<u8>) -> int { let n = cut(s, 0); if n > 1 && PM(s[n - 1]) && !has_special(s, n - 1) { strip(s, n) } else { n } }
pub open spec fn op_out(s: Seq<u8>, n: int, i: int) -> Out {
  if n == 1 && SELF(s[0]) { Out::Tok(KS::Raw(s.take(1)), i, i + 1) }
  else if n == 2 && s[0] == 61 && s[1] == 62 { plain(TokenKind::EQUALS_GREATER, i, i + 2) } else if n == 2 && s[0] == 62 && s[1] == 61 { plain(TokenKind::GREATER_EQUALS, i, i + 2) }
  else if n == 2 && s[0] == 60 && s[1] == 61 { plain(TokenKind::LESS_EQUALS, i, i + 2) } else if n == 2 && (s[0] == 60 && s[1] == 62 || s[0] == 33 && s[1] == 61) { plain(TokenKind::NOT_EQUALS, i, i + 2) }
  else if n >= 64 { Out::Err("operator too long"@) } else { plain(TokenKind::Op, i, i + n) } }
pub open spec fn operator(b: Seq<u8>, i: int) -> Out { let s = b.subrange(i, span(b, i, #OP)); op_out(s, op_len(s), i) }
pub open spec fn symbol(b: Seq<u8>, i: int) -> Out {
  if at2(b, i, 58, 58) { plain(TokenKind::TYPECAST, i, i + 2) } else if at2(b, i, 46, 46) { plain(TokenKind::DOT_DOT, i, i + 2) } else if at2(b, i, 58, 61) { plain(TokenKind::COLON_EQUALS, i, i + 2) }
  else if OP(ch(b, i)) { operator(b, i) } else { raw(b, i) } }
// words
pub uninterp spec fn KW(s: Seq<u8>) -> Option<Seq<char>>;
pub open spec fn lowc(c: u8) -> u8 { if 65 <= c <= 90 { (c + 32) as u8 } else { c } }
pub open spec fn lowb(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| lowc(s[i])) }
pub open spec fn known_word(s: Seq<u8>, i: int, e: int) -> Out { match KW(lowb(s)) { Some(k) => Out::Tok(KS::Kw(k), i, e), None => plain(TokenKind::IDENT, i, e) } }
pub open spec fn ident(b: Seq<u8>, i: int) -> Out { let e = span(b, i + 1, #IDCONT); known_word(b.subrange(i, e), i, e) }
pub open spec fn NCHAR() -> Seq<u8> { seq![110u8, 99u8, 104u8, 97u8, 114u8] }
pub open spec fn word(b: Seq<u8>, i: int) -> Out { let c = b[i]; let d = ch(b, i + 1);
  if d == 39 && B_(c) { strq(b, i, i + 2, State::xb) } else if d == 39 && X_(c) { strq(b, i, i + 2, State::xh) } else if d == 39 && E_(c) { strq(b, i, i + 2, State::xe) }
  else if d == 39 && N_(c) { known_word(NCHAR(), i, i + 1) }
  else if d == 38 && UU(c) { if ch(b, i + 2) == 39 { strq(b, i, i + 3, State::xus) } else if ch(b, i + 2) == 34 { dq(b, i, i + 3, i + 3, TokenKind::UIDENT) } else { plain(TokenKind::IDENT, i, i + 1) } }
  else { ident(b, i) } }
pub open spec fn one(b: Seq<u8>, i: int) -> Out { let c = ch(b, i); let d = ch(b, i + 1);
  if i >= b.len() { Out::End }
  else if at2(b, i, 45, 45) { plain(TokenKind::SQL_COMMENT, i, span(b, i, #NONL)) }
  else if at2(b, i, 47, 42) { in_comment(b, i, i + 2, 0) }
  else if IDSTART(c) { word(b, i) }
  else if c == 39 { strq(b, i, i + 1, State::xq) }
  else if c == 34 { dq(b, i, i + 1, i + 1, TokenKind::IDENT) }
  else if c == 36 { dollar_start(b, i) }
  else if DIGIT(c) || (c == 46 && DIGIT(d)) { number(b, i) }
  else { symbol(b, i) } }
// the token at i or after the white space there
pub open spec fn next(b: Seq<u8>, i: int) -> Out { one(b, span(b, i, #SPACE)) }
// ---- a scanner in the middle of a token
pub uninterp spec fn TAB(st: int) -> Dfa;
pub open spec fn tagged(t: Seq<u8>) -> bool { t.len() >= 2 && t[0] == 36 && t.last() == 36 && (t.len() > 2 ==> IDSTART(t[1])) && forall|p: int| 0 < p < t.len() - 1 ==> TAGCONT(#[trigger] t[p]) }
pub open spec fn wf_state(l: Lexer, i: int) -> bool { let y = l.yylloc_bytes as int; (!(l.state is INITIAL) ==> y < i && BOUNDARY(utf8(l.input@), y)) && match l.state {
  State::xc => l.xcdepth <= i,
  State::xd => y + 1 <= i && (l.literal@.len() == 0 <==> i == y + 1),
  State::xui => y + 3 <= i && (l.literal@.len() == 0 <==> i == y + 3),
  State::xdolq => tagged(utf8(l.dolqstart@)),
  State::xqs => strstate(l.state_before_str_stop),
  State::xeu => first_half(l.utf16_first_part as int),
  _ => true } }
pub open spec fn live_at(l: Lexer, i: int) -> bool { let b = utf8(l.input@); no_nul(b) && 0 <= i <= b.len() <= usize::MAX && BOUNDARY(b, i) && wf_state(l, i) }
// what the scanner will answer if it goes on at i
pub open spec fn goal_at(l: Lexer, i: int) -> Out { let b = utf8(l.input@); let y = l.yylloc_bytes as int; match l.state {
  State::INITIAL => next(b, i), State::xc => in_comment(b, y, i, l.xcdepth as int), State::xqs => after_q(b, y, i, l.state_before_str_stop), State::xeu => second(b, y, i),
  State::xd => dq(b, y, i, y + 1, TokenKind::IDENT), State::xui => dq(b, y, i, y + 3, TokenKind::UIDENT), State::xdolq => dollar(b, y, i, utf8(l.dolqstart@)), q => strq(b, y, i, q) } }
pub open spec fn hit(l: Lexer, r: int) -> bool { live_at(l, l.index_bytes as int) && ({ let b = utf8(l.input@); let x = l.index_bytes as int; let m = longest(TAB(SID(l.state)), b.skip(x));
  m.1 == r && m.0 <= l.yyleng && x + l.yyleng <= b.len() && BOUNDARY(b, x + l.yyleng) && (forall|p: int| x + m.0 <= p < x + l.yyleng ==> 0x80 <= #[trigger] b[p] <= 0xBF) && (m.0 < l.yyleng ==> !BOUNDARY(b, x + m.0)) }) }
pub open spec fn text_is(l: Lexer, t: Seq<char>) -> bool { utf8(t) == utf8(l.input@).subrange(l.index_bytes as int, l.index_bytes + l.yyleng) }
pub open spec fn quoted(k: TokenKind) -> bool { k is SCONST || k is BCONST || k is XCONST || k is USCONST || k is IDENT || k is UIDENT || k is C_COMMENT }
pub open spec fn tok_end(k: TokenKind, l: Lexer) -> int { if quoted(k) { l.yyllocend_bytes as int } else { l.yylloc_bytes + l.yyleng } }
pub open spec fn outcome(g: Out, r: Result<Option<TokenKind>, ParserError>, l: Lexer) -> bool { let b = utf8(l.input@); match r {
  Ok(None) => g is End,
  Ok(Some(k)) => g == Out::Tok(kview(k), l.yylloc_bytes as int, tok_end(k, l)) && l.state is INITIAL && tok_end(k, l) == l.index_bytes + l.yyleng && l.yylloc_bytes < tok_end(k, l) <= b.len() && BOUNDARY(b, l.yylloc_bytes as int) && BOUNDARY(b, tok_end(k, l)) && !(k is EOF),
  Err(ParserError::ScanError { message }) => g == Out::Err(message@),
  Err(ParserError::ScanReport(x)) => g == Out::Report(x.message@, x.position_in_bytes as int) && x.position_in_bytes <= b.len() && BOUNDARY(b, x.position_in_bytes as int),
  Err(_) => false } }
// what every arm of the scanner establishes
pub open spec fn arm_ok(o: Lexer, r: Option<Result<Option<TokenKind>, ParserError>>, l: Lexer) -> bool { l.input@ == o.input@ && l.index_bytes == o.index_bytes && l.index_bytes + l.yyleng <= utf8(l.input@).len() && match r {
  None => l.yyleng >= 1 && live_at(l, l.index_bytes + l.yyleng) && goal_at(l, l.index_bytes + l.yyleng) == goal_at(o, o.index_bytes as int),
  Some(x) => outcome(goal_at(o, o.index_bytes as int), x, l) } }
// ---- lemmas
pub proof fn span_range(b: Seq<u8>, i: int, k: int) requires 0 <= i <= b.len() ensures i <= span(b, i, k) <= b.len(), forall|p: int| i <= p < span(b, i, k) ==> cls(k, #[trigger] b[p]), span(b, i, k) < b.len() ==> !cls(k, b[span(b, i, k)]) decreases dist(b, i) { if i < b.len() && cls(k, b[i]) { span_range(b, i + 1, k); } }
pub proof fn span_run(b: Seq<u8>, i: int, j: int, k: int) requires 0 <= i <= j <= b.len(), forall|p: int| i <= p < j ==> cls(k, #[trigger] b[p]) ensures span(b, i, k) == span(b, j, k) decreases j - i { if i < j { assert(cls(k, b[i])); span_run(b, i + 1, j, k); } }
@SPANS@
pub proof fn run_com(b: Seq<u8>, s: int, i: int, j: int, d: int) requires 0 <= i <= j <= b.len(), forall|p: int| #![trigger at2(b, p, 47, 42)] #![trigger at2(b, p, 42, 47)] i <= p < j ==> !at2(b, p, 47, 42) && !at2(b, p, 42, 47) ensures in_comment(b, s, i, d) == in_comment(b, s, j, d) decreases j - i { if i < j { assert(!at2(b, i, 42, 47)); run_com(b, s, i + 1, j, d); } }
pub proof fn run_str(b: Seq<u8>, s: int, i: int, j: int, q: State) requires 0 <= i <= j <= b.len(), forall|p: int| i <= p < j ==> #[trigger] b[p] != 39 && (q is xe ==> b[p] != 92) ensures strq(b, s, i, q) == strq(b, s, j, q) decreases j - i { if i < j { assert(b[i] != 39); run_str(b, s, i + 1, j, q); } }
pub proof fn run_dq(b: Seq<u8>, s: int, i: int, j: int, body: int, k: TokenKind) requires 0 <= i <= j <= b.len(), forall|p: int| i <= p < j ==> #[trigger] b[p] != 34 ensures dq(b, s, i, body, k) == dq(b, s, j, body, k) decreases j - i { if i < j { assert(b[i] != 34); run_dq(b, s, i + 1, j, body, k); } }
pub proof fn run_dollar(b: Seq<u8>, s: int, i: int, j: int, t: Seq<u8>) requires 0 <= i <= j <= b.len(), forall|p: int| i <= p < j ==> !#[trigger] occurs(b, p, t) ensures dollar(b, s, i, t) == dollar(b, s, j, t) decreases j - i { if i < j { assert(!occurs(b, i, t)); run_dollar(b, s, i + 1, j, t); } }
// a tag does not occur where there is no dollar, nor where the text up to the next dollar is not the tag
pub proof fn no_dollar(b: Seq<u8>, i: int, j: int, t: Seq<u8>) requires tagged(t), 0 <= i, forall|p: int| i <= p < j && p < b.len() ==> #[trigger] b[p] != 36 ensures forall|p: int| i <= p < j ==> !#[trigger] occurs(b, p, t)
{ assert forall|p: int| i <= p < j implies !#[trigger] occurs(b, p, t) by { if occurs(b, p, t) { assert(t[0] == b[p]) by { assert(b.subrange(p, p + t.len())[0] == b[p]); } } } }
// n bytes from i: a dollar, then bytes of tags up to a byte that does not belong to a tag
pub proof fn tag_stops(b: Seq<u8>, i: int, n: int, t: Seq<u8>) requires tagged(t), 0 <= i, 1 <= n, forall|p: int| i < p < i + n ==> TAGCONT(#[trigger] b[p]), i + n <= b.len(), i + n < b.len() ==> !TAGCONT(b[i + n])
  ensures occurs(b, i, t) ==> i + n < b.len() && b[i + n] == 36 && t.len() == n + 1
{ if occurs(b, i, t) { let m = t.len() as int; let w = b.subrange(i, i + m); assert(w[m - 1] == b[i + m - 1]); if m - 1 < n { assert(TAGCONT(b[i + m - 1])); } else if m - 1 > n { assert(w[n] == b[i + n]); assert(TAGCONT(t[n])); } } }
pub proof fn val_bound(s: Seq<u8>, radix: int) requires radix == 16 || radix == 8 || radix == 10 || radix == 2, forall|p: int| 0 <= p < s.len() ==> 0 <= digit(#[trigger] s[p]) < radix ensures 0 <= val(s, radix) < pow(radix, s.len()) decreases s.len()
{ if s.len() > 0 { let h = s.drop_last(); assert forall|p: int| 0 <= p < h.len() implies 0 <= digit(#[trigger] h[p]) < radix by { assert(h[p] == s[p]); } val_bound(h, radix); assert(0 <= digit(s[s.len() - 1]) < radix); let a = val(h, radix); let q = pow(radix, h.len()); assert(a * radix + (radix - 1) < q * radix) by (nonlinear_arith) requires a + 1 <= q, radix > 0; assert(a * radix >= 0) by (nonlinear_arith) requires a >= 0, radix > 0; } }
pub open spec fn pow(r: int, n: nat) -> int decreases n { if n == 0 { 1 } else { pow(r, (n - 1) as nat) * r } }
pub proof fn cut_range(s: Seq<u8>, p: int) requires 0 <= p <= s.len() ensures p <= cut(s, p) <= s.len(), forall|q: int| p <= q < cut(s, p) ==> !#[trigger] pair_at(s, q), cut(s, p) < s.len() ==> pair_at(s, cut(s, p)) decreases dist(s, p) { if p < s.len() && !pair_at(s, p) { cut_range(s, p + 1); } }
pub proof fn cut_is(s: Seq<u8>, p: int, n: int) requires 0 <= p <= n <= s.len(), forall|q: int| p <= q < n ==> !#[trigger] pair_at(s, q), n < s.len() ==> pair_at(s, n) ensures cut(s, p) == n decreases n - p { if p < n { assert(!pair_at(s, p)); cut_is(s, p + 1, n); } }
pub proof fn strip_range(s: Seq<u8>, n: int) ensures strip(s, n) <= n, n >= 1 ==> strip(s, n) >= 1 decreases n { if n > 1 && PM(s[n - 1]) { strip_range(s, n - 1); } }
"""
SPANNED = ["SPACE", "NONL", "TAGCONT", "DIGIT", "IDCONT", "OP"]
def spans():
    o = []
    for c in SPANNED:
        k = _lex.ID[c]
        o.append("pub proof fn end_%s(b: Seq<u8>, i: int, j: int) requires 0 <= i <= j <= b.len(), forall|p: int| i <= p < j ==> %s(#[trigger] b[p]), j < b.len() ==> !%s(b[j]) ensures span(b, i, %d) == j decreases j - i { if i < j { assert(%s(b[i])); end_%s(b, i + 1, j); } }" % (c, c, c, k, c, c))
        o.append("pub proof fn run_%s(b: Seq<u8>, i: int, j: int) requires 0 <= i <= j <= b.len(), forall|p: int| i <= p < j ==> %s(#[trigger] b[p]) ensures span(b, i, %d) == span(b, j, %d) decreases j - i { if i < j { assert(%s(b[i])); run_%s(b, i + 1, j); } }" % (c, c, k, k, c, c))
    return "\n".join(o)
def text():
    t = SPEC.replace("@SPANS@", spans()).replace("@SPECIAL@", _lex.among("~!@#^&|`?%"))
    return re.sub(r"#([A-Z][A-Z_]+)\b", lambda m: str(_lex.ID[m.group(1)]), t)
# ---- the facts about a longest match, about the bytes of the whole text
def absolute(a):
    t = " && ".join([_lex.inline(a)])
    t = re.sub(r"forall\|i: int\| (\d) <= i < n( - \d)? ==> (\w+)\(#\[trigger\] s\[i\]\)", lambda m: "forall|p: int| x + %s <= p < x + n%s ==> %s(#[trigger] b[p])" % (m.group(1), m.group(2) or "", m.group(3)), t)
    t = t.replace("exists|i: int| 0 <= i < n && NL(#[trigger] s[i])", "has_nl(b, x, x + n)")
    t = t.replace("n <= s.len()", "x + n <= b.len()").replace("n < s.len()", "x + n < b.len()")
    t = re.sub(r"s\[(\w+(?: - \d)?)\]", lambda m: "b[x + %s]" % m.group(1) if m.group(1) != "0" else "b[x]", t)
    if "s[" in t or "s." in t: raise Exception("absolute: " + t)
    return t
def use():
    o = []
    for r in sorted(set(_lex.RULES) | set(_lex.EOF.values())):
        per = ["(l.state is %s && (%s))" % (s, " || ".join("(%s)" % absolute(a) for a in m[r])) for s, m in _lex.ALTS.items() if r in m]
        eof = ["l.state is %s" % s for s in _lex.STATES if _lex.EOF[s] == r]
        if per: o.append("pub open spec fn seen_%d(l: Lexer, n: int) -> bool { let b = utf8(l.input@); let x = l.index_bytes as int; x < b.len() && 1 <= n <= l.yyleng && x + l.yyleng <= b.len() && (forall|p: int| x + n <= p < x + l.yyleng ==> 0x80 <= #[trigger] b[p] <= 0xBF) && ((b[x + n - 1] < 0x80 || x + n == b.len() || b[x + n] < 0x80) ==> l.yyleng == n) && (%s) }" % (r, " || ".join(per)))
        else: o.append("pub open spec fn seen_%d(l: Lexer, n: int) -> bool { false }" % r)
        o.append("pub open spec fn ended_%d(l: Lexer) -> bool { l.index_bytes == utf8(l.input@).len() && l.yyleng == 0 && (%s) }" % (r, " || ".join(eof) or "false"))
        o.append("pub proof fn use_%d(l: Lexer) -> (n: int) requires hit(l, %d) ensures n == longest(TAB(SID(l.state)), utf8(l.input@).skip(l.index_bytes as int)).0, %s\n{ hide(hit); reveal(fact_%d); let b = utf8(l.input@); let x = l.index_bytes as int; let s = b.skip(x); let m = longest(TAB(SID(l.state)), s); use_any(l, %d); in_skip(b, x); assert(x < b.len() ==> fact_%d(SID(l.state), s, m.0)); m.0 }"
                 % (r, r, "seen_%d(l, n) || ended_%d(l)" % (r, r) if per and eof else ("seen_%d(l, n)" % r if per else "ended_%d(l)" % r), r, r, r) if per else
                 "pub proof fn use_%d(l: Lexer) -> (n: int) requires hit(l, %d) ensures n == 0, ended_%d(l)\n{ let b = utf8(l.input@); let x = l.index_bytes as int; let s = b.skip(x); let m = longest(TAB(SID(l.state)), s); use_any(l, %d); m.0 }" % (r, r, r, r))
    known = " || ".join("r == %d" % r for r in sorted(set(_lex.RULES) | set(_lex.EOF.values())))
    o.append("pub open spec fn known_rule(r: int) -> bool { %s }" % known)
    o.append("pub proof fn use_known(l: Lexer, r: int) requires hit(l, r) ensures known_rule(r) { use_any(l, r); }")
    return USE + "\n".join(o)
USE = r"""
#[verifier::external_body] pub proof fn tables_ok(st: int) requires 0 <= st < 12 ensures dfa_ok(TAB(st), st) {}
pub proof fn in_skip(b: Seq<u8>, x: int) requires 0 <= x <= b.len() ensures b.skip(x).len() == b.len() - x, forall|p: int| x <= p < b.len() ==> #[trigger] b[p] == b.skip(x)[p - x], forall|i: int| 0 <= i < b.len() - x ==> #[trigger] b.skip(x)[i] == b[x + i] {}
pub proof fn use_any(l: Lexer, r: int) requires hit(l, r) ensures ({ let b = utf8(l.input@); let x = l.index_bytes as int; let n = longest(TAB(SID(l.state)), b.skip(x)).0;
    x <= b.len() && x + l.yyleng <= b.len() && (forall|p: int| x + n <= p < x + l.yyleng ==> 0x80 <= #[trigger] b[p] <= 0xBF) && n <= l.yyleng && (if x == b.len() { r == eof_rule(SID(l.state)) && n == 0 && l.yyleng == 0 } else { 1 <= n <= l.yyleng && x + n <= b.len() && fact(SID(l.state), r, b.skip(x), n) && ((b[x + n - 1] < 0x80 || x + n == b.len() || b[x + n] < 0x80) ==> l.yyleng == n) } ) })
{ let b = utf8(l.input@); let x = l.index_bytes as int; let s = b.skip(x); let n = longest(TAB(SID(l.state)), s).0; tables_ok(SID(l.state)); in_skip(b, x); boundaries(l.input@); if x == b.len() { assert(s =~= seq![]); } else { assert(no_nul(s)) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 0 by { assert(s[i] == b[x + i]); } }
   if b[x + n - 1] < 0x80 { ascii_next(l.input@, x + n); } if x + n < b.len() && b[x + n] < 0x80 { bound_iff(l.input@, x + n); } } }
"""
def build(u): raise Exception("library")
