"""The scanner: every token, error and position it reports is the one the lexical rules give (C03-C09), without a crash (C01)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, _drv, _lex, _scan, _utf8, _arms, tokens
R = vx.R
D = "crates/postgresql-cst-parser/src/lexer/"
G, UT, PO, PE, LX = D + "generated.rs", D + "util.rs", D + "lexer_ported.rs", D + "parser_error.rs", "crates/postgresql-cst-parser/src/lexer.rs"
MACROS = {
 "yyerror": "macro_rules ! yyerror { ( $ msg : expr ) => { return Err ( ParserError :: new_error ( $ msg ) ) } ; }",
 "yyterminate": "macro_rules ! yyterminate { ( ) => { return Ok ( None ) ; } ; }",
 "ereport": None }
SHIM = r"""
#[verifier::external_body] pub struct KeywordMap { x: u8 }
#[verifier::external_body] pub fn get_keyword_map() -> KeywordMap { unimplemented!() }
// keyword_map.get(s)
#[verifier::external_body] pub fn map_get(m: &KeywordMap, s: &str) -> (r: Option<&'static str>) ensures match r { Some(k) => KW(utf8(s@)) == Some(k@), None => KW(utf8(s@)) is None } { unimplemented!() }
#[verifier::external_body] pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] pub fn no_text() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] pub fn copy_of(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body] pub fn clear_text(s: &mut String) ensures final(s)@ == Seq::<char>::empty() { s.clear() }
#[verifier::external_body] pub fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body] pub fn push_text(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] pub fn is_blank(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.len() == 0 }
#[verifier::external_body] pub fn str_len(s: &str) -> (r: usize) ensures r == utf8(s@).len() { s.len() }
#[verifier::external_body] pub fn as_bytes_of(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { s.as_bytes() }
#[verifier::external_body] pub fn slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str) requires a <= b <= utf8(s@).len(), BOUNDARY(utf8(s@), a as int), BOUNDARY(utf8(s@), b as int) ensures utf8(r@) == utf8(s@).subrange(a as int, b as int) { &s[a..b] }
#[verifier::external_body] pub fn slice_from<'a>(s: &'a str, a: usize) -> (r: &'a str) requires a <= utf8(s@).len(), BOUNDARY(utf8(s@), a as int) ensures utf8(r@) == utf8(s@).skip(a as int) { &s[a..] }
#[verifier::external_body] pub fn slice_len<'a>(s: &'a str, a: usize, n: usize) -> (r: &'a str) requires a + n <= utf8(s@).len(), BOUNDARY(utf8(s@), a as int), BOUNDARY(utf8(s@), a + n) ensures utf8(r@) == utf8(s@).subrange(a as int, a + n) { &s[a..][..n] }
#[verifier::external_body] pub fn is_bound(s: &str, a: usize) -> (r: bool) ensures r == (a <= utf8(s@).len() && BOUNDARY(utf8(s@), a as int)) { s.is_char_boundary(a) }
#[verifier::external_body] pub fn char_at(s: &str, i: usize) -> (r: char) requires i < s@.len() ensures r == s@[i as int] { s.chars().nth(i).unwrap() }
#[verifier::external_body] pub fn byte_at(s: &str, i: usize) -> (r: u8) requires i < utf8(s@).len() ensures r == utf8(s@)[i as int] { s.as_bytes()[i] }
#[verifier::external_body] pub fn first_byte(s: &str) -> (r: Option<u8>) ensures match r { Some(c) => utf8(s@).len() > 0 && c == utf8(s@)[0], None => utf8(s@).len() == 0 } { s.bytes().next() }
#[verifier::external_body] pub fn same_text(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn pair_is(s: &str, c: u8, d: u8) -> (r: bool) requires utf8(s@).len() >= 2, BOUNDARY(utf8(s@), 2) ensures r == (utf8(s@)[0] == c && utf8(s@)[1] == d) { s.as_bytes()[..2] == [c, d] }
#[verifier::external_body] pub fn find_pair(s: &str, c: u8, d: u8) -> (r: Option<usize>) ensures match r { Some(i) => at2(utf8(s@), i as int, c, d) && forall|p: int| 0 <= p < i ==> !#[trigger] at2(utf8(s@), p, c, d), None => forall|p: int| !#[trigger] at2(utf8(s@), p, c, d) } { unimplemented!() }
#[verifier::external_body] pub fn has_char(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
#[verifier::external_body] pub fn no_underscores(s: &str) -> (r: String) ensures utf8(r@) == strip_us(utf8(s@)) { s.replace('_', "") }
#[verifier::external_body] pub fn ascii_lower(s: &str) -> (r: String) ensures utf8(r@) == lowb(utf8(s@)) { s.to_ascii_lowercase() }
pub open spec fn digits_of(s: Seq<u8>, radix: int) -> bool { s.len() > 0 && forall|p: int| 0 <= p < s.len() ==> ALNUM(#[trigger] s[p]) && 0 <= digit(s[p]) < radix }
pub open spec fn ALNUM(c: u8) -> bool { (48 <= c && c <= 57) || (65 <= c && c <= 90) || (97 <= c && c <= 122) }
#[verifier::external_body] pub fn u32_of(s: &str, radix: u32) -> (r: u32) requires digits_of(utf8(s@), radix as int), val(utf8(s@), radix as int) <= u32::MAX ensures r == val(utf8(s@), radix as int) { u32::from_str_radix(s, radix).unwrap() }
#[verifier::external_body] pub fn i32_of(s: &str, radix: u32) -> (r: Result<i32, ()>) requires digits_of(utf8(s@), radix as int) ensures r.is_ok() == (val(utf8(s@), radix as int) <= i32::MAX), r.is_ok() ==> r->Ok_0 == val(utf8(s@), radix as int) { i32::from_str_radix(s, radix).map_err(|_| ()) }
#[verifier::external_body] pub fn char_of(c: u32) -> (r: Option<char>) ensures r is Some <==> (c <= 0xD7FF || 0xE000 <= c <= 0x10FFFF), r is Some ==> r->0 as u32 == c { char::from_u32(c) }
#[verifier::external_body] pub fn char_len(c: char) -> (r: usize) ensures 1 <= r <= 4 { c.len_utf8() }
#[verifier::external_body] pub fn never_here() requires false { unreachable!() }
#[verifier::external_body] pub fn has_nul(s: &str) -> (r: bool) ensures r == !no_nul(utf8(s@)) { s.contains('\0') }
// the static tables: row and accept vector number k
#[verifier::external_body] pub fn tr_table(k: usize) -> (r: &'static [[u8; 256]]) ensures r@.len() == TAB(k as int).tr.len(), forall|q: int| 0 <= q < r@.len() ==> (#[trigger] r@[q])@ == TAB(k as int).tr[q] { unimplemented!() }
#[verifier::external_body] pub fn ac_table(k: usize) -> (r: &'static [u8]) ensures r@ == TAB(k as int).ac { unimplemented!() }
"""
LEMMAS = r"""
pub proof fn dead(d: Dfa, s: Seq<u8>, i: int, j: int) requires 0 <= i <= j, run(d, s, i) == 255 ensures run(d, s, j) == 255, i >= 1 && i <= j ==> best(d, s, j) == best(d, s, i), i < j ==> best(d, s, j) == best(d, s, i) decreases j - i { if i < j { dead(d, s, i, j - 1); } }
pub proof fn run_in(d: Dfa, s: Seq<u8>, i: int) requires dshape(d), 0 <= i <= s.len() ensures run(d, s, i) == 255 || 0 <= run(d, s, i) < d.ac.len() decreases i { if i > 0 { run_in(d, s, i - 1); } }
pub proof fn lit_self() ensures forall|c: u8| c < 128 ==> (",()[].;:+-*/%^<>="@.contains(#[trigger] (c as char)) <==> SELF(c))
{ reveal_strlit(",()[].;:+-*/%^<>="); let s = ",()[].;:+-*/%^<>="@; assert(s.len() == 17); 
  assert forall|c: u8| c < 128 implies (s.contains(#[trigger] (c as char)) <==> SELF(c)) by { let x = c as char;
    assert(s[0] == ',' && s[1] == '(' && s[2] == ')' && s[3] == '[' && s[4] == ']' && s[5] == '.' && s[6] == ';' && s[7] == ':' && s[8] == '+' && s[9] == '-' && s[10] == '*' && s[11] == '/' && s[12] == '%' && s[13] == '^' && s[14] == '<' && s[15] == '>' && s[16] == '='); } }
pub proof fn lit_nchar() ensures lowb(utf8("nchar"@)) == NCHAR(), lowb(NCHAR()) == NCHAR() { assert(lowb(NCHAR()) =~= NCHAR()); reveal_strlit("nchar"); admit_ascii("nchar"@); assert(lowb(utf8("nchar"@)) =~= NCHAR()); }
pub proof fn admit_ascii(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127 ensures utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] utf8(s)[i]) == s[i] as u8
{ reveal(utf8); is_ascii_chars_encode_utf8(s); }
"""
NUMS = r"""
pub open spec fn int_text(w: Seq<u8>, radix: int) -> bool { if radix == 10 { w.len() > 0 && DIGIT(w[0]) && forall|p: int| 0 <= p < w.len() ==> DIGIT_(#[trigger] w[p]) } else { w.len() >= 3 && w[0] == 48 && w[1] != 95 && w[1] != 43 && w[1] != 45 && w.last() != 95 && w[1] < 128
   && (radix == 16 || radix == 8 || radix == 2) && forall|p: int| 2 <= p < w.len() ==> #[trigger] w[p] == 95 || dig(radix, w[p]) } }
pub open spec fn dig(radix: int, c: u8) -> bool { if radix == 16 { HEX(c) } else if radix == 8 { OCT(c) } else if radix == 2 { BIN(c) } else { DIGIT(c) } }
pub proof fn strip_in(s: Seq<u8>, radix: int) requires forall|p: int| 0 <= p < s.len() ==> #[trigger] s[p] == 95 || dig(radix, s[p]) ensures forall|p: int| 0 <= p < strip_us(s).len() ==> dig(radix, #[trigger] strip_us(s)[p]) decreases s.len()
{ if s.len() > 0 { let r = s.drop_first(); assert forall|p: int| 0 <= p < r.len() implies #[trigger] r[p] == 95 || dig(radix, r[p]) by { assert(r[p] == s[p + 1]); } strip_in(r, radix); assert(s[0] == 95 || dig(radix, s[0])); let t = strip_us(s); if s[0] != 95 { assert(t == seq![s[0]] + strip_us(r)); assert forall|p: int| 0 <= p < t.len() implies dig(radix, #[trigger] t[p]) by { if p > 0 { assert(t[p] == strip_us(r)[p - 1]); } else { assert(t[0] == s[0]); } } } else { assert(t == strip_us(r)); } } }
pub proof fn strip_some(s: Seq<u8>) requires s.len() > 0, s.last() != 95 ensures strip_us(s).len() > 0 decreases s.len() { if s.len() > 1 { assert(s.drop_first().last() == s.last()); strip_some(s.drop_first()); } }
// what is left of an integer literal without underscores
pub proof fn int_digits(w: Seq<u8>, radix: int) requires int_text(w, radix) ensures radix == 10 ==> digits_of(strip_us(w), 10), radix != 10 ==> strip_us(w).len() > 2 && strip_us(w)[0] < 128 && strip_us(w)[1] < 128 && digits_of(strip_us(w).skip(2), radix)
{ if radix == 10 { strip_in(w, 10); } else { let r = w.drop_first(); let q = r.drop_first(); assert forall|p: int| 0 <= p < q.len() implies #[trigger] q[p] == 95 || dig(radix, q[p]) by { assert(q[p] == w[p + 2]); } assert(q.last() == w.last()); strip_in(q, radix); strip_some(q); assert(r[0] == w[1]); assert(strip_us(w) == seq![w[0]] + strip_us(r)); assert(strip_us(r) == seq![r[0]] + strip_us(q)); assert(strip_us(w).skip(2) =~= strip_us(q)); assert(strip_us(w)[0] == w[0]); assert(strip_us(w)[1] == w[1]); } }
pub proof fn op_two(s: Seq<u8>) requires s.len() == 2, s[1] == 61 || s[1] == 62 ensures op_len(s) == 2 { reveal_with_fuel(cut, 4); }
pub proof fn op_one(s: Seq<u8>) requires s.len() == 1 ensures op_len(s) == 1 { reveal_with_fuel(cut, 4); }
"""
TOP = r"""
// a token starts where it was begun; raw tokens are single bytes
pub open spec fn from(g: Out, s: int) -> bool { match g { Out::Tok(k, a, e) => a == s && !(k is Raw), _ => true } }
pub proof fn com_from(b: Seq<u8>, s: int, i: int, d: int) ensures from(in_comment(b, s, i, d), s) decreases dist(b, i) { if i < b.len() { if at2(b, i, 47, 42) { com_from(b, s, i + 2, d + 1); } else if at2(b, i, 42, 47) { if d > 0 { com_from(b, s, i + 2, d - 1); } } else { com_from(b, s, i + 1, d); } } }
pub proof fn dq_from(b: Seq<u8>, s: int, i: int, body: int, k: TokenKind) ensures from(dq(b, s, i, body, k), s) decreases dist(b, i) { if i < b.len() { dq_from(b, s, i + 2, body, k); dq_from(b, s, i + 1, body, k); } }
pub proof fn dollar_from(b: Seq<u8>, s: int, i: int, t: Seq<u8>) ensures from(dollar(b, s, i, t), s) decreases dist(b, i) { if i < b.len() { dollar_from(b, s, i + 1, t); } }
pub proof fn strq_from(b: Seq<u8>, s: int, i: int, q: State) requires 0 <= i ensures from(strq(b, s, i, q), s) decreases dist(b, i), 1nat { if i < b.len() { if b[i] == 39 { if doubles(q) && ch(b, i + 1) == 39 { strq_from(b, s, i + 2, q); } else { after_from(b, s, i + 1, q); } } else if q is xe && b[i] == 92 { esc_from(b, s, i); } else { strq_from(b, s, i + 1, q); } } }
pub proof fn after_from(b: Seq<u8>, s: int, p: int, q: State) requires 0 <= p ensures from(after_q(b, s, p, q), s) decreases dist(b, p), 0nat { let j = span(b, p, #SPACE); if p <= j < b.len() && b[j] == 39 && has_nl(b, p, j) { strq_from(b, s, j + 1, q); } }
pub proof fn esc_from(b: Seq<u8>, s: int, i: int) requires 0 <= i ensures from(esc(b, s, i), s) decreases dist(b, i), 0nat { if i + 1 < b.len() { if UU(b[i + 1]) { match uesc(b, i) { None => {} Some((n, v)) => { if first_half(v) { second_from(b, s, i + n); } else { strq_from(b, s, i + n, State::xe); } } } } else { strq_from(b, s, i + 2, State::xe); } } }
pub proof fn second_from(b: Seq<u8>, s: int, i: int) requires 0 <= i ensures from(second(b, s, i), s) decreases dist(b, i), 2nat { if i < b.len() && b[i] == 92 && UU(ch(b, i + 1)) { match uesc(b, i) { None => {} Some((n, v)) => { strq_from(b, s, i + n, State::xe); } } } }
pub proof fn one_from(b: Seq<u8>, i: int) requires 0 <= i ensures match one(b, i) { Out::Tok(k, s, e) => s == i && (k matches KS::Raw(q) ==> q.len() == 1), _ => true }
{ if i < b.len() { com_from(b, i, i + 2, 0); strq_from(b, i, i + 1, State::xq); strq_from(b, i, i + 2, State::xb); strq_from(b, i, i + 2, State::xh); strq_from(b, i, i + 2, State::xe); strq_from(b, i, i + 3, State::xus); dq_from(b, i, i + 1, i + 1, TokenKind::IDENT); dq_from(b, i, i + 3, i + 3, TokenKind::UIDENT);
    let j = span(b, i + 2, #TAGCONT); dollar_from(b, i, i + 2, b.subrange(i, i + 2)); dollar_from(b, i, j + 1, b.subrange(i, j + 1)); } }
pub proof fn next_from(b: Seq<u8>, i: int) requires 0 <= i <= b.len() ensures i <= span(b, i, #SPACE) <= b.len(), match next(b, i) { Out::Tok(k, s, e) => s == span(b, i, #SPACE) && (k matches KS::Raw(q) ==> q.len() == 1), _ => true } { span_range(b, i, #SPACE); one_from(b, span(b, i, #SPACE)); }

// ---- the tokens of a text
pub proof fn lex_toks(input: Seq<char>, v: Seq<Token>) requires lexed(utf8(input), v), no_nul(utf8(input)) ensures toks_ok(v, utf8(input))
{ let b = utf8(input);
  assert forall|i: int| 0 <= i < v.len() implies tok_ok(#[trigger] v[i], b) && endp(v, i) <= v[i].start_byte_pos by { assert(tok_at(b, endp(v, i), v[i])); if i > 0 { assert(tok_at(b, endp(v, i - 1), v[i - 1])); } next_from(b, endp(v, i)); if is_raw_end(v[i].kind) { reveal_strlit("$end"); match v[i].kind { TokenKind::RAW(s) => { utf8_len(s@); } _ => {} } } }
  assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).end_byte_pos <= (#[trigger] v[j]).start_byte_pos by { mono(v, b, i, j); } }
pub proof fn mono(v: Seq<Token>, b: Seq<u8>, i: int, j: int) requires 0 <= i < j < v.len(), forall|i: int| 0 <= i < v.len() ==> tok_ok(#[trigger] v[i], b) && endp(v, i) <= v[i].start_byte_pos ensures v[i].end_byte_pos <= v[j].start_byte_pos decreases j - i
{ assert(endp(v, j) <= v[j].start_byte_pos); if j > i + 1 { mono(v, b, i, j - 1); assert(tok_ok(v[j - 1], b)); } }
pub open spec fn endp(v: Seq<Token>, k: int) -> int { if k <= 0 || k > v.len() { 0 } else { v[k - 1].end_byte_pos as int } }
pub open spec fn plainer(k: KS) -> KS { if k == KS::Plain(TokenKind::USCONST) { KS::Plain(TokenKind::SCONST) } else if k == KS::Plain(TokenKind::UIDENT) { KS::Plain(TokenKind::IDENT) } else { k } }
pub open spec fn tok_at(b: Seq<u8>, i: int, t: Token) -> bool { match next(b, i) { Out::Tok(k, s, e) => kview(t.kind) == plainer(k) && t.start_byte_pos == s && t.end_byte_pos == e && s < e <= b.len() && utf8(t.value@) == b.subrange(s, e) && BOUNDARY(b, s) && BOUNDARY(b, e), _ => false } }
pub open spec fn lexed(b: Seq<u8>, v: Seq<Token>) -> bool { forall|k: int| 0 <= k < v.len() ==> tok_at(b, endp(v, k), #[trigger] v[k]) }
pub open spec fn is_lex(input: Seq<char>, v: Seq<Token>) -> bool { let b = utf8(input); no_nul(b) && lexed(b, v) && next(b, endp(v, v.len() as int)) is End }
pub open spec fn lex_err(input: Seq<char>, e: ParserError) -> bool { lex_error_ok(utf8(input), e) && { let b = utf8(input); if no_nul(b) { exists|v: Seq<Token>| #![trigger lexed(b, v)] lexed(b, v) && failing(b, endp(v, v.len() as int), e) } else { match e { ParserError::ScanError { message } => message@ == "null character not permitted"@, _ => false } } } }
pub open spec fn failing(b: Seq<u8>, i: int, e: ParserError) -> bool { match e { ParserError::ScanError { message } => next(b, i) == Out::Err(message@), ParserError::ScanReport(x) => next(b, i) == Out::Report(x.message@, x.position_in_bytes as int) && x.position_in_bytes <= b.len() && BOUNDARY(b, x.position_in_bytes as int), _ => false } }
"""
PT = r"""
pub proof fn init_goal(l: Lexer) requires l.state is INITIAL ensures goal_at(l, l.index_bytes as int) == next(utf8(l.input@), l.index_bytes as int) {}
// neither depends on the position kept in the scanner
pub proof fn moved(l: Lexer, m: Lexer, i: int) requires m.input@ == l.input@, m.state == l.state, m.yylloc_bytes == l.yylloc_bytes, m.xcdepth == l.xcdepth, m.literal@ == l.literal@, m.dolqstart@ == l.dolqstart@, m.state_before_str_stop == l.state_before_str_stop, m.utf16_first_part == l.utf16_first_part
  ensures live_at(m, i) == live_at(l, i), goal_at(m, i) == goal_at(l, i) {}
pub proof fn stepped(o: Lexer, r: Option<Result<Option<TokenKind>, ParserError>>, l: Lexer) requires arm_ok(o, r, l), live_at(o, o.index_bytes as int) ensures l.input@ == o.input@, l.index_bytes == o.index_bytes, l.index_bytes + l.yyleng <= utf8(l.input@).len(), utf8(l.input@).len() <= usize::MAX,
  r is None ==> l.yyleng >= 1 && live_at(l, l.index_bytes + l.yyleng) && goal_at(l, l.index_bytes + l.yyleng) == goal_at(o, o.index_bytes as int), r is Some ==> outcome(goal_at(o, o.index_bytes as int), r->0, l) {}
pub proof fn at_hit(l: Lexer, r: int) requires hit(l, r) ensures known_rule(r), live_at(l, l.index_bytes as int), l.index_bytes <= utf8(l.input@).len(), l.index_bytes + l.yyleng <= utf8(l.input@).len(), BOUNDARY(utf8(l.input@), l.index_bytes as int), BOUNDARY(utf8(l.input@), l.index_bytes + l.yyleng) { use_known(l, r); }
"""
def expand(f):
    f.rw("yyerror!($m*)", "return Err(ParserError::new_error($m))", note="yyerror! expanded"); f.rw("yyterminate!()", "return Ok(None)", note="yyterminate! expanded")
    for h in ("errdetail", "errhint"):
        f.rw("ereport!(self, ERROR, (errcode($c*), errmsg($m*), %s($d*), $p*))" % h, "return Err(ParserError::new_report($m, $d, $p))", note="ereport! expanded")
def strs(f):
    f.rw("self.input[$a*..][..$n*].to_string()", "owned(slice_len(&self.input, $a, $n))"); f.rw("&self.input[$a*..][..$n*]", "slice_len(&self.input, $a, $n)"); f.rw("self.input[$a*..].chars().next().unwrap()", "char_at(slice_from(&self.input, $a), 0)"); f.rw("&self.input[$a*..]", "slice_from(&self.input, $a)"); f.rw("&self.input[$a*..$b*]", "slice(&self.input, $a, $b)")
    f.rw("u32::from_str_radix($a*, $b,).unwrap()", "u32_of($a, $b)"); f.rw("u32::from_str_radix($a*, $b).unwrap()", "u32_of($a, $b)"); f.rw("i32::from_str_radix($a*, $b)", "i32_of($a, $b)"); f.rw("$x.parse::<i32>()", "i32_of(&$x, 10)")
    f.rw("char::from_u32($a*)", "char_of($a)"); f.rw("self.yytext().chars().nth($n).unwrap()", "char_at(&self.yytext(), $n)"); f.rw("self.yytext().chars().next().unwrap()", "char_at(&self.yytext(), 0)")
    f.rw("self.yytext()[$a..$b].to_string()", "owned(slice(&self.yytext(), $a, $b))"); f.rw("yytext[$a..$b].to_string()", "owned(slice(&yytext, $a, $b))"); f.rw("&self.yytext()[$a..]", "slice_from(&self.yytext(), $a)"); f.rw("self.yytext()[..$n].to_ascii_lowercase()", "ascii_lower(slice_len(&self.yytext(), 0, $n))"); f.rw("&yytext[1..]", "slice_from(yytext, 1)"); f.rw("&digits[2..]", "slice_from(&digits, 2)")
    f.rw("self.literal.clear()", "clear_text(&mut self.literal)"); f.rw("self.literal.clone()", "copy_of(&self.literal)"); f.rw("self.literal.len() == 0", "is_blank(&self.literal)"); f.rw("self.literal.push($c)", "push_char(&mut self.literal, $c)"); f.rw("self.literal += $a*;", "push_text(&mut self.literal, $a);"); f.rw("if self.literal.len() >= NAMEDATALEN {}", "")
    f.rw('"".to_string()', "no_text()"); f.rw('"n".to_string()', 'owned("n")'); f.rw("self.yytext() == self.dolqstart", "same_text(&self.yytext(), &self.dolqstart)")
    f.rw('yytext.find("/*")', "find_pair(&yytext, 47, 42)"); f.rw('yytext.find("--")', "find_pair(&yytext, 45, 45)"); f.rw("$s.find($e*).is_some()", "has_char($s, $e)")
    for a in ("=>", ">=", "<=", "<>", "!="): f.rw('&yytext[0..2] == "%s"' % a, "pair_is(&yytext, %d, %d)" % (ord(a[0]), ord(a[1])), note="comparison of two characters with a literal")
    f.rw("yytext.bytes().next()", "first_byte(yytext)"); f.rw("yytext.replace('_', \"\")", "no_underscores(yytext)"); f.rw("$x.to_ascii_lowercase()", "ascii_lower($x)"); f.rw("self.keyword_map.get(kw.as_str()).map(|kw_token| (kw, kw_token.to_string()))", "(match map_get(&self.keyword_map, kw.as_str()) { Some(kw_token) => Some((kw, owned(kw_token))), None => None })")
    f.rw("self.input.is_char_boundary($e*)", "is_bound(&self.input, $e)"); f.rw("c.len_utf8()", "char_len(c)"); f.rw("s.as_bytes().iter()", "as_bytes_of(s).iter()"); f.rw("s.len()", "str_len(s)"); f.rw("message.to_string()", "owned(message)"); f.rw("detail.to_string()", "owned(detail)"); f.rw("input.to_string()", "owned(input)")
    f.rw("slashstar_index > dashdash_index", "*slashstar_index > *dashdash_index"); f.rw("self.addunicode($a*)?", "(match self.addunicode($a) { Ok(v) => v, Err(e) => return Err(e) })", note="`?` as a match (the error types agree)")
    f.rw("($a*..=$b*).contains(&c)", "($a <= c && c <= $b)"); f.rw("(0..$n*).any(|$i| { $e* })", "({ let mut any_ = false; let mut $i: usize = 0; let upto_ = $n; while $i < upto_ && !any_ { if $e { any_ = true; } $i = $i + 1; } any_ })", note="`any` over a range as a loop")
    f.rw("char_of(c).unwrap()", "char_of(c).unwrap()")
def item_text(it, vis=True):
    t = it.text
    for a in it.attrs: t = t.replace(a, "", 1)
    return "".join(x.text for x in R.tokenize(t, True) if x.kind != "com")
def lexer_struct(u):
    it = u.item(LX, "struct", "Lexer"); t = item_text(it)
    t, n = vx.rewrite(t, '#[cfg(feature = "regex-match")] pub rules: Vec<Rule>,', ""); t, m = vx.rewrite(t, "HashMap<&'static str, &'static str>", "KeywordMap")
    if n != 1 or m != 1: raise vx.Lost("struct Lexer")
    u.extraction.append("Lexer without the field of the regex-match build; its keyword map as an opaque type"); return t
def dfa_only(it): return 'cfg(feature = "regex-match")' not in re.sub(r"\s+", " ", " ".join(it.attrs))
def arms(u):
    """the match arms of parse_token and the text with each of them replaced by a call"""
    f = u.fn(G, "parse_token", within="Lexer", pick=dfa_only); expand(f); strs(f)
    t = vx.toks(f.src); m = [i for i in range(len(t)) if t[i].text == "match" and t[i + 1].text == "pattern_index" and t[i + 2].text == "{"]
    if len(m) != 1: raise vx.Lost("match pattern_index")
    i = m[0] + 3; e = R.close(t, m[0] + 2); out = []; eds = []
    while i < e:
        j = i
        while t[j].text != "=>": j += 1
        pat = f.src[t[i].start:t[j - 1].end]
        if t[j + 1].text != "{": raise vx.Lost("arm of %s" % pat)
        k = R.close(t, j + 1); body = f.src[t[j + 1].start:t[k].end]
        if pat.strip() == "_": eds.append((t[j + 1].start, t[k].end, "{ never_here(); None }"))
        else:
            ks = [int(x) for x in re.split(r"\s*\|\s*", pat.strip())]; out.append((ks, body)); eds.append((t[j + 1].start, t[k].end, "self.arm_%d(yytext)" % ks[0]))
        i = k + 1
        if i < e and t[i].text == ",": i += 1
        elif i < e: eds.append((t[k].end, t[k].end, ","))
    if t[e + 1].text == ";": raise vx.Lost("match pattern_index as a statement")
    eds = [(t[m[0]].start, t[m[0]].start, "let step_ = ")] + eds + [(t[e].end, t[e].end, "; proof { assert(arm_ok(o, step_, *self)); stepped(o, step_, *self); } match step_ { Some(r) => { return r; } None => {} }")]
    for a, b, r in reversed(eds): f.src = f.src[:a] + r + f.src[b:]
    f.notes.append("the arms of `match pattern_index` as methods arm_<number>"); return f, out
def some_returns(src):
    """`return X` as `return Some(X)`"""
    t = vx.toks(src); eds = []
    for i, x in enumerate(t):
        if x.kind == "id" and x.text == "return":
            j = i + 1
            while t[j].text not in (";", ",", "}", ")"): j = R.close(t, j) + 1 if t[j].text in R.OPEN else j + 1
            eds.append((t[i + 1].start, t[j - 1].end))
    for a, b in reversed(eds): src = src[:a] + "Some(" + src[a:b] + ")" + src[b:]
    return src
def arm62(g):
    g.loop(0, "invariant ic <= upto_, upto_ == nchars - 1, nchars <= s.len(), utf8(yytext@) == s, any_ ==> has_special(s, upto_ as int), !any_ ==> forall|p: int| 0 <= p < ic ==> !SPECIAL(#[trigger] s[p]) decreases upto_ - ic + (if any_ { 0int } else { 1int })")
    g.loop(1, "invariant_except_break utf8(yytext@) == s, 1 < nchars <= s.len(), PM(s[nchars - 1]), strip(s, nchars as int) == strip(s, n0) ensures 1 <= nchars <= s.len(), strip(s, n0) == nchars decreases nchars")
    g.before("if !(nchars > 1", " proof { assert(strip(s, nchars + 1) == strip(s, nchars as int)); } ", optional=False)
    g.before("let b = $x", " let ghost n0 = nchars as int; ", nth=0)
    g.before("if nchars > 1", " proof { cut_is(s, 0, nchars as int); } ", nth=0, optional=False)
    g.before("self.set_yylloc();", " proof { assert(nchars == op_len(s)); ascii_next(self.input@, x + nchars); ascii_next(yytext@, nchars as int); boundaries(yytext@); } ", nth=0, optional=False)
    g.before("let mut nchars = self.yyleng;", " let ghost s = b.subrange(x, x + self.yyleng); proof { assert(b[x] == s[0]); assert(s.len() > 1 ==> s[1] == b[x + 1]); lit_self(); assert(!pair_at(s, 0)); assert(s.take(1) =~= s.subrange(0, 1)); assert forall|p: int| 0 <= p < s.len() implies OP(#[trigger] s[p]) by { assert(s[p] == b[x + p]); } } ", nth=0, optional=False)
SPECIAL = {62: arm62}
def build(u):
    u.elsewhere = {"tables_ok": "the unit dfa (verified checker run on the tables)", "tr_table": "definition (TAB(k) is the content of the static tables of number k)", "ac_table": "definition"}
    # macros as expected
    src = u.file(G)[1]
    for n, want in MACROS.items():
        it = u.item(G, "macro_rules", n); got = R.norm(it.text)
        if want is not None and got != want: raise vx.Lost("macro %s: %s" % (n, got))
        if n == "ereport" and (got.count("return Err ( ParserError :: new_report ( $ err_msg , $ err_detail , $ err_position , ) ) ;") != 2 or got.count("=>") != 3): raise vx.Lost("macro ereport")
    st = u.item(G, "enum", "State"); names = [x.text for x in R.tokenize(st.text[st.text.index("{"):]) if x.kind == "id"]
    if sorted(names) != sorted(_lex.STATES): raise vx.Lost("State: %s" % names)
    u.add(_utf8.USE); u.add(_utf8.TEXT); tokens.types(u); u.add(tokens.KINDEQ); u.add("#[derive(PartialEq, Eq, Clone, Copy)] " + item_text(st))
    u.add("pub open spec fn SID(s: State) -> int { match s { %s } }" % ", ".join("State::%s => %d" % (n, _lex.STATES.index(n)) for n in _lex.STATES))
    u.add(item_text(u.item(LX, "enum", "Yylval"))); u.add(u.item(LX, "const", "NAMEDATALEN").text); u.add(u.item(G, "const", "STANDARD_CONFORMING_STRINGS").text)
    for kind, name in (("struct", "ScanReport"), ("enum", "ParserError")): u.add(item_text(u.item(PE, kind, name)))
    u.add(lexer_struct(u)); u.add(_lex.text(True)); u.add(_scan.text()); u.add(SHIM); u.add(LEMMAS); u.add(NUMS); u.add(_drv.TOKS); u.add(re.sub(r"#([A-Z][A-Z_]+)\b", lambda m: str(_lex.ID[m.group(1)]), TOP)); u.add(_scan.use()); u.add(PT); u.props = {}
    IMPL = "impl Lexer"
    f = u.fn(PE, "new", within="ScanReport"); strs(f); f.contract("ensures r.message@ == $0@, r.detail@ == $1@, r.position_in_bytes == $2"); f.start(); u.put(f, "ScanReport", "impl ScanReport")
    f = u.fn(PE, "new_error"); strs(f); f.contract("ensures (match r { ParserError::ScanError { message: m } => m@ == $0@, _ => false })"); f.start(); u.put(f, "ParserError", "impl ParserError")
    f = u.fn(PE, "new_report"); strs(f); f.contract("ensures (match r { ParserError::ScanReport(x) => x.message@ == $0@ && x.detail@ == $1@ && x.position_in_bytes == $2, _ => false })"); f.start(); u.put(f, "ParserError", "impl ParserError")
    def put(f, spec, start=""): f.contract(spec); f.start(start); u.put(f, "Lexer", IMPL)
    # the tables of a state
    f = u.fn(G, "get_dfa_table"); n1 = f.src
    f.src = re.sub(r"TRANSITION_TABLE_(\d+)\s*\.as_slice\(\)", r"tr_table(\1)", f.src); f.src = re.sub(r"ACCEPT_TABLE_(\d+)\s*\.as_slice\(\)", r"ac_table(\1)", f.src); f.notes.append("static tables through tr_table and ac_table"); f.rw("unreachable!()", "{ never_here(); (tr_table(0), ac_table(0)) }")
    f.contract("ensures r.1@ == TAB(SID($0)).ac, r.0@.len() == TAB(SID($0)).tr.len(), forall|q: int| 0 <= q < r.0@.len() ==> (#[trigger] r.0@[q])@ == TAB(SID($0)).tr[q]"); f.start(); u.put(f)
    def same(*but):
        fs = ["input", "index_bytes", "state", "yyleng", "literal", "xcdepth", "yyllocend_bytes", "state_before_str_stop", "yylloc_stack", "dolqstart", "warn_on_first_escape", "saw_non_ascii", "utf16_first_part", "yylval", "yylloc_bytes"]
        return ", ".join("final(self).%s == old(self).%s" % (x, x) for x in fs if x not in but)
    f = u.fn(UT, "find_match_len", within="Lexer", pick=dfa_only); strs(f)
    g = u.fn(UT, "find_longest_match", within="Lexer", pick=dfa_only); g.rw("use super::generated::dfa::get_dfa_table;", ""); strs(g); g.desugar()
    g.contract("requires live_at(*self, self.index_bytes as int) ensures (r.0 as int, r.1 as int) == longest(TAB(SID(self.state)), utf8(self.input@).skip(self.index_bytes as int))")
    g.loop(0, """invariant __i0 <= __e0, __e0 == w.len(), w.len() <= usize::MAX, d == TAB(SID(self.state)), w == utf8(self.input@).skip(self.index_bytes as int), utf8(s@) == w, dshape(d), dfa_state_index as int == run(d, w, __i0 as int), dfa_state_index < d.ac.len(), (longest_match as int, accept_rule as int) == best(d, w, __i0 as int), !0u8 == 255u8,
        accept@ == d.ac, transition@.len() == d.tr.len(), forall|q: int| 0 <= q < transition@.len() ==> (#[trigger] transition@[q])@ == d.tr[q] decreases __e0 - __i0""",
        " proof { run_in(d, w, __i0 + 1); assert(transition@[dfa_state_index as int]@ == d.tr[dfa_state_index as int]); if run(d, w, __i0 + 1) == 255 { dead(d, w, __i0 + 1, w.len() as int); } } ")
    g.before("if transition[dfa_state_index as usize][0] != !0", " proof { assert(transition@[dfa_state_index as int]@ == d.tr[dfa_state_index as int]); } ")
    g.start(" proof { assert(!0u8 == 255u8) by (bit_vector); tables_ok(SID(self.state)); } let ghost d = TAB(SID(self.state)); let ghost w = utf8(self.input@).skip(self.index_bytes as int); "); u.put(g, "Lexer", IMPL)
    f.contract("""requires live_at(*self, self.index_bytes as int)
      ensures (r.1 as int) == longest(TAB(SID(self.state)), utf8(self.input@).skip(self.index_bytes as int)).1, (forall|l: Lexer| #![trigger hit(l, r.1 as int)] l.input@ == self.input@ && l.index_bytes == self.index_bytes && l.state == self.state && l.yyleng == r.0 && live_at(l, l.index_bytes as int) ==> hit(l, r.1 as int)), self.index_bytes + r.0 <= utf8(self.input@).len(), BOUNDARY(utf8(self.input@), self.index_bytes + r.0)""")
    f.loop(0, """invariant live_at(*self, self.index_bytes as int), n0 <= match_len, self.index_bytes + match_len <= utf8(self.input@).len(), forall|p: int| self.index_bytes + n0 <= p < self.index_bytes + match_len ==> 0x80 <= #[trigger] utf8(self.input@)[p] <= 0xBF, n0 < match_len ==> !BOUNDARY(utf8(self.input@), self.index_bytes + n0)
      decreases utf8(self.input@).len() - (self.index_bytes + match_len)""", " proof { boundaries(self.input@); bound_iff(self.input@, self.index_bytes + match_len); } ")
    f.before("while !is_bound", " let ghost n0 = match_len as int; proof { tables_ok(SID(self.state)); let s = utf8(self.input@).skip(self.index_bytes as int); let b = utf8(self.input@); in_skip(b, self.index_bytes as int); if s.len() > 0 { assert(no_nul(s)) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 0 by { assert(s[i] == b[self.index_bytes + i]); } } } else { assert(s =~= seq![]); } } ", optional=False)
    f.start(); u.put(f, "Lexer", IMPL)
    for n, spec, st in (
        ("advance", "requires old(self).index_bytes + old(self).yyleng <= usize::MAX ensures final(self).index_bytes == old(self).index_bytes + old(self).yyleng, " + same("index_bytes"), ""),
        ("begin", "ensures final(self).state == $1, " + same("state"), ""), ("yyless", "ensures final(self).yyleng == $1, " + same("yyleng"), ""),
        ("yytext", "requires self.index_bytes + self.yyleng <= utf8(self.input@).len(), BOUNDARY(utf8(self.input@), self.index_bytes as int), BOUNDARY(utf8(self.input@), self.index_bytes + self.yyleng) ensures text_is(*self, r@)", ""),
        ("lexer_errposition", "ensures r == self.index_bytes", ""),
        ("get_keyword", "ensures (match r { Some(kt) => KW(lowb(utf8($1@))) == Some(kt.1@), None => KW(lowb(utf8($1@))) is None })", "")):
        f = u.fn(UT, n, within="Lexer"); strs(f); put(f, spec, st)
    for n, spec, st in (
        ("is_highbit_set", "", ""), ("get_char_by_byte_pos", "requires $1 < utf8($0@).len() ensures r == utf8($0@)[$1 as int] as char", ""),
        ("is_valid_unicode_codepoint", "ensures r == (1 <= $0 as u32 <= 0x10FFFF)", ""), ("is_utf16_surrogate_first", "ensures r == first_half($0 as int)", ""), ("is_utf16_surrogate_second", "ensures r == second_half($0 as int)", ""),
        ("surrogate_pair_to_codepoint", "requires first_half($0 as int), second_half($1 as int) ensures 0x10000 <= r as u32 <= 0x10FFFF", " proof { assert(((first & 0x3FF) << 10) + 0x10000 + (second & 0x3FF) <= 0x10FFFF && ((first & 0x3FF) << 10) + 0x10000 <= 0x10FFFF && ((first & 0x3FF) << 10) <= 0xFFC00 && (second & 0x3FF) <= 0x3FF) by (bit_vector); } ")):
        f = u.fn(PO, n); strs(f)
        if n == "get_char_by_byte_pos": f.rw("s.as_bytes()[$i*]", "byte_at(s, $i)")
        f.contract(spec) if spec else None; f.start(st); u.put(f)
    for n, spec, st in (
        ("set_yylloc", "ensures final(self).yylloc_bytes == old(self).index_bytes, " + same("yylloc_bytes"), ""), ("set_yyllocend", "requires old(self).index_bytes + old(self).yyleng <= usize::MAX ensures final(self).yyllocend_bytes == old(self).index_bytes + old(self).yyleng, " + same("yyllocend_bytes"), ""),
        ("addlitchar", "ensures final(self).literal@ == old(self).literal@.push($1), " + same("literal"), ""),
        ("addlit", "requires old(self).index_bytes + $1 <= utf8(old(self).input@).len(), BOUNDARY(utf8(old(self).input@), old(self).index_bytes as int), BOUNDARY(utf8(old(self).input@), old(self).index_bytes + $1) ensures $1 > 0 ==> final(self).literal@.len() > 0, " + same("literal"), " proof { assert forall|t: Seq<char>| utf8(t).len() > 0 implies t.len() > 0 by { utf8_len(t); } } "),
        ("addunicode", "requires (forall|k: int| 1 <= k <= 4 ==> old(self).index_bytes + k <= utf8(old(self).input@).len() && #[trigger] BOUNDARY(utf8(old(self).input@), old(self).index_bytes + k)), BOUNDARY(utf8(old(self).input@), old(self).index_bytes as int) ensures r.is_ok() == (1 <= $1 as u32 <= 0x10FFFF), (r matches Err(ParserError::ScanError { message }) ==> message@ == \"invalid Unicode escape value\"@), (r.is_err() ==> r->Err_0 is ScanError), " + same("literal"), ""),
        ("unescape_single_char", "ensures " + same("saw_non_ascii"), ""),
        ("push_yylloc", "ensures final(self).yylloc_stack@ == old(self).yylloc_stack@.push(old(self).yylloc_bytes), " + same("yylloc_stack"), ""),
        ("pop_yylloc", "requires old(self).yylloc_stack@.len() > 0 ensures final(self).yylloc_bytes == old(self).yylloc_stack@.last(), final(self).yylloc_stack@ == old(self).yylloc_stack@.drop_last(), " + same("yylloc_stack", "yylloc_bytes"), ""),
        ("downcase_truncate_identifier", "requires self.index_bytes + self.yyleng <= utf8(self.input@).len(), $1 <= self.yyleng, BOUNDARY(utf8(self.input@), self.index_bytes as int), BOUNDARY(utf8(self.input@), self.index_bytes + self.yyleng), $1 == self.yyleng", " proof { assert forall|t: Seq<char>| #![trigger utf8(t)] true implies BOUNDARY(utf8(t), 0) && BOUNDARY(utf8(t), utf8(t).len() as int) by { boundaries(t); } } ")):
        f = u.fn(PO, n, within="Lexer"); expand(f); strs(f); f.rw("self.addlit(char_len(c));", "let n_ = char_len(c); proof { assert(BOUNDARY(utf8(self.input@), self.index_bytes + n_)); } self.addlit(n_);"); put(f, spec, st)
    f = u.fn(PO, "process_integer_literal", within="Lexer"); strs(f); f.src = f.src.replace("b'-'", "45u8").replace("b'+'", "43u8"); f.rw("let ok = res_parse_as_i32.as_ref().map(|res| $e*).unwrap_or_default();", "let ok = match &res_parse_as_i32 { Ok(res) => $e, Err(_) => false };", need=1)
    f.rw("unreachable!()", "{ never_here(); Err(()) }")
    put(f, "requires old(self).index_bytes + old(self).yyleng <= utf8(old(self).input@).len(), BOUNDARY(utf8(old(self).input@), old(self).index_bytes as int), BOUNDARY(utf8(old(self).input@), old(self).index_bytes + old(self).yyleng), $1 == 2 || $1 == 8 || $1 == 10 || $1 == 16, int_text(utf8(old(self).input@).subrange(old(self).index_bytes as int, old(self).index_bytes + old(self).yyleng), $1 as int) ensures r == Some(int_kind(utf8(old(self).input@).subrange(old(self).index_bytes as int, old(self).index_bytes + old(self).yyleng), $1 as int)), " + same("yylval"),
        " proof { let w = utf8(self.input@).subrange(self.index_bytes as int, self.index_bytes + self.yyleng); int_digits(w, $1 as int); assert forall|t: Seq<char>| utf8(t).len() > 2 && utf8(t)[1] < 128 implies #[trigger] BOUNDARY(utf8(t), 2) by { ascii_next(t, 2); } } ")
    # the arms
    pt, arms_ = arms(u)
    for ks, body in arms_:
        g = object.__new__(vx.Fn); g.name = "arm_%d" % ks[0]; g.orig = body; g.unit = u; g.loops = 0; g.params = ["self", "yytext"]; g.notes = []
        g.src = "pub fn %s(&mut self, yytext: String) -> (r: Option<Result<Option<TokenKind>, ParserError>>)\n requires %s, text_is(*old(self), yytext@) ensures arm_ok(*old(self), r, *final(self))\n{ %s %s\n None }" % (g.name, " || ".join("hit(*old(self), %d)" % k for k in ks), "", some_returns(body))
        special = SPECIAL.get(ks[0])
        if special: special(g)
        b0 = g.src.index("\n{") + 2
        g.src = g.src[:b0] + u.probe() + " let ghost b = utf8(self.input@); let ghost x = self.index_bytes as int; let ghost y = self.yylloc_bytes as int; proof { boundaries(self.input@); " + "".join(_arms.hint(k) for k in ks) + "} " + g.src[b0:]
        if ks[0] == 255: u.dead_probes = getattr(u, "dead_probes", 0) + (1 if u.probes else 0)
        u.put(g, "Lexer", IMPL); u.props[g.name] = sorted({p for k in ks if k != 255 for p in _arms.PROPS[k]} | ({"C03"} if ks == [255] else set()))
    pt.contract("requires live_at(*old(self), old(self).index_bytes as int), old(self).state is INITIAL ensures final(self).input@ == old(self).input@, outcome(next(utf8(old(self).input@), old(self).index_bytes as int), r, *final(self))")
    pt.loop(0, "invariant self.input@ == input0, live_at(*self, self.index_bytes as int), goal_at(*self, self.index_bytes as int) == goal0, input0 == old(self).input@, goal0 == next(utf8(old(self).input@), old(self).index_bytes as int) decreases utf8(input0).len() - self.index_bytes", "", "")
    pt.before("self.yyleng = match_len;", " let ghost o0 = *self; ", optional=False); pt.before("self.yyleng = match_len;", " let ghost o = *self; proof { moved(o0, o, o.index_bytes as int); assert(hit(o, pattern_index as int)); at_hit(o, pattern_index as int); } ", after=True)
    pt.before("self.advance();", " let ghost a0 = *self; ", optional=False); pt.before("self.advance();", " proof { moved(a0, *self, self.index_bytes as int); } ", after=True)
    pt.start(" hide(live_at); hide(goal_at); hide(outcome); hide(hit); hide(arm_ok); hide(next); let ghost input0 = self.input@; let ghost goal0 = next(utf8(self.input@), self.index_bytes as int); proof { init_goal(*self); } "); u.put(pt, "Lexer", IMPL)
    f = u.fn(UT, "new", within="Lexer"); f.rw('#[cfg(feature = "regex-match")] let rules = super::generated::get_rules();', "", need=1); f.rw('#[cfg(feature = "regex-match")] rules,', "", need=1); f.rw("String::new()", "no_text()"); strs(f); f.rw("vec![]", "Vec::new()")
    put(f, "ensures r.input@ == $0@, r.index_bytes == 0, r.state is INITIAL")
    f = u.fn(LX, "lex"); strs(f); f.while_let(); f.rw("lexer.parse_token()?", "(match lexer.parse_token() { Ok(v) => v, Err(e) => { proof { assert(failing(utf8(input@), endp(tokens@, tokens@.len() as int), e)); assert(lexed(utf8(input@), tokens@)); } return Err(e); } })", need=1, note="`?` as a match (the error types agree)"); f.rw("input.contains('\\0')", "has_nul(input)"); f.rw("input[$a*..$b*].to_string()", "owned(slice(input, $a, $b))"); f.rw("vec![]", "Vec::new()")
    f.contract("requires utf8($0@).len() <= usize::MAX " + _drv.LEX)
    f.loop(0, """invariant_except_break lexer.input@ == input@, live_at(lexer, lexer.index_bytes as int), lexer.state is INITIAL, lexer.index_bytes == endp(tokens@, tokens@.len() as int), no_nul(utf8(input@)), lexed(utf8(input@), tokens@)
      ensures no_nul(utf8(input@)), lexed(utf8(input@), tokens@), next(utf8(input@), endp(tokens@, tokens@.len() as int)) is End decreases utf8(input@).len() - lexer.index_bytes""", " let ghost t0 = tokens@; proof { boundaries(input@); next_from(utf8(input@), lexer.index_bytes as int); } ")
    f.before("lexer.advance();", " proof { assert(tokens@.drop_last() =~= t0); assert forall|k: int| 0 <= k < tokens@.len() implies tok_at(utf8(input@), endp(tokens@, k), #[trigger] tokens@[k]) by { if k < t0.len() { assert(tokens@[k] == t0[k]); assert(endp(tokens@, k) == endp(t0, k)); } else { assert(endp(tokens@, k) == endp(t0, k)); } } } ")
    f.before("Ok(tokens)", " proof { lex_toks(input@, tokens@); } ", optional=False); f.start(" hide(next); proof { boundaries(input@); } "); u.put(f)
    u.args = ["--rlimit", "30"]; u.slow_vacuity = True
    return u
