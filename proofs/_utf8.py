"""UTF-8: the encoding of vstd, character boundaries, and what the units need about them (all proved)."""
USE = "use vstd::utf8::*;\n"
TEXT = r"""
#[verifier::opaque] pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
#[verifier::opaque] pub open spec fn BOUNDARY(b: Seq<u8>, i: int) -> bool { is_char_boundary(b, i) }
pub proof fn utf8_valid(s: Seq<char>) ensures valid_utf8(utf8(s)) { reveal(utf8); encode_utf8_valid_utf8(s); }
pub proof fn boundaries(s: Seq<char>) ensures BOUNDARY(utf8(s), 0), BOUNDARY(utf8(s), utf8(s).len() as int) { reveal(BOUNDARY); utf8_valid(s); is_char_boundary_start_end_of_seq(utf8(s)); }
pub proof fn utf8_same(s: Seq<char>, t: Seq<char>) requires utf8(s) == utf8(t) ensures s == t { reveal(utf8); encode_utf8_decode_utf8(s); encode_utf8_decode_utf8(t); }
pub proof fn ascii_next_(b: Seq<u8>, x: int) requires valid_utf8(b), 0 < x <= b.len(), b[x - 1] < 0x80 ensures is_char_boundary(b, x) decreases b.len()
{ is_char_boundary_start_end_of_seq(b);
  if x < b.len() { let l = length_of_first_scalar(b); let r = pop_first_scalar(b);
    if x > l { assert(r[x - l - 1] == b[x - 1]); ascii_next_(r, x - l); } else if x == l { is_char_boundary_start_end_of_seq(r); } } }
pub proof fn ascii_next(s: Seq<char>, x: int) requires 0 < x <= utf8(s).len(), utf8(s)[x - 1] < 0x80 ensures BOUNDARY(utf8(s), x) { reveal(BOUNDARY); utf8_valid(s); ascii_next_(utf8(s), x); }
pub proof fn bound_iff(s: Seq<char>, x: int) requires 0 <= x < utf8(s).len() ensures BOUNDARY(utf8(s), x) <==> !(0x80 <= utf8(s)[x] <= 0xBF) { reveal(BOUNDARY); utf8_valid(s); is_char_boundary_iff_not_is_continuation_byte(utf8(s), x); }
pub proof fn utf8_len(s: Seq<char>) ensures utf8(s).len() >= s.len(), utf8(s).len() > 0 ==> s.len() > 0 decreases s.len() { reveal(utf8); if s.len() > 0 { utf8_len(s.drop_first()); assert(utf8(s.drop_first()) == encode_utf8(s.drop_first())); reveal_with_fuel(encode_utf8, 2); } }
pub proof fn two_chars(s: Seq<char>) requires utf8(s).len() >= 2, utf8(s)[0] < 0x80 ensures s.len() >= 2 { utf8_len(s); reveal(utf8); let b = encode_utf8(s); encode_utf8_first_scalar(s); encode_utf8_valid_utf8(s); assert(length_of_first_scalar(b) == 1); if s.len() == 1 { let e = s.drop_first(); assert(e =~= seq![]); assert(b =~= encode_scalar(s[0] as u32) + encode_utf8(e)); assert(encode_utf8(e).len() == 0) by { reveal_with_fuel(encode_utf8, 2); }
  assert(encode_scalar(s[0] as u32).len() == 1 || encode_scalar(s[0] as u32).len() == 2);
  assert(pop_first_scalar(b) =~= encode_utf8(e)); assert(encode_scalar(s[0] as u32).len() == 1);  } }
"""
def build(u): raise Exception("library")
