"""C11: the post-pass over the tokens changes exactly the kinds of the six lookahead keywords."""
import vx
F = "crates/postgresql-cst-parser/src/lexer/lexer_ported.rs"
L = "crates/postgresql-cst-parser/src/lexer.rs"
KINDEQ = r"""
pub open spec fn kind_eq(a: TokenKind, b: TokenKind) -> bool { match (a, b) { (TokenKind::RAW(x), TokenKind::RAW(y)) => x@ == y@, (TokenKind::KEYWORD(x), TokenKind::KEYWORD(y)) => x@ == y@,
   (TokenKind::RAW(_), _) => false, (_, TokenKind::RAW(_)) => false, (TokenKind::KEYWORD(_), _) => false, (_, TokenKind::KEYWORD(_)) => false, _ => a == b } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TokenKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { kind_eq(*self, *other) }
}
// the real impl is #[derive(PartialEq)]
impl PartialEq for TokenKind { #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() } }
"""
SPEC = r"""
pub open spec fn is_comment(k: TokenKind) -> bool { k == TokenKind::C_COMMENT || k == TokenKind::SQL_COMMENT }
pub open spec fn kw(k: TokenKind, s: &str) -> bool { k matches TokenKind::KEYWORD(x) && x@ == s@ }
// the first token from j on that is no comment, -1 if there is none
pub open spec fn next_from(s: Seq<Token>, j: int) -> int decreases s.len() - j {
    if j < 0 || j >= s.len() { -1 } else if is_comment(s[j].kind) { next_from(s, j + 1) } else { j } }
pub proof fn next_from_range(s: Seq<Token>, j: int) requires 0 <= j ensures next_from(s, j) == -1 || (j <= next_from(s, j) < s.len() && !is_comment(s[next_from(s, j)].kind)) decreases s.len() - j
{ if j < s.len() && is_comment(s[j].kind) { next_from_range(s, j + 1); } }
// base_yylex of PostgreSQL: what a keyword becomes because of the keyword that follows it
pub open spec fn la(a: TokenKind, n: TokenKind) -> Option<Seq<char>> {
    if kw(a, "FORMAT") && kw(n, "JSON") { Some("FORMAT_LA"@) }
    else if kw(a, "NOT") && (kw(n, "BETWEEN") || kw(n, "IN_P") || kw(n, "LIKE") || kw(n, "ILIKE") || kw(n, "SIMILAR")) { Some("NOT_LA"@) }
    else if kw(a, "NULLS_P") && (kw(n, "FIRST_P") || kw(n, "LAST_P")) { Some("NULLS_LA"@) }
    else if kw(a, "WITH") && (kw(n, "TIME") || kw(n, "ORDINALITY")) { Some("WITH_LA"@) }
    else if kw(a, "WITHOUT") && kw(n, "TIME") { Some("WITHOUT_LA"@) }
    else { None } }
// what the post-pass makes of token i of s
pub open spec fn la_of(s: Seq<Token>, i: int) -> Option<Seq<char>> { if next_from(s, i + 1) >= 0 { la(s[i].kind, s[next_from(s, i + 1)].kind) } else { None } }
pub open spec fn converted(s: Seq<Token>, i: int, k: TokenKind) -> bool { match la_of(s, i) { Some(x) => k matches TokenKind::KEYWORD(y) && y@ == x, None => k == s[i].kind } }
pub open spec fn same_but_kind(a: Token, b: Token) -> bool { a.start_byte_pos == b.start_byte_pos && a.end_byte_pos == b.end_byte_pos && a.value == b.value }
pub proof fn heads_differ() ensures "FORMAT"@ != "NOT"@, "FORMAT"@ != "NULLS_P"@, "FORMAT"@ != "WITH"@, "FORMAT"@ != "WITHOUT"@, "NOT"@ != "NULLS_P"@, "NOT"@ != "WITH"@, "NOT"@ != "WITHOUT"@, "NULLS_P"@ != "WITH"@, "NULLS_P"@ != "WITHOUT"@, "WITH"@ != "WITHOUT"@
{ reveal_strlit("FORMAT"); reveal_strlit("NOT"); reveal_strlit("NULLS_P"); reveal_strlit("WITH"); reveal_strlit("WITHOUT");
  assert("NOT"@.len() == 3 && "FORMAT"@.len() == 6 && "NULLS_P"@.len() == 7 && "WITH"@.len() == 4 && "WITHOUT"@.len() == 7); assert("WITHOUT"@[0] == 'W' && "NULLS_P"@[0] == 'N'); }
// frame: the tokens from i on are as they were, so what follows i is found as before
pub proof fn next_from_frame(a: Seq<Token>, b: Seq<Token>, j: int) requires a.len() == b.len(), 0 <= j, forall|p: int| j <= p < a.len() ==> a[p].kind == b[p].kind ensures next_from(a, j) == next_from(b, j) decreases a.len() - j
{ if j < a.len() && is_comment(a[j].kind) { next_from_frame(a, b, j + 1); } }
"""
CONTRACT = """requires old($0).len() >= 1
    ensures final($0).len() == old($0).len(),
        forall|p: int| 0 <= p < old($0).len() ==> same_but_kind(#[trigger] final($0)[p], old($0)[p]),
        forall|p: int| 0 <= p < old($0).len() ==> converted(old($0)@, p, (#[trigger] final($0)[p]).kind)"""
def types(u):
    for kind, name in (("enum", "TokenKind"), ("struct", "Token")):
        it = u.item(L, kind, name); t = it.text
        for a in it.attrs: t = t.replace(a, "", 1)
        u.add("".join(x.text for x in vx.R.tokenize(t, True) if x.kind != "com"))
    u.extraction.append("attributes (derives) of TokenKind and Token dropped; equality of kinds is the derived one")
def build(u):
    types(u); u.add(KINDEQ); u.add(vx.STR_EQ); u.add(SPEC)
    f = u.fn(F, "init_tokens"); g = f.lift("next_token_index")
    g.desugar(); g.strings()
    g.contract("requires $1 < $0.len() ensures (match r { Some(j) => next_from($0@, $1 + 1) == j as int && j < $0.len(), None => next_from($0@, $1 + 1) == -1 })")
    g.loop(0, "invariant $1 < $0.len(), $1 < __i0, __e0 == $0.len(), __i0 <= __e0, next_from($0@, $1 + 1) == next_from($0@, __i0 as int) decreases __e0 - __i0")
    g.start(); u.put(g)
    f.desugar(); f.strings()
    f.contract(CONTRACT)
    f.loop(0, """invariant $0.len() == old($0).len(), $0.len() >= 1, __e0 <= $0.len(), __e0 + 1 >= $0.len(), __i0 <= __e0,
        forall|p: int| 0 <= p < old($0).len() ==> same_but_kind(#[trigger] $0[p], old($0)[p]),
        forall|p: int| 0 <= p < __i0 ==> converted(old($0)@, p, (#[trigger] $0[p]).kind),
        forall|p: int| __i0 <= p < old($0).len() ==> (#[trigger] $0[p]) == old($0)[p]
      decreases __e0 - __i0""", " proof { heads_differ(); next_from_frame($0@, old($0)@, __i0 + 1); next_from_range($0@, __i0 + 1); } ")
    f.start(); u.put(f)
    return u
