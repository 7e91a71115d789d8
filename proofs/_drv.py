"""Specification and lemmas of the LR driver."""
# what the driver relies on about the tokens of lex (proved in the unit scan)
TOKS = r"""
pub open spec fn is_raw_end(k: TokenKind) -> bool { k matches TokenKind::RAW(s) && s@ == "$end"@ }
pub open spec fn tok_ok(x: Token, b: Seq<u8>) -> bool { x.start_byte_pos < x.end_byte_pos <= b.len() && BOUNDARY(b, x.start_byte_pos as int) && BOUNDARY(b, x.end_byte_pos as int) && utf8(x.value@) == b.subrange(x.start_byte_pos as int, x.end_byte_pos as int) && !is_raw_end(x.kind) }
pub open spec fn toks_ok(v: Seq<Token>, b: Seq<u8>) -> bool { (forall|i: int| 0 <= i < v.len() ==> tok_ok(#[trigger] v[i], b)) && (forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).end_byte_pos <= (#[trigger] v[j]).start_byte_pos) }
pub open spec fn lex_error_ok(b: Seq<u8>, e: ParserError) -> bool { match e { ParserError::ScanError { message } => true, ParserError::ScanReport(x) => x.position_in_bytes <= b.len() && BOUNDARY(b, x.position_in_bytes as int), _ => false } }
"""
LEX = "ensures (match r { Ok(v) => is_lex($0@, v@) && toks_ok(v@, utf8($0@)), Err(e) => lex_err($0@, e) && lex_error_ok(utf8($0@), e) })"
SPEC = r"""
// ---- the tables of the shipped parser, decided by lrcheck on every run
pub uninterp spec fn T() -> Tab;
pub uninterp spec fn A() -> Ann;
#[verifier::external_body] pub proof fn tables_checked() ensures lr_ok(T(), A()), T().ws == WHITESPACE(), T().nkinds == NKINDS(), NT() == T().nt, NN() == T().nn, T().end == END() {}
pub open spec fn nt() -> int { T().nt as int }
// ---- text
#[verifier::external_body] pub fn slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str) requires a <= b <= utf8(s@).len(), BOUNDARY(utf8(s@), a as int), BOUNDARY(utf8(s@), b as int) ensures utf8(r@) == utf8(s@).subrange(a as int, b as int) { &s[a..b] }
#[verifier::external_body] pub fn str_len(s: &str) -> (r: usize) ensures r == utf8(s@).len() { s.len() }
#[verifier::external_body] pub fn some_text() -> (r: String) { String::new() }
// ---- tokens
pub uninterp spec fn CID(k: TokenKind) -> Option<u32>;
pub open spec fn cid_ok(k: TokenKind) -> bool { match CID(k) { Some(c) => (if is_comment(k) { NT() + NN() <= c < NKINDS() } else { c < NT() }) && (c == END() ==> is_raw_end(k)), None => true } }
// the tokens of an input, after the post-pass and with the end token
pub open spec fn full_ok(tv: Seq<Token>, b: Seq<u8>) -> bool { tv.len() > 0 && toks_ok(tv.drop_last(), b) && tv.last().start_byte_pos == b.len() && tv.last().end_byte_pos == b.len() && is_raw_end(tv.last().kind) && b.len() <= usize::MAX && BOUNDARY(b, 0) && BOUNDARY(b, b.len() as int) }
// v are the tokens of the input; it is rejected with e: both defined in the unit scan
pub uninterp spec fn is_lex(input: Seq<char>, v: Seq<Token>) -> bool;
pub uninterp spec fn lex_err(input: Seq<char>, e: ParserError) -> bool;
// what the post-pass makes of them (its contract is proved in the unit `tokens`)
pub open spec fn passed(a: Seq<Token>, b: Seq<Token>) -> bool { a.len() == b.len() && (forall|p: int| 0 <= p < a.len() ==> same_but_kind(#[trigger] b[p], a[p])) && (forall|p: int| 0 <= p < a.len() ==> converted(a, p, (#[trigger] b[p]).kind)) }
pub open spec fn is_input(input: Seq<char>, tv: Seq<Token>) -> bool { full_ok(tv, utf8(input)) && exists|w: Seq<Token>| #[trigger] is_lex(input, w) && (if w.len() > 0 { passed(w, tv.drop_last()) } else { tv.len() == 1 }) }
pub proof fn lex_to_full(input: Seq<char>, w: Seq<Token>, tv: Seq<Token>) requires is_lex(input, w), toks_ok(w, utf8(input)), tv.len() > 0, if w.len() > 0 { passed(w, tv.drop_last()) } else { tv.len() == 1 },
    tv.last().start_byte_pos == utf8(input).len(), tv.last().end_byte_pos == utf8(input).len(), is_raw_end(tv.last().kind), utf8(input).len() <= usize::MAX ensures is_input(input, tv)
{ let v = tv.drop_last(); let b = utf8(input); boundaries(input);
  assert forall|i: int| 0 <= i < v.len() implies tok_ok(#[trigger] v[i], b) by { assert(tok_ok(w[i], b)); assert(same_but_kind(v[i], w[i])); assert(converted(w, i, v[i].kind)); if la_of(w, i).is_none() { assert(v[i].kind == w[i].kind); } else { assert(v[i].kind is KEYWORD); } }
  assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).end_byte_pos <= (#[trigger] v[j]).start_byte_pos by { assert(same_but_kind(v[i], w[i])); assert(same_but_kind(v[j], w[j])); } }
// ---- pieces
pub open spec fn endp(tv: Seq<Token>, k: int) -> int { if k <= 0 || k > tv.len() { 0 } else { tv[k - 1].end_byte_pos as int } }
pub open spec fn gap(g: Seq<Piece>, b: Seq<u8>, x: int, y: int) -> Seq<Piece> { if x < y { g.push(Piece { ex: true, kind: WHITESPACE(), start: x, end: y, text: b.subrange(x, y) }) } else { g } }
pub open spec fn tpiece(x: Token) -> Piece { Piece { ex: is_comment(x.kind), kind: CID(x.kind).unwrap_or(0), start: x.start_byte_pos as int, end: x.end_byte_pos as int, text: utf8(x.value@) } }
pub open spec fn gp(tv: Seq<Token>, b: Seq<u8>, k: int) -> Seq<Piece> decreases k { if k <= 0 { seq![] } else { gap(gp(tv, b, k - 1), b, endp(tv, k - 1), tv[k - 1].start_byte_pos as int).push(tpiece(tv[k - 1])) } }
pub open spec fn all_pieces(tv: Seq<Token>, b: Seq<u8>) -> Seq<Piece> { gap(gp(tv, b, tv.len() - 1), b, endp(tv, tv.len() - 1), b.len() as int) }
pub open spec fn flat(g: Seq<Piece>) -> Seq<u8> decreases g.len() { if g.len() == 0 { seq![] } else { flat(g.drop_last()) + g.last().text } }
pub open spec fn known(tv: Seq<Token>, k: int) -> bool { forall|i: int| 0 <= i < k ==> CID((#[trigger] tv[i]).kind).is_some() && cid_ok(tv[i].kind) }
pub open spec fn below(g: Seq<Piece>, e: int) -> bool { forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).end <= e }
pub proof fn push_piece(g: Seq<Piece>, p: Piece, b: Seq<u8>, e: int) requires g_ok(g), below(g, e), 0 <= e <= p.start < p.end <= b.len(), p.ex <==> EXTRA(p.kind), p.text == b.subrange(p.start, p.end), flat(g) == b.subrange(0, e), e == p.start
  ensures g_ok(g.push(p)), below(g.push(p), p.end), flat(g.push(p)) == b.subrange(0, p.end), exs(g.push(p), 0) == (if p.ex { exs(g, 0).push(p) } else { exs(g, 0) }), lvs(g.push(p), 0) == (if p.ex { lvs(g, 0) } else { lvs(g, 0).push(p) })
{ reveal(g_ok); exs_push(g, p, 0); assert(g.push(p).drop_last() =~= g); assert(b.subrange(0, e) + b.subrange(e, p.end) =~= b.subrange(0, p.end)); }
pub proof fn exs_push(g: Seq<Piece>, p: Piece, k: int) requires 0 <= k <= g.len()
  ensures exs(g.push(p), k) == (if p.ex { exs(g, k).push(p) } else { exs(g, k) }), lvs(g.push(p), k) == (if p.ex { lvs(g, k) } else { lvs(g, k).push(p) }) decreases g.len() - k
{ let h = g.push(p); if k == g.len() { assert(exs(h, k + 1) == Seq::<Piece>::empty()); assert(lvs(h, k + 1) == Seq::<Piece>::empty()); assert(exs(h, k) =~= (if p.ex { exs(g, k).push(p) } else { exs(g, k) })); assert(lvs(h, k) =~= (if p.ex { lvs(g, k) } else { lvs(g, k).push(p) })); }
  else { exs_push(g, p, k + 1); assert(h[k] == g[k]); assert(exs(h, k) =~= (if p.ex { exs(g, k).push(p) } else { exs(g, k) })); assert(lvs(h, k) =~= (if p.ex { lvs(g, k) } else { lvs(g, k).push(p) })); } }
pub proof fn gap_ok(g: Seq<Piece>, b: Seq<u8>, x: int, y: int) requires g_ok(g), below(g, x), 0 <= x <= y <= b.len(), flat(g) == b.subrange(0, x), WHITESPACE() >= NT() + NN()
  ensures ({ let h = gap(g, b, x, y); g_ok(h) && below(h, y) && flat(h) == b.subrange(0, y) && lvs(h, 0) == lvs(g, 0) && exs(h, 0) == (if x < y { exs(g, 0).push(Piece { ex: true, kind: WHITESPACE(), start: x, end: y, text: b.subrange(x, y) }) } else { exs(g, 0) }) })
{ if x < y { push_piece(g, Piece { ex: true, kind: WHITESPACE(), start: x, end: y, text: b.subrange(x, y) }, b, x); } }
pub proof fn gp_ok(tv: Seq<Token>, b: Seq<u8>, k: int) requires full_ok(tv, b), 0 <= k < tv.len(), known(tv, k), WHITESPACE() >= NT() + NN() ensures g_ok(gp(tv, b, k)), below(gp(tv, b, k), endp(tv, k)), flat(gp(tv, b, k)) == b.subrange(0, endp(tv, k)), 0 <= endp(tv, k) <= b.len(), BOUNDARY(b, endp(tv, k)),
    k < tv.len() - 1 ==> endp(tv, k) <= tv[k].start_byte_pos decreases k
{ reveal(g_ok); if k > 0 { gp_ok(tv, b, k - 1); let x = tv[k - 1]; assert(tv.drop_last()[k - 1] == x); assert(tok_ok(tv.drop_last()[k - 1], b)); gap_ok(gp(tv, b, k - 1), b, endp(tv, k - 1), x.start_byte_pos as int);
    push_piece(gap(gp(tv, b, k - 1), b, endp(tv, k - 1), x.start_byte_pos as int), tpiece(x), b, x.start_byte_pos as int); if k < tv.len() - 1 { assert(tv.drop_last()[k] == tv[k]); assert(tv.drop_last()[k - 1].end_byte_pos <= tv.drop_last()[k].start_byte_pos); } } else { assert(b.subrange(0, 0) =~= seq![]); } }
// ---- the text of a tree
pub open spec fn text(e: Seq<Ev>) -> Seq<u8> decreases e.len() { if e.len() == 0 { seq![] } else { match e.last() { Ev::Tok(_, s) => text(e.drop_last()) + s, _ => text(e.drop_last()) } } }
pub proof fn text_toks(e: Seq<Ev>) ensures text(e) == text(toks(e)) decreases e.len() { if e.len() > 0 { text_toks(e.drop_last()); if e.last() is Tok { let x = toks(e.drop_last()); assert(x.push(e.last()).drop_last() =~= x); } } }
pub proof fn text_flat(g: Seq<Piece>) ensures text(toks_of(g)) == flat(g) decreases g.len() { if g.len() > 0 { text_flat(g.drop_last()); assert(toks_of(g).drop_last() =~= toks_of(g.drop_last())); } }
// ---- derivation trees of the grammar
pub open spec fn produces(r: int, n: Node) -> bool { n.component_id == nt() + T().rlhs[r] && n.children@.len() == A().rhs[r]@.len() && forall|i: int| 0 <= i < n.children@.len() ==> (#[trigger] n.children@[i]).component_id == A().rhs[r]@[i] }
pub open spec fn valid(n: Node) -> bool decreases n { match n.token { Some(x) => n.component_id < nt() && CID(x.kind) == Some(n.component_id), None => (exists|r: int| 0 <= r < T().rlen.len() && #[trigger] produces(r, n)) && forall|i: int| #![trigger n.children@[i]] 0 <= i < n.children@.len() ==> valid(n.children@[i]) } }
pub open spec fn empty(n: Node) -> bool { leaves(n).len() == 0 }
pub open spec fn all_valid(s: Seq<Node>) -> bool { forall|i: int| 0 <= i < s.len() ==> valid(#[trigger] s[i]) }
pub open spec fn all_empty(s: Seq<Node>) -> bool { forall|i: int| 0 <= i < s.len() ==> empty(#[trigger] s[i]) }
// empty nodes next to each other are at the same position
pub open spec fn tight(s: Seq<Node>) -> bool { forall|i: int| 0 < i < s.len() && empty(s[i - 1]) && empty(#[trigger] s[i]) ==> s[i - 1].end_byte_pos == s[i].start_byte_pos }
pub proof fn leaves_empty(s: Seq<Node>) ensures all_leaves(s).len() == 0 <==> all_empty(s) decreases s.len()
{ if s.len() > 0 { let h = s.drop_last(); leaves_empty(h); if all_empty(s) { assert forall|i: int| 0 <= i < h.len() implies empty(#[trigger] h[i]) by { assert(h[i] == s[i]); } assert(empty(s[s.len() - 1])); }
    if all_leaves(s).len() == 0 { assert forall|i: int| 0 <= i < s.len() implies empty(#[trigger] s[i]) by { if i < h.len() { assert(empty(h[i])); } } } } }
pub proof fn tight_same(s: Seq<Node>) requires all_wf(s), tight(s), all_empty(s), s.len() > 0 ensures s[0].start_byte_pos == s.last().end_byte_pos decreases s.len()
{ let h = s.drop_last(); assert(empty(s[s.len() - 1])); assert(wf(s[s.len() - 1])); if h.len() > 0 { assert(empty(s[s.len() - 2])); 
    assert(all_wf(h)) by { assert forall|i: int| 0 <= i < h.len() implies wf(#[trigger] h[i]) by { assert(h[i] == s[i]); } } assert(tight(h)) by { assert forall|i: int| 0 < i < h.len() && empty(h[i - 1]) && empty(#[trigger] h[i]) implies h[i - 1].end_byte_pos == h[i].start_byte_pos by { assert(empty(s[i])); } }
    assert(all_empty(h)) by { assert forall|i: int| 0 <= i < h.len() implies empty(#[trigger] h[i]) by { assert(h[i] == s[i]); } } tight_same(h); } }
// sizes of empty nodes
pub open spec fn esz(n: Node) -> int decreases n { 1 + eszs(n.children@) }
pub open spec fn eszs(s: Seq<Node>) -> int decreases s { if s.len() == 0 { 0 } else { eszs(s.drop_last()) + esz(s.last()) } }
pub proof fn empty_null(n: Node) requires lr_ok(T(), A()), valid(n), empty(n) ensures n.token.is_none(), nt() <= n.component_id < nt() + T().nn, A().nullable[n.component_id as int], esz(n) <= A().sz[n.component_id as int], esz(n) >= 1 decreases n, 0nat
{ let c = n.children@; leaves_empty(c); let r = choose|r: int| 0 <= r < T().rlen.len() && #[trigger] produces(r, n); assert(rule_ok(T(), A(), r)); let x = A().rhs[r]@;
  assert(x =~= Seq::new(c.len(), |i: int| c[i].component_id)); empties_null(c, x);
  assert forall|i: int| 0 <= i < x.len() implies A().nullable[#[trigger] x[i] as int] by { assert(c[i].component_id == x[i]); } }
pub proof fn empties_null(c: Seq<Node>, x: Seq<u32>) requires lr_ok(T(), A()), all_valid(c), all_empty(c), x == Seq::new(c.len(), |i: int| c[i].component_id)
  ensures forall|i: int| 0 <= i < c.len() ==> A().nullable[(#[trigger] c[i]).component_id as int], eszs(c) <= sumsz(A(), x), eszs(c) >= 0 decreases c, 1nat
{ if c.len() > 0 { let h = c.drop_last(); assert(valid(c[c.len() - 1])); assert(empty(c[c.len() - 1])); empty_null(c.last()); 
    assert(all_valid(h)) by { assert forall|i: int| 0 <= i < h.len() implies valid(#[trigger] h[i]) by { assert(h[i] == c[i]); } } assert(all_empty(h)) by { assert forall|i: int| 0 <= i < h.len() implies empty(#[trigger] h[i]) by { assert(h[i] == c[i]); } }
    assert(x.drop_last() =~= Seq::new(h.len(), |i: int| h[i].component_id)); empties_null(h, x.drop_last());
    assert forall|i: int| 0 <= i < c.len() implies A().nullable[(#[trigger] c[i]).component_id as int] by { if i < h.len() { assert(h[i] == c[i]); } } } }
// ---- the stack
pub type St = Seq<(u32, Node)>;
pub open spec fn nodes(st: St) -> Seq<Node> { Seq::new((st.len() - 1) as nat, |i: int| st[i + 1].1) }
pub open spec fn step(s: int, x: int, q: int) -> bool { if x < nt() { act(T(), s, x) == q + 1 && act(T(), s, x) != ERR() } else { x < nt() + T().nn && go(T(), s, x - nt()) == q } }
pub open spec fn edge(st: St, i: int) -> bool { step(st[i - 1].0 as int, st[i].1.component_id as int, st[i].0 as int) }
pub open spec fn path_ok(st: St) -> bool { st.len() >= 1 && st[0].0 == 0 && (forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).0 < T().ai.len()) && (forall|i: int| 0 < i < st.len() ==> #[trigger] edge(st, i)) }
pub proof fn edge_ok(s: int, x: int, q: int) requires lr_ok(T(), A()), 0 <= s < T().ai.len(), 0 <= x, 0 <= q, step(s, x, q) ensures step_ok(T(), A(), s, x, q) { if x < nt() { assert(act_ok(T(), A(), s, x)); } else { assert(goto_ok(T(), A(), s, x - nt())); } }
// the top of the stack spells the part of the rule before the dot
pub proof fn dot_path(st: St, r: int, d: int) requires lr_ok(T(), A()), path_ok(st), has(A(), st.last().0 as int, r, d), 0 <= d
  ensures 0 <= r < T().rlen.len(), d < st.len(), d <= A().rhs[r]@.len(), forall|j: int| 0 <= j < d ==> (#[trigger] A().rhs[r]@[j]) == st[st.len() - d + j].1.component_id, has(A(), st[st.len() - 1 - d].0 as int, r, 0),
     T().rlhs[r] < T().nn, go(T(), st[st.len() - 1 - d].0 as int, T().rlhs[r] as int) >= 0 decreases d
{ let s = st.last().0 as int; assert(items_ok(T(), A(), s)); let i = choose|i: int| 0 <= i < A().items[s]@.len() && (#[trigger] A().items[s]@[i]).0 == r && A().items[s]@[i].1 == d; let it = A().items[s]@[i]; assert(item_ok(T(), A(), s, it));
  if d > 0 { assert(st.len() > 1); let n = st.len() - 1; assert(edge(st, n)); let p = st[n - 1].0 as int; edge_ok(p, st[n].1.component_id as int, s); assert(back_ok(T(), A(), p, st[n].1.component_id as int, it));
    let h = st.drop_last(); assert(path_ok(h)) by { assert forall|k: int| 0 < k < h.len() implies #[trigger] edge(h, k) by { assert(edge(st, k)); } } dot_path(h, r, d - 1);
    assert forall|j: int| 0 <= j < d implies (#[trigger] A().rhs[r]@[j]) == st[st.len() - d + j].1.component_id by { if j < d - 1 { assert(h[h.len() - (d - 1) + j] == st[st.len() - d + j]); } }
    assert(h[h.len() - 1 - (d - 1)] == st[st.len() - 1 - d]); } }
pub proof fn accepting(st: St) requires lr_ok(T(), A()), path_ok(st), A().acc[st.last().0 as int] ensures st.len() == 2, st[1].1.component_id == A().start
{ let n = st.len() - 1; assert(n > 0); assert(edge(st, n)); edge_ok(st[n - 1].0 as int, st[n].1.component_id as int, st[n].0 as int);
  if n > 1 { assert(edge(st, n - 1)); edge_ok(st[n - 2].0 as int, st[n - 1].1.component_id as int, st[n - 1].0 as int); } }
// ---- the measure: nodes with text, their levels, room for empty nodes
pub open spec fn lv(n: Node) -> nat { let l = A().lev[n.component_id as int]; if l <= A().levmax { (A().levmax - l) as nat } else { 0 } }
pub open spec fn cnt(s: Seq<Node>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last()) + (if empty(s.last()) { 0nat } else { 1nat }) } }
pub open spec fn lsum(s: Seq<Node>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { lsum(s.drop_last()) + (if empty(s.last()) { 0nat } else { lv(s.last()) }) } }
pub open spec fn room(st: St) -> int decreases st.len() { if st.len() <= 1 || !empty(st.last().1) { A().v[st.last().0 as int] as int } else { room(st.drop_last()) - esz(st.last().1) } }
pub proof fn room_pos(st: St) requires lr_ok(T(), A()), path_ok(st), all_valid(nodes(st)) ensures room(st) >= A().v[st.last().0 as int] >= 0 decreases st.len()
{ if st.len() > 1 && empty(st.last().1) { let n = st.len() - 1; let h = st.drop_last(); assert(edge(st, n)); edge_ok(st[n - 1].0 as int, st[n].1.component_id as int, st[n].0 as int);
    assert(path_ok(h)) by { assert forall|k: int| 0 < k < h.len() implies #[trigger] edge(h, k) by { assert(edge(st, k)); } } assert(all_valid(nodes(h))) by { assert forall|i: int| 0 <= i < nodes(h).len() implies valid(#[trigger] nodes(h)[i]) by { assert(nodes(h)[i] == nodes(st)[i]); } }
    assert(nodes(st)[n - 1] == st[n].1); empty_null(st[n].1); room_pos(h); } }
pub proof fn cnt_split(s: Seq<Node>, i: int) requires 0 <= i <= s.len() ensures cnt(s) == cnt(s.take(i)) + cnt(s.skip(i)), lsum(s) == lsum(s.take(i)) + lsum(s.skip(i)) decreases s.len()
{ if i == s.len() { assert(s.take(i) =~= s); assert(cnt(s.skip(i)) == 0); } else { let h = s.drop_last(); cnt_split(h, i); assert(h.take(i) =~= s.take(i)); assert(s.skip(i).drop_last() =~= h.skip(i)); assert(s.skip(i).last() == s.last()); } }
pub proof fn cnt_zero(s: Seq<Node>) ensures cnt(s) == 0 <==> all_empty(s), cnt(s) == 0 ==> lsum(s) == 0 decreases s.len()
{ if s.len() > 0 { let h = s.drop_last(); cnt_zero(h); if all_empty(s) { assert forall|i: int| 0 <= i < h.len() implies empty(#[trigger] h[i]) by { assert(h[i] == s[i]); } assert(empty(s[s.len() - 1])); }
   if cnt(s) == 0 { assert forall|i: int| 0 <= i < s.len() implies empty(#[trigger] s[i]) by { if i < h.len() { assert(empty(h[i])); } } } } }
pub proof fn cnt_one(s: Seq<Node>) -> (j: int) requires cnt(s) == 1 ensures 0 <= j < s.len(), !empty(s[j]), lsum(s) == lv(s[j]), forall|i: int| 0 <= i < s.len() && i != j ==> empty(#[trigger] s[i]) decreases s.len()
{ let h = s.drop_last(); if empty(s.last()) { let j = cnt_one(h); assert forall|i: int| 0 <= i < s.len() && i != j implies empty(#[trigger] s[i]) by { if i < h.len() { assert(h[i] == s[i]); } } j } else { cnt_zero(h); assert forall|i: int| 0 <= i < s.len() && i != s.len() - 1 implies empty(#[trigger] s[i]) by { assert(h[i] == s[i]); } s.len() - 1 } }
pub proof fn room_split(st: St, i: int) requires 1 <= i <= st.len(), forall|k: int| i <= k < st.len() ==> empty((#[trigger] st[k]).1) ensures room(st) == room(st.take(i)) - eszs(nodes(st).skip(i - 1)) decreases st.len()
{ if i == st.len() { assert(st.take(i) =~= st); assert(nodes(st).skip(i - 1).len() == 0); } else { let h = st.drop_last(); room_split(h, i); assert(h.take(i) =~= st.take(i)); let x = nodes(st).skip(i - 1); assert(x.drop_last() =~= nodes(h).skip(i - 1)); assert(x.last() == st.last().1); assert(empty(st[st.len() - 1].1)); } }
// ---- the invariant of the driver
pub open spec fn inv_text(tv: Seq<Token>, b: Seq<u8>, st: St, ex: Seq<Extra>, k: int, last: int) -> bool {
    full_ok(tv, b) && known(tv, k) && 0 <= k < tv.len() && last == endp(tv, k) && ex_pieces(ex) == exs(gp(tv, b, k), 0) && all_leaves(nodes(st)) == lvs(gp(tv, b, k), 0) && (ex.len() > 0 ==> ex.last().2 <= last) }
pub open spec fn inv_tree(tv: Seq<Token>, st: St, ex: Seq<Extra>, k: int, last: int) -> bool {
    path_ok(st) && st[0].1.end_byte_pos == 0 && all_wf(nodes(st)) && all_valid(nodes(st)) && tight(nodes(st)) && (nodes(st).len() > 0 ==> nodes(st).last().end_byte_pos <= last)
    && (nodes(st).len() > 0 && empty(nodes(st).last()) ==> !is_comment(tv[k].kind) && (ex.len() > 0 ==> ex.last().2 <= nodes(st).last().end_byte_pos)) }
#[verifier::opaque] pub open spec fn inv(tv: Seq<Token>, b: Seq<u8>, st: St, ex: Seq<Extra>, k: int, last: int) -> bool { lr_ok(T(), A()) && inv_text(tv, b, st, ex, k, last) && inv_tree(tv, st, ex, k, last) }
// what the code may rely on
pub proof fn inv_use(tv: Seq<Token>, b: Seq<u8>, st: St, ex: Seq<Extra>, k: int, last: int) requires inv(tv, b, st, ex, k, last)
  ensures st.len() > 0, st.last().0 < T().ai.len(), 0 <= k < tv.len(), 0 <= last <= b.len(), BOUNDARY(b, last), last <= tv[k].start_byte_pos <= tv[k].end_byte_pos <= b.len(), BOUNDARY(b, tv[k].start_byte_pos as int), BOUNDARY(b, tv[k].end_byte_pos as int), shape(T(), A()), room(st) >= 0, (k == tv.len() - 1 <==> is_raw_end(tv[k].kind)), full_ok(tv, b)
{ reveal(inv); tables_checked(); gp_ok(tv, b, k); room_pos(st); if k < tv.len() - 1 { assert(tv.drop_last()[k] == tv[k]); assert(tok_ok(tv.drop_last()[k], b)); } }
pub proof fn inv_init(tv: Seq<Token>, b: Seq<u8>, st: St, ex: Seq<Extra>) requires full_ok(tv, b), st.len() == 1, st[0].0 == 0, st[0].1.end_byte_pos == 0, ex.len() == 0 ensures inv(tv, b, st, ex, 0, 0)
{ reveal(inv); tables_checked(); assert(nodes(st).len() == 0); assert(all_leaves(nodes(st)) =~= lvs(gp(tv, b, 0), 0)); assert(ex_pieces(ex) =~= exs(gp(tv, b, 0), 0)); }
// a gap and a comment
pub open spec fn gapped(ex: Seq<Extra>, ex1: Seq<Extra>, b: Seq<u8>, x: int, y: int) -> bool { if x < y { ex1.len() == ex.len() + 1 && ex1.drop_last() =~= ex && ex1.last().0.raw == WHITESPACE() && ex1.last().1 == x && ex1.last().2 == y && utf8(ex1.last().3@) == b.subrange(x, y) } else { ex1 =~= ex } }
pub proof fn gapped_pieces(ex: Seq<Extra>, ex1: Seq<Extra>, b: Seq<u8>, x: int, y: int) requires gapped(ex, ex1, b, x, y) ensures ex_pieces(ex1) == (if x < y { ex_pieces(ex).push(Piece { ex: true, kind: WHITESPACE(), start: x, end: y, text: b.subrange(x, y) }) } else { ex_pieces(ex) })
{ if x < y { assert(ex_pieces(ex1) =~= ex_pieces(ex).push(ex_piece(ex1.last()))) by { assert forall|i: int| 0 <= i < ex.len() implies ex_pieces(ex1)[i] == #[trigger] ex_pieces(ex)[i] by { assert(ex1.drop_last()[i] == ex[i]); } } } }
pub proof fn inv_comment(tv: Seq<Token>, b: Seq<u8>, st: St, ex: Seq<Extra>, ex1: Seq<Extra>, c: Extra, k: int, last: int)
  requires inv(tv, b, st, ex, k, last), is_comment(tv[k].kind), cid_ok(tv[k].kind), CID(tv[k].kind) == Some(c.0.raw), gapped(ex, ex1, b, last, tv[k].start_byte_pos as int), c.1 == tv[k].start_byte_pos, c.2 == tv[k].end_byte_pos, utf8(c.3@) == b.subrange(c.1 as int, c.2 as int)
  ensures inv(tv, b, st, ex1.push(c), k + 1, tv[k].end_byte_pos as int)
{ inv_use(tv, b, st, ex, k, last); reveal(inv); tables_checked(); gp_ok(tv, b, k); gapped_pieces(ex, ex1, b, last, tv[k].start_byte_pos as int); let g = gp(tv, b, k); gap_ok(g, b, last, tv[k].start_byte_pos as int); let h = gap(g, b, last, tv[k].start_byte_pos as int);
  assert(k < tv.len() - 1); assert(tv.drop_last()[k] == tv[k]); assert(tok_ok(tv.drop_last()[k], b)); push_piece(h, tpiece(tv[k]), b, tv[k].start_byte_pos as int); assert(ex_pieces(ex1.push(c)) =~= ex_pieces(ex1).push(ex_piece(c))); assert(gp(tv, b, k + 1) == h.push(tpiece(tv[k]))); }
pub open spec fn good(s: Seq<Node>) -> bool { all_wf(s) && all_valid(s) && tight(s) }
pub proof fn good_push(s: Seq<Node>, n: Node) requires good(s), wf(n), valid(n), s.len() > 0 ==> s.last().end_byte_pos <= n.start_byte_pos, s.len() > 0 && empty(s.last()) && empty(n) ==> s.last().end_byte_pos == n.start_byte_pos ensures good(s.push(n))
{ let p = s.push(n);
  assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).end_byte_pos <= (#[trigger] p[j]).start_byte_pos by { if j == s.len() { if i < s.len() - 1 { assert(s[i].end_byte_pos <= s[s.len() - 1].start_byte_pos); assert(s[s.len() - 1].start_byte_pos <= s[s.len() - 1].end_byte_pos); } } else { assert(p[i] == s[i]); assert(p[j] == s[j]); } }
  assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).start_byte_pos <= p[i].end_byte_pos by { if i < s.len() { assert(s[i].start_byte_pos <= s[i].end_byte_pos); } else { assert(wf(p[i])); } }
  assert forall|i: int| 0 <= i < p.len() implies wf(#[trigger] p[i]) && valid(p[i]) by { if i < s.len() { assert(wf(s[i])); assert(valid(s[i])); } }
  assert forall|i: int| 0 < i < p.len() && empty(p[i - 1]) && empty(#[trigger] p[i]) implies p[i - 1].end_byte_pos == p[i].start_byte_pos by { if i < s.len() { assert(p[i] == s[i]); assert(p[i - 1] == s[i - 1]); assert(empty(s[i])); } } }
pub proof fn good_sub(s: Seq<Node>, x: int, y: int) requires good(s), 0 <= x <= y <= s.len() ensures good(s.subrange(x, y))
{ let p = s.subrange(x, y);
  assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).end_byte_pos <= (#[trigger] p[j]).start_byte_pos by { assert(p[i] == s[x + i]); assert(p[j] == s[x + j]); }
  assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).start_byte_pos <= p[i].end_byte_pos by { assert(p[i] == s[x + i]); }
  assert forall|i: int| 0 <= i < p.len() implies wf(#[trigger] p[i]) && valid(p[i]) by { assert(p[i] == s[x + i]); }
  assert forall|i: int| 0 < i < p.len() && empty(p[i - 1]) && empty(#[trigger] p[i]) implies p[i - 1].end_byte_pos == p[i].start_byte_pos by { assert(p[i] == s[x + i]); assert(p[i - 1] == s[x + i - 1]); assert(empty(s[x + i])); } }
pub proof fn path_take(st: St, m: int) requires path_ok(st), 1 <= m <= st.len() ensures path_ok(st.take(m)) { let h = st.take(m); assert forall|i: int| 0 < i < h.len() implies #[trigger] edge(h, i) by { assert(edge(st, i)); } assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).0 < T().ai.len() by { assert(h[i] == st[i]); } }
pub proof fn path_push(st: St, e: (u32, Node)) requires lr_ok(T(), A()), path_ok(st), step(st.last().0 as int, e.1.component_id as int, e.0 as int) ensures path_ok(st.push(e)), step_ok(T(), A(), st.last().0 as int, e.1.component_id as int, e.0 as int)
{ let p = st.push(e); assert(st[st.len() - 1].0 < T().ai.len()); edge_ok(st.last().0 as int, e.1.component_id as int, e.0 as int); assert forall|i: int| 0 < i < p.len() implies #[trigger] edge(p, i) by { if i < st.len() { assert(edge(st, i)); } } assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0 < T().ai.len() by { if i < st.len() { assert(st[i].0 < T().ai.len()); } } }
pub proof fn shift_text(tv: Seq<Token>, b: Seq<u8>, st: St, ex: Seq<Extra>, ex1: Seq<Extra>, e: (u32, Node), k: int, last: int)
  requires lr_ok(T(), A()), inv_text(tv, b, st, ex, k, last), st.len() > 0, k < tv.len() - 1, !is_comment(tv[k].kind), cid_ok(tv[k].kind), CID(tv[k].kind) == Some(e.1.component_id), gapped(ex, ex1, b, last, tv[k].start_byte_pos as int),
     e.1.token.is_some(), e.1.token->0 == tv[k], e.1.start_byte_pos == tv[k].start_byte_pos, e.1.end_byte_pos == tv[k].end_byte_pos
  ensures inv_text(tv, b, st.push(e), ex1, k + 1, tv[k].end_byte_pos as int)
{ tables_checked(); gp_ok(tv, b, k); let g = gp(tv, b, k); assert(tv.drop_last()[k] == tv[k]); assert(tok_ok(tv.drop_last()[k], b)); gapped_pieces(ex, ex1, b, last, tv[k].start_byte_pos as int); gap_ok(g, b, last, tv[k].start_byte_pos as int); let h = gap(g, b, last, tv[k].start_byte_pos as int);
  assert(tv.drop_last()[k] == tv[k]); assert(tok_ok(tv.drop_last()[k], b)); push_piece(h, tpiece(tv[k]), b, tv[k].start_byte_pos as int); assert(gp(tv, b, k + 1) == h.push(tpiece(tv[k])));
  let n0 = nodes(st); let n1 = nodes(st.push(e)); assert(n1 =~= n0.push(e.1)); assert(n1.drop_last() =~= n0); assert(leaves(e.1) == seq![tpiece(tv[k])]); assert(all_leaves(n1) =~= lvs(gp(tv, b, k + 1), 0)); }
pub proof fn inv_shift(tv: Seq<Token>, b: Seq<u8>, st: St, ex: Seq<Extra>, ex1: Seq<Extra>, e: (u32, Node), k: int, last: int)
  requires inv(tv, b, st, ex, k, last), !is_comment(tv[k].kind), cid_ok(tv[k].kind), CID(tv[k].kind) == Some(e.1.component_id), gapped(ex, ex1, b, last, tv[k].start_byte_pos as int), act(T(), st.last().0 as int, e.1.component_id as int) == e.0 + 1, act(T(), st.last().0 as int, e.1.component_id as int) != ERR(),
     e.1.token.is_some(), e.1.token->0 == tv[k], e.1.children@.len() == 0, e.1.start_byte_pos == tv[k].start_byte_pos, e.1.end_byte_pos == tv[k].end_byte_pos
  ensures inv(tv, b, st.push(e), ex1, k + 1, tv[k].end_byte_pos as int)
{ inv_use(tv, b, st, ex, k, last); reveal(inv); tables_checked(); let s = st.last().0 as int; let c = e.1.component_id as int; assert(act_ok(T(), A(), s, c)); raw_end_cid(tv[k].kind); assert(k < tv.len() - 1);
  assert(tv.drop_last()[k] == tv[k]); assert(tok_ok(tv.drop_last()[k], b)); shift_text(tv, b, st, ex, ex1, e, k, last); path_push(st, e); assert(leaves(e.1).len() == 1); assert(wf(e.1)); assert(valid(e.1)); let n0 = nodes(st); good_push(n0, e.1); assert(nodes(st.push(e)) =~= n0.push(e.1)); assert(st.push(e)[0] == st[0]); }
// the end token's kind has the end number (unit `ids`)
#[verifier::external_body] pub proof fn raw_end_cid(k: TokenKind) ensures is_raw_end(k) ==> CID(k) == Some(END() as u32) {}
// before a reduction
pub proof fn inv_reduce_ok(tv: Seq<Token>, b: Seq<u8>, st: St, ex: Seq<Extra>, k: int, last: int, c: int) -> (r: int) requires inv(tv, b, st, ex, k, last), 0 <= c < nt(), act(T(), st.last().0 as int, c) < 0
  ensures r == -act(T(), st.last().0 as int, c) - 1, act(T(), st.last().0 as int, c) > -32768, 0 <= r < T().rlen.len(), T().rlen[r] < st.len(), T().rlen[r] == A().rhs[r]@.len(), T().rlhs[r] < T().nn, go(T(), st[st.len() - 1 - T().rlen[r]].0 as int, T().rlhs[r] as int) >= 0, st[st.len() - 1 - T().rlen[r]].0 < T().ai.len()
{ reveal(inv); let s = st.last().0 as int; assert(act_ok(T(), A(), s, c)); let r = -act(T(), s, c) - 1; assert(rule_ok(T(), A(), r)); dot_path(st, r, A().rhs[r]@.len() as int); r }
pub open spec fn tops(st: St, n: int) -> Seq<Node> { Seq::new(n as nat, |i: int| st[st.len() - n + i].1) }
pub open spec fn red_pre(st: St, ex: Seq<Extra>, r: int, e: (u32, Node)) -> bool { let n = T().rlen[r] as int; let base = st[st.len() - 1 - n];
    e.1.token.is_none() && e.1.component_id == nt() + T().rlhs[r] && e.1.children@ == tops(st, n) && e.0 == go(T(), base.0 as int, T().rlhs[r] as int)
    && (n > 0 ==> e.1.start_byte_pos == tops(st, n)[0].start_byte_pos && e.1.end_byte_pos == tops(st, n).last().end_byte_pos)
    && (n == 0 ==> e.1.end_byte_pos == e.1.start_byte_pos && e.1.start_byte_pos == vmax(if ex.len() > 0 { ex.last().2 as int } else { 0 }, base.1.end_byte_pos as int)) }
// the new node
pub proof fn red_node(tv: Seq<Token>, st: St, ex: Seq<Extra>, k: int, last: int, r: int, e: (u32, Node)) requires lr_ok(T(), A()), inv_tree(tv, st, ex, k, last), 0 <= r < T().rlen.len(), has(A(), st.last().0 as int, r, A().rhs[r]@.len() as int), red_pre(st, ex, r, e), ex.len() > 0 ==> ex.last().2 <= last, 0 <= last, !is_comment(tv[k].kind)
  ensures ({ let n = T().rlen[r] as int; let m = st.len() - n; let nb = nodes(st).take(m - 1); 1 <= m <= st.len() && wf(e.1) && valid(e.1) && good(nodes(st).take(m - 1)) && good(nodes(st).skip(m - 1)) && e.1.children@ == nodes(st).skip(m - 1) && e.1.end_byte_pos <= last
     && produces(r, e.1) && (nb.len() > 0 ==> nb.last().end_byte_pos <= e.1.start_byte_pos) && (nb.len() > 0 && empty(nb.last()) && empty(e.1) ==> nb.last().end_byte_pos == e.1.start_byte_pos) && (empty(e.1) && ex.len() > 0 ==> ex.last().2 <= e.1.end_byte_pos) })
{ tables_checked(); let n = T().rlen[r] as int; let m = st.len() - n; let n0 = nodes(st); assert(rule_ok(T(), A(), r)); dot_path(st, r, n); let ch = e.1.children@; assert(ch =~= n0.skip(m - 1)); let nb = n0.take(m - 1);
  good_sub(n0, 0, m - 1); good_sub(n0, m - 1, n0.len() as int); assert(n0.subrange(0, m - 1) =~= nb); assert(n0.subrange(m - 1, n0.len() as int) =~= ch); leaves_empty(ch); assert(leaves(e.1) == all_leaves(ch));
  if n > 0 { assert(n0[n0.len() - 1] == ch[n - 1]); assert(n0[m - 1] == ch[0]); if empty(e.1) { tight_same(ch); assert(empty(ch[n - 1])); assert(empty(ch[0])); } assert(ch[0].start_byte_pos <= ch[n - 1].end_byte_pos) by { assert(wf(ch[0])); assert(wf(ch[n - 1])); if n > 1 { assert(ch[0].end_byte_pos <= ch[n - 1].start_byte_pos); } } }
  assert(wf(e.1)) by { assert forall|i: int| 0 <= i < ch.len() implies wf(#[trigger] ch[i]) by { } }
  assert(produces(r, e.1)) by { assert forall|i: int| 0 <= i < ch.len() implies (#[trigger] ch[i]).component_id == A().rhs[r]@[i] by { assert(A().rhs[r]@[i] == st[st.len() - n + i].1.component_id); } }
  assert(valid(e.1));
  if nb.len() > 0 { assert(nb.last() == n0[m - 2]); if n > 0 { assert(n0[m - 2].end_byte_pos <= n0[m - 1].start_byte_pos); if empty(nb.last()) && empty(e.1) { assert(empty(n0[m - 2]) && empty(n0[m - 1])); } } else { assert(nb.last() == st[st.len() - 1].1); assert(n0.last() == nb.last()); } } }
pub proof fn red_less(st: St, st1: St, r: int, e: (u32, Node)) requires lr_ok(T(), A()), path_ok(st), path_ok(st1), all_valid(nodes(st)), all_valid(nodes(st1)), 0 <= r < T().rlen.len(), T().rlen[r] < st.len(), ({ let n = T().rlen[r] as int; let m = st.len() - n; st1 == st.take(m).push(e) && e.1.children@ == nodes(st).skip(m - 1) }), e.1.token.is_none(), e.1.component_id == nt() + T().rlhs[r], produces(r, e.1)
  ensures less(st1, st)
{ let n = T().rlen[r] as int; let m = st.len() - n; let n0 = nodes(st); let n1 = nodes(st1); let ch = e.1.children@; let base = st.take(m); let nb = n0.take(m - 1); assert(n1.drop_last() =~= nb); assert(n1.last() == e.1); assert(rule_ok(T(), A(), r));
  cnt_split(n0, m - 1); cnt_zero(ch); room_pos(st); room_pos(st1); leaves_empty(ch); assert(leaves(e.1) == all_leaves(ch)); assert(cnt(n1) == cnt(nb) + (if empty(e.1) { 0nat } else { 1nat }));
  if cnt(ch) == 0 { assert(empty(e.1)); assert forall|i: int| m <= i < st.len() implies empty((#[trigger] st[i]).1) by { assert(ch[i - m] == st[i].1); assert(empty(ch[i - m])); } room_split(st, m); assert(st1.drop_last() =~= base); assert(st1.last() == e); assert(room(st1) == room(base) - esz(e.1)); assert(esz(e.1) == 1 + eszs(ch)); }
  else { assert(!empty(e.1)); if cnt(ch) == 1 { let j = cnt_one(ch); let x = A().rhs[r]@; assert(unit_ok(T(), A(), x, nt() + T().rlhs[r], j)); assert(ch[j].component_id == x[j]);
      assert(others_nullable(A(), x, j)) by { assert forall|i: int| 0 <= i < x.len() && i != j implies A().nullable[#[trigger] x[i] as int] by { assert(empty(ch[i])); assert(ch[i] == n0[m - 1 + i]); assert(valid(ch[i])); empty_null(ch[i]); assert(ch[i].component_id == x[i]); } } } } }
pub proof fn inv_reduce(tv: Seq<Token>, b: Seq<u8>, st: St, ex: Seq<Extra>, k: int, last: int, c: int, e: (u32, Node))
  requires inv(tv, b, st, ex, k, last), !is_comment(tv[k].kind), 0 <= c < nt(), act(T(), st.last().0 as int, c) < 0, red_pre(st, ex, -act(T(), st.last().0 as int, c) - 1, e)
  ensures ({ let n = T().rlen[-act(T(), st.last().0 as int, c) - 1] as int; let st1 = st.take(st.len() - n).push(e); inv(tv, b, st1, ex, k, last) && less(st1, st) })
{ let r = inv_reduce_ok(tv, b, st, ex, k, last, c); inv_use(tv, b, st, ex, k, last); reveal(inv); let s = st.last().0 as int; assert(act_ok(T(), A(), s, c)); red_node(tv, st, ex, k, last, r, e);
  let n = T().rlen[r] as int; let m = st.len() - n; let base = st.take(m); let st1 = base.push(e); let n0 = nodes(st); let nb = n0.take(m - 1); path_take(st, m); assert(base.last() == st[m - 1]); path_push(base, e); good_push(nb, e.1); assert(nodes(st1) =~= nb.push(e.1));
  split_leaves(n0, m - 1); assert(nodes(st1).drop_last() =~= nb); assert(leaves(e.1) == all_leaves(e.1.children@)); assert(st1[0] == st[0]); assert(nodes(st1).last() == e.1);
  red_less(st, st1, r, e); }
pub open spec fn vmax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn less(a: St, b: St) -> bool { room(a) >= 0 && (cnt(nodes(a)) < cnt(nodes(b)) || (cnt(nodes(a)) == cnt(nodes(b)) && (lsum(nodes(a)) < lsum(nodes(b)) || (lsum(nodes(a)) == lsum(nodes(b)) && room(a) < room(b))))) }
// acceptance
pub open spec fn derived(st: St, n: Node) -> bool { st.len() == 2 && nodes(st) == seq![n] && valid(n) && n.component_id == A().start }
pub proof fn inv_accept(tv: Seq<Token>, b: Seq<u8>, st: St, ex: Seq<Extra>, k: int, last: int, c: int) requires inv(tv, b, st, ex, k, last), 0 <= c < nt(), act(T(), st.last().0 as int, c) == 0, CID(tv[k].kind) == Some(c as u32), cid_ok(tv[k].kind)
  ensures k == tv.len() - 1, derived(st, st[1].1), st.len() == 2
{ inv_use(tv, b, st, ex, k, last); reveal(inv); tables_checked(); assert(act_ok(T(), A(), st.last().0 as int, c)); accepting(st); assert(nodes(st) =~= seq![st[1].1]); assert(valid(nodes(st)[0]));
  if k < tv.len() - 1 { assert(!is_raw_end(tv[k].kind)); } }
pub proof fn inv_final(tv: Seq<Token>, b: Seq<u8>, st: St, ex: Seq<Extra>, ex1: Seq<Extra>, last: int, ns: Seq<Node>) requires inv(tv, b, st, ex, tv.len() - 1, last), gapped(ex, ex1, b, last, b.len() as int), ns == nodes(st)
  ensures ({ let g = all_pieces(tv, b); g_ok(g) && exs(g, 0) == ex_pieces(ex1) && all_wf(ns) && lvs(g, 0) == all_leaves(ns) && flat(g) == b })
{ inv_use(tv, b, st, ex, tv.len() - 1, last); reveal(inv); tables_checked(); let k = tv.len() - 1; gp_ok(tv, b, k); gapped_pieces(ex, ex1, b, last, b.len() as int); gap_ok(gp(tv, b, k), b, last, b.len() as int); assert(b.subrange(0, b.len() as int) =~= b); }
// ---- what parse promises
pub open spec fn good_tree(input: Seq<char>, tv: Seq<Token>, n: Node, e: Seq<Ev>) -> bool {
    let b = utf8(input); is_input(input, tv) && valid(n) && n.component_id == A().start && wf(n) && leaves(n) == lvs(all_pieces(tv, b), 0)
    && toks(e) == toks_of(all_pieces(tv, b)) && text(e) == b && bare(e) == (seq![Ev::Start(ROOT())] + render(n)).push(Ev::Finish) }
pub proof fn good_end(input: Seq<char>, tv: Seq<Token>, n: Node, e: Seq<Ev>, st: St) requires is_input(input, tv), derived(st, n), toks(e) == toks_of(all_pieces(tv, utf8(input))), flat(all_pieces(tv, utf8(input))) == utf8(input), bare(e) == (seq![Ev::Start(ROOT())] + render_all(nodes(st))).push(Ev::Finish), all_wf(nodes(st)), lvs(all_pieces(tv, utf8(input)), 0) == all_leaves(nodes(st))
  ensures good_tree(input, tv, n, e)
{ text_toks(e); text_flat(all_pieces(tv, utf8(input))); let s = nodes(st); assert(s[0] == n); assert(s.drop_last() =~= seq![]); assert(s.last() == n); assert(render_all(s) =~= render(n)) by { assert(render_all(s) == render_all(s.drop_last()) + render(s.last())); } assert(all_leaves(s) =~= leaves(n)) by { assert(all_leaves(s) == all_leaves(s.drop_last()) + leaves(s.last())); } }
pub open spec fn pos_ok(b: Seq<u8>, x: int, y: int) -> bool { 0 <= x <= y <= b.len() && BOUNDARY(b, x) && BOUNDARY(b, y) }
pub open spec fn at_token(tv: Seq<Token>, k: int, x: int, y: int) -> bool { 0 <= k < tv.len() && x == tv[k].start_byte_pos && y == tv[k].end_byte_pos }
pub open spec fn good_error(input: Seq<char>, e: ParserError) -> bool { match e { ParserError::ParseError { message, start_byte_pos, end_byte_pos } => pos_ok(utf8(input), start_byte_pos as int, end_byte_pos as int) && exists|tv: Seq<Token>, k: int| is_input(input, tv) && #[trigger] at_token(tv, k, start_byte_pos as int, end_byte_pos as int), _ => lex_err(input, e) && lex_error_ok(utf8(input), e) } }
"""
SHIM = r"""
#[verifier::external_body] pub fn tab_ac(i: usize) -> (r: i16) requires i < T().ac.len() ensures r == T().ac[i as int] { unimplemented!() }
#[verifier::external_body] pub fn tab_av(i: usize) -> (r: i16) requires i < T().av.len() ensures r == T().av[i as int] { unimplemented!() }
#[verifier::external_body] pub fn tab_ai(i: usize) -> (r: u32) requires i < T().ai.len() ensures r == T().ai[i as int] { unimplemented!() }
#[verifier::external_body] pub fn tab_ad(i: usize) -> (r: i16) requires i < T().ad.len() ensures r == T().ad[i as int] { unimplemented!() }
#[verifier::external_body] pub fn tab_gc(i: usize) -> (r: i16) requires i < T().gc.len() ensures r == T().gc[i as int] { unimplemented!() }
#[verifier::external_body] pub fn tab_gv(i: usize) -> (r: i16) requires i < T().gv.len() ensures r == T().gv[i as int] { unimplemented!() }
#[verifier::external_body] pub fn tab_gi(i: usize) -> (r: u32) requires i < T().gi.len() ensures r == T().gi[i as int] { unimplemented!() }
// RULES[i]; its name is represented by the rule's index, rule_name_to_component_id(name) by T().rlhs
#[derive(Clone, Copy)] pub struct RuleName { pub i: usize }
pub struct Rule { pub name: RuleName, pub len: usize }
#[verifier::external_body] pub fn rule_at(i: usize) -> (r: &'static Rule) requires i < T().rlen.len() ensures r.len == T().rlen[i as int], r.name.i == i { unimplemented!() }
#[verifier::external_body] pub fn rule_name_to_component_id(n: RuleName) -> (r: u32) requires n.i < T().rlhs.len() ensures r == T().rlhs[n.i as int] { unimplemented!() }
#[verifier::external_body] pub fn token_kind_to_component_id(k: &TokenKind) -> (r: Option<u32>) ensures r == CID(*k), cid_ok(*k) { unimplemented!() }
#[verifier::external_body] pub fn end_rule_kind() -> (r: TokenKind) ensures is_raw_end(r) { unimplemented!() }
#[verifier::external_body] pub fn lex(input: &str) -> (r: Result<Vec<Token>, ParserError>) requires utf8(input@).len() <= usize::MAX @LEX@ { unimplemented!() }
impl Clone for Token { #[verifier::external_body] fn clone(&self) -> (r: Token) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn reverse_vec<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
#[verifier::external_body] pub fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == vmax(a as int, b as int) { a.max(b) }
#[verifier::external_body] pub fn tail_nodes<'a>(s: &'a Vec<(u32, Node)>) -> (r: Vec<&'a Node>) requires s@.len() > 0 ensures derefs(r@) == nodes(s@) { s[1..].iter().map(|s| &s.1).collect() }
#[verifier::external_body] pub struct ResolvedNode { x: u8 }
impl ResolvedNode { pub uninterp spec fn evs(&self) -> Seq<Ev>; }
#[verifier::external_body] pub fn new_root(ast: GreenNode, r: Interner) -> (t: ResolvedNode) ensures t.evs() == ast.evs() { unimplemented!() }
#[verifier::external_body] pub fn no_text() -> (r: String) { String::new() }
"""
def build(u): raise Exception("library")
