"""Shared text of the units about cst.rs: the ghost description of trees and the stand-ins for cstree, Peekable and str slicing."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, tokens, _utf8
CST = "crates/postgresql-cst-parser/src/cst.rs"
def kinds(u):
    """numbers of the kinds, read from the enumeration"""
    it = u.item("crates/postgresql-cst-parser/src/syntax_kind.rs", "enum", "SyntaxKind")
    t = [x for x in vx.R.tokenize(it.text)]; b = next(i for i, x in enumerate(t) if x.text == "{"); e = vx.R.close(t, b)
    names = [x.text for x in t[b + 1:e] if x.kind == "id"]; rest = [x.text for x in t[b + 1:e] if x.kind != "id" and x.text != ","]
    if rest: raise vx.Lost("SyntaxKind has discriminants or attributes: %s" % rest[:3])
    for n in ("Whitespace", "Root"):
        if names.count(n) != 1: raise vx.Lost("SyntaxKind::" + n)
    u.extraction.append("SyntaxKind as the number of its variant (%d unit variants without discriminants)" % len(names))
    u.add("pub struct RawSyntaxKind(pub u32);\n#[derive(Clone, Copy)] pub struct SyntaxKind { pub raw: u32 }\npub open spec fn NKINDS() -> int { %d }\npub open spec fn WHITESPACE() -> u32 { %d }\npub open spec fn ROOT() -> u32 { %d }\n" % (len(names), names.index("Whitespace"), names.index("Root"))
      + "impl SyntaxKind {\n  pub const Whitespace: SyntaxKind = SyntaxKind { raw: %d };\n  pub const Root: SyntaxKind = SyntaxKind { raw: %d };\n" % (names.index("Whitespace"), names.index("Root"))
      + "  #[verifier::external_body] pub fn from_raw(r: RawSyntaxKind) -> (k: SyntaxKind) requires r.0 < NKINDS() ensures k.raw == r.0 { SyntaxKind { raw: r.0 } }\n}")
    return names
SHIM = r"""
// what cstree's builder was told; the tree is a function of it
pub ghost enum Ev { Tok(u32, Seq<u8>), Start(u32), Finish }
#[verifier::external_body] pub struct GreenNode { x: u8 }
#[verifier::external_body] pub struct Interner { x: u8 }
#[verifier::external_body] pub struct NodeCache { x: u8 }
impl NodeCache { #[verifier::external_body] pub fn into_interner(self) -> (r: Option<Interner>) ensures r.is_some() { unimplemented!() } }
impl GreenNode { pub uninterp spec fn evs(&self) -> Seq<Ev>; }
#[verifier::external_body] pub struct GreenNodeBuilder { x: u8 }
impl GreenNodeBuilder {
    pub uninterp spec fn evs(&self) -> Seq<Ev>;
    #[verifier::external_body] pub fn new() -> (r: GreenNodeBuilder) ensures r.evs() == Seq::<Ev>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn token(&mut self, kind: SyntaxKind, text: &str) ensures final(self).evs() == old(self).evs().push(Ev::Tok(kind.raw, utf8(text@))) { unimplemented!() }
    #[verifier::external_body] pub fn start_node(&mut self, kind: SyntaxKind) ensures final(self).evs() == old(self).evs().push(Ev::Start(kind.raw)) { unimplemented!() }
    #[verifier::external_body] pub fn finish_node(&mut self) ensures final(self).evs() == old(self).evs().push(Ev::Finish) { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: (GreenNode, Option<NodeCache>)) ensures r.0.evs() == self.evs(), r.1.is_some() { unimplemented!() }
}
// std::iter::Peekable<std::vec::IntoIter<T>>
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Peek<T> { x: std::iter::Peekable<std::vec::IntoIter<T>> }
impl<T> Peek<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body] pub fn peek(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.rest().len() > 0 && *x == self.rest()[0], None => self.rest().len() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>) ensures match r { Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
}
#[verifier::external_body] pub fn peekable_of<T>(v: Vec<T>) -> (r: Peek<T>) ensures r.rest() == v@ { unimplemented!() }
pub uninterp spec fn REMOVE_EMPTY() -> bool;
#[verifier::external_body] pub fn feature_remove_empty_node() -> (r: bool) ensures r == REMOVE_EMPTY() { unimplemented!() }
"""
# pieces of text in order; the ones outside the grammar are whitespace and comments
SPEC = r"""
pub ghost struct Piece { pub ex: bool, pub kind: u32, pub start: int, pub end: int, pub text: Seq<u8> }
pub open spec fn tok_of(p: Piece) -> Ev { Ev::Tok(p.kind, p.text) }
pub open spec fn sorted(g: Seq<Piece>) -> bool { (forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).start < g[i].end) && (forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[i]).end <= (#[trigger] g[j]).start) }
pub open spec fn exs(g: Seq<Piece>, k: int) -> Seq<Piece> decreases g.len() - k { if k < 0 || k >= g.len() { seq![] } else if g[k].ex { seq![g[k]] + exs(g, k + 1) } else { exs(g, k + 1) } }
pub open spec fn lvs(g: Seq<Piece>, k: int) -> Seq<Piece> decreases g.len() - k { if k < 0 || k >= g.len() { seq![] } else if g[k].ex { lvs(g, k + 1) } else { seq![g[k]] + lvs(g, k + 1) } }
// the text of an event list: its tokens
pub open spec fn toks(e: Seq<Ev>) -> Seq<Ev> decreases e.len() { if e.len() == 0 { seq![] } else { match e.last() { Ev::Tok(_, _) => toks(e.drop_last()).push(e.last()), _ => toks(e.drop_last()) } } }
pub open spec fn toks_of(g: Seq<Piece>) -> Seq<Ev> { Seq::new(g.len(), |i: int| tok_of(g[i])) }
@EXTRA@
// the events without the whitespace and comment tokens: the bare tree
pub open spec fn bare(e: Seq<Ev>) -> Seq<Ev> decreases e.len() { if e.len() == 0 { seq![] } else { match e.last() { Ev::Tok(k, _) => if EXTRA(k) { bare(e.drop_last()) } else { bare(e.drop_last()).push(e.last()) }, _ => bare(e.drop_last()).push(e.last()) } } }
// pieces that are left: none of the extra ones can hide behind a leaf that starts later
pub proof fn exs_here(g: Seq<Piece>, k: int) requires sorted(g), 0 <= k, exs(g, k).len() > 0, lvs(g, k).len() == 0 || exs(g, k)[0].start < lvs(g, k)[0].start
  ensures k < g.len(), g[k].ex, g[k] == exs(g, k)[0], exs(g, k + 1) == exs(g, k).skip(1), lvs(g, k + 1) == lvs(g, k)
{ if !g[k].ex { after(g, k + 1, g[k].start); assert(lvs(g, k)[0] == g[k]); assert(exs(g, k) == exs(g, k + 1)); } else { assert(exs(g, k).skip(1) =~= exs(g, k + 1)); } }
pub proof fn lvs_here(g: Seq<Piece>, k: int) requires sorted(g), 0 <= k, lvs(g, k).len() > 0, exs(g, k).len() == 0 || lvs(g, k)[0].start <= exs(g, k)[0].start
  ensures k < g.len(), !g[k].ex, g[k] == lvs(g, k)[0], lvs(g, k + 1) == lvs(g, k).skip(1), exs(g, k + 1) == exs(g, k)
{ if g[k].ex { after(g, k + 1, g[k].start + 1); assert(exs(g, k)[0] == g[k]); assert(lvs(g, k) == lvs(g, k + 1)); } else { assert(lvs(g, k).skip(1) =~= lvs(g, k + 1)); } }
pub proof fn after(g: Seq<Piece>, k: int, b: int) requires 0 <= k, forall|j: int| k <= j < g.len() ==> (#[trigger] g[j]).start >= b
  ensures forall|i: int| 0 <= i < exs(g, k).len() ==> (#[trigger] exs(g, k)[i]).start >= b, forall|i: int| 0 <= i < lvs(g, k).len() ==> (#[trigger] lvs(g, k)[i]).start >= b decreases g.len() - k
{ if k < g.len() { after(g, k + 1, b); let x = exs(g, k); let y = lvs(g, k); 
    assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).start >= b by { if g[k].ex { if i == 0 { assert(x[0] == g[k]); } else { assert(x[i] == exs(g, k + 1)[i - 1]); } } else { assert(x[i] == exs(g, k + 1)[i]); } }
    assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i]).start >= b by { if !g[k].ex { if i == 0 { assert(y[0] == g[k]); } else { assert(y[i] == lvs(g, k + 1)[i - 1]); } } else { assert(y[i] == lvs(g, k + 1)[i]); } } } }

// ---- trees under construction
pub open spec fn leaf_of(n: Node, t: Token) -> Piece { Piece { ex: false, kind: n.component_id, start: n.start_byte_pos as int, end: n.end_byte_pos as int, text: utf8(t.value@) } }
pub open spec fn leaves(n: Node) -> Seq<Piece> decreases n { match n.token { Some(t) => seq![leaf_of(n, t)], None => all_leaves(n.children@) } }
pub open spec fn all_leaves(s: Seq<Node>) -> Seq<Piece> decreases s { if s.len() == 0 { seq![] } else { all_leaves(s.drop_last()) + leaves(s.last()) } }
// the nodes of a list follow each other in the text
pub open spec fn chain(s: Seq<Node>) -> bool { (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).start_byte_pos <= s[i].end_byte_pos) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).end_byte_pos <= (#[trigger] s[j]).start_byte_pos) }
pub open spec fn wf(n: Node) -> bool decreases n {
    n.component_id < NKINDS() && !EXTRA(n.component_id) && (leaves(n).len() == 0 ==> n.start_byte_pos == n.end_byte_pos) && match n.token {
        Some(t) => n.start_byte_pos < n.end_byte_pos && n.children@.len() == 0,
        None => n.start_byte_pos <= n.end_byte_pos && chain(n.children@) && (forall|i: int| #![trigger n.children@[i]] 0 <= i < n.children@.len() ==> wf(n.children@[i]))
            && (n.children@.len() == 0 ==> n.start_byte_pos == n.end_byte_pos)
            && (n.children@.len() > 0 ==> n.start_byte_pos == n.children@[0].start_byte_pos && n.end_byte_pos == n.children@.last().end_byte_pos) } }
pub open spec fn all_wf(s: Seq<Node>) -> bool { chain(s) && forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) }
pub open spec fn within(p: Piece, a: int, b: int) -> bool { a <= p.start && p.start < p.end && p.end <= b }
pub open spec fn all_within(l: Seq<Piece>, a: int, b: int) -> bool { forall|i: int| 0 <= i < l.len() ==> within(#[trigger] l[i], a, b) }
pub proof fn leaves_within(n: Node) requires wf(n) ensures all_within(leaves(n), n.start_byte_pos as int, n.end_byte_pos as int) decreases n, 0nat
{ if n.token.is_none() && n.children@.len() > 0 { list_within(n.children@); } }
pub proof fn list_within(s: Seq<Node>) requires all_wf(s), s.len() > 0 ensures all_within(all_leaves(s), s[0].start_byte_pos as int, s.last().end_byte_pos as int) decreases s, 1nat
{ leaves_within(s.last()); let h = s.drop_last(); assert(all_wf(h)) by { assert forall|i: int| 0 <= i < h.len() implies wf(#[trigger] h[i]) by { assert(h[i] == s[i]); } }
  if h.len() > 0 { list_within(h); assert(h[0] == s[0]); assert(h.last() == s[h.len() - 1]); assert(s[0].start_byte_pos <= s.last().start_byte_pos) by { assert(s[0].end_byte_pos <= s.last().start_byte_pos); } }
  assert forall|i: int| 0 <= i < all_leaves(s).len() implies within(#[trigger] all_leaves(s)[i], s[0].start_byte_pos as int, s.last().end_byte_pos as int) by {
    if i < all_leaves(h).len() { assert(all_leaves(s)[i] == all_leaves(h)[i]); } else { assert(all_leaves(s)[i] == leaves(s.last())[i - all_leaves(h).len()]); } } }
pub proof fn split_leaves(s: Seq<Node>, i: int) requires 0 <= i <= s.len() ensures all_leaves(s) == all_leaves(s.take(i)) + all_leaves(s.skip(i)) decreases s.len()
{ if i == s.len() { assert(s.take(i) =~= s); assert(all_leaves(s.skip(i)) =~= seq![]); assert(all_leaves(s) + seq![] =~= all_leaves(s)); }
  else { let h = s.drop_last(); split_leaves(h, i); assert(h.take(i) =~= s.take(i)); assert(s.skip(i).drop_last() =~= h.skip(i)); assert(s.skip(i).last() == s.last()); assert(all_leaves(s) =~= all_leaves(s.take(i)) + all_leaves(s.skip(i))); } }
// the leaves of child i come next, then those of the later children
pub proof fn child_next(c: Seq<Node>, i: int, l1: Seq<Piece>, b: int) requires all_wf(c), 0 <= i < c.len(), begins(l1, all_leaves(c), b), c.last().end_byte_pos <= b
  ensures ({ let a = all_leaves(c.take(i)).len() as int; begins(l1.skip(a), leaves(c[i]), c[i].end_byte_pos as int) && l1.skip(a).skip(leaves(c[i]).len() as int) == l1.skip(all_leaves(c.take(i + 1)).len() as int) }),
    wf(c[i]), forall|e: Seq<Ev>| #[trigger] (e + render_all(c.take(i))) + render(c[i]) == e + render_all(c.take(i + 1))
{ let h = c.take(i + 1); assert(h.drop_last() =~= c.take(i)); assert(h.last() == c[i]); let a = all_leaves(c.take(i)).len() as int; let n = leaves(c[i]).len() as int;
  assert(all_leaves(h) == all_leaves(c.take(i)) + leaves(c[i])); split_leaves(c, i + 1); let t = c.skip(i + 1); let r = all_leaves(t); let w = all_leaves(c); assert(w == all_leaves(h) + r);
  assert(w.len() == a + n + r.len()); let m = l1.skip(a);
  assert(m.take(n) =~= leaves(c[i])) by { assert forall|j: int| 0 <= j < n implies m.take(n)[j] == leaves(c[i])[j] by { assert(l1.take(w.len() as int)[a + j] == w[a + j]); } }
  if t.len() > 0 { assert(all_wf(t)) by { assert forall|j: int| 0 <= j < t.len() implies wf(#[trigger] t[j]) by { assert(t[j] == c[i + 1 + j]); } } list_within(t); assert(t[0] == c[i + 1]); }
  assert(c[i].end_byte_pos <= c.last().end_byte_pos);
  assert forall|j: int| n <= j < m.len() implies (#[trigger] m[j]).start >= c[i].end_byte_pos as int by {
    if a + j < w.len() { assert(m[j] == l1.take(w.len() as int)[a + j]); assert(m[j] == r[j - n]); assert(within(r[j - n], t[0].start_byte_pos as int, t.last().end_byte_pos as int)); } else { assert(m[j] == l1[a + j]); } }
  assert(m.skip(n) =~= l1.skip(a + n));
  assert forall|e: Seq<Ev>| #[trigger] (e + render_all(c.take(i))) + render(c[i]) == e + render_all(c.take(i + 1)) by { assert((e + render_all(c.take(i))) + render(c[i]) =~= e + render_all(h)); } }
// the events of a node without whitespace and comments
pub open spec fn dropped(n: Node) -> bool { REMOVE_EMPTY() && n.start_byte_pos == n.end_byte_pos }
pub open spec fn render(n: Node) -> Seq<Ev> decreases n { if dropped(n) { seq![] } else { match n.token { Some(t) => seq![Ev::Tok(n.component_id, utf8(t.value@))], None => seq![Ev::Start(n.component_id)] + render_all(n.children@) + seq![Ev::Finish] } } }
pub open spec fn render_all(s: Seq<Node>) -> Seq<Ev> decreases s { if s.len() == 0 { seq![] } else { render_all(s.drop_last()) + render(s.last()) } }
pub type Extra<'a> = (SyntaxKind, usize, usize, &'a str);
pub open spec fn ex_piece(x: Extra) -> Piece { Piece { ex: true, kind: x.0.raw, start: x.1 as int, end: x.2 as int, text: utf8(x.3@) } }
pub open spec fn ex_pieces(s: Seq<Extra>) -> Seq<Piece> { Seq::new(s.len(), |i: int| ex_piece(s[i])) }
// emission so far: the first tokens of g, the extras and leaves that are left are those of the rest of g
#[verifier::opaque] pub open spec fn at(g: Seq<Piece>, e: Seq<Ev>, rest: Seq<Extra>) -> bool {
    let k = toks(e).len() as int; k <= g.len() && toks(e) == toks_of(g.take(k)) && exs(g, k) == ex_pieces(rest) }
#[verifier::opaque] pub open spec fn left(g: Seq<Piece>, e: Seq<Ev>) -> Seq<Piece> { lvs(g, toks(e).len() as int) }
#[verifier::opaque] pub open spec fn g_ok(g: Seq<Piece>) -> bool { sorted(g) && forall|i: int| 0 <= i < g.len() ==> ((#[trigger] g[i]).ex <==> EXTRA(g[i].kind)) }
// the leaves that are left begin with l, and what follows starts at or after b
pub open spec fn begins(left: Seq<Piece>, l: Seq<Piece>, b: int) -> bool { l.len() <= left.len() && left.take(l.len() as int) == l && forall|j: int| l.len() <= j < left.len() ==> (#[trigger] left[j]).start >= b }
pub proof fn toks_push(g: Seq<Piece>, e: Seq<Ev>, k: int) requires 0 <= k < g.len(), toks(e) == toks_of(g.take(k)), toks(e).len() == k ensures toks(e.push(tok_of(g[k]))) == toks_of(g.take(k + 1)), toks(e.push(tok_of(g[k]))).len() == k + 1
{ assert(e.push(tok_of(g[k])).drop_last() =~= e); assert(toks(e).push(tok_of(g[k])) =~= toks_of(g.take(k + 1))); }
// an extra token is emitted
pub proof fn emit_extra(g: Seq<Piece>, e: Seq<Ev>, rest: Seq<Extra>) requires g_ok(g), at(g, e, rest), rest.len() > 0, left(g, e).len() == 0 || rest[0].1 < left(g, e)[0].start
  ensures at(g, e.push(Ev::Tok(rest[0].0.raw, utf8(rest[0].3@))), rest.skip(1)), left(g, e.push(Ev::Tok(rest[0].0.raw, utf8(rest[0].3@)))) == left(g, e), bare(e.push(Ev::Tok(rest[0].0.raw, utf8(rest[0].3@)))) == bare(e)
{ reveal(at); reveal(left); reveal(g_ok);  let k = toks(e).len() as int; assert(exs(g, k)[0] == ex_piece(rest[0])); exs_here(g, k); toks_push(g, e, k); let e2 = e.push(tok_of(g[k])); assert(e2 == e.push(Ev::Tok(rest[0].0.raw, utf8(rest[0].3@)))); assert(e2.drop_last() =~= e);
  assert(ex_pieces(rest).skip(1) =~= ex_pieces(rest.skip(1))); }
// a leaf is emitted
pub proof fn emit_leaf(g: Seq<Piece>, e: Seq<Ev>, rest: Seq<Extra>) requires g_ok(g), at(g, e, rest), left(g, e).len() > 0, rest.len() == 0 || left(g, e)[0].start <= rest[0].1
  ensures at(g, e.push(tok_of(left(g, e)[0])), rest), left(g, e.push(tok_of(left(g, e)[0]))) == left(g, e).skip(1), bare(e.push(tok_of(left(g, e)[0]))) == bare(e).push(tok_of(left(g, e)[0]))
{ reveal(at); reveal(left); reveal(g_ok);  let k = toks(e).len() as int; if rest.len() > 0 { assert(exs(g, k)[0] == ex_piece(rest[0])); } lvs_here(g, k); toks_push(g, e, k); assert(e.push(tok_of(g[k])).drop_last() =~= e); }
// a node is opened or closed
pub proof fn emit_bracket(g: Seq<Piece>, e: Seq<Ev>, rest: Seq<Extra>, x: Ev) requires at(g, e, rest), !(x is Tok) ensures at(g, e.push(x), rest), left(g, e.push(x)) == left(g, e), bare(e.push(x)) == bare(e).push(x)
{ reveal(at); reveal(left); reveal(g_ok);  assert(e.push(x).drop_last() =~= e); }

pub open spec fn derefs(s: Seq<&Node>) -> Seq<Node> { Seq::new(s.len(), |i: int| *s[i]) }
pub proof fn at_start(g: Seq<Piece>, e: Seq<Ev>, rest: Seq<Extra>) requires e.len() == 0, exs(g, 0) == ex_pieces(rest) ensures at(g, e, rest), left(g, e) == lvs(g, 0)
{ reveal(at); reveal(left); assert(toks_of(g.take(0)) =~= seq![]); }
pub proof fn at_end(g: Seq<Piece>, e: Seq<Ev>, rest: Seq<Extra>) requires at(g, e, rest), rest.len() == 0, left(g, e).len() == 0 ensures toks(e) == toks_of(g)
{ reveal(at); reveal(left); let k = toks(e).len() as int; if k < g.len() { if g[k].ex { assert(exs(g, k).len() > 0); } else { assert(lvs(g, k).len() > 0); } } assert(g.take(g.len() as int) =~= g); }
pub proof fn lvs_are(g: Seq<Piece>, s: Seq<Node>) requires lvs(g, 0) == all_leaves(s) ensures lvs(g, 0).take(all_leaves(s).len() as int) == all_leaves(s) { assert(lvs(g, 0).take(all_leaves(s).len() as int) =~= all_leaves(s)); }
"""
def prelude(u, extra="pub uninterp spec fn EXTRA(kind: u32) -> bool;"):
    u.add(_utf8.USE + _utf8.TEXT); tokens.types(u); kinds(u); u.add(SHIM)
    it = u.item(CST, "struct", "Node"); u.add(it.text.replace("struct Node", "pub struct Node").replace("    token", "    pub token").replace("    component_id", "    pub component_id").replace("    children", "    pub children").replace("    start_byte", "    pub start_byte").replace("    end_byte", "    pub end_byte"))
    u.add(SPEC.replace("@EXTRA@", extra))
def basic(f):
    """rewrites every function of cst.rs under contract gets"""
    f.rw("std::iter::Peekable<std::vec::IntoIter<$t*>>", "Peek<$t>"); f.rw("$x.into_iter().peekable()", "peekable_of($x)")
    f.rw('cfg!(feature = "remove-empty-node")', "feature_remove_empty_node()")
    f.rw("$a*.children.iter().for_each(|$c| $e*)", "for $c in $a.children.iter() { $e; }") if False else None
    f.while_let()
# Parser::parse: every piece once and in order; without whitespace and comments it is the rendering of the nodes
PARSE = """requires $0.builder.evs() == Seq::<Ev>::empty(), g_ok(g@), exs(g@, 0) == ex_pieces($2@), all_wf(derefs($1@)), lvs(g@, 0) == all_leaves(derefs($1@))
    ensures toks(res.0.evs()) == toks_of(g@), bare(res.0.evs()) == (seq![Ev::Start(ROOT())] + render_all(derefs($1@))).push(Ev::Finish)"""
def build(u): raise vx.Lost("library")
