"""cst.rs, building the tree: every piece of the text is emitted once, in order (C02); the bare tree is that of the nodes (C12, C15)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, _cst
def build(u):
    _cst.prelude(u)
    u.add("pub struct Parser { pub builder: GreenNodeBuilder }")
    f = u.fn(_cst.CST, "parse_rec", within="Parser")
    _cst.basic(f)
    f.rw("node.children.iter().for_each(|$c| self.parse_rec($c, $p));", "for $c in node.children.iter() { self.parse_rec($c, $p); }")
    f.desugar()
    f.rw("self.parse_rec($a*, $b*)", "self.parse_rec($a, $b, Ghost(g@))", need=1, note="ghost argument: the pieces of the text")
    f.ghost_param("g: Ghost<Seq<Piece>>")
    f.contract("""requires g_ok(g@), at(g@, old($0).builder.evs(), old($2).rest()), wf(*$1), begins(left(g@, old($0).builder.evs()), leaves(*$1), $1.end_byte_pos as int)
    ensures at(g@, final($0).builder.evs(), final($2).rest()), left(g@, final($0).builder.evs()) == left(g@, old($0).builder.evs()).skip(leaves(*$1).len() as int),
        bare(final($0).builder.evs()) == bare(old($0).builder.evs()) + render(*$1)
    decreases *$1""")
    f.loop(0, """invariant_except_break g_ok(g@), wf(*$1), !dropped(*$1), at(g@, self.builder.evs(), $2.rest()), left(g@, self.builder.evs()) == l0, begins(l0, leaves(*$1), $1.end_byte_pos as int), bare(self.builder.evs()) == b0
      ensures at(g@, self.builder.evs(), $2.rest()), left(g@, self.builder.evs()) == l0, bare(self.builder.evs()) == b0, $2.rest().len() > 0 ==> $2.rest()[0].1 >= $1.start_byte_pos
      decreases $2.rest().len()""", " let ghost e0 = self.builder.evs(); let ghost x0 = $2.rest(); proof { leaves_within(*$1); if l0.len() > 0 && leaves(*$1).len() > 0 { assert(l0[0] == l0.take(leaves(*$1).len() as int)[0]); } } ")
    f.before("self.builder.token(*$k, $t);", " proof { emit_extra(g@, e0, x0); } ", optional=False, nth=0)
    f.before("while __i0 < __e0", " let ghost e1 = self.builder.evs(); let ghost l1 = left(g@, e1); let ghost c = $1.children@; proof { } ".replace("$1", f.params[1]))
    f.before("self.builder.finish_node();", " proof { emit_bracket(g@, self.builder.evs(), %s.rest(), Ev::Finish); assert(%s.children@.take(%s.children@.len() as int) =~= %s.children@); } " % (f.params[2], f.params[1], f.params[1], f.params[1]))
    f.before("self.builder.start_node($k);", " proof { emit_bracket(g@, self.builder.evs(), %s.rest(), Ev::Start(%s.component_id)); } " % (f.params[2], f.params[1]))
    f.before("if let Some(token) = &node.token {", " proof { if %s.token.is_some() { assert(l0[0] == l0.take(1)[0]); emit_leaf(g@, self.builder.evs(), %s.rest()); } } " % (f.params[1], f.params[2]), after=True)
    f.loop(1, """invariant g_ok(g@), wf(*$1), $1.token.is_none(), c == $1.children@, __e0 == c.len(), __i0 <= __e0, at(g@, self.builder.evs(), $2.rest()), begins(l1, all_leaves(c), $1.end_byte_pos as int),
        left(g@, self.builder.evs()) == l1.skip(all_leaves(c.take(__i0 as int)).len() as int), bare(self.builder.evs()) == bare(e1) + render_all(c.take(__i0 as int))
      decreases __e0 - __i0""", " proof { child_next(c, __i0 as int, l1, $1.end_byte_pos as int); } ")
    f.start(" let ghost l0 = left(g@, self.builder.evs()); let ghost b0 = bare(self.builder.evs()); proof { leaves_within(*$1); if dropped(*$1) { assert(leaves(*$1).len() == 0) by { if leaves(*$1).len() > 0 { assert(within(leaves(*$1)[0], $1.start_byte_pos as int, $1.end_byte_pos as int)); } } assert(b0 + render(*$1) =~= b0); assert(l0.skip(0) =~= l0); } } ")
    u.put(f, wrap="impl Parser")
    f = u.fn(_cst.CST, "parse", within="Parser")
    _cst.basic(f); f.rw("impl Resolver", "Interner", note="the returned resolver is cstree's interner"); f.desugar(); f.mut_self()
    f.rw("this.parse_rec($a*, $b*)", "this.parse_rec($a, $b, Ghost(g@))", need=1, note="ghost argument: the pieces of the text")
    f.ghost_param("g: Ghost<Seq<Piece>>")
    f.contract(_cst.PARSE, ret="res")
    f.loop(0, """invariant g_ok(g@), ns == derefs($1@), all_wf(ns), __e0 == ns.len(), __i0 <= __e0, at(g@, this.builder.evs(), peekable.rest()), begins(l1, all_leaves(ns), b1), ns.len() > 0 ==> ns.last().end_byte_pos <= b1,
        left(g@, this.builder.evs()) == l1.skip(all_leaves(ns.take(__i0 as int)).len() as int), bare(this.builder.evs()) == seq![Ev::Start(ROOT())] + render_all(ns.take(__i0 as int))
      decreases __e0 - __i0""", " proof { child_next(ns, __i0 as int, l1, b1); assert(ns[__i0 as int] == *$1[__i0 as int]); } ")
    f.before("while __i0 < __e0", " let ghost l1 = left(g@, this.builder.evs()); let ghost b1: int = if ns.len() > 0 { ns.last().end_byte_pos as int } else { 0 }; proof { lvs_are(g@, ns); assert(ns.take(0) =~= seq![]); assert(l1.skip(0) =~= l1); assert(l1.take(l1.len() as int) =~= l1); assert(bare(this.builder.evs()) =~= seq![Ev::Start(ROOT())]); } ")
    f.loop(1, """invariant_except_break g_ok(g@), at(g@, this.builder.evs(), peekable.rest()), left(g@, this.builder.evs()).len() == 0, bare(this.builder.evs()) == b2
      ensures at(g@, this.builder.evs(), peekable.rest()), left(g@, this.builder.evs()).len() == 0, bare(this.builder.evs()) == b2, peekable.rest().len() == 0
      decreases peekable.rest().len()""", " let ghost e0 = this.builder.evs(); let ghost x0 = peekable.rest(); ")
    f.before("loop", " let ghost b2 = bare(this.builder.evs()); proof { assert(ns.take(ns.len() as int) =~= ns); } ")
    f.before("this.builder.token(*$k, $t);", " proof { emit_extra(g@, e0, x0); } ", optional=False, nth=0)
    f.before("this.builder.start_node(SyntaxKind::Root);", " proof { at_start(g@, this.builder.evs(), peekable.rest()); emit_bracket(g@, this.builder.evs(), peekable.rest(), Ev::Start(ROOT())); } ")
    f.before("this.builder.finish_node();", " proof { emit_bracket(g@, this.builder.evs(), peekable.rest(), Ev::Finish); at_end(g@, this.builder.evs().push(Ev::Finish), peekable.rest()); } ")
    f.start(" let ghost ns = derefs($1@); let ghost x1 = $2@; ")
    u.put(f, wrap="impl Parser")
    return u
