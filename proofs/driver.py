"""cst.rs parse and the table look-ups: the tree covers the text (C02), is a derivation (C12), parsing ends without a crash (C01), errors sit at tokens (C14)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, _cst, _lr, _drv, tokens
P = "crates/postgresql-cst-parser/src/parser.rs"
def small_parser(u):
    """parser.rs without the contents of its tables"""
    if P in u.srcs: return
    try: x = open(u.repo + "/" + P).read()
    except OSError: raise vx.Lost(P)
    x, n = re.subn(r"(static \w+: \[[^\]]*\] = )\[[^\]]*\];", r"\1[];", x)
    u.srcs[P] = (x, vx.R.items(x)); u.extraction.append("parser.rs: the contents of %d static tables are not part of the extracted text" % n)
def literal(u, name):
    """a function that returns a number: put under contract, its value"""
    small_parser(u); f = u.fn(P, name); t = vx.toks(f.src); b = next(i for i, x in enumerate(t) if x.text == "{"); e = vx.R.close(t, b)
    if e != b + 2 or t[b + 1].kind != "num": raise vx.Lost(name + " is not a number")
    v = int(re.match(r"[0-9_]+", t[b + 1].text).group(0).replace("_", "")); return f, v
SPECNAME = {"num_terminal_symbol": "NT", "num_non_terminal_symbol": "NN", "end_rule_id": "END"}
def build(u):
    u.elsewhere = {"tables_checked": "the unit lrcheck (verified checker run on the tables)", "token_kind_to_component_id": "the unit ids", "raw_end_cid": "the unit ids", "end_rule_kind": "the unit ids", "lex": "the unit scan", "init_tokens": "the unit tokens", "parse": "the unit tree",
        "rule_at": "the unit lrcheck (RULES as read from parser.rs)", "rule_name_to_component_id": "the unit lrcheck (its arms as read from parser.rs)"}
    for t in ("ac", "av", "ai", "ad", "gc", "gv", "gi"): u.elsewhere["tab_" + t] = "definition (T() is the content of the static table read from parser.rs)"
    fs = [(n,) + literal(u, n) for n in SPECNAME]
    u.add(_lr.LR); u.add(vx.STR_EQ)
    u.add("\n".join("pub open spec fn %s() -> int { %d }" % (SPECNAME[n], v) for n, f, v in fs))
    _cst.prelude(u, "pub open spec fn EXTRA(kind: u32) -> bool { kind >= NT() + NN() }")
    u.add(tokens.SPEC.replace("pub proof fn heads_differ", "pub proof fn heads_differ"))
    for kind, name in (("struct", "ScanReport"), ("enum", "ParserError")):
        it = u.item("crates/postgresql-cst-parser/src/lexer/parser_error.rs", kind, name); t = it.text
        for a in it.attrs: t = t.replace(a, "", 1)
        u.add(t)
    it = u.item(P, "enum", "Action"); t = it.text
    for a in it.attrs: t = t.replace(a, "", 1)
    u.add(t.replace("pub(crate) ", "pub ")); u.add(_drv.TOKS); u.add(_drv.SPEC); u.add(_drv.SHIM.replace("@LEX@", _drv.LEX.replace("$0", "input")))
    for c in ("ERROR_ACTION_CODE", "DEFAULT_ACTION_CODE", "INVALID_GOTO_CODE"): u.add(u.item(_cst.CST, "const", c).text)
    for n, f, v in fs: f.contract("ensures r == %s()" % SPECNAME[n]); f.start(); f.src = f.src.replace("pub(crate) ", ""); u.put(f)
    # the contracts proved in the units `tree` and `tokens`
    u.add("pub struct Parser { pub builder: GreenNodeBuilder }\nimpl Parser { #[verifier::external_body] pub fn parse(self, nodes: &Vec<&Node>, extras: Vec<(SyntaxKind, usize, usize, &str)>, g: Ghost<Seq<Piece>>) -> (res: (GreenNode, Interner)) " + _cst.PARSE.replace("$0", "self").replace("$1", "nodes").replace("$2", "extras") + " { unimplemented!() } }")
    u.add("#[verifier::external_body] pub fn init_tokens(lexed: &mut Vec<Token>) " + tokens.CONTRACT.replace("$0", "lexed") + " { unimplemented!() }")
    for name, spec, tabs in (("lookup_parser_action", "requires $0 < T().ai.len(), $1 < T().nt, shape(T(), A()) ensures r == act(T(), $0 as int, $1 as int)", ("ACTION_TABLE_INDEX", "ACTION_CHECK_TABLE", "ACTION_TABLE", "ACTION_DEF_RULE_TABLE")),
                             ("lookup_goto_state", "requires $0 < T().ai.len(), $1 < T().nn, shape(T(), A()) ensures r == go(T(), $0 as int, $1 as int)", ("GOTO_TABLE_INDEX", "GOTO_CHECK_TABLE", "GOTO_TABLE"))):
        f = u.fn(_cst.CST, name); tables(f); f.contract(spec); f.start(" proof { assert(T().ai[$0 as int] + T().nt <= T().ac.len()); assert(T().gi[$0 as int] + T().nn <= T().gc.len()); } "); u.put(f)
    f = u.fn(_cst.CST, "parse", pick=lambda it: "ResolvedNode" in it.text[:200])
    _cst.basic(f); tables(f)
    f.rw("std::iter::Peekable<std::vec::IntoIter<$t*>>", "Peek<$t>")
    f.rw("&input[$a*..$b*]", "slice(input, $a, $b)"); f.rw("input.len()", "str_len(input)"); f.rw("format!($a*)", "some_text()", note="texts of messages are not specified")
    f.rw("$x.to_string()", "some_text()", note="texts of messages are not specified")
    f.rw("$v.reverse();", "reverse_vec(&mut $v);"); f.rw("RULES[$i*]", "(*rule_at($i))"); f.rw("&(*rule_at($i*))", "rule_at($i)")
    f.rw("$v.first().map(|$t| $e*).unwrap_or_else(|| { $b* })", "(if $v.len() > 0 { let $t = &$v[0]; $e } else { $b })")
    f.rw("$v.last().map(|$t| $e*).unwrap_or($b*)", "(if $v.len() > 0 { let $t = &$v[$v.len() - 1]; $e } else { $b })")
    f.rw("$v.last().map(|$t| $e*).unwrap_or_default().max($b*)", "max_usize((if $v.len() > 0 { let $t = &$v[$v.len() - 1]; $e } else { 0 }), $b)")
    f.rw("$v.last().unwrap()", "$v[$v.len() - 1]"); f.rw("tokens.peek().is_none()", "opt_none(tokens.peek())")
    f.rw("stack[1..].iter().map(|$s| &$s.1).collect()", "tail_nodes(&stack)", need=1); f.rw("SyntaxNode::new_root_with_resolver(", "new_root(", need=1)
    f.rw("parser.parse($a*, $b*)", "parser.parse($a, $b, Ghost(all_pieces(tv, b)))", need=1, note="ghost argument: the pieces of the text")
    f.rw("lex(input)?", "(match lex(input) { Ok(v) => { proof { lexed0 = v@; } v }, Err(e) => return Err(e) })", note="`lex(input)?` as a match (the error types agree)")
    f.desugar()
    f.contract("""requires utf8($0@).len() <= usize::MAX
    ensures r.is_ok() ==> exists|tv: Seq<Token>, n: Node| #[trigger] good_tree($0@, tv, n, r->Ok_0.evs()), /*@C02 C12 C15*/
      r.is_err() ==> good_error($0@, r->Err_0) /*@C14*/""")
    f.start(" let ghost mut lexed0: Seq<Token> = seq![]; let ghost b = utf8($0@); proof { boundaries($0@); } ")
    f.before("let mut last_pos = 0;", " let ghost tv = tokens.rest(); let ghost mut k: int = 0; proof { lex_to_full(input@, lexed0, tv); inv_init(tv, b, stack@, Seq::empty()); tables_checked(); assert(tv.skip(0) =~= tv); } ", optional=False)
    f.loop(0, """invariant_except_break b == utf8(input@), is_input(input@, tv), inv(tv, b, stack@, extras@, k, last_pos as int), tokens.rest() == tv.skip(k), lr_ok(T(), A()), T().nt == NT(), T().nn == NN()
      ensures inv(tv, b, stack@, extras@, tv.len() - 1, last_pos as int), tokens.rest() == tv.skip(tv.len() - 1), exists|n: Node| #[trigger] derived(stack@, n)
      decreases tokens.rest().len(), cnt(nodes(stack@)), lsum(nodes(stack@)), room(stack@)""",
      " let ghost st0 = stack@; let ghost ex0 = extras@; let ghost l0 = last_pos as int; proof { inv_use(tv, b, stack@, extras@, k, last_pos as int); assert(tv.skip(k)[0] == tv[k]); assert(tv.skip(k).skip(1) =~= tv.skip(k + 1)); assert(at_token(tv, k, tv[k].start_byte_pos as int, tv[k].end_byte_pos as int)); } ")
    f.before("tokens.next(); continue;", " proof { inv_comment(tv, b, st0, ex0, extras@.drop_last(), extras@.last(), k, l0); assert(extras@.drop_last().push(extras@.last()) =~= extras@); k = k + 1; } ")
    f.before("tokens.next(); }", " proof { inv_shift(tv, b, st0, ex0, extras@, stack@.last(), k, l0); assert(stack@ =~= st0.push(stack@.last())); k = k + 1; } ")
    f.before("let reduced_component_id =", " proof { assert(children@ =~= tops(st0, T().rlen[rule_index as int] as int)); assert(stack@ == st0.take(st0.len() - T().rlen[rule_index as int])); assert(stack@.last() == st0[st0.len() - 1 - T().rlen[rule_index as int]]); } ")
    f.before("match goto {", " let ghost st1 = stack@; ")
    f.before("Action::Accept => {", " proof { inv_accept(tv, b, st0, ex0, k, l0, cid as int); } ", after=True)
    f.before("let action = match", " proof { if act(T(), st0.last().0 as int, cid as int) < 0 { let r = inv_reduce_ok(tv, b, st0, ex0, k, l0, cid as int); } } ", optional=False)
    f.before("stack.push((next_state as u32, node));", " proof { inv_reduce(tv, b, st0, ex0, k, l0, cid as int, (next_state as u32, node)); } ", nth=1)
    f.rw("Ok(new_root($a*, $b*))", "{ let tt = new_root($a, $b); proof { assert(exists|tv: Seq<Token>, n: Node| #[trigger] good_tree(input@, tv, n, tt.evs())); } let res: Result<ResolvedNode, ParserError> = Ok(tt); proof { assert(res->Ok_0 == tt); assert(res.is_ok()); assert(!res.is_err()); assert(exists|tv: Seq<Token>, n: Node| #[trigger] good_tree(input@, tv, n, res->Ok_0.evs())); } res }", note="the result is named (no change of meaning)")
    f.before("{ let tt = new_root", " proof { let n = choose|n: Node| #[trigger] derived(stack@, n); good_end(input@, tv, n, ast.evs(), stack@); } ", optional=False)
    f.loop(1, """invariant stack@ == st0.take(st0.len() - __i0), __e0 < st0.len(), 0 <= __i0 <= __e0, children@ == tops(st0, __i0 as int).reverse() decreases __e0 - __i0""", "", "")
    f.before("loop { match tokens.next()", " let ghost ex2 = extras@; let ghost l2 = last_pos as int; ", optional=False)
    f.loop(2, """invariant_except_break b == utf8(input@), is_input(input@, tv), inv(tv, b, stack@, ex2, tv.len() - 1, l2), tokens.rest() == tv.skip(tv.len() - 1), extras@ == ex2, last_pos == l2
      ensures gapped(ex2, extras@, b, l2, b.len() as int), b == utf8(input@)
      decreases tokens.rest().len()""", " proof { inv_use(tv, b, stack@, ex2, tv.len() - 1, l2); assert(tokens.rest()[0] == tv[tv.len() - 1]); } ")
    f.before("let parser = Parser {", " proof { inv_final(tv, b, stack@, ex2, extras@, l2, nodes(stack@)); } ", optional=False)
    u.add("#[verifier::external_body] pub fn opt_none<T>(x: Option<T>) -> (r: bool) ensures r == x.is_none() { x.is_none() }")
    u.put(f)
    return u
def tables(f):
    for n, s in (("ACTION_CHECK_TABLE", "ac"), ("ACTION_TABLE_INDEX", "ai"), ("ACTION_TABLE", "av"), ("ACTION_DEF_RULE_TABLE", "ad"), ("GOTO_CHECK_TABLE", "gc"), ("GOTO_TABLE_INDEX", "gi"), ("GOTO_TABLE", "gv")):
        f.rw(n + "[$i*]", "tab_%s($i)" % s, note="static %s[i] as tab_%s(i), which requires i to be in range" % (n, s))
