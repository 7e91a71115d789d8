"""The tables the lexer generator writes (lexer_generator.rs construct_dfa): one automaton per start state, over that state's rules, each number in its place."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
FF = "crates/lexer-generator/src/flex_file.rs"; LG = "crates/lexer-generator/src/lexer_generator.rs"; LIB = "crates/automata/src/lib.rs"; DFA = "crates/automata/src/dfa.rs"
SHIM = r"""
global size_of usize == 8;
#[verifier::external_body] pub struct Str { x: u8 }
impl Str { pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body] pub fn clone(&self) -> (r: Str) ensures r@ == self@ { unimplemented!() } }
pub open spec fn strsv(s: Seq<Str>) -> Seq<Seq<char>> { s.map_values(|x: Str| x@) }
pub open spec fn distinct(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
// the numbers of a list of different names (HashMap<String, usize>)
#[verifier::external_body] pub struct Numbers { x: u8 }
impl Numbers { pub uninterp spec fn view(&self) -> Map<Seq<char>, usize>;
  #[verifier::external_body] pub fn get(&self, k: &Str) -> (r: Option<&usize>) ensures (match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) }) { unimplemented!() } }
#[verifier::external_body] pub fn numbers_of(v: &Vec<Str>) -> (r: Numbers) ensures distinct(strsv(v@)) ==> forall|k: int| 0 <= k < v@.len() ==> r@.contains_key((#[trigger] v@[k])@) && r@[v@[k]@] == k { unimplemented!() }
// text: numbers in decimal, lists with a separator, the lines of the output
pub uninterp spec fn num(v: int) -> Seq<char>;
pub uninterp spec fn bracket(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>;
pub uninterp spec fn table(i: int, n: int, rows: Seq<char>, accepts: Seq<char>) -> Seq<char>;
pub uninterp spec fn arm(i: int) -> Seq<char>;
#[verifier::external_body] pub fn num_of(v: u8) -> (r: Str) ensures r@ == num(v as int) { unimplemented!() }
#[verifier::external_body] pub fn bracketed(s: &Str) -> (r: Str) ensures r@ == bracket(s@) { unimplemented!() }
#[verifier::external_body] pub fn join_of(v: &Vec<Str>, sep: &str) -> (r: Str) ensures r@ == joined(strsv(v@), sep@) { unimplemented!() }
#[verifier::external_body] pub fn table_text(i: usize, n: usize, rows: &Str, accepts: &Str) -> (r: Str) ensures r@ == table(i as int, n as int, rows@, accepts@) { unimplemented!() }
#[verifier::external_body] pub fn arm_text(i: usize) -> (r: Str) ensures r@ == arm(i as int) { unimplemented!() }
"""
THEORY = r"""
pub struct PatV { pub on: Seq<int>, pub pattern: Seq<char> }
pub struct NameV { pub name: Seq<char>, pub definition: Seq<char> }
pub open spec fn patv(p: FlexPatternDef) -> PatV { PatV { on: Seq::new(p.state_set@.len(), |j: int| p.state_set@[j] as int), pattern: p.pattern@ } }
pub open spec fn namev(p: NameDefinition) -> NameV { NameV { name: p.name@, definition: p.definition@ } }
pub open spec fn patsv(p: Seq<FlexPatternDef>) -> Seq<PatV> { p.map_values(|x: FlexPatternDef| patv(x)) }
pub open spec fn namesv(p: Seq<NameDefinition>) -> Seq<NameV> { p.map_values(|x: NameDefinition| namev(x)) }
pub open spec fn somewhere(p: Seq<PatV>, s: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i].on.contains(s) }
// the rules are of states below m, and every state below m has one
pub open spec fn covers(p: Seq<PatV>, m: int) -> bool { (forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i].on.len() ==> 0 <= #[trigger] p[i].on[j] < m) && forall|s: int| 0 <= s < m ==> #[trigger] somewhere(p, s) }
// the automata of a list of patterns (what they accept is the contract of to_flex_pattern_dfa in unit nfa)
pub uninterp spec fn automata(p: Seq<PatV>, n: Seq<NameV>) -> Seq<DFA>;
#[verifier::external_body] pub fn to_flex_pattern_dfa(p: &Vec<FlexPatternDef>, n: &Vec<NameDefinition>) -> (r: Vec<DFA>) ensures r@ == automata(patsv(p@), namesv(n@)), forall|m: int| #[trigger] covers(patsv(p@), m) && m >= 0 ==> r@.len() == m { unimplemented!() }
// what the file asks for
pub open spec fn pat_of(all: Seq<Seq<char>>, r: Rule) -> PatV { PatV { on: Seq::new(r.states@.len(), |j: int| all.index_of(r.states@[j]@)), pattern: r.pattern@ } }
pub open spec fn pats_of(f: FlexFile) -> Seq<PatV> { Seq::new(f.rules@.len(), |i: int| pat_of(strsv(f.all_states@), f.rules@[i])) }
pub open spec fn name_of(d: Definition) -> NameV { NameV { name: d.name@, definition: d.def@ } }
pub open spec fn names_of(f: FlexFile) -> Seq<NameV> { Seq::new(f.definitions@.len(), |i: int| name_of(f.definitions@[i])) }
pub open spec fn known(f: FlexFile) -> bool { forall|i: int, j: int| 0 <= i < f.rules@.len() && 0 <= j < f.rules@[i].states@.len() ==> strsv(f.all_states@).contains((#[trigger] f.rules@[i].states@[j])@) }
pub open spec fn fine(f: FlexFile) -> bool { distinct(strsv(f.all_states@)) && known(f) && covers(pats_of(f), f.all_states@.len() as int) && f.all_states@.len() < usize::MAX && forall|i: int| 0 <= i < automata(pats_of(f), names_of(f)).len() ==> small(#[trigger] automata(pats_of(f), names_of(f))[i]) }
// every number of the automaton fits a byte, with 255 left over
pub open spec fn small(d: DFA) -> bool { forall|i: int| 0 <= i < d.states@.len() ==> #[trigger] small_row(d.states@[i]) }
pub open spec fn small_row(s: DFAState) -> bool { (forall|j: int| 0 <= j < 256 ==> (#[trigger] s.transitions@[j]) < 255 || s.transitions@[j] == usize::MAX) && (match s.accept_lexer_rule_id { Some(v) => v < 255, None => true }) }
pub open spec fn cell(v: usize) -> int { if v == usize::MAX { 255 } else { v as int } }
pub open spec fn verdict(v: Option<u32>) -> int { match v { Some(v) => v as int, None => 255 } }
pub open spec fn row_text(s: DFAState) -> Seq<char> { bracket(joined(Seq::new(256, |j: int| num(cell(s.transitions@[j]))), ","@)) }
pub open spec fn rows(d: DFA) -> Seq<Seq<char>> { Seq::new(d.states@.len(), |i: int| row_text(d.states@[i])) }
pub open spec fn accepts(d: DFA) -> Seq<Seq<char>> { Seq::new(d.states@.len(), |i: int| num(verdict(d.states@[i].accept_lexer_rule_id))) }
pub open spec fn tables(a: Seq<DFA>) -> Seq<Seq<char>> { Seq::new(a.len(), |i: int| table(i, a[i].states@.len() as int, joined(rows(a[i]), ","@), joined(accepts(a[i]), ","@))) }
pub open spec fn arms(n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |i: int| arm(i)) }
proof fn spot(all: Seq<Seq<char>>, s: Seq<char>) requires all.contains(s) ensures 0 <= all.index_of(s) < all.len(), all[all.index_of(s)] == s {}
proof fn narrow(v: usize) requires v < 255 || v == usize::MAX ensures (v as u8) as int == cell(v) { assert(v < 255 ==> (v as u8) == v) by (bit_vector); assert(v == 0xffff_ffff_ffff_ffffusize ==> (v as u8) == 255) by (bit_vector); }
proof fn narrow2(v: u32) requires v < 255 ensures (v as u8) as int == v { assert(v < 255 ==> (v as u8) == v) by (bit_vector); }
proof fn grown(a: Seq<Str>, s: Str) ensures strsv(a.push(s)) =~= strsv(a).push(s@) {}
"""
def strs(t): return re.sub(r"\bString\b", "Str", t)
def norm(t): return re.sub(r"\s+", " ", re.sub(r"//[^\n]*", "", re.sub(r"#\[[^\]]*\]", "", t)))
TABLE = "pub const TRANSITION_TABLE_{i}: [[u8; 256]; {state_len}] = [{transition_table}]; pub const ACCEPT_TABLE_{i}: [u8; {state_len}] = [{accept_table}];"
ARM = "{i} => (TRANSITION_TABLE_{i}.as_slice(), ACCEPT_TABLE_{i}.as_slice()),"
def squeeze(x): return re.sub(r"\s+", "", re.sub(r"//[^\n]*", "", x))
def formats(f):
    """format! of the output's two pieces through table_text and arm_text: the literals are compared up to white space and comments"""
    n = 0
    while True:
        t = vx.toks(f.src); hit = None
        for i in range(len(t) - 3):
            if t[i].text == "format" and t[i + 1].text == "!" and t[i + 2].text == "(" and ("TABLE_" in t[i + 3].text): hit = i; break
        if hit is None: return n
        i = hit; e = vx.R.close(t, i + 2); lit = t[i + 3].text; lit = lit[lit.index('"') + 1:lit.rindex('"')]; args = {}; k = i + 4
        while k < e:
            if t[k].text == "," : k += 1; continue
            if t[k + 1].text != "=": raise vx.Lost("construct_dfa: arguments of format!")
            j = k + 2
            while j < e and t[j].text != ",": j = vx.R.close(t, j) + 1 if t[j].text in vx.R.OPEN else j + 1
            args[t[k].text] = f.src[t[k + 2].start:t[j - 1].end]; k = j
        if squeeze(lit) == squeeze(TABLE) and {"state_len", "transition_table", "accept_table"} <= set(args):
            rep = "{ " + "".join("let _ = &%s; " % args[a] for a in args if a not in ("state_len", "transition_table", "accept_table")) + "table_text(i, %s, &%s, &%s) }" % (args["state_len"], args["transition_table"], args["accept_table"])
        elif squeeze(lit) == squeeze(ARM) and not args: rep = "arm_text(i)"
        else: raise vx.Lost("construct_dfa: the text written")
        f.src = f.src[:t[i].start] + rep + f.src[t[e].end:]; n += 1
def build(u):
    u.add(SHIM)
    for p, n in ((FF, "Definition"), (FF, "Rule"), (FF, "FlexFile"), (LIB, "NameDefinition"), (LIB, "FlexPatternDef"), (DFA, "DFAState"), (DFA, "DFA")): u.add(strs(norm(u.item(p, "struct", n).text)))
    u.add("//@fn theory\n" + THEORY + "\n//@end")
    f = u.fn(LG, "construct_dfa"); f.src = strs(f.src)
    f.rw("$e*.iter().enumerate().map(|($i, $s)| ($s.clone(), $i)).collect::<HashMap<_, _>>()", "numbers_of(&$e)", note="the numbers of the states through a helper") if 0 else None
    f.rw("let $v = $e*.iter().enumerate().map(|($i, $s)| ($s.clone(), $i)).collect::<HashMap<_, _>>();", "let $v = numbers_of(&$e);", need=1, note="the numbers of the states through a helper")
    f.rw("let $v = $e*.iter().map(|$x| $B*).collect::<Vec<_>>();", "let mut $v = Vec::new(); for $x in $e.iter() { let __y = $B; $v.push(__y); }", note="a mapped list as a loop")
    f.rw("let $v = $e*.iter().map(|&$x| $B*).collect::<Vec<_>>();", "let mut $v = Vec::new(); for &$x in $e.iter() { let __y = $B; $v.push(__y); }", note="a mapped list as a loop")
    f.rw("state_set: $e*.iter().map(|$x| $B*).collect::<Vec<_>>(),", "state_set: { let mut __v: Vec<usize> = Vec::new(); for $x in $e.iter() { __v.push($B); } __v },", need=1, note="a mapped list as a loop")
    m = re.search(r"let (\w+) = numbers_of", f.src)
    if m: f.src = re.sub(r"\b%s\[(\w+)\]" % m.group(1), r"*%s.get(\1).unwrap()" % m.group(1), f.src)
    f.rw("in $v.into_iter().enumerate() {", "in $v.iter().enumerate() {"); formats(f)
    f.rw("$e*.map(|$v| $w as u8).unwrap_or(!0)", "(match $e { Some($v) => $w as u8, None => !0 })") if 0 else None
    f.rw('format!("{}", $e*.map(|$v| $w as u8).unwrap_or(!0))', "num_of(match $e { Some($v) => $w as u8, None => 255 })", note="the accepting rule's number, or !0, in decimal")
    f.rw("let $a = $e*.map(|$v| $w as u8).unwrap_or(!0);", "let $a: u8 = match $e { Some($v) => $w as u8, None => 255 };"); f.rw("($x* as u8).to_string()", "num_of($x as u8)")
    f.rw('format!("[{}]", $e*)', "bracketed(&$e)", note="format! through a helper"); f.rw("$v.to_string()", "num_of($v)"); f.rw("$v.join($s)", "join_of(&$v, $s)")
    f.src = re.sub(r"let mut (\w+) = Vec::new\(\);( for \w+ in [^{]*\{ let __y = ([A-Z]\w+))?", lambda m: "let mut %s: Vec<%s> = Vec::new();%s" % (m.group(1), m.group(3) or "Str", m.group(2) or ""), f.src); f.desugar()
    f.contract("requires fine(*$0) ensures ({ let a = automata(pats_of(*$0), names_of(*$0)); a.len() == $0.all_states@.len() && r.0@ == joined(tables(a), \"\\n\"@) && r.1@ == joined(arms(a.len() as int), \"\\n\"@) })")
    f.start("let ghost F = *$0; let ghost ALL = strsv(F.all_states@); let ghost P = pats_of(F); let ghost N = names_of(F); let ghost A = automata(P, N); ")
    f.before("let dfa = to_flex_pattern_dfa(", "proof { assert(patsv(rules@) =~= P); assert(namesv(name_defs@) =~= N); } ", optional=False)
    f.before("rules.push($x);", "proof { assert(patv(__y).on =~= P[rules@.len() as int].on); assert(patv(__y) == P[rules@.len() as int]); } ", optional=False)
    f.before("state_accept.push($x*);", "proof { assert(strsv(row_transition@) =~= Seq::new(256, |j: int| num(cell(A[n].states@[si].transitions@[j])))); } ", optional=False)
    f.before("table_defs.push($x*);", "proof { assert(strsv(state_transition@) =~= rows(A[n])); assert(strsv(state_accept@) =~= accepts(A[n])); } ", optional=False)
    f.before("(join_of(&table_defs, $x), join_of($y*))", "proof { assert(strsv(table_defs@) =~= tables(A)); assert(strsv(state_id_to_dfa_table_defs@) =~= arms(A.len() as int)); } ", optional=False)
    f.loop(0, "invariant __e0 == F.rules@.len(), __i0 <= __e0, rules@.len() == __i0, forall|k: int| 0 <= k < rules@.len() ==> patv(#[trigger] rules@[k]) == P[k] decreases __e0 - __i0")
    f.loop(1, "invariant __e1 == rule.states@.len(), __i1 <= __e1, *rule == F.rules@[rules@.len() as int], rules@.len() < F.rules@.len(), __v@.len() == __i1, forall|k: int| 0 <= k < __v@.len() ==> #[trigger] __v@[k] == ALL.index_of(rule.states@[k]@) decreases __e1 - __i1",
      "proof { let x = F.rules@[rules@.len() as int].states@[__i1 as int]; assert(ALL.contains(x@)); spot(ALL, x@); let q = ALL.index_of(x@); assert(F.all_states@[q]@ == x@); } ")
    f.loop(2, "invariant __e2 == F.definitions@.len(), __i2 <= __e2, name_defs@.len() == __i2, forall|k: int| 0 <= k < name_defs@.len() ==> namev(#[trigger] name_defs@[k]) == N[k] decreases __e2 - __i2")
    f.loop(3, "invariant dfa@ == A, A.len() == F.all_states@.len(), __e3 == A.len(), __i3 <= __e3, table_defs@.len() == __i3, state_id_to_dfa_table_defs@.len() == __i3, forall|k: int| 0 <= k < table_defs@.len() ==> (#[trigger] table_defs@[k])@ == tables(A)[k], forall|k: int| 0 <= k < table_defs@.len() ==> (#[trigger] state_id_to_dfa_table_defs@[k])@ == arm(k) decreases __e3 - __i3", "let ghost n = __i3 as int; proof { assert(small(A[n])); } ")
    f.loop(4, "invariant 0 <= n < A.len(), *dfa == A[n], i == n, __e4 == A[n].states@.len(), __i4 <= __e4, state_transition@.len() == __i4, state_accept@.len() == __i4, forall|k: int| 0 <= k < state_transition@.len() ==> (#[trigger] state_transition@[k])@ == row_text(A[n].states@[k]), forall|k: int| 0 <= k < state_transition@.len() ==> (#[trigger] state_accept@[k])@ == num(verdict(A[n].states@[k].accept_lexer_rule_id)) decreases __e4 - __i4", "let ghost si = __i4 as int; proof { assert(small(A[n])); assert(small_row(A[n].states@[__i4 as int])); match A[n].states@[__i4 as int].accept_lexer_rule_id { Some(v) => { narrow2(v); } None => {} } } ")
    f.loop(5, "invariant __e5 == 256, __i5 <= __e5, row_transition@.len() == __i5, forall|k: int| 0 <= k < row_transition@.len() ==> (#[trigger] row_transition@[k])@ == num(cell(A[n].states@[si].transitions@[k])) decreases __e5 - __i5", "proof { assert(small_row(A[n].states@[si])); narrow(A[n].states@[si].transitions@[__i5 as int]); } ")
    f.src = "#[verifier::loop_isolation(false)] " + f.src; u.put(f)
    return u
