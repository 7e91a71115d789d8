"""Proof hints for the arms of the scanner: why what the automaton matched is what the lexical rules say comes next."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _lex
I = "assert(span(b, x, #SPACE) == x); "
def at(n): return "ascii_next(self.input@, x + %s); " % n
RUNSTR = "run_str(b, y, x, x + self.yyleng, self.state); "
TXT = "assert forall|t: Seq<char>| #![trigger utf8(t)] true implies BOUNDARY(utf8(t), 0) && BOUNDARY(utf8(t), utf8(t).len() as int) by { boundaries(t); } "
NUMERIC = I + "assert(number(b, x) == one(b, x)); "
# the digits of an escape
def escape(skip, radix, cap): return """let w = b.subrange(x + %d, x + n); assert forall|p: int| 0 <= p < w.len() implies ALNUM(#[trigger] w[p]) && 0 <= digit(w[p]) < %d by { assert(w[p] == b[x + %d + p]); } val_bound(w, %d); reveal_with_fuel(pow, 10); ascii_next(self.input@, x + %d); assert(digits_of(w, %d) && val(w, %d) < %d); """ % (skip, radix, skip, radix, skip, radix, radix, cap)
UESC = escape(2, 16, 0x100000000) + """assert(n == 6 ==> hexes(b, x + 2, 4)); assert(n == 10 ==> hexes(b, x + 2, 8)); assert(n == 6 || n == 10); assert(uesc(b, x) == Some((n, val(w, 16)))); assert forall|k: int| 1 <= k <= 4 implies x + k <= b.len() && #[trigger] BOUNDARY(b, x + k) by { ascii_next(self.input@, x + k); } """
PART = "if hexes(b, x + 2, 4) && b[x + 1] == 117 { assert(HEX(b[x + n])); } if hexes(b, x + 2, 8) && b[x + 1] == 85 { assert(HEX(b[x + n])); } assert(uesc(b, x) is None); "
OP2 = I + "end_OP(b, x, x + 2); op_two(b.subrange(x, x + 2)); "
INT10 = NUMERIC
ESC = "assert(strq(b, y, x, State::xe) == esc(b, y, x)); "
H = {
 0: "run_SPACE(b, x, x + n);",
 1: I + "end_NONL(b, x, x + n);",
 2: I + at(2), 3: at(2),
 4: "run_com(b, y, x, x + n - 2, self.xcdepth as int);",
 5: "run_com(b, y, x, x + self.yyleng, self.xcdepth as int);", 7: "run_com(b, y, x, x + n, self.xcdepth as int);",
 9: I, 13: I, 15: I + at(1) + "lit_nchar();", 16: I, 17: I, 18: I,
 10: RUNSTR, 11: RUNSTR, 25: RUNSTR, 26: RUNSTR,
 20: "end_SPACE(b, x, x + n - 1); let p0 = choose|p: int| x <= p < x + n && NL(#[trigger] b[p]); assert(has_nl(b, x, x + n - 1)) by { assert(NL(b[p0])); };",
 21: "if b[x + n - 1] == 45 { end_SPACE(b, x, x + n - 1); } else { end_SPACE(b, x, x + n); } assert(after_q(b, y, x, self.state_before_str_stop) == plain(strkind(self.state_before_str_stop), y, x));",
 22: "end_SPACE(b, x, x);", 23: "end_SPACE(b, x, x);",
 27: ESC + UESC, 28: UESC, 32: "if self.state is xe { assert(strq(b, y, x, State::xe) == esc(b, y, x)); } " + PART,
 33: ESC + "two_chars(yytext@); run_str(b, y, x + 2, x + self.yyleng, State::xe); assert forall|t: Seq<char>| #[trigger] utf8(t) == b.subrange(x, x + self.yyleng) implies t.len() >= 2 by { two_chars(t); } ",
 34: ESC + escape(1, 8, 512) + "run_str(b, y, x + 2, x + n, State::xe); ", 35: ESC + escape(2, 16, 256) + "run_str(b, y, x + 2, x + n, State::xe); ",
 36: ESC + "assert(x + 1 == b.len()); assert forall|t: Seq<char>| #[trigger] utf8(t) == b.skip(x) implies t.len() > 0 by { utf8_len(t); } ",
 38: I + "let t = b.subrange(x, x + n); assert(self.yyleng == n); if n > 2 { end_TAGCONT(b, x + 2, x + n - 1); } assert(tagged(t)) by { assert forall|p: int| 0 < p < t.len() - 1 implies TAGCONT(#[trigger] t[p]) by { assert(t[p] == b[x + p]); } assert(t[0] == b[x] && t[n - 1] == b[x + n - 1] && t[1] == b[x + 1]); } assert(one(b, x) == dollar(b, x, x + n, t)); ",
 39: I + at(1) + "end_TAGCONT(b, x + 2, x + n); assert(one(b, x) == raw(b, x)); ",
 40: """let t = utf8(self.dolqstart@); let w = b.subrange(x, x + n); assert(self.yyleng == n); assert forall|q: Seq<char>| utf8(q) == w && q != self.dolqstart@ implies #[trigger] utf8(q) != t by { if utf8(q) == t { utf8_same(q, self.dolqstart@); } }
    if w == t { assert(occurs(b, x, t)); } else { tag_stops(b, x, n - 1, t); if occurs(b, x, t) { assert(b.subrange(x, x + t.len()) =~= w); } no_dollar(b, x + 1, x + n - 1, t); assert forall|p: int| x <= p < x + n - 1 implies !#[trigger] occurs(b, p, t) by { if p > x { } } run_dollar(b, y, x, x + n - 1, t); bound_iff(self.input@, x + n - 1); } """,
 41: "no_dollar(b, x, x + self.yyleng, utf8(self.dolqstart@)); run_dollar(b, y, x, x + self.yyleng, utf8(self.dolqstart@));",
 42: "let t = utf8(self.dolqstart@); tag_stops(b, x, n, t); no_dollar(b, x + 1, x + n, t); assert forall|p: int| x <= p < x + n implies !#[trigger] occurs(b, p, t) by { if p > x { } } run_dollar(b, y, x, x + n, t);",
 43: "let t = utf8(self.dolqstart@); if occurs(b, x, t) { assert(b.subrange(x, x + t.len())[1] == b[x + 1]); } run_dollar(b, y, x, x + 1, t); assert forall|q: Seq<char>| #[trigger] utf8(q) == b.subrange(x, x + self.yyleng) implies q.len() > 0 by { utf8_len(q); } ",
 45: I, 46: I, 50: "run_dq(b, y, x, x + self.yyleng, if self.state is xd { y + 1 } else { y + 3 }, if self.state is xd { TokenKind::IDENT } else { TokenKind::UIDENT });",
 52: I + at(1), 53: I, 54: I, 55: I, 56: OP2, 57: OP2, 58: OP2, 59: OP2, 60: OP2,
 61: I + TXT + "if OP(b[x]) { end_OP(b, x, x + 1); op_one(b.subrange(x, x + 1)); } assert(b.subrange(x, x + 1).subrange(0, 1) =~= b.subrange(x, x + 1)); assert(b.subrange(x, x + 1).take(1) =~= b.subrange(x, x + 1)); assert(one(b, x) == raw(b, x)); ",
 62: I + "end_OP(b, x, x + n); assert(one(b, x) == operator(b, x)); ",
 63: I + "end_DIGIT(b, x + 1, x + n); let w = b.subrange(x, x + n); let v = b.subrange(x + 1, x + n); assert(w.skip(1) =~= v); assert(digits_of(v, 10)) by { assert forall|p: int| 0 <= p < v.len() implies ALNUM(#[trigger] v[p]) && 0 <= digit(v[p]) < 10 by { assert(v[p] == b[x + 1 + p]); } } assert forall|t: Seq<char>| #[trigger] utf8(t) == w implies BOUNDARY(utf8(t), 1) by { ascii_next(t, 1); } assert(one(b, x) == param(b, x)); ",
 64: NUMERIC, 65: NUMERIC, 66: NUMERIC, 67: NUMERIC, 68: NUMERIC, 69: NUMERIC, 70: NUMERIC, 71: NUMERIC, 72: NUMERIC + "bound_iff(self.input@, x + n - 2); ", 73: NUMERIC, 74: NUMERIC, 75: NUMERIC, 76: NUMERIC, 77: NUMERIC,
 78: I + "end_IDCONT(b, x + 1, x + n); assert(self.yyleng == n); assert(one(b, x) == ident(b, x)); ",
 79: I + TXT + "assert(b.subrange(x, x + 1).subrange(0, 1) =~= b.subrange(x, x + 1)); assert(one(b, x) == raw(b, x)); ",
 80: I,
}
for k in (64, 65, 66, 67, 72):
    r = {64: 10, 65: 16, 66: 8, 67: 2, 72: 10}[k]; e = "n - 2" if k == 72 else "n"
    H[k] += "let w = b.subrange(x, x + %s); assert(int_text(w, %d)) by { assert forall|p: int| 0 <= p < w.len() implies #[trigger] w[p] == b[x + p] by {} } " % (e, r)
PROPS = {}
for k in list(range(0, 81)):
    PROPS[k] = ["C03"] if k in (0, 79, 80) else ["C04"] if k <= 8 else ["C09"] if k in (15, 52, 78) else ["C05"] + (["C06"] if 27 <= k <= 36 else []) + (["C14"] if k == 32 else []) if k <= 51 else ["C07"] if k <= 62 else ["C08"]
def hint(k):
    t = "if hit(*self, %d) { let n = use_%d(*self); %s } " % (k, k, H.get(k, "")) if k != 255 else "use_known(*self, 255); "
    return re.sub(r"#([A-Z][A-Z_]+)\b", lambda m: str(_lex.ID[m.group(1)]), t)
def build(u): raise Exception("library")
