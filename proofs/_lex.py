"""Byte classes and the facts about longest matches, per lexer state and rule.  Used by the units dfa (establishes them) and scan (relies on them)."""
STATES = ["INITIAL", "xb", "xc", "xd", "xh", "xq", "xqs", "xe", "xdolq", "xui", "xus", "xeu"]
EOF = dict(zip(STATES, [80, 12, 8, 51, 14, 37, 23, 37, 44, 51, 37, 31]))
def one(ch): return "c == %d" % ord(ch)
def among(s): return "(" + " || ".join("c == %d" % ord(x) for x in s) + ")"
OPS = "~!@#^&|`?+-*/%<>="; SELF = ",()[].;:+-*/%^<>="
# named classes: text over c, the same in specifications and in code
CLS = {
 "NONE": "false", "ANY": "c != 0",
 "SPACE": "(c == 32 || (9 <= c && c <= 13))", "NL": "(c == 10 || c == 13)",
 "DIGIT": "(48 <= c && c <= 57)", "OCT": "(48 <= c && c <= 55)", "BIN": "(c == 48 || c == 49)", "HEX": "((48 <= c && c <= 57) || (65 <= c && c <= 70) || (97 <= c && c <= 102))",
 "IDSTART": "(c >= 128 || c == 95 || (65 <= c && c <= 90) || (97 <= c && c <= 122))", "OP": among(OPS), "SELF": among(SELF),
 "IDCONT": "(IDSTART(c) || DIGIT(c) || c == 36)", "TAGCONT": "(IDSTART(c) || DIGIT(c))",
 "NONL": "(c != 10 && c != 13)", "SP_NONL": "(SPACE(c) && !NL(c))", "DIGIT_": "(DIGIT(c) || c == 95)", "HEX_": "(HEX(c) || c == 95)", "OCT_": "(OCT(c) || c == 95)", "BIN_": "(BIN(c) || c == 95)",
 "NQ": "c != 39", "NDQ": "c != 34", "NQB": "(c != 39 && c != 92)", "NDOLLAR": "c != 36", "NCOM": "(c != 42 && c != 47)",
 "QUOTES": "(c == 34 || c == 39)", "COLEQ": "(c == 58 || c == 61)", "DOTDIG": "(c == 46 || DIGIT(c))", "COMEND": "(c == 42 || c == 47)", "ENDTAG": "(TAGCONT(c) || c == 36)", "DOLSTART": "(c == 36 || IDSTART(c))",
 "DOLNEXT": "(c == 36 || IDSTART(c) || DIGIT(c))", "SPACEQ": "(SPACE(c) || c == 39)", "IDQ": "(IDCONT(c) || c == 39)", "IDAMP": "(IDCONT(c) || c == 38)", "UU": "(c == 85 || c == 117)",
 "PREF": among("bBxXnNeE"), "IDPLAIN": "(IDSTART(c) && !PREF(c) && !UU(c))", "ESCOTHER": "(!OCT(c) && c != 120 && !UU(c))", "NOTBS": "c != 92", "AFTERQ": "(!SPACE(c) && c != 45)",
 "PUNCT": among(",()[];"), "SELFOP": among("+-*/%^<>="), "OPNOTSELF": "(OP(c) && !SELF(c))", "OPREST": "(OP(c) && !(c == 61 || c == 62 || c == 60 || c == 33 || c == 47 || c == 45))", "OPREST2": "(OP(c) && c != 47 && c != 45)",
 "OP_GT": "(OP(c) && c != 62)", "OP_EQ": "(OP(c) && c != 61)", "OP_EG": "(OP(c) && c != 61 && c != 62)", "OP_STAR": "(OP(c) && c != 42)", "OP_DASH": "(OP(c) && c != 45)",
 "OTHER": "(!SPACE(c) && !OP(c) && !SELF(c) && !IDSTART(c) && !DIGIT(c) && c != 34 && c != 39 && c != 36)",
 "B_": among("bB"), "X_": among("xX"), "N_": among("nN"), "E_": among("eE"), "O_": among("oO"),
}
for _n, _c in (("Q", "'"), ("DQ", '"'), ("BS", "\\"), ("DOLLAR", "$"), ("DASH", "-"), ("SLASH", "/"), ("STAR", "*"), ("AMP", "&"), ("COLON", ":"), ("DOT", "."), ("EQ", "="), ("LT", "<"), ("GT", ">"), ("BANG", "!"), ("ZERO", "0"), ("LX", "x"), ("LU", "u"), ("CU", "U")): CLS[_n] = one(_c)
NAMES = list(CLS); ID = {n: i for i, n in enumerate(NAMES)}
INF = -1
class Alt:
    """lengths lo..hi; classes of the first, second, last but one, last byte and of those between; nn: the byte after the match is not of it; nl: contains a line break"""
    def __init__(s, lo, hi, p0="ANY", p1="ANY", mid="ANY", l2="ANY", l1="ANY", nn="NONE", nl=0): s.lo, s.hi, s.p0, s.p1, s.mid, s.l2, s.l1, s.nn, s.nl = lo, hi, p0, p1, mid, l2, l1, nn, nl
    def args(s): return "%d, %d, %d, %d, %d, %d, %d, %d, %s" % (s.lo, s.hi, ID[s.p0], ID[s.p1], ID[s.mid], ID[s.l2], ID[s.l1], ID[s.nn], "true" if s.nl else "false")
def run(c, lo=1, hi=INF, nn="NONE", first=None): return Alt(lo, hi, first or c, c, c, c, c, nn) if not first else Alt(lo, hi, first, c, c, "ANY", "ANY", nn)
def word(*cs, nn="NONE"):
    """exactly these bytes"""
    n = len(cs); a = Alt(n, n, nn=nn); a.p0 = cs[0]
    if n == 1: a.l1 = cs[0]
    elif n == 2: a.p1 = cs[1]; a.l2 = cs[0]; a.l1 = cs[1]
    else: a.p1 = cs[1]; a.l1 = cs[-1]; a.l2 = cs[-2]
    return a
def tail(first, c, nn="NONE", lo=2, hi=INF):
    """first, then one or more of c"""
    return Alt(lo, hi, first, c, c, "ANY", c, nn) if lo == 2 else Alt(lo, hi, first, c, c, c, c, nn)
HEXESC = [Alt(6, 6, "BS", "LU", "HEX", "HEX", "HEX"), Alt(10, 10, "BS", "CU", "HEX", "HEX", "HEX")]
PART = [word("BS", "UU", nn="HEX")] + [Alt(3, 3, "BS", "UU", "ANY", "UU", "HEX", "HEX"), Alt(4, 5, "BS", "LU", "HEX", "HEX", "HEX", "HEX"), Alt(4, 9, "BS", "CU", "HEX", "HEX", "HEX", "HEX")]
DOLQ = [word("DOLLAR", "DOLLAR"), Alt(3, INF, "DOLLAR", "IDSTART", "TAGCONT", "TAGCONT", "DOLLAR")]
DOLF = [Alt(2, 2, "DOLLAR", "IDSTART", "ANY", "DOLLAR", "IDSTART", "ENDTAG"), Alt(3, INF, "DOLLAR", "IDSTART", "TAGCONT", "TAGCONT", "TAGCONT", "ENDTAG")]
NUM = [Alt(1, INF, "DIGIT"), Alt(2, INF, "DOT", "DIGIT")]
FNUM = [Alt(1, INF, "DIGIT", l1="DOTDIG"), Alt(2, INF, "DOT", "DIGIT", l1="DOTDIG")]
DQSTR = {49: [word("DQ", "DQ")], 50: [run("NDQ", nn="NONE")]}
ALTS = {
 "INITIAL": {
  0: [run("SPACE")], 1: [Alt(2, INF, "DASH", "DASH", "NONL", "NONL", "NONL", "NONL")], 2: [Alt(2, INF, "SLASH", "STAR")],
  9: [word("B_", "Q")], 13: [word("X_", "Q")], 15: [word("N_", "Q")], 16: [word("Q")], 17: [word("E_", "Q")], 18: [word("UU", "AMP", "Q")], 45: [word("DQ")], 46: [word("UU", "AMP", "DQ")], 52: [word("UU", "AMP", nn="QUOTES")],
  38: DOLQ, 39: DOLF, 53: [word("COLON", "COLON")], 54: [word("DOT", "DOT")], 55: [word("COLON", "EQ")], 56: [word("EQ", "GT", nn="OP")], 57: [word("LT", "EQ", nn="OP")], 58: [word("GT", "EQ", nn="OP")],
  59: [word("LT", "GT", nn="OP")], 60: [word("BANG", "EQ", nn="OP")],
  61: [word("PUNCT"), word("COLON", nn="COLEQ"), word("DOT", nn="DOTDIG"), word("SELFOP", nn="OP")],
  62: [word("OPNOTSELF", nn="OP")] + [word(a, b, nn="OP") for a, b in (("EQ", "OP_GT"), ("GT", "OP_EQ"), ("LT", "OP_EG"), ("BANG", "OP_EQ"), ("SLASH", "OP_STAR"), ("DASH", "OP_DASH"), ("OPREST", "OP"))]
    + [Alt(3, INF, a, b, "OP", "OP", "OP", "OP") for a, b in (("SLASH", "OP_STAR"), ("DASH", "OP_DASH"), ("OPREST2", "OP"))],
  63: [word("DOLLAR", "DIGIT", nn="DIGIT"), tail("DOLLAR", "DIGIT", nn="DIGIT", lo=3)],
  64: [Alt(1, 1, "DIGIT"), Alt(2, INF, "DIGIT", "DIGIT_", "DIGIT_", "DIGIT_", "DIGIT")],
  65: [Alt(3, 3, "ZERO", "X_", "HEX_", "X_", "HEX"), Alt(4, INF, "ZERO", "X_", "HEX_", "HEX_", "HEX")], 66: [Alt(3, 3, "ZERO", "O_", "OCT_", "O_", "OCT"), Alt(4, INF, "ZERO", "O_", "OCT_", "OCT_", "OCT")],
  67: [Alt(3, 3, "ZERO", "B_", "BIN_", "B_", "BIN"), Alt(4, INF, "ZERO", "B_", "BIN_", "BIN_", "BIN")],
  68: NUM, 69: NUM, 70: NUM, 71: FNUM, 73: FNUM, 74: NUM, 75: NUM, 76: NUM, 77: NUM, 72: [Alt(3, 3, "DIGIT", "DOT", "ANY", "DOT", "DOT"), Alt(4, INF, "DIGIT", "DIGIT_", "DIGIT_", "DOT", "DOT")],
  78: [word("PREF", nn="IDQ"), word("UU", nn="IDAMP"), word("IDPLAIN", nn="IDCONT"), Alt(2, INF, "IDSTART", "IDCONT", "IDCONT", "IDCONT", "IDCONT", "IDCONT")],
  79: [word("DOLLAR", nn="DOLNEXT"), word("OTHER")] },
 "xc": { 3: [Alt(2, INF, "SLASH", "STAR")], 4: [Alt(2, 2, "STAR", "SLASH"), Alt(3, INF, "STAR", "STAR", "STAR", "STAR", "SLASH")], 5: [run("NCOM")], 6: [word("SLASH", nn="STAR"), word("STAR", nn="COMEND")], 7: [run("STAR", 2, nn="COMEND")] },
 "xb": {10: [run("NQ")], 11: [run("NQ")], 19: [word("Q")]}, "xh": {10: [run("NQ")], 11: [run("NQ")], 19: [word("Q")]},
 "xq": {24: [word("Q", "Q")], 25: [run("NQ")], 19: [word("Q", nn="Q")]}, "xus": {24: [word("Q", "Q")], 25: [run("NQ")], 19: [word("Q", nn="Q")]},
 "xe": {24: [word("Q", "Q")], 26: [run("NQB")], 19: [word("Q", nn="Q")], 27: HEXESC, 32: PART, 33: [word("BS", "LX", nn="HEX"), word("BS", "ESCOTHER")],
        34: [word("BS", "OCT", nn="OCT"), word("BS", "OCT", "OCT", nn="OCT"), Alt(4, 4, "BS", "OCT", "ANY", "OCT", "OCT")], 35: [word("BS", "LX", "HEX", nn="HEX"), Alt(4, 4, "BS", "LX", "ANY", "HEX", "HEX")], 36: [word("BS", nn="ANY")]},
 "xeu": {28: HEXESC, 32: PART, 29: [word("NOTBS"), word("BS", nn="UU")], 30: [word("NOTBS"), word("BS", nn="UU")]},
 "xd": {**DQSTR, 47: [word("DQ", nn="DQ")]}, "xui": {**DQSTR, 48: [word("DQ", nn="DQ")]},
 "xqs": {20: [Alt(2, 2, "SPACE", "Q", "ANY", "SPACE", "Q", nl=1), Alt(3, INF, "SPACE", "SPACE", "SPACE", "SPACE", "Q", nl=1)], 21: [run("SP_NONL", nn="SPACE"), Alt(1, INF, "SPACE", "SPACE", "SPACE", "SPACE", "SPACE", "SPACEQ", 1), word("DASH"), Alt(2, 2, "SPACE", "DASH"), Alt(3, INF, "SPACE", "SPACE", "SPACE", "SPACE", "DASH")], 22: [word("AFTERQ")]},
 "xdolq": {40: DOLQ, 41: [run("NDOLLAR")], 42: DOLF, 43: [word("DOLLAR", nn="DOLSTART")]},
}
RULES = sorted({r for m in ALTS.values() for r in m})
def classes():
    out = ["pub open spec fn %s(c: u8) -> bool { %s }" % (n, t) for n, t in CLS.items()]
    out.append("pub open spec fn cls(k: int, c: u8) -> bool { " + " else ".join("if k == %d { %s(c) }" % (i, n) for i, n in enumerate(NAMES)) + " else { false } }")
    return "\n".join(out)
SPEC = r"""
pub open spec fn alt(s: Seq<u8>, n: int, lo: int, hi: int, p0: int, p1: int, mid: int, l2: int, l1: int, nn: int, nl: bool) -> bool {
    lo <= n && (hi < 0 || n <= hi) && n <= s.len() && (n >= 1 ==> cls(p0, s[0]) && cls(l1, s[n - 1])) && (n >= 2 ==> cls(p1, s[1]) && cls(l2, s[n - 2])) && (forall|i: int| 2 <= i < n - 2 ==> cls(mid, #[trigger] s[i]))
    && (n < s.len() ==> !cls(nn, s[n])) && (nl ==> exists|i: int| 0 <= i < n && NL(#[trigger] s[i])) }
// ---- the longest match of an automaton
pub ghost struct Dfa { pub tr: Seq<Seq<u8>>, pub ac: Seq<u8> }
pub open spec fn run(d: Dfa, s: Seq<u8>, i: int) -> int decreases i { if i <= 0 { 0 } else { let q = run(d, s, i - 1); if q == 255 { 255 } else { d.tr[q][s[i - 1] as int] as int } } }
pub open spec fn accepts(d: Dfa, q: int) -> bool { q != 255 && d.ac[q] != 255 }
pub open spec fn best(d: Dfa, s: Seq<u8>, i: int) -> (int, int) decreases i { if i <= 0 { (0, d.ac[0] as int) } else if accepts(d, run(d, s, i)) { (i, d.ac[run(d, s, i)] as int) } else { best(d, s, i - 1) } }
// (length, rule): the longest match; the end of the text is an extra byte 0
pub open spec fn longest(d: Dfa, s: Seq<u8>) -> (int, int) { let q = run(d, s, s.len() as int); if q != 255 && accepts(d, d.tr[q][0] as int) { (s.len() as int, d.ac[d.tr[q][0] as int] as int) } else { best(d, s, s.len() as int) } }
pub open spec fn dshape(d: Dfa) -> bool { 0 < d.ac.len() < 256 && d.tr.len() == d.ac.len() && (forall|q: int| 0 <= q < d.tr.len() ==> (#[trigger] d.tr[q]).len() == 256) && (forall|q: int, c: int| 0 <= q < d.tr.len() && 0 <= c < 256 ==> (#[trigger] d.tr[q][c]) == 255 || d.tr[q][c] < d.ac.len()) }
pub open spec fn no_nul(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0 }
pub open spec fn dfa_ok(d: Dfa, st: int) -> bool { dshape(d) && longest(d, seq![]) == (0int, eof_rule(st)) && forall|s: Seq<u8>| no_nul(s) && s.len() > 0 ==> { let m = #[trigger] longest(d, s); 1 <= m.0 <= s.len() && fact(st, m.1, s, m.0) } }
"""
def inline(a):
    """the same statement as alt(s, n, ..), with the names of the classes and without the trivial parts"""
    o = []; n = lambda c, i: "%s(s[%s])" % (c, i); some = lambda c: c != "ANY"
    o.append("n == %d" % a.lo if a.lo == a.hi else ("%d <= n" % a.lo if a.hi < 0 else "%d <= n <= %d" % (a.lo, a.hi)))
    o.append("n <= s.len()")
    if a.lo == a.hi and a.lo <= 4:
        w = {1: [a.p0], 2: [a.p0, a.p1], 3: [a.p0, a.p1, a.l1], 4: [a.p0, a.p1, a.l2, a.l1]}[a.lo]
        o += [n(c, i) for i, c in enumerate(w) if some(c)]
    elif a.p1 == a.mid == a.l2 == a.l1:
        if some(a.p1):
            if a.p0 == a.p1: o.append("(forall|i: int| 0 <= i < n ==> %s)" % n(a.p1, "i").replace("s[", "#[trigger] s["))
            else: o += [n(a.p0, "0"), "(forall|i: int| 1 <= i < n ==> %s)" % n(a.p1, "i").replace("s[", "#[trigger] s[")]
        elif some(a.p0): o.append(n(a.p0, "0"))
    else:
        g = lambda k, t: t if a.lo >= k else "(n >= %d ==> %s)" % (k, t)
        if some(a.p0): o.append(g(1, n(a.p0, "0")))
        if a.p1 == a.mid == a.l2: o.append("(forall|i: int| 1 <= i < n - 1 ==> %s)" % n(a.p1, "i").replace("s[", "#[trigger] s["))
        elif a.p1 == a.mid and some(a.p1):
            o.append("(forall|i: int| 1 <= i < n - 2 ==> %s)" % n(a.p1, "i").replace("s[", "#[trigger] s["))
            o.append(g(2, n(a.p1, "1")))
            if some(a.l2): o.append(g(2, n(a.l2, "n - 2")))
        elif a.mid == a.l2 and some(a.mid):
            o.append("(forall|i: int| 2 <= i < n - 1 ==> %s)" % n(a.mid, "i").replace("s[", "#[trigger] s["))
            if some(a.p1): o.append(g(2, n(a.p1, "1")))
        else:
            if some(a.p1): o.append(g(2, n(a.p1, "1")))
            if some(a.mid): o.append("(forall|i: int| 2 <= i < n - 2 ==> %s)" % n(a.mid, "i").replace("s[", "#[trigger] s["))
            if some(a.l2): o.append(g(2, n(a.l2, "n - 2")))
        if some(a.l1): o.append(g(1, n(a.l1, "n - 1")))
    if a.nn != "NONE": o.append("(n < s.len() ==> !%s)" % n(a.nn, "n"))
    if a.nl: o.append("(exists|i: int| 0 <= i < n && NL(#[trigger] s[i]))")
    return " && ".join(o)
def facts(opaque=False):
    out = []
    for r in RULES:
        per = ["(st == %d && (%s))" % (STATES.index(s), " || ".join("(%s)" % inline(a) for a in m[r])) for s, m in ALTS.items() if r in m]
        out.append(("#[verifier::opaque] " if opaque else "") + "pub open spec fn fact_%d(st: int, s: Seq<u8>, n: int) -> bool { %s }" % (r, " || ".join(per)))
    out.append("pub open spec fn fact(st: int, rule: int, s: Seq<u8>, n: int) -> bool { " + " else ".join("if rule == %d { fact_%d(st, s, n) }" % (r, r) for r in RULES) + " else { false } }")
    out.append("pub open spec fn eof_rule(st: int) -> int { " + " else ".join("if st == %d { %d }" % (i, EOF[s]) for i, s in enumerate(STATES)) + " else { 255 } }")
    return "\n".join(out)
def text(opaque=False): return classes() + SPEC + facts(opaque)
