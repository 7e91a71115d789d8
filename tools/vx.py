"""Mechanical preparation of Rust items for Verus: token patterns, loop desugaring, contract insertion.

Everything done to the code is recorded in Unit.extraction; nothing else of the item's text changes.
"""
import re
import rustsrc as R
from rustsrc import Lost

def toks(s): return [t for t in R.tokenize(s)]
def join(ts, src):
    """text of consecutive tokens of src"""
    return src[ts[0].start:ts[-1].end] if ts else ""

class Pat:
    """token pattern: literals, $x (one token), $x* (balanced run, shortest)"""
    def __init__(s, text):
        s.el = []
        for part in re.split(r"(\$\w+\*?)", text):
            if not part: continue
            if part[0] == "$": s.el.append(("run", part[1:-1]) if part.endswith("*") else ("one", part[1:]))
            else: s.el += [("lit", t.text) for t in R.tokenize(part)]
    def at(s, t, i, e=0, b=None):
        b = dict(b or {})
        while e < len(s.el):
            k, v = s.el[e]
            if k == "run":
                j = i; d = 0
                while True:
                    m = s.at(t, j, e + 1, {**b, v: (i, j)})
                    if m is not None and d == 0: return m
                    if j >= len(t): return None
                    x = t[j].text if t[j].kind == "punct" else ""
                    if x in R.OPEN: j = R.close(t, j) + 1
                    elif x in (")", "]", "}") or x == ";": return None
                    else: j += 1
            if i >= len(t): return None
            if k == "lit":
                if t[i].text != v: return None
            else:
                if v in b:
                    if t[b[v][0]].text != t[i].text: return None
                else: b[v] = (i, i + 1)
            i += 1; e += 1
        return i, b
def rewrite(src, pat, rep, limit=None):
    """every match of the pattern replaced; returns (text, count)"""
    p = Pat(pat); n = 0; pos = 0
    while True:
        t = toks(src); i = 0
        while i < len(t):
            if t[i].start >= pos:
                m = p.at(t, i)
                if m is not None: break
            i += 1
        else: return src, n
        e, b = m
        out = rep
        for k in sorted(b, key=len, reverse=True):
            lo, hi = b[k]; out = out.replace("$" + k, src[t[lo].start:t[hi - 1].end] if hi > lo else "")
        s0, s1 = t[i].start, t[e - 1].end
        src = src[:s0] + out + src[s1:]; pos = s0 + len(out); n += 1
        if limit and n >= limit: return src, n

class Fn:
    """one function being prepared; src is its current text"""
    def __init__(s, item, unit):
        s.name = item.name; s.src = item.text; s.orig = item.text; s.unit = unit; s.notes = []
        for a in item.attrs: s.src = s.src.replace(a, "", 1) if not a.startswith("#[verifier") else s.src
        s.src = "".join(t.text for t in R.tokenize(s.src, True) if t.kind != "com")
        s.strip_noops(); s.loops = 0
    def strip_noops(s):
        # statements without effect that the verifier does not support
        for p in ("let _ = std::hint::black_box($e*);", "std::hint::black_box($e*);", "debug_assert!($e*);", "eprintln!($e*);", "dbg!($e*);"):
            s.src, n = rewrite(s.src, p, "")
            if n: s.notes.append("dropped %d x `%s`" % (n, p))
    def rw(s, pat, rep, need=None, note=None):
        s.src, n = rewrite(s.src, pat, rep)
        if need is not None and n < need: raise Lost("%s: `%s` found %d times" % (s.name, pat, n))
        if n: s.notes.append(note or "`%s` -> `%s` (%d)" % (pat, rep, n))
        return n
    # -------------------------------------------------------------- structure
    def sig(s):
        """(index of the body's opening brace, parameter names)"""
        t = toks(s.src); i = next(k for k, x in enumerate(t) if x.text == "fn"); j = i + 2
        if t[j].text == "<":
            d = 0
            while True:
                if t[j].text == "<": d += 1
                elif t[j].text == ">": d -= 1
                elif t[j].text == ">>": d -= 2
                j += 1
                if d == 0: break
        e = R.close(t, j); names = []; k = j + 1; depth = 0; start = True
        while k < e:
            x = t[k]
            if start and x.kind in ("id", "punct") and x.text not in ("&", "mut", "life") and x.kind == "id" and x.text not in ("mut",): names.append(x.text); start = False
            if x.text in R.OPEN: k = R.close(t, k)
            elif x.text == "<": depth += 1
            elif x.text == ">": depth -= 1
            elif x.text == ">>": depth -= 2
            elif x.text == "," and depth == 0: start = True
            k += 1
        b = e + 1
        while t[b].text != "{": b = R.close(t, b) + 1 if t[b].text in ("(", "[") else b + 1
        return t, e, b, names
    def contract(s, spec, ret="r"):
        """names the result and puts the contract between signature and body; $0, $1.. stand for the parameters"""
        t, e, b, names = s.sig(); s.params = names
        for i in range(len(names) - 1, -1, -1): spec = spec.replace("$%d" % i, names[i])
        head = s.src[:t[e].end]; rty = s.src[t[e].end:t[b].start].strip(); where = ""
        m = re.match(r"->\s*(.*?)(\bwhere\b.*)?$", rty, re.S)
        if m: r = " -> (%s: %s) %s" % (ret, m.group(1).strip(), m.group(2) or "")
        else: r = " " + rty
        s.src = head + r + "\n" + spec.rstrip() + "\n" + s.src[t[b].start:]; s.has_contract = True
    def loops_at(s):
        """positions (token index of keyword, of the opening brace) of the loops of the function, outermost first in text order"""
        t = toks(s.src); out = []
        for i, x in enumerate(t):
            if x.kind == "id" and x.text in ("for", "while", "loop"):
                if x.text == "for" and (t[i + 1].text == "<" or t[i - 1].text in (">", "impl")): continue
                j = i + 1
                while t[j].text != "{": j = R.close(t, j) + 1 if t[j].text in ("(", "[") else j + 1
                # `if let` / struct literals in loop heads do not occur in the code under contract
                out.append((i, j))
        return t, out
    def desugar(s):
        """every `for` over a range or an indexed iterator becomes a `while` over an index named __iN"""
        forms = [("for $v in $a*..{", "inf"), ("for $v in $a*..$b*{", "rng"), ("for ($j, $v) in $x*.iter().enumerate().skip($a*){", "es"), ("for ($j, $v) in $x*.iter().enumerate(){", "e"), ("for (_, $v) in $x*.iter().enumerate(){", "e"),
                 ("for $v in $x*.iter(){", "it"), ("for &$v in $x*.iter(){", "itr"), ("for &$v in &$x*{", "itr"), ("for $v in &$x*{", "it"), ("for $v in $x{", "it")]
        n = 0
        while True:
            t, ls = s.loops_at()
            f = [(i, b) for i, b in ls if t[i].text == "for" and not (i and t[i - 1].text == "/*done*/")]
            if not f: return
            i, b = f[0]
            for pat, kind in forms:
                m = Pat(pat).at(t, i)
                if m is not None and m[0] == b + 1: break
            else: raise Lost("%s: loop form `%s`" % (s.name, join(t[i:b], s.src)[:80]))
            g = {k: (s.src[t[lo].start:t[hi - 1].end] if hi > lo else "") for k, (lo, hi) in m[1].items()}
            ix = "__i%d" % n; end = "__e%d" % n; v = g.get("v")
            pre = "let mut %s: usize = %s; let %s: usize = %s;" if False else None
            if kind == "rng": pre = "let mut %s = %s; let %s = %s;" % (ix, g["a"], end, g["b"]); cond = "%s < %s" % (ix, end); first = "let %s = %s;" % (v, ix)
            elif kind == "inf": pre = "let mut %s: usize = %s;" % (ix, g["a"]); cond = "true"; first = "let %s = %s;" % (v, ix)
            elif kind in ("it", "itr"): pre = "let mut %s: usize = 0; let %s = %s.len();" % (ix, end, g["x"]); cond = "%s < %s" % (ix, end); first = "let %s = %s%s[%s];" % (v, "&" if kind == "it" else "", g["x"], ix)
            else:
                pre = "let mut %s: usize = %s; let %s = %s.len();" % (ix, g.get("a") or "0", end, g["x"]); cond = "%s < %s" % (ix, end)
                first = "let %s = %s; let %s = &%s[%s];" % (g["j"], ix, v, g["x"], ix) if "j" in g else "let %s = &%s[%s];" % (v, g["x"], ix)
            e = R.close(t, b)
            s.src = s.src[:t[i].start] + "{ " + pre + " while " + cond + " {" + first + " " + ix + " = " + ix + " + 1;" + s.src[t[b].end:t[e].end] + " }" + s.src[t[e].end:]
            s.notes.append("`for %s in ...` as a while loop over an index" % (v,)); n += 1
    def loop(s, k, spec, body_start="", body_end=""):
        """invariants for the k-th loop (text order, after desugaring)"""
        t, ls = s.loops_at()
        if k >= len(ls): raise Lost("%s: loop %d" % (s.name, k))
        i, b = ls[k]; e = R.close(t, b)
        for n in range(9, -1, -1): spec = spec.replace("$%d" % n, s.params[n] if n < len(s.params) else "$%d" % n); body_start = body_start.replace("$%d" % n, s.params[n] if n < len(s.params) else ""); body_end = body_end.replace("$%d" % n, s.params[n] if n < len(s.params) else "")
        s.src = s.src[:t[b].start] + "\n" + spec.rstrip() + "\n{" + s.unit.probe() + body_start + s.src[t[b].end:t[e].start] + body_end + "}" + s.src[t[e].end:]
    def while_let(s):
        """`while let P = E {B}` as `loop { match E { P => {B} _ => { break; } } }`"""
        n = 0
        while True:
            t = toks(s.src)
            i = next((k for k in range(len(t)) if t[k].text == "while" and t[k + 1].text == "let"), None)
            if i is None: break
            j = i + 2
            while t[j].text != "=": j = R.close(t, j) + 1 if t[j].text in R.OPEN else j + 1
            b = j + 1
            while t[b].text != "{": b = R.close(t, b) + 1 if t[b].text in ("(", "[") else b + 1
            e = R.close(t, b); pat = s.src[t[i + 2].start:t[j - 1].end]; ex = s.src[t[j + 1].start:t[b - 1].end]
            s.src = s.src[:t[i].start] + "loop { match " + ex + " { " + pat + " => " + s.src[t[b].start:t[e].end] + " _ => { break; } } }" + s.src[t[e].end:]; n += 1
        if n: s.notes.append("%d x `while let` as a loop over a match" % n)
    def mut_self(s):
        """`mut self` as a local: `let mut this = self;` (the name `this` must be unused)"""
        t = toks(s.src)
        if any(x.text == "this" for x in t): raise Lost(s.name + ": `this` in use")
        s.src = "".join("this" if x.text == "self" and x.kind == "id" else x.text for x in R.tokenize(s.src, True))
        s.src, n = rewrite(s.src, "(mut this", "(self")
        if n != 1: raise Lost(s.name + ": mut self")
        t, e, b, names = s.sig(); s.src = s.src[:t[b].end] + " let mut this = self; " + s.src[t[b].end:]; s.notes.append("`mut self` as a local variable")
    def ghost_param(s, p):
        t, e, b, names = s.sig(); sep = "" if t[e - 1].text in ("(", ",") else ", "
        s.src = s.src[:t[e].start] + sep + p + s.src[t[e].start:]
    def start(s, text=""):
        t, e, b, names = s.sig()
        for i in range(len(names) - 1, -1, -1): text = text.replace("$%d" % i, names[i])
        h = re.match(r"\s*(?:hide\(\w+\);\s*)*", text).group(0)
        s.src = s.src[:t[b].end] + h + s.unit.probe() + text[len(h):] + s.src[t[b].end:]
    def end(s, text):
        """text after the last statement; the body's value has to be ()"""
        t, e, b, names = s.sig(); c = R.close(t, b)
        for i in range(len(names) - 1, -1, -1): text = text.replace("$%d" % i, names[i])
        s.src = s.src[:t[c].start] + ("" if t[c - 1].text == ";" else ";") + " " + text + s.src[t[c].start:]
    def strings(s):
        """comparisons with string literals through str_eq (contract: equality of the characters)"""
        n = 0
        while True:
            t = toks(s.src); eds = []; last = -1
            for i in range(len(t) - 1):
                if i <= last: continue
                if t[i].text in ("==", "!=") and t[i + 1].kind == "str":
                    a = i - 1
                    while a > 0 and (t[a].kind == "id" or t[a].text in (".", ")", "]", "*", "&")) and not (t[a].kind == "id" and t[a].text in ("if", "match", "return", "in", "while")):
                        if t[a].text in (")", "]"):
                            d = 0
                            while True:
                                if t[a].text in (")", "]", "}"): d += 1
                                elif t[a].text in R.OPEN: d -= 1
                                if d == 0: break
                                a -= 1
                        a -= 1
                    e = s.src[t[a + 1].start:t[i - 1].end].lstrip("*&")
                    eds.append((t[a + 1].start, t[i + 1].end, ("!" if t[i].text == "!=" else "") + "str_eq(&" + e + ", " + t[i + 1].text + ")")); last = i + 1
                elif t[i].text == "matches" and t[i + 1].text == "!" and t[i + 2].text in R.OPEN:
                    e = R.close(t, i + 2); c = next((k for k in range(i + 3, e) if t[k].text == ","), None)
                    if c is None or not any(x.kind == "str" for x in t[c + 1:e]): continue
                    alts = [x for x in t[c + 1:e] if x.text not in ("|", ",")]
                    if not all(x.kind == "str" for x in alts): continue
                    x = s.src[t[i + 3].start:t[c - 1].end]
                    eds.append((t[i].start, t[e].end, "(" + " || ".join("str_eq(%s, %s)" % (x, y.text) for y in alts) + ")")); last = e
            if not eds: break
            ok = [eds[0]]
            for x in eds[1:]:
                if x[0] >= ok[-1][1]: ok.append(x)
            for a, b, r in reversed(ok): s.src = s.src[:a] + r + s.src[b:]
            n += len(ok)
        if n: s.notes.append("%d comparisons of a string with literals through str_eq" % n)
    def lift(s, name):
        """a nested fn item (it captures nothing) moved to the top level"""
        t = toks(s.src); _, _, b, _ = s.sig()
        for i in range(b + 1, len(t)):
            if t[i].text == "fn" and t[i + 1].text == name:
                j = i
                while t[j].text != "{": j = R.close(t, j) + 1 if t[j].text in ("(", "[") else j + 1
                e = R.close(t, j); body = s.src[t[i].start:t[e].end]
                f = object.__new__(Fn); f.name = name; f.src = body; f.orig = body; f.unit = s.unit; f.notes = ["nested fn lifted to the top level"]; f.loops = 0; f.strip_noops()
                s.src = s.src[:t[i].start] + s.src[t[e].end:]; return f
        raise Lost("nested fn " + name)
    def before(s, pat, text, optional=True, nth=None, after=False):
        """text put before (after) every match of the pattern"""
        p = Pat(pat); t = toks(s.src); hits = []
        for i in range(len(t)):
            m = p.at(t, i)
            if m is not None: hits.append(t[m[0] - 1].end if after else t[i].start)
        if nth is not None: hits = hits[nth:nth + 1] if nth >= 0 else hits[nth:][:1]
        if not hits and not optional: raise Lost("%s: anchor `%s`" % (s.name, pat))
        for h in reversed(hits): s.src = s.src[:h] + text + s.src[h:]
        return len(hits)

STR_EQ = "#[verifier::external_body] pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }\n"

SPIN = ("nfa", "regex", "bison", "flexfile", "lextab", "lalrgen", "tree", "driver", "compress", "idmap", "tokens", "ids")  # each function of these units gets a solver process of its own
class Unit:
    def __init__(s, name, repo, probes=False, part=None):
        s.part = part; s.name = name; s.repo = repo; s.parts = []; s.functions = []; s.extraction = []; s.trusted = []; s.assumptions = []; s.probes = probes; s.nprobe = 0; s.srcs = {}; s.code = []; s.args = []
    def file(s, rel):
        if rel not in s.srcs:
            try: x = open(s.repo + "/" + rel).read()
            except OSError: raise Lost("file " + rel)
            s.srcs[rel] = (x, R.items(x))
        return s.srcs[rel]
    def item(s, rel, kind, name, within=None, pick=None):
        it = R.find(s.file(rel)[1], kind, name, within, pick); s.code.append(R.norm(it.text)); return it
    def fn(s, rel, name, within=None, pick=None):
        return Fn(s.item(rel, "fn", name, within, pick), s)
    def probe(s):
        if not s.probes: return ""
        s.nprobe += 1
        if s.part and s.nprobe % s.part[1] != s.part[0]: return ""
        return " if vacuity_probe(%d) { assert(false); } " % s.nprobe
    def add(s, text): s.parts.append(text)
    def put(s, fn, where="", wrap=None):
        """adds a prepared function; wrap: the impl head it belongs to"""
        s.functions.append((where + " " if where else "") + fn.name); s.extraction += ["%s: %s" % (fn.name, n) for n in fn.notes]
        t = fn.src
        if s.name in SPIN: t = "#[verifier::spinoff_prover] " + t
        if wrap: t = wrap + " {\n" + t + "\n}"
        s.parts.append("//@fn " + fn.name + "\n" + t + "\n//@end")
    def text(s):
        pr = "#[verifier::external_body] fn vacuity_probe(k: u32) -> bool { unimplemented!() }\n" if s.probes else ""
        return "#![allow(unused, non_camel_case_types, non_upper_case_globals, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n" + pr + "\n".join(s.parts) + "\n} // verus!\nfn main() {}\n"
