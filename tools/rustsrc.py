"""Rust tokenizer and item reader used by every mechanical extraction in /verif."""
import re

class Lost(Exception):
    """An item or anchor the extraction needs is not there (never an alarm: the unit is undecided)."""

_ID = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*|[^\x00-\x7f]\w*")
_NUM = re.compile(r"0[xob][0-9a-fA-F_]+[iu]?[0-9a-z]*|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:[iuf](?:8|16|32|64|128|size))?")
_PUNCT = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ".."]

class Tok:
    __slots__ = ("kind", "text", "start", "end")
    def __init__(s, kind, text, start, end): s.kind, s.text, s.start, s.end = kind, text, start, end
    def __repr__(s): return "%s:%r" % (s.kind, s.text)

def tokenize(src, keep=False):
    """tokens of src; kinds: id num str chr life punct (and, with keep, ws and com)"""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]; s = i
        if c.isspace():
            while i < n and src[i].isspace(): i += 1
            if keep: out.append(Tok("ws", src[s:i], s, i))
            continue
        if src.startswith("//", i):
            i = src.find("\n", i); i = n if i < 0 else i
            if keep: out.append(Tok("com", src[s:i], s, i))
            continue
        if src.startswith("/*", i):
            d = 1; i += 2
            while d and i < n:
                if src.startswith("/*", i): d += 1; i += 2
                elif src.startswith("*/", i): d -= 1; i += 2
                else: i += 1
            if keep: out.append(Tok("com", src[s:i], s, i))
            continue
        m = re.compile(r'(?:b|c)?r(#*)"').match(src, i)
        if m:
            e = src.find('"' + m.group(1), m.end())
            if e < 0: raise Lost("unclosed raw string")
            i = e + 1 + len(m.group(1)); out.append(Tok("str", src[s:i], s, i)); continue
        m = re.compile(r'(?:b|c)?"').match(src, i)
        if m:
            i = m.end()
            while src[i] != '"': i += 2 if src[i] == "\\" else 1
            i += 1; out.append(Tok("str", src[s:i], s, i)); continue
        m = re.compile(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'").match(src, i)
        if m: i = m.end(); out.append(Tok("chr", src[s:i], s, i)); continue
        if c == "'":
            m = _ID.match(src, i + 1)
            if m: i = m.end(); out.append(Tok("life", src[s:i], s, i)); continue
        m = _NUM.match(src, i)
        if m and c.isdigit():
            t = m.group(0)
            i += len(t); out.append(Tok("num", t, s, i)); continue
        m = _ID.match(src, i)
        if m: i = m.end(); out.append(Tok("id", m.group(0), s, i)); continue
        for p in _PUNCT:
            if src.startswith(p, i): i += len(p); break
        else: i += 1
        out.append(Tok("punct", src[s:i], s, i))
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
def close(t, i):
    """index of the token closing the bracket at t[i]"""
    d = 0
    for k in range(i, len(t)):
        x = t[k]
        if x.kind != "punct": continue
        if x.text in OPEN: d += 1
        elif x.text in (")", "]", "}"):
            d -= 1
            if d == 0: return k
    raise Lost("unbalanced brackets")

class Item:
    """kind, name, attrs (list of text), text (with attributes and visibility), body (text inside the braces or
    None), head (text from the keyword to the opening brace), items (of mod/impl/trait)"""
    def __init__(s, **k): s.__dict__.update(k); s.items = k.get("items", [])
    def __repr__(s): return "<%s %s>" % (s.kind, s.name)

_KW = {"fn", "struct", "enum", "impl", "mod", "const", "static", "type", "trait", "use", "union", "macro_rules", "extern"}
def items(src, lo=0, hi=None, base=None):
    t = tokenize(src) if base is None else base
    hi = len(t) if hi is None else hi
    out, i = [], lo
    while i < hi:
        st = i; attrs = []
        while i < hi and t[i].text == "#":
            j = i + 1
            if t[j].text == "!": j += 1
            e = close(t, j); attrs.append(src[t[i].start:t[e].end]); i = e + 1
        if i >= hi: break
        k = i
        if t[k].text == "pub":
            k += 1
            if t[k].text == "(": k = close(t, k) + 1
        vis = src[t[i].start:t[k].start].strip() if k > i else ""
        q = k
        while t[q].text in ("unsafe", "async", "default") or (t[q].text == "const" and t[q + 1].text in ("fn", "unsafe", "async", "extern")) or (t[q].text == "extern" and t[q + 1].kind == "str"):
            q += 2 if t[q].text == "extern" else 1
        kw = t[q].text
        if kw not in _KW:
            # an item macro call or a stray semicolon
            j = q
            while j < hi and t[j].text not in (";", "{", "(", "["): j += 1
            if j < hi and t[j].text != ";":
                j = close(t, j)
                if j + 1 < hi and t[j + 1].text == ";": j += 1
            out.append(Item(kind="other", name=t[q].text, attrs=attrs, text=src[t[st].start:t[min(j, hi - 1)].end], body=None, head="", vis=vis, start=t[st].start, end=t[min(j, hi - 1)].end)); i = j + 1; continue
        name = t[q + 1].text if kw not in ("impl", "use") else ""
        if kw == "macro_rules": name = t[q + 2].text
        if kw == "static" and name == "mut": name = t[q + 2].text
        j = q + 1; br = None
        while j < hi:
            x = t[j].text
            if t[j].kind == "punct":
                if x == ";": break
                if x in ("(", "["): j = close(t, j)
                elif x == "{":
                    if kw in ("const", "static", "type", "use"): j = close(t, j)
                    else: br = j; j = close(t, j); break
                elif x == "=" and kw in ("const", "static"):
                    j += 1
                    while t[j].text != ";": j = close(t, j) + 1 if t[j].text in OPEN else j + 1
                    break
            j += 1
        if kw == "struct" and br is not None and j + 1 < hi and t[j + 1].text == ";" and False: j += 1
        if kw == "impl":
            name = re.sub(r"\s+", " ", src[t[q + 1].start:t[br].start].strip()) if br is not None else ""
        it = Item(kind=kw, name=name, attrs=attrs, vis=vis, start=t[st].start, end=t[j].end, text=src[t[st].start:t[j].end],
                  head=src[t[q].start:t[br].start].strip() if br is not None else src[t[q].start:t[j].end],
                  body=src[t[br].end:t[j].start] if br is not None else None)
        if kw in ("impl", "mod", "trait") and br is not None: it.items = items(src, br + 1, j, t)
        out.append(it); i = j + 1
    return out

def find(its, kind, name, within=None, pick=None):
    """the item of that kind and name; within: name of the enclosing impl/mod; pick: predicate on items"""
    def walk(l, encl):
        for x in l:
            if x.kind == kind and x.name == name and (within is None or encl == within) and (pick is None or pick(x)): yield x
            yield from walk(x.items, x.name)
    r = list(walk(its, None))
    if len(r) != 1: raise Lost("%s %s: %d found" % (kind, name, len(r)))
    return r[0]

def strip_comments(src):
    return "".join("" if k.kind == "com" and not k.text.startswith("///") else ("" if k.kind == "com" else k.text) for k in tokenize(src, True))
def norm(src):
    """token text with single spaces: equal for texts that differ in layout and comments only"""
    return " ".join(k.text for k in tokenize(src))
def unquote(s):
    """value of a Rust string literal token"""
    m = re.match(r'b?r(#*)"(.*)"\1$', s, re.S)
    if m: return m.group(2)
    s = s[s.index('"') + 1:-1]
    def f(m):
        x = m.group(1)
        if x[0] == "x": return chr(int(x[1:], 16))
        if x[0] == "u": return chr(int(x[2:-1], 16))
        if x[0] == "\n": return ""
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x, x)
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|\n\s*|.)", f, s, flags=re.S)
