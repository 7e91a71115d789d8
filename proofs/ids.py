"""token_kind_to_component_id: the numbers of tokens, as the driver proof uses them (cid_ok, raw_end_cid); end_rule_kind."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, _cst, tokens, driver
def differ(a, xs):
    r = ""; v = eval(a)
    for x in xs:
        w = eval(x)
        if w == v: continue
        r += " assert(%s@.len() != %s@.len());" % (a, x) if len(v) != len(w) else " assert(%s@[%d] != %s@[%d]);" % (a, next(i for i in range(len(v)) if v[i] != w[i]), x, next(i for i in range(len(v)) if v[i] != w[i]))
    return r
def build(u):
    driver.small_parser(u)
    fs = [(n,) + driver.literal(u, n) for n in driver.SPECNAME]
    u.add(vx.STR_EQ)
    u.add("\n".join("pub open spec fn %s() -> int { %d }" % (driver.SPECNAME[n], v) for n, f, v in fs))
    _cst.kinds(u)
    tokens.types(u)
    u.add("""pub open spec fn is_comment(k: TokenKind) -> bool { k == TokenKind::C_COMMENT || k == TokenKind::SQL_COMMENT }
pub open spec fn is_raw_end(k: TokenKind) -> bool { k matches TokenKind::RAW(s) && s@ == "$end"@ }
pub open spec fn fits(k: TokenKind, c: int) -> bool { (if is_comment(k) { NT() + NN() <= c < NKINDS() } else { c < NT() }) && (c == END() ==> is_raw_end(k)) }""")
    f = u.fn(driver.P, "end_rule_kind"); f.src = f.src.replace("pub(crate) ", ""); f.rw("$x.to_string()", "own_str($x)"); f.contract("ensures is_raw_end(r)"); f.start()
    u.add("#[verifier::external_body] pub fn own_str(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }"); u.put(f)
    f = u.fn(driver.P, "token_kind_to_component_id"); f.src = f.src.replace("pub(crate) ", "")
    f.strings(); raws = sorted(set(vx.re.findall(r'TokenKind::RAW\(\w+\) if \S*str_eq\(&\w+, ("(?:[^"\\]|\\.)*")\)', f.src)))
    f.contract("ensures r matches Some(c) ==> fits(*$0, c as int), is_raw_end(*$0) ==> r == Some(END() as u32)")
    f.start(" proof { " + " ".join("reveal_strlit(%s);" % x for x in raws) + differ("\"$end\"", raws) + " } "); u.put(f)
    return u
