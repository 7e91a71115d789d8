"""Copies the generator sources and the shipped lookup code and lexer tables from /repo into build/gencheck."""
import os, re, shutil, sys
sys.path.insert(0, os.path.dirname(__file__))
import rustsrc as R

FALLBACK = '''
pub fn lookup_parser_action(state: u32, cid: u32) -> i16 {
    let i = ACTION_TABLE_INDEX[state as usize] as usize; let cid = cid as usize;
    if ACTION_CHECK_TABLE[i + cid] == cid as i16 { if ACTION_TABLE[i + cid] == DEFAULT_ACTION_CODE { ACTION_DEF_RULE_TABLE[state as usize] } else { ACTION_TABLE[i + cid] } } else { ERROR_ACTION_CODE }
}
pub fn lookup_goto_state(state: u32, cid: u32) -> i16 {
    let i = GOTO_TABLE_INDEX[state as usize] as usize; let cid = cid as usize;
    if GOTO_CHECK_TABLE[i + cid] == cid as i16 { GOTO_TABLE[i + cid] } else { INVALID_GOTO_CODE }
}
'''
LOOKUP = '''#![allow(non_upper_case_globals, static_mut_refs)]
use std::cell::RefCell; use std::ops::Index;
thread_local! { static N16: [RefCell<&'static [i16]>; 5] = [const { RefCell::new(&[]) }; 5]; static N32: [RefCell<&'static [u32]>; 2] = [const { RefCell::new(&[]) }; 2]; static OWN: RefCell<(Vec<Vec<i16>>, Vec<Vec<u32>>)> = const { RefCell::new((vec![], vec![])) }; }
pub struct T16(usize); pub struct T32(usize);
impl Index<usize> for T16 { type Output = i16; fn index(&self, i: usize) -> &i16 { let s: &'static [i16] = N16.with(|n| *n[self.0].borrow()); &s[i] } }
impl Index<usize> for T32 { type Output = u32; fn index(&self, i: usize) -> &u32 { let s: &'static [u32] = N32.with(|n| *n[self.0].borrow()); &s[i] } }
impl T16 { pub fn get(&self, i: usize) -> Option<&'static i16> { let s: &'static [i16] = N16.with(|n| *n[self.0].borrow()); s.get(i) } pub fn len(&self) -> usize { N16.with(|n| n[self.0].borrow().len()) } }
impl T32 { pub fn get(&self, i: usize) -> Option<&'static u32> { let s: &'static [u32] = N32.with(|n| *n[self.0].borrow()); s.get(i) } pub fn len(&self) -> usize { N32.with(|n| n[self.0].borrow().len()) } }
static ACTION_CHECK_TABLE: T16 = T16(0); static ACTION_TABLE: T16 = T16(1); static ACTION_DEF_RULE_TABLE: T16 = T16(2); static GOTO_CHECK_TABLE: T16 = T16(3); static GOTO_TABLE: T16 = T16(4);
static ACTION_TABLE_INDEX: T32 = T32(0); static GOTO_TABLE_INDEX: T32 = T32(1);
pub fn set(ic: Vec<i16>, v: Vec<i16>, off: Vec<u32>, def: Vec<i16>, gic: Vec<i16>, gv: Vec<i16>, goff: Vec<u32>) {
    OWN.with(|o| {
        let a = vec![ic, v, def, gic, gv]; let b = vec![off, goff];
        // the slices live in OWN until the next call, which replaces them before anything is looked up
        N16.with(|n| for k in 0..5 { *n[k].borrow_mut() = unsafe { std::slice::from_raw_parts(a[k].as_ptr(), a[k].len()) }; });
        N32.with(|n| for k in 0..2 { *n[k].borrow_mut() = unsafe { std::slice::from_raw_parts(b[k].as_ptr(), b[k].len()) }; });
        *o.borrow_mut() = (a, b);
    });
}
pub fn action(s: u32, j: u32) -> i16 { lookup_parser_action(s, j) }
pub fn goto_(s: u32, j: u32) -> i16 { lookup_goto_state(s, j) }
'''
def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, "w").write(text)

def lookup(repo, extracted):
    consts = "const ERROR_ACTION_CODE: i16 = 0x7FFF;\nconst DEFAULT_ACTION_CODE: i16 = 0x7FFE;\nconst INVALID_GOTO_CODE: i16 = -1;\n"
    if not extracted: return LOOKUP + consts + FALLBACK
    its = R.items(open(repo + "/crates/postgresql-cst-parser/src/cst.rs").read())
    need, text, done = ["lookup_parser_action", "lookup_goto_state"], "", set()
    while need:
        n = need.pop()
        if n in done: continue
        done.add(n)
        it = [x for x in its if x.name == n and x.kind in ("fn", "const", "static")]
        if not it: continue
        text += it[0].text + "\n"
        need += [t.text for t in R.tokenize(it[0].text) if t.kind == "id" and t.text != n and not t.text.endswith(("_TABLE", "TABLE_INDEX"))]
    if "lookup_parser_action" not in text: raise R.Lost("lookup functions")
    return LOOKUP + text

def shipped(repo):
    src = open(repo + "/crates/postgresql-cst-parser/src/lexer/generated.rs").read(); its = R.items(src)
    st = R.find(its, "enum", "State"); dfa = R.find(its, "mod", "dfa")
    names = [t.text for t in R.tokenize(st.body) if t.kind == "id"]
    out = "#![allow(non_camel_case_types, dead_code)]\n#[derive(Clone, Copy)]\n#[repr(u8)]\npub enum State { %s }\n" % st.body
    out += "pub mod dfa {\n    use super::State;\n" + "\n".join(x.text for x in dfa.items if x.kind in ("const", "static", "fn")) + "\n}\n"
    out += "pub fn states() -> Vec<(&'static str, State)> { vec![%s] }\n" % ", ".join('("%s", State::%s)' % (n, n) for n in names)
    body = R.find(its, "fn", "get_rules").body
    rx = re.findall(r'state:\s*State::(\w+),\s*pattern:\s*(?:regex::bytes::)?Regex::new\((r#*".*?"#*)\)\s*\.unwrap\(\),\s*kind:\s*\w+(?:::\w+)?,\s*eof:\s*(true|false)', body, re.S)
    out += "pub const RX: &[(&str, &str, bool)] = &[%s];\n" % ", ".join('("%s", %s, %s)' % x for x in rx)
    return out

def assemble(repo, verif, dest, extracted=True):
    g = repo + "/crates/parser-generator"
    if os.path.isdir(dest + "/src"): shutil.rmtree(dest + "/src.old", ignore_errors=True); 
    keep = set()
    for root, _, files in os.walk(g + "/src"):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), g); t = open(os.path.join(root, f)).read()
            if rel == "src/main.rs": continue
            if rel == "src/parser_generator.rs": t += "\npub mod verif_gencheck;\n"
            put(dest + "/" + rel, t); keep.add(rel)
    for d in ("templates", "resources"):
        for f in os.listdir(g + "/" + d): put(dest + "/" + d + "/" + f, open(g + "/" + d + "/" + f).read())
    lg = repo + "/crates/lexer-generator"
    for d in ("templates", "resources"):
        for f in os.listdir(lg + "/" + d): put(dest + "/" + d + "/" + f, open(lg + "/" + d + "/" + f, errors="replace").read())
    for f in os.listdir(lg + "/src"):
        if f.endswith(".rs") and f not in ("main.rs", "parser_generator.rs", "rx.rs", "rng.rs", "grammar.rs", "shipped.rs", "lookup.rs"):
            t = open(lg + "/src/" + f).read()
            if f == "lexer_generator.rs": t += "\npub fn verif_dfa(f: &FlexFile) -> String { construct_dfa(f).0 }\n"
            put(dest + "/src/" + f, t); keep.add("src/" + f)
    v = verif + "/gencheck/"
    for f in ("main.rs", "rx.rs"): put(dest + "/src/" + f, open(v + f).read()); keep.add("src/" + f)
    put(dest + "/src/parser_generator/verif_gencheck.rs", open(v + "verif_gencheck.rs").read()); keep.add("src/parser_generator/verif_gencheck.rs")
    for f in ("grammar.rs", "rng.rs"): put(dest + "/src/" + f, open(verif + "/replay/src/" + f).read()); keep.add("src/" + f)
    put(dest + "/src/shipped.rs", shipped(repo)); put(dest + "/src/lookup.rs", lookup(repo, extracted)); keep |= {"src/shipped.rs", "src/lookup.rs"}
    put(dest + "/Cargo.toml", open(v + "Cargo.toml.in").read().replace("/repo", repo))
    for root, _, files in os.walk(dest + "/src"):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, dest) not in keep: os.remove(p)

if __name__ == "__main__":
    assemble("/repo", "/verif", "/verif/build/gencheck", "fallback" not in sys.argv)
