"""LALR(1) tables: a verified checker that answers true only if the tables are, wherever they lead, those of the LALR(1) construction with yacc's conflict rules; run on the shipped tables with gram.y (C13) and on generated ones (C18)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, _lr, _lalr, lrcheck
ACTGO = "\n".join(l for l in re.split(r"\n(?=fn )", lrcheck.CHECK) if re.match(r"\s*fn x_(act|go)\(", l))
def build(u):
    u.add("global size_of usize == 8;\n" + "\n".join(l for l in _lr.LR.splitlines() if re.match(r"pub open spec fn (ERR|DEF|act|go)\(|pub struct Tab", l))); u.add("//@fn lalr\n" + _lalr.SPEC + _lalr.AUT + _lalr.BITS + _lalr.NUL + _lalr.FST + _lalr.LOOK + _lalr.CERT + ACTGO + _lalr.TABLE + "\n//@end"); u.functions.append("check and its parts (verified checker, run on real tables)")
    return u

def checker(outdir, source):
    """compiles the verified checker: (executable or None, what)"""
    import subprocess
    here = os.path.dirname(os.path.abspath(__file__)); m = open(here + "/lalrmain.rs").read().replace("@GRAMMAR@", os.path.dirname(here) + "/replay/src/grammar.rs"); f = outdir + "/lalrtab.rs"; exe = outdir + "/lalrtab"
    open(f, "w").write(source.replace("fn main() {}\n", "") + m)
    p = subprocess.run(["verus", f, "--compile", "--no-verify", "--triggers-mode", "silent", "-C", "opt-level=3", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=outdir, timeout=300)
    return (exe, "") if p.returncode == 0 else (None, "the checker does not compile: " + p.stdout[-800:])
def post(u, outdir, source):
    """runs the verified checker on the tables of parser.rs and gram.y: (held, what)"""
    import subprocess
    d = outdir + "/lalr.dump"; open(d, "w").write(lrcheck.dump(u)); exe, why = checker(outdir, source)
    if exe is None: return None, why
    p = subprocess.run([exe, d, u.repo + "/crates/parser-generator/resources/gram.y"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    l = p.stdout.strip().splitlines()[-1:] or [""]
    if l[0].startswith("LALR-OK"): return True, l[0]
    if l[0].startswith("BAD"): return False, l[0][4:]
    return None, "the checker stopped: " + p.stdout[-500:]
def speaks(prop, what): return prop == "C13"
