"""Runs one proof unit: extract from /repo, add contracts, let Verus decide, classify the outcome."""
import hashlib, importlib.util, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); sys.path.insert(0, HERE)
import vx, rustsrc
FAILED = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic", "possible division", "decreases not satisfied", "loop invariant", "could not prove termination", "possible bit shift", "unreachable", "array index", "constructed value may fail", "split assertion failure", "split precondition failure", "split postcondition failure", "requires not satisfied", "unable to prove")
UNDECIDED = ("rlimit", "resource limit", "not supported", "unsupported", "timed out")
def load(name):
    spec = importlib.util.spec_from_file_location("unit_" + name, "%s/proofs/%s.py" % (VERIF, name)); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m
def verus(path, timeout, args, multi=40):
    cmd = ["verus", path, "--multiple-errors", str(multi), "--triggers-mode", "silent"] + args
    t = time.time(); p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, cwd=os.path.dirname(path), env=dict(os.environ, RUST_MIN_STACK="1000000000"))
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); out, _ = p.communicate(); out += "\nerror: timed out\n"
    return out, p.returncode, time.time() - t, " ".join(cmd)
class Line(int): col = 1
SAFETY = ("precondition not satisfied", "possible arithmetic", "possible division", "decreases not satisfied", "could not prove termination", "possible bit shift", "array index", "split precondition failure")
def in_ghost(line, col):
    """is this column of the line inside a proof block?"""
    d = 0; ghost = None; i = 0
    while i < col - 1 and i < len(line):
        if line.startswith("proof {", i) and ghost is None: ghost = d; i += 6
        if line[i] == "{": d += 1
        elif line[i] == "}":
            d -= 1
            if ghost is not None and d <= ghost: ghost = None
        i += 1
    return ghost is not None
def concerns(prop, a, l, text, only):
    """does this failed obligation speak about the property?  Clauses carry tags, functions may carry a list; crashes and termination are C01, the rest is not"""
    line = text.splitlines()[l - 1] if l else ""; tags = re.findall(r"/\*@([C0-9 ]+)\*/", line)
    if tags: return prop in tags[0].split()
    fn = owner(text, l); safety = any(k in a for k in SAFETY); ghost = in_ghost(line, getattr(l, "col", 1))
    if prop == "C01": return safety and not ghost
    if fn in only: return prop in only[fn]
    return not safety or ghost or "precondition" in a
def errors(out, text):
    """[(message, line)] of the errors Verus reports"""
    res = []; lines = out.splitlines()
    for i, l in enumerate(lines):
        m = re.match(r"error(?:\[\w+\])?: (.*)", l)
        if not m or m.group(1).startswith(("aborting", "could not compile")): continue
        ln = Line(0)
        for k in lines[i + 1:i + 4]:
            n = re.search(r"--> [^:]+:(\d+):(\d+)", k)
            if n: ln = Line(n.group(1)); ln.col = int(n.group(2)); break
        res.append((m.group(1), ln))
    return res
def owner(text, ln):
    name = "lemmas"
    for i, l in enumerate(text.splitlines()[:ln]):
        if l.startswith("//@fn "): name = l[6:]
        elif l.startswith("//@end"): name = "lemmas"
    return name
def baseline(name):
    try: return json.load(open(VERIF + "/proofs/baseline.json")).get(name) or {}
    except OSError: return {}
def vacuity(name, repo, outdir, r, parts=8):
    """assertions of false behind every contract and invariant have to fail"""
    from concurrent.futures import ThreadPoolExecutor
    try: first = load(name).build(vx.Unit(name, repo, True))
    except rustsrc.Lost as x: r["vacuity"] = "not run: %s" % x; return
    if not first.nprobe: return
    slow = getattr(first, "slow_vacuity", False); n = parts if slow else 1
    def part(k):
        pu = load(name).build(vx.Unit(name, repo, True, (k, n))); pt = pu.text(); pp = "%s/%s_vacuity%d.rs" % (outdir, name, k); open(pp, "w").write(pt); hit = set()
        o2, _, d2, _ = verus(pp, 800, ["--rlimit", "1", "--num-threads", "2"] if slow else pu.args, 0 if slow else 40); pl = pt.splitlines()
        for a, l in errors(o2, pt):
            if any(k in a for k in UNDECIDED):
                # false was not proved in this function within the resource limit
                e9 = next((k for k in range(l - 1, len(pl)) if pl[k].startswith("//@end")), l)
                hit |= set(re.findall(r"vacuity_probe\((\d+)\) \{ assert\(false\)", "\n".join(pl[l - 1:e9])))
            elif "assertion failed" in a: hit |= set(re.findall(r"vacuity_probe\((\d+)\) \{ assert\(false\)", pl[l - 1]))
        return hit, d2
    with ThreadPoolExecutor(n) as ex: rs = list(ex.map(part, range(n)))
    hit = set().union(*[h for h, _ in rs]); r["time"] += max(d for _, d in rs); r["vacuity"] = "%d of %d probes reachable" % (len(hit), first.nprobe); r["unhit"] = sorted(set(range(1, first.nprobe + 1)) - set(map(int, hit)))
    if len(hit) < first.nprobe - getattr(first, "dead_probes", 0): r["why"] = "vacuous: " + r["vacuity"]
def unit(name, repo, outdir, prop, quick=True, timeout=400):
    os.makedirs(outdir, exist_ok=True); t0 = time.time(); path = "%s/%s.rs" % (outdir, name)
    r = dict(unit=name, status="undecided", why="", obligations=0, discharged=0, time=0.0, functions=[], trusted=[], assumptions=[], extraction=[], vacuity="not run", failed=[], log="", cmd="verus proofs/%s.rs" % name)
    try:
        mod = load(name); u = mod.build(vx.Unit(name, repo))
    except rustsrc.Lost as e: r["why"] = "lost anchor: %s" % e; return r
    except Exception as e:
        if os.environ.get("PROVE_DEBUG"): raise
        r["why"] = "extraction stopped: %r" % e; return r
    text = u.text(); open(path, "w").write(text); h = hashlib.sha256("\n".join(u.code).encode()).hexdigest(); r["hash"] = h
    r["functions"] = ["%s: %s" % (name, f) for f in u.functions]; r["extraction"] = u.extraction; r["assumptions"] = u.assumptions
    for l in re.findall(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+|proof\s+|const\s+|exec\s+|unsafe\s+)*(?:fn|struct|static)?\s*(\w+)|assume_specification[^\[]*\[\s*([^\]]+)\]", text): q = (l[0] or l[1]).strip(); w = getattr(u, "elsewhere", {}).get(q); r["trusted"].append("%s: contract of %s, %s" % (name, q, "established by " + w if w else "assumed"))
    r["trusted"] += ["Verus 0.2026.09.13, Z3 and vstd", "the mechanical extraction in tools/vx.py and proofs/%s.py" % name] + u.trusted
    bad = re.search(r"\b(assume|admit)\s*\(", text)
    if bad: r["why"] = "the unit contains " + bad.group(0); return r
    out, code, dt, cmd = verus(path, timeout, u.args); r["time"] = dt; r["cmd"] = cmd; r["log"] = out
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    es = errors(out, text)
    if not m:
        r["why"] = "Verus does not accept the extracted code: " + "; ".join("%s (%s)" % (a, owner(text, l)) for a, l in es[:3]); return r
    v, e = int(m.group(1)), int(m.group(2)); r["obligations"] = v + e; r["discharged"] = v
    if e == 0 and v > 0 and code == 0:
        if quick and getattr(u, "slow_vacuity", False): r["vacuity"] = baseline(name).get("vacuity", "not recorded") + " (recorded run; repeated in the thorough tier)"
        else:
            vacuity(name, repo, outdir, r)
            if r["why"]: return r
        if hasattr(mod, "post"):
            t1 = time.time()
            try: held, what = mod.post(u, outdir, text)
            except rustsrc.Lost as x: held, what = None, "lost anchor: %s" % x
            except Exception as x: held, what = None, "the checker stopped: %r" % x
            r["time"] += time.time() - t1; r["checked"] = what
            if held is None: r["why"] = what; return r
            if held is False and prop and not mod.speaks(prop, what): r["why"] = "a fact of other properties fails: " + what; return r
            if held is False: r["status"] = "failed"; r["why"] = what; r["failed"] = [what]; return r
        r["status"] = "proved"; return r
    fails = [(a, l) for a, l in es if any(k in a for k in FAILED)]; und = [(a, l) for a, l in es if (a, l) not in fails]
    base = baseline(name).get("hash")
    r["failed"] = ["%s in %s" % (a, owner(text, l)) for a, l in fails]
    if und and fails:  # a failed obligation counts unless its own function also ran out of resources
        un = {owner(text, l) for a, l in und if l}; keep = [(a, l) for a, l in fails if owner(text, l) not in un]
        if keep and all(l for a, l in und) and m: fails, und = keep, []; r["failed"] = ["%s in %s" % (a, owner(text, l)) for a, l in fails]
    if und or not fails: r["why"] = "Verus gives no answer: " + "; ".join("%s (%s)" % (a, owner(text, l)) for a, l in (und or es)[:3]); return r
    if prop:
        rel = [(a, l) for a, l in fails if concerns(prop, a, l, text, getattr(u, "props", {}))]
        if not rel: r["why"] = "obligations of other properties fail: " + "; ".join(r["failed"][:3]); return r
        r["failed"] = ["%s in %s" % (a, owner(text, l)) for a, l in rel]
    if base == h: r["why"] = "an obligation of unchanged code fails (verifier instability): " + "; ".join(r["failed"][:3]); return r
    r["status"] = "failed"; r["why"] = "; ".join(r["failed"][:4]); return r
if __name__ == "__main__":
    if sys.argv[1] == "--baseline":
        b = {}
        for f in sorted(os.listdir(VERIF + "/proofs")):
            if f.endswith(".py") and not f.startswith("_"):
                r = unit(f[:-3], "/repo", VERIF + "/build/proofs", "", False); print(f, r["status"], r["obligations"], r["discharged"], r["vacuity"], r["why"][:200], flush=True); b[f[:-3]] = {"hash": r.get("hash"), "vacuity": r["vacuity"], "obligations": r["obligations"]}
        json.dump(b, open(VERIF + "/proofs/baseline.json", "w"), indent=1)
    else:
        for n in sys.argv[1:]:
            r = unit(n, os.environ.get("VERIF_REPO", "/repo"), VERIF + "/build/proofs", ""); print(n, r["status"], r["why"], r["obligations"], r["discharged"], "%.1fs" % r["time"], r["vacuity"]); print(r["log"][-6000:] if r["status"] != "proved" else "")
