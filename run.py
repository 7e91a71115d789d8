#!/usr/bin/env python3
"""Decides one property of /repo's current tree.  See DESIGN.md.

  python3 run.py --property C01 [--tier quick|thorough]     exit 0 held, 1 VIOLATION printed, 2 error of the check
  python3 run.py --setup                                    builds everything once
"""
import argparse, fcntl, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, VERIF + "/tools")
REPO = os.environ.get("VERIF_REPO", "/repo"); B = VERIF + "/build"
GRAM = REPO + "/crates/parser-generator/resources/gram.y"; SCAN = REPO + "/crates/lexer-generator/resources/scan.l"
import plan

class Broken(Exception): pass
log_lines = []
def log(s): log_lines.append(s); print(s, flush=True)
def run(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e, cwd=cwd, start_new_session=True)
    try: o, r = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, r = p.communicate(); return 124, o, r
    return p.returncode, o, r

# ------------------------------------------------------------------ builds
def cargo(cwd, target, args, hooks):
    env = {"CARGO_TARGET_DIR": target, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}
    env["RUSTFLAGS"] = "--cfg verif_hooks" if hooks else ""
    return run(["cargo", "build", "--release", "--offline", "-q"] + args, env=env, cwd=cwd, timeout=600)
BUILDS = {"replay": [], "full": ["--no-default-features"], "regexm": ["--features", "regexm"]}
notes = []
def replay_crate():
    d = VERIF + "/replay"
    if REPO == "/repo": return d
    t = B + "/replay-src"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t, ignore=shutil.ignore_patterns("target"))
    for f in ("Cargo.toml",): s = open(t + "/" + f).read().replace("/repo/", REPO + "/"); open(t + "/" + f, "w").write(s)
    return t
def build(name):
    """path of the replay binary; without the hooks when they no longer compile"""
    d = replay_crate(); err = ""
    for hooks in (True, False):
        t = B + "/" + name + ("" if hooks else "-nohooks")
        c, _, e = cargo(d, t, BUILDS[name], hooks)
        if c == 0:
            if not hooks: notes.append("the verification hooks do not compile against this tree; built without them: %s" % err[-300:])
            return t + "/release/replay"
        err = e
    raise Broken("the replay crate does not build against /repo:\n" + err[-3000:])
def build_gencheck(flex=False):
    import assemble_gencheck, rustsrc
    d = B + "/gencheck"; last = ""
    for extracted in (True, False):
        try: assemble_gencheck.assemble(REPO, VERIF, d, extracted)
        except rustsrc.Lost as x: last = "extraction: %s" % x; continue
        c, _, e = cargo(d, d + ("/target-flex" if flex else "/target"), ["--features", "flex"] if flex else [], False)
        if c == 0:
            if not extracted: notes.append("gencheck uses its own copy of the table look-up functions: %s" % last[-300:])
            return d + ("/target-flex" if flex else "/target") + "/release/gencheck"
        last = e
    notes.append("the generator sources no longer compile inside the checker, so the generators were not exercised: " + last[-600:])
    return None

# ------------------------------------------------------------------ stages: each returns (violations, coverage)
def parse_out(out):
    st, fails = {}, []
    for l in out.splitlines():
        if l.startswith("STATS "):
            try: st = json.loads(l[6:])
            except ValueError: pass
        elif l.startswith("FAIL "): fails.append(l[5:].split(" ", 2))
    return st, fails
def save(prop, name, obj):
    d = B + "/replays"; os.makedirs(d, exist_ok=True); f = "%s/%s-%s.json" % (d, prop, name)
    json.dump(obj, open(f, "w"), indent=1); return f
def fuzz(prop, a, binary, secs):
    d = B + "/replays"; cur = B + "/cur"; os.makedirs(cur, exist_ok=True)
    c, out, err = run([binary, "fuzz", prop, "--seed", str(a.seed), "--secs", str(secs), "--out", d, "--cur", cur, "--gram", GRAM], timeout=secs + 120)
    st, fails = parse_out(out); viol = [(f[1], f[2] if len(f) > 2 else "") for f in fails]
    if c not in (0, 1, 124) and not fails:
        m = [l for l in out.splitlines() if l.startswith(("INTERNAL", "ERROR"))]
        if m: notes.append("replay stopped: " + m[0][:500]); return viol, st
        # the process died: find the input among the current ones
        for th in range(8):
            try: b = open("%s/%s-cur-%d" % (cur, prop, th), "rb").read(); n = int.from_bytes(b[:8], "little"); s = b[8:8 + n].decode()
            except Exception: continue
            f = save(prop, "crash%d" % th, {"property": prop, "kind": "input", "input": s, "finding": "the process dies"})
            r, o, _ = run([binary, "one", prop, f, "--gram", GRAM], timeout=60)
            if r not in (0, 1, 3): return [(f, "the process dies with code %d" % r)], st
        notes.append("replay ended with code %d and no single input repeats it" % c)
    if c == 124: notes.append("replay did not end in time")
    return viol, st
def tables(prop, a, binary):
    c, out, err = run([binary, "tables", prop, "--out", B + "/replays", "--gram", GRAM], timeout=600)
    if "NOHOOKS" in out: notes.append("tables not compared: no hooks"); return [], {}
    _, fails = parse_out(out); m = re.search(r"^COUNT (\d+)", out, re.M)
    if c not in (0, 1): notes.append("table comparison stopped: " + (out + err)[-400:])
    return [(f[1], f[2] if len(f) > 2 else "") for f in fails], {"table_entries_compared": int(m.group(1)) if m else 0}
def gencheck(prop, a, binary, secs, gram):
    if prop == "C10": cmd = [binary, "C10", "--scan", SCAN, "--out", B + "/replays"]
    else: cmd = [binary, prop, "--seed", str(a.seed), "--secs", str(secs), "--out", B + "/replays"] + (["--gram", GRAM] if gram else [])
    if prop in ("C21", "C22"): cmd += ["--scan", SCAN]
    cases = B + "/lalr.cases"
    if prop == "C18": cmd += ["--dump", cases, "--dumps", "5000" if secs < 100 else "50000"]
    c, out, err = run(cmd, timeout=secs + 420)
    st, fails = parse_out(out); m = re.search(r"^COUNT (\d+)", out, re.M)
    if m: st["automaton_steps_compared" if prop != "C21" else "rules_of_scan_l_compared"] = int(m.group(1))
    if c not in (0, 1): notes.append("generator check stopped (code %d): %s" % (c, (out + err)[-400:]))
    if prop == "C18" and c == 0 and not fails:
        v, x = certify(prop, cases); st.update(x); fails += v
    return [(f[1], f[2] if len(f) > 2 else "") for f in fails], st
def certify(prop, cases):
    """the tables the generator made, through the verified checker of unit lalr"""
    exe = B + "/proofs/lalrtab"
    if not os.path.exists(exe): notes.append("the generated tables were not put through the verified checker: it is not built"); return [], {}
    c, out, err = run([exe, cases], timeout=400); l = (out.strip().splitlines() or [""])[-1]; os.remove(cases)
    if l.startswith("BAD "):
        title, _, why = l[4:].rpartition(": state "); f = save(prop, "certify", {"property": prop, "kind": "program", "program": title, "finding": l[4:]}); return [(prop, f, l[4:])], {}
    if not l.startswith("LALR-OK"): notes.append("the verified checker stopped on a generated table: %s" % (out + err)[-400:]); return [], {}
    return [], {"certified_" + k: int(v) for k, v in (w.split("=") for w in l.split()[1:])}
def outcomes(prop, a, b1, b2, n, secs):
    res = []
    for b in (b1, b2):
        c, out, err = run([b, "outcomes", prop, "--seed", str(a.seed), "--n", str(n), "--secs", str(secs), "--gram", GRAM], timeout=secs + 120)
        if c != 0: notes.append("comparison of builds stopped: code %d" % c); return [], {}
        res.append(dict(l.split() for l in out.splitlines() if re.match(r"^\d+ [0-9a-f]{16}$", l)))
    both = [k for k in res[0] if k in res[1]]; diff = [k for k in both if res[0][k] != res[1][k]]; viol = []
    for k in sorted(diff, key=int)[:200]:
        _, s, _ = run([b1, "input", prop, str(a.seed), k, "--gram", GRAM], timeout=60)
        f = save(prop, "builds", {"property": prop, "kind": "input", "input": json.loads(s), "finding": "the two builds disagree"})
        o = [run([b, "outcome", f, "--gram", GRAM], timeout=60)[1] for b in (b1, b2)]
        if o[0] != o[1]: viol.append((len(s), json.loads(s), o))
    if not viol: return [], {"inputs_compared_between_builds": len(both), "distinct_outcomes": len(set(res[0].values()))}
    _, s, o = min(viol, key=lambda v: v[0])
    f = save(prop, "builds", {"property": prop, "kind": "input", "input": s, "finding": "the two builds disagree", "outcomes": [x[:4000] for x in o]})
    return [(f, "the two builds disagree")], {"inputs_compared_between_builds": len(both)}

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--property"); ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--secs", type=int)
    ap.add_argument("--no-proof", action="store_true"); ap.add_argument("--no-fuzz", action="store_true")
    a = ap.parse_args(); a.seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(B, exist_ok=True)
    lock = open(B + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    if a.setup:
        for n in BUILDS: build(n)
        build_gencheck(); build_gencheck(True); print("built"); return 0
    p = a.property; pl = plan.PLAN[p]; t0 = time.time(); quick = a.tier != "thorough"
    secs = a.secs or (pl.get("secs", 25) if quick else pl.get("tsecs", 240))
    viol, cov, stages = [], {}, []
    def stage(name, r):
        v, c = r; viol.extend((f, m, name) for f, m in v); stages.append({"stage": name, **c})
        for k, x in c.items():
            if isinstance(x, int) and k in cov: cov[k] += x
            else: cov.setdefault(k, x)
    proofs = []
    if pl.get("units") and not a.no_proof:
        import prove
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex: rs = list(ex.map(lambda u: prove.unit(u, REPO, B + "/proofs", p, quick), pl["units"]))
        for u, r in zip(pl["units"], rs):
            proofs.append(r)
            log("proof unit %s: %s, %d obligations, %d discharged, %.1f s%s" % (u, r["status"], r["obligations"], r["discharged"], r["time"], "" if r["status"] == "proved" else " -- " + r["why"][:300]))
    if not a.no_fuzz:
        st = pl["stages"]
        need = set(x.split(":")[1] for x in st if ":" in x) | ({"replay"} if any(x in ("fuzz", "tables") for x in st) else set())
        bins = {}
        if any(x in ("fuzz", "tables", "outcomes:full", "outcomes:regexm") for x in st): bins["replay"] = build("replay")
        for n in need:
            if n in BUILDS and n not in bins: bins[n] = build(n)
        for x in st:
            if viol: break
            if x == "fuzz": stage("bounded replay against the reference", fuzz(p, a, bins["replay"], secs))
            elif x == "tables": stage("exhaustive table comparison", tables(p, a, bins["replay"]))
            elif x.startswith("outcomes:"): stage("comparison of two builds", outcomes(p, a, bins["replay"], bins[x.split(":")[1]], pl.get("n", 20000) * (1 if quick else 8), secs * 2))
            elif x.startswith("gencheck"):
                g = build_gencheck(p in ("C21", "C22"))
                if g: stage("generator check", gencheck(p, a, g, secs, x == "gencheck+gram" or not quick))
    for s in stages: log("stage %s" % json.dumps({k: v for k, v in s.items() if k != "samples"}))
    # ---------------------------------------------------------------- verdict
    known = []
    if os.path.exists(VERIF + "/known_findings.txt"):
        for l in open(VERIF + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) input=(\S.*?) what=(.*)$", l.strip())
            if m and m.group(1) == p: known.append((json.loads(m.group(2)), m.group(3)))
    lines, real = [], []
    for i, w in known: lines.append("KNOWN-FINDING: property=%s %s" % (p, w))
    for f, m, s in viol:
        try: inp = json.load(open(f)).get("input")
        except Exception: inp = None
        if inp is not None and any(inp == k[0] for k in known): continue
        real.append("VIOLATION property=%s replay=%s" % (p, f)); log("%s: %s" % (s, m[:500]))
    if not real:
        for r in proofs:
            if r["status"] == "failed":
                f = save(p, "proof-" + r["unit"], {"property": p, "kind": "obligation", "unit": r["unit"], "failed": r["failed"], "verifier_output": r["log"][-20000:], "checker": r["cmd"]})
                real.append("VIOLATION property=%s replay=%s no-failing-input-found" % (p, f)); log("failed obligations: %s" % "; ".join(r["failed"])[:800]); break
    ob = sum(r["obligations"] for r in proofs); di = sum(r["discharged"] for r in proofs)
    coverage = {}
    if proofs:
        coverage.update(obligations=ob, discharged=di, checker_cmd=" ; ".join(r["cmd"] for r in proofs), trusted_base=sorted(set(x for r in proofs for x in r["trusted"])),
            functions_under_contract=[x for r in proofs for x in r["functions"]], solver_seconds=round(sum(r["time"] for r in proofs), 2), backend="Verus (Z3)",
            units=[{k: r[k] for k in ("unit", "status", "why", "obligations", "discharged", "time", "extraction", "vacuity")} for r in proofs])
    if stages:
        coverage.update(bounded_stages=[{k: v for k, v in s.items() if k != "samples"} for s in stages])
        coverage["evaluations"] = cov.get("evaluations", 0) + cov.get("table_entries_compared", 0) + cov.get("automaton_steps_compared", 0) + cov.get("inputs_compared_between_builds", 0)
        coverage["distinct_nontrivial"] = cov.get("distinct", 0) + cov.get("table_entries_compared", 0) + cov.get("automaton_steps_compared", 0) + cov.get("distinct_outcomes", 0)
        coverage["rule"] = pl["rule"]; coverage["samples"] = cov.get("samples") or pl.get("samples", ["every entry of the tables"])
    if pl["level"] == "translation_validation": coverage["programs"] = cov.get("certified_grammars", 0); coverage["disagreements_checked"] = cov.get("evaluations", 0)
    if notes: coverage["degraded"] = notes
    ev = {"property": p, "tier": "quick" if quick else "thorough", "seed": a.seed, "level": pl["level"], "coverage": coverage,
          "assumptions": pl.get("assumptions", []) + sorted(set(x for r in proofs for x in r["assumptions"])), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    os.makedirs(VERIF + "/evidence", exist_ok=True); json.dump(ev, open("%s/evidence/%s.json" % (VERIF, p), "w"), indent=1, ensure_ascii=False)
    for n in notes: log("note: " + n)
    for l in lines + real: print(l, flush=True)
    print("%s: %s in %.1f s" % (p, "violated" if real else "held", time.time() - t0)); return 1 if real else 0
if __name__ == "__main__":
    try: sys.exit(main())
    except Broken as x: print("ERROR: %s" % x); sys.exit(2)
