"""The verified checker of the LR tables: it answers true only if lr_ok holds of what it is given."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, _lr
CHECK = r"""
fn x_act(t: &Tab, s: usize, c: usize) -> (r: i16) requires s < t.ai.len(), c < t.nt, t.nt < 16000, t.ac.len() == t.av.len(), t.ad.len() == t.ai.len(), t.ai[s as int] + t.nt <= t.ac.len() ensures r == act(*t, s as int, c as int)
{ let i = t.ai[s] as usize + c; if t.ac[i] == c as i16 { if t.av[i] == 0x7FFE { t.ad[s] } else { t.av[i] } } else { 0x7FFF } }
fn x_go(t: &Tab, s: usize, n: usize) -> (r: i16) requires s < t.gi.len(), n < t.nn, t.nn < 16000, t.gc.len() == t.gv.len(), t.gi[s as int] + t.nn <= t.gc.len() ensures r == go(*t, s as int, n as int)
{ let i = t.gi[s] as usize + n; if t.gc[i] == n as i16 { t.gv[i] } else { -1 } }
fn x_has(a: &Ann, s: usize, r: u32, d: u32) -> (b: bool) requires s < a.items.len() ensures b ==> has(*a, s as int, r as int, d as int)
{ let v = &a.items[s]; let mut i = 0; let n = v.len();
  while i < n invariant n == v.len(), v == &a.items[s as int], s < a.items.len(), i <= n decreases n - i { if v[i].0 == r && v[i].1 == d { return true; } i += 1; } false }
fn x_shape(t: &Tab, a: &Ann) -> (b: bool) ensures b ==> shape(*t, *a)
{ if !(t.ac.len() == t.av.len() && t.ad.len() == t.ai.len() && t.gi.len() == t.ai.len() && t.gc.len() == t.gv.len() && 0 < t.ai.len() && t.ai.len() <= 32766) { return false; }
  if !(t.rlen.len() == t.rlhs.len() && a.rhs.len() == t.rlen.len() && a.items.len() == t.ai.len() && a.acc.len() == t.ai.len() && a.v.len() == t.ai.len()) { return false; }
  if !(t.nt < 16000 && t.nn < 16000) { return false; } let ny = (t.nt + t.nn) as usize;
  if !(a.nullable.len() == ny && a.lev.len() == ny && a.sz.len() == ny && t.end < t.nt && a.start < t.nt + t.nn && !a.acc[0] && t.nt + t.nn <= t.ws && t.ws < t.nkinds) { return false; }
  let mut s = 0; let n = t.ai.len();
  while s < n invariant n == t.ai.len(), t.gi.len() == n, s <= n, forall|k: int| #![trigger t.ai[k]] 0 <= k < s ==> t.ai[k] + t.nt <= t.ac.len(), forall|k: int| #![trigger t.gi[k]] 0 <= k < s ==> t.gi[k] + t.nn <= t.gc.len() decreases n - s
  { if t.ai[s] as u64 + t.nt as u64 > t.ac.len() as u64 || t.gi[s] as u64 + t.nn as u64 > t.gc.len() as u64 { return false; } s += 1; }
  true }
fn x_step(t: &Tab, a: &Ann, s: usize, x: usize, q: usize) -> (b: bool) requires shape(*t, *a), s < t.ai.len(), x < t.nt + t.nn ensures b ==> step_ok(*t, *a, s as int, x as int, q as int)
{ if q == 0 || q >= t.ai.len() { return false; }
  if a.acc[q] && !(s == 0 && x == a.start as usize) { return false; }
  if a.nullable[x] && !(a.v[q] <= a.v[s] && a.v[s] - a.v[q] >= a.sz[x]) { return false; }
  let v = &a.items[q]; let mut i = 0; let n = v.len();
  while i < n invariant shape(*t, *a), s < t.ai.len(), 0 < q < t.ai.len(), n == v.len(), v == &a.items[q as int], i <= n, forall|k: int| 0 <= k < i ==> #[trigger] back_ok(*t, *a, s as int, x as int, v[k]) decreases n - i
  { let r = v[i].0; let d = v[i].1;
    if d > 0 { if r as usize >= a.rhs.len() || d as usize > a.rhs[r as usize].len() || a.rhs[r as usize][d as usize - 1] as usize != x || !x_has(a, s, r, d - 1) { return false; } }
    i += 1; }
  true }
fn x_state(t: &Tab, a: &Ann, s: usize) -> (b: bool) requires shape(*t, *a), s < t.ai.len()
  ensures b ==> items_ok(*t, *a, s as int) && (forall|c: int| 0 <= c < t.nt ==> #[trigger] act_ok(*t, *a, s as int, c)) && (forall|n: int| 0 <= n < t.nn ==> #[trigger] goto_ok(*t, *a, s as int, n))
{ let mut c: usize = 0; let nt = t.nt as usize;
  while c < nt invariant shape(*t, *a), s < t.ai.len(), nt == t.nt, c <= nt, forall|k: int| 0 <= k < c ==> #[trigger] act_ok(*t, *a, s as int, k) decreases nt - c
  { let v = x_act(t, s, c);
    if v == 0x7FFF {} else if v > 0 { if c == t.end as usize || !x_step(t, a, s, c, (v - 1) as usize) { return false; } }
    else if v < 0 { if v == -32768 { return false; } let r = (-v - 1) as usize; if r >= t.rlen.len() { return false; } let l = a.rhs[r].len(); if l > 1000 || !x_has(a, s, r as u32, l as u32) { return false; } }
    else { if c != t.end as usize || !a.acc[s] { return false; } }
    c += 1; }
  let mut k: usize = 0; let nn = t.nn as usize;
  while k < nn invariant shape(*t, *a), s < t.ai.len(), nn == t.nn, k <= nn, forall|j: int| 0 <= j < k ==> #[trigger] goto_ok(*t, *a, s as int, j) decreases nn - k
  { let v = x_go(t, s, k); if v >= 0 { if !x_step(t, a, s, nt_of(t) + k, v as usize) { return false; } } k += 1; }
  let it = &a.items[s]; let mut i = 0; let n = it.len();
  while i < n invariant shape(*t, *a), s < t.ai.len(), n == it.len(), it == &a.items[s as int], i <= n, forall|j: int| 0 <= j < i ==> #[trigger] item_ok(*t, *a, s as int, it[j]) decreases n - i
  { let r = it[i].0 as usize; let d = it[i].1 as usize;
    if r >= a.rhs.len() || d > a.rhs[r].len() || (s == 0 && d != 0) { return false; }
    if d == 0 { let l = t.rlhs[r]; if l >= t.nn || x_go(t, s, l as usize) < 0 { return false; } }
    i += 1; }
  true }
fn nt_of(t: &Tab) -> (r: usize) ensures r == t.nt { t.nt as usize }
fn x_others(a: &Ann, x: &Vec<u32>, j: usize) -> (b: bool) requires forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]) < a.nullable.len() ensures b == others_nullable(*a, x@, j as int)
{ let mut i: usize = 0; let n = x.len();
  while i < n invariant n == x.len(), i <= n, forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]) < a.nullable.len(), forall|k: int| 0 <= k < i && k != j ==> a.nullable[#[trigger] x@[k] as int] decreases n - i
  { if i != j && !a.nullable[x[i] as usize] { assert(!a.nullable[x@[i as int] as int]); return false; } i += 1; }
  true }
fn x_rule(t: &Tab, a: &Ann, r: usize) -> (b: bool) requires shape(*t, *a), r < t.rlen.len() ensures b ==> rule_ok(*t, *a, r as int)
{ let x = &a.rhs[r]; let n = x.len(); if t.rlen[r] != n || t.rlhs[r] >= t.nn || n > 1000 { return false; }
  let l = (t.nt + t.rlhs[r]) as usize; let mut i: usize = 0; let mut all = true; let mut sum: u64 = 0;
  while i < n invariant shape(*t, *a), x == &a.rhs[r as int], r < t.rlen.len(), n == x.len(), n <= 1000, i <= n, forall|k: int| 0 <= k < i ==> (#[trigger] x@[k]) < t.nt + t.nn, all ==> forall|k: int| 0 <= k < i ==> a.nullable[#[trigger] x@[k] as int],
      !all ==> exists|k: int| 0 <= k < i && !a.nullable[#[trigger] x@[k] as int], all ==> sum == sumsz(*a, x@.take(i as int)), sum <= i * 0x1_0000_0000 decreases n - i
  { let y = x[i]; if y >= t.nt + t.nn { return false; } if a.sz[y as usize] > 0xFFFF_FFFF { return false; }
    proof { assert(x@.take(i as int + 1).drop_last() =~= x@.take(i as int)); assert(x@.take(i as int + 1).last() == y); }
    if !a.nullable[y as usize] { all = false; assert(!a.nullable[x@[i as int] as int]); } sum += a.sz[y as usize]; i += 1; }
  proof { assert(x@.take(n as int) =~= x@); }
  if all && (!a.nullable[l] || a.sz[l] <= sum) { return false; }
  let mut j: usize = 0;
  while j < n invariant shape(*t, *a), x == &a.rhs[r as int], r < t.rlen.len(), n == x.len(), j <= n, l == t.nt + t.rlhs[r as int], t.rlhs[r as int] < t.nn, forall|k: int| 0 <= k < n ==> (#[trigger] x@[k]) < t.nt + t.nn, forall|k: int| 0 <= k < j ==> #[trigger] unit_ok(*t, *a, x@, l as int, k) decreases n - j
  { if x_others(a, x, j) && !(a.lev[x[j] as usize] < a.lev[l] && a.lev[l] <= a.levmax) { return false; } j += 1; }
  true }
// 0: everything holds; otherwise what does not: 1 shape, 2 state, 3 rule
pub fn check(t: &Tab, a: &Ann) -> (b: (u32, usize)) ensures b.0 == 0 ==> lr_ok(*t, *a)
{ if !x_shape(t, a) { return (1, 0); }
  let mut s: usize = 0; let n = t.ai.len();
  while s < n invariant shape(*t, *a), n == t.ai.len(), s <= n, forall|k: int| 0 <= k < s ==> #[trigger] items_ok(*t, *a, k), forall|k: int, c: int| 0 <= k < s && 0 <= c < t.nt ==> #[trigger] act_ok(*t, *a, k, c),
     forall|k: int, c: int| 0 <= k < s && 0 <= c < t.nn ==> #[trigger] goto_ok(*t, *a, k, c) decreases n - s
  { if !x_state(t, a, s) { return (2, s); } s += 1; }
  let mut r: usize = 0; let m = t.rlen.len();
  while r < m invariant shape(*t, *a), m == t.rlen.len(), r <= m, forall|k: int| 0 <= k < r ==> #[trigger] rule_ok(*t, *a, k) decreases m - r
  { if !x_rule(t, a, r) { return (3, r); } r += 1; }
  (0, 0) }
"""
def build(u):
    u.add(_lr.LR); u.add("//@fn check\n" + CHECK + "\n//@end"); u.functions.append("check and its parts (verified checker, run on the real tables)")
    return u
P = "crates/postgresql-cst-parser/src/parser.rs"
def dump(u):
    """the tables as they stand in parser.rs, and the numbers of names and token kinds"""
    import re, driver, _cst
    try: x = open(u.repo + "/" + P).read()
    except OSError: raise vx.Lost(P)
    out = []
    for n, k in (("ACTION_CHECK_TABLE", "ac"), ("ACTION_TABLE", "av"), ("ACTION_TABLE_INDEX", "ai"), ("ACTION_DEF_RULE_TABLE", "ad"), ("GOTO_CHECK_TABLE", "gc"), ("GOTO_TABLE", "gv"), ("GOTO_TABLE_INDEX", "gi")):
        m = re.search(r"static %s: \[\w+; (\d+)\] = \[([-0-9_,\s]*)\];" % n, x)
        if not m: raise vx.Lost("static " + n)
        v = [str(int(y)) for y in m.group(2).replace("_", "").replace("\n", " ").split(",") if y.strip()]
        if len(v) != int(m.group(1)): raise vx.Lost("static %s: %d values" % (n, len(v)))
        out.append(k + "\t" + " ".join(v))
    m = re.search(r"static RULES: \[Rule; (\d+)\] = \[(.*?)\];", x, re.S)
    if not m: raise vx.Lost("static RULES")
    rs = re.findall(r'Rule\s*\{\s*name\s*:\s*"([^"]*)"\s*,\s*len\s*:\s*(\d+)\s*,?\s*\}', m.group(2))
    if len(rs) != int(m.group(1)): raise vx.Lost("static RULES: %d entries" % len(rs))
    out += ["rlen\t" + " ".join(l for _, l in rs), "lhs\t" + " ".join(n for n, _ in rs)]
    m = re.search(r"fn rule_name_to_component_id\(\w+: &str\) -> u32 \{\s*match \w+ \{(.*?)\n    \}\n\}", x, re.S)
    if not m: raise vx.Lost("rule_name_to_component_id")
    arms = [a.strip() for a in m.group(1).strip().splitlines()]; seen = set()
    for a in arms:
        k = re.match(r'"([^"]+)" => (\d+),$', a)
        if k:
            if k.group(1) not in seen: out.append("nt_name\t%s\t%s" % k.groups()); seen.add(k.group(1))
        elif not re.match(r"_ => (unreachable|panic|unimplemented)!\(.*\),?$", a): raise vx.Lost("rule_name_to_component_id: " + a)
    m = re.search(r"fn token_kind_to_component_id\(\w+: &TokenKind\) -> Option<u32> \{\s*let (\w+) = match \w+ \{(.*?)\n    \};\s*Some\(\1\)\s*\}", x, re.S)
    if not m: raise vx.Lost("token_kind_to_component_id")
    seen = set()
    for a in m.group(2).strip().splitlines():
        a = a.strip(); k = re.match(r'TokenKind::(KEYWORD|RAW)\((\w+)\) if \2 == "((?:[^"\\])+)" => (\d+),$', a); j = re.match(r"TokenKind::(\w+) => (\d+),$", a)
        if k: key, val = k.group(1) + " " + k.group(3), k.group(4)
        elif j: key, val = j.groups()
        elif a == "_ => return None,": continue
        else: raise vx.Lost("token_kind_to_component_id: " + a)
        if key == "RAW $end": key = "$end"
        if key not in seen: out.append("t_name\t%s\t%s" % (key, val)); seen.add(key)
    v = vx.Unit("numbers", u.repo); driver.small_parser(v); names = _cst.kinds(v)
    out.append("head\t%d %d %d %d %d" % (driver.literal(v, "num_terminal_symbol")[1], driver.literal(v, "num_non_terminal_symbol")[1], driver.literal(v, "end_rule_id")[1], names.index("Whitespace"), len(names)))
    return "\n".join(out) + "\n"
def post(u, outdir, source):
    """runs the verified checker on the tables of parser.rs and the rules of gram.y: (held, what)"""
    import subprocess
    d = outdir + "/lr.dump"; open(d, "w").write(dump(u)); here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
    m = open(here + "/lrmain.rs").read().replace("@GRAMMAR@", verif + "/replay/src/grammar.rs"); f = outdir + "/lrtab.rs"; exe = outdir + "/lrtab"
    open(f, "w").write(source.replace("fn main() {}\n", "") + m)
    p = subprocess.run(["verus", f, "--compile", "--no-verify", "--triggers-mode", "silent", "-C", "opt-level=3", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=outdir, timeout=300)
    if p.returncode: return None, "the checker does not compile: " + p.stdout[-800:]
    p = subprocess.run([exe, d, u.repo + "/crates/parser-generator/resources/gram.y"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    l = p.stdout.strip().splitlines()[-1:] or [""]
    if l[0].startswith("LR-OK"): return True, l[0]
    if l[0].startswith("BAD"): return False, l[0][4:]
    return None, "the checker stopped: " + p.stdout[-500:]
def speaks(prop, what):
    """a wrong entry concerns the derivation (C12) and the agreement with the grammar (C13); shapes and cycles concern crashes and termination (C01)"""
    return prop in ("C12", "C13") or (prop == "C01" and not what.startswith("state"))
