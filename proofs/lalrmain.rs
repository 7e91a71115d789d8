// Untrusted part of the LALR check: reads tables and a grammar, computes certificates, asks the verified checker.
#[path = "@GRAMMAR@"] mod grammar;
use std::collections::{BTreeMap, HashMap};
fn main() { std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap().join().unwrap(); }
fn bad(m: String) -> ! { println!("BAD {}", m); std::process::exit(1) }
// the LR(0) automaton of a grammar, as a certificate
fn automaton(g: &Gram) -> Aut {
    let mut index: HashMap<Vec<(u32, u32)>, usize> = HashMap::new(); let start = vec![(g.lhs.len() as u32 - 1, 0u32)]; index.insert(start.clone(), 0); let mut kernels = vec![start];
    let mut m = Aut { it: vec![], first: vec![], kern: vec![], sof: vec![], src: vec![], via: vec![], dst: vec![], grp: vec![], ex: vec![], et: vec![], es: vec![], efirst: vec![], kb: vec![], bk: vec![] };
    let mut s = 0; let nt = g.nt as usize;
    while s < kernels.len() {
        let f = m.it.len(); m.first.push(f); m.kern.push(kernels[s].len()); m.efirst.push(m.ex.len());
        for &k in &kernels[s] { m.it.push(k); m.src.push(0); }
        let mut seen = vec![usize::MAX; g.nn as usize]; let mut i = f;
        while i < m.it.len() {
            let (r, d) = m.it[i]; let mut gr = 0;
            if let Some(&x) = g.rhs[r as usize].get(d as usize) { if x as usize >= nt { let n = x as usize - nt; if seen[n] == usize::MAX { seen[n] = m.it.len(); for &q in &g.by[n] { m.it.push((q, 0)); m.src.push(i); } } gr = if g.by[n].is_empty() { 0 } else { seen[n] }; } }
            m.grp.push(gr); m.sof.push(s); i += 1;
        }
        let mut next: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
        for i in f..m.it.len() { let (r, d) = m.it[i]; if let Some(&x) = g.rhs[r as usize].get(d as usize) { next.entry(x).or_default().push(i); } }
        m.via.resize(m.it.len(), 0);
        for (x, mut is) in next {
            is.sort_by_key(|&i| m.it[i]); let mut k: Vec<(u32, u32)> = vec![]; let mut back = vec![]; let e = m.ex.len();
            for &i in &is { m.via[i] = e; let y = (m.it[i].0, m.it[i].1 + 1); if k.last() != Some(&y) { k.push(y); back.push(i); } }
            let q = match index.get(&k) { Some(&q) => q, None => { let q = kernels.len(); index.insert(k.clone(), q); kernels.push(k); q } };
            m.ex.push(x); m.et.push(q); m.es.push(s); m.kb.push(m.bk.len()); m.bk.extend(back);
        }
        s += 1;
    }
    m.first.push(m.it.len()); m.efirst.push(m.ex.len());
    m.dst = (0..m.it.len()).map(|i| { let (r, d) = m.it[i]; if (d as usize) < g.rhs[r as usize].len() { let q = m.et[m.via[i]]; let f = m.first[q]; f + m.it[f..f + m.kern[q]].binary_search(&(r, d + 1)).unwrap() } else { 0 } }).collect();
    m
}
fn decide(g: &Gram, t: &Tab, name: &dyn Fn(u32) -> String) -> Result<String, String> {
    let m = automaton(g); let n = m.kern.len(); let nt = g.nt as usize;
    let inside = |v: &Vec<i16>, i: usize| -> i64 { v.get(i).map(|&x| x as i64).unwrap_or(-99) };
    let act = |s: usize, c: usize| -> i64 { let i = t.ai.get(s).copied().unwrap_or(u32::MAX) as usize + c; if inside(&t.ac, i) == c as i64 { let v = inside(&t.av, i); if v == 0x7FFE { inside(&t.ad, s) } else { v } } else { 0x7FFF } };
    let go = |s: usize, c: usize| -> i64 { let i = t.gi.get(s).copied().unwrap_or(u32::MAX) as usize + c; if inside(&t.gc, i) == c as i64 { inside(&t.gv, i) } else { -1 } };
    let mut to = vec![usize::MAX; n]; to[0] = 0; let mut from: Vec<Option<usize>> = vec![None; n]; let mut q = std::collections::VecDeque::from([0usize]);
    while let Some(p) = q.pop_front() { for e in m.efirst[p]..m.efirst[p + 1] { let x = m.ex[e] as usize; let v = if x < nt { let v = act(to[p], x); if v > 0 && v < 0x7FFF { v - 1 } else { -1 } } else { go(to[p], x - nt) }; let k = m.et[e]; if v >= 0 && to[k] == usize::MAX { to[k] = v as usize; from[k] = Some(e); q.push_back(k); } } }
    let (what, q, a) = check(g, t, &m, &to);
    let path = |mut q: usize| -> String { let mut p = vec![]; while let Some(e) = from[q] { p.push(name(m.ex[e])); q = m.es[e]; } p.reverse(); p.join(" ") };
    let mean = |v: i64| -> String { if v == 0x7FFF { "an error".into() } else if v == 0 { "accept".into() } else if v > 0 { format!("shift to {}", v - 1) } else { format!("reduce by rule {}", -v - 1) } };
    match what {
        0 => Ok(format!("states={} reached={} items={} actions={} gotos={}", n, to.iter().filter(|&&x| x < t.ai.len()).count(), m.it.len(), n * nt, n * g.nn as usize)),
        4 => Err("the tables do not have the right shape (offsets, lengths)".into()),
        5 => { let v = act(to[q], a); let e = x_edge(&m, q, a as u32); Err(format!("state {} (reached over: {}): the action on {} is {}, which LALR(1) with the precedences does not give ({})", to[q], path(q), name(a as u32), mean(v), match e { None => "no item shifts it".to_string(), Some(e) => format!("shift leads to state {}", to[m.et[e]] as i64) })) }
        6 => { let v = go(to[q], a); let e = x_edge(&m, q, g.nt + a as u32); Err(format!("state {} (reached over: {}): the goto on {} is {}{}", to[q], path(q), name(g.nt + a as u32), v, match e { None => ", no item has it next".to_string(), Some(e) => format!(" instead of {}", to[m.et[e]] as i64) })) }
        _ => Err(format!("?the certificate was rejected ({} {} {})", what, q, a)),
    }
}
fn fill(g: &mut Gram) { g.by = vec![vec![]; g.nn as usize]; g.at = vec![0; g.lhs.len()]; for r in 0..g.lhs.len() - 1 { let n = (g.lhs[r].wrapping_sub(g.nt)) as usize; if n >= g.by.len() { bad(format!("rule {} has no nonterminal on its left", r)); } g.at[r] = g.by[n].len() as u32; g.by[n].push(r as u32); } }
fn real() {
    let a: Vec<String> = std::env::args().collect(); let file = std::fs::read_to_string(&a[1]).unwrap();
    if a.len() == 2 { return cases(&file); }
    let raw = grammar::read(&std::fs::read_to_string(&a[2]).unwrap());
    let mut nums: HashMap<&str, Vec<i64>> = Default::default(); let mut names: HashMap<String, u32> = Default::default(); let mut kinds: HashMap<String, u32> = Default::default(); let mut lhs_names: Vec<&str> = vec![];
    for l in file.lines() {
        let (k, v) = l.split_once('\t').unwrap();
        match k { "nt_name" => { let (n, i) = v.rsplit_once('\t').unwrap(); names.insert(n.to_string(), i.parse().unwrap()); } "t_name" => { let (n, i) = v.rsplit_once('\t').unwrap(); kinds.insert(n.to_string(), i.parse().unwrap()); }
            "lhs" => lhs_names = v.split(' ').collect(), _ => { nums.insert(k, v.split(' ').map(|x| x.parse().unwrap()).collect()); } }
    }
    let h: Vec<u32> = nums["head"].iter().map(|&x| x as u32).collect(); let (nt, nn, end) = (h[0], h[1], h[2]);
    let is_nt: std::collections::HashSet<&str> = raw.rules.iter().map(|r| r.0.as_str()).collect();
    let number = |s: &str| -> u32 {
        if is_nt.contains(s) { return nt + names.get(s).copied().unwrap_or_else(|| bad(format!("nonterminal {} has no number", s))); }
        let c: Vec<char> = s.chars().collect(); let key = if c.len() == 3 && c[0] == '\'' { format!("RAW {}", c[1]) } else if kinds.contains_key(s) { s.to_string() } else { format!("KEYWORD {}", s) };
        kinds.get(&key).copied().unwrap_or_else(|| bad(format!("terminal {} has no number", s)))
    };
    let nr = raw.rules.len();
    if lhs_names.len() != nr && lhs_names.len() != nr + 1 { bad(format!("{} rules in the tables, {} in the grammar", lhs_names.len(), nr)); }
    for (i, r) in raw.rules.iter().enumerate() { if lhs_names[i] != r.0 { bad(format!("rule {} is for {} instead of {}", i, lhs_names[i], r.0)); } }
    let mut g = Gram { nt, nn, end, lhs: raw.rules.iter().map(|r| number(&r.0)).collect(), rhs: raw.rules.iter().map(|r| r.1.iter().map(|s| number(s)).collect()).collect(), over: raw.rules.iter().map(|r| r.2.as_ref().map(|s| number(s)).unwrap_or(u32::MAX)).collect(), tlev: vec![0; nt as usize], tdir: vec![2; nt as usize], by: vec![], at: vec![] };
    g.lhs.push(nt + nn); g.rhs.push(vec![number(&raw.rules[0].0)]); g.over.push(u32::MAX);
    for (s, p, d) in &raw.assoc { let x = number(s) as usize; if x >= nt as usize { bad(format!("{} has a precedence and is no terminal", s)); } g.tlev[x] = *p as u32; g.tdir[x] = match d { grammar::Assoc::Left => 0, grammar::Assoc::Right => 1, grammar::Assoc::Non => 2 }; }
    fill(&mut g); let t = tables(&nums, nt, nn, end);
    for r in 0..lhs_names.len() { if t.rlen[r] != g.rhs[r].len() { bad(format!("rule {} ({}) has length {} instead of {}", r, lhs_names[r], t.rlen[r], g.rhs[r].len())); } }
    let name = |x: u32| -> String { if x >= nt { names.iter().find(|e| *e.1 == x - nt).map(|e| e.0.clone()) } else { kinds.iter().find(|e| *e.1 == x).map(|e| e.0.clone()) }.unwrap_or_else(|| x.to_string()) };
    match decide(&g, &t, &name) { Ok(s) => println!("LALR-OK rules={} {}", nr + 1, s), Err(e) if e.starts_with('?') => { println!("STOPPED {}", &e[1..]); std::process::exit(2) } Err(e) => bad(e) }
}
fn tables(nums: &HashMap<&str, Vec<i64>>, nt: u32, nn: u32, end: u32) -> Tab {
    let i16s = |k: &str| -> Vec<i16> { nums[k].iter().map(|&x| i16::try_from(x).unwrap_or_else(|_| bad(format!("{}: {} is too large", k, x)))).collect() }; let u32s = |k: &str| -> Vec<u32> { nums[k].iter().map(|&x| u32::try_from(x).unwrap()).collect() };
    Tab { ac: i16s("ac"), av: i16s("av"), ai: u32s("ai"), ad: i16s("ad"), gc: i16s("gc"), gv: i16s("gv"), gi: u32s("gi"), rlen: nums.get("rlen").map(|v| v.iter().map(|&x| x as usize).collect()).unwrap_or_default(), rlhs: vec![], nt, nn, end, ws: 0, nkinds: 0 }
}
// many numbered grammars and tables: case NAME, then lines of numbers, then end
fn cases(file: &str) {
    let mut nums: HashMap<&str, Vec<i64>> = Default::default(); let mut title = ""; let mut rhs: Vec<Vec<u32>> = vec![]; let (mut n, mut states, mut items) = (0u64, 0u64, 0u64);
    for l in file.lines() {
        let (k, v) = l.split_once('\t').unwrap_or((l, "")); let list = || -> Vec<i64> { v.split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
        match k { "case" => { nums.clear(); rhs.clear(); title = v; } "rule" => rhs.push(list().iter().map(|&x| x as u32).collect()),
            "end" => {
                let h = &nums["head"]; let (nt, nn, end) = (h[0] as u32, h[1] as u32, h[2] as u32);
                let mut g = Gram { nt, nn, end, lhs: nums["lhs"].iter().map(|&x| x as u32).collect(), rhs: rhs.clone(), over: nums["over"].iter().map(|&x| if x < 0 { u32::MAX } else { x as u32 }).collect(), tlev: nums["tlev"].iter().map(|&x| x as u32).collect(), tdir: nums["tdir"].iter().map(|&x| x as u8).collect(), by: vec![], at: vec![] };
                fill(&mut g); let t = tables(&nums, nt, nn, end);
                match decide(&g, &t, &|x| x.to_string()) { Ok(s) => { n += 1; let f = |k: &str| -> u64 { s.split(' ').find_map(|p| p.strip_prefix(k)).unwrap().parse().unwrap() }; states += f("states="); items += f("items="); } Err(e) if e.starts_with('?') => { println!("STOPPED {}: {}", title, &e[1..]); std::process::exit(2) } Err(e) => bad(format!("{}: {}", title, e)) }
            }
            _ => { nums.insert(k, list()); } }
    }
    println!("LALR-OK grammars={} states={} items={}", n, states, items);
}
