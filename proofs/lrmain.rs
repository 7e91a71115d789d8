// Untrusted part of the table check: reads the tables and the grammar, computes certificates, asks the verified checker.
#[path = "@GRAMMAR@"] mod grammar;
fn main() { std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap().join().unwrap(); }
fn real() {
    let a: Vec<String> = std::env::args().collect();
    let dump = std::fs::read_to_string(&a[1]).unwrap(); let raw = grammar::read(&std::fs::read_to_string(&a[2]).unwrap());
    let mut nums: std::collections::HashMap<&str, Vec<i64>> = Default::default(); let mut names: std::collections::HashMap<String, u32> = Default::default(); let mut kinds: std::collections::HashMap<String, u32> = Default::default(); let mut lhs_names: Vec<&str> = vec![];
    for l in dump.lines() {
        let (k, v) = l.split_once('\t').unwrap();
        match k { "nt_name" => { let (n, i) = v.rsplit_once('\t').unwrap(); names.insert(n.to_string(), i.parse().unwrap()); } "t_name" => { let (n, i) = v.rsplit_once('\t').unwrap(); kinds.insert(n.to_string(), i.parse().unwrap()); }
            "lhs" => lhs_names = v.split(' ').collect(), _ => { nums.insert(k, v.split(' ').map(|x| x.parse().unwrap()).collect()); } }
    }
    let i16s = |k: &str| -> Vec<i16> { nums[k].iter().map(|&x| i16::try_from(x).unwrap()).collect() }; let u32s = |k: &str| -> Vec<u32> { nums[k].iter().map(|&x| u32::try_from(x).unwrap()).collect() };
    let h = u32s("head"); let (nt, nn, end, ws, nkinds) = (h[0], h[1], h[2], h[3], h[4]);
    let bad = |m: String| -> ! { println!("BAD {}", m); std::process::exit(1) };
    let rlhs: Vec<u32> = lhs_names.iter().map(|n| *names.get(*n).unwrap_or_else(|| bad(format!("rule name {} has no number", n)))).collect();
    let t = Tab { ac: i16s("ac"), av: i16s("av"), ai: u32s("ai"), ad: i16s("ad"), gc: i16s("gc"), gv: i16s("gv"), gi: u32s("gi"), rlen: nums["rlen"].iter().map(|&x| x as usize).collect(), rlhs, nt, nn, end, ws, nkinds };
    let nr = t.rlen.len(); let ns = t.ai.len(); let ny = (nt + nn) as usize;
    let lhs_of_raw: std::collections::HashSet<&str> = raw.rules.iter().map(|r| r.0.as_str()).collect();
    let sym = |s: &str| -> u32 {
        if lhs_of_raw.contains(s) { return nt + names.get(s).copied().unwrap_or_else(|| bad(format!("nonterminal {} has no number", s))); }
        let c: Vec<char> = s.chars().collect(); let key = if c.len() == 3 && c[0] == '\'' { format!("RAW {}", c[1]) } else if kinds.contains_key(s) { s.to_string() } else { format!("KEYWORD {}", s) };
        kinds.get(&key).copied().unwrap_or_else(|| bad(format!("terminal {} has no number", s)))
    };
    if raw.rules.len() > nr { bad(format!("{} rules in the tables, {} in the grammar", nr, raw.rules.len())); }
    let start = sym(&raw.rules[0].0);
    let mut rhs: Vec<Vec<u32>> = raw.rules.iter().map(|r| r.1.iter().map(|s| sym(s)).collect()).collect();
    for (i, r) in raw.rules.iter().enumerate() { if lhs_names[i] != r.0 { bad(format!("rule {} is for {} instead of {}", i, lhs_names[i], r.0)); } }
    while rhs.len() < nr { rhs.push(vec![start]); }
    let rlhs = &t.rlhs;
    for r in 0..nr { if t.rlen[r] != rhs[r].len() { bad(format!("rule {} ({}) has length {} instead of {}", r, lhs_names[r], t.rlen[r], rhs[r].len())); } }
    // certificates
    let mut nullable = vec![false; ny]; let mut sz = vec![0u64; ny];
    for _ in 0..ny + 1 { let mut ch = false; for r in 0..nr { if rhs[r].iter().all(|&x| nullable[x as usize]) { let l = (nt + rlhs[r]) as usize; let s = 1 + rhs[r].iter().map(|&x| sz[x as usize]).sum::<u64>(); if !nullable[l] || sz[l] < s { nullable[l] = true; sz[l] = s; ch = true; } } } if !ch { break; } }
    let mut lev = vec![0u64; ny]; for n in nt as usize..ny { lev[n] = 1; }
    for _ in 0..ny + 1 { let mut ch = false; for r in 0..nr { let l = (nt + rlhs[r]) as usize; for j in 0..rhs[r].len() { if rhs[r].iter().enumerate().all(|(i, &x)| i == j || nullable[x as usize]) && lev[l] <= lev[rhs[r][j] as usize] { lev[l] = lev[rhs[r][j] as usize] + 1; ch = true; } } } if !ch { break; } }
    let levmax = *lev.iter().max().unwrap();
    let act = |s: usize, c: usize| -> i16 { let i = t.ai[s] as usize + c; if i < t.ac.len() && t.ac[i] == c as i16 { if t.av[i] == 0x7FFE { t.ad[s] } else { t.av[i] } } else { 0x7FFF } };
    let go = |s: usize, n: usize| -> i16 { let i = t.gi[s] as usize + n; if i < t.gc.len() && t.gc[i] == n as i16 { t.gv[i] } else { -1 } };
    let mut trans: Vec<Vec<(u32, usize)>> = vec![vec![]; ns];
    for s in 0..ns { for c in 0..nt as usize { let v = act(s, c); if v > 0 && v != 0x7FFF && ((v - 1) as usize) < ns { trans[s].push((c as u32, (v - 1) as usize)); } } for n in 0..nn as usize { let v = go(s, n); if v >= 0 && (v as usize) < ns { trans[s].push((nt + n as u32, v as usize)); } } }
    let mut by_lhs: Vec<Vec<u32>> = vec![vec![]; nn as usize]; for r in 0..raw.rules.len() { by_lhs[rlhs[r] as usize].push(r as u32); }
    let mut items: Vec<Vec<(u32, u32)>> = vec![vec![]; ns]; let mut done = vec![false; ns];
    let close = |k: Vec<(u32, u32)>, extra: Option<u32>| -> Vec<(u32, u32)> { let mut v = k; let mut seen = vec![false; nn as usize]; let mut i = 0; let mut want: Vec<u32> = extra.into_iter().collect();
        loop { while let Some(n) = want.pop() { if n >= nt && !seen[(n - nt) as usize] { seen[(n - nt) as usize] = true; for &q in &by_lhs[(n - nt) as usize] { v.push((q, 0)); } } } if i == v.len() { break; } let (r, d) = v[i]; i += 1; if let Some(&x) = rhs[r as usize].get(d as usize) { want.push(x); } } v };
    items[0] = close(vec![], Some(start)); done[0] = true; let mut q = std::collections::VecDeque::from([0usize]);
    while let Some(s) = q.pop_front() { for &(x, to) in &trans[s] { if !done[to] { done[to] = true;
        let k: Vec<(u32, u32)> = items[s].iter().filter(|&&(r, d)| rhs[r as usize].get(d as usize) == Some(&x)).map(|&(r, d)| (r, d + 1)).collect(); items[to] = close(k, None); q.push_back(to); } } }
    let mut acc = vec![false; ns]; for s in 1..ns { if act(s, end as usize) == 0 { acc[s] = true; } }
    // the largest amount of empty nodes on top of a state
    let mut v = vec![0u64; ns]; let mut rounds = 0;
    loop { let mut ch = false; for s in 0..ns { for &(x, to) in &trans[s] { if nullable[x as usize] && v[s] < v[to] + sz[x as usize] { v[s] = v[to] + sz[x as usize]; ch = true; } } } rounds += 1; if !ch || rounds > 200 { break; } }
    let total: usize = items.iter().map(|x| x.len()).sum();
    let ann = Ann { start, rhs, items, acc, nullable, lev, levmax, sz, v };
    let name = |x: u32| -> String { if x >= nt { names.iter().find(|e| *e.1 == x - nt).map(|e| e.0.clone()) } else { kinds.iter().find(|e| *e.1 == x).map(|e| e.0.clone()) }.unwrap_or_default() };
    match check(&t, &ann) {
        (0, _) => println!("LR-OK states={} rules={} actions={} gotos={} items={} levels={} largest_empty={}", ns, nr, ns * nt as usize, ns * nn as usize, total, levmax, ann.v[0]),
        (1, _) => bad("the tables do not have the right shape (offsets, lengths)".into()),
        (2, s) => { // say which entry
            let mut path = vec![]; let mut from = vec![None; ns]; let mut q = std::collections::VecDeque::from([0usize]); let mut seen = vec![false; ns]; seen[0] = true;
            while let Some(p) = q.pop_front() { for &(x, to) in &trans[p] { if !seen[to] { seen[to] = true; from[to] = Some((p, x)); q.push_back(to); } } }
            let mut c = s; while let Some((p, x)) = from[c] { path.push(name(x)); c = p; } path.reverse();
            let mut what = vec![];
            for c in 0..nt as usize { let a0 = act(s, c); if a0 == 0x7FFF { continue; } let ok = if a0 > 0 { c != end as usize && (a0 as usize) <= ns && x_step(&t, &ann, s, c, (a0 - 1) as usize) } else if a0 < 0 { let r = (-(a0 as i32) - 1) as usize; r < nr && x_has(&ann, s, r as u32, ann.rhs[r].len() as u32) } else { c == end as usize && ann.acc[s] }; if !ok { what.push(format!("the action on {} is {}", name(c as u32), a0)); } }
            for n in 0..nn as usize { let g = go(s, n); if g >= 0 && !x_step(&t, &ann, s, nt as usize + n, g as usize) { what.push(format!("the goto on {} is {}", name(nt + n as u32), g)); } }
            what.truncate(3); bad(format!("state {} (reached over: {}): {}", s, path.join(" "), if what.is_empty() { "a rule that starts here has no goto".to_string() } else { what.join("; ") }))
        }
        (_, r) => bad(format!("rule {} ({}): its length, an empty or a unit cycle", r, lhs_names[r])),
    }
}
