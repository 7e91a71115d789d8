//! Independent reader of a bison grammar file and independent LALR(1) construction
//! (LR(0) automaton plus DeRemer-Pennello look-aheads, yacc conflict resolution).
use std::collections::{BTreeMap, HashMap};
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym { T(usize), N(usize) }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Assoc { Left, Right, Non }
#[derive(Debug, Clone)]
pub struct Rule { pub lhs: usize, pub rhs: Vec<Sym>, pub prec: Option<usize> }
#[derive(Debug, Clone, Default)]
pub struct Grammar {
    pub terms: Vec<String>, pub nts: Vec<String>, pub rules: Vec<Rule>,
    pub assoc: HashMap<usize, (usize, Assoc)>,
}
/// (rules as text, precedence declarations): the file's contents before numbering
pub struct RawGrammar { pub rules: Vec<(String, Vec<String>, Option<String>)>, pub assoc: Vec<(String, usize, Assoc)> }
fn tokens(src: &str) -> Vec<String> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0; let mut out = vec![];
    let skip_str = |mut i: usize, q: char| { i += 1; while c[i] != q { if c[i] == '\\' { i += 1; } i += 1; } i + 1 };
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() { i += 1; continue; }
        if ch == '/' && c[i + 1] == '*' { i += 2; while !(c[i] == '*' && c[i + 1] == '/') { i += 1; } i += 2; continue; }
        if ch == '/' && c[i + 1] == '/' { while i < c.len() && c[i] != '\n' { i += 1; } continue; }
        if ch == '{' {
            let mut d = 0;
            loop {
                match c[i] {
                    '{' => { d += 1; i += 1; } '}' => { d -= 1; i += 1; if d == 0 { break; } }
                    '/' if c[i + 1] == '*' => { i += 2; while !(c[i] == '*' && c[i + 1] == '/') { i += 1; } i += 2; }
                    '/' if c[i + 1] == '/' => while c[i] != '\n' { i += 1; },
                    '"' => i = skip_str(i, '"'), '\'' => i = skip_str(i, '\''),
                    _ => i += 1,
                }
            }
            continue;
        }
        if ch == '\'' { let e = skip_str(i, '\''); out.push(c[i..e].iter().collect()); i = e; continue; }
        if ch.is_alphanumeric() || ch == '_' || ch == '%' {
            let s = i; i += 1; while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; }
            out.push(c[s..i].iter().collect()); continue;
        }
        out.push(ch.to_string()); i += 1;
    }
    out
}
pub fn read(src: &str) -> RawGrammar {
    let mut parts: Vec<Vec<&str>> = vec![vec![]];
    for l in src.lines() { if l.starts_with("%%") { parts.push(vec![]); } else { parts.last_mut().unwrap().push(l); } }
    // declarations: only lines starting with a directive and their continuation lines
    let mut assoc = vec![]; let mut cur: Option<(usize, Assoc)> = None; let mut level = 0;
    for l in &parts[0] {
        let l = match l.find("/*") { Some(p) => &l[..p], None => l };
        let mut w = l.split_whitespace();
        if !l.starts_with(|c: char| c.is_whitespace()) {
            cur = match w.next() { Some("%left") => Some(Assoc::Left), Some("%right") => Some(Assoc::Right), Some("%nonassoc") => Some(Assoc::Non), _ => None }.map(|a| { level += 1; (level, a) });
        }
        if let Some((p, a)) = cur { for n in w { assoc.push((n.to_string(), p, a)); } }
    }
    let t = tokens(&parts[1].join("\n"));
    let mut rules = vec![]; let mut i = 0;
    while i < t.len() {
        let lhs = t[i].clone(); assert_eq!(t[i + 1], ":", "{}", lhs); i += 2;
        let mut rhs = vec![]; let mut prec = None;
        loop {
            match t[i].as_str() {
                "|" => { rules.push((lhs.clone(), std::mem::take(&mut rhs), prec.take())); i += 1; }
                ";" => { rules.push((lhs.clone(), std::mem::take(&mut rhs), prec.take())); i += 1; break; }
                "%prec" => { prec = Some(t[i + 1].clone()); i += 2; }
                s => { rhs.push(s.to_string()); i += 1; }
            }
        }
    }
    RawGrammar { rules, assoc }
}
impl Grammar {
    pub fn from_raw(r: &RawGrammar) -> Grammar {
        let mut g = Grammar::default();
        let mut nt: HashMap<String, usize> = HashMap::new();
        for (l, _, _) in &r.rules { if !nt.contains_key(l) { nt.insert(l.clone(), g.nts.len()); g.nts.push(l.clone()); } }
        let mut tm: HashMap<String, usize> = HashMap::new();
        fn term(g: &mut Grammar, tm: &mut HashMap<String, usize>, s: &str) -> usize { *tm.entry(s.to_string()).or_insert_with(|| { g.terms.push(s.to_string()); g.terms.len() - 1 }) }
        let end = term(&mut g, &mut tm, "$end"); assert_eq!(end, 0);
        for (n, p, a) in &r.assoc { let id = term(&mut g, &mut tm, n); g.assoc.insert(id, (*p, *a)); }
        for (l, rhs, prec) in &r.rules {
            let syms: Vec<Sym> = rhs.iter().map(|s| match nt.get(s) { Some(&n) => Sym::N(n), None => Sym::T(term(&mut g, &mut tm, s)) }).collect();
            let p = match prec { Some(p) => Some(term(&mut g, &mut tm, p)), None => syms.iter().rev().find_map(|s| if let Sym::T(t) = s { Some(*t) } else { None }) };
            g.rules.push(Rule { lhs: nt[l], rhs: syms, prec: p });
        }
        g
    }
    pub fn name(&self, s: Sym) -> &str { match s { Sym::T(t) => &self.terms[t], Sym::N(n) => &self.nts[n] } }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Act { Err, Shift(usize), Reduce(usize), Accept }
pub struct Tables { pub nstates: usize, pub action: Vec<Vec<Act>>, pub goto_: Vec<HashMap<usize, usize>>, pub items: Vec<Vec<(usize, usize)>> }
type Bits = Vec<u64>;
fn or(a: &mut Bits, b: &Bits) -> bool { let mut ch = false; for (x, y) in a.iter_mut().zip(b) { let n = *x | *y; ch |= n != *x; *x = n; } ch }
/// rule index g.rules.len() is the added start rule
pub fn lalr(g: &Grammar) -> Tables {
    let nr = g.rules.len(); let nt = g.terms.len();
    let rhs = |r: usize| -> Vec<Sym> { if r == nr { vec![Sym::N(g.rules[0].lhs)] } else { g.rules[r].rhs.clone() } };
    let rhss: Vec<Vec<Sym>> = (0..=nr).map(rhs).collect();
    let mut by_lhs: Vec<Vec<usize>> = vec![vec![]; g.nts.len()];
    for (i, r) in g.rules.iter().enumerate() { by_lhs[r.lhs].push(i); }
    let mut nullable = vec![false; g.nts.len()];
    loop { let mut ch = false; for r in &g.rules { if !nullable[r.lhs] && r.rhs.iter().all(|s| matches!(s, Sym::N(n) if nullable[*n])) { nullable[r.lhs] = true; ch = true; } } if !ch { break; } }
    // LR(0)
    let mut index: HashMap<Vec<(usize, usize)>, usize> = HashMap::new();
    let mut kernels = vec![vec![(nr, 0)]]; index.insert(kernels[0].clone(), 0);
    let mut trans: Vec<BTreeMap<Sym, usize>> = vec![]; let mut all_items = vec![];
    let mut s = 0;
    while s < kernels.len() {
        let mut items = kernels[s].clone(); let mut seen = vec![false; g.nts.len()]; let mut k = 0;
        while k < items.len() {
            let (r, d) = items[k]; k += 1;
            if let Some(Sym::N(n)) = rhss[r].get(d) { if !seen[*n] { seen[*n] = true; for &q in &by_lhs[*n] { items.push((q, 0)); } } }
        }
        let mut next: BTreeMap<Sym, Vec<(usize, usize)>> = BTreeMap::new();
        for &(r, d) in &items { if let Some(&x) = rhss[r].get(d) { next.entry(x).or_default().push((r, d + 1)); } }
        let mut tr = BTreeMap::new();
        for (x, mut ker) in next {
            ker.sort(); ker.dedup();
            let id = match index.get(&ker) { Some(&i) => i, None => { let i = kernels.len(); index.insert(ker.clone(), i); kernels.push(ker); i } };
            tr.insert(x, id);
        }
        trans.push(tr); all_items.push(items); s += 1;
    }
    let ns = kernels.len(); let w = (nt + 63) / 64;
    // nonterminal transitions
    let mut ntt: HashMap<(usize, usize), usize> = HashMap::new(); let mut list = vec![];
    for p in 0..ns { for (&x, _) in &trans[p] { if let Sym::N(a) = x { ntt.insert((p, a), list.len()); list.push((p, a)); } } }
    let m = list.len();
    let mut read: Vec<Bits> = vec![vec![0; w]; m]; let mut reads: Vec<Vec<usize>> = vec![vec![]; m];
    for (i, &(p, a)) in list.iter().enumerate() {
        let q = trans[p][&Sym::N(a)];
        if p == 0 && a == g.rules[0].lhs { read[i][0] |= 1; } // $end = terminal 0
        for (&x, _) in &trans[q] { match x { Sym::T(t) => read[i][t / 64] |= 1 << (t % 64), Sym::N(n) => if nullable[n] { reads[i].push(ntt[&(q, n)]); } } }
    }
    let mut includes: Vec<Vec<usize>> = vec![vec![]; m]; let mut lookback: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
    for (i, &(p, a)) in list.iter().enumerate() {
        for &r in &by_lhs[a] {
            let mut q = p;
            for (d, &x) in rhss[r].iter().enumerate() {
                if let Sym::N(n) = x { if rhss[r][d + 1..].iter().all(|s| matches!(s, Sym::N(k) if nullable[*k])) { includes[ntt[&(q, n)]].push(i); } }
                q = trans[q][&x];
            }
            lookback.entry((q, r)).or_default().push(i);
        }
    }
    fn fix(f: &mut [Bits], rel: &[Vec<usize>]) { loop { let mut ch = false; for i in 0..f.len() { for k in 0..rel[i].len() { let j = rel[i][k]; if j != i { let b = f[j].clone(); ch |= or(&mut f[i], &b); } } } if !ch { break; } } }
    fix(&mut read, &reads);
    fix(&mut read, &includes);
    let mut action = vec![vec![Act::Err; nt]; ns]; let mut goto_ = vec![HashMap::new(); ns];
    for p in 0..ns {
        for (&x, &q) in &trans[p] { match x { Sym::T(t) => action[p][t] = Act::Shift(q), Sym::N(n) => { goto_[p].insert(n, q); } } }
        // complete items by rule index: the earlier rule wins a reduce/reduce conflict
        let mut done: Vec<usize> = all_items[p].iter().filter(|&&(r, d)| d == rhss[r].len()).map(|x| x.0).collect();
        done.sort(); done.dedup();
        let las: Vec<(usize, Bits)> = done.iter().map(|&r| (r, if r == nr { let mut b = vec![0; w]; b[0] = 1; b } else { let mut b = vec![0; w]; for &i in lookback.get(&(p, r)).map(|v| v.as_slice()).unwrap_or(&[]) { or(&mut b, &read[i]); } b })).collect();
        for t in 0..nt {
            let Some((r, _)) = las.iter().find(|(_, b)| b[t / 64] >> (t % 64) & 1 == 1) else { continue };
            let red = if *r == nr { Act::Accept } else { Act::Reduce(*r) };
            match action[p][t] {
                Act::Shift(_) => {
                    let rp = if *r == nr { None } else { g.rules[*r].prec.and_then(|x| g.assoc.get(&x)) };
                    match (rp, g.assoc.get(&t)) {
                        (Some((a, _)), Some((b, k))) => if a > b { action[p][t] = red } else if a == b { match k { Assoc::Left => action[p][t] = red, Assoc::Right => {}, Assoc::Non => action[p][t] = Act::Err } },
                        _ => {}
                    }
                }
                _ => action[p][t] = red,
            }
        }
    }
    Tables { nstates: ns, action, goto_, items: all_items }
}
