//! Bounded checks of the generator sources (copied from /repo on every run): random grammars, tables,
//! symbol lists and lexer patterns against independent constructions.  See DESIGN.md.
use super::{bison::*, id_mapper::IdMapper, lalr::*, lexer::TokenKind, *};
use crate::{grammar as gr, lookup, rng::Rng, rx, shipped};
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

static LAST: Mutex<String> = Mutex::new(String::new());
thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
fn arg(name: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned()) }
fn json(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o + "\"" }
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panics: {}", PANIC.with(|p| p.borrow().clone()))) }
thread_local! { static NOTE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// called by a check for an input worth counting
fn note(s: &str) { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); NOTE.with(|n| n.set(h.finish())); }
type R = Result<(), (String, String)>; // (the program or input, what is wrong)

// ---------------------------------------------------------------- grammars
struct G { decls: Vec<(String, Vec<String>)>, rules: Vec<(String, Vec<(Vec<String>, Option<String>)>)> }
const TERMS: [&str; 12] = ["Minus", "Plus", "'+'", "'-'", "'*'", "'('", "')'", "NUM", "IDENT", "A_KW", "';'", "'='"];
fn grammar(r: &mut Rng) -> G {
    let nn = 1 + r.below(5); let nt = 1 + r.below(7); let names: Vec<String> = (0..nn).map(|i| ["S", "expr", "list", "opt_x", "t_1"][i].to_string()).collect();
    let mut ts: Vec<&str> = TERMS.to_vec(); for i in 0..ts.len() { let j = r.below(ts.len()); ts.swap(i, j); } ts.truncate(nt);
    let mut rules = vec![];
    for (i, n) in names.iter().enumerate() {
        let mut alts = vec![]; let k = 1 + r.below(4);
        for a in 0..k {
            let len = [0, 1, 1, 2, 2, 3, 3, 4][r.below(8)]; let mut v = vec![];
            for _ in 0..len { if r.chance(1, 2) { v.push(ts[r.below(nt)].to_string()); } else { let m = if a == 0 { i + 1 + r.below(nn) } else { r.below(nn) }; if a == 0 && m >= nn { v.push(ts[r.below(nt)].to_string()); } else { v.push(names[m].clone()); } } }
            if r.chance(1, 4) && v.len() < 3 { v = vec![n.clone(), ts[r.below(nt)].to_string(), n.clone()]; if a == 0 { v = vec![ts[0].to_string()]; } }
            alts.push((v, None));
        }
        rules.push((n.clone(), alts));
    }
    // every symbol must be derivable from the start symbol and have a terminal derivation
    let mut decls = vec![]; let mut pool: Vec<String> = ts.iter().map(|s| s.to_string()).collect(); pool.push("UMINUS".into()); if r.chance(1, 3) { pool.push("LOW".into()); }
    for i in 0..pool.len() { let j = r.below(pool.len()); pool.swap(i, j); }
    let mut declared = vec![]; let levels = r.below(5);
    for _ in 0..levels { let k = 1 + r.below(2); let mut v = vec![]; for _ in 0..k { if let Some(x) = pool.pop() { declared.push(x.clone()); v.push(x); } } if !v.is_empty() { decls.push((["%left", "%right", "%nonassoc"][r.below(3)].to_string(), v)); } }
    declared.retain(|x: &String| !x.starts_with('\'')); // the reader takes names only after %prec
    if !declared.is_empty() { for (_, a) in rules.iter_mut() { for (_, p) in a.iter_mut() { if r.chance(1, 4) { *p = Some(declared[r.below(declared.len())].clone()); } } } }
    G { decls, rules }
}
fn plain(g: &G) -> String {
    let mut s = String::new();
    for (d, v) in &g.decls { s += &format!("{} {}\n", d, v.join(" ")); }
    s += "%%\n";
    for (n, a) in &g.rules { s += &format!("{}:", n); for (i, (v, p)) in a.iter().enumerate() { if i > 0 { s += " |"; } for x in v { s += " "; s += x; } if let Some(p) = p { s += &format!(" %prec {}", p); } } s += " ;\n"; }
    s + "%%\n"
}
fn noise(r: &mut Rng) -> String {
    match r.below(13) {
        0 => "\n".into(), 1 => "\t ".into(), 2 => "/* a : b | c ; { ' %prec */".into(), 3 => "// x ; | ' {\n".into(), 4 => "/**/".into(), 5 => "/***/".into(), 6 => "/*/ 'x' /*/".into(),
        7 => "{ $$ = f($1, @2); }".into(), 8 => "{ if (x) { y = 1; } else { z; } /* c */ }".into(), 9 => "{}".into(), 10 => "{ // it's\n int i; }".into(), 11 => "/* é\n */\r\n".into(), _ => " ".into(),
    }
}
/// the same grammar, spelled with comments, actions, other declarations and line breaks
fn noisy(g: &G, r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 3) { s += "%{\n#include <x.h>\n/* : */\n%}\n\n"; }
    if r.chance(1, 2) { s += "%type <node> stmt expr\n\t\tlist\n%type\t<str>\n\t\tIDENT\n".replace("%type\t<str>", "%type <str>").as_str(); }
    if r.chance(1, 2) { s += "%token <str> IDENT NUM\n\t\t\tA_KW\n\n%token ';'\n"; }
    for (d, v) in &g.decls {
        s += d; let mut here = false;
        for x in v { if r.chance(1, 4) && here { s += "\n\t\t"; } else { s += [" ", "\t", "\t\t"][r.below(3)]; } s += x; here = true; }
        if r.chance(1, 4) { s += " /* lowest | %left : X */"; } s += "\n"; if r.chance(1, 4) { s += "\n"; } if r.chance(1, 4) { s += "/* %left NOPE\n%nonassoc\n*/\n".split('\n').next().unwrap_or(""); s += " */\n"; }
    }
    s += "%%\n";
    let gap = |r: &mut Rng| -> String { let mut t = String::from(" "); for _ in 0..r.below(3) { let n = noise(r); if n.starts_with('{') { continue; } t += &n; } t };
    for (n, a) in &g.rules {
        s += n; s += &gap(r); s += ":";
        for (i, (v, p)) in a.iter().enumerate() {
            if i > 0 { s += "|"; }
            for x in v { s += &gap(r); s += x; if r.chance(1, 6) { s += &noise(r); } }
            if let Some(p) = p { s += &gap(r); s += "%prec "; s += p; }
            s += &gap(r); for _ in 0..r.below(3) { s += &noise(r); } s += " ";
        }
        s += ";"; s += &gap(r); s += "\n";
    }
    s += "%%\n"; if r.chance(1, 3) { s += "static void f(void) { x: y; }\n"; } s
}
fn sym(c: &Component) -> String { match c { Component::NonTerminal(s) => s.clone(), Component::Terminal(TokenKind::RAW(s)) => s.clone(), Component::Terminal(k) => k.to_id() } }
fn check_reading(src: &str, raw: &gr::RawGrammar) -> Result<Bison, String> {
    let b = guard(|| parse_bison(src)).map_err(|e| format!("the reader {}", e))?;
    let names: HashSet<&str> = raw.rules.iter().map(|r| r.0.as_str()).collect();
    if b.rules.len() != raw.rules.len() { return Err(format!("{} rules read, the file has {}", b.rules.len(), raw.rules.len())); }
    for (i, (x, (n, rhs, p))) in b.rules.iter().zip(&raw.rules).enumerate() {
        let got: Vec<String> = x.components.iter().map(sym).collect();
        if &x.name != n || &got != rhs { return Err(format!("rule {} read as {}: {:?}, the file has {}: {:?}", i, x.name, got, n, rhs)); }
        for (c, s) in x.components.iter().zip(rhs) { if matches!(c, Component::NonTerminal(_)) != names.contains(s.as_str()) { return Err(format!("rule {}: {} classified as {:?}", i, s, c)); } if let (Component::Terminal(k), false) = (c, s.starts_with('\'')) { if *k != TokenKind::from(s) || matches!(k, TokenKind::RAW(_)) { return Err(format!("{} read as {:?}", s, k)); } } if s.starts_with('\'') && !matches!(c, Component::Terminal(TokenKind::RAW(_))) { return Err(format!("{} read as {:?}", s, c)); } }
        if &x.prec != p { return Err(format!("rule {} has precedence {:?}, the file has {:?}", i, x.prec, p)); }
    }
    let want: HashMap<&str, (usize, gr::Assoc)> = raw.assoc.iter().map(|(n, p, a)| (n.as_str(), (*p, *a))).collect();
    if b.assoc.len() != want.len() { return Err(format!("{} symbols with precedence, the file has {}", b.assoc.len(), want.len())); }
    for (n, (p, a)) in &want {
        let Some(x) = b.assoc.get(*n) else { return Err(format!("{} has lost its precedence", n)) };
        let d = match x.directive { AssocDirective::Left => gr::Assoc::Left, AssocDirective::Right => gr::Assoc::Right, AssocDirective::NonAssoc => gr::Assoc::Non };
        if d != *a { return Err(format!("{} is {:?}, declared {:?}", n, d, a)); }
        for (m, (q, _)) in &want { let y = &b.assoc.get(*m).ok_or(format!("{} has lost its precedence", m))?; if x.priority.cmp(&y.priority) != p.cmp(q) { return Err(format!("precedence of {} and {}: {} and {}, declared levels {} and {}", n, m, x.priority, y.priority, p, q)); } }
    }
    Ok(b)
}
fn one_c19(r: &mut Rng) -> R { let g = grammar(r); let s = noisy(&g, r); let raw = match guard(|| gr::read(&s)) { Ok(x) => x, Err(_) => return Ok(()) }; let p = gr::read(&plain(&g)); assert_eq!(raw.rules, p.rules, "{}", s); if raw.rules.len() > 1 { note(&s); } check_reading(&s, &raw).map(|_| ()).map_err(|m| (s, m)) }
fn build(b: &Bison) -> Result<Lalr, String> { guard(|| { let mut l = Lalr::new(b); l.build_lalr1_parse_table(); l }).map_err(|e| format!("the table builder {}", e)) }
fn ambiguous_free_terms(raw: &gr::RawGrammar) -> bool { let nts: HashSet<&String> = raw.rules.iter().map(|r| &r.0).collect(); !raw.rules.iter().any(|r| r.2.as_ref().is_some_and(|p| nts.contains(p))) }
fn one_c18(r: &mut Rng) -> R {
    let g = grammar(r); let s = plain(&g); let raw = gr::read(&s); if !ambiguous_free_terms(&raw) { return Ok(()); }
    let Ok(b) = check_reading(&s, &raw) else { return Ok(()) };
    let bad = |m: String| (s.clone(), m);
    let l = build(&b).map_err(bad)?; if raw.rules.len() > 1 { note(&s); } compare_lalr(&raw, &l).map_err(bad)?; dump(&s, &raw, &l); Ok(())
}
/// the generator's tables, uncompressed, and the grammar as numbers, for the verified checker (unit lalr)
static DUMP: Mutex<Option<(std::io::BufWriter<std::fs::File>, u64)>> = Mutex::new(None);
fn dump(title: &str, raw: &gr::RawGrammar, l: &Lalr) {
    use std::io::Write; let mut d = DUMP.lock().unwrap(); let Some((f, left)) = d.as_mut() else { return }; if *left == 0 { return; } *left -= 1;
    let g = gr::Grammar::from_raw(raw); let nt = g.terms.len(); let nn = g.nts.len(); let ns = l.state_set.states.len();
    let num = |s: &gr::Sym| match s { gr::Sym::T(t) => *t, gr::Sym::N(n) => nt + *n }; let join = |v: Vec<i64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let col = |name: &str| l.id_mapper.components.iter().position(|c| sym(c) == name).map(|i| ComponentId(i as u16));
    let tc: Vec<_> = g.terms.iter().map(|s| col(s)).collect(); let nc: Vec<_> = g.nts.iter().map(|s| col(s)).collect();
    let (mut ac, mut av, mut gc, mut gv) = (vec![], vec![], vec![], vec![]);
    for s in 0..ns {
        for (j, c) in tc.iter().enumerate() { let v = match c.and_then(|c| l.action_table.get(&(s, c))) { None | Some(Action::Error) => 0x7FFF, Some(Action::Shift(q)) => *q as i64 + 1, Some(Action::Reduce(r)) => -(*r as i64) - 1, Some(Action::Accept) => 0 }; ac.push(if v == 0x7FFF { -1 } else { j as i64 }); av.push(v); }
        for (j, c) in nc.iter().enumerate() { let v = c.and_then(|c| l.goto_table.get(&(s, c))).map(|q| *q as i64); gc.push(if v.is_none() { -1 } else { j as i64 }); gv.push(v.unwrap_or(-1)); }
    }
    let lev = |t: usize| g.assoc.get(&t).map(|x| x.0 as i64).unwrap_or(0); let dir = |t: usize| match g.assoc.get(&t) { Some((_, gr::Assoc::Left)) => 0, Some((_, gr::Assoc::Right)) => 1, _ => 2 };
    writeln!(f, "case\t{}\nhead\t{} {} 0", title.replace(['\n', '\t'], " "), nt, nn).unwrap();
    for r in g.rules.iter().map(|r| r.rhs.iter().map(|s| num(s) as i64).collect::<Vec<_>>()).chain([vec![(nt + g.rules[0].lhs) as i64]]) { writeln!(f, "rule\t{}", join(r)).unwrap(); }
    writeln!(f, "lhs\t{}", join(g.rules.iter().map(|r| (nt + r.lhs) as i64).chain([(nt + nn) as i64]).collect())).unwrap();
    writeln!(f, "over\t{}", join(raw.rules.iter().map(|r| r.2.as_ref().and_then(|p| g.terms.iter().position(|t| t == p)).map(|i| i as i64).unwrap_or(-1)).chain([-1]).collect())).unwrap();
    writeln!(f, "tlev\t{}\ntdir\t{}", join((0..nt).map(lev).collect()), join((0..nt).map(dir).collect())).unwrap();
    writeln!(f, "ac\t{}\nav\t{}\nai\t{}\nad\t{}", join(ac), join(av), join((0..ns).map(|s| (s * nt) as i64).collect()), join(vec![0x7FFF; ns])).unwrap();
    writeln!(f, "gc\t{}\ngv\t{}\ngi\t{}\nend", join(gc), join(gv), join((0..ns).map(|s| (s * nn) as i64).collect())).unwrap();
}
/// the generator's tables against the independent construction
fn compare_lalr(raw: &gr::RawGrammar, l: &Lalr) -> Result<(), String> {
    let g = gr::Grammar::from_raw(raw); let t = gr::lalr(&g);
    let id = |c: Component| guard(|| l.id_mapper.to_component_id(&c)).map_err(|_| format!("{:?} has no number", c));
    let find = |s: &str| -> Result<ComponentId, String> { l.id_mapper.components.iter().position(|c| sym(c) == s).map(|i| ComponentId(i as u16)).ok_or(format!("{} has no number", s)) };
    let tid: Vec<ComponentId> = g.terms.iter().map(|s| find(s)).collect::<Result<_, _>>()?; let nid: Vec<ComponentId> = g.nts.iter().map(|s| find(s)).collect::<Result<_, _>>()?;
    let ns = l.state_set.states.len(); if ns != t.nstates { return Err(format!("{} states, the construction has {}", ns, t.nstates)); }
    let mut map = vec![usize::MAX; ns]; let mut back = vec![usize::MAX; ns]; map[0] = 0; back[0] = 0; let mut q = VecDeque::from([0]);
    let mut entries = 0;
    while let Some(s) = q.pop_front() {
        let m = map[s];
        let mut link = |to: usize, got: usize, x: &str, map: &mut Vec<usize>| -> Result<(), String> { if got >= ns { return Err(format!("state {} on {}: no such state {}", m, x, got)); } if map[to] == usize::MAX && back[got] == usize::MAX { map[to] = got; back[got] = to; q.push_back(to); return Ok(()); } if map[to] == got { Ok(()) } else { Err(format!("state {} on {} goes to state {}, which stands for another state", m, x, got)) } };
        for (k, c) in tid.iter().enumerate() {
            let a = l.action_table.get(&(m, *c)).copied(); if a.is_some() { entries += 1; } let a = a.unwrap_or(Action::Error);
            let x = &g.terms[k];
            match (t.action[s][k], a) { (gr::Act::Err, Action::Error) | (gr::Act::Accept, Action::Accept) => {} (gr::Act::Reduce(i), Action::Reduce(j)) if i == j => {} (gr::Act::Shift(to), Action::Shift(got)) => link(to, got, x, &mut map)?, (w, a) => return Err(format!("state {} on {} has {:?}, the construction has {:?}", m, x, a, w)) }
        }
        for (k, c) in nid.iter().enumerate() {
            let a = l.goto_table.get(&(m, *c)).copied(); if a.is_some() { entries += 1; }
            match (t.goto_[s].get(&k), a) { (None, None) => {} (Some(&to), Some(got)) => link(to, got, &g.nts[k], &mut map)?, (w, a) => return Err(format!("state {} on {} goes to {:?}, the construction to {:?}", m, g.nts[k], a, w)) }
        }
    }
    // states cut off by a resolved conflict are not compared
    let have = l.action_table.keys().chain(l.goto_table.keys()).filter(|k| back[k.0] != usize::MAX).count();
    if entries != have { return Err(format!("{} table entries, {} of them for symbols of the grammar", have, entries)); }
    Ok(())
}
// ---------------------------------------------------------------- compression
fn check_compressed(l: &Lalr) -> Result<u64, String> {
    let terms: Vec<Component> = l.id_mapper.components.iter().filter(|c| matches!(c, Component::Terminal(_))).cloned().collect();
    let nts: Vec<Component> = l.id_mapper.components.iter().filter(|c| matches!(c, Component::NonTerminal(_))).cloned().collect();
    let ns = l.state_set.states.len();
    let (a, d) = guard(|| compress_action_table(l, &terms)).map_err(|e| format!("compressing the action table {}", e))?;
    let g = guard(|| compress_goto_table(l, &nts)).map_err(|e| format!("compressing the goto table {}", e))?;
    lookup::set(a.index_check, a.compressed_values, a.state_to_offset, d, g.index_check, g.compressed_values, g.state_to_offset);
    let mut n = 0;
    for s in 0..ns {
        for (j, c) in terms.iter().enumerate() {
            n += 1;
            let want = l.action_table.get(&(s, l.id_mapper.to_component_id(c))).copied().unwrap_or(Action::Error);
            let v = guard(|| lookup::action(s as u32, j as u32)).map_err(|e| format!("looking up state {} on {} {}", s, sym(c), e))?;
            let got = if v == ERROR_ACTION_CODE { Action::Error } else if v > 0 { Action::Shift((v - 1) as usize) } else if v < 0 { Action::Reduce((-v - 1) as usize) } else { Action::Accept };
            if got != want { return Err(format!("state {} on {} gives {:?}, the uncompressed table has {:?}", s, sym(c), got, want)); }
        }
        for (j, c) in nts.iter().enumerate() {
            n += 1;
            let want = l.goto_table.get(&(s, l.id_mapper.to_component_id(c))).map(|x| *x as i16).unwrap_or(-1);
            let got = guard(|| lookup::goto_(s as u32, j as u32)).map_err(|e| format!("looking up state {} on {} {}", s, sym(c), e))?;
            if got != want { return Err(format!("state {} on {} goes to {}, the uncompressed table has {}", s, sym(c), got, want)); }
        }
    }
    Ok(n)
}
fn one_c17(r: &mut Rng) -> R {
    let mut g = grammar(r); let s = plain(&g); let b = match guard(|| parse_bison(&s)) { Ok(b) => b, Err(_) => return Ok(()) };
    let mut desc = s.clone();
    let Ok(mut l) = guard(|| Lalr::new(&b)) else { return Ok(()) };
    if r.chance(1, 3) { if build_into(&mut l).is_err() { return Ok(()); } if l.state_set.states.iter().enumerate().any(|(i, _)| !l.action_table.iter().any(|((s, _), a)| *s == i && *a != Action::Error)) { return Ok(()); } }
    else {
        // a random table over the grammar's symbols
        let ns = 1 + r.below(12); let dens = 1 + r.below(9); let kinds = 1 + r.below(6);
        l.state_set.states = (0..ns).map(|_| State { items: vec![], edge: BTreeSet::new(), item_indices: HashMap::new() }).collect();
        let ids: Vec<(ComponentId, bool)> = l.id_mapper.components.iter().map(|c| (l.id_mapper.to_component_id(c), matches!(c, Component::Terminal(_)))).collect();
        let big = r.chance(1, 8);
        for s in 0..ns {
            let mut any = false;
            for &(c, t) in &ids {
                if !r.chance(dens, 10) { continue; }
                if t { let k = r.below(kinds) + if big { 32_000 } else { 0 }; let a = match r.below(12) { 0 => Action::Accept, 1 => Action::Error, 2..=5 => Action::Shift(k), _ => Action::Reduce(k) }; any |= a != Action::Error; l.action_table.insert((s, c), a); }
                else { l.goto_table.insert((s, c), r.below(kinds) + if big { 32_000 } else { 0 }); }
            }
            if !any { l.action_table.insert((s, l.end_rule_component_id), Action::Reduce(r.below(kinds))); }
        }
        desc = format!("{} states, actions {:?}, gotos {:?}", ns, { let mut v: Vec<_> = l.action_table.iter().map(|(k, a)| (k.0, k.1.0, *a)).collect(); v.sort_by_key(|x| (x.0, x.1)); v }, { let mut v: Vec<_> = l.goto_table.iter().map(|(k, a)| (k.0, k.1.0, *a)).collect(); v.sort(); v });
    }
    note(&desc); check_compressed(&l).map(|_| ()).map_err(|m| (desc, m))
}
fn build_into(l: &mut Lalr) -> Result<(), String> { guard(|| l.build_lalr1_parse_table()) }
fn one_c16(r: &mut Rng) -> R {
    let n = r.below(60); let mut list = vec![]; let pool = 1 + r.below(40);
    for _ in 0..n { let k = r.below(pool); list.push(match k % 4 { 0 => Component::NonTerminal(format!("n{}", k)), 1 => Component::Terminal(TokenKind::KEYWORD(format!("K{}", k))), 2 => Component::Terminal(TokenKind::RAW(format!("'{}'", k))), _ => [Component::Terminal(TokenKind::IDENT), Component::Terminal(TokenKind::Op), Component::NonTerminal("IDENT".into()), Component::Terminal(TokenKind::KEYWORD("Op".into()))][k / 4 % 4].clone() }); }
    let desc = format!("{:?}", list); if n > 1 { note(&desc); } let bad = |m: String| (desc.clone(), m);
    let m = guard(|| { let mut m = IdMapper::new(); for c in &list { m.insert(c.clone()); } m }).map_err(bad)?;
    let mut first: Vec<&Component> = vec![]; for c in &list { if !first.contains(&c) { first.push(c); } }
    if m.len() != first.len() || m.components.len() != first.len() { return Err(bad(format!("{} symbols numbered, {} given", m.len(), first.len()))); }
    for (i, c) in first.iter().enumerate() { let id = guard(|| m.to_component_id(c)).map_err(bad)?; if id.0 as usize != i && m.components.get(id.0 as usize) != Some(c) { return Err(bad(format!("{:?} has number {}", c, id.0))); } if (id.0 as usize) >= first.len() || m.components[id.0 as usize] != **c { return Err(bad(format!("{:?} has number {}, which stands for another symbol", c, id.0))); } }
    Ok(())
}
// ---------------------------------------------------------------- lexer patterns
enum Ast { Ch(u8), Class(bool, Vec<(u8, u8)>), Dot, Quoted(Vec<u8>), Cat(Vec<Ast>), Alt(Vec<Ast>), Star(Box<Ast>), Plus(Box<Ast>), Opt(Box<Ast>), Rep(Box<Ast>, usize, usize), Ref(usize), Eof }
const BYTES: [u8; 24] = [7, b'b', b'c', b'a', b'b', b'z', b'A', b'0', b'7', b'-', b'\'', b'"', b'\\', b' ', b'\n', b'\t', b'*', b'/', b'$', 0x80, 0xff, b'.', b'_', b'^'];
fn ast(r: &mut Rng, depth: usize, defs: usize) -> Ast {
    let k = if depth == 0 { r.below(6) } else { r.below(14) };
    match k {
        0..=2 => Ast::Ch(BYTES[r.below(24)]),
        3 => { let n = 1 + r.below(4); let neg = r.chance(1, 3); Ast::Class(neg, (0..n).map(|_| if r.chance(1, 2) { let a = BYTES[r.below(24)]; (a, a) } else { let (a, b) = [(b'a', b'c'), (b'0', b'9'), (b'b', b'b'), (0x80, 0xff), (b'A', b'Z'), (b' ', b'/'), (b'a', b'z')][r.below(7)]; (a, b) }).collect()) }
        4 => if r.chance(1, 2) { Ast::Dot } else { Ast::Quoted((0..1 + r.below(3)).map(|_| *[b'a', b'b', b'-', b'/', b'*', b'.', b'[', b'(', b'"', b'\\', b'\n', b'7'].get(r.below(12)).unwrap()).collect()) },
        5 => if defs > 0 { Ast::Ref(r.below(defs)) } else { Ast::Ch(b'a') },
        6 | 7 => Ast::Cat((0..2 + r.below(2)).map(|_| ast(r, depth - 1, defs)).collect()),
        8 | 9 => Ast::Alt((0..2 + r.below(2)).map(|_| ast(r, depth - 1, defs)).collect()),
        10 => Ast::Star(Box::new(ast(r, depth - 1, defs))), 11 => Ast::Plus(Box::new(ast(r, depth - 1, defs))), 12 => Ast::Opt(Box::new(ast(r, depth - 1, defs))),
        _ => { let lo = r.below(3); let hi = lo.max(1) + r.below(3); let hi = if r.chance(1, 3) { lo.max(1) } else { hi }; let lo = if hi == lo.max(1) && lo == 0 { 0 } else { lo }; Ast::Rep(Box::new(ast(r, depth - 1, defs)), lo, hi) }
    }
}
fn spell_char(b: u8, r: &mut Rng, class: bool) -> String {
    match b {
        b'\n' => "\\n".into(), b'\t' => "\\t".into(),
        7 => "\\a".into(), 0x80..=0xff => if r.chance(1, 2) { format!("\\x{:02x}", b) } else { format!("\\x{:02X}", b) },
        b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'/' | b'\'' => if r.chance(1, 8) { if r.chance(1, 2) { format!("\\{:03o}", b) } else { format!("\\x{:02x}", b) } } else { (b as char).to_string() },
        b' ' => if class { " ".into() } else { "[ ]".into() },
        b'"' if class => if r.chance(1, 2) { "\"".into() } else { "\\\"".into() },
        b'*' | b'.' | b'$' if class => if r.chance(1, 2) { (b as char).to_string() } else { format!("\\{}", b as char) },
        _ => format!("\\{}", b as char),
    }
}
fn spell(a: &Ast, r: &mut Rng, prec: u8) -> String {
    let (s, p) = match a {
        Ast::Ch(b) => { (spell_char(*b, r, false), 3) }
        Ast::Class(neg, v) => {
            let mut all = String::new();
            for (a, b) in v {
                let t = if a == b { spell_char(*a, r, true) } else { format!("{}-{}", spell_char(*a, r, true), spell_char(*b, r, true)) };
                all += &t;
            }
            (format!("[{}{}]", if *neg { "^" } else { "" }, all), 3)
        }
        Ast::Dot => (".".into(), 3), Ast::Quoted(v) => (format!("\"{}\"", v.iter().map(|b| match b { b'"' | b'\\' => format!("\\{}", *b as char), b'\n' => "\\n".into(), _ if r.chance(1, 6) => if r.chance(1, 2) { format!("\\{:03o}", b) } else { format!("\\x{:02X}", b) }, _ => (*b as char).to_string() }).collect::<String>()), 3), Ast::Ref(i) => (format!("{{def_{}}}", ["x", "y", "z"][*i]), 3), Ast::Eof => ("<<EOF>>".into(), 0),
        Ast::Cat(v) => (v.iter().map(|x| spell(x, r, 1)).collect::<String>(), 1),
        Ast::Alt(v) => (v.iter().map(|x| spell(x, r, 0)).collect::<Vec<_>>().join("|"), 0),
        Ast::Star(x) => (format!("{}*", spell(x, r, 3)), 2), Ast::Plus(x) => (format!("{}+", spell(x, r, 3)), 2), Ast::Opt(x) => (format!("{}?", spell(x, r, 3)), 2),
        Ast::Rep(x, lo, hi) => (if lo == hi { format!("{}{{{}}}", spell(x, r, 3), lo) } else { format!("{}{{{},{}}}", spell(x, r, 3), lo, hi) }, 2),
    };
    // alternatives inside a sequence and sequences under an operator need a group
    if p < prec || (p == 0 && prec > 0) || (p == 1 && prec > 1) { format!("({})", s) } else { s }
}
fn to_re(a: &Ast, x: &mut rx::Rx, defs: &[rx::Id]) -> rx::Id {
    match a {
        Ast::Ch(b) => x.byte(*b), Ast::Eof => x.byte(0), Ast::Dot => { let mut s = [!0u64; 4]; s[0] &= !(1 | 1 << 10); x.set(s) } Ast::Ref(i) => defs[*i],
        Ast::Class(neg, v) => { let mut s = [0u64; 4]; for (a, b) in v { for k in *a..=*b { s[k as usize / 64] |= 1 << (k % 64); } } if *neg { for k in 0..4 { s[k] = !s[k]; } s[0] &= !1; } x.set(s) }
        Ast::Quoted(v) => { let mut r = rx::EPS; for b in v { let t = x.byte(*b); r = x.cat(r, t); } r }
        Ast::Cat(v) => { let mut r = rx::EPS; for a in v { let t = to_re(a, x, defs); r = x.cat(r, t); } r }
        Ast::Alt(v) => { let w = v.iter().map(|a| to_re(a, x, defs)).collect(); x.alt(w) }
        Ast::Star(a) => { let t = to_re(a, x, defs); x.star(t) } Ast::Plus(a) => { let t = to_re(a, x, defs); x.rep(t, 1, None) } Ast::Opt(a) => { let t = to_re(a, x, defs); x.rep(t, 0, Some(1)) }
        Ast::Rep(a, lo, hi) => { let t = to_re(a, x, defs); x.rep(t, *lo, Some(*hi)) }
    }
}
/// size with definitions and repetitions written out
fn size(a: &Ast, defs: &[usize]) -> usize { match a { Ast::Ref(i) => defs[*i], Ast::Cat(v) | Ast::Alt(v) => v.iter().map(|x| size(x, defs)).sum(), Ast::Star(x) | Ast::Plus(x) | Ast::Opt(x) => size(x, defs) + 1, Ast::Rep(x, _, h) => size(x, defs) * h, _ => 1 } }
fn small(r: &mut Rng, depth: usize, sizes: &[usize], max: usize) -> Ast { loop { let a = ast(r, depth, sizes.len()); if size(&a, sizes) <= max { return a; } } }
fn one_c20(r: &mut Rng) -> R {
    let mut x = rx::Rx::new(); let nd = r.below(3); let mut defs = vec![]; let mut names = vec![]; let mut sizes = vec![];
    for i in 0..nd { let d = 1 + r.below(2); let a = small(r, d, &sizes, 8); names.push((["def_x", "def_y", "def_z"][i].to_string(), spell(&a, r, 0))); let id = to_re(&a, &mut x, &defs); defs.push(id); sizes.push(size(&a, &sizes)); }
    let ns = 1 + r.below(3); let np = ns.max(1 + r.below(4)); let mut pats = vec![]; let mut list = vec![];
    for i in 0..np {
        let d = r.below(4); let a = if r.chance(1, 12) { Ast::Eof } else { small(r, d, &sizes, 14) }; let mut st: Vec<usize> = (0..ns).filter(|_| r.chance(1, 2)).collect(); if i < ns && !st.contains(&i) { st.push(i); }
        let s = spell(&a, r, 0); let id = to_re(&a, &mut x, &defs); list.push((st.clone(), s.clone())); pats.push((st, id));
    }
    let desc = format!("definitions {:?}, patterns {:?}", names, list); if np > 1 || desc.len() > 40 { note(&desc); }
    // the text must mean the same to the independent reader; otherwise the spelling above is at fault
    let dm: HashMap<String, String> = names.iter().cloned().collect();
    for (i, (_, s)) in list.iter().enumerate() { let id = x.parse(s, &dm, true).unwrap_or_else(|e| panic!("{}: {}", desc, e)); if id != pats[i].1 { if let Err(w) = x.same(id, pats[i].1) { panic!("spelling: {} pattern {} on {:?}", desc, i, w); } } }
    let fl: Vec<automata::FlexPatternDef> = list.iter().map(|(st, s)| automata::FlexPatternDef { state_set: st.clone(), pattern: s.clone() }).collect();
    let nds: Vec<automata::NameDefinition> = names.iter().map(|(n, d)| automata::NameDefinition { name: n.clone(), definition: d.clone() }).collect();
    let dfa = guard(|| automata::to_flex_pattern_dfa(&fl, &nds)).map_err(|e| (desc.clone(), format!("compiling {}", e)))?;
    if dfa.len() != ns { return Err((desc, format!("{} automata for {} states", dfa.len(), ns))); }
    for (k, d) in dfa.iter().enumerate() {
        let p: Vec<(u32, rx::Id)> = pats.iter().enumerate().filter(|(_, p)| p.0.contains(&k)).map(|(i, p)| (i as u32, p.1)).collect();
        let res = guard(|| x.compare(&p, &|s, b| { let t = d.states[s].transitions[b as usize]; if t == automata::dfa::INVALID_STATE { None } else { Some(t) } }, &|s| d.states[s].accept_lexer_rule_id));
        match res { Ok(Ok(_)) => {} Ok(Err((_, m))) if m.starts_with("too many") => {} Ok(Err((w, m))) => return Err((format!("{}, state {}, string {:?}", desc, k, w.iter().map(|b| *b as char).collect::<String>()), m)), Err(e) => return Err((desc, format!("walking the automaton of state {} {}", k, e))) }
    }
    Ok(())
}
/// the shipped lexer automata and the shipped regular expressions against scan.l, completely
fn c10(path: &str) -> Result<u64, (String, String)> {
    let f = rx::read_flex(&std::fs::read_to_string(path).unwrap()); let mut x = rx::Rx::new(); let mut n = 0;
    let ids: Vec<rx::Id> = f.rules.iter().map(|(_, p)| x.parse(p, &f.defs, true).unwrap_or_else(|e| panic!("{}: {}", p, e))).collect();
    let states = shipped::states();
    if states.iter().map(|s| s.0).collect::<Vec<_>>() != f.states { return Err(("states".into(), format!("{:?}, scan.l has {:?}", states.iter().map(|s| s.0).collect::<Vec<_>>(), f.states))); }
    for (k, (name, st)) in states.iter().enumerate() {
        let (tr, ac) = guard(|| shipped::dfa::get_dfa_table(*st)).map_err(|e| (name.to_string(), e))?;
        let p: Vec<(u32, rx::Id)> = f.rules.iter().enumerate().filter(|(_, r)| r.0.iter().any(|s| s == name)).map(|(i, _)| (f.action[i], ids[i])).collect();
        let r = guard(|| x.compare(&p, &|s, b| { let t = tr[s][b as usize]; if t == !0 { None } else { Some(t as usize) } }, &|s| if ac[s] == !0 { None } else { Some(f.action.get(ac[s] as usize).copied().unwrap_or(9999)) }));
        match r { Ok(Ok(m)) => n += m, Ok(Err((w, m))) => return Err((format!("state {}, text {:?}", name, w.iter().map(|b| *b as char).collect::<String>()), m)), Err(e) => return Err((format!("state {}", name), e)) }
    }
    // regular expressions of the other matcher, in order, per state
    let mut k = 0;
    for (i, (sts, p)) in f.rules.iter().enumerate() { for s in sts {
        let Some((st, pat, eof)) = shipped::RX.get(k) else { return Err((format!("regular expression {}", k), "missing".into())) }; k += 1;
        if st != s { return Err((format!("regular expression {}", k - 1), format!("belongs to state {}, scan.l has {}", st, s))); }
        if *eof != (p == "<<EOF>>") { return Err((format!("regular expression {}", k - 1), format!("end of input: {}", eof))); }
        if *eof { n += 1; continue; }
        let inner = pat.strip_prefix("(?-u)^(").and_then(|x| x.strip_suffix(")")).ok_or((pat.to_string(), "unexpected form".to_string()))?;
        let id = x.parse(inner, &HashMap::new(), false).map_err(|e| (pat.to_string(), e))?; n += 1;
        if let Err(w) = x.same(id, ids[i]) { return Err((format!("regular expression {} for pattern {} in state {}, text {:?}", pat, p, s, w.iter().map(|b| *b as char).collect::<String>()), "matches differently".into())); }
    } }
    if k != shipped::RX.len() { return Err(("regular expressions".into(), format!("{} instead of {}", shipped::RX.len(), k))); }
    Ok(n)
}
// ---------------------------------------------------------------- lexer specifications
#[cfg(not(feature = "flex"))] fn one_c21(_: &mut Rng) -> R { Ok(()) }
#[cfg(not(feature = "flex"))] fn one_c22(_: &mut Rng) -> R { Ok(()) }
#[cfg(not(feature = "flex"))] fn scan_l(_: &str, _: bool) -> Result<u64, String> { Ok(0) }
#[cfg(feature = "flex")] use crate::flex_file::{FlexFile, parse_flex_file};
#[cfg(feature = "flex")]
type Spec = (Vec<String>, Vec<(String, String)>, Vec<(Vec<String>, String, String)>, String);
#[cfg(feature = "flex")]
fn same_file(f: &FlexFile, w: &Spec) -> Result<(), String> {
    if f.all_states != w.0 { return Err(format!("states {:?} instead of {:?}", f.all_states, w.0)); }
    let d: Vec<_> = f.definitions.iter().map(|d| (d.name.clone(), d.def.clone())).collect(); if d != w.1 { return Err(format!("definitions {:?} instead of {:?}", d, w.1)); }
    for (i, (r, e)) in f.rules.iter().zip(&w.2).enumerate() { if r.states != e.0 || r.pattern != e.1 || r.actions != e.2 { return Err(format!("rule {} is {:?} instead of {:?}", i, (&r.states, &r.pattern, &r.actions), e)); } }
    if f.rules.len() != w.2.len() { return Err(format!("{} rules instead of {}", f.rules.len(), w.2.len())); }
    if f.rest_code != w.3 { return Err(format!("code {:?} instead of {:?}", f.rest_code, w.3)); }
    Ok(())
}
/// the numbers of the generated tables, one automaton per state
#[cfg(feature = "flex")]
fn read_tables(text: &str, n: usize) -> Result<Vec<(Vec<Vec<u8>>, Vec<u8>)>, String> {
    let nums = |name: String| -> Result<Vec<u8>, String> { let i = text.find(&name).ok_or(format!("no {}", name))?; let s = &text[i..]; let s = &s[s.find('=').ok_or("no =")? + 1..]; let s = &s[..s.find(';').ok_or("no ;")?]; s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().map_err(|_| format!("number {}", x))).collect() };
    (0..n).map(|i| { let t = nums(format!("TRANSITION_TABLE_{}:", i))?; if t.len() % 256 != 0 { return Err(format!("{} entries", t.len())); } Ok((t.chunks(256).map(|r| r.to_vec()).collect(), nums(format!("ACCEPT_TABLE_{}:", i))?)) }).collect()
}
#[cfg(feature = "flex")]
fn white(r: &mut Rng) -> String { (0..1 + r.below(3)).map(|_| if r.chance(1, 2) { '\t' } else { ' ' }).collect() }
#[cfg(feature = "flex")]
fn act(r: &mut Rng, nl: &str) -> (String, String) { // as spelled, as read (line ends are \n)
    let l: Vec<&str> = match r.below(9) { 0 => vec!["|"], 1 => vec!["{ return x; }"], 2 => vec!["{", "\treturn y;", "}"], 3 => vec!["{", "  if (a) { b; }", "", "%% not a section", "  else { c; } }"], 4 => vec!["{ } { }"], 5 => vec!["{", "} /* é */"], 6 => vec!["{ {", "}", "<xa>no {", "}", "\t}"], 7 => vec!["yyless!(1);"], _ => vec!["{", "    {", "        a", "    }", "    b", "}"] };
    (l.join(nl), l.join("\n") + "\n")
}
#[cfg(feature = "flex")]
fn one_c21(r: &mut Rng) -> R { let t = r.chance(1, 2); specification(r, t, false) }
#[cfg(feature = "flex")]
fn one_c22(r: &mut Rng) -> R { specification(r, true, true) }
#[cfg(feature = "flex")]
fn specification(r: &mut Rng, tables: bool, made: bool) -> R {
    let nl = if r.chance(1, 8) { "\r\n" } else { "\n" }; let mut x = rx::Rx::new();
    let nd = r.below(4).min(3); let mut defs = vec![]; let mut ids = vec![]; let mut sizes = vec![]; let mut t = String::new(); let mut w: Spec = (vec!["INITIAL".into()], vec![], vec![], String::new());
    let ns = r.below(4); let mut left = ns; let names = ["xa", "xdolq", "q_1"];
    let pat = |r: &mut Rng, sizes: &[usize], x: &mut rx::Rx, ids: &[rx::Id], d: usize| -> (String, Option<rx::Id>) { loop {
        let (s, i) = if tables { let a = small(r, d, sizes, 10); (spell(&a, r, 0), Some(to_re(&a, x, ids))) } else { ((*[ "a", "\"é\"", "[^日]+", "{def_x}", "\"<\"|>", "x{2,3}", "\\}", "[}]", "\"{\"", "}x", "%", "%x", "ü", "'<'", "\"//\".*", "(a|b)c" ].get(r.below(16)).unwrap()).to_string(), None) };
        if s.is_empty() || s.contains(char::is_whitespace) || s.starts_with(['<', '}', '%']) { continue; } return (s, i); } };
    loop {
        match r.below(9) {
            0 => t += nl, 1 => { t += "/* text */"; t += nl; } 2 => { t += "%option never-interactive"; t += nl; } 3 => { t += &["%{", "#include <x>", "%x no", "name\tvalue", "", "%% {", "%}", ""].join(nl); } 4 => { t += " * indented"; t += nl; }
            5 | 6 if left > 0 => { let s = names[ns - left]; left -= 1; t += &format!("%x {}{}", s, nl); w.0.push(s.into()); }
            7 if defs.len() < nd => { let d = r.below(2); let (s, i) = pat(r, &sizes, &mut x, &ids, d); let n = ["def_x", "_def_y", "Def9"][defs.len()]; if n != "def_x" && s.contains("{def_") { continue; } t += &format!("{}\t{}{}{}{}", n, white(r), s, if r.chance(1, 4) { " \t" } else { "" }, nl); if let Some(i) = i { if defs.is_empty() { ids.push(i); sizes.push(4); } } w.1.push((n.into(), s.clone())); defs.push(s); }
            _ => if left == 0 && defs.len() >= nd { break },
        }
    }
    t += "%%"; t += nl; let mut meaning = vec![]; let mut open: Vec<String> = vec![];
    for _ in 0..1 + r.below(7) {
        match r.below(6) { 0 => t += nl, 1 => { t += "  \t"; t += nl; } _ => {} }
        let list = |r: &mut Rng| -> Vec<String> { let mut v: Vec<String> = w.0.iter().filter(|_| r.chance(1, 2)).cloned().collect(); if v.is_empty() { v.push(w.0[r.below(w.0.len())].clone()); } if r.chance(1, 2) { v.reverse(); } v };
        if open.is_empty() && r.chance(1, 4) { open = list(r); t += &format!("<{}>{{{}", open.join(","), nl); } else if !open.is_empty() && r.chance(1, 3) { t += "}"; t += nl; open.clear(); }
        let st = if open.is_empty() && r.chance(1, 2) { let v = list(r); t += &format!("<{}>", v.join(",")); v } else if open.is_empty() { vec!["INITIAL".to_string()] } else { open.clone() };
        let d = r.below(3); let (s, i) = if r.chance(1, 8) { ("<<EOF>>".to_string(), if tables { Some(to_re(&Ast::Eof, &mut x, &ids)) } else { None }) } else { pat(r, &sizes, &mut x, &ids, d) };
        let (a, e) = act(r, nl); let sp = white(r); t += &format!("{}{}{}{}", s, sp, a, nl); w.2.push((st.clone(), s, format!("{}{}", sp, e))); meaning.push(i);
    }
    if !open.is_empty() { t += "}"; t += nl; }
    if r.chance(3, 4) { t += "%%"; t += nl; for _ in 0..r.below(3) { let l = ["int f() {", "", "}", "%x none", "a\tb"][r.below(5)]; t += l; t += nl; w.3 += l; w.3 += "\n"; } }
    note(&t);
    let f = match guard(|| parse_flex_file(&t)) { Ok(f) => f, Err(e) => return if made { Ok(()) } else { Err((t.clone(), format!("reading the file {}", e))) } };
    if let Err(m) = same_file(&f, &w) { return if made { Ok(()) } else { Err((t.clone(), m)) }; }  // the reader is C21's
    if made && w.0.iter().all(|s| w.2.iter().any(|q| q.0.contains(s))) && w.2.iter().all(|q| !q.1.contains("{def_y") && !q.1.contains("{def_z")) && w.1.iter().all(|q| !q.1.contains("{def_y") && !q.1.contains("{def_z")) {
        let g = guard(|| crate::lexer_generator::verif_dfa(&f)).map_err(|e| (t.clone(), format!("making the tables {}", e)))?;
        let tb = read_tables(&g, w.0.len()).map_err(|m| (t.clone(), format!("the tables cannot be read: {}", m)))?;
        for (k, s) in w.0.iter().enumerate() {
            let p: Vec<(u32, rx::Id)> = w.2.iter().enumerate().filter(|(_, q)| q.0.contains(s)).map(|(i, _)| (i as u32, meaning[i].unwrap())).collect(); let (tr, ac) = &tb[k]; if tr.len() > 254 { continue; }
            match guard(|| x.compare(&p, &|s, b| { let v = tr[s][b as usize]; if v == !0 { None } else { Some(v as usize) } }, &|s| if ac[s] == !0 { None } else { Some(ac[s] as u32) })) { Ok(Ok(_)) => {} Ok(Err((_, m))) if m.starts_with("too many") => {} Ok(Err((v, m))) => return Err((t.clone(), format!("the table of state {} on {:?}: {}", s, v.iter().map(|b| *b as char).collect::<String>(), m))), Err(e) => return Err((t.clone(), format!("the table of state {} {}", s, e))) }
        }
    }
    Ok(())
}
#[cfg(feature = "flex")]
fn scan_l(path: &str, made: bool) -> Result<u64, String> {
    let src = std::fs::read_to_string(path).unwrap(); let e = rx::read_flex(&src); let f = guard(|| parse_flex_file(&src)).map_err(|m| format!("reading scan.l {}", m))?;
    if f.all_states != e.states { return Err(format!("states {:?} instead of {:?}", f.all_states, e.states)); }
    let d: HashMap<String, String> = f.definitions.iter().map(|d| (d.name.clone(), d.def.clone())).collect(); if d != e.defs || d.len() != f.definitions.len() { return Err("other definitions".into()); }
    let r: Vec<_> = f.rules.iter().map(|r| (r.states.clone(), r.pattern.clone())).collect(); if r != e.rules { let i = r.iter().zip(&e.rules).take_while(|(a, b)| a == b).count(); return Err(format!("rule {}: {:?} instead of {:?}", i, r.get(i), e.rules.get(i))); }
    if !made { return Ok(r.len() as u64); }
    let tb = read_tables(&guard(|| crate::lexer_generator::verif_dfa(&f)).map_err(|m| format!("making the tables {}", m))?, f.all_states.len()).map_err(|m| format!("the tables cannot be read: {}", m))?;
    let mut x = rx::Rx::new(); let ids: Vec<rx::Id> = e.rules.iter().map(|(_, p)| x.parse(p, &e.defs, true).unwrap_or_else(|m| panic!("{}: {}", p, m))).collect(); let mut n = 0;
    for (k, s) in e.states.iter().enumerate() { let p: Vec<(u32, rx::Id)> = e.rules.iter().enumerate().filter(|(_, q)| q.0.contains(s)).map(|(i, _)| (e.action[i], ids[i])).collect(); let (tr, ac) = &tb[k];
        match guard(|| x.compare(&p, &|s, b| { let v = tr[s][b as usize]; if v == !0 { None } else { Some(v as usize) } }, &|s| if ac[s] == !0 { None } else { Some(e.action.get(ac[s] as usize).copied().unwrap_or(9999)) })) { Ok(Ok(m)) => n += m, Ok(Err((v, m))) => return Err(format!("the table of state {} on {:?}: {}", s, v.iter().map(|b| *b as char).collect::<String>(), m)), Err(m) => return Err(format!("the table of state {} {}", s, m)) } }
    Ok(n)
}
pub fn main() {
    std::panic::set_hook(Box::new(|i| { let s = i.to_string(); PANIC.with(|p| *p.borrow_mut() = s.replace('\n', " ")); *LAST.lock().unwrap() = s; }));
    let a: Vec<String> = std::env::args().collect(); let p = a[1].as_str(); let dir = arg("--out").unwrap_or("/tmp".into());
    let seed: u64 = arg("--seed").unwrap_or("1".into()).parse().unwrap(); let secs: u64 = arg("--secs").unwrap_or("10".into()).parse().unwrap();
    let fail = |d: &str, m: &str| -> ! { std::fs::create_dir_all(&dir).ok(); let f = format!("{}/{}-gen.json", dir, p); std::fs::write(&f, format!("{{\"property\": {}, \"kind\": \"program\", \"program\": {}, \"finding\": {}}}\n", json(p), json(d), json(m))).ok(); println!("FAIL {} {} {}", p, f, m); std::process::exit(1) };
    if p == "C10" { match catch_unwind(|| c10(&arg("--scan").unwrap_or("/repo/crates/lexer-generator/resources/scan.l".into()))) { Ok(Ok(n)) => println!("COUNT {}", n), Ok(Err((d, m))) => fail(&d, &m), Err(_) => { println!("INTERNAL {}", LAST.lock().unwrap()); std::process::exit(3) } } return; }
    if let Some(d) = arg("--dump") { *DUMP.lock().unwrap() = Some((std::io::BufWriter::new(std::fs::File::create(d).unwrap()), arg("--dumps").map(|n| n.parse().unwrap()).unwrap_or(5000))); }
    let f: fn(&mut Rng) -> R = match p { "C16" => one_c16, "C17" => one_c17, "C18" => one_c18, "C19" => one_c19, "C20" => one_c20, "C21" => one_c21, "C22" => one_c22, _ => { println!("UNKNOWN"); std::process::exit(2) } };
    let until = Instant::now() + Duration::from_secs(secs); let next = AtomicU64::new(0); let stop = AtomicBool::new(false); let found: Mutex<Option<(String, String)>> = Mutex::new(None); let internal: Mutex<Option<String>> = Mutex::new(None);
    let cur: Vec<AtomicU64> = (0..8).map(|_| AtomicU64::new(0)).collect(); let t0 = Instant::now(); let live = AtomicU64::new(8); let slow = AtomicU64::new(0); let notes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    std::thread::scope(|sc| {
        for th in 0..8 { let (cur, next, stop, found, internal, live) = (&cur, &next, &stop, &found, &internal, &live); let (slow, notes) = (&slow, &notes);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                let mut mine = HashSet::new();
                while Instant::now() < until && !stop.load(SeqCst) {
                    let i = next.fetch_add(1, SeqCst); let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i).wrapping_add(p.bytes().map(|b| b as u64).sum::<u64>() << 40));
                    cur[th].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                    match catch_unwind(AssertUnwindSafe(|| f(&mut r))) { Ok(Ok(())) => {} Ok(Err(e)) => { stop.store(true, SeqCst); let mut fd = found.lock().unwrap(); if fd.as_ref().is_none_or(|x| x.0.len() > e.0.len()) { *fd = Some(e); } } Err(_) => { stop.store(true, SeqCst); *internal.lock().unwrap() = Some(PANIC.with(|p| p.borrow().clone())); } }
                    { let n = NOTE.with(|n| n.replace(0)); if n != 0 && mine.len() < 2_000_000 { mine.insert(n); } } { let d = t0.elapsed().as_millis() as u64 + 1 - cur[th].load(SeqCst); if d > slow.load(SeqCst) { slow.store(d, SeqCst); } } cur[th].store(0, SeqCst);
                }
                notes.lock().unwrap().extend(mine); live.fetch_sub(1, SeqCst);
            }).unwrap(); }
        let (cur, live, next) = (&cur, &live, &next); let fail = &fail;
        sc.spawn(move || while live.load(SeqCst) > 0 { std::thread::sleep(Duration::from_millis(100)); for c in cur { let t = c.load(SeqCst); if t != 0 && t0.elapsed().as_millis() as u64 > t + 60_000 { println!("FAIL {} - no answer within 60 s", p); std::process::exit(1); } } });
    });
    if let Some((d, m)) = found.into_inner().unwrap() { println!("STATS {{\"evaluations\": {}}}", next.load(SeqCst)); fail(&d, &m); }
    if let Some(m) = internal.into_inner().unwrap() { println!("INTERNAL {}", m); std::process::exit(3) }
    let mut samples = vec![]; for i in 0..3 { let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i).wrapping_add(p.bytes().map(|b| b as u64).sum::<u64>() << 40)); samples.push(match p { "C19" => { let g = grammar(&mut r); noisy(&g, &mut r) } "C17" | "C18" => plain(&grammar(&mut r)), "C20" => { let a = ast(&mut r, 3, 0); spell(&a, &mut r, 0) } _ => String::from("a list of symbols with repetitions") }); }
    if p == "C21" || p == "C22" { if let Some(s) = arg("--scan") { match scan_l(&s, p == "C22") { Ok(n) => println!("COUNT {}", n), Err(m) if p == "C22" && !m.starts_with("the table") && !m.starts_with("making the tables") && !m.starts_with("no ") => println!("COUNT 0"), Err(m) => fail("scan.l", &m) } } }
    // the real grammar as well
    if matches!(p, "C17" | "C18" | "C19") && arg("--gram").is_some() {
        let src = std::fs::read_to_string(arg("--gram").unwrap()).unwrap(); let raw = gr::read(&src);
        let b = check_reading(&src, &raw); if p == "C19" { if let Err(m) = &b { fail("gram.y", m); } }
        if let (Ok(b), true) = (b, p != "C19") { match build(&b) { Err(m) => if p == "C18" { fail("gram.y", &m) }, Ok(l) => if p == "C18" { if let Err(m) = compare_lalr(&raw, &l) { fail("gram.y", &m); } else { if let Some(d) = DUMP.lock().unwrap().as_mut() { d.1 += 1; } dump("gram.y", &raw, &l); } } else if let Err(m) = check_compressed(&l) { fail("gram.y", &m); } } }
    }
    if let Some((mut f, _)) = DUMP.lock().unwrap().take() { use std::io::Write; f.flush().unwrap(); }
    println!("STATS {{\"evaluations\": {}, \"distinct\": {}, \"slowest_ms\": {}, \"samples\": [{}]}}", next.load(SeqCst), notes.lock().unwrap().len(), slow.load(SeqCst), samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
}
