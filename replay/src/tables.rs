//! Complete comparisons of the shipped tables, rules, kinds and keywords with the grammar file.
use crate::check::*;
use crate::oracle::*;
#[cfg(not(verif_hooks))]
pub fn run(_o: &Oracle, _p: &str, _dir: &str) { println!("NOHOOKS"); }
#[cfg(verif_hooks)]
pub use with_hooks::run;
#[cfg(verif_hooks)]
mod with_hooks {
    use super::*;
    use crate::gen::*; use crate::grammar::*; use crate::json; use crate::rng::Rng; use crate::tree::kind_name;
    use postgresql_cst_parser::verif_hooks as h;
    use std::collections::{HashMap, VecDeque};

    fn token_kind(name: &str) -> h::TokenKind {
        use h::TokenKind as K;
        let c: Vec<char> = name.chars().collect();
        if c.len() == 3 && c[0] == '\'' { return K::RAW(c[1].to_string()); }
        match name { "$end" => K::RAW("$end".into()), "IDENT" => K::IDENT, "SCONST" => K::SCONST, "BCONST" => K::BCONST, "XCONST" => K::XCONST, "ICONST" => K::ICONST, "FCONST" => K::FCONST, "PARAM" => K::PARAM, "Op" => K::Op, "TYPECAST" => K::TYPECAST, "DOT_DOT" => K::DOT_DOT, "COLON_EQUALS" => K::COLON_EQUALS, "EQUALS_GREATER" => K::EQUALS_GREATER, "LESS_EQUALS" => K::LESS_EQUALS, "GREATER_EQUALS" => K::GREATER_EQUALS, "NOT_EQUALS" => K::NOT_EQUALS, "C_COMMENT" => K::C_COMMENT, "SQL_COMMENT" => K::SQL_COMMENT, "USCONST" => K::USCONST, "UIDENT" => K::UIDENT, s => K::KEYWORD(s.into()) }
    }
    struct Out<'a> { p: &'a str, dir: &'a str, n: u64 }
    impl<'a> Out<'a> {
        fn fail(&self, item: &str, msg: &str, input: Option<&str>) -> ! {
            std::fs::create_dir_all(self.dir).ok(); let f = format!("{}/{}-table.json", self.dir, self.p);
            let i = input.map(|s| format!("\"kind\": \"input\", \"input\": {}, ", json(s))).unwrap_or("\"kind\": \"table\", ".into());
            std::fs::write(&f, format!("{{\"property\": {}, {}\"item\": {}, \"finding\": {}}}\n", json(self.p), i, json(item), json(msg))).ok();
            println!("FAIL {} {} {}: {}", self.p, f, item, msg); println!("COUNT {}", self.n); std::process::exit(1)
        }
        fn ok(&mut self) { self.n += 1; }
    }
    fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "panic".to_string()) }
    pub fn run(o: &Oracle, p: &str, dir: &str) {
        let mut out = Out { p, dir, n: 0 };
        match p { "C13" | "C12" => lr(o, &mut out), "C16" => kinds(o, &mut out), "C09" => keywords(o, &mut out), _ => {} }
        println!("COUNT {}", out.n);
    }
    fn kinds(o: &Oracle, out: &mut Out) {
        let nt = h::num_terminal_symbol(); let nn = h::num_non_terminal_symbol();
        if nt as usize != o.g.terms.len() + 0 { /* terminals the grammar only names in precedence lists count too */ }
        let mut used: HashMap<u32, String> = HashMap::new(); let mut names: HashMap<String, u32> = HashMap::new();
        let mut put = |out: &mut Out, id: u32, what: String, want: String| {
            out.ok();
            if let Some(w) = used.insert(id, what.clone()) { out.fail(&what, &format!("shares the number {} with {}", id, w), None); }
            let k = match guard(|| kind_name(id)) { Ok(k) => k, Err(_) => out.fail(&what, &format!("its number {} is no kind", id), None) };
            if k != want { out.fail(&what, &format!("has the public kind {} instead of {}", k, want), None); }
            if let Some(o) = names.insert(k.clone(), id) { out.fail(&what, &format!("kind name {} is used for {} and {}", k, o, id), None); }
        };
        for (i, t) in o.g.terms.iter().enumerate() {
            match h::token_kind_to_component_id(&token_kind(t)) { None => out.fail(t, "terminal without a number", None), Some(id) => { if id >= nt { out.fail(t, &format!("terminal number {} of {}", id, nt), None); } put(out, id, t.clone(), o.kind_name[i].clone()) } }
        }
        for n in o.g.nts.iter().map(|s| s.as_str()).chain(["$accept"]) {
            let id = match guard(|| h::rule_name_to_component_id(n)) { Ok(i) => i, Err(_) => out.fail(n, "nonterminal without a number", None) };
            if id >= nn { out.fail(n, &format!("nonterminal number {} of {}", id, nn), None); }
            put(out, id + nt, n.to_string(), if n == "$accept" { "Dollaraccept".into() } else { n.to_string() });
        }
        for (t, k) in [("C_COMMENT", "C_COMMENT"), ("SQL_COMMENT", "SQL_COMMENT")] { match h::token_kind_to_component_id(&token_kind(t)) { Some(id) if id >= nt + nn => put(out, id, t.into(), k.into()), x => out.fail(t, &format!("comment kind number {:?}", x), None) } }
        use postgresql_cst_parser::syntax_kind::SyntaxKind as S;
        put(out, S::Whitespace as u32, "whitespace".into(), "Whitespace".into()); put(out, S::Root as u32, "root".into(), "Root".into());
        let n = used.len() as u32;
        for i in 0..n {
            out.ok();
            if !used.contains_key(&i) { out.fail(&format!("number {}", i), "no symbol has this number: the numbering has a gap", None); }
            use cstree::Syntax; let r = guard(|| S::into_raw(S::from_raw(cstree::RawSyntaxKind(i))).0);
            if r != Ok(i) { out.fail(&format!("number {}", i), &format!("kind conversion and back gives {:?}", r), None); }
            let c: cstree::RawSyntaxKind = S::from_raw(cstree::RawSyntaxKind(i)).into(); if c.0 != i { out.fail(&format!("number {}", i), "conversion into the raw kind changes the number", None); }
        }
        if nt + nn + 4 != n { out.fail("symbol counts", &format!("{} terminals + {} nonterminals + 4 is not {}", nt, nn, n), None); }
        let (ek, ei) = h::end_rule();
        if h::token_kind_to_component_id(&ek) != Some(ei) || kind_name(ei) != "Dollarend" { out.fail("$end", "end marker number", None); }
        for (i, (name, _)) in h::rules().iter().enumerate() { out.ok(); let want = o.g.rules.get(i).map(|r| o.g.nts[r.lhs].as_str()).unwrap_or("$accept"); if *name != want { out.fail(&format!("rule {}", i), &format!("left-hand side {} instead of {}", name, want), None); } }
    }
    fn keywords(o: &Oracle, out: &mut Out) {
        let m = h::keyword_map();
        let mut rng = Rng::new(7);
        let check = |out: &mut Out, s: &str| { out.n += 1; if let Some(f) = check_input(o, s).into_iter().find(|f| f.tags.contains(&"C09")) { out.fail(s, &f.msg, Some(s)); } };
        for (w, t) in &o.words {
            for k in 0..6 { let s: String = match k { 0 => w.clone(), 1 => w.to_ascii_uppercase(), _ => w.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect() }; check(out, &s); check(out, &format!("{}\t{}", s, s)); }
            for s in [format!("{}x", w), format!("{}_", w), format!("{}1", w), format!("{}$", w), format!("_{}", w), format!("\"{}\"", w), format!("{}é", w), w[..w.len() - 1].to_string(), w[1..].to_string(), w.replace('s', "ſ"), w.replace('k', "\u{212A}"), w.replace('i', "ı"), format!("{}.{}", w, w), format!("{}'a'", w), format!("u&\"{}\"", w)] { if !s.is_empty() { check(out, &s); } }
            out.ok();
            if m.get(w.as_str()) != Some(&t.as_str()) { out.fail(w, &format!("keyword list has {:?} instead of {}", m.get(w.as_str()), t), Some(w)); }
            match h::token_kind_to_component_id(&h::TokenKind::KEYWORD(t.clone())) { Some(id) if kind_name(id) == *t => {} x => out.fail(t, &format!("keyword kind is {:?}", x.map(kind_name)), Some(w)) }
        }
        for (w, t) in &m { out.ok(); if !o.words.iter().any(|(a, b)| a == w && b == t) { out.fail(w, &format!("{} is a keyword {} that the grammar's keyword categories do not have", w, t), Some(w)); } }
    }
    fn lr(o: &Oracle, out: &mut Out) {
        let rules = h::rules(); let (ac, at, ai, ad) = h::action_tables(); let (gc, gt, gi) = h::goto_tables();
        if rules.len() != o.g.rules.len() && rules.len() != o.g.rules.len() + 1 { out.fail("rules", &format!("{} rules instead of {}", rules.len(), o.g.rules.len()), None); }
        for (i, r) in o.g.rules.iter().enumerate() { out.ok(); if rules[i] != (o.g.nts[r.lhs].as_str(), r.rhs.len()) { out.fail(&format!("rule {}", i), &format!("is {:?} instead of {} of length {}", rules[i], o.g.nts[r.lhs], r.rhs.len()), None); } }
        let tid: Vec<usize> = o.g.terms.iter().map(|t| match h::token_kind_to_component_id(&token_kind(t)) { Some(x) => x as usize, None => out.fail(t, "terminal without a number", None) }).collect();
        let nid: Vec<usize> = o.g.nts.iter().map(|n| match guard(|| h::rule_name_to_component_id(n)) { Ok(x) => x as usize, Err(_) => out.fail(n, "nonterminal without a number", None) }).collect();
        let ns = ai.len();
        let act = |s: usize, c: usize| -> i32 { let i = ai[s] as usize + c; if i >= ac.len() || i >= at.len() { return i32::MIN; } if ac[i] == c as i16 { if at[i] == 0x7FFE { ad[s] as i32 } else { at[i] as i32 } } else { 0x7FFF } };
        let go = |s: usize, c: usize| -> i32 { let i = gi[s] as usize + c; if i >= gc.len() { return i32::MIN; } if gc[i] == c as i16 { gt[i] as i32 } else { -1 } };
        // reference state -> shipped state, with the way there
        let mut map = vec![usize::MAX; o.t.nstates]; let mut back = vec![usize::MAX; ns]; let mut pred: Vec<Option<(usize, Sym)>> = vec![None; o.t.nstates];
        map[0] = 0; back[0] = 0; let mut q = VecDeque::from([0usize]);
        let g = Gen::new(o);
        let witness = |out: &Out, s: usize, x: Sym, pred: &Vec<Option<(usize, Sym)>>, msg: String| -> ! {
            let mut path = vec![x]; let mut c = s; while let Some((p, y)) = pred[c] { path.push(y); c = p; } path.reverse();
            let mut hit: Option<(String, String)> = None;
            if path.iter().all(|y| g.derivable(*y)) {
                let mut toks = vec![]; for y in &path { g.shortest(*y, &mut toks); }
                let mut rng = Rng::new(1);
                for k in 0..400 {
                    // continue the way the reference automaton allows
                    let mut v = toks.clone(); let n = if k == 0 { 0 } else { rng.below(8) };
                    for _ in 0..n { let c: Vec<usize> = (1..o.g.terms.len()).filter(|&t| g.spelling(t).is_some()).collect(); let opts: Vec<usize> = c.into_iter().filter(|&t| viable(o, &v, t)).collect(); if opts.is_empty() { break; } v.push(opts[rng.below(opts.len())]); }
                    let text = g.spell_tokens(&v, &mut rng, true);
                    if let Some(f) = check_input(o, &text).into_iter().find(|f| f.tags.contains(&"C13") || f.tags.contains(&"C12") || f.tags.contains(&"C01")) { hit = Some((text, f.msg)); break; }
                }
            }
            let item = format!("after {}", path[..path.len() - 1].iter().map(|y| o.g.name(*y)).collect::<Vec<_>>().join(" "));
            match hit { Some((t, m)) => out.fail(&item, &format!("{}; {}", msg, m), Some(&t)), None => out.fail(&item, &msg, None) }
        };
        while let Some(s) = q.pop_front() {
            let r = map[s];
            let mut link = |to: usize, got: i32, x: Sym, map: &mut Vec<usize>, pred: &mut Vec<Option<(usize, Sym)>>| -> Result<(), String> {
                if got < 0 || got as usize >= ns { return Err(format!("on {} leads to {} where the construction has a transition", o.g.name(x), got)); }
                let got = got as usize;
                if map[to] == usize::MAX && back[got] == usize::MAX { map[to] = got; back[got] = to; pred[to] = Some((s, x)); q.push_back(to); Ok(()) }
                else if map[to] == got { Ok(()) } else { Err(format!("on {} leads to shipped state {} which stands for another state", o.g.name(x), got)) }
            };
            for (t, a) in o.t.action[s].iter().enumerate() {
                let v = act(r, tid[t]); out.n += 1;
                let err = match a {
                    Act::Err => if v == 0x7FFF { None } else { Some(format!("has action code {} on {} where the construction has an error", v, o.g.terms[t])) },
                    Act::Accept => if v == 0 { None } else { Some(format!("has action code {} instead of accept", v)) },
                    Act::Reduce(k) => if v == -(*k as i32) - 1 { None } else { Some(format!("has action code {} on {} instead of the reduction by rule {}", v, o.g.terms[t], k)) },
                    Act::Shift(to) => if v > 0 && v != 0x7FFF { link(*to, v - 1, Sym::T(t), &mut map, &mut pred).err() } else { Some(format!("has action code {} on {} instead of a shift", v, o.g.terms[t])) },
                };
                if let Some(m) = err { witness(out, s, Sym::T(t), &pred, m); }
            }
            for n in 0..o.g.nts.len() {
                let v = go(r, nid[n]); out.n += 1;
                let err = match o.t.goto_[s].get(&n) { None => if v == -1 { None } else { Some(format!("has a transition {} on {}", v, o.g.nts[n])) }, Some(&to) => link(to, v, Sym::N(n), &mut map, &mut pred).err() };
                if let Some(m) = err { witness(out, s, Sym::N(n), &pred, m); }
            }
        }
        if let Some(r) = back.iter().position(|&x| x == usize::MAX) { out.fail(&format!("shipped state {}", r), "is not a state of the construction", None); }
    }
    fn viable(o: &Oracle, v: &[usize], t: usize) -> bool {
        let mut st = vec![0usize];
        for &x in v.iter().chain([&t]) { loop { match o.t.action[*st.last().unwrap()][x] { Act::Shift(q) => { st.push(q); break; } Act::Reduce(r) => { let k = st.len() - o.g.rules[r].rhs.len(); st.truncate(k); let q = o.t.goto_[*st.last().unwrap()][&o.g.rules[r].lhs]; st.push(q); } _ => return false } } }
        true
    }
}
