//! The public tree, flattened, and the comparison with what the oracle expects.
use crate::oracle::*;
use crate::reflex::Tok;
use postgresql_cst_parser::{syntax_kind::SyntaxKind, ResolvedNode};
use cstree::util::NodeOrToken;
use cstree::traversal::WalkEvent;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev { Open(String, usize, usize), Tok(String, usize, usize, String), Close }
pub fn flatten(n: &ResolvedNode) -> Vec<Ev> {
    let mut v = vec![];
    for e in n.preorder_with_tokens() {
        match e {
            WalkEvent::Enter(NodeOrToken::Node(n)) => { let r = n.text_range(); v.push(Ev::Open(format!("{:?}", n.kind()), r.start().into(), r.end().into())) }
            WalkEvent::Enter(NodeOrToken::Token(t)) => { let r = t.text_range(); v.push(Ev::Tok(format!("{:?}", t.kind()), r.start().into(), r.end().into(), t.text().to_string())) }
            WalkEvent::Leave(NodeOrToken::Node(_)) => v.push(Ev::Close),
            WalkEvent::Leave(_) => {}
        }
    }
    v
}
pub fn trivia(k: &str) -> bool { matches!(k, "Whitespace" | "C_COMMENT" | "SQL_COMMENT") }
/// drop trivia tokens and, optionally, nodes without any grammar token
pub fn skeleton(v: &[Ev], drop_empty: bool) -> Vec<Ev> {
    let mut out: Vec<Ev> = vec![]; let mut open: Vec<(usize, bool)> = vec![];
    for e in v {
        match e {
            Ev::Open(k, _, _) => { open.push((out.len(), false)); out.push(Ev::Open(k.clone(), 0, 0)); }
            Ev::Tok(k, s, t, x) => if !trivia(k) { for o in open.iter_mut() { o.1 = true; } out.push(Ev::Tok(k.clone(), *s, *t, x.clone())); },
            Ev::Close => { let (p, non) = open.pop().unwrap(); if !non && drop_empty && !open.is_empty() { out.truncate(p); } else { out.push(Ev::Close); } }
        }
    }
    out
}
pub fn expected(o: &Oracle, t: &Tree, toks: &[Tok], s: &str, drop_empty: bool) -> Vec<Ev> {
    let real: Vec<&Tok> = toks.iter().filter(|t| !Oracle::is_comment(t)).collect();
    let mut v = vec![Ev::Open("Root".into(), 0, 0)];
    enum W<'a> { T(&'a Tree), C }
    let mut st = vec![W::C, W::T(t)];
    while let Some(w) = st.pop() {
        match w {
            W::C => v.push(Ev::Close),
            W::T(Tree::Leaf(i)) => { let t = real[*i]; v.push(Ev::Tok(o.kind_name[o.term[&t.kind]].clone(), t.start, t.end, s[t.start..t.end].to_string())); }
            W::T(Tree::Node { rule, kids }) => { v.push(Ev::Open(o.g.nts[o.g.rules[*rule].lhs].clone(), 0, 0)); st.push(W::C); for k in kids.iter().rev() { st.push(W::T(k)); } }
        }
    }
    skeleton(&v, drop_empty)
}
/// every inner node is an instance of a production (empty children may have been removed when `dropped`)
pub fn productions_ok(o: &Oracle, v: &[Ev], dropped: bool) -> Result<(), String> {
    use crate::grammar::Sym;
    let mut stack: Vec<(String, Vec<(bool, String)>)> = vec![];
    let nt: &std::collections::HashMap<String, usize> = &o.g.nts.iter().enumerate().map(|(i, s)| (s.clone(), i)).collect();
    for e in v {
        match e {
            Ev::Open(k, _, _) => { if let Some(p) = stack.last_mut() { p.1.push((true, k.clone())); } stack.push((k.clone(), vec![])); }
            Ev::Tok(k, _, _, _) => { if trivia(k) { continue; } match stack.last_mut() { Some(p) => p.1.push((false, k.clone())), None => return Err("token outside the root".into()) } }
            Ev::Close => {
                let (k, kids) = stack.pop().unwrap();
                if stack.is_empty() {
                    let start = &o.g.nts[o.g.rules[0].lhs];
                    let ok = k == "Root" && (kids.len() == 1 && kids[0] == (true, start.clone()) || kids.is_empty() && dropped && o.nullable[o.g.rules[0].lhs]);
                    if !ok { return Err(format!("root {} does not hold one {}: {:?}", k, start, kids)); }
                    continue;
                }
                let Some(&n) = nt.get(&k) else { return Err(format!("inner node of kind {} is no grammar nonterminal", k)) };
                let fits = o.prods[&n].iter().any(|&r| {
                    // positions in kids reachable after each right-hand side symbol
                    let mut pos = vec![0usize];
                    for s in &o.g.rules[r].rhs {
                        let mut nx = vec![];
                        for &p in &pos {
                            let m = p < kids.len() && match s { Sym::T(t) => !kids[p].0 && kids[p].1 == o.kind_name[*t], Sym::N(x) => kids[p].0 && kids[p].1 == o.g.nts[*x] };
                            if m && !nx.contains(&(p + 1)) { nx.push(p + 1); }
                            if dropped { if let Sym::N(x) = s { if o.nullable[*x] && !nx.contains(&p) { nx.push(p); } } }
                        }
                        pos = nx;
                    }
                    pos.contains(&kids.len())
                });
                if !fits { return Err(format!("node {} with children {:?} is an instance of no production", k, kids.iter().map(|x| x.1.clone()).collect::<Vec<_>>())); }
            }
        }
    }
    Ok(())
}
pub fn kind_name(raw: u32) -> String { use cstree::Syntax; format!("{:?}", SyntaxKind::from_raw(cstree::RawSyntaxKind(raw))) }
