//! What the parser has to answer for a text, from the reference scanner, the reference LALR tables
//! and nothing of the parser itself.
use crate::grammar::*;
use crate::reflex::{self, Keywords, LexErr, Tok};
use std::collections::HashMap;

pub struct Oracle { pub g: Grammar, pub t: Tables, pub term: HashMap<String, usize>, pub kw: Keywords, pub words: Vec<(String, String)>, pub kind_name: Vec<String>, pub nullable: Vec<bool>, pub prods: HashMap<usize, Vec<usize>> }
#[derive(Debug, Clone)]
pub enum Tree { Leaf(usize), Node { rule: usize, kids: Vec<Tree> } }
#[derive(Debug, Clone)]
pub enum Expect { Tree(Tree, Vec<Tok>), Lex(LexErr), Syntax { start: usize, end: usize, toks: Vec<Tok> } }

/// public kind name of a grammar terminal
pub fn terminal_kind(name: &str) -> String {
    if name == "$end" { return "Dollarend".into(); }
    let c: Vec<char> = name.chars().collect();
    if c.len() == 3 && c[0] == '\'' {
        return match c[1] { '^' => "Caret", ':' => "Colon", ',' => "Comma", '.' => "Dot", '=' => "Equals", '>' => "Greater", '[' => "LBracket", '(' => "LParen", '<' => "Less", '-' => "Minus", '%' => "Percent", '+' => "Plus", ']' => "RBracket", ')' => "RParen", ';' => "Semicolon", '/' => "Slash", '*' => "Star", _ => "?" }.into();
    }
    name.to_string()
}
/// keyword list of the grammar file: the members of its keyword category rules
pub fn keywords(raw: &RawGrammar) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    for (l, r, _) in &raw.rules {
        if matches!(l.as_str(), "unreserved_keyword" | "col_name_keyword" | "type_func_name_keyword" | "reserved_keyword") {
            for t in r { v.push((t.strip_suffix("_P").unwrap_or(t).to_ascii_lowercase(), t.clone())); }
        }
    }
    v.sort(); v.dedup(); v
}
impl Oracle {
    pub fn load(path: &str) -> Oracle {
        let raw = read(&std::fs::read_to_string(path).expect("grammar file"));
        let words = keywords(&raw);
        let g = Grammar::from_raw(&raw);
        let t = lalr(&g);
        let term = g.terms.iter().enumerate().map(|(i, s)| (s.clone(), i)).collect();
        let kind_name = g.terms.iter().map(|s| terminal_kind(s)).collect();
        let mut nullable = vec![false; g.nts.len()];
        loop { let mut ch = false; for r in &g.rules { if !nullable[r.lhs] && r.rhs.iter().all(|s| matches!(s, Sym::N(n) if nullable[*n])) { nullable[r.lhs] = true; ch = true; } } if !ch { break; } }
        let mut prods: HashMap<usize, Vec<usize>> = HashMap::new();
        for (i, r) in g.rules.iter().enumerate() { prods.entry(r.lhs).or_default().push(i); }
        let kw = Keywords(words.iter().cloned().collect());
        Oracle { g, t, term, kw, words, kind_name, nullable, prods }
    }
    pub fn is_comment(t: &Tok) -> bool { t.kind == "C_COMMENT" || t.kind == "SQL_COMMENT" }
    pub fn expect(&self, s: &str) -> Expect {
        let toks = match reflex::lex(s, &self.kw) { Ok(t) => reflex::lookahead(&t), Err(e) => return Expect::Lex(e) };
        let real: Vec<Tok> = toks.iter().filter(|t| !Self::is_comment(t)).cloned().collect();
        match self.lr(&real, s.len()) { Ok(t) => Expect::Tree(t, toks), Err((start, end)) => Expect::Syntax { start, end, toks } }
    }
    pub fn lr(&self, toks: &[Tok], len: usize) -> Result<Tree, (usize, usize)> {
        let mut st: Vec<usize> = vec![0]; let mut val: Vec<Tree> = vec![]; let mut i = 0;
        loop {
            let (t, pos) = if i < toks.len() { (self.term.get(&toks[i].kind).copied(), (toks[i].start, toks[i].end)) } else { (Some(0), (len, len)) };
            let Some(t) = t else { return Err(pos) };
            match self.t.action[*st.last().unwrap()][t] {
                Act::Err => return Err(pos),
                Act::Accept => return Ok(val.pop().unwrap()),
                Act::Shift(q) => { st.push(q); val.push(Tree::Leaf(i)); i += 1; }
                Act::Reduce(r) => {
                    let n = self.g.rules[r].rhs.len();
                    let kids = val.split_off(val.len() - n); st.truncate(st.len() - n);
                    let q = self.t.goto_[*st.last().unwrap()][&self.g.rules[r].lhs];
                    st.push(q); val.push(Tree::Node { rule: r, kids });
                }
            }
        }
    }
}
