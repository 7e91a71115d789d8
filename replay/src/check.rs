//! One input against the real parser and the oracle.
use crate::oracle::*;
use crate::reflex::{self, LexErr, Tok};
use crate::tree::*;
use postgresql_cst_parser::ParserError;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Finding { pub tags: Vec<&'static str>, pub msg: String }
pub const DROPPED: bool = cfg!(feature = "noempty");

pub fn class_of_error(m: &str) -> &'static str {
    match m {
        "unterminated /* comment" => "C04",
        "operator too long" => "C07",
        "null character not permitted" => "C03",
        _ if m.starts_with("unterminated") || m.starts_with("zero-length") => "C05",
        _ if m.contains("Unicode") => "C06",
        _ if m.contains("numeric") || m.contains("integer") || m.contains("parameter") => "C08",
        _ => "C01",
    }
}
fn classes(s: &str, t: &Tok) -> Vec<&'static str> {
    let x = &s.as_bytes()[t.start..];
    let c = x[0];
    match t.kind.as_str() {
        "C_COMMENT" | "SQL_COMMENT" => vec!["C04"],
        "BCONST" | "XCONST" => vec!["C05"],
        "SCONST" => if c == b'e' || c == b'E' { vec!["C05", "C06"] } else { vec!["C05"] },
        "ICONST" | "FCONST" | "PARAM" => vec!["C08"],
        "IDENT" if c == b'"' || x.contains(&b'"') && s[t.start..t.end].contains('"') => vec!["C05", "C09"],
        _ if reflex::ident_start(c) => vec!["C09"],
        _ if reflex::OPCH.contains(&c) || reflex::SELF.contains(&c) => vec!["C07"],
        _ => vec!["C07", "C03"],
    }
}
/// text of a panic with positions
pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())) }

#[cfg(verif_hooks)]
pub mod real {
    use super::*;
    use postgresql_cst_parser::verif_hooks::*;
    pub fn kind(k: &TokenKind) -> String {
        match k {
            TokenKind::RAW(s) if s == "$end" => "$end".into(), TokenKind::RAW(s) => format!("'{}'", s), TokenKind::KEYWORD(s) => s.clone(),
            TokenKind::IDENT => "IDENT".into(), TokenKind::C_COMMENT => "C_COMMENT".into(), TokenKind::SQL_COMMENT => "SQL_COMMENT".into(), TokenKind::EOF => "EOF".into(), TokenKind::BCONST => "BCONST".into(), TokenKind::XCONST => "XCONST".into(),
            TokenKind::SCONST => "SCONST".into(), TokenKind::USCONST => "USCONST".into(), TokenKind::UIDENT => "UIDENT".into(), TokenKind::TYPECAST => "TYPECAST".into(), TokenKind::DOT_DOT => "DOT_DOT".into(), TokenKind::COLON_EQUALS => "COLON_EQUALS".into(),
            TokenKind::EQUALS_GREATER => "EQUALS_GREATER".into(), TokenKind::LESS_EQUALS => "LESS_EQUALS".into(), TokenKind::GREATER_EQUALS => "GREATER_EQUALS".into(), TokenKind::NOT_EQUALS => "NOT_EQUALS".into(), TokenKind::Op => "Op".into(), TokenKind::PARAM => "PARAM".into(), TokenKind::FCONST => "FCONST".into(), TokenKind::ICONST => "ICONST".into(),
        }
    }
    pub type Lexed = Result<Vec<(Tok, String)>, ParserError>;
    fn conv(v: &[Token]) -> Vec<(Tok, String)> { v.iter().map(|t| (Tok { kind: kind(&t.kind), start: t.start_byte_pos, end: t.end_byte_pos }, t.value.clone())).collect() }
    /// tokens before and after the look-ahead pass
    pub fn tokens(s: &str) -> Result<(Lexed, Option<Vec<(Tok, String)>>), String> {
        super::guard(|| match lex(s) {
            Err(e) => (Err(e), None),
            Ok(mut v) => { let a = conv(&v); if !v.is_empty() { init_tokens(&mut v); } (Ok(a), Some(conv(&v))) }
        })
    }
}
#[cfg(verif_hooks)]
fn err_matches(e: &LexErr, r: &ParserError) -> bool {
    match (e, r) {
        (LexErr::Scan(m), ParserError::ScanError { message }) => m == message,
        (LexErr::Report(m, p), ParserError::ScanReport(x)) => *m == x.message && *p == x.position_in_bytes,
        _ => false,
    }
}
#[cfg(verif_hooks)]
fn lex_findings(o: &Oracle, s: &str, out: &mut Vec<Finding>) -> bool {
    let expect = reflex::lex(s, &o.kw);
    // which token goes wrong when the whole text gives no token list
    let blame = |toks: &[Tok]| -> Vec<&'static str> {
        for t in toks {
            match real::tokens(&s[..t.end]) { Ok((Ok(v), _)) if v.last().map(|x| &x.0) == Some(t) => {} _ => return classes(s, t) }
        }
        vec![]
    };
    let got = match real::tokens(s) {
        Err(p) => {
            let mut tags = vec!["C01"];
            match &expect { Ok(t) => tags.extend(blame(t)), Err(LexErr::Scan(m) | LexErr::Report(m, _)) => tags.push(class_of_error(m)) }
            out.push(Finding { tags, msg: format!("the lexer panics: {}", p) });
            return false;
        }
        Ok(x) => x,
    };
    match (&expect, &got.0) {
        (Err(e), Err(r)) => if !err_matches(e, r) {
            let (LexErr::Scan(m) | LexErr::Report(m, _)) = e;
            let rm = match r { ParserError::ScanError { message } => message.clone(), ParserError::ScanReport(x) => x.message.clone(), ParserError::ParseError { message, .. } => message.clone() };
            let mut tags = vec![class_of_error(m), class_of_error(&rm)];
            if let (LexErr::Report(m, _), ParserError::ScanReport(x)) = (e, r) { if *m == x.message { tags.push("C14"); } }
            tags.dedup();
            out.push(Finding { tags, msg: format!("scan error: expected {:?}, got {:?}", e, r) });
        },
        (Err(e), Ok(_)) => { let (LexErr::Scan(m) | LexErr::Report(m, _)) = e; out.push(Finding { tags: vec![class_of_error(m)], msg: format!("expected scan error {:?}, got tokens {:?}", e, got.0.as_ref().unwrap().iter().map(|x| &x.0).collect::<Vec<_>>()) }); }
        (Ok(t), Err(r)) => {
            let rm = match r { ParserError::ScanError { message } => message.clone(), ParserError::ScanReport(x) => x.message.clone(), ParserError::ParseError { message, .. } => message.clone() };
            let mut tags = blame(t); tags.push(class_of_error(&rm)); tags.sort(); tags.dedup();
            out.push(Finding { tags, msg: format!("expected tokens {:?}, got {:?}", t, r) });
        }
        (Ok(t), Ok(r)) => {
            for i in 0..t.len().max(r.len()) {
                let a = t.get(i); let b = r.get(i).map(|x| &x.0);
                if a == b { continue; }
                let mut tags = vec![];
                if let Some(a) = a { tags.extend(classes(s, a)); }
                if let Some(b) = b { if b.start < b.end && s.is_char_boundary(b.start) { tags.extend(classes(s, b)); if reflex::is_space(s.as_bytes()[b.start]) { tags.push("C03"); } } }
                // a skipped piece of text
                if a.map(|x| x.start) != b.map(|x| x.start) { tags.push("C03"); }
                tags.sort(); tags.dedup();
                out.push(Finding { tags, msg: format!("token {}: expected {:?}, got {:?}", i, a, b) });
                break;
            }
            for (x, v) in r { if s.get(x.start..x.end) != Some(v.as_str()) { out.push(Finding { tags: vec!["C02"], msg: format!("token {:?} carries the text {:?}", x, v) }); break; } }
            // look-ahead pass over the tokens the lexer really gave
            let raw: Vec<Tok> = r.iter().map(|x| x.0.clone()).collect();
            let want = reflex::lookahead(&raw);
            let la = got.1.as_ref().unwrap();
            if la.len() != want.len() || la.iter().zip(&want).any(|(x, w)| x.0 != *w) || la.iter().zip(r).any(|(x, y)| x.1 != y.1) {
                let i = (0..want.len()).find(|&i| la.get(i).map(|x| &x.0) != Some(&want[i])).unwrap_or(0);
                out.push(Finding { tags: vec!["C11"], msg: format!("look-ahead: token {}: expected {:?}, got {:?}", i, want.get(i), la.get(i)) });
            }
        }
    }
    out.is_empty()
}
#[cfg(not(verif_hooks))]
fn lex_findings(_: &Oracle, _: &str, _: &mut Vec<Finding>) -> bool { true }

fn pos_ok(s: &str, a: usize, b: usize) -> bool { a <= b && b <= s.len() && s.is_char_boundary(a) && s.is_char_boundary(b) }

pub fn check_input(o: &Oracle, s: &str) -> Vec<Finding> {
    let mut out = vec![];
    let lexed = lex_findings(o, s, &mut out);
    let r = match guard(|| postgresql_cst_parser::parse(s)) {
        Err(p) => { if lexed { out.push(Finding { tags: vec!["C01"], msg: format!("the parser panics: {}", p) }); } return out; }
        Ok(r) => r,
    };
    let exp = o.expect(s);
    match &r {
        Ok(root) => {
            let ev = match guard(|| flatten(root)) { Ok(e) => e, Err(p) => { out.push(Finding { tags: vec!["C01", "C16"], msg: format!("walking the tree panics: {}", p) }); return out; } };
            // C02
            let mut off = 0; let mut text = String::new(); let mut open: Vec<usize> = vec![]; let mut bad = None;
            for e in &ev {
                match e {
                    Ev::Open(_, a, b) => { if *a != off { bad = Some(format!("node starts at {} instead of {}", a, off)); } open.push(*b); }
                    Ev::Tok(k, a, b, t) => { if *a != off || b - a != t.len() { bad = Some(format!("token {} covers {}..{} instead of {}..{}", k, a, b, off, off + t.len())); } off = *b; text += t; }
                    Ev::Close => { if open.pop() != Some(off) { bad = Some(format!("node ends at a wrong place, text so far ends at {}", off)); } }
                }
            }
            if text != s { bad = Some(format!("the tree's text is {:?}", text)); }
            if let Some(b) = bad { out.push(Finding { tags: vec!["C02"], msg: b }); }
            // C03
            for e in &ev { if let Ev::Tok(k, a, _, t) = e { if k == "Whitespace" && (t.is_empty() || !t.bytes().all(reflex::is_space)) { out.push(Finding { tags: vec!["C03"], msg: format!("whitespace token {:?} at {}", t, a) }); break; } } }
            if let Ok(toks) = reflex::lex(s, &o.kw) {
                let toks = reflex::lookahead(&toks);
                let got: Vec<(&str, usize, usize)> = ev.iter().filter_map(|e| if let Ev::Tok(k, a, b, _) = e { if k == "Whitespace" { None } else { Some((k.as_str(), *a, *b)) } } else { None }).collect();
                let want: Vec<(String, usize, usize)> = toks.iter().map(|t| (o.term.get(&t.kind).map(|&i| o.kind_name[i].clone()).unwrap_or(t.kind.clone()), t.start, t.end)).collect();
                let i = (0..got.len().max(want.len())).find(|&i| got.get(i).map(|x| (x.0, x.1, x.2)) != want.get(i).map(|x| (x.0.as_str(), x.1, x.2)));
                if let Some(i) = i {
                    let mut tags = vec![];
                    match (got.get(i), want.get(i)) {
                        (Some(g), Some(w)) if (g.1, g.2) == (w.1, w.2) => { tags.extend(["C12", "C16"]); if w.0.ends_with("_LA") || g.0.ends_with("_LA") { tags.push("C11"); } if !lexed || cfg!(not(verif_hooks)) { tags.extend(classes(s, &toks[i])); } }
                        _ => { tags.extend(["C02", "C03"]); if let Some(t) = toks.get(i) { if Oracle::is_comment(t) { tags.push("C04"); } else if cfg!(not(verif_hooks)) { tags.extend(classes(s, t)); } } }
                    }
                    out.push(Finding { tags, msg: format!("leaf {}: expected {:?}, got {:?}", i, want.get(i), got.get(i)) });
                }
            }
            // C12
            let prod = productions_ok(o, &ev, DROPPED);
            if let Err(m) = &prod { out.push(Finding { tags: vec!["C12"], msg: m.clone() }); }
            if !lexed { return out; }
            match &exp {
                Expect::Tree(t, toks) => {
                    let want = expected(o, t, toks, s, DROPPED);
                    let got = skeleton(&ev, false);
                    if want != got {
                        let i = (0..want.len().max(got.len())).find(|&i| want.get(i) != got.get(i)).unwrap();
                        let names = |v: &[Ev]| v.iter().filter_map(|e| if let Ev::Open(k, ..) = e { Some(k.clone()) } else { None }).collect::<Vec<_>>();
                        let mut tags = vec!["C13"];
                        let relaxed = skeleton(&want, true) == skeleton(&got, true);
                        if relaxed { tags = vec!["C15"]; }
                        if DROPPED { let w = names(&want); let g = names(&got); if g.len() < w.len() || g.len() > w.len() { tags.push("C15"); } }
                        if want.len() == got.len() && !relaxed { tags.push("C16"); }
                        out.push(Finding { tags, msg: format!("tree element {}: expected {:?}, got {:?}", i, want.get(i), got.get(i)) });
                    }
                }
                Expect::Syntax { start, end, .. } => out.push(Finding { tags: vec!["C13", "C14"], msg: format!("expected a syntax error at {}..{}, got a tree", start, end) }),
                Expect::Lex(e) => out.push(Finding { tags: vec![class_of_error(match e { LexErr::Scan(m) => m, LexErr::Report(m, _) => m }), "C03"], msg: format!("expected scan error {:?}, got a tree", e) }),
            }
        }
        Err(e) => {
            let bad = match e { ParserError::ParseError { start_byte_pos, end_byte_pos, .. } => !pos_ok(s, *start_byte_pos, *end_byte_pos), ParserError::ScanReport(r) => !pos_ok(s, r.position_in_bytes, r.position_in_bytes), _ => false };
            if bad { out.push(Finding { tags: vec!["C14"], msg: format!("error position outside the text or inside a character: {:?}", e) }); }
            if !lexed { return out; }
            match (&exp, e) {
                (Expect::Tree(..), _) => out.push(Finding { tags: vec!["C13", "C14"], msg: format!("expected a tree, got {:?}", e) }),
                (Expect::Syntax { start, end, toks }, ParserError::ParseError { start_byte_pos: a, end_byte_pos: b, .. }) => if (start, end) != (a, b) {
                    let mut tags = vec!["C14"];
                    if toks.iter().any(|t| (t.start, t.end) == (*a, *b)) { tags.push("C13"); }
                    out.push(Finding { tags, msg: format!("expected the syntax error at {}..{}, got {}..{}", start, end, a, b) });
                },
                (Expect::Syntax { .. }, _) => out.push(Finding { tags: vec!["C14"], msg: format!("expected a syntax error, got {:?}", e) }),
                (Expect::Lex(x), ParserError::ParseError { .. }) => out.push(Finding { tags: vec![class_of_error(match x { LexErr::Scan(m) => m, LexErr::Report(m, _) => m })], msg: format!("expected scan error {:?}, got {:?}", x, e) }),
                (Expect::Lex(x), r) => { let ok = match (x, r) { (LexErr::Scan(m), ParserError::ScanError { message }) => m == message, (LexErr::Report(m, p), ParserError::ScanReport(y)) => *m == y.message && *p == y.position_in_bytes, _ => false };
                    if !ok { out.push(Finding { tags: vec![class_of_error(match x { LexErr::Scan(m) => m, LexErr::Report(m, _) => m })], msg: format!("expected scan error {:?}, got {:?}", x, r) }); } }
            }
        }
    }
    out
}
/// canonical outcome, for comparing builds: empty nodes removed, every token kept
pub fn outcome(s: &str) -> String {
    match guard(|| postgresql_cst_parser::parse(s)) {
        Err(_) => "panic".into(),
        Ok(Err(e)) => format!("{:?}", e),
        Ok(Ok(root)) => { let ev = flatten(&root); let toks: Vec<&Ev> = ev.iter().filter(|e| matches!(e, Ev::Tok(..))).collect(); format!("{:?} {:?}", skeleton(&ev, true), toks) }
    }
}
