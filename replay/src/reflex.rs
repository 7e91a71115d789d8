//! Independent reference scanner, written from the PostgreSQL lexical rules (and the whitespace
//! and comment variation documented in scan.l of the repository: comments are tokens of their own
//! and do not take part in literal continuation).  It shares no code with the parser.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Tok { pub kind: String, pub start: usize, pub end: usize }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum LexErr {
    /// plain scan error with its message
    Scan(&'static str),
    /// report with position
    Report(&'static str, usize),
}
pub const SELF: &[u8] = b",()[].;:+-*/%^<>=";
pub const OPCH: &[u8] = b"~!@#^&|`?+-*/%<>=";
pub fn is_space(c: u8) -> bool { matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c) }
pub fn is_nl(c: u8) -> bool { c == b'\n' || c == b'\r' }
pub fn ident_start(c: u8) -> bool { c.is_ascii_alphabetic() || c >= 0x80 || c == b'_' }
pub fn ident_cont(c: u8) -> bool { ident_start(c) || c.is_ascii_digit() || c == b'$' }
fn dolq_cont(c: u8) -> bool { ident_start(c) || c.is_ascii_digit() }
fn at(b: &[u8], i: usize) -> u8 { if i < b.len() { b[i] } else { 0 } }

/// end of a block comment whose opening slash-star is at i
pub fn block_comment_end(b: &[u8], i: usize) -> Option<usize> {
    let mut depth = 0usize; let mut p = i;
    while p < b.len() {
        if at(b, p) == b'/' && at(b, p + 1) == b'*' { depth += 1; p += 2; }
        else if at(b, p) == b'*' && at(b, p + 1) == b'/' { depth -= 1; p += 2; if depth == 0 { return Some(p); } }
        else { p += 1; }
    }
    None
}
/// position just after the quote opening the next segment, if the literal closed at i continues
fn continuation(b: &[u8], i: usize) -> Option<usize> {
    let mut p = i; let mut nl = false;
    while p < b.len() && is_space(b[p]) { nl |= is_nl(b[p]); p += 1; }
    if nl && at(b, p) == b'\'' { Some(p + 1) } else { None }
}
#[derive(Clone, Copy, PartialEq)]
enum Q { Bit, Plain, Esc }
/// i is just after the opening quote
fn quoted(b: &[u8], i: usize, q: Q, unterminated: &'static str) -> Result<usize, LexErr> {
    let mut p = i;
    loop {
        if p >= b.len() { return Err(LexErr::Scan(unterminated)); }
        let c = b[p];
        if c == b'\'' {
            if q != Q::Bit && at(b, p + 1) == b'\'' { p += 2; continue; }
            match continuation(b, p + 1) { Some(n) => { p = n; continue; } None => return Ok(p + 1) }
        }
        if q == Q::Esc && c == b'\\' { p = escape(b, p, unterminated)?; continue; }
        p += 1;
    }
}
/// the Unicode escape at p, if well formed: (value, end)
fn unicode_escape(b: &[u8], p: usize) -> Option<(u32, usize)> {
    let n = match at(b, p + 1) { b'u' => 4, b'U' => 8, _ => return None };
    if at(b, p) != b'\\' || p + 2 + n > b.len() { return None; }
    let mut v: u64 = 0;
    for k in 0..n { v = v * 16 + (b[p + 2 + k] as char).to_digit(16)? as u64; }
    Some((v as u32, p + 2 + n))
}
const BADPAIR: &str = "invalid Unicode surrogate pair";
const BADVAL: &str = "invalid Unicode escape value";
const BADESC: &str = "invalid Unicode escape";
fn escape(b: &[u8], p: usize, unterminated: &'static str) -> Result<usize, LexErr> {
    let c = if p + 1 < b.len() { b[p + 1] } else { return Err(LexErr::Scan(unterminated)) };
    match c {
        b'0'..=b'7' => { let mut e = p + 2; while e < b.len() && e < p + 4 && (b'0'..=b'7').contains(&b[e]) { e += 1; } Ok(e) }
        b'x' => { let mut e = p + 2; while e < b.len() && e < p + 4 && b[e].is_ascii_hexdigit() { e += 1; } Ok(e) }
        b'u' | b'U' => match unicode_escape(b, p) {
            None => Err(LexErr::Report(BADESC, p)),
            Some((v, e)) => {
                if (0xD800..0xDC00).contains(&v) {
                    match unicode_escape(b, e) {
                        Some((w, e2)) if (0xDC00..0xE000).contains(&w) => Ok(e2),
                        Some(_) => Err(LexErr::Scan(BADPAIR)),
                        None => if at(b, e) == b'\\' && matches!(at(b, e + 1), b'u' | b'U') { Err(LexErr::Report(BADESC, e)) } else { Err(LexErr::Scan(BADPAIR)) },
                    }
                } else if (0xDC00..0xE000).contains(&v) { Err(LexErr::Scan(BADPAIR)) }
                else if v == 0 || v > 0x10FFFF { Err(LexErr::Scan(BADVAL)) }
                else { Ok(e) }
            }
        },
        _ => Ok(p + 2),
    }
}
fn dquoted(b: &[u8], i: usize) -> Result<usize, LexErr> {
    let mut p = i;
    loop {
        if p >= b.len() { return Err(LexErr::Scan("unterminated quoted identifier")); }
        if b[p] == b'"' {
            if at(b, p + 1) == b'"' { p += 2; continue; }
            if p == i { return Err(LexErr::Scan("zero-length delimited identifier")); }
            return Ok(p + 1);
        }
        p += 1;
    }
}
/// digits with single underscores between them
fn digits(b: &[u8], i: usize, ok: fn(u8) -> bool) -> usize {
    let mut p = i;
    if !ok(at(b, p)) { return i; }
    p += 1;
    loop {
        if ok(at(b, p)) { p += 1; }
        else if at(b, p) == b'_' && ok(at(b, p + 1)) { p += 2; }
        else { return p; }
    }
}
fn dec(c: u8) -> bool { c.is_ascii_digit() }
fn hex(c: u8) -> bool { c.is_ascii_hexdigit() }
fn oct(c: u8) -> bool { (b'0'..=b'7').contains(&c) }
fn bin(c: u8) -> bool { c == b'0' || c == b'1' }
fn fits(text: &[u8], radix: u128) -> bool {
    let mut v: u128 = 0;
    for &c in text { if c == b'_' { continue; } v = v * radix + (c as char).to_digit(16).unwrap() as u128; if v > 0x7fff_ffff { return false; } }
    true
}
const JUNK: &str = "trailing junk after numeric literal";
fn number(b: &[u8], i: usize) -> Result<(usize, &'static str), LexErr> {
    let run = |mut p: usize| { while p < b.len() && ident_cont(b[p]) { p += 1; } p };
    let junk_after = |from: usize, e: usize| -> Option<usize> {
        // an identifier directly after a digit group; an underscore inside the group starts one too
        if ident_start(at(b, e)) || b[from..e].contains(&b'_') { Some(run(from)) } else { None }
    };
    // candidates in rule order; longest wins, earliest on ties
    let mut best: (usize, Result<&'static str, LexErr>) = (i, Err(LexErr::Scan("none")));
    let mut cand = |end: usize, r: Result<&'static str, LexErr>| { if end > best.0 { best = (end, r); } };
    let e = digits(b, i, dec);
    let intk = |from: usize, end: usize, radix| if fits(&b[from..end], radix) { "ICONST" } else { "FCONST" };
    if e > i { cand(e, Ok(intk(i, e, 10))); }
    if at(b, i) == b'0' {
        let pre = |c: u8, ok: fn(u8) -> bool| -> Option<usize> {
            if at(b, i + 1).to_ascii_lowercase() != c { return None; }
            let mut p = i + 2; let mut any = false;
            loop { if ok(at(b, p)) { p += 1; any = true; } else if at(b, p) == b'_' && ok(at(b, p + 1)) { p += 2; any = true; } else { break; } }
            if any { Some(p) } else { None }
        };
        if let Some(p) = pre(b'x', hex) { cand(p, Ok(intk(i + 2, p, 16))); }
        if let Some(p) = pre(b'o', oct) { cand(p, Ok(intk(i + 2, p, 8))); }
        if let Some(p) = pre(b'b', bin) { cand(p, Ok(intk(i + 2, p, 2))); }
        for (c, m) in [(b'x', "invalid hexadecimal integer"), (b'o', "invalid octal integer"), (b'b', "invalid binary integer")] {
            if at(b, i + 1).to_ascii_lowercase() == c { cand(if at(b, i + 2) == b'_' { i + 3 } else { i + 2 }, Err(LexErr::Scan(m))); }
        }
    }
    // numeric
    let mut num: Option<(usize, usize)> = None; // (fraction start, end)
    if e > i && at(b, e) == b'.' { let f = digits(b, e + 1, dec); num = Some((e + 1, f)); }
    else if e == i && at(b, i) == b'.' { let f = digits(b, i + 1, dec); if f > i + 1 { num = Some((i + 1, f)); } }
    if let Some((_, f)) = num { cand(f, Ok("FCONST")); }
    if e > i && at(b, e) == b'.' && at(b, e + 1) == b'.' { cand(e + 2, Ok("..")); }
    // real
    let mut reals: Vec<(usize, usize)> = vec![];
    for m in [if e > i { Some(e) } else { None }, num.map(|x| x.1)].into_iter().flatten() {
        if at(b, m).to_ascii_lowercase() == b'e' {
            let s = if matches!(at(b, m + 1), b'+' | b'-') { m + 2 } else { m + 1 };
            let x = digits(b, s, dec);
            if x > s { reals.push((s, x)); cand(x, Ok("FCONST")); }
        }
    }
    for m in [if e > i { Some(e) } else { None }, num.map(|x| x.1)].into_iter().flatten() {
        if at(b, m).to_ascii_lowercase() == b'e' && matches!(at(b, m + 1), b'+' | b'-') { cand(m + 2, Err(LexErr::Scan(JUNK))); }
    }
    if e > i { if let Some(j) = junk_after(i, e) { cand(j, Err(LexErr::Scan(JUNK))); } }
    if let Some((s, f)) = num { if let Some(j) = junk_after(s, f) { cand(j, Err(LexErr::Scan(JUNK))); } }
    for (s, x) in reals { if let Some(j) = junk_after(s, x) { cand(j, Err(LexErr::Scan(JUNK))); } }
    match best {
        (_, Err(x)) => Err(x),
        (_, Ok("..")) => Ok((e, intk(i, e, 10))),
        (end, Ok(k)) => Ok((end, k)),
    }
}
fn operator(b: &[u8], i: usize) -> Result<(usize, String), LexErr> {
    let mut n = i;
    while n < b.len() && OPCH.contains(&b[n]) { n += 1; }
    // an embedded comment start ends the operator
    let mut end = n;
    for p in i..n { if p + 1 < n && ((b[p] == b'/' && b[p + 1] == b'*') || (b[p] == b'-' && b[p + 1] == b'-')) { end = p; break; } }
    // trailing signs are not part of a multi-character operator made of SQL operator characters only
    if end > i + 1 && matches!(b[end - 1], b'+' | b'-') && !b[i..end].iter().any(|c| b"~!@#^&|`?%".contains(c)) {
        while end > i + 1 && matches!(b[end - 1], b'+' | b'-') { end -= 1; }
    }
    let t = &b[i..end];
    if t.len() == 1 && SELF.contains(&t[0]) { return Ok((end, format!("'{}'", t[0] as char))); }
    let k = match t { b"=>" => "EQUALS_GREATER", b"<=" => "LESS_EQUALS", b">=" => "GREATER_EQUALS", b"<>" | b"!=" => "NOT_EQUALS", _ => "Op" };
    if k == "Op" && t.len() >= 64 { return Err(LexErr::Scan("operator too long")); }
    Ok((end, k.to_string()))
}
pub struct Keywords(pub std::collections::HashMap<String, String>);
impl Keywords {
    pub fn token(&self, w: &[u8]) -> Option<String> { std::str::from_utf8(w).ok().and_then(|w| self.0.get(&w.to_ascii_lowercase()).cloned()) }
}
pub fn lex(s: &str, kw: &Keywords) -> Result<Vec<Tok>, LexErr> { lex_prefix(s, kw).1 }
/// the tokens read before an error (if any) and the result
pub fn lex_prefix(s: &str, kw: &Keywords) -> (Vec<Tok>, Result<Vec<Tok>, LexErr>) {
    let b = s.as_bytes();
    let mut out: Vec<Tok> = vec![];
    if b.contains(&0) { return (vec![], Err(LexErr::Scan("null character not permitted"))); }
    let mut i = 0;
    while i < b.len() {
        match one(b, i, kw) {
            Ok(None) => i += 1,
            Ok(Some((kind, end))) => { out.push(Tok { kind, start: i, end }); i = end; }
            Err(e) => return (out, Err(e)),
        }
    }
    (out.clone(), Ok(out))
}
fn one(b: &[u8], i: usize, kw: &Keywords) -> Result<Option<(String, usize)>, LexErr> {
    let c = b[i]; let d = at(b, i + 1);
    let t = |k: &str, e: usize| Ok(Some((k.to_string(), e)));
    if is_space(c) { return Ok(None); }
    if c == b'-' && d == b'-' { let mut e = i; while e < b.len() && !is_nl(b[e]) { e += 1; } return t("SQL_COMMENT", e); }
    if c == b'/' && d == b'*' { return match block_comment_end(b, i) { Some(e) => t("C_COMMENT", e), None => Err(LexErr::Scan("unterminated /* comment")) }; }
    if c == b'\'' { return t("SCONST", quoted(b, i + 1, Q::Plain, "unterminated quoted string")?); }
    if d == b'\'' {
        match c.to_ascii_lowercase() {
            b'b' => return t("BCONST", quoted(b, i + 2, Q::Bit, "unterminated bit string literal")?),
            b'x' => return t("XCONST", quoted(b, i + 2, Q::Bit, "unterminated hexadecimal string literal")?),
            b'e' => return t("SCONST", quoted(b, i + 2, Q::Esc, "unterminated quoted string")?),
            b'n' => return t(&kw.token(b"nchar").unwrap_or("IDENT".into()), i + 1),
            _ => {}
        }
    }
    if c.to_ascii_lowercase() == b'u' && d == b'&' {
        if at(b, i + 2) == b'\'' { return t("SCONST", quoted(b, i + 3, Q::Plain, "unterminated quoted string")?); }
        if at(b, i + 2) == b'"' { return t("IDENT", dquoted(b, i + 3)?); }
        return t("IDENT", i + 1);
    }
    if c == b'"' { return t("IDENT", dquoted(b, i + 1)?); }
    if ident_start(c) {
        let mut e = i; while e < b.len() && ident_cont(b[e]) { e += 1; }
        return t(&kw.token(&b[i..e]).unwrap_or("IDENT".into()), e);
    }
    if c == b'$' {
        if d.is_ascii_digit() {
            let mut e = i + 1; while e < b.len() && b[e].is_ascii_digit() { e += 1; }
            if !fits(&b[i + 1..e], 10) { return Err(LexErr::Scan("parameter number too large")); }
            return t("PARAM", e);
        }
        let mut e = i + 1;
        if ident_start(d) { while e < b.len() && dolq_cont(b[e]) { e += 1; } }
        if at(b, e) == b'$' && e < b.len() {
            let tag = &b[i..e + 1];
            let mut p = e + 1;
            while p + tag.len() <= b.len() { if &b[p..p + tag.len()] == tag { return t("SCONST", p + tag.len()); } p += 1; }
            return Err(LexErr::Scan("unterminated dollar-quoted string"));
        }
        return t("'$'", i + 1);
    }
    if c.is_ascii_digit() || (c == b'.' && d.is_ascii_digit()) { let (e, k) = number(b, i)?; return t(k, e); }
    if c == b':' && d == b':' { return t("TYPECAST", i + 2); }
    if c == b':' && d == b'=' { return t("COLON_EQUALS", i + 2); }
    if c == b'.' && d == b'.' { return t("DOT_DOT", i + 2); }
    if OPCH.contains(&c) { let (e, k) = operator(b, i)?; return t(&k, e); }
    t(&format!("'{}'", c as char), i + 1)
}
/// PostgreSQL's base_yylex look-ahead conversion
pub fn lookahead(v: &[Tok]) -> Vec<Tok> {
    let mut out = v.to_vec();
    for i in 0..v.len() {
        let next = v[i + 1..].iter().find(|t| t.kind != "C_COMMENT" && t.kind != "SQL_COMMENT").map(|t| t.kind.as_str()).unwrap_or("");
        let (to, set): (&str, &[&str]) = match v[i].kind.as_str() {
            "FORMAT" => ("FORMAT_LA", &["JSON"]),
            "NOT" => ("NOT_LA", &["BETWEEN", "IN_P", "LIKE", "ILIKE", "SIMILAR"]),
            "NULLS_P" => ("NULLS_LA", &["FIRST_P", "LAST_P"]),
            "WITH" => ("WITH_LA", &["TIME", "ORDINALITY"]),
            "WITHOUT" => ("WITHOUT_LA", &["TIME"]),
            _ => continue,
        };
        if set.contains(&next) { out[i].kind = to.to_string(); }
    }
    out
}
