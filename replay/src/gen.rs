//! Input generators.
use crate::grammar::*;
use crate::oracle::*;
use crate::rng::Rng;
use std::collections::HashMap;

pub struct Gen<'a> { pub o: &'a Oracle, height: Vec<usize>, spell: Vec<Option<String>>, usable: Vec<bool> }
const WORDS: &[&str] = &["a", "b1", "tbl", "x_y", "É", "日本", "_z", "c$d", "foo", "nulls1", "selecta", "ié"];
impl<'a> Gen<'a> {
    pub fn new(o: &'a Oracle) -> Gen<'a> {
        let back: HashMap<&str, &str> = o.words.iter().map(|(w, t)| (t.as_str(), w.as_str())).collect();
        let spell: Vec<Option<String>> = o.g.terms.iter().map(|t| {
            let base = t.strip_suffix("_LA").map(|b| if b == "NULLS" { "NULLS_P".to_string() } else { b.to_string() }).unwrap_or(t.clone());
            if let Some(w) = back.get(base.as_str()) { return Some(w.to_string()); }
            let c: Vec<char> = t.chars().collect();
            if c.len() == 3 && c[0] == '\'' { return Some(c[1].to_string()); }
            Some(match t.as_str() {
                "IDENT" => "a", "SCONST" => "'s'", "BCONST" => "b'1'", "XCONST" => "x'1'", "ICONST" => "1", "FCONST" => "1.5", "PARAM" => "$1", "Op" => "||", "TYPECAST" => "::", "DOT_DOT" => "..",
                "COLON_EQUALS" => ":=", "EQUALS_GREATER" => "=>", "LESS_EQUALS" => "<=", "GREATER_EQUALS" => ">=", "NOT_EQUALS" => "<>", _ => return None }.to_string())
        }).collect();
        let mut height = vec![usize::MAX; o.g.nts.len()];
        let mut usable = vec![false; o.g.rules.len()];
        loop {
            let mut ch = false;
            for (i, r) in o.g.rules.iter().enumerate() {
                let mut h = Some(0usize);
                for s in &r.rhs { let x = match s { Sym::T(t) => if spell[*t].is_some() { Some(0) } else { None }, Sym::N(n) => if height[*n] == usize::MAX { None } else { Some(height[*n]) } }; h = match (h, x) { (Some(a), Some(b)) => Some(a.max(b)), _ => None }; }
                if let Some(h) = h { usable[i] = true; if h + 1 < height[r.lhs] { height[r.lhs] = h + 1; ch = true; } }
            }
            if !ch { break; }
        }
        Gen { o, height, spell, usable }
    }
    pub fn spelling(&self, t: usize) -> Option<&str> { self.spell[t].as_deref() }
    fn rule_height(&self, r: usize) -> usize { self.o.g.rules[r].rhs.iter().map(|s| match s { Sym::T(_) => 0, Sym::N(n) => self.height[*n] }).max().unwrap_or(0) }
    /// random derivation of n as terminals
    pub fn derive(&self, n: usize, depth: usize, budget: &mut isize, rng: &mut Rng, out: &mut Vec<usize>) {
        let all: Vec<usize> = self.o.prods[&n].iter().copied().filter(|&r| self.usable[r]).collect();
        let fit: Vec<usize> = all.iter().copied().filter(|&r| self.rule_height(r) <= depth).collect();
        let r = if fit.is_empty() || *budget < 0 { *all.iter().min_by_key(|&&r| (self.rule_height(r), self.o.g.rules[r].rhs.len())).unwrap() } else { fit[rng.below(fit.len())] };
        for s in &self.o.g.rules[r].rhs {
            match s { Sym::T(t) => { *budget -= 1; out.push(*t); } Sym::N(m) => self.derive(*m, depth.saturating_sub(1), budget, rng, out) }
        }
    }
    /// shortest terminal string of a symbol
    pub fn shortest(&self, s: Sym, out: &mut Vec<usize>) {
        match s { Sym::T(t) => out.push(t), Sym::N(n) => {
            let r = *self.o.prods[&n].iter().filter(|&&r| self.usable[r]).min_by_key(|&&r| (self.rule_height(r), self.o.g.rules[r].rhs.len())).unwrap();
            for s in &self.o.g.rules[r].rhs { self.shortest(*s, out); } } }
    }
    pub fn derivable(&self, s: Sym) -> bool { match s { Sym::T(t) => self.spell[t].is_some(), Sym::N(n) => self.height[n] != usize::MAX } }
    pub fn statement(&self, rng: &mut Rng) -> Vec<usize> {
        let mut v = vec![]; let depth = 12 + rng.below(20); let mut budget = 6 + rng.below(60) as isize;
        let start = if rng.chance(1, 4) { self.o.g.rules[0].lhs } else { self.o.g.nts.iter().position(|n| n == "stmtmulti").unwrap_or(self.o.g.rules[0].lhs) };
        self.derive(start, depth, &mut budget, rng, &mut v); v
    }
    /// random walk over the automaton: mostly valid prefixes, ends anywhere
    pub fn walk(&self, rng: &mut Rng, n: usize) -> Vec<usize> {
        let mut out = vec![]; let mut st = vec![0usize];
        'tok: for _ in 0..n {
            let s = *st.last().unwrap();
            let c: Vec<usize> = (1..self.o.g.terms.len()).filter(|&t| self.spell[t].is_some() && !matches!(self.o.t.action[s][t], Act::Err)).collect();
            if c.is_empty() { break; }
            let t = c[rng.below(c.len())]; out.push(t);
            loop {
                match self.o.t.action[*st.last().unwrap()][t] {
                    Act::Shift(q) => { st.push(q); continue 'tok; }
                    Act::Reduce(r) => { let k = st.len() - self.o.g.rules[r].rhs.len(); st.truncate(k); let q = self.o.t.goto_[*st.last().unwrap()][&self.o.g.rules[r].lhs]; st.push(q); }
                    _ => break 'tok,
                }
            }
        }
        out
    }
    fn token_text(&self, t: usize, rng: &mut Rng, plain: bool) -> String {
        let name = self.o.g.terms[t].as_str();
        if plain { return self.spell[t].clone().unwrap_or_default(); }
        match name {
            "IDENT" => match rng.below(8) { 0 => fragment("C05i", rng), 1 => rng.pick(&["\"a b\"", "\"q\"\"q\"", "\"é\"", "U&\"d\\0061\"", "u&\"x\""]).to_string(), _ => rng.pick(WORDS).to_string() },
            "SCONST" => match rng.below(6) { 0 => fragment("C05s", rng), 1 => fragment("C06ok", rng), _ => rng.pick(&["'s'", "''", "'a''b'", "$$x$$", "$t$ $ $t$", "E'\\n'", "'日本'", "'a'\n'b'", "'/*'", "'--'", "U&'\\0061'"]).to_string() },
            "BCONST" => rng.pick(&["b'1'", "B'01'\n '1'", "b''"]).to_string(),
            "XCONST" => rng.pick(&["x'1F'", "X''", "x'a'\n'b'"]).to_string(),
            "ICONST" => rng.pick(&["1", "0", "2147483647", "0x1F", "0o17", "0b101", "1_000", "0X7fffffff"]).to_string(),
            "FCONST" => rng.pick(&["1.5", ".5", "1.", "2147483648", "1e10", "1.5E-3", "0xffffffff", "1_0.0_1"]).to_string(),
            "PARAM" => rng.pick(&["$1", "$0", "$2147483647"]).to_string(),
            "Op" => rng.pick(&["||", "@>", "~", "->>", "#-", "&&", "?|", "@-", "!", "<->"]).to_string(),
            "NOT_EQUALS" => rng.pick(&["<>", "!="]).to_string(),
            _ => { let s = self.spell[t].clone().unwrap_or_default(); match rng.below(4) { 0 => s.to_ascii_uppercase(), 1 => s.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(), _ => s } }
        }
    }
    pub fn spell_tokens(&self, v: &[usize], rng: &mut Rng, plain: bool) -> String {
        let mut s = String::new();
        if !plain && rng.chance(1, 6) { s += &trivia(rng); }
        for (i, &t) in v.iter().enumerate() {
            s += &self.token_text(t, rng, plain);
            if i + 1 < v.len() { if plain { s.push(' '); } else { s += &trivia(rng); } } else if !plain && rng.chance(1, 4) { s += &trivia(rng); }
        }
        s
    }
    pub fn sql(&self, rng: &mut Rng) -> String {
        let v = match rng.below(10) { 0 | 1 => { let n = 2 + rng.below(25); self.walk(rng, n) } _ => self.statement(rng) };
        let mut v = v;
        if rng.chance(1, 5) && !v.is_empty() {
            // token level damage
            match rng.below(4) { 0 => { let i = rng.below(v.len()); v.remove(i); } 1 => { let i = rng.below(v.len() + 1); v.insert(i, 1 + rng.below(self.o.g.terms.len() - 1)); } 2 => { let n = rng.below(v.len() + 1); v.truncate(n); } _ => { let i = rng.below(v.len()); let j = rng.below(v.len()); v.swap(i, j); } }
        }
        self.spell_tokens(&v, rng, false)
    }
    /// keywords with their look-ahead words, comments between
    pub fn lookahead_text(&self, rng: &mut Rng) -> String {
        let firsts = ["format", "not", "nulls", "with", "without", "NULLS", "With", "a", "select", "\"with\""];
        let seconds = ["json", "between", "in", "like", "ilike", "similar", "first", "last", "time", "ordinality", "timestamp", "not", "with", "nulls", "\"json\"", "'time'", "1", "(", "=", "Time", "IN", "formatx"];
        let mut s = String::new();
        for _ in 0..1 + rng.below(4) {
            s += rng.pick(&firsts); s += &trivia(rng); if rng.chance(1, 3) { s += &trivia(rng); }
            s += rng.pick(&seconds); s += &trivia(rng);
        }
        s
    }
}
pub fn trivia(rng: &mut Rng) -> String {
    match rng.below(14) {
        0 => "\n".into(), 1 => "\t ".into(), 2 => "/* c */".into(), 3 => " /* a /* b */ -- */ ".into(), 4 => "-- x\n".into(), 5 => " -- é '\n\n".into(), 6 => "\r\n".into(), 7 => format!(" {} ", fragment("C04", rng)), 8 => "\x0b\x0c".into(), 9 => "/**/".into(),
        _ => " ".into(),
    }
}
/// characters for random byte soup of a property
pub fn alphabet(p: &str) -> &'static [&'static str] {
    match p {
        "C04" => &["/", "*", "-", "\n", "\r", " ", "a", "é", "'", "+", "/*", "*/", "--", "**", "//"],
        "C05" => &["'", "\"", "$", "a", "b", "x", "e", "n", "u&", "U&", "\n", " ", "\\", "1", "é", "''", "$$", "$a$", "E'", "\r", "-- c\n", "/*c*/", "\t", "_", "日", "B'", "X'", "N'"],
        "C05i" | "C05s" => &["'", "\"", "$", "a", "\n", " ", "\\", "''", "\"\"", "é"],
        "C06" | "C06ok" => &["E'", "'", "\\", "\\u", "\\U", "\\x", "0", "1", "7", "8", "D800", "DC00", "\\uD800", "\\uDC00", "\\udbff", "\\uDFFF", "00", "0010", "FFFF", "0011", "a", "F", "g", "''", "\n", "\\'", "é", "\\é", "\\\\", "\\u0041", "\\U0001F600", "\\U0010FFFF", "\\U00110000", "\\u0000", "\\377", "\\400", "\\x4", "\\xZ", "\\U0000D83D", "\\U0000DE00", " ", "\\b", "\\v"],
        "C07" => &["+", "-", "*", "/", "<", ">", "=", "~", "!", "@", "#", "%", "^", "&", "|", "`", "?", ":", ".", ",", "(", ")", "[", "]", ";", "/*", "--", "a", "1", " ", "*/", "\n", "{", "é"],
        "C08" => &["0", "1", "2", "7", "8", "9", "a", "F", "x", "X", "o", "O", "b", "B", "e", "E", "_", ".", "+", "-", "$", " ", "2147483647", "2147483648", "0x7fffffff", "0x80000000", "0b1", "1e1", "..", "99999999999999999999", "é", "z"],
        "C09" => &["a", "b", "S", "_", "$", "1", "é", "ſ", "\u{212A}", "\u{212A}ey", "select", "FROM", "Table", "ı", "İ", " ", "\"", "user", "int", "p", "n", "u&", "日", "."],
        "C03" => &[" ", "\t", "\n", "\r", "\x0b", "\x0c", "\u{a0}", "\u{85}", "\u{2003}", "\u{feff}", "\x01", "\x1f", "\x7f", "a", "1", "'", ";", "\u{200b}", "\x08", "\x1c", "\0", "--\n", "/**/"],
        _ => &["'", "\"", "$", "a", "b", "x", "e", "E'", "n", "\n", " ", "\\", "1", "0", "é", "/*", "*/", "--", "-", "+", "*", "/", ".", "(", ")", ";", ",", "=", "<", ">", "_", "日", "\u{a0}", "\x01", "\0", "{", "$1", "x'", "select", "1.", "\\u", "U&\"", "|", ":", "@", "\r", "%"],
    }
}
pub fn soup(p: &str, rng: &mut Rng, max: usize) -> String { let a = alphabet(p); let n = 1 + rng.below(max); (0..n).map(|_| rng.pick(a).to_string()).collect() }
fn rep(rng: &mut Rng, v: &[&str], lo: usize, hi: usize) -> String { let n = lo + rng.below(hi - lo + 1); (0..n).map(|_| rng.pick(v).to_string()).collect() }
/// a mostly well-formed lexeme of the kind a property is about
pub fn fragment(p: &str, rng: &mut Rng) -> String {
    match p {
        "C04" => match rng.below(4) {
            0 => format!("--{}{}", rep(rng, &["a", "'", "/*", "*/", "-", " ", "é", "\"", "$$", "\\", "\t", "\x0c"], 0, 6), rng.pick(&["\n", "\r", "\r\n", "\n\n"])),
            1 => { let d = 1 + rng.below(5); let mut s = String::new(); for _ in 0..d { s += "/*"; s += &rep(rng, &["*", "/", "a", "-", " ", "\n", "'", "é", "**", "--"], 0, 4).replace("*/", "* ").replace("/*", "/ "); s += " "; } for _ in 0..d { s += &rep(rng, &["a", "/ ", "**", "é"], 0, 2); s += rng.pick(&["*/", " */", "**/", "***/"]); } s }
            2 => rng.pick(&["/**/", "/***/", "/****/", "/*/ */", "/*/*/ */ */", "/*+*/", "/*a*//*b*/", "/*/**/*/", "/* -- */", "/*'*/"]).to_string(),
            _ => format!("/*{}*/", rep(rng, &["x", " ", "\n", "é", "-", "+", "\\"], 0, 8)),
        },
        "C05i" => format!("{}\"{}\"", rng.pick(&["", "", "U&", "u&"]), rep(rng, &["a", "\"\"", "'", " ", "é", "\n", "\\", "$", "日"], 1, 5)),
        "C05s" => match rng.below(5) {
            0 => { let tag = rng.pick(&["", "a", "t_1", "É", "A1", "_"]).to_string(); format!("${}${}${}$", tag, rep(rng, &["x", "$ ", "'", "\\", "$b$", "$ a", "é", "$a", "\n", "--", "/*", "$1", "$$ "], 0, 6).replace(&format!("${}$", tag), "_"), tag) }
            1 => { let mut s = format!("'{}'", rep(rng, &["a", "''", "\\", "é", "\"", "$$", "--", "/*"], 0, 4)); for _ in 0..rng.below(3) { s += rng.pick(&["\n", " \n ", "\r\n\t", "\n\n", "\x0c\n"]); s += &format!("'{}'", rep(rng, &["b", "''", " "], 0, 3)); } s }
            2 => format!("{}'{}'{}", rng.pick(&["b", "B", "x", "X"]), rep(rng, &["0", "1", "F", " ", "g"], 0, 4), rng.pick(&["", "", "\n'1'", " \n'0'"])),
            3 => format!("{}'{}'", rng.pick(&["E", "e"]), rep(rng, &["a", "\\'", "''", "\\\\", "\\n", "é", "\"", "\n"], 0, 5)),
            _ => format!("{}'{}'", rng.pick(&["U&", "u&", "N", "n"]), rep(rng, &["a", "\\0061", "''", "é", "\\"], 0, 4)),
        },
        "C05" => if rng.chance(1, 3) { fragment("C05i", rng) } else { fragment("C05s", rng) },
        "C06ok" => format!("{}'{}'", rng.pick(&["E", "e"]), rep(rng, &["a", "\\n", "\\'", "''", "\\u0041", "\\U0001F600", "\\uD83D\\uDE00", "\\ud800\\U0000dc00", "\\x41", "\\x4", "\\101", "\\7", "\\é", "\\\\", "\\x", "\\U0010FFFF", "\\uD7FF", "\\uE000", "\\q"], 0, 5)),
        "C06" => if rng.chance(1, 2) { fragment("C06ok", rng) } else {
            let hexd = |rng: &mut Rng, n: usize| -> String { (0..n).map(|_| rng.pick(&["0", "1", "8", "9", "a", "D", "d", "c", "F", "f", "E", "B"])).collect() };
            let esc = |rng: &mut Rng| -> String { match rng.below(8) {
                0 => format!("\\u{}", hexd(rng, 4)), 1 => { let k = rng.below(5); format!("\\u{}", hexd(rng, k)) } 2 => format!("\\U{}", hexd(rng, 8)), 3 => { let k = rng.below(9); format!("\\U{}", hexd(rng, k)) }
                4 => format!("\\u{}{}", rng.pick(&["d8", "D9", "dA", "DB", "dc", "DD", "de", "dF", "D7", "E0"]), hexd(rng, 2)), 5 => format!("\\U0000{}{}", rng.pick(&["d8", "DB", "dc", "dF", "D7", "E0"]), hexd(rng, 2)),
                6 => format!("\\U00{}{}", rng.pick(&["10", "0f", "11", "00", "01"]), hexd(rng, 4)), _ => rng.pick(&["\\x", "\\xg", "\\1", "\\18", "\\777", "a", "\\'", "''", "\\", "\\u", "\\U", "\\b", "'", "\n", "\\000", "\\x00", "\\0"]).to_string() } };
            let mut s = format!("{}'", rng.pick(&["E", "e"])); for _ in 0..1 + rng.below(4) { s += &esc(rng); } if rng.chance(7, 8) { s += "'"; } s
        },
        "C07" => { let mut s = rep(rng, &["+", "-", "*", "/", "<", ">", "=", "~", "!", "@", "#", "%", "^", "&", "|", "`", "?"], 1, 6); if rng.chance(1, 25) { let n = 60 + rng.below(8); s = s.repeat(70)[..n].to_string(); } s }
        "C08" => match rng.below(9) {
            0 => format!("{}{}", rng.pick(&["0x", "0X", "0o", "0O", "0b", "0B", "0x_", "0b_"]), rep(rng, &["0", "1", "7", "f", "F", "8", "_", "9"], 0, 10)),
            1 => rep(rng, &["0", "1", "9", "_1", "2147483647", "_"], 1, 6), 2 => format!("{}.{}", rep(rng, &["0", "12", "_3"], 0, 3), rep(rng, &["0", "12", "_3"], 0, 3)),
            3 => format!("{}{}{}{}", rep(rng, &["1", "2.5", ".5", "1."], 1, 1), rng.pick(&["e", "E"]), rng.pick(&["", "+", "-"]), rep(rng, &["1", "0", "_2"], 0, 3)),
            4 => format!("${}", rep(rng, &["1", "0", "9", "2147483647", "2147483648", "_", "a"], 1, 3)), 5 => format!("{}..{}", rng.below(30), rng.below(30)),
            6 => (2147483600u64 + rng.below(100) as u64).to_string(), 7 => { let v = 2147483600u64 + rng.below(100) as u64; match rng.below(3) { 0 => format!("0x{:x}", v), 1 => format!("0o{:o}", v), _ => format!("0b{:b}", v) } }
            _ => format!("{}{}", rng.below(1000), rng.pick(&["a", "e", "x", "_", "é", "e+", "$", ".a", "..", "_1", "e1a", "1.5x"])),
        },
        "C09" => soup("C09", rng, 4),
        "C03" => soup("C03", rng, 5),
        _ => soup("", rng, 5),
    }
}
pub fn mutate(s: &str, p: &str, rng: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + rng.below(3) {
        let i = rng.below(c.len() + 1);
        match rng.below(5) {
            0 if i < c.len() => { c.remove(i); }
            1 | 2 => { let f: Vec<char> = fragment(p, rng).chars().collect(); c.splice(i..i, f); }
            3 => { let f: Vec<char> = rng.pick(alphabet(p)).chars().collect(); c.splice(i..i, f); }
            _ => { if i < c.len() { let j = rng.below(c.len()); c.swap(i, j); } }
        }
    }
    c.into_iter().collect()
}
