//! Independent regular expressions over bytes: flex pattern reader, Brzozowski derivatives, and a
//! complete comparison of an automaton with a list of patterns.
use std::collections::HashMap;
pub type Id = usize;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Re { Empty, Eps, Set([u64; 4]), Cat(Id, Id), Alt(Vec<Id>), Star(Id) }
pub struct Rx { nodes: Vec<Re>, map: HashMap<Re, Id>, nul: Vec<bool>, memo: HashMap<(Id, u8), Id> }
pub const EMPTY: Id = 0; pub const EPS: Id = 1;
impl Rx {
    pub fn new() -> Rx { let mut r = Rx { nodes: vec![], map: HashMap::new(), nul: vec![], memo: HashMap::new() }; r.mk(Re::Empty); r.mk(Re::Eps); r }
    fn mk(&mut self, n: Re) -> Id {
        if let Some(&i) = self.map.get(&n) { return i; }
        let nul = match &n { Re::Empty | Re::Set(_) => false, Re::Eps | Re::Star(_) => true, Re::Cat(a, b) => self.nul[*a] && self.nul[*b], Re::Alt(v) => v.iter().any(|x| self.nul[*x]) };
        self.nodes.push(n.clone()); self.nul.push(nul); self.map.insert(n, self.nodes.len() - 1); self.nodes.len() - 1
    }
    pub fn set(&mut self, s: [u64; 4]) -> Id { if s == [0; 4] { EMPTY } else { self.mk(Re::Set(s)) } }
    pub fn byte(&mut self, b: u8) -> Id { let mut s = [0u64; 4]; s[b as usize / 64] |= 1 << (b % 64); self.set(s) }
    pub fn cat(&mut self, a: Id, b: Id) -> Id {
        if a == EMPTY || b == EMPTY { return EMPTY; } if a == EPS { return b; } if b == EPS { return a; }
        if let Re::Cat(x, y) = self.nodes[a].clone() { let t = self.cat(y, b); return self.cat(x, t); }
        self.mk(Re::Cat(a, b))
    }
    pub fn alt(&mut self, v: Vec<Id>) -> Id {
        let mut out = vec![]; let mut set = [0u64; 4];
        fn add(r: &Rx, x: Id, out: &mut Vec<Id>, set: &mut [u64; 4]) { match &r.nodes[x] { Re::Empty => {} Re::Alt(v) => for &y in v { add(r, y, out, set) }, Re::Set(s) => for i in 0..4 { set[i] |= s[i] }, _ => out.push(x) } }
        for x in v { add(self, x, &mut out, &mut set); }
        if set != [0; 4] { let s = self.set(set); out.push(s); }
        out.sort(); out.dedup();
        match out.len() { 0 => EMPTY, 1 => out[0], _ => self.mk(Re::Alt(out)) }
    }
    pub fn star(&mut self, a: Id) -> Id { if a == EMPTY || a == EPS { return EPS; } if let Re::Star(_) = self.nodes[a] { return a; } self.mk(Re::Star(a)) }
    pub fn rep(&mut self, a: Id, lo: usize, hi: Option<usize>) -> Id {
        let mut r = match hi { None => self.star(a), Some(h) => { let mut r = EPS; for _ in lo..h { let t = self.cat(a, r); r = self.alt(vec![EPS, t]); } r } };
        for _ in 0..lo { r = self.cat(a, r); } r
    }
    pub fn nullable(&self, a: Id) -> bool { self.nul[a] }
    pub fn deriv(&mut self, a: Id, b: u8) -> Id {
        if let Some(&r) = self.memo.get(&(a, b)) { return r; }
        let r = match self.nodes[a].clone() {
            Re::Empty | Re::Eps => EMPTY,
            Re::Set(s) => if s[b as usize / 64] >> (b % 64) & 1 == 1 { EPS } else { EMPTY },
            Re::Cat(x, y) => { let dx = self.deriv(x, b); let l = self.cat(dx, y); if self.nul[x] { let dy = self.deriv(y, b); self.alt(vec![l, dy]) } else { l } }
            Re::Alt(v) => { let d = v.into_iter().map(|x| self.deriv(x, b)).collect(); self.alt(d) }
            Re::Star(x) => { let dx = self.deriv(x, b); self.cat(dx, a) }
        };
        self.memo.insert((a, b), r); r
    }
    /// reads a flex pattern; `quotes`: double quotes delimit literal text
    pub fn parse(&mut self, p: &str, defs: &HashMap<String, String>, quotes: bool) -> Result<Id, String> {
        if p == "<<EOF>>" { return Ok(self.byte(0)); }
        let b = p.as_bytes().to_vec(); let mut i = 0; let r = self.p_alt(&b, &mut i, defs, quotes)?;
        if i != b.len() { return Err(format!("trailing text in pattern {}", p)); } Ok(r)
    }
    fn p_alt(&mut self, b: &[u8], i: &mut usize, defs: &HashMap<String, String>, quotes: bool) -> Result<Id, String> {
        let mut alts = vec![];
        loop {
            let mut seq = EPS;
            while *i < b.len() && b[*i] != b'|' && b[*i] != b')' {
                let mut a = self.p_atom(b, i, defs, quotes)?;
                loop { match b.get(*i) {
                    Some(b'*') => { *i += 1; a = self.star(a); } Some(b'+') => { *i += 1; let s = self.star(a); a = self.cat(a, s); } Some(b'?') => { *i += 1; a = self.alt(vec![EPS, a]); }
                    Some(b'{') if b.get(*i + 1).is_some_and(|c| c.is_ascii_digit()) => {
                        let e = *i + b[*i..].iter().position(|c| *c == b'}').ok_or("unclosed repetition")?; let t = std::str::from_utf8(&b[*i + 1..e]).unwrap(); *i = e + 1;
                        let n = |s: &str| s.parse::<usize>().map_err(|_| format!("bad repetition {}", t));
                        a = match t.split_once(',') { None => { let k = n(t)?; self.rep(a, k, Some(k)) } Some((l, "")) => { let l = n(l)?; self.rep(a, l, None) } Some((l, h)) => { let (l, h) = (n(l)?, n(h)?); self.rep(a, l, Some(h)) } };
                    }
                    _ => break } }
                seq = self.cat(seq, a);
            }
            alts.push(seq);
            if *i < b.len() && b[*i] == b'|' { *i += 1; } else { break; }
        }
        Ok(self.alt(alts))
    }
    fn esc(b: &[u8], i: &mut usize) -> Result<u8, String> {
        *i += 1; let c = *b.get(*i).ok_or("trailing backslash")?; *i += 1;
        Ok(match c {
            b'b' => 8, b'f' => 12, b'n' => 10, b'r' => 13, b't' => 9, b'v' => 11, b'a' => 7,
            b'x' => { let mut v = 0u32; let mut n = 0; while n < 2 && b.get(*i).is_some_and(|c| c.is_ascii_hexdigit()) { v = v * 16 + (b[*i] as char).to_digit(16).unwrap(); *i += 1; n += 1; } v as u8 }
            b'0'..=b'7' => { let mut v = (c - b'0') as u32; let mut n = 1; while n < 3 && b.get(*i).is_some_and(|c| (b'0'..=b'7').contains(c)) { v = v * 8 + (b[*i] - b'0') as u32; *i += 1; n += 1; } v as u8 }
            c => c,
        })
    }
    fn p_atom(&mut self, b: &[u8], i: &mut usize, defs: &HashMap<String, String>, quotes: bool) -> Result<Id, String> {
        match b[*i] {
            b'(' => { *i += 1; let r = self.p_alt(b, i, defs, quotes)?; if b.get(*i) != Some(&b')') { return Err("unclosed group".into()); } *i += 1; Ok(r) }
            b'"' if quotes => { *i += 1; let mut r = EPS; while *b.get(*i).ok_or("unclosed quote")? != b'"' { let c = if b[*i] == b'\\' { Self::esc(b, i)? } else { *i += 1; b[*i - 1] }; let t = self.byte(c); r = self.cat(r, t); } *i += 1; Ok(r) }
            b'{' => { let e = *i + b[*i..].iter().position(|c| *c == b'}').ok_or("unclosed name")?; let n = std::str::from_utf8(&b[*i + 1..e]).unwrap().to_string(); *i = e + 1; let d = defs.get(&n).ok_or(format!("unknown name {}", n))?.clone(); self.parse(&d, defs, true) }
            b'.' => { *i += 1; let mut s = [!0u64; 4]; s[0] &= !(1 | 1 << 10); Ok(self.set(s)) }
            b'\\' => { let c = Self::esc(b, i)?; Ok(self.byte(c)) }
            b'[' => {
                *i += 1; let neg = b.get(*i) == Some(&b'^'); if neg { *i += 1; }
                let mut s = [0u64; 4]; let mut first = true;
                loop {
                    let c = *b.get(*i).ok_or("unclosed class")?; if c == b']' && !first { *i += 1; break; } if c == b']' { *i += 1; break; } first = false;
                    let lo = if c == b'\\' { Self::esc(b, i)? } else { *i += 1; c };
                    let hi = if b.get(*i) == Some(&b'-') && b.get(*i + 1).is_some_and(|c| *c != b']') { *i += 1; if b[*i] == b'\\' { Self::esc(b, i)? } else { *i += 1; b[*i - 1] } } else { lo };
                    for k in lo..=hi { s[k as usize / 64] |= 1 << (k % 64); }
                }
                if neg { for k in 0..4 { s[k] = !s[k]; } s[0] &= !1; }
                Ok(self.set(s))
            }
            c => { *i += 1; Ok(self.byte(c)) }
        }
    }
    /// compares an automaton, given by its step function (None: no state) and acceptance, with the patterns
    /// (rule id, expression) on every byte string; returns the number of (state, byte) pairs or a difference
    pub fn compare(&mut self, pats: &[(u32, Id)], step: &dyn Fn(usize, u8) -> Option<usize>, acc: &dyn Fn(usize) -> Option<u32>) -> Result<u64, (Vec<u8>, String)> {
        let start = (Some(0usize), pats.iter().map(|p| p.1).collect::<Vec<_>>());
        let mut seen: HashMap<(Option<usize>, Vec<Id>), usize> = HashMap::new(); let mut list = vec![(start.clone(), usize::MAX, 0u8)]; seen.insert(start, 0);
        let mut k = 0; let mut n = 0;
        while k < list.len() {
            let ((s, v), _, _) = list[k].clone();
            let word = |list: &Vec<((Option<usize>, Vec<Id>), usize, u8)>| { let mut w = vec![]; let mut j = k; while list[j].1 != usize::MAX { w.push(list[j].2); j = list[j].1; } w.reverse(); w };
            let want = pats.iter().zip(&v).find(|(_, x)| self.nullable(**x)).map(|(p, _)| p.0);
            let got = s.and_then(|s| acc(s));
            if want != got { return Err((word(&list), format!("accepted for rule {:?}, but the first pattern matching is {:?}", got, want))); }
            for b in 0..=255u8 {
                n += 1;
                let t: Vec<Id> = v.iter().map(|&x| self.deriv(x, b)).collect();
                let q = s.and_then(|s| step(s, b));
                if q.is_none() && t.iter().all(|&x| x == EMPTY) { continue; }
                let key = (q, t); if !seen.contains_key(&key) { seen.insert(key.clone(), list.len()); list.push((key, k, b)); }
                if list.len() > 4_000 { return Err((word(&list), "too many states to compare".into())); }
            }
            k += 1;
        }
        Ok(n)
    }
    pub fn same(&mut self, a: Id, b: Id) -> Result<(), Vec<u8>> {
        let mut seen: HashMap<(Id, Id), ()> = HashMap::new(); let mut list = vec![((a, b), usize::MAX, 0u8)]; seen.insert((a, b), ()); let mut k = 0;
        while k < list.len() {
            let ((x, y), _, _) = list[k];
            if self.nullable(x) != self.nullable(y) { let mut w = vec![]; let mut j = k; while list[j].1 != usize::MAX { w.push(list[j].2); j = list[j].1; } w.reverse(); return Err(w); }
            for c in 1..=255u8 { let t = (self.deriv(x, c), self.deriv(y, c)); if t.0 == t.1 { continue; } if seen.insert(t, ()).is_none() { list.push((t, k, c)); } }
            k += 1;
        }
        Ok(())
    }
}
/// independent reader of a flex file: (states, definitions, rules as (states, pattern))
pub struct Flex { pub states: Vec<String>, pub defs: HashMap<String, String>, pub rules: Vec<(Vec<String>, String)>, /// per rule, the number of the rule whose action it runs: `|` stands for the action of the next rule
    pub action: Vec<u32> }
pub fn read_flex(src: &str) -> Flex {
    let l: Vec<&str> = src.lines().collect(); let mut i = 0; let mut f = Flex { states: vec!["INITIAL".into()], defs: HashMap::new(), rules: vec![], action: vec![] };
    let mut comment = false;
    while i < l.len() && !l[i].starts_with("%%") {
        let s = l[i]; i += 1;
        if comment { comment = !s.contains("*/"); continue; }
        if s.starts_with("%{") { while l[i] != "%}" { i += 1; } i += 1; continue; }
        if s.starts_with("/*") { comment = !s.contains("*/"); continue; }
        if let Some(x) = s.strip_prefix("%x") { f.states.push(x.trim().into()); continue; }
        if s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') { let e = s.find(char::is_whitespace).unwrap(); f.defs.insert(s[..e].into(), s[e..].trim().into()); }
    }
    i += 1; let mut scope: Vec<String> = vec![];
    while i < l.len() && !l[i].starts_with("%%") {
        let mut s = l[i]; i += 1;
        if s.trim().is_empty() { continue; }
        if s.starts_with('}') { scope.clear(); continue; }
        let mut st = scope.clone();
        if s.starts_with('<') && !s.starts_with("<<") { let e = s.find('>').unwrap(); st = s[1..e].split(',').map(|x| x.trim().to_string()).collect(); s = &s[e + 1..]; if s.trim() == "{" { scope = st; continue; } }
        if st.is_empty() { st.push("INITIAL".into()); }
        let e = s.find(char::is_whitespace).unwrap_or(s.len()); f.rules.push((st, s[..e].into())); f.action.push(if s[e..].trim() == "|" { u32::MAX } else { f.rules.len() as u32 - 1 });
        let mut d = 0i32; let mut rest = s[e..].to_string();
        loop { d += rest.matches('{').count() as i32 - rest.matches('}').count() as i32; if d <= 0 || i >= l.len() { break; } rest = l[i].to_string(); i += 1; }
    }
    for i in (0..f.action.len()).rev() { if f.action[i] == u32::MAX { f.action[i] = f.action.get(i + 1).copied().unwrap_or(u32::MAX); } }
    f
}
