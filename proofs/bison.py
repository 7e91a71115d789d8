"""Reading a grammar file (bison.rs): the list of rules is the file's, alternative by alternative; precedences follow the declarations."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
LX = "crates/parser-generator/src/parser_generator/lexer.rs"; BI = "crates/parser-generator/src/parser_generator/bison.rs"
SHIM = r"""
global size_of usize == 8;
pub uninterp spec fn ulen(c: char) -> int;
pub open spec fn bytes(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { bytes(s.drop_last()) + ulen(s.last()) } }
#[verifier::external_body] pub proof fn ulen_small(c: char) ensures 1 <= ulen(c) <= 4 {}
proof fn bytes_push(s: Seq<char>, c: char) ensures bytes(s.push(c)) == bytes(s) + ulen(c) { assert(s.push(c).drop_last() =~= s); }
// String
#[verifier::external_body] pub struct Str { x: u8 }
impl Str { pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body] pub fn new() -> (r: Str) ensures r@ == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
  #[verifier::external_body] pub fn push_str(&mut self, c: &Str) ensures final(self)@ == old(self)@ + c@ { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == bytes(self@) { unimplemented!() }
  #[verifier::external_body] pub fn count(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Str) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn char_str(c: char) -> (r: Str) ensures r@ == seq![c] { unimplemented!() }
#[verifier::external_body] pub fn chars_of(s: &Str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn str_of(s: &str) -> (r: Str) ensures r@ == s@ { unimplemented!() }
impl Str { #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn starts_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body] pub proof fn str_ext(a: &str, b: &str) ensures (a@ == b@) ==> a == b {}
// HashMap<String, Assoc>; the maps of declarations that are not used
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Other<V> { x: Option<V> }
impl<V> Other<V> { #[verifier::external_body] pub fn new() -> Other<V> { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: Str, v: V) { unimplemented!() } }
// VecDeque<String>
#[verifier::external_body] pub struct Deq { x: u8 }
impl Deq { pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
  #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<Str>) ensures (match r { Some(x) => old(self)@.len() > 0 && x@ == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn front(&self) -> (r: Option<&Str>) ensures (match r { Some(x) => self@.len() > 0 && x@ == self@[0], None => self@.len() == 0 }) { unimplemented!() } }
// char
#[verifier::external_body] pub fn len_utf8(c: char) -> (r: usize) ensures r == ulen(c), 1 <= r <= 4 { unimplemented!() }
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\x0C' || c == '\r' }
pub open spec fn letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
#[verifier::external_body] pub fn is_ascii_whitespace(c: char) -> (r: bool) ensures r == ws(c) { unimplemented!() }
#[verifier::external_body] pub fn is_ascii_alphabetic(c: char) -> (r: bool) ensures r == letter(c) { unimplemented!() }
#[verifier::external_body] pub fn is_ascii_alphanumeric(c: char) -> (r: bool) ensures r == (letter(c) || digit(c)) { unimplemented!() }
#[verifier::external_body] pub fn starts2(s: &Vec<char>, i: usize, a: char, b: char) -> (r: bool) requires i <= s@.len() ensures r == (i + 1 < s@.len() && s@[i as int] == a && s@[i + 1] == b) { unimplemented!() }
"""
SCAN = r"""
// the tokens of the rule section
pub enum Tok { Colon, Semi, Bar, Id(Seq<char>), Lit(Seq<char>), Prec(Seq<char>) }
pub open spec fn tv(t: BisonToken) -> Tok { match t { BisonToken::Colon { .. } => Tok::Colon, BisonToken::SemiColon { .. } => Tok::Semi, BisonToken::VerticalBar { .. } => Tok::Bar, BisonToken::Identifier { value, .. } => Tok::Id(value@), BisonToken::Literal { value, .. } => Tok::Lit(value@), BisonToken::Prec { value, .. } => Tok::Prec(value@) } }
pub open spec fn tvs(s: Seq<BisonToken>) -> Seq<Tok> { s.map_values(|t: BisonToken| tv(t)) }
pub open spec fn word(c: char) -> bool { letter(c) || digit(c) || c == '_' }
pub open spec fn past(s: Seq<char>) -> int { s.len() as int + 1 }
pub open spec fn in_(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() }
// ends of the pieces that begin at i; past the text when the piece has no end
pub open spec fn word_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if in_(s, i) && word(s[i]) { word_end(s, i + 1) } else { i } }
pub open spec fn line_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if !in_(s, i) { past(s) } else if s[i] == '\n' { i + 1 } else { line_end(s, i + 1) } }
pub open spec fn comment_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if !in_(s, i + 1) || i < 0 { past(s) } else if s[i] == '*' && s[i + 1] == '/' { i + 2 } else { comment_end(s, i + 1) } }
pub open spec fn quote_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if !in_(s, i) || s[i] == '\n' || s[i] == '\r' { past(s) } else if s[i] == '\'' { i + 1 } else { quote_end(s, i + 1) } }
pub open spec fn deeper(c: char, d: int) -> int { if c == '{' { d + 1 } else if c == '}' { d - 1 } else { d } }
pub open spec fn action_end(s: Seq<char>, i: int, d: int) -> int decreases s.len() - i { if !in_(s, i) { past(s) } else if deeper(s[i], d) == 0 { i + 1 } else { action_end(s, i + 1, deeper(s[i], d)) } }
// one piece: where it ends, the token it is
pub open spec fn piece_end(s: Seq<char>, i: int) -> int { let c = s[i];
  if ws(c) || c == ':' || c == ';' || c == '|' { i + 1 } else if c == '{' { action_end(s, i, 0) }
  else if c == '/' { if in_(s, i + 1) && s[i + 1] == '/' { line_end(s, i + 1) } else if in_(s, i + 1) && s[i + 1] == '*' { comment_end(s, i + 2) } else { past(s) } }
  else if c == '\'' { quote_end(s, i + 1) } else if c == '%' { word_end(s, i + 1) } else if letter(c) { word_end(s, i) } else { past(s) } }
pub open spec fn piece(s: Seq<char>, i: int) -> Option<Tok> { let c = s[i]; let e = piece_end(s, i);
  if c == ':' { Some(Tok::Colon) } else if c == ';' { Some(Tok::Semi) } else if c == '|' { Some(Tok::Bar) }
  else if c == '\'' { Some(Tok::Lit(s.subrange(i, e))) } else if c == '%' { Some(Tok::Prec(s.subrange(i + 1, e))) } else if letter(c) { Some(Tok::Id(s.subrange(i, e))) } else { None } }
// every piece ends; a word or directive does not end the text (the reader looks one character further)
pub open spec fn spelled(s: Seq<char>, i: int) -> bool decreases s.len() - i { i >= s.len() || (i >= 0 && { let e = piece_end(s, i); i < e <= s.len() && ((letter(s[i]) || s[i] == '%') ==> e < s.len()) && spelled(s, e) }) }
pub open spec fn toks(s: Seq<char>, i: int) -> Seq<Tok> decreases s.len() - i { if i < 0 || i >= s.len() { Seq::empty() } else { let e = piece_end(s, i); if e <= i || e > s.len() { Seq::empty() } else { (match piece(s, i) { Some(t) => seq![t], None => Seq::empty() }) + toks(s, e) } } }
pub open spec fn at(n: int, i: int, row: int, col: int, b: int) -> bool { 0 <= i <= n <= 0x7fff_ffff && 0 <= row <= i && 0 <= col <= i && 0 <= b <= 4 * i }
pub open spec fn newcol(c: char, col: int) -> int { if c == '\r' { col } else if c == '\n' { 0 } else { col + 1 } }
proof fn one(c: char) ensures bytes(seq![c]) == ulen(c), 1 <= ulen(c) <= 4 { ulen_small(c); assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(bytes(Seq::<char>::empty()) == 0); }
proof fn word_up(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures i <= word_end(s, i) <= s.len() decreases s.len() - i { if in_(s, i) && word(s[i]) { word_up(s, i + 1); } }
proof fn tvs_push(a: Seq<BisonToken>, t: BisonToken) ensures tvs(a.push(t)) == tvs(a).push(tv(t)) { assert(tvs(a.push(t)) =~= tvs(a).push(tv(t))); }
proof fn step(s: Seq<char>, v: Seq<Tok>, i: int, e: int, w: Seq<Tok>) requires spelled(s, i), 0 <= i < s.len(), v + toks(s, i) == toks(s, 0), e == piece_end(s, i), w == (match piece(s, i) { Some(t) => v.push(t), None => v }) ensures spelled(s, e), e <= s.len(), w + toks(s, e) == toks(s, 0)
{ let p: Seq<Tok> = match piece(s, i) { Some(t) => seq![t], None => Seq::empty() }; assert(toks(s, i) == p + toks(s, e)); assert(w =~= v + p); assert(w + toks(s, e) =~= v + (p + toks(s, e))); }
"""
OWN = "IDENT C_COMMENT SQL_COMMENT EOF BCONST XCONST SCONST USCONST UIDENT TYPECAST DOT_DOT COLON_EQUALS EQUALS_GREATER LESS_EQUALS GREATER_EQUALS NOT_EQUALS Op PARAM FCONST ICONST".split()
RULES = r"""
// kinds of terminals: the scanner's own tokens by name, quoted literals, keywords
pub enum KindV { Raw(Seq<char>), Key(Seq<char>), Own(Seq<char>) }
pub open spec fn kind_of(s: Seq<char>) -> KindV { if own_name(s) { KindV::Own(s) } else if s.len() > 0 && s[0] == '\'' { KindV::Raw(s) } else { KindV::Key(s) } }
pub enum CompV { N(Seq<char>), T(KindV) }
pub open spec fn cv(c: Component) -> CompV { match c { Component::NonTerminal(s) => CompV::N(s@), Component::Terminal(k) => CompV::T(kv(k)) } }
pub open spec fn ov(o: Option<Str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub struct RawV { pub name: Seq<char>, pub syms: Seq<Tok>, pub prec: Option<Seq<char>> }
pub struct RuleV { pub name: Seq<char>, pub comps: Seq<CompV>, pub prec: Option<Seq<char>> }
pub open spec fn rcv(c: RawComponent) -> Tok { match c { RawComponent::Identifier(s) => Tok::Id(s@), RawComponent::Raw(s) => Tok::Lit(s@) } }
pub open spec fn rcvs(c: Seq<RawComponent>) -> Seq<Tok> { c.map_values(|x: RawComponent| rcv(x)) }
pub open spec fn rawv(t: (Str, Vec<RawComponent>, Option<Str>)) -> RawV { RawV { name: t.0@, syms: rcvs(t.1@), prec: ov(t.2) } }
pub open spec fn raws(s: Seq<(Str, Vec<RawComponent>, Option<Str>)>) -> Seq<RawV> { s.map_values(|t: (Str, Vec<RawComponent>, Option<Str>)| rawv(t)) }
pub open spec fn cvs(c: Seq<Component>) -> Seq<CompV> { c.map_values(|x: Component| cv(x)) }
pub open spec fn rulev(r: Rule) -> RuleV { RuleV { name: r.name@, comps: cvs(r.components@), prec: ov(r.prec) } }
pub open spec fn rulesv(s: Seq<Rule>) -> Seq<RuleV> { s.map_values(|r: Rule| rulev(r)) }
pub open spec fn strsv(s: Seq<Str>) -> Seq<Seq<char>> { s.map_values(|x: Str| x@) }
// a rule section: rules separated by `;`, alternatives by `|`, `%prec` with a name
pub open spec fn cut(t: Seq<Tok>, i: int, sep: Tok) -> int decreases t.len() - i { if 0 <= i < t.len() && t[i] != sep { cut(t, i + 1, sep) } else { i } }
pub open spec fn strip(a: Seq<Tok>, i: int) -> Seq<Tok> decreases a.len() - i { if i < 0 || i >= a.len() { Seq::empty() } else if a[i] is Prec { if i + 1 >= a.len() { Seq::empty() } else { strip(a, i + 2) } } else { seq![a[i]] + strip(a, i + 1) } }
pub open spec fn prec_of(a: Seq<Tok>, i: int) -> Option<Seq<char>> decreases a.len() - i { if i < 0 || i >= a.len() { None } else if a[i] is Prec { Some(a[i + 1]->Id_0) } else { prec_of(a, i + 1) } }
pub open spec fn alt(n: Seq<char>, a: Seq<Tok>) -> RawV { RawV { name: n, syms: strip(a, 0), prec: prec_of(a, 0) } }
pub open spec fn alts(n: Seq<char>, b: Seq<Tok>, lo: int) -> Seq<RawV> decreases b.len() - lo + 1 { if lo < 0 || lo > b.len() { Seq::empty() } else { let h = cut(b, lo, Tok::Bar); if h < lo || h > b.len() { Seq::empty() } else { seq![alt(n, b.subrange(lo, h))] + alts(n, b, h + 1) } } }
pub open spec fn chunk(c: Seq<Tok>) -> Seq<RawV> { if c.len() == 0 { Seq::empty() } else { alts(c[0]->Id_0, c.subrange(2, c.len() as int), 0) } }
pub open spec fn section(t: Seq<Tok>, lo: int) -> Seq<RawV> decreases t.len() - lo + 1 { if lo < 0 || lo > t.len() { Seq::empty() } else { let h = cut(t, lo, Tok::Semi); if h < lo || h > t.len() { Seq::empty() } else { chunk(t.subrange(lo, h)) + section(t, h + 1) } } }
pub open spec fn names(t: Seq<Tok>, lo: int) -> Seq<Seq<char>> decreases t.len() - lo + 1 { if lo < 0 || lo > t.len() { Seq::empty() } else { let h = cut(t, lo, Tok::Semi); if h < lo || h > t.len() { Seq::empty() } else { (if h == lo { Seq::empty() } else { seq![t[lo]->Id_0] }) + names(t, h + 1) } } }
// well-formed
pub open spec fn fine_tok(a: Seq<Tok>, k: int) -> bool { match a[k] { Tok::Id(_) => true, Tok::Lit(_) => true, Tok::Prec(_) => k + 1 < a.len() && a[k + 1] is Id, _ => false } }
pub open spec fn fine_alt(a: Seq<Tok>) -> bool { forall|k: int| 0 <= k < a.len() ==> #[trigger] fine_tok(a, k) }
pub open spec fn fine_alts(b: Seq<Tok>, lo: int) -> bool decreases b.len() - lo + 1 { lo < 0 || lo > b.len() || { let h = cut(b, lo, Tok::Bar); h >= lo && h <= b.len() && fine_alt(b.subrange(lo, h)) && fine_alts(b, h + 1) } }
pub open spec fn fine_chunk(c: Seq<Tok>) -> bool { c.len() == 0 || (c.len() >= 2 && c[0] is Id && c[1] is Colon && fine_alts(c.subrange(2, c.len() as int), 0)) }
pub open spec fn fine_section(t: Seq<Tok>, lo: int) -> bool decreases t.len() - lo + 1 { lo < 0 || lo > t.len() || { let h = cut(t, lo, Tok::Semi); h >= lo && h <= t.len() && fine_chunk(t.subrange(lo, h)) && fine_section(t, h + 1) } }
// symbols: a name is a nonterminal if a rule has it
pub open spec fn symbol(n: Seq<Seq<char>>, t: Tok) -> CompV { match t { Tok::Id(s) => if n.contains(s) { CompV::N(s) } else { CompV::T(kind_of(s)) }, Tok::Lit(s) => CompV::T(KindV::Raw(s)), _ => CompV::N(Seq::empty()) } }
pub open spec fn symbols(n: Seq<Seq<char>>, s: Seq<Tok>) -> Seq<CompV> { s.map_values(|t: Tok| symbol(n, t)) }
pub open spec fn resolve(n: Seq<Seq<char>>, r: RawV) -> RuleV { RuleV { name: r.name, comps: symbols(n, r.syms), prec: r.prec } }
pub open spec fn read_rules(t: Seq<Tok>) -> Seq<RuleV> { section(t, 0).map_values(|r: RawV| resolve(names(t, 0), r)) }
proof fn cut_up(t: Seq<Tok>, i: int, sep: Tok) requires 0 <= i <= t.len() ensures i <= cut(t, i, sep) <= t.len(), cut(t, i, sep) < t.len() ==> t[cut(t, i, sep)] == sep decreases t.len() - i { if i < t.len() && t[i] != sep { cut_up(t, i + 1, sep); } }
proof fn toks_short(s: Seq<char>, i: int) requires 0 <= i ensures toks(s, i).len() <= (if i < s.len() { s.len() - i } else { 0 }) decreases s.len() - i { if i < s.len() { let e = piece_end(s, i); if i < e <= s.len() { toks_short(s, e); } } }
proof fn strip_fine(a: Seq<Tok>, i: int) requires fine_alt(a), 0 <= i ensures forall|k: int| 0 <= k < strip(a, i).len() ==> (#[trigger] strip(a, i)[k]) is Id || strip(a, i)[k] is Lit decreases a.len() - i { if i < a.len() { assert(fine_tok(a, i)); if a[i] is Prec { strip_fine(a, i + 2); } else { strip_fine(a, i + 1); let x = strip(a, i + 1); assert forall|k: int| 0 <= k < strip(a, i).len() implies (#[trigger] strip(a, i)[k]) is Id || strip(a, i)[k] is Lit by { if k > 0 { assert(strip(a, i)[k] == x[k - 1]); } } } } }
proof fn views(v: Seq<BisonToken>) ensures tvs(v).len() == v.len(), forall|k: int| 0 <= k < v.len() ==> tvs(v)[k] == tv(#[trigger] v[k]) {}
pub open spec fn secinv(b: Seq<RawV>, n: Seq<Seq<char>>, t: Seq<Tok>, lo: int) -> bool { b + section(t, lo) == section(t, 0) && n + names(t, lo) == names(t, 0) && fine_section(t, lo) && 0 <= lo <= t.len() + 1 }
pub open spec fn altinv(b: Seq<RawV>, b0: Seq<RawV>, n: Seq<char>, t: Seq<Tok>, lo: int) -> bool { b + alts(n, t, lo) == b0 + alts(n, t, 0) && fine_alts(t, lo) && 0 <= lo <= t.len() + 1 }
proof fn sec_start(t: Seq<Tok>) requires fine_section(t, 0) ensures secinv(Seq::empty(), Seq::empty(), t, 0) { assert(Seq::<RawV>::empty() + section(t, 0) =~= section(t, 0)); assert(Seq::<Seq<char>>::empty() + names(t, 0) =~= names(t, 0)); }
proof fn sec_look(b: Seq<RawV>, n: Seq<Seq<char>>, t: Seq<Tok>, lo: int) requires secinv(b, n, t, lo), lo <= t.len() ensures ({ let h = cut(t, lo, Tok::Semi); let c = t.subrange(lo, h); lo <= h <= t.len() && (h > lo ==> h >= lo + 2 && t[lo] is Id && t[lo + 1] is Colon && fine_alts(t.subrange(lo + 2, h), 0) && c.subrange(2, c.len() as int) == t.subrange(lo + 2, h) && chunk(c) == alts(t[lo]->Id_0, t.subrange(lo + 2, h), 0)) })
{ cut_up(t, lo, Tok::Semi); let h = cut(t, lo, Tok::Semi); let c = t.subrange(lo, h); assert(fine_chunk(c)); if h > lo { assert(c[0] == t[lo]); assert(c[1] == t[lo + 1]); assert(c.subrange(2, c.len() as int) =~= t.subrange(lo + 2, h)); } }
proof fn sec_step(b: Seq<RawV>, n: Seq<Seq<char>>, t: Seq<Tok>, lo: int, b2: Seq<RawV>, n2: Seq<Seq<char>>) requires secinv(b, n, t, lo), lo <= t.len(), b2 == b + chunk(t.subrange(lo, cut(t, lo, Tok::Semi))), n2 == (if cut(t, lo, Tok::Semi) == lo { n } else { n.push(t[lo]->Id_0) }) ensures secinv(b2, n2, t, cut(t, lo, Tok::Semi) + 1)
{ cut_up(t, lo, Tok::Semi); let h = cut(t, lo, Tok::Semi); let c = t.subrange(lo, h); assert(section(t, lo) == chunk(c) + section(t, h + 1)); assert(b2 + section(t, h + 1) =~= b + (chunk(c) + section(t, h + 1))); let x: Seq<Seq<char>> = if h == lo { Seq::empty() } else { seq![t[lo]->Id_0] }; assert(names(t, lo) == x + names(t, h + 1)); assert(n2 =~= n + x); assert((n + x) + names(t, h + 1) =~= n + (x + names(t, h + 1))); }
proof fn sec_skip(b: Seq<RawV>, n: Seq<Seq<char>>, t: Seq<Tok>, lo: int) requires secinv(b, n, t, lo), lo <= t.len(), cut(t, lo, Tok::Semi) == lo ensures secinv(b, n, t, lo + 1) { assert(b + chunk(t.subrange(lo, lo)) =~= b); sec_step(b, n, t, lo, b, n); }
proof fn sec_done(b: Seq<RawV>, n: Seq<Seq<char>>, t: Seq<Tok>, lo: int) requires secinv(b, n, t, lo), lo > t.len() ensures b == section(t, 0), n == names(t, 0) { assert(b + section(t, lo) =~= b); assert(n + names(t, lo) =~= n); }
proof fn alt_start(b: Seq<RawV>, n: Seq<char>, t: Seq<Tok>) requires fine_alts(t, 0) ensures altinv(b, b, n, t, 0) {}
proof fn alt_look(b: Seq<RawV>, b0: Seq<RawV>, n: Seq<char>, t: Seq<Tok>, lo: int) requires altinv(b, b0, n, t, lo), lo <= t.len() ensures ({ let h = cut(t, lo, Tok::Bar); lo <= h <= t.len() && fine_alt(t.subrange(lo, h)) }) { cut_up(t, lo, Tok::Bar); }
proof fn alt_step(b: Seq<RawV>, b0: Seq<RawV>, n: Seq<char>, t: Seq<Tok>, lo: int, b2: Seq<RawV>) requires altinv(b, b0, n, t, lo), lo <= t.len(), b2 == b.push(alt(n, t.subrange(lo, cut(t, lo, Tok::Bar)))) ensures altinv(b2, b0, n, t, cut(t, lo, Tok::Bar) + 1)
{ cut_up(t, lo, Tok::Bar); let h = cut(t, lo, Tok::Bar); let a = alt(n, t.subrange(lo, h)); assert(alts(n, t, lo) == seq![a] + alts(n, t, h + 1)); assert(b2 + alts(n, t, h + 1) =~= b + (seq![a] + alts(n, t, h + 1))); }
proof fn alt_done(b: Seq<RawV>, b0: Seq<RawV>, n: Seq<char>, t: Seq<Tok>, lo: int) requires altinv(b, b0, n, t, lo), lo > t.len() ensures b == b0 + alts(n, t, 0) { assert(b + alts(n, t, lo) =~= b); }
proof fn rev_start(a: Seq<Tok>) ensures a == a.subrange(0, a.len() as int) + strip(a, a.len() as int), prec_of(a, a.len() as int) is None { assert(a =~= a.subrange(0, a.len() as int) + strip(a, a.len() as int)); }
proof fn rev_done(a: Seq<Tok>, q: Seq<BisonToken>) requires fine_alt(a), tvs(q) == a.subrange(0, 0) + strip(a, 0) ensures tvs(q) == strip(a, 0), forall|k: int| 0 <= k < q.len() ==> tv(#[trigger] q[k]) is Id || tv(q[k]) is Lit { assert(tvs(q) =~= strip(a, 0)); strip_fine(a, 0); assert forall|k: int| 0 <= k < q.len() implies tv(#[trigger] q[k]) is Id || tv(q[k]) is Lit by { assert(tvs(q)[k] == tv(q[k])); } }
pub open spec fn copied(c: Seq<RawComponent>, q: Seq<BisonToken>, n: int) -> bool { c.len() == n && forall|k: int| 0 <= k < n ==> rcv(#[trigger] c[k]) == tv(q[k]) }
proof fn copy_done(c: Seq<RawComponent>, q: Seq<BisonToken>) requires copied(c, q, q.len() as int) ensures rcvs(c) == tvs(q) { assert(rcvs(c) =~= tvs(q)); }
proof fn raws_push(a: Seq<(Str, Vec<RawComponent>, Option<Str>)>, t: (Str, Vec<RawComponent>, Option<Str>)) ensures raws(a.push(t)) == raws(a).push(rawv(t)) { assert(raws(a.push(t)) =~= raws(a).push(rawv(t))); }
proof fn strsv_push(a: Seq<Str>, t: Str) ensures strsv(a.push(t)) == strsv(a).push(t@) { assert(strsv(a.push(t)) =~= strsv(a).push(t@)); }
proof fn empties() ensures raws(Seq::empty()) == Seq::<RawV>::empty(), strsv(Seq::empty()) == Seq::<Seq<char>>::empty() { assert(raws(Seq::empty()) =~= Seq::<RawV>::empty()); assert(strsv(Seq::empty()) =~= Seq::<Seq<char>>::empty()); }
pub open spec fn solved(r: Seq<Rule>, t: Seq<Tok>, n: int) -> bool { r.len() == n && forall|k: int| 0 <= k < n ==> rulev(#[trigger] r[k]) == resolve(names(t, 0), section(t, 0)[k]) }
pub open spec fn symbolled(n: Seq<Seq<char>>, c: Seq<Component>, q: Seq<RawComponent>, m: int) -> bool { c.len() == m && forall|k: int| 0 <= k < m ==> cv(#[trigger] c[k]) == symbol(n, rcv(q[k])) }
proof fn solve_start(r: Seq<Rule>, t: Seq<Tok>) requires r.len() == 0 ensures solved(r, t, 0) {}
proof fn solve_step(r: Seq<Rule>, t: Seq<Tok>, n: int, w: Seq<(Str, Vec<RawComponent>, Option<Str>)>, x: Rule) requires solved(r, t, n), 0 <= n < w.len(), raws(w) == section(t, 0), symbolled(names(t, 0), x.components@, w[n].1@, w[n].1@.len() as int), x.name == w[n].0, x.prec == w[n].2 ensures solved(r.push(x), t, n + 1)
{ let z = r.push(x); let nm = names(t, 0); assert(raws(w)[n] == rawv(w[n])); assert(cvs(x.components@) =~= symbols(nm, rcvs(w[n].1@))); assert forall|k: int| 0 <= k < n + 1 implies rulev(#[trigger] z[k]) == resolve(names(t, 0), section(t, 0)[k]) by { if k < n { assert(z[k] == r[k]); } } }
proof fn solve_done(r: Seq<Rule>, t: Seq<Tok>, w: Seq<(Str, Vec<RawComponent>, Option<Str>)>) requires solved(r, t, w.len() as int), raws(w) == section(t, 0) ensures rulesv(r) == read_rules(t) { assert(raws(w).len() == w.len()); assert(rulesv(r) =~= read_rules(t)) by { assert forall|k: int| 0 <= k < r.len() implies rulesv(r)[k] == #[trigger] read_rules(t)[k] by { assert(rulev(r[k]) == resolve(names(t, 0), section(t, 0)[k])); } } }
proof fn rev_look(a: Seq<Tok>, i: int, q: Seq<BisonToken>) requires fine_alt(a), 0 <= i < a.len(), tvs(q) == a.subrange(0, i + 1) + strip(a, i + 1) ensures q.len() > i, tv(q[i]) == a[i], a[i] is Prec ==> q.len() > i + 1 && i + 1 < a.len() && tv(q[i + 1]) == a[i + 1] && a[i + 1] is Id
{ views(q); assert(tvs(q)[i] == a[i]); assert(tv(q[i]) == tvs(q)[i]); if a[i] is Prec { assert(fine_tok(a, i)); assert(strip(a, i + 1) == seq![a[i + 1]] + strip(a, i + 2)); assert(tvs(q)[i + 1] == a[i + 1]); assert(tv(q[i + 1]) == tvs(q)[i + 1]); } }
proof fn rev_step(a: Seq<Tok>, i: int, q: Seq<BisonToken>, z: Seq<BisonToken>) requires fine_alt(a), 0 <= i < a.len(), tvs(q) == a.subrange(0, i + 1) + strip(a, i + 1), z == (if a[i] is Prec { q.remove(i + 1).remove(i) } else { q }) ensures tvs(z) == a.subrange(0, i) + strip(a, i), prec_of(a, i) == (if a[i] is Prec { Some(a[i + 1]->Id_0) } else { prec_of(a, i + 1) })
{ rev_look(a, i, q); if a[i] is Prec { assert(strip(a, i + 1) == seq![a[i + 1]] + strip(a, i + 2)); assert(tvs(z) =~= tvs(q).remove(i + 1).remove(i)); assert(tvs(z) =~= a.subrange(0, i) + strip(a, i + 2)); } else { assert(a.subrange(0, i + 1) + strip(a, i + 1) =~= a.subrange(0, i) + (seq![a[i]] + strip(a, i + 1))); } }
proof fn tvs_sub(a: Seq<BisonToken>, i: int, j: int) requires 0 <= i <= j <= a.len() ensures tvs(a.subrange(i, j)) == tvs(a).subrange(i, j) { assert(tvs(a.subrange(i, j)) =~= tvs(a).subrange(i, j)); }
"""
def maps(t):
    for a, b in (("HashMap<Str, Str>", "Other<Str>"), ("HashMap<Str, Option<Str>>", "Other<Option<Str>>"), ("HashMap<Str, Assoc>", "AssocMap")): t = t.replace(a, b)
    return t
def norm(t): return re.sub(r"\s+", " ", re.sub(r"//[^\n]*", "", re.sub(r"#\[[^\]]*\]", "", t)))
def strs(t): return re.sub(r"\bString\b", "Str", t)
LOOSE = "#[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] "
def build(u):
    u.add(SHIM); u.add(norm(u.item(BI, "struct", "Range").text).replace(" start", " pub start").replace(" end", " pub end")); u.add(strs(norm(u.item(BI, "enum", "BisonToken").text)))
    u.add("#[derive(Clone, Copy)] " + norm(u.item(BI, "enum", "AssocDirective").text)); kinds = norm(u.item(LX, "enum", "TokenKind").text)
    for n in ("Assoc", "Rule", "Bison"): u.add(maps(strs(norm(u.item(BI, "struct", n).text))))
    for n in ("RawComponent", "Component"): u.add(strs(norm(u.item(BI, "enum", n).text)))
    u.add(strs(kinds)); names = [x for x in re.findall(r"\b(\w+)\b", kinds.split("{", 1)[1]) if x not in ("RAW", "KEYWORD", "String")]
    u.add("pub open spec fn kv(t: TokenKind) -> KindV { match t { TokenKind::RAW(s) => KindV::Raw(s@), TokenKind::KEYWORD(s) => KindV::Key(s@), " + ", ".join('TokenKind::%s => KindV::Own("%s"@)' % (x, x) for x in names) + " } }")
    u.add("pub open spec fn own_name(s: Seq<char>) -> bool { " + " || ".join('s == "%s"@' % x for x in OWN) + " }")
    u.add("//@fn theory\n" + SCAN + RULES + DECL + "\n//@end"); u.add(SHIM3); scan(u); rules(u); decls(u); whole_file(u)
    return u
def scan(u):
    f = u.fn(BI, "scan"); up = f.lift("update_range"); rg = f.lift("range")
    up.rw("chars: &[char]", "chars: &Vec<char>"); up.rw("$c.len_utf8()", "len_utf8($c)")
    up.contract("requires at($0@.len() as int, *old($1) as int, *old($2) as int, *old($3) as int, *old($4) as int), *old($1) < $0@.len() ensures at($0@.len() as int, *final($1) as int, *final($2) as int, *final($3) as int, *final($4) as int), *final($1) == *old($1) + 1, *final($3) == newcol($0@[*old($1) as int], *old($3) as int), *final($4) == *old($4) + ulen($0@[*old($1) as int])")
    up.start(); u.put(up)
    rg.rw("s: &str", "s: &Str"); rg.contract("requires $3 <= 0x2_0000_0000, $2 <= 0x2_0000_0000, bytes($0@) <= 4"); rg.start(); u.put(rg)
    f.src = strs(f.src); f.src = re.sub(r"\b(c|chars\[i\])\.is_ascii_(\w+)\(\)", r"is_ascii_\2(\1)", f.src); f.rw("chars[i..].starts_with(&[$a, $b])", "starts2(&chars, i, $a, $b)"); f.rw("$c.to_string()", "char_str($c)"); f.rw("$v.chars().count()", "$v.count()"); f.rw("body.chars().collect::<Vec<_>>()", "chars_of(&body)"); f.rw("unreachable!();", "vstd::pervasive::unreached::<()>();")
    f.contract("requires spelled($0@, 0), $0@.len() <= 0x7fff_ffff ensures tvs(r@) == toks($0@, 0)"); f.start("let ghost s = $0@; ")
    AT = "at(s.len() as int, i as int, row as int, col as int, byte_pos as int)"
    hook(f, AT)
    f.src = LOOSE + f.src; u.put(f)
SHIM2 = r"""
#[verifier::external_body] pub fn part(s: &Vec<BisonToken>, i: usize, j: usize) -> (r: Vec<BisonToken>) requires i <= j <= s@.len() ensures r@ == s@.subrange(i as int, j as int) { unimplemented!() }
#[verifier::external_body] pub fn moved<T>(v: &Vec<T>, k: usize) -> (r: T) requires k < v@.len() ensures r == v@[k as int] { unimplemented!() }
#[verifier::external_body] pub fn copy_opt(o: &Option<Str>) -> (r: Option<Str>) ensures ov(r) == ov(*o) { unimplemented!() }
#[verifier::external_body] pub fn contains_str(v: &Vec<Str>, s: &Str) -> (r: bool) ensures r == strsv(v@).contains(s@) { unimplemented!() }
"""
DECL = r"""
// n characters of one byte each; a directive and white space after it
pub open spec fn single(s: Seq<char>, n: int) -> bool { n <= s.len() && forall|i: int| 0 <= i < n ==> #[trigger] s[i] < '\u{80}' }
pub open spec fn led(l: Seq<char>, d: Seq<char>) -> bool { prefix(l, d) && l.len() > d.len() && ws(l[d.len() as int]) }
proof fn led_single(l: Seq<char>) ensures led(l, "%type"@) ==> single(l, 6), led(l, "%token"@) ==> single(l, 7) { reveal_strlit("%type"); reveal_strlit("%token"); if led(l, "%type"@) { assert forall|i: int| 0 <= i < 6 implies #[trigger] l[i] < '\u{80}' by { if i < 5 { assert(l[i] == l.subrange(0, 5)[i]); } } } if led(l, "%token"@) { assert forall|i: int| 0 <= i < 7 implies #[trigger] l[i] < '\u{80}' by { if i < 6 { assert(l[i] == l.subrange(0, 6)[i]); } } } }
// lines; words between whitespace (ASCII whitespace and, for split_whitespace, the rest of Unicode's)
pub uninterp spec fn wide(c: char) -> bool;
pub open spec fn blank(c: char, a: bool) -> bool { ws(c) || (!a && wide(c)) }
pub open spec fn past_blank(s: Seq<char>, i: int, a: bool) -> int decreases s.len() - i { if in_(s, i) && blank(s[i], a) { past_blank(s, i + 1, a) } else { i } }
pub open spec fn past_word(s: Seq<char>, i: int, a: bool) -> int decreases s.len() - i { if in_(s, i) && !blank(s[i], a) { past_word(s, i + 1, a) } else { i } }
pub open spec fn words_from(s: Seq<char>, i: int, a: bool) -> Seq<Seq<char>> decreases s.len() - i { let b = past_blank(s, i, a); let e = past_word(s, b, a); if i < 0 || b >= s.len() || e <= i || e > s.len() { Seq::empty() } else { seq![s.subrange(b, e)] + words_from(s, e, a) } }
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> { words_from(s, 0, false) }
pub open spec fn awords(s: Seq<char>) -> Seq<Seq<char>> { words_from(s, 0, true) }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !wide(#[trigger] s[i]) }
pub open spec fn prefix(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn newline(s: Seq<char>, i: int) -> int decreases s.len() - i { if in_(s, i) && s[i] != '\n' { newline(s, i + 1) } else { i } }
pub open spec fn chomp(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub open spec fn lines(s: Seq<char>, i: int) -> Seq<Seq<char>> decreases s.len() - i { if i < 0 || i >= s.len() { Seq::empty() } else { let e = newline(s, i); if e < i { Seq::empty() } else if e >= s.len() { seq![s.subrange(i, s.len() as int)] } else { seq![chomp(s.subrange(i, e))] + lines(s, e + 1) } } }
// declarations: a directive's names get its direction and one level, the number of names declared before; lines that begin with whitespace continue a declaration; `/*` ends a line
pub struct AssocV { pub name: Seq<char>, pub level: int, pub directive: AssocDirective }
pub open spec fn av(a: Assoc) -> AssocV { AssocV { name: a.name@, level: a.priority as int, directive: a.directive } }
pub type Levels = Map<Seq<char>, AssocV>;
pub open spec fn put(m: Levels, w: Seq<Seq<char>>, i: int, p: int, d: AssocDirective) -> Levels decreases w.len() - i { if i < 0 || i >= w.len() || w[i] == "/*"@ { m } else { put(m.insert(w[i], AssocV { name: w[i], level: p, directive: d }), w, i + 1, p, d) } }
pub open spec fn cont(l: Seq<char>) -> bool { l.len() > 0 && ws(l[0]) }
pub open spec fn rest(q: Seq<Seq<char>>, e: bool) -> Seq<Seq<char>> decreases q.len() { if q.len() > 0 && (cont(q[0]) || (e && q[0].len() == 0)) { rest(q.skip(1), e) } else { q } }
pub open spec fn decl(m: Levels, w: Seq<Seq<char>>, q: Seq<Seq<char>>, p: int, d: AssocDirective) -> Levels decreases q.len() { let n = put(m, w, 0, p, d); if q.len() > 0 && cont(q[0]) { decl(n, words(q[0]), q.skip(1), p, d) } else { n } }
pub enum Line { End, Type, Token, Level(AssocDirective), Other }
pub open spec fn line_kind(l: Seq<char>) -> Line { let w = words(l); if prefix(l, "%%"@) { Line::End } else if w.len() == 0 { Line::Other } else if w[0] == "%type"@ { Line::Type } else if w[0] == "%token"@ { Line::Token } else if w[0] == "%nonassoc"@ { Line::Level(AssocDirective::NonAssoc) } else if w[0] == "%left"@ { Line::Level(AssocDirective::Left) } else if w[0] == "%right"@ { Line::Level(AssocDirective::Right) } else { Line::Other } }
pub open spec fn after_line(q: Seq<Seq<char>>) -> Seq<Seq<char>> { match line_kind(q[0]) { Line::Type => rest(q.skip(1), false), Line::Token => rest(q.skip(1), true), Line::Level(_) => rest(q.skip(1), false), _ => q.skip(1) } }
pub open spec fn with_line(m: Levels, q: Seq<Seq<char>>) -> Levels { match line_kind(q[0]) { Line::Level(d) => decl(m, words(q[0]).skip(1), q.skip(1), m.len() as int, d), _ => m } }
pub open spec fn header(m: Levels, q: Seq<Seq<char>>) -> (Levels, Seq<Seq<char>>) decreases q.len() { if q.len() == 0 { (m, q) } else if line_kind(q[0]) is End { (m, q.skip(1)) } else if after_line(q).len() >= q.len() { (m, q) } else { header(with_line(m, q), after_line(q)) } }
pub open spec fn section_text(q: Seq<Seq<char>>) -> Seq<char> decreases q.len() { if q.len() == 0 || prefix(q[0], "%%"@) { Seq::empty() } else { q[0].push('\n') + section_text(q.skip(1)) } }
pub open spec fn fine_line(l: Seq<char>) -> bool { match line_kind(l) { Line::Type => led(l, "%type"@) && awords(l.skip(6)).len() >= 1, Line::Token => led(l, "%token"@) && awords(l.skip(7)).len() >= 1 && awords(l.skip(7))[0].len() >= 1, Line::Level(_) => plain(l), _ => true } }
pub open spec fn fine_header(q: Seq<Seq<char>>) -> bool decreases q.len() { q.len() == 0 || line_kind(q[0]) is End || (fine_line(q[0]) && (after_line(q).len() >= q.len() || fine_header(after_line(q)))) }
proof fn rest_short(q: Seq<Seq<char>>, e: bool) ensures rest(q, e).len() <= q.len() decreases q.len() { if q.len() > 0 { rest_short(q.skip(1), e); } }
proof fn header_step(m: Levels, q: Seq<Seq<char>>) requires fine_header(q) ensures q.len() == 0 ==> header(m, q) == (m, q), q.len() > 0 && line_kind(q[0]) is End ==> header(m, q) == (m, q.skip(1)), q.len() > 0 && !(line_kind(q[0]) is End) ==> fine_line(q[0]) && fine_header(after_line(q)) && header(m, q) == header(with_line(m, q), after_line(q))
{ if q.len() > 0 { rest_short(q.skip(1), true); rest_short(q.skip(1), false); } }
pub open spec fn fine_file(s: Seq<char>) -> bool { let q = lines(s, 0); let b = section_text(header(Map::empty(), q).1); fine_header(q) && spelled(b, 0) && b.len() <= 0x7fff_ffff && fine_section(toks(b, 0), 0) }
// levels rise with the declarations
proof fn put_keeps(m: Levels, w: Seq<Seq<char>>, i: int, p: int, d: AssocDirective) requires 0 <= i ensures m.dom().subset_of(put(m, w, i, p, d).dom()), m.len() <= put(m, w, i, p, d).len(), forall|n: Seq<char>| #[trigger] put(m, w, i, p, d).contains_key(n) ==> put(m, w, i, p, d)[n] == (if m.contains_key(n) && put(m, w, i, p, d)[n] == m[n] { m[n] } else { AssocV { name: n, level: p, directive: d } }) decreases w.len() - i
{ if i < w.len() && w[i] != "/*"@ { let m2 = m.insert(w[i], AssocV { name: w[i], level: p, directive: d }); put_keeps(m2, w, i + 1, p, d); vstd::set_lib::lemma_len_subset(m.dom(), m2.dom()); } }
proof fn decl_keeps(m: Levels, w: Seq<Seq<char>>, q: Seq<Seq<char>>, p: int, d: AssocDirective) ensures m.dom().subset_of(decl(m, w, q, p, d).dom()), m.len() <= decl(m, w, q, p, d).len(), forall|n: Seq<char>| #[trigger] decl(m, w, q, p, d).contains_key(n) ==> decl(m, w, q, p, d)[n] == (if m.contains_key(n) && decl(m, w, q, p, d)[n] == m[n] { m[n] } else { AssocV { name: n, level: p, directive: d } }) decreases q.len()
{ put_keeps(m, w, 0, p, d); if q.len() > 0 && cont(q[0]) { decl_keeps(put(m, w, 0, p, d), words(q[0]), q.skip(1), p, d); } }
// a name declared for the first time has the directive's direction and a higher level than every name before, all names of one declaration the same
pub open spec fn below(m: Levels) -> bool { forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> m[n].level < m.len() && m[n].name == n }
pub proof fn levels_rise(m: Levels, w: Seq<Seq<char>>, q: Seq<Seq<char>>, d: AssocDirective, n: Seq<char>) requires below(m), !m.contains_key(n), decl(m, w, q, m.len() as int, d).contains_key(n) ensures decl(m, w, q, m.len() as int, d)[n] == (AssocV { name: n, level: m.len() as int, directive: d }), forall|o: Seq<char>| #[trigger] m.contains_key(o) ==> m[o].level < decl(m, w, q, m.len() as int, d)[n].level, below(decl(m, w, q, m.len() as int, d))
{ let z = decl(m, w, q, m.len() as int, d); decl_keeps(m, w, q, m.len() as int, d); assert(m.dom().insert(n).subset_of(z.dom())); vstd::set_lib::lemma_len_subset(m.dom().insert(n), z.dom()); }
"""
SHIM3 = r"""
#[verifier::external_body] pub struct AssocMap { x: u8 }
impl AssocMap { pub uninterp spec fn view(&self) -> Levels;
  #[verifier::external_body] pub fn new() -> (r: AssocMap) ensures r@ == Map::<Seq<char>, AssocV>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: Str, v: Assoc) ensures final(self)@ == old(self)@.insert(k@, av(v)) { unimplemented!() } }
// str: lines, words, trimming, joining
#[verifier::external_body] pub fn lines_of(s: &Str) -> (r: Deq) ensures r@ == lines(s@, 0) { unimplemented!() }
#[verifier::external_body] pub fn words_of(s: &Str) -> (r: Vec<Str>) ensures strsv(r@) == words(s@), r@.len() == words(s@).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == words(s@)[k] { unimplemented!() }
#[verifier::external_body] pub fn awords_of(s: &Str) -> (r: Vec<Str>) ensures strsv(r@) == awords(s@), r@.len() == awords(s@).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == awords(s@)[k] { unimplemented!() }
#[verifier::external_body] pub fn first_word(s: &Str) -> (r: Option<&str>) ensures (match r { Some(x) => words(s@).len() > 0 && x@ == words(s@)[0], None => words(s@).len() == 0 }) { unimplemented!() }
#[verifier::external_body] pub fn without_first_word(s: &Str) -> (r: Str) requires plain(s@) ensures words(r@) == words(s@).skip(1) { unimplemented!() }
#[verifier::external_body] pub fn without_prefix(s: &Str, p: &str) -> (r: Str) requires single(s@, p@.len() as int), single(p@, p@.len() as int) ensures r@ == s@.skip(p@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn join_from(v: &Vec<Str>, k: usize) -> Str requires k <= v@.len() { unimplemented!() }
#[verifier::external_body] pub fn trim_angles(s: &Str) -> Str { unimplemented!() }
#[verifier::external_body] pub fn first_char(s: &Str) -> (r: Option<char>) ensures (match r { Some(c) => s@.len() > 0 && c == s@[0], None => s@.len() == 0 }) { unimplemented!() }
#[verifier::external_body] pub fn str_is(a: &Str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn has_prefix(a: &Str, b: &str) -> (r: bool) ensures r == prefix(a@, b@) { unimplemented!() }
#[verifier::external_body] pub fn has_char(a: &Str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@[0] == c) { unimplemented!() }
#[verifier::external_body] pub fn line_of(s: &str) -> (r: Str) ensures r@ == s@ { unimplemented!() }
"""
def decls(u):
    f = u.fn(BI, "is_start_whitespace"); f.rw("line: impl AsRef<str>", "line: &Str"); f.rw("$x.as_ref().chars().next().is_some_and(|$c| $e*)", "match first_char($x) { Some($c) => $e, None => false }"); f.src = re.sub(r"\bc\.is_ascii_(\w+)\(\)", r"is_ascii_\1(c)", f.src); f.contract("ensures r == cont($0@)"); f.start(); u.put(f)
    for n in ("parse_type", "parse_token", "parse_assoc"):
        f = u.fn(BI, n); f.src = strs(f.src).replace("VecDeque<Str>", "Deq").replace("&str", "&Str"); f.rw("Deq<Str>", "Deq")
        f.rw("$d.front().is_some_and(|$l| $e*)", "(match $d.front() { Some($l) => $e, None => false })"); f.rw("$d.front().is_some_and($g)", "(match $d.front() { Some(__l) => $g(__l), None => false })")
        f.rw('line[$s.len()..].to_string()', "without_prefix(line, $s)"); f.rw("$l.split_ascii_whitespace().map(str::to_string).collect::<Vec<_>>()", "awords_of(&$l)"); f.rw("$l.split_ascii_whitespace().skip(1).collect::<Vec<_>>().join($s)", "without_first_word($l)")
        f.rw("let p: &[_] = &[$x*];", ""); f.rw("$v[$k].trim_matches(p).to_string()", "trim_angles(&$v[$k])"); f.rw("$v[$k].trim_matches(p)", "trim_angles(&$v[$k])"); f.rw("$v[$k..].join($s).to_string()", "join_from(&$v, $k)"); f.rw("$v[$k..].join($s)", "join_from(&$v, $k)"); f.rw("$v.join($s)", "join_from(&$v, 0)"); f.rw("$v[$k].starts_with($c)", "has_char(&$v[$k], $c)")
        f.rw("for $v in $l.split_whitespace() {", "let __w = words_of(&$l); for $v in __w.iter() {"); f.rw("name == $s", "str_is(name, $s)"); f.src = re.sub(r"\b(\w+)\.to_string\(\)", r"\1.clone()", f.src); f.rw("typ.clone()", "typ.clone()" if n == "parse_type" else "copy_opt(&typ)")
        f.desugar()
        e = "true" if n == "parse_token" else "false"
        pre = {"parse_type": 'led($1@, "%type"@), awords($1@.skip(6)).len() >= 1', "parse_token": 'led($1@, "%token"@), awords($1@.skip(7)).len() >= 1, awords($1@.skip(7))[0].len() >= 1', "parse_assoc": "plain($1@)"}[n]
        post = "final($0).assoc@ == decl(old($0).assoc@, words($1@).skip(1), old($2)@, old($0).assoc@.len() as int, $3), " if n == "parse_assoc" else "final($0).assoc@ == old($0).assoc@, "
        KEEP = "bison.rules == old(bison).rules, bison.rule_names == old(bison).rule_names, "
        f.contract("requires " + pre + " ensures " + post + "final($0).rules == old($0).rules, final($0).rule_names == old($0).rule_names, final($2)@ == rest(old($2)@, %s)" % e)
        f.start('let ghost m0 = $0.assoc@; let ghost p0 = m0.len() as int; let ghost q0 = $2@; let ghost w0 = words($1@).skip(1); ' + ('proof { reveal_strlit("%type "); reveal_strlit("%token "); reveal_strlit("%type"); reveal_strlit("%token"); led_single(line@); } ' if n != "parse_assoc" else ""))
        if n == "parse_assoc":
            f.loop(0, "invariant " + KEEP + "decl(bison.assoc@, words(line@), deq@, p0, directive) == decl(m0, w0, q0, p0, directive), rest(deq@, false) == rest(q0, false)", "let ghost m1 = bison.assoc@; let ghost w1 = words(line@); ")
            f.loop(1, "invariant " + KEEP + "deq@ == q1, __i0 <= __e0, put(bison.assoc@, w1, __i0 as int, p0, directive) == put(m1, w1, 0, p0, directive) decreases __e0 - __i0")
            f.before("let __w =", "let ghost q1 = deq@; ")
        else:
            f.loop(0, "invariant " + KEEP + "bison.assoc@ == m0, rest(deq@, %s) == rest(q0, %s)" % (e, e))
            f.loop(1, "invariant " + KEEP + "bison.assoc@ == m0, deq@ == q1, __i0 <= __e0 decreases __e0 - __i0")
            f.before("let __w =", "let ghost q1 = deq@; ")
        f.src = LOOSE + f.src; u.put(f)
def whole_file(u):
    f = u.fn(BI, "parse_bison"); f.src = strs(f.src); f.rw("s: impl AsRef<str>", "s: &Str"); f.rw("$s.as_ref().lines().map(str::to_owned).collect::<VecDeque<_>>()", "lines_of($s)")
    f.rw("typ: HashMap::new()", "typ: Other::new()"); f.rw("token: HashMap::new()", "token: Other::new()"); f.rw("assoc: HashMap::new()", "assoc: AssocMap::new()"); f.rw("$l.starts_with($s)", "has_prefix(&$l, $s)"); f.while_let()
    f.rw("$l.split_whitespace().next()", '{ let __f = first_word(&$l); proof { if let Some(x) = __f { ' + "".join('str_ext(x, "%s"); ' % x for x in ("%type", "%token", "%nonassoc", "%left", "%right")) + '} } __f }', note="the first word bound to a name")
    f.contract("requires fine_file($0@) ensures ({ let h = header(Map::empty(), lines($0@, 0)); rulesv(r.rules@) == read_rules(toks(section_text(h.1), 0)) && strsv(r.rule_names@) == names(toks(section_text(h.1), 0), 0) && r.assoc@ == h.0 })")
    f.start('let ghost q0 = lines($0@, 0); let ghost H = header(Map::empty(), q0); ')
    hook3(f)
    f.src = LOOSE + f.src; u.put(f)
def hook3(f):
    f.before("let mut rule_body", "proof { assert(deq@ == H.1); assert(bison.assoc@ == H.0); assert(strsv(bison.rule_names@) =~= Seq::<Seq<char>>::empty()); } ")
    f.before("rule_body.push_str(", "let ghost b0 = rule_body@; ")
    f.before("parse_grammar_rules(", "proof { assert(rule_body@ =~= section_text(H.1)); } ")
    f.loop(0, "invariant bison.rules@.len() == 0, bison.rule_names@.len() == 0, header(bison.assoc@, deq@) == H, fine_header(deq@)", "let ghost q = deq@; let ghost m = bison.assoc@; proof { header_step(m, q); } ")
    f.loop(1, "invariant bison.rules@.len() == 0, bison.rule_names@.len() == 0, bison.assoc@ == H.0, rule_body@ + section_text(deq@) == section_text(H.1)", "let ghost q = deq@; ", "proof { assert(rule_body@ + section_text(deq@) =~= section_text(H.1)); } ")
def rules(u):
    u.add(SHIM2)
    f = u.fn(LX, "from"); f.src = re.sub(r"fn from\s*\(s: T\)", "fn from(s: &Str)", f.src); f.src = re.sub(r"\bs\.to_string\(\)", "str_of(s)", f.src); f.rw("$x.starts_with($c)", "starts_char($x, $c)"); f.rw("match $x.as_ref() {", "let __m = $x.as_ref(); proof { " + "".join('str_ext(__m, "%s"); ' % x for x in OWN) + "} match __m {", note="the matched text bound to a name"); f.contract("ensures kv(r) == kind_of($0@)"); f.start(); u.put(f, "TokenKind", "impl TokenKind")
    f = u.fn(BI, "identifier", "BisonToken"); f.src = strs(f.src); f.contract("ensures (match tv(*self) { Tok::Id(s) => r is Some && r->Some_0@ == s, _ => r is None })"); f.start(); u.put(f, "BisonToken", "impl BisonToken")
    f = u.fn(BI, "is_non_terminal", "Bison"); f.rw("s: &str", "s: &Str"); f.rw("$x*.contains(&$s.to_string())", "contains_str(&$x, $s)"); f.contract("ensures r == strsv(self.rule_names@).contains($1@)"); f.start(); u.put(f, "Bison", "impl Bison")
    f = u.fn(BI, "parse_grammar_rules"); f.src = strs(f.src)
    f.rw("$v[$a..].split(", "part(&$v, $a, $v.len()).split("); f.rw("in $v.split(", "in part(&$v, 0, $v.len()).split(")
    k = 0
    while True:
        f.src, n = vx.rewrite(f.src, "for $v in $x*.split(|$t| $m*) {", "let __s%d = $x; let mut __lo%d: usize = 0; while __lo%d <= __s%d.len() { let mut __hi%d = __lo%d; loop { if __hi%d >= __s%d.len() { break; } let $t = &__s%d[__hi%d]; if $m { break; } __hi%d = __hi%d + 1; } let $v = part(&__s%d, __lo%d, __hi%d); __lo%d = __hi%d + 1; ".replace("%d", str(k)), limit=1)
        if not n: break
        f.notes.append("split as a loop that looks for the next separator"); k += 1
    f.rw("$v.to_vec()", "part(&$v, 0, $v.len())"); f.rw("for $v in (0..$b*).rev() {", "let mut __r: usize = $b; while __r > 0 { __r = __r - 1; let $v = __r;", note="a reversed range as a while loop counting down")
    f.rw("let $n: $t* = $x.iter().filter_map(|$c| $e*).collect();", "let mut __c: $t = Vec::new(); let mut __ci: usize = 0; while __ci < $x.len() { let $c = &$x[__ci]; __ci = __ci + 1; let __o = $e; match __o { Some(__y) => __c.push(__y), None => {} } } let $n = __c;", note="filter_map + collect as a loop that pushes")
    f.rw("let $n: Vec<_> = $x.into_iter().map(|$c| $e*).collect();", "let mut __v: Vec<Component> = Vec::new(); let mut __vi: usize = 0; while __vi < $x.len() { let $c = moved(&$x, __vi); __vi = __vi + 1; let __y = $e; __v.push(__y); } let $n = __v;", note="into_iter + map + collect as a loop that pushes")
    f.rw("for ($a, $b, $c) in $x {", "let mut __q: usize = 0; while __q < $x.len() { let ($a, $b, $c) = moved(&$x, __q); __q = __q + 1;", note="for over a vector as a while loop")
    f.rw("prec.clone()", "copy_opt(&prec)"); f.rw("TokenKind::from($s)", "TokenKind::from(&$s)"); f.rw("unreachable!()", "vstd::pervasive::unreached()"); f.rw("panic!($x*);", "vstd::pervasive::unreached::<()>();")
    f.contract("requires old($0).rules@.len() == 0, old($0).rule_names@.len() == 0, spelled($1@, 0), $1@.len() <= 0x7fff_ffff, fine_section(toks($1@, 0), 0) ensures rulesv(final($0).rules@) == read_rules(toks($1@, 0)), strsv(final($0).rule_names@) == names(toks($1@, 0), 0), final($0).assoc == old($0).assoc")
    f.start("".join("hide(%s); " % x for x in "secinv altinv section names alts fine_section fine_alts fine_alt tvs raws rcvs cvs strsv rulesv strip prec_of solved toks spelled read_rules chunk".split()) + "let ghost T = toks($1@, 0); let ghost bodyv = $1@; ")
    hook2(f)
    f.src = LOOSE + f.src; u.put(f)
def hook2(f):
    f.before("let mut __lo0: usize", "proof { assert(__s0@ =~= tokens@); toks_short(bodyv, 0); views(__s0@); empties(); sec_start(T); assert(raw_rules@ =~= Seq::empty()); assert(bison.rule_names@ =~= Seq::empty()); } ")
    f.before("if rules.",  "let ghost h = __lo0 - 1; let ghost C = T.subrange(lo, h); proof { tvs_sub(__s0@, lo, h); views(rules@); if h > lo { assert(C[0] == tv(rules@[0])); assert(C[1] == tv(rules@[1])); } } let ghost m0 = bison.rule_names@; ")
    f.before("continue;", "proof { sec_skip(r0, strsv(m0), T, lo); } ")
    f.before("let __s1 =", "let ghost B = T.subrange(lo + 2, h); proof { strsv_push(m0, bison.rule_names@.last()); assert(bison.rule_names@ == m0.push(bison.rule_names@.last())); } ")
    f.before("let mut __lo1: usize", "proof { tvs_sub(rules@, 2, rules@.len() as int); views(__s1@); assert(tvs(__s1@) == B); alt_start(r0, rule_name@, B); } ")
    f.before("let mut rule =", "let ghost A = B.subrange(lo1, __lo1 - 1); proof { tvs_sub(__s1@, lo1, __lo1 - 1); } let ghost p1 = rule@; ")
    f.before("let mut __r: usize", "proof { assert(rule@ =~= p1); views(rule@); rev_start(A); } ")
    f.before("let mut __c: Vec<RawComponent>", "proof { rev_done(A, rule@); } ")
    f.before("raw_rules.push(", "let ghost g1 = raw_rules@; proof { copy_done(comp@, rule@); } ")
    f.before("let mut __q: usize", "proof { sec_done(raws(raw_rules@), strsv(bison.rule_names@), T, __lo0 as int); assert(solved(bison.rules@, T, 0)) by { solve_start(bison.rules@, T); } } ")
    KEEP = "bison.assoc == old(bison).assoc, "
    f.end("proof { solve_done(bison.rules@, T, raw_rules@); } ")
    f.loop(0, "invariant " + KEEP + "bison.rules@.len() == 0, __lo0 <= __s0@.len() + 1, secinv(raws(raw_rules@), strsv(bison.rule_names@), T, __lo0 as int) decreases __s0@.len() + 1 - __lo0", "let ghost lo = __lo0 as int; let ghost r0 = raws(raw_rules@); let ghost nn = strsv(bison.rule_names@); proof { sec_look(r0, nn, T, lo); } ",
      "proof { alt_done(raws(raw_rules@), r0, rule_name@, B, __lo1 as int); sec_step(r0, strsv(m0), T, lo, raws(raw_rules@), strsv(bison.rule_names@)); } ")
    f.loop(1, "invariant lo <= __hi0 <= __s0@.len(), cut(T, __hi0 as int, Tok::Semi) == cut(T, lo, Tok::Semi) decreases __s0@.len() - __hi0", "proof { if __hi0 < __s0@.len() { assert(T[__hi0 as int] == tv(__s0@[__hi0 as int])); } } ")
    f.loop(2, "invariant __lo1 <= __s1@.len() + 1, altinv(raws(raw_rules@), r0, rule_name@, B, __lo1 as int) decreases __s1@.len() + 1 - __lo1", "let ghost lo1 = __lo1 as int; let ghost g0 = raw_rules@; proof { alt_look(raws(g0), r0, rule_name@, B, lo1); } ",
      "proof { raws_push(g0, raw_rules@.last()); assert(raw_rules@ == g0.push(raw_rules@.last())); alt_step(raws(g0), r0, rule_name@, B, lo1, raws(raw_rules@)); } ")
    f.loop(3, "invariant lo1 <= __hi1 <= __s1@.len(), cut(B, __hi1 as int, Tok::Bar) == cut(B, lo1, Tok::Bar) decreases __s1@.len() - __hi1", "proof { if __hi1 < __s1@.len() { assert(B[__hi1 as int] == tv(__s1@[__hi1 as int])); } } ")
    f.loop(4, "invariant __r <= A.len(), tvs(rule@) == A.subrange(0, __r as int) + strip(A, __r as int), ov(prec) == prec_of(A, __r as int) decreases __r", "let ghost q0 = rule@; proof { rev_look(A, __r - 1, q0); } ", "proof { rev_step(A, __r as int, q0, rule@); } ")
    f.loop(5, "invariant __ci <= rule@.len(), copied(__c@, rule@, __ci as int) decreases rule@.len() - __ci")
    f.loop(6, "invariant " + KEEP + "strsv(bison.rule_names@) == names(T, 0), __q <= raw_rules@.len(), solved(bison.rules@, T, __q as int) decreases raw_rules@.len() - __q", "let ghost u0 = bison.rules@; ",
      "proof { assert(bison.rules@ == u0.push(bison.rules@.last())); solve_step(u0, T, __q - 1, raw_rules@, bison.rules@.last()); } ")
    f.loop(7, "invariant __vi <= comp@.len(), symbolled(names(T, 0), __v@, comp@, __vi as int) decreases comp@.len() - __vi")
def hook(f, AT):
    f.before("continue;", "proof { if tokens@ != v0 { assert(tokens@ == v0.push(tokens@.last())); tvs_push(v0, tokens@.last()); } step(s, tvs(v0), i0, i as int, tvs(tokens@)); } ")
    f.before("value.push('\\'');", "proof { bytes_push(value@, '\\''); ulen_small('\\''); assert(s.subrange(i0, i0) =~= Seq::<char>::empty()); assert(s.subrange(i0, i as int).push(s[i as int]) =~= s.subrange(i0, i + 1)); } ")
    f.loop(0, "invariant chars@ == s, %s, spelled(s, i as int), tvs(tokens@) + toks(s, i as int) == toks(s, 0) decreases s.len() - i" % AT,
      "let ghost i0 = i as int; let ghost v0 = tokens@; let ghost b0 = byte_pos as int; let ghost k0 = col as int; let ghost e = piece_end(s, i0); proof { one(s[i0]); assert(spelled(s, i0)); word_up(s, i0); if i0 + 1 <= s.len() { word_up(s, i0 + 1); } } ")
    f.loop(1, "invariant %s, action_end(s, i as int, depth as int) == e, i0 <= i, 0 <= depth <= i - i0, depth > 0 || i == i0" % AT, "proof { assert(in_(s, i as int)); } ")
    f.loop(2, "invariant %s, line_end(s, i as int) == e, i0 <= i" % AT)
    f.loop(3, "invariant %s, comment_end(s, i as int) == e, i0 <= i" % AT)
    f.loop(4, "invariant %s, quote_end(s, i as int) == e, i0 < i, value@ == s.subrange(i0, i as int), col == k0 + value@.len(), byte_pos == b0 + bytes(value@)" % AT, "proof { bytes_push(value@, s[i as int]); assert(s.subrange(i0, i as int).push(s[i as int]) =~= s.subrange(i0, i + 1)); } ")
    f.loop(5, "invariant %s, word_end(s, i as int) == e, i0 < i, value@ == s.subrange(i0 + 1, i as int), col == k0 + 1 + value@.len(), byte_pos == b0 + ulen('%%') + bytes(value@)" % AT, "proof { word_up(s, i as int); bytes_push(value@, s[i as int]); assert(s.subrange(i0 + 1, i as int).push(s[i as int]) =~= s.subrange(i0 + 1, i + 1)); } ")
    f.loop(6, "invariant %s, word_end(s, i as int) == e, i0 <= i, value@ == s.subrange(i0, i as int), col == k0 + value@.len(), byte_pos == b0 + bytes(value@)" % AT, "proof { word_up(s, i as int); bytes_push(value@, s[i as int]); assert(s.subrange(i0, i as int).push(s[i as int]) =~= s.subrange(i0, i + 1)); } ")
