"""The scanner's automata against the patterns of scan.l: a verified checker, run on the real tables and patterns, establishes that find_longest_match's longest match is the longest prefix any pattern of the lexer state matches, and its rule the first such rule."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, _lex, dfa
SCANL = "crates/lexer-generator/resources/scan.l"
SPEC = r"""
pub enum Re { No, Eps, Set(usize), Cat(Box<Re>, Box<Re>), Or(Box<Re>, Box<Re>), Star(Box<Re>) }
pub open spec fn inset(t: Seq<Vec<bool>>, k: int, c: u8) -> bool { 0 <= k < t.len() && (c as int) < t[k]@.len() && t[k]@[c as int] }
// the text s belongs to the language of r
pub open spec fn m(t: Seq<Vec<bool>>, r: Re, s: Seq<u8>) -> bool decreases r, s.len()
{ match r { Re::No => false, Re::Eps => s.len() == 0, Re::Set(k) => s.len() == 1 && inset(t, k as int, s[0]),
    Re::Cat(a, b) => exists|i: int| 0 <= i <= s.len() && m(t, *a, #[trigger] s.take(i)) && m(t, *b, s.skip(i)),
    Re::Or(a, b) => m(t, *a, s) || m(t, *b, s),
    Re::Star(a) => s.len() == 0 || exists|i: int| 0 < i <= s.len() && m(t, *a, #[trigger] s.take(i)) && m(t, r, s.skip(i)) } }
pub open spec fn pre(c: u8, s: Seq<u8>) -> Seq<u8> { seq![c] + s }
pub open spec fn same(t: Seq<Vec<bool>>, a: Re, b: Re) -> bool { forall|s: Seq<u8>| #[trigger] m(t, a, s) == m(t, b, s) }
// q is what r leaves after the byte c
pub open spec fn left(t: Seq<Vec<bool>>, q: Re, r: Re, c: u8) -> bool { forall|s: Seq<u8>| #[trigger] m(t, q, s) == m(t, r, pre(c, s)) }
pub proof fn cat_split(t: Seq<Vec<bool>>, a: Re, b: Re, s: Seq<u8>, i: int) requires 0 <= i <= s.len(), m(t, a, s.take(i)), m(t, b, s.skip(i)) ensures m(t, Re::Cat(Box::new(a), Box::new(b)), s) { }
pub proof fn cat_cong(t: Seq<Vec<bool>>, a: Re, b: Re, a2: Re, b2: Re) requires same(t, a, a2), same(t, b, b2) ensures same(t, Re::Cat(Box::new(a), Box::new(b)), Re::Cat(Box::new(a2), Box::new(b2)))
{ assert forall|s: Seq<u8>| #[trigger] m(t, Re::Cat(Box::new(a), Box::new(b)), s) == m(t, Re::Cat(Box::new(a2), Box::new(b2)), s) by {
    if m(t, Re::Cat(Box::new(a), Box::new(b)), s) { let i = choose|i: int| 0 <= i <= s.len() && m(t, a, #[trigger] s.take(i)) && m(t, b, s.skip(i)); cat_split(t, a2, b2, s, i); }
    if m(t, Re::Cat(Box::new(a2), Box::new(b2)), s) { let i = choose|i: int| 0 <= i <= s.len() && m(t, a2, #[trigger] s.take(i)) && m(t, b2, s.skip(i)); cat_split(t, a, b, s, i); } } }
pub proof fn cat_no(t: Seq<Vec<bool>>, b: Re) ensures same(t, Re::Cat(Box::new(Re::No), Box::new(b)), Re::No), same(t, Re::Cat(Box::new(b), Box::new(Re::No)), Re::No)
{ let x = Re::Cat(Box::new(Re::No), Box::new(b)); let y = Re::Cat(Box::new(b), Box::new(Re::No));
  assert forall|s: Seq<u8>| #[trigger] m(t, x, s) == m(t, Re::No, s) by { if m(t, x, s) { let i = choose|i: int| 0 <= i <= s.len() && m(t, Re::No, #[trigger] s.take(i)) && m(t, b, s.skip(i)); assert(!m(t, Re::No, s.take(i))); } }
  assert forall|s: Seq<u8>| #[trigger] m(t, y, s) == m(t, Re::No, s) by { if m(t, y, s) { let i = choose|i: int| 0 <= i <= s.len() && m(t, b, #[trigger] s.take(i)) && m(t, Re::No, s.skip(i)); assert(!m(t, Re::No, s.skip(i))); } } }
pub proof fn cat_eps(t: Seq<Vec<bool>>, b: Re) ensures same(t, Re::Cat(Box::new(Re::Eps), Box::new(b)), b)
{ assert forall|s: Seq<u8>| #[trigger] m(t, Re::Cat(Box::new(Re::Eps), Box::new(b)), s) == m(t, b, s) by {
    assert(s.skip(0) =~= s);
    if m(t, b, s) { assert(s.take(0).len() == 0); cat_split(t, Re::Eps, b, s, 0); }
    if m(t, Re::Cat(Box::new(Re::Eps), Box::new(b)), s) { let i = choose|i: int| 0 <= i <= s.len() && m(t, Re::Eps, #[trigger] s.take(i)) && m(t, b, s.skip(i)); assert(i == 0); } } }
// the derivative of a concatenation
pub proof fn cat_left(t: Seq<Vec<bool>>, a: Re, b: Re, da: Re, db: Re, c: u8, na: bool) requires left(t, da, a, c), na ==> left(t, db, b, c), na == m(t, a, Seq::empty())
  ensures left(t, if na { Re::Or(Box::new(Re::Cat(Box::new(da), Box::new(b))), Box::new(db)) } else { Re::Cat(Box::new(da), Box::new(b)) }, Re::Cat(Box::new(a), Box::new(b)), c)
{ let x = Re::Cat(Box::new(da), Box::new(b)); let y = Re::Cat(Box::new(a), Box::new(b)); let q = if na { Re::Or(Box::new(x), Box::new(db)) } else { x };
  assert forall|s: Seq<u8>| #[trigger] m(t, q, s) == m(t, y, pre(c, s)) by { cat_left1(t, a, b, da, db, c, na, s); if m(t, y, pre(c, s)) { cat_left2(t, a, b, da, db, c, na, s); } if na { assert(m(t, q, s) == (m(t, x, s) || m(t, db, s))); } } }
pub proof fn cat_left1(t: Seq<Vec<bool>>, a: Re, b: Re, da: Re, db: Re, c: u8, na: bool, s: Seq<u8>) requires left(t, da, a, c), na ==> left(t, db, b, c), na == m(t, a, Seq::empty())
  ensures m(t, Re::Cat(Box::new(da), Box::new(b)), s) || (na && m(t, db, s)) ==> m(t, Re::Cat(Box::new(a), Box::new(b)), pre(c, s))
{ let x = Re::Cat(Box::new(da), Box::new(b)); let z = pre(c, s); assert(z.take(0) =~= Seq::<u8>::empty()); assert(z.skip(0) =~= z);
  if m(t, x, s) { let i = choose|i: int| 0 <= i <= s.len() && m(t, da, #[trigger] s.take(i)) && m(t, b, s.skip(i)); assert(z.take(i + 1) =~= pre(c, s.take(i))); assert(z.skip(i + 1) =~= s.skip(i)); assert(m(t, da, s.take(i)) == m(t, a, pre(c, s.take(i)))); cat_split(t, a, b, z, i + 1); }
  if na && m(t, db, s) { assert(m(t, db, s) == m(t, b, pre(c, s))); cat_split(t, a, b, z, 0); } }
pub proof fn cat_left2(t: Seq<Vec<bool>>, a: Re, b: Re, da: Re, db: Re, c: u8, na: bool, s: Seq<u8>) requires left(t, da, a, c), na ==> left(t, db, b, c), na == m(t, a, Seq::empty()), m(t, Re::Cat(Box::new(a), Box::new(b)), pre(c, s))
  ensures m(t, Re::Cat(Box::new(da), Box::new(b)), s) || (na && m(t, db, s))
{ let y = Re::Cat(Box::new(a), Box::new(b)); let z = pre(c, s); assert(z.take(0) =~= Seq::<u8>::empty()); assert(z.skip(0) =~= z);
  let i = choose|i: int| 0 <= i <= z.len() && m(t, a, #[trigger] z.take(i)) && m(t, b, z.skip(i));
  if i == 0 { assert(na); assert(m(t, db, s) == m(t, b, pre(c, s))); } else { assert(z.take(i) =~= pre(c, s.take(i - 1))); assert(z.skip(i) =~= s.skip(i - 1)); assert(m(t, da, s.take(i - 1)) == m(t, a, pre(c, s.take(i - 1)))); cat_split(t, da, b, s, i - 1); } }
pub proof fn or_def(t: Seq<Vec<bool>>) ensures forall|a: Re, b: Re, s: Seq<u8>| #[trigger] m(t, Re::Or(Box::new(a), Box::new(b)), s) == (m(t, a, s) || m(t, b, s)), forall|s: Seq<u8>| !#[trigger] m(t, Re::No, s) { }
pub proof fn star_split(t: Seq<Vec<bool>>, a: Re, s: Seq<u8>, i: int) requires 0 < i <= s.len(), m(t, a, s.take(i)), m(t, Re::Star(Box::new(a)), s.skip(i)) ensures m(t, Re::Star(Box::new(a)), s) { }
pub proof fn star_left(t: Seq<Vec<bool>>, a: Re, da: Re, c: u8) requires left(t, da, a, c) ensures left(t, Re::Cat(Box::new(da), Box::new(Re::Star(Box::new(a)))), Re::Star(Box::new(a)), c)
{ let y = Re::Star(Box::new(a)); let x = Re::Cat(Box::new(da), Box::new(y));
  assert forall|s: Seq<u8>| #[trigger] m(t, x, s) == m(t, y, pre(c, s)) by {
    let z = pre(c, s);
    if m(t, y, z) { let i = choose|i: int| 0 < i <= z.len() && m(t, a, #[trigger] z.take(i)) && m(t, y, z.skip(i)); assert(z.take(i) =~= pre(c, s.take(i - 1))); assert(z.skip(i) =~= s.skip(i - 1)); cat_split(t, da, y, s, i - 1); }
    if m(t, x, s) { let i = choose|i: int| 0 <= i <= s.len() && m(t, da, #[trigger] s.take(i)) && m(t, y, s.skip(i)); assert(z.take(i + 1) =~= pre(c, s.take(i))); assert(z.skip(i + 1) =~= s.skip(i)); star_split(t, a, z, i + 1); } } }
pub proof fn left_same(t: Seq<Vec<bool>>, q: Re, q2: Re, r: Re, c: u8) requires same(t, q2, q), left(t, q, r, c) ensures left(t, q2, r, c) { assert forall|s: Seq<u8>| #[trigger] m(t, q2, s) == m(t, r, pre(c, s)) by { assert(m(t, q, s) == m(t, r, pre(c, s))); } }
pub proof fn or_left(t: Seq<Vec<bool>>, p: Re, q: Re, x: Re, y: Re, c: u8) requires left(t, x, p, c), left(t, y, q, c) ensures left(t, Re::Or(Box::new(x), Box::new(y)), Re::Or(Box::new(p), Box::new(q)), c)
{ or_def(t); let a = Re::Or(Box::new(x), Box::new(y)); let b = Re::Or(Box::new(p), Box::new(q)); assert forall|s: Seq<u8>| #[trigger] m(t, a, s) == m(t, b, pre(c, s)) by { assert(m(t, x, s) == m(t, p, pre(c, s))); assert(m(t, y, s) == m(t, q, pre(c, s))); } }
pub proof fn or_same(t: Seq<Vec<bool>>, x: Re, x2: Re, y: Re) requires same(t, x, x2) ensures same(t, Re::Or(Box::new(x), Box::new(y)), Re::Or(Box::new(x2), Box::new(y)))
{ or_def(t); assert forall|s: Seq<u8>| #[trigger] m(t, Re::Or(Box::new(x), Box::new(y)), s) == m(t, Re::Or(Box::new(x2), Box::new(y)), s) by { assert(m(t, x, s) == m(t, x2, s)); } }
// ---- code: expressions
fn eq(a: &Re, b: &Re) -> (r: bool) ensures r ==> *a == *b decreases *a
{ match (a, b) { (Re::No, Re::No) => true, (Re::Eps, Re::Eps) => true, (Re::Set(x), Re::Set(y)) => *x == *y, (Re::Cat(p, q), Re::Cat(x, y)) => eq(p, x) && eq(q, y), (Re::Or(p, q), Re::Or(x, y)) => eq(p, x) && eq(q, y), (Re::Star(p), Re::Star(x)) => eq(p, x), _ => false } }
fn rank(a: &Re) -> (r: u8) { match a { Re::No => 0, Re::Eps => 1, Re::Set(_) => 2, Re::Cat(_, _) => 3, Re::Or(_, _) => 4, Re::Star(_) => 5 } }
// an order (only the finiteness of the search depends on it)
fn less(a: &Re, b: &Re) -> (r: bool) decreases *a
{ let x = rank(a); let y = rank(b); if x != y { return x < y; }
  match (a, b) { (Re::Set(p), Re::Set(q)) => *p < *q, (Re::Cat(p, q), Re::Cat(v, w)) => if eq(p, v) { less(q, w) } else { less(p, v) }, (Re::Or(p, q), Re::Or(v, w)) => if eq(p, v) { less(q, w) } else { less(p, v) }, (Re::Star(p), Re::Star(v)) => less(p, v), _ => false } }
fn copy(a: &Re) -> (r: Re) ensures r == *a decreases *a
{ match a { Re::No => Re::No, Re::Eps => Re::Eps, Re::Set(k) => Re::Set(*k), Re::Cat(p, q) => Re::Cat(Box::new(copy(p)), Box::new(copy(q))), Re::Or(p, q) => Re::Or(Box::new(copy(p)), Box::new(copy(q))), Re::Star(p) => Re::Star(Box::new(copy(p))) } }
fn cat(t: Ghost<Seq<Vec<bool>>>, a: Re, b: Re) -> (r: Re) ensures same(t@, r, Re::Cat(Box::new(a), Box::new(b)))
{ proof { cat_no(t@, b); cat_no(t@, a); cat_eps(t@, b); }
  if eq(&a, &Re::No) || eq(&b, &Re::No) { return Re::No; } if eq(&a, &Re::Eps) { return b; } Re::Cat(Box::new(a), Box::new(b)) }
// one expression into a sorted list of alternatives
fn put(t: Ghost<Seq<Vec<bool>>>, a: Re, b: Re) -> (r: Re) ensures same(t@, r, Re::Or(Box::new(a), Box::new(b))) decreases b
{ proof { or_def(t@); } if eq(&a, &Re::No) { return b; }
  match b { Re::No => a,
    Re::Or(p, q) => { if eq(&a, &p) { Re::Or(p, q) } else if less(&a, &p) { Re::Or(Box::new(a), Box::new(Re::Or(p, q))) } else { let x = *q; let ghost h = x; let y = put(t, a, x); proof { assert(same(t@, y, Re::Or(Box::new(a), Box::new(h)))); } Re::Or(p, Box::new(y)) } }
    b => { if eq(&a, &b) { b } else if less(&a, &b) { Re::Or(Box::new(a), Box::new(b)) } else { Re::Or(Box::new(b), Box::new(a)) } } } }
fn or(t: Ghost<Seq<Vec<bool>>>, a: Re, b: Re) -> (r: Re) ensures same(t@, r, Re::Or(Box::new(a), Box::new(b))) decreases a
{ proof { or_def(t@); } match a { Re::Or(p, q) => { let ghost gp = *p; let ghost gq = *q; let x = or(t, *q, b); let ghost h = x; let y = put(t, *p, x); proof { assert(same(t@, h, Re::Or(Box::new(gq), Box::new(b)))); assert(same(t@, y, Re::Or(Box::new(gp), Box::new(h)))); } y }
    a => put(t, a, b) } }
fn empty(t: Ghost<Seq<Vec<bool>>>, a: &Re) -> (r: bool) ensures r == m(t@, *a, Seq::empty()) decreases *a
{ let e: Ghost<Seq<u8>> = Ghost(Seq::empty()); proof { assert(e@.take(0) =~= e@); assert(e@.skip(0) =~= e@); }
  match a { Re::No => false, Re::Eps => true, Re::Set(_) => false, Re::Cat(p, q) => { let x = empty(t, p) && empty(t, q); proof { if x { cat_split(t@, **p, **q, e@, 0); } else if m(t@, *a, e@) { let i = choose|i: int| 0 <= i <= e@.len() && m(t@, **p, #[trigger] e@.take(i)) && m(t@, **q, e@.skip(i)); assert(i == 0); } } x }
    Re::Or(p, q) => empty(t, p) || empty(t, q), Re::Star(_) => true } }
pub fn der(t: &Vec<Vec<bool>>, a: &Re, c: u8) -> (r: Re) ensures left(t@, r, *a, c) decreases *a
{ let g: Ghost<Seq<Vec<bool>>> = Ghost(t@); proof { or_def(t@); }
  match a { Re::No => Re::No,
    Re::Eps => Re::No,
    Re::Set(k) => { let h = *k < t.len() && (c as usize) < t[*k].len() && t[*k][c as usize];
      let r = if h { Re::Eps } else { Re::No }; proof { assert forall|s: Seq<u8>| #[trigger] m(t@, r, s) == m(t@, *a, pre(c, s)) by { assert(pre(c, s)[0] == c); } } r }
    Re::Cat(p, q) => { let da = der(t, p, c); let ghost ga = da; let x = cat(g, da, copy(q)); let ghost gx = x; proof { assert(same(t@, gx, Re::Cat(Box::new(ga), Box::new(**q)))); }
      if empty(g, p) { let db = der(t, q, c); let ghost gb = db; let y = or(g, x, db);
        proof { cat_left(t@, **p, **q, ga, gb, c, true); let cc = Re::Cat(Box::new(ga), Box::new(**q)); or_same(t@, gx, cc, gb); let z = Re::Or(Box::new(cc), Box::new(gb)); assert(same(t@, y, z)); left_same(t@, z, y, *a, c); } y }
      else { proof { cat_left(t@, **p, **q, ga, ga, c, false); left_same(t@, Re::Cat(Box::new(ga), Box::new(**q)), x, *a, c); } x } }
    Re::Or(p, q) => { let x = der(t, p, c); let y = der(t, q, c); let ghost gx = x; let ghost gy = y; let z = or(g, x, y); proof { or_left(t@, **p, **q, gx, gy, c); left_same(t@, Re::Or(Box::new(gx), Box::new(gy)), z, *a, c); } z }
    Re::Star(p) => { let da = der(t, p, c); let ghost ga = da; let x = cat(g, da, copy(a)); proof { star_left(t@, **p, ga, c); assert(*a == Re::Star(Box::new(**p))); left_same(t@, Re::Cat(Box::new(ga), Box::new(*a)), x, *a, c); } x } } }
"""

CHECK = r"""
pub struct Tab { pub tr: Vec<Vec<u8>>, pub ac: Vec<u8> }
pub open spec fn view(t: Tab) -> Dfa { Dfa { tr: Seq::new(t.tr@.len(), |q: int| t.tr@[q]@), ac: t.ac@ } }
// an automaton state together with what is left of every rule's pattern
pub struct Pair { pub q: u8, pub v: Vec<Re> }
pub struct Rules { pub cls: Vec<Vec<bool>>, pub re: Vec<Re>, pub id: Vec<u8>, pub eof: u8 }
pub open spec fn hit(r: Rules, k: int, s: Seq<u8>, n: int) -> bool { m(r.cls@, r.re@[k], s.take(n)) }
// the first n bytes of s are the longest prefix any rule matches, and id names the first rule that matches it
pub open spec fn lexeme(r: Rules, s: Seq<u8>, n: int, id: int) -> bool { 1 <= n <= s.len() && (exists|k: int| 0 <= k < r.re@.len() && #[trigger] hit(r, k, s, n) && r.id@[k] == id && forall|j: int| 0 <= j < k ==> !#[trigger] hit(r, j, s, n))
   && forall|x: int, j: int| n < x <= s.len() && 0 <= j < r.re@.len() ==> !#[trigger] hit(r, j, s, x) }
pub open spec fn nothing(r: Rules, s: Seq<u8>) -> bool { forall|x: int, j: int| 1 <= x <= s.len() && 0 <= j < r.re@.len() ==> !#[trigger] hit(r, j, s, x) }
pub open spec fn follows(d: Dfa, r: Rules) -> bool { longest(d, seq![]) == (0int, r.eof as int) && forall|s: Seq<u8>| no_nul(s) && s.len() > 0 ==> { let w = #[trigger] longest(d, s); if w.0 >= 1 { lexeme(r, s, w.0, w.1) } else { nothing(r, s) } } }
// a pair stands for a text u: its residuals accept w exactly if the rules accept u followed by w
pub open spec fn stands(r: Rules, p: Pair, u: Seq<u8>) -> bool { forall|k: int, w: Seq<u8>| 0 <= k < r.re@.len() ==> #[trigger] m(r.cls@, p.v@[k], w) == m(r.cls@, r.re@[k], u + w) }
pub open spec fn moves(t: Tab, r: Rules, ps: Seq<Pair>, p: int, c: int) -> bool { let x = t.tr@[ps[p].q as int]@[c];
   if x == 255 { forall|k: int| 0 <= k < r.re@.len() ==> #[trigger] left(r.cls@, Re::No, ps[p].v@[k], c as u8) }
   else { x != 0 && exists|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).q == x && forall|k: int| 0 <= k < r.re@.len() ==> #[trigger] left(r.cls@, ps[j].v@[k], ps[p].v@[k], c as u8) } }
pub open spec fn accs(t: Tab, r: Rules, p: Pair) -> bool { let a = t.ac@[p.q as int]; let e = Seq::<u8>::empty();
   if a == 255 { forall|k: int| 0 <= k < r.re@.len() ==> !#[trigger] m(r.cls@, p.v@[k], e) }
   else { exists|k: int| 0 <= k < r.re@.len() && #[trigger] m(r.cls@, p.v@[k], e) && r.id@[k] == a && forall|j: int| 0 <= j < k ==> !#[trigger] m(r.cls@, p.v@[j], e) } }
pub open spec fn pshape(t: Tab, r: Rules, p: Pair) -> bool { (p.q as int) < t.ac@.len() && p.v@.len() == r.re@.len() }
pub open spec fn eof_same(t: Tab, q: int) -> bool { q != 0 && t.tr@[q]@[0] != 255 && t.ac@[t.tr@[q]@[0] as int] != 255 ==> t.ac@[t.tr@[q]@[0] as int] == t.ac@[q] }
pub open spec fn all_ok(t: Tab, r: Rules, ps: Seq<Pair>) -> bool { dshape(view(t)) && r.id@.len() == r.re@.len() && ps.len() > 0 && (forall|p: int| 0 <= p < ps.len() ==> pshape(t, r, #[trigger] ps[p]))
   && ps[0].q == 0 && ps[0].v@ == r.re@ && (forall|p: int, c: int| 0 <= p < ps.len() && 0 < c < 256 ==> #[trigger] moves(t, r, ps, p, c)) && (forall|p: int| 0 <= p < ps.len() && (#[trigger] ps[p]).q != 0 ==> accs(t, r, ps[p]))
   && (forall|p: int| 0 <= p < ps.len() && (#[trigger] ps[p]).q != 0 ==> eof_same(t, ps[p].q as int)) && t.tr@[0]@[0] != 255 && t.ac@[t.tr@[0]@[0] as int] == r.eof && r.eof != 255 }
pub proof fn run_range(d: Dfa, s: Seq<u8>, i: int) requires dshape(d), 0 <= i <= s.len() ensures run(d, s, i) == 255 || 0 <= run(d, s, i) < d.ac.len() decreases i { if i > 0 { run_range(d, s, i - 1); } }
pub open spec fn tracked(t: Tab, r: Rules, ps: Seq<Pair>, s: Seq<u8>, i: int) -> bool { let q = run(view(t), s, i);
   if q == 255 { forall|x: int, k: int| i <= x <= s.len() && 0 <= k < r.re@.len() ==> !#[trigger] hit(r, k, s, x) } else { exists|p: int| 0 <= p < ps.len() && (#[trigger] ps[p]).q == q && stands(r, ps[p], s.take(i)) && (i > 0 ==> q != 0) } }
pub proof fn track(t: Tab, r: Rules, ps: Seq<Pair>, s: Seq<u8>, i: int) requires all_ok(t, r, ps), no_nul(s), 0 <= i <= s.len() ensures tracked(t, r, ps, s, i) decreases i
{ let d = view(t);
  if i == 0 { assert(s.take(0) =~= Seq::<u8>::empty()); assert forall|k: int, w: Seq<u8>| 0 <= k < r.re@.len() implies #[trigger] m(r.cls@, ps[0].v@[k], w) == m(r.cls@, r.re@[k], s.take(0) + w) by { assert(s.take(0) + w =~= w); } assert(stands(r, ps[0], s.take(0))); assert(run(d, s, 0) == 0); }
  else { track(t, r, ps, s, i - 1); let q = run(d, s, i - 1); run_range(d, s, i - 1); let c = s[i - 1]; let u = s.take(i - 1); let u2 = s.take(i); assert(u2 =~= u + seq![c]);
    if q != 255 {
      let p = choose|p: int| 0 <= p < ps.len() && (#[trigger] ps[p]).q == q && stands(r, ps[p], u) && (i - 1 > 0 ==> q != 0); assert(moves(t, r, ps, p, c as int)); assert(d.tr[q] == t.tr@[q]@); let x = t.tr@[q]@[c as int]; assert(run(d, s, i) == x); assert((c as int) as u8 == c);
      if x == 255 {
        assert forall|n: int, k: int| i <= n <= s.len() && 0 <= k < r.re@.len() implies !#[trigger] hit(r, k, s, n) by { assert(left(r.cls@, Re::No, ps[p].v@[k], c)); let w = s.subrange(i, n); assert(u + pre(c, w) =~= s.take(n)); assert(m(r.cls@, ps[p].v@[k], pre(c, w)) == m(r.cls@, Re::No, w)); } }
      else {
        let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).q == x && forall|k: int| 0 <= k < r.re@.len() ==> #[trigger] left(r.cls@, ps[j].v@[k], ps[p].v@[k], c);
        assert forall|k: int, w: Seq<u8>| 0 <= k < r.re@.len() implies #[trigger] m(r.cls@, ps[j].v@[k], w) == m(r.cls@, r.re@[k], u2 + w) by { assert(left(r.cls@, ps[j].v@[k], ps[p].v@[k], c)); assert(u + pre(c, w) =~= u2 + w); assert(m(r.cls@, ps[p].v@[k], pre(c, w)) == m(r.cls@, r.re@[k], u + pre(c, w))); }
        assert(stands(r, ps[j], u2)); } }
    else { assert(run(d, s, i) == 255); assert forall|n: int, k: int| i <= n <= s.len() && 0 <= k < r.re@.len() implies !#[trigger] hit(r, k, s, n) by { } } } }
// what the automaton says after i bytes is what the rules say
pub proof fn here(t: Tab, r: Rules, ps: Seq<Pair>, s: Seq<u8>, i: int) requires all_ok(t, r, ps), no_nul(s), 1 <= i <= s.len()
  ensures ({ let q = run(view(t), s, i); if accepts(view(t), q) { exists|k: int| 0 <= k < r.re@.len() && #[trigger] hit(r, k, s, i) && r.id@[k] == view(t).ac[q] && forall|j: int| 0 <= j < k ==> !#[trigger] hit(r, j, s, i) } else { forall|k: int| 0 <= k < r.re@.len() ==> !#[trigger] hit(r, k, s, i) } })
{ track(t, r, ps, s, i); let q = run(view(t), s, i); let e = Seq::<u8>::empty(); let u = s.take(i);
  if q != 255 { let p = choose|p: int| 0 <= p < ps.len() && (#[trigger] ps[p]).q == q && stands(r, ps[p], u) && (i > 0 ==> q != 0); assert(u + e =~= u); assert(accs(t, r, ps[p]));
    assert forall|k: int| 0 <= k < r.re@.len() implies #[trigger] hit(r, k, s, i) == m(r.cls@, ps[p].v@[k], e) by { }
    if accepts(view(t), q) { let k = choose|k: int| 0 <= k < r.re@.len() && #[trigger] m(r.cls@, ps[p].v@[k], e) && r.id@[k] == t.ac@[q] && forall|j: int| 0 <= j < k ==> !#[trigger] m(r.cls@, ps[p].v@[j], e); assert(hit(r, k, s, i)); assert forall|j: int| 0 <= j < k implies !#[trigger] hit(r, j, s, i) by { assert(!m(r.cls@, ps[p].v@[j], e)); } }
    else { assert forall|k: int| 0 <= k < r.re@.len() implies !#[trigger] hit(r, k, s, i) by { assert(!m(r.cls@, ps[p].v@[k], e)); } } }
  else { assert forall|k: int| 0 <= k < r.re@.len() implies !#[trigger] hit(r, k, s, i) by { } } }
pub proof fn best_is(d: Dfa, s: Seq<u8>, i: int) requires dshape(d), 0 <= i <= s.len()
  ensures ({ let m = best(d, s, i); 0 <= m.0 <= i && (m.0 > 0 ==> accepts(d, run(d, s, m.0)) && m.1 == d.ac[run(d, s, m.0)]) && forall|j: int| m.0 < j <= i ==> !accepts(d, #[trigger] run(d, s, j)) }) decreases i
{ if i > 0 { best_is(d, s, i - 1); } }
pub proof fn best_lexeme(t: Tab, r: Rules, ps: Seq<Pair>, s: Seq<u8>) requires all_ok(t, r, ps), no_nul(s), s.len() > 0 ensures ({ let w = longest(view(t), s); if w.0 >= 1 { lexeme(r, s, w.0, w.1) } else { nothing(r, s) } })
{ let d = view(t); let b = best(d, s, s.len() as int); best_is(d, s, s.len() as int);
  assert forall|x: int, j: int| b.0 < x <= s.len() && 0 <= j < r.re@.len() implies !#[trigger] hit(r, j, s, x) by { here(t, r, ps, s, x); assert(!accepts(d, run(d, s, x))); }
  if b.0 >= 1 { here(t, r, ps, s, b.0); assert(lexeme(r, s, b.0, b.1)); }
  let z = run(d, s, s.len() as int); run_range(d, s, s.len() as int);
  if z != 255 && accepts(d, d.tr[z][0] as int) { assert(d.tr[z] == t.tr@[z]@); track(t, r, ps, s, s.len() as int);
    let p = choose|p: int| 0 <= p < ps.len() && (#[trigger] ps[p]).q == z && stands(r, ps[p], s.take(s.len() as int)) && (s.len() > 0 ==> z != 0); assert(eof_same(t, z)); assert(accepts(d, z)); assert(b.0 == s.len()); assert(b.1 == d.ac[d.tr[z][0] as int]); } }
pub proof fn all_follow(t: Tab, r: Rules, ps: Seq<Pair>) requires all_ok(t, r, ps) ensures follows(view(t), r)
{ let d = view(t); assert forall|s: Seq<u8>| no_nul(s) && s.len() > 0 implies { let w = #[trigger] longest(d, s); if w.0 >= 1 { lexeme(r, s, w.0, w.1) } else { nothing(r, s) } } by { best_lexeme(t, r, ps, s); }
  assert(d.tr[0] == t.tr@[0]@); let e = Seq::<u8>::empty(); assert(run(d, e, 0) == 0); assert(accepts(d, d.tr[0][0] as int)); assert(seq![] =~= e); }
// ---- code: the checker
fn x_shape(t: &Tab) -> (b: bool) ensures b ==> dshape(view(*t))
{ let n = t.ac.len(); if n == 0 || n >= 256 || t.tr.len() != n { return false; }
  let mut q: usize = 0;
  while q < n invariant q <= n, n == t.ac@.len(), t.tr@.len() == n, n < 256, forall|p: int| 0 <= p < q ==> (#[trigger] t.tr@[p])@.len() == 256, forall|p: int, c: int| 0 <= p < q && 0 <= c < 256 ==> (#[trigger] t.tr@[p]@[c]) == 255 || t.tr@[p]@[c] < n decreases n - q
  { let row = &t.tr[q]; if row.len() != 256 { return false; }
    let mut c: usize = 0; while c < 256 invariant c <= 256, row@.len() == 256, n < 256, forall|j: int| 0 <= j < c ==> (#[trigger] row@[j]) == 255 || row@[j] < n decreases 256 - c { if row[c] != 255 && row[c] as usize >= n { return false; } c += 1; }
    q += 1; }
  proof { let d = view(*t); assert forall|p: int| 0 <= p < d.tr.len() implies (#[trigger] d.tr[p]).len() == 256 by { assert(d.tr[p] == t.tr@[p]@); }
    assert forall|p: int, c: int| 0 <= p < d.tr.len() && 0 <= c < 256 implies (#[trigger] d.tr[p][c]) == 255 || d.tr[p][c] < d.ac.len() by { assert(d.tr[p] == t.tr@[p]@); assert(t.tr@[p]@[c] == d.tr[p][c]); } }
  true }
fn x_moves(t: &Tab, r: &Rules, ps: &Vec<Pair>, p: usize, c: usize, j: usize) -> (b: bool) requires dshape(view(*t)), p < ps@.len(), pshape(*t, *r, ps@[p as int]), 0 < c < 256 ensures b ==> moves(*t, *r, ps@, p as int, c as int)
{ let q = ps[p].q as usize; proof { assert(view(*t).tr[q as int] == t.tr@[q as int]@); assert(t.tr@.len() == t.ac@.len()); }
  let x = t.tr[q][c]; let n = r.re.len(); let b = c as u8; let mut k: usize = 0;
  if x == 255 {
    while k < n invariant k <= n, n == r.re@.len(), p < ps@.len(), ps@[p as int].v@.len() == n, b == c, c < 256, forall|i: int| 0 <= i < k ==> #[trigger] left(r.cls@, Re::No, ps@[p as int].v@[i], b) decreases n - k
    { let z = der(&r.cls, &ps[p].v[k], b); if !eq(&z, &Re::No) { return false; } k += 1; }
    return true; }
  if x == 0 || j >= ps.len() || ps[j].q != x || ps[j].v.len() != n { return false; }
  while k < n invariant k <= n, n == r.re@.len(), p < ps@.len(), j < ps@.len(), ps@[p as int].v@.len() == n, ps@[j as int].v@.len() == n, b == c, c < 256, forall|i: int| 0 <= i < k ==> #[trigger] left(r.cls@, ps@[j as int].v@[i], ps@[p as int].v@[i], b) decreases n - k
  { let z = der(&r.cls, &ps[p].v[k], b); if !eq(&z, &ps[j].v[k]) { return false; } k += 1; }
  true }
fn x_accs(t: &Tab, r: &Rules, p: &Pair) -> (b: bool) requires dshape(view(*t)), pshape(*t, *r, *p), r.id@.len() == r.re@.len() ensures b ==> accs(*t, *r, *p)
{ let a = t.ac[p.q as usize]; let n = r.re.len(); let g: Ghost<Seq<Vec<bool>>> = Ghost(r.cls@); let mut k: usize = 0;
  while k < n invariant k <= n, n == r.re@.len(), p.v@.len() == n, r.id@.len() == n, g@ == r.cls@, (p.q as int) < t.ac@.len(), a == t.ac@[p.q as int], forall|i: int| 0 <= i < k ==> !#[trigger] m(r.cls@, p.v@[i], Seq::empty()) decreases n - k
  { if empty(g, &p.v[k]) { return a != 255 && r.id[k] == a; } k += 1; }
  a == 255 }
// (0, ..): the automaton follows the rules; otherwise what fails: 1 shape, 2 transition (pair, byte), 3 accepted rule (pair), 4 end of the text
pub fn check(t: &Tab, r: &Rules, ps: &Vec<Pair>, next: &Vec<Vec<usize>>) -> (b: (u32, usize, usize)) ensures b.0 == 0 ==> follows(view(*t), *r)
{ if !x_shape(t) || r.id.len() != r.re.len() || ps.len() == 0 || next.len() != ps.len() { return (1, 0, 0); }
  let n = ps.len(); let m = r.re.len(); let mut p: usize = 0; proof { assert(view(*t).tr[0] == t.tr@[0]@); assert(t.tr@.len() == t.ac@.len()); }
  while p < n invariant p <= n, n == ps@.len(), m == r.re@.len(), forall|i: int| 0 <= i < p ==> pshape(*t, *r, #[trigger] ps@[i]) decreases n - p { if ps[p].q as usize >= t.ac.len() || ps[p].v.len() != m { return (1, p, 1); } p += 1; }
  if ps[0].q != 0 { return (1, 0, 2); }
  let mut k: usize = 0; while k < m invariant k <= m, m == r.re@.len(), ps@.len() > 0, ps@[0].v@.len() == m, forall|i: int| 0 <= i < k ==> (#[trigger] ps@[0].v@[i]) == r.re@[i] decreases m - k { if !eq(&ps[0].v[k], &r.re[k]) { return (1, k, 3); } k += 1; }
  assert(ps@[0].v@ =~= r.re@);
  let z = t.tr[0][0]; proof { assert(view(*t).tr[0][0] == z); } if r.eof == 255 || z == 255 || t.ac[z as usize] != r.eof { return (4, 0, 0); }
  p = 0;
  while p < n invariant p <= n, n == ps@.len(), next@.len() == n, dshape(view(*t)), r.id@.len() == r.re@.len(), forall|i: int| 0 <= i < ps@.len() ==> pshape(*t, *r, #[trigger] ps@[i]), forall|i: int, c: int| 0 <= i < p && 0 < c < 256 ==> #[trigger] moves(*t, *r, ps@, i, c), forall|i: int| 0 <= i < p && (#[trigger] ps@[i]).q != 0 ==> accs(*t, *r, ps@[i]), forall|i: int| 0 <= i < p && (#[trigger] ps@[i]).q != 0 ==> eof_same(*t, ps@[i].q as int) decreases n - p
  { let q = ps[p].q as usize; proof { assert(view(*t).tr[q as int] == t.tr@[q as int]@); assert(t.tr@.len() == t.ac@.len()); }
    if q != 0 { if !x_accs(t, r, &ps[p]) { return (3, p, 0); } let z = t.tr[q][0]; proof { assert(view(*t).tr[q as int][0] == z); } if z != 255 && t.ac[z as usize] != 255 && t.ac[z as usize] != t.ac[q] { return (4, p, 0); } }
    if next[p].len() < 256 { return (1, p, 4); }
    let mut c: usize = 1; while c < 256 invariant 1 <= c <= 256, p < n, n == ps@.len(), next@.len() == n, next@[p as int]@.len() >= 256, dshape(view(*t)), pshape(*t, *r, ps@[p as int]), forall|j: int| 0 < j < c ==> #[trigger] moves(*t, *r, ps@, p as int, j) decreases 256 - c { if !x_moves(t, r, ps, p, c, next[p][c]) { return (2, p, c); } c += 1; }
    p += 1; }
  proof { assert(all_ok(*t, *r, ps@)); all_follow(*t, *r, ps@); }
  (0, 0, 0) }
"""

class Pat:
    """flex's pattern language, as far as scan.l uses it; anything else is refused.  Produces prefix notation: N E Snn C(ab) O(ab) *(a)"""
    def __init__(s, text, defs, classes): s.t = text; s.i = 0; s.defs = defs; s.classes = classes
    def stop(s, why): raise vx.Lost("scan.l pattern %r: %s at %d" % (s.t, why, s.i))
    def peek(s): return s.t[s.i] if s.i < len(s.t) else ""
    def take(s):
        if s.i >= len(s.t): s.stop("ends")
        s.i += 1; return s.t[s.i - 1]
    def set(s, bytes_):
        k = tuple(sorted(bytes_))
        if not k: s.stop("empty class")
        if k not in s.classes: s.classes[k] = len(s.classes)
        return ["S%d" % s.classes[k]]
    def esc(s):
        c = s.take()
        if c in "ntfrv": return {"n": 10, "t": 9, "f": 12, "r": 13, "v": 11}[c]
        if c == "x":
            h = s.t[s.i:s.i + 2]
            if not re.fullmatch("[0-9A-Fa-f]{2}", h): s.stop("\\x")
            s.i += 2; return int(h, 16)
        if c.isalnum() or ord(c) > 126: s.stop("escape")
        return ord(c)
    def cls(s):
        neg = s.peek() == "^"
        if neg: s.take()
        out = set(); first = True
        while True:
            c = s.take()
            if c == "]" and not first: break
            if c == "[" and s.peek() in ":.=": s.stop("POSIX class")
            a = s.esc() if c == "\\" else ord(c); first = False
            if s.peek() == "-" and s.t[s.i + 1:s.i + 2] not in ("]", ""):
                s.take(); d = s.take(); b = s.esc() if d == "\\" else ord(d)
                if b < a: s.stop("range")
            else: b = a
            if b > 255: s.stop("character"); 
            out |= set(range(a, b + 1))
        return s.set(set(range(1, 256)) - out if neg else out)
    def atom(s):
        c = s.take()
        if c == "[": return s.cls()
        if c == ".": return s.set(set(range(1, 256)) - {10})
        if c == '"':
            out = None
            while (d := s.take()) != '"':
                x = s.set({s.esc() if d == "\\" else ord(d)}); out = x if out is None else ["C"] + out + x
            if out is None: s.stop("empty quotes")
            return out
        if c == "(":
            x = s.alt()
            if s.take() != ")": s.stop("group")
            return x
        if c == "{":
            m = re.compile(r"([A-Za-z_]\w*)\}").match(s.t, s.i)
            if not m or m.group(1) not in s.defs: s.stop("reference")
            s.i = m.end(); sub = Pat(s.defs[m.group(1)], s.defs, s.classes); return sub.whole()
        if c == "\\": return s.set({s.esc()})
        if c in "*+?|)]}/$^<>" and c not in "<>": s.stop("character")
        if c in "<>" or ord(c) > 126 or ord(c) < 33: s.stop("character")
        return s.set({ord(c)})
    def rep(s):
        x = s.atom()
        while s.peek() in ("*", "+", "?", "{") and s.peek():
            if s.peek() == "{" and not re.compile(r"\{\d").match(s.t, s.i): break
            c = s.take()
            if c == "*": x = ["*"] + x
            elif c == "+": x = ["C"] + x + ["*"] + x
            elif c == "?": x = ["O", "E"] + x
            else:
                m = re.compile(r"(\d+)(?:,(\d*))?\}").match(s.t, s.i)
                if not m: s.stop("count")
                s.i = m.end(); lo = int(m.group(1)); hi = lo if m.group(2) is None else (int(m.group(2)) if m.group(2) else None)
                if hi is not None and (hi < lo or hi == 0): s.stop("count")
                tail = ["*"] + x if hi is None else ["E"]
                for _ in range((hi or lo) - lo): tail = ["O", "E"] + ["C"] + x + tail
                for _ in range(lo): tail = ["C"] + x + tail
                x = tail
        return x
    def seq(s):
        out = None
        while s.peek() and s.peek() not in "|)":
            x = s.rep(); out = x if out is None else ["C"] + out + x
        if out is None: s.stop("empty alternative")
        return out
    def alt(s):
        x = s.seq()
        while s.peek() == "|": s.take(); x = ["O"] + x + s.seq()
        return x
    def whole(s):
        x = s.alt()
        if s.i != len(s.t): s.stop("rest")
        return x
def scanl(u):
    """(states, [(states, pattern)]) of scan.l"""
    try: ls = open(u.repo + "/" + SCANL).read().split("\n")
    except OSError: raise vx.Lost(SCANL)
    defs, states, i = {}, ["INITIAL"], 0; comment = False
    while not ls[i].startswith("%%"):
        l = ls[i]; i += 1
        if comment: comment = "*/" not in l; continue
        if l.startswith(("%{", "%top{")):
            end = "%}" if l.startswith("%{") else "}"
            while not ls[i].startswith(end): i += 1
            i += 1; continue
        if l.lstrip().startswith("/*"): comment = "*/" not in l; continue
        if not l.strip() or l.startswith("%option"): continue
        m = re.match(r"%x (\w+)\s*$", l)
        if m: states.append(m.group(1)); continue
        m = re.match(r"([A-Za-z_]\w*)[ \t]+(\S.*?)\s*$", l)
        if not m or m.group(1) in defs: raise vx.Lost("scan.l line %d: %r" % (i, l))
        defs[m.group(1)] = m.group(2)
    i += 1; rules = []; block = None; depth = 0; shared = set()
    while i < len(ls) and not ls[i].startswith("%%"):
        l = ls[i]; i += 1
        if not l.strip(): continue
        if block is not None and l.startswith("}"): block = None; continue
        st = block if block is not None else ["INITIAL"]
        m = re.match(r"<((?!<)[^<>]*)>", l)
        if m:
            if block is not None: raise vx.Lost("scan.l line %d: nested states" % i)
            st = m.group(1).split(","); l = l[m.end():]
            if l.strip() == "{": block = st; continue
        if any(x not in states for x in st): raise vx.Lost("scan.l line %d: state" % i)
        if l.startswith("<<EOF>>"): pat = "<<EOF>>"; rest = l[7:]
        else:
            m = re.match(r"\S+", l)
            if not m: raise vx.Lost("scan.l line %d: %r" % (i, l))
            pat = m.group(0); rest = l[m.end():]
        rules.append((st, pat))
        if rest.strip() == "|": shared.add(len(rules) - 1); continue
        if not rest.strip().startswith("{"): raise vx.Lost("scan.l line %d: action" % i)
        # the action ends where the braces balance (as the generator counts them)
        depth = rest.count("{") - rest.count("}")
        while depth != 0:
            if i >= len(ls): raise vx.Lost("scan.l: action without end")
            depth += ls[i].count("{") - ls[i].count("}"); i += 1
    # rules that share an action count as one: the number of the rule that carries it
    act = list(range(len(rules)))
    for k in reversed(range(len(rules) - 1)):
        if k in shared: act[k] = act[k + 1]
    return states, defs, rules, act
def dump(u):
    tb = dfa.tables(u); states, defs, rules, act = scanl(u); out = []
    if len(rules) > 254: raise vx.Lost("scan.l: rules")
    if set(states) != set(tb): return None, "states of scan.l and generated.rs differ"
    for i, n in enumerate(_lex.STATES):
        rows, ac = tb[n]; out.append("state\t%d\t%s" % (i, n)); out += ["row\t" + " ".join(map(str, r)) for r in rows]; out.append("ac\t" + " ".join(str(act[x] if x < len(act) else x) for x in ac))
        classes = {}; eof = None
        for k, (st, pat) in enumerate(rules):
            if n not in st: continue
            if pat == "<<EOF>>": eof = act[k] if eof is None else eof; continue
            out.append("re\t%d\t%s" % (act[k], " ".join(Pat(pat, defs, classes).whole())))
        for k, v in sorted(classes.items(), key=lambda kv: kv[1]): out.append("class\t" + " ".join(map(str, k)))
        out.append("eof\t%d" % (255 if eof is None else eof)); out.append("end")
    return "\n".join(out) + "\n", "%d rules" % len(rules)
MAIN = r"""
use std::collections::HashMap;
fn show(r: &Re, o: &mut Vec<u32>) { match r { Re::No => o.push(0), Re::Eps => o.push(1), Re::Set(k) => { o.push(2); o.push(*k as u32) } Re::Cat(a, b) => { o.push(3); show(a, o); show(b, o) } Re::Or(a, b) => { o.push(4); show(a, o); show(b, o) } Re::Star(a) => { o.push(5); show(a, o) } } }
fn parse(w: &[&str], i: &mut usize) -> Re { let t = w[*i]; *i += 1; match &t[..1] { "N" => Re::No, "E" => Re::Eps, "S" => Re::Set(t[1..].parse().unwrap()), "C" => { let a = parse(w, i); let b = parse(w, i); Re::Cat(Box::new(a), Box::new(b)) } "O" => { let a = parse(w, i); let b = parse(w, i); Re::Or(Box::new(a), Box::new(b)) } "*" => Re::Star(Box::new(parse(w, i))), x => panic!("{}", x) } }
// a text that leads to the pair, for the report
fn path(back: &Vec<(usize, u8)>, mut p: usize) -> String { let mut v = vec![]; while p != 0 { v.push(back[p].1); p = back[p].0; } v.reverse(); String::from_utf8_lossy(&v).escape_default().to_string() }
fn main() {
    let a: Vec<String> = std::env::args().collect(); let text = std::fs::read_to_string(&a[1]).unwrap(); let mut name = String::new(); let mut t = Tab { tr: vec![], ac: vec![] }; let mut r = Rules { cls: vec![], re: vec![], id: vec![], eof: 255 }; let (mut done, mut states, mut npairs, mut npat) = (0, 0, 0, 0);
    for l in text.lines() { let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "state" => { name = f[2].to_string(); t = Tab { tr: vec![], ac: vec![] }; r = Rules { cls: vec![], re: vec![], id: vec![], eof: 255 }; }
            "row" => t.tr.push(f[1].split(' ').map(|x| x.parse().unwrap()).collect()),
            "ac" => t.ac = f[1].split(' ').map(|x| x.parse().unwrap()).collect(),
            "re" => { let w: Vec<&str> = f[2].split(' ').collect(); let mut i = 0; r.re.push(parse(&w, &mut i)); assert!(i == w.len()); r.id.push(f[1].parse().unwrap()); }
            "class" => { let mut v = vec![false; 256]; for x in f[1].split(' ') { v[x.parse::<usize>().unwrap()] = true; } r.cls.push(v); }
            "eof" => r.eof = f[1].parse().unwrap(),
            "end" => {
                // the search (unverified): which pairs of automaton state and residuals are reached
                let mut ps = vec![Pair { q: 0, v: r.re.iter().map(copy).collect() }]; let mut next: Vec<Vec<usize>> = vec![]; let mut seen: HashMap<Vec<u32>, usize> = HashMap::new(); let mut back = vec![(0usize, 0u8)]; let mut p = 0;
                let key = |q: u8, v: &Vec<Re>| { let mut o = vec![q as u32]; for x in v { show(x, &mut o); o.push(9); } o };
                seen.insert(key(0, &ps[0].v), 0);
                while p < ps.len() && p < 20000 { let mut row = vec![usize::MAX; 256]; let q = ps[p].q as usize; let mut memo: HashMap<Vec<usize>, Vec<Re>> = HashMap::new();
                    for c in 1..256usize { if q >= t.tr.len() || t.tr[q].len() != 256 { continue; } let x = t.tr[q][c]; if x == 255 { continue; }
                        let cls: Vec<usize> = (0..r.cls.len()).filter(|k| r.cls[*k][c]).collect();
                        let v = memo.entry(cls).or_insert_with(|| ps[p].v.iter().map(|e| der(&r.cls, e, c as u8)).collect());
                        let k = key(x, v);
                        row[c] = match seen.get(&k) { Some(j) => *j, None => { let j = ps.len(); seen.insert(k, j); ps.push(Pair { q: x, v: v.iter().map(copy).collect() }); back.push((p, c as u8)); j } }; }
                    next.push(row); p += 1; }
                if p < ps.len() { println!("STOP too many pairs in state {}", name); return; }
                let b = check(&t, &r, &ps, &next);
                if b.0 != 0 { let at = if b.0 == 1 { String::new() } else { path(&back, b.1) };
                    let rule = if b.0 == 3 { t.ac[ps[b.1].q as usize] as i32 } else { -1 };
                    println!("BAD state {} {} after \"{}\" byte {} rule {}", name, ["", "shape", "transition", "accepted rule", "end of the text"][b.0 as usize], at, b.2, rule); return; }
                done += 1; states += t.ac.len(); npairs += ps.len(); npat += r.re.len(); }
            _ => {} } }
    if done != 12 { println!("STOP {} automata", done); return; }
    println!("LEX-OK automata=12 states={} patterns={} pairs={} steps={}", states, npat, npairs, npairs * 255);
}
"""
def build(u):
    u.add("pub ghost struct Dfa" + _lex.SPEC.split("pub ghost struct Dfa")[1].split("pub open spec fn dfa_ok")[0])
    u.add("//@fn expressions\n" + SPEC + "\n//@end"); u.add("//@fn check\n" + CHECK + "\n//@end"); u.functions.append("der, check and their parts (verified checker, run on the real tables and the patterns of scan.l)")
    u.trusted.append("lexeq: the reader of scan.l's patterns and of generated.rs's tables (proofs/lexeq.py Pat, scanl; proofs/dfa.py tables)")
    return u
def post(u, outdir, source):
    import subprocess
    text, what = dump(u)
    if text is None: return False, what
    d = outdir + "/lexeq.dump"; open(d, "w").write(text); f = outdir + "/lexeqtab.rs"; exe = outdir + "/lexeqtab"
    open(f, "w").write(source.replace("fn main() {}\n", "") + MAIN)
    p = subprocess.run(["verus", f, "--compile", "--no-verify", "--triggers-mode", "silent", "-C", "opt-level=3", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=outdir, timeout=300)
    if p.returncode: return None, "the checker does not compile: " + p.stdout[-800:]
    p = subprocess.run(["bash", "-c", "ulimit -s unlimited; exec %s %s" % (exe, d)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300); l = p.stdout.strip().splitlines()[-1:] or [""]
    if l[0].startswith("LEX-OK"): return True, l[0]
    if l[0].startswith("BAD"): return False, l[0][4:]
    return None, "the checker stopped: " + p.stdout[-500:]
def speaks(prop, what): return prop == "C10"
