"""The scanner's automata (generated.rs tables): a verified checker, run on the real tables, establishes what every longest match looks like; find_longest_match returns that match."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, _lex
G = "crates/postgresql-cst-parser/src/lexer/generated.rs"
CHECK = r"""
pub struct Rec { pub lo: u32, pub hi: u32, pub nl: bool, pub p0: Vec<bool>, pub p1: Vec<bool>, pub mid: Vec<bool>, pub l2: Vec<bool>, pub l1: Vec<bool> }
pub struct Tab { pub tr: Vec<Vec<u8>>, pub ac: Vec<u8> }
pub open spec fn view(t: Tab) -> Dfa { Dfa { tr: Seq::new(t.tr@.len(), |q: int| t.tr@[q]@), ac: t.ac@ } }
pub open spec fn rshape(r: Rec) -> bool { r.p0@.len() == 256 && r.p1@.len() == 256 && r.mid@.len() == 256 && r.l2@.len() == 256 && r.l1@.len() == 256 && r.lo <= 1000 }
pub open spec fn fin(r: Rec) -> bool { r.hi < 1000 }
pub open spec fn holds(r: Rec, s: Seq<u8>, n: int) -> bool { r.lo <= n && (fin(r) ==> n <= r.hi) && n <= s.len() && (n >= 1 ==> r.p0@[s[0] as int] && r.l1@[s[n - 1] as int]) && (n >= 2 ==> r.p1@[s[1] as int] && r.l2@[s[n - 2] as int])
   && (forall|i: int| 2 <= i < n - 2 ==> r.mid@[#[trigger] s[i] as int]) && (r.nl ==> exists|i: int| 0 <= i < n && NL(#[trigger] s[i])) }
pub open spec fn subset(a: Seq<bool>, b: Seq<bool>) -> bool { forall|c: int| 0 <= c < 256 && #[trigger] a[c] ==> b[c] }
pub open spec fn step(r: Rec, c: int, t: Rec) -> bool { t.lo <= r.lo + 1 && (fin(t) ==> fin(r) && r.hi + 1 <= t.hi) && (r.hi >= 1 ==> subset(r.p0@, t.p0@)) && (r.lo == 0 ==> t.p0@[c]) && t.l1@[c] && (r.hi >= 1 ==> subset(r.l1@, t.l2@))
   && (r.lo <= 1 && 1 <= r.hi ==> t.p1@[c]) && (r.hi >= 2 ==> subset(r.p1@, t.p1@)) && (r.hi >= 5 ==> subset(r.mid@, t.mid@)) && (r.hi >= 4 ==> subset(r.l2@, t.mid@)) && (t.nl ==> r.nl || NL(c as u8)) }
pub proof fn step_holds(r: Rec, c: int, t: Rec, s: Seq<u8>, n: int) requires rshape(r), rshape(t), step(r, c, t), 0 <= n < s.len(), s[n] == c, holds(r, s, n) ensures holds(t, s, n + 1)
{ assert forall|i: int| 2 <= i < n + 1 - 2 implies t.mid@[#[trigger] s[i] as int] by { if i < n - 2 { assert(r.mid@[s[i] as int]); } else { assert(r.l2@[s[n - 2] as int]); } }
  if t.nl { if r.nl { let i = choose|i: int| 0 <= i < n && NL(#[trigger] s[i]); assert(NL(s[i])); } else { assert(NL(s[n])); } }
  if n >= 1 { assert(r.l1@[s[n - 1] as int]); assert(r.p0@[s[0] as int]); if n >= 2 { assert(r.p1@[s[1] as int]); } } }
pub open spec fn member(v: Seq<Rec>, s: Seq<u8>, n: int) -> bool { exists|k: int| 0 <= k < v.len() && holds(#[trigger] v[k], s, n) }
pub open spec fn covered(r: Rec, c: int, v: Seq<Rec>) -> bool { exists|k: int| 0 <= k < v.len() && step(r, c, #[trigger] v[k]) }
pub open spec fn closed(t: Tab, a: Seq<Vec<Rec>>, q: int, c: int) -> bool { t.tr@[q]@[c] != 255 ==> t.tr@[q]@[c] != 0 && forall|k: int| 0 <= k < a[q]@.len() ==> covered(#[trigger] a[q]@[k], c, a[t.tr@[q]@[c] as int]@) }
pub open spec fn stops(t: Tab, q: int, nn: int) -> bool { forall|c: int| 0 < c < 256 && #[trigger] cls(nn, c as u8) ==> t.tr@[q]@[c] != 255 && t.ac@[t.tr@[q]@[c] as int] != 255 }
// every match that ends in q: what the records of q say, and what the next byte cannot be
pub open spec fn ends(t: Tab, q: int, r: Rec, s: Seq<u8>, n: int) -> bool { holds(r, s, n) && n >= 1 && (n < s.len() ==> s[n] != 0 && (t.tr@[q]@[s[n] as int] == 255 || t.ac@[t.tr@[q]@[s[n] as int] as int] == 255)) }
pub open spec fn state_ok(t: Tab, a: Seq<Vec<Rec>>, st: int, q: int) -> bool { t.ac@[q] != 255 && q != 0 ==> forall|k: int, s: Seq<u8>, n: int| 0 <= k < a[q]@.len() && #[trigger] ends(t, q, a[q]@[k], s, n) ==> fact(st, t.ac@[q] as int, s, n) }
pub open spec fn eof_ok(t: Tab, q: int) -> bool { q != 0 && t.tr@[q]@[0] != 255 && t.ac@[t.tr@[q]@[0] as int] != 255 ==> t.ac@[t.tr@[q]@[0] as int] == t.ac@[q] }
pub open spec fn all_ok(t: Tab, a: Seq<Vec<Rec>>, st: int) -> bool { dshape(view(t)) && a.len() == t.ac@.len() && (forall|q: int, k: int| 0 <= q < a.len() && 0 <= k < a[q]@.len() ==> rshape(#[trigger] a[q]@[k]))
   && (forall|q: int, c: int| 0 <= q < a.len() && 0 < c < 256 ==> #[trigger] closed(t, a, q, c)) && (forall|q: int| 0 <= q < a.len() ==> #[trigger] state_ok(t, a, st, q) && eof_ok(t, q))
   && (forall|c: int| 0 < c < 256 ==> (#[trigger] t.tr@[0]@[c]) != 255 && t.ac@[t.tr@[0]@[c] as int] != 255) && t.tr@[0]@[0] != 255 && t.ac@[t.tr@[0]@[0] as int] == eof_rule(st) && eof_rule(st) != 255
   && (exists|k: int| 0 <= k < a[0]@.len() && (#[trigger] a[0]@[k]).lo == 0 && !a[0]@[k].nl) }
pub proof fn run_range(d: Dfa, s: Seq<u8>, i: int) requires dshape(d), 0 <= i <= s.len() ensures run(d, s, i) == 255 || 0 <= run(d, s, i) < d.ac.len() decreases i { if i > 0 { run_range(d, s, i - 1); } }
pub proof fn run_rec(t: Tab, a: Seq<Vec<Rec>>, st: int, s: Seq<u8>, i: int) requires all_ok(t, a, st), no_nul(s), 0 <= i <= s.len(), run(view(t), s, i) != 255
  ensures 0 <= run(view(t), s, i) < a.len(), member(a[run(view(t), s, i)]@, s, i), i > 0 ==> run(view(t), s, i) != 0 decreases i
{ let d = view(t); run_range(d, s, i);
  if i == 0 { let k = choose|k: int| 0 <= k < a[0]@.len() && (#[trigger] a[0]@[k]).lo == 0 && !a[0]@[k].nl; assert(holds(a[0]@[k], s, 0)); }
  else { let q = run(d, s, i - 1); assert(q != 255); run_rec(t, a, st, s, i - 1); let c = s[i - 1] as int; assert(d.tr[q] == t.tr@[q]@); assert(closed(t, a, q, c)); let k = choose|k: int| 0 <= k < a[q]@.len() && holds(#[trigger] a[q]@[k], s, i - 1);
    let v = a[t.tr@[q]@[c] as int]@; assert(covered(a[q]@[k], c, v)); let j = choose|j: int| 0 <= j < v.len() && step(a[q]@[k], c, #[trigger] v[j]); step_holds(a[q]@[k], c, v[j], s, i - 1); assert(holds(v[j], s, i)); } }
// the last accepting position
pub proof fn best_is(d: Dfa, s: Seq<u8>, i: int) requires dshape(d), 0 <= i <= s.len()
  ensures ({ let m = best(d, s, i); 0 <= m.0 <= i && (m.0 == 0 ==> m.1 == d.ac[0]) && (m.0 > 0 ==> accepts(d, run(d, s, m.0)) && m.1 == d.ac[run(d, s, m.0)]) && forall|j: int| m.0 < j <= i ==> !accepts(d, #[trigger] run(d, s, j)) }) decreases i
{ if i > 0 { best_is(d, s, i - 1); } }
pub proof fn longest_fact(t: Tab, a: Seq<Vec<Rec>>, st: int, s: Seq<u8>) requires all_ok(t, a, st), no_nul(s), s.len() > 0 ensures ({ let m = longest(view(t), s); 1 <= m.0 <= s.len() && fact(st, m.1, s, m.0) })
{ let d = view(t); let m = best(d, s, s.len() as int); best_is(d, s, s.len() as int);
  assert(run(d, s, 0) == 0); assert(run(d, s, 1) == d.tr[0][s[0] as int]); assert(d.tr[0] == t.tr@[0]@); assert(accepts(d, run(d, s, 1))); assert(m.0 >= 1); let q = run(d, s, m.0); assert(q != 255); run_rec(t, a, st, s, m.0);
  let k = choose|k: int| 0 <= k < a[q]@.len() && holds(#[trigger] a[q]@[k], s, m.0); assert(d.tr[q] == t.tr@[q]@);
  if m.0 < s.len() { assert(run(d, s, m.0 + 1) == d.tr[q][s[m.0] as int]); assert(!accepts(d, run(d, s, m.0 + 1))); }
  assert(ends(t, q, a[q]@[k], s, m.0)); assert(state_ok(t, a, st, q)); assert(fact(st, m.1, s, m.0));
  let z = run(d, s, s.len() as int);
  if z != 255 { run_rec(t, a, st, s, s.len() as int); assert(d.tr[z] == t.tr@[z]@); assert(state_ok(t, a, st, z)); assert(eof_ok(t, z)); if accepts(d, d.tr[z][0] as int) { assert(d.ac[z] == d.ac[d.tr[z][0] as int]); assert(accepts(d, z)); assert(m.0 == s.len()); } } }
pub proof fn all_dfa(t: Tab, a: Seq<Vec<Rec>>, st: int) requires all_ok(t, a, st) ensures dfa_ok(view(t), st)
{ let d = view(t); assert forall|s: Seq<u8>| no_nul(s) && s.len() > 0 implies { let m = #[trigger] longest(d, s); 1 <= m.0 <= s.len() && fact(st, m.1, s, m.0) } by { longest_fact(t, a, st, s); }
  assert(d.tr[0] == t.tr@[0]@); let e = Seq::<u8>::empty(); assert(run(d, e, 0) == 0); assert(accepts(d, d.tr[0][0] as int)); assert(seq![] =~= e); }
// ---- code
fn x_subset(a: &Vec<bool>, b: &Vec<bool>) -> (r: bool) requires a@.len() == 256, b@.len() == 256 ensures r ==> subset(a@, b@)
{ let mut c: usize = 0; while c < 256 invariant c <= 256, a@.len() == 256, b@.len() == 256, forall|k: int| 0 <= k < c && #[trigger] a@[k] ==> b@[k] decreases 256 - c { if a[c] && !b[c] { return false; } c += 1; } true }
fn x_step(r: &Rec, c: usize, t: &Rec) -> (b: bool) requires rshape(*r), rshape(*t), c < 256 ensures b ==> step(*r, c as int, *t)
{ let d = c as u8; assert(c < 256 ==> (c as u8) as int == c) ;
  t.lo <= r.lo + 1 && (t.hi >= 1000 || (r.hi < 1000 && r.hi + 1 <= t.hi)) && (r.hi < 1 || x_subset(&r.p0, &t.p0)) && (r.lo != 0 || t.p0[c]) && t.l1[c] && (r.hi < 1 || x_subset(&r.l1, &t.l2))
   && (r.lo > 1 || 1 > r.hi || t.p1[c]) && (r.hi < 2 || x_subset(&r.p1, &t.p1)) && (r.hi < 5 || x_subset(&r.mid, &t.mid)) && (r.hi < 4 || x_subset(&r.l2, &t.mid)) && (!t.nl || r.nl || d == 10 || d == 13) }
fn x_covered(r: &Rec, c: usize, v: &Vec<Rec>) -> (b: bool) requires rshape(*r), c < 256, forall|k: int| 0 <= k < v@.len() ==> rshape(#[trigger] v@[k]) ensures b ==> covered(*r, c as int, v@)
{ let mut k: usize = 0; let n = v.len(); while k < n invariant k <= n, n == v@.len(), rshape(*r), c < 256, forall|k: int| 0 <= k < v@.len() ==> rshape(#[trigger] v@[k]) decreases n - k { if x_step(r, c, &v[k]) { return true; } k += 1; } false }
fn x_cls(k: u32, c: u8) -> (r: bool) ensures r == cls(k as int, c) { @XCLS@ }
fn x_in(a: &Vec<bool>, k: u32) -> (r: bool) requires a@.len() == 256 ensures r ==> forall|c: int| 0 <= c < 256 && #[trigger] a@[c] ==> cls(k as int, c as u8)
{ let mut c: usize = 0; while c < 256 invariant c <= 256, a@.len() == 256, forall|j: int| 0 <= j < c && #[trigger] a@[j] ==> cls(k as int, j as u8) decreases 256 - c { if a[c] && !x_cls(k, c as u8) { return false; } c += 1; } true }
fn x_stops(t: &Tab, q: usize, nn: u32) -> (r: bool) requires dshape(view(*t)), q < t.ac@.len() ensures r ==> stops(*t, q as int, nn as int)
{ let mut c: usize = 1; proof { assert(view(*t).tr[q as int] == t.tr@[q as int]@); }
  while c < 256 invariant 1 <= c <= 256, dshape(view(*t)), q < t.ac@.len(), view(*t).tr[q as int] == t.tr@[q as int]@, forall|j: int| 0 < j < c && #[trigger] cls(nn as int, j as u8) ==> t.tr@[q as int]@[j] != 255 && t.ac@[t.tr@[q as int]@[j] as int] != 255 decreases 256 - c
  { assert(t.tr@.len() == t.ac@.len()); if x_cls(nn, c as u8) { let x = t.tr[q][c]; assert(view(*t).tr[q as int][c as int] == x); if x == 255 || t.ac[x as usize] == 255 { return false; } } c += 1; } true }
pub open spec fn under(r: Rec, lo: int, hi: int, p0: int, p1: int, mid: int, l2: int, l1: int, nl: bool) -> bool {
   lo <= r.lo && (hi < 0 || (fin(r) && r.hi <= hi)) && (forall|c: int| 0 <= c < 256 && #[trigger] r.p0@[c] ==> cls(p0, c as u8)) && (forall|c: int| 0 <= c < 256 && #[trigger] r.p1@[c] ==> cls(p1, c as u8)) && (r.hi >= 5 ==> forall|c: int| 0 <= c < 256 && #[trigger] r.mid@[c] ==> cls(mid, c as u8))
   && (forall|c: int| 0 <= c < 256 && #[trigger] r.l2@[c] ==> cls(l2, c as u8)) && (forall|c: int| 0 <= c < 256 && #[trigger] r.l1@[c] ==> cls(l1, c as u8)) && (nl ==> r.nl) }
fn x_alt(t: &Tab, q: usize, r: &Rec, lo: i32, hi: i32, p0: u32, p1: u32, mid: u32, l2: u32, l1: u32, nn: u32, nl: bool) -> (b: bool) requires dshape(view(*t)), q < t.ac@.len(), rshape(*r), lo >= 0
  ensures b ==> forall|s: Seq<u8>, n: int| #[trigger] ends(*t, q as int, *r, s, n) ==> alt(s, n, lo as int, hi as int, p0 as int, p1 as int, mid as int, l2 as int, l1 as int, nn as int, nl)
{ if r.lo > 1000 || (hi >= 0 && (hi >= 1000 || r.hi >= 1000)) { return false; }
  let b = lo as u32 <= r.lo && (hi < 0 || (r.hi < 1000 && r.hi <= hi as u32)) && x_in(&r.p0, p0) && x_in(&r.p1, p1) && (r.hi < 5 || x_in(&r.mid, mid)) && x_in(&r.l2, l2) && x_in(&r.l1, l1) && (!nl || r.nl) && x_stops(t, q, nn);
  proof { if b { assert(under(*r, lo as int, hi as int, p0 as int, p1 as int, mid as int, l2 as int, l1 as int, nl)); assert(stops(*t, q as int, nn as int));
    assert forall|s: Seq<u8>, n: int| #[trigger] ends(*t, q as int, *r, s, n) implies alt(s, n, lo as int, hi as int, p0 as int, p1 as int, mid as int, l2 as int, l1 as int, nn as int, nl) by {
      alt_holds(*t, q as int, *r, s, n, lo as int, hi as int, p0 as int, p1 as int, mid as int, l2 as int, l1 as int, nn as int, nl); } } }
  b }
pub proof fn alt_holds(t: Tab, q: int, r: Rec, s: Seq<u8>, n: int, lo: int, hi: int, p0: int, p1: int, mid: int, l2: int, l1: int, nn: int, nl: bool)
  requires rshape(r), under(r, lo, hi, p0, p1, mid, l2, l1, nl), stops(t, q, nn), ends(t, q, r, s, n) ensures alt(s, n, lo, hi, p0, p1, mid, l2, l1, nn, nl)
{ assert forall|i: int| 2 <= i < n - 2 implies cls(mid, #[trigger] s[i]) by { assert(r.mid@[s[i] as int]); }
  if n < s.len() && cls(nn, s[n]) { let c = s[n] as int; assert(c as u8 == s[n]); assert(cls(nn, c as u8)); } 
  assert(r.p0@[s[0] as int]); assert(r.l1@[s[n - 1] as int]); if n >= 2 { assert(r.p1@[s[1] as int]); assert(r.l2@[s[n - 2] as int]); } }
@RULES@
fn x_state(t: &Tab, a: &Vec<Vec<Rec>>, st: u32, q: usize) -> (b: bool) requires dshape(view(*t)), a@.len() == t.ac@.len(), q < a@.len(), st < 12, forall|q: int, k: int| 0 <= q < a@.len() && 0 <= k < a@[q]@.len() ==> rshape(#[trigger] a@[q]@[k]) ensures b ==> state_ok(*t, a@, st as int, q as int) && eof_ok(*t, q as int)
{ proof { assert(view(*t).tr[q as int] == t.tr@[q as int]@); assert(t.tr@.len() == t.ac@.len()); }
  if q == 0 { return true; }
  let z = t.tr[q][0]; proof { assert(view(*t).tr[q as int][0] == z); } if z != 255 && t.ac[z as usize] != 255 && t.ac[z as usize] != t.ac[q] { return false; }
  let rule = t.ac[q]; if rule == 255 { return true; }
  let v = &a[q]; let n = v.len(); let mut k: usize = 0;
  while k < n invariant k <= n, n == v@.len(), v@ == a@[q as int]@, dshape(view(*t)), q < t.ac@.len(), st < 12, rule == t.ac@[q as int], forall|j: int| 0 <= j < n ==> rshape(#[trigger] v@[j]), forall|j: int, s: Seq<u8>, m: int| 0 <= j < k && #[trigger] ends(*t, q as int, v@[j], s, m) ==> fact(st as int, rule as int, s, m) decreases n - k
  { if !x_fact(t, q, &v[k], st, rule) { return false; } k += 1; }
  true }
fn x_shape(t: &Tab, a: &Vec<Vec<Rec>>) -> (b: bool) ensures b ==> dshape(view(*t)) && a@.len() == t.ac@.len() && (forall|q: int, k: int| 0 <= q < a@.len() && 0 <= k < a@[q]@.len() ==> rshape(#[trigger] a@[q]@[k]))
{ let n = t.ac.len(); if n == 0 || n >= 256 || t.tr.len() != n || a.len() != n { return false; }
  let mut q: usize = 0;
  while q < n invariant q <= n, n == t.ac@.len(), t.tr@.len() == n, a@.len() == n, n < 256, forall|p: int| 0 <= p < q ==> (#[trigger] t.tr@[p])@.len() == 256, forall|p: int, c: int| 0 <= p < q && 0 <= c < 256 ==> (#[trigger] t.tr@[p]@[c]) == 255 || t.tr@[p]@[c] < n, forall|p: int, k: int| 0 <= p < q && 0 <= k < a@[p]@.len() ==> rshape(#[trigger] a@[p]@[k]) decreases n - q
  { let row = &t.tr[q]; if row.len() != 256 { return false; }
    let mut c: usize = 0; while c < 256 invariant c <= 256, row@.len() == 256, n < 256, forall|j: int| 0 <= j < c ==> (#[trigger] row@[j]) == 255 || row@[j] < n decreases 256 - c { if row[c] != 255 && row[c] as usize >= n { return false; } c += 1; }
    let v = &a[q]; let m = v.len(); let mut k: usize = 0;
    while k < m invariant k <= m, m == v@.len(), forall|j: int| 0 <= j < k ==> rshape(#[trigger] v@[j]) decreases m - k { let r = &v[k]; if r.p0.len() != 256 || r.p1.len() != 256 || r.mid.len() != 256 || r.l2.len() != 256 || r.l1.len() != 256 || r.lo > 1000 { return false; } k += 1; }
    q += 1; }
  proof { let d = view(*t); assert forall|p: int| 0 <= p < d.tr.len() implies (#[trigger] d.tr[p]).len() == 256 by { assert(d.tr[p] == t.tr@[p]@); }
    assert forall|p: int, c: int| 0 <= p < d.tr.len() && 0 <= c < 256 implies (#[trigger] d.tr[p][c]) == 255 || d.tr[p][c] < d.ac.len() by { assert(d.tr[p] == t.tr@[p]@); assert(t.tr@[p]@[c] == d.tr[p][c]); } }
  true }
fn x_closed(t: &Tab, a: &Vec<Vec<Rec>>, q: usize, c: usize) -> (b: bool) requires dshape(view(*t)), a@.len() == t.ac@.len(), q < a@.len(), c < 256, forall|q: int, k: int| 0 <= q < a@.len() && 0 <= k < a@[q]@.len() ==> rshape(#[trigger] a@[q]@[k]) ensures b ==> closed(*t, a@, q as int, c as int)
{ proof { assert(view(*t).tr[q as int] == t.tr@[q as int]@); assert(t.tr@.len() == t.ac@.len()); }
  let x = t.tr[q][c]; proof { assert(view(*t).tr[q as int][c as int] == x); } if x == 255 { return true; } if x == 0 { return false; }
  let v = &a[q]; let w = &a[x as usize]; let n = v.len(); let mut k: usize = 0;
  proof { assert forall|j: int| 0 <= j < n implies rshape(#[trigger] v@[j]) by { assert(rshape(a@[q as int]@[j])); } assert forall|j: int| 0 <= j < w@.len() implies rshape(#[trigger] w@[j]) by { assert(rshape(a@[x as int]@[j])); } }
  while k < n invariant k <= n, n == v@.len(), c < 256, forall|j: int| 0 <= j < n ==> rshape(#[trigger] v@[j]), forall|j: int| 0 <= j < w@.len() ==> rshape(#[trigger] w@[j]), forall|j: int| 0 <= j < k ==> covered(#[trigger] v@[j], c as int, w@) decreases n - k
  { if !x_covered(&v[k], c, w) { return false; } k += 1; }
  true }
// (0, _): the automaton of lexer state st is as specified; otherwise what fails: 1 shape, 2 automaton state (its rule), 3 transition, 4 start
pub fn check(t: &Tab, a: &Vec<Vec<Rec>>, st: u32) -> (b: (u32, usize)) requires st < 12 ensures b.0 == 0 ==> dfa_ok(view(*t), st as int)
{ if !x_shape(t, a) { return (1, 0); } let n = t.ac.len(); proof { assert(view(*t).tr[0] == t.tr@[0]@); assert(t.tr@.len() == n); }
  let z = t.tr[0][0]; proof { assert(view(*t).tr[0][0] == z); } if z == 255 || !x_eof(st, t.ac[z as usize]) { return (4, 0); }
  let mut c: usize = 1;
  while c < 256 invariant 1 <= c <= 256, dshape(view(*t)), t.tr@.len() == t.ac@.len(), view(*t).tr[0] == t.tr@[0]@, forall|j: int| 0 < j < c ==> (#[trigger] t.tr@[0]@[j]) != 255 && t.ac@[t.tr@[0]@[j] as int] != 255 decreases 256 - c
  { let x = t.tr[0][c]; proof { assert(view(*t).tr[0][c as int] == x); } if x == 255 || t.ac[x as usize] == 255 { return (4, c); } c += 1; }
  let v0 = &a[0]; let m = v0.len(); let mut k: usize = 0; let mut found = false;
  while k < m invariant k <= m, m == v0@.len(), v0@ == a@[0]@, found ==> exists|j: int| 0 <= j < v0@.len() && (#[trigger] v0@[j]).lo == 0 && !v0@[j].nl decreases m - k { if v0[k].lo == 0 && !v0[k].nl { assert(v0@[k as int].lo == 0); found = true; } k += 1; }
  if !found { return (4, 256); }
  let mut q: usize = 0;
  while q < n invariant q <= n, n == t.ac@.len(), dshape(view(*t)), a@.len() == n, st < 12, forall|q: int, k: int| 0 <= q < a@.len() && 0 <= k < a@[q]@.len() ==> rshape(#[trigger] a@[q]@[k]), forall|p: int| 0 <= p < q ==> #[trigger] state_ok(*t, a@, st as int, p) && eof_ok(*t, p), forall|p: int, c: int| 0 <= p < q && 0 < c < 256 ==> #[trigger] closed(*t, a@, p, c) decreases n - q
  { if !x_state(t, a, st, q) { return (2, q); }
    let mut c: usize = 1; while c < 256 invariant 1 <= c <= 256, q < n, n == t.ac@.len(), dshape(view(*t)), a@.len() == n, forall|q: int, k: int| 0 <= q < a@.len() && 0 <= k < a@[q]@.len() ==> rshape(#[trigger] a@[q]@[k]), forall|j: int| 0 < j < c ==> #[trigger] closed(*t, a@, q as int, j) decreases 256 - c { if !x_closed(t, a, q, c) { return (3, q * 256 + c); } c += 1; }
    q += 1; }
  proof { assert(all_ok(*t, a@, st as int)); all_dfa(*t, a@, st as int); }
  (0, 0) }
"""
def rules():
    out = []
    for r in _lex.RULES:
        body = "".join("if st == %d && x_alt(t, q, r, %s) { return true; } " % (_lex.STATES.index(s), a.args()) for s, m in _lex.ALTS.items() if r in m for a in m[r])
        out.append("fn x_rule_%d(t: &Tab, q: usize, r: &Rec, st: u32) -> (b: bool) requires dshape(view(*t)), q < t.ac@.len(), rshape(*r) ensures b ==> forall|s: Seq<u8>, n: int| #[trigger] ends(*t, q as int, *r, s, n) ==> fact_%d(st as int, s, n) { %sfalse }" % (r, r, body))
    out.append("fn x_fact(t: &Tab, q: usize, r: &Rec, st: u32, rule: u8) -> (b: bool) requires dshape(view(*t)), q < t.ac@.len(), rshape(*r) ensures b ==> forall|s: Seq<u8>, n: int| #[trigger] ends(*t, q as int, *r, s, n) ==> fact(st as int, rule as int, s, n) { "
        + " else ".join("if rule == %d { x_rule_%d(t, q, r, st) }" % (r, r) for r in _lex.RULES) + " else { false } }")
    out.append("fn x_eof(st: u32, rule: u8) -> (b: bool) requires st < 12 ensures b == (rule == eof_rule(st as int)) { " + " else ".join("if st == %d { rule == %d }" % (i, _lex.EOF[s]) for i, s in enumerate(_lex.STATES)) + " else { false } }")
    return "\n".join(out)
def x_cls():
    ren = lambda t: re.sub(r"\b([A-Z_0-9]*[A-Z]+[A-Z_0-9]*)\(c\)", r"x_\1(c)", t)
    fs = "\n".join("fn x_%s(c: u8) -> (r: bool) ensures r == %s(c) { %s }" % (n, n, ren(t)) for n, t in _lex.CLS.items())
    return fs, " else ".join("if k == %d { x_%s(c) }" % (i, n) for i, n in enumerate(_lex.NAMES)) + " else { false }"
def build(u):
    fs, body = x_cls(); u.add(_lex.text()); u.add("//@fn check\n" + fs + CHECK.replace("@XCLS@", body).replace("@RULES@", rules()) + "\n//@end"); u.functions.append("check and its parts (verified checker, run on the real tables)")
    return u
def tables(u):
    """lexer state name -> (transitions, accepts), as generated.rs gives them to find_longest_match"""
    try: x = open(u.repo + "/" + G).read()
    except OSError: raise vx.Lost(G)
    m = re.search(r"enum State \{([^}]*)\}", x)
    if not m: raise vx.Lost("enum State")
    names = [n.strip() for n in m.group(1).split(",") if n.strip()]
    if sorted(names) != sorted(_lex.STATES): raise vx.Lost("enum State: " + " ".join(names))
    arms = dict((int(a), (b, c)) for a, b, c in re.findall(r"(\d+) => \((TRANSITION_TABLE_\d+)\.as_slice\(\), (ACCEPT_TABLE_\d+)\.as_slice\(\)\)", x))
    if len(re.findall(r"let state_id = state as u8;\s*match state_id", x)) != 1 or len(arms) != len(names): raise vx.Lost("get_dfa_table")
    out = {}
    for i, n in enumerate(names):
        a, b = arms[i]; p = re.search(r"const %s: \[\[u8; 256\]; (\d+)\] = \[(.*?)\];" % a, x, re.S); q = re.search(r"const %s: \[u8; (\d+)\] = \[([^\]]*)\];" % b, x)
        if not p or not q: raise vx.Lost(a)
        rows = [[int(v) for v in r.replace("\n", " ").split(",") if v.strip()] for r in re.findall(r"\[([^\]]*)\]", p.group(2))]; ac = [int(v) for v in q.group(2).replace("\n", " ").split(",") if v.strip()]
        if len(rows) != int(p.group(1)) or len(ac) != int(q.group(1)): raise vx.Lost(a + ": size")
        out[n] = (rows, ac)
    return out
OPB = set(_lex.OPS.encode())
def annotate(st, rows, ac):
    """records for every automaton state: an untrusted proposal the verified checker decides on"""
    esc = st in ("xe", "xeu"); init = st == "INITIAL"
    def first(c):
        if init: return c if c in OPB or c in b"$." else (c in b"bBxXnNeE" and -1) or (c in b"uU" and -2) or (48 <= c <= 57 and -3) or 0
        return int(esc and c == 92)
    def second(f, c): return c if (init and f in OPB) or (esc and f and c in b"uUx") else (1 if esc and f and 48 <= c <= 55 else 0)
    # key: (kind of the first byte, length up to a cap, second byte if it matters, line break seen)
    def nxt(k, c):
        f, n, w, nl = k; nl = st == "xqs" and (nl or c in (10, 13))
        if n == 0: return (first(c), 1, 0, nl)
        cap = 11 if esc and f else 4
        return (f, min(n + 1, cap), second(f, c) if n == 1 else (0 if init else w), nl)
    recs = {}; start = (0, (0, 0, 0, False)); recs[start] = [0, 0, 0, 0, 0]; work = [start]; memo = {}
    while work:
        node = work.pop(); q, k = node; r = recs[node]; n = k[1]; full = n >= (11 if esc and k[0] else 4)
        if node not in memo:
            g = {}
            for c in range(1, 256):
                if rows[q][c] != 255: m = (rows[q][c], nxt(k, c)); g[m] = g.get(m, 0) | (1 << c)
            memo[node] = g
        for m, cs in memo[node].items():
            new = m not in recs; x = recs.setdefault(m, [0, 0, 0, 0, 0]); before = tuple(x)
            if n >= 1: x[0] |= r[0]; x[3] |= r[4]
            else: x[0] |= cs
            x[4] |= cs
            if n == 1: x[1] |= cs
            if n >= 2: x[1] |= r[1]
            if n >= 4: x[2] |= r[3]
            if n >= 5 or full: x[2] |= r[2]
            if new or tuple(x) != before: work.append(m)
    out = [[] for _ in rows]
    for (q, k), x in recs.items(): out[q].append((k[1], k[1] if k[1] < (11 if esc and k[0] else 4) else 100000, int(k[3]), [[c for c in range(256) if y >> c & 1] for y in x]))
    return out
MAIN = r"""
fn main() {
    let a: Vec<String> = std::env::args().collect(); let text = std::fs::read_to_string(&a[1]).unwrap(); let mut name = String::new(); let mut st = 0u32; let mut t = Tab { tr: vec![], ac: vec![] }; let mut ann: Vec<Vec<Rec>> = vec![]; let mut done = 0; let mut states = 0; let mut recs = 0;
    let set = |s: &str| -> Vec<bool> { let mut v = vec![false; 256]; for x in s.split(',').filter(|x| !x.is_empty()) { v[x.parse::<usize>().unwrap()] = true; } v };
    for l in text.lines() { let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "state" => { name = f[2].to_string(); st = f[1].parse().unwrap(); t = Tab { tr: vec![], ac: vec![] }; ann = vec![]; }
            "row" => { t.tr.push(f[1].split(' ').map(|x| x.parse().unwrap()).collect()); ann.push(vec![]); }
            "ac" => { t.ac = f[1].split(' ').map(|x| x.parse().unwrap()).collect(); }
            "rec" => { let q: usize = f[1].parse().unwrap(); ann[q].push(Rec { lo: f[2].parse().unwrap(), hi: f[3].parse().unwrap(), nl: f[4] == "1", p0: set(f[5]), p1: set(f[6]), mid: set(f[7]), l2: set(f[8]), l1: set(f[9]) }); recs += 1; }
            "end" => { let r = check(&t, &ann, st); if r.0 != 0 { println!("BAD state {} {} {} rule {}", name, ["", "shape", "automaton state", "transition", "start"][r.0 as usize], r.1, if r.0 == 2 { t.ac[r.1] as i32 } else { -1 }); return; } done += 1; states += t.ac.len(); }
            _ => {} } }
    if done != 12 { println!("STOP {} automata", done); return; }
    println!("DFA-OK automata=12 states={} records={} facts={}", states, recs, @FACTS@);
}
"""
def dump(u):
    out = []; tb = tables(u)
    for i, n in enumerate(_lex.STATES):
        rows, ac = tb[n]; out.append("state\t%d\t%s" % (i, n)); out += ["row\t" + " ".join(map(str, r)) for r in rows]; out.append("ac\t" + " ".join(map(str, ac)))
        if all(len(r) == 256 and all(x == 255 or x < len(rows) for x in r) for r in rows):
            for q, v in enumerate(annotate(n, rows, ac)):
                for lo, hi, nl, x in v: out.append("rec\t%d\t%d\t%d\t%d\t" % (q, lo, hi, nl) + "\t".join(",".join(map(str, sorted(z))) for z in x))
        out.append("end")
    return "\n".join(out) + "\n"
def post(u, outdir, source):
    """runs the verified checker on the tables of generated.rs: (held, what)"""
    import subprocess
    d = outdir + "/dfa.dump"; open(d, "w").write(dump(u)); f = outdir + "/dfatab.rs"; exe = outdir + "/dfatab"
    open(f, "w").write(source.replace("fn main() {}\n", "") + MAIN.replace("@FACTS@", str(sum(len(a) for m in _lex.ALTS.values() for a in m.values()))))
    p = subprocess.run(["verus", f, "--compile", "--no-verify", "--triggers-mode", "silent", "-C", "opt-level=3", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=outdir, timeout=300)
    if p.returncode: return None, "the checker does not compile: " + p.stdout[-800:]
    p = subprocess.run([exe, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600); l = p.stdout.strip().splitlines()[-1:] or [""]
    if l[0].startswith("DFA-OK"): return True, l[0]
    if l[0].startswith("BAD"): return False, l[0][4:]
    return None, "the checker stopped: " + p.stdout[-500:]
BYSTATE = {"xc": ["C04"], "INITIAL": ["C03"]}
def speaks(prop, what):
    """what fails: `state <lexer state> <kind> <index> rule <rule>`"""
    import _arms
    m = re.match(r"state (\w+) .* rule (-?\d+)", what); st, rule = m.group(1), int(m.group(2))
    by = BYSTATE.get(st, ["C05", "C06"] if st in ("xe", "xeu") else ["C05"])
    return prop in ["C10"] + by + (_arms.PROPS.get(rule, []) if rule >= 0 else [])
