"""Automata: walks in a graph with empty and byte edges, what fragments of it spell, and the meaning of pattern trees."""
WALK = r"""
pub struct Edge { pub s: int, pub c: Transition, pub d: int }
pub open spec fn step(g: Edge, x: int, w: Seq<u8>) -> bool { g.s == x && match g.c { Transition::Epsilon => true, Transition::Char(b) => w.len() > 0 && w[0] == b } }
pub open spec fn wid(g: Edge) -> int { match g.c { Transition::Epsilon => 0int, Transition::Char(b) => 1 } }
pub open spec fn walk(e: Set<Edge>, n: nat, x: int, w: Seq<u8>, t: int) -> bool decreases n { (x == t && w.len() == 0) || (n > 0 && exists|g: Edge| #[trigger] e.contains(g) && step(g, x, w) && walk(e, (n - 1) as nat, g.d, w.skip(wid(g)), t)) }
// a walk from x to t spells w
pub open spec fn reach(e: Set<Edge>, x: int, w: Seq<u8>, t: int) -> bool { exists|n: nat| walk(e, n, x, w, t) }
pub proof fn more(e: Set<Edge>, f: Set<Edge>, n: nat, m: nat, x: int, w: Seq<u8>, t: int) requires walk(e, n, x, w, t), n <= m, e.subset_of(f) ensures walk(f, m, x, w, t) decreases n
{ if !(x == t && w.len() == 0) { let g = choose|g: Edge| #[trigger] e.contains(g) && step(g, x, w) && walk(e, (n - 1) as nat, g.d, w.skip(wid(g)), t); more(e, f, (n - 1) as nat, (m - 1) as nat, g.d, w.skip(wid(g)), t); assert(f.contains(g)); } }
pub proof fn grow(e: Set<Edge>, f: Set<Edge>, x: int, w: Seq<u8>, t: int) requires reach(e, x, w, t), e.subset_of(f) ensures reach(f, x, w, t) { let n = choose|n: nat| walk(e, n, x, w, t); more(e, f, n, n, x, w, t); }
pub proof fn join(e: Set<Edge>, n: nat, x: int, u: Seq<u8>, y: int, m: nat, v: Seq<u8>, t: int) requires walk(e, n, x, u, y), walk(e, m, y, v, t) ensures walk(e, n + m, x, u + v, t) decreases n
{ if x == y && u.len() == 0 { assert(u + v =~= v); more(e, e, m, n + m, x, v, t); } else {
    let g = choose|g: Edge| #[trigger] e.contains(g) && step(g, x, u) && walk(e, (n - 1) as nat, g.d, u.skip(wid(g)), y); join(e, (n - 1) as nat, g.d, u.skip(wid(g)), y, m, v, t); assert(u.skip(wid(g)) + v =~= (u + v).skip(wid(g)));
    assert(step(g, x, u + v)); } }
pub proof fn chain2(e: Set<Edge>, x: int, u: Seq<u8>, y: int, v: Seq<u8>, t: int) requires reach(e, x, u, y), reach(e, y, v, t) ensures reach(e, x, u + v, t)
{ let n = choose|n: nat| walk(e, n, x, u, y); let m = choose|m: nat| walk(e, m, y, v, t); join(e, n, x, u, y, m, v, t); }
pub proof fn stay(e: Set<Edge>, x: int) ensures reach(e, x, Seq::empty(), x) { assert(walk(e, 0, x, Seq::empty(), x)); }
pub proof fn hop(e: Set<Edge>, g: Edge) requires e.contains(g) ensures g.c == Transition::Epsilon ==> reach(e, g.s, Seq::empty(), g.d), forall|b: u8| g.c == Transition::Char(b) ==> reach(e, g.s, seq![b], g.d)
{ match g.c { Transition::Epsilon => { let w = Seq::<u8>::empty(); assert(w.skip(0) =~= w); assert(walk(e, 0, g.d, w, g.d)); assert(walk(e, 1, g.s, w, g.d)); }
    Transition::Char(b) => { let w = seq![b]; assert(w.skip(1) =~= Seq::<u8>::empty()); assert(walk(e, 0, g.d, w.skip(1), g.d)); assert(walk(e, 1, g.s, w, g.d)); } } }
pub open spec fn no_out(e: Set<Edge>, x: int) -> bool { forall|g: Edge| #[trigger] e.contains(g) ==> g.s != x }
pub proof fn stuck(e: Set<Edge>, n: nat, x: int, w: Seq<u8>, t: int) requires walk(e, n, x, w, t), no_out(e, x) ensures x == t, w.len() == 0 {}
// the first place outside p that a walk comes to; inside p it uses the edges of e1 only
pub proof fn leave(e: Set<Edge>, e1: Set<Edge>, p: spec_fn(int) -> bool, n: nat, x: int, w: Seq<u8>, t: int) -> (r: (int, int, nat))
  requires walk(e, n, x, w, t), p(x), !p(t), forall|g: Edge| #[trigger] e.contains(g) && p(g.s) ==> e1.contains(g)
  ensures r.2 < n, !p(r.0), 0 <= r.1 <= w.len(), reach(e1, x, w.take(r.1), r.0), walk(e, r.2, r.0, w.skip(r.1), t), exists|g: Edge| #[trigger] e1.contains(g) && e.contains(g) && p(g.s) && g.d == r.0 decreases n
{ let g = choose|g: Edge| #[trigger] e.contains(g) && step(g, x, w) && walk(e, (n - 1) as nat, g.d, w.skip(wid(g)), t); let k = wid(g); hop(e1, g);
  assert(reach(e1, x, w.take(k), g.d)) by { match g.c { Transition::Epsilon => { assert(w.take(0) =~= Seq::<u8>::empty()); } Transition::Char(b) => { assert(w.take(1) =~= seq![b]); } } }
  if !p(g.d) { (g.d, k, (n - 1) as nat) } else {
    let r = leave(e, e1, p, (n - 1) as nat, g.d, w.skip(k), t); chain2(e1, x, w.take(k), g.d, w.skip(k).take(r.1), r.0); assert(w.take(k) + w.skip(k).take(r.1) =~= w.take(k + r.1)); assert(w.skip(k).skip(r.1) =~= w.skip(k + r.1));
    (r.0, k + r.1, r.2) } }
"""
TREE = r"""
// pattern trees as values
pub ghost enum Rx { Char(u8), AnyOf(Seq<u8>), NoneOf(Seq<u8>), Cat(Seq<Rx>), Alt(Seq<Rx>), Star(Box<Rx>), Plus(Box<Rx>), Rep(Box<Rx>, nat, nat), Ref(Seq<char>) }
pub open spec fn deep(n: RegexpNode) -> Rx decreases n {
  match n { RegexpNode::Char(c) => Rx::Char(c), RegexpNode::AnyOf(v) => Rx::AnyOf(v@), RegexpNode::NoneOf(v) => Rx::NoneOf(v@),
    RegexpNode::Concatenation(v) => Rx::Cat(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { deep(v@[i]) } else { Rx::Char(0) })), RegexpNode::Alternative(v) => Rx::Alt(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { deep(v@[i]) } else { Rx::Char(0) })),
    RegexpNode::ZeroOrMore(a) => Rx::Star(Box::new(deep(*a))), RegexpNode::OneOrMore(a) => Rx::Plus(Box::new(deep(*a))), RegexpNode::Repeat(a, m, n) => Rx::Rep(Box::new(deep(*a)), m as nat, n as nat), RegexpNode::Reference(s) => Rx::Ref(s@) } }
pub open spec fn deeps(v: Seq<RegexpNode>) -> Seq<Rx> { Seq::new(v.len(), |i: int| deep(v[i])) }
pub proof fn deep_list(v: Vec<RegexpNode>) ensures deep(RegexpNode::Concatenation(v)) == Rx::Cat(deeps(v@)), deep(RegexpNode::Alternative(v)) == Rx::Alt(deeps(v@)) { assert(deep(RegexpNode::Concatenation(v))->Cat_0 =~= deeps(v@)); assert(deep(RegexpNode::Alternative(v))->Alt_0 =~= deeps(v@)); }
"""
LANG = r"""
// what a pattern tree matches; named definitions to depth f
pub open spec fn cut(w: Seq<u8>, j: int) -> bool { 0 <= j <= w.len() }
pub open spec fn times(k: nat) -> bool { true }
pub open spec fn lang(d: Map<Seq<char>, Rx>, f: nat, n: Rx, w: Seq<u8>) -> bool decreases f, n, 0nat {
  match n { Rx::Char(c) => w.len() == 1 && w[0] == c, Rx::AnyOf(v) => w.len() == 1 && v.contains(w[0]), Rx::NoneOf(v) => w.len() == 1 && w[0] != 0 && !v.contains(w[0]),
    Rx::Cat(v) => cat(d, f, v, v.len(), w), Rx::Alt(v) => alt(d, f, v, v.len(), w), Rx::Star(a) => exists|k: nat| #[trigger] times(k) && rep(d, f, *a, k, w), Rx::Plus(a) => exists|k: nat| #[trigger] times(k) && k >= 1 && rep(d, f, *a, k, w),
    Rx::Rep(a, lo, hi) => exists|k: nat| #[trigger] times(k) && lo <= k <= hi && rep(d, f, *a, k, w), Rx::Ref(s) => f > 0 && d.contains_key(s) && lang(d, (f - 1) as nat, d[s], w) } }
pub open spec fn cat(d: Map<Seq<char>, Rx>, f: nat, v: Seq<Rx>, i: nat, w: Seq<u8>) -> bool decreases f, v, i { if i == 0 || i > v.len() { w.len() == 0 } else { exists|j: int| #[trigger] cut(w, j) && cat(d, f, v, (i - 1) as nat, w.take(j)) && lang(d, f, v[i - 1], w.skip(j)) } }
pub open spec fn alt(d: Map<Seq<char>, Rx>, f: nat, v: Seq<Rx>, i: nat, w: Seq<u8>) -> bool decreases f, v, i { if i == 0 || i > v.len() { false } else { alt(d, f, v, (i - 1) as nat, w) || lang(d, f, v[i - 1], w) } }
pub open spec fn rep(d: Map<Seq<char>, Rx>, f: nat, n: Rx, k: nat, w: Seq<u8>) -> bool decreases f, n, k + 1 { if k == 0 { w.len() == 0 } else { exists|j: int| #[trigger] cut(w, j) && rep(d, f, n, (k - 1) as nat, w.take(j)) && lang(d, f, n, w.skip(j)) } }
// every name is defined, no definition needs itself, repetition bounds are in order
pub open spec fn sound(d: Map<Seq<char>, Rx>, f: nat, n: Rx) -> bool decreases f, n {
  match n { Rx::Cat(v) => forall|i: int| 0 <= i < v.len() ==> sound(d, f, #[trigger] v[i]), Rx::Alt(v) => forall|i: int| 0 <= i < v.len() ==> sound(d, f, #[trigger] v[i]), Rx::Star(a) => sound(d, f, *a), Rx::Plus(a) => sound(d, f, *a),
    Rx::Rep(a, lo, hi) => lo <= hi && sound(d, f, *a), Rx::Ref(s) => f > 0 && d.contains_key(s) && sound(d, (f - 1) as nat, d[s]), _ => true } }
"""
FRAG = r"""
pub open spec fn within(lo: int, hi: int, x: int) -> bool { lo <= x < hi }
// edges go from s or new nodes to t or new nodes
pub open spec fn frag(e: Set<Edge>, s: int, t: int, lo: int, hi: int) -> bool { forall|g: Edge| #[trigger] e.contains(g) ==> (g.s == s || within(lo, hi, g.s)) && (g.d == t || within(lo, hi, g.d)) }
pub open spec fn spells(e: Set<Edge>, s: int, t: int, l: spec_fn(Seq<u8>) -> bool) -> bool { forall|w: Seq<u8>| #[trigger] reach(e, s, w, t) == l(w) }
pub open spec fn ep(s: int, d: int) -> Edge { Edge { s: s, c: Transition::Epsilon, d: d } }
pub open spec fn none() -> spec_fn(Seq<u8>) -> bool { |w: Seq<u8>| false }
pub open spec fn blank() -> spec_fn(Seq<u8>) -> bool { |w: Seq<u8>| w.len() == 0 }
pub open spec fn either(a: spec_fn(Seq<u8>) -> bool, b: spec_fn(Seq<u8>) -> bool) -> spec_fn(Seq<u8>) -> bool { |w: Seq<u8>| a(w) || b(w) }
pub open spec fn then(a: spec_fn(Seq<u8>) -> bool, b: spec_fn(Seq<u8>) -> bool) -> spec_fn(Seq<u8>) -> bool { |w: Seq<u8>| exists|j: int| #[trigger] cut(w, j) && a(w.take(j)) && b(w.skip(j)) }
pub proof fn bytes(e: Set<Edge>, s: int, t: int, lo: int, c: spec_fn(u8) -> bool) requires s != t, forall|g: Edge| #[trigger] e.contains(g) ==> g.s == s && g.d == t && g.c is Char && c(g.c->Char_0), forall|b: u8| c(b) ==> #[trigger] e.contains(Edge { s: s, c: Transition::Char(b), d: t })
  ensures frag(e, s, t, lo, lo), spells(e, s, t, |w: Seq<u8>| w.len() == 1 && c(w[0]))
{ assert forall|w: Seq<u8>| #[trigger] reach(e, s, w, t) == (w.len() == 1 && c(w[0])) by {
    if reach(e, s, w, t) { let n = choose|n: nat| walk(e, n, s, w, t); let g = choose|g: Edge| #[trigger] e.contains(g) && step(g, s, w) && walk(e, (n - 1) as nat, g.d, w.skip(wid(g)), t); stuck(e, (n - 1) as nat, t, w.skip(wid(g)), t); }
    if w.len() == 1 && c(w[0]) { hop(e, Edge { s: s, c: Transition::Char(w[0]), d: t }); assert(w =~= seq![w[0]]); } } }
// from ns through a fragment to na
pub proof fn through(e: Set<Edge>, c: Set<Edge>, ns: int, na: int, lo: int, hi: int, n: nat, w: Seq<u8>, t: int) -> (r: (int, nat))
  requires walk(e, n, ns, w, t), frag(c, ns, na, lo, hi), ns < lo, na < lo, ns != na, t != ns, !within(lo, hi, t), forall|g: Edge| #[trigger] e.contains(g) && (g.s == ns || within(lo, hi, g.s)) ==> c.contains(g)
  ensures r.1 < n, cut(w, r.0), reach(c, ns, w.take(r.0), na), walk(e, r.1, na, w.skip(r.0), t)
{ let r = leave(e, c, |x: int| x == ns || within(lo, hi, x), n, ns, w, t); (r.1, r.2) }
pub proof fn alternative(e: Set<Edge>, c: Set<Edge>, s: int, t: int, lo: int, mid: int, hi: int, l: spec_fn(Seq<u8>) -> bool, k: spec_fn(Seq<u8>) -> bool)
  requires s != t, s < lo, t < lo, lo <= mid, mid + 2 <= hi, frag(e, s, t, lo, mid), frag(c, mid, mid + 1, mid + 2, hi), spells(e, s, t, l), spells(c, mid, mid + 1, k)
  ensures frag(e.union(c).insert(ep(s, mid)).insert(ep(mid + 1, t)), s, t, lo, hi), spells(e.union(c).insert(ep(s, mid)).insert(ep(mid + 1, t)), s, t, either(l, k))
{ let f = e.union(c).insert(ep(s, mid)).insert(ep(mid + 1, t));
  assert forall|w: Seq<u8>| #[trigger] reach(f, s, w, t) == either(l, k)(w) by {
    if reach(f, s, w, t) { let n = choose|n: nat| walk(f, n, s, w, t); let g = choose|g: Edge| #[trigger] f.contains(g) && step(g, s, w) && walk(f, (n - 1) as nat, g.d, w.skip(wid(g)), t); let v = w.skip(wid(g)); let m = (n - 1) as nat;
      if g == ep(s, mid) { assert(v =~= w); let r = through(f, c, mid, mid + 1, mid + 2, hi, m, w, t); let h = choose|h: Edge| #[trigger] f.contains(h) && step(h, mid + 1, w.skip(r.0)) && walk(f, (r.1 - 1) as nat, h.d, w.skip(r.0).skip(wid(h)), t);
        assert(h == ep(mid + 1, t)); stuck(f, (r.1 - 1) as nat, t, w.skip(r.0).skip(0), t); assert(w.take(r.0) =~= w); assert(k(w)); }
      else { assert(e.contains(g)); hop(e, g);
        if g.d == t { stuck(f, m, t, v, t); match g.c { Transition::Epsilon => { assert(w =~= Seq::<u8>::empty()); } Transition::Char(b) => { assert(w =~= seq![b]); } } assert(reach(e, s, w, t)); }
        else { let p = |x: int| within(lo, mid, x); let r = leave(f, e, p, m, g.d, v, t); assert(r.0 == t); stuck(f, r.2, t, v.skip(r.1), t); assert(v.take(r.1) =~= v);
          match g.c { Transition::Epsilon => { chain2(e, s, Seq::empty(), g.d, v, t); assert(Seq::<u8>::empty() + v =~= w); } Transition::Char(b) => { chain2(e, s, seq![b], g.d, v, t); assert(seq![b] + v =~= w); } } assert(l(w)); } } }
    if l(w) { assert(reach(e, s, w, t)); grow(e, f, s, w, t); }
    if k(w) { assert(reach(c, mid, w, mid + 1)); grow(c, f, mid, w, mid + 1); hop(f, ep(s, mid)); hop(f, ep(mid + 1, t)); chain2(f, s, Seq::empty(), mid, w, mid + 1); chain2(f, s, Seq::empty() + w, mid + 1, Seq::empty(), t); assert(Seq::<u8>::empty() + w + Seq::<u8>::empty() =~= w); } } }
// a chain under construction: from s to x spells p, to t spells q; x goes nowhere but to t
pub open spec fn line(e: Set<Edge>, s: int, x: int, t: int, lo: int, hi: int, p: spec_fn(Seq<u8>) -> bool, q: spec_fn(Seq<u8>) -> bool) -> bool { s != t && s < lo && t < lo && lo <= hi && (x == s || within(lo, hi, x)) && frag(e, s, t, lo, hi)
  && (forall|g: Edge| #[trigger] e.contains(g) && g.s == x ==> g == ep(x, t)) && spells(e, s, x, p) && spells(e, s, t, q) }
pub proof fn start_line(s: int, t: int, lo: int) requires s != t, s < lo, t < lo ensures line(Set::empty(), s, s, t, lo, lo, blank(), none())
{ let e = Set::<Edge>::empty(); assert forall|w: Seq<u8>| #[trigger] reach(e, s, w, s) == (w.len() == 0) by { if reach(e, s, w, s) { let n = choose|n: nat| walk(e, n, s, w, s); stuck(e, n, s, w, s); } if w.len() == 0 { assert(w =~= Seq::<u8>::empty()); stay(e, s); } }
  assert forall|w: Seq<u8>| #[trigger] reach(e, s, w, t) == false by { if reach(e, s, w, t) { let n = choose|n: nat| walk(e, n, s, w, t); stuck(e, n, s, w, t); } } }
// a walk in a larger graph comes first to x or t, along e
pub proof fn to_x(f: Set<Edge>, e: Set<Edge>, s: int, x: int, t: int, lo: int, hi: int, n: nat, w: Seq<u8>, z: int) -> (r: (int, int, nat))
  requires walk(f, n, s, w, z), frag(e, s, t, lo, hi), s != t, s < lo, t < lo, x == s || within(lo, hi, x), z == x || z == t || z >= hi, forall|g: Edge| #[trigger] f.contains(g) && (g.s == s || within(lo, hi, g.s)) && g.s != x ==> e.contains(g)
  ensures r.0 == x || r.0 == t, cut(w, r.1), reach(e, s, w.take(r.1), r.0), walk(f, r.2, r.0, w.skip(r.1), z), r.2 <= n
{ if s == x { stay(e, s); assert(w.take(0) =~= Seq::<u8>::empty()); assert(w.skip(0) =~= w); (x, 0, n) }
  else { let p = |y: int| (y == s || within(lo, hi, y)) && y != x; leave(f, e, p, n, s, w, z) } }
pub proof fn exit_line(e: Set<Edge>, s: int, x: int, t: int, lo: int, hi: int, p: spec_fn(Seq<u8>) -> bool, q: spec_fn(Seq<u8>) -> bool)
  requires line(e, s, x, t, lo, hi, p, q) ensures line(e.insert(ep(x, t)), s, x, t, lo, hi, p, either(q, p))
{ let f = e.insert(ep(x, t));
  assert forall|w: Seq<u8>| #[trigger] reach(f, s, w, x) == p(w) by {
    if reach(f, s, w, x) { let n = choose|n: nat| walk(f, n, s, w, x); let r = to_x(f, e, s, x, t, lo, hi, n, w, x); if r.0 == t { stuck(f, r.2, t, w.skip(r.1), x); }
      let v = w.skip(r.1); if v.len() > 0 { let g = choose|g: Edge| #[trigger] f.contains(g) && step(g, x, v) && walk(f, (r.2 - 1) as nat, g.d, v.skip(wid(g)), x); stuck(f, (r.2 - 1) as nat, t, v.skip(0), x); } assert(w.take(r.1) =~= w); assert(p(w)); }
    if p(w) { assert(reach(e, s, w, x)); grow(e, f, s, w, x); } }
  assert forall|w: Seq<u8>| #[trigger] reach(f, s, w, t) == either(q, p)(w) by {
    if reach(f, s, w, t) { let n = choose|n: nat| walk(f, n, s, w, t); let r = to_x(f, e, s, x, t, lo, hi, n, w, t); let v = w.skip(r.1);
      if r.0 == t { stuck(f, r.2, t, v, t); assert(w.take(r.1) =~= w); assert(reach(e, s, w, t)); assert(q(w)); }
      else { let g = choose|g: Edge| #[trigger] f.contains(g) && step(g, x, v) && walk(f, (r.2 - 1) as nat, g.d, v.skip(wid(g)), t); stuck(f, (r.2 - 1) as nat, t, v.skip(0), t); assert(w.take(r.1) =~= w); assert(reach(e, s, w, x)); assert(p(w)); } }
    if q(w) { assert(reach(e, s, w, t)); grow(e, f, s, w, t); }
    if p(w) { assert(reach(e, s, w, x)); grow(e, f, s, w, x); hop(f, ep(x, t)); chain2(f, s, w, x, Seq::empty(), t); assert(w + Seq::<u8>::empty() =~= w); } } }
pub proof fn link_line(e: Set<Edge>, c: Set<Edge>, s: int, x: int, t: int, lo: int, mid: int, hi: int, p: spec_fn(Seq<u8>) -> bool, q: spec_fn(Seq<u8>) -> bool, k: spec_fn(Seq<u8>) -> bool)
  requires line(e, s, x, t, lo, mid, p, q), mid + 2 <= hi, frag(c, mid, mid + 1, mid + 2, hi), spells(c, mid, mid + 1, k) ensures line(e.union(c).insert(ep(x, mid)), s, mid + 1, t, lo, hi, then(p, k), q)
{ let f = e.union(c).insert(ep(x, mid)); let y = mid + 1;
  assert forall|w: Seq<u8>, z: int, n: nat| (z == y || z == t) && #[trigger] walk(f, n, s, w, z) implies (if z == t { q(w) } else { then(p, k)(w) }) by {
    { let r = to_x(f, e, s, x, t, lo, mid, n, w, z); let v = w.skip(r.1);
      if r.0 == t { stuck(f, r.2, t, v, z); assert(w.take(r.1) =~= w); assert(reach(e, s, w, t)); }
      else { let g = choose|g: Edge| #[trigger] f.contains(g) && step(g, x, v) && walk(f, (r.2 - 1) as nat, g.d, v.skip(wid(g)), z); let m = (r.2 - 1) as nat; assert(v.skip(0) =~= v);
        if g == ep(x, mid) { let h = through(f, c, mid, y, mid + 2, hi, m, v, z); stuck(f, h.1, y, v.skip(h.0), z); assert(v.take(h.0) =~= v); assert(reach(e, s, w.take(r.1), x)); assert(reach(c, mid, v, y)); assert(cut(w, r.1) && p(w.take(r.1)) && k(w.skip(r.1))); }
        else { assert(e.contains(g)); assert(g == ep(x, t)); stuck(f, m, t, v, z); assert(w.take(r.1) =~= w); hop(e, g); chain2(e, s, w, x, Seq::empty(), t); assert(w + Seq::<u8>::empty() =~= w); assert(reach(e, s, w, t)); } } } }
  assert forall|w: Seq<u8>| #[trigger] reach(f, s, w, t) == q(w) by { if reach(f, s, w, t) { let n = choose|n: nat| walk(f, n, s, w, t); assert(walk(f, n, s, w, t)); } if q(w) { assert(reach(e, s, w, t)); grow(e, f, s, w, t); } }
  assert forall|w: Seq<u8>| #[trigger] reach(f, s, w, y) == then(p, k)(w) by { if reach(f, s, w, y) { let n = choose|n: nat| walk(f, n, s, w, y); assert(walk(f, n, s, w, y)); }
    if then(p, k)(w) { let j = choose|j: int| #[trigger] cut(w, j) && p(w.take(j)) && k(w.skip(j)); assert(reach(e, s, w.take(j), x)); assert(reach(c, mid, w.skip(j), y)); grow(e, f, s, w.take(j), x); grow(c, f, mid, w.skip(j), y); hop(f, ep(x, mid));
      chain2(f, s, w.take(j), x, Seq::empty(), mid); chain2(f, s, w.take(j) + Seq::empty(), mid, w.skip(j), y); assert(w.take(j) + Seq::<u8>::empty() + w.skip(j) =~= w); } } }
"""
STAR = r"""
pub open spec fn rp(l: spec_fn(Seq<u8>) -> bool, k: nat, w: Seq<u8>) -> bool decreases k { if k == 0 { w.len() == 0 } else { exists|j: int| #[trigger] cut(w, j) && rp(l, (k - 1) as nat, w.take(j)) && l(w.skip(j)) } }
pub open spec fn rps(l: spec_fn(Seq<u8>) -> bool, lo: nat) -> spec_fn(Seq<u8>) -> bool { |w: Seq<u8>| exists|k: nat| #[trigger] times(k) && k >= lo && rp(l, k, w) }
pub proof fn rep_is(d: Map<Seq<char>, Rx>, f: nat, n: Rx, k: nat, w: Seq<u8>, l: spec_fn(Seq<u8>) -> bool) requires forall|u: Seq<u8>| #[trigger] l(u) == lang(d, f, n, u) ensures rep(d, f, n, k, w) == rp(l, k, w) decreases k
{ if k > 0 { assert forall|j: int| #[trigger] cut(w, j) implies rep(d, f, n, (k - 1) as nat, w.take(j)) == rp(l, (k - 1) as nat, w.take(j)) by { rep_is(d, f, n, (k - 1) as nat, w.take(j), l); }
    if rep(d, f, n, k, w) { let j = choose|j: int| #[trigger] cut(w, j) && rep(d, f, n, (k - 1) as nat, w.take(j)) && lang(d, f, n, w.skip(j)); assert(cut(w, j) && l(w.skip(j))); }
    if rp(l, k, w) { let j = choose|j: int| #[trigger] cut(w, j) && rp(l, (k - 1) as nat, w.take(j)) && l(w.skip(j)); assert(cut(w, j) && lang(d, f, n, w.skip(j))); } } }
pub proof fn front(l: spec_fn(Seq<u8>) -> bool, k: nat, u: Seq<u8>, v: Seq<u8>) requires l(u), rp(l, k, v) ensures rp(l, k + 1, u + v) decreases k
{ let w = u + v; if k == 0 { assert(w =~= u); assert(w.skip(0) =~= w); assert(rp(l, 0, w.take(0))); assert(cut(w, 0)); } else {
    let j = choose|j: int| #[trigger] cut(v, j) && rp(l, (k - 1) as nat, v.take(j)) && l(v.skip(j)); front(l, (k - 1) as nat, u, v.take(j)); let i = u.len() + j; assert(w.take(i) =~= u + v.take(j)); assert(w.skip(i) =~= v.skip(j)); assert(cut(w, i)); } }
pub proof fn loops(f: Set<Edge>, c: Set<Edge>, s: int, t: int, mid: int, hi: int, l: spec_fn(Seq<u8>) -> bool, n: nat, w: Seq<u8>) -> (k: nat)
  requires s != t, s < mid, t < mid, mid + 2 <= hi, frag(c, mid, mid + 1, mid + 2, hi), spells(c, mid, mid + 1, l), forall|g: Edge| #[trigger] f.contains(g) ==> c.contains(g) || g == ep(s, mid) || g == ep(mid + 1, t) || g == ep(mid + 1, mid) || g == ep(s, t), walk(f, n, mid, w, t)
  ensures k >= 1, rp(l, k, w) decreases n
{ let y = mid + 1; let r = through(f, c, mid, y, mid + 2, hi, n, w, t); let v = w.skip(r.0); let u = w.take(r.0); assert(reach(c, mid, u, y)); assert(l(u)); let g = choose|g: Edge| #[trigger] f.contains(g) && step(g, y, v) && walk(f, (r.1 - 1) as nat, g.d, v.skip(wid(g)), t); assert(v.skip(0) =~= v); assert(w =~= u + v);
  if g == ep(y, t) { stuck(f, (r.1 - 1) as nat, t, v, t); assert(rp(l, 0, v)); front(l, 0, u, v); 1 } else { assert(!c.contains(g)); let k = loops(f, c, s, t, mid, hi, l, (r.1 - 1) as nat, v); front(l, k, u, v); k + 1 } }
pub proof fn rounds(f: Set<Edge>, c: Set<Edge>, mid: int, l: spec_fn(Seq<u8>) -> bool, k: nat, w: Seq<u8>) requires c.subset_of(f), f.contains(ep(mid + 1, mid)), spells(c, mid, mid + 1, l), k >= 1, rp(l, k, w) ensures reach(f, mid, w, mid + 1) decreases k
{ let j = choose|j: int| #[trigger] cut(w, j) && rp(l, (k - 1) as nat, w.take(j)) && l(w.skip(j)); assert(reach(c, mid, w.skip(j), mid + 1)); grow(c, f, mid, w.skip(j), mid + 1);
  if k == 1 { assert(w.skip(j) =~= w); } else { rounds(f, c, mid, l, (k - 1) as nat, w.take(j)); hop(f, ep(mid + 1, mid)); chain2(f, mid, w.take(j), mid + 1, Seq::empty(), mid); chain2(f, mid, w.take(j) + Seq::empty(), mid, w.skip(j), mid + 1); assert(w.take(j) + Seq::<u8>::empty() + w.skip(j) =~= w); } }
pub open spec fn star_edges(c: Set<Edge>, s: int, t: int, mid: int, zero: bool) -> Set<Edge> { let f = c.insert(ep(s, mid)).insert(ep(mid + 1, t)).insert(ep(mid + 1, mid)); if zero { f.insert(ep(s, t)) } else { f } }
pub proof fn star(c: Set<Edge>, s: int, t: int, mid: int, hi: int, l: spec_fn(Seq<u8>) -> bool, zero: bool)
  requires s != t, s < mid, t < mid, mid + 2 <= hi, frag(c, mid, mid + 1, mid + 2, hi), spells(c, mid, mid + 1, l)
  ensures frag(star_edges(c, s, t, mid, zero), s, t, mid, hi), spells(star_edges(c, s, t, mid, zero), s, t, rps(l, if zero { 0 } else { 1 }))
{ let f = star_edges(c, s, t, mid, zero); let lo: nat = if zero { 0 } else { 1 };
  assert forall|w: Seq<u8>| #[trigger] reach(f, s, w, t) == rps(l, lo)(w) by {
    if reach(f, s, w, t) { let n = choose|n: nat| walk(f, n, s, w, t); let g = choose|g: Edge| #[trigger] f.contains(g) && step(g, s, w) && walk(f, (n - 1) as nat, g.d, w.skip(wid(g)), t); assert(!c.contains(g)); assert(w.skip(0) =~= w);
      if g == ep(s, t) { stuck(f, (n - 1) as nat, t, w, t); assert(rp(l, 0, w)); assert(times(0)); } else { let k = loops(f, c, s, t, mid, hi, l, (n - 1) as nat, w); assert(times(k)); } }
    if rps(l, lo)(w) { let k = choose|k: nat| #[trigger] times(k) && k >= lo && rp(l, k, w);
      if k == 0 { hop(f, ep(s, t)); assert(w =~= Seq::<u8>::empty()); }
      else { rounds(f, c, mid, l, k, w); hop(f, ep(s, mid)); hop(f, ep(mid + 1, t)); chain2(f, s, Seq::empty(), mid, w, mid + 1); chain2(f, s, Seq::empty() + w, mid + 1, Seq::empty(), t); assert(Seq::<u8>::empty() + w + Seq::<u8>::empty() =~= w); } } } }
"""
SUBSET = r"""
pub open spec fn closed(e: Set<Edge>, s: Set<int>) -> bool { forall|g: Edge| #[trigger] e.contains(g) && g.c == Transition::Epsilon && s.contains(g.s) ==> s.contains(g.d) }
pub open spec fn eps(e: Set<Edge>, x: int, t: int) -> bool { reach(e, x, Seq::empty(), t) }
pub proof fn closed_walk(e: Set<Edge>, s: Set<int>, n: nat, x: int, w: Seq<u8>, t: int) requires closed(e, s), s.contains(x), walk(e, n, x, w, t), w.len() == 0 ensures s.contains(t) decreases n
{ if x != t { let g = choose|g: Edge| #[trigger] e.contains(g) && step(g, x, w) && walk(e, (n - 1) as nat, g.d, w.skip(wid(g)), t); closed_walk(e, s, (n - 1) as nat, g.d, w.skip(wid(g)), t); } }
pub proof fn closed_eps(e: Set<Edge>, s: Set<int>, x: int) requires closed(e, s), s.contains(x) ensures forall|t: int| #[trigger] eps(e, x, t) ==> s.contains(t)
{ assert forall|t: int| #[trigger] eps(e, x, t) implies s.contains(t) by { let n = choose|n: nat| walk(e, n, x, Seq::empty(), t); closed_walk(e, s, n, x, Seq::empty(), t); } }
pub proof fn eps_more(e: Set<Edge>, x: int, y: int, t: int) requires eps(e, x, y), e.contains(ep(y, t)) ensures eps(e, x, t) { hop(e, ep(y, t)); chain2(e, x, Seq::empty(), y, Seq::empty(), t); assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= Seq::<u8>::empty()); }
pub open spec fn bedge(b: u8, y: int, z: int) -> Edge { Edge { s: y, c: Transition::Char(b), d: z } }
// t is reached from a member of s by b and then empty edges
pub open spec fn after(e: Set<Edge>, s: Set<int>, b: u8, t: int) -> bool { exists|y: int, z: int| s.contains(y) && #[trigger] e.contains(bedge(b, y, z)) && eps(e, z, t) }
pub proof fn last_byte(e: Set<Edge>, n: nat, x: int, w: Seq<u8>, t: int) -> (r: (int, int)) requires walk(e, n, x, w, t), w.len() > 0 ensures reach(e, x, w.drop_last(), r.0), e.contains(bedge(w.last(), r.0, r.1)), eps(e, r.1, t) decreases n
{ let g = choose|g: Edge| #[trigger] e.contains(g) && step(g, x, w) && walk(e, (n - 1) as nat, g.d, w.skip(wid(g)), t); let v = w.skip(wid(g)); hop(e, g);
  if v.len() == 0 { assert(v =~= Seq::<u8>::empty()); stay(e, x); assert(w.drop_last() =~= Seq::<u8>::empty()); assert(g == bedge(w.last(), x, g.d)); assert(reach(e, g.d, v, t)); (x, g.d) }
  else { let r = last_byte(e, (n - 1) as nat, g.d, v, t);
    match g.c { Transition::Epsilon => { chain2(e, x, Seq::empty(), g.d, v.drop_last(), r.0); assert(Seq::<u8>::empty() + v.drop_last() =~= w.drop_last()); } Transition::Char(b) => { chain2(e, x, seq![b], g.d, v.drop_last(), r.0); assert(seq![b] + v.drop_last() =~= w.drop_last()); } } r } }
pub open spec fn best(a: Map<int, u32>, s: Set<int>, o: Option<u32>) -> bool { match o { None => forall|t: int| #[trigger] s.contains(t) ==> !a.contains_key(t), Some(v) => (exists|t: int| #[trigger] s.contains(t) && a.contains_key(t) && a[t] == v) && forall|t: int| #[trigger] s.contains(t) && a.contains_key(t) ==> a[t] >= v } }
pub open spec fn is_closure(e: Set<Edge>, s: Set<int>, x: int) -> bool { forall|t: int| #[trigger] s.contains(t) == eps(e, x, t) }
pub open spec fn is_after(e: Set<Edge>, s: Set<int>, b: u8, s2: Set<int>) -> bool { forall|t: int| #[trigger] s2.contains(t) == after(e, s, b, t) }
pub open spec fn to(r: Seq<DFAState>, i: int, b: int) -> int { r[i].transitions@[b] as int }
pub open spec fn col(e: Set<Edge>, sets: Seq<Set<int>>, r: Seq<DFAState>, i: int, b: int) -> bool { if to(r, i, b) == usize::MAX { forall|t: int| !#[trigger] after(e, sets[i], b as u8, t) } else { to(r, i, b) < sets.len() && is_after(e, sets[i], b as u8, sets[to(r, i, b)]) } }
pub open spec fn dfa_ok(e: Set<Edge>, a: Map<int, u32>, x: int, r: Seq<DFAState>, sets: Seq<Set<int>>) -> bool { r.len() == sets.len() && r.len() > 0 && is_closure(e, sets[0], x) && (forall|i: int, b: int| 0 <= i < r.len() && 0 <= b < 256 ==> #[trigger] col(e, sets, r, i, b)) && forall|i: int| 0 <= i < r.len() ==> best(a, #[trigger] sets[i], r[i].accept_lexer_rule_id) }
pub open spec fn drun(r: Seq<DFAState>, w: Seq<u8>) -> Option<int> decreases w.len() { if w.len() == 0 { Some(0int) } else { match drun(r, w.drop_last()) { None => None, Some(i) => if to(r, i, w.last() as int) == usize::MAX { None } else { Some(to(r, i, w.last() as int)) } } } }
pub open spec fn verdict(r: Seq<DFAState>, w: Seq<u8>) -> Option<u32> { match drun(r, w) { None => None, Some(i) => r[i].accept_lexer_rule_id } }
pub proof fn means(e: Set<Edge>, a: Map<int, u32>, x: int, r: Seq<DFAState>, sets: Seq<Set<int>>, w: Seq<u8>) requires dfa_ok(e, a, x, r, sets)
  ensures (match drun(r, w) { None => forall|t: int| !#[trigger] reach(e, x, w, t), Some(i) => 0 <= i < r.len() && forall|t: int| #[trigger] sets[i].contains(t) == reach(e, x, w, t) }) decreases w.len()
{ if w.len() == 0 { assert(w =~= Seq::<u8>::empty()); assert forall|t: int| #[trigger] sets[0].contains(t) == reach(e, x, w, t) by { assert(eps(e, x, t) == reach(e, x, w, t)); } } else { let u = w.drop_last(); let b = w.last(); means(e, a, x, r, sets, u);
    assert forall|t: int| #[trigger] reach(e, x, w, t) implies (match drun(r, u) { None => false, Some(i) => after(e, sets[i], b, t) }) by { let n = choose|n: nat| walk(e, n, x, w, t); let q = last_byte(e, n, x, w, t); assert(reach(e, x, u, q.0)); }
    match drun(r, u) { None => {} Some(i) => { assert(col(e, sets, r, i, b as int)); assert((b as int) as u8 == b); let j = to(r, i, b as int); if j != usize::MAX { assert(drun(r, w) == Some(j)); assert(is_after(e, sets[i], b, sets[j])); assert(sets[j] == sets[drun(r, w)->Some_0]); }
      assert forall|t: int| #[trigger] after(e, sets[i], b, t) implies reach(e, x, w, t) by { let (y, z) = choose|y: int, z: int| sets[i].contains(y) && #[trigger] e.contains(bedge(b, y, z)) && eps(e, z, t); hop(e, bedge(b, y, z)); chain2(e, x, u, y, seq![b], z); chain2(e, x, u + seq![b], z, Seq::empty(), t); assert(u + seq![b] + Seq::<u8>::empty() =~= w); } } } } }
// all patterns: r rules are in, nodes below k are the start states
pub open spec fn inv(e: Set<Edge>, a: Map<int, u32>, k: int, n: int, ls: Seq<spec_fn(Seq<u8>) -> bool>, at: spec_fn(int, int) -> bool) -> bool {
  0 <= k <= n && (forall|g: Edge| #[trigger] e.contains(g) ==> k <= g.d < n && 0 <= g.s < n) && (forall|t: int| #[trigger] a.contains_key(t) ==> k <= t < n && a[t] < ls.len())
  && forall|q: int, w: Seq<u8>, r: int| 0 <= q < k ==> (#[trigger] hit(e, a, q, w, r) <==> 0 <= r < ls.len() && at(r, q) && ls[r](w)) }
pub open spec fn hit(e: Set<Edge>, a: Map<int, u32>, q: int, w: Seq<u8>, r: int) -> bool { exists|t: int| #[trigger] reach(e, q, w, t) && a.contains_key(t) && a[t] == r }
pub proof fn inside(f: Set<Edge>, e: Set<Edge>, lo: int, hi: int, n: nat, x: int, w: Seq<u8>, t: int) requires walk(f, n, x, w, t), within(lo, hi, x), forall|g: Edge| #[trigger] f.contains(g) && within(lo, hi, g.s) ==> e.contains(g) && within(lo, hi, g.d) ensures walk(e, n, x, w, t), within(lo, hi, t) decreases n
{ if !(x == t && w.len() == 0) { let g = choose|g: Edge| #[trigger] f.contains(g) && step(g, x, w) && walk(f, (n - 1) as nat, g.d, w.skip(wid(g)), t); inside(f, e, lo, hi, (n - 1) as nat, g.d, w.skip(wid(g)), t); } }
pub open spec fn joined(e: Set<Edge>, c: Set<Edge>, f: Set<Edge>, fs: int, i: int, at: spec_fn(int, int) -> bool, k: int) -> bool { forall|g: Edge| #[trigger] f.contains(g) == (e.contains(g) || c.contains(g) || (g.c == Transition::Epsilon && g.d == fs && 0 <= g.s < k && at(i, g.s))) }
pub proof fn add_rule(e: Set<Edge>, a: Map<int, u32>, k: int, mid: int, hi: int, ls: Seq<spec_fn(Seq<u8>) -> bool>, at: spec_fn(int, int) -> bool, c: Set<Edge>, l: spec_fn(Seq<u8>) -> bool, f: Set<Edge>)
  requires inv(e, a, k, mid, ls, at), mid + 2 <= hi, frag(c, mid, mid + 1, mid + 2, hi), spells(c, mid, mid + 1, l), ls.len() < u32::MAX, joined(e, c, f, mid, ls.len() as int, at, k) ensures inv(f, a.insert(mid + 1, ls.len() as u32), k, hi, ls.push(l), at)
{ let b = a.insert(mid + 1, ls.len() as u32); let i = ls.len() as int; let y = mid + 1;
  assert forall|q: int, w: Seq<u8>, t: int| 0 <= q < k && t < mid && #[trigger] reach(f, q, w, t) implies reach(e, q, w, t) by { let n = choose|n: nat| walk(f, n, q, w, t);
    if !(q == t && w.len() == 0) { let g = choose|g: Edge| #[trigger] f.contains(g) && step(g, q, w) && walk(f, (n - 1) as nat, g.d, w.skip(wid(g)), t); let v = w.skip(wid(g));
      if e.contains(g) { inside(f, e, k, mid, (n - 1) as nat, g.d, v, t); assert(walk(e, n, q, w, t)); } else { inside(f, c, mid, hi, (n - 1) as nat, g.d, v, t); } } else { assert(walk(e, 0, q, w, t)); } }
  assert forall|q: int, w: Seq<u8>| 0 <= q < k implies #[trigger] reach(f, q, w, y) == (at(i, q) && l(w)) by {
    if reach(f, q, w, y) { let n = choose|n: nat| walk(f, n, q, w, y); let g = choose|g: Edge| #[trigger] f.contains(g) && step(g, q, w) && walk(f, (n - 1) as nat, g.d, w.skip(wid(g)), y); let v = w.skip(wid(g));
      if e.contains(g) { inside(f, e, k, mid, (n - 1) as nat, g.d, v, y); } else { assert(v =~= w); let r = through(f, c, mid, y, mid + 2, hi, (n - 1) as nat, v, y); stuck(f, r.1, y, v.skip(r.0), y); assert(v.take(r.0) =~= w); assert(reach(c, mid, w, y)); } }
    if at(i, q) && l(w) { assert(reach(c, mid, w, y)); grow(c, f, mid, w, y); assert(f.contains(ep(q, mid))); hop(f, ep(q, mid)); chain2(f, q, Seq::empty(), mid, w, y); assert(Seq::<u8>::empty() + w =~= w); } }
  assert forall|q: int, w: Seq<u8>, r: int| 0 <= q < k implies (#[trigger] hit(f, b, q, w, r) <==> 0 <= r < i + 1 && at(r, q) && ls.push(l)[r](w)) by {
    if hit(f, b, q, w, r) { let t = choose|t: int| #[trigger] reach(f, q, w, t) && b.contains_key(t) && b[t] == r; if t != y { assert(a.contains_key(t)); assert(reach(e, q, w, t)); assert(hit(e, a, q, w, r)); } }
    if 0 <= r < i + 1 && at(r, q) && ls.push(l)[r](w) { if r == i { assert(reach(f, q, w, y)); } else { assert(ls[r](w)); assert(hit(e, a, q, w, r)); let t = choose|t: int| #[trigger] reach(e, q, w, t) && a.contains_key(t) && a[t] == r; grow(e, f, q, w, t); assert(b.contains_key(t)); } } } }
// the rule an automaton gives is the first of those that are listed and match
pub open spec fn first_rule(ls: Seq<spec_fn(Seq<u8>) -> bool>, at: spec_fn(int, int) -> bool, q: int, w: Seq<u8>, o: Option<u32>) -> bool { match o { None => forall|r: int| 0 <= r < ls.len() && #[trigger] at(r, q) ==> !ls[r](w), Some(v) => v < ls.len() && at(v as int, q) && ls[v as int](w) && forall|r: int| 0 <= r < v && #[trigger] at(r, q) ==> !ls[r](w) } }
pub proof fn gives_first(e: Set<Edge>, a: Map<int, u32>, k: int, n: int, ls: Seq<spec_fn(Seq<u8>) -> bool>, at: spec_fn(int, int) -> bool, q: int, r: Seq<DFAState>, sets: Seq<Set<int>>, w: Seq<u8>)
  requires inv(e, a, k, n, ls, at), 0 <= q < k, dfa_ok(e, a, q, r, sets) ensures first_rule(ls, at, q, w, verdict(r, w))
{ means(e, a, q, r, sets, w);
  assert forall|v: int| 0 <= v < ls.len() && #[trigger] at(v, q) && ls[v](w) implies (verdict(r, w) is Some && verdict(r, w)->Some_0 <= v) by { assert(hit(e, a, q, w, v)); let t = choose|t: int| #[trigger] reach(e, q, w, t) && a.contains_key(t) && a[t] == v; let i = drun(r, w)->Some_0; assert(sets[i].contains(t)); }
  if verdict(r, w) is Some { let v = verdict(r, w)->Some_0; let i = drun(r, w)->Some_0; assert(best(a, sets[i], r[i].accept_lexer_rule_id)); let t = choose|t: int| #[trigger] sets[i].contains(t) && a.contains_key(t) && a[t] == v; assert(reach(e, q, w, t)); assert(hit(e, a, q, w, v as int)); } }
"""
