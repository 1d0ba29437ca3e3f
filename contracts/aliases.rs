@fn Aliases::aliases
file: crates/flowistry/src/mir/aliases.rs
params: self: Aliases, place: Place
ret: out: HSet<Place>
ensures mem: forall|q: Place| #[trigger] out.has(q) <==> alias_of(self, place, q)
ensures one: out.len() == 1 ==> forall|q: Place| #[trigger] out.has(q) ==> q == place
proof:
  assert(forall|r: RegionVid, l: (Place, Mutability)| #[trigger] self.loans.at(r).has(l) ==> cand(l));
post:
  assert(out.has(place));
  assert(forall|q: Place| #[trigger] out.has(q) ==> alias_of(self, place, q));
  assert(forall|q: Place| alias_of(self, place, q) ==> #[trigger] out.has(q));
@end

// ---- C08: the points-to sets ------------------------------------------------------------
pub type LoanMap = HMap<RegionVid, HSet<(Place, Mutability)>>;
pub struct GatherBorrows { pub borrows: Lst<(RegionVid, BorrowKind, Place)> }
impl GatherBorrows { pub open spec fn default() -> GatherBorrows { GatherBorrows { borrows: Lst::new() } }
  pub open spec fn set_borrows(self, borrows: Lst<(RegionVid, BorrowKind, Place)>) -> GatherBorrows { GatherBorrows { borrows } }
}
/// What an assignment borrows.
pub open spec fn borrow_of(rvalue: Rvalue) -> Seq<(RegionVid, BorrowKind, Place)> {
  match rvalue { Rvalue::Ref(Region(Interned(RegionKind::ReVar(r), _)), kind, place) => seq![(r, kind, place)], _ => Seq::empty() }
}
/// Everything borrowed in a body, in the order rustc's visitor visits its assignments.
pub open spec fn all_borrows(body: Body) -> Seq<(RegionVid, BorrowKind, Place)> {
  flat(body.basic_blocks.v, |d: BasicBlockData| flat(d.statements.s, |s: Statement| match s.kind { StatementKind::Assign((p, rv)) => borrow_of(rv), _ => Seq::empty() }))
}
/// A square bit matrix over regions. Insertions outside it panic, there or when the graph is
/// built from it; what follows is of no interest, and they are ignored here.
pub struct SparseBitMatrix { pub n: int, pub h: HSet<(RegionVid, RegionVid)> }
impl SparseBitMatrix {
  pub open spec fn new(n: int) -> SparseBitMatrix { SparseBitMatrix { n, h: HSet::empty() } }
  pub open spec fn has(self, a: RegionVid, b: RegionVid) -> bool { self.h.has((a, b)) }
  pub open spec fn insert_upd(self, a: RegionVid, b: RegionVid) -> SparseBitMatrix {
    if a.i < self.n && b.i < self.n { SparseBitMatrix { n: self.n, h: self.h.insert_upd((a, b)) } } else { self }
  }
  pub open spec fn insert_ret(self, a: RegionVid, b: RegionVid) -> bool { !self.has(a, b) }
  pub open spec fn rows(self) -> Lst<RegionVid> { range(0, self.n).map(|i: int| RegionVid::from_usize(i)) }
  pub open spec fn iter(self, a: RegionVid) -> Lst<RegionVid> { self.h.iter().filter(|e: (RegionVid, RegionVid)| e.0 == a).map(|e: (RegionVid, RegionVid)| e.1) }
}
pub broadcast proof fn bits_new(n: int, a: RegionVid, b: RegionVid) ensures !(#[trigger] SparseBitMatrix::new(n).has(a, b)) { has_hempty((a, b)); }
pub broadcast proof fn bits_insert(m: SparseBitMatrix, a: RegionVid, b: RegionVid, x: RegionVid, y: RegionVid)
  ensures #[trigger] m.insert_upd(a, b).has(x, y) <==> m.has(x, y) || (a.i < m.n && b.i < m.n && x == a && y == b)
{ has_hinsert(m.h, (a, b), (x, y)); }
pub broadcast proof fn bits_iter(m: SparseBitMatrix, a: RegionVid, b: RegionVid) ensures #[trigger] m.iter(a).has(b) <==> m.has(a, b)
{
  broadcast use lists;
  assert(cand((a, b)));
  assert(cand(b));
}
pub broadcast proof fn bits_rows(m: SparseBitMatrix, a: RegionVid) ensures #[trigger] m.rows().has(a) <==> a.i < m.n
{
  let g = |i: int| RegionVid::from_usize(i);
  has_map(range(0, m.n), g, a);
  if a.i < m.n { has_range(0, m.n, a.i as int); }
  if m.rows().has(a) { let i = choose|i: int| #[trigger] range(0, m.n).has(i) && g(i) == a; has_range(0, m.n, i); }
}
pub broadcast group bits { bits_new, bits_insert, bits_iter, bits_rows }
pub struct ChunkedBitSet;
impl ChunkedBitSet { pub open spec fn new_empty<T>(n: int) -> HSet<T> { HSet::empty() } }
pub struct RegionSccIndex { pub i: int }
pub struct VecGraph<N> { pub n: int, pub edges: Lst<(N, N)> }
impl<N> VecGraph<N> { pub open spec fn new(n: int, edges: Lst<(N, N)>) -> VecGraph<N> { VecGraph { n, edges } } }
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(S)]
pub struct Sccs<N, S> { pub g: VecGraph<N>, pub of: spec_fn(N) -> S }
pub uninterp spec fn scc_of<N, S>(g: VecGraph<N>, r: N) -> S;
impl<N, S> Sccs<N, S> {
  pub open spec fn new(g: VecGraph<N>) -> Sccs<N, S> { Sccs { g, of: |r: N| scc_of(g, r) } }
  pub uninterp spec fn num_sccs(self) -> int;
  pub open spec fn scc(self, r: N) -> S { (self.of)(r) }
}
pub uninterp spec fn reverse_post_order<N, S>(s: Sccs<N, S>, from: S) -> Lst<S>;
pub open spec fn walk(g: spec_fn(RegionVid, RegionVid) -> bool, p: Seq<RegionVid>, a: RegionVid, b: RegionVid) -> bool {
  p.len() > 0 && p[0] == a && p.last() == b && forall|i: int| 0 <= i < p.len() - 1 ==> g(#[trigger] p[i], p[i + 1])
}
pub open spec fn reaches(g: spec_fn(RegionVid, RegionVid) -> bool, a: RegionVid, b: RegionVid) -> bool { exists|p: Seq<RegionVid>| #[trigger] walk(g, p, a, b) }
/// Strongly connected components, and their topological order from `from` on.
pub axiom fn sccs_ax(s: Sccs<RegionVid, RegionSccIndex>, from: RegionVid)
  requires s == Sccs::<RegionVid, RegionSccIndex>::new(s.g)
  ensures
    forall|g: spec_fn(RegionVid, RegionVid) -> bool, a: RegionVid, b: RegionVid| (forall|x: RegionVid, y: RegionVid| g(x, y) <==> s.g.edges.has((x, y))) && a.i < s.g.n && b.i < s.g.n
      ==> (s.scc(a) == s.scc(b) <==> #[trigger] reaches(g, a, b) && reaches(g, b, a)),
    ({ let l = reverse_post_order(s, s.scc(from));
      (forall|i: int, j: int| 0 <= i < l.s.len() && 0 <= j < l.s.len() && #[trigger] l.s[i] == #[trigger] l.s[j] ==> i == j)
      && l.has(s.scc(from))
      && (forall|a: RegionVid, b: RegionVid| #[trigger] s.g.edges.has((a, b)) && l.has(s.scc(a)) ==> l.has(s.scc(b)) && (s.scc(a) == s.scc(b) || precedes(l, s.scc(a), s.scc(b)))) });
impl Lst<RegionVid> {
  pub open spec fn max(self) -> Opt<RegionVid> {
    if self.s.len() == 0 { Opt::None } else { Opt::Some(choose|m: RegionVid| self.has(m) && forall|x: RegionVid| #[trigger] self.has(x) ==> x.i <= m.i) }
  }
}
pub proof fn max_exists(l: Lst<RegionVid>) -> (m: RegionVid) requires l.s.len() > 0 ensures l.has(m), forall|x: RegionVid| #[trigger] l.has(x) ==> x.i <= m.i decreases l.s.len()
{
  let t = Lst { s: l.s.drop_last() };
  assert(l == t.push_upd(l.s.last())) by { assert(l.s =~= t.push_upd(l.s.last()).s); }
  assert forall|x: RegionVid| #[trigger] l.has(x) <==> t.has(x) || x == l.s.last() by { has_push(t, l.s.last(), x); }
  if t.s.len() == 0 { assert forall|x: RegionVid| !t.has(x) by { has_len0(t, x); } l.s.last() } else { let m = max_exists(t); if m.i >= l.s.last().i { m } else { l.s.last() } }
}
pub broadcast proof fn max_is(l: Lst<RegionVid>)
  ensures l.s.len() > 0 ==> (#[trigger] l.max()) is Some && l.has(l.max()->Some_0) && forall|x: RegionVid| #[trigger] l.has(x) ==> x.i <= l.max()->Some_0.i,
    l.s.len() == 0 ==> l.max() is None && forall|x: RegionVid| !#[trigger] l.has(x)
{ if l.s.len() > 0 { let m = max_exists(l); } else { assert forall|x: RegionVid| !#[trigger] l.has(x) by { has_len0(l, x); } } }

@assume GatherBorrows::visit_body
params: self: mut fin: GatherBorrows, body: Body
ensures all: fin.borrows.s == self.borrows.s + all_borrows(body)
@end
@fn GatherBorrows::visit_assign
file: crates/flowistry/src/mir/aliases.rs
params: self: mut fin: GatherBorrows, place: Place, rvalue: Rvalue, location: Location
ensures what: fin.borrows.s == self.borrows.s + borrow_of(rvalue)
@end

/// Regions of the type of the task context of an async body.
pub open spec fn ignored_region(h: AsyncHack, r: RegionVid) -> bool {
  h.context_ty is Some && exists|p: GenericArg| #[trigger] h.context_ty->Some_0.walk().has(p) && match p.kind() { GenericArgKind::Lifetime(l) => l.kind() == RegionKind::ReVar(r), _ => false }
}
@fn AsyncHack::ignore_regions
file: crates/flowistry/src/mir/utils.rs
params: self: AsyncHack
ret: out: HSet<RegionVid>
ensures what: forall|r: RegionVid| #[trigger] out.has(r) <==> ignored_region(self, r)
@end

pub open spec fn target_ty(tcx: TyCtxt, body: Body, p: Place) -> Ty { tcx.mk_place_deref(p).ty(body.local_decls(), tcx).ty }
/// Pointers to the same type, in different regions.
pub open spec fn same_target(tcx: TyCtxt, body: Body, m: HMap<RegionVid, Lst<(Place, Mutability)>>, a: RegionVid, b: RegionVid) -> bool {
  a != b
  && exists|p: (Place, Mutability), q: (Place, Mutability)| #[trigger] lhas(m, a, p) && #[trigger] lhas(m, b, q) && target_ty(tcx, body, p.0) == target_ty(tcx, body, q.0)
}
@fn generate_conservative_constraints
file: crates/flowistry/src/mir/aliases.rs
params: tcx: TyCtxt, body: Body, region_to_pointers: HMap<RegionVid, Lst<(Place, Mutability)>>
ret: out: Lst<(RegionVid, RegionVid)>
uses: mapsets
ensures what: forall|a: RegionVid, b: RegionVid| #[trigger] out.has((a, b)) <==> same_target(tcx, body, region_to_pointers, a, b)
post:
  assert forall|a: RegionVid, b: RegionVid| #[trigger] out.has((a, b)) implies same_target(tcx, body, region_to_pointers, a, b) by { assert(cand((a, b))); }
  assert forall|a: RegionVid, b: RegionVid| #[trigger] same_target(tcx, body, region_to_pointers, a, b) implies out.has((a, b)) by {
    assert(cand((a, b)));
    let (p, q) = choose|p: (Place, Mutability), q: (Place, Mutability)| #[trigger] lhas(region_to_pointers, a, p) && #[trigger] lhas(region_to_pointers, b, q) && target_ty(tcx, body, p.0) == target_ty(tcx, body, q.0);
    let ea = (a, region_to_pointers.at(a));
    let eb = (b, region_to_pointers.at(b));
    assert(region_to_pointers.iter().has(ea) && region_to_pointers.iter().has(eb));
    assert(cand(ea) && cand(eb));
    assert(ea.1.has(p) && eb.1.has(q));
  }
@end

// What the points-to sets are computed from.
pub struct LCtx { pub tcx: TyCtxt, pub def_id: DefId, pub bf: BodyWithBorrowckFacts, pub sel: spec_fn(RegionVid, RegionVid, int) -> bool }
/// The pointers inside a local variable, by region.
pub open spec fn ptrs_in(c: LCtx, l: Local) -> HMap<RegionVid, Lst<(Place, Mutability)>> { Place::from_local(l, c.tcx).interior_pointers(c.tcx, c.bf.body, c.def_id) }
pub open spec fn ptr_region(c: LCtx, r: RegionVid) -> bool { exists|l: Local| c.bf.body.local_decls().indices().has(l) && #[trigger] ptrs_in(c, l).has_key(r) }
/// `x` is a pointer in region `r` inside some local.
pub open spec fn pointer(c: LCtx, r: RegionVid, x: (Place, Mutability)) -> bool {
  exists|l: Local| c.bf.body.local_decls().indices().has(l) && #[trigger] ptrs_in(c, l).has_key(r) && ptrs_in(c, l).at(r).has(x)
}
/// The borrow checker's facts that region `a` flows into region `b`.
pub open spec fn fact(c: LCtx, a: RegionVid, b: RegionVid) -> bool {
  exists|i: int| #[trigger] c.bf.input_facts.unwrap().subset_base.has((a, b, i)) && (c.sel)(a, b, i)
}
pub open spec fn occurs(c: LCtx, r: RegionVid) -> bool {
  r != UNKNOWN_REGION && (ptr_region(c, r) || (exists|q: RegionVid| #[trigger] fact(c, r, q)) || (exists|q: RegionVid| #[trigger] fact(c, q, r)))
}
/// Regions are numbered below `n`.
pub open spec fn region_bound(c: LCtx, n: int) -> bool {
  n >= 1 && (forall|r: RegionVid| #[trigger] occurs(c, r) ==> r.i < n) && (n == 1 || exists|r: RegionVid| #[trigger] occurs(c, r) && r.i == n - 1)
}
pub open spec fn region_count(c: LCtx) -> int { choose|n: int| region_bound(c, n) }
pub proof fn region_count_is(c: LCtx, n: int) requires region_bound(c, n) ensures region_count(c) == n { }
/// With conservative pointers, all pointers to the same type may point to the same things.
pub open spec fn same_type(c: LCtx, a: RegionVid, b: RegionVid) -> bool {
  a != b && a != UNKNOWN_REGION && b != UNKNOWN_REGION
  && exists|p: (Place, Mutability), q: (Place, Mutability)| #[trigger] pointer(c, a, p) && #[trigger] pointer(c, b, q) && target_ty(c.tcx, c.bf.body, p.0) == target_ty(c.tcx, c.bf.body, q.0)
}
pub open spec fn conservative() -> bool { match active_mode() { Opt::Some(m) => m.pointer_mode is Conservative, Opt::None => false } }
/// `a` flows into `b` (`cons`: with conservative pointers).
pub open spec fn flows_in(cons: bool, c: LCtx, a: RegionVid, b: RegionVid) -> bool {
  let h = AsyncHack { context_ty: c.bf.body.async_context(c.tcx, c.def_id), tcx: c.tcx, body: c.bf.body };
  a.i < region_count(c) && b.i < region_count(c)
  && ((fact(c, a, b) && !ignored_region(h, a) && !ignored_region(h, b)) || a.i == 0 || (cons && same_type(c, a, b)))
}
#[verifier::opaque]
pub open spec fn flows(c: LCtx, a: RegionVid, b: RegionVid) -> bool { flows_in(conservative(), c, a, b) }
/// The type at the last pointer a borrowed place goes through, and the path from there.
pub open spec fn narrowing(c: LCtx, p: Place) -> (Ty, Lst<PlaceElem>) {
  match p.refs_in_projection(c.bf.body, c.tcx).next() {
    Opt::Some((ptr, proj)) => (ptr.ty(c.bf.body.local_decls(), c.tcx).ty.builtin_deref(true).unwrap(), proj),
    Opt::None => (c.bf.body.local_decls().idx(p.local).ty, p.projection),
  }
}
/// Narrowing by the borrow of a region (rustc gives each borrow its own region).
pub open spec fn narrowed(c: LCtx, bs: Seq<(RegionVid, BorrowKind, Place)>, r: RegionVid) -> Opt<(Ty, Lst<PlaceElem>)> decreases bs.len() {
  if bs.len() == 0 { Opt::None } else if bs.last().0 == r { Opt::Some(narrowing(c, bs.last().2)) } else { narrowed(c, bs.drop_last(), r) }
}
pub proof fn narrowed_step(c: LCtx, s: Seq<(RegionVid, BorrowKind, Place)>, m: int, n: int)
  requires 0 <= m < s.len(), n == m + 1
  ensures forall|r: RegionVid| #[trigger] narrowed(c, s.take(n), r) == if s[m].0 == r { Opt::Some(narrowing(c, s[m].2)) } else { narrowed(c, s.take(m), r) }
{ assert(s.take(n).drop_last() =~= s.take(m)); }
pub open spec fn in_cycle(c: LCtx, a: RegionVid, b: RegionVid) -> bool {
  let g = |x: RegionVid, y: RegionVid| flows(c, x, y);
  reaches(g, a, b) && reaches(g, b, a)
}
/// What becomes of `x` when it flows from `a` into `b`.
#[verifier::opaque]
pub open spec fn flown(c: LCtx, a: RegionVid, b: RegionVid, x: (Place, Mutability)) -> (Place, Mutability) {
  match narrowed(c, all_borrows(c.bf.body), b) {
    Opt::Some((ty, proj)) => if !in_cycle(c, a, b) && ty == x.0.ty(c.bf.body.local_decls(), c.tcx).ty { (x.0.project_deeper(proj, c.tcx), x.1) } else { x },
    Opt::None => x,
  }
}
pub open spec fn borrowed(c: LCtx, r: RegionVid, x: (Place, Mutability)) -> bool {
  exists|k: BorrowKind| #[trigger] (Lst { s: all_borrows(c.bf.body) }).has((r, k, x.0)) && x.0.is_direct(c.bf.body, c.tcx) && x.1 == k.to_mutbl_lossy()
}
/// The referents of references that are at most two projections deep.
pub open spec fn shallow_referent(c: LCtx, ps: Lst<(Place, Mutability)>, x: (Place, Mutability)) -> bool {
  exists|p: (Place, Mutability)| #[trigger] ps.has(p) && p.0.projection.len() <= 2 && x == (c.tcx.mk_place_deref(p.0), p.1)
}
pub open spec fn deep_referent(c: LCtx, ps: Lst<(Place, Mutability)>, x: (Place, Mutability)) -> bool {
  exists|p: (Place, Mutability)| #[trigger] ps.has(p) && x == (c.tcx.mk_place_deref(p.0), Mutability::Mut)
}
pub open spec fn local_referent(c: LCtx, l: Local, r: RegionVid, x: (Place, Mutability)) -> bool { ptrs_in(c, l).has_key(r) && shallow_referent(c, ptrs_in(c, l).at(r), x) }
/// The referents of the references (at most two projections deep) inside the arguments.
pub open spec fn arg_referent(c: LCtx, r: RegionVid, x: (Place, Mutability)) -> bool { exists|l: Local| c.bf.body.args_iter().has(l) && #[trigger] local_referent(c, l, r, x) }
/// Everything behind a box or a raw pointer.
pub open spec fn unknown_referent(c: LCtx, r: RegionVid, x: (Place, Mutability)) -> bool {
  r == UNKNOWN_REGION && exists|p: (Place, Mutability)| #[trigger] pointer(c, r, p) && x == (c.tcx.mk_place_deref(p.0), Mutability::Mut)
}
#[verifier::opaque]
pub open spec fn first_loan(c: LCtx, r: RegionVid, x: (Place, Mutability)) -> bool { borrowed(c, r, x) || arg_referent(c, r, x) || unknown_referent(c, r, x) }
/// Contains the initial places, and what flows into each region.
pub open spec fn admits(c: LCtx, j: spec_fn(RegionVid, (Place, Mutability)) -> bool) -> bool {
  (forall|r: RegionVid, x: (Place, Mutability)| #[trigger] first_loan(c, r, x) ==> j(r, x))
  && forall|a: RegionVid, b: RegionVid, x: (Place, Mutability)| #[trigger] flows(c, a, b) && a != b && #[trigger] j(a, x) ==> j(b, flown(c, a, b, x))
}
pub open spec fn has_first(c: LCtx, m: LoanMap) -> bool { forall|r: RegionVid, x: (Place, Mutability)| #[trigger] first_loan(c, r, x) ==> mhas(m, r, x) }
pub open spec fn closed_on(c: LCtx, m: LoanMap, done: spec_fn(RegionVid) -> bool) -> bool {
  forall|a: RegionVid, b: RegionVid, x: (Place, Mutability)| #[trigger] flows(c, a, b) && a != b && done(a) && #[trigger] mhas(m, a, x) ==> mhas(m, b, flown(c, a, b, x))
}
pub open spec fn minimal(c: LCtx, m: LoanMap) -> bool {
  forall|j: spec_fn(RegionVid, (Place, Mutability)) -> bool, r: RegionVid, x: (Place, Mutability)| #[trigger] admits(c, j) && #[trigger] mhas(m, r, x) ==> j(r, x)
}
pub open spec fn keyed(c: LCtx, m: LoanMap) -> bool { forall|r: RegionVid| r.i < region_count(c) ==> #[trigger] m.has_key(r) }
/// The points-to sets: the least sets that contain the initial places and are closed under flow.
pub open spec fn points_to(c: LCtx, m: LoanMap) -> bool { has_first(c, m) && closed_on(c, m, |a: RegionVid| true) && minimal(c, m) }

/// Flow from a region, once everything it contains has flowed.
pub open spec fn stepped(c: LCtx, m: LoanMap, n: LoanMap, a: RegionVid, b: RegionVid) -> bool {
  (forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(m, r, x) ==> mhas(n, r, x))
  && (forall|x: (Place, Mutability)| #[trigger] mhas(m, a, x) ==> mhas(n, b, flown(c, a, b, x)))
  && (forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(n, r, x) ==> mhas(m, r, x) || (r == b && exists|y: (Place, Mutability)| #[trigger] mhas(m, a, y) && x == flown(c, a, b, y)))
}
/// Everything in the components in `done` has flowed.
#[verifier::opaque]
pub open spec fn settled(c: LCtx, m: LoanMap, done: spec_fn(RegionVid) -> bool) -> bool {
  keyed(c, m) && has_first(c, m) && minimal(c, m) && closed_on(c, m, done)
}
pub open spec fn earlier(order: Lst<RegionSccIndex>, scc: spec_fn(RegionVid) -> RegionSccIndex, cur: RegionSccIndex) -> spec_fn(RegionVid) -> bool { |a: RegionVid| precedes(order, scc(a), cur) }
#[verifier::opaque]
pub open spec fn going(c: LCtx, m: LoanMap, order: Lst<RegionSccIndex>, scc: spec_fn(RegionVid) -> RegionSccIndex, cur: RegionSccIndex) -> bool { settled(c, m, earlier(order, scc, cur)) }
/// Everything in `a` has flowed into `b`, and into every region.
pub open spec fn flowed(c: LCtx, m: LoanMap, a: RegionVid, b: RegionVid) -> bool { forall|x: (Place, Mutability)| #[trigger] mhas(m, a, x) ==> mhas(m, b, flown(c, a, b, x)) }
#[verifier::opaque]
pub open spec fn flowed_all(c: LCtx, m: LoanMap, a: RegionVid) -> bool { forall|b: RegionVid| #[trigger] flows(c, a, b) && a != b ==> flowed(c, m, a, b) }
#[verifier::opaque]
pub open spec fn same_loans(m: LoanMap, n: LoanMap) -> bool { forall|r: RegionVid, x: (Place, Mutability)| #![trigger mhas(m, r, x)] #![trigger mhas(n, r, x)] mhas(m, r, x) <==> mhas(n, r, x) }
pub proof fn flowed_same(c: LCtx, m: LoanMap, n: LoanMap, a: RegionVid) requires same_loans(m, n), flowed_all(c, m, a) ensures flowed_all(c, n, a)
{ reveal(same_loans); reveal(flowed_all);
  assert forall|b: RegionVid| #[trigger] flows(c, a, b) && a != b implies flowed(c, n, a, b) by { assert(flowed(c, m, a, b)); } }
pub proof fn going_keyed(c: LCtx, m: LoanMap, order: Lst<RegionSccIndex>, scc: spec_fn(RegionVid) -> RegionSccIndex, cur: RegionSccIndex) requires going(c, m, order, scc, cur) ensures keyed(c, m)
{ reveal(going); reveal(settled); }
pub proof fn settled_start(c: LCtx, m: LoanMap, order: Lst<RegionSccIndex>, scc: spec_fn(RegionVid) -> RegionSccIndex)
  requires keyed(c, m), forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(m, r, x) <==> first_loan(c, r, x)
  ensures settled(c, m, |a: RegionVid| order.took(0, scc(a)))
{ broadcast use lists; reveal(settled);
  assert forall|j: spec_fn(RegionVid, (Place, Mutability)) -> bool, r: RegionVid, x: (Place, Mutability)| #[trigger] admits(c, j) && #[trigger] mhas(m, r, x) implies j(r, x) by { assert(first_loan(c, r, x)); } }
pub proof fn settled_enter(c: LCtx, m: LoanMap, order: Lst<RegionSccIndex>, scc: spec_fn(RegionVid) -> RegionSccIndex, n: int)
  requires settled(c, m, |a: RegionVid| order.took(n, scc(a))), topological(c, order, scc), 0 <= n < order.s.len()
  ensures going(c, m, order, scc, order.s[n])
{ reveal(topological); reveal(settled); reveal(going); assert forall|a: RegionVid| #[trigger] precedes(order, scc(a), order.s[n]) <==> order.took(n, scc(a)) by { took_before(order, n, scc(a)); } }
pub proof fn settled_leave(c: LCtx, m: LoanMap, order: Lst<RegionSccIndex>, scc: spec_fn(RegionVid) -> RegionSccIndex, n: int)
  requires going(c, m, order, scc, order.s[n]), forall|a: RegionVid| scc(a) == order.s[n] && a.i < region_count(c) ==> #[trigger] flowed_all(c, m, a), topological(c, order, scc), 0 <= n < order.s.len()
  ensures settled(c, m, |a: RegionVid| order.took(n + 1, scc(a)))
{
  reveal(topological); reveal(settled); reveal(going); reveal(flowed_all); reveal(flows);
  took_step(order, n);
  assert forall|a: RegionVid, b: RegionVid, x: (Place, Mutability)| #[trigger] flows(c, a, b) && a != b && order.took(n + 1, scc(a)) && #[trigger] mhas(m, a, x) implies mhas(m, b, flown(c, a, b, x)) by {
    took_before(order, n, scc(a));
    if order.took(n, scc(a)) { assert(earlier(order, scc, order.s[n])(a)); } else { assert(flowed_all(c, m, a)); assert(flowed(c, m, a, b)); }
  }
}
pub proof fn settled_end(c: LCtx, m: LoanMap, order: Lst<RegionSccIndex>, scc: spec_fn(RegionVid) -> RegionSccIndex, n: int)
  requires settled(c, m, |a: RegionVid| order.took(n, scc(a))), topological(c, order, scc), n >= order.s.len()
  ensures points_to(c, m)
{ reveal(topological); reveal(settled); reveal(flows); took_done(order, n);
  assert forall|a: RegionVid, b: RegionVid| #[trigger] flows(c, a, b) implies order.took(n, scc(a)) by { assert(order.has(scc(a))); } }
#[verifier::opaque]
pub open spec fn topological(c: LCtx, order: Lst<RegionSccIndex>, scc: spec_fn(RegionVid) -> RegionSccIndex) -> bool {
  (forall|i: int, j: int| 0 <= i < order.s.len() && 0 <= j < order.s.len() && #[trigger] order.s[i] == #[trigger] order.s[j] ==> i == j)
  && (forall|r: RegionVid| r.i < region_count(c) ==> order.has(#[trigger] scc(r)))
  && (forall|a: RegionVid, b: RegionVid| #[trigger] flows(c, a, b) ==> scc(a) == scc(b) || precedes(order, scc(a), scc(b)))
}
pub proof fn step(c: LCtx, m: LoanMap, n: LoanMap, order: Lst<RegionSccIndex>, scc: spec_fn(RegionVid) -> RegionSccIndex, a: RegionVid, b: RegionVid)
  requires going(c, m, order, scc, scc(a)), topological(c, order, scc), flows(c, a, b), a != b, stepped(c, m, n, a, b), keyed(c, n)
  ensures going(c, n, order, scc, scc(a))
{
  reveal(going); reveal(settled); reveal(topological);
  let d = earlier(order, scc, scc(a));
  assert forall|x: RegionVid, y: RegionVid, v: (Place, Mutability)| #[trigger] flows(c, x, y) && x != y && d(x) && #[trigger] mhas(n, x, v) implies mhas(n, y, flown(c, x, y, v)) by {
    if x == b { assert(scc(a) == scc(b) || precedes(order, scc(a), scc(b))); }
    assert(mhas(m, x, v));
    assert(mhas(m, y, flown(c, x, y, v)));
  }
  assert forall|j: spec_fn(RegionVid, (Place, Mutability)) -> bool, r: RegionVid, x: (Place, Mutability)| #[trigger] admits(c, j) && #[trigger] mhas(n, r, x) implies j(r, x) by {
    if !mhas(m, r, x) { let y = choose|y: (Place, Mutability)| #[trigger] mhas(m, a, y) && x == flown(c, a, b, y); assert(j(a, y)); }
  }
}

#[verifier::opaque]
pub open spec fn same_scc(c: LCtx, scc: spec_fn(RegionVid) -> RegionSccIndex) -> bool {
  forall|a: RegionVid, b: RegionVid| a.i < region_count(c) && b.i < region_count(c) ==> (#[trigger] scc(a) == #[trigger] scc(b) <==> in_cycle(c, a, b))
}
pub proof fn sccs_are(c: LCtx, s: Sccs<RegionVid, RegionSccIndex>, from: RegionVid)
  requires s == Sccs::<RegionVid, RegionSccIndex>::new(s.g), s.g.n == region_count(c), from.i == 0, forall|a: RegionVid, b: RegionVid| #[trigger] s.g.edges.has((a, b)) <==> flows(c, a, b)
  ensures topological(c, reverse_post_order(s, s.scc(from)), s.of), same_scc(c, s.of)
{
  reveal(topological); reveal(same_scc); reveal(flows);
  sccs_ax(s, from);
  let order = reverse_post_order(s, s.scc(from));
  assert forall|r: RegionVid| r.i < region_count(c) implies order.has(#[trigger] (s.of)(r)) by { assert(flows(c, from, r)); assert(s.g.edges.has((from, r))); assert(s.scc(r) == (s.of)(r)); }
  assert forall|a: RegionVid, b: RegionVid| #[trigger] flows(c, a, b) implies (s.of)(a) == (s.of)(b) || precedes(order, (s.of)(a), (s.of)(b)) by {
    assert(s.g.edges.has((a, b))); assert(order.has((s.of)(a))); assert(s.scc(a) == (s.of)(a) && s.scc(b) == (s.of)(b)); }
  assert forall|a: RegionVid, b: RegionVid| a.i < region_count(c) && b.i < region_count(c) implies (#[trigger] (s.of)(a) == #[trigger] (s.of)(b) <==> in_cycle(c, a, b)) by {
    let g = |x: RegionVid, y: RegionVid| flows(c, x, y);
    assert(s.scc(a) == (s.of)(a) && s.scc(b) == (s.of)(b));
    assert(reaches(g, a, b) || !reaches(g, a, b));
  }
}
/// What the fixpoint works with.
pub open spec fn graph(c: LCtx, definite: HMap<RegionVid, (Ty, Lst<PlaceElem>)>, subset: SparseBitMatrix, scc_to_regions: LMap<HSet<RegionVid>, RegionSccIndex>, scc: spec_fn(RegionVid) -> RegionSccIndex) -> bool {
  (forall|r: RegionVid| #[trigger] definite.get(r) == narrowed(c, all_borrows(c.bf.body), r))
  && (forall|a: RegionVid, b: RegionVid| #[trigger] subset.has(a, b) <==> flows(c, a, b))
  && (forall|k: RegionSccIndex, r: RegionVid| #[trigger] scc_to_regions.idx(k).has(r) <==> r.i < region_count(c) && scc(r) == k)
  && same_scc(c, scc)
}
@fn Aliases::compute_loans
file: crates/flowistry/src/mir/aliases.rs
params: tcx: TyCtxt, def_id: DefId, body_with_facts: BodyWithBorrowckFacts, constraint_selector: spec_fn(RegionVid, RegionVid, int) -> bool
ret: out: HMap<RegionVid, HSet<(Place, Mutability)>>
uses: mapsets, bits, max_is, queues
ensures all: points_to(LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }, out)
ghost: ctx_ = LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }
loop 0
  before: assert forall|r: RegionVid| #[trigger] ptr_region(ctx_, r) implies exists|x: (RegionVid, Lst<(Place, Mutability)>)| #[trigger] V(all_pointers).has(x) && x.0 == r by {
      let l = choose|l: Local| body_with_facts.body.local_decls().indices().has(l) && #[trigger] ptrs_in(ctx_, l).has_key(r);
      assert(ptrs_in(ctx_, l).iter().has((r, ptrs_in(ctx_, l).at(r))));
      assert(cand((r, ptrs_in(ctx_, l).at(r))));
    }
    assert forall|x: (RegionVid, Lst<(Place, Mutability)>)| #[trigger] V(all_pointers).has(x) implies ptr_region(ctx_, x.0) by {
      assert(cand(x));
      let l = choose|l: Local| #[trigger] body_with_facts.body.local_decls().indices().has(l) && ptrs_in(ctx_, l).iter().has(x);
      assert(ptrs_in(ctx_, l).has_key(x.0));
    }
    assert forall|a: RegionVid, b: RegionVid, i: int| #[trigger] V(subset_base).has((a, b, i)) <==> body_with_facts.input_facts.unwrap().subset_base.has((a, b, i)) && constraint_selector(a, b, i) by { assert(cand((a, b, i))); }
    assert forall|r: RegionVid| #[trigger] occurs(ctx_, r) implies r.i <= V(max_region).i by {
      assert(cand(r));
      if ptr_region(ctx_, r) { }
      else if exists|q: RegionVid| #[trigger] fact(ctx_, r, q) {
        let q = choose|q: RegionVid| #[trigger] fact(ctx_, r, q);
        let i = choose|i: int| #[trigger] body_with_facts.input_facts.unwrap().subset_base.has((r, q, i)) && constraint_selector(r, q, i);
        assert(V(subset_base).has((r, q, i)));
      } else {
        let q = choose|q: RegionVid| #[trigger] fact(ctx_, q, r);
        let i = choose|i: int| #[trigger] body_with_facts.input_facts.unwrap().subset_base.has((q, r, i)) && constraint_selector(q, r, i);
        assert(V(subset_base).has((q, r, i)));
      }
    }
    assert(V(max_region) == V(static_region) || occurs(ctx_, V(max_region))) by {
      let r = V(max_region);
      assert(cand(r));
      if r != V(static_region) {
        assert(r != UNKNOWN_REGION);
        assert((exists|x: (RegionVid, Lst<(Place, Mutability)>)| #[trigger] V(all_pointers).has(x) && x.0 == r) || exists|x: (RegionVid, RegionVid, int)| #[trigger] V(subset_base).has(x) && (x.0 == r || x.1 == r));
        if exists|x: (RegionVid, Lst<(Place, Mutability)>)| #[trigger] V(all_pointers).has(x) && x.0 == r { assert(occurs(ctx_, r)); }
        else {
          let x = choose|x: (RegionVid, RegionVid, int)| #[trigger] V(subset_base).has(x) && (x.0 == r || x.1 == r);
          assert(V(subset_base).has((x.0, x.1, x.2)));
          assert(fact(ctx_, x.0, x.1));
        }
      }
    }
    region_count_is(ctx_, V(num_regions));
  inv: V(subset).n == region_count(ctx_),
    forall|a: RegionVid, b: RegionVid| #[trigger] V(subset).has(a, b) <==> a.i < region_count(ctx_) && b.i < region_count(ctx_) && !V(ignore_regions).has(a) && !V(ignore_regions).has(b) && exists|i: int| #[trigger] SEEN((a, b, i)),
  after: assert(forall|a: RegionVid, b: RegionVid| #[trigger] V(subset).has(a, b) <==> a.i < region_count(ctx_) && b.i < region_count(ctx_) && !V(ignore_regions).has(a) && !V(ignore_regions).has(b) && fact(ctx_, a, b));
loop 1
  inv: V(subset).n == region_count(ctx_),
    forall|a: RegionVid, b: RegionVid| #[trigger] V(subset).has(a, b) <==> OLD(subset).has(a, b) || (a.i == 0 && b.i < region_count(ctx_) && SEEN(b)),
  after: assert forall|r: RegionVid| #[trigger] V(all_regions).has(r) <==> r.i < region_count(ctx_) by { assert(cand(r)); assert(r.i < region_count(ctx_) ==> RegionVid::from_usize(r.i as int) == r); assert(cand(r.i as int)); }
loop 2
  inv: forall|r: RegionVid, x: (Place, Mutability)| #[trigger] lhas(V(region_to_pointers), r, x) <==> r != UNKNOWN_REGION && exists|l: Lst<(Place, Mutability)>| #[trigger] SEEN((r, l)) && l.has(x),
  after: assert forall|r: RegionVid, x: (Place, Mutability)| r != UNKNOWN_REGION && #[trigger] pointer(ctx_, r, x) implies lhas(V(region_to_pointers), r, x) by {
      let l = choose|l: Local| body_with_facts.body.local_decls().indices().has(l) && #[trigger] ptrs_in(ctx_, l).has_key(r) && ptrs_in(ctx_, l).at(r).has(x);
      let e = (r, ptrs_in(ctx_, l).at(r));
      assert(ptrs_in(ctx_, l).iter().has(e));
      assert(cand(e));
      assert($IT.has(e));
      assert(SEEN(e));
    }
    assert forall|r: RegionVid, x: (Place, Mutability)| #[trigger] lhas(V(region_to_pointers), r, x) implies r != UNKNOWN_REGION && pointer(ctx_, r, x) by {
      let ps = choose|l: Lst<(Place, Mutability)>| #[trigger] SEEN((r, l)) && l.has(x);
      assert(V(all_pointers).has((r, ps)));
      assert(cand((r, ps)));
      let l = choose|l: Local| #[trigger] body_with_facts.body.local_decls().indices().has(l) && ptrs_in(ctx_, l).iter().has((r, ps));
      assert(ptrs_in(ctx_, l).has_key(r));
    }
loop 3
  inv: V(subset).n == region_count(ctx_),
    forall|a: RegionVid, b: RegionVid| #[trigger] V(subset).has(a, b) <==> OLD(subset).has(a, b) || (a.i < region_count(ctx_) && b.i < region_count(ctx_) && SEEN((a, b))),
  after: assert forall|a: RegionVid, b: RegionVid| same_target(tcx, body_with_facts.body, V(region_to_pointers), a, b) <==> #[trigger] same_type(ctx_, a, b) by {
      if same_type(ctx_, a, b) {
        let (p, q) = choose|p: (Place, Mutability), q: (Place, Mutability)| #[trigger] pointer(ctx_, a, p) && #[trigger] pointer(ctx_, b, q) && target_ty(tcx, body_with_facts.body, p.0) == target_ty(tcx, body_with_facts.body, q.0);
        assert(lhas(V(region_to_pointers), a, p) && lhas(V(region_to_pointers), b, q));
      }
    }
    assert forall|a: RegionVid, b: RegionVid| #[trigger] V(subset).has(a, b) <==> OLD(subset).has(a, b) || (a.i < region_count(ctx_) && b.i < region_count(ctx_) && same_type(ctx_, a, b)) by {
      assert($IT.has((a, b)) <==> same_type(ctx_, a, b));
    }
loop 4
  before: reveal(flows);
    assert(V(subset).n == region_count(ctx_));
    assert(forall|a: RegionVid, b: RegionVid| #[trigger] V(subset).has(a, b) <==> flows(ctx_, a, b));
    assert($IT.s =~= all_borrows(body_with_facts.body));
  isolate: yes
  inv: ctx_ == (LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }), V(body) == body_with_facts.body,
    forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> x.0.is_direct(body_with_facts.body, tcx) && exists|k: BorrowKind| #[trigger] SEEN((r, k, x.0)) && x.1 == k.to_mutbl_lossy(),
    forall|r: RegionVid| #[trigger] V(definite).get(r) == narrowed(ctx_, $IT.s.take($I), r),
  begin: narrowed_step(ctx_, $IT.s, $I - 1, $I);
    assert(forall|r: RegionVid| #[trigger] V(definite).get(r) == narrowed(ctx_, $IT.s.take($I - 1), r));
  end: assert(V(definite) == BEG(definite).insert_upd(V(region), narrowing(ctx_, V(place))));
  after: assert($IT.s.take($I) =~= $IT.s);
    assert(forall|r: RegionVid| #[trigger] V(definite).get(r) == narrowed(ctx_, all_borrows(body_with_facts.body), r));
    assert forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) implies borrowed(ctx_, r, x) by { }
    assert forall|r: RegionVid, x: (Place, Mutability)| #[trigger] borrowed(ctx_, r, x) implies mhas(V(contains), r, x) by { }
loop 5
  isolate: yes
  inv: ctx_ == (LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }), V(body) == body_with_facts.body,
    forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(OLD(contains), r, x) || exists|l: Local| SEEN(l) && #[trigger] local_referent(ctx_, l, r, x),
  end: assert forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(BEG(contains), r, x) || local_referent(ctx_, V(arg), r, x) by {
      assert(mhas(BEG(contains), r, x) || true);
    }
  after: assert(forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> borrowed(ctx_, r, x) || arg_referent(ctx_, r, x));
loop 6
  isolate: yes
  inv: ctx_ == (LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }), V(body) == body_with_facts.body,
    $IT == ptrs_in(ctx_, V(arg)).iter(),
    forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(OLD(contains), r, x) || exists|ps: Lst<(Place, Mutability)>| SEEN((r, ps)) && #[trigger] shallow_referent(ctx_, ps, x),
  after: assert forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(OLD(contains), r, x) || local_referent(ctx_, V(arg), r, x) by {
      let m = ptrs_in(ctx_, V(arg));
      if local_referent(ctx_, V(arg), r, x) { assert($IT.has((r, m.at(r)))); assert(shallow_referent(ctx_, m.at(r), x)); }
    }
loop 7
  isolate: yes
  inv: ctx_ == (LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }), V(body) == body_with_facts.body,
    forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(OLD(contains), r, x) || (r == V(region) && exists|p: (Place, Mutability)| #[trigger] SEEN(p) && p.0.projection.len() <= 2 && x == (tcx.mk_place_deref(p.0), p.1)),
  after: assert forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(OLD(contains), r, x) || (r == V(region) && shallow_referent(ctx_, V(places), x)) by { }
loop 8
  isolate: yes
  inv: ctx_ == (LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }), V(body) == body_with_facts.body,
    forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(OLD(contains), r, x) || (r == UNKNOWN_REGION && exists|ps: Lst<(Place, Mutability)>| SEEN((r, ps)) && #[trigger] deep_referent(ctx_, ps, x)),
  end: assert(forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(BEG(contains), r, x) || (r == UNKNOWN_REGION && V(region) == r && deep_referent(ctx_, V(places), x)));
  after: assert forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) implies mhas(OLD(contains), r, x) || unknown_referent(ctx_, r, x) by {
      if !mhas(OLD(contains), r, x) {
        let ps = choose|ps: Lst<(Place, Mutability)>| SEEN((r, ps)) && #[trigger] deep_referent(ctx_, ps, x);
        let p = choose|p: (Place, Mutability)| #[trigger] ps.has(p) && x == (tcx.mk_place_deref(p.0), Mutability::Mut);
        assert(V(all_pointers).has((r, ps)));
        assert(cand((r, ps)));
        let l = choose|l: Local| #[trigger] body_with_facts.body.local_decls().indices().has(l) && ptrs_in(ctx_, l).iter().has((r, ps));
        assert(ptrs_in(ctx_, l).has_key(r));
        assert(pointer(ctx_, r, p));
      }
    }
    assert forall|r: RegionVid, x: (Place, Mutability)| #[trigger] unknown_referent(ctx_, r, x) implies mhas(V(contains), r, x) by {
      let p = choose|p: (Place, Mutability)| #[trigger] pointer(ctx_, r, p) && x == (tcx.mk_place_deref(p.0), Mutability::Mut);
      let l = choose|l: Local| body_with_facts.body.local_decls().indices().has(l) && #[trigger] ptrs_in(ctx_, l).has_key(r) && ptrs_in(ctx_, l).at(r).has(p);
      let e = (r, ptrs_in(ctx_, l).at(r));
      assert(ptrs_in(ctx_, l).iter().has(e));
      assert(cand(e));
      assert($IT.has(e));
      assert(SEEN(e));
      assert(deep_referent(ctx_, e.1, x));
    }
    reveal(first_loan);
    assert(forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> first_loan(ctx_, r, x));
loop 9
  isolate: yes
  inv: ctx_ == (LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }), V(body) == body_with_facts.body,
    forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(OLD(contains), r, x) || (r == UNKNOWN_REGION && exists|p: (Place, Mutability)| #[trigger] SEEN(p) && x == (tcx.mk_place_deref(p.0), Mutability::Mut)),
  after: assert(forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(OLD(contains), r, x) || (r == UNKNOWN_REGION && deep_referent(ctx_, V(places), x)));
loop 10
  isolate: yes
  inv: forall|k: RegionSccIndex, r: RegionVid| #[trigger] V(scc_to_regions).idx(k).has(r) <==> SEEN(r) && V(subset_sccs).scc(r) == k,
loop 11
  isolate: yes
  inv: forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(OLD(contains), r, x),
    forall|r: RegionVid| #[trigger] SEEN(r) ==> V(contains).has_key(r),
  after: assert forall|r: RegionVid| r.i < region_count(ctx_) implies #[trigger] V(contains).has_key(r) by { assert($IT.has(r)); assert(SEEN(r)); }
loop 12
  before: assert forall|a: RegionVid, b: RegionVid| #[trigger] V(edge_pairs).has((a, b)) <==> flows(ctx_, a, b) by {
      assert(cand((a, b)));
      assert(cand(a)); assert(cand(b));
      assert(V(subset).has(a, b) <==> flows(ctx_, a, b));
      reveal(flows);
    }
    sccs_are(ctx_, V(subset_sccs), V(static_region));
    assert(V(scc_order) == $IT);
    settled_start(ctx_, V(contains), V(scc_order), V(subset_sccs).of);
    assert(graph(ctx_, V(definite), V(subset), V(scc_to_regions), V(subset_sccs).of));
  isolate: yes
  inv: ctx_ == (LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }), V(body) == body_with_facts.body,
    graph(ctx_, V(definite), V(subset), V(scc_to_regions), V(subset_sccs).of), topological(ctx_, V(scc_order), V(subset_sccs).of),
    V(scc_order) == $IT, settled(ctx_, V(contains), |a: RegionVid| V(scc_order).took($I, (V(subset_sccs).of)(a))),
  begin: settled_enter(ctx_, V(contains), V(scc_order), V(subset_sccs).of, $I - 1);
  end: settled_leave(ctx_, V(contains), V(scc_order), V(subset_sccs).of, $I - 1);
  after: settled_end(ctx_, V(contains), V(scc_order), V(subset_sccs).of, $I);
loop 13
  inv: ctx_ == (LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }), V(body) == body_with_facts.body,
    graph(ctx_, V(definite), V(subset), V(scc_to_regions), V(subset_sccs).of), topological(ctx_, V(scc_order), V(subset_sccs).of),
    going(ctx_, V(contains), V(scc_order), V(subset_sccs).of, V(scc_idx)),
  ens: forall|a: RegionVid| (V(subset_sccs).of)(a) == V(scc_idx) && a.i < region_count(ctx_) ==> #[trigger] flowed_all(ctx_, V(contains), a),
loop 14
  isolate: yes
  inv: ctx_ == (LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }), V(body) == body_with_facts.body,
    graph(ctx_, V(definite), V(subset), V(scc_to_regions), V(subset_sccs).of), topological(ctx_, V(scc_order), V(subset_sccs).of),
    going(ctx_, V(contains), V(scc_order), V(subset_sccs).of, V(scc_idx)), V(scc) == V(scc_to_regions).idx(V(scc_idx)),
    $IT == V(scc).iter(),
    forall|a: RegionVid| SEEN(a) && !V(changed) ==> #[trigger] flowed_all(ctx_, V(contains), a),
  begin: assert(V(scc).has(V(a)));
  end: assert forall|a: RegionVid| SEEN(a) && !V(changed) implies #[trigger] flowed_all(ctx_, V(contains), a) by {
      if a != V(a) { flowed_same(ctx_, BEG(contains), V(contains), a); }
    }
  after: assert forall|a: RegionVid| !V(changed) && (V(subset_sccs).of)(a) == V(scc_idx) && a.i < region_count(ctx_) implies #[trigger] flowed_all(ctx_, V(contains), a) by { assert($IT.has(a)); assert(SEEN(a)); }
loop 15
  isolate: yes
  before: assert(same_loans(V(contains), V(contains))) by { reveal(same_loans); }
  inv: ctx_ == (LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }), V(body) == body_with_facts.body,
    graph(ctx_, V(definite), V(subset), V(scc_to_regions), V(subset_sccs).of), topological(ctx_, V(scc_order), V(subset_sccs).of),
    going(ctx_, V(contains), V(scc_order), V(subset_sccs).of, V(scc_idx)), V(scc) == V(scc_to_regions).idx(V(scc_idx)),
    V(a).i < region_count(ctx_), (V(subset_sccs).of)(V(a)) == V(scc_idx),
    $IT == V(subset).iter(V(a)),
    !V(changed) ==> !OLD(changed) && same_loans(OLD(contains), V(contains)),
    forall|b: RegionVid| SEEN(b) && b != V(a) ==> #[trigger] flowed(ctx_, V(contains), V(a), b),
  begin: assert(V(subset).has(V(a), V(b)));
    going_keyed(ctx_, V(contains), V(scc_order), V(subset_sccs).of, V(scc_idx));
    assert(V(b).i < region_count(ctx_)) by { reveal(flows); }
    assert(V(contains).has_key(V(a)) && V(contains).has_key(V(b)));
    assert(V(definite).get(V(b)) == narrowed(ctx_, all_borrows(body_with_facts.body), V(b)));
    assert(V(scc).has(V(b)) <==> in_cycle(ctx_, V(a), V(b))) by { reveal(same_scc); }
  end: assert(V(a) != V(b));
    if in_cycle(ctx_, V(a), V(b)) || narrowed(ctx_, all_borrows(body_with_facts.body), V(b)) is None {
      assert(forall|x: (Place, Mutability)| #[trigger] flown(ctx_, V(a), V(b), x) == x) by { reveal(flown); }
      assert(V(contains) == BEG(contains).insert_upd(V(b), BEG(contains).at(V(b)).extend_upd(BEG(contains).at(V(a)))));
      assert forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(BEG(contains), r, x) || (r == V(b) && mhas(BEG(contains), V(a), x)) by { }
      assert(!V(changed) ==> same_loans(BEG(contains), V(contains))) by { reveal(same_loans); }
    }
    assert(!V(changed) ==> same_loans(OLD(contains), V(contains))) by { reveal(same_loans); }
    assert(stepped(ctx_, BEG(contains), V(contains), V(a), V(b)));
    step(ctx_, BEG(contains), V(contains), V(scc_order), V(subset_sccs).of, V(a), V(b));
    assert forall|b: RegionVid| SEEN(b) && b != V(a) implies #[trigger] flowed(ctx_, V(contains), V(a), b) by {
      if b != V(b) { assert(flowed(ctx_, BEG(contains), V(a), b)); }
    }
  after: assert(flowed_all(ctx_, V(contains), V(a))) by {
      reveal(flowed_all);
      assert forall|b: RegionVid| #[trigger] flows(ctx_, V(a), b) && V(a) != b implies flowed(ctx_, V(contains), V(a), b) by { assert(V(subset).has(V(a), b)); assert($IT.has(b)); assert(SEEN(b)); }
    }
loop 16
  isolate: yes
  before: assert(same_loans(V(contains), V(contains))) by { reveal(same_loans); }
    assert(V(definite).get(V(b)) == Opt::Some((V(ty), V(proj))));
  inv: ctx_ == (LCtx { tcx, def_id, bf: body_with_facts, sel: constraint_selector }), V(body) == body_with_facts.body,
    V(a) != V(b), V(b).i < region_count(ctx_), !in_cycle(ctx_, V(a), V(b)),
    narrowed(ctx_, all_borrows(body_with_facts.body), V(b)) == Opt::Some((V(ty), V(proj))),
    keyed(ctx_, V(contains)),
    !V(changed) ==> !OLD(changed) && same_loans(OLD(contains), V(contains)),
    forall|r: RegionVid, x: (Place, Mutability)| #[trigger] mhas(V(contains), r, x) <==> mhas(OLD(contains), r, x) || (r == V(b) && exists|y: (Place, Mutability)| #[trigger] SEEN(y) && x == flown(ctx_, V(a), V(b), y)),
  begin: reveal(flown); reveal(same_loans);
  end: let v_ = flown(ctx_, V(a), V(b), (V(p), V(mutability)));
    assert(V(contains) == BEG(contains).insert_upd(V(b), BEG(contains).at(V(b)).insert_upd(v_)));
    assert(SEEN((V(p), V(mutability))));
@end
@fn Aliases::build
file: crates/flowistry/src/mir/aliases.rs
params: tcx: TyCtxt, def_id: DefId, body_with_facts: BodyWithBorrowckFacts
ret: out: Aliases
ensures parts: out.tcx == tcx && out.body == body_with_facts.body
ensures loans: exists|sel: spec_fn(RegionVid, RegionVid, int) -> bool| (forall|a: RegionVid, b: RegionVid, i: int| #[trigger] sel(a, b, i)) && #[trigger] points_to(LCtx { tcx, def_id, bf: body_with_facts, sel }, out.loans)
post:
  let f = |a: RegionVid, b: RegionVid, i: int| true;
  Aliases_compute_loans_ax(tcx, def_id, body_with_facts, f);
  assert(points_to(LCtx { tcx, def_id, bf: body_with_facts, sel: f }, out.loans));
@end

/// The loans a pointer of type `ty` can hold, and the type it points to.
pub open spec fn pointee(ty: Ty) -> Opt<(RegionVid, Ty)> {
  if ty.is_box() { Opt::Some((UNKNOWN_REGION, ty.boxed_ty().unwrap())) }
  else { match ty.kind() {
    TyKind::RawPtr(t, _) => Opt::Some((UNKNOWN_REGION, t)),
    TyKind::Ref(Region(Interned(RegionKind::ReVar(r), _)), t, _) => Opt::Some((r, t)),
    _ => Opt::None,
  } }
}
/// What `after` applied to the target of a loan refers to.
pub open spec fn redirect(a: Aliases, loan: Place, t: Ty, after: Lst<PlaceElem>) -> Place {
  if t == loan.ty(a.body.local_decls(), a.tcx).ty { Place { local: loan.local, projection: Lst { s: loan.projection.s + after.s } } } else { loan }
}
pub open spec fn alias_of(a: Aliases, p: Place, q: Place) -> bool {
  q == p || (!p.is_direct(a.body, a.tcx) && p.refs_in_projection(a.body, a.tcx).last() is Some && {
    let (ptr, after) = p.refs_in_projection(a.body, a.tcx).last()->Some_0;
    let t = pointee(ptr.ty(a.body.local_decls(), a.tcx).ty);
    t is Some && a.loans.has_key(t->Some_0.0) && exists|l: (Place, Mutability)| #[trigger] a.loans.at(t->Some_0.0).has(l) && q == redirect(a, l.0, t->Some_0.1, after)
  })
}
