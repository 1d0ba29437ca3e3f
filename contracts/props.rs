// The listed properties as lemmas over the contracts.

/// Something written by the `i`-th mutation of an instruction is still there at the end,
/// unless a later mutation of the same instruction overwrites it.
pub proof fn after_keeps(a: FlowAnalysis, st: Matrix<Place>, ms: Lst<Mutation>, loc: Location, i: int, n: int, k: Place, l: Loa)
  requires 0 <= i <= n <= ms.len(), after(a, st, ms, loc, i, k, l), forall|j: int| i <= j < n ==> !cleared(a, #[trigger] ms.s[j], k)
  ensures after(a, st, ms, loc, n, k, l)
  decreases n - i
{
  if i < n { after_keeps(a, st, ms, loc, i, n - 1, k, l); assert(!cleared(a, ms.s[n - 1], k)); }
}
/// The state just before the `i`-th mutation.
pub open spec fn before(a: FlowAnalysis, st: Matrix<Place>, ms: Lst<Mutation>, loc: Location, i: int, k: Place, l: Loa) -> bool { after(a, st, ms, loc, i, k, l) }

/// C01: a write records its location and everything its inputs depended on before the
/// instruction, for every place that may denote the written memory.
pub proof fn c01_write_inherits(a: FlowAnalysis, st: Matrix<Place>, ms: Lst<Mutation>, loc: Location, i: int, k: Place, l: Loa)
  requires 0 <= i < ms.len(), written(a, ms.s[i].mutated, k),
    forall|j: int| i < j < ms.len() ==> !cleared(a, #[trigger] ms.s[j], k),
    l == Loa::Location(loc) || exists|p: Place, q: Place| #[trigger] ms.s[i].inputs.has(p) && #[trigger] influence(a, p, q) && st.has(a.place_info.normalize(q), l)
  ensures a.transfer_function(st, ms, loc).has(k, l)
{
  broadcast use {FlowAnalysis_transfer_function_ax, FlowAnalysis_influences_ax};
  let m = ms.s[i];
  if l != Loa::Location(loc) {
    let (p, q) = choose|p: Place, q: Place| #[trigger] m.inputs.has(p) && #[trigger] influence(a, p, q) && st.has(a.place_info.normalize(q), l);
    assert(a.influences(p).has(q));
    assert(infl_dep(a, st, p, l));
    assert(input_dep(a, st, m, l));
  }
  assert(dep_base(a, st, m, loc, l));
  assert(after(a, st, ms, loc, i + 1, k, l));
  after_keeps(a, st, ms, loc, i + 1, ms.len(), k, l);
}
/// C01: so do the dependencies of the pointers followed to reach the written place.
pub proof fn c01_pointers_followed(a: FlowAnalysis, st: Matrix<Place>, m: Mutation, loc: Location, r: (Place, Lst<PlaceElem>), q: Place, k: Place, l: Loa)
  requires written(a, m.mutated, k), m.mutated.refs_in_projection(a.body, a.tcx).has(r), overlap(a.place_info, r.0, q),
    st.has(a.place_info.normalize(q), l), !cleared(a, m, a.place_info.normalize(q))
  ensures a.transfer_function(st, once(m), loc).has(k, l)
{
  broadcast use {FlowAnalysis_transfer_function_ax, FlowAnalysis_influences_ax};
  let ms = once(m);
  assert(influence(a, m.mutated, q));
  assert(a.influences(m.mutated).has(q));
  assert(ms.s[0] == m);
  assert(after(a, st, ms, loc, 0, a.place_info.normalize(q), l));
  assert(after(a, st, ms, loc, 1, k, l));
}
/// C01: an input stands for everything that overlaps it or what it may alias, the pointers it
/// goes through and the variables that index it.
pub proof fn c01_input_covers(a: FlowAnalysis, p: Place, q: Place)
  ensures influence(a, p, q) <== overlap(a.place_info, p, q),
    a.place_info.conflicts(p).has(q) ==> influence(a, p, q),
    forall|al: Place| alias_of(a.place_info.aliases, p, al) && #[trigger] a.place_info.conflicts(al).has(q) ==> influence(a, p, q),
    forall|e: PlaceElem| #[trigger] p.projection.has(e) && e is Index && e->Index_0 != RETURN_PLACE && conflict(a.place_info, Place::from_local(e->Index_0, a.tcx), q) ==> influence(a, p, q)
{
  broadcast use {PlaceInfo_aliases_ax, PlaceInfo_conflicts_ax};
  assert(a.place_info.aliases(p).has(p));
  assert forall|al: Place| alias_of(a.place_info.aliases, p, al) && #[trigger] a.place_info.conflicts(al).has(q) implies influence(a, p, q) by { assert(a.place_info.aliases(p).has(al)); }
}

/// C02: a write records every controlling branch and what its tested value depends on.
pub proof fn c02_branches(a: FlowAnalysis, st: Matrix<Place>, ms: Lst<Mutation>, loc: Location, i: int, c: BasicBlock, k: Place, l: Loa)
  requires 0 <= i < ms.len(), written(a, ms.s[i].mutated, k), controls(a, loc.block, c),
    forall|j: int| i < j < ms.len() ==> !cleared(a, #[trigger] ms.s[j], k),
    l == Loa::Location(a.body.terminator_loc(c)) || (a.body.basic_blocks.idx(c).terminator().kind is SwitchInt && {
      let v = a.body.basic_blocks.idx(c).terminator().kind->SwitchInt_discr.as_place();
      v is Some && exists|q: Place| #[trigger] influence(a, v->Some_0, q) && st.has(a.place_info.normalize(q), l)
    })
  ensures a.transfer_function(st, ms, loc).has(k, l)
{
  broadcast use {FlowAnalysis_transfer_function_ax, FlowAnalysis_influences_ax};
  if l != Loa::Location(a.body.terminator_loc(c)) {
    let v = a.body.basic_blocks.idx(c).terminator().kind->SwitchInt_discr.as_place()->Some_0;
    let q = choose|q: Place| #[trigger] influence(a, v, q) && st.has(a.place_info.normalize(q), l);
    assert(a.influences(v).has(q));
    assert(infl_dep(a, st, v, l));
  }
  assert(ctl_dep(a, st, c, l));
  assert(dep_base(a, st, ms.s[i], loc, l));
  assert(after(a, st, ms, loc, i + 1, k, l));
  after_keeps(a, st, ms, loc, i + 1, ms.len(), k, l);
}

pub proof fn lost_is_cleared(a: FlowAnalysis, st: Matrix<Place>, ms: Lst<Mutation>, loc: Location, n: int, k: Place, l: Loa) -> (j: int)
  requires 0 <= n <= ms.len(), st.has(k, l), !after(a, st, ms, loc, n, k, l)
  ensures 0 <= j < n, cleared(a, ms.s[j], k)
  decreases n
{
  if n == 0 { 0 } else if after(a, st, ms, loc, n - 1, k, l) { n - 1 } else { lost_is_cleared(a, st, ms, loc, n - 1, k, l) }
}
/// C03: a dependency disappears only from the destination (or a part of it) of a definite write
/// that denotes one memory place, which is not an array element.
pub proof fn c03_only_overwrites(a: FlowAnalysis, st: Matrix<Place>, ms: Lst<Mutation>, loc: Location, k: Place, l: Loa)
  requires st.has(k, l), !a.transfer_function(st, ms, loc).has(k, l)
  ensures exists|j: int, c: Place| 0 <= j < ms.len() && (#[trigger] ms.s[j]).status is Definitely && !is_element(ms.s[j].mutated)
    && (forall|q: Place| alias_of(a.place_info.aliases, ms.s[j].mutated, q) ==> q == ms.s[j].mutated)
    && #[trigger] child_of(a.place_info, ms.s[j].mutated, c) && k == c.normalize(a.place_info.tcx, a.place_info.def_id)
{
  broadcast use {FlowAnalysis_transfer_function_ax, PlaceInfo_aliases_ax, PlaceInfo_children_ax, PlaceInfo_normalize_ax};
  let j = lost_is_cleared(a, st, ms, loc, ms.len(), k, l);
  let m = ms.s[j];
  let c = choose|c: Place| #[trigger] a.place_info.children(m.mutated).has(c) && a.place_info.normalize(c) == k;
  assert(child_of(a.place_info, m.mutated, c));
  assert forall|q: Place| alias_of(a.place_info.aliases, m.mutated, q) implies q == m.mutated by { assert(a.place_info.aliases(m.mutated).has(q)); }
}
/// C03: conversely such a write does replace what was recorded (single mutation, and a place it
/// does not write again under another name).
pub proof fn c03_overwrites_replace(a: FlowAnalysis, st: Matrix<Place>, m: Mutation, loc: Location, k: Place, l: Loa)
  requires cleared(a, m, k), !written(a, m.mutated, k)
  ensures !a.transfer_function(st, once(m), loc).has(k, l)
{
  broadcast use FlowAnalysis_transfer_function_ax;
  assert(once(m).s[0] == m);
  assert(!after(a, st, once(m), loc, 1, k, l));
}

pub proof fn gained_is_written(a: FlowAnalysis, st: Matrix<Place>, ms: Lst<Mutation>, loc: Location, n: int, k: Place, l: Loa) -> (j: int)
  requires 0 <= n <= ms.len(), !st.has(k, l), after(a, st, ms, loc, n, k, l)
  ensures 0 <= j < n, written(a, ms.s[j].mutated, k), dep_base(a, st, ms.s[j], loc, l)
    || exists|r: Place| #[trigger] a.influences(ms.s[j].mutated).has(r) && after(a, st, ms, loc, j, a.place_info.normalize(r), l)
  decreases n
{
  if n == 0 { 0 } else if after(a, st, ms, loc, n - 1, k, l) { gained_is_written(a, st, ms, loc, n - 1, k, l) } else { n - 1 }
}
/// C05: a dependency appears only on a place that may denote written memory, not through a
/// shared reference, and only for the reasons listed.
pub proof fn c05_only_writes(a: FlowAnalysis, st: Matrix<Place>, ms: Lst<Mutation>, loc: Location, k: Place, l: Loa)
  requires !st.has(k, l), a.transfer_function(st, ms, loc).has(k, l)
  ensures exists|j: int, al: Place| 0 <= j < ms.len() && #[trigger] alias_of(a.place_info.aliases, (#[trigger] ms.s[j]).mutated, al) && mutable_path(a, al)
      && k == al.normalize(a.place_info.tcx, a.place_info.def_id)
      && (dep_base(a, st, ms.s[j], loc, l) || exists|r: Place| #[trigger] influence(a, ms.s[j].mutated, r) && after(a, st, ms, loc, j, a.place_info.normalize(r), l))
{
  broadcast use {FlowAnalysis_transfer_function_ax, PlaceInfo_aliases_ax, PlaceInfo_normalize_ax, FlowAnalysis_influences_ax};
  let j = gained_is_written(a, st, ms, loc, ms.len(), k, l);
  let m = ms.s[j];
  let al = choose|al: Place| #[trigger] a.place_info.aliases(m.mutated).has(al) && mutable_path(a, al) && a.place_info.normalize(al) == k;
  assert(alias_of(a.place_info.aliases, m.mutated, al));
}
/// C05: without the mutability ablation nothing behind a shared reference is updated.
pub proof fn c05_shared_untouched(a: FlowAnalysis, p: Place, x: (Place, PlaceElem))
  requires !ignore_mut(), p.iter_projections().has(x), x.0.ty(a.body.local_decls(), a.tcx).ty.ref_mutability() == Opt::Some(Mutability::Not)
  ensures !mutable_path(a, p)
{ }

/// C07: the state at entry, from nothing, is exactly the arguments' own places.
pub proof fn c07_entry(a: FlowAnalysis, b: Body, k: Place, l: Loa)
  ensures a.initialize_start_block(b, a.bottom_value(b)).has(k, l) <==> exists|p: Place, q: Place|
    #[trigger] initial(a.place_info, p, l) && #[trigger] conflict(a.place_info, p, q) && k == q.normalize(a.place_info.tcx, a.place_info.def_id)
{
  broadcast use {FlowAnalysis_initialize_start_block_ax, FlowAnalysis_bottom_value_ax, PlaceInfo_all_args_ax, PlaceInfo_conflicts_ax, PlaceInfo_normalize_ax};
  if starts(a, k, l) {
    let (x, q) = choose|x: (Place, Loa), q: Place| #[trigger] a.place_info.all_args().has(x) && #[trigger] a.place_info.conflicts(x.0).has(q) && a.place_info.normalize(q) == k && x.1 == l;
    assert(initial(a.place_info, x.0, l) && conflict(a.place_info, x.0, q));
  }
  if exists|p: Place, q: Place| #[trigger] initial(a.place_info, p, l) && #[trigger] conflict(a.place_info, p, q) && k == q.normalize(a.place_info.tcx, a.place_info.def_id) {
    let (p, q) = choose|p: Place, q: Place| #[trigger] initial(a.place_info, p, l) && #[trigger] conflict(a.place_info, p, q) && k == q.normalize(a.place_info.tcx, a.place_info.def_id);
    assert(a.place_info.all_args().has((p, l)));
    assert(a.place_info.conflicts(p).has(q));
    assert(starts(a, k, l));
  }
}
/// C07: no argument of another number, and no location, is there at entry.
pub proof fn c07_sources(a: FlowAnalysis, p: Place, l: Loa)
  requires initial(a.place_info, p, l)
  ensures l is Arg, a.place_info.body.args_iter().has(l->Arg_0), exists|root: Place| #[trigger] arg_root(a.place_info, l->Arg_0, root) && child_of(a.place_info, root, p)
{
  let pi = a.place_info;
  let (x, root) = choose|x: Local, root: Place| #![trigger pi.body.args_iter().has(x), root.interior_places(pi.tcx, pi.body, pi.def_id).has(p)]
    pi.body.args_iter().has(x) && root.interior_places(pi.tcx, pi.body, pi.def_id).has(p) && l == Loa::Arg(x) && arg_root(pi, x, root);
  assert(arg_root(pi, x, root) && child_of(pi, root, p));
}

/// C09, C17: place relations are functions of the body alone: two queries agree.
pub proof fn c17_functions_of_the_body(pi: PlaceInfo, p: Place, q: Place, m: Mutability)
  ensures pi.aliases(p).has(q) <==> alias_of(pi.aliases, p, q), pi.children(p).has(q) <==> child_of(pi, p, q),
    pi.conflicts(p).has(q) <==> conflict(pi, p, q), pi.reachable_values(p, m).has(q) <==> reachable(pi, p, m, q),
    pi.normalize(p) == p.normalize(pi.tcx, pi.def_id)
{
  broadcast use {PlaceInfo_aliases_ax, PlaceInfo_children_ax, PlaceInfo_conflicts_ax, PlaceInfo_reachable_values_ax, PlaceInfo_normalize_ax};
}

/// C12: without an explicit mode, mutability counts, lifetimes count, and calls are not entered.
pub proof fn c12_no_mode_is_default()
  requires active_mode() is None
  ensures !ignore_mut(), !conservative(), !recurse_mode()
{ }
/// C12: an explicit mode is its parts.
pub proof fn c12_modes(m: EvalMode)
  requires active_mode() == Opt::Some(m)
  ensures ignore_mut() <==> m.mutability_mode is IgnoreMut, conservative() <==> m.pointer_mode is Conservative, recurse_mode() <==> m.context_mode is Recurse
{ }
/// C12: ignoring mutability adds reachable places, and ...
pub proof fn c12_mutability_adds_reachable(pi: PlaceInfo, p: Place, m: Mutability, q: Place)
  requires reachable_in(false, pi, p, m, q)
  ensures reachable_in(true, pi, p, m, q)
{
  let ty = p.ty(pi.body.local_decls(), pi.tcx).ty; let a = pi.aliases;
  assert forall|r: RegionVid, imm: bool| #[trigger] loan_in(false, a, r, imm, m, q) implies loan_in(true, a, r, imm, m, q) by { }
  assert forall|t: Ty, imm: bool| #[trigger] loan_within_in(false, a, t, imm, m, q) implies loan_within_in(true, a, t, imm, m, q) by {
    let (r, below) = choose|r: RegionVid, below: bool| #[trigger] region_inside(t, imm, r, below) && loan_in(false, a, r, below, m, q);
    assert(loan_in(true, a, r, below, m, q));
  }
}
/// ... makes everything at all reachable through an argument writable by a call, whatever the mutability, and ...
pub proof fn c12_mutability_is_one(pi: PlaceInfo, p: Place, m: Mutability, n: Mutability, q: Place)
  requires reachable_in(true, pi, p, m, q)
  ensures reachable_in(true, pi, p, n, q)
{
  let ty = p.ty(pi.body.local_decls(), pi.tcx).ty; let a = pi.aliases;
  assert forall|r: RegionVid, imm: bool| #[trigger] loan_in(true, a, r, imm, m, q) implies loan_in(true, a, r, imm, n, q) by { }
  assert forall|t: Ty, imm: bool| #[trigger] loan_within_in(true, a, t, imm, m, q) implies loan_within_in(true, a, t, imm, n, q) by {
    let (r, below) = choose|r: RegionVid, below: bool| #[trigger] region_inside(t, imm, r, below) && loan_in(true, a, r, below, m, q);
    assert(loan_in(true, a, r, below, n, q));
  }
}
/// ... lets what lies behind shared references be updated.
pub proof fn c12_mutability_adds_writes(a: FlowAnalysis, p: Place, k: Place)
  ensures written_in(false, a, p, k) ==> written_in(true, a, p, k),
    written_in(true, a, p, k) <==> exists|al: Place| #[trigger] a.place_info.aliases(p).has(al) && a.place_info.normalize(al) == k
{ }
/// C12: conservative pointers add flow between references to the same type, in both directions, and nothing else.
pub proof fn c12_conservative_adds_flow(c: LCtx, a: RegionVid, b: RegionVid)
  ensures flows_in(true, c, a, b) <==> flows_in(false, c, a, b) || (a.i < region_count(c) && b.i < region_count(c) && same_type(c, a, b)),
    same_type(c, a, b) <==> same_type(c, b, a)
{
  if same_type(c, a, b) {
    let (p, q) = choose|p: (Place, Mutability), q: (Place, Mutability)| #[trigger] pointer(c, a, p) && #[trigger] pointer(c, b, q) && target_ty(c.tcx, c.bf.body, p.0) == target_ty(c.tcx, c.bf.body, q.0);
    assert(pointer(c, b, q) && pointer(c, a, p));
  }
  if same_type(c, b, a) {
    let (p, q) = choose|p: (Place, Mutability), q: (Place, Mutability)| #[trigger] pointer(c, b, p) && #[trigger] pointer(c, a, q) && target_ty(c.tcx, c.bf.body, p.0) == target_ty(c.tcx, c.bf.body, q.0);
    assert(pointer(c, a, q) && pointer(c, b, p));
  }
}

/// C08: `m` are the points-to sets of the body, from all the borrow checker's facts.
pub open spec fn body_loans(c: LCtx, m: LoanMap) -> bool { (forall|a: RegionVid, b: RegionVid, i: int| #[trigger] (c.sel)(a, b, i)) && points_to(c, m) }
pub proof fn c08_of_the_body(tcx: TyCtxt, def_id: DefId, bf: BodyWithBorrowckFacts)
  ensures exists|c: LCtx| c.tcx == tcx && c.def_id == def_id && c.bf == bf && #[trigger] body_loans(c, PlaceInfo::build(tcx, def_id, bf).aliases.loans)
{
  broadcast use { PlaceInfo_build_ax, Aliases_build_ax };
  let m = Aliases::build(tcx, def_id, bf).loans;
  let sel = choose|sel: spec_fn(RegionVid, RegionVid, int) -> bool| (forall|a: RegionVid, b: RegionVid, i: int| #[trigger] sel(a, b, i)) && #[trigger] points_to(LCtx { tcx, def_id, bf, sel }, m);
  let c = LCtx { tcx, def_id, bf, sel };
  assert(forall|a: RegionVid, b: RegionVid, i: int| #[trigger] (c.sel)(a, b, i));
  assert(PlaceInfo::build(tcx, def_id, bf).aliases == Aliases::build(tcx, def_id, bf));
  assert(body_loans(c, PlaceInfo::build(tcx, def_id, bf).aliases.loans));
}
/// C08: what is borrowed under a region.
pub proof fn c08_borrows(c: LCtx, m: LoanMap, r: RegionVid, k: BorrowKind, p: Place)
  requires body_loans(c, m), (Lst { s: all_borrows(c.bf.body) }).has((r, k, p)), p.is_direct(c.bf.body, c.tcx)
  ensures mhas(m, r, (p, k.to_mutbl_lossy()))
{ reveal(first_loan); assert(borrowed(c, r, (p, k.to_mutbl_lossy()))); assert(first_loan(c, r, (p, k.to_mutbl_lossy()))); }
/// C08: the referents of the argument references.
pub proof fn c08_arguments(c: LCtx, m: LoanMap, l: Local, r: RegionVid, p: Place, mu: Mutability)
  requires body_loans(c, m), c.bf.body.args_iter().has(l), ptrs_in(c, l).has_key(r), ptrs_in(c, l).at(r).has((p, mu)), p.projection.len() <= 2
  ensures mhas(m, r, (c.tcx.mk_place_deref(p), mu))
{ let x = (c.tcx.mk_place_deref(p), mu); reveal(first_loan); assert(shallow_referent(c, ptrs_in(c, l).at(r), x)); assert(local_referent(c, l, r, x)); assert(first_loan(c, r, x)); }
/// C08: everything behind a box or raw pointer is in one group.
pub proof fn c08_unknown(c: LCtx, m: LoanMap, p: (Place, Mutability))
  requires body_loans(c, m), pointer(c, UNKNOWN_REGION, p)
  ensures mhas(m, UNKNOWN_REGION, (c.tcx.mk_place_deref(p.0), Mutability::Mut))
{ let x = (c.tcx.mk_place_deref(p.0), Mutability::Mut); reveal(first_loan); assert(unknown_referent(c, UNKNOWN_REGION, x)); assert(first_loan(c, UNKNOWN_REGION, x)); }
/// C08: closed under the borrow checker's constraints: each place also is in every region its region
/// flows into, as it is or narrowed to the part reborrowed there.
pub proof fn c08_closed(c: LCtx, m: LoanMap, a: RegionVid, b: RegionVid, x: (Place, Mutability))
  requires body_loans(c, m), mhas(m, a, x), a != b, a.i < region_count(c), b.i < region_count(c), fact(c, a, b) || a.i == 0,
    fact(c, a, b) ==> forall|r: RegionVid| #[trigger] ignored_region(AsyncHack { context_ty: c.bf.body.async_context(c.tcx, c.def_id), tcx: c.tcx, body: c.bf.body }, r) ==> r != a && r != b
  ensures mhas(m, b, x) || (narrowed(c, all_borrows(c.bf.body), b) is Some && narrowed(c, all_borrows(c.bf.body), b)->Some_0.0 == x.0.ty(c.bf.body.local_decls(), c.tcx).ty
    && !in_cycle(c, a, b) && mhas(m, b, (x.0.project_deeper(narrowed(c, all_borrows(c.bf.body), b)->Some_0.1, c.tcx), x.1)))
{
  assert(flows(c, a, b)) by { reveal(flows); }
  assert(mhas(m, b, flown(c, a, b, x)));
  reveal(flown);
}
/// C08: the regions the facts and the pointers mention are all below `region_count`.
pub proof fn c08_regions(c: LCtx, n: int, r: RegionVid)
  requires region_bound(c, n), occurs(c, r)
  ensures r.i < region_count(c)
{
  let k = region_count(c);
  assert(region_bound(c, k));
}
/// C08: nothing is included that these rules do not justify: the sets are the least that satisfy them.
pub proof fn c08_nothing_else(c: LCtx, m: LoanMap, j: spec_fn(RegionVid, (Place, Mutability)) -> bool, r: RegionVid, x: (Place, Mutability))
  requires body_loans(c, m), mhas(m, r, x),
    forall|q: RegionVid, y: (Place, Mutability)| #[trigger] first_loan(c, q, y) ==> j(q, y),
    forall|a: RegionVid, b: RegionVid, y: (Place, Mutability)| #[trigger] flows(c, a, b) && a != b && #[trigger] j(a, y) ==> j(b, flown(c, a, b, y)),
  ensures j(r, x)
{ assert(admits(c, j)); }
/// C08: two computations of the points-to sets agree.
pub proof fn c08_unique(c: LCtx, m: LoanMap, n: LoanMap, r: RegionVid, x: (Place, Mutability))
  requires points_to(c, m), points_to(c, n)
  ensures mhas(m, r, x) <==> mhas(n, r, x)
{
  let jm = |q: RegionVid, y: (Place, Mutability)| mhas(m, q, y);
  let jn = |q: RegionVid, y: (Place, Mutability)| mhas(n, q, y);
  assert(admits(c, jm)); assert(admits(c, jn));
}

/// C06: the entry states solving the dataflow equations are a closed assignment.
pub proof fn solution_is_closed(a: FlowAnalysis, body: Body, e: LMap<Matrix<Place>>, s: LMap<Matrix<Place>>)
  requires least_fixpoint(a, body, e, s)
  ensures exists|f: LMap<Matrix<Place>>| #[trigger] closed(a, body, f) && forall|l: Loa| node(body, l) ==> #[trigger] f.idx(l) == e.idx(l)
{
  broadcast use { FlowAnalysis_bottom_value_ax, queues, matrices };
  rpo_ax(body);
  let f = e;
  assert forall|l: Loa, k: Place, x: Loa| #[trigger] at_start(a, body, l, k, x) implies f.idx(l).has(k, x) by {
    assert(l == Loa::Location(START_LOCATION));
    assert(node(body, l));
  }
  assert forall|l: Loa, m: Loa| node(body, l) && #[trigger] edge(body, l, m) implies below(eff(a, body, l, f.idx(l)), f.idx(m)) by {
    assert(node(body, m));
    assert forall|k: Place, x: Loa| #[trigger] eff(a, body, l, f.idx(l)).has(k, x) implies f.idx(m).has(k, x) by { assert(s.idx(l).has(k, x)); }
  }
  assert(closed(a, body, f));
}
/// The dataflow equations: `e` is what holds before each location, `s` what holds after it.
pub open spec fn equations(a: FlowAnalysis, body: Body, e: LMap<Matrix<Place>>, s: LMap<Matrix<Place>>) -> bool {
  (forall|l: Loa, k: Place, x: Loa| node(body, l) ==> (#[trigger] s.idx(l).has(k, x) <==> eff(a, body, l, e.idx(l)).has(k, x)))
  && (forall|m: Loa, k: Place, x: Loa| node(body, m) ==> (#[trigger] e.idx(m).has(k, x) <==> at_start(a, body, m, k, x) || exists|l: Loa| node(body, l) && #[trigger] edge(body, l, m) && s.idx(l).has(k, x)))
}
/// C06: what holds after a location is its effect on the join of what holds after its
/// predecessors (the arguments' places at entry).
pub proof fn c06_equations(a: FlowAnalysis, body: Body, out: LMap<Matrix<Place>>)
  requires solved(a, body, out)
  ensures exists|e: LMap<Matrix<Place>>| #[trigger] equations(a, body, e, out)
{
  let (e, s) = choose|e: LMap<Matrix<Place>>, s: LMap<Matrix<Place>>| #[trigger] least_fixpoint(a, body, e, s) && forall|l: Loa| #[trigger] out.idx(l) == s.idx(l);
  assert forall|m: Loa, k: Place, x: Loa| node(body, m) implies (#[trigger] e.idx(m).has(k, x) <==> at_start(a, body, m, k, x) || exists|l: Loa| node(body, l) && #[trigger] edge(body, l, m) && out.idx(l).has(k, x)) by {
    if exists|l: Loa| node(body, l) && #[trigger] edge(body, l, m) && s.idx(l).has(k, x) {
      let l = choose|l: Loa| node(body, l) && #[trigger] edge(body, l, m) && s.idx(l).has(k, x);
      assert(out.idx(l).has(k, x));
    }
    if exists|l: Loa| node(body, l) && #[trigger] edge(body, l, m) && out.idx(l).has(k, x) {
      let l = choose|l: Loa| node(body, l) && #[trigger] edge(body, l, m) && out.idx(l).has(k, x);
      assert(s.idx(l).has(k, x));
    }
  }
  assert forall|l: Loa, k: Place, x: Loa| node(body, l) implies (#[trigger] out.idx(l).has(k, x) <==> eff(a, body, l, e.idx(l)).has(k, x)) by { assert(out.idx(l) == s.idx(l)); }
  assert(equations(a, body, e, out));
}
/// C06: it is in every assignment closed under the instructions' effects: no fact is there
/// that the equations do not force.
pub proof fn c06_least(a: FlowAnalysis, body: Body, out: LMap<Matrix<Place>>, f: LMap<Matrix<Place>>, l: Loa, k: Place, x: Loa)
  requires solved(a, body, out), closed(a, body, f), node(body, l), out.idx(l).has(k, x)
  ensures eff(a, body, l, f.idx(l)).has(k, x)
{
  broadcast use eff_mono;
  let (e, s) = choose|e: LMap<Matrix<Place>>, s: LMap<Matrix<Place>>| #[trigger] least_fixpoint(a, body, e, s) && forall|l: Loa| #[trigger] out.idx(l) == s.idx(l);
  assert(s.idx(l).has(k, x));
  assert(below(e.idx(l), f.idx(l)));
  assert(below(eff(a, body, l, e.idx(l)), eff(a, body, l, f.idx(l))));
}
/// C06: any two results agree, whatever order the locations were visited in.
pub proof fn c06_unique(a: FlowAnalysis, body: Body, o1: LMap<Matrix<Place>>, o2: LMap<Matrix<Place>>, l: Loa, k: Place, x: Loa)
  requires solved(a, body, o1), solved(a, body, o2), node(body, l), o1.idx(l).has(k, x)
  ensures o2.idx(l).has(k, x)
{
  let (e, s) = choose|e: LMap<Matrix<Place>>, s: LMap<Matrix<Place>>| #[trigger] least_fixpoint(a, body, e, s) && forall|l: Loa| #[trigger] o2.idx(l) == s.idx(l);
  solution_is_closed(a, body, e, s);
  let f = choose|f: LMap<Matrix<Place>>| #[trigger] closed(a, body, f) && forall|l: Loa| node(body, l) ==> #[trigger] f.idx(l) == e.idx(l);
  c06_least(a, body, o1, f, l, k, x);
  assert(f.idx(l) == e.idx(l));
  assert(s.idx(l).has(k, x));
}

/// A call analyzed from its signature.
pub open spec fn modular(a: FlowAnalysis, t: Terminator) -> bool { t.kind is Call && !(recurse_mode() && inlined(a, t.kind) is Some) }
/// C04: the destination of a call inherits its location and everything any argument place
/// depended on (nothing but the location when it has unit type).
pub proof fn c04_destination(a: FlowAnalysis, st: Matrix<Place>, t: Terminator, loc: Location, k: Place, l: Loa)
  requires modular(a, t), written(a, t.kind->Call_destination, k),
    l == Loa::Location(loc) || (!t.kind->Call_destination.ty(a.place_info.body.local_decls(), a.place_info.tcx).ty.is_unit()
      && exists|p: Place, q: Place| #[trigger] passed(a.place_info, t.kind->Call_args, p) && #[trigger] influence(a, p, q) && st.has(a.place_info.normalize(q), l))
  ensures a.apply_primary_terminator_effect(st, t, loc).1.has(k, l)
{
  broadcast use { FlowAnalysis_apply_primary_terminator_effect_ax, ModularMutationVisitor_visit_terminator_ax, FlowAnalysis_transfer_function_ax };
  let ms = term_ms(a, t, loc);
  assert(call_writes(a.place_info, t.kind->Call_args, t.kind->Call_destination, ms));
  if l != Loa::Location(loc) {
    let (p, q) = choose|p: Place, q: Place| #[trigger] passed(a.place_info, t.kind->Call_args, p) && #[trigger] influence(a, p, q) && st.has(a.place_info.normalize(q), l);
    assert(ms.s[0].inputs.has(p));
  }
  assert forall|j: int| 0 < j < ms.len() implies !cleared(a, #[trigger] ms.s[j], k) by { assert(ms.s[j].status is Possibly); }
  c01_write_inherits(a, st, ms, loc, 0, k, l);
}
/// C04: everything mutably reachable from an argument inherits from every argument place.
pub proof fn c04_through_arguments(a: FlowAnalysis, st: Matrix<Place>, t: Terminator, loc: Location, q: Place, k: Place, l: Loa)
  requires modular(a, t), exists|p: Place| #[trigger] passed(a.place_info, t.kind->Call_args, p) && reachable(a.place_info, p, Mutability::Mut, q), written(a, q, k),
    l == Loa::Location(loc) || exists|p: Place, r: Place| #[trigger] passed(a.place_info, t.kind->Call_args, p) && #[trigger] influence(a, p, r) && st.has(a.place_info.normalize(r), l)
  ensures a.apply_primary_terminator_effect(st, t, loc).1.has(k, l)
{
  broadcast use { FlowAnalysis_apply_primary_terminator_effect_ax, ModularMutationVisitor_visit_terminator_ax, FlowAnalysis_transfer_function_ax, PlaceInfo_reachable_values_ax };
  let ms = term_ms(a, t, loc);
  let args = t.kind->Call_args;
  assert(call_writes(a.place_info, args, t.kind->Call_destination, ms));
  let p0 = choose|p: Place| #[trigger] passed(a.place_info, args, p) && reachable(a.place_info, p, Mutability::Mut, q);
  assert(a.place_info.reachable_values(p0, Mutability::Mut).has(q));
  assert(through_args(a.place_info, args, q));
  let i = choose|i: int| 0 < i < ms.s.len() && (#[trigger] ms.s[i]).mutated == q;
  if l != Loa::Location(loc) {
    let (p, r) = choose|p: Place, r: Place| #[trigger] passed(a.place_info, args, p) && #[trigger] influence(a, p, r) && st.has(a.place_info.normalize(r), l);
    assert(ms.s[i].inputs.has(p));
  }
  assert forall|j: int| i < j < ms.len() implies !cleared(a, #[trigger] ms.s[j], k) by { assert(ms.s[j].status is Possibly); }
  c01_write_inherits(a, st, ms, loc, i, k, l);
}
/// C04: every place passed counts, unless it is the task context of an async body.
pub proof fn c04_nothing_ignored(pi: PlaceInfo, args: Lst<Spanned<Operand>>, i: int, p: Place)
  requires 0 <= i < args.s.len(), args.s[i].node.as_place() == Opt::Some(p), !task_context(pi, p)
  ensures passed(pi, args, p)
{ broadcast use arg_places_ax; assert(arg_places(args).has((i, p))); }
/// C04, C05: a call writes nothing else, and only its destination for certain.
pub proof fn c04_writes_nothing_else(a: FlowAnalysis, t: Terminator, loc: Location, i: int)
  requires modular(a, t), 0 <= i < term_ms(a, t, loc).len()
  ensures ({ let m = term_ms(a, t, loc).s[i]; if i == 0 { m.mutated == t.kind->Call_destination } else {
    m.status is Possibly && exists|p: Place| #[trigger] passed(a.place_info, t.kind->Call_args, p) && reachable(a.place_info, p, Mutability::Mut, m.mutated) } })
{
  broadcast use { ModularMutationVisitor_visit_terminator_ax, PlaceInfo_reachable_values_ax };
  let ms = term_ms(a, t, loc);
  assert(call_writes(a.place_info, t.kind->Call_args, t.kind->Call_destination, ms));
  if i > 0 {
    let m = ms.s[i];
    assert(through_args(a.place_info, t.kind->Call_args, m.mutated));
    let p = choose|p: Place| #[trigger] passed(a.place_info, t.kind->Call_args, p) && a.place_info.reachable_values(p, Mutability::Mut).has(m.mutated);
    assert(reachable(a.place_info, p, Mutability::Mut, m.mutated));
  }
}
/// C04: a terminator that is not a call changes nothing.
pub proof fn c04_only_calls(a: FlowAnalysis, st: Matrix<Place>, t: Terminator, loc: Location, k: Place, l: Loa)
  requires !(t.kind is Call) ensures a.apply_primary_terminator_effect(st, t, loc).1.has(k, l) <==> st.has(k, l)
{ broadcast use { FlowAnalysis_apply_primary_terminator_effect_ax, ModularMutationVisitor_visit_terminator_ax }; }

/// C01: an assignment records the assignment and what its right-hand side reads: as a whole, or
/// per field when it builds a structure (or tuple, or enum variant).
pub proof fn c01_assignment(a: FlowAnalysis, st: Matrix<Place>, s: Statement, loc: Location, i: int, k: Place, l: Loa)
  requires s.kind is Assign, ({
    let ws = assign_writes(a.place_info, s.kind->Assign_0.0, s.kind->Assign_0.1);
    &&& 0 <= i < ws.len() && written(a, ws[i].mutated, k) && forall|j: int| i < j < ws.len() ==> !cleared(a, #[trigger] ws[j], k)
    &&& l == Loa::Location(loc) || exists|p: Place, q: Place| #[trigger] ws[i].inputs.has(p) && #[trigger] influence(a, p, q) && st.has(a.place_info.normalize(q), l)
  })
  ensures a.apply_primary_statement_effect(st, s, loc).has(k, l)
{
  broadcast use { FlowAnalysis_apply_primary_statement_effect_ax, ModularMutationVisitor_visit_assign_ax, FlowAnalysis_transfer_function_ax };
  let ms = stmt_ms(a, s, loc);
  let ws = assign_writes(a.place_info, s.kind->Assign_0.0, s.kind->Assign_0.1);
  assert(ms.s =~= ws);
  c01_write_inherits(a, st, ms, loc, i, k, l);
}
/// C01: no operand of a structure that is built is lost (rustc gives one operand per field).
pub proof fn c01_fields_complete(pi: PlaceInfo, dest: Place, r: Rvalue, i: int, p: Place)
  requires built_fields(pi, dest, r) is Some, built_fields(pi, dest, r)->Some_0.1.s.len() == r->Aggregate_1.s.len(),
    0 <= i < r->Aggregate_1.s.len(), r->Aggregate_1.s[i].as_place() == Opt::Some(p)
  ensures assign_writes(pi, dest, r).len() == r->Aggregate_1.s.len(), assign_writes(pi, dest, r)[i].inputs.has(p)
{ broadcast use lists; let o = r->Aggregate_1.s[i].as_place(); assert(o.into_iter().s[0] == p); at(o.into_iter(), 0); }
/// C01: every other right-hand side is read as a whole: all the places it evaluates are inputs.
pub proof fn c01_whole(pi: PlaceInfo, dest: Place, r: Rvalue)
  requires built_fields(pi, dest, r) is None, copied_fields(pi, r) is None
  ensures assign_writes(pi, dest, r) == seq![write_of(dest, r.places())]
{ }
/// C01: a structure that is copied field by field is read entirely, visible field by visible field.
pub proof fn c01_copied(pi: PlaceInfo, dest: Place, r: Rvalue, i: int)
  requires built_fields(pi, dest, r) is None, copied_fields(pi, r) is Some, 0 <= i < copied_fields(pi, r)->Some_0.1.s.len()
  ensures ({ let (src, es) = copied_fields(pi, r)->Some_0; assign_writes(pi, dest, r)[i] == write_of(part(dest, es.s[i]), Lst { s: seq![part(src, es.s[i])] }) })
{ }

/// What `p` depends on in `st`, in terms of the place relations: the dependencies of everything
/// that overlaps, aliases or is passed through to reach a place reachable from `p`.
pub open spec fn depends(a: FlowAnalysis, st: Matrix<Place>, p: Place, l: Loa) -> bool {
  exists|q: Place, r: Place| #[trigger] reachable(a.place_info, p, Mutability::Not, q) && #[trigger] influence(a, q, r) && st.has(r.normalize(a.place_info.tcx, a.place_info.def_id), l) }
pub proof fn reads_is_depends(a: FlowAnalysis, st: Matrix<Place>, p: Place, l: Loa)
  ensures reads(a, st, p, l) <==> depends(a, st, p, l)
{
  broadcast use {PlaceInfo_reachable_values_ax, FlowAnalysis_influences_ax, PlaceInfo_normalize_ax};
  if reads(a, st, p, l) {
    let q = choose|q: Place| #[trigger] a.place_info.reachable_values(p, Mutability::Not).has(q) && infl_dep(a, st, q, l);
    let r = choose|r: Place| #[trigger] a.influences(q).has(r) && st.has(a.place_info.normalize(r), l);
    assert(reachable(a.place_info, p, Mutability::Not, q) && influence(a, q, r));
  }
  if depends(a, st, p, l) {
    let (q, r) = choose|q: Place, r: Place| #[trigger] reachable(a.place_info, p, Mutability::Not, q) && #[trigger] influence(a, q, r) && st.has(r.normalize(a.place_info.tcx, a.place_info.def_id), l);
    assert(a.place_info.reachable_values(p, Mutability::Not).has(q));
    assert(a.influences(q).has(r));
    assert(infl_dep(a, st, q, l));
  }
}
/// C10: a backward slice holds, per group and in order, what the group's targets depend on, and
/// the argument itself for a target at an argument.
pub proof fn c10_backward(r: FlowResults, ts: Lst<Lst<(Place, Loa)>>, j: int, l: Loa)
  requires 0 <= j < ts.len()
  ensures compute_dependencies(r, ts, Direction::Backward).len() == ts.len(),
    compute_dependencies(r, ts, Direction::Backward).s[j].has(l) <==> exists|t: (Place, Loa)| #[trigger] ts.s[j].has(t) && match t.1 {
      Loa::Arg(_) => l == t.1,
      Loa::Location(loc) => depends(r.analysis, r.state.idx(t.1), t.0, l) }
{
  broadcast use {compute_dependencies_ax, FlowAnalysis_deps_for_ax, AnalysisResults_state_at_ax};
  let out = compute_dependencies(r, ts, Direction::Backward);
  assert(out.s[j].has(l) <==> backwards(r, ts.s[j], l));
  assert forall|t: (Place, Loa)| #[trigger] ts.s[j].has(t) && t.1 is Location implies back_one(r, t, l) == depends(r.analysis, r.state.idx(t.1), t.0, l) by {
    reads_is_depends(r.analysis, r.state.idx(t.1), t.0, l); }
}
/// C10: a group's slice does not depend on the other groups.
pub proof fn c10_groups_apart(r: FlowResults, ts: Lst<Lst<(Place, Loa)>>, us: Lst<Lst<(Place, Loa)>>, i: int, j: int, d: Direction, l: Loa)
  requires 0 <= i < ts.len(), 0 <= j < us.len(), ts.s[i] == us.s[j]
  ensures compute_dependencies(r, ts, d).s[i].has(l) == compute_dependencies(r, us, d).s[j].has(l)
{
  broadcast use compute_dependencies_ax;
  let x = compute_dependencies(r, ts, d); let y = compute_dependencies(r, us, d);
  assert(x.s[i].has(l) == y.s[j].has(l));
}
/// C11: `f` is what a reachable place of a target commonly depends on, and the target's location.
pub open spec fn source_set(r: FlowResults, ts: Lst<(Place, Loa)>, p: Place, at: Loa, f: LSet) -> bool { sub_target(ts, r, (p, at)) && common_set(r, p, at, f) }
pub proof fn c11_sources(r: FlowResults, ts: Lst<(Place, Loa)>)
  ensures forall|f: LSet| #[trigger] TargetDeps::new(ts, r).all_forward.has(f) ==> exists|p: Place, at: Loa| #[trigger] source_set(r, ts, p, at, f),
    forall|p: Place, at: Loa| #[trigger] sub_target(ts, r, (p, at)) ==> exists|f: LSet| #[trigger] TargetDeps::new(ts, r).all_forward.has(f) && source_set(r, ts, p, at, f)
{
  broadcast use TargetDeps_new_ax;
  let td = TargetDeps::new(ts, r);
  assert forall|f: LSet| #[trigger] td.all_forward.has(f) implies exists|p: Place, at: Loa| #[trigger] source_set(r, ts, p, at, f) by {
    let x = choose|x: (Place, Loa)| #[trigger] sub_target(ts, r, x) && common_set(r, x.0, x.1, f);
    assert(source_set(r, ts, x.0, x.1, f));
  }
  assert forall|p: Place, at: Loa| #[trigger] sub_target(ts, r, (p, at)) implies exists|f: LSet| #[trigger] td.all_forward.has(f) && source_set(r, ts, p, at, f) by {
    assert(got(td.all_forward, r, p, at));
    let f = choose|f: LSet| #[trigger] td.all_forward.has(f) && common_set(r, p, at, f);
    assert(source_set(r, ts, p, at, f));
  }
}
/// `ds` contains everything the parts of `p` commonly depend on at `at`, and `at`.
pub open spec fn contains_common(r: FlowResults, ds: LSet, p: Place, at: Loa) -> bool { forall|x: Loa| #[trigger] common(r, p, at, x) ==> ds.has(x) }
pub proof fn covers_is(r: FlowResults, ts: Lst<(Place, Loa)>, ds: LSet)
  ensures covers(TargetDeps::new(ts, r), ds) <==> exists|p: Place, at: Loa| #[trigger] sub_target(ts, r, (p, at)) && contains_common(r, ds, p, at)
{
  c11_sources(r, ts);
  let td = TargetDeps::new(ts, r);
  if covers(td, ds) {
    let f = choose|f: LSet| #[trigger] td.all_forward.has(f) && ds.is_superset(f);
    let (p, at) = choose|p: Place, at: Loa| #[trigger] source_set(r, ts, p, at, f);
    assert forall|x: Loa| #[trigger] common(r, p, at, x) implies ds.has(x) by { assert(f.has(x)); }
    assert(sub_target(ts, r, (p, at)) && contains_common(r, ds, p, at));
  }
  if exists|p: Place, at: Loa| #[trigger] sub_target(ts, r, (p, at)) && contains_common(r, ds, p, at) {
    let (p, at) = choose|p: Place, at: Loa| #[trigger] sub_target(ts, r, (p, at)) && contains_common(r, ds, p, at);
    let f = choose|f: LSet| #[trigger] td.all_forward.has(f) && source_set(r, ts, p, at, f);
    assert forall|x: Loa| #[trigger] f.has(x) implies ds.has(x) by { assert(common(r, p, at, x)); }
  }
}
/// C11: a location is in the forward slice exactly when it writes (or branches on) a place that
/// depends on everything some reachable place of a target does, and on the target's location.
pub proof fn c11_forward(r: FlowResults, ts: Lst<Lst<(Place, Loa)>>, j: int, l: Location)
  requires 0 <= j < ts.len()
  ensures compute_dependencies(r, ts, Direction::Forward).len() == ts.len(),
    compute_dependencies(r, ts, Direction::Forward).s[j].has(Loa::Location(l)) <==> r.analysis.body.all_locations().has(l) && exists|q: Place, p: Place, at: Loa|
      #[trigger] acted_on(r.analysis, l, q) && #[trigger] sub_target(ts.s[j], r, (p, at)) && contains_common(r, r.state.idx(Loa::Location(l)).row_set(r.analysis.place_info.normalize(q)), p, at)
{
  broadcast use {compute_dependencies_ax, deps_ax, AnalysisResults_state_at_ax};
  let out = compute_dependencies(r, ts, Direction::Forward);
  let td = TargetDeps::new(ts.s[j], r); let pi = r.analysis.place_info; let ll = Loa::Location(l);
  assert(out.s[j].has(ll) <==> forwards(r, ts.s[j], ll));
  if out.s[j].has(ll) {
    let q = choose|q: Place| #[trigger] acted_on(r.analysis, l, q) && covers(td, deps(r.state_at(l), pi, q));
    covers_is(r, ts.s[j], deps(r.state_at(l), pi, q));
  }
  if r.analysis.body.all_locations().has(l) && exists|q: Place, p: Place, at: Loa| #[trigger] acted_on(r.analysis, l, q) && #[trigger] sub_target(ts.s[j], r, (p, at)) && contains_common(r, r.state.idx(ll).row_set(pi.normalize(q)), p, at) {
    let (q, p, at) = choose|q: Place, p: Place, at: Loa| #[trigger] acted_on(r.analysis, l, q) && #[trigger] sub_target(ts.s[j], r, (p, at)) && contains_common(r, r.state.idx(ll).row_set(pi.normalize(q)), p, at);
    covers_is(r, ts.s[j], deps(r.state_at(l), pi, q));
    assert(acts_on_dependent(r, td, l));
  }
}
/// C11: an argument is in the forward slice exactly when it is all a target depends on.
pub proof fn c11_arguments(r: FlowResults, ts: Lst<Lst<(Place, Loa)>>, j: int, x: Local)
  requires 0 <= j < ts.len()
  ensures compute_dependencies(r, ts, Direction::Forward).s[j].has(Loa::Arg(x)) <==> r.analysis.body.args_iter().has(x) && exists|p: Place, at: Loa|
    #[trigger] sub_target(ts.s[j], r, (p, at)) && forall|l: Loa| #[trigger] common(r, p, at, l) <==> l == Loa::Arg(x)
{
  broadcast use {compute_dependencies_ax, lists};
  let td = TargetDeps::new(ts.s[j], r); let a = Loa::Arg(x);
  assert(compute_dependencies(r, ts, Direction::Forward).s[j].has(a) <==> forwards(r, ts.s[j], a));
  c11_sources(r, ts.s[j]);
  if only(td, a) {
    let f = choose|f: LSet| #[trigger] td.all_forward.has(f) && f.len() == 1 && f.has(a);
    let (p, at) = choose|p: Place, at: Loa| #[trigger] source_set(r, ts.s[j], p, at, f);
    assert forall|l: Loa| #[trigger] common(r, p, at, l) <==> l == a by { assert(f.has(l) <==> common(r, p, at, l)); if f.has(l) { len_one(f.h, l, a); } }
    assert(sub_target(ts.s[j], r, (p, at)));
  }
  if exists|p: Place, at: Loa| #[trigger] sub_target(ts.s[j], r, (p, at)) && forall|l: Loa| #[trigger] common(r, p, at, l) <==> l == a {
    let (p, at) = choose|p: Place, at: Loa| #[trigger] sub_target(ts.s[j], r, (p, at)) && forall|l: Loa| #[trigger] common(r, p, at, l) <==> l == a;
    let f = choose|f: LSet| #[trigger] td.all_forward.has(f) && source_set(r, ts.s[j], p, at, f);
    assert forall|l: Loa| #[trigger] f.h.has(l) <==> l == a by { assert(f.has(l) == f.h.has(l)); assert(f.has(l) <==> common(r, p, at, l)); assert(common(r, p, at, l) <==> l == a); }
    singleton_len(f.h, a);
  }
}
/// C11: asking for both directions gives the union.
pub proof fn c11_both(r: FlowResults, ts: Lst<Lst<(Place, Loa)>>, j: int, l: Loa)
  requires 0 <= j < ts.len()
  ensures compute_dependencies(r, ts, Direction::Both).len() == ts.len(),
    compute_dependencies(r, ts, Direction::Both).s[j].has(l) <==> compute_dependencies(r, ts, Direction::Forward).s[j].has(l) || compute_dependencies(r, ts, Direction::Backward).s[j].has(l)
{
  broadcast use compute_dependencies_ax;
  let b = compute_dependencies(r, ts, Direction::Both); let f = compute_dependencies(r, ts, Direction::Forward); let k = compute_dependencies(r, ts, Direction::Backward);
  assert(b.s[j].has(l) <==> f.s[j].has(l) || k.s[j].has(l));
}
/// C18: one list of source ranges per target group, in order, each made of its group's dependencies.
pub proof fn c18_spans(r: FlowResults, ts: Lst<Lst<(Place, Loa)>>, d: Direction, sp: Spanner, j: int)
  requires 0 <= j < ts.len()
  ensures compute_dependency_spans(r, ts, d, sp).len() == ts.len(),
    spans_of(sp, r.analysis.body, compute_dependencies(r, ts, d).s[j], compute_dependency_spans(r, ts, d, sp).s[j])
{ broadcast use {compute_dependencies_ax, compute_dependency_spans_ax}; let o = compute_dependency_spans(r, ts, d, sp).s[j]; }

/// C13: a call that cannot be analyzed through its callee has its modular effect, whatever the mode.
pub proof fn c13_falls_back(a: FlowAnalysis, t: Terminator, loc: Location)
  requires t.kind is Call, !recurse_mode() || !inlinable(a, t.kind)
  ensures modular(a, t), call_writes(a.place_info, t.kind->Call_args, t.kind->Call_destination, term_ms(a, t, loc))
{ broadcast use { inlined_ax, ModularMutationVisitor_visit_terminator_ax }; }
/// C13: ... which is any call of an unknown function, of one without a local body, one that does
/// not return, one passed a mutating closure, and one that is being analyzed already.
pub proof fn c13_not_entered(a: FlowAnalysis, call: TerminatorKind, d: DefId, b: BodyId)
  requires call is Call
  ensures call->Call_func.constant() is None ==> !inlinable(a, call),
    call->Call_func.constant() is Some && !(call->Call_func.constant()->Some_0.const_.ty().kind() is FnDef) ==> !inlinable(a, call),
    ({ let k = call->Call_func.constant()->Some_0.const_.ty().kind(); call->Call_func.constant() is Some && k is FnDef && k->FnDef_0 == d
      && (a.tcx.hir_get_if_local(d) is None || a.tcx.fn_sig(d).skip_binder().output().skip_binder().is_never()) ==> !inlinable(a, call) }),
    takes_closure(a, call) ==> !inlinable(a, call),
    callee(a, call) == Opt::Some((d, b)) && analysis_stack(a).has(b) ==> !inlinable(a, call)
{ }
/// What an entered call writes.
pub open spec fn entered(a: FlowAnalysis, t: Terminator) -> bool { t.kind is Call && recurse_mode() && inlinable(a, t.kind) }
/// C13: an entered call overwrites its destination, and writes, with their inputs, exactly the
/// translations of the callee places that may have been written at the callee's return.
pub proof fn c13_entered(a: FlowAnalysis, st: Matrix<Place>, t: Terminator, loc: Location)
  requires entered(a, t)
  ensures term_ms(a, t, loc).len() > 0, term_ms(a, t, loc).s[0].mutated == t.kind->Call_destination, term_ms(a, t, loc).s[0].status is Definitely,
    inlining(a, t.kind, term_ms(a, t, loc)), rows_after(a, st, term_ms(a, t, loc), loc, a.apply_primary_terminator_effect(st, t, loc).1)
{
  broadcast use { inlined_ax, FlowAnalysis_recurse_into_call_ax, FlowAnalysis_apply_primary_terminator_effect_ax };
  assert(a.recurse_into_call(st, t.kind, loc).0);
  assert(inlining(a, t.kind, inlined(a, t.kind)->Some_0));
}
/// C13: the destination depends on the call.
pub proof fn c13_destination(a: FlowAnalysis, st: Matrix<Place>, t: Terminator, loc: Location, k: Place)
  requires entered(a, t), written(a, t.kind->Call_destination, k)
  ensures a.apply_primary_terminator_effect(st, t, loc).1.has(k, Loa::Location(loc))
{
  c13_entered(a, st, t, loc);
  let ms = term_ms(a, t, loc);
  let m = choose|m: Matrix<Place>| #[trigger] at_return(callee_flow(a, t.kind), callee_facts(a, t.kind).body, m) && writes_of(a, t.kind, m, ms);
  broadcast use FlowAnalysis_transfer_function_ax;
  assert forall|j: int| 0 < j < ms.len() implies !cleared(a, #[trigger] ms.s[j], k) by { assert(is_child_write(a, t.kind, m, ms.s[j])); }
  c01_write_inherits(a, st, ms, loc, 0, k, Loa::Location(loc));
}
/// C13: a callee place with dependencies `l1` and `l2` at the callee's returns, translated to `p`,
/// passes on to `p` what every covered callee place's translation depends on in the caller.
pub proof fn c13_mutated(a: FlowAnalysis, st: Matrix<Place>, t: Terminator, loc: Location, child: Place, r1: Location, l1: Loa, r2: Location, l2: Loa, p: Place, k: Place, l: Loa)
  requires entered(a, t), to_parent(a, t.kind, child, true) == Opt::Some(p), written(a, p, k), ({
    let f = callee_flow(a, t.kind); let b = callee_facts(a, t.kind).body;
    &&& returns_at(b, r1) && f.state_at(r1).has(child, l1)
    &&& child.local == RETURN_PLACE || (returns_at(b, r2) && f.state_at(r2).has(child, l2) && l1 != l2)
    &&& l == Loa::Location(loc) || exists|row: Place, x: Place, q: Place| #[trigger] covered(f, b, child, row) && #[trigger] translates(a, t.kind, row, x) && #[trigger] influence(a, x, q) && st.has(a.place_info.normalize(q), l)
  })
  ensures a.apply_primary_terminator_effect(st, t, loc).1.has(k, l)
{
  c13_entered(a, st, t, loc);
  let f = callee_flow(a, t.kind); let b = callee_facts(a, t.kind).body; let ms = term_ms(a, t, loc);
  let m = choose|m: Matrix<Place>| #[trigger] at_return(f, b, m) && writes_of(a, t.kind, m, ms);
  broadcast use { FlowAnalysis_transfer_function_ax, mx_tracks };
  assert(m.has(child, l1));
  assert(m.tracks(child));
  if child.local != RETURN_PLACE { assert(m.has(child, l2)); two_deps(m.row_set(child), l1, l2); }
  assert(was_written(m, child));
  assert(has_child_write(a, t.kind, m, child, ms));
  let i = choose|i: int| 0 < i < ms.len() && child_write(a, t.kind, m, child, #[trigger] ms.s[i]);
  assert forall|j: int| i < j < ms.len() implies !cleared(a, #[trigger] ms.s[j], k) by { assert(is_child_write(a, t.kind, m, ms.s[j])); }
  if l != Loa::Location(loc) {
    let (row, x, q) = choose|row: Place, x: Place, q: Place| #[trigger] covered(f, b, child, row) && #[trigger] translates(a, t.kind, row, x) && #[trigger] influence(a, x, q) && st.has(a.place_info.normalize(q), l);
    covered_is_fed(f, b, m, child, row);
    assert(fed(m, child, row));
    assert(ms.s[i].inputs.has(x));
  }
  c01_write_inherits(a, st, ms, loc, i, k, l);
}
/// What `row` depends on at some return of the callee is among what `child` does.
pub open spec fn covered(f: AnalysisResults, b: Body, child: Place, row: Place) -> bool {
  &&& exists|r: Location| #[trigger] returns_at(b, r) && f.state_at(r).tracks(row)
  &&& forall|r: Location, x: Loa| #[trigger] returns_at(b, r) && #[trigger] f.state_at(r).has(row, x) ==> exists|s: Location| #[trigger] returns_at(b, s) && f.state_at(s).has(child, x)
}
pub open spec fn translates(a: FlowAnalysis, call: TerminatorKind, row: Place, x: Place) -> bool { to_parent(a, call, row, false) == Opt::Some(x) }
pub proof fn covered_is_fed(f: AnalysisResults, b: Body, m: Matrix<Place>, child: Place, row: Place)
  requires at_return(f, b, m) ensures covered(f, b, child, row) <==> fed(m, child, row)
{
  assert(forall|x: Loa| #[trigger] m.row_set(row).has(x) <==> m.has(row, x));
  assert(forall|x: Loa| #[trigger] m.row_set(child).has(x) <==> m.has(child, x));
  if covered(f, b, child, row) {
    assert forall|x: Loa| #[trigger] m.row_set(row).has(x) implies m.row_set(child).has(x) by { assert(m.has(row, x)); }
    assert(m.tracks(row));
  }
  if fed(m, child, row) {
    assert forall|r: Location, x: Loa| #[trigger] returns_at(b, r) && #[trigger] f.state_at(r).has(row, x) implies exists|s: Location| #[trigger] returns_at(b, s) && f.state_at(s).has(child, x) by {
      assert(m.has(row, x)); assert(m.row_set(child).has(x)); assert(m.has(child, x)); }
  }
}
pub proof fn two_deps(s: LSet, x: Loa, y: Loa) requires s.has(x), s.has(y), x != y ensures s.len() > 1 {
  len_one(s.h, x, y); len_zero(s.h, x); shuffle_ax(s.h.s); distinct_pos(s.h.s); assert(s.h.len() != 1);
}
/// C13: nothing but the destination and translated callee places is written.
pub proof fn c13_nothing_else(a: FlowAnalysis, t: Terminator, loc: Location, i: int)
  requires entered(a, t), 0 < i < term_ms(a, t, loc).len()
  ensures ({ let mu = term_ms(a, t, loc).s[i];
    mu.status is Possibly && exists|child: Place| (child.local == RETURN_PLACE || child.is_arg(callee_facts(a, t.kind).body) && child.is_indirect()) && #[trigger] to_parent(a, t.kind, child, true) == Opt::Some(mu.mutated) })
{
  c13_entered(a, arbitrary(), t, loc);
  let ms = term_ms(a, t, loc);
  let m = choose|m: Matrix<Place>| #[trigger] at_return(callee_flow(a, t.kind), callee_facts(a, t.kind).body, m) && writes_of(a, t.kind, m, ms);
  assert(is_child_write(a, t.kind, m, ms.s[i]));
  let child = choose|child: Place| #[trigger] child_write(a, t.kind, m, child, ms.s[i]);
  reveal(translated);
  assert(to_parent(a, t.kind, child, true) == Opt::Some(ms.s[i].mutated));
}
/// C13: the callee's results are those of its own analysis.
pub proof fn c13_callee_solved(a: FlowAnalysis, call: TerminatorKind)
  requires inlinable(a, call)
  ensures solved(callee_flow(a, call).analysis, callee_facts(a, call).body, callee_flow(a, call).state), callee_flow(a, call).analysis.body == callee_facts(a, call).body
{ broadcast use compute_flow_ax; }
/// Every body on the stack was entered while it was not on the stack.
pub open spec fn nested(stack: Seq<BodyId>) -> bool decreases stack.len() {
  stack.len() == 0 || (nested(stack.drop_last()) && !stack.drop_last().contains(stack.last()))
}
pub proof fn nested_distinct(stack: Seq<BodyId>) requires nested(stack) ensures stack.no_duplicates() decreases stack.len() {
  if stack.len() > 0 {
    nested_distinct(stack.drop_last());
    assert forall|i: int, j: int| 0 <= i < j < stack.len() implies stack[i] != stack[j] by {
      assert(stack.drop_last()[i] == stack[i]);
      if j == stack.len() - 1 { assert(stack.drop_last().contains(stack[i])); } else { assert(stack.drop_last()[j] == stack[j]); }
    }
  }
}
/// C13: entering callees nests no deeper than there are functions: recursive programs terminate.
pub proof fn c13_terminates(stack: Seq<BodyId>, bodies: Set<BodyId>)
  requires nested(stack), forall|i: int| 0 <= i < stack.len() ==> bodies.contains(#[trigger] stack[i])
  ensures stack.len() <= bodies.len()
{
  nested_distinct(stack);
  stack.unique_seq_to_set();
  assert forall|b: BodyId| #[trigger] stack.to_set().contains(b) implies bodies.contains(b) by { assert(stack.contains(b)); }
  vstd::set_lib::lemma_len_subset(stack.to_set(), bodies);
}

/// The slice of the places in `ts`: the ranges of what they depend on and of what depends on them.
pub open spec fn slice_of(flow: FlowResults, sp: Spanner, ts: Lst<(Place, Loa)>, out: Lst<Span>) -> bool {
  exists|x: Lst<Span>| out == #[trigger] Span::merge_overlaps(x) && forall|s: Span| #[trigger] x.has(s) <==> in_slice(flow, sp, ts, s)
}
pub open spec fn in_slice(flow: FlowResults, sp: Spanner, ts: Lst<(Place, Loa)>, s: Span) -> bool {
  exists|l: Loa| #[trigger] sp.location_to_spans(l, flow.analysis.body, EnclosingHirSpans::OuterOnly).has(s) && (forwards(flow, ts, l) || backwards(flow, ts, l))
}
/// What a function's entries are made from.
pub struct FocusCtx { pub flow: FlowResults, pub sp: Spanner, pub body: Body, pub m: SourceMap, pub d: DirectInfluence }
pub open spec fn focus_ctx(tcx: TyCtxt, b: BodyId) -> FocusCtx {
  let f = facts_of(tcx, b); let flow = compute_flow(tcx, b, f);
  FocusCtx { flow, sp: Spanner::new(tcx, b, f.body), body: f.body, m: tcx.sess.source_map(), d: DirectInfluence::build(f.body, flow.analysis.place_info) }
}
/// `e` describes the places selectable at `k`.
#[verifier::opaque]
pub open spec fn entry_for(c: FocusCtx, k: SpanData, e: PlaceEntry) -> bool {
  exists|ts: Lst<(Place, Loa)>, slice: Lst<Span>| places_of(c.sp.mir_span_tree, k, ts) && #[trigger] slice_of(c.flow, c.sp, ts, slice) && #[trigger] describes(c.d, c.sp, c.body, c.m, (k, ts), slice, e)
}
pub proof fn slice_is(r: FlowResults, ts: Lst<Lst<(Place, Loa)>>, sp: Spanner, j: int)
  requires 0 <= j < ts.len() ensures slice_of(r, sp, ts.s[j], compute_dependency_spans(r, ts, Direction::Both, sp).s[j])
{
  broadcast use { compute_dependencies_ax, compute_dependency_spans_ax };
  let out = compute_dependency_spans(r, ts, Direction::Both, sp).s[j]; let d = compute_dependencies(r, ts, Direction::Both).s[j];
  assert(spans_of(sp, r.analysis.body, d, out));
  let x = choose|x: Lst<Span>| out == #[trigger] Span::merge_overlaps(x) && forall|s: Span| #[trigger] x.has(s) <==> exists|l: Loa| #[trigger] d.has(l) && sp.location_to_spans(l, r.analysis.body, EnclosingHirSpans::OuterOnly).has(s);
  assert forall|s: Span| #[trigger] x.has(s) <==> in_slice(r, sp, ts.s[j], s) by {
    if x.has(s) { let l = choose|l: Loa| #[trigger] d.has(l) && sp.location_to_spans(l, r.analysis.body, EnclosingHirSpans::OuterOnly).has(s); assert(forwards(r, ts.s[j], l) || backwards(r, ts.s[j], l)); }
    if in_slice(r, sp, ts.s[j], s) {
      let l = choose|l: Loa| #[trigger] sp.location_to_spans(l, r.analysis.body, EnclosingHirSpans::OuterOnly).has(s) && (forwards(r, ts.s[j], l) || backwards(r, ts.s[j], l));
      assert(d.has(l)); assert(x.has(s));
    }
  }
}
pub proof fn entry_group(d: DirectInfluence, sp: Spanner, body: Body, m: SourceMap, g: Lst<Group>, slices: Lst<Lst<Span>>, n: int, es: Lst<PlaceEntry>, e: PlaceEntry) -> (i: int)
  requires entries(d, sp, body, m, g, slices, n, es), es.has(e) ensures 0 <= i < n, describes(d, sp, body, m, g.s[i], slices.s[i], e)
{ reveal(entries); choose|i: int| 0 <= i < n && describes(d, sp, body, m, #[trigger] g.s[i], slices.s[i], e) }
pub proof fn group_entry(d: DirectInfluence, sp: Spanner, body: Body, m: SourceMap, g: Lst<Group>, slices: Lst<Lst<Span>>, n: int, es: Lst<PlaceEntry>, i: int) -> (e: PlaceEntry)
  requires entries(d, sp, body, m, g, slices, n, es), 0 <= i < n, CharRange::from_span(g.s[i].0.span(), m) is Ok ensures es.has(e), describes(d, sp, body, m, g.s[i], slices.s[i], e)
{ reveal(entries); choose|e: PlaceEntry| #[trigger] es.has(e) && describes(d, sp, body, m, g.s[i], slices.s[i], e) }
pub proof fn entry_count(d: DirectInfluence, sp: Spanner, body: Body, m: SourceMap, g: Lst<Group>, slices: Lst<Lst<Span>>, n: int, es: Lst<PlaceEntry>)
  requires entries(d, sp, body, m, g, slices, n, es) ensures es.len() <= n
{ reveal(entries); }
pub proof fn group_of(tree: Lst<MirSpannedPlace>, g: Lst<Group>, m: MirSpannedPlace) -> (i: int)
  requires grouping(tree, g), tree.has(m) ensures 0 <= i < g.s.len(), g.s[i].0 == m.span
{ reveal(grouping); choose|i: int| 0 <= i < g.s.len() && #[trigger] g.s[i].0 == m.span }
#[verifier::opaque]
pub open spec fn places_of(tree: Lst<MirSpannedPlace>, k: SpanData, ts: Lst<(Place, Loa)>) -> bool { forall|x: (Place, Loa)| #[trigger] ts.has(x) <==> selectable(tree, k, x) }
pub proof fn group_is(tree: Lst<MirSpannedPlace>, g: Lst<Group>, i: int)
  requires grouping(tree, g), 0 <= i < g.s.len() ensures places_of(tree, g.s[i].0, g.s[i].1), span_used(tree, g.s[i].0)
{ reveal(grouping); reveal(places_of); }
pub proof fn group_keys(tree: Lst<MirSpannedPlace>, g: Lst<Group>) -> (ks: Seq<SpanData>)
  requires grouping(tree, g) ensures ks.no_duplicates(), ks.len() == g.s.len(), forall|i: int| 0 <= i < ks.len() ==> span_used(tree, #[trigger] ks[i])
{ reveal(grouping); let ks = Seq::new(g.s.len(), |i: int| g.s[i].0); ks }
/// The entry of group `i`.
pub proof fn entry_is(c: FocusCtx, g: Lst<Group>, ts: Lst<Lst<(Place, Loa)>>, i: int, e: PlaceEntry)
  requires grouping(c.sp.mir_span_tree, g), targets_of(g, ts), 0 <= i < g.s.len(),
    describes(c.d, c.sp, c.body, c.m, g.s[i], compute_dependency_spans(c.flow, ts, Direction::Both, c.sp).s[i], e)
  ensures entry_for(c, g.s[i].0, e), span_used(c.sp.mir_span_tree, g.s[i].0)
{
  group_is(c.sp.mir_span_tree, g, i);
  assert(ts.s[i] == g.s[i].1);
  slice_is(c.flow, ts, c.sp, i);
  let slice = compute_dependency_spans(c.flow, ts, Direction::Both, c.sp).s[i];
  reveal(entry_for);
  assert(g.s[i] == (g.s[i].0, g.s[i].1));
  assert(slice_of(c.flow, c.sp, g.s[i].1, slice) && describes(c.d, c.sp, c.body, c.m, (g.s[i].0, g.s[i].1), slice, e));
}
pub proof fn focus_groups(tcx: TyCtxt, b: BodyId) -> (r: (Lst<Group>, Lst<Lst<(Place, Loa)>>))
  requires focus(tcx, b) is Ok
  ensures ({ let c = focus_ctx(tcx, b); grouping(c.sp.mir_span_tree, r.0) && targets_of(r.0, r.1)
    && entries(c.d, c.sp, c.body, c.m, r.0, compute_dependency_spans(c.flow, r.1, Direction::Both, c.sp), r.0.s.len() as int, focus(tcx, b)->Ok_0.place_info) })
{
  broadcast use focus_ax;
  let c = focus_ctx(tcx, b); let es = focus(tcx, b)->Ok_0.place_info;
  assert(place_entries(tcx, b, es));
  choose|g: Lst<Group>, ts: Lst<Lst<(Place, Loa)>>| grouping(c.sp.mir_span_tree, g) && #[trigger] targets_of(g, ts)
    && entries(c.d, c.sp, c.body, c.m, g, compute_dependency_spans(c.flow, ts, Direction::Both, c.sp), g.s.len() as int, es)
}
/// C15: every entry describes one selectable range: its slice is that of exactly the places there,
/// and its direct influences are ranges of locations that touch them, within the slice.
pub proof fn c15_entries(tcx: TyCtxt, b: BodyId, e: PlaceEntry)
  requires focus(tcx, b) is Ok, focus(tcx, b)->Ok_0.place_info.has(e)
  ensures exists|k: SpanData| #[trigger] span_used(focus_ctx(tcx, b).sp.mir_span_tree, k) && entry_for(focus_ctx(tcx, b), k, e)
{
  let c = focus_ctx(tcx, b);
  let (g, ts) = focus_groups(tcx, b);
  let i = entry_group(c.d, c.sp, c.body, c.m, g, compute_dependency_spans(c.flow, ts, Direction::Both, c.sp), g.s.len() as int, focus(tcx, b)->Ok_0.place_info, e);
  entry_is(c, g, ts, i, e);
}
/// C15: every selectable range that can be shown has an entry, and there are no more entries than ranges.
pub proof fn c15_complete(tcx: TyCtxt, b: BodyId)
  requires focus(tcx, b) is Ok
  ensures ({ let c = focus_ctx(tcx, b); let es = focus(tcx, b)->Ok_0.place_info;
    &&& forall|p: MirSpannedPlace| #[trigger] c.sp.mir_span_tree.has(p) && (CharRange::from_span(p.span.span(), c.m) is Ok) ==> exists|e: PlaceEntry| #[trigger] es.has(e) && entry_for(c, p.span, e)
    &&& exists|ks: Seq<SpanData>| #[trigger] ks.no_duplicates() && es.len() <= ks.len() && forall|i: int| 0 <= i < ks.len() ==> span_used(c.sp.mir_span_tree, #[trigger] ks[i]) })
{
  let c = focus_ctx(tcx, b); let es = focus(tcx, b)->Ok_0.place_info;
  let (g, ts) = focus_groups(tcx, b);
  let sl = compute_dependency_spans(c.flow, ts, Direction::Both, c.sp);
  assert forall|p: MirSpannedPlace| #[trigger] c.sp.mir_span_tree.has(p) && (CharRange::from_span(p.span.span(), c.m) is Ok) implies exists|e: PlaceEntry| #[trigger] es.has(e) && entry_for(c, p.span, e) by {
    let i = group_of(c.sp.mir_span_tree, g, p);
    let e = group_entry(c.d, c.sp, c.body, c.m, g, sl, g.s.len() as int, es, i);
    entry_is(c, g, ts, i, e);
  }
  let ks = group_keys(c.sp.mir_span_tree, g);
  entry_count(c.d, c.sp, c.body, c.m, g, sl, g.s.len() as int, es);
}
/// C15: direct influences are ranges of spans inside the slice, at locations that read or write a place reachable from a selected one.
pub proof fn c15_direct(c: FocusCtx, g: Group, slice: Lst<Span>, e: PlaceEntry, r: CharRange)
  requires describes(c.d, c.sp, c.body, c.m, g, slice, e), e.direct_influence.has(r), c.d == DirectInfluence::build(c.body, c.flow.analysis.place_info)
  ensures exists|s: Span, t: (Place, Loa), q: Place, l: Loa| #![trigger shown(s, c.m, r), g.1.has(t), touched(c.flow.analysis.place_info, ModularMutationVisitor::ev_visit_body(c.flow.analysis.place_info, c.body), q, l)]
    shown(s, c.m, r) && (exists|w: Span| #[trigger] slice.has(w) && w.contains(s)) && g.1.has(t) && c.flow.analysis.place_info.reachable_values(t.0, Mutability::Not).has(q)
    && touched(c.flow.analysis.place_info, ModularMutationVisitor::ev_visit_body(c.flow.analysis.place_info, c.body), q, l) && c.sp.location_to_spans(l, c.body, EnclosingHirSpans::None).has(s)
{
  broadcast use DirectInfluence_build_ax;
  let s = choose|s: Span| #[trigger] direct_span(c.d, c.sp, c.body, g.1, slice, s) && shown(s, c.m, r);
  reveal(direct_span);
  let (t, l) = choose|t: (Place, Loa), l: Loa| #[trigger] g.1.has(t) && #[trigger] looked_up(c.d, t.0, l) && c.sp.location_to_spans(l, c.body, EnclosingHirSpans::None).has(s);
  let q = choose|q: Place| #[trigger] c.d.place_info.reachable_values(t.0, Mutability::Not).has(q) && c.d.influence.has(q, l);
  assert(touched(c.flow.analysis.place_info, ModularMutationVisitor::ev_visit_body(c.flow.analysis.place_info, c.body), q, l));
}
/// C15: the containers are the body, the return type and, with parameters, one range over them.
pub proof fn c15_containers(tcx: TyCtxt, b: BodyId)
  requires focus(tcx, b) is Ok
  ensures ({ let c = focus_ctx(tcx, b); let rs = focus(tcx, b)->Ok_0.containers; let ps = tcx.hir_body(b).params;
    &&& rs.len() == (if ps.len() == 0 { 2int } else { 3int })
    &&& CharRange::from_span(c.sp.body_span, c.m) == Res::<CharRange, Error>::Ok(rs.s[0])
    &&& CharRange::from_span(c.sp.ret_span, c.m) == Res::<CharRange, Error>::Ok(rs.s[1])
    &&& ps.len() > 0 ==> CharRange::from_span(joined(param_spans(ps))->Some_0, c.m) == Res::<CharRange, Error>::Ok(rs.s[2]) })
{
  broadcast use focus_ax;
  let c = focus_ctx(tcx, b); let l = container_spans(c.sp, tcx.hir_body(b));
  assert(ranges_of(l, c.m, focus(tcx, b)->Ok_0.containers));
  assert(l.s[0] == c.sp.body_span); assert(l.s[1] == c.sp.ret_span);
  if tcx.hir_body(b).params.len() > 0 { assert(l.s[2] == joined(param_spans(tcx.hir_body(b).params))->Some_0); }
}
/// C16: each mode is selected by its own name only, and an omitted flag is the precise modular default.
pub proof fn c16_names(a: FlowistryPluginArgs, s: Str)
  ensures
    MutabilityMode::from_str(s) == Res::<MutabilityMode, Str>::Ok(MutabilityMode::DistinguishMut) <==> s == STR("DistinguishMut"),
    MutabilityMode::from_str(s) == Res::<MutabilityMode, Str>::Ok(MutabilityMode::IgnoreMut) <==> s == STR("IgnoreMut"),
    ContextMode::from_str(s) == Res::<ContextMode, Str>::Ok(ContextMode::SigOnly) <==> s == STR("SigOnly"),
    ContextMode::from_str(s) == Res::<ContextMode, Str>::Ok(ContextMode::Recurse) <==> s == STR("Recurse"),
    PointerMode::from_str(s) == Res::<PointerMode, Str>::Ok(PointerMode::Precise) <==> s == STR("Precise"),
    PointerMode::from_str(s) == Res::<PointerMode, Str>::Ok(PointerMode::Conservative) <==> s == STR("Conservative"),
    a.mutability_mode is None && a.context_mode is None && a.pointer_mode is None ==> requested(a) == default_mode() && requested(a) == EvalMode::default(),
    a.mutability_mode is Some ==> requested(a).mutability_mode == a.mutability_mode->Some_0,
    a.context_mode is Some ==> requested(a).context_mode == a.context_mode->Some_0,
    a.pointer_mode is Some ==> requested(a).pointer_mode == a.pointer_mode->Some_0
{ broadcast use { MutabilityMode_from_str_ax, ContextMode_from_str_ax, PointerMode_from_str_ax, EvalMode_default_ax }; }
/// C16: what is printed and returned tells a success, an analysis failure, a missing file and a
/// build failure apart (serde_json, gzip and base64 being injective).
pub proof fn c16_distinct<T>(r1: FlowistryResult<T>, r2: FlowistryResult<T>, s: Lst<Str>, out: Res<(), ErrorGuaranteed>, s2: Lst<Str>)
  requires forall|a: FlowistryResult<T>, b: FlowistryResult<T>| #[trigger] printed(a) == #[trigger] printed(b) ==> a == b, finished(r1, s, out, s2), finished(r2, s, out, s2)
  ensures r1 == r2, out is Err ==> s2 == s && r1 == FlowistryResult::<T>::Err(FlowistryError::BuildError), out is Ok ==> s2.len() == s.len() + 1
{
  if r1 != FlowistryResult::<T>::Err(FlowistryError::BuildError) {
    assert(s2.s.last() == printed(r1)); assert(s2.s.last() == printed(r2));
  }
}
/// C16: an analysis runs under the requested modes, and its failure is reported as one.
pub proof fn c16_failure(a: Analysis, target: CharRange, all: Lst<Str>, mode: EvalMode)
  requires builds(all)
  ensures outcome(a, target, session(all), mode) is Err ==> reported(a, target, all, mode) matches Res::Err(FlowistryError::AnalysisError { error: _ }),
    outcome(a, target, session(all), mode) is Ok ==> reported(a, target, all, mode) is Ok,
    forall|span: Span, b: BodyId| target.to_span(session(all)) == Res::<Span, Error>::Ok(span) && #[trigger] find_enclosing_bodies(session(all), span).next() == Opt::Some(b)
      ==> outcome(a, target, session(all), mode) == #[trigger] a.analyze(session(all), b, Opt::Some(mode))
{}

// C14: the checker's verdicts.
/// A body of the crate has an insecure flow.
pub open spec fn crate_leaks(tcx: TyCtxt) -> bool { exists|t: BodyId, b: BodyId| #[trigger] item_bodies(tcx).has(t) && #[trigger] within(tcx, t, b) && flagged(tcx, b) }
/// An issue is found exactly when some pair leaks at the joined end of the body.
pub proof fn c14_pairs(r: FlowResults, b: BodyId, s: Lst<Str>, c: CrateNum, st: Matrix<Place>)
  requires writes_ok(), marker_crate(r.analysis.tcx) == Opt::Some(c), r.analysis.body.all_returns().len() != 0, end_state(r, st),
  ensures analyze(b, r, s).0 == Res::<IssueFound, Error>::Ok(IssueFound::Yes) <==> exists|i: Place, j: Place| #[trigger] leaks(r, c, owner(r.analysis.tcx, b), st, i, j)
{
  broadcast use analyze_ax;
  let d = owner(r.analysis.tcx, b); let (out, s2) = analyze(b, r, s);
  let e = choose|errs: Lst<(Place, Place)>| #[trigger] insecure_flows(r, b, errs) && (out->Ok_0 is Yes <==> errs.len() > 0) && s2.len() >= s.len() + errs.len();
  let t = choose|t: Matrix<Place>| #[trigger] end_state(r, t) && insecure_in(r, c, d, t, e);
  assert(insecure_in(r, c, d, t, e));
  reveal(insecure_in);
  if e.len() > 0 { at(e, 0); let (i, j) = e.s[0]; assert(e.has((i, j))); reads_same(r, t, st, i, j); assert(leaks(r, c, d, st, i, j)); }
  if exists|i: Place, j: Place| #[trigger] leaks(r, c, d, st, i, j) {
    let (i, j) = choose|i: Place, j: Place| #[trigger] leaks(r, c, d, st, i, j); reads_same(r, t, st, i, j); assert(e.has((i, j))); let n = wit(e, (i, j));
  }
}
/// Without the markers, or in a body that never returns, there is nothing to report.
pub proof fn c14_none(r: FlowResults, b: BodyId, s: Lst<Str>)
  requires writes_ok(), marker_crate(r.analysis.tcx) is None || r.analysis.body.all_returns().len() == 0
  ensures analyze(b, r, s) == (Res::<IssueFound, Error>::Ok(IssueFound::No), s)
{ broadcast use analyze_ax; }
/// "No security issues found!" is said exactly when no body of the crate has an insecure flow.
pub proof fn c14_verdict(k: IfcCallbacks, comp: Compiler, tcx: TyCtxt, s: Lst<Str>)
  requires writes_ok()
  ensures ({ let said = walked(IfcVisitor { tcx, issue_found: IssueFound::No }, s, item_bodies(tcx).s).1; let s2 = k.after_analysis(comp, tcx, s).2;
    &&& s2 == said || s2 == said.push_upd(STR("No security issues found!"))
    &&& s2 == said <==> crate_leaks(tcx) })
{
  broadcast use IfcCallbacks_after_analysis_ax;
  let l = item_bodies(tcx); let said = walked(IfcVisitor { tcx, issue_found: IssueFound::No }, s, l.s).1;
  assert(said.push_upd(STR("No security issues found!")).s.len() == said.s.len() + 1);
  if flagged_among(tcx, l.s) {
    let t = choose|t: BodyId| #[trigger] l.s.contains(t) && flagged_in(tcx, t); let i = choose|i: int| 0 <= i < l.s.len() && l.s[i] == t; at(l, i);
    let b = choose|c: BodyId| #[trigger] within(tcx, t, c) && flagged(tcx, c);
    assert(crate_leaks(tcx));
  }
  if crate_leaks(tcx) {
    let (t, b) = choose|t: BodyId, b: BodyId| #[trigger] l.has(t) && #[trigger] within(tcx, t, b) && flagged(tcx, b);
    let i = wit(l, t); assert(l.s.contains(t)); assert(flagged_in(tcx, t));
  }
}
/// A body's own verdict counts, whatever bodies it contains.
pub proof fn c14_body(v: IfcVisitor, b: BodyId, s: Lst<Str>)
  requires writes_ok() ensures flagged(v.tcx, b) || v.issue_found is Yes ==> v.visit_nested_body(b, s).0.issue_found is Yes
{ broadcast use IfcVisitor_visit_nested_body_ax; within_step(v.tcx, b); }
