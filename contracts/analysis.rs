@fn FlowAnalysis::influences
file: crates/flowistry/src/infoflow/analysis.rs
params: self: FlowAnalysis, place: Place
ret: out: Lst<Place>
ensures mem: forall|q: Place| #[trigger] out.has(q) <==> influence(self, place, q)
@end

/// What a place's value is made of: everything overlapping an alias of it, everything
/// overlapping a reference it goes through, and the variables that index it.
pub open spec fn influence(a: FlowAnalysis, p: Place, q: Place) -> bool {
  overlap(a.place_info, p, q)
  || (exists|r: (Place, Lst<PlaceElem>)| #[trigger] p.refs_in_projection(a.body, a.tcx).has(r) && overlap(a.place_info, r.0, q))
  || (exists|e: PlaceElem| #[trigger] p.projection.has(e) && e is Index && e->Index_0 != RETURN_PLACE
      && a.place_info.conflicts(Place::from_local(e->Index_0, a.tcx)).has(q))
}
/// `q` conflicts with an alias of `p`.
pub open spec fn overlap(pi: PlaceInfo, p: Place, q: Place) -> bool {
  exists|al: Place| #[trigger] pi.aliases(p).has(al) && pi.conflicts(al).has(q)
}

/// Some influence on `p` carries `l`.
pub open spec fn infl_dep(a: FlowAnalysis, st: Matrix<Place>, p: Place, l: Loa) -> bool {
  exists|r: Place| #[trigger] a.influences(p).has(r) && st.has(a.place_info.normalize(r), l)
}
/// Reading `p` in `st` yields `l`.
pub open spec fn reads(a: FlowAnalysis, st: Matrix<Place>, p: Place, l: Loa) -> bool {
  exists|q: Place| #[trigger] a.place_info.reachable_values(p, Mutability::Not).has(q) && infl_dep(a, st, q, l)
}
@fn FlowAnalysis::deps_for
file: crates/flowistry/src/infoflow/analysis.rs
params: self: FlowAnalysis, state: Matrix<Place>, place: Place
ret: out: LSet
ensures mem: forall|l: Loa| #[trigger] out.has(l) <==> reads(self, state, place, l)
post:
  assert forall|l: Loa| reads(self, state, place, l) implies #[trigger] out.has(l) by {
    let q = choose|q: Place| #[trigger] self.place_info.reachable_values(place, Mutability::Not).has(q) && infl_dep(self, state, q, l);
    let r = choose|r: Place| #[trigger] self.influences(q).has(r) && state.has(self.place_info.normalize(r), l);
    assert(cand(r));
  }
loop 0
  inv: forall|l: Loa| #[trigger] V(deps).has(l) <==> exists|r: Place| #[trigger] SEEN(r) && state.has(self.place_info.normalize(r), l),
@end

pub open spec fn controls(a: FlowAnalysis, b: BasicBlock, c: BasicBlock) -> bool {
  match a.control_dependencies.dependent_on(b) { Opt::Some(s) => s.has(c), Opt::None => false }
}
/// What running under the control of block `c` adds.
pub open spec fn ctl_dep(a: FlowAnalysis, st: Matrix<Place>, c: BasicBlock, l: Loa) -> bool {
  l == Loa::Location(a.body.terminator_loc(c)) || match a.body.basic_blocks.idx(c).terminator().kind {
    TerminatorKind::SwitchInt { discr, .. } => discr.as_place() is Some && infl_dep(a, st, discr.as_place()->Some_0, l),
    _ => false,
  }
}
pub open spec fn input_dep(a: FlowAnalysis, st: Matrix<Place>, m: Mutation, l: Loa) -> bool {
  exists|p: Place| #[trigger] m.inputs.has(p) && infl_dep(a, st, p, l)
}
/// The dependencies of one of the mutations at `loc`, before the mutated place's own.
pub open spec fn dep_base(a: FlowAnalysis, st: Matrix<Place>, m: Mutation, loc: Location, l: Loa) -> bool {
  l == Loa::Location(loc) || input_dep(a, st, m, l) || exists|c: BasicBlock| #[trigger] controls(a, loc.block, c) && ctl_dep(a, st, c, l)
}
/// The place is one element (or some elements) of an array or slice.
pub open spec fn is_element(p: Place) -> bool {
  exists|e: PlaceElem| #[trigger] p.projection.has(e) && (e is Index || e is ConstantIndex || e is Subslice)
}
/// `k` is overwritten by `m`.
pub open spec fn cleared(a: FlowAnalysis, m: Mutation, k: Place) -> bool {
  m.status is Definitely && !is_element(m.mutated) && a.place_info.aliases(m.mutated).len() == 1
  && exists|c: Place| #[trigger] a.place_info.children(m.mutated).has(c) && a.place_info.normalize(c) == k
}
/// No shared reference on the way to `p`.
pub open spec fn mutable_path(a: FlowAnalysis, p: Place) -> bool { mutable_path_in(ignore_mut(), a, p) }
pub open spec fn mutable_path_in(ig: bool, a: FlowAnalysis, p: Place) -> bool {
  ig || !exists|x: (Place, PlaceElem)| #[trigger] p.iter_projections().has(x) && x.0.ty(a.body.local_decls(), a.tcx).ty.ref_mutability() == Opt::Some(Mutability::Not)
}
/// `k` can be changed by a mutation of `p`.
pub open spec fn written(a: FlowAnalysis, p: Place, k: Place) -> bool { written_in(ignore_mut(), a, p, k) }
pub open spec fn written_in(ig: bool, a: FlowAnalysis, p: Place, k: Place) -> bool {
  exists|al: Place| #[trigger] a.place_info.aliases(p).has(al) && mutable_path_in(ig, a, al) && a.place_info.normalize(al) == k
}
/// The state after the first `n` mutations at `loc`, from state `st`.
pub open spec fn after(a: FlowAnalysis, st: Matrix<Place>, ms: Lst<Mutation>, loc: Location, n: int, k: Place, l: Loa) -> bool decreases n {
  if n <= 0 { st.has(k, l) } else {
    let m = ms.s[n - 1];
    (after(a, st, ms, loc, n - 1, k, l) && !cleared(a, m, k))
    || (written(a, m.mutated, k) && (dep_base(a, st, m, loc, l)
        || exists|r: Place| #[trigger] a.influences(m.mutated).has(r) && after(a, st, ms, loc, n - 1, a.place_info.normalize(r), l) && !cleared(a, m, a.place_info.normalize(r))))
  }
}

@fn FlowAnalysis::transfer_function
file: crates/flowistry/src/infoflow/analysis.rs
params: self: FlowAnalysis, state: mut fin: Matrix<Place>, mutations: Lst<Mutation>, location: Location
ensures rows: forall|k: Place, l: Loa| #[trigger] fin.has(k, l) <==> after(self, state, mutations, location, mutations.len(), k, l)
loop 0
  inv: forall|j: int, l: Loa| 0 <= j < $I ==> (#[trigger] V(all_deps).s[j].has(l) <==> l == Loa::Location(location) || input_dep(self, state, mutations.s[j], l)),
  begin: assert(V(mt) == mutations.s[$I - 1]);
loop 1
  inv: forall|l: Loa| #[trigger] V(deps).has(l) <==> l == Loa::Location(location) || exists|p: Place| #[trigger] SEEN(p) && infl_dep(self, state, p, l),
loop 2
  inv: V(all_deps).s.len() == mutations.s.len(),
    forall|j: int, l: Loa| 0 <= j < mutations.s.len() ==> (#[trigger] V(all_deps).s[j].has(l) <==> OLD(all_deps).s[j].has(l) || exists|c: BasicBlock| #[trigger] SEEN(c) && ctl_dep(self, state, c, l)),
  after: assert(forall|c: BasicBlock| #[trigger] $IT.has(c) ==> controls(self, location.block, c));
    assert(forall|c: BasicBlock| #[trigger] controls(self, location.block, c) ==> $IT.has(c));
loop 3
  inv: forall|j: int, l: Loa| 0 <= j < $I ==> (#[trigger] V(all_deps).s[j].has(l) <==> OLD(all_deps).s[j].has(l) || l == Loa::Location(self.body.terminator_loc(V(block)))),
loop 4
  inv: forall|j: int, l: Loa| 0 <= j < $I ==> (#[trigger] V(all_deps).s[j].has(l) <==> OLD(all_deps).s[j].has(l) || infl_dep(self, state, V(discr_place), l)),
loop 5
  before: assert(forall|j: int, l: Loa| 0 <= j < mutations.s.len() ==> (#[trigger] V(all_deps).s[j].has(l) <==> dep_base(self, state, mutations.s[j], location, l)));
  inv: forall|k: Place, l: Loa| #[trigger] V(state).has(k, l) <==> after(self, state, mutations, location, $I, k, l),
  begin: assert(V(mt) == mutations.s[$I - 1]);
loop 6
  inv: forall|k: Place, l: Loa| #[trigger] V(state).has(k, l) <==> OLD(state).has(k, l) && !exists|c: Place| #[trigger] SEEN(c) && self.place_info.normalize(c) == k,
loop add_deps.0
  inv: forall|l: Loa| #[trigger] V(target_deps).has(l) <==> OLD(target_deps).has(l) || exists|r: Place| #[trigger] SEEN(r) && V(state).has(self.place_info.normalize(r), l),
loop 7
  inv: forall|k: Place, l: Loa| #[trigger] V(state).has(k, l) <==> OLD(state).has(k, l) || (V(deps).has(l) && exists|al: Place| #[trigger] SEEN(al) && self.place_info.normalize(al) == k),
@end

/// `k` starts as (part of) argument `l`.
pub open spec fn starts(a: FlowAnalysis, k: Place, l: Loa) -> bool {
  exists|x: (Place, Loa), q: Place| #[trigger] a.place_info.all_args().has(x) && #[trigger] a.place_info.conflicts(x.0).has(q) && a.place_info.normalize(q) == k && x.1 == l
}
@fn FlowAnalysis::initialize_start_block
file: crates/flowistry/src/infoflow/analysis.rs
params: self: FlowAnalysis, _body: Body, state: mut fin: Matrix<Place>
ensures rows: forall|k: Place, l: Loa| #[trigger] fin.has(k, l) <==> state.has(k, l) || starts(self, k, l)
loop 0
  inv: forall|k: Place, l: Loa| #[trigger] V(state).has(k, l) <==> state.has(k, l) || exists|x: (Place, Loa), q: Place| #[trigger] SEEN(x) && #[trigger] self.place_info.conflicts(x.0).has(q) && self.place_info.normalize(q) == k && x.1 == l,
loop 1
  inv: forall|k: Place, l: Loa| #[trigger] V(state).has(k, l) <==> OLD(state).has(k, l) || (l == V(loc) && exists|q: Place| #[trigger] SEEN(q) && self.place_info.normalize(q) == k),
@end

@fn FlowAnalysis::bottom_value
file: crates/flowistry/src/infoflow/analysis.rs
params: self: FlowAnalysis, _body: Body
ret: out: Matrix<Place>
ensures empty: forall|k: Place, l: Loa| !(#[trigger] out.has(k, l))
@end
