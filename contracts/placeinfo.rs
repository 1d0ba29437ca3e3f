@fn PlaceInfo::normalize
file: crates/flowistry/src/mir/placeinfo.rs
params: self: PlaceInfo, place: Place
ret: out: Place
uses: normalize_memo
ensures fun: out == place.normalize(self.tcx, self.def_id)
@end

@fn PlaceInfo::aliases
file: crates/flowistry/src/mir/placeinfo.rs
params: self: PlaceInfo, place: Place
ret: out: HSet<Place>
uses: aliases_memo
ensures mem: forall|q: Place| #[trigger] out.has(q) <==> alias_of(self.aliases, place, q)
ensures one: out.len() == 1 ==> forall|q: Place| #[trigger] out.has(q) ==> q == place
@end

@fn PlaceInfo::children
file: crates/flowistry/src/mir/placeinfo.rs
params: self: PlaceInfo, place: Place
ret: out: HSet<Place>
ensures mem: forall|q: Place| #[trigger] out.has(q) <==> child_of(self, place, q)
@end

@fn PlaceInfo::conflicts
file: crates/flowistry/src/mir/placeinfo.rs
params: self: PlaceInfo, place: Place
ret: out: HSet<Place>
uses: conflicts_memo
ensures mem: forall|q: Place| #[trigger] out.has(q) <==> conflict(self, place, q)
proof:
  let steps = place.iter_projections().s;
  assert(forall|q: Place| #[trigger] encloses(self, place, q) ==> exists|i: int| 0 <= i < steps.len() && cand(#[trigger] steps[i]) && q == steps[i].0
    && ((forall|j: int| i <= j < steps.len() ==> !ptr_step(self, #[trigger] steps[j])) || (forall|j: int| 0 <= j <= i ==> !ptr_step(self, #[trigger] steps[j]))));
@end

@fn PlaceInfo::reachable_values
file: crates/flowistry/src/mir/placeinfo.rs
params: self: PlaceInfo, place: Place, mutability: Mutability
ret: out: HSet<Place>
uses: reachable_memo
ensures mem: forall|q: Place| #[trigger] out.has(q) <==> reachable(self, place, mutability, q)
@end

@fn PlaceInfo::collect_loans
file: crates/flowistry/src/mir/placeinfo.rs
params: self: PlaceInfo, ty: Ty, mutability: Mutability
ret: out: HSet<Place>
ensures mem: forall|q: Place| #[trigger] out.has(q) <==> loan_of_ty(self.aliases, ty, false, mutability, q)
@end

@fn LoanCollector::visit_ty
file: crates/flowistry/src/mir/placeinfo.rs
params: self: mut c: LoanCollector, ty: Ty
ret: out: ControlFlow<()>
try: Cf
requires self.unknown_region.kind() == RegionKind::ReVar(UNKNOWN_REGION)
ensures frame: out is Continue && c.aliases == self.aliases && c.unknown_region == self.unknown_region && c.target_mutability == self.target_mutability && c.stack == self.stack
ensures mem: forall|q: Place| #[trigger] c.loans.has(q) <==> self.loans.has(q) || loan_of_ty(self.aliases, ty, self.stack.has(Mutability::Not), self.target_mutability, q)
@end

@fn LoanCollector::visit_region
file: crates/flowistry/src/mir/placeinfo.rs
params: self: mut c: LoanCollector, region: Region
ret: out: ControlFlow<()>
ensures frame: out is Continue && c.aliases == self.aliases && c.unknown_region == self.unknown_region && c.target_mutability == self.target_mutability && c.stack == self.stack
ensures mem: forall|q: Place| #[trigger] c.loans.has(q) <==> self.loans.has(q) || (region_vid(region) is Some && loan_at(self.aliases, region_vid(region)->Some_0, self.stack.has(Mutability::Not), self.target_mutability, q))
@end

@assume Ty::super_visit_with
params: self: Ty, v: mut v1: LoanCollector
ret: out: ControlFlow<()>
requires v.unknown_region.kind() == RegionKind::ReVar(UNKNOWN_REGION)
ensures frame: out is Continue && v1.aliases == v.aliases && v1.unknown_region == v.unknown_region && v1.target_mutability == v.target_mutability && v1.stack == v.stack
ensures mem: forall|q: Place| #[trigger] v1.loans.has(q) <==> v.loans.has(q) || loan_within(v.aliases, self, v.stack.has(Mutability::Not), v.target_mutability, q)
@end

@fn PlaceInfo::all_args
file: crates/flowistry/src/mir/placeinfo.rs
params: self: PlaceInfo
ret: out: Lst<(Place, Loa)>
ensures mem: forall|x: (Place, Loa)| #[trigger] out.has(x) <==> initial(self, x.0, x.1)
post:
  assert forall|x: (Place, Loa)| initial(self, x.0, x.1) implies #[trigger] out.has(x) by {
    let (a, root) = choose|a: Local, root: Place| #![trigger self.body.args_iter().has(a), root.interior_places(self.tcx, self.body, self.def_id).has(x.0)]
      self.body.args_iter().has(a) && root.interior_places(self.tcx, self.body, self.def_id).has(x.0) && x.1 == Loa::Arg(a) && arg_root(self, a, root);
    let place = Place::from_local(a, self.tcx);
    assert(cand(x.0) && cand(root));
    if root != place {
      let (ptrs, y) = choose|ptrs: Lst<(Place, Mutability)>, y: (Place, Mutability)|
        #[trigger] place.interior_pointers(self.tcx, self.body, self.def_id).into_values().has(ptrs) && #[trigger] ptrs.has(y) && y.0.projection.len() <= 2 && root == self.tcx.mk_place_deref(y.0);
      assert(cand(y) && cand(ptrs));
    }
  }
@end

@fn PlaceInfo::location_domain
file: crates/flowistry/src/mir/placeinfo.rs
params: self: PlaceInfo
ret: out: Dom
ensures fun: out == self.location_domain
@end

@fn PlaceInfo::build_location_arg_domain
file: crates/flowistry/src/mir/placeinfo.rs
params: body: Body
ret: out: Dom
ensures mem: forall|l: Loa| (Lst { s: out.v }).has(l) <==> match l { Loa::Location(x) => body.all_locations().has(x), Loa::Arg(x) => body.args_iter().has(x) }
@end

@fn PlaceInfo::build
file: crates/flowistry/src/mir/placeinfo.rs
params: tcx: TyCtxt, def_id: DefId, body_with_facts: BodyWithBorrowckFacts
ret: out: PlaceInfo
ensures fields: out.tcx == tcx && out.def_id == def_id && out.body == body_with_facts.body
ensures dom: out.location_domain == PlaceInfo::build_location_arg_domain(body_with_facts.body)
ensures aliases: out.aliases == Aliases::build(tcx, def_id, body_with_facts)
@end

/// Everything inside `p` that is reachable without following a pointer.
pub open spec fn child_of(pi: PlaceInfo, p: Place, q: Place) -> bool {
  p.interior_places(pi.tcx, pi.body, pi.def_id).has(q)
}
pub open spec fn ptr_step(pi: PlaceInfo, x: (Place, PlaceElem)) -> bool {
  x.1 is Deref && !x.0.ty(pi.body.local_decls(), pi.tcx).ty.is_box()
}
/// `q` encloses `p`: with no reference between them, or before the first reference of `p`.
pub open spec fn encloses(pi: PlaceInfo, p: Place, q: Place) -> bool {
  let steps = p.iter_projections().s;
  exists|i: int| 0 <= i < steps.len() && q == (#[trigger] steps[i]).0
    && ((forall|j: int| i <= j < steps.len() ==> !ptr_step(pi, #[trigger] steps[j])) || (forall|j: int| 0 <= j <= i ==> !ptr_step(pi, #[trigger] steps[j])))
}
pub open spec fn conflict(pi: PlaceInfo, p: Place, q: Place) -> bool { child_of(pi, p, q) || encloses(pi, p, q) }

/// Direct places, and places behind a raw pointer or box.
pub open spec fn reportable(pi: PlaceInfo, q: Place) -> bool {
  let refs = q.refs_in_projection(pi.body, pi.tcx);
  q.is_direct(pi.body, pi.tcx) || (refs.last() is Some && {
    let ty = refs.last()->Some_0.0.ty(pi.body.local_decls(), pi.tcx).ty;
    ty.is_box() || ty.is_raw_ptr()
  })
}
pub open spec fn reachable_in(ig: bool, pi: PlaceInfo, p: Place, m: Mutability, q: Place) -> bool {
  reportable(pi, q) && (q == p || loan_of_ty_in(ig, pi.aliases, p.ty(pi.body.local_decls(), pi.tcx).ty, false, m, q))
}
pub open spec fn reachable(pi: PlaceInfo, p: Place, m: Mutability, q: Place) -> bool { reachable_in(ignore_mut(), pi, p, m, q) }
pub open spec fn region_vid(region: Region) -> Opt<RegionVid> {
  match region.kind() { RegionKind::ReVar(v) => Opt::Some(v), RegionKind::ReStatic => Opt::Some(RegionVid::from_usize(0)), _ => Opt::None }
}
pub open spec fn ignore_mut() -> bool { match active_mode() { Opt::Some(m) => m.mutability_mode is IgnoreMut, Opt::None => false } }
/// `q` is lent to region `r`, and usable at mutability `m` (`imm`: below a shared reference;
/// `ig`: mutability is ignored).
pub open spec fn loan_in(ig: bool, a: Aliases, r: RegionVid, imm: bool, m: Mutability, q: Place) -> bool {
  a.loans.has_key(r) && exists|x: (Place, Mutability)| #[trigger] a.loans.at(r).has(x) && x.0 == q && (ig || m.is_permissive_as(if imm { Mutability::Not } else { x.1 }))
}
pub open spec fn loan_at(a: Aliases, r: RegionVid, imm: bool, m: Mutability, q: Place) -> bool { loan_in(ignore_mut(), a, r, imm, m, q) }
/// `q` is reachable through a value of type `ty` at mutability `m`.
pub open spec fn loan_of_ty_in(ig: bool, a: Aliases, ty: Ty, imm: bool, m: Mutability, q: Place) -> bool {
  if ty.kind() is Ref { loan_within_in(ig, a, ty, imm || ty.kind()->Ref_2 is Not, m, q) }
  else if ty.is_box() || ty.is_raw_ptr() { loan_in(ig, a, UNKNOWN_REGION, imm, m, q) || loan_within_in(ig, a, ty, imm, m, q) }
  else { loan_within_in(ig, a, ty, imm, m, q) }
}
pub open spec fn loan_of_ty(a: Aliases, ty: Ty, imm: bool, m: Mutability, q: Place) -> bool { loan_of_ty_in(ignore_mut(), a, ty, imm, m, q) }
/// The same for the regions and types directly inside `ty` (what `super_visit_with` visits).
pub open spec fn loan_within_in(ig: bool, a: Aliases, ty: Ty, imm: bool, m: Mutability, q: Place) -> bool {
  exists|r: RegionVid, below: bool| #[trigger] region_inside(ty, imm, r, below) && loan_in(ig, a, r, below, m, q)
}
pub open spec fn loan_within(a: Aliases, ty: Ty, imm: bool, m: Mutability, q: Place) -> bool { loan_within_in(ignore_mut(), a, ty, imm, m, q) }
/// The structure of rustc's types: region `r` (the region of boxes and raw pointers included)
/// occurs inside `ty`, `below` a shared reference or not, when `ty` itself occurs at `imm`.
pub uninterp spec fn region_inside(ty: Ty, imm: bool, r: RegionVid, below: bool) -> bool;

/// A caller's data: `p` is part of argument `l`, or of a place it points to directly.
pub open spec fn initial(pi: PlaceInfo, p: Place, l: Loa) -> bool {
  exists|a: Local, root: Place| #![trigger pi.body.args_iter().has(a), root.interior_places(pi.tcx, pi.body, pi.def_id).has(p)]
    pi.body.args_iter().has(a) && root.interior_places(pi.tcx, pi.body, pi.def_id).has(p) && l == Loa::Arg(a) && arg_root(pi, a, root)
}
pub open spec fn arg_root(pi: PlaceInfo, a: Local, root: Place) -> bool {
  let place = Place::from_local(a, pi.tcx);
  root == place || exists|ptrs: Lst<(Place, Mutability)>, x: (Place, Mutability)|
    #[trigger] place.interior_pointers(pi.tcx, pi.body, pi.def_id).into_values().has(ptrs) && #[trigger] ptrs.has(x) && x.0.projection.len() <= 2 && root == pi.tcx.mk_place_deref(x.0)
}

// A cache hands out, for each key, a value that some call computed for that key. Every call is
// one of the functions above, each of which must show the relation for the value it computes.
pub broadcast axiom fn normalize_memo(pi: PlaceInfo, k: Place, f: spec_fn(Place) -> Place)
  ensures #![trigger pi.normalized_cache.get(k, f)] f(k) == k.normalize(pi.tcx, pi.def_id) ==> pi.normalized_cache.get(k, f) == f(k);
pub broadcast axiom fn aliases_memo(pi: PlaceInfo, k: Place, f: spec_fn(Place) -> HSet<Place>)
  ensures #![trigger pi.aliases_cache.get(k, f)] f(k) == pi.aliases.aliases(k) ==> pi.aliases_cache.get(k, f) == f(k);
pub broadcast axiom fn conflicts_memo(pi: PlaceInfo, k: Place, f: spec_fn(Place) -> HSet<Place>)
  ensures #![trigger pi.conflicts_cache.get(k, f)]
    (forall|q: Place| #[trigger] f(k).has(q) <==> conflict(pi, k, q)) ==> forall|q: Place| #[trigger] pi.conflicts_cache.get(k, f).has(q) <==> conflict(pi, k, q);
pub broadcast axiom fn reachable_memo(pi: PlaceInfo, k: (Place, Mutability), f: spec_fn((Place, Mutability)) -> HSet<Place>)
  ensures #![trigger pi.reachable_cache.get(k, f)]
    (forall|q: Place| #[trigger] f(k).has(q) <==> reachable(pi, k.0, k.1, q)) ==> forall|q: Place| #[trigger] pi.reachable_cache.get(k, f).has(q) <==> reachable(pi, k.0, k.1, q);
