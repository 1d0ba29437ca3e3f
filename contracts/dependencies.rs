pub enum Direction { Forward, Backward, Both }
pub type FlowResults = AnalysisResults;
pub struct TargetDeps { pub all_forward: Lst<LSet> }

@fn AnalysisResults::state_at
file: crates/flowistry/src/mir/engine.rs
params: self: AnalysisResults, location: Location
ret: out: Matrix<Place>
ensures row: out == self.state.idx(Loa::Location(location))
@end

@fn FlowAnalysis::location_domain
file: crates/flowistry/src/infoflow/analysis.rs
params: self: FlowAnalysis
ret: out: Dom
ensures dom: out == self.place_info.location_domain
@end

/// Where the state for a target is looked up.
pub open spec fn target_state(r: FlowResults, l: Loa) -> Matrix<Place> {
  r.state_at(match l { Loa::Arg(_) => START_LOCATION, Loa::Location(loc) => loc })
}
/// What every part of `p` depends on at `at`, and `at` itself.
pub open spec fn common(r: FlowResults, p: Place, at: Loa, x: Loa) -> bool {
  x == at || (r.analysis.place_info.location_domain.has(x) && forall|c: Place| #[trigger] r.analysis.place_info.children(r.analysis.place_info.normalize(p)).has(c) ==> target_state(r, at).has(c, x))
}
/// `f` is the common dependencies of `p` at `at`.
pub open spec fn common_set(r: FlowResults, p: Place, at: Loa, f: LSet) -> bool { forall|x: Loa| #[trigger] f.has(x) <==> common(r, p, at, x) }
/// One of `acc` is the common dependencies of `p` at `at`.
pub open spec fn got(acc: Lst<LSet>, r: FlowResults, p: Place, at: Loa) -> bool { exists|f: LSet| #[trigger] acc.has(f) && common_set(r, p, at, f) }
pub broadcast proof fn got_push(acc: Lst<LSet>, f: LSet, r: FlowResults, p: Place, at: Loa)
  ensures #[trigger] got(acc.push_upd(f), r, p, at) <==> got(acc, r, p, at) || common_set(r, p, at, f)
{ broadcast use lists;
  assert(acc.push_upd(f).has(f));
  if got(acc, r, p, at) { let g = choose|g: LSet| #[trigger] acc.has(g) && common_set(r, p, at, g); assert(acc.push_upd(f).has(g)); } }
pub broadcast proof fn got_none(r: FlowResults, p: Place, at: Loa) ensures !(#[trigger] got(Lst::<LSet>::new(), r, p, at)) { broadcast use lists; }
/// `f` is the common dependencies of one of `ts`.
pub open spec fn of_some(ts: Lst<(Place, Loa)>, n: int, r: FlowResults, f: LSet) -> bool { exists|x: (Place, Loa)| #[trigger] ts.took(n, x) && common_set(r, x.0, x.1, f) }
/// `t` is a target, and `p` is reachable from it.
pub open spec fn sub_target(ts: Lst<(Place, Loa)>, r: FlowResults, x: (Place, Loa)) -> bool {
  exists|t: (Place, Loa)| #[trigger] ts.has(t) && t.1 == x.1 && r.analysis.place_info.reachable_values(t.0, Mutability::Not).has(x.0) }
@fn TargetDeps::new
file: crates/flowistry/src/infoflow/dependencies.rs
params: targets: Lst<(Place, Loa)>, results: FlowResults
ret: out: TargetDeps
ensures each: forall|f: LSet| #[trigger] out.all_forward.has(f) ==> exists|x: (Place, Loa)| #[trigger] sub_target(targets, results, x) && common_set(results, x.0, x.1, f)
ensures all: forall|p: Place, at: Loa| sub_target(targets, results, (p, at)) ==> #[trigger] got(out.all_forward, results, p, at)
uses: got_push, got_none
loop 0
  before: assert forall|x: (Place, Loa)| #[trigger] $IT.has(x) implies sub_target(targets, results, x) by { }
    assert forall|x: (Place, Loa)| #[trigger] sub_target(targets, results, x) implies $IT.has(x) by { assert(cand(x)); }
  inv: forall|f: LSet| #[trigger] V(acc0).has(f) ==> exists|x: (Place, Loa)| #[trigger] SEEN(x) && common_set(results, x.0, x.1, f),
    forall|p: Place, at: Loa| SEEN((p, at)) ==> #[trigger] got(V(acc0), results, p, at),
loop 1
  inv: forall|x: Loa| #[trigger] V(forward).has(x) <==> results.analysis.place_info.location_domain.has(x) && forall|c: Place| #[trigger] SEEN(c) ==> V(state).has(c, x),
@end

@fn deps
file: crates/flowistry/src/infoflow/dependencies.rs
params: state: Matrix<Place>, place_info: PlaceInfo, place: Place
ret: out: LSet
ensures row: out == state.row_set(place_info.normalize(place))
@end

/// Some sub-target's dependencies are just `l`.
pub open spec fn only(td: TargetDeps, l: Loa) -> bool { exists|f: LSet| #[trigger] td.all_forward.has(f) && f.len() == 1 && f.has(l) }
/// `ds` contains everything some sub-target depends on.
pub open spec fn covers(td: TargetDeps, ds: LSet) -> bool { exists|f: LSet| #[trigger] td.all_forward.has(f) && ds.is_superset(f) }
/// A place the instruction at `l` writes, or branches on.
pub open spec fn acted_on(a: FlowAnalysis, l: Location, p: Place) -> bool {
  match a.body.stmt_at(l) {
    Either::Right(Terminator { kind: TerminatorKind::SwitchInt { discr, .. }, .. }) => discr.as_place() == Opt::Some(p),
    _ => exists|e: (Location, Lst<Mutation>), m: Mutation| #[trigger] ModularMutationVisitor::ev_visit_location(a.place_info, a.body, l).has(e) && #[trigger] e.1.has(m) && m.mutated == p,
  }
}
/// The instruction at `l` acts on a place which depends on everything `td` does.
pub open spec fn acts_on_dependent(r: FlowResults, td: TargetDeps, l: Location) -> bool {
  exists|p: Place| #[trigger] acted_on(r.analysis, l, p) && covers(td, deps(r.state_at(l), r.analysis.place_info, p)) }
pub open spec fn act_on_writes(r: FlowResults, td: TargetDeps, ev: Lst<(Location, Lst<Mutation>)>, st: Matrix<Place>) -> bool {
  exists|e: (Location, Lst<Mutation>), m: Mutation| #[trigger] ev.has(e) && #[trigger] e.1.has(m) && covers(td, deps(st, r.analysis.place_info, m.mutated)) }
pub broadcast proof fn act_iff(r: FlowResults, td: TargetDeps, l: Location)
  ensures #[trigger] acts_on_dependent(r, td, l) <==> match r.analysis.body.stmt_at(l) {
    Either::Right(Terminator { kind: TerminatorKind::SwitchInt { discr, .. }, .. }) => discr.as_place() is Some && covers(td, deps(r.state_at(l), r.analysis.place_info, discr.as_place()->Some_0)),
    _ => act_on_writes(r, td, ModularMutationVisitor::ev_visit_location(r.analysis.place_info, r.analysis.body, l), r.state_at(l)),
  }
{
  let a = r.analysis; let ev = ModularMutationVisitor::ev_visit_location(a.place_info, a.body, l); let st = r.state_at(l);
  match a.body.stmt_at(l) {
    Either::Right(Terminator { kind: TerminatorKind::SwitchInt { discr, .. }, .. }) => {
      if discr.as_place() is Some { assert(acted_on(a, l, discr.as_place()->Some_0)); } },
    _ => {
      if acts_on_dependent(r, td, l) { let p = choose|p: Place| #[trigger] acted_on(a, l, p) && covers(td, deps(st, a.place_info, p));
        let (e, m) = choose|e: (Location, Lst<Mutation>), m: Mutation| #[trigger] ev.has(e) && #[trigger] e.1.has(m) && m.mutated == p;
        assert(ev.has(e) && e.1.has(m)); }
      if act_on_writes(r, td, ev, st) { let (e, m) = choose|e: (Location, Lst<Mutation>), m: Mutation| #[trigger] ev.has(e) && #[trigger] e.1.has(m) && covers(td, deps(st, a.place_info, m.mutated));
        assert(acted_on(a, l, m.mutated)); }
    }
  }
}
/// `l` depends on the targets `ts`.
pub open spec fn forwards(r: FlowResults, ts: Lst<(Place, Loa)>, l: Loa) -> bool {
  let td = TargetDeps::new(ts, r);
  match l {
    Loa::Arg(a) => r.analysis.body.args_iter().has(a) && only(td, l),
    Loa::Location(loc) => r.analysis.body.all_locations().has(loc) && acts_on_dependent(r, td, loc),
  }
}
/// A target at `t.1` depends on `l`.
pub open spec fn back_one(r: FlowResults, t: (Place, Loa), l: Loa) -> bool {
  match t.1 { Loa::Arg(_) => l == t.1, Loa::Location(loc) => r.analysis.deps_for(r.state_at(loc), t.0).has(l) }
}
pub open spec fn backwards(r: FlowResults, ts: Lst<(Place, Loa)>, l: Loa) -> bool { exists|t: (Place, Loa)| #[trigger] ts.has(t) && back_one(r, t, l) }
@fn compute_dependencies
file: crates/flowistry/src/infoflow/dependencies.rs
params: results: FlowResults, all_targets: Lst<Lst<(Place, Loa)>>, direction: Direction
ret: out: Lst<LSet>
ensures len: out.len() == all_targets.len()
ensures backward: direction is Backward ==> forall|j: int, l: Loa| 0 <= j < out.len() ==> (#[trigger] out.s[j].has(l) <==> backwards(results, all_targets.s[j], l))
ensures forward: direction is Forward ==> forall|j: int, l: Loa| 0 <= j < out.len() ==> (#[trigger] out.s[j].has(l) <==> forwards(results, all_targets.s[j], l))
ensures both: direction is Both ==> forall|j: int, l: Loa| 0 <= j < out.len() ==> (#[trigger] out.s[j].has(l) <==> forwards(results, all_targets.s[j], l) || backwards(results, all_targets.s[j], l))
uses: act_iff
nouses: TargetDeps_new_ax, FlowAnalysis_deps_for_ax, deps_ax
loop forward.0
  inv: V(outputs).len() == OLD(outputs).len(),
    forall|j: int, l: Loa| 0 <= j < V(outputs).len() ==> (#[trigger] V(outputs).s[j].has(l) <==> OLD(outputs).s[j].has(l) || (l is Arg && SEEN(l->Arg_0) && only(TargetDeps::new(all_targets.s[j], results), l))),
loop forward.1
  inv: forall|j: int, l: Loa| 0 <= j < $I ==> (#[trigger] V(outputs).s[j].has(l) <==> OLD(outputs).s[j].has(l) || (l == V(location) && only(TargetDeps::new(all_targets.s[j], results), l))),
loop forward.2
  inv: V(outputs).len() == OLD(outputs).len(),
    forall|j: int, l: Loa| 0 <= j < V(outputs).len() ==> (#[trigger] V(outputs).s[j].has(l) <==> OLD(outputs).s[j].has(l) || (l is Location && SEEN(l->Location_0) && acts_on_dependent(results, TargetDeps::new(all_targets.s[j], results), l->Location_0))),
loop check.0
  inv: forall|j: int, l: Loa| 0 <= j < $I ==> (#[trigger] V(outputs).s[j].has(l) <==> OLD(outputs).s[j].has(l) || (l == Loa::Location(V(location)) && covers(TargetDeps::new(all_targets.s[j], results), V(deps)))),
loop forward.3
  inv: V(outputs).len() == OLD(outputs).len(),
    forall|j: int, l: Loa| 0 <= j < V(outputs).len() ==> (#[trigger] V(outputs).s[j].has(l) <==> OLD(outputs).s[j].has(l) || (l == Loa::Location(V(location)) && exists|e: (Location, Lst<Mutation>), m: Mutation| #[trigger] SEEN(e) && #[trigger] e.1.has(m) && covers(TargetDeps::new(all_targets.s[j], results), deps(V(state), V(aliases), m.mutated)))),
loop forward.4
  inv: V(outputs).len() == OLD(outputs).len(),
    forall|j: int, l: Loa| 0 <= j < V(outputs).len() ==> (#[trigger] V(outputs).s[j].has(l) <==> OLD(outputs).s[j].has(l) || (l == Loa::Location(V(location)) && exists|m: Mutation| #[trigger] SEEN(m) && covers(TargetDeps::new(all_targets.s[j], results), deps(V(state), V(aliases), m.mutated)))),
loop backward.0
  inv: forall|j: int, l: Loa| 0 <= j < $I ==> (#[trigger] V(outputs).s[j].has(l) <==> OLD(outputs).s[j].has(l) || backwards(results, all_targets.s[j], l)),
loop backward.1
  inv: forall|l: Loa| #[trigger] V(outputs).has(l) <==> OLD(outputs).has(l) || exists|t: (Place, Loa)| #[trigger] SEEN(t) && back_one(results, t, l),
@end

pub enum EnclosingHirSpans { OuterOnly, Full, None }
pub struct SpanData { pub id: int }
impl SpanData { pub uninterp spec fn span(self) -> Span; }
/// rustc_utils: the selectable places of a body, with their ranges.
pub struct MirSpannedPlace { pub place: Place, pub span: SpanData, pub locations: Lst<Loa> }
pub struct Spanner { pub mir_span_tree: Lst<MirSpannedPlace>, pub body_span: Span, pub ret_span: Span, pub id: int }
impl Spanner {
  pub uninterp spec fn new(tcx: TyCtxt, b: BodyId, body: Body) -> Spanner;
  /// rustc_utils: the source ranges of a location.
  pub uninterp spec fn location_to_spans(self, l: Loa, body: Body, e: EnclosingHirSpans) -> Lst<Span>;
}
impl Span {
  /// rustc_utils `SpanExt`: the union of overlapping ranges.
  pub uninterp spec fn merge_overlaps(l: Lst<Span>) -> Lst<Span>;
}
/// `out` is the merged source ranges of the locations in `d`.
pub open spec fn spans_of(sp: Spanner, body: Body, d: LSet, out: Lst<Span>) -> bool {
  exists|x: Lst<Span>| out == #[trigger] Span::merge_overlaps(x) && forall|s: Span| #[trigger] x.has(s) <==> exists|l: Loa| #[trigger] d.has(l) && sp.location_to_spans(l, body, EnclosingHirSpans::OuterOnly).has(s)
}
@fn compute_dependency_spans
file: crates/flowistry/src/infoflow/dependencies.rs
params: results: FlowResults, targets: Lst<Lst<(Place, Loa)>>, direction: Direction, spanner: Spanner
ret: out: Lst<Lst<Span>>
nouses: compute_dependencies_ax
ensures len: out.len() == compute_dependencies(results, targets, direction).len()
ensures each: forall|j: int| 0 <= j < out.len() ==> spans_of(spanner, results.analysis.body, compute_dependencies(results, targets, direction).s[j], #[trigger] out.s[j])
@end
