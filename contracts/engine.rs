pub struct AnalysisResults { pub analysis: FlowAnalysis, pub location_domain: Dom, pub state: LMap<Matrix<Place>> }
impl Location {
  pub open spec fn to_index(self, d: Dom) -> Loa { Loa::Location(self) }
  pub open spec fn successor_within_block(self) -> Location { Location { block: self.block, statement_index: self.statement_index + 1 } }
}
pub spec const START_LOCATION: Location = Location { block: BasicBlock { i: 0 }, statement_index: 0 };
impl Dom {
  pub open spec fn value(self, l: Loa) -> Loa { l }
  pub open spec fn index(self, l: Loa) -> Loa { l }
}
impl Body { pub uninterp spec fn rpo(self) -> Lst<(BasicBlock, BasicBlockData)>; }
pub open spec fn reverse_postorder(body: Body) -> Lst<(BasicBlock, BasicBlockData)> { body.rpo() }
/// rustc's reverse postorder visits the start block and everything reachable from it, with its data.
pub axiom fn rpo_ax(body: Body) ensures
  node(body, Loa::Location(START_LOCATION)),
  forall|x: (BasicBlock, BasicBlockData)| #[trigger] body.rpo().has(x) ==> x.1 == body.basic_blocks.idx(x.0),
  forall|l: Loa, m: Loa| node(body, l) && #[trigger] edge(body, l, m) ==> node(body, m);

/// `l` is a location of a block reachable from the start.
pub open spec fn node(body: Body, l: Loa) -> bool {
  l is Location && 0 <= l->Location_0.statement_index <= body.basic_blocks.idx(l->Location_0.block).statements.len()
  && body.rpo().has((l->Location_0.block, body.basic_blocks.idx(l->Location_0.block)))
}
/// Control can go from `l` to `m`.
pub open spec fn edge(body: Body, l: Loa, m: Loa) -> bool {
  l is Location && m is Location && {
    let (p, q) = (l->Location_0, m->Location_0);
    match body.stmt_at(p) {
      Either::Left(_) => q == p.successor_within_block(),
      Either::Right(_) => q.statement_index == 0 && body.basic_blocks.successors(p.block).has(q.block),
    }
  }
}
/// The effect of the instruction at `l`.
pub open spec fn eff(a: FlowAnalysis, body: Body, l: Loa, st: Matrix<Place>) -> Matrix<Place> {
  match body.stmt_at(l->Location_0) {
    Either::Left(s) => a.apply_primary_statement_effect(st, s, l->Location_0),
    Either::Right(t) => a.apply_primary_terminator_effect(st, t, l->Location_0).1,
  }
}
/// What holds before the first instruction.
pub open spec fn at_start(a: FlowAnalysis, body: Body, l: Loa, k: Place, x: Loa) -> bool {
  if l == Loa::Location(START_LOCATION) { a.initialize_start_block(body, a.bottom_value(body)).has(k, x) } else { a.bottom_value(body).has(k, x) }
}
pub open spec fn below(s: Matrix<Place>, t: Matrix<Place>) -> bool { forall|k: Place, x: Loa| #[trigger] s.has(k, x) ==> t.has(k, x) }
/// Every fact at the start, and every fact that an instruction passes on, is in `e`.
pub open spec fn closed(a: FlowAnalysis, body: Body, e: LMap<Matrix<Place>>) -> bool {
  (forall|l: Loa, k: Place, x: Loa| #[trigger] at_start(a, body, l, k, x) ==> e.idx(l).has(k, x))
  && (forall|l: Loa, m: Loa| node(body, l) && #[trigger] edge(body, l, m) ==> below(eff(a, body, l, e.idx(l)), e.idx(m)))
}
/// `s` is the least fixpoint: `e` is what holds before each location, `s` what holds after it.
pub open spec fn least_fixpoint(a: FlowAnalysis, body: Body, e: LMap<Matrix<Place>>, s: LMap<Matrix<Place>>) -> bool {
  (forall|l: Loa, k: Place, x: Loa| node(body, l) ==> (#[trigger] s.idx(l).has(k, x) <==> eff(a, body, l, e.idx(l)).has(k, x)))
  && (forall|m: Loa, k: Place, x: Loa| node(body, m) ==> (#[trigger] e.idx(m).has(k, x) <==> at_start(a, body, m, k, x) || exists|l: Loa| node(body, l) && #[trigger] edge(body, l, m) && s.idx(l).has(k, x)))
  && (forall|f: LMap<Matrix<Place>>, l: Loa| #[trigger] closed(a, body, f) && node(body, l) ==> below(e.idx(l), #[trigger] f.idx(l)))
}
pub open spec fn solved(a: FlowAnalysis, body: Body, out: LMap<Matrix<Place>>) -> bool {
  exists|e: LMap<Matrix<Place>>, s: LMap<Matrix<Place>>| #[trigger] least_fixpoint(a, body, e, s) && forall|l: Loa| #[trigger] out.idx(l) == s.idx(l)
}

// The effect of an instruction is monotone.
pub proof fn infl_mono(a: FlowAnalysis, s: Matrix<Place>, t: Matrix<Place>, p: Place, l: Loa)
  requires below(s, t), infl_dep(a, s, p, l) ensures infl_dep(a, t, p, l)
{ let r = choose|r: Place| #[trigger] a.influences(p).has(r) && s.has(a.place_info.normalize(r), l); assert(t.has(a.place_info.normalize(r), l)); }
pub proof fn base_mono(a: FlowAnalysis, s: Matrix<Place>, t: Matrix<Place>, m: Mutation, loc: Location, l: Loa)
  requires below(s, t), dep_base(a, s, m, loc, l) ensures dep_base(a, t, m, loc, l)
{
  if input_dep(a, s, m, l) { let p = choose|p: Place| #[trigger] m.inputs.has(p) && infl_dep(a, s, p, l); infl_mono(a, s, t, p, l); }
  else if l != Loa::Location(loc) {
    let c = choose|c: BasicBlock| #[trigger] controls(a, loc.block, c) && ctl_dep(a, s, c, l);
    if l != Loa::Location(a.body.terminator_loc(c)) {
      match a.body.basic_blocks.idx(c).terminator().kind { TerminatorKind::SwitchInt { discr, .. } => { infl_mono(a, s, t, discr.as_place()->Some_0, l); }, _ => {} }
    }
    assert(ctl_dep(a, t, c, l));
  }
}
pub proof fn after_mono(a: FlowAnalysis, s: Matrix<Place>, t: Matrix<Place>, ms: Lst<Mutation>, loc: Location, n: int, k: Place, l: Loa)
  requires below(s, t), after(a, s, ms, loc, n, k, l) ensures after(a, t, ms, loc, n, k, l)
  decreases n
{
  if n > 0 {
    let m = ms.s[n - 1];
    if after(a, s, ms, loc, n - 1, k, l) { after_mono(a, s, t, ms, loc, n - 1, k, l); }
    if !(after(a, s, ms, loc, n - 1, k, l) && !cleared(a, m, k)) {
      if dep_base(a, s, m, loc, l) { base_mono(a, s, t, m, loc, l); } else {
        let r = choose|r: Place| #[trigger] a.influences(m.mutated).has(r) && after(a, s, ms, loc, n - 1, a.place_info.normalize(r), l) && !cleared(a, m, a.place_info.normalize(r));
        after_mono(a, s, t, ms, loc, n - 1, a.place_info.normalize(r), l);
      }
    }
  }
}
pub broadcast proof fn eff_mono(a: FlowAnalysis, body: Body, l: Loa, s: Matrix<Place>, t: Matrix<Place>)
  ensures #![trigger eff(a, body, l, s), eff(a, body, l, t)] below(s, t) ==> below(eff(a, body, l, s), eff(a, body, l, t))
{
  broadcast use { FlowAnalysis_apply_primary_statement_effect_ax, FlowAnalysis_apply_primary_terminator_effect_ax };
  if below(s, t) {
    let ms = match body.stmt_at(l->Location_0) { Either::Left(st) => stmt_ms(a, st, l->Location_0), Either::Right(t) => term_ms(a, t, l->Location_0) };
    assert(rows_after(a, s, ms, l->Location_0, eff(a, body, l, s)));
    assert(rows_after(a, t, ms, l->Location_0, eff(a, body, l, t)));
    assert forall|k: Place, x: Loa| #[trigger] eff(a, body, l, s).has(k, x) implies eff(a, body, l, t).has(k, x) by { after_mono(a, s, t, ms, l->Location_0, ms.len(), k, x); }
  }
}

pub open spec fn in_block(x: (BasicBlock, BasicBlockData), l: Loa) -> bool {
  l is Location && l->Location_0.block == x.0 && 0 <= l->Location_0.statement_index <= x.1.statements.len()
}
// Invariants of the worklist loop.
pub open spec fn all_nodes(body: Body, d: WorkQueue) -> bool { forall|l: Loa| #[trigger] d.has(l) ==> node(body, l) }
/// A location that is not waiting has the effect on its entry recorded.
pub open spec fn done(a: FlowAnalysis, body: Body, e: LMap<Matrix<Place>>, s: LMap<Matrix<Place>>, d: WorkQueue) -> bool {
  forall|l: Loa, k: Place, x: Loa| node(body, l) && !d.has(l) ==> (#[trigger] s.idx(l).has(k, x) <==> eff(a, body, l, e.idx(l)).has(k, x))
}
/// What is recorded after a location is its effect on (part of) its entry, or the initial value.
pub open spec fn under(a: FlowAnalysis, body: Body, e: LMap<Matrix<Place>>, s: LMap<Matrix<Place>>) -> bool {
  forall|l: Loa, k: Place, x: Loa| node(body, l) && #[trigger] s.idx(l).has(k, x) ==> a.bottom_value(body).has(k, x) || eff(a, body, l, e.idx(l)).has(k, x)
}
pub open spec fn started(a: FlowAnalysis, body: Body, e: LMap<Matrix<Place>>) -> bool {
  forall|l: Loa, k: Place, x: Loa| #[trigger] at_start(a, body, l, k, x) ==> e.idx(l).has(k, x)
}
/// What holds after a location holds before its successors; for `cur`, only before those in `seen`.
pub open spec fn passed_on(a: FlowAnalysis, body: Body, e: LMap<Matrix<Place>>, s: LMap<Matrix<Place>>, cur: Opt<Loa>, seen: spec_fn(Location) -> bool) -> bool {
  forall|l: Loa, m: Loa| node(body, l) && #[trigger] edge(body, l, m) && (cur != Opt::Some(l) || (m is Location && seen(m->Location_0))) ==> below(s.idx(l), e.idx(m))
}
pub open spec fn justified(a: FlowAnalysis, body: Body, e: LMap<Matrix<Place>>, s: LMap<Matrix<Place>>) -> bool {
  forall|m: Loa, k: Place, x: Loa| #[trigger] e.idx(m).has(k, x) ==> at_start(a, body, m, k, x) || exists|l: Loa| node(body, l) && #[trigger] edge(body, l, m) && s.idx(l).has(k, x)
}
pub open spec fn least(a: FlowAnalysis, body: Body, e: LMap<Matrix<Place>>) -> bool {
  forall|f: LMap<Matrix<Place>>, l: Loa| #[trigger] closed(a, body, f) && node(body, l) ==> below(e.idx(l), #[trigger] f.idx(l))
}
@fn iterate_to_fixpoint
file: crates/flowistry/src/mir/engine.rs
params: tcx: TyCtxt, body: Body, location_domain: Dom, analysis: FlowAnalysis
ret: out: AnalysisResults
uses: queues, eff_mono
ensures same: out.analysis == analysis && out.location_domain == location_domain
ensures lfp: solved(analysis, body, out.state)
proof:
  rpo_ax(body);
loop 0
  inv: forall|l: Loa| #[trigger] V(dirty_queue).has(l) <==> exists|x: (BasicBlock, BasicBlockData)| #[trigger] SEEN(x) && in_block(x, l),
loop 1
  inv: forall|l: Loa| #[trigger] V(dirty_queue).has(l) <==> OLD(dirty_queue).has(l) || exists|i: int| #[trigger] SEEN(i) && l == Loa::Location(Location { block: V(block), statement_index: i }),
  after: assert forall|l: Loa| #[trigger] V(dirty_queue).has(l) <==> OLD(dirty_queue).has(l) || in_block((V(block), V(data)), l) by { if in_block((V(block), V(data)), l) { assert($IT.has(l->Location_0.statement_index)); } };
loop 2
  before: assert(forall|l: Loa| #[trigger] V(dirty_queue).has(l) <==> node(body, l));
  inv: all_nodes(body, V(dirty_queue)),
    done(analysis, body, V(entry), V(state), V(dirty_queue)),
    under(analysis, body, V(entry), V(state)),
    started(analysis, body, V(entry)),
    passed_on(analysis, body, V(entry), V(state), Opt::None, |x: Location| false),
    justified(analysis, body, V(entry), V(state)),
    least(analysis, body, V(entry)),
  ens: forall|l: Loa| !(#[trigger] V(dirty_queue).has(l)),
  after: assert(least_fixpoint(analysis, body, V(entry), V(state)));
loop 3
  before: assert(V(state).idx(V(loc_index)) == eff(analysis, body, V(loc_index), V(entry).idx(V(loc_index))));
  inv: all_nodes(body, V(dirty_queue)),
    done(analysis, body, V(entry), V(state), V(dirty_queue)),
    under(analysis, body, V(entry), V(state)),
    started(analysis, body, V(entry)),
    passed_on(analysis, body, V(entry), V(state), Opt::Some(V(loc_index)), |x: Location| SEEN(x)),
    justified(analysis, body, V(entry), V(state)),
    least(analysis, body, V(entry)),
  begin: assert(node(body, V(loc_index)));
    assert(edge(body, V(loc_index), Loa::Location(V(next_loc))));
@end
