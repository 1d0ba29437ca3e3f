/// The callee of a call, when it is statically known, local, has a body and returns.
pub open spec fn callee(a: FlowAnalysis, call: TerminatorKind) -> Opt<(DefId, BodyId)> {
  match call->Call_func.constant() {
    Opt::Some(c) => match c.const_.ty().kind() {
      TyKind::FnDef(d, _) => if a.tcx.fn_sig(d).skip_binder().output().skip_binder().is_never() { Opt::None } else {
        match a.tcx.hir_get_if_local(d) {
          Opt::Some(n) => match n.body_id() { Opt::Some(b) => Opt::Some((d, b)), Opt::None => Opt::None },
          Opt::None => Opt::None,
        }
      },
      _ => Opt::None,
    },
    Opt::None => Opt::None,
  }
}
/// A value of type `t` may hold a closure that mutates what it captured.
pub open spec fn holds_mutating_closure(t: Ty) -> bool {
  exists|g: GenericArg| #[trigger] t.walk().has(g) && match g.kind() {
    GenericArgKind::Type(u) => match u.kind() {
      TyKind::Closure(_, s) => s.as_closure().kind() is FnOnce || s.as_closure().kind() is FnMut,
      _ => false,
    },
    _ => false,
  }
}
pub open spec fn takes_closure(a: FlowAnalysis, call: TerminatorKind) -> bool {
  exists|x: (int, Place)| #[trigger] arg_places(call->Call_args).has(x) && holds_mutating_closure(x.1.ty(a.body.local_decls(), a.tcx).ty)
}
/// The bodies being analyzed while `a` runs (the thread-local BODY_STACK).
pub uninterp spec fn analysis_stack(a: FlowAnalysis) -> Lst<BodyId>;
/// Calls that are analyzed through their callee's body.
pub open spec fn inlinable(a: FlowAnalysis, call: TerminatorKind) -> bool {
  callee(a, call) is Some && !takes_closure(a, call) && !analysis_stack(a).has(callee(a, call)->Some_0.1)
}

// ---- the callee's results ---------------------------------------------------------------
/// Results of analyzing callees, by body (`FlowAnalysis::recurse_cache`).
pub struct FlowCache { pub id: int }
impl FlowCache {
  pub uninterp spec fn has_key(self, b: BodyId) -> bool;
  pub uninterp spec fn at(self, b: BodyId) -> AnalysisResults;
  pub uninterp spec fn insert_upd(self, b: BodyId, r: AnalysisResults) -> FlowCache;
  pub open spec fn get_or(self, b: BodyId, r: AnalysisResults) -> AnalysisResults { if self.has_key(b) { self.at(b) } else { r } }
}
pub broadcast axiom fn cache_insert(c: FlowCache, b: BodyId, r: AnalysisResults, q: BodyId)
  ensures #![trigger c.insert_upd(b, r), c.has_key(q)] #![trigger c.insert_upd(b, r).has_key(q)] c.insert_upd(b, r).has_key(q) <==> c.has_key(q) || q == b;
pub broadcast axiom fn cache_insert_at(c: FlowCache, b: BodyId, r: AnalysisResults, q: BodyId)
  ensures #[trigger] c.insert_upd(b, r).at(q) == (if q == b { r } else { c.at(q) });
pub open spec fn facts_of(tcx: TyCtxt, b: BodyId) -> BodyWithBorrowckFacts { get_body_with_borrowck_facts(tcx, tcx.hir_body_owner_def_id(b)) }
pub open spec fn cache_valid(a: FlowAnalysis, c: FlowCache) -> bool {
  forall|b: BodyId| #[trigger] c.has_key(b) ==> c.at(b) == compute_flow(a.tcx, b, facts_of(a.tcx, b))
}
/// The cache of a running analysis. Only `recurse_into_call` writes it, which keeps it valid.
pub uninterp spec fn flow_cache(a: FlowAnalysis) -> FlowCache;
pub broadcast axiom fn flow_cache_ax(a: FlowAnalysis) ensures cache_valid(a, #[trigger] flow_cache(a));
/// rustc: the owner of a local function's body is that function.
pub broadcast axiom fn body_owner(tcx: TyCtxt, d: DefId)
  ensures #![trigger tcx.hir_get_if_local(d)] tcx.hir_get_if_local(d) is Some && tcx.hir_get_if_local(d)->Some_0.body_id() is Some
    ==> d.expect_local() == tcx.hir_body_owner_def_id(tcx.hir_get_if_local(d)->Some_0.body_id()->Some_0);

pub open spec fn callee_facts(a: FlowAnalysis, call: TerminatorKind) -> BodyWithBorrowckFacts { facts_of(a.tcx, callee(a, call)->Some_0.1) }
pub open spec fn callee_flow(a: FlowAnalysis, call: TerminatorKind) -> AnalysisResults { compute_flow(a.tcx, callee(a, call)->Some_0.1, callee_facts(a, call)) }
/// `l` is where `body` returns.
pub open spec fn returns_at(body: Body, l: Location) -> bool {
  exists|b: BasicBlock| #[trigger] body.basic_blocks.indices().has(b) && body.basic_blocks.idx(b).terminator().kind is Return && l == body.terminator_loc(b)
}
pub broadcast proof fn block_enum(bb: BasicBlocks, x: (BasicBlock, BasicBlockData))
  ensures #[trigger] bb.iter_enumerated().has(x) <==> bb.indices().has(x.0) && x.1 == bb.idx(x.0)
{
  if bb.iter_enumerated().has(x) { let i = wit(bb.iter_enumerated(), x); at(bb.indices(), i); assert(bb.indices().s[i] == x.0); }
  if bb.indices().has(x.0) && x.1 == bb.idx(x.0) { let i = wit(bb.indices(), x.0); at(bb.iter_enumerated(), i); assert(bb.iter_enumerated().s[i] == x); }
}
pub broadcast proof fn block_enum2(bb: BasicBlocks, b: BasicBlock)
  ensures #![trigger bb.iter_enumerated(), bb.indices().has(b)] bb.indices().has(b) <==> bb.iter_enumerated().has((b, bb.idx(b)))
{ block_enum(bb, (b, bb.idx(b))); }
/// `m` joins the states of `f` at the returns of `body`.
pub open spec fn at_return(f: AnalysisResults, body: Body, m: Matrix<Place>) -> bool {
  &&& forall|k: Place, l: Loa| #[trigger] m.has(k, l) <==> exists|r: Location| #[trigger] returns_at(body, r) && f.state_at(r).has(k, l)
  &&& forall|k: Place| #[trigger] m.tracks(k) <==> exists|r: Location| #[trigger] returns_at(body, r) && f.state_at(r).tracks(k)
}

// ---- callee places in the caller --------------------------------------------------------
/// The caller's `ty` cannot see into field `e`.
pub open spec fn private(a: FlowAnalysis, ty: PlaceTy, e: PlaceElem) -> bool {
  e is Field && ty.ty.ty_adt_def() is Some && !ty.ty.ty_adt_def()->Some_0.all_fields().nth(e->Field_0.as_usize()).unwrap().vis.is_accessible_from(a.def_id, a.tcx)
}
/// `e` with the type the caller sees.
pub open spec fn as_seen(ty: PlaceTy, e: PlaceElem) -> PlaceElem { match e { PlaceElem::Field(f, _) => PlaceElem::Field(f, ty.ty), e => e } }
/// `acc` extended by the elements of `p` from the `i`th on, up to the first private field.
pub open spec fn carried(a: FlowAnalysis, ty: PlaceTy, acc: Seq<PlaceElem>, p: Seq<PlaceElem>, i: int) -> Seq<PlaceElem> decreases p.len() - i {
  if i < 0 || i >= p.len() || private(a, ty, p[i]) { acc } else {
    let t = ty.projection_ty(a.tcx, p[i]);
    carried(a, t, acc.push(as_seen(t, p[i])), p, i + 1)
  }
}
/// What the caller passed for the argument `child` is part of.
pub open spec fn passed_for(args: Lst<(int, Place)>, child: Place) -> Opt<(int, Place)> { args.find(|x: (int, Place)| child.local.as_usize() - 1 == x.0) }
#[verifier::opaque]
pub open spec fn translated(a: FlowAnalysis, body: Body, dest: Place, args: Lst<(int, Place)>, child: Place, mutated: bool) -> Opt<Place> {
  if child.ty(body.local_decls(), a.tcx).ty.is_unit() { Opt::None }
  else if child.local == RETURN_PLACE { Opt::Some(onto(a, dest, child)) }
  else if !child.is_arg(body) || (mutated && !child.is_indirect()) { Opt::None }
  else { match passed_for(args, child) { Opt::Some(x) => Opt::Some(onto(a, x.1, child)), Opt::None => Opt::None } }
}
/// The part of `top` that corresponds to `child`, as far as the caller can see.
pub open spec fn onto(a: FlowAnalysis, top: Place, child: Place) -> Place {
  Place { local: top.local, projection: Lst { s: carried(a, top.ty(a.body.local_decls(), a.tcx), top.projection.s, child.projection.s, 0) } }
}
@fn FlowAnalysis::translate_child_to_parent
file: crates/flowistry/src/infoflow/recursive.rs
closure: translate_child_to_parent in FlowAnalysis::recurse_into_call
captures: self, tcx, body, destination, parent_arg_places
params: self: FlowAnalysis, tcx: TyCtxt, body: Body, destination: Place, parent_arg_places: Lst<(int, Place)>, child: Place, mutated: bool
ret: out: Opt<Place>
try: Opt
uses: find_ext
proof: reveal(translated);
requires tcx == self.tcx
ensures is: out == translated(self, body, destination, parent_arg_places, child, mutated)
loop 0
  invb: carried(self, V(ty), V(projection).s, child.projection.s, $I) == carried(self, V(parent_toplevel_arg).ty(self.body.local_decls(), self.tcx), V(parent_toplevel_arg).projection.s, child.projection.s, 0),
  ens: V(projection).s == carried(self, V(parent_toplevel_arg).ty(self.body.local_decls(), self.tcx), V(parent_toplevel_arg).projection.s, child.projection.s, 0),
@end

// ---- what a call writes -------------------------------------------------------------------
/// In the state `m` at the callee's end, `child` was (possibly) changed or is (part of) the return value.
pub open spec fn was_written(m: Matrix<Place>, child: Place) -> bool { m.tracks(child) && (child.local == RETURN_PLACE || m.row_set(child).len() > 1) }
pub open spec fn fed(m: Matrix<Place>, child: Place, row: Place) -> bool { m.tracks(row) && m.row_set(child).is_superset(m.row_set(row)) }
pub broadcast proof fn fed_row(m: Matrix<Place>, child: Place, x: (Place, LSet))
  ensures #![trigger m.rows().has(x), m.row_set(child)] m.rows().has(x) ==> (fed(m, child, x.0) <==> m.row_set(child).is_superset(x.1))
{ mx_rows(m, x); }
pub broadcast proof fn fed_row2(m: Matrix<Place>, child: Place, row: Place)
  ensures #[trigger] fed(m, child, row) ==> m.rows().has((row, m.row_set(row)))
{ mx_rows(m, (row, m.row_set(row))); }
pub open spec fn to_parent(a: FlowAnalysis, call: TerminatorKind, child: Place, mutated: bool) -> Opt<Place> {
  translated(a, callee_facts(a, call).body, call->Call_destination, arg_places(call->Call_args), child, mutated)
}
/// `mu` is the write of `child` as the caller sees it.
pub open spec fn child_write(a: FlowAnalysis, call: TerminatorKind, m: Matrix<Place>, child: Place, mu: Mutation) -> bool {
  child_target(a, call, m, child, mu) && child_inputs(a, call, m, child, mu)
}
pub open spec fn child_target(a: FlowAnalysis, call: TerminatorKind, m: Matrix<Place>, child: Place, mu: Mutation) -> bool {
  was_written(m, child) && to_parent(a, call, child, true) == Opt::Some(mu.mutated) && mu.status is Possibly
}
pub open spec fn child_inputs(a: FlowAnalysis, call: TerminatorKind, m: Matrix<Place>, child: Place, mu: Mutation) -> bool {
  forall|p: Place| #[trigger] mu.inputs.has(p) <==> exists|row: Place| #[trigger] fed(m, child, row) && to_parent(a, call, row, false) == Opt::Some(p)
}
pub open spec fn is_child_write(a: FlowAnalysis, call: TerminatorKind, m: Matrix<Place>, mu: Mutation) -> bool { exists|child: Place| #[trigger] child_write(a, call, m, child, mu) }
pub open spec fn has_child_write(a: FlowAnalysis, call: TerminatorKind, m: Matrix<Place>, child: Place, ms: Lst<Mutation>) -> bool {
  exists|i: int| 0 < i < ms.len() && child_write(a, call, m, child, #[trigger] ms.s[i])
}
pub open spec fn writes_of(a: FlowAnalysis, call: TerminatorKind, m: Matrix<Place>, ms: Lst<Mutation>) -> bool {
  &&& ms.len() > 0 && ms.s[0].mutated == call->Call_destination && ms.s[0].inputs.len() == 0 && ms.s[0].status is Definitely
  &&& forall|i: int| 0 < i < ms.len() ==> is_child_write(a, call, m, #[trigger] ms.s[i])
  &&& forall|child: Place| was_written(m, child) && to_parent(a, call, child, true) is Some ==> #[trigger] has_child_write(a, call, m, child, ms)
}
/// `f` turns the rows of `m` into the writes of the call.
pub open spec fn makes_writes(a: FlowAnalysis, call: TerminatorKind, m: Matrix<Place>, f: spec_fn((Place, LSet)) -> Opt<Mutation>) -> bool {
  &&& forall|x: (Place, LSet)| m.rows().has(x) ==> ((#[trigger] f(x)) is Some <==> was_written(m, x.0) && to_parent(a, call, x.0, true) is Some)
  &&& forall|x: (Place, LSet)| m.rows().has(x) && (#[trigger] f(x)) is Some ==> child_target(a, call, m, x.0, f(x)->Some_0)
  &&& forall|x: (Place, LSet)| m.rows().has(x) && (#[trigger] f(x)) is Some ==> child_inputs(a, call, m, x.0, f(x)->Some_0)
}
pub broadcast proof fn made_writes(a: FlowAnalysis, call: TerminatorKind, m: Matrix<Place>, f: spec_fn((Place, LSet)) -> Opt<Mutation>, ms: Lst<Mutation>)
  ensures #![trigger writes_of(a, call, m, ms), m.rows().filter_map(f)]
    makes_writes(a, call, m, f) && ms.len() > 0 && ms.s == seq![ms.s[0]] + m.rows().filter_map(f).s
    && ms.s[0].mutated == call->Call_destination && ms.s[0].inputs.len() == 0 && ms.s[0].status is Definitely ==> writes_of(a, call, m, ms)
{
  broadcast use { has_at, has_flat_map, has_opt, has_filter_map2 };
  let t = m.rows().filter_map(f);
  if makes_writes(a, call, m, f) && ms.len() > 0 && ms.s == seq![ms.s[0]] + t.s && ms.s[0].mutated == call->Call_destination && ms.s[0].inputs.len() == 0 && ms.s[0].status is Definitely {
    assert forall|i: int| 0 < i < ms.len() implies is_child_write(a, call, m, #[trigger] ms.s[i]) by {
      assert(t.s[i - 1] == ms.s[i]);
      assert(t.has(t.s[i - 1]));
      let x = choose|x: (Place, LSet)| #[trigger] m.rows().has(x) && f(x).into_lst().has(ms.s[i]);
      assert(child_write(a, call, m, x.0, ms.s[i]));
    }
    assert forall|child: Place| was_written(m, child) && to_parent(a, call, child, true) is Some implies #[trigger] has_child_write(a, call, m, child, ms) by {
      let x = (child, m.row_set(child));
      mx_rows(m, x);
      assert(t.has(f(x)->Some_0));
      let j = wit(t, f(x)->Some_0);
      assert(ms.s[j + 1] == f(x)->Some_0);
      assert(child_write(a, call, m, child, ms.s[j + 1]));
    }
  }
}
/// What a call writes according to its callee's body, if that is how it is analyzed.
pub uninterp spec fn inlined(a: FlowAnalysis, call: TerminatorKind) -> Opt<Lst<Mutation>>;
pub broadcast axiom fn inlined_ax(a: FlowAnalysis, call: TerminatorKind) ensures (#[trigger] inlined(a, call)) is Some <==> inlinable(a, call);
pub open spec fn inlining(a: FlowAnalysis, call: TerminatorKind, ms: Lst<Mutation>) -> bool {
  exists|m: Matrix<Place>| #[trigger] at_return(callee_flow(a, call), callee_facts(a, call).body, m) && writes_of(a, call, m, ms)
}
@fn FlowAnalysis::recurse_into_call
file: crates/flowistry/src/infoflow/recursive.rs
params: self: FlowAnalysis, state: mut fin: Matrix<Place>, call: TerminatorKind, location: Location
ret: out: bool
subst: BODY_STACK => analysis_stack(self)
subst: self.recurse_cache.borrow_mut() => flow_cache(self)
nouses: lists, matrices
uses: has_filter2, has_filter_map2, fed_row, fed_row2, took_zero, took_all, took_has, mx_join, mx_join_tracks, mx_new, mx_new_tracks, mx_rows, has_flat_map, has_filter, has_opt, made_writes, inlined_ax, flow_cache_ax, body_owner, cache_insert, cache_insert_at
requires call is Call
callreq compute_flow: !analysis_stack(self).has($2)
written recurse_cache: assert(cache_valid(self, $));
fixed: transfer_function 1 not state, location: assert(inlinable(self, call)); 
    assert($.len() > 0 && $.s[0].mutated == call->Call_destination && $.s[0].inputs.len() == 0 && $.s[0].status is Definitely);
    assert forall|c: Place, b: bool| #[trigger] to_parent(self, call, c, b) == self.translate_child_to_parent(self.tcx, callee_facts(self, call).body, call->Call_destination, arg_places(call->Call_args), c, b) by { }
    assert(writes_of(self, call, V(return_state), $)); assert(inlining(self, call, $)); assume(inlined(self, call) == Opt::Some($));
ensures which: out == inlinable(self, call)
ensures no: !out ==> fin == state
ensures yes: out ==> rows_after(self, state, inlined(self, call)->Some_0, location, fin)
ensures what: out ==> inlining(self, call, inlined(self, call)->Some_0)
loop 0
  before: assert forall|r: Location| #[trigger] $IT.has(r) <==> returns_at(V(body), r) by {
      broadcast use { block_enum, block_enum2, lists };
      assert(cand(r));
      if returns_at(V(body), r) {
        let b = choose|b: BasicBlock| #[trigger] V(body).basic_blocks.indices().has(b) && V(body).basic_blocks.idx(b).terminator().kind is Return && r == V(body).terminator_loc(b);
        assert(cand(b)); assert(cand((b, V(body).basic_blocks.idx(b))));
      }
    }
    assert forall|r: Location| #[trigger] returns_at(V(body), r) implies $IT.has(r) by { }
  inv: forall|k: Place, l: Loa| #[trigger] V(return_state).has(k, l) <==> exists|r: Location| #[trigger] SEEN(r) && V(flow).state_at(r).has(k, l),
    forall|k: Place| #[trigger] V(return_state).tracks(k) <==> exists|r: Location| #[trigger] SEEN(r) && V(flow).state_at(r).tracks(k),
  after: assert(V(flow) == callee_flow(self, call)); assert(at_return(callee_flow(self, call), callee_facts(self, call).body, V(return_state)));
@end

// ---- the whole analysis of one body -------------------------------------------------------
@fn FlowAnalysis::new
file: crates/flowistry/src/infoflow/analysis.rs
params: tcx: TyCtxt, def_id: DefId, body: Body, place_info: PlaceInfo
ret: out: FlowAnalysis
ensures parts: out.tcx == tcx && out.def_id == def_id && out.body == body && out.place_info == place_info && out.control_dependencies == body.control_dependencies()
@end

@fn compute_flow
file: crates/flowistry/src/infoflow/mod.rs
params: tcx: TyCtxt, body_id: BodyId, body_with_facts: BodyWithBorrowckFacts, static BODY_STACK stack: mut fin_stack: Lst<BodyId>
ret: out: AnalysisResults
ensures stack: fin_stack == stack
ensures body: out.analysis.tcx == tcx && out.analysis.body == body_with_facts.body && out.analysis.def_id == tcx.hir_body_owner_def_id(body_id).to_def_id()
ensures places: out.analysis.place_info == PlaceInfo::build(tcx, tcx.hir_body_owner_def_id(body_id).to_def_id(), body_with_facts)
ensures control: out.analysis.control_dependencies == body_with_facts.body.control_dependencies()
ensures solved: solved(out.analysis, body_with_facts.body, out.state)
@end
