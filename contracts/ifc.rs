// The information-flow checker (crates/flowistry_ifc).
pub spec const CRATE_DEF_INDEX: DefIndex = DefIndex { id: 0 };
impl SourceMap { pub uninterp spec fn span_to_filename(self, s: Span) -> FileName; }
impl Span { pub uninterp spec fn as_local(self, b: Span) -> Opt<Span>; }
pub struct DefKind { pub id: int }
pub enum HirRes { Def(DefKind, DefId), Other(int) }
pub struct Ident { pub id: int }
impl Ident { pub uninterp spec fn to_string(self) -> Str; }
pub struct ModChild { pub ident: Ident, pub res: HirRes }
impl Str { pub open spec fn as_str(self) -> Str { self } }
pub struct ParamEnv { pub id: int }
pub struct TypingMode { pub id: int }
impl TypingMode { pub uninterp spec fn non_body_analysis() -> TypingMode; }
pub struct InferBuilder { pub id: int }
pub struct InferCtxt { pub id: int }
pub enum EvaluationResult { EvaluatedToOk, EvaluatedToOkModuloRegions, EvaluatedToOkModuloOpaqueTypes, EvaluatedToAmbig, EvaluatedToAmbigStackDependent, EvaluatedToErr }
impl InferBuilder { pub uninterp spec fn build(self, m: TypingMode) -> InferCtxt; }
impl InferCtxt { pub uninterp spec fn type_implements_trait(self, t: DefId, ty: Lst<Ty>, e: ParamEnv) -> EvaluationResult; }
impl TyCtxt {
  pub uninterp spec fn crates(self, u: ()) -> Lst<CrateNum>;
  pub uninterp spec fn crate_name(self, c: CrateNum) -> Str;
  pub uninterp spec fn module_children(self, d: DefId) -> Lst<ModChild>;
  pub uninterp spec fn param_env(self, d: DefId) -> ParamEnv;
  pub uninterp spec fn infer_ctxt(self) -> InferBuilder;
  pub uninterp spec fn hir_span_with_body(self, h: HirId) -> Span;
}
/// Whether a write (a change of colour) to standard error, after `s`, succeeds.
pub uninterp spec fn io_result(s: Lst<Str>) -> Res<(), Error>;
pub uninterp spec fn color_result(s: Lst<Str>) -> Res<(), Error>;
/// Writing to standard error succeeds (the checker panics otherwise).
pub open spec fn writes_ok() -> bool { (forall|s: Lst<Str>| #[trigger] io_result(s) is Ok) && (forall|s: Lst<Str>| #[trigger] color_result(s) is Ok) }
/// What rustc says of `ty: t`.
pub open spec fn evaluated(tcx: TyCtxt, env: ParamEnv, ty: Ty, t: DefId) -> EvaluationResult {
  tcx.infer_ctxt().build(TypingMode::non_body_analysis()).type_implements_trait(t, Lst { s: seq![tcx.erase_regions(ty)] }, env)
}
@fn implements_trait
file: crates/flowistry_ifc/src/analysis.rs
params: tcx: TyCtxt, param_env: ParamEnv, ty: Ty, trait_def_id: DefId
ret: out: bool
ensures holds: out == (evaluated(tcx, param_env, ty, trait_def_id) is EvaluatedToOk || evaluated(tcx, param_env, ty, trait_def_id) is EvaluatedToOkModuloRegions)
@end
pub enum IssueFound { Yes, No }
/// What the items of a module are exported as (the last one, if a name is used for several).
pub open spec fn exported(l: Seq<ModChild>) -> HMap<Str, DefId> decreases l.len() {
  if l.len() == 0 { hmap_empty() } else {
    match l.last().res { HirRes::Def(_, d) => exported(l.drop_last()).insert_upd(l.last().ident.to_string(), d), _ => exported(l.drop_last()) }
  }
}
pub open spec fn exports_as(c: ModChild, o: Opt<(Str, DefId)>) -> bool { match c.res { HirRes::Def(_, d) => o == Opt::Some((c.ident.to_string(), d)), _ => o is None } }
pub proof fn hmap_from_flat(l: Seq<ModChild>, f: spec_fn(ModChild) -> Opt<(Str, DefId)>, g: spec_fn(ModChild) -> Seq<(Str, DefId)>)
  requires forall|c: ModChild| exports_as(c, #[trigger] f(c)), forall|c: ModChild| #[trigger] g(c) == f(c).into_lst().s
  ensures hmap_from(flat(l, g)) == exported(l)
  decreases l.len()
{
  if l.len() > 0 {
    let t = flat(l.drop_last(), g); let c = l.last();
    hmap_from_flat(l.drop_last(), f, g);
    assert(exports_as(c, f(c)));
    assert(g(c) == f(c).into_lst().s);
    match f(c) {
      Opt::Some(x) => { assert(t + g(c) =~= t.push(x)); assert(t.push(x).drop_last() =~= t); },
      Opt::None => { assert(t + g(c) =~= t); },
    }
  }
}
pub broadcast proof fn exported_is(l: Lst<ModChild>, f: spec_fn(ModChild) -> Opt<(Str, DefId)>)
  requires forall|c: ModChild| exports_as(c, #[trigger] f(c)) ensures #[trigger] l.filter_map(f).collect::<HMap<Str, DefId>>() == exported(l.s)
{ hmap_from_flat(l.s, f, |x: ModChild| f(x).into_lst().s); }
/// The crate that defines the markers.
pub open spec fn marker_crate(tcx: TyCtxt) -> Opt<CrateNum> { tcx.crates(()).find(|c: CrateNum| tcx.crate_name(c) == STR("flowistry_ifc_traits")) }
pub open spec fn marker(tcx: TyCtxt, c: CrateNum, name: Str) -> DefId { exported(tcx.module_children(DefId { krate: c, index: CRATE_DEF_INDEX }).s).idx(name) }
/// `p` is part of a local of the body, and its type is marked `t`.
pub open spec fn marked(tcx: TyCtxt, body: Body, def_id: DefId, t: DefId, p: Place) -> bool {
  implements_trait(tcx, tcx.param_env(def_id), p.ty(body.local_decls(), tcx).ty, t)
  && exists|l: Local| #[trigger] body.local_decls().indices().has(l) && Place::from_local(l, tcx).interior_places(tcx, body, def_id).has(p)
}
/// What holds at one of the return points.
#[verifier::opaque]
pub open spec fn at_end(r: FlowResults, k: Place, x: Loa) -> bool { exists|l: Location| #[trigger] r.analysis.body.all_returns().has(l) && r.state_at(l).has(k, x) }
pub open spec fn end_state(r: FlowResults, st: Matrix<Place>) -> bool { forall|k: Place, x: Loa| #[trigger] st.has(k, x) <==> at_end(r, k, x) }
/// The dependencies of `j` in `st` are all dependencies of `i`.
#[verifier::opaque]
pub open spec fn all_flow(r: FlowResults, st: Matrix<Place>, i: Place, j: Place) -> bool { forall|l: Loa| reads(r.analysis, st, i, l) ==> #[trigger] reads(r.analysis, st, j, l) }
/// `j` is marked insecure, `i` secure, and all dependencies of `i` are ones of `j`.
pub open spec fn leaks(r: FlowResults, c: CrateNum, def_id: DefId, st: Matrix<Place>, i: Place, j: Place) -> bool {
  let a = r.analysis;
  marked(a.tcx, a.body, def_id, marker(a.tcx, c, STR("Secure")), i) && marked(a.tcx, a.body, def_id, marker(a.tcx, c, STR("Insecure")), j) && all_flow(r, st, i, j)
}
pub open spec fn owner(tcx: TyCtxt, b: BodyId) -> DefId { tcx.hir_body_owner_def_id(b).to_def_id() }
/// `errs` are the insecure flows of the body.
pub open spec fn insecure_flows(r: FlowResults, b: BodyId, errs: Lst<(Place, Place)>) -> bool {
  match marker_crate(r.analysis.tcx) {
    Opt::None => errs.len() == 0,
    Opt::Some(c) => {
      &&& r.analysis.body.all_returns().len() == 0 ==> errs.len() == 0
      &&& r.analysis.body.all_returns().len() != 0 ==> exists|st: Matrix<Place>| #[trigger] end_state(r, st) && insecure_in(r, c, owner(r.analysis.tcx, b), st, errs)
    }
  }
}
#[verifier::opaque]
pub open spec fn insecure_in(r: FlowResults, c: CrateNum, d: DefId, st: Matrix<Place>, errs: Lst<(Place, Place)>) -> bool {
  forall|i: Place, j: Place| #[trigger] errs.has((i, j)) <==> leaks(r, c, d, st, i, j)
}
pub proof fn fold_join(r: FlowResults, s: Seq<Matrix<Place>>, a: Matrix<Place>, f: spec_fn(Matrix<Place>, Matrix<Place>) -> Matrix<Place>, k: Place, x: Loa)
  requires forall|p: Matrix<Place>, q: Matrix<Place>| #[trigger] f(p, q) == p.join_upd(q)
  ensures fold(s, a, f).has(k, x) <==> a.has(k, x) || exists|i: int| 0 <= i < s.len() && #[trigger] s[i].has(k, x)
  decreases s.len()
{
  if s.len() > 0 {
    let t = s.drop_last();
    fold_join(r, t, a, f, k, x);
    mx_join(fold(t, a, f), s.last(), k, x);
    if exists|i: int| 0 <= i < t.len() && #[trigger] t[i].has(k, x) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i].has(k, x); assert(s[i].has(k, x)); }
    if s.last().has(k, x) { assert(s[s.len() - 1].has(k, x)); }
    if exists|i: int| 0 <= i < s.len() && #[trigger] s[i].has(k, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].has(k, x); if i < t.len() { assert(t[i].has(k, x)); } }
  }
}
pub open spec fn joins_all(r: FlowResults, l: Lst<Location>, o: Opt<Matrix<Place>>) -> bool {
  match o { Opt::None => l.len() == 0, Opt::Some(st) => l.len() != 0 && forall|k: Place, x: Loa| #[trigger] st.has(k, x) <==> exists|q: Location| #[trigger] l.has(q) && r.state_at(q).has(k, x) }
}
pub broadcast proof fn joined_state(r: FlowResults, l: Lst<Location>, g: spec_fn(Location) -> Matrix<Place>, f: spec_fn(Matrix<Place>, Matrix<Place>) -> Matrix<Place>)
  requires forall|p: Matrix<Place>, q: Matrix<Place>| #[trigger] f(p, q) == p.join_upd(q), forall|q: Location| #[trigger] g(q) == r.state_at(q)
  ensures #![trigger l.map(g).reduce(f), r.analysis] joins_all(r, l, l.map(g).reduce(f))
{
  let m = l.map(g);
  if l.len() != 0 {
    let t = m.s.subrange(1, m.s.len() as int); let st = fold(t, m.s[0], f);
    assert forall|k: Place, x: Loa| #[trigger] st.has(k, x) <==> exists|q: Location| #[trigger] l.has(q) && r.state_at(q).has(k, x) by {
      fold_join(r, t, m.s[0], f, k, x);
      at(l, 0);
      assert(m.s[0] == r.state_at(l.s[0]));
      if exists|i: int| 0 <= i < t.len() && #[trigger] t[i].has(k, x) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i].has(k, x); at(l, i + 1); assert(t[i] == r.state_at(l.s[i + 1])); }
      if exists|q: Location| #[trigger] l.has(q) && r.state_at(q).has(k, x) {
        let q = choose|q: Location| #[trigger] l.has(q) && r.state_at(q).has(k, x); let i = wit(l, q);
        if i > 0 { assert(t[i - 1] == g(q)); assert(t[i - 1].has(k, x)); }
      }
    }
  }
}
pub open spec fn covered(r: FlowResults, st: Matrix<Place>, i: Place, insecure: HSet<Place>, p: (Place, Place)) -> bool { p.0 == i && insecure.has(p.1) && all_flow(r, st, i, p.1) }
pub proof fn flow_iff(r: FlowResults, st: Matrix<Place>, i: Place, j: Place, di: LSet, dj: LSet)
  requires di == r.analysis.deps_for(st, i), dj == r.analysis.deps_for(st, j) ensures dj.is_superset(di) <==> all_flow(r, st, i, j)
{ broadcast use FlowAnalysis_deps_for_ax; reveal(all_flow); 
  if dj.is_superset(di) { assert forall|l: Loa| reads(r.analysis, st, i, l) implies #[trigger] reads(r.analysis, st, j, l) by { assert(di.has(l)); assert(dj.has(l)); } }
  if all_flow(r, st, i, j) { assert forall|l: Loa| #[trigger] di.has(l) implies dj.has(l) by { assert(reads(r.analysis, st, j, l)); } } }
@fn analyze
file: crates/flowistry_ifc/src/analysis.rs
params: body_id: BodyId, results: FlowResults, extra STREAM s: mut s2: Lst<Str>
ret: out: Res<IssueFound, Error>
try: Res
stream: STREAM
types: Res=HirRes
nouses: lists, matrices, FlowAnalysis_deps_for_ax
ensures flows: out is Ok ==> exists|errs: Lst<(Place, Place)>| #[trigger] insecure_flows(results, body_id, errs) && (out->Ok_0 is Yes <==> errs.len() > 0) && s2.len() >= s.len() + errs.len()
ensures ok: writes_ok() ==> out is Ok
ensures silent: out == Res::<IssueFound, Error>::Ok(IssueFound::No) ==> s2 == s
uses: find_ext, joined_state, exported_is, took_zero, has_hiter, has_empty
post: assert(insecure_flows(results, body_id, Lst::new()) || (marker_crate(results.analysis.tcx) is Some && results.analysis.body.all_returns().len() != 0));
at ifc_items: assert(V(ifc_items) == exported(V(tcx).module_children(V(ifc_mod)).s));
at secure_places: let t = marker(V(tcx), V(ifc_crate), STR("Secure"));
  assert forall|p: Place| #[trigger] V(secure_places).has(p) <==> marked(V(tcx), V(body), V(def_id), t, p) by {
    broadcast use { has_flat_map, has_hiter, has_filter, has_hextend, has_hempty };
  }
at insecure_places: let t = marker(V(tcx), V(ifc_crate), STR("Insecure"));
  assert forall|p: Place| #[trigger] V(insecure_places).has(p) <==> marked(V(tcx), V(body), V(def_id), t, p) by {
    broadcast use { has_flat_map, has_hiter, has_filter, has_hextend, has_hempty };
  }
loop 0
  before: assert(marker_crate(V(tcx)) == Opt::Some(V(ifc_crate)));
    assert(end_state(results, V(final_state))) by { reveal(at_end); assert(joins_all(results, V(body).all_returns(), Opt::Some(V(final_state)))); }
  inv: forall|p: (Place, Place)| #[trigger] V(errors).has(p) <==> (SEEN(p.0) && V(insecure_places).has(p.1) && all_flow(results, V(final_state), p.0, p.1)),
  after: assert(insecure_in(results, V(ifc_crate), owner(V(tcx), body_id), V(final_state), V(errors))) by { reveal(insecure_in);
      assert forall|i: Place, j: Place| #[trigger] V(errors).has((i, j)) <==> leaks(results, V(ifc_crate), owner(V(tcx), body_id), V(final_state), i, j) by {
        assert(V(secure_places).iter().has(i) == V(secure_places).has(i));
        assert(V(insecure_places).has(j) == marked(V(tcx), V(body), V(def_id), marker(V(tcx), V(ifc_crate), STR("Insecure")), j));
      }
    }
    assert(insecure_flows(results, body_id, V(errors)));
loop 1
  inv: forall|p: (Place, Place)| #[trigger] V(errors).has(p) <==> (OLD(errors).has(p) || (p.0 == V(secure) && SEEN(p.1) && all_flow(results, V(final_state), p.0, p.1))),
  end: broadcast use has_push; flow_iff(results, V(final_state), V(secure), V(insecure), results.analysis.deps_for(V(final_state), V(secure)), results.analysis.deps_for(V(final_state), V(insecure)));
loop 2
  inv: V(STREAM).len() >= s.len() + $I, $I == 0 ==> V(STREAM) == s,
@end
/// `b` has an insecure flow.
pub open spec fn flagged(tcx: TyCtxt, b: BodyId) -> bool {
  exists|errs: Lst<(Place, Place)>| #[trigger] insecure_flows(compute_flow(tcx, b, get_body_with_borrowck_facts(tcx, tcx.hir_body_owner_def_id(b))), b, errs) && errs.len() > 0
}
pub proof fn reads_same(r: FlowResults, s: Matrix<Place>, t: Matrix<Place>, i: Place, j: Place)
  requires end_state(r, s), end_state(r, t) ensures all_flow(r, s, i, j) == all_flow(r, t, i, j)
{
  reveal(all_flow);
  assert(below(s, t)) by { assert forall|k: Place, x: Loa| #[trigger] s.has(k, x) implies t.has(k, x) by { assert(at_end(r, k, x)); } }
  assert(below(t, s)) by { assert forall|k: Place, x: Loa| #[trigger] t.has(k, x) implies s.has(k, x) by { assert(at_end(r, k, x)); } }
  assert forall|p: Place, l: Loa| #[trigger] reads(r.analysis, s, p, l) == reads(r.analysis, t, p, l) by {
    if reads(r.analysis, s, p, l) { let q = choose|q: Place| #[trigger] r.analysis.place_info.reachable_values(p, Mutability::Not).has(q) && infl_dep(r.analysis, s, q, l); infl_mono(r.analysis, s, t, q, l); }
    if reads(r.analysis, t, p, l) { let q = choose|q: Place| #[trigger] r.analysis.place_info.reachable_values(p, Mutability::Not).has(q) && infl_dep(r.analysis, t, q, l); infl_mono(r.analysis, t, s, q, l); }
  }
  if all_flow(r, s, i, j) { assert forall|l: Loa| reads(r.analysis, t, i, l) implies #[trigger] reads(r.analysis, t, j, l) by { assert(reads(r.analysis, s, i, l)); assert(reads(r.analysis, s, j, l)); } }
  if all_flow(r, t, i, j) { assert forall|l: Loa| reads(r.analysis, s, i, l) implies #[trigger] reads(r.analysis, s, j, l) by { assert(reads(r.analysis, t, i, l)); assert(reads(r.analysis, t, j, l)); } }
}
/// Two lists of the insecure flows of a body have the same elements.
pub proof fn flows_same(r: FlowResults, b: BodyId, e: Lst<(Place, Place)>, f: Lst<(Place, Place)>)
  requires insecure_flows(r, b, e), insecure_flows(r, b, f), e.len() > 0 ensures f.len() > 0
{
  reveal(insecure_in);
  let c = marker_crate(r.analysis.tcx)->Some_0; let d = owner(r.analysis.tcx, b);
  let s = choose|st: Matrix<Place>| #[trigger] end_state(r, st) && insecure_in(r, c, d, st, e);
  let t = choose|st: Matrix<Place>| #[trigger] end_state(r, st) && insecure_in(r, c, d, st, f);
  at(e, 0);
  let (i, j) = e.s[0];
  assert(e.has((i, j)));
  reads_same(r, s, t, i, j);
  assert(f.has((i, j)));
  let n = wit(f, (i, j));
}
/// The bodies rustc's visitor finds directly inside a body, and in the items of the crate.
pub uninterp spec fn nested_bodies(b: HirBody) -> Lst<BodyId>;
pub uninterp spec fn item_bodies(tcx: TyCtxt) -> Lst<BodyId>;
pub open spec fn within_n(tcx: TyCtxt, b: BodyId, c: BodyId, n: nat) -> bool decreases n {
  if n == 0 { c == b } else { exists|m: BodyId| #[trigger] nested_bodies(tcx.hir_body(b)).has(m) && within_n(tcx, m, c, (n - 1) as nat) }
}
/// `c` is `b` or a body in it.
#[verifier::opaque]
pub open spec fn within(tcx: TyCtxt, b: BodyId, c: BodyId) -> bool { exists|n: nat| #[trigger] within_n(tcx, b, c, n) }
pub open spec fn flagged_in(tcx: TyCtxt, b: BodyId) -> bool { exists|c: BodyId| #[trigger] within(tcx, b, c) && flagged(tcx, c) }
pub open spec fn flagged_among(tcx: TyCtxt, bs: Seq<BodyId>) -> bool { exists|b: BodyId| #[trigger] bs.contains(b) && flagged_in(tcx, b) }
pub proof fn within_step(tcx: TyCtxt, b: BodyId) ensures flagged_in(tcx, b) <==> flagged(tcx, b) || flagged_among(tcx, nested_bodies(tcx.hir_body(b)).s)
{
  reveal(within);
  let l = nested_bodies(tcx.hir_body(b));
  if flagged_in(tcx, b) {
    let c = choose|c: BodyId| #[trigger] within(tcx, b, c) && flagged(tcx, c);
    let n = choose|n: nat| #[trigger] within_n(tcx, b, c, n);
    if n > 0 {
      let m = choose|m: BodyId| #[trigger] l.has(m) && within_n(tcx, m, c, (n - 1) as nat);
      assert(within(tcx, m, c));
      let i = wit(l, m); assert(l.s.contains(m)); assert(flagged_in(tcx, m));
    }
  }
  if flagged(tcx, b) { assert(within_n(tcx, b, b, 0)); assert(within(tcx, b, b)); }
  if flagged_among(tcx, l.s) {
    let m = choose|m: BodyId| #[trigger] l.s.contains(m) && flagged_in(tcx, m);
    let c = choose|c: BodyId| #[trigger] within(tcx, m, c) && flagged(tcx, c);
    let n = choose|n: nat| #[trigger] within_n(tcx, m, c, n);
    let i = choose|i: int| 0 <= i < l.s.len() && l.s[i] == m; at(l, i);
    assert(within_n(tcx, b, c, n + 1));
    assert(within(tcx, b, c));
  }
}
pub struct IfcVisitor { pub tcx: TyCtxt, pub issue_found: IssueFound } // set_
/// The visitor, and what is written, after visiting the bodies in order.
pub open spec fn walked(v: IfcVisitor, s: Lst<Str>, bs: Seq<BodyId>) -> (IfcVisitor, Lst<Str>) decreases bs.len() {
  if bs.len() == 0 { (v, s) } else { let (w, t) = walked(v, s, bs.drop_last()); w.visit_nested_body(bs.last(), t) }
}
pub proof fn walked_is(v: IfcVisitor, s: Lst<Str>, bs: Seq<BodyId>)
  requires writes_ok()
  ensures walked(v, s, bs).0.tcx == v.tcx, walked(v, s, bs).0.issue_found is Yes <==> v.issue_found is Yes || flagged_among(v.tcx, bs)
  decreases bs.len()
{
  broadcast use IfcVisitor_visit_nested_body_ax;
  if bs.len() > 0 {
    walked_is(v, s, bs.drop_last());
    assert(flagged_among(v.tcx, bs) <==> flagged_among(v.tcx, bs.drop_last()) || flagged_in(v.tcx, bs.last())) by {
      assert forall|b: BodyId| #[trigger] bs.contains(b) <==> bs.drop_last().contains(b) || b == bs.last() by { contains_last(bs, b); }
      if flagged_in(v.tcx, bs.last()) { assert(bs.contains(bs.last())); }
      if flagged_among(v.tcx, bs.drop_last()) { let b = choose|b: BodyId| #[trigger] bs.drop_last().contains(b) && flagged_in(v.tcx, b); assert(bs.contains(b)); }
    }
  }
}
@assume walk_body
file: -
params: v: mut v2: IfcVisitor, b: HirBody, extra STREAM s: mut s2: Lst<Str>
requires writes_ok()
ensures visits: (v2, s2) == walked(v, s, nested_bodies(b).s)
@end
@assume TyCtxt::hir_visit_all_item_likes_in_crate
file: -
params: self: TyCtxt, v: mut v2: IfcVisitor, extra STREAM s: mut s2: Lst<Str>
requires writes_ok()
ensures visits: (v2, s2) == walked(v, s, item_bodies(self).s)
@end
pub proof fn analyze_iff(tcx: TyCtxt, b: BodyId, s: Lst<Str>)
  requires writes_ok()
  ensures ({ let (out, s2) = analyze(b, compute_flow(tcx, b, get_body_with_borrowck_facts(tcx, tcx.hir_body_owner_def_id(b))), s); out is Ok && (out->Ok_0 is Yes <==> flagged(tcx, b)) })
{
  broadcast use analyze_ax;
  let r = compute_flow(tcx, b, get_body_with_borrowck_facts(tcx, tcx.hir_body_owner_def_id(b)));
  let (out, s2) = analyze(b, r, s);
  let e = choose|errs: Lst<(Place, Place)>| #[trigger] insecure_flows(r, b, errs) && (out->Ok_0 is Yes <==> errs.len() > 0) && s2.len() >= s.len() + errs.len();
  if flagged(tcx, b) { let f = choose|errs: Lst<(Place, Place)>| #[trigger] insecure_flows(r, b, errs) && errs.len() > 0; flows_same(r, b, f, e); }
}
@fn IfcVisitor::visit_nested_body
file: crates/flowistry_ifc/src/lib.rs
params: self: mut self2: IfcVisitor, body_id: BodyId, extra STREAM s: mut s2: Lst<Str>
passes: walk_body=&mut STREAM, analyze=&mut STREAM
requires writes_ok()
ensures tcx: self2.tcx == self.tcx
ensures found: self2.issue_found is Yes <==> self.issue_found is Yes || flagged_in(self.tcx, body_id)
nouses: lists, matrices, compute_flow_ax, analyze_ax
proof: walked_is(self, s, nested_bodies(self.tcx.hir_body(body_id)).s); within_step(self.tcx, body_id); assert forall|t: Lst<Str>| (#[trigger] analyze(body_id, compute_flow(self.tcx, body_id, get_body_with_borrowck_facts(self.tcx, self.tcx.hir_body_owner_def_id(body_id))), t)).0 is Ok && (analyze(body_id, compute_flow(self.tcx, body_id, get_body_with_borrowck_facts(self.tcx, self.tcx.hir_body_owner_def_id(body_id))), t).0->Ok_0 is Yes <==> flagged(self.tcx, body_id)) by { analyze_iff(self.tcx, body_id, t); }
@end
pub struct IfcCallbacks { pub id: int }
@fn IfcCallbacks::after_analysis
file: crates/flowistry_ifc/src/lib.rs
src: Callbacks::after_analysis
params: self: mut self2: IfcCallbacks, comp: Compiler, tcx: TyCtxt, extra STREAM s: mut s2: Lst<Str>
ret: out: Compilation
stream: STREAM
passes: hir_visit_all_item_likes_in_crate=&mut STREAM
requires writes_ok()
proof: walked_is(IfcVisitor { tcx, issue_found: IssueFound::No }, s, item_bodies(tcx).s);
ensures stop: out is Stop
ensures verdict: s2 == (if flagged_among(tcx, item_bodies(tcx).s) { walked(IfcVisitor { tcx, issue_found: IssueFound::No }, s, item_bodies(tcx).s).1 } else { walked(IfcVisitor { tcx, issue_found: IssueFound::No }, s, item_bodies(tcx).s).1.push_upd(STR("No security issues found!")) })
@end
