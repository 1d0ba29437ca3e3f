impl ModularMutationVisitor {
  /// rustc's `visit_body` visits every location of the body.
  pub open spec fn ev_visit_body(pi: PlaceInfo, body: Body) -> Lst<(Location, Lst<Mutation>)> {
    body.all_locations().flat_map(|l: Location| Self::ev_visit_location(pi, body, l))
  }
}
pub struct DirectInfluence { pub place_info: PlaceInfo, pub influence: Matrix<Place> }
/// `m` reads a place from which `q` is reachable, or writes one from which `q` can be mutated.
pub open spec fn touches(pi: PlaceInfo, m: Mutation, q: Place) -> bool {
  pi.reachable_values(m.mutated, Mutability::Mut).has(q) || exists|p: Place| #[trigger] m.inputs.has(p) && pi.reachable_values(p, Mutability::Not).has(q)
}
/// Some event in the list touches `q` at `l`.
pub open spec fn touched(pi: PlaceInfo, ev: Lst<(Location, Lst<Mutation>)>, q: Place, l: Loa) -> bool {
  exists|e: (Location, Lst<Mutation>), m: Mutation| #[trigger] ev.has(e) && #[trigger] e.1.has(m) && l == Loa::Location(e.0) && touches(pi, m, q)
}
@fn DirectInfluence::build
file: crates/flowistry_ide/src/focus/direct_influence.rs
params: body: Body, place_info: PlaceInfo
ret: out: DirectInfluence
ensures info: out.place_info == place_info
ensures rows: forall|q: Place, l: Loa| #[trigger] out.influence.has(q, l) <==> touched(place_info, ModularMutationVisitor::ev_visit_body(place_info, body), q, l)
loop 0
  inv: forall|q: Place, l: Loa| #[trigger] V(influence).has(q, l) <==> exists|e: (Location, Lst<Mutation>), m: Mutation| #[trigger] SEEN(e) && #[trigger] e.1.has(m) && l == Loa::Location(e.0) && touches(place_info, m, q),
loop 1
  inv: forall|q: Place, l: Loa| #[trigger] V(influence).has(q, l) <==> OLD(influence).has(q, l) || exists|m: Mutation| #[trigger] SEEN(m) && l == Loa::Location(V(location)) && touches(place_info, m, q),
loop 2
  inv: forall|q: Place, l: Loa| #[trigger] V(influence).has(q, l) <==> OLD(influence).has(q, l) || exists|p: Place| #[trigger] SEEN(p) && l == Loa::Location(V(location)) && place_info.reachable_values(p, Mutability::Not).has(q),
loop add.0
  inv: forall|q: Place, l: Loa| #[trigger] V(influence).has(q, l) <==> OLD(influence).has(q, l) || (SEEN(q) && l == Loa::Location(V(location))),
@end

/// Where something reachable from `target` is touched.
pub open spec fn looked_up(d: DirectInfluence, target: Place, l: Loa) -> bool {
  exists|q: Place| #[trigger] d.place_info.reachable_values(target, Mutability::Not).has(q) && d.influence.has(q, l)
}
@fn DirectInfluence::lookup
file: crates/flowistry_ide/src/focus/direct_influence.rs
params: self: DirectInfluence, target: Place
ret: out: Lst<Loa>
ensures mem: forall|l: Loa| #[trigger] out.has(l) <==> looked_up(self, target, l)
@end

pub struct SourceMap { pub id: int }
impl Session { pub uninterp spec fn source_map(self) -> SourceMap; }
pub struct Error { pub id: int }
pub struct CharRange { pub start: CharPos, pub end: CharPos, pub filename: FileIdx }
impl CharRange { pub uninterp spec fn from_span(s: Span, m: SourceMap) -> Res<CharRange, Error>; }
impl Span {
  pub uninterp spec fn trim_leading_whitespace(self, m: SourceMap) -> Opt<Lst<Span>>;
  pub uninterp spec fn contains(self, o: Span) -> bool;
  pub uninterp spec fn to(self, o: Span) -> Span;
}
pub struct Param { pub span: Span, pub id: int }
pub struct HirBody { pub params: Lst<Param>, pub id: int }
impl TyCtxt { pub uninterp spec fn hir_body(self, b: BodyId) -> HirBody; }
/// `PlaceInfo` of the editor protocol.
pub struct PlaceEntry { pub range: CharRange, pub ranges: Lst<CharRange>, pub slice: Lst<CharRange>, pub direct_influence: Lst<CharRange> }
pub struct FocusOutput { pub place_info: Lst<PlaceEntry>, pub containers: Lst<CharRange> }
pub type Group = (SpanData, Lst<(Place, Loa)>);
/// `x` is selectable at the range `k`.
pub open spec fn selectable(tree: Lst<MirSpannedPlace>, k: SpanData, x: (Place, Loa)) -> bool {
  exists|m: MirSpannedPlace| #[trigger] tree.has(m) && m.span == k && m.place == x.0 && m.locations.has(x.1)
}
/// `g` has one group for each selectable range: what is selectable there.
#[verifier::opaque]
pub open spec fn grouping(tree: Lst<MirSpannedPlace>, g: Lst<Group>) -> bool {
  &&& forall|i: int, j: int| 0 <= i < j < g.s.len() ==> #[trigger] g.s[i].0 != #[trigger] g.s[j].0
  &&& forall|i: int, x: (Place, Loa)| 0 <= i < g.s.len() ==> (#[trigger] g.s[i].1.has(x) <==> selectable(tree, g.s[i].0, x))
  &&& forall|m: MirSpannedPlace| #[trigger] tree.has(m) ==> exists|i: int| 0 <= i < g.s.len() && #[trigger] g.s[i].0 == m.span
  &&& forall|i: int| 0 <= i < g.s.len() ==> span_used(tree, #[trigger] g.s[i].0)
}
/// `k` is the range of something in the tree.
#[verifier::opaque]
pub open spec fn span_used(tree: Lst<MirSpannedPlace>, k: SpanData) -> bool { exists|m: MirSpannedPlace| #[trigger] tree.has(m) && m.span == k }
/// `r` is a range of `s` as shown in the editor.
pub open spec fn shown(s: Span, m: SourceMap, r: CharRange) -> bool {
  s.trim_leading_whitespace(m) is Some && exists|t: Span| #[trigger] s.trim_leading_whitespace(m)->Some_0.has(t) && CharRange::from_span(t, m) == Res::<CharRange, Error>::Ok(r)
}
pub open spec fn shown_all(l: Lst<Span>, m: SourceMap, rs: Lst<CharRange>) -> bool {
  forall|r: CharRange| #[trigger] rs.has(r) <==> exists|s: Span| #[trigger] l.has(s) && shown(s, m, r)
}
/// `s` is a range of a location which touches one of `ts`, inside `slice`.
#[verifier::opaque]
pub open spec fn direct_span(d: DirectInfluence, sp: Spanner, body: Body, ts: Lst<(Place, Loa)>, slice: Lst<Span>, s: Span) -> bool {
  &&& exists|t: (Place, Loa), l: Loa| #[trigger] ts.has(t) && #[trigger] looked_up(d, t.0, l) && sp.location_to_spans(l, body, EnclosingHirSpans::None).has(s)
  &&& exists|q: Span| #[trigger] slice.has(q) && q.contains(s)
}
pub open spec fn describes(d: DirectInfluence, sp: Spanner, body: Body, m: SourceMap, g: Group, slice: Lst<Span>, e: PlaceEntry) -> bool {
  &&& CharRange::from_span(g.0.span(), m) == Res::<CharRange, Error>::Ok(e.range)
  &&& forall|r: CharRange| #[trigger] e.ranges.has(r) <==> shown(g.0.span(), m, r)
  &&& shown_all(slice, m, e.slice)
  &&& forall|r: CharRange| #[trigger] e.direct_influence.has(r) <==> exists|s: Span| #[trigger] direct_span(d, sp, body, g.1, slice, s) && shown(s, m, r)
}
/// The targets of the groups, in order.
pub open spec fn targets_of(g: Lst<Group>, ts: Lst<Lst<(Place, Loa)>>) -> bool { ts.len() == g.len() && forall|i: int| 0 <= i < g.s.len() ==> #[trigger] ts.s[i] == g.s[i].1 }
/// `es` are the descriptions of the first `n` groups.
#[verifier::opaque]
pub open spec fn entries(d: DirectInfluence, sp: Spanner, body: Body, m: SourceMap, g: Lst<Group>, slices: Lst<Lst<Span>>, n: int, es: Lst<PlaceEntry>) -> bool {
  &&& es.len() <= n
  &&& forall|e: PlaceEntry| #[trigger] es.has(e) ==> exists|i: int| 0 <= i < n && describes(d, sp, body, m, #[trigger] g.s[i], slices.s[i], e)
  &&& forall|i: int| 0 <= i < n && (CharRange::from_span((#[trigger] g.s[i]).0.span(), m) is Ok) ==> exists|e: PlaceEntry| #[trigger] es.has(e) && describes(d, sp, body, m, g.s[i], slices.s[i], e)
}
pub broadcast proof fn entries_none(d: DirectInfluence, sp: Spanner, body: Body, m: SourceMap, g: Lst<Group>, slices: Lst<Lst<Span>>)
  ensures #[trigger] entries(d, sp, body, m, g, slices, 0, Lst::new())
{ broadcast use lists; reveal(entries); }
/// `e` is the entry of group `g`, if it has one.
pub open spec fn fits(d: DirectInfluence, sp: Spanner, body: Body, m: SourceMap, g: Group, slice: Lst<Span>, e: Opt<PlaceEntry>) -> bool {
  match e { Opt::Some(e) => describes(d, sp, body, m, g, slice, e), Opt::None => !(CharRange::from_span(g.0.span(), m) is Ok) } }
pub proof fn entries_step(d: DirectInfluence, sp: Spanner, body: Body, m: SourceMap, g: Lst<Group>, slices: Lst<Lst<Span>>, n: int, es: Lst<PlaceEntry>, es2: Lst<PlaceEntry>)
  requires entries(d, sp, body, m, g, slices, n, es), 0 <= n < g.s.len(),
    exists|e: Opt<PlaceEntry>| es2 == #[trigger] es.extend_upd(e) && fits(d, sp, body, m, g.s[n], slices.s[n], e),
  ensures entries(d, sp, body, m, g, slices, n + 1, es2)
{
  broadcast use { has_extend, has_opt };
  reveal(entries);
  let e = choose|e: Opt<PlaceEntry>| es2 == #[trigger] es.extend_upd(e) && fits(d, sp, body, m, g.s[n], slices.s[n], e);
  assert forall|x: PlaceEntry| #[trigger] es2.has(x) implies exists|i: int| 0 <= i < n + 1 && describes(d, sp, body, m, #[trigger] g.s[i], slices.s[i], x) by {
    if es.has(x) { let i = choose|i: int| 0 <= i < n && describes(d, sp, body, m, #[trigger] g.s[i], slices.s[i], x); assert(0 <= i < n + 1); } else { assert(describes(d, sp, body, m, g.s[n], slices.s[n], x)); }
  }
  assert forall|i: int| 0 <= i < n + 1 && (CharRange::from_span((#[trigger] g.s[i]).0.span(), m) is Ok) implies exists|x: PlaceEntry| #[trigger] es2.has(x) && describes(d, sp, body, m, g.s[i], slices.s[i], x) by {
    if i < n { let x = choose|x: PlaceEntry| #[trigger] es.has(x) && describes(d, sp, body, m, g.s[i], slices.s[i], x); assert(es2.has(x)); } else { assert(es2.has(e->Some_0)); }
  }
}
pub open spec fn place_entries(tcx: TyCtxt, body_id: BodyId, es: Lst<PlaceEntry>) -> bool {
  let facts = facts_of(tcx, body_id);
  let flow = compute_flow(tcx, body_id, facts);
  let sp = Spanner::new(tcx, body_id, facts.body);
  exists|g: Lst<Group>, ts: Lst<Lst<(Place, Loa)>>| grouping(sp.mir_span_tree, g) && #[trigger] targets_of(g, ts)
    && entries(DirectInfluence::build(facts.body, flow.analysis.place_info), sp, facts.body, tcx.sess.source_map(), g, compute_dependency_spans(flow, ts, Direction::Both, sp), g.s.len() as int, es)
}
/// `u` is a selectable range with its places.
pub open spec fn mirrors(m: MirSpannedPlace, u: Group) -> bool { u.0 == m.span && forall|x: (Place, Loa)| #[trigger] u.1.has(x) <==> x.0 == m.place && m.locations.has(x.1) }
#[verifier::opaque]
pub open spec fn listed(tree: Lst<MirSpannedPlace>, l: Lst<Group>) -> bool {
  &&& forall|u: Group| #[trigger] l.has(u) ==> exists|m: MirSpannedPlace| #[trigger] tree.has(m) && mirrors(m, u)
  &&& forall|m: MirSpannedPlace| #[trigger] tree.has(m) ==> exists|u: Group| #[trigger] l.has(u) && mirrors(m, u)
}
#[verifier::opaque]
pub open spec fn flattened(it: Lst<(SpanData, Lst<Lst<(Place, Loa)>>)>, g: Lst<Group>) -> bool {
  it.s.len() == g.s.len() && forall|i: int| 0 <= i < g.s.len() ==> (#[trigger] g.s[i]).0 == it.s[i].0 && g.s[i].1 == it.s[i].1.concat()
}
pub proof fn listed_m(tree: Lst<MirSpannedPlace>, l: Lst<Group>, u: Group) -> (m: MirSpannedPlace) requires listed(tree, l), l.has(u) ensures tree.has(m), mirrors(m, u)
{ reveal(listed); choose|m: MirSpannedPlace| #[trigger] tree.has(m) && mirrors(m, u) }
pub proof fn listed_u(tree: Lst<MirSpannedPlace>, l: Lst<Group>, m: MirSpannedPlace) -> (u: Group) requires listed(tree, l), tree.has(m) ensures l.has(u), mirrors(m, u)
{ reveal(listed); choose|u: Group| #[trigger] l.has(u) && mirrors(m, u) }
pub broadcast proof fn listed_map(tree: Lst<MirSpannedPlace>, f: spec_fn(MirSpannedPlace) -> Group)
  requires forall|m: MirSpannedPlace| mirrors(m, #[trigger] f(m)) ensures listed(tree, #[trigger] tree.map(f))
{
  reveal(listed);
  assert forall|u: Group| #[trigger] tree.map(f).has(u) implies exists|m: MirSpannedPlace| #[trigger] tree.has(m) && mirrors(m, u) by { has_map(tree, f, u); }
  assert forall|m: MirSpannedPlace| #[trigger] tree.has(m) implies exists|u: Group| #[trigger] tree.map(f).has(u) && mirrors(m, u) by { has_map2(tree, f, m); assert(mirrors(m, f(m))); }
}
pub broadcast proof fn flattened_map(it: Lst<(SpanData, Lst<Lst<(Place, Loa)>>)>, h: spec_fn((SpanData, Lst<Lst<(Place, Loa)>>)) -> Group)
  requires forall|y: (SpanData, Lst<Lst<(Place, Loa)>>)| (#[trigger] h(y)).0 == y.0 && h(y).1 == y.1.concat() ensures flattened(it, #[trigger] it.map(h))
{ reveal(flattened); }
pub proof fn grouping_by(tree: Lst<MirSpannedPlace>, l: Lst<Group>, it: Lst<(SpanData, Lst<Lst<(Place, Loa)>>)>, g: Lst<Group>)
  requires grouped(l, it), listed(tree, l), flattened(it, g) ensures grouping(tree, g)
{
  reveal(grouped); reveal(flattened); reveal(grouping);
  assert forall|i: int, x: (Place, Loa)| 0 <= i < g.s.len() implies (#[trigger] g.s[i].1.has(x) <==> selectable(tree, g.s[i].0, x)) by {
    has_concat(it.s[i].1, x);
    if g.s[i].1.has(x) { let y = choose|y: Lst<(Place, Loa)>| #[trigger] it.s[i].1.has(y) && y.has(x); assert(l.has((it.s[i].0, y))); let m = listed_m(tree, l, (it.s[i].0, y)); let u = (it.s[i].0, y); assert(u.1.has(x)); assert(mirrors(m, u)); assert(tree.has(m) && m.locations.has(x.1)); assert(selectable(tree, g.s[i].0, x)); }
    if selectable(tree, g.s[i].0, x) {
      let m = choose|m: MirSpannedPlace| #[trigger] tree.has(m) && m.span == g.s[i].0 && m.place == x.0 && m.locations.has(x.1);
      let u = listed_u(tree, l, m);
      assert(u == (it.s[i].0, u.1)); assert(u.1.has(x)); assert(l.has((it.s[i].0, u.1))); assert(it.s[i].1.has(u.1)); assert(it.s[i].1.concat().has(x)); assert(g.s[i].1.has(x));
    }
  }
  assert forall|m: MirSpannedPlace| #[trigger] tree.has(m) implies exists|i: int| 0 <= i < g.s.len() && #[trigger] g.s[i].0 == m.span by {
    let u = listed_u(tree, l, m);
    let i = choose|i: int| 0 <= i < it.s.len() && #[trigger] it.s[i].0 == u.0;
    assert(g.s[i].0 == m.span);
  }
  assert forall|i: int| 0 <= i < g.s.len() implies span_used(tree, #[trigger] g.s[i].0) by {
    reveal(span_used); assert(it.s[i].0 == g.s[i].0); assert(group_key(l, it.s[i].0));
    let x = gkey(l, it.s[i].0);
    let m = listed_m(tree, l, x);
  }
  assert forall|i: int, j: int| 0 <= i < j < g.s.len() implies #[trigger] g.s[i].0 != #[trigger] g.s[j].0 by { assert(g.s[i].0 == it.s[i].0); assert(g.s[j].0 == it.s[j].0); }
}
pub proof fn gkey(l: Lst<Group>, k: SpanData) -> (x: Group) requires group_key(l, k) ensures l.has(x), x.0 == k { reveal(group_key); choose|x: Group| #[trigger] l.has(x) && x.0 == k }
/// One range over all of `l`.
pub open spec fn joined(l: Lst<Span>) -> Opt<Span> { l.reduce(|a: Span, b: Span| a.to(b)) }
pub open spec fn param_spans(l: Lst<Param>) -> Lst<Span> { Lst { s: Seq::new(l.s.len(), |i: int| l.s[i].span) } }
pub proof fn fold_to(s: Seq<Span>, a: Span, f: spec_fn(Span, Span) -> Span) requires forall|x: Span, y: Span| #[trigger] f(x, y) == x.to(y)
  ensures fold(s, a, f) == fold(s, a, |x: Span, y: Span| x.to(y)) decreases s.len()
{ if s.len() > 0 { fold_to(s.drop_last(), a, f); } }
pub broadcast proof fn joined_is(l: Lst<Span>, f: spec_fn(Span, Span) -> Span) requires forall|x: Span, y: Span| #[trigger] f(x, y) == x.to(y) ensures #[trigger] l.reduce(f) == joined(l)
{ if l.s.len() > 0 { fold_to(l.s.subrange(1, l.s.len() as int), l.s[0], f); } }
pub broadcast proof fn param_spans_is(l: Lst<Param>, f: spec_fn(Param) -> Span) requires forall|p: Param| #[trigger] f(p) == p.span ensures #[trigger] l.map(f) == param_spans(l)
{ assert(l.map(f).s =~= param_spans(l).s); }
/// The body's range, the return type's, and one over all parameters.
pub open spec fn container_spans(sp: Spanner, b: HirBody) -> Lst<Span> {
  let two = Lst::new().push_upd(sp.body_span).push_upd(sp.ret_span);
  match joined(param_spans(b.params)) { Opt::Some(s) => two.push_upd(s), Opt::None => two }
}
pub open spec fn ranges_of(l: Lst<Span>, m: SourceMap, rs: Lst<CharRange>) -> bool {
  rs.len() == l.len() && forall|i: int| 0 <= i < l.s.len() ==> CharRange::from_span(#[trigger] l.s[i], m) == Res::<CharRange, Error>::Ok(rs.s[i])
}
@fn focus
file: crates/flowistry_ide/src/focus/mod.rs
params: tcx: TyCtxt, body_id: BodyId
ret: out: Res<FocusOutput, Error>
try: Res
types: PlaceInfo=PlaceEntry
ensures places: out is Ok ==> place_entries(tcx, body_id, out->Ok_0.place_info)
ensures containers: out is Ok ==> ranges_of(container_spans(Spanner::new(tcx, body_id, facts_of(tcx, body_id).body), tcx.hir_body(body_id)), tcx.sess.source_map(), out->Ok_0.containers)
nouses: lists, matrices, compute_flow_ax, DirectInfluence_build_ax, compute_dependency_spans_ax, DirectInfluence_lookup_ax
at grouped_spans: let g = V(grouped_spans); let tree = V(spanner).mir_span_tree;
  assert(exists|l: Lst<Group>, it: Lst<(SpanData, Lst<Lst<(Place, Loa)>>)>| #[trigger] grouped(l, it) && listed(tree, l) && flattened(it, g)) by {
    broadcast use { group_map, has_map, listed_map, flattened_map };
  }
  let (l, it) = choose|l: Lst<Group>, it: Lst<(SpanData, Lst<Lst<(Place, Loa)>>)>| #[trigger] grouped(l, it) && listed(tree, l) && flattened(it, g);
  grouping_by(tree, l, it, g);
at arg_span: broadcast use { joined_is, param_spans_is }; assert(V(arg_span) == joined(param_spans(V(hir_body).params)));
at targets: assert(targets_of(V(grouped_spans), V(targets)));
at direct_influence: assert forall|s: Span| #[trigger] V(direct_influence).has(s) implies direct_span(V(direct), V(spanner), V(body), V(targets), V(relevant), s) by {
    reveal(direct_span); broadcast use { DirectInfluence_lookup_ax, has_flat_map, has_filter };
  }
  assert forall|s: Span| #[trigger] direct_span(V(direct), V(spanner), V(body), V(targets), V(relevant), s) implies V(direct_influence).has(s) by {
    reveal(direct_span); broadcast use { DirectInfluence_lookup_ax, cand_flat, cand_filter };
    let (t, l) = choose|t: (Place, Loa), l: Loa| #[trigger] V(targets).has(t) && #[trigger] looked_up(V(direct), t.0, l) && V(spanner).location_to_spans(l, V(body), EnclosingHirSpans::None).has(s);
    assert(V(direct).lookup(t.0).has(l));
    assert(V(spanner).location_to_spans(l, V(body), EnclosingHirSpans::None).into_lst().has(s));
    assert(cand(l) && cand(s));
  }
loop 0
  begin: if !(CharRange::from_span(V(mir_span).span(), V(source_map)) is Ok) { assert(V(acc0).extend_upd(Opt::<PlaceEntry>::None).s =~= V(acc0).s); entries_step(V(direct), V(spanner), V(body), V(source_map), V(grouped_spans), OUT(relevant), $I - 1, V(acc0), V(acc0)); }
  before: broadcast use entries_none;
    assert(V(relevant).len() == V(grouped_spans).len()) by { broadcast use { compute_dependency_spans_ax, compute_dependencies_ax }; }
    assert(entries(V(direct), V(spanner), V(body), V(source_map), V(grouped_spans), V(relevant), 0, V(acc0)));
  inv: entries(V(direct), V(spanner), V(body), V(source_map), V(grouped_spans), V(relevant), $I, V(acc0)),
  end: let e = V(acc0).s.last(); let m = V(source_map);
    assert(V(acc0).s =~= BEG(acc0).extend_upd(Opt::Some(e)).s);
    assert(describes(V(direct), V(spanner), V(body), m, V(grouped_spans).s[$I - 1], OUT(relevant).s[$I - 1], e)) by {
      broadcast use { has_flat_map, has_flat_map2, flat_sub, cand_flat, has_opt, has_concat, cand_concat, has_filter_map2, has_opt_some, has_push, has_empty };
      assert forall|r: CharRange| #[trigger] e.slice.has(r) implies exists|s: Span| #[trigger] V(relevant).has(s) && shown(s, m, r) by { }
      assert forall|r: CharRange| (exists|s: Span| #[trigger] V(relevant).has(s) && shown(s, m, r)) implies #[trigger] e.slice.has(r) by {
        let s = choose|s: Span| #[trigger] V(relevant).has(s) && shown(s, m, r);
        let t = choose|t: Span| #[trigger] s.trim_leading_whitespace(m)->Some_0.has(t) && CharRange::from_span(t, m) == Res::<CharRange, Error>::Ok(r);
        assert(cand(t) && cand(r));
      }
      assert(forall|r: CharRange| #[trigger] e.ranges.has(r) ==> shown(V(mir_span).span(), m, r));
      assert forall|r: CharRange| shown(V(mir_span).span(), m, r) implies #[trigger] e.ranges.has(r) by {
        let t = choose|t: Span| #[trigger] V(mir_span).span().trim_leading_whitespace(m)->Some_0.has(t) && CharRange::from_span(t, m) == Res::<CharRange, Error>::Ok(r);
        assert(Lst::<Span>::new().push_upd(V(mir_span).span()).has(V(mir_span).span())); assert(cand(t) && cand(r));
      }
      assert(forall|r: CharRange| #[trigger] e.direct_influence.has(r) ==> exists|s: Span| #[trigger] direct_span(V(direct), V(spanner), V(body), V(targets), V(relevant), s) && shown(s, m, r));
      assert forall|r: CharRange| (exists|s: Span| #[trigger] direct_span(V(direct), V(spanner), V(body), V(targets), V(relevant), s) && shown(s, m, r)) implies #[trigger] e.direct_influence.has(r) by {
        let s = choose|s: Span| #[trigger] direct_span(V(direct), V(spanner), V(body), V(targets), V(relevant), s) && shown(s, m, r);
        let t = choose|t: Span| #[trigger] s.trim_leading_whitespace(m)->Some_0.has(t) && CharRange::from_span(t, m) == Res::<CharRange, Error>::Ok(r);
        assert(cand(s) && cand(t) && cand(r));
      }
    }
    entries_step(V(direct), V(spanner), V(body), V(source_map), V(grouped_spans), OUT(relevant), $I - 1, BEG(acc0), V(acc0));
  after: assert(entries(V(direct), V(spanner), V(body), V(source_map), V(grouped_spans), V(relevant), V(grouped_spans).s.len() as int, V(acc0)));
    assert(place_entries(tcx, body_id, V(acc0)));
@end
