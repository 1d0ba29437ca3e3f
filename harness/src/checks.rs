//! Oracles: compare the real code with the contracts, stage by stage, each stage judged
//! on its own inputs so that a difference is attributed to the property it breaks.

use std::{panic, sync::Mutex};

use flowistry::{
  extensions::{ContextMode, EVAL_MODE, EvalMode},
  infoflow::{
    self, Direction, FlowAnalysis, FlowDomain, FlowResults,
    mutation::{ModularMutationVisitor, Mutation, MutationStatus},
  },
  mir::placeinfo::PlaceInfo,
};
use fluid_let::fluid_set;
use indexical::ToIndex;
use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
use rustc_hir::{BodyId, def_id::DefId};
use rustc_middle::{
  mir::{visit::Visitor, *},
  ty::TyCtxt,
};
use rustc_mir_dataflow::Analysis;
use rustc_utils::{
  BodyExt, OperandExt, PlaceExt, SpanExt,
  mir::{
    borrowck_facts::get_body_with_borrowck_facts, location_or_arg::LocationOrArg,
  },
  source_map::{
    find_bodies::find_bodies,
    spanner::{EnclosingHirSpans, Spanner},
  },
};

use crate::{CUR, Rng, evaluated, finding, parse_mode, refimpl::*};

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn program(file: &str, props: &[&str], modes: &str, seed: u64, effort: usize) -> bool {
  let want = |p: &str| props.contains(&p);
  let text = std::fs::read_to_string(file).unwrap_or_default();
  let mut ok = true;
  let body_props = props
    .iter()
    .copied()
    .filter(|p| !["C14", "C15", "C16"].contains(p))
    .collect::<Vec<_>>();
  if !body_props.is_empty() {
    ok &= crate::with_program(file, &[], |tcx| {
      for (_, body_id) in find_bodies(tcx) {
        let name = tcx
          .def_path_str(tcx.hir_body_owner_def_id(body_id).to_def_id());
        for mode_name in modes.split(',') {
          {
            let mut c = CUR.lock().unwrap();
            c.1 = name.clone();
            c.2 = mode_name.to_string();
          }
          let mode = parse_mode(mode_name);
          let r = panic::catch_unwind(panic::AssertUnwindSafe(|| {
            fluid_set!(EVAL_MODE, mode);
            body(tcx, body_id, mode, &body_props, seed, effort)
          }));
          if r.is_err() {
            let msg = LAST_PANIC.lock().unwrap().clone();
            finding(props, "panic", msg);
          }
        }
      }
    });
  }
  if want("C14") && text.contains("flowistry_ifc_traits") {
    ok &= crate::ifc::check(file);
  }
  if want("C15") {
    ok &= crate::focus::check(file, modes);
  }
  if want("C16") {
    crate::modes::check(file, seed);
  }
  ok
}

pub fn to_st<'tcx>(d: &FlowDomain<'tcx>) -> St<'tcx> {
  let mut st = St::default();
  for (p, row) in d.rows() {
    let deps = row.iter().copied().collect::<Deps>();
    if !deps.is_empty() {
      st.insert(*p, deps);
    }
  }
  st
}

pub fn from_st<'tcx>(pi: &PlaceInfo<'_, 'tcx>, st: &St<'tcx>) -> FlowDomain<'tcx> {
  let mut d = FlowDomain::new(pi.location_domain());
  for (p, deps) in st {
    for x in deps {
      d.insert(*p, *x);
    }
  }
  d
}

/// Every place an analysis of this body could plausibly ask about.
pub fn universe<'tcx>(r: &Ref<'_, 'tcx>) -> Vec<Place<'tcx>> {
  struct C<'tcx>(Vec<Place<'tcx>>);
  impl<'tcx> Visitor<'tcx> for C<'tcx> {
    fn visit_place(&mut self, p: &Place<'tcx>, _: visit::PlaceContext, _: Location) {
      self.0.push(*p);
    }
  }
  let mut c = C(vec![]);
  c.visit_body(r.body);
  let mut all = c.0;
  for l in r.body.local_decls.indices() {
    let p = Place::from_local(l, r.tcx);
    all.extend(p.interior_places(r.tcx, r.body, r.def_id));
    all.extend(p.interior_paths(r.tcx, r.body, r.def_id));
    for (_, ps) in p.interior_pointers(r.tcx, r.body, r.def_id) {
      for (q, _) in ps {
        all.push(q);
        all.push(r.deref(q));
      }
    }
  }
  for l in r.loans.values() {
    all.extend(l.iter().map(|(p, _)| *p));
  }
  let mut seen = HashSet::default();
  all.retain(|p| seen.insert(*p));
  all.sort_by_key(|p| (p.local, p.projection.len(), format!("{p:?}")));
  all
}

fn diff<'tcx>(real: &HashSet<Place<'tcx>>, want: &HashSet<Place<'tcx>>) -> Option<String> {
  if real == want {
    return None;
  }
  let miss = want.difference(real).collect::<Vec<_>>();
  let extra = real.difference(want).collect::<Vec<_>>();
  Some(format!("missing={miss:?} extra={extra:?}"))
}

fn set<'tcx>(s: &HashSet<Place<'tcx>>) -> HashSet<Place<'tcx>> {
  s.iter().copied().collect()
}

fn body<'tcx>(
  tcx: TyCtxt<'tcx>,
  body_id: BodyId,
  mode: EvalMode,
  props: &[&str],
  seed: u64,
  effort: usize,
) {
  let want = |p: &str| props.contains(&p);
  let any = |ps: &[&str]| ps.iter().any(|p| want(p));
  let def_id = tcx.hir_body_owner_def_id(body_id).to_def_id();
  let bwf = get_body_with_borrowck_facts(tcx, def_id.expect_local());
  let b = &bwf.body;
  if b.basic_blocks.len() > 400 {
    return;
  }
  let r = Ref::build(tcx, def_id, bwf, mode);
  let mut rng = Rng(seed ^ b.basic_blocks.len() as u64);
  let sig_mode = EvalMode {
    context_mode: ContextMode::SigOnly,
    ..mode
  };
  let recursing = mode.context_mode == ContextMode::Recurse;
  let uni = universe(&r);

  if any(&["C08", "C09", "C12"]) {
    places(&r, bwf, &uni, props);
  }
  if want("C17") {
    history(tcx, def_id, bwf, &uni, &mut rng);
  }
  if any(&["C01", "C03", "C04", "C05", "C12"]) {
    fluid_set!(EVAL_MODE, sig_mode);
    mutations(&r, bwf, props);
  }
  if any(&["C07", "C12"]) {
    let fa = FlowAnalysis::new(tcx, def_id, b, PlaceInfo::build(tcx, def_id, bwf));
    let mut d = fa.bottom_value(b);
    let empty = to_st(&d).is_empty();
    fa.initialize_start_block(b, &mut d);
    let got = to_st(&d);
    let exp = r.initial();
    evaluated("C07", !exp.is_empty());
    evaluated("C12", !exp.is_empty());
    if got != exp || !empty {
      finding(&["C07", "C12"], "initial-state", st_diff(&got, &exp));
    }
  }
  if !any(&[
    "C01", "C02", "C03", "C05", "C06", "C10", "C11", "C12", "C13", "C17", "C18",
  ]) {
    return;
  }
  let results = infoflow::compute_flow(tcx, body_id, bwf);
  let locs = reachable_locs(b);
  if std::env::var("FLOWCHECK_DUMP").is_ok() {
    for (bb, d) in b.basic_blocks.iter_enumerated() {
      for (i, st) in d.statements.iter().enumerate() {
        println!("MIR {bb:?}[{i}] {st:?}");
      }
      println!("MIR {bb:?}[{}] {:?}", d.statements.len(), d.terminator().kind);
    }
    for l in &locs {
      println!("DUMP {:?} {l:?} {:?}", CUR.lock().unwrap(), to_st(results.state_at(*l)));
    }
  }
  let states: HashMap<Location, St<'tcx>> = locs
    .iter()
    .map(|l| (*l, to_st(results.state_at(*l))))
    .collect();

  if any(&["C01", "C02", "C03", "C05", "C12"]) {
    fluid_set!(EVAL_MODE, sig_mode);
    transfer(&r, bwf, &results, &states, &uni, &locs, &mut rng, props, effort);
  }
  // (under whole-program mode the instruction effect also depends on the stack of bodies
  // being analysed, which only exists inside compute_flow: judged by C13 instead)
  if want("C06") && !recursing {
    let mut fa = FlowAnalysis::new(tcx, def_id, b, PlaceInfo::build(tcx, def_id, bwf));
    fixpoint(&mut fa, b, &states, &mut rng, effort, body_id);
  }
  if want("C12") && mode == EvalMode::default() {
    // no explicit mode behaves like the default mode
    let again = std::thread::scope(|_| {
      EVAL_MODE.set(EvalMode::default(), || {
        let x = infoflow::compute_flow(tcx, body_id, bwf);
        locs
          .iter()
          .map(|l| (*l, to_st(x.state_at(*l))))
          .collect::<HashMap<_, _>>()
      })
    });
    evaluated("C12", true);
    if again != states {
      finding(&["C12"], "default-mode", "explicit default differs".into());
    }
  }
  if want("C13") && recursing {
    let mut stack = vec![];
    let exp = ref_flow(tcx, body_id, bwf, mode, &mut stack, 0);
    let mut nt = false;
    for l in &locs {
      nt |= recursion_target(&r, *l, &[body_id]).is_some();
    }
    evaluated("C13", nt);
    let differs = |exp: &RefFlow<'tcx, 'tcx>, l: &Location| {
      let e = exp.states.get(l).cloned().unwrap_or_default();
      let (got, e) = (readable(&r, &states[l], &e), readable(&r, &e, &states[l]));
      (got != e).then_some((got, e))
    };
    if locs.iter().any(|l| differs(&exp, l).is_some()) {
      // Simultaneous possible mutations come in no particular order: only what no order
      // explains is a difference.
      let others = (1 .. 12)
        .map(|o| ref_flow(tcx, body_id, bwf, mode, &mut vec![], o))
        .collect::<Vec<_>>();
      for l in &locs {
        let Some((got, e)) = differs(&exp, l) else {
          continue;
        };
        let mut may = e.clone();
        let mut must = e.clone();
        for o in &others {
          let s = o.states.get(l).cloned().unwrap_or_default();
          let mut keys = states[l].clone();
          join(&mut keys, exp.states.get(l).unwrap_or(&St::default()));
          let x = readable(&r, &s, &keys);
          must.retain(|p, d| {
            let y = x.get(p).cloned().unwrap_or_default();
            d.retain(|v| y.contains(v));
            !d.is_empty()
          });
          join(&mut may, &x);
        }
        let explained = got
          .iter()
          .all(|(p, d)| may.get(p).is_some_and(|m| d.is_subset(m)))
          && must
            .iter()
            .all(|(p, d)| got.get(p).is_some_and(|g| d.is_subset(g)));
        if !explained {
          finding(
            &["C13"],
            "recursive-state",
            format!("at {l:?}: {}", st_diff(&got, &e)),
          );
          break;
        }
      }
    }
    // the stack of bodies under analysis is balanced: a second run agrees with the first
    let x = infoflow::compute_flow(tcx, body_id, bwf);
    for l in &locs {
      if to_st(x.state_at(*l)) != states[l] {
        finding(&["C13"], "recursive-rerun", format!("at {l:?}"));
        break;
      }
    }
  }
  if want("C17") {
    let x = infoflow::compute_flow(tcx, body_id, bwf);
    let mut order = uni.clone();
    shuffle(&mut order, &mut rng);
    for p in order.iter().take(60) {
      let _ = x.analysis.deps_for(x.state_at(Location::START), *p);
    }
    evaluated("C17", true);
    for l in &locs {
      if to_st(x.state_at(*l)) != states[l] {
        finding(&["C17"], "rerun-differs", format!("at {l:?}"));
        break;
      }
    }
    let last = *locs.last().unwrap();
    for p in order.iter().take(60) {
      let a = x
        .analysis
        .deps_for(x.state_at(last), *p)
        .iter()
        .copied()
        .collect::<Deps>();
      let c = results
        .analysis
        .deps_for(results.state_at(last), *p)
        .iter()
        .copied()
        .collect::<Deps>();
      if a != c {
        finding(&["C17"], "deps-history", format!("{p:?} at {last:?}: {a:?} vs {c:?}"));
        break;
      }
    }
  }
  if any(&["C10", "C11", "C18"]) {
    slices(&r, tcx, body_id, &results, &uni, &mut rng, props, effort);
  }
}

/// What can be read from a state: each place together with everything overlapping it.
fn readable<'tcx>(r: &Ref<'_, 'tcx>, st: &St<'tcx>, other: &St<'tcx>) -> St<'tcx> {
  let mut out = St::default();
  for p in st.keys().chain(other.keys()) {
    let mut d = Deps::default();
    for q in r.conflicts(*p) {
      if let Some(x) = st.get(&r.normalize(q)) {
        d.extend(x.iter().copied());
      }
    }
    if !d.is_empty() {
      out.insert(*p, d);
    }
  }
  out
}

fn shuffle<T>(v: &mut [T], rng: &mut Rng) {
  for i in (1 .. v.len()).rev() {
    v.swap(i, rng.below(i + 1));
  }
}

pub fn st_diff<'tcx>(got: &St<'tcx>, exp: &St<'tcx>) -> String {
  let mut keys = got.keys().chain(exp.keys()).copied().collect::<Vec<_>>();
  keys.sort_by_key(|p| format!("{p:?}"));
  keys.dedup();
  let e = Deps::default();
  let mut out = vec![];
  for k in keys {
    let (g, x) = (got.get(&k).unwrap_or(&e), exp.get(&k).unwrap_or(&e));
    if g != x {
      let miss = x.difference(g).collect::<Vec<_>>();
      let extra = g.difference(x).collect::<Vec<_>>();
      out.push(format!("{k:?}: missing={miss:?} extra={extra:?}"));
    }
  }
  out.truncate(6);
  out.join("; ")
}

// -------------------------------------------------------------------- C08, C09

fn places<'tcx>(
  r: &Ref<'_, 'tcx>,
  bwf: &BodyWithBorrowckFacts<'tcx>,
  uni: &[Place<'tcx>],
  props: &[&str],
) {
  let pi = PlaceInfo::build(r.tcx, r.def_id, bwf);
  let tag = |base: &[&'static str]| {
    base
      .iter()
      .copied()
      .filter(|p| props.contains(p))
      .collect::<Vec<_>>()
  };
  for p in uni {
    let norm = r.normalize(*p);
    if pi.normalize(*p) != norm {
      finding(&tag(&["C09"]), "normalize", format!("{p:?}"));
    }
    let exp = r.aliases(*p);
    evaluated("C08", exp.len() > 1);
    evaluated("C09", exp.len() > 1);
    evaluated("C12", exp.len() > 1);
    if let Some(d) = diff(&set(pi.aliases(*p)), &exp) {
      finding(&tag(&["C08", "C09", "C12"]), "aliases", format!("{p:?}: {d}"));
    }
    let exp = r.children(*p);
    evaluated("C09", exp.len() > 1);
    if let Some(d) = diff(&set(&pi.children(*p)), &exp) {
      finding(&tag(&["C09"]), "children", format!("{p:?}: {d}"));
    }
    let exp = r.conflicts(*p);
    evaluated("C09", exp.len() > 1);
    if let Some(d) = diff(&set(pi.conflicts(*p)), &exp) {
      finding(&tag(&["C09"]), "conflicts", format!("{p:?}: {d}"));
    }
    for m in [Mutability::Not, Mutability::Mut] {
      let exp = r.reachable(*p, m);
      evaluated("C08", exp.len() > 1);
      evaluated("C09", exp.len() > 1);
      evaluated("C12", exp.len() > 1);
      if let Some(d) = diff(&set(pi.reachable_values(*p, m)), &exp) {
        finding(
          &tag(&["C08", "C09", "C12"]),
          "reachable",
          format!("{p:?} {m:?}: {d}"),
        );
      }
    }
  }
  if props.contains(&"C12") && r.mode != EvalMode::default() {
    let base = Ref::build(r.tcx, r.def_id, bwf, EvalMode::default());
    for p in uni {
      for q in base.aliases(*p) {
        if !r.aliases(*p).contains(&q) {
          finding(&["C12"], "not-wider", format!("{p:?} loses alias {q:?}"));
        }
      }
    }
  }
}

// -------------------------------------------------------------------- C17

fn history<'tcx>(
  tcx: TyCtxt<'tcx>,
  def_id: DefId,
  bwf: &BodyWithBorrowckFacts<'tcx>,
  uni: &[Place<'tcx>],
  rng: &mut Rng,
) {
  let a = PlaceInfo::build(tcx, def_id, bwf);
  let b = PlaceInfo::build(tcx, def_id, bwf);
  let mut order = uni.to_vec();
  shuffle(&mut order, rng);
  for p in &order {
    match rng.below(4) {
      0 => drop(b.reachable_values(*p, Mutability::Mut)),
      1 => drop(b.reachable_values(*p, Mutability::Not)),
      2 => drop(b.conflicts(*p)),
      _ => drop(b.aliases(*p)),
    }
  }
  for p in uni {
    for round in 0 .. 2 {
      let qs: [(&str, HashSet<Place<'tcx>>, HashSet<Place<'tcx>>); 4] = [
        ("aliases", set(a.aliases(*p)), set(b.aliases(*p))),
        ("conflicts", set(a.conflicts(*p)), set(b.conflicts(*p))),
        (
          "reachable-mut",
          set(a.reachable_values(*p, Mutability::Mut)),
          set(b.reachable_values(*p, Mutability::Mut)),
        ),
        (
          "reachable",
          set(a.reachable_values(*p, Mutability::Not)),
          set(b.reachable_values(*p, Mutability::Not)),
        ),
      ];
      for (what, x, y) in qs {
        evaluated("C17", x.len() > 1);
        if let Some(d) = diff(&x, &y) {
          finding(&["C17"], "history", format!("{what} of {p:?} (round {round}): {d}"));
        }
      }
    }
    // and against an object that was asked nothing else
    if rng.below(8) == 0 {
      let c = PlaceInfo::build(tcx, def_id, bwf);
      let fresh = set(c.aliases(*p));
      evaluated("C17", fresh.len() > 1);
      if let Some(d) = diff(&set(b.aliases(*p)), &fresh) {
        finding(&["C17"], "history", format!("aliases of {p:?} vs fresh: {d}"));
      }
      for m in [Mutability::Mut, Mutability::Not] {
        let c = PlaceInfo::build(tcx, def_id, bwf);
        let fresh = set(c.reachable_values(*p, m));
        if let Some(d) = diff(&set(b.reachable_values(*p, m)), &fresh) {
          finding(&["C17"], "history", format!("reachable {m:?} of {p:?} vs fresh: {d}"));
        }
      }
    }
  }
}

// -------------------------------------------------------------------- C01, C03, C04, C05

fn real_mutations<'tcx>(pi: &PlaceInfo<'_, 'tcx>, b: &Body<'tcx>, l: Location) -> Vec<RMut<'tcx>> {
  let mut out = vec![];
  ModularMutationVisitor::new(pi, |loc, ms: Vec<Mutation<'tcx>>| {
    if loc != l {
      finding(&["C01", "C04"], "mutation-location", format!("{loc:?} for {l:?}"));
    }
    for m in ms {
      out.push(RMut {
        mutated: m.mutated,
        inputs: m.inputs,
        definite: matches!(m.status, MutationStatus::Definitely),
      });
    }
  })
  .visit_location(b, l);
  out
}

fn mutations<'tcx>(
  r: &Ref<'_, 'tcx>,
  bwf: &BodyWithBorrowckFacts<'tcx>,
  props: &[&str],
) {
  let pi = PlaceInfo::build(r.tcx, r.def_id, bwf);
  let b = r.body;
  for l in b.all_locations() {
    let exp = r.mutations(l);
    let got = real_mutations(&pi, b, l);
    let call = b.stmt_at(l).is_right();
    let key = |m: &RMut<'tcx>| (m.mutated, m.definite);
    let inputs = |v: &[RMut<'tcx>]| {
      let mut h: HashMap<Place<'tcx>, (bool, bool, HashSet<Place<'tcx>>)> =
        HashMap::default();
      for m in v {
        let (p, d) = key(m);
        let e = h.entry(p).or_default();
        e.0 |= d;
        e.1 |= !d;
        e.2.extend(m.inputs.iter().copied());
      }
      h
    };
    let (ge, ee) = (inputs(&got), inputs(&exp));
    let nt = !exp.is_empty();
    for p in ["C01", "C03", "C05"] {
      evaluated(p, nt);
    }
    if call {
      evaluated("C04", nt);
      evaluated("C12", nt);
    }
    let say = |ps: &[&'static str], kind: &str, d: String| {
      let ps = ps
        .iter()
        .copied()
        .filter(|p| props.contains(p))
        .collect::<Vec<_>>();
      if !ps.is_empty() {
        finding(&ps, kind, format!("at {l:?}: {d}"));
      }
    };
    let flow = if call { ["C04", "C12"] } else { ["C01", "C12"] };
    for (p, (d, w, i)) in &ee {
      match ge.get(p) {
        None => say(&flow, "missing-mutation", format!("{p:?} <- {i:?}")),
        Some((gd, gw, gi)) => {
          let miss = i.difference(gi).collect::<Vec<_>>();
          let extra = gi.difference(i).collect::<Vec<_>>();
          if !miss.is_empty() {
            say(&flow, "missing-input", format!("{p:?}: {miss:?}"));
          }
          if !extra.is_empty() {
            say(
              if call { &["C04", "C05", "C12"] } else { &["C05", "C12"] },
              "extra-input",
              format!("{p:?}: {extra:?}"),
            );
          }
          if (*gd, *gw) != (*d, *w) {
            say(
              if call { &["C03", "C04"] } else { &["C03"] },
              "status",
              format!("{p:?}: definite {gd} possible {gw}, expected {d} {w}"),
            );
          }
        }
      }
    }
    for (p, (_, _, i)) in &ge {
      if !ee.contains_key(p) {
        say(
          if call { &["C04", "C05", "C12"] } else { &["C05", "C12"] },
          "extra-mutation",
          format!("{p:?} <- {i:?}"),
        );
      }
    }
  }
}

// -------------------------------------------------------------------- C01, C02, C03, C05

#[allow(clippy::too_many_arguments)]
fn transfer<'tcx>(
  r: &Ref<'_, 'tcx>,
  bwf: &'tcx BodyWithBorrowckFacts<'tcx>,
  results: &FlowResults<'_, 'tcx>,
  states: &HashMap<Location, St<'tcx>>,
  uni: &[Place<'tcx>],
  locs: &[Location],
  rng: &mut Rng,
  props: &[&str],
  effort: usize,
) {
  let b = &bwf.body;
  let _ = results;
  let pi = PlaceInfo::build(r.tcx, r.def_id, bwf);
  let mut fa =
    FlowAnalysis::new(r.tcx, r.def_id, b, PlaceInfo::build(r.tcx, r.def_id, bwf));
  let all_locs = b
    .all_locations()
    .map(LocationOrArg::Location)
    .chain(b.args_iter().map(LocationOrArg::Arg))
    .collect::<Vec<_>>();
  for l in locs {
    let real = real_mutations(&pi, b, *l);
    let mut exp_m = r.mutations(*l);
    // simultaneous mutations of overlapping places are applied in the order of a hash
    // set, on which the raw rows (not what can be read from them) may depend
    if sorted(real.clone()) == sorted(exp_m.clone()) {
      exp_m = real.clone();
    }
    let mut pre_states: Vec<St<'tcx>> = vec![];
    // join of predecessors in the real solution
    let mut pre = St::default();
    for (k, s) in states {
      if successors(b, *k).contains(l) {
        join(&mut pre, s);
      }
    }
    if *l == Location::START {
      join(&mut pre, &r.initial());
    }
    pre_states.push(pre.clone());
    for _ in 0 .. effort {
      // an arbitrary state: every place may carry a few arbitrary dependencies
      let mut st = St::default();
      for p in uni.iter() {
        if uni.len() < 120 || rng.below(uni.len()) < 120 {
          let n = rng.below(3);
          for _ in 0 .. n {
            st.entry(r.normalize(*p))
              .or_default()
              .insert(all_locs[rng.below(all_locs.len())]);
          }
        }
      }
      st.retain(|_, d| !d.is_empty());
      pre_states.push(st);
    }
    for pre in pre_states {
      let mut d = from_st(&pi, &pre);
      match b.stmt_at(*l) {
        either::Either::Left(s) => fa.apply_primary_statement_effect(&mut d, s, *l),
        either::Either::Right(t) => {
          fa.apply_primary_terminator_effect(&mut d, t, *l);
        }
      }
      let got = to_st(&d);
      // judged on the mutations the contract gives ...
      let mut exp = pre.clone();
      r.apply(&mut exp, &exp_m, *l, true, true);
      for p in ["C01", "C02", "C03", "C05"] {
        let nt = match p {
          "C02" => r.ctrl.dependent_on(l.block).is_some_and(|s| s.iter().next().is_some()),
          _ => true,
        };
        evaluated(p, !exp_m.is_empty() && nt);
      }
      evaluated("C12", !exp_m.is_empty());
      if got == exp {
        continue;
      }
      // ... and attributed using variants of the contract
      let mut no_ctrl = pre.clone();
      r.apply(&mut no_ctrl, &exp_m, *l, false, true);
      let mut weak = pre.clone();
      r.apply(&mut weak, &exp_m, *l, true, false);
      let e = Deps::default();
      let mut tags: Vec<&'static str> = vec![];
      let mut keys = got.keys().chain(exp.keys()).copied().collect::<Vec<_>>();
      keys.sort_by_key(|p| format!("{p:?}"));
      keys.dedup();
      for k in &keys {
        let (g, x) = (got.get(k).unwrap_or(&e), exp.get(k).unwrap_or(&e));
        let (nc, pr) = (no_ctrl.get(k).unwrap_or(&e), pre.get(k).unwrap_or(&e));
        for dep in x.difference(g) {
          tags.push("C12");
          if !nc.contains(dep) {
            tags.push("C02");
          } else if pr.contains(dep) {
            tags.push("C03");
            // a kept dependency may equally be one the write should have re-added
            if exp_m.iter().any(|m| r.aliases(m.mutated).iter().any(|a| r.normalize(*a) == *k)) {
              tags.push("C01");
            }
          } else {
            tags.push("C01");
          }
        }
        for dep in g.difference(x) {
          tags.push("C12");
          if pr.contains(dep) && weak.get(k).is_some_and(|w| w.contains(dep)) {
            tags.push("C03");
          } else {
            tags.push("C05");
          }
        }
      }
      tags.sort();
      tags.dedup();
      tags.retain(|t| props.contains(t));
      if !tags.is_empty() {
        finding(
          &tags,
          "transfer",
          format!(
            "at {l:?}: {} (mutations {:?})",
            st_diff(&got, &exp),
            real.iter().map(|m| m.mutated).collect::<Vec<_>>()
          ),
        );
        break;
      }
    }
  }
}

fn sorted<'tcx>(mut v: Vec<RMut<'tcx>>) -> Vec<RMut<'tcx>> {
  v.sort_by_key(|m| format!("{m:?}"));
  v
}

// -------------------------------------------------------------------- C06

fn fixpoint<'tcx>(
  fa: &mut FlowAnalysis<'_, 'tcx>,
  b: &Body<'tcx>,
  states: &HashMap<Location, St<'tcx>>,
  rng: &mut Rng,
  effort: usize,
  _body_id: BodyId,
) {
  let pi_dom = fa.location_domain().clone();
  let mut d = FlowDomain::new(&pi_dom);
  fa.initialize_start_block(b, &mut d);
  let init = to_st(&d);
  for round in 0 .. 1 + effort {
    let seed = if round == 0 { 0 } else { rng.next() | 1 };
    let exp = least_fixpoint(
      b,
      init.clone(),
      |st, l| {
        let mut d = FlowDomain::new(&pi_dom);
        for (p, deps) in st.iter() {
          for x in deps {
            d.insert(*p, *x);
          }
        }
        match b.stmt_at(l) {
          either::Either::Left(s) => fa.apply_primary_statement_effect(&mut d, s, l),
          either::Either::Right(t) => {
            fa.apply_primary_terminator_effect(&mut d, t, l);
          }
        }
        *st = to_st(&d);
      },
      seed,
    );
    evaluated("C06", b.basic_blocks.len() > 1);
    for (l, s) in states {
      let e = exp.get(l).cloned().unwrap_or_default();
      if *s != e {
        finding(&["C06"], "fixpoint", format!("at {l:?}: {}", st_diff(s, &e)));
        return;
      }
    }
  }
}

// -------------------------------------------------------------------- C10, C11, C18

fn row<'s, 'tcx>(st: &'s St<'tcx>, p: Place<'tcx>, e: &'s Deps) -> &'s Deps {
  st.get(&p).unwrap_or(e)
}

pub fn forward_ref<'tcx>(
  r: &Ref<'_, 'tcx>,
  state: &dyn Fn(Location) -> St<'tcx>,
  group: &[(Place<'tcx>, LocationOrArg)],
) -> Deps {
  let e = Deps::default();
  let b = r.body;
  let mut needs: Vec<Deps> = vec![];
  for (p, at) in group {
    let st = state(match at {
      LocationOrArg::Location(l) => *l,
      LocationOrArg::Arg(_) => Location::START,
    });
    for q in r.reachable(*p, Mutability::Not) {
      let mut common: Option<Deps> = None;
      for c in r.children(r.normalize(q)) {
        let d = row(&st, c, &e);
        common = Some(match common {
          None => d.clone(),
          Some(x) => x.intersection(d).copied().collect(),
        });
      }
      let mut need = common.unwrap();
      need.insert(*at);
      needs.push(need);
    }
  }
  let mut out = Deps::default();
  for a in b.args_iter() {
    let a = LocationOrArg::Arg(a);
    if needs.iter().any(|n| n.len() == 1 && n.contains(&a)) {
      out.insert(a);
    }
  }
  for l in b.all_locations() {
    let written: Vec<Place<'tcx>> = match b.stmt_at(l) {
      either::Either::Right(Terminator {
        kind: TerminatorKind::SwitchInt { discr, .. },
        ..
      }) => discr.as_place().into_iter().collect(),
      _ => r.mutations(l).into_iter().map(|m| m.mutated).collect(),
    };
    if written.is_empty() {
      continue;
    }
    let st = state(l);
    if written.iter().any(|w| {
      let d = row(&st, r.normalize(*w), &e);
      needs.iter().any(|n| n.is_subset(d))
    }) {
      out.insert(LocationOrArg::Location(l));
    }
  }
  out
}

pub fn backward_ref<'tcx>(
  r: &Ref<'_, 'tcx>,
  state: &dyn Fn(Location) -> St<'tcx>,
  group: &[(Place<'tcx>, LocationOrArg)],
) -> Deps {
  let mut out = Deps::default();
  for (p, at) in group {
    match at {
      LocationOrArg::Arg(_) => {
        out.insert(*at);
      }
      LocationOrArg::Location(l) => out.extend(r.deps_for(&state(*l), *p)),
    }
  }
  out
}

#[allow(clippy::too_many_arguments)]
fn slices<'tcx>(
  r: &Ref<'_, 'tcx>,
  tcx: TyCtxt<'tcx>,
  body_id: BodyId,
  results: &FlowResults<'_, 'tcx>,
  uni: &[Place<'tcx>],
  rng: &mut Rng,
  props: &[&str],
  effort: usize,
) {
  let b = r.body;
  let state = |l: Location| to_st(results.state_at(l));
  let locs = b.all_locations().collect::<Vec<_>>();
  let args = b.args_iter().collect::<Vec<_>>();
  // natural targets: what each location writes, and each argument
  let mut natural: Vec<(Place<'tcx>, LocationOrArg)> = vec![];
  for l in &locs {
    for m in r.mutations(*l) {
      natural.push((m.mutated, LocationOrArg::Location(*l)));
    }
  }
  for a in &args {
    natural.push((Place::from_local(*a, tcx), LocationOrArg::Arg(*a)));
  }
  let mut groups: Vec<Vec<(Place<'tcx>, LocationOrArg)>> = vec![];
  shuffle(&mut natural, rng);
  for t in natural.iter().take(10 * effort) {
    groups.push(vec![*t]);
  }
  if !natural.is_empty() {
    for _ in 0 .. 3 * effort {
      let n = rng.below(4);
      groups.push((0 .. n).map(|_| natural[rng.below(natural.len())]).collect());
    }
  }
  for _ in 0 .. 3 * effort {
    groups.push(
      (0 .. 1 + rng.below(2))
        .map(|_| {
          let p = uni[rng.below(uni.len())];
          (p, LocationOrArg::Location(locs[rng.below(locs.len())]))
        })
        .collect(),
    );
  }
  groups.push(vec![]);
  shuffle(&mut groups, rng);

  let exp_f = groups
    .iter()
    .map(|g| forward_ref(r, &state, g))
    .collect::<Vec<_>>();
  let exp_b = groups
    .iter()
    .map(|g| backward_ref(r, &state, g))
    .collect::<Vec<_>>();
  let exp_both = exp_f
    .iter()
    .zip(&exp_b)
    .map(|(f, b)| f.union(b).copied().collect::<Deps>())
    .collect::<Vec<_>>();
  let spanner = props.contains(&"C18").then(|| Spanner::new(tcx, body_id, b));
  for (dir, exp, prop) in [
    (Direction::Forward, &exp_f, "C11"),
    (Direction::Backward, &exp_b, "C10"),
    (Direction::Both, &exp_both, "C11"),
  ] {
    let got = infoflow::compute_dependencies(results, groups.clone(), dir)
      .into_iter()
      .map(|s| s.iter().copied().collect::<Deps>())
      .collect::<Vec<_>>();
    if got.len() != exp.len() {
      finding(&[prop], "groups", format!("{} vs {}", got.len(), exp.len()));
    }
    for (i, (g, e)) in got.iter().zip(exp).enumerate() {
      evaluated(prop, !e.is_empty());
      if g != e && props.contains(&prop) {
        finding(
          &[prop],
          "slice",
          format!(
            "{dir:?} of {:?}: missing={:?} extra={:?}",
            groups[i],
            e.difference(g).collect::<Vec<_>>(),
            g.difference(e).collect::<Vec<_>>()
          ),
        );
      }
    }
    if let Some(spanner) = &spanner {
      let spans =
        infoflow::compute_dependency_spans(results, groups.clone(), dir, spanner);
      if spans.len() != got.len() {
        finding(&["C18"], "groups", format!("{} vs {}", spans.len(), got.len()));
      }
      for (i, (s, deps)) in spans.iter().zip(&got).enumerate() {
        let raw = deps
          .iter()
          .flat_map(|l| spanner.location_to_spans(*l, b, EnclosingHirSpans::OuterOnly))
          .collect::<Vec<_>>();
        let want = rustc_span::Span::merge_overlaps(raw);
        let norm = |v: &[rustc_span::Span]| {
          let mut v = v
            .iter()
            .map(|s| (s.lo().0, s.hi().0))
            .collect::<Vec<_>>();
          v.sort();
          v
        };
        evaluated("C18", !want.is_empty());
        if norm(s) != norm(&want) {
          finding(
            &["C18"],
            "spans",
            format!("{dir:?} of {:?}: {:?} expected {:?}", groups[i], norm(s), norm(&want)),
          );
        }
      }
    }
  }
  let _ = |l: Location| l.to_index(r_domain(results));
}

fn r_domain<'a>(
  results: &'a FlowResults<'_, '_>,
) -> &'a rustc_utils::mir::location_or_arg::index::LocationOrArgDomain {
  results.analysis.location_domain()
}

/// Functions whose name says what their result must (not) depend on, whatever the contracts
/// say: `dep_*` on every argument, `indep_*` on all but the last, not on the last.
pub fn end_to_end(file: &str) -> bool {
  crate::with_program(file, &[], |tcx| {
    fluid_set!(EVAL_MODE, EvalMode::default());
    for (_, body_id) in find_bodies(tcx) {
      let def_id = tcx.hir_body_owner_def_id(body_id);
      let name = tcx.def_path_str(def_id.to_def_id());
      let (dep, indep) = (name.starts_with("dep_"), name.starts_with("indep_"));
      if !dep && !indep {
        continue;
      }
      CUR.lock().unwrap().1 = name.clone();
      let bwf = get_body_with_borrowck_facts(tcx, def_id);
      let results = infoflow::compute_flow(tcx, body_id, bwf);
      let mut deps = Deps::default();
      for l in bwf.body.all_returns() {
        let p = Place::from_local(RETURN_PLACE, tcx);
        deps.extend(results.analysis.deps_for(results.state_at(l), p).iter().copied());
      }
      let args = bwf.body.args_iter().collect::<Vec<_>>();
      evaluated("C01", true);
      evaluated("C03", true);
      for (i, a) in args.iter().enumerate() {
        let has = deps.contains(&LocationOrArg::Arg(*a));
        let last = i + 1 == args.len();
        if !has && (dep || !last) {
          let props: &[&str] = if name.contains("element") { &["C01", "C03"] } else { &["C01"] };
          finding(props, "lost-argument", format!("the result of {name} misses {a:?}"));
        }
        if has && indep && last {
          finding(&["C03"], "stale-argument", format!("the result of {name} has {a:?}"));
        }
      }
    }
  })
}
