//! C15: the focus query, run through the plugin in a subprocess, against an expectation
//! computed here from the single-target slicing API and the reference mutations.
use std::{collections::BTreeMap, env, process::Command};

use flowistry::infoflow::{self, Direction};
use fluid_let::fluid_set;
use rustc_hir::BodyId;
use rustc_middle::{mir::*, ty::TyCtxt};
use rustc_plugin::RustcPlugin;
use rustc_span::Span;
use rustc_utils::{
  SpanExt,
  mir::{borrowck_facts::get_body_with_borrowck_facts, location_or_arg::LocationOrArg},
  source_map::{
    find_bodies::{find_bodies, find_enclosing_bodies},
    range::CharRange,
    spanner::{EnclosingHirSpans, Spanner},
  },
};
use serde_json::{Value, json};

use crate::{CUR, evaluated, finding, parse_mode, refimpl::*};

/// Subprocess: runs one plugin request (environment: FLOWCHECK_ARGS, FLOWCHECK_FILE) the
/// way flowistry-driver does; the plugin prints its own output.
pub fn actual() {
  let args = env::var("FLOWCHECK_ARGS").unwrap();
  let file = env::var("FLOWCHECK_FILE").unwrap();
  let plugin_args: <flowistry_ide::FlowistryPlugin as RustcPlugin>::Args =
    serde_json::from_str(&args).unwrap();
  let r = flowistry_ide::FlowistryPlugin.run(crate::base_args(&file), plugin_args);
  eprintln!("FLOWCHECK-RUN {}", if r.is_ok() { "ok" } else { "err" });
}

#[derive(Debug)]
pub enum Reply {
  /// The run failed and nothing was printed
  Failed,
  Printed(Value),
  Odd(String),
}

pub fn ask(file: &str, args: &Value) -> Reply {
  let out = Command::new(env::current_exe().unwrap())
    .env("FLOWCHECK_CMD", "focus-actual")
    .env("FLOWCHECK_ARGS", args.to_string())
    .env("FLOWCHECK_FILE", file)
    .env("FLOWCHECK_SYSROOT", crate::sysroot())
    .output()
    .expect("subprocess");
  let stdout = String::from_utf8_lossy(&out.stdout).trim().to_string();
  let stderr = String::from_utf8_lossy(&out.stderr);
  let ok = stderr.contains("FLOWCHECK-RUN ok");
  let err = stderr.contains("FLOWCHECK-RUN err");
  if err && stdout.is_empty() {
    return Reply::Failed;
  }
  let odd = || {
    let tail = stderr.chars().rev().take(300).collect::<Vec<_>>();
    Reply::Odd(format!(
      "status {:?} stdout {:?} stderr ..{}",
      out.status.code(),
      &stdout[.. stdout.len().min(80)],
      tail.into_iter().rev().collect::<String>()
    ))
  };
  if !ok {
    return odd();
  }
  use base64::Engine;
  let Ok(bytes) = base64::engine::general_purpose::STANDARD.decode(&stdout) else {
    return odd();
  };
  match serde_json::from_reader(flate2::read::GzDecoder::new(&bytes[..])) {
    Ok(v) => Reply::Printed(v),
    Err(_) => odd(),
  }
}

pub fn focus_args(file: &str, modes: [Option<&str>; 3], line: usize, column: usize) -> Value {
  json!({
    "bench": null, "context_mode": modes[0], "mutability_mode": modes[1],
    "pointer_mode": modes[2],
    "command": {"Focus": {"file": file, "pos_line": line, "pos_column": column}},
  })
}

type R = (usize, usize, usize, usize);
fn rng_of(r: &CharRange) -> R {
  (r.start.line, r.start.column, r.end.line, r.end.column)
}
fn rng_json(v: &Value) -> R {
  let n = |a: &str, b: &str| v[a][b].as_u64().unwrap_or(u64::MAX) as usize;
  (
    n("start", "line"),
    n("start", "column"),
    n("end", "line"),
    n("end", "column"),
  )
}

#[derive(Debug, PartialEq, Clone, PartialOrd, Eq, Ord)]
pub struct Entry {
  range: R,
  ranges: Vec<R>,
  slice: Vec<R>,
  direct: Vec<R>,
}
#[derive(Debug, PartialEq, Clone)]
pub struct Expected {
  pub entries: Vec<Entry>,
  pub containers: Vec<R>,
}

/// Two entries may describe the same text (macro expansions): order-insensitive multiset.
pub fn parse_output(v: &Value) -> Option<Expected> {
  let list = |v: &Value| {
    let mut x = v.as_array().cloned().unwrap_or_default().iter().map(rng_json).collect::<Vec<_>>();
    x.sort();
    x
  };
  let ok = v.get("Ok")?;
  let mut entries = ok["place_info"]
    .as_array()?
    .iter()
    .map(|e| {
      let mut direct = list(&e["direct_influence"]);
      direct.dedup();
      Entry {
        range: rng_json(&e["range"]),
        ranges: list(&e["ranges"]),
        slice: list(&e["slice"]),
        direct,
      }
    })
    .collect::<Vec<_>>();
  entries.sort();
  Some(Expected {
    entries,
    containers: ok["containers"].as_array()?.iter().map(rng_json).collect(),
  })
}

/// What the focus query should answer for a body, under the ambient mode.
pub fn expected(tcx: TyCtxt<'_>, body_id: BodyId, mode: flowistry::extensions::EvalMode) -> Expected {
  let local = tcx.hir_body_owner_def_id(body_id);
  let bwf = get_body_with_borrowck_facts(tcx, local);
  let body = &bwf.body;
  let results = &infoflow::compute_flow(tcx, body_id, bwf);
  let r = Ref::build(tcx, local.to_def_id(), bwf, mode);
  let sm = tcx.sess.source_map();
  let spanner = Spanner::new(tcx, body_id, body);

  // (place, location) pairs per distinct span
  let mut groups: Vec<(rustc_span::SpanData, Vec<(Place<'_>, LocationOrArg)>)> = vec![];
  for m in spanner.mir_span_tree.iter() {
    let here = m.locations.iter().map(|l| (m.place, *l));
    match groups.iter_mut().find(|(s, _)| *s == m.span) {
      Some((_, v)) => v.extend(here),
      None => groups.push((m.span, here.collect())),
    }
  }
  let ranges = |v: &[Span]| {
    let mut out = v
      .iter()
      .filter_map(|s| s.trim_leading_whitespace(sm))
      .flatten()
      .filter_map(|s| CharRange::from_span(s, sm).ok())
      .map(|c| rng_of(&c))
      .collect::<Vec<_>>();
    out.sort();
    out
  };
  let mut touched: BTreeMap<Location, std::collections::HashSet<Place<'_>>> = BTreeMap::new();
  for l in body.all_locations_vec() {
    let mut set = std::collections::HashSet::new();
    for m in r.mutations(l) {
      for i in &m.inputs {
        set.extend(r.reachable(*i, Mutability::Not));
      }
      set.extend(r.reachable(m.mutated, Mutability::Mut));
    }
    touched.insert(l, set);
  }
  let mut entries = vec![];
  for (span, targets) in &groups {
    let mut locs = Deps::default();
    for dir in [Direction::Forward, Direction::Backward] {
      for set in infoflow::compute_dependencies(results, vec![targets.clone()], dir) {
        locs.extend(set.iter().copied());
      }
    }
    let slice = Span::merge_overlaps(
      locs
        .iter()
        .flat_map(|l| spanner.location_to_spans(*l, body, EnclosingHirSpans::OuterOnly))
        .collect(),
    );
    let mut direct = vec![];
    for (place, _) in targets {
      let reach = r.reachable(*place, Mutability::Not);
      for (l, set) in &touched {
        if reach.iter().any(|p| set.contains(p)) {
          direct.extend(
            spanner
              .location_to_spans(LocationOrArg::Location(*l), body, EnclosingHirSpans::None)
              .into_iter()
              .filter(|s| slice.iter().any(|x| x.contains(*s))),
          );
        }
      }
    }
    let Ok(range) = CharRange::from_span(span.span(), sm) else {
      continue;
    };
    let mut direct = ranges(&direct);
    direct.dedup();
    entries.push(Entry {
      range: rng_of(&range),
      ranges: ranges(&[span.span()]),
      slice: ranges(&slice),
      direct,
    });
  }
  entries.sort();
  let one = |s: Span| CharRange::from_span(s, sm).map(|c| rng_of(&c)).ok();
  let mut containers = vec![one(spanner.body_span), one(spanner.ret_span)];
  let params = tcx.hir_body(body_id).params;
  if !params.is_empty() {
    let lo = params.iter().map(|p| p.span.lo()).min().unwrap();
    let hi = params.iter().map(|p| p.span.hi()).max().unwrap();
    containers.push(one(params[0].span.with_lo(lo).with_hi(hi)));
  }
  Expected {
    entries,
    containers: containers.into_iter().flatten().collect(),
  }
}

trait AllLocs {
  fn all_locations_vec(&self) -> Vec<Location>;
}
impl AllLocs for Body<'_> {
  fn all_locations_vec(&self) -> Vec<Location> {
    self
      .basic_blocks
      .iter_enumerated()
      .flat_map(|(block, d)| {
        (0 ..= d.statements.len()).map(move |statement_index| Location {
          block,
          statement_index,
        })
      })
      .collect()
  }
}

pub struct Query {
  pub line: usize,
  pub column: usize,
  pub name: String,
  pub exp: Expected,
}

/// The functions of a file, where to click on them, and what to expect there.
pub fn queries(file: &str, mode_name: &str, limit: usize) -> Option<Vec<Query>> {
  let mut out = vec![];
  let mode = parse_mode(mode_name);
  let ok = crate::with_program(file, &[], |tcx| {
    fluid_set!(flowistry::extensions::EVAL_MODE, mode);
    let sm = tcx.sess.source_map();
    for (span, _) in find_bodies(tcx) {
      if out.len() >= limit {
        break;
      }
      let Ok(r) = CharRange::from_span(span, sm) else {
        continue;
      };
      let here = span.with_hi(span.lo());
      let Some(body_id) = find_enclosing_bodies(tcx, here).next() else {
        continue;
      };
      let name = tcx.def_path_str(tcx.hir_body_owner_def_id(body_id).to_def_id());
      let exp = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| expected(tcx, body_id, mode)));
      if let Ok(exp) = exp {
        out.push(Query {
          line: r.start.line,
          column: r.start.column,
          name,
          exp,
        });
      }
    }
  });
  ok.then_some(out)
}

pub fn diff(got: &Expected, exp: &Expected) -> String {
  if got.containers != exp.containers {
    return format!("containers {:?} expected {:?}", got.containers, exp.containers);
  }
  if got.entries.len() != exp.entries.len() {
    return format!("{} entries, expected {}", got.entries.len(), exp.entries.len());
  }
  for (g, e) in got.entries.iter().zip(&exp.entries) {
    if g != e {
      return format!("entry {g:?} expected {e:?}");
    }
  }
  "equal".into()
}

pub fn check(file: &str, modes: &str) -> bool {
  let mode = modes.split(',').next().unwrap_or("default");
  let Some(qs) = queries(file, mode, 12) else {
    return false;
  };
  let m = parse_mode(mode);
  let names = [
    format!("{:?}", m.context_mode),
    format!("{:?}", m.mutability_mode),
    format!("{:?}", m.pointer_mode),
  ];
  for q in qs {
    {
      let mut c = CUR.lock().unwrap();
      c.1 = q.name.clone();
      c.2 = mode.to_string();
    }
    let a = focus_args(
      file,
      [Some(&names[0]), Some(&names[1]), Some(&names[2])],
      q.line,
      q.column,
    );
    evaluated("C15", q.exp.entries.len() > 1);
    match ask(file, &a) {
      Reply::Printed(v) => match parse_output(&v) {
        Some(got) if got == q.exp => {}
        Some(got) => finding(&["C15"], "focus-output", diff(&got, &q.exp)),
        None => finding(&["C15"], "focus-error", v.to_string().chars().take(300).collect()),
      },
      r => finding(&["C15"], "focus-run", format!("{r:?}")),
    }
  }
  true
}
