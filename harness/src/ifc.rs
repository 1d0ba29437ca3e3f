//! C14: the information-flow checker, run as a subprocess, against pairs computed here.
use std::{env, process::Command};

use flowistry::infoflow;
use fluid_let::fluid_set;
use rustc_hir::{def::Res, def_id::DefId};
use rustc_infer::{infer::TyCtxtInferExt, traits::EvaluationResult};
use rustc_middle::{
  mir::*,
  ty::{TyCtxt, TypingMode},
};
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_utils::{
  PlaceExt, SpanExt, mir::borrowck_facts::get_body_with_borrowck_facts,
  source_map::find_bodies::find_bodies,
};

use crate::{evaluated, finding, parse_mode, refimpl::*};

fn args(file: &str) -> Vec<String> {
  let mut dir = env::current_exe().unwrap();
  dir.pop();
  dir.push("deps");
  let mut libs = std::fs::read_dir(&dir)
    .unwrap()
    .filter_map(|e| e.ok())
    .filter(|e| {
      let n = e.file_name().to_string_lossy().to_string();
      n.starts_with("libflowistry_ifc_traits-") && n.ends_with(".rlib")
    })
    .collect::<Vec<_>>();
  libs.sort_by_key(|e| e.metadata().and_then(|m| m.modified()).ok());
  let lib = libs.last().expect("flowistry_ifc_traits rlib").path();
  let mut a = crate::base_args(file);
  a.push("--extern".into());
  a.push(format!("flowistry_ifc_traits={}", lib.display()));
  a
}

/// Subprocess: what ifc-driver runs.
pub fn actual() {
  let file = env::var("FLOWCHECK_FILE").unwrap();
  rustc_driver::run_compiler(&args(&file), &mut flowistry_ifc::Callbacks);
  eprintln!("FLOWCHECK-DONE");
}

/// (secure range, insecure range) as printed
type Pair = (String, String);

fn expected(tcx: TyCtxt<'_>) -> Vec<Pair> {
  let mut out = vec![];
  let Some(krate) = tcx
    .crates(())
    .iter()
    .find(|k| tcx.crate_name(**k).as_str() == "flowistry_ifc_traits")
  else {
    return out;
  };
  let find = |name: &str| {
    tcx
      .module_children(krate.as_def_id())
      .iter()
      .find_map(|e| match e.res {
        Res::Def(_, id) if e.ident.as_str() == name => Some(id),
        _ => None,
      })
      .unwrap()
  };
  let (secure, insecure) = (find("Secure"), find("Insecure"));
  let sm = tcx.sess.source_map();
  for (_, body_id) in all_bodies(tcx) {
    let local = tcx.hir_body_owner_def_id(body_id);
    let def_id = local.to_def_id();
    let bwf = get_body_with_borrowck_facts(tcx, local);
    let body = &bwf.body;
    let returns = body
      .basic_blocks
      .iter_enumerated()
      .filter(|(_, d)| matches!(d.terminator().kind, TerminatorKind::Return))
      .map(|(bb, _)| body.terminator_loc(bb))
      .collect::<Vec<_>>();
    if returns.is_empty() {
      continue;
    }
    let results = infoflow::compute_flow(tcx, body_id, bwf);
    let r = Ref::build(tcx, def_id, bwf, parse_mode("default"));
    let mut end = St::default();
    for l in returns {
      join(&mut end, &crate::checks::to_st(results.state_at(l)));
    }
    let marked = |t: DefId| {
      let mut v = vec![];
      let mut seen = std::collections::HashSet::new();
      for l in body.local_decls.indices() {
        for p in Place::from_local(l, tcx).interior_places(tcx, body, def_id) {
          let ty = tcx.erase_regions(p.ty(body.local_decls(), tcx).ty);
          let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
          let res = infcx.type_implements_trait(t, [ty], tcx.param_env(def_id));
          if matches!(
            res,
            EvaluationResult::EvaluatedToOk | EvaluationResult::EvaluatedToOkModuloRegions
          ) && seen.insert(p)
          {
            v.push(p);
          }
        }
      }
      v
    };
    let body_span = tcx.hir_span_with_body(body_id.hir_id);
    let show = |p: Place<'_>| match body.local_decls[p.local].source_info.span.as_local(body_span) {
      None => "<in macro expansion>".to_string(),
      Some(s) => {
        let (lo, hi) = (sm.lookup_char_pos(s.lo()), sm.lookup_char_pos(s.hi()));
        format!("{}:{}-{}:{}", lo.line, lo.col.0, hi.line, hi.col.0)
      }
    };
    let bad = marked(insecure);
    for s in marked(secure) {
      let sd = r.deps_for(&end, s);
      for i in &bad {
        if sd.is_subset(&r.deps_for(&end, *i)) {
          out.push((show(s), show(*i)));
        }
      }
    }
  }
  out.sort();
  out
}

/// Every body the crate's items contain, closures included.
fn all_bodies(tcx: TyCtxt<'_>) -> Vec<(rustc_span::Span, rustc_hir::BodyId)> {
  struct V<'tcx>(TyCtxt<'tcx>, Vec<(rustc_span::Span, rustc_hir::BodyId)>);
  impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
      self.0
    }
    fn visit_nested_body(&mut self, id: rustc_hir::BodyId) {
      let b = self.0.hir_body(id);
      self.1.push((b.value.span, id));
      rustc_hir::intravisit::walk_body(self, b);
    }
  }
  let mut v = V(tcx, vec![]);
  tcx.hir_visit_all_item_likes_in_crate(&mut v);
  let _ = find_bodies;
  v.1
}

fn parse(stderr: &str) -> (Vec<Pair>, bool, bool) {
  let (mut pairs, mut src) = (vec![], None);
  for line in stderr.lines() {
    if let Some(rest) = line.strip_prefix("ERROR: insecure flow in ") {
      src = rest
        .split_once(" from data at ")
        .map(|(_, s)| s.trim_end_matches(':').to_string());
    } else if let Some(rest) = line.strip_prefix("to data at ")
      && let Some(s) = src.take()
    {
      pairs.push((s, rest.trim_end_matches(':').to_string()));
    }
  }
  pairs.sort();
  (
    pairs,
    stderr.contains("No security issues found!"),
    stderr.contains("FLOWCHECK-DONE"),
  )
}

pub fn check(file: &str) -> bool {
  let mut exp = None;
  let run = {
    let exp = &mut exp;
    let mut s = crate::Session(Some(move |tcx: TyCtxt<'_>| {
      fluid_set!(
        flowistry::extensions::EVAL_MODE,
        flowistry::extensions::EvalMode::default()
      );
      *exp = Some(expected(tcx));
    }));
    rustc_driver::catch_fatal_errors(|| rustc_driver::run_compiler(&args(file), &mut s))
  };
  let Some(exp) = exp else {
    let _ = run;
    return false;
  };
  let out = Command::new(env::current_exe().unwrap())
    .env("FLOWCHECK_CMD", "ifc-actual")
    .env("NO_COLOR", "1")
    .env("FLOWCHECK_FILE", file)
    .env("FLOWCHECK_SYSROOT", crate::sysroot())
    .output()
    .expect("subprocess");
  let stderr = String::from_utf8_lossy(&out.stderr);
  let (got, none, done) = parse(&stderr);
  evaluated("C14", true);
  if !done {
    let tail = stderr.chars().rev().take(300).collect::<Vec<_>>();
    finding(&["C14"], "ifc-crash", tail.into_iter().rev().collect());
  } else if got != exp {
    finding(&["C14"], "ifc-pairs", format!("reported {got:?} expected {exp:?}"));
  } else if none != exp.is_empty() {
    finding(
      &["C14"],
      "ifc-verdict",
      format!("{} issues, 'No security issues' printed: {none}", exp.len()),
    );
  }
  true
}
