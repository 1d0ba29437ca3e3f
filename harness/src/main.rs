//! flowcheck: evaluates the contracts of /verif/contracts as executable oracles on the
//! real flowistry code (path dependency on /repo). See /verif/DESIGN.md.
#![feature(rustc_private, box_patterns)]

extern crate either;
extern crate rustc_abi;
extern crate rustc_borrowck;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_dataflow;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod checks;
mod focus;
mod generate;
mod ifc;
mod modes;
mod refimpl;

use std::{collections::BTreeMap, env, fs, panic, sync::Mutex};

use flowistry::extensions::{ContextMode, EvalMode, MutabilityMode, PointerMode};
use rustc_middle::ty::TyCtxt;
use rustc_utils::mir::borrowck_facts;


/// splitmix64
pub struct Rng(pub u64);
impl Rng {
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    (self.next() % (n.max(1) as u64)) as usize
  }
}

/// What one run found, and what it covered.
#[derive(Default)]
pub struct Out {
  pub findings: Vec<serde_json::Value>,
  pub evals: BTreeMap<String, (u64, u64)>,
}

pub static OUT: Mutex<Option<Out>> = Mutex::new(None);
pub static CUR: Mutex<(String, String, String)> =
  Mutex::new((String::new(), String::new(), String::new()));

pub fn finding(props: &[&str], kind: &str, detail: String) {
  let cur = CUR.lock().unwrap().clone();
  let mut g = OUT.lock().unwrap();
  let out = g.get_or_insert_default();
  if out.findings.len() < 4000 {
    out.findings.push(serde_json::json!({
      "props": props, "kind": kind, "file": cur.0, "body": cur.1, "mode": cur.2,
      "detail": detail,
    }));
  }
}

/// One oracle evaluation for a property; `nontrivial` says whether it could have failed
/// in an interesting way (non-empty expected set and so on).
pub fn evaluated(prop: &str, nontrivial: bool) {
  let mut g = OUT.lock().unwrap();
  let e = g
    .get_or_insert_default()
    .evals
    .entry(prop.to_string())
    .or_default();
  e.0 += 1;
  e.1 += nontrivial as u64;
}

pub fn sysroot() -> String {
  env::var("FLOWCHECK_SYSROOT").unwrap_or_else(|_| {
    let o = std::process::Command::new("rustc")
      .args(["--print", "sysroot"])
      .output()
      .expect("rustc");
    String::from_utf8(o.stdout).unwrap().trim().to_owned()
  })
}

pub fn base_args(file: &str) -> Vec<String> {
  [
    "rustc",
    file,
    "--crate-name",
    "subject",
    "--crate-type",
    "lib",
    "--edition=2024",
    "--allow",
    "warnings",
    "--sysroot",
    &sysroot(),
  ]
  .map(str::to_owned)
  .to_vec()
}

pub struct Session<F>(pub Option<F>);
impl<F: FnOnce(TyCtxt<'_>)> rustc_driver::Callbacks for Session<F> {
  fn config(&mut self, config: &mut rustc_interface::Config) {
    borrowck_facts::enable_mir_simplification();
    config.override_queries = Some(borrowck_facts::override_queries);
  }
  fn after_analysis(
    &mut self,
    _: &rustc_interface::interface::Compiler,
    tcx: TyCtxt<'_>,
  ) -> rustc_driver::Compilation {
    (self.0.take().unwrap())(tcx);
    rustc_driver::Compilation::Stop
  }
}

/// Compiles a file and hands over the type context; false if it does not compile.
pub fn with_program(file: &str, extra: &[String], f: impl FnOnce(TyCtxt<'_>) + Send) -> bool {
  let mut args = base_args(file);
  args.extend(
    ["-Zidentify-regions", "-Zmir-opt-level=0", "-Zmaximal-hir-to-mir-coverage"]
      .map(str::to_owned),
  );
  args.extend(extra.iter().cloned());
  let mut ran = false;
  {
    let ran = &mut ran;
    let mut s = Session(Some(move |tcx: TyCtxt<'_>| {
      *ran = true;
      f(tcx)
    }));
    let _ = rustc_driver::catch_fatal_errors(|| {
      rustc_driver::run_compiler(&args, &mut s);
    });
  }
  ran
}

pub fn parse_mode(s: &str) -> EvalMode {
  EvalMode {
    context_mode: if s.contains("recurse") {
      ContextMode::Recurse
    } else {
      ContextMode::SigOnly
    },
    mutability_mode: if s.contains("ignoremut") {
      MutabilityMode::IgnoreMut
    } else {
      MutabilityMode::DistinguishMut
    },
    pointer_mode: if s.contains("conservative") {
      PointerMode::Conservative
    } else {
      PointerMode::Precise
    },
  }
}

fn main() {
  if let Ok(cmd) = env::var("FLOWCHECK_CMD") {
    match cmd.as_str() {
      "focus-actual" => return focus::actual(),
      "ifc-actual" => return ifc::actual(),
      "plugin-args" => return modes::plugin_args(),
      _ => {}
    }
  }
  let args = env::args().skip(1).collect::<Vec<_>>();
  let opt = |name: &str| {
    args
      .iter()
      .position(|a| a == name)
      .and_then(|i| args.get(i + 1).cloned())
  };
  let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1u64);
  match args[0].as_str() {
    "gen" => {
      let n: usize = opt("--n").unwrap().parse().unwrap();
      let dir = opt("--out").unwrap();
      fs::create_dir_all(&dir).unwrap();
      for i in 0 .. n {
        let mut src = generate::program(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
        if opt("--ifc").is_some() {
          src.push_str(
            "use flowistry_ifc_traits::{Secure, Insecure};\nimpl Secure for S {}\n\
             impl Insecure for W {}\nimpl Insecure for E {}\nimpl Secure for m::H {}\n",
          );
        }
        fs::write(format!("{dir}/g{seed}_{i}.rs"), src).unwrap();
      }
    }
    "e2e" => {
      let i = args.iter().position(|a| a == "--").unwrap();
      for file in &args[i + 1 ..] {
        *CUR.lock().unwrap() = (file.clone(), String::new(), "default".into());
        checks::end_to_end(file);
      }
      let out = OUT.lock().unwrap().take().unwrap_or_default();
      for f in &out.findings {
        println!("FINDING {f}");
      }
      println!(
        "SUMMARY {}",
        serde_json::json!({"compiled": 1, "skipped": [], "evals": out.evals})
      );
    }
    "run" => {
      let props = opt("--props").unwrap();
      let props = props.split(',').collect::<Vec<_>>();
      let modes = opt("--modes").unwrap_or_else(|| "default".into());
      let effort = opt("--effort").and_then(|s| s.parse().ok()).unwrap_or(1usize);
      let files = args
        .iter()
        .position(|a| a == "--")
        .map(|i| args[i + 1 ..].to_vec())
        .unwrap_or_default();
      if env::var("FLOWCHECK_TRACE").is_err() {
        panic::set_hook(Box::new(|info| {
          *checks::LAST_PANIC.lock().unwrap() = info.to_string();
        }));
      }
      let mut compiled = 0;
      let mut skipped = vec![];
      for file in &files {
        *CUR.lock().unwrap() = (file.clone(), String::new(), String::new());
        let ok = checks::program(file, &props, &modes, seed, effort);
        if ok {
          compiled += 1;
        } else {
          skipped.push(file.clone());
        }
      }
      let out = OUT.lock().unwrap().take().unwrap_or_default();
      for f in &out.findings {
        println!("FINDING {f}");
      }
      println!(
        "SUMMARY {}",
        serde_json::json!({"compiled": compiled, "skipped": skipped, "evals": out.evals})
      );
    }
    _ => panic!("unknown command"),
  }
}
