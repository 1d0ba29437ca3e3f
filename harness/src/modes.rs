//! C16: mode names, flags and outcomes, through the plugin's own entry points.
use std::{env, process::Command, str::FromStr};

use flowistry::extensions::{ContextMode, MutabilityMode, PointerMode};
use rustc_plugin::{RustcPlugin, Utf8Path};
use serde_json::{Value, json};

use crate::{
  CUR, Rng, evaluated, finding,
  focus::{Reply, ask, diff, focus_args, parse_output, queries},
};

const CONTEXT: [&str; 2] = ["SigOnly", "Recurse"];
const MUTABILITY: [&str; 2] = ["DistinguishMut", "IgnoreMut"];
const POINTER: [&str; 2] = ["Precise", "Conservative"];

/// Subprocess: what the tool's own command-line parser makes of argv.
pub fn plugin_args() {
  let a = flowistry_ide::FlowistryPlugin.args(Utf8Path::new("/nonexistent"));
  println!("{}", serde_json::to_string(&a.args).unwrap());
}

fn parse_argv(argv: &[String]) -> (Option<i32>, Option<Value>) {
  let out = Command::new(env::current_exe().unwrap())
    .env("FLOWCHECK_CMD", "plugin-args")
    .arg("flowistry")
    .args(argv)
    .output()
    .expect("subprocess");
  (
    out.status.code(),
    serde_json::from_slice(&out.stdout).ok(),
  )
}

fn near_misses(name: &str, rng: &mut Rng) -> Vec<String> {
  let mut v = vec![
    String::new(),
    name.to_lowercase(),
    name.to_uppercase(),
    format!(" {name}"),
    format!("{name} "),
    format!("{name}\n"),
    format!("{name}{name}"),
    name[1 ..].to_string(),
    name[.. name.len() - 1].to_string(),
  ];
  for _ in 0 .. 12 {
    let mut b = name.as_bytes().to_vec();
    let i = rng.below(b.len());
    match rng.below(3) {
      0 => b[i] = b'a' + rng.below(26) as u8,
      1 => {
        b.remove(i);
      }
      _ => b.insert(i, b'A' + rng.below(26) as u8),
    }
    v.push(String::from_utf8(b).unwrap());
  }
  v.retain(|s| s != name);
  v
}

fn names(seed: u64) {
  let mut rng = Rng(seed);
  let all = [CONTEXT, MUTABILITY, POINTER].concat();
  let mut cands: Vec<String> = all.iter().map(|s| s.to_string()).collect();
  for n in &all {
    cands.extend(near_misses(n, &mut rng));
  }
  for c in &cands {
    let got = [
      ContextMode::from_str(c).ok().map(|m| format!("{m:?}")),
      MutabilityMode::from_str(c).ok().map(|m| format!("{m:?}")),
      PointerMode::from_str(c).ok().map(|m| format!("{m:?}")),
    ];
    for (g, set) in got.iter().zip([CONTEXT, MUTABILITY, POINTER]) {
      let want = set.contains(&c.as_str()).then(|| c.clone());
      evaluated("C16", true);
      if *g != want {
        finding(&["C16"], "mode-name", format!("{c:?} parsed as {g:?}, expected {want:?}"));
      }
    }
  }
}

fn flags(seed: u64) {
  let mut rng = Rng(seed ^ 77);
  let opt = |set: [&'static str; 2], i: usize| (i < 2).then(|| set[i]);
  for i in 0 .. 27 {
    let m = [
      opt(CONTEXT, i % 3),
      opt(MUTABILITY, i / 3 % 3),
      opt(POINTER, i / 9),
    ];
    let mut argv = vec![];
    for (flag, v) in ["--context-mode", "--mutability-mode", "--pointer-mode"].iter().zip(m) {
      if let Some(v) = v {
        argv.extend([flag.to_string(), v.to_string()]);
      }
    }
    argv.extend(["focus", "f.rs", "3", "4"].map(str::to_string));
    let (code, v) = parse_argv(&argv);
    evaluated("C16", true);
    let want = json!({"bench": null, "context_mode": m[0], "mutability_mode": m[1],
      "pointer_mode": m[2],
      "command": {"Focus": {"file": "f.rs", "pos_line": 3, "pos_column": 4}}});
    if v.as_ref() != Some(&want) {
      finding(&["C16"], "flags", format!("{argv:?}: exit {code:?}, parsed {v:?}"));
    }
  }
  for (flag, set) in [
    ("--context-mode", CONTEXT),
    ("--mutability-mode", MUTABILITY),
    ("--pointer-mode", POINTER),
  ] {
    let mut bad = near_misses(set[rng.below(2)], &mut rng);
    bad.truncate(6);
    bad.extend(
      [CONTEXT, MUTABILITY, POINTER].concat().iter().filter(|s| !set.contains(s)).map(|s| s.to_string()),
    );
    for b in bad {
      let argv = [flag, &b, "focus", "f.rs", "3", "4"].map(str::to_string);
      let (code, v) = parse_argv(&argv);
      evaluated("C16", true);
      if code == Some(0) || v.is_some() {
        finding(&["C16"], "flags", format!("{argv:?} accepted: {v:?}"));
      }
    }
  }
}

pub fn check(file: &str, seed: u64) {
  if file.ends_with("names") {
    names(seed);
    flags(seed);
    return;
  }
  // every combination of modes reaches the analysis as requested
  let mut per_mode = vec![];
  for i in 0 .. 8 {
    let (c, m, p) = (i & 1, i >> 1 & 1, i >> 2);
    let name = format!(
      "x{}{}{}",
      ["", "-recurse"][c],
      ["", "-ignoremut"][m],
      ["", "-conservative"][p]
    );
    let Some(qs) = queries(file, &name, 6) else {
      // does not build: the tool must say so by failing without any output
      evaluated("C16", true);
      match ask(file, &focus_args(file, [None; 3], 0, 0)) {
        Reply::Failed => {}
        r => finding(&["C16"], "build-failure", format!("{r:?}")),
      }
      return;
    };
    per_mode.push(([c, m, p], qs));
  }
  let differ = |k: usize| {
    per_mode
      .iter()
      .any(|(_, qs)| qs.get(k).map(|q| &q.exp) != per_mode[0].1.get(k).map(|q| &q.exp))
  };
  for (k, q0) in per_mode[0].1.iter().enumerate() {
    let nontrivial = differ(k);
    for i in 0 .. 27 {
      let sel = [i % 3, i / 3 % 3, i / 9];
      // all explicit combinations, and omitted flags one at a time and together
      let omitted = sel.iter().filter(|s| **s == 2).count();
      if !nontrivial && i % 5 != 0 || omitted == 2 && i % 2 == 0 {
        continue;
      }
      let eff = sel.map(|s| if s == 2 { 0 } else { s });
      let Some(q) = per_mode
        .iter()
        .find(|(m, _)| *m == eff)
        .and_then(|(_, qs)| qs.get(k))
      else {
        continue;
      };
      {
        let mut c = CUR.lock().unwrap();
        c.1 = q0.name.clone();
        c.2 = format!("{sel:?}");
      }
      let m = [
        (sel[0] < 2).then(|| CONTEXT[sel[0]]),
        (sel[1] < 2).then(|| MUTABILITY[sel[1]]),
        (sel[2] < 2).then(|| POINTER[sel[2]]),
      ];
      evaluated("C16", nontrivial);
      match ask(file, &focus_args(file, m, q.line, q.column)) {
        Reply::Printed(v) => match parse_output(&v) {
          Some(got) if got == q.exp => {}
          Some(got) => finding(&["C16"], "mode-selection", diff(&got, &q.exp)),
          None => finding(&["C16"], "outcome", v.to_string().chars().take(300).collect()),
        },
        r => finding(&["C16"], "outcome", format!("{r:?}")),
      }
    }
  }
  // outcomes stay apart
  let kind = |v: &Value| v["Err"]["type"].as_str().map(str::to_string);
  let mut expect = |what: &str, args: Value, want: &str| {
    evaluated("C16", true);
    let got = match ask(file, &args) {
      Reply::Printed(v) => match kind(&v) {
        Some(k) => format!("Err {k}"),
        None if v.get("Ok").is_some() => "Ok".into(),
        None => v.to_string(),
      },
      r => format!("{r:?}"),
    };
    if got != want {
      finding(&["C16"], "outcome", format!("{what}: {got}, expected {want}"));
    }
  };
  let spans = |f: &str| {
    json!({"bench": null, "context_mode": null, "mutability_mode": null,
      "pointer_mode": null, "command": {"Spans": {"file": f}}})
  };
  expect("spans", spans(file), "Ok");
  expect("spans of another file", spans("/nonexistent/nofile.rs"), "Err FileNotFound");
  expect(
    "focus outside any function",
    focus_args(file, [None; 3], 0, 0),
    "Err AnalysisError",
  );
  expect(
    "focus in another file",
    focus_args("/nonexistent/nofile.rs", [None; 3], 0, 0),
    "Err AnalysisError",
  );
}
