"""Deductive layer: extract the functions under contract from /repo, assemble them with
their contracts into one Verus file, run Verus, map every error to a function.

Contract files are contracts/*.rs listed in contracts/UNITS. A unit is Verus text in which
blocks

    @fn Type::name            (or @assume for a contract without a body)
    file: path
    params: self: T, x: &T, y: mut y1: T
    ret: name: T
    requires expr
    ensures label: expr
    loop 0
      inv: expr ...
    @end

are replaced by the extracted function with its contract.
"""
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import HERE, REPO, WORK, env, sh  # noqa: E402

CON = os.path.join(HERE, "contracts")
VX = os.path.join(HERE, "vx")
OUT = os.path.join(WORK, "verus")
BIN = os.path.join(WORK, "vxbuild", "debug", "vx")


def build():
  e = env()
  e["CARGO_TARGET_DIR"] = os.path.join(WORK, "vxbuild")
  p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=VX, env=e,
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  if p.returncode != 0:
    raise RuntimeError("extractor build failed: " + p.stdout[-2000:])


def split_top(s, sep=","):
  out, depth, cur = [], 0, ""
  for i, c in enumerate(s):
    if c in "(<[{" and not (c == "<" and s[i - 1] == " "):
      depth += 1
    if c in ")>]}" and not (c == ">" and s[i - 1] in "-="):
      depth -= 1
    if c == sep and depth == 0:
      out.append(cur.strip())
      cur = ""
    else:
      cur += c
  if cur.strip():
    out.append(cur.strip())
  return out


LOOPKEYS = ("inv", "invb", "ens", "before", "begin", "end", "after", "isolate")


def parse_block(lines, unit):
  head = lines[0].split(None, 1)
  c = {"key": head[1].strip(), "unit": unit, "assumed": head[0] == "@assume", "params": [],
       "ret": None, "requires": [], "ensures": [], "loops": {}, "recv": {}, "uses": [],
       "nouses": [], "post": "", "attrs": ""}
  cur = None
  loop = None
  items = []
  for raw in lines[1:]:
    m = re.match(r"^(\s*)(\w+)(?:\s+([\w.]+))?\s*(?::\s*(.*))?$", raw)
    indent = len(raw) - len(raw.lstrip())
    if not raw.strip():
      continue
    first = re.match(r"^\s*(\w+)", raw)
    w = first.group(1) if first else ""
    if indent == 0 and w in ("file", "src", "params", "ret", "requires", "ensures", "loop", "recv",
                             "uses", "nouses", "post", "try", "closure_try", "events", "attrs", "tparams", "proof", "ghost",
                             "closure", "captures", "subst", "callreq", "written", "fixed", "types", "stream", "passes", "at"):
      items.append([w, raw[len(w):].lstrip(": ").rstrip() if w not in ("ensures", "requires", "loop") else raw[len(w):].strip()])
    elif indent == 2 and w in LOOPKEYS and re.match(r"^\s*\w+:", raw) and items and items[-1][0] in ("loop", "loopitem"):
      items.append(["loopitem", (w, raw.split(":", 1)[1].strip())])
    else:
      if items[-1][0] == "loopitem":
        items[-1][1] = (items[-1][1][0], items[-1][1][1] + "\n" + raw)
      else:
        items[-1][1] += "\n" + raw
  for w, t in items:
    if w in ("file", "src", "try", "closure_try", "attrs", "tparams", "stream"):
      c[w] = t.strip()
    elif w == "events":
      c["events"] = True
    elif w == "closure":
      c["closure"], c["owner"] = (x.strip() for x in t.split(" in "))
    elif w == "captures":
      c["captures"] = [x.strip() for x in t.split(",")]
    elif w == "subst":
      k, v = t.split("=>")
      c.setdefault("subst", {})["".join(k.split())] = v.strip()
    elif w in ("callreq", "written"):
      k, v = t.split(":", 1)
      c.setdefault(w, []).append((k.strip(), v.strip()))
    elif w == "fixed":
      c["fixed"] = t
    elif w == "at":
      k, v = t.split(":", 1)
      c.setdefault("at", []).append((k.strip(), v.strip()))
    elif w == "passes":
      c["passes"] = dict((x.strip() for x in q.split("=")) for q in t.split(","))
    elif w == "types":
      c["types"] = dict(x.strip().split("=") for x in t.split(","))
    elif w == "params":
      for p in split_top(t):
        n, ty = p.split(":", 1)
        n, ty = n.strip(), ty.strip()
        d = {"name": n, "ty": ty}
        if n.startswith(("static ", "extra ")):
          # a thread-local variable, passed in and out ("extra": by the callers too)
          kind, st, n = n.split()
          d["name"], d["static"] = n, st
          d["hidden"] = kind == "static"
        if ty.startswith("mut "):
          mm, ty = ty[4:].split(":", 1)
          d["mut"], d["ty"] = mm.strip(), ty.strip()
        c["params"].append(d)
    elif w == "ret":
      n, ty = t.split(":", 1)
      c["ret"] = {"name": n.strip(), "ty": ty.strip()}
    elif w == "requires":
      c["requires"].append(t.strip())
    elif w == "ensures":
      lab, ex = t.split(":", 1)
      c["ensures"].append((lab.strip(), ex.strip()))
    elif w in ("uses", "nouses"):
      c[w] += [x.strip() for x in t.split(",") if x.strip()]
    elif w == "recv":
      k, v = t.split("=>")
      c["recv"][k.strip()] = v.strip()
    elif w == "ghost":
      c["ghost"] = t
    elif w in ("post", "proof"):
      c["post" if w == "post" else "pre_proof"] = t
    elif w == "loop":
      loop = t
      c["loops"][loop] = {k: "" for k in LOOPKEYS}
    elif w == "loopitem":
      k, v = t
      old = c["loops"][loop][k]
      c["loops"][loop][k] = (old + "\n" + v) if old else v
  # invariants: comma separated text
  c["self_ty"] = c["key"].split("::")[0] if "::" in c["key"] else None
  c["name"] = c["key"].split("::")[-1]
  return c


def literals(t):
  """STR("text") in a contract is the model of that string literal (as in vx/src/pure.rs)."""
  def lit(m):
    h = 1469598103934665603
    for b in m.group(1).encode():
      h = ((h ^ b) * 1099511628211) % 2**64
    return f"(Str {{ id: {h >> 1}int }})"
  return re.sub(r'STR\("([^"]*)"\)', lit, t)


def load():
  """[(unit, [text | contract])]"""
  units = []
  for u in open(os.path.join(CON, "UNITS")).read().split():
    parts, buf, blk = [], [], None
    for line in literals(open(os.path.join(CON, u + ".rs")).read()).split("\n"):
      if blk is not None:
        if line.startswith("@end"):
          parts.append(parse_block(blk, u))
          blk = None
        else:
          blk.append(line)
      elif line.startswith("@fn ") or line.startswith("@assume "):
        parts.append("\n".join(buf))
        buf = []
        blk = [line]
      else:
        buf.append(line)
    parts.append("\n".join(buf))
    units.append((u, parts))
  return units


def outs(c, statics=False):
  o = []
  if c["ret"]:
    o.append((c["ret"]["name"], c["ret"]["ty"]))
  for p in c["params"]:
    if "mut" in p and (statics or not p.get("hidden")):
      o.append((p["mut"], p["ty"]))
  return o


def out_ty(c, statics=False):
  o = outs(c, statics)
  return o[0][1] if len(o) == 1 else "(" + ", ".join(t for _, t in o) + ")"


def snake(key):
  return key.replace("::", "_")


def tgen(c):
  return "<" + c["tparams"] + ">" if c.get("tparams") else ""


def decl(c):
  """Spec function (what callers see) and the axiom with its contract."""
  s = ""
  self_ty = c["self_ty"]
  has_self = bool(c["params"]) and c["params"][0]["name"] == "self"
  ps = [(p["name"], p["ty"]) for p in c["params"] if not p.get("hidden")]
  hidden = [n for p in c["params"] if p.get("hidden") for n in (p["name"], p["mut"])]
  ensures = [(l, e) for l, e in c["ensures"] if not any(re.search(r"\b" + n + r"\b", e) for n in hidden)]
  plist = ", ".join("self" if n == "self" else f"{n}: {t}" for n, t in ps)
  fn = f"pub uninterp spec fn {c['name']}{tgen(c)}({plist}) -> {out_ty(c)};"
  s += f"impl {self_ty} {{ {fn} }}\n" if self_ty else fn + "\n"
  if self_ty:
    if has_self:
      call = f"self_.{c['name']}(" + ", ".join(n for n, _ in ps[1:]) + ")"
    else:
      call = f"{self_ty}::{c['name']}(" + ", ".join(n for n, _ in ps) + ")"
  else:
    call = f"{c['name']}(" + ", ".join(n for n, _ in ps) + ")"
  sub = lambda e: re.sub(r"\bself\b", "self_", e)
  if ensures:
    args = ", ".join(f"{'self_' if n == 'self' else n}: {t}" for n, t in ps)
    o = outs(c)
    bind = "let " + (o[0][0] if len(o) == 1 else "(" + ", ".join(n for n, _ in o) + ")") + f" = {call};"
    ens = "\n".join(f"    &&& ({sub(e)})" for _, e in ensures)
    req = "".join(f"({sub(r)}) && " for r in c["requires"] if not any(re.search(r"\b" + n + r"\b", r) for n in hidden)) + "true"
    name = snake(c["key"])
    s += f"pub open spec fn {name}_post{tgen(c)}({args}) -> bool {{ {bind} {req} ==> {{\n{ens}\n  }} }}\n"
    an = ", ".join("self_" if n == "self" else n for n, _ in ps)
    s += (f"pub broadcast axiom fn {name}_ax{tgen(c)}({args})\n"
          f"  ensures #![trigger {call}] {name}_post({an});\n")
  return s


def calls(k, text):
  for m in re.finditer(r"(?:(\w+)::|\.|\b)" + re.escape(k["name"]) + r"\(", text):
    if m[1] is None or m[1] in ("Self", re.split(r"\W", k["self_ty"] or m[1])[0]):
      return True
  return False


def exec_fn(c, text, all_c, vac=False):
  ps = ", ".join(f"{'self_' if p['name'] == 'self' else p['name']}: {p['ty']}" for p in c["params"])
  o = outs(c, True)
  one = len(o) == 1
  res = o[0][0] if one else "__out"
  rename = lambda e: re.sub(r"\bself\b", "self_", e)
  head = f"#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\n{c['attrs']}\n"
  head += f"pub fn x_{snake(c['key'])}{tgen(c)}({ps}) -> ({res}: {out_ty(c, True)})\n"
  if c["requires"]:
    head += "  requires " + ", ".join(rename(r) for r in c["requires"]) + "\n"
  marks = []
  if vac:
    head += "  ensures false\n"
  elif c["ensures"]:
    head += "  ensures\n"
    for lab, e in c["ensures"]:
      bind = "" if one else "let (" + ", ".join(n for n, _ in o) + ") = __out; "
      marks.append((head.count("\n"), lab))
      head += f"    ({{ {bind}{rename(e)} }}),\n"
  uses = set(c["uses"])
  for k in all_c:
    if k["ensures"] and calls(k, text):
      uses.add(snake(k["key"]) + "_ax")
  if c.get("selfrec") is None and not c.get("rec"):
    pass
  for n in c["nouses"]:
    uses.discard(n)
  bu = "broadcast use { " + ", ".join([u for u in ("lists", "matrices") if u not in c["nouses"]] + sorted(uses)) + " };\n"
  pre = c.get("pre_proof", "")
  if pre:
    pre = "proof { " + rename(pre) + " }\n"
  if c.get("ghost"):
    pre = f"let ghost {rename(c['ghost'])};\n" + pre
  body = "{\n" + bu + rename_body(pre) + rename_body(text.replace("/*BROADCAST*/", bu.strip())) + "}\n"
  return head, marks, body


def call_args(text, name):
  """[(position, [arguments])] of the calls of `name` in generated text."""
  out = []
  for m in re.finditer(r"(?<![\w])" + re.escape(name) + r"\(", text):
    depth, k = 1, m.end()
    while depth:
      depth += {"(": 1, ")": -1}.get(text[k], 0)
      k += 1
    out.append((m.start(), split_top(text[m.end():k - 1])))
  return out


def at_vars(proof, before):
  for v in set(re.findall(r"\bV\((\w+)\)", proof)):
    d = re.findall(r"\blet [^=\n]*\b(" + v + r"(?:_\d+)?)\b[^=\n]* = ", before)
    if not d:
      return None
    proof = proof.replace(f"V({v})", d[-1])
  return proof


def decorate(c, text, weak):
  """Assertions a contract asks for inside the extracted text; None where they have no place."""
  for name, cond in c.get("callreq", []):
    # later occurrences with the same arguments are reads of the same value
    first = {}
    for pos, args in call_args(text, name):
      first.setdefault(tuple(args), pos)
    for args, pos in reversed(first.items()):
      a = text.rfind("\n", 0, pos) + 1
      if not re.match(r"\s*(let (mut )?[\w(), ]+ = |\w+ = |return )", text[a:]):
        return None
      x = cond
      for i, v in enumerate(args):
        x = x.replace(f"${i + 1}", f"({v})")
      text = text[:a] + f"assert({x});\n" + text[a:]
  for var, stmt in c.get("written", []):
    text = re.sub(r"^(\s*)(" + var + r"_\d+)( = mk\(.*;)$", lambda m: f"{m[0]}\nproof {{ {stmt.replace('$', m[2])} }}", text, flags=re.M)
  for var, proof in c.get("at", []):
    # proof steps where a local variable gets its value
    m = re.search(r"\blet mut (" + var + r"(?:_\d+)?) = mk\(.*;$", text, re.M)
    proof = m and at_vars(proof, text[:m.end()])
    if not proof:
      # proved without this step, or undecided
      weak.append(f"no place for the proof step at {var}")
      continue
    text = text[:m.end()] + "\nproof { " + proof + " }" + text[m.end():]
  if c.get("fixed"):
    # name(args): ARG free of VARS as EXPR -- the argument is a function of the rest of the input
    m = re.match(r"(\w+) (\d+) not ([\w ,]+): (.*)$", c["fixed"], re.S)
    calls = call_args(text, m[1])
    if len(calls) != 1:
      return None
    pos, args = calls[0]
    a = text.rfind("\n", 0, pos) + 1
    before = re.sub(r"let mut \w+ = \w+;|let fin\w* = \w+;", "", text[:a])
    for v in m[3].split(","):
      if re.search(r"\b" + v.strip() + r"(_\d+)?\b", before):
        return None
    proof = at_vars(m[4].replace("$", "(" + args[int(m[2])] + ")"), text[:a])
    if not proof:
      return None
    text = text[:a] + "proof { " + proof + " }\n" + text[a:]
  return text


def rename_body(t):
  return re.sub(r"\bself\b", "self_", t)


HEADER = "#![allow(unused_imports, unused_parens, unused_variables, unused_mut, dead_code, unreachable_code, unused_assignments, non_snake_case, unused_braces, unreachable_patterns, unused_must_use)]\nuse vstd::prelude::*;\nverus! {\n"


def vacuous_lemmas(text):
  """For each lemma, one with the same premises and the conclusion `false` (it must fail)."""
  out = ""
  for m in re.finditer(r"^pub (?:broadcast )?proof fn (\w+)", text, re.M):
    i, depth, end = m.end(), 0, None
    while i < len(text):
      ch = text[i]
      if ch in "([{":
        if ch == "{" and depth == 0:
          end = i
          break
        depth += 1
      elif ch in ")]}":
        depth -= 1
      elif depth == 0 and re.match(r"(ensures|decreases)\b", text[i:]) and not text[i - 1].isalnum():
        end = i
        break
      i += 1
    head = text[m.end():end]
    k, depth = head.index("("), 0
    while True:  # to the end of the parameter list
      depth += {"(": 1, ")": -1}.get(head[k], 0)
      k += 1
      if depth == 0:
        break
    r = re.match(r"\s*->\s*(?=\()", head[k:])
    if r:
      e = k + r.end()
      while True:  # without the result
        depth += {"(": 1, ")": -1}.get(head[e], 0)
        e += 1
        if depth == 0:
          break
      head = head[:k] + " " + head[e:]
    out += f"pub proof fn vac_{m.group(1)}{head} ensures false {{ broadcast use {{ lists, matrices, queues }}; }}\n"
  return out


def assemble(units, res, skip=(), vac=False):
  """Returns (text, [(first line, last line, unit, fn key, {line: label})])."""
  lines = []
  spans = []

  def add(t):
    a = len(lines) + 1
    lines.extend(t.rstrip("\n").split("\n"))
    return a, len(lines)

  add(HEADER)
  all_c = [p for _, ps in units for p in ps if isinstance(p, dict)]
  for f in ("prelude", "model"):
    add(f"pub mod {f} {{ use vstd::prelude::*; " + ("use super::prelude::*; " if f == "model" else ""))
    txt = open(os.path.join(CON, f + ".rs")).read()
    a, b = add(txt + (setters(txt) if f == "model" else ""))
    spans.append((a, b, f, None, {}))
    add("}")
  add("pub mod decls { use vstd::prelude::*; use super::prelude::*; use super::model::*;" +
      "".join(f" use super::{u}::*;" for u, _ in units))
  for c in all_c:
    a, b = add(decl(c))
    spans.append((a, b, "decls", c["key"] + " (declaration)", {}))
  add("}")
  for u, parts in units:
    add(f"pub mod {u} {{ use vstd::prelude::*; use super::prelude::*; use super::model::*; use super::decls::*;" +
        "".join(f" use super::{v}::*;" for v, _ in units if v != u))
    for p in parts:
      if isinstance(p, str):
        if p.strip():
          if vac and u == "props":
            add(vacuous_lemmas(p))
          a, b = add(p)
          spans.append((a, b, u, None, {}))
          add("".join(setters(l) for l in p.split("\n") if l.endswith("// set_")))
      elif not p["assumed"] and p["key"] not in skip:
        r = res.get(p["key"])
        if not r or not r["ok"]:
          continue
        head, marks, body = exec_fn(p, r["text"], all_c, vac)
        a, b = add(head + body)
        spans.append((a, b, u, p["key"], {a + k: lab for k, lab in marks}))
    add("}")
  add("}\nfn main() {}")
  return "\n".join(lines) + "\n", spans


def setters(text):
  out = ""
  for m in re.finditer(r"pub struct (\w+) \{([^}]*)\}", text):
    fs = [f.strip() for f in split_top(m.group(2)) if f.strip()]
    names = [tuple(x.strip() for x in f.replace("pub ", "", 1).split(":", 1)) for f in fs]
    out += f"impl {m.group(1)} {{ " + " ".join(
      f"pub open spec fn set_{n}(self, x: {t}) -> {m.group(1)} {{ {m.group(1)} {{ {n}: x, ..self }} }}" for n, t in names) + " }\n"
  return out


def extract(units):
  cfg = json.load(open(os.path.join(CON, "config.json")))
  cs = [p for _, ps in units for p in ps if isinstance(p, dict)]
  files = sorted({c["file"] for c in cs if "file" in c} | set(cfg.get("files", [])))
  js = []
  for c in cs:
    d = {k: c[k] for k in ("key", "params", "assumed", "recv", "loops") if k in c}
    for k in ("src", "file", "try", "closure_try", "events", "closure", "owner", "captures", "subst", "types", "stream", "passes"):
      if k in c:
        d[k] = c[k]
    d["ret"] = c["ret"]
    d["post"] = c["post"]
    js.append(d)
  inp = {"repo": REPO, "files": files, "contracts": js, "mutators": cfg["mutators"],
         "drops": cfg["drops"], "types": cfg["types"], "consts": cfg["consts"], "rules": rules(),
         "rule_files": sorted(os.path.relpath(os.path.join(a, f), REPO) for s in ("crates/flowistry/src",)
                              for a, _, fs in os.walk(os.path.join(REPO, s)) for f in fs if f.endswith(".rs"))}
  p = subprocess.run([BIN], input=json.dumps(inp), text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
  if p.returncode != 0:
    raise RuntimeError("extractor failed: " + p.stderr[-2000:])
  o = json.loads(p.stdout)
  out = {f["key"]: f for f in o["functions"]}
  for c in cs:
    f = out.get(c["key"])
    if f and f["ok"]:
      t = decorate(c, f["text"], f["weak"])
      if t is None:
        out[c["key"]] = {"key": c["key"], "ok": False, "reason": "a call the contract speaks about is not where it can be annotated"}
      else:
        f["text"] = t
  return out, o["unread"], broken(o["rules"], o["functions"])


def rules():
  return json.load(open(os.path.join(CON, "rules.json")))


def broken(found, functions):
  """{function: why} where what an assumption rests on is not so in the source."""
  out = {}
  inlined = {x.split(" ")[0] for f in functions if f["ok"] for x in f["inlined"]}
  for r, names, methods in zip(rules(), found["mentions"], found["methods"]):
    if "name" in r:
      other = [k for k in names if k not in r["in"] and k not in inlined and k.split("::")[-1] not in inlined]
      if other:
        for k in r["in"]:
          out[k] = f"{r['why']}: {r['name']} is also used by {', '.join(other)}"
    elif set(methods) - set(r["methods"]):
      for k in r["for"]:
        out[k] = f"{r['why']}: there is also {', '.join(sorted(set(methods) - set(r['methods'])))}"
  return out


VERUS = ["verus", "all.rs", "--no-lifetime", "--edition=2024", "--triggers-mode", "silent"]
TRUSTED_TEXT = [
  "contracts/prelude.rs: iterators, vectors, hash sets and maps, bit sets and the flow matrix "
  "behave as mathematical sequences, sets and maps; iteration over hash-based collections is "
  "in an unknown order",
  "contracts/model.rs: plain rustc data types are modelled structurally, rustc and rustc_utils "
  "functions are uninterpreted functions of their arguments unless a definition is given there",
  "vx: the extractor's translation of the Rust subset (references as values, &mut parameters as "
  "extra results, log macros and timers dropped, closures inlined or translated to spec closures)",
  "machine arithmetic is treated as mathematical; panics and non-termination are divergence",
  "Verus 0.2026.09.13 and its Z3",
]


def signature(key):
  return "x_" + snake(key)


class Run:
  """One extraction and verification of everything under contract."""

  def __init__(self):
    self.status = {}      # key -> ("ok"|"failed"|"undecided", detail)
    self.info = {}        # key -> extraction facts
    self.lemmas = {}      # name -> same
    self.problem = None
    self.solver_ms = 0
    self.cmd = ""


def lemma_names(units):
  out = []
  for u, parts in units:
    for p in parts:
      if isinstance(p, str):
        for m in re.finditer(r"^\s*pub (?:broadcast )?proof fn (\w+)", p, re.M):
          out.append((u, m.group(1)))
  return out


def vacuity(units, res, skip, d):
  """Names of functions and lemmas whose premises are contradictory: with the conclusion `false`
  in place of their own, every one has to be refused."""
  text, _ = assemble(units, res, skip, vac=True)
  everything = [snake(p["key"]) + "_ax" for _, ps in units for p in ps if isinstance(p, dict) and p["ensures"]]
  text = text.replace("}\nfn main() {}", "pub proof fn vac_contracts() ensures false { broadcast use { prelude::lists, prelude::matrices, prelude::queues, "
                      + ", ".join("decls::" + n for n in everything) + " }; }\n}\nfn main() {}")
  dd = os.path.join(d, "vacuity")
  os.makedirs(dd, exist_ok=True)
  rc, js, diags, err = verify(dd, text, ["--num-threads", "8", "--rlimit", "3"], 400)
  os.replace(os.path.join(dd, "all.rs"), os.path.join(OUT, "vacuity.rs"))
  os.rmdir(dd)
  if js is None or js.get("verification-results", {}).get("encountered-vir-error") or not breakdown(js):
    return None, "vacuity check did not run: " + " ".join(err.split())[:300]
  return sorted(n for (m, n), f in breakdown(js).items() if (n.startswith("x_") or n.startswith("vac_")) and f.get("success")), None


def verify(path_dir, text, extra, timeout):
  open(os.path.join(path_dir, "all.rs"), "w").write(text)
  e = env()
  e.pop("RUSTUP_TOOLCHAIN", None)
  rc, o, err = sh(VERUS + ["--output-json", "--time-expanded", "--error-format=json"] + extra,
                  timeout=timeout, env_=e, cwd=path_dir)
  diags = []
  for line in err.split("\n"):
    if line.startswith("{"):
      try:
        diags.append(json.loads(line))
      except ValueError:
        pass
  try:
    js = json.loads(o)
  except ValueError:
    js = None
  return rc, js, diags, err


def where(line, spans, text_lines):
  for a, b, unit, key, labels in spans:
    if a <= line <= b:
      if key:
        return unit, key, labels
      # inside contract text: the nearest function above
      for k in range(line, a - 1, -1):
        m = re.search(r"\bfn (\w+)", text_lines[k - 1])
        if m:
          return unit, "lemma " + m.group(1), {}
      return unit, None, {}
  return None, None, {}


def breakdown(js):
  out = {}
  for m in js["times-ms"]["smt"].get("smt-run-module-times", []):
    for f in m.get("function-breakdown", []):
      out[(m["module"], f["function"].split("::")[-1])] = f
  return out


def run_all(threads=8):
  r = Run()
  d = os.path.join(OUT, "run%d" % os.getpid())
  os.makedirs(d, exist_ok=True)
  try:
    _run_all(r, d, threads)
  finally:
    for f in ("all.rs",):
      try:
        os.replace(os.path.join(d, f), os.path.join(OUT, f))
      except OSError:
        pass
    try:
      os.rmdir(d)
    except OSError:
      pass
  return r


def _run_all(r, d, threads):
  units = load()
  cs = {p["key"]: p for _, ps in units for p in ps if isinstance(p, dict)}
  try:
    res, unread, unsound = extract(units)
  except RuntimeError as ex:
    r.problem = str(ex)
    return
  r.units, r.contracts = units, cs
  for k, c in cs.items():
    if c["assumed"]:
      continue
    f = res.get(k)
    if not f or not f["ok"]:
      r.status[k] = ("undecided", "not extracted: " + (f["reason"] if f else "no such function"))
    else:
      r.info[k] = f
  skip = set()
  base = ["--num-threads", str(threads)]
  for attempt in range(8):
    text, spans = assemble(units, res, skip)
    lines = text.split("\n")
    rc, js, diags, err = verify(d, text, base, 400)
    r.cmd = " ".join(VERUS + base)
    if rc is None:
      r.problem = "verifier timed out"
      return
    errs = [x for x in diags if x["level"] == "error" and x["spans"]]
    bad = js is None or "verification-results" not in js or \
      js["verification-results"].get("encountered-vir-error") or any(x.get("code") for x in errs)
    if not bad:
      break
    drop = set()
    if os.environ.get("DEDUCE_DEBUG"):
      for x in errs:
        for sp in x["spans"]:
          print(x["message"], "|", sp.get("label"), "|", "".join(t["text"] for t in sp.get("text", []))[:300], file=sys.stderr)
    for x in errs:
      for s in x["spans"]:
        u, key, _ = where(s["line_start"], spans, lines)
        if key in cs:
          drop.add(key)
          r.status[key] = ("undecided", "not accepted by the verifier: " + x["message"][:200])
    if not drop - skip:
      r.problem = "contracts not accepted by the verifier: " + (errs[0]["message"] if errs else err[-500:])
      return
    skip |= drop
  else:
    r.problem = "contracts not accepted by the verifier"
    return
  bd = breakdown(js)
  r.solver_ms = js["times-ms"]["smt"]["total"]
  fails = {}
  for x in errs:
    prim = [s for s in x["spans"] if s["is_primary"]] or x["spans"]
    homes = [where(s["line_start"], spans, lines) for s in x["spans"]]
    u, key, labels = where(prim[0]["line_start"], spans, lines)
    # an error in a contract clause is reported at the clause; the function is where the body is
    for h in homes:
      if h[1] in cs:
        u, key, labels = h
    lab = labels.get(prim[0]["line_start"])
    src = " ".join(lines[prim[0]["line_start"] - 1].split())[:160]
    msg = x["message"] + (f" [{lab}]" if lab else "") + ": " + src
    fails.setdefault((u, key), []).append(msg)
  r.modules = bd
  for k, c in cs.items():
    if c["assumed"] or k in r.status:
      continue
    f = fails.get((c["unit"], k))
    b = bd.get((c["unit"], signature(k)))
    if f:
      r.status[k] = ("failed", f)
    elif b is None or not b.get("success", False):
      r.status[k] = ("undecided", "no answer from the solver")
    else:
      r.status[k] = ("ok", b["time-micros"])
  for u, n in lemma_names(units):
    f = fails.get((u, "lemma " + n))
    b = bd.get((u, n))
    r.lemmas[n] = ("failed", f) if f else (("ok", b["time-micros"]) if b and b.get("success") else
                                          ("undecided", "no answer from the solver"))
  r.vacuous, why = vacuity(units, res, skip, d)
  if why:
    r.problem = why
    return
  for n in r.vacuous:
    for k, v in r.status.items():
      if signature(k) == n and v[0] == "ok":
        r.status[k] = ("undecided", "its contract's premises are contradictory")
    if n.startswith("vac_") and n[4:] in r.lemmas:
      r.lemmas[n[4:]] = ("undecided", "its premises are contradictory")
  if "vac_contracts" in r.vacuous:
    r.problem = "the contracts contradict each other"
    return
  # a failed obligation has to fail again with more resources and other seeds
  todo = [(cs[k]["unit"], k, signature(k), r.status) for k, v in r.status.items() if v[0] == "failed"]
  todo += [(u, n, n, r.lemmas) for u, n in lemma_names(units) if r.lemmas[n][0] == "failed"]

  def again(job):
    i, (u, k, fn, table) = job
    dd = os.path.join(d, str(i))
    os.makedirs(dd, exist_ok=True)
    out = None
    for seed in (7, 23):
      rc, js2, di, _ = verify(dd, text, ["--num-threads", "1", "--verify-only-module", u, "--verify-function", fn,
                                         "--rlimit", "60", "--smt-option", f"smt.random_seed={seed}"], 200)
      if rc is None or js2 is None:
        out = ("undecided", "solver gave no answer")
        continue
      if js2["verification-results"].get("success"):
        out = ("ok", 0)
        break
      if any("rlimit" in x["message"] or "Resource limit" in x["message"] for x in di):
        out = ("undecided", "resource limit")
        continue
      out = None if out is None else out
    os.remove(os.path.join(dd, "all.rs"))
    os.rmdir(dd)
    return table, k, out

  from concurrent.futures import ThreadPoolExecutor
  with ThreadPoolExecutor(4) as ex:
    for table, k, out in ex.map(again, list(enumerate(todo))):
      if out:
        table[k] = out
  for k, why in unsound.items():
    if k in r.status and r.status[k][0] == "ok":
      r.status[k] = ("undecided", why)
  # a failure counts only where the whole contract applied to the extracted text
  for k, v in list(r.status.items()):
    if v[0] == "failed":
      f = r.info[k]
      inner = [n for n, c in cs.items() if c.get("owner") == k and n not in r.info]
      if inner:
        r.status[k] = ("undecided", f"its closure {inner[0]} is not extracted -- " + v[1][0])
        continue
      if f["weak"]:
        r.status[k] = ("undecided", "translated approximately: " + "; ".join(f["weak"])[:200] + " -- " + v[1][0])
      elif sorted(set(f["loops"])) != sorted(cs[k]["loops"]):
        r.status[k] = ("undecided", f"the loops of this function are not the ones annotated ({f['loops']}) -- " + v[1][0])


def callees(r, k):
  f = r.info.get(k)
  if not f:
    return set()
  return {n for n in r.contracts if n != k and re.search(r"(?:\.|::|\b)" + re.escape(r.contracts[n]["name"]) + r"\(", f["text"])}


def obligations(c):
  return max(1, len(c["ensures"])) + sum(1 for l in c["loops"].values() if l["inv"])


def run(prop, tier):
  """The deductive verdict for one property; see verdict.conclude."""
  t0 = time.time()
  cones = json.load(open(os.path.join(CON, "cones.json")))
  if prop not in cones:
    return None
  cone = cones[prop]
  out = dict(failed=[], undecided=[], obligations=0, discharged=0, checker_cmd=" ".join(VERUS), trusted_base=[],
             functions=[], backend="Verus 0.2026.09.13 / Z3", solver_s=0, extraction=[], assumptions=[])
  try:
    build()
    r = run_all()
  except Exception as ex:  # the bounded layer still decides
    out["undecided"].append(f"deductive layer did not run: {ex!r}"[:400])
    return out
  if r.problem:
    out["undecided"].append(r.problem[:400])
    return out
  out["checker_cmd"] = r.cmd
  decides = list(cone["functions"])
  seen, todo = set(decides), list(decides)
  while todo:
    for n in callees(r, todo.pop()):
      if n not in seen:
        seen.add(n)
        todo.append(n)
  total = 0.0
  for k in decides + sorted(seen - set(decides)):
    c = r.contracts[k]
    if c["assumed"]:
      continue
    st = r.status[k]
    n = obligations(c)
    out["obligations"] += n
    if st[0] == "ok":
      out["discharged"] += n
      total += st[1] / 1e6
      out["functions"].append({"function": k, "file": c.get("file"), "obligations": n, "ensures": [l for l, _ in c["ensures"]],
                               "role": "decides" if k in decides else "relied on", "solver_s": round(st[1] / 1e6, 3)})
    elif st[0] == "failed" and k in decides:
      for m in st[1]:
        out["failed"].append({"fn": k, "message": m})
    else:
      out["undecided"].append(f"{k}: {st[1] if isinstance(st[1], str) else 'contract not met: ' + st[1][0]}"[:300])
    f = r.info.get(k)
    if f and (f["dropped"] or f["inlined"]):
      out["extraction"].append({"function": k, "dropped": f["dropped"], "inlined": f["inlined"]})
  for n in cone.get("lemmas", []):
    st = r.lemmas.get(n, ("undecided", "no such lemma"))
    out["obligations"] += 1
    if st[0] == "ok":
      out["discharged"] += 1
      total += st[1] / 1e6
      out["functions"].append({"lemma": n, "obligations": 1, "role": "property", "solver_s": round(st[1] / 1e6, 3)})
    elif st[0] == "failed":
      out["failed"].append({"fn": "lemma " + n, "message": st[1][0]})
    else:
      out["undecided"].append(f"lemma {n}: {st[1]}")
  out["solver_s"] = round(total, 3)
  assumed = sorted({k for k in seen if r.contracts[k]["assumed"]})
  ax = []
  for u, parts in r.units:
    for p in parts:
      if isinstance(p, str):
        ax += [f"{u}: axiom {m.group(1)}" for m in re.finditer(r"axiom fn (\w+)", p)]
  out["trusted_base"] = TRUSTED_TEXT + [f"assumed contract: {k}" for k in assumed] + ax
  out["assumptions"] = cone.get("assumptions", []) + [f"assumed contract of {k}" for k in assumed]
  for k in sorted(seen):
    c = r.contracts[k]
    out["assumptions"] += [f"in {k}, `{a}` is read as the specification term `{b}`" for a, b in c.get("subst", {}).items()]
    if c.get("fixed"):
      out["assumptions"].append(f"{k}: the value passed to `{c['fixed'].split()[0]}` is named by a specification function of the inputs (checked not to mention the mutable parameters)")
  out["wall_s"] = round(time.time() - t0, 1)
  return out


def report():
  """python3 -m lib.deduce report: status of every contract and lemma."""
  build()
  r = run_all()
  if r.problem:
    print("PROBLEM", r.problem)
    return
  for k, v in list(r.status.items()) + list(r.lemmas.items()):
    if v[0] != "ok":
      print(k, v)
  print(sum(v[0] == "ok" for v in r.status.values()), "functions ok of", len(r.status), "; lemmas",
        sum(v[0] == "ok" for v in r.lemmas.values()), "of", len(r.lemmas))


def main():
  """Development driver: python3 -m lib.deduce [unit…]"""
  os.makedirs(OUT, exist_ok=True)
  build()
  units = load()
  res, unread, unsound = extract(units)
  for k, f in res.items():
    if not f["ok"]:
      print("NOT EXTRACTED", k, f["reason"])
    elif f["dropped"] or f["weak"] or f["inlined"]:
      print(k, "dropped", f["dropped"], "weak", f["weak"], "inlined", f["inlined"])
  text, spans = assemble(units, res)
  path = os.path.join(OUT, "all.rs")
  open(path, "w").write(text)
  want = sys.argv[1:]
  cmd = ["verus", "all.rs", "--no-lifetime", "--edition=2024", "--triggers-mode", "silent", "--num-threads", "8"]
  for w in want:
    if w.startswith("-"):
      cmd.append(w)
    else:
      cmd += ["--verify-module", w]
  t = time.time()
  p = subprocess.run(cmd, cwd=OUT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  print(p.stdout[:int(os.environ.get("MAXOUT", "6000"))])
  print("%.1f s" % (time.time() - t))


if __name__ == "__main__":
  report() if sys.argv[1:] == ["report"] else main()
