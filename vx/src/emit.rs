//! Statement level: executable Verus statements over specification expressions.
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;

use quote::ToTokens;
use serde_json::Value;
use syn::{Expr, Pat, Stmt};

use crate::{Cfg, Func};

pub type R<T> = Result<T, String>;

#[derive(Clone)]
pub enum Acc {
  Field(String),
  Index(String),
  Entry(String),
  EntryWith(String, String),
  Get(String),
}

#[derive(Clone)]
pub struct Lv {
  pub root: String,
  pub path: Vec<Acc>,
}

#[derive(Clone)]
pub struct Clos {
  pub name: String,
  pub params: Vec<Pat>,
  pub body: Expr,
  pub env: Env,
  pub is_fn: bool,
}

#[derive(Clone)]
pub enum Bind {
  Plain(String),
  Alias(Lv),
  Clos(Rc<Clos>),
}

#[derive(Clone)]
pub struct Env {
  pub vars: HashMap<String, Bind>,
  /// emitted names that may not be written here (captured by a pure closure)
  pub frozen: Rc<HashSet<String>>,
  /// closure whose loops are being emitted
  pub scope: String,
}

pub struct Out {
  pub text: String,
  pub loops: Vec<String>,
  pub dropped: Vec<String>,
  pub weak: Vec<String>,
  pub inlined: Vec<String>,
}

pub struct Tr<'a> {
  pub cfg: &'a Cfg,
  pub c: &'a Value,
  pub self_ty: Option<String>,
  pub file: String,
  pub used: HashSet<String>,
  pub n: usize,
  pub writes: Vec<BTreeSet<String>>,
  pub loops: Vec<String>,
  pub loop_no: HashMap<String, usize>,
  pub dropped: Vec<String>,
  pub counter: Option<Pat>,
  pub weak: Vec<String>,
  pub inlined: Vec<String>,
  pub hoists: Vec<(String, String)>,
  pub stack: Vec<String>,
}

pub fn toks<T: ToTokens>(t: &T) -> String {
  t.to_token_stream().to_string()
}

pub fn unparen(e: &Expr) -> &Expr {
  match e {
    Expr::Paren(p) => unparen(&p.expr),
    Expr::Group(p) => unparen(&p.expr),
    Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] {
      Stmt::Expr(e, None) => unparen(e),
      _ => e,
    },
    Expr::Reference(r) => unparen(&r.expr),
    Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => unparen(&u.expr),
    Expr::Cast(c) => unparen(&c.expr),
    _ => e,
  }
}

pub fn path_ident(e: &Expr) -> Option<String> {
  match unparen(e) {
    Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => {
      Some(p.path.segments[0].ident.to_string())
    }
    _ => None,
  }
}

const RESERVED: &[&str] = &[
  "proof", "spec", "exec", "ghost", "tracked", "forall", "exists", "choose", "requires",
  "ensures", "invariant", "is", "has", "open", "closed", "assert", "assume", "by", "via",
  "when", "decreases", "recommends", "any", "all", "mk", "at", "wit", "range", "flat",
  "fold", "zip", "once", "repeat", "final", "old", "implies",
];

impl Env {
  pub fn freeze(&self, tr: &Tr) -> Env {
    let mut e = self.clone();
    e.frozen = Rc::new(tr.used.clone());
    e
  }
}

impl<'a> Tr<'a> {
  pub fn fresh(&mut self, base: &str) -> String {
    let base = base.trim_start_matches("r#");
    let mut name = base.to_string();
    if RESERVED.contains(&base) || base == "_" {
      name = format!("v_{base}");
    }
    let stem = name.clone();
    while self.used.contains(&name) {
      self.n += 1;
      name = format!("{stem}_{}", self.n);
    }
    self.used.insert(name.clone());
    name
  }

  pub fn bind(&mut self, env: &mut Env, name: &str) -> String {
    let e = self.fresh(name);
    env.vars.insert(name.to_string(), Bind::Plain(e.clone()));
    e
  }

  // ---- left values -----------------------------------------------------------------
  pub fn read(&self, lv: &Lv) -> String {
    self.read_as(&lv.root, &lv.path)
  }

  pub fn read_as(&self, root: &str, path: &[Acc]) -> String {
    let mut s = root.to_string();
    for a in path {
      s = match a {
        Acc::Field(f) => format!("{s}.{f}"),
        Acc::Index(i) => format!("{s}.idx({i})"),
        Acc::Entry(k) => format!("{s}.get_or_default({k})"),
        Acc::EntryWith(k, d) => format!("{s}.get_or({k}, {d})"),
        Acc::Get(k) => format!("{s}.at({k})"),
      };
    }
    s
  }

  fn updated(&self, base: &str, path: &[Acc], val: &str) -> String {
    match path.split_first() {
      None => val.to_string(),
      Some((a, rest)) => {
        let inner = self.read_as(base, std::slice::from_ref(a));
        let v = self.updated(&inner, rest, val);
        match a {
          Acc::Field(f) => format!("{base}.set_{f}({v})"),
          Acc::Index(i) => format!("{base}.set_idx({i}, {v})"),
          Acc::Entry(k) | Acc::EntryWith(k, _) | Acc::Get(k) => {
            format!("{base}.insert_upd({k}, {v})")
          }
        }
      }
    }
  }

  pub fn write(&mut self, lv: &Lv, val: &str, env: &Env) -> R<(String, String)> {
    if env.frozen.contains(&lv.root) {
      return Err(format!("closure writes captured variable {}", lv.root));
    }
    for w in &mut self.writes {
      w.insert(lv.root.clone());
    }
    Ok((lv.root.clone(), self.updated(&lv.root, &lv.path, val)))
  }

  /// What the contract says an expression stands for.
  pub fn subst(&self, e: &Expr) -> Option<String> {
    let m = self.c["subst"].as_object()?;
    m.get(&toks(e).replace(' ', "")).and_then(|v| v.as_str()).map(|s| s.to_string())
  }

  /// The left value denoted by an expression, if it is one.
  pub fn lvalue(&mut self, e: &Expr, env: &Env) -> R<Option<Lv>> {
    if self.subst(e).is_some() {
      return Ok(None);
    }
    Ok(match e {
      Expr::Paren(p) => self.lvalue(&p.expr, env)?,
      Expr::Group(p) => self.lvalue(&p.expr, env)?,
      Expr::Reference(r) => self.lvalue(&r.expr, env)?,
      Expr::Cast(c) => self.lvalue(&c.expr, env)?,
      Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.lvalue(&u.expr, env)?,
      Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] {
        Stmt::Expr(e, None) => self.lvalue(e, env)?,
        _ => None,
      },
      Expr::Path(_) => match path_ident(e) {
        Some(n) => match env.vars.get(&n) {
          Some(Bind::Plain(s)) => Some(Lv { root: s.clone(), path: vec![] }),
          Some(Bind::Alias(lv)) => Some(lv.clone()),
          _ => None,
        },
        None => None,
      },
      Expr::Field(f) => match self.lvalue(&f.base, env)? {
        Some(mut lv) => {
          lv.path.push(Acc::Field(toks(&f.member)));
          Some(lv)
        }
        None => None,
      },
      Expr::Index(i) => match self.lvalue(&i.expr, env)? {
        Some(mut lv) => {
          let ix = self.p(&i.index, env)?;
          lv.path.push(Acc::Index(ix));
          Some(lv)
        }
        None => None,
      },
      Expr::MethodCall(m) => {
        let name = m.method.to_string();
        match name.as_str() {
          "borrow_mut" | "borrow" | "as_mut" | "deref_mut" | "by_ref" | "get_mut"
            if m.args.is_empty() =>
          {
            self.lvalue(&m.receiver, env)?
          }
          "or_default" | "or_insert_with" | "or_insert" | "unwrap" => {
            if let Expr::MethodCall(inner) = unparen(&m.receiver) {
              let iname = inner.method.to_string();
              let base = self.lvalue(&inner.receiver, env)?;
              match (base, iname.as_str(), name.as_str()) {
                (Some(mut lv), "entry", "or_default") => {
                  let k = self.p(&inner.args[0], env)?;
                  lv.path.push(Acc::Entry(k));
                  Some(lv)
                }
                (Some(mut lv), "entry", "or_insert_with") => {
                  let k = self.p(&inner.args[0], env)?;
                  let d = match unparen(&m.args[0]) {
                    Expr::Closure(c) => self.p(&c.body, &env.freeze(self))?,
                    f => format!("{}()", self.p(f, env)?),
                  };
                  lv.path.push(Acc::EntryWith(k, d));
                  Some(lv)
                }
                (Some(mut lv), "entry", "or_insert") => {
                  let k = self.p(&inner.args[0], env)?;
                  let d = self.p(&m.args[0], env)?;
                  lv.path.push(Acc::EntryWith(k, d));
                  Some(lv)
                }
                (Some(mut lv), "get_mut", "unwrap") => {
                  let k = self.p(&inner.args[0], env)?;
                  lv.path.push(Acc::Get(k));
                  Some(lv)
                }
                _ => None,
              }
            } else {
              None
            }
          }
          _ => None,
        }
      }
      _ => None,
    })
  }

  /// A mutable borrow: `&mut x`, `x.entry(k).or_default()`, `x.borrow_mut()`, ...
  pub fn mut_borrow(&mut self, e: &Expr, env: &Env) -> R<Option<Lv>> {
    let is = match e {
      Expr::Reference(r) => r.mutability.is_some(),
      Expr::Unsafe(u) => matches!(u.block.stmts.as_slice(),
        [Stmt::Expr(Expr::Reference(r), None)] if r.mutability.is_some()),
      Expr::MethodCall(m) => {
        let n = m.method.to_string();
        n == "borrow_mut"
          || ((n == "or_default" || n == "or_insert_with" || n == "or_insert")
            && matches!(unparen(&m.receiver), Expr::MethodCall(i) if i.method == "entry"))
          || (n == "unwrap"
            && matches!(unparen(&m.receiver), Expr::MethodCall(i) if i.method == "get_mut"))
      }
      _ => false,
    };
    if is {
      self.lvalue(e, env)
    } else {
      Ok(None)
    }
  }

  // ---- contracts -------------------------------------------------------------------
  /// Indices of the parameters a contracted function mutates (0 is the receiver), and
  /// whether it also returns a value.
  pub fn mut_sig(&self, name: &str, recv: Option<&str>) -> Option<(Vec<usize>, bool)> {
    let ids = self.cfg.by_name.get(name)?;
    let mut found: Option<(Vec<usize>, bool)> = None;
    for i in ids {
      let c = &self.cfg.contracts[*i];
      let k = c["key"].as_str().unwrap();
      if recv != Some("") && !k.contains("::") {
        continue; // a method is not a free function
      }
      if let Some(r) = recv {
        if k.contains("::") && k.split("::").next().unwrap() != r {
          continue;
        }
      }
      let m: Vec<usize> = c["params"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .filter(|(_, p)| p["mut"].is_string() && !p["hidden"].as_bool().unwrap_or(false))
        .map(|(i, _)| i)
        .collect();
      let s = (m, c["ret"].is_object());
      if s.0.is_empty() {
        continue;
      }
      found = Some(s);
    }
    found
  }

  pub fn repo_fn(&self, name: &str, self_ty: Option<&str>) -> Option<&'a Func> {
    let cfg: &'a Cfg = self.cfg;
    let fs: Vec<&'a Func> = cfg
      .funcs
      .iter()
      .filter(|f| f.name == name && f.self_ty.as_deref() == self_ty)
      .collect();
    let same: Vec<&'a Func> =
      fs.iter().copied().filter(|f| f.file == self.file).collect();
    if same.len() == 1 {
      return Some(same[0]);
    }
    if fs.len() == 1 {
      return Some(fs[0]);
    }
    None
  }

  /// An in-repo function without a contract that this call refers to.
  pub fn helper(&self, e: &Expr, env: &Env) -> Option<Rc<Clos>> {
    let (f, has_self) = match e {
      Expr::Call(c) => {
        let Expr::Path(p) = unparen(&c.func) else { return None };
        let segs: Vec<String> =
          p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last()?.clone();
        if segs.len() == 1 && env.vars.contains_key(&name) {
          return None;
        }
        let ty = if segs.len() >= 2 {
          let t = segs[segs.len() - 2].clone();
          if t == "Self" {
            self.self_ty.clone()
          } else if t.chars().next()?.is_uppercase() {
            Some(t)
          } else {
            None
          }
        } else {
          None
        };
        let key = match &ty {
          Some(t) => format!("{t}::{name}"),
          None => name.clone(),
        };
        if self.cfg.by_key.contains_key(&key) {
          return None;
        }
        (self.repo_fn(&name, ty.as_deref())?, false)
      }
      Expr::MethodCall(m) => {
        let name = m.method.to_string();
        if path_ident(&m.receiver).as_deref() != Some("self") {
          return None;
        }
        let ty = self.self_ty.clone()?;
        if self.cfg.by_key.contains_key(&format!("{ty}::{name}")) {
          return None;
        }
        (self.repo_fn(&name, Some(&ty))?, true)
      }
      _ => return None,
    };
    let mut params = Vec::new();
    let mut fenv = Env {
      vars: HashMap::new(),
      frozen: env.frozen.clone(),
      scope: env.scope.clone(),
    };
    for a in &f.sig.inputs {
      match a {
        syn::FnArg::Receiver(_) => {
          if has_self {
            fenv.vars.insert("self".into(), env.vars.get("self")?.clone());
          } else {
            return None;
          }
        }
        syn::FnArg::Typed(t) => params.push(Pat::Type(t.clone())),
      }
    }
    Some(Rc::new(Clos {
      name: f.name.clone(),
      params,
      body: Expr::Block(syn::ExprBlock {
        attrs: vec![],
        label: None,
        block: f.block.clone(),
      }),
      env: fenv,
      is_fn: true,
    }))
  }

  /// A local closure with a contract of its own: the call to its lifted form.
  pub fn lifted(&self, cl: &Clos) -> Option<&'a Value> {
    if cl.is_fn {
      return None;
    }
    let cfg: &'a Cfg = self.cfg;
    cfg.contracts.iter().find(|c| {
      c["closure"].as_str() == Some(cl.name.as_str()) && c["owner"].as_str().is_some() && c["owner"] == self.c["key"]
    })
  }

  // ---- effects ---------------------------------------------------------------------
  pub fn effect(&self, e: &Expr, env: &Env) -> bool {
    struct V<'b, 'a> {
      tr: &'b Tr<'a>,
      env: &'b Env,
      depth: usize,
      hit: bool,
    }
    impl<'b, 'a, 'ast> syn::visit::Visit<'ast> for V<'b, 'a> {
      fn visit_expr(&mut self, e: &'ast Expr) {
        if self.hit {
          return;
        }
        match e {
          Expr::Assign(_)
          | Expr::Return(_)
          | Expr::Break(_)
          | Expr::Continue(_)
          | Expr::ForLoop(_)
          | Expr::While(_)
          | Expr::Loop(_) => self.hit = true,
          Expr::Binary(b) if is_assign_op(&b.op) => self.hit = true,
          Expr::Macro(m) if is_panic(&m.mac) => self.hit = true,
          Expr::Closure(_) => return,
          Expr::Call(c) => {
            if let Some(n) = path_ident(&c.func) {
              if let Some(Bind::Clos(c)) = self.env.vars.get(&n) {
                if self.tr.lifted(c).is_none() && self.tr.effect(&c.body, &c.env) {
                  self.hit = true;
                }
              }
            }
            if is_events_call(&c.func) {
              self.hit = true;
            }
            if let Expr::Path(p) = unparen(&c.func) {
              let n = p.path.segments.last().unwrap().ident.to_string();
              if self.tr.mut_sig(&n, Some(&path_recv(self.tr, p))).is_some() && self.depth < 20 {
                self.hit = true;
              }
            }
            if self.depth < 20 {
              if let Some(h) = self.tr.helper(e, self.env) {
                if fn_effect(self.tr, &h) {
                  self.hit = true;
                }
              }
            }
          }
          Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if is_visitor_new(&m.receiver) {
              self.hit = true;
            }
            if self.tr.mut_sig(&n, recv_hint(self.tr, m).as_deref()).is_some() {
              self.hit = true;
            }
            if self.tr.cfg.mutators.contains(&n) && self.tr.is_lv(&m.receiver, self.env) {
              self.hit = true;
            }
            if (n == "or_default" || n == "or_insert_with")
              && matches!(unparen(&m.receiver), Expr::MethodCall(i) if i.method == "entry")
            {
              self.hit = true;
            }
            if let Some(h) = self.tr.helper(e, self.env) {
              if fn_effect(self.tr, &h) {
                self.hit = true;
              }
            }
          }
          _ => {}
        }
        if !self.hit {
          syn::visit::visit_expr(self, e);
        }
      }
    }
    let mut v = V { tr: self, env, depth: self.stack.len(), hit: false };
    syn::visit::Visit::visit_expr(&mut v, e);
    v.hit
  }

  pub fn is_lv(&self, e: &Expr, env: &Env) -> bool {
    match e {
      Expr::Paren(p) => self.is_lv(&p.expr, env),
      Expr::Reference(r) => self.is_lv(&r.expr, env),
      Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.is_lv(&u.expr, env),
      Expr::Path(_) => match path_ident(e) {
        Some(n) => matches!(env.vars.get(&n), Some(Bind::Plain(_) | Bind::Alias(_)) | None),
        None => false,
      },
      Expr::Field(f) => self.is_lv(&f.base, env),
      Expr::Index(i) => self.is_lv(&i.expr, env),
      Expr::MethodCall(m) => {
        let n = m.method.to_string();
        match n.as_str() {
          "borrow_mut" => self.is_lv(&m.receiver, env),
          "or_default" | "or_insert_with" | "or_insert" | "unwrap" => {
            matches!(unparen(&m.receiver), Expr::MethodCall(i)
              if (i.method == "entry" || i.method == "get_mut") && self.is_lv(&i.receiver, env))
          }
          _ => false,
        }
      }
      _ => false,
    }
  }

  // ---- exec blocks -----------------------------------------------------------------
  /// A clause or proof step about a variable the code no longer has is left out: what remains
  /// is proved as before, or counts as undecided.
  fn tpl_loop(&mut self, text: &str, outer: Option<&Env>, env: &Env, snap: &HashMap<String, String>, extra: &[(&str, String)]) -> String {
    let mut out = vec![];
    for c in clauses(text) {
      let r = match outer {
        Some(e) => self.outer(&c, e).and_then(|c| self.tpl(&c, env, snap, extra)),
        None => self.tpl(&c, env, snap, extra),
      };
      match r {
        Ok(c) => out.push(c),
        Err(e) => self.weak.push(e),
      }
    }
    out.join("\n")
  }

  /// `OUT(name)`: a variable from outside the loop which the loop's pattern shadows.
  fn outer(&self, text: &str, env: &Env) -> R<String> {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("OUT(") {
      let close = i + rest[i..].find(')').ok_or("unclosed template macro")? + 1;
      out.push_str(&rest[..i]);
      out.push_str(&self.tpl(&rest[i + 3..close].replacen('(', "V(", 1), env, &HashMap::new(), &[])?);
      rest = &rest[close..];
    }
    out.push_str(rest);
    Ok(out)
  }

  fn tpl(&self, text: &str, env: &Env, snap: &HashMap<String, String>, extra: &[(&str, String)]) -> R<String> {
    let mut out = String::new();
    let mut rest = text;
    'outer: while !rest.is_empty() {
      for (pre, old) in [("V(", 0), ("OLD(", 1), ("BEG(", 2)] {
        let ok_before =
          !out.chars().last().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
        if ok_before && rest.starts_with(pre) {
          let close = rest.find(')').ok_or("unclosed template macro")?;
          let name = rest[pre.len()..close].trim();
          let lv = match env.vars.get(name) {
            Some(Bind::Plain(s)) => Lv { root: s.clone(), path: vec![] },
            Some(Bind::Alias(lv)) => lv.clone(),
            _ => return Err(format!("lost anchor: no variable {name}")),
          };
          let root = match old {
            0 => lv.root.clone(),
            1 => snap.get(&lv.root).cloned().unwrap_or(lv.root.clone()),
            _ => snap.get(&lv.root).map(|s| s.replacen("__s", "__b", 1)).unwrap_or(lv.root.clone()),
          };
          out.push_str(&self.read_as(&root, &lv.path));
          rest = &rest[close + 1..];
          continue 'outer;
        }
      }
      for (k, v) in extra {
        if rest.starts_with(k) {
          out.push_str(v);
          rest = &rest[k.len()..];
          continue 'outer;
        }
      }
      let c = rest.chars().next().unwrap();
      out.push(c);
      rest = &rest[c.len_utf8()..];
    }
    Ok(out)
  }

  fn take_hoists(&mut self, from: usize, ret: bool) -> R<String> {
    let mut s = String::new();
    let hs: Vec<_> = self.hoists.drain(from..).collect();
    let kind = if ret { self.c["try"].as_str().unwrap_or("Res") } else { "Opt" };
    for (v, inner) in hs {
      let (ok, err, errv) = match kind {
        "Opt" => ("Opt::Some", "Opt::None".to_string(), "Opt::None".to_string()),
        "Cf" => ("ControlFlow::Continue", "ControlFlow::Break(e)".into(), "ControlFlow::Break(e)".into()),
        _ => ("Res::Ok", "Res::Err(e)".into(), "Res::Err(e)".into()),
      };
      let r = self.ret_stmt(&format!("mk(Ghost({errv}))"));
      s += &format!("let {v} = match mk(Ghost({inner})) {{ {ok}(x) => x, {err} => {{ {r} }} }};\n");
    }
    Ok(s)
  }

  fn epilogue(&self) -> (String, String) {
    let post = self.c["post"].as_str().unwrap_or("").to_string();
    let mut fin = String::new();
    let mut outs = Vec::new();
    if self.c["ret"].is_object() {
      outs.push(self.c["ret"]["name"].as_str().unwrap().to_string());
    }
    for p in self.c["params"].as_array().unwrap() {
      if let Some(m) = p["mut"].as_str() {
        fin += &format!("let {m} = {};\n", p["var"].as_str().unwrap_or("__nope"));
        outs.push(m.to_string());
      }
    }
    if !post.is_empty() {
      fin += &format!("proof {{ {post} }}\n");
    }
    let o = if outs.len() == 1 {
      outs[0].clone()
    } else {
      // relate the components of the returned tuple to what is known of the parts
      fin += &format!("let __ret = ({});\nproof {{ ", outs.join(", "));
      for (i, x) in outs.iter().enumerate() {
        fin += &format!("assert(__ret.{i} == {x}); ");
      }
      fin += "}\n";
      "__ret".to_string()
    };
    (fin, o)
  }

  pub fn ret_stmt(&self, val: &str) -> String {
    let (fin, o) = self.epilogue();
    let fin = self.subst_mut(&fin);
    if self.c["ret"].is_object() {
      let n = self.c["ret"]["name"].as_str().unwrap();
      if self.c["events"].as_bool().unwrap_or(false) {
        return format!("let {n} = __ev; {fin} return {o};");
      }
      format!("let {n} = {val};\n{fin} return {o};")
    } else {
      format!("{fin} return {o};")
    }
  }

  fn subst_mut(&self, fin: &str) -> String {
    fin.to_string()
  }

  pub fn xblock(&mut self, stmts: &[Stmt], env: &Env, value: bool) -> R<String> {
    let mut env = env.clone();
    let mut out = String::new();
    let n = stmts.len();
    for (i, s) in stmts.iter().enumerate() {
      match s {
        Stmt::Item(_) => {}
        Stmt::Macro(m) => {
          if is_panic(&m.mac) {
            out += if value && i + 1 == n { "diverge()" } else { "let __d: bool = diverge();\n" };
          } else if !self.logs(&m.mac) {
            return Err(format!("macro statement: {}", toks(&m.mac.path)));
          } else {
            self.drop_note(&toks(&m.mac));
          }
        }
        Stmt::Local(l) => out += &self.xlocal(l, &mut env)?,
        Stmt::Expr(e, semi) => {
          if i + 1 == n && semi.is_none() && value {
            out += &self.xexpr(e, &env)?;
          } else {
            out += &self.xstmt(e, &env)?;
          }
        }
      }
    }
    Ok(out)
  }

  /// Macros without an effect on what is specified.
  pub fn logs(&self, m: &syn::Macro) -> bool {
    is_log(m) && !(self.c["stream"].is_string() && crate::stream::writes(m).is_some())
  }

  pub fn drop_note(&mut self, s: &str) {
    let s: String = s.split_whitespace().collect::<Vec<_>>().join(" ");
    let s = if s.len() > 60 { s.chars().take(60).collect::<String>() + ".." } else { s };
    if !self.dropped.contains(&s) {
      self.dropped.push(s);
    }
  }

  fn xlocal(&mut self, l: &syn::Local, env: &mut Env) -> R<String> {
    let Some(init) = &l.init else {
      return Err(format!("let without initializer: {}", toks(&l.pat)));
    };
    let e = &*init.expr;
    let (pat, ty) = match &l.pat {
      Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
      p => (p, None),
    };
    if self.dropped_expr(e, env) {
      self.drop_note(&toks(l));
      return Ok(String::new());
    }
    if matches!(pat, Pat::Wild(_)) && !self.effect(e, env) {
      if let Some(c) = unknown_effect(e) {
        return Err(format!("statement with an unknown effect: {c}"));
      }
      self.drop_note(&toks(l));
      return Ok(String::new());
    }
    if let (Pat::Ident(id), Expr::Closure(c)) = (pat, unparen(e)) {
      env.vars.insert(
        id.ident.to_string(),
        Bind::Clos(Rc::new(Clos {
          name: id.ident.to_string(),
          params: c.inputs.iter().cloned().collect(),
          body: (*c.body).clone(),
          env: env.clone(),
          is_fn: false,
        })),
      );
      return Ok(String::new());
    }
    if let Pat::Ident(id) = pat {
      if let Some(lv) = self.mut_borrow(e, env)? {
        let creates = matches!(lv.path.last(), Some(Acc::Entry(_) | Acc::EntryWith(..)));
        let mut s = String::new();
        if creates {
          let val = self.read(&lv);
          let (r, v) = self.write(&lv, &val, env)?;
          s = format!("{r} = mk(Ghost({v}));\n");
        }
        env.vars.insert(id.ident.to_string(), Bind::Alias(lv));
        return Ok(s);
      }
    }
    let h = self.hoists.len();
    let val = self.xexpr_raw(e, env)?;
    let mut s = self.take_hoists(h, true)?;
    if let Some((_, els)) = &init.diverge {
      let mut e2 = env.clone();
      let p = self.pat(pat, &mut e2)?;
      let names = new_names(pat);
      let vars: Vec<String> = names
        .iter()
        .map(|n| match &e2.vars[n] {
          Bind::Plain(s) => s.clone(),
          _ => unreachable!(),
        })
        .collect();
      let els = match unparen(els) {
        Expr::Block(b) => self.xblock(&b.block.stmts, env, true)?,
        o => self.xexpr(o, env)?,
      };
      let tup = if vars.len() == 1 { vars[0].clone() } else { format!("({})", vars.join(", ")) };
      s += &format!("let {tup} = match {val} {{ {p} => {tup}, _ => {{ {els} }} }};\n");
      *env = e2;
      return Ok(s);
    }
    let tyann = match ty {
      Some(t) => match self.ty(t) {
        Some(t) => format!(": {t}"),
        None => String::new(),
      },
      None => String::new(),
    };
    let p = match pat {
      Pat::Ident(id) => format!("mut {}", self.bind(env, &id.ident.to_string())),
      p => self.pat(p, env)?,
    };
    s += &format!("let {p}{tyann} = {val};\n");
    Ok(s)
  }

  pub fn dropped_expr(&self, e: &Expr, _env: &Env) -> bool {
    match e {
      Expr::Macro(m) => !is_panic(&m.mac) && self.logs(&m.mac),
      Expr::Call(c) => match unparen(&c.func) {
        Expr::Path(p) => {
          let s = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>();
          let last2 = s[s.len().saturating_sub(2)..].join("::");
          self.cfg.drops.contains(&last2) || self.cfg.drops.contains(s.last().unwrap())
        }
        _ => false,
      },
      Expr::MethodCall(m) => {
        let mut r = &*m.receiver;
        while let Expr::MethodCall(x) = unparen(r) {
          r = &x.receiver;
        }
        path_ident(r).map(|n| self.cfg.drops.contains(&n)).unwrap_or(false)
          && !m.args.iter().any(|a| mentions(a, _env))
      }
      Expr::If(i) => {
        let c = toks(&i.cond).replace(' ', "");
        c.contains("log_enabled!") || self.cfg.drops.iter().any(|d| d.starts_with("if:") && c.contains(&d[3..]))
      }
      Expr::Try(t) => self.dropped_expr(&t.expr, _env),
      _ => false,
    }
  }

  /// An expression in statement position.
  pub fn xstmt(&mut self, e: &Expr, env: &Env) -> R<String> {
    if self.dropped_expr(e, env) {
      self.drop_note(&toks(e));
      return Ok(String::new());
    }
    match e {
      Expr::Paren(p) => return self.xstmt(&p.expr, env),
      Expr::Assign(a) => {
        let Some(lv) = self.lvalue(&a.left, env)? else {
          return Err(format!("assignment to {}", toks(&a.left)));
        };
        let h = self.hoists.len();
        let v = self.xexpr_raw(&a.right, env)?;
        let pre = self.take_hoists(h, true)?;
        let t = self.fresh("__as");
        let (r, u) = self.write(&lv, &t, env)?;
        return Ok(format!("{pre}let {t} = {v};\n{r} = mk(Ghost({u}));\n"));
      }
      Expr::Binary(b) if is_assign_op(&b.op) => {
        let Some(lv) = self.lvalue(&b.left, env)? else {
          return Err(format!("assignment to {}", toks(&b.left)));
        };
        let v = self.xexpr(&b.right, env)?;
        let t = self.fresh("__as");
        let cur = self.read(&lv);
        let new = assign_op(&b.op, &cur, &t).ok_or("assignment operator")?;
        let (r, u) = self.write(&lv, &new, env)?;
        return Ok(format!("let {t} = {v};\n{r} = mk(Ghost({u}));\n"));
      }
      Expr::ForLoop(f) => return self.xfor(&f.pat, &f.expr, ForBody::Block(&f.body.stmts), env),
      Expr::While(w) => return self.xwhile(w, env),
      Expr::Loop(l) => {
        let body = |tr: &mut Self, env: &Env| tr.xblock(&l.body.stmts, env, false);
        return self.xloop(env, body, None);
      }
      Expr::Break(b) => {
        if b.expr.is_some() || b.label.is_some() {
          return Err("break with value or label".into());
        }
        return Ok("break;\n".into());
      }
      Expr::Continue(c) => {
        if c.label.is_some() {
          return Err("continue with label".into());
        }
        return Ok("continue;\n".into());
      }
      Expr::Return(_) => return Ok(format!("{{ {} }}\n", self.xret(e, env)?)),
      Expr::If(i) => {
        if !self.effect(e, env) {
          let mut blocks = vec![Expr::Block(syn::ExprBlock {
            attrs: vec![],
            label: None,
            block: i.then_branch.clone(),
          })];
          blocks.extend(i.else_branch.iter().map(|(_, e)| (**e).clone()));
          for b in &blocks {
            if let Some(c) = unknown_effect(b) {
              return Err(format!("statement with an unknown effect: {c}"));
            }
          }
          return Ok(String::new());
        }
        return self.xif(i, env, false);
      }
      Expr::Match(m) => {
        if !self.effect(e, env) && !has_try(e) {
          for a in &m.arms {
            if let Some(c) = unknown_effect(&a.body) {
              return Err(format!("statement with an unknown effect: {c}"));
            }
          }
          return Ok(String::new());
        }
        return Ok(self.xmatch(m, env, false)? + "\n");
      }
      Expr::Block(b) => return Ok(format!("{{ {} }}\n", self.xblock(&b.block.stmts, env, false)?)),
      Expr::Unsafe(b) => return Ok(format!("{{ {} }}\n", self.xblock(&b.block.stmts, env, false)?)),
      Expr::Macro(m) => {
        if is_panic(&m.mac) {
          return Ok("let __d: bool = diverge();\n".into());
        }
        if !self.logs(&m.mac) {
          return Err(format!("macro statement: {}", toks(&m.mac.path)));
        }
        self.drop_note(&toks(e));
        return Ok(String::new());
      }
      _ => {}
    }
    if has_try(e) {
      let h = self.hoists.len();
      let v = self.xexpr_raw(e, env)?;
      let pre = self.take_hoists(h, true)?;
      let t = self.fresh("__u");
      return Ok(format!("{pre}let {t} = {v};\n"));
    }
    if !self.effect(e, env) {
      // A call whose value is not used is there for its effect, which is not known.
      if let Some(c) = unknown_effect(e) {
        return Err(format!("statement with an unknown effect: {c}"));
      }
      self.drop_note(&toks(e));
      return Ok(String::new());
    }
    self.xcall(e, env).map(|(s, _)| s)
  }

  fn xret(&mut self, e: &Expr, env: &Env) -> R<String> {
    let Expr::Return(r) = e else { unreachable!() };
    if !self.stack.is_empty() {
      return Err("return inside an inlined function".into());
    }
    let v = match &r.expr {
      Some(e) => {
        let h = self.hoists.len();
        let v = self.xexpr_raw(e, env)?;
        let pre = self.take_hoists(h, true)?;
        if self.c["ret"].is_object() && !self.c["events"].as_bool().unwrap_or(false) {
          return Ok(format!("{pre}{}", self.ret_stmt(&v)));
        }
        format!("{pre}")
      }
      None => String::new(),
    };
    Ok(format!("{v}{}", self.ret_stmt("()")))
  }

  /// Executable expression with a value.
  pub fn xexpr(&mut self, e: &Expr, env: &Env) -> R<String> {
    let h = self.hoists.len();
    let v = self.xexpr_raw(e, env)?;
    let pre = self.take_hoists(h, true)?;
    if pre.is_empty() {
      Ok(v)
    } else {
      Ok(format!("{{ {pre} {v} }}"))
    }
  }

  pub fn xexpr_raw(&mut self, e: &Expr, env: &Env) -> R<String> {
    if !self.effect(e, env) && !(matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) && has_try(e)) {
      let p = self.p(e, env)?;
      return Ok(format!("mk(Ghost({p}))"));
    }
    match e {
      Expr::Paren(p) => self.xexpr_raw(&p.expr, env),
      Expr::Reference(r) => self.xexpr_raw(&r.expr, env),
      Expr::If(i) => self.xif(i, env, true),
      Expr::Match(m) => self.xmatch(m, env, true),
      Expr::Block(b) => Ok(format!("{{ {} }}", self.xblock(&b.block.stmts, env, true)?)),
      Expr::Unsafe(b) => Ok(format!("{{ {} }}", self.xblock(&b.block.stmts, env, true)?)),
      Expr::Return(_) => Ok(format!("{{ {} }}", self.xret(e, env)?)),
      Expr::Macro(m) if is_panic(&m.mac) => Ok("diverge()".into()),
      Expr::Break(_) | Expr::Continue(_) => Ok(format!("{{ {} }}", self.xstmt(e, env)?)),
      Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Assign(_) => {
        Ok(format!("{{ {} }}", self.xstmt(e, env)?))
      }
      Expr::Binary(b) if is_assign_op(&b.op) => Ok(format!("{{ {} }}", self.xstmt(e, env)?)),
      Expr::Try(t) => {
        let v = self.xexpr(&t.expr, env)?;
        let n = self.fresh("__q");
        let m = self.fresh("__t");
        // bind the executable value first, then branch on it
        let kind = self.c["try"].as_str().unwrap_or("Res").to_string();
        let (ok, err, errv) = match kind.as_str() {
          "Opt" => ("Opt::Some", "Opt::None", "Opt::None"),
          "Cf" => ("ControlFlow::Continue", "ControlFlow::Break(e)", "ControlFlow::Break(e)"),
          _ => ("Res::Ok", "Res::Err(e)", "Res::Err(e)"),
        };
        let r = self.ret_stmt(&format!("mk(Ghost({errv}))"));
        Ok(format!(
          "{{ let {m} = {v}; match {m} {{ {ok}({n}) => {n}, {err} => {{ {r} }} }} }}"
        ))
      }
      // A constructor around an effect: Ok({ ... }), Some(..)
      Expr::Call(c)
        if matches!(unparen(&c.func), Expr::Path(p)
          if p.path.segments.last().unwrap().ident.to_string().starts_with(char::is_uppercase))
          && c.args.len() == 1 =>
      {
        let v = self.xexpr_raw(&c.args[0], env)?;
        let t = self.fresh("__c");
        let f = self.path(match unparen(&c.func) {
          Expr::Path(p) => &p.path,
          _ => unreachable!(),
        }, env)?;
        Ok(format!("{{ let {t} = {v}; mk(Ghost({f}({t}))) }}"))
      }
      Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => {
        let v = self.xexpr_raw(&u.expr, env)?;
        let t = self.fresh("__n");
        Ok(format!("{{ let {t} = {v}; mk(Ghost(!{t})) }}"))
      }
      Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.xexpr_raw(&u.expr, env),
      Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
        let l = self.xexpr_raw(&b.left, env)?;
        let r = self.xexpr_raw(&b.right, env)?;
        Ok(format!("if {l} {{ {r} }} else {{ mk(Ghost(false)) }}"))
      }
      Expr::Struct(s) => {
        // fields with effects are evaluated first
        let mut s2 = s.clone();
        let mut pre = String::new();
        let mut env2 = env.clone();
        for f in &mut s2.fields {
          if self.effect(&f.expr, env) || has_try(&f.expr) {
            let v = self.xexpr(&f.expr, env)?;
            let src = format!("__f{}", self.n);
            self.n += 1;
            let t = self.bind(&mut env2, &src);
            pre += &format!("let {t} = {v};\n");
            f.expr = syn::parse_str(&src).unwrap();
            f.colon_token = Some(Default::default());
          }
        }
        let p = self.p(&Expr::Struct(s2), &env2)?;
        Ok(format!("{{ {pre} mk(Ghost({p})) }}"))
      }
      _ => {
        let (s, v) = self.xcall(e, env)?;
        let v = v.ok_or_else(|| format!("effect without value: {}", toks(e)))?;
        Ok(format!("{{ {s} {v} }}"))
      }
    }
  }

  /// A call with effects: (statements, value expression if any)
  fn xcall(&mut self, e: &Expr, env: &Env) -> R<(String, Option<String>)> {
    match e {
      Expr::Paren(p) => return self.xcall(&p.expr, env),
      Expr::MethodCall(m) => {
        let name = m.method.to_string();
        // ModularMutationVisitor::new(pi, |..| ..).visit_x(..)
        if let Some((pi, clos)) = visitor_new(&m.receiver) {
          let pi = self.p(pi, env)?;
          let mut args = vec![pi];
          for a in &m.args {
            args.push(self.p(a, env)?);
          }
          let it = format!("ModularMutationVisitor::ev_{name}({})", args.join(", "));
          let Expr::Closure(c) = clos else {
            return Err("mutation callback is not a closure".into());
          };
          let pats: Vec<Pat> = c.inputs.iter().cloned().collect();
          let tup: Pat = Pat::Tuple(syn::PatTuple {
            attrs: vec![],
            paren_token: Default::default(),
            elems: pats.into_iter().collect(),
          });
          let body = (*c.body).clone();
          let s = self.xfor_it(&tup, it, vec![], ForBody::Expr(&body), env)?;
          return Ok((s, None));
        }
        // contracted function with &mut parameters
        if let Some((muts, has_ret)) = self.mut_sig(&name, recv_hint(self, m).as_deref()) {
          let mut args: Vec<&Expr> = vec![&m.receiver];
          args.extend(m.args.iter());
          let mut ps = Vec::new();
          for a in &args {
            ps.push(self.p(a, env)?);
          }
          let call = format!("{}.{name}({})", ps[0], ps[1..].join(", "));
          return self.finish_mut_call(&call, &args, &muts, has_ret, env);
        }
        if let Some(h) = self.helper(e, env) {
          let args: Vec<Expr> = m.args.iter().cloned().collect();
          return self.inline(&h, &args, env);
        }
        if self.cfg.mutators.contains(&name) || name == "or_default" || name == "or_insert_with" {
          if name == "or_default" || name == "or_insert_with" {
            if let Some(lv) = self.lvalue(e, env)? {
              let v = self.read(&lv);
              let (r, u) = self.write(&lv, &v, env)?;
              return Ok((format!("{r} = mk(Ghost({u}));\n"), Some(format!("mk(Ghost({}))", self.read(&lv)))));
            }
          }
          if let Some(lv) = self.lvalue(&m.receiver, env)? {
            let mut ps = Vec::new();
            for a in &m.args {
              ps.push(self.p(a, env)?);
            }
            let cur = self.read(&lv);
            let t = self.fresh("__rv");
            let args = ps.join(", ");
            let new = format!("{cur}.{name}_upd({args})");
            let ret = format!("{cur}.{name}_ret({args})");
            let (r, u) = self.write(&lv, &new, env)?;
            // the value is only emitted when it is used
            let upd = format!("{r} = mk(Ghost({u}));\n");
            return Ok((format!("/*RV:{t}:{ret}*/{upd}"), Some(t)))
              .map(|(s, v)| (s, v));
          }
        }
        // effect inside the receiver or the arguments: bind it first
        if self.effect(&m.receiver, env) {
          let v = self.xexpr(&m.receiver, env)?;
          let src = format!("__h{}", self.n);
          self.n += 1;
          let mut env2 = env.clone();
          let t = self.bind(&mut env2, &src);
          let mut m2 = m.clone();
          *m2.receiver = syn::parse_str(&src).unwrap();
          let val = self.xexpr_raw(&Expr::MethodCall(m2), &env2)?;
          return Ok((format!("let {t} = {v};\n"), Some(val)));
        }
        Err(format!("effect in {}", short(e)))
      }
      Expr::Call(c) => {
        if is_events_call(&c.func) {
          let a = self.p(&c.args[0], env)?;
          let b = self.xexpr(&c.args[1], env)?;
          let t = self.fresh("__e");
          for w in &mut self.writes {
            w.insert("__ev".into());
          }
          return Ok((
            format!("let {t} = {b};\n__ev = mk(Ghost(__ev.push_upd(({a}, {t}))));\n"),
            None,
          ));
        }
        if let Some(n) = path_ident(&c.func) {
          if let Some(Bind::Clos(cl)) = env.vars.get(&n) {
            let cl = cl.clone();
            let args: Vec<Expr> = c.args.iter().cloned().collect();
            return self.inline(&cl, &args, env);
          }
        }
        if let Expr::Path(p) = unparen(&c.func) {
          let n = p.path.segments.last().unwrap().ident.to_string();
          if let Some((muts, has_ret)) = self.mut_sig(&n, Some(&path_recv(self, p))) {
            let args: Vec<&Expr> = c.args.iter().collect();
            let mut ps = Vec::new();
            for a in &args {
              ps.push(self.p(a, env)?);
            }
            let f = self.path(&p.path, env)?;
            let call = format!("{f}({})", ps.join(", "));
            return self.finish_mut_call(&call, &args, &muts, has_ret, env);
          }
        }
        if let Some(h) = self.helper(e, env) {
          let args: Vec<Expr> = c.args.iter().cloned().collect();
          return self.inline(&h, &args, env);
        }
        Err(format!("effect in {}", short(e)))
      }
      _ => Err(format!("effect in {}", short(e))),
    }
  }

  fn finish_mut_call(
    &mut self,
    call: &str,
    args: &[&Expr],
    muts: &[usize],
    has_ret: bool,
    env: &Env,
  ) -> R<(String, Option<String>)> {
    let o = self.fresh("__o");
    let mut s = format!("let {o} = mk(Ghost({call}));\n");
    let single = !has_ret && muts.len() == 1;
    for (k, i) in muts.iter().enumerate() {
      let Some(lv) = self.lvalue(args[*i], env)? else {
        return Err(format!("mutable argument {}", toks(args[*i])));
      };
      let v = if single { o.clone() } else { format!("{o}.{}", k + has_ret as usize) };
      let (r, u) = self.write(&lv, &v, env)?;
      s += &format!("{r} = mk(Ghost({u}));\n");
    }
    let v = if has_ret { Some(format!("mk(Ghost({o}.0))")) } else { None };
    Ok((s, v))
  }

  /// Inline a closure or an uncontracted helper at statement level.
  fn inline(&mut self, cl: &Clos, args: &[Expr], env: &Env) -> R<(String, Option<String>)> {
    if self.stack.len() > 8 || self.stack.contains(&cl.name) {
      return Err(format!("recursive inlining of {}", cl.name));
    }
    if cl.params.len() != args.len() {
      return Err(format!("arity of {}", cl.name));
    }
    let mut s = String::new();
    let mut ienv = cl.env.clone();
    if !cl.is_fn {
      ienv.scope = cl.name.clone();
      self.loop_no.insert(cl.name.clone(), 0);
    } else {
      self.inlined.push(cl.name.clone());
    }
    for (p, a) in cl.params.iter().zip(args) {
      let (pat, is_mut) = match p {
        Pat::Type(t) => (&*t.pat, matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some())),
        p => (p, false),
      };
      if is_mut {
        let Pat::Ident(id) = pat else { return Err("pattern for a &mut parameter".into()) };
        let Some(lv) = self.lvalue(a, env)? else {
          return Err(format!("mutable argument {}", toks(a)));
        };
        ienv.vars.insert(id.ident.to_string(), Bind::Alias(lv));
        continue;
      }
      // an immutable variable can be passed through
      if let (Pat::Ident(id), Some(n)) = (pat, path_ident(a)) {
        if id.mutability.is_none() {
          if let Some(b) = env.vars.get(&n) {
            ienv.vars.insert(id.ident.to_string(), b.clone());
            continue;
          }
        }
      }
      if let (Pat::Ident(id), Expr::Closure(c)) = (pat, unparen(a)) {
        ienv.vars.insert(
          id.ident.to_string(),
          Bind::Clos(Rc::new(Clos {
            name: id.ident.to_string(),
            params: c.inputs.iter().cloned().collect(),
            body: (*c.body).clone(),
            env: env.clone(),
            is_fn: false,
          })),
        );
        continue;
      }
      let v = self.xexpr(a, env)?;
      let pt = self.pat(pat, &mut ienv)?;
      s += &format!("let {pt} = {v};\n");
    }
    self.stack.push(cl.name.clone());
    let saved = self.loop_no.get(&cl.name).copied();
    if !cl.is_fn {
      self.loop_no.insert(cl.name.clone(), 0);
    }
    let body = match &cl.body {
      Expr::Block(b) => {
        let has_tail = matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if !is_unit_stmt(e));
        (self.xblock(&b.block.stmts, &ienv, has_tail)?, has_tail)
      }
      e => {
        if is_unit_stmt(e) || self.is_unit_call(e, &ienv) {
          (self.xstmt(e, &ienv)?, false)
        } else {
          (self.xexpr(e, &ienv)?, true)
        }
      }
    };
    if let Some(s) = saved {
      self.loop_no.insert(cl.name.clone(), s);
    }
    self.stack.pop();
    if body.1 {
      let t = self.fresh("__in");
      Ok((format!("{s}let {t} = {{ {} }};\n", body.0), Some(t)))
    } else {
      Ok((format!("{s}{{ {} }}\n", body.0), None))
    }
  }

  fn is_unit_call(&self, e: &Expr, env: &Env) -> bool {
    match e {
      Expr::MethodCall(m) => {
        is_visitor_new(&m.receiver)
          || matches!(self.mut_sig(&m.method.to_string(), recv_hint(self, m).as_deref()), Some((_, false)))
          || matches!(m.method.to_string().as_str(), "union_into_row" | "clear_row" | "union" | "push" | "extend" | "intersect")
      }
      Expr::Call(c) => match path_ident(&c.func) {
        Some(n) => match env.vars.get(&n) {
          Some(Bind::Clos(cl)) => match &cl.body {
            Expr::Block(b) => !matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if !is_unit_stmt(e)),
            e => self.is_unit_call(e, &cl.env),
          },
          _ => false,
        },
        None => false,
      },
      _ => false,
    }
  }

  // ---- branches --------------------------------------------------------------------
  fn xif(&mut self, i: &syn::ExprIf, env: &Env, value: bool) -> R<String> {
    let conds = crate::pure::conds(&i.cond);
    let els = match &i.else_branch {
      Some((_, e)) => match &**e {
        Expr::Block(b) => self.xblock(&b.block.stmts, env, value)?,
        Expr::If(i2) => self.xif(i2, env, value)?,
        o => self.xexpr(o, env)?,
      },
      None => String::new(),
    };
    self.xnest(&conds, &i.then_branch.stmts, &els, env, value)
  }

  fn xnest(
    &mut self,
    conds: &[&Expr],
    then: &[Stmt],
    els: &str,
    env: &Env,
    value: bool,
  ) -> R<String> {
    match conds.split_first() {
      None => self.xblock(then, env, value),
      Some((c, rest)) => match unparen_only(c) {
        Expr::Let(l) => {
          let s = self.xexpr(&l.expr, env)?;
          let mut e2 = env.clone();
          let p = self.pat(&l.pat, &mut e2)?;
          let inner = self.xnest(rest, then, els, &e2, value)?;
          Ok(format!("match {s} {{ {p} => {{ {inner} }}, _ => {{ {els} }} }}\n"))
        }
        c => {
          let s = self.xexpr(c, env)?;
          let inner = self.xnest(rest, then, els, env, value)?;
          Ok(format!("if {s} {{ {inner} }} else {{ {els} }}\n"))
        }
      },
    }
  }

  fn xmatch(&mut self, m: &syn::ExprMatch, env: &Env, value: bool) -> R<String> {
    let h = self.hoists.len();
    let s = self.xexpr_raw(&m.expr, env)?;
    let pre = self.take_hoists(h, true)?;
    let t = self.fresh("__m");
    let arms: Vec<&syn::Arm> = m.arms.iter().collect();
    let body = self.xarms(&t, &arms, env, value)?;
    Ok(format!("{{ {pre} let {t} = {s}; {body} }}"))
  }

  fn xarms(&mut self, t: &str, arms: &[&syn::Arm], env: &Env, value: bool) -> R<String> {
    if arms.iter().any(|a| crate::pure::lit_pat(&a.pat).is_some()) {
      if arms.iter().any(|a| a.guard.is_some()) {
        return Err("guard next to a literal pattern".into());
      }
      let mut s = String::new();
      let mut n = 0;
      for a in arms {
        let mut e2 = env.clone();
        match crate::pure::lit_pat(&a.pat) {
          Some(lit) => {
            let b = self.xarm_body(&a.body, &e2, value)?;
            s += &format!("if mk(Ghost({})) {{ {b} }} else {{ ", crate::pure::is_lit(t, &lit));
            n += 1;
          }
          None => {
            let p = self.pat(&a.pat, &mut e2)?;
            let b = self.xarm_body(&a.body, &e2, value)?;
            s += &format!("match {t} {{ {p} => {{ {b} }} }}");
          }
        }
      }
      return Ok(s + &"}".repeat(n));
    }
    let mut s = format!("match {t} {{\n");
    for (k, a) in arms.iter().enumerate() {
      let mut e2 = env.clone();
      let p = self.pat(&a.pat, &mut e2)?;
      match &a.guard {
        None => {
          let b = self.xarm_body(&a.body, &e2, value)?;
          s += &format!("{p} => {{ {b} }}\n");
        }
        Some((_, g)) => {
          let rest = self.xarms(t, &arms[k + 1..], env, value)?;
          let cs = crate::pure::conds(g);
          let body = match &*a.body {
            Expr::Block(b) => b.block.stmts.clone(),
            e => vec![Stmt::Expr(e.clone(), None)],
          };
          let inner = self.xnest(&cs, &body, &rest, &e2, value)?;
          s += &format!("{p} => {{ {inner} }}\n");
          if !matches!(a.pat, Pat::Wild(_)) {
            let rest = self.xarms(t, &arms[k + 1..], env, value)?;
            s += &format!("_ => {{ {rest} }}\n");
          }
          return Ok(s + "}");
        }
      }
    }
    Ok(s + "}")
  }

  fn xarm_body(&mut self, e: &Expr, env: &Env, value: bool) -> R<String> {
    match e {
      Expr::Block(b) => self.xblock(&b.block.stmts, env, value),
      e if value => self.xexpr(e, env),
      e => self.xstmt(e, env),
    }
  }

  // ---- loops -----------------------------------------------------------------------
  fn loop_key(&mut self, env: &Env) -> String {
    let n = self.loop_no.entry(env.scope.clone()).or_insert(0);
    let key = if env.scope.is_empty() { format!("{n}") } else { format!("{}.{n}", env.scope) };
    *n += 1;
    if !self.loops.contains(&key) {
      self.loops.push(key.clone());
    }
    key
  }

  fn xwhile(&mut self, w: &syn::ExprWhile, env: &Env) -> R<String> {
    let conds = crate::pure::conds(&w.cond);
    let stmts = w.body.stmts.clone();
    let conds: Vec<Expr> = conds.into_iter().cloned().collect();
    self.xloop(
      env,
      move |tr, env| {
        let cs: Vec<&Expr> = conds.iter().collect();
        tr.xnest(&cs, &stmts, "break;", env, false)
      },
      None,
    )
  }

  fn xloop(
    &mut self,
    env: &Env,
    body: impl Fn(&mut Self, &Env) -> R<String>,
    _x: Option<()>,
  ) -> R<String> {
    let key = self.loop_key(env);
    self.n += 1;
    let id = self.n;
    self.writes.push(BTreeSet::new());
    let before: HashSet<String> = self.used.clone();
    let b = body(self, env)?;
    let ws: Vec<String> =
      self.writes.pop().unwrap().into_iter().filter(|w| before.contains(w)).collect();
    let mut snap = HashMap::new();
    let mut s = String::new();
    for w in &ws {
      s += &format!("let __s{id}_{w} = mk(Ghost({w}));\n");
      snap.insert(w.clone(), format!("__s{id}_{w}"));
    }
    let t = &self.c["loops"][&key];
    let g = |k: &str| t[k].as_str().unwrap_or("").to_string();
    let inv = self.tpl_loop(&g("inv"), None, env, &snap, &[]);
    let ens = self.tpl_loop(&g("ens"), None, env, &snap, &[]);
    let begin = self.tpl_loop(&g("begin"), None, env, &snap, &[]);
    let end = self.tpl_loop(&g("end"), None, env, &snap, &[]);
    let after = self.tpl_loop(&g("after"), None, env, &snap, &[]);
    let before = self.tpl_loop(&g("before"), None, env, &snap, &[]);
    let invb = self.tpl_loop(&g("invb"), None, env, &snap, &[]);
    let attr = if ens.trim().is_empty() && invb.trim().is_empty() { "" } else { "#[verifier::allow_complex_invariants]\n" };
    let ens = if ens.trim().is_empty() { String::new() } else { format!("ensures {ens}\n") };
    let invb = if invb.trim().is_empty() { String::new() } else { format!("invariant_except_break {invb}\n") };
    let beg = begin_snaps(t, &ws, id);
    let iso = !g("isolate").trim().is_empty();
    let (lattr, bc) = if iso { ("#[verifier::loop_isolation(true)]\n", "/*BROADCAST*/\n") } else { ("", "") };
    let beg = format!("{bc}{beg}");
    s += &format!(
      "proof {{ {before} }}\n{lattr}{attr}loop\n{invb} invariant true, {inv}\n{ens}{{\n{beg}proof {{ {begin} }}\n{b}\nproof {{ {end} }}\n}}\nproof {{ {after} }}\n"
    );
    Ok(s)
  }

  fn xfor(&mut self, pat: &Pat, it: &Expr, body: ForBody, env: &Env) -> R<String> {
    // `for (i, x) in e.enumerate()` is a loop over `e` that counts
    if let (Expr::MethodCall(m), Pat::Tuple(t)) = (unparen(it), pat) {
      if m.method == "enumerate" && t.elems.len() == 2 {
        self.counter = Some(t.elems[0].clone());
        return self.xfor(&t.elems[1], &m.receiver, body, env);
      }
    }
    let counter = self.counter.take();
    // elements borrowed mutably: loop over indices and write through them
    if let Some((parts, lvs)) = self.mut_iter(it, env)? {
      let it = parts;
      self.counter = counter;
      return self.xfor_it(pat, it, lvs, body, env);
    }
    if self.effect(it, env) {
      let v = self.xexpr(it, env)?;
      let t = self.fresh("__src");
      self.counter = counter;
      let s = self.xfor_it(pat, t.clone(), vec![], body, env)?;
      return Ok(format!("let {t} = {v};\n{s}"));
    }
    let h = self.hoists.len();
    let it = self.p(it, env)?;
    let pre = self.take_hoists(h, true)?;
    self.counter = counter;
    Ok(format!("{pre}{}", self.xfor_it(pat, it, vec![], body, env)?))
  }

  /// `&mut v`, `v.iter_mut()`, `a.zip(&mut v)`, `zip(a, &mut v)`:
  /// iterator over indices, and for each tuple position the vector behind it
  fn mut_iter(&mut self, e: &Expr, env: &Env) -> R<Option<(String, Vec<(usize, Lv)>)>> {
    let whole = |tr: &mut Self, e: &Expr| -> R<Option<Lv>> {
      match e {
        Expr::Reference(r) if r.mutability.is_some() => tr.lvalue(&r.expr, env),
        Expr::MethodCall(m) if m.method == "iter_mut" => tr.lvalue(&m.receiver, env),
        _ => Ok(None),
      }
    };
    if let Some(lv) = whole(self, e)? {
      return Ok(Some((format!("{}.indices()", self.read(&lv)), vec![(usize::MAX, lv)])));
    }
    let (a, b) = match e {
      Expr::MethodCall(m) if m.method == "zip" => (&*m.receiver, &m.args[0]),
      Expr::Call(c)
        if c.args.len() == 2
          && matches!(unparen(&c.func), Expr::Path(p) if p.path.segments.last().unwrap().ident == "zip") =>
      {
        (&c.args[0], &c.args[1])
      }
      _ => return Ok(None),
    };
    let la = whole(self, a)?;
    let lb = whole(self, b)?;
    if la.is_none() && lb.is_none() {
      return Ok(None);
    }
    let mut lvs = Vec::new();
    let sa = match la {
      Some(lv) => {
        let s = format!("{}.indices()", self.read(&lv));
        lvs.push((0, lv));
        s
      }
      None => format!("{}.into_lst()", self.p(a, env)?),
    };
    let sb = match lb {
      Some(lv) => {
        let s = format!("{}.indices()", self.read(&lv));
        lvs.push((1, lv));
        s
      }
      None => self.p(b, env)?,
    };
    Ok(Some((format!("{sa}.zip({sb})"), lvs)))
  }

  fn xfor_it(
    &mut self,
    pat: &Pat,
    it: String,
    lvs: Vec<(usize, Lv)>,
    body: ForBody,
    env: &Env,
  ) -> R<String> {
    let key = self.loop_key(env);
    self.n += 1;
    let id = self.n;
    let (itv, iv) = (format!("__it{id}"), format!("__i{id}"));
    let mut benv = env.clone();
    let pat = match pat {
      Pat::Type(t) => &*t.pat,
      p => p,
    };
    let count = match self.counter.take() {
      Some(c) => format!("let {} = mk(Ghost({iv}));\n", self.pat(&c, &mut benv)?),
      None => String::new(),
    };
    let mut frame = Vec::new();
    let p = if lvs.is_empty() {
      self.pat(pat, &mut benv)?
    } else {
      let elems: Vec<&Pat> = match pat {
        Pat::Tuple(t) => t.elems.iter().collect(),
        p => vec![p],
      };
      let mut out = Vec::new();
      for (k, p) in elems.iter().enumerate() {
        match lvs.iter().find(|(i, _)| *i == k || *i == usize::MAX) {
          Some((_, lv)) => {
            let Pat::Ident(idn) = p else { return Err("pattern over a mutable element".into()) };
            let ix = self.fresh("__ix");
            let mut l2 = lv.clone();
            l2.path.push(Acc::Index(ix.clone()));
            benv.vars.insert(idn.ident.to_string(), Bind::Alias(l2));
            frame.push((lv.clone(), ix.clone()));
            out.push(ix);
          }
          None => out.push(self.pat(p, &mut benv)?),
        }
      }
      if out.len() == 1 && !matches!(pat, Pat::Tuple(_)) { out[0].clone() } else { format!("({})", out.join(", ")) }
    };
    self.writes.push(BTreeSet::new());
    let before: HashSet<String> = self.used.clone();
    let b = match body {
      ForBody::Block(s) => self.xblock(s, &benv, false)?,
      ForBody::Expr(Expr::Block(b)) => self.xblock(&b.block.stmts, &benv, false)?,
      ForBody::Expr(e) => self.xstmt(e, &benv)?,
    };
    let ws: Vec<String> = self
      .writes
      .pop()
      .unwrap()
      .into_iter()
      .filter(|w| before.contains(w) || w == "__ev")
      .collect();
    let mut s = format!("let {itv} = mk(Ghost(({it}).into_lst()));\nlet mut {iv} = mk(Ghost(0int));\n");
    let mut snap = HashMap::new();
    let mut auto = String::new();
    for w in &ws {
      s += &format!("let __s{id}_{w} = mk(Ghost({w}));\n");
      snap.insert(w.clone(), format!("__s{id}_{w}"));
    }
    // an element reached through an alias: the other elements are unchanged
    let mut seen = BTreeSet::new();
    for b in benv.vars.values() {
      if let Bind::Alias(lv) = b {
        if !ws.contains(&lv.root) {
          continue;
        }
        if let Some(Acc::Index(ix)) = lv.path.last() {
          let base = &lv.path[..lv.path.len() - 1];
          let cur = self.read_as(&lv.root, base);
          let old = self.read_as(&snap[&lv.root], base);
          if !seen.insert((cur.clone(), ix.clone())) {
            continue;
          }
          if frame.iter().any(|(_, i)| i == ix) {
            auto += &format!("{cur}.s.len() == {old}.s.len(),\n forall|__j: int| {iv} <= __j < {cur}.s.len() ==> #[trigger] {cur}.s[__j] == {old}.s[__j],\n");
          } else if !before.contains(ix) || env.vars.values().any(|v| matches!(v, Bind::Alias(l) if matches!(l.path.last(), Some(Acc::Index(i)) if i == ix))) {
            auto += &format!("{cur}.s.len() == {old}.s.len(),\n forall|__j: int| 0 <= __j < {cur}.s.len() && __j != {ix} ==> #[trigger] {cur}.s[__j] == {old}.s[__j],\n");
          }
        }
      }
    }
    let t = &self.c["loops"][&key];
    let g = |k: &str| t[k].as_str().unwrap_or("").to_string();
    let ex = [("$I", iv.clone()), ("$IT", itv.clone())];
    let mut extra: Vec<(&str, String)> = vec![
      ("SEEN(", format!("{itv}.took({iv}, ")),
      ("$IT", itv.clone()),
      ("$I", iv.clone()),
    ];
    let _ = ex;
    for (k, (_, ix)) in frame.iter().enumerate() {
      extra.push((["$X0", "$X1"][k], ix.clone()));
    }
    let inv = self.tpl_loop(&g("inv"), None, env, &snap, &extra);
    let mut begin = self.tpl_loop(&g("begin"), Some(env), &benv, &snap, &extra);
    for (_, ix) in frame.iter() {
      begin = format!("assert({ix} == {iv} - 1); {begin}");
    }
    let end = self.tpl_loop(&g("end"), Some(env), &benv, &snap, &extra);
    let after = self.tpl_loop(&g("after"), None, env, &snap, &extra);
    let pre = self.tpl_loop(&g("before"), None, env, &snap, &extra);
    let beg = begin_snaps(t, &ws, id);
    let iso = !g("isolate").trim().is_empty();
    let (lattr, bc) = if iso { ("#[verifier::loop_isolation(true)]\n", "/*BROADCAST*/\n") } else { ("", "") };
    let invb = self.tpl_loop(&g("invb"), None, env, &snap, &extra);
    let ens = self.tpl_loop(&g("ens"), None, env, &snap, &extra);
    let attr = if ens.trim().is_empty() && invb.trim().is_empty() { "" } else { "#[verifier::allow_complex_invariants]\n" };
    let ens = if ens.trim().is_empty() { String::new() } else { format!(" ensures {ens}\n") };
    let invb = if invb.trim().is_empty() { String::new() } else { format!(" invariant_except_break {invb}\n") };
    s += &format!(
      "proof {{ {pre} }}\n{lattr}{attr}while mk(Ghost({iv} < {itv}.s.len()))\n{invb} invariant 0 <= {iv} <= {itv}.s.len(),\n {auto}{inv}\n{ens} decreases {itv}.s.len() - {iv}\n{{\n{bc}proof {{ took_step({itv}, {iv}); }}\nlet {p} = mk(Ghost({itv}.s[{iv}]));\n{count}{iv} = mk(Ghost({iv} + 1));\n{beg}proof {{ {begin} }}\n{b}\nproof {{ {end} }}\n}}\nproof {{ if {iv} >= {itv}.s.len() {{ took_done({itv}, {iv}); }} {after} }}\n"
    );
    Ok(s)
  }
}

pub enum ForBody<'b> {
  Block(&'b [Stmt]),
  Expr(&'b Expr),
}

fn unparen_only(e: &Expr) -> &Expr {
  match e {
    Expr::Paren(p) => unparen_only(&p.expr),
    e => e,
  }
}

pub fn short<T: ToTokens>(e: &T) -> String {
  let s: String = toks(e).split_whitespace().collect::<Vec<_>>().join(" ");
  s.chars().take(80).collect()
}

fn is_unit_stmt(e: &Expr) -> bool {
  match e {
    Expr::ForLoop(_) | Expr::While(_) | Expr::Assign(_) => true,
    Expr::If(i) => i.else_branch.is_none(),
    Expr::Binary(b) => is_assign_op(&b.op),
    Expr::Macro(m) => is_log(&m.mac),
    _ => false,
  }
}

fn fn_effect(tr: &Tr, c: &Clos) -> bool {
  // statements with effects make a helper an inlined one
  match &c.body {
    Expr::Block(b) => b.block.stmts.iter().any(|s| match s {
      Stmt::Expr(e, _) => tr.effect_shallow(e, &c.env),
      Stmt::Local(l) => l.init.as_ref().map(|i| tr.effect_shallow(&i.expr, &c.env)).unwrap_or(false),
      _ => false,
    }),
    e => tr.effect_shallow(e, &c.env),
  }
}

impl<'a> Tr<'a> {
  /// effect without following helpers (no recursion)
  pub fn effect_shallow(&self, e: &Expr, env: &Env) -> bool {
    struct V<'b, 'a> {
      tr: &'b Tr<'a>,
      env: &'b Env,
      hit: bool,
    }
    impl<'b, 'a, 'ast> syn::visit::Visit<'ast> for V<'b, 'a> {
      fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
          Expr::Assign(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.hit = true,
          Expr::Binary(b) if is_assign_op(&b.op) => self.hit = true,
          Expr::Closure(_) => return,
          Expr::Call(c) if is_events_call(&c.func) => self.hit = true,
          Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if is_visitor_new(&m.receiver)
              || self.tr.mut_sig(&n, recv_hint(self.tr, m).as_deref()).is_some()
              || (self.tr.cfg.mutators.contains(&n) && self.tr.is_lv(&m.receiver, self.env))
            {
              self.hit = true;
            }
          }
          _ => {}
        }
        syn::visit::visit_expr(self, e);
      }
    }
    let mut v = V { tr: self, env, hit: false };
    syn::visit::Visit::visit_expr(&mut v, e);
    v.hit
  }
}

/// The type a called path belongs to, "" for a free function.
pub fn path_recv(tr: &Tr, p: &syn::ExprPath) -> String {
  let n = p.path.segments.len();
  if n < 2 {
    return String::new();
  }
  match p.path.segments[n - 2].ident.to_string().as_str() {
    "Self" => tr.self_ty.clone().unwrap_or_default(),
    s if s.starts_with(char::is_uppercase) => tr.ty_name(s).unwrap_or(s.into()),
    _ => String::new(),
  }
}

pub fn recv_hint(tr: &Tr, m: &syn::ExprMethodCall) -> Option<String> {
  if path_ident(&m.receiver).as_deref() == Some("self") {
    return tr.self_ty.clone();
  }
  // `self.field.m(..)` and locals: a contract may say what type a receiver has
  let r = toks(unparen(&m.receiver)).replace(' ', "");
  tr.c["recv"][&r].as_str().map(|s| s.to_string())
}

pub fn is_log(m: &syn::Macro) -> bool {
  let n = m.path.segments.last().unwrap().ident.to_string();
  matches!(
    n.as_str(),
    "debug" | "trace" | "info" | "warn" | "block_timer" | "println" | "eprintln" | "print"
      | "assert" | "assert_eq" | "debug_assert" | "debug_assert_eq" | "write" | "writeln"
  )
}

pub fn is_panic(m: &syn::Macro) -> bool {
  let n = m.path.segments.last().unwrap().ident.to_string();
  matches!(n.as_str(), "unreachable" | "panic" | "todo" | "unimplemented")
}

pub fn is_assign_op(op: &syn::BinOp) -> bool {
  use syn::BinOp::*;
  matches!(
    op,
    AddAssign(_) | SubAssign(_) | MulAssign(_) | BitOrAssign(_) | BitAndAssign(_)
      | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_)
  )
}

pub fn assign_op(op: &syn::BinOp, cur: &str, v: &str) -> Option<String> {
  use syn::BinOp::*;
  Some(match op {
    AddAssign(_) => format!("({cur} + {v})"),
    SubAssign(_) => format!("({cur} - {v})"),
    BitOrAssign(_) => format!("({cur} || {v})"),
    BitAndAssign(_) => format!("({cur} && {v})"),
    _ => return None,
  })
}

fn is_events_call(f: &Expr) -> bool {
  matches!(unparen(f), Expr::Field(fl)
    if toks(&fl.member) == "f" && path_ident(&fl.base).as_deref() == Some("self"))
}

fn visitor_new(e: &Expr) -> Option<(&Expr, &Expr)> {
  match unparen(e) {
    Expr::Call(c) => match unparen(&c.func) {
      Expr::Path(p) => {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.ends_with(&["ModularMutationVisitor".to_string(), "new".to_string()]) && c.args.len() == 2 {
          Some((&c.args[0], &c.args[1]))
        } else {
          None
        }
      }
      _ => None,
    },
    _ => None,
  }
}

pub fn is_visitor_new(e: &Expr) -> bool {
  visitor_new(e).is_some()
}

pub fn has_try(e: &Expr) -> bool {
  struct V(bool);
  impl<'ast> syn::visit::Visit<'ast> for V {
    fn visit_expr(&mut self, e: &'ast Expr) {
      match e {
        Expr::Try(_) => self.0 = true,
        Expr::Closure(_) => return,
        _ => syn::visit::visit_expr(self, e),
      }
    }
  }
  let mut v = V(false);
  syn::visit::Visit::visit_expr(&mut v, e);
  v.0
}

pub fn new_names(p: &Pat) -> Vec<String> {
  struct V(Vec<String>);
  impl<'ast> syn::visit::Visit<'ast> for V {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
      let n = p.ident.to_string();
      if !n.starts_with(char::is_uppercase) && !self.0.contains(&n) {
        self.0.push(n);
      }
      syn::visit::visit_pat_ident(self, p);
    }
  }
  let mut v = V(vec![]);
  syn::visit::Visit::visit_pat(&mut v, p);
  v.0
}

/// Values of mutating calls: `/*RV:name:expr*/` is expanded only when `name` is used.
/// The clauses (or statements) of an annotation: each ends at the end of a line, outside brackets.
fn clauses(text: &str) -> Vec<String> {
  let mut out: Vec<String> = vec![];
  let mut cur = String::new();
  for l in text.lines() {
    if !cur.is_empty() {
      cur.push('\n');
    }
    cur += l;
    let depth: i32 = cur.chars().map(|c| match c { '(' | '[' | '{' => 1, ')' | ']' | '}' => -1, _ => 0 }).sum();
    if depth == 0 && (l.trim_end().ends_with(',') || l.trim_end().ends_with(';')) {
      out.push(std::mem::take(&mut cur));
    }
  }
  if !cur.trim().is_empty() {
    out.push(cur);
  }
  out
}

fn expand_rv(text: &str) -> String {
  let mut out = String::new();
  let mut rest = text;
  while let Some(i) = rest.find("/*RV:") {
    out += &rest[..i];
    let after = &rest[i + 5..];
    let end = after.find("*/").unwrap();
    let (name, expr) = after[..end].split_once(':').unwrap();
    let tail = &after[end + 2..];
    let used = uses(tail, name);
    if used {
      out += &format!("let {name} = mk(Ghost({expr}));\n");
    }
    rest = tail;
  }
  out + rest
}

fn uses(s: &str, name: &str) -> bool {
  let mut from = 0;
  while let Some(i) = s[from..].find(name) {
    let e = from + i + name.len();
    if !s[e..].starts_with(|c: char| c.is_alphanumeric() || c == '_') {
      return true;
    }
    from = e;
  }
  false
}

pub fn emit_fn(cfg: &Cfg, idx: usize, f: &Func) -> R<Out> {
  let mut c = cfg.contracts[idx].clone();
  let params = c["params"].as_array().unwrap().clone();
  let inputs: Vec<&syn::FnArg> = f.sig.inputs.iter().collect();
  let statics: Vec<usize> = (0..params.len()).filter(|i| params[*i]["static"].is_string()).collect();
  if inputs.len() + statics.len() != params.len() || statics.iter().any(|i| *i < inputs.len()) {
    return Err(format!("lost anchor: {} takes {} parameters", f.key, inputs.len()));
  }
  let mut used: HashSet<String> = HashSet::new();
  for p in &params {
    used.insert(p["name"].as_str().unwrap().into());
    if let Some(m) = p["mut"].as_str() {
      used.insert(m.into());
    }
  }
  if let Some(n) = c["ret"]["name"].as_str() {
    used.insert(n.into());
  }
  used.insert("__ev".into());
  for k in &cfg.contracts {
    if let Some(n) = k["key"].as_str() {
      used.insert(n.to_string());
    }
  }
  let mut env = Env { vars: HashMap::new(), frozen: Rc::new(HashSet::new()), scope: String::new() };
  let mut pro = String::new();
  {
    let cref = c.clone();
    let mut tr = mk_tr(cfg, &cref, f);
    tr.used = used;
    for (i, (a, p)) in inputs.iter().zip(&params).enumerate() {
      let cname = p["name"].as_str().unwrap();
      let src = match a {
        syn::FnArg::Receiver(_) => "self".to_string(),
        syn::FnArg::Typed(t) => match &*t.pat {
          Pat::Ident(i) => i.ident.to_string(),
          pt => {
            // a parameter pattern
            let pp = tr.pat(pt, &mut env)?;
            pro += &format!("let {pp} = {cname};\n");
            continue;
          }
        },
      };
      if p["mut"].is_string() {
        let v = tr.fresh(if src == "self" { "slf" } else { &src });
        pro += &format!("let mut {v} = {cname};\n");
        env.vars.insert(src, Bind::Plain(v.clone()));
        c["params"][i]["var"] = Value::String(v);
      } else if cname == src {
        env.vars.insert(src, Bind::Plain(cname.into()));
      } else {
        // `mut x: T` parameters and renamed parameters
        let v = tr.fresh(if src == "self" { "slf" } else { &src });
        pro += &format!("let mut {v} = {cname};\n");
        env.vars.insert(src, Bind::Plain(v));
      }
    }
    for i in statics {
      let p = &params[i];
      let v = tr.fresh(p["name"].as_str().unwrap());
      pro += &format!("let mut {v} = {};\n", p["name"].as_str().unwrap());
      env.vars.insert(p["static"].as_str().unwrap().into(), Bind::Plain(v.clone()));
      c["params"][i]["var"] = Value::String(v);
    }
    used = tr.used;
  }
  let c2 = c.clone();
  let mut tr = mk_tr(cfg, &c2, f);
  tr.used = used;
  let events = c["events"].as_bool().unwrap_or(false);
  let has_ret = c["ret"].is_object() && !events;
  let mut block = f.block.clone();
  crate::stream::passes(&mut block, &c["passes"]);
  if let Some(st) = c["stream"].as_str() {
    for d in crate::stream::rewrite(&mut block, st, &|n| cfg.mutators.contains(n) || cfg.by_name.contains_key(n)) {
      tr.drop_note(&d);
    }
  }
  let body = tr.xblock(&block.stmts, &env, has_ret)?;
  let (fin, o) = tr.epilogue();
  let mut text = String::new();
  if events {
    let n = c["ret"]["name"].as_str().unwrap();
    text += &format!("{pro}let mut __ev = mk(Ghost(Lst::new()));\n{{ {body} }}\nlet {n} = __ev;\n{fin}{o}\n");
  } else if has_ret {
    let n = c["ret"]["name"].as_str().unwrap();
    text += &format!("{pro}let {n} = {{ {body} }};\n{fin}{o}\n");
  } else {
    text += &format!("{pro}{{ {body} }}\n{fin}{o}\n");
  }
  Ok(Out {
    text: expand_rv(&text),
    loops: tr.loops,
    dropped: tr.dropped,
    weak: tr.weak,
    inlined: tr.inlined,
  })
}

fn mk_tr<'a>(cfg: &'a Cfg, c: &'a Value, f: &Func) -> Tr<'a> {
  Tr {
    cfg,
    c,
    self_ty: f.self_ty.clone(),
    file: f.file.clone(),
    used: HashSet::new(),
    n: 0,
    writes: vec![],
    loops: vec![],
    loop_no: HashMap::new(),
    dropped: vec![],
    counter: None,
    weak: vec![],
    inlined: vec![],
    hoists: vec![],
    stack: vec![],
  }
}

/// Does the expression mention a local variable of the function?
fn mentions(e: &Expr, env: &Env) -> bool {
  struct V<'a>(Vec<String>, &'a Env, bool);
  impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
    fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) {
      self.0.push(i.ident.to_string());
    }
    fn visit_expr_path(&mut self, p: &'b syn::ExprPath) {
      if let Some(i) = p.path.get_ident() {
        let n = i.to_string();
        if !self.0.contains(&n) && self.1.vars.contains_key(&n) {
          self.2 = true;
        }
      }
    }
    fn visit_expr_return(&mut self, _: &'b syn::ExprReturn) {
      self.2 = true;
    }
  }
  let mut v = V(vec![], env, false);
  syn::visit::Visit::visit_expr(&mut v, e);
  v.2
}

/// The first call in an expression statement that could have an effect.
fn unknown_effect(e: &Expr) -> Option<String> {
  struct V(Option<String>);
  impl<'a> syn::visit::Visit<'a> for V {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
      self.0.get_or_insert(m.method.to_string());
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
      // `drop(x)` and constructors have none
      let n = match unparen(&c.func) {
        Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        x => toks(x),
      };
      if n != "drop" && !n.starts_with(char::is_uppercase) {
        self.0.get_or_insert(n);
      }
      syn::visit::visit_expr_call(self, c);
    }
  }
  let mut v = V(None);
  syn::visit::Visit::visit_expr(&mut v, e);
  v.0
}

/// Values at the start of an iteration, where the loop's contract mentions `BEG(..)`.
fn begin_snaps(t: &serde_json::Value, ws: &[String], id: usize) -> String {
  if ["begin", "end"].iter().all(|k| !t[k].as_str().unwrap_or("").contains("BEG(")) {
    return String::new();
  }
  ws.iter().map(|w| format!("let __b{id}_{w} = mk(Ghost({w}));\n")).collect()
}
