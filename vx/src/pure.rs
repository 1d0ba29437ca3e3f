//! Expression level: Rust expressions as specification expressions.
use std::rc::Rc;

use syn::{Expr, Lit, Pat, Stmt};

use crate::emit::*;

#[derive(Clone)]
pub enum End<'s> {
  Value,
  Str(String),
  Rest(&'s [Stmt], Env, Rc<K<'s>>),
}

#[derive(Clone)]
pub struct K<'s> {
  pub end: End<'s>,
  pub ret: bool,
  pub brk: Option<String>,
  pub cont: Option<String>,
  pub q: String,
}

pub fn conds(e: &Expr) -> Vec<&Expr> {
  fn has_let(e: &Expr) -> bool {
    match e {
      Expr::Let(_) => true,
      Expr::Paren(p) => has_let(&p.expr),
      Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => has_let(&b.left) || has_let(&b.right),
      _ => false,
    }
  }
  match e {
    Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) && has_let(e) => {
      let mut v = conds(&b.left);
      v.extend(conds(&b.right));
      v
    }
    e => vec![e],
  }
}

/// The literals (strings, integers) of a pattern made of them.
pub fn lit_pat(p: &Pat) -> Option<Vec<String>> {
  match p {
    Pat::Lit(l) => match &l.lit {
      Lit::Str(s) => Some(vec![lit_str(&s.value())]),
      Lit::Int(i) => Some(vec![format!("{}int", i.base10_digits())]),
      _ => None,
    },
    Pat::Paren(p) => lit_pat(&p.pat),
    Pat::Or(o) => {
      let mut v = Vec::new();
      for p in &o.cases {
        v.extend(lit_pat(p)?);
      }
      Some(v)
    }
    _ => None,
  }
}

pub fn is_lit(t: &str, lits: &[String]) -> String {
  lits.iter().map(|l| format!("({t} == {l})")).collect::<Vec<_>>().join(" || ")
}

/// String literals are symbolic: equal exactly when the texts are equal.
pub fn lit_str(s: &str) -> String {
  let mut h: u64 = 1469598103934665603;
  for b in s.bytes() {
    h = (h ^ b as u64).wrapping_mul(1099511628211);
  }
  format!("(Str {{ id: {}int }})", h >> 1)
}

const IDENT: &[&str] = &[
  "clone", "borrow", "as_ref", "as_mut", "by_ref", "into_inner", "to_owned", "deref", "into",
  "borrow_mut", "as_deref", "as_slice",
];

const METHODISH: &[&str] = &["clone", "into", "as_ref", "borrow", "to_owned", "from", "iter", "to_string"];
const CLOSED: &[&str] = &[
  "map", "filter", "filter_map", "flat_map", "any", "all", "find", "find_map", "map_err", "and_then", "take_while",
  "skip_while", "unwrap_or_else", "reduce", "fold", "position", "max_by_key", "min_by_key",
];

impl<'a> Tr<'a> {
  // ---- types -----------------------------------------------------------------------
  /// None when the type is `_` or not representable (inference decides).
  pub fn ty_name(&self, n: &str) -> Option<String> {
    self.c["types"][n].as_str().map(|s| s.to_string()).or_else(|| self.cfg.types.get(n).cloned())
  }

  pub fn ty(&self, t: &syn::Type) -> Option<String> {
    match t {
      syn::Type::Reference(r) => self.ty(&r.elem),
      syn::Type::Paren(p) => self.ty(&p.elem),
      syn::Type::Slice(s) => Some(format!("Lst<{}>", self.ty(&s.elem).unwrap_or("_".into()))),
      syn::Type::Array(s) => Some(format!("Lst<{}>", self.ty(&s.elem).unwrap_or("_".into()))),
      syn::Type::Tuple(t) => {
        let v: Vec<String> = t.elems.iter().map(|t| self.ty(t).unwrap_or("_".into())).collect();
        Some(format!("({})", v.join(", ")))
      }
      syn::Type::Path(p) => {
        let seg = p.path.segments.last()?;
        let name = seg.ident.to_string();
        let args: Vec<String> = match &seg.arguments {
          syn::PathArguments::AngleBracketed(a) => a
            .args
            .iter()
            .filter_map(|a| match a {
              syn::GenericArgument::Type(t) => Some(self.ty(t).unwrap_or("_".into())),
              _ => None,
            })
            .collect(),
          _ => vec![],
        };
        let key = self.ty_name(&name);
        match name.as_str() {
          "Rc" | "RefCell" | "Box" | "Arc" | "Cow" => return args.into_iter().next(),
          "IndexVec" => return Some(format!("Lst<{}>", args.get(1)?)),
          "SmallVec" => return args.into_iter().next(),
          "Self" => return self.self_ty.clone(),
          _ => {}
        }
        match key {
          Some(k) if k.ends_with('!') => Some(k.trim_end_matches('!').to_string()),
          Some(k) => Some(if args.is_empty() { if k == "Lst" || k == "HSet" || k == "Opt" { format!("{k}<_>") } else { k } } else { format!("{k}<{}>", args.join(", ")) }),
          None => Some(if args.is_empty() { name } else { format!("{name}<{}>", args.join(", ")) }),
        }
      }
      _ => None,
    }
  }

  // ---- paths -----------------------------------------------------------------------
  pub fn path(&mut self, p: &syn::Path, env: &Env) -> R<String> {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if segs.len() == 1 {
      let n = &segs[0];
      match env.vars.get(n) {
        Some(Bind::Plain(s)) => return Ok(s.clone()),
        Some(Bind::Alias(lv)) => return Ok(self.read(lv)),
        Some(Bind::Clos(c)) => {
          let c = c.clone();
          return self.clos_value(&c, env);
        }
        None => {}
      }
      if let Some(c) = self.cfg.consts.get(n) {
        return Ok(c.clone());
      }
      if let Some(t) = self.c["types"][n.as_str()].as_str() {
        return Ok(t.to_string());
      }
      return Ok(match n.as_str() {
        "Some" => "Opt::Some".into(),
        "None" => "Opt::None".into(),
        "Ok" => "Res::Ok".into(),
        "Err" => "Res::Err".into(),
        _ => n.clone(),
      });
    }
    let last = segs.last().unwrap().clone();
    let prev_seg = &p.segments[segs.len() - 2];
    let prev = segs[segs.len() - 2].clone();
    let key = format!("{prev}::{last}");
    if let Some(c) = self.cfg.consts.get(&key) {
      return Ok(c.clone());
    }
    if prev.starts_with(char::is_uppercase) {
      let t = if prev == "Self" {
        self.self_ty.clone().unwrap_or(prev)
      } else {
        match self.ty_name(&prev) {
          Some(k) => k.trim_end_matches('!').to_string(),
          None => prev,
        }
      };
      let t = t.replace('<', "::<");
      let t = match &prev_seg.arguments {
        syn::PathArguments::AngleBracketed(_) if !t.contains('<') => {
          let ty = syn::Type::Path(syn::TypePath {
            qself: None,
            path: syn::Path {
              leading_colon: None,
              segments: std::iter::once(prev_seg.clone()).collect(),
            },
          });
          self.ty(&ty).unwrap_or(t).replace('<', "::<")
        }
        _ => t,
      };
      return Ok(format!("{t}::{last}"));
    }
    if let Some(c) = self.cfg.consts.get(&last) {
      return Ok(c.clone());
    }
    Ok(last)
  }

  fn clos_value(&mut self, c: &Rc<Clos>, _env: &Env) -> R<String> {
    self.closure(&c.params.clone(), &c.body.clone(), &c.env)
  }

  pub fn closure(&mut self, params: &[Pat], body: &Expr, env: &Env) -> R<String> {
    self.closure_pin(params, body, env, &[], &[])
  }

  /// `pins[i]` is a call prefix that fixes the type of parameter i (Verus closures do not
  /// get parameter types from the context); `anns[i]` is its type.
  pub fn closure_pin(&mut self, params: &[Pat], body: &Expr, env: &Env, pins: &[String], anns: &[String]) -> R<String> {
    let mut e2 = env.freeze(self);
    let mut ps = Vec::new();
    let mut pre = String::new();
    for (i, p) in params.iter().enumerate() {
      let (pat, ty) = match p {
        Pat::Type(t) => (&*t.pat, self.ty(&t.ty)),
        p => (p, None),
      };
      let pin = pins.get(i).filter(|p| !p.is_empty());
      let ann = match (anns.get(i), ty) {
        (Some(t), _) => format!(": {t}"),
        (None, Some(t)) if !t.contains('_') && pin.is_none() => format!(": {t}"),
        _ => String::new(),
      };
      match strip_ref(pat) {
        Pat::Ident(i) if !i.ident.to_string().starts_with(char::is_uppercase) => {
          let n = self.bind(&mut e2, &i.ident.to_string());
          ps.push(format!("{n}{ann}"));
          if let Some(pin) = pin {
            pre += &format!("let {n} = {pin}{n}); ");
          }
        }
        Pat::Wild(_) => {
          let n = self.fresh("__w");
          ps.push(format!("{n}{ann}"));
        }
        pat => {
          let n = self.fresh("__p");
          let pt = self.pat(pat, &mut e2)?;
          ps.push(format!("{n}{ann}"));
          match pin {
            Some(pin) => pre += &format!("let {pt} = {pin}{n}); "),
            None => pre += &format!("let {pt} = {n}; "),
          }
        }
      }
    }
    let h = self.hoists.len();
    let k = self.value_k();
    let b = self.pbody(body, &e2, &k)?;
    if self.hoists.len() != h {
      return Err("? outside a statement of a closure".into());
    }
    Ok(format!("(|{}| {{ {pre}{b} }})", ps.join(", ")))
  }

  /// Parameter types of a closure passed as argument `i` of a contracted function.
  fn closure_types(&self, f: &str, i: usize) -> Vec<String> {
    let last = f.rsplit("::").next().unwrap();
    for k in self.cfg.by_name.get(last).into_iter().flatten() {
      let c = &self.cfg.contracts[*k];
      if !f.contains("::") && c["key"].as_str() != Some(f) {
        continue;
      }
      let Some(t) = c["params"][i]["ty"].as_str() else { continue };
      if let Some(rest) = t.strip_prefix("spec_fn(") {
        let inner = &rest[..rest.find(") ->").unwrap_or(0)];
        let (mut out, mut depth, mut cur) = (vec![], 0, String::new());
        for ch in inner.chars() {
          match ch {
            '(' | '<' => depth += 1,
            ')' | '>' => depth -= 1,
            _ => {}
          }
          if ch == ',' && depth == 0 {
            out.push(cur.trim().to_string());
            cur.clear();
          } else {
            cur.push(ch);
          }
        }
        if !cur.trim().is_empty() {
          out.push(cur.trim().to_string());
        }
        return out;
      }
    }
    vec![]
  }

  pub fn value_k<'s>(&self) -> K<'s> {
    K {
      end: End::Value,
      ret: true,
      brk: None,
      cont: None,
      q: self.c["closure_try"].as_str().unwrap_or("Opt").into(),
    }
  }

  /// Body of a closure or function, as a specification expression.
  pub fn pbody<'s>(&mut self, e: &'s Expr, env: &Env, k: &K<'s>) -> R<String> {
    self.ptail(e, env, k)
  }

  // ---- patterns --------------------------------------------------------------------
  pub fn pat(&mut self, p: &Pat, env: &mut Env) -> R<String> {
    Ok(match p {
      Pat::Ident(i) => {
        let n = i.ident.to_string();
        if n == "None" {
          return Ok("Opt::None".into());
        }
        if n.starts_with(char::is_uppercase) {
          if let Some(c) = self.cfg.consts.get(&n) {
            return Ok(c.clone());
          }
          return Ok(n);
        }
        let b = self.bind(env, &n);
        match &i.subpat {
          Some((_, s)) => format!("{b} @ {}", self.pat(s, env)?),
          None => b,
        }
      }
      Pat::Wild(_) => "_".into(),
      Pat::Reference(r) => self.pat(&r.pat, env)?,
      Pat::Paren(r) => self.pat(&r.pat, env)?,
      Pat::Type(t) => self.pat(&t.pat, env)?,
      Pat::Tuple(t) => {
        let mut v = Vec::new();
        for p in &t.elems {
          v.push(self.pat(p, env)?);
        }
        format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" })
      }
      Pat::TupleStruct(t) => {
        let path = self.path(&t.path, &Env { vars: Default::default(), ..env.clone() })?;
        let mut v = Vec::new();
        for p in &t.elems {
          v.push(self.pat(p, env)?);
        }
        format!("{path}({})", v.join(", "))
      }
      Pat::Struct(s) => {
        let path = self.path(&s.path, &Env { vars: Default::default(), ..env.clone() })?;
        let mut v = Vec::new();
        for f in &s.fields {
          v.push(format!("{}: {}", toks(&f.member), self.pat(&f.pat, env)?));
        }
        if s.rest.is_some() {
          v.push("..".into());
        }
        format!("{path} {{ {} }}", v.join(", "))
      }
      Pat::Path(p) => self.path(&p.path, &Env { vars: Default::default(), ..env.clone() })?,
      Pat::Or(o) => {
        // every alternative binds the same names
        let mut v = Vec::new();
        let mut first: Option<Env> = None;
        for p in &o.cases {
          match &first {
            None => {
              v.push(self.pat(p, env)?);
              first = Some(env.clone());
            }
            Some(f) => {
              let mut e2 = f.clone();
              let mut s = self.pat(p, &mut e2)?;
              for n in new_names(p) {
                if let (Some(Bind::Plain(a)), Some(Bind::Plain(b))) = (e2.vars.get(&n), f.vars.get(&n)) {
                  s = replace_word(&s, a, b);
                }
              }
              v.push(s);
            }
          }
        }
        v.join(" | ")
      }
      Pat::Lit(l) => match &l.lit {
        Lit::Str(_) => return Err("string pattern".into()),
        Lit::Int(i) => format!("{}", i.base10_digits()),
        l => toks(l),
      },
      Pat::Rest(_) => "..".into(),
      p => return Err(format!("pattern {}", short(p))),
    })
  }

  // ---- statements in pure position -------------------------------------------------
  fn wrap_hoists(&mut self, from: usize, body: String, k: &K) -> R<String> {
    let hs: Vec<_> = self.hoists.drain(from..).collect();
    let mut s = body;
    if !hs.is_empty() && !k.ret {
      return Err("? inside a loop of a closure".into());
    }
    for (v, inner) in hs.into_iter().rev() {
      s = match k.q.as_str() {
        "Res" => format!("(match {inner} {{ Res::Ok({v}) => {{ {s} }}, Res::Err(e) => Res::Err(e) }})"),
        _ => format!("(match {inner} {{ Opt::Some({v}) => {{ {s} }}, Opt::None => Opt::None }})"),
      };
    }
    Ok(s)
  }

  pub fn pblock<'s>(&mut self, stmts: &'s [Stmt], env: &Env, k: &K<'s>) -> R<String> {
    let Some((first, rest)) = stmts.split_first() else {
      return self.pend(env, k);
    };
    match first {
      Stmt::Item(_) => self.pblock(rest, env, k),
      Stmt::Macro(m) => {
        if is_panic(&m.mac) {
          return Ok("absurd()".into());
        }
        if rest.is_empty() && matches!(k.end, End::Value) && m.semi_token.is_none() {
          let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
          return self.p(&e, env);
        }
        self.drop_note(&toks(&m.mac));
        self.pblock(rest, env, k)
      }
      Stmt::Expr(e, semi) => {
        if rest.is_empty() && semi.is_none() && matches!(k.end, End::Value) {
          return self.ptail(e, env, k);
        }
        self.pstmt(e, rest, env, k)
      }
      Stmt::Local(l) => {
        let Some(init) = &l.init else { return Err("let without initializer".into()) };
        let e = &*init.expr;
        let mut env2 = env.clone();
        let (pat, ty) = match &l.pat {
          Pat::Type(t) => (&*t.pat, self.ty(&t.ty)),
          p => (p, None),
        };
        if self.dropped_expr(e, env) || (matches!(pat, Pat::Wild(_)) && !self.effect(e, env)) {
          self.drop_note(&toks(l));
          return self.pblock(rest, env, k);
        }
        if let (Pat::Ident(id), Expr::Closure(c)) = (pat, unparen(e)) {
          env2.vars.insert(
            id.ident.to_string(),
            Bind::Clos(Rc::new(Clos {
              name: id.ident.to_string(),
              params: c.inputs.iter().cloned().collect(),
              body: (*c.body).clone(),
              env: env.clone(),
              is_fn: false,
            })),
          );
          return self.pblock(rest, &env2, k);
        }
        let h = self.hoists.len();
        // a mutating call used as a value
        let mut pre = String::new();
        let v = match unparen(e) {
          Expr::MethodCall(m)
            if self.cfg.mutators.contains(&m.method.to_string())
              && self.lvalue(&m.receiver, env)?.is_some() =>
          {
            let (upd, ret) = self.pmut(m, env)?;
            let t = self.fresh("__rv");
            pre = format!("let {t} = {ret}; {upd}");
            t
          }
          e => self.p(e, env)?,
        };
        if let Some((_, els)) = &init.diverge {
          let pt = self.pat(pat, &mut env2)?;
          let body = self.pblock(rest, &env2, k)?;
          let els = match unparen(els) {
            Expr::Block(b) => {
              let mut k2 = k.clone();
              k2.end = End::Value;
              self.pblock(&b.block.stmts, env, &k2)?
            }
            _ => return Err("let else".into()),
          };
          let s = format!("{pre}(match {v} {{ {pt} => {{ {body} }}, _ => {{ {els} }} }})");
          return self.wrap_hoists(h, s, k);
        }
        let hs: Vec<_> = self.hoists.drain(h..).collect();
        let pt = self.pat(pat, &mut env2)?;
        let ann = match ty {
          Some(t) if !t.contains('_') || t == "HSet<_>" => format!(": {t}"),
          _ => String::new(),
        };
        let body = self.pblock(rest, &env2, k)?;
        self.hoists.extend(hs);
        let s = format!("{pre}let {pt}{ann} = {v}; {body}");
        self.wrap_hoists(h, format!("{{ {s} }}"), k)
      }
    }
  }

  fn pend(&mut self, _env: &Env, k: &K) -> R<String> {
    match &k.end {
      End::Value => Ok("()".into()),
      End::Str(s) => Ok(s.clone()),
      End::Rest(stmts, env, k2) => {
        let (stmts, env, k2) = (*stmts, env.clone(), k2.clone());
        self.pblock(stmts, &env, &k2)
      }
    }
  }

  fn pret(&mut self, e: Option<&Expr>, env: &Env, k: &K) -> R<String> {
    if !k.ret {
      return Err("return inside a loop of a closure".into());
    }
    match e {
      None => Ok("()".into()),
      Some(e) => {
        let k2 = K { end: End::Value, ..k.clone() };
        let h = self.hoists.len();
        let v = self.p(e, env)?;
        self.wrap_hoists(h, v, &k2)
      }
    }
  }

  /// Tail expression.
  fn ptail<'s>(&mut self, e: &'s Expr, env: &Env, k: &K<'s>) -> R<String> {
    match e {
      Expr::Paren(p) => self.ptail(&p.expr, env, k),
      Expr::Block(b) => self.pblock(&b.block.stmts, env, k).map(|s| format!("{{ {s} }}")),
      Expr::If(i) => {
        let els = match &i.else_branch {
          Some((_, e)) => self.ptail(e, env, k)?,
          None => self.pend(env, k)?,
        };
        let c: Vec<&'s Expr> = conds(&i.cond);
        self.nest(&c, &i.then_branch.stmts, &els, env, k)
      }
      Expr::Match(m) => {
        let h = self.hoists.len();
        let s = self.p(&m.expr, env)?;
        let arms: Vec<&syn::Arm> = m.arms.iter().collect();
        let hs: Vec<_> = self.hoists.drain(h..).collect();
        let b = self.arms(&s, &arms, env, k)?;
        self.hoists.extend(hs);
        self.wrap_hoists(h, b, k)
      }
      Expr::Return(r) => self.pret(r.expr.as_deref(), env, k),
      Expr::Break(_) => k.brk.clone().ok_or_else(|| "break".to_string()),
      Expr::Continue(_) => k.cont.clone().ok_or_else(|| "continue".to_string()),
      e if matches!(k.end, End::Value) => {
        let h = self.hoists.len();
        // a mutating call in tail position of a unit closure is handled by pstmt
        let v = self.p(e, env)?;
        self.wrap_hoists(h, v, k)
      }
      e => self.pstmt(e, &[], env, k),
    }
  }

  fn nest<'s>(&mut self, cs: &[&Expr], then: &'s [Stmt], els: &str, env: &Env, k: &K<'s>) -> R<String> {
    match cs.split_first() {
      None => self.pblock(then, env, k),
      Some((c, rest)) => {
        let h = self.hoists.len();
        let mut c: &Expr = c;
        while let Expr::Paren(p) = c {
          c = &p.expr;
        }
        let s = match c {
          Expr::Let(l) => {
            let s = self.p(&l.expr, env)?;
            let mut e2 = env.clone();
            let hs: Vec<_> = self.hoists.drain(h..).collect();
            let p = self.pat(&l.pat, &mut e2)?;
            let inner = self.nest(rest, then, els, &e2, k)?;
            self.hoists.extend(hs);
            format!("(match {s} {{ {p} => {{ {inner} }}, _ => {{ {els} }} }})")
          }
          c => {
            let s = self.p(c, env)?;
            let hs: Vec<_> = self.hoists.drain(h..).collect();
            let inner = self.nest(rest, then, els, env, k)?;
            self.hoists.extend(hs);
            format!("(if {s} {{ {inner} }} else {{ {els} }})")
          }
        };
        self.wrap_hoists(h, s, k)
      }
    }
  }

  fn arms<'s>(&mut self, s: &str, arms: &[&'s syn::Arm], env: &Env, k: &K<'s>) -> R<String> {
    if arms.iter().any(|a| lit_pat(&a.pat).is_some()) {
      let mut out = String::new();
      if arms.iter().any(|a| a.guard.is_some()) {
        return Err("guard next to a literal pattern".into());
      }
      for a in arms {
        match lit_pat(&a.pat) {
          Some(l) => {
            let b = self.ptail(&a.body, env, k)?;
            out += &format!("if {} {{ {b} }} else ", is_lit(s, &l));
          }
          None => {
            let mut e2 = env.clone();
            let p = self.pat(&a.pat, &mut e2)?;
            let b = self.ptail(&a.body, &e2, k)?;
            out += &format!("{{ match {s} {{ {p} => {{ {b} }} }} }}");
          }
        }
      }
      return Ok(out);
    }
    let mut out = format!("(match {s} {{ ");
    for (i, a) in arms.iter().enumerate() {
      let mut e2 = env.clone();
      let p = self.pat(&a.pat, &mut e2)?;
      match &a.guard {
        None => {
          let b = self.ptail(&a.body, &e2, k)?;
          out += &format!("{p} => {{ {b} }}, ");
        }
        Some((_, g)) => {
          let rest = self.arms(s, &arms[i + 1..], env, k)?;
          let cs = conds(g);
          let inner = self.nest_tail(&cs, &a.body, &rest, &e2, k)?;
          out += &format!("{p} => {{ {inner} }}, ");
          if !matches!(a.pat, Pat::Wild(_)) {
            out += &format!("_ => {{ {rest} }}, ");
          }
          return Ok(out + "})");
        }
      }
    }
    Ok(out + "})")
  }

  fn nest_tail<'s>(&mut self, cs: &[&Expr], body: &'s Expr, els: &str, env: &Env, k: &K<'s>) -> R<String> {
    match cs.split_first() {
      None => self.ptail(body, env, k),
      Some((c, rest)) => match c {
        Expr::Let(l) => {
          let s = self.p(&l.expr, env)?;
          let mut e2 = env.clone();
          let p = self.pat(&l.pat, &mut e2)?;
          let inner = self.nest_tail(rest, body, els, &e2, k)?;
          Ok(format!("(match {s} {{ {p} => {{ {inner} }}, _ => {{ {els} }} }})"))
        }
        c => {
          let s = self.p(c, env)?;
          let inner = self.nest_tail(rest, body, els, env, k)?;
          Ok(format!("(if {s} {{ {inner} }} else {{ {els} }})"))
        }
      },
    }
  }

  /// (update, value) of a mutating method call
  fn pmut(&mut self, m: &syn::ExprMethodCall, env: &Env) -> R<(String, String)> {
    let name = m.method.to_string();
    let Some(lv) = self.lvalue(&m.receiver, env)? else {
      return Err(format!("mutation of {}", short(&m.receiver)));
    };
    let mut ps = Vec::new();
    for a in &m.args {
      ps.push(self.p(a, env)?);
    }
    let cur = self.read(&lv);
    let args = ps.join(", ");
    let (r, u) = self.write(&lv, &format!("{cur}.{name}_upd({args})"), env)?;
    Ok((format!("let {r} = {u}; "), format!("{cur}.{name}_ret({args})")))
  }

  fn pstmt<'s>(&mut self, e: &'s Expr, rest: &'s [Stmt], env: &Env, k: &K<'s>) -> R<String> {
    if self.dropped_expr(e, env) {
      self.drop_note(&toks(e));
      return self.pblock(rest, env, k);
    }
    let kr = K { end: End::Rest(rest, env.clone(), Rc::new(k.clone())), ..k.clone() };
    match e {
      Expr::Paren(p) => self.pstmt(&p.expr, rest, env, k),
      Expr::If(_) | Expr::Match(_) | Expr::Block(_) => {
        if !self.effect(e, env) && !has_try(e) {
          return self.pblock(rest, env, k);
        }
        self.ptail(e, env, &kr)
      }
      Expr::Return(r) => self.pret(r.expr.as_deref(), env, k),
      Expr::Break(_) => k.brk.clone().ok_or_else(|| "break".to_string()),
      Expr::Continue(_) => k.cont.clone().ok_or_else(|| "continue".to_string()),
      Expr::Macro(m) => {
        if is_panic(&m.mac) {
          return Ok("absurd()".into());
        }
        self.drop_note(&toks(e));
        self.pblock(rest, env, k)
      }
      Expr::Assign(a) => {
        let Some(lv) = self.lvalue(&a.left, env)? else {
          return Err(format!("assignment to {}", short(&a.left)));
        };
        let h = self.hoists.len();
        let v = self.p(&a.right, env)?;
        let hs: Vec<_> = self.hoists.drain(h..).collect();
        let (r, u) = self.write(&lv, &v, env)?;
        let b = self.pblock(rest, env, k)?;
        self.hoists.extend(hs);
        self.wrap_hoists(h, format!("{{ let {r} = {u}; {b} }}"), k)
      }
      Expr::Binary(b) if is_assign_op(&b.op) => {
        let Some(lv) = self.lvalue(&b.left, env)? else {
          return Err(format!("assignment to {}", short(&b.left)));
        };
        let v = self.p(&b.right, env)?;
        let cur = self.read(&lv);
        let new = assign_op(&b.op, &cur, &v).ok_or("assignment operator")?;
        let (r, u) = self.write(&lv, &new, env)?;
        let b = self.pblock(rest, env, k)?;
        Ok(format!("{{ let {r} = {u}; {b} }}"))
      }
      Expr::MethodCall(m)
        if self.cfg.mutators.contains(&m.method.to_string()) && self.is_lv(&m.receiver, env) =>
      {
        let (upd, _) = self.pmut(m, env)?;
        let b = self.pblock(rest, env, k)?;
        Ok(format!("{{ {upd}{b} }}"))
      }
      Expr::MethodCall(m) if self.mut_sig(&m.method.to_string(), recv_hint(self, m).as_deref()).is_some() => {
        let name = m.method.to_string();
        let (muts, has_ret) = self.mut_sig(&name, recv_hint(self, m).as_deref()).unwrap();
        let mut args: Vec<&Expr> = vec![&m.receiver];
        args.extend(m.args.iter());
        let mut ps = Vec::new();
        for a in &args {
          ps.push(self.p(a, env)?);
        }
        let call = format!("{}.{name}({})", ps[0], ps[1..].join(", "));
        let o = self.fresh("__o");
        let mut s = format!("let {o} = {call}; ");
        for (n, i) in muts.iter().enumerate() {
          let Some(lv) = self.lvalue(args[*i], env)? else { return Err("mutable argument".into()) };
          let v = if !has_ret && muts.len() == 1 { o.clone() } else { format!("{o}.{}", n + has_ret as usize) };
          let (r, u) = self.write(&lv, &v, env)?;
          s += &format!("let {r} = {u}; ");
        }
        let b = self.pblock(rest, env, k)?;
        Ok(format!("{{ {s}{b} }}"))
      }
      Expr::ForLoop(f) => {
        self.weak.push("a loop inside a closure or helper".into());
        let it = self.p(&f.expr, env)?;
        let mut benv = env.clone();
        let pt = self.pat(&f.pat, &mut benv)?;
        // first pass: which variables does the body write?
        self.writes.push(Default::default());
        let before = self.used.clone();
        let k1 = K { end: End::Str("X".into()), ret: false, brk: Some("X".into()), cont: Some("X".into()), q: k.q.clone() };
        let body1 = f.body.stmts.clone();
        {
          let k1: K<'_> = K { end: End::Str("X".into()), ..k1.clone() };
          self.pblock(&body1, &benv, &k1)?;
        }
        let ws: Vec<String> =
          self.writes.pop().unwrap().into_iter().filter(|w| before.contains(w)).collect();
        if ws.is_empty() {
          return self.pblock(rest, env, k);
        }
        let tup = if ws.len() == 1 { ws[0].clone() } else { format!("({})", ws.join(", ")) };
        let k2 = K {
          end: End::Str(format!("(false, {tup})")),
          ret: false,
          brk: Some(format!("(true, {tup})")),
          cont: Some(format!("(false, {tup})")),
          q: k.q.clone(),
        };
        let body = {
          let k2: K<'_> = k2;
          self.pblock(&body1, &benv, &k2)?
        };
        let (a, x, r) = (self.fresh("__acc"), self.fresh("__x"), self.fresh("__r"));
        let b = self.pblock(rest, env, k)?;
        Ok(format!(
          "{{ let {r} = fold_brk(({it}).into_lst().s, {tup}, |{a}, {x}| {{ let {tup} = {a}; let {pt} = {x}; {body} }}); let {tup} = {r}.1; {b} }}"
        ))
      }
      e => {
        if has_try(e) {
          let h = self.hoists.len();
          let _ = self.p(e, env)?;
          let hs: Vec<_> = self.hoists.drain(h..).collect();
          let b = self.pblock(rest, env, k)?;
          self.hoists.extend(hs);
          return self.wrap_hoists(h, b, k);
        }
        if self.effect(e, env) {
          // a call of a local closure or a helper with effects on local variables
          if let Expr::Call(c) = e {
            if let Some(n) = path_ident(&c.func) {
              if let Some(Bind::Clos(cl)) = env.vars.get(&n) {
                let _ = cl;
              }
            }
          }
          return Err(format!("effect in {}", short(e)));
        }
        self.drop_note(&toks(e));
        self.pblock(rest, env, k)
      }
    }
  }

  // ---- expressions -----------------------------------------------------------------
  pub fn p(&mut self, e: &Expr, env: &Env) -> R<String> {
    if let Some(t) = self.subst(e) {
      return Ok(t);
    }
    Ok(match e {
      Expr::Paren(p) => format!("({})", self.p(&p.expr, env)?),
      Expr::Group(p) => self.p(&p.expr, env)?,
      Expr::Reference(r) => self.p(&r.expr, env)?,
      Expr::Cast(c) => self.p(&c.expr, env)?,
      Expr::Unsafe(b) => self.pure_block(&b.block.stmts, env)?,
      Expr::Lit(l) => match &l.lit {
        Lit::Str(s) => lit_str(&s.value()),
        Lit::Int(i) => format!("{}int", i.base10_digits()),
        Lit::Float(_) => return Err("float".into()),
        l => toks(l),
      },
      Expr::Path(p) => self.path(&p.path, env)?,
      Expr::Field(f) => format!("{}.{}", self.p(&f.base, env)?, toks(&f.member)),
      Expr::Index(i) => format!("{}.idx({})", self.p(&i.expr, env)?, self.p(&i.index, env)?),
      Expr::Tuple(t) => {
        let mut v = Vec::new();
        for e in &t.elems {
          v.push(self.p(e, env)?);
        }
        format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" })
      }
      Expr::Array(a) => self.list(a.elems.iter(), env)?,
      Expr::Unary(u) => match u.op {
        syn::UnOp::Deref(_) => self.p(&u.expr, env)?,
        syn::UnOp::Not(_) => format!("!({})", self.p(&u.expr, env)?),
        _ => format!("(-({}))", self.p(&u.expr, env)?),
      },
      Expr::Binary(b) => {
        use syn::BinOp::*;
        if is_assign_op(&b.op) {
          return Err("assignment in an expression".into());
        }
        let op = match b.op {
          BitOr(_) => "||".to_string(),
          BitAnd(_) => "&&".to_string(),
          o => toks(&o),
        };
        let l = self.p(&b.left, env)?;
        let h = self.hoists.len();
        let r = self.p(&b.right, env)?;
        if self.hoists.len() != h && (op == "&&" || op == "||") {
          return Err("? in a short-circuit operand".into());
        }
        format!("({l} {op} {r})")
      }
      Expr::Range(r) => {
        let a = match &r.start {
          Some(e) => self.p(e, env)?,
          None => "0int".into(),
        };
        let Some(b) = &r.end else { return Err("open range".into()) };
        let b = self.p(b, env)?;
        match r.limits {
          syn::RangeLimits::HalfOpen(_) => format!("range({a}, {b})"),
          _ => format!("range_incl({a}, {b})"),
        }
      }
      Expr::Struct(s) => {
        let path = self.path(&s.path, env)?;
        let mut v = Vec::new();
        for f in &s.fields {
          v.push(format!("{}: {}", toks(&f.member), self.p(&f.expr, env)?));
        }
        if let Some(r) = &s.rest {
          v.push(format!("..{}", self.p(r, env)?));
        }
        format!("{path} {{ {} }}", v.join(", "))
      }
      Expr::Closure(c) => {
        let ps: Vec<Pat> = c.inputs.iter().cloned().collect();
        self.closure(&ps, &c.body, env)?
      }
      Expr::If(_) | Expr::Match(_) | Expr::Block(_) => {
        let h = self.hoists.len();
        let k = K { end: End::Value, ret: false, brk: None, cont: None, q: "Opt".into() };
        let s = self.ptail_owned(e, env, &k)?;
        if self.hoists.len() != h {
          return Err("? inside a conditional expression".into());
        }
        format!("({s})")
      }
      Expr::Try(t) => {
        let inner = self.p(&t.expr, env)?;
        let v = self.fresh("__q");
        self.hoists.push((v.clone(), inner));
        v
      }
      Expr::Macro(m) => self.mac(&m.mac, env)?,
      Expr::Call(c) => {
        // (|..| ..)(args)
        if let Expr::Closure(cl) = unparen(&c.func) {
          let ps: Vec<Pat> = cl.inputs.iter().cloned().collect();
          let args: Vec<Expr> = c.args.iter().cloned().collect();
          let body = (*cl.body).clone();
          return self.apply(&ps, &body, &args, env, env);
        }
        if let Some(n) = path_ident(&c.func) {
          if let Some(Bind::Clos(cl)) = env.vars.get(&n) {
            let cl = cl.clone();
            if let Some(k) = self.lifted(&cl) {
              let mut ps = Vec::new();
              for cap in k["captures"].as_array().into_iter().flatten() {
                let x: Expr = syn::parse_str(cap.as_str().unwrap()).map_err(|e| e.to_string())?;
                ps.push(self.p(&x, &cl.env)?);
              }
              let caps = ps.len();
              for a in &c.args {
                ps.push(self.p(a, env)?);
              }
              let key = k["key"].as_str().unwrap();
              return Ok(if caps > 0 && k["captures"][0] == "self" {
                format!("{}.{}({})", ps[0], key.rsplit("::").next().unwrap(), ps[1..].join(", "))
              } else {
                format!("{key}({})", ps.join(", "))
              });
            }
            let args: Vec<Expr> = c.args.iter().cloned().collect();
            return self.apply(&cl.params.clone(), &cl.body.clone(), &args, env, &cl.env);
          }
        }
        if let Some(h) = self.helper(e, env) {
          let args: Vec<Expr> = c.args.iter().cloned().collect();
          return self.apply_fn(&h, &args, env);
        }
        if let Expr::Path(p) = unparen(&c.func) {
          let n = p.path.segments.last().unwrap().ident.to_string();
          let ints = ["usize", "u64", "u32", "u16", "u8", "isize", "i64", "i32"];
          if n == "from" && p.path.segments.len() == 2 && c.args.len() == 1 && ints.contains(&p.path.segments[0].ident.to_string().as_str()) {
            return Ok(format!("{}.to_int()", self.p(&c.args[0], env)?));
          }
          if self.mut_sig(&n, Some(&crate::emit::path_recv(self, p))).is_some() {
            return Err(format!("effect in {}", short(e)));
          }
        }
        let f = self.p(&c.func, env)?;
        let mut v = Vec::new();
        for (i, a) in c.args.iter().enumerate() {
          let cl = match unparen(a) {
            Expr::Closure(cl) => Some((cl.inputs.iter().cloned().collect::<Vec<Pat>>(), (*cl.body).clone(), env.clone())),
            e => match path_ident(e).and_then(|n| env.vars.get(&n).cloned()) {
              Some(Bind::Clos(c)) => Some((c.params.clone(), c.body.clone(), c.env.clone())),
              _ => None,
            },
          };
          match cl {
            Some((ps, body, cenv)) => {
              let anns = self.closure_types(&f, i);
              v.push(self.closure_pin(&ps, &body, &cenv, &[], &anns)?);
            }
            None => v.push(self.p(a, env)?),
          }
        }
        format!("{f}({})", v.join(", "))
      }
      Expr::MethodCall(m) => {
        let name = m.method.to_string();
        if IDENT.contains(&name.as_str()) && m.args.is_empty() {
          return self.p(&m.receiver, env);
        }
        if name == "unwrap" || name.starts_with("or_") {
          if let Expr::MethodCall(i) = unparen(&m.receiver) {
            if i.method == "entry" || i.method == "get_mut" {
              if let Some(lv) = self.lvalue(e, env)? {
                return Ok(self.read(&lv));
              }
            }
          }
        }
        if self.mut_sig(&name, recv_hint(self, m).as_deref()).is_some() {
          return Err(format!("effect in {}", short(e)));
        }
        if self.cfg.mutators.contains(&name) && self.is_lv(&m.receiver, env) {
          return Err(format!("effect in {}", short(e)));
        }
        if let Some(h) = self.helper(e, env) {
          let args: Vec<Expr> = m.args.iter().cloned().collect();
          return self.apply_fn(&h, &args, env);
        }
        let mut r = self.p(&m.receiver, env)?;
        let mut v = Vec::new();
        let mut lets = String::new();
        for (i, a) in m.args.iter().enumerate() {
          let last = i + 1 == m.args.len();
          let cl: Option<(Vec<Pat>, Expr, Env)> = match unparen(a) {
            Expr::Closure(c) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone(), env.clone())),
            e => match path_ident(e).and_then(|n| env.vars.get(&n).cloned()) {
              Some(Bind::Clos(c)) => Some((c.params.clone(), c.body.clone(), c.env.clone())),
              Some(_) => None,
              None => match e {
                // a function or constructor passed by name
                Expr::Path(p) if last && CLOSED.contains(&name.as_str()) => {
                  let x: Expr = syn::parse_quote!(__x);
                  let body: Expr = match p.path.segments.len() {
                    1 => syn::parse_quote!(#p(#x)),
                    _ => {
                      let seg = p.path.segments.last().unwrap().ident.to_string();
                      if METHODISH.contains(&seg.as_str()) {
                        let id = p.path.segments.last().unwrap().ident.clone();
                        syn::parse_quote!(#x.#id())
                      } else {
                        syn::parse_quote!(#p(#x))
                      }
                    }
                  };
                  let pat: Pat = Pat::Ident(syn::PatIdent {
                    attrs: vec![], by_ref: None, mutability: None,
                    ident: syn::Ident::new("__x", proc_macro2::Span::call_site()), subpat: None,
                  });
                  Some((vec![pat], body, env.clone()))
                }
                _ => None,
              },
            },
          };
          match cl {
            Some((ps, body, cenv)) => {
              if !lets.contains("__r") && !ps.is_empty() {
                let n = self.fresh("__r");
                lets += &format!("let {n} = {r}; ");
                r = n;
              }
              let el = format!("{r}.el(");
              let pins: Vec<String> = match name.as_str() {
                "fold" | "try_fold" => {
                  let k = self.fresh("__k");
                  lets += &format!("let {k} = {}; ", v[0]);
                  v[0] = k.clone();
                  vec![format!("same({k}, "), el]
                }
                "get" => {
                  let k = self.fresh("__k");
                  lets += &format!("let {k} = {}; ", v[0]);
                  v[0] = k.clone();
                  vec![format!("same({k}, ")]
                }
                "map_err" | "unwrap_or_else" | "or_else" => vec![format!("{r}.el_err(")],
                _ => vec![el.clone(), el],
              };
              v.push(self.closure_pin(&ps, &body, &cenv, &pins, &[])?);
            }
            None => v.push(self.p(a, env)?),
          }
        }
        let turbo = match &m.turbofish {
          Some(t) if name == "collect" => {
            let ts: Vec<String> = t
              .args
              .iter()
              .filter_map(|a| match a {
                syn::GenericArgument::Type(t) => Some(self.ty(t).unwrap_or("_".into())),
                _ => None,
              })
              .collect();
            format!("::<{}>", ts.join(", "))
          }
          _ => String::new(),
        };
        let name = match name.as_str() {
          "then_some" | "then" => format!("{name}_"),
          n => n.to_string(),
        };
        let call = format!("{r}.{name}{turbo}({})", v.join(", "));
        if lets.is_empty() { call } else { format!("({{ {lets}{call} }})") }
      }
      Expr::Let(_) => return Err("let in an expression".into()),
      e => return Err(format!("expression {}", short(e))),
    })
  }

  fn ptail_owned(&mut self, e: &Expr, env: &Env, k: &K) -> R<String> {
    let k2 = K { end: End::Value, ret: k.ret, brk: k.brk.clone(), cont: k.cont.clone(), q: k.q.clone() };
    self.ptail(e, env, &k2)
  }

  fn pure_block(&mut self, stmts: &[Stmt], env: &Env) -> R<String> {
    let k = K { end: End::Value, ret: false, brk: None, cont: None, q: "Opt".into() };
    Ok(format!("({{ {} }})", self.pblock(stmts, env, &k)?))
  }

  fn apply_fn(&mut self, h: &Rc<Clos>, args: &[Expr], env: &Env) -> R<String> {
    if self.stack.contains(&h.name) || self.stack.len() > 8 {
      return Err(format!("recursive inlining of {}", h.name));
    }
    self.stack.push(h.name.clone());
    if !self.inlined.contains(&h.name) {
      self.inlined.push(h.name.clone());
    }
    let r = self.apply(&h.params.clone(), &h.body.clone(), args, env, &h.env);
    self.stack.pop();
    r
  }

  fn apply(&mut self, params: &[Pat], body: &Expr, args: &[Expr], env: &Env, cenv: &Env) -> R<String> {
    if params.len() != args.len() {
      return Err("arity of a closure call".into());
    }
    let mut e2 = cenv.freeze(self);
    let mut pre = String::new();
    for (p, a) in params.iter().zip(args) {
      let (pat, ty) = match p {
        Pat::Type(t) => {
          if matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()) {
            return Err("mutable parameter in a pure call".into());
          }
          (&*t.pat, self.ty(&t.ty))
        }
        p => (p, None),
      };
      if let (Pat::Ident(id), Expr::Closure(c)) = (pat, unparen(a)) {
        e2.vars.insert(
          id.ident.to_string(),
          Bind::Clos(Rc::new(Clos {
            name: id.ident.to_string(),
            params: c.inputs.iter().cloned().collect(),
            body: (*c.body).clone(),
            env: env.clone(),
            is_fn: false,
          })),
        );
        continue;
      }
      let v = self.p(a, env)?;
      let pt = self.pat(pat, &mut e2)?;
      let ann = match ty {
        Some(t) if !t.contains('_') && !t.contains("impl") => format!(": {t}"),
        _ => String::new(),
      };
      let _ = ann;
      pre += &format!("let {pt} = {v}; ");
    }
    let h = self.hoists.len();
    let k = self.value_k();
    let b = self.ptail_owned(body, &e2, &k)?;
    if self.hoists.len() != h {
      return Err("? in an inlined call".into());
    }
    Ok(format!("({{ {pre}{b} }})"))
  }

  fn list<'b>(&mut self, it: impl Iterator<Item = &'b Expr>, env: &Env) -> R<String> {
    let mut s = "Lst::new()".to_string();
    for e in it {
      s = format!("{s}.push_upd({})", self.p(e, env)?);
    }
    Ok(s)
  }

  fn mac(&mut self, m: &syn::Macro, env: &Env) -> R<String> {
    let name = m.path.segments.last().unwrap().ident.to_string();
    match name.as_str() {
      "vec" => {
        if let Ok(list) = m.parse_body_with(
          syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
        ) {
          return self.list(list.iter(), env);
        }
        struct Rep(Expr, Expr);
        impl syn::parse::Parse for Rep {
          fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
            let a = i.parse()?;
            i.parse::<syn::Token![;]>()?;
            Ok(Rep(a, i.parse()?))
          }
        }
        let r: Rep = m.parse_body().map_err(|e| e.to_string())?;
        Ok(format!("repeat({}, {})", self.p(&r.0, env)?, self.p(&r.1, env)?))
      }
      "matches" => {
        struct Mt(Expr, Pat, Option<Expr>);
        impl syn::parse::Parse for Mt {
          fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
            let e = i.parse()?;
            i.parse::<syn::Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(syn::Token![if]) {
              i.parse::<syn::Token![if]>()?;
              Some(i.parse()?)
            } else {
              None
            };
            let _ = i.parse::<syn::Token![,]>();
            Ok(Mt(e, p, g))
          }
        }
        let t: Mt = m.parse_body().map_err(|e| e.to_string())?;
        let s = self.p(&t.0, env)?;
        let mut e2 = env.clone();
        let p = self.pat(&t.1, &mut e2)?;
        let g = match &t.2 {
          Some(g) => self.p(g, &e2)?,
          None => "true".into(),
        };
        Ok(format!("(match {s} {{ {p} => {g}, _ => false }})"))
      }
      "format" => Ok(format!("fmt({})", lit_str(&m.tokens.to_string()))),
      "env" => Ok(lit_str(&m.tokens.to_string())),
      _ if is_panic(m) => Ok("absurd()".into()),
      _ => Err(format!("macro {name}!")),
    }
  }
}

fn strip_ref(p: &Pat) -> &Pat {
  match p {
    Pat::Reference(r) => strip_ref(&r.pat),
    Pat::Paren(r) => strip_ref(&r.pat),
    p => p,
  }
}

fn replace_word(s: &str, a: &str, b: &str) -> String {
  let mut out = String::new();
  let mut rest = s;
  while let Some(i) = rest.find(a) {
    let before_ok = !rest[..i].chars().last().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
    let after = &rest[i + a.len()..];
    let after_ok = !after.chars().next().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
    out += &rest[..i];
    out += if before_ok && after_ok { b } else { a };
    rest = after;
  }
  out + rest
}
