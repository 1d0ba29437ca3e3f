//! What a function writes for its user, as a list (contract option `stream: NAME`):
//!   print!(..)/println!(..)            =>  NAME.push(text)
//!   write!(w, ..)? / writeln!(w, ..)?  =>  NAME.push(text); io_result(NAME)?
//!   write!(w, ..).unwrap()             =>  NAME.push(text)
//!   w.set_color(..)? , .reset()?, .flush()?  =>  color_result(NAME)?      ( .unwrap(): dropped )
//!   s.set_fg(..), set_bold(..)         =>  dropped
//! `text` is the format literal, or the argument itself when the literal is just "{}".
//! Then `let`s without effect whose variables are not used any more (they only made the text) are dropped.
//! Dynamically scoped variables and other state handed on to callees (contract option `passes: f=VAR, g=&mut VAR`):
//!   fluid_set!(VAR, e);                          =>  let fluid_var = Some(e);   ( and VAR => fluid_var after it )
//!   f(a)                                         =>  f(a, VAR)
//!   catch_fatal_errors(move || run_compiler(a, b))  =>  compile(a, b)
//!   cfg_if! { if #[cfg(feature ..)] {a} else {b} }  =>  { b }     ( features off )
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, punctuated::Punctuated, Expr, Ident, Pat, Stmt};

struct S {
  name: Ident,
}

pub fn writes(m: &syn::Macro) -> Option<bool> {
  match m.path.segments.last()?.ident.to_string().as_str() {
    "print" | "println" | "eprint" | "eprintln" => Some(false),
    "write" | "writeln" => Some(true),
    _ => None,
  }
}

fn text(m: &syn::Macro, dest: bool) -> Option<Expr> {
  let args = m.parse_body_with(Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?;
  let args: Vec<Expr> = args.into_iter().skip(dest as usize).collect();
  let Some(Expr::Lit(l)) = args.first() else {
    return if args.is_empty() { Some(parse_quote!("")) } else { None };
  };
  let syn::Lit::Str(s) = &l.lit else { return None };
  let v = s.value();
  if v == "{}" && args.len() == 2 {
    return Some(args[1].clone());
  }
  if let Some(n) = v.strip_prefix('{').and_then(|v| v.strip_suffix('}')) {
    if let Ok(i) = syn::parse_str::<Ident>(n) {
      if args.len() == 1 {
        return Some(parse_quote!(#i));
      }
      if let Some(Expr::Assign(a)) = args.get(1) {
        if args.len() == 2 && a.left.to_token_stream().to_string() == i.to_string() {
          return Some((*a.right).clone());
        }
      }
    }
  }
  Some(args[0].clone())
}

fn call_on<'a>(e: &'a Expr, names: &[&str]) -> Option<&'a Expr> {
  match e {
    Expr::MethodCall(m) if names.contains(&m.method.to_string().as_str()) => Some(&m.receiver),
    _ => None,
  }
}

impl S {
  fn stmt(&self, s: &Stmt) -> Option<Vec<Stmt>> {
    let st = &self.name;
    let push = |m: &syn::Macro| -> Option<Stmt> {
      let t = text(m, writes(m)?)?;
      Some(parse_quote! { #st.push(#t); })
    };
    match s {
      Stmt::Macro(m) => Some(vec![push(&m.mac)?]),
      Stmt::Local(l) => match (&l.pat, &l.init) {
        (Pat::Wild(_), Some(i)) => match &*i.expr {
          Expr::Macro(m) => Some(vec![push(&m.mac)?]),
          _ => None,
        },
        _ => None,
      },
      Stmt::Expr(e, _) => match e {
        Expr::Macro(m) => Some(vec![push(&m.mac)?]),
        Expr::Try(t) => match &*t.expr {
          Expr::Macro(m) => Some(vec![push(&m.mac)?, parse_quote! { io_result(#st)?; }]),
          e if call_on(e, &["set_color", "reset", "flush"]).is_some() => Some(vec![parse_quote! { color_result(#st)?; }]),
          _ => None,
        },
        _ if call_on(e, &["set_color", "reset", "flush", "set_fg", "set_bg", "set_bold"]).is_some() => Some(vec![]),
        _ => {
          let r = call_on(e, &["unwrap", "expect", "ok", "unwrap_or_default"])?;
          match r {
            Expr::Macro(m) => Some(vec![push(&m.mac)?]),
            _ if call_on(r, &["set_color", "reset", "flush"]).is_some() => Some(vec![]),
            _ => None,
          }
        }
      },
      _ => None,
    }
  }
}

impl VisitMut for S {
  fn visit_block_mut(&mut self, b: &mut syn::Block) {
    let mut out = Vec::new();
    for s in std::mem::take(&mut b.stmts) {
      match self.stmt(&s) {
        Some(v) => out.extend(v),
        None => out.push(s),
      }
    }
    b.stmts = out;
    visit_mut::visit_block_mut(self, b);
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Expr::Macro(m) = e {
      if writes(&m.mac).is_some() {
        *e = parse_quote! { unknown_write() };
        return;
      }
    }
    visit_mut::visit_expr_mut(self, e);
  }
  fn visit_stmt_mut(&mut self, s: &mut Stmt) {
    if let Stmt::Macro(m) = s {
      if writes(&m.mac).is_some() {
        *s = parse_quote! { unknown_write(); };
        return;
      }
    }
    visit_mut::visit_stmt_mut(self, s);
  }
}

fn count(ts: TokenStream, name: &str) -> usize {
  ts.into_iter()
    .map(|t| match t {
      TokenTree::Ident(i) => (i == name) as usize,
      TokenTree::Group(g) => count(g.stream(), name),
      TokenTree::Literal(l) => l.to_string().contains(&format!("{{{name}")) as usize,
      _ => 0,
    })
    .sum()
}

/// No effect on anything but its own value.
fn quiet(e: &Expr, mutators: &dyn Fn(&str) -> bool) -> bool {
  struct V<'a>(bool, &'a dyn Fn(&str) -> bool);
  impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
    fn visit_expr(&mut self, e: &'b Expr) {
      match e {
        Expr::Try(_) | Expr::Return(_) | Expr::Assign(_) | Expr::Break(_) | Expr::Continue(_) | Expr::Await(_) => self.0 = false,
        Expr::Binary(b) if crate::emit::is_assign_op(&b.op) => self.0 = false,
        Expr::Reference(r) if r.mutability.is_some() => self.0 = false,
        Expr::MethodCall(m) if (self.1)(&m.method.to_string()) => self.0 = false,
        Expr::Macro(m) if !crate::emit::is_panic(&m.mac) => {
          let n = m.mac.path.segments.last().unwrap().ident.to_string();
          if !matches!(n.as_str(), "format" | "vec" | "matches") {
            self.0 = false;
          }
        }
        _ => {}
      }
      syn::visit::visit_expr(self, e);
    }
  }
  let mut v = V(true, mutators);
  syn::visit::Visit::visit_expr(&mut v, e);
  v.0
}

struct Dead<'a> {
  whole: TokenStream,
  mutators: &'a dyn Fn(&str) -> bool,
  dropped: Vec<String>,
}

impl VisitMut for Dead<'_> {
  fn visit_block_mut(&mut self, b: &mut syn::Block) {
    let mut out = Vec::new();
    for s in std::mem::take(&mut b.stmts) {
      if let Stmt::Local(l) = &s {
        let p = match &l.pat {
          Pat::Type(t) => &*t.pat,
          p => p,
        };
        if let (Pat::Ident(i), Some(init)) = (p, &l.init) {
          if init.diverge.is_none() && count(self.whole.clone(), &i.ident.to_string()) == 1 && quiet(&init.expr, self.mutators) {
            self.dropped.push(s.to_token_stream().to_string());
            continue;
          }
        }
      }
      out.push(s);
    }
    b.stmts = out;
    visit_mut::visit_block_mut(self, b);
  }
}

pub fn rewrite(b: &mut syn::Block, name: &str, mutators: &dyn Fn(&str) -> bool) -> Vec<String> {
  S { name: Ident::new(name, proc_macro2::Span::call_site()) }.visit_block_mut(b);
  let mut dropped = Vec::new();
  loop {
    let mut d = Dead { whole: b.to_token_stream(), mutators, dropped: vec![] };
    d.visit_block_mut(b);
    if d.dropped.is_empty() {
      return dropped;
    }
    dropped.extend(d.dropped);
  }
}

struct P<'a> {
  more: &'a serde_json::Map<String, serde_json::Value>,
}

/// The local variable holding a dynamically scoped one.
fn local(v: &Ident) -> Ident {
  Ident::new(&format!("fluid_{}", v.to_string().to_lowercase()), v.span())
}

fn fluid(m: &syn::Macro) -> Option<Stmt> {
  let n = m.path.segments.last()?.ident.to_string();
  if n == "fluid_set" {
    let a = m.parse_body_with(Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?;
    let (Expr::Path(v), 2) = (a.first()?, a.len()) else { return None };
    let (v, e) = (local(&v.path.segments.last()?.ident), &a[1]);
    return Some(parse_quote! { let #v = Some(#e); });
  }
  if n == "cfg_if" {
    let ts: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
    if let [.., TokenTree::Ident(e), TokenTree::Group(g)] = ts.as_slice() {
      if e == "else" && m.tokens.to_string().matches("feature =").count() == 1 {
        let b: syn::Block = syn::parse2(TokenStream::from(TokenTree::Group(g.clone()))).ok()?;
        return Some(Stmt::Expr(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }), None));
      }
    }
  }
  None
}

impl VisitMut for P<'_> {
  fn visit_stmt_mut(&mut self, s: &mut Stmt) {
    let m = match s {
      Stmt::Macro(m) => Some(&m.mac),
      Stmt::Expr(Expr::Macro(m), _) => Some(&m.mac),
      _ => None,
    };
    if let Some(n) = m.and_then(fluid) {
      *s = n;
    }
    visit_mut::visit_stmt_mut(self, s);
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    visit_mut::visit_expr_mut(self, e);
    if let Expr::Macro(m) = e {
      if let Some(Stmt::Expr(n, _)) = fluid(&m.mac) {
        *e = n;
        return;
      }
    }
    if let Expr::Call(c) = e {
      if let Expr::Path(p) = &*c.func {
        if p.path.segments.last().unwrap().ident == "catch_fatal_errors" && c.args.len() == 1 {
          if let Expr::Closure(k) = &c.args[0] {
            if let Expr::Call(r) = &*k.body {
              if k.inputs.is_empty() && matches!(&*r.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "run_compiler") {
                let a = &r.args;
                *e = parse_quote! { compile(#a) };
                return;
              }
            }
          }
        }
      }
    }
    let (name, args) = match e {
      Expr::Call(c) => match &*c.func {
        Expr::Path(p) => (p.path.segments.last().unwrap().ident.to_string(), &mut c.args),
        _ => return,
      },
      Expr::MethodCall(m) => (m.method.to_string(), &mut m.args),
      _ => return,
    };
    if let Some(x) = self.more.get(&name).and_then(|v| v.as_str()) {
      if let Ok(x) = syn::parse_str::<Expr>(x) {
        args.push(x);
      }
    }
  }
}

/// Variables set in the function.
fn fluids(ts: TokenStream) -> Vec<String> {
  let ts: Vec<TokenTree> = ts.into_iter().collect();
  let mut out = Vec::new();
  for (i, t) in ts.iter().enumerate() {
    match (t, ts.get(i + 2)) {
      (TokenTree::Ident(n), Some(TokenTree::Group(g))) if n == "fluid_set" => {
        if let Some(TokenTree::Ident(v)) = g.stream().into_iter().next() {
          out.push(v.to_string());
        }
      }
      (TokenTree::Group(g), _) => out.extend(fluids(g.stream())),
      _ => {}
    }
  }
  out
}

struct Rename<'a>(&'a str);
impl VisitMut for Rename<'_> {
  fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
    if let Some(i) = p.path.get_ident() {
      if i == self.0 {
        let n = local(i);
        *p = parse_quote!(#n);
      }
    }
  }
}

pub fn passes(b: &mut syn::Block, more: &serde_json::Value) {
  if let Some(more) = more.as_object() {
    let set = fluids(b.to_token_stream());
    P { more }.visit_block_mut(b);
    for v in set {
      Rename(&v).visit_block_mut(b);
    }
  }
}
