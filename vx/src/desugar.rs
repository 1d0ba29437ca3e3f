//! Iterator adaptors whose closure contains a loop are written as loops, so that loop
//! invariants can be attached:
//!   it.map(|p| body).collect()        =>  { let mut accN = Vec::new(); for p in it { accN.push(body) } accN }.collect()
//!   it.flat_map(..)/filter_map(..)    =>  the same with extend
//!   ( `e?` in a filter_map closure becomes `let Some(qN) = e else { continue };` before its statement;
//!     filter_map closures with local variables are also written as loops )
//!   it.for_each(|p| body)             =>  for p in it { body }
//!   STATIC.with(|x| body)             =>  { let x = &mut STATIC; body }
//!   it.fold(a, |accN, p| body)        =>  { let mut accN = a; for p in it { accN = body } accN }
//!   |p| -> T { body }                 =>  |p| { let res: T = body; res }
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Ident, Pat};

struct D {
  n: usize,
  q: usize,
}

fn has_loop(e: &Expr) -> bool {
  struct V(bool);
  impl<'a> syn::visit::Visit<'a> for V {
    fn visit_expr(&mut self, e: &'a Expr) {
      if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
        self.0 = true;
      }
      syn::visit::visit_expr(self, e);
    }
  }
  let mut v = V(false);
  syn::visit::Visit::visit_expr(&mut v, e);
  v.0
}

fn has_return(e: &Expr) -> bool {
  struct V(bool);
  impl<'a> syn::visit::Visit<'a> for V {
    fn visit_expr(&mut self, e: &'a Expr) {
      match e {
        Expr::Return(_) | Expr::Try(_) => self.0 = true,
        Expr::Closure(_) => {}
        _ => syn::visit::visit_expr(self, e),
      }
    }
  }
  let mut v = V(false);
  syn::visit::Visit::visit_expr(&mut v, e);
  v.0
}

/// A block with local variables.
fn has_lets(e: &Expr) -> bool {
  matches!(e, Expr::Block(b) if b.block.stmts.iter().any(|s| matches!(s, syn::Stmt::Local(_))))
}

/// `e?` in the statements of a filter_map closure body, as `continue`; false when one is out of reach.
fn try_to_continue(e: &mut Expr, n: &mut usize) -> bool {
  struct V<'a>(Vec<syn::Stmt>, &'a mut usize, bool);
  impl VisitMut for V<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
      match e {
        Expr::Closure(_) => {}
        Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_) => {
          if has_return(e) {
            self.2 = false;
          }
        }
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) => {
          if has_return(e) {
            self.2 = false;
          }
        }
        Expr::Return(_) => self.2 = false,
        Expr::Try(t) => {
          self.visit_expr_mut(&mut t.expr);
          let q = Ident::new(&format!("q{}", self.1), proc_macro2::Span::call_site());
          *self.1 += 1;
          let inner = &t.expr;
          self.0.push(parse_quote! { let Some(#q) = #inner else { continue }; });
          *e = parse_quote! { #q };
        }
        _ => visit_mut::visit_expr_mut(self, e),
      }
    }
  }
  if !has_return(e) {
    return true;
  }
  let Expr::Block(b) = e else { return false };
  let mut out = Vec::new();
  let mut ok = true;
  for mut s in std::mem::take(&mut b.block.stmts) {
    let mut v = V(Vec::new(), n, true);
    v.visit_stmt_mut(&mut s);
    ok &= v.2;
    out.append(&mut v.0);
    out.push(s);
  }
  b.block.stmts = out;
  ok
}

fn strip(p: &Pat) -> Pat {
  match p {
    Pat::Type(t) => (*t.pat).clone(),
    p => p.clone(),
  }
}

/// Statements that replace a collection by a function of it.
const REPLACED: &[(&str, &str)] = &[
  ("retain", "retain_new"), ("truncate", "truncate_new"), ("clear", "clear_new"), ("reverse", "reverse_new"),
  ("swap", "swap_new"), ("remove", "remove_new"), ("swap_remove", ""), ("dedup", "dedup_new"), ("dedup_by_key", "dedup_by_key_new"),
  ("sort", "sort_new"), ("sort_unstable", "sort_new"), ("sort_by_key", "sort_by_key_new"), ("sort_unstable_by_key", "sort_by_key_new"),
];

impl VisitMut for D {
  fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
    visit_mut::visit_stmt_mut(self, s);
    let syn::Stmt::Expr(Expr::MethodCall(m), Some(_)) = s else { return };
    if !matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) {
      return;
    }
    let name = m.method.to_string();
    if let Some((_, new)) = REPLACED.iter().find(|(a, b)| *a == name && !b.is_empty()) {
      let f = Ident::new(new, proc_macro2::Span::call_site());
      let (r, args) = (&m.receiver, &m.args);
      *s = parse_quote! { #r = #r.#f(#args); };
    }
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    visit_mut::visit_expr_mut(self, e);
    if let Expr::Closure(c) = e {
      if let syn::ReturnType::Type(_, t) = &c.output {
        if !has_return(&c.body) {
          let (t, b) = (t.clone(), c.body.clone());
          *c.body = parse_quote!({ let __res: #t = #b; __res });
        }
      }
    }
    let Expr::MethodCall(m) = e else { return };
    let name = m.method.to_string();
    if name == "for_each" && m.args.len() == 1 {
      if let Expr::Closure(c) = &m.args[0] {
        if c.inputs.len() == 1 && !has_return(&c.body) {
          let (p, it, b) = (strip(&c.inputs[0]), &m.receiver, &c.body);
          *e = parse_quote! { for #p in #it { #b; } };
        }
      }
      return;
    }
    if name == "with" && m.args.len() == 1 {
      if let (Expr::Closure(c), Expr::Path(st)) = (&m.args[0], &*m.receiver) {
        let upper = st.path.get_ident().map(|i| !i.to_string().contains(char::is_lowercase)).unwrap_or(false);
        if upper && c.inputs.len() == 1 && !has_return(&c.body) {
          let p = strip(&c.inputs[0]);
          let body: Vec<syn::Stmt> = match &*c.body {
            Expr::Block(b) => b.block.stmts.clone(),
            b => vec![syn::Stmt::Expr(b.clone(), None)],
          };
          *e = parse_quote! { { let #p = &mut #st; #(#body)* } };
        }
      }
      return;
    }
    if name == "fold" && m.args.len() == 2 {
      if let Expr::Closure(c) = &m.args[1] {
        if c.inputs.len() == 2 && has_loop(&c.body) && !has_return(&c.body) {
          if let Pat::Ident(id) = strip(&c.inputs[0]) {
            let (acc, p, it, init, b) = (&id.ident, strip(&c.inputs[1]), &m.receiver, &m.args[0], &c.body);
            *e = parse_quote! { { let mut #acc = #init; for #p in #it { #acc = #b; } #acc } };
          }
        }
      }
      return;
    }
    if name == "collect" {
      let Expr::MethodCall(r) = &*m.receiver else { return };
      let how = r.method.to_string();
      if !matches!(how.as_str(), "map" | "flat_map" | "filter_map") || r.args.len() != 1 {
        return;
      }
      let Expr::Closure(c) = &r.args[0] else { return };
      let fm = how == "filter_map";
      if c.inputs.len() != 1 || !(has_loop(&c.body) || (fm && has_lets(&c.body))) || (!fm && has_return(&c.body)) {
        return;
      }
      let mut body = (*c.body).clone();
      if !try_to_continue(&mut body, &mut self.q) {
        return;
      }
      let acc = Ident::new(&format!("acc{}", self.n), proc_macro2::Span::call_site());
      let item = Ident::new(&format!("item{}", self.n), proc_macro2::Span::call_site());
      let add = Ident::new(if how == "map" { "push" } else { "extend" }, proc_macro2::Span::call_site());
      self.n += 1;
      let (p, it, b) = (strip(&c.inputs[0]), &r.receiver, &body);
      let block: Expr = parse_quote! { { let mut #acc = Vec::new(); for #p in #it { let #item = #b; #acc.#add(#item); } #acc } };
      *m.receiver = block;
    }
  }
}

pub fn block(b: &mut syn::Block) {
  D { n: 0, q: 0 }.visit_block_mut(b);
}
