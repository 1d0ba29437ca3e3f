//! Mechanical extraction of functions of /repo into Verus.
//!
//! Every Rust expression becomes a specification expression over the models in
//! contracts/; statements (let, assignment, if, match, loops, return) stay executable
//! statements. See DESIGN.md, "What the extraction drops".
mod desugar;
mod emit;
mod macros;
mod pure;
mod rules;
mod stream;

use std::collections::HashMap;
use std::io::Read;

use serde_json::{json, Value};

pub struct Func {
  pub key: String,
  pub name: String,
  pub self_ty: Option<String>,
  pub file: String,
  pub sig: syn::Signature,
  pub block: syn::Block,
}

fn last_seg(ty: &syn::Type) -> Option<String> {
  match ty {
    syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
    syn::Type::Reference(r) => last_seg(&r.elem),
    _ => None,
  }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
  attrs.iter().any(|a| {
    let s = quote::quote!(#a).to_string().replace(' ', "");
    s.contains("cfg(test)") || s.starts_with("#[test")
  })
}

fn collect(items: &[syn::Item], file: &str, out: &mut Vec<Func>) {
  for item in items {
    match item {
      syn::Item::Fn(f) if !is_test(&f.attrs) => out.push(Func {
        key: f.sig.ident.to_string(),
        name: f.sig.ident.to_string(),
        self_ty: None,
        file: file.into(),
        sig: f.sig.clone(),
        block: (*f.block).clone(),
      }),
      syn::Item::Impl(i) if !is_test(&i.attrs) => {
        let ty = last_seg(&i.self_ty).unwrap_or_default();
        for it in &i.items {
          if let syn::ImplItem::Fn(f) = it {
            if is_test(&f.attrs) {
              continue;
            }
            out.push(Func {
              key: format!("{ty}::{}", f.sig.ident),
              name: f.sig.ident.to_string(),
              self_ty: Some(ty.clone()),
              file: file.into(),
              sig: f.sig.clone(),
              block: f.block.clone(),
            });
          }
        }
      }
      syn::Item::Mod(m) if !is_test(&m.attrs) => {
        if let Some((_, items)) = &m.content {
          collect(items, file, out);
        }
      }
      _ => {}
    }
  }
}

pub struct Cfg {
  pub contracts: Vec<Value>,
  pub by_key: HashMap<String, usize>,
  /// method name -> contract index, when only one contract has that name
  pub by_name: HashMap<String, Vec<usize>>,
  pub mutators: std::collections::HashSet<String>,
  pub drops: std::collections::HashSet<String>,
  pub types: HashMap<String, String>,
  pub consts: HashMap<String, String>,
  pub funcs: Vec<Func>,
}

fn strs(v: &Value) -> Vec<String> {
  v.as_array()
    .map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect())
    .unwrap_or_default()
}

fn map(v: &Value) -> HashMap<String, String> {
  v.as_object()
    .map(|o| {
      o.iter()
        .map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string()))
        .collect()
    })
    .unwrap_or_default()
}

/// A local closure under contract becomes a function of the variables it captures.
fn lift(c: &Value, funcs: &mut Vec<Func>) {
  let (Some(name), Some(owner)) = (c["closure"].as_str(), c["owner"].as_str()) else { return };
  struct V<'a>(&'a str, Vec<syn::ExprClosure>);
  impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
    fn visit_local(&mut self, l: &'b syn::Local) {
      if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
        if let syn::Expr::Closure(k) = &*init.expr {
          if i.ident == self.0 {
            self.1.push(k.clone());
          }
        }
      }
      syn::visit::visit_local(self, l);
    }
  }
  let Some(o) = funcs.iter().find(|f| f.key == owner && f.file == c["file"].as_str().unwrap_or("")) else { return };
  let mut v = V(name, vec![]);
  syn::visit::Visit::visit_block(&mut v, &o.block);
  if v.1.len() != 1 {
    return;
  }
  let k = v.1.pop().unwrap();
  let mut args: Vec<syn::FnArg> = Vec::new();
  for cap in strs(&c["captures"]) {
    if cap == "self" {
      args.push(syn::parse_quote!(&self));
    } else {
      let id = syn::Ident::new(&cap, proc_macro2::Span::call_site());
      args.push(syn::parse_quote!(#id: ()));
    }
  }
  for p in &k.inputs {
    args.push(match p {
      syn::Pat::Type(t) => syn::FnArg::Typed(t.clone()),
      p => syn::parse_quote!(#p: ()),
    });
  }
  let id = syn::Ident::new(name, proc_macro2::Span::call_site());
  let f: syn::ItemFn = match &*k.body {
    syn::Expr::Block(b) => {
      let b = &b.block;
      syn::parse_quote!(fn #id(#(#args),*) #b)
    }
    e => syn::parse_quote!(fn #id(#(#args),*) { #e }),
  };
  let new = Func {
    key: c["key"].as_str().unwrap().into(),
    name: name.into(),
    self_ty: o.self_ty.clone(),
    file: o.file.clone(),
    sig: f.sig,
    block: *f.block,
  };
  funcs.push(new);
}

fn main() {
  let mut input = String::new();
  std::io::stdin().read_to_string(&mut input).unwrap();
  let v: Value = serde_json::from_str(&input).unwrap();
  let repo = v["repo"].as_str().unwrap();
  let mut funcs = Vec::new();
  let mut unread = Vec::new();
  for f in strs(&v["files"]) {
    match std::fs::read_to_string(format!("{repo}/{f}"))
      .map_err(|e| e.to_string())
      .and_then(|s| syn::parse_file(&s).map_err(|e| e.to_string()))
    {
      Ok(mut ast) => {
        macros::expand(&mut ast);
        collect(&ast.items, &f, &mut funcs)
      }
      Err(e) => unread.push(json!([f, e])),
    }
  }
  for f in &mut funcs {
    desugar::block(&mut f.block);
  }
  let contracts = v["contracts"].as_array().unwrap().clone();
  for c in &contracts {
    lift(c, &mut funcs);
  }
  let mut by_key = HashMap::new();
  let mut by_name: HashMap<String, Vec<usize>> = HashMap::new();
  for (i, c) in contracts.iter().enumerate() {
    let key = c["key"].as_str().unwrap().to_string();
    let name = key.rsplit("::").next().unwrap().to_string();
    by_key.insert(key, i);
    by_name.entry(name).or_default().push(i);
  }
  let cfg = Cfg {
    contracts,
    by_key,
    by_name,
    mutators: strs(&v["mutators"]).into_iter().collect(),
    drops: strs(&v["drops"]).into_iter().collect(),
    types: map(&v["types"]),
    consts: map(&v["consts"]),
    funcs,
  };
  let mut out = Vec::new();
  for (i, c) in cfg.contracts.iter().enumerate() {
    if c["assumed"].as_bool().unwrap_or(false) {
      continue;
    }
    let key = c["key"].as_str().unwrap();
    let file = c["file"].as_str().unwrap();
    let src_key = c["src"].as_str().unwrap_or(key);
    let found: Vec<&Func> = cfg
      .funcs
      .iter()
      .filter(|f| f.key == src_key && f.file == file)
      .collect();
    let res = match found.len() {
      1 => emit::emit_fn(&cfg, i, found[0]),
      0 => Err(format!("{src_key} not found in {file}")),
      _ => Err(format!("{src_key} is ambiguous in {file}")),
    };
    out.push(match res {
      Ok(r) => json!({"key": key, "ok": true, "text": r.text, "loops": r.loops,
        "dropped": r.dropped, "weak": r.weak, "inlined": r.inlined}),
      Err(e) => json!({"key": key, "ok": false, "reason": e}),
    });
  }
  println!("{}", json!({"functions": out, "unread": unread, "rules": rules::report(&v, repo)}));
}
