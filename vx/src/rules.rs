//! Conditions the assumptions rest on: who touches a cache, which methods a visitor overrides.
use serde_json::{json, Value};
use syn::visit::Visit;

use crate::{strs, Func};

struct Uses<'a> {
  name: &'a str,
  hit: bool,
}
impl<'a, 'b> Visit<'b> for Uses<'a> {
  fn visit_member(&mut self, m: &'b syn::Member) {
    if let syn::Member::Named(i) = m {
      self.hit |= i == self.name;
    }
  }
  fn visit_field_value(&mut self, f: &'b syn::FieldValue) {
    // building the structure is not an access
    self.visit_expr(&f.expr);
  }
  fn visit_path(&mut self, p: &'b syn::Path) {
    self.hit |= p.segments.last().is_some_and(|s| s.ident == self.name && self.name.chars().all(|c| !c.is_lowercase()));
    syn::visit::visit_path(self, p);
  }
}

/// Every function that mentions the field or static of a rule.
pub fn mentions(rules: &[Value], funcs: &[Func]) -> Vec<Value> {
  rules
    .iter()
    .map(|r| {
      let Some(name) = r["name"].as_str() else { return json!(null) };
      let mut keys = Vec::new();
      for f in funcs {
        let mut u = Uses { name, hit: false };
        u.visit_block(&f.block);
        if u.hit {
          keys.push(f.key.clone());
        }
      }
      json!(keys)
    })
    .collect()
}

/// The methods of the trait implementations a rule is about.
pub fn methods(rules: &[Value], asts: &[syn::File]) -> Vec<Value> {
  fn walk(items: &[syn::Item], tr: &str, ty: &str, out: &mut Vec<String>) {
    for i in items {
      match i {
        syn::Item::Impl(i) => {
          let t = i.trait_.as_ref().and_then(|t| t.1.segments.last()).map(|s| s.ident.to_string());
          if t.as_deref() == Some(tr) && crate::last_seg(&i.self_ty).as_deref() == Some(ty) {
            for m in &i.items {
              if let syn::ImplItem::Fn(f) = m {
                out.push(f.sig.ident.to_string());
              }
            }
          }
        }
        syn::Item::Mod(m) => {
          if let Some((_, items)) = &m.content {
            walk(items, tr, ty, out)
          }
        }
        _ => {}
      }
    }
  }
  rules
    .iter()
    .map(|r| {
      let (Some(tr), Some(ty)) = (r["trait"].as_str(), r["ty"].as_str()) else { return json!(null) };
      let mut out = Vec::new();
      for a in asts {
        walk(&a.items, tr, ty, &mut out);
      }
      json!(out)
    })
    .collect()
}

pub fn report(v: &Value, repo: &str) -> Value {
  let rules: Vec<Value> = v["rules"].as_array().cloned().unwrap_or_default();
  let mut funcs = Vec::new();
  let mut asts = Vec::new();
  for f in strs(&v["rule_files"]) {
    if let Some(mut ast) = std::fs::read_to_string(format!("{repo}/{f}")).ok().and_then(|s| syn::parse_file(&s).ok()) {
      crate::macros::expand(&mut ast);
      crate::collect(&ast.items, &f, &mut funcs);
      asts.push(ast);
    }
  }
  json!({"mentions": mentions(&rules, &funcs), "methods": methods(&rules, &asts)})
}
