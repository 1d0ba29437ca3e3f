//! Expansion of a file's own one-rule `macro_rules!` in patterns.
use std::collections::HashMap;

use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use syn::visit_mut::{self, VisitMut};

struct Rule {
  params: Vec<String>,
  body: TokenStream,
}

/// `($a:ident, $b:ident) => { .. }`
fn rule(ts: TokenStream) -> Option<Rule> {
  let t: Vec<TokenTree> = ts.into_iter().collect();
  let (TokenTree::Group(pats), TokenTree::Group(body)) = (t.first()?, t.get(3)?) else {
    return None;
  };
  if t.len() > 4 && !(t.len() == 5 && matches!(&t[4], TokenTree::Punct(p) if p.as_char() == ';')) {
    return None;
  }
  let p: Vec<TokenTree> = pats.stream().into_iter().collect();
  let mut params = Vec::new();
  let mut i = 0;
  while i < p.len() {
    match (&p[i], p.get(i + 1), p.get(i + 2), p.get(i + 3)) {
      (TokenTree::Punct(d), Some(TokenTree::Ident(n)), Some(TokenTree::Punct(c)), Some(TokenTree::Ident(_)))
        if d.as_char() == '$' && c.as_char() == ':' =>
      {
        params.push(n.to_string());
        i += 4;
      }
      _ => return None,
    }
    match p.get(i) {
      None => break,
      Some(TokenTree::Punct(c)) if c.as_char() == ',' => i += 1,
      _ => return None,
    }
  }
  Some(Rule { params, body: body.stream() })
}

fn subst(ts: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
  let t: Vec<TokenTree> = ts.into_iter().collect();
  let mut out = TokenStream::new();
  let mut i = 0;
  while i < t.len() {
    match (&t[i], t.get(i + 1)) {
      (TokenTree::Punct(d), Some(TokenTree::Ident(n))) if d.as_char() == '$' && m.contains_key(&n.to_string()) => {
        out.extend(m[&n.to_string()].clone());
        i += 2;
        continue;
      }
      (TokenTree::Group(g), _) => {
        out.extend([TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), m)))]);
      }
      (x, _) => out.extend([x.clone()]),
    }
    i += 1;
  }
  out
}

struct V {
  rules: HashMap<String, Rule>,
}
impl VisitMut for V {
  fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
    if let syn::Pat::Macro(m) = p {
      let n = m.mac.path.segments.last().unwrap().ident.to_string();
      if let Some(r) = self.rules.get(&n) {
        let mut args = vec![TokenStream::new()];
        for t in m.mac.tokens.clone() {
          match &t {
            TokenTree::Punct(c) if c.as_char() == ',' => args.push(TokenStream::new()),
            _ => args.last_mut().unwrap().extend([t]),
          }
        }
        if args.len() == r.params.len() {
          let m = r.params.iter().cloned().zip(args).collect();
          let ts = subst(r.body.clone(), &m);
          use syn::parse::Parser;
          if let Ok(q) = syn::Pat::parse_multi_with_leading_vert.parse2(ts) {
            *p = q;
          }
        }
      }
    }
    visit_mut::visit_pat_mut(self, p);
  }
}

pub fn expand(f: &mut syn::File) {
  let mut rules = HashMap::new();
  for i in &f.items {
    if let syn::Item::Macro(m) = i {
      if let (Some(n), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
        let mut ts = m.mac.tokens.clone();
        let v: Vec<TokenTree> = ts.clone().into_iter().collect();
        if let [TokenTree::Group(g)] = v.as_slice() {
          if g.delimiter() == Delimiter::Brace && !g.stream().is_empty() && rule(ts.clone()).is_none() {
            ts = g.stream();
          }
        }
        if let Some(r) = rule(ts) {
          rules.insert(n.to_string(), r);
        }
      }
    }
  }
  V { rules }.visit_file_mut(f);
}
