//! Seeded generator of small Rust programs exercising the analysis: field-sensitive
//! updates, reborrows, calls, control flow, boxes, raw pointers, enums, closures, privacy.

use crate::Rng;

const PRELUDE: &str = r#"
#[derive(Clone, Copy)]
pub struct S { pub a: i32, pub b: (i32, i32) }
pub struct P<'a> { pub r: &'a mut i32, pub n: i32 }
#[derive(Clone, Copy)]
pub struct Q<'a> { pub r: &'a i32, pub t: (i32, i32) }
#[derive(Clone, Copy)]
pub enum E { A(i32), B { x: i32, y: i32 }, C }
pub struct W(pub S, pub i32);
mod m {
  pub struct H { pub b: i32, a: i32 }
  impl H {
    pub fn new(x: i32, y: i32) -> H { H { b: y, a: x } }
    pub fn get(&self) -> i32 { self.a }
    pub fn set(&mut self, x: i32) { self.a = x; }
    pub fn both(&mut self, x: i32) -> i32 { self.b = x; self.a }
  }
}
fn inc(x: &mut i32) { *x += 1; }
fn add(x: i32, y: i32) -> i32 { x + y }
fn get(x: &i32) -> i32 { *x }
fn put(x: &mut i32, y: i32) -> bool { *x = y; y > 0 }
fn pick<'a>(c: bool, x: &'a mut i32, y: &'a mut i32) -> &'a mut i32 { if c { x } else { y } }
fn first<'a>(t: &'a mut (i32, i32)) -> &'a mut i32 { &mut t.0 }
fn second<'a>(t: &'a (i32, i32), _o: &i32) -> &'a i32 { &t.1 }
fn fill(s: &mut S, v: i32) { s.a = v; s.b.1 += v; }
fn pair(x: i32) -> (i32, i32) { (x, x) }
fn mks(x: i32, y: i32) -> S { S { a: x, b: (y, x) } }
fn rec(n: i32, x: &mut i32) -> i32 { if n > 0 { *x += n; rec(n - 1, x) } else { *x } }
fn ev(n: i32, x: &mut i32) { if n > 0 { od(n - 1, x) } }
fn od(n: i32, x: &mut i32) { *x = n; ev(n - 1, x) }
fn apply(f: impl Fn(i32) -> i32, x: i32) -> i32 { f(x) }
fn apply_mut(mut f: impl FnMut()) { f() }
fn sink<T>(_: T) {}
fn maybe(c: bool, x: i32) -> Option<i32> { if c { Some(x) } else { None } }
fn choose(c: bool, s: S) -> S { if c { S { a: s.a, b: (1, 2) } } else { Clone::clone(&s) } }
"#;

#[derive(Clone, Copy, PartialEq)]
enum T {
  Int,
  Bool,
  Tup,
  St,
  En,
  Wr,
  Bx,
  Arr,
  Hd,
  RefM,
  RefS,
  RefMT,
  RefMS,
  RefST,
  RefMArr,
  NestM,
  Pw,
}

struct G {
  r: Rng,
  vars: Vec<(String, T, bool)>,
  n: usize,
  out: String,
  ind: usize,
  in_loop: usize,
}

impl G {
  fn p(&mut self, pct: usize) -> bool {
    self.r.below(100) < pct
  }
  fn line(&mut self, s: &str) {
    for _ in 0 .. self.ind {
      self.out.push_str("  ");
    }
    self.out.push_str(s);
    self.out.push('\n');
  }
  fn fresh(&mut self) -> String {
    self.n += 1;
    format!("v{}", self.n)
  }
  fn var(&mut self, ts: &[T], need_mut: bool) -> Option<(String, T)> {
    let c = self
      .vars
      .iter()
      .filter(|(_, t, m)| ts.contains(t) && (*m || !need_mut))
      .map(|(n, t, _)| (n.clone(), *t))
      .collect::<Vec<_>>();
    if c.is_empty() {
      None
    } else {
      Some(c[self.r.below(c.len())].clone())
    }
  }
  /// A readable integer place.
  fn rd(&mut self) -> String {
    use T::*;
    let all = [
      Int, Int, Tup, St, Wr, Bx, Arr, Hd, RefM, RefS, RefMT, RefMS, RefST, RefMArr, NestM, Pw,
    ];
    let Some((v, t)) = self.var(&all, false) else {
      return format!("{}", self.r.below(9));
    };
    let f = self.r.below(2);
    match t {
      Int => v,
      Tup => format!("{v}.{f}"),
      St => [format!("{v}.a"), format!("{v}.b.1"), format!("{v}.b.0")][self.r.below(3)].clone(),
      Wr => [format!("{v}.0.a"), format!("{v}.1"), format!("{v}.0.b.0")][self.r.below(3)].clone(),
      Bx | RefM | RefS => format!("*{v}"),
      Arr => format!("{v}[{f}]"),
      Hd => [format!("{v}.b"), format!("{v}.get()")][f].clone(),
      RefMT | RefST => [format!("(*{v}).{f}"), format!("{v}.{f}")][f].clone(),
      RefMS => [format!("{v}.a"), format!("{v}.b.{f}")][f].clone(),
      RefMArr => format!("{v}[{f}]"),
      NestM => [format!("*{v}.0"), format!("{v}.1")][f].clone(),
      Pw => [format!("*{v}.r"), format!("{v}.n")][f].clone(),
      _ => "0".into(),
    }
  }
  /// A writable integer place.
  fn wr(&mut self) -> Option<String> {
    use T::*;
    let owned = [Int, Int, Tup, St, Wr, Bx, Arr, Hd];
    let refs = [RefM, RefMT, RefMS, RefMArr, NestM, Pw];
    let (v, t) = if self.p(50) {
      self.var(&refs, false).or_else(|| self.var(&owned, true))
    } else {
      self.var(&owned, true).or_else(|| self.var(&refs, false))
    }?;
    let f = self.r.below(2);
    Some(match t {
      Int => v,
      Tup => format!("{v}.{f}"),
      St => [format!("{v}.a"), format!("{v}.b.{f}")][self.r.below(2)].clone(),
      Wr => [format!("{v}.0.a"), format!("{v}.1"), format!("{v}.0.b.0")][self.r.below(3)].clone(),
      Bx | RefM => format!("*{v}"),
      Arr => format!("{v}[{f}]"),
      Hd => format!("{v}.b"),
      RefMT => [format!("(*{v}).{f}"), format!("{v}.{f}")][f].clone(),
      RefMS => [format!("{v}.a"), format!("{v}.b.{f}")][f].clone(),
      RefMArr => format!("{v}[{f}]"),
      NestM => [format!("*{v}.0"), format!("{v}.1")][f].clone(),
      Pw => [format!("*{v}.r"), format!("{v}.n")][f].clone(),
      _ => return None,
    })
  }
  fn int(&mut self, d: usize) -> String {
    match self.r.below(if d == 0 { 4 } else { 10 }) {
      0 => format!("{}", self.r.below(9)),
      1 .. 4 => self.rd(),
      4 => format!("{} + {}", self.int(d - 1), self.rd()),
      5 => format!("add({}, {})", self.int(d - 1), self.rd()),
      6 => format!("get(&{})", self.rd()),
      7 => format!("if {} {{ {} }} else {{ {} }}", self.cond(), self.int(d - 1), self.rd()),
      8 => format!("mks({}, {}).a", self.int(d - 1), self.rd()),
      _ => format!("apply(|q| q + 1, {})", self.rd()),
    }
  }
  fn cond(&mut self) -> String {
    if let Some((v, _)) = self.var(&[T::Bool], false)
      && self.p(40)
    {
      return v;
    }
    format!("{} > {}", self.rd(), self.r.below(5))
  }
  fn block(&mut self, depth: usize, n: usize) {
    let save = self.vars.len();
    self.ind += 1;
    for _ in 0 .. n {
      self.stmt(depth);
    }
    self.ind -= 1;
    self.vars.truncate(save);
  }
  fn decl(&mut self) {
    use T::*;
    let v = self.fresh();
    let kinds = [
      Int, Int, Bool, Tup, Tup, St, St, En, Wr, Bx, Arr, Hd, RefM, RefM, RefS, RefMT, RefMS,
      RefST, RefMArr, NestM, Pw,
    ];
    let mut t = kinds[self.r.below(kinds.len())];
    let f = self.r.below(2);
    let e = match t {
      Int => self.int(2),
      Bool => self.cond(),
      Tup => match self.r.below(4) {
        0 => format!("pair({})", self.rd()),
        1 => self.var(&[Tup], false).map(|v| v.0).unwrap_or("(1, 2)".into()),
        2 => self.var(&[St], false).map(|v| format!("{}.b", v.0)).unwrap_or("(3, 4)".into()),
        _ => format!("({}, {})", self.rd(), self.int(1)),
      },
      St => match self.r.below(5) {
        0 => format!("mks({}, {})", self.rd(), self.rd()),
        1 => self.var(&[St], false).map(|v| v.0).unwrap_or("mks(1, 2)".into()),
        2 => {
          let c = self.cond();
          self
            .var(&[St], false)
            .map(|v| format!("choose({c}, {})", v.0))
            .unwrap_or("mks(1, 2)".into())
        }
        3 => self.var(&[RefMS], false).map(|v| format!("*{}", v.0)).unwrap_or("mks(1, 2)".into()),
        _ => format!("S {{ a: {}, b: ({}, {}) }}", self.rd(), self.rd(), self.rd()),
      },
      En => match self.r.below(3) {
        0 => format!("E::A({})", self.rd()),
        1 => format!("E::B {{ x: {}, y: {} }}", self.rd(), self.rd()),
        _ => {
          let c = self.cond();
          format!("if {c} {{ E::A({}) }} else {{ E::C }}", self.rd())
        }
      },
      Wr => {
        let s = self.var(&[St], false).map(|v| v.0).unwrap_or("mks(1, 2)".into());
        format!("W({s}, {})", self.rd())
      }
      Bx => format!("Box::new({})", self.rd()),
      Arr => format!("[{}, {}]", self.rd(), self.rd()),
      Hd => format!("m::H::new({}, {})", self.rd(), self.rd()),
      _ => {
        let x = match t {
          RefM => {
            let o = match self.r.below(4) {
              0 => self.var(&[RefMT], false).map(|x| format!("first({})", x.0)),
              1 => self.var(&[RefM], false).map(|x| format!("&mut *{}", x.0)),
              2 => {
                let c = self.cond();
                let (a, b) = (self.var(&[Int], true), self.var(&[RefM], false));
                match (a, b) {
                  (Some(a), Some(b)) => Some(format!("pick({c}, &mut {}, {})", a.0, b.0)),
                  _ => None,
                }
              }
              _ => None,
            };
            match o {
              Some(o) => Some(o),
              None => self.wr().map(|w| format!("&mut {w}")),
            }
          }
          RefS => {
            let r = self.rd();
            if r.contains("get()") || r.chars().all(|c| c.is_ascii_digit()) {
              None
            } else if self.p(30) {
              self.var(&[RefST], false).map(|x| format!("second({}, &{r})", x.0))
            } else {
              Some(format!("&{r}"))
            }
          }
          RefMT => self.var(&[Tup], true).map(|x| format!("&mut {}", x.0)).or_else(|| {
            self.var(&[St], true).map(|x| format!("&mut {}.b", x.0))
          }),
          RefMS => self.var(&[St], true).map(|x| format!("&mut {}", x.0)).or_else(|| {
            self.var(&[Wr], true).map(|x| format!("&mut {}.0", x.0))
          }),
          RefST => self.var(&[Tup], false).map(|x| format!("&{}", x.0)),
          RefMArr => self.var(&[Arr], true).map(|x| format!("&mut {}", x.0)),
          NestM => self.wr().map(|w| format!("(&mut {w}, {f})")),
          Pw => self.wr().map(|w| format!("P {{ r: &mut {w}, n: {f} }}")),
          _ => None,
        };
        match x {
          Some(x) => x,
          None => {
            t = Int;
            self.int(1)
          }
        }
      }
    };
    let m = self.p(85) || matches!(t, NestM | Pw);
    self.line(&format!("let {}{v} = {e};", if m { "mut " } else { "" }));
    self.vars.push((v, t, m));
  }
  fn stmt(&mut self, depth: usize) {
    use T::*;
    match self.r.below(22) {
      0 .. 5 => self.decl(),
      5 .. 9 => {
        if let Some(w) = self.wr() {
          let e = self.int(2);
          let op = ["=", "+=", "="][self.r.below(3)];
          self.line(&format!("{w} {op} {e};"));
        }
      }
      9 => {
        if let Some(w) = self.wr() {
          let e = self.rd();
          let s = match self.r.below(5) {
            0 => format!("inc(&mut {w});"),
            1 => format!("let _k = put(&mut {w}, {e});"),
            2 => format!("rec(3, &mut {w});"),
            3 => format!("ev({e}, &mut {w});"),
            _ => format!("apply_mut(|| {w} += 1);"),
          };
          self.line(&s);
        }
      }
      10 => {
        if let Some((v, t)) = self.var(&[St, RefMS, Tup, RefMT, Hd, Wr], true) {
          let e = self.rd();
          let s = match t {
            St => [format!("fill(&mut {v}, {e});"), format!("{v} = mks({e}, 1);"), format!("{v} = choose({e} > 1, {v});")]
              [self.r.below(3)]
            .clone(),
            RefMS => [format!("fill({v}, {e});"), format!("*{v} = mks({e}, 2);")][self.r.below(2)].clone(),
            Tup => [format!("*first(&mut {v}) = {e};"), format!("{v} = pair({e});")][self.r.below(2)].clone(),
            RefMT => [format!("*{v} = pair({e});"), format!("*{v} = ({e}, 1);")][self.r.below(2)].clone(),
            Hd => [format!("{v}.set({e});"), format!("let _h = {v}.both({e});")][self.r.below(2)].clone(),
            _ => format!("{v}.0 = mks({e}, 0);"),
          };
          self.line(&s);
        }
      }
      11 .. 14 if depth > 0 => {
        let c = self.cond();
        self.line(&format!("if {c} {{"));
        let n = 1 + self.r.below(3);
        self.block(depth - 1, n);
        if self.p(50) {
          self.line("} else {");
          let n = 1 + self.r.below(3);
          self.block(depth - 1, n);
        }
        self.line("}");
      }
      14 | 15 if depth > 0 => {
        let c = self.cond();
        self.line(&format!("while {c} {{"));
        self.in_loop += 1;
        let n = 1 + self.r.below(3);
        self.block(depth - 1, n);
        self.in_loop -= 1;
        self.line("}");
      }
      16 if depth > 0 => {
        if let Some((v, _)) = self.var(&[En], false) {
          let a = self.fresh();
          self.line(&format!("match {v} {{ E::A({a}) => {{"));
          self.vars.push((a, Int, false));
          self.block(depth - 1, 2);
          self.vars.pop();
          let (x, y) = (self.fresh(), self.fresh());
          self.line(&format!("}} E::B {{ x: {x}, y: {y} }} => {{"));
          self.vars.push((x, Int, false));
          self.vars.push((y, Int, false));
          self.block(depth - 1, 2);
          self.vars.pop();
          self.vars.pop();
          self.line("} E::C => {} }");
        }
      }
      17 => {
        let c = self.cond();
        let jump = if self.in_loop > 0 && self.p(70) {
          ["break;", "continue;"][self.r.below(2)].to_string()
        } else {
          format!("return {};", self.rd())
        };
        self.line(&format!("if {c} {{ {jump} }}"));
      }
      18 => {
        if let Some((v, _)) = self.var(&[Int, Bx], true) {
          let e = self.rd();
          let q = self.fresh();
          self.line(&format!("let {q}: *mut i32 = &mut {v} as *mut _ as *mut i32; unsafe {{ *{q} = {e}; }}"));
        }
      }
      19 => {
        let c = self.cond();
        let e = self.rd();
        let v = self.fresh();
        self.line(&format!("let {v} = match maybe({c}, {e}) {{ Some(z) => z, None => 0 }};"));
        self.vars.push((v, Int, false));
      }
      20 => {
        let v = self.fresh();
        if let Some(w) = self.wr() {
          let e = self.rd();
          self.line(&format!("{{ let mut {v} = || {{ {w} = {e}; }}; {v}(); }}"));
        }
      }
      _ => {
        if let Some((v, _)) = self.var(&[RefM, RefMT, RefMS, Pw, NestM], false) {
          self.line(&format!("sink({v});"));
          self.vars.retain(|x| x.0 != v);
        }
      }
    }
  }
}

pub fn program(seed: u64) -> String {
  let mut g = G {
    r: Rng(seed),
    vars: vec![],
    n: 0,
    out: PRELUDE.to_string(),
    ind: 1,
    in_loop: 0,
  };
  let fns = 2;
  for k in 0 .. fns {
    use T::*;
    g.vars.clear();
    let kinds = [
      (Int, "i32"),
      (Int, "i32"),
      (Bool, "bool"),
      (Tup, "(i32, i32)"),
      (St, "S"),
      (En, "E"),
      (RefM, "&mut i32"),
      (RefS, "&i32"),
      (RefMT, "&mut (i32, i32)"),
      (RefMS, "&mut S"),
      (RefMArr, "&mut [i32; 2]"),
      (NestM, "(&mut i32, i32)"),
      (Pw, "P<'_>"),
      (Bx, "Box<i32>"),
      (Wr, "W"),
      (Hd, "m::H"),
    ];
    let mut params = vec![];
    for _ in 0 .. 1 + g.r.below(4) {
      let (t, s) = kinds[g.r.below(kinds.len())];
      let v = g.fresh();
      params.push(format!("mut {v}: {s}"));
      g.vars.push((v, t, true));
    }
    g.line("");
    g.out.push_str(&format!("pub fn f{k}({}) -> i32 {{\n", params.join(", ")));
    let n = 4 + g.r.below(8);
    for _ in 0 .. n {
      g.stmt(2);
    }
    let e = g.int(1);
    g.line(&e);
    g.out.push_str("}\n");
  }
  g.out
}
