#[derive(Clone, Copy)]
pub struct S { pub a: i32, pub b: (i32, i32) }
pub enum E { A(i32), B { x: i32, y: i32 }, C }
pub fn dep_add(a: i32, b: i32) -> i32 { a + b }
pub fn dep_branch(a: i32, c: bool) -> i32 { if c { a } else { 0 } }
pub fn dep_struct(a: i32, b: i32) -> S { S { a, b: (0, b) } }
pub fn dep_copy(s: S) -> S { let t = s; t }
pub fn dep_field(a: i32, b: i32) -> i32 { let mut s = S { a: 0, b: (0, 0) }; s.b.1 = a; s.a = b; let t = s; t.b.1 + t.a }
pub fn dep_ref(a: i32) -> i32 { let mut x = 0; let r = &mut x; *r = a; x }
pub fn dep_ref_field(a: i32) -> i32 { let mut x = (0, 0); let r = &mut x; r.1 = a; x.1 }
pub fn dep_reborrow(a: i32) -> i32 { let mut x = (0, 0); let r = &mut x; let q = &mut *r; let z = &mut q.0; *z = a; r.0 }
pub fn dep_loop(n: i32, a: i32) -> i32 { let mut s = 0; for _ in 0 .. n { s += a; } s }
pub fn dep_while(n: i32) -> i32 { let mut s = 0; while s < n { s += 1; } s }
pub fn dep_enum(a: i32, c: bool) -> i32 { let e = if c { E::B { x: a, y: 0 } } else { E::C }; match e { E::A(x) => x, E::B { x, .. } => x, E::C => 0 } }
pub fn set(x: &mut i32, v: i32) { *x = v }
pub fn dep_call(a: i32) -> i32 { let mut x = 0; set(&mut x, a); x }
pub fn pick<'a>(x: &'a mut i32, y: &'a mut i32) -> &'a mut i32 { if *x > 0 { x } else { y } }
pub fn dep_alias(a: i32, b: i32) -> (i32, i32) { let (mut x, mut y) = (0, 0); let r = pick(&mut x, &mut y); *r = a + b; (x, y) }
pub fn dep_box(a: i32) -> i32 { let mut b = Box::new(0); *b = a; *b }
pub fn dep_vec(a: i32) -> i32 { let mut v = vec![0]; v.push(a); v[0] }
pub fn dep_vec_ref(a: i32) -> i32 { let mut v = vec![0]; *v.get_mut(0).unwrap() = a; v[0] }
pub fn dep_index(i: usize, a: i32) -> i32 { let mut v = [0; 4]; v[i] = a; v[2] }
pub fn dep_arg_ref(r: &i32) -> i32 { *r }
pub fn dep_nested(r: &mut (i32, &i32)) -> i32 { r.0 + *r.1 }
pub fn dep_closure(a: i32, b: i32) -> i32 { let f = |x: i32| x + a; f(b) }
pub fn dep_clone(s: String) -> String { let t = s.clone(); t }
pub fn dep_implicit(a: i32) -> i32 { let mut x = 0; if a > 0 { x = 1; } x }
pub fn dep_match(a: Option<i32>) -> i32 { match a { Some(x) => x, None => 3 } }
pub union U { pub i: i32, pub f: f32 }
pub fn dep_union(a: i32) -> f32 { let u = U { i: a }; unsafe { u.f } }
pub struct In<'a> { pub r: &'a mut i32 }
pub fn dep_inner(a: i32) -> i32 { let mut x = 0; { let i = In { r: &mut x }; *i.r = a; } x }
pub fn dep_swap(a: i32, b: i32) -> i32 { let (mut x, mut y) = (a, b); std::mem::swap(&mut x, &mut y); x }
pub fn indep_over(a: i32, b: i32) -> i32 { let mut x = b; x = a; x }
pub fn indep_field(a: i32, b: i32) -> i32 { let mut s = (0, b); s.0 = a; s.0 }
pub fn indep_whole(a: i32, b: i32) -> S { let mut s = S { a: b, b: (b, b) }; s = S { a, b: (a, a) }; s }
pub fn indep_shared(a: i32, b: &i32) -> i32 { let x = a; let _y = *b; x }
pub fn get(x: &i32, y: &i32) -> i32 { *x + *y }
pub fn indep_immut(a: i32, b: i32) -> i32 { let x = a; let _z = get(&x, &b); x }
pub fn indep_other(a: i32, b: i32) -> i32 { let (mut x, mut y) = (0, 0); { let r = &mut x; *r = a; } { let r = &mut y; *r = b; } x }
pub fn indep_moved(s: String, t: String) -> String { drop(t); s }
pub fn dep_read_index(v: [i32; 4], i: usize) -> i32 { v[i] }
pub fn dep_ref_index(v: &[i32], i: usize) -> &i32 { &v[i] }
pub fn dep_nested_index(v: &mut [[S; 2]; 2], i: usize, j: usize, s: S) -> S { v[i][j] = s; v[0][1] }
pub fn dep_element(a: i32, b: i32) -> i32 { let mut v = [0; 2]; v[0] = a; v[1] = b; v[0] }
pub fn dep_element_field(a: i32, b: i32, i: usize, j: usize) -> i32 { let mut v = [(0, 0); 2]; v[i].0 = a; v[j].0 = b; v[0].0 }
pub fn dep_element_slice(v: &mut [i32], a: i32, b: i32) -> i32 { v[0] = a; v[1] = b; v[0] }
pub fn indep_array(a: i32, b: i32) -> i32 { let mut v = [b; 2]; v = [a; 2]; v[0] }
