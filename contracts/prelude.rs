// Abstract collections. Every iterator, Vec, slice and SmallVec is a `Lst`; hash sets and
// bit sets are `HSet`/`LSet`; hash maps are `HMap`. Iteration order of hash based
// collections is an unknown permutation (`shuffle`).
pub enum Opt<T> { None, Some(T) }
pub enum Res<T, E> { Ok(T), Err(E) }
pub enum Either<A, B> { Left(A), Right(B) }
pub struct Lst<T> { pub s: Seq<T> }
pub struct HSet<T> { pub s: Seq<T> }
#[verifier::reject_recursive_types(K)]
pub struct HMap<K, V> { pub keys: HSet<K>, pub f: spec_fn(K) -> V }

#[verifier::external_body]
pub fn mk<T>(Ghost(x): Ghost<T>) -> (r: T) ensures r == x { unimplemented!() }
#[verifier::external_body]
pub fn diverge<T>() -> (r: T) ensures false { unimplemented!() }
#[verifier::inline] pub open spec fn same<T>(w: T, x: T) -> T { x }
pub uninterp spec fn absurd<T>() -> T;

pub trait IntoLst<T>: Sized { spec fn into_lst(self) -> Lst<T>; }
pub trait FromLst<T>: Sized { spec fn from_lst(l: Lst<T>) -> Self; }
pub trait Dflt: Sized { spec fn dflt() -> Self; }

impl<T> IntoLst<T> for Lst<T> { open spec fn into_lst(self) -> Lst<T> { self } }
impl<T> IntoLst<T> for HSet<T> { open spec fn into_lst(self) -> Lst<T> { self.iter() } }
impl<T> IntoLst<T> for Opt<T> { open spec fn into_lst(self) -> Lst<T> { self.into_iter() } }
impl<K, V> IntoLst<(K, V)> for HMap<K, V> { open spec fn into_lst(self) -> Lst<(K, V)> { self.iter() } }
impl<T> FromLst<T> for Lst<T> { open spec fn from_lst(l: Lst<T>) -> Lst<T> { l } }
impl<T> FromLst<T> for HSet<T> { open spec fn from_lst(l: Lst<T>) -> HSet<T> { HSet::empty().extend_upd(l) } }
impl<K, V> FromLst<(K, V)> for HMap<K, V> { open spec fn from_lst(l: Lst<(K, V)>) -> HMap<K, V> { hmap_from(l.s) } }
impl<T> Dflt for Lst<T> { open spec fn dflt() -> Lst<T> { Lst { s: Seq::empty() } } }
impl<T> Dflt for HSet<T> { open spec fn dflt() -> HSet<T> { HSet::empty() } }

impl<T> Opt<T> {
  #[verifier::inline] pub open spec fn el(self, x: T) -> T { x }
  pub open spec fn flatten_lst<U>(self, f: spec_fn(T) -> Lst<U>) -> Lst<U> { match self { Opt::Some(x) => f(x), Opt::None => Lst::new() } }
  pub open spec fn map<U>(self, f: spec_fn(T) -> U) -> Opt<U> { match self { Opt::Some(x) => Opt::Some(f(x)), Opt::None => Opt::None } }
  pub open spec fn and_then<U>(self, f: spec_fn(T) -> Opt<U>) -> Opt<U> { match self { Opt::Some(x) => f(x), Opt::None => Opt::None } }
  pub open spec fn filter(self, f: spec_fn(T) -> bool) -> Opt<T> { match self { Opt::Some(x) => if f(x) { self } else { Opt::None }, Opt::None => Opt::None } }
  pub open spec fn into_iter(self) -> Lst<T> { match self { Opt::Some(x) => Lst { s: seq![x] }, Opt::None => Lst { s: Seq::empty() } } }
  pub open spec fn iter(self) -> Lst<T> { self.into_iter() }
  pub open spec fn is_some(self) -> bool { match self { Opt::Some(x) => true, Opt::None => false } }
  pub open spec fn is_none(self) -> bool { !self.is_some() }
  pub open spec fn unwrap(self) -> T { match self { Opt::Some(x) => x, Opt::None => absurd() } }
  pub open spec fn expect<S>(self, m: S) -> T { self.unwrap() }
  pub open spec fn copied(self) -> Opt<T> { self }
  pub open spec fn cloned(self) -> Opt<T> { self }
  /// The value taken (that nothing is left behind is not modelled: a second `take().unwrap()` panics).
  pub open spec fn take(self) -> Opt<T> { self }
  pub open spec fn unwrap_or(self, d: T) -> T { match self { Opt::Some(x) => x, Opt::None => d } }
  pub open spec fn unwrap_or_else(self, f: spec_fn() -> T) -> T { match self { Opt::Some(x) => x, Opt::None => f() } }
  pub open spec fn map_or<U>(self, d: U, f: spec_fn(T) -> U) -> U { match self { Opt::Some(x) => f(x), Opt::None => d } }
  pub open spec fn is_some_and(self, f: spec_fn(T) -> bool) -> bool { match self { Opt::Some(x) => f(x), Opt::None => false } }
  pub open spec fn ok_or<E>(self, e: E) -> Res<T, E> { match self { Opt::Some(x) => Res::Ok(x), Opt::None => Res::Err(e) } }
}
impl<T: Dflt> Opt<T> {
  pub open spec fn unwrap_or_default(self) -> T { match self { Opt::Some(x) => x, Opt::None => T::dflt() } }
}
impl<T, E> Res<T, E> {
  #[verifier::inline] pub open spec fn el(self, x: T) -> T { x }
  #[verifier::inline] pub open spec fn el_err(self, x: E) -> E { x }
  pub open spec fn ok(self) -> Opt<T> { match self { Res::Ok(x) => Opt::Some(x), Res::Err(_) => Opt::None } }
  pub open spec fn is_ok(self) -> bool { self.ok().is_some() }
  pub open spec fn unwrap(self) -> T { match self { Res::Ok(x) => x, Res::Err(_) => absurd() } }
  pub open spec fn map_err<F>(self, f: spec_fn(E) -> F) -> Res<T, F> { match self { Res::Ok(x) => Res::Ok(x), Res::Err(e) => Res::Err(f(e)) } }
  pub open spec fn map<U>(self, f: spec_fn(T) -> U) -> Res<U, E> { match self { Res::Ok(x) => Res::Ok(f(x)), Res::Err(e) => Res::Err(e) } }
}
pub trait BoolExt: Sized { spec fn then_some_<T>(self, x: T) -> Opt<T>; spec fn then_<T>(self, f: spec_fn() -> T) -> Opt<T>; }
impl BoolExt for bool {
  open spec fn then_some_<T>(self, x: T) -> Opt<T> { if self { Opt::Some(x) } else { Opt::None } }
  open spec fn then_<T>(self, f: spec_fn() -> T) -> Opt<T> { if self { Opt::Some(f()) } else { Opt::None } }
}

pub trait IntExt: Sized { spec fn saturating_sub(self, o: int) -> int; spec fn saturating_add(self, o: int) -> int; spec fn min(self, o: int) -> int; spec fn max(self, o: int) -> int; spec fn abs_diff(self, o: int) -> int; }
impl IntExt for int {
  open spec fn saturating_sub(self, o: int) -> int { if self > o { self - o } else { 0 } }
  open spec fn saturating_add(self, o: int) -> int { self + o }
  open spec fn min(self, o: int) -> int { if self < o { self } else { o } }
  open spec fn max(self, o: int) -> int { if self < o { o } else { self } }
  open spec fn abs_diff(self, o: int) -> int { if self < o { o - self } else { self - o } }
}
pub trait ToInt: Sized { spec fn to_int(self) -> int; }
impl ToInt for int { open spec fn to_int(self) -> int { self } }
impl ToInt for bool { open spec fn to_int(self) -> int { if self { 1 } else { 0 } } }

// ---- sequences -------------------------------------------------------------------------
pub open spec fn flat<T, U>(s: Seq<T>, f: spec_fn(T) -> Seq<U>) -> Seq<U> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else { flat(s.drop_last(), f) + f(s.last()) }
}
pub open spec fn sfilter<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> Seq<T> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else if f(s.last()) { sfilter(s.drop_last(), f).push(s.last()) } else { sfilter(s.drop_last(), f) }
}
pub open spec fn prefix_len<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> int decreases s.len() {
  if s.len() == 0 { 0 } else {
    let n = prefix_len(s.drop_last(), f);
    if n == s.len() - 1 && f(s.last()) { s.len() as int } else { n }
  }
}
pub open spec fn sfind<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> Opt<T> decreases s.len() {
  if s.len() == 0 { Opt::None } else {
    match sfind(s.drop_last(), f) { Opt::Some(x) => Opt::Some(x), Opt::None => if f(s.last()) { Opt::Some(s.last()) } else { Opt::None } }
  }
}
/// Drops each element that is the same as the one kept before it.
pub open spec fn sdedup<T>(s: Seq<T>, same: spec_fn(T, T) -> bool) -> Seq<T> decreases s.len() {
  if s.len() == 0 { s } else {
    let r = sdedup(s.drop_last(), same);
    if r.len() > 0 && same(r.last(), s.last()) { r } else { r.push(s.last()) }
  }
}
pub proof fn sdedup_contains<T>(s: Seq<T>, u: T)
  ensures sdedup(s, |a: T, b: T| a == b).contains(u) <==> s.contains(u),
    s.len() > 0 ==> sdedup(s, |a: T, b: T| a == b).len() > 0 && sdedup(s, |a: T, b: T| a == b).last() == s.last()
  decreases s.len()
{
  let f = |a: T, b: T| a == b;
  if s.len() > 0 {
    let t = s.drop_last(); let r = sdedup(t, f);
    sdedup_contains(t, u);
    assert(s =~= t.push(s.last()));
    contains_push(t, s.last(), u);
    contains_push(r, s.last(), u);
    if r.len() > 0 && f(r.last(), s.last()) { assert(r.contains(r.last())); sdedup_contains(t, s.last()); }
  }
}
pub broadcast proof fn has_dedup<T>(l: Lst<T>, u: T) ensures #[trigger] l.dedup_new().has(u) <==> l.has(u) { sdedup_contains(l.s, u); }
pub broadcast proof fn has_dedup2<T>(l: Lst<T>, u: T) ensures #![trigger l.dedup_new(), l.has(u)] l.dedup_new().has(u) <==> l.has(u) { sdedup_contains(l.s, u); }
/// Sorting by some key: a permutation.
pub uninterp spec fn ssort<T, U>(s: Seq<T>, f: spec_fn(T) -> U) -> Seq<T>;
pub broadcast axiom fn has_ssort<T, U>(s: Seq<T>, f: spec_fn(T) -> U, u: T) ensures #![trigger (Lst { s: ssort(s, f) }).has(u)] #![trigger ssort(s, f), (Lst { s }).has(u)] (Lst { s: ssort(s, f) }).has(u) <==> (Lst { s }).has(u);
pub broadcast axiom fn ssort_len<T, U>(s: Seq<T>, f: spec_fn(T) -> U) ensures (#[trigger] ssort(s, f)).len() == s.len();
/// `find` looks at the values of its predicate only.
pub proof fn sfind_ext<T>(s: Seq<T>, f: spec_fn(T) -> bool, g: spec_fn(T) -> bool)
  requires forall|x: T| #[trigger] f(x) == g(x) ensures sfind(s, f) == sfind(s, g) decreases s.len()
{ if s.len() > 0 { sfind_ext(s.drop_last(), f, g); assert(f(s.last()) == g(s.last())); } }
pub broadcast proof fn find_ext<T>(l: Lst<T>, f: spec_fn(T) -> bool, g: spec_fn(T) -> bool)
  ensures #![trigger l.find(f), l.find(g)] (forall|x: T| #[trigger] f(x) == g(x)) ==> l.find(f) == l.find(g)
{ if forall|x: T| #[trigger] f(x) == g(x) { sfind_ext(l.s, f, g); } }
pub open spec fn fold<T, A>(s: Seq<T>, a: A, f: spec_fn(A, T) -> A) -> A decreases s.len() {
  if s.len() == 0 { a } else { f(fold(s.drop_last(), a, f), s.last()) }
}
/// A loop whose body yields (stop, state).
pub open spec fn fold_brk<T, A>(s: Seq<T>, a: A, f: spec_fn(A, T) -> (bool, A)) -> (bool, A) decreases s.len() {
  if s.len() == 0 { (false, a) } else {
    let (stop, b) = fold_brk(s.drop_last(), a, f);
    if stop { (true, b) } else { f(b, s.last()) }
  }
}
pub uninterp spec fn shuffle<T>(s: Seq<T>) -> Seq<T>;
pub axiom fn shuffle_ax<T>(s: Seq<T>)
  ensures shuffle(s).len() == s.len(), forall|x: T| #[trigger] shuffle(s).contains(x) <==> s.contains(x);

pub open spec fn range(a: int, b: int) -> Lst<int> { Lst { s: Seq::new(if b >= a { (b - a) as nat } else { 0 }, |i: int| a + i) } }
pub open spec fn range_incl(a: int, b: int) -> Lst<int> { range(a, b + 1) }
pub open spec fn repeat<T>(x: T, n: int) -> Lst<T> { Lst { s: Seq::new(if n >= 0 { n as nat } else { 0 }, |i: int| x) } }
pub open spec fn zip<T, U, C: IntoLst<T>, D: IntoLst<U>>(a: C, b: D) -> Lst<(T, U)> { a.into_lst().zip(b) }
pub open spec fn once<T>(x: T) -> Lst<T> { Lst { s: seq![x] } }

impl<T> Lst<T> {
  /// Membership. Closed: proofs see it only through the lemmas below.
  pub closed spec fn has(self, x: T) -> bool { self.s.contains(x) }
  /// Membership among the first `n` elements (used by generated loops).
  pub closed spec fn took(self, n: int, x: T) -> bool { exists|i: int| 0 <= i < n && i < self.s.len() && self.s[i] == x }
  #[verifier::inline] pub open spec fn el(self, x: T) -> T { x }
  pub open spec fn new() -> Lst<T> { Lst { s: Seq::empty() } }
  pub open spec fn with_capacity(n: int) -> Lst<T> { Lst { s: Seq::empty() } }
  pub open spec fn iter(self) -> Lst<T> { self }
  pub open spec fn into_iter(self) -> Lst<T> { self }
  pub open spec fn copied(self) -> Lst<T> { self }
  pub open spec fn cloned(self) -> Lst<T> { self }
  pub open spec fn to_vec(self) -> Lst<T> { self }
  pub open spec fn len(self) -> int { self.s.len() as int }
  pub open spec fn count(self) -> int { self.s.len() as int }
  pub open spec fn is_empty(self) -> bool { self.s.len() == 0 }
  #[verifier::inline] pub open spec fn idx(self, i: int) -> T { self.s[i] }
  #[verifier::inline] pub open spec fn set_idx(self, i: int, x: T) -> Lst<T> { Lst { s: self.s.update(i, x) } }
  pub open spec fn get(self, i: int) -> Opt<T> { if 0 <= i < self.s.len() { Opt::Some(self.s[i]) } else { Opt::None } }
  pub open spec fn contains(self, x: T) -> bool { self.has(x) }
  pub open spec fn map<U>(self, f: spec_fn(T) -> U) -> Lst<U> { Lst { s: Seq::new(self.s.len(), |i: int| f(self.s[i])) } }
  pub open spec fn flat_map<U, C: IntoLst<U>>(self, f: spec_fn(T) -> C) -> Lst<U> { Lst { s: flat(self.s, |x: T| f(x).into_lst().s) } }
  pub open spec fn filter(self, f: spec_fn(T) -> bool) -> Lst<T> { Lst { s: sfilter(self.s, f) } }
  pub open spec fn filter_map<U>(self, f: spec_fn(T) -> Opt<U>) -> Lst<U> { self.flat_map(f) }
  pub open spec fn chain<C: IntoLst<T>>(self, o: C) -> Lst<T> { Lst { s: self.s + o.into_lst().s } }
  pub open spec fn zip<U, C: IntoLst<U>>(self, o: C) -> Lst<(T, U)> {
    let t = o.into_lst().s;
    Lst { s: Seq::new(if self.s.len() <= t.len() { self.s.len() } else { t.len() }, |i: int| (self.s[i], t[i])) }
  }
  pub open spec fn enumerate(self) -> Lst<(int, T)> { Lst { s: Seq::new(self.s.len(), |i: int| (i, self.s[i])) } }
  pub open spec fn rev(self) -> Lst<T> { Lst { s: Seq::new(self.s.len(), |i: int| self.s[self.s.len() - 1 - i]) } }
  pub open spec fn take_while(self, f: spec_fn(T) -> bool) -> Lst<T> { Lst { s: self.s.subrange(0, prefix_len(self.s, f)) } }
  pub open spec fn take(self, n: int) -> Lst<T> { Lst { s: self.s.subrange(0, if n <= self.s.len() { n } else { self.s.len() as int }) } }
  pub open spec fn skip(self, n: int) -> Lst<T> { Lst { s: self.s.subrange(if n <= self.s.len() { n } else { self.s.len() as int }, self.s.len() as int) } }
  pub open spec fn last(self) -> Opt<T> { if self.s.len() == 0 { Opt::None } else { Opt::Some(self.s.last()) } }
  pub open spec fn first(self) -> Opt<T> { if self.s.len() == 0 { Opt::None } else { Opt::Some(self.s[0]) } }
  pub open spec fn next(self) -> Opt<T> { self.first() }
  pub open spec fn next_back(self) -> Opt<T> { self.last() }
  pub open spec fn nth(self, i: int) -> Opt<T> { self.get(i) }
  pub open spec fn find(self, f: spec_fn(T) -> bool) -> Opt<T> { sfind(self.s, f) }
  pub open spec fn any(self, f: spec_fn(T) -> bool) -> bool { exists|x: T| #[trigger] self.has(x) && f(x) }
  pub open spec fn all(self, f: spec_fn(T) -> bool) -> bool { forall|x: T| #[trigger] self.has(x) ==> f(x) }
  pub open spec fn collect<C: FromLst<T>>(self) -> C { C::from_lst(self) }
  pub open spec fn push_ret(self, x: T) -> () { () }
  pub open spec fn push_upd(self, x: T) -> Lst<T> { Lst { s: self.s.push(x) } }
  pub open spec fn pop_upd(self) -> Lst<T> { Lst { s: if self.s.len() == 0 { self.s } else { self.s.drop_last() } } }
  pub open spec fn pop_ret(self) -> Opt<T> { self.last() }
  pub open spec fn extend_upd<C: IntoLst<T>>(self, o: C) -> Lst<T> { Lst { s: self.s + o.into_lst().s } }
  pub open spec fn from_iter<C: IntoLst<T>>(o: C) -> Lst<T> { o.into_lst() }
  pub open spec fn skip_while(self, f: spec_fn(T) -> bool) -> Lst<T> { Lst { s: self.s.subrange(prefix_len(self.s, f), self.s.len() as int) } }
  pub open spec fn step_by(self, n: int) -> Lst<T> { Lst { s: Seq::new(if n > 0 { ((self.s.len() + n - 1) / n) as nat } else { 0 }, |i: int| self.s[i * n]) } }
  pub open spec fn find_map<U>(self, f: spec_fn(T) -> Opt<U>) -> Opt<U> { self.filter_map(f).first() }
  pub open spec fn position(self, f: spec_fn(T) -> bool) -> Opt<int> { let p = prefix_len(self.s, |x: T| !f(x)); if p < self.s.len() { Opt::Some(p) } else { Opt::None } }
  pub open spec fn retain_new(self, f: spec_fn(T) -> bool) -> Lst<T> { self.filter(f) }
  pub open spec fn truncate_new(self, n: int) -> Lst<T> { self.take(n) }
  pub open spec fn clear_new(self) -> Lst<T> { Lst::new() }
  pub open spec fn reverse_new(self) -> Lst<T> { self.rev() }
  pub open spec fn swap_new(self, i: int, j: int) -> Lst<T> { Lst { s: self.s.update(i, self.s[j]).update(j, self.s[i]) } }
  pub open spec fn remove_new(self, i: int) -> Lst<T> { Lst { s: self.s.remove(i) } }
  pub open spec fn dedup_new(self) -> Lst<T> { Lst { s: sdedup(self.s, |a: T, b: T| a == b) } }
  pub open spec fn dedup(self) -> Lst<T> { self.dedup_new() }
  pub open spec fn dedup_by_key_new<U>(self, f: spec_fn(T) -> U) -> Lst<T> { Lst { s: sdedup(self.s, |a: T, b: T| f(a) == f(b)) } }
  pub open spec fn sort_new(self) -> Lst<T> { Lst { s: ssort(self.s, |x: T| x) } }
  pub open spec fn sorted(self) -> Lst<T> { self.sort_new() }
  pub open spec fn sort_by_key_new<U>(self, f: spec_fn(T) -> U) -> Lst<T> { Lst { s: ssort(self.s, f) } }
  pub open spec fn split_first(self) -> Opt<(T, Lst<T>)> { if self.s.len() == 0 { Opt::None } else { Opt::Some((self.s[0], Lst { s: self.s.subrange(1, self.s.len() as int) })) } }
  pub open spec fn split_last(self) -> Opt<(T, Lst<T>)> { if self.s.len() == 0 { Opt::None } else { Opt::Some((self.s.last(), Lst { s: self.s.drop_last() })) } }
  pub open spec fn reduce(self, f: spec_fn(T, T) -> T) -> Opt<T> {
    if self.s.len() == 0 { Opt::None } else { Opt::Some(fold(self.s.subrange(1, self.s.len() as int), self.s[0], f)) }
  }
  pub open spec fn fold<A>(self, a: A, f: spec_fn(A, T) -> A) -> A { fold(self.s, a, f) }
  pub open spec fn indices(self) -> Lst<int> { range(0, self.s.len() as int) }
  pub open spec fn iter_enumerated(self) -> Lst<(int, T)> { self.enumerate() }
}
impl<T> Lst<Lst<T>> {
  pub open spec fn concat(self) -> Lst<T> { Lst { s: flat(self.s, |x: Lst<T>| x.s) } }
}
impl<T> Lst<Lst<T>> {
  pub open spec fn flatten(self) -> Lst<T> { self.concat() }
}

pub proof fn contains_push<T>(s: Seq<T>, x: T, y: T)
  ensures s.push(x).contains(y) <==> s.contains(y) || y == x
{
  if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
  assert(s.push(x)[s.len() as int] == x);
}
pub proof fn contains_last<T>(s: Seq<T>, y: T)
  requires s.len() > 0
  ensures s.contains(y) <==> s.drop_last().contains(y) || y == s.last()
{
  assert(s.drop_last().push(s.last()) =~= s);
  contains_push(s.drop_last(), s.last(), y);
}
pub proof fn contains_add<T>(a: Seq<T>, b: Seq<T>, u: T)
  ensures (a + b).contains(u) <==> a.contains(u) || b.contains(u)
{
  if a.contains(u) { let i = choose|i: int| 0 <= i < a.len() && a[i] == u; assert((a + b)[i] == u); }
  if b.contains(u) { let i = choose|i: int| 0 <= i < b.len() && b[i] == u; assert((a + b)[a.len() + i] == u); }
}
pub proof fn flat_contains<T, U>(s: Seq<T>, f: spec_fn(T) -> Seq<U>, u: U)
  ensures flat(s, f).contains(u) <==> exists|x: T| #[trigger] s.contains(x) && f(x).contains(u)
  decreases s.len()
{
  if s.len() == 0 { } else {
    flat_contains(s.drop_last(), f, u);
    contains_add(flat(s.drop_last(), f), f(s.last()), u);
    assert forall|x: T| #[trigger] s.contains(x) <==> (s.drop_last().contains(x) || x == s.last()) by { contains_last(s, x); }
    assert(s.contains(s.last()));
    if flat(s.drop_last(), f).contains(u) { let x = choose|x: T| #[trigger] s.drop_last().contains(x) && f(x).contains(u); assert(s.contains(x)); }
  }
}
pub proof fn sfilter_contains<T>(s: Seq<T>, f: spec_fn(T) -> bool, u: T)
  ensures sfilter(s, f).contains(u) <==> s.contains(u) && f(u), sfilter(s, f).len() <= s.len()
  decreases s.len()
{
  if s.len() > 0 {
    sfilter_contains(s.drop_last(), f, u);
    contains_last(s, u);
    contains_push(sfilter(s.drop_last(), f), s.last(), u);
  }
}
pub proof fn sfind_spec<T>(s: Seq<T>, f: spec_fn(T) -> bool)
  ensures
    sfind(s, f) is None <==> forall|i: int| 0 <= i < s.len() ==> !f(#[trigger] s[i]),
    sfind(s, f) is Some ==> exists|i: int| 0 <= i < s.len() && s[i] == sfind(s, f)->Some_0 && f(s[i]) && forall|j: int| 0 <= j < i ==> !f(#[trigger] s[j])
  decreases s.len()
{
  if s.len() > 0 {
    let t = s.drop_last();
    sfind_spec(t, f);
    assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]);
    if sfind(t, f) is Some {
      let i = choose|i: int| 0 <= i < t.len() && t[i] == sfind(t, f)->Some_0 && f(t[i]) && forall|j: int| 0 <= j < i ==> !f(#[trigger] t[j]);
      assert(s[i] == sfind(s, f)->Some_0 && f(s[i]));
      assert forall|j: int| 0 <= j < i implies !f(#[trigger] s[j]) by { assert(!f(t[j])); }
    } else {
      assert forall|j: int| 0 <= j < t.len() implies !f(#[trigger] s[j]) by { assert(!f(t[j])); }
      if f(s.last()) { assert(s[s.len() - 1] == s.last()); }
    }
  }
}
pub proof fn prefix_spec<T>(s: Seq<T>, f: spec_fn(T) -> bool)
  ensures
    0 <= prefix_len(s, f) <= s.len(),
    forall|i: int| 0 <= i < prefix_len(s, f) ==> f(#[trigger] s[i]),
    prefix_len(s, f) < s.len() ==> !f(s[prefix_len(s, f)])
  decreases s.len()
{
  if s.len() > 0 {
    let t = s.drop_last();
    prefix_spec(t, f);
    assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]);
    assert forall|i: int| 0 <= i < prefix_len(s, f) implies f(#[trigger] s[i]) by { if i < t.len() { assert(f(t[i])); } }
  }
}

// ---- membership lemmas -----------------------------------------------------------------
pub broadcast proof fn has_empty<T>(x: T) ensures !(#[trigger] Lst::<T>::new().has(x)) { }
pub broadcast proof fn has_len0<T>(l: Lst<T>, x: T)
  ensures #[trigger] l.has(x) ==> l.s.len() > 0 { }
pub proof fn has_def<T>(l: Lst<T>, x: T)
  ensures l.has(x) <==> exists|i: int| 0 <= i < l.s.len() && #[trigger] l.s[i] == x { }
pub proof fn at<T>(l: Lst<T>, i: int) requires 0 <= i < l.s.len() ensures l.has(l.s[i]) { }
pub broadcast proof fn has_at<T>(l: Lst<T>, i: int)
  requires 0 <= i < l.s.len() ensures l.has(#[trigger] l.s[i]) { }
pub proof fn wit<T>(l: Lst<T>, x: T) -> (i: int) requires l.has(x) ensures 0 <= i < l.s.len(), l.s[i] == x
{ choose|i: int| 0 <= i < l.s.len() && l.s[i] == x }
pub broadcast proof fn has_flat_map<T, U, C: IntoLst<U>>(l: Lst<T>, f: spec_fn(T) -> C, u: U)
  ensures #[trigger] l.flat_map(f).has(u) <==> exists|x: T| #[trigger] l.has(x) && f(x).into_lst().has(u)
{
  flat_contains(l.s, |x: T| f(x).into_lst().s, u);
  let g = |x: T| f(x).into_lst().s;
  if l.flat_map(f).has(u) { let x = choose|x: T| #[trigger] l.s.contains(x) && g(x).contains(u); assert(l.has(x) && f(x).into_lst().has(u)); }
  if exists|x: T| #[trigger] l.has(x) && f(x).into_lst().has(u) {
    let x = choose|x: T| #[trigger] l.has(x) && f(x).into_lst().has(u); assert(l.s.contains(x) && g(x).contains(u)); }
}
pub broadcast proof fn has_flat_map2<T, U, C: IntoLst<U>>(l: Lst<T>, f: spec_fn(T) -> C, x: T, u: U)
  requires #[trigger] l.has(x), #[trigger] f(x).into_lst().has(u)
  ensures #[trigger] l.flat_map(f).has(u)
{ has_flat_map(l, f, u); }
pub broadcast proof fn flat_sub<T, U, C: IntoLst<U>>(l: Lst<T>, f: spec_fn(T) -> C, x: T)
  ensures #![trigger l.flat_map(f), l.has(x)] l.has(x) ==> forall|u: U| #[trigger] f(x).into_lst().has(u) ==> l.flat_map(f).has(u)
{ assert forall|u: U| l.has(x) && #[trigger] f(x).into_lst().has(u) implies l.flat_map(f).has(u) by { has_flat_map(l, f, u); } }
pub broadcast proof fn has_map<T, U>(l: Lst<T>, f: spec_fn(T) -> U, u: U)
  ensures #[trigger] l.map(f).has(u) <==> exists|x: T| #[trigger] l.has(x) && f(x) == u
{
  if l.map(f).has(u) { let i = wit(l.map(f), u); at(l, i); }
  if exists|x: T| #[trigger] l.has(x) && f(x) == u { let x = choose|x: T| #[trigger] l.has(x) && f(x) == u; let i = wit(l, x); assert(l.map(f).s[i] == u); }
}
pub broadcast proof fn has_map2<T, U>(l: Lst<T>, f: spec_fn(T) -> U, x: T)
  ensures #![trigger l.map(f), l.has(x)] l.has(x) ==> l.map(f).has(f(x))
{ has_map(l, f, f(x)); }
pub broadcast proof fn has_filter_map2<T, U>(l: Lst<T>, f: spec_fn(T) -> Opt<U>, x: T)
  ensures #![trigger l.filter_map(f), l.has(x)] l.has(x) && f(x) is Some ==> l.filter_map(f).has(f(x)->Some_0)
{ if l.has(x) && f(x) is Some { has_opt(f(x), f(x)->Some_0); has_flat_map(l, f, f(x)->Some_0); } }
pub broadcast proof fn has_filter<T>(l: Lst<T>, f: spec_fn(T) -> bool, u: T)
  ensures #[trigger] l.filter(f).has(u) <==> l.has(u) && f(u)
{ sfilter_contains(l.s, f, u); }
pub broadcast proof fn has_filter2<T>(l: Lst<T>, f: spec_fn(T) -> bool, u: T)
  ensures #![trigger l.filter(f), l.has(u)] l.filter(f).has(u) <==> l.has(u) && f(u)
{ sfilter_contains(l.s, f, u); }
pub broadcast proof fn has_chain<T, C: IntoLst<T>>(l: Lst<T>, o: C, u: T)
  ensures #[trigger] l.chain(o).has(u) <==> l.has(u) || o.into_lst().has(u)
{ contains_add(l.s, o.into_lst().s, u); }
pub broadcast proof fn has_chain2<T, C: IntoLst<T>>(l: Lst<T>, o: C, u: T)
  ensures #![trigger l.chain(o), l.has(u)] l.has(u) ==> l.chain(o).has(u)
{ has_chain(l, o, u); }
pub broadcast proof fn has_chain3<T, C: IntoLst<T>>(l: Lst<T>, o: C, u: T)
  ensures #![trigger l.chain(o), o.into_lst().has(u)] o.into_lst().has(u) ==> l.chain(o).has(u)
{ has_chain(l, o, u); }
pub broadcast proof fn has_push<T>(l: Lst<T>, x: T, u: T)
  ensures #[trigger] l.push_upd(x).has(u) <==> l.has(u) || u == x
{ contains_push(l.s, x, u); }
pub broadcast proof fn pop_push<T>(l: Lst<T>, x: T) ensures #[trigger] l.push_upd(x).pop_upd() == l { assert(l.push_upd(x).pop_upd().s =~= l.s); }
pub broadcast proof fn has_extend<T, C: IntoLst<T>>(l: Lst<T>, o: C, u: T)
  ensures #[trigger] l.extend_upd(o).has(u) <==> l.has(u) || o.into_lst().has(u)
{ contains_add(l.s, o.into_lst().s, u); }
pub broadcast proof fn has_opt<T>(o: Opt<T>, u: T)
  ensures #[trigger] o.into_iter().has(u) <==> o == Opt::Some(u)
{ match o { Opt::Some(x) => { assert(o.into_iter().s =~= seq![x]); assert(seq![x][0] == x); }, Opt::None => {} } }
pub broadcast proof fn has_concat<T>(l: Lst<Lst<T>>, u: T)
  ensures #[trigger] l.concat().has(u) <==> exists|x: Lst<T>| #[trigger] l.has(x) && x.has(u)
{
  let g = |x: Lst<T>| x.s;
  flat_contains(l.s, g, u);
  if l.concat().has(u) { let x = choose|x: Lst<T>| #[trigger] l.s.contains(x) && g(x).contains(u); assert(l.has(x) && x.has(u)); }
  if exists|x: Lst<T>| #[trigger] l.has(x) && x.has(u) { let x = choose|x: Lst<T>| #[trigger] l.has(x) && x.has(u); assert(l.s.contains(x) && g(x).contains(u)); }
}
pub broadcast proof fn has_opt_some<T>(o: Opt<T>) ensures o is Some ==> (#[trigger] o.into_iter()).has(o->Some_0) { if o is Some { has_opt(o, o->Some_0); } }
pub broadcast proof fn has_once<T>(x: T, u: T)
  ensures #[trigger] once(x).has(u) <==> u == x
{ assert(seq![x][0] == x); }
pub broadcast proof fn has_rev<T>(l: Lst<T>, u: T)
  ensures #[trigger] l.rev().has(u) <==> l.has(u)
{
  if l.has(u) { let i = wit(l, u); assert(l.rev().s[l.s.len() - 1 - i] == u); }
  if l.rev().has(u) { let i = wit(l.rev(), u); at(l, l.s.len() - 1 - i); }
}
pub broadcast proof fn has_range(a: int, b: int, u: int)
  ensures #[trigger] range(a, b).has(u) <==> a <= u < b
{ if a <= u < b { assert(range(a, b).s[u - a] == u); } }
pub broadcast proof fn has_enumerate<T>(l: Lst<T>, u: (int, T))
  ensures #[trigger] l.enumerate().has(u) <==> 0 <= u.0 < l.s.len() && l.s[u.0] == u.1
{ if 0 <= u.0 < l.s.len() && l.s[u.0] == u.1 { assert(l.enumerate().s[u.0] == u); } }
pub broadcast proof fn enum_at<T>(l: Lst<T>, i: int)
  ensures #![trigger l.enumerate(), l.s[i]] 0 <= i < l.s.len() ==> l.enumerate().has((i, l.s[i]))
{ if 0 <= i < l.s.len() { has_enumerate(l, (i, l.s[i])); } }
pub broadcast proof fn took_zero<T>(l: Lst<T>, x: T) ensures !(#[trigger] l.took(0, x)) { }
pub broadcast proof fn took_all<T>(l: Lst<T>, n: int, x: T) requires n >= l.s.len() ensures #[trigger] l.took(n, x) <==> l.has(x) { }
pub proof fn took_step<T>(l: Lst<T>, n: int)
  requires 0 <= n < l.s.len()
  ensures l.has(l.s[n]), l.took(n + 1, l.s[n]), forall|x: T| #[trigger] l.took(n + 1, x) <==> l.took(n, x) || x == l.s[n],
    forall|x: T| #[trigger] l.took(n, x) ==> l.took(n + 1, x) { }
pub proof fn took_done<T>(l: Lst<T>, n: int) requires n >= l.s.len()
  ensures forall|x: T| #[trigger] l.has(x) ==> l.took(n, x), forall|x: T| #[trigger] l.took(n, x) ==> l.has(x) { }
pub broadcast proof fn took_has<T>(l: Lst<T>, n: int, x: T) ensures #[trigger] l.took(n, x) ==> l.has(x) { }
/// In a list without duplicates, what comes before an element is what was taken before it.
pub proof fn took_before<T>(l: Lst<T>, n: int, x: T)
  requires 0 <= n < l.s.len(), forall|i: int, j: int| 0 <= i < l.s.len() && 0 <= j < l.s.len() && #[trigger] l.s[i] == #[trigger] l.s[j] ==> i == j
  ensures l.took(n, x) <==> precedes(l, x, l.s[n])
{
  if precedes(l, x, l.s[n]) { let (i, j) = choose|i: int, j: int| 0 <= i < j < l.s.len() && #[trigger] l.s[i] == x && #[trigger] l.s[j] == l.s[n]; assert(j == n); }
}
pub open spec fn precedes<T>(l: Lst<T>, x: T, y: T) -> bool { exists|i: int, j: int| 0 <= i < j < l.s.len() && #[trigger] l.s[i] == x && #[trigger] l.s[j] == y }
pub proof fn took_at<T>(l: Lst<T>, n: int, i: int) requires 0 <= i < n, i < l.s.len() ensures l.took(n, l.s[i]) { }
pub proof fn took_wit<T>(l: Lst<T>, n: int, x: T) -> (i: int) requires l.took(n, x) ensures 0 <= i < n, i < l.s.len(), l.s[i] == x
{ choose|i: int| 0 <= i < n && i < l.s.len() && l.s[i] == x }

pub broadcast proof fn has_take_while<T>(l: Lst<T>, f: spec_fn(T) -> bool, u: T)
  ensures #[trigger] l.take_while(f).has(u) <==> exists|i: int| 0 <= i < l.s.len() && #[trigger] l.s[i] == u && (forall|j: int| 0 <= j <= i ==> f(#[trigger] l.s[j]))
{
  prefix_spec(l.s, f);
  let n = prefix_len(l.s, f);
  let t = l.take_while(f);
  if t.has(u) { let i = wit(t, u); assert(l.s[i] == u); }
  if exists|i: int| 0 <= i < l.s.len() && #[trigger] l.s[i] == u && (forall|j: int| 0 <= j <= i ==> f(#[trigger] l.s[j])) {
    let i = choose|i: int| 0 <= i < l.s.len() && #[trigger] l.s[i] == u && (forall|j: int| 0 <= j <= i ==> f(#[trigger] l.s[j]));
    if n <= i { assert(f(l.s[n])); }
    at(t, i);
  }
}
/// Proof hint: consider `u` as an element of every list of its type.
pub open spec fn cand<T>(u: T) -> bool { true }
pub broadcast proof fn cand_flat<T, U, C: IntoLst<U>>(l: Lst<T>, f: spec_fn(T) -> C, u: U)
  ensures #![trigger l.flat_map(f), cand(u)] l.flat_map(f).has(u) <==> exists|x: T| #[trigger] l.has(x) && f(x).into_lst().has(u) { has_flat_map(l, f, u); }
pub broadcast proof fn cand_map<T, U>(l: Lst<T>, f: spec_fn(T) -> U, x: T)
  ensures #![trigger l.map(f), cand(x)] l.has(x) ==> l.map(f).has(f(x)) { has_map2(l, f, x); }
pub broadcast proof fn cand_map2<T, U>(l: Lst<T>, f: spec_fn(T) -> U, u: U)
  ensures #![trigger l.map(f), cand(u)] l.map(f).has(u) <==> exists|x: T| #[trigger] l.has(x) && f(x) == u { has_map(l, f, u); }
pub broadcast proof fn cand_chain<T, C: IntoLst<T>>(l: Lst<T>, o: C, u: T)
  ensures #![trigger l.chain(o), cand(u)] l.chain(o).has(u) <==> l.has(u) || o.into_lst().has(u) { has_chain(l, o, u); }
pub broadcast proof fn cand_filter<T>(l: Lst<T>, f: spec_fn(T) -> bool, u: T)
  ensures #![trigger l.filter(f), cand(u)] l.filter(f).has(u) <==> l.has(u) && f(u) { has_filter(l, f, u); }
pub broadcast proof fn cand_rev<T>(l: Lst<T>, u: T) ensures #![trigger l.rev(), cand(u)] l.rev().has(u) <==> l.has(u) { has_rev(l, u); }
pub broadcast proof fn cand_take_while<T>(l: Lst<T>, f: spec_fn(T) -> bool, u: T)
  ensures #![trigger l.take_while(f), cand(u)] l.take_while(f).has(u) <==> exists|i: int| 0 <= i < l.s.len() && #[trigger] l.s[i] == u && (forall|j: int| 0 <= j <= i ==> f(#[trigger] l.s[j])) { has_take_while(l, f, u); }
pub broadcast proof fn has_rev_while<T>(l: Lst<T>, f: spec_fn(T) -> bool, u: T)
  ensures #[trigger] l.rev().take_while(f).has(u) <==> exists|i: int| 0 <= i < l.s.len() && #[trigger] l.s[i] == u && (forall|j: int| i <= j < l.s.len() ==> f(#[trigger] l.s[j]))
{
  let r = l.rev(); let n = l.s.len() as int;
  has_take_while(r, f, u);
  if r.take_while(f).has(u) {
    let i = choose|i: int| 0 <= i < r.s.len() && #[trigger] r.s[i] == u && (forall|j: int| 0 <= j <= i ==> f(#[trigger] r.s[j]));
    assert(l.s[n - 1 - i] == u);
    assert forall|j: int| n - 1 - i <= j < n implies f(#[trigger] l.s[j]) by { assert(f(r.s[n - 1 - j])); }
  }
  if exists|i: int| 0 <= i < l.s.len() && #[trigger] l.s[i] == u && (forall|j: int| i <= j < l.s.len() ==> f(#[trigger] l.s[j])) {
    let i = choose|i: int| 0 <= i < l.s.len() && #[trigger] l.s[i] == u && (forall|j: int| i <= j < l.s.len() ==> f(#[trigger] l.s[j]));
    assert(r.s[n - 1 - i] == u);
    assert forall|j: int| 0 <= j <= n - 1 - i implies f(#[trigger] r.s[j]) by { assert(f(l.s[n - 1 - j])); }
  }
}
pub broadcast proof fn cand_rev_while<T>(l: Lst<T>, f: spec_fn(T) -> bool, u: T)
  ensures #![trigger l.rev().take_while(f), cand(u)] l.rev().take_while(f).has(u) <==> exists|i: int| 0 <= i < l.s.len() && #[trigger] l.s[i] == u && (forall|j: int| i <= j < l.s.len() ==> f(#[trigger] l.s[j])) { has_rev_while(l, f, u); }
pub broadcast proof fn cand_concat<T>(l: Lst<Lst<T>>, u: T)
  ensures #![trigger l.concat(), cand(u)] l.concat().has(u) <==> exists|x: Lst<T>| #[trigger] l.has(x) && x.has(u) { has_concat(l, u); }
pub broadcast group lists {
  flat_sub, cand_concat, has_opt_some,
  cand_flat, cand_map, cand_map2, cand_chain, cand_filter, cand_rev, cand_take_while, has_rev_while, cand_rev_while,
  has_take_while, has_concat, pop_push, has_filter_map2, has_hiter, has_liter,
  has_empty, has_flat_map, has_flat_map2, has_map, has_map2, has_filter, has_filter2, has_chain, has_chain2, has_chain3,
  has_push, has_extend, has_opt, has_once, has_rev, has_range, has_enumerate, enum_at, took_zero, took_all, took_has,
  has_ssort, ssort_len, has_dedup, has_dedup2, has_hretain, has_hremove, has_hextend, has_hinsert, has_hempty, len_one, len_zero, extend_len, union_has, inter_has, all_has, lset_new_has, lins_has,
}

// ---- hash sets -------------------------------------------------------------------------
impl<T> HSet<T> {
  pub open spec fn empty() -> HSet<T> { HSet { s: Seq::empty() } }
  pub open spec fn default() -> HSet<T> { HSet::empty() }
  pub open spec fn new() -> HSet<T> { HSet::empty() }
  pub open spec fn iter(self) -> Lst<T> { Lst { s: shuffle(self.s) } }
  pub open spec fn into_iter(self) -> Lst<T> { self.iter() }
  pub open spec fn has(self, x: T) -> bool { self.iter().has(x) }
  pub open spec fn contains(self, x: T) -> bool { self.has(x) }
  pub open spec fn len(self) -> int { distinct(self.s) }
  pub open spec fn is_empty(self) -> bool { self.s.len() == 0 }
  pub open spec fn insert_upd(self, x: T) -> HSet<T> { if self.has(x) { self } else { HSet { s: self.s.push(x) } } }
  pub open spec fn insert_ret(self, x: T) -> bool { !self.has(x) }
  pub open spec fn extend_upd<C: IntoLst<T>>(self, o: C) -> HSet<T> { ext(self, o.into_lst().s) }
  pub open spec fn from_iter<C: IntoLst<T>>(o: C) -> HSet<T> { HSet::empty().extend_upd(o) }
  pub open spec fn retain_new(self, f: spec_fn(T) -> bool) -> HSet<T> { HSet { s: sfilter(self.s, f) } }
  pub open spec fn remove_new(self, x: T) -> HSet<T> { HSet { s: sfilter(self.s, |y: T| y != x) } }
  pub open spec fn clear_new(self) -> HSet<T> { HSet::empty() }
  pub open spec fn is_subset(self, o: HSet<T>) -> bool { self.sub(o) }
  pub open spec fn is_superset(self, o: HSet<T>) -> bool { o.sub(self) }
  pub open spec fn is_disjoint(self, o: HSet<T>) -> bool { forall|x: T| #[trigger] self.has(x) ==> !o.has(x) }
  pub open spec fn intersection(self, o: HSet<T>) -> Lst<T> { self.iter().filter(|x: T| o.has(x)) }
  pub open spec fn difference(self, o: HSet<T>) -> Lst<T> { self.iter().filter(|x: T| !o.has(x)) }
  pub open spec fn sub(self, o: HSet<T>) -> bool { forall|x: T| #[trigger] self.has(x) ==> o.has(x) }
}
/// Number of distinct elements.
pub open spec fn distinct<T>(s: Seq<T>) -> int decreases s.len() {
  if s.len() == 0 { 0 } else { distinct(s.drop_last()) + (if s.drop_last().contains(s.last()) { 0int } else { 1int }) }
}
pub proof fn distinct_push<T>(s: Seq<T>, x: T) ensures distinct(s.push(x)) == distinct(s) + (if s.contains(x) { 0int } else { 1int }) { assert(s.push(x).drop_last() =~= s); }
pub proof fn distinct_pos<T>(s: Seq<T>) ensures distinct(s) >= 0, s.len() > 0 ==> distinct(s) >= 1 decreases s.len() {
  if s.len() > 0 { distinct_pos(s.drop_last()); if s.drop_last().contains(s.last()) { assert(s.drop_last().len() > 0); } } }
pub proof fn distinct_one<T>(s: Seq<T>, x: T)
  ensures distinct(s) == 1 && s.contains(x) ==> forall|y: T| #[trigger] s.contains(y) ==> y == x, (s.len() > 0 && forall|y: T| #[trigger] s.contains(y) ==> y == x) ==> distinct(s) == 1
  decreases s.len()
{
  if s.len() > 0 {
    let t = s.drop_last();
    distinct_pos(t);
    if distinct(s) == 1 && s.contains(x) {
      assert forall|y: T| #[trigger] s.contains(y) implies y == x by {
        contains_last(s, y); contains_last(s, x);
        if t.len() > 0 { assert(t.contains(s.last())); distinct_one(t, s.last()); assert(t.contains(y) ==> y == s.last()); assert(t.contains(x) ==> x == s.last()); }
      }
    }
    if forall|y: T| #[trigger] s.contains(y) ==> y == x {
      assert(s.contains(s.last()));
      if t.len() > 0 {
        assert forall|y: T| #[trigger] t.contains(y) implies y == x by { contains_last(s, y); assert(s.contains(y)); }
        distinct_one(t, x); assert(t.contains(t[0])); assert(t.contains(s.last()));
      }
    }
  }
}
pub open spec fn ext<T>(h: HSet<T>, s: Seq<T>) -> HSet<T> decreases s.len() {
  if s.len() == 0 { h } else { ext(h, s.drop_last()).insert_upd(s.last()) }
}
pub broadcast proof fn has_hiter<T>(h: HSet<T>, x: T) ensures #[trigger] h.iter().has(x) == h.has(x) { }
pub broadcast proof fn has_hretain<T>(h: HSet<T>, f: spec_fn(T) -> bool, x: T) ensures #[trigger] h.retain_new(f).has(x) <==> h.has(x) && f(x) { shuffle_ax(h.s); shuffle_ax(h.retain_new(f).s); sfilter_contains(h.s, f, x); }
pub broadcast proof fn has_hremove<T>(h: HSet<T>, y: T, x: T) ensures #[trigger] h.remove_new(y).has(x) <==> h.has(x) && x != y { has_hretain(h, |z: T| z != y, x); }
pub broadcast proof fn has_hempty<T>(x: T) ensures !(#[trigger] HSet::<T>::empty().has(x)) { shuffle_ax(HSet::<T>::empty().s); }
pub broadcast proof fn has_hinsert<T>(h: HSet<T>, x: T, u: T)
  ensures #[trigger] h.insert_upd(x).has(u) <==> h.has(u) || u == x
{ shuffle_ax(h.s); shuffle_ax(h.s.push(x)); contains_push(h.s, x, u); }
pub proof fn len_hinsert<T>(h: HSet<T>, x: T)
  ensures h.insert_upd(x).len() == h.len() + (if h.has(x) { 0int } else { 1int }) { shuffle_ax(h.s); distinct_push(h.s, x); }
pub proof fn ext_has<T>(h: HSet<T>, s: Seq<T>, u: T)
  ensures ext(h, s).has(u) <==> h.has(u) || s.contains(u)
  decreases s.len()
{
  if s.len() > 0 { ext_has(h, s.drop_last(), u); contains_last(s, u); has_hinsert(ext(h, s.drop_last()), s.last(), u); }
}
pub proof fn ext_len<T>(h: HSet<T>, s: Seq<T>)
  ensures ext(h, s).len() >= h.len(), ext(h, s).len() == h.len() <==> forall|x: T| s.contains(x) ==> #[trigger] h.has(x),
    ext(h, s).len() == h.len() ==> ext(h, s) == h
  decreases s.len()
{
  if s.len() > 0 {
    ext_len(h, s.drop_last());
    assert forall|x: T| s.contains(x) <==> s.drop_last().contains(x) || x == s.last() by { contains_last(s, x); }
    ext_has(h, s.drop_last(), s.last());
    let p = ext(h, s.drop_last());
    len_hinsert(p, s.last());
    if ext(h, s).len() == h.len() { assert(p.len() == h.len()); assert(p.has(s.last())); assert(p == h); }
    if forall|x: T| s.contains(x) ==> #[trigger] h.has(x) { assert(s.contains(s.last())); assert(p.len() == h.len()); }
  }
}
/// Nothing is added if the number of elements stays the same.
pub broadcast proof fn extend_len<T, C: IntoLst<T>>(h: HSet<T>, o: C)
  ensures #[trigger] h.extend_upd(o).len() == h.len() ==> h.extend_upd(o) == h
{ ext_len(h, o.into_lst().s); }
pub broadcast proof fn has_hextend<T, C: IntoLst<T>>(h: HSet<T>, o: C, u: T)
  ensures #[trigger] h.extend_upd(o).has(u) <==> h.has(u) || o.into_lst().has(u)
{ ext_has(h, o.into_lst().s, u); }
pub broadcast proof fn len_one<T>(h: HSet<T>, x: T, y: T)
  ensures #![trigger h.len(), h.has(x), h.has(y)] h.len() == 1 && h.has(x) && h.has(y) ==> x == y
{ shuffle_ax(h.s); distinct_one(h.s, x); assert(h.has(x) == h.s.contains(x)); assert(h.has(y) == h.s.contains(y)); }
pub proof fn singleton_len<T>(h: HSet<T>, x: T)
  requires forall|y: T| #[trigger] h.has(y) <==> y == x
  ensures h.len() == 1
{ shuffle_ax(h.s); assert forall|y: T| #[trigger] h.s.contains(y) implies y == x by { assert(h.has(y)); } assert(h.has(x)); distinct_one(h.s, x); }
pub broadcast proof fn len_zero<T>(h: HSet<T>, x: T)
  ensures #![trigger h.is_empty(), h.has(x)] h.is_empty() ==> !h.has(x)
{ shuffle_ax(h.s); }

// ---- hash maps -------------------------------------------------------------------------
impl<K, V> HMap<K, V> {
  pub open spec fn has_key(self, k: K) -> bool { self.keys.has(k) }
  pub open spec fn at(self, k: K) -> V { (self.f)(k) }
  pub open spec fn get(self, k: K) -> Opt<V> { if self.keys.has(k) { Opt::Some(self.at(k)) } else { Opt::None } }
  pub open spec fn idx(self, k: K) -> V { self.at(k) }
  pub open spec fn insert_upd(self, k: K, v: V) -> HMap<K, V> { HMap { keys: self.keys.insert_upd(k), f: |q: K| if q == k { v } else { (self.f)(q) } } }
  pub open spec fn insert_ret(self, k: K, v: V) -> Opt<V> { self.get(k) }
  pub open spec fn iter(self) -> Lst<(K, V)> { self.keys.iter().map(|k: K| (k, self.at(k))) }
  pub open spec fn into_iter(self) -> Lst<(K, V)> { self.iter() }
  pub open spec fn keys(self) -> Lst<K> { self.keys.iter() }
  pub open spec fn values(self) -> Lst<V> { self.keys.iter().map(|k: K| self.at(k)) }
  pub open spec fn into_values(self) -> Lst<V> { self.values() }
  pub open spec fn contains_key(self, k: K) -> bool { self.keys.has(k) }
  pub open spec fn len(self) -> int { self.keys.len() }
  pub open spec fn get_or(self, k: K, v: V) -> V { if self.keys.has(k) { self.at(k) } else { v } }
}
impl<K, V> HMap<K, V> {
  pub open spec fn default() -> HMap<K, V> { hmap_empty() }
  pub open spec fn new() -> HMap<K, V> { hmap_empty() }
}
impl<K, V: Dflt> HMap<K, V> {
  pub open spec fn get_or_default(self, k: K) -> V { if self.keys.has(k) { self.at(k) } else { V::dflt() } }
}
pub open spec fn hmap_empty<K, V>() -> HMap<K, V> { HMap { keys: HSet::empty(), f: |k: K| absurd() } }
pub open spec fn hmap_from<K, V>(s: Seq<(K, V)>) -> HMap<K, V> decreases s.len() {
  if s.len() == 0 { hmap_empty() } else { hmap_from(s.drop_last()).insert_upd(s.last().0, s.last().1) }
}
/// itertools `into_group_map`
pub open spec fn group<K, V>(s: Seq<(K, V)>) -> HMap<K, Lst<V>> decreases s.len() {
  if s.len() == 0 { hmap_empty() } else { let m = group(s.drop_last()); m.insert_upd(s.last().0, m.get_or_default(s.last().0).push_upd(s.last().1)) }
}
impl<K, V> Lst<(K, V)> { pub open spec fn into_group_map(self) -> HMap<K, Lst<V>> { group(self.s) } }
/// `it` lists each key of `l` once, with its values.
#[verifier::opaque]
pub open spec fn grouped<K, V>(l: Lst<(K, V)>, it: Lst<(K, Lst<V>)>) -> bool {
  &&& forall|i: int, j: int| 0 <= i < j < it.s.len() ==> #[trigger] it.s[i].0 != #[trigger] it.s[j].0
  &&& forall|i: int, v: V| #![trigger it.s[i].1.has(v)] #![trigger l.has((it.s[i].0, v))] 0 <= i < it.s.len() ==> (it.s[i].1.has(v) <==> l.has((it.s[i].0, v)))
  &&& forall|x: (K, V)| #[trigger] l.has(x) ==> exists|i: int| 0 <= i < it.s.len() && #[trigger] it.s[i].0 == x.0
  &&& forall|i: int| 0 <= i < it.s.len() ==> group_key(l, #[trigger] it.s[i].0)
}
#[verifier::opaque]
pub open spec fn group_key<K, V>(l: Lst<(K, V)>, k: K) -> bool { exists|x: (K, V)| #[trigger] l.has(x) && x.0 == k }
pub proof fn group_has<K, V>(s: Seq<(K, V)>)
  ensures group(s).keys.s.no_duplicates(),
    forall|k: K, v: V| group(s).has_key(k) ==> (#[trigger] group(s).at(k).has(v) <==> s.contains((k, v))),
    forall|x: (K, V)| #[trigger] s.contains(x) ==> group(s).has_key(x.0),
    forall|k: K| #[trigger] group(s).has_key(k) ==> group_key(Lst { s }, k),
  decreases s.len()
{
  broadcast use { has_push, has_empty, has_hinsert, has_hempty };
  if s.len() > 0 {
    let t = s.drop_last(); let m = group(t); let z = s.last();
    group_has(t);
    assert forall|x: (K, V)| #[trigger] s.contains(x) <==> t.contains(x) || x == z by {
      if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < t.len() { assert(t[i] == x); } }
      if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i] == x); }
      if x == z { assert(s[s.len() - 1] == x); }
    }
    shuffle_ax(m.keys.s);
    let w = m.get_or_default(z.0);
    assert(!m.has_key(z.0) ==> w == Lst::<V>::new());
    assert forall|k: K, v: V| group(s).has_key(k) implies (#[trigger] group(s).at(k).has(v) <==> s.contains((k, v))) by {
      if k == z.0 {
        assert(group(s).at(k) == w.push_upd(z.1));
        assert(w.push_upd(z.1).has(v) <==> w.has(v) || v == z.1);
        if !m.has_key(k) { assert(t.contains((k, v)) ==> m.has_key((k, v).0)); } else { assert(w == m.at(k)); }
      } else { assert(m.has_key(k)); assert(group(s).at(k) == m.at(k)); }
    }
    assert forall|x: (K, V)| #[trigger] s.contains(x) implies group(s).has_key(x.0) by { if x != z { assert(t.contains(x)); assert(m.has_key(x.0)); } }
    assert forall|k: K| #[trigger] group(s).has_key(k) implies group_key(Lst { s }, k) by {
      reveal(group_key);
      let l = Lst { s }; let lt = Lst { s: t };
      if k == z.0 { assert(s.contains(z)); assert(l.has(z)); } else { assert(m.has_key(k)); assert(group_key(lt, k)); let x = choose|x: (K, V)| #[trigger] lt.has(x) && x.0 == k; assert(t.contains(x)); assert(s.contains(x)); assert(l.has(x)); }
    }
  }
}
pub broadcast proof fn group_map<K, V>(l: Lst<(K, V)>) ensures grouped(l, (#[trigger] l.into_group_map()).iter())
{
  reveal(grouped);
  let m = group(l.s); let it = m.iter(); let ks = shuffle(m.keys.s);
  group_has(l.s);
  shuffle_ax(m.keys.s);
  assert(ks.to_set() =~= m.keys.s.to_set()) by { assert forall|k: K| #[trigger] ks.to_set().contains(k) <==> m.keys.s.to_set().contains(k) by { assert(ks.contains(k) <==> m.keys.s.contains(k)); } }
  m.keys.s.unique_seq_to_set();
  ks.lemma_no_dup_set_cardinality();
  assert forall|i: int| 0 <= i < it.s.len() implies m.has_key(#[trigger] it.s[i].0) && it.s[i] == (ks[i], m.at(ks[i])) by { assert(ks.contains(ks[i])); }
  assert forall|x: (K, V)| #[trigger] l.has(x) implies exists|i: int| 0 <= i < it.s.len() && #[trigger] it.s[i].0 == x.0 by {
    assert(l.s.contains(x)); assert(m.has_key(x.0)); assert(ks.contains(x.0));
    let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x.0; assert(it.s[i].0 == x.0); }
  assert forall|i: int| 0 <= i < it.s.len() implies group_key(l, #[trigger] it.s[i].0) by {
    assert(m.has_key(it.s[i].0)); assert(Lst { s: l.s } == l); }
}
pub proof fn hmap_from_spec<K, V>(s: Seq<(K, V)>, k: K)
  ensures hmap_from(s).keys.has(k) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k,
    hmap_from(s).keys.has(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, (hmap_from(s).f)(k))
  decreases s.len()
{
  if s.len() == 0 { has_hempty(k); } else {
    let t = s.drop_last();
    hmap_from_spec(t, k);
    has_hinsert(hmap_from(t).keys, s.last().0, k);
    assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]);
    if s.last().0 == k { assert(s[s.len() - 1] == (k, (hmap_from(s).f)(k))); assert(s[s.len() - 1].0 == k); }
    else if hmap_from(s).keys.has(k) {
      let i = choose|i: int| 0 <= i < t.len() && t[i].0 == k; assert(s[i].0 == k);
      let j = choose|i: int| 0 <= i < t.len() && t[i] == (k, (hmap_from(t).f)(k)); assert(s[j] == (k, (hmap_from(s).f)(k)));
    }
    if exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k && s.last().0 != k {
      let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k; assert(t[i].0 == k);
    }
  }
}

// Maps to sets, and to lists, read as relations.
pub closed spec fn mhas<K, V>(m: HMap<K, HSet<V>>, k: K, x: V) -> bool { m.has_key(k) && m.at(k).has(x) }
pub broadcast proof fn mhas_at<K, V>(m: HMap<K, HSet<V>>, k: K, x: V)
  ensures m.has_key(k) ==> (#[trigger] m.at(k).has(x) <==> mhas(m, k, x)) { }
pub broadcast proof fn mhas_key<K, V>(m: HMap<K, HSet<V>>, k: K, x: V) ensures #[trigger] mhas(m, k, x) ==> m.has_key(k) && m.at(k).has(x) { }
pub broadcast proof fn mhas_empty<K, V>(k: K, x: V) ensures !(#[trigger] mhas(hmap_empty::<K, HSet<V>>(), k, x)) { has_hempty(k); }
pub broadcast proof fn mhas_entry<K, V>(m: HMap<K, HSet<V>>, k: K, q: K, x: V)
  ensures #[trigger] mhas(m.insert_upd(k, m.get_or_default(k)), q, x) <==> mhas(m, q, x)
{ has_hinsert(m.keys, k, q); has_hempty(x); }
pub broadcast proof fn mhas_add<K, V>(m: HMap<K, HSet<V>>, k: K, v: V, q: K, x: V)
  ensures #[trigger] mhas(m.insert_upd(k, m.get_or_default(k).insert_upd(v)), q, x) <==> mhas(m, q, x) || (q == k && x == v)
{ has_hinsert(m.keys, k, q); has_hempty(x); has_hinsert(m.get_or_default(k), v, x); }
pub broadcast proof fn mhas_put<K, V>(m: HMap<K, HSet<V>>, k: K, s: HSet<V>, q: K, x: V)
  ensures #[trigger] mhas(m.insert_upd(k, s), q, x) <==> if q == k { s.has(x) } else { mhas(m, q, x) }
{ has_hinsert(m.keys, k, q); }
pub broadcast proof fn key_put<K, V>(m: HMap<K, V>, k: K, v: V, q: K)
  ensures #[trigger] m.insert_upd(k, v).has_key(q) <==> m.has_key(q) || q == k { has_hinsert(m.keys, k, q); }
pub broadcast proof fn key_empty<K, V>(q: K) ensures !(#[trigger] hmap_empty::<K, V>().has_key(q)) { has_hempty(q); }
pub broadcast proof fn has_miter<K, V>(m: HMap<K, V>, x: (K, V))
  ensures #[trigger] m.iter().has(x) <==> m.has_key(x.0) && m.at(x.0) == x.1
{ has_map(m.keys.iter(), |k: K| (k, m.at(k)), x); }
pub broadcast proof fn has_miter2<K, V>(m: HMap<K, V>, k: K)
  ensures #![trigger m.iter(), m.has_key(k)] #![trigger m.iter(), m.at(k)] m.has_key(k) ==> m.iter().has((k, m.at(k)))
{ has_miter(m, (k, m.at(k))); }
pub closed spec fn lhas<K, V>(m: HMap<K, Lst<V>>, k: K, x: V) -> bool { m.has_key(k) && m.at(k).has(x) }
pub broadcast proof fn lhas_at<K, V>(m: HMap<K, Lst<V>>, k: K, x: V)
  ensures m.has_key(k) ==> (#[trigger] m.at(k).has(x) <==> lhas(m, k, x)) { }
pub broadcast proof fn lhas_key<K, V>(m: HMap<K, Lst<V>>, k: K, x: V) ensures #[trigger] lhas(m, k, x) ==> m.has_key(k) && m.at(k).has(x) { }
pub broadcast proof fn lhas_empty<K, V>(k: K, x: V) ensures !(#[trigger] lhas(hmap_empty::<K, Lst<V>>(), k, x)) { has_hempty(k); }
pub broadcast proof fn lhas_add<K, V>(m: HMap<K, Lst<V>>, k: K, l: Lst<V>, q: K, x: V)
  ensures #[trigger] lhas(m.insert_upd(k, m.get_or_default(k).extend_upd(l)), q, x) <==> lhas(m, q, x) || (q == k && l.has(x))
{ has_hinsert(m.keys, k, q); has_len0(Lst::<V> { s: Seq::empty() }, x); has_extend(m.get_or_default(k), l, x); }
pub broadcast proof fn get_put<K, V>(m: HMap<K, V>, k: K, v: V, q: K)
  ensures #[trigger] m.insert_upd(k, v).get(q) == (if q == k { Opt::Some(v) } else { m.get(q) }) { has_hinsert(m.keys, k, q); }
pub broadcast proof fn get_empty<K, V>(q: K) ensures #[trigger] hmap_empty::<K, V>().get(q) is None { has_hempty(q); }
pub broadcast group mapsets { get_put, get_empty, lhas_at, lhas_key, lhas_empty, lhas_add, mhas_at, mhas_key, mhas_empty, mhas_entry, mhas_add, mhas_put, key_put, key_empty, has_miter, has_miter2 }

// ---- dependency sets and the flow domain -----------------------------------------------
pub struct Local { pub i: int }
pub struct BasicBlock { pub i: int }
pub struct Location { pub block: BasicBlock, pub statement_index: int }
pub enum Loa { Location(Location), Arg(Local) }
pub struct Dom { pub v: Seq<Loa> }
impl Dom { pub open spec fn has(self, l: Loa) -> bool { Lst { s: self.v }.has(l) } }
pub struct LSet { pub h: HSet<Loa>, pub dom: Dom }
#[verifier::reject_recursive_types(K)]
pub struct Matrix<K> { pub m: HMap<K, LSet>, pub dom: Dom }
pub trait ToLoa { spec fn to_loa(self) -> Loa; }
impl ToLoa for Loa { open spec fn to_loa(self) -> Loa { self } }
impl ToLoa for Location { open spec fn to_loa(self) -> Loa { Loa::Location(self) } }
impl ToLoa for Local { open spec fn to_loa(self) -> Loa { Loa::Arg(self) } }
impl IntoLst<Loa> for LSet { open spec fn into_lst(self) -> Lst<Loa> { self.iter() } }
impl LSet {
  pub open spec fn new(dom: Dom) -> LSet { LSet { h: HSet::empty(), dom } }
  pub open spec fn has(self, l: Loa) -> bool { self.h.has(l) }
  pub open spec fn iter(self) -> Lst<Loa> { self.h.iter() }
  pub open spec fn len(self) -> int { self.h.len() }
  pub open spec fn is_empty(self) -> bool { self.h.len() == 0 }
  pub open spec fn contains<L: ToLoa>(self, l: L) -> bool { self.h.has(l.to_loa()) }
  pub open spec fn insert_upd<L: ToLoa>(self, l: L) -> LSet { LSet { h: self.h.insert_upd(l.to_loa()), dom: self.dom } }
  pub open spec fn insert_ret<L: ToLoa>(self, l: L) -> bool { !self.h.has(l.to_loa()) }
  pub open spec fn union_upd(self, o: LSet) -> LSet { LSet { h: self.h.extend_upd(o.h), dom: self.dom } }
  pub open spec fn intersect_upd(self, o: LSet) -> LSet { LSet { h: HSet { s: sfilter(self.h.s, |l: Loa| o.has(l)) }, dom: self.dom } }
  pub open spec fn insert_all_upd(self) -> LSet { LSet { h: HSet::empty().extend_upd(Lst { s: self.dom.v }), dom: self.dom } }
  pub open spec fn is_superset(self, o: LSet) -> bool { forall|l: Loa| #[trigger] o.has(l) ==> self.has(l) }
  pub open spec fn is_subset(self, o: LSet) -> bool { o.is_superset(self) }
}
pub broadcast proof fn has_liter(h: LSet, x: Loa) ensures #[trigger] h.iter().has(x) == h.has(x) { }
pub broadcast proof fn union_has(a: LSet, b: LSet, l: Loa)
  ensures #[trigger] a.union_upd(b).has(l) <==> a.has(l) || b.has(l)
{ has_hextend(a.h, b.h, l); }
pub broadcast proof fn inter_has(a: LSet, b: LSet, l: Loa)
  ensures #[trigger] a.intersect_upd(b).has(l) <==> a.has(l) && b.has(l)
{ let f = |l: Loa| b.has(l); sfilter_contains(a.h.s, f, l); shuffle_ax(a.h.s); shuffle_ax(sfilter(a.h.s, f)); }
pub broadcast proof fn all_has(a: LSet, l: Loa) ensures #[trigger] a.insert_all_upd().has(l) <==> a.dom.has(l) { ext_has(HSet::empty(), a.dom.v, l); has_hempty(l); }
pub broadcast proof fn lset_new_has(d: Dom, l: Loa)
  ensures !(#[trigger] LSet::new(d).has(l))
{ has_hempty(l); }
pub broadcast proof fn lins_has<L: ToLoa>(a: LSet, x: L, l: Loa)
  ensures #[trigger] a.insert_upd(x).has(l) <==> a.has(l) || l == x.to_loa()
{ has_hinsert(a.h, x.to_loa(), l); }

impl<K> Matrix<K> {
  pub open spec fn new(dom: Dom) -> Matrix<K> { Matrix { m: HMap { keys: HSet::empty(), f: |k: K| LSet::new(dom) }, dom } }
  /// There is a row for `k` (possibly empty).
  pub closed spec fn tracks(self, k: K) -> bool { self.m.keys.has(k) }
  pub open spec fn row_set(self, k: K) -> LSet { if self.m.keys.has(k) { self.m.at(k) } else { LSet::new(self.dom) } }
  pub open spec fn rows(self) -> Lst<(K, LSet)> { self.m.iter() }
  pub open spec fn has(self, k: K, l: Loa) -> bool { self.row_set(k).has(l) }
  pub open spec fn insert_upd<L: ToLoa>(self, k: K, l: L) -> Matrix<K> { Matrix { m: self.m.insert_upd(k, self.row_set(k).insert_upd(l)), dom: self.dom } }
  pub open spec fn union_into_row_upd(self, k: K, o: LSet) -> Matrix<K> { Matrix { m: self.m.insert_upd(k, self.row_set(k).union_upd(o)), dom: self.dom } }
  pub open spec fn clear_row_upd(self, k: K) -> Matrix<K> { Matrix { m: HMap { keys: HSet { s: sfilter(self.m.keys.s, |q: K| q != k) }, f: self.m.f }, dom: self.dom } }
  pub open spec fn join_upd(self, o: Matrix<K>) -> Matrix<K> { mjoin(self, o.rows().s) }
  pub open spec fn join_ret(self, o: Matrix<K>) -> bool { exists|k: K, l: Loa| #![trigger self.has(k, l)] #![trigger o.has(k, l)] o.has(k, l) && !self.has(k, l) }
}
pub open spec fn mjoin<K>(a: Matrix<K>, s: Seq<(K, LSet)>) -> Matrix<K> decreases s.len() {
  if s.len() == 0 { a } else { mjoin(a, s.drop_last()).union_into_row_upd(s.last().0, s.last().1) }
}
pub broadcast proof fn mx_new<K>(d: Dom, k: K, l: Loa) ensures !(#[trigger] Matrix::<K>::new(d).has(k, l)) { has_hempty::<K>(k); lset_new_has(d, l); }
pub broadcast proof fn mx_insert<K, L: ToLoa>(a: Matrix<K>, k: K, x: L, q: K, l: Loa)
  ensures #[trigger] a.insert_upd(k, x).has(q, l) <==> a.has(q, l) || (q == k && l == x.to_loa())
{ has_hinsert(a.m.keys, k, q); lins_has(a.row_set(k), x, l); }
pub broadcast proof fn mx_union<K>(a: Matrix<K>, k: K, o: LSet, q: K, l: Loa)
  ensures #[trigger] a.union_into_row_upd(k, o).has(q, l) <==> a.has(q, l) || (q == k && o.has(l))
{ has_hinsert(a.m.keys, k, q); union_has(a.row_set(k), o, l); }
pub broadcast proof fn mx_clear<K>(a: Matrix<K>, k: K, q: K, l: Loa)
  ensures #[trigger] a.clear_row_upd(k).has(q, l) <==> a.has(q, l) && q != k
{ let f = |q: K| q != k; sfilter_contains(a.m.keys.s, f, q); shuffle_ax(a.m.keys.s); shuffle_ax(sfilter(a.m.keys.s, f)); lset_new_has(a.dom, l); }
pub proof fn mjoin_has<K>(a: Matrix<K>, s: Seq<(K, LSet)>, q: K, l: Loa)
  ensures mjoin(a, s).has(q, l) <==> a.has(q, l) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == q && s[i].1.has(l)
  decreases s.len()
{
  if s.len() > 0 {
    let t = s.drop_last();
    mjoin_has(a, t, q, l);
    mx_union(mjoin(a, t), s.last().0, s.last().1, q, l);
    if exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == q && t[i].1.has(l) {
      let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == q && t[i].1.has(l); assert(s[i] == t[i]); }
    if s.last().0 == q && s.last().1.has(l) { assert(s[s.len() - 1] == s.last()); }
    if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == q && s[i].1.has(l) {
      let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == q && s[i].1.has(l); if i < t.len() { assert(s[i] == t[i]); } }
  }
}
pub proof fn mjoin_tracks<K>(a: Matrix<K>, s: Seq<(K, LSet)>, q: K)
  ensures mjoin(a, s).tracks(q) <==> a.tracks(q) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == q
  decreases s.len()
{
  if s.len() > 0 {
    let t = s.drop_last();
    mjoin_tracks(a, t, q);
    has_hinsert(mjoin(a, t).m.keys, s.last().0, q);
    if exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == q { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == q; assert(s[i] == t[i]); }
    if s.last().0 == q { assert(s[s.len() - 1] == s.last()); }
    if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == q { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == q; if i < t.len() { assert(s[i] == t[i]); } }
  }
}
pub broadcast proof fn mx_new_tracks<K>(d: Dom, k: K) ensures !(#[trigger] Matrix::<K>::new(d).tracks(k)) { has_hempty::<K>(k); }
pub broadcast proof fn mx_rows<K>(a: Matrix<K>, x: (K, LSet)) ensures #[trigger] a.rows().has(x) <==> a.tracks(x.0) && x.1 == a.row_set(x.0)
{ has_map(a.m.keys.iter(), |k: K| (k, a.m.at(k)), x); has_hiter(a.m.keys, x.0); }
pub broadcast proof fn mx_tracks<K>(a: Matrix<K>, k: K, l: Loa) ensures #![trigger a.has(k, l), a.tracks(k)] a.has(k, l) ==> a.tracks(k) { lset_new_has(a.dom, l); }
pub broadcast proof fn mx_join_tracks<K>(a: Matrix<K>, o: Matrix<K>, q: K)
  ensures #[trigger] a.join_upd(o).tracks(q) <==> a.tracks(q) || o.tracks(q)
{
  let s = o.rows();
  mjoin_tracks(a, s.s, q);
  if o.tracks(q) { mx_rows(o, (q, o.row_set(q))); let i = wit(s, (q, o.row_set(q))); assert(s.s[i].0 == q); }
  if exists|i: int| 0 <= i < s.s.len() && (#[trigger] s.s[i]).0 == q { let i = choose|i: int| 0 <= i < s.s.len() && (#[trigger] s.s[i]).0 == q; at(s, i); mx_rows(o, s.s[i]); }
}
pub broadcast proof fn mx_join<K>(a: Matrix<K>, o: Matrix<K>, q: K, l: Loa)
  ensures #[trigger] a.join_upd(o).has(q, l) <==> a.has(q, l) || o.has(q, l)
{
  let s = o.rows();
  mjoin_has(a, s.s, q, l);
  lset_new_has(o.dom, l);
  if o.has(q, l) {
    has_map(o.m.keys.iter(), |k: K| (k, o.m.at(k)), (q, o.m.at(q)));
    let i = wit(s, (q, o.m.at(q)));
    assert(s.s[i].0 == q && s.s[i].1.has(l));
  }
  if exists|i: int| 0 <= i < s.s.len() && (#[trigger] s.s[i]).0 == q && s.s[i].1.has(l) {
    let i = choose|i: int| 0 <= i < s.s.len() && (#[trigger] s.s[i]).0 == q && s.s[i].1.has(l);
    at(s, i);
    has_map(o.m.keys.iter(), |k: K| (k, o.m.at(k)), s.s[i]);
  }
}
pub broadcast group matrices { mx_new_tracks, mx_rows, mx_join_tracks, mx_new, mx_insert, mx_union, mx_clear, mx_join }

// ---- the engine's containers ------------------------------------------------------------
/// A vector indexed by some kind of index.
#[verifier::reject_recursive_types(I)]
pub struct LMap<T, I = Loa> { pub f: spec_fn(I) -> T }
pub struct IndexVec;
impl IndexVec { pub open spec fn from_elem_n<T, I>(x: T, n: int) -> LMap<T, I> { LMap { f: |l: I| x } } }
impl<T, I> LMap<T, I> {
  pub open spec fn idx(self, l: I) -> T { (self.f)(l) }
  pub open spec fn set_idx(self, l: I, x: T) -> LMap<T, I> { LMap { f: |m: I| if m == l { x } else { (self.f)(m) } } }
  #[verifier::inline] pub open spec fn el(self, x: T) -> T { x }
  pub open spec fn into_iter(self) -> LMap<T, I> { self }
  pub open spec fn map<U>(self, g: spec_fn(T) -> U) -> LMap<U, I> { LMap { f: |l: I| g(self.idx(l)) } }
  pub open spec fn collect(self) -> LMap<T, I> { self }
}
/// rustc's work queue: a queue of distinct elements. The order of elements is left open.
pub struct WorkQueue { pub h: HSet<Loa> }
impl WorkQueue {
  pub open spec fn with_none(n: int) -> WorkQueue { WorkQueue { h: HSet::empty() } }
  pub open spec fn has(self, l: Loa) -> bool { self.h.has(l) }
  pub open spec fn insert_upd(self, l: Loa) -> WorkQueue { WorkQueue { h: self.h.insert_upd(l) } }
  pub open spec fn insert_ret(self, l: Loa) -> bool { !self.h.has(l) }
  pub open spec fn pop_ret(self) -> Opt<Loa> { if self.h.s.len() == 0 { Opt::None } else { Opt::Some(choose|l: Loa| #[trigger] self.h.has(l)) } }
  pub open spec fn pop_upd(self) -> WorkQueue { let p = self.pop_ret()->Some_0; WorkQueue { h: HSet { s: sfilter(self.h.s, |l: Loa| l != p) } } }
}
pub broadcast proof fn wq_new(n: int, l: Loa) ensures !(#[trigger] WorkQueue::with_none(n).has(l)) { has_hempty(l); }
pub broadcast proof fn wq_insert(w: WorkQueue, l: Loa, m: Loa) ensures #[trigger] w.insert_upd(l).has(m) <==> w.has(m) || m == l { has_hinsert(w.h, l, m); }
pub broadcast proof fn wq_pop(w: WorkQueue, m: Loa)
  ensures #![trigger w.pop_upd().has(m)] #![trigger w.pop_ret(), w.has(m)]
    w.pop_ret() is Some ==> (w.pop_upd().has(m) <==> w.has(m) && m != w.pop_ret()->Some_0),
    w.pop_ret() is None ==> !w.has(m),
{
  let p = w.pop_ret()->Some_0; let f = |l: Loa| l != p;
  sfilter_contains(w.h.s, f, m); shuffle_ax(w.h.s); shuffle_ax(sfilter(w.h.s, f));
}
pub broadcast proof fn wq_pop_in(w: WorkQueue)
  ensures #[trigger] w.pop_ret() is Some ==> w.has(w.pop_ret()->Some_0)
{ if w.h.s.len() > 0 { shuffle_ax(w.h.s); assert(w.h.s.contains(w.h.s[0])); assert(w.h.has(w.h.s[0])); } }
pub broadcast proof fn lmap_set<T, I>(v: LMap<T, I>, l: I, x: T, m: I) ensures #[trigger] v.set_idx(l, x).idx(m) == (if m == l { x } else { v.idx(m) }) { }
pub broadcast proof fn lmap_map<T, U, I>(v: LMap<T, I>, g: spec_fn(T) -> U, m: I) ensures #[trigger] v.map(g).idx(m) == g(v.idx(m)) { }
pub broadcast group queues { wq_new, wq_insert, wq_pop, wq_pop_in, lmap_set, lmap_map }
