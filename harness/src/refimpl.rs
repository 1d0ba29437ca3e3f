//! Executable reading of the contracts: a deliberately naive, cache-free, set-based
//! re-statement of what each contract in /verif/contracts says, over rustc's own types.
//! Only rustc / rustc_utils primitives are used (the trusted base), never flowistry code.

use std::collections::BTreeMap;

use flowistry::extensions::{ContextMode, EvalMode, MutabilityMode, PointerMode};
use rustc_abi::FieldIdx;
use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
use rustc_hir::{BodyId, def_id::DefId};
use rustc_middle::{
  mir::*,
  ty::{
    AdtKind, ClosureKind, GenericArgKind, RegionKind, RegionVid, Ty, TyCtxt, TyKind,
    TypeSuperVisitable, TypeVisitable, TypeVisitor,
  },
};
use rustc_utils::{
  BodyExt, OperandExt, PlaceExt,
  mir::{
    borrowck_facts::get_body_with_borrowck_facts,
    control_dependencies::ControlDependencies, location_or_arg::LocationOrArg,
    place::UNKNOWN_REGION,
  },
};

pub type Deps = HashSet<LocationOrArg>;
pub type St<'tcx> = HashMap<Place<'tcx>, Deps>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RMut<'tcx> {
  pub mutated: Place<'tcx>,
  pub inputs: Vec<Place<'tcx>>,
  pub definite: bool,
}

pub struct Ref<'a, 'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub def_id: DefId,
  pub body: &'a Body<'tcx>,
  pub mode: EvalMode,
  pub loans: HashMap<RegionVid, HashSet<(Place<'tcx>, Mutability)>>,
  pub ctrl: ControlDependencies<BasicBlock>,
  /// In which order the simultaneous possible mutations of one instruction are applied
  /// (they come out of a hash set in the real code, so any order is right): 0 as listed,
  /// 1 reversed, 2 none sees the others, 3 all see all others, else shuffled.
  pub order: u64,
}

fn add(st: &mut St<'_>, _: ()) {
  st.retain(|_, d| !d.is_empty());
}

pub fn join<'tcx>(a: &mut St<'tcx>, b: &St<'tcx>) -> bool {
  let mut changed = false;
  for (p, d) in b {
    let e = a.entry(*p).or_default();
    for x in d {
      changed |= e.insert(*x);
    }
  }
  changed
}

impl<'a, 'tcx> Ref<'a, 'tcx> {
  pub fn build(
    tcx: TyCtxt<'tcx>,
    def_id: DefId,
    bwf: &'a BodyWithBorrowckFacts<'tcx>,
    mode: EvalMode,
  ) -> Self {
    let body = &bwf.body;
    let mut this = Ref {
      tcx,
      def_id,
      body,
      mode,
      loans: HashMap::default(),
      ctrl: body.control_dependencies(),
      order: 0,
    };
    this.loans = this.compute_loans(bwf);
    this
  }

  pub fn ignore_mut(&self) -> bool {
    self.mode.mutability_mode == MutabilityMode::IgnoreMut
  }

  pub fn ty(&self, p: Place<'tcx>) -> Ty<'tcx> {
    p.ty(self.body.local_decls(), self.tcx).ty
  }

  pub fn deref(&self, p: Place<'tcx>) -> Place<'tcx> {
    self.tcx.mk_place_deref(p)
  }

  pub fn prefix(&self, p: Place<'tcx>, n: usize) -> Place<'tcx> {
    Place::make(p.local, &p.projection[.. n], self.tcx)
  }

  /// Index of each dereference (of anything but a Box) in the place, in order.
  pub fn ref_derefs(&self, p: Place<'tcx>) -> Vec<usize> {
    (0 .. p.projection.len())
      .filter(|i| {
        matches!(p.projection[*i], PlaceElem::Deref)
          && !self.ty(self.prefix(p, *i)).is_box()
      })
      .collect()
  }

  pub fn is_arg(&self, p: Place<'tcx>) -> bool {
    p.local.as_usize() >= 1 && p.local.as_usize() <= self.body.arg_count
  }

  pub fn is_direct(&self, p: Place<'tcx>) -> bool {
    self.is_arg(p) || self.ref_derefs(p).is_empty()
  }

  pub fn context_ty(&self) -> Option<Ty<'tcx>> {
    self.body.async_context(self.tcx, self.def_id)
  }

  fn compute_loans(
    &self,
    bwf: &BodyWithBorrowckFacts<'tcx>,
  ) -> HashMap<RegionVid, HashSet<(Place<'tcx>, Mutability)>> {
    let (tcx, body, def_id) = (self.tcx, self.body, self.def_id);
    let facts = bwf.input_facts.as_ref().unwrap();
    let base = facts
      .subset_base
      .iter()
      .map(|(a, b, _)| (RegionVid::from(*a), RegionVid::from(*b)))
      .collect::<Vec<_>>();
    let pointers = body
      .local_decls()
      .indices()
      .flat_map(|l| Place::from_local(l, tcx).interior_pointers(tcx, body, def_id))
      .collect::<Vec<_>>();
    let stat = RegionVid::from_usize(0);
    let max = pointers
      .iter()
      .map(|(r, _)| *r)
      .chain(base.iter().flat_map(|(a, b)| [*a, *b]))
      .filter(|r| *r != UNKNOWN_REGION)
      .max()
      .unwrap_or(stat)
      .as_usize();

    let mut ignored: HashSet<RegionVid> = HashSet::default();
    if let Some(cx) = self.context_ty() {
      for part in cx.walk() {
        if let GenericArgKind::Lifetime(r) = part.kind()
          && let RegionKind::ReVar(rv) = r.kind()
        {
          ignored.insert(rv);
        }
      }
    }

    let mut edges: HashSet<(usize, usize)> = HashSet::default();
    for (a, b) in base {
      if !ignored.contains(&a) && !ignored.contains(&b) {
        edges.insert((a.as_usize(), b.as_usize()));
      }
    }
    for r in 0 ..= max {
      edges.insert((0, r));
    }
    if self.mode.pointer_mode == PointerMode::Conservative {
      let mut by_region: HashMap<RegionVid, Vec<Place<'tcx>>> = HashMap::default();
      for (r, ps) in &pointers {
        if *r != UNKNOWN_REGION {
          by_region.entry(*r).or_default().extend(ps.iter().map(|(p, _)| *p));
        }
      }
      for (r1, ps1) in &by_region {
        for (r2, ps2) in &by_region {
          if r1 != r2
            && ps1.iter().any(|p1| {
              ps2
                .iter()
                .any(|p2| self.ty(self.deref(*p1)) == self.ty(self.deref(*p2)))
            })
          {
            edges.insert((r1.as_usize(), r2.as_usize()));
          }
        }
      }
    }

    let n = max + 1;
    let mut succ = vec![vec![]; n];
    for (a, b) in &edges {
      succ[*a].push(*b);
    }
    let reach = (0 .. n)
      .map(|s| {
        let mut seen = vec![false; n];
        let mut todo = vec![s];
        seen[s] = true;
        while let Some(x) = todo.pop() {
          for y in &succ[x] {
            if !seen[*y] {
              seen[*y] = true;
              todo.push(*y);
            }
          }
        }
        seen
      })
      .collect::<Vec<_>>();

    let mut loans: HashMap<RegionVid, HashSet<(Place<'tcx>, Mutability)>> =
      HashMap::default();
    let mut narrow: HashMap<RegionVid, (Ty<'tcx>, Vec<PlaceElem<'tcx>>)> =
      HashMap::default();
    for data in body.basic_blocks.iter() {
      for stmt in &data.statements {
        if let StatementKind::Assign(box (_, Rvalue::Ref(region, kind, place))) = &stmt.kind
          && let RegionKind::ReVar(region) = region.kind()
        {
          if self.is_direct(*place) {
            let m = match kind {
              BorrowKind::Mut { .. } => Mutability::Mut,
              _ => Mutability::Not,
            };
            loans.entry(region).or_default().insert((*place, m));
          }
          // projection applied to whatever flows into this reborrow, from its base pointer
          let base = match self.ref_derefs(*place).first() {
            Some(i) => (
              self.ty(self.prefix(*place, i + 1)),
              place.projection[i + 1 ..].to_vec(),
            ),
            None => (
              body.local_decls()[place.local].ty,
              place.projection.to_vec(),
            ),
          };
          narrow.insert(region, base);
        }
      }
    }
    for arg in body.args_iter() {
      for (r, ps) in Place::from_local(arg, tcx).interior_pointers(tcx, body, def_id) {
        for (p, m) in ps {
          if p.projection.len() <= 2 {
            loans.entry(r).or_default().insert((self.deref(p), m));
          }
        }
      }
    }
    for (r, ps) in &pointers {
      if *r == UNKNOWN_REGION {
        for (p, _) in ps {
          loans
            .entry(UNKNOWN_REGION)
            .or_default()
            .insert((self.deref(*p), Mutability::Mut));
        }
      }
    }

    loop {
      let mut changed = false;
      for (a, b) in &edges {
        if a == b {
          continue;
        }
        let (ra, rb) = (RegionVid::from_usize(*a), RegionVid::from_usize(*b));
        let from = loans.get(&ra).cloned().unwrap_or_default();
        let narrowing = if reach[*b][*a] { None } else { narrow.get(&rb) };
        let into = loans.entry(rb).or_default();
        for (p, m) in from {
          let q = match narrowing {
            Some((ty, proj)) if self.ty(p) == *ty => {
              let mut full = p.projection.to_vec();
              full.extend(proj.iter().copied());
              Place::make(p.local, &full, tcx)
            }
            _ => p,
          };
          changed |= into.insert((q, m));
        }
      }
      if !changed {
        break;
      }
    }
    loans
  }

  pub fn normalize(&self, p: Place<'tcx>) -> Place<'tcx> {
    p.normalize(self.tcx, self.def_id)
  }

  pub fn aliases(&self, p: Place<'tcx>) -> HashSet<Place<'tcx>> {
    let mut out = HashSet::default();
    out.insert(p);
    if self.is_direct(p) {
      return out;
    }
    let last = *self.ref_derefs(p).last().unwrap();
    let ptr_ty = self.ty(self.prefix(p, last));
    let after = &p.projection[last + 1 ..];
    let (region, pointee) = match ptr_ty.kind() {
      TyKind::RawPtr(ty, _) => (UNKNOWN_REGION, *ty),
      TyKind::Ref(r, ty, _) => match r.kind() {
        RegionKind::ReVar(rv) => (rv, *ty),
        _ => return out,
      },
      _ => return out,
    };
    for (loan, _) in self.loans.get(&region).into_iter().flatten() {
      if self.ty(*loan) == pointee {
        let mut proj = loan.projection.to_vec();
        proj.extend(after.iter().copied());
        out.insert(Place::make(loan.local, &proj, self.tcx));
      } else {
        out.insert(*loan);
      }
    }
    out
  }

  pub fn children(&self, p: Place<'tcx>) -> HashSet<Place<'tcx>> {
    p.interior_places(self.tcx, self.body, self.def_id)
      .into_iter()
      .collect()
  }

  /// Enclosing places: a prefix is related to the place when the projections between
  /// them stay inside one allocation as far as references are concerned, either counted
  /// from the root (the containers of the first pointer) or from the place itself.
  pub fn parents(&self, p: Place<'tcx>) -> HashSet<Place<'tcx>> {
    let derefs = self.ref_derefs(p);
    let n = p.projection.len();
    (0 .. n)
      .filter(|i| {
        let before_first = derefs.first().is_none_or(|d| *i < *d);
        let after_last = derefs.last().is_none_or(|d| *i > *d);
        before_first || after_last
      })
      .map(|i| self.prefix(p, i))
      .collect()
  }

  pub fn conflicts(&self, p: Place<'tcx>) -> HashSet<Place<'tcx>> {
    let mut out = self.children(p);
    out.extend(self.parents(p));
    out
  }

  pub fn reachable(&self, p: Place<'tcx>, m: Mutability) -> HashSet<Place<'tcx>> {
    let mut regions = Vec::new();
    self.ty_regions(self.ty(p), false, &mut regions);
    let mut out: HashSet<Place<'tcx>> = HashSet::default();
    out.insert(p);
    for (r, under_shared) in regions {
      for (q, lm) in self.loans.get(&r).into_iter().flatten() {
        let lm = if under_shared { Mutability::Not } else { *lm };
        let ok = self.ignore_mut()
          || match m {
            Mutability::Not => true,
            Mutability::Mut => lm == Mutability::Mut,
          };
        if ok {
          out.insert(*q);
        }
      }
    }
    out
      .into_iter()
      .filter(|q| {
        let last_raw = self.ref_derefs(*q).last().is_some_and(|i| {
          let ty = self.ty(self.prefix(*q, *i));
          ty.is_box() || ty.is_raw_ptr()
        });
        last_raw || self.is_direct(*q)
      })
      .collect()
  }

  /// Every lifetime occurring in a type (owning and raw pointers count as the unknown
  /// lifetime), with whether it sits at or beneath a shared reference.
  fn ty_regions(&self, ty: Ty<'tcx>, under: bool, out: &mut Vec<(RegionVid, bool)>) {
    struct V<'b, 'c, 'd, 'tcx> {
      r: &'b Ref<'c, 'tcx>,
      under: bool,
      out: &'d mut Vec<(RegionVid, bool)>,
    }
    impl<'tcx> TypeVisitor<TyCtxt<'tcx>> for V<'_, '_, '_, 'tcx> {
      type Result = ();
      fn visit_ty(&mut self, t: Ty<'tcx>) {
        self.r.ty_regions(t, self.under, self.out)
      }
      fn visit_region(&mut self, r: rustc_middle::ty::Region<'tcx>) {
        match r.kind() {
          RegionKind::ReVar(rv) => self.out.push((rv, self.under)),
          RegionKind::ReStatic => self.out.push((RegionVid::from_usize(0), self.under)),
          _ => {}
        }
      }
    }
    let mut under = under;
    if let TyKind::Ref(_, _, m) = ty.kind() {
      under |= *m == Mutability::Not;
    } else if ty.is_box() || ty.is_raw_ptr() {
      out.push((UNKNOWN_REGION, under));
    }
    ty.super_visit_with(&mut V {
      r: self,
      under,
      out,
    });
  }

  pub fn all_args(&self) -> Vec<(Place<'tcx>, Local)> {
    let mut out = Vec::new();
    for arg in self.body.args_iter() {
      let place = Place::from_local(arg, self.tcx);
      let mut roots = vec![place];
      for (_, ps) in place.interior_pointers(self.tcx, self.body, self.def_id) {
        for (p, _) in ps {
          if p.projection.len() <= 2 {
            roots.push(self.deref(p));
          }
        }
      }
      for r in roots {
        for q in self.children(r) {
          out.push((q, arg));
        }
      }
    }
    out
  }

  pub fn initial(&self) -> St<'tcx> {
    let mut st = St::default();
    for (p, arg) in self.all_args() {
      for q in self.conflicts(p) {
        st.entry(self.normalize(q))
          .or_default()
          .insert(LocationOrArg::Arg(arg));
      }
    }
    st
  }

  // ------------------------------------------------------------------ mutations

  pub fn rvalue_places(&self, rv: &Rvalue<'tcx>, loc: Location) -> Vec<Place<'tcx>> {
    use rustc_middle::mir::visit::{PlaceContext, Visitor};
    struct C<'tcx>(Vec<Place<'tcx>>);
    impl<'tcx> Visitor<'tcx> for C<'tcx> {
      fn visit_place(&mut self, p: &Place<'tcx>, _: PlaceContext, _: Location) {
        self.0.push(*p);
      }
    }
    let mut c = C(vec![]);
    c.visit_rvalue(rv, loc);
    c.0
  }

  pub fn mutations(&self, loc: Location) -> Vec<RMut<'tcx>> {
    let (tcx, body) = (self.tcx, self.body);
    let data = &body.basic_blocks[loc.block];
    let one = |mutated, inputs, definite| RMut {
      mutated,
      inputs,
      definite,
    };
    if loc.statement_index < data.statements.len() {
      let StatementKind::Assign(box (dst, rv)) = &data.statements[loc.statement_index].kind
      else {
        return vec![];
      };
      match rv {
        Rvalue::Aggregate(box kind, ops) => {
          let parts: Option<(Place<'tcx>, Vec<(usize, Ty<'tcx>)>)> = match kind {
            // a union is one piece of memory: it is written as a whole
            AggregateKind::Adt(_, _, _, _, Some(_)) => None,
            AggregateKind::Adt(did, vidx, args, _, None) => {
              let adt = tcx.adt_def(*did);
              let variant = adt.variant(*vidx);
              let base = if adt.adt_kind() == AdtKind::Enum {
                let mut proj = dst.projection.to_vec();
                proj.push(PlaceElem::Downcast(Some(variant.name), *vidx));
                Place::make(dst.local, &proj, tcx)
              } else {
                *dst
              };
              let tys = variant
                .fields
                .iter()
                .map(|f| f.ty(tcx, args))
                .collect::<Vec<_>>();
              Some((base, tys.into_iter().enumerate().collect()))
            }
            AggregateKind::Tuple => Some((
              *dst,
              rv.ty(body.local_decls(), tcx)
                .tuple_fields()
                .iter()
                .enumerate()
                .collect(),
            )),
            _ => None,
          };
          if let Some((base, fields)) = parts
            && !fields.is_empty()
          {
            return fields
              .into_iter()
              .zip(ops.iter())
              .map(|((i, ty), op)| {
                let mut proj = base.projection.to_vec();
                proj.push(PlaceElem::Field(FieldIdx::from_usize(i), ty));
                one(
                  Place::make(base.local, &proj, tcx),
                  op.as_place().into_iter().collect(),
                  true,
                )
              })
              .collect();
          }
        }
        Rvalue::Use(Operand::Move(src) | Operand::Copy(src)) => {
          if let TyKind::Adt(adt, args) = self.ty(*src).kind()
            && adt.is_struct()
          {
            let all = adt.all_fields().collect::<Vec<_>>();
            let visible = all
              .iter()
              .filter(|f| f.vis.is_accessible_from(self.def_id, tcx))
              .collect::<Vec<_>>();
            let mut out = Vec::new();
            for (i, f) in visible.iter().enumerate() {
              let elem = PlaceElem::Field(FieldIdx::from_usize(i), f.ty(tcx, args));
              let ext = |p: Place<'tcx>| {
                let mut proj = p.projection.to_vec();
                proj.push(elem);
                Place::make(p.local, &proj, tcx)
              };
              out.push(one(ext(*dst), vec![ext(*src)], true));
            }
            if out.is_empty() {
              out.push(one(*dst, vec![*src], true));
            }
            return out;
          }
        }
        _ => {}
      }
      vec![one(*dst, self.rvalue_places(rv, loc), true)]
    } else {
      match &data.terminator().kind {
        TerminatorKind::Call {
          args, destination, ..
        } => {
          let cx = self.context_ty().map(|t| tcx.erase_regions(t));
          let places = args
            .iter()
            .filter_map(|a| match a.node {
              Operand::Copy(p) | Operand::Move(p) => Some(p),
              _ => None,
            })
            .filter(|p| cx != Some(tcx.erase_regions(self.ty(*p))))
            .collect::<Vec<_>>();
          let unit = self.ty(*destination).is_unit();
          let mut out = vec![one(
            *destination,
            if unit { vec![] } else { places.clone() },
            true,
          )];
          for p in &places {
            for q in self.reachable(*p, Mutability::Mut) {
              out.push(one(q, places.clone(), false));
            }
          }
          out
        }
        _ => vec![],
      }
    }
  }

  // ------------------------------------------------------------------ transfer

  pub fn influences(&self, p: Place<'tcx>) -> HashSet<Place<'tcx>> {
    let mut out = HashSet::default();
    for a in self.aliases(p) {
      out.extend(self.conflicts(a));
    }
    for i in self.ref_derefs(p) {
      for a in self.aliases(self.prefix(p, i)) {
        out.extend(self.conflicts(a));
      }
    }
    for e in p.projection {
      if let ProjectionElem::Index(i) = e
        && i != RETURN_PLACE
      {
        out.extend(self.conflicts(Place::from_local(i, self.tcx)));
      }
    }
    out
  }

  fn read(&self, st: &St<'tcx>, p: Place<'tcx>, out: &mut Deps) {
    for q in self.influences(p) {
      if let Some(d) = st.get(&self.normalize(q)) {
        out.extend(d.iter().copied());
      }
    }
  }

  pub fn deps_for(&self, st: &St<'tcx>, p: Place<'tcx>) -> Deps {
    let mut out = Deps::default();
    for q in self.reachable(p, Mutability::Not) {
      self.read(st, q, &mut out);
    }
    out
  }

  pub fn control_deps(&self, st: &St<'tcx>, loc: Location) -> Deps {
    let mut out = Deps::default();
    for block in self
      .ctrl
      .dependent_on(loc.block)
      .into_iter()
      .flat_map(|s| s.iter())
    {
      let data = &self.body.basic_blocks[block];
      out.insert(LocationOrArg::Location(Location {
        block,
        statement_index: data.statements.len(),
      }));
      if let TerminatorKind::SwitchInt {
        discr: Operand::Copy(p) | Operand::Move(p),
        ..
      } = &data.terminator().kind
      {
        self.read(st, *p, &mut out);
      }
    }
    out
  }

  /// Could data at this place be written through it (no shared reference on the way)?
  pub fn writable(&self, p: Place<'tcx>) -> bool {
    self.ignore_mut()
      || (0 .. p.projection.len()).all(|i| {
        !matches!(
          self.ty(self.prefix(p, i)).kind(),
          TyKind::Ref(_, _, Mutability::Not)
        )
      })
  }

  /// Effect of simultaneous mutations at `loc`. `strong` = false gives the variant that
  /// never discards anything (used to attribute differences).
  pub fn apply(
    &self,
    st: &mut St<'tcx>,
    muts: &[RMut<'tcx>],
    loc: Location,
    control: bool,
    strong: bool,
  ) {
    let ctrl = if control {
      self.control_deps(st, loc)
    } else {
      Deps::default()
    };
    let mut sorted = muts.iter().collect::<Vec<_>>();
    let first = muts.iter().position(|m| !m.definite).unwrap_or(muts.len());
    let tail_free = muts[first ..].iter().all(|m| !m.definite);
    if tail_free && self.order == 1 {
      sorted[first ..].reverse();
    } else if tail_free && self.order > 3 {
      let mut rng = crate::Rng(self.order);
      for i in (first + 1 .. sorted.len()).rev() {
        sorted.swap(i, first + rng.below(i + 1 - first));
      }
    }
    let muts = sorted;
    let all = muts
      .iter()
      .map(|m| {
        let mut d = ctrl.clone();
        d.insert(LocationOrArg::Location(loc));
        for i in &m.inputs {
          self.read(st, *i, &mut d);
        }
        d
      })
      .collect::<Vec<_>>();
    let mut frozen = None;
    for (i, (m, mut d)) in muts.iter().zip(all.clone()).enumerate() {
      if i == first && tail_free && self.order == 2 {
        frozen = Some(st.clone());
      }
      let aliases = self.aliases(m.mutated);
      let element = m.mutated.projection.iter().any(|e| {
        matches!(
          e,
          ProjectionElem::Index(..)
            | ProjectionElem::ConstantIndex { .. }
            | ProjectionElem::Subslice { .. }
        )
      });
      if strong && m.definite && !element && aliases.len() == 1 {
        for c in self.children(m.mutated) {
          st.remove(&self.normalize(c));
        }
      }
      self.read(frozen.as_ref().unwrap_or(st), m.mutated, &mut d);
      for a in aliases {
        if self.writable(a) {
          st.entry(self.normalize(a))
            .or_default()
            .extend(d.iter().copied());
        }
      }
    }
    while tail_free && self.order == 3 {
      let mut more = st.clone();
      for (m, mut d) in muts.iter().zip(all.clone()).skip(first) {
        self.read(st, m.mutated, &mut d);
        for a in self.aliases(m.mutated) {
          if self.writable(a) {
            more
              .entry(self.normalize(a))
              .or_default()
              .extend(d.iter().copied());
          }
        }
      }
      if !join(st, &more) {
        break;
      }
    }
    add(st, ());
  }
}

// -------------------------------------------------------------------- whole analysis

pub struct RefFlow<'a, 'tcx> {
  pub r: Ref<'a, 'tcx>,
  pub states: HashMap<Location, St<'tcx>>,
}

pub struct Cx<'tcx> {
  pub stack: Vec<BodyId>,
  pub cache: BTreeMap<Vec<u64>, ()>,
  pub tcx: TyCtxt<'tcx>,
}

pub fn successors(body: &Body<'_>, loc: Location) -> Vec<Location> {
  let data = &body.basic_blocks[loc.block];
  if loc.statement_index < data.statements.len() {
    vec![loc.successor_within_block()]
  } else {
    data
      .terminator()
      .successors()
      .map(|block| Location {
        block,
        statement_index: 0,
      })
      .collect()
  }
}

pub fn reachable_locs(body: &Body<'_>) -> Vec<Location> {
  let mut seen: HashSet<Location> = HashSet::default();
  let mut out = vec![];
  let mut todo = vec![Location::START];
  while let Some(l) = todo.pop() {
    if !seen.insert(l) {
      continue;
    }
    out.push(l);
    todo.extend(successors(body, l));
  }
  out
}

/// Least solution of: state(l) = effect_l(join of predecessors' states (+ init at entry)).
pub fn least_fixpoint<'tcx>(
  body: &Body<'tcx>,
  init: St<'tcx>,
  mut effect: impl FnMut(&mut St<'tcx>, Location),
  seed: u64,
) -> HashMap<Location, St<'tcx>> {
  let locs = reachable_locs(body);
  let mut pre: HashMap<Location, St<'tcx>> = HashMap::default();
  pre.insert(Location::START, init);
  let mut out: HashMap<Location, St<'tcx>> = HashMap::default();
  let mut dirty = locs.clone();
  let mut rng = crate::Rng(seed | 1);
  while !dirty.is_empty() {
    let i = if seed == 0 {
      dirty.len() - 1
    } else {
      rng.below(dirty.len())
    };
    let l = dirty.swap_remove(i);
    let mut st = pre.get(&l).cloned().unwrap_or_default();
    effect(&mut st, l);
    st.retain(|_, d| !d.is_empty());
    for s in successors(body, l) {
      if join(pre.entry(s).or_default(), &st) && !dirty.contains(&s) {
        dirty.push(s);
      }
    }
    out.insert(l, st);
  }
  out
}

pub fn ref_flow<'tcx>(
  tcx: TyCtxt<'tcx>,
  body_id: BodyId,
  bwf: &'tcx BodyWithBorrowckFacts<'tcx>,
  mode: EvalMode,
  stack: &mut Vec<BodyId>,
  order: u64,
) -> RefFlow<'tcx, 'tcx> {
  let def_id = tcx.hir_body_owner_def_id(body_id).to_def_id();
  stack.push(body_id);
  let mut r = Ref::build(tcx, def_id, bwf, mode);
  r.order = order;
  let mut callees: HashMap<BodyId, St<'tcx>> = HashMap::default();
  let states = least_fixpoint(
    &bwf.body,
    r.initial(),
    |st, l| {
      let muts = ref_mutations(&r, l, stack, &mut callees);
      if !muts.is_empty() {
        r.apply(st, &muts, l, true, true);
      }
    },
    0,
  );
  stack.pop();
  RefFlow { r, states }
}

/// Mutations at a location, through the callee's body in whole-program mode.
pub fn ref_mutations<'tcx>(
  r: &Ref<'tcx, 'tcx>,
  l: Location,
  stack: &mut Vec<BodyId>,
  callees: &mut HashMap<BodyId, St<'tcx>>,
) -> Vec<RMut<'tcx>> {
  if r.mode.context_mode == ContextMode::Recurse
    && let Some(m) = recursive_mutations(r, l, stack, callees)
  {
    return m;
  }
  r.mutations(l)
}

pub fn recursion_target<'tcx>(
  r: &Ref<'_, 'tcx>,
  l: Location,
  stack: &[BodyId],
) -> Option<(DefId, BodyId)> {
  let (tcx, body) = (r.tcx, r.body);
  let data = &body.basic_blocks[l.block];
  if l.statement_index < data.statements.len() {
    return None;
  }
  let TerminatorKind::Call { func, args, .. } = &data.terminator().kind else {
    return None;
  };
  let f = func.constant()?;
  let TyKind::FnDef(def_id, _) = f.const_.ty().kind() else {
    return None;
  };
  if tcx
    .fn_sig(*def_id)
    .skip_binder()
    .output()
    .skip_binder()
    .is_never()
  {
    return None;
  }
  let body_id = tcx.hir_get_if_local(*def_id)?.body_id()?;
  let mutating_closure = args.iter().any(|a| {
    a.node.as_place().is_some_and(|p| {
      r.ty(p).walk().any(|g| match g.kind() {
        GenericArgKind::Type(t) => match t.kind() {
          TyKind::Closure(_, s) => s.as_closure().kind() != ClosureKind::Fn,
          _ => false,
        },
        _ => false,
      })
    })
  });
  if mutating_closure || stack.contains(&body_id) {
    return None;
  }
  Some((*def_id, body_id))
}

pub fn recursive_mutations<'tcx>(
  r: &Ref<'tcx, 'tcx>,
  l: Location,
  stack: &mut Vec<BodyId>,
  callees: &mut HashMap<BodyId, St<'tcx>>,
) -> Option<Vec<RMut<'tcx>>> {
  let tcx = r.tcx;
  let (def_id, body_id) = recursion_target(r, l, stack)?;
  let TerminatorKind::Call {
    args, destination, ..
  } = &r.body.basic_blocks[l.block].terminator().kind
  else {
    unreachable!()
  };
  let bwf = get_body_with_borrowck_facts(tcx, def_id.expect_local());
  let cbody = &bwf.body;
  if !callees.contains_key(&body_id) {
    let flow = ref_flow(tcx, body_id, bwf, r.mode, stack, r.order);
    let mut end = St::default();
    for ret in cbody.all_returns() {
      if let Some(s) = flow.states.get(&ret) {
        join(&mut end, s);
      }
    }
    callees.insert(body_id, end);
  }
  let end = &callees[&body_id];

  let arg_place = |i: usize| args.get(i).and_then(|a| a.node.as_place());
  let translate = |child: Place<'tcx>, mutated: bool| -> Option<Place<'tcx>> {
    if child.ty(cbody.local_decls(), tcx).ty.is_unit() {
      return None;
    }
    let i = child.local.as_usize();
    let top = if child.local == RETURN_PLACE {
      *destination
    } else if i <= cbody.arg_count {
      if mutated && !child.is_indirect() {
        return None;
      }
      arg_place(i - 1)?
    } else {
      return None;
    };
    let mut proj = top.projection.to_vec();
    let mut ty = top.ty(r.body.local_decls(), tcx);
    for elem in child.projection.iter() {
      if let ProjectionElem::Field(f, _) = elem
        && let Some(adt) = ty.ty.ty_adt_def()
        && let Some(field) = adt.all_fields().nth(f.as_usize())
        && !field.vis.is_accessible_from(r.def_id, tcx)
      {
        break;
      }
      ty = ty.projection_ty(tcx, elem);
      proj.push(match elem {
        ProjectionElem::Field(f, _) => ProjectionElem::Field(f, ty.ty),
        e => e,
      });
    }
    Some(Place::make(top.local, &proj, tcx))
  };

  // the destination is overwritten as a whole, then everything translated adds to it
  let mut out = vec![RMut {
    mutated: *destination,
    inputs: vec![],
    definite: true,
  }];
  for (child, deps) in end {
    let Some(parent) = translate(*child, true) else {
      continue;
    };
    let is_ret = child.local == RETURN_PLACE;
    if deps.len() <= 1 && !is_ret {
      continue;
    }
    let inputs = end
      .iter()
      .filter(|(_, d)| d.is_subset(deps))
      .filter_map(|(p, _)| translate(*p, false))
      .collect::<Vec<_>>();
    out.push(RMut {
      mutated: parent,
      inputs,
      definite: false,
    });
  }
  Some(out)
}

pub fn visit_never<T: for<'tcx> TypeVisitable<TyCtxt<'tcx>>>(_: T) {}
