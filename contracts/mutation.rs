pub struct ModularMutationVisitor { pub place_info: PlaceInfo }
/// rustc_utils `PlaceCollector`: every place a right-hand side evaluates, as rustc's MIR visitor meets them.
pub struct PlaceCollector(pub Lst<Place>);
impl PlaceCollector {
  pub open spec fn default() -> PlaceCollector { PlaceCollector(Lst::new()) }
  pub open spec fn visit_rvalue_upd(self, r: Rvalue, l: Location) -> PlaceCollector { PlaceCollector(Lst { s: self.0.s + r.places().s }) }
}
impl Rvalue { pub uninterp spec fn places(self) -> Lst<Place>; }

/// `x = y` where `x` is built field by field: the place whose fields are written, and their types.
pub open spec fn built_fields(pi: PlaceInfo, mutated: Place, r: Rvalue) -> Opt<(Place, Lst<Ty>)> {
  match r {
    Rvalue::Aggregate(AggregateKind::Adt(d, v, substs, _, Opt::None), ops) => {
      let adt = pi.tcx.adt_def(d);
      let whole = if adt.adt_kind() is Enum { mutated.project_deeper(Lst { s: seq![PlaceElem::Downcast(Opt::Some(adt.variant(v).name), v)] }, pi.tcx) } else { mutated };
      Opt::Some((whole, adt.variant(v).fields.map(|f: FieldDef| f.ty(pi.tcx, substs))))
    },
    Rvalue::Aggregate(AggregateKind::Tuple, ops) => Opt::Some((mutated, r.ty(pi.body.local_decls(), pi.tcx).tuple_fields())),
    _ => Opt::None,
  }
}
/// `x = y` where `y` is a structure: its fields that are visible from the analyzed function.
pub open spec fn copied_fields(pi: PlaceInfo, r: Rvalue) -> Opt<(Place, Lst<PlaceElem>)> {
  match r {
    Rvalue::Use(op) => match op.as_place() {
      Opt::Some(p) => match p.ty(pi.body.local_decls(), pi.tcx).ty.kind() {
        TyKind::Adt(adt, substs) => if adt.is_struct() {
          let fs = adt.all_visible_fields(pi.def_id, pi.tcx).s;
          Opt::Some((p, Lst { s: Seq::new(fs.len(), |i: int| PlaceElem::Field(FieldIdx { i }, fs[i].ty(pi.tcx, substs))) }))
        } else { Opt::None },
        _ => Opt::None,
      },
      Opt::None => Opt::None,
    },
    _ => Opt::None,
  }
}
pub open spec fn write_of(p: Place, inputs: Lst<Place>) -> Mutation { Mutation { mutated: p, inputs, status: MutationStatus::Definitely } }
pub open spec fn part(p: Place, e: PlaceElem) -> Place { Place { local: p.local, projection: Lst { s: p.projection.s + seq![e] } } }
/// What `mutated = r` writes, and from what.
pub open spec fn assign_writes(pi: PlaceInfo, mutated: Place, r: Rvalue) -> Seq<Mutation> {
  match built_fields(pi, mutated, r) {
    Opt::Some((whole, tys)) if tys.s.len() > 0 => {
      let ops = r->Aggregate_1.s;
      Seq::new(if tys.s.len() <= ops.len() { tys.s.len() } else { ops.len() }, |i: int| write_of(part(whole, PlaceElem::Field(FieldIdx { i }, tys.s[i])), ops[i].as_place().into_iter()))
    },
    _ => match copied_fields(pi, r) {
      Opt::Some((src, es)) => if es.s.len() == 0 { seq![write_of(mutated, Lst { s: seq![src] })] } else {
        Seq::new(es.s.len(), |i: int| write_of(part(mutated, es.s[i]), Lst { s: seq![part(src, es.s[i])] }))
      },
      Opt::None => seq![write_of(mutated, r.places())],
    },
  }
}
@fn ModularMutationVisitor::visit_assign
file: crates/flowistry/src/infoflow/mutation.rs
params: self: ModularMutationVisitor, mutated: Place, rvalue: Rvalue, location: Location
ret: out: Lst<(Location, Lst<Mutation>)>
events: true
ensures once: out.s.len() == 1 && out.s[0].0 == location
ensures writes: out.s[0].1.s =~= assign_writes(self.place_info, mutated, rvalue)
@end

@fn arg_places
file: crates/flowistry/src/mir/utils.rs
params: args: Lst<Spanned<Operand>>
ret: out: Lst<(int, Place)>
ensures mem: forall|x: (int, Place)| #[trigger] out.has(x) <==> 0 <= x.0 < args.s.len() && args.s[x.0].node.as_place() == Opt::Some(x.1)
@end

@fn AsyncHack::new
file: crates/flowistry/src/mir/utils.rs
params: tcx: TyCtxt, body: Body, def_id: DefId
ret: out: AsyncHack
ensures ctx: out.context_ty == body.async_context(tcx, def_id) && out.tcx == tcx && out.body == body
@end

@fn AsyncHack::ignore_place
file: crates/flowistry/src/mir/utils.rs
params: self: AsyncHack, place: Place
ret: out: bool
ensures only_context: out <==> self.context_ty is Some && self.tcx.erase_regions(place.ty(self.body.local_decls(), self.tcx).ty) == self.tcx.erase_regions(self.context_ty->Some_0)
@end

/// `p` is the task context of an async body (ignored in calls).
pub open spec fn task_context(pi: PlaceInfo, p: Place) -> bool {
  pi.body.async_context(pi.tcx, pi.def_id) is Some
  && pi.tcx.erase_regions(p.ty(pi.body.local_decls(), pi.tcx).ty) == pi.tcx.erase_regions(pi.body.async_context(pi.tcx, pi.def_id)->Some_0)
}
/// `p` is passed by the call.
pub open spec fn passed(pi: PlaceInfo, args: Lst<Spanned<Operand>>, p: Place) -> bool {
  !task_context(pi, p) && exists|x: (int, Place)| #[trigger] arg_places(args).has(x) && x.1 == p
}
/// `ms` may write `q` besides its first destination.
pub open spec fn may_write(ms: Lst<Mutation>, q: Place) -> bool { exists|i: int| 0 < i < ms.s.len() && (#[trigger] ms.s[i]).mutated == q }
pub broadcast proof fn may_write_push(ms: Lst<Mutation>, m: Mutation, q: Place)
  ensures #[trigger] may_write(ms.push_upd(m), q) <==> may_write(ms, q) || (ms.s.len() > 0 && m.mutated == q)
{
  let n = ms.push_upd(m);
  if may_write(ms, q) { let i = choose|i: int| 0 < i < ms.s.len() && (#[trigger] ms.s[i]).mutated == q; assert(n.s[i].mutated == q); }
  if ms.s.len() > 0 && m.mutated == q { assert(n.s[ms.s.len() as int].mutated == q); }
}
/// `ms` is what a call with these arguments and destination may write: the destination, from all
/// arguments (nothing when it is unit), and all that is mutable through an argument, from all arguments.
pub open spec fn call_writes(pi: PlaceInfo, args: Lst<Spanned<Operand>>, dest: Place, ms: Lst<Mutation>) -> bool {
  ms.s.len() > 0 && ms.s[0].mutated == dest && ms.s[0].status is Definitely
  && (forall|p: Place| #[trigger] ms.s[0].inputs.has(p) <==> !dest.ty(pi.body.local_decls(), pi.tcx).ty.is_unit() && passed(pi, args, p))
  && (forall|i: int| 0 < i < ms.s.len() ==> (#[trigger] ms.s[i]).status is Possibly
    && (forall|p: Place| #[trigger] ms.s[i].inputs.has(p) <==> passed(pi, args, p))
    && through_args(pi, args, ms.s[i].mutated))
  && (forall|q: Place| #[trigger] through_args(pi, args, q) ==> may_write(ms, q))
}
/// `q` can be written through an argument.
pub open spec fn through_args(pi: PlaceInfo, args: Lst<Spanned<Operand>>, q: Place) -> bool {
  exists|p: Place| #[trigger] passed(pi, args, p) && pi.reachable_values(p, Mutability::Mut).has(q)
}
@fn ModularMutationVisitor::visit_terminator
file: crates/flowistry/src/infoflow/mutation.rs
params: self: ModularMutationVisitor, terminator: Terminator, location: Location
ret: out: Lst<(Location, Lst<Mutation>)>
events: true
uses: may_write_push
ensures calls: match terminator.kind { TerminatorKind::Call { args, destination, .. } => out.s.len() == 1 && out.s[0].0 == location && call_writes(self.place_info, args, destination, out.s[0].1), _ => out.s.len() == 0 }
loop 0
  before: assert(forall|p: Place| #[trigger] V(arg_inputs).has(p) <==> passed(self.place_info, V(args), p));
  inv: V(mutations).s.len() >= 1 && V(mutations).s[0] == OLD(mutations).s[0],
    forall|i: int| 0 < i < V(mutations).s.len() ==> (#[trigger] V(mutations).s[i]).status is Possibly && V(mutations).s[i].inputs == V(arg_inputs) && exists|p: Place| #[trigger] SEEN(p) && self.place_info.reachable_values(p, Mutability::Mut).has(V(mutations).s[i].mutated),
    forall|p: Place, q: Place| #[trigger] SEEN(p) && #[trigger] self.place_info.reachable_values(p, Mutability::Mut).has(q) ==> may_write(V(mutations), q),
loop 1
  inv: V(mutations).s.len() >= OLD(mutations).s.len(),
    forall|i: int| 0 <= i < OLD(mutations).s.len() ==> #[trigger] V(mutations).s[i] == OLD(mutations).s[i],
    forall|i: int| OLD(mutations).s.len() <= i < V(mutations).s.len() ==> (#[trigger] V(mutations).s[i]).status is Possibly && V(mutations).s[i].inputs == V(arg_inputs) && $IT.has(V(mutations).s[i].mutated),
    forall|q: Place| #[trigger] may_write(OLD(mutations), q) ==> may_write(V(mutations), q),
    forall|q: Place| #[trigger] SEEN(q) ==> may_write(V(mutations), q),
@end

/// rustc's MIR `Visitor`, whose default methods visit every part of what they are given: of the
/// parts a `ModularMutationVisitor` reacts to, a statement has its assignment, a location its
/// statement or terminator.
impl ModularMutationVisitor {
  pub open spec fn ev_visit_statement(pi: PlaceInfo, s: Statement, l: Location) -> Lst<(Location, Lst<Mutation>)> {
    match s.kind { StatementKind::Assign((p, r)) => ModularMutationVisitor { place_info: pi }.visit_assign(p, r, l), _ => Lst::new() }
  }
  pub open spec fn ev_visit_assign(pi: PlaceInfo, p: Place, r: Rvalue, l: Location) -> Lst<(Location, Lst<Mutation>)> {
    ModularMutationVisitor { place_info: pi }.visit_assign(p, r, l)
  }
  pub open spec fn ev_visit_terminator(pi: PlaceInfo, t: Terminator, l: Location) -> Lst<(Location, Lst<Mutation>)> {
    ModularMutationVisitor { place_info: pi }.visit_terminator(t, l)
  }
  pub open spec fn ev_visit_location(pi: PlaceInfo, body: Body, l: Location) -> Lst<(Location, Lst<Mutation>)> {
    match body.stmt_at(l) { Either::Left(s) => Self::ev_visit_statement(pi, s, l), Either::Right(t) => Self::ev_visit_terminator(pi, t, l) }
  }
}
