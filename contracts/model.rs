// Models of the rustc and rustc_utils types the functions under contract use. Plain data is
// modelled structurally; library functions are uninterpreted (nothing is assumed of them
// beyond being functions of their arguments) unless a definition or axiom is given here.
pub struct Ty { pub id: int }
pub struct Interned<T>(pub T, pub int);
pub struct RegionVid { pub i: nat }
pub enum RegionKind { ReVar(RegionVid), ReStatic, ReErased, ReBound(int, int), ReOther(int) }
pub struct Region(pub Interned<RegionKind>);
pub struct FieldIdx { pub i: int }
pub struct VariantIdx { pub i: int }
pub struct CrateNum { pub id: int }
pub struct DefIndex { pub id: int }
pub struct DefId { pub krate: CrateNum, pub index: DefIndex }
pub struct LocalDefId { pub id: int }
pub struct HirId { pub id: int }
pub struct BodyId { pub hir_id: HirId }
pub struct TyCtxt { pub id: int, pub sess: Session }
pub struct Session { pub id: int }
pub struct Str { pub id: int }
pub struct Span { pub id: int }
pub enum Mutability { Not, Mut }
pub enum PlaceElem {
  Deref, Field(FieldIdx, Ty), Index(Local),
  ConstantIndex { offset: int, min_length: int, from_end: bool }, Subslice { from: int, to: int, from_end: bool },
  Downcast(Opt<Str>, VariantIdx), OpaqueCast(Ty), UnwrapUnsafeBinder(Ty),
}
pub struct Place { pub local: Local, pub projection: Lst<PlaceElem> }
pub struct PlaceTy { pub ty: Ty, pub variant_index: Opt<VariantIdx> }
impl PlaceTy { pub uninterp spec fn projection_ty(self, tcx: TyCtxt, e: PlaceElem) -> PlaceTy; }
pub struct LocalDecl { pub ty: Ty, pub source_info: SourceInfo, pub id: int }
pub struct LocalDecls { pub v: Seq<LocalDecl> }
pub struct GenericArgs { pub id: int }
pub struct AdtDef { pub id: int }
pub struct VariantDef { pub name: Str, pub id: int, pub fields: Lst<FieldDef> }
pub struct FieldDef { pub id: int, pub vis: Visibility }
pub struct Visibility { pub id: int }
impl Visibility { pub uninterp spec fn is_accessible_from(self, d: DefId, tcx: TyCtxt) -> bool; }
pub enum AdtKind { Struct, Union, Enum }
pub enum TyKind { Adt(AdtDef, GenericArgs), Ref(Region, Ty, Mutability), RawPtr(Ty, Mutability), FnPtr(int, int), FnDef(DefId, GenericArgs), Closure(DefId, GenericArgs), Tuple(Lst<Ty>), Other(int) }

pub spec const RETURN_PLACE: Local = Local { i: 0 };
pub spec const START_BLOCK: BasicBlock = BasicBlock { i: 0 };
pub spec const UNKNOWN_REGION: RegionVid = RegionVid { i: 0xffff_ff00 };
impl RegionVid {
  pub open spec fn from_usize(i: int) -> RegionVid { RegionVid { i: i as nat } }
  pub open spec fn as_usize(self) -> int { self.i as int }
  pub open spec fn from(r: RegionVid) -> RegionVid { r }
}
impl FieldIdx { pub open spec fn from_usize(i: int) -> FieldIdx { FieldIdx { i } } pub open spec fn as_usize(self) -> int { self.i } }
impl VariantIdx { pub open spec fn from_usize(i: int) -> VariantIdx { VariantIdx { i } } pub open spec fn as_usize(self) -> int { self.i } }
impl Local { pub open spec fn from_usize(i: int) -> Local { Local { i } } pub open spec fn as_usize(self) -> int { self.i } }
impl RegionVid { pub open spec fn index(self) -> int { self.i as int } pub open spec fn as_u32(self) -> int { self.i as int } }
impl FieldIdx { pub open spec fn index(self) -> int { self.i } pub open spec fn as_u32(self) -> int { self.i } }
impl VariantIdx { pub open spec fn index(self) -> int { self.i } pub open spec fn as_u32(self) -> int { self.i } }
impl Local { pub open spec fn index(self) -> int { self.i } pub open spec fn as_u32(self) -> int { self.i } }
impl BasicBlock { pub open spec fn index(self) -> int { self.i } pub open spec fn as_usize(self) -> int { self.i } pub open spec fn as_u32(self) -> int { self.i } }
impl Region { pub open spec fn kind(self) -> RegionKind { self.0.0 } }
impl LocalDecls {
  pub open spec fn idx(self, l: Local) -> LocalDecl { self.v[l.i] }
  pub open spec fn indices(self) -> Lst<Local> { Lst { s: Seq::new(self.v.len(), |i: int| Local { i }) } }
}
impl Ty {
  pub uninterp spec fn kind(self) -> TyKind;
  pub open spec fn is_box(self) -> bool { match self.kind() { TyKind::Adt(d, _) => d.is_box(), _ => false } }
  pub open spec fn is_raw_ptr(self) -> bool { self.kind() is RawPtr }
  pub open spec fn is_ref(self) -> bool { self.kind() is Ref }
  pub open spec fn is_unit(self) -> bool { match self.kind() { TyKind::Tuple(ts) => ts.s.len() == 0, _ => false } }
  pub open spec fn ref_mutability(self) -> Opt<Mutability> { match self.kind() { TyKind::Ref(_, _, m) => Opt::Some(m), _ => Opt::None } }
  pub uninterp spec fn is_never(self) -> bool;
  pub open spec fn ty_adt_def(self) -> Opt<AdtDef> { match self.kind() { TyKind::Adt(d, _) => Opt::Some(d), _ => Opt::None } }
  pub open spec fn boxed_ty(self) -> Opt<Ty> { match self.kind() { TyKind::Adt(d, args) => if d.is_box() { Opt::Some(args.type_at(0)) } else { Opt::None }, _ => Opt::None } }
  pub open spec fn builtin_deref(self, explicit: bool) -> Opt<Ty> {
    match self.kind() { TyKind::Adt(..) => self.boxed_ty(), TyKind::Ref(_, t, _) => Opt::Some(t), TyKind::RawPtr(t, _) => if explicit { Opt::Some(t) } else { Opt::None }, _ => Opt::None }
  }
  pub open spec fn tuple_fields(self) -> Lst<Ty> { match self.kind() { TyKind::Tuple(ts) => ts, _ => arbitrary() } }
}
impl Place {
  pub open spec fn from_local(local: Local, tcx: TyCtxt) -> Place { Place { local, projection: Lst::new() } }
  pub open spec fn from_ref(p: Place, tcx: TyCtxt) -> Place { p }
  pub open spec fn make(local: Local, projection: Lst<PlaceElem>, tcx: TyCtxt) -> Place { Place { local, projection } }
  pub open spec fn project_deeper(self, more: Lst<PlaceElem>, tcx: TyCtxt) -> Place { Place { local: self.local, projection: Lst { s: self.projection.s + more.s } } }
  pub open spec fn prefix(self, n: int) -> Place { Place { local: self.local, projection: Lst { s: self.projection.s.subrange(0, n) } } }
  /// All proper prefixes with the element that follows them (rustc: `Place::iter_projections`).
  pub open spec fn iter_projections(self) -> Lst<(Place, PlaceElem)> {
    Lst { s: Seq::new(self.projection.s.len(), |i: int| (self.prefix(i), self.projection.s[i])) }
  }
  pub open spec fn as_ref(self) -> Place { self }
  pub open spec fn as_local(self) -> Opt<Local> { if self.projection.s.len() == 0 { Opt::Some(self.local) } else { Opt::None } }
  pub uninterp spec fn ty<D>(self, decls: D, tcx: TyCtxt) -> PlaceTy;
  /// rustc_utils `PlaceExt`
  pub uninterp spec fn normalize(self, tcx: TyCtxt, def_id: DefId) -> Place;
  /// The references `self` goes through, each with the projection that follows it.
  #[verifier::opaque]
  pub open spec fn refs_in_projection(self, body: Body, tcx: TyCtxt) -> Lst<(Place, Lst<PlaceElem>)> {
    range(0, self.projection.s.len() as int)
      .filter(|i: int| self.projection.s[i] is Deref && !self.prefix(i).ty(body.local_decls(), tcx).ty.is_box())
      .map(|i: int| (self.prefix(i), Lst { s: self.projection.s.subrange(i + 1, self.projection.s.len() as int) }))
  }
  pub open spec fn is_indirect(self) -> bool { self.projection.has(PlaceElem::Deref) }
  pub open spec fn is_direct(self, body: Body, tcx: TyCtxt) -> bool {
    !self.is_indirect() || self.is_arg(body) || self.refs_in_projection(body, tcx).next().is_none()
  }
  pub uninterp spec fn is_arg(self, body: Body) -> bool;
  pub uninterp spec fn interior_places(self, tcx: TyCtxt, body: Body, def_id: DefId) -> HSet<Place>;
  pub uninterp spec fn interior_paths(self, tcx: TyCtxt, body: Body, def_id: DefId) -> HSet<Place>;
  pub uninterp spec fn interior_pointers(self, tcx: TyCtxt, body: Body, def_id: DefId) -> HMap<RegionVid, Lst<(Place, Mutability)>>;
}
pub enum Operand { Copy(Place), Move(Place), Constant(ConstOperand) }
pub struct ConstOperand { pub const_: Const, pub id: int }
pub struct Const { pub id: int }
impl Const { pub uninterp spec fn ty(self) -> Ty; }
impl Operand {
  pub open spec fn as_place(self) -> Opt<Place> { match self { Operand::Copy(p) => Opt::Some(p), Operand::Move(p) => Opt::Some(p), Operand::Constant(_) => Opt::None } }
  pub open spec fn constant(self) -> Opt<ConstOperand> { match self { Operand::Constant(c) => Opt::Some(c), _ => Opt::None } }
  /// rustc_utils `OperandExt`
  pub open spec fn to_place(self) -> Opt<Place> { self.as_place() }
}
pub enum AggregateKind { Array(Ty), Tuple, Adt(DefId, VariantIdx, GenericArgs, Opt<int>, Opt<FieldIdx>), Closure(DefId, GenericArgs), Other(int) }
pub enum BorrowKind { Shared, Fake(int), Mut { kind: int } }
impl BorrowKind { pub uninterp spec fn to_mutbl_lossy(self) -> Mutability; }
pub struct Opaque { pub id: int }
pub enum Rvalue {
  Use(Operand), Repeat(Operand, Opaque), Ref(Region, BorrowKind, Place), ThreadLocalRef(DefId), RawPtr(Opaque, Place), Len(Place),
  Cast(Opaque, Operand, Ty), BinaryOp(Opaque, (Operand, Operand)), NullaryOp(Opaque, Ty), UnaryOp(Opaque, Operand), Discriminant(Place),
  Aggregate(AggregateKind, Lst<Operand>), ShallowInitBox(Operand, Ty), CopyForDeref(Place), WrapUnsafeBinder(Operand, Ty), Other(int),
}
impl Rvalue { pub uninterp spec fn ty<D>(self, decls: D, tcx: TyCtxt) -> Ty; }
pub struct SourceInfo { pub span: Span, pub id: int }
pub struct Targets { pub id: int }
pub struct Edges { pub id: int }
pub struct Spanned<T> { pub node: T, pub span: Span }
pub enum TerminatorKind {
  SwitchInt { discr: Operand, targets: Targets },
  Call { func: Operand, args: Lst<Spanned<Operand>>, destination: Place, target: Opt<BasicBlock> },
  Return, Other(int),
}
pub struct Terminator { pub kind: TerminatorKind, pub source_info: SourceInfo }
impl Terminator {
  pub uninterp spec fn edges(self) -> Edges;
  pub uninterp spec fn successors(self) -> Lst<BasicBlock>;
}
pub enum StatementKind { Assign((Place, Rvalue)), Other(int) }
pub struct Statement { pub kind: StatementKind, pub source_info: SourceInfo }
pub struct BasicBlockData { pub statements: Lst<Statement>, pub term: Terminator, pub is_cleanup: bool }
impl BasicBlockData { pub open spec fn terminator(self) -> Terminator { self.term } }
pub struct BasicBlocks { pub v: Seq<BasicBlockData> }
impl BasicBlocks {
  pub open spec fn idx(self, b: BasicBlock) -> BasicBlockData { self.v[b.i] }
  pub open spec fn len(self) -> int { self.v.len() as int }
  pub open spec fn indices(self) -> Lst<BasicBlock> { Lst { s: Seq::new(self.v.len(), |i: int| BasicBlock { i }) } }
  pub open spec fn iter_enumerated(self) -> Lst<(BasicBlock, BasicBlockData)> { Lst { s: Seq::new(self.v.len(), |i: int| (BasicBlock { i }, self.v[i])) } }
  pub uninterp spec fn successors(self, b: BasicBlock) -> Lst<BasicBlock>;
  pub uninterp spec fn predecessors(self) -> PredMap;
  pub uninterp spec fn reverse_postorder(self) -> Lst<BasicBlock>;
}
pub struct PredMap { pub id: int }
impl PredMap { pub uninterp spec fn idx(self, b: BasicBlock) -> Lst<BasicBlock>; }
pub struct Body { pub basic_blocks: BasicBlocks, pub local_decls: LocalDecls, pub arg_count: int, pub span: Span, pub id: int }
impl Body {
  pub open spec fn stmt_at(self, l: Location) -> Either<Statement, Terminator> {
    let d = self.basic_blocks.idx(l.block);
    if l.statement_index == d.statements.s.len() { Either::Right(d.term) } else { Either::Left(d.statements.s[l.statement_index]) }
  }
  pub open spec fn local_decls(self) -> LocalDecls { self.local_decls }
  pub open spec fn args_iter(self) -> Lst<Local> { Lst { s: Seq::new(self.arg_count as nat, |i: int| Local { i: i + 1 }) } }
  pub open spec fn terminator_loc(self, b: BasicBlock) -> Location { Location { block: b, statement_index: self.basic_blocks.idx(b).statements.len() } }
  pub uninterp spec fn all_locations(self) -> Lst<Location>;
  pub uninterp spec fn all_returns(self) -> Lst<Location>;
  pub uninterp spec fn control_dependencies(self) -> ControlDependencies;
  /// rustc_utils `BodyExt`: the type of the `Context` argument of an async body.
  pub uninterp spec fn async_context(self, tcx: TyCtxt, d: DefId) -> Opt<Ty>;
}
pub struct ControlDependencies { pub id: int }
impl ControlDependencies { pub uninterp spec fn dependent_on(self, b: BasicBlock) -> Opt<HSet<BasicBlock>>; }
impl TyCtxt {
  pub open spec fn mk_place_deref(self, p: Place) -> Place { Place { local: p.local, projection: Lst { s: p.projection.s.push(PlaceElem::Deref) } } }
  pub open spec fn mk_place_elems(self, l: Lst<PlaceElem>) -> Lst<PlaceElem> { l }
  pub uninterp spec fn adt_def(self, d: DefId) -> AdtDef;
  pub uninterp spec fn fn_sig(self, d: DefId) -> EarlyFnSig;
  pub uninterp spec fn hir_get_if_local(self, d: DefId) -> Opt<Node>;
  pub uninterp spec fn hir_body_owner_def_id(self, b: BodyId) -> LocalDefId;
  pub uninterp spec fn erase_regions(self, t: Ty) -> Ty;
}
impl AdtDef {
  pub uninterp spec fn variant(self, i: VariantIdx) -> VariantDef;
  pub uninterp spec fn all_fields(self) -> Lst<FieldDef>;
  pub uninterp spec fn adt_kind(self) -> AdtKind;
  pub uninterp spec fn is_struct(self) -> bool;
  pub uninterp spec fn is_box(self) -> bool;
  /// rustc_utils `AdtDefExt`
  pub uninterp spec fn all_visible_fields(self, d: DefId, tcx: TyCtxt) -> Lst<FieldDef>;
}
impl FieldDef { pub uninterp spec fn ty(self, tcx: TyCtxt, a: GenericArgs) -> Ty; }

// ---- flowistry's own data ---------------------------------------------------------------
pub enum MutationStatus { Definitely, Possibly }
pub struct Mutation { pub mutated: Place, pub inputs: Lst<Place>, pub status: MutationStatus }
pub enum MutabilityMode { DistinguishMut, IgnoreMut }
pub enum PointerMode { Precise, Conservative }
pub enum ContextMode { SigOnly, Recurse }
pub struct EvalMode { pub mutability_mode: MutabilityMode, pub pointer_mode: PointerMode, pub context_mode: ContextMode }
pub struct Aliases { pub tcx: TyCtxt, pub body: Body, pub loans: HMap<RegionVid, HSet<(Place, Mutability)>> }
pub struct PlaceInfo { pub tcx: TyCtxt, pub body: Body, pub def_id: DefId, pub location_domain: Dom, pub aliases: Aliases,
  pub normalized_cache: Cache, pub aliases_cache: Cache, pub conflicts_cache: Cache, pub reachable_cache: Cache }
/// Contract of rustc_utils `Cache::get`: see the `*_memo` axioms.
pub struct Cache { pub id: int }
impl Cache {
  pub uninterp spec fn get<K, V>(self, k: K, f: spec_fn(K) -> V) -> V;
  pub open spec fn default() -> Cache { Cache { id: 0 } }
}
pub type CopyCache = Cache;
pub enum ControlFlow<T> { Continue(T), Break(T) }
pub struct LoanCollector { pub aliases: Aliases, pub unknown_region: Region, pub target_mutability: Mutability, pub stack: Lst<Mutability>, pub loans: HSet<Place> }
impl Mutability {
  /// rustc_utils `MutabilityExt`
  pub open spec fn is_permissive_as(self, other: Mutability) -> bool { !(self is Mut && other is Not) }
}
impl Region { pub open spec fn new_var(tcx: TyCtxt, r: RegionVid) -> Region { Region(Interned(RegionKind::ReVar(r), 0)) } }
impl Local { pub open spec fn to_index(self, d: Dom) -> Loa { Loa::Arg(self) } }
pub struct BodyWithBorrowckFacts { pub body: Body, pub input_facts: Opt<Facts>, pub id: int }
pub struct Facts { pub subset_base: Lst<(RegionVid, RegionVid, int)>, pub id: int }
impl Dom { pub open spec fn from_iter(l: Lst<Loa>) -> Dom { Dom { v: l.s } } }
/// The active mode (a dynamically scoped variable in the real code).
pub struct FluidVar { pub id: int }
pub spec const EVAL_MODE: FluidVar = FluidVar { id: 0 };
impl FluidVar { pub open spec fn copied(self) -> Opt<EvalMode> { active_mode() } }
pub uninterp spec fn active_mode() -> Opt<EvalMode>;
pub struct FlowAnalysis { pub tcx: TyCtxt, pub def_id: DefId, pub body: Body, pub place_info: PlaceInfo, pub control_dependencies: ControlDependencies, pub recurse_cache: HMap<BodyId, Opaque> }
pub struct Rc; pub struct Arc; pub struct RefCell; pub struct Box;
impl Rc { pub open spec fn new<T>(x: T) -> T { x } }
impl Arc { pub open spec fn new<T>(x: T) -> T { x } }
impl RefCell { pub open spec fn new<T>(x: T) -> T { x } }
impl Box { pub open spec fn new<T>(x: T) -> T { x } }
pub struct AsyncHack { pub context_ty: Opt<Ty>, pub tcx: TyCtxt, pub body: Body }

/// The parts of a type (rustc: `Ty::walk`).
pub struct GenericArg { pub id: int }
pub enum GenericArgKind { Lifetime(Region), Type(Ty), Const(int) }
impl GenericArg { pub uninterp spec fn kind(self) -> GenericArgKind; }
impl Ty { pub uninterp spec fn walk(self) -> Lst<GenericArg>; }
pub struct Instant;
impl Instant { pub open spec fn now() -> Instant { Instant } }

pub struct EarlyFnSig { pub id: int }
pub struct PolyFnSig { pub id: int }
pub struct BoundTy { pub id: int }
impl EarlyFnSig { pub uninterp spec fn skip_binder(self) -> PolyFnSig; }
impl PolyFnSig { pub uninterp spec fn output(self) -> BoundTy; }
impl BoundTy { pub uninterp spec fn skip_binder(self) -> Ty; }
pub struct Node { pub id: int }
impl Node { pub uninterp spec fn body_id(self) -> Opt<BodyId>; }
impl DefId { pub uninterp spec fn expect_local(self) -> LocalDefId; }
impl LocalDefId { pub uninterp spec fn to_def_id(self) -> DefId; }
pub enum ClosureKind { Fn, FnMut, FnOnce }
pub struct ClosureArgs { pub id: int }
impl GenericArgs { pub uninterp spec fn as_closure(self) -> ClosureArgs; pub uninterp spec fn type_at(self, i: int) -> Ty; }
impl ClosureArgs { pub uninterp spec fn kind(self) -> ClosureKind; }
pub uninterp spec fn get_body_with_borrowck_facts(tcx: TyCtxt, d: LocalDefId) -> BodyWithBorrowckFacts;
/// An environment variable.
pub uninterp spec fn var(name: Str) -> Res<Str, int>;

pub uninterp spec fn fmt(s: Str) -> Str;
