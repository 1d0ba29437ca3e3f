@fn MutabilityMode::from_str
file: crates/flowistry/src/extensions.rs
params: s: Str
ret: out: Res<MutabilityMode, Str>
ensures distinguish: s == STR("DistinguishMut") ==> out == Res::<MutabilityMode, Str>::Ok(MutabilityMode::DistinguishMut)
ensures ignore: s == STR("IgnoreMut") ==> out == Res::<MutabilityMode, Str>::Ok(MutabilityMode::IgnoreMut)
ensures rejected: s != STR("DistinguishMut") && s != STR("IgnoreMut") ==> out is Err
@end
@fn ContextMode::from_str
file: crates/flowistry/src/extensions.rs
params: s: Str
ret: out: Res<ContextMode, Str>
ensures sig_only: s == STR("SigOnly") ==> out == Res::<ContextMode, Str>::Ok(ContextMode::SigOnly)
ensures recurse: s == STR("Recurse") ==> out == Res::<ContextMode, Str>::Ok(ContextMode::Recurse)
ensures rejected: s != STR("SigOnly") && s != STR("Recurse") ==> out is Err
@end
@fn PointerMode::from_str
file: crates/flowistry/src/extensions.rs
params: s: Str
ret: out: Res<PointerMode, Str>
ensures precise: s == STR("Precise") ==> out == Res::<PointerMode, Str>::Ok(PointerMode::Precise)
ensures conservative: s == STR("Conservative") ==> out == Res::<PointerMode, Str>::Ok(PointerMode::Conservative)
ensures rejected: s != STR("Precise") && s != STR("Conservative") ==> out is Err
@end
@fn EvalMode::default
file: crates/flowistry/src/extensions.rs
params:
ret: out: EvalMode
ensures modes: out == (EvalMode { mutability_mode: MutabilityMode::DistinguishMut, context_mode: ContextMode::SigOnly, pointer_mode: PointerMode::Precise })
@end
/// What is written on standard output.
pub enum FlowistryError { BuildError, AnalysisError { error: Str }, FileNotFound }
pub type FlowistryResult<T> = Res<T, FlowistryError>;
pub struct ErrorGuaranteed { pub id: int }
impl ErrorGuaranteed { pub uninterp spec fn unchecked_error_guaranteed() -> ErrorGuaranteed; }
/// A value as text (serde's derived JSON).
pub uninterp spec fn json<T>(x: T) -> Str;
pub struct Bytes { pub id: int }
pub struct Compression { pub id: int }
impl Compression { pub uninterp spec fn best() -> Compression; }
pub struct Encoder { pub text: Lst<Str> }
pub struct GzEncoder { pub id: int }
impl GzEncoder { pub open spec fn new(v: Lst<int>, c: Compression) -> Encoder { Encoder { text: Lst::new() } } }
/// The compressed form of what was written.
pub uninterp spec fn gz(l: Lst<Str>) -> Bytes;
impl Encoder { pub open spec fn finish(self) -> Res<Bytes, Error> { Res::Ok(gz(self.text)) } }
pub struct Base64 { pub id: int }
pub spec const STANDARD: Base64 = Base64 { id: 0 };
impl Base64 { pub uninterp spec fn encode(self, b: Bytes) -> Str; }
/// What is printed for a result.
pub open spec fn printed<T>(r: FlowistryResult<T>) -> Str { STANDARD.encode(gz(Lst::new().push_upd(json(r)))) }
@assume to_writer
file: -
tparams: T
params: w: mut w2: Encoder, x: T
ret: out: Res<(), Error>
ensures ok: out is Ok
ensures text: w2.text == w.text.push_upd(json(x))
@end
@fn postprocess
file: crates/flowistry_ide/src/plugin.rs
tparams: T
params: result: FlowistryResult<T>, extra STREAM s: mut s2: Lst<Str>
ret: out: Res<(), ErrorGuaranteed>
stream: STREAM
ensures build: result == FlowistryResult::<T>::Err(FlowistryError::BuildError) ==> out is Err && s2 == s
ensures shown: result != FlowistryResult::<T>::Err(FlowistryError::BuildError) ==> out is Ok && s2 == s.push_upd(printed(result))
@end

pub struct FatalError { pub id: int }
/// Compiling with the given arguments reaches the end of analysis without a fatal error.
pub uninterp spec fn builds(args: Lst<Str>) -> bool;
pub uninterp spec fn session(args: Lst<Str>) -> TyCtxt;
pub uninterp spec fn compiler(args: Lst<Str>) -> Compiler;
pub struct Compiler { pub id: int }
pub enum Compilation { Stop, Continue }
/// rustc's driver callbacks, as far as the plugin uses them.
pub trait DriverCallbacks: Sized { spec fn ran(self, c: Compiler, tcx: TyCtxt) -> Self; }
impl DriverCallbacks for FlowistryCallbacks { open spec fn ran(self, c: Compiler, tcx: TyCtxt) -> FlowistryCallbacks { self.after_analysis(c, tcx).1 } }
impl DriverCallbacks for SpansCallbacks { open spec fn ran(self, c: Compiler, tcx: TyCtxt) -> SpansCallbacks { self.after_analysis(c, tcx).1 } }
@assume compile
file: -
tparams: C: DriverCallbacks
params: args: Lst<Str>, callbacks: mut callbacks2: C
ret: out: Res<(), FatalError>
ensures built: (out is Ok) == builds(args)
ensures ran: out is Ok ==> callbacks2 == callbacks.ran(compiler(args), session(args))
@end
impl Str { pub uninterp spec fn split(self, c: char) -> Lst<Str>; }
/// `all` is `args` and possibly more.
pub open spec fn extends(args: Lst<Str>, all: Lst<Str>) -> bool { args.s.is_prefix_of(all.s) }
pub broadcast proof fn extends_self(args: Lst<Str>) ensures #[trigger] extends(args, args) {}
pub broadcast proof fn extends_by<I: IntoLst<Str>>(args: Lst<Str>, l: I) ensures extends(args, #[trigger] args.extend_upd(l)) { assert(args.s.is_prefix_of(args.extend_upd(l).s)); }
@fn run_with_callbacks
file: crates/flowistry_ide/src/plugin.rs
tparams: C: DriverCallbacks
params: args: Lst<Str>, callbacks: mut callbacks2: C
ret: out: FlowistryResult<()>
passes: none=none
uses: extends_self, extends_by
ensures built: exists|all: Lst<Str>| #[trigger] extends(args, all) && (builds(all) ==> out is Ok && callbacks2 == callbacks.ran(compiler(all), session(all))) && (!builds(all) ==> out == FlowistryResult::<()>::Err(FlowistryError::BuildError))
@end

pub struct CharPos { pub line: int, pub column: int }
pub struct FileIdx { pub id: int }
pub struct SourceFile { pub name: FileName, pub id: int }
pub struct RealFileName { pub id: int }
pub enum FileName { Real(RealFileName), Other(int) }
pub struct Filename { pub id: int }
impl Filename { pub uninterp spec fn intern(s: Str) -> FileIdx; }
impl FileIdx { pub uninterp spec fn find_source_file(self, m: SourceMap) -> Res<SourceFile, Error>; }
/// A selection in the editor.
pub struct FunctionIdentifier { pub id: int }
impl FunctionIdentifier { pub open spec fn Range(r: CharRange) -> CharRange { r } }
impl CharRange { pub uninterp spec fn to_span(self, tcx: TyCtxt) -> Res<Span, Error>; }
pub uninterp spec fn find_enclosing_bodies(tcx: TyCtxt, s: Span) -> Lst<BodyId>;
pub struct Output { pub id: int }
/// One of the analyses of the tool.
pub struct Analysis { pub id: int }
pub spec const FOCUS: Analysis = Analysis { id: 0 };
pub spec const PLAYGROUND: Analysis = Analysis { id: 1 };
/// What it reports for a body under a mode (the dynamically scoped one).
impl Analysis { pub uninterp spec fn analyze(self, tcx: TyCtxt, b: BodyId, mode: Opt<EvalMode>) -> Res<Output, Error>; }
impl Dflt for EvalMode { open spec fn dflt() -> EvalMode { EvalMode::default() } }
pub struct FlowistryCallbacks { pub analysis: Opt<Analysis>, pub compute_target: Opt<spec_fn() -> CharRange>, pub output: Opt<Res<Output, Error>>, pub rustc_start: Instant, pub eval_mode: Opt<EvalMode> } // set_
pub struct SpansCallbacks { pub filename: Str, pub output: Opt<FlowistryResult<SpansOutput>> } // set_
/// The analysis of the first body around the selection.
pub open spec fn outcome(a: Analysis, target: CharRange, tcx: TyCtxt, mode: EvalMode) -> Res<Output, Error> {
  match target.to_span(tcx) {
    Res::Err(e) => Res::Err(e),
    Res::Ok(span) => match find_enclosing_bodies(tcx, span).next() {
      Opt::None => Res::Err(Error::msg(STR("Selection did not map to a body"))),
      Opt::Some(b) => a.analyze(tcx, b, Opt::Some(mode)),
    },
  }
}
impl<T> Opt<T> { pub open spec fn context(self, m: Str) -> Res<T, Error> { self.ok_or(Error::msg(m)) } }
impl Error { pub uninterp spec fn msg(s: Str) -> Error; pub uninterp spec fn to_string(self) -> Str; }
pub open spec fn default_mode() -> EvalMode { EvalMode { mutability_mode: MutabilityMode::DistinguishMut, context_mode: ContextMode::SigOnly, pointer_mode: PointerMode::Precise } }
@fn FlowistryCallbacks::after_analysis
file: crates/flowistry_ide/src/plugin.rs
params: self: mut self2: FlowistryCallbacks, comp: Compiler, tcx: TyCtxt
ret: out: Compilation
passes: analyze=EVAL_MODE
closure_try: Res
uses: EvalMode_default_ax
requires self.analysis is Some && self.compute_target is Some
ensures stop: out is Stop
ensures output: self2.output == Opt::Some(outcome(self.analysis->Some_0, (self.compute_target->Some_0)(), tcx, match self.eval_mode { Opt::Some(m) => m, Opt::None => default_mode() }))
@end
@fn run
file: crates/flowistry_ide/src/plugin.rs
params: analysis: Analysis, compute_target: spec_fn() -> CharRange, args: Lst<Str>, extra EVAL_MODE mode: Opt<EvalMode>
ret: out: FlowistryResult<Output>
uses: FlowistryCallbacks_after_analysis_ax
ensures result: exists|all: Lst<Str>| #[trigger] extends(args, all) && out == reported(analysis, compute_target(), all, match mode { Opt::Some(m) => m, Opt::None => default_mode() })
@end
/// The result of compiling with `all` and analysing the selection.
pub open spec fn reported(a: Analysis, target: CharRange, all: Lst<Str>, mode: EvalMode) -> FlowistryResult<Output> {
  if !builds(all) { Res::Err(FlowistryError::BuildError) } else {
    match outcome(a, target, session(all), mode) { Res::Ok(o) => Res::Ok(o), Res::Err(e) => Res::Err(FlowistryError::AnalysisError { error: e.to_string() }) }
  }
}
pub struct SpansOutput { pub spans: Lst<CharRange> }
pub uninterp spec fn find_bodies(tcx: TyCtxt) -> Lst<(Span, BodyId)>;
pub struct BytePos { pub id: int }
impl Span { pub uninterp spec fn lo(self) -> BytePos; }
impl SourceMap { pub uninterp spec fn lookup_source_file(self, b: BytePos) -> SourceFile; }
/// `r` is the range of a body in the file `f`.
pub open spec fn body_range(tcx: TyCtxt, f: SourceFile, r: CharRange) -> bool {
  exists|b: (Span, BodyId)| #[trigger] find_bodies(tcx).has(b) && tcx.sess.source_map().lookup_source_file(b.0.lo()).name == f.name && CharRange::from_span(b.0, tcx.sess.source_map()) == Res::<CharRange, Error>::Ok(r)
}
/// The spans reported for a file.
pub open spec fn spans_in(tcx: TyCtxt, file: Str, out: FlowistryResult<SpansOutput>) -> bool {
  match Filename::intern(file).find_source_file(tcx.sess.source_map()) {
    Res::Err(_) => out == FlowistryResult::<SpansOutput>::Err(FlowistryError::FileNotFound),
    Res::Ok(f) => out is Ok && forall|r: CharRange| #[trigger] out->Ok_0.spans.has(r) <==> body_range(tcx, f, r),
  }
}
@fn SpansCallbacks::after_analysis
file: crates/flowistry_ide/src/spans.rs
src: Callbacks::after_analysis
params: self: mut self2: SpansCallbacks, comp: Compiler, tcx: TyCtxt
ret: out: Compilation
closure_try: Res
ensures stop: out is Stop
ensures output: self2.output is Some && spans_in(tcx, self.filename, self2.output->Some_0)
@end
@fn spans
file: crates/flowistry_ide/src/spans.rs
params: args: Lst<Str>, filename: Str
ret: out: FlowistryResult<SpansOutput>
types: Callbacks=SpansCallbacks
uses: SpansCallbacks_after_analysis_ax
ensures result: exists|all: Lst<Str>| #[trigger] extends(args, all) && (if builds(all) { spans_in(session(all), filename, out) } else { out == FlowistryResult::<SpansOutput>::Err(FlowistryError::BuildError) })
@end
pub enum FlowistryCommand {
  Spans { file: Str }, Focus { file: Str, pos_line: int, pos_column: int }, Decompose { file: Str, pos: int },
  Playground { file: Str, start_line: int, start_column: int, end_line: int, end_column: int }, Preload, RustcVersion,
}
pub struct FlowistryPluginArgs { pub bench: Opt<bool>, pub context_mode: Opt<ContextMode>, pub mutability_mode: Opt<MutabilityMode>, pub pointer_mode: Opt<PointerMode>, pub command: FlowistryCommand }
pub struct FlowistryPlugin { pub id: int }
/// The modes asked for; the precise modular ones where a flag is omitted.
pub open spec fn requested(a: FlowistryPluginArgs) -> EvalMode {
  EvalMode {
    mutability_mode: match a.mutability_mode { Opt::Some(m) => m, Opt::None => MutabilityMode::DistinguishMut },
    context_mode: match a.context_mode { Opt::Some(m) => m, Opt::None => ContextMode::SigOnly },
    pointer_mode: match a.pointer_mode { Opt::Some(m) => m, Opt::None => PointerMode::Precise },
  }
}
pub open spec fn selected(file: Str, l1: int, c1: int, l2: int, c2: int) -> CharRange {
  CharRange { start: CharPos { line: l1, column: c1 }, end: CharPos { line: l2, column: c2 }, filename: Filename::intern(file) }
}
/// `r` is printed, or it is a build failure.
pub open spec fn finished<T>(r: FlowistryResult<T>, s: Lst<Str>, out: Res<(), ErrorGuaranteed>, s2: Lst<Str>) -> bool {
  if r == FlowistryResult::<T>::Err(FlowistryError::BuildError) { out is Err && s2 == s } else { out is Ok && s2 == s.push_upd(printed(r)) }
}
/// What running an analysis with the requested modes gives.
pub open spec fn served(a: Analysis, target: CharRange, args: Lst<Str>, mode: EvalMode, s: Lst<Str>, out: Res<(), ErrorGuaranteed>, s2: Lst<Str>) -> bool {
  exists|all: Lst<Str>| #[trigger] extends(args, all) && finished(reported(a, target, all, mode), s, out, s2)
}
@fn FlowistryPlugin::run
file: crates/flowistry_ide/src/plugin.rs
params: self: FlowistryPlugin, compiler_args: Lst<Str>, plugin_args: FlowistryPluginArgs, extra STREAM s: mut s2: Lst<Str>
ret: out: Res<(), ErrorGuaranteed>
types: Spans=FlowistryCommand::Spans, Focus=FlowistryCommand::Focus, Decompose=FlowistryCommand::Decompose, Playground=FlowistryCommand::Playground, Preload=FlowistryCommand::Preload, RustcVersion=FlowistryCommand::RustcVersion
passes: run=EVAL_MODE, postprocess=&mut STREAM
subst: crate::focus::focus => FOCUS
subst: crate::playground::playground => PLAYGROUND
ensures focus: plugin_args.command matches FlowistryCommand::Focus { file, pos_line, pos_column } ==> served(FOCUS, selected(file, pos_line, pos_column, pos_line, pos_column), compiler_args, requested(plugin_args), s, out, s2)
ensures playground: plugin_args.command matches FlowistryCommand::Playground { file, start_line, start_column, end_line, end_column } ==> served(PLAYGROUND, selected(file, start_line, start_column, end_line, end_column), compiler_args, requested(plugin_args), s, out, s2)
ensures spans: plugin_args.command matches FlowistryCommand::Spans { file } ==> finished(spans(compiler_args, file), s, out, s2)
@end
