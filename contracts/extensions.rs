@fn is_extension_active
file: crates/flowistry/src/extensions.rs
params: f: spec_fn(EvalMode) -> bool
ret: out: bool
ensures fun: out == match active_mode() { Opt::Some(m) => f(m), Opt::None => false }
@end
