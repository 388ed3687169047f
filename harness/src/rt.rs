//! Thin layer over the code under test: compile, run in the three modes, observe.
use std::cell::{Cell, RefCell};
use std::panic::{AssertUnwindSafe, catch_unwind};

use ferlium::compiler::error::{CompilationError, SandboxViolationKind, SourceFailureKind};
use ferlium::eval::RuntimeError;
use ferlium::execution::{ExecutionLimits, ExecutionTarget, ReferenceInterpreterLimits};
use ferlium::format::FormatWith;
use ferlium::hir::value::Value;
use ferlium::module::{LocalFunctionId, ModuleId, Path};
use ferlium::std::buffer::Buffer;
use ferlium::types::r#type::Type;
use ferlium::{CompilerSession, MirOptimization};

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<(bool, String)>> = const { RefCell::new(None) };
}

/// Runs code of the system under test; a panic inside is attributed to it.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = f();
    DEPTH.with(|d| d.set(d.get() - 1));
    r
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let inside = DEPTH.with(|d| d.get() > 0);
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((inside, format!("{msg} [at {loc}]"))));
    }));
}

/// Ok(result), Err((inside the system under test, message)).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, (bool, String)> {
    DEPTH.with(|d| d.set(0));
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(p.unwrap_or((false, "unknown panic".into())))
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Hir,
    Mir,
    Opt,
}
pub const MODES: [Mode; 3] = [Mode::Hir, Mode::Mir, Mode::Opt];

/// An observed value.
#[derive(Clone, PartialEq, Debug)]
pub enum RV {
    Unit,
    Bool(bool),
    Int(i64),
    Float(u64),
    Str(String),
    Hash(String),
    Tuple(Vec<RV>),
    Array(Vec<RV>),
    Buffer(Vec<RV>),
    Variant(String, Option<Box<RV>>),
    Func(String, usize, Vec<RV>),
    Uninit,
    Other(String),
}

impl RV {
    pub fn show(&self) -> String {
        let list = |v: &Vec<RV>| v.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ");
        match self {
            RV::Unit => "()".into(),
            RV::Bool(b) => b.to_string(),
            RV::Int(i) => i.to_string(),
            RV::Float(f) => format!("{:?}", f64::from_bits(*f)),
            RV::Str(s) => format!("{s:?}"),
            RV::Hash(s) => format!("hash {s}"),
            RV::Tuple(v) => format!("({})", list(v)),
            RV::Array(v) => format!("[{}]", list(v)),
            RV::Buffer(v) => format!("buffer[{}]", list(v)),
            RV::Variant(t, None) => t.clone(),
            RV::Variant(t, Some(p)) => format!("{t}{}", p.show()),
            RV::Func(f, h, c) => format!("fn {f}/{h}[{}]", list(c)),
            RV::Uninit => "<uninitialized>".into(),
            RV::Other(s) => format!("<{s}>"),
        }
    }
}

pub fn observe(v: &Value) -> RV {
    match v {
        Value::Uninit => RV::Uninit,
        Value::Native(_) => {
            if v.is_unit() {
                RV::Unit
            } else if let Some(b) = v.as_primitive_ty::<bool>() {
                RV::Bool(*b)
            } else if let Some(i) = v.as_primitive_ty::<isize>() {
                RV::Int(*i as i64)
            } else if let Some(f) = v.as_primitive_ty::<ferlium::std::math::Float>() {
                RV::Float(f.into_inner().to_bits())
            } else if let Some(s) = v.as_primitive_ty::<ferlium::std::string::String>() {
                RV::Str(s.to_string())
            } else if let Some(h) = v.as_primitive_ty::<ferlium::std::hash::HashValue>() {
                RV::Hash(format!("{h:?}"))
            } else if let Some(b) = v.as_primitive_ty::<Buffer>() {
                RV::Buffer((0..b.capacity()).map(|i| observe(b.get(i).unwrap())).collect())
            } else {
                RV::Other("native".into())
            }
        }
        Value::Variant { tag, .. } => match v.variant_payload() {
            None => RV::Variant(tag.to_string(), None),
            Some(p) if p.is_unit() => RV::Variant(tag.to_string(), None),
            Some(p) => RV::Variant(tag.to_string(), Some(Box::new(observe(p)))),
        },
        Value::Tuple(fields) => {
            if fields.len() == 4
                && let Some(buffer) = fields[1].as_primitive_ty::<Buffer>()
                && let (Some(len), Some(start)) =
                    (fields[2].as_primitive_ty::<isize>(), fields[3].as_primitive_ty::<isize>())
            {
                let cap = buffer.capacity();
                let (len, start) = (*len, *start);
                if len < 0 || len as usize > cap || start < 0 || (cap > 0 && start as usize >= cap) {
                    return RV::Other(format!("malformed array len {len} start {start} capacity {cap}"));
                }
                return RV::Array(
                    (0..len as usize)
                        .map(|i| observe(buffer.get((start as usize + i) % cap).unwrap()))
                        .collect(),
                );
            }
            RV::Tuple(fields.iter().map(observe).collect())
        }
        Value::Function(f) => RV::Func(
            format!("{:?}", f.function),
            f.hidden_args.len(),
            f.closure_env_values().iter().map(observe).collect(),
        ),
        Value::Subscript(s) => RV::Other(format!("subscript {:?}", s.subscript)),
    }
}

/// How a run ended.
#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Val(RV),
    Fail(String),
    Cleanup(String, String),
    Limit(SandboxViolationKind),
}

impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Val(v) => format!("value {}", v.show()),
            Out::Fail(k) => format!("failure {k}"),
            Out::Cleanup(a, b) => format!("failure {a} and failure {b} in cleanup"),
            Out::Limit(k) => format!("limit {k}"),
        }
    }
    pub fn is_limit(&self) -> bool {
        matches!(self, Out::Limit(_))
    }
}

pub fn fail_text(k: &SourceFailureKind) -> String {
    match k {
        SourceFailureKind::Aborted(None) => "Aborted".into(),
        SourceFailureKind::Aborted(Some(m)) => format!("Aborted: {m}"),
        SourceFailureKind::DivisionByZero => "DivisionByZero".into(),
        SourceFailureKind::RemainderByZero => "RemainderByZero".into(),
        SourceFailureKind::InvalidArgument(m) => format!("InvalidArgument: {m}"),
    }
}

pub fn error_out(e: &RuntimeError) -> Out {
    match e {
        RuntimeError::SourceFailure(f) => Out::Fail(fail_text(&f.kind())),
        RuntimeError::SandboxViolation(v) => Out::Limit(v.kind()),
        RuntimeError::FailureDuringCleanup(f) => {
            Out::Cleanup(fail_text(&f.initial().kind()), fail_text(&f.during_cleanup().kind()))
        }
    }
}

#[derive(Clone, Debug)]
pub struct CompErr {
    pub kind: String,
    pub text: String,
}

#[derive(Clone, Copy, Debug)]
pub struct Compiled {
    pub module: ModuleId,
    pub entry: Option<LocalFunctionId>,
}

pub const FUEL: usize = 60_000;

pub fn limits(depth: usize, fuel: Option<usize>, cells: usize) -> ReferenceInterpreterLimits {
    ReferenceInterpreterLimits::new(ExecutionLimits::new(depth, fuel), cells)
}
pub fn default_limits() -> ReferenceInterpreterLimits {
    limits(100, Some(FUEL), 65_536)
}

pub struct Rt {
    pub s: CompilerSession,
    pub with_host: bool,
}

pub fn path(name: &str) -> Path {
    Path::new(name.split("::").map(ferlium::ustr).collect())
}

pub fn error_kind(e: &CompilationError) -> String {
    let d = format!("{e:?}");
    let d = d.trim_start_matches("BoxedCompilationError(").trim_start_matches("CompilationError(");
    d.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

#[allow(dead_code)]
impl Rt {
    /// A session with everything that is compiled lazily already compiled.
    pub fn new() -> Rt {
        let mut rt = Rt { s: sut(CompilerSession::new), with_host: false };
        for mode in MODES {
            let c = rt.compile("let mut a = [1, 2]; array_append(a, 3); f\"{a} {sorted(a)}\"").expect("warm-up");
            rt.run(&c, mode);
        }
        rt.reset();
        rt
    }
    pub fn reset(&mut self) {
        sut(|| self.s.reset());
        if self.with_host {
            crate::host::register(&mut self.s);
        }
    }
    pub fn mode(&mut self, mode: Mode) -> ExecutionTarget {
        let (target, opt) = match mode {
            Mode::Hir => (ExecutionTarget::Hir, MirOptimization::Disabled),
            Mode::Mir => (ExecutionTarget::Mir, MirOptimization::Disabled),
            Mode::Opt => (ExecutionTarget::Mir, MirOptimization::Enabled),
        };
        self.s.set_mir_optimization(opt);
        target
    }
    pub fn compile(&mut self, src: &str) -> Result<Compiled, CompErr> {
        self.compile_as("m", src)
    }
    pub fn compile_as(&mut self, name: &str, src: &str) -> Result<Compiled, CompErr> {
        let r = sut(|| self.s.compile(src, name, path(name)));
        match r {
            Ok(o) => Ok(Compiled { module: o.module_id, entry: o.expr }),
            Err(e) => Err(self.comp_err(&e)),
        }
    }
    pub fn comp_err(&self, e: &CompilationError) -> CompErr {
        CompErr {
            kind: error_kind(e),
            text: sut(|| e.format_with(self.s.source_table()).to_string()),
        }
    }
    pub fn ret_ty(&self, c: &Compiled) -> Option<Type> {
        let module = self.s.expect_fresh_module(c.module);
        Some(module.get_function_by_id(c.entry?)?.definition.ty_scheme.ty.ret)
    }
    pub fn ret_ty_text(&self, c: &Compiled) -> String {
        let Some(ty) = self.ret_ty(c) else { return "()".into() };
        let module = self.s.expect_fresh_module(c.module);
        sut(|| ty.format_with(&self.s.modules().env_for(module)).to_string())
    }
    pub fn run(&mut self, c: &Compiled, mode: Mode) -> Out {
        self.run_limited(c, mode, default_limits())
    }
    pub fn run_limited(&mut self, c: &Compiled, mode: Mode, lim: ReferenceInterpreterLimits) -> Out {
        match self.run_raw(c, mode, lim) {
            Ok(v) => {
                let out = Out::Val(observe(&v));
                v.discard_storage();
                out
            }
            Err(e) => error_out(&e),
        }
    }
    pub fn run_raw(&mut self, c: &Compiled, mode: Mode, lim: ReferenceInterpreterLimits) -> Result<Value, RuntimeError> {
        let Some(entry) = c.entry else { return Ok(Value::unit()) };
        let target = self.mode(mode);
        sut(|| self.s.run_entry_with_limits(target, c.module, entry, vec![], lim))
    }
    /// The value printed for inspection, or the failure.
    pub fn inspect(&mut self, c: &Compiled, mode: Mode) -> Result<String, Out> {
        let v = self.run_raw(c, mode, default_limits()).map_err(|e| error_out(&e))?;
        let ty = self.ret_ty(c).unwrap_or(Type::unit());
        sut(|| self.s.value_to_inspect_text_with_fuel(c.module, v, ty, None)).map_err(Out::Fail)
    }
    /// Function value by name in a compiled module.
    pub fn function(&self, c: &Compiled, name: &str) -> Option<LocalFunctionId> {
        self.s.expect_fresh_module(c.module).get_local_function_id(ferlium::ustr(name))
    }
    pub fn signature(&self, c: &Compiled, name: &str) -> Option<String> {
        let module = self.s.expect_fresh_module(c.module);
        let f = module.get_function(ferlium::ustr(name))?;
        Some(sut(|| f.definition.ty_scheme.display(&self.s.modules().env_for(module)).to_string()))
    }
}
