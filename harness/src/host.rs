//! Host modules that record every call made to them.
use std::cell::RefCell;

use ferlium::CompilerSession;
use ferlium::compiler::error::SourceFailureKind;
use ferlium::hir::function::*;
use ferlium::hir::value::{LiteralValue, NativeValueType, Value};
use ferlium::module::{Module, ModuleId, Path, TraitId};
use ferlium::std::array::array_type;
use ferlium::std::math::int_type;
use ferlium::types::effects::{PrimitiveEffect, effect, effects, no_effects};
use ferlium::types::r#trait::Trait;
use ferlium::types::r#type::Type;

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Get(i64),
    Put(i64, i64),
    Swap(i64, i64),
    Say(String),
    Tick,
    Check(i64),
    PropGet,
    PropSet(i64),
    ArrGet,
    ArrSet(Vec<i64>),
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct HostState {
    pub trace: Vec<Ev>,
    pub cells: [i64; 4],
    pub ticks: i64,
    pub prop: i64,
    pub arr: Vec<i64>,
}

thread_local! {
    pub static HOST: RefCell<HostState> = RefCell::new(HostState::default());
    pub static TRACKED: RefCell<TrackedStats> = RefCell::new(TrackedStats::default());
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct TrackedStats {
    pub live: i64,
    pub made: i64,
    pub dropped: i64,
    pub double: bool,
    pub hooks: Vec<i64>,
}

pub fn reset_host(cells: [i64; 4], prop: i64, arr: Vec<i64>) {
    HOST.with(|h| *h.borrow_mut() = HostState { trace: vec![], cells, ticks: 0, prop, arr });
}
pub fn take_host() -> HostState {
    HOST.with(|h| h.borrow().clone())
}
pub fn reset_tracked() {
    TRACKED.with(|t| *t.borrow_mut() = TrackedStats::default());
}
pub fn tracked() -> TrackedStats {
    TRACKED.with(|t| t.borrow().clone())
}
fn with<R>(f: impl FnOnce(&mut HostState) -> R) -> R {
    HOST.with(|h| f(&mut h.borrow_mut()))
}
fn log(h: &mut HostState, e: Ev) {
    if h.trace.len() < 20_000 {
        h.trace.push(e);
    }
}
pub fn cell(k: i64) -> usize {
    (k & 3) as usize
}

fn h_get(k: isize) -> isize {
    with(|h| {
        log(h, Ev::Get(k as i64));
        h.cells[cell(k as i64)] as isize
    })
}
fn h_put(k: isize, v: isize) {
    with(|h| {
        log(h, Ev::Put(k as i64, v as i64));
        h.cells[cell(k as i64)] = v as i64;
    })
}
fn h_swap(k: isize, v: isize) -> isize {
    with(|h| {
        log(h, Ev::Swap(k as i64, v as i64));
        std::mem::replace(&mut h.cells[cell(k as i64)], v as i64) as isize
    })
}
fn h_say(s: &ferlium::std::string::String) {
    with(|h| log(h, Ev::Say(s.to_string())))
}
fn h_tick() -> isize {
    with(|h| {
        log(h, Ev::Tick);
        h.ticks += 1;
        h.ticks as isize
    })
}
fn h_check(v: isize) -> Result<isize, SourceFailureKind> {
    with(|h| log(h, Ev::Check(v as i64)));
    if v < 0 { Err(SourceFailureKind::InvalidArgument("negative".into())) } else { Ok(v) }
}
fn h_need(v: isize) -> Result<isize, SourceFailureKind> {
    if v < 0 { Err(SourceFailureKind::InvalidArgument("needed".into())) } else { Ok(v) }
}
fn h_twice(v: isize) -> isize {
    v.wrapping_mul(2)
}
fn h_fl(bits: isize) -> ferlium::std::math::Float {
    ferlium::std::math::Float::new(f64::from_bits(bits as u64)).expect("finite")
}
fn p_get() -> isize {
    with(|h| {
        log(h, Ev::PropGet);
        h.prop as isize
    })
}
fn p_set(v: isize) {
    with(|h| {
        log(h, Ev::PropSet(v as i64));
        h.prop = v as i64;
    })
}
fn ints(v: &Value) -> Vec<i64> {
    match crate::rt::observe(v) {
        crate::rt::RV::Array(items) => items
            .into_iter()
            .map(|i| match i {
                crate::rt::RV::Int(i) => i,
                _ => i64::MIN,
            })
            .collect(),
        _ => vec![i64::MIN],
    }
}
fn a_get() -> Value {
    with(|h| {
        log(h, Ev::ArrGet);
        ferlium::std::array::array_value_from_vec(h.arr.iter().map(|i| Value::native(*i as isize)).collect())
    })
}
fn a_set(v: &Value) {
    let v = ints(v);
    with(|h| {
        log(h, Ev::ArrSet(v.clone()));
        h.arr = v;
    })
}

/// A native value whose instances are counted.
#[derive(Debug)]
pub struct Tracked(isize, bool);
impl NativeValueType for Tracked {}
impl Tracked {
    fn make(v: isize) -> Tracked {
        TRACKED.with(|t| {
            let mut t = t.borrow_mut();
            t.live += 1;
            t.made += 1;
        });
        Tracked(v, true)
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked::make(self.0)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        TRACKED.with(|t| {
            let mut t = t.borrow_mut();
            t.live -= 1;
            t.dropped += 1;
            if !self.1 {
                t.double = true;
            }
        });
        self.1 = false;
    }
}
fn t_make(v: isize) -> Tracked {
    Tracked::make(v)
}
fn t_id(t: &Tracked) -> isize {
    t.0
}
fn t_eq(a: &Tracked, b: &Tracked) -> bool {
    a.0 == b.0
}
fn t_text(t: &Tracked) -> ferlium::std::string::String {
    ferlium::std::string::String::new(&format!("tracked {}", t.0))
}
fn t_hash(t: &Tracked, state: &mut ferlium::std::hash::Hasher) {
    state.write_isize(t.0);
}
fn t_clone(t: &Tracked) -> Tracked {
    t.clone()
}
fn t_drop(_: &mut Tracked) {}
fn t_hook(v: isize) {
    TRACKED.with(|t| {
        let mut t = t.borrow_mut();
        if t.hooks.len() < 20_000 {
            t.hooks.push(v as i64);
        }
    })
}

fn host_module(id: ModuleId, value_trait_id: TraitId, value_trait: &Trait) -> Module {
    use PrimitiveEffect::{Fallible as F, Read as R, Write as W};
    let mut m = Module::new(id, Path::single_str("host"));
    m.add_function("get".into(), UnaryNativeFnNN::description_with_default_ty(h_get, ["k"], "", effect(R)));
    m.add_function("put".into(), BinaryNativeFnNNN::description_with_default_ty(h_put, ["k", "v"], "", effect(W)));
    m.add_function("swap".into(), BinaryNativeFnNNN::description_with_default_ty(h_swap, ["k", "v"], "", effects(&[R, W])));
    m.add_function("say".into(), UnaryNativeFnRN::description_with_default_ty(h_say, ["s"], "", effect(W)));
    m.add_function("tick".into(), NullaryNativeFnN::description_with_default_ty(h_tick, [], "", effects(&[R, W])));
    m.add_function("check".into(), UnaryNativeFnNFN::description_with_default_ty(h_check, ["v"], "", effects(&[W, F])));
    m.add_function("need".into(), UnaryNativeFnNFN::description_with_default_ty(h_need, ["v"], "", effect(F)));
    m.add_function("twice".into(), UnaryNativeFnNN::description_with_default_ty(h_twice, ["v"], "", no_effects()));
    m.add_function("fl".into(), UnaryNativeFnNN::description_with_default_ty(h_fl, ["bits"], "", no_effects()));
    m.add_function("make".into(), UnaryNativeFnNN::description_with_default_ty(t_make, ["v"], "", effect(W)));
    m.add_function("id".into(), UnaryNativeFnRN::description_with_default_ty(t_id, ["t"], "", no_effects()));
    m.add_function("hook".into(), UnaryNativeFnNN::description_with_default_ty(t_hook, ["v"], "", no_effects()));
    m.add_concrete_impl_for_trait_def_no_locals(
        value_trait_id,
        value_trait,
        [Type::primitive::<Tracked>()],
        [],
        [
            LiteralValue::new_native(std::mem::size_of::<Tracked>() as isize),
            LiteralValue::new_native(std::mem::align_of::<Tracked>() as isize),
        ],
        [
            Box::new(BinaryNativeFnRRN::new(t_eq)) as Function,
            Box::new(UnaryNativeFnRN::new(t_text)) as Function,
            Box::new(BinaryNativeFnRMN::new(t_hash)) as Function,
            Box::new(UnaryNativeFnRN::new(t_clone)) as Function,
            Box::new(UnaryNativeFnMN::new(t_drop)) as Function,
        ],
    );
    m
}

fn props_module(id: ModuleId) -> Module {
    use PrimitiveEffect::{Read as R, Write as W};
    let mut m = Module::new(id, Path::single_str("hp"));
    m.add_function("@get s.x".into(), NullaryNativeFnN::description_with_default_ty(p_get, [], "", effect(R)));
    m.add_function("@set s.x".into(), UnaryNativeFnNN::description_with_default_ty(p_set, ["v"], "", effect(W)));
    m.add_function("@get s.a".into(), NullaryNativeFnV::description_with_ty(a_get, [], "", array_type(int_type()), effect(R)));
    m.add_function(
        "@set s.a".into(),
        UnaryNativeFnVN::description_with_in_ty(a_set, ["v"], "", array_type(int_type()), effect(W)),
    );
    m
}

pub fn register(s: &mut CompilerSession) {
    let value_trait = s.std_module().get_trait_id_str("Value").expect("Value trait");
    let module = host_module(s.modules().next_id(), value_trait, s.std_module().trait_def(value_trait));
    s.register_module(Path::single_str("host"), module);
    let module = props_module(s.modules().next_id());
    s.register_module(Path::single_str("hp"), module);
}
