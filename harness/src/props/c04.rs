//! Every owned value is released exactly once: counted native values and live allocations over generated
//! programs, and created + copied = dropped per value for a type whose hooks are counted.
use crate::choice::Src;
use crate::driver::{Case, Prop, about_to_run};
use crate::gen_::{Feats, G};
use crate::host::{Ev, reset_host, reset_tracked, take_host, tracked};
use crate::props::Env;
use crate::props::c01::STATES;
use crate::rt::{Compiled, MODES, Mode, Out};
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "a run that was not stopped by a limit made at least two owned values, or left storage to compare",
        assumptions: &[],
        quick: 900,
        thorough: 300_000,
        batch: 100,
        case_secs: 20,
        hang_ok: true,
        prepare: |env| env.rt.with_host = true,
        run,
    }
}

fn run(env: &mut Env, src: &mut Src) -> Case {
    match src.weighted(&[4, 5]) {
        0 => general(env, src),
        _ => hooked(env, src),
    }
}

/// Runs once for what is created lazily, then compares what is live before and after; a difference counts
/// when it comes back every time.
///
/// A failure that interrupts a generated aggregate loses the components already built, which is a listed
/// finding: `general` leaves what failing runs allocate to `hooked`, whose aggregates cannot be interrupted.
fn leaks(env: &mut Env, c: &Compiled, mode: Mode, cells: [i64; 4], failing: bool) -> Result<Out, String> {
    let mut round = 0;
    loop {
        reset_host(cells, 5, vec![1, 2, 3]);
        reset_tracked();
        let before = crate::alloc::live();
        let out = env.rt.run(c, mode);
        let t = tracked();
        let (double, live, made) = (t.double, t.live, t.made);
        drop(t);
        reset_host(cells, 5, vec![1, 2, 3]);
        reset_tracked();
        let left = crate::alloc::live() - before - weight(&out);
        match &out {
            Out::Val(_) | Out::Fail(_) => {}
            Out::Limit(_) => return Ok(out),
            o => return Err(format!("{mode:?}, cells {cells:?}: {}", o.show())),
        }
        if double {
            return Err(format!("{mode:?}, cells {cells:?}: a value was dropped twice ({})", out.show()));
        }
        // The first run in a mode also optimizes, which can evaluate calls of the pure `host::make`.
        if round > 0 && live != 0 {
            return Err(format!("{mode:?}, cells {cells:?}: of {made} native values {live} were never dropped ({})", out.show()));
        }
        if round > 0 && (left <= 0 || (!failing && matches!(out, Out::Fail(_)))) {
            return Ok(out);
        }
        if round == 4 {
            return Err(format!("{mode:?}, cells {cells:?}: every run leaves {left} allocations behind ({})", out.show()));
        }
        round += 1;
    }
}
/// The allocations the observed outcome itself holds.
fn weight(out: &Out) -> isize {
    let before = crate::alloc::live();
    let copy = out.clone();
    let after = crate::alloc::live();
    drop(copy);
    after - before
}

fn general(env: &mut Env, src: &mut Src) -> Case {
    let mut f = Feats::swarm(src);
    f.tracked = if src.chance(2, 3) { 2 + src.below(4) as u32 } else { 0 };
    f.failing = 1 + src.below(3) as u32;
    let mut g = G::new(src, f);
    g.program();
    // The result is bound, so that the program itself drops it.
    let mut text = g.p.extra.clone();
    for d in g.p.decls() {
        text.push_str(&d);
        text.push('\n');
    }
    let main = g.p.main_text();
    text.push_str(&format!("let kept = {{\n{main}\n}};\n0"));
    about_to_run(&text);
    env.rt.reset();
    let c = match env.rt.compile(&text) {
        Ok(c) => c,
        Err(_) => return Case::discard(text),
    };
    let mut limited = true;
    for cells in [STATES[0], STATES[1]] {
        for mode in MODES {
            match leaks(env, &c, mode, cells, false) {
                Err(e) => return Case::fail(text, "leak", e),
                Ok(out) => limited &= out.is_limit(),
            }
        }
    }
    Case::pass(text, !limited).with(vec!["general"])
}

const PRELUDE: &str = "struct D(int)
impl Value for D {
  fn eq(l: D, r: D) -> bool { l.0 == r.0 }
  fn to_string(v: D) -> string { to_string(v.0) }
  fn hash(v: D, state: &mut hasher) { hash(v.0, state) }
  fn clone(v: D) -> D { host::hook(0 - v.0); D(v.0) }
  fn drop(v: &mut D) { host::hook(v.0) }
}
struct S { a: D, b: [D], c: int }
enum E { One(D), Two(D, [D]), Nil }
fn mk(n: int) -> D { host::put(1, n); D(n) }
fn idd(d: D) -> D { d }
fn two(a: D, n: int, b: D) -> D { if n > 3 { a } else { b } }
fn swap(a: &mut D, b: &mut D) { let t = a; a = b; b = t }
fn set(a: &mut D, v: D) { a = v }
fn first(a: [D]) -> D { a[0] }
fn pick(e: E) -> D { match e { One(d) => d, Two(d, _r) => d, Nil => mk(900) } }
fn num(d: D) -> int { d.0 }
";

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    D,
    Arr,
    Tup,
    Opt,
    S,
    E,
    Fun,
}
struct H<'a> {
    s: &'a mut Src,
    vars: Vec<(String, Ty, bool)>,
    out: String,
    n: usize,
    ids: i64,
    depth: usize,
    loops: usize,
    in_lambda: bool,
}
impl H<'_> {
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }
    fn line(&mut self, t: &str) {
        self.out.push_str(&"  ".repeat(self.depth));
        self.out.push_str(t);
        self.out.push('\n');
    }
    fn var(&mut self, t: Ty, mutable: bool) -> Option<String> {
        let v: Vec<String> = self.vars.iter().filter(|v| v.1 == t && (!mutable || v.2)).map(|v| v.0.clone()).collect();
        if v.is_empty() { None } else { Some(self.s.pick(&v).clone()) }
    }
    fn cond(&mut self) -> String {
        match self.s.below(4) {
            0 => "p > 0".into(),
            1 => "p == 2".into(),
            2 => format!("q < {}", self.s.range(0, 5)),
            _ => "p < q".into(),
        }
    }
    /// An integer that may fail to come about; not for use inside the construction of a value.
    fn risky(&mut self) -> String {
        match self.s.below(5) {
            0 => "host::need(p)".into(),
            1 => "host::need(p - 1)".into(),
            2 => "idiv(6, p - 2)".into(),
            3 => "host::check(p + 1)".into(),
            _ => "q".into(),
        }
    }
    fn mk(&mut self) -> String {
        self.ids += 1;
        format!("mk({})", self.ids)
    }
    /// `safe` says whether evaluating it must not fail (inside the construction of an aggregate).
    fn expr(&mut self, t: Ty, fuel: u32, safe: bool) -> String {
        let v = self.var(t, false);
        if fuel == 0 || self.s.chance(1, 4) {
            if let Some(v) = v {
                return v;
            }
        }
        let f = fuel.saturating_sub(1);
        if fuel > 0 && self.s.chance(1, 6) {
            let c = self.cond();
            return match self.s.below(4) {
                0 => format!("if {c} {{ {} }} else {{ {} }}", self.expr(t, f, safe), self.expr(t, f, safe)),
                1 => {
                    let z = self.fresh("z");
                    let e = self.expr(t, f, safe);
                    let m = if self.s.flip() { "mut " } else { "" };
                    format!("{{ let {m}{z} = {e}; {z} }}")
                }
                2 => {
                    let z = self.fresh("z");
                    let e = self.expr(t, f, safe);
                    let b = self.expr(t, f, safe);
                    format!("{{ let {z} = {e}; {b} }}")
                }
                _ => {
                    let (a, b) = (self.expr(t, f, safe), self.expr(t, f, safe));
                    format!("match q {{ 0 => {a}, _ => {b} }}")
                }
            };
        }
        match t {
            Ty::D => {
                let k = self.s.below(if fuel == 0 { 1 } else { 12 });
                match k {
                    0 | 1 => self.mk(),
                    2 => format!("idd({})", self.expr(Ty::D, f, safe)),
                    3 => {
                        let r = if safe { "q".into() } else { self.risky() };
                        let (a, b) = (self.expr(Ty::D, f, safe), self.expr(Ty::D, f, safe));
                        format!("two({a}, {r}, {b})")
                    }
                    4 => match self.var(Ty::Arr, false) {
                        Some(a) if !safe => format!("{a}[{}]", self.s.range(-1, 2)),
                        _ => format!("first([{}])", self.expr(Ty::D, f, true)),
                    },
                    5 => format!("({}).{}", self.expr(Ty::Tup, f, safe), self.s.below(2)),
                    6 => match self.var(Ty::S, false) {
                        Some(v) => format!("{v}.a"),
                        None => self.mk(),
                    },
                    7 => format!("pick({})", self.expr(Ty::E, f, safe)),
                    8 => match self.var(Ty::Fun, false) {
                        Some(v) if !safe => format!("{v}()"),
                        _ => self.mk(),
                    },
                    9 => {
                        let e = self.expr(Ty::Opt, f, safe);
                        let z = self.fresh("z");
                        let alt = self.expr(Ty::D, f, safe);
                        format!("match {e} {{ Some({z}) => {z}, None => {alt} }}")
                    }
                    10 => match self.var(Ty::S, false) {
                        Some(v) if !safe => format!("{v}.b[{}]", self.s.range(0, 2)),
                        _ => format!("({}).a", self.expr(Ty::S, f, safe)),
                    },
                    _ => {
                        let e = self.expr(Ty::D, f, safe);
                        let z = self.fresh("z");
                        format!("(|{z}| {z})({e})")
                    }
                }
            }
            Ty::Arr => {
                let n = self.s.below(4);
                let items: Vec<String> = (0..n).map(|_| self.expr(Ty::D, f, true)).collect();
                match if fuel == 0 { 5 } else { self.s.below(6) } {
                    0 => {
                        let e = self.expr(Ty::Arr, f, safe);
                        let z = self.fresh("z");
                        format!("map({e}, |{z}| idd({z}))")
                    }
                    1 => {
                        let e = self.expr(Ty::Arr, f, safe);
                        let z = self.fresh("z");
                        format!("filter({e}, |{z}| num({z}) > {})", self.s.range(0, 6))
                    }
                    2 => match self.var(Ty::S, false) {
                        Some(v) => format!("{v}.b"),
                        None => format!("([{}]: [D])", items.join(", ")),
                    },
                    3 => format!("concat({}, {})", self.expr(Ty::Arr, f, safe), self.expr(Ty::Arr, f, safe)),
                    _ => format!("([{}]: [D])", items.join(", ")),
                }
            }
            Ty::Tup => format!("({}, {})", self.expr(Ty::D, f, true), self.expr(Ty::D, f, true)),
            Ty::Opt => match self.s.below(4) {
                0 => "(None: Option<D>)".into(),
                1 => match self.var(Ty::Arr, true) {
                    Some(a) => format!("{}({a})", self.s.pick(&["array_pop_back", "array_pop_front"])),
                    None => format!("Some({})", self.expr(Ty::D, f, true)),
                },
                _ => format!("Some({})", self.expr(Ty::D, f, true)),
            },
            Ty::S => format!("(S {{ a: {}, b: {}, c: q }})", self.expr(Ty::D, f, true), self.expr(Ty::Arr, f, true)),
            Ty::E => match self.s.below(3) {
                0 => "E::Nil".into(),
                1 => format!("E::One({})", self.expr(Ty::D, f, true)),
                _ => format!("E::Two({}, {})", self.expr(Ty::D, f, true), self.expr(Ty::Arr, f, true)),
            },
            Ty::Fun => {
                let saved = std::mem::replace(&mut self.in_lambda, true);
                let e = self.expr(Ty::D, f.min(1), false);
                self.in_lambda = saved;
                format!("|| {e}")
            }
        }
    }
    fn any(&mut self) -> Ty {
        *self.s.pick(&[Ty::D, Ty::D, Ty::D, Ty::Arr, Ty::Arr, Ty::Tup, Ty::Opt, Ty::S, Ty::E])
    }
    fn leave(&mut self) -> String {
        match self.s.below(3) {
            0 if self.loops > 0 => "break".into(),
            1 if self.loops > 0 => "continue".into(),
            _ => format!("return {}", self.s.range(10, 99)),
        }
    }
    fn stmt(&mut self) {
        match self.s.weighted(&[8, 3, 3, 2, 2, 2, 3, 2, 2, 2, 1, 2, 2]) {
            0 => {
                let t = if self.s.chance(1, 8) { Ty::Fun } else { self.any() };
                let e = self.expr(t, 3, false);
                let m = t != Ty::Fun && self.s.chance(1, 2);
                let v = self.fresh("v");
                self.line(&format!("let {}{v} = {e};", if m { "mut " } else { "" }));
                self.vars.push((v, t, m));
            }
            1 => {
                let t = self.any();
                if let Some(v) = self.var(t, true) {
                    let e = self.expr(t, 2, false);
                    self.line(&format!("{v} = {e};"));
                }
            }
            2 => {
                let e = self.expr(Ty::D, 1, false);
                let (d, t, s) = (self.var(Ty::Arr, true), self.var(Ty::Tup, true), self.var(Ty::S, true));
                match (self.s.below(4), d, t, s) {
                    (0, Some(a), _, _) => {
                        let i = self.s.range(0, 2);
                        self.line(&format!("{a}[{i}] = {e};"))
                    }
                    (1, _, Some(t), _) => {
                        let i = self.s.below(2);
                        self.line(&format!("{t}.{i} = {e};"))
                    }
                    (2, _, _, Some(s)) => self.line(&format!("{s}.a = {e};")),
                    (_, Some(a), _, _) => self.line(&format!("array_append({a}, {e});")),
                    _ => {}
                }
            }
            3 => {
                let r = self.risky();
                let v = self.fresh("r");
                self.line(&format!("let {v} = {r};"));
            }
            4 => {
                let c = self.cond();
                let l = self.leave();
                self.line(&format!("if {c} {{ {l} }};"));
            }
            5 if self.depth < 4 => {
                let c = self.cond();
                self.line(&format!("if {c} {{"));
                self.block();
                if self.s.flip() {
                    self.line("} else {");
                    self.block();
                }
                self.line("};");
            }
            6 if self.depth < 4 => {
                let i = self.fresh("i");
                match self.s.below(3) {
                    0 => {
                        let e = self.expr(Ty::Arr, 2, false);
                        self.line(&format!("for {i} in {e} {{"));
                        self.vars.push((i, Ty::D, false));
                        self.loops += 1;
                        self.block();
                        self.loops -= 1;
                        self.vars.pop();
                        self.line("};");
                    }
                    1 => {
                        let k = self.s.range(1, 3);
                        self.line(&format!("for {i} in 0..{k} {{"));
                        self.loops += 1;
                        self.block();
                        self.loops -= 1;
                        self.line("};");
                    }
                    _ => {
                        let v = self.fresh("v");
                        self.line(&format!("let mut {i} = 0;"));
                        self.line(&format!("let {v} = loop {{"));
                        let mark = self.vars.len();
                        self.depth += 1;
                        self.line(&format!("{i} += 1;"));
                        // A plain break has no value to give here.
                        let saved = std::mem::replace(&mut self.loops, 0);
                        self.inner();
                        self.loops = saved;
                        let e = self.expr(Ty::D, 2, false);
                        let k = self.s.range(0, 2);
                        self.line(&format!("if {i} > {k} {{ break {e} }};"));
                        self.inner();
                        self.depth -= 1;
                        self.vars.truncate(mark);
                        self.line("};");
                        self.vars.push((v, Ty::D, false));
                    }
                }
            }
            7 => {
                let (a, b) = (self.var(Ty::D, true), self.var(Ty::Tup, true));
                match (a, b) {
                    (Some(a), Some(b)) if self.s.flip() => {
                        let i = self.s.below(2);
                        self.line(&format!("swap({a}, {b}.{i});"))
                    }
                    (Some(a), _) => {
                        let e = self.expr(Ty::D, 2, false);
                        self.line(&format!("set({a}, {e});"))
                    }
                    (_, Some(b)) => self.line(&format!("swap({b}.0, {b}.1);")),
                    _ => {}
                }
            }
            8 => {
                let e = self.expr(Ty::Tup, 2, false);
                let (x, y) = (self.fresh("x"), self.fresh("y"));
                self.line(&format!("let ({x}, {y}) = {e};"));
                self.vars.push((x, Ty::D, false));
                self.vars.push((y, Ty::D, false));
            }
            9 => {
                // A value nobody keeps.
                let t = self.any();
                let e = self.expr(t, 3, false);
                self.line(&format!("({e});"));
            }
            10 => {
                let e = self.expr(Ty::D, 2, false);
                let v = self.fresh("t");
                let r = self.risky();
                self.line(&format!("let {v} = num({e}) + {r};"));
            }
            11 if self.depth < 4 => {
                let e = self.expr(Ty::E, 2, false);
                let (a, b) = (self.fresh("a"), self.fresh("b"));
                self.line(&format!("match {e} {{"));
                self.depth += 1;
                let v = self.fresh("a");
                self.line(&format!("One({v}) => {{"));
                self.vars.push((v, Ty::D, false));
                self.block();
                self.vars.pop();
                self.line("},");
                self.line(&format!("Two({a}, {b}) => {{"));
                self.vars.push((a, Ty::D, false));
                self.vars.push((b, Ty::Arr, false));
                self.block();
                self.vars.pop();
                self.vars.pop();
                self.line("},");
                self.line("Nil => (),");
                self.depth -= 1;
                self.line("};");
            }
            _ => {
                let (a, b) = (self.expr(Ty::D, 2, false), self.expr(Ty::D, 2, false));
                let v = self.fresh("e");
                self.line(&format!("let {v} = {a} == {b};"));
            }
        }
    }
    fn inner(&mut self) {
        for _ in 0..self.s.below(3) {
            self.stmt();
        }
    }
    fn block(&mut self) {
        let mark = self.vars.len();
        self.depth += 1;
        let n = 1 + self.s.below(3);
        for _ in 0..n {
            self.stmt();
        }
        self.line("()");
        self.depth -= 1;
        self.vars.truncate(mark);
    }
}

fn hooked(env: &mut Env, src: &mut Src) -> Case {
    let mut h = H { s: src, vars: vec![], out: String::new(), n: 0, ids: 0, depth: 1, loops: 0, in_lambda: false };
    let n = h.s.len(3, 14);
    for _ in 0..n {
        h.stmt();
    }
    let attr = if h.s.chance(1, 4) { "#[inline(never)]\n" } else { "" };
    let text = format!("{PRELUDE}{attr}fn go(p: int, q: int) -> int {{\n{}  q\n}}\ngo(host::get(0), host::get(2))\n", h.out);
    about_to_run(&text);
    env.rt.reset();
    let c = match env.rt.compile(&text) {
        Ok(c) => c,
        Err(e) => return if std::env::var("C04_REJECTED").is_ok() { Case::fail(text, format!("rejected {}", e.kind), e.text) } else { Case::discard(text) },
    };
    let mut most = 0;
    let mut failed = false;
    for cells in [[0, 0, 1, 0], [1, 0, 0, 0], [2, 0, 4, 0], [-1, 0, 3, 0]] {
        for mode in MODES {
            reset_host(cells, 5, vec![]);
            reset_tracked();
            let out = env.rt.run(&c, mode);
            match &out {
                Out::Val(_) => {}
                Out::Fail(_) => failed = true,
                Out::Limit(_) => continue,
                o => return Case::fail(text, "cleanup", format!("{mode:?}, cells {cells:?}: {}", o.show())),
            }
            let mut count: BTreeMap<i64, [i64; 3]> = BTreeMap::new();
            for e in take_host().trace {
                if let Ev::Put(1, id) = e {
                    count.entry(id).or_default()[0] += 1;
                }
            }
            let hooks = tracked().hooks;
            if hooks.len() >= 20_000 {
                continue;
            }
            for k in hooks {
                count.entry(k.abs()).or_default()[if k < 0 { 1 } else { 2 }] += 1;
            }
            if let Some((id, [a, b, d])) = count.iter().find(|(_, [a, b, d])| a + b != *d) {
                return Case::fail(
                    text,
                    if a + b > *d { "never dropped" } else { "dropped twice" },
                    format!("{mode:?}, cells {cells:?}: value {id} was made {a} times and copied {b} times but dropped {d} times ({})", out.show()),
                );
            }
            most = most.max(count.len());
        }
    }
    for mode in MODES {
        if let Err(e) = leaks(env, &c, mode, [-1, 0, 3, 0], true) {
            return Case::fail(text, "leak", e);
        }
    }
    Case::pass(text, most >= 2).with(vec!["hooks", if failed { "with failures" } else { "without failures" }])
}
