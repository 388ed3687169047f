//! Resource limits: programs that end are run under lowered limits and must give the unlimited outcome or
//! that limit's violation, monotonically; programs that do not end must meet a limit in every mode.
use ferlium::compiler::error::SandboxViolationKind as K;

use crate::choice::Src;
use crate::driver::{Case, Prop, about_to_run};
use crate::gen_::{Feats, G};
use crate::host::{reset_host, take_host};
use crate::props::Env;
use crate::props::c01::STATES;
use crate::rt::{Compiled, MODES, Mode, Out, RV, limits};
use crate::shapes::Shape;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "some run met a limit and, for programs that end, some run with a lowered limit did not",
        assumptions: &[],
        quick: 700,
        thorough: 200_000,
        batch: 60,
        case_secs: 60,
        hang_ok: true,
        prepare: |env| env.rt.with_host = true,
        run,
    }
}

const DEPTH: usize = 120;
const FUEL: usize = 8_000;
const CELLS: usize = 65_536;

fn run(env: &mut Env, src: &mut Src) -> Case {
    let case = match src.weighted(&[5, 4, 5]) {
        0 => {
            let f = Feats::swarm(src);
            let mut g = G::new(src, f);
            g.program();
            let t = g.p.text();
            ending(env, src, t, "generated")
        }
        1 => {
            let host = src.chance(1, 2);
            let (t, _) = Shape::program(src, host);
            ending(env, src, t, "kernel")
        }
        _ => endless(env, src),
    };
    if let Some(d) = still_works(env, src)
        && !matches!(case.verdict, crate::driver::Verdict::Fail { .. })
    {
        return Case::fail(case.render, "session damaged", d);
    }
    case
}

/// After whatever happened, the session compiles and runs something else correctly.
fn still_works(env: &mut Env, src: &mut Src) -> Option<String> {
    let n = src.range(3, 20);
    let text = format!("fn fact(n: int) -> int {{ if n <= 1 {{ 1 }} else {{ n * fact(n - 1) }} }} let mut a = [0]; for i in 0..{n} {{ array_append(a, i * i); }}; (fact({n}), len(a), f\"{{n}}\")")
        .replace("f\"{n}\"", "\"ok\"");
    let want = Out::Val(RV::Tuple(vec![RV::Int((1..=n).fold(1i64, |a, b| a.wrapping_mul(b))), RV::Int(n + 1), RV::Str("ok".into())]));
    let c = match env.rt.compile_as("after", &text) {
        Ok(c) => c,
        Err(e) => return Some(format!("a later program is rejected: {}", e.text)),
    };
    for mode in MODES {
        let got = env.rt.run(&c, mode);
        if got != want {
            return Some(format!("a later program gives {} in {mode:?}", got.show()));
        }
    }
    None
}

struct Lim {
    depth: usize,
    fuel: Option<usize>,
    cells: usize,
}

fn go(env: &mut Env, c: &Compiled, mode: Mode, l: &Lim) -> (Out, crate::host::HostState) {
    reset_host(STATES[0], 5, vec![1, 2, 3]);
    let out = env.rt.run_limited(c, mode, limits(l.depth, l.fuel, l.cells));
    (out, take_host())
}

/// Whether this violation names one of the limits that are in force, as they are.
fn named(k: &K, l: &Lim) -> bool {
    match k {
        K::CallDepthLimitExceeded { limit } => *limit == l.depth,
        K::EnvironmentCellLimitExceeded { limit } => *limit == l.cells,
        K::FuelExhausted => l.fuel.is_some(),
    }
}

fn ending(env: &mut Env, src: &mut Src, text: String, label: &'static str) -> Case {
    about_to_run(&text);
    env.rt.reset();
    let c = match env.rt.compile(&text) {
        Ok(c) => c,
        Err(_) => return Case::discard(text),
    };
    if c.entry.is_none() {
        return Case::discard(text);
    }
    let (mut met, mut within) = (false, false);
    for mode in MODES {
        let free = Lim { depth: DEPTH, fuel: Some(FUEL), cells: CELLS };
        let (want, host) = go(env, &c, mode, &free);
        if want.is_limit() {
            return Case::discard(text);
        }
        // Without a fuel limit the outcome is the same.
        let (again, host2) = go(env, &c, mode, &Lim { fuel: None, ..free });
        if again != want || host2 != host {
            return Case::fail(text, "fuel accounting", format!("{mode:?}: {} with fuel, {} without", want.show(), again.show()));
        }
        // Each limit alone, at values around the least that suffices.
        for kind in 0..3 {
            let top = match kind {
                0 => FUEL,
                1 => DEPTH,
                _ => 4096,
            };
            let lim = |v: usize| match kind {
                0 => Lim { depth: DEPTH, fuel: Some(v), cells: CELLS },
                1 => Lim { depth: v, fuel: Some(FUEL), cells: CELLS },
                _ => Lim { depth: DEPTH, fuel: Some(FUEL), cells: v },
            };
            let (mut lo, mut hi) = (0usize, top); // fails below or at lo (unless 0), completes at hi
            let mut seen: Vec<(usize, bool)> = vec![];
            let mut steps = 0;
            while steps < 7 {
                steps += 1;
                let v = if steps <= 2 {
                    src.below(40) as usize
                } else if hi > lo + 1 && steps < 7 {
                    let m = lo + (hi - lo) / 2;
                    if hi - lo > 64 { lo + (src.below(((hi - lo) / 8).max(1) as u64) as usize) + 1 } else { m }
                } else {
                    hi + src.below(50) as usize
                };
                let l = lim(v);
                let (got, trace) = go(env, &c, mode, &l);
                let done = match &got {
                    Out::Limit(k) => {
                        met = true;
                        let right = match kind {
                            0 => matches!(k, K::FuelExhausted),
                            1 => matches!(k, K::CallDepthLimitExceeded { .. }),
                            _ => matches!(k, K::EnvironmentCellLimitExceeded { .. }),
                        };
                        if !right || !named(k, &l) {
                            return Case::fail(text, "wrong limit", format!("{mode:?}: lowering {} to {v} is reported as {}", ["fuel", "the call depth", "the environment"][kind], got.show()));
                        }
                        if trace.trace.len() > host.trace.len() || trace.trace[..] != host.trace[..trace.trace.len()] {
                            return Case::fail(text, "trace under a limit", format!("{mode:?}: with {} {v} the host calls are {:?}, unlimited {:?}", ["fuel", "depth", "environment"][kind], trace.trace, host.trace));
                        }
                        false
                    }
                    o if *o == want && trace == host => {
                        within = true;
                        true
                    }
                    o => {
                        return Case::fail(text, "changed by a limit", format!("{mode:?}: {} with {} {v}, {} unlimited", o.show(), ["fuel", "depth", "environment"][kind], want.show()));
                    }
                };
                seen.push((v, done));
                if done {
                    hi = hi.min(v);
                } else {
                    lo = lo.max(v);
                }
            }
            for (a, d) in &seen {
                for (b, e) in &seen {
                    if a < b && *d && !*e {
                        return Case::fail(text, "not monotonic", format!("{mode:?}: {} {a} suffices but {b} does not", ["fuel", "depth", "environment"][kind]));
                    }
                }
            }
        }
        // All lowered at once.
        let l = Lim { depth: src.below(20) as usize, fuel: Some(src.below(300) as usize), cells: src.below(200) as usize };
        let (got, _) = go(env, &c, mode, &l);
        let ok = match &got {
            Out::Limit(k) => named(k, &l),
            o => *o == want,
        };
        if !ok {
            return Case::fail(text, "changed by limits", format!("{mode:?}: {} with depth {}, fuel {:?}, environment {}; {} unlimited", got.show(), l.depth, l.fuel, l.cells, want.show()));
        }
        let (last, _) = go(env, &c, mode, &free);
        if last != want {
            return Case::fail(text, "damaged by a violation", format!("{mode:?}: {} at first, {} after runs that met a limit", want.show(), last.show()));
        }
    }
    Case::pass(text, met && within).with(vec![label])
}

/// A function `spin(n: int) -> int` that never returns, with what it needs declared before it, and whether
/// it recurses rather than loops: through a trait method a call is not counted (a known finding), so only
/// the environment stops it.
fn spin(src: &mut Src) -> (String, String, Rec) {
    let mut noise = |s: &mut Src| -> String {
        match s.below(6) {
            0 => "x = x + 1;".into(),
            1 => "x = x * 3 - n;".into(),
            2 => "array_append(a, x); if len(a) > 3 { a = [x]; };".into(),
            3 => "s = f\"{x}\";".into(),
            4 => "if x > n { x = x - 1; } else { x = x + 2; };".into(),
            _ => String::new(),
        }
    };
    let head = "let mut x = n; let mut a = [n]; let mut s = \"\"; ";
    let n1 = noise(src);
    let n2 = noise(src);
    use Rec::*;
    let (decl, body, rec) = match src.below(21) {
        0 => ("", format!("{head} loop {{ {n1} {n2} }}"), Loop),
        1 => ("", format!("{head} loop {{ {n1} if x == x {{ continue }}; break x }}"), Loop),
        2 => ("", format!("{head} 'o: loop {{ loop {{ {n1} if x == x {{ continue 'o }}; break }} ; {n2} }}"), Loop),
        3 => ("", format!("{head} loop {{ for i in 0..3 {{ {n1} if i == 1 {{ break }}; {n2} }}; }}"), Loop),
        4 => ("", format!("{head} {n1} 1 + spin(x)"), Call),
        5 => ("", format!("{head} {n1} spin(n + 1)"), Call),
        6 => ("fn odd(n: int) -> int { 1 + spin(n) }\n", format!("{head} {n1} odd(x)"), Call),
        7 => ("", format!("{head} let f = |k| k + spin(k); {n1} f(x)"), Dispatch),
        8 => ("fn apply(f, n: int) { f(n) }\n", format!("{head} {n1} apply(spin, x)"), Dispatch),
        9 => ("", format!("{head} {n1} let r = map([x], |k| spin(k) + 1); r[0]"), Dispatch),
        10 => ("trait Turn<Self> { fn turn(v: Self) -> int; }\nstruct W(int)\nimpl Turn for W { fn turn(v: W) -> int { v.0 + turn(W(v.0 + 1)) } }\n", format!("{head} {n1} turn(W(x))"), Dispatch),
        11 => ("trait Turn<Self> { fn turn(v: Self) -> int; }\nstruct W(int)\nimpl Turn for W { fn turn(v: W) -> int { let mut k = v.0; loop { k = k + 1; } } }\nfn through(v) { turn(v) }\n", format!("{head} {n1} through(W(x))"), Loop),
        12 => ("", format!("{head} {n1} loop {{ let y = if x > n {{ continue }} else {{ x }}; x = y + 1; }}"), Loop),
        13 => ("fn put(r: &mut int, n: int) { r = n; put(r, n + 1); }\n", format!("{head} {n1} put(x, n); x"), Call),
        14 => ("fn all(a: [int], i: int) -> int { if i >= len(a) { all(a, 0) } else { all(a, i + 1) } }\n", format!("{head} {n1} all([x, n], 0)"), Call),
        15 => ("", format!("{head} loop {{ match Some(x) {{ Some(y) => {{ {n1} }}, None => {{ {n2} }} }}; }}"), Loop),
        16 => ("struct E(int)\nimpl Value for E { fn eq(l: E, r: E) -> bool { true } fn to_string(v: E) -> string { loop { } } fn hash(v: E, state: &mut hasher) { hash(v.0, state) } fn clone(v: E) -> E { E(v.0) } fn drop(v: &mut E) { } }\n", format!("{head} {n1} let t = to_string([E(x)]); len(t)"), Loop),
        17 => ("struct E(int)\nimpl Value for E { fn eq(l: E, r: E) -> bool { true } fn to_string(v: E) -> string { \"e\" } fn hash(v: E, state: &mut hasher) { loop { } } fn clone(v: E) -> E { E(v.0) } fn drop(v: &mut E) { } }\n", format!("{head} {n1} let h = value_hash((E(x), 1)); if h == h {{ 1 }} else {{ 2 }}"), Loop),
        18 => ("", format!("{head} {n1} let r = filter([x, n], |k| {{ let mut j = k; loop {{ j = j + 1; }} }}); len(r)"), Loop),
        19 => ("fn grow(a: [int]) -> int { let mut b = a; array_append(b, 1); let r = grow([b[0], 2]); r + b[0] }\n", format!("{head} {n1} grow([x])"), Call),
        _ => ("fn pair(n: int) -> (int, string) { let p = pair(n + 1); (p.0 + 1, concat_text(p.1)) }\nfn concat_text(s: string) -> string { f\"{s}.\" }\n", format!("{head} {n1} let p = pair(x); p.0"), Call),
    };
    (decl.to_string(), body, rec)
}

#[derive(Clone, Copy, PartialEq)]
enum Rec {
    Loop,
    Call,
    Dispatch,
}

fn endless(env: &mut Env, src: &mut Src) -> Case {
    let (decl, body, rec) = spin(src);
    // How it is reached, and what is done with its result.
    let (use_decl, main) = match src.below(9) {
        0 => ("", "spin(3)"),
        1 => ("", "let r = spin(3); 1"),
        2 => ("", "spin(3); \"done\""),
        3 => ("fn outer(n: int) { let r = spin(n); 5 }\n", "outer(2) + outer(1)"),
        4 => ("", "let f = || spin(2); let r = f(); 0"),
        5 => ("", "let mut t = 0; for i in 0..4 { t = t + spin(i); }; t"),
        6 => ("", "if true or spin(1) == 2 { let r = spin(0); 1 } else { 2 }"),
        7 => ("fn idn(x) { x }\n", "idn(spin(7)); true"),
        _ => ("", "let a = [1, spin(2), 3]; len(a)"),
    };
    let text = format!("{decl}fn spin(n: int) -> int {{ {body} }}\n{use_decl}{main}\n");
    about_to_run(&format!("# must end\n{text}"));
    env.rt.reset();
    let c = match env.rt.compile(&text) {
        Ok(c) => c,
        Err(e) => return Case::discard(format!("{text}\n{}", e.text)),
    };
    let mut labels = vec![if rec != Rec::Loop { "endless recursion" } else { "endless loop" }];
    for mode in MODES {
        for k in 0..3 {
            let cells = if rec == Rec::Dispatch { 1500 } else { CELLS };
            let l = match k {
                0 => Lim { depth: DEPTH, fuel: Some(src.below(1500) as usize), cells },
                1 => Lim { depth: 1 + src.below(DEPTH as u64) as usize, fuel: if rec != Rec::Loop { None } else { Some(1000) }, cells },
                _ => Lim { depth: src.below(60) as usize, fuel: Some(src.below(2_000) as usize), cells: src.below(300) as usize },
            };
            let (got, _) = go(env, &c, mode, &l);
            match &got {
                Out::Limit(v) if named(v, &l) => {
                    labels.push(match v {
                        K::FuelExhausted => "fuel",
                        K::CallDepthLimitExceeded { .. } => "depth",
                        _ => "environment",
                    });
                }
                o => {
                    return Case::fail(text, "ended", format!("{mode:?}: {} with depth {}, fuel {:?}, environment {}", o.show(), l.depth, l.fuel, l.cells));
                }
            }
        }
    }
    labels.sort();
    labels.dedup();
    Case::pass(text, true).with(labels)
}
