//! Inferred effects: programs made of effectful primitives and ways to carry them; the generator knows
//! which effects each function can have, the signature must include them, and a run shows that they happen.
use crate::choice::Src;
use crate::driver::{Case, Prop, about_to_run};
use crate::host::{Ev, reset_host, take_host};
use crate::props::Env;
use crate::rt::{MODES, Out};

const R: u8 = 1;
const W: u8 = 2;
const F: u8 = 4;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "some function of the program has effects that reach it through another function, closure or trait, or a declared bound decides the case",
        assumptions: &["host functions declare their effects truthfully (the harness registers them)"],
        quick: 8000,
        thorough: 200_000,
        batch: 50,
        case_secs: 20,
        hang_ok: true,
        prepare: |env| env.rt.with_host = true,
        run,
    }
}

fn bits_text(b: u8) -> String {
    let v: Vec<&str> = [(R, "read"), (W, "write"), (F, "fallible")].iter().filter(|p| b & p.0 != 0).map(|p| p.1).collect();
    match v.len() {
        0 => "()".into(),
        1 => v[0].into(),
        _ => format!("({})", v.join(", ")),
    }
}
/// The effects after the last arrow of a displayed signature.
fn declared(sig: &str) -> Option<u8> {
    // A suffix of constraints belongs to the scheme, not to the function.
    let (own, constraints) = sig.split_once(" where ").unwrap_or((sig, ""));
    let after = own.rsplit("->").next()?;
    let Some((_, e)) = after.split_once('!') else { return Some(0) };
    // An effect variable may stand for an output effect of a constraint.
    let outputs = constraints.split_once("Effect =").map_or("", |p| p.1);
    let e = if e.contains('e') && e.contains(['₀', '₁', '₂', '₃', '₄']) { format!("{e} {outputs}") } else { e.to_string() };
    Some((if e.contains("read") { R } else { 0 }) | (if e.contains("write") { W } else { 0 }) | (if e.contains("fallible") { F } else { 0 }))
}

/// A set of effects: primitive ones and those of functions of the program.
#[derive(Clone, Default)]
struct Eff {
    bits: u8,
    calls: Vec<usize>,
}
impl Eff {
    fn join(&mut self, o: &Eff) {
        self.bits |= o.bits;
        self.calls.extend(&o.calls);
    }
}

struct Gen<'a> {
    s: &'a mut Src,
    n: usize,
    decls: String,
    helpers: usize,
    carried: bool,
    labels: Vec<&'static str>,
    used_generic: bool,
}

impl Gen<'_> {
    /// An integer expression over `x`, `y` and `d`.
    fn prim(&mut self) -> (String, u8) {
        let k = self.s.idx(16);
        let (t, b): (&str, u8) = [
            ("(x + 1)", 0),
            ("(y * 3)", 0),
            ("host::get(1)", R),
            ("host::get(x)", R),
            ("{ host::put(1, x); 1 }", W),
            ("{ host::put(2, y); y }", W),
            ("idiv(x, y)", F),
            ("rem(x, y)", F),
            ("{ host::swap(1, x) }", R | W),
            ("{ host::check(y); 2 }", W | F),
            ("{ host::need(y); 3 }", F),
            ("@hp::s.x", R),
            ("{ @hp::s.x = x; 4 }", W),
            ("[1, 2][y]", F),
            ("{ if y == 7 { panic(\"seven\") }; 5 }", F),
            ("host::tick()", R | W),
        ][k];
        (t.into(), b)
    }
    fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// `lam`: inside a closure.
    fn expr(&mut self, d: u32, lam: bool) -> (String, Eff) {
        if d == 0 || self.s.chance(1, 5) {
            let (t, b) = self.prim();
            return (t, Eff { bits: b, calls: vec![] });
        }
        let h = self.helpers;
        let before = self.carried;
        self.carried = true;
        // Known findings: closures in closures and generic higher-order functions called in closures.
        let k = if lam { *self.s.pick(&[0, 0, 12, 13, 14, 18, 21]) } else { self.s.below(23) };
        match k {
            0 if lam => {
                // Known finding: no recursion in a closure.
                let (b, bits) = self.prim();
                self.helpers += 1;
                let p = if self.s.flip() { "x: int, y: int" } else { "x, y" };
                self.decls.push_str(&format!("fn leaf{h}({p}) {{ let v = {b}; v + 1 }}\n"));
                self.label("call in a closure");
                (format!("leaf{h}(x, y)"), Eff { bits, calls: vec![] })
            }
            0..=2 => {
                let k = self.s.idx(self.n);
                self.label("call");
                (format!("f{k}(d - 1, x, y)"), Eff { bits: 0, calls: vec![k] })
            }
            3 => {
                let (b, e) = self.expr(d - 1, true);
                self.label("closure argument");
                (format!("ap(|x| {{ {b} }}, y)"), e)
            }
            4 => {
                // Known finding: no function of the group being inferred as a value.
                let (b, bits) = self.prim();
                self.helpers += 1;
                self.decls.push_str(&format!("fn lf{h}(d: int, x, y) -> int {{ {b} }}\n"));
                self.label("function argument");
                (format!("ap3(lf{h}, d - 1, x, y)"), Eff { bits, calls: vec![] })
            }
            5 => {
                let (b, e) = self.expr(d - 1, true);
                self.label("closure in a variable");
                (format!("{{ let g{d} = |x| {{ {b} }}; g{d}(y) }}"), e)
            }
            6 => {
                let (b, e) = self.expr(d - 1, true);
                self.label("closure in a tuple");
                (format!("{{ let t{d} = (7, |x| {{ {b} }}); (t{d}.1)(x) }}"), e)
            }
            7 => {
                // Branches of different effects are a type error.
                let (a, e) = self.expr(d - 1, true);
                let b = format!("({a} + 1)");
                self.label("chosen closure");
                (format!("(if x > 3 {{ |x| {{ {a} }} }} else {{ |x| {{ {b} }} }})(y)"), e)
            }
            8 => {
                let (b, mut e) = self.expr(0, true);
                // The function that makes the closure may have effects of its own.
                let (own, oe) = self.prim();
                self.helpers += 1;
                self.decls.push_str(&format!("fn mk{h}(d: int, y: int) {{ let x = 1; let own = {own}; |x| {{ own + {b} }} }}\n"));
                e.bits |= oe;
                self.label("returned closure");
                (format!("mk{h}(d, y)(x)"), e)
            }
            9 => {
                let (b, e) = self.expr(d - 1, true);
                self.label("closure in a structure");
                (format!("{{ let w{d} = Held {{ f: |x| {{ {b} }}, n: 1 }}; (w{d}.f)(x) }}"), e)
            }
            10 => {
                let (b, bits) = self.prim();
                self.helpers += 1;
                self.decls.push_str(&format!(
                    "struct P{h}(int)\ntrait Q{h}<Self> {{ fn q{h}(v: Self, x: int, y: int) -> int ! {}; }}\nimpl Q{h} for P{h} {{ fn q{h}(v: P{h}, x: int, y: int) -> int {{ {b} }} }}\nfn via{h}(v, x, y) {{ q{h}(v, x, y) }}\n",
                    bits_text(bits)
                ));
                self.label("trait method");
                let call = if self.s.flip() { format!("via{h}(P{h}(1), x, y)") } else { format!("q{h}(P{h}(1), x, y)") };
                (call, Eff { bits, calls: vec![] })
            }
            11 => {
                let (b, bits) = self.prim();
                self.helpers += 1;
                self.decls.push_str(&format!(
                    "struct P{h}(int)\ntrait Q{h}<Self |-> ! E> {{ fn q{h}(v: Self, x: int, y: int) -> int ! E; }}\nimpl Q{h} for <Self = P{h} |-> ! E = {}> {{ fn q{h}(v: P{h}, x: int, y: int) -> int {{ {b} }} }}\nfn via{h}(v, x, y) {{ q{h}(v, x, y) }}\n",
                    bits_text(bits)
                ));
                self.label("trait output effect");
                let call = match self.s.below(3) {
                    0 => format!("via{h}(P{h}(1), x, y)"),
                    1 => format!("ap(|x| q{h}(P{h}(2), x, y), x)"),
                    _ => format!("q{h}(P{h}(1), x, y)"),
                };
                (call, Eff { bits, calls: vec![] })
            }
            12 => {
                // Known finding: nested loops in a closure.
                let (b, e) = self.expr(if lam { 0 } else { d - 1 }, lam);
                self.label("loop body");
                (format!("{{ let mut acc{d} = 0; for i{d} in 0..2 {{ acc{d} = acc{d} + {b}; }}; acc{d} }}"), e)
            }
            13 => {
                let (b, e) = self.expr(d - 1, lam);
                self.label("match arm");
                (format!("match x {{ 1 => 0, _ => {b} }}"), e)
            }
            14 => {
                let (b, e) = self.expr(d - 1, lam);
                self.label("short circuit");
                (format!("{{ if x > 100 or {b} > 0 {{ 1 }} else {{ 2 }} }}"), e)
            }
            15 if !lam => {
                // Known finding: not inside a closure.
                let (b, e) = self.expr(d - 1, true);
                self.label("map over an array");
                (format!("len(map([x, y], |x| {{ {b} }}))"), e)
            }
            16 => {
                let (b, e) = self.expr(d - 1, true);
                self.label("composition");
                (format!("comp(|x| {{ {b} }}, |z| z + 1)(x)"), e)
            }
            17 => {
                let (b, e) = self.expr(d - 1, true);
                self.label("effect variable twice");
                (format!("both(|x| {{ {b} }}, |z| z, x)"), e)
            }
            18 => {
                let (b, e) = self.expr(d - 1, lam);
                self.label("assigned");
                (format!("{{ let mut v{d} = 0; v{d} = {b}; v{d} }}"), e)
            }
            19 => {
                let (b, e) = self.expr(d - 1, true);
                self.label("closure in an option");
                (format!("match (Some(|x| {{ {b} }})) {{ Some(g{d}) => g{d}(y), None => 0 }}"), e)
            }
            20 => {
                let (b, e) = self.expr(d - 1, true);
                self.label("closure in a closure");
                (format!("(|x| (|x| {{ {b} }})(x + 1))(y)"), e)
            }
            21 => {
                let (a, mut e) = self.expr(d - 1, lam);
                let (b, f) = self.expr(d - 1, lam);
                e.join(&f);
                self.carried = before;
                (format!("({a} - {b})"), e)
            }
            _ => {
                let (b, bits) = self.prim();
                self.helpers += 1;
                self.decls.push_str(&format!("fn lf{h}(d, x: int, y: int) {{ {b} }}\n"));
                self.label("function through a variable");
                (format!("{{ let h{d} = lf{h}; h{d}(d - 1, x, y) }}"), Eff { bits, calls: vec![] })
            }
        }
    }
}

fn run(env: &mut Env, src: &mut Src) -> Case {
    if src.chance(1, 4) {
        return bounds(env, src);
    }
    let n = 1 + src.idx(4);
    let mut g = Gen { s: src, n, decls: String::new(), helpers: 0, carried: false, labels: vec![], used_generic: false };
    let mut effs: Vec<Eff> = vec![];
    let mut funs = String::new();
    for k in 0..n {
        let mut e = Eff::default();
        let mut body = String::new();
        for j in 0..1 + g.s.idx(2) {
            let (t, f) = g.expr(3, false);
            e.join(&f);
            body.push_str(&format!("    let r{j} = {t};\n"));
            if j == 0 {
                body.push_str("    let out = r0;\n");
            } else {
                body.push_str("    let out = out + r1;\n");
            }
        }
        let ann = g.s.flip();
        let p = if ann { "d: int, x: int, y: int" } else { "d, x, y" };
        funs.push_str(&format!("fn f{k}({p}) -> int {{\n    if d <= 0 {{ 0 }} else {{\n{body}    out\n    }}\n}}\n"));
        effs.push(e);
    }
    let labels = std::mem::take(&mut g.labels);
    let carried = g.carried;
    let decls = std::mem::take(&mut g.decls);
    let _ = g.used_generic;
    // What each function can do: the least fixed point over the calls.
    let mut need: Vec<u8> = effs.iter().map(|e| e.bits).collect();
    loop {
        let mut changed = false;
        for i in 0..n {
            for c in &effs[i].calls {
                let b = need[i] | need[*c];
                changed |= b != need[i];
                need[i] = b;
            }
        }
        if !changed {
            break;
        }
    }
    let k = src.idx(n);
    let y = *src.pick(&[0i64, 1, 2, 7, -1, 5]);
    let x = *src.pick(&[0i64, 1, 3, 4, -2]);
    let text = format!(
        "struct Held< ! E> {{ f: (int) -> int ! E, n: int }}\nfn ap(f, v) {{ f(v) }}\nfn ap3(f, d, x, y) {{ f(d, x, y) }}\nfn comp(f, g) {{ |v| f(g(v)) }}\nfn both(f, g, v) {{ f(v) + g(v) }}\n{decls}{funs}f{k}(3, {x}, {y})\n",
        x = crate::props::util::int_text(x),
        y = crate::props::util::int_text(y)
    );
    about_to_run(&text);
    env.rt.reset();
    let c = match env.rt.compile(&text) {
        Ok(c) => c,
        // Known findings: late effect reconstruction of closures with loops.
        Err(e) if e.kind == "Internal" => return Case::discard(text),
        Err(e) => return Case::fail(text, format!("rejected {}", e.kind), e.text),
    };
    let mut have = vec![];
    for i in 0..n {
        let Some(sig) = env.rt.signature(&c, &format!("f{i}")) else { return Case::fail(text, "no signature", format!("f{i}")) };
        let Some(b) = declared(&sig) else { return Case::fail(text, "signature", sig) };
        if need[i] & !b != 0 {
            return Case::fail(text, "effect missing", format!("f{i}: {sig} lacks {}", bits_text(need[i] & !b)));
        }
        have.push(b);
    }
    for mode in MODES {
        reset_host([1, 2, 3, 4], 5, vec![1, 2, 3]);
        let out = env.rt.run(&c, mode);
        let did = did(&out);
        if did & !have[k] != 0 {
            return Case::fail(text, "unannounced effect", format!("{mode:?}: f{k} does {} but declares {}", bits_text(did), bits_text(have[k])));
        }
    }
    Case::pass(text, carried && need.iter().any(|b| *b != 0)).with(labels)
}

fn did(out: &Out) -> u8 {
    let mut b = if matches!(out, Out::Fail(_)) { F } else { 0 };
    for e in take_host().trace {
        b |= match e {
            Ev::Get(_) | Ev::PropGet | Ev::ArrGet => R,
            Ev::Put(..) | Ev::Say(_) | Ev::Check(_) | Ev::PropSet(_) | Ev::ArrSet(_) => W,
            Ev::Swap(..) | Ev::Tick => R | W,
        };
    }
    b
}

/// A declared bound: accepted when the body keeps to it, rejected when it does not.
fn bounds(env: &mut Env, s: &mut Src) -> Case {
    let bound = s.below(8) as u8;
    let b = bits_text(bound);
    let n = 1;
    let (mut t, bits) = {
        let mut g = Gen { s, n, decls: String::new(), helpers: 0, carried: false, labels: vec![], used_generic: false };
        g.prim()
    };
    let s = &mut *s;
    // Known finding: not with effects that arrive through an effect variable.
    let wrap = s.below(6);
    match wrap {
        0 => t = format!("{{ let mut g = 0; g = {t}; g }}"),
        1 => t = format!("{{ let mut g = 0; for i in 0..2 {{ g = g + {t}; }}; g }}"),
        2 => t = format!("(if x > 3 {{ {t} }} else {{ 0 }})"),
        3 => t = format!("({t} + 1)"),
        _ => {}
    }
    // Known finding: no arrays of functions of a declared effect (form 7).
    let form = s.idx(7);
    let prog = match form {
        0 => format!("fn h(f: (int) -> int ! {b}, v: int) -> int {{ f(v) }}\nfn go(x: int, y: int) -> int {{ h(|x| {{ {t} }}, x) }}\n"),
        1 => format!("fn h(f: (int, int) -> int ! {b}) -> int {{ f(1, 2) }}\nfn p(x: int, y: int) -> int {{ {t} }}\nfn go(x: int, y: int) -> int {{ h(p) }}\n"),
        2 => format!("fn go(x: int, y: int) -> int {{ let f: (int) -> int ! {b} = |x| {{ {t} }}; f(x) }}\n"),
        3 => format!("struct S {{ f: (int) -> int ! {b} }}\nfn go(x: int, y: int) -> int {{ let w = S {{ f: |x| {{ {t} }} }}; (w.f)(x) }}\n"),
        4 => format!("struct P(int)\ntrait Q<Self> {{ fn q(v: Self, x: int, y: int) -> int ! {b}; }}\nimpl Q for P {{ fn q(v: P, x: int, y: int) -> int {{ {t} }} }}\nfn go(x: int, y: int) -> int {{ q(P(1), x, y) }}\n"),
        5 => format!("struct P(int)\ntrait Q<Self |-> ! E> {{ fn q(v: Self, x: int, y: int) -> int ! E; }}\nimpl Q for <Self = P |-> ! E = {b}> {{ fn q(v: P, x: int, y: int) -> int {{ {t} }} }}\nfn go(x: int, y: int) -> int {{ q(P(1), x, y) }}\n"),
        6 => format!("enum S {{ A((int) -> int ! {b}), B }}\nfn go(x: int, y: int) -> int {{ match (S::A(|x| {{ {t} }})) {{ A(f) => f(x), B => 0 }} }}\n"),
        _ => format!("fn h(fs: [(int) -> int ! {b}], v: int) -> int {{ fs[0](v) }}\nfn p(x: int) -> int {{ let y = 2; {t} }}\nfn go(x: int, y: int) -> int {{ h([p], x) }}\n"),
    };
    let text = format!("fn ap(f, v) {{ f(v) }}\n{prog}go(1, 2)\n");
    about_to_run(&text);
    env.rt.reset();
    let ok = bits & !bound == 0;
    match env.rt.compile(&text) {
        // Known finding: loops leave effect variables behind.
        Err(_) if ok && wrap == 1 => Case::discard(text),
        Err(e) if ok => Case::fail(text, format!("rejected {}", e.kind), e.text),
        Err(e) if !e.kind.contains("Effect") => Case::fail(text, "rejected for another reason", e.text),
        Err(_) => Case::pass(text, true).with(vec!["bound exceeded"]),
        Ok(_) if !ok => Case::fail(text, "accepted", format!("the body does {} but only {b} is declared", bits_text(bits))),
        Ok(c) => {
            for mode in MODES {
                reset_host([1, 2, 3, 4], 5, vec![1, 2, 3]);
                let out = env.rt.run(&c, mode);
                let d = did(&out);
                // Indexing the array of functions may fail as well.
                if d & !(bound | F) != 0 || (form != 7 && d & !bound != 0) {
                    return Case::fail(text, "unannounced effect", format!("{mode:?} does {} but {b} is declared", bits_text(d)));
                }
            }
            Case::pass(text, true).with(vec!["bound kept"])
        }
    }
}
