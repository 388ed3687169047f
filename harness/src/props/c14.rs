//! Numbers: generated expressions over every numeric function against Rust's own arithmetic.
use crate::choice::Src;
use crate::driver::{Case, Prop};
use crate::props::Env;
use crate::props::util::{expect, kind};
use crate::rt::{Out, RV};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "a literal, or at least three expressions with at least four operations in all, none of which fails before the last",
        assumptions: &["transcendental functions are compared with the same mathematical library that ferlium links"],
        quick: 40_000,
        thorough: 1_500_000,
        batch: 200,
        case_secs: 20,
        hang_ok: false,
        prepare: |env| env.rt.with_host = true,
        run,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    I,
    F,
    B,
    S,
}
#[derive(Clone, Debug)]
enum V {
    I(i64),
    F(f64),
    B(bool),
    S(String),
}
impl V {
    fn i(&self) -> i64 {
        if let V::I(i) = self { *i } else { unreachable!() }
    }
    fn f(&self) -> f64 {
        if let V::F(i) = self { *i } else { unreachable!() }
    }
    fn rv(&self) -> RV {
        match self {
            V::I(i) => RV::Int(*i),
            V::F(f) => RV::Float(f.to_bits()),
            V::B(b) => RV::Bool(*b),
            V::S(s) => RV::Str(s.clone()),
        }
    }
}
type R = Result<V, &'static str>;
const BAD: &str = "InvalidArgument";

fn sat(v: f64) -> V {
    V::F(if v.is_finite() { v } else { f64::MAX.copysign(v) })
}
fn fin(v: f64) -> R {
    if v.is_nan() { Err(BAD) } else if v.is_finite() { Ok(V::F(v)) } else { Err(BAD) }
}
fn shl(v: i64, n: i64) -> i64 {
    let amount = |n: i64| (n.min(u32::MAX as i64) as u32) & 63;
    if n >= 0 { ((v as u64) << amount(n)) as i64 } else { v >> amount(n.checked_neg().unwrap_or(i64::MAX)) }
}
fn shr(v: i64, n: i64) -> i64 {
    let amount = |n: i64| (n.min(u32::MAX as i64) as u32) & 63;
    if n >= 0 { v >> amount(n) } else { ((v as u64) << amount(n.checked_neg().unwrap_or(i64::MAX))) as i64 }
}
fn rot(v: i64, n: i64) -> i64 {
    // Left by n; a count beyond 32 bits is clamped like a shift count.
    let m = if n >= 0 { (n.min(u32::MAX as i64) % 64) as u32 } else { 64 - (n.checked_neg().unwrap_or(i64::MAX).min(u32::MAX as i64) % 64) as u32 };
    let (u, m) = (v as u64, m % 64);
    if m == 0 { v } else { ((u << m) | (u >> (64 - m))) as i64 }
}
fn bit(p: i64) -> i64 {
    if (0..64).contains(&p) { (1u64 << p) as i64 } else { 0 }
}
fn wrap(v: i128) -> V {
    V::I(v as i64)
}

const I2: [&str; 21] = [
    "+", "-", "*", "bit_and", "bit_or", "bit_xor", "shift_left", "shift_right", "rotate_left", "rotate_right", "set_bit",
    "clear_bit", "min", "max", "idiv", "idiv_euclid", "rem", "mod", "sub", "add", "mul",
];
const I1: [&str; 7] = ["-", "abs", "signum", "bit_not", "count_ones", "count_zeros", "bit"];
const F2: [&str; 8] = ["+", "-", "*", "/", "min", "max", "atan2", "pow"];
const F1: [&str; 20] = [
    "-", "abs", "signum", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp",
    "log", "sqrt", "neg", "abs",
];
const CMP: [&str; 6] = ["<", "<=", ">", ">=", "==", "!="];

fn int2(op: &str, a: i64, b: i64) -> R {
    let (x, y) = (a as i128, b as i128);
    Ok(match op {
        "+" | "add" => wrap(x + y),
        "-" | "sub" => wrap(x - y),
        "*" | "mul" => wrap(x * y),
        "bit_and" => V::I(a & b),
        "bit_or" => V::I(a | b),
        "bit_xor" => V::I(a ^ b),
        "shift_left" => V::I(shl(a, b)),
        "shift_right" => V::I(shr(a, b)),
        "rotate_left" => V::I(rot(a, b)),
        "rotate_right" => V::I(if b == i64::MIN { rot(a, i64::MAX) } else { rot(a, -b) }),
        "set_bit" => V::I(a | bit(b)),
        "clear_bit" => V::I(a & !bit(b)),
        "min" => V::I(a.min(b)),
        "max" => V::I(a.max(b)),
        "idiv" if b == 0 => return Err("DivisionByZero"),
        "idiv_euclid" if b == 0 => return Err("DivisionByZero"),
        "rem" | "mod" if b == 0 => return Err("RemainderByZero"),
        "idiv" => wrap(x / y),
        "rem" => wrap(x % y),
        "mod" => wrap(((x % y) + y.abs()) % y.abs()),
        "idiv_euclid" => wrap((x - ((x % y) + y.abs()) % y.abs()) / y),
        _ => unreachable!(),
    })
}
fn int1(op: &str, a: i64) -> V {
    match op {
        "-" => wrap(-(a as i128)),
        "abs" => wrap((a as i128).abs()),
        "signum" => V::I((a > 0) as i64 - (a < 0) as i64),
        "bit_not" => V::I(-1 - a),
        "count_ones" => V::I((0..64).filter(|i| a & bit(*i) != 0).count() as i64),
        "count_zeros" => V::I((0..64).filter(|i| a & bit(*i) == 0).count() as i64),
        "bit" => V::I(bit(a)),
        _ => unreachable!(),
    }
}
fn float2(op: &str, a: f64, b: f64) -> R {
    Ok(match op {
        "+" => sat(a + b),
        "-" => sat(a - b),
        "*" => sat(a * b),
        "/" if b == 0.0 => return Err("DivisionByZero"),
        "/" => sat(a / b),
        // Of equal operands either may be given; only the zeros can be told apart.
        "min" => V::F(if a < b { a } else { b }),
        "max" => V::F(if a > b { a } else { b }),
        "atan2" => sat(a.atan2(b)),
        "pow" => {
            let r = a.powf(b);
            if r.is_nan() { return Err(BAD) } else { sat(r) }
        }
        _ => unreachable!(),
    })
}
fn float1(op: &str, a: f64) -> R {
    Ok(match op {
        "-" | "neg" => V::F(-a),
        "abs" => V::F(a.abs()),
        "signum" => V::F(a.signum()),
        "sin" => sat(a.sin()),
        "cos" => sat(a.cos()),
        "tan" => sat(a.tan()),
        "asin" => return fin(a.asin()),
        "acos" => return fin(a.acos()),
        "atan" => sat(a.atan()),
        "sinh" => sat(a.sinh()),
        "cosh" => sat(a.cosh()),
        "tanh" => sat(a.tanh()),
        "asinh" => sat(a.asinh()),
        "acosh" => return fin(a.acosh()),
        "atanh" => return fin(a.atanh()),
        "exp" => sat(a.exp()),
        "log" => return fin(a.ln()),
        "sqrt" => return fin(a.sqrt()),
        _ => unreachable!(),
    })
}
/// Truncates towards zero and saturates.
fn to_int(a: f64) -> i64 {
    let t = a.trunc();
    if t >= 9_223_372_036_854_775_808.0 {
        i64::MAX
    } else if t < -9_223_372_036_854_775_808.0 {
        i64::MIN
    } else {
        t as i128 as i64
    }
}

struct Gen<'a> {
    s: &'a mut Src,
    params: Vec<(T, V)>,
    ops: usize,
    labels: Vec<&'static str>,
}

pub fn int_lit(v: i64) -> String {
    if v == i64::MIN {
        "(-9223372036854775807 - 1)".into()
    } else if v < 0 {
        format!("(-{})", v.unsigned_abs())
    } else {
        v.to_string()
    }
}
/// A float as a literal where the grammar has one, else from its bits.
pub fn float_lit(v: f64) -> String {
    let a = v.abs();
    let text = format!("{a:?}");
    let ok = a < 9e18 && !text.contains('e') && {
        let (i, f) = text.split_once('.').unwrap_or((&text, "0"));
        (f == "0" || !f.starts_with('0')) && f.len() < 19 && !i.is_empty()
    };
    if !ok {
        format!("host::fl({})", int_lit(v.to_bits() as i64))
    } else if v.is_sign_negative() {
        format!("(-{text})")
    } else {
        text
    }
}
pub fn float_value(s: &mut Src) -> f64 {
    match s.weighted(&[6, 5, 4, 2, 2]) {
        0 => s.range(0, 4) as f64,
        1 => s.range(-20, 20) as f64 / 4.0,
        2 => {
            const E: [f64; 24] = [
                0.5, -0.0, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e-10, 9_223_372_036_854_775_807.0,
                -9_223_372_036_854_775_808.0, 9_223_372_036_854_774_784.0, 4_503_599_627_370_497.5, 0.49999999999999994, 2.5, -2.5, 1.0000000000000002, 709.0, 710.0, -0.5,
                1e19, -1e19, 0.1, 1e-320,
            ];
            *s.pick(&E)
        }
        3 => s.int() as f64,
        _ => {
            let v = f64::from_bits(s.raw());
            if v.is_finite() { v } else { 1.5 }
        }
    }
}

impl Gen<'_> {
    fn see(&mut self, l: &'static str) {
        self.ops += 1;
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn leaf(&mut self, t: T) -> (String, V) {
        let c: Vec<usize> = (0..self.params.len()).filter(|i| self.params[*i].0 == t).collect();
        if !c.is_empty() && self.s.chance(3, 5) {
            let i = *self.s.pick(&c);
            return (format!("p{i}"), self.params[i].1.clone());
        }
        self.lit(t)
    }
    fn lit(&mut self, t: T) -> (String, V) {
        match t {
            T::I => {
                let v = self.s.int();
                let text = match self.s.below(8) {
                    0 if v >= 0 => format!("0x{v:x}"),
                    1 if v >= 0 => format!("0b{v:b}"),
                    2 if v >= 0 => format!("0x{v:X}"),
                    _ => int_lit(v),
                };
                (text, V::I(v))
            }
            T::F => {
                let v = float_value(self.s);
                (float_lit(v), V::F(v))
            }
            T::B => {
                let b = self.s.flip();
                (b.to_string(), V::B(b))
            }
            T::S => ("\"\"".into(), V::S(String::new())),
        }
    }
    /// Expression text and what it evaluates to.
    fn expr(&mut self, t: T, d: u32) -> (String, R) {
        if d == 0 && t != T::S && t != T::B {
            let (a, v) = self.leaf(t);
            return (a, Ok(v));
        }
        let d1 = d.saturating_sub(1);
        match t {
            T::I => match self.s.weighted(&[3, 8, 3, 1, 2, 1]) {
                0 => {
                    let (a, v) = self.leaf(T::I);
                    (a, Ok(v))
                }
                1 => {
                    let op = *self.s.pick(&I2);
                    self.see(op);
                    let (a, x) = self.expr(T::I, d1);
                    let (b, y) = self.expr(T::I, d1);
                    let v = x.and_then(|x| y.and_then(|y| int2(op, x.i(), y.i())));
                    (if op.len() == 1 { format!("({a} {op} {b})") } else { format!("{op}({a}, {b})") }, v)
                }
                2 => {
                    let op = *self.s.pick(&I1);
                    self.see(op);
                    let (a, x) = self.expr(T::I, d1);
                    let v = x.map(|x| int1(op, x.i()));
                    (if op == "-" { format!("(-({a}))") } else if op == "bit" { format!("(bit({a}): int)") } else { format!("{op}({a})") }, v)
                }
                3 => {
                    self.see("clamp");
                    let (a, x) = self.expr(T::I, d1);
                    let (p, q) = (self.s.range(-100, 100), self.s.range(-100, 100));
                    let (lo, hi) = (p.min(q), p.max(q));
                    (format!("clamp({a}, {}, {})", int_lit(lo), int_lit(hi)), x.map(|x| V::I(x.i().clamp(lo, hi))))
                }
                4 => {
                    let op = *self.s.pick(&["round", "floor", "ceil", "as int"]);
                    self.see(op);
                    let (a, x) = self.expr(T::F, d1);
                    let v = x.map(|x| {
                        let x = x.f();
                        V::I(to_int(match op {
                            "round" => x.round(),
                            "floor" => x.floor(),
                            "ceil" => x.ceil(),
                            _ => x,
                        }))
                    });
                    (if op == "as int" { format!("(({a}) as int)") } else { format!("{op}({a})") }, v)
                }
                _ => {
                    self.see("conditional");
                    let (c, k) = self.expr(T::B, d1);
                    let (a, x) = self.expr(T::I, d1);
                    let (b, y) = self.expr(T::I, d1);
                    let v = k.and_then(|k| if matches!(k, V::B(true)) { x } else { y });
                    (format!("(if {c} {{ {a} }} else {{ {b} }})"), v)
                }
            },
            T::F => match self.s.weighted(&[3, 8, 5, 2]) {
                0 => {
                    let (a, v) = self.leaf(T::F);
                    (a, Ok(v))
                }
                1 => {
                    let op = *self.s.pick(&F2);
                    self.see(match op {
                        "+" => "float +",
                        "-" => "float -",
                        "*" => "float *",
                        o => o,
                    });
                    let (a, x) = self.expr(T::F, d1);
                    let (b, y) = self.expr(T::F, d1);
                    let v = x.and_then(|x| y.and_then(|y| float2(op, x.f(), y.f())));
                    (if op.len() == 1 { format!("({a} {op} {b})") } else { format!("{op}({a}, {b})") }, v)
                }
                2 => {
                    let op = *self.s.pick(&F1);
                    self.see(op);
                    let (a, x) = self.expr(T::F, d1);
                    let v = x.and_then(|x| float1(op, x.f()));
                    (if op == "-" { format!("(-({a}))") } else { format!("{op}({a})") }, v)
                }
                _ => {
                    self.see("as float");
                    let (a, x) = self.expr(T::I, d1);
                    (format!("((({a}): int) as float)"), x.map(|x| V::F(x.i() as f64)))
                }
            },
            T::B => match self.s.weighted(&[2, 2, 1, 1]) {
                0 => {
                    let op = *self.s.pick(&CMP);
                    self.see(op);
                    let (a, x) = self.expr(T::I, d1);
                    let (b, y) = self.expr(T::I, d1);
                    let v = x.and_then(|x| y.map(|y| V::B(cmp(op, x.i().cmp(&y.i())))));
                    (format!("({a} {op} {b})"), v)
                }
                1 => {
                    let op = *self.s.pick(&CMP);
                    self.see(op);
                    let (a, x) = self.expr(T::F, d1);
                    let (b, y) = self.expr(T::F, d1);
                    let v = x.and_then(|x| y.map(|y| V::B(cmp(op, x.f().partial_cmp(&y.f()).unwrap()))));
                    (format!("({a} {op} {b})"), v)
                }
                2 => {
                    self.see("test_bit");
                    let (a, x) = self.expr(T::I, d1);
                    let (b, y) = self.expr(T::I, d1);
                    let v = x.and_then(|x| y.map(|y| V::B(x.i() & bit(y.i()) != 0)));
                    (format!("test_bit({a}, {b})"), v)
                }
                _ => {
                    let (a, v) = self.leaf(T::B);
                    (a, Ok(v))
                }
            },
            T::S => {
                self.see("to_string");
                let t = if self.s.flip() { T::F } else { T::I };
                let (a, x) = self.expr(t, d1);
                let v = x.map(|x| {
                    V::S(match x {
                        V::I(i) => i.to_string(),
                        V::F(f) => f.to_string(),
                        _ => unreachable!(),
                    })
                });
                (format!("to_string({a})"), v)
            }
        }
    }
}
fn cmp(op: &str, o: std::cmp::Ordering) -> bool {
    match op {
        "<" => o.is_lt(),
        "<=" => o.is_le(),
        ">" => o.is_gt(),
        ">=" => o.is_ge(),
        "==" => o.is_eq(),
        _ => o.is_ne(),
    }
}

/// A numeric literal denotes exactly its value, or the program is rejected.
fn literal(env: &mut Env, s: &mut Src) -> Case {
    let digits = |s: &mut Src, set: &[u8], n: usize| -> String { (0..n).map(|_| *s.pick(set) as char).collect() };
    let near = |s: &mut Src| -> u128 {
        match s.below(4) {
            0 => s.raw() as u128,
            1 => (1u128 << 63) - 4 + s.below(8) as u128,
            2 => (1u128 << 64) - 4 + s.below(8) as u128,
            _ => 1u128 << s.below(100),
        }
    };
    let (text, want) = match s.below(5) {
        0 => {
            let v = near(s);
            (v.to_string(), i64::try_from(v).ok().map(RV::Int))
        }
        1 => {
            let v = near(s);
            (if s.flip() { format!("0x{v:x}") } else { format!("0x{v:X}") }, i64::try_from(v).ok().map(RV::Int))
        }
        2 => {
            let v = near(s);
            let zeros = s.idx(4);
            (format!("0b{}{v:b}", "0".repeat(zeros)), i64::try_from(v).ok().map(RV::Int))
        }
        3 => {
            let zeros = s.idx(3);
            let n = 1 + s.idx(18);
            let d = format!("{}{}", "0".repeat(zeros), digits(s, b"0123456789abcdefABCDEF", n));
            (format!("0x{d}"), i64::from_str_radix(&d, 16).ok().map(RV::Int))
        }
        _ => {
            let (n, m) = (1 + s.idx(20), 1 + s.idx(22));
            let (a, b) = (digits(s, b"1203456789", n), digits(s, b"5012346789", m));
            let t = format!("{a}.{b}");
            let v = t.parse::<f64>().unwrap();
            (t, Some(RV::Float(v.to_bits())))
        }
    };
    let neg = s.flip();
    let want = want.map(|w| match w {
        RV::Int(i) if neg => RV::Int(-i),
        RV::Float(f) if neg => RV::Float((-f64::from_bits(f)).to_bits()),
        w => w,
    });
    let text = if neg { format!("-{text}") } else { text };
    crate::driver::about_to_run(&text);
    env.rt.reset();
    match env.rt.compile(&text) {
        Err(_) => Case::pass(text, true).with(vec!["literal rejected"]),
        Ok(c) => {
            let got = env.rt.run(&c, crate::rt::Mode::Hir);
            match &want {
                Some(w) if Out::Val(w.clone()) == got => Case::pass(text, true).with(vec!["literal"]),
                // The least integer has no literal of its own.
                _ => Case::fail(text, "literal", format!("accepted, giving {}", got.show())),
            }
        }
    }
}

fn run(env: &mut Env, src: &mut Src) -> Case {
    if src.chance(1, 16) {
        return literal(env, src);
    }
    let mut g = Gen { s: src, params: vec![], ops: 0, labels: vec![] };
    let np = g.s.idx(6);
    let mut args = vec![];
    for _ in 0..np {
        let t = if g.s.flip() { T::F } else { T::I };
        let (text, v) = g.lit(t);
        args.push(text);
        g.params.push((t, v));
    }
    let n = 1 + g.s.idx(5);
    let mut parts = vec![];
    let mut want: Result<Vec<RV>, &'static str> = Ok(vec![]);
    for _ in 0..n {
        let t = *g.s.pick(&[T::I, T::F, T::I, T::F, T::B, T::S]);
        let depth = 1 + g.s.idx(4) as u32;
        let (mut text, mut v) = g.expr(t, depth);
        // Most cases should get past the first expression.
        for _ in 0..3 {
            if v.is_ok() || g.s.chance(1, 10) {
                break;
            }
            (text, v) = g.expr(t, depth);
        }
        let ty = match t {
            T::I => "int",
            T::F => "float",
            T::B => "bool",
            T::S => "string",
        };
        parts.push(format!("({text}: {ty})"));
        if let Ok(w) = &mut want {
            match v {
                Ok(v) => w.push(v.rv()),
                Err(e) => want = Err(e),
            }
        }
    }
    let params: Vec<String> = g
        .params
        .iter()
        .enumerate()
        .map(|(i, (t, _))| format!("p{i}: {}", if *t == T::I { "int" } else { "float" }))
        .collect();
    let never = if g.s.flip() { "#[inline(never)]\n" } else { "" };
    let text = format!("{never}fn f({}) {{\n  ({}, 0)\n}}\nf({})\n", params.join(", "), parts.join(",\n   "), args.join(", "));
    let ok = want.is_ok();
    let want = match want {
        Ok(mut w) => {
            w.push(RV::Int(0));
            Out::Val(RV::Tuple(w))
        }
        Err(e) => Out::Fail(kind(e).into()),
    };
    let (ops, labels) = (g.ops, g.labels);
    // No float may be infinite or not a number; the model never produces one either.
    match expect(env, &text, &want) {
        Ok(_) => Case::pass(text, n >= 3 && ops >= 4 && ok).with(labels),
        Err(c) => c,
    }
}
