//! Mutation never shows through another binding: comparison with a model in which values are trees, and
//! the rejection of writes to immutable bindings and of overlapping mutable arguments.
use crate::choice::Src;
use crate::driver::{Case, Prop, about_to_run};
use crate::gen_::{Feats, G};
use crate::host::HostState;
use crate::model::Interp;
use crate::props::Env;
use crate::props::util;
use crate::rt::{MODES, Out, RV};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "the program was accepted and ran to its end with at least two bindings alive, or was one that must be rejected",
        assumptions: &[],
        quick: 1500,
        thorough: 300_000,
        batch: 100,
        case_secs: 20,
        hang_ok: true,
        prepare: |env| env.rt.with_host = true,
        run,
    }
}

/// A value as a tree, with the text of the type it is written at.
#[derive(Clone, PartialEq, Debug)]
enum V {
    Int(i64),
    Str(String),
    Arr(Vec<V>),
    Tup(Vec<V>),
    /// struct S{k}: two named fields b, a (declared in that order)
    St(usize, Vec<V>),
    Some(Box<V>),
    None,
}
#[derive(Clone, PartialEq, Debug)]
enum T {
    Int,
    Str,
    Arr(Box<T>),
    Tup(Vec<T>),
    St(usize),
    Opt(Box<T>),
}

struct Prog<'a> {
    s: &'a mut Src,
    structs: Vec<Vec<T>>,
    vars: Vec<(String, T, V, bool)>,
    /// (name, captured variables and their values at capture, the index of the one it updates)
    lambdas: Vec<(String, usize, V, Step)>,
    out: String,
    fns: String,
    n: usize,
    shared: usize,
}
/// One projection step.
#[derive(Clone, Debug)]
enum P {
    Idx(i64),
    Fld(usize),
    Name(usize),
}
type Step = Vec<P>;

const FIELDS: [&str; 3] = ["b", "a", "c"];

impl Prog<'_> {
    fn ty(&mut self, d: u32) -> T {
        if d == 0 {
            return if self.s.chance(1, 4) { T::Str } else { T::Int };
        }
        match self.s.weighted(&[1, 1, 5, 3, if self.structs.is_empty() { 0 } else { 3 }, 2]) {
            0 => T::Int,
            1 => T::Str,
            2 => T::Arr(Box::new(self.ty(d - 1))),
            3 => {
                let n = 2 + self.s.idx(2);
                T::Tup((0..n).map(|_| self.ty(d - 1)).collect())
            }
            4 => T::St(self.s.idx(self.structs.len())),
            _ => T::Opt(Box::new(self.ty(d - 1))),
        }
    }
    fn tt(&self, t: &T) -> String {
        match t {
            T::Int => "int".into(),
            T::Str => "string".into(),
            T::Arr(e) => format!("[{}]", self.tt(e)),
            T::Tup(v) => format!("({})", v.iter().map(|t| self.tt(t)).collect::<Vec<_>>().join(", ")),
            T::St(k) => format!("S{k}"),
            T::Opt(e) => format!("Option<{}>", self.tt(e)),
        }
    }
    fn val(&mut self, t: &T) -> V {
        match t {
            T::Int => V::Int(self.s.range(0, 9)),
            T::Str => V::Str(self.s.pick(&["a", "bc", "", "xyz"]).to_string()),
            T::Arr(e) => {
                let n = self.s.len(1, 3);
                V::Arr((0..n).map(|_| self.val(e)).collect())
            }
            T::Tup(v) => V::Tup(v.iter().map(|t| self.val(t)).collect()),
            T::St(k) => {
                let fs = self.structs[*k].clone();
                V::St(*k, fs.iter().map(|t| self.val(t)).collect())
            }
            T::Opt(e) => {
                if self.s.chance(1, 5) {
                    V::None
                } else {
                    V::Some(Box::new(self.val(e)))
                }
            }
        }
    }
    fn vt(v: &V) -> String {
        let list = |v: &[V]| v.iter().map(Self::vt).collect::<Vec<_>>().join(", ");
        match v {
            V::Int(i) => i.to_string(),
            V::Str(s) => format!("\"{s}\""),
            V::Arr(v) => format!("[{}]", list(v)),
            V::Tup(v) => format!("({})", list(v)),
            V::St(k, v) => {
                format!("S{k} {{ {} }}", v.iter().enumerate().map(|(i, v)| format!("{}: {}", FIELDS[i], Self::vt(v))).collect::<Vec<_>>().join(", "))
            }
            V::Some(v) => format!("Some({})", Self::vt(v)),
            V::None => "None".into(),
        }
    }
    /// A place inside a variable, at most four steps deep.
    fn path(&mut self, t: &T, v: &V) -> (Step, T) {
        let (mut t, mut v) = (t.clone(), v.clone());
        let mut path = vec![];
        for _ in 0..4 {
            if self.s.chance(1, 5) {
                break;
            }
            match (t.clone(), v.clone()) {
                (T::Arr(e), V::Arr(items)) if !items.is_empty() => {
                    let i = self.s.idx(items.len());
                    let neg = self.s.chance(1, 4);
                    path.push(P::Idx(if neg { i as i64 - items.len() as i64 } else { i as i64 }));
                    t = *e;
                    v = items[i].clone();
                }
                (T::Tup(ts), V::Tup(items)) => {
                    let i = self.s.idx(items.len());
                    path.push(P::Fld(i));
                    t = ts[i].clone();
                    v = items[i].clone();
                }
                (T::St(k), V::St(_, items)) => {
                    let i = self.s.idx(items.len());
                    path.push(P::Name(i));
                    t = self.structs[k][i].clone();
                    v = items[i].clone();
                }
                _ => break,
            }
        }
        (path, t)
    }
    fn pt(path: &Step) -> String {
        path.iter()
            .map(|p| match p {
                P::Idx(i) if *i < 0 => format!("[({i})]"),
                P::Idx(i) => format!("[{i}]"),
                P::Fld(i) => format!(".{i}"),
                P::Name(i) => format!(".{}", FIELDS[*i]),
            })
            .collect()
    }
    fn at<'v>(v: &'v mut V, path: &[P]) -> &'v mut V {
        let Some((p, rest)) = path.split_first() else { return v };
        let next = match (v, p) {
            (V::Arr(items), P::Idx(i)) => {
                let n = items.len() as i64;
                &mut items[(if *i < 0 { *i + n } else { *i }) as usize]
            }
            (V::Tup(items), P::Fld(i)) => &mut items[*i],
            (V::St(_, items), P::Name(i)) => &mut items[*i],
            (v, p) => panic!("model: {p:?} of {v:?}"),
        };
        Self::at(next, rest)
    }
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }
    fn line(&mut self, l: String) {
        self.out.push_str("    ");
        self.out.push_str(&l);
        self.out.push('\n');
    }
    /// Declares a variable of the value of `e`.
    fn bind(&mut self, t: T, v: V, e: String) {
        let name = self.fresh("v");
        let mutable = !self.s.chance(1, 6);
        let m = if mutable { "mut " } else { "" };
        // The type is written out unless it is a plain number: a known defect concerns literals of several numeric types.
        let plain = !matches!(v, V::Tup(_) | V::St(..) | V::Arr(_));
        let l = if plain && self.s.chance(1, 2) { format!("let {m}{name} = {e};") } else { format!("let {m}{name}: {} = {e};", self.tt(&t)) };
        // An untyped empty array or None would leave the element type open.
        let l = if Self::open(&v) { format!("let {m}{name}: {} = {e};", self.tt(&t)) } else { l };
        self.line(l);
        self.vars.push((name, t, v, mutable));
    }
    fn open(v: &V) -> bool {
        match v {
            V::Arr(v) => v.is_empty() || v.iter().any(Self::open),
            V::None | V::Some(_) => true,
            V::Tup(v) | V::St(_, v) => v.iter().any(Self::open),
            _ => false,
        }
    }
    /// Somewhere a value of this type stands, as an expression, and the value.
    fn existing(&mut self, want: &T) -> Option<(String, V)> {
        let mut found = vec![];
        for _ in 0..6 {
            if self.vars.is_empty() {
                return None;
            }
            let i = self.s.idx(self.vars.len());
            let (name, t, v, _) = self.vars[i].clone();
            let (p, t2) = self.path(&t, &v);
            if t2 == *want {
                found.push((format!("{name}{}", Self::pt(&p)), Self::at(&mut v.clone(), &p).clone()));
                break;
            }
        }
        found.pop()
    }
    /// An expression of the type, mostly a copy of something that exists, perhaps through a function.
    fn source(&mut self, t: &T) -> (String, V) {
        if let Some((e, v)) = (if self.s.chance(4, 5) { self.existing(t) } else { None }) {
            self.shared += 1;
            return match self.s.below(7) {
                0 => {
                    let f = self.fresh("id");
                    self.fns.push_str(&format!("fn {f}(x) {{ x }}\n"));
                    (format!("{f}({e})"), v)
                }
                1 => {
                    let f = self.fresh("keep");
                    let tt = self.tt(t);
                    self.fns.push_str(&format!("fn {f}(x: {tt}) -> {tt} {{ let y = x; y }}\n"));
                    (format!("{f}({e})"), v)
                }
                2 => (format!("(({e}, 0)).0"), v),
                3 => (format!("{{ let t = {e}; t }}"), v),
                4 => (format!("if host::twice(1) == 2 {{ {e} }} else {{ {} }}", Self::vt(&v)), v),
                5 => (format!("[{e}][0]"), v),
                _ => (e, v),
            };
        }
        let v = self.val(t);
        (Self::vt(&v), v)
    }
    fn mutable_var(&mut self) -> Option<usize> {
        let m: Vec<usize> = (0..self.vars.len()).filter(|i| self.vars[*i].3).collect();
        if m.is_empty() { None } else { Some(m[self.s.idx(m.len())]) }
    }
    /// One change at a place of a variable.
    fn change(&mut self) {
        let Some(i) = self.mutable_var() else { return };
        let (name, t, v, _) = self.vars[i].clone();
        let (p, t2) = self.path(&t, &v);
        let place = format!("{name}{}", Self::pt(&p));
        let mut now = v.clone();
        let slot = Self::at(&mut now, &p);
        match (&t2, self.s.below(6)) {
            (T::Arr(e), 0..=2) => {
                let e = (**e).clone();
                let (x, xv) = self.source(&e);
                if self.s.flip() {
                    let f = self.fresh("push");
                    self.fns.push_str(&format!("fn {f}(a, x) {{ array_append(a, x) }}\n"));
                    self.line(format!("{f}({place}, {x});"));
                } else {
                    self.line(format!("array_append({place}, {x});"));
                }
                let V::Arr(items) = slot else { unreachable!() };
                if items.len() < 8 {
                    items.push(xv);
                } else {
                    // Too long to go on with: cut it again.
                    items.push(xv);
                    items.remove(0);
                    let r = self.fresh("r");
                    self.line(format!("let {r} = array_pop_front({place});"));
                }
            }
            (T::Int, 0..=1) => {
                self.line(format!("{place} += 1;"));
                let V::Int(n) = slot else { unreachable!() };
                *n += 1;
            }
            (T::Int, 2) => {
                let f = self.fresh("bump");
                self.fns.push_str(&format!("fn {f}(x: &mut int) {{ x = x * 2 }}\n"));
                self.line(format!("{f}({place});"));
                let V::Int(n) = slot else { unreachable!() };
                *n *= 2;
            }
            (T::Str, 0..=2) => {
                self.line(format!("string_push_str({place}, \"z\");"));
                let V::Str(s) = slot else { unreachable!() };
                s.push('z');
            }
            (_, 3) => {
                let f = self.fresh("set");
                let tt = self.tt(&t2);
                self.fns.push_str(&format!("fn {f}(x: &mut {tt}, y: {tt}) {{ x = y }}\n"));
                let (e, ev) = self.source(&t2);
                self.line(format!("{f}({place}, {e});"));
                *slot = ev;
            }
            _ => {
                let (e, ev) = self.source(&t2);
                self.line(format!("{place} = {e};"));
                *slot = ev;
            }
        }
        self.vars[i].2 = now;
    }
    /// A closure that captures a copy, changes its own copy at a place, and returns it.
    fn lambda(&mut self) {
        if self.vars.is_empty() {
            return;
        }
        let i = self.s.idx(self.vars.len());
        let (name, t, v, _) = self.vars[i].clone();
        let (p, t2) = self.path(&t, &v);
        let f = self.fresh("f");
        let nv = if t2 == T::Int { V::Int(77) } else { self.val(&t2) };
        self.line(format!("let {f} = || {{ let mut c = {name}; c{} = {}; c }};", Self::pt(&p), Self::vt(&nv)));
        let mut got = v.clone();
        *Self::at(&mut got, &p) = nv;
        self.lambdas.push((f, i, got, p));
    }
    fn call_lambda(&mut self) {
        if self.lambdas.is_empty() {
            return;
        }
        let k = self.s.idx(self.lambdas.len());
        let (f, i, got, _) = self.lambdas[k].clone();
        let t = self.vars[i].1.clone();
        self.shared += 1;
        self.bind(t, got, format!("{f}()"));
    }
    /// Loops over a copy while changing the original.
    fn iterate(&mut self) {
        let Some(i) = self.mutable_var() else { return };
        let (name, t, v, _) = self.vars[i].clone();
        let (T::Arr(e), V::Arr(items)) = (&t, &v) else { return };
        if **e != T::Int || items.is_empty() || items.len() > 5 {
            return;
        }
        let acc = self.fresh("acc");
        self.line(format!("let mut {acc} = 0;"));
        self.line(format!("for x in {name} {{ {name}[0] = {name}[0] + x; {acc} = {acc} * 10 + x; }};"));
        let mut now = items.clone();
        let mut a: i64 = 0;
        for x in items {
            let (V::Int(h), V::Int(x)) = (&mut now[0], x) else { return };
            *h = h.wrapping_add(*x);
            a = a.wrapping_mul(10).wrapping_add(*x);
        }
        self.vars[i].2 = V::Arr(now);
        self.vars.push((acc, T::Int, V::Int(a), true));
        self.shared += 1;
    }
    /// A function that gets one value by value and changes its parameter's copy.
    fn callee(&mut self) {
        if self.vars.is_empty() {
            return;
        }
        let i = self.s.idx(self.vars.len());
        let (name, t, v, _) = self.vars[i].clone();
        let (p, t2) = self.path(&t, &v);
        let nv = if t2 == T::Int { V::Int(55) } else { self.val(&t2) };
        let f = self.fresh("g");
        let tt = self.tt(&t);
        let body = format!("let mut y = x; y{} = {}; ", Self::pt(&p), Self::vt(&nv));
        let mut got = v.clone();
        *Self::at(&mut got, &p) = nv;
        self.shared += 1;
        if self.s.flip() {
            self.fns.push_str(&format!("fn {f}(x: {tt}) -> {tt} {{ {body}y }}\n"));
            self.bind(t, got, format!("{f}({name})"));
        } else {
            self.fns.push_str(&format!("fn {f}(x: {tt}) -> ({tt}, {tt}) {{ {body}(x, y) }}\n"));
            let (a, b) = (v.clone(), got);
            self.bind(T::Tup(vec![t.clone(), t]), V::Tup(vec![a, b]), format!("{f}({name})"));
        }
    }
    /// Two places passed mutably to one function, disjoint by their paths.
    fn exchange(&mut self) {
        let (Some(i), Some(j)) = (self.mutable_var(), self.mutable_var()) else { return };
        let (n1, t1, v1, _) = self.vars[i].clone();
        let (n2, t2, v2, _) = self.vars[j].clone();
        let (p1, a) = self.path(&t1, &v1);
        let (p2, b) = self.path(&t2, &v2);
        if a != b {
            return;
        }
        // A field followed by an index reads as a named subscript, of which one call takes only one.
        let named = |p: &[P]| p.windows(2).any(|w| matches!((&w[0], &w[1]), (P::Name(_), P::Idx(_))));
        if named(&p1) && named(&p2) {
            return;
        }
        if i == j {
            // Only fields are known to be disjoint at compile time, below what is written alike.
            let d = p1.iter().zip(&p2).find_map(|(x, y)| match (x, y) {
                (P::Fld(x), P::Fld(y)) | (P::Name(x), P::Name(y)) => (x != y).then_some(true),
                (x, y) => (Self::pt(&vec![x.clone()]) != Self::pt(&vec![y.clone()])).then_some(false),
            });
            if d != Some(true) {
                return;
            }
        }
        let f = self.fresh("swap");
        self.fns.push_str(&format!("fn {f}(x, y) {{ let t = x; x = y; y = t }}\n"));
        self.line(format!("{f}({n1}{}, {n2}{});", Self::pt(&p1), Self::pt(&p2)));
        let x = Self::at(&mut self.vars[i].2, &p1).clone();
        let y = std::mem::replace(Self::at(&mut self.vars[j].2, &p2), x);
        *Self::at(&mut self.vars[i].2, &p1) = y;
        self.shared += 1;
    }
}

fn rv(v: &V) -> RV {
    match v {
        V::Int(i) => RV::Int(*i),
        V::Str(s) => RV::Str(s.clone()),
        V::Arr(v) => RV::Array(v.iter().map(rv).collect()),
        V::Tup(v) => RV::Tuple(v.iter().map(rv).collect()),
        V::St(_, v) => {
            // Fields are observed in the order of their names.
            let mut f: Vec<(&str, RV)> = v.iter().enumerate().map(|(i, v)| (FIELDS[i], rv(v))).collect();
            f.sort_by_key(|f| f.0);
            RV::Tuple(f.into_iter().map(|f| f.1).collect())
        }
        V::Some(v) => RV::Variant("Some".into(), Some(Box::new(RV::Tuple(vec![rv(v)])))),
        V::None => RV::Variant("None".into(), None),
    }
}

fn history(env: &mut Env, s: &mut Src) -> Case {
    let mut g = Prog { s, structs: vec![], vars: vec![], lambdas: vec![], out: String::new(), fns: String::new(), n: 0, shared: 0 };
    let k = g.s.idx(3);
    for _ in 0..k {
        let n = 1 + g.s.idx(3);
        let f = (0..n).map(|_| g.ty(1)).collect();
        g.structs.push(f);
    }
    for _ in 0..2 {
        let t = g.ty(2);
        let v = g.val(&t);
        g.bind(t, v.clone(), Prog::vt(&v));
    }
    let steps = g.s.len(3, 14);
    for _ in 0..steps {
        match g.s.weighted(&[4, 8, 2, 2, 1, 2, 2]) {
            0 => {
                let t = if g.s.chance(3, 4) {
                    let i = g.s.idx(g.vars.len());
                    let (t, v) = (g.vars[i].1.clone(), g.vars[i].2.clone());
                    g.path(&t, &v).1
                } else {
                    g.ty(2)
                };
                let (e, v) = g.source(&t);
                g.bind(t, v, e);
            }
            1 => g.change(),
            2 => g.lambda(),
            3 => g.call_lambda(),
            4 => g.iterate(),
            5 => g.callee(),
            _ => g.exchange(),
        }
    }
    let mut text = String::new();
    for (k, f) in g.structs.iter().enumerate() {
        let fs: Vec<String> = f.iter().enumerate().map(|(i, t)| format!("{}: {}", FIELDS[i], g.tt(t))).collect();
        text.push_str(&format!("struct S{k} {{ {} }}\n", fs.join(", ")));
    }
    text.push_str(&g.fns);
    let all: Vec<String> = g.vars.iter().map(|v| v.0.clone()).collect();
    let result = format!("({}, 0)", all.join(", "));
    // The module's own expression, or a function, generic or not.
    let in_function = g.s.flip();
    if in_function {
        text.push_str(&format!("fn go() {{\n{}    {result}\n}}\ngo()\n", g.out));
    } else {
        text.push_str(&format!("{}{result}\n", g.out));
    }
    let mut want: Vec<RV> = g.vars.iter().map(|v| rv(&v.2)).collect();
    want.push(RV::Int(0));
    let shared = g.shared;
    match util::expect(env, &text, &Out::Val(RV::Tuple(want))) {
        Ok(_) => Case::pass(text, shared > 0).with(vec!["history"]),
        // Calls whose mutable arguments need two suspended accessors are documented as unsupported.
        Err(c) if c.fails_as("rejected UnsupportedSubscriptFeature") => Case::discard(c.render),
        Err(c) => c,
    }
}

/// Programs that break the rules, each beside its correct twin.
fn rejected(env: &mut Env, s: &mut Src) -> Case {
    let ty = *s.pick(&["int", "[int]", "(int, [int])", "string"]);
    let v = match ty {
        "int" => "1",
        "[int]" => "[1, 2]",
        "(int, [int])" => "(1, [2, 3])",
        _ => "\"ab\"",
    };
    let arr = *s.pick(&["[1, 2, 3]", "[[1], [2]]", "[(1, 2), (3, 4)]"]);
    let i = s.range(0, 1);
    let j = match s.below(4) {
        0 | 1 => i.to_string(),
        2 => format!("{}", i - 2),
        _ => "len(a) - 2".into(),
    };
    let writes: Vec<(String, String)> = match ty {
        "int" => vec![("x = 2".into(), String::new()), ("x += 1".into(), String::new()), ("bump(x)".into(), "fn bump(y: &mut int) { y += 1 }\n".into())],
        "[int]" => vec![
            ("x[0] = 5".into(), String::new()),
            ("array_append(x, 3)".into(), String::new()),
            ("x[1] += 1".into(), String::new()),
            ("bump(x[0])".into(), "fn bump(y: &mut int) { y += 1 }\n".into()),
            ("push(x)".into(), "fn push(y) { array_append(y, 1) }\n".into()),
        ],
        "(int, [int])" => vec![
            ("x.0 = 5".into(), String::new()),
            ("x.1[0] = 5".into(), String::new()),
            ("array_append(x.1, 3)".into(), String::new()),
            ("bump(x.0)".into(), "fn bump(y) { y += 1 }\n".into()),
        ],
        _ => vec![("string_push_str(x, \"c\")".into(), String::new()), ("x = \"q\"".into(), String::new())],
    };
    let (w, d) = s.pick(&writes).clone();
    let form = s.below(9);
    let (bad, good) = match form {
        0 => (format!("{d}let x = {v};\n{w};\n0"), format!("{d}let mut x = {v};\n{w};\n0")),
        1 => (format!("{d}fn f() {{ let x = {v}; {w}; 0 }}\nf()"), format!("{d}fn f() {{ let mut x = {v}; {w}; 0 }}\nf()")),
        2 => (
            format!("{d}fn f(x: {ty}) {{ let y = x; {}; 0 }}\nf({v})", w.replace('x', "y").replace("maY", "max")),
            format!("{d}fn f(x: {ty}) {{ let mut y = x; {}; 0 }}\nf({v})", w.replace('x', "y")),
        ),
        3 => (
            format!("{d}fn f(x: &mut {ty}) {{ {w} }}\nlet a = {v};\nf(a);\n0"),
            format!("{d}fn f(x: &mut {ty}) {{ {w} }}\nlet mut a = {v};\nf(a);\n0"),
        ),
        4 => (
            format!("{d}fn f(x) {{ {w} }}\nlet a = ({v}, 1);\nf(a.0);\n0"),
            format!("{d}fn f(x) {{ {w} }}\nlet mut a = ({v}, 1);\nf(a.0);\n0"),
        ),
        // Overlapping mutable places.
        5 => (
            format!("fn sw(a, b) {{ let t = a; a = b; b = t }}\nlet mut a = {arr};\nsw(a[{i}], a[{j}]);\n0"),
            format!("fn sw(a, b) {{ let t = a; a = b; b = t }}\nlet mut a = {arr};\nlet mut c = {arr};\nsw(a[{i}], c[{j}]);\n0"),
        ),
        6 => (
            format!("fn g(a: &mut (int, {ty}), b: &mut {ty}) {{ b = a.1 }}\nlet mut t = (1, {v});\ng(t, t.1);\n0"),
            format!("fn g(a: &mut (int, {ty}), b: &mut {ty}) {{ b = a.1 }}\nlet mut t = (1, {v});\nlet mut u = {v};\ng(t, u);\n0"),
        ),
        7 => (
            format!("fn g(a: &mut {ty}, b: &mut {ty}) {{ b = a }}\nlet mut t = {v};\ng(t, t);\n0"),
            format!("fn g(a: &mut {ty}, b: &mut {ty}) {{ b = a }}\nlet mut t = ({v}, {v});\ng(t.0, t.1);\n0"),
        ),
        _ => (
            format!("{d}for i in 0..1 {{ let x = {v}; {w}; }};\n0"),
            format!("{d}for i in 0..1 {{ let mut x = {v}; {w}; }};\n0"),
        ),
    };
    about_to_run(&bad);
    env.rt.reset();
    if env.rt.compile(&bad).is_ok() {
        return Case::fail(bad, "accepted", "a forbidden mutation is accepted");
    }
    match util::expect(env, &good, &Out::Val(RV::Int(0))) {
        Ok(_) => Case::pass(bad, true).with(vec!["rejected"]),
        Err(c) => c,
    }
}

/// General programs with plenty of mutable arguments and closures, against the reference interpreter.
fn general(env: &mut Env, src: &mut Src) -> Case {
    let mut f = Feats::swarm(src);
    f.refs = f.refs.max(4);
    f.arrays = f.arrays.max(4);
    f.closures = f.closures.max(2);
    let mut g = G::new(src, f);
    g.program();
    let p = g.p.clone();
    let text = p.text();
    about_to_run(&text);
    env.rt.reset();
    let c = match env.rt.compile(&text) {
        Ok(c) => c,
        Err(_) => return Case::discard(text),
    };
    let mut m = Interp::new(&p, HostState::default());
    let Some(want) = m.run().out() else { return Case::discard(text) };
    for mode in MODES {
        let got = env.rt.run(&c, mode);
        if got.is_limit() {
            return Case::discard(text);
        }
        if !util::same(&want, &got) {
            return Case::fail(text, "differ", format!("{mode:?}: {} but the semantics give {}", got.show(), want.show()));
        }
    }
    Case::pass(text, m.steps >= 12).with(vec!["general"])
}

fn run(env: &mut Env, src: &mut Src) -> Case {
    match src.weighted(&[6, 1, 3]) {
        0 => history(env, src),
        1 => rejected(env, src),
        _ => general(env, src),
    }
}
