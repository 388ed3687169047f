//! Types with values: generation, source text, and the values they stand for.
use crate::choice::Src;
use crate::props::util::{int_text, quote};
use crate::rt::RV;

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Unit,
    Bool,
    Int,
    Float,
    Str,
    Tup(Vec<T>),
    /// Fields in name order.
    Rec(Vec<(String, T)>),
    Arr(Box<T>),
    Opt(Box<T>),
    /// Elements are kept as an array.
    Set(Box<T>),
    /// Entries are kept as an array of pairs.
    Map(Box<T>, Box<T>),
    /// A declared type.
    Def(usize),
    /// The generic declared type.
    Gen(Box<T>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Body {
    Unit,
    Tup(Vec<T>),
    Rec(Vec<(String, T)>),
}
#[derive(Clone, Debug)]
pub enum Def {
    Struct(Body),
    Enum(Vec<(String, Body)>),
}

pub struct Dom {
    pub defs: Vec<Def>,
    /// What values may contain.
    pub hashed: bool,
    pub collections: bool,
    pub zeros: bool,
    pub strings: &'static [&'static str],
}

pub const TEXTS: [&str; 26] = [
    "", "a", "b", "ab", "é", "👍", "a\"b", "\\", "\n", "\t\r", "null", "true", "{}", "[1, 2]", "// no", "/* no */", "x: 1", "\u{1}\u{7f}", "\u{85}", "\u{1f}", "a\u{b}\u{1e}", "\u{0}\u{8}\u{c}z", "\u{9f}\u{1b}", "{a}", "日本", "0",
];

impl Dom {
    pub fn new(s: &mut Src) -> Dom {
        Dom::with(s, true)
    }
    /// `recursive`: enums may contain themselves.
    pub fn with(s: &mut Src, recursive: bool) -> Dom {
        Dom::build(s, recursive, true)
    }
    pub fn build(s: &mut Src, recursive: bool, collections: bool) -> Dom {
        let mut d = Dom { defs: vec![], hashed: true, collections, zeros: true, strings: &TEXTS };
        let n = s.idx(4);
        for _ in 0..n {
            let i = d.defs.len();
            let def = match s.below(4) {
                0 => Def::Struct(d.body(s, false)),
                1 => Def::Struct(d.body(s, false)),
                _ => {
                    let k = 1 + s.idx(4);
                    let mut alts: Vec<(String, Body)> = (0..k).map(|j| (format!("{}{i}", ["A", "B", "C", "D"][j]), if s.chance(1, 3) { Body::Unit } else { d.body(s, true) })).collect();
                    // Alternatives that contain the type again.
                    if !recursive {
                    } else if s.chance(1, 3) {
                        let mut v = vec![T::Int];
                        v.push(T::Arr(Box::new(T::Def(i))));
                        alts.push((format!("N{i}"), Body::Tup(v)));
                    } else if s.chance(1, 4) {
                        alts.insert(0, (format!("E{i}"), Body::Unit));
                        alts.push((format!("M{i}"), Body::Rec(vec![("next".into(), T::Def(i)), ("v".into(), T::Int)])));
                    }
                    Def::Enum(alts)
                }
            };
            d.defs.push(def);
        }
        d
    }
    fn body(&mut self, s: &mut Src, one: bool) -> Body {
        let n = 1 + s.idx(if one { 2 } else { 3 });
        let ts: Vec<T> = (0..n).map(|_| self.ty(s, 1)).collect();
        if s.flip() { Body::Tup(ts) } else { Body::Rec(fields(s, ts)) }
    }
    pub fn ty(&mut self, s: &mut Src, depth: u32) -> T {
        let leaf = depth == 0 || s.chance(2, 5);
        if leaf {
            return match s.below(12) {
                0 => T::Unit,
                1 | 2 => T::Bool,
                3..=6 => T::Int,
                7 | 8 => T::Float,
                _ => T::Str,
            };
        }
        let d = depth - 1;
        match s.below(13) {
            0 | 1 => {
                let n = 1 + s.idx(3);
                T::Tup((0..n).map(|_| self.ty(s, d)).collect())
            }
            2 | 3 => {
                let n = 1 + s.idx(3);
                let ts = (0..n).map(|_| self.ty(s, d)).collect();
                T::Rec(fields(s, ts))
            }
            4 | 5 => T::Arr(Box::new(self.ty(s, d))),
            6 => T::Opt(Box::new(self.ty(s, d))),
            7 if self.collections => T::Set(Box::new(self.ty(s, d.min(1)))),
            8 if self.collections => T::Map(Box::new(self.ty(s, d.min(1))), Box::new(self.ty(s, d))),
            9 => T::Gen(Box::new(self.ty(s, d))),
            _ if !self.defs.is_empty() => T::Def(s.idx(self.defs.len())),
            _ => T::Arr(Box::new(self.ty(s, d))),
        }
    }
    pub fn text(&self, t: &T) -> String {
        match t {
            T::Unit => "()".into(),
            T::Bool => "bool".into(),
            T::Int => "int".into(),
            T::Float => "float".into(),
            T::Str => "string".into(),
            T::Tup(ts) if ts.len() == 1 => format!("({},)", self.text(&ts[0])),
            T::Tup(ts) => format!("({})", ts.iter().map(|t| self.text(t)).collect::<Vec<_>>().join(", ")),
            T::Rec(fs) => format!("{{{}}}", fs.iter().map(|(n, t)| format!("{n}: {}", self.text(t))).collect::<Vec<_>>().join(", ")),
            T::Arr(t) => format!("[{}]", self.text(t)),
            T::Opt(t) => format!("Option<{}>", self.text(t)),
            T::Set(t) => format!("HashSet<{}>", self.text(t)),
            T::Map(k, v) => format!("HashMap<{}, {}>", self.text(k), self.text(v)),
            T::Def(i) => format!("T{i}"),
            T::Gen(t) => format!("Cell<{}>", self.text(t)),
        }
    }
    fn body_text(&self, b: &Body) -> String {
        match b {
            Body::Unit => "".into(),
            Body::Tup(ts) => format!("({})", ts.iter().map(|t| self.text(t)).collect::<Vec<_>>().join(", ")),
            Body::Rec(fs) => format!(" {{ {} }}", fs.iter().map(|(n, t)| format!("{n}: {}", self.text(t))).collect::<Vec<_>>().join(", ")),
        }
    }
    pub fn decls(&self) -> String {
        let mut o = String::from("struct Cell<X> { item: X, label: int }\n");
        for (i, d) in self.defs.iter().enumerate() {
            match d {
                Def::Struct(b) => o.push_str(&format!("struct T{i}{}\n", self.body_text(b))),
                Def::Enum(a) => o.push_str(&format!("enum T{i} {{ {} }}\n", a.iter().map(|(n, b)| format!("{n}{}", self.body_text(b))).collect::<Vec<_>>().join(", "))),
            }
        }
        o
    }
    fn body_value(&self, s: &mut Src, b: &Body, d: u32) -> Option<RV> {
        match b {
            Body::Unit => None,
            Body::Tup(ts) => Some(RV::Tuple(ts.iter().map(|t| self.value(s, t, d)).collect())),
            Body::Rec(fs) => Some(RV::Tuple(fs.iter().map(|(_, t)| self.value(s, t, d)).collect())),
        }
    }
    pub fn value(&self, s: &mut Src, t: &T, d: u32) -> RV {
        let n = |s: &mut Src| if d == 0 { 0 } else { s.len(0, 3) };
        let e = d.saturating_sub(1);
        match t {
            T::Unit => RV::Unit,
            T::Bool => RV::Bool(s.flip()),
            T::Int => RV::Int(if s.chance(1, 6) { s.int() } else { s.range(-2, 5) }),
            T::Float => RV::Float(self.float(s).to_bits()),
            T::Str => RV::Str((*s.pick(self.strings)).into()),
            T::Tup(ts) => RV::Tuple(ts.iter().map(|t| self.value(s, t, e)).collect()),
            T::Rec(fs) => RV::Tuple(fs.iter().map(|(_, t)| self.value(s, t, e)).collect()),
            T::Arr(t) => {
                let n = n(s);
                RV::Array((0..n).map(|_| self.value(s, t, e)).collect())
            }
            T::Set(t) => {
                let n = n(s);
                let mut v = vec![];
                for _ in 0..n {
                    let x = self.value(s, t, e);
                    if !v.iter().any(|y| self.eq(t, &x, y)) {
                        v.push(x);
                    }
                }
                RV::Array(v)
            }
            T::Map(k, v) => {
                let n = n(s);
                let mut out: Vec<RV> = vec![];
                for _ in 0..n {
                    let x = self.value(s, k, e);
                    if !out.iter().any(|y| matches!(y, RV::Tuple(p) if self.eq(k, &x, &p[0]))) {
                        let y = self.value(s, v, e);
                        out.push(RV::Tuple(vec![x, y]));
                    }
                }
                RV::Array(out)
            }
            T::Opt(t) => {
                if d > 0 && s.chance(2, 3) {
                    let x = self.value(s, t, e);
                    RV::Variant("Some".into(), Some(Box::new(RV::Tuple(vec![x]))))
                } else {
                    RV::Variant("None".into(), None)
                }
            }
            T::Def(i) => match &self.defs[*i] {
                Def::Struct(b) => self.body_value(s, b, e).unwrap(),
                Def::Enum(alts) => {
                    let simple = alts.iter().position(|(_, b)| !self.mentions(b, *i)).unwrap();
                    let k = s.idx(alts.len());
                    let k = if d == 0 && self.mentions(&alts[k].1, *i) { simple } else { k };
                    let (n, b) = &alts[k];
                    RV::Variant(n.clone(), self.body_value(s, b, e).map(Box::new))
                }
            },
            T::Gen(t) => {
                let x = self.value(s, t, e);
                RV::Tuple(vec![x, RV::Int(s.range(0, 2))])
            }
        }
    }
    fn mentions(&self, b: &Body, i: usize) -> bool {
        matches!(b, Body::Rec(f) if f.iter().any(|(_, t)| *t == T::Def(i)))
    }
    fn float(&self, s: &mut Src) -> f64 {
        match s.below(8) {
            0 if self.zeros => -0.0,
            0 | 1 => 0.0,
            2 => *s.pick(&[1e300, -1e300, 5e-324, f64::MAX, 1e16, 123456789.125, 1e-7, 0.1, 9007199254740993.0]),
            3 => s.range(-4, 4) as f64,
            4 => f64::from_bits(s.raw()),
            _ => s.range(-8, 8) as f64 / 4.0,
        }
        .clamp(-f64::MAX, f64::MAX)
    }
    fn body_lit(&self, b: &Body, v: &RV) -> String {
        match (b, v) {
            (Body::Tup(ts), RV::Tuple(v)) => format!("({})", ts.iter().zip(v).map(|(t, v)| self.lit(t, v)).collect::<Vec<_>>().join(", ")),
            (Body::Rec(fs), RV::Tuple(v)) => format!(" {{ {} }}", fs.iter().zip(v).map(|((n, t), v)| format!("{n}: {}", self.lit(t, v))).collect::<Vec<_>>().join(", ")),
            _ => String::new(),
        }
    }
    /// Source of a value; its type may have to be known from outside.
    pub fn lit(&self, t: &T, v: &RV) -> String {
        match (t, v) {
            (T::Unit, _) => "()".into(),
            (_, RV::Bool(b)) => b.to_string(),
            (_, RV::Int(i)) => int_text(*i),
            (_, RV::Float(f)) => float_lit(f64::from_bits(*f)),
            (_, RV::Str(s)) => quote(s),
            (T::Tup(ts), RV::Tuple(v)) if ts.len() == 1 => format!("({},)", self.lit(&ts[0], &v[0])),
            (T::Tup(ts), RV::Tuple(v)) => format!("({})", ts.iter().zip(v).map(|(t, v)| self.lit(t, v)).collect::<Vec<_>>().join(", ")),
            (T::Rec(fs), RV::Tuple(v)) => {
                let mut p: Vec<String> = fs.iter().zip(v).map(|((n, t), v)| format!("{n}: {}", self.lit(t, v))).collect();
                if p.len() > 1 && v.len() % 2 == 0 {
                    p.reverse();
                }
                format!("({{ {} }})", p.join(", "))
            }
            (T::Arr(t), RV::Array(v)) => format!("[{}]", v.iter().map(|v| self.lit(t, v)).collect::<Vec<_>>().join(", ")),
            (T::Set(_), RV::Array(v)) if v.is_empty() => "hash_set_new()".into(),
            (T::Map(..), RV::Array(v)) if v.is_empty() => "hash_map_new()".into(),
            (T::Set(t), RV::Array(v)) => format!("set {{ {} }}", v.iter().map(|v| self.lit(t, v)).collect::<Vec<_>>().join(", ")),
            (T::Map(k, w), RV::Array(v)) => format!(
                "map {{ {} }}",
                v.iter()
                    .map(|e| {
                        let RV::Tuple(e) = e else { unreachable!() };
                        format!("{} => {}", self.lit(k, &e[0]), self.lit(w, &e[1]))
                    })
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
            (T::Opt(_), RV::Variant(_, None)) => "None".into(),
            (T::Opt(t), RV::Variant(_, Some(p))) => {
                let RV::Tuple(p) = &**p else { unreachable!() };
                format!("Some({})", self.lit(t, &p[0]))
            }
            (T::Def(i), v) => match (&self.defs[*i], v) {
                (Def::Struct(b), v) => format!("T{i}{}", self.body_lit(b, v)),
                (Def::Enum(alts), RV::Variant(n, p)) => {
                    let b = &alts.iter().find(|a| a.0 == *n).unwrap().1;
                    match p {
                        None => format!("T{i}::{n}"),
                        Some(p) => format!("T{i}::{n}{}", self.body_lit(b, p)),
                    }
                }
                _ => unreachable!(),
            },
            (T::Gen(t), RV::Tuple(v)) => format!("Cell {{ item: {}, label: {} }}", self.lit(t, &v[0]), self.lit(&T::Int, &v[1])),
            _ => unreachable!("{t:?} {v:?}"),
        }
    }
    fn body_types(b: &Body) -> Vec<T> {
        match b {
            Body::Unit => vec![],
            Body::Tup(ts) => ts.clone(),
            Body::Rec(fs) => fs.iter().map(|f| f.1.clone()).collect(),
        }
    }
    /// The types of the components of a product value, or of a variant's payload.
    pub fn parts(&self, t: &T, v: &RV) -> Vec<T> {
        match t {
            T::Tup(ts) => ts.clone(),
            T::Rec(fs) => fs.iter().map(|f| f.1.clone()).collect(),
            T::Gen(t) => vec![(**t).clone(), T::Int],
            T::Opt(t) => match v {
                RV::Variant(_, Some(_)) => vec![(**t).clone()],
                _ => vec![],
            },
            T::Def(i) => match (&self.defs[*i], v) {
                (Def::Struct(b), _) => Self::body_types(b),
                (Def::Enum(alts), RV::Variant(n, _)) => Self::body_types(&alts.iter().find(|a| a.0 == *n).unwrap().1),
                _ => vec![],
            },
            _ => vec![],
        }
    }
    pub fn eq(&self, t: &T, a: &RV, b: &RV) -> bool {
        match (t, a, b) {
            (_, RV::Float(a), RV::Float(b)) => f64::from_bits(*a) == f64::from_bits(*b),
            (T::Arr(t), RV::Array(a), RV::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| self.eq(t, a, b)),
            (T::Set(t), RV::Array(a), RV::Array(b)) => a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| self.eq(t, x, y))),
            (T::Map(k, v), RV::Array(a), RV::Array(b)) => {
                let t = T::Tup(vec![(**k).clone(), (**v).clone()]);
                a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| self.eq(&t, x, y)))
            }
            (_, RV::Variant(n, p), RV::Variant(m, q)) => {
                n == m
                    && match (p, q) {
                        (Some(p), Some(q)) => self.all(&self.parts(t, a), p, q),
                        _ => true,
                    }
            }
            (_, RV::Tuple(_), RV::Tuple(_)) => self.all(&self.parts(t, a), a, b),
            (_, a, b) => a == b,
        }
    }
    fn all(&self, ts: &[T], a: &RV, b: &RV) -> bool {
        let (RV::Tuple(a), RV::Tuple(b)) = (a, b) else { return a == b };
        a.len() == b.len() && ts.iter().zip(a.iter().zip(b)).all(|(t, (a, b))| self.eq(t, a, b))
    }
    /// A value that differs from `v` in one place, if the type has another one there.
    pub fn tweak(&self, s: &mut Src, t: &T, v: &RV) -> RV {
        let at = |s: &mut Src, ts: &[T], p: &RV| -> RV {
            let RV::Tuple(p) = p else { return p.clone() };
            let mut p = p.clone();
            if !p.is_empty() {
                let i = s.idx(p.len());
                p[i] = self.tweak(s, &ts[i], &p[i]);
            }
            RV::Tuple(p)
        };
        match (t, v) {
            (_, RV::Bool(b)) => RV::Bool(!b),
            (_, RV::Int(i)) => RV::Int(if s.flip() { i.wrapping_add(1) } else { i ^ (1 << s.below(63)) }),
            (_, RV::Float(f)) => {
                let f = f64::from_bits(*f);
                let g = if s.flip() { f + 1.0 } else { f64::from_bits(f.to_bits() ^ 1) };
                RV::Float((if g.is_finite() { g } else { 0.5 }).to_bits())
            }
            (_, RV::Str(x)) => RV::Str(if s.flip() { format!("{x}x") } else { (*s.pick(self.strings)).into() }),
            (T::Arr(t), RV::Array(v)) => {
                let mut v = v.clone();
                if v.is_empty() || s.chance(1, 3) {
                    let x = self.value(s, t, 1);
                    let i = s.idx(v.len() + 1);
                    v.insert(i, x);
                } else if s.chance(1, 3) {
                    let i = s.idx(v.len());
                    v.remove(i);
                } else {
                    let i = s.idx(v.len());
                    v[i] = self.tweak(s, t, &v[i]);
                }
                RV::Array(v)
            }
            (T::Set(_) | T::Map(..), RV::Array(w)) => {
                if w.is_empty() || s.flip() {
                    self.value(s, t, 2)
                } else {
                    let mut w = w.clone();
                    if s.flip() {
                        w.pop();
                    } else {
                        w.reverse();
                    }
                    RV::Array(w)
                }
            }
            (_, RV::Variant(n, Some(p))) if s.chance(2, 3) => RV::Variant(n.clone(), Some(Box::new(at(s, &self.parts(t, v), p)))),
            (_, RV::Variant(..)) => self.value(s, t, 2),
            (_, RV::Tuple(_)) => at(s, &self.parts(t, v), v),
            _ => v.clone(),
        }
    }
    pub fn has_collection(&self, t: &T) -> bool {
        let mut seen = vec![];
        self.reach(t, &mut seen, &mut |t| matches!(t, T::Set(_) | T::Map(..)))
    }
    pub fn reach(&self, t: &T, seen: &mut Vec<usize>, f: &mut dyn FnMut(&T) -> bool) -> bool {
        if f(t) {
            return true;
        }
        let kids: Vec<T> = match t {
            T::Tup(ts) => ts.clone(),
            T::Rec(fs) => fs.iter().map(|f| f.1.clone()).collect(),
            T::Arr(t) | T::Opt(t) | T::Set(t) | T::Gen(t) => vec![(**t).clone()],
            T::Map(k, v) => vec![(**k).clone(), (**v).clone()],
            T::Def(i) => {
                if seen.contains(i) {
                    return false;
                }
                seen.push(*i);
                match &self.defs[*i] {
                    Def::Struct(b) => Self::body_types(b),
                    Def::Enum(a) => a.iter().flat_map(|a| Self::body_types(&a.1)).collect(),
                }
            }
            _ => vec![],
        };
        kids.iter().any(|k| self.reach(k, seen, f))
    }
}

fn fields(s: &mut Src, ts: Vec<T>) -> Vec<(String, T)> {
    let mut names: Vec<&str> = vec!["a", "b", "name", "type_", "x", "z9"];
    let mut out: Vec<(String, T)> = ts
        .into_iter()
        .map(|t| {
            let i = s.idx(names.len());
            (names.remove(i).to_string(), t)
        })
        .collect();
    out.sort_by(|a, b| a.0.cmp(&b.0));
    out
}

pub use crate::props::c14::float_lit;
