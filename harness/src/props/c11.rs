//! Arrays, ranges and sequence functions against vectors.
use crate::choice::Src;
use crate::driver::{Case, Prop};
use crate::props::Env;
use crate::props::util::{expect, int_text, quote};
use crate::rt::{Out, RV};
use std::cmp::Ordering;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "at least six operations of at least three kinds, and nothing fails before the sixth",
        assumptions: &["slice bounds below minus the length are not generated: their meaning is not documented"],
        quick: 2500,
        thorough: 100_000,
        batch: 100,
        case_secs: 20,
        hang_ok: false,
        prepare: |env| env.rt.with_host = false,
        run,
    }
}

/// Element types.
#[derive(Clone, PartialEq, Debug)]
enum E {
    Int,
    Float,
    Bool,
    Str,
    Pair,
    Ints,
}
impl E {
    fn text(&self) -> &'static str {
        match self {
            E::Int => "int",
            E::Float => "float",
            E::Bool => "bool",
            E::Str => "string",
            E::Pair => "(int, string)",
            E::Ints => "[int]",
        }
    }
    fn sortable(&self) -> bool {
        matches!(self, E::Int | E::Float | E::Str)
    }
}

fn lit(v: &RV) -> String {
    match v {
        RV::Int(i) => int_text(*i),
        RV::Float(f) => {
            let f = f64::from_bits(*f);
            if f < 0.0 { format!("(-{:?})", -f) } else { format!("{f:?}") }
        }
        RV::Bool(b) => b.to_string(),
        RV::Str(s) => quote(s),
        RV::Tuple(v) => format!("({})", v.iter().map(lit).collect::<Vec<_>>().join(", ")),
        RV::Array(v) => format!("[{}]", v.iter().map(lit).collect::<Vec<_>>().join(", ")),
        _ => unreachable!(),
    }
}
fn some(v: Option<RV>) -> RV {
    match v {
        Some(v) => RV::Variant("Some".into(), Some(Box::new(RV::Tuple(vec![v])))),
        None => RV::Variant("None".into(), None),
    }
}
fn pair(a: RV, b: RV) -> RV {
    RV::Tuple(vec![a, b])
}
fn int(v: &RV) -> i64 {
    if let RV::Int(i) = v { *i } else { unreachable!() }
}
fn order(a: &RV, b: &RV) -> Ordering {
    match (a, b) {
        (RV::Int(a), RV::Int(b)) => a.cmp(b),
        (RV::Float(a), RV::Float(b)) => f64::from_bits(*a).partial_cmp(&f64::from_bits(*b)).unwrap(),
        (RV::Str(a), RV::Str(b)) => a.cmp(b),
        _ => unreachable!(),
    }
}
/// The offset a possibly negative index denotes.
fn at(i: i64, n: usize) -> Option<usize> {
    let r = if i < 0 { i as i128 + n as i128 } else { i as i128 };
    (r >= 0 && r < n as i128).then_some(r as usize)
}
fn bound(i: i64, n: usize) -> usize {
    let r = if i < 0 { i + n as i64 } else { i };
    (r.max(0) as usize).min(n)
}
fn slice(v: &[RV], s: i64, e: i64) -> Vec<RV> {
    let (s, e) = (bound(s, v.len()), bound(e, v.len()));
    if s < e { v[s..e].to_vec() } else { vec![] }
}
fn split_on(v: &[RV], sep: &[RV]) -> Vec<RV> {
    let (mut out, mut from, mut i) = (vec![], 0, 0);
    while i + sep.len() <= v.len() {
        if v[i..i + sep.len()] == *sep {
            out.push(RV::Array(v[from..i].to_vec()));
            i += sep.len();
            from = i;
        } else {
            i += 1;
        }
    }
    out.push(RV::Array(v[from..].to_vec()));
    out
}

struct Arr {
    name: String,
    elem: E,
    v: Vec<RV>,
}

struct Gen<'a> {
    s: &'a mut Src,
    arrs: Vec<Arr>,
    /// Observed bindings.
    obs: Vec<(String, RV)>,
    code: String,
    ops: usize,
    labels: Vec<&'static str>,
    fail: Option<String>,
    fresh: usize,
    indent: String,
}

/// A sequence expression for pipelines.
struct Seq {
    text: String,
    v: Vec<RV>,
    /// 0 array, 1 range, 2 iterator
    kind: u8,
    elem: E,
}

const MAX: usize = 600;

impl Gen<'_> {
    fn see(&mut self, l: &'static str) {
        self.ops += 1;
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn elem(&mut self) -> E {
        match self.s.weighted(&[6, 1, 1, 3, 2, 2]) {
            0 => E::Int,
            1 => E::Float,
            2 => E::Bool,
            3 => E::Str,
            4 => E::Pair,
            _ => E::Ints,
        }
    }
    fn value(&mut self, e: &E) -> RV {
        match e {
            E::Int => RV::Int(if self.s.chance(1, 8) { self.s.int() } else { self.s.range(-4, 6) }),
            E::Float => RV::Float((self.s.range(-6, 7) as f64 / 2.0 + 0.0).to_bits()),
            E::Bool => RV::Bool(self.s.flip()),
            E::Str => RV::Str((*self.s.pick(&["", "a", "b", "ab", "é", "zz", "A b", "👍", "aa"])).into()),
            E::Pair => {
                let a = RV::Int(self.s.range(0, 3));
                pair(a, RV::Str((*self.s.pick(&["x", "y", "z", ""])).into()))
            }
            E::Ints => {
                let n = self.s.idx(4);
                RV::Array((0..n).map(|_| RV::Int(self.s.range(0, 3))).collect())
            }
        }
    }
    fn values(&mut self, e: &E) -> Vec<RV> {
        let n = match self.s.below(8) {
            0 => 0,
            1 => 1,
            2..=5 => 2 + self.s.idx(6),
            _ => 4 + self.s.idx(24),
        };
        (0..n).map(|_| self.value(e)).collect()
    }
    fn line(&mut self, t: String) {
        self.code.push_str(&self.indent);
        self.code.push_str(&t);
        self.code.push('\n');
    }
    fn name(&mut self, p: &str) -> String {
        self.fresh += 1;
        format!("{p}{}", self.fresh)
    }
    fn observe(&mut self, ty: &str, text: String, v: RV) {
        let n = self.name("r");
        self.line(format!("let {n}: {ty} = {text};"));
        self.obs.push((n, v));
    }
    fn failing(&mut self, text: String, kind: &str) {
        let n = self.name("z");
        self.line(format!("let {n} = {text};"));
        self.fail = Some(kind.into());
    }
    fn new_array(&mut self, e: E, text: String, v: Vec<RV>) {
        let n = self.name("a");
        self.line(format!("let mut {n}: [{}] = {text};", e.text()));
        self.arrs.push(Arr { name: n, elem: e, v });
    }
    fn pick(&mut self) -> usize {
        self.s.idx(self.arrs.len())
    }
    fn pick_of(&mut self, f: impl Fn(&Arr) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.arrs.len()).filter(|i| f(&self.arrs[*i])).collect();
        if c.is_empty() { None } else { Some(*self.s.pick(&c)) }
    }
    fn index(&mut self, n: usize) -> i64 {
        let n = n as i64;
        if self.s.chance(1, 25) || n == 0 {
            return *self.s.pick(&[n, -n - 1, n + 3, i64::MAX, -i64::MAX, i64::MIN + 1, 0]);
        }
        if self.s.flip() { self.s.range(0, n - 1) } else { self.s.range(-n, -1) }
    }
    /// An index as source: a literal, or through a variable.
    fn index_text(&mut self, i: i64) -> String {
        match self.s.below(4) {
            0 => {
                let n = self.name("i");
                self.line(format!("let {n} = {i};"));
                n
            }
            1 => format!("{} + {}", int_text(i.wrapping_sub(3)), 3),
            _ => int_text(i),
        }
    }

    fn step(&mut self) {
        let k = self.pick();
        let (name, e, v) = (self.arrs[k].name.clone(), self.arrs[k].elem.clone(), self.arrs[k].v.clone());
        let n = v.len();
        match self.s.below(24) {
            0 | 1 => {
                self.see("append");
                let x = self.value(&e);
                self.line(format!("array_append({name}, {});", lit(&x)));
                self.arrs[k].v.push(x);
            }
            2 | 3 => {
                self.see("prepend");
                let x = self.value(&e);
                self.line(format!("array_prepend({name}, {});", lit(&x)));
                self.arrs[k].v.insert(0, x);
            }
            4 | 5 => {
                self.see("pop");
                let (f, r) = if self.s.flip() {
                    ("pop_back", self.arrs[k].v.pop())
                } else if n > 0 {
                    ("pop_front", Some(self.arrs[k].v.remove(0)))
                } else {
                    ("pop_front", None)
                };
                self.observe(&format!("Option<{}>", e.text()), format!("array_{f}({name})"), some(r));
            }
            6 => {
                self.see("peek");
                let (f, r) = if self.s.flip() { ("peek_back", v.last()) } else { ("peek_front", v.first()) };
                self.observe(&format!("Option<{}>", e.text()), format!("array_{f}({name})"), some(r.cloned()));
            }
            7 | 8 => {
                self.see("index");
                let i = self.index(n);
                let it = self.index_text(i);
                match at(i, n) {
                    Some(j) => self.observe(e.text(), format!("{name}[{it}]"), v[j].clone()),
                    None => self.failing(format!("{name}[{it}]"), &format!("Aborted: Array access out of bounds: index {i} for length {n}")),
                }
            }
            9 | 10 => {
                self.see("assign element");
                let i = self.index(n);
                let it = self.index_text(i);
                let x = self.value(&e);
                match (at(i, n), &e) {
                    (Some(j), E::Int) if self.s.flip() => {
                        let d = self.s.small();
                        self.line(format!("{name}[{it}] += {};", int_text(d)));
                        self.arrs[k].v[j] = RV::Int(int(&v[j]).wrapping_add(d));
                    }
                    (Some(j), _) => {
                        self.line(format!("{name}[{it}] = {};", lit(&x)));
                        self.arrs[k].v[j] = x;
                    }
                    (None, _) => {
                        self.line(format!("{name}[{it}] = {};", lit(&x)));
                        self.fail = Some(format!("Aborted: Array access out of bounds: index {i} for length {n}"));
                    }
                }
            }
            11 => {
                self.see("slice");
                let lo = -(n as i64);
                let (a, b) = (self.s.range(lo, n as i64 + 2), self.s.range(lo, n as i64 + 2));
                let f = if self.s.flip() { "slice" } else { "array_slice" };
                let r = slice(&v, a, b);
                self.new_array(e, format!("{f}({name}, {}, {})", int_text(a), int_text(b)), r);
            }
            12 => {
                self.see("concat");
                let j = self.pick_of(|a| a.elem == e).unwrap();
                let mut r = v.clone();
                r.extend(self.arrs[j].v.iter().cloned());
                if r.len() > MAX {
                    return;
                }
                let other = self.arrs[j].name.clone();
                if self.s.flip() {
                    self.new_array(e, format!("concat({name}, {other})"), r);
                } else {
                    self.line(format!("{name} = concat({name}, {other});"));
                    self.arrs[k].v = r;
                }
            }
            13 => {
                self.see("reverse");
                let r: Vec<RV> = v.iter().rev().cloned().collect();
                if self.s.flip() {
                    self.line(format!("reverse({name});"));
                    self.arrs[k].v = r;
                } else {
                    self.new_array(e, format!("reversed({name})"), r);
                }
            }
            14 | 15 => {
                self.see("sort");
                let mut r = v.clone();
                if e.sortable() {
                    r.sort_by(order);
                    if self.s.flip() {
                        self.line(format!("sort({name});"));
                        self.arrs[k].v = r;
                    } else {
                        self.new_array(e, format!("sorted({name})"), r);
                    }
                } else if e == E::Pair {
                    let key = |x: &RV| if let RV::Tuple(t) = x { int(&t[0]) } else { unreachable!() };
                    let (f, c): (&str, fn(i64, i64) -> Ordering) = *self.s.pick(&[
                        ("cmp(l.0, r.0)", (|a, b| a.cmp(&b)) as fn(i64, i64) -> Ordering),
                        ("cmp(r.0, l.0)", |a, b| b.cmp(&a)),
                        ("cmp(rem(l.0, 2), rem(r.0, 2))", |a, b| (a % 2).cmp(&(b % 2))),
                        ("cmp(0, 0)", |_, _| Ordering::Equal),
                    ]);
                    r.sort_by(|a, b| c(key(a), key(b)));
                    self.see("sorted_by");
                    self.new_array(e, format!("sorted_by({name}, |l, r| {f})"), r);
                } else {
                    self.see("sorted_by");
                    let f = if e == E::Ints { "cmp(len(l), len(r))" } else { "cmp(to_string(r), to_string(l))" };
                    if let E::Ints = e {
                        let len = |x: &RV| if let RV::Array(t) = x { t.len() } else { 0 };
                        r.sort_by_key(len);
                    } else {
                        r.sort_by(|a, b| b.show().cmp(&a.show()));
                    }
                    self.new_array(e, format!("sorted_by({name}, |l, r| {f})"), r);
                }
            }
            16 => {
                self.see("split");
                if n > 60 {
                    return;
                }
                let m = if self.s.chance(1, 12) { 0 } else { 1 + self.s.idx(2) };
                let start = self.s.idx(n + 1);
                let mut sep: Vec<RV> = v.iter().skip(start).take(m).cloned().collect();
                while sep.len() < m {
                    sep.push(self.value(&e));
                }
                let ty = e.text();
                if m == 1 && self.s.flip() {
                    let parts = split_on(&v, &sep);
                    self.observe(&format!("[[{ty}]]"), format!("split({name}, ({}: {ty}))", lit(&sep[0])), RV::Array(parts));
                } else if m == 0 {
                    self.line(format!("let none: [{ty}] = [];"));
                    self.failing(format!("(split({name}, none): [[{ty}]])"), "InvalidArgument");
                } else {
                    let parts = split_on(&v, &sep);
                    let st = format!("({}: [{ty}])", lit(&RV::Array(sep.clone())));
                    let n = self.name("r");
                    self.line(format!("let {n}: [[{ty}]] = split({name}, {st});"));
                    self.obs.push((n.clone(), RV::Array(parts)));
                    self.see("join");
                    self.observe(&format!("[{ty}]"), format!("join({n}, {st})"), RV::Array(v));
                }
            }
            17 => {
                self.see("join");
                let m = self.s.idx(4);
                let parts: Vec<usize> = (0..m).map(|_| self.pick_of(|a| a.elem == e && a.v.len() < 40).unwrap_or(usize::MAX)).collect();
                if parts.contains(&usize::MAX) {
                    return;
                }
                let sep: Vec<RV> = (0..self.s.idx(3)).map(|_| self.value(&e)).collect();
                let mut r = vec![];
                for (i, p) in parts.iter().enumerate() {
                    if i > 0 {
                        r.extend(sep.clone());
                    }
                    r.extend(self.arrs[*p].v.clone());
                }
                let names: Vec<String> = parts.iter().map(|p| self.arrs[*p].name.clone()).collect();
                let ty = e.text();
                let text = format!("join(([{}]: [[{ty}]]), ({}: [{ty}]))", names.join(", "), lit(&RV::Array(sep)));
                self.new_array(e, text, r);
            }
            18 => {
                self.see("equality");
                let j = self.pick_of(|a| a.elem == e).unwrap();
                let other = self.arrs[j].name.clone();
                let same = self.arrs[j].v == v;
                let c = if self.s.flip() { ("==", same) } else { ("!=", !same) };
                self.observe("bool", format!("{name} {} {other}", c.0), RV::Bool(c.1));
                let x = self.value(&e);
                self.observe("bool", format!("contains({name}, {})", lit(&x)), RV::Bool(v.contains(&x)));
            }
            19 => {
                self.see("copy");
                if self.arrs.len() < 8 && self.s.flip() {
                    self.new_array(e, name, v);
                } else {
                    let j = self.pick_of(|a| a.elem == e).unwrap();
                    let other = self.arrs[j].name.clone();
                    self.line(format!("{other} = {name};"));
                    self.arrs[j].v = v;
                }
            }
            20 => {
                // Grows and rotates, so that the storage wraps and is enlarged in every state.
                if e != E::Int || n > 200 {
                    return;
                }
                self.see("loop");
                let (m, f) = (1 + self.s.idx(40) as i64, self.s.below(4));
                let body = ["array_append(A, i)", "array_prepend(A, i)", "array_append(A, i); let z = array_pop_front(A)", "array_prepend(A, i * 2); if rem(i, 3) == 0 { let z = array_pop_back(A); }"][f as usize];
                self.line(format!("for i in 0..{m} {{ {}; }};", body.replace('A', &name)));
                let a = &mut self.arrs[k].v;
                for i in 0..m {
                    match f {
                        0 => a.push(RV::Int(i)),
                        1 => a.insert(0, RV::Int(i)),
                        2 => {
                            a.push(RV::Int(i));
                            a.remove(0);
                        }
                        _ => {
                            a.insert(0, RV::Int(i * 2));
                            if i % 3 == 0 {
                                a.pop();
                            }
                        }
                    }
                }
            }
            21 => {
                self.see("len");
                let q = self.s.flip();
                self.observe("int", if q { format!("len({name})") } else { format!("count({name})") }, RV::Int(n as i64));
                self.observe("bool", format!("is_empty({name})"), RV::Bool(n == 0));
            }
            _ => self.sink(),
        }
    }

    /// Where the pipeline starts.
    fn source(&mut self) -> Seq {
        match self.s.below(7) {
            0..=2 => {
                let k = self.pick();
                let a = &self.arrs[k];
                Seq { text: a.name.clone(), v: a.v.clone(), kind: 0, elem: a.elem.clone() }
            }
            3 => {
                let k = self.pick();
                let a = &self.arrs[k];
                Seq { text: format!("iter({})", a.name), v: a.v.clone(), kind: 2, elem: a.elem.clone() }
            }
            k => {
                self.see("range");
                let near = *self.s.pick(&[0i64, 0, 0, 0, i64::MAX - 6, -i64::MAX + 6, 1000]);
                let mut bound = || near + self.s.range(-5, 6).clamp(-5, 6);
                let (a, b) = (bound(), bound());
                let inclusive = k == 6;
                let mut v: Vec<i64> = if a <= b { (a..b).collect() } else { (b + 1..=a).rev().collect() };
                if inclusive {
                    v.push(b);
                }
                let op = if inclusive { "..=" } else { ".." };
                let text = format!("({}{op}{})", int_text(a), int_text(b));
                let iter = self.s.flip();
                Seq {
                    text: if iter { format!("iter{text}") } else { text },
                    v: v.into_iter().map(RV::Int).collect(),
                    kind: if iter { 2 } else { 1 },
                    elem: E::Int,
                }
            }
        }
    }
    fn stage(&mut self, q: Seq) -> Seq {
        let pipe = self.s.flip();
        let call = |f: &str, arg: &str| match (pipe, arg.is_empty()) {
            (true, true) => format!("{} |> {f}()", q.text),
            (true, false) => format!("{} |> {f}({arg})", q.text),
            (false, true) => format!("{f}({})", q.text),
            (false, false) => format!("{f}({}, {arg})", q.text),
        };
        match self.s.below(8) {
            0 => {
                self.see("take");
                let n = self.s.range(-1, 9);
                Seq { text: call("take", &int_text(n)), v: q.v.iter().take(n.max(0) as usize).cloned().collect(), kind: 2, elem: q.elem }
            }
            1 => {
                self.see("skip");
                let n = self.s.range(-1, 9);
                Seq { text: call("skip", &int_text(n)), v: q.v.iter().skip(n.max(0) as usize).cloned().collect(), kind: 2, elem: q.elem }
            }
            2 => {
                self.see("chain");
                let o = self.source();
                if o.elem != q.elem {
                    return q;
                }
                let mut v = q.v.clone();
                v.extend(o.v);
                Seq { text: call("chain", &o.text), v, kind: 2, elem: q.elem }
            }
            3 if q.kind != 1 && q.elem == E::Int => {
                self.see("map");
                let (t, f): (&str, fn(i64) -> i64) = *self.s.pick(&[
                    ("|x| x + 1", (|x| x.wrapping_add(1)) as fn(i64) -> i64),
                    ("|x| x * x", |x| x.wrapping_mul(x)),
                    ("|x| if x > 2 { 0 } else { x }", |x| if x > 2 { 0 } else { x }),
                ]);
                Seq { text: call("map", t), v: q.v.iter().map(|x| RV::Int(f(int(x)))).collect(), kind: q.kind, elem: E::Int }
            }
            4 if q.kind != 1 && q.elem == E::Int => {
                self.see("map");
                Seq { text: call("map", "|x| to_string(x)"), v: q.v.iter().map(|x| RV::Str(int(x).to_string())).collect(), kind: q.kind, elem: E::Str }
            }
            5 if q.kind != 1 && q.elem == E::Int => {
                self.see("filter");
                let (t, f): (&str, fn(i64) -> bool) = *self.s.pick(&[
                    ("|x| x > 1", (|x| x > 1) as fn(i64) -> bool),
                    ("|x| rem(x, 2) == 0", |x| x % 2 == 0),
                    ("|x| x != 0", |x| x != 0),
                    ("|x| false", |_| false),
                ]);
                Seq { text: call("filter", t), v: q.v.iter().filter(|x| f(int(x))).cloned().collect(), kind: q.kind, elem: E::Int }
            }
            6 if q.kind != 1 && q.elem == E::Int => {
                self.see("filter_map");
                let v = q.v.iter().filter(|x| int(x) > 0).map(|x| RV::Int(int(x).wrapping_mul(10))).collect();
                Seq { text: call("filter_map", "|x| if x > 0 { Some(x * 10) } else { None }"), v, kind: q.kind, elem: E::Int }
            }
            7 if q.elem == E::Int => {
                let o = self.source();
                if o.elem != E::Int {
                    return q;
                }
                self.see("zip");
                let v = q.v.iter().zip(&o.v).map(|(a, b)| RV::Int(int(a).wrapping_sub(int(b)))).collect();
                Seq { text: format!("map({}, |p| p.0 - p.1)", call("zip", &o.text)), v, kind: 2, elem: E::Int }
            }
            _ if q.elem == E::Str => {
                self.see("enumerate");
                let v = q.v.iter().enumerate().map(|(i, x)| pair(RV::Int(i as i64), x.clone())).collect();
                Seq { text: call("enumerate", ""), v, kind: 2, elem: E::Pair }
            }
            _ => q,
        }
    }
    fn sink(&mut self) {
        let mut q = self.source();
        let n = self.s.idx(5);
        for _ in 0..n {
            if q.text.len() > 300 {
                break;
            }
            q = self.stage(q);
        }
        let (t, v, ty) = (q.text.clone(), q.v.clone(), q.elem.text());
        if v.len() > MAX {
            return;
        }
        match self.s.below(12) {
            0 | 1 => {
                self.see("collect");
                if q.kind == 0 && self.s.flip() {
                    self.new_array(q.elem, t, v);
                } else {
                    self.new_array(q.elem.clone(), format!("(collect({t}): [{ty}])"), v);
                }
            }
            2 => {
                self.see("for");
                let n = self.name("a");
                self.line(format!("let mut {n}: [{ty}] = [];"));
                self.line(format!("for x in {t} {{ array_append({n}, x); }};"));
                self.arrs.push(Arr { name: n, elem: q.elem, v });
            }
            3 => {
                self.see("count");
                self.observe("int", format!("count({t})"), RV::Int(v.len() as i64));
            }
            4 if q.elem == E::Int => {
                self.see("sum");
                self.observe("int", format!("sum({t})"), RV::Int(v.iter().fold(0, |a, x| a.wrapping_add(int(x)))));
            }
            5 if q.elem == E::Int => {
                self.see("fold");
                let r = v.iter().fold(7i64, |a, x| a.wrapping_mul(31).wrapping_sub(int(x)));
                self.observe("int", format!("fold({t}, 7, |a, x| a * 31 - x)"), RV::Int(r));
            }
            6 if q.elem == E::Int => {
                self.see("try_fold");
                let mut acc = 0i64;
                let mut broke = false;
                for x in &v {
                    if int(x) == 3 {
                        broke = true;
                        break;
                    }
                    acc = acc.wrapping_add(int(x));
                }
                let text = format!("match try_fold({t}, 0, |a, x| if x == 3 {{ Break }} else {{ Continue(a + x) }}) {{ Break => -99, Continue(v) => v }}");
                self.observe("int", text, RV::Int(if broke { -99 } else { acc }));
            }
            7 if q.elem == E::Int => {
                // A predicate that fails beyond the deciding element shows where the search stops.
                self.see("short circuit");
                let (hit, bad) = (self.s.range(-3, 5), self.s.range(-3, 5));
                let p = format!("|x| if x == {hit} {{ true }} else {{ if x == {bad} {{ panic(\"bad\") }} else {{ false }} }}");
                let first = v.iter().position(|x| int(x) == hit || int(x) == bad);
                let failed = first.is_some_and(|i| int(&v[i]) != hit);
                let f = *self.s.pick(&["any", "find", "position"]);
                if failed {
                    return self.failing(format!("{f}({t}, {p})"), "Aborted: bad");
                }
                match f {
                    "any" => self.observe("bool", format!("any({t}, {p})"), RV::Bool(first.is_some())),
                    "find" => self.observe("Option<int>", format!("find({t}, {p})"), some(first.map(|i| v[i].clone()))),
                    _ => self.observe("Option<int>", format!("position({t}, {p})"), some(first.map(|i| RV::Int(i as i64)))),
                }
            }
            8 if q.elem == E::Int => {
                self.see("all");
                let k = self.s.range(-3, 8);
                self.observe("bool", format!("all({t}, |x| x <= {})", int_text(k)), RV::Bool(v.iter().all(|x| int(x) <= k)));
            }
            9 if q.elem == E::Int => {
                self.see("minimum");
                let (f, r) = if self.s.flip() { ("minimum", v.iter().map(int).min()) } else { ("maximum", v.iter().map(int).max()) };
                match r {
                    Some(r) => self.observe("int", format!("{f}({t})"), RV::Int(r)),
                    None => self.failing(format!("{f}({t})"), &format!("Aborted: {f} of empty sequence")),
                }
            }
            10 if q.elem == E::Int => {
                self.see("for");
                // With break, continue and a position counter.
                let (stop, skip) = (self.s.range(-3, 6), self.s.range(-3, 6));
                let n = self.name("n");
                self.line(format!("let mut {n} = (0, 0);"));
                self.line(format!("for x in {t} {{ {n}.1 += 1; if x == {stop} {{ break; }}; if x == {skip} {{ continue; }}; {n}.0 = {n}.0 * 3 + x; }};"));
                let (mut a, mut c) = (0i64, 0i64);
                for x in &v {
                    c += 1;
                    if int(x) == stop {
                        break;
                    }
                    if int(x) == skip {
                        continue;
                    }
                    a = a.wrapping_mul(3).wrapping_add(int(x));
                }
                self.obs.push((n, pair(RV::Int(a), RV::Int(c))));
            }
            11 if q.kind == 1 => {
                self.see("range length");
                self.observe("int", format!("len({t})"), RV::Int(v.len() as i64));
                self.observe("bool", format!("is_empty({t})"), RV::Bool(v.is_empty()));
            }
            _ => {
                self.see("contains");
                let x = self.value(&q.elem);
                self.observe("bool", format!("any({t}, |x| x == {})", lit(&x)), RV::Bool(v.contains(&x)));
            }
        }
    }
}

fn run(env: &mut Env, src: &mut Src) -> Case {
    let mut g = Gen {
        s: src,
        arrs: vec![],
        obs: vec![],
        code: String::new(),
        ops: 0,
        labels: vec![],
        fail: None,
        fresh: 0,
        indent: String::new(),
    };
    let body = g.s.below(3);
    if body > 0 {
        g.indent = "    ".into();
    }
    for _ in 0..1 + g.s.idx(3) {
        let e = g.elem();
        let v = g.values(&e);
        g.new_array(e, lit(&RV::Array(v.clone())), v);
    }
    let n = 2 + g.s.idx(14);
    for _ in 0..n {
        if g.fail.is_some() {
            break;
        }
        g.step();
    }
    let mut names: Vec<String> = g.arrs.iter().map(|a| a.name.clone()).collect();
    let mut vals: Vec<RV> = g.arrs.iter().map(|a| RV::Array(a.v.clone())).collect();
    for (n, v) in &g.obs {
        names.push(n.clone());
        vals.push(v.clone());
    }
    names.push("0".into());
    vals.push(RV::Int(0));
    let result = format!("{}({})", g.indent, names.join(", "));
    let text = match body {
        0 => format!("{}{result}\n", g.code),
        _ => format!("{}fn f() {{\n{}{result}\n}}\nf()\n", if body == 1 { "#[inline(never)]\n" } else { "" }, g.code),
    };
    let want = match &g.fail {
        Some(k) => Out::Fail(k.clone()),
        None => Out::Val(RV::Tuple(vals)),
    };
    let (ops, labels) = (g.ops, g.labels);
    match expect(env, &text, &want) {
        Ok(_) => Case::pass(text, ops >= 6 && labels.len() >= 3).with(labels),
        Err(c) => c,
    }
}
