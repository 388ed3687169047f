//! Sets and maps against association lists.
use crate::choice::Src;
use crate::driver::{Case, Prop};
use crate::props::Env;
use crate::props::util::{expect, int_text, quote};
use crate::rt::{Out, RV};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "at least six operations of at least four kinds, on collections that reach four elements",
        assumptions: &["which of several equal keys a collection keeps is not observed"],
        quick: 700,
        thorough: 30_000,
        batch: 25,
        case_secs: 20,
        hang_ok: false,
        prepare: |env| env.rt.with_host = false,
        run,
    }
}

#[derive(Clone, PartialEq, Debug)]
enum K {
    Int,
    Str,
    Float,
    Bool,
    Pair,
    Ints,
    Opt,
    /// A user type whose hash takes `.0` values only.
    Poor(u8),
    Set,
}
const KS: [K; 11] = [K::Int, K::Int, K::Str, K::Float, K::Bool, K::Pair, K::Ints, K::Opt, K::Poor(0), K::Poor(1), K::Poor(3)];

impl K {
    fn ty(&self) -> String {
        match self {
            K::Int => "int".into(),
            K::Str => "string".into(),
            K::Float => "float".into(),
            K::Bool => "bool".into(),
            K::Pair => "(int, string)".into(),
            K::Ints => "[int]".into(),
            K::Opt => "Option<int>".into(),
            K::Poor(m) => format!("K{m}"),
            K::Set => "HashSet<int>".into(),
        }
    }
}
fn lit(k: &K, v: &RV) -> String {
    match (k, v) {
        (K::Poor(m), RV::Tuple(t)) => format!("K{m}({})", lit(&K::Int, &t[0])),
        (K::Set, RV::Array(t)) if t.is_empty() => "(hash_set_new(): HashSet<int>)".into(),
        (K::Set, RV::Array(t)) => format!("set {{ {} }}", t.iter().map(|x| lit(&K::Int, x)).collect::<Vec<_>>().join(", ")),
        (_, RV::Int(i)) => int_text(*i),
        (_, RV::Float(f)) => {
            let f = f64::from_bits(*f);
            if f < 0.0 { format!("(-{:?})", -f) } else { format!("{f:?}") }
        }
        (_, RV::Bool(b)) => b.to_string(),
        (_, RV::Str(s)) => quote(s),
        (_, RV::Tuple(v)) => format!("({})", v.iter().map(|x| lit(&K::Int, x)).collect::<Vec<_>>().join(", ")),
        (_, RV::Array(v)) if v.is_empty() => "([]: [int])".into(),
        (_, RV::Array(v)) => format!("[{}]", v.iter().map(|x| lit(&K::Int, x)).collect::<Vec<_>>().join(", ")),
        (_, RV::Variant(_, Some(p))) => {
            let RV::Tuple(p) = &**p else { unreachable!() };
            format!("Some({})", lit(&K::Int, &p[0]))
        }
        (_, RV::Variant(t, None)) => t.clone(),
        _ => unreachable!(),
    }
}
/// As `to_string` prints it.
fn shown(k: &K, v: &RV) -> String {
    match (k, v) {
        (K::Poor(_), RV::Tuple(t)) => shown(&K::Int, &t[0]),
        (_, RV::Int(i)) => i.to_string(),
        (_, RV::Float(f)) => f64::from_bits(*f).to_string(),
        (_, RV::Bool(b)) => b.to_string(),
        (_, RV::Str(s)) => s.clone(),
        (_, RV::Tuple(v)) => format!("({})", v.iter().map(|x| shown(&K::Int, x)).collect::<Vec<_>>().join(", ")),
        (_, RV::Array(v)) => format!("[{}]", v.iter().map(|x| shown(&K::Int, x)).collect::<Vec<_>>().join(", ")),
        (_, RV::Variant(_, Some(p))) => {
            let RV::Tuple(p) = &**p else { unreachable!() };
            format!("Some ({})", shown(&K::Int, &p[0]))
        }
        (_, RV::Variant(t, None)) => t.clone(),
        _ => unreachable!(),
    }
}
fn word(t: &str) -> String {
    t.replace(|c: char| !c.is_alphanumeric(), "_")
}
fn opt(v: Option<RV>) -> RV {
    match v {
        Some(v) => RV::Variant("Some".into(), Some(Box::new(RV::Tuple(vec![v])))),
        None => RV::Variant("None".into(), None),
    }
}

struct Coll {
    name: String,
    map: bool,
    k: K,
    /// Keys with values; sets have unit values.
    v: Vec<(RV, RV)>,
}

struct Gen<'a> {
    s: &'a mut Src,
    c: Vec<Coll>,
    obs: Vec<(String, RV)>,
    code: String,
    ops: usize,
    labels: Vec<&'static str>,
    fresh: usize,
    big: usize,
    space: i64,
}

impl Gen<'_> {
    fn see(&mut self, l: &'static str) {
        self.ops += 1;
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn key(&mut self, k: &K) -> RV {
        let sp = self.space;
        match k {
            K::Int => RV::Int(if self.s.chance(1, 10) { self.s.int() } else { self.s.range(0, sp) }),
            K::Str => RV::Str(if self.s.flip() { (*self.s.pick(&["", "a", "b", "é", "👍"])).into() } else { format!("k{}", self.s.range(0, sp)) }),
            K::Float => RV::Float((self.s.range(1, sp + 1) as f64 / 2.0 * if self.s.flip() { 1.0 } else { -1.0 }).to_bits()),
            K::Bool => RV::Bool(self.s.flip()),
            K::Pair => RV::Tuple(vec![RV::Int(self.s.range(0, 4)), RV::Str((*self.s.pick(&["x", "y", ""])).into())]),
            K::Ints | K::Set => {
                let n = self.s.idx(4);
                let mut v: Vec<i64> = (0..n).map(|_| self.s.range(0, 3)).collect();
                if *k == K::Set {
                    v.sort();
                    v.dedup();
                }
                RV::Array(v.into_iter().map(RV::Int).collect())
            }
            K::Opt => {
                let v = if self.s.chance(1, 4) { None } else { Some(RV::Int(self.s.range(0, sp))) };
                opt(v)
            }
            K::Poor(_) => RV::Tuple(vec![RV::Int(self.s.range(0, sp))]),
        }
    }
    fn name(&mut self, p: &str) -> String {
        self.fresh += 1;
        format!("{p}{}", self.fresh)
    }
    fn line(&mut self, t: String) {
        self.code.push_str("    ");
        self.code.push_str(&t);
        self.code.push('\n');
    }
    fn observe(&mut self, ty: &str, text: String, v: RV) {
        let n = self.name("r");
        self.line(format!("let {n}: {ty} = {text};"));
        self.obs.push((n, v));
    }
    fn ty(&self, map: bool, k: &K) -> String {
        if map { format!("HashMap<{}, int>", k.ty()) } else { format!("HashSet<{}>", k.ty()) }
    }
    fn put(v: &mut Vec<(RV, RV)>, key: RV, val: RV, map: bool) -> Option<RV> {
        if let Some(e) = v.iter_mut().find(|e| e.0 == key) {
            let old = e.1.clone();
            if map {
                e.1 = val;
            }
            return Some(old);
        }
        v.push((key, val));
        None
    }
    fn create(&mut self) {
        let map = self.s.flip();
        let k = if self.c.is_empty() { if self.s.chance(1, 12) { K::Set } else { self.s.pick(&KS).clone() } } else { self.c[0].k.clone() };
        let n = self.name("c");
        let ty = self.ty(map, &k);
        let len = self.s.idx(6);
        let entries: Vec<(RV, RV)> = (0..len).map(|_| (self.key(&k), if map { RV::Int(self.s.range(0, 9)) } else { RV::Unit })).collect();
        let mut v = vec![];
        for (a, b) in &entries {
            Self::put(&mut v, a.clone(), b.clone(), map);
        }
        let text = |map: bool, sep: &str| entries.iter().map(|(a, b)| if map { format!("{}{sep}{}", lit(&k, a), lit(&K::Int, b)) } else { lit(&k, a) }).collect::<Vec<_>>();
        let init = match self.s.below(3) {
            _ if entries.is_empty() => {
                self.see("new");
                if map { "hash_map_new()".to_string() } else { "hash_set_new()".to_string() }
            }
            0 => {
                self.see("collect");
                let items = if map { entries.iter().map(|(a, b)| format!("({}, {})", lit(&k, a), lit(&K::Int, b))).collect() } else { text(false, "") };
                format!("collect([{}])", items.join(", "))
            }
            _ => {
                self.see("literal");
                format!("{} {{ {} }}", if map { "map" } else { "set" }, text(map, " => ").join(", "))
            }
        };
        self.line(format!("let mut {n}: {ty} = {init};"));
        self.c.push(Coll { name: n, map, k, v });
    }
    fn step(&mut self) {
        let i = self.s.idx(self.c.len());
        let (name, map, k) = (self.c[i].name.clone(), self.c[i].map, self.c[i].k.clone());
        let ty = self.ty(map, &k);
        let key = if self.s.chance(1, 3) && !self.c[i].v.is_empty() {
            let j = self.s.idx(self.c[i].v.len());
            self.c[i].v[j].0.clone()
        } else {
            self.key(&k)
        };
        let kt = lit(&k, &key);
        let found = self.c[i].v.iter().find(|e| e.0 == key).map(|e| e.1.clone());
        match self.s.below(16) {
            0..=3 => {
                self.see("insert");
                if map {
                    let x = self.s.range(-5, 50);
                    self.observe("Option<int>", format!("map_insert({name}, {kt}, {})", int_text(x)), opt(found));
                    Self::put(&mut self.c[i].v, key, RV::Int(x), true);
                } else {
                    self.observe("bool", format!("set_insert({name}, {kt})"), RV::Bool(found.is_none()));
                    Self::put(&mut self.c[i].v, key, RV::Unit, false);
                }
            }
            4..=6 => {
                self.see("lookup");
                if !map {
                    self.observe("bool", format!("set_contains({name}, {kt})"), RV::Bool(found.is_some()));
                } else {
                    match self.s.below(3) {
                        0 => self.observe("Option<int>", format!("map_get({name}, {kt})"), opt(found)),
                        1 => self.observe("bool", format!("map_contains_key({name}, {kt})"), RV::Bool(found.is_some())),
                        _ => {
                            let x = match &found {
                                Some(RV::Int(x)) if self.s.flip() => *x,
                                _ => self.s.range(-5, 50),
                            };
                            self.observe("bool", format!("map_contains_key_value({name}, {kt}, {})", int_text(x)), RV::Bool(found == Some(RV::Int(x))));
                        }
                    }
                }
            }
            7 => {
                self.see("length");
                let n = self.c[i].v.len();
                self.observe("(int, bool)", format!("(len({name}), is_empty({name}))"), RV::Tuple(vec![RV::Int(n as i64), RV::Bool(n == 0)]));
            }
            8 if self.c.len() < 6 => {
                self.see("copy");
                let n = self.name("c");
                self.line(format!("let mut {n}: {ty} = {name};"));
                let v = self.c[i].v.clone();
                self.c.push(Coll { name: n, map, k, v });
            }
            9 | 10 => {
                self.see("equality");
                // With another collection, or with the same content in another order of insertion.
                let j = self.s.idx(self.c.len());
                if self.s.flip() && self.c[j].map == map && self.c[j].k == k {
                    let (a, b) = (&self.c[i].v, &self.c[j].v);
                    let same = a.len() == b.len() && a.iter().all(|x| b.contains(x));
                    let other = self.c[j].name.clone();
                    self.observe("(bool, bool)", format!("({name} == {other}, {other} != {name})"), RV::Tuple(vec![RV::Bool(same), RV::Bool(!same)]));
                } else {
                    let mut order = self.c[i].v.clone();
                    for a in (1..order.len()).rev() {
                        let b = self.s.idx(a + 1);
                        order.swap(a, b);
                    }
                    let mut same = true;
                    if self.s.chance(1, 4) && !order.is_empty() {
                        order.pop();
                        same = false;
                    }
                    let n = self.name("c");
                    self.line(format!("let mut {n}: {ty} = {};", if map { "hash_map_new()" } else { "hash_set_new()" }));
                    for (a, b) in &order {
                        let a = lit(&k, a);
                        self.line(if map { format!("map_insert({n}, {a}, {});", lit(&K::Int, b)) } else { format!("set_insert({n}, {a});") });
                    }
                    self.observe("(bool, bool)", format!("({name} == {n}, {n} == {name})"), RV::Tuple(vec![RV::Bool(same), RV::Bool(same)]));
                    if same {
                        self.observe("bool", format!("value_hash({name}) == value_hash({n})"), RV::Bool(true));
                    }
                    self.c.push(Coll { name: n, map, k, v: order });
                }
            }
            11 if k == K::Int => {
                self.see("insert in a loop");
                let (n, m, d) = (self.s.range(3, 40), self.s.range(1, 9), self.s.range(2, 60));
                if map {
                    self.line(format!("for i in 0..{n} {{ map_insert({name}, mod(i * {m}, {d}), i); }};"));
                } else {
                    self.line(format!("for i in 0..{n} {{ set_insert({name}, mod(i * {m}, {d})); }};"));
                }
                for x in 0..n {
                    Self::put(&mut self.c[i].v, RV::Int((x * m).rem_euclid(d)), if map { RV::Int(x) } else { RV::Unit }, map);
                }
            }
            12 if map => {
                self.see("update in a function");
                // Through a mutable argument, then the original is read again.
                let x = self.s.range(0, 9);
                self.line(format!("bump_{}({name}, {kt}, {x});", k.ty().replace(|c: char| !c.is_alphanumeric(), "_")));
                let old = match found {
                    Some(RV::Int(o)) => o,
                    _ => 0,
                };
                Self::put(&mut self.c[i].v, key, RV::Int(old + x), true);
            }
            13 => {
                self.see("clear");
                self.line(format!("{name} = {};", if map { "hash_map_new()" } else { "hash_set_new()" }));
                self.c[i].v.clear();
            }
            _ => self.content(i),
        }
        self.big = self.big.max(self.c[i].v.len());
    }
    /// What iteration gives, whatever the order.
    fn content(&mut self, i: usize) {
        if self.c[i].k == K::Set {
            return;
        }
        self.see("iterate");
        let Coll { name, map, k, v } = &self.c[i];
        let name = name.clone();
        let mut items: Vec<String> = v.iter().map(|(a, b)| if *map { format!("{}={}", shown(k, a), shown(&K::Int, b)) } else { shown(k, a) }).collect();
        items.sort();
        let want = RV::Array(items.into_iter().map(RV::Str).collect());
        let w = word(&self.ty(*map, k));
        self.observe("[string]", format!("items_{w}({name})"), want);
    }
}

fn run(env: &mut Env, src: &mut Src) -> Case {
    let space = *src.pick(&[7, 3, 30, 14]);
    let mut g = Gen { s: src, c: vec![], obs: vec![], code: String::new(), ops: 0, labels: vec![], fresh: 0, big: 0, space };
    for _ in 0..1 + g.s.idx(2) {
        g.create();
    }
    let n = 3 + g.s.idx(16);
    for _ in 0..n {
        g.step();
    }
    for i in 0..g.c.len() {
        g.content(i);
        let n = g.c[i].v.len() as i64;
        g.observe("int", format!("len({})", g.c[i].name), RV::Int(n));
    }
    let mut head = String::new();
    for m in [0u8, 1, 3] {
        if g.c.iter().any(|c| c.k == K::Poor(m)) {
            head.push_str(&format!(
                "struct K{m}(int)\nimpl Value for K{m} {{\n  fn eq(l: K{m}, r: K{m}) -> bool {{ l.0 == r.0 }}\n  fn to_string(v: K{m}) -> string {{ to_string(v.0) }}\n  fn hash(v: K{m}, state: &mut hasher) {{ hash(bit_and(v.0, {m}), state) }}\n  fn clone(v: K{m}) -> K{m} {{ K{m}(v.0) }}\n  fn drop(v: &mut K{m}) {{}}\n}}\n"
            ));
        }
    }
    let mut done: Vec<String> = vec![];
    for c in &g.c {
        let n = word(&c.k.ty());
        let w = word(&g.ty(c.map, &c.k));
        if g.code.contains(&format!("items_{w}(")) && !done.contains(&w) {
            let (kt, ty) = (c.k.ty(), g.ty(c.map, &c.k));
            // The text of a collection is that of its items in the order of iteration.
            let (item, show) = if c.map {
                (format!("({kt}, int)"), "string_concat(to_string(e.0), string_concat(\"=\", to_string(e.1)))")
            } else {
                (kt, "to_string(e)")
            };
            head.push_str(&format!(
                "fn items_{w}(c: {ty}) -> [string] {{\n  let items = (collect(iter(c)): [{item}]);\n  let mut out = map(items, |e| {show});\n  sort(out);\n  let text = string_concat(string_concat(\"{{ \", join(map(items, |e| to_string(e)), \", \")), \" }}\");\n  if to_string(c) != text {{ panic(to_string(c)) }};\n  out\n}}\n"
            ));
            done.push(w);
        }
        if c.map && g.code.contains(&format!("bump_{n}(")) && !done.contains(&n) {
            let k = c.k.ty();
            head.push_str(&format!(
                "fn bump_{n}(m: &mut HashMap<{k}, int>, k: {k}, by: int) {{\n  let old = match map_get(m, k) {{ Some(x) => x, None => 0 }};\n  map_insert(m, k, old + by);\n}}\n"
            ));
            done.push(n);
        }
    }
    let mut names: Vec<String> = g.obs.iter().map(|o| o.0.clone()).collect();
    let mut vals: Vec<RV> = g.obs.iter().map(|o| o.1.clone()).collect();
    names.push("0".into());
    vals.push(RV::Int(0));
    let text = format!("{head}fn f() {{\n{}    ({})\n}}\nf()\n", g.code, names.join(", "));
    let (ops, labels, big) = (g.ops, g.labels, g.big);
    match expect(env, &text, &Out::Val(RV::Tuple(vals))) {
        Ok(_) => Case::pass(text, ops >= 6 && labels.len() >= 4 && big >= 4).with(labels),
        Err(c) => c,
    }
}
