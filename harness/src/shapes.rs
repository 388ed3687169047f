//! Generator of imperative kernels that give the optimizer's passes something to do: index loops,
//! repeated subexpressions, invariant calls, string accumulation, flags, dead stores, small helpers,
//! closures. Inputs come from host cells, so nothing is known at compile time unless generated so.
//! There is no model: the programs are for comparing modes.
use crate::choice::Src;

pub struct Shape<'a> {
    s: &'a mut Src,
    /// Host reads and writes inside the kernels.
    host: bool,
    ints: Vec<String>,
    arrs: Vec<String>,
    bools: Vec<String>,
    strs: Vec<String>,
    floats: Vec<String>,
    /// Assignable among those.
    muts: Vec<String>,
    /// Integer expressions used before, to repeat.
    used: Vec<String>,
    helpers: usize,
    n: usize,
    depth: usize,
    in_loop: usize,
    budget: i64,
    pub labels: Vec<&'static str>,
}

const INTS: [&str; 12] = ["0", "1", "2", "3", "-1", "5", "7", "10", "-3", "64", "4611686018427387904", "9223372036854775807"];

impl<'a> Shape<'a> {
    pub fn program(s: &'a mut Src, host: bool) -> (String, Vec<&'static str>) {
        let mut g = Shape {
            s,
            host,
            ints: vec![],
            arrs: vec![],
            bools: vec![],
            strs: vec![],
            floats: vec![],
            muts: vec![],
            used: vec![],
            helpers: 0,
            n: 0,
            depth: 0,
            in_loop: 0,
            budget: 0,
            labels: vec![],
        };
        let mut out = String::new();
        let helpers = g.s.len(0, 3);
        for _ in 0..helpers {
            let h = g.helper();
            out.push_str(&h);
            g.helpers += 1;
        }
        let kernels = g.s.len(1, 2);
        let mut calls = vec![];
        for k in 0..kernels {
            let (text, call) = g.kernel(k);
            out.push_str(&text);
            calls.push(call);
            if g.s.chance(1, 3) {
                let c = calls[k].clone();
                calls.push(c);
            }
        }
        out.push_str(&if calls.len() == 1 { calls.pop().unwrap() } else { format!("({})", calls.join(", ")) });
        out.push('\n');
        (out, g.labels.clone())
    }
    fn seen(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }
    fn helper(&mut self) -> String {
        let k = self.helpers;
        let attr = ["", "#[inline(never)]\n", "#[inline(always)]\n"][self.s.weighted(&[4, 2, 1])];
        let saved = (std::mem::take(&mut self.ints), std::mem::take(&mut self.arrs), std::mem::take(&mut self.bools), std::mem::take(&mut self.used));
        self.ints = vec!["a".into(), "b".into()];
        let d = 2;
        let body = match self.s.below(5) {
            0 => format!("if {} {{ {} }} else {{ {} }}", self.bool(1), self.int(d), self.int(d)),
            1 => format!("let c = {}; {} + c", self.int(1), self.int(d)),
            2 => format!("if a <= 0 {{ {} }} else {{ h{k}(a - 1 - rem(a, 3), b) + {} }}", self.int(1), self.int(1)),
            _ => self.int(d),
        };
        (self.ints, self.arrs, self.bools, self.used) = saved;
        format!("{attr}fn h{k}(a: int, b: int) -> int {{ {body} }}\n")
    }
    fn kernel(&mut self, k: usize) -> (String, String) {
        self.ints = vec!["n".into(), "k".into()];
        self.arrs = vec!["a".into()];
        self.bools = vec!["p".into()];
        self.strs = vec!["s".into()];
        self.floats = vec!["x".into()];
        self.muts = vec![];
        self.used = vec![];
        self.budget = 14 + self.s.below(22) as i64;
        let mutable = self.s.flip();
        let attr = ["#[inline(never)]\n", ""][self.s.idx(2)];
        let mut body = String::new();
        // Locals to work on.
        let t = "t".to_string();
        body.push_str(&format!("let mut t = {};\n", self.int(1)));
        self.ints.push(t.clone());
        self.muts.push(t);
        if self.s.flip() {
            body.push_str("let mut o = s;\n");
            self.strs.push("o".into());
            self.muts.push("o".into());
        }
        if mutable {
            self.muts.push("a".into());
        } else if self.s.flip() {
            body.push_str("let mut c = a;\n");
            self.arrs.push("c".into());
            self.muts.push("c".into());
        }
        if self.s.flip() {
            body.push_str(&format!("let mut q = {};\n", self.bool(1)));
            self.bools.push("q".into());
            self.muts.push("q".into());
        }
        if self.s.chance(1, 4) {
            body.push_str(&format!("let mut y = {};\n", self.float(1)));
            self.floats.push("y".into());
            self.muts.push("y".into());
        }
        if self.s.chance(1, 3) {
            body.push_str(&format!("let mut z = ({}, {});\n", self.int(1), self.int(1)));
            for f in ["z.0", "z.1"] {
                self.ints.push(f.into());
                self.muts.push(f.into());
            }
        }
        let n = 1 + self.s.len(1, 3);
        for _ in 0..n {
            body.push_str(&self.stmt());
        }
        let mut outs = vec!["t".to_string()];
        for v in ["o", "c", "q", "y", "z"] {
            if body.contains(&format!("let mut {v} =")) {
                outs.push(v.to_string());
            }
        }
        if mutable {
            outs.push("a".into());
        }
        let ret = if outs.len() == 1 { outs[0].clone() } else { format!("({})", outs.join(", ")) };
        // Early returns carry the same shape.
        body = body.replace("return @", &format!("return {ret}"));
        let text = format!(
            "{attr}fn f{k}({}, n: int, k: int, p: bool, s: string, x: float) {{\n{body}{ret}\n}}\n",
            if mutable { "a: &mut [int]" } else { "a: [int]" }
        );
        let items = match self.s.below(5) {
            0 => "[]".to_string(),
            1 => "[host::get(0)]".into(),
            2 => "[host::get(0), host::get(1), host::get(2)]".into(),
            3 => "[3, host::get(1), -4, 5, host::get(3), 8]".into(),
            _ => "[1, 2, 3, 4]".into(),
        };
        let n = self.arg();
        let kk = self.arg();
        let p = ["host::get(2) > 1", "true", "false"][self.s.idx(3)];
        let s = ["\"\"", "\"ab\"", "to_string(host::get(1))", "\"é\""][self.s.idx(4)];
        let x = ["1.5", "0.0", "-2.25", "(host::get(3) as float)"][self.s.idx(3)];
        let call = if mutable {
            format!("{{ let mut w{k} = {}; f{k}(w{k}, {n}, {kk}, {p}, {s}, {x}) }}", if items == "[]" { "([]: [int])".into() } else { items })
        } else {
            format!("f{k}({items}, {n}, {kk}, {p}, {s}, {x})")
        };
        (text, call)
    }
    fn arg(&mut self) -> String {
        match self.s.below(3) {
            0 => format!("host::get({})", self.s.below(4)),
            1 => self.s.pick(&["0", "1", "2", "3", "4", "6", "-1"]).to_string(),
            _ => format!("host::get({}) + 1", self.s.below(4)),
        }
    }
    fn block(&mut self) -> String {
        self.depth += 1;
        let saved = (self.ints.len(), self.arrs.len(), self.bools.len(), self.strs.len(), self.floats.len(), self.muts.len(), self.used.len());
        let n = self.s.len(1, 3);
        let mut b = String::new();
        for _ in 0..n {
            b.push_str(&self.stmt());
        }
        self.ints.truncate(saved.0);
        self.arrs.truncate(saved.1);
        self.bools.truncate(saved.2);
        self.strs.truncate(saved.3);
        self.floats.truncate(saved.4);
        self.muts.truncate(saved.5);
        self.used.truncate(saved.6);
        self.depth -= 1;
        b
    }
    fn mut_of(&mut self, pool: &[String]) -> Option<String> {
        let c: Vec<String> = pool.iter().filter(|v| self.muts.contains(v)).cloned().collect();
        if c.is_empty() { None } else { Some(self.s.pick(&c).clone()) }
    }
    fn stmt(&mut self) -> String {
        self.budget -= 1;
        let deep = if self.depth < 3 && self.budget > 0 { 1 } else { 0 };
        let inl = if self.in_loop > 0 { 1 } else { 0 };
        let h = if self.host { 3 } else { 0 };
        match self.s.weighted(&[6 * deep, 2 * deep, 5 * deep, 6, 4, 3, 3, 2, 2, 2 * inl, 1, 2 * deep, 2, 2, h, 1 * deep]) {
            0 => {
                self.seen("for");
                let v = self.fresh("i");
                let (lo, hi) = match self.s.below(6) {
                    0 => ("0".to_string(), "n".to_string()),
                    1 => {
                        let a = self.arr();
                        ("0".into(), format!("len({a})"))
                    }
                    2 => ("1".into(), self.int(1)),
                    3 => (self.int(1), self.int(1)),
                    4 => {
                        let a = self.arr();
                        ("0".into(), format!("len({a}) - 1"))
                    }
                    _ => ("n".into(), "0".into()),
                };
                let op = if self.s.chance(1, 4) { "..=" } else { ".." };
                let head = match self.s.below(8) {
                    0 => {
                        self.seen("for over an array");
                        format!("for {v} in {}", self.arr())
                    }
                    _ => format!("for {v} in ({lo}){op}({hi})"),
                };
                // Bounds on the trip count come from fuel; keep big constants out.
                let head = head.replace("4611686018427387904", "9").replace("9223372036854775807", "8");
                self.ints.push(v.clone());
                self.in_loop += 1;
                let b = self.block();
                self.in_loop -= 1;
                self.ints.pop();
                format!("{head} {{\n{b}}};\n")
            }
            1 => {
                self.seen("loop");
                let w = self.fresh("w");
                let bound = ["n", "4", "k", "len(a)"][self.s.idx(4)];
                let step = ["1", "2", "1 + abs(rem(k, 2))"][self.s.idx(3)];
                self.ints.push(w.clone());
                self.in_loop += 1;
                let b = self.block().replace("continue;", "");
                self.in_loop -= 1;
                self.ints.pop();
                let early = self.s.flip();
                if early {
                    format!("let mut {w} = 0;\nloop {{\nif {w} >= {bound} {{ break }};\n{b}{w} += {step};\n}};\n")
                } else {
                    format!("let mut {w} = 0;\nloop {{\n{w} += {step};\n{b}if {w} >= {bound} {{ break }};\n}};\n")
                }
            }
            2 => {
                let c = self.bool(2);
                let a = self.block();
                let b = match self.s.below(4) {
                    0 => {
                        self.seen("equal arms");
                        a.clone()
                    }
                    1 => String::new(),
                    _ => self.block(),
                };
                if b.is_empty() { format!("if {c} {{\n{a}}};\n") } else { format!("if {c} {{\n{a}}} else {{\n{b}}};\n") }
            }
            3 => {
                let pool = self.ints.clone();
                let Some(v) = self.mut_of(&pool) else { return String::new() };
                let e = self.int(2);
                if self.s.chance(1, 6) {
                    self.seen("overwritten store");
                    let e1 = self.int(1);
                    return format!("{v} = {e1};\n{v} = {e};\n");
                }
                let op = ["=", "+=", "-=", "*="][self.s.weighted(&[4, 3, 1, 1])];
                format!("{v} {op} {e};\n")
            }
            4 => {
                let pool = self.arrs.clone();
                let Some(a) = self.mut_of(&pool) else { return String::new() };
                self.seen("array write");
                let i = self.index(&a);
                match self.s.below(6) {
                    0 => {
                        let j = self.index(&a);
                        format!("let sw = {a}[{i}];\n{a}[{i}] = {a}[{j}];\n{a}[{j}] = sw;\n")
                    }
                    1 => {
                        let e = self.int(1);
                        format!("{a}[{i}] += {e};\n")
                    }
                    _ => {
                        let e = self.int(2);
                        format!("{a}[{i}] = {e};\n")
                    }
                }
            }
            5 => {
                let pool = self.strs.clone();
                let Some(o) = self.mut_of(&pool) else { return String::new() };
                self.seen("string accumulation");
                let s2 = self.s.pick(&self.strs).clone();
                let i = self.s.pick(&self.ints).clone();
                let sep = ["", ",", "ab", "é"][self.s.idx(4)];
                match self.s.below(6) {
                    0 if !i.contains('.') => format!("{o} = f\"{{{o}}}{sep}{{{i}}}\";\n"),
                    1 => format!("{o} = f\"{{{o}}}{sep}{{{s2}}}\";\n"),
                    2 => format!("{o} = f\"{{{s2}}}{sep}{{{o}}}\";\n"),
                    3 => format!("{o} = concat({o}, \"{sep}x\");\n"),
                    4 => format!("string_push_str({o}, \"{sep}y\");\n"),
                    _ => format!("{o} = f\"{{{o}}}{sep}z{sep}\";\n"),
                }
            }
            6 => {
                let v = self.fresh("v");
                let e = self.int(2);
                self.ints.push(v.clone());
                if self.s.flip() {
                    self.muts.push(v.clone());
                    format!("let mut {v} = {e};\n")
                } else {
                    format!("let {v} = {e};\n")
                }
            }
            7 => {
                let pool = self.bools.clone();
                let Some(q) = self.mut_of(&pool) else { return String::new() };
                self.seen("flag");
                let e = self.bool(2);
                match self.s.below(3) {
                    0 => format!("{q} = not {q};\n"),
                    _ => format!("{q} = {e};\n"),
                }
            }
            8 => {
                let pool = self.arrs.clone();
                let Some(a) = self.mut_of(&pool) else { return String::new() };
                self.seen("array length change");
                let e = self.int(1);
                match self.s.below(3) {
                    0 => format!("array_append({a}, {e});\n"),
                    1 => format!("array_pop_back({a});\n"),
                    _ => format!("{a} = [{e}, {a}[0]];\n"),
                }
            }
            9 => {
                let c = self.bool(1);
                self.seen("loop exit");
                format!("if {c} {{ {} }};\n", ["break;", "continue;"][self.s.idx(2)].trim_end_matches(';'))
            }
            10 => {
                let c = self.bool(1);
                self.seen("early return");
                format!("if {c} {{ return @ }};\n")
            }
            11 => {
                let e = self.int(1);
                let a = self.block();
                let b = if self.s.chance(1, 3) { a.clone() } else { self.block() };
                format!("match {e} {{\n0 => {{ {a}}},\n{} => {{ {b}}},\n_ => {{ {}}},\n}};\n", ["1", "2", "-1"][self.s.idx(3)], self.block())
            }
            12 => {
                let pool = self.floats.clone();
                let Some(y) = self.mut_of(&pool) else { return String::new() };
                format!("{y} = {};\n", self.float(2))
            }
            13 => {
                self.seen("closure");
                let f = self.fresh("g");
                let c = self.int(1);
                let v = self.fresh("v");
                let a1 = self.int(1);
                self.ints.push(v.clone());
                let form = ["l + ", "l * ", "l - "][self.s.idx(3)];
                let cap = self.s.pick(&self.ints[..2]).clone();
                format!("let {f} = |l| {form}({cap} + {c});\nlet {v} = {f}({a1}) + {f}(1);\n")
            }
            14 => {
                self.seen("host write");
                let e = self.int(1);
                match self.s.below(4) {
                    0 => format!("host::put({}, {e});\n", self.s.below(4)),
                    1 => format!("host::say({});\n", self.s.pick(&self.strs)),
                    2 => format!("let tk = host::tick();\n"),
                    _ => format!("let sw = host::swap({}, {e});\n", self.s.below(4)),
                }
            }
            _ => {
                let b = self.block();
                format!("{{\n{b}}};\n")
            }
        }
    }
    fn arr(&mut self) -> String {
        self.s.pick(&self.arrs).clone()
    }
    fn index(&mut self, a: &str) -> String {
        let v = self.s.pick(&self.ints).clone();
        match self.s.weighted(&[8, 3, 3, 2, 2, 2, 2, 1]) {
            0 => v,
            1 => format!("{v} + 1"),
            2 => format!("{v} - 1"),
            3 => "-1".into(),
            4 => format!("len({a}) - 1 - {v}"),
            5 => "0".into(),
            6 => format!("-{}", if v.contains('.') { format!("({v})") } else { v }),
            _ => self.int(1),
        }
    }
    fn int(&mut self, d: u32) -> String {
        if d == 0 {
            return match self.s.below(3) {
                0 => self.s.pick(&INTS).to_string(),
                _ => self.s.pick(&self.ints).clone(),
            };
        }
        if !self.used.is_empty() && self.s.chance(1, 4) {
            self.seen("repeated expression");
            return self.s.pick(&self.used).clone();
        }
        let arrs = if self.arrs.is_empty() { 0 } else { 1 };
        let h = if self.helpers > 0 { 1 } else { 0 };
        let hc = if self.host { 1 } else { 0 };
        let e = match self.s.weighted(&[6, 4, 2, 2, 2, 5 * arrs, 3 * arrs, 4 * h, 1, 1, arrs, 1, hc, 1, arrs]) {
            0 => format!("({} {} {})", self.int(d - 1), ["+", "-", "*"][self.s.weighted(&[4, 3, 2])], self.int(d - 1)),
            1 => self.int(0),
            2 => format!("{}({}, {})", ["idiv", "rem", "mod", "idiv_euclid"][self.s.idx(4)], self.int(d - 1), self.int(d - 1)),
            3 => format!("{}({}, {})", ["min", "max"][self.s.idx(2)], self.int(d - 1), self.int(d - 1)),
            4 => format!("abs({})", self.int(d - 1)),
            5 => {
                let a = self.arr();
                let i = self.index(&a);
                format!("{a}[{i}]")
            }
            6 => format!("len({})", self.arr()),
            7 => {
                self.seen("helper call");
                let k = self.s.idx(self.helpers);
                let a = self.int(0);
                format!("h{k}(rem({a}, 7), {})", self.int(d - 1))
            }
            8 => format!("(if {} {{ {} }} else {{ {} }})", self.bool(d - 1), self.int(d - 1), self.int(d - 1)),
            9 => format!("(|u| u + {})({})", self.int(d - 1), self.int(d - 1)),
            10 => format!("len({} |> map(|e| e * 2))", self.arr()),
            11 => format!("bit_and({}, {})", self.int(d - 1), self.int(d - 1)),
            12 => ["host::get(0)", "host::get(1)", "host::tick()", "host::get(n)"][self.s.idx(4)].to_string(),
            13 => format!("(0 - {})", self.int(d - 1)),
            _ => {
                let a = self.arr();
                format!("fold({a}, 0, |m, e| m + e)").replace("fold(", "fold_(")
            }
        };
        let e = if e.contains("fold_(") { "n".to_string() } else { e };
        if self.used.len() < 6 && !e.contains("host::") && e.len() < 40 {
            self.used.push(e.clone());
        }
        e
    }
    fn bool(&mut self, d: u32) -> String {
        let arrs = if self.arrs.is_empty() { 0 } else { 1 };
        match self.s.weighted(&[6, if self.bools.is_empty() { 0 } else { 2 }, 1, 2, 2, 1, arrs * 2]) {
            0 => format!("{} {} {}", self.int(d.min(1)), ["<", "<=", ">", ">=", "==", "!="][self.s.idx(6)], self.int(d.min(1))),
            1 => self.s.pick(&self.bools).clone(),
            2 => ["true", "false"][self.s.idx(2)].into(),
            3 if d > 0 => format!("({} {} {})", self.bool(d - 1), ["and", "or"][self.s.idx(2)], self.bool(d - 1)),
            4 if d > 0 => {
                self.seen("negation");
                format!("(not ({}))", self.bool(d - 1))
            }
            5 if d > 0 => format!("(({}) == {})", self.bool(d - 1), ["true", "false"][self.s.idx(2)]),
            6 => {
                let a = self.arr();
                let i = self.index(&a);
                format!("{a}[{i}] {} {}", ["<", ">", "=="][self.s.idx(3)], self.int(0))
            }
            _ => format!("{} < {}", self.int(0), self.int(0)),
        }
    }
    fn float(&mut self, d: u32) -> String {
        if d == 0 {
            return match self.s.below(2) {
                0 => self.s.pick(&self.floats).clone(),
                _ => ["0.0", "1.0", "-1.0", "2.5", "1e300", "-0.0"][self.s.idx(6)].into(),
            };
        }
        match self.s.below(6) {
            0 => format!("({} / {})", self.float(d - 1), self.float(d - 1)),
            1 => format!("({} * {})", self.float(d - 1), self.float(d - 1)),
            2 => format!("({} - {})", self.float(d - 1), self.float(d - 1)),
            3 => format!("(if {} {{ {} }} else {{ {} }})", self.bool(1), self.float(d - 1), self.float(d - 1)),
            4 => format!("abs({})", self.float(d - 1)),
            _ => format!("({} + {})", self.float(d - 1), self.float(d - 1)),
        }
    }
}
