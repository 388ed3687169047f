//! Strings against Rust texts: every operation as the same operation on normalized Unicode text.
use crate::choice::Src;
use crate::driver::{Case, Prop};
use crate::props::Env;
use crate::props::util::{expect, int_text};
use crate::rt::{Mode, Out, RV};
use unicode_normalization::UnicodeNormalization;
use unicode_segmentation::UnicodeSegmentation;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "at least five operations of at least three kinds on texts of which one is not ASCII or needs an escape",
        assumptions: &[
            "characters are the extended grapheme clusters of the unicode-segmentation crate, and texts are in the normal form C of the unicode-normalization crate",
            "an empty text to replace is not generated: its meaning is not documented",
        ],
        quick: 5000,
        thorough: 150_000,
        batch: 100,
        case_secs: 20,
        hang_ok: false,
        prepare: |env| env.rt.with_host = false,
        run,
    }
}

fn nfc(s: &str) -> String {
    s.nfc().collect()
}
fn clusters(s: &str) -> Vec<&str> {
    s.graphemes(true).collect()
}

const PIECES: [&str; 58] = [
    "a", "b", "ab", " ", "", "A", "z", "0", "12", "-", ",", ", ", "é", "e\u{301}", "\u{301}", "\u{308}", "o", "n", "\n", "\r\n", "\r", "\t",
    "\0", "\"", "\\", "'", "{", "}", "{x}", "{{", "ß", "İ", "ı", "Σ", "ς", "ﬁ", "👍", "👨\u{200d}👩\u{200d}👧", "🇨🇭", "🇨", "\u{1100}", "\u{1161}",
    "\u{11a8}", "가", "日本", "\u{85}", "\u{a0}", "\u{3000}", "\u{200d}", "\u{feff}", "\u{7f}", "\u{1b}", "\u{9f}", "true", "x", "//", "\u{10ffff}",
    "\\n",
];

struct Gen<'a> {
    s: &'a mut Src,
    /// Variables in scope and their values.
    vars: Vec<(String, String)>,
    obs: Vec<(String, RV)>,
    code: String,
    ops: usize,
    labels: Vec<&'static str>,
    fail: Option<String>,
    fresh: usize,
    odd: bool,
}

fn rs(s: &str) -> RV {
    RV::Str(s.into())
}

impl Gen<'_> {
    fn see(&mut self, l: &'static str) {
        self.ops += 1;
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn text(&mut self) -> String {
        let n = self.s.len(0, 6);
        let t: String = (0..n).map(|_| *self.s.pick(&PIECES)).collect();
        if !t.is_ascii() || t.chars().any(|c| c == '"' || c == '\\' || c.is_control()) {
            self.odd = true;
        }
        t
    }
    /// A literal for a text; characters may be written as escapes.
    fn literal(&mut self, t: &str) -> String {
        let mut o = String::from("\"");
        for c in t.chars() {
            match self.s.below(8) {
                0 => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
                1 if (c as u32) < 256 => o.push_str(&format!("\\x{:02X}", c as u32)),
                2 => o.push_str(&format!("\\u{{{:06X}}}", c as u32)),
                n => match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' if n < 6 => o.push_str("\\n"),
                    '\t' if n < 6 => o.push_str("\\t"),
                    '\0' if n < 6 => o.push_str("\\0"),
                    '\r' => o.push_str("\\r"),
                    c => o.push(c),
                },
            }
        }
        o.push('"');
        o
    }
    fn name(&mut self, p: &str) -> String {
        self.fresh += 1;
        format!("{p}{}", self.fresh)
    }
    fn line(&mut self, t: String) {
        self.code.push_str("    ");
        self.code.push_str(&t);
        self.code.push('\n');
    }
    fn observe(&mut self, ty: &str, text: String, v: RV) {
        let n = self.name("r");
        self.line(format!("let {n}: {ty} = {text};"));
        self.obs.push((n, v));
    }
    fn new_var(&mut self, text: String, v: String) {
        if v.len() > 400 {
            return;
        }
        let n = self.name("s");
        self.line(format!("let mut {n} = {text};"));
        self.vars.push((n, v));
    }
    /// An operand: a variable or a literal.
    fn operand(&mut self) -> (String, String) {
        if self.s.chance(2, 3) && !self.vars.is_empty() {
            return self.s.pick(&self.vars).clone();
        }
        let t = self.text();
        (self.literal(&t), nfc(&t))
    }
    /// A text likely to occur in another.
    fn part_of(&mut self, whole: &str) -> (String, String) {
        if self.s.chance(1, 4) {
            return self.operand();
        }
        let g = clusters(whole);
        if g.is_empty() {
            return self.operand();
        }
        let a = self.s.idx(g.len());
        let b = a + 1 + self.s.idx((g.len() - a).min(3));
        let t = g[a..b].concat();
        (self.literal(&t), t)
    }
    fn index(&mut self, n: usize) -> i64 {
        let n = n as i64;
        if self.s.chance(1, 10) {
            return *self.s.pick(&[n + 1, -n - 1, i64::MAX, -i64::MAX, 100]);
        }
        self.s.range(-n, n)
    }

    fn step(&mut self) {
        let (t, v) = self.operand();
        match self.s.below(24) {
            0..=2 => {
                self.see("concat");
                let (u, w) = self.operand();
                let f = *self.s.pick(&["string_concat", "concat"]);
                self.new_var(format!("{f}({t}, {u})"), nfc(&format!("{v}{w}")));
            }
            3..=5 if !self.vars.is_empty() => {
                self.see("push");
                let i = self.s.idx(self.vars.len());
                let (name, old) = self.vars[i].clone();
                let (name, v) = if t == name { (name, nfc(&v)) } else { (name, v) };
                let k = if self.s.chance(1, 3) { 1 + self.s.idx(3) } else { 1 };
                if old.len() + k * v.len() > 400 {
                    return;
                }
                let mut new = old;
                for _ in 0..k {
                    new = nfc(&format!("{new}{v}"));
                }
                // The suffix must be another place.
                let t = if t == name { let l = self.name("c"); self.line(format!("let {l} = {t};")); l } else { t };
                if k > 1 {
                    self.line(format!("for i in 0..{k} {{ string_push_str({name}, {t}); }};"));
                } else {
                    self.line(format!("string_push_str({name}, {t});"));
                }
                self.vars[i].1 = new;
            }
            6 | 7 => {
                self.see("slice");
                let n = clusters(&v).len();
                let (a, b) = (self.index(n), self.index(n));
                let norm = |i: i64| if i < 0 { (n as i128 + i as i128).max(0) as usize } else { (i as u64).min(n as u64) as usize };
                let (x, y) = (norm(a), norm(b));
                let r = if y <= x { String::new() } else { clusters(&v)[x..y].concat() };
                let f = *self.s.pick(&["slice", "string_slice"]);
                self.new_var(format!("{f}({t}, {}, {})", int_text(a), int_text(b)), r);
            }
            8 => {
                self.see("length");
                self.observe("(int, int, int, bool)", format!("(len({t}), string_len({t}), string_byte_len({t}), string_is_empty({t}))"), {
                    let n = RV::Int(clusters(&v).len() as i64);
                    RV::Tuple(vec![n.clone(), n, RV::Int(v.len() as i64), RV::Bool(v.is_empty())])
                });
            }
            9 | 10 => {
                self.see("search");
                let (u, w) = self.part_of(&v);
                let (f, r) = match self.s.below(3) {
                    0 => ("contains_substring", v.contains(&w)),
                    1 => ("string_starts_with", v.starts_with(&w)),
                    _ => ("string_ends_with", v.ends_with(&w)),
                };
                self.observe("bool", format!("{f}({t}, {u})"), RV::Bool(r));
            }
            11 | 12 => {
                self.see("replace");
                let (u, w) = self.part_of(&v);
                if w.is_empty() {
                    return;
                }
                let (x, y) = self.operand();
                self.new_var(format!("string_replace({t}, {u}, {x})"), nfc(&v.replace(&w, &y)));
            }
            13 => {
                self.see("case");
                if self.s.flip() {
                    self.new_var(format!("uppercase({t})"), nfc(&v.to_uppercase()));
                } else {
                    self.new_var(format!("lowercase({t})"), nfc(&v.to_lowercase()));
                }
            }
            14 => {
                self.see("trim");
                self.new_var(format!("string_trim({t})"), v.trim().into());
            }
            15 | 16 => {
                self.see("split");
                let (u, w) = self.part_of(&v);
                if w.is_empty() {
                    let n = self.name("z");
                    self.line(format!("let {n}: [string] = split({t}, {u});"));
                    self.fail = Some("InvalidArgument".into());
                    return;
                }
                // Separators are found at cluster boundaries only.
                let (g, k) = (clusters(&v), clusters(&w).len());
                let (mut parts, mut from, mut i) = (vec![], 0, 0);
                while i + k <= g.len() {
                    if g[i..i + k].concat() == w {
                        parts.push(g[from..i].concat());
                        i += k;
                        from = i;
                    } else {
                        i += 1;
                    }
                }
                parts.push(g[from..].concat());
                let n = self.name("p");
                self.line(format!("let {n}: [string] = split({t}, {u});"));
                self.obs.push((n.clone(), RV::Array(parts.iter().map(|p| rs(p)).collect())));
                self.see("join");
                self.observe("string", format!("join({n}, {u})"), rs(&v));
            }
            17 => {
                self.see("iterate");
                let items = RV::Array(clusters(&v).iter().map(|c| rs(c)).collect());
                match self.s.below(3) {
                    0 => self.observe("[string]", format!("collect({t})"), items),
                    1 => self.observe("[string]", format!("map((collect({t}): [string]), |c| string_concat(c, \"\"))"), items),
                    _ => {
                        let n = self.name("m");
                        self.line(format!("let mut {n}: [string] = []; for c in {t} {{ array_append({n}, c); }};"));
                        self.obs.push((n, items));
                    }
                }
            }
            18 => {
                self.see("compare");
                let (u, w) = if self.s.chance(1, 3) { let l = self.literal(&v); (l, v.clone()) } else { self.operand() };
                self.observe("(bool, bool, bool, bool)", format!("({t} == {u}, {t} != {u}, {t} < {u}, {t} >= {u})"), {
                    RV::Tuple(vec![RV::Bool(v == w), RV::Bool(v != w), RV::Bool(v < w), RV::Bool(v >= w)])
                });
            }
            19 | 20 => {
                self.see("format");
                // A formatted string over variables of several types.
                let mut lit = String::from("f\"");
                let mut want = String::new();
                for _ in 0..1 + self.s.idx(4) {
                    let p = self.text();
                    let p = p.replace(['{', '}'], "");
                    let q = self.literal(&p);
                    // Escapes that contain braces would be read as interpolation.
                    if q.contains("\\u{") || q.contains("\\x7") {
                        lit.push('.');
                        want.push('.');
                    } else {
                        lit.push_str(&q[1..q.len() - 1]);
                        want.push_str(&p);
                    }
                    let (n, v) = match self.s.below(5) {
                        0 => {
                            let n = self.name("k");
                            let i = self.s.int();
                            self.line(format!("let {n} = {};", int_text(i)));
                            (n, i.to_string())
                        }
                        1 => {
                            let n = self.name("k");
                            let b = self.s.flip();
                            self.line(format!("let {n} = ({b}, {});", b as i64));
                            (n, format!("({b}, {})", b as i64))
                        }
                        _ if self.vars.is_empty() => continue,
                        _ => self.s.pick(&self.vars).clone(),
                    };
                    lit.push_str(&format!("{{{n}}}"));
                    want.push_str(&v);
                }
                lit.push('"');
                self.new_var(lit, nfc(&want));
            }
            21 => {
                self.see("to_string");
                match self.s.below(4) {
                    0 => self.observe("string", format!("to_string({t})"), rs(&v)),
                    1 => {
                        let i = self.s.int();
                        self.observe("string", format!("to_string({})", int_text(i)), rs(&i.to_string()));
                    }
                    2 => {
                        let (u, w) = self.operand();
                        self.observe("string", format!("to_string([{t}, {u}])"), rs(&nfc(&format!("[{v}, {w}]"))));
                    }
                    _ => {
                        let (u, w) = self.operand();
                        self.observe("string", format!("to_string(({t}, {u}, true))"), rs(&nfc(&format!("({v}, {w}, true)"))));
                    }
                }
            }
            22 => {
                self.see("parse");
                let p = match self.s.below(5) {
                    0 => self.s.int().to_string(),
                    1 => format!("{}{}", self.s.pick(&["+", "", "-", "0", " "]), self.s.int()),
                    2 => (*self.s.pick(&["true", "false", "True", "", "tru", "1"])).into(),
                    3 => (*self.s.pick(&["1e3", "-0.5", "1.", ".5", "nan", "inf", "1e400", "0x10", "9223372036854775808", "-9223372036854775808", "--1"])).into(),
                    _ => nfc(&self.text()),
                };
                let l = self.literal(&p);
                let opt = |v: Option<RV>| match v {
                    Some(v) => RV::Variant("Some".into(), Some(Box::new(RV::Tuple(vec![v])))),
                    None => RV::Variant("None".into(), None),
                };
                self.observe("Option<int>", format!("parse_int({l})"), opt(p.parse::<i64>().ok().map(RV::Int)));
                self.observe("Option<bool>", format!("parse_bool({l})"), opt(p.parse::<bool>().ok().map(RV::Bool)));
                self.observe("Option<float>", format!("parse_float({l})"), opt(p.parse::<f64>().ok().filter(|f| f.is_finite()).map(|f| RV::Float(f.to_bits()))));
            }
            _ => {
                self.see("copy");
                self.new_var(t, v);
            }
        }
    }
}

fn run(env: &mut Env, src: &mut Src) -> Case {
    if src.chance(1, 5) {
        return read_back(env, src);
    }
    let mut g = Gen { s: src, vars: vec![], obs: vec![], code: String::new(), ops: 0, labels: vec![], fail: None, fresh: 0, odd: false };
    for _ in 0..1 + g.s.idx(2) {
        let t = g.text();
        let l = g.literal(&t);
        g.new_var(l, nfc(&t));
    }
    let n = 3 + g.s.idx(12);
    for _ in 0..n {
        if g.fail.is_none() {
            g.step();
        }
    }
    let mut names: Vec<String> = g.vars.iter().map(|a| a.0.clone()).collect();
    let mut vals: Vec<RV> = g.vars.iter().map(|a| rs(&a.1)).collect();
    for (n, v) in &g.obs {
        names.push(n.clone());
        vals.push(v.clone());
    }
    names.push("0".into());
    vals.push(RV::Int(0));
    let text = format!("fn f() {{\n{}    ({})\n}}\nf()\n", g.code, names.join(", "));
    let want = match &g.fail {
        Some(k) => Out::Fail(k.clone()),
        None => Out::Val(RV::Tuple(vals)),
    };
    let (ops, labels, odd) = (g.ops, g.labels, g.odd);
    match expect(env, &text, &want) {
        Ok(_) => Case::pass(text, ops >= 5 && labels.len() >= 3 && odd).with(labels),
        Err(c) => c,
    }
}

/// A value of nested type printed for inspection is source for an equal value.
fn read_back(env: &mut Env, src: &mut Src) -> Case {
    let mut g = Gen { s: src, vars: vec![], obs: vec![], code: String::new(), ops: 0, labels: vec![], fail: None, fresh: 0, odd: false };
    fn value(g: &mut Gen, d: u32) -> (String, RV, &'static str) {
        match g.s.below(if d == 0 { 2 } else { 7 }) {
            0 | 1 => {
                let t = g.text();
                (g.literal(&t), rs(&nfc(&t)), "s")
            }
            2 => {
                let i = g.s.range(-50, 50);
                (int_text(i), RV::Int(i), "i")
            }
            3 => {
                let n = 1 + g.s.idx(3);
                let e: Vec<_> = (0..n).map(|_| { let t = g.text(); (g.literal(&t), rs(&nfc(&t))) }).collect();
                (format!("[{}]", e.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), RV::Array(e.into_iter().map(|x| x.1).collect()), "a")
            }
            4 => {
                let (a, b) = (value(g, d - 1), value(g, d - 1));
                (format!("({}, {})", a.0, b.0), RV::Tuple(vec![a.1, b.1]), "t")
            }
            5 => {
                let (a, b) = (value(g, d - 1), value(g, d - 1));
                (format!("{{ left: {}, right: {} }}", a.0, b.0), RV::Tuple(vec![a.1, b.1]), "r")
            }
            _ => {
                let a = value(g, d - 1);
                (format!("Some({})", a.0), RV::Variant("Some".into(), Some(Box::new(RV::Tuple(vec![a.1])))), "v")
            }
        }
    }
    let (t, v, k) = value(&mut g, 3);
    let odd = g.odd;
    let c = match expect(env, &t, &Out::Val(v.clone())) {
        Ok(c) => c,
        Err(c) => return c,
    };
    let shown = match env.rt.inspect(&c, Mode::Hir) {
        Ok(s) => s,
        Err(o) => return Case::fail(t, "inspect fails", o.show()),
    };
    match expect(env, &shown, &Out::Val(v)) {
        Ok(_) => Case::pass(format!("{t}\n=> {shown}"), odd && k != "i").with(vec!["read back"]),
        Err(e) => {
            let crate::driver::Verdict::Fail { class, msg } = e.verdict else { return e };
            Case::fail(t, format!("read back: {class}"), format!("inspected as {shown}: {msg}"))
        }
    }
}
