//! Serialized data: round trips, foreign text, and text or data that must be refused.
use crate::choice::Src;
use crate::driver::{Case, Prop, about_to_run};
use crate::props::Env;
use crate::props::dom::{Body, Def, Dom, T};
use crate::props::util::quote;
use crate::rt::{MODES, Out, RV};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "a composite value, or a text that had to be refused",
        assumptions: &["recursive types have no serialization; integers are not decoded from fractions; repeated and surplus record fields are left open"],
        quick: 900,
        thorough: 80_000,
        batch: 25,
        case_secs: 30,
        hang_ok: false,
        prepare: |env| env.rt.with_host = true,
        run,
    }
}

/// JSON as an independent reader sees it.
#[derive(Clone, PartialEq, Debug)]
enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct Reader<'a> {
    b: &'a [char],
    i: usize,
}

impl Reader<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && " \t\n\r".contains(self.b[self.i]) {
            self.i += 1;
        }
    }
    fn eat(&mut self, t: &str) -> Option<()> {
        for c in t.chars() {
            if self.b.get(self.i) != Some(&c) {
                return None;
            }
            self.i += 1;
        }
        Some(())
    }
    fn peek(&self) -> Option<char> {
        self.b.get(self.i).copied()
    }
    fn hex(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            v = v * 16 + self.peek()?.to_digit(16)?;
            self.i += 1;
        }
        Some(v)
    }
    fn string(&mut self) -> Option<String> {
        self.eat("\"")?;
        let mut o = String::new();
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                '"' => return Some(o),
                '\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    o.push(match e {
                        '"' | '\\' | '/' => e,
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'u' => {
                            let a = self.hex()?;
                            if (0xd800..0xdc00).contains(&a) {
                                self.eat("\\u")?;
                                let b = self.hex()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return None;
                                }
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00))?
                            } else {
                                char::from_u32(a)?
                            }
                        }
                        _ => return None,
                    });
                }
                c if (c as u32) < 0x20 => return None,
                c => o.push(c),
            }
        }
    }
    fn digits(&mut self) -> Option<()> {
        let at = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        (self.i > at).then_some(())
    }
    fn number(&mut self) -> Option<J> {
        let at = self.i;
        let _ = self.peek().filter(|c| *c == '-').map(|_| self.i += 1);
        if self.peek()? == '0' { self.i += 1 } else { self.digits()? }
        if self.peek() == Some('.') {
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        let t: String = self.b[at..self.i].iter().collect();
        Some(match t.parse::<i64>() {
            Ok(i) => J::Int(i),
            Err(_) => J::Num(t.parse().ok()?),
        })
    }
    fn value(&mut self) -> Option<J> {
        self.ws();
        let v = match self.peek()? {
            'n' => self.eat("null").map(|_| J::Null)?,
            't' => self.eat("true").map(|_| J::Bool(true))?,
            'f' => self.eat("false").map(|_| J::Bool(false))?,
            '"' => J::Str(self.string()?),
            '[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat("]").is_none() {
                    loop {
                        v.push(self.value()?);
                        if self.eat(",").is_none() {
                            self.eat("]")?;
                            break;
                        }
                    }
                }
                J::Arr(v)
            }
            '{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat("}").is_none() {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        self.eat(":")?;
                        v.push((k, self.value()?));
                        if self.eat(",").is_none() {
                            self.eat("}")?;
                            break;
                        }
                    }
                }
                J::Obj(v)
            }
            _ => self.number()?,
        };
        self.ws();
        Some(v)
    }
}

fn read(t: &str) -> Option<J> {
    let b: Vec<char> = t.chars().collect();
    let mut r = Reader { b: &b, i: 0 };
    let v = r.value()?;
    (r.i == b.len()).then_some(v)
}

/// Number forms, spacing and escapes a foreign writer may use.
fn write(s: &mut Src, j: &J, free: bool) -> String {
    let sp = |s: &mut Src| if free { *s.pick(&["", "", "", " ", "\n", "\t ", "\r\n"]) } else { "" };
    let str = |s: &mut Src, t: &str| {
        let mut o = String::from("\"");
        for c in t.chars() {
            if free && s.chance(1, 5) || (c as u32) < 0x20 || c == '"' || c == '\\' {
                if c == '/' && s.flip() {
                    o.push_str("\\/");
                    continue;
                }
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&if s.flip() { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
                }
            } else {
                o.push(c);
            }
        }
        o.push('"');
        o
    };
    match j {
        J::Null => "null".into(),
        J::Bool(b) => b.to_string(),
        J::Int(i) => i.to_string(),
        J::Num(f) => match s.below(4) {
            0 if free => format!("{f:e}"),
            1 if free => format!("{f:E}").replace('E', "E+").replace("E+-", "E-"),
            2 if free => format!("{f}"),
            _ => format!("{f:?}"),
        },
        J::Str(t) => str(s, t),
        J::Arr(v) => {
            let items: Vec<String> = v.iter().map(|x| format!("{}{}{}", sp(s), write(s, x, free), sp(s))).collect();
            format!("[{}]", if items.is_empty() { sp(s).to_string() } else { items.join(",") })
        }
        J::Obj(v) => {
            let mut v = v.clone();
            if free && v.len() > 1 && s.flip() {
                v.reverse();
            }
            let items: Vec<String> = v.iter().map(|(k, x)| format!("{}{}{}:{}{}{}", sp(s), str(s, k), sp(s), sp(s), write(s, x, free), sp(s))).collect();
            format!("{{{}}}", if items.is_empty() { sp(s).to_string() } else { items.join(",") })
        }
    }
}

fn num(f: f64) -> J {
    J::Num(f)
}

/// The documented JSON form of a value.
fn json(d: &Dom, t: &T, v: &RV) -> J {
    let parts = |p: &RV| -> Vec<J> {
        let RV::Tuple(items) = p else { return vec![] };
        d.parts(t, v).iter().zip(items).map(|(t, v)| json(d, t, v)).collect()
    };
    let fields = |names: Vec<String>, p: &RV| J::Obj(names.into_iter().zip(parts(p)).collect());
    let body = |b: &Body, p: &RV| match b {
        Body::Unit => None,
        Body::Tup(_) => Some(J::Arr(parts(p))),
        Body::Rec(f) => Some(fields(f.iter().map(|f| f.0.clone()).collect(), p)),
    };
    match (t, v) {
        (T::Unit, _) => J::Null,
        (_, RV::Bool(b)) => J::Bool(*b),
        (_, RV::Int(i)) => J::Int(*i),
        (_, RV::Float(f)) => num(f64::from_bits(*f)),
        (_, RV::Str(s)) => J::Str(s.clone()),
        (T::Tup(_), p) => J::Arr(parts(p)),
        (T::Rec(f), p) => fields(f.iter().map(|f| f.0.clone()).collect(), p),
        (T::Gen(_), p) => fields(vec!["item".into(), "label".into()], p),
        (T::Arr(e) | T::Set(e), RV::Array(v)) => J::Arr(v.iter().map(|x| json(d, e, x)).collect()),
        (T::Map(k, w), RV::Array(v)) => {
            let t = T::Tup(vec![(**k).clone(), (**w).clone()]);
            J::Arr(v.iter().map(|x| json(d, &t, x)).collect())
        }
        (T::Opt(e), RV::Variant(n, p)) => tagged(n, p.as_ref().map(|p| match &**p {
            RV::Tuple(p) => J::Arr(vec![json(d, e, &p[0])]),
            _ => unreachable!(),
        })),
        (T::Def(i), v) => match (&d.defs[*i], v) {
            (Def::Struct(b), p) => body(b, p).unwrap(),
            (Def::Enum(alts), RV::Variant(n, p)) => {
                let b = &alts.iter().find(|a| a.0 == *n).unwrap().1;
                tagged(n, p.as_ref().and_then(|p| body(b, p)))
            }
            _ => unreachable!(),
        },
        _ => unreachable!("{t:?} {v:?}"),
    }
}

fn tagged(n: &str, data: Option<J>) -> J {
    let mut o = vec![("type".to_string(), J::Str(n.into()))];
    if let Some(x) = data {
        o.push(("data".into(), x));
    }
    J::Obj(o)
}

/// Same content; sets and maps in any order, numbers by value.
fn same_json(d: &Dom, t: &T, a: &J, b: &J) -> bool {
    match fit(d, t, a) {
        Fit::Value(x) => matches!(fit(d, t, b), Fit::Value(y) if d.eq(t, &x, &y)),
        _ => false,
    }
}

enum Fit {
    Value(RV),
    Refuse,
    Open,
}

/// What decoding data at a type must give.
fn fit(d: &Dom, t: &T, j: &J) -> Fit {
    use Fit::*;
    let all = |ts: &[T], js: &[J]| -> Fit {
        if ts.len() != js.len() {
            return Refuse;
        }
        let mut out = vec![];
        let mut open = false;
        for (t, j) in ts.iter().zip(js) {
            match fit(d, t, j) {
                Value(v) => out.push(v),
                Refuse => return Refuse,
                Open => open = true,
            }
        }
        if open { Open } else { Value(RV::Tuple(out)) }
    };
    let fields = |fs: Vec<(String, T)>, j: &J| -> Fit {
        let J::Obj(o) = j else { return Refuse };
        let mut js = vec![];
        for (n, _) in &fs {
            match o.iter().find(|x| x.0 == *n) {
                Some(x) => js.push(x.1.clone()),
                None => return Refuse,
            }
        }
        let repeated = (0..o.len()).any(|i| o[..i].iter().any(|x| x.0 == o[i].0));
        match all(&fs.into_iter().map(|f| f.1).collect::<Vec<_>>(), &js) {
            Value(_) if repeated || o.len() != js.len() => Open,
            Refuse if repeated => Open,
            r => r,
        }
    };
    let body = |b: &Body, j: &J| match (b, j) {
        (Body::Unit, _) => unreachable!(),
        (Body::Tup(ts), J::Arr(v)) => all(ts, v),
        (Body::Tup(_), _) => Refuse,
        (Body::Rec(fs), j) => fields(fs.clone(), j),
    };
    let variant = |alts: Vec<(String, Body)>, j: &J| -> Fit {
        let J::Obj(o) = j else { return Refuse };
        let repeated = (0..o.len()).any(|i| o[..i].iter().any(|x| x.0 == o[i].0));
        if repeated || o.iter().any(|x| x.0 != "type" && x.0 != "data") {
            return Open;
        }
        let Some((_, J::Str(n))) = o.iter().find(|x| x.0 == "type") else { return Refuse };
        let Some((n, b)) = alts.into_iter().find(|a| a.0 == *n) else { return Refuse };
        let data = o.iter().find(|x| x.0 == "data").map(|x| &x.1);
        match (&b, data) {
            (Body::Unit, None | Some(J::Null)) => Value(RV::Variant(n, None)),
            (Body::Unit, Some(J::Arr(v))) if v.is_empty() => Open,
            (Body::Unit, Some(_)) => Refuse,
            (_, None) => Refuse,
            (b, Some(j)) => match body(b, j) {
                Value(v) => Value(RV::Variant(n, Some(Box::new(v)))),
                r => r,
            },
        }
    };
    match (t, j) {
        (T::Unit, J::Null) => Value(RV::Unit),
        (T::Unit, J::Arr(v)) if v.is_empty() => Open,
        (T::Bool, J::Bool(b)) => Value(RV::Bool(*b)),
        (T::Int, J::Int(i)) => Value(RV::Int(*i)),
        (T::Int, J::Num(_)) => Open,
        (T::Float, J::Num(f)) if f.is_finite() => Value(RV::Float(f.to_bits())),
        (T::Float, J::Int(i)) => Value(RV::Float((*i as f64).to_bits())),
        (T::Str, J::Str(s)) => Value(RV::Str(nfc(s))),
        (T::Unit | T::Bool | T::Int | T::Float | T::Str, _) => Refuse,
        (T::Tup(ts), J::Arr(v)) => all(ts, v),
        (T::Tup(_), _) => Refuse,
        (T::Rec(fs), j) => fields(fs.clone(), j),
        (T::Gen(e), j) => fields(vec![("item".into(), (**e).clone()), ("label".into(), T::Int)], j),
        (T::Arr(e), J::Arr(v)) => match all(&vec![(**e).clone(); v.len()], v) {
            Value(RV::Tuple(v)) => Value(RV::Array(v)),
            r => r,
        },
        (T::Set(e), J::Arr(v)) => match all(&vec![(**e).clone(); v.len()], v) {
            Value(RV::Tuple(v)) => {
                let mut o: Vec<RV> = vec![];
                for x in v {
                    if !o.iter().any(|y| d.eq(e, &x, y)) {
                        o.push(x);
                    }
                }
                Value(RV::Array(o))
            }
            r => r,
        },
        (T::Map(k, w), J::Arr(v)) => match all(&vec![T::Tup(vec![(**k).clone(), (**w).clone()]); v.len()], v) {
            Value(RV::Tuple(v)) => {
                let key = |x: &RV| match x {
                    RV::Tuple(p) => p[0].clone(),
                    _ => unreachable!(),
                };
                let twice = (0..v.len()).any(|i| v[..i].iter().any(|y| d.eq(k, &key(&v[i]), &key(y))));
                if twice { Open } else { Value(RV::Array(v)) }
            }
            r => r,
        },
        (T::Arr(_) | T::Set(_) | T::Map(..), _) => Refuse,
        (T::Opt(e), j) => variant(vec![("None".into(), Body::Unit), ("Some".into(), Body::Tup(vec![(**e).clone()]))], j),
        (T::Def(i), j) => match &d.defs[*i] {
            Def::Struct(b) => body(b, j),
            Def::Enum(alts) => variant(alts.clone(), j),
        },
    }
}

fn nfc(s: &str) -> String {
    use unicode_normalization::UnicodeNormalization;
    s.nfc().collect()
}

/// The documented data text of a value, with the freedom its readers must allow.
fn data(s: &mut Src, d: &Dom, t: &T, v: &RV, free: bool) -> String {
    let sp = |s: &mut Src| if free { *s.pick(&["", "", "", " ", "\n", "\t", " // x ] }\n", "/* ( */", "/**/"]) } else { "" };
    let list = |s: &mut Src, open: &str, items: Vec<String>, close: &str, one: bool| {
        let trailing = if items.is_empty() { "" } else if one && items.len() == 1 || free && s.chance(1, 4) { "," } else { "" };
        let items: Vec<String> = items.into_iter().map(|i| format!("{}{i}{}", sp(s), sp(s))).collect();
        format!("{open}{}{trailing}{}{close}", items.join(","), sp(s))
    };
    let str = |s: &mut Src, t: &str| {
        let mut o = String::from("\"");
        for c in t.chars() {
            match c {
                '"' | '\\' => o.extend(['\\', c]),
                '\n' if free && s.flip() => o.push(c),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                c if free && s.chance(1, 6) => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    };
    let parts = |s: &mut Src, p: &RV| -> Vec<String> {
        let RV::Tuple(items) = p else { return vec![] };
        d.parts(t, v).iter().zip(items).map(|(t, v)| data(s, d, t, v, free)).collect()
    };
    let record = |s: &mut Src, names: Vec<String>, p: &RV| {
        let mut f: Vec<String> = vec![];
        for (n, v) in names.into_iter().zip(parts(s, p)) {
            let n = if free && s.chance(1, 4) { str(s, &n) } else { n };
            f.push(format!("{n}{}:{}{v}", sp(s), sp(s)));
        }
        if free && s.flip() {
            f.reverse();
        }
        list(s, "{", f, "}", false)
    };
    let names = |f: &[(String, T)]| f.iter().map(|f| f.0.clone()).collect::<Vec<_>>();
    match (t, v) {
        (T::Unit, _) => (if free { *s.pick(&["()", "( )", "null"]) } else { "()" }).into(),
        (_, RV::Bool(b)) => b.to_string(),
        (_, RV::Int(i)) => i.to_string(),
        (_, RV::Float(f)) => write(s, &J::Num(f64::from_bits(*f)), free),
        (_, RV::Str(x)) => str(s, x),
        (T::Tup(_), p) => {
            let i = parts(s, p);
            list(s, "(", i, ")", true)
        }
        (T::Rec(f), p) => record(s, names(f), p),
        (T::Gen(_), p) => record(s, vec!["item".into(), "label".into()], p),
        (T::Arr(e), RV::Array(v)) => {
            let i = v.iter().map(|x| data(s, d, e, x, free)).collect();
            list(s, "[", i, "]", false)
        }
        (T::Set(e), RV::Array(v)) => {
            let i = v.iter().map(|x| data(s, d, e, x, free)).collect();
            list(s, "set {", i, "}", false)
        }
        (T::Map(k, w), RV::Array(v)) => {
            let mut i = vec![];
            for x in v {
                let RV::Tuple(p) = x else { unreachable!() };
                i.push(format!("{}{}=>{}{}", data(s, d, k, &p[0], free), sp(s), sp(s), data(s, d, w, &p[1], free)));
            }
            list(s, "map{", i, "}", false)
        }
        (T::Opt(_) | T::Def(_), RV::Variant(n, p)) => {
            let b = match t {
                T::Opt(e) => Body::Tup(vec![(**e).clone()]),
                T::Def(i) => match &d.defs[*i] {
                    Def::Enum(a) => a.iter().find(|a| a.0 == *n).unwrap().1.clone(),
                    _ => unreachable!(),
                },
                _ => unreachable!(),
            };
            match (b, p) {
                (Body::Tup(ts), Some(p)) => {
                    let i = parts(s, p);
                    // A lone record in parentheses is the other payload form.
                    let lone = ts.len() == 1 && i[0].contains('{');
                    format!("{n}{}{}", sp(s), list(s, "(", i, ")", lone))
                }
                (Body::Rec(f), Some(p)) => {
                    let r = record(s, names(&f), p);
                    format!("{n}{}({}{r}{})", sp(s), sp(s), sp(s))
                }
                _ => n.clone(),
            }
        }
        (T::Def(i), p) => match &d.defs[*i] {
            Def::Struct(Body::Rec(f)) => record(s, names(f), p),
            _ => {
                let i = parts(s, p);
                list(s, "(", i, ")", true)
            }
        },
        _ => unreachable!(),
    }
}

enum Want {
    Same(RV),
    Refused,
    Any,
}

fn run(env: &mut Env, s: &mut Src) -> Case {
    let mut d = Dom::with(s, false);
    d.zeros = false;
    let t = d.ty(s, 3);
    let v = d.value(s, &t, 4);
    let ty = d.text(&t);
    let mut code = format!("{}fn f() {{\n    let v: {ty} = {};\n", d.decls(), d.lit(&t, &v));
    let kind = s.below(8);
    let composite = !matches!(t, T::Unit | T::Bool | T::Int | T::Float | T::Str);
    let refused;
    let label;
    let mut text_is_json = false;
    let want = match kind {
        0 => {
            label = "round trip";
            code.push_str("    let text = json_encode(v);\n");
            text_is_json = true;
            code.push_str(&format!("    let w: {ty} = json_decode(text);\n"));
            Want::Same(v.clone())
        }
        1 => {
            label = "round trip";
            code.push_str("    let text = data_text_encode(v);\n");
            code.push_str(&format!("    let w: {ty} = data_text_decode(text);\n"));
            Want::Same(v.clone())
        }
        2 => {
            label = "chain of codecs";
            // Through several codecs, at the level of data values.
            let mut e = "serialize(v)".to_string();
            for _ in 0..1 + s.idx(2) {
                e = match s.below(3) {
                    0 => format!("parse_json(to_json({e}))"),
                    1 => format!("parse_data_text(to_data_text({e}))"),
                    _ => format!("serialize((deserialize({e}): {ty}))"),
                };
            }
            code.push_str(&format!("    let text = \"\";\n    let w: {ty} = deserialize({e});\n"));
            Want::Same(v.clone())
        }
        3 => {
            label = "foreign json";
            let j = json(&d, &t, &v);
            let text = write(s, &j, true);
            code.push_str(&format!("    let text = {};\n    let w: {ty} = json_decode(text);\n", quote(&text)));
            match fit(&d, &t, &read(&text).expect("own text")) {
                Fit::Value(x) => Want::Same(x),
                _ => Want::Any,
            }
        }
        4 => {
            label = "foreign data text";
            let text = data(s, &d, &t, &v, true);
            code.push_str(&format!("    let text = {};\n    let w: {ty} = data_text_decode(text);\n", quote(&text)));
            Want::Same(v.clone())
        }
        5 | 6 => {
            // Valid JSON for another type, or altered in one place.
            label = "unfit data";
            let j = if s.chance(1, 4) {
                let u = d.ty(s, 2);
                let x = d.value(s, &u, 3);
                json(&d, &u, &x)
            } else {
                let mut j = json(&d, &t, &v);
                alter(s, &mut j);
                j
            };
            let text = write(s, &j, false);
            code.push_str(&format!("    let text = {};\n    let w: {ty} = json_decode(text);\n", quote(&text)));
            match fit(&d, &t, &read(&text).expect("own text")) {
                Fit::Value(x) => Want::Same(x),
                Fit::Refuse => Want::Refused,
                Fit::Open => Want::Any,
            }
        }
        _ => {
            label = "malformed text";
            if s.flip() {
                let j = json(&d, &t, &v);
                let text = write(s, &j, false);
                let text = mutate(s, &text);
                code.push_str(&format!("    let text = {};\n    let w: {ty} = json_decode(text);\n", quote(&text)));
                match read(&nfc(&text)).map(|j| fit(&d, &t, &j)) {
                    Some(Fit::Value(x)) => Want::Same(x),
                    None | Some(Fit::Refuse) => Want::Refused,
                    Some(Fit::Open) => Want::Any,
                }
            } else {
                let text = data(s, &d, &t, &v, false);
                let text = broken(s, &text);
                match text {
                    Some(text) => {
                        code.push_str(&format!("    let text = {};\n    let w: {ty} = data_text_decode(text);\n", quote(&text)));
                        Want::Refused
                    }
                    None => {
                        code.push_str(&format!("    let text = \"\";\n    let w: {ty} = json_decode(text);\n"));
                        Want::Refused
                    }
                }
            }
        }
    };
    refused = matches!(want, Want::Refused);
    let lit = match &want {
        Want::Same(x) => d.lit(&t, x),
        _ => "v".into(),
    };
    code.push_str(&format!("    let x: {ty} = {lit};\n    (w == x, text)\n}}\nf()\n"));
    about_to_run(&code);
    env.rt.reset();
    let c = match env.rt.compile(&code) {
        Ok(c) => c,
        Err(e) => return Case::fail(code, format!("rejected {}", e.kind), e.text),
    };
    for mode in MODES {
        let got = env.rt.run_limited(&c, mode, crate::rt::limits(400, Some(20_000_000), 65_536));
        let bad = match (&want, &got) {
            (Want::Any, Out::Val(_) | Out::Fail(_)) => None,
            (Want::Refused, Out::Fail(_)) => None,
            (Want::Refused, _) => Some("should be refused"),
            (Want::Same(_), Out::Val(RV::Tuple(p))) => {
                let RV::Str(text) = &p[1] else { return Case::fail(code, "differ", "no text".to_string()) };
                if p[0] != RV::Bool(true) {
                    Some("reads back as another value")
                } else if text_is_json {
                    match read(text) {
                        None => Some("is not valid JSON"),
                        Some(j) if !same_json(&d, &t, &json(&d, &t, &v), &j) => Some("has other content"),
                        _ => None,
                    }
                } else {
                    None
                }
            }
            _ => Some("should read back"),
        };
        if let Some(why) = bad {
            return Case::fail(code, "differ", format!("{mode:?}: {} {why}", got.show())).with(vec![label]);
        }
    }
    Case::pass(code, refused || composite && matches!(want, Want::Same(_))).with(vec![label, if refused { "refused" } else { "read" }])
}

/// Changes one place of some data.
fn alter(s: &mut Src, j: &mut J) {
    let n = match &*j {
        J::Arr(v) => v.len(),
        J::Obj(v) => v.len(),
        _ => 0,
    };
    if n > 0 && s.chance(3, 5) {
        let i = s.idx(n);
        return match j {
            J::Arr(v) => alter(s, &mut v[i]),
            J::Obj(v) => alter(s, &mut v[i].1),
            _ => unreachable!(),
        };
    }
    match j {
        J::Arr(v) => match s.below(4) {
            0 if n > 0 => {
                v.remove(s.idx(n));
            }
            1 if n > 0 => {
                let x = v[s.idx(n)].clone();
                v.push(x);
            }
            2 => v.push(J::Null),
            _ => *j = other(s),
        },
        J::Obj(v) => match s.below(5) {
            0 if n > 0 => {
                v.remove(s.idx(n));
            }
            1 if n > 0 => {
                let i = s.idx(n);
                v[i].0.push('x');
            }
            2 => v.push(("data".into(), other(s))),
            3 if n > 0 => {
                let i = s.idx(n);
                v[i].1 = other(s);
            }
            _ => *j = other(s),
        },
        J::Str(t) if s.flip() => t.push('Q'),
        _ => *j = other(s),
    }
}

fn other(s: &mut Src) -> J {
    match s.below(9) {
        0 => J::Null,
        1 => J::Bool(true),
        2 => J::Int(7),
        3 => J::Num(0.5),
        4 => J::Str("x".into()),
        5 => J::Arr(vec![]),
        6 => J::Arr(vec![J::Int(1)]),
        7 => J::Obj(vec![]),
        _ => J::Obj(vec![("type".into(), J::Str("Some".into())), ("data".into(), J::Arr(vec![J::Int(1)]))]),
    }
}

/// A small change to JSON text, which may or may not leave it valid.
fn mutate(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + s.idx(2) {
        let i = s.idx(c.len().max(1));
        match s.below(6) {
            0 => c.truncate(i),
            1 if !c.is_empty() => {
                c.remove(i);
            }
            2 => c.insert(i, *s.pick(&['"', '\\', ',', '[', ']', '{', '}', ':', '0', '-', '.', 'e', 'n', 'x', ' ', '\u{7f}', '+', '\''])),
            3 if !c.is_empty() => c[i] = *s.pick(&['"', ',', ']', '}', '1', 'u', '\n']),
            4 => c.extend(s.pick(&["]", "}", ",", " 1", "null", "x", "[]", "//", "/**/", "\u{a0}"]).chars()),
            _ if c.len() > 1 => {
                let k = s.idx(c.len());
                c.swap(i, k);
            }
            _ => c.push('['),
        }
    }
    c.into_iter().collect()
}

/// Data text that no reader may accept.
fn broken(s: &mut Src, t: &str) -> Option<String> {
    let closed = t.ends_with([']', ')', '}', '"']);
    Some(match s.below(7) {
        0 if closed => {
            // A proper prefix of a closed form; the name of a variant alone is a value.
            let c: Vec<char> = t.chars().collect();
            let i = 1 + s.idx(c.len() - 1);
            let p: String = c[..i].iter().collect();
            if !p.contains(['[', '(', '{', '"']) {
                return None;
            }
            p
        }
        1 => format!("{t} {}", s.pick(&["]", "}", ")", ",", "1", "x", "\"\"", "null", "/*"])),
        2 => format!("{}{t}", s.pick(&[",", "]", "}", "=>", ":", "/*", "@", "+", "'"])),
        3 => format!("[{t},,]"),
        4 => format!("[{t} {t}]"),
        5 => format!("{{ a {t} }}"),
        _ => format!("[{t}, \"{}\"]", s.pick(&["\\x", "\\u{110000}", "\\u{d800}", "\\u{}", "\\u41", "\\"])),
    })
}
