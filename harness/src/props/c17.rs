//! Pattern matching: generated matched types, arms and values. Whether a match is accepted follows from
//! the set of values its arms cover; what an accepted one gives follows from the first arm that applies.
use crate::choice::Src;
use crate::driver::{Case, Prop, about_to_run};
use crate::props::Env;
use crate::props::dom::{Body, Def, Dom, T};
use crate::props::util;
use crate::rt::{Out, RV};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "the match has at least two arms and either was decided on two or more values or had to be rejected",
        assumptions: &[],
        quick: 8000,
        thorough: 300_000,
        batch: 100,
        case_secs: 20,
        hang_ok: true,
        prepare: |env| env.rt.with_host = true,
        run,
    }
}

fn run(env: &mut Env, src: &mut Src) -> Case {
    match src.weighted(&[4, 6, 3]) {
        0 => literals(env, src),
        1 => variants(env, src),
        _ => open(env, src),
    }
}

fn rejected(env: &mut Env, text: &str, why: &'static str) -> Case {
    about_to_run(text);
    env.rt.reset();
    match env.rt.compile(text) {
        Ok(_) => Case::fail(text, "accepted", format!("accepted although {why}")),
        Err(e) if e.text.trim().is_empty() => Case::fail(text, "no diagnostic", "rejected without a diagnostic"),
        Err(_) => Case::pass(text, true).with(vec![why]),
    }
}

// ---- literal patterns ----

#[derive(Clone, Debug)]
enum L {
    Unit,
    Bool,
    Int,
    Str,
    Tup(Vec<L>),
    Rec(Vec<(&'static str, L)>),
}
const FIELDS: [&str; 4] = ["b", "a", "d", "c"];
const STRS: [&str; 6] = ["", "a", "b", "é", "ab", "\n"];

fn ltype(s: &mut Src, d: u32, open: bool) -> L {
    if d == 0 || s.chance(1, 3) {
        return match s.below(if open { 4 } else { 2 }) {
            0 => L::Bool,
            1 => if s.chance(1, 3) { L::Unit } else { L::Bool },
            2 => L::Int,
            _ => L::Str,
        };
    }
    let n = 1 + s.idx(3);
    if s.flip() {
        L::Tup((0..n).map(|_| ltype(s, d - 1, open)).collect())
    } else {
        L::Rec((0..n).map(|i| (FIELDS[i], ltype(s, d - 1, open))).collect())
    }
}
fn ltext(t: &L) -> String {
    match t {
        L::Unit => "()".into(),
        L::Bool => "bool".into(),
        L::Int => "int".into(),
        L::Str => "string".into(),
        L::Tup(v) if v.len() == 1 => format!("({},)", ltext(&v[0])),
        L::Tup(v) => format!("({})", v.iter().map(ltext).collect::<Vec<_>>().join(", ")),
        L::Rec(v) => format!("{{ {} }}", v.iter().map(|(n, t)| format!("{n}: {}", ltext(t))).collect::<Vec<_>>().join(", ")),
    }
}
/// Every value, when the type has few; None when it has infinitely many or too many.
fn all(t: &L) -> Option<Vec<RV>> {
    let product = |ts: Vec<&L>| -> Option<Vec<RV>> {
        let mut out: Vec<Vec<RV>> = vec![vec![]];
        for t in ts {
            let vs = all(t)?;
            out = out.into_iter().flat_map(|p| vs.iter().map(move |v| p.iter().cloned().chain([v.clone()]).collect())).collect();
            if out.len() > 32 {
                return None;
            }
        }
        Some(out.into_iter().map(RV::Tuple).collect())
    };
    match t {
        L::Unit => Some(vec![RV::Unit]),
        L::Bool => Some(vec![RV::Bool(false), RV::Bool(true)]),
        L::Int | L::Str => None,
        L::Tup(v) => product(v.iter().collect()),
        L::Rec(v) => product(v.iter().map(|f| &f.1).collect()),
    }
}
fn lvalue(s: &mut Src, t: &L) -> RV {
    match t {
        L::Unit => RV::Unit,
        L::Bool => RV::Bool(s.flip()),
        L::Int => RV::Int(s.range(-2, 3)),
        L::Str => RV::Str(STRS[s.idx(STRS.len())].into()),
        L::Tup(v) => RV::Tuple(v.iter().map(|t| lvalue(s, t)).collect()),
        L::Rec(v) => RV::Tuple(v.iter().map(|t| lvalue(s, &t.1)).collect()),
    }
}
/// As a pattern (`pat`) or an expression; record fields come in any order.
fn llit(s: &mut Src, t: &L, v: &RV, pat: bool) -> String {
    match (t, v) {
        (L::Unit, _) => "()".into(),
        (_, RV::Bool(b)) => b.to_string(),
        (_, RV::Int(i)) => if pat { i.to_string() } else { util::int_text(*i) },
        (_, RV::Str(x)) => util::quote(x),
        (L::Tup(ts), RV::Tuple(v)) => {
            let p: Vec<String> = ts.iter().zip(v).map(|(t, v)| llit(s, t, v, pat)).collect();
            if p.len() == 1 { format!("({},)", p[0]) } else { format!("({})", p.join(", ")) }
        }
        (L::Rec(ts), RV::Tuple(v)) => {
            let mut p: Vec<String> = ts.iter().zip(v).map(|((n, t), v)| format!("{n}: {}", llit(s, t, v, pat))).collect();
            if s.flip() {
                p.reverse();
            }
            format!("{{ {} }}", p.join(", "))
        }
        _ => unreachable!(),
    }
}

fn literals(env: &mut Env, s: &mut Src) -> Case {
    let open = s.flip();
    let t = ltype(s, 2, open);
    let every = all(&t);
    let mut pats: Vec<RV> = match &every {
        Some(v) => {
            let mut v = v.clone();
            for i in (1..v.len()).rev() {
                v.swap(i, s.idx(i + 1));
            }
            // Often all of them, else some.
            if s.chance(1, 2) {
                let keep = s.len(1, v.len());
                v.truncate(keep);
            }
            v
        }
        None => {
            let n = s.len(1, 5);
            let mut v: Vec<RV> = vec![];
            for _ in 0..n {
                let x = lvalue(s, &t);
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            v
        }
    };
    let default = s.chance(2, 5);
    let covered = every.as_ref().is_some_and(|e| e.len() == pats.len());
    let duplicate = s.chance(1, 12);
    if duplicate {
        let p = pats[s.idx(pats.len())].clone();
        pats.push(p);
    }
    // Each arm leaves a mark of its own.
    let mut arms: Vec<String> = vec![];
    for (i, p) in pats.iter().enumerate() {
        arms.push(format!("    {} => {{ log = log * 10 + {}; {} }}", llit(s, &t, p, true), i % 7 + 1, i + 1));
    }
    if default {
        arms.push("    _ => { log = log * 10 + 8; 0 }".into());
    }
    let annotate = s.flip();
    let ann = if annotate { format!(": {}", ltext(&t)) } else { String::new() };
    let f = format!("fn f(x{ann}, log: &mut int) -> int {{\n  match ({{ log = log * 10 + 9; x }}) {{\n{}\n  }}\n}}\n", arms.join(",\n"));
    let values: Vec<RV> = match &every {
        Some(v) => v.clone(),
        None => (0..6).map(|i| if i < 3 { pats[s.idx(pats.len())].clone() } else { lvalue(s, &t) }).collect(),
    };
    let calls: Vec<String> = values.iter().map(|v| format!("({{ l = 0; f(({}: {}), l) }}, l)", llit(s, &t, v, false), ltext(&t))).collect();
    let text = format!("{f}fn main() {{\n  let mut l = 0;\n  [{}]\n}}\nmain()\n", calls.join(", "));
    if duplicate {
        return rejected(env, &text, "a literal pattern occurs twice");
    }
    if !default && !covered {
        return rejected(env, &text, "literal arms leave values out");
    }
    let want: Vec<RV> = values
        .iter()
        .map(|v| {
            let (r, m) = match pats.iter().position(|p| p == v) {
                Some(i) => (i + 1, i % 7 + 1),
                None => (0, 8),
            };
            RV::Tuple(vec![RV::Int(r as i64), RV::Int(90 + m as i64)])
        })
        .collect();
    match util::expect(env, &text, &Out::Val(RV::Array(want))) {
        Ok(_) => Case::pass(text, pats.len() + usize::from(default) >= 2).with(vec![if default { "literals with default" } else { "all literals" }]),
        Err(c) => c,
    }
}

// ---- variants of a known type ----

struct Arm {
    tag: String,
    /// Positions of the payload that are bound, in the order written.
    bound: Vec<usize>,
    pattern: String,
}

fn shuffled(s: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, s.idx(i + 1));
    }
    v
}
fn tuple_ty(d: &Dom, ts: &[T]) -> String {
    match ts {
        [t] => d.text(t),
        _ => format!("({})", ts.iter().map(|t| d.text(t)).collect::<Vec<_>>().join(", ")),
    }
}

fn variants(env: &mut Env, s: &mut Src) -> Case {
    let mut d = Dom::build(s, false, false);
    d.hashed = false;
    // The matched type and its alternatives.
    let enums: Vec<usize> = (0..d.defs.len()).filter(|i| matches!(d.defs[*i], Def::Enum(_))).collect();
    let (t, alts, qualify): (T, Vec<(String, Body)>, Option<String>) = if enums.is_empty() || s.chance(1, 5) {
        let inner = d.ty(s, 1);
        let alts = vec![("Some".to_string(), Body::Tup(vec![inner.clone()])), ("None".to_string(), Body::Unit)];
        (T::Opt(Box::new(inner)), alts, None)
    } else {
        let i = *s.pick(&enums);
        let Def::Enum(a) = &d.defs[i] else { unreachable!() };
        let t = T::Def(i);
        (t.clone(), a.clone(), Some(d.text(&t)))
    };
    let n = alts.len();
    let order = shuffled(s, n);
    let keep = if s.chance(1, 2) { n } else { s.len(1, n) };
    let default = s.chance(1, 3);
    let mut bad: Option<&'static str> = if keep < n && !default { Some("a variant is left out") } else { None };
    let mutate = bad.is_none() && s.chance(1, 3);
    let mut arms: Vec<Arm> = vec![];
    for i in order.iter().take(keep) {
        let (tag, body) = &alts[*i];
        let q = match &qualify {
            Some(q) if s.chance(1, 3) => format!("{q}::{tag}"),
            _ => tag.clone(),
        };
        let (bound, pattern) = match body {
            Body::Unit => (vec![], q),
            Body::Tup(ts) => ((0..ts.len()).collect(), format!("{q}({})", (0..ts.len()).map(|k| format!("b{k}")).collect::<Vec<_>>().join(", "))),
            Body::Rec(fs) => {
                let o = shuffled(s, fs.len());
                let some = s.chance(1, 3);
                let k = if some { s.len(0, fs.len()) } else { fs.len() };
                let b: Vec<usize> = o.into_iter().take(k).collect();
                let mut names: Vec<String> = b.iter().map(|k| fs[*k].0.clone()).collect();
                if some {
                    names.push("..".into());
                }
                (b, format!("{q} {{ {} }}", names.join(", ")))
            }
        };
        arms.push(Arm { tag: tag.clone(), bound, pattern });
    }
    if mutate {
        let i = s.idx(arms.len());
        let tag = arms[i].tag.clone();
        let body = alts.iter().find(|a| a.0 == tag).unwrap().1.clone();
        let p = arms[i].pattern.clone();
        let (why, np) = match (s.below(5), &body) {
            (0, _) => {
                let copy = Arm { tag: tag.clone(), bound: arms[i].bound.clone(), pattern: p.clone() };
                arms.push(copy);
                ("a variant is matched twice", p)
            }
            (1, _) => {
                arms.insert(i, Arm { tag: "Zzz".into(), bound: vec![], pattern: "Zzz".into() });
                ("an unknown variant is matched", arms[i].pattern.clone())
            }
            (2, Body::Tup(ts)) => ("the payload has another arity", p.replace(&format!("b{})", ts.len() - 1), &format!("b{}, extra)", ts.len() - 1))),
            (3, Body::Tup(ts)) if ts.len() > 1 => ("the payload has another arity", p.replace(&format!(", b{}", ts.len() - 1), "")),
            (2, Body::Rec(_)) => ("an unknown field is matched", p.replace("{ ", "{ zzz, ")),
            (3, Body::Rec(f)) if arms[i].bound.len() == f.len() && !p.contains("..") && f.len() > 1 => {
                let last = &f[arms[i].bound[f.len() - 1]].0;
                ("a field is left out", p.replace(&format!(", {last} }}"), " }"))
            }
            (_, Body::Tup(ts)) if ts.len() > 1 => ("a name is bound twice", p.replace("b1", "b0")),
            _ => {
                arms.insert(0, Arm { tag: "0".into(), bound: vec![], pattern: "0".into() });
                ("literal and variant patterns are mixed", arms[0].pattern.clone())
            }
        };
        if why == "a variant is matched twice" {
        } else if why == "an unknown variant is matched" || why == "literal and variant patterns are mixed" {
        } else {
            arms[i].pattern = np;
        }
        // The results do not mention what such an arm binds.
        bad = Some(why);
    }
    let parts = |tag: &str| -> Vec<T> {
        match &alts.iter().find(|a| a.0 == tag).map(|a| a.1.clone()) {
            Some(Body::Tup(ts)) => ts.clone(),
            Some(Body::Rec(fs)) => fs.iter().map(|f| f.1.clone()).collect(),
            _ => vec![],
        }
    };
    let mut tys: Vec<String> = vec!["int".into()];
    for a in &arms {
        let ts: Vec<T> = a.bound.iter().map(|k| parts(&a.tag)[*k].clone()).collect();
        tys.push(format!("Option<{}> ", tuple_ty(&d, &ts)));
    }
    let row = |i: usize, what: Option<(usize, String)>| -> String {
        let mut v = vec![i.to_string()];
        for k in 0..arms.len() {
            v.push(match &what {
                Some((j, t)) if *j == k => format!("Some({t})"),
                _ => "None".into(),
            });
        }
        format!("({})", v.join(", "))
    };
    let mut texts: Vec<String> = vec![];
    for (k, a) in arms.iter().enumerate() {
        let names: Vec<String> = match alts.iter().find(|x| x.0 == a.tag).map(|x| &x.1) {
            Some(Body::Rec(fs)) => a.bound.iter().map(|i| fs[*i].0.clone()).collect(),
            _ => a.bound.iter().map(|i| format!("b{i}")).collect(),
        };
        let what = match (&names[..], bad) {
            (_, Some("a variant is left out")) | (_, None) => match &names[..] {
                [n] => n.clone(),
                v => format!("({})", v.join(", ")),
            },
            _ => String::new(),
        };
        let result = if what.is_empty() { row(k + 1, None) } else { row(k + 1, Some((k, what))) };
        texts.push(format!("    {} => {{ log = log * 10 + {}; {result} }}", a.pattern, k + 1));
    }
    if default {
        texts.push(format!("    _ => {{ log = log * 10 + 8; {} }}", row(0, None)));
    }
    let ann = format!(": {}", d.text(&t));
    let f = format!("fn f(x{ann}, log: &mut int) -> ({}) {{\n  match ({{ log = log * 10 + 9; x }}) {{\n{}\n  }}\n}}\n", tys.join(", "), texts.join(",\n"));
    let values: Vec<RV> = (0..4).map(|_| d.value(s, &t, 2)).collect();
    let calls: Vec<String> = values.iter().map(|v| format!("({{ l = 0; f({}, l) }}, l)", d.lit(&t, v))).collect();
    let text = format!("{}{f}fn main() {{\n  let mut l = 0;\n  ({},)\n}}\nmain()\n", d.decls(), calls.join(", "));
    if let Some(why) = bad {
        return rejected(env, &text, why);
    }
    let want: Vec<RV> = values
        .iter()
        .map(|v| {
            let RV::Variant(tag, p) = v else { unreachable!() };
            let tag = tag.to_string();
            let mut out = vec![];
            let at = arms.iter().position(|a| a.tag == tag);
            out.push(RV::Int(at.map_or(0, |i| i as i64 + 1)));
            for k in 0..arms.len() {
                if at == Some(k) {
                    let all: Vec<RV> = match p.as_deref() {
                        Some(RV::Tuple(v)) => v.clone(),
                        Some(o) => vec![o.clone()],
                        None => vec![],
                    };
                    let mut b: Vec<RV> = arms[k].bound.iter().map(|i| all[*i].clone()).collect();
                    let inner = match b.len() {
                        0 => RV::Unit,
                        1 => b.remove(0),
                        _ => RV::Tuple(b),
                    };
                    out.push(RV::Variant("Some".into(), Some(Box::new(RV::Tuple(vec![inner])))));
                } else {
                    out.push(RV::Variant("None".into(), None));
                }
            }
            RV::Tuple(vec![RV::Tuple(out), RV::Int(90 + at.map_or(8, |i| i as i64 + 1))])
        })
        .collect();
    match util::expect(env, &text, &Out::Val(RV::Tuple(want))) {
        Ok(_) => Case::pass(text, arms.len() + usize::from(default) >= 2).with(vec![if default { "variants with default" } else { "all variants" }]),
        Err(c) => c,
    }
}

// ---- variants of no declared type ----

/// The matched type is inferred from the arms: values they do not name must be rejected at the call.
fn open(env: &mut Env, s: &mut Src) -> Case {
    const TAGS: [&str; 5] = ["Alpha", "Beta", "Gamma", "Delta", "Eps"];
    let n = s.len(1, 4);
    let arity: Vec<usize> = (0..5).map(|_| s.idx(3)).collect();
    let mut arms: Vec<String> = vec![];
    for (k, a) in arity.iter().enumerate().take(n) {
        let b: Vec<String> = (0..*a).map(|i| format!("b{i}")).collect();
        let p = if b.is_empty() { TAGS[k].to_string() } else { format!("{}({})", TAGS[k], b.join(", ")) };
        let sum = b.iter().enumerate().map(|(i, b)| format!(" + {b} * {}", 10 * (i + 1))).collect::<String>();
        arms.push(format!("    {p} => {}{sum}", k + 1));
    }
    let default = s.chance(1, 3);
    if default {
        arms.push("    _ => 0".into());
    }
    let body = format!("match x {{\n{}\n  }}", arms.join(",\n"));
    let lambda = s.chance(1, 4);
    let (decl, f) = if lambda { (String::new(), format!("(|x| {body})")) } else { (format!("fn f(x) {{\n  {body}\n}}\n"), "f".to_string()) };
    let k = s.idx(5);
    let args: Vec<i64> = (0..arity[k]).map(|_| s.range(0, 9)).collect();
    let v = if args.is_empty() { TAGS[k].to_string() } else { format!("{}({})", TAGS[k], args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ")) };
    // Through a function that makes the value, or directly.
    let (decl, v) = if s.chance(1, 3) { (format!("{decl}fn make() {{ {v} }}\n"), "make()".to_string()) } else { (decl, v) };
    let text = format!("{decl}{f}({v})\n");
    if k >= n && !default {
        return rejected(env, &text, "the value has a variant no arm names");
    }
    let want = if k < n { (k as i64 + 1) + args.iter().enumerate().map(|(i, a)| a * 10 * (i as i64 + 1)).sum::<i64>() } else { 0 };
    match util::expect(env, &text, &Out::Val(RV::Int(want))) {
        Ok(_) => Case::pass(text, n + usize::from(default) >= 2).with(vec!["inferred variants"]),
        Err(c) => c,
    }
}
