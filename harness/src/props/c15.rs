//! Laws of equality, hashing, copying and ordering over generated types.
use std::cmp::Ordering;

use crate::choice::Src;
use crate::driver::{Case, Prop};
use crate::props::Env;
use crate::props::dom::{Dom, T, float_lit};
use crate::props::util::{expect, int_text, quote};
use crate::rt::{Out, RV};

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "values of a composite type of which some pair is equal and some pair is not, or an ordering case with a tie",
        assumptions: &["user implementations of Value and Ord used here are lawful themselves"],
        quick: 600,
        thorough: 60_000,
        batch: 25,
        case_secs: 30,
        hang_ok: false,
        prepare: |env| env.rt.with_host = true,
        run,
    }
}

fn run(env: &mut Env, s: &mut Src) -> Case {
    if s.chance(1, 4) { order(s, env) } else { equality(s, env) }
}

fn boolean(b: bool) -> RV {
    RV::Bool(b)
}

/// Splits a wide list of observations into nested tuples.
fn pack(obs: Vec<(String, RV)>) -> (String, RV) {
    let mut t = vec![];
    let mut v = vec![];
    for c in obs.chunks(8) {
        t.push(format!("({},)", c.iter().map(|o| o.0.clone()).collect::<Vec<_>>().join(", ")));
        v.push(RV::Tuple(c.iter().map(|o| o.1.clone()).collect()));
    }
    (format!("({},)", t.join(", ")), RV::Tuple(v))
}

fn equality(s: &mut Src, env: &mut Env) -> Case {
    let mut d = Dom::new(s);
    let t = d.ty(s, 3);
    let ty = d.text(&t);
    let mut vs = vec![d.value(s, &t, 3)];
    let n = 2 + s.idx(3);
    while vs.len() < n {
        let i = s.idx(vs.len());
        let v = match s.below(5) {
            0 => d.value(s, &t, 3),
            1 => vs[i].clone(),
            _ => d.tweak(s, &t, &vs[i]),
        };
        vs.push(v);
    }
    let mut labels = vec![];
    let mut code = format!("{}fn same<X>(l: X, r: X) -> bool where X: Value {{ l == r }}\nfn digest<X>(v: X) -> hash where X: Value {{ value_hash(v) }}\nfn pass<X>(v: X) -> X {{ v }}\nfn f() {{\n", d.decls());
    for (i, v) in vs.iter().enumerate() {
        let lit = d.lit(&t, v);
        // The same value, built in other ways.
        let text = match s.below(6) {
            0 => format!("pass({lit})"),
            1 => format!("([{lit}, {lit}]: [{ty}])[1]"),
            2 => {
                code.push_str(&format!("    let w{i}: ({ty}, int) = ({lit}, 1);\n"));
                format!("w{i}.0")
            }
            3 => format!("{{ let h: {ty} = {lit}; let g = || h; g() }}"),
            _ => lit,
        };
        code.push_str(&format!("    let v{i}: {ty} = {text};\n"));
        if let (T::Arr(e), RV::Array(items)) = (&t, v)
            && !items.is_empty()
            && s.flip()
        {
            // The same array in another physical arrangement.
            labels.push("rearranged");
            code.push_str(&format!("    let mut u{i}: {ty} = [];\n"));
            let k = s.idx(items.len());
            for x in &items[k..] {
                code.push_str(&format!("    array_append(u{i}, {});\n", d.lit(e, x)));
            }
            for x in items[..k].iter().rev() {
                code.push_str(&format!("    array_prepend(u{i}, {});\n", d.lit(e, x)));
            }
        } else if let (T::Set(e), RV::Array(items)) = (&t, v)
            && s.flip()
        {
            labels.push("rearranged");
            code.push_str(&format!("    let mut u{i}: {ty} = hash_set_new();\n"));
            for x in items.iter().rev() {
                code.push_str(&format!("    set_insert(u{i}, {});\n", d.lit(e, x)));
            }
        } else if let (T::Map(k, w), RV::Array(items)) = (&t, v)
            && s.flip()
        {
            labels.push("rearranged");
            code.push_str(&format!("    let mut u{i}: {ty} = hash_map_new();\n"));
            for x in items.iter().rev() {
                let RV::Tuple(x) = x else { unreachable!() };
                code.push_str(&format!("    map_insert(u{i}, {}, {});\n", d.lit(k, &x[0]), d.lit(w, &x[1])));
            }
        } else {
            code.push_str(&format!("    let u{i} = v{i};\n"));
        }
    }
    let mut obs = vec![];
    let (mut equal, mut unequal) = (0, 0);
    for i in 0..n {
        for j in 0..n {
            let e = d.eq(&t, &vs[i], &vs[j]);
            if i != j {
                if e { equal += 1 } else { unequal += 1 }
            }
            let l = if s.flip() { "u" } else { "v" };
            let (a, b) = (format!("{l}{i}"), format!("{}{j}", if l == "u" { "v" } else { "u" }));
            match s.below(7) {
                0 => obs.push((format!("{a} != {b}"), boolean(!e))),
                1 => obs.push((format!("same({a}, {b})"), boolean(e))),
                2 => obs.push((format!("(({a}, 1) == ({b}, 1))"), boolean(e))),
                3 => obs.push((format!("([{a}, {b}] == [{b}, {a}])"), boolean(e))),
                4 => obs.push((format!("(Some({a}) == Some({b}))"), boolean(e))),
                5 => obs.push((format!("({{ p: {a}, q: {b} }} == {{ p: {b}, q: {b} }})"), boolean(e))),
                _ => obs.push((format!("({a} == {b})"), boolean(e))),
            }
            if e {
                match s.below(5) {
                    0 => obs.push((format!("(digest({a}) == digest({b}))"), boolean(true))),
                    1 => obs.push((format!("(value_hash([{a}]) == value_hash([{b}]))"), boolean(true))),
                    2 => obs.push((format!("(value_hash(({a}, {b})) == value_hash(({b}, {a})))"), boolean(true))),
                    3 => obs.push((format!("set_contains(set {{ {a} }}, {b})"), boolean(true))),
                    _ => obs.push((format!("(value_hash({a}) == value_hash({b}))"), boolean(true))),
                }
            } else if s.chance(1, 6) {
                obs.push((format!("set_contains(set {{ {a} }}, {b})"), boolean(false)));
            }
        }
    }
    // A copy is equal until one of the two changes.
    if let RV::Array(items) = &vs[0]
        && let T::Arr(e) = &t
    {
        labels.push("copy then change");
        code.push_str(&format!("    let mut c = u0;\n    array_append(c, {});\n", if items.is_empty() { let x = d.value(s, e, 1); d.lit(e, &x) } else { "u0[0]".into() }));
        obs.push(("(c == u0)".into(), boolean(false)));
        obs.push(("(u0 == v0)".into(), boolean(true)));
    }
    let (text, want) = pack(obs);
    code.push_str(&format!("    {text}\n}}\nf()\n"));
    labels.push(match &t {
        T::Def(_) => "declared type",
        T::Gen(_) => "generic type",
        T::Arr(_) => "array",
        T::Set(_) | T::Map(..) => "collection",
        T::Tup(_) | T::Rec(_) => "tuple or record",
        T::Opt(_) => "option",
        _ => "scalar",
    });
    match expect(env, &code, &Out::Val(want)) {
        Ok(_) => Case::pass(code, equal > 0 && unequal > 0 && labels.last() != Some(&"scalar")).with(labels),
        Err(c) => c.with(labels),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum O {
    Int,
    Float,
    Str,
    /// A user type ordered by its first component, downwards.
    Key,
}

fn cmp(o: O, a: &RV, b: &RV) -> Ordering {
    match (a, b) {
        (RV::Int(a), RV::Int(b)) => a.cmp(b),
        (RV::Float(a), RV::Float(b)) => f64::from_bits(*a).partial_cmp(&f64::from_bits(*b)).unwrap(),
        (RV::Str(a), RV::Str(b)) => a.cmp(b),
        (RV::Tuple(a), RV::Tuple(b)) => cmp(o, &b[0], &a[0]),
        _ => unreachable!(),
    }
}

fn order(s: &mut Src, env: &mut Env) -> Case {
    let o = *s.pick(&[O::Int, O::Float, O::Str, O::Key, O::Key]);
    let n = 2 + s.idx(4);
    let strs = ["", "a", "b", "ab", "é", "e", "z", "aa", "日", "👍", "A", "a b"];
    let vs: Vec<RV> = (0..n)
        .map(|_| match o {
            O::Int => RV::Int(if s.chance(1, 3) { s.int() } else { s.range(-2, 2) }),
            O::Float => RV::Float(s.pick(&[0.0, -0.0, 1.5, -1.5, f64::MAX, -f64::MAX, 5e-324, 0.1, 0.25]).to_bits()),
            O::Str => RV::Str((*s.pick(&strs)).into()),
            O::Key => RV::Tuple(vec![RV::Int(s.range(0, 2)), RV::Str((*s.pick(&["p", "q"])).into())]),
        })
        .collect();
    let lit = |v: &RV| match v {
        RV::Int(i) => int_text(*i),
        RV::Float(f) => float_lit(f64::from_bits(*f)),
        RV::Str(x) => quote(x),
        RV::Tuple(p) => {
            let (RV::Int(i), RV::Str(x)) = (&p[0], &p[1]) else { unreachable!() };
            format!("Key({i}, {})", quote(x))
        }
        _ => unreachable!(),
    };
    let ty = ["int", "float", "string", "Key"][match o {
        O::Int => 0,
        O::Float => 1,
        O::Str => 2,
        O::Key => 3,
    }];
    let mut code = String::from(
        "struct Key(int, string)\nimpl Ord for Key { fn cmp(left: Key, right: Key) -> Ordering { cmp(right.0, left.0) } }\nfn least<X>(l: X, r: X) -> bool where X: Ord { l < r }\nfn f() {\n",
    );
    for (i, v) in vs.iter().enumerate() {
        code.push_str(&format!("    let v{i}: {ty} = {};\n", lit(v)));
    }
    let name = |o: Ordering| RV::Variant(format!("{o:?}"), None);
    // What of a result is determined by the ordering alone.
    let seen = |t: String| if o == O::Key { format!("{t}.0") } else { format!("({t} == {t}, {t})") };
    let val = |v: &RV| match v {
        RV::Tuple(p) => p[0].clone(),
        v => RV::Tuple(vec![RV::Bool(true), v.clone()]),
    };
    let mut obs = vec![];
    let mut ties = false;
    for i in 0..n {
        for j in 0..n {
            let c = cmp(o, &vs[i], &vs[j]);
            ties |= i != j && c == Ordering::Equal;
            let (a, b) = (format!("v{i}"), format!("v{j}"));
            obs.push(match s.below(9) {
                0 => (format!("cmp({a}, {b})"), name(c)),
                1 => (format!("({a} < {b})"), boolean(c.is_lt())),
                2 => (format!("({a} <= {b})"), boolean(c.is_le())),
                3 => (format!("({a} > {b})"), boolean(c.is_gt())),
                4 => (format!("({a} >= {b})"), boolean(c.is_ge())),
                5 => (format!("least({a}, {b})"), boolean(c.is_lt())),
                6 | 7 => {
                    let min = s.flip();
                    let m = if (c.is_lt()) == min { &vs[i] } else { &vs[j] };
                    let zero = matches!(m, RV::Float(f) if f64::from_bits(*f) == 0.0);
                    let call = format!("{}({a}, {b})", if min { "min" } else { "max" });
                    if zero { (format!("({call} == 0.0)"), boolean(true)) } else { (seen(call), val(m)) }
                }
                _ => (format!("(cmp({a}, {b}) == cmp({b}, {a}))"), boolean(c.is_eq())),
            });
        }
    }
    // Sorting, extremes, clamping.
    let arr = format!("[{}]", (0..n).map(|i| format!("v{i}")).collect::<Vec<_>>().join(", "));
    let mut sorted = vs.clone();
    sorted.sort_by(|a, b| cmp(o, a, b));
    let zeros = sorted.iter().any(|m| matches!(m, RV::Float(f) if f64::from_bits(*f) == 0.0));
    if !zeros {
        obs.push((format!("sorted({arr})"), RV::Array(sorted.clone())));
        obs.push((seen(format!("minimum({arr})")), val(&sorted[0])));
        obs.push((seen(format!("maximum({arr})")), val(&sorted[n - 1])));
        let (a, b, c) = (s.idx(n), s.idx(n), s.idx(n));
        let (lo, hi) = if cmp(o, &vs[b], &vs[c]).is_le() { (b, c) } else { (c, b) };
        let m = if cmp(o, &vs[a], &vs[lo]).is_lt() {
            &vs[lo]
        } else if cmp(o, &vs[a], &vs[hi]).is_gt() {
            &vs[hi]
        } else {
            &vs[a]
        };
        obs.push((seen(format!("clamp(v{a}, v{lo}, v{hi})")), val(m)));
    }
    let (text, want) = pack(obs);
    code.push_str(&format!("    {text}\n}}\nf()\n"));
    let mut labels = vec!["ordering"];
    if ties {
        labels.push("tie");
    }
    match expect(env, &code, &Out::Val(want)) {
        Ok(_) => Case::pass(code, ties).with(labels),
        Err(c) => c.with(labels),
    }
}
