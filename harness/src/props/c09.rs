//! Host calls happen exactly as the source orders them: the trace of every mode against the reference
//! interpreter's, and mode against mode for programs that have no model.
use crate::choice::Src;
use crate::driver::{Case, Prop, about_to_run};
use crate::gen_::{Feats, G};
use crate::host::{reset_host, take_host};
use crate::model::Interp;
use crate::props::Env;
use crate::props::c01::{STATES, compare};
use crate::props::util;
use crate::rt::{MODES, Out, RV};
use crate::shapes::Shape;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "the program ran to its end and called the host at least twice",
        assumptions: &[],
        quick: 1500,
        thorough: 300_000,
        batch: 100,
        case_secs: 20,
        hang_ok: true,
        prepare: |env| env.rt.with_host = true,
        run,
    }
}

fn modelled(env: &mut Env, src: &mut Src) -> Case {
    let mut f = Feats::swarm(src);
    f.host = 2 + src.below(5) as u32;
    let cells = *src.pick(&STATES);
    let mut g = G::new(src, f);
    g.program();
    let p = g.p.clone();
    let text = p.text();
    about_to_run(&text);
    env.rt.reset();
    let c = match env.rt.compile(&text) {
        Ok(c) => c,
        Err(_) => return Case::discard(text),
    };
    reset_host(cells, 5, vec![1, 2, 3]);
    let mut m = Interp::new(&p, take_host());
    let Some(want) = m.run().out() else { return Case::discard(text) };
    for mode in MODES {
        reset_host(cells, 5, vec![1, 2, 3]);
        let got = env.rt.run(&c, mode);
        if got.is_limit() {
            return Case::discard(text);
        }
        let host = take_host();
        if host != m.host {
            let k = host.trace.iter().zip(&m.host.trace).take_while(|(a, b)| a == b).count();
            return Case::fail(
                text,
                "trace",
                format!("{mode:?}, cells {cells:?}: call {k} is {:?} but should be {:?} ({} calls, should be {})", host.trace.get(k), m.host.trace.get(k), host.trace.len(), m.host.trace.len()),
            );
        }
        if !util::same(&want, &got) {
            return Case::fail(text, "differ", format!("{mode:?}, cells {cells:?}: {} but should be {}", got.show(), want.show()));
        }
    }
    let n = m.host.trace.len();
    Case::pass(text, n >= 2).with(vec!["with the model"])
}

fn kernels(env: &mut Env, src: &mut Src) -> Case {
    let (text, _) = Shape::program(src, true);
    about_to_run(&text);
    env.rt.reset();
    let c = match env.rt.compile(&text) {
        Ok(c) => c,
        Err(_) => return Case::discard(text),
    };
    let mut limited = false;
    let mut calls = 0;
    for cells in STATES {
        let (diff, limit) = compare(env, &c, cells, true);
        if let Some(d) = diff {
            return Case::fail(text, "differ", d);
        }
        calls = calls.max(take_host().trace.len());
        limited |= limit;
    }
    Case::pass(text, calls >= 2 && !limited).with(vec!["kernel"])
}

fn run(env: &mut Env, src: &mut Src) -> Case {
    match src.weighted(&[5, 4, 2]) {
        0 => modelled(env, src),
        1 => kernels(env, src),
        _ => props(env, src),
    }
}

/// Host properties: `hp::s.x` (an integer) and `hp::s.a` (an array read and written as a whole).
fn props(env: &mut Env, src: &mut Src) -> Case {
    let mut x: i64 = 5;
    let mut a: Vec<i64> = vec![1, 2, 3];
    use crate::host::Ev;
    let mut trace: Vec<Ev> = vec![];
    let mut body = String::new();
    let mut outs: Vec<(String, i64)> = vec![];
    let n = src.len(2, 9);
    for k in 0..n {
        match src.below(8) {
            0 => {
                body.push_str(&format!("    let r{k} = @s.x;\n"));
                trace.push(Ev::PropGet);
                outs.push((format!("r{k}"), x));
            }
            1 => {
                let v = src.range(-4, 9);
                body.push_str(&format!("    @s.x = {};\n", util::int_text(v)));
                trace.push(Ev::PropSet(v));
                x = v;
            }
            2 => {
                body.push_str("    @s.x = @s.x + 1;\n");
                trace.push(Ev::PropGet);
                x += 1;
                trace.push(Ev::PropSet(x));
            }
            3 => {
                let v = src.range(1, 4);
                body.push_str(&format!("    @s.x += {v};\n"));
                trace.push(Ev::PropGet);
                x += v;
                trace.push(Ev::PropSet(x));
            }
            4 => {
                body.push_str(&format!("    let r{k} = @s.x * 10 + @s.x;\n"));
                trace.push(Ev::PropGet);
                trace.push(Ev::PropGet);
                outs.push((format!("r{k}"), x.wrapping_mul(10).wrapping_add(x)));
            }
            5 => {
                let i = src.idx(a.len());
                body.push_str(&format!("    let r{k} = @s.a[{i}];\n"));
                trace.push(Ev::ArrGet);
                outs.push((format!("r{k}"), a[i]));
            }
            6 => {
                let m = src.len(1, 3);
                a = (0..m).map(|_| src.range(0, 9)).collect();
                body.push_str(&format!("    @s.a = {a:?};\n"));
                trace.push(Ev::ArrSet(a.clone()));
            }
            _ => {
                let v = src.range(0, 3);
                body.push_str(&format!("    for i in 0..{v} {{ @s.x = @s.x * 2 + i; }};\n"));
                for i in 0..v {
                    trace.push(Ev::PropGet);
                    x = x.wrapping_mul(2).wrapping_add(i);
                    trace.push(Ev::PropSet(x));
                }
            }
        }
    }
    let fail = src.chance(1, 4);
    let end = if fail { "    let z = host::need(-1);\n" } else { "" };
    let names: Vec<String> = outs.iter().map(|o| o.0.clone()).collect();
    let text = format!("fn go() {{\n{body}{end}    [{}]\n}}\ngo()\n", std::iter::once("0".to_string()).chain(names).collect::<Vec<_>>().join(", "));
    let text = text.replace("@s.", "@hp::s.");
    about_to_run(&text);
    env.rt.reset();
    let c = match env.rt.compile(&text) {
        Ok(c) => c,
        Err(e) => return Case::fail(text, "rejected", e.text),
    };
    let _ = x;
    for mode in MODES {
        reset_host([1, 2, 3, 4], 5, vec![1, 2, 3]);
        let got = env.rt.run(&c, mode);
        let host = take_host();
        if host.trace != trace {
            return Case::fail(text, "property trace", format!("{mode:?}: {:?} but should be {trace:?}", host.trace));
        }
        let ok = match &got {
            Out::Val(v) => !fail && *v == RV::Array(std::iter::once(0).chain(outs.iter().map(|o| o.1)).map(RV::Int).collect()),
            Out::Fail(_) => fail,
            _ => false,
        };
        if !ok {
            return Case::fail(text, "property", format!("{mode:?}: {}", got.show()));
        }
    }
    Case::pass(text, trace.len() >= 3).with(vec!["host properties"])
}
