//! Both backends, with and without optimization, agree.
use crate::choice::Src;
use crate::corpus;
use crate::driver::{Case, Prop, about_to_run};
use crate::gen_::{Feats, G};
use crate::host::reset_host;
use crate::props::Env;
use crate::rt::{Compiled, MODES, Mode, Out, limits};
use crate::shapes::Shape;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "the program is accepted, has an expression to run, and no run met a resource limit",
        assumptions: &[],
        quick: 3000,
        thorough: 400_000,
        batch: 100,
        case_secs: 20,
        hang_ok: true,
        prepare: |env| env.rt.with_host = true,
        run,
    }
}

pub const STATES: [[i64; 4]; 4] = [[1, 2, 3, 4], [0, -1, 5, 2], [7, 0, 0, -3], [3, 9, 1, 1]];

/// Runs in every mode from the same host state: the first disagreement, and whether a limit was met.
pub fn compare(env: &mut Env, c: &Compiled, cells: [i64; 4], trace: bool) -> (Option<String>, bool) {
    let mut first: Option<(Out, crate::host::HostState)> = None;
    for mode in MODES {
        reset_host(cells, 5, vec![1, 2, 3]);
        let out = env.rt.run(c, mode);
        if out.is_limit() {
            // A limit may be met in one mode only; a run that ends must not depend on it.
            if mode != Mode::Hir || !matches!(env.rt.run_limited(c, mode, limits(100, Some(3_000_000), 65_536)), Out::Limit(_)) {
                return (None, true);
            }
            reset_host(cells, 5, vec![1, 2, 3]);
            let opt = env.rt.run_limited(c, Mode::Opt, limits(100, Some(20_000), 65_536));
            if let Out::Val(_) | Out::Fail(_) = opt {
                return (Some(format!("Hir does not end but Opt gives {}", opt.show())), true);
            }
            return (None, true);
        }
        let host = crate::host::take_host();
        match &first {
            None => first = Some((out, host)),
            Some((o, h)) => {
                if *o != out {
                    return (Some(format!("Hir gives {} but {mode:?} gives {}, host cells {cells:?}", o.show(), out.show())), false);
                }
                if trace && *h != host {
                    return (Some(format!("host cells {cells:?}: Hir calls {:?}, {mode:?} calls {:?}", h.trace, host.trace)), false);
                }
            }
        }
    }
    (None, false)
}

fn run(env: &mut Env, src: &mut Src) -> Case {
    let (text, mut labels) = match src.weighted(&[4, 2, 2, 5]) {
        0 => {
            let f = Feats::swarm(src);
            let mut g = G::new(src, f);
            g.program();
            (g.p.text(), vec!["generated"])
        }
        1 => {
            let i = src.idx(env.corpus.len());
            (env.corpus[i].clone(), vec!["from the tests"])
        }
        2 => {
            let i = src.idx(env.corpus.len());
            // Known finding: a match without arms has no terminator in the intermediate code.
            if env.corpus[i].contains("enum Never {}") {
                return Case::discard(env.corpus[i].clone());
            }
            (corpus::mutate(src, &env.corpus[i].clone(), true), vec!["from the tests, edited"])
        }
        _ => {
            let host = src.chance(1, 4);
            let (t, mut l) = Shape::program(src, host);
            l.push("kernel");
            (t, l)
        }
    };
    about_to_run(&text);
    env.rt.reset();
    let c = match env.rt.compile(&text) {
        Ok(c) => c,
        Err(_) => return Case::discard(text),
    };
    let states = if text.contains("host::get") { &STATES[..] } else { &STATES[..1] };
    let mut limited = false;
    for cells in states {
        let (diff, limit) = compare(env, &c, *cells, false);
        if let Some(d) = diff {
            return Case::fail(text, "differ", d);
        }
        limited |= limit;
    }
    if limited {
        labels.push("met a limit");
    }
    Case::pass(text, c.entry.is_some() && !limited).with(labels)
}
