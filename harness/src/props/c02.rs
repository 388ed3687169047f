//! Programs compute what the documented semantics define: comparison with a reference interpreter.
use crate::choice::Src;
use crate::driver::{Case, Prop, about_to_run};
use crate::gen_::{Feats, G};
use crate::host::HostState;
use crate::model::Interp;
use crate::props::Env;
use crate::rt::{Mode, Out};

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "the program is accepted and the reference interpreter completes within its bounds after at least 12 steps",
        assumptions: &[],
        quick: 2500,
        thorough: 400_000,
        batch: 100,
        case_secs: 20,
        hang_ok: true,
        prepare: |_| {},
        run,
    }
}

pub fn same(model: &Out, got: &Out) -> bool {
    match (model, got) {
        (Out::Fail(a), Out::Fail(b)) => a == b,
        (a, b) => a == b,
    }
}

fn run(env: &mut Env, src: &mut Src) -> Case {
    let f = Feats::swarm(src);
    let mut g = G::new(src, f);
    g.program();
    let (p, labels) = (g.p.clone(), g.labels_seen.clone());
    let text = p.text();
    about_to_run(&text);
    env.rt.reset();
    let c = match env.rt.compile(&text) {
        Ok(c) => c,
        // Effects are part of a function's type, and the mutability of a closure's parameters is
        // inferred from the first call; the generator does not track either.
        Err(e) if matches!(e.kind.as_str(), "InvalidEffectDependency" | "MutabilityMustBe" | "MutablePathsOverlap" | "UnsupportedSubscriptFeature") => return Case::discard(text),
        Err(e) => return Case::fail(text, format!("rejected {}", e.kind), e.text),
    };
    let mut m = Interp::new(&p, HostState::default());
    let Some(want) = m.run().out() else { return Case::discard(text) };
    let steps = m.steps;
    for mode in [Mode::Hir, Mode::Opt] {
        let got = env.rt.run(&c, mode);
        if got.is_limit() {
            return Case::discard(text);
        }
        if !same(&want, &got) {
            return Case::fail(text, "differ", format!("{mode:?}: {} but the semantics give {}", got.show(), want.show()));
        }
    }
    Case::pass(text, steps >= 12).with(labels)
}
