//! Shared by the checks that compare whole programs with an outcome computed by a Rust model.
use crate::driver::{Case, about_to_run};
use crate::props::Env;
use crate::rt::{Compiled, MODES, Out, RV};

/// Failures are compared by kind; only an abort's message is part of the documented behaviour.
pub fn kind(s: &str) -> &str {
    if s.starts_with("Aborted") { s } else { s.split(':').next().unwrap_or(s) }
}
pub fn same(want: &Out, got: &Out) -> bool {
    match (want, got) {
        (Out::Fail(a), Out::Fail(b)) => kind(a) == kind(b),
        (a, b) => a == b,
    }
}

/// Compiles, runs in every mode, compares. None when all agree.
pub fn expect(env: &mut Env, text: &str, want: &Out) -> Result<Compiled, Case> {
    about_to_run(text);
    env.rt.reset();
    let c = match env.rt.compile(text) {
        Ok(c) => c,
        Err(e) => return Err(Case::fail(text, format!("rejected {}", e.kind), e.text)),
    };
    for mode in MODES {
        let got = env.rt.run_limited(&c, mode, crate::rt::limits(200, Some(2_000_000), 65_536));
        if !same(want, &got) {
            return Err(Case::fail(text, "differ", differ(want, &got, &format!("{mode:?}"))));
        }
    }
    Ok(c)
}

/// Points at the first component that differs.
pub fn differ(want: &Out, got: &Out, who: &str) -> String {
    if let (Out::Val(RV::Tuple(a)), Out::Val(RV::Tuple(b))) = (want, got)
        && a.len() == b.len()
        && let Some(i) = (0..a.len()).find(|i| a[*i] != b[*i])
    {
        return format!("{who}: component {i} is {} but should be {}", b[i].show(), a[i].show());
    }
    format!("{who}: {} but should be {}", got.show(), want.show())
}

/// A ferlium string literal for a text.
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\0' => o.push_str("\\0"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// An integer as source; the least one has no literal.
pub fn int_text(i: i64) -> String {
    if i == i64::MIN {
        "(-9223372036854775807 - 1)".into()
    } else if i < 0 {
        format!("({i})")
    } else {
        i.to_string()
    }
}
