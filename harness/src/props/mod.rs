pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod dom;
pub mod util;

use crate::driver::Prop;
use crate::rt::Rt;

/// What every check has at hand.
pub struct Env {
    pub rt: Rt,
    /// Accepted programs from the tests and documentation.
    pub corpus: Vec<String>,
    /// Other texts found there.
    pub texts: Vec<String>,
}

impl Env {
    pub fn new() -> Env {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let scratch = format!("{dir}/build/stdcache");
        let _ = std::fs::create_dir_all(&scratch);
        // SAFETY: no other thread runs yet.
        unsafe { std::env::set_var("FERLIUM_STD_CACHE_DIR", &scratch) };
        Env {
            rt: Rt::new(),
            corpus: crate::corpus::load(&dir, "accepted.txt"),
            texts: crate::corpus::load(&dir, "other.txt"),
        }
    }
}

/// One finding listed in known_findings.txt.
pub struct Known {
    pub what: String,
    expect: String,
    hooks: Option<String>,
    program: String,
}

/// The findings listed for a property. Lines that start with "fixed:" suppress nothing.
pub fn known(id: &str) -> Vec<Known> {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let text = std::fs::read_to_string(format!("{dir}/known_findings.txt")).unwrap_or_default();
    let mut out: Vec<Known> = vec![];
    let mut mine = false;
    let mut body = false;
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: property=") {
            let (ids, what) = rest.split_once(' ').unwrap_or((rest, ""));
            mine = ids.split(',').any(|i| i == id);
            body = false;
            if mine {
                out.push(Known { what: what.into(), expect: String::new(), hooks: None, program: String::new() });
            }
        } else if line.starts_with("fixed:") {
            mine = false;
        } else if mine {
            let k = out.last_mut().unwrap();
            if body {
                k.program.push_str(line);
                k.program.push('\n');
            } else if let Some(e) = line.strip_prefix("expect: ") {
                k.expect = e.into();
            } else if let Some(e) = line.strip_prefix("hooks: ") {
                k.hooks = Some(e.into());
            } else if line == "program:" {
                body = true;
            }
        }
    }
    out
}

impl Known {
    /// Runs the listed input in a child: does it still not behave as it should?
    pub fn still_fails(&self, env: &mut Env) -> bool {
        use crate::sys::*;
        let pid = do_fork();
        if pid == 0 {
            limit_seconds(20);
            let ok = crate::rt::guarded(|| self.behaves(env)).unwrap_or(false);
            do_exit(if ok { 0 } else { 9 });
        }
        do_wait(pid) != Ok(0)
    }
    fn behaves(&self, env: &mut Env) -> bool {
        env.rt.with_host = true;
        env.rt.reset();
        let c = match env.rt.compile(&self.program) {
            Ok(_) if self.expect == "rejected" => return false,
            Ok(c) => c,
            Err(_) => return self.expect == "rejected",
        };
        crate::rt::MODES.iter().all(|m| {
            crate::host::reset_host([1, 2, 3, 4], 5, vec![1, 2, 3]);
            crate::host::reset_tracked();
            let out = env.rt.run(&c, *m).show();
            let mut hooks = crate::host::tracked().hooks;
            hooks.sort();
            let hooks = hooks.iter().map(|h| h.to_string()).collect::<Vec<_>>().join(" ");
            (self.expect == "accepted" || out == self.expect) && self.hooks.as_ref().is_none_or(|h| *h == hooks)
        }) && env.rt.inspect(&c, crate::rt::Mode::Hir).is_ok() == !(self.expect.starts_with("failure") || self.expect.starts_with("limit"))
    }
}

pub fn all() -> Vec<Prop> {
    vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(), c14::prop(), c15::prop(), c16::prop(), c17::prop()]
}
