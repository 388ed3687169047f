//! Runs a property over many generated cases in forked children, confirms and shrinks failures,
//! writes replay files and evidence.
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

use crate::alloc::{BYTES, CAP, MEMORY_EXIT};
use crate::choice::{Src, hash_str};
use crate::props::Env;
use crate::rt::guarded;
use crate::sys::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Pass,
    Discard,
    Fail { class: String, msg: String },
}

pub struct Case {
    pub verdict: Verdict,
    /// Counts as non-trivial by the property's rule.
    pub nontrivial: bool,
    /// The case written out.
    pub render: String,
    /// Features seen, for the evidence.
    pub labels: Vec<&'static str>,
}

#[allow(dead_code)]
impl Case {
    pub fn pass(render: impl Into<String>, nontrivial: bool) -> Case {
        Case { verdict: Verdict::Pass, nontrivial, render: render.into(), labels: vec![] }
    }
    pub fn discard(render: impl Into<String>) -> Case {
        Case { verdict: Verdict::Discard, nontrivial: false, render: render.into(), labels: vec![] }
    }
    pub fn fails_as(&self, name: &str) -> bool {
        matches!(&self.verdict, Verdict::Fail { class, .. } if class == name)
    }
    pub fn fail(render: impl Into<String>, class: impl Into<String>, msg: impl Into<String>) -> Case {
        Case {
            verdict: Verdict::Fail { class: class.into(), msg: msg.into() },
            nontrivial: true,
            render: render.into(),
            labels: vec![],
        }
    }
    pub fn with(mut self, labels: Vec<&'static str>) -> Case {
        self.labels = labels;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    /// Cases per forked child.
    pub batch: u64,
    /// Seconds of wall clock one case may take before it counts as not finishing.
    pub case_secs: u64,
    /// A case that takes longer than that is abandoned rather than a failure.
    pub hang_ok: bool,
    pub prepare: fn(&mut Env),
    pub run: fn(&mut Env, &mut Src) -> Case,
}

thread_local! {
    /// What the case under way looks like, for failures that end it early.
    static CURRENT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// Records the program about to be run so that a panic or crash can be reported with it.
pub fn about_to_run(text: &str) {
    CURRENT.with(|c| *c.borrow_mut() = text.to_string());
    REPORT_FD.with(|fd| {
        if let Some(fd) = fd.get() {
            let line = format!("A\t{}\n", esc(&text.chars().take(20_000).collect::<String>()));
            do_write(fd, line.as_bytes());
        }
    });
}
thread_local! {
    static REPORT_FD: std::cell::Cell<Option<i32>> = const { std::cell::Cell::new(None) };
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

#[derive(Clone, Debug)]
struct Report {
    idx: u64,
    verdict: Verdict,
    nontrivial: bool,
    hash: u64,
    labels: Vec<String>,
    render: String,
    choices: Vec<u64>,
}

fn panic_class(msg: &str) -> String {
    // The message without its changing parts; the source line is not part of the class.
    let head = msg.split(" [at ").next().unwrap_or(msg);
    let s: String = head.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
    format!("crash: {s}")
}

/// Runs one case in this process. Err is a defect of the harness.
fn run_case(prop: &Prop, env: &mut Env, src: &mut Src) -> Result<(Case, bool), String> {
    CURRENT.with(|c| c.borrow_mut().clear());
    match guarded(|| (prop.run)(env, src)) {
        Ok(case) => Ok((case, false)),
        Err((true, msg)) => {
            let render = CURRENT.with(|c| c.borrow().clone());
            Ok((Case::fail(render, panic_class(&msg), msg), true))
        }
        Err((false, msg)) => Err(msg),
    }
}

fn report_line(idx: u64, case: &Case, choices: &[u64], full: bool) -> String {
    let (v, class, msg) = match &case.verdict {
        Verdict::Pass => ("P", "", ""),
        Verdict::Discard => ("D", "", ""),
        Verdict::Fail { class, msg } => ("F", class.as_str(), msg.as_str()),
    };
    let fail = v == "F";
    let mut line = format!(
        "R\t{idx}\t{v}\t{}\t{}\t{}\t{}\t{}\t{}\t",
        case.nontrivial as u8,
        hash_str(&case.render),
        case.labels.join(","),
        esc(class),
        esc(msg),
        if full || fail { esc(&case.render) } else { String::new() },
    );
    if fail {
        for c in choices {
            let _ = write!(line, "{c:x} ");
        }
    }
    line.push('\n');
    line
}

fn parse_report(line: &str) -> Option<Report> {
    let f: Vec<&str> = line.split('\t').collect();
    if f.len() < 10 || f[0] != "R" {
        return None;
    }
    Some(Report {
        idx: f[1].parse().ok()?,
        verdict: match f[2] {
            "P" => Verdict::Pass,
            "D" => Verdict::Discard,
            _ => Verdict::Fail { class: unesc(f[6]), msg: unesc(f[7]) },
        },
        nontrivial: f[3] == "1",
        hash: f[4].parse().ok()?,
        labels: f[5].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        render: unesc(f[8]),
        choices: f[9].split_whitespace().filter_map(|c| u64::from_str_radix(c, 16).ok()).collect(),
    })
}

/// What a child is to do.
#[derive(Clone)]
enum Job {
    /// Seeded cases first..last.
    Batch(u64, u64),
    /// Explicit choices.
    Choices(Vec<u64>),
}

const HARNESS_EXIT: i32 = 99;

fn child(prop: &Prop, env: &mut Env, seed: u64, job: &Job, fd: i32) -> ! {
    limit(RLIMIT_CORE, 0);
    CAP.store(BYTES.load(std::sync::atomic::Ordering::Relaxed) + (2600isize << 20), std::sync::atomic::Ordering::Relaxed);
    REPORT_FD.with(|f| f.set(Some(fd)));
    let one = |env: &mut Env, src: &mut Src, idx: u64, full: bool| -> bool {
        do_write(fd, format!("S\t{idx}\n").as_bytes());
        match run_case(prop, env, src) {
            Ok((case, poisoned)) => {
                do_write(fd, report_line(idx, &case, &src.rec, full).as_bytes());
                poisoned
            }
            Err(msg) => {
                do_write(fd, format!("H\t{}\n", esc(&msg)).as_bytes());
                do_exit(HARNESS_EXIT)
            }
        }
    };
    match job {
        Job::Batch(a, b) => {
            for idx in *a..*b {
                let mut src = Src::seeded(seed, prop.id, idx);
                if one(env, &mut src, idx, idx % 64 < 4) {
                    break;
                }
            }
        }
        Job::Choices(c) => {
            let mut src = Src::replaying(c.clone());
            one(env, &mut src, 0, true);
        }
    }
    do_exit(0)
}

struct Child {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    job: Job,
    tag: usize,
    current: Option<u64>,
    about: String,
    since: Instant,
    reports: Vec<Report>,
    harness: Option<String>,
}

enum Ended {
    Exit,
    Signal(i32),
    Memory,
    Hang,
}

struct Done {
    job: Job,
    tag: usize,
    ended: Ended,
    current: Option<u64>,
    about: String,
    reports: Vec<Report>,
}

struct Pool<'a> {
    prop: &'a Prop,
    env: &'a mut Env,
    seed: u64,
    children: Vec<Child>,
    case_secs: u64,
}

fn fatal(msg: &str) -> ! {
    eprintln!("HARNESS ERROR: {msg}");
    std::process::exit(2)
}

impl<'a> Pool<'a> {
    fn spawn(&mut self, job: Job, tag: usize) {
        let (r, w) = do_pipe();
        let pid = do_fork();
        if pid < 0 {
            fatal("fork failed");
        }
        if pid == 0 {
            do_close(r);
            child(self.prop, self.env, self.seed, &job, w);
        }
        do_close(w);
        self.children.push(Child {
            pid,
            fd: r,
            buf: Vec::new(),
            job,
            tag,
            current: None,
            about: String::new(),
            since: Instant::now(),
            reports: Vec::new(),
            harness: None,
        });
    }
    /// Waits for a child to end.
    fn next_done(&mut self) -> Done {
        loop {
            let mut fds: Vec<PollFd> =
                self.children.iter().map(|c| PollFd { fd: c.fd, events: POLLIN, revents: 0 }).collect();
            do_poll(&mut fds, 500);
            for i in 0..self.children.len() {
                if fds[i].revents == 0 {
                    if self.children[i].since.elapsed() > Duration::from_secs(self.case_secs) {
                        let c = self.children.remove(i);
                        do_kill(c.pid);
                        let _ = do_wait(c.pid);
                        do_close(c.fd);
                        return Done {
                            job: c.job,
                            tag: c.tag,
                            ended: Ended::Hang,
                            current: c.current,
                            about: c.about,
                            reports: c.reports,
                        };
                    }
                    continue;
                }
                let mut tmp = [0u8; 65536];
                let n = do_read(self.children[i].fd, &mut tmp);
                if n > 0 {
                    let c = &mut self.children[i];
                    c.since = Instant::now();
                    c.buf.extend_from_slice(&tmp[..n as usize]);
                    while let Some(p) = c.buf.iter().position(|b| *b == b'\n') {
                        let line: Vec<u8> = c.buf.drain(..=p).collect();
                        let line = String::from_utf8_lossy(&line[..p]).to_string();
                        if let Some(idx) = line.strip_prefix("S\t") {
                            c.current = idx.parse().ok();
                            c.about.clear();
                        } else if let Some(a) = line.strip_prefix("A\t") {
                            c.about = unesc(a);
                        } else if let Some(h) = line.strip_prefix("H\t") {
                            c.harness = Some(unesc(h));
                        } else if let Some(r) = parse_report(&line) {
                            c.current = None;
                            c.reports.push(r);
                        }
                    }
                    continue;
                }
                let c = self.children.remove(i);
                do_close(c.fd);
                let status = do_wait(c.pid);
                let ended = match status {
                    Ok(0) => Ended::Exit,
                    Ok(MEMORY_EXIT) => Ended::Memory,
                    Ok(code) => fatal(&format!(
                        "child ended with code {code} in case {:?} of {}: {}\n{}",
                        c.current,
                        self.prop.id,
                        c.harness.unwrap_or_default(),
                        c.about
                    )),
                    Err(9) => Ended::Memory, // ended from outside: out of memory
                    Err(sig) => Ended::Signal(sig),
                };
                return Done {
                    job: c.job,
                    tag: c.tag,
                    ended,
                    current: c.current,
                    about: c.about,
                    reports: c.reports,
                };
            }
        }
    }
    fn kill_all(&mut self) {
        for c in self.children.drain(..) {
            do_kill(c.pid);
            let _ = do_wait(c.pid);
            do_close(c.fd);
        }
    }
    /// Outcome of one job in a fresh child: failure class and message, if it fails.
    fn settle(done: &Done) -> Option<(String, String, String)> {
        for r in &done.reports {
            if let Verdict::Fail { class, msg } = &r.verdict {
                return Some((class.clone(), msg.clone(), r.render.clone()));
            }
        }
        match done.ended {
            Ended::Signal(s) => {
                Some((format!("crash: signal {s}"), format!("the process ended with signal {s}"), done.about.clone()))
            }
            Ended::Hang => Some(("hang".into(), "the case did not finish".into(), done.about.clone())),
            _ => None,
        }
    }
    fn eval(&mut self, jobs: Vec<Job>) -> Vec<Option<(String, String, String)>> {
        let mut out: Vec<Option<(String, String, String)>> = vec![None; jobs.len()];
        let mut queue: VecDeque<(usize, Job)> = jobs.into_iter().enumerate().collect();
        let mut running = 0;
        while running > 0 || !queue.is_empty() {
            while running < 8 {
                let Some((i, j)) = queue.pop_front() else { break };
                self.spawn(j, i);
                running += 1;
            }
            let d = self.next_done();
            running -= 1;
            out[d.tag] = Self::settle(&d);
        }
        out
    }
}

fn same_class(a: &str, b: &str) -> bool {
    a == b
}

fn shrink(pool: &mut Pool, mut best: Vec<u64>, class: &str, deadline: Instant) -> (Vec<u64>, (String, String, String), usize) {
    let mut best_out = (class.to_string(), String::new(), String::new());
    let mut tried = 0;
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    // Trailing zeros are implied.
    let trim = |v: &mut Vec<u64>| {
        while v.last() == Some(&0) {
            v.pop();
        }
    };
    trim(&mut best);
    let try_all = |pool: &mut Pool, cands: Vec<Vec<u64>>, best: &mut Vec<u64>, out: &mut (String, String, String), seen: &mut HashSet<Vec<u64>>, tried: &mut usize| -> bool {
        let mut fresh = Vec::new();
        for mut c in cands {
            while c.last() == Some(&0) {
                c.pop();
            }
            if c != *best && seen.insert(c.clone()) {
                fresh.push(c);
            }
        }
        for group in fresh.chunks(8) {
            if Instant::now() > deadline {
                return false;
            }
            *tried += group.len();
            let res = pool.eval(group.iter().map(|c| Job::Choices(c.clone())).collect());
            for (c, r) in group.iter().zip(res) {
                if let Some(r) = r
                    && same_class(&r.0, class)
                {
                    *best = c.clone();
                    *out = r;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let mut improved = false;
        // Delete blocks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut at = 0;
            while at < best.len() && Instant::now() < deadline {
                let cands: Vec<Vec<u64>> = (0..8)
                    .map(|k| at + k * size)
                    .filter(|p| *p < best.len())
                    .map(|p| {
                        let mut c = best.clone();
                        c.drain(p..(p + size).min(c.len()));
                        c
                    })
                    .collect();
                if try_all(pool, cands, &mut best, &mut best_out, &mut seen, &mut tried) {
                    improved = true;
                } else {
                    at += 8 * size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero blocks.
        for size in [32usize, 8, 4, 2, 1] {
            let mut at = 0;
            while at < best.len() && Instant::now() < deadline {
                let cands: Vec<Vec<u64>> = (0..8)
                    .map(|k| at + k * size)
                    .filter(|p| *p < best.len())
                    .map(|p| {
                        let mut c = best.clone();
                        let end = (p + size).min(c.len());
                        c[p..end].iter_mut().for_each(|x| *x = 0);
                        c
                    })
                    .collect();
                if try_all(pool, cands, &mut best, &mut best_out, &mut seen, &mut tried) {
                    improved = true;
                }
                at += 8 * size;
            }
        }
        // Lower single choices.
        let mut i = 0;
        while i < best.len() && Instant::now() < deadline {
            let v = best[i];
            if v > 0 {
                let cands: Vec<Vec<u64>> = [1, v / 2, v - v / 4, v - 1]
                    .into_iter()
                    .filter(|n| *n < v)
                    .map(|n| {
                        let mut c = best.clone();
                        c[i] = n;
                        c
                    })
                    .collect();
                if try_all(pool, cands, &mut best, &mut best_out, &mut seen, &mut tried) {
                    improved = true;
                    continue;
                }
            }
            i += 1;
        }
        if !improved || Instant::now() > deadline {
            return (best, best_out, tried);
        }
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Found {
    pub class: String,
    pub msg: String,
    pub render: String,
    pub replay: String,
}

fn write_replay(dir: &str, prop: &Prop, seed: u64, class: &str, msg: &str, render: &str, body: &str) -> String {
    let _ = std::fs::create_dir_all(dir);
    let name = format!("{dir}/{}-{:08x}.txt", prop.id, hash_str(&format!("{class}{render}{body}")) as u32);
    let text = format!(
        "property {}\nseed {}\n{}\nclass {}\nmessage {}\n--- case ---\n{}\n",
        prop.id,
        seed,
        body,
        esc(class),
        esc(msg),
        render
    );
    let _ = std::fs::write(&name, text);
    name
}

pub fn run(prop: &Prop, env: &mut Env, seed: u64, tier: &str, verif: &str) -> i32 {
    let start = Instant::now();
    let total = std::env::var("VERIF_CASES").ok().and_then(|v| v.parse().ok()).unwrap_or(if tier == "thorough" {
        prop.thorough
    } else {
        prop.quick
    });
    let soft = Duration::from_secs(if tier == "thorough" { 4 * 3600 } else { 420 });
    let replays = format!("{verif}/replays");
    let mut pool = Pool { prop, env, seed, children: Vec::new(), case_secs: prop.case_secs };
    let workers = 8;
    let mut next = 0u64;
    let mut redo: VecDeque<(u64, u64)> = VecDeque::new();
    let (mut evals, mut discards, mut memory, mut hangs) = (0u64, 0u64, 0u64, 0u64);
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    // (idx, batch start, class, msg, render, choices)
    let mut suspects: Vec<(u64, u64, String, String, String, Vec<u64>)> = Vec::new();
    let mut stop = false;
    let mut cut = false;
    loop {
        while !stop && pool.children.len() < workers {
            if let Some((a, b)) = redo.pop_front() {
                pool.spawn(Job::Batch(a, b), 0);
                continue;
            }
            if next >= total {
                break;
            }
            if start.elapsed() > soft {
                cut = true;
                break;
            }
            let end = (next + prop.batch).min(total);
            pool.spawn(Job::Batch(next, end), 0);
            next = end;
        }
        if pool.children.is_empty() {
            break;
        }
        let done = pool.next_done();
        let Job::Batch(first, last) = done.job else { continue };
        let mut reached = first;
        for r in &done.reports {
            evals += 1;
            reached = r.idx + 1;
            match &r.verdict {
                Verdict::Pass => {
                    if r.nontrivial {
                        distinct.insert(r.hash);
                    }
                    for l in &r.labels {
                        *labels.entry(l.clone()).or_default() += 1;
                    }
                    if r.nontrivial && !r.render.is_empty() && samples.len() < 12 {
                        samples.push(r.render.clone());
                    }
                }
                Verdict::Discard => discards += 1,
                Verdict::Fail { class, msg } => {
                    suspects.push((r.idx, first, class.clone(), msg.clone(), r.render.clone(), r.choices.clone()));
                }
            }
        }
        match done.ended {
            Ended::Exit => {}
            Ended::Memory => {
                memory += 1;
                reached = done.current.unwrap_or(reached) + 1;
            }
            Ended::Signal(s) => {
                let idx = done.current.unwrap_or(reached);
                suspects.push((idx, first, format!("crash: signal {s}"), format!("the process ended with signal {s}"), done.about.clone(), vec![]));
                reached = idx + 1;
            }
            Ended::Hang if prop.hang_ok && !done.about.starts_with("# must end") => {
                // The internal checks of a debug build are exponential on some accepted programs:
                // such a case says nothing, unless it is the rule.
                hangs += 1;
                let idx = done.current.unwrap_or(reached);
                if hangs > 8 && hangs * 20 > evals {
                    suspects.push((idx, first, "hang".into(), format!("{hangs} of {evals} cases gave no answer within {} s", prop.case_secs), done.about.clone(), vec![]));
                }
                reached = idx + 1;
            }
            Ended::Hang => {
                let idx = done.current.unwrap_or(reached);
                suspects.push((idx, first, "hang".into(), format!("no answer within {} s", prop.case_secs), done.about.clone(), vec![]));
                reached = idx + 1;
            }
        }
        if reached < last {
            redo.push_back((reached, last));
        }
        if suspects.len() >= 6 {
            stop = true;
            pool.kill_all();
        }
    }
    // Confirm each suspect from a fresh process.
    let mut found: Vec<Found> = Vec::new();
    let mut unreproduced: Vec<String> = Vec::new();
    let mut classes: HashSet<String> = HashSet::new();
    suspects.sort_by_key(|s| s.0);
    let confirm_start = Instant::now();
    for (idx, first, class, msg, render, choices) in suspects {
        if found.len() >= 3 || classes.contains(&class) || confirm_start.elapsed() > Duration::from_secs(150) && std::env::var("VERIF_SHRINK").is_err() {
            continue;
        }
        if class == "hang" {
            pool.case_secs = prop.case_secs * 2;
        }
        let alone = pool.eval(vec![Job::Batch(idx, idx + 1)]).pop().unwrap();
        if let Some((class2, msg2, render2)) = alone {
            classes.insert(class.clone());
            let (mut body, mut m, mut r) = (format!("case {idx}"), msg2, render2);
            if !choices.is_empty() {
                let secs = std::env::var("VERIF_SHRINK").ok().and_then(|v| v.parse().ok()).unwrap_or(45);
                let deadline = Instant::now() + Duration::from_secs(secs);
                let (small, out, tried) = shrink(&mut pool, choices.clone(), &class2, deadline);
                let check = pool.eval(vec![Job::Choices(small.clone())]).pop().unwrap();
                if let Some((c, m3, r3)) = check
                    && c == class2
                {
                    body = format!(
                        "choices {}",
                        small.iter().map(|c| format!("{c:x}")).collect::<Vec<_>>().join(" ")
                    );
                    m = m3;
                    r = r3;
                }
                eprintln!("shrunk case {idx} from {} to {} choices in {tried} tries ({})", choices.len(), small.len(), out.0);
            }
            let replay = write_replay(&replays, prop, seed, &class2, &m, &r, &body);
            found.push(Found { class: class2, msg: m, render: r, replay });
        } else {
            // Perhaps it needs the cases that ran before it in the same process.
            let mut again = None;
            for _ in 0..2 {
                again = pool.eval(vec![Job::Batch(first, idx + 1)]).pop().unwrap();
                if again.is_some() {
                    break;
                }
            }
            if let Some((c, m, r)) = again {
                classes.insert(class.clone());
                let body = format!("history {first} {}", idx + 1);
                let replay = write_replay(&replays, prop, seed, &c, &m, &r, &body);
                found.push(Found { class: c, msg: m, render: r, replay });
            } else {
                unreproduced.push(format!("case {idx}: {class}: {msg}\n{render}"));
            }
        }
        pool.case_secs = prop.case_secs;
    }
    for u in &unreproduced {
        eprintln!("not reproduced: {u}");
    }
    let known = crate::props::known(prop.id);
    let mut known_lines = Vec::new();
    for k in &known {
        if k.still_fails(pool.env) {
            known_lines.push(format!("KNOWN-FINDING: property={} {}", prop.id, k.what));
        }
    }
    for l in &known_lines {
        println!("{l}");
    }
    // Evidence.
    let wall = start.elapsed().as_secs_f64();
    let mut e = String::from("{\n");
    let _ = writeln!(e, "  \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",", json(prop.id), json(tier));
    let _ = writeln!(e, "  \"coverage\": {{");
    let _ = writeln!(e, "    \"evaluations\": {evals},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},", distinct.len(), json(prop.rule));
    let _ = writeln!(e, "    \"discarded\": {discards}, \"out_of_memory\": {memory}, \"abandoned_as_too_slow\": {hangs}, \"stopped_by_time\": {cut}, \"cases_planned\": {total},");
    let _ = writeln!(
        e,
        "    \"labels\": {{{}}},",
        labels.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect::<Vec<_>>().join(", ")
    );
    let _ = writeln!(e, "    \"not_reproduced\": [{}],", unreproduced.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(e, "    \"known_findings\": [{}],", known_lines.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(e, "    \"failures\": [{}],", found.iter().map(|f| json(&format!("{}: {}\n{}", f.class, f.msg, f.render))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(e, "    \"samples\": [{}]\n  }},", samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(",\n      "));
    let _ = writeln!(e, "  \"assumptions\": [{}],", prop.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(e, "  \"wall_s\": {wall:.1}, \"violations\": {}\n}}", found.len());
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    if std::fs::write(format!("{verif}/evidence/{}.json", prop.id), e).is_err() {
        fatal("cannot write the evidence file");
    }
    println!(
        "{}: {evals} cases, {} distinct non-trivial, {discards} discarded, {memory} out of memory, {wall:.1} s",
        prop.id,
        distinct.len()
    );
    for f in &found {
        println!("VIOLATION property={} replay={}", prop.id, f.replay);
        println!("  {}: {}", f.class, f.msg.lines().next().unwrap_or(""));
        println!("{}", f.render.lines().take(60).map(|l| format!("  | {l}")).collect::<Vec<_>>().join("\n"));
    }
    if found.is_empty() { 0 } else { 1 }
}

/// Runs a replay file again: exit 1 with a VIOLATION line if it still fails.
pub fn replay(prop: &Prop, env: &mut Env, file: &str) -> i32 {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| fatal(&format!("{file}: {e}")));
    let mut seed = 1;
    let mut job = None;
    for line in text.lines().take(6) {
        if let Some(s) = line.strip_prefix("seed ") {
            seed = s.parse().unwrap_or(1);
        } else if let Some(c) = line.strip_prefix("choices") {
            job = Some(Job::Choices(c.split_whitespace().filter_map(|c| u64::from_str_radix(c, 16).ok()).collect()));
        } else if let Some(i) = line.strip_prefix("case ") {
            let i: u64 = i.trim().parse().unwrap_or(0);
            job = Some(Job::Batch(i, i + 1));
        } else if let Some(h) = line.strip_prefix("history ") {
            let v: Vec<u64> = h.split_whitespace().filter_map(|c| c.parse().ok()).collect();
            job = Some(Job::Batch(v[0], v[1]));
        }
    }
    let Some(job) = job else { fatal("no case in the replay file") };
    let mut pool = Pool { prop, env, seed, children: Vec::new(), case_secs: prop.case_secs * 2 };
    match pool.eval(vec![job]).pop().unwrap() {
        Some((class, msg, render)) => {
            println!("VIOLATION property={} replay={file}\n{class}: {msg}\n{render}", prop.id);
            1
        }
        None => {
            println!("{}: the case in {file} passes", prop.id);
            0
        }
    }
}

/// Prints one generated case.
pub fn show(prop: &Prop, env: &mut Env, seed: u64, idx: u64) {
    let mut src = Src::seeded(seed, prop.id, idx);
    match run_case(prop, env, &mut src) {
        Ok((case, _)) => println!("{}\n--- {:?} nontrivial={} {:?}", case.render, case.verdict, case.nontrivial, case.labels),
        Err(e) => println!("harness error: {e}\n{}", CURRENT.with(|c| c.borrow().clone())),
    }
}
