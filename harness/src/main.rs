mod alloc;
mod choice;
mod corpus;
mod shapes;
mod driver;
#[path = "gen.rs"]
mod gen_;
mod host;
mod lang;
mod model;
mod props;
mod rt;
mod sys;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn exec_session() -> rt::Rt {
    let mut r = rt::Rt::new();
    r.with_host = true;
    r.s.set_allow_experimental(true);
    r.reset();
    r
}

/// Answers for each file named on standard input, each from a forked child.
fn serve() {
    use std::io::{BufRead, Write};
    let mut r = exec_session();
    for line in std::io::stdin().lock().lines() {
        let Ok(file) = line else { break };
        let _ = std::io::stdout().flush();
        let pid = sys::do_fork();
        if pid == 0 {
            sys::limit_seconds(10);
            exec(&mut r, &file);
            let _ = std::io::stdout().flush();
            sys::do_exit(0);
        }
        let _ = sys::do_wait(pid);
        println!("\x01END");
        let _ = std::io::stdout().flush();
    }
}

fn exec(r: &mut rt::Rt, file: &str) {
    let src = std::fs::read_to_string(file).expect("readable file");
    match r.compile(&src) {
        Err(e) => println!("rejected {}: {}", e.kind, e.text),
        Ok(c) => {
            println!("type {}", r.ret_ty_text(&c));
            for m in rt::MODES {
                host::reset_host([0; 4], 0, vec![1, 2, 3]);
                host::reset_tracked();
                let out = r.run(&c, m);
                println!("{m:?}: {}", out.show());
                let h = host::take_host();
                if !h.trace.is_empty() {
                    println!("   {:?}", h.trace);
                }
                let t = host::tracked();
                if t.made != 0 || !t.hooks.is_empty() {
                    println!("   made {} live {} hooks {:?}", t.made, t.live, t.hooks);
                }
            }
            if std::env::var("LEAKS").is_ok() {
                for m in rt::MODES {
                    let left: Vec<isize> = (0..5)
                        .map(|_| {
                            host::reset_host([0; 4], 0, vec![1, 2, 3]);
                            let before = alloc::live();
                            host::reset_tracked();
                            drop(r.run(&c, m));
                            host::reset_host([0; 4], 0, vec![1, 2, 3]);
                            let t = host::tracked();
                            if t.made > 0 {
                                println!("{m:?}: {} native values made, {} left", t.made, t.live);
                            }
                            alloc::live() - before
                        })
                        .collect();
                    println!("{m:?}: allocations left by each of five runs {left:?}");
                }
            }
            println!("inspect: {:?}", r.inspect(&c, rt::Mode::Hir));
        }
    }
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let usage = || -> ! {
        eprintln!("usage: ferlium-check run ID TIER | replay FILE | show ID INDEX | exec FILE | list");
        std::process::exit(2)
    };
    let Some(cmd) = args.first() else { usage() };
    let find = |id: &str| {
        props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {id}");
            std::process::exit(2)
        })
    };
    match cmd.as_str() {
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        "exec" => {
            exec(&mut exec_session(), &args[1]);
            0
        }
        "mir" => {
            let text = std::fs::read_to_string(&args[1]).unwrap();
            let mut s = exec_session();
            s.mode(if args.len() > 2 { rt::Mode::Opt } else { rt::Mode::Mir });
            println!("{}", s.s.emit_mir("m", &text));
            0
        }
        "classify" => {
            // Splits build/all_texts.txt into the texts that are accepted and the others.
            rt::install_panic_hook();
            let dir = format!("{}/corpus", verif_dir());
            let all = std::fs::read_to_string(format!("{dir}/../build/all_texts.txt")).unwrap();
            let mut s = exec_session();
            let (mut ok, mut bad) = (vec![], vec![]);
            for (i, t) in all.split("\n\x1e\n").enumerate() {
                s.with_host = t.contains("host::");
                let r = rt::guarded(|| {
                    s.reset();
                    s.compile(t).map(|c| c.entry.is_some() || t.contains("fn "))
                });
                match r {
                    Ok(Ok(true)) => ok.push(t),
                    Ok(_) => bad.push(t),
                    Err((_, e)) => {
                        println!("{i}: {e}\n{t}");
                        s = exec_session();
                    }
                }
            }
            std::fs::write(format!("{dir}/accepted.txt"), ok.join("\n\x1e\n")).unwrap();
            std::fs::write(format!("{dir}/other.txt"), bad.join("\n\x1e\n")).unwrap();
            println!("{} accepted, {} not", ok.len(), bad.len());
            0
        }
        "serve" => {
            serve();
            0
        }
        "run" if args.len() == 3 => {
            let p = find(&args[1]);
            rt::install_panic_hook();
            let mut env = props::Env::new();
            (p.prepare)(&mut env);
            driver::run(&p, &mut env, seed, &args[2], &verif_dir())
        }
        "show" if args.len() >= 3 => {
            let p = find(&args[1]);
            rt::install_panic_hook();
            let mut env = props::Env::new();
            (p.prepare)(&mut env);
            driver::show(&p, &mut env, seed, args[2].parse().unwrap_or(0));
            0
        }
        "replay" if args.len() == 2 => {
            let text = std::fs::read_to_string(&args[1]).unwrap_or_default();
            let id = text.lines().next().and_then(|l| l.strip_prefix("property ")).unwrap_or("").to_string();
            let p = find(&id);
            rt::install_panic_hook();
            let mut env = props::Env::new();
            (p.prepare)(&mut env);
            driver::replay(&p, &mut env, &args[1])
        }
        _ => usage(),
    }
}

fn main() {
    // Deeply nested generated programs need a deep stack; children inherit this thread.
    let code = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap_or(2);
    std::process::exit(code)
}
