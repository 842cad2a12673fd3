mod actor;
mod client;
mod fs;
mod gen;
mod gitrepo;
mod guests;
mod lin;
mod oracle;
mod rng;
mod runner;
mod scenario;
mod setup;
mod sys;
mod world;

use scenario::*;

fn load(prop: &str) -> Result<(), String> {
    let exe = std::fs::read_link("/proc/self/exe").map_err(|e| e.to_string())?;
    let dir = exe.parent().unwrap().to_str().unwrap().to_string();
    match prop {
        "C19" | "C21" => guests::load(&dir, Prog::GitAt, 2),
        "C20" | "C23" => guests::load(&dir, Prog::RecentRefs, 2),
        "C22" => guests::load(&dir, Prog::GitAt, 2)
            .and_then(|_| guests::load(&dir, Prog::RecentRefs, 2))
            .and_then(|_| guests::load(&dir, Prog::Transfer, 12)),
        _ => guests::load(&dir, Prog::Transfer, 12),
    }
}

fn opt<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|k| args.get(k + 1)).map(|x| x.as_str())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.last().map(|x| x.as_str()) != Some("--pad") {
        // run again with a clean environment and room for the guests' arguments
        use std::os::unix::process::CommandExt;
        let mut c = std::process::Command::new("/proc/self/exe");
        c.args(&args[1..]);
        for _ in 0..guests::PAD {
            c.arg("--pad");
        }
        c.env_clear().env("HOME", "/home/user").env("TZ", "UTC").env("PATH", "/usr/bin:/bin");
        let e = c.exec();
        eprintln!("exec: {}", e);
        std::process::exit(3);
    }
    let args: Vec<String> = args.into_iter().filter(|a| a != "--pad").collect();
    let fail = |e: String| -> ! {
        eprintln!("{}", e);
        std::process::exit(3)
    };
    std::panic::set_hook(Box::new(|i| {
        eprintln!("the simulator panics: {}", i);
        unsafe { libc::_exit(97) }
    }));
    let code = match args.get(1).map(|x| x.as_str()) {
        Some("check") => {
            let prop = args[2].clone();
            load(&prop).unwrap_or_else(|e| fail(e));
            let meta: serde_json::Value = opt(&args, "--meta")
                .and_then(|p| std::fs::read(p).ok())
                .and_then(|b| serde_json::from_slice(&b).ok())
                .unwrap_or(serde_json::json!({}));
            let num = |n: &str, d: f64| opt(&args, n).and_then(|x| x.parse::<f64>().ok()).unwrap_or(d);
            let c = runner::Cfg {
                prop,
                tier: opt(&args, "--tier").unwrap_or("quick").into(),
                seed: opt(&args, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
                runs: num("--runs", 2000.0) as u64,
                cap_s: num("--cap", 45.0),
                workers: num("--workers", 8.0) as usize,
                verif: opt(&args, "--verif").unwrap_or("/verif").into(),
            };
            runner::check(&c, &meta)
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| fail(e.to_string()));
            let r: Replay = serde_json::from_str(&t).unwrap_or_else(|e| fail(e.to_string()));
            load(&r.property).unwrap_or_else(|e| fail(e));
            runner::replay(&args[2], args.iter().any(|a| a == "-v"))
        }
        Some("gen") => {
            // the scenario of a seed
            let sc = gen::scenario(&args[2], args[3].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&sc).unwrap());
            0
        }
        Some("survey") => {
            // every kind of violation among many runs, with an example of each
            load(&args[2]).unwrap_or_else(|e| fail(e));
            runner::survey(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap());
            0
        }
        Some("run") => {
            let sc: Scenario = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            load(match sc.sessions[0].prog {
                Prog::GitAt => "C19",
                Prog::RecentRefs | Prog::Actor => "C20",
                _ => "C01",
            })
            .unwrap_or_else(|e| fail(e));
            let o = runner::simulate(&sc, true);
            for t in &o.trace {
                println!("{}", t);
            }
            for v in &o.v {
                println!("{:?}", v);
            }
            println!("{:?} {:x} {:?}", o.error, o.hash, o.fired);
            unsafe { libc::_exit(0) };
        }
        _ => {
            eprintln!("harness check PROP | replay FILE [-v] | gen PROP SEED | run SCENARIO");
            3
        }
    };
    std::process::exit(code)
}
