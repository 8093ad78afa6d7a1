#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
mod driver;
mod gens;
mod handgen;
mod plan;
mod refmodel;
mod rng;
mod rt;
mod stats;
mod world;

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;

fn oom(_: std::alloc::Layout) { std::panic::panic_any(world::AllocFail) }

fn main() {
    // the address layout is part of the simulated environment
    if rt::no_aslr() {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
        eprintln!("sim: cannot re-execute: {e}");
        std::process::exit(2);
    }
    std::alloc::set_alloc_error_hook(oom);
    let a: Vec<String> = std::env::args().collect();
    let opt = |name: &str| a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned();
    let num = |name: &str, d: u64| opt(name).map_or(d, |v| v.parse().expect("number"));
    let profile = opt("--profile").unwrap_or_else(|| if cfg!(debug_assertions) { "dbg".into() } else { "release".into() });
    unsafe { world::LADDER = Some(refmodel::Ladder::new()) };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("selftest") => match refmodel::selftest() {
            Ok(()) => {
                println!("reference model self-test passed");
                0
            }
            Err(e) => {
                println!("reference model self-test FAILED: {e}");
                2
            }
        },
        Some("run") => {
            if let Err(e) = refmodel::selftest() {
                eprintln!("reference model self-test failed: {e}");
                std::process::exit(2);
            }
            driver::run(&driver::Opts {
                prop: a[2].clone(),
                seed: num("--seed", 1),
                runs: num("--runs", 1000),
                offset: num("--offset", 0),
                workers: num("--workers", 8) as usize,
                wall: num("--wall", 300),
                profile,
                out: opt("--out"),
                replay_dir: opt("--replay-dir").unwrap_or_else(|| "/verif/replays".into()),
            })
        }
        Some("replay") => driver::replay(&a[2]),
        Some("audit") => driver::audit(&a[2], num("--seed", 1), num("--runs", 100), &profile),
        Some("plan") => {
            let p = gens::plan(&a[2], num("--seed", 1), num("--run", 0), &profile);
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        _ => {
            eprintln!("usage: sim run ID | replay FILE | audit ID | plan ID | selftest");
            2
        }
    };
    std::process::exit(code);
}
