//! Deterministic simulation of kul under faults.  See /verif/DESIGN.md.

mod case;
mod drive;
mod engine;
mod entropy;
mod gen;
mod hooks;
mod log;
mod mem;
mod model;
mod props;
mod rng;
mod sched;
mod shrink;
mod stack;
mod world;

use std::path::{Path, PathBuf};
use std::time::Duration;

#[global_allocator]
static HEAP: mem::Counting = mem::Counting;

fn main() {
    // Parsing recurses with nesting; give the simulator room of its own.
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(real_main);
    let code = match h.map(std::thread::JoinHandle::join) {
        Ok(Ok(c)) => c,
        _ => 3,
    };
    std::process::exit(code);
}

fn profile() -> String {
    format!("{}{}", env!("KSIM_PROFILE"), if cfg!(feature = "hooks") { "" } else { "-nohooks" })
}

fn real_main() -> i32 {
    engine::install_panic_hook();
    hooks::install();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a = |i: usize| args.get(i).map_or("", String::as_str);
    let num = |i: usize| a(i).parse::<u64>().unwrap_or(0);
    let root = PathBuf::from(std::env::var("KSIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let workers = std::env::var("KSIM_WORKERS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64))
        .clamp(1, 64);
    let prop = |id: &str| {
        props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("harness error: unknown property {id}");
            std::process::exit(3)
        })
    };
    let opts = |seed: u64, thorough: bool| engine::Opts {
        seed, thorough, workers, root: root.clone(),
        runs: std::env::var("KSIM_RUNS").ok().and_then(|s| s.parse().ok()),
        profile: profile(),
    };
    match a(0) {
        "check" => engine::check(prop(a(1)), &opts(seed, thorough)),
        "worker" => {
            let p = prop(a(1));
            let known = engine::known_findings(&root, p.id);
            engine::worker(p, num(2), a(3) == "thorough", num(4), num(5), num(6), &known,
                           Duration::from_secs(num(7)));
            0
        }
        "one" => engine::one(prop(a(1)), Path::new(a(2))),
        "minimise" => engine::minimise(prop(a(1)), &opts(num(5), num(6) == 1), Path::new(a(2)),
                                       Path::new(a(3)), num(4), num(7) == 1),
        "replay" | "replay-quiet" => {
            let path = Path::new(a(1));
            let Some((id, _)) = engine::replay_head(path) else {
                eprintln!("harness error: not a replay file");
                return 3
            };
            let show = a(0) == "replay";
            match engine::replay_in(prop(&id), path, &root.join("target/scratch"), show) {
                Ok(true) => { if show { println!("reproduced") } 1 }
                Ok(false) => { if show { println!("not reproduced") } 0 }
                Err(e) => { eprintln!("harness error: {e}"); 3 }
            }
        }
        // Print the trace hash of runs; compared between processes and worker
        // counts to prove determinism.
        "hashes" => {
            let p = prop(a(1));
            for i in num(2)..num(3) {
                let c = engine::case_for(p, seed, i, thorough);
                let o = engine::execute(p, &c, false);
                println!("{i} {:x} {} {}", o.hash, o.steps, o.verdict.is_ok());
            }
            0
        }
        "show" => {
            let p = prop(a(1));
            let c = engine::case_for(p, seed, num(2), thorough);
            print!("{}", c.to_text());
            let o = engine::execute(p, &c, true);
            for l in &o.lines { println!("{l}"); }
            println!("{:?} nontrivial={} {:?}", o.verdict, o.cx.nontrivial, o.cx.counts);
            0
        }
        "list" => {
            for p in props::ALL { println!("{} {}", p.id, p.level); }
            0
        }
        _ => {
            eprintln!("usage: ksim check|replay|hashes|show|list ...");
            3
        }
    }
}
