use simlib::runner::{Job, replay, search};
use simlib::scen;

#[global_allocator]
static A: simlib::sched::YieldAlloc = simlib::sched::YieldAlloc;

fn env<T: std::str::FromStr>(k: &str, d: T) -> T {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn main() {
    simlib::shim::get();
    let a: Vec<String> = std::env::args().collect();
    let dir = env("SIM_DIR", "/verif".to_string());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let sc = scen::find(&a[2]);
            let tier = env("VERIF_TIER", "quick".to_string());
            let tier = if tier == "thorough" { tier } else { "quick".to_string() };
            let secs = if tier == "thorough" { 600.0 } else { sc.quick_seconds };
            let job = Job {
                dir,
                seed: env("VERIF_SEED", 1),
                seconds: env("SIM_SECONDS", secs),
                workers: env("SIM_WORKERS", std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16)),
                max_runs: env("SIM_RUNS", u64::MAX),
                tier,
            };
            search(sc, &job)
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
            replay(scen::find(j["property"].as_str().unwrap()), &a[2])
        }
        _ => {
            eprintln!("usage: sim run <property> | sim replay <file>");
            2
        }
    };
    std::process::exit(code);
}
