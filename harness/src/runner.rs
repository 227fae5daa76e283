//! Supervisor: forks workers, each of which forks one pristine process per simulated run, watches it,
//! minimises failures and collects what was covered.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};

use serde_json::{Value, json};

use crate::ctx::{Ctx, Flags, Violation, install_panic_hook, take_panic};
use crate::scen::Scenario;
use crate::shim;
use crate::src::{MAX_CHOICES, Recorder, Src, mix};
use crate::world::World;

const RESULT_CAP: usize = 4 << 20;

#[derive(Clone)]
pub enum Input {
    Seed(u64),
    Choices(Vec<u64>),
}

pub struct Slot {
    flags: *mut Flags,
    choices: *mut u64,
    result: *mut u8,
    pub world: &'static World,
}

fn shared(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}
impl Slot {
    pub fn new() -> Self {
        Slot {
            flags: shared(4096) as *mut Flags,
            choices: shared((MAX_CHOICES + 1) * 8) as *mut u64,
            result: shared(RESULT_CAP),
            world: Box::leak(Box::new(World::new())),
        }
    }
}
impl Default for Slot {
    fn default() -> Self {
        Self::new()
    }
}

static RESULT_PTR: AtomicUsize = AtomicUsize::new(0);

fn store(flags: *mut Flags, v: &Value) {
    let b = serde_json::to_vec(v).unwrap();
    let b = if b.len() > RESULT_CAP { serde_json::to_vec(&json!({"harness": "result too large"})).unwrap() } else { b };
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), RESULT_PTR.load(Ordering::SeqCst) as *mut u8, b.len());
        (*flags).result_len = b.len() as u64;
        (*flags).done = 1;
    }
}
/// Report a violation from a run that cannot be unwound, and end its process.
pub fn emergency(flags: *mut Flags, class: &str, msg: &str) -> ! {
    store(flags, &json!({"class": class, "msg": msg, "hash": "0", "trace": [msg], "nontrivial": true}));
    unsafe { libc::_exit(0) }
}

pub struct RunOut {
    pub violation: Option<Violation>,
    pub harness: Option<String>,
    pub choices: Vec<u64>,
    pub v: Value,
    pub hash: u64,
}

pub fn run_once(slot: &Slot, sc: &Scenario, input: &Input, thorough: bool) -> RunOut {
    unsafe {
        *slot.choices = 0;
        (*slot.flags).in_call = 0;
        (*slot.flags).done = 0;
        (*slot.flags).result_len = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            child(slot, sc, input, thorough);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        let n = *slot.choices as usize;
        let choices = std::slice::from_raw_parts(slot.choices.add(1), n).to_vec();
        let mut out = RunOut { violation: None, harness: None, choices, v: Value::Null, hash: 0 };
        if (*slot.flags).done == 1 {
            let len = (*slot.flags).result_len as usize;
            out.v = serde_json::from_slice(std::slice::from_raw_parts(slot.result, len)).unwrap_or(Value::Null);
            out.hash = out.v["hash"].as_str().and_then(|s| u64::from_str_radix(s, 16).ok()).unwrap_or(0);
            if let Some(h) = out.v["harness"].as_str() {
                out.harness = Some(h.to_string());
            } else if let Some(c) = out.v["class"].as_str() {
                out.violation = Some(Violation { class: c.into(), msg: out.v["msg"].as_str().unwrap_or("").into() });
            }
            return out;
        }
        let sig = if libc::WIFSIGNALED(status) { libc::WTERMSIG(status) } else { 0 };
        if (*slot.flags).in_call != 0 {
            let (class, msg) = match sig {
                libc::SIGPROF | libc::SIGALRM => ("hang", "a library call did not finish within its time budget".to_string()),
                0 => ("crash", format!("a library call ended the process (wait status {status:#x})")),
                s => ("crash", format!("a library call crashed the process with signal {s}")),
            };
            out.violation = Some(Violation { class: class.into(), msg });
        } else {
            out.harness = Some(format!("run ended with wait status {status:#x} outside library code"));
        }
        out
    }
}

/// Bounds on processor and wall time of this process; it ends with the process that started it.
pub fn limits(cpu: i64, wall: u32) {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: cpu, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
        libc::alarm(wall);
        let rl = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &rl);
        let rc = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rc);
    }
}
static IDLE_FLAGS: AtomicUsize = AtomicUsize::new(0);
extern "C" fn idle() {
    emergency(IDLE_FLAGS.load(Ordering::SeqCst) as *mut Flags, "deadlock", "a call waits for something that can never happen")
}

fn child(slot: &Slot, sc: &Scenario, input: &Input, thorough: bool) -> ! {
    limits(20, 200);
    RESULT_PTR.store(slot.result as usize, Ordering::SeqCst);
    IDLE_FLAGS.store(slot.flags as usize, Ordering::SeqCst);
    shim::on_idle(idle);
    let rec = unsafe { Recorder::new(slot.choices, MAX_CHOICES) };
    let mut src = match input {
        Input::Seed(s) => Src::random(*s, rec),
        Input::Choices(c) => Src::replay(c.clone(), rec),
    };
    let hs = src.below(1 << 16);
    shim::config(mix(hs, 1), 1_700_000_000, 1_000_000);
    install_panic_hook();
    slot.world.reset();
    let ctx = Ctx::new(src, slot.world, slot.flags, thorough);
    let run = sc.run;
    let flags = slot.flags as usize;
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut ctx = ctx;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut ctx)));
            let mut v = json!({
                "trace": ctx.r.trace, "hash": format!("{:x}", ctx.r.hash.0), "faults": ctx.r.faults, "probes": ctx.r.probes,
                "steps": ctx.r.steps, "sim_ns": ctx.r.sim_ns, "procs": ctx.r.procs, "nontrivial": ctx.r.nontrivial,
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => {
                    v["class"] = json!(e.class);
                    v["msg"] = json!(e.msg);
                }
                Err(_) => v["harness"] = json!(format!("harness panic: {}", take_panic())),
            }
            store(flags as *mut Flags, &v);
        })
        .unwrap();
    let _ = h.join();
    unsafe { libc::_exit(0) }
}

// ---- minimisation --------------------------------------------------------------------------

fn trim(mut c: Vec<u64>) -> Vec<u64> {
    while c.last() == Some(&0) {
        c.pop();
    }
    c
}

pub fn minimise(slot: &Slot, sc: &Scenario, first: RunOut, thorough: bool, seconds: f64) -> RunOut {
    let class = first.violation.as_ref().unwrap().class.clone();
    let end = shim::real_ns() + (seconds * 1e9) as i64;
    let mut best = first;
    best.choices = trim(std::mem::take(&mut best.choices));
    let mut tries = 0u32;
    let attempt = |best: &mut RunOut, cand: Vec<u64>, tries: &mut u32| -> bool {
        *tries += 1;
        if cand == best.choices {
            return false;
        }
        let mut o = run_once(slot, sc, &Input::Choices(cand), thorough);
        if o.violation.as_ref().is_some_and(|v| v.class == class) {
            o.choices = trim(std::mem::take(&mut o.choices));
            if (o.choices.len(), o.choices.iter().map(|x| *x as u128).sum::<u128>())
                < (best.choices.len(), best.choices.iter().map(|x| *x as u128).sum::<u128>())
            {
                *best = o;
                return true;
            }
        }
        false
    };
    let out_of_time = || shim::real_ns() > end;
    loop {
        let before = best.choices.clone();
        // shorter prefix
        let mut cut = best.choices.len() / 2;
        while cut > 0 && !out_of_time() {
            let n = best.choices.len();
            if cut >= n {
                cut = n / 2;
                continue;
            }
            let cand = trim(best.choices[..n - cut].to_vec());
            if !attempt(&mut best, cand, &mut tries) {
                cut /= 2;
            }
        }
        // delete and zero blocks
        let mut size = 64.min(best.choices.len().max(1));
        while size >= 1 && !out_of_time() {
            let mut i = best.choices.len();
            while i > 0 && !out_of_time() {
                let lo = i.saturating_sub(size);
                let mut c = best.choices.clone();
                if lo < c.len() {
                    let hi = i.min(c.len());
                    c.drain(lo..hi);
                    if !attempt(&mut best, trim(c), &mut tries) {
                        let mut c = best.choices.clone();
                        let hi = i.min(c.len());
                        if c[lo..hi].iter().any(|x| *x != 0) {
                            c[lo..hi].fill(0);
                            attempt(&mut best, trim(c), &mut tries);
                        }
                    }
                }
                i = lo.min(best.choices.len());
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.choices.len() && !out_of_time() {
            let v = best.choices[i];
            if v > 0 {
                for w in [v / 2, v - 1] {
                    let mut c = best.choices.clone();
                    if i < c.len() && w < c[i] {
                        c[i] = w;
                        attempt(&mut best, trim(c), &mut tries);
                    }
                }
            }
            i += 1;
        }
        if best.choices == before || out_of_time() {
            break;
        }
    }
    best
}

// ---- known findings ------------------------------------------------------------------------

pub struct Known(Vec<(String, String, String)>);
impl Known {
    pub fn load(dir: &str) -> Self {
        let mut v = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/known_findings.json")) {
            let j: Value = serde_json::from_str(&t).expect("known_findings.json");
            for f in j["findings"].as_array().unwrap_or(&vec![]) {
                v.push((
                    f["property"].as_str().unwrap_or("").to_string(),
                    f["match"].as_str().unwrap_or("").to_string(),
                    f["what"].as_str().unwrap_or("").to_string(),
                ));
            }
        }
        Known(v)
    }
    pub fn find(&self, prop: &str, v: &Violation) -> Option<&str> {
        let text = format!("{}: {}", v.class, v.msg);
        self.0.iter().find(|k| k.0 == prop && !k.1.is_empty() && text.contains(&k.1)).map(|k| k.2.as_str())
    }
}

// ---- workers -------------------------------------------------------------------------------

#[repr(C)]
struct Stop {
    stop: AtomicUsize,
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    sim_ns: u64,
    procs: u64,
    rerun: u64,
    rerun_diff: u64,
    hashes: HashSet<u64>,
    nt_hashes: HashSet<u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    samples: Vec<Value>,
}
fn add(m: &mut BTreeMap<String, u64>, v: &Value) {
    if let Some(o) = v.as_object() {
        for (k, x) in o {
            *m.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
        }
    }
}

pub struct Job {
    pub dir: String,
    pub tier: String,
    pub seed: u64,
    pub seconds: f64,
    pub workers: usize,
    pub max_runs: u64,
}

pub fn replay_file(dir: &str, sc: &Scenario, o: &RunOut, job: &Job, run: u64) -> String {
    let v = o.violation.as_ref().unwrap();
    let d = format!("{dir}/replays");
    std::fs::create_dir_all(&d).expect("replays directory");
    let path = format!("{d}/{}-{}-{}-{}.json", sc.id, v.class.replace(|c: char| !c.is_alphanumeric(), "_"), job.seed, run);
    let j = json!({
        "property": sc.id, "class": v.class, "violation": v.msg, "seed": job.seed, "run": run, "tier": job.tier,
        "choices": o.choices, "hash": format!("{:x}", o.hash), "trace": o.v["trace"],
        "replay": format!("{dir}/check.sh replay {path}"),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
    path
}

fn worker(sc: &Scenario, job: &Job, k: usize, stop: &Stop, known: &Known, mut pipe: std::fs::File, deadline: i64) -> ! {
    let slot = Slot::new();
    let mut a = Agg::default();
    let thorough = job.tier == "thorough";
    let mut i = k as u64;
    let mut found = Value::Null;
    let mut harness = Value::Null;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let pseed = mix(job.seed, crate::src::hash(sc.id.as_bytes()));
    while shim::real_ns() < deadline && i < job.max_runs && stop.stop.load(Ordering::SeqCst) == 0 {
        let run = i;
        i += job.workers as u64;
        let o = run_once(&slot, sc, &Input::Seed(mix(pseed, run)), thorough);
        a.runs += 1;
        if let Some(h) = &o.harness {
            harness = json!({"run": run, "what": h, "choices": o.choices, "trace": o.v["trace"]});
            stop.stop.store(1, Ordering::SeqCst);
            break;
        }
        add(&mut a.faults, &o.v["faults"]);
        add(&mut a.probes, &o.v["probes"]);
        a.steps += o.v["steps"].as_u64().unwrap_or(0);
        a.sim_ns += o.v["sim_ns"].as_u64().unwrap_or(0);
        a.procs += o.v["procs"].as_u64().unwrap_or(0);
        if a.hashes.len() < 200_000 {
            a.hashes.insert(o.hash);
        }
        if o.v["nontrivial"].as_bool().unwrap_or(false) {
            a.nontrivial += 1;
            if a.nt_hashes.len() < 200_000 {
                a.nt_hashes.insert(o.hash);
            }
            if a.samples.len() < 2 && k < 3 {
                let t: Vec<Value> = o.v["trace"].as_array().map(|t| t.iter().take(12).cloned().collect()).unwrap_or_default();
                a.samples.push(json!({"run": run, "choices": o.choices.len(), "trace": t}));
            }
        }
        if let Some(v) = &o.violation {
            if let Some(w) = known.find(sc.id, v) {
                *known_hits.entry(w.to_string()).or_default() += 1;
                continue;
            }
            if stop.stop.swap(1, Ordering::SeqCst) == 0 || std::env::var("SIM_ALL").is_ok() {
                let first = (v.class.clone(), v.msg.clone());
                let secs = std::env::var("SIM_MIN_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(20.0);
                let m = minimise(&slot, sc, o, thorough, secs);
                // the minimised file must fail the same way in a fresh process
                let again = run_once(&slot, sc, &Input::Choices(m.choices.clone()), thorough);
                let same = again.hash == m.hash && again.violation.as_ref().map(|v| &v.class) == m.violation.as_ref().map(|v| &v.class);
                let path = replay_file(&job.dir, sc, &m, job, run);
                let v = m.violation.as_ref().unwrap();
                found = json!({"class": v.class, "msg": v.msg, "path": path, "run": run, "reproduced": same, "choices": m.choices.len(),
                    "first": first.1});
                if std::env::var("SIM_ALL").is_ok() {
                    println!("VIOLATION property={} replay={} class={} {}", sc.id, path, v.class, v.msg);
                    stop.stop.store(0, Ordering::SeqCst);
                    continue;
                }
                break;
            }
            break;
        }
        if run % 61 == 7 {
            a.rerun += 1;
            let r = run_once(&slot, sc, &Input::Choices(o.choices.clone()), thorough);
            if r.hash != o.hash {
                a.rerun_diff += 1;
                if sc.id == "C08" && stop.stop.swap(1, Ordering::SeqCst) == 0 {
                    let mut o = o;
                    o.violation = Some(Violation {
                        class: "nondeterminism".into(),
                        msg: "the same choices gave a different execution the second time".into(),
                    });
                    let path = replay_file(&job.dir, sc, &o, job, run);
                    found = json!({"class": "nondeterminism", "msg": "the same choices gave a different execution the second time", "path": path, "run": run});
                    break;
                }
            }
        }
    }
    let j = json!({
        "runs": a.runs, "nontrivial": a.nontrivial, "steps": a.steps, "sim_ns": a.sim_ns, "procs": a.procs, "rerun": a.rerun,
        "rerun_diff": a.rerun_diff, "hashes": a.hashes.iter().collect::<Vec<_>>(), "nt": a.nt_hashes.iter().collect::<Vec<_>>(),
        "faults": a.faults, "probes": a.probes, "samples": a.samples, "found": found, "harness": harness, "known": known_hits,
    });
    let _ = pipe.write_all(&serde_json::to_vec(&j).unwrap());
    drop(pipe);
    unsafe { libc::_exit(0) }
}

/// Search one property; returns the process exit code.
pub fn search(sc: &Scenario, job: &Job) -> i32 {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    let t0 = shim::real_ns();
    let deadline = t0 + (job.seconds * 1e9) as i64;
    let known = Known::load(&job.dir);
    let stop = shared(4096) as *mut Stop;
    let mut pipes = vec![];
    for k in 0..job.workers {
        unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(p[0]);
                worker(sc, job, k, &*stop, &known, std::fs::File::from_raw_fd(p[1]), deadline);
            }
            libc::close(p[1]);
            pipes.push((pid, std::fs::File::from_raw_fd(p[0])));
        }
    }
    let mut t = Agg::default();
    let mut found: Vec<Value> = vec![];
    let mut harness: Vec<Value> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for (pid, mut f) in pipes {
        let mut b = vec![];
        f.read_to_end(&mut b).unwrap();
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let j: Value = match serde_json::from_slice(&b) {
            Ok(j) => j,
            Err(e) => {
                eprintln!("harness error: worker gave no result ({e}, status {st:#x})");
                return 2;
            }
        };
        t.runs += j["runs"].as_u64().unwrap();
        t.nontrivial += j["nontrivial"].as_u64().unwrap();
        t.steps += j["steps"].as_u64().unwrap();
        t.sim_ns += j["sim_ns"].as_u64().unwrap();
        t.procs += j["procs"].as_u64().unwrap();
        t.rerun += j["rerun"].as_u64().unwrap();
        t.rerun_diff += j["rerun_diff"].as_u64().unwrap();
        t.hashes.extend(j["hashes"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
        t.nt_hashes.extend(j["nt"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
        add(&mut t.faults, &j["faults"]);
        add(&mut t.probes, &j["probes"]);
        add(&mut known_hits, &j["known"]);
        if t.samples.len() < 3 {
            t.samples.extend(j["samples"].as_array().unwrap().iter().cloned());
        }
        if !j["found"].is_null() {
            found.push(j["found"].clone());
        }
        if !j["harness"].is_null() {
            harness.push(j["harness"].clone());
        }
    }
    let wall = (shim::real_ns() - t0) as f64 / 1e9;
    let per_hour = |n: u64| (n as f64 / wall * 3600.0).round() as u64;
    let ev = json!({
        "property": sc.id, "tier": job.tier, "seed": job.seed, "level": "exploration", "wall_s": (wall * 10.0).round() / 10.0,
        "violations": found.len(),
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nt_hashes.len(),
            "rule": sc.rule,
            "samples": t.samples,
            "distinct_executions": t.hashes.len(),
            "distinct_measure": "64-bit hash over every scheduling decision, simulated system call with its result, injected fault, and observed output of the run",
            "runs_per_hour": per_hour(t.runs),
            "simulated_processes_and_fresh_baselines": t.procs,
            "simulated_steps": t.steps,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "faults_fired": t.faults,
            "probes": t.probes,
            "determinism_reruns": t.rerun,
            "determinism_mismatches": t.rerun_diff,
            "workers": job.workers,
            "real_components": sc.real,
            "stub_components": sc.stub,
            "known_findings_hit": known_hits,
        },
        "assumptions": sc.assumptions,
    });
    std::fs::create_dir_all(format!("{}/evidence", job.dir)).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", job.dir, sc.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{}: {} runs ({} non-trivial, {} distinct), {} simulated processes, {} steps, {:.1} s, seed {}",
        sc.id, t.runs, t.nontrivial, t.nt_hashes.len(), t.procs, t.steps, wall, job.seed
    );
    println!("faults fired: {}", serde_json::to_string(&t.faults).unwrap());
    println!("probes: {}", serde_json::to_string(&t.probes).unwrap());
    if t.rerun_diff > 0 {
        println!("note: {} of {} repeated runs differed", t.rerun_diff, t.rerun);
    }
    for k in known_hits.keys() {
        println!("KNOWN-FINDING: property={} {}", sc.id, k);
    }
    if let Some(f) = found.first() {
        println!("{}: {}", f["class"].as_str().unwrap_or(""), f["msg"].as_str().unwrap_or(""));
        println!("first seen as: {}", f["first"].as_str().unwrap_or(""));
        println!("minimised to {} choices, reproduced: {}", f["choices"], f["reproduced"]);
        println!("VIOLATION property={} replay={}", sc.id, f["path"].as_str().unwrap());
        return 1;
    }
    if let Some(h) = harness.first() {
        eprintln!("harness error: {}", h["what"]);
        for l in h["trace"].as_array().unwrap_or(&vec![]) {
            eprintln!("  {}", l.as_str().unwrap_or(""));
        }
        return 2;
    }
    0
}

pub fn replay(sc: &Scenario, path: &str) -> i32 {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let choices: Vec<u64> = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let slot = Slot::new();
    let o = run_once(&slot, sc, &Input::Choices(choices), j["tier"] == "thorough");
    for l in o.v["trace"].as_array().unwrap_or(&vec![]) {
        println!("  {}", l.as_str().unwrap_or(""));
    }
    if let Some(h) = o.harness {
        eprintln!("harness error: {h}");
        return 2;
    }
    match o.violation {
        Some(v) => {
            println!("{}: {}", v.class, v.msg);
            println!("same execution as recorded: {}", format!("{:x}", o.hash) == j["hash"].as_str().unwrap_or(""));
            println!("VIOLATION property={} replay={}", sc.id, path);
            1
        }
        None => {
            println!("no violation on this tree");
            0
        }
    }
}
