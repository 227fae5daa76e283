//! C08: results depend on the inputs only.
use substrait_explain::extensions::ExtensionRegistry;

use super::Scenario;
use super::ops::{Op, Pool};
use crate::ctx::{Ctx, Res, diff, show};
use crate::ensure;
use crate::ext::{self, KINDS};
use crate::proc::{Bin, Launch};
use crate::shim;
use crate::src::Src;
use crate::stored::{Fmt, convert_args};

pub static S: Scenario = Scenario {
    id: "C08",
    rule: "one evaluation = one call (or process) made in several drawn surroundings - hash seed, clock, environment, registration order, earlier calls, thread - and all outcomes compared; non-trivial = at least two surroundings differed",
    real: &["the whole library", "std's hash maps with the seeds the simulated getrandom gives them", "the command-line process"],
    stub: &["randomness, clock, environment, process and thread identity", "files and streams", "extension handlers"],
    assumptions: &["RUST_BACKTRACE and RUST_LIB_BACKTRACE are left out: they are Rust's own switch for adding backtraces to errors"],
    quick_seconds: 40.0,
    run,
};

const VARS: [(&str, &[&str]); 22] = [
    ("TZ", &["UTC", "Asia/Kolkata", "America/St_Johns", ":/nonexistent", "XYZ-14"]),
    ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8", "C.UTF-8"]),
    ("LC_ALL", &["C", "fr_FR.UTF-8", "tr_TR"]),
    ("LC_NUMERIC", &["de_DE"]),
    ("LANGUAGE", &["ja"]),
    ("HOME", &["/", "/nonexistent"]),
    ("COLUMNS", &["1", "20", "400"]),
    ("LINES", &["1"]),
    ("TERM", &["dumb", "xterm-256color"]),
    ("NO_COLOR", &["1"]),
    ("CLICOLOR_FORCE", &["1"]),
    ("RUST_LOG", &["trace"]),
    ("RUST_MIN_STACK", &["4000000"]),
    ("USER", &["root", "nobody"]),
    ("PWD", &["/x"]),
    ("TMPDIR", &["/nonexistent"]),
    ("PATH", &["", "/bin"]),
    ("DEBUG", &["1"]),
    ("VERBOSE", &["1"]),
    ("CI", &["true"]),
    ("SUBSTRAIT_EXPLAIN_DEBUG", &["1"]),
    ("SOURCE_DATE_EPOCH", &["0"]),
];

#[derive(Clone, Debug)]
struct Around {
    seed: u64,
    clock: i64,
    step: i64,
    env: Vec<(String, String)>,
    /// Decides about every other variable.
    env_seed: u64,
    /// Decides about terminals, processors, working directory, host, user and program name.
    host: u64,
    /// Order in which extensions are registered.
    order: u64,
    thread: bool,
    history: usize,
    /// Times the earlier calls are made, and the registries they use.
    repeat: usize,
    other: Option<u64>,
}
impl Around {
    fn draw(s: &mut Src, plain: bool) -> Around {
        let seed = s.below(1 << 20);
        if plain {
            return Around { seed, clock: 1_600_000_000, step: 1000, env: vec![], env_seed: 0, host: 0, order: 0, thread: false, history: 0, repeat: 0, other: None };
        }
        let clock = *s.pick(&[1_600_000_000, 1, -1_000_000, 4_102_444_800, 951_782_399, 1_709_164_800, 253_402_300_799]);
        let step = *s.pick(&[1000, 1_000_000_000, 60_000_000_000, -5_000_000_000, 1]);
        let mut env = vec![];
        for (k, v) in VARS {
            if s.chance(1, 4) {
                env.push((k.to_string(), s.pick(v).to_string()));
            }
        }
        Around { seed, clock, step, env, env_seed: if s.chance(1, 2) { 1 + s.below(1 << 16) } else { 0 }, host: if s.chance(1, 2) { 1 + s.below(1 << 16) } else { 0 }, order: s.below(1 << 16), thread: s.chance(1, 4), history: s.small(3), repeat: [1, 1, 1, 2, 40, 300][s.idx(6)], other: if s.chance(1, 3) { Some(s.below(1 << 10)) } else { None } }
    }
}

/// The registry of `ext::registry`, put together in another order.
fn shuffled(order: u64) -> ExtensionRegistry {
    if order == 0 {
        return ext::registry();
    }
    let mut r = ExtensionRegistry::default();
    let mut todo: Vec<(usize, usize)> = vec![];
    for k in 0..4 {
        for t in 0..ext::PLAN_NAMES {
            todo.push((t, k));
        }
    }
    let mut x = crate::src::Rng::new(order);
    let split = (x.next() % 28) as usize;
    for i in (1..todo.len()).rev() {
        todo.swap(i, (x.next() % (i as u64 + 1)) as usize);
    }
    for (i, (t, k)) in todo.iter().enumerate() {
        if i == split {
            ext::register_examples(&mut r);
        }
        (ext::TYPES[*t].2)(&mut r, KINDS[*k]).expect("registration");
    }
    r
}

fn run(c: &mut Ctx) -> Res {
    let reg = ext::registry();
    let tell = c.s.chance(3, 4);
    ext::tell_inputs(tell);
    let pool = Pool::draw(c, &reg)?;
    if !tell || c.s.chance(1, 5) {
        ext::tell_inputs(false);
        return processes(c, &pool);
    }
    let faults = c.s.chance(1, 2);
    let op = pool.op(c, "@".into(), faults, 1);
    let history: Vec<Op> = (0..3).map(|i| pool.op(c, format!("@h{i}"), true, 1)).collect();
    c.log(op.describe());
    let mut first: Option<(Around, Vec<u8>)> = None;
    for i in 0..2 + c.s.idx(3) {
        let a = Around::draw(&mut c.s, i == 0);
        let out = c.fresh(a.seed, || {
            shim::config(a.seed, a.clock, a.step);
            shim::env_seed(a.env_seed);
            shim::host_seed(a.host);
            for (k, v) in &a.env {
                unsafe { std::env::set_var(k, v) };
            }
            let reg = shuffled(a.order);
            let other = a.other.map(ext::other_registry);
            let size = history.iter().take(a.history).map(|h| h.size()).sum::<usize>();
            for k in 0..a.repeat.min(if size < 1000 { 300 } else if size < 12000 { 40 } else { 2 }) {
                for h in history.iter().take(a.history) {
                    h.exec(if k % 2 == 0 { other.as_ref().unwrap_or(&reg) } else { &reg });
                }
            }
            if a.thread {
                // earlier calls in this thread, the call itself in another
                std::thread::scope(|s| {
                    let b = std::thread::Builder::new();
                    let b = if a.host % 2 == 1 { b.name("worker".into()) } else { b };
                    b.spawn_scoped(s, || op.exec(&reg)).unwrap().join().unwrap()
                })
            } else {
                op.exec(&reg)
            }
        })?;
        if let Some(p) = Op::stray_panic(&out) {
            return crate::ctx::violated("panic", format!("{} panicked: {p}", op.describe()));
        }
        c.mark(&out);
        if i > 0 {
            c.nontrivial();
        }
        c.fault("hash-seed", 1);
        c.fault("clock", (a.clock != 1_600_000_000) as u64);
        c.fault("environment", a.env.len() as u64);
        c.fault("host", (a.host != 0) as u64);
        c.fault("registration-order", (a.order != 0) as u64);
        c.fault("earlier-call", a.history as u64);
        c.fault("earlier-call-with-another-registry", (a.history > 0 && a.other.is_some()) as u64);
        c.fault("other-thread", a.thread as u64);
        match &first {
            None => first = Some((a, out)),
            Some((_, want)) => ensure!(
                *want == out,
                "outcome-differs",
                "{} gives {} in a plain process, and something else with {a:?} ({}): {}",
                op.describe(),
                show(want),
                history.iter().take(a.history).map(|h| h.describe()).collect::<Vec<_>>().join("; "),
                diff(&out, want)
            ),
        }
    }
    Ok(())
}

fn processes(c: &mut Ctx, pool: &Pool) -> Res {
    let (args, input) = if c.s.chance(1, 5) {
        (vec!["validate".to_string()], c.s.pick(&pool.texts).as_bytes().to_vec())
    } else {
        let (f, b) = c.s.pick(&pool.files).clone();
        let to = *c.s.pick(&[Fmt::Text, Fmt::Json, Fmt::Yaml, Fmt::Proto]);
        (convert_args(f, to, c.s.chance(1, 3)), b.to_vec())
    };
    let hplan = if c.s.chance(1, 2) {
        match pool.op(c, String::new(), true, 0).faults {
            f if f.iter().any(|f| matches!(f.act, ext::HAct::Panic)) => String::new(),
            f => ext::encode_plan(&f),
        }
    } else {
        String::new()
    };
    let mut first: Option<crate::proc::Exit> = None;
    for i in 0..2 + c.s.idx(3) {
        let a = Around::draw(&mut c.s, i == 0);
        let mut l = Launch {
            bin: Bin::Ext,
            args: args.clone(),
            stdin: input.clone(),
            rand_seed: crate::src::mix(a.seed, 77),
            clock_sec: a.clock,
            clock_step_ns: a.step,
            env: a.env.clone(),
            ..Default::default()
        };
        if a.env_seed != 0 {
            l.env.push(("SIM_ENV_SEED".into(), a.env_seed.to_string()));
        }
        if a.host != 0 {
            l.env.push(("SIM_HOST_SEED".into(), a.host.to_string()));
            l.arg0 = ["substrait-explain", "./explain", "/usr/local/bin/sx", ""][a.host as usize % 4].into();
        }
        l.env.push(("SIM_HPLAN".into(), hplan.clone()));
        if a.order != 0 {
            l.env.push(("SIM_ORDER".into(), a.order.to_string()));
        }
        let to_file = i > 0 && c.s.chance(1, 3);
        c.world.remove("/sim/out");
        if to_file {
            l.args.extend(["-o", "/sim/out"].map(String::from));
        }
        let mut e = c.launch(&l)?;
        if to_file {
            e.stdout = c.world.read_file("/sim/out").unwrap_or_default();
        }
        c.fault("hash-seed", 1);
        c.fault("clock", (a.clock != 1_600_000_000) as u64);
        c.fault("environment", a.env.len() as u64);
        c.fault("host", (a.host != 0) as u64);
        if i > 0 {
            c.nontrivial();
        }
        match &first {
            None => first = Some(e),
            Some(f) => {
                ensure!(f.code == e.code, "outcome-differs", "{} ends with {} in a plain process and with {} in {a:?}", args.join(" "), f.status(), e.status());
                ensure!(f.stdout == e.stdout, "outcome-differs", "{} gives another output in {a:?}: {}", args.join(" "), diff(&e.stdout, &f.stdout));
                ensure!(f.stderr == e.stderr, "outcome-differs", "{} gives other diagnostics in {a:?}: {}", args.join(" "), diff(&e.stderr, &f.stderr));
            }
        }
    }
    Ok(())
}
pub fn registry_from_env() -> ExtensionRegistry {
    shuffled(std::env::var("SIM_ORDER").ok().and_then(|s| s.parse().ok()).unwrap_or(0))
}
