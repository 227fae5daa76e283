//! Simulated processes: the real command-line program under the shim, on the simulated operating system.

use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

use crate::ctx::{Ctx, Res, violated};
use crate::src::{hash, mix};
use crate::world::{Delivery, Fault};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum Bin {
    /// The repository's own main().
    #[default]
    Cli,
    /// Cli::run_with_extensions with the simulated handlers.
    Ext,
}

#[derive(Clone, Default)]
pub struct Launch {
    pub bin: Bin,
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    /// Standard input is a regular file rather than a pipe.
    pub stdin_file: bool,
    pub faults: Vec<Fault>,
    pub delivery: Delivery,
    pub env: Vec<(String, String)>,
    /// Name the program is called by, if another one.
    pub arg0: String,
    pub rand_seed: u64,
    pub clock_sec: i64,
    pub clock_step_ns: i64,
}

#[derive(Clone, Debug)]
pub struct Exit {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    /// Killed by the simulator.
    pub killed: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub faults: Vec<Fault>,
    pub calls: u32,
    pub outside: Option<String>,
    pub reads: u32,
}
impl Exit {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).to_string()
    }
    pub fn fired(&self, f: impl Fn(&Fault) -> bool) -> bool {
        self.faults.iter().any(|x| x.fired > 0 && f(x))
    }
    pub fn status(&self) -> String {
        match (self.killed, self.code, self.signal) {
            (true, _, _) => "killed by the simulator".into(),
            (_, Some(c), _) => format!("exit {c}"),
            (_, _, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
}

static DIR: OnceLock<PathBuf> = OnceLock::new();
fn bin_path(b: Bin) -> PathBuf {
    let d = DIR.get_or_init(|| std::env::current_exe().unwrap().parent().unwrap().to_path_buf());
    d.join(match b {
        Bin::Cli => "simcli",
        Bin::Ext => "simext",
    })
}

impl Ctx {
    /// Run one simulated process to its end. A process that hangs, or dies other than by the simulator's
    /// hand, is a violation, whatever property is being checked.
    pub fn launch(&mut self, l: &Launch) -> Res<Exit> {
        let w = self.world;
        let mut delivery = l.delivery.clone();
        if l.stdin.len() > 50_000 || w.largest() > 50_000 {
            // keep the number of calls on large files reasonable
            for x in delivery.read.iter_mut().chain(&mut delivery.write) {
                *x *= 61;
            }
        }
        w.prepare(&l.faults, &delivery);
        w.set_stdin(&l.stdin, !l.stdin_file);
        let raw = w.raw();
        raw.rand_seed = l.rand_seed;
        if l.clock_sec != 0 {
            raw.clock_sec = l.clock_sec;
        }
        if l.clock_step_ns != 0 {
            raw.clock_step_ns = l.clock_step_ns;
        }
        let t0 = raw.clock_sec;
        let mut c = Command::new(bin_path(l.bin));
        c.args(&l.args).env_clear().arg0(if l.arg0.is_empty() { "substrait-explain" } else { &l.arg0 });
        c.env("LD_PRELOAD", std::env::var("SIM_SHIM").expect("SIM_SHIM"));
        c.env("SIM_WORLD_FD", w.fd.to_string());
        for (k, v) in &l.env {
            c.env(k, v);
        }
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).current_dir("/");
        self.enter(false);
        let st = c.status().expect("cannot run simulated process");
        let raw = w.raw();
        let e = Exit {
            code: st.code(),
            signal: st.signal(),
            killed: raw.crashed != 0,
            stdout: w.stream(1),
            stderr: w.stream(2),
            faults: raw.fault[..raw.nfaults as usize].to_vec(),
            calls: raw.calls,
            outside: if raw.outside > 0 { Some(w.outside_path()) } else { None },
            reads: raw.op_count[1],
        };
        if e.code == Some(98) {
            eprintln!("harness error: the shim could not attach");
            std::process::exit(2);
        }
        self.r.procs += 1;
        self.r.steps += raw.nevents as u64;
        self.r.sim_ns += ((raw.clock_sec - t0).unsigned_abs()) * 1_000_000_000 + raw.clock_nsec as u64;
        w.trace_hash(&mut self.r.hash);
        self.r.hash.u64(hash(&e.stdout));
        self.r.hash.u64(hash(&e.stderr));
        let (sr, sw, ei) = (raw.short_reads, raw.short_writes, raw.intr_fired);
        self.fault("short-read", sr as u64);
        self.fault("short-write", sw as u64);
        self.fault("EINTR", ei as u64);
        for f in &e.faults {
            self.fault(f.kind(), f.fired as u64);
        }
        let mut m = format!("run {:?} {:?}", l.bin, l.args.join(" "));
        for f in &l.faults {
            m += &format!("; fault: {}", f.describe());
        }
        if !l.delivery.read.is_empty() || !l.delivery.write.is_empty() || !l.delivery.intr.is_empty() {
            m += &format!("; delivery: {}", l.delivery.describe());
        }
        m += &format!(" => {}, {} bytes out, stderr {:?}", e.status(), e.stdout.len(), crate::ctx::clip(&e.err(), 300));
        self.log(m);
        for line in w.event_lines(40) {
            self.note(format!("    {line}"));
        }
        if raw.hang != 0 || matches!(e.signal, Some(libc::SIGPROF | libc::SIGALRM)) {
            return violated("hang", format!("process did not finish within its budget ({} calls): {}", e.calls, l.args.join(" ")));
        }
        if let (Some(s), false) = (e.signal, e.killed) {
            return violated("crash", format!("process died of signal {s}: {} (stderr {:?})", l.args.join(" "), e.err()));
        }
        Ok(e)
    }
    pub fn rand_seed(&mut self) -> u64 {
        let v = self.s.below(1 << 20);
        mix(v, 77)
    }
}
