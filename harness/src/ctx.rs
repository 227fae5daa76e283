//! Context of one simulated run: the choice source, the simulated operating system, and the record of
//! what happened.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

use crate::shim;
use crate::src::{Fnv, Src};
use crate::world::World;

#[derive(Debug, Clone)]
pub struct Violation {
    /// Short stable class; minimisation keeps it.
    pub class: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Violation>;

pub fn violated<T>(class: &str, msg: impl Into<String>) -> Res<T> {
    Err(Violation { class: class.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::ctx::violated($class, format!($($arg)*)); }
    };
}

/// Flags shared with the supervising process.
#[repr(C)]
pub struct Flags {
    /// Nonzero while code of the repository is running in this process.
    pub in_call: u32,
    pub done: u32,
    pub result_len: u64,
}

#[derive(Default)]
pub struct Report {
    pub trace: Vec<String>,
    pub hash: Fnv,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub sim_ns: u64,
    pub procs: u64,
    pub nontrivial: bool,
}

pub struct Ctx {
    pub s: Src,
    pub world: &'static World,
    pub r: Report,
    pub thorough: bool,
    flags: *mut Flags,
}
unsafe impl Send for Ctx {}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("{m} (at {l})"))
            }
        });
    }));
}
pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}
/// Run code of the repository; a panic becomes an error value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

impl Ctx {
    pub fn new(s: Src, world: &'static World, flags: *mut Flags, thorough: bool) -> Self {
        Ctx { s, world, r: Report::default(), thorough, flags }
    }
    /// Record an event of the run: part of the trace and of its hash.
    pub fn log(&mut self, m: impl Into<String>) {
        let m = m.into();
        self.r.hash.bytes(m.as_bytes());
        if self.r.trace.len() < 400 {
            self.r.trace.push(clip(&m, 3000));
        }
        self.r.steps += 1;
    }
    /// Shown in the trace only.
    pub fn note(&mut self, m: impl Into<String>) {
        if self.r.trace.len() < 400 {
            self.r.trace.push(clip(&m.into(), 3000));
        }
    }
    pub fn mark(&mut self, b: &[u8]) {
        self.r.hash.u64(crate::src::hash(b));
    }
    pub fn fault(&mut self, k: impl Into<String>, n: u64) {
        if n > 0 {
            *self.r.faults.entry(k.into()).or_default() += n;
        }
    }
    pub fn probe(&mut self, k: impl Into<String>) {
        *self.r.probes.entry(k.into()).or_default() += 1;
    }
    pub fn nontrivial(&mut self) {
        self.r.nontrivial = true;
    }
    pub fn flags_ptr(&self) -> *mut Flags {
        self.flags
    }
    pub fn enter(&self, on: bool) {
        unsafe { (*self.flags).in_call = on as u32 }
    }
    /// Call into the repository. Panics are returned as errors; aborts and hangs are seen by the
    /// supervising process.
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.enter(true);
        let r = guard(f);
        self.enter(false);
        self.r.steps += 1;
        r
    }
    /// As `call`, where a panic is a violation.
    pub fn must<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Res<T> {
        match self.call(f) {
            Ok(v) => Ok(v),
            Err(p) => violated("panic", format!("{what} panicked: {p}")),
        }
    }
    /// Run `f` in a pristine copy of this process and fresh thread (own hash keys), return its bytes.
    pub fn fresh(&mut self, seed: u64, f: impl FnOnce() -> Vec<u8> + Send) -> Res<Vec<u8>> {
        unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            self.enter(true);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(p[0]);
                crate::runner::limits(20, 200);
                shim::on_idle(idle);
                shim::config(seed, 1_600_000_000, 1000);
                let out = std::thread::scope(|sc| {
                    std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, || guard(f)).unwrap().join().unwrap()
                });
                let mut buf = vec![out.is_ok() as u8];
                match out {
                    Ok(v) => buf.extend(v),
                    Err(e) => buf.extend(e.into_bytes()),
                }
                let mut o = 0;
                while o < buf.len() {
                    let n = libc::write(p[1], buf[o..].as_ptr() as *const _, buf.len() - o);
                    if n <= 0 {
                        break;
                    }
                    o += n as usize;
                }
                libc::_exit(0);
            }
            libc::close(p[1]);
            let mut buf = vec![];
            let mut tmp = [0u8; 65536];
            loop {
                let n = libc::read(p[0], tmp.as_mut_ptr() as *mut _, tmp.len());
                if n <= 0 {
                    break;
                }
                buf.extend_from_slice(&tmp[..n as usize]);
            }
            libc::close(p[0]);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            self.enter(false);
            self.r.procs += 1;
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == IDLE {
                return violated("deadlock", "a call run alone in a fresh process waits for something that can never happen");
            }
            if buf.is_empty() {
                if libc::WIFSIGNALED(st) && matches!(libc::WTERMSIG(st), libc::SIGPROF | libc::SIGALRM) {
                    return violated("hang", "a call run alone in a fresh process did not finish within its time budget");
                }
                return violated("crash", format!("a call run alone in a fresh process died (wait status {st:#x})"));
            }
            if buf[0] == 0 {
                return violated("panic", format!("a call run alone in a fresh process panicked: {}", String::from_utf8_lossy(&buf[1..])));
            }
            buf.remove(0);
            Ok(buf)
        }
    }
}

const IDLE: i32 = 77;
extern "C" fn idle() {
    unsafe { libc::_exit(IDLE) }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} bytes)", &s[..k], s.len())
}
/// Readable form of bytes in messages.
pub fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => clip(&format!("{s:?}"), 1200),
        Err(_) => {
            let h: String = b.iter().take(80).map(|x| format!("{x:02x}")).collect();
            format!("<{} bytes {h}>", b.len())
        }
    }
}
/// First difference between two byte strings, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    if a == b {
        return "equal".into();
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let win = |v: &[u8]| {
        let lo = i.saturating_sub(40);
        let hi = (i + 60).min(v.len());
        String::from_utf8_lossy(&v[lo.min(v.len())..hi]).to_string()
    };
    format!("differ at byte {i} (lengths {} and {}): …{:?}… against …{:?}…", a.len(), b.len(), win(a), win(b))
}
