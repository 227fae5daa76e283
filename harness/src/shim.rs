//! Library-mode entry points of the shim, found at run time (the harness itself runs under the shim).
use std::ffi::CStr;
use std::sync::OnceLock;

pub struct Shim {
    config: extern "C" fn(i32, u64, i64, i64),
    hooks: extern "C" fn(Option<extern "C" fn() -> i64>, Option<extern "C" fn()>),
    real_ns: extern "C" fn() -> i64,
    raw: extern "C" fn(i64, i64, i64, i64, i64, i64, i64) -> i64,
    rand_calls: extern "C" fn() -> u64,
    env_seed: extern "C" fn(u64),
    host_seed: extern "C" fn(u64),
}
static SHIM: OnceLock<Shim> = OnceLock::new();

fn sym(n: &CStr) -> *mut libc::c_void {
    let p = unsafe { libc::dlsym(libc::RTLD_DEFAULT, n.as_ptr()) };
    if p.is_null() {
        eprintln!("harness error: not running under the shim ({n:?} missing)");
        unsafe { libc::_exit(2) }
    }
    p
}
pub fn get() -> &'static Shim {
    SHIM.get_or_init(|| unsafe {
        Shim {
            config: std::mem::transmute(sym(c"sim_lib_config")),
            hooks: std::mem::transmute(sym(c"sim_lib_hooks")),
            real_ns: std::mem::transmute(sym(c"sim_real_ns")),
            raw: std::mem::transmute(sym(c"sim_raw_syscall")),
            env_seed: std::mem::transmute(sym(c"sim_env_seed")),
            host_seed: std::mem::transmute(sym(c"sim_host_seed")),
            rand_calls: std::mem::transmute(sym(c"sim_lib_rand_calls")),
        }
    })
}
/// Take over randomness and clocks of this process.
pub fn config(seed: u64, sec: i64, step: i64) {
    (get().config)(1, seed, sec, step)
}
pub fn hooks(f: Option<extern "C" fn() -> i64>) {
    (get().hooks)(f, None)
}
/// Called when a wait of this process can never end.
pub fn on_idle(f: extern "C" fn()) {
    (get().hooks)(None, Some(f))
}
pub fn real_ns() -> i64 {
    (get().real_ns)()
}
pub fn rand_calls() -> u64 {
    (get().rand_calls)()
}
pub fn raw(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    (get().raw)(n, a, b, c, d, 0, 0)
}
/// Nonzero: variables that are not set may seem to be.
pub fn env_seed(n: u64) {
    (get().env_seed)(n)
}
/// Nonzero: other terminals, processors, working directory, host and user than the real ones.
pub fn host_seed(n: u64) {
    (get().host_seed)(n)
}
