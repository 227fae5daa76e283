//! Thread scheduler of the simulation: real threads, exactly one of which holds the baton. The baton can
//! change hands at every allocation, handler callback, reader/writer call and blocking wait; the choice
//! source decides when and to whom.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering};

use crate::ctx::{Ctx, Res};
use crate::shim;
use crate::src::{Fnv, Src};

pub const MAXT: usize = 8;
const NOBODY: usize = usize::MAX;

struct State {
    src: Option<Src>,
    alive: [bool; MAXT],
    n: usize,
    countdown: u64,
    grain: usize,
    /// Threads that wait and have not been passed by any progress since.
    stuck: [bool; MAXT],
    rounds: u64,
    yields: u64,
    switches: u64,
    waits: u64,
    deadlock: bool,
    hash: Fnv,
}
struct Global(UnsafeCell<State>);
unsafe impl Sync for Global {}
static G: Global = Global(UnsafeCell::new(State {
    src: None,
    alive: [false; MAXT],
    n: 0,
    countdown: 0,
    grain: 0,
    stuck: [false; MAXT],
    rounds: 0,
    yields: 0,
    switches: 0,
    waits: 0,
    deadlock: false,
    hash: Fnv(0xcbf29ce484222325),
}));
static TURN: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static DONE: AtomicU32 = AtomicU32::new(0);
thread_local! { static ME: Cell<usize> = const { Cell::new(NOBODY) }; }

fn st() -> &'static mut State {
    unsafe { &mut *G.0.get() }
}
fn wait(w: &AtomicU32) {
    while w.load(Ordering::SeqCst) == 0 {
        shim::raw(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAIT as i64, 0, 0);
    }
    w.store(0, Ordering::SeqCst);
}
fn wake(w: &AtomicU32) {
    w.store(1, Ordering::SeqCst);
    shim::raw(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAKE as i64, 1, 0);
}
/// Number of yield points until the next possible change of hands.
fn draw_countdown(s: &mut State) -> u64 {
    let grains: [&[u64]; 4] = [&[1000, 200, 50, 3000], &[1, 2, 5, 20], &[7, 40, 100, 400], &[1, 1, 2, 1000]];
    let g = grains[s.grain];
    let k = s.src.as_mut().unwrap().idx(g.len());
    g[k]
}
fn pick(s: &mut State, me: usize, other: bool) -> usize {
    let mut c = [0usize; MAXT];
    let mut n = 0;
    for i in 0..s.n {
        if s.alive[i] && !(other && (i == me || s.stuck[i])) {
            c[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        return NOBODY;
    }
    let k = s.src.as_mut().unwrap().idx(n);
    c[k]
}
fn hand(s: &mut State, me: usize, to: usize) {
    s.countdown = draw_countdown(s);
    if to == me {
        return;
    }
    s.switches += 1;
    s.hash.u64((me as u64) << 48 ^ (to as u64) << 40 ^ s.yields);
    wake(&TURN[to]);
    wait(&TURN[me]);
}

fn progress(s: &mut State) {
    s.stuck = [false; MAXT];
    s.rounds = 0;
}

/// A point at which another thread may be given the baton.
pub fn yield_point(_what: &'static str) {
    let me = ME.try_with(|m| m.get()).unwrap_or(NOBODY);
    if me == NOBODY {
        return;
    }
    let s = st();
    s.yields += 1;
    progress(s);
    if s.countdown > 0 {
        s.countdown -= 1;
        return;
    }
    let to = pick(s, me, false);
    hand(s, me, to);
}
/// Called by the shim instead of a blocking wait.
extern "C" fn on_futex_wait() -> i64 {
    let me = ME.try_with(|m| m.get()).unwrap_or(NOBODY);
    if me == NOBODY {
        return -1;
    }
    let s = st();
    s.waits += 1;
    s.yields += 1;
    s.stuck[me] = true;
    if (0..s.n).all(|i| !s.alive[i] || s.stuck[i]) {
        // everybody has waited since anybody last got on: let each try again, a few times over
        s.rounds += 1;
        if s.rounds > 16 {
            s.deadlock = true;
            wake(&DONE);
            wait(&TURN[me]); // never again
        }
        s.stuck = [false; MAXT];
        s.stuck[me] = true;
    }
    let to = pick(s, me, true);
    if to != NOBODY {
        hand(s, me, to);
    }
    1
}
/// Calls finished by each thread.
static FINISHED: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
pub fn call_finished() {
    let me = ME.try_with(|m| m.get()).unwrap_or(NOBODY);
    if me != NOBODY {
        FINISHED[me].fetch_add(1, Ordering::SeqCst);
    }
}
/// Wait, as a handler that depends on another caller's progress does, until thread `t` has finished `k` calls.
pub fn await_calls(t: usize, k: usize) {
    let me = ME.try_with(|m| m.get()).unwrap_or(NOBODY);
    if me == NOBODY || t >= MAXT || t == me {
        return;
    }
    while st().alive[t] && (FINISHED[t].load(Ordering::SeqCst) as usize) < k {
        on_futex_wait();
    }
}
fn finish(me: usize) {
    let s = st();
    s.alive[me] = false;
    progress(s);
    ME.with(|m| m.set(NOBODY));
    let to = pick(s, me, true);
    if to == NOBODY {
        wake(&DONE);
    } else {
        s.switches += 1;
        s.hash.u64((me as u64) << 48 ^ (to as u64) << 40 ^ 0xff);
        s.countdown = draw_countdown(s);
        wake(&TURN[to]);
    }
}

/// Run the jobs as concurrent threads under a schedule drawn from the run's choices.
pub fn run_threads(ctx: &mut Ctx, jobs: Vec<Box<dyn FnOnce() + Send + '_>>) -> Res {
    let n = jobs.len();
    assert!(n <= MAXT);
    let rec = std::mem::replace(&mut ctx.s, Src::empty());
    {
        let s = st();
        s.src = Some(rec);
        s.n = n;
        s.alive = [false; MAXT];
        s.grain = s.src.as_mut().unwrap().idx(4);
        s.countdown = 0;
        progress(s);
        s.deadlock = false;
    }
    let (y0, w0, sw0) = (st().yields, st().waits, st().switches);
    shim::hooks(Some(on_futex_wait));
    crate::ext::set_yield(yield_point);
    ctx.enter(true);
    let ctxp = ctx.flags_ptr();
    std::thread::scope(|sc| {
        for (i, job) in jobs.into_iter().enumerate() {
            st().alive[i] = true;
            TURN[i].store(0, Ordering::SeqCst);
            FINISHED[i].store(0, Ordering::SeqCst);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    ME.with(|m| m.set(i));
                    wait(&TURN[i]);
                    job();
                    finish(i);
                })
                .expect("thread");
        }
        let s = st();
        s.countdown = draw_countdown(s);
        let first = pick(s, NOBODY, false);
        wake(&TURN[first]);
        wait(&DONE);
        if st().deadlock {
            // The threads cannot be ended: report from here and leave the process.
            crate::runner::emergency(ctxp, "deadlock", "all threads wait for one another: no call can finish");
        }
    });
    ctx.enter(false);
    shim::hooks(None);
    let s = st();
    ctx.s = s.src.take().unwrap();
    let (y, w, sw) = (s.yields - y0, s.waits - w0, s.switches - sw0);
    ctx.r.steps += y;
    ctx.r.hash.u64(s.hash.0);
    ctx.fault("thread-switch", sw);
    ctx.fault("blocked-wait", w);
    ctx.log(format!("{n} threads: {y} scheduling points, {sw} switches, {w} blocking waits"));
    Ok(())
}

/// Allocator of the harness: every allocation is a scheduling point.
pub struct YieldAlloc;
unsafe impl GlobalAlloc for YieldAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        yield_point("alloc");
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        yield_point("free");
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        yield_point("realloc");
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        yield_point("alloc");
        unsafe { System.alloc_zeroed(l) }
    }
}
