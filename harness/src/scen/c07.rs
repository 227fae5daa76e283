//! C07: concurrent callers do not affect one another.
use substrait_explain::extensions::ExtensionRegistry;

use super::Scenario;
use super::ops::{Op, Pool};
use crate::ctx::{Ctx, Res, diff, show};
use crate::ensure;
use crate::ext::{self, HAct, HFault, KINDS, Site};
use crate::sched;

pub static S: Scenario = Scenario {
    id: "C07",
    rule: "one evaluation = two to five threads with one to four calls each under one drawn schedule, every outcome compared with that of the same call alone in a fresh process; non-trivial = the baton changed hands at least twice while calls were in progress",
    real: &["the whole library and its dependencies, on real threads", "ExtensionRegistry shared or copied"],
    stub: &["the operating system's thread scheduler (seeded baton, changes at every allocation, handler call, reader and writer call and blocking wait)", "readers and writers", "extension handlers"],
    assumptions: &["threads interleave at allocations, frees, I/O and handler calls and blocking waits; reorderings weaker than sequential consistency are not explored"],
    quick_seconds: 40.0,
    run,
};

/// How a thread comes by its registry.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Reg {
    Shared,
    Copy,
    /// A copy that gets one more extension, or loses the race for a name it already has.
    Extended(usize, usize),
    /// Nothing in common with the others but names and payload types.
    Other(u64),
}
fn own(base: &ExtensionRegistry, r: Reg) -> ExtensionRegistry {
    if let Reg::Other(n) = r {
        return ext::other_registry(n);
    }
    let mut g = base.clone();
    if let Reg::Extended(t, k) = r {
        let _ = (ext::TYPES[t].2)(&mut g, KINDS[k]);
    }
    g
}
fn exec(base: &ExtensionRegistry, r: Reg, op: &Op) -> Vec<u8> {
    match r {
        Reg::Shared => op.exec(base),
        r => op.exec(&own(base, r)),
    }
}

fn run(c: &mut Ctx) -> Res {
    let reg = ext::registry();
    ext::tell_inputs(true);
    let pool = Pool::draw(c, &reg)?;
    let n = 2 + c.s.weighted(&[5, 3, 1, 1]);
    let mut threads: Vec<(Reg, Vec<Op>)> = vec![];
    for t in 0..n {
        let r = match c.s.weighted(&[6, 2, 2, 1]) {
            0 => Reg::Shared,
            1 => Reg::Copy,
            3 => Reg::Other(c.s.below(1 << 10)),
            _ => Reg::Extended(c.s.idx(ext::TYPES.len()), c.s.idx(4)),
        };
        let k = 1 + c.s.small(3);
        let faults = c.s.chance(1, 2);
        let ops: Vec<Op> = (0..k).map(|i| pool.op(c, format!("@{t}.{i}"), faults, 1)).collect();
        threads.push((r, ops));
    }
    // a handler that waits for another caller to get on; only for callers with a higher number, so that the
    // waits themselves cannot form a circle
    if c.s.chance(1, 3) {
        let t = c.s.idx(n - 1);
        let other = t + 1 + c.s.idx(n - 1 - t);
        let k = 1 + c.s.idx(threads[other].1.len());
        let site = *c.s.pick(&[Site::FromArgs, Site::FromAny, Site::ToArgs, Site::ToAny]);
        let i = c.s.idx(threads[t].1.len());
        threads[t].1[i].faults.push(HFault::new(site, None, 1, HAct::Await(other as u8, k as u8)));
    }
    // outcomes alone
    let mut alone: Vec<Vec<Vec<u8>>> = vec![];
    for (t, (r, ops)) in threads.iter().enumerate() {
        let mut v = vec![];
        for (i, op) in ops.iter().enumerate() {
            let b = c.fresh(1 + (t * 31 + i) as u64, || exec(&reg, *r, op))?;
            c.log(format!("thread {t} call {i} ({r:?}): {} => {} bytes", op.describe(), b.len()));
            c.mark(&b);
            if let Some(p) = Op::stray_panic(&b) {
                return crate::ctx::violated("panic", format!("a call alone ({}) panicked: {p}", op.describe()));
            }
            v.push(b);
        }
        alone.push(v);
    }
    let mut got: Vec<Vec<Vec<u8>>> = vec![vec![]; n];
    let before = c.r.faults.get("thread-switch").copied().unwrap_or(0);
    {
        let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for ((r, ops), out) in threads.iter().zip(got.iter_mut()) {
            let reg = &reg;
            jobs.push(Box::new(move || {
                if *r == Reg::Shared {
                    for op in ops {
                        out.push(op.exec(reg));
                    }
                } else {
                    let g = own(reg, *r);
                    for op in ops {
                        out.push(op.exec(&g));
                    }
                }
            }));
        }
        sched::run_threads(c, jobs)?;
    }
    let switches = c.r.faults.get("thread-switch").copied().unwrap_or(0) - before;
    if switches >= 2 {
        c.nontrivial();
    }
    for t in 0..n {
        for i in 0..alone[t].len() {
            c.mark(&got[t][i]);
            ensure!(
                got[t][i] == alone[t][i],
                "outcome-differs",
                "thread {t} call {i} ({}) alone gives {}, among {n} threads it gives something else: {}",
                threads[t].1[i].describe(),
                show(&alone[t][i]),
                diff(&got[t][i], &alone[t][i])
            );
        }
    }
    // afterwards the shared registry still is what it was
    for k in KINDS {
        let a: Vec<String> = reg.extension_names(k).iter().map(|s| s.to_string()).collect();
        let fresh = ext::registry();
        let b: Vec<String> = fresh.extension_names(k).iter().map(|s| s.to_string()).collect();
        ensure!(a == b, "registry-changed", "the shared registry lists {a:?} instead of {b:?} for {k:?}");
    }
    Ok(())
}
