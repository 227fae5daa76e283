//! C04: success means the whole output was delivered.
use super::Scenario;
use super::util::{Case, Mix, Refr, case, flat, reference};
use crate::ctx::{Ctx, Res, diff};
use crate::ensure;
use crate::proc::Launch;
use crate::simio::{ERR_KINDS, SimWriter, WritePlan};
use crate::stored::cli;
use crate::world::*;

pub static S: Scenario = Scenario {
    id: "C04",
    rule: "one evaluation = one conversion or validation written to destinations that accept short pieces, interrupt, buffer, or reject at a drawn offset, in process and as simulated processes; non-trivial = a rejection, a short write or an interruption reached the code while there was output to write",
    real: &["the whole library", "Cli::run_with_io", "the command-line process with std's own stream handling"],
    stub: &["writers, files, standard streams", "extension handlers"],
    assumptions: &["closing errors and a closed standard output (EBADF), which std discards, are outside the property"],
    quick_seconds: 35.0,
    run,
};

fn prefix(full: &[u8], got: &[u8]) -> bool {
    got.len() <= full.len() && full[..got.len()] == *got
}

fn in_process(c: &mut Ctx, k: &Case, r: &Refr) -> Res {
    let mut wp = WritePlan::draw(&mut c.s);
    let n = r.out.len();
    let fail = c.s.chance(3, 4);
    if fail {
        let at = match c.s.idx(4) {
            0 => n.saturating_sub(1),
            1 => 0,
            2 => c.s.idx(n + 1),
            _ => r.out.iter().rposition(|b| *b == b'\n').unwrap_or(0),
        };
        wp.fail_at = Some((at, if c.s.chance(1, 8) { None } else { Some(*c.s.pick(&ERR_KINDS)) }));
        wp.transient = c.s.chance(1, 2);
        wp.flush_fails = c.s.chance(1, 4).then(|| *c.s.pick(&ERR_KINDS));
    }
    if c.s.chance(1, 6) {
        wp.flush_intr = 1 + c.s.idx(3);
    }
    let how = format!("{wp:?}");
    let (wr, sink) = SimWriter::new(wp);
    let cmd = cli(&k.args);
    let res = c.must(&how, || cmd.run_with_io(&k.input[..], wr, &k.reg).map_err(|e| format!("{e:#}")))?;
    let s = sink.borrow();
    let res = flat(res);
    c.log(format!("{how}: {} of {} bytes, {} rejections, {}", s.bytes.len(), n, s.rejected, if res.is_ok() { "ok" } else { "error" }));
    c.fault("short-write", s.short as u64);
    c.fault("EINTR", s.intr as u64);
    c.fault("write-rejected", s.rejected as u64);
    c.fault("flush-rejected", s.flush_failed as u64);
    c.fault("flush-interrupted", s.flush_intr as u64);
    let rejected = s.rejected + s.flush_failed > 0;
    match &res {
        Ok(p) => {
            ensure!(!rejected, "rejected-but-success", "destination rejected output ({how}), {} of {} bytes arrived, yet the run reports success", s.bytes.len(), n);
            ensure!(s.bytes == r.out, "incomplete-success", "success reported, but delivered and complete output {}: {how}", diff(&s.bytes, &r.out));
            ensure!(Ok(p) == r.res.as_ref(), "problems-differ", "problems {p:?} instead of {:?}", r.res);
        }
        Err(e) => {
            ensure!(prefix(&r.out, &s.bytes), "not-a-prefix", "failed run left something that is not a prefix of the output: {}: {how}", diff(&s.bytes, &r.out));
            // giving up when a flush is interrupted is cautious, not wrong
            ensure!(rejected || s.flush_intr > 0 || r.res.is_err(), "needless-failure", "nothing was rejected, yet the run failed: {e}: {how}");
        }
    }
    if r.res.is_ok() && (s.short + s.intr + s.flush_intr > 0 || rejected) {
        c.nontrivial();
        c.probe(format!("lib-{:?}-{}", k.to, if rejected { "rejected" } else { "slow" }));
    }
    Ok(())
}

fn run(c: &mut Ctx) -> Res {
    let k = case(c, Mix { good: 8, spoiled: 3, damaged: 1, mislabelled: 0, unencodable: 0, big: 15, ..Mix::default() })?;
    let r = reference(c, &k)?;
    for _ in 0..1 + c.s.idx(5) {
        in_process(c, &k, &r)?;
    }
    for _ in 0..c.s.idx(3) {
        let mut l = Launch { bin: k.bin, args: k.args.clone(), rand_seed: c.rand_seed(), ..Default::default() };
        if c.s.chance(1, 2) {
            l.stdin = k.input.clone();
        } else {
            c.world.put_file("/sim/in", ROLE_IN, &k.input);
            l.args.extend(["-i", "/sim/in"].map(String::from));
        }
        l.delivery = Delivery::draw(&mut c.s);
        let to_file = c.s.chance(1, 2);
        c.world.remove("/sim/out");
        if to_file {
            l.args.extend(["-o", "/sim/out"].map(String::from));
            if c.s.chance(1, 2) {
                let old = vec![b'#'; c.s.idx(3) * (r.out.len() / 2 + 1)];
                c.world.put_file("/sim/out", ROLE_OUT, &old);
            }
        }
        let role = if to_file { ROLE_OUT } else { ROLE_STDOUT };
        if c.s.chance(3, 4) {
            let nth = 1 + c.s.small(10) as u32;
            let e = *c.s.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EDQUOT, libc::EFBIG, libc::EAGAIN]);
            l.faults = vec![match c.s.idx(4) {
                0 => Fault::errno(OP_WRITE, role, nth, e),
                1 => Fault { op: OP_WRITE, role, nth, repeat: 1 << 30, action: ACT_ZERO, ..Default::default() },
                2 if to_file => Fault::errno(OP_OPEN, ROLE_OUT, 1, *c.s.pick(&[libc::EACCES, libc::EROFS, libc::EMFILE, libc::ENOSPC])),
                _ => Fault::sticky(OP_WRITE, role, nth, e),
            }];
        }
        let x = c.launch(&l)?;
        let got = if to_file { c.world.read_file("/sim/out") } else { Some(x.stdout.clone()) };
        let fired = x.fired(|_| true);
        let opened = !x.fired(|f| f.op == OP_OPEN);
        let what = l.faults.first().map(|f| f.describe()).unwrap_or_else(|| "no fault".into());
        if x.ok() {
            ensure!(!fired, "rejected-but-success", "{what}: {} of {} bytes arrived, yet the process exits with success", got.map(|g| g.len()).unwrap_or(0), r.out.len());
            let got = got.unwrap_or_default();
            ensure!(got == r.out, "incomplete-success", "process exits with success, but delivered and complete output {}", diff(&got, &r.out));
        } else if r.res.is_ok() && opened {
            let got = got.unwrap_or_default();
            ensure!(prefix(&r.out, &got), "not-a-prefix", "{what}: failed process left something that is not a prefix of the output: {}", diff(&got, &r.out));
            if !fired {
                ensure!(!r.clean(), "needless-failure", "nothing was rejected, yet the process failed with {}: {}", x.status(), x.err());
                ensure!(got == r.out, "incomplete-success", "all was accepted, but delivered and complete output {}", diff(&got, &r.out));
            }
        }
        if r.res.is_ok() && !r.out.is_empty() && (fired || c.world.raw().short_writes > 0) {
            c.nontrivial();
            c.probe(format!("process-{:?}-{}", k.to, if fired { "rejected" } else { "slow" }));
        }
    }
    Ok(())
}
