//! C03: a failed read is never mistaken for the end of the input.
use super::Scenario;
use super::util::{Mix, case, flat, reference};
use crate::ctx::{Ctx, Res, clip, show};
use crate::ensure;
use crate::proc::Launch;
use crate::simio::{ERR_KINDS, ReadPlan, SimReader, SimWriter, WritePlan};
use crate::stored::{Fmt, cli};
use crate::world::*;

pub static S: Scenario = Scenario {
    id: "C03",
    rule: "one evaluation = one input read with a read failure at a drawn offset, in process (several offsets) and in simulated processes; non-trivial = the failure was delivered to the code and the input is readable when nothing fails",
    real: &["the whole library", "Cli::run_with_io", "the command-line process with std's own stream handling"],
    stub: &["readers, files, standard streams", "extension handlers"],
    assumptions: &["a closed standard input (EBADF) counts as empty, as std defines it"],
    quick_seconds: 30.0,
    run,
};

/// Offsets at which what was delivered looks complete.
fn offset(c: &mut Ctx, input: &[u8], from: Fmt) -> usize {
    let n = input.len();
    match c.s.idx(4) {
        0 => n,
        1 => c.s.idx(n + 1),
        2 if from == Fmt::Proto => {
            // after a complete top-level field
            let mut v = vec![0];
            let mut i = 0;
            while i < n {
                let (mut p, mut key, mut sh) = (i, 0u64, 0);
                while p < n {
                    key |= ((input[p] & 127) as u64) << sh;
                    sh += 7;
                    p += 1;
                    if input[p - 1] < 128 || sh > 56 {
                        break;
                    }
                }
                if key & 7 != 2 {
                    break;
                }
                let (mut len, mut sh) = (0u64, 0);
                while p < n {
                    len |= ((input[p] & 127) as u64) << sh;
                    sh += 7;
                    p += 1;
                    if input[p - 1] < 128 || sh > 28 {
                        break;
                    }
                }
                i = p.saturating_add(len as usize);
                if i <= n {
                    v.push(i);
                } else {
                    break;
                }
            }
            *c.s.pick(&v)
        }
        _ => {
            let v: Vec<usize> = input.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1).collect();
            if v.is_empty() { n } else { *c.s.pick(&v) }
        }
    }
}

fn run(c: &mut Ctx) -> Res {
    let k = case(c, Mix { good: 10, spoiled: 2, damaged: 1, mislabelled: 0, unencodable: 0, big: 15, ..Mix::default() })?;
    let r = reference(c, &k)?;
    for _ in 0..1 + c.s.idx(5) {
        let mut rp = ReadPlan::draw(&mut c.s);
        let at = offset(c, &k.input, k.from);
        let kind = *c.s.pick(&ERR_KINDS);
        rp.fail_at = Some((at, kind));
        rp.transient = c.s.chance(1, 2);
        let how = format!("read failing with {kind:?} after {at} of {} bytes{}", k.input.len(), if rp.transient { " once" } else { "" });
        let (rd, st) = SimReader::new(&k.input, rp);
        let (wr, sink) = SimWriter::new(WritePlan::default());
        let cmd = cli(&k.args);
        let res = c.must(&how, || cmd.run_with_io(rd, wr, &k.reg).map_err(|e| format!("{e:#}")))?;
        let failed = st.borrow().failed;
        c.fault(format!("read-{kind:?}"), failed as u64);
        c.log(format!("{how}: {} failures delivered", failed));
        if failed > 0 {
            let res = flat(res);
            ensure!(res.is_err(), "read-failure-swallowed", "{how}: reported as {:?}, {} bytes written", res.map(|p| p.len()), sink.borrow().bytes.len());
            ensure!(sink.borrow().bytes.is_empty(), "output-after-failed-read", "{how}: failure reported, but {} was written", show(&sink.borrow().bytes));
            if r.res.is_ok() {
                c.nontrivial();
                c.probe(format!("{:?}-{}", k.from, if at == k.input.len() { "at-end" } else { "inside" }));
            }
        }
    }
    for _ in 0..c.s.idx(3) {
        let stdin = c.s.chance(1, 2);
        let mut l = Launch { bin: k.bin, args: k.args.clone(), rand_seed: c.rand_seed(), ..Default::default() };
        let role = if stdin {
            l.stdin = k.input.clone();
            l.stdin_file = c.s.chance(1, 2);
            ROLE_STDIN
        } else {
            c.world.put_file("/sim/in", ROLE_IN, &k.input);
            l.args.extend(["-i", "/sim/in"].map(String::from));
            ROLE_IN
        };
        l.delivery = Delivery::draw(&mut c.s);
        let e = *c.s.pick(&[libc::EIO, libc::EAGAIN, libc::EISDIR, libc::ETIMEDOUT, libc::ESTALE, libc::ENOMEM, libc::EACCES]);
        let nth = 1 + c.s.small(12) as u32;
        l.faults = vec![if c.s.chance(1, 2) { Fault::errno(OP_READ, role, nth, e) } else { Fault::sticky(OP_READ, role, nth, e) }];
        let to_file = c.s.chance(1, 2);
        let old: Option<&[u8]> = if c.s.chance(1, 2) { Some(b"earlier contents") } else { None };
        c.world.remove("/sim/out");
        if to_file {
            l.args.extend(["-o", "/sim/out"].map(String::from));
            if let Some(o) = old {
                c.world.put_file("/sim/out", ROLE_OUT, o);
            }
        }
        let x = c.launch(&l)?;
        if x.fired(|_| true) {
            ensure!(!x.ok(), "read-failure-swallowed", "process whose read failed ({}) ended with success, {} bytes on standard output", l.faults[0].describe(), x.stdout.len());
            ensure!(x.stdout.is_empty(), "output-after-failed-read", "process whose read failed wrote {}", show(&x.stdout));
            if to_file {
                let f = c.world.read_file("/sim/out").unwrap_or_default();
                ensure!(f.is_empty() || Some(&f[..]) == old, "output-after-failed-read", "process whose read failed wrote {} to its output file", show(&f));
            }
            ensure!(!x.stderr.is_empty(), "no-diagnostic", "process whose read failed said nothing ({})", clip(&l.args.join(" "), 200));
            if r.res.is_ok() {
                c.nontrivial();
                c.probe(format!("process-{:?}", k.from));
            }
        }
    }
    Ok(())
}
