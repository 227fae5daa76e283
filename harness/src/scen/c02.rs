//! C02: input delivery never changes the result.
use super::Scenario;
use super::util::{Mix, Refr, case, flat, reference};
use crate::ctx::{Ctx, Res, clip, diff, violated};
use crate::ensure;
use crate::proc::{Exit, Launch};
use crate::simio::{ReadPlan, SimReader};
use crate::stored::cli;
use crate::world::*;

pub static S: Scenario = Scenario {
    id: "C02",
    rule: "one evaluation = one input (valid, damaged, mislabelled or with formatting problems) delivered whole and then in several drawn ways, in process and to simulated processes; non-trivial = at least one delivery had short or interrupted calls",
    real: &["the whole library", "Cli::run_with_io", "the command-line process with std's own stream handling"],
    stub: &["readers, files, standard streams", "extension handlers"],
    assumptions: &["EINTR and short counts are what the operating system may do at any call; sizes up to 400 kB"],
    quick_seconds: 40.0,
    run,
};

fn same(a: &Refr, out: &[u8], res: &Result<Vec<String>, String>, how: &str) -> Res {
    match (&a.res, res) {
        (Ok(x), Ok(y)) => ensure!(x == y, "problems-differ", "{how}: problems {y:?} instead of {x:?}"),
        (Err(x), Err(y)) => ensure!(x == y, "error-differs", "{how}: error {:?} instead of {:?}", clip(y, 500), clip(x, 500)),
        (x, y) => return violated("outcome-differs", format!("{how}: {} instead of {}", brief(y), brief(x))),
    }
    ensure!(a.out == out, "output-differs", "{how}: output and reference {}", diff(out, &a.out));
    Ok(())
}
fn brief(r: &Result<Vec<String>, String>) -> String {
    match r {
        Ok(p) if p.is_empty() => "success".into(),
        Ok(p) => format!("{} problems", p.len()),
        Err(e) => format!("error {:?}", clip(e, 300)),
    }
}

fn run(c: &mut Ctx) -> Res {
    let k = case(c, Mix { big: 20, ..Mix::default() })?;
    let r = reference(c, &k)?;
    let n = 1 + c.s.idx(4);
    for _ in 0..n {
        let rp = ReadPlan::draw(&mut c.s);
        let how = format!("delivered in chunks {:?} with interruptions {:?}", rp.chunks, rp.intr);
        let (rd, st) = SimReader::new(&k.input, rp);
        let cmd = cli(&k.args);
        let mut out = vec![];
        let res = c.must(&how, || cmd.run_with_io(rd, &mut out, &k.reg).map_err(|e| format!("{e:#}")))?;
        let st = st.borrow();
        c.fault("short-read", st.short as u64);
        c.fault("EINTR", st.intr as u64);
        if st.short + st.intr > 0 {
            c.nontrivial();
        }
        c.log(format!("{how}: {} calls", st.calls));
        same(&r, &out, &flat(res), &how)?;
        ensure!(st.after_eof <= 8, "reads-after-end", "{how}: {} reads after the end of the input", st.after_eof);
    }
    // processes
    let mut first: Option<(Exit, Option<Vec<u8>>)> = None;
    let m = c.s.idx(4);
    for i in 0..m {
        let src = c.s.idx(3);
        let mut l = Launch { bin: k.bin, args: k.args.clone(), rand_seed: c.rand_seed(), ..Default::default() };
        if i > 0 {
            l.delivery = Delivery::draw(&mut c.s);
        }
        let how = match src {
            0 => {
                l.stdin = k.input.clone();
                "standard input (pipe)"
            }
            1 => {
                l.stdin = k.input.clone();
                l.stdin_file = true;
                if c.s.chance(1, 2) {
                    l.args.extend(["-i", "-"].map(String::from));
                }
                "standard input (file)"
            }
            _ => {
                c.world.put_file("/sim/in", ROLE_IN, &k.input);
                l.args.extend(["-i", "/sim/in"].map(String::from));
                "file"
            }
        };
        let to_file = c.s.chance(1, 3);
        c.world.remove("/sim/out");
        if to_file {
            l.args.extend(["-o", "/sim/out"].map(String::from));
        }
        let e = c.launch(&l)?;
        let out = if to_file { c.world.read_file("/sim/out").unwrap_or_default() } else { e.stdout.clone() };
        ensure!(e.ok() == r.clean(), "outcome-differs", "process reading from {how} ended with {} where the library reports {}", e.status(), brief(&r.res));
        ensure!(out == r.out, "output-differs", "process reading from {how} ({}): output and reference {}", l.delivery.describe(), diff(&out, &r.out));
        if e.fired(|_| true) || c.world.raw().short_reads > 0 || c.world.raw().intr_fired > 0 {
            c.nontrivial();
        }
        // the input is over when a read returns nothing: nobody may go on reading for long
        let size = k.input.len() as u32;
        let limit = 64 + 3 * size + c.world.raw().intr_fired;
        ensure!(e.reads <= limit, "reads-after-end", "{} reads for {} bytes", e.reads, size);
        match &first {
            None => first = Some((e, Some(out))),
            Some((f, _)) => {
                ensure!(f.code == e.code, "outcome-differs", "process reading from {how}: {} instead of {}", e.status(), f.status());
                ensure!(f.stderr == e.stderr, "diagnostics-differ", "process reading from {how} ({}): error stream {}", l.delivery.describe(), diff(&e.stderr, &f.stderr));
            }
        }
    }
    c.probe(format!("{}-{:?}-{}", k.kind, k.from, if r.clean() { "ok" } else if r.res.is_ok() { "problems" } else { "error" }));
    Ok(())
}
