//! C14: an interrupted run can simply be run again.
use std::collections::BTreeMap;

use super::Scenario;
use super::util::{Mix, case};
use crate::ctx::{Ctx, Res, diff};
use crate::ensure;
use crate::proc::{Bin, Launch};
use crate::stored::Fmt;
use crate::world::*;

pub static S: Scenario = Scenario {
    id: "C14",
    rule: "one evaluation = a script of one to three commands, each reading the previous one's output, run once undisturbed and then attempted several times with kills, errors and full disks at drawn calls, each attempt starting over at a drawn step, until a last undisturbed run; non-trivial = an attempt was killed or failed after the output file had been opened for writing",
    real: &["the command-line process (argument handling, opening, reading, parsing, writing, exit)"],
    stub: &["files, directories, standard streams", "extension handlers"],
    assumptions: &["a kill keeps every byte the process had handed to the operating system; losing them is a machine crash, which the command does not protect against (it never syncs)"],
    quick_seconds: 30.0,
    run,
};

type Files = BTreeMap<String, Vec<u8>>;
fn snap(c: &Ctx) -> Files {
    c.world.paths().into_iter().map(|p| (p.clone(), c.world.read_file(&p).unwrap())).collect()
}

struct Step {
    bin: Bin,
    args: Vec<String>,
    input: String,
    output: String,
}
/// What one undisturbed run of a step left.
#[derive(PartialEq, Clone)]
struct Left {
    code: Option<i32>,
    err: Vec<u8>,
    out: Option<Vec<u8>>,
}

fn go(c: &mut Ctx, st: &Step, to: &str, faults: Vec<Fault>) -> Res<crate::proc::Exit> {
    let mut l = Launch { bin: st.bin, args: st.args.clone(), rand_seed: c.rand_seed(), faults, ..Default::default() };
    if c.s.chance(1, 2) {
        l.delivery = Delivery::draw(&mut c.s);
    }
    l.clock_sec = 1_600_000_000 + c.s.below(1 << 28) as i64;
    let mut tail = vec!["-i".to_string(), st.input.clone(), "-o".to_string(), to.to_string()];
    if c.s.chance(1, 3) {
        tail.rotate_left(2);
    }
    l.args.extend(tail);
    let before = snap(c);
    let x = c.launch(&l)?;
    ensure!(x.outside.is_none(), "other-file-touched", "the process tried to write {:?}", x.outside);
    let after = snap(c);
    for (p, b) in &before {
        if p != to {
            let a = after.get(p);
            ensure!(a == Some(b), "other-file-touched", "{} ({}) changed {p}: {}", l.args.join(" "), x.status(), diff(a.map(|a| &a[..]).unwrap_or(b"(removed)"), b));
        }
    }
    Ok(x)
}

fn trouble(c: &mut Ctx, calls: u32) -> Vec<Fault> {
    let mut v = vec![];
    match c.s.weighted(&[8, 3, 2, 1, 1]) {
        0 => {
            let action = *c.s.pick(&[ACT_CRASH_BEFORE, ACT_CRASH_AFTER]);
            v.push(Fault { op: OP_ANY, role: ROLE_ANY, nth: 1 + c.s.below(calls.max(1) as u64) as u32, repeat: 1, action, ..Default::default() });
        }
        1 => v.push(Fault { op: OP_WRITE, role: ROLE_OUT, nth: 1 + c.s.small(6) as u32, repeat: 1, action: ACT_CRASH_PARTIAL, arg: c.s.small(400) as u32, ..Default::default() }),
        2 => v.push(Fault::sticky(OP_WRITE, ROLE_OUT, 1 + c.s.small(4) as u32, *c.s.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT]))),
        3 => v.push(Fault::errno(OP_READ, ROLE_IN, 1 + c.s.small(3) as u32, libc::EIO)),
        _ => v.push(Fault::errno(OP_OPEN, *c.s.pick(&[ROLE_IN, ROLE_OUT]), 1, *c.s.pick(&[libc::EMFILE, libc::EACCES, libc::ENOSPC]))),
    }
    v
}

fn run(c: &mut Ctx) -> Res {
    let k = case(c, Mix { good: 8, spoiled: 3, damaged: 1, mislabelled: 0, unencodable: 1, big: 8, ..Mix::default() })?;
    let world = c.world;
    world.put_file("/sim/f0.dat", ROLE_IN, &k.input);
    world.put_file("/sim/bystander.json", ROLE_OTHER, b"{}");
    // the script
    let mut steps: Vec<Step> = vec![];
    let mut from = k.from;
    let n = if k.validate { 1 } else { 1 + c.s.idx(3) };
    for i in 0..n {
        let to = if i == 0 { k.to } else { *c.s.pick(&[Fmt::Text, Fmt::Proto, Fmt::Json, Fmt::Yaml]) };
        let named = !k.validate && c.s.chance(1, 3);
        let output = if named { to.file(&mut c.s, &format!("f{}", i + 1)) } else { Fmt::other_file(&mut c.s, &format!("f{}", i + 1)) };
        let mut args = vec![if k.validate { "validate" } else { "convert" }.to_string()];
        if !k.validate {
            args.extend(["-f".to_string(), from.spelling(&mut c.s)]);
            if !named {
                args.extend(["-t".to_string(), to.spelling(&mut c.s)]);
            }
            if c.s.chance(1, 4) {
                args.push("--show-literal-types".to_string());
            }
        }
        if c.s.chance(1, 4) {
            args.push("-v".to_string());
        }
        let input = steps.last().map(|s| s.output.clone()).unwrap_or("/sim/f0.dat".into());
        steps.push(Step { bin: k.bin, args, input, output });
        from = to;
    }
    // undisturbed, each step into a file of its own name
    let mut want: Vec<Left> = vec![];
    let mut calls = vec![];
    let mut complete = 0;
    for st in &steps {
        let x = go(c, st, &st.output, vec![])?;
        calls.push(x.calls);
        let l = Left { code: x.code, err: x.stderr.clone(), out: world.read_file(&st.output) };
        complete += 1;
        let stop = l.out.is_none();
        want.push(l);
        if stop {
            break;
        }
    }
    steps.truncate(complete);
    // the files as somebody may find them before the script
    for (st, w) in steps.iter().zip(&want) {
        let full = w.out.clone().unwrap_or_default();
        world.remove(&st.output);
        match c.s.weighted(&[5, 2, 2, 1]) {
            0 => {}
            1 => world.put_file(&st.output, ROLE_OUT, &vec![b'#'; full.len() + 1 + c.s.idx(50)]),
            2 => world.put_file(&st.output, ROLE_OUT, &full[..c.s.idx(full.len() + 1)]),
            _ => world.put_file(&st.output, ROLE_OUT, b"x"),
        }
    }
    let initial = snap(c);
    let mut hurt = false;
    let rounds = 1 + c.s.idx(3);
    for round in 0..=rounds {
        let last = round == rounds;
        // an attempt goes on until trouble stops it; the next one starts over
        let stop_at = c.s.idx(steps.len());
        for (i, st) in steps.iter().enumerate() {
            // the simulated system tells input and output apart by role
            for (j, s) in steps.iter().enumerate() {
                if let Some(b) = world.read_file(&s.output) {
                    world.put_file(&s.output, if j == i { ROLE_OUT } else if j + 1 == i { ROLE_IN } else { ROLE_OTHER }, &b);
                }
            }
            let t = if !last && i == stop_at { trouble(c, calls[i]) } else { vec![] };
            let x = go(c, st, &st.output, t)?;
            let got = Left { code: x.code, err: x.stderr.clone(), out: world.read_file(&st.output) };
            let w = &want[i];
            if x.fired(|_| true) {
                ensure!(x.killed || !x.ok() || x.faults.iter().all(|f| f.is_crash()), "false-success", "a failure was ignored: {}", st.args.join(" "));
                let touched = world.inode_of(&st.output).map(|n| n.wopens + n.truncs > 0).unwrap_or(false);
                hurt |= touched;
                c.probe(format!("{}-{}", if x.killed { "killed" } else { "failed" }, if touched { "output opened" } else { "before output" }));
                if !touched {
                    // nothing happened to the output yet
                    let b = initial.get(&st.output);
                    if round == 0 {
                        ensure!(got.out.as_ref() == b || !x.killed, "output-touched", "killed before it opened its output, yet {} changed", st.output);
                    }
                }
                break;
            }
            let when = if last { "rerun after the interruptions" } else { "step of a repeated attempt" };
            ensure!(got.code == w.code, "exit-differs", "{when}: {} ends with {}, uninterrupted it was {:?}; stderr {:?}", st.args.join(" "), x.status(), w.code, x.err());
            ensure!(got.err == w.err, "stderr-differs", "{when}: error stream and uninterrupted one {}", diff(&got.err, &w.err));
            if w.out.is_some() {
                ensure!(got.out == w.out, "output-differs", "{when}: {} and uninterrupted result {}", st.output, diff(got.out.as_deref().unwrap_or(b"(no file)"), w.out.as_ref().unwrap()));
            } else {
                ensure!(got.out.as_ref() == initial.get(&st.output), "output-differs", "{when}: {} fails without output, yet the file changed", st.args.join(" "));
            }
        }
    }
    if hurt {
        c.nontrivial();
    }
    Ok(())
}
