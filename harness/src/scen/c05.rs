//! C05: a failed conversion leaves existing files alone.
use std::collections::BTreeMap;

use super::Scenario;
use super::util::{Mix, case, reference};
use crate::ctx::{Ctx, Res, diff};
use crate::ensure;
use crate::stored::Fmt;
use crate::proc::Launch;
use crate::world::*;

pub static S: Scenario = Scenario {
    id: "C05",
    rule: "one evaluation = one command on a small set of files with a drawn cause of failure (or none), all files compared before and after; non-trivial = the run failed for the drawn cause while files it could have harmed existed, or it converted a file onto itself",
    real: &["the command-line process (argument handling, opening, reading, parsing, writing)"],
    stub: &["files, directories, standard streams", "extension handlers"],
    assumptions: &["hard links stand for every way two names reach one file"],
    quick_seconds: 35.0,
    run,
};

fn snap(c: &Ctx) -> BTreeMap<String, Vec<u8>> {
    c.world.paths().into_iter().map(|p| (p.clone(), c.world.read_file(&p).unwrap())).collect()
}

fn run(c: &mut Ctx) -> Res {
    let k = case(c, Mix { good: 6, spoiled: 2, damaged: 4, mislabelled: 2, unencodable: 3, big: 8, ..Mix::default() })?;
    let r = reference(c, &k)?;
    let world = c.world;
    // files
    let detect_in = !k.validate && c.s.chance(1, 3);
    let detect_out = !k.validate && c.s.chance(1, 3);
    let mut input = if detect_in { k.from.file(&mut c.s, "in") } else { Fmt::other_file(&mut c.s, "in") };
    world.put_file(&input, ROLE_IN, &k.input);
    world.put_file("/sim/bystander.json", ROLE_OTHER, b"{}");
    let mut in_place = false;
    let mut output = if detect_out { k.to.file(&mut c.s, "out") } else { Fmt::other_file(&mut c.s, "out") };
    let old = match c.s.idx(4) {
        0 => b"an earlier result\n".to_vec(),
        1 => vec![],
        2 => k.input.clone(),
        _ => vec![b'x'; r.out.len() + 1 + c.s.idx(40)],
    };
    let mut layout = match c.s.weighted(&[4, 3, 2, 2, 1]) {
        0 => {
            world.put_file(&output, ROLE_OUT, &old);
            "existing output"
        }
        1 => "no output yet",
        2 => {
            in_place = true;
            "onto itself"
        }
        3 => {
            in_place = true;
            "second name of the input"
        }
        _ => {
            world.put_file("/sim/outreal", ROLE_OUT, &old);
            world.link(&output, "/sim/outreal");
            "second name of another file"
        }
    };
    if layout == "onto itself" {
        output = input.clone();
        if detect_out && k.from != k.to {
            // the extension says the input format: name the target explicitly instead
        }
    } else if layout == "second name of the input" {
        world.link(&output, &input);
    }
    // command line
    let mut args: Vec<String> = vec![k.args[0].clone()];
    let mut undeterminable = false;
    if !k.validate {
        if !detect_in {
            if c.s.chance(1, 12) && Fmt::silent(&input) {
                undeterminable = true;
            } else {
                args.extend(["-f".to_string(), k.from.spelling(&mut c.s)]);
            }
        }
        if !detect_out || layout == "onto itself" {
            if c.s.chance(1, 12) && layout != "onto itself" && Fmt::silent(&output) {
                undeterminable = true;
            } else {
                args.extend(["-t".to_string(), k.to.spelling(&mut c.s)]);
            }
        }
        if c.s.chance(1, 20) {
            args.extend(["-t".to_string(), "nosuchformat".to_string()]);
            undeterminable = true;
        }
        if k.types {
            args.push("--show-literal-types".into());
        }
    }
    let mut l = Launch { bin: k.bin, rand_seed: c.rand_seed(), delivery: Delivery::draw(&mut c.s), ..Default::default() };
    // cause of failure
    let cause = match c.s.weighted(&[5, 2, 2, 4, 1, 2]) {
        0 => "none",
        1 => {
            if layout == "onto itself" || layout == "second name of the input" {
                world.remove(&output);
                layout = "no output yet";
                in_place = false;
                output = "/sim/out.dat".to_string();
                if !k.validate && !args.contains(&"-t".to_string()) {
                    args.extend(["-t".to_string(), "json".to_string()]);
                }
            }
            input = match c.s.idx(3) {
                0 => "/sim/missing.json".to_string(),
                1 => "/sim".to_string(),
                _ => "/sim/nodir/in.json".to_string(),
            };
            "input missing"
        }
        2 => {
            l.faults.push(Fault::errno(OP_OPEN, ROLE_IN, 1, *c.s.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOMEM])));
            "input cannot be opened"
        }
        3 => {
            let nth = 1 + c.s.small(6) as u32;
            let e = *c.s.pick(&[libc::EIO, libc::EISDIR, libc::ESTALE, libc::EAGAIN]);
            l.faults.push(if c.s.chance(1, 2) { Fault::errno(OP_READ, ROLE_IN, nth, e) } else { Fault::sticky(OP_READ, ROLE_IN, nth, e) });
            "read failure"
        }
        4 => {
            l.faults.push(super::c01::disturb(c));
            "disturbed"
        }
        _ => {
            l.faults.push(Fault::sticky(OP_WRITE, ROLE_OUT, 1 + c.s.small(3) as u32, *c.s.pick(&[libc::ENOSPC, libc::EIO])));
            "write failure"
        }
    };
    args.extend(["-i".to_string(), input.clone(), "-o".to_string(), output.clone()]);
    l.args = args;
    let before = snap(c);
    let x = c.launch(&l)?;
    let after = snap(c);
    c.log(format!("{layout}; cause: {cause}; undeterminable: {undeterminable}"));
    ensure!(x.outside.is_none(), "other-file-touched", "the process tried to write {:?}", x.outside);
    let fired = x.fired(|_| true);
    let early = undeterminable
        || cause == "input missing"
        || (matches!(cause, "input cannot be opened" | "read failure") && fired)
        || (r.res.is_err() && cause != "disturbed");
    if early {
        let why = if undeterminable {
            "the format is not known"
        } else if cause == "none" || !fired && cause != "input missing" {
            "the input cannot be converted"
        } else {
            cause
        };
        ensure!(!x.ok(), "false-success", "{why}, yet the process exits with success ({})", l.args.join(" "));
        if before != after {
            for (p, b) in &before {
                match after.get(p) {
                    None => return crate::ctx::violated("file-removed", format!("failed run ({why}) removed {p}")),
                    Some(a) => ensure!(a == b, "file-damaged", "failed run ({why}) changed {p}: after and before {}", diff(a, b)),
                }
            }
            for p in after.keys() {
                ensure!(before.contains_key(p), "file-created", "failed run ({why}) left a new file {p}");
            }
        }
        c.probe(format!("{why}/{layout}"));
        if layout != "no output yet" {
            c.nontrivial();
        }
        return Ok(());
    }
    // Everything but the output stays as it was.
    let outs = |p: &str| p == output || (in_place && p == input) || (layout == "second name of another file" && p == "/sim/outreal");
    for (p, b) in &before {
        if !outs(p) {
            let a = after.get(p);
            ensure!(a == Some(b), "file-damaged", "run with {} changed {p}", l.args.join(" "));
        }
    }
    for p in after.keys() {
        ensure!(before.contains_key(p) || outs(p) || x.killed, "file-created", "run left a new file {p}");
    }
    if cause == "none" {
        ensure!(x.ok() == r.clean(), "outcome-differs", "{layout}: process ended with {} (stderr {:?}), the library reports {}", x.status(), x.err(), r.brief());
        let got = after.get(&output);
        ensure!(got == Some(&r.out), "output-differs", "{layout}: result and expected result {}", diff(got.map(|g| &g[..]).unwrap_or(b"(no file)"), &r.out));
        if in_place {
            c.nontrivial();
        }
        c.probe(format!("converted/{layout}"));
    }
    Ok(())
}
