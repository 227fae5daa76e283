//! C06: exit status and streams tell the truth.
use super::Scenario;
use prost::Message;
use serde_json::Value;
use substrait::proto::Plan;
use substrait_explain::{format_with_registry, parse_with_registry};

use super::util::{Case, Mix, Refr, case, flat, reference};
use crate::ctx::{Ctx, Res, clip, diff, show, violated};
use crate::ensure;
use crate::proc::Launch;
use crate::world::*;

pub static S: Scenario = Scenario {
    id: "C06",
    rule: "one evaluation = one command run as a simulated process several times with drawn faults on all its streams; non-trivial = the outcome was not plain success, or a fault fired",
    real: &["the command-line process from main to exit status"],
    stub: &["files, standard streams", "extension handlers"],
    assumptions: &["--help and --version are not conversions; an error stream that cannot be written may turn a success into a failure, never the reverse"],
    quick_seconds: 35.0,
    run,
};

/// Functions a plan uses without declaring them.
fn undeclared(p: &Plan) -> usize {
    use substrait::proto::extensions::simple_extension_declaration::MappingType;
    let known: Vec<u64> = p
        .extensions
        .iter()
        .filter_map(|e| match e.mapping_type.as_ref()? {
            MappingType::ExtensionFunction(f) => Some(f.function_anchor as u64),
            _ => None,
        })
        .collect();
    fn walk(v: &Value, known: &[u64]) -> usize {
        match v {
            Value::Object(m) => m
                .iter()
                .map(|(k, v)| {
                    let own = k == "scalarFunction" && !known.contains(&v["functionReference"].as_u64().unwrap_or(0));
                    own as usize + walk(v, known)
                })
                .sum(),
            Value::Array(a) => a.iter().map(|v| walk(v, known)).sum(),
            _ => 0,
        }
    }
    serde_json::to_value(p).map(|v| walk(&v["relations"], &known)).unwrap_or(0)
}
/// Failure marks in a text, quoted text left out.
fn marks(t: &str) -> usize {
    let (mut n, mut quote, mut prev) = (0, None, ' ');
    let mut escaped = false;
    for ch in t.chars() {
        match quote {
            Some(_) if escaped => escaped = false,
            Some(_) if ch == '\\' => escaped = true,
            Some(q) if ch == q => quote = None,
            Some(_) => {}
            None if ch == '\'' || ch == '"' => quote = Some(ch),
            None if ch == '{' && prev == '!' => n += 1,
            None => {}
        }
        prev = ch;
    }
    n
}

/// What the command line has to make of a case, by the library's own functions and the codecs it is built on.
fn cross_check(c: &mut Ctx, k: &Case, r: &Refr) -> Res {
    let plan = match k.from.decode(&k.input) {
        Some(Ok(p)) => p,
        Some(Err(e)) => {
            // JSON has a second reader with more liberal rules
            if k.from != crate::stored::Fmt::Json {
                ensure!(r.res.is_err(), "false-success", "{} although the input cannot be decoded: {e}", r.brief());
            }
            return Ok(());
        }
        None => {
            let Ok(t) = std::str::from_utf8(&k.input) else {
                ensure!(r.res.is_err(), "false-success", "{} although the input is not text", r.brief());
                return Ok(());
            };
            match c.must("parsing", || parse_with_registry(t, &k.reg).map_err(|e| e.to_string()))? {
                Ok(p) => p,
                Err(e) => {
                    ensure!(r.res.is_err(), "false-success", "{} although the text cannot be parsed: {e}", r.brief());
                    return Ok(());
                }
            }
        }
    };
    if k.to != crate::stored::Fmt::Text {
        match k.to.encode(&plan) {
            Some(want) => {
                ensure!(r.clean(), "false-failure", "the plan can be encoded as {:?}, yet: {}", k.to, r.brief());
                match k.to.decode(&r.out) {
                    Some(Ok(q)) if q.encode_to_vec() == plan.encode_to_vec() => {}
                    Some(Ok(q)) if k.to != crate::stored::Fmt::Proto && has_float(&q) => {}
                    // nested deeper than a reader follows
                    Some(Err(_)) if matches!(k.to.decode(&want), Some(Err(_))) => {}
                    _ => return violated("false-success", format!("success, but the output is not the plan: {}", show(&r.out))),
                }
            }
            None => ensure!(r.res.is_err() && r.out.is_empty(), "false-success", "the plan has no {:?} form, yet: {}", k.to, r.brief()),
        }
        return Ok(());
    }
    let d = crate::stored::Disp { types: k.types, rows: 0 };
    let (t, e) = c.must("formatting", || format_with_registry(&plan, &d.options(), &k.reg))?;
    let want = flat(Ok(substrait_explain::cli::Outcome::HadFormattingIssues(e)));
    ensure!(r.res == want, "problem-not-reported", "the formatter reports {want:?}, the command {:?}", r.res);
    ensure!(r.out == t.as_bytes(), "output-differs", "the formatter's text and the command's {}", diff(&r.out, t.as_bytes()));
    let n = want.as_ref().map(|w| w.len()).unwrap_or(0);
    ensure!(marks(&t) <= n, "problem-not-reported", "{} failure marks but {n} problems: {}", marks(&t), clip(&t, 2000));
    if let (Some(w), false) = (&k.wrong, k.from == crate::stored::Fmt::Text) {
        ensure!(n > 0, "problem-not-reported", "no problem is reported although something is wrong with the plan: {}\n{}", clip(w, 400), clip(&t, 2000));
        c.probe("certainly wrong");
    }
    let u = undeclared(&plan);
    ensure!(u == 0 || n > 0, "problem-not-reported", "{u} functions are not declared, but no problem is reported: {}", clip(&t, 2000));
    if u > 0 {
        c.probe("undeclared functions");
    }
    Ok(())
}
/// Numbers whose decimal form may not be read back exactly (see the known findings of C01).
fn has_float(p: &Plan) -> bool {
    serde_json::to_string(p).is_ok_and(|s| s.contains("\"fp64\"") || s.contains("\"fp32\""))
}

/// Nothing that is wrong with a plan goes unreported by the formatter.
fn catalogue(c: &mut Ctx) -> Res {
    let o = crate::plangen::Opts { ext: c.s.chance(1, 3), size: 1 + c.s.idx(5), depth: 1, big: false };
    let plan = crate::plangen::plan(&mut c.s, o);
    let reg = crate::ext::registry();
    for _ in 0..c.s.idx(6) {
        let more = c.s.chance(1, 2);
        let part = if more { crate::unset::add_part(&mut c.s, &plan) } else { crate::unset::change_part(&mut c.s, &plan) };
        let Some((p, part)) = part else { break };
        let d = crate::stored::Disp::draw(&mut c.s);
        let mut shown = |p: &Plan| {
            c.must("formatting", || {
                let (t, e) = format_with_registry(p, &d.options(), &reg);
                (t, e.len())
            })
        };
        let (before, after) = (shown(&plan)?, shown(&p)?);
        c.probe(if more { "one part more" } else { "one value other" });
        ensure!(before != after, "part-dropped", "a part of a plan is neither shown nor reported: {part}\n{}", clip(&after.0, 2000));
    }
    for _ in 0..1 + c.s.idx(12) {
        let mut p = plan.clone();
        let w = crate::wrong::wrong(&mut c.s, &mut p);
        let d = crate::stored::Disp::draw(&mut c.s);
        let (t, n) = c.must("formatting", || {
            let (t, e) = format_with_registry(&p, &d.options(), &reg);
            (t, e.len())
        })?;
        c.mark(t.as_bytes());
        ensure!(n > 0, "problem-not-reported", "no problem is reported although something is wrong with the plan: {}\n{}", clip(&w, 400), clip(&t, 2000));
        c.probe("certainly wrong");
    }
    Ok(())
}

fn run(c: &mut Ctx) -> Res {
    if c.s.chance(1, 3) {
        catalogue(c)?;
    }
    let many = c.s.chance(1, 8);
    let k = case(c, Mix { good: 5, spoiled: 6, damaged: 3, mislabelled: 1, unencodable: 2, big: 5, size: if many { 40 } else { 6 }, ..Mix::default() })?;
    let r = reference(c, &k)?;
    cross_check(c, &k, &r)?;
    for round in 0..1 + c.s.idx(3) {
        let mut l = Launch { bin: k.bin, args: k.args.clone(), rand_seed: c.rand_seed(), ..Default::default() };
        let verbose = c.s.chance(1, 3);
        if verbose {
            l.args.push(if c.s.chance(1, 2) { "-v" } else { "--verbose" }.into());
        }
        let mut in_role = ROLE_STDIN;
        if c.s.chance(1, 2) {
            l.stdin = k.input.clone();
        } else {
            c.world.put_file("/sim/in", ROLE_IN, &k.input);
            l.args.extend(["-i", "/sim/in"].map(String::from));
            in_role = ROLE_IN;
        }
        l.delivery = Delivery::draw(&mut c.s);
        let to_file = c.s.chance(1, 3);
        c.world.remove("/sim/out");
        if to_file {
            l.args.extend(["-o", "/sim/out"].map(String::from));
        }
        let out_role = if to_file { ROLE_OUT } else { ROLE_STDOUT };
        let bad_usage = round == 0 && c.s.chance(1, 25);
        if bad_usage {
            let extra = *c.s.pick(&["--no-such-option", "stray", "--from"]);
            l.args.push(extra.into());
        }
        let e = *c.s.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN]);
        for _ in 0..c.s.idx(3) {
            let nth = 1 + c.s.small(5) as u32;
            l.faults.push(match c.s.idx(4) {
                0 => Fault::sticky(OP_WRITE, ROLE_STDERR, nth, e),
                1 => Fault::errno(OP_WRITE, ROLE_STDERR, nth, e),
                2 => Fault::errno(OP_READ, in_role, nth, libc::EIO),
                _ => Fault::sticky(OP_WRITE, out_role, nth, e),
            });
        }
        let x = c.launch(&l)?;
        let got = if to_file { c.world.read_file("/sim/out").unwrap_or_default() } else { x.stdout.clone() };
        let read_bad = x.fired(|f| f.op == OP_READ);
        let out_bad = x.fired(|f| f.op == OP_WRITE && f.role == out_role);
        let err_bad = x.fired(|f| f.role == ROLE_STDERR);
        let cmd = l.args.join(" ");
        if to_file {
            ensure!(x.stdout.is_empty(), "stdout-not-plan", "output goes to a file, but standard output got {} ({cmd})", show(&x.stdout));
        }
        let good = r.clean() && !read_bad && !out_bad && !bad_usage;
        if !good {
            ensure!(!x.ok(), "false-success", "process exits with success although {} ({cmd})", if bad_usage { "the command line is wrong".into() } else if read_bad { "its input could not be read".into() } else if out_bad { "its output was rejected".into() } else { r.brief() });
            if !err_bad {
                ensure!(!x.stderr.is_empty(), "no-diagnostic", "process failed with {} and said nothing ({cmd})", x.status());
            }
            ensure!(x.code.is_some_and(|c| c == 1 || c == 2) || err_bad, "odd-status", "process failed with {} ({cmd}): {}", x.status(), clip(&x.err(), 400));
        } else if !err_bad {
            ensure!(x.ok(), "false-failure", "nothing went wrong, yet the process ended with {}: {} ({cmd})", x.status(), clip(&x.err(), 400));
        }
        if read_bad || bad_usage || r.res.is_err() {
            ensure!(got.is_empty(), "stdout-not-plan", "no plan was read, but the output has {} ({cmd})", show(&got));
        } else if !out_bad {
            ensure!(got == r.out, "output-differs", "output and expected output {} ({cmd})", diff(&got, &r.out));
        } else {
            ensure!(r.out.starts_with(&got), "stdout-not-plan", "output is not part of the expected output: {} ({cmd})", diff(&got, &r.out));
        }
        if let Ok(p) = &r.res {
            if !p.is_empty() && !read_bad && !out_bad && !bad_usage && !err_bad {
                let mut left = x.err();
                let mut ps = p.clone();
                ps.sort_by_key(|s| std::cmp::Reverse(s.len()));
                for d in &ps {
                    match left.find(d.as_str()) {
                        Some(i) => left.replace_range(i..i + d.len(), "\u{1}"),
                        None => return crate::ctx::violated("problem-not-reported", format!("problem {d:?} is missing on the error stream {:?}", clip(&x.err(), 800))),
                    }
                }
                for d in &ps {
                    ensure!(!left.contains(d.as_str()), "problem-reported-twice", "problem {d:?} is reported more often than it occurred: {:?}", clip(&x.err(), 800));
                }
                c.probe(format!("problems-{}", [0, 1, 2, 5, 20, 50].iter().filter(|n| p.len() >= **n).max().unwrap()));
            }
        }
        if !good || err_bad {
            c.nontrivial();
        }
        c.probe(format!(
            "{}{}{}{}",
            if r.clean() { "clean" } else if r.res.is_ok() { "problems" } else { "error" },
            if read_bad { "+read" } else { "" },
            if out_bad { "+write" } else { "" },
            if err_bad { "+stderr" } else { "" }
        ));
    }
    Ok(())
}
