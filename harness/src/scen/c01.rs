//! C01: chained conversions conserve the plan.
use std::collections::BTreeMap;

use prost::Message;
use substrait::proto::Plan;
use substrait_explain::cli::{Format, Outcome};

use super::Scenario;
use crate::ctx::{Ctx, Res, clip, diff, violated};
use crate::ensure;
use crate::ext;
use crate::plangen::{self, Opts};
use crate::proc::{Bin, Launch};
use crate::simio::{ReadPlan, SimReader, SimWriter, WritePlan};
use crate::stored::{Disp, Fmt, cli, convert_args};
use crate::world::*;

pub static S: Scenario = Scenario {
    id: "C01",
    rule: "one evaluation = one history of conversions (in process or as simulated processes, with failed, cut-off and killed attempts in between) over the files of one generated plan; non-trivial = at least two different formats were written successfully and compared with the original plan",
    real: &["the whole library (parser, formatter, registry, JSON/YAML/protobuf codecs)", "Cli::run_with_io", "the command-line process for a third of the steps"],
    stub: &["files, standard streams and process death (simulated)", "extension handlers (generic payloads)"],
    assumptions: &["generated plans stay in the domain the text format documents; comparison is on encoded protobuf bytes"],
    quick_seconds: 40.0,
    run,
};

fn same(p: &[u8], q: &Plan) -> bool {
    q.encode_to_vec() == p
}
pub fn plan_diff(want: &[u8], got: &Plan) -> String {
    let w = Plan::decode(want).map(|p| format!("{p:#?}")).unwrap_or_default();
    let g = format!("{got:#?}");
    let (a, b): (Vec<&str>, Vec<&str>) = (w.lines().collect(), g.lines().collect());
    let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let lo = i.saturating_sub(4);
    format!(
        "expected … {} … got … {}",
        a[lo..(i + 4).min(a.len())].iter().map(|s| s.trim()).collect::<Vec<_>>().join(" "),
        b[lo..(i + 4).min(b.len())].iter().map(|s| s.trim()).collect::<Vec<_>>().join(" ")
    )
}

/// A double that the JSON reader takes for its neighbour.
const ULP: f64 = -1.1649234936256685e-224;

fn json_float(c: &mut Ctx) -> Res {
    let mut plan = plangen::plan(&mut crate::src::Src::empty(), Opts { ext: false, size: 1, depth: 1, big: false });
    let lit = plangen::lit(substrait::proto::expression::literal::LiteralType::Fp64(ULP));
    plangen::wrap_filter(&mut plan, lit);
    let bytes = Fmt::Json.encode(&plan).unwrap();
    let got = c.must("reading JSON", || Format::Json.read_plan(&bytes[..], &Default::default()).map_err(|e| format!("{e:#}")))?;
    match got {
        Ok(p) if p == plan => Ok(()),
        Ok(p) => {
            plangen::wrap_filter(&mut plan, plangen::lit(substrait::proto::expression::literal::LiteralType::Fp64(-1.1649234936256683e-224)));
            let near = p == plan;
            violated(if near { "json-float-ulp" } else { "plan-changed" }, format!("the double {ULP:e} in a JSON plan is read as a neighbouring double: {}", near))
        }
        Err(e) => violated("undisturbed-failure", format!("a JSON plan with the double {ULP:e} is rejected: {e}")),
    }
}

fn run(c: &mut Ctx) -> Res {
    if c.s.below(40) == 39 {
        return json_float(c);
    }
    let with_ext = c.s.chance(1, 2);
    let o = Opts { ext: with_ext, size: 1 + c.s.idx(8), depth: 1 + c.s.idx(3), big: c.s.chance(1, 10) };
    let plan = plangen::plan(&mut c.s, o);
    let want = plan.encode_to_vec();
    let reg = if with_ext { ext::registry() } else { Default::default() };
    let bin = if with_ext { Bin::Ext } else { Bin::Cli };

    // Files by name: format, bytes.
    let mut files: Vec<(Fmt, Vec<u8>)> = vec![];
    let first = *c.s.pick(&[Fmt::Proto, Fmt::Json, Fmt::Yaml]);
    let bytes = first.encode(&plan).expect("generated plan encodes");
    c.log(format!("plan stored as {first:?}, {} bytes", bytes.len()));
    if bytes.len() > 300_000 {
        return Ok(());
    }
    files.push((first, bytes));
    let mut texts: BTreeMap<Disp, Vec<u8>> = BTreeMap::new();
    let mut written = std::collections::BTreeSet::new();
    let steps = 1 + c.s.idx(6);
    for step in 0..steps {
        let k = c.s.idx(files.len());
        let (from, input) = files[k].clone();
        let to = if step == 0 { Fmt::Text } else { *c.s.pick(&[Fmt::Text, Fmt::Proto, Fmt::Json, Fmt::Yaml]) };
        let (disp, out): (Disp, Option<Vec<u8>>) = match c.s.weighted(&[4, 3, 3, if from == Fmt::Text { 2 } else { 0 }]) {
            0 => {
                // library call with any display option
                let disp = Disp::draw(&mut c.s);
                let (mut rp, mut wp) = (ReadPlan::draw(&mut c.s), WritePlan::draw(&mut c.s));
                wp.buffer = 0;
                if c.s.chance(1, 6) {
                    rp.fail_at = Some((c.s.idx(input.len() + 1), std::io::ErrorKind::Other));
                }
                let f = |x: Fmt| match x {
                    Fmt::Text => Format::Text,
                    Fmt::Json => Format::Json,
                    Fmt::Yaml => Format::Yaml,
                    Fmt::Proto => Format::Protobuf,
                };
                let (r, rs) = SimReader::new(&input, rp);
                let (w, sink) = SimWriter::new(wp);
                let res = c.must("conversion", || {
                    f(from).read_plan(r, &reg).map_err(|e| format!("{e:#}")).and_then(|p| {
                        f(to).write_plan(w, &p, &disp.options(), &reg).map_err(|e| format!("{e:#}"))
                    })
                })?;
                c.fault("read-error", rs.borrow().failed as u64);
                let failed = rs.borrow().failed > 0;
                c.log(format!("library {from:?}->{to:?} {disp:?}: {}", brief(&res)));
                (disp, check_outcome(c, res, failed, sink.borrow().bytes.clone(), from, to)?)
            }
            1 => {
                let disp = Disp::cli(&mut c.s);
                let mut rp = ReadPlan::draw(&mut c.s);
                if c.s.chance(1, 6) {
                    rp.fail_at = Some((c.s.idx(input.len() + 1), std::io::ErrorKind::Other));
                }
                let mut wp = WritePlan::draw(&mut c.s);
                if c.s.chance(1, 6) {
                    wp.fail_at = Some((c.s.idx(input.len() + 1), Some(std::io::ErrorKind::StorageFull)));
                }
                let (r, rs) = SimReader::new(&input, rp);
                let (w, sink) = SimWriter::new(wp);
                let cmd = cli(&convert_args(from, to, disp.types));
                let res = c.must("conversion", || cmd.run_with_io(r, w, &reg).map_err(|e| format!("{e:#}")))?;
                let failed = rs.borrow().failed > 0 || sink.borrow().rejected > 0;
                c.fault("read-error", rs.borrow().failed as u64);
                c.fault("write-error", sink.borrow().rejected as u64);
                c.log(format!("cli {from:?}->{to:?} {disp:?}: {}", brief(&res)));
                (disp, check_outcome(c, res, failed, sink.borrow().bytes.clone(), from, to)?)
            }
            2 => {
                let disp = Disp::cli(&mut c.s);
                c.world.put_file("/sim/in", ROLE_IN, &input);
                if c.s.chance(1, 3) {
                    c.world.put_file("/sim/out", ROLE_OUT, b"left over from before");
                } else {
                    c.world.remove("/sim/out");
                }
                let mut args = convert_args(from, to, disp.types);
                args.extend(["-i", "/sim/in", "-o", "/sim/out"].map(String::from));
                let mut l = Launch { bin, args, rand_seed: c.rand_seed(), delivery: Delivery::draw(&mut c.s), ..Default::default() };
                // failed or killed attempts first
                for _ in 0..c.s.small(2) {
                    let mut t = l.clone();
                    t.faults = vec![disturb(c)];
                    c.launch(&t)?;
                }
                l.delivery = Delivery::draw(&mut c.s);
                let e = c.launch(&l)?;
                ensure!(e.ok(), "undisturbed-failure", "converting {from:?} to {to:?} failed with {}: {}", e.status(), clip(&e.err(), 400));
                (disp, c.world.read_file("/sim/out"))
            }
            _ => {
                let (r, _) = SimReader::new(&input, ReadPlan::draw(&mut c.s));
                let (w, sink) = SimWriter::new(WritePlan::draw(&mut c.s));
                let cmd = cli(&["validate".to_string()]);
                let res = c.must("validation", || cmd.run_with_io(r, w, &reg).map_err(|e| format!("{e:#}")))?;
                c.log(format!("validate: {}", brief(&res)));
                let out = check_outcome(c, res, false, sink.borrow().bytes.clone(), from, Fmt::Text)?;
                if let Some(out) = out {
                    compare(c, &want, &reg, Fmt::Text, Disp::default(), &out, &mut texts)?;
                    c.probe("validated");
                }
                continue;
            }
        };
        let Some(out) = out else {
            c.probe("failed-attempt");
            continue;
        };
        let disp = if to == Fmt::Text { disp } else { Disp::default() };
        compare(c, &want, &reg, to, disp, &out, &mut texts)?;
        c.probe(format!("{from:?}->{to:?}"));
        written.insert(to);
        c.mark(&out);
        files.push((to, out));
        if written.len() >= 2 {
            c.nontrivial();
        }
    }
    Ok(())
}

fn brief(r: &Result<Outcome, String>) -> String {
    match r {
        Ok(Outcome::Success) => "ok".into(),
        Ok(Outcome::HadFormattingIssues(e)) => format!("{} formatting problems", e.len()),
        Err(e) => clip(e, 300),
    }
}
fn check_outcome(_c: &mut Ctx, r: Result<Outcome, String>, faulted: bool, out: Vec<u8>, from: Fmt, to: Fmt) -> Res<Option<Vec<u8>>> {
    match r {
        Ok(Outcome::Success) => Ok(Some(out)),
        Ok(Outcome::HadFormattingIssues(e)) => violated(
            "format-problems",
            format!("formatting an expressible plan reported problems: {:?}; text {}", e.iter().map(|e| e.to_string()).collect::<Vec<_>>(), clip(&String::from_utf8_lossy(&out), 1500)),
        ),
        Err(_) if faulted => Ok(None),
        Err(e) => violated("undisturbed-failure", format!("converting {from:?} to {to:?} failed: {}", clip(&e, 500))),
    }
}
fn compare(
    c: &mut Ctx,
    want: &[u8],
    reg: &substrait_explain::extensions::ExtensionRegistry,
    to: Fmt,
    disp: Disp,
    out: &[u8],
    texts: &mut BTreeMap<Disp, Vec<u8>>,
) -> Res {
    if to == Fmt::Text {
        let text = match String::from_utf8(out.to_vec()) {
            Ok(t) => t,
            Err(_) => return violated("not-utf8", "text output is not UTF-8"),
        };
        let p = c.must("parsing the produced text", || substrait_explain::parse_with_registry(&text, reg).map_err(|e| e.to_string()))?;
        match p {
            Err(e) => return violated("text-unreadable", format!("produced text does not parse: {}; text {}", clip(&e, 400), clip(&text, 1500))),
            Ok(p) => ensure!(same(want, &p), "plan-changed", "text reads as a different plan: {}; text {}", plan_diff(want, &p), clip(&text, 1500)),
        }
        if let Some(t) = texts.get(&disp) {
            ensure!(t == out, "text-changed", "text with the same options {}", diff(t, out));
        } else {
            texts.insert(disp, out.to_vec());
        }
    } else {
        match to.decode(out).unwrap() {
            Err(e) => return violated("output-unreadable", format!("{to:?} output does not decode: {e}")),
            Ok(p) => ensure!(same(want, &p), "plan-changed", "{to:?} output is a different plan: {}", plan_diff(want, &p)),
        }
    }
    Ok(())
}
/// A fault that spoils an attempt: I/O error or death at some call.
pub fn disturb(c: &mut Ctx) -> Fault {
    let nth = 1 + c.s.small(12) as u32;
    match c.s.idx(6) {
        0 => Fault { op: OP_ANY, role: ROLE_ANY, nth, repeat: 1, action: ACT_CRASH_BEFORE, ..Default::default() },
        1 => Fault { op: OP_WRITE, role: ROLE_OUT, nth: 1 + c.s.small(3) as u32, repeat: 1, action: ACT_CRASH_PARTIAL, arg: c.s.below(64) as u32, ..Default::default() },
        2 => Fault { op: OP_ANY, role: ROLE_ANY, nth, repeat: 1, action: ACT_CRASH_AFTER, ..Default::default() },
        3 => Fault::sticky(OP_WRITE, ROLE_OUT, 1 + c.s.small(3) as u32, *c.s.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT])),
        4 => Fault::errno(OP_READ, ROLE_IN, 1 + c.s.small(3) as u32, *c.s.pick(&[libc::EIO, libc::ESTALE])),
        _ => Fault::errno(OP_OPEN, *c.s.pick(&[ROLE_IN, ROLE_OUT]), 1, *c.s.pick(&[libc::EACCES, libc::EMFILE, libc::EROFS])),
    }
}
