//! C09: a failing extension handler is contained when formatting.
use std::collections::{BTreeMap, BTreeSet};

use prost::Message;
use substrait::proto::Plan;
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::format_with_registry;

use super::Scenario;
use crate::ctx::{Ctx, Res, clip, diff, violated};
use crate::ensure;
use crate::ext::{self, HAct, HFault, KINDS, Site};
use crate::plangen::{self, Opts, Where, tag};
use crate::proc::{Bin, Launch};
use crate::stored::{Disp, Fmt, convert_args};

pub static S: Scenario = Scenario {
    id: "C09",
    rule: "one evaluation = one plan with tagged extension payloads formatted with drawn handler failures, missing handlers and damaged payloads, in process and as a simulated process, and again with everything healthy; non-trivial = at least one extension element failed",
    real: &["formatter, registry, error collection", "the command-line process for a third of the runs"],
    stub: &["extension handlers (generic payloads, failing at drawn calls)", "streams"],
    assumptions: &["a line that shows columns of a failing relation (the relations above it) may change after its name; a panicking handler may end the call"],
    quick_seconds: 40.0,
    run,
};

fn indent(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}
fn head(l: &str) -> &str {
    &l[..l.find([':', '[']).unwrap_or(l.len())]
}
fn upto_bracket(l: &str) -> &str {
    &l[..l.find('[').unwrap_or(l.len())]
}
pub fn partial_registry(missing: &BTreeSet<(usize, usize)>) -> ExtensionRegistry {
    let mut r = ExtensionRegistry::default();
    for (k, kind) in KINDS.iter().enumerate() {
        for t in ext::TYPES.iter().filter(|t| t.0 == t.1 && t.0 < ext::PLAN_NAMES) {
            if !missing.contains(&(t.0, k)) {
                (t.2)(&mut r, *kind).expect("registration");
            }
        }
    }
    r
}
pub fn kind_index(w: Where) -> usize {
    match w {
        Where::Relation => 0,
        Where::Table => 1,
        Where::Enhancement => 2,
        Where::Optimization => 3,
    }
}

/// A tagged plan, and which of the tags ended up in it.
pub fn tagged(c: &mut Ctx, o: Opts) -> (Plan, Vec<(usize, Where)>, Vec<usize>) {
    let (plan, tags) = plangen::tagged(&mut c.s, o);
    let b = plan.encode_to_vec();
    let present = (0..tags.len()).filter(|k| {
        let t = tag(*k).into_bytes();
        b.windows(t.len()).any(|w| w == t)
    });
    let present = present.collect();
    (plan, tags, present)
}

struct Fail {
    line: usize,
    /// What the problem has to contain.
    err: String,
    relation: bool,
    value: bool,
}

fn run(c: &mut Ctx) -> Res {
    let o = Opts { ext: true, size: 1 + c.s.idx(9), depth: 1 + c.s.idx(2), big: false };
    let (plan, tags, present) = tagged(c, o);
    if present.is_empty() {
        return Ok(());
    }
    let full = ext::registry();
    let disp = Disp::draw(&mut c.s);
    ext::set_plan(vec![]);
    let (clean, problems) = c.must("formatting", || format_with_registry(&plan, &disp.options(), &full))?;
    ensure!(problems.is_empty(), "clean-problems", "a plan with healthy handlers is reported with {:?}", problems.iter().map(|p| p.to_string()).collect::<Vec<_>>());
    c.note(format!("clean text:\n{clean}"));
    c.mark(clean.as_bytes());
    let lines: Vec<&str> = clean.lines().collect();
    let mut at = BTreeMap::new();
    for &k in &present {
        let q = format!("'{}'", tag(k));
        let n: Vec<usize> = lines.iter().enumerate().filter(|(_, l)| l.contains(&q)).map(|(i, _)| i).collect();
        ensure!(n.len() == 1, "element-lost", "extension element {k} ({:?}) is shown {} times in the clean text", tags[k], n.len());
        at.insert(k, n[0]);
    }
    let rounds = 1 + c.s.idx(3);
    for _ in 0..rounds {
        // missing handlers
        let mut missing = BTreeSet::new();
        if c.s.chance(1, 3) {
            for _ in 0..1 + c.s.idx(3) {
                let (u, w) = tags[*c.s.pick(&present)];
                missing.insert((u, kind_index(w)));
            }
        }
        let reg = if missing.is_empty() { ext::registry() } else { partial_registry(&missing) };
        // damaged payloads
        let mut damaged = BTreeSet::new();
        let mut bytes = plan.encode_to_vec();
        if c.s.chance(1, 3) {
            for _ in 0..1 + c.s.idx(2) {
                let k = *c.s.pick(&present);
                let t = tag(k).into_bytes();
                if let Some(i) = bytes.windows(t.len()).position(|w| w == t) {
                    bytes[i] = 0xff;
                    damaged.insert(k);
                }
            }
        }
        let sick = Plan::decode(&bytes[..]).expect("payload damage stays inside the payload");
        let mut plan_f = vec![];
        for _ in 0..c.s.small(3) {
            let site = *c.s.pick(&[Site::FromAny, Site::ToArgs]);
            let which = if c.s.chance(1, 3) { Some(c.s.idx(ext::PLAN_NAMES)) } else { None };
            let nth = c.s.idx(tags.len() + 1) as u32;
            let act = match c.s.weighted(&[7, 2, 1]) {
                0 => HAct::Err(c.s.below(ext::N_ERR) as u8),
                1 => HAct::ErrorValue,
                _ => HAct::Panic,
            };
            plan_f.push(HFault::new(site, which, nth, act));
        }
        let mut desc = format!("missing {missing:?}, damaged {damaged:?}");
        for f in &plan_f {
            desc += &format!(", {:?} at {:?} call {} of {:?}", f.act, f.site, f.nth, f.which);
        }
        c.log(desc.clone());
        ext::set_plan(plan_f.clone());
        let r = c.call(|| format_with_registry(&sick, &disp.options(), &reg));
        let (p, _) = ext::take_plan();
        let fails = ext::take_failures();
        let panicked = p.iter().any(|f| f.fired > 0 && f.act == HAct::Panic);
        c.fault("handler-panic", panicked as u64);
        c.fault("handler-error", fails.iter().filter(|f| !f.value).count() as u64);
        c.fault("bad-value", fails.iter().filter(|f| f.value).count() as u64);
        c.fault("missing-handler", missing.len() as u64);
        c.fault("damaged-payload", damaged.len() as u64);
        match r {
            Err(m) if panicked && m.contains("simulated panic") => {}
            Err(m) => return violated("panic", format!("formatting panicked: {m} ({desc})")),
            Ok((text, problems)) => {
                if !panicked {
                    let problems: Vec<String> = problems.iter().map(|p| p.to_string()).collect();
                    let expected = expect(&sick, &tags, &at, &missing, &fails)?;
                    if !expected.is_empty() {
                        c.nontrivial();
                    }
                    check(&lines, &text, &problems, &expected, &desc)?;
                    if missing.is_empty() && c.s.chance(1, 3) {
                        process(c, &sick, disp, &plan_f, &text, &problems)?;
                    }
                }
            }
        }
        // healthy again
        ext::set_plan(vec![]);
        let (again, problems) = c.must("formatting after the failure", || format_with_registry(&plan, &disp.options(), &full))?;
        ensure!(again == clean, "not-recovered", "after {desc} the healthy text {}", diff(again.as_bytes(), clean.as_bytes()));
        ensure!(problems.is_empty(), "not-recovered", "after {desc} a healthy call reports {} problems: {}", problems.len(), problems[0]);
    }
    Ok(())
}

/// Which elements have to be marked, in line order.
fn expect(
    sick: &Plan,
    tags: &[(usize, Where)],
    at: &BTreeMap<usize, usize>,
    missing: &BTreeSet<(usize, usize)>,
    fails: &[ext::Failure],
) -> Res<Vec<Fail>> {
    let _ = sick;
    let mut v: Vec<Fail> = vec![];
    for (k, (u, w)) in tags.iter().enumerate() {
        let relation = *w == Where::Relation;
        if at.contains_key(&k) && missing.contains(&(*u, kind_index(*w))) {
            v.push(Fail { line: at[&k], err: ext::url(*u), relation, value: false });
        }
    }
    for f in fails {
        // the tag as it is in the payload, possibly with its first byte damaged
        let t = (0..tags.len()).find(|k| {
            let t = tag(*k);
            f.bytes.windows(t.len()).any(|w| w[1..] == t.as_bytes()[1..] && (w[0] == b'#' || w[0] == 0xff))
        });
        let Some(k) = t else {
            return violated("foreign-payload", format!("a handler was given a payload that is not in the plan: {}", crate::ctx::show(&f.bytes)));
        };
        v.push(Fail { line: at[&k], err: f.err.clone(), relation: tags[k].1 == Where::Relation, value: f.value });
    }
    v.sort_by_key(|f| f.line);
    // asked twice and failing alike both times: one failure to report
    v.dedup_by(|a, b| a.line == b.line && a.err == b.err);
    for w in v.windows(2) {
        ensure!(w[0].line != w[1].line, "handled-twice", "the element on line {} went to its handler twice", w[0].line + 1);
    }
    Ok(v)
}

fn check(lines: &[&str], text: &str, problems: &[String], expected: &[Fail], desc: &str) -> Res {
    let got: Vec<&str> = text.lines().collect();
    ensure!(got.len() == lines.len(), "lines-lost", "{} lines instead of {} ({desc}):\n{text}", got.len(), lines.len());
    // lines that show columns of a failed relation
    let mut above = BTreeSet::new();
    for f in expected.iter().filter(|f| f.relation && !f.value) {
        let mut d = indent(lines[f.line]);
        for i in (0..f.line).rev() {
            if lines[i].starts_with("===") || lines[i].is_empty() {
                break;
            }
            if indent(lines[i]) < d {
                d = indent(lines[i]);
                above.insert(i);
            }
        }
    }
    for (i, (l, g)) in lines.iter().zip(&got).enumerate() {
        match expected.iter().find(|f| f.line == i) {
            Some(f) => {
                ensure!(g.contains("!{"), "not-marked", "line {} is not marked although its extension failed: {g:?} ({desc})", i + 1);
                ensure!(indent(g) == indent(l) && head(g) == head(l), "misplaced", "line {} is {g:?} where a failure of {l:?} belongs ({desc})", i + 1);
                if !f.value {
                    ensure!(!g.contains("'#t"), "not-marked", "line {} still shows a payload: {g:?} ({desc})", i + 1);
                } else {
                    let k = l.find("'#t").unwrap_or(0);
                    ensure!(g.starts_with(&l[..k]), "other-line-changed", "line {} changed before the failing value: {g:?} ({desc})", i + 1);
                }
            }
            None if above.contains(&i) => {
                ensure!(upto_bracket(g) == upto_bracket(l) || g.contains("!{"), "other-line-changed", "line {} is {g:?} instead of {l:?} ({desc})", i + 1)
            }
            None => ensure!(g == l, "other-line-changed", "line {} is {g:?} instead of {l:?} although its extensions are healthy ({desc})", i + 1),
        }
    }
    // problems: one per failure, in plan order
    let mut i = 0;
    for f in expected {
        let found = problems[i..].iter().position(|p| p.contains(&f.err));
        match found {
            Some(k) => i += k + 1,
            None => {
                return violated(
                    "not-reported",
                    format!("the failure on line {} ({:?}) is not reported, or not in plan order: {} ({desc})", f.line + 1, f.err, clip(&format!("{problems:?}"), 1500)),
                );
            }
        }
    }
    if above.is_empty() {
        ensure!(
            problems.len() == expected.len(),
            "reported-twice",
            "{} problems for {} failures: {} ({desc})",
            problems.len(),
            expected.len(),
            clip(&format!("{problems:?}"), 1500)
        );
    }
    for f in expected.iter().filter(|f| f.err.contains("#t")) {
        let n = problems.iter().filter(|p| p.contains(&f.err)).count();
        ensure!(n == 1, "reported-twice", "the failure {:?} is reported {n} times ({desc})", f.err);
    }
    Ok(())
}

fn process(c: &mut Ctx, sick: &Plan, disp: Disp, faults: &[HFault], text: &str, problems: &[String]) -> Res {
    if disp.rows != 0 {
        return Ok(());
    }
    let l = Launch {
        bin: Bin::Ext,
        args: convert_args(Fmt::Proto, Fmt::Text, disp.types),
        stdin: sick.encode_to_vec(),
        env: vec![("SIM_HPLAN".into(), ext::encode_plan(faults))],
        rand_seed: c.rand_seed(),
        ..Default::default()
    };
    let e = c.launch(&l)?;
    let out = String::from_utf8_lossy(&e.stdout).to_string();
    ensure!(out.trim_end() == text.trim_end(), "process-differs", "the process writes another text: {}", diff(out.as_bytes(), text.as_bytes()));
    ensure!(e.ok() == problems.is_empty(), "process-differs", "the process ends with {} for {} problems", e.status(), problems.len());
    let err = e.err();
    for p in problems {
        ensure!(err.contains(p.as_str()), "not-reported", "the process does not report {p:?}: {}", clip(&err, 1000));
    }
    Ok(())
}
