//! C10: a failing extension handler is never swallowed when parsing.
use std::collections::{BTreeMap, BTreeSet};

use prost::Message;
use substrait_explain::{format_with_registry, parse_with_registry};

use super::Scenario;
use super::c09::{kind_index, partial_registry, tagged};
use crate::ctx::{Ctx, Res, clip, violated};
use crate::ensure;
use crate::ext::{self, HAct, HFault, Site};
use crate::plangen::{Opts, tag};
use crate::proc::{Bin, Launch};
use crate::stored::{Disp, Fmt, convert_args};

pub static S: Scenario = Scenario {
    id: "C10",
    rule: "one evaluation = one text plan with tagged extension payloads parsed with drawn handler failures and missing handlers, in process and as a simulated process, and again with everything healthy; non-trivial = at least one extension element failed",
    real: &["parser, registry", "Cli::run_with_io and the command-line process for part of the runs"],
    stub: &["extension handlers (generic payloads, failing at drawn calls)", "streams"],
    assumptions: &["a panicking handler may end the call"],
    quick_seconds: 40.0,
    run,
};

/// An addendum where a torn or repeated write may have put it: taken into the plan, or an error.
fn stray(c: &mut Ctx, text: &str, full: &substrait_explain::extensions::ExtensionRegistry) -> Res {
    if !c.s.chance(1, 3) {
        return Ok(());
    }
    let mut lines: Vec<String> = text.lines().map(String::from).collect();
    let Some(start) = lines.iter().position(|l| l == "=== Plan") else { return Ok(()) };
    let adds: Vec<String> = lines.iter().filter(|l| l.trim_start().starts_with("+ ")).map(|l| l.trim_start().to_string()).collect();
    let known = !adds.is_empty() && c.s.chance(2, 3);
    let add = if known { c.s.pick(&adds).clone() } else { format!("+ {}:Nobody{}", c.s.pick(&["Opt", "Enh", "Ext"]), c.s.pick(&["[_]", "['#t77#']", "[a=1]"])) };
    let i = start + 1 + c.s.idx(lines.len() - start);
    // below the line it follows, or somewhere else
    let around = lines[i - 1].len() - lines[i - 1].trim_start().len();
    let depth = if c.s.chance(2, 3) { around + 2 } else { 2 * c.s.idx(6) };
    lines.insert(i, format!("{}{add}", " ".repeat(depth)));
    let t = lines.join("\n") + "\n";
    c.note(format!("with a stray line {}: {}", i + 1, lines[i]));
    ext::set_plan(vec![]);
    let r = c.must("parsing", || parse_with_registry(&t, full).map_err(|e| e.to_string()))?;
    if let Ok(p) = r {
        ensure!(known, "swallowed", "line {} uses an extension nobody registered, yet a plan was returned:\n{t}", i + 1);
        let b = p.encode_to_vec();
        let n = |hay: &[u8]| hay.windows(2).filter(|w| w == b"#t").count();
        ensure!(n(&b) == n(t.as_bytes()), "swallowed", "{} extension payloads in the text, {} in the plan, and no error:\n{t}", n(t.as_bytes()), n(&b));
    }
    Ok(())
}

fn run(c: &mut Ctx) -> Res {
    let o = Opts { ext: true, size: 1 + c.s.idx(9), depth: 1 + c.s.idx(2), big: false };
    let (plan, tags, present) = tagged(c, o);
    if present.is_empty() {
        return Ok(());
    }
    let full = ext::registry();
    let disp = Disp::draw(&mut c.s);
    ext::set_plan(vec![]);
    let (mut text, _) = c.must("formatting", || format_with_registry(&plan, &disp.options(), &full))?;
    if c.s.chance(1, 4) {
        text = super::c17::spread(&mut c.s, &text);
    }
    c.note(format!("text:\n{}", clip(&text, 20_000)));
    c.mark(text.as_bytes());
    let mut at: BTreeMap<String, usize> = BTreeMap::new();
    for &k in &present {
        let q = format!("'{}'", tag(k));
        if let Some(i) = text.lines().position(|l| l.contains(&q)) {
            at.insert(tag(k), i + 1);
        }
    }
    // what a healthy parse gives, and in which order it goes to the handlers
    ext::set_plan(vec![]);
    let healthy = c.must("parsing", || parse_with_registry(&text, &full).map_err(|e| e.to_string()))?;
    let want = match healthy {
        Ok(p) => p,
        Err(e) => return violated("undisturbed-failure", format!("healthy handlers, but: {e}\n{text}")),
    };
    ensure!(want.encode_to_vec() == plan.encode_to_vec(), "plan-changed", "the healthy parse gives another plan than the one formatted");
    let order = ext::take_seen();
    let calls = |s: Site| order.iter().filter(|x| x.0 == s).map(|x| x.1.clone()).collect::<Vec<_>>();
    let (from_args, to_any) = (calls(Site::FromArgs), calls(Site::ToAny));
    for (t, l) in &at {
        ensure!(from_args.iter().filter(|x| *x == t).count() == 1, "handler-not-asked", "the extension on line {l} was parsed without asking its handler once: {from_args:?}");
    }
    stray(c, &text, &full)?;
    let rounds = 1 + c.s.idx(3);
    for _ in 0..rounds {
        let mut missing = BTreeSet::new();
        if c.s.chance(1, 4) {
            for _ in 0..1 + c.s.idx(2) {
                let (u, w) = tags[*c.s.pick(&present)];
                missing.insert((u, kind_index(w)));
            }
        }
        let reg = if missing.is_empty() { ext::registry() } else { partial_registry(&missing) };
        let mut faults = vec![];
        for _ in 0..if missing.is_empty() { 1 + c.s.small(2) } else { c.s.small(2) } {
            let site = *c.s.pick(&[Site::FromArgs, Site::ToAny]);
            let n = if site == Site::FromArgs { from_args.len() } else { to_any.len() };
            let nth = 1 + c.s.idx(n) as u32;
            let act = match c.s.weighted(&[7, 2, 2, 1]) {
                0 => HAct::Err(c.s.below(ext::N_ERR) as u8),
                1 if site == Site::FromArgs => HAct::SkipNamed,
                2 if site == Site::FromArgs => HAct::SkipPositional,
                _ => HAct::Panic,
            };
            if !faults.iter().any(|f: &HFault| f.site == site && f.nth == nth) {
                faults.push(HFault::new(site, None, nth, act));
            }
        }
        let mut desc = format!("missing {missing:?}");
        for f in &faults {
            desc += &format!(", {:?} at {:?} call {}", f.act, f.site, f.nth);
        }
        c.log(desc.clone());
        // lines that may be blamed: missing extensions, and those of the failing calls
        let mut blamed: BTreeSet<usize> = BTreeSet::new();
        for &k in &present {
            let (u, w) = tags[k];
            if missing.contains(&(u, kind_index(w))) {
                blamed.extend(at.get(&tag(k)));
            }
        }
        for f in &faults {
            let t = if f.site == Site::FromArgs { &from_args } else { &to_any }[f.nth as usize - 1].clone();
            let named = has_named(&text, at.get(&t).copied().unwrap_or(0), &t);
            if f.act == HAct::SkipNamed && !named {
                continue;
            }
            blamed.extend(at.get(&t));
        }
        let via_cli = c.s.chance(1, 3);
        let args = if c.s.chance(1, 3) { vec!["validate".to_string()] } else { convert_args(Fmt::Text, *c.s.pick(&[Fmt::Proto, Fmt::Json, Fmt::Text]), false) };
        ext::set_plan(faults.clone());
        let mut out = vec![];
        let r = if via_cli {
            c.call(|| crate::stored::cli(&args).run_with_io(text.as_bytes(), &mut out, &reg).map(|_| Default::default()).map_err(|e| format!("{e:#}")))
        } else {
            c.call(|| parse_with_registry(&text, &reg).map_err(|e| e.to_string()))
        };
        let (p, _) = ext::take_plan();
        let panicked = p.iter().any(|f| f.fired > 0 && f.act == HAct::Panic);
        for f in &p {
            c.fault(format!("handler-{}", match f.act {
                HAct::Err(_) => "error",
                HAct::Panic => "panic",
                _ => "skips-arguments",
            }), f.fired as u64);
        }
        c.fault("missing-handler", missing.len() as u64);
        if !blamed.is_empty() {
            c.nontrivial();
        }
        match r {
            Err(m) if panicked && m.contains("simulated panic") => {}
            Err(m) => return violated("panic", format!("parsing panicked: {m} ({desc})")),
            Ok(Ok(q)) => {
                let q: substrait::proto::Plan = q;
                ensure!(
                    blamed.is_empty(),
                    "swallowed",
                    "an extension on one of the lines {blamed:?} failed, yet a plan was returned{} ({desc})\n{text}",
                    if via_cli { String::new() } else { format!(", {} the healthy one", if q == want { "the same as" } else { "different from" }) }
                );
                if !via_cli {
                    ensure!(q == want, "plan-changed", "nothing failed, yet the plan differs ({desc})");
                }
            }
            Ok(Err(e)) => {
                ensure!(!blamed.is_empty(), "undisturbed-failure", "nothing failed, yet parsing reports {e} ({desc})");
                ensure!(out.is_empty(), "swallowed", "{} bytes of output from a failed parse ({desc})", out.len());
                ensure!(
                    blamed.iter().any(|l| e.contains(&format!("line {l}:"))),
                    "wrong-line",
                    "extensions on lines {blamed:?} failed, the error is: {} ({desc})",
                    clip(&e, 800)
                );
            }
        }
        if missing.is_empty() && !panicked && c.s.chance(1, 4) {
            let l = Launch {
                bin: Bin::Ext,
                args: args.clone(),
                stdin: text.clone().into_bytes(),
                env: vec![("SIM_HPLAN".into(), ext::encode_plan(&faults))],
                rand_seed: c.rand_seed(),
                ..Default::default()
            };
            let e = c.launch(&l)?;
            if !blamed.is_empty() {
                ensure!(!e.ok(), "swallowed", "an extension on one of the lines {blamed:?} failed, yet the process succeeded ({desc})");
                ensure!(e.stdout.is_empty(), "swallowed", "an extension on one of the lines {blamed:?} failed, yet the process wrote {} bytes ({desc})", e.stdout.len());
                if !faults.iter().any(|f| f.act == HAct::Panic) {
                    let err = e.err();
                    ensure!(blamed.iter().any(|l| err.contains(&format!("line {l}:"))), "wrong-line", "extensions on lines {blamed:?} failed, the process reports: {} ({desc})", clip(&err, 800));
                }
            } else {
                ensure!(e.ok(), "undisturbed-failure", "nothing failed, yet the process reports {} ({desc})", e.err());
            }
        }
        // healthy again
        ext::set_plan(vec![]);
        let again = c.must("parsing after the failure", || parse_with_registry(&text, &full).map_err(|e| e.to_string()))?;
        match again {
            Ok(p) => ensure!(p == want, "not-recovered", "after {desc} the healthy parse gives another plan"),
            Err(e) => return violated("not-recovered", format!("after {desc} the healthy parse fails: {e}")),
        }
    }
    Ok(())
}

/// Does the element with this tag have named arguments? Taken from the payload of the healthy parse's text line.
fn has_named(text: &str, line: usize, t: &str) -> bool {
    let Some(l) = text.lines().nth(line.wrapping_sub(1)) else { return false };
    let Some(i) = l.find(&format!("'{t}'")) else { return false };
    // strings cannot fake this: outside quotes, a named argument is written name=
    let mut quoted = None;
    let b: Vec<char> = l[i..].chars().collect();
    let mut j = 0;
    while j < b.len() {
        match (quoted, b[j]) {
            (Some(_), '\\') => j += 1,
            (Some(q), x) if x == q => quoted = None,
            (None, '\'' | '"') => quoted = Some(b[j]),
            (None, '=') if b.get(j + 1) == Some(&'>') => return false,
            (None, '=') => return true,
            _ => {}
        }
        j += 1;
    }
    false
}
