//! C13: damaged stored plans never crash the reader.
use prost::Message;
use substrait::proto::Plan;
use substrait_explain::cli::Format;
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::{format_with_registry, parse_with_registry};

use super::Scenario;
use crate::ctx::{Ctx, Res, clip};
use crate::ext;
use crate::plangen::{self, Opts};
use crate::proc::{Bin, Launch};
use crate::rot;
use crate::stored::{Disp, FMTS, Fmt, convert_args, damage, damage_text};
use crate::world::*;

pub static S: Scenario = Scenario {
    id: "C13",
    rule: "one evaluation = one stored plan damaged in a drawn way (torn, stale, flipped, lost and repeated ranges, single fields lost or overwritten, mislabelled) and read, and if it reads, formatted and encoded again, in process and as a simulated process; non-trivial = the damage changed the file",
    real: &["all four readers, the formatter and the writers", "the command-line process for a quarter of the runs"],
    stub: &["files and streams", "extension handlers"],
    assumptions: &["files up to 400 kB; undamaged nesting up to about 30 levels of relations, expressions or tuples; a run is a hang after 20 s of processor time"],
    quick_seconds: 40.0,
    run,
};

fn fmt(f: Fmt) -> Format {
    match f {
        Fmt::Text => Format::Text,
        Fmt::Json => Format::Json,
        Fmt::Yaml => Format::Yaml,
        Fmt::Proto => Format::Protobuf,
    }
}

fn bytes(c: &mut Ctx, f: Fmt, p: &Plan, reg: &ExtensionRegistry) -> Res<Vec<u8>> {
    Ok(match f.encode(p) {
        Some(b) => b,
        None => {
            let d = Disp::draw(&mut c.s);
            c.must("formatting", || format_with_registry(p, &d.options(), reg))?.0.into_bytes()
        }
    })
}

fn run(c: &mut Ctx) -> Res {
    let with_ext = c.s.chance(2, 3);
    let o = Opts { ext: with_ext, size: 1 + c.s.idx(6), depth: 1 + c.s.idx(3), big: c.s.chance(1, 30) };
    let plan = plangen::plan(&mut c.s, o);
    let full = ext::registry();
    let reg = if with_ext && c.s.chance(4, 5) { ext::registry() } else { ExtensionRegistry::default() };
    let f = *c.s.pick(&[Fmt::Text, Fmt::Proto, Fmt::Text, Fmt::Json, Fmt::Yaml]);
    let good = bytes(c, f, &plan, &full)?;
    if good.len() > 400_000 {
        return Ok(());
    }
    let (bad, what) = match c.s.idx(4) {
        0 | 1 => match f {
            Fmt::Text => {
                let (t, w) = damage_text(&mut c.s, &String::from_utf8_lossy(&good));
                (t.into_bytes(), w)
            }
            Fmt::Proto => rot::proto(&mut c.s, &good),
            f => match serde_json::to_value(&plan) {
                Ok(mut v) => {
                    let w = rot::value(&mut c.s, &mut v);
                    let b = if f == Fmt::Json { serde_json::to_vec(&v).unwrap_or_default() } else { serde_yaml::to_string(&v).unwrap_or_default().into_bytes() };
                    (b, w)
                }
                Err(_) => return Ok(()),
            },
        },
        2 => {
            // an older version of the file shines through
            let o2 = Opts { ext: with_ext, size: 3, depth: 2, big: false };
            let old = plangen::plan(&mut c.s, o2);
            let g = if c.s.chance(1, 4) { *c.s.pick(&FMTS) } else { f };
            let old = bytes(c, g, &old, &full)?;
            damage(&mut c.s, &good, &old)
        }
        _ => damage(&mut c.s, &good, &[]),
    };
    if bad != good {
        c.nontrivial();
    }
    let read_as = if c.s.chance(1, 12) { *c.s.pick(&FMTS) } else { f };
    c.log(format!("{f:?} of {} bytes, read as {read_as:?}: {}", bad.len(), clip(&what, 500)));
    if std::str::from_utf8(&bad).is_ok() && bad.len() < 4000 {
        c.note(String::from_utf8_lossy(&bad).to_string());
    }
    c.mark(&bad);
    c.fault(format!("damaged-{f:?}"), 1);
    let r = c.must("reading a damaged plan", || fmt(read_as).read_plan(&bad[..], &reg).map_err(|e| format!("{e:#}")))?;
    match &r {
        Err(e) => {
            c.probe(format!("{read_as:?}-rejected"));
            c.mark(e.as_bytes());
        }
        Ok(p) => {
            c.probe(format!("{read_as:?}-read"));
            let d = Disp::draw(&mut c.s);
            let (t, problems) = c.must("formatting a plan read from a damaged file", || {
                let (t, e) = format_with_registry(p, &d.options(), &reg);
                (t, e.iter().map(|e| e.to_string()).collect::<Vec<_>>())
            })?;
            c.mark(t.as_bytes());
            c.probe(if problems.is_empty() { "clean" } else { "problems" });
            c.must("parsing the text of a damaged plan", || parse_with_registry(&t, &reg).map(|p| p.encoded_len()).map_err(|e| e.to_string()))?.ok();
            for to in [Fmt::Json, Fmt::Yaml, Fmt::Proto] {
                let mut out = vec![];
                let w = c.must("encoding a plan read from a damaged file", || fmt(to).write_plan(&mut out, p, &Default::default(), &reg).map(|_| ()).map_err(|e| format!("{e:#}")))?;
                if w.is_ok() && c.s.chance(1, 3) {
                    c.must("reading it again", || fmt(to).read_plan(&out[..], &reg).map(|_| ()).map_err(|e| format!("{e:#}")))?.ok();
                }
            }
        }
    }
    if c.s.chance(1, 4) {
        let to = *c.s.pick(&FMTS);
        let args = if read_as == Fmt::Text && c.s.chance(1, 3) { vec!["validate".to_string()] } else { convert_args(read_as, to, c.s.chance(1, 3)) };
        let mut l = Launch { bin: if with_ext { Bin::Ext } else { Bin::Cli }, args, rand_seed: c.rand_seed(), ..Default::default() };
        if c.s.chance(1, 2) {
            c.world.put_file("/sim/in", ROLE_IN, &bad);
            l.args.extend(["-i", "/sim/in"].map(String::from));
        } else {
            l.stdin = bad.clone();
        }
        let e = c.launch(&l)?;
        crate::ensure!(
            matches!(e.code, Some(0 | 1 | 2)) && !e.err().contains("panicked at"),
            "panic",
            "the process ended with {} on a damaged plan: {}",
            e.status(),
            clip(&e.err(), 800)
        );
    }
    Ok(())
}
