//! Cases shared by the scenarios: an input file with its history, a command, and what an undisturbed run of
//! the library makes of it.
use prost::Message;
use substrait::proto::Plan;
use substrait_explain::cli::Outcome;
use substrait_explain::extensions::ExtensionRegistry;

use crate::ctx::{Ctx, Res, clip};
use crate::ext;
use crate::plangen::{self, Opts};
use crate::proc::Bin;
use crate::stored::{Disp, Fmt, cli, convert_args, damage, damage_text};

/// What kind of input to draw, as weights.
#[derive(Clone, Copy)]
pub struct Mix {
    pub good: u32,
    /// Decodes, but formatting has something to complain about.
    pub spoiled: u32,
    /// Stored bytes damaged.
    pub damaged: u32,
    /// Bytes of one format labelled as another.
    pub mislabelled: u32,
    /// Decodes, but has no JSON or YAML form.
    pub unencodable: u32,
    pub validate: u32,
    /// Maximum of the size option, and chance (of 100) of large payloads.
    pub size: usize,
    pub big: u64,
}
impl Default for Mix {
    fn default() -> Self {
        Mix { good: 6, spoiled: 2, damaged: 2, mislabelled: 1, unencodable: 1, validate: 1, size: 6, big: 8 }
    }
}

pub struct Case {
    pub bin: Bin,
    pub reg: ExtensionRegistry,
    pub from: Fmt,
    pub to: Fmt,
    pub validate: bool,
    pub types: bool,
    pub input: Vec<u8>,
    /// Command line without input and output.
    pub args: Vec<String>,
    pub kind: &'static str,
    /// What is certainly wrong with the plan.
    pub wrong: Option<String>,
}

/// What the library makes of a case when nothing goes wrong around it.
pub struct Refr {
    pub out: Vec<u8>,
    /// Problems reported, or the error.
    pub res: Result<Vec<String>, String>,
}
impl Refr {
    pub fn clean(&self) -> bool {
        matches!(&self.res, Ok(p) if p.is_empty())
    }
    pub fn brief(&self) -> String {
        match &self.res {
            Ok(p) if p.is_empty() => format!("ok, {} bytes", self.out.len()),
            Ok(p) => format!("{} problems, {} bytes", p.len(), self.out.len()),
            Err(e) => clip(e, 200),
        }
    }
}

/// A plan that decodes but has something wrong with it: binary damage that still decodes.
pub fn spoil(c: &mut Ctx, p: &Plan, wrong: &mut Option<String>) -> Plan {
    let mut q = p.clone();
    if c.s.chance(1, 2) {
        let w = crate::wrong::wrong(&mut c.s, &mut q);
        c.log(format!("wrong: {}", clip(&w, 300)));
        *wrong = Some(w);
        return q;
    }
    match c.s.weighted(&[6, 1, 1, 1]) {
        1 => {
            q.extensions.clear();
            return q;
        }
        2 => {
            q.extension_urns.clear();
            return q;
        }
        3 => {
            let keep = c.s.below(4);
            q.extensions.retain(|_| c.s.below(4) < keep);
            return q;
        }
        _ => {}
    }
    let b = p.encode_to_vec();
    for _ in 0..6 {
        let (d, _) = damage(&mut c.s, &b, &b);
        if let Ok(q) = Plan::decode(&d[..]) {
            if q != *p {
                return q;
            }
        }
    }
    q.extensions.clear();
    q
}

pub fn case(c: &mut Ctx, m: Mix) -> Res<Case> {
    let with_ext = c.s.chance(1, 2);
    let bin = if with_ext && c.s.chance(4, 5) { Bin::Ext } else { Bin::Cli };
    let reg = if bin == Bin::Ext { ext::registry() } else { ExtensionRegistry::default() };
    let o = Opts { ext: with_ext, size: 1 + c.s.idx(m.size), depth: 1 + c.s.idx(3), big: c.s.chance(m.big, 100) };
    let plan = plangen::plan(&mut c.s, o);
    let mut kind = ["good", "spoiled", "damaged", "mislabelled", "unencodable"][c.s.weighted(&[m.good, m.spoiled, m.damaged, m.mislabelled, m.unencodable])];
    let validate = c.s.chance(m.validate as u64, (m.validate + 5) as u64);
    let mut from = if validate { Fmt::Text } else { *c.s.pick(&[Fmt::Text, Fmt::Proto, Fmt::Json, Fmt::Yaml]) };
    let to = if validate { Fmt::Text } else { *c.s.pick(&[Fmt::Text, Fmt::Proto, Fmt::Json, Fmt::Yaml]) };
    let types = !validate && c.s.chance(1, 4);
    let mut wrong = None;
    let plan = match kind {
        "spoiled" => spoil(c, &plan, &mut wrong),
        "unencodable" => {
            let mut p = plan;
            plangen::bad_enum(&mut p);
            if !validate {
                from = Fmt::Proto;
            }
            p
        }
        _ => plan,
    };
    let encode = |c: &mut Ctx, f: Fmt, p: &Plan| -> Res<Vec<u8>> {
        Ok(match f {
            Fmt::Text => {
                let full = ext::registry();
                let d = Disp::draw(&mut c.s);
                let (t, _) = c.must("formatting", || substrait_explain::format_with_registry(p, &d.options(), &full))?;
                t.into_bytes()
            }
            f => match f.encode(p) {
                Some(b) => b,
                None => p.encode_to_vec(),
            },
        })
    };
    let mut input = encode(c, from, &plan)?;
    match kind {
        "damaged" => {
            let what;
            if from == Fmt::Text && c.s.chance(1, 2) {
                let t = String::from_utf8_lossy(&input).to_string();
                let (t, w) = damage_text(&mut c.s, &t);
                (input, what) = (t.into_bytes(), w);
            } else {
                let other = input.iter().rev().copied().collect::<Vec<u8>>();
                (input, what) = damage(&mut c.s, &input, &other);
            }
            c.log(format!("damage: {}", clip(&what, 300)));
        }
        "mislabelled" => {
            if !validate {
                from = *c.s.pick(&[Fmt::Json, Fmt::Text, Fmt::Yaml, Fmt::Proto]);
            } else {
                kind = "good";
            }
        }
        _ => {}
    }
    let args = if validate { vec!["validate".to_string()] } else { convert_args(from, to, types) };
    if input.len() > 400_000 {
        input.truncate(400_000);
    }
    c.log(format!("case: {kind} {} bytes as {from:?}, {}", input.len(), args.join(" ")));
    c.mark(&input);
    Ok(Case { bin, reg, from, to, validate, types, input, args, kind, wrong })
}

/// Run the case in process on perfect streams.
pub fn reference(c: &mut Ctx, k: &Case) -> Res<Refr> {
    let cmd = cli(&k.args);
    let mut out = vec![];
    let r = c.must("the undisturbed run", || cmd.run_with_io(&k.input[..], &mut out, &k.reg).map_err(|e| format!("{e:#}")))?;
    let r = Refr { out, res: flat(r) };
    c.log(format!("reference: {}", r.brief()));
    c.mark(&r.out);
    Ok(r)
}
pub fn flat(r: Result<Outcome, String>) -> Result<Vec<String>, String> {
    match r {
        Ok(Outcome::Success) => Ok(vec![]),
        Ok(Outcome::HadFormattingIssues(e)) => Ok(e.iter().map(|e| e.to_string()).collect()),
        Err(e) => Err(e),
    }
}
