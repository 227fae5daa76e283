//! C11: registration is all-or-nothing and local to one registry.
use std::collections::BTreeMap;

use prost::Message;
use substrait::proto::extensions::AdvancedExtension;
use substrait::proto::rel::RelType;
use substrait::proto::{ExtensionLeafRel, Plan, PlanRel, ReadRel, Rel, RelRoot, plan_rel, read_rel};
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::{OutputOptions, format_with_registry, parse_with_registry};

use super::Scenario;
use crate::ctx::{Ctx, Res, guard, violated};
use crate::ensure;
use crate::ext::{self, KINDS, NAMES, PKind, Payload, TYPES};
use crate::plangen;
use crate::sched;

pub static S: Scenario = Scenario {
    id: "C11",
    rule: "one evaluation = one history of registrations (some cut short by a panicking handler type), copies, descriptor additions and uses over up to five registries, in one thread and in concurrent ones, every registry compared with a set model; non-trivial = at least one registration was rejected or cut short and one succeeded",
    real: &["ExtensionRegistry", "parser and formatter for the uses"],
    stub: &["extension handler types (30 types over 15 names and 15 payload types)", "thread scheduler"],
    assumptions: &["a registration cut short by a panic in the handler type's own name() or type_url() counts as rejected"],
    quick_seconds: 40.0,
    run,
};

/// Per kind: name number to handler type.
type Kinds = [BTreeMap<usize, usize>; 4];
#[derive(Clone, Default)]
struct Model {
    k: Kinds,
    desc: std::collections::BTreeSet<Vec<u8>>,
}
impl Model {
    fn accepts(&self, kind: usize, t: usize) -> bool {
        !self.k[kind].contains_key(&TYPES[t].0) && !self.k[kind].values().any(|x| TYPES[*x].1 == TYPES[t].1)
    }
}

fn plan_with(kind: usize, any: pbjson_types::Any) -> Plan {
    let table = |read_type, adv| {
        RelType::Read(Box::new(ReadRel {
            common: Some(plangen::direct()),
            base_schema: Some(plangen::empty_schema()),
            read_type: Some(read_type),
            advanced_extension: adv,
            ..Default::default()
        }))
    };
    let named = read_rel::ReadType::NamedTable(read_rel::NamedTable { names: vec!["t".into()], advanced_extension: None });
    let r = match kind {
        0 => RelType::ExtensionLeaf(ExtensionLeafRel { common: Some(plangen::direct()), detail: Some(any) }),
        1 => table(read_rel::ReadType::ExtensionTable(read_rel::ExtensionTable { detail: Some(any) }), None),
        2 => table(named, Some(AdvancedExtension { enhancement: Some(any), ..Default::default() })),
        _ => table(named, Some(AdvancedExtension { optimization: vec![any], ..Default::default() })),
    };
    Plan {
        relations: vec![PlanRel {
            rel_type: Some(plan_rel::RelType::Root(RelRoot { input: Some(Rel { rel_type: Some(r) }), names: vec![] })),
        }],
        ..Default::default()
    }
}

fn use_it(c: &mut Ctx, who: usize, reg: &ExtensionRegistry, m: &Model) -> Res {
    let kind = c.s.idx(4);
    let u = c.s.idx(15);
    let p = Payload { positional: vec![PKind::Int(c.s.below(100) as i64).into()], ..Default::default() };
    let plan = plan_with(kind, pbjson_types::Any { type_url: ext::url(u), value: p.encode_to_vec().into() });
    let owner = m.k[kind].iter().find(|(_, t)| TYPES[**t].1 == u).map(|(n, _)| *n);
    let (text, problems) = c.must("formatting", || format_with_registry(&plan, &OutputOptions::default(), reg))?;
    match owner {
        Some(n) => {
            ensure!(
                problems.is_empty() && text.contains(&format!(":{}[", ext::written(NAMES[n]))),
                "not-usable",
                "registry {who}: payload type {u} belongs to {:?} in {:?} but formats as {text:?} with {} problems",
                NAMES[n], KINDS[kind], problems.len()
            );
            match c.must("parsing", || parse_with_registry(&text, reg).map_err(|e| e.to_string()))? {
                Ok(q) => ensure!(q == plan, "not-usable", "registry {who}: {text:?} reads back as another plan"),
                Err(e) => return violated("not-usable", format!("registry {who}: {text:?} does not read back: {e}")),
            }
        }
        None => ensure!(
            !problems.is_empty(),
            "phantom",
            "registry {who}: payload type {u} of kind {:?} was never registered successfully but formats as {text:?}",
            KINDS[kind]
        ),
    }
    // by name
    let n = c.s.idx(NAMES.len());
    let line = match kind {
        0 => format!("ExtensionLeaf:{}[7]", ext::written(NAMES[n])),
        1 => format!("Read:Extension[]\n    + Ext:{}[7]", ext::written(NAMES[n])),
        2 => format!("Read[t => ]\n    + Enh:{}[7]", ext::written(NAMES[n])),
        _ => format!("Read[t => ]\n    + Opt:{}[7]", ext::written(NAMES[n])),
    };
    let text = format!("=== Plan\nRoot[]\n  {line}\n");
    let r = c.must("parsing", || parse_with_registry(&text, reg).map_err(|e| e.to_string()))?;
    match (m.k[kind].get(&n), r) {
        (Some(t), Ok(q)) => {
            let want = ext::url(TYPES[*t].1);
            let b = q.encode_to_vec();
            ensure!(
                b.windows(want.len()).any(|w| w == want.as_bytes()),
                "wrong-handler",
                "registry {who}: {:?} of kind {:?} is the handler of {want} but produced another payload", NAMES[n], KINDS[kind]
            );
            let p = Payload { positional: vec![PKind::Int(7).into()], ..Default::default() };
            let plan = plan_with(kind, pbjson_types::Any { type_url: want.clone(), value: p.encode_to_vec().into() });
            ensure!(q == plan, "wrong-handler", "registry {who}: {text:?} parsed as {q:?}");
        }
        (Some(_), Err(e)) => return violated("not-usable", format!("registry {who}: {text:?} is not accepted: {e}")),
        (None, Ok(_)) => return violated("phantom", format!("registry {who}: {text:?} is accepted although {:?} was never registered successfully", NAMES[n])),
        (None, Err(_)) => {}
    }
    Ok(())
}

fn check(c: &mut Ctx, who: usize, reg: &ExtensionRegistry, m: &Model) -> Res {
    for k in 0..4 {
        let mut want: Vec<&str> = m.k[k].keys().map(|n| NAMES[*n]).collect();
        want.sort();
        let got = reg.extension_names(KINDS[k]);
        c.mark(got.join(",").as_bytes());
        ensure!(got == want, "names", "registry {who} lists {got:?} for {:?} instead of {want:?}", KINDS[k]);
        for (n, name) in NAMES.iter().enumerate() {
            ensure!(
                reg.has_extension(KINDS[k], name) == m.k[k].contains_key(&n),
                "has",
                "registry {who}: has_extension({:?}, {name:?}) is {}", KINDS[k], !m.k[k].contains_key(&n)
            );
        }
        for odd in ["", "simA", "SimA ", "SIMA", "type.googleapis.com/sim.P0", "Sim"] {
            ensure!(!reg.has_extension(KINDS[k], odd), "has", "registry {who} claims to have {odd:?}");
        }
    }
    let d: std::collections::BTreeSet<Vec<u8>> = reg.descriptors().iter().map(|b| b.to_vec()).collect();
    ensure!(d == m.desc, "descriptors", "registry {who} has {} descriptors, {} were added", d.len(), m.desc.len());
    Ok(())
}

fn register(reg: &mut ExtensionRegistry, m: &mut Model, t: usize, k: usize, fault: Option<(u8, u32)>) -> (Res, &'static str) {
    let ok = m.accepts(k, t);
    ext::set_registration_fault(fault);
    let r = guard(|| (TYPES[t].2)(reg, KINDS[k]).map_err(|e| e.to_string()));
    let fired = fault.is_some() && r.is_err();
    ext::set_registration_fault(None);
    match r {
        Err(p) if fired && p.contains("simulated panic") => return (Ok(()), "cut short"),
        Err(p) => return (violated("panic", format!("registration panicked: {p}")), ""),
        Ok(Ok(())) if !ok => {
            return (violated("accepted", format!("{:?} for {} was registered as {:?} although its name or payload type is taken", NAMES[TYPES[t].0], ext::url(TYPES[t].1), KINDS[k])), "");
        }
        Ok(Err(e)) if ok => {
            return (violated("rejected", format!("{:?} for {} was rejected as {:?} although its name and payload type are free: {e}", NAMES[TYPES[t].0], ext::url(TYPES[t].1), KINDS[k])), "");
        }
        Ok(_) => {}
    }
    if ok {
        m.k[k].insert(TYPES[t].0, t);
        (Ok(()), "accepted")
    } else {
        (Ok(()), "rejected")
    }
}

fn draw_reg(c: &mut Ctx) -> (usize, usize, Option<(u8, u32)>) {
    let t = c.s.idx(TYPES.len());
    let k = c.s.idx(4);
    let f = if c.s.chance(1, 6) { Some((c.s.idx(2) as u8, 1 + c.s.idx(2) as u32)) } else { None };
    (t, k, f)
}

fn run(c: &mut Ctx) -> Res {
    let mut regs: Vec<(ExtensionRegistry, Model)> = vec![(ExtensionRegistry::new(), Model::default())];
    let (mut acc, mut rej) = (0, 0);
    let steps = 4 + c.s.idx(40);
    for _ in 0..steps {
        let i = c.s.idx(regs.len());
        match c.s.weighted(&[10, 2, 3, 1, 1, 1]) {
            0 => {
                let (t, k, f) = draw_reg(c);
                let (r, m) = &mut regs[i];
                let (res, how) = register(r, m, t, k, f);
                c.log(format!("registry {i}: register {:?}/{} as {:?}: {how}", NAMES[TYPES[t].0], TYPES[t].1, KINDS[k]));
                res?;
                match how {
                    "accepted" => acc += 1,
                    "cut short" => {
                        c.fault("panic-in-registration", 1);
                        rej += 1
                    }
                    _ => {
                        c.fault("rejected-registration", 1);
                        rej += 1
                    }
                }
            }
            1 => {
                let n = (regs[i].0.clone(), regs[i].1.clone());
                c.log(format!("copy of registry {i}"));
                if regs.len() < 5 {
                    regs.push(n);
                } else {
                    let j = c.s.idx(5);
                    regs[j] = n;
                }
            }
            2 => {
                let (r, m) = regs[i].clone();
                use_it(c, i, &r, &m)?;
            }
            3 => {
                let d = vec![c.s.below(4) as u8; 3];
                regs[i].0.add_descriptor(d.clone());
                regs[i].1.desc.insert(d);
            }
            4 => {
                if regs.len() < 5 {
                    regs.push((ExtensionRegistry::default(), Model::default()));
                }
            }
            _ => {
                // several threads extend their own copies of the same registry
                let n = 2 + c.s.idx(2);
                let plans: Vec<Vec<(usize, usize, Option<(u8, u32)>)>> = (0..n).map(|_| (0..1 + c.s.idx(5)).map(|_| draw_reg(c)).collect()).collect();
                let mut outs: Vec<Option<(ExtensionRegistry, Model, Res)>> = vec![None; n];
                {
                    let base = &regs[i];
                    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
                    for (p, o) in plans.iter().zip(outs.iter_mut()) {
                        jobs.push(Box::new(move || {
                            let (mut r, mut m) = (base.0.clone(), base.1.clone());
                            let mut res = Ok(());
                            for (t, k, f) in p {
                                let (x, _) = register(&mut r, &mut m, *t, *k, *f);
                                if res.is_ok() {
                                    res = x;
                                }
                            }
                            *o = Some((r, m, res));
                        }));
                    }
                    sched::run_threads(c, jobs)?;
                }
                for o in outs.into_iter().flatten() {
                    o.2?;
                    if regs.len() < 5 {
                        regs.push((o.0, o.1));
                    } else {
                        check(c, 99, &o.0, &o.1)?;
                    }
                }
            }
        }
        if c.s.chance(1, 4) {
            let j = c.s.idx(regs.len());
            let (r, m) = regs[j].clone();
            check(c, j, &r, &m)?;
        }
    }
    if acc > 0 && rej > 0 {
        c.nontrivial();
    }
    for (i, (r, m)) in regs.iter().enumerate() {
        check(c, i, r, m)?;
        for _ in 0..2 {
            use_it(c, i, r, m)?;
        }
    }
    Ok(())
}
