//! Library calls as values, with everything that goes wrong during them, and their outcomes as bytes.
use std::cell::RefCell;
use std::sync::Arc;

use prost::Message;
use substrait::proto::Plan;
use substrait_explain::extensions::{ExtensionRegistry, ExtensionType};
use substrait_explain::{format_with_registry, parse_with_registry};

use super::util::flat;
use crate::ctx::{Ctx, Res, clip, guard};
use crate::ext::{self, HAct, HFault, KINDS, Site};
use crate::plangen::{self, Opts};
use crate::simio::{ReadPlan, SimReader, SimWriter, WritePlan};
use crate::stored::{Disp, FMTS, Fmt, cli, convert_args, damage, damage_text};

pub enum What {
    Parse(Arc<String>),
    Format(Arc<Plan>, Disp),
    Convert { args: Vec<String>, input: Arc<Vec<u8>>, rp: ReadPlan, wp: WritePlan },
    Names(ExtensionType),
}
pub struct Op {
    pub what: What,
    pub faults: Vec<HFault>,
    /// Executed by a handler in the middle of this call.
    pub inner: Option<Box<Op>>,
    pub who: String,
}

thread_local! { static INNER: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) }; }

fn part(b: &mut Vec<u8>, tag: &str, v: &[u8]) {
    b.extend_from_slice(format!("[{tag} {}] ", v.len()).as_bytes());
    b.extend_from_slice(v);
    b.push(b'\n');
}

impl Op {
    fn raw(&self, reg: &ExtensionRegistry) -> Vec<u8> {
        let mut b = vec![];
        match &self.what {
            What::Parse(t) => match parse_with_registry(t, reg) {
                Ok(p) => part(&mut b, "plan", &p.encode_to_vec()),
                Err(e) => part(&mut b, "error", e.to_string().as_bytes()),
            },
            What::Format(p, d) => {
                let (t, e) = format_with_registry(p, &d.options(), reg);
                part(&mut b, "text", t.as_bytes());
                for e in e {
                    part(&mut b, "problem", e.to_string().as_bytes());
                }
            }
            What::Convert { args, input, rp, wp } => {
                let (r, _) = SimReader::new(input, rp.clone());
                let (w, sink) = SimWriter::new(wp.clone());
                let res = cli(args).run_with_io(r, w, reg).map_err(|e| format!("{e:#}"));
                match flat(res) {
                    Ok(p) => {
                        for e in p {
                            part(&mut b, "problem", e.as_bytes());
                        }
                    }
                    Err(e) => part(&mut b, "error", e.as_bytes()),
                }
                part(&mut b, "output", &sink.borrow().bytes);
            }
            What::Names(k) => part(&mut b, "names", reg.extension_names(*k).join(",").as_bytes()),
        }
        b
    }
    /// The call and its outcome. A panic of a handler is part of the outcome.
    pub fn exec(&self, reg: &ExtensionRegistry) -> Vec<u8> {
        let saved = ext::take_plan();
        let who = ext::set_who(&self.who);
        ext::set_plan(self.faults.clone());
        let outer = INNER.with(|i| std::mem::take(&mut *i.borrow_mut()));
        if let Some(inner) = &self.inner {
            let (op, reg) = (&**inner as *const Op, reg as *const ExtensionRegistry);
            // Both outlive this call; the closure is removed below.
            ext::set_reentry(Some(Box::new(move || {
                let r = unsafe { (*op).exec(&*reg) };
                INNER.with(|i| part(&mut i.borrow_mut(), "inner", &r));
            })));
        }
        let mut b = match guard(|| self.raw(reg)) {
            Ok(b) => b,
            Err(p) => {
                let mut b = vec![];
                part(&mut b, "panic", p.as_bytes());
                b
            }
        };
        if self.inner.is_some() {
            ext::set_reentry(None);
        }
        b.extend(INNER.with(|i| std::mem::replace(&mut *i.borrow_mut(), outer)));
        ext::set_who(&who);
        ext::put_back(saved);
        crate::sched::call_finished();
        b
    }
    pub fn size(&self) -> usize {
        match &self.what {
            What::Parse(t) => t.len(),
            What::Format(p, _) => p.encoded_len(),
            What::Convert { input, .. } => input.len(),
            What::Names(_) => 0,
        }
    }
    pub fn describe(&self) -> String {
        let mut m = match &self.what {
            What::Parse(t) => format!("parse {} bytes", t.len()),
            What::Format(_, d) => format!("format {d:?}"),
            What::Convert { args, input, .. } => format!("{} of {} bytes", args.join(" "), input.len()),
            What::Names(k) => format!("names {k:?}"),
        };
        for f in &self.faults {
            m += &format!(", {:?} at {:?} call {} of {:?}", f.act, f.site, f.nth, f.which);
        }
        if let Some(i) = &self.inner {
            m += &format!(", re-entering with ({})", i.describe());
        }
        m
    }
    /// A panic that is not the simulated one.
    pub fn stray_panic(b: &[u8]) -> Option<String> {
        let s = String::from_utf8_lossy(b);
        let i = s.find("[panic ")?;
        let m = clip(&s[i..], 300);
        if m.contains("simulated panic in handler") { None } else { Some(m) }
    }
}

/// Inputs the calls of one run work on: few, so that calls meet on the same data.
pub struct Pool {
    pub plans: Vec<Arc<Plan>>,
    pub texts: Vec<Arc<String>>,
    pub files: Vec<(Fmt, Arc<Vec<u8>>)>,
}

/// Change one string or number of an encoded plan without changing its structure.
pub fn sibling(c: &mut Ctx, p: &Plan) -> Plan {
    let mut b = p.encode_to_vec();
    for _ in 0..8 {
        let letters: Vec<usize> = b.iter().enumerate().filter(|(_, x)| x.is_ascii_alphanumeric()).map(|(i, _)| i).collect();
        if letters.is_empty() {
            break;
        }
        let i = *c.s.pick(&letters);
        let old = b[i];
        b[i] = if old.is_ascii_digit() { b'0' + (old - b'0' + 1) % 10 } else { old ^ 0x03 };
        match Plan::decode(&b[..]) {
            Ok(q) if q != *p => return q,
            _ => b[i] = old,
        }
    }
    p.clone()
}

impl Pool {
    pub fn draw(c: &mut Ctx, reg: &ExtensionRegistry) -> Res<Pool> {
        let mut pool = Pool { plans: vec![], texts: vec![], files: vec![] };
        for _ in 0..1 + c.s.idx(2) {
            let o = Opts { ext: c.s.chance(4, 5), size: 1 + c.s.idx(5), depth: 1 + c.s.idx(2), big: false };
            let p = plangen::plan(&mut c.s, o);
            if c.s.chance(1, 2) {
                let q = sibling(c, &p);
                pool.plans.push(Arc::new(q));
            }
            if c.s.chance(1, 3) {
                let q = super::util::spoil(c, &p, &mut None);
                pool.plans.push(Arc::new(q));
            }
            pool.plans.push(Arc::new(p));
        }
        for p in pool.plans.clone() {
            let d = Disp::draw(&mut c.s);
            // in a process of its own: this one must not have made any call before the calls that are compared
            let t = c.fresh(3, || format_with_registry(&p, &d.options(), reg).0.into_bytes())?;
            let t = String::from_utf8_lossy(&t).into_owned();
            if c.s.chance(1, 3) {
                let (x, _) = damage_text(&mut c.s, &t);
                pool.texts.push(Arc::new(x));
            }
            let f = *c.s.pick(&FMTS);
            let mut b = f.encode(&p).unwrap_or_else(|| t.clone().into_bytes());
            if f != Fmt::Text && Fmt::encode(f, &p).is_none() {
                b = p.encode_to_vec();
            }
            if c.s.chance(1, 6) {
                b = damage(&mut c.s, &b, &[]).0;
            }
            pool.files.push((f, Arc::new(b)));
            pool.texts.push(Arc::new(t));
        }
        for p in &pool.plans {
            c.mark(&p.encode_to_vec());
        }
        Ok(pool)
    }
    pub fn op(&self, c: &mut Ctx, who: String, faults: bool, nest: usize) -> Op {
        let s = &mut c.s;
        let what = match s.weighted(&[4, 4, 3, 1]) {
            0 => What::Parse(s.pick(&self.texts).clone()),
            1 => What::Format(s.pick(&self.plans).clone(), Disp::draw(s)),
            2 => {
                let (f, b) = s.pick(&self.files).clone();
                let (mut rp, mut wp) = (ReadPlan::draw(s), WritePlan::draw(s));
                wp.buffer = 0;
                if b.len() > 20_000 {
                    rp.chunks.clear();
                    wp.chunks.clear();
                }
                let args = if f == Fmt::Text && s.chance(1, 4) {
                    vec!["validate".to_string()]
                } else {
                    let to = Fmt::draw(s);
                    convert_args(f, to, s.chance(1, 3))
                };
                What::Convert { args, input: b, rp, wp }
            }
            _ => What::Names(*s.pick(&KINDS)),
        };
        let mut op = Op { what, faults: vec![], inner: None, who };
        if faults {
            for _ in 0..s.small(2) {
                let site = *s.pick(&[Site::FromArgs, Site::FromAny, Site::ToArgs, Site::ToAny]);
                let which = if s.chance(1, 3) { Some(s.idx(ext::PLAN_NAMES)) } else { None };
                let nth = s.idx(4) as u32;
                let act = match s.weighted(&[5, 2, 1, 1, 1]) {
                    0 => HAct::Err(s.below(ext::N_ERR) as u8),
                    1 => HAct::Panic,
                    2 => HAct::SkipNamed,
                    3 => HAct::SkipPositional,
                    _ => HAct::ErrorValue,
                };
                op.faults.push(HFault::new(site, which, nth, act));
            }
            if nest > 0 && s.chance(1, 3) {
                let site = *s.pick(&[Site::FromArgs, Site::FromAny, Site::ToArgs, Site::ToAny]);
                let nth = 1 + s.idx(2) as u32;
                op.faults.insert(0, HFault::new(site, None, nth, HAct::Reenter));
                let who = format!("{}i", op.who);
                let f = c.s.chance(1, 2);
                op.inner = Some(Box::new(self.op(c, who, f, 0)));
            }
        }
        op
    }
}
