//! C12: every supplied extension argument is accounted for.
use std::cell::RefCell;
use std::collections::BTreeSet;

use prost::Message;
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, EnumValue, Explainable, Expr, ExtensionArgs, ExtensionColumn, ExtensionContext,
    ExtensionError, ExtensionRegistry, ExtensionValue, TupleValue,
};
use substrait_explain::parse_with_registry;

use super::Scenario;
use crate::ctx::{Ctx, Res, clip, violated};
use crate::ensure;
use crate::ext::{self, KINDS, PKind, PTuple, PVal, from_value, to_value, written};
use crate::plangen;
use crate::src::Src;

pub static S: Scenario = Scenario {
    id: "C12",
    rule: "one evaluation = one text with one to four extension elements (or argument lists built directly), whose handlers each follow a drawn script of accesses - reads by position, name and type, of present and absent arguments, repeated, re-entrant, failing or panicking in between - compared with a model of which arguments were looked at and with which values; non-trivial = at least one argument was supplied",
    real: &["text parser for extension lines", "ExtensionArgs, ArgsAccess, value conversions, ExtensionRegistry"],
    stub: &["extension handlers (scripted)"],
    assumptions: &["an argument asked for as the wrong type counts as looked at, as documented"],
    quick_seconds: 40.0,
    run,
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty {
    I64,
    F64,
    Bool,
    Str,
    String,
    Enum,
    Tuple,
    Ref,
    Expr,
}
const TYS: [Ty; 9] = [Ty::I64, Ty::Str, Ty::Bool, Ty::F64, Ty::String, Ty::Enum, Ty::Tuple, Ty::Ref, Ty::Expr];

#[derive(Clone, Debug)]
enum Acc {
    Positional,
    Raw(String),
    Get(String, Ty, bool),
    Expect(String, Ty, bool),
    Elements(String, Ty, bool),
    Columns,
    /// Parse another argument list with the same names in between.
    Reenter,
    Panic,
}
#[derive(Clone, Debug, Default)]
struct Script {
    acc: Vec<Acc>,
    /// What the handler finally returns.
    fail: Option<u8>,
    nested: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    obs: Vec<String>,
    /// The handler's own error.
    err: Option<String>,
}

thread_local! {
    static SCRIPTS: RefCell<Vec<Script>> = const { RefCell::new(Vec::new()) };
    static OBS: RefCell<Vec<(usize, Seen)>> = const { RefCell::new(Vec::new()) };
}

fn pv(v: &PVal) -> String {
    match &v.kind {
        Some(PKind::Float(f)) => format!("float {:016x}", f.to_bits()),
        Some(PKind::Expr(e)) => format!("expr {}", e.encode_to_vec().iter().map(|b| format!("{b:02x}")).collect::<String>()),
        Some(PKind::Tuple(t)) => format!("({})", t.items.iter().map(pv).collect::<Vec<_>>().join("; ")),
        k => format!("{k:?}"),
    }
}
fn pvs(v: &[PVal]) -> String {
    v.iter().map(pv).collect::<Vec<_>>().join(" | ")
}
fn expr_of(e: substrait::proto::Expression) -> PVal {
    PKind::Expr(e).into()
}

/// What asking for a value as a type gives, in the model.
fn model_as(v: &PVal, t: Ty) -> Option<String> {
    let k = v.kind.as_ref()?;
    Some(match (t, k) {
        (Ty::I64, PKind::Int(_)) | (Ty::F64, PKind::Float(_)) | (Ty::Bool, PKind::Bool(_)) => pv(v),
        (Ty::Str | Ty::String, PKind::Str(_)) | (Ty::Enum, PKind::Enum(_)) | (Ty::Tuple, PKind::Tuple(_)) => pv(v),
        (Ty::Ref, PKind::Expr(e)) if *e == plangen::field(field_of(e)?) => format!("ref {}", field_of(e)?),
        (Ty::Expr, PKind::Expr(_)) => pv(v),
        (Ty::Expr, PKind::Int(i)) => pv(&expr_of(plangen::lit(LT::I64(*i)))),
        (Ty::Expr, PKind::Float(f)) => pv(&expr_of(plangen::lit(LT::Fp64(*f)))),
        (Ty::Expr, PKind::Str(s)) => pv(&expr_of(plangen::lit(LT::String(s.clone())))),
        (Ty::Expr, PKind::Bool(b)) => pv(&expr_of(plangen::lit(LT::Boolean(*b)))),
        _ => return None,
    })
}
use substrait::proto::expression::literal::LiteralType as LT;
fn field_of(e: &substrait::proto::Expression) -> Option<i32> {
    (0..64).find(|i| *e == plangen::field(*i))
}

fn real_as<'a>(v: &'a ExtensionValue, t: Ty) -> Result<String, ExtensionError> {
    Ok(match t {
        Ty::I64 => pv(&PKind::Int(i64::try_from(v)?).into()),
        Ty::F64 => pv(&PKind::Float(f64::try_from(v)?).into()),
        Ty::Bool => pv(&PKind::Bool(bool::try_from(v)?).into()),
        Ty::Str => pv(&PKind::Str(<&str>::try_from(v)?.to_string()).into()),
        Ty::String => pv(&PKind::Str(String::try_from(v)?).into()),
        Ty::Enum => pv(&PKind::Enum(EnumValue::try_from(v)?.0).into()),
        Ty::Tuple => tup(<&TupleValue>::try_from(v)?),
        Ty::Ref => match Expr::try_from(v)?.as_direct_reference() {
            Some(i) => format!("ref {i}"),
            None => return Err(ExtensionError::Custom("not a reference".into())),
        },
        Ty::Expr => pv(&expr_of(Expr::try_from(v)?.to_proto())),
    })
}
fn tup(t: &TupleValue) -> String {
    pv(&PKind::Tuple(PTuple { items: t.iter().map(from_value).collect() }).into())
}
/// The value as itself, so that the generic accessors can be driven with every type.
struct Conv<const T: usize>(String);
impl<'a, const T: usize> TryFrom<&'a ExtensionValue> for Conv<T> {
    type Error = ExtensionError;
    fn try_from(v: &'a ExtensionValue) -> Result<Self, ExtensionError> {
        real_as(v, TYS[T]).map(Conv)
    }
}
macro_rules! by_type {
    ($t:expr, |$c:ident| $e:expr) => {
        match TYS.iter().position(|x| *x == $t).unwrap() {
            0 => { type $c = Conv<0>; $e }
            1 => { type $c = Conv<1>; $e }
            2 => { type $c = Conv<2>; $e }
            3 => { type $c = Conv<3>; $e }
            4 => { type $c = Conv<4>; $e }
            5 => { type $c = Conv<5>; $e }
            6 => { type $c = Conv<6>; $e }
            7 => { type $c = Conv<7>; $e }
            _ => { type $c = Conv<8>; $e }
        }
    };
}

/// Scripted handler number N.
struct Probe<const N: usize>;
const PROBES: [&str; 5] = ["Probe0", "Probe1", "Probe2", "Probe3", "probe in"];

impl<const N: usize> AnyConvertible for Probe<N> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), format!("payload of {N}").into_bytes()))
    }
    fn from_any<'a>(_: AnyRef<'a>) -> Result<Self, ExtensionError> {
        Ok(Probe)
    }
    fn type_url() -> String {
        format!("sim/probe{N}")
    }
}
impl<const N: usize> Explainable for Probe<N> {
    fn name() -> &'static str {
        PROBES[N]
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let script = SCRIPTS.with(|s| s.borrow().get(N).cloned()).unwrap_or_default();
        let mut obs = vec![];
        let r = follow(&script, args, &mut obs);
        OBS.with(|o| o.borrow_mut().push((N, Seen { obs, err: r.as_ref().err().map(|e| e.to_string()) })));
        r.map(|_| Probe)
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        Ok(ExtensionArgs::default())
    }
}

fn follow(script: &Script, args: &mut ArgsAccess<'_>, obs: &mut Vec<String>) -> Result<(), ExtensionError> {
    for a in &script.acc {
        let (o, propagate): (Result<String, ExtensionError>, bool) = match a {
            Acc::Positional => (Ok(pvs(&args.positional().iter().map(from_value).collect::<Vec<_>>())), true),
            Acc::Raw(n) => (Ok(args.get_named_arg(n).map(|v| pv(&from_value(v))).unwrap_or("absent".into())), true),
            Acc::Get(n, t, p) => (by_type!(*t, |C| args.get_named::<C>(n).map(|x| x.map(|x| x.0).unwrap_or("absent".into()))), *p),
            Acc::Expect(n, t, p) => (by_type!(*t, |C| args.expect_named::<C>(n).map(|x| x.0)), *p),
            Acc::Elements(n, t, p) => (
                by_type!(*t, |C| args.get_named_tuple::<C>(n).map(|x| x
                    .map(|x| x.iter().map(|y| y.0.clone()).collect::<Vec<_>>().join(" | "))
                    .unwrap_or("absent".into()))),
                *p,
            ),
            Acc::Columns => (
                Ok(args
                    .output_columns()
                    .iter()
                    .map(|c| match c {
                        ExtensionColumn::Named { name, .. } => format!("column {name}"),
                        ExtensionColumn::Expr(e) => pv(&expr_of(e.to_proto())),
                    })
                    .collect::<Vec<_>>()
                    .join(" | ")),
                true,
            ),
            Acc::Reenter => {
                let mut inner = ExtensionArgs::default();
                inner.push(1i64);
                for n in &script.nested {
                    inner.insert(n.clone(), 5i64);
                }
                let nested = Script { acc: std::iter::once(Acc::Positional).chain(script.nested.iter().map(|n| Acc::Raw(n.clone()))).collect(), ..Default::default() };
                let saved = SCRIPTS.with(|s| std::mem::replace(&mut *s.borrow_mut(), vec![nested; 5]));
                let keep = OBS.with(|o| std::mem::take(&mut *o.borrow_mut()));
                let r = inner.parse::<Probe<4>>();
                SCRIPTS.with(|s| *s.borrow_mut() = saved);
                OBS.with(|o| *o.borrow_mut() = keep);
                (r.map(|_| "nested fine".to_string()), true)
            }
            Acc::Panic => panic!("simulated panic in handler"),
        };
        match o {
            Ok(o) => obs.push(o),
            Err(e) => {
                obs.push("error".into());
                if propagate {
                    return Err(e);
                }
            }
        }
    }
    match script.fail {
        Some(v) => Err(ext::make_err(v, "the script")),
        None => Ok(()),
    }
}

/// Arguments of one element, as supplied.
#[derive(Clone, Debug, Default)]
struct Supplied {
    pos: Vec<PVal>,
    named: Vec<(String, PVal)>,
    cols: Vec<String>,
    kind: usize,
    dup: bool,
}

/// What has to happen: observations, the handler's own failure (with or without known text), acceptance.
struct Verdict {
    obs: Vec<String>,
    own: bool,
    panics: bool,
    accept: bool,
}
fn model(a: &Supplied, s: &Script) -> Verdict {
    let mut v = Verdict { obs: vec![], own: false, panics: false, accept: false };
    let mut read: BTreeSet<String> = BTreeSet::new();
    let mut pos = false;
    let get = |n: &str| a.named.iter().find(|x| x.0 == n).map(|x| &x.1);
    for acc in &s.acc {
        let (r, propagate): (Option<String>, bool) = match acc {
            Acc::Positional => {
                pos = true;
                (Some(pvs(&a.pos)), true)
            }
            Acc::Raw(n) => {
                if get(n).is_some() {
                    read.insert(n.clone());
                }
                (Some(get(n).map(pv).unwrap_or("absent".into())), true)
            }
            Acc::Get(n, t, p) | Acc::Expect(n, t, p) => {
                let r = match get(n) {
                    Some(x) => {
                        read.insert(n.clone());
                        model_as(x, *t)
                    }
                    None if matches!(acc, Acc::Get(..)) => Some("absent".into()),
                    None => None,
                };
                (r, *p)
            }
            Acc::Elements(n, t, p) => {
                let r = match get(n) {
                    Some(x) => {
                        read.insert(n.clone());
                        match &x.kind {
                            Some(PKind::Tuple(items)) => items.items.iter().map(|i| model_as(i, *t)).collect::<Option<Vec<_>>>().map(|v| v.join(" | ")),
                            _ => None,
                        }
                    }
                    None => Some("absent".into()),
                };
                (r, *p)
            }
            Acc::Columns => (Some(a.cols.join(" | ")), true),
            Acc::Reenter => (Some("nested fine".into()), true),
            Acc::Panic => {
                v.panics = true;
                return v;
            }
        };
        match r {
            Some(o) => v.obs.push(o),
            None => {
                v.obs.push("error".into());
                if propagate {
                    v.own = true;
                    return v;
                }
            }
        }
    }
    if s.fail.is_some() {
        v.own = true;
        return v;
    }
    v.accept = (a.pos.is_empty() || pos) && a.named.iter().all(|n| read.contains(&n.0));
    v
}

fn value(s: &mut Src, depth: usize) -> PVal {
    match s.weighted(&[3, 3, 2, 2, 1, 2, 2, 2, if depth > 0 { 3 } else { 0 }]) {
        0 => PKind::Int(*s.pick(&[0, 1, -1, 42, i64::MAX, i64::MIN])).into(),
        1 => PKind::Str(s.pick(&["", "x", "it's", "a=1", "], [", "back\\slash", "new\nline", "ünï"]).to_string()).into(),
        2 => PKind::Bool(s.chance(1, 2)).into(),
        3 => PKind::Float(*s.pick(&[1.5, -0.25, 2.0, 1e20])).into(),
        4 => PKind::Null(true).into(),
        5 => PKind::Enum(s.pick(&["HASH", "Inner", "x_1"]).to_string()).into(),
        6 => PKind::Expr(plangen::field(s.idx(4) as i32)).into(),
        7 => PKind::Expr(plangen::lit(LT::I32(s.idx(9) as i32))).into(),
        _ => PKind::Tuple(PTuple { items: (0..s.idx(4)).map(|_| value(s, depth - 1)).collect() }).into(),
    }
}
/// A value in the text format, written without the code under test.
fn write(v: &PVal) -> String {
    let quote = |s: &str| {
        let mut o = String::from("'");
        for c in s.chars() {
            match c {
                '\'' => o += "\\'",
                '\\' => o += "\\\\",
                '\n' => o += "\\n",
                c => o.push(c),
            }
        }
        o + "'"
    };
    match v.kind.as_ref().unwrap() {
        PKind::Int(i) => i.to_string(),
        PKind::Str(s) => quote(s),
        PKind::Bool(b) => b.to_string(),
        PKind::Float(f) => {
            let t = f.to_string();
            if t.contains('.') { t } else { t + ".0" }
        }
        PKind::Null(_) => "null".into(),
        PKind::Enum(e) => format!("&{e}"),
        PKind::Expr(e) => match field_of(e) {
            Some(i) => format!("${i}"),
            None => match &e.rex_type {
                Some(substrait::proto::expression::RexType::Literal(l)) => match l.literal_type {
                    Some(LT::I32(i)) => format!("{i}:i32"),
                    _ => unreachable!(),
                },
                _ => unreachable!(),
            },
        },
        PKind::Tuple(t) if t.items.len() == 1 => format!("({},)", write(&t.items[0])),
        PKind::Tuple(t) => format!("({})", t.items.iter().map(write).collect::<Vec<_>>().join(", ")),
    }
}

const NAMES: [&str; 8] = ["a", "b", "count", "Count", "mode", "max rows", "aa", "x1"];

/// An argument name: mostly one of a few, else anything that can be quoted.
fn arg_name(s: &mut Src) -> String {
    if s.chance(4, 5) {
        return s.pick(&NAMES).to_string();
    }
    let n = s.small(12);
    (0..n).map(|_| *s.pick(&['a', '_', 'b', 'A', '1', '-', ' ', '.', ':', '#', '$', '&', '+', '\'', '"', '\\', '=', ',', ']', ')', '/', 'é', 'ß', '⇒', '\u{200b}', '\t'])).collect()
}

fn supplied(s: &mut Src) -> Supplied {
    let mut a = Supplied { kind: s.idx(4), ..Default::default() };
    for _ in 0..s.small(3) {
        a.pos.push(value(s, 2));
    }
    let n = s.small(5);
    for _ in 0..n {
        let name = arg_name(s);
        if !a.named.iter().any(|x| x.0 == name) {
            a.named.push((name, value(s, 2)));
        }
    }
    a
}
fn script(s: &mut Src, a: &Supplied) -> Script {
    let mut v = Script::default();
    let mut names: Vec<String> = a.named.iter().map(|x| x.0.clone()).collect();
    // a handler that reads everything, with something changed
    let mut acc = vec![];
    if !a.pos.is_empty() || s.chance(1, 2) {
        acc.push(Acc::Positional);
    }
    for (n, val) in &a.named {
        let good: Vec<Ty> = TYS.iter().copied().filter(|t| model_as(val, *t).is_some()).collect();
        let p = s.chance(2, 3);
        acc.push(match s.idx(4) {
            0 => Acc::Raw(n.clone()),
            1 if !good.is_empty() => Acc::Get(n.clone(), *s.pick(&good), p),
            2 if !good.is_empty() => Acc::Expect(n.clone(), *s.pick(&good), p),
            3 if matches!(val.kind, Some(PKind::Tuple(_))) => Acc::Elements(n.clone(), *s.pick(&TYS), p),
            _ => Acc::Get(n.clone(), *s.pick(&TYS), p),
        });
    }
    for _ in 0..s.small(2) {
        if !acc.is_empty() {
            let i = s.idx(acc.len());
            acc.remove(i);
        }
    }
    names.extend(NAMES.iter().map(|n| n.to_string()));
    for _ in 0..s.small(3) {
        let n = s.pick(&names).clone();
        let p = s.chance(1, 2);
        let t = *s.pick(&TYS);
        let x = match s.idx(8) {
            0 => Acc::Raw(n),
            1 => Acc::Get(n, t, p),
            2 => Acc::Expect(n, t, p),
            3 => Acc::Elements(n, t, p),
            4 => Acc::Positional,
            5 => Acc::Columns,
            6 => Acc::Reenter,
            _ => Acc::Raw(n + "x"),
        };
        let i = s.idx(acc.len() + 1);
        acc.insert(i, x);
    }
    // order of the accesses
    for i in (1..acc.len()).rev() {
        let j = s.idx(i + 1);
        acc.swap(i, i - j.min(i));
    }
    if s.chance(1, 25) {
        let i = s.idx(acc.len() + 1);
        acc.insert(i, Acc::Panic);
    }
    v.acc = acc;
    v.nested = NAMES.iter().map(|n| n.to_string()).chain(a.named.iter().map(|x| x.0.clone()).filter(|n| !NAMES.contains(&n.as_str()))).collect();
    if s.chance(1, 8) {
        // not "not found": the parser words that one itself
        v.fail = Some(*s.pick(&[0u8, 1, 2, 4, 5, 6]));
    }
    v
}

fn registry() -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new();
    for k in KINDS {
        ext::register_as::<Probe<0>>(&mut r, k).unwrap();
        ext::register_as::<Probe<1>>(&mut r, k).unwrap();
        ext::register_as::<Probe<2>>(&mut r, k).unwrap();
        ext::register_as::<Probe<3>>(&mut r, k).unwrap();
    }
    r
}

fn arglist(s: &mut Src, a: &Supplied) -> String {
    let mut parts: Vec<String> = a.pos.iter().map(write).collect();
    for (n, v) in &a.named {
        parts.push(format!("{}={}", written(n), write(v)));
    }
    if a.dup {
        let (n, _) = s.pick(&a.named).clone();
        parts.push(format!("{}={}", written(&n), write(&value(s, 1))));
    }
    if parts.is_empty() && s.chance(1, 2) { "_".into() } else { parts.join(", ") }
}

fn run(c: &mut Ctx) -> Res {
    let reg = registry();
    for _ in 0..1 + c.s.idx(2) {
        if c.s.chance(1, 4) {
            direct(c, &reg)?;
        } else {
            text(c, &reg)?;
        }
    }
    Ok(())
}

/// Compare what a handler saw.
fn saw(what: &str, a: &Supplied, s: &Script, v: &Verdict, seen: &Seen) -> Res {
    let _ = s;
    ensure!(seen.obs == v.obs, "wrong-values", "{what}: a handler asking {:?} of {a:?} saw {:?} instead of {:?}", s.acc, seen.obs, v.obs);
    ensure!(seen.err.is_some() == v.own, "wrong-values", "{what}: handler outcome {:?}, expected failure: {}", seen.err, v.own);
    Ok(())
}

fn text(c: &mut Ctx, reg: &ExtensionRegistry) -> Res {
    let n = 1 + c.s.small(3);
    let mut els: Vec<(Supplied, Script)> = vec![];
    for _ in 0..n {
        let mut a = supplied(&mut c.s);
        if !a.named.is_empty() && c.s.chance(1, 12) {
            a.dup = true;
        }
        if a.kind == 0 {
            for i in 0..c.s.idx(3) {
                a.cols.push(format!("column k{i}"));
            }
        }
        let s = script(&mut c.s, &a);
        els.push((a, s));
    }
    // one plan per element, so that kinds mix freely: a cross product of nothing would do as well
    let mut t = String::from("=== Plan\n");
    for (i, (a, _)) in els.iter().enumerate() {
        let args = arglist(&mut c.s, a);
        let name = PROBES[i];
        let cols = a.cols.iter().enumerate().map(|(i, _)| format!("k{i}:i64")).collect::<Vec<_>>().join(", ");
        t += &match a.kind {
            0 if a.cols.is_empty() => format!("Root[]\n  ExtensionLeaf:{name}[{args}]\n"),
            0 => format!("Root[{}]\n  ExtensionLeaf:{name}[{args} => {cols}]\n", (0..a.cols.len()).map(|i| format!("o{i}")).collect::<Vec<_>>().join(", ")),
            1 => format!("Root[]\n  Read:Extension[]\n    + Ext:{name}[{args}]\n"),
            2 => format!("Root[]\n  Read[t => ]\n    + Enh:{name}[{args}]\n"),
            _ => format!("Root[]\n  Read[t => ]\n    + Opt:{name}[{args}]\n"),
        };
        if !a.pos.is_empty() || !a.named.is_empty() {
            c.nontrivial();
        }
    }
    c.log(t.clone());
    for (i, (_, s)) in els.iter().enumerate() {
        c.log(format!("handler {i}: {:?} then {:?}", s.acc, s.fail));
        c.fault("handler-error", s.fail.is_some() as u64);
        c.fault("repeated-or-absent-request", s.acc.len() as u64);
    }
    SCRIPTS.with(|s| *s.borrow_mut() = els.iter().map(|e| e.1.clone()).collect());
    OBS.with(|o| o.borrow_mut().clear());
    let r = c.call(|| parse_with_registry(&t, reg));
    let obs = OBS.with(|o| std::mem::take(&mut *o.borrow_mut()));
    SCRIPTS.with(|s| s.borrow_mut().clear());
    for (i, seen) in &obs {
        let (a, s) = &els[*i];
        if a.dup {
            continue;
        }
        let v = model(a, s);
        saw("text", a, s, &v, seen)?;
    }
    let verdicts: Vec<Verdict> = els.iter().map(|(a, s)| model(a, s)).collect();
    let panics = verdicts.iter().any(|v| v.panics);
    let all = els.iter().zip(&verdicts).all(|(e, v)| v.accept && !e.0.dup);
    match r {
        Err(m) if panics && m.contains("simulated panic") => {
            c.fault("handler-panic", 1);
        }
        Err(m) => return violated("panic", format!("parsing panicked: {m}\n{t}")),
        Ok(Ok(plan)) => {
            ensure!(all, "accepted", "accepted although an argument was not looked at or its handler failed:\n{t}scripts {:?}", els.iter().map(|e| &e.1).collect::<Vec<_>>());
            let b = plan.encode_to_vec();
            for i in 0..els.len() {
                let want = format!("payload of {i}");
                let k = b.windows(want.len()).filter(|w| *w == want.as_bytes()).count();
                ensure!(k == 1, "payload", "the payload of element {i} is in the plan {k} times:\n{t}");
                ensure!(obs.iter().filter(|o| o.0 == i).count() == 1, "handler-not-asked", "handler {i} was asked {} times", obs.iter().filter(|o| o.0 == i).count());
            }
        }
        Ok(Err(e)) => {
            let e = e.to_string();
            ensure!(!all, "rejected", "every argument was looked at and no handler failed, yet: {}\n{t}scripts {:?}", clip(&e, 600), els.iter().map(|e| &e.1).collect::<Vec<_>>());
            // the handler that was asked last is the one that failed
            if let Some((i, Seen { err: Some(own), .. })) = obs.last() {
                if !els[*i].0.dup {
                    ensure!(e.contains(own.as_str()), "other-error", "handler {i} failed with {own:?}, reported is {}\n{t}", clip(&e, 600));
                }
            }
        }
    }
    Ok(())
}

fn direct(c: &mut Ctx, reg: &ExtensionRegistry) -> Res {
    let mut a = supplied(&mut c.s);
    // names and values that text cannot carry
    if c.s.chance(1, 2) {
        let n = c.s.pick(&["", " a", "a ", "positional", "0", "\u{0}"]).to_string();
        let v = value(&mut c.s, 1);
        let i = c.s.idx(a.named.len() + 1);
        if !a.named.iter().any(|x| x.0 == n) {
            a.named.insert(i, (n, v));
        }
    }
    let s = script(&mut c.s, &a);
    let mut args = ExtensionArgs::default();
    for v in &a.pos {
        args.push(to_value(v));
    }
    for (n, v) in &a.named {
        args.insert(n.clone(), to_value(v));
    }
    c.nontrivial();
    c.log(format!("direct {a:?}: {:?} then {:?}", s.acc, s.fail));
    SCRIPTS.with(|x| *x.borrow_mut() = vec![s.clone(); 4]);
    OBS.with(|o| o.borrow_mut().clear());
    let kind = a.kind;
    let r = c.call(|| {
        match kind {
        0 => reg.parse_extension("Probe0", &args).map(|_| ()),
        1 => reg.parse_extension_table("Probe1", &args).map(|_| ()),
        2 => reg.parse_enhancement("Probe2", &args).map(|_| ()),
        _ => args.parse::<Probe<3>>().map(|_| ()),
        }
        .map_err(|e| e.to_string())
    });
    let obs = OBS.with(|o| std::mem::take(&mut *o.borrow_mut()));
    SCRIPTS.with(|x| x.borrow_mut().clear());
    let v = model(&a, &s);
    for (_, seen) in &obs {
        saw("direct", &a, &s, &v, seen)?;
    }
    match r {
        Err(m) if v.panics && m.contains("simulated panic") => {}
        Err(m) => return violated("panic", format!("panicked: {m}")),
        Ok(Ok(())) => ensure!(v.accept, "accepted", "accepted although an argument was not looked at or the handler failed: {a:?} {s:?}"),
        Ok(Err(e)) => {
            ensure!(!v.accept, "rejected", "every argument was looked at and the handler succeeded, yet: {e}: {a:?} {s:?}");
            if let Some((_, Seen { err: Some(own), .. })) = obs.last() {
                ensure!(e.contains(own.as_str()), "other-error", "the handler failed with {own:?}, reported is {e}");
            }
        }
    }
    Ok(())
}
