//! Simulated extension handlers: generic payloads whose handlers can be told to fail, panic, skip
//! arguments or call back into the library at a chosen call.

use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

use substrait::proto;
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, Explainable, Expr, ExtensionArgs, ExtensionColumn,
    ExtensionContext, ExtensionError, ExtensionRegistry, ExtensionType, ExtensionValue,
    RegistrationError, TupleValue, examples,
};

// ---- payload model -------------------------------------------------------------------------

#[derive(Clone, PartialEq, prost::Message)]
pub struct PVal {
    #[prost(oneof = "PKind", tags = "1, 2, 3, 4, 5, 6, 7, 8")]
    pub kind: Option<PKind>,
}
#[derive(Clone, PartialEq, prost::Oneof)]
pub enum PKind {
    #[prost(string, tag = "1")]
    Str(String),
    #[prost(int64, tag = "2")]
    Int(i64),
    #[prost(double, tag = "3")]
    Float(f64),
    #[prost(bool, tag = "4")]
    Bool(bool),
    #[prost(bool, tag = "5")]
    Null(bool),
    #[prost(message, tag = "6")]
    Expr(proto::Expression),
    #[prost(string, tag = "7")]
    Enum(String),
    #[prost(message, tag = "8")]
    Tuple(PTuple),
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct PTuple {
    #[prost(message, repeated, tag = "1")]
    pub items: Vec<PVal>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct PNamed {
    #[prost(string, tag = "1")]
    pub name: String,
    #[prost(message, optional, tag = "2")]
    pub value: Option<PVal>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct PCol {
    #[prost(string, tag = "1")]
    pub name: String,
    #[prost(message, optional, tag = "2")]
    pub ty: Option<proto::Type>,
    #[prost(message, optional, tag = "3")]
    pub expr: Option<proto::Expression>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct Payload {
    #[prost(message, repeated, tag = "1")]
    pub positional: Vec<PVal>,
    #[prost(message, repeated, tag = "2")]
    pub named: Vec<PNamed>,
    #[prost(message, repeated, tag = "3")]
    pub columns: Vec<PCol>,
}

impl From<PKind> for PVal {
    fn from(k: PKind) -> Self {
        PVal { kind: Some(k) }
    }
}

pub fn to_value(v: &PVal) -> ExtensionValue {
    match v.kind.clone() {
        None => ExtensionValue::Null,
        Some(PKind::Str(s)) => ExtensionValue::String(s),
        Some(PKind::Int(i)) => ExtensionValue::Integer(i),
        Some(PKind::Float(f)) => ExtensionValue::Float(f),
        Some(PKind::Bool(b)) => ExtensionValue::Boolean(b),
        Some(PKind::Null(_)) => ExtensionValue::Null,
        Some(PKind::Expr(e)) => ExtensionValue::Expr(Expr::from(e)),
        Some(PKind::Enum(s)) => ExtensionValue::Enum(s),
        Some(PKind::Tuple(t)) => ExtensionValue::Tuple(TupleValue::from(t.items.iter().map(to_value).collect::<Vec<_>>())),
    }
}
pub fn from_value(v: &ExtensionValue) -> PVal {
    match v {
        ExtensionValue::String(s) => PKind::Str(s.clone()).into(),
        ExtensionValue::Integer(i) => PKind::Int(*i).into(),
        ExtensionValue::Float(f) => PKind::Float(*f).into(),
        ExtensionValue::Boolean(b) => PKind::Bool(*b).into(),
        ExtensionValue::Null => PKind::Null(true).into(),
        ExtensionValue::Expr(e) => PKind::Expr(e.to_proto()).into(),
        ExtensionValue::Enum(s) => PKind::Enum(s.clone()).into(),
        ExtensionValue::Tuple(t) => PKind::Tuple(PTuple { items: t.iter().map(from_value).collect() }).into(),
        ExtensionValue::Error(e) => PKind::Str(format!("<error {e}>")).into(),
    }
}

// ---- fault plan ----------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Site {
    FromArgs,
    ToAny,
    FromAny,
    ToArgs,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HAct {
    Err(u8),
    Panic,
    SkipNamed,
    SkipPositional,
    ErrorValue,
    Reenter,
    /// Wait until thread `.0` has finished `.1` calls.
    Await(u8, u8),
}
#[derive(Clone, Debug)]
pub struct HFault {
    pub site: Site,
    /// Handler name index, or none for any.
    pub which: Option<usize>,
    /// 1-based number of the matching call, 0 = every matching call.
    pub nth: u32,
    pub act: HAct,
    pub seen: u32,
    pub fired: u32,
}
impl HFault {
    pub fn new(site: Site, which: Option<usize>, nth: u32, act: HAct) -> Self {
        HFault { site, which, nth, act, seen: 0, fired: 0 }
    }
}

thread_local! {
    static PLAN: RefCell<Vec<HFault>> = const { RefCell::new(Vec::new()) };
    static CALLS: RefCell<Vec<(usize, Site, bool)>> = const { RefCell::new(Vec::new()) };
    static REENTRY: RefCell<Option<Box<dyn Fn()>>> = const { RefCell::new(None) };
    static FAILS: RefCell<Vec<Failure>> = const { RefCell::new(Vec::new()) };
    static SEEN: RefCell<Vec<(Site, String)>> = const { RefCell::new(Vec::new()) };
    static REGFAULT: RefCell<Option<(u8, u32)>> = const { RefCell::new(None) };
    static WHO: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Make the nth call of type_url (0) or name (1) panic.
pub fn set_registration_fault(f: Option<(u8, u32)>) {
    REGFAULT.with(|x| *x.borrow_mut() = f);
}
fn registration_fault(which: u8) {
    let hit = REGFAULT.with(|x| {
        let mut x = x.borrow_mut();
        match x.as_mut() {
            Some((w, n)) if *w == which => {
                *n -= 1;
                let h = *n == 0;
                if h {
                    *x = None;
                }
                h
            }
            _ => false,
        }
    });
    if hit {
        panic!("simulated panic in handler during registration");
    }
}
/// Label put into the messages of this thread's simulated failures.
pub fn set_who(w: &str) -> String {
    WHO.with(|x| std::mem::replace(&mut *x.borrow_mut(), w.to_string()))
}
/// Restore what `take_plan` returned.
pub fn put_back(p: (Vec<HFault>, Vec<(usize, Site, bool)>)) {
    PLAN.with(|x| *x.borrow_mut() = p.0);
    CALLS.with(|x| *x.borrow_mut() = p.1);
}
pub fn has_reentry() -> bool {
    REENTRY.with(|x| x.borrow().is_some())
}
/// Scheduler yield point called at every handler entry.
static YIELD: AtomicUsize = AtomicUsize::new(0);
pub fn set_yield(f: fn(&'static str)) {
    YIELD.store(f as usize, Ordering::SeqCst);
}
fn yield_point(what: &'static str) {
    let p = YIELD.load(Ordering::Relaxed);
    if p != 0 {
        let f: fn(&'static str) = unsafe { std::mem::transmute(p) };
        f(what);
    }
}

/// A failure a handler reported.
#[derive(Clone, Debug)]
pub struct Failure {
    pub site: Site,
    /// Payload bytes (formatting) of the failing element.
    pub bytes: Vec<u8>,
    pub err: String,
    /// Only one value of the element is bad.
    pub value: bool,
}
pub fn take_failures() -> Vec<Failure> {
    FAILS.with(|f| std::mem::take(&mut *f.borrow_mut()))
}
/// Tags of the payloads seen at each handler call, in order.
pub fn take_seen() -> Vec<(Site, String)> {
    SEEN.with(|f| std::mem::take(&mut *f.borrow_mut()))
}
fn failed(site: Site, bytes: &[u8], e: ExtensionError) -> ExtensionError {
    FAILS.with(|f| f.borrow_mut().push(Failure { site, bytes: bytes.to_vec(), err: e.to_string(), value: false }));
    e
}
fn saw(site: Site, p: &Payload) {
    SEEN.with(|f| f.borrow_mut().push((site, tag_of(p))));
}
pub fn tag_of(p: &Payload) -> String {
    match p.positional.first().and_then(|v| v.kind.as_ref()) {
        Some(PKind::Str(s)) if s.starts_with("#t") => s.clone(),
        _ => String::new(),
    }
}

/// Install the fault plan of this thread; returns nothing, clears the call log.
pub fn set_plan(p: Vec<HFault>) {
    PLAN.with(|x| *x.borrow_mut() = p);
    CALLS.with(|x| x.borrow_mut().clear());
    take_failures();
    take_seen();
}
/// Take the plan (with its fired counters) and the call log.
pub fn take_plan() -> (Vec<HFault>, Vec<(usize, Site, bool)>) {
    (PLAN.with(|x| std::mem::take(&mut *x.borrow_mut())), CALLS.with(|x| std::mem::take(&mut *x.borrow_mut())))
}
pub fn set_reentry(f: Option<Box<dyn Fn()>>) {
    REENTRY.with(|x| *x.borrow_mut() = f);
}

pub fn make_err(v: u8, name: &str) -> ExtensionError {
    let who = WHO.with(|w| w.borrow().clone());
    let name = &format!("{name}{who}");
    match v % 7 {
        0 => ExtensionError::Custom(format!("simulated failure in {name}")),
        1 => ExtensionError::InvalidArgument(format!("simulated rejection by {name}")),
        2 => ExtensionError::MissingArgument { name: format!("simulated_{name}") },
        3 => ExtensionError::NotFound { name: format!("inner_{name}") },
        4 => ExtensionError::TypeUrlMismatch { expected: format!("sim/{name}"), actual: "other".into() },
        5 => ExtensionError::DecodeFailed(<proto::Plan as prost::Message>::decode(&[0xffu8, 0xff][..]).unwrap_err()),
        _ => ExtensionError::MissingDetail,
    }
}
pub const N_ERR: u64 = 7;

fn enter(n: usize, site: Site) -> Option<HAct> {
    yield_point(match site {
        Site::FromArgs => "from_args",
        Site::ToAny => "to_any",
        Site::FromAny => "from_any",
        Site::ToArgs => "to_args",
    });
    let act = PLAN.with(|p| {
        let mut p = p.borrow_mut();
        let mut r = None;
        for f in p.iter_mut() {
            if f.site == site && f.which.is_none_or(|w| w == n) {
                f.seen += 1;
                if (f.nth == 0 || f.seen == f.nth) && r.is_none() {
                    f.fired += 1;
                    r = Some(f.act);
                }
            }
        }
        r
    });
    CALLS.with(|c| c.borrow_mut().push((n, site, act.is_some())));
    match act {
        Some(HAct::Panic) => panic!("simulated panic in handler {}", NAMES[n]),
        Some(HAct::Await(t, k)) => {
            crate::sched::await_calls(t as usize, k as usize);
            Some(HAct::Await(t, k))
        }
        Some(HAct::Reenter) => {
            let f = REENTRY.with(|r| r.borrow_mut().take());
            if let Some(f) = f {
                f();
                REENTRY.with(|r| *r.borrow_mut() = Some(f));
            }
            Some(HAct::Reenter)
        }
        a => a,
    }
}

/// Let some handlers write what they are told about the inputs of their relation.
static TELL: AtomicBool = AtomicBool::new(false);
pub fn tell_inputs(on: bool) {
    TELL.store(on, Ordering::SeqCst);
}
fn tells_inputs(n: usize) -> bool {
    n % 2 == 1 && TELL.load(Ordering::Relaxed)
}

// ---- handler types -------------------------------------------------------------------------

pub const NAMES: [&str; 15] = [
    "SimA", "SimB", "SimC", "sima", "sim_e", "SimLongerName", "sim ext-7", "zeta", "Alpha", "alpha", "SimAB", "S", "x:y[z]", "ünï \"q\"", "7up",
];
/// A name as the text format writes it.
pub fn written(n: &str) -> String {
    let ident = n.starts_with(|c: char| c.is_ascii_alphabetic()) && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    if ident { n.to_string() } else { format!("\"{}\"", n.replace('\\', "\\\\").replace('"', "\\\"")) }
}
pub fn url(u: usize) -> String {
    // different payload types, however much of their names they share
    match u {
        1 => "example.com/types/sim.P0".into(),
        2 => "type.googleapis.com/sim.p0".into(),
        4 => "type.googleapis.com/com.example.engine.extensions.v1beta.PayloadWithALongName".into(),
        5 => "/sim.P5".into(),
        6 => "sim.P5".into(),
        9 => "type.googleapis.com/sim.P80".into(),
        3 | 7 | 11 => format!("urn:sim:payload/{u}"),
        _ => format!("type.googleapis.com/sim.P{u}"),
    }
}
/// Named arguments the handlers know about, in the order they are written.
pub const ARG_NAMES: [&str; 13] = ["a", "b", "zz", "mode", "Count", "x1", "path_name", "limit", "true_ish", "m", "_hidden", "max rows", "été=1"];

/// Handler with name number N and payload type URL number U.
#[derive(Clone, PartialEq, Debug)]
pub struct H<const N: usize, const U: usize>(pub Payload);

impl<const N: usize, const U: usize> AnyConvertible for H<N, U> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        match enter(N, Site::ToAny) {
            Some(HAct::Err(v)) => return Err(make_err(v, NAMES[N])),
            _ => {}
        }
        saw(Site::ToAny, &self.0);
        Ok(Any::new(url(U), prost::Message::encode_to_vec(&self.0)))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        match enter(N, Site::FromAny) {
            Some(HAct::Err(v)) => {
                let t = <Payload as prost::Message>::decode(any.value).map(|p| tag_of(&p)).unwrap_or_default();
                return Err(failed(Site::FromAny, any.value, make_err(v, &format!("{}{t}", NAMES[N]))));
            }
            _ => {}
        }
        if any.type_url != url(U) {
            return Err(ExtensionError::TypeUrlMismatch { expected: url(U), actual: any.type_url.to_string() });
        }
        Ok(H(<Payload as prost::Message>::decode(any.value).map_err(|e| failed(Site::FromAny, any.value, ExtensionError::DecodeFailed(e)))?))
    }
    fn type_url() -> String {
        registration_fault(0);
        url(U)
    }
}

impl<const N: usize, const U: usize> Explainable for H<N, U> {
    fn name() -> &'static str {
        registration_fault(1);
        NAMES[N]
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let act = enter(N, Site::FromArgs);
        if let Some(HAct::Err(v)) = act {
            return Err(make_err(v, NAMES[N]));
        }
        let mut p = Payload::default();
        if act != Some(HAct::SkipPositional) {
            p.positional = args.positional().iter().map(from_value).collect();
        }
        if act != Some(HAct::SkipNamed) {
            for n in ARG_NAMES {
                if let Some(v) = args.get_named_arg(n) {
                    p.named.push(PNamed { name: n.to_string(), value: Some(from_value(v)) });
                }
            }
        }
        if tells_inputs(N) {
            args.get_named_arg("inputs");
        }
        for c in args.output_columns() {
            p.columns.push(match c {
                ExtensionColumn::Named { name, r#type } => PCol { name: name.clone(), ty: Some(r#type.clone()), expr: None },
                ExtensionColumn::Expr(e) => PCol { name: String::new(), ty: None, expr: Some(e.to_proto()) },
            });
        }
        saw(Site::FromArgs, &p);
        Ok(H(p))
    }
    fn to_args(&self, ctx: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        let act = enter(N, Site::ToArgs);
        let t = tag_of(&self.0);
        if let Some(HAct::Err(v)) = act {
            return Err(failed(Site::ToArgs, &prost::Message::encode_to_vec(&self.0), make_err(v, &format!("{}{t}", NAMES[N]))));
        }
        let mut a = ExtensionArgs::default();
        for v in &self.0.positional {
            a.positional.push(to_value(v));
        }
        for n in &self.0.named {
            a.named.insert(n.name.clone(), to_value(n.value.as_ref().unwrap_or(&PVal { kind: None })));
        }
        if tells_inputs(N) && !ctx.inputs().is_empty() {
            let counts: Vec<ExtensionValue> = ctx.inputs().iter().map(|i| ExtensionValue::Integer(i.emitted_column_count() as i64)).collect();
            a.named.insert("inputs".into(), ExtensionValue::Tuple(counts.into()));
        }
        if act == Some(HAct::ErrorValue) {
            let e = ExtensionError::Custom(format!("simulated bad value in {}{t}", NAMES[N]));
            FAILS.with(|f| {
                f.borrow_mut().push(Failure { site: Site::ToArgs, bytes: prost::Message::encode_to_vec(&self.0), err: e.to_string(), value: true })
            });
            a.positional.push(ExtensionValue::Error(e));
        }
        for c in &self.0.columns {
            a.output_columns.push(match (&c.ty, &c.expr) {
                (Some(t), _) => ExtensionColumn::Named { name: c.name.clone(), r#type: t.clone() },
                (None, Some(e)) => ExtensionColumn::Expr(Expr::from(e.clone())),
                (None, None) => ExtensionColumn::field(0),
            });
        }
        Ok(a)
    }
}

pub const KINDS: [ExtensionType; 4] =
    [ExtensionType::Relation, ExtensionType::ExtensionTable, ExtensionType::Enhancement, ExtensionType::Optimization];

pub fn register_as<T: substrait_explain::extensions::Extension>(
    r: &mut ExtensionRegistry,
    k: ExtensionType,
) -> Result<(), RegistrationError> {
    match k {
        ExtensionType::Relation => r.register_relation::<T>(),
        ExtensionType::ExtensionTable => r.register_extension_table::<T>(),
        ExtensionType::Enhancement => r.register_enhancement::<T>(),
        ExtensionType::Optimization => r.register_optimization::<T>(),
    }
}

type RegFn = fn(&mut ExtensionRegistry, ExtensionType) -> Result<(), RegistrationError>;
macro_rules! table { ($(($n:literal, $u:literal)),* $(,)?) => { &[$(($n, $u, register_as::<H<$n, $u>> as RegFn)),*] } }
/// All handler types: (name number, url number, registration function).
pub static TYPES: &[(usize, usize, RegFn)] = table![
    (0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (7, 7), (8, 8), (9, 9), (10, 10), (11, 11), (12, 12), (13, 13), (14, 14),
    (0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1), (3, 0), (4, 3), (7, 8), (8, 9), (9, 8), (10, 0), (11, 10), (12, 13), (14, 0),
];

/// Names used by generated plans, in every kind.
pub const PLAN_NAMES: usize = 7;

/// The registry all generated plans are written for: simulated handlers 0..PLAN_NAMES in every kind plus the
/// repository's own example handlers.
pub fn registry() -> ExtensionRegistry {
    let mut r = examples::registry();
    for k in KINDS {
        for t in TYPES.iter().filter(|t| t.0 == t.1 && t.0 < PLAN_NAMES) {
            (t.2)(&mut r, k).expect("registration");
        }
    }
    r
}

/// A registry with some of the same names and payload types, put together differently: a call with it says
/// nothing about calls with the other one.
pub fn other_registry(n: u64) -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new();
    if n == 0 {
        return r;
    }
    let mut x = crate::src::Rng::new(n);
    for _ in 0..20 {
        let t = &TYPES[(x.next() % TYPES.len() as u64) as usize];
        let _ = (t.2)(&mut r, KINDS[(x.next() % 4) as usize]);
    }
    r
}

// ---- fault plans across the process boundary -------------------------------------------------

pub fn encode_plan(p: &[HFault]) -> String {
    p.iter()
        .map(|f| {
            let site = match f.site {
                Site::FromArgs => 0,
                Site::ToAny => 1,
                Site::FromAny => 2,
                Site::ToArgs => 3,
            };
            let (a, v) = match f.act {
                HAct::Err(v) => (0, v),
                HAct::Panic => (1, 0),
                HAct::SkipNamed => (2, 0),
                HAct::SkipPositional => (3, 0),
                HAct::ErrorValue => (4, 0),
                HAct::Reenter | HAct::Await(..) => (5, 0),
            };
            format!("{site}:{}:{}:{a}:{v}", f.which.map(|w| w as i64).unwrap_or(-1), f.nth)
        })
        .collect::<Vec<_>>()
        .join(";")
}
pub fn decode_plan(s: &str) -> Vec<HFault> {
    s.split(';')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let v: Vec<i64> = x.split(':').map(|y| y.parse().unwrap()).collect();
            let site = [Site::FromArgs, Site::ToAny, Site::FromAny, Site::ToArgs][v[0] as usize];
            let act = match v[3] {
                0 => HAct::Err(v[4] as u8),
                1 => HAct::Panic,
                2 => HAct::SkipNamed,
                3 => HAct::SkipPositional,
                4 => HAct::ErrorValue,
                _ => HAct::Reenter,
            };
            HFault::new(site, if v[1] < 0 { None } else { Some(v[1] as usize) }, v[2] as u32, act)
        })
        .collect()
}
/// The repository's example handlers, into a registry that may already have others.
pub fn register_examples(r: &mut ExtensionRegistry) {
    r.register_optimization::<examples::PlanHint>().expect("registration");
    r.register_extension_table::<examples::BlobStoreRead>().expect("registration");
    r.register_enhancement::<examples::PartitionHint>().expect("registration");
}
