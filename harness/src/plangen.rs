//! Generator of Substrait plans the text format can express, in the form the parser produces.
#![allow(deprecated)]

use crate::ext::{ARG_NAMES, PCol, PKind, PLAN_NAMES, PNamed, PTuple, PVal, Payload, url};
use crate::src::Src;
use crate::stored::Fmt;
use prost::Message;
use substrait::proto::expression::cast::FailureBehavior;
use substrait::proto::expression::field_reference::{ReferenceType, RootReference, RootType};
use substrait::proto::expression::if_then::IfClause;
use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
use substrait::proto::expression::literal::{IntervalDayToSecond, LiteralType, PrecisionTime, PrecisionTimestamp};
use substrait::proto::expression::reference_segment::{self, StructField};
use substrait::proto::expression::{
    Cast, FieldReference, IfThen, Literal, ReferenceSegment, RexType, ScalarFunction, nested,
};
use substrait::proto::extensions::simple_extension_declaration::{
    ExtensionFunction, ExtensionType, ExtensionTypeVariation, MappingType,
};
use substrait::proto::extensions::{AdvancedExtension, SimpleExtensionDeclaration, SimpleExtensionUrn};
use substrait::proto::function_argument::ArgType;
use substrait::proto::rel::RelType;
use substrait::proto::rel_common::{Direct, Emit, EmitKind};
use substrait::proto::sort_field::SortKind;
use substrait::proto::r#type::parameter::Parameter as ParamKind;
use substrait::proto::r#type::{self as ty, Kind, Nullability, Parameter};
use substrait::proto::{
    AggregateFunction, AggregateRel, CrossRel, Expression, ExtensionLeafRel, ExtensionMultiRel,
    ExtensionSingleRel, FetchRel, FilterRel, FunctionArgument, JoinRel, NamedStruct, Plan, PlanRel, ProjectRel,
    ReadRel, Rel, RelCommon, RelRoot, SetRel, SortField, SortRel, Type, Version, aggregate_rel, fetch_rel, plan_rel,
    read_rel,
};

/// What the generator may use.
#[derive(Clone, Copy)]
pub struct Opts {
    /// Extension relations, extension tables and addenda (needs the simulated handlers).
    pub ext: bool,
    /// Rough number of relations.
    pub size: usize,
    /// Maximum expression depth.
    pub depth: usize,
    /// Rows/strings large enough to exceed I/O buffers.
    pub big: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { ext: true, size: 6, depth: 3, big: false }
    }
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub o: Opts,
    funcs: Vec<u32>,
    types: Vec<u32>,
    left: i64,
    /// Tag every payload and remember where it went: (url number, kind).
    pub tags: Option<Vec<(usize, Where)>>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Where {
    Relation,
    Table,
    Enhancement,
    Optimization,
}
pub fn tag(k: usize) -> String {
    format!("#t{k}#")
}

const STRINGS: [&str; 30] = [
    "", "a", "hello world", "it's", "say \"hi\"", "back\\slash", "line\nbreak", "tab\there", "crlf\r\n", "ünïcödé", "日本語",
    "🦀", "=> ]", "$0", "null", "=== Plan", "  lead", "trail  ", "'", "\\", "\\n", "a,b", "(x)", "# 1 @ 1: f", "\u{0}", "\u{7f}",
    "e\u{301}", "\u{2028}", "- item", "true",
];
const IDENTS: [&str; 16] = [
    "a", "b", "col", "id", "name", "x1", "long_column_name", "T", "orders", "db", "v", "select", "i64", "Z9", "null_col", "filter_x",
];

fn t(kind: Kind) -> Type {
    Type { kind: Some(kind) }
}
pub fn lit(l: LiteralType) -> Expression {
    Expression {
        rex_type: Some(RexType::Literal(Literal { nullable: false, type_variation_reference: 0, literal_type: Some(l) })),
    }
}
pub fn field(i: i32) -> Expression {
    Expression {
        rex_type: Some(RexType::Selection(Box::new(FieldReference {
            reference_type: Some(ReferenceType::DirectReference(ReferenceSegment {
                reference_type: Some(reference_segment::ReferenceType::StructField(Box::new(StructField {
                    field: i,
                    child: None,
                }))),
            })),
            root_type: field_root(),
        }))),
    }
}
fn field_root() -> Option<RootType> {
    Some(RootType::RootReference(RootReference {}))
}
pub fn direct() -> RelCommon {
    RelCommon { emit_kind: Some(EmitKind::Direct(Direct {})), ..Default::default() }
}
fn rel(r: RelType) -> Rel {
    Rel { rel_type: Some(r) }
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, o: Opts) -> Self {
        Gen { s, o, funcs: vec![], types: vec![], left: 0, tags: None }
    }

    // ---- declarations ----

    fn declarations(&mut self, p: &mut Plan) {
        let s = &mut *self.s;
        let nurn = s.idx(4);
        let mut anchor = 0u32;
        let mut urns = vec![];
        for _ in 0..nurn {
            anchor += 1 + s.weighted(&[6, 2, 1]) as u32 * [1, 7, 1500][s.idx(3)];
            let u = *s.pick(&[
                "https://github.com/substrait-io/substrait/blob/main/extensions/functions_arithmetic.yaml",
                "urn:example:a",
                "/functions.yaml",
                "extension:io.substrait:functions_comparison",
                "b",
                "urn:ünï",
            ]);
            p.extension_urns.push(SimpleExtensionUrn { extension_urn_anchor: anchor, urn: format!("{u}{}", if s.chance(1, 3) { "#x" } else { "" }) });
            urns.push(anchor);
        }
        if urns.is_empty() {
            return;
        }
        let mut decls: Vec<(u32, u8, u32, String)> = vec![];
        let nf = s.idx(6);
        let mut a = 0u32;
        for _ in 0..nf {
            a += 1 + s.weighted(&[6, 2, 1]) as u32 * [1, 9, 997][s.idx(3)];
            let name = *s.pick(&[
                "add", "add", "add:i64_i64", "add:i32_i32", "eq", "equal:any_any", "count", "count:", "sum", "gt", "coalesce", "json_extract:u!json_str", "f_1", "if_then", "null", "true", "Read", "Root", "limit",
            ]);
            decls.push((a, 0, *s.pick(&urns), name.to_string()));
            self.funcs.push(a);
        }
        if s.chance(1, 2) {
            let mut a = 0u32;
            for _ in 0..1 + s.idx(3) {
                a += 1 + s.idx(3) as u32;
                let name = *s.pick(&["point", "json", "geo_point", "point", "vec", "timezone", "i64x", "string_view"]);
                decls.push((a, 1, *s.pick(&urns), name.to_string()));
                self.types.push(a);
            }
        }
        if s.chance(1, 6) {
            decls.push((1 + s.idx(4) as u32, 2, *s.pick(&urns), "variation_a".to_string()));
        }
        decls.sort_by_key(|d| (d.0, d.1));
        for (anchor, kind, urn, name) in decls {
            p.extensions.push(SimpleExtensionDeclaration {
                mapping_type: Some(match kind {
                    0 => MappingType::ExtensionFunction(ExtensionFunction { extension_urn_reference: urn, function_anchor: anchor, name }),
                    1 => MappingType::ExtensionType(ExtensionType { extension_urn_reference: urn, type_anchor: anchor, name }),
                    _ => MappingType::ExtensionTypeVariation(ExtensionTypeVariation { extension_urn_reference: urn, type_variation_anchor: anchor, name }),
                }),
            });
        }
        // The same (name, urn) pair cannot be told apart in the text; keep declarations distinct.
        let mut seen = std::collections::BTreeSet::new();
        let mut dropped = vec![];
        p.extensions.retain(|d| {
            let (k, key, anchor) = match d.mapping_type.as_ref().unwrap() {
                MappingType::ExtensionFunction(f) => (0u8, (f.name.clone(), f.extension_urn_reference), f.function_anchor),
                MappingType::ExtensionType(f) => (1, (f.name.clone(), f.extension_urn_reference), f.type_anchor),
                MappingType::ExtensionTypeVariation(f) => (2, (f.name.clone(), f.extension_urn_reference), f.type_variation_anchor),
            };
            let keep = seen.insert((k, key));
            if !keep {
                dropped.push((k, anchor));
            }
            keep
        });
        self.funcs.retain(|a| !dropped.contains(&(0, *a)));
        self.types.retain(|a| !dropped.contains(&(1, *a)));
    }

    // ---- names, strings, types ----

    pub fn string(&mut self) -> String {
        match self.s.weighted(&[6, 3, 1]) {
            0 => self.s.pick(&STRINGS).to_string(),
            1 => {
                let n = self.s.idx(8);
                (0..n).map(|_| *self.s.pick(&['a', 'Z', '0', ' ', '\'', '"', '\\', '\n', 'é', '日', '🦀', ']', '[', ',', ':', '>'])).collect()
            }
            _ => {
                if self.o.big {
                    let unit = *self.s.pick(&["0123456789abcdef", "é", "x\n", "\\'"]);
                    unit.repeat(1 + self.s.idx(400))
                } else {
                    "long ".repeat(1 + self.s.idx(20))
                }
            }
        }
    }
    pub fn name(&mut self) -> String {
        match self.s.weighted(&[8, 2]) {
            0 => {
                let n = self.s.pick(&IDENTS).to_string();
                if self.s.chance(1, 4) { format!("{n}_{}", self.s.below(20)) } else { n }
            }
            _ => self.string(),
        }
    }
    fn nullability(&mut self) -> i32 {
        match self.s.weighted(&[5, 4]) {
            0 => Nullability::Required as i32,
            _ => Nullability::Nullable as i32,
        }
    }
    pub fn ty(&mut self, depth: usize) -> Type {
        let n = self.nullability();
        let v = 0u32;
        let nudt = if self.types.is_empty() { 0 } else { 2 };
        let w = [10, 2, if depth > 0 { 2 } else { 0 }, nudt];
        match self.s.weighted(&w) {
            0 => t(match self.s.idx(15) {
                0 => Kind::I64(ty::I64 { type_variation_reference: v, nullability: n }),
                1 => Kind::String(ty::String { type_variation_reference: v, nullability: n }),
                2 => Kind::Bool(ty::Boolean { type_variation_reference: v, nullability: n }),
                3 => Kind::I32(ty::I32 { type_variation_reference: v, nullability: n }),
                4 => Kind::I16(ty::I16 { type_variation_reference: v, nullability: n }),
                5 => Kind::I8(ty::I8 { type_variation_reference: v, nullability: n }),
                6 => Kind::Fp64(ty::Fp64 { type_variation_reference: v, nullability: n }),
                7 => Kind::Fp32(ty::Fp32 { type_variation_reference: v, nullability: n }),
                8 => Kind::Binary(ty::Binary { type_variation_reference: v, nullability: n }),
                9 => Kind::Date(ty::Date { type_variation_reference: v, nullability: n }),
                10 => Kind::Time(ty::Time { type_variation_reference: v, nullability: n }),
                11 => Kind::Timestamp(ty::Timestamp { type_variation_reference: v, nullability: n }),
                12 => Kind::TimestampTz(ty::TimestampTz { type_variation_reference: v, nullability: n }),
                13 => Kind::IntervalYear(ty::IntervalYear { type_variation_reference: v, nullability: n }),
                _ => Kind::Uuid(ty::Uuid { type_variation_reference: v, nullability: n }),
            }),
            1 => {
                let p = self.s.idx(13) as i32;
                t(match self.s.idx(4) {
                    0 => Kind::PrecisionTimestamp(ty::PrecisionTimestamp { precision: p, type_variation_reference: v, nullability: n }),
                    1 => Kind::PrecisionTimestampTz(ty::PrecisionTimestampTz { precision: p, type_variation_reference: v, nullability: n }),
                    2 => Kind::PrecisionTime(ty::PrecisionTime { precision: p, type_variation_reference: v, nullability: n }),
                    _ => Kind::IntervalDay(ty::IntervalDay { precision: Some(p), type_variation_reference: v, nullability: n }),
                })
            }
            2 => {
                let inner = self.ty(depth - 1);
                t(Kind::List(Box::new(ty::List { r#type: Some(Box::new(inner)), type_variation_reference: v, nullability: n })))
            }
            _ => {
                let a = *self.s.pick(&self.types.clone());
                let np = if depth > 0 { self.s.idx(3) } else { 0 };
                let type_parameters =
                    (0..np).map(|_| Parameter { parameter: Some(ParamKind::DataType(self.ty(depth - 1))) }).collect();
                t(Kind::UserDefined(ty::UserDefined { type_reference: a, type_variation_reference: v, nullability: n, type_parameters }))
            }
        }
    }

    // ---- expressions ----

    fn int(&mut self, bits: u32) -> i64 {
        let max = if bits == 64 { i64::MAX } else { (1i64 << (bits - 1)) - 1 };
        match self.s.weighted(&[6, 2, 2, 1, 1]) {
            0 => self.s.below(10) as i64,
            1 => -(self.s.below(10) as i64),
            2 => (self.s.below(1 << (bits.min(31) - 1)) as i64).min(max),
            3 => max,
            _ => -max - 1,
        }
    }
    fn float(&mut self) -> f64 {
        match self.s.weighted(&[4, 3, 2, 2, 2]) {
            0 => *self.s.pick(&[1.5, 0.1, -2.25, 3.14159, 100.001, 0.0, 1.0, -1.0, 42.0, 1e6]),
            1 => self.s.range(-1000, 1000) as f64 / *self.s.pick(&[3.0, 7.0, 8.0, 10.0, 1.0]),
            2 => *self.s.pick(&[1e20, -1e20, 1e-7, 123456789012345680.0, 5e-324, 1.7976931348623157e308, 9007199254740993.0]),
            3 => f64::from_bits(self.s.u64()),
            _ => *self.s.pick(&[-0.0, 2.0, 10.0, 1e15, 1e16, 1e17, 0.30000000000000004]),
        }
    }
    fn finite(&mut self) -> f64 {
        let f = self.float();
        // Doubles that serde_json reads one unit off are a known finding, see c01.rs.
        let exact = |f: f64| serde_json::from_str::<f64>(&serde_json::to_string(&f).unwrap()).is_ok_and(|g| g == f);
        if f.is_finite() && exact(f) && exact(f as f32 as f64) { f } else { 0.5 }
    }
    fn units(&mut self, precision: i32) -> i64 {
        // a moment between 1700 and 2200 at the given precision, sometimes with all digits used
        let secs = self.s.range(-8_000_000_000, 7_000_000_000);
        let secs = if self.s.chance(1, 4) { self.s.range(-3, 3) } else { secs };
        let mul = 10i64.pow(precision as u32);
        let frac = if precision == 0 { 0 } else { self.frac(mul) };
        secs * mul + frac
    }
    fn frac(&mut self, mul: i64) -> i64 {
        match self.s.idx(4) {
            0 => 0,
            1 => self.s.below(mul as u64) as i64,
            2 => mul - 1,
            _ => (mul / 10) * self.s.below(10) as i64,
        }
    }
    pub fn literal(&mut self) -> Literal {
        let nullable = self.s.chance(1, 4);
        let l = match self.s.idx(17) {
            0 => LiteralType::I64(self.int(64)),
            1 => LiteralType::String(self.string()),
            2 => LiteralType::Boolean(self.s.chance(1, 2)),
            3 => LiteralType::I32(self.int(32) as i32),
            4 => LiteralType::I16(self.int(16) as i32),
            5 => LiteralType::I8(self.int(8) as i32),
            6 => LiteralType::Fp64(self.finite()),
            7 => {
                let f = self.finite() as f32;
                LiteralType::Fp32(if f.is_finite() { f } else { 0.25 })
            }
            8 => LiteralType::Date(match self.s.idx(3) {
                0 => self.s.range(-800, 20000) as i32,
                1 => self.s.range(-719_162, 2_932_896) as i32,
                _ => self.s.range(-3, 3) as i32,
            }),
            9 => LiteralType::Time({
                let f = self.frac(1_000_000);
                self.s.range(0, 86399) * 1_000_000 + f
            }),
            10 => LiteralType::Timestamp(self.units(6)),
            11 | 12 => {
                let precision = *self.s.pick(&[6, 0, 3, 9]);
                let value = self.units(precision);
                let v = PrecisionTimestamp { precision, value };
                if self.s.chance(1, 2) { LiteralType::PrecisionTimestampTz(v) } else { LiteralType::PrecisionTimestamp(v) }
            }
            13 => {
                let precision = *self.s.pick(&[6, 0, 3, 9]);
                let mul = 10i64.pow(precision as u32);
                let f = if precision == 0 { 0 } else { self.frac(mul) };
                LiteralType::PrecisionTime(PrecisionTime { precision, value: self.s.range(0, 86399) * mul + f })
            }
            14 | 15 => {
                let precision = *self.s.pick(&[6, 0, 3, 9, 12]);
                // the documented bounds: 3,650,000 days in all, less than one second of sub-seconds
                let days: i32 = *self.s.pick(&[0, 1, -1, 5, 365, -3_649_999, 3_640_000]);
                let seconds = *self.s.pick(&[0, 1, -1, 59, 86399, -86400, 100_000]);
                let max = 10i64.pow(precision as u32) - 1;
                let subseconds = if precision == 0 { 0 } else { *self.s.pick(&[0, 1, -1, 100, 999, max, -max]) };
                LiteralType::IntervalDayToSecond(IntervalDayToSecond {
                    days,
                    seconds,
                    subseconds,
                    precision_mode: Some(PrecisionMode::Precision(precision)),
                })
            }
            _ => {
                let ty = self.ty(1);
                return Literal { nullable: false, type_variation_reference: 0, literal_type: Some(LiteralType::Null(ty)) };
            }
        };
        Literal { nullable, type_variation_reference: 0, literal_type: Some(l) }
    }
    /// An expression nested deeply, but less than a binary plan may be.
    fn nest(&mut self, width: usize) -> Expression {
        let mut e = if width > 0 { field(self.s.idx(width) as i32) } else { Expression { rex_type: Some(RexType::Literal(self.literal())) } };
        let small = |g: &mut Self| if width > 0 { field(g.s.idx(width) as i32) } else { Expression { rex_type: Some(RexType::Literal(g.literal())) } };
        let n = 1 + self.s.idx(20);
        let same = self.s.chance(1, 2).then(|| self.s.idx(5));
        for _ in 0..n {
            let kind = same.unwrap_or_else(|| self.s.idx(5));
            e = match kind {
                0..=2 => {
                    let (a, b) = (small(self), small(self));
                    let (c, t, x) = match kind {
                        0 => (e, a, b),
                        1 => (a, e, b),
                        _ => (a, b, e),
                    };
                    Expression { rex_type: Some(RexType::IfThen(Box::new(IfThen { ifs: vec![IfClause { r#if: Some(c), then: Some(t) }], r#else: Some(Box::new(x)) }))) }
                }
                3 if !self.funcs.is_empty() => {
                    let mut f = self.call(width, 0);
                    f.arguments.insert(0, FunctionArgument { arg_type: Some(ArgType::Value(e)) });
                    Expression { rex_type: Some(RexType::ScalarFunction(f)) }
                }
                _ => {
                    let ty = self.ty(0);
                    Expression { rex_type: Some(RexType::Cast(Box::new(Cast { r#type: Some(ty), input: Some(Box::new(e)), failure_behavior: 0 }))) }
                }
            };
        }
        e
    }
    pub fn expr(&mut self, width: usize, depth: usize) -> Expression {
        if depth > 0 && self.s.chance(1, 150) {
            return self.nest(width);
        }
        let wf = if self.funcs.is_empty() || depth == 0 { 0 } else { 5 };
        let wd = if depth == 0 { 0 } else { 2 };
        let wr = if width == 0 { 0 } else { 6 };
        match self.s.weighted(&[4, wr, wf, wd, wd]) {
            0 => Expression { rex_type: Some(RexType::Literal(self.literal())) },
            1 => field(self.s.idx(width) as i32),
            2 => Expression { rex_type: Some(RexType::ScalarFunction(self.call(width, depth))) },
            3 => {
                let n = 1 + self.s.idx(3);
                let ifs = (0..n)
                    .map(|_| IfClause { r#if: Some(self.expr(width, depth - 1)), then: Some(self.expr(width, depth - 1)) })
                    .collect();
                let e = self.expr(width, depth - 1);
                Expression { rex_type: Some(RexType::IfThen(Box::new(IfThen { ifs, r#else: Some(Box::new(e)) }))) }
            }
            _ => {
                let input = self.expr(width, depth - 1);
                let ty = self.ty(1);
                let fb = *self.s.pick(&[FailureBehavior::Unspecified, FailureBehavior::ReturnNull, FailureBehavior::ThrowException]);
                Expression {
                    rex_type: Some(RexType::Cast(Box::new(Cast {
                        r#type: Some(ty),
                        input: Some(Box::new(input)),
                        failure_behavior: fb as i32,
                    }))),
                }
            }
        }
    }
    fn call(&mut self, width: usize, depth: usize) -> ScalarFunction {
        let f = *self.s.pick(&self.funcs.clone());
        let n = self.s.idx(4);
        let arguments = (0..n)
            .map(|_| FunctionArgument { arg_type: Some(ArgType::Value(self.expr(width, depth.saturating_sub(1)))) })
            .collect();
        let ty = self.ty(1);
        ScalarFunction { function_reference: f, arguments, options: vec![], output_type: Some(ty), args: vec![] }
    }

    // ---- extension payloads ----

    pub fn pval(&mut self, width: usize, depth: usize) -> PVal {
        let wt = if depth > 0 { 2 } else { 0 };
        match self.s.weighted(&[3, 3, 2, 2, 1, 2, 2, 2, wt]) {
            0 => PKind::Int(self.int(64)).into(),
            1 => PKind::Str(self.string()).into(),
            2 => PKind::Bool(self.s.chance(1, 2)).into(),
            3 => PKind::Float(self.finite()).into(),
            4 => PKind::Null(true).into(),
            5 => PKind::Enum(self.s.pick(&["HASH", "Inner", "x_1", "A"]).to_string()).into(),
            6 => PKind::Expr(field(self.s.idx(width.max(4)) as i32)).into(),
            7 => {
                // A bare literal of its default type is written, and read, as a plain value.
                let e = self.expr(width, 2);
                match &e.rex_type {
                    Some(RexType::Literal(Literal { literal_type: Some(l), nullable: false, .. }))
                        if matches!(l, LiteralType::I64(_) | LiteralType::Fp64(_) | LiteralType::Boolean(_) | LiteralType::String(_)) =>
                    {
                        PKind::Int(7).into()
                    }
                    _ => PKind::Expr(e).into(),
                }
            }
            _ if self.s.chance(1, 12) => {
                // a deep nest
                let mut v: PVal = PKind::Int(1).into();
                for _ in 0..1 + self.s.idx(30) {
                    v = PKind::Tuple(PTuple { items: vec![v] }).into();
                }
                v
            }
            _ => {
                let n = self.s.idx(4);
                let items = (0..n).map(|_| self.pval(width, depth - 1)).collect();
                PKind::Tuple(PTuple { items }).into()
            }
        }
    }
    pub fn payload(&mut self, width: usize, columns: Option<usize>) -> Payload {
        let mut p = Payload::default();
        for _ in 0..self.s.small(4) {
            p.positional.push(self.pval(width, 2));
        }
        for n in ARG_NAMES {
            if self.s.chance(1, 4) {
                p.named.push(PNamed { name: n.to_string(), value: Some(self.pval(width, 2)) });
            }
        }
        if let Some(n) = columns {
            for _ in 0..n {
                let c = match self.s.weighted(&[3, if width > 0 { 3 } else { 0 }, 1]) {
                    0 => PCol { name: self.name(), ty: Some(self.ty(1)), expr: None },
                    1 => PCol { name: String::new(), ty: None, expr: Some(field(self.s.idx(width) as i32)) },
                    _ => {
                        let e = self.expr(width, 2);
                        match &e.rex_type {
                            // `false:boolean?` and `null:i64?` are also how columns of these names are written.
                            Some(RexType::Literal(Literal { literal_type: Some(LiteralType::Boolean(_) | LiteralType::Null(_)), .. })) => {
                                PCol { name: self.name(), ty: Some(self.ty(1)), expr: None }
                            }
                            _ => PCol { name: String::new(), ty: None, expr: Some(e) },
                        }
                    }
                };
                p.columns.push(c);
            }
        }
        p
    }
    fn any(&mut self, p: &Payload, at: Where) -> pbjson_types::Any {
        let k = self.s.idx(PLAN_NAMES);
        if let Some(t) = &mut self.tags {
            let mut p = p.clone();
            p.positional.insert(0, PKind::Str(tag(t.len())).into());
            t.push((k, at));
            return pbjson_types::Any { type_url: url(k), value: p.encode_to_vec().into() };
        }
        pbjson_types::Any { type_url: url(k), value: p.encode_to_vec().into() }
    }
    fn advext(&mut self, width: usize) -> Option<AdvancedExtension> {
        if !self.o.ext || !self.s.chance(1, 3) {
            return None;
        }
        let mut a = AdvancedExtension::default();
        if self.s.chance(1, 2) {
            let p = self.payload(width, None);
            a.enhancement = Some(self.any(&p, Where::Enhancement));
        }
        for _ in 0..self.s.small(3) {
            let p = self.payload(width, None);
            let any = self.any(&p, Where::Optimization);
            a.optimization.push(any);
        }
        if a.enhancement.is_none() && a.optimization.is_empty() { None } else { Some(a) }
    }

    // ---- relations ----

    fn emit(&mut self, width: usize) -> (RelCommon, usize) {
        if self.s.chance(1, 2) {
            return (direct(), width);
        }
        let n = if width == 0 { 0 } else { self.s.idx(width + 2) };
        let m: Vec<i32> = (0..n).map(|_| self.s.idx(width) as i32).collect();
        self.emit_of(m, width)
    }
    fn emit_of(&mut self, m: Vec<i32>, width: usize) -> (RelCommon, usize) {
        let n = m.len();
        if n == width && m.iter().enumerate().all(|(i, v)| *v == i as i32) {
            return (direct(), n);
        }
        (RelCommon { emit_kind: Some(EmitKind::Emit(Emit { output_mapping: m })), ..Default::default() }, n)
    }
    fn schema(&mut self, n: usize) -> NamedStruct {
        NamedStruct {
            names: (0..n).map(|_| self.name()).collect(),
            r#struct: Some(ty::Struct {
                types: (0..n).map(|_| self.ty(2)).collect(),
                type_variation_reference: 0,
                nullability: Nullability::Required as i32,
            }),
        }
    }
    fn leaf(&mut self) -> (Rel, usize) {
        let w = [6, 3, if self.o.ext { 2 } else { 0 }, if self.o.ext { 2 } else { 0 }];
        match self.s.weighted(&w) {
            0 => {
                let n = self.s.weighted(&[1, 4, 6, 4, 2, 1]);
                let schema = self.schema(n);
                let names = (0..1 + self.s.small(2)).map(|_| self.name()).collect();
                let (common, out) = if self.s.chance(1, 4) {
                    let m: Vec<i32> = if n == 0 { vec![] } else { (0..self.s.idx(n + 2)).map(|_| self.s.idx(n) as i32).collect() };
                    let k = m.len();
                    (RelCommon { emit_kind: Some(EmitKind::Emit(Emit { output_mapping: m })), ..Default::default() }, k)
                } else {
                    (direct(), n)
                };
                let advanced_extension = self.advext(n);
                (
                    rel(RelType::Read(Box::new(ReadRel {
                        common: Some(common),
                        base_schema: Some(schema),
                        read_type: Some(read_rel::ReadType::NamedTable(read_rel::NamedTable { names, advanced_extension: None })),
                        advanced_extension,
                        ..Default::default()
                    }))),
                    out,
                )
            }
            1 => {
                let n = self.s.weighted(&[1, 4, 4, 2]);
                let schema = self.schema(n);
                let rows = if self.o.big && self.s.chance(1, 3) { self.s.idx(120) } else { self.s.small(6) };
                let expressions = (0..rows)
                    .map(|_| nested::Struct { fields: (0..n).map(|_| self.expr(0, 1)).collect() })
                    .collect();
                let filter = if self.s.chance(1, 4) { Some(Box::new(self.expr(n, 2))) } else { None };
                let advanced_extension = self.advext(n);
                (
                    rel(RelType::Read(Box::new(ReadRel {
                        common: Some(direct()),
                        base_schema: Some(schema),
                        read_type: Some(read_rel::ReadType::VirtualTable(read_rel::VirtualTable { expressions, ..Default::default() })),
                        filter,
                        advanced_extension,
                        ..Default::default()
                    }))),
                    n,
                )
            }
            2 => {
                let n = self.s.weighted(&[1, 4, 4, 2]);
                let schema = self.schema(n);
                let p = self.payload(n, None);
                let detail = self.any(&p, Where::Table);
                let advanced_extension = self.advext(n);
                (
                    rel(RelType::Read(Box::new(ReadRel {
                        common: Some(direct()),
                        base_schema: Some(schema),
                        read_type: Some(read_rel::ReadType::ExtensionTable(read_rel::ExtensionTable { detail: Some(detail) })),
                        advanced_extension,
                        ..Default::default()
                    }))),
                    n,
                )
            }
            _ => {
                let n = self.s.idx(4);
                let p = self.payload(0, Some(n));
                let detail = self.any(&p, Where::Relation);
                (rel(RelType::ExtensionLeaf(ExtensionLeafRel { common: Some(direct()), detail: Some(detail) })), n)
            }
        }
    }
    pub fn rel(&mut self) -> (Rel, usize) {
        self.left -= 1;
        if self.left <= 0 {
            return self.leaf();
        }
        let d = self.o.depth;
        let e = if self.o.ext { 2 } else { 0 };
        match self.s.weighted(&[3, 4, 4, 3, 2, 2, 3, 2, 2, e, e]) {
            0 => self.leaf(),
            1 => {
                let (input, w) = self.rel();
                let condition = self.expr(w, d);
                let advanced_extension = self.advext(w);
                let (common, out) = self.emit(w);
                (
                    rel(RelType::Filter(Box::new(FilterRel {
                        common: Some(common),
                        input: Some(Box::new(input)),
                        condition: Some(Box::new(condition)),
                        advanced_extension,
                    }))),
                    out,
                )
            }
            2 => {
                let (input, w) = self.rel();
                let n = self.s.idx(5);
                let mut m = vec![];
                let mut expressions = vec![];
                for _ in 0..n {
                    if w > 0 && self.s.chance(1, 2) {
                        m.push(self.s.idx(w) as i32);
                    } else {
                        let x = self.expr(0, d);
                        let x = if matches!(x.rex_type, Some(RexType::Literal(_))) && self.s.chance(1, 2) { self.compute(w, d) } else { x };
                        m.push((w + expressions.len()) as i32);
                        expressions.push(x);
                    }
                }
                if self.s.chance(1, 5) {
                    // all input columns first: the direct form
                    m = (0..w as i32).chain((0..expressions.len()).map(|i| (w + i) as i32)).collect();
                }
                let advanced_extension = self.advext(w);
                let dw = w + expressions.len();
                let (common, out) = self.emit_of(m, dw);
                (
                    rel(RelType::Project(Box::new(ProjectRel {
                        common: Some(common),
                        input: Some(Box::new(input)),
                        expressions,
                        advanced_extension,
                    }))),
                    out,
                )
            }
            3 => self.aggregate(),
            4 => {
                let (input, w) = self.rel();
                let sorts = (0..1 + self.s.small(2))
                    .map(|_| SortField { expr: Some(self.expr(w, 1)), sort_kind: Some(SortKind::Direction(1 + self.s.idx(4) as i32)) })
                    .collect();
                let advanced_extension = self.advext(w);
                let (common, out) = self.emit(w);
                (
                    rel(RelType::Sort(Box::new(SortRel { common: Some(common), input: Some(Box::new(input)), sorts, advanced_extension }))),
                    out,
                )
            }
            5 => {
                let (input, w) = self.rel();
                let count_mode = if self.s.chance(2, 3) { Some(fetch_rel::CountMode::CountExpr(Box::new(self.count()))) } else { None };
                let offset_mode = if self.s.chance(1, 2) { Some(fetch_rel::OffsetMode::OffsetExpr(Box::new(self.count()))) } else { None };
                let advanced_extension = self.advext(w);
                let (common, out) = self.emit(w);
                (
                    rel(RelType::Fetch(Box::new(FetchRel {
                        common: Some(common),
                        input: Some(Box::new(input)),
                        offset_mode,
                        count_mode,
                        advanced_extension,
                    }))),
                    out,
                )
            }
            6 => {
                let (left, lw) = self.rel();
                let (right, rw) = self.rel();
                let w = lw + rw;
                let jt = 1 + self.s.idx(12) as i32;
                let expression = self.expr(w, d);
                let post = if self.s.chance(1, 4) { Some(Box::new(self.expr(w, 1))) } else { None };
                let advanced_extension = self.advext(w);
                // Inner, Outer, Left, Right: both sides. Other join types have other direct widths, which the
                // text format does not express yet: give them an explicit mapping that is not the identity.
                let (common, out) = if (1..=4).contains(&jt) {
                    self.emit(w)
                } else {
                    let side = lw.min(rw);
                    let n = self.s.idx(side + 1).min(w.saturating_sub(1));
                    let m: Vec<i32> = (0..n).map(|_| self.s.idx(side.max(1)) as i32).collect();
                    if w == 0 {
                        return self.leaf();
                    }
                    (RelCommon { emit_kind: Some(EmitKind::Emit(Emit { output_mapping: m })), ..Default::default() }, n)
                };
                (
                    rel(RelType::Join(Box::new(JoinRel {
                        common: Some(common),
                        left: Some(Box::new(left)),
                        right: Some(Box::new(right)),
                        expression: Some(Box::new(expression)),
                        post_join_filter: post,
                        r#type: jt,
                        advanced_extension,
                    }))),
                    out,
                )
            }
            7 => {
                let (left, lw) = self.rel();
                let (right, rw) = self.rel();
                let advanced_extension = self.advext(lw + rw);
                let (common, out) = self.emit(lw + rw);
                (
                    rel(RelType::Cross(Box::new(CrossRel {
                        common: Some(common),
                        left: Some(Box::new(left)),
                        right: Some(Box::new(right)),
                        advanced_extension,
                    }))),
                    out,
                )
            }
            8 => {
                let (first, w) = self.rel();
                let mut inputs = vec![first];
                for _ in 0..1 + self.s.small(2) {
                    let (r, rw) = self.rel();
                    let r = if rw == w {
                        r
                    } else {
                        // widen or narrow with a projection of literals
                        let expressions: Vec<Expression> = (0..w).map(|_| lit(LiteralType::I64(self.s.below(9) as i64))).collect();
                        let m: Vec<i32> = (0..w).map(|i| (rw + i) as i32).collect();
                        let (common, _) = self.emit_of(m, rw + w);
                        rel(RelType::Project(Box::new(ProjectRel {
                            common: Some(common),
                            input: Some(Box::new(r)),
                            expressions,
                            advanced_extension: None,
                        })))
                    };
                    inputs.push(r);
                }
                let op = *self.s.pick(&[6, 5, 1, 2, 3, 4, 7, 8]);
                let advanced_extension = self.advext(w);
                let (common, out) = self.emit(w);
                (rel(RelType::Set(SetRel { common: Some(common), inputs, op, advanced_extension })), out)
            }
            9 => {
                let (input, w) = self.rel();
                let n = self.s.idx(4);
                let p = self.payload(w, Some(n));
                let detail = self.any(&p, Where::Relation);
                (
                    rel(RelType::ExtensionSingle(Box::new(ExtensionSingleRel {
                        common: Some(direct()),
                        input: Some(Box::new(input)),
                        detail: Some(detail),
                    }))),
                    n,
                )
            }
            _ => {
                let k = 2 + self.s.small(2);
                let mut inputs = vec![];
                let mut w = 0;
                for _ in 0..k {
                    let (r, rw) = self.rel();
                    inputs.push(r);
                    w += rw;
                }
                let n = self.s.idx(4);
                let p = self.payload(w, Some(n));
                let detail = self.any(&p, Where::Relation);
                (rel(RelType::ExtensionMulti(ExtensionMultiRel { common: Some(direct()), inputs, detail: Some(detail) })), n)
            }
        }
    }
    /// An expression that is neither a plain field reference nor necessarily constant.
    fn compute(&mut self, w: usize, d: usize) -> Expression {
        if !self.funcs.is_empty() && self.s.chance(2, 3) {
            return Expression { rex_type: Some(RexType::ScalarFunction(self.call(w, d))) };
        }
        let input = self.expr(w, d.saturating_sub(1));
        let ty = self.ty(1);
        Expression { rex_type: Some(RexType::Cast(Box::new(Cast { r#type: Some(ty), input: Some(Box::new(input)), failure_behavior: 0 }))) }
    }
    fn count(&mut self) -> Expression {
        match self.s.weighted(&[6, 2, 1]) {
            0 => lit(LiteralType::I64(*self.s.pick(&[0, 1, 5, 10, 100, 1_000_000, i64::MAX]))),
            1 => self.compute(0, 2),
            _ => {
                let l = self.literal();
                // a negative count is refused by the parser
                let neg = matches!(l.literal_type, Some(LiteralType::I64(i)) if i < 0);
                if neg { lit(LiteralType::I64(3)) } else { Expression { rex_type: Some(RexType::Literal(l)) } }
            }
        }
    }
    fn aggregate(&mut self) -> (Rel, usize) {
        let (input, w) = self.rel();
        let nsets = if self.s.chance(1, 3) { 2 + self.s.small(2) } else { 1 };
        let mut grouping_expressions: Vec<Expression> = vec![];
        let mut groupings = vec![];
        for _ in 0..nsets {
            let n = self.s.small(3);
            let mut refs = vec![];
            for _ in 0..n {
                let e = if !grouping_expressions.is_empty() && self.s.chance(1, 3) {
                    self.s.pick(&grouping_expressions.clone()).clone()
                } else if w > 0 && self.s.chance(3, 4) {
                    field(self.s.idx(w) as i32)
                } else {
                    self.expr(w, 2)
                };
                let key = e.encode_to_vec();
                let i = match grouping_expressions.iter().position(|g| g.encode_to_vec() == key) {
                    Some(i) => i,
                    None => {
                        grouping_expressions.push(e);
                        grouping_expressions.len() - 1
                    }
                };
                if !refs.contains(&(i as u32)) {
                    refs.push(i as u32);
                }
            }
            groupings.push(aggregate_rel::Grouping { grouping_expressions: vec![], expression_references: refs });
        }
        // Order of first use is the order in the text.
        let mut measures = vec![];
        if !self.funcs.is_empty() {
            for _ in 0..self.s.small(3) {
                let f = self.call(w, 2);
                let as_expr = Expression { rex_type: Some(RexType::ScalarFunction(f.clone())) }.encode_to_vec();
                if grouping_expressions.iter().any(|g| g.encode_to_vec() == as_expr) {
                    continue;
                }
                measures.push(aggregate_rel::Measure {
                    measure: Some(AggregateFunction {
                        function_reference: f.function_reference,
                        arguments: f.arguments,
                        options: vec![],
                        output_type: f.output_type,
                        phase: 0,
                        sorts: vec![],
                        invocation: 0,
                        args: vec![],
                    }),
                    filter: None,
                });
            }
        }
        let g = grouping_expressions.len();
        let dw = g + measures.len();
        // Each measure exactly once, in order; grouping expressions anywhere.
        let mut m: Vec<i32> = vec![];
        if self.s.chance(1, 2) {
            m = (0..dw as i32).collect();
        } else {
            let mut next = 0;
            loop {
                let can_g = g > 0 && m.len() < dw + 2;
                if can_g && self.s.chance(1, 2) {
                    m.push(self.s.idx(g) as i32);
                } else if next < measures.len() {
                    m.push((g + next) as i32);
                    next += 1;
                } else {
                    break;
                }
            }
        }
        let advanced_extension = self.advext(w);
        let (common, out) = self.emit_of(m, dw);
        (
            rel(RelType::Aggregate(Box::new(AggregateRel {
                common: Some(common),
                input: Some(Box::new(input)),
                grouping_expressions,
                groupings,
                measures,
                advanced_extension,
            }))),
            out,
        )
    }

    pub fn plan(&mut self) -> Plan {
        let mut p = Plan::default();
        if self.s.chance(1, 4) {
            let v = Version {
                major_number: self.s.idx(3) as u32,
                minor_number: self.s.idx(90) as u32,
                patch_number: self.s.idx(10) as u32,
                git_hash: if self.s.chance(1, 3) { "0123456789abcdef0123456789abcdef01234567".into() } else { String::new() },
                producer: if self.s.chance(1, 2) { self.s.pick(&["sim", "data dog 1.0", "ünï: x", "a=b"]).to_string() } else { String::new() },
            };
            if v != Version::default() {
                p.version = Some(v);
            }
        }
        self.declarations(&mut p);
        let n = self.s.weighted(&[12, 3, 1]) + 1;
        for _ in 0..n {
            self.left = 1 + self.s.idx(self.o.size) as i64;
            let tags = self.tags.clone();
            let (mut r, mut w) = self.rel();
            // every reader has a limit on nesting
            while !readable(&r) {
                self.left = 1;
                self.tags = tags.clone();
                (r, w) = self.rel();
            }
            let pr = if self.s.chance(1, 4) {
                plan_rel::RelType::Rel(r)
            } else {
                plan_rel::RelType::Root(RelRoot { input: Some(r), names: (0..w).map(|_| self.name()).collect() })
            };
            p.relations.push(PlanRel { rel_type: Some(pr) });
        }
        p
    }
}

fn readable(r: &Rel) -> bool {
    let p = Plan { relations: vec![PlanRel { rel_type: Some(plan_rel::RelType::Root(RelRoot { input: Some(r.clone()), names: vec![] })) }], ..Default::default() };
    let b = p.encode_to_vec();
    // nesting costs two bytes and more a level
    b.len() < 150 || Plan::decode(&b[..]).is_ok() && [Fmt::Json, Fmt::Yaml].iter().all(|f| f.encode(&p).is_none_or(|b| f.decode(&b).unwrap().is_ok()))
}

pub fn plan(s: &mut Src, o: Opts) -> Plan {
    Gen::new(s, o).plan()
}

/// A plan whose payloads carry `tag(0)`, `tag(1)`, … and where each of them is.
pub fn tagged(s: &mut Src, o: Opts) -> (Plan, Vec<(usize, Where)>) {
    let mut g = Gen::new(s, o);
    g.tags = Some(vec![]);
    let p = g.plan();
    let t = g.tags.take().unwrap();
    (p, t)
}

/// Replace the plan's relations by a filter with this condition over a small read.
pub fn wrap_filter(p: &mut Plan, cond: Expression) {
    let read = rel(RelType::Read(Box::new(ReadRel {
        common: Some(direct()),
        base_schema: Some(NamedStruct {
            names: vec!["a".into()],
            r#struct: Some(ty::Struct {
                types: vec![t(Kind::I64(ty::I64 { type_variation_reference: 0, nullability: Nullability::Required as i32 }))],
                type_variation_reference: 0,
                nullability: Nullability::Required as i32,
            }),
        }),
        read_type: Some(read_rel::ReadType::NamedTable(read_rel::NamedTable { names: vec!["t".into()], advanced_extension: None })),
        ..Default::default()
    })));
    let f = rel(RelType::Filter(Box::new(FilterRel {
        common: Some(direct()),
        input: Some(Box::new(read)),
        condition: Some(Box::new(cond)),
        advanced_extension: None,
    })));
    p.relations = vec![PlanRel { rel_type: Some(plan_rel::RelType::Rel(f)) }];
}

/// Give the plan a sort whose direction is a number no enum value has: it decodes, but has no JSON form.
pub fn bad_enum(p: &mut Plan) {
    let input = p.relations.iter().find_map(|r| match &r.rel_type {
        Some(plan_rel::RelType::Rel(r)) => Some(r.clone()),
        Some(plan_rel::RelType::Root(r)) => r.input.clone(),
        _ => None,
    });
    let f = rel(RelType::Sort(Box::new(SortRel {
        common: Some(direct()),
        input: input.map(Box::new),
        sorts: vec![SortField { expr: Some(field(0)), sort_kind: Some(SortKind::Direction(99)) }],
        advanced_extension: None,
    })));
    p.relations = vec![PlanRel { rel_type: Some(plan_rel::RelType::Rel(f)) }];
}
pub fn empty_schema() -> NamedStruct {
    NamedStruct {
        names: vec![],
        r#struct: Some(ty::Struct { types: vec![], type_variation_reference: 0, nullability: Nullability::Required as i32 }),
    }
}
