//! Plans with something wrong that a text cannot hide: a required part missing, or a part the text format has
//! no form for.
#![allow(deprecated)]
use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
use substrait::proto::expression::literal::{Decimal, IntervalDayToSecond, IntervalYearToMonth, LiteralType, PrecisionTime, PrecisionTimestamp, Struct as LitStruct, VarChar};
use substrait::proto::expression::field_reference::{ReferenceType, RootType};
use substrait::proto::expression::reference_segment::{ReferenceType as Segment, StructField};
use substrait::proto::expression::{Cast, FieldReference, IfThen, ReferenceSegment, Literal, RexType, ScalarFunction, if_then};
use substrait::proto::extensions::simple_extension_declaration::{ExtensionFunction, ExtensionType, MappingType};
use substrait::proto::extensions::{AdvancedExtension, SimpleExtensionDeclaration, SimpleExtensionUrn};
use substrait::proto::function_argument::ArgType;
use substrait::proto::rel::RelType;
use substrait::proto::rel_common::{Emit, EmitKind};
use substrait::proto::sort_field::SortKind;
use substrait::proto::r#type::{self as ty, Kind};
use substrait::proto::{Expression, FilterRel, FunctionArgument, Plan, PlanRel, Rel, RelCommon, SortField, SortRel, Type, plan_rel, read_rel};

use crate::plangen::{direct, lit};
use crate::src::Src;

fn i64t() -> Type {
    Type { kind: Some(Kind::I64(ty::I64 { type_variation_reference: 0, nullability: 2 })) }
}
fn rex(r: RexType) -> Expression {
    Expression { rex_type: Some(r) }
}
fn interval(days: i32, subseconds: i64, precision: i32) -> LiteralType {
    LiteralType::IntervalDayToSecond(IntervalDayToSecond { days, seconds: 1, subseconds, precision_mode: Some(PrecisionMode::Precision(precision)) })
}
/// A type no text stands for.
fn bad_type(s: &mut Src) -> Type {
    let i64n = || Some(Box::new(i64t()));
    let map = |k, v| Type { kind: Some(Kind::Map(Box::new(ty::Map { key: k, value: v, type_variation_reference: 0, nullability: 2 }))) };
    match s.idx(10) {
        4 => Type { kind: Some(Kind::Func(Default::default())) },
        5 => Type { kind: Some(Kind::Alias(Default::default())) },
        6 => map(None, i64n()),
        7 => map(i64n(), None),
        8 => Type { kind: Some(Kind::Struct(ty::Struct { types: vec![i64t(), Type { kind: None }], type_variation_reference: 0, nullability: 2 })) },
        9 => Type { kind: Some(Kind::I64(ty::I64 { type_variation_reference: 4_000_000, nullability: 1 })) },
        0 => Type { kind: None },
        1 => Type { kind: Some(Kind::UserDefined(ty::UserDefined { type_reference: 4_000_000, nullability: 2, ..Default::default() })) },
        2 => Type { kind: Some(Kind::I64(ty::I64 { type_variation_reference: 0, nullability: *s.pick(&[0, 3, 77]) })) },
        _ => Type { kind: Some(Kind::List(Box::new(ty::List { r#type: None, type_variation_reference: 0, nullability: 2 }))) },
    }
}
fn bad_literal(s: &mut Src) -> LiteralType {
    let day = |p: i32| 86_400 * 10i64.pow(p as u32);
    match s.idx(18) {
        0 => LiteralType::Time(*s.pick(&[day(6), -1, i64::MAX, i64::MIN, day(6) + 1, day(6) * 2])),
        1 => {
            let p = *s.pick(&[0, 3, 6, 9]);
            LiteralType::PrecisionTime(PrecisionTime { precision: p, value: *s.pick(&[day(p), -1, i64::MAX, i64::MIN, day(p) + 1]) })
        }
        2 => LiteralType::PrecisionTime(PrecisionTime { precision: *s.pick(&[13, -1, 10, 1000]), value: 1 }),
        3 => {
            let v = PrecisionTimestamp { precision: *s.pick(&[0, 3]), value: *s.pick(&[i64::MAX, i64::MIN]) };
            if s.chance(1, 2) { LiteralType::PrecisionTimestamp(v) } else { LiteralType::PrecisionTimestampTz(v) }
        }
        4 => {
            let v = PrecisionTimestamp { precision: *s.pick(&[13, -1, 10]), value: 1 };
            if s.chance(1, 2) { LiteralType::PrecisionTimestamp(v) } else { LiteralType::PrecisionTimestampTz(v) }
        }
        5 => LiteralType::Timestamp(*s.pick(&[i64::MAX, i64::MIN])),
        6 => LiteralType::Date(*s.pick(&[i32::MAX, i32::MIN, 200_000_000, -200_000_000])),
        7 => LiteralType::Fp64(*s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])),
        8 => LiteralType::Fp32(*s.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY])),
        9 => LiteralType::Uuid(vec![7; 16]),
        10 => LiteralType::FixedChar("a".into()),
        11 => LiteralType::VarChar(VarChar { value: "a".into(), length: 3 }),
        12 => LiteralType::Decimal(Decimal { value: vec![1; 16], precision: 3, scale: 1 }),
        13 => LiteralType::IntervalYearToMonth(IntervalYearToMonth { years: 1, months: 2 }),
        14 => interval(1, 5, *s.pick(&[7, 13, -1, 1])),
        15 => s.pick(&[interval(1, 1000, 3), interval(4_000_000, 0, 3), interval(-4_000_000, 0, 0), interval(i32::MAX, 1, 6), interval(1, 1_000_000, 6)]).clone(),
        16 => LiteralType::Null(bad_type(s)),
        _ => s.pick(&[LiteralType::List(Default::default()), LiteralType::Struct(Default::default()), LiteralType::Map(Default::default()), LiteralType::FixedBinary(vec![1]), LiteralType::IntervalCompound(Default::default()), LiteralType::TimestampTz(1), LiteralType::EmptyList(Default::default()), LiteralType::EmptyMap(Default::default()), LiteralType::UserDefined(Default::default())]).clone(),
    }
}
/// A reference to something other than one column of the input.
fn bad_reference(s: &mut Src) -> FieldReference {
    let field = |f: i32, child| ReferenceSegment { reference_type: Some(Segment::StructField(Box::new(StructField { field: f, child }))) };
    let direct = |g| FieldReference { reference_type: Some(ReferenceType::DirectReference(g)), root_type: Some(RootType::RootReference(Default::default())) };
    let rooted = |r| FieldReference { reference_type: Some(ReferenceType::DirectReference(field(0, None))), root_type: r };
    match s.idx(9) {
        0 => Default::default(),
        1 => direct(field(0, Some(Box::new(field(1, None))))),
        2 => direct(ReferenceSegment { reference_type: Some(Segment::ListElement(Default::default())) }),
        3 => direct(ReferenceSegment { reference_type: Some(Segment::MapKey(Default::default())) }),
        4 => direct(ReferenceSegment { reference_type: None }),
        5 => rooted(None),
        6 => rooted(Some(RootType::OuterReference(Default::default()))),
        7 => rooted(Some(RootType::Expression(Box::new(lit(LiteralType::I64(1)))))),
        _ => FieldReference { reference_type: Some(ReferenceType::MaskedReference(Default::default())), root_type: Some(RootType::RootReference(Default::default())) },
    }
}
fn bad_expr(s: &mut Src, depth: usize) -> Expression {
    let one = || lit(LiteralType::I64(1));
    if depth > 0 && s.chance(1, 3) {
        let b = bad_expr(s, depth - 1);
        return match s.idx(5) {
            0 => rex(RexType::Cast(Box::new(Cast { r#type: Some(i64t()), input: Some(Box::new(b)), failure_behavior: 0 }))),
            k => {
                let mut v = [one(), one(), one()];
                v[k % 3] = b;
                let [i, t, e] = v;
                rex(RexType::IfThen(Box::new(IfThen { ifs: vec![if_then::IfClause { r#if: Some(i), then: Some(t) }], r#else: Some(Box::new(e)) })))
            }
        };
    }
    match s.idx(12) {
        0..=4 => rex(RexType::Literal(Literal { nullable: false, type_variation_reference: 0, literal_type: Some(bad_literal(s)) })),
        5 => Expression { rex_type: None },
        6 => rex(RexType::Literal(Literal { nullable: s.chance(1, 2), type_variation_reference: 0, literal_type: None })),
        7 => rex(RexType::Selection(Box::new(bad_reference(s)))),
        8 => rex(
            s.pick(&[RexType::WindowFunction(Default::default()), RexType::SwitchExpression(Default::default()), RexType::SingularOrList(Default::default()), RexType::MultiOrList(Default::default()), RexType::Subquery(Default::default()), RexType::Nested(Default::default()), RexType::DynamicParameter(Default::default()), RexType::Lambda(Default::default()), RexType::LambdaInvocation(Default::default()), RexType::Enum(Default::default())])
                .clone(),
        ),
        9 => {
            let (i, t) = if s.chance(1, 2) { (None, Some(i64t())) } else { (Some(Box::new(one())), s.chance(1, 2).then(|| bad_type(s))) };
            if s.chance(1, 4) {
                return rex(RexType::Cast(Box::new(Cast { r#type: Some(i64t()), input: Some(Box::new(one())), failure_behavior: *s.pick(&[3, -1, 99]) })));
            }
            rex(RexType::Cast(Box::new(Cast { r#type: t, input: i, failure_behavior: 0 })))
        }
        10 => {
            let (i, t, e) = match s.idx(3) {
                0 => (None, Some(one()), Some(one())),
                1 => (Some(one()), None, Some(one())),
                _ => (Some(one()), Some(one()), None),
            };
            rex(RexType::IfThen(Box::new(IfThen { ifs: vec![if_then::IfClause { r#if: i, then: t }], r#else: e.map(Box::new) })))
        }
        _ => rex(RexType::ScalarFunction(ScalarFunction {
            function_reference: 4_000_000,
            arguments: vec![FunctionArgument { arg_type: s.chance(1, 2).then(|| ArgType::Value(one())) }],
            output_type: s.chance(1, 2).then(i64t),
            ..Default::default()
        })),
    }
}

fn inputs(r: &mut Rel) -> Vec<&mut Rel> {
    let Some(t) = &mut r.rel_type else { return vec![] };
    match t {
        RelType::Filter(x) => x.input.as_deref_mut().into_iter().collect(),
        RelType::Fetch(x) => x.input.as_deref_mut().into_iter().collect(),
        RelType::Aggregate(x) => x.input.as_deref_mut().into_iter().collect(),
        RelType::Sort(x) => x.input.as_deref_mut().into_iter().collect(),
        RelType::Project(x) => x.input.as_deref_mut().into_iter().collect(),
        RelType::ExtensionSingle(x) => x.input.as_deref_mut().into_iter().collect(),
        RelType::Join(x) => x.left.as_deref_mut().into_iter().chain(x.right.as_deref_mut()).collect(),
        RelType::Cross(x) => x.left.as_deref_mut().into_iter().chain(x.right.as_deref_mut()).collect(),
        RelType::Set(x) => x.inputs.iter_mut().collect(),
        RelType::ExtensionMulti(x) => x.inputs.iter_mut().collect(),
        _ => vec![],
    }
}
fn count(r: &mut Rel) -> usize {
    1 + inputs(r).into_iter().map(count).sum::<usize>()
}
fn nth<'a>(r: &'a mut Rel, k: &mut usize) -> Option<&'a mut Rel> {
    if *k == 0 {
        return Some(r);
    }
    *k -= 1;
    inputs(r).into_iter().find_map(|x| nth(x, k))
}
fn shows_all(c: &Option<RelCommon>) -> bool {
    !matches!(c.as_ref().and_then(|c| c.emit_kind.as_ref()), Some(EmitKind::Emit(_)))
}

/// The expressions of a relation that its text shows.
fn shown(r: &mut Rel) -> Vec<&mut Expression> {
    let Some(t) = &mut r.rel_type else { return vec![] };
    match t {
        RelType::Filter(x) => x.condition.as_deref_mut().into_iter().collect(),
        RelType::Project(x) if shows_all(&x.common) => x.expressions.iter_mut().collect(),
        RelType::Sort(x) => x.sorts.iter_mut().filter_map(|s| s.expr.as_mut()).collect(),
        RelType::Join(x) => x.expression.as_deref_mut().into_iter().chain(x.post_join_filter.as_deref_mut()).collect(),
        RelType::Aggregate(x) if shows_all(&x.common) => x.measures.iter_mut().filter_map(|m| m.measure.as_mut()).flat_map(|f| &mut f.arguments).filter_map(value).collect(),
        RelType::Read(x) => match &mut x.read_type {
            Some(read_rel::ReadType::VirtualTable(v)) => v.expressions.iter_mut().flat_map(|r| &mut r.fields).collect(),
            _ => vec![],
        },
        _ => vec![],
    }
}
fn value(a: &mut FunctionArgument) -> Option<&mut Expression> {
    match &mut a.arg_type {
        Some(ArgType::Value(e)) => Some(e),
        _ => None,
    }
}
fn parts(e: &mut Expression) -> Vec<&mut Expression> {
    match &mut e.rex_type {
        Some(RexType::ScalarFunction(f)) => f.arguments.iter_mut().filter_map(value).collect(),
        Some(RexType::Cast(x)) => x.input.as_deref_mut().into_iter().collect(),
        Some(RexType::IfThen(x)) => x.ifs.iter_mut().flat_map(|c| c.r#if.as_mut().into_iter().chain(c.then.as_mut())).chain(x.r#else.as_deref_mut()).collect(),
        _ => vec![],
    }
}
/// Put a wrong expression in place of one of a relation's.
fn break_expr(s: &mut Src, r: &mut Rel) -> Option<String> {
    let mut v = shown(r);
    if v.is_empty() {
        return None;
    }
    let i = s.idx(v.len());
    let mut e = v.swap_remove(i);
    loop {
        let n = parts(e).len();
        if n == 0 || s.chance(1, 3) {
            break;
        }
        let i = s.idx(n);
        e = parts(e).swap_remove(i);
    }
    *e = bad_expr(s, 1);
    Some(format!("{e:?}"))
}

/// A relation the text format does not know.
fn unsupported(s: &mut Src) -> Rel {
    Rel {
        rel_type: Some(match s.idx(10) {
            0 => RelType::Reference(Default::default()),
            1 => RelType::Write(Default::default()),
            2 => RelType::HashJoin(Default::default()),
            3 => RelType::Window(Default::default()),
            4 => RelType::Expand(Default::default()),
            5 => RelType::Ddl(Default::default()),
            6 => RelType::Update(Default::default()),
            7 => RelType::MergeJoin(Default::default()),
            8 => RelType::NestedLoopJoin(Default::default()),
            _ => RelType::Exchange(Default::default()),
        }),
    }
}

/// An enhancement, which changes what a plan means, in a place where text has no line for it.
fn enhanced() -> Option<AdvancedExtension> {
    let enhancement = Some(pbjson_types::Any { type_url: "type.googleapis.com/sim.P0".into(), value: Default::default() });
    Some(AdvancedExtension { enhancement, optimization: vec![] })
}
fn remapped() -> Option<RelCommon> {
    Some(RelCommon { emit_kind: Some(EmitKind::Emit(Emit { output_mapping: vec![0] })), ..Default::default() })
}
/// Break one relation; `None` if this one has nothing of the kind.
fn break_rel(s: &mut Src, r: &mut Rel) -> Option<&'static str> {
    r.rel_type.as_ref()?;
    if s.chance(1, 8) {
        *r = if s.chance(1, 3) { Rel { rel_type: None } } else { unsupported(s) };
        return Some("unsupported relation in the tree");
    }
    let t = r.rel_type.as_mut()?;
    if s.chance(1, 10) {
        let c = match t {
            RelType::Read(x) => &mut x.common,
            RelType::Filter(x) => &mut x.common,
            RelType::Project(x) => &mut x.common,
            RelType::Aggregate(x) => &mut x.common,
            RelType::Sort(x) => &mut x.common,
            RelType::Fetch(x) => &mut x.common,
            RelType::Join(x) => &mut x.common,
            RelType::Set(x) => &mut x.common,
            RelType::Cross(x) => &mut x.common,
            RelType::ExtensionLeaf(x) => &mut x.common,
            RelType::ExtensionSingle(x) => &mut x.common,
            RelType::ExtensionMulti(x) => &mut x.common,
            _ => return None,
        };
        c.get_or_insert_with(direct).advanced_extension = enhanced();
        return Some("enhancement of the common part of a relation");
    }
    Some(match t {
        RelType::Filter(x) => match s.idx(2) {
            0 => {
                x.input = None;
                "filter without input"
            }
            _ => {
                x.condition = None;
                "filter without condition"
            }
        },
        RelType::Fetch(x) => {
            x.input = None;
            "fetch without input"
        }
        RelType::Project(x) => {
            x.input = None;
            "project without input"
        }
        RelType::ExtensionSingle(x) => match s.idx(3) {
            0 => {
                x.input = None;
                "extension without input"
            }
            1 => {
                x.common = remapped();
                "extension with an output mapping"
            }
            _ => {
                x.detail = None;
                "extension without detail"
            }
        },
        RelType::ExtensionMulti(x) => match s.idx(2) {
            0 => {
                x.common = remapped();
                "extension with an output mapping"
            }
            _ => {
                x.detail = None;
                "extension without detail"
            }
        },
        RelType::ExtensionLeaf(x) => match s.idx(2) {
            0 => {
                x.common = remapped();
                "extension with an output mapping"
            }
            _ => {
                x.detail = None;
                "extension without detail"
            }
        },
        RelType::Sort(x) => match s.idx(4) {
            0 => {
                x.input = None;
                "sort without input"
            }
            k => {
                let n = x.sorts.len();
                if n == 0 {
                    return None;
                }
                let f = &mut x.sorts[s.idx(n)];
                match k {
                    1 => f.expr = None,
                    2 => f.sort_kind = None,
                    _ => f.sort_kind = Some(*s.pick(&[SortKind::Direction(0), SortKind::Direction(99), SortKind::ComparisonFunctionReference(1)])),
                }
                "broken sort field"
            }
        },
        RelType::Join(x) => match s.idx(4) {
            0 => {
                x.left = None;
                "join without left input"
            }
            1 => {
                x.right = None;
                "join without right input"
            }
            2 => {
                x.expression = None;
                "join without condition"
            }
            _ => {
                x.r#type = *s.pick(&[0, 99, -1]);
                "join of unknown type"
            }
        },
        RelType::Cross(x) => {
            if s.chance(1, 2) {
                x.left = None;
            } else {
                x.right = None;
            }
            "cross without one input"
        }
        RelType::Set(x) => {
            x.op = *s.pick(&[0, 99, -1]);
            "unknown set operation"
        }
        RelType::Aggregate(x) => {
            if x.measures.is_empty() || !shows_all(&x.common) || s.chance(1, 3) {
                x.input = None;
                "aggregate without input"
            } else {
                let n = x.measures.len();
                let m = &mut x.measures[s.idx(n)];
                match (&mut m.measure, s.idx(3)) {
                    (Some(f), 0) => f.output_type = None,
                    (Some(f), 1) => f.function_reference = 4_000_000,
                    _ => m.measure = None,
                }
                "broken measure"
            }
        }
        RelType::Read(x) => {
            let named = matches!(x.read_type, Some(read_rel::ReadType::NamedTable(_)));
            match s.idx(8) {
                7 => {
                    let Some(read_rel::ReadType::NamedTable(t)) = &mut x.read_type else { return None };
                    t.advanced_extension = enhanced();
                    "enhancement of a table"
                }
                6 => {
                    let Some(read_rel::ReadType::VirtualTable(v)) = &mut x.read_type else { return None };
                    v.values.push(LitStruct { fields: vec![Literal { literal_type: Some(LiteralType::I64(1)), ..Default::default() }] });
                    "rows of a virtual table in their older form"
                }
                0 => {
                    x.read_type = None;
                    "read without source"
                }
                1 => {
                    x.read_type = Some(read_rel::ReadType::LocalFiles(Default::default()));
                    "read of local files"
                }
                2 if named => {
                    x.filter = Some(Box::new(lit(LiteralType::Boolean(true))));
                    "filter of a table read"
                }
                3 => {
                    x.projection = Some(Default::default());
                    "projection of a read"
                }
                _ if !shows_all(&x.common) => return None,
                4 => {
                    x.base_schema.as_mut()?.names.push("extra".into());
                    "more names than columns"
                }
                _ => {
                    let b = x.base_schema.as_mut()?;
                    match s.idx(3) {
                        0 => b.r#struct.as_mut()?.types.push(i64t()),
                        1 => {
                            let t = &mut b.r#struct.as_mut()?.types;
                            let n = t.len();
                            if n == 0 {
                                return None;
                            }
                            t[s.idx(n)] = bad_type(s);
                        }
                        _ => x.base_schema = None,
                    }
                    "broken schema"
                }
            }
        }
        _ => return None,
    })
}
fn function(u: u32, a: u32) -> MappingType {
    MappingType::ExtensionFunction(ExtensionFunction { extension_urn_reference: u, function_anchor: a, name: "zzz".into(), ..Default::default() })
}
fn user_type(u: u32, a: u32) -> MappingType {
    MappingType::ExtensionType(ExtensionType { extension_urn_reference: u, type_anchor: a, name: "zzz".into(), ..Default::default() })
}

/// Make something wrong with a plan, and say what.
pub fn wrong(s: &mut Src, p: &mut Plan) -> String {
    for _ in 0..4 {
        match s.weighted(&[4, 6, 3, 1]) {
            0 => {
                let mut rels: Vec<&mut Rel> = p
                    .relations
                    .iter_mut()
                    .filter_map(|r| match r.rel_type.as_mut()? {
                        plan_rel::RelType::Rel(r) => Some(r),
                        plan_rel::RelType::Root(r) => r.input.as_mut(),
                    })
                    .collect();
                if rels.is_empty() {
                    continue;
                }
                let i = s.idx(rels.len());
                let r = &mut *rels[i];
                let mut k = s.idx(count(r));
                let Some(r) = nth(r, &mut k) else { continue };
                if s.chance(1, 2) {
                    match break_expr(s, r) {
                        Some(w) => return w,
                        None => continue,
                    }
                }
                let e = bad_expr(s, 2);
                let w = format!("{e:?}");
                let old = std::mem::take(r);
                *r = Rel {
                    rel_type: Some(if s.chance(1, 4) {
                        RelType::Sort(Box::new(SortRel { common: Some(direct()), input: Some(Box::new(old)), sorts: vec![SortField { expr: Some(e), sort_kind: Some(SortKind::Direction(1)) }], advanced_extension: None }))
                    } else {
                        RelType::Filter(Box::new(FilterRel { common: Some(direct()), input: Some(Box::new(old)), condition: Some(Box::new(e)), advanced_extension: None }))
                    }),
                };
                return w;
            }
            1 => {
                let mut rels: Vec<&mut Rel> = p
                    .relations
                    .iter_mut()
                    .filter_map(|r| match r.rel_type.as_mut()? {
                        plan_rel::RelType::Rel(r) => Some(r),
                        plan_rel::RelType::Root(r) => r.input.as_mut(),
                    })
                    .collect();
                if rels.is_empty() {
                    continue;
                }
                let i = s.idx(rels.len());
                let r = &mut *rels[i];
                let mut k = s.idx(count(r));
                let Some(r) = nth(r, &mut k) else { continue };
                if let Some(w) = break_rel(s, r) {
                    return w.to_string();
                }
            }
            2 => {
                let i = s.idx(p.extensions.len() + 1);
                let a = 3_000_000;
                let urn = p.extension_urns.first().map(|u| u.extension_urn_anchor).unwrap_or(1);
                let decl = |m: Option<MappingType>| SimpleExtensionDeclaration { mapping_type: m };
                match s.idx(6) {
                    0 => p.extensions.insert(i, decl(Some(function(2_000_000, a)))),
                    1 => p.extensions.insert(i, decl(Some(user_type(2_000_000, a)))),
                    2 => p.extensions.insert(i, decl(None)),
                    3 if !p.extension_urns.is_empty() => {
                        let (f, g) = if s.chance(1, 2) { (function(urn, a), function(urn, a)) } else { (user_type(urn, a), user_type(urn, a)) };
                        p.extensions.insert(i, decl(Some(f)));
                        p.extensions.push(decl(Some(g)));
                    }
                    _ if !p.extension_urns.is_empty() => {
                        let j = s.idx(p.extension_urns.len() + 1);
                        p.extension_urns.insert(j, SimpleExtensionUrn { extension_urn_anchor: urn, urn: "urn:twice".into() });
                    }
                    _ => continue,
                }
                return "bad declaration".into();
            }
            _ if s.chance(1, 4) => {
                p.advanced_extensions = enhanced();
                return "enhancement of the plan".into();
            }
            _ => {
                let i = s.idx(p.relations.len() + 1);
                let r = match s.idx(4) {
                    0 => PlanRel { rel_type: None },
                    1 => PlanRel { rel_type: Some(plan_rel::RelType::Root(Default::default())) },
                    2 => PlanRel { rel_type: Some(plan_rel::RelType::Rel(Rel { rel_type: None })) },
                    _ => PlanRel {
                        rel_type: Some(plan_rel::RelType::Rel(unsupported(s))),
                    },
                };
                p.relations.insert(i, r);
                return "bad relation".into();
            }
        }
    }
    p.relations.push(PlanRel { rel_type: None });
    "no relation".into()
}
