//! Parts of a plan schema that a given plan does not use.
use prost::Message;
use prost_reflect::{DynamicMessage, FieldDescriptor, Kind, MessageDescriptor, ReflectMessage, Value};
use substrait::proto::Plan;

use crate::src::Src;

pub fn plan_type() -> MessageDescriptor {
    static TYPE: std::sync::OnceLock<MessageDescriptor> = std::sync::OnceLock::new();
    TYPE.get_or_init(|| {
        let pool = prost_reflect::DescriptorPool::decode(substrait::proto::FILE_DESCRIPTOR_SET).unwrap();
        pool.get_message_by_name("substrait.Plan").unwrap()
    })
    .clone()
}
const SCHEMA: &str = "substrait.NamedStruct.struct";
/// Fields of a message; the struct that holds a schema's columns has no form of its own.
fn parts(m: &DynamicMessage, schema: bool) -> Vec<FieldDescriptor> {
    m.descriptor().fields().filter(|d| !d.is_map() && (!schema || d.name() == "types")).collect()
}
fn walk(m: &mut DynamicMessage, schema: bool, f: &mut dyn FnMut(&mut DynamicMessage, &FieldDescriptor) -> bool) -> bool {
    for d in parts(m, schema) {
        if m.has_field(&d) {
            match m.get_field_mut(&d) {
                Value::Message(x) => {
                    if walk(x, d.full_name() == SCHEMA, f) {
                        return true;
                    }
                }
                Value::List(l) => {
                    for v in l {
                        if let Value::Message(x) = v
                            && walk(x, false, f)
                        {
                            return true;
                        }
                    }
                }
                _ => {}
            }
        } else if d.containing_oneof().is_none_or(|o| !o.fields().any(|g| m.has_field(&g))) && f(m, &d) {
            return true;
        }
    }
    false
}
fn some(s: &mut Src, k: &Kind, depth: usize) -> Value {
    match k {
        Kind::Message(t) => {
            let mut m = DynamicMessage::new(t.clone());
            for d in t.fields() {
                if depth > 0 && !d.is_map() && s.chance(1, 2) {
                    let v = some(s, &d.kind(), depth - 1);
                    m.set_field(&d, if d.is_list() { Value::List(vec![v]) } else { v });
                }
            }
            Value::Message(m)
        }
        Kind::Enum(e) => Value::EnumNumber(e.values().map(|v| v.number()).find(|n| *n != 0).unwrap_or(1)),
        Kind::Bool => Value::Bool(true),
        Kind::String => Value::String("x".into()),
        Kind::Bytes => Value::Bytes(vec![1].into()),
        Kind::Double => Value::F64(1.0),
        Kind::Float => Value::F32(1.0),
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => Value::I32(*s.pick(&[1, -1, 13, i32::MAX, i32::MIN])),
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => Value::I64(*s.pick(&[1, -1, i64::MAX, i64::MIN])),
        Kind::Uint32 | Kind::Fixed32 => Value::U32(*s.pick(&[1, u32::MAX])),
        Kind::Uint64 | Kind::Fixed64 => Value::U64(1),
    }
}
/// What the text format leaves out by design, or shows in no plan that does not use it.
const LEFT_OUT: [&str; 15] = [
    "AggregateFunction.invocation",
    "AggregateFunction.phase",
    "AggregateFunction.sorts",
    "AggregateRel.Grouping.grouping_expressions",
    "AggregateRel.Measure.filter",
    "AggregateRel.measures",
    "Expression.Literal.nullable",
    "Expression.Literal.type_variation_reference",
    "Plan.expected_type_urls",
    "Plan.parameter_bindings",
    "Plan.type_aliases",
    "Plan.version",
    "ProjectRel.expressions",
    "ReadRel.best_effort_filter",
    "RelCommon.hint",
];
/// Give a plan one part that it does not have and say which: text must show or report it.
pub fn add_part(s: &mut Src, p: &Plan) -> Option<(Plan, String)> {
    let mut m = DynamicMessage::decode(plan_type(), &p.encode_to_vec()[..]).ok()?;
    let usable = |d: &FieldDescriptor| !d.is_map() && !LEFT_OUT.contains(&d.full_name().trim_start_matches("substrait."));
    let mut n = 0;
    walk(&mut m, false, &mut |_, d| {
        n += usable(d) as usize;
        false
    });
    if n == 0 {
        return None;
    }
    let mut k = s.idx(n);
    let mut name = None;
    walk(&mut m, false, &mut |m, d| {
        if !usable(d) {
            return false;
        }
        if k > 0 {
            k -= 1;
            return false;
        }
        let mut v = some(s, &d.kind(), 3);
        if let Value::Message(m) = &mut v
            && m.descriptor().full_name() == "substrait.extensions.AdvancedExtension"
        {
            // only an enhancement must not be ignored
            m.set_field_by_name("enhancement", some(s, &m.descriptor().get_field_by_name("enhancement").unwrap().kind(), 1));
        }
        m.set_field(d, if d.is_list() { Value::List(vec![v]) } else { v });
        name = Some(d.full_name().to_string());
        true
    });
    Some((m.transcode_to::<Plan>().ok()?, name?))
}

fn other(s: &mut Src, v: &Value, k: &Kind) -> Option<Value> {
    let one = if s.chance(1, 2) { 1 } else { -1 };
    Some(match v {
        Value::Bool(b) => Value::Bool(!b),
        Value::I32(x) => Value::I32(*s.pick(&[x.wrapping_add(one), x.wrapping_add(one), -1 - x, x ^ i32::MAX])),
        Value::I64(x) => Value::I64(*s.pick(&[x.wrapping_add(one as i64), -1 - x, x ^ i64::MAX])),
        Value::U32(x) => Value::U32(x.wrapping_add_signed(one)),
        Value::U64(x) => Value::U64(x.wrapping_add_signed(one as i64)),
        Value::F32(x) if x.is_finite() => Value::F32(f32::from_bits(x.to_bits() ^ 1)),
        Value::F64(x) if x.is_finite() => Value::F64(f64::from_bits(x.to_bits() ^ 1)),
        Value::String(x) => Value::String(format!("{x}x")),
        Value::Bytes(x) => Value::Bytes([&x[..], &[1]].concat().into()),
        Value::EnumNumber(n) => {
            let Kind::Enum(e) = k else { return None };
            let all: Vec<i32> = e.values().map(|v| v.number()).filter(|m| m != n).collect();
            if all.is_empty() {
                return None;
            }
            Value::EnumNumber(*s.pick(&all))
        }
        _ => return None,
    })
}
fn walk_set(m: &mut DynamicMessage, schema: bool, f: &mut dyn FnMut(&mut Value, &FieldDescriptor) -> bool) -> bool {
    for d in parts(m, schema) {
        if !m.has_field(&d) {
            continue;
        }
        match m.get_field_mut(&d) {
            Value::Message(x) => {
                if walk_set(x, d.full_name() == SCHEMA, f) {
                    return true;
                }
            }
            Value::List(l) => {
                for v in l {
                    if if let Value::Message(x) = v { walk_set(x, false, f) } else { f(v, &d) } {
                        return true;
                    }
                }
            }
            v => {
                if f(v, &d) {
                    return true;
                }
            }
        }
    }
    false
}
/// Change one value of a plan and say which: text must show or report the change.
pub fn change_part(s: &mut Src, p: &Plan) -> Option<(Plan, String)> {
    let mut m = DynamicMessage::decode(plan_type(), &p.encode_to_vec()[..]).ok()?;
    let usable = |d: &FieldDescriptor| !LEFT_OUT.contains(&d.full_name().trim_start_matches("substrait."));
    let mut n = 0;
    walk_set(&mut m, false, &mut |_, d| {
        n += usable(d) as usize;
        false
    });
    if n == 0 {
        return None;
    }
    let mut k = s.idx(n);
    let mut name = None;
    walk_set(&mut m, false, &mut |v, d| {
        if !usable(d) {
            return false;
        }
        if k > 0 {
            k -= 1;
            return false;
        }
        let w = match v {
            // another column or expression may well read the same
            Value::I32(i) if d.name() == "output_mapping" => Some(Value::I32(*i + 1000)),
            Value::U32(i) if d.name() == "expression_references" => Some(Value::U32(*i + 1000)),
            _ => other(s, v, &d.kind()),
        };
        if let Some(w) = w {
            name = Some(format!("{}: {v:?} is now {w:?}", d.full_name()));
            *v = w;
        }
        true
    });
    Some((m.transcode_to::<Plan>().ok()?, name?))
}
