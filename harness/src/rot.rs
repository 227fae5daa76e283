//! Damage that keeps the outer shape of a stored plan: single fields lost, repeated or overwritten.
use serde_json::{Map, Value};

use crate::src::Src;

#[derive(Clone, Debug)]
enum Wire {
    Varint(u64),
    Fixed64([u8; 8]),
    Fixed32([u8; 4]),
    Bytes(Vec<u8>),
    Msg(Vec<(u64, Wire)>),
}
fn varint(b: &[u8], i: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for k in 0..10 {
        let x = *b.get(*i)?;
        *i += 1;
        v |= ((x & 0x7f) as u64).checked_shl(7 * k).unwrap_or(0);
        if x & 0x80 == 0 {
            return Some(v);
        }
    }
    None
}
fn parse(b: &[u8], depth: usize) -> Option<Vec<(u64, Wire)>> {
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let t = varint(b, &mut i)?;
        if t >> 3 == 0 || t >> 3 > 20_000 {
            return None;
        }
        let w = match t & 7 {
            0 => Wire::Varint(varint(b, &mut i)?),
            1 => {
                let x = b.get(i..i + 8)?;
                i += 8;
                Wire::Fixed64(x.try_into().unwrap())
            }
            5 => {
                let x = b.get(i..i + 4)?;
                i += 4;
                Wire::Fixed32(x.try_into().unwrap())
            }
            2 => {
                let n = varint(b, &mut i)? as usize;
                let x = b.get(i..i.checked_add(n)?)?;
                i += n;
                match parse(x, depth + 1) {
                    Some(m) if depth < 90 && (!m.is_empty() || x.is_empty()) => Wire::Msg(m),
                    _ => Wire::Bytes(x.to_vec()),
                }
            }
            _ => return None,
        };
        out.push((t >> 3, w));
    }
    Some(out)
}
fn put(v: u64, o: &mut Vec<u8>) {
    let mut v = v;
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
fn emit(m: &[(u64, Wire)]) -> Vec<u8> {
    let mut o = vec![];
    for (t, w) in m {
        match w {
            Wire::Varint(v) => {
                put(t << 3, &mut o);
                put(*v, &mut o);
            }
            Wire::Fixed64(x) => {
                put(t << 3 | 1, &mut o);
                o.extend(x);
            }
            Wire::Fixed32(x) => {
                put(t << 3 | 5, &mut o);
                o.extend(x);
            }
            Wire::Bytes(x) => {
                put(t << 3 | 2, &mut o);
                put(x.len() as u64, &mut o);
                o.extend(x);
            }
            Wire::Msg(m) => {
                let x = emit(m);
                put(t << 3 | 2, &mut o);
                put(x.len() as u64, &mut o);
                o.extend(x);
            }
        }
    }
    o
}
fn count(m: &[(u64, Wire)]) -> usize {
    m.iter().map(|(_, w)| 1 + if let Wire::Msg(x) = w { count(x) } else { 0 }).sum()
}
fn at(m: &mut Vec<(u64, Wire)>, k: &mut usize, f: &mut dyn FnMut(&mut Vec<(u64, Wire)>, usize)) -> bool {
    for i in 0..m.len() {
        if *k == 0 {
            f(m, i);
            return true;
        }
        *k -= 1;
        if let Wire::Msg(x) = &mut m[i].1 {
            if at(x, k, f) {
                return true;
            }
        }
    }
    false
}

/// Damage single fields of a binary plan.
pub fn proto(s: &mut Src, b: &[u8]) -> (Vec<u8>, String) {
    let Some(mut m) = parse(b, 0) else { return (b.to_vec(), "nothing".into()) };
    let mut what = vec![];
    for _ in 0..1 + s.small(3) {
        let n = count(&m);
        if n == 0 {
            break;
        }
        let mut k = s.idx(n);
        let act = s.idx(9);
        let num = extreme(s);
        let r = s.u64();
        let mut done = String::new();
        at(&mut m, &mut k, &mut |v, i| {
            let (t, w) = v[i].clone();
            match act {
                0 => {
                    v.remove(i);
                    done = format!("field {t} lost");
                }
                1 => {
                    v.insert(i, (t, w));
                    done = format!("field {t} twice");
                }
                2 | 3 | 4 => {
                    v[i].1 = match &w {
                        Wire::Varint(_) => Wire::Varint(num),
                        Wire::Fixed64(_) => Wire::Fixed64(num.to_le_bytes()),
                        Wire::Fixed32(_) => Wire::Fixed32((num as u32).to_le_bytes()),
                        Wire::Bytes(x) => {
                            let mut x = x.clone();
                            if x.is_empty() || r % 4 == 0 {
                                x = vec![b'0'; (r % 30) as usize];
                            } else {
                                let j = (r as usize >> 3) % x.len();
                                x[j] = (r >> 40) as u8 & 0x7f;
                            }
                            Wire::Bytes(x)
                        }
                        Wire::Msg(x) if act == 4 => Wire::Msg(x[..x.len() / 2].to_vec()),
                        Wire::Msg(_) => Wire::Msg(vec![]),
                    };
                    done = format!("field {t} overwritten with {num:#x}");
                }
                5 => {
                    let to = 1 + r % 40;
                    v[i].0 = to;
                    done = format!("field {t} turned into {to}");
                }
                6 => {
                    let to = t ^ (1 << (r % 5));
                    v[i].0 = to.max(1);
                    done = format!("field {t} turned into {to}");
                }
                7 => {
                    v.push((1 + r % 30, Wire::Varint(num)));
                    done = format!("field {} = {num:#x} appeared", 1 + r % 30);
                }
                _ => {
                    let j = (r as usize) % v.len();
                    v.swap(i, j);
                    done = "two fields swapped".into();
                }
            }
        });
        what.push(done);
    }
    (emit(&m), what.join(", "))
}
fn extreme(s: &mut Src) -> u64 {
    match s.idx(4) {
        0 => s.below(40),
        1 => *s.pick(&[u64::MAX, i64::MAX as u64, i64::MIN as u64, i32::MAX as u64, i32::MIN as i64 as u64, u32::MAX as u64, 1 << 32, 127, 128, 255, 1 << 53]),
        2 => *s.pick(&[f64::NAN.to_bits(), f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), (-0.0f64).to_bits(), 5e-324f64.to_bits(), f64::MAX.to_bits(), (f32::NAN.to_bits()) as u64]),
        _ => s.u64() >> s.idx(64),
    }
}

fn jcount(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(jcount).sum(),
        Value::Object(o) => o.values().map(jcount).sum(),
        _ => 0,
    }
}
fn jat<'a>(v: &'a mut Value, k: &mut usize) -> Option<&'a mut Value> {
    if *k == 0 {
        return Some(v);
    }
    *k -= 1;
    match v {
        Value::Array(a) => a.iter_mut().find_map(|x| jat(x, k)),
        Value::Object(o) => o.values_mut().find_map(|x| jat(x, k)),
        _ => None,
    }
}
/// Damage single values of a JSON or YAML plan.
pub fn value(s: &mut Src, v: &mut Value) -> String {
    let mut what = vec![];
    for _ in 0..1 + s.small(3) {
        let mut k = s.idx(jcount(v));
        let Some(x) = jat(v, &mut k) else { continue };
        let act = s.idx(6);
        what.push(format!("value {} changed by {act}", crate::ctx::clip(&x.to_string(), 60)));
        match (act, &mut *x) {
            (0, Value::Object(o)) if !o.is_empty() => {
                let key = o.keys().nth(s.idx(o.len())).unwrap().clone();
                o.remove(&key);
            }
            (1, Value::Object(o)) if !o.is_empty() => {
                let key = o.keys().nth(s.idx(o.len())).unwrap().clone();
                let val = o.remove(&key).unwrap();
                let to = s.pick(&["@type", "value", "typeUrl", "rel", "literal", "nullable", "fp64", "decimal", "map", "struct", "list", "x", "i64", "direct", "common"]).to_string();
                o.insert(to, val);
            }
            (0, Value::Array(a)) if !a.is_empty() => {
                let i = s.idx(a.len());
                a.remove(i);
            }
            (1, Value::Array(a)) if !a.is_empty() => {
                let i = s.idx(a.len());
                let e = a[i].clone();
                a.push(e);
            }
            (2, _) => *x = Value::Null,
            (3, _) => {
                *x = match s.idx(8) {
                    0 => Value::from(extreme(s)),
                    1 => Value::from(extreme(s) as i64),
                    2 => Value::from(1e300),
                    3 => Value::from(-0.5),
                    4 => Value::from("NaN"),
                    5 => Value::from("-9223372036854775809"),
                    6 => Value::from(true),
                    _ => Value::from("AAAA"),
                }
            }
            (4, _) => *x = Value::Object(Map::new()),
            _ => *x = Value::Array(vec![x.clone()]),
        }
    }
    what.join(", ")
}
