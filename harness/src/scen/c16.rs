//! C16: stored input is read whole or refused.
use std::collections::BTreeMap;

use prost::Message;
use prost_reflect::{DynamicMessage, MessageDescriptor};
use serde::de::IgnoredAny;
use serde_json::Value;
use substrait::proto::Plan;
use substrait_explain::cli::Format;
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::format_with_registry;

use super::Scenario;
use crate::ctx::{Ctx, Res, clip};
use crate::ext;
use crate::plangen::{self, Opts};
use crate::proc::{Bin, Launch};
use crate::rot;
use crate::unset::plan_type;
use crate::stored::{Disp, FMTS, Fmt, convert_args, damage, damage_text};
use crate::world::*;

pub static S: Scenario = Scenario {
    id: "C16",
    rule: "one evaluation = one stored plan damaged in a drawn way (stale tail after a torn overwrite, written twice, foreign, zeroed, lost, repeated and flipped ranges, single fields and tokens) and read; if it is accepted, everything in the file must be accounted for in the plan that was read; non-trivial = the damage changed the file",
    real: &["all four readers, the formatter for plans read from text", "the command-line process for a part of the runs"],
    stub: &["files and streams", "extension handlers"],
    assumptions: &["text is compared by its words, numbers and brackets; spelling variants the grammar allows (letter case of types, leading zeros, number of digits of a float, anchors and signatures of references, // comments) count as the same"],
    quick_seconds: 40.0,
    run,
};

fn fmt(f: Fmt) -> Format {
    match f {
        Fmt::Text => Format::Text,
        Fmt::Json => Format::Json,
        Fmt::Yaml => Format::Yaml,
        Fmt::Proto => Format::Protobuf,
    }
}

type Bag = BTreeMap<String, i64>;

fn number(digits: &str, wide: bool) -> String {
    match digits.parse::<f64>() {
        Ok(x) if digits.contains('.') => {
            if !wide && x.abs() < f32::MAX as f64 {
                format!("{:?}f", x as f32)
            } else {
                format!("{x:?}f")
            }
        }
        _ => digits.trim_start_matches('0').to_string(),
    }
}
/// Words and numbers of a piece of text.
fn pieces(t: &[char], wide: bool, out: &mut dyn FnMut(String)) {
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if c.is_ascii_digit() {
            let a = i;
            while i < t.len() && t[i].is_ascii_digit() {
                i += 1;
            }
            if i + 1 < t.len() && t[i] == '.' && t[i + 1].is_ascii_digit() {
                i += 1;
                while i < t.len() && t[i].is_ascii_digit() {
                    i += 1;
                }
            }
            out(number(&t[a..i].iter().collect::<String>(), wide));
        } else if c.is_alphabetic() || c == '_' {
            let a = i;
            while i < t.len() && (t[i].is_alphanumeric() || t[i] == '_') {
                i += 1;
            }
            out(t[a..i].iter().collect::<String>().to_lowercase());
        } else {
            i += 1;
        }
    }
}
/// A date, a time of day or both: may be separated, spaced and padded in several ways.
fn moment(s: &[char]) -> Option<String> {
    let sep = |c: &&char| "-/:".contains(**c);
    if s.iter().any(|c| !c.is_ascii_digit() && !"-/:.T +".contains(*c)) || s.iter().skip(1).filter(sep).count() < 2 {
        return None;
    }
    // digits of one part may run into the next, and zeros in front come and go
    let text: String = s.iter().collect();
    let (whole, fraction) = text.split_once('.').unwrap_or((&text, ""));
    let digits: String = whole.chars().filter(|c| c.is_ascii_digit() && *c != '0').collect();
    Some(format!("{}{digits}.{}", if text.trim_start().starts_with('-') { "-" } else { "" }, fraction.trim_end_matches('0')))
}
const HEADERS: [&str; 7] = ["URNs:", "Functions:", "Types:", "Type Variations:", "=== Extensions", "=== Plan", ""];
/// What a text plan says, apart from order and spelling.
fn says(text: &str) -> Bag {
    let mut bag = Bag::new();
    let mut plan = true;
    for line in text.lines() {
        let l = line.trim();
        if let Some(s) = l.strip_prefix("===") {
            plan = s.trim() == "Plan";
        }
        if HEADERS.contains(&l) || !plan && l.ends_with(':') && l.matches(':').count() == 1 && ["producer", "git_hash"].contains(&l[..l.len() - 1].trim()) {
            continue;
        }
        // a version of 0.0.0 without a producer is in the plan, but is not written
        let t: Vec<char> = if l.starts_with("===") { l.replace('.', " ").replace("Version", "").chars().collect() } else { l.chars().collect() };
        let mut add = |w: String| {
            // `_` is an empty list, and these types are the ones a literal has without saying so
            if !["", "_", "i64", "fp64", "string", "boolean"].contains(&w.as_str()) {
                *bag.entry(w).or_default() += 1;
            }
        };
        if !plan {
            // a type may be declared with the mark it is used with
            let t: Vec<char> = t.iter().collect::<String>().replace("u!", " ").chars().collect();
            pieces(&t, true, &mut add);
            continue;
        }
        let mut i = 0;
        let mut open = 0i64;
        while i < t.len() {
            let c = t[i];
            match c {
                '\'' | '"' => {
                    let mut s = vec![];
                    i += 1;
                    while i < t.len() && t[i] != c {
                        if t[i] == '\\' && i + 1 < t.len() {
                            i += 1;
                            match t[i] {
                                'n' | 't' | 'r' | '0' => s.push(' '),
                                'u' => {
                                    let rest: String = t[i + 1..].iter().take(10).collect();
                                    let hex = rest.strip_prefix('{').and_then(|r| r.split_once('}')).and_then(|(h, _)| Some((char::from_u32(u32::from_str_radix(h, 16).ok()?)?, h.len() + 2)));
                                    match hex {
                                        Some((x, n)) => {
                                            s.push(x);
                                            i += n;
                                        }
                                        None => s.push('u'),
                                    }
                                }
                                x => s.push(x),
                            }
                        } else {
                            s.push(t[i]);
                        }
                        i += 1;
                    }
                    i += 1;
                    if let Some(w) = moment(&s) {
                        add(w);
                        continue;
                    }
                    // in a duration, what is zero need not be said
                    let text: String = s.iter().collect();
                    let term = |t: &str| t.trim_start_matches('-').trim_start_matches(|c: char| c.is_ascii_digit()).to_string();
                    if text.split(' ').all(|t| ["d", "s", "ms", "us", "ns", "ps"].contains(&term(t).as_str())) {
                        s = text.split(' ').filter(|t| t.chars().any(|c| ('1'..='9').contains(&c))).collect::<Vec<_>>().join(" ").chars().collect();
                    }
                    pieces(&s, true, &mut add);
                }
                '#' | '@' => {
                    i += 1;
                    while i < t.len() && (t[i] == ' ' || t[i].is_ascii_digit()) {
                        i += 1;
                    }
                }
                // a projection may refer to its own expressions, which are then written out
                '$' if l.starts_with("Project[") => {
                    i += 1;
                    while i < t.len() && t[i].is_ascii_digit() {
                        i += 1;
                    }
                }
                '[' | ']' | '$' | '&' => {
                    open += (c == '[') as i64 - (c == ']') as i64;
                    add(c.to_string());
                    i += 1;
                }
                '/' if open == 0 && i > 0 && t.get(i + 1) == Some(&'/') => break,
                'u' if t.get(i + 1) == Some(&'!') => i += 2,
                c if c.is_alphabetic() || c == '_' => {
                    let a = i;
                    while i < t.len() && (t[i].is_alphanumeric() || t[i] == '_') {
                        i += 1;
                    }
                    pieces(&t[a..i], false, &mut add);
                    // a function's signature: `add:i64_i64(` or `add:i64_i64#3(`
                    if t.get(i) == Some(&':') {
                        let mut j = i + 1;
                        while j < t.len() && (t[j].is_ascii_alphanumeric() || matches!(t[j], '_' | '!')) {
                            j += 1;
                        }
                        let mut k = j;
                        while k < t.len() && (t[k].is_ascii_digit() || matches!(t[k], '#' | '@' | ' ')) {
                            k += 1;
                        }
                        if t.get(k) == Some(&'(') {
                            i = k;
                        }
                    }
                }
                c if c.is_ascii_digit() => {
                    let a = i;
                    while i < t.len() && (t[i].is_ascii_digit() || t[i] == '.') {
                        i += 1;
                    }
                    pieces(&t[a..i], false, &mut add);
                }
                _ => i += 1,
            }
        }
    }
    bag
}
fn missing(a: &Bag, b: &Bag) -> Vec<String> {
    a.iter().filter_map(|(w, n)| { let k = b.get(w).copied().unwrap_or(0); (k < *n).then(|| format!("{w} x{}", n - k)) }).collect()
}


fn default_like(v: &Value) -> bool {
    match v {
        Value::Null | Value::Bool(false) => true,
        Value::Number(n) => n.as_f64() == Some(0.0),
        Value::String(s) => s.is_empty() || s.ends_with("_UNSPECIFIED") || s.parse::<f64>() == Ok(0.0),
        Value::Array(a) => a.is_empty(),
        _ => false,
    }
}
fn same_leaf(a: &Value, b: &Value) -> bool {
    let num = |v: &Value| match v {
        Value::Number(n) => n.as_f64(),
        Value::String(s) => s.parse::<f64>().ok(),
        _ => None,
    };
    // the bits after the last whole byte mean nothing
    let b64 = |s: &str| {
        let mut v: Vec<u8> = s.trim_end_matches('=').bytes().map(|b| match b { b'-' => b'+', b'_' => b'/', b => b }).collect();
        let spare = match v.len() % 4 { 2 => 4, 3 => 2, _ => 0 };
        const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        if let Some(l) = v.last_mut() && let Some(i) = T.iter().position(|t| t == l) {
            *l = T[i >> spare << spare];
        }
        v
    };
    match (a, b) {
        _ if a == b => true,
        // YAML takes any scalar for a string
        (Value::Bool(_) | Value::Number(_), Value::String(s)) if b64(&a.to_string()) == b64(s) => true,
        // an enumeration by its number
        (Value::Number(_), Value::String(s)) if s.parse::<f64>().is_err() => true,
        (Value::String(x), Value::String(y)) if b64(x) == b64(y) => true,
        // a number beyond fp32: see `float_range`
        (Value::Number(n), Value::Null) if n.as_f64().is_some_and(|x| (x as f32).is_infinite()) => true,
        // serde_json has no form for a float that is not finite
        (Value::String(x), Value::Null) if x.parse::<f64>().is_ok_and(|x| !x.is_finite()) => true,
        _ => match (num(a), num(b)) {
            (Some(x), Some(y)) => x == y || (x as f32) == (y as f32) || x.is_nan() && y.is_nan(),
            _ => false,
        },
    }
}
/// What of a JSON document is not in the plan read from it. Keys the schema does not know may be ignored, as
/// protobuf allows.
fn absent(a: &Value, b: &Value, m: Option<&MessageDescriptor>, path: &str, out: &mut Vec<String>) {
    match (a, b) {
        (Value::Object(a), Value::Object(b)) => {
            let Some(m) = m else { return };
            if a.contains_key("@type") {
                return;
            }
            for (k, v) in a {
                let Some(f) = m.get_field_by_json_name(k).or_else(|| m.get_field_by_name(k)) else { continue };
                if default_like(v) {
                    continue;
                }
                match b.get(f.json_name()) {
                    Some(w) => absent(v, w, f.kind().as_message(), &format!("{path}.{k}"), out),
                    None => out.push(format!("{path}.{k} = {}", clip(&v.to_string(), 100))),
                }
            }
        }
        (Value::Array(a), Value::Array(b)) => {
            if a.len() != b.len() {
                out.push(format!("{path}: {} elements, {} read", a.len(), b.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                absent(x, y, m, &format!("{path}[{i}]"), out);
            }
        }
        (x, y) => {
            if !default_like(x) && !same_leaf(x, y) {
                out.push(format!("{path} = {}, read as {}", clip(&x.to_string(), 100), clip(&y.to_string(), 100)));
            }
        }
    }
}

fn bytes(c: &mut Ctx, f: Fmt, p: &Plan, d: &Disp, reg: &ExtensionRegistry) -> Res<Vec<u8>> {
    Ok(match f.encode(p) {
        Some(b) => b,
        None => c.must("formatting", || format_with_registry(p, &d.options(), reg))?.0.into_bytes(),
    })
}
/// YAML without its local tags, which say nothing about a plan.
fn untagged(v: serde_yaml::Value) -> serde_yaml::Value {
    use serde_yaml::Value as Y;
    match v {
        Y::Tagged(t) => untagged(t.value),
        Y::Sequence(v) => Y::Sequence(v.into_iter().map(untagged).collect()),
        Y::Mapping(m) => Y::Mapping(m.into_iter().map(|(k, v)| (untagged(k), untagged(v))).collect()),
        v => v,
    }
}
/// What an accepted file must amount to.
fn account(c: &mut Ctx, f: Fmt, bad: &[u8], p: &Plan, d: &Disp, reg: &ExtensionRegistry) -> Res {
    let text = if f == Fmt::Proto { "" } else {
        match std::str::from_utf8(bad) {
            Ok(t) => t,
            Err(e) => return crate::ctx::violated("ignored", format!("a {f:?} plan that is not UTF-8 was read: {e}")),
        }
    };
    let lost = match f {
        Fmt::Text => {
            let (t, problems) = c.must("formatting", || {
                let (t, e) = format_with_registry(p, &d.options(), reg);
                (t, e.len())
            })?;
            c.note(format!("read as\n{t}"));
            let mut lost = missing(&says(text), &says(&t));
            if text.contains(":60") {
                // a leap second may be read as the second that follows it
                lost.retain(|l| !l.contains('.') || !l.split(" x").next().is_some_and(|m| m.chars().all(|c| "0123456789.-".contains(c))));
            }
            // an output mapping may name columns that the relation does not have
            crate::ensure!(!t.replace("!{Emitted}", "").contains("!{") || text.contains("!{"), "unwritable", "something was read from text that has no text form: {}", clip(&t, 1500));
            if problems > 0 {
                // a reference to a column that does not exist is read, and reported when it is shown
                c.probe("text-with-problems");
                lost.retain(|l| !l.starts_with('$') && !l.chars().next().is_some_and(|c| c.is_ascii_digit()) || l.contains("f x"));
            }
            lost
        }
        Fmt::Proto => match DynamicMessage::decode(plan_type(), bad) {
            Ok(m) => match m.transcode_to::<Plan>() {
                Ok(q) if q.encode_to_vec() == p.encode_to_vec() => vec![],
                Ok(_) => vec!["the plan read is another one".to_string()],
                Err(e) => vec![e.to_string()],
            },
            Err(e) => vec![format!("not a protobuf message: {e}")],
        },
        Fmt::Json | Fmt::Yaml => {
            let well_formed = if f == Fmt::Json { serde_json::from_str::<IgnoredAny>(text).map_err(|e| e.to_string()) } else { serde_yaml::from_str::<IgnoredAny>(text).map_err(|e| e.to_string()) };
            let v = if f == Fmt::Json { serde_json::from_str::<Value>(text).map_err(|e| e.to_string()) } else { serde_yaml::from_str::<serde_yaml::Value>(text).map_err(|e| e.to_string()).map(|v| serde_json::to_value(untagged(v)).unwrap_or_default()) };
            let v = match (well_formed, v) {
                (Ok(_), Err(_)) => {
                    // a value no generic tree can hold, under a key the schema does not know
                    c.probe("no-generic-form");
                    return Ok(());
                }
                (Err(e), _) => Err(e),
                (_, v) => v,
            };
            match (v, serde_json::to_value(p)) {
                (Err(e), _) => vec![format!("not a {f:?} document: {e}")],
                (Ok(v), Ok(w)) => {
                    let mut out = vec![];
                    absent(&v, &w, Some(&plan_type()), "", &mut out);
                    out
                }
                (Ok(_), Err(_)) => {
                    c.probe("no-json-form");
                    return Ok(());
                }
            }
        }
    };
    crate::ensure!(lost.is_empty(), "ignored", "a damaged {f:?} plan was read, but not all of it: {}", clip(&lost.join("; "), 1500));
    Ok(())
}
/// Some number of a text plan has become longer, as when a separator is lost.
fn longer(c: &mut Ctx, good: &[u8]) -> (Vec<u8>, String) {
    let ends: Vec<usize> = (1..good.len()).filter(|&i| good[i - 1].is_ascii_digit() && !good[i].is_ascii_alphanumeric() && good[i] != b'_').collect();
    if ends.is_empty() {
        return (good.to_vec(), "nothing".into());
    }
    let mut b = good.to_vec();
    let i = *c.s.pick(&ends);
    let n = *c.s.pick(&[1usize, 2, 5, 9, 10, 12, 19, 20, 30, 39, 60, 310]) + c.s.idx(3);
    let x: Vec<u8> = (0..n).map(|_| b'0' + c.s.idx(10) as u8).collect();
    b.splice(i..i, x);
    (b, format!("{n} more digits at {i}"))
}
/// Some parts of a date or time of a text plan have become other numbers.
fn other_moment(c: &mut Ctx, good: &[u8]) -> (Vec<u8>, String) {
    let two = |i: usize| i + 1 < good.len() && good[i].is_ascii_digit() && good[i + 1].is_ascii_digit();
    let edge = |i: usize| i >= good.len() || b"-:'.T".contains(&good[i]);
    let parts: Vec<usize> = (1..good.len()).filter(|&i| two(i) && b"-:'T".contains(&good[i - 1]) && edge(i + 2)).collect();
    if parts.is_empty() {
        return (good.to_vec(), "nothing".into());
    }
    let mut b = good.to_vec();
    let mut k = c.s.idx(parts.len());
    let mut what = vec![];
    let clocks: Vec<usize> = parts.iter().copied().filter(|&i| i + 8 < good.len() && good[i + 2] == b':' && two(i + 3) && good[i + 5] == b':' && two(i + 6)).collect();
    if !clocks.is_empty() && c.s.chance(1, 2) {
        let i = *c.s.pick(&clocks);
        let x = *c.s.pick(&["23:59:60", "23:59:59", "24:00:00", "00:00:60", "12:30:60", "23:60:00"]);
        b[i..i + 8].copy_from_slice(x.as_bytes());
        return (b, format!("{x} at {i}"));
    }
    for _ in 0..1 + c.s.idx(4) {
        let x = *c.s.pick(&["60", "59", "23", "24", "60", "61", "00", "31", "12", "13", "29", "30"]);
        b[parts[k]..parts[k] + 2].copy_from_slice(x.as_bytes());
        what.push(format!("{x} at {}", parts[k]));
        k = (k + 1) % parts.len();
    }
    (b, what.join(", "))
}

/// Known finding: a number that an fp32 cannot hold.
fn float_range(c: &mut Ctx) -> Res {
    use substrait::proto::expression::literal::LiteralType;
    let mut plan = plangen::plan(&mut crate::src::Src::empty(), Opts { ext: false, size: 1, depth: 1, big: false });
    plangen::wrap_filter(&mut plan, plangen::lit(LiteralType::Fp32(0.5)));
    let f = *c.s.pick(&[Fmt::Json, Fmt::Yaml]);
    let good = String::from_utf8(f.encode(&plan).expect("tiny plan encodes")).unwrap();
    let bad = good.replacen("0.5", "1e300", 1);
    c.log(format!("{f:?}: {bad}"));
    c.nontrivial();
    match c.must("reading", || fmt(f).read_plan(bad.as_bytes(), &Default::default()).map_err(|e| format!("{e:#}")))? {
        Err(_) => Ok(()),
        Ok(p) => {
            plan = plangen::plan(&mut crate::src::Src::empty(), Opts { ext: false, size: 1, depth: 1, big: false });
            plangen::wrap_filter(&mut plan, plangen::lit(LiteralType::Fp32(f32::INFINITY)));
            crate::ctx::violated("float-range", format!("the fp32 literal 1e300 is read as infinity: {}", p == plan))
        }
    }
}

fn run(c: &mut Ctx) -> Res {
    if c.s.below(200) == 199 {
        return float_range(c);
    }
    let with_ext = c.s.chance(1, 2);
    let o = Opts { ext: with_ext, size: 1 + c.s.idx(6), depth: 1 + c.s.idx(3), big: false };
    let plan = plangen::plan(&mut c.s, o);
    let reg = if with_ext && c.s.chance(4, 5) { ext::registry() } else { ExtensionRegistry::default() };
    let full = ext::registry();
    let d = Disp::draw(&mut c.s);
    let f = *c.s.pick(&[Fmt::Text, Fmt::Json, Fmt::Text, Fmt::Yaml, Fmt::Proto]);
    let good = bytes(c, f, &plan, &d, &full)?;
    let (bad, what) = match c.s.idx(5) {
        0 | 1 => match f {
            Fmt::Text if c.s.chance(1, 3) => longer(c, &good),
            Fmt::Text if c.s.chance(1, 6) => other_moment(c, &good),
            Fmt::Text => {
                let (t, w) = damage_text(&mut c.s, &String::from_utf8_lossy(&good));
                (t.into_bytes(), w)
            }
            Fmt::Proto => rot::proto(&mut c.s, &good),
            f => match serde_json::to_value(&plan) {
                Ok(mut v) => {
                    let w = rot::value(&mut c.s, &mut v);
                    let b = if f == Fmt::Json { serde_json::to_vec(&v).unwrap_or_default() } else { serde_yaml::to_string(&v).unwrap_or_default().into_bytes() };
                    (b, w)
                }
                Err(_) => return Ok(()),
            },
        },
        2 | 3 => {
            let o2 = Opts { ext: with_ext, size: 1 + c.s.idx(4), depth: 2, big: false };
            let old = if c.s.chance(1, 4) { plan.clone() } else { plangen::plan(&mut c.s, o2) };
            let g = if c.s.chance(1, 6) { *c.s.pick(&FMTS) } else { f };
            let old = bytes(c, g, &old, &d, &full)?;
            match c.s.idx(5) {
                0 => {
                    // rewritten in place, and the truncation never reached the disk
                    let mut b = good.clone();
                    b.extend(old.iter().skip(good.len()));
                    (b, "the tail of an older, longer file".to_string())
                }
                1 => {
                    // appended to instead of replaced
                    let sep: &[u8] = c.s.pick(&[&b""[..], b"\n", b"---\n", b"\n\n", b" ", b",", b"\0"]);
                    let w = format!("{} more bytes after {sep:?}", old.len());
                    ([&good[..], sep, &old[..]].concat(), w)
                }
                2 => {
                    // allocated, but never written
                    let n = 1 + c.s.idx(64);
                    let x = *c.s.pick(&[0u8, 0, b' ', 0xff, b'\n', b'}', b']', b'x', b'0']);
                    ([&good[..], &vec![x; n][..]].concat(), format!("{n} bytes {x:#x} at the end"))
                }
                3 => {
                    // a piece of the other file at the end of a line
                    let mut b = good.clone();
                    let ends: Vec<usize> = b.iter().enumerate().filter(|(_, x)| **x == b'\n').map(|(i, _)| i).collect();
                    let i = if ends.is_empty() { b.len() } else { *c.s.pick(&ends) };
                    let j = c.s.idx(old.len() + 1);
                    let n = c.s.idx(20).min(old.len() - j);
                    let x: Vec<u8> = old[j..j + n].iter().copied().filter(|x| *x != b'\n').collect();
                    b.splice(i..i, x);
                    (b, format!("{n} foreign bytes at the end of a line, at {i}"))
                }
                _ => damage(&mut c.s, &good, &old),
            }
        }
        _ => damage(&mut c.s, &good, &[]),
    };
    if bad != good {
        c.nontrivial();
    }
    c.log(format!("{f:?} of {} bytes: {}", bad.len(), clip(&what, 500)));
    if std::str::from_utf8(&bad).is_ok() && bad.len() < 4000 {
        c.note(String::from_utf8_lossy(&bad).to_string());
    }
    c.mark(&bad);
    c.fault(format!("damaged-{f:?}"), 1);
    let r = c.must("reading", || fmt(f).read_plan(&bad[..], &reg).map_err(|e| format!("{e:#}")))?;
    c.probe(format!("{f:?}-{}", if r.is_ok() { "read" } else { "refused" }));
    if let Ok(p) = &r {
        c.mark(&p.encode_to_vec());
        account(c, f, &bad, p, &d, &reg)?;
    }
    if c.s.chance(1, 10) {
        let to = *c.s.pick(&FMTS);
        let mut l = Launch { bin: if reg.descriptors().is_empty() { Bin::Cli } else { Bin::Ext }, args: convert_args(f, to, c.s.chance(1, 3)), rand_seed: c.rand_seed(), ..Default::default() };
        if c.s.chance(1, 2) {
            c.world.put_file("/sim/in", ROLE_IN, &bad);
            l.args.extend(["-i", "/sim/in"].map(String::from));
        } else {
            l.stdin = bad.clone();
        }
        let e = c.launch(&l)?;
        crate::ensure!(e.code != Some(0) || r.is_ok(), "ignored", "the command converted a damaged {f:?} plan that the library refuses: {}", clip(&format!("{r:?}"), 300));
    }
    Ok(())
}
