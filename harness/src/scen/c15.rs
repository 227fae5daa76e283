//! C15: JSON extension payloads do not depend on descriptor history.
use std::collections::BTreeSet;

use prost::Message;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::{DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet, OneofDescriptorProto, SourceCodeInfo, source_code_info::Location};
use serde_json::{Map, Value, json};
use substrait::proto::{FILE_DESCRIPTOR_SET, Plan};
use substrait_explain::cli::Format;
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::json::{build_descriptor_pool, parse_json};

use super::Scenario;
use crate::ctx::{Ctx, Res, clip, violated};
use crate::ensure;
use crate::ext::{KINDS, TYPES};
use crate::plangen::{self, Opts};
use crate::simio::{ReadPlan, SimReader};
use crate::src::Src;
use crate::stored::{Disp, Fmt, damage};

pub static S: Scenario = Scenario {
    id: "C15",
    rule: "one evaluation = one history of descriptor additions (overlapping, repeated, in any order, some incomplete until a later one), handler registrations and copies over up to four registries, with plans read from it at drawn points in inline and raw JSON and every other format over simulated readers; non-trivial = a plan with inline payloads was read under at least two different descriptor histories",
    real: &["json::build_descriptor_pool, json::parse_json", "Format::read_plan", "ExtensionRegistry"],
    stub: &["readers", "payload descriptors (five files in four packages, built by hand)", "extension handlers"],
    assumptions: &["descriptor blobs decode, do not contradict each other or the Substrait schema, and JSON reading is claimed only while every import of the supplied files is supplied too"],
    quick_seconds: 30.0,
    run,
};

// ---- payload types ---------------------------------------------------------------------------

fn f(name: &str, n: i32, t: Type, tn: &str, rep: bool) -> FieldDescriptorProto {
    FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(n),
        label: Some(if rep { Label::Repeated } else { Label::Optional } as i32),
        r#type: Some(t as i32),
        type_name: if tn.is_empty() { None } else { Some(tn.into()) },
        ..Default::default()
    }
}
fn file(name: &str, pkg: &str, deps: &[&str], msg: DescriptorProto, en: Vec<EnumDescriptorProto>) -> FileDescriptorProto {
    FileDescriptorProto {
        name: Some(name.into()),
        package: Some(pkg.into()),
        dependency: deps.iter().map(|d| d.to_string()).collect(),
        message_type: vec![msg],
        enum_type: en,
        syntax: Some("proto3".into()),
        ..Default::default()
    }
}
fn msg(name: &str, fields: Vec<FieldDescriptorProto>) -> DescriptorProto {
    DescriptorProto { name: Some(name.into()), field: fields, ..Default::default() }
}
/// The last one belongs to the Substrait schema: no descriptor is needed.
const NAMES: [&str; 6] = ["sim.a.Base", "sim.b.Mid", "sim.c.Top", "sim.d.WithType", "sim.a.Other", "substrait.NamedStruct"];
/// Files each file needs, itself included.
const CLOSURE: [&[usize]; 5] = [&[0], &[0, 1], &[0, 1, 2], &[3], &[4]];
const COLORS: [&str; 3] = ["COLOR_NONE", "RED", "BLUE"];

/// Names the five files may have: a file is known by its whole name, whatever parts of it others share.
const FILE_NAMES: [[&str; 5]; 7] = [
    ["sim/a.proto", "sim/b.proto", "sim/c.proto", "sim/d.proto", "sim/e.proto"],
    ["sim/a/types.proto", "sim/b/types.proto", "sim/c/types.proto", "sim/d/types.proto", "sim/types.proto"],
    ["vendor/substrait/type.proto", "acme/google/protobuf/any.proto", "type.proto", "any.proto", "substrait/type.proto/x"],
    ["a.proto", "A.proto", "a.Proto", "x/a.proto", "a"],
    ["sim/a.proto", "x/sim/a.proto", "y/x/sim/a.proto", "sim/a.proto.bak", "/sim/a.proto"],
    ["substrait/ext/a.proto", "substrait/ext/b.proto", "substrait/c.proto", "google/protobuf/d.proto", "google/e.proto"],
    ["v1/x y.proto", "v2/x y.proto", "v1/é.proto", "v2/é.proto", "v1/.proto"],
];
fn files(names: &[&str; 5], same_size: bool) -> Vec<FileDescriptorProto> {
    let mut v = fixed_files();
    let old = FILE_NAMES[0];
    for (i, f) in v.iter_mut().enumerate() {
        f.name = Some(names[i].into());
        for d in &mut f.dependency {
            if let Some(k) = old.iter().position(|o| o == d) {
                *d = names[k].into();
            }
        }
    }
    if same_size {
        // comments that make all files equally long
        let max = v.iter().map(|f| f.encoded_len()).max().unwrap_or(0) + 300;
        for f in &mut v {
            let short = max - f.encoded_len();
            for n in 0..=short {
                let l = Location { leading_comments: Some("x".repeat(short - n)), ..Default::default() };
                f.source_code_info = Some(SourceCodeInfo { location: vec![l] });
                if f.encoded_len() == max {
                    break;
                }
            }
        }
    }
    v
}
fn fixed_files() -> Vec<FileDescriptorProto> {
    let color = EnumDescriptorProto {
        name: Some("Color".into()),
        value: COLORS.iter().enumerate().map(|(i, n)| EnumValueDescriptorProto { name: Some(n.to_string()), number: Some(i as i32), ..Default::default() }).collect(),
        ..Default::default()
    };
    let mut mid = msg(
        "Mid",
        vec![
            f("base", 1, Type::Message, ".sim.a.Base", false),
            f("parts", 2, Type::Message, ".sim.a.Base", true),
            f("big", 3, Type::Uint64, "", false),
            f("name", 4, Type::String, "", false),
            f("id", 5, Type::Int32, "", false),
        ],
    );
    mid.oneof_decl = vec![OneofDescriptorProto { name: Some("pick".into()), ..Default::default() }];
    mid.field[3].oneof_index = Some(0);
    mid.field[4].oneof_index = Some(0);
    vec![
        file(
            "sim/a.proto",
            "sim.a",
            &[],
            msg(
                "Base",
                vec![
                    f("n", 1, Type::Int64, "", false),
                    f("text", 2, Type::String, "", false),
                    f("tags", 3, Type::String, "", true),
                    f("on", 4, Type::Bool, "", false),
                    f("ratio", 5, Type::Double, "", false),
                    f("blob", 6, Type::Bytes, "", false),
                    f("color", 7, Type::Enum, ".sim.a.Color", false),
                    f("max_count", 8, Type::Uint32, "", false),
                ],
            ),
            vec![color],
        ),
        file("sim/b.proto", "sim.b", &["sim/a.proto"], mid, vec![]),
        file(
            "sim/c.proto",
            "sim.c",
            &["google/protobuf/any.proto", "sim/b.proto"],
            msg("Top", vec![f("mid", 1, Type::Message, ".sim.b.Mid", false), f("inner", 2, Type::Message, ".google.protobuf.Any", false)]),
            vec![],
        ),
        file(
            "sim/d.proto",
            "sim.d",
            &["substrait/type.proto"],
            msg("WithType", vec![f("kind", 1, Type::Message, ".substrait.NamedStruct", false), f("note", 2, Type::String, "", false)]),
            vec![],
        ),
        file("sim/e.proto", "sim.a", &[], msg("Other", vec![f("x", 1, Type::Sint32, "", false), f("y", 2, Type::Fixed64, "", false)]), vec![]),
    ]
}

// ---- payload values: JSON and wire form together ---------------------------------------------

fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 128 {
        out.push(v as u8 | 128);
        v >>= 7;
    }
    out.push(v as u8);
}
fn key(n: u32, wt: u32, out: &mut Vec<u8>) {
    varint((n << 3 | wt) as u64, out)
}
fn len(n: u32, b: &[u8], out: &mut Vec<u8>) {
    key(n, 2, out);
    varint(b.len() as u64, out);
    out.extend_from_slice(b);
}
fn b64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { T[(v >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    s
}
const STRINGS: [&str; 7] = ["a", "", "sim.a.Base", "naïve \u{1F600}", "with \"quotes\" and \\", "@type", "line\nbreak"];

fn number(s: &mut Src, v: i128) -> Value {
    // 64-bit values may be written as numbers or strings
    if s.chance(1, 2) || v.unsigned_abs() > 1 << 53 { json!(v.to_string()) } else { json!(v as i64) }
}
fn base(s: &mut Src) -> (Map<String, Value>, Vec<u8>) {
    let (mut j, mut b) = (Map::new(), vec![]);
    let put = |j: &mut Map<String, Value>, s: &mut Src, k: &str, v: Value, default: bool| {
        if !default || s.chance(1, 4) {
            j.insert(k.to_string(), v);
        }
    };
    let n = match s.idx(4) {
        0 => 0,
        1 => -1,
        2 => i64::MIN,
        _ => s.below(1000) as i64,
    };
    let v = number(s, n as i128);
    put(&mut j, s, "n", v, n == 0);
    if n != 0 {
        key(1, 0, &mut b);
        varint(n as u64, &mut b);
    }
    let t = *s.pick(&STRINGS);
    put(&mut j, s, "text", json!(t), t.is_empty());
    if !t.is_empty() {
        len(2, t.as_bytes(), &mut b);
    }
    let tags: Vec<&str> = (0..s.small(3)).map(|_| *s.pick(&STRINGS)).collect();
    for t in &tags {
        len(3, t.as_bytes(), &mut b);
    }
    put(&mut j, s, "tags", json!(tags), tags.is_empty());
    let on = s.chance(1, 3);
    put(&mut j, s, "on", json!(on), !on);
    if on {
        key(4, 0, &mut b);
        b.push(1);
    }
    let ratio = *s.pick(&[0.0, 0.5, -2.25, 1e300, 3.0]);
    put(&mut j, s, "ratio", json!(ratio), ratio == 0.0);
    if ratio != 0.0 {
        key(5, 1, &mut b);
        b.extend_from_slice(&f64::to_le_bytes(ratio));
    }
    let blob: Vec<u8> = (0..s.small(6)).map(|_| s.below(256) as u8).collect();
    put(&mut j, s, "blob", json!(b64(&blob)), blob.is_empty());
    if !blob.is_empty() {
        len(6, &blob, &mut b);
    }
    let c = s.idx(3);
    let v = if s.chance(1, 3) { json!(c) } else { json!(COLORS[c]) };
    put(&mut j, s, "color", v, c == 0);
    if c != 0 {
        key(7, 0, &mut b);
        b.push(c as u8);
    }
    let m = *s.pick(&[0u32, 7, u32::MAX]);
    let k = if s.chance(1, 3) { "max_count" } else { "maxCount" };
    put(&mut j, s, k, json!(m), m == 0);
    if m != 0 {
        key(8, 0, &mut b);
        varint(m as u64, &mut b);
    }
    (j, b)
}
fn mid(s: &mut Src) -> (Map<String, Value>, Vec<u8>) {
    let (mut j, mut b) = (Map::new(), vec![]);
    if s.chance(1, 2) {
        let (x, y) = base(s);
        j.insert("base".into(), x.into());
        len(1, &y, &mut b);
    }
    let n = s.small(3);
    let mut parts = vec![];
    for _ in 0..n {
        let (x, y) = base(s);
        parts.push(Value::from(x));
        len(2, &y, &mut b);
    }
    if n > 0 {
        j.insert("parts".into(), parts.into());
    }
    if s.chance(1, 2) {
        let v = *s.pick(&[1u64, u64::MAX, 1 << 40]);
        let w = number(s, v as i128);
        j.insert("big".into(), w);
        key(3, 0, &mut b);
        varint(v, &mut b);
    }
    match s.idx(3) {
        0 => {}
        1 => {
            let t = *s.pick(&STRINGS);
            j.insert("name".into(), json!(t));
            len(4, t.as_bytes(), &mut b);
        }
        _ => {
            let v = s.range(-2, 2) as i32;
            j.insert("id".into(), json!(v));
            key(5, 0, &mut b);
            varint(v as i64 as u64, &mut b);
        }
    }
    (j, b)
}
/// An inline payload: type, JSON with `@type`, type URL, wire form. The types used are added to `used`.
fn payload(s: &mut Src, used: &mut BTreeSet<usize>, depth: usize) -> (Value, String, Vec<u8>) {
    let t = s.idx(6);
    if t < 5 {
        used.insert(t);
    }
    let (j, b) = match t {
        5 => {
            let mut ns = plangen::empty_schema();
            ns.names = vec![s.pick(&STRINGS).to_string(), "y".into()];
            let Value::Object(j) = serde_json::to_value(&ns).unwrap() else { unreachable!() };
            (j, ns.encode_to_vec())
        }
        0 => base(s),
        1 => mid(s),
        2 => {
            let (mut j, mut b) = (Map::new(), vec![]);
            if s.chance(1, 2) {
                let (x, y) = mid(s);
                j.insert("mid".into(), x.into());
                len(1, &y, &mut b);
            }
            if depth > 0 && s.chance(2, 3) {
                let (x, url, y) = payload(s, used, depth - 1);
                j.insert("inner".into(), x);
                let mut a = vec![];
                len(1, url.as_bytes(), &mut a);
                if !y.is_empty() {
                    len(2, &y, &mut a);
                }
                len(2, &a, &mut b);
            }
            (j, b)
        }
        3 => {
            let (mut j, mut b) = (Map::new(), vec![]);
            if s.chance(2, 3) {
                let mut ns = plangen::empty_schema();
                ns.names = vec!["x".into(), s.pick(&STRINGS).to_string()];
                j.insert("kind".into(), serde_json::to_value(&ns).unwrap());
                len(1, &ns.encode_to_vec(), &mut b);
            }
            if s.chance(1, 2) {
                j.insert("note".into(), json!("n"));
                len(2, b"n", &mut b);
            }
            (j, b)
        }
        _ => {
            let (mut j, mut b) = (Map::new(), vec![]);
            let x = s.range(-3, 3) as i32;
            if x != 0 {
                j.insert("x".into(), json!(x));
                key(1, 0, &mut b);
                varint(((x << 1) ^ (x >> 31)) as u32 as u64, &mut b);
            }
            if s.chance(1, 2) {
                j.insert("y".into(), json!("18446744073709551615"));
                key(2, 1, &mut b);
                b.extend_from_slice(&[255; 8]);
            }
            (j, b)
        }
    };
    let url = format!("{}/{}", s.pick(&["type.googleapis.com", "example.org/a/b", "x"]), NAMES[t]);
    // `@type` may come at any place among the fields
    let mut v: Vec<(String, Value)> = j.into_iter().collect();
    let at = if s.chance(1, 2) { 0 } else { s.idx(v.len() + 1) };
    v.insert(at, ("@type".into(), json!(url)));
    (Value::Array(v.into_iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()), url, b).fix()
}
/// serde_json's maps may sort their keys: inline payloads are kept as ordered pairs until they are printed.
trait Fix {
    fn fix(self) -> Self;
}
impl Fix for (Value, String, Vec<u8>) {
    fn fix(self) -> Self {
        (json!({"\u{0}pairs": self.0}), self.1, self.2)
    }
}
fn print(v: &Value, out: &mut String) {
    match v {
        Value::Object(m) => {
            let pairs: Vec<(String, &Value)> = match m.get("\u{0}pairs") {
                Some(Value::Array(a)) => a.iter().map(|p| (p[0].as_str().unwrap().to_string(), &p[1])).collect(),
                _ => m.iter().map(|(k, v)| (k.clone(), v)).collect(),
            };
            out.push('{');
            for (i, (k, v)) in pairs.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                out.push_str(&serde_json::to_string(k).unwrap());
                out.push(':');
                print(v, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push_str(",\n ");
                }
                print(v, out);
            }
            out.push(']');
        }
        v => out.push_str(&v.to_string()),
    }
}

/// Replace every payload of a plan in JSON form: returns how many there were.
fn replace(v: &mut Value, each: &mut dyn FnMut() -> Value) -> usize {
    match v {
        Value::Object(m) if m.contains_key("typeUrl") => {
            *v = each();
            1
        }
        Value::Object(m) => m.values_mut().map(|x| replace(x, each)).sum(),
        Value::Array(a) => a.iter_mut().map(|x| replace(x, each)).sum(),
        _ => 0,
    }
}

/// Equal bit for bit (not-a-number values included).
fn same(a: &Plan, b: &Plan) -> bool {
    a.encode_to_vec() == b.encode_to_vec()
}

struct Doc {
    raw: String,
    inline: String,
    mixed: Option<String>,
    used: BTreeSet<usize>,
    n: usize,
    want: Plan,
}
fn doc(c: &mut Ctx) -> Doc {
    let o = Opts { ext: true, size: 1 + c.s.idx(5), depth: 1, big: false };
    let plan = plangen::plan(&mut c.s, o);
    let mut raw = serde_json::to_value(&plan).unwrap();
    let mut inline = raw.clone();
    let mut mixed = raw.clone();
    let mut used = BTreeSet::new();
    let mut made = vec![];
    let s = &mut c.s;
    let n = replace(&mut raw, &mut || {
        let (j, url, b) = payload(s, &mut used, 2);
        let r = if b.is_empty() { json!({"typeUrl": url}) } else { json!({"typeUrl": url, "value": b64(&b)}) };
        made.push((j, r.clone()));
        r
    });
    let mut i = 0;
    replace(&mut inline, &mut || {
        i += 1;
        made[i - 1].0.clone()
    });
    let mut i = 0;
    replace(&mut mixed, &mut || {
        i += 1;
        if i % 2 == 0 { made[i - 1].0.clone() } else { made[i - 1].1.clone() }
    });
    let show = |v: &Value| {
        let mut s = String::new();
        print(v, &mut s);
        s
    };
    let raw = show(&raw);
    let want = serde_json::from_str::<Plan>(&raw).expect("raw form");
    Doc { inline: show(&inline), mixed: if n > 1 { Some(show(&mixed)) } else { None }, raw, used, n, want }
}

// ---- histories -------------------------------------------------------------------------------

#[derive(Clone)]
struct Reg {
    reg: ExtensionRegistry,
    have: BTreeSet<usize>,
    hist: Vec<String>,
}
impl Reg {
    fn closed(&self) -> bool {
        self.have.iter().all(|f| CLOSURE[*f].iter().all(|d| self.have.contains(d)))
    }
}

fn read(c: &mut Ctx, fmt: &Format, bytes: &[u8], reg: &ExtensionRegistry) -> Res<Result<Plan, String>> {
    let (r, st) = SimReader::new(bytes, ReadPlan::draw(&mut c.s));
    let x = c.must("reading", || fmt.read_plan(r, reg).map_err(|e| format!("{e:#}")))?;
    let st = st.borrow();
    c.fault("short-read", st.short as u64);
    c.fault("EINTR", st.intr as u64);
    Ok(x)
}

fn run(c: &mut Ctx) -> Res {
    let same_size = c.s.chance(1, 3);
    let all = files(c.s.pick(&FILE_NAMES), same_size);
    let core = FileDescriptorSet::decode(FILE_DESCRIPTOR_SET).expect("core descriptors");
    let docs: Vec<Doc> = (0..1 + c.s.idx(2)).map(|_| doc(c)).collect();
    for d in &docs {
        c.mark(d.inline.as_bytes());
    }
    // plans in other formats, damaged ones among them, as read without any descriptor
    let plain = ExtensionRegistry::default();
    let mut others = vec![];
    for _ in 0..1 + c.s.idx(2) {
        let p = plangen::plan(&mut c.s, Opts { ext: false, size: 3, depth: 1, big: false });
        let f = *c.s.pick(&[Fmt::Text, Fmt::Json, Fmt::Yaml, Fmt::Proto]);
        let mut b = match f {
            Fmt::Text => substrait_explain::format_with_registry(&p, &Disp::draw(&mut c.s).options(), &plain).0.into_bytes(),
            f => f.encode(&p).unwrap_or_default(),
        };
        if c.s.chance(1, 3) {
            b = damage(&mut c.s, &b, &b).0;
        }
        let fmt = match f {
            Fmt::Text => Format::Text,
            Fmt::Json => Format::Json,
            Fmt::Yaml => Format::Yaml,
            Fmt::Proto => Format::Protobuf,
        };
        let want = c.must("reading", || fmt.read_plan(&b[..], &plain).map_err(|e| format!("{e:#}")))?;
        others.push((fmt, b, want));
    }
    let mut regs = vec![Reg { reg: ExtensionRegistry::default(), have: BTreeSet::new(), hist: vec![] }];
    let mut blobs: Vec<(Vec<u8>, BTreeSet<usize>)> = vec![];
    let mut seen = BTreeSet::new();
    // what the documents need comes first more often than not
    let mut needed: Vec<usize> = docs.iter().flat_map(|d| d.used.iter().copied()).collect();
    if c.s.chance(1, 4) {
        needed.clear();
    }
    for step in 0..4 + c.s.idx(10) {
        let i = c.s.idx(regs.len());
        match if step == 0 { 0 } else { c.s.weighted(&[5, 1, 1, 5, 1]) } {
            0 => {
                let (blob, fs) = if !blobs.is_empty() && c.s.chance(1, 4) {
                    blobs[c.s.idx(blobs.len())].clone()
                } else {
                    let mut fs = BTreeSet::new();
                    let bundle = c.s.chance(5, 6);
                    for _ in 0..1 + c.s.small(3) {
                        let t = needed.pop().unwrap_or_else(|| c.s.idx(5));
                        fs.insert(t);
                        if bundle {
                            fs.extend(CLOSURE[t]);
                        }
                    }
                    let mut v: Vec<FileDescriptorProto> = fs.iter().map(|f| all[*f].clone()).collect();
                    if c.s.chance(1, 2) {
                        // compilers bundle the imported core files too
                        v.extend(core.file.iter().filter(|f| matches!(f.name(), "google/protobuf/any.proto" | "substrait/type.proto")).cloned());
                    }
                    let k = c.s.idx(v.len());
                    v.rotate_left(k);
                    if c.s.chance(1, 2) {
                        v.reverse();
                    }
                    (FileDescriptorSet { file: v }.encode_to_vec(), fs)
                };
                regs[i].reg.add_descriptor(blob.clone());
                regs[i].have.extend(&fs);
                regs[i].hist.push(format!("{fs:?}"));
                blobs.push((blob, fs));
            }
            1 => {
                let t = &TYPES[c.s.idx(TYPES.len())];
                let k = KINDS[c.s.idx(4)];
                let _ = (t.2)(&mut regs[i].reg, k);
            }
            2 => {
                if regs.len() < 4 {
                    let r = regs[i].clone();
                    regs.push(r);
                }
            }
            3 => {
                let d = &docs[c.s.idx(docs.len())];
                let r = regs[i].clone();
                let h = r.hist.join(" ");
                if !r.closed() {
                    c.probe("imports missing");
                    // nothing is claimed about JSON here beyond not reading a different plan
                    if let Ok(p) = read(c, &Format::Json, d.inline.as_bytes(), &r.reg)? {
                        ensure!(same(&p, &d.want), "payload-differs", "descriptors {h}: inline payloads read as another plan");
                    }
                    continue;
                }
                let known = d.used.iter().all(|u| r.have.contains(u));
                let direct = c.s.chance(1, 4);
                let got = if direct {
                    let ds = r.reg.descriptors();
                    match c.must("building the pool", || build_descriptor_pool(&ds).map_err(|e| format!("{e:#}")))? {
                        Ok(pool) => c.must("reading", || parse_json(&d.inline, &pool).map_err(|e| format!("{e:#}")))?,
                        Err(e) => return violated("pool", format!("descriptors {h}: {e}")),
                    }
                } else {
                    read(c, &Format::Json, d.inline.as_bytes(), &r.reg)?
                };
                c.log(format!("inline ({} payloads of {:?}) with descriptors {h}: {}", d.n, d.used, match &got { Ok(_) => "read".to_string(), Err(e) => clip(e, 200) }));
                match got {
                    Ok(p) => {
                        ensure!(known, "unknown-accepted", "descriptors {h} do not describe all of {:?}, yet the inline payloads are read", d.used);
                        ensure!(same(&p, &d.want), "payload-differs", "descriptors {h}: inline and raw payloads give different plans: {}", clip(&d.inline, 2000));
                    }
                    Err(e) => ensure!(!known, "payload-rejected", "descriptors {h} describe all of {:?}, yet the inline form is rejected: {e}: {}", d.used, clip(&d.inline, 2000)),
                }
                if known && d.n > 0 {
                    seen.insert(h.clone());
                }
                if c.s.chance(2, 3) {
                    continue;
                }
                match read(c, &Format::Json, d.raw.as_bytes(), &r.reg)? {
                    Ok(p) => ensure!(same(&p, &d.want), "raw-differs", "descriptors {h} change how raw payloads are read"),
                    Err(e) => return violated("raw-differs", format!("descriptors {h}: raw payloads are rejected: {e}")),
                }
                if let Some(m) = &d.mixed {
                    if let Ok(p) = read(c, &Format::Json, m.as_bytes(), &r.reg)? {
                        ensure!(same(&p, &d.want), "payload-differs", "descriptors {h}: a plan with inline and raw payloads reads as another plan");
                        c.probe("mixed forms accepted");
                    } else {
                        c.probe("mixed forms rejected");
                    }
                }
            }
            _ => {
                let (f, b, want) = &others[c.s.idx(others.len())];
                let r = regs[i].clone();
                if *f == Format::Json && !r.closed() {
                    continue;
                }
                let got = read(c, f, b, &r.reg)?;
                let alike = match (&got, want) {
                    (Ok(a), Ok(b)) => same(a, b),
                    (Err(a), Err(b)) => *f == Format::Json || a == b,
                    _ => false,
                };
                ensure!(alike, "other-affected", "descriptors {} change how {f:?} is read: {:?} instead of {:?}", r.hist.join(" "), got.as_ref().map(|_| "a plan"), want.as_ref().map(|_| "a plan"));
                c.probe(format!("other-{f:?}"));
            }
        }
    }
    if seen.len() > 1 {
        c.nontrivial();
    }
    Ok(())
}
