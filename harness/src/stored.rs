//! Plans as stored bytes: independent encoders and decoders, display options, and the damage that storage
//! does to files.

use clap::Parser as _;
use prost::Message;
use substrait::proto::Plan;
use substrait_explain::cli::Cli;
use substrait_explain::{OutputOptions, Visibility};

use crate::src::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Fmt {
    Text,
    Json,
    Yaml,
    Proto,
}
pub const FMTS: [Fmt; 4] = [Fmt::Proto, Fmt::Json, Fmt::Yaml, Fmt::Text];

impl Fmt {
    pub fn draw(s: &mut Src) -> Fmt {
        *s.pick(&FMTS)
    }
    pub fn flag(self) -> &'static str {
        match self {
            Fmt::Text => "text",
            Fmt::Json => "json",
            Fmt::Yaml => "yaml",
            Fmt::Proto => "protobuf",
        }
    }
    /// A spelling the command line accepts for the format.
    pub fn spelling(self, s: &mut Src) -> String {
        let v: &[&str] = match self {
            Fmt::Text => &["text", "TEXT", "Text"],
            Fmt::Json => &["json", "JSON"],
            Fmt::Yaml => &["yaml", "Yaml"],
            Fmt::Proto => &["protobuf", "proto", "pb", "PB"],
        };
        s.pick(v).to_string()
    }
    pub fn ext(self, s: &mut Src) -> &'static str {
        match self {
            Fmt::Text => s.pick(&["substrait", "txt", "TXT"]),
            Fmt::Json => s.pick(&["json", "JSON"]),
            Fmt::Yaml => s.pick(&["yaml", "yml", "Yml"]),
            Fmt::Proto => s.pick(&["pb", "proto", "protobuf", "PB"]),
        }
    }
    /// A file name the format can be told from.
    pub fn file(self, s: &mut Src, stem: &str) -> String {
        let mid = *s.pick(&["", "", "", ".v1", ".json", ".txt", ".2024.pb", " copy", "."]);
        format!("/sim/{stem}{mid}.{}", self.ext(s))
    }
    /// A file name that says nothing, or something else; the format is given.
    pub fn other_file(s: &mut Src, stem: &str) -> String {
        let end = *s.pick(&[".dat", ".dat", ".dat", "", ".json", ".txt", ".yaml", ".pb", ".substrait.bak", "."]);
        format!("/sim/{stem}{end}")
    }
    /// The name says nothing.
    pub fn silent(path: &str) -> bool {
        ![".json", ".txt", ".yaml", ".pb"].iter().any(|e| path.ends_with(e))
    }
    /// Encode without the code under test; text has no other encoder.
    pub fn encode(self, p: &Plan) -> Option<Vec<u8>> {
        match self {
            Fmt::Text => None,
            // a float that is not finite has no JSON form, serde_json writes null
            Fmt::Json => serde_json::to_value(p).ok().filter(|v| !has_null(v)).and_then(|_| serde_json::to_vec_pretty(p).ok()),
            Fmt::Yaml => serde_yaml::to_string(p).ok().map(|s| s.into_bytes()),
            Fmt::Proto => Some(p.encode_to_vec()),
        }
    }
    /// Decode without the code under test.
    pub fn decode(self, b: &[u8]) -> Option<Result<Plan, String>> {
        match self {
            Fmt::Text => None,
            // where the plan is not concerned, serde_json does not look whether a slice is UTF-8
            Fmt::Json => Some(std::str::from_utf8(b).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(t).map_err(|e| e.to_string()))),
            Fmt::Yaml => Some(std::str::from_utf8(b).map_err(|e| e.to_string()).and_then(|t| serde_yaml::from_str(t).map_err(|e| e.to_string()))),
            Fmt::Proto => Some(Plan::decode(b).map_err(|e| e.to_string())),
        }
    }
}

fn has_null(v: &serde_json::Value) -> bool {
    match v {
        serde_json::Value::Null => true,
        serde_json::Value::Array(a) => a.iter().any(has_null),
        serde_json::Value::Object(m) => m.values().any(has_null),
        _ => false,
    }
}

/// Display options that keep the text complete.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Default)]
pub struct Disp {
    pub types: bool,
    /// 0 = the default threshold, otherwise threshold - 1.
    pub rows: u8,
}
impl Disp {
    pub fn draw(s: &mut Src) -> Disp {
        Disp { types: s.chance(1, 3), rows: if s.chance(1, 3) { 1 + s.idx(6) as u8 } else { 0 } }
    }
    pub fn cli(s: &mut Src) -> Disp {
        Disp { types: s.chance(1, 3), rows: 0 }
    }
    pub fn options(&self) -> OutputOptions {
        let mut o = OutputOptions::default();
        if self.types {
            o.literal_types = Visibility::Always;
        }
        match self.rows {
            0 => {}
            6 => o.virtual_table_multiline_threshold = usize::MAX,
            n => o.virtual_table_multiline_threshold = n as usize - 1,
        }
        o
    }
}

pub fn cli(args: &[String]) -> Cli {
    let mut v = vec!["substrait-explain".to_string()];
    v.extend(args.iter().cloned());
    Cli::try_parse_from(v).unwrap_or_else(|e| panic!("arguments {args:?}: {e}"))
}
pub fn convert_args(from: Fmt, to: Fmt, types: bool) -> Vec<String> {
    let mut a: Vec<String> = ["convert", "-f", from.flag(), "-t", to.flag()].iter().map(|s| s.to_string()).collect();
    if types {
        a.push("--show-literal-types".into());
    }
    a
}

/// Damage as storage inflicts it: torn and truncated writes, stale or foreign blocks, flipped bits, lost or
/// repeated ranges.
pub fn damage(s: &mut Src, b: &[u8], other: &[u8]) -> (Vec<u8>, String) {
    let mut v = b.to_vec();
    let mut what = vec![];
    for _ in 0..1 + s.small(3) {
        let n = v.len();
        let at = |s: &mut Src, n: usize| s.idx(n + 1);
        match s.idx(9) {
            0 => {
                let k = at(s, n);
                v.truncate(k);
                what.push(format!("truncated to {k}"));
            }
            1 => {
                if n > 0 {
                    let i = s.idx(n);
                    let bit = s.idx(8);
                    v[i] ^= 1 << bit;
                    what.push(format!("bit {bit} of byte {i} flipped"));
                }
            }
            2 => {
                // a block that was never written
                let blk = *s.pick(&[1usize, 8, 64, 512, 4096]);
                if n > 0 {
                    let i = s.idx(n) / blk * blk;
                    let e = (i + blk).min(n);
                    v[i..e].fill(0);
                    what.push(format!("{i}..{e} zeroed"));
                }
            }
            3 => {
                // new head, stale tail
                let k = at(s, n.min(other.len()));
                let mut t = v[..k.min(n)].to_vec();
                t.extend_from_slice(&other[k.min(other.len())..]);
                v = t;
                what.push(format!("stale data after byte {k}"));
            }
            4 => {
                if n > 0 {
                    let a = s.idx(n);
                    let l = 1 + s.idx(20.min(n - a));
                    v.drain(a..a + l);
                    what.push(format!("{l} bytes lost at {a}"));
                }
            }
            5 => {
                if n > 0 {
                    let a = s.idx(n);
                    let l = 1 + s.idx(40.min(n - a));
                    let d = v[a..a + l].to_vec();
                    let to = at(s, n);
                    for (i, x) in d.into_iter().enumerate() {
                        v.insert(to + i, x);
                    }
                    what.push(format!("{l} bytes from {a} repeated at {to}"));
                }
            }
            6 => {
                if n > 0 {
                    let i = s.idx(n);
                    let x = *s.pick(&[b'9', b'0', b'-', b']', b'[', b'(', b')', b'\'', b'"', b'\n', b' ', b',', b':', b'?', b'#', b'@', b'$', b'+', b'<', b'>', b'=', 0xff, 0x80, 0x7f, b'e', b'.', b'&', b'_', b'u', b'!', b'\\']);
                    v[i] = x;
                    what.push(format!("byte {i} overwritten with {:?}", x as char));
                }
            }
            7 => {
                // a foreign block from the other file
                if n > 0 && !other.is_empty() {
                    let i = s.idx(n);
                    let j = s.idx(other.len());
                    let l = (1 + s.idx(64)).min(n - i).min(other.len() - j);
                    v[i..i + l].copy_from_slice(&other[j..j + l]);
                    what.push(format!("{l} foreign bytes at {i}"));
                }
            }
            _ => {
                // digits run together, as after a lost separator
                let digits: Vec<usize> = v.iter().enumerate().filter(|(_, c)| c.is_ascii_digit()).map(|(i, _)| i).collect();
                if !digits.is_empty() {
                    let i = *s.pick(&digits);
                    let l = 1 + s.idx(24);
                    for _ in 0..l {
                        v.insert(i, v[i]);
                    }
                    what.push(format!("digit at {i} repeated {l} times"));
                }
            }
        }
    }
    (v, what.join(", "))
}

/// Damage to a text plan at token level: swapped, repeated, lost or replaced tokens and lines.
pub fn damage_text(s: &mut Src, text: &str) -> (String, String) {
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let mut what = vec![];
    for _ in 0..1 + s.small(2) {
        if lines.is_empty() {
            break;
        }
        let mut i = s.idx(lines.len());
        match s.idx(7) {
            6 => {
                // a literal gets another type, or one where it had none
                let cs: Vec<char> = lines[i].chars().collect();
                let ends = literal_ends(&cs);
                if ends.is_empty() {
                    continue;
                }
                let (at, upto) = *s.pick(&ends);
                let ty = *s.pick(&[
                    ":i32", ":binary", ":uuid", ":interval_year", ":boolean?", ":date", ":i64", ":i64?", ":string", ":string?", ":fp64", ":fp32", ":time",
                    ":timestamp", ":timestamp_tz", ":boolean", ":i8", ":decimal<10, 2>", ":varchar<4>", ":fixedchar<3>", ":fixedbinary<3>",
                    ":precision_timestamp<6>", ":precision_time<6>", ":interval_day<6>", ":list<i64>", ":binary?", ":uuid?", ":interval_year?", "",
                ]);
                lines[i] = cs[..at].iter().collect::<String>() + ty + &cs[upto..].iter().collect::<String>();
                what.push(format!("line {i} is now {:?}", lines[i]));
            }
            5 => {
                // a line, preferably an addendum, written to another place
                let plus: Vec<usize> = (0..lines.len()).filter(|&k| lines[k].trim_start().starts_with("+ ")).collect();
                if !plus.is_empty() && s.chance(2, 3) {
                    i = *s.pick(&plus);
                }
                let l = if s.chance(1, 2) { lines[i].clone() } else { lines.remove(i) };
                if lines.is_empty() {
                    continue;
                }
                let j = s.idx(lines.len());
                let ind = lines[j].len() - lines[j].trim_start().len() + *s.pick(&[2, 2, 0, 4]);
                lines.insert(j + 1, format!("{}{}", " ".repeat(ind), l.trim_start()));
                what.push(format!("line {i} also or only after line {j}"));
            }
            0 => {
                let l = lines.remove(i);
                what.push(format!("line {i} lost: {l:?}"));
            }
            1 => {
                let l = lines[i].clone();
                lines.insert(i, l);
                what.push(format!("line {i} repeated"));
            }
            2 => {
                let ind = s.idx(9);
                lines[i] = format!("{}{}", " ".repeat(ind), lines[i].trim_start());
                what.push(format!("line {i} indented {ind}"));
            }
            _ => {
                let toks = tokens(&lines[i]);
                if toks.is_empty() {
                    continue;
                }
                let k = s.idx(toks.len());
                let mut t = toks.clone();
                match s.idx(4) {
                    0 => {
                        t.remove(k);
                    }
                    1 => t.insert(k, toks[k].clone()),
                    2 => {
                        let j = s.idx(toks.len());
                        t.swap(k, j);
                    }
                    _ => {
                        t[k] = s
                            .pick(&[
                                "99999999999999999999", "-1", "$4294967296", "4294967295", "4294967296", "i64?", "u8", "u64", "map<i64, string>",
                                "struct<i64>", "list<>", "null", "null:i64?", "1.5e400", "inf", "nan", "''", "'x':date", "'2024-13-45':date",
                                "1:i8", "300:i8", "true:i64", "0x", "{}", "(", ")", "[", "]", "=>", "_", "@", "#", ":", "::", "f()", "if_then()",
                                "precision_timestamp<99>", "precision_timestamp<-1>", "interval_day<99>", "decimal<99, 99>", "varchar<5>", "fixedchar<0>",
                                "fixedbinary<3>", "u!x", "limit=", "&Inner", "&AscNullsFirst", "!{x}", "-0", "-", "9223372036854775808", "-9223372036854775809",
                                "'unterminated", "\"q\"", "\\", "\u{0}", "🦀", "Root[]", "+ Enh:A[]", "- (1)", "===", "=== Plan", "=== Extensions", "URNs:", "Functions:",
                            ])
                            .to_string();
                    }
                }
                lines[i] = t.concat();
                what.push(format!("line {i} is now {:?}", lines[i]));
            }
        }
    }
    let mut out = lines.join("\n");
    if text.ends_with('\n') {
        out.push('\n');
    }
    (out, what.join("; "))
}
/// Where each string, number and word that may be a literal ends, and where the type after it ends.
fn literal_ends(cs: &[char]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < cs.len() {
        let end = if cs[i] == '\'' {
            let mut j = i + 1;
            while j < cs.len() && cs[j] != '\'' {
                j += if cs[j] == '\\' { 2 } else { 1 };
            }
            (j + 1).min(cs.len())
        } else if cs[i].is_ascii_digit() && (i == 0 || !(cs[i - 1].is_alphanumeric() || "$_.#@<".contains(cs[i - 1]))) {
            let mut j = i;
            while j < cs.len() && (cs[j].is_ascii_digit() || cs[j] == '.') {
                j += 1;
            }
            j
        } else {
            let word: String = cs[i..].iter().take(5).collect();
            if (i == 0 || !cs[i - 1].is_alphanumeric()) && (word.starts_with("true") || word == "false") {
                i + if word == "false" { 5 } else { 4 }
            } else {
                i += 1;
                continue;
            }
        };
        let mut upto = end;
        if cs.get(end) == Some(&':') && cs.get(end + 1) != Some(&':') {
            upto = end + 1;
            while upto < cs.len() && (cs[upto].is_alphanumeric() || "_?".contains(cs[upto])) {
                upto += 1;
            }
            if cs.get(upto) == Some(&'<') {
                while upto < cs.len() && cs[upto] != '>' {
                    upto += 1;
                }
                upto = (upto + 1).min(cs.len());
            }
        }
        v.push((end, upto));
        i = upto.max(i + 1);
    }
    v
}
fn tokens(l: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut word = false;
    for c in l.chars() {
        let w = c.is_alphanumeric() || c == '_' || c == '.';
        if w && word {
            v.last_mut().unwrap().push(c);
        } else {
            v.push(c.to_string());
        }
        word = w;
    }
    v
}
