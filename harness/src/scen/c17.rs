//! C17: a damaged text plan is refused at the damaged line.
use prost::Message;
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::{format_with_registry, parse_with_registry};

use super::Scenario;
use crate::ctx::{Ctx, Res, clip};
use crate::ensure;
use crate::ext;
use crate::plangen::{self, Opts};
use crate::proc::{Bin, Launch};
use crate::src::Src;
use crate::stored::{Disp, Fmt, convert_args, damage_text};
use crate::world::*;

pub static S: Scenario = Scenario {
    id: "C17",
    rule: "one evaluation = one generated text plan laid out in a drawn way (blank lines, line ends, no final line end), whose storage lost the tail of a line, replaced it by foreign bytes or put a foreign line in, and which is then read, in process and as a simulated process; or one with any text damage, whose error must name a line there is and quote it; non-trivial = the text was refused",
    real: &["text parser", "the command-line process for a quarter of the runs"],
    stub: &["files and streams", "extension handlers"],
    assumptions: &["a line is named as `line N` in the message; the lines of a table written over several lines count as one, at the first of them"],
    quick_seconds: 25.0,
    run,
};

/// The same text with other line ends and blank lines in between.
pub fn spread(s: &mut Src, text: &str) -> String {
    let end = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let lines: Vec<&str> = text.lines().collect();
    let mut out = String::new();
    let spots = if s.chance(1, 2) { 0 } else { 1 + s.idx(4) };
    let at: Vec<usize> = (0..spots).map(|_| s.idx(lines.len() + 1)).collect();
    for (i, l) in lines.iter().enumerate() {
        // not between the lines of one table
        if at.contains(&i) && !l.trim_start().starts_with("- ") {
            let n = *s.pick(&[1usize, 2, 1, 3, 120, 250, 300, 70_000]);
            let blank = if s.chance(1, 4) { format!("   {end}") } else { end.to_string() };
            out += &blank.repeat(n);
        }
        out += l;
        if i + 1 < lines.len() || text.ends_with('\n') && !s.chance(1, 6) {
            out += end;
        }
    }
    out
}

const JUNK: [&str; 14] = [
    "%%%%", "}{", "\u{1}\u{2}\u{3}", "\u{0}\u{0}\u{0}\u{0}", "<<<<<<< HEAD", "garbage", "\u{fffd}\u{fffd}", "]", "(", "$", "{\"relations\": []}", "+", "--", "=== Plam",
];

struct Hurt {
    text: String,
    /// Numbers of lines that may be named.
    may: Vec<usize>,
    what: String,
}
fn is_row(l: &str) -> bool {
    l.trim_start().starts_with("- ")
}
/// Something is open at the end: a bracket or a string.
fn open(t: &str) -> bool {
    let (depth, quote) = opened(t);
    depth > 0 || quote
}
fn open_quote(t: &str) -> bool {
    opened(t).1
}
fn opened(t: &str) -> (i32, bool) {
    let (mut depth, mut quote, mut esc) = (0i32, None, false);
    for ch in t.chars() {
        match quote {
            Some(_) if esc => esc = false,
            Some(_) if ch == '\\' => esc = true,
            Some(q) if ch == q => quote = None,
            Some(_) => {}
            None if ch == '\'' || ch == '"' => quote = Some(ch),
            None => depth += "([{".contains(ch) as i32 - ")]}".contains(ch) as i32,
        }
    }
    (depth, quote.is_some())
}
/// The line with one of its anchors replaced by one that nothing has.
fn dangling(s: &mut Src, line: &str, sign: char) -> Option<(String, String)> {
    let mut spots = vec![];
    for (k, _) in line.match_indices(sign) {
        // outside strings and comments
        if line[..k].trim().is_empty() || open_quote(&line[..k]) || line[..k].contains("//") {
            continue;
        }
        let rest = &line[k + 1..];
        let sp = rest.len() - rest.trim_start_matches(' ').len();
        let d = rest[sp..].chars().take_while(char::is_ascii_digit).count();
        if d > 0 {
            spots.push((k + 1 + sp, d));
        }
    }
    if spots.is_empty() {
        return None;
    }
    let (k, d) = *s.pick(&spots);
    Some((format!("{}4123456789{}", &line[..k], &line[k + d..]), format!("{sign}{} is now {sign}4123456789", &line[k..k + d])))
}
/// Damage that leaves one or two lines no reader can make sense of.
fn hurt(s: &mut Src, text: &str) -> Option<Hurt> {
    let mut lines: Vec<String> = text.split_inclusive('\n').map(String::from).collect();
    let mut bad: Vec<usize> = vec![];
    let mut what = vec![];
    let n = 1 + s.chance(1, 6) as usize;
    for _ in 0..n {
        let start = lines.iter().position(|l| l.trim_end() == "=== Plan")?;
        let full: Vec<usize> = (0..lines.len()).filter(|&i| !lines[i].trim().is_empty()).collect();
        let mut i = *s.pick(&full);
        if bad.contains(&i) {
            continue;
        }
        let end = if lines[0].ends_with("\r\n") { "\r\n" } else { "\n" };
        let junk = |s: &mut Src, ind: usize| format!("{}{}", " ".repeat(ind), s.pick(&JUNK));
        let ind = lines[i].len() - lines[i].trim_start().len();
        match s.idx(4) {
            3 => {
                // a reference to what is declared nowhere
                let sign = if i > start { '#' } else { '@' };
                let Some((l, w)) = dangling(s, &lines[i], sign) else { continue };
                what.push(format!("line {}: {w}", i + 1));
                lines[i] = l;
            }
            0 if i > start => {
                // the tail is lost: no bracket closes any more
                let l = lines[i].trim_end().to_string();
                let cuts: Vec<usize> = l.char_indices().map(|(k, _)| k).filter(|&k| k > ind).collect();
                if cuts.is_empty() {
                    continue;
                }
                let k = *s.pick(&cuts);
                if is_row(&l) && !open(&l[..k]) {
                    continue;
                }
                let e = lines[i][lines[i].trim_end().len()..].to_string();
                lines[i] = format!("{}{e}", &l[..k]);
                what.push(format!("line {} torn: {:?}", i + 1, &l[..k]));
            }
            1 => {
                let l = junk(s, ind);
                what.push(format!("line {} is now {l:?}", i + 1));
                lines[i] = l + end;
            }
            _ => {
                // a foreign line
                let ind = if s.chance(2, 3) { ind } else { 2 * s.idx(8) };
                if s.chance(1, 2) {
                    i += 1;
                    if !lines[i - 1].ends_with('\n') {
                        lines[i - 1] += end;
                    }
                }
                let l = junk(s, ind);
                what.push(format!("line {} put in: {l:?}", i + 1));
                lines.insert(i, l + end);
                for b in &mut bad {
                    *b += (*b >= i) as usize;
                }
            }
        }
        bad.push(i);
    }
    let mut may = vec![];
    for &i in &bad {
        may.push(i + 1);
        // a table broken in the middle is named by its first line
        if is_row(&lines[i]) || lines.get(i + 1).is_some_and(|l| is_row(l)) || i > 0 && (is_row(&lines[i - 1]) || lines[i - 1].trim_end().ends_with('[')) {
            if let Some(h) = (0..i).rev().find(|&k| !is_row(&lines[k])) {
                may.push(h + 1);
            }
        }
    }
    if bad.is_empty() {
        return None;
    }
    Some(Hurt { text: lines.concat(), may, what: what.join("; ") })
}

/// The first line number a message gives, and what follows it.
fn named(msg: &str) -> Option<(usize, &str)> {
    let mut at = 0;
    while let Some(k) = msg[at..].find("line ") {
        let rest = &msg[at + k + 5..];
        let d = rest.chars().take_while(|c| c.is_ascii_digit()).count();
        if d > 0 {
            return Some((rest[..d].parse().ok()?, &rest[d..]));
        }
        at += k + 5;
    }
    None
}

/// The error names a line of the text, and what it quotes is there.
fn plausible(msg: &str, text: &str) -> Result<usize, String> {
    let Some((n, rest)) = named(msg) else { return Err("no line is named".into()) };
    let Some(l) = n.checked_sub(1).and_then(|i| text.split('\n').nth(i)) else { return Err(format!("there is no line {n}")) };
    if let Some(q) = rest.strip_prefix(": '") {
        let (l, q) = (l.trim(), q.trim_start_matches([' ', '\t']));
        // an empty line with the lines of a table below it
        if l.is_empty() && q.starts_with(['\r', '\n']) {
            return Ok(n);
        }
        let same = l.chars().zip(q.chars()).take_while(|(a, b)| a == b).map(|(a, _)| a.len_utf8()).sum::<usize>();
        if !(q[same..].trim_start().starts_with('\'') || same == l.len() && !l.is_empty()) {
            return Err(format!("line {n} is quoted as another"));
        }
    }
    Ok(n)
}

fn run(c: &mut Ctx) -> Res {
    let with_ext = c.s.chance(1, 2);
    let o = Opts { ext: with_ext, size: 1 + c.s.idx(7), depth: 1 + c.s.idx(2), big: c.s.chance(1, 60) };
    let plan = plangen::plan(&mut c.s, o);
    let reg = if with_ext { ext::registry() } else { ExtensionRegistry::default() };
    let disp = Disp::draw(&mut c.s);
    let (text, _) = c.must("formatting", || format_with_registry(&plan, &disp.options(), &reg))?;
    let text = spread(&mut c.s, &text);
    if text.len() > 300_000 {
        return Ok(());
    }
    let healthy = c.must("parsing", || parse_with_registry(&text, &reg).map_err(|e| e.to_string()))?;
    match healthy {
        Ok(p) if p.encode_to_vec() == plan.encode_to_vec() => {}
        Ok(_) | Err(_) => {
            // C01 has to say something about it
            c.probe("layout-not-read");
            return Ok(());
        }
    }
    let exact = c.s.chance(3, 4);
    let (bad, may, what) = if exact {
        match hurt(&mut c.s, &text) {
            Some(h) => (h.text, h.may, h.what),
            None => return Ok(()),
        }
    } else {
        let (t, w) = damage_text(&mut c.s, &text);
        (t, vec![], w)
    };
    c.log(format!("text of {} bytes: {}", bad.len(), clip(&what, 500)));
    if bad.len() < 4000 {
        c.note(bad.clone());
    }
    c.mark(bad.as_bytes());
    c.fault(if exact { "line-destroyed" } else { "text-damaged" }, 1);
    let r = c.must("reading a damaged plan", || parse_with_registry(&bad, &reg).map(|_| ()).map_err(|e| e.to_string()))?;
    let check = |msg: &str, who: &str| -> Res {
        match plausible(msg, &bad) {
            Err(e) => crate::ctx::violated("wrong-line", format!("{e}: {who} {} ({})", clip(msg, 600), clip(&what, 300))),
            Ok(n) => {
                ensure!(may.is_empty() || may.contains(&n), "wrong-line", "lines that may be named: {may:?}; {who} {} ({})", clip(msg, 600), clip(&what, 300));
                Ok(())
            }
        }
    };
    match &r {
        Ok(()) => {
            ensure!(!exact, "not-refused", "a text with an unreadable line was read ({})", clip(&what, 500));
            return Ok(());
        }
        Err(e) => {
            c.nontrivial();
            c.mark(e.as_bytes());
            check(e, "the error is:")?;
        }
    }
    if c.s.chance(1, 4) {
        let args = if c.s.chance(1, 3) { vec!["validate".to_string()] } else { convert_args(Fmt::Text, *c.s.pick(&[Fmt::Proto, Fmt::Json, Fmt::Text]), false) };
        let mut l = Launch { bin: if with_ext { Bin::Ext } else { Bin::Cli }, args, rand_seed: c.rand_seed(), ..Default::default() };
        if c.s.chance(1, 2) {
            c.world.put_file("/sim/in", ROLE_IN, bad.as_bytes());
            l.args.extend(["-i", "/sim/in"].map(String::from));
        } else {
            l.stdin = bad.clone().into_bytes();
        }
        let e = c.launch(&l)?;
        ensure!(!e.ok() && e.stdout.is_empty(), "not-refused", "the library refuses the text, the process ends with {} and {} bytes of output ({})", e.status(), e.stdout.len(), clip(&what, 300));
        check(&e.err(), "the process reports:")?;
    }
    Ok(())
}
