//! The content of plain and quoted scalars.

use super::show;
use crate::embed::{self, Place};
use crate::ev::{self, Ev, Script, Style};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P07",
    rule: "Each case is one plain, single or double quoted scalar, built from pieces (characters, escapes, quote and backslash runs, line folds, escaped breaks) alongside the content the specification gives it, placed somewhere in a stream and read back, eagerly or lazily, from &str or io::Read. The code points of the BMP are enumerated, both raw and escaped (others sampled), as are all single character escapes; malformed escapes must be refused. Non-trivial: distinct content of at least 2 characters.",
    case,
    cases: (2_000_000, 20_000_000),
    cpu: 30,
    need: &["plain", "single", "double", "all short escapes", "escaped code points", "raw code points", "folded", "escaped break", "malformed escape refused", "surrogate refused", "key", "flow", "src io", "mode lazy", "content over 250 bytes", "content over 65500 bytes", "content over 1 MB", "250 empty lines"],
    level: "exploration",
};

/// (escape, what it stands for)
const SHORT: &[(char, char)] = &[
    ('0', '\0'), ('a', '\x07'), ('b', '\x08'), ('t', '\t'), ('\t', '\t'), ('n', '\n'), ('v', '\x0b'), ('f', '\x0c'), ('r', '\r'), ('e', '\x1b'), (' ', ' '), ('"', '"'), ('/', '/'), ('\\', '\\'), ('N', '\u{85}'), ('_', '\u{a0}'), ('L', '\u{2028}'), ('P', '\u{2029}'),
];

/// May the character be in a scalar as it is? (The library takes the
/// breaks of YAML 1.1 for breaks, these are left out)
fn raw(c: char) -> bool {
    let v = c as u32;
    match v {
        0x09 | 0x20..=0x7e => true,
        0xa0..=0xd7ff if v != 0x2028 && v != 0x2029 => true,
        0xe000..=0xfffd if v != 0xfeff => true,
        0x10000..=0x10ffff => true,
        _ => false,
    }
}

/// Not printable: may be refused, but not be anything but content
fn control(c: char) -> bool {
    matches!(c as u32, 1..=8 | 0xb | 0xc | 0xe..=0x1f | 0x7f..=0x84 | 0x86..=0x9f | 0xfffe | 0xffff)
}

fn hex(r: &mut Rng, v: u32) -> String {
    let w = if v < 0x100 { r.below(3) } else if v < 0x1_0000 { 1 + r.below(2) } else { 2 };
    let mut digits = format!("{:0w$x}", v, w = [2, 4, 8][w]);
    digits = digits.chars().map(|c| if r.pct(50) { c.to_ascii_uppercase() } else { c }).collect();
    format!("\\{}{digits}", ['x', 'u', 'U'][w])
}

struct Built {
    text: String,
    data: String,
    feats: Vec<&'static str>,
}

fn brk(r: &mut Rng, nl: &str) -> String {
    if nl == "mixed" {
        r.pick(&["\n", "\r\n", "\r"]).to_string()
    } else {
        nl.to_string()
    }
}

/// Mostly small, at times beyond what fits eight bits, rarely sixteen
fn large(r: &mut Rng, small: usize) -> usize {
    if r.below(300_000) == 0 {
        return r.range(1_048_500, 1_050_000);
    }
    match r.below(20_000) {
        0 => r.range(65_530, 66_000),
        1..=40 => r.range(250, 600),
        _ => small,
    }
}

fn wspace(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let n = if n > 0 { large(r, n) } else { 0 };
    (0..n).map(|_| if r.pct(80) { ' ' } else { '\t' }).collect()
}

/// What follows a line break in a flow scalar: blank lines, and the start
/// of the line. Returns the number of blank lines
fn lead(r: &mut Rng, nl: &str, indent: usize, t: &mut String) -> usize {
    let n = *r.pick(&[0, 0, 0, 1, 1, 2, 3]);
    let n = large(r, n);
    for _ in 0..n {
        if r.pct(if n > 250 { 2 } else { 40 }) {
            // Not less than the indentation, if there is a tab
            if r.pct(60) {
                t.push_str(&" ".repeat(r.below(indent + 3)));
            } else {
                t.push_str(&" ".repeat(indent));
                t.push_str(&wspace(r, 3));
            }
        }
        let b = brk(r, nl);
        push_brk(t, &b);
    }
    t.push_str(&" ".repeat(indent));
    t.push_str(&wspace(r, 2));
    n
}

/// A CR and a LF which are to be two breaks must not meet
fn push_brk(t: &mut String, b: &str) {
    if b == "\n" && t.ends_with('\r') {
        t.push_str("\r\n");
    } else {
        t.push_str(b);
    }
}

fn quoted(r: &mut Rng, pl: &Place, nl: &str, dq: bool) -> Built {
    let q = if dq { '"' } else { '\'' };
    let mut b = Built { text: String::new(), data: String::new(), feats: vec![if dq { "double" } else { "single" }] };
    b.text.push(q);
    let n = *r.pick(&[0, 1, 2, 3, 5, 8, 13, 30]);
    let n = large(r, n);
    // Is the tail of .text raw whitespace? (it would be lost in a fold)
    let chars: &[char] = *r.pick(&[
        &['a', '\'', '"', '\\', ' '][..],
        &['a', 'b', '#', ':', '-', ' ', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '%', '@', '`', '?', '~', '\''],
        &['é', '中', '😀', 'a', ' ', '\u{a0}', '\u{fffd}'],
        &['x', ' ', '\t'],
        &['x', ' ', '\u{a0}', '\u{2003}', '\u{3000}', '\u{200b}', '\u{ad}', '\u{1680}'],
    ]);
    let odd = r.below(20) == 0;
    let chars = if odd { &['x', ' ', '\x0c', '\x0b', '\x1f', '\x08', '\x7f', '\x1b', '\u{80}', '\u{9f}'] } else { chars };
    let folds = !pl.key && r.pct(45);
    let mut i = 0;
    while i < n {
        i += 1;
        let pick = r.below(100);
        if folds && pick < 22 {
            // Whitespace around the break is not content, unless escaped
            let ws = wspace(r, 2);
            // Raw whitespace right before is not content either
            let t = b.text.trim_end_matches([' ', '\t']);
            let raw_ws = b.text.len() - t.len();
            // ...but whitespace right after a backslash is escaped
            let slashes = t.len() - t.trim_end_matches('\\').len();
            let raw_ws = if dq && raw_ws > 0 && slashes % 2 == 1 { raw_ws - 1 } else { raw_ws };
            let keep = b.data.len() - raw_ws.min(b.data.len());
            if r.pct(25) && dq {
                // Escaped break: whitespace before it is content, that after is not
                b.text.push('\\');
                let k = brk(r, nl);
                b.text.push_str(&k);
                let e = lead(r, nl, pl.indent, &mut b.text);
                for _ in 0..e {
                    b.data.push('\n');
                }
                b.feats.push("escaped break");
            } else {
                b.data.truncate(keep);
                b.text.push_str(&ws);
                let k = brk(r, nl);
                b.text.push_str(&k);
                let e = lead(r, nl, pl.indent, &mut b.text);
                if e == 0 {
                    b.data.push(' ');
                } else {
                    for _ in 0..e {
                        b.data.push('\n');
                    }
                }
                b.feats.push("folded");
            }
            // Something which is not whitespace has to start the line, or
            // it would be taken for indentation
            let c = *r.pick(if odd { &['w', '\x0c', '\x0b', '\x1c', '\u{a0}'][..] } else { &['w', 'é', '#', ':', '\u{a0}', '\u{2003}'] });
            b.text.push(c);
            b.data.push(c);
        } else if dq && pick < 60 {
            match r.below(4) {
                0 | 1 => {
                    let (e, c) = *r.pick(SHORT);
                    b.text.push('\\');
                    b.text.push(e);
                    b.data.push(c);
                }
                2 => {
                    let c = *r.pick(&['A', '\'', '"', '\\', ' ', '\n', '\0', '\u{e9}', '\u{ff}', '\u{feff}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{85}']);
                    b.text.push_str(&hex(r, c as u32));
                    b.data.push(c);
                }
                _ => {
                    b.text.push_str("\\\\");
                    b.data.push('\\');
                }
            }
        } else {
            let c = *r.pick(chars);
            match c {
                '\\' if dq => b.text.push_str("\\\\"),
                '"' if dq => b.text.push_str("\\\""),
                '\'' if !dq => b.text.push_str("''"),
                c => b.text.push(c),
            }
            b.data.push(c);
        }
    }
    b.text.push(q);
    b
}

fn plain(r: &mut Rng, pl: &Place, nl: &str) -> Built {
    let mut b = Built { text: String::new(), data: String::new(), feats: vec!["plain"] };
    let n = *r.pick(&[1, 1, 2, 3, 5, 8, 20]);
    let n = large(r, n);
    // Runs which may be anywhere in a plain scalar, start ones first
    let start = ["a", "Z9", "-a", "?a", ":a", "--x", "-1", "::", "é", "中文", "😀", "<<", "=", "~", "(x)", "$", "^", "_", "+", ".5", "..x", "/", "\\n", "\\", "a'b", "a\"b"];
    let mid = ["b", "c'd", "'", "\"", "#", "a#", ":x", "x:y", "-", "--", "&", "*", "!", "|", ">", "%", "@", "`", "?", "\\", "''", "é", "𝄞", "---", "..."];
    let block = ["[", "]", "{", "}", ",", "a,b", "[x]", "{y}", ",,"];
    let odd = r.below(20) == 0;
    let strange = ["\x0c", "x\x0c", "\x0b", "\x1f", "x\x7f", "\x08y", "\u{9f}"];
    let wide = ["\u{a0}", "x\u{a0}", "\u{2003}", "x\u{3000}", "\u{200b}", "\u{1680}x"];
    let from = if odd { &strange[..] } else if r.below(20) == 0 { &wide[..] } else { &start[..] };
    b.text.push_str(*r.pick(from));
    if pl.flow && b.text.contains("::") {
        b.text = "a".into();
    }
    b.data = b.text.clone();
    for _ in 1..n {
        let mut w = if !pl.flow && r.pct(25) { *r.pick(&block) } else if odd && r.pct(50) { *r.pick(&strange) } else if r.below(20) == 0 { *r.pick(&wide) } else { *r.pick(&mid) };
        let mut fold = false;
        let glue = r.below(10);
        if glue > 3 && b.text.ends_with(':') {
            b.text.push('x');
            b.data.push('x');
        }
        match glue {
            // Glued to what is before
            0..=3 => {}
            4 | 5 if !pl.key => fold = true,
            _ => {
                if w.starts_with('#') {
                    w = "x";
                }
                let s: String = wspace(r, 3) + if r.pct(70) { " " } else { "\t" };
                b.text.push_str(&s);
                b.data.push_str(&s);
            }
        }
        if fold {
            b.feats.push("folded");
            b.text.push_str(&wspace(r, 2));
            let k = brk(r, nl);
            b.text.push_str(&k);
            let e = lead(r, nl, pl.indent, &mut b.text);
            if e == 0 {
                b.data.push(' ');
            } else {
                b.data.push_str(&"\n".repeat(e));
            }
            // Nothing that would be an indicator at the start of a line
            w = *r.pick(&["b", "é", "x:y", "-x", "\\", "c'd", ".5", "(", "😀", "\u{a0}", if odd { "\x0c" } else { "\u{2003}z" }]);
        }
        // ':' must not be followed by whitespace or, in flow, indicators
        if w.starts_with(':') && b.data.ends_with([' ', '\t', '\n']) && pl.flow {
            w = "b";
        }
        b.text.push_str(w);
        b.data.push_str(w);
    }
    // May not end in ':'
    if b.text.ends_with(':') {
        b.text.push('x');
        b.data.push('x');
    }
    b
}

fn run(cx: &mut Ctx, r: &mut Rng, pl: &Place, text: &str, lazy: bool) -> Result<ev::Trace, String> {
    cx.input(text);
    cx.eval();
    if lazy {
        cx.feat("mode lazy");
    }
    if pl.flow {
        cx.feat("flow");
    }
    if pl.key {
        cx.feat("key");
    }
    if r.pct(25) {
        cx.feat("src io");
        let t = if r.pct(50) { work::pad("comments", 8192 - r.below(text.len().min(8192) + 1)) + text } else { text.to_string() };
        cx.input(&t);
        ev::run_read(Script::new(t.as_bytes()).sizes(work::sizes(r)), lazy, t.len())
    } else {
        ev::run_str(text, lazy)
    }
}

fn judge(pl: &Place, t: &ev::Trace, text: &str, data: &str, style: Style) -> Verdict {
    if let Some(e) = &t.err {
        // What is not printable may be refused
        if text.chars().any(control) {
            return Ok(());
        }
        return Err(format!("refused: {e:?}, for content {data:?}"));
    }
    match embed::find(pl, &t.ev)? {
        Ev::Scalar { data: d, style: s, .. } => {
            if d != data {
                return Err(format!("content is {d:?}, not {data:?}"));
            }
            if *s != style {
                return Err(format!("style is {s:?}, not {style:?}"));
            }
            Ok(())
        }
        e => Err(format!("{e:?}, for content {data:?}")),
    }
}

/// A block of consecutive code points, escaped or raw
fn code_points(cx: &mut Ctx, r: &mut Rng, escaped: bool, from: u32, n: u32) -> Verdict {
    let cs: Vec<char> = (from..from + n).filter_map(char::from_u32).filter(|c| escaped || raw(*c) || control(*c) && r.clone().pct(30)).collect();
    if cs.is_empty() {
        return Ok(());
    }
    let lazy = r.pct(50);
    if escaped {
        cx.feat("escaped code points");
        cx.add("code points escaped", cs.len() as u64);
        let mut pl = embed::lines(r);
        pl.key = false;
        let text: String = cs.iter().map(|c| hex(r, *c as u32)).collect();
        let data: String = cs.iter().collect();
        let s = format!("{}\"{text}\"{}", pl.before, pl.after);
        let t = run(cx, r, &pl, &s, lazy)?;
        return judge(&pl, &t, &s, &data, Style::Double);
    }
    cx.feat("raw code points");
    cx.add("code points raw", cs.len() as u64);
    let data: String = cs.iter().collect();
    let pl = embed::lines(r);
    let style = r.below(3);
    let (text, data, style) = match style {
        0 => (format!("\"{}\"", data.replace('\\', "\\\\").replace('"', "\\\"")), data, Style::Double),
        1 => (format!("'{}'", data.replace('\'', "''")), data, Style::Single),
        _ => {
            // Between letters, everything but flow indicators is allowed
            let d: String = cs.iter().filter(|c| !(pl.flow && ",[]{}".contains(**c))).flat_map(|c| ['a', *c, 'b']).collect();
            let d = d.replace('\t', "\t");
            (d.clone(), d, Style::Plain)
        }
    };
    let s = format!("{}{text}{}", pl.before, pl.after);
    let t = run(cx, r, &pl, &s, lazy)?;
    judge(&pl, &t, &s, &data, style)
}

/// Malformed escapes are refused, wherever they are
fn malformed(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let good = |r: &mut Rng| -> String {
        let mut s = String::new();
        for _ in 0..r.below(6) {
            s.push_str(*r.pick(&["a", " b", "\\\\", "\\\"", "\\n", "é", "\\x41", "''"]));
        }
        s
    };
    let mut cut = false;
    let bad = match r.below(6) {
        0 => {
            cx.feat("surrogate refused");
            let v = r.range(0xd800, 0xdfff);
            if r.pct(50) {
                format!("\\u{v:04x}")
            } else {
                format!("\\U{v:08X}")
            }
        }
        1 => {
            let v = *r.pick(&[0x110000u64, 0x110001, 0x120000, 0xffffffff, 0x80000000, 0x7fffffff, 0x00200000]);
            format!("\\U{v:08x}")
        }
        2 => {
            // Not enough digits
            cut = r.pct(20);
            let (k, n) = *r.pick(&[('x', 2), ('u', 4), ('U', 8)]);
            let m = r.below(n);
            let d: String = (0..m).map(|_| '0').collect();
            format!("\\{k}{d}{}", if cut { "" } else { *r.pick(&["g", " ", "-", "é", "+", "\\n", "_", "G", "x", "/", ":", "@", "`"]) })
        }
        _ => loop {
            let c = match r.below(3) {
                0 => (0x21 + r.below(0x5e)) as u8 as char,
                1 => *r.pick(&['é', '中', '😀', '\u{a0}', '\u{fffd}']),
                _ => (b'a' + r.below(26) as u8) as char,
            };
            if !SHORT.iter().any(|(e, _)| *e == c) && !"xuU".contains(c) {
                break format!("\\{c}");
            }
        },
    };
    let pl = if r.pct(30) { embed::key(r) } else { embed::lines(r) };
    let text = format!("{}\"{}{bad}{}\"{}", pl.before, good(r), if cut { String::new() } else { good(r) }, pl.after);
    for lazy in [false, true] {
        let t = run(cx, r, &pl, &text, lazy)?;
        if t.ok() {
            return Err(format!("the malformed escape {bad:?} is accepted (lazy: {lazy})"));
        }
    }
    cx.feat("malformed escape refused");
    Ok(())
}

fn make(r: &mut Rng) -> (Place, Built, usize) {
    let pl = if r.pct(25) { embed::key(r) } else { embed::lines(r) };
    let nl = *r.pick(&["\n", "\n", "\r\n", "\r", "mixed"]);
    let k = r.below(3);
    let b = match k {
        0 => plain(r, &pl, nl),
        1 => quoted(r, &pl, nl, false),
        _ => quoted(r, &pl, nl, true),
    };
    (pl, b, k)
}

/// A text, without what it means
pub fn text(r: &mut Rng) -> String {
    let (pl, b, _) = make(r);
    format!("{}{}{}", pl.before, b.text, pl.after)
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let i = cx.idx / 4;
    match cx.idx % 4 {
        0 => {
            // 16 code points at a time: the BMP takes 4096 of these, twice
            let k = i % 8192;
            let esc = k % 2 == 0;
            if i < 8192 {
                return code_points(cx, r, esc, (k / 2) as u32 * 16, 16);
            }
            let from = 0x10000 + r.below(0x100000 / 16) as u32 * 16;
            return code_points(cx, r, r.clone().pct(50), from, 16);
        }
        1 if i % 3 == 0 => return malformed(cx, r),
        1 if i % 30 == 1 => {
            let all: String = SHORT.iter().map(|(e, _)| format!("\\{e}")).collect();
            let data: String = SHORT.iter().map(|(_, c)| *c).collect();
            let pl = if r.pct(50) { embed::key(r) } else { embed::lines(r) };
            let s = format!("{}\"{all}\"{}", pl.before, pl.after);
            let lazy = r.pct(50);
            let t = run(cx, r, &pl, &s, lazy)?;
            cx.feat("all short escapes");
            return judge(&pl, &t, &s, &data, Style::Double);
        }
        _ => {}
    }
    let (pl, b, k) = make(r);
    if pl.key && b.text.len() > 900 {
        return Ok(());
    }
    let style = [Style::Plain, Style::Single, Style::Double][k];
    for f in &b.feats {
        cx.feat(f);
    }
    let s = format!("{}{}{}", pl.before, b.text, pl.after);
    if b.data.len() > 250 {
        cx.feat("content over 250 bytes");
    }
    if b.data.len() > 65_500 {
        cx.feat("content over 65500 bytes");
    }
    if b.data.len() > 1 << 20 {
        cx.feat("content over 1 MB");
    }
    if b.data.contains(&"\n".repeat(250)) {
        cx.feat("250 empty lines");
    }
    for lazy in [false, true] {
        let t = run(cx, r, &pl, &s, lazy)?;
        judge(&pl, &t, &s, &b.data, style)?;
    }
    if b.data.chars().count() >= 2 {
        cx.distinct(hash_bytes(b.data.as_bytes()) ^ k as u64);
    }
    cx.sample(|| format!("{} => {:?}", show(s.as_bytes()), b.data));
    Ok(())
}
