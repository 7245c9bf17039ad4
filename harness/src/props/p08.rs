//! The content of block scalars.

use super::show;
use crate::embed;
use crate::ev::{self, Ev, Script, Style};
use crate::gen::block_model;
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P08",
    rule: "Each case is a block scalar: a style, chomping, indentation (detected or explicit), header order, comment, sequence of lines (empty, indentation only, more indented, indicator-like, multi-byte, long), last line with or without a break, placed in a stream and read back against a model of section 8.1 of the specification, eagerly and lazily, from &str and io::Read. Sequences of up to 4 of 10 kinds of lines are enumerated, longer ones are random. Non-trivial: distinct combination of header, lines and end.",
    case,
    cases: (1_200_000, 15_000_000),
    cpu: 30,
    need: &["literal", "folded", "clip", "strip", "keep", "explicit", "detected", "no final break", "more indented", "only empty lines", "no lines", "src io", "mode lazy", "followed by a node", "many lines", "65530 lines", "long line", "far indentation"],
    level: "exploration",
};

const KINDS: usize = 10;

/// A line's text less indentation, None being an empty one
fn line(r: &mut Rng, k: usize) -> Option<String> {
    Some(
        match k {
            0 | 1 => return None,
            2 => "a",
            3 => " b",
            4 => "\tc",
            5 => "d ",
            6 => *r.pick(&["- e", "# f", "k: v", "---", "...", "&a", "*", "!", "%Y", "[", "}", "? x", ": y", "'", "\"", "|", ">", "\\n", "@"]),
            7 => *r.pick(&["é", "中文", "😀 x", "x\u{a0}"]),
            8 => *r.pick(&["  ", " ", "\t", "   x", " \t", "  - z", "\u{a0}", "\u{2003}q"]),
            _ => *r.pick(&["word word", "w  w", "t\tu", "a b c d e f g"]),
        }
        .to_string(),
    )
}

fn large_len(r: &mut Rng) -> usize {
    match r.below(90) {
        89 => r.range(1_048_500, 1_050_000),
        0..=2 => r.range(65_500, 66_000),
        3..=20 => r.range(8_000, 8_400),
        _ => r.range(240, 600),
    }
}

struct Built {
    place: embed::Place,
    text: String,
    want: String,
    style: Style,
}

/// A text, without what it means
pub fn text(r: &mut Rng) -> String {
    let mut cx = Ctx::new(false);
    cx.idx = r.next() >> 8;
    make(&mut cx, r).text
}

fn make(cx: &mut Ctx, r: &mut Rng) -> Built {
    // Which lines
    let total: u64 = (0..=4).map(|n| (KINDS as u64).pow(n)).sum();
    let mut kinds: Vec<usize> = vec![];
    if cx.idx % 3 != 0 {
        let mut k = (cx.idx / 3) % total;
        let mut len = 0;
        while k >= (KINDS as u64).pow(len) {
            k -= (KINDS as u64).pow(len);
            len += 1;
        }
        for _ in 0..len {
            kinds.push((k % KINDS as u64) as usize);
            k /= KINDS as u64;
        }
    } else {
        for _ in 0..r.range(3, 14) {
            kinds.push(r.below(KINDS));
        }
    }
    let mut lines: Vec<Option<String>> = kinds.iter().map(|k| line(r, *k)).collect();
    // One line many times over
    let many = match r.below(40_000) {
        0 => r.range(65_530, 65_800),
        1..=100 => r.range(250, 600),
        _ => 0,
    };
    if many > 0 {
        let at = r.below(lines.len() + 1);
        let l = if r.pct(70) { None } else { line(r, *r.clone().pick(&[2, 3, 6, 9])) };
        lines.splice(at..at, std::iter::repeat_n(l, many));
        cx.feat("many lines");
        if many > 65_000 {
            cx.feat("65530 lines");
        }
    }
    // One line very long
    if r.below(500) == 0 {
        if let Some(l) = lines.iter_mut().flatten().next_back() {
            let c = *r.pick(&["z", " ", "é", "w w", "\t"]);
            l.push_str(&c.repeat(large_len(r)));
            cx.feat("long line");
        }
    }
    let lines = lines;

    let fold = r.pct(50);
    let chomp = r.below(3);
    let pl = embed::block(r);
    let add = *r.pick(&[1, 2, 2, 2, 3, 4, 7, 9]);
    let far = r.below(1_000) == 0 && !lines.iter().flatten().next().is_some_and(|l| l.starts_with([' ', '\t']));
    let add = if far { cx.feat("far indentation"); if many == 0 && r.below(6) == 0 { r.range(65_530, 65_800) } else { r.range(245, 300) } } else { add };
    let indent = pl.indent + add;
    let first = lines.iter().flatten().next().cloned().unwrap_or_default();
    let explicit = !far && (first.starts_with([' ', '\t']) || r.pct(25));
    let nl = *r.pick(&["\n", "\n", "\n", "\r\n", "\r"]);

    let mut s = pl.before.clone();
    s.push(if fold { '>' } else { '|' });
    let c = ["", "-", "+"][chomp];
    match (explicit, r.pct(50)) {
        (true, true) => s.push_str(&format!("{add}{c}")),
        (true, false) => s.push_str(&format!("{c}{add}")),
        _ => s.push_str(c),
    }
    match r.below(6) {
        0 => s.push_str(" # comment"),
        1 => s.push_str("  "),
        2 => s.push_str(" \t# | > - 1"),
        _ => {}
    }
    s.push('\n');

    // The last line may do without a break at the end of the stream
    let last_break = !(pl.after.is_empty() && r.pct(50) && matches!(lines.last(), Some(Some(_))));
    for (i, l) in lines.iter().enumerate() {
        match l {
            None => {
                let n = if r.pct(50) { 0 } else { r.below(indent + 1) };
                s.push_str(&" ".repeat(n));
            }
            Some(t) => {
                s.push_str(&" ".repeat(indent));
                s.push_str(t);
            }
        }
        if i + 1 < lines.len() || last_break {
            s.push('\n');
        }
    }
    if last_break {
        // A comment which is less indented than the content ends it
        if r.pct(15) {
            s.push_str(&" ".repeat(r.below(indent.min(pl.indent + 1))));
            s.push_str("# trailing\n");
            cx.feat("trailing comment");
        }
        s.push_str(&pl.after);
    }
    let s = s.replace('\n', nl);

    let want = block_model(&lines, fold, chomp, last_break);
    cx.feat(if fold { "folded" } else { "literal" });
    cx.feat(["clip", "strip", "keep"][chomp]);
    cx.feat(if explicit { "explicit" } else { "detected" });
    if !last_break {
        cx.feat("no final break");
    }
    if lines.iter().flatten().any(|l| l.starts_with([' ', '\t'])) {
        cx.feat("more indented");
    }
    if lines.is_empty() {
        cx.feat("no lines");
    } else if lines.iter().all(|l| l.is_none()) {
        cx.feat("only empty lines");
    }
    if !pl.after.is_empty() {
        cx.feat("followed by a node");
    }
    cx.distinct(hash_bytes(format!("{lines:?}{fold}{chomp}{explicit}{last_break}").as_bytes()));
    cx.sample(|| format!("{} => {want:?}", show(s.as_bytes())));

    Built { place: pl, text: s, want, style: if fold { Style::Folded } else { Style::Literal } }
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let Built { place: pl, text: s, want, style } = make(cx, r);
    for lazy in [false, true] {
        cx.eval();
        cx.input(&s);
        let t = if r.pct(25) {
            cx.feat("src io");
            let t = if r.pct(60) { work::pad("comments", 8192 - r.below(s.len().min(8192) + 1)) + &s } else { s.clone() };
            cx.input(&t);
            ev::run_read(Script::new(t.as_bytes()).sizes(work::sizes(r)), lazy, t.len())?
        } else {
            ev::run_str(&s, lazy)?
        };
        if lazy {
            cx.feat("mode lazy");
        }
        if let Some(e) = &t.err {
            return Err(format!("refused: {e:?}, for content {want:?} (lazy: {lazy})"));
        }
        match embed::find(&pl, &t.ev)? {
            Ev::Scalar { data, style: st, .. } => {
                if *data != want {
                    return Err(format!("content is {data:?}, not {want:?} (lazy: {lazy})"));
                }
                if *st != style {
                    return Err(format!("style is {st:?}, not {style:?}"));
                }
            }
            e => return Err(format!("{e:?}, for content {want:?} (lazy: {lazy})")),
        }
    }
    Ok(())
}
