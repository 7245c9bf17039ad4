//! Marks say where events were written.

use super::show;
use crate::ev::{self, Ev, Props, Script, Style, Trace};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P16",
    rule: "Each case is a text (generated, mutated, soup, hand picked; padded to a chunk boundary at times) whose events' marks, in either mode and from a &str or an io::Read, are checked against the text: within it, on characters, in order and without overlap; each scalar, alias, anchor, tag, bracket and marker which is written must be found between the end of the event before and its own end, and those which end in something definite must end just there. Non-trivial: distinct text with at least 3 events located.",
    case,
    cases: (1_200_000, 25_000_000),
    cpu: 30,
    need: &["plain", "single quoted", "double quoted", "literal", "folded", "alias", "anchor", "tag", "empty", "flow sequence", "flow mapping", "block sequence", "block mapping", "document start", "document end", "mode lazy", "mode eager", "src io", "ended in error", "not ASCII", "CR"],
    level: "exploration",
};

/// Find each word in turn
fn words(seg: &str, data: &str) -> bool {
    let mut s = seg;
    data.split(|c: char| c.is_whitespace()).filter(|w| !w.is_empty()).all(|w| match s.find(w) {
        Some(i) => {
            s = &s[i + w.len()..];
            true
        }
        None => false,
    })
}

pub fn check(s: &str, t: &Trace, mut saw: impl FnMut(&'static str)) -> Result<u64, String> {
    let (mut last, mut prev) = (0, 0);
    let mut n = 0;
    // Whether the open collections are flow ones
    let mut open = vec![];
    for (i, e) in t.ev.iter().enumerate() {
        let (a, b) = t.marks[i];
        let bad = |m: &str| {
            let (x, y) = (last.min(s.len()), b.min(s.len()));
            let seg = s.as_bytes().get(x..y).map(|b| String::from_utf8_lossy(b).to_string());
            Err(format!("event #{i} {e:?}, marked {a}..{b} after {last}, {m}: {seg:?}"))
        };
        if a > b || b > s.len() || a < prev {
            return bad("goes back, overlaps the one before, or lies outside of the text");
        }
        if !s.is_char_boundary(a) || !s.is_char_boundary(b) {
            return bad("is marked inside of a character");
        }
        let seg = &s[last..b];
        let (upto, from) = (&s[..b], &s[b..]);
        if let Ev::Scalar { props, .. } | Ev::BadScalar { props, .. } | Ev::SeqStart { props, .. } | Ev::MapStart { props, .. } = e {
            if let Some(a) = &props.anchor {
                saw("anchor");
                n += 1;
                if !seg.contains(&format!("&{a}")) {
                    return bad("does not have its anchor there");
                }
            }
            if props.tag.is_some() {
                saw("tag");
                n += 1;
                if !seg.contains('!') {
                    return bad("does not have its tag there");
                }
            }
        }
        // What has properties begins no later than what they belong to
        let own = match e {
            Ev::Scalar { props, style: Style::Single | Style::Double, .. } if *props != Props::NONE => Some(['\'', '"']),
            Ev::SeqStart { props, .. } | Ev::MapStart { props, .. } if *props != Props::NONE && seg.ends_with(['[', '{']) => Some(['[', '{']),
            _ => None,
        };
        if own.is_some_and(|q| !s[a..b].contains(q)) {
            return bad("does not begin before what its properties belong to");
        }
        let mut written = true;
        match e {
            Ev::Scalar { data, style: Style::Plain, .. } if data.is_empty() => {
                saw("empty");
                written = false;
            }
            Ev::Scalar { data, style: Style::Plain, .. } => {
                saw("plain");
                n += 1;
                let tail = data.rsplit(|c: char| c.is_whitespace()).next().unwrap_or("");
                if !words(seg, data) || !upto.ends_with(tail) {
                    return bad("does not end there");
                }
            }
            Ev::Scalar { data, style: Style::Single, .. } => {
                saw("single quoted");
                n += 1;
                if seg.len() < 2 || !seg.ends_with('\'') || !words(seg, &data.replace('\'', "''")) {
                    return bad("does not end there");
                }
            }
            Ev::Scalar { style: Style::Double, .. } => {
                saw("double quoted");
                n += 1;
                if !seg.ends_with('"') || seg.matches('"').count() < 2 {
                    return bad("does not end there");
                }
            }
            Ev::Scalar { data, style: Style::Literal | Style::Folded, .. } => {
                let lit = matches!(e, Ev::Scalar { style: Style::Literal, .. });
                saw(if lit { "literal" } else { "folded" });
                n += 1;
                if !seg.contains(if lit { '|' } else { '>' }) || !words(seg, data) {
                    return bad("is not there");
                }
            }
            Ev::BadScalar { .. } => {}
            Ev::Alias(a) => {
                saw("alias");
                n += 1;
                if !upto.ends_with(&format!("*{a}")) || seg.len() <= a.len() {
                    return bad("does not end there");
                }
            }
            Ev::SeqStart { .. } => {
                let flow = seg.ends_with('[');
                saw(if flow { "flow sequence" } else { "block sequence" });
                n += 1;
                if !flow && !from.starts_with('-') {
                    return bad("has neither [ before its end, nor - after it");
                }
                open.push(flow);
                written = flow;
            }
            Ev::MapStart { .. } => {
                let flow = seg.ends_with('{');
                saw(if flow { "flow mapping" } else { "block mapping" });
                n += 1;
                if !open.contains(&true) && !flow && (from.is_empty() || from.starts_with([' ', '\t', '\n', '\r', '#', ',', ']', '}'])) {
                    return bad("has neither { before its end, nor a key after it");
                }
                open.push(flow);
                written = flow;
            }
            Ev::SeqEnd | Ev::MapEnd => {
                written = open.pop() == Some(true);
                if written && !seg.ends_with(if *e == Ev::SeqEnd { ']' } else { '}' }) {
                    return bad("does not end in its bracket");
                }
            }
            Ev::DocStart { explicit: true, .. } => {
                saw("document start");
                n += 1;
                if !upto.ends_with("---") {
                    return bad("does not end there");
                }
            }
            Ev::DocEnd { explicit: true } => {
                saw("document end");
                n += 1;
                if !seg.ends_with("...") {
                    return bad("does not end there");
                }
            }
            Ev::StreamEnd => {
                if b != s.len() {
                    return bad("is not at the end");
                }
            }
            _ => written = false,
        }
        prev = b;
        // The others are marked by what follows them
        if written {
            last = b;
        }
    }
    Ok(n)
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let mut s = match r.below(10) {
        0..=4 => work::any(r).0,
        5 => work::small(r),
        6 => r.pick(work::CORPUS).to_string(),
        7 | 8 => work::rich(r),
        _ => work::valid(r),
    };
    if r.pct(6) {
        let at = r.below(s.len().min(8192) + 1);
        s = work::pad(*r.pick(work::PADS), 8192 - at) + &s;
    }
    cx.input(&s);
    let lazy = r.pct(50);
    cx.feat(if lazy { "mode lazy" } else { "mode eager" });
    cx.eval();
    let t = if r.pct(25) {
        cx.feat("src io");
        ev::run_read(Script::new(s.as_bytes()).sizes(work::sizes(r)), lazy, s.len())?
    } else {
        ev::run_str(&s, lazy)?
    };
    if t.err.is_some() {
        cx.feat("ended in error");
    }
    if !s.is_ascii() {
        cx.feat("not ASCII");
    }
    if s.contains('\r') {
        cx.feat("CR");
    }
    let n = check(&s, &t, |f| cx.feat(f))?;
    if n >= 3 {
        cx.distinct(hash_bytes(s.as_bytes()));
    }
    cx.add("events located", n);
    cx.sample(|| show(s.as_bytes()));
    Ok(())
}
