//! Robustness: whatever the bytes, source and flags, event production
//! neither panics nor runs on, and stays ended once it has.

use super::show;
use crate::ev::{self, Script, Trace};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P01",
    rule: "Each case is a byte string (generated YAML, mutated YAML, token soup, hand picked texts, arbitrary bytes, or one construct repeated up to 10^5 times) drained to its end through every reader in both modes; non-trivial: distinct input which gave at least one event besides StreamStart. The oracle fails on a panic, abort, stack overflow, over 8 events per byte + 64, an event after the end or the first error, or over 30 s of CPU time.",
    case,
    cases: (320_000, 2_500_000),
    cpu: 30,
    need: &["src str", "src bytes", "src io", "mode lazy", "ended in error", "ended clean", "kind arbitrary-bytes", "kind repeated"],
    level: "exploration",
};

pub const UNITS: &[&str] = &[
    "[", "{", "- ", "-\n", "? ", ": ", "[a: ", "{a: ", "{? ", "[? ", "[[],", "{[", "a: ", "a:\n", "]", "}", ",", "&a ", "!a ", "!", "&", "*", "*a ", "'", "\"", "''", "\\", "\"\\", "#", " #", "---\n", "--- ", "...\n", "--- a\n...\n",
    "%YAML 1.2\n", "%TAG !a! b\n", "%", "|\n", ">\n", "|", "\n", "\r\n", "\r", " ", "\t", "a", "a ", "a\n", "é", "😀", ":", "?", "-", "k: v\n", "- a\n", "- - ", "- ? ", "? - ", "- a: ", "[a, ", "{a, ", "[\n", "{\n", "\"a\": ", "a:\n- ", "? a\n", ": a\n", "[]: ", "{}: ",
    "[ {", "\u{85}", "\u{2028}", "\\x41", "\0", "@", "a#", "a:b", "[a]\n", "!!a ", "!<a> ", "%41",
];

pub fn repeated(r: &mut Rng, max: usize) -> String {
    let n = *r.pick(&[100, 1000, 5000, max]);
    let u = *r.pick(UNITS);
    let mut s = String::new();
    let lead = *r.pick(&["", "", "", "[", "{", "- ", "a: ", "--- ", "'", "\"", "|\n ", ">\n ", "&a ", "? ", "!a "]);
    s.push_str(lead);
    s.push_str(&u.repeat(n.min(4_000_000 / u.len())));
    match r.below(4) {
        0 => s.push_str(*r.pick(work::FRAGS)),
        1 => {
            // Balance it
            let close: String = u
                .chars()
                .rev()
                .filter_map(|c| match c {
                    '[' => Some(']'),
                    '{' => Some('}'),
                    _ => None,
                })
                .collect();
            s.push_str(&close.repeat(n));
        }
        2 => {
            let v = *r.pick(UNITS);
            s.push_str(&v.repeat(n / 2));
        }
        _ => {}
    }
    s
}

/// Ever deeper indented collections
fn staircase(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    let heads = ["a:\n", "- \n", "? \n", "-\n", "a: # c\n", "- - \n"];
    let one = *r.pick(&heads);
    let mixed = r.pct(50);
    for i in 0..n {
        s.extend(std::iter::repeat(' ').take(i * 2));
        s.push_str(if mixed { *r.pick(&heads) } else { one });
    }
    s.extend(std::iter::repeat(' ').take(n * 2));
    s.push_str("z\n");
    if r.pct(50) {
        s.push_str("b: c\n");
    }
    s
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let heavy = cx.idx % 256 == 255;
    let (data, kind): (Vec<u8>, &str) = if heavy {
        let max = if cx.thorough { 100_000 } else { 30_000 };
        if r.pct(20) {
            let n = r.range(50, 900);
            (staircase(r, n).into_bytes(), "repeated")
        } else {
            (repeated(r, max).into_bytes(), "repeated")
        }
    } else if r.pct(25) {
        (work::bytes(r), "arbitrary-bytes")
    } else {
        let (s, k) = work::any(r);
        (s.into_bytes(), k)
    };
    cx.input(&data);
    cx.feat(&format!("kind {kind}"));
    cx.max("max input bytes", data.len() as u64);

    let text = std::str::from_utf8(&data);
    if text.is_err() {
        cx.feat("not UTF8");
    }

    let note = |cx: &mut Ctx, t: &Trace, src: &str, lazy: bool| {
        cx.eval();
        cx.feat(src);
        cx.feat(if lazy { "mode lazy" } else { "mode eager" });
        cx.feat(if t.err.is_some() { "ended in error" } else { "ended clean" });
        cx.add("events", t.ev.len() as u64);
        cx.max("max events", t.ev.len() as u64);
        t.ev.len()
    };

    let mut seen = 0;
    for lazy in [false, true] {
        if let Ok(s) = text {
            let t = ev::run_str(s, lazy)?;
            seen = seen.max(note(cx, &t, "src str", lazy));
        }
        let t = ev::run_bytes(&data, lazy)?;
        if text.is_err() && t.err.is_none() {
            return Err("invalid UTF8 was accepted".into());
        }
        seen = seen.max(note(cx, &t, "src bytes", lazy));
        let sizes = if heavy { vec![] } else { work::sizes(r) };
        let t = ev::run_read(Script::new(&data).sizes(sizes), lazy, data.len())?;
        seen = seen.max(note(cx, &t, "src io", lazy));
        if !heavy && r.pct(10) {
            // Move the interesting part over a chunk boundary
            let mut p = work::pad(*r.pick(work::PADS), 8192 - r.below(data.len().min(8192) + 1)).into_bytes();
            p.extend_from_slice(&data);
            let t = ev::run_read(Script::new(&p), lazy, p.len())?;
            note(cx, &t, "src io", lazy);
        }
    }
    if seen > 1 {
        cx.distinct(hash_bytes(&data));
    }
    if !heavy {
        cx.sample(|| format!("[{kind}] {}", show(&data)));
    }
    Ok(())
}
