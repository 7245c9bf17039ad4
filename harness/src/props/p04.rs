//! Source equivalence: where the bytes come from, and in which pieces,
//! does not matter.

use super::show;
use crate::ev::{self, Script, Trace};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P04",
    rule: "Each case is a text fed to the library as &str, as bytes and through an io::Read which serves it in scripted pieces, in both modes; the text is moved so that the reader's chunk boundaries (found at run time) fall at a random, or in sweep cases at every, offset of it. All traces (events, marks, scalars, error) must be equal. Non-trivial: distinct text for which at least one boundary fell strictly inside it.",
    case,
    cases: (24_000, 450_000),
    cpu: 60,
    need: &["boundary inside the text", "swept offsets", "short reads", "ended in error", "ended clean", "mode lazy", "third chunk reached"],
    level: "exploration",
};

/// Offsets at which the reader asks for more data, for a text of small
/// documents: the first is independent of the content
pub fn boundaries() -> Vec<usize> {
    use std::cell::RefCell;
    use yary::{event::from_reader, reader::from_read};
    thread_local!(static B: RefCell<Vec<usize>> = RefCell::new(vec![]));
    B.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_empty() {
            let data = "--- a\n".repeat(20_000);
            let src = Script::new(data.as_bytes());
            let log = src.log.clone();
            let r = from_read(src);
            let mut last = 0;
            for _ in from_reader(&r) {
                let n = log.borrow().served;
                if n != last {
                    b.push(n);
                    last = n;
                }
            }
        }
        b.clone()
    })
}

pub fn compare(a: &Trace, b: &Trace) -> Verdict {
    if a.ev != b.ev {
        return Err(ev::diff(&a.ev, &b.ev));
    }
    if a.err != b.err {
        return Err(format!("errors differ: {:?} and {:?}, after {} events", a.err, b.err, a.ev.len()));
    }
    if a.marks != b.marks {
        let i = a.marks.iter().zip(&b.marks).take_while(|(x, y)| x == y).count();
        return Err(format!("marks of event #{i} {:?} differ: {:?} and {:?}", a.ev[i], a.marks[i], b.marks[i]));
    }
    if a.lazy != b.lazy {
        return Err(format!("{} and {} scalars were delivered unevaluated", a.lazy, b.lazy));
    }
    Ok(())
}

fn io(cx: &mut Ctx, r: &mut Rng, text: &str, lazy: bool, whole: bool) -> Result<Trace, String> {
    let sizes = if whole { vec![] } else { work::sizes(r) };
    let src = Script::new(text.as_bytes()).sizes(sizes);
    let log = src.log.clone();
    let t = ev::run_read(src, lazy, text.len())?;
    cx.eval();
    let log = log.borrow();
    cx.add("io reads", log.calls);
    if log.short > 0 {
        cx.feat("short reads");
    }
    Ok(t)
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let b = boundaries();
    let (s, kind) = work::any(r);
    cx.feat(&format!("kind {kind}"));
    let first = b.first().copied().unwrap_or(8192);

    let sweep = cx.idx % 40 == 39;
    if sweep {
        // Every offset of a small text
        let s = if s.len() > 400 || s.is_empty() { r.pick(work::CORPUS).to_string() } else { s };
        let kind = *r.pick(work::PADS);
        let lazy = r.pct(50);
        for at in 0..=s.len() {
            if at > first {
                break;
            }
            let text = work::pad(kind, first - at) + &s;
            cx.input(&text);
            let want = ev::run_str(&text, lazy)?;
            let got = io(cx, r, &text, lazy, true)?;
            compare(&want, &got).map_err(|m| format!("boundary at offset {at} of {} after {kind} (lazy: {lazy}): {m}", show(s.as_bytes())))?;
            cx.feat("swept offsets");
            cx.eval();
        }
        cx.distinct(hash_bytes(s.as_bytes()));
        return Ok(());
    }

    // Where the text goes
    let (text, inside) = match r.below(10) {
        0 | 1 => (s.clone(), false),
        // A boundary further on, after documents which make progress
        2 | 3 if b.len() > 3 => {
            let n = b[r.range(1, 3)];
            let at = r.below(s.len().min(first) + 1);
            cx.feat("third chunk reached");
            let kind = *r.pick(&["docs", "seq", "comments", "blanks", "doc", "quoted", "wide-comment"]);
            (work::pad(kind, n - at) + &s, true)
        }
        _ => {
            let at = r.below(s.len().min(first) + 1);
            let kind = *r.pick(work::PADS);
            cx.feat(&format!("pad {kind}"));
            (work::pad(kind, first - at) + &s, at > 0 && at < s.len())
        }
    };
    // And what follows
    let text = if r.pct(15) {
        let more = work::pad(*r.pick(work::PADS), r.below(30_000));
        text + "\n" + &more
    } else {
        text
    };
    cx.input(&text);
    if inside {
        cx.feat("boundary inside the text");
        cx.distinct(hash_bytes(s.as_bytes()));
    }
    cx.max("max input bytes", text.len() as u64);

    for lazy in [false, true] {
        cx.feat(if lazy { "mode lazy" } else { "mode eager" });
        let want = ev::run_str(&text, lazy)?;
        cx.feat(if want.err.is_some() { "ended in error" } else { "ended clean" });
        cx.add("events", want.ev.len() as u64);
        let got = ev::run_bytes(text.as_bytes(), lazy)?;
        cx.eval();
        compare(&want, &got).map_err(|m| format!("bytes (lazy: {lazy}): {m}"))?;
        let got = io(cx, r, &text, lazy, true)?;
        compare(&want, &got).map_err(|m| format!("io::Read (lazy: {lazy}): {m}"))?;
        let got = io(cx, r, &text, lazy, false)?;
        compare(&want, &got).map_err(|m| format!("io::Read, short reads (lazy: {lazy}): {m}"))?;
    }
    cx.sample(|| show(s.as_bytes()));
    Ok(())
}
