//! Lazy evaluation changes when scalars are processed, not what they are.

use super::show;
use crate::ev::{self, Ev, Script, Style, Trace};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P05",
    rule: "Each case is a text drained eagerly and lazily (every deferred scalar evaluated) from the same kind of source; the traces must be equal if either is clean, and otherwise both must fail, with the eager events a prefix of the lazy ones. Every scalar which is written out must be deferred when asked to; where an escape of a sound text is made one which does not exist, the lazy stream must be complete, with evaluation of that scalar, and no other, failing. Non-trivial: distinct text in which at least one scalar was in fact deferred.",
    case,
    cases: (1_000_000, 10_000_000),
    cpu: 30,
    need: &["deferred scalars", "both clean", "both failed", "deferred error", "escape broken", "src io"],
    level: "exploration",
};

pub fn compare(e: &Trace, l: &Trace) -> Verdict {
    if e.err.is_none() {
        if let Some(i) = l.first_bad() {
            return Err(format!("lazy fails at event #{i} ({:?}), eager does not", l.err));
        }
        if e.ev != l.ev {
            return Err(format!("(eager expected) {}", ev::diff(&e.ev, &l.ev)));
        }
        return Ok(());
    }
    let Some(bad) = l.first_bad() else {
        return Err(format!("eager fails ({:?}) after {} events, lazy does not", e.err, e.ev.len()));
    };
    // Reading ahead for keys, eager may notice the error before
    // delivering events which lazy can still deliver
    let n = e.ev.len();
    if l.ev.len() < n || e.ev[..] != l.ev[..n] {
        return Err(format!("(eager, failing, expected) {}", ev::diff(&e.ev, &l.ev)));
    }
    if bad < n {
        return Err(format!("lazy fails at #{bad}, before eager at #{n}"));
    }
    // It is the same error, if later
    if let (Some(Ev::BadScalar { fault, .. }), Some(err)) = (l.ev.get(bad), &e.err) {
        if fault != err {
            return Err(format!("evaluation of #{bad} fails with {fault:?}, eager with {err:?}"));
        }
    }
    Ok(())
}

/// All scalars which are written out are deferred
fn deferred(l: &Trace) -> Verdict {
    let n = l
        .ev
        .iter()
        .filter(|e| match e {
            Ev::BadScalar { .. } => true,
            Ev::Scalar { data, style, .. } => !data.is_empty() || *style != Style::Plain,
            _ => false,
        })
        .count();
    if l.lazy != n {
        return Err(format!("{} of {n} scalars are deferred", l.lazy));
    }
    Ok(())
}

/// An error in a scalar's content is the scalar's, not the stream's
fn bad_escape(cx: &mut Ctx, r: &mut Rng, s: &str, e: &Trace, run: &dyn Fn(&str, bool) -> Result<Trace, String>) -> Verdict {
    let b = s.as_bytes();
    let at: Vec<usize> = (1..b.len()).filter(|&i| b[i - 1] == b'\\' && b[i].is_ascii_alphanumeric()).collect();
    if at.is_empty() {
        return Ok(());
    }
    let at = *r.pick(&at);
    // There are no such escapes
    let t = format!("{}{}{}", &s[..at], r.pick(&["q", "d", "k", "1", "X", "z"]), &s[at + 1..]);
    cx.input(&t);
    if run(&t, false)?.err.is_none() {
        return Ok(());
    }
    cx.feat("escape broken");
    let l = run(&t, true)?;
    cx.eval();
    cx.eval();
    if l.err.is_some() || l.ev.len() != e.ev.len() {
        return Err(format!("an error in a deferred scalar ends the stream after {} events of {} ({:?})", l.ev.len(), e.ev.len(), l.err));
    }
    let bad: Vec<usize> = (0..l.ev.len()).filter(|&i| l.ev[i] != e.ev[i]).collect();
    match bad[..] {
        [i] if matches!((&l.ev[i], &e.ev[i]), (Ev::BadScalar { .. }, Ev::Scalar { style: Style::Double, .. })) => Ok(()),
        [] => Err("a deferred scalar with a broken escape evaluates".into()),
        _ => Err(format!("a broken escape in one deferred scalar changes events {bad:?}")),
    }
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let (s, kind) = work::any(r);
    cx.feat(&format!("kind {kind}"));
    let s = if r.pct(8) {
        cx.feat("padded to a chunk boundary");
        let at = r.below(s.len().min(8192) + 1);
        work::pad(*r.pick(work::PADS), 8192 - at) + &s
    } else {
        s
    };
    cx.input(&s);
    let io = r.pct(25);
    let run = |s: &str, lazy| {
        if io {
            ev::run_read(Script::new(s.as_bytes()), lazy, s.len())
        } else {
            ev::run_str(s, lazy)
        }
    };
    let e = run(&s, false)?;
    let l = run(&s, true)?;
    cx.eval();
    cx.eval();
    cx.feat(if io { "src io" } else { "src str" });
    if e.lazy != 0 {
        return Err(format!("{} scalars are deferred without being asked to", e.lazy));
    }
    cx.add("deferred scalars", l.lazy as u64);
    cx.add("events", l.ev.len() as u64);
    cx.feat(if e.err.is_some() { "both failed" } else { "both clean" });
    if l.ev.iter().any(|e| matches!(e, Ev::BadScalar { .. })) {
        cx.feat("deferred error");
    }
    if l.lazy > 0 {
        cx.distinct(hash_bytes(s.as_bytes()));
    }
    cx.sample(|| show(s.as_bytes()));
    compare(&e, &l)?;
    deferred(&l)?;
    if e.err.is_none() && r.pct(50) {
        bad_escape(cx, r, &s, &e, &run)?;
    }
    Ok(())
}
