//! The event grammar, online, over every kind of input.

use super::show;
use crate::ev::{self, Script};
use crate::grammar;
use crate::rng::Rng;
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P03",
    rule: "Each case is a text (generated, mutated, soup or hand picked) whose event stream, from a &str or an io::Read, eager or lazy, is fed to a pushdown monitor of the documented grammar, node kinds, document markers, directives and tag handles; streams ending in an error must be a viable prefix. Non-trivial: distinct event shape (kinds, properties, styles) of at least 4 events.",
    case,
    cases: (1_000_000, 10_000_000),
    cpu: 30,
    need: &["src str", "src io", "mode lazy", "mode eager", "ended in error", "ended clean", "several documents"],
    level: "exploration",
};

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let (s, kind) = work::any(r);
    cx.feat(&format!("kind {kind}"));
    let s = if r.pct(8) {
        cx.feat("padded to a chunk boundary");
        let at = r.below(s.len().min(8192) + 1);
        work::pad(*r.pick(work::PADS), 8192 - at) + &s
    } else {
        s
    };
    cx.input(&s);
    for lazy in [false, true] {
        let io = r.pct(40);
        let t = if io {
            let sizes = work::sizes(r);
            ev::run_read(Script::new(s.as_bytes()).sizes(sizes), lazy, s.len())?
        } else {
            ev::run_str(&s, lazy)?
        };
        cx.eval();
        cx.feat(if io { "src io" } else { "src str" });
        cx.feat(if lazy { "mode lazy" } else { "mode eager" });
        cx.feat(if t.err.is_some() { "ended in error" } else { "ended clean" });
        cx.add("events", t.ev.len() as u64);
        let g = grammar::check(&t.ev, t.err.is_some()).map_err(|m| format!("{m} (lazy: {lazy}, io: {io})"))?;
        if g.docs > 1 {
            cx.feat("several documents");
        }
        cx.max("max depth", g.max_depth as u64);
        cx.max("max documents", g.docs);
        if t.ev.len() >= 4 {
            cx.distinct(ev::shape(&t.ev));
        }
    }
    cx.sample(|| show(s.as_bytes()));
    Ok(())
}
