//! What can be borrowed from a borrowed source is: at its own place, and
//! not copied.

use std::borrow::Cow;
use std::collections::HashMap;

use yary::event::types::EventData;
use yary::event::{from_reader_with, Events};
use yary::reader::{from_utf8, try_from_bytes};

use super::show;
use crate::ev;
use crate::gen::{self, Cfg};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P12",
    rule: "Each case is a stream parsed from a &str or bytes, in which every scalar on one line which needs no processing (plain followed by something on its line, single and double quoted without escapes, block scalar of one line, whatever its header), every anchor, alias, tag handle, and tag suffix or prefix without escapes has a text of its own; each must be handed out borrowed, and lie exactly where it was written, whenever it is evaluated and in either mode; in any stream at all what is borrowed must lie within the source, or be one of the constants of the library, and outlive the iterator, event stream, and reader's other uses. Non-trivial: distinct text with at least 3 such pieces.",
    case,
    cases: (2_000_000, 20_000_000),
    cpu: 30,
    need: &["plain", "single", "double", "literal", "literal, explicit", "folded", "folded, explicit", "anchor", "alias", "tag handle", "tag suffix", "tag prefix", "in any stream", "mode lazy", "src bytes", "late evaluation", "over 250 bytes"],
    level: "exploration",
};

struct B {
    s: String,
    /// text => (offset, what)
    at: HashMap<String, (usize, &'static str)>,
    n: usize,
    long: bool,
    /// in a key, of which the length is limited
    key: bool,
}

impl B {
    fn mark(&mut self, t: &str, what: &'static str) {
        self.at.insert(t.to_string(), (self.s.len(), what));
        self.s.push_str(t);
    }
    fn name(&mut self, r: &mut Rng) -> String {
        self.n += 1;
        let most = match r.below(4_000) {
            _ if self.key => 6,
            0 => 65_800,
            1..=100 => 600,
            101..=500 => 60,
            _ => 6,
        };
        let tail: String = (0..r.below(most)).map(|_| *r.pick(&['x', 'Y', '7'])).collect();
        self.long |= tail.len() > 250;
        format!("n{}z{tail}", self.n)
    }
    fn words(&mut self, r: &mut Rng) -> String {
        let mut w = self.name(r);
        for _ in 0..r.below(4) {
            w.push_str(*r.pick(&[" ", " ", "  "]));
            w.push_str(*r.pick(&["word", "é", "中文", "a-b", "it", "50%", "😀", "c:d", "e#f", "x"]));
        }
        w
    }

    fn scalar(&mut self, r: &mut Rng, line: bool) {
        let w = self.words(r);
        match r.below(if line { 7 } else { 6 }) {
            0 | 1 => {
                self.s.push('\'');
                let w = w + *r.pick(&["", " ", " # no", ": ", "\\n", "\"", " , ]"]);
                self.mark(&w, "single");
                self.s.push('\'');
            }
            2 | 3 => {
                self.s.push('"');
                let w = w + *r.pick(&["", " ", " # no", ": ", "'", "''", " , }"]);
                self.mark(&w, "double");
                self.s.push('"');
            }
            6 => {
                // One line, whatever the header
                let folded = r.pct(30);
                let (chomp, strip) = *r.pick(&[("", false), ("", false), ("-", true), ("-", true), ("+", false)]);
                let n = r.range(1, 9);
                let explicit = r.pct(40);
                self.s.push(if folded { '>' } else { '|' });
                let digit = if explicit { n.to_string() } else { String::new() };
                if r.pct(50) {
                    self.s.push_str(&digit);
                    self.s.push_str(chomp);
                } else {
                    self.s.push_str(chomp);
                    self.s.push_str(&digit);
                }
                self.s.push_str(*r.pick(&["", "", "  ", " # no", " #no: |"]));
                self.s.push('\n');
                for _ in 0..n {
                    self.s.push(' ');
                }
                // Blanks at the start need the indentation stated, or are
                // taken for it
                let lead = if explicit { *r.pick(&["", "", " ", "\t", "  "]) } else { "" };
                let w = format!("{lead}{w}{}", *r.pick(&["", "", " ", " # a", ": b"]));
                let t = if strip { w } else { w + "\n" };
                self.mark(&t, match (folded, explicit) {
                    (false, false) => "literal",
                    (false, true) => "literal, explicit",
                    (true, false) => "folded",
                    (true, true) => "folded, explicit",
                });
                if strip {
                    self.s.push('\n');
                }
                if chomp != "+" && r.pct(20) {
                    self.s.push_str(*r.pick(&["\n", "\n\n", " \n"]));
                }
                return;
            }
            // One ending its line at once might continue on the next, and
            // is copied while finding out
            _ if line && r.pct(50) => self.s.push_str(&w),
            _ => {
                self.mark(&w, "plain");
                if line {
                    self.s.push_str(*r.pick(&[" #", "  # no"]));
                }
            }
        }
        if line {
            self.s.push('\n');
        }
    }

    fn props(&mut self, r: &mut Rng, handles: &[String]) {
        if r.pct(30) {
            self.s.push('&');
            let n = self.name(r);
            self.mark(&n, "anchor");
            self.s.push(' ');
        }
        if r.pct(30) {
            let n = self.name(r);
            match r.below(3) {
                0 => {
                    self.s.push_str("!<");
                    self.mark(&n, "tag suffix");
                    self.s.push_str("> ");
                }
                1 => {
                    self.s.push('!');
                    self.mark(&n, "tag suffix");
                    self.s.push(' ');
                }
                _ => {
                    let h = r.pick(handles).clone();
                    let h = if self.key && h.len() > 60 { "!".into() } else { h };
                    self.s.push_str(&h);
                    self.mark(&n, "tag suffix");
                    self.s.push(' ');
                }
            }
        }
    }

    fn alias(&mut self, r: &mut Rng) {
        self.s.push('*');
        let n = self.name(r);
        self.mark(&n, "alias");
    }

    fn flow(&mut self, r: &mut Rng, depth: usize, handles: &[String]) {
        if r.pct(10) {
            self.alias(r);
            self.s.push(' ');
            return;
        }
        self.props(r, handles);
        match r.below(if depth == 0 { 4 } else { 6 }) {
            4 => {
                self.s.push('[');
                for _ in 0..r.below(4) {
                    self.flow(r, depth - 1, handles);
                    self.s.push_str(*r.pick(&[", ", " , ", ",\n   "]));
                }
                self.s.push(']');
            }
            5 => {
                self.s.push('{');
                for _ in 0..r.below(4) {
                    let key = std::mem::replace(&mut self.key, true);
                    self.flow(r, 0, handles);
                    self.key = key;
                    self.s.push_str(" : ");
                    self.flow(r, depth - 1, handles);
                    self.s.push_str(*r.pick(&[", ", " , ", ",\n   "]));
                }
                self.s.push('}');
            }
            _ => self.scalar(r, false),
        }
    }

    fn doc(&mut self, r: &mut Rng) {
        let mut handles = vec!["!!".to_string(), "!".to_string()];
        for _ in 0..r.below(3) {
            let h = format!("!{}!", self.name(r));
            self.s.push_str("%TAG ");
            self.mark(&h, "tag handle");
            self.s.push(' ');
            let p = self.name(r) + ":,2000/[x]";
            self.mark(&p, "tag prefix");
            self.s.push('\n');
            handles.push(h);
        }
        self.s.push_str("---\n");
        let map = r.pct(50);
        for _ in 0..r.range(1, 8) {
            if map {
                self.key = true;
                if r.pct(10) {
                    self.alias(r);
                } else {
                    self.props(r, &handles);
                    self.scalar(r, false);
                }
                self.key = false;
                self.s.push_str(" : ");
            } else {
                self.s.push_str("- ");
            }
            if r.pct(60) {
                self.props(r, &handles);
                self.scalar(r, true);
            } else {
                self.flow(r, 2, &handles);
                self.s.push_str(" #\n");
            }
        }
        self.s.push_str("...\n");
    }
}

/// Offset of a borrowed text in its source. None: owned, or a constant
fn place<'a>(src: &str, c: &Cow<'a, str>) -> Result<Option<usize>, String> {
    let Cow::Borrowed(t) = c else { return Ok(None) };
    let (a, b) = (src.as_ptr() as usize, src.as_ptr() as usize + src.len());
    let (x, y) = (t.as_ptr() as usize, t.as_ptr() as usize + t.len());
    if x >= a && y <= b {
        if &src[x - a..y - a] != *t {
            return Err(format!("{t:?} is not what the source has at {}", x - a));
        }
        return Ok(Some(x - a));
    }
    if t.is_empty() || *t == "!" || *t == "!!" || *t == "tag:yaml.org,2002:" {
        return Ok(None);
    }
    Err(format!("{t:?} is borrowed, and not from the source"))
}

/// Every text of the stream
fn texts<'de, R: yary::reader::Read>(events: Events<'de, R>, late: bool) -> Result<(Vec<(Cow<'de, str>, &'static str)>, bool), String> {
    let mut v = vec![];
    let mut kept = vec![];
    let mut ok = true;
    for e in events {
        let Ok(e) = e else {
            ok = false;
            break;
        };
        kept.push(e);
        if kept.len() > 100_000 {
            return Err("unbounded event stream".into());
        }
        if !late {
            collect(kept.pop().unwrap(), &mut v, &mut ok);
        }
    }
    for e in kept {
        collect(e, &mut v, &mut ok);
    }
    Ok((v, ok))
}

fn collect<'de>(mut e: yary::event::types::Event<'de>, v: &mut Vec<(Cow<'de, str>, &'static str)>, ok: &mut bool) {
    // Move the pieces out, so as not to be borrowing from the event
    let take = |c: &mut Cow<'de, str>| std::mem::replace(c, Cow::Borrowed(""));
    macro_rules! node {
        ($n:expr) => {
            if let Some(a) = &mut $n.anchor {
                v.push((take(a), "anchor"));
            }
            if let Some((h, s)) = &mut $n.tag {
                v.push((take(h), "handle of a node"));
                v.push((take(s), "tag suffix"));
            }
        };
    }
    match e.data_mut() {
        EventData::DocumentStart(d) => {
            for (h, p) in d.directives.tags.drain() {
                v.push((h, "tag handle"));
                v.push((p, "tag prefix"));
            }
        }
        EventData::Alias(a) => v.push((take(&mut a.name), "alias")),
        EventData::SequenceStart(n) => {
            node!(n);
        }
        EventData::MappingStart(n) => {
            node!(n);
        }
        EventData::Scalar(n) => {
            node!(n);
            match n.content.evaluate_by_ref() {
                Ok(s) => v.push((take(s.data_mut()), "scalar")),
                Err(_) => *ok = false,
            }
        }
        _ => {}
    }
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let lazy = r.pct(50);
    let late = r.pct(50);
    let bytes = r.pct(30);
    if cx.idx % 3 == 2 {
        // Any stream at all
        let s = if r.pct(50) {
            let c = Cfg::random(r);
            gen::stream(r, c).text
        } else {
            work::any(r).0
        };
        cx.input(&s);
        cx.feat("in any stream");
        cx.eval();
        let reader = from_utf8(&s);
        let (v, _) = texts(from_reader_with(&reader, ev::flags(lazy)), late)?;
        for (t, what) in &v {
            place(&s, t).map_err(|m| format!("{what}: {m}"))?;
        }
        return Ok(());
    }

    let mut b = B { s: String::new(), at: HashMap::new(), n: 0, long: false, key: false };
    for _ in 0..r.range(1, 3) {
        b.doc(r);
    }
    let s = b.s;
    cx.input(&s);
    cx.sample(|| show(s.as_bytes()));
    if b.long {
        cx.feat("over 250 bytes");
    }
    if b.at.len() >= 3 {
        cx.distinct(hash_bytes(s.as_bytes()));
    }
    let reader = if bytes {
        cx.feat("src bytes");
        try_from_bytes(s.as_bytes()).map_err(|e| format!("{e}"))?
    } else {
        from_utf8(&s)
    };
    let (v, ok) = texts(from_reader_with(&reader, ev::flags(lazy)), late)?;
    cx.eval();
    if !ok {
        return Err("refused".into());
    }
    if lazy {
        cx.feat("mode lazy");
    }
    if late {
        cx.feat("late evaluation");
    }
    let mut found = 0;
    for (t, what) in &v {
        let p = place(&s, t).map_err(|m| format!("{what}: {m}"))?;
        if *what == "handle of a node" {
            if matches!(t, Cow::Owned(_)) {
                return Err(format!("{what} {t:?} is copied (lazy: {lazy})"));
            }
            continue;
        }
        if let Some((at, what)) = b.at.get(&**t) {
            found += 1;
            cx.feat(what);
            if p != Some(*at) {
                return Err(format!("{what} {t:?}, written at {at}, is {} (lazy: {lazy}, late: {late})", p.map_or("copied".into(), |p| format!("borrowed from {p}"))));
            }
        }
    }
    if found != b.at.len() {
        return Err(format!("{found} of {} pieces were seen", b.at.len()));
    }
    Ok(())
}
