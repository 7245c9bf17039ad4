//! What is delivered is a value: copied, compared, printed and written to,
//! it changes nothing else, and reads as it says.

use std::borrow::Cow;
use std::fmt::{self, Write};

use yary::event::types::{Alias, Directives, DocumentStart, Event, EventData, Node, NodeKind, ScalarLike, VersionDirective, DEFAULT_TAGS, DEFAULT_VERSION, EMPTY_SCALAR};
use yary::event::{from_reader_with, Events};
use yary::reader::{self, from_read, from_utf8, try_from_bytes};

use super::show;
use crate::ev::{self, Ev, Kind, Props, Script, Style, Trace};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P18",
    rule: "Each case is a text read event by event, eagerly or lazily, from a &str, bytes or an io::Read; between the events readers, streams, iterators, events, scalars and errors are printed (in both Debug forms, and Display) into sinks which take all, or give up after some bytes; events are cloned and the copies or the originals written to (scalar text, anchor, tag, name, kind, directives, content). At the end the marks and contents of all events not written to, the copies of those which were, and a second reading, must be those of a plain reading; those written to must read as written; all pairs (up to a few hundred) of events of both readings, and copies, must be equal if and only if their contents are and neither is deferred. Non-trivial: distinct text.",
    case,
    cases: (250_000, 4_000_000),
    cpu: 30,
    need: &["printed stream", "printed iterator", "printed reader", "printed event", "printed error", "printed deferred scalar", "sink gave up", "written scalar", "written deferred scalar", "written anchor", "written tag", "written name", "written directives", "written kind", "written content", "equal pair", "unequal pair", "pair which differs in style", "pair which differs in kind", "pair which differs in anchor", "pair which differs in tag", "pair which differs in text", "deferred pair", "src str", "src bytes", "src io", "stream which fails"],
    level: "exploration",
};

/// A sink which gives up after so many bytes
struct Sink {
    left: usize,
    took: usize,
    gave_up: bool,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            self.gave_up = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.took += s.len();
        Ok(())
    }
}

/// Print it, in some form. A sink which takes everything must not fail
fn print(cx: &mut Ctx, r: &mut Rng, what: &'static str, x: &dyn fmt::Debug) -> Verdict {
    cx.feat(what);
    let mut sink = Sink { left: if r.pct(60) { r.below(3000) } else { usize::MAX }, took: 0, gave_up: false };
    let res = match r.below(3) {
        0 => write!(sink, "{x:#?}"),
        1 => write!(sink, "{x:40?}"),
        _ => write!(sink, "{x:?}"),
    };
    if sink.gave_up {
        cx.feat("sink gave up");
    } else if res.is_err() {
        return Err(format!("({what}) printing fails by itself"));
    } else if sink.took == 0 {
        return Err(format!("({what}) prints nothing"));
    }
    Ok(())
}

fn error(cx: &mut Ctx, r: &mut Rng, e: &yary::Error, len: usize) -> Verdict {
    print(cx, r, "printed error", e)?;
    if e.to_string().is_empty() {
        return Err("an error displays as nothing".into());
    }
    let mut sink = Sink { left: r.below(8), took: 0, gave_up: false };
    let _ = write!(sink, "{e}");
    // Where it says that it knows the place, that is one of the text
    if e.has_context() && (e.line() == 0 || e.at() > len as u64 || e.column() > len as u64 + 1 || e.line() > len as u64 + 2) {
        return Err(format!("the error {e} lies at line {}, column {}, index {}, of a text of {len} bytes", e.line(), e.column(), e.at()));
    }
    Ok(())
}

/// Write to the event, and to what it was
fn write(cx: &mut Ctx, r: &mut Rng, e: &mut Event<'_>, want: &mut Ev) -> Verdict {
    fn node<T>(cx: &mut Ctx, r: &mut Rng, n: &mut Node<'_, T>, props: &mut Props, kind: &mut Kind) {
        match r.below(4) {
            0 => {
                cx.feat("written anchor");
                match (&mut n.anchor, &mut props.anchor) {
                    (Some(a), Some(b)) => {
                        a.to_mut().push_str("ʷ");
                        b.push_str("ʷ");
                    }
                    (a, b) => {
                        *a = Some(Cow::Borrowed("written"));
                        *b = Some("written".into());
                    }
                }
            }
            1 => {
                cx.feat("written tag");
                match (&mut n.tag, &mut props.tag) {
                    (Some(a), Some(b)) => {
                        a.0.to_mut().push('h');
                        a.1.to_mut().clear();
                        b.0.push('h');
                        b.1.clear();
                    }
                    (a, b) => {
                        *a = Some(("!w!".into(), "x".to_string().into()));
                        *b = Some(("!w!".into(), "x".into()));
                    }
                }
            }
            2 => {
                cx.feat("written kind");
                (n.kind, *kind) = *r.pick(&[(NodeKind::Root, Kind::Root), (NodeKind::Entry, Kind::Entry), (NodeKind::Key, Kind::Key), (NodeKind::Value, Kind::Value)]);
            }
            _ => {
                n.anchor = None;
                n.tag = None;
                *props = Props::NONE;
            }
        }
    }
    match (e.data_mut(), &mut *want) {
        (EventData::Scalar(n), w @ (Ev::Scalar { .. } | Ev::BadScalar { .. })) => {
            if r.pct(30) {
                let (Ev::Scalar { props, kind, .. } | Ev::BadScalar { props, kind, .. }) = w else { unreachable!() };
                node(cx, r, n, props, kind);
                return Ok(());
            }
            if r.pct(20) {
                cx.feat("written content");
                let (Ev::Scalar { props, kind, .. } | Ev::BadScalar { props, kind, .. }) = w else { unreachable!() };
                n.content = if r.pct(50) { ScalarLike::default() } else { EMPTY_SCALAR };
                *w = Ev::Scalar { props: props.clone(), kind: *kind, data: String::new(), style: Style::Plain };
                return Ok(());
            }
            cx.feat(if n.content.is_unevaluated() { "written deferred scalar" } else { "written scalar" });
            match (n.content.evaluate_by_ref(), &mut *w) {
                (Ok(s), Ev::Scalar { data, .. }) => {
                    let t = s.data_mut();
                    match r.below(4) {
                        0 => {
                            t.to_mut().push_str("é");
                            data.push('é');
                        }
                        1 => {
                            t.to_mut().clear();
                            data.clear();
                        }
                        2 => {
                            t.to_mut().make_ascii_uppercase();
                            data.make_ascii_uppercase();
                        }
                        _ => {
                            *t = Cow::Borrowed("written");
                            *data = "written".into();
                        }
                    }
                    // However it is read
                    let deref: &str = s;
                    if s.data() != data || deref != data || s.as_ref() != data || s.data_mut() != data {
                        return Err(format!("a scalar into which {data:?} was written is {s:?}"));
                    }
                }
                // A failed evaluation leaves an empty scalar
                (Err(_), Ev::BadScalar { props, kind, .. }) => *w = Ev::Scalar { props: props.clone(), kind: *kind, data: String::new(), style: Style::Plain },
                (s, w) => return Err(format!("evaluated in place: {s:?}, not {w:?}")),
            }
        }
        (EventData::MappingStart(n), Ev::MapStart { props, kind }) => node(cx, r, n, props, kind),
        (EventData::SequenceStart(n), Ev::SeqStart { props, kind }) => node(cx, r, n, props, kind),
        (EventData::Alias(Alias { name }), Ev::Alias(s)) => {
            cx.feat("written name");
            name.to_mut().insert(0, 'x');
            s.insert(0, 'x');
        }
        (EventData::DocumentStart(DocumentStart { directives, implicit }), Ev::DocStart { version, tags, explicit }) => {
            cx.feat("written directives");
            match r.below(4) {
                0 => {
                    directives.tags.insert("!".into(), "written".into());
                    tags.insert("!".into(), "written".into());
                }
                1 => {
                    directives.version = VersionDirective { major: 7, minor: 8 };
                    *version = (7, 8);
                }
                2 => {
                    *implicit = !*implicit;
                    *explicit = !*explicit;
                }
                _ => {
                    for t in directives.tags.values_mut() {
                        t.to_mut().push('w');
                    }
                    for t in tags.values_mut() {
                        t.push('w');
                    }
                }
            }
        }
        (EventData::DocumentEnd(d), Ev::DocEnd { explicit }) => {
            d.implicit = !d.implicit;
            *explicit = !*explicit;
        }
        _ => {}
    }
    Ok(())
}

fn deferred(e: &EventData<'_>) -> bool {
    matches!(e, EventData::Scalar(n) if n.content.is_unevaluated())
}

/// In what the contents of two events differ
fn differ(a: &Ev, b: &Ev) -> Option<&'static str> {
    match (a, b) {
        (Ev::Scalar { props: p, kind: k, data: d, style: s }, Ev::Scalar { props: q, kind: l, data: e, style: t }) => {
            let v = [(d != e, "pair which differs in text"), (s != t, "pair which differs in style"), (k != l, "pair which differs in kind"), (p.anchor != q.anchor, "pair which differs in anchor"), (p.tag != q.tag, "pair which differs in tag")];
            let mut v = v.iter().filter(|v| v.0);
            match (v.next(), v.next()) {
                (Some(x), None) => Some(x.1),
                _ => None,
            }
        }
        _ => None,
    }
}

/// Two events compare as their contents do
fn compare(cx: &mut Ctx, a: &Event<'_>, b: &Event<'_>) -> Verdict {
    let (x, y) = (ev::convert(a.data()).0, ev::convert(b.data()).0);
    let late = deferred(a.data()) || deferred(b.data());
    let want = x == y && !late;
    let got = a.data() == b.data();
    if got != want || (b.data() == a.data()) != want || (a.data() != b.data()) == want {
        return Err(format!("{:?} and {:?} are {}equal, with {x:?} and {y:?} in them", a.data(), b.data(), if got { "" } else { "un" }));
    }
    let marks = (a.start(), a.end()) == (b.start(), b.end());
    if (a == b) != (want && marks) {
        return Err(format!("the events {a:?} and {b:?} are {}equal", if a == b { "" } else { "un" }));
    }
    cx.feat(if late {
        "deferred pair"
    } else if want {
        "equal pair"
    } else {
        differ(&x, &y).unwrap_or("unequal pair")
    });
    Ok(())
}

/// Read with interruptions, and compare with a plain reading
fn watch<'de, R: reader::Read>(cx: &mut Ctx, r: &mut Rng, src: &'de R, lazy: bool, want: &Trace, len: usize) -> Result<Vec<Event<'de>>, String> {
    let mut stream = Some(from_reader_with(src, ev::flags(lazy)));
    let mut iter = None;
    let mut held: Vec<Event<'de>> = vec![];
    let mut copies: Vec<(usize, Event<'de>)> = vec![];
    let mut now: Vec<Ev> = vec![];
    // Prints cost, so there are few in long streams
    let odds = (300 / (want.ev.len() + 1)).clamp(1, 25);
    if r.pct(odds) {
        print(cx, r, "printed reader", src)?;
    }
    let mut error_seen = false;
    loop {
        // By reference, by value, and back
        if r.pct(10) {
            match (stream.take(), iter.take()) {
                (Some(s), _) => iter = Some(Events::into_iter(s)),
                (_, Some(i)) => stream = Some(yary::event::EventIter::into_inner(i)),
                _ => unreachable!(),
            }
        }
        if r.pct(odds) {
            match (&mut stream, &iter) {
                (Some(s), _) if r.pct(50) => print(cx, r, "printed iterator", &s.iter())?,
                (Some(s), _) => print(cx, r, "printed stream", s)?,
                (_, Some(i)) => print(cx, r, "printed iterator", i)?,
                _ => unreachable!(),
            }
        }
        if r.pct(odds / 4) {
            print(cx, r, "printed reader", src)?;
        }
        let next = match (&mut stream, &mut iter) {
            (Some(s), _) => s.iter().next(),
            (_, Some(i)) => i.next(),
            _ => unreachable!(),
        };
        match next {
            None => break,
            Some(Err(e)) => {
                cx.feat("stream which fails");
                error(cx, r, &e, len)?;
                if want.err != Some(ev::fault(&e)) || held.len() != want.ev.len() {
                    return Err(format!("watched, the stream ends in {e} after {} events, otherwise in {:?} after {}", held.len(), want.err, want.ev.len()));
                }
                error_seen = true;
                break;
            }
            Some(Ok(mut e)) => {
                let i = held.len();
                if i >= want.ev.len() {
                    return Err(format!("watched, event #{i} is {:?}, otherwise there is none", e.data()));
                }
                if (e.start(), e.end()) != want.marks[i] {
                    return Err(format!("watched, event #{i} lies at {:?}, otherwise at {:?}", (e.start(), e.end()), want.marks[i]));
                }
                let mut is = want.ev[i].clone();
                if r.pct(odds) {
                    print(cx, r, "printed event", &e)?;
                    if let EventData::Scalar(n) = e.data() {
                        print(cx, r, if n.content.is_unevaluated() { "printed deferred scalar" } else { "printed scalar" }, &n.content)?;
                        if let Err(e) = n.content.clone().evaluate() {
                            error(cx, r, &e, len)?;
                        }
                    }
                }
                if r.pct(25) {
                    let c = e.clone();
                    if r.pct(50) {
                        // Written to at once, or later, or the copy is
                        write(cx, r, &mut e, &mut is)?;
                        copies.push((i, c));
                    } else {
                        copies.push((i, e.clone()));
                        let mut c = c;
                        write(cx, r, &mut c, &mut want.ev[i].clone())?;
                    }
                }
                now.push(is);
                held.push(e);
            }
        }
    }
    if !error_seen && (want.err.is_some() || held.len() != want.ev.len()) {
        return Err(format!("watched, the stream ends after {} events, otherwise after {} ({:?})", held.len(), want.ev.len(), want.err));
    }
    // Some more, now that all is read
    for _ in 0..3 {
        if !held.is_empty() {
            let i = r.below(held.len());
            if now[i] == want.ev[i] {
                copies.push((i, held[i].clone()));
                write(cx, r, &mut held[i], &mut now[i])?;
            }
        }
    }
    for (i, e) in held.iter().enumerate() {
        let got = ev::convert(e.data()).0;
        if got != now[i] {
            return Err(format!("event #{i} is {got:?}, it was {:?}, and {:?} is right", want.ev[i], now[i]));
        }
    }
    for (i, e) in &copies {
        let got = ev::convert(e.data()).0;
        if got != want.ev[*i] || (e.start(), e.end()) != want.marks[*i] {
            return Err(format!("the copy of event #{i} is {got:?}, it was {:?}", want.ev[*i]));
        }
    }
    held.extend(copies.into_iter().map(|c| c.1));
    Ok(held)
}

/// What is said of the constants and the defaults
fn constants() -> Verdict {
    let d = Directives::default();
    let tags = DEFAULT_TAGS;
    let all = d.tags.len() == tags.len() && tags.iter().all(|(h, p)| d.tags.get(h) == Some(p));
    if !all || d.version != DEFAULT_VERSION || (d.version.major, d.version.minor) != (1, 2) || d.tags.get("!").map(|p| &**p) != Some("!") || d.tags.get("!!").map(|p| &**p) != Some("tag:yaml.org,2002:") {
        return Err(format!("the default directives are {d:?}"));
    }
    let e = Directives::empty();
    if !e.tags.is_empty() || e.version != DEFAULT_VERSION || e == d {
        return Err(format!("the empty directives are {e:?}"));
    }
    if EMPTY_SCALAR != ScalarLike::empty() || ScalarLike::default() != EMPTY_SCALAR || EMPTY_SCALAR.is_unevaluated() || !EMPTY_SCALAR.evaluate().is_ok_and(|s| s.is_empty() && ev::style(s.style()) == Style::Plain) {
        return Err(format!("the empty scalar is {EMPTY_SCALAR:?}"));
    }
    Ok(())
}

/// Nodes of few words, which differ in one thing
fn alike(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(2, 9) {
        s.push_str("- ");
        s.push_str(*r.pick(&["", "", "", "&a ", "&b "]));
        s.push_str(*r.pick(&["", "", "", "!t ", "!!t ", "! "]));
        match r.below(9) {
            0 | 1 | 2 => s.push_str("x\n"),
            3 => s.push_str("'x'\n"),
            4 => s.push_str("\"x\"\n"),
            5 => s.push_str("|-\n x\n"),
            6 => s.push_str(">-\n x\n"),
            7 => s.push_str("{x: x, y: [x, x], x: [&a x]}\n"),
            _ => s.push_str("y\n"),
        }
    }
    s
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let s = match r.below(10) {
        0..=2 => alike(r),
        3 if r.pct(30) => {
            let s = work::any(r).0;
            work::pad(*r.pick(work::PADS), 8192 - r.below(s.len().min(8192) + 1)) + &s
        }
        _ => work::any(r).0,
    };
    let lazy = r.pct(40);
    cx.input(&s);
    cx.distinct(hash_bytes(s.as_bytes()));
    cx.sample(|| show(s.as_bytes()));
    if r.pct(1) {
        constants()?;
    }
    let want = ev::run_str(&s, lazy)?;
    let a = from_utf8(&s);
    let b = try_from_bytes(s.as_bytes()).map_err(|e| format!("UTF8 was refused: {e}"))?;
    let c = from_read(Script::new(s.as_bytes()).sizes(work::sizes(r)));
    let mut all = match r.below(3) {
        0 => {
            cx.feat("src str");
            watch(cx, r, &a, lazy, &want, s.len())?
        }
        1 => {
            cx.feat("src bytes");
            watch(cx, r, &b, lazy, &want, s.len())?
        }
        _ => {
            cx.feat("src io");
            watch(cx, r, &c, lazy, &want, s.len())?
        }
    };
    cx.eval();
    // Again, undisturbed by what was written
    let again = ev::drain(from_reader_with(&a, ev::flags(lazy)), s.len())?;
    if again != want {
        return Err(format!("read again: {} ({:?}, it was {:?})", ev::diff(&want.ev, &again.ev), again.err, want.err));
    }
    cx.eval();
    // Of a reading which need not be in the same mode
    let other = if r.pct(70) { lazy } else { !lazy };
    all.extend(from_reader_with(&a, ev::flags(other)).into_iter().filter_map(Result::ok));
    if all.is_empty() {
        return Ok(());
    }
    let n = all.len();
    let same = n.min(60);
    for _ in 0..same {
        let i = r.below(n);
        compare(cx, &all[i], &all[i].clone())?;
        let (i, j) = (r.below(n), r.below(n));
        compare(cx, &all[i], &all[j])?;
        // Near ones
        let j = (i + r.below(4)).min(n - 1);
        compare(cx, &all[i], &all[j])?;
    }
    Ok(())
}
