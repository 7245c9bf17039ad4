//! Structure: a well formed stream gives the events the specification
//! assigns to it, all of them, and no others, at any size.

use super::show;
use crate::ev::{self, Ev, Kind, Props, Script, Style, Trace};
use crate::gen::{self, Cfg};
use crate::rng::Rng;
use crate::run::{Ctx, Prop, Verdict};
use crate::{spec, work};

pub const PROP: Prop = Prop {
    id: "P06",
    rule: "Each case is a random stream written by a generator of the YAML 1.2 productions, which records the events the specification assigns to it, or one of the specification's examples with hand written events; it is parsed from &str eagerly and lazily, and from an io::Read, and all events (nesting, node kinds, styles, contents, properties, aliases, document markers, directives) must be the recorded ones. Non-trivial: distinct event shape of at least 6 events.",
    case,
    cases: (500_000, 8_000_000),
    cpu: 30,
    need: &["spec examples", "flow-single-pair", "flow-explicit-key", "explicit-key", "block-seq-entry", "zero-indent-seq", "compact", "alias", "empty-key", "implicit-key", "src io", "several documents", "long key", "very deep", "very wide", "very many documents", "over 65536"],
    level: "exploration",
};

fn run(cx: &mut Ctx, r: &mut Rng, s: &str, how: usize) -> Result<Trace, String> {
    cx.eval();
    match how {
        0 => ev::run_str(s, false),
        1 => ev::run_str(s, true),
        _ => {
            cx.feat("src io");
            let lazy = r.pct(50);
            ev::run_read(Script::new(s.as_bytes()).sizes(work::sizes(r)), lazy, s.len())
        }
    }
}

pub fn expect(want: &[Ev], t: &Trace) -> Verdict {
    if let Some(e) = &t.err {
        return Err(format!("a well formed stream is refused ({e:?}), after {} events; next was {:?}", t.ev.len(), want.get(t.ev.len())));
    }
    if want != &t.ev[..] {
        return Err(ev::diff(want, &t.ev));
    }
    Ok(())
}

fn example(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let ex = spec::examples();
    let e = &ex[(cx.idx / 20) as usize % ex.len()];
    // As written, with other line breaks, or moved onto a chunk boundary
    let mut s = match r.below(4) {
        0 => e.text.replace('\n', "\r\n"),
        1 => e.text.replace('\n', "\r"),
        _ => e.text.to_string(),
    };
    if r.pct(40) {
        let at = r.below(s.len() + 1);
        s = work::pad(*r.pick(&["long-comment", "comments", "blanks", "spaces", "wide-comment"]), 8192 - at) + &s;
    }
    cx.input(&s);
    for how in 0..3 {
        let t = run(cx, r, &s, how)?;
        cx.feat("spec examples");
        match &e.want {
            None => {
                if t.ok() {
                    return Err(format!("example {}: malformed, and accepted", e.name));
                }
            }
            Some(w) => {
                if let Some(f) = &t.err {
                    return Err(format!("example {}: refused ({f:?}) after {} events", e.name, t.ev.len()));
                }
                let got = spec::render(&t.ev);
                if *w != got {
                    let n = w.iter().zip(&got).take_while(|(a, b)| a == b).count();
                    return Err(format!("example {}, line {n}: expected {:?}, got {:?}", e.name, w.get(n), got.get(n)));
                }
                spec::kinds(&t.ev).map_err(|m| format!("example {}: {m}", e.name))?;
                cx.add("events", t.ev.len() as u64);
                cx.distinct(ev::shape(&t.ev));
            }
        }
    }
    Ok(())
}

/// Implicit keys of up to 1024 bytes
fn long_key(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let n = if r.pct(50) { r.range(1000, 1024) } else { r.range(1, 1024) };
    let mut key: String = "x".repeat(n);
    let mut i = r.range(1, 30);
    while i + 1 < n {
        key.replace_range(i..i + 1, " ");
        i += r.range(2, 80);
    }
    let (k, data) = match r.below(3) {
        1 if n >= 2 => (format!("'{}'", &key[..n - 2]), key[..n - 2].to_string()),
        2 if n >= 2 => (format!("\"{}\"", &key[..n - 2]), key[..n - 2].to_string()),
        _ => (key.clone(), key.clone()),
    };
    let s = match r.below(5) {
        0 => format!("{k}: v\n"),
        1 => format!("- a\n- {k}: v\n"),
        2 => format!("[{k}: v]\n"),
        3 => format!("{{{k}: v}}\n"),
        _ => format!("p:\n  {k}: v\n"),
    };
    cx.input(&s);
    cx.feat("long key");
    for how in 0..3 {
        let t = run(cx, r, &s, how)?;
        if let Some(e) = &t.err {
            return Err(format!("a key of {n} bytes is refused: {e:?}"));
        }
        let keys: Vec<_> = t.ev.iter().filter_map(|e| match e {
            Ev::Scalar { data, kind: ev::Kind::Key, .. } if data != "p" => Some(data.clone()),
            _ => None,
        }).collect();
        if keys != [data.clone()] {
            return Err(format!("key of {n} bytes: got keys {:?}", keys));
        }
    }
    Ok(())
}

fn none(kind: Kind, data: &str) -> Ev {
    Ev::Scalar { props: Props::NONE, kind, data: data.into(), style: Style::Plain }
}

fn bare() -> Vec<Ev> {
    vec![Ev::StreamStart, Ev::DocStart { version: (1, 2), tags: gen::default_tags(), explicit: false }]
}

fn all(cx: &mut Ctx, r: &mut Rng, text: &str, want: &[Ev]) -> Verdict {
    cx.input(text);
    for how in 0..3 {
        let t = run(cx, r, text, how)?;
        cx.add("events", t.ev.len() as u64);
        expect(want, &t)?;
    }
    cx.max("max events in a stream", want.len() as u64);
    Ok(())
}

/// Beyond what fits eight bits, at times sixteen
fn large(cx: &mut Ctx, r: &mut Rng) -> usize {
    match r.below(25) {
        0 => {
            cx.feat("over 65536");
            r.range(65_530, 66_000)
        }
        1..=4 => r.range(1_000, 2_000),
        _ => r.range(250, 300),
    }
}

/// Collections within collections, many levels
fn deep(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let n = large(cx, r);
    let blocks = if n > 300 { r.below(20) } else { *r.pick(&[0, 3, 255, 256, 257, n]) }.min(n);
    let mut s = String::new();
    let mut ev = bare();
    let mut ends: Vec<Vec<Ev>> = vec![];
    let (mut kind, mut col) = (Kind::Root, 0);
    let which = r.below(4);
    let mut parent = -1isize;
    for _ in 0..blocks {
        parent = col as isize;
        match if which == 3 { r.below(3) } else { which } {
            0 => {
                ev.push(Ev::SeqStart { props: Props::NONE, kind });
                s.push_str("- ");
                ends.push(vec![Ev::SeqEnd]);
                kind = Kind::Entry;
                col += 2;
            }
            1 => {
                ev.push(Ev::MapStart { props: Props::NONE, kind });
                s.push_str("? ");
                ends.push(vec![none(Kind::Value, ""), Ev::MapEnd]);
                kind = Kind::Key;
                col += 2;
            }
            _ => {
                ev.push(Ev::MapStart { props: Props::NONE, kind });
                ev.push(none(Kind::Key, "k"));
                s.push_str("k:\n");
                ends.push(vec![Ev::MapEnd]);
                kind = Kind::Value;
                col += 1;
                s.push_str(&" ".repeat(col));
            }
        }
    }
    let indent = " ".repeat((parent + 1) as usize + 1);
    let mut closes = vec![];
    let lines = if r.pct(30) { 5 } else { 0 };
    let which = if r.pct(50) { r.below(5) } else { 9 };
    for _ in blocks..n {
        if r.pct(lines) {
            s.push('\n');
            s.push_str(&indent);
        }
        match if which == 9 { r.below(5) } else { which } {
            0 => {
                ev.push(Ev::SeqStart { props: Props::NONE, kind });
                s.push('[');
                closes.push("]");
                ends.push(vec![Ev::SeqEnd]);
                kind = Kind::Entry;
            }
            1 => {
                ev.push(Ev::MapStart { props: Props::NONE, kind });
                ev.push(none(Kind::Key, "k"));
                s.push_str("{k: ");
                closes.push("}");
                ends.push(vec![Ev::MapEnd]);
                kind = Kind::Value;
            }
            2 => {
                ev.push(Ev::MapStart { props: Props::NONE, kind });
                s.push_str("{? ");
                closes.push("}");
                ends.push(vec![none(Kind::Value, ""), Ev::MapEnd]);
                kind = Kind::Key;
            }
            3 => {
                ev.push(Ev::SeqStart { props: Props::NONE, kind });
                ev.push(Ev::MapStart { props: Props::NONE, kind: Kind::Entry });
                ev.push(none(Kind::Key, "k"));
                s.push_str("[k: ");
                closes.push("]");
                ends.push(vec![Ev::MapEnd, Ev::SeqEnd]);
                kind = Kind::Value;
            }
            _ => {
                ev.push(Ev::SeqStart { props: Props::NONE, kind });
                ev.push(none(Kind::Entry, "a"));
                s.push_str("[a, ");
                closes.push("]");
                ends.push(vec![Ev::SeqEnd]);
                kind = Kind::Entry;
            }
        }
    }
    s.push('x');
    ev.push(none(kind, "x"));
    while let Some(c) = closes.pop() {
        if r.pct(lines) {
            s.push('\n');
            s.push_str(&indent);
        }
        let mut e = ends.pop().unwrap();
        match (r.below(30), c) {
            (0, _) => s.push(','),
            (1, "]") => {
                s.push_str(", z");
                e.insert(e.len() - 1, none(Kind::Entry, "z"));
            }
            (2, _) => s.push(' '),
            _ => {}
        }
        s.push_str(c);
        ev.append(&mut e);
    }
    while let Some(mut e) = ends.pop() {
        ev.append(&mut e);
    }
    s.push('\n');
    ev.push(Ev::DocEnd { explicit: false });
    ev.push(Ev::StreamEnd);
    cx.feat("very deep");
    all(cx, r, &s, &ev)
}

/// Collections of many entries
fn wide(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let n = large(cx, r);
    let mut s = String::new();
    let mut ev = bare();
    let (map, flow) = (r.pct(50), r.pct(50));
    ev.push(if map { Ev::MapStart { props: Props::NONE, kind: Kind::Root } } else { Ev::SeqStart { props: Props::NONE, kind: Kind::Root } });
    if flow {
        s.push(if map { '{' } else { '[' });
    }
    let which = r.below(5);
    for i in 0..n {
        let kind = if map { Kind::Value } else { Kind::Entry };
        if map {
            let k = format!("k{i}");
            s.push_str(&k);
            s.push(':');
            ev.push(none(Kind::Key, &k));
        } else if !flow {
            s.push('-');
        }
        match if which == 4 { r.below(4) } else { which } {
            0 if !flow || map => ev.push(none(kind, "")),
            1 => {
                s.push_str(" [q]");
                ev.extend([Ev::SeqStart { props: Props::NONE, kind }, none(Kind::Entry, "q"), Ev::SeqEnd]);
            }
            2 => {
                s.push_str(" &a v");
                ev.push(Ev::Scalar { props: Props { anchor: Some("a".into()), tag: None }, kind, data: "v".into(), style: Style::Plain });
            }
            _ => {
                s.push_str(" 'w'");
                ev.push(Ev::Scalar { props: Props::NONE, kind, data: "w".into(), style: Style::Single });
            }
        }
        if flow {
            s.push_str(if i % 10 == 9 { "\n ," } else { " ," });
        } else {
            s.push('\n');
        }
    }
    if flow {
        s.push(if map { '}' } else { ']' });
    }
    ev.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
    ev.push(Ev::DocEnd { explicit: false });
    ev.push(Ev::StreamEnd);
    cx.feat("very wide");
    all(cx, r, &s, &ev)
}

/// A stream many times over
fn many(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let mut c = Cfg::random(r);
    c.budget = c.budget.min(8);
    let mut d = gen::stream(r, c);
    if d.ev.len() < 5 {
        return Ok(());
    }
    let n = (large(cx, r) / d.ev.len()).max(280);
    if !d.text.ends_with(['\n', '\r']) {
        d.text.push('\n');
    }
    d.text.push_str("...\n");
    let last = d.ev.len() - 2;
    d.ev[last] = Ev::DocEnd { explicit: true };
    let mut ev = vec![Ev::StreamStart];
    for _ in 0..n {
        ev.extend_from_slice(&d.ev[1..=last]);
    }
    ev.push(Ev::StreamEnd);
    cx.feat("very many documents");
    all(cx, r, &d.text.repeat(n), &ev)
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    match cx.idx % 20 {
        19 => return example(cx, r),
        17 if r.pct(2) => {
            return match r.below(4) {
                0 | 1 => deep(cx, r),
                2 => wide(cx, r),
                _ => many(cx, r),
            };
        }
        18 => {
            if r.pct(20) {
                return long_key(cx, r);
            }
        }
        _ => {}
    }
    let c = Cfg::scaled(r);
    let d = gen::stream(r, c);
    cx.input(&d.text);
    cx.feats(&d.feats);
    let docs = d.ev.iter().filter(|e| matches!(e, Ev::DocStart { .. })).count();
    if docs > 1 {
        cx.feat("several documents");
    }
    for how in 0..3 {
        let t = run(cx, r, &d.text, how)?;
        cx.add("events", t.ev.len() as u64);
        expect(&d.ev, &t)?;
    }
    if d.ev.len() >= 6 {
        cx.distinct(ev::shape(&d.ev));
    }
    cx.max("max events in a stream", d.ev.len() as u64);
    cx.sample(|| show(d.text.as_bytes()));
    Ok(())
}
