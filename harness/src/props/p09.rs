//! Directives, tags, anchors and aliases: what is written is what is
//! reported, on the node it is written on, in the document it applies to.

use std::collections::{BTreeMap, BTreeSet};

use super::show;
use crate::ev::{self, Ev, Kind, Props, Script, Style};
use crate::gen;
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P09",
    rule: "Each case is a stream of documents with random %YAML and %TAG directives whose nodes (scalars of every style, collections, empty nodes, keys, entries, values) carry random tags (shorthand, verbatim, non specific, percent escaped over all of Unicode), anchors, and aliases, against the properties and per document directives they must be reported with; or a stream broken in one of these (undefined handle, handle of an earlier document, repeated directive, malformed escape, repeated property) which must be refused. Non-trivial: distinct text.",
    case,
    cases: (1_200_000, 12_000_000),
    cpu: 30,
    need: &[
        "document", "directive version", "directive tag", "override default", "tag shorthand", "tag verbatim", "tag escaped", "anchor", "alias", "property on empty node", "property on collection", "handle of an earlier document refused", "undefined handle refused", "repeated directive refused", "malformed escape refused", "repeated property refused", "all uri characters",
        "src io", "mode lazy", "long names", "many directives", "many documents", "shared prefix", "repeated after many directives",
    ],
    level: "exploration",
};

const URI: &str = "0123456789-ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz#;/?:@&=+$_.~*'()";

fn escape_char(r: &mut Rng, c: char, t: &mut String) {
    let mut b = [0; 4];
    for x in c.encode_utf8(&mut b).bytes() {
        let up = r.pct(50);
        t.push_str(&if up { format!("%{x:02X}") } else { format!("%{x:02x}") });
    }
}

fn any_char(r: &mut Rng) -> char {
    loop {
        let v = match r.below(5) {
            0 => r.below(0x80),
            1 => r.below(0x800),
            2 => r.below(0x1_0000),
            3 => *r.pick(&[0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]),
            _ => r.below(0x11_0000),
        };
        if let Some(c) = char::from_u32(v as u32) {
            return c;
        }
    }
}

/// URI text and what it stands for
fn uri(r: &mut Rng, full: bool, max: usize) -> (String, String, bool) {
    let n = r.range(1, max);
    let (mut t, mut d, mut e) = (String::new(), String::new(), false);
    for _ in 0..n {
        match r.below(10) {
            0 => {
                let c = any_char(r);
                escape_char(r, c, &mut t);
                d.push(c);
                e = true;
            }
            1 if full => {
                let c = *r.pick(&[',', '[', ']', '!']);
                t.push(c);
                d.push(c);
            }
            _ => {
                let c = URI.as_bytes()[r.below(URI.len())] as char;
                t.push(c);
                d.push(c);
            }
        }
    }
    (t, d, e)
}

/// Mostly small, at times beyond what fits eight bits, rarely sixteen
fn large(r: &mut Rng, small: usize) -> usize {
    match r.below(60) {
        0 => r.range(65_520, 65_800),
        1..=5 => r.range(8_000, 8_400),
        6..=30 => r.range(240, 600),
        _ => small,
    }
}

/// A handle which differs from another by little
fn near(r: &mut Rng, h: &str) -> String {
    let w = h.trim_matches('!');
    match r.below(5) {
        0 => format!("!{w}0!"),
        1 => format!("!0{w}!"),
        2 if w.len() > 1 => format!("!{}!", &w[1..]),
        3 if w.len() > 1 => format!("!{}!", &w[..w.len() - 1]),
        _ => format!("!{}!", w.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>()).replace("!!!", "!!"),
    }
    .replace("!!", "!q!")
}

struct Doc {
    /// Names, tags and their number are long at times, and keys have none
    long: bool,
    text: String,
    ev: Vec<Ev>,
    handles: Vec<String>,
    anchors: Vec<String>,
}

fn name(r: &mut Rng) -> String {
    let n = r.range(1, 8);
    word(r, n)
}

fn word(r: &mut Rng, n: usize) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    (0..n).map(|_| A[r.below(A.len())] as char).collect()
}

impl Doc {
    fn tag(&mut self, cx: &mut Ctx, r: &mut Rng, scalar: bool) -> Option<(String, String)> {
        match r.below(8) {
            0 => {
                cx.feat("tag verbatim");
                let max = if self.long { large(r, 12) } else { 12 };
                let (t, d, e) = uri(r, true, max);
                if e {
                    cx.feat("tag escaped");
                }
                self.text.push_str(&format!("!<{t}>"));
                Some(("".into(), d))
            }
            1 => {
                cx.feat("tag non specific");
                self.text.push('!');
                if scalar {
                    None
                } else {
                    Some(("!".into(), "".into()))
                }
            }
            _ => {
                let h = r.pick(&self.handles).clone();
                let max = if self.long { large(r, 8) } else { 8 };
                let (mut t, mut d, e) = uri(r, false, max);
                if h == "!" {
                    // Would be taken for another handle, or a verbatim tag
                    t.insert(0, 'x');
                    d.insert(0, 'x');
                }
                cx.feat("tag shorthand");
                if e {
                    cx.feat("tag escaped");
                }
                self.text.push_str(&format!("{h}{t}"));
                Some((h, d))
            }
        }
    }

    fn props(&mut self, cx: &mut Ctx, r: &mut Rng, scalar: bool, force: bool) -> Props {
        let mut p = Props::NONE;
        let k = if force { r.range(1, 3) } else { r.below(5) };
        let order = r.pct(50);
        for i in 0..2 {
            if (i == 0) == order {
                if k & 1 == 1 {
                    p.tag = self.tag(cx, r, scalar);
                    self.text.push(' ');
                }
            } else if k & 2 == 2 {
                cx.feat("anchor");
                let n = r.range(1, 8);
                let n = if self.long { large(r, n) } else { n };
                let a = if !self.anchors.is_empty() && r.pct(15) { r.pick(&self.anchors).clone() } else { word(r, n) };
                self.text.push_str(&format!("&{a} "));
                self.anchors.push(a.clone());
                p.anchor = Some(a);
            }
        }
        p
    }

    /// A node on the current line
    fn node(&mut self, cx: &mut Ctx, r: &mut Rng, kind: Kind, flow: bool, depth: usize) {
        if self.long && kind == Kind::Key {
            self.text.push_str("key");
            self.ev.push(Ev::Scalar { props: Props::NONE, kind, data: "key".into(), style: Style::Plain });
            return;
        }
        if !self.anchors.is_empty() && r.pct(15) {
            cx.feat("alias");
            let a = r.pick(&self.anchors).clone();
            self.text.push_str(&format!("*{a} "));
            self.ev.push(Ev::Alias(a));
            return;
        }
        let what = r.below(if depth > 0 { 9 } else { 6 });
        let scalar = what < 6;
        let force = what == 5;
        let p = self.props(cx, r, scalar, force);
        if p != Props::NONE {
            if !scalar {
                cx.feat("property on collection");
            } else if what == 5 {
                cx.feat("property on empty node");
            }
        }
        match what {
            0 => {
                self.text.push_str("'q'");
                self.ev.push(Ev::Scalar { props: p, kind, data: "q".into(), style: Style::Single });
            }
            1 => {
                self.text.push_str("\"d\"");
                self.ev.push(Ev::Scalar { props: p, kind, data: "d".into(), style: Style::Double });
            }
            5 => {
                self.ev.push(Ev::Scalar { props: p, kind, data: "".into(), style: Style::Plain });
            }
            2..=4 => {
                self.text.push_str("plain");
                self.ev.push(Ev::Scalar { props: p, kind, data: "plain".into(), style: Style::Plain });
            }
            6 | 7 => {
                self.text.push('[');
                self.ev.push(Ev::SeqStart { props: p, kind });
                for i in 0..r.below(3) {
                    if i > 0 {
                        self.text.push_str(" , ");
                    }
                    self.node(cx, r, Kind::Entry, true, depth - 1);
                }
                self.text.push_str(" ]");
                self.ev.push(Ev::SeqEnd);
            }
            _ => {
                self.text.push('{');
                self.ev.push(Ev::MapStart { props: p, kind });
                for i in 0..r.below(3) {
                    if i > 0 {
                        self.text.push_str(" , ");
                    }
                    self.node(cx, r, Kind::Key, true, 0);
                    self.text.push_str(" : ");
                    self.node(cx, r, Kind::Value, true, depth - 1);
                }
                self.text.push_str(" }");
                self.ev.push(Ev::MapEnd);
            }
        }
        let _ = flow;
    }

    fn content(&mut self, cx: &mut Ctx, r: &mut Rng, explicit: bool) {
        match r.below(5) {
            0 => {
                // A bare document may not be empty, nor start with '%'
                self.node(cx, r, Kind::Root, false, 3);
                self.text.push('\n');
            }
            1 => {
                let p = self.props(cx, r, true, false);
                self.text.push_str("|\n  lit\n");
                self.ev.push(Ev::Scalar { props: p, kind: Kind::Root, data: "lit\n".into(), style: Style::Literal });
            }
            k => {
                let map = k == 2;
                let before = self.text.len();
                let p = self.props(cx, r, false, false);
                if self.text.len() > before || explicit {
                    self.text.push('\n');
                }
                if p != Props::NONE {
                    cx.feat("property on collection");
                }
                self.ev.push(if map { Ev::MapStart { props: p, kind: Kind::Root } } else { Ev::SeqStart { props: p, kind: Kind::Root } });
                for _ in 0..r.range(1, 4) {
                    if map {
                        self.node(cx, r, Kind::Key, false, 0);
                        self.text.push_str(" : ");
                        self.value(cx, r, Kind::Value);
                    } else {
                        self.text.push_str("- ");
                        self.value(cx, r, Kind::Entry);
                    }
                }
                self.ev.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
            }
        }
    }

    fn value(&mut self, cx: &mut Ctx, r: &mut Rng, kind: Kind) {
        match r.below(5) {
            0 => {
                // A block collection under properties
                let p = self.props(cx, r, false, true);
                cx.feat("property on collection");
                let (map, n) = (r.pct(50), r.range(1, 2));
                self.ev.push(if map { Ev::MapStart { props: p, kind } } else { Ev::SeqStart { props: p, kind } });
                self.text.push('\n');
                for _ in 0..n {
                    self.text.push_str("  ");
                    if map {
                        self.node(cx, r, Kind::Key, false, 0);
                        self.text.push_str(" : ");
                        self.node(cx, r, Kind::Value, false, 2);
                    } else {
                        self.text.push_str("- ");
                        self.node(cx, r, Kind::Entry, false, 2);
                    }
                    self.text.push('\n');
                }
                self.ev.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
            }
            1 => {
                let p = self.props(cx, r, true, false);
                self.text.push_str(">-\n    fol\n    ded\n");
                self.ev.push(Ev::Scalar { props: p, kind, data: "fol ded".into(), style: Style::Folded });
            }
            2 => {
                // Properties on a line of their own
                let p = self.props(cx, r, true, true);
                self.text.push_str("\n    next\n");
                self.ev.push(Ev::Scalar { props: p, kind, data: "next".into(), style: Style::Plain });
            }
            _ => {
                self.node(cx, r, kind, false, 3);
                self.text.push('\n');
            }
        }
    }
}

const BAD_ESCAPES: &[&str] = &[
    "%", "%4", "%g0", "%4g", "%zz", "%C3", "%C3%", "%C3x", "%C3%28", "%80", "%BF", "%C0%80", "%C1%81", "%E0%80%80", "%E0%9F%BF", "%ED%A0%80", "%ED%BF%BF", "%F0%80%80%80", "%F4%90%80%80", "%F5%80%80%80", "%FF", "%FE", "%E4%B8", "%E4%B8x", "%F0%9F%98", "%F0%9F%98x", "%C3%C3", "%E4%C3%A9", "%F8%88%80%80%80", "%é", "% ",
];

fn both(cx: &mut Ctx, s: &str) -> Verdict {
    cx.input(s);
    for lazy in [false, true] {
        cx.eval();
        let t = ev::run_str(s, lazy)?;
        if t.ok() {
            return Err(format!("accepted (lazy: {lazy})"));
        }
    }
    Ok(())
}

fn broken(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let h = format!("!{}!", name(r));
    let pre = *r.pick(&["", "- ", "a: ", "[", "{a: ", "- - ", "? ", "&x "]);
    let post = match pre {
        "[" => "]",
        "{a: " => "}",
        _ => "\n",
    };
    let node = *r.pick(&["v", "'v'", "\"v\"", "[v]", "{v: w}"]);
    match r.below(6) {
        0 => {
            both(cx, &format!("{pre}{h}{} {node}{post}", name(r)))?;
            // Defined, but for another handle
            both(cx, &format!("%TAG !x{} p\n--- \n{pre}{h}{} {node}{post}", &h[1..], name(r)))?;
            cx.feat("undefined handle refused");
        }
        1 => {
            let mid = *r.pick(&["", "--- x\n", "...\n%YAML 1.2\n", "...\n"]);
            both(cx, &format!("%TAG {h} p\n--- \n{pre}{h}{} {node}{post}\n{mid}--- \n{pre}{h}{} {node}{post}", name(r), name(r)))?;
            cx.feat("handle of an earlier document refused");
        }
        2 => {
            let d = *r.pick(&["%YAML 1.2", "%TAG !a! x", "%TAG ! x", "%TAG !! x", "%TAG !! tag:yaml.org,2002:", "%TAG ! !", "%YAML 1.1"]);
            // The same over again, or another
            let e = if r.pct(40) { d.to_string() } else if d.starts_with("%YAML") { "%YAML 1.3".to_string() } else { d.replace(" x", " y") };
            let mut mid = r.pick(&["", "%TAG !other! z\n", "# c\n", "%TAG !o1! z\n%TAG !o2! z\n", "%TAG !A! x\n%TAG !aa! x\n"]).to_string();
            if r.below(100) == 0 {
                cx.feat("repeated after many directives");
                mid = (0..r.range(250, 300)).map(|i| format!("%TAG !n{i}! z\n")).collect();
            }
            let lead = *r.pick(&["", "--- a\n...\n", "# c\n"]);
            both(cx, &format!("{lead}{d}\n{mid}{e}\n---\na\n"))?;
            cx.feat("repeated directive refused");
        }
        3 => {
            let b = *r.pick(BAD_ESCAPES);
            let x = *r.pick(&["", "a", "%41", "%C3%A9"]);
            let s = match r.below(3) {
                0 => format!("{pre}!{x}{b} {node}{post}"),
                1 => format!("{pre}!<{x}{b}> {node}{post}"),
                _ => format!("%TAG {h} {x}{b}\n---\n{pre}{h}a {node}{post}"),
            };
            both(cx, &s)?;
            cx.feat("malformed escape refused");
        }
        4 => {
            let (a, b) = (name(r), name(r));
            let s = match r.below(4) {
                0 => format!("{pre}&{a} &{b} {node}{post}"),
                1 => format!("{pre}!{a} !{b} {node}{post}"),
                2 => format!("{pre}&{a} !{b} &{b} {node}{post}"),
                _ => format!("{pre}!!{a} &{b} !{b} {node}{post}"),
            };
            if pre == "&x " {
                return Ok(());
            }
            both(cx, &s)?;
            // Aliases have no properties
            if !pre.starts_with('?') {
                both(cx, &format!("{pre}&{a} *{b} {post}"))?;
                both(cx, &format!("{pre}!{a} *{b} {post}"))?;
            }
            cx.feat("repeated property refused");
        }
        _ => {
            // Directives without a document
            let d = *r.pick(&["%YAML 1.2\n", "%TAG !a! x\n", "%TAG ! x\n%YAML 1.1\n"]);
            let e = *r.pick(&["", "a\n", "...\n", "# c\n", "- a\n", "a: b\n"]);
            both(cx, &format!("{d}{e}"))?;
            cx.feat("directives without a document refused");
        }
    }
    Ok(())
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    if cx.idx % 5 == 4 {
        return broken(cx, r);
    }
    if cx.idx % 500 == 0 {
        // Every character there is
        cx.feat("all uri characters");
        let s = format!("%TAG !e! {URI},[]!\n---\n- !e!{URI} a\n- !<{URI},[]!> b\n- !{URI} c\n");
        cx.input(&s);
        cx.eval();
        let t = ev::run_str(&s, r.pct(50))?;
        let tags: Vec<_> = t.ev.iter().filter_map(|e| match e {
            Ev::Scalar { props, .. } => props.tag.clone(),
            _ => None,
        }).collect();
        let want = vec![("!e!".to_string(), URI.to_string()), ("".to_string(), format!("{URI},[]!")), ("!".to_string(), URI.to_string())];
        let pre = match t.ev.get(1) {
            Some(Ev::DocStart { tags, .. }) => tags.get("!e!").cloned(),
            _ => None,
        };
        if tags != want || pre != Some(format!("{URI},[]!")) {
            return Err(format!("tags {tags:?}, prefix {pre:?} ({:?})", t.err));
        }
        return Ok(());
    }

    let d = make(cx, r);
    cx.distinct(hash_bytes(d.text.as_bytes()));
    cx.sample(|| show(d.text.as_bytes()));
    for lazy in [false, true] {
        cx.input(&d.text);
        cx.eval();
        let t = if r.pct(25) {
            cx.feat("src io");
            let s = if r.pct(60) { work::pad("comments", 8192 - r.below(d.text.len().min(8192) + 1)) + &d.text } else { d.text.clone() };
            cx.input(&s);
            ev::run_read(Script::new(s.as_bytes()).sizes(work::sizes(r)), lazy, s.len())?
        } else {
            ev::run_str(&d.text, lazy)?
        };
        if lazy {
            cx.feat("mode lazy");
        }
        super::p06::expect(&d.ev, &t)?;
    }
    Ok(())
}

/// A text, without what it means
pub fn text(r: &mut Rng) -> String {
    make(&mut Ctx::new(false), r).text
}

fn make(cx: &mut Ctx, r: &mut Rng) -> Doc {
    let long = r.below(300) == 0;
    let mut d = Doc { long, text: String::new(), ev: vec![Ev::StreamStart], handles: vec![], anchors: vec![] };
    let n = if long && r.pct(30) { r.range(250, 300) } else { r.range(1, 4) };
    let long = long && n < 5;
    d.long = long;
    if long {
        cx.feat("long names");
    }
    if n > 5 {
        cx.feat("many documents");
    }
    let mut open = false;
    for i in 0..n {
        cx.feat("document");
        let mut tags: BTreeMap<String, String> = gen::default_tags();
        let mut version = (1, 2);
        let directives = r.pct(60);
        let bare = !directives && !open && r.pct(50);
        // Only '...' lets directives, or a bare document, follow
        if open && directives {
            if let Some(Ev::DocEnd { explicit }) = d.ev.last_mut() {
                *explicit = true;
            }
            d.text.push_str("...\n");
        }
        if directives {
            let mut declared: BTreeSet<String> = BTreeSet::new();
            let yaml = r.pct(40);
            let at = r.below(3);
            let many = if long && r.pct(50) { r.range(250, 300) } else { 3 };
            if many > 3 {
                cx.feat("many directives");
            }
            for k in 0..many {
                if yaml && k == at {
                    cx.feat("directive version");
                    version = match r.below(4) {
                        0 => (r.below(256) as u8, r.below(256) as u8),
                        1 => (r.below(4) as u8, r.below(4) as u8),
                        _ => *r.pick(&[(1, 2), (1, 1), (1, 0), (1, 3), (1, 11)]),
                    };
                    d.text.push_str(&format!("%YAML {}.{}", version.0, version.1));
                    d.text.push_str(*r.pick(&["\n", " \n", " # c\n"]));
                }
                if r.pct(50) {
                    let h = match r.below(6) {
                        0 => "!".to_string(),
                        1 => "!!".to_string(),
                        _ => {
                            let n = r.range(1, 8);
                            let n = if long && many == 3 { large(r, n) } else { n };
                            // Close to one there is, at times
                            match declared.iter().next() {
                                Some(h) if r.pct(20) => near(r, h),
                                _ => format!("!{}!", word(r, n)),
                            }
                        }
                    };
                    let (t, p, e) = if !tags.is_empty() && r.pct(10) {
                        // A prefix there is
                        cx.feat("shared prefix");
                        ("tag:yaml.org,2002:".into(), "tag:yaml.org,2002:".into(), false)
                    } else {
                        let max = if long && many == 3 { large(r, 15) } else { 15 };
                        uri(r, true, max)
                    };
                    // A repeated handle is an error
                    if !declared.insert(h.clone()) {
                        continue;
                    }
                    if gen::default_tags().contains_key(&h) {
                        cx.feat("override default");
                    }
                    if e {
                        cx.feat("prefix escaped");
                    }
                    cx.feat("directive tag");
                    d.text.push_str(&format!("%TAG {h}{}{t}", *r.pick(&[" ", "  ", "\t"])));
                    d.text.push_str(*r.pick(&["\n", " \n", " # c\n", "\n# c\n", "\n\n"]));
                    tags.insert(h, p);
                }
            }
        }
        d.handles = tags.keys().cloned().collect();
        d.anchors.clear();
        d.ev.push(Ev::DocStart { version, tags, explicit: !bare });
        if !bare {
            d.text.push_str("---");
            if r.pct(8) {
                d.text.push('\n');
            } else {
                d.text.push(' ');
                d.content(cx, r, true);
            }
        } else {
            d.content(cx, r, false);
        }
        let end = r.pct(30);
        if end {
            d.text.push_str("...\n");
        }
        d.ev.push(Ev::DocEnd { explicit: end });
        open = !end;
        let _ = i;
    }
    d.ev.push(Ev::StreamEnd);
    d
}
