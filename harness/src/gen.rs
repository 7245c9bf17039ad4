//! Random YAML streams together with the event sequence they mean.
//!
//! The generator walks the productions of YAML 1.2 from the inside: it
//! chooses a node, a presentation for it, writes the text and records
//! the events the specification assigns to it. It knows nothing of how
//! the library works, and so acts as the reference for it.

use std::collections::BTreeMap;

use crate::ev::{Ev, Kind, Props, Style};
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Brk {
    Lf,
    CrLf,
    Cr,
    Mixed,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub depth: usize,
    pub budget: usize,
    pub docs: usize,
    pub brk: Brk,
    pub comments: usize,
    pub anchors: usize,
    pub tags: usize,
    pub directives: usize,
    pub multiline: usize,
    pub unicode: usize,
    /// weights: plain, single, double, block scalar
    pub scalars: [usize; 4],
    /// percent of collections among nodes
    pub colls: usize,
    /// percent of flow amongst collections in block context
    pub flow: usize,
    pub tabs: bool,
    pub words: usize,
}

impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        Cfg {
            depth: r.range(1, 5),
            budget: r.range(1, 24),
            docs: if r.pct(30) { r.range(2, 4) } else { 1 },
            brk: *r.pick(&[Brk::Lf, Brk::Lf, Brk::Lf, Brk::CrLf, Brk::Cr, Brk::Mixed]),
            comments: *r.pick(&[0, 0, 10, 30]),
            anchors: *r.pick(&[0, 0, 15, 40]),
            tags: *r.pick(&[0, 0, 15, 40]),
            directives: *r.pick(&[0, 0, 30]),
            multiline: *r.pick(&[0, 20, 50]),
            unicode: *r.pick(&[0, 0, 20]),
            scalars: *r.pick(&[[10, 2, 2, 2], [1, 1, 1, 1], [1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [1, 1, 1, 4]]),
            colls: *r.pick(&[30, 50, 70]),
            flow: *r.pick(&[0, 30, 60, 100]),
            tabs: r.pct(20),
            words: *r.pick(&[1, 3, 8]),
        }
    }
}

impl Cfg {
    /// A workload of some scale: mostly small, at times long, deep or large
    pub fn scaled(r: &mut Rng) -> Cfg {
        let mut c = Cfg::random(r);
        match r.weighted(&[80, 6, 5, 5, 4]) {
            0 => {}
            // Many entries
            1 => {
                c.budget = r.range(60, 400);
                c.docs = r.range(1, 8);
            }
            // Deep
            2 => {
                c.depth = r.range(10, 60);
                c.colls = 95;
                c.budget = r.range(40, 200);
            }
            // Long scalars
            3 => c.words = r.range(20, 200),
            // Many documents
            _ => {
                c.docs = r.range(4, 20);
                c.budget = r.range(1, 60);
            }
        }
        c
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pos {
    /// Document root, at the start of a line
    Root,
    /// Document root, after '---'
    RootMarker,
    /// After '- ', '? ' or ': ', where compact collections are allowed
    Compact,
    /// After 'key:'
    Value,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cx {
    /// Flow node in block context, may span lines
    Out,
    /// In a flow collection, may span lines
    In,
    /// Block implicit key, single line
    BlockKey,
    /// Flow implicit key (or nested in one), single line
    FlowKey,
}

impl Cx {
    fn in_flow(self) -> bool {
        matches!(self, Cx::In | Cx::FlowKey)
    }
    fn single(self) -> bool {
        matches!(self, Cx::BlockKey | Cx::FlowKey)
    }
    fn inner(self) -> Cx {
        match self {
            Cx::Out | Cx::In => Cx::In,
            _ => Cx::FlowKey,
        }
    }
}

/// What the last node means for the text which follows it
#[derive(Clone, Copy, PartialEq)]
enum Tail {
    /// At the end of a line's content, line break not yet written
    Open,
    /// Line break written
    Closed,
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub c: Cfg,
    pub out: String,
    pub ev: Vec<Ev>,
    anchors: Vec<String>,
    handles: Vec<String>,
    left: usize,
    /// number of collections/scalars presented, by feature
    pub feats: BTreeMap<&'static str, u64>,
    last_block: bool,
    /// chars used by the current implicit key
    key_room: usize,
}

pub struct Doc {
    pub text: String,
    pub ev: Vec<Ev>,
    pub feats: BTreeMap<&'static str, u64>,
}

pub fn stream(r: &mut Rng, c: Cfg) -> Doc {
    let mut g = Gen::new(r, c);
    g.stream();
    Doc { text: g.out, ev: g.ev, feats: g.feats }
}

pub fn default_tags() -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    m.insert("!".to_string(), "!".to_string());
    m.insert("!!".to_string(), "tag:yaml.org,2002:".to_string());
    m
}

const WORDS: &[&str] = &[
    "a", "b", "key", "value", "foo", "bar", "x1", "42", "3.14", "true", "null", "~", "-1", "-x", "?q", ":c", "a-b", "a:b", "a#b", "x&y",
    "it's", "q\"q", "p|q", "r>s", "50%", "m@n", "u`v", "*"/*mid only*/, "&z", "!t", "<<", "=", "$v", "^", "(p)", "a/b", "c\\d", "--", "..", "---x", "...y",
    "http://h:80/p?q=1", "longer-word-with-dashes", "Z",
];
const UNI: &[&str] = &["é", "ß", "中文", "ключ", "😀", "𝄞x", "\u{a0}nb", "é́", "日本", "ﬀ", "\u{e000}", "\u{10ffff}", "\u{2010}d", "\u{fffd}"];
const INDICATORS: &str = "-?:,[]{}#&*!|>'\"%@`";

/// Can the word start a plain scalar?
fn plain_first(w: &str, flow: bool) -> bool {
    let mut it = w.chars();
    let a = it.next().unwrap();
    let b = it.next();
    if "-?:".contains(a) {
        return match b {
            None => false,
            Some(b) => !(flow && ",[]{}".contains(b)),
        };
    }
    !INDICATORS.contains(a)
}

/// Can the word be (a later) part of a plain scalar?
fn plain_word(w: &str, flow: bool) -> bool {
    if w.starts_with('#') || w.ends_with(':') {
        return false;
    }
    if flow {
        if w.contains(|c| ",[]{}".contains(c)) {
            return false;
        }
        // ':' must be followed by a plain safe char
        let cs: Vec<char> = w.chars().collect();
        for (i, c) in cs.iter().enumerate() {
            if *c == ':' && cs.get(i + 1).map_or(true, |n| ",[]{}".contains(*n)) {
                return false;
            }
        }
    }
    true
}

pub fn push_hex(s: &mut String, c: char, r: &mut Rng) {
    let v = c as u32;
    let w = if v < 0x100 { r.below(3) } else if v < 0x1_0000 { 1 + r.below(2) } else { 2 };
    let up = r.pct(50);
    let t = match (w, up) {
        (0, true) => format!("\\x{v:02X}"),
        (0, false) => format!("\\x{v:02x}"),
        (1, true) => format!("\\u{v:04X}"),
        (1, false) => format!("\\u{v:04x}"),
        (_, true) => format!("\\U{v:08X}"),
        (_, false) => format!("\\U{v:08x}"),
    };
    s.push_str(&t);
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, c: Cfg) -> Self {
        let left = c.budget;
        Gen {
            r,
            c,
            out: String::new(),
            ev: vec![],
            anchors: vec![],
            handles: vec![],
            left,
            feats: BTreeMap::new(),
            last_block: false,
            key_room: 900,
        }
    }

    fn feat(&mut self, f: &'static str) {
        *self.feats.entry(f).or_insert(0) += 1;
    }

    fn col(&self) -> usize {
        let at = self.out.rfind(['\n', '\r']).map_or(0, |i| i + 1);
        self.out.len() - at
    }

    fn brk(&mut self) {
        let b = match self.c.brk {
            Brk::Lf => "\n",
            Brk::CrLf => "\r\n",
            Brk::Cr => "\r",
            // A lone CR must not be followed by LF by accident
            Brk::Mixed => *self.r.pick(&["\n", "\r\n", "\r", "\n"]),
        };
        if b == "\n" && self.out.ends_with('\r') {
            self.out.push_str("\r\n");
            return;
        }
        self.out.push_str(b);
    }

    fn spaces(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }

    /// Inline separation, at least one blank
    fn ws(&mut self) {
        let n = if self.r.pct(80) { 1 } else { self.r.range(1, 4) };
        if self.c.tabs && self.r.pct(30) {
            self.feat("tab-sep");
            self.out.push('\t');
            self.spaces(n - 1);
        } else {
            self.spaces(n);
        }
    }

    fn opt_ws(&mut self) {
        if self.r.pct(25) {
            self.ws();
        }
    }

    fn comment_text(&mut self) {
        self.feat("comment");
        self.out.push('#');
        let t = *self.r.pick(&["", " c", " a: b", " - x", "#", " \"", " '", " [", " %TAG", " é中😀", "!x &y *z", " ---", " | >", "\t tab"]);
        self.out.push_str(t);
    }

    /// Finish the current line, maybe adding comments and blank lines
    fn eol(&mut self) {
        if self.r.pct(self.c.comments) {
            self.ws();
            self.comment_text();
        } else if self.r.pct(5) {
            self.ws();
        }
        self.brk();
        self.filler();
    }

    /// Comment and blank lines
    fn filler(&mut self) {
        while self.r.pct(self.c.comments / 2) {
            if self.r.pct(50) {
                self.feat("blank-line");
                if self.r.pct(30) {
                    let n = self.r.below(6);
                    self.spaces(n);
                }
            } else {
                let n = self.r.below(8);
                self.spaces(n);
                self.comment_text();
            }
            self.brk();
        }
    }

    fn start_line(&mut self, col: usize) {
        debug_assert_eq!(self.col(), 0);
        self.spaces(col);
    }

    /* ---------------------------------------------------- streams */

    fn stream(&mut self) {
        self.ev.push(Ev::StreamStart);
        let docs = self.c.docs;
        let mut bare_ok = true; // may the next document start without '---'
        let mut first = true;

        for i in 0..docs {
            let last = i + 1 == docs;
            self.filler_after();
            if first && self.r.pct(3) {
                self.feat("leading-doc-end");
                self.out.push_str("...");
                self.eol();
                self.filler_after();
            }

            let mut version = (1, 2);
            let mut tags = default_tags();
            self.handles = vec!["!".into(), "!!".into()];
            self.anchors.clear();
            let mut directives = false;

            if bare_ok && self.r.pct(self.c.directives) {
                directives = true;
                self.directives(&mut version, &mut tags);
            }

            let explicit = directives || !bare_ok || self.r.pct(if self.c.docs > 1 { 60 } else { 25 });
            let start = self.ev.len();
            self.ev.push(Ev::DocStart { version, tags, explicit });

            self.left = self.left.max(1);
            let tail;
            if explicit {
                self.out.push_str("---");
                if self.r.pct(12) {
                    // Empty document, there is no root node at all
                    self.feat("empty-doc");
                    tail = Tail::Open;
                } else {
                    tail = self.block_node(Kind::Root, -1, Pos::RootMarker);
                }
            } else {
                if first && last && self.r.pct(3) {
                    // The empty stream
                    self.feat("empty-stream");
                    self.ev.push(Ev::DocEnd { explicit: false });
                    break;
                }
                tail = self.block_node(Kind::Root, -1, Pos::Root);
            }
            let _ = start;
            if tail == Tail::Open {
                self.eol();
            }
            first = false;

            // Document end
            if self.r.pct(if self.c.docs > 1 { 40 } else { 15 }) {
                self.feat("doc-end");
                self.last_block = false;
                self.out.push_str("...");
                self.eol();
                if self.r.pct(8) {
                    self.feat("doc-end-repeat");
                    self.out.push_str("...");
                    self.eol();
                }
                self.ev.push(Ev::DocEnd { explicit: true });
                bare_ok = true;
            } else {
                self.ev.push(Ev::DocEnd { explicit: false });
                bare_ok = false;
            }
        }

        // Maybe drop the final line break
        if !self.last_block && self.r.pct(40) {
            let n = self.out.trim_end_matches(['\n', '\r']).len();
            self.out.truncate(n);
        }

        self.ev.push(Ev::StreamEnd);
    }

    fn directives(&mut self, version: &mut (u8, u8), tags: &mut BTreeMap<String, String>) {
        self.feat("directives");
        let n = self.r.range(1, 4);
        let mut seen = false;
        let mut used: Vec<String> = vec![];
        for _ in 0..n {
            if !seen && self.r.pct(40) {
                seen = true;
                let v = *self.r.pick(&[(1u8, 2u8), (1, 1), (1, 3), (1, 0)]);
                *version = v;
                self.out.push_str("%YAML");
                self.ws();
                self.out.push_str(&format!("{}.{}", v.0, v.1));
            } else {
                let h = self.r.pick(&["!", "!!", "!e!", "!foo!", "!a1!"]).to_string();
                if used.contains(&h) {
                    continue;
                }
                let p = self
                    .r
                    .pick(&["tag:example.com,2000:", "!my-", "tag:yaml.org,2002:", "http://x/y?z=1&w=2#f-", "tag:a,b[c]:", "!local", "tag:p@q.r,2000:~*'();$+"])
                    .to_string();
                used.push(h.clone());
                self.out.push_str("%TAG");
                self.ws();
                self.out.push_str(&h);
                self.ws();
                self.out.push_str(&p);
                tags.insert(h.clone(), p);
                if !self.handles.contains(&h) {
                    self.handles.push(h);
                }
            }
            self.eol();
        }
    }

    /* ------------------------------------------------- properties */

    fn tag(&mut self, scalar: bool) -> (String, Option<(String, String)>) {
        let suffixes: &[(&str, &str)] = &[
            ("str", "str"),
            ("int", "int"),
            ("a-b", "a-b"),
            ("x/y:z", "x/y:z"),
            ("p%21q", "p!q"),
            ("%C3%A9", "é"),
            ("q%2Cr", "q,r"),
            ("k;m?n@o&p=q+r$s.t~u*v'(w)", "k;m?n@o&p=q+r$s.t~u*v'(w)"),
            ("f#g", "f#g"),
        ];
        self.feat("tag");
        match self.r.weighted(&[6, 1, 1]) {
            0 => {
                let h = self.r.pick(&self.handles.clone()).clone();
                let (raw, dec) = *self.r.pick(suffixes);
                (format!("{h}{raw}"), Some((h, dec.to_string())))
            }
            1 => {
                self.feat("tag-verbatim");
                let v = *self.r.pick(&["tag:yaml.org,2002:str", "!local", "http://a/b,c[d]"]);
                (format!("!<{v}>"), Some((String::new(), v.to_string())))
            }
            _ => {
                self.feat("tag-nonspecific");
                ("!".to_string(), if scalar { None } else { Some(("!".into(), String::new())) })
            }
        }
    }

    /// Write the properties of a node, returning them. Leaves the cursor
    /// directly after the last property. `sep` writes the separation
    /// between two properties.
    fn props(&mut self, scalar: bool, single: bool, n: isize) -> (Props, bool) {
        let a = self.r.pct(self.c.anchors);
        let t = self.r.pct(self.c.tags);
        let mut p = Props::NONE;
        let mut parts = vec![];
        if a {
            self.feat("anchor");
            let name = format!("{}{}", self.r.pick(&["a", "B", "x9", "0", "anchor"]), self.r.below(4));
            p.anchor = Some(name.clone());
            parts.push(format!("&{name}"));
            self.anchors.push(name);
        }
        if t {
            let (txt, tag) = self.tag(scalar);
            p.tag = tag;
            parts.push(txt);
        }
        if parts.len() == 2 && self.r.pct(50) {
            parts.swap(0, 1);
        }
        let any = !parts.is_empty();
        for (i, x) in parts.iter().enumerate() {
            if i > 0 {
                if single || self.r.pct(90) {
                    self.ws();
                } else {
                    self.feat("props-multiline");
                    self.sep_lines(n);
                }
            }
            self.out.push_str(x);
        }
        (p, any)
    }

    /* ------------------------------------------------ block nodes */

    fn budget(&mut self) -> bool {
        if self.left == 0 {
            return false;
        }
        self.left -= 1;
        true
    }

    /// Separation spanning lines, into a line indented by more than n
    fn sep_lines(&mut self, n: isize) {
        self.eol();
        let i = (n + 1).max(0) as usize + if self.r.pct(70) { 0 } else { self.r.below(4) };
        let i = if self.r.pct(50) { i + 1 } else { i };
        self.start_line(i);
        if self.c.tabs && self.r.pct(10) {
            self.feat("tab-after-indent");
            self.out.push('\t');
        }
    }

    /// A node in block context, whose parent collection is indented by n.
    fn block_node(&mut self, kind: Kind, n: isize, pos: Pos) -> Tail {
        self.last_block = false;
        let depth_left = self.c.depth > 0;
        let coll = depth_left && self.left > 0 && self.r.pct(self.c.colls);

        if coll && !self.r.pct(self.c.flow) {
            return self.block_collection(kind, n, pos);
        }
        if !coll && pos != Pos::Root && self.r.pct(8) {
            // The empty node. At the root it's only a node if it has properties
            self.feat("empty-node");
            if pos == Pos::RootMarker {
                // Guaranteed properties
                self.ws();
                let mut p = Props::NONE;
                self.feat("anchor");
                p.anchor = Some("root".into());
                self.anchors.push("root".into());
                self.out.push_str("&root");
                self.ev.push(Ev::Scalar { props: p, kind, data: String::new(), style: Style::Plain });
                return Tail::Open;
            }
            let mark = self.out.len();
            self.ws();
            let (props, any) = self.props(true, true, n);
            if !any && self.r.pct(70) {
                self.out.truncate(mark);
            }
            self.ev.push(Ev::Scalar { props, kind, data: String::new(), style: Style::Plain });
            return Tail::Open;
        }
        if !coll && self.r.pct(self.c.scalars[3] * 100 / (self.c.scalars.iter().sum::<usize>())) {
            return self.block_scalar(kind, n, pos);
        }

        // A flow node, on this line or the next
        if pos == Pos::Root {
            let i = if self.r.pct(70) { 0 } else { self.r.below(4) };
            self.start_line(i);
        } else if self.r.pct(self.c.multiline / 3) {
            self.feat("value-next-line");
            self.sep_lines(n);
        } else {
            self.ws();
        }
        self.flow_node(kind, n, Cx::Out, coll);
        Tail::Open
    }

    fn block_collection(&mut self, kind: Kind, n: isize, pos: Pos) -> Tail {
        let map = self.r.pct(50);
        self.budget();

        // Compact, on the same line as the indicator
        if pos == Pos::Compact && self.r.pct(40) {
            self.feat("compact");
            let extra = self.r.range(1, 3);
            self.spaces(extra);
            let m = self.col();
            self.push_start(map, Props::NONE, kind);
            self.c.depth -= 1;
            self.entries(map, m);
            self.c.depth += 1;
            self.ev.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
            return Tail::Closed;
        }

        // Properties, followed by the collection on the next line
        let mut props = Props::NONE;
        if pos != Pos::Root {
            let mark = self.out.len();
            self.ws();
            let (p, any) = self.props(false, true, n);
            props = p;
            if !any {
                self.out.truncate(mark);
            } else {
                self.feat("collection-props");
            }
            self.eol();
        } else if self.r.pct(10) {
            let mark = self.out.len();
            let (p, any) = self.props(false, true, n);
            props = p;
            if any {
                self.feat("collection-props");
                self.eol();
            } else {
                self.out.truncate(mark);
            }
        }

        let zero = !map && pos == Pos::Value && kind == Kind::Value && n >= 0 && self.r.pct(40);
        let m = if zero {
            self.feat("zero-indent-seq");
            n as usize
        } else {
            (n + 1) as usize + if self.r.pct(50) { 1 } else { self.r.below(4) }
        };

        self.push_start(map, props, kind);
        self.start_line(m);
        self.c.depth -= 1;
        self.entries(map, m);
        self.c.depth += 1;
        self.ev.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
        Tail::Closed
    }

    fn push_start(&mut self, map: bool, props: Props, kind: Kind) {
        self.ev.push(if map { Ev::MapStart { props, kind } } else { Ev::SeqStart { props, kind } });
    }

    /// The entries of a block collection indented by m, cursor at the
    /// first entry
    fn entries(&mut self, map: bool, m: usize) {
        let n = self.r.range(1, 4);
        let mut open = false;
        for i in 0..n {
            if i > 0 {
                if self.left == 0 {
                    break;
                }
                self.filler_after();
                self.start_line(m);
            }
            self.budget();
            if map {
                open = self.map_entry(m, open);
            } else {
                self.feat("block-seq-entry");
                self.out.push('-');
                let t = self.block_node(Kind::Entry, m as isize, Pos::Compact);
                self.close(t);
            }
        }
    }

    fn filler_after(&mut self) {
        if !self.last_block {
            self.filler();
        }
    }

    fn close(&mut self, t: Tail) {
        if t == Tail::Open {
            self.eol();
        }
    }

    /// Write an entry, .open if the last one was an explicit key without
    /// a value, which would take one that has only a value
    fn map_entry(&mut self, m: usize, open: bool) -> bool {
        if self.r.pct(15) {
            self.feat("explicit-key");
            self.out.push('?');
            let t = self.block_node(Kind::Key, m as isize, Pos::Compact);
            self.close(t);
            if self.r.pct(75) {
                self.filler_after();
                self.start_line(m);
                self.out.push(':');
                let t = self.block_node(Kind::Value, m as isize, Pos::Compact);
                self.close(t);
                return false;
            }
            self.feat("explicit-key-no-value");
            self.ev.push(Ev::Scalar { props: Props::NONE, kind: Kind::Value, data: String::new(), style: Style::Plain });
            return true;
        }
        self.feat("implicit-key");
        self.key_room = 600;
        if !open && self.r.pct(4) {
            // Empty key
            self.feat("empty-key");
            self.ev.push(Ev::Scalar { props: Props::NONE, kind: Kind::Key, data: String::new(), style: Style::Plain });
            self.out.push(':');
        } else {
            let coll = self.c.depth > 0 && self.r.pct(self.c.colls / 8);
            let before = self.out.len();
            self.flow_node(Kind::Key, m as isize, Cx::BlockKey, coll);
            let alias = self.out[before..].starts_with('*') || self.needs_space();
            if alias || self.r.pct(5) {
                self.spaces(1);
            }
            self.out.push(':');
        }
        let t = self.block_node(Kind::Value, m as isize, Pos::Value);
        self.close(t);
        false
    }

    /// The text ends with an alias, anchor or tag, which would swallow ':'
    fn needs_space(&self) -> bool {
        let w = self.out.rsplit([' ', '\t', '\n', '\r', '[', '{', ',']).next().unwrap_or("");
        w.starts_with(['*', '&', '!'])
    }

    /* ---------------------------------------------- block scalars */

    fn block_scalar(&mut self, kind: Kind, n: isize, pos: Pos) -> Tail {
        self.budget();
        self.feat("block-scalar");
        let mut props = Props::NONE;
        if pos != Pos::Root {
            self.ws();
        }
        let (p, any) = self.props(true, true, n);
        if any {
            props = p;
            self.ws();
        }
        let base = n.max(0) as usize;
        let fold = self.r.pct(50);
        self.out.push(if fold { '>' } else { '|' });
        let add = if self.r.pct(60) { 2 } else { self.r.range(1, 6) };
        let indent = base + add;

        // The lines: None is an empty line
        let k = *self.r.pick(&[0, 1, 1, 1, 2, 3, 4, 6]);
        let mut lines: Vec<Option<String>> = vec![];
        for _ in 0..k {
            if self.r.pct(25) {
                lines.push(None);
            } else {
                let mut t = String::new();
                if self.r.pct(20) {
                    let x = self.r.range(1, 3);
                    t.push_str(&" ".repeat(x));
                } else if self.r.pct(4) {
                    t.push('\t');
                }
                if self.r.pct(4) && !t.is_empty() {
                    // Line of only (excess) whitespace
                    self.feat("block-ws-line");
                } else {
                    t.push_str(&self.block_text());
                }
                lines.push(Some(t));
            }
        }
        let first = lines.iter().flatten().next().cloned().unwrap_or_default();
        let must = first.starts_with([' ', '\t']);
        let explicit = add <= 9 && (must || self.r.pct(20));
        let chomp = self.r.below(3);
        let ind = if explicit { add.to_string() } else { String::new() };
        let ch = ["", "-", "+"][chomp];
        if explicit {
            self.feat("block-explicit-indent");
        }
        if self.r.pct(50) {
            self.out.push_str(&ind);
            self.out.push_str(ch);
        } else {
            self.out.push_str(ch);
            self.out.push_str(&ind);
        }
        if self.r.pct(self.c.comments) {
            self.ws();
            self.comment_text();
        } else {
            self.opt_ws();
        }
        self.brk();

        let mut no_final = false;
        for (i, l) in lines.iter().enumerate() {
            match l {
                None => {
                    // Up to .indent spaces
                    let x = if self.r.pct(70) { 0 } else { self.r.below(indent + 1) };
                    self.spaces(x);
                }
                Some(t) => {
                    self.spaces(indent);
                    self.out.push_str(t);
                }
            }
            let _ = (i, &mut no_final);
            self.brk();
        }
        self.last_block = true;
        let data = block_model(&lines, fold, chomp, true);
        self.ev.push(Ev::Scalar { props, kind, data, style: if fold { Style::Folded } else { Style::Literal } });

        // A less indented comment ends the scalar
        if self.r.pct(self.c.comments / 2) {
            self.feat("block-trailing-comment");
            let x = self.r.below(indent.min(base + 1));
            self.spaces(x);
            self.comment_text();
            self.brk();
            self.last_block = false;
        }
        Tail::Closed
    }

    fn block_text(&mut self) -> String {
        let n = self.r.range(1, self.c.words.max(1) + 1);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push_str(*self.r.pick(&[" ", " ", " ", "  ", "\t"]));
            }
            let extra: &[&str] = &["# no comment", "- dash", "k: v", "[", "}", "\\n", "\"", "''", "%", "@", "---", "..."];
            let w = if self.r.pct(20) { self.r.pick(extra).to_string() } else { self.word() };
            s.push_str(&w);
        }
        if self.r.pct(6) {
            s.push_str(*self.r.pick(&[" ", "\t", "  "]));
        }
        s
    }

    /// Implicit keys have a limited length
    fn words(&self, cx: Cx) -> usize {
        if cx.single() {
            self.c.words.min(8)
        } else {
            self.c.words
        }
    }

    fn word(&mut self) -> String {
        let w = if self.r.pct(self.c.unicode) { *self.r.pick(UNI) } else { *self.r.pick(WORDS) };
        w.to_string()
    }

    /* ------------------------------------------------- flow nodes */

    /// Optional separation within a flow collection
    fn fsep(&mut self, n: isize, cx: Cx, must: bool) {
        if !cx.single() && self.r.pct(self.c.multiline / 3) {
            self.feat("flow-multiline");
            self.sep_lines(n);
        } else if must || self.r.pct(30) {
            self.ws();
        }
    }

    fn flow_node(&mut self, kind: Kind, n: isize, cx: Cx, coll: bool) {
        self.budget();

        if !coll && !self.anchors.is_empty() && self.r.pct(self.c.anchors / 2) {
            self.feat("alias");
            let a = self.r.pick(&self.anchors.clone()).clone();
            self.out.push('*');
            self.out.push_str(&a);
            self.ev.push(Ev::Alias(a));
            return;
        }

        let (props, any) = self.props(!coll, cx.single(), n);
        if any {
            if !coll && self.r.pct(10) && cx != Cx::BlockKey {
                // Empty, but for its properties
                self.feat("empty-with-props");
                self.ev.push(Ev::Scalar { props, kind, data: String::new(), style: Style::Plain });
                return;
            }
            if !cx.single() && self.r.pct(self.c.multiline / 5) {
                self.feat("props-multiline");
                self.sep_lines(n);
            } else {
                self.ws();
            }
        }

        if coll {
            return self.flow_collection(kind, n, cx, props);
        }

        let w = [self.c.scalars[0] * 2 + 1, self.c.scalars[1], self.c.scalars[2]];
        let (data, style) = match self.r.weighted(&w) {
            0 => (self.plain(n, cx), Style::Plain),
            1 => (self.single(n, cx), Style::Single),
            _ => (self.double(n, cx), Style::Double),
        };
        self.ev.push(Ev::Scalar { props, kind, data, style });
    }

    fn flow_collection(&mut self, kind: Kind, n: isize, cx: Cx, props: Props) {
        let map = self.r.pct(50);
        self.feat(if map { "flow-map" } else { "flow-seq" });
        if cx == Cx::BlockKey || cx == Cx::FlowKey {
            self.feat("flow-coll-as-key");
        }
        self.push_start(map, props, kind);
        self.out.push(if map { '{' } else { '[' });
        let icx = cx.inner();
        let count = if self.c.depth == 0 { 0 } else { *self.r.pick(&[0, 1, 1, 2, 3]) };
        self.c.depth = self.c.depth.saturating_sub(1);
        let mut i = 0;
        while i < count && self.left > 0 && !(cx.single() && self.out.len() > 0 && self.room_used()) {
            if i > 0 {
                self.fsep(n, icx, false);
                self.out.push(',');
            }
            self.fsep(n, icx, false);
            if map {
                self.flow_pair(n, icx, true);
            } else if self.r.pct(15) {
                self.feat("flow-single-pair");
                self.ev.push(Ev::MapStart { props: Props::NONE, kind: Kind::Entry });
                self.flow_pair(n, icx, false);
                self.ev.push(Ev::MapEnd);
            } else {
                let c = self.c.depth > 0 && self.r.pct(self.c.colls / 2);
                self.flow_node(Kind::Entry, n, icx, c);
            }
            i += 1;
        }
        self.c.depth += 1;
        if i > 0 && self.r.pct(15) {
            self.feat("flow-trailing-comma");
            self.fsep(n, icx, false);
            self.out.push(',');
        }
        self.fsep(n, icx, false);
        self.out.push(if map { '}' } else { ']' });
        self.ev.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
    }

    fn room_used(&self) -> bool {
        self.col() > self.key_room
    }

    fn empty(&mut self, kind: Kind) {
        self.ev.push(Ev::Scalar { props: Props::NONE, kind, data: String::new(), style: Style::Plain });
    }

    /// A key value pair of a flow mapping, or single pair of a flow sequence
    fn flow_pair(&mut self, n: isize, cx: Cx, in_map: bool) {
        self.budget();
        // Implicit keys of single pairs are on one line, those of flow
        // mappings need not be
        let lines = in_map && cx == Cx::In && self.r.pct(50);
        match self.r.weighted(&[10, 2, 2]) {
            // Implicit
            0 => {
                let coll = self.c.depth > 0 && self.r.pct(self.c.colls / 8);
                let before = self.out.len();
                let start = self.out.len();
                self.flow_node(Kind::Key, n, if lines { Cx::In } else { Cx::FlowKey }, coll);
                let json = {
                    let t = &self.out[before..];
                    t.ends_with(['"', '\'', ']', '}']) && (coll || !matches!(self.ev.last(), Some(Ev::Scalar { style: Style::Plain, .. } | Ev::Alias(_))))
                };
                if in_map && self.r.pct(10) {
                    // No value at all
                    self.feat("flow-no-value");
                    self.empty(Kind::Value);
                    return;
                }
                if lines && self.r.pct(self.c.multiline / 4) {
                    self.fsep(n, cx, true);
                } else if self.needs_space() || self.r.pct(8) {
                    self.spaces(1);
                }
                if self.out[start..].contains(['\n', '\r']) {
                    self.feat("flow-multiline-key");
                }
                self.out.push(':');
                self.flow_value(n, cx, json);
            }
            // Explicit
            1 => {
                self.feat("flow-explicit-key");
                self.out.push('?');
                self.fsep(n, cx, true);
                if self.r.pct(80) {
                    let coll = self.c.depth > 0 && self.r.pct(self.c.colls / 4);
                    self.flow_node(Kind::Key, n, cx, coll);
                    if self.r.pct(80) {
                        self.fsep(n, cx, true);
                        self.out.push(':');
                        self.flow_value(n, cx, false);
                    } else {
                        self.empty(Kind::Value);
                    }
                } else {
                    self.feat("flow-explicit-empty");
                    self.empty(Kind::Key);
                    self.empty(Kind::Value);
                }
            }
            // Empty key
            _ => {
                self.feat("flow-empty-key");
                self.empty(Kind::Key);
                self.out.push(':');
                self.flow_value(n, cx, false);
            }
        }
    }

    fn flow_value(&mut self, n: isize, cx: Cx, json: bool) {
        if self.r.pct(12) {
            self.feat("flow-empty-value");
            self.empty(Kind::Value);
            if !json || self.r.pct(50) {
                self.spaces(1);
            }
            return;
        }
        if json && self.r.pct(40) {
            self.feat("flow-adjacent");
        } else {
            self.fsep(n, cx, true);
        }
        let c = self.c.depth > 0 && self.r.pct(self.c.colls / 2);
        self.flow_node(Kind::Value, n, cx, c);
    }

    /* ---------------------------------------------- flow scalars */

    /// Fold over to a new line. Returns the content the fold stands for
    fn fold(&mut self, n: isize) -> String {
        self.feat("fold");
        if self.r.pct(20) {
            self.out.push_str(*self.r.pick(&[" ", "\t", "  "]));
        }
        self.brk();
        let mut e = 0;
        while self.r.pct(25) {
            if self.r.pct(30) {
                let x = self.r.below(5);
                self.spaces(x);
            }
            self.brk();
            e += 1;
        }
        let i = (n + 1).max(0) as usize + if self.r.pct(60) { 1 } else { self.r.below(4) };
        self.spaces(i);
        if self.c.tabs && self.r.pct(20) && i > 0 {
            self.out.push('\t');
        }
        if e == 0 {
            " ".into()
        } else {
            "\n".repeat(e)
        }
    }

    fn plain(&mut self, n: isize, cx: Cx) -> String {
        self.feat("plain");
        let flow = cx.in_flow();
        let mut data = String::new();
        let cap = self.words(cx);
        let k = self.r.range(1, cap.max(1));
        let mut i = 0;
        while i < k {
            let w = self.word();
            let ok = if i == 0 { plain_first(&w, flow) && plain_word(&w, flow) } else { plain_word(&w, flow) };
            if !ok {
                // retry, deterministic fallback
                if self.r.pct(90) {
                    continue;
                }
            }
            let w = if ok { w } else { "w".to_string() };
            if i > 0 {
                if !cx.single() && self.r.pct(self.c.multiline / 2) {
                    let f = self.fold(n);
                    data.push_str(&f);
                    // Keep clear of indicators and markers at the start of the line
                    let w = if plain_first(&w, flow) && !w.starts_with(['-', '.', '%']) { w } else { "w".to_string() };
                    self.out.push_str(&w);
                    data.push_str(&w);
                    i += 1;
                    continue;
                }
                let s = *self.r.pick(&[" ", " ", "  ", " "]);
                let s = if self.c.tabs && self.r.pct(20) { "\t" } else { s };
                self.out.push_str(s);
                data.push_str(s);
            } else if self.col() == 0 && (w == "---" || w == "...") {
                self.out.push('w');
                data.push('w');
                i += 1;
                continue;
            }
            self.out.push_str(&w);
            data.push_str(&w);
            i += 1;
        }
        data
    }

    fn single(&mut self, n: isize, cx: Cx) -> String {
        self.feat("single");
        let mut data = String::new();
        self.out.push('\'');
        let cap = self.words(cx);
        let k = self.r.below(cap + 2);
        for i in 0..k {
            if i > 0 {
                if !cx.single() && self.r.pct(self.c.multiline / 2) {
                    // Trailing blanks are not content
                    while data.ends_with([' ', '\t']) && self.trim_ok(&data) {
                        data.pop();
                    }
                    let f = self.fold(n);
                    data.push_str(&f);
                } else if self.r.pct(80) {
                    self.out.push(' ');
                    data.push(' ');
                }
            }
            if self.r.pct(20) {
                self.out.push_str("''");
                data.push('\'');
            } else {
                let extra: &[&str] = &["# c", ": ", "- ", "[x]", "{", "}", ",", "\"", "\\", "\\n", "%", "&", "*", "!"];
                let w = if self.r.pct(30) { self.r.pick(extra).to_string() } else { self.word() };
                let at0 = self.col() == 0;
                let w = if at0 && w.starts_with(['-', '.', '%']) { "w".into() } else { w };
                for c in w.chars() {
                    if c == '\'' {
                        self.out.push('\'');
                    }
                    self.out.push(c);
                    data.push(c);
                }
            }
        }
        if k > 0 && self.r.pct(10) {
            self.out.push(' ');
            data.push(' ');
        }
        self.out.push('\'');
        data
    }

    fn trim_ok(&self, _d: &str) -> bool {
        true
    }

    fn double(&mut self, n: isize, cx: Cx) -> String {
        self.feat("double");
        let mut data = String::new();
        // Length of .data which may not be trimmed by a fold (escaped content)
        let mut keep = 0;
        self.out.push('"');
        let cap = self.words(cx);
        let k = self.r.below(cap + 2);
        for i in 0..k {
            if i > 0 {
                if !cx.single() && self.r.pct(self.c.multiline / 2) {
                    if self.r.pct(30) {
                        // Escaped line break, joins the lines
                        self.feat("escaped-break");
                        self.out.push('\\');
                        self.brk();
                        let mut e = 0;
                        while self.r.pct(20) {
                            self.brk();
                            e += 1;
                        }
                        let i = (n + 1).max(0) as usize + self.r.below(4);
                        self.spaces(i);
                        data.push_str(&"\n".repeat(e));
                        keep = data.len();
                    } else {
                        while data.len() > keep && data.ends_with([' ', '\t']) {
                            data.pop();
                        }
                        let f = self.fold(n);
                        data.push_str(&f);
                        keep = data.len();
                    }
                    // Leading blanks would be trimmed, so content starts with something else
                    let w = self.word();
                    let at0 = self.col() == 0;
                    let w = if at0 && w.starts_with(['-', '.', '%']) { "w".into() } else { w };
                    self.dq_text(&w, &mut data, &mut keep);
                    continue;
                } else if self.r.pct(80) {
                    self.out.push(' ');
                    data.push(' ');
                }
            }
            if self.r.pct(40) {
                self.feat("escape");
                self.escape(&mut data);
                keep = data.len();
            } else {
                let extra: &[&str] = &["# c", ": ", "- ", "[x]", "{", "}", ",", "'", "''", "%", "&", "*", "!"];
                let w = if self.r.pct(30) { self.r.pick(extra).to_string() } else { self.word() };
                let at0 = self.col() == 0;
                let w = if at0 && w.starts_with(['-', '.', '%']) { "w".into() } else { w };
                self.dq_text(&w, &mut data, &mut keep);
            }
        }
        self.out.push('"');
        data
    }

    fn dq_text(&mut self, w: &str, data: &mut String, keep: &mut usize) {
        for c in w.chars() {
            match c {
                '"' => {
                    self.out.push_str("\\\"");
                    data.push(c);
                    *keep = data.len();
                }
                '\\' => {
                    self.out.push_str("\\\\");
                    data.push(c);
                    *keep = data.len();
                }
                _ => {
                    self.out.push(c);
                    data.push(c);
                }
            }
        }
    }

    fn escape(&mut self, data: &mut String) {
        const E: &[(&str, &str)] = &[
            ("\\0", "\0"),
            ("\\a", "\x07"),
            ("\\b", "\x08"),
            ("\\t", "\t"),
            ("\\n", "\n"),
            ("\\v", "\x0b"),
            ("\\f", "\x0c"),
            ("\\r", "\r"),
            ("\\e", "\x1b"),
            ("\\ ", " "),
            ("\\\"", "\""),
            ("\\/", "/"),
            ("\\\\", "\\"),
            ("\\N", "\u{85}"),
            ("\\_", "\u{a0}"),
            ("\\L", "\u{2028}"),
            ("\\P", "\u{2029}"),
            ("\\\t", "\t"),
        ];
        if self.r.pct(60) {
            let (a, b) = *self.r.pick(E);
            self.out.push_str(a);
            data.push_str(b);
        } else {
            let c = loop {
                let v = match self.r.below(5) {
                    0 => self.r.below(0x80),
                    1 => self.r.below(0x100),
                    2 => self.r.below(0x1000),
                    3 => self.r.below(0x1_0000),
                    _ => self.r.below(0x11_0000),
                } as u32;
                if let Some(c) = char::from_u32(v) {
                    break c;
                }
            };
            let mut s = String::new();
            push_hex(&mut s, c, self.r);
            self.out.push_str(&s);
            data.push(c);
        }
    }
}

/// The content of a block scalar, from YAML 1.2 section 8.1. `lines` are
/// the lines less their indentation, None being empty ones, all of which
/// end in a line break, bar the last one if not `last_break`
pub fn block_model(lines: &[Option<String>], fold: bool, chomp: usize, last_break: bool) -> String {
    let mut s = String::new();
    let mut prev: Option<bool> = None; // was the previous text line spaced?
    let mut empties = 0usize;

    for l in lines {
        match l {
            None => empties += 1,
            Some(t) => {
                let spaced = t.starts_with([' ', '\t']);
                match prev {
                    None => s.push_str(&"\n".repeat(empties)),
                    Some(p) => {
                        if !fold || p || spaced {
                            s.push_str(&"\n".repeat(empties + 1));
                        } else if empties == 0 {
                            s.push(' ');
                        } else {
                            s.push_str(&"\n".repeat(empties));
                        }
                    }
                }
                empties = 0;
                s.push_str(t);
                prev = Some(spaced);
            }
        }
    }

    match (chomp, prev.is_some()) {
        // strip
        (1, _) => {}
        // keep
        (2, true) => s.push_str(&"\n".repeat(empties + last_break as usize)),
        (2, false) => s.push_str(&"\n".repeat(empties)),
        // clip
        (_, true) => {
            if last_break || empties > 0 {
                s.push('\n')
            }
        }
        (_, false) => {}
    }
    s
}
