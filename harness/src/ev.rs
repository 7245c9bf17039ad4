//! Owned, comparable view of the event stream, and the collectors
//! which drive the real library and record what it did.

use std::collections::BTreeMap;
use std::io::{self, Read};

use yary::error::Category;
use yary::event::types::{EventData, NodeKind, ScalarLike, ScalarStyle};
use yary::event::{flag, from_reader_with, Events};
use yary::reader;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Root,
    Entry,
    Key,
    Value,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Style {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Props {
    pub anchor: Option<String>,
    pub tag: Option<(String, String)>,
}

impl Props {
    pub const NONE: Props = Props { anchor: None, tag: None };
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    StreamStart,
    StreamEnd,
    DocStart { version: (u8, u8), tags: BTreeMap<String, String>, explicit: bool },
    DocEnd { explicit: bool },
    Alias(String),
    Scalar { props: Props, kind: Kind, data: String, style: Style },
    /// A lazily scanned scalar whose evaluation failed
    BadScalar { props: Props, kind: Kind, fault: Fault },
    MapStart { props: Props, kind: Kind },
    MapEnd,
    SeqStart { props: Props, kind: Kind },
    SeqEnd,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cat {
    Io,
    Syntax,
    Data,
    Eof,
}

pub fn cat(c: Category) -> Cat {
    match c {
        Category::IO => Cat::Io,
        Category::Syntax => Cat::Syntax,
        Category::Data => Cat::Data,
        Category::EOF => Cat::Eof,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Fault {
    pub cat: Cat,
    pub msg: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Trace {
    pub ev: Vec<Ev>,
    pub err: Option<Fault>,
    /// (start, end) marks of each event
    pub marks: Vec<(usize, usize)>,
    /// scalars still lazy when delivered / total scalars
    pub lazy: usize,
    pub borrowed: usize,
}

impl Trace {
    /// First failure position: either a scalar which fails evaluation or
    /// the stream error
    pub fn first_bad(&self) -> Option<usize> {
        match self.ev.iter().position(|e| matches!(e, Ev::BadScalar { .. })) {
            Some(i) => Some(i),
            None => self.err.as_ref().map(|_| self.ev.len()),
        }
    }
    pub fn ok(&self) -> bool {
        self.first_bad().is_none()
    }
}

fn kind(k: &NodeKind) -> Kind {
    match k {
        NodeKind::Root => Kind::Root,
        NodeKind::Entry => Kind::Entry,
        NodeKind::Key => Kind::Key,
        NodeKind::Value => Kind::Value,
    }
}

pub fn style(s: ScalarStyle) -> Style {
    match s {
        ScalarStyle::Plain => Style::Plain,
        ScalarStyle::SingleQuote => Style::Single,
        ScalarStyle::DoubleQuote => Style::Double,
        ScalarStyle::Literal => Style::Literal,
        ScalarStyle::Folded => Style::Folded,
    }
}

fn props<T>(n: &yary::event::types::Node<'_, T>) -> Props {
    Props {
        anchor: n.anchor.as_ref().map(|a| a.to_string()),
        tag: n.tag.as_ref().map(|(h, s)| (h.to_string(), s.to_string())),
    }
}

/// Convert an event, evaluating a lazy scalar. Returns (event, was lazy, borrowed)
pub fn convert(data: &EventData<'_>) -> (Ev, bool, bool) {
    let mut lazy = false;
    let mut borrowed = false;
    let ev = match data {
        EventData::StreamStart(_) => Ev::StreamStart,
        EventData::StreamEnd => Ev::StreamEnd,
        EventData::DocumentStart(d) => Ev::DocStart {
            version: (d.directives.version.major, d.directives.version.minor),
            tags: d.directives.tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            explicit: !d.implicit,
        },
        EventData::DocumentEnd(d) => Ev::DocEnd { explicit: !d.implicit },
        EventData::Alias(a) => Ev::Alias(a.name.to_string()),
        EventData::MappingStart(n) => Ev::MapStart { props: props(n), kind: kind(&n.kind) },
        EventData::MappingEnd => Ev::MapEnd,
        EventData::SequenceStart(n) => Ev::SeqStart { props: props(n), kind: kind(&n.kind) },
        EventData::SequenceEnd => Ev::SeqEnd,
        EventData::Scalar(n) => {
            lazy = n.content.is_unevaluated();
            match n.content.clone().evaluate() {
                Ok(s) => {
                    borrowed = matches!(s.data(), std::borrow::Cow::Borrowed(_));
                    Ev::Scalar { props: props(n), kind: kind(&n.kind), data: s.data().to_string(), style: style(s.style()) }
                }
                Err(e) => Ev::BadScalar { props: props(n), kind: kind(&n.kind), fault: fault(&e) },
            }
        }
    };
    (ev, lazy, borrowed)
}

pub fn fault(e: &yary::Error) -> Fault {
    Fault { cat: cat(e.classify()), msg: format!("{e}") }
}

/// Upper bound on the events a stream of n bytes may give: every event
/// needs evidence in the input, bar a constant number of implied ones.
pub fn event_cap(len: usize) -> usize {
    8 * len + 64
}

/// Drain an event stream, recording everything it does.
pub fn drain<R: reader::Read>(events: Events<'_, R>, len: usize) -> Result<Trace, String> {
    drain_iter(events.into_iter(), len)
}

pub fn drain_iter<'de, I>(mut it: I, len: usize) -> Result<Trace, String>
where
    I: Iterator<Item = Result<yary::event::types::Event<'de>, yary::Error>>,
{
    let mut t = Trace { ev: vec![], err: None, marks: vec![], lazy: 0, borrowed: 0 };
    let cap = event_cap(len);
    loop {
        match it.next() {
            None => break,
            Some(Ok(e)) => {
                let (ev, lazy, bor) = convert(e.data());
                t.lazy += lazy as usize;
                t.borrowed += bor as usize;
                t.marks.push((e.start(), e.end()));
                t.ev.push(ev);
                if t.ev.len() > cap {
                    return Err(format!("unbounded event stream: over {cap} events from {len} bytes"));
                }
            }
            Some(Err(e)) => {
                t.err = Some(fault(&e));
                break;
            }
        }
    }
    // The stream has ended, and stays so
    for _ in 0..3 {
        match it.next() {
            None => {}
            Some(Ok(e)) => {
                return Err(format!("event {:?} after the end of the stream (error: {:?})", e.data(), t.err));
            }
            Some(Err(e)) => {
                return Err(format!("error {e} after the end of the stream (error: {:?})", t.err));
            }
        }
    }
    Ok(t)
}

pub fn flags(lazy: bool) -> flag::Flags {
    if lazy {
        flag::O_LAZY
    } else {
        flag::O_NIL
    }
}

pub fn run_str(s: &str, lazy: bool) -> Result<Trace, String> {
    let r = reader::from_utf8(s);
    drain(from_reader_with(&r, flags(lazy)), s.len())
}

pub fn run_bytes(s: &[u8], lazy: bool) -> Result<Trace, String> {
    match reader::try_from_bytes(s) {
        Ok(r) => drain(from_reader_with(&r, flags(lazy)), s.len()),
        Err(e) => Ok(Trace { ev: vec![], err: Some(fault(&e)), marks: vec![], lazy: 0, borrowed: 0 }),
    }
}

pub fn run_read<T: Read + 'static>(src: T, lazy: bool, len: usize) -> Result<Trace, String> {
    let r = reader::from_read(src);
    drain(from_reader_with(&r, flags(lazy)), len)
}

/// An io::Read which serves its data in pieces of scripted sizes, with
/// faults injected at scripted offsets.
pub struct Script {
    pub data: Vec<u8>,
    pub pos: usize,
    /// maximum sizes of consecutive reads, cycled. Empty: unlimited
    pub sizes: Vec<usize>,
    pub turn: usize,
    /// offset => error kind, raised once when .pos reaches the offset
    pub faults: Vec<(usize, io::ErrorKind)>,
    pub log: std::rc::Rc<std::cell::RefCell<ReadLog>>,
}

#[derive(Default, Debug, Clone)]
pub struct ReadLog {
    pub calls: u64,
    pub short: u64,
    pub raised: u64,
    pub served: usize,
    pub zero: u64,
}

impl Script {
    pub fn new(data: &[u8]) -> Self {
        Script { data: data.to_vec(), pos: 0, sizes: vec![], turn: 0, faults: vec![], log: Default::default() }
    }
    pub fn sizes(mut self, s: Vec<usize>) -> Self {
        self.sizes = s;
        self
    }
}

impl Read for Script {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut log = self.log.borrow_mut();
        log.calls += 1;
        if let Some(i) = self.faults.iter().position(|(at, _)| *at <= self.pos) {
            let (_, k) = self.faults.remove(i);
            log.raised += 1;
            return Err(io::Error::new(k, "injected fault"));
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some(at) = self.faults.iter().map(|f| f.0).min() {
            n = n.min(at - self.pos);
        }
        if !self.sizes.is_empty() {
            let lim = self.sizes[self.turn % self.sizes.len()].max(1);
            self.turn += 1;
            if lim < n {
                n = lim;
                log.short += 1;
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        log.served += n;
        if n == 0 && !buf.is_empty() {
            log.zero += 1;
        }
        Ok(n)
    }
}

#[allow(dead_code)]
pub fn is_lazy(s: &ScalarLike<'_>) -> bool {
    s.is_unevaluated()
}

/// The shape of a trace: event kinds without their payload
pub fn shape(ev: &[Ev]) -> u64 {
    let mut b = Vec::with_capacity(ev.len() * 2);
    for e in ev {
        let (a, p, x) = match e {
            Ev::StreamStart => (1, None, 0),
            Ev::StreamEnd => (2, None, 0),
            Ev::DocStart { explicit, tags, .. } => (3, None, *explicit as u8 + 2 * tags.len() as u8),
            Ev::DocEnd { explicit } => (4, None, *explicit as u8),
            Ev::Alias(_) => (5, None, 0),
            Ev::Scalar { props, kind, style, .. } => (6, Some(props), *kind as u8 * 8 + *style as u8),
            Ev::BadScalar { props, kind, .. } => (7, Some(props), *kind as u8),
            Ev::MapStart { props, kind } => (8, Some(props), *kind as u8),
            Ev::MapEnd => (9, None, 0),
            Ev::SeqStart { props, kind } => (10, Some(props), *kind as u8),
            Ev::SeqEnd => (11, None, 0),
        };
        b.push(a);
        b.push(x);
        if let Some(p) = p {
            b.push(p.anchor.is_some() as u8 + 2 * p.tag.is_some() as u8);
        }
    }
    crate::rng::hash_bytes(&b)
}

pub fn diff(want: &[Ev], got: &[Ev]) -> String {
    let n = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    format!("event #{n}: expected {:?}, got {:?}", want.get(n), got.get(n))
}
