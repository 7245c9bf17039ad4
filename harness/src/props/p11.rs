//! Faults of the source, and of its encoding, are reported as what they
//! are, at once, after nothing but what came before them.

use std::io::{self, Read};

use yary::event::from_reader_with;
use yary::reader::{from_read, try_from_bytes};

use super::show;
use crate::ev::{self, Cat, Fault, Trace};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P11",
    rule: "Each case is a text served by an io::Read which fails at some offset (every offset, in sweep cases) with some error kind and a payload of its own, or is interrupted at several offsets, or whose bytes are made invalid UTF8 (misplaced, missing, overlong, surrogate, out of range, cut at the end) at an offset moved around chunk boundaries. The events delivered must be a prefix of those of the sound text, the error must be an I/O error carrying that very payload, or a data error, and it must be there; interruptions must change nothing. Other errors must convert to the io::ErrorKind of their category. Non-trivial: distinct text and fault.",
    case,
    cases: (100_000, 1_500_000),
    cpu: 30,
    need: &["io fault", "io fault swept", "interrupted", "invalid UTF8 in io", "invalid UTF8 in bytes", "incomplete at the end", "fault at a boundary", "fault after refills", "payload kept", "as InvalidData", "as InvalidInput", "as UnexpectedEof", "mode lazy"],
    level: "exploration",
};

#[derive(Debug)]
struct Payload(u64);

impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "payload {}", self.0)
    }
}

impl std::error::Error for Payload {}

struct Source {
    data: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    turn: usize,
    fail: Option<(usize, io::ErrorKind, u64)>,
    interrupts: Vec<usize>,
    log: std::rc::Rc<std::cell::Cell<(u64, u64, u64)>>,
    at: std::rc::Rc<std::cell::Cell<usize>>,
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let (calls, fails, ints) = self.log.get();
        self.log.set((calls + 1, fails, ints));
        if let Some(i) = self.interrupts.iter().position(|at| *at <= self.pos) {
            self.interrupts.remove(i);
            self.log.set((calls + 1, fails, ints + 1));
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut stop = self.interrupts.iter().copied().min().unwrap_or(usize::MAX);
        if let Some((at, kind, id)) = self.fail {
            if self.pos >= at {
                self.log.set((calls + 1, fails + 1, ints));
                // Once only: should the reader go on, it would see the rest
                self.fail = None;
                return Err(io::Error::new(kind, Payload(id)));
            }
            stop = stop.min(at);
        }
        let mut n = buf.len().min(self.data.len() - self.pos).min(stop - self.pos);
        if !self.sizes.is_empty() {
            n = n.min(self.sizes[self.turn % self.sizes.len()].max(1));
            self.turn += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.at.set(self.pos);
        Ok(n)
    }
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::WriteZero,
];

struct Got {
    t: Trace,
    /// as io::Error: kind, payload, text
    io: Option<(io::ErrorKind, Option<u64>, String)>,
    behind: Behind,
    calls: u64,
    fails: u64,
    ints: u64,
    /// how much of the source had been taken as each event was delivered
    taken: Vec<usize>,
}

fn run(src: Source, lazy: bool) -> Result<Got, String> {
    let len = src.data.len();
    let log = src.log.clone();
    let at = src.at.clone();
    let mut taken = vec![];
    let r = from_read(src);
    let mut t = Trace { ev: vec![], err: None, marks: vec![], lazy: 0, borrowed: 0 };
    let mut io = None;
    let mut hind = Behind::default();
    let mut events = from_reader_with(&r, ev::flags(lazy)).into_iter();
    while let Some(e) = events.next() {
        match e {
            Ok(e) => {
                taken.push(at.get());
                t.ev.push(ev::convert(e.data()).0)
            }
            Err(e) => {
                t.err = Some(ev::fault(&e));
                hind = behind(&e);
                io = Some(as_io(e)?);
                break;
            }
        }
        if t.ev.len() > ev::event_cap(len) {
            return Err("unbounded event stream".into());
        }
    }
    let before = log.get();
    for _ in 0..3 {
        if let Some(e) = events.next() {
            return Err(format!("{e:?} after the end (error: {:?})", t.err));
        }
    }
    if log.get() != before {
        return Err("the source is read after the end of the stream".into());
    }
    let (calls, fails, ints) = log.get();
    Ok(Got { t, io, behind: hind, calls, fails, ints, taken })
}

/// What an error has behind it
#[derive(Default)]
struct Behind {
    io: Option<(io::ErrorKind, Option<u64>)>,
    utf8: Option<std::str::Utf8Error>,
}

fn behind(e: &yary::Error) -> Behind {
    let mut b = Behind::default();
    let mut at = std::error::Error::source(e);
    for _ in 0..8 {
        let Some(x) = at else { break };
        if let Some(x) = x.downcast_ref::<io::Error>() {
            b.io = Some((x.kind(), x.get_ref().and_then(|p| p.downcast_ref::<Payload>()).map(|p| p.0)));
        }
        if let Some(x) = x.downcast_ref() {
            b.utf8 = Some(*x);
        }
        at = x.source();
    }
    b
}

fn as_io(e: yary::Error) -> Result<(io::ErrorKind, Option<u64>, String), String> {
    let text = format!("{e}");
    if text.is_empty() || format!("{e:?}").is_empty() {
        return Err("an error without a text".into());
    }
    let i = io::Error::from(e);
    let id = i.get_ref().and_then(|e| e.downcast_ref::<Payload>()).map(|p| p.0);
    Ok((i.kind(), id, i.to_string()))
}

/// What the category calls for
fn kind_of(f: &Fault) -> Option<io::ErrorKind> {
    match f.cat {
        Cat::Syntax => Some(io::ErrorKind::InvalidInput),
        Cat::Data => Some(io::ErrorKind::InvalidData),
        Cat::Eof => Some(io::ErrorKind::UnexpectedEof),
        Cat::Io => None,
    }
}

fn own_error(cx: &mut Ctx, got: &Got) -> Verdict {
    let (Some(f), Some((k, _, text))) = (&got.t.err, &got.io) else { return Ok(()) };
    let Some(want) = kind_of(f) else { return Err(format!("{f:?} is an I/O error, and the source raised none")) };
    if *k != want {
        return Err(format!("{f:?} converts to {k:?}, not {want:?}"));
    }
    if *text != f.msg {
        return Err(format!("{f:?} converts to an error which reads {text:?}"));
    }
    cx.feat(&format!("as {k:?}"));
    Ok(())
}

fn prefix(want: &Trace, got: &Trace) -> Verdict {
    let n = got.ev.len();
    if n > want.ev.len() || want.ev[..n] != got.ev[..] {
        return Err(format!("not a prefix of the events of the sound text: {}", ev::diff(&want.ev, &got.ev)));
    }
    Ok(())
}

fn source(r: &mut Rng, data: &[u8]) -> Source {
    Source { data: data.to_vec(), pos: 0, sizes: work::sizes(r), turn: 0, fail: None, interrupts: vec![], log: Default::default(), at: Default::default() }
}

fn io_fault(cx: &mut Ctx, r: &mut Rng, s: &str, at: usize, lazy: bool, want: &Trace) -> Verdict {
    let kind = *r.pick(KINDS);
    let id = r.next();
    let mut src = source(r, s.as_bytes());
    src.fail = Some((at, kind, id));
    // The same without the fault
    let sound = Source { data: src.data.clone(), pos: 0, sizes: src.sizes.clone(), turn: 0, fail: None, interrupts: vec![], log: Default::default(), at: Default::default() };
    let got = run(src, lazy)?;
    cx.eval();
    cx.add("reads", got.calls);
    prefix(want, &got.t)?;
    if got.fails == 0 {
        // The stream came to an end of its own before
        if want.err.is_none() {
            return Err(format!("the source was not read to its end (offset {at} of {})", s.len()));
        }
        if got.t.err != want.err || got.t.ev.len() != want.ev.len() {
            return Err(format!("ended in {:?}, not in {:?}", got.t.err, want.err));
        }
        return own_error(cx, &got);
    }
    cx.feat("io fault");
    let Some((k, p, _)) = &got.io else { return Err(format!("the source failed at offset {at} of {}, the stream ended cleanly", s.len())) };
    let f = got.t.err.as_ref().unwrap();
    if f.cat != Cat::Io {
        return Err(format!("the source failed at offset {at}, the error is {f:?}"));
    }
    if *k != kind {
        return Err(format!("a source error of kind {kind:?} is reported as {k:?}"));
    }
    if *p != Some(id) {
        return Err("the source's error has lost its payload".into());
    }
    if !f.msg.contains(&format!("payload {id}")) {
        return Err(format!("the source's error reads {:?}", f.msg));
    }
    if got.behind.io != Some((kind, Some(id))) {
        return Err(format!("the source's error ({kind:?}) is not among those behind the stream's: {:?}", got.behind.io));
    }
    cx.feat("payload kept");
    // What did not need what the source failed to give is not lost
    if at > 8000 || r.pct(20) {
        let sound = run(sound, lazy)?;
        let n = sound.taken.iter().take_while(|t| **t < at).count();
        if got.t.ev.len() < n {
            return Err(format!("the source failed at offset {at}: {} events, where {n} precede the fault", got.t.ev.len()));
        }
        cx.add("events which precede a fault", n as u64);
    }
    if got.t.ev.len() > 1 {
        cx.feat("fault after refills");
    }
    Ok(())
}

const BAD: &[&[u8]] = &[
    b"\x80", b"\xbf", b"\xc0", b"\xc1", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xe4", b"\xe4\xb8", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0", b"\xf0\x9f", b"\xf0\x9f\x98", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff", b"\xff\xfe", b"\xfe\xff", b"\xc3\xc3", b"\xe4\xc3", b"\xf0\x9f\xc3", b"\x80\x80\x80",
];

fn encoding(cx: &mut Ctx, r: &mut Rng, s: &str, at: usize, lazy: bool, want: &Trace) -> Verdict {
    let mut at = at;
    while !s.is_char_boundary(at) {
        at -= 1;
    }
    let mut b = s.as_bytes().to_vec();
    if r.pct(30) && at < b.len() {
        // In place of what is there
        let n = r.pick(BAD);
        b.splice(at..at + s[at..].chars().next().unwrap().len_utf8(), n.iter().copied());
    } else if r.pct(15) {
        // Cut within a character
        let c: char = *r.pick(&['é', '中', '😀', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}']);
        let mut t = [0; 4];
        let t = c.encode_utf8(&mut t).as_bytes().to_vec();
        b.truncate(at);
        b.extend_from_slice(&t[..r.range(1, t.len() - 1)]);
        cx.feat("incomplete at the end");
    } else {
        let n = r.pick(BAD);
        b.splice(at..at, n.iter().copied());
    }
    if std::str::from_utf8(&b).is_ok() {
        return Err("harness: the text is valid".into());
    }
    cx.input(&b);

    match try_from_bytes(&b) {
        Ok(_) => return Err("bytes which are not UTF8 are accepted".into()),
        Err(e) => {
            let f = ev::fault(&e);
            let want = std::str::from_utf8(&b).err();
            let got = behind(&e).utf8;
            if got != want {
                return Err(format!("behind the error is {got:?}, not {want:?}"));
            }
            let (k, _, _) = as_io(e)?;
            if f.cat != Cat::Data || k != io::ErrorKind::InvalidData {
                return Err(format!("bytes which are not UTF8 are {f:?}, {k:?}"));
            }
        }
    }
    cx.eval();
    cx.feat("invalid UTF8 in bytes");

    let got = run(source(r, &b), lazy)?;
    cx.eval();
    prefix(want, &got.t)?;
    match (&got.t.err, &got.io) {
        (Some(Fault { cat: Cat::Data, .. }), Some((io::ErrorKind::InvalidData, _, _))) if got.behind.utf8.is_some() => {
            cx.feat("invalid UTF8 in io");
            cx.feat("as InvalidData");
            if got.t.ev.len() > 1 {
                cx.feat("fault after refills");
            }
            Ok(())
        }
        // A fault of the text which comes first
        (e, _) if e.is_some() && *e == want.err && got.t.ev.len() == want.ev.len() => own_error(cx, &got),
        (e, k) => Err(format!("the source is not UTF8 at offset {at}, the stream ended in {e:?} ({k:?})")),
    }
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let (s, _) = if r.pct(75) { (work::valid(r), "") } else { work::any(r) };
    let lazy = r.pct(50);
    if lazy {
        cx.feat("mode lazy");
    }
    let sweep = cx.idx % 50 == 49;
    if sweep {
        let s = if s.len() > 200 { r.pick(work::CORPUS).to_string() } else { s };
        cx.input(&s);
        let want = ev::run_str(&s, lazy)?;
        for at in 0..=s.len() {
            io_fault(cx, r, &s, at, lazy, &want)?;
            cx.feat("io fault swept");
            encoding(cx, r, &s, at, lazy, &want)?;
            cx.input(&s);
        }
        cx.distinct(hash_bytes(s.as_bytes()));
        return Ok(());
    }
    // What goes before, so that faults come to lie about chunk boundaries
    let (s, at) = if r.pct(30) {
        let at = r.below(s.len() + 1);
        let n = *r.pick(&[8192usize, 8192, 16384, 24576]);
        let pad = work::pad(*r.pick(&["docs", "seq", "comments", "blanks", "docs", "wide-comment"]), n.saturating_sub(at + r.below(3)));
        cx.feat("fault at a boundary");
        (pad.clone() + &s, pad.len() + at)
    } else {
        let at = r.below(s.len() + 1);
        (s, at)
    };
    cx.input(&s);
    let want = ev::run_str(&s, lazy)?;
    cx.distinct(hash_bytes(format!("{at}{s}").as_bytes()));
    match cx.idx % 4 {
        0 => io_fault(cx, r, &s, at, lazy, &want)?,
        1 | 2 => encoding(cx, r, &s, at, lazy, &want)?,
        _ => {
            let mut src = source(r, s.as_bytes());
            src.interrupts = (0..r.range(1, 5)).map(|_| r.below(s.len() + 1)).collect();
            src.interrupts.push(at);
            let got = run(src, lazy)?;
            cx.eval();
            cx.add("interrupted", got.ints);
            if got.t.ev != want.ev {
                return Err(format!("(interrupted) {}", ev::diff(&want.ev, &got.t.ev)));
            }
            if got.t.err != want.err {
                return Err(format!("interrupted, the stream ended in {:?}, not in {:?}", got.t.err, want.err));
            }
            own_error(cx, &got)?;
        }
    }
    cx.sample(|| format!("offset {at}: {}", show(s.as_bytes())));
    Ok(())
}
