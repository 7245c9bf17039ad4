//! Memory: what was handed out stays what it was for as long as the
//! types allow it to be held, and everything is released in the end.

use std::cell::{Cell, RefCell};
use std::io::{self, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use yary::event::types::{Event, EventData};
use yary::event::{from_reader_with, Events};
use yary::reader::owned::OwnedReader;
use yary::reader::{from_read, from_utf8};

use crate::alloc;
use crate::ev::{self, Ev, Trace};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P02",
    rule: "Each case keeps the events of a stream, deferred scalars included, while the reader goes through further chunks of its source (with short reads, errors, bytes which are not UTF8, panics, sources which call back into the reader, and such which claim to have given more than they were asked for), the iterator and then the event stream are dropped, and memory is churned; every kept event is then read, in random order and by every way of evaluation, against what it was on delivery and what a &str source gives. Run under an allocator which overwrites freed and resized memory and counts what is left, under AddressSanitizer, and under Miri. Non-trivial: distinct text whose events were kept over at least two refills.",
    case,
    cases: (32_000, 600_000),
    cpu: 60,
    need: &["kept over a refill", "deferred kept over a refill", "source panicked", "source failed", "source lied", "source not UTF8", "reentrant source", "source with lulls", "stream dropped before its events", "memory all released", "src str", "build asan", "build miri"],
    level: "exploration",
};

/// What a source does besides serving its data
struct Source {
    data: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    turn: usize,
    fail_at: Option<usize>,
    panics: bool,
    /// say to have given so much more than it did, once
    lies: Option<usize>,
    lied: Rc<Cell<bool>>,
    kind: io::ErrorKind,
    refills: Rc<Cell<usize>>,
    /// pretend to be at the end after so many bytes, for a while
    lulls: Option<usize>,
    since: usize,
    /// the reader which reads from this
    me: Option<Rc<RefCell<Option<Rc<OwnedReader>>>>>,
    called: Rc<Cell<usize>>,
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(me) = &self.me {
            let r = me.borrow().clone();
            if let Some(r) = r {
                self.called.set(self.called.get() + 1);
                let mut n = 0;
                for e in from_reader_with(&*r, ev::flags(self.called.get() % 2 == 0)) {
                    n += 1;
                    if e.is_err() || n > 3 {
                        break;
                    }
                }
            }
        }
        if self.fail_at.is_some_and(|at| self.pos >= at) {
            self.fail_at = None;
            if let Some(more) = self.lies {
                self.lied.set(true);
                return Ok(buf.len() + more);
            }
            if self.panics {
                panic!("source panicked");
            }
            return Err(io::Error::new(self.kind, "injected"));
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some(l) = self.lulls {
            if self.since >= l {
                self.since = 0;
                return Ok(0);
            }
            n = n.min(l - self.since);
        }
        if let Some(at) = self.fail_at {
            n = n.min(at.max(self.pos) - self.pos);
        }
        if !self.sizes.is_empty() {
            n = n.min(self.sizes[self.turn % self.sizes.len()].max(1));
            self.turn += 1;
        }
        if self.fail_at.is_some() && n == 0 {
            n = 1.min(buf.len()).min(self.data.len() - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.since += n;
        self.refills.set(self.refills.get() + 1);
        Ok(n)
    }
}

/// A text of documents of all kinds, over several chunks
fn text(r: &mut Rng, len: usize, odd: bool) -> String {
    let mut s = String::new();
    let odd = odd || r.pct(20);
    while s.len() < len {
        let t = match r.below(10) {
            0 => work::pad(*r.pick(work::PADS), r.below(len / 2 + 60)),
            1 => r.pick(work::CORPUS).to_string(),
            2 if odd => work::any(r).0,
            2 => work::rich(r),
            3 | 4 => work::valid(r),
            _ => work::small(r),
        };
        // What cannot be read by itself would end the stream
        if !odd && !ev::run_str(&t, true).is_ok_and(|t| t.ok()) {
            continue;
        }
        s.push_str(&t);
        if !odd || r.pct(70) {
            s.push_str("\n...\n");
        }
    }
    s
}

fn same(e: &Event<'_>, was: &(usize, Ev), how: &str) -> Verdict {
    let (got, _, _) = ev::convert(e.data());
    if got == was.1 {
        return Ok(());
    }
    Err(format!("event #{} {how} is {got:?}, it was {:?}", was.0, was.1))
}

/// An event, with its index and what it was on delivery
type Kept<'de> = (Event<'de>, (usize, Ev));

fn churn(r: &mut Rng, junk: &mut Vec<Vec<u8>>) {
    for _ in 0..r.below(8) {
        let n = *r.pick(&[8usize, 24, 64, 200, 1000, 8192, 16384, 20000]);
        junk.push(vec![0xa5; n]);
    }
    if r.pct(50) {
        junk.clear();
    }
}

#[derive(Default)]
struct Saw {
    kept: usize,
    deferred: usize,
    refills: usize,
    panicked: bool,
    failed: bool,
    broken: bool,
    reentered: bool,
    lied: bool,
    early: bool,
}

/// Read every kept event, in some order
fn judge(r: &mut Rng, mut kept: Vec<Kept<'_>>, junk: &mut Vec<Vec<u8>>) -> Verdict {
    while !kept.is_empty() {
        let k = if r.pct(50) { kept.len() - 1 } else { r.below(kept.len()) };
        let (mut e, was) = kept.swap_remove(k);
        match r.below(4) {
            0 => same(&e.clone(), &was, "(a clone, at the end)")?,
            1 => {
                // In place
                if let EventData::Scalar(n) = e.data_mut() {
                    if n.content.evaluate_by_ref().is_ok() && n.content.is_unevaluated() {
                        return Err(format!("event #{} is still deferred once evaluated", was.0));
                    } else if !matches!(was.1, Ev::Scalar { .. }) {
                        continue;
                    }
                }
                same(&e, &was, "evaluated in place")?;
            }
            2 => {
                if r.pct(10) {
                    churn(r, junk);
                }
                same(&e, &was, "after others were dropped")?;
            }
            _ => same(&e, &was, "at the end")?,
        }
    }
    Ok(())
}

fn keep<'de, R: yary::reader::Read>(r: &mut Rng, events: Events<'de, R>, refills: &Cell<usize>, want: Option<&Trace>, junk: &mut Vec<Vec<u8>>, saw: &mut Saw) -> Result<Vec<Kept<'de>>, String> {
    let mut kept: Vec<Kept<'de>> = vec![];
    let mut at_refill = vec![];
    let mut events = events;
    let stop = if r.pct(20) { r.below(want.map_or(40, |w| w.ev.len()) + 1) } else { usize::MAX };
    let all = r.pct(70);
    let mut i = 0;
    let mut failures = 0;
    loop {
        if i >= stop {
            saw.early = true;
            break;
        }
        // By reference, or by value and back
        let x = catch_unwind(AssertUnwindSafe(|| events.iter().next()));
        let x = match x {
            Ok(x) => x,
            Err(_) => {
                saw.panicked = true;
                failures += 1;
                if failures > 4 {
                    break;
                }
                continue;
            }
        };
        match x {
            None => break,
            Some(Err(_)) => {
                saw.failed = true;
                failures += 1;
                if failures > 4 {
                    break;
                }
            }
            Some(Ok(e)) => {
                // After a panic what follows is not specified, but has
                // to be sound
                let was = ev::convert(e.data()).0;
                match want {
                    Some(w) if !saw.panicked && w.ev.get(i) != Some(&was) => {
                        return Err(format!("event #{i} on delivery is {was:?}, expected {:?}", w.ev.get(i)));
                    }
                    _ => {}
                }
                if all || r.pct(50) {
                    at_refill.push(refills.get());
                    if matches!(e.data(), EventData::Scalar(n) if n.content.is_unevaluated()) && refills.get() > 0 {
                        saw.deferred += 1;
                    }
                    kept.push((e, (i, was)));
                }
                i += 1;
            }
        }
        if r.pct(3) {
            churn(r, junk);
        }
        if r.pct(2) && !kept.is_empty() {
            let (e, was) = r.pick(&kept);
            same(e, was, "while others followed")?;
        }
        if r.pct(1) && !kept.is_empty() {
            let k = r.below(kept.len());
            kept.swap_remove(k);
            at_refill.swap_remove(k);
        }
    }
    saw.refills = refills.get();
    saw.kept += at_refill.iter().filter(|n| **n < refills.get()).count();
    if saw.kept == 0 {
        saw.deferred = 0;
    }
    Ok(kept)
}

fn owned(r: &mut Rng, s: &str, lazy: bool, want: Option<&Trace>, lulls: Option<usize>, lies: bool, saw: &mut Saw) -> Verdict {
    let refills = Rc::new(Cell::new(0));
    let called = Rc::new(Cell::new(0));
    let me = if r.pct(15) { Some(Rc::new(RefCell::new(None))) } else { None };
    let fail = r.pct(30);
    let lied = Rc::new(Cell::new(false));
    let lies = if lies { Some(*r.pick(&[1, 2, 17, 1000, 8192, 1 << 20])) } else { None };
    let mut data = s.as_bytes().to_vec();
    if r.pct(12) && !data.is_empty() {
        // Bytes which are not UTF8
        let at = r.below(data.len());
        match r.below(4) {
            0 => data.truncate(at),
            1 => data[at] = 0xe2,
            _ => data[at] = 0xff,
        }
        saw.broken = std::str::from_utf8(&data).is_err();
        if !saw.broken {
            data = s.as_bytes().to_vec();
        }
    }
    let src = Source {
        data,
        pos: 0,
        sizes: work::sizes(r),
        turn: 0,
        fail_at: if fail { Some(r.below(s.len() + 1)) } else { None },
        panics: r.pct(40),
        lies,
        lied: lied.clone(),
        kind: *r.pick(&[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::Interrupted, io::ErrorKind::InvalidData]),
        refills: refills.clone(),
        lulls,
        since: 0,
        me: me.clone(),
        called: called.clone(),
    };
    let mut junk = vec![];
    let reader = Rc::new(from_read(src));
    if let Some(me) = &me {
        *me.borrow_mut() = Some(reader.clone());
    }
    let kept = keep(r, from_reader_with(&*reader, ev::flags(lazy)), &refills, want, &mut junk, saw)?;
    // The events are gone, the reader is not
    churn(r, &mut junk);
    let verdict = judge(r, kept, &mut junk);
    saw.reentered = called.get() > 0;
    saw.lied = lied.get();
    if let Some(me) = &me {
        // Break the cycle
        *me.borrow_mut() = None;
    }
    verdict
}

fn borrowed(r: &mut Rng, s: &str, lazy: bool, want: Option<&Trace>, saw: &mut Saw) -> Verdict {
    let mut junk = vec![];
    let none = Cell::new(0);
    let copy = s.to_string();
    let reader = from_utf8(&copy);
    let kept = keep(r, from_reader_with(&reader, ev::flags(lazy)), &none, want, &mut junk, saw)?;
    churn(r, &mut junk);
    judge(r, kept, &mut junk)
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let build = std::env::var("MON_BUILD").unwrap_or_else(|_| "native".into());
    cx.feat(&format!("build {build}"));
    let miri = build == "miri";
    let len = match r.below(10) {
        _ if miri => *r.pick(&[40, 100, 200]),
        0 => 60_000,
        1 | 2 => 30_000,
        3 => 2_000,
        _ => 12_000,
    };
    let mut s = text(r, len, miri);
    if miri && s.len() > 400 {
        let mut n = 400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    cx.input(&s);
    let lazy = r.pct(60);
    // A source which seems to end, and goes on, makes for small chunks. What
    // the reader makes of that is its own business
    let lulls = if miri { Some(r.range(1, 100)) } else if s.len() < 16_000 && r.pct(20) { Some(r.range(60, 600)) } else { None };
    // One which says to have given more than it was asked for may be answered
    // with a panic, or as though it had; not with what is not its own
    let lies = r.pct(8);
    let want = if lulls.is_some() || lies { None } else { Some(ev::run_str(&s, lazy)?) };
    let want = want.as_ref();
    if let Some(w) = want {
        cx.add("events", w.ev.len() as u64);
    } else {
        cx.feat(if lies { "source which may lie" } else { "source with lulls" });
    }
    cx.max("max input bytes", s.len() as u64);

    let str_too = r.pct(20);
    let mut saw = Saw::default();
    let (res, used) = alloc::measure(|| {
        alloc::poison(!miri);
        let res = catch_unwind(AssertUnwindSafe(|| {
            if str_too {
                borrowed(r, &s, lazy, want, &mut Saw::default())?;
            }
            owned(r, &s, lazy, want, lulls, lies, &mut saw)
        }));
        alloc::poison(false);
        res
    });
    cx.eval();
    match res {
        Ok(v) => v?,
        Err(e) => std::panic::resume_unwind(e),
    }
    // The messages of panics are kept by this thread
    if !saw.panicked && used.left != 0 {
        return Err(format!("{} bytes are not released once all is dropped", used.left));
    }
    if !saw.panicked {
        cx.feat("memory all released");
    }
    if str_too {
        cx.feat("src str");
        cx.eval();
    }
    cx.add("refills", saw.refills as u64);
    cx.add("kept over a refill", saw.kept as u64);
    cx.add("deferred kept over a refill", saw.deferred as u64);
    cx.add("source panicked", saw.panicked as u64);
    cx.add("source not UTF8", (saw.broken && saw.failed) as u64);
    cx.add("source lied", saw.lied as u64);
    cx.add("source failed", saw.failed as u64);
    cx.add("reentrant source", saw.reentered as u64);
    cx.add("stream stopped early", saw.early as u64);
    cx.feat("stream dropped before its events");
    cx.add("allocations", used.count);
    cx.max("max live bytes", used.peak);
    if saw.kept > 0 && saw.refills > 1 {
        cx.distinct(hash_bytes(s.as_bytes()));
    }
    cx.sample(|| super::show(s.as_bytes()));
    Ok(())
}
