//! However a stream is iterated, and whatever else is going on, it gives
//! the same events.

use yary::event::flag::{Flags, O_LAZY, O_NIL};
use yary::event::types::{Event, EventData, ScalarLike};
use yary::event::{from_reader, from_reader_with, EventIter, EventIterRef, Events};
use yary::reader::{borrow::BorrowReader, from_read, from_utf8, owned::OwnedReader, try_from_bytes, Read};

use super::show;
use crate::ev::{self, Cat, Ev, Script, Trace};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P13",
    rule: "Each case runs several event streams in one process, in random turns: over one reader (or its clones), over readers of the same text, over readers of other texts, eager and lazy, made in every way there is, each iterated by a random mixture of iter, into_iter and into_inner, hand made iterators and adaptors (nth, by_ref, take, size_hint), some abandoned, with deferred scalars evaluated at random later times by every way of evaluating. Each must give what one uninterrupted pass gives, by event, mark and error, and stay ended. An owned reader serves the stream which first gives an event, and refuses all others with an I/O error, which changes nothing for the first, even where its source fails. Non-trivial: distinct text of more than 4 events iterated in at least 3 ways.",
    case,
    cases: (250_000, 2_500_000),
    cpu: 30,
    need: &["iter", "iter_ref", "into_iter", "nth", "take", "by_ref", "moved", "finished by fold", "abandoned", "same reader", "cloned reader", "owned reader", "second stream refused", "unused stream does not bind", "iterator which is not asked", "late evaluation", "failed evaluation", "after the end", "failing source", "threads", "stream in error"],
    level: "exploration",
};

fn make<'de, R: Read>(r: &mut Rng, src: &'de R, lazy: bool) -> Events<'de, R> {
    if !lazy && r.pct(15) {
        return from_reader(src);
    }
    // Whichever way the flags came about
    let mut f = *r.pick(&[O_NIL, O_LAZY, Flags::new(), Flags::default()]);
    for _ in 0..r.below(4) {
        f = match r.below(5) {
            0 => f.lazy(),
            1 => f.no_lazy(),
            2 => f.nil(),
            3 => f | O_LAZY,
            _ => f | O_NIL,
        };
    }
    // The last step settles it
    f = match (lazy, r.below(3)) {
        (true, 0) => f.lazy(),
        (true, 1) => f.nil().lazy(),
        (true, _) => f | O_LAZY,
        (false, 0) => f.no_lazy(),
        (false, 1) => f.nil(),
        (false, _) => f.lazy().no_lazy(),
    };
    if r.pct(50) {
        Events::new(src, f)
    } else {
        from_reader_with(src, f)
    }
}

/// Evaluate an event's scalar in some way, and compare the event
fn judge(r: &mut Rng, mut e: Event<'_>, i: usize, want: &Trace, saw: &mut Vec<&'static str>) -> Verdict {
    if (e.start(), e.end()) != want.marks[i] {
        return Err(format!("event #{i} lies at {:?}, but at {:?} in one pass", (e.start(), e.end()), want.marks[i]));
    }
    let want = &want.ev[i];
    if let EventData::Scalar(n) = e.data_mut() {
        let s = &mut n.content;
        if s.is_evaluated() == s.is_unevaluated() || s.is_unevaluated() != matches!(s, ScalarLike::Lazy(_)) {
            return Err(format!("event #{i} is neither evaluated nor deferred, or both"));
        }
        let got = match r.below(5) {
            0 => s.clone().evaluate().map(|s| (s.data().to_string(), s.style())),
            1 => {
                let mut c = s.clone();
                let a = c.evaluate_by_ref().map(|s| (s.to_string(), s.style()));
                if c.is_unevaluated() {
                    return Err(format!("event #{i} stays deferred once evaluated in place"));
                }
                match (a, c.evaluate_by_ref().map(|s| (s.as_ref().to_string(), s.style()))) {
                    (Ok(a), Ok(b)) if a == b => Ok(a),
                    (Ok(a), b) => return Err(format!("event #{i} evaluates to {a:?}, and then to {b:?}")),
                    (Err(e), Ok(b)) if b.0.is_empty() => Err(e),
                    (Err(e), b) => return Err(format!("event #{i} fails to evaluate ({e}), and then is {b:?}")),
                }
            }
            2 => match s.clone() {
                ScalarLike::Lazy(l) => l.evaluate(),
                ScalarLike::Eager(s) => Ok(s),
            }
            .map(|mut s| (s.data_mut().to_string(), s.style())),
            3 => {
                let (a, b) = (s.clone().evaluate(), s.clone().evaluate());
                match (a, b) {
                    (Ok(a), Ok(b)) if a == b && &*a == b.as_ref() => Ok((b.to_string(), a.style())),
                    (Err(e), Err(f)) if e.classify() == f.classify() && e.to_string() == f.to_string() => Err(e),
                    (a, b) => return Err(format!("event #{i} evaluates to {a:?}, its clone to {b:?}")),
                }
            }
            _ => std::mem::take(s).evaluate().map(|s| (s.data().clone().into_owned(), s.style())),
        };
        let (kind, props) = match want {
            Ev::Scalar { props, kind, data, style } => {
                match got {
                    Ok((d, s)) if d == *data && ev::style(s) == *style => {}
                    _ => return Err(format!("event #{i} is {got:?}, and {want:?} in one pass")),
                }
                (kind, props)
            }
            Ev::BadScalar { props, kind, fault } => {
                match got {
                    Err(e) if ev::fault(&e) == *fault => saw.push("failed evaluation"),
                    _ => return Err(format!("event #{i} is {got:?}, and {want:?} in one pass")),
                }
                (kind, props)
            }
            _ => return Err(format!("event #{i} is a scalar, and {want:?} in one pass")),
        };
        // The rest of the event
        n.content = ScalarLike::empty();
        let want = Ev::Scalar { props: props.clone(), kind: *kind, data: "".into(), style: ev::Style::Plain };
        let (got, _, _) = ev::convert(e.data());
        if got != want {
            return Err(format!("event #{i} has {got:?}, and {want:?} in one pass"));
        }
        return Ok(());
    }
    let (got, _, _) = ev::convert(e.data());
    if got != *want {
        return Err(format!("event #{i} is {got:?}, and {want:?} in one pass"));
    }
    Ok(())
}

trait Step {
    /// Take a step, and return if there is more to come
    fn step(&mut self, r: &mut Rng, saw: &mut Vec<&'static str>) -> Result<bool, String>;
    fn used(&self) -> usize;
}

struct Walk<'de, 'w, R> {
    ev: Option<Events<'de, R>>,
    at: usize,
    want: &'w Trace,
    kept: Vec<(usize, Event<'de>)>,
    name: String,
    lazy: bool,
}

impl<'de, R: Read> Walk<'de, '_, R> {
    fn total(&self) -> usize {
        self.want.ev.len() + self.want.err.is_some() as usize
    }

    /// Take note of the next item
    fn item(&mut self, r: &mut Rng, x: Option<Result<Event<'de>, yary::Error>>, saw: &mut Vec<&'static str>) -> Verdict {
        let i = self.at;
        match x {
            Some(Ok(e)) => {
                if i >= self.want.ev.len() {
                    return Err(format!("event #{i} is {:?}, there is none in one pass ({:?})", e.data(), self.want.err));
                }
                self.at += 1;
                if let EventData::Scalar(n) = e.data() {
                    if !self.lazy && n.content.is_unevaluated() {
                        return Err(format!("event #{i} of an eager stream is deferred"));
                    }
                }
                if r.pct(30) {
                    self.kept.push((i, e));
                } else {
                    judge(r, e, i, self.want, saw)?;
                }
            }
            Some(Err(e)) => {
                let f = ev::fault(&e);
                if i != self.want.ev.len() || self.want.err.as_ref() != Some(&f) {
                    return Err(format!("after {i} events: {f:?}, in one pass {} and then {:?}", self.want.ev.len(), self.want.err));
                }
                saw.push("stream in error");
                self.at += 1;
            }
            None => {
                if i < self.total() {
                    return Err(format!("ended after {i} of {} events ({:?})", self.want.ev.len(), self.want.err));
                }
                saw.push("after the end");
            }
        }
        Ok(())
    }

    fn hint(&self, h: (usize, Option<usize>)) -> Verdict {
        let left = self.total() - self.at;
        if h.0 > left || h.1.is_some_and(|m| m < left) {
            return Err(format!("{left} items are left after {}, size_hint says {h:?}", self.at));
        }
        Ok(())
    }

    fn go(&mut self, r: &mut Rng, saw: &mut Vec<&'static str>) -> Verdict {
        let Some(mut ev) = self.ev.take() else { return Ok(()) };
        let k = if r.pct(60) { r.range(1, 3) } else { r.range(1, 20) };
        match r.below(12) {
            0 | 1 => {
                saw.push("iter");
                let mut v = vec![];
                let mut it = ev.iter();
                self.hint(it.size_hint())?;
                for _ in 0..k {
                    v.push(it.next());
                }
                self.ev = Some(ev);
                for x in v {
                    self.item(r, x, saw)?;
                }
            }
            2 => {
                saw.push("iter_ref");
                for _ in 0..k {
                    let x = EventIterRef::new(&mut ev).next();
                    self.item(r, x, saw)?;
                }
                self.ev = Some(ev);
            }
            3 | 4 => {
                saw.push("into_iter");
                let mut it = if r.pct(50) { ev.into_iter() } else { EventIter::new(ev) };
                self.hint(it.size_hint())?;
                for _ in 0..k {
                    let x = it.next();
                    self.item(r, x, saw)?;
                }
                self.ev = Some(it.into_inner());
            }
            5 => {
                saw.push("take");
                let v: Vec<_> = ev.iter().take(k).collect();
                let short = v.len() < k;
                for x in v {
                    self.item(r, Some(x), saw)?;
                }
                if short {
                    self.item(r, None, saw)?;
                }
                self.ev = Some(ev);
            }
            6 => {
                saw.push("nth");
                // Passes over k events
                let x = ev.iter().nth(k);
                self.at = (self.at + k).min(self.total());
                self.item(r, x, saw)?;
                self.ev = Some(ev);
            }
            7 => {
                saw.push("by_ref");
                let mut it = ev.into_iter();
                let n = it.by_ref().take(k).filter(|x| x.is_ok()).count();
                let left = self.want.ev.len().saturating_sub(self.at);
                if n != left.min(k) {
                    return Err(format!("{n} events were counted, of {left} left, up to {k}"));
                }
                self.at = (self.at + k).min(self.total());
                self.ev = Some(it.into_inner());
            }
            8 => {
                saw.push("moved");
                let mut b = Box::new(ev);
                let x = b.iter().next();
                self.item(r, x, saw)?;
                let mut v = vec![*b];
                v.reserve(10);
                let x = v[0].iter().next();
                self.item(r, x, saw)?;
                self.ev = v.pop();
            }
            9 => {
                saw.push("into_iter");
                let mut it = ev.into_iter();
                let x = it.find(|x| !matches!(x, Ok(e) if matches!(e.data(), EventData::StreamStart(_) | EventData::DocumentStart(_) | EventData::SequenceStart(_))));
                while self.at < self.want.ev.len() && matches!(self.want.ev[self.at], Ev::StreamStart | Ev::DocStart { .. } | Ev::SeqStart { .. }) {
                    self.at += 1;
                }
                self.item(r, x, saw)?;
                self.ev = Some(it.into_inner());
            }
            10 if r.pct(20) => {
                saw.push("finished by fold");
                let v = ev.into_iter().fold(vec![], |mut v, x| {
                    v.push(x);
                    v
                });
                for x in v {
                    self.item(r, Some(x), saw)?;
                }
                self.item(r, None, saw)?;
            }
            10 => {
                // Does not take from the stream
                let _ = ev.iter();
                let it = ev.into_iter();
                self.ev = Some(it.into_inner());
            }
            _ => {
                let mut it = ev.iter();
                for _ in 0..k * 3 {
                    let x = it.next();
                    self.item(r, x, saw)?;
                }
                self.ev = Some(ev);
            }
        }
        Ok(())
    }
}

impl<R: Read> Step for Walk<'_, '_, R> {
    fn step(&mut self, r: &mut Rng, saw: &mut Vec<&'static str>) -> Result<bool, String> {
        let from = self.at;
        self.go(r, saw).map_err(|e| format!("{}, from #{from}: {e}", self.name))?;
        let over = self.ev.is_none() || self.at >= self.total() && r.pct(60);
        if over && r.pct(50) {
            self.ev = None;
        }
        while !self.kept.is_empty() && (over || r.pct(20)) {
            let k = r.below(self.kept.len());
            let (i, e) = self.kept.swap_remove(k);
            saw.push("late evaluation");
            judge(r, e, i, self.want, saw).map_err(|e| format!("{} (judged after {} events): {e}", self.name, self.at))?;
        }
        if !over && r.pct(2) {
            saw.push("abandoned");
            self.ev = None;
        }
        Ok(self.ev.is_some() && !over)
    }
    fn used(&self) -> usize {
        self.at
    }
}

fn walk<'de, 'w, R: Read>(r: &mut Rng, name: &str, src: &'de R, lazy: bool, want: &'w [Trace; 2]) -> Walk<'de, 'w, R> {
    Walk { ev: Some(make(r, src, lazy)), at: 0, want: &want[lazy as usize], kept: vec![], name: format!("{name}{}", if lazy { " (lazy)" } else { "" }), lazy }
}

fn text(r: &mut Rng) -> String {
    if r.pct(12) {
        // With a boundary of chunks in it
        let s = work::any(r).0;
        let at = r.below(s.len().min(8192) + 1);
        return work::pad(*r.pick(work::PADS), 8192 - at) + &s;
    }
    work::any(r).0
}

/// Streams in turns
fn turns(r: &mut Rng, mut all: Vec<Box<dyn Step + '_>>, saw: &mut Vec<&'static str>) -> Verdict {
    while !all.is_empty() {
        let k = r.below(all.len());
        if !all[k].step(r, saw)? {
            all.swap_remove(k);
        }
    }
    Ok(())
}

fn borrowed(r: &mut Rng, s: &str, want: &[Trace; 2], t: &str, other: &[Trace; 2], saw: &mut Vec<&'static str>) -> Verdict {
    let a = from_utf8(s);
    let b = a.clone();
    let c = BorrowReader::new(s);
    let d = try_from_bytes(s.as_bytes()).map_err(|e| format!("UTF8 was refused: {e}"))?;
    let e = from_utf8(t);
    let o = from_read(Script::new(s.as_bytes()).sizes(work::sizes(r)));
    let p = from_read(Script::new(t.as_bytes()).sizes(work::sizes(r)));
    let mut owned = (false, false);
    let mut all: Vec<Box<dyn Step + '_>> = vec![];
    for _ in 0..r.range(1, 5) {
        let lazy = r.pct(50);
        match r.below(8) {
            0 | 1 | 2 => {
                saw.push("same reader");
                all.push(Box::new(walk(r, "stream of the reader", &a, lazy, want)))
            }
            3 => {
                saw.push("cloned reader");
                all.push(Box::new(walk(r, "stream of the reader's clone", &b, lazy, want)))
            }
            4 => all.push(Box::new(walk(r, "stream of a second reader", &c, lazy, want))),
            5 => all.push(Box::new(walk(r, "stream of bytes", &d, lazy, want))),
            6 => all.push(Box::new(walk(r, "stream of another text", &e, lazy, other))),
            _ if r.pct(50) && !owned.0 => {
                owned.0 = true;
                saw.push("owned reader");
                all.push(Box::new(walk(r, "stream of an owned reader", &o, lazy, want)))
            }
            _ if !owned.1 => {
                owned.1 = true;
                all.push(Box::new(walk(r, "stream of another owned reader", &p, lazy, other)))
            }
            _ => {}
        }
    }
    turns(r, all, saw)
}

/// Streams of one owned reader: the first to give an event has it
fn owned(r: &mut Rng, s: &str, want: &[Trace; 2], saw: &mut Vec<&'static str>) -> Verdict {
    // At times one whose source fails, once, or is not UTF8
    let sizes = work::sizes(r);
    let mut data = s.as_bytes().to_vec();
    let mut faults = vec![];
    if r.pct(25) {
        let at = r.below(data.len() + 1);
        if at < data.len() && r.pct(40) {
            data[at] = 0xff;
        } else {
            faults.push((at, *r.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::WouldBlock, std::io::ErrorKind::UnexpectedEof])));
        }
        saw.push("failing source");
    }
    let source = || {
        let mut x = Script::new(&data).sizes(sizes.clone());
        x.faults = faults.clone();
        x
    };
    let failing = [ev::run_read(source(), false, data.len())?, ev::run_read(source(), true, data.len())?];
    let want = if saw.contains(&"failing source") { &failing } else { want };
    let o: OwnedReader = from_read(source());
    let n = r.range(1, 4);
    let first = r.below(n);
    let mut lazies = vec![];
    let mut v: Vec<Option<Events<'_, OwnedReader>>> = (0..n)
        .map(|_| {
            let lazy = r.pct(50);
            lazies.push(lazy);
            Some(make(r, &o, lazy))
        })
        .collect();
    if r.pct(20) {
        for i in 0..n {
            if i != first && r.pct(50) {
                // Used for nothing
                v[i] = None;
                saw.push("unused stream does not bind");
            }
        }
    }
    if first > 0 {
        saw.push("unused stream does not bind");
    }
    // As long as nothing is asked for, nothing is taken
    for e in v.iter_mut() {
        for _ in 0..r.below(3) {
            let Some(mut x) = e.take() else { break };
            saw.push("iterator which is not asked");
            *e = Some(match r.below(6) {
                0 => {
                    drop(x.iter());
                    x
                }
                1 => x.into_iter().into_inner(),
                2 => {
                    let n = x.iter().take(0).count();
                    if n != 0 {
                        return Err(format!("{n} events were taken of 0"));
                    }
                    x
                }
                3 => {
                    let h = EventIterRef::new(&mut x).size_hint();
                    if h.1 == Some(0) {
                        return Err(format!("a stream to be started has {h:?} events left"));
                    }
                    x
                }
                4 => {
                    let _ = x.iter().peekable();
                    let _ = x.iter().fuse().enumerate();
                    x
                }
                _ => {
                    let it = EventIter::new(x);
                    if format!("{it:?}").is_empty() {
                        return Err("an iterator shows nothing".into());
                    }
                    it.into_inner()
                }
            });
        }
    }
    let lazy = lazies[first];
    let mut w = Walk { ev: v[first].take(), at: 0, want: &want[lazy as usize], kept: vec![], name: format!("first stream of an owned reader{}", if lazy { " (lazy)" } else { "" }), lazy };
    let mut more = w.step(r, saw)?;
    if w.used() == 0 {
        return Ok(());
    }
    let mut refused = |r: &mut Rng, e: &mut Events<'_, OwnedReader>| -> Verdict {
        match e.iter().next() {
            Some(Err(e)) if ev::cat(e.classify()) == Cat::Io => {}
            x => return Err(format!("a second stream of an owned reader gave {x:?}")),
        }
        for _ in 0..r.below(3) {
            if let Some(x) = e.iter().next() {
                return Err(format!("a second stream of an owned reader gave {x:?} after it was refused"));
            }
        }
        saw.push("second stream refused");
        Ok(())
    };
    let mut seen2 = vec![];
    loop {
        match r.below(3) {
            0 => {
                if let Some(e) = v.iter_mut().flatten().next() {
                    refused(r, e)?;
                }
                if let Some(i) = v.iter().position(|x| x.is_some()) {
                    v[i] = None;
                }
            }
            1 => {
                let lazy = r.pct(50);
                let mut e = make(r, &o, lazy);
                if r.pct(70) {
                    refused(r, &mut e)?;
                }
            }
            _ => {}
        }
        if !more {
            break;
        }
        more = w.step(r, &mut seen2)?;
    }
    saw.append(&mut seen2);
    drop(w);
    // Nor when the first has ended
    let lazy = r.pct(50);
    let mut e = make(r, &o, lazy);
    match e.iter().next() {
        Some(Err(e)) if ev::cat(e.classify()) == Cat::Io => Ok(()),
        x => Err(format!("a stream of an owned reader whose stream has ended gave {x:?}")),
    }
}

fn threads(r: &mut Rng, s: &str, want: &[Trace; 2], t: &str, other: &[Trace; 2]) -> Verdict {
    let shared = from_utf8(s);
    let seeds: Vec<u64> = (0..4).map(|_| r.next()).collect();
    std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|n| {
                let shared = &shared;
                sc.spawn(move || {
                    let mut r = Rng::new(*n);
                    let mut saw = vec![];
                    let own = from_utf8(t);
                    let lazy = r.pct(50);
                    let a = walk(&mut r, "stream of a reader shared by threads", shared, lazy, want);
                    let b = walk(&mut r, "stream of a reader of one thread", &own, lazy, other);
                    turns(&mut r, vec![Box::new(a), Box::new(b)], &mut saw)
                })
            })
            .collect();
        for h in hs {
            h.join().map_err(|_| "panicked in a thread".to_string())??;
        }
        Ok(())
    })
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let s = text(r);
    let t = work::any(r).0;
    cx.input(&s);
    let want = [ev::run_str(&s, false)?, ev::run_str(&s, true)?];
    let other = [ev::run_str(&t, false)?, ev::run_str(&t, true)?];
    let mut saw = vec![];
    if r.pct(25) {
        owned(r, &s, &want, &mut saw)?;
    } else {
        borrowed(r, &s, &want, &t, &other, &mut saw)?;
    }
    if cx.idx % 64 == 5 {
        saw.push("threads");
        threads(r, &s, &want, &t, &other)?;
    }
    cx.eval();
    let mut ways = saw.clone();
    ways.sort();
    ways.dedup();
    for f in saw {
        cx.feat(f);
    }
    cx.add("events", want[0].ev.len() as u64);
    if want[0].ev.len() > 4 && ways.len() >= 3 {
        cx.distinct(hash_bytes(s.as_bytes()));
    }
    cx.sample(|| show(s.as_bytes()));
    Ok(())
}
