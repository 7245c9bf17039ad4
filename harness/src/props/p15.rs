//! What reading takes, in memory, time and input, is bounded by what is
//! read.

use std::cell::Cell;
use std::io;
use std::rc::Rc;

use yary::event::types::EventData;
use yary::event::{from_reader_with, Events};
use yary::reader::{from_read, from_utf8, Read};

use super::{p14, show};
use crate::alloc::{self, Usage};
use crate::ev;
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P15",
    rule: "Each case grows a text, by repeating a random unit (documents, entries and pairs of block and flow collections, scalars' contents, names, tags, comments, nesting), and watches what reading its small and its large size take: with a borrowed source and events dropped as they come, the most memory held may grow with nesting and the largest scalar, or the longest run of white space, never with length; all memory allocated, and CPU time, grow in proportion (within a factor of 2, and of 6 in the best of several runs); scalars which are deferred and never evaluated allocate nothing for their contents; an io::Read is pulled no further ahead of the events than what was read, and 256 kB, even one which never ends; and all memory is given back. Non-trivial: distinct unit and way of growing, of which the large size gave over 100 events or 50 kB of content.",
    case,
    cases: (4_000, 60_000),
    cpu: 60,
    need: &["documents", "block entries", "block pairs", "explicit pairs", "flow entries", "flow pairs", "flow pairs, one line", "filler", "directives", "depth", "long and deep", "content", "content deferred", "names", "endless", "time", "time, owned", "mode lazy", "owned"],
    level: "exploration",
};

#[derive(Clone, Copy, Default, Debug)]
struct Seen {
    events: usize,
    ok: bool,
    content: usize,
    use_: Usage,
    cpu: u64,
}

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}

/// CPU time of this thread, in nanoseconds
fn cpu() -> u64 {
    extern "C" {
        fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec { s: 0, n: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}

fn drain<R: Read>(events: Events<'_, R>, evaluate: bool, x: &mut Seen) {
    x.ok = true;
    for e in events {
        match e {
            Ok(mut e) => {
                x.events += 1;
                if let EventData::Scalar(n) = e.data_mut() {
                    if n.content.is_unevaluated() && !evaluate {
                        continue;
                    }
                    match n.content.evaluate_by_ref() {
                        Ok(s) => x.content += s.data().len(),
                        Err(_) => x.ok = false,
                    }
                }
            }
            Err(_) => x.ok = false,
        }
    }
}

fn read(s: &str, lazy: bool, evaluate: bool) -> Seen {
    let mut x = Seen::default();
    let t = cpu();
    let (_, u) = alloc::measure(|| {
        let r = from_utf8(s);
        drain(from_reader_with(&r, ev::flags(lazy)), evaluate, &mut x);
    });
    x.cpu = cpu() - t;
    x.use_ = u;
    x
}

fn read_owned(s: &str, lazy: bool) -> Seen {
    let mut x = Seen::default();
    let d = io::Cursor::new(s.as_bytes().to_vec());
    let t = cpu();
    let (_, u) = alloc::measure(|| {
        let r = from_read(d);
        drain(from_reader_with(&r, ev::flags(lazy)), false, &mut x);
    });
    x.cpu = cpu() - t;
    x.use_ = u;
    x
}

const NODES: &[&str] = &["a", "'b c'", "\"d\"", "[]", "{}", "[e]", "{f: g}", "&h i", "!j k", "!!l [m]", "*n", "\"o\\n\"", "word word", "''", "-1", "é", "&p [q, r: s]", "{? t : u}", "!<v> w", "\"x\\\n y\"", "'it''s'", "http://z:80"];

fn node(r: &mut Rng) -> &'static str {
    r.pick(NODES)
}

/// How a text grows
struct Grow {
    name: &'static str,
    head: String,
    /// the head, once per unit
    nest: String,
    open: String,
    unit: String,
    tail: String,
    /// the tail, once per unit
    close: String,
    /// what is held grows with each unit
    deep: bool,
    /// all of it is one scalar
    scalar: bool,
}

impl Grow {
    fn text(&self, n: usize) -> String {
        let mut s = self.head.clone();
        let k = self.times(n);
        s.reserve(k * (self.nest.len() + self.unit.len() + self.close.len()));
        for _ in 0..k {
            s.push_str(&self.nest);
        }
        s.push_str(&self.open);
        for _ in 0..k {
            s.push_str(&self.unit);
        }
        s.push_str(&self.tail);
        for _ in 0..k {
            s.push_str(&self.close);
        }
        s
    }
    fn times(&self, n: usize) -> usize {
        n / (self.nest.len() + self.unit.len() + self.close.len()).max(1) + 1
    }
}

fn grow(r: &mut Rng) -> Option<Grow> {
    let mut g = Grow { name: "", head: String::new(), nest: String::new(), open: String::new(), unit: String::new(), tail: String::new(), close: String::new(), deep: false, scalar: false };
    let k = r.range(1, 5);
    let some = |r: &mut Rng, f: &dyn Fn(&mut Rng) -> String| (0..k).map(|_| f(r)).collect::<String>();
    // Lines of nodes break at a column which suits every place
    let one = |r: &mut Rng| loop {
        let n = node(r);
        if !n.contains('\n') {
            return n;
        }
    };
    match r.below(15) {
        0 => {
            g.name = "documents";
            let s = work::small(r);
            let t = ev::run_str(&s, false).ok()?;
            if !t.ok() || s.contains('\r') {
                return None;
            }
            g.unit = s;
            if !g.unit.ends_with('\n') {
                g.unit.push('\n');
            }
            g.unit.push_str(*r.pick(&["...\n", "... # c\n"]));
        }
        1 => {
            g.name = "block entries";
            let pad = " ".repeat(r.below(4));
            g.unit = some(r, &|r| match r.below(5) {
                0 => format!("{pad}-\n"),
                1 => format!("{pad}- {}: {}\n{pad}  {}: {}\n", node(r).split('\n').next().filter(|x| !x.contains('\\')).unwrap_or("k"), one(r), "l", one(r)),
                2 => format!("{pad}- - {}\n{pad}  - {}\n", one(r), one(r)),
                3 => format!("{pad}- |\n{pad}   x\n{pad}- >-\n{pad}   y\n{pad}   z\n"),
                _ => format!("{pad}- {}\n", one(r)),
            });
        }
        2 => {
            g.name = "block pairs";
            let pad = " ".repeat(r.below(4));
            g.unit = some(r, &|r| match r.below(6) {
                0 => format!("{pad}k:\n"),
                1 => format!("{pad}k:\n{pad}  - {}\n{pad}  - {}\n", one(r), one(r)),
                2 => format!("{pad}k:\n{pad}- {}\n{pad}- {}\n", one(r), one(r)),
                3 => format!("{pad}k: |\n{pad}   x\n{pad}l: >+\n{pad}   y\n\n"),
                4 => format!("{pad}k:\n{pad} {}: {}\n", "x", one(r)),
                _ => format!("{pad}{} : {}\n", one(r), one(r)),
            });
        }
        3 => {
            g.name = "explicit pairs";
            g.unit = some(r, &|r| match r.below(3) {
                0 => format!("? {}\n: {}\n", one(r), one(r)),
                1 => format!("? {}\n", one(r)),
                _ => format!("? - {}\n: {}: {}\n", one(r), "k", one(r)),
            });
        }
        4 => {
            g.name = "flow entries";
            g.head = String::from(*r.pick(&["[", "- [", "k: [", "[[", "? [", "[\n"]));
            let sep = *r.pick(&[", ", ",", ",\n ", ", # c\n  "]);
            g.unit = some(r, &|r| format!("{}{sep}", one(r)));
            g.tail = if g.head.contains("[[") { "]]".into() } else { "]".into() };
        }
        5 => {
            g.name = "flow pairs";
            let seq = r.pct(40);
            g.head = format!("{}{}", r.pick(&["", "- ", "k: ", "? "]), if seq { "[\n" } else { "{\n" });
            g.unit = some(r, &|r| match r.below(4) {
                0 => format!(" {} : {},\n", one(r), one(r)),
                1 => format!(" ? {} : {},\n", one(r), one(r)),
                2 => format!(" \"k\":{},\n", one(r)),
                _ => format!(" {},\n", one(r)),
            });
            g.tail = if seq { "]".into() } else { "}".into() };
        }
        6 => {
            g.name = "flow pairs, one line";
            let seq = r.pct(40);
            g.head = String::from(if seq { "[" } else { "{" });
            g.unit = some(r, &|r| match r.below(3) {
                0 => format!("{} : {}, ", one(r), one(r)),
                1 => format!("{} : [{} : {}], ", one(r), one(r), one(r)),
                _ => format!("{}, ", one(r)),
            });
            g.tail = if seq { "]".into() } else { "}".into() };
        }
        7 => {
            g.name = "filler";
            g.unit = some(r, &|r| r.pick(&["\n", "# c\n", "   \n", "  # c: [\n", "\t\n", "#\n"]).to_string());
            g.head = String::from(*r.pick(&["", "---\n", "a: b\n", "- a\n", "[a,\n", "--- # x\n", "a:\n", "-\n"]));
            if g.head.starts_with('[') {
                g.tail = "b]".into();
            }
        }
        8 => {
            g.name = "directives";
            g.unit = some(r, &|r| format!("{}{}{}...\n", r.pick(&["", "%YAML 1.2\n", "# c\n"]), r.pick(&["", "%TAG !a! b:\n", "%TAG !a! b:\n%TAG !c! d%41\n"]), r.pick(&["---\n", "--- !!a b\n", "--- c\n", "---\n- d\n"])));
        }
        9 => {
            g.name = "depth";
            g.deep = true;
            let (a, b) = *r.pick(&[("[", "]"), ("{a: ", "}"), ("[a, ", "]"), ("[a: ", "]"), ("{? ", "}"), ("[[], ", "]"), ("- ", ""), ("? ", ""), ("- ? ", ""), ("- - ", ""), ("[{a: ", "}]"), ("&a [", "]"), ("[!a ", "]"), ("[\n", "]"), ("{a: [b, ", "]}")]);
            g.unit = a.into();
            g.close = b.into();
            g.tail = String::from(*r.pick(&["", "x", "x"]));
        }
        14 => {
            // Many nodes, and as many collections they are in
            g.name = "long and deep";
            g.deep = true;
            let (n, u, t, c) = *r.pick(&[
                ("- ", "a, ", "]", ""), ("- ", "a: b, ", "}", ""), ("- ", "'a' : b,\n", "]", ""), ("- ", "[], ", "]", ""), ("? ", "a, ", "]", ""), ("- ? ", "{a: b}, ", "}", ""),
                ("[", "a, ", "", "]"), ("[", "a: b, ", "", "]"), ("[", "[], ", "", "]"), ("{a: ", "b: c, ", "", "}"), ("{? ", "b, ", "", "}"), ("[x, {y: ", "? b, ", "", "}]"), ("&a [", "*b , ", "", "]"), ("!a [", "!b c, ", "", "]"),
                ("- ", "\\n", "\"", ""), ("- ", "it''s ", "'", ""), ("- ", "a b ", "", ""), ("[", "a\n b ", "", "]"), ("- ", "\n", "", ""), ("- ", "\n # c", "", ""), ("[", "# c\n", "", "]"),
            ]);
            g.nest = n.into();
            g.unit = u.into();
            g.tail = t.into();
            g.close = c.into();
            g.head = String::new();
            let open = match (t, c) {
                ("]", _) => "[",
                ("}", _) => "{",
                ("\"", _) => "\"",
                ("'", _) => "'",
                (_, "}") => "{",
                (_, "}]") => "{",
                _ if n.starts_with('[') || n.ends_with('[') => "[",
                _ => "",
            };
            g.open = open.into();
            if t.is_empty() && !open.is_empty() {
                g.tail = if open == "[" { "]" } else { "}" }.into();
            }
        }
        13 => {
            // Of which there is one, and long
            g.name = "names";
            let a = |r: &mut Rng| r.pick(&["a", "xyz", "0", "word9"]).to_string();
            let u = |r: &mut Rng| r.pick(&["a", "xyz", "0", "a/b:", "%41", "%C3%A9", "%F0%9F%98%80", "~", "b"]).to_string();
            let (h, t, f): (&str, &str, u8) = *r.pick(&[
                ("&", " x\n", 0), ("*", "\n", 0), ("- &", " []\n", 0), ("k: *", "\n", 0), ("[*", ", b]\n", 0), ("!a", " x\n", 1), ("!!", " x\n", 1), ("!<", "> x\n", 1), ("- !", " [b]\n", 1),
                ("%TAG !e! x", "\n--- !e!y z\n", 1), ("%TAG !", "! x\n--- a\n", 0), ("%TAG !e! x\n--- !e!", " z\n", 1), ("!", "!b c\n", 0), ("%", " x\n--- a\n", 0), ("%FOO ", "\n--- a\n", 2), ("%YAML 1.2 #", "\n--- a\n", 2),
                ("#", "\na", 2), ("a: |  #", "\n  b\n", 2), ("- b #", "\n- c\n", 2), ("[b #", "\n, c]", 2), ("a #", "\n", 2), ("--- #", "\na\n", 2), ("a:\n  - b\n #", "\n", 2),
            ]);
            g.head = h.into();
            g.tail = t.into();
            g.unit = some(r, &|r| match f {
                0 => a(r),
                1 => u(r),
                _ => r.pick(&["c", " ", "é", "word ", "# ", ": ", "\t", "[", "\""]).to_string(),
            });
        }
        10 => {
            // Anything which may be moved into a sequence
            g.name = "block entries";
            let s = work::small(r);
            let t = p14::plain(ev::run_str(&s, false).ok()?);
            let body = p14::bare(&t)?;
            if !p14::movable(&s, body) {
                return None;
            }
            let n = r.range(1, 4);
            g.unit = format!("-\n{}", p14::shift(r, &s, n, true));
        }
        _ => {
            g.name = "content";
            g.scalar = true;
            let in_ = *r.pick(&["", "- ", "k: ", "? ", "[", "{a: "]);
            let end = match in_ {
                "[" => "]",
                "{a: " => "}",
                _ => "\n",
            };
            let kind = r.below(if end == "\n" { 5 } else { 3 });
            let (h, t, units): (&str, &str, &[&str]) = match kind {
                0 => ("\"", "\"", &["x", "word ", "\\n", "\n ", "é", "\\x41", "\\\n ", "\n\n ", "  ", "\\\\", "\\u00e9"]),
                1 => ("'", "'", &["x", "word ", "''", "\n ", "é", "\n\n ", "  ", "\\"]),
                2 => ("x", "", &["x", "word ", "\n  w", "é", " w", "\n\n  v", ":w", "-", "w#"]),
                3 => ("|\n", "", &["  x\n", "  word word\n", "\n", "   spaced\n", "  é\n"]),
                _ => (">\n", "", &["  x\n", "  word word\n", "\n", "   spaced\n", "  é\n"]),
            };
            g.head = format!("{in_}{h}");
            g.unit = some(r, &|r| r.pick(units).to_string());
            if kind > 2 {
                g.unit.push_str("  x\n");
            }
            g.tail = format!("{t}{end}");
        }
    }
    if g.name != "content" && g.name != "filler" && g.nest.is_empty() && r.pct(20) {
        g.unit.push_str(if g.deep || g.name == "flow pairs, one line" { " " } else { "" });
    }
    Some(g)
}

/// Serves the same over and over
struct Endless {
    head: Vec<u8>,
    unit: Vec<u8>,
    pos: usize,
    step: usize,
    served: Rc<Cell<usize>>,
}

const CAP: usize = 6_000_000;

impl io::Read for Endless {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.step);
        for b in &mut buf[..n] {
            *b = match self.pos.checked_sub(self.head.len()) {
                None => self.head[self.pos],
                Some(p) => self.unit[p % self.unit.len()],
            };
            self.pos += 1;
        }
        self.served.set(self.served.get() + n);
        if self.pos > CAP {
            return Err(io::Error::new(io::ErrorKind::Other, "too far"));
        }
        Ok(n)
    }
}

fn endless(cx: &mut Ctx, r: &mut Rng, g: &Grow, lazy: bool) -> Verdict {
    // Where, in bytes, the n'th event is due
    let per = {
        let (a, b) = (read(&g.text(20_000), lazy, false), read(&g.text(40_000), lazy, false));
        if !a.ok || !b.ok || b.events < a.events + 20 {
            return Ok(());
        }
        20_000.0 / (b.events - a.events) as f64
    };
    cx.feat("endless");
    let served = Rc::new(Cell::new(0));
    let src = Endless { head: g.head.clone().into(), unit: g.unit.clone().into(), pos: 0, step: *r.pick(&[usize::MAX, usize::MAX, 1, 100, 4096, 10_000]), served: served.clone() };
    let reader = from_read(src);
    let upto = (*r.pick(&[1.0, 300.0, 20_000.0, 200_000.0]) / per) as usize + 1;
    for (i, e) in from_reader_with(&reader, ev::flags(lazy)).into_iter().enumerate() {
        if let Err(e) = e {
            return Err(format!("an endless source of sound text fails after {i} events, {} bytes: {e}", served.get()));
        }
        let due = (i as f64 * per) as usize + g.head.len() + g.unit.len();
        if served.get() > 2 * due + 262_144 {
            return Err(format!("{} bytes were pulled by event {i}, which is due at about {due}", served.get()));
        }
        cx.max("max bytes ahead", served.get().saturating_sub(due) as u64);
        if i >= upto {
            cx.eval();
            return Ok(());
        }
    }
    Err(format!("an endless source ended after {} bytes", served.get()))
}

fn time(cx: &mut Ctx, g: &Grow, lazy: bool, small: usize, owned: bool) -> Verdict {
    let read = |s: &str| if owned { read_owned(s, lazy) } else { read(s, lazy, true) };
    let (a, b) = (g.text(small), g.text(32 * small));
    let units = (g.times(32 * small) as f64 / g.times(small) as f64).max(b.len() as f64 / a.len() as f64);
    let mut best = (u64::MAX, u64::MAX);
    let mut ratio = 0.0;
    for i in 0..8 {
        // The small one is read often enough to be measured
        for _ in 0..3 {
            best.0 = best.0.min(read(&a).cpu);
        }
        best.1 = best.1.min(read(&b).cpu);
        ratio = best.1 as f64 / best.0.max(20_000) as f64 / units;
        cx.eval();
        if ratio < 6.0 {
            break;
        }
        if i > 4 && best.1 > 20_000_000_000 {
            break;
        }
    }
    cx.feat(if owned { "time, owned" } else { "time" });
    cx.max("max 100 * CPU time per byte, large over small", (100.0 * ratio) as u64);
    if ratio >= 6.0 {
        return Err(format!("reading {} bytes takes {} us, {} bytes take {} us: {ratio:.1} times as much per byte", a.len(), best.0 / 1000, b.len(), best.1 / 1000));
    }
    Ok(())
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let Some(g) = grow(r) else { return Ok(()) };
    let lazy = r.pct(50);
    let evaluate = !lazy || r.pct(50);
    let whole = g.name == "filler" || g.name == "names";
    let (n, m) = if g.deep { (2_000, 16_000) } else { (*r.pick(&[8_000, 16_000]), 128_000) };
    let (a, b) = (g.text(n), g.text(m));
    cx.input(&a);
    let (x, y) = (read(&a, lazy, evaluate), read(&b, lazy, evaluate));
    cx.eval();
    cx.eval();
    if lazy {
        cx.feat("mode lazy");
    }
    cx.feat(g.name);
    if x.use_.left != 0 || y.use_.left != 0 {
        return Err(format!("({}) {} bytes are not given back", g.name, x.use_.left.max(y.use_.left)));
    }
    if x.ok != y.ok {
        // Keys are limited in length
        cx.feat("differs");
    }
    let (p, q) = (x.use_.peak, y.use_.peak);
    let times = (g.times(m) as f64 / g.times(n) as f64).max(b.len() as f64 / a.len() as f64);
    if x.ok == y.ok {
        let held = g.deep || g.scalar && evaluate || whole;
        let bound = if held { (p as f64 * times * 2.0) as u64 + 65_536 } else { p + 2_048 };
        let (what, over) = if g.deep { ("max held per nesting", q / g.times(m) as u64) } else if held { ("max held per 100 bytes of content", 100 * q / b.len() as u64) } else { ("max held above the small text's", q.saturating_sub(p)) };
        cx.max(what, over);
        if q > bound {
            return Err(format!("({}) at most {p} bytes are held while {} are read, and {q} for {}", g.name, a.len(), b.len()));
        }
        let bound = (x.use_.total as f64 * times * 2.0) as u64 + 65_536;
        cx.max("max allocated per 100 bytes", 100 * y.use_.total / b.len() as u64);
        if y.use_.total > bound {
            return Err(format!("({}) {} bytes are allocated to read {}, and {} for {}", g.name, x.use_.total, a.len(), y.use_.total, b.len()));
        }
        if g.scalar && lazy && !evaluate {
            cx.feat("content deferred");
            cx.max("max allocated by deferred content", y.use_.total);
            if y.use_.total > x.use_.total + 1024 {
                return Err(format!("{} bytes are allocated to defer {}, and {} for {}", x.use_.total, a.len(), y.use_.total, b.len()));
            }
        }
    }
    if !g.scalar && !g.deep && !whole && r.pct(30) {
        cx.feat("owned");
        let z = read_owned(&b, lazy);
        cx.eval();
        if (z.events, z.ok) != (y.events, if evaluate { y.ok } else { z.ok }) {
            return Err(format!("{} events from an io::Read, and {} from the text", z.events, y.events));
        }
        cx.max("max held per 100 bytes of an io::Read", 100 * z.use_.peak / b.len() as u64);
        if z.use_.peak > 4 * b.len() as u64 + q + 131_072 {
            return Err(format!("({}) {} bytes are held to read {} from an io::Read", g.name, z.use_.peak, b.len()));
        }
    }
    if !g.scalar && !g.deep && !whole && r.pct(10) {
        endless(cx, r, &g, lazy)?;
    }
    if r.pct(if g.name == "names" || g.name == "long and deep" { 40 } else if cx.thorough { 10 } else { 6 }) {
        // An io::Read is read in chunks, of which tokens are to be few
        let owned = !g.scalar && !g.deep && !whole && r.pct(50);
        time(cx, &g, lazy, if g.deep { 2_000 } else { *r.pick(&[4_000, 16_000]) }, owned)?;
    }
    if y.events > 100 || b.len() > 50_000 {
        cx.distinct(hash_bytes(a.as_bytes()));
    }
    cx.add("events", (x.events + y.events) as u64);
    cx.sample(|| format!("[{}] {} | {} | {} {}", g.name, show(g.head.as_bytes()), show(g.unit.as_bytes()), show(g.tail.as_bytes()), show(g.close.as_bytes())));
    Ok(())
}
