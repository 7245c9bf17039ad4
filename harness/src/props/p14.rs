//! How a stream is laid out does not change what it holds.

use super::show;
use crate::ev::{self, Cat, Ev, Kind, Props, Script, Style, Trace};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P14",
    rule: "Each case is a text (generated, mutated, soup, hand picked; broken ones included where the relation holds for them) and a rewriting of its layout: its line breaks made CRLF or CR; comments and blank lines put before or after it; blanks put at the ends of its lines; its last break added; markers put around it; several texts made one stream with markers between them; or a document indented further, and put into a block collection, with properties or siblings, in one or several levels, or many times over; or put after a document of very many tokens, or after lines in such a number that a count of them which is held in too few bits would wrap around within it. The events of the rewritten text must be those of the original, changed as the rewriting says and in no other way, with the same outcome. Non-trivial: distinct rewritten text whose original gave over 4 events.",
    case,
    cases: (1_500_000, 20_000_000),
    cpu: 30,
    need: &["breaks", "lead", "trail", "blanks", "final break", "explicit start", "explicit end", "documents", "documents, last in error", "nested", "nested with properties", "nested compact", "nested twice", "nested wide", "nested far", "nested deep", "original in error", "repeated", "late", "many lines before", "mode lazy", "src io"],
    level: "exploration",
};

fn run(r: &mut Rng, cx: &mut Ctx, s: &str, lazy: bool) -> Result<Trace, String> {
    cx.eval();
    if r.pct(15) {
        cx.feat("src io");
        return ev::run_read(Script::new(s.as_bytes()).sizes(work::sizes(r)), lazy, s.len());
    }
    ev::run_str(s, lazy)
}

fn same(name: &str, want: &Trace, got: &Trace) -> Verdict {
    let cat = |t: &Trace| t.err.as_ref().map(|e| (e.cat, e.msg.clone()));
    // A text cut short may turn out otherwise once it goes on
    let eof = want.err.as_ref().is_some_and(|e| e.cat == Cat::Eof);
    if want.err.is_some() && (name == "final break" || eof && matches!(name, "trail" | "blanks")) {
        let n = want.ev.len().min(got.ev.len());
        if name != "final break" && got.err.is_none() || want.ev[..n] != got.ev[..n] {
            return Err(format!("({name}) {} and {:?}, with {:?} before", ev::diff(&want.ev, &got.ev), got.err, want.err));
        }
        return Ok(());
    }
    if want.ev != got.ev {
        return Err(format!("({name}) {}", ev::diff(&want.ev, &got.ev)));
    }
    let cut = name == "breaks" && eof && got.err.is_some();
    if cat(want) != cat(got) && !cut {
        return Err(format!("({name}) fails with {:?}, and with {:?} before", got.err, want.err));
    }
    Ok(())
}

pub fn plain(t: Trace) -> Trace {
    Trace { marks: vec![], ..t }
}

fn text(r: &mut Rng) -> String {
    match r.below(10) {
        0..=4 => work::any(r).0,
        5 | 6 => work::small(r),
        7 => r.pick(work::CORPUS).to_string(),
        8 => work::rich(r),
        _ => work::valid(r),
    }
}

fn block_scalars(s: &str) -> bool {
    s.contains(['|', '>'])
}

/// A stream without documents gives an empty one
fn nothing(t: &Trace) -> bool {
    t.err.is_none() && matches!(t.ev[..], [Ev::StreamStart, Ev::DocStart { explicit: false, .. }, Ev::DocEnd { explicit: false }, Ev::StreamEnd])
}

/// What follows blanks and comments
fn content(s: &str) -> &str {
    let mut s = s;
    loop {
        s = s.trim_start();
        if !s.starts_with('#') {
            return s;
        }
        s = &s[s.find(['\n', '\r']).unwrap_or(s.len())..];
    }
}

fn noise(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.below(3000) == 0 {
        s = r.pick(&["\n", "#\n", "  \r\n"]).repeat(r.range(65_530, 65_560));
    }
    for _ in 0..r.range(1, 4) {
        s.push_str(*r.pick(&["# c\n", "\n", "  \n", "#\n", "   # c: - [\n", "# \"é'\n", "\t\n", "\t# c\n", "# ---\n", "\r\n", "# c\r\n"]));
    }
    s
}

/// Keys, values and properties which lines come between
fn spans(r: &mut Rng) -> String {
    let k = *r.pick(&["\"a\nb\"", "'a\n\n b'", "a\n b", "\"a\n b\"", "[a,\n b]", "{a:\n b}", "&x\na", "!t\n\"a\"", "&x !t\n a", "*x\n", "? a\n", "? - a\n  - b\n", "a", "'a'", "|\n a\n"]);
    let v = *r.pick(&["\n c", " c", "", " &x\n c", " !t\n - c", "\n- c", " \"c\n  d\"", " |\n  c", " # x\n  c"]);
    let (a, b) = *r.pick(&[("", "\n"), ("- ", "\n"), ("k: ", "\n"), ("k:\n ", "\n"), ("[", "]\n"), ("{", "}\n"), ("[x, ", "]"), ("{x: y, ", "}"), ("--- ", "\n"), ("- - ", "\n")]);
    let c = *r.pick(&[":", "\n:", "\n :", " \n :", ""]);
    format!("{a}{k}{c}{v}{b}")
}

/// The document of a clean stream which has but one, bare and unmarked
pub fn bare(t: &Trace) -> Option<&[Ev]> {
    let n = t.ev.len();
    if !t.ok() || n < 5 {
        return None;
    }
    match (&t.ev[1], &t.ev[n - 2]) {
        (Ev::DocStart { explicit: false, .. }, Ev::DocEnd { explicit: false }) => {}
        _ => return None,
    }
    let body = &t.ev[2..n - 2];
    if body.iter().any(|e| matches!(e, Ev::DocStart { .. })) {
        return None;
    }
    Some(body)
}

fn root(body: &mut [Ev], k: Kind, p: Option<Props>) {
    if let Some(Ev::Scalar { props, kind, .. } | Ev::MapStart { props, kind } | Ev::SeqStart { props, kind }) = body.first_mut() {
        *kind = k;
        if let Some(p) = p {
            *props = p;
        }
    }
}

fn scalar(s: &str, kind: Kind) -> Ev {
    Ev::Scalar { props: Props::NONE, kind, data: s.into(), style: Style::Plain }
}

/// Indent every line
pub fn shift(r: &mut Rng, s: &str, n: usize, first: bool) -> String {
    let mut o = String::new();
    let keep = r.pct(50);
    for (i, l) in s.split_inclusive('\n').enumerate() {
        if (i > 0 || first) && !(l == "\n" && keep) {
            o.push_str(&" ".repeat(n));
        }
        o.push_str(l);
    }
    o
}

/// Whether the text may be moved into a collection
pub fn movable(s: &str, body: &[Ev]) -> bool {
    // The library takes the indentation of root block scalars another way
    let block = matches!(body[0], Ev::Scalar { style: Style::Literal | Style::Folded, .. });
    !block && !s.contains(['\t', '\r', '\u{85}', '\u{2028}', '\u{2029}']) && s.ends_with('\n') && !s.lines().any(|l| l.starts_with("---") || l.starts_with("...") || l.starts_with('%')) && body.len() < 4000
}

/// Put a document's text into a collection
fn nest(r: &mut Rng, cx: &mut Ctx, s: &str, body: &[Ev]) -> Option<(String, Vec<Ev>)> {
    if !movable(s, body) {
        return None;
    }
    // Columns may not fit in the smaller integers, and a key may span lines in flow collections only
    let n = match r.below(1000) {
        0..=19 => r.range(250, 260),
        20 if s.len() < 300 && !s.contains(['[', '{']) => {
            cx.feat("nested far");
            r.range(65_530, 65_540)
        }
        _ => r.range(1, 6),
    };
    if n > 200 {
        cx.feat("nested wide");
    }
    let mut body = body.to_vec();
    let seq = |kind| Ev::SeqStart { props: Props::NONE, kind };
    let map = |kind| Ev::MapStart { props: Props::NONE, kind };
    let rk = Kind::Root;
    // Properties for the whole of it
    let mut p = None;
    let mut ps = "";
    if r.pct(40) {
        if content(s).starts_with('!') {
            // A tag the library drops
        } else if let Ev::Scalar { props, .. } | Ev::MapStart { props, .. } | Ev::SeqStart { props, .. } = &body[0] {
            let empty = matches!(&body[0], Ev::Scalar { data, style: Style::Plain, .. } if data.is_empty());
            if *props == Props::NONE && !empty {
                let (a, t) = (Some("anch".to_string()), Some(("!".to_string(), "t".to_string())));
                let (x, y) = *r.pick(&[(" &anch", (true, false)), (" !t", (false, true)), (" !t &anch", (true, true)), (" &anch !t # c", (true, true))]);
                ps = x;
                p = Some(Props { anchor: a.filter(|_| y.0), tag: t.filter(|_| y.1) });
                cx.feat("nested with properties");
            }
        }
    }
    let first = s.lines().next().unwrap_or("");
    let compact = ps.is_empty() && !first.starts_with([' ', '#']) && !first.is_empty();
    let (t, e);
    match r.below(8) {
        0 => {
            t = format!("k:{ps}\n{}", shift(r, s, n, true));
            root(&mut body, Kind::Value, p);
            e = [vec![map(rk), scalar("k", Kind::Key)], body, vec![Ev::MapEnd]].concat();
        }
        1 => {
            t = format!("a: b\nk:{ps}\n{}c: d\n", shift(r, s, n, true));
            root(&mut body, Kind::Value, p);
            e = [
                vec![map(rk), scalar("a", Kind::Key), scalar("b", Kind::Value), scalar("k", Kind::Key)],
                body,
                vec![scalar("c", Kind::Key), scalar("d", Kind::Value), Ev::MapEnd],
            ]
            .concat();
        }
        2 => {
            t = format!("-{ps}\n{}", shift(r, s, n, true));
            root(&mut body, Kind::Entry, p);
            e = [vec![seq(rk)], body, vec![Ev::SeqEnd]].concat();
        }
        3 => {
            t = format!("- a\n-{ps}\n{}- b\n", shift(r, s, n, true));
            root(&mut body, Kind::Entry, p);
            e = [vec![seq(rk), scalar("a", Kind::Entry)], body, vec![scalar("b", Kind::Entry), Ev::SeqEnd]].concat();
        }
        4 => {
            t = format!("?{ps}\n{}: v\n", shift(r, s, n, true));
            root(&mut body, Kind::Key, p);
            e = [vec![map(rk)], body, vec![scalar("v", Kind::Value), Ev::MapEnd]].concat();
        }
        5 => {
            t = format!("? k\n:{ps}\n{}? z\n", shift(r, s, n, true));
            root(&mut body, Kind::Value, p);
            e = [vec![map(rk), scalar("k", Kind::Key)], body, vec![scalar("z", Kind::Key), scalar("", Kind::Value), Ev::MapEnd]].concat();
        }
        6 if compact => {
            cx.feat("nested compact");
            t = format!("-{}{}- b\n", " ".repeat(n), shift(r, s, n + 1, false));
            root(&mut body, Kind::Entry, None);
            e = [vec![seq(rk)], body, vec![scalar("b", Kind::Entry), Ev::SeqEnd]].concat();
        }
        7 if compact => {
            cx.feat("nested compact");
            t = format!("?{}{}: v\n", " ".repeat(n), shift(r, s, n + 1, false));
            root(&mut body, Kind::Key, None);
            e = [vec![map(rk)], body, vec![scalar("v", Kind::Value), Ev::MapEnd]].concat();
        }
        _ => return None,
    }
    Some((t, e))
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    // What spans lines, with a count of lines before it where that count
    // might wrap around
    let far = r.below(800) == 0;
    let mut s = if far && r.pct(50) { spans(r) } else { text(r) };
    let lazy = r.pct(40);
    if lazy {
        cx.feat("mode lazy");
    }
    cx.input(&s);
    let mut want = plain(ev::run_str(&s, lazy)?);
    let events = want.ev.len();
    if !want.ok() {
        cx.feat("original in error");
    }
    let name: &str;
    let t: String;
    match if far { 22 } else if r.below(1_500) == 0 { 20 + r.below(2) } else { r.below(11) } {
        20 => {
            // The entry of a collection, many times over
            let Some(body) = bare(&want) else { return Ok(()) };
            if !movable(&s, body) {
                return Ok(());
            }
            name = "repeated";
            let k = if r.pct(60) { 65_600 / (body.len() + 1) + 1 } else { r.range(250, 300) };
            let (map, n) = (r.pct(50), r.range(1, 3));
            let one = format!("{}\n{}", if map { "k:" } else { "-" }, shift(r, &s, n, true));
            let mut body = body.to_vec();
            root(&mut body, if map { Kind::Value } else { Kind::Entry }, None);
            if map {
                body.insert(0, scalar("k", Kind::Key));
            }
            let mut e = vec![if map { Ev::MapStart { props: Props::NONE, kind: Kind::Root } } else { Ev::SeqStart { props: Props::NONE, kind: Kind::Root } }];
            for _ in 0..k {
                e.extend_from_slice(&body);
            }
            e.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
            t = one.repeat(k);
            let n = want.ev.len();
            want.ev.splice(2..n - 2, e);
        }
        22 => {
            name = "many lines before";
            let n = r.below(s.lines().count() + 2);
            t = r.pick(&["\n", "#\n"]).repeat(if r.pct(40) { 256 * r.range(1, 4) } else { 65_536 } - n) + &s;
        }
        21 => {
            // After a document of many tokens
            if want.ev.is_empty() || nothing(&want) {
                return Ok(());
            }
            name = "late";
            let k = if r.pct(30) { r.range(250, 300) } else { r.range(32_700, 33_000) };
            let (head, e) = *r.pick(&[("- x\n", true), ("k: v\n", false)]);
            let mut ev = vec![Ev::StreamStart, Ev::DocStart { version: (1, 2), tags: crate::gen::default_tags(), explicit: false }];
            ev.push(if e { Ev::SeqStart { props: Props::NONE, kind: Kind::Root } } else { Ev::MapStart { props: Props::NONE, kind: Kind::Root } });
            for _ in 0..k {
                if e {
                    ev.push(scalar("x", Kind::Entry));
                } else {
                    ev.extend([scalar("k", Kind::Key), scalar("v", Kind::Value)]);
                }
            }
            ev.extend([if e { Ev::SeqEnd } else { Ev::MapEnd }, Ev::DocEnd { explicit: true }]);
            t = head.repeat(k) + "...\n" + &s;
            ev.extend_from_slice(&want.ev[1..]);
            want.ev = ev;
        }
        0 | 1 if !s.contains('\r') => {
            name = "breaks";
            t = match r.below(3) {
                0 => s.replace('\n', "\r\n"),
                1 => s.replace('\n', "\r"),
                _ => {
                    // A mixture, in which LF does not follow CR
                    let mut o = String::new();
                    for l in s.split_inclusive('\n') {
                        match l.strip_suffix('\n') {
                            Some(l2) => {
                                let b = *r.pick(&["\n", "\r\n", "\r"]);
                                if l2.is_empty() && o.ends_with('\r') && b == "\n" {
                                    o.push_str("\r\n");
                                } else {
                                    o.push_str(l2);
                                    o.push_str(b);
                                }
                            }
                            None => o.push_str(l),
                        }
                    }
                    o
                }
            };
        }
        2 => {
            name = "lead";
            t = noise(r) + &s;
        }
        3 if s.ends_with('\n') || s.is_empty() => {
            name = "trail";
            t = s.clone() + *r.pick(&["# c\n", "# c", "#\n\n\n", "# c\n  # d\n", "# c\n \n# d\n"]);
        }
        4 if !block_scalars(&s) && !s.contains('\\') => {
            name = "blanks";
            let mut o = String::new();
            for l in s.split_inclusive('\n') {
                match l.strip_suffix("\n") {
                    Some(x) if r.pct(40) && !x.ends_with('\r') => {
                        o.push_str(x);
                        o.push_str(*r.pick(&[" ", "  ", "   ", "\t", " \t", "\t "]));
                        o.push('\n');
                    }
                    _ => o.push_str(l),
                }
            }
            t = o;
        }
        5 if !block_scalars(&s) && !s.ends_with('\n') => {
            name = "final break";
            t = s.clone() + "\n";
        }
        6 if !content(&s).starts_with("...") && matches!(want.ev.get(1), Some(Ev::DocStart { explicit: false, .. })) => {
            name = "explicit start";
            t = String::from(*r.pick(&["---\n", "--- # c\n", "---\n\n"])) + &s;
            if let Ev::DocStart { explicit, .. } = &mut want.ev[1] {
                *explicit = true;
            }
        }
        7 if s.ends_with('\n') && want.ok() && want.ev.len() > 2 => {
            name = "explicit end";
            t = s.clone() + *r.pick(&["...\n", "...", "... # c\n"]);
            let n = want.ev.len();
            let nothing = nothing(&want);
            if let Some(Ev::DocEnd { explicit }) = want.ev.get_mut(n - 2) {
                *explicit = !nothing;
            }
        }
        8 => {
            name = "documents";
            let mut o = String::new();
            let mut all = Trace { ev: vec![Ev::StreamStart], ..want.clone() };
            let k = r.range(1, 4);
            for i in 0..=k {
                if i > 0 {
                    s = text(r);
                    want = plain(ev::run_str(&s, lazy)?);
                }
                if i < k {
                    if !want.ok() || !s.ends_with('\n') && block_scalars(&s) {
                        continue;
                    }
                    o.push_str(&s);
                    if !s.ends_with('\n') {
                        o.push('\n');
                    }
                    o.push_str(*r.pick(&["...\n", "... # c\n", "...\n# c\n"]));
                    let n = want.ev.len();
                    let nothing = nothing(&want);
                    if let Some(Ev::DocEnd { explicit }) = want.ev.get_mut(n - 2) {
                        *explicit = true;
                    }
                    if !nothing {
                        all.ev.extend_from_slice(&want.ev[1..n - 1]);
                    }
                } else {
                    if !want.ok() {
                        cx.feat("documents, last in error");
                    }
                    o.push_str(&s);
                    let skip = if nothing(&want) && all.ev.len() > 1 { 3 } else { 1 };
                    all.ev.extend(want.ev.iter().skip(skip).cloned());
                    all.err = want.err.clone();
                    if want.ev.is_empty() && !o[..o.len() - s.len()].is_empty() {
                        // Not even the start was delivered
                        return Ok(());
                    }
                    if want.ev.is_empty() {
                        all.ev.clear();
                    }
                }
            }
            want = all;
            t = o;
        }
        _ => {
            let Some(body) = bare(&want) else { return Ok(()) };
            let Some((a, e)) = nest(r, cx, &s, body) else { return Ok(()) };
            name = "nested";
            let (mut a, mut e) = (a, e);
            if r.pct(40) {
                if let Some((b, f)) = nest(r, cx, &a, &e) {
                    cx.feat("nested twice");
                    (a, e) = (b, f);
                }
            }
            if r.below(400) == 0 {
                // Very many collections, each within another
                let levels = *r.pick(&[20, 40, 70, 140, 270]);
                for i in 0..levels {
                    let Some((b, f)) = nest(r, cx, &a, &e) else { continue };
                    (a, e) = (b, f);
                    if i == 69 {
                        cx.feat("nested deep");
                    }
                    if a.len() > 200_000 {
                        break;
                    }
                }
            }
            let n = want.ev.len();
            want.ev.splice(2..n - 2, e);
            t = a;
        }
    }
    cx.feat(name);
    cx.input(&t);
    let got = plain(run(r, cx, &t, lazy)?);
    same(name, &want, &got)?;
    if events > 4 {
        cx.distinct(hash_bytes(t.as_bytes()));
    }
    cx.add("events", got.ev.len() as u64);
    cx.sample(|| format!("[{name}] {}", show(t.as_bytes())));
    Ok(())
}
