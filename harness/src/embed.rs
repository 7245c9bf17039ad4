//! Places a node's text where nodes may be, so that what holds of it can
//! be judged wherever it is.

use crate::ev::{Ev, Kind};
use crate::rng::Rng;

/// A place for a node. The node's continuation lines are at `indent`
/// columns, or more.
#[derive(Clone, Debug)]
pub struct Place {
    pub before: String,
    pub after: String,
    pub indent: usize,
    pub flow: bool,
    pub key: bool,
    pub kind: Kind,
    /// index of the scalar amongst the stream's scalars
    pub nth: usize,
    /// total number of scalars
    pub total: usize,
}

fn p(before: &str, after: &str, indent: usize, kind: Kind, nth: usize, total: usize) -> Place {
    Place { before: before.into(), after: after.into(), indent, flow: false, key: false, kind, nth, total }
}

/// Places for flow nodes which may span lines
pub fn lines(r: &mut Rng) -> Place {
    use Kind::*;
    let mut v = vec![
        p("", "\n", 1, Root, 0, 1),
        p("", "", 1, Root, 0, 1),
        p("--- ", "\n", 1, Root, 0, 1),
        p("--- ", "\n...\n", 1, Root, 0, 1),
        p("- ", "\n", 2, Entry, 0, 1),
        p("- ", "", 2, Entry, 0, 1),
        p("- a\n- ", "\n- b\n", 2, Entry, 1, 3),
        p("-\n  ", "\n- b\n", 2, Entry, 0, 2),
        p("- - ", "\n  - b\n- c\n", 4, Entry, 0, 3),
        p("k: ", "\n", 2, Value, 1, 2),
        p("k: ", "", 2, Value, 1, 2),
        p("k: ", "\nl: m\n", 2, Value, 1, 4),
        p("k:\n  ", "\nl: m\n", 2, Value, 1, 4),
        p("a:\n  b:\n    c: ", "\n  d: e\n", 6, Value, 3, 6),
        p("a:\n- ", "\n- b\nc: d\n", 2, Entry, 1, 5),
        p("? ", "\n: v\n", 2, Key, 0, 2),
        p("? k\n: ", "\n? l\n", 2, Value, 1, 4),
        p("- k: ", "\n  l: m\n- n\n", 4, Value, 1, 5),
    ];
    if r.pct(45) {
        let f = [
            p("[", "]\n", 1, Entry, 0, 1),
            p("[", "]", 1, Entry, 0, 1),
            p("[ ", " , a ]\n", 1, Entry, 0, 2),
            p("[a, ", ", b]\n", 1, Entry, 1, 3),
            p("[a: ", "]\n", 1, Value, 1, 2),
            p("{a: ", "}\n", 1, Value, 1, 2),
            p("{a: ", ", b: c}\n", 1, Value, 1, 4),
            p("{", " : v}\n", 1, Key, 0, 2),
            p("{a, ", " : v}\n", 1, Key, 2, 4),
            p("{? ", " : v}\n", 1, Key, 0, 2),
            p("[? ", " : v]\n", 1, Key, 0, 2),
            p("- [[", "], a]\n- b\n", 3, Entry, 0, 3),
            p("k: {a: [", "]}\nl: m\n", 3, Entry, 2, 5),
        ];
        v = f.to_vec();
        for x in &mut v {
            x.flow = true;
        }
    }
    let mut x = r.pick(&v).clone();
    x.indent += r.below(4);
    x
}

/// Places for implicit keys, on one line
pub fn key(r: &mut Rng) -> Place {
    use Kind::*;
    let mut v = vec![
        p("", ": v\n", 0, Key, 0, 2),
        p("", " : v\n", 0, Key, 0, 2),
        p("", ":\n", 0, Key, 0, 2),
        p("a: b\n", ": v\n", 0, Key, 2, 4),
        p("- ", ": v\n", 0, Key, 0, 2),
        p("a:\n  ", ": v\n", 0, Key, 1, 3),
        p("a:\n  ", ":\n    - v\n", 0, Key, 1, 3),
        p("---\n", ": v\n", 0, Key, 0, 2),
    ];
    if r.pct(40) {
        v = vec![
            p("[", " : v]\n", 0, Key, 0, 2),
            p("[a, ", ": v]\n", 0, Key, 1, 3),
            p("{", ": v}\n", 0, Key, 0, 2),
            p("{a: b, ", " : v}\n", 0, Key, 2, 4),
        ];
        for x in &mut v {
            x.flow = true;
        }
    }
    let mut x = r.pick(&v).clone();
    x.key = true;
    x
}

/// Places for block scalars. `indent` is that of the parent node, the
/// content has to be indented further
pub fn block(r: &mut Rng) -> Place {
    use Kind::*;
    let v = [
        p("", "", 0, Root, 0, 1),
        p("--- ", "", 0, Root, 0, 1),
        p("--- ", "...\n", 0, Root, 0, 1),
        p("--- ", "--- b\n", 0, Root, 0, 2),
        p("- ", "", 0, Entry, 0, 1),
        p("- ", "- b\n", 0, Entry, 0, 2),
        p("-\n  ", "- b\n", 0, Entry, 0, 2),
        p("- - ", "  - b\n", 2, Entry, 0, 2),
        p("- - ", "- b\n", 2, Entry, 0, 2),
        p("k: ", "", 0, Value, 1, 2),
        p("k: ", "l: m\n", 0, Value, 1, 4),
        p("k:\n  ", "l: m\n", 0, Value, 1, 4),
        p("k: ", "...\n", 0, Value, 1, 2),
        p("a:\n  b: ", "  c: d\n", 2, Value, 2, 5),
        p("a:\n  b: ", "c: d\n", 2, Value, 2, 5),
        p("? ", ": v\n", 0, Key, 0, 2),
        p("? k\n: ", "? l\n", 0, Value, 1, 4),
        p("a:\n- ", "- b\nc: d\n", 0, Entry, 1, 5),
        p("a:\n- ", "c: d\n", 0, Entry, 1, 4),
        p("- k: ", "  l: m\n", 2, Value, 1, 4),
        p("- - - a\n    - ", "", 4, Entry, 1, 2),
    ];
    r.pick(&v).clone()
}

/// The scalar the place holds, if the stream is as the place calls for
pub fn find<'a>(pl: &Place, ev: &'a [Ev]) -> Result<&'a Ev, String> {
    let s: Vec<&Ev> = ev.iter().filter(|e| matches!(e, Ev::Scalar { .. } | Ev::BadScalar { .. })).collect();
    if s.len() != pl.total {
        return Err(format!("{} scalars, where there are {}: {:?}", s.len(), pl.total, s));
    }
    let e = s[pl.nth];
    match e {
        Ev::Scalar { kind, .. } | Ev::BadScalar { kind, .. } if *kind == pl.kind => Ok(e),
        _ => Err(format!("{e:?} is not a {:?}", pl.kind)),
    }
}
