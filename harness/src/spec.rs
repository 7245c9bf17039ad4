//! Examples (largely those of the YAML 1.2 specification) with the events
//! they stand for, written by hand.

use std::collections::BTreeMap;

use crate::ev::{Ev, Kind, Style};

pub struct Example {
    pub name: &'static str,
    pub text: &'static str,
    /// None: the text is malformed
    pub want: Option<Vec<String>>,
}

const RAW: &str = include_str!("../data/spec.txt");

pub fn examples() -> Vec<Example> {
    RAW.split("@@ ")
        .skip(1)
        .map(|s| {
            let (name, rest) = s.split_once('\n').unwrap();
            let (text, want) = rest.split_once("@=\n").unwrap();
            let want: Vec<String> = want.lines().map(|l| l.to_string()).collect();
            let want = if want == ["!ERR"] { None } else { Some(want) };
            Example { name, text, want }
        })
        .collect()
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (0x80..=0xa0).contains(&(c as u32)) || c == '\u{2028}' || c == '\u{2029}' => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

/// The notation of the YAML test suite, plus where nodes stand
pub fn render(ev: &[Ev]) -> Vec<String> {
    let mut out = vec![];
    let mut tags: BTreeMap<String, String> = BTreeMap::new();
    for e in ev {
        let p = |p: &crate::ev::Props| {
            let mut s = String::new();
            if let Some(a) = &p.anchor {
                s.push_str(&format!(" &{a}"));
            }
            if let Some((h, x)) = &p.tag {
                let pre = match (h.as_str(), x.as_str()) {
                    ("", _) => "",
                    ("!", "") => "!",
                    (h, _) => tags.get(h).map_or("(unknown)", |s| s),
                };
                s.push_str(&format!(" <{pre}{x}>"));
            }
            s
        };
        let l = match e {
            Ev::StreamStart | Ev::StreamEnd => continue,
            Ev::DocStart { tags: t, explicit, .. } => {
                tags = t.clone();
                format!("+DOC{}", if *explicit { " ---" } else { "" })
            }
            Ev::DocEnd { explicit } => format!("-DOC{}", if *explicit { " ..." } else { "" }),
            Ev::Alias(a) => format!("=ALI *{a}"),
            Ev::Scalar { props, data, style, .. } => {
                let c = match style {
                    Style::Plain => ':',
                    Style::Single => '\'',
                    Style::Double => '"',
                    Style::Literal => '|',
                    Style::Folded => '>',
                };
                format!("=VAL{} {c}{}", p(props), esc(data))
            }
            Ev::BadScalar { .. } => "=BAD".into(),
            Ev::MapStart { props, .. } => format!("+MAP{}", p(props)),
            Ev::SeqStart { props, .. } => format!("+SEQ{}", p(props)),
            Ev::MapEnd => "-MAP".into(),
            Ev::SeqEnd => "-SEQ".into(),
        };
        out.push(l);
    }
    out
}

/// Are the kinds of nodes those their positions call for?
pub fn kinds(ev: &[Ev]) -> Result<(), String> {
    // None: document, Some(None): sequence, Some(Some(n)): mapping, n nodes in
    let mut st: Vec<Option<Option<usize>>> = vec![];
    for (i, e) in ev.iter().enumerate() {
        let mut step = |k: Option<Kind>| -> Result<(), String> {
            let want = match st.last_mut() {
                None => return Err(format!("event #{i}: node outside a document")),
                Some(None) => Kind::Root,
                Some(Some(None)) => Kind::Entry,
                Some(Some(Some(n))) => {
                    *n += 1;
                    if *n % 2 == 1 {
                        Kind::Key
                    } else {
                        Kind::Value
                    }
                }
            };
            match k {
                Some(k) if k != want => Err(format!("event #{i}: {k:?} node where {want:?} is due")),
                _ => Ok(()),
            }
        };
        match e {
            Ev::DocStart { .. } => st.push(None),
            Ev::DocEnd { .. } | Ev::MapEnd | Ev::SeqEnd => {
                st.pop();
            }
            Ev::Alias(_) => step(None)?,
            Ev::Scalar { kind, .. } | Ev::BadScalar { kind, .. } => step(Some(*kind))?,
            Ev::MapStart { kind, .. } => {
                step(Some(*kind))?;
                st.push(Some(Some(0)));
            }
            Ev::SeqStart { kind, .. } => {
                step(Some(*kind))?;
                st.push(Some(None));
            }
            _ => {}
        }
    }
    Ok(())
}
