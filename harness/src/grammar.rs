//! Online checker for the event grammar: fed one event at a time, it
//! fails at the first event which cannot continue a valid stream.

use crate::ev::{Ev, Kind, Props};

#[derive(Debug)]
enum Level {
    Seq,
    /// children seen so far
    Map(u64),
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum State {
    Start,
    Stream,
    Doc { root: bool },
    End,
}

pub struct Grammar {
    state: State,
    stack: Vec<Level>,
    tags: Vec<String>,
    last_end_implicit: Option<bool>,
    pub docs: u64,
    pub max_depth: usize,
}

impl Grammar {
    pub fn new() -> Self {
        Grammar { state: State::Start, stack: vec![], tags: vec![], last_end_implicit: None, docs: 0, max_depth: 0 }
    }

    pub fn push(&mut self, e: &Ev) -> Result<(), String> {
        let at = |m: &str| Err(format!("{m}: {e:?}"));
        match (self.state, e) {
            (State::Start, Ev::StreamStart) => self.state = State::Stream,
            (State::Start, _) => return at("the first event is not StreamStart"),
            (State::End, _) => return at("event after StreamEnd"),
            (_, Ev::StreamStart) => return at("repeated StreamStart"),

            (State::Stream, Ev::StreamEnd) => {
                if self.docs == 0 {
                    return at("stream without a document");
                }
                self.state = State::End
            }
            (State::Stream, Ev::DocStart { version, tags, explicit }) => {
                if !explicit && self.last_end_implicit == Some(true) {
                    return at("two documents without any marker between them");
                }
                if !tags.contains_key("!") || !tags.contains_key("!!") {
                    return at("the default tag handles are missing");
                }
                if !explicit && (tags.len() != 2 || *version != (1, 2) || tags["!"] != "!" || tags["!!"] != "tag:yaml.org,2002:") {
                    return at("directives given to a document which cannot have any");
                }
                self.tags = tags.keys().cloned().collect();
                self.docs += 1;
                self.state = State::Doc { root: false };
            }
            (State::Stream, _) => return at("content outside of a document"),

            (State::Doc { .. }, Ev::DocStart { .. }) => return at("nested document"),
            (State::Doc { .. }, Ev::StreamEnd) => return at("stream ends inside a document"),
            (State::Doc { .. }, Ev::DocEnd { explicit }) => {
                if !self.stack.is_empty() {
                    return at("document ends with open collections");
                }
                self.last_end_implicit = Some(!explicit);
                self.state = State::Stream;
            }
            (State::Doc { .. }, Ev::Alias(n)) => {
                if n.is_empty() {
                    return at("alias without a name");
                }
                self.child(None, e)?
            }
            (State::Doc { .. }, Ev::Scalar { props, kind, .. }) | (State::Doc { .. }, Ev::BadScalar { props, kind, .. }) => {
                self.props(props, e)?;
                self.child(Some(*kind), e)?
            }
            (State::Doc { .. }, Ev::MapStart { props, kind }) => {
                self.props(props, e)?;
                self.child(Some(*kind), e)?;
                self.stack.push(Level::Map(0));
                self.max_depth = self.max_depth.max(self.stack.len());
            }
            (State::Doc { .. }, Ev::SeqStart { props, kind }) => {
                self.props(props, e)?;
                self.child(Some(*kind), e)?;
                self.stack.push(Level::Seq);
                self.max_depth = self.max_depth.max(self.stack.len());
            }
            (State::Doc { .. }, Ev::MapEnd) => match self.stack.pop() {
                Some(Level::Map(n)) if n % 2 == 0 => {}
                Some(Level::Map(_)) => return at("mapping ends after a key"),
                _ => return at("mapping ends without its start"),
            },
            (State::Doc { .. }, Ev::SeqEnd) => match self.stack.pop() {
                Some(Level::Seq) => {}
                _ => return at("sequence ends without its start"),
            },
        }
        Ok(())
    }

    /// The stream ended, without an error
    pub fn finish(&self) -> Result<(), String> {
        match self.state {
            State::End => Ok(()),
            s => Err(format!("the stream ended without an error in state {s:?} with {} open collections", self.stack.len())),
        }
    }

    fn props(&self, p: &Props, e: &Ev) -> Result<(), String> {
        if p.anchor.as_deref() == Some("") {
            return Err(format!("anchor without a name: {e:?}"));
        }
        if let Some((h, s)) = &p.tag {
            let verbatim = h.is_empty();
            if verbatim && s.is_empty() {
                return Err(format!("empty tag: {e:?}"));
            }
            if !verbatim && !self.tags.iter().any(|t| t == h) {
                return Err(format!("tag with the undeclared handle {h:?}: {e:?}"));
            }
        }
        Ok(())
    }

    fn child(&mut self, kind: Option<Kind>, e: &Ev) -> Result<(), String> {
        let want = match self.stack.last_mut() {
            Some(Level::Seq) => Kind::Entry,
            Some(Level::Map(n)) => {
                *n += 1;
                if *n % 2 == 1 {
                    Kind::Key
                } else {
                    Kind::Value
                }
            }
            None => match &mut self.state {
                State::Doc { root } if !*root => {
                    *root = true;
                    Kind::Root
                }
                _ => return Err(format!("second root node of a document: {e:?}")),
            },
        };
        match kind {
            Some(k) if k != want => Err(format!("node where a {want:?} is due is marked {k:?}: {e:?}")),
            _ => Ok(()),
        }
    }
}

/// Check a whole trace. An error may end the stream anywhere
pub fn check(ev: &[Ev], failed: bool) -> Result<Grammar, String> {
    let mut g = Grammar::new();
    for (i, e) in ev.iter().enumerate() {
        g.push(e).map_err(|m| format!("event #{i}: {m}"))?;
    }
    if !failed {
        g.finish()?;
    }
    Ok(g)
}
