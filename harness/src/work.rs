//! Workloads: where the texts fed to the library come from.

use crate::gen::{self, Cfg};
use crate::props::{p07, p08, p09};
use crate::rng::Rng;

/// Hand picked texts, sound and broken, which between them touch every
/// production and most of the corner cases of YAML
pub const CORPUS: &[&str] = &[
    "",
    "\n",
    " ",
    "#",
    "# only a comment\n",
    "---",
    "...",
    "--- ---",
    "---\n---\n---\n",
    "...\n...\n",
    "a",
    "a: b",
    "a:",
    ":",
    "?",
    "-",
    "- ",
    "- - - a",
    "-\n-\n-",
    "- a\n- b: c\n  d: e\n-\n  - f\n",
    "a: b\nc: d\n",
    "a:\n  b:\n    c:\n      d: e\n    f: g\n",
    "a:\n- b\n- c\nd: e\n",
    "? a\n: b\n? c\n",
    "? - a\n  - b\n: - c\n  - d\n",
    "[]",
    "{}",
    "[a, b, c]",
    "{a: b, c: d}",
    "[a: b, c: d]",
    "[[[[]]]]",
    "{a: {b: {c: {}}}}",
    "[a, [b, {c: d}], e]",
    "{[a]: b, {c: d}: e}",
    "[a, b]: c\n{d: e}: f\n",
    "{a, b: , ? c, ? d: e, : f}",
    "[? a : b, ? c, ? , : d]",
    "{\"a\":b, 'c':d, [e]:f, {g: h}:i}",
    "[\na,\n  b\n,c # d\n]",
    "{a: b,\n\n  # comment\n c: d,}",
    "a: [b,\n c]\nd: {e:\n f}\n",
    "'a'",
    "''",
    "'it''s'",
    "'a\n b\n\n c'",
    "\"a\"",
    "\"\"",
    "\"\\0\\a\\b\\t\\n\\v\\f\\r\\e\\ \\\"\\/\\\\\\N\\_\\L\\P\"",
    "\"\\x41\\u0042\\U00000043\"",
    "\"a\n b\\\n c \n\n d\"",
    "\"\\ud800\"",
    "\"\\q\"",
    "'",
    "\"",
    "\"\\",
    "\"\\x4\"",
    "|\n a\n b\n",
    ">\n a\n b\n\n c\n",
    "|-\n a\n",
    "|+\n a\n\n\n",
    ">-2\n   a\n  b\n",
    "|1\n  a\n b\n",
    "- |\n a\n- >\n b\n",
    "a: |\n  b\n\n  c\nd: >+\n  e\n\nf: g\n",
    "a: >\n\n\n  b\n   c\n  d\n\n\n   e\n",
    "|0\n a\n",
    "|10\n a\n",
    "| a\n b\n",
    "|\n",
    ">",
    "a: |",
    "&a b",
    "&a",
    "*a",
    "- &a b\n- *a\n",
    "&a b: &c d\n*a : *c\n",
    "&a [&b c, &d {e: f}]",
    "& a",
    "*",
    "&a &b c",
    "&a\n- b\n",
    "!a b",
    "!!str a",
    "! a",
    "!<tag:a> b",
    "!<a",
    "!a!b c",
    "%TAG !a! b:\n---\n!a!c d\n",
    "%TAG !a! b:\n%TAG !a! c:\n--- d",
    "%YAML 1.2\n--- a",
    "%YAML 1.2\n%YAML 1.2\n--- a",
    "%YAML 2.0\n--- a",
    "%YAML\n--- a",
    "%FOO bar\n--- a",
    "%YAML 1.2\na",
    "!!str &a b: !!int 1\n",
    "!a\n- b\n",
    "&a !b\nc: d\n",
    "a\n b\n c\n\n d\n",
    "a: b\n c\n\n d\ne: f\n",
    "a # b\nc",
    "a#b: c#d\n",
    "a:b: c:d\n",
    "-a: ?b\n",
    "[-a, ?b, :c]",
    "[a\n b\n\n c, d]",
    "a: 'b' c\n",
    "a: b: c\n",
    "a: - b\n",
    "- a\n b\n",
    "a:\n\tb\n",
    "\ta: b\n",
    "a:\t b\t\n",
    "[a, b",
    "[a, b}",
    "{a: b",
    "{a: b]",
    "]",
    "}",
    ",",
    "[,]",
    "[a,,b]",
    "{,}",
    "@a",
    "`a",
    "%a",
    "a: %b",
    "a\r\nb: c\r\n",
    "a: b\rc: d\r",
    "- 'a\r\n  b'\r\n- |\r\n  c\r\n  d\r\n",
    "é: ü\n中: 文\n",
    "- 😀\n- \"😀\\U0001F600\"\n",
    "a: \u{a0}b\n",
    "\u{feff}a: b\n",
    "a: b\n--- c\n...\n%YAML 1.2\n---\nd\n",
    "--- |\n a\n--- >\n b\n...\n",
    "--- &a !b c\n--- [d]\n--- {e: f}\n",
    "--- a\n...\nb\n...\nc\n",
    "a:\n  - b\n  -\n    - c\n  - d: e\n    f:\n    - g\nh: [i]\n",
    "- ? a\n  : b\n- ? c\n",
    "a: ''\nb: \"\"\nc:\nd: ~\n",
    "'a': b\n\"c\": d\n",
    "'a\n b': c\n",
    "\"a\": 'b\n  c'\n",
    "- - a\n  - b\n- - c\n",
    "american:\n  - Boston Red Sox\n  - Detroit Tigers\nnational:\n  - New York Mets\n",
    "-\n  name: Mark McGwire\n  hr:   65\n-\n  name: Sammy Sosa\n  hr:   63\n",
    "? - Detroit Tigers\n  - Chicago cubs\n:\n  - 2001-07-23\n\n? [ New York Yankees,\n    Atlanta Braves ]\n: [ 2001-07-02, 2001-08-12,\n    2001-08-14 ]\n",
    "---\n# Products purchased\n- item    : Super Hoop\n  quantity: 1\n- item    : Basketball\n  quantity: 4\n",
    "--- >\n  Mark McGwire's\n  year was crippled\n  by a knee injury.\n",
    "name: Mark McGwire\naccomplishment: >\n  Mark set a major league\n  home run record in 1998.\nstats: |\n  65 Home Runs\n  0.278 Batting Average\n",
    "unicode: \"Sosa did fine.\\u263A\"\ncontrol: \"\\b1998\\t1999\\t2000\\n\"\nhex esc: \"\\x0d\\x0a is \\r\\n\"\n\nsingle: '\"Howdy!\" he cried.'\nquoted: ' # Not a ''comment''.'\ntie-fighter: '|\\-*-/|'\n",
    "plain:\n  This unquoted scalar\n  spans many lines.\n\nquoted: \"So does this\n  quoted scalar.\\n\"\n",
    "--- !<tag:clarkevans.com,2002:invoice>\ninvoice: 34843\ndate   : 2001-01-23\nbill-to: &id001\n    given  : Chris\n    address:\n        lines: |\n            458 Walkman Dr.\n            Suite #292\nship-to: *id001\nproduct:\n    - sku         : BL394D\n      quantity    : 4\ntax  : 251.42\ncomments:\n    Late afternoon is best.\n    Backup contact is Nancy\n    Billsmer @ 338-4338.\n",
    "sequence: [ one, two, ]\nmapping: { sky: blue, sea: green }\n",
    "anchored: !local &anchor value\nalias: *anchor\n",
    "%TAG !e! tag:example.com,2000:app/\n---\n- !local foo\n- !!str bar\n- !e!tag%21 baz\n",
    "[\n\"double\n quoted\", 'single\n           quoted',\nplain\n text, [ nested ],\nsingle: pair,\n]\n",
    "{\n? explicit: entry,\nimplicit: entry,\n?\n}\n",
    "1st non-empty\n\n 2nd non-empty \n\t3rd non-empty\n",
    "- sun: yellow\n- ? earth: blue\n  : moon: white\n",
    "-\n  \"flow in block\"\n- >\n Block scalar\n- !!map # Block collection\n  foo : bar\n",
    ">\n\n folded\n line\n\n next\n line\n   * bullet\n\n   * list\n   * lines\n\n last\n line\n\n# Comment\n",
    "# Leading comment line spaces are\n# neither content nor indentation.\n    \nNot indented:\n By one space: |\n    By four\n      spaces\n Flow style: [    # Leading spaces\n   By two,        # in flow style\n  Also by two,    # are neither\n  \tStill by two   # content nor\n    ]             # indentation.\n",
];

pub const FRAGS: &[&str] = &[
    "a", "b: c", ": ", ":", "? ", "?", "- ", "-", "---", "--- ", "...", "\n", "\n\n", "\n ", "\n  ", "\n    ", "\r\n", "\r", " ", "  ", "\t", "[", "]", "{", "}", ",", ", ", "'", "''", "\"", "\\", "\\n", "\\x41",
    "\\u00e9", "\\U0001F600", "\\\n", "|", ">", "|-", "|+", ">-", ">+", "|2", ">1-", "|\n a\n", ">\n a\n b\n", "#", " # c\n", "&", "&a ", "*", "*a ", "!", "!!", "!a ", "!!str ", "!<x> ", "!e!f ", "%", "%YAML 1.2\n", "%TAG !e! tag:x,2000:\n",
    "%FOO bar\n", "é", "中文", "😀", "\u{a0}", "\u{85}", "\u{2028}", "\u{feff}", "\0", "\u{7f}", "@", "`", "~", "null", "key: value\n", "- item\n", "[a, b]", "{a: b}", "\"str\"", "'str'", "\n- ", "\nkey: ", "\n? ", "\n: ", "\n--- ",
    "\n...\n", "0", "12", "%41", "%C3%A9", "%ff", "<<", "=", "key", "word word",
];

/// A text the generator made, without what it means
pub fn valid(r: &mut Rng) -> String {
    let c = Cfg::scaled(r);
    gen::stream(r, c).text
}

pub fn small(r: &mut Rng) -> String {
    let c = Cfg::random(r);
    gen::stream(r, c).text
}

/// A number near the edge of something
fn number(r: &mut Rng) -> String {
    const EDGES: &[u128] = &[0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 32767, 32768, 65535, 65536, 99999, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 63, (1 << 64) - 1, 1 << 64, u128::MAX];
    let mut s = match r.below(5) {
        0 => (0..r.range(1, 40)).map(|_| *r.pick(&['0', '1', '9', '5'])).collect(),
        1 => r.below(300).to_string(),
        _ => r.pick(EDGES).to_string(),
    };
    if r.pct(15) {
        s.insert_str(0, &"0".repeat(r.range(1, 12)));
    }
    if r.pct(8) {
        s.insert_str(0, *r.pick(&["-", "+", ".", " ", "0x"]));
    }
    s
}

fn hexes(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| *r.pick(&['0', '0', '0', '1', '4', '7', '8', 'd', 'D', 'f', 'F', '9', 'c', 'a', 'g', 'é'])).collect()
}

/// Texts in which numbers matter: versions, indentation, escapes
pub fn numbers(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        match r.below(8) {
            0 | 1 | 2 => {
                let (a, b) = (number(r), number(r));
                let d = *r.pick(&[".", ".", ".", ".", "", " ", "..", ",", "\n"]);
                let sp = *r.pick(&[" ", " ", "  ", "\t", "", "\n"]);
                let e = *r.pick(&["\n", "\n", " \n", " # c\n", "x\n", "\r\n", "", ".3\n"]);
                s.push_str(&format!("%YAML{sp}{a}{d}{b}{e}"));
                if r.pct(20) {
                    s.push_str(*r.pick(&["%TAG ! b\n", "%TAG !! tag:x,2000:\n", "%TAG !a! !b\n", "%TAG !a! b", "%YAML 1.1\n"]));
                }
                s.push_str(*r.pick(&["---\n", "--- a\n", "--- ", "a\n", "...\n", ""]));
            }
            3 | 4 => {
                let h = *r.pick(&["|", ">"]);
                let (a, b) = (if r.pct(60) { number(r) } else { String::new() }, if r.pct(20) { number(r) } else { String::new() });
                let c = *r.pick(&["", "-", "+", "--", "+-"]);
                let lead = *r.pick(&["- ", "a: ", "", "--- ", "- - "]);
                let n = r.below(12);
                s.push_str(&format!("{lead}{h}{a}{c}{b}\n{}x\n", " ".repeat(n)));
                if r.pct(50) {
                    let n = r.below(12);
                    s.push_str(&format!("{}y\n", " ".repeat(n)));
                }
            }
            5 | 6 => {
                s.push_str(*r.pick(&["\"", "- \"", "a: \"", "[\"", "{\"a", "\"\\\n"]));
                for _ in 0..r.range(1, 4) {
                    let (e, n) = *r.pick(&[("x", 2), ("u", 4), ("U", 8)]);
                    let n = if r.pct(15) { r.below(12) } else { n };
                    let h = hexes(r, n);
                    s.push_str(&format!("\\{e}{h}"));
                    s.push_str(*r.pick(&["", "", "x", " ", "\n ", "é"]));
                }
                s.push_str(*r.pick(&["\"\n", "\"]\n", "\": b\n", "", "\n"]));
            }
            _ => {
                s.push_str(*r.pick(&["!a", "!!", "!<", "%TAG !a! ", "- !", "!a!"]));
                for _ in 0..r.range(1, 4) {
                    let h = hexes(r, 2);
                    s.push_str(&format!("%{h}"));
                    s.push_str(*r.pick(&["", "x", "/", ":", "%"]));
                }
                s.push_str(*r.pick(&["> a\n", " b\n", "\n", "", "\n--- c\n"]));
            }
        }
    }
    s
}

/// Random concatenation of fragments
pub fn soup(r: &mut Rng) -> String {
    let n = r.range(1, 40);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(FRAGS));
    }
    s
}

/// A text rich in what scalars, or properties and directives, may be
pub fn rich(r: &mut Rng) -> String {
    loop {
        let s = match r.below(5) {
            0 => p07::text(r),
            1 => p08::text(r),
            _ => p09::text(r),
        };
        if s.len() < 4_000 || r.below(40) == 0 {
            return s;
        }
    }
}

fn boundary(s: &str, at: usize) -> usize {
    let mut at = at.min(s.len());
    while !s.is_char_boundary(at) {
        at -= 1;
    }
    at
}

/// Break a text, keeping it UTF8
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..r.range(1, 3) {
        let a = boundary(&s, r.below(s.len() + 1));
        match r.below(11) {
            0 => {
                // Delete a little
                let b = boundary(&s, a + r.range(1, 4)).max(a);
                s.replace_range(a..b, "");
            }
            1 => {
                let b = boundary(&s, a + r.range(1, 40)).max(a);
                s.replace_range(a..b, "");
            }
            2 | 3 | 4 => s.insert_str(a, *r.pick(FRAGS)),
            5 => {
                // Replace a character
                if let Some(c) = s[a..].chars().next() {
                    s.replace_range(a..a + c.len_utf8(), *r.pick(FRAGS));
                }
            }
            6 => s.truncate(a),
            7 => {
                // Duplicate a stretch elsewhere
                let b = boundary(&s, a + r.range(1, 30)).max(a);
                let t = s[a..b].to_string();
                let c = boundary(&s, r.below(s.len() + 1));
                s.insert_str(c, &t);
            }
            8 => {
                // Change the indentation of a line
                let l = s[..a].rfind('\n').map_or(0, |i| i + 1);
                if r.pct(50) {
                    s.insert(l, ' ');
                } else if s[l..].starts_with(' ') {
                    s.remove(l);
                }
            }
            9 => {
                // Drop or double a line
                let l = s[..a].rfind('\n').map_or(0, |i| i + 1);
                let e = s[a..].find('\n').map_or(s.len(), |i| a + i + 1);
                let t = s[l..e].to_string();
                if r.pct(50) {
                    s.replace_range(l..e, "");
                } else {
                    s.insert_str(l, &t);
                }
            }
            _ => {
                // Graft another text
                let t = if r.pct(50) { r.pick(CORPUS).to_string() } else { small(r) };
                s.insert_str(a, &t);
            }
        }
    }
    s
}

/// Any text at all: sound, broken and nonsense. Returns the name of its kind
pub fn any(r: &mut Rng) -> (String, &'static str) {
    match r.weighted(&[30, 35, 12, 8, 10, 5, 6, 10, 6]) {
        0 => (valid(r), "valid"),
        1 => {
            let s = small(r);
            (mutate(r, &s), "mutated")
        }
        2 => (soup(r), "soup"),
        3 => (r.pick(CORPUS).to_string(), "corpus"),
        4 => {
            let s = r.pick(CORPUS).to_string();
            (mutate(r, &s), "corpus-mutated")
        }
        5 => {
            let s = valid(r);
            (mutate(r, &s), "large-mutated")
        }
        7 => (rich(r), "rich"),
        8 => {
            let s = rich(r);
            (mutate(r, &s), "rich-mutated")
        }
        _ => {
            let s = numbers(r);
            if r.pct(30) {
                (mutate(r, &s), "numbers")
            } else {
                (s, "numbers")
            }
        }
    }
}

/// Arbitrary bytes
pub fn bytes(r: &mut Rng) -> Vec<u8> {
    let mut b = match r.below(4) {
        0 => (0..r.below(64)).map(|_| r.next() as u8).collect(),
        1 => {
            let printable = b" \n\t:-?[]{},&*!|>'\"%@`#ab01\\\r";
            (0..r.below(120)).map(|_| *r.pick(printable)).collect()
        }
        _ => any(r).0.into_bytes(),
    };
    if r.pct(60) && !b.is_empty() {
        for _ in 0..r.range(1, 3) {
            let i = r.below(b.len());
            match r.below(3) {
                0 => b[i] = r.next() as u8,
                1 => b.insert(i, *r.pick(&[0x80, 0xc3, 0xe4, 0xf0, 0xff, 0xc0, 0xed, 0xbf, 0xfe])),
                _ => b[i] ^= 1 << r.below(8),
            }
        }
    }
    b
}

/// The kinds of padding pad() uses
pub const PADS: &[&str] = &["long-comment", "comments", "blanks", "spaces", "crlf-blanks", "wide-comment", "doc", "docs", "quoted", "seq"];

/// Text of exactly n bytes which may precede any other text that starts
/// on a line of its own, without changing what it means. The documents
/// it is made of (if any) are finished.
pub fn pad(kind: &str, n: usize) -> String {
    let mut s = String::with_capacity(n);
    if n == 0 {
        return s;
    }
    match kind {
        "long-comment" => {
            s.push('#');
            if n == 1 {
                return "\n".into();
            }
            s.extend(std::iter::repeat('p').take(n - 2));
            s.push('\n');
        }
        "wide-comment" => {
            // With multi byte characters
            if n < 8 {
                return pad("long-comment", n);
            }
            s.push('#');
            while s.len() + 4 < n {
                s.push('中');
            }
            while s.len() + 1 < n {
                s.push('x');
            }
            s.push('\n');
        }
        "comments" => {
            while n - s.len() > 40 {
                s.push_str("# a comment, of 20 b\n");
            }
            let m = n - s.len();
            s.push_str(&pad("long-comment", m));
        }
        "blanks" => s.extend(std::iter::repeat('\n').take(n)),
        "crlf-blanks" => {
            if n % 2 == 1 {
                s.push('\n');
            }
            while s.len() < n {
                s.push_str("\r\n");
            }
        }
        "spaces" => {
            s.extend(std::iter::repeat(' ').take(n - 1));
            s.push('\n');
        }
        "doc" => {
            if n < 12 {
                return pad("blanks", n);
            }
            s.push_str("--- ");
            while s.len() < n - 5 {
                s.push('x');
            }
            s.push_str("\n...\n");
        }
        "docs" => {
            while n - s.len() > 40 {
                s.push_str("--- [doc, um: ent]\n...\n");
            }
            let m = n - s.len();
            s.push_str(&pad("blanks", m));
        }
        "quoted" => {
            if n < 12 {
                return pad("blanks", n);
            }
            s.push_str("--- \"");
            while s.len() < n - 6 {
                s.push('q');
            }
            s.push_str("\"\n...\n");
        }
        _ => {
            if n < 40 {
                return pad("blanks", n);
            }
            s.push_str("---\n");
            while n - s.len() > 40 {
                s.push_str("- entry of 20 bytes\n");
            }
            let m = n - s.len() - 4;
            s.push_str(&pad("long-comment", m));
            s.push_str("...\n");
        }
    }
    debug_assert_eq!(s.len(), n);
    s
}

/// Sizes in which an io::Read serves its data
pub fn sizes(r: &mut Rng) -> Vec<usize> {
    match r.below(6) {
        0 => vec![],
        1 => vec![1],
        2 => vec![r.range(1, 16)],
        3 => vec![r.range(1, 4096)],
        4 => (0..r.range(2, 6)).map(|_| r.range(1, 64)).collect(),
        _ => (0..r.range(2, 6)).map(|_| r.range(1, 9000)).collect(),
    }
}
