//! Errors say what is wrong, wherever it is.

use super::p10::{fill, place, B, BVF, F, R, V};
use super::show;
use crate::embed;
use crate::ev::{self, Cat, Ev, Fault, Script, Trace};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P17",
    rule: "A third of the cases are texts with one fault of a named kind (some 300 templates in 24 kinds), with random words, at a random depth of collections, after other documents, before others: the error, be it of the stream or of the scalar, is of the category and reads as documented for that kind. A third are sound texts cut within a quoted scalar, an escape, a verbatim tag or an escape of a tag: the category is EOF. The others are any text (random, mutated, soup) which is UTF8, from a source which does not fail: errors are Syntax or EOF, the latter if and only if they read so, and read as one of the documented messages. All eagerly, lazily, from a &str or an io::Read. Non-trivial: distinct text.",
    case,
    cases: (700_000, 10_000_000),
    cpu: 30,
    need: &["named", "cut", "any", "cut double", "cut single", "cut escape", "cut verbatim tag", "cut tag escape", "cut after break", "src io", "mode lazy", "deferred error", "refused", "accepted", "after documents", "nested in flow", "nested in block", "cat Syntax", "cat Eof"],
    level: "exploration",
};

const SEQ: &str = "missing flow sequence delimiter ',' or ']'";
const MAP: &str = "missing flow mapping delimiter ',' or '}'";
const NODE: &str = "node was expected";
const ENTRY: &str = "block entry was expected";
const KEY: &str = "key node was expected";
const DOC: &str = "missing document start or end indicator";
const TOKEN: &str = "unknown token";
const EOF: &str = "unexpected EOF";
const HANDLE: &str = "node tag handle is not one of !, !!, or ![a-zA-Z0-9]+!";
const PREFIX: &str = "%TAG directive prefix is invalid";
const VERSION: &str = "%YAML directive is invalid";
const SUFFIX: &str = "node tag suffix is invalid";
const ESCAPE: &str = "unknown escape sequence";
const VALUE: &str = "value node is not allowed in this context";

/// Every message of the library's own errors
const MESSAGES: &[&str] = &[
    SEQ, MAP, NODE, ENTRY, KEY, DOC, TOKEN, EOF, HANDLE, PREFIX, VERSION, SUFFIX, ESCAPE, VALUE,
    "unknown YAML directive", "%YAML directive missing major version", "%YAML directive missing minor version", "missing YAML mapping value",
    "node anchor or alias contains invalid characters", "flow scalar contains invalid characters", "plain scalar contains invalid characters", "block scalar contains invalid characters",
    "block entry is not allowed in this context", "indentation contained a tab character", "key node is not allowed in this context",
    "duplicate %YAML directive found in a document", "duplicate %TAG directive for a handle found in a document", "undefined node tag found",
];

/// Messages, and faults to which they apply
type Kind = (&'static str, &'static [&'static str], &'static [(&'static str, u8)]);

const KINDS: &[Kind] = &[
    ("entry not allowed", &["block entry is not allowed in this context"], &[
        ("- {α: β}- γ", B), ("- [α]- β", B), ("- 'α'- β", B), ("- \"α\" - β", B), ("α: - β", B), ("- α: - β", B), ("&α - β", B), ("!α - β", B), ("- &α - β", B), ("α: &β - γ", B), ("\"α\" - β", BVF), ("α: \"β\" - γ", B | F), ("- α", F), ("α: - β", F), ("- - α", F), ("[- α]", BVF), ("[α, - β]", BVF), ("{- α}", BVF), ("[α,\n - β]", B), ("[-\n ]", B), ("--- - α", R), ("--- !α - β", R), ("--- &α - β", R), ("---  - α", R), ("{α: - β}", BVF),
    ]),
    ("entry expected", &[ENTRY], &[
        ("- α # β\n  γ", B), ("- α\nσ# β\n  γ", B), ("- α\n# β\n  γ", B), ("- α\n  # β\n  γ", B), ("- |\n  α\n # β\n  γ", B), ("- α # β\n  - γ", B), ("α:\n- β\n# γ\n  δ", B), ("- \"α\" \"β\"", B), ("- [α] β", B), ("- *α β", B), ("- [α]\n  β", B), ("- \"α\"\n  \"β\"", B), ("- \"α\"\n  - β", B), ("- α\nβ: γ", B), ("- α\n- β\nγ: δ", B), ("- α: β\n γ: δ", B), ("- ? α\n : β", B), ("- >\n  α\n - β", B), ("- - α\n - β", B), ("- 'α'\n  β: γ", B), ("α:\n  - β\n   - 'γ'\n  δ: α", B), ("- |2\n α", B), ("- |\n    \n  α", B), ("- - 'α'\n   - β", B), ("- >5\n   α", B), ("- &α &β", B), ("- 'α'\nβ: γ", B), ("- - α\nβ: γ", B), ("- [α]\n? β", B), ("- |\n  α\nβ: γ", B), ("- &α β\n'γ': δ", B),
    ]),
    ("key expected", &[KEY], &[
        ("α: β # γ\n  δ", B), ("α:\n  β\nσ# γ\n  δ", B), ("α: β\nσ# γ\n    δ", B), ("α: β\n# γ\n  δ", B), ("? α # β\n  γ", B), ("α: 'β'\n  # γ\n  δ", B), ("α: *β # γ\n  δ", B), ("α: |\n  β\n# γ\n  δ", B), ("- 'α': 'β' 'γ'", B), ("? \"α\" β", B), ("? α\n: \"β\" γ", B), ("α: 'β'\n  γ", B), ("α:\n  'β'\n  'γ'", B), ("α: \"β\"\n  γ: δ", B), ("α: [β]\n  - γ", B), ("α: β\n- γ", B), ("α:\n  - β\n γ: δ", B), ("α:\n  β: γ\n - δ", B), ("? α\n : β", B), ("α: {β: γ}\n δ: α", B), ("α: |\n  β\n γ: δ", B), ("α: 'β'\n  - γ", B), ("? - α\n - β", B), ("α:\n    β: γ\n  δ: α", B), ("α: *β\n  γ: δ", B), ("α: |2\n β", B), ("α: >\n\n    \n  β", B), ("α: |\n   \n\n β", B), ("α: >4-\n   β", B), ("α: !β !γ\n  δ", B), ("α: 'β'\n- γ", B), ("'α': [β]\n- γ", B), ("? α\n- β", B), ("[α]: β\n- γ", B),
    ]),
    ("value missing", &["missing YAML mapping value"], &[
        ("α: β\nγ #δ: α", B), ("- α\nβ #: γ", B), ("α:\n&β\n- γ", B), ("- α\n&β\n- γ", B), ("α: &β\n!!map\n  γ: δ", B), ("α: β\n&γ\nδ: α", B), ("α: β\n[γ]", B), ("α: β\n'γ'", B), ("α: β\nγ", B), ("α: β\nγ δ", B), ("- α\nβ", B), ("- α\n'β'", B), ("- α\n[β]", B), ("- α\n*β", B), ("- α\n&β γ", B), ("α: β\nγ\nδ: α", B), ("? α\nβ", B), ("? α\n? β\nγ", B), ("α: β\nγ\n δ: α", B), ("α: β\n{γ: δ}", B), ("α: 'β'\n\"γ\"", B), ("α: |\n  β\nγ", B), ("α: β\n*γ", B),
    ]),
    ("value not allowed", &[VALUE], &[
        ("- α: β: γ", B), ("α: β\n γ: δ", B), ("- α: β\n   γ: δ", B), ("α:\n- β\n γ: δ", B), ("α: β\n: γ\n δ: α", B), ("? α: β: γ", B), ("- α\n β: γ", B), (" α\nβ: γ", R), ("α\nβ: γ", B), ("\"α\n β\": γ", B), ("'α\n β': γ", B), ("[α,\n β]: γ", B), ("{α: β,\n γ: δ}: α", B), ("α:\n  \"β\n   γ\": δ", B), ("--- α: β", R), ("--- [α]: β", R), ("--- \"α\": β", R), ("--- &α β: γ", R), ("--- 'α': β\nγ: δ", R), ("--- *α : β", R), ("---\tα: β", R), ("--- {α: β}: γ", R), ("--- : α", R), ("--- α:\n  β", R), ("--- \"α\" : β", R), ("--- !α β: γ", R), ("- 'α\n   β': γ", B),
    ]),
    ("key not allowed", &["key node is not allowed in this context"], &[("α: ? β", B), ("&α ? β", B), ("---\t? α", R), ("--- &α ? β", R), ("--- ? α", R), ("- &α ? β", B)]),
    ("marker missing", &[DOC], &[
        ("α # β\n: γ", R), ("α # β\nγ", R), (" α: β\nγ: δ", R), ("  - α\n- β", R), ("  α: β\n γ: δ", R), (" - α\n  - 'β'\n - γ\n- δ", R), ("|\n   \n α", R), ("%YAML 1.2 3\n---\nα", R), ("%YAML 1.2\nα", R), ("%YAML 1.2.3\n---\nα", R), ("%YAML 1.2\n", R), ("%YAML 1.2", R), ("%YAML 1.2\n...\n", R), ("%TAG !α! nm\n", R), ("%TAG !α! nm\nγ: δ", R), ("[α]\n[β]", R), ("'α'\n'β'", R), ("\"α\"\nβ: γ", R), ("'α'\n- β", R), ("[α]\n- β", R), ("*α\nβ", R), ("{α: β}\nγ: δ", R), ("&α\n&β γ", R), ("'α' 'β'", R), ("[α] β", R), ("{α: β} γ", R), ("*α *β", R), ("&α *β", R), ("!α !β γ", R), ("--- 'α' 'β'", R), ("--- [α]\nβ", R), ("%TAG ! nm\n...", R), ("%YAML 1.1\n%TAG ! nm\nα", R), ("%YAML 1.2\n# α\n- β", R),
    ]),
    ("bad name", &["node anchor or alias contains invalid characters"], &[("& α", BVF), ("&", B | V), ("α: *", B | F), ("α: & β", B | F), ("- *", B), ("*", BVF), ("* α", BVF), ("- & α", B), ("[*]", BVF), ("[&, α]", BVF), ("{*: α}", BVF), ("&\n α", R), ("? *", B)]),
    ("unknown token", &[TOKEN], &[
        ("@α", BVF), ("`α", BVF), ("- @α", B), ("α: `β", B | F), ("- %α", B), ("α: %β", B | F), ("|", F), (">", F), ("| α", F), ("α: |", F), ("[-]", BVF), ("[|]", BVF), ("[>]", BVF), ("{α: |}", BVF), ("[| α]", BVF), ("[@α]", BVF), ("{`α: β}", BVF), ("[|\n α\n]", B), ("{α: |\n  β\n }", B), ("[[|-\n α\n]]", B), ("{α: >-\n β}", B), ("[α, >2\n   β\n]", B), ("α: @β", B | F), ("-", F), ("[%α]", BVF), ("? @", B), ("&α @β", BVF), ("!α `β", BVF),
        // Closes nothing
        ("- ]", B), ("α: }", B), ("? ]", B), ("α: ]β", B), ("]", R), ("}", R), ("- }", B), ("--- ]", R), ("&α ]", R), ("α: β\n]", R), ("- α\n}", R), ("- !α ]", B), ("- 'α' ]", B), ("α: [β]]", B), ("- {α: β}}", B),
    ]),
    ("node expected", &[NODE], &[
        ("- ,", B), (", α", B | V), ("[,]", BVF), ("[,α]", BVF), ("{,}", BVF), ("{α: β,,}", BVF), ("{,α}", BVF), ("{α: β, , γ: δ}", BVF), ("[α,,β]", BVF), ("[α,,]", BVF), ("{α,,β}", BVF), ("[[α],,]", BVF), ("{'α',,}", BVF), ("[ , α]", BVF),
    ]),
    ("sequence not continued", &[SEQ], &[
        ("[α # β\n γ]", B), ("[α # β\n : γ]", B), ("[α: β: γ]", BVF), ("[[α] [β]]", BVF), ("[*α β]", BVF), ("{[α}]", BVF), ("[α\n β: γ]", B), ("[α", BVF), ("[[α]", BVF), ("{α: [β}", BVF), ("[? α", BVF), ("[α\n---\nβ]", R), ("[\"α\" \"β\"]", BVF), ("[\"α\" β]", BVF), ("[[α] β]", BVF), ("? [α\n---\n]", R), ("[α}", BVF), ("[α\n : β]", B), ("[\"α\"\n : β]", B), ("- [α\n--- β]", R), ("[{α: β} γ]", BVF), ("[α\n--- β]", R), ("- [α\n... ]", R), ("[*α\n--- β]", R), ("[&α\n---\n]", R), ("[!α\n...\n]", R), ("[α, 'β'", BVF), ("[{α: β}", BVF), ("[α: β", BVF), ("['α' 'β', γ]", BVF), ("[[α, β], [γ] δ]", BVF),
    ]),
    ("mapping not continued", &[MAP], &[
        ("{α: β # γ\n δ}", B), ("{α # β\n γ: δ}", B), ("{*α β: γ}", BVF), ("{[α] β}", BVF), ("{α: [β] γ}", BVF), ("{α: β]", BVF), ("{α: β\n γ: δ}", B), ("{α: β\n \"γ\": δ}", B), ("{α: β", BVF), ("{α", BVF), ("{? α", BVF), ("{α: β γ: δ}", BVF), ("{\"α\" \"β\"}", BVF), ("{α: \"β\" γ: δ}", BVF), ("{α: 'β' 'γ'}", BVF), ("[{α: β]}", BVF), ("{? α\n---\n}", R), ("{α: β: γ}", BVF), ("{α: {β: γ}", BVF), ("α: {β: 'γ'\n---\n}", R), ("{α: [β]", BVF), ("{α: β, γ", BVF), ("{'α': *β γ}", BVF),
    ]),
    ("bad escape", &[ESCAPE], &[
        ("\"\\q\"", BVF), ("\"\\x4\"", BVF), ("\"\\ud800\"", BVF), ("\"\\uDFFF\"", BVF), ("\"\\'\"", BVF), ("\"α\\.\"", BVF), ("\"α \\é\"", BVF), ("\"\\U0000004\"", BVF), ("[α, \"\\z\"]", BVF), ("\"\\-α\"", BVF), ("\"\\:\"", BVF), ("\"\\u\"", BVF), ("\"\\U\"", BVF), ("\"α\\d β\"", BVF), ("\"\\xg0\"", BVF), ("\"\\u12\"", BVF), ("\"\\U00110000\"", BVF), ("\"\\UFFFFFFFF\"", BVF), ("\"\\1\"", BVF), ("\"\\c\"", BVF), ("\"α \\X41\"", BVF), ("{\"\\y\": α}", BVF), ("!<%> α", BVF), ("!<%4> α", BVF), ("!%zz α", BVF), ("!α%f β", BVF), ("\"\\u123g\"", BVF), ("\"\\U0011FFFF\"", BVF), ("\"\\[\"", BVF), ("\"\\x\"", BVF), ("!α%é β", BVF), ("!!%C3%28 α", BVF), ("!<%FF> α", BVF), ("\"\\U80000041\"", BVF), ("\"α\\%41\"", BVF), ("%TAG !α! %4\n---\nα", R), ("%TAG !α! %zz\n---\nα", R),
    ]),
    ("marker in quotes", &["flow scalar contains invalid characters"], &[
        ("\"α\n--- β\"", R), ("'α\n... β'", R), ("\"\n...\n\"", R), ("{α: 'β\n... '}", R), ("- \"α\\\n--- β\"", R), ("'α\n...\n'", R), ("\"α \\\n---\t\"", R), ("'α\n\n...\n'", R), ("'α\n\n\n--- β'", R), ("\"α  \n---\tβ\"", R), ("'α\t\n--- '", R), ("\"α\\\n\n--- β\"", R), ("'α\n---\n---\n'", R), ("\"α\n ...\n...\n\"", R), ("'α\n---\n'", R), ("\"α\\\n--- β\"", R), ("\"α\\\n...\nβ\"", R), ("\"\\\n... \"", R), ("α: 'β\n--- γ'", R), ("\"α\n---\nβ\"", R), ("\"α\n\n--- β\"", R), ("[\"α\\\n--- β\"]", R),
    ]),
    ("block header", &["block scalar contains invalid characters"], &[
        ("|10\n α", B), ("|x\n α", B), ("|-+\n α", B), ("|12\n α", B), ("| α\n β", B), ("|- 2\n  α", B), (">α\n β", B), ("> α\n β", B), (">+-\n α", B), (">2x\n  α", B), ("|+ -\n α", B), (">\"α\"\n β", B), ("|[α]\n β", B), ("- | α\n  β", B), ("α: > β\n  γ", B), ("|1-1\n α", B), ("- >33\n  α", B), ("α: |-x\n  β", B), ("|--\n α", B),
    ]),
    ("tab", &["indentation contained a tab character"], &[
        ("- |\n\tα", B), ("α: >\n\tβ", B), ("- |2\n \tα", B), ("α: |3\n \tβ", B), ("- |\n  α\n\tβ", B), ("α: >\n   β\n  \tγ", B), ("- |\n  α\n \tβ\n", B), ("- |\n\n\tα", B), ("α: |-\n \n\tβ", B), ("? |\n\tα\n: β", B), ("- >1\n\tα", B), ("- |\n  α\n\n\tβ: γ", B), ("α: |\n\tβ: γ", B), ("- |\n    α\n  \t\n    β", B), ("- >9\n     \tα", B), ("α: >-\n\t\tβ", B), ("α: |+\n  β\n\t\n  γ", B), ("- >\n   α\n\n\n  \tβ", B), ("- - |\n\tα", B), ("α:\n  β: >\n   γ\n\tδ", B), ("&α |\n  β\n \tγ", B),
    ]),
    ("version", &[VERSION, "%YAML directive missing major version", "%YAML directive missing minor version"], &[
        ("%YAML\n---\nα", R), ("%YAML 1\n---\nα", R), ("%YAML 1.\n---\nα", R), ("%YAML 1.b\n---\nγ", R), ("%YAML a.1\n---\nγ", R), ("%YAML -1.2\n---\nα", R), ("%YAML 1. 2\n---\nα", R), ("%YAML 99999999999.2\n---\nα", R), ("%YAML 1.300\n---\nα", R), ("%YAML .2\n---\nα", R), ("%YAML a.b\n---\nγ", R), ("%YAML 256.1\n---\nα", R), ("%YAML 1.99999999999\n---\nα", R), ("%YAML 1 .2\n---\nα", R), ("%YAML \n\n 1.1\n---\nα", R), ("%YAML \n 1.2\n---\nα", R), ("%YAML\n1.2\n---\nα", R), ("%YAML 1,2\n---\nα", R),
    ]),
    ("tag prefix", &[PREFIX], &[
        ("%TAG !α!\n---\nβ", R), ("%TAG !α! \n---\nα", R), ("%TAG !α!\n β\n---\nγ", R), ("%TAG !\n---\nα", R), ("%TAG !α!β γ\n---\nδ", R), ("%TAG !α!β!γ\n---\nδ", R), ("%TAG !! \n---\nα", R), ("%TAG !α! \n  β\n---\nγ", R), ("%TAG !! \n  !β\n---\nγ", R), ("%TAG !α! \n\n---\nβ", R), ("%TAG !α! \n--- β", R), ("%TAG ! \n---\nα", R), ("%TAG !α! nm\"\n---\nα", R), ("%TAG ! {nm\n---\nα", R),
    ]),
    ("tag handle", &[HANDLE], &[("%TAG\n !α! β\n---\nγ", R), ("%TAG \n !α! β\n---\nγ", R), ("%TAG\n---\nα", R), ("%TAG \n---\nα", R), ("%TAG !α β\n---\nγ", R), ("%TAG α! β\n---\nγ", R), ("%TAG α β\n---\nγ", R), ("%TAG !α.β! γ\n---\nδ", R), ("%TAG <α> γ\n---\nδ", R)]),
    ("second prefix", &["duplicate %TAG directive for a handle found in a document"], &[
        ("%TAG ! !\n%YAML 1.2\n%TAG ! !\n---\nγ", R), ("%TAG !! tag:yaml.org,2002:\n%TAG !! tag:yaml.org,2002:\n---\nα", R), ("%TAG !α! nm\n%TAG !α! nm\n---\nγ", R), ("%TAG !α! nm\n%TAG !α! nmx\n---\nγ", R), ("%TAG ! nm\n%TAG ! nm\n---\nβ", R), ("%TAG !! nm\n%TAG !! nm\n---\nβ", R), ("%TAG !α! nm\n%TAG !q1! nm\n%TAG !α! nx\n--- γ", R), ("%TAG !q1! nm\n%TAG !q2! nm\n# α\n%TAG !q2! nx\n--- γ", R),
    ]),
    ("tag suffix", &[SUFFIX], &[("!α\"β\"", BVF), ("!α[β]", BVF), ("!α{β: γ}", BVF), ("!α<β>", BVF), ("!<α>β", BVF), ("!<α>\"β\"", BVF), ("!<α>!β γ", BVF), ("!!α!β γ", BVF), ("!α`β", BVF), ("!!α|\n  β", B), ("!α>\n  β", B), ("!<α>[β]: γ", BVF), ("!α,β γ", B), ("!<α β", BVF), ("!<>", BVF), ("!α! β", BVF), ("!<α β> γ", BVF), ("!<> α", BVF), ("!!", BVF), ("!! α", BVF), ("- !! α", B), ("!<α\nβ>", B), ("α: !<β γ", B), ("[!!, α]", BVF)]),
    ("undefined tag", &["undefined node tag found"], &[("!undefined!α β", BVF), ("!undefined!α [β]", BVF), ("!undefined!α", BVF), ("- &α !undefined!β γ", B), ("%TAG !undefined1! nm\n---\n!undefined!α β", R), ("%TAG !undefined! nm\n--- !undefined!α β\n--- !undefined!α β", R), ("%TAG !undefined! nm\n---\nα\n...\n!undefined!α β", R), ("!undefined!α\n- β", R), ("!undefined!α : β", B), ("[!undefined!α β: γ]", BVF)]),
    ("second version", &["duplicate %YAML directive found in a document"], &[("%YAML 1.2\n%YAML 1.2\n---\nα", R), ("%YAML 1.1\n%TAG ! nm\n%YAML 1.3\n---\nα", R), ("%YAML 1.1\n# α\n%YAML 1.2\n---\nα", R)]),
    ("directive", &["unknown YAML directive"], &[("%YAML1.2\n---\nα", R), ("%YAMLα 1.2\n---\nβ", R), ("%TAG!α! β\n---\nγ", R), ("%TAG! β\n---\nγ", R), ("%TAGα !β! γ\n---\nδ", R), ("%FOO α\n---\nβ", R), ("%FOO\n--- α", R), ("%YAM 1.2\n---\nα", R), ("%yaml 1.2\n---\nα", R), ("%TA !α! nm\n---\nβ", R), ("%tag !α! nm\n---\nβ", R), ("%YAML 1.2\n%FOO α\n---\nβ", R), ("% YAML 1.2\n---\nα", R), ("%\n---\nα", R)]),
    ("unfinished", &["flow scalar contains invalid characters", EOF], &[("'α\n...\nβ: γ", R), ("\"α\n---\nβ", R)]),
];

fn message(m: &str) -> &str {
    m.split(", on line ").next().unwrap()
}

/// What holds of every error of a text in UTF8
fn sane(f: &Fault) -> Verdict {
    let m = message(&f.msg);
    if !MESSAGES.contains(&m) {
        return Err(format!("the error reads {:?}, which is none of the library's own", f.msg));
    }
    let want = if m == EOF { Cat::Eof } else { Cat::Syntax };
    if f.cat != want {
        return Err(format!("the error {:?} is of category {:?}, not {want:?}", f.msg, f.cat));
    }
    Ok(())
}

fn faults(t: &Trace) -> Vec<&Fault> {
    let mut v: Vec<&Fault> = t.ev.iter().filter_map(|e| if let Ev::BadScalar { fault, .. } = e { Some(fault) } else { None }).collect();
    v.extend(t.err.as_ref());
    v
}

/// A third of a quoted scalar's worth of content, which never ends it. Lines
/// after the first are deeper than any place.
fn quoted(cx: &mut Ctx, r: &mut Rng, multi: bool) -> String {
    let double = r.pct(60);
    cx.feat(if double { "cut double" } else { "cut single" });
    let mut s = String::from(if double { "\"" } else { "'" });
    let n = match r.below(60) {
        0 => r.range(200, 3000),
        _ => r.below(12),
    };
    for _ in 0..n {
        match r.below(10) {
            0..=3 => s.push_str(*r.pick(&["a", "word", "é", "中", "𝄞", "- ", ": ", "#", " #c", "[", "}", ",", "&a", "!t", "%", "---", "..."])),
            4 => s.push_str(*r.pick(&[" ", "  ", "\t"])),
            5 if multi => {
                cx.feat("cut after break");
                s.push_str(*r.pick(&["\n", "\r\n", "\n\n", " \n"]));
                s.push_str(&" ".repeat(r.range(40, 44)));
            }
            6 if double => s.push('\''),
            6 => s.push_str("''"),
            7 if !double => s.push('"'),
            7 => s.push_str(*r.pick(&["\\n", "\\\"", "\\\\", "\\x41", "\\u00e9", "\\U0001F600", "\\/", "\\ "])),
            8 if double && multi => {
                s.push_str("\\\n");
                s.push_str(&" ".repeat(r.range(40, 44)));
            }
            _ => s.push('x'),
        }
    }
    if double && r.pct(35) {
        cx.feat("cut escape");
        s.push_str(*r.pick(&["\\", "\\x", "\\x4", "\\u", "\\u0", "\\u00e", "\\U", "\\U0001F", "\\U0001F60"]));
    } else if s.len() > 1 && s.ends_with('\'') && !double {
        // Half of a pair would have ended it
        s.push('y');
    } else if multi && r.pct(25) {
        cx.feat("cut at break");
        if double && r.pct(50) {
            s.push('\\');
        }
        s.push_str(*r.pick(&["\n", "\r\n", "\n\n", "\n \n", "\n\t"]));
        s.push_str(&" ".repeat(r.below(5)));
    } else if r.pct(10) {
        s.push_str(*r.pick(&[" ", "  ", "\t"]));
    }
    s
}

fn cut(cx: &mut Ctx, r: &mut Rng) -> String {
    let pl = if r.pct(70) { embed::lines(r) } else { embed::key(r) };
    let multi = !pl.key;
    let mut s = pl.before.clone();
    if r.pct(20) {
        s.push_str(*r.pick(&["&a ", "!t ", "!!str ", "&b !<t> "]));
    }
    match r.below(6) {
        0 => {
            cx.feat("cut verbatim tag");
            s.push_str("!<");
            s.push_str(&"k".repeat(r.below(12)));
            s.push_str(*r.pick(&["tag", "tag:yaml.org,2002:str", "!", "a%20b", "a%4", "a%", "%C3%A9%", "%C3%A9%2"]));
        }
        1 => {
            cx.feat("cut tag escape");
            s.push_str(*r.pick(&["!", "!!"]));
            s.push_str(&"k".repeat(r.below(12)));
            s.push_str(*r.pick(&["a%4", "%", "%2", "c%20%", "%41%4"]));
        }
        _ => s.push_str(&quoted(cx, r, multi)),
    }
    s
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let mut allowed: &[&str] = &[];
    let (mut s, what) = match cx.idx % 3 {
        0 => {
            let n = KINDS.iter().map(|k| k.2.len()).sum::<usize>();
            let mut i = (cx.idx / 3) as usize % n;
            let k = KINDS.iter().find(|k| {
                let here = i < k.2.len();
                if !here {
                    i -= k.2.len();
                }
                here
            });
            let (name, messages, texts) = k.unwrap();
            let (t, how) = texts[i];
            cx.feat(name);
            allowed = messages;
            let t = fill(r, t);
            (place(cx, r, &t, how), "named")
        }
        1 => (cut(cx, r), "cut"),
        _ => (work::any(r).0, "any"),
    };
    cx.feat(what);
    let root = s.starts_with("---") || s.starts_with('%');
    if what != "any" && r.pct(25) {
        cx.feat("after documents");
        let lead = match r.below(4) {
            0 => "--- ok\n...\n".to_string(),
            1 => "- ok\n- ok: [fine]\n...\n".to_string(),
            2 => "# comment\n\n".to_string(),
            _ => work::pad(*r.pick(&["docs", "seq", "quoted"]), r.range(40, 400)),
        };
        s = lead + &s;
    } else if what == "named" && root && !s.starts_with('%') && r.pct(50) {
        cx.feat("after documents");
        s = r.pick(&["ok\n", "ok: fine\n", "- ok\n", "'ok'\n", "|\n ok\n", "--- ok\n--- ok\n"]).to_string() + &s;
    }
    if what == "named" && r.pct(30) {
        s.push_str(*r.pick(&["\n", "\n...\n", "\n...\n--- ok\n", "\n...\n- ok\n", "\n\n", "\n...\n[\n"]));
        if !s.lines().rev().find(|l| !l.is_empty()).is_some_and(|l| l.starts_with('%')) && r.pct(20) {
            s.push_str("\n--- @\n");
        }
    }
    if what == "named" && r.pct(15) {
        s = s.replace('\n', "\r\n");
    }
    cx.distinct(hash_bytes(s.as_bytes()));
    cx.sample(|| format!("[{what}] {}", show(s.as_bytes())));
    for lazy in [false, true] {
        let io = r.pct(25);
        let s = if io && r.pct(60) { work::pad("comments", 8192 - r.below(s.len().min(8192) + 1)) + &s } else { s.clone() };
        cx.input(&s);
        cx.eval();
        let t = if io {
            cx.feat("src io");
            ev::run_read(Script::new(s.as_bytes()).sizes(work::sizes(r)), lazy, s.len())?
        } else {
            ev::run_str(&s, lazy)?
        };
        if lazy {
            cx.feat("mode lazy");
        }
        let f = faults(&t);
        cx.feat(if f.is_empty() { "accepted" } else { "refused" });
        if t.err.is_none() && !f.is_empty() {
            cx.feat("deferred error");
        }
        for f in &f {
            cx.feat(&format!("cat {:?}", f.cat));
            sane(f)?;
        }
        let at = format!("(lazy: {lazy}, io: {io})");
        match (what, f.first()) {
            ("any", _) => {}
            (_, None) => return Err(format!("{what}: accepted {at}")),
            ("cut", Some(_)) => {
                let e = t.err.as_ref();
                if !e.is_some_and(|e| e.cat == Cat::Eof) {
                    return Err(format!("the text ends within a token, the stream in {e:?} {at}"));
                }
            }
            (_, Some(e)) => {
                if !allowed.contains(&message(&e.msg)) {
                    return Err(format!("the error reads {:?}, not {allowed:?} {at}", e.msg));
                }
            }
        }
    }
    Ok(())
}
