//! Malformed streams are refused, wherever in the stream the fault is.

use super::show;
use crate::ev::{self, Script};
use crate::gen::{self, Brk, Cfg};
use crate::rng::{hash_bytes, Rng};
use crate::run::{Ctx, Prop, Verdict};
use crate::work;

pub const PROP: Prop = Prop {
    id: "P10",
    rule: "Each case is a text the specification does not allow: one of some 260 templates of faults (unclosed and mismatched delimiters, misplaced indicators, content after a node, nested block collections on a line, wrong indentation, bad escapes, headers and directives, markers within collections) with random words, at a random depth of block and flow collections, or a random stream broken in a way that is certain to be a fault (cut short, wrong closing delimiter, trailing content, unmatched dedent, entry without its indicator, key beyond 1024 characters or one line). It must end in an error eagerly, lazily, and from an io::Read. Non-trivial: distinct text.",
    case,
    cases: (1_500_000, 20_000_000),
    cpu: 30,
    need: &["template", "cut short", "wrong closer", "extra closer", "trailing content", "unmatched dedent", "wrong entry", "missing indicator", "long key", "nested in flow", "nested in block", "after documents", "second document", "src io", "mode lazy", "cat Syntax", "cat Eof", "very deep", "very late"],
    level: "exploration",
};

/// May be moved right as a whole
pub const B: u8 = 1;
/// Is a flow node, or pair, on one line, which may be a value
pub const V: u8 = 2;
/// May be an entry of a flow collection
pub const F: u8 = 4;
/// Only at the root
pub const R: u8 = 0;
/// In a flow collection, by itself enclosed
pub const BVF: u8 = 7;

/// α, β, γ, δ stand for words, σ for a few spaces
const TEMPLATES: &[(&str, u8)] = &[
    // Content after a node
    ("\"α\" β", BVF), ("[α] β", BVF), ("'α' 'β'", BVF), ("[α] [β]", BVF), ("{α: β} γ", BVF), ("*α β", BVF), ("'α' [β]", BVF), ("{α} {β}", BVF), ("\"α\" \"β\"", BVF), ("[α]β", BVF), ("\"α\"β", BVF), ("'α'β", BVF), ("{α: β}γ", BVF), ("\"α\"'β'", BVF), ("[α]\"β\"", BVF), ("*α *β", BVF), ("[] []", BVF), ("[]\"\"", BVF), ("'' α", BVF),
    ("α: \"β\" γ", B | F), ("α: {β: γ} δ", B | F), ("\"α\": \"β\" \"γ\"", B | F), ("- \"α\" - β", B), ("- \"α\" \"β\"", B), ("- [α] β", B), ("- 'α': 'β' 'γ'", B), ("? \"α\" β", B), ("? α\n: \"β\" γ", B), ("- *α β", B), ("α: *β γ", B | F), ("α: \"β\"γ", B | F), ("- [α]\n  β", B), ("α: 'β'\n  γ", B), ("- \"α\"\n  \"β\"", B), ("α:\n  'β'\n  'γ'", B),
    // Two nodes at the root
    ("[α]\n[β]", B), ("'α'\n'β'", B), ("\"α\"\nβ: γ", B), ("'α'\n- β", B), ("[α]\n- β", B), ("*α\nβ", B), ("α: β\n[γ]", B), ("α: β\n'γ'", B), ("α: β\nγ", B), ("α: β\nγ δ", B), ("- α\nβ", B), ("- α\n'β'", B), ("- α\n[β]", B), ("α: β\nγ\nδ: α", B), ("? α\nβ", B), ("? α\n? β\nγ", B), ("- α\n*β", B), ("{α: β}\nγ: δ", B), ("- α\n&β γ", B),
    // Block collections on a line
    ("\"α\": \"β\": γ", B | F), ("α: β: γ", B | F), ("- α: β: γ", B), ("α: - β", B), ("α: ? β", B), ("\"α\": \"β\": \"γ\"", B | F), ("? α: β: γ", B), ("α: 'β': γ", B | F), ("α: [β]: γ", B | F), ("{α}: [β]: γ", B | F), ("α: *β : γ", B | F), ("- α: - β", B), ("&α - β", B), ("&α ? β", B), ("!α - β", B), ("- &α - β", B), ("α: &β - γ", B), ("α: &β γ: δ", B | F), ("\"α\" - β", BVF), ("α: \"β\" - γ", B | F), 
    // Indentation
    ("α: β\n γ: δ", B), ("- α\n β: γ", B), ("α:\n    β: γ\n  δ: α", B), ("- - α\n - β", B), ("α: \"β\"\n  γ: δ", B), ("α: 'β'\n  - γ", B), ("- \"α\"\n  - β", B), ("- 'α'\n  β: γ", B), ("α: [β]\n  - γ", B), ("α: β\n- γ", B), ("- α\nβ: γ", B), ("- α\n- β\nγ: δ", B), ("α:\n  - β\n γ: δ", B), ("α:\n  β: γ\n - δ", B), ("- α: β\n γ: δ", B), ("- α: β\n   γ: δ", B), ("α:\n- β\n γ: δ", B), ("? - α\n - β", B), ("- - α\n - β\n", B), ("? α\n : β", B), ("- ? α\n : β", B), ("α: β\n: γ\n δ: α", B), ("- - 'α'\n   - β", B), ("α: {β: γ}\n δ: α", B), ("α: |\n  β\n γ: δ", B), ("- >\n  α\n - β", B), ("α: *β\n  γ: δ", B), ("α:\n  - β\n   - 'γ'\n  δ: α", B),
    (" α: β\nγ: δ", R), ("  - α\n- β", R), (" α\nβ: γ", R), ("  α: β\n γ: δ", R), (" - α\n  - 'β'\n - γ\n- δ", R),
    // Indicators by themselves
    ("& α", BVF), ("*", BVF), ("&", B | V), ("* α", BVF), ("α: *", B | F), ("α: & β", B | F), ("- *", B), ("@α", BVF), ("`α", BVF), ("- @α", B), ("α: `β", B | F), ("α: @β", B | F), ("%α", V | F), ("- %α", B), ("α: %β", B | F), ("]", BVF), ("}", BVF), ("- ]", B), ("α: }", B), ("- ,", B), ("? ]", B), ("α: , β", B | V), ("α: ]β", B), (", α", B | V), ("|", F), (">", F), ("| α", F), ("α: |", F), ("- α", F), ("α: - β", F), ("-", F), ("- - α", F),
    // Flow punctuation
    ("[,]", BVF), ("[α,,β]", BVF), ("[α,,]", BVF), ("[,α]", BVF), ("{,}", BVF), ("{α,,β}", BVF), ("{α: β,,}", BVF), ("{,α}", BVF), ("{α: β, , γ: δ}", BVF), ("{α: β γ: δ}", BVF), ("{α: β: γ}", BVF), ("[α: β: γ]", BVF), ("[\"α\" \"β\"]", BVF), ("[\"α\" β]", BVF), ("[[α] [β]]", BVF), ("[[α] β]", BVF), ("{[α] β}", BVF), ("{α: [β] γ}", BVF), ("{\"α\" \"β\"}", BVF), ("{α: \"β\" γ: δ}", BVF), ("{α: 'β' 'γ'}", BVF), ("[{α: β} γ]", BVF), ("[*α β]", BVF), ("[- α]", BVF), ("[-]", BVF), ("[α, - β]", BVF), ("{- α}", BVF), ("{α: - β}", BVF), ("[|]", BVF), ("[>]", BVF), ("{α: |}", BVF), ("[| α]", BVF), ("[@α]", BVF), ("{`α: β}", BVF), ("[%α]", BVF), ("[α]]", BVF), ("{α: β}}", BVF), ("[α}", BVF), ("{α: β]", BVF), ("[{α: β]}", BVF), ("{[α}]", BVF), ("[\"α]", BVF), ("['α]", BVF), ("[(α]}", BVF),
    ("{α: β\n γ: δ}", B), ("[α\n : β]", B), ("[\"α\"\n : β]", B), ("[α\n β: γ]", B), ("[α,\n - β]", B), ("{α: >-\n β}", B), ("[-\n ]", B), ("[|\n α\n]", B), ("[α, >2\n   β\n]", B), ("{α: |\n  β\n }", B), ("[[|-\n α\n]]", B), ("{α: β\n \"γ\": δ}", B),
    // Unclosed
    ("'α", BVF), ("\"α", BVF), ("[α", BVF), ("{α: β", BVF), ("[α,", BVF), ("{α", BVF), ("{α:", BVF), ("{? α", BVF), ("[[α]", BVF), ("{α: [β}", BVF), ("\"α\\\"", BVF), ("'α''", BVF), ("[α, # β", B | V), ("\"α\\", B | V), ("[? α", BVF), ("{α: {β: γ}", BVF), ("[", BVF), ("{", BVF), ("\"", BVF), ("'", BVF),
    // Keys over lines
    ("α\nβ: γ", B), ("\"α\n β\": γ", B), ("'α\n β': γ", B), ("[α,\n β]: γ", B), ("{α: β,\n γ: δ}: α", B), ("- α\n β: γ", B), ("α: β\nγ\n δ: α", B), ("- 'α\n   β': γ", B), ("α:\n  \"β\n   γ\": δ", B),
    // Escapes
    ("\"\\q\"", BVF), ("\"\\x4\"", BVF), ("\"\\xg0\"", BVF), ("\"\\u12\"", BVF), ("\"\\u123g\"", BVF), ("\"\\U0011FFFF\"", BVF), ("\"\\U00110000\"", BVF), ("\"\\UFFFFFFFF\"", BVF), ("\"\\ud800\"", BVF), ("\"\\uDFFF\"", BVF), ("\"\\'\"", BVF), ("\"\\1\"", BVF), ("\"\\c\"", BVF), ("\"α \\X41\"", BVF), ("\"α\\.\"", BVF), ("\"α \\é\"", BVF), ("\"\\U0000004\"", BVF), ("{\"\\y\": α}", BVF), ("[α, \"\\z\"]", BVF), ("\"\\-α\"", BVF), ("\"\\:\"", BVF), ("\"\\[\"", BVF), ("\"\\x\"", BVF), ("\"\\u\"", BVF), ("\"\\U\"", BVF), ("\"α\\d β\"", BVF),
    // Markers within collections
    ("[α\n---\nβ]", R), ("[α\n--- β]", R), ("{α:\n...\n}", R), ("\"α\n---\nβ\"", R), ("\"α\n--- β\"", R), ("'α\n...\n'", R), ("'α\n... β'", R), ("[\n---\n]", R), ("{\n...\n}", R), ("[α,\n...\nβ]", R), ("'α\n---\n'", R), ("\"\n...\n\"", R), ("{α: 'β\n... '}", R), ("? [α\n---\n]", R), ("[{α:\n---\n}]", R),
    ("\"α\\\n--- β\"", R), ("\"α\\\n...\nβ\"", R), ("\"α \\\n---\t\"", R), ("\"\\\n... \"", R), ("\"α\n\n--- β\"", R), ("'α\n\n...\n'", R), ("'α\n\n\n--- β'", R), ("\"α  \n---\tβ\"", R), ("'α\t\n--- '", R), ("\"α\\\n\n--- β\"", R), ("[\"α\\\n--- β\"]", R), ("- \"α\\\n--- β\"", R), ("α: 'β\n--- γ'", R), ("α: {β: 'γ'\n---\n}", R), ("- [α\n--- β]", R), ("- [α\n... ]", R), ("[α, # β\n---\n]", R), ("[\n# α\n--- ]", R), ("{α: β,\n\n...\n}", R), ("[*α\n--- β]", R), ("[&α\n---\n]", R), ("[!α\n...\n]", R), ("{? α\n---\n}", R), ("{\"α\":\n---\n}", R), ("[[α],\n--- ]", R), ("'α\n---\n---\n'", R), ("\"α\n ...\n...\n\"", R),
    ("--- α: β", R), ("--- - α", R), ("--- ? α", R), ("--- [α]: β", R), ("--- \"α\": β", R), ("--- &α β: γ", R), ("--- 'α': β\nγ: δ", R), ("--- *α : β", R), ("--- !α β: γ", R), ("---\tα: β", R), ("---  - α", R), ("---\t? α", R), ("--- {α: β}: γ", R), ("--- : α", R), ("--- !α - β", R), ("--- &α - β", R), ("--- &α ? β", R), ("--- α:\n  β", R), ("--- - - α\n- β", R), ("--- !α *β : γ", R), ("--- \"α\" : β", R),
    // Block scalar headers
    ("|10\n α", B), ("|x\n α", B), ("|--\n α", B), ("|-+\n α", B), ("|12\n α", B), ("| α\n β", B), ("|1-1\n α", B), ("|- 2\n  α", B), (">α\n β", B), ("> α\n β", B), (">+-\n α", B), (">2x\n  α", B), ("|+ -\n α", B), (">\"α\"\n β", B), ("|[α]\n β", B), ("- | α\n  β", B), ("α: > β\n  γ", B), ("α: |-x\n  β", B), ("- >33\n  α", B),
    ("- |2\n α", B), ("α: |2\n β", B), ("|\n   \n α", R), ("- |\n    \n  α", B), ("α: >\n\n    \n  β", B), ("- >5\n   α", B), ("α: |\n   \n\n β", B), ("α: >4-\n   β", B),
    // Comments which end a node, and nodes beside what they decorate
    ("- α # β\n  γ", B), ("- α\n# β\n  γ", B), ("- α\n  # β\n  γ", B), ("α: β # γ\n  δ", B), ("α:\n  β\n  # γ\n  δ", B), ("α: β\n# γ\n  δ", B), ("? α # β\n  γ", B), ("? α\n# β\n  γ", B), ("[α # β\n γ]", B), ("{α: β # γ\n δ}", B), ("{α # β\n γ: δ}", B), ("[α # β\n : γ]", B), ("α # β\n: γ", R), ("α # β\nγ", R), ("\"α\" # β\n: γ", R), ("α: 'β'\n  # γ\n  δ", B), ("α: *β # γ\n  δ", B), ("α: [β] # γ\n  δ", B), ("α: |\n  β\n# γ\n  δ", B), ("- |\n  α\n # β\n  γ", B), ("α: >\n  β\n # γ\n\n  δ", B), ("α: β # γ\n  δ: α", B), ("- α # β\n  - γ", B), ("α:\n  β # γ\n  δ: α", B), ("α:\n- β\n# γ\n  δ", B), ("- α\t# β\n\n  γ", B), ("α:\n  β γ # δ\n  α", B),
    ("α: β\nγ #δ: α", B), ("- α\nβ #: γ", B), ("α: β\n'γ' # δ: α", B), ("α: β\nγ\n# : δ", B), ("α:\n&β\n- γ", B), ("- α\n&β\n- γ", B), ("α: &β\n!!map\n  γ: δ", B), ("α: !β\n&γ\n  δ: α", B), ("α:\n  β γ\n  δ: α", B), ("- {α: β}- γ", B), ("- [α]- β", B), ("α: {β: γ}δ: α", B), ("{*α β: γ}", BVF), ("- 'α'- β", B), ("α: [β]γ: δ", B), ("&α\n- β\n&γ\n- δ", R), ("α:\n!β\n- γ", B), ("- α\n!β\n- γ", B), ("α: β\n&γ\nδ: α", B), ("α: &β\n\n&γ\n  δ: α", B),
    ("- α\nσ# β\n  γ", B), ("α: β\nσ# γ\n  δ", B), ("? α\nσ# β\n   γ", B), ("α:\n  β\nσ# γ\n  δ", B), ("α:\n    β\nσ# γ\n    δ", B), ("α: 'β'\nσ# γ\n  δ", B), ("[α\nσ# β\n γ]", B), ("{α: β\nσ# γ\n  δ}", B), ("α\nσ# β\nγ", R), ("α: >\n  β\n # γ\nσ# δ\n  α", B), ("α:\n  - β\nσ# γ\n  δ", B), ("- α\nσ# β\nσ# γ\n  - δ", B),
    // Keys of pairs in flow sequences over lines, and properties and values of which there are too many
    ("[\"α\n β\": γ]", B), ("['α\n β' : γ]", B), ("[[α,\n β]: γ]", B), ("[{α: β,\n γ: δ}: α]", B), ("[&α\n β: γ]", B), ("[!α\n β: γ]", B), ("[α: β, \"γ\n δ\": α]", B), ("[α, *β\n : γ]", B), ("[{α}\n : β]", B), ("[&α \"β\n γ\": δ]", B), ("{α: [\"β\n γ\": δ]}", B), ("[[\"α\"\n : β]]", B), ("[α, β\n γ: δ, α]", B), ("[[]\n: α]", R), ("[\"α\"\n\n :β]", B),
    ("&α !β &γ δ", BVF), ("!α !β {γ}", BVF), ("&α &β {γ: δ}", BVF), ("- &α\n  &β γ", B), ("α: &β\n  &γ δ", B), ("&α !β *γ", BVF), ("!α &β *γ", BVF), ("- &α *β", B), ("- &α\n  *β", B), ("α: !β\n  *γ", B), ("&α &β", BVF), ("!α !β", BVF), ("[&α &β, γ]", BVF), ("{&α &β γ: δ}", BVF), ("? &α &β γ", B), ("!α !β |\n  γ", B), ("&α &β\n- γ", B), ("- !α !β\n  - γ", B), ("&α *β : γ", B), ("{&α *β : γ}", BVF), ("- !α *β : γ", B),
    ("!undefined!α [β]", BVF), ("!undefined!α {β: γ}", BVF), ("!undefined!α\n- β", B), ("!undefined!α\nβ: γ", B), ("!undefined!α", BVF), ("{!undefined!α : β}", BVF), ("&α !undefined!β γ", BVF), ("- !undefined!α |\n  β", B), ("[!undefined!α β: γ]", BVF), ("? !undefined!α β", B), ("!undefined!α 'β'", BVF), ("%TAG !undefined1! nm\n--- !undefined!α β", R), ("%TAG !undefined! nm\n---\nα\n--- !undefined!β γ", R), ("%TAG !undefined! nm\n---\nα\n...\n!undefined!β γ", R), ("%TAG !undefined! nm\n---\nα\n...\n%TAG !q! nm\n--- !undefined!β γ", R),
    ("α: β\n : γ", B), ("- α\n : β", B), ("α: : β", B), ("'α' : : β", B), ("[α : : β]", BVF), ("{α: : β}", BVF), ("{: : α}", BVF), ("- 'α'\n  : β", B), ("\"α\"\n: β", B), ("[α]\n: β", B), ("{α}\n: β", B), ("*α\n: β", B), ("&α\n: β\n γ: δ", R), ("|\n  α\n: β", R), ("α: |\n  β\n : γ", B), ("α: 'β'\n : γ", B), ("? α\n  : β", B), ("- ? α\n: β", B), ("- α: β\n: γ", B),
    // Tabs where a block scalar is indented
    ("- |\n\tα", B), ("α: >\n\tβ", B), ("- |2\n \tα", B), ("α: |3\n \tβ", B), ("- |\n  α\n\tβ", B), ("α: >\n   β\n  \tγ", B), ("- |\n  α\n \tβ\n", B), ("- |\n\n\tα", B), ("α: |-\n \n\tβ", B), ("? |\n\tα\n: β", B), ("- >1\n\tα", B), ("- |\n  α\n\n\tβ: γ", B), ("α: |\n\tβ: γ", B), ("- |\n    α\n  \t\n    β", B), ("- >9\n     \tα", B), ("α: >-\n\t\tβ", B), ("α: |+\n  β\n\t\n  γ", B), ("- >\n   α\n\n\n  \tβ", B), ("- - |\n\tα", B), ("α:\n  β: >\n   γ\n\tδ", B), ("&α |\n  β\n \tγ", B),
    // Directives
    ("!α\"β\"", BVF), ("!α[β]", BVF), ("!α{β: γ}", BVF), ("!α<β>", BVF), ("!<α>β", BVF), ("!<α>\"β\"", BVF), ("!<α>!β γ", BVF), ("!!α!β γ", BVF), ("!α`β", BVF), ("!!α|\n  β", B), ("!α>\n  β", B), ("!<α>[β]: γ", BVF), ("!α,β γ", B),
    ("%YAML1.2\n---\nα", R), ("%YAMLα 1.2\n---\nβ", R), ("%TAG!α! β\n---\nγ", R), ("%TAG! β\n---\nγ", R), ("%TAGα !β! γ\n---\nδ", R),
    ("%YAML\n---\nα", R), ("%YAML 1\n---\nα", R), ("%YAML 1.\n---\nα", R), ("%YAML .2\n---\nα", R), ("%YAML a.b\n---\nγ", R), ("%YAML 1.b\n---\nγ", R), ("%YAML a.1\n---\nγ", R), ("%YAML 1.2 3\n---\nα", R), ("%YAML 1.2.3\n---\nα", R), ("%YAML 256.1\n---\nα", R), ("%YAML 1.99999999999\n---\nα", R), ("%YAML -1.2\n---\nα", R), ("%YAML 1 .2\n---\nα", R), ("%YAML 1. 2\n---\nα", R), ("%YAML 99999999999.2\n---\nα", R), ("%YAML 1.300\n---\nα", R),
    ("%TAG\n---\nα", R), ("%TAG !\n---\nα", R), ("%TAG !α!\n---\nβ", R), ("%TAG !α β\n---\nγ", R), ("%TAG α! β\n---\nγ", R), ("%TAG α β\n---\nγ", R), ("%TAG !α! β γ\n---\nδ", R), ("%TAG !α!β γ\n---\nδ", R), ("%TAG \n---\nα", R), ("%TAG ! \n---\nα", R), ("%TAG !α!β!γ\n---\nδ", R), ("%TAG !! \n---\nα", R), ("%TAG !α! \n---\nα", R), ("%TAG !α! \n  β\n---\nγ", R), ("%TAG !α!\n β\n---\nγ", R), ("%TAG\n !α! β\n---\nγ", R), ("%TAG \n !α! β\n---\nγ", R), ("%YAML \n 1.2\n---\nα", R), ("%YAML\n1.2\n---\nα", R), ("%TAG !! \n  !β\n---\nγ", R), ("%TAG !α! \n\n---\nβ", R), ("%TAG !α! \n--- β", R), ("%YAML \n\n 1.1\n---\nα", R),
    // Directives which do not begin their line
    (" %YAML 1.2\n---\nα", R), ("  %TAG !α! β\n---\nγ", R), ("\t%YAML 1.2\n---\nα", R), ("--- %YAML 1.2\n---\nα", R), ("---\n %YAML 1.2\n---\nα", R), ("---\n  %TAG !α! β\n--- γ", R), ("--- %TAG !α! β\n--- γ", R), ("α: %YAML 1.2\n---\nβ", R), ("- %YAML 1.2\n---\nβ", R), ("- %TAG !α! β\n---\nγ", R), ("? %YAML 1.2\n--- β", R), ("&α %YAML 1.2\n--- β", R), ("!α %TAG ! β\n--- γ", R), ("%YAML 1.2 %TAG ! α\n---\nβ", R), ("%TAG ! α %YAML 1.2\n---\nβ", R), ("%YAML 1.2\n %TAG ! α\n---\nβ", R), ("'α'\n...\n %YAML 1.2\n---\nβ", R), ("[α,\n%YAML 1.2\n]", R), ("[\n%YAML 1.2\n---\nα]", R), ("α:\n%YAML 1.2\n", R),
    ("%YAML 1.2\n", R), ("%YAML 1.2", R), ("%TAG !α! β\n", R), ("%YAML 1.2\nα", R), ("%TAG !α! β\nγ: δ", R), ("%YAML 1.2\n...\n", R),
    ("%YAML 1.2\n%YAML 1.2\n---\nα", R), ("%YAML 1.1\n%TAG ! α\n%YAML 1.3\n---\nα", R), ("%TAG !α! β\n%TAG !α! β\n---\nγ", R), ("%TAG !α! β\n%TAG !α! γx\n---\nδ", R), ("%TAG ! α\n%TAG ! α\n---\nβ", R), ("%TAG !! α\n%TAG !! βx\n---\nγ", R), ("%TAG ! !\n%YAML 1.2\n%TAG ! !\n---\nγ", R), ("%TAG !! tag:yaml.org,2002:\n%TAG !! tag:yaml.org,2002:\n---\nα", R), ("%TAG !α! β\n%TAG !q1! γ\n%TAG !α! δ\n--- γ", R),
    // Tags and anchors
    ("!<α", BVF), ("!<α β", BVF), ("!<", BVF), ("!<>", BVF), ("!<> α", BVF), ("!!", BVF), ("!! α", BVF), ("!α! β", BVF), ("!<α β> γ", BVF), ("&α &β γ", BVF), ("!α !β γ", BVF), ("&α\n&β γ", B), ("&α *β", BVF), ("!α *β", BVF), ("!<%> α", BVF), ("!<%4> α", BVF), ("!%zz α", BVF), ("!α%f β", BVF), ("!undefined!α β", BVF), ("&α &β [γ]", BVF), ("!α &β !γ δ", BVF), ("- &α &β", B), ("α: !β !γ\n  δ", B),
];

const WORDS: &[&str] = &["a", "b", "key", "x1", "word", "Foo", "42", "3.14", "null", "longer-word", "é", "中文", "snake_case", "a.b", "v"];

fn word(r: &mut Rng) -> &'static str {
    r.pick(WORDS)
}

pub fn fill(r: &mut Rng, t: &str) -> String {
    let w: Vec<&str> = (0..4).map(|_| word(r)).collect();
    // Names are plainer than words
    let name = |w: &str| w.chars().all(|c| c.is_ascii_alphanumeric());
    let mut s = String::new();
    let mut prev = ' ';
    for c in t.chars() {
        match c {
            'α' | 'β' | 'γ' | 'δ' => {
                let w = w["αβγδ".chars().position(|x| x == c).unwrap()];
                if matches!(prev, '&' | '*' | '!' | '<' | '%') && !name(w) {
                    s.push_str("nm");
                } else {
                    s.push_str(w);
                }
            }
            'σ' => s.push_str(&" ".repeat(r.below(6))),
            _ => s.push(c),
        }
        prev = c;
    }
    s
}

/// Move all lines but the first right
fn hang(s: &str, n: usize) -> String {
    s.replace('\n', &format!("\n{}", " ".repeat(n)))
}

/// Place a faulty text in sound surroundings which cannot make it sound
pub fn place(cx: &mut Ctx, r: &mut Rng, t: &str, how: u8) -> String {
    let mut s = t.to_string();
    let mut how = how;
    if how == F || (how == (V | F) && r.pct(50)) {
        s = format!("[{s}]");
        how = BVF;
    }
    if how & F != 0 && !s.contains('\n') && r.below(2_000) == 0 {
        cx.feat("very deep");
        let n = r.range(250, 300);
        s = if r.pct(50) { format!("{}{s}{}", "[".repeat(n), "]".repeat(n)) } else { format!("{}[{s}]{}", "{a: ".repeat(n), "}".repeat(n)) };
        how = BVF;
    } else if how & B != 0 && r.below(2_000) == 0 {
        cx.feat("very deep");
        let n = r.range(250, 300);
        s = r.pick(&["- ", "? "]).repeat(n) + &hang(&s, 2 * n);
        how = B;
    }
    for _ in 0..r.below(4) {
        let f = how & F != 0 && r.pct(45) && !s.contains('\n');
        let v = how & V != 0 && r.pct(40) && !s.contains('\n');
        if f {
            cx.feat("nested in flow");
            let w = word(r);
            let pair = s.contains(": ");
            s = match r.below(6) {
                0 => format!("[{s}]"),
                1 => format!("[{w}, {s}, {w}]"),
                2 if !pair => format!("{{{w}: {s}}}"),
                3 if !pair => format!("[{w}: {s}, {w}]"),
                4 => format!("[{w}, [{s}]]"),
                _ => format!("[ {s} ]"),
            };
            how = BVF;
        } else if v {
            cx.feat("as a value");
            let w = word(r);
            s = match r.below(4) {
                0 => format!("{w}: {s}"),
                1 => format!("- {s}"),
                2 => format!("? {s}"),
                _ => format!("{w}:\n  {s}"),
            };
            how = B;
        } else if how & B != 0 {
            cx.feat("nested in block");
            let w = word(r);
            s = match r.below(6) {
                0 => format!("{w}:\n  {}", hang(&s, 2)),
                1 => format!("- {}", hang(&s, 2)),
                2 => format!("-\n   {}", hang(&s, 3)),
                3 => format!("- {w}\n- {}", hang(&s, 2)),
                4 => format!("{w}: {w}\n{w}x:\n {}", hang(&s, 1)),
                _ => format!("? {}", hang(&s, 2)),
            };
            how = B;
        }
    }
    s
}

fn flow_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::random(r);
    c.docs = 1;
    c.flow = 100;
    c.colls = 80;
    c.depth = r.range(2, 5);
    c.directives = 0;
    c.brk = Brk::Lf;
    c
}

/// A sound flow collection, with nothing around it
fn flow(r: &mut Rng) -> Option<String> {
    for _ in 0..20 {
        let c = flow_cfg(r);
        let d = gen::stream(r, c);
        let s = d.text.trim_end().to_string();
        if s.starts_with(['[', '{']) && s.ends_with([']', '}']) && matches!(d.ev.get(2), Some(ev::Ev::SeqStart { .. } | ev::Ev::MapStart { .. })) && !s.lines().last().unwrap().contains('#') {
            // Root collection, as against a key which is one
            let root_closed = matches!(d.ev.get(d.ev.len() - 3), Some(ev::Ev::SeqEnd | ev::Ev::MapEnd));
            let key = matches!(d.ev.get(2), Some(ev::Ev::MapStart { .. })) && s.starts_with('[');
            // A block mapping which starts with a flow key
            let block = {
                let mut depth = 0i32;
                d.ev[2..].iter().position(|e| {
                    match e {
                        ev::Ev::SeqStart { .. } | ev::Ev::MapStart { .. } => depth += 1,
                        ev::Ev::SeqEnd | ev::Ev::MapEnd => depth -= 1,
                        _ => {}
                    }
                    depth == 0
                })
            };
            if !root_closed || key || block != Some(d.ev.len() - 5) {
                continue;
            }
            if s.starts_with('{') && matches!(d.ev.get(3), Some(ev::Ev::MapStart { .. })) && !s[1..].trim_start().starts_with(['{', '?', '#']) {
                continue;
            }
            return Some(s);
        }
    }
    None
}

fn leaf(r: &mut Rng) -> &'static str {
    r.pick(&["v", "'v'", "\"v\"", "[v]", "{v: w}", "*v", "|\n@ text", ">\n@ text\n@\n@ more", "&v w", "!v w", "v w", "\"v\n@ w\""])
}

/// Nested block collections, each of which is deeper than the one before
fn levels(r: &mut Rng) -> (String, Vec<(usize, bool)>) {
    let mut s = String::new();
    let mut open: Vec<(usize, bool)> = vec![];
    let mut col = r.below(3);
    let n = r.range(2, 5);
    for i in 0..n {
        let map = r.pct(55);
        open.push((col, map));
        let pad = " ".repeat(col);
        // Siblings
        for k in 0..r.below(3) {
            let l = leaf(r).replace('@', &" ".repeat(col + 2));
            if map {
                s.push_str(&format!("{pad}s{k}: {l}\n"));
            } else {
                s.push_str(&format!("{pad}- {l}\n"));
            }
        }
        if i + 1 == n {
            let l = leaf(r).replace('@', &" ".repeat(col + 2));
            if map {
                s.push_str(&format!("{pad}last: {l}\n"));
            } else {
                s.push_str(&format!("{pad}- {l}\n"));
            }
        } else if map {
            s.push_str(&format!("{pad}k{i}:\n"));
        } else {
            s.push_str(&format!("{pad}-\n"));
        }
        col += r.range(2, 4);
    }
    (s, open)
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let (mut s, what): (String, &str) = match cx.idx % 8 {
        0..=3 => {
            let (t, how) = TEMPLATES[(cx.idx / 8) as usize % TEMPLATES.len()];
            let t = fill(r, t);
            let s = place(cx, r, &t, how);
            (s, "template")
        }
        4 => {
            let Some(s) = flow(r) else { return Ok(()) };
            let mut n = r.range(1, s.len() - 1);
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            (s[..n.max(1)].to_string(), "cut short")
        }
        5 => {
            let Some(mut s) = flow(r) else { return Ok(()) };
            match r.below(3) {
                0 => {
                    let c = s.pop().unwrap();
                    s.push(if c == ']' { '}' } else { ']' });
                    (s, "wrong closer")
                }
                1 => {
                    s.push_str(*r.pick(&["]", "}", " ]", "\n}", ",", " ,"]));
                    (s, "extra closer")
                }
                _ => {
                    s.push_str(*r.pick(&[" x", "\nx: y", " [x]", " 'x'", "\n- x", "\nx", " {x: y}", "\n[x]", " \"x\"", " *x", " &x", " !x", "\n'x'", "\n? x", " |\n x", "\n- - x", " - x", " ? x", "x", " @"]));
                    (s, "trailing content")
                }
            }
        }
        6 => {
            let (mut s, open) = levels(r);
            let deepest = open.last().unwrap().0;
            match r.below(3) {
                0 => {
                    let cols: Vec<usize> = (0..deepest).filter(|c| open.iter().all(|(o, _)| o != c)).collect();
                    if cols.is_empty() {
                        return Ok(());
                    }
                    let c = *r.pick(&cols);
                    s.push_str(&format!("{}{}\n", " ".repeat(c), *r.pick(&["z: w", "- w", "? w", "'z': w", "[z]: w", "&a z: w", "!a z: w", "- - w", "*z : w"])));
                    (s, "unmatched dedent")
                }
                1 => {
                    let (c, map) = *r.pick(&open);
                    let l = if map { *r.pick(&["- w", "-", "- - w", "- w: z"]) } else { *r.pick(&["z: w", "z:", "'z': w", "? z", "[z]: w", "&a z: w", "*z : w"]) };
                    s.push_str(&format!("{}{l}\n", " ".repeat(c)));
                    (s, "wrong entry")
                }
                _ => {
                    let (c, _) = *r.pick(&open);
                    let l = *r.pick(&["z", "'z'", "\"z\"", "[z]", "{z: w}", "z w", "*z", "&a z", "!a z", "-z", ":z", "|\n  z", "a:b"]);
                    s.push_str(&format!("{}{l}\n", " ".repeat(c)));
                    (s, "missing indicator")
                }
            }
        }
        _ => {
            // Keys beyond 1024 characters, of which what decorates and
            // what follows a node are part
            let n = r.range(1025, 1060) + if r.pct(10) { 3000 } else { 0 };
            let (lead, tail) = if r.pct(40) {
                cx.feat("decorated key");
                let lead = match r.below(6) {
                    0 => "&a ".to_string(),
                    1 => "!t ".into(),
                    2 => "&a !!str ".into(),
                    3 => "!<tag:x,2000:y> &a1 ".into(),
                    4 => format!("&{} ", "a".repeat(r.range(1, 500))),
                    _ => format!("!t{}", " ".repeat(r.range(1, 60))),
                };
                (lead, " ".repeat(r.below(40)))
            } else {
                Default::default()
            };
            let n = (n - lead.len() - tail.len()).max(3);
            let mut k = "k".repeat(n);
            let mut i = r.range(1, 60);
            while i + 1 < n {
                k.replace_range(i..i + 1, if r.pct(90) { " " } else { "\t" });
                i += r.range(2, 300);
            }
            let k = match r.below(7) {
                0 => format!("'{k}'"),
                1 => format!("\"{k}\""),
                2 => format!("[{k}]"),
                3 => format!("[{}]", k.replace(' ', ",")),
                4 => format!("{{{k}}}"),
                5 => format!("[[{}], '{}']", &k[..n / 2], &k[n / 2..]),
                _ => k,
            };
            let k = lead + &k + &tail;
            let s = match r.below(8) {
                0 => format!("{k}: v\n"),
                1 => format!("- {k}: v\n"),
                2 => format!("[{k}: v]\n"),
                3 => format!("a: b\n{k}: v\n"),
                4 => format!("a:\n  - {k}:\n      v\n"),
                5 => format!("? a: b\n  {k}: v\n: c\n"),
                6 => format!("? - {k}:\n    - v\n"),
                _ => format!("[a, {k} : v]\n"),
            };
            (s, "long key")
        }
    };
    cx.feat(what);
    if r.pct(25) {
        cx.feat("after documents");
        let lead = match if r.below(1_000) == 0 { 9 } else { r.below(4) } {
            9 => {
                cx.feat("very late");
                match r.below(3) {
                    0 => "--- ok\n".repeat(r.range(250, 300)) + "...\n",
                    1 => "- ok\n".repeat(r.range(32_700, 33_000)) + "...\n",
                    _ => "#\n".repeat(r.range(65_530, 65_600)),
                }
            }
            0 => "--- ok\n...\n".to_string(),
            1 => "- ok\n- ok: [fine]\n...\n".to_string(),
            2 => "# comment\n\n".to_string(),
            _ => work::pad(*r.pick(&["docs", "seq", "quoted"]), r.range(40, 400)),
        };
        s = lead + &s;
    }
    else if s.starts_with("---") && r.pct(70) {
        cx.feat("second document");
        s = r.pick(&["ok\n", "ok: fine\n", "- ok\n", "'ok'\n", "|\n ok\n", "[ok]\n", "--- # c\n", "--- ok\n--- ok\n", "---\n- ok\n", "# c\n", "? ok\n", "--- |\n", "ok:\n  - ok\n", "%YAML 1.2\n--- ok\n"]).to_string() + &s;
    }
    if r.pct(30) && what != "cut short" {
        s.push_str(*r.pick(&["\n", "\n...\n", "\n...\n--- ok\n", "\n...\n- ok\n", "\n\n"]));
    }
    if r.pct(15) {
        s = s.replace('\n', "\r\n");
    }
    cx.distinct(hash_bytes(s.as_bytes()));
    cx.sample(|| format!("[{what}] {}", show(s.as_bytes())));

    for lazy in [false, true] {
        let io = r.pct(15);
        let s = if io && r.pct(60) { work::pad("comments", 8192 - r.below(s.len().min(8192) + 1)) + &s } else { s.clone() };
        cx.input(&s);
        cx.eval();
        let t = if io {
            cx.feat("src io");
            ev::run_read(Script::new(s.as_bytes()).sizes(work::sizes(r)), lazy, s.len())?
        } else {
            ev::run_str(&s, lazy)?
        };
        if lazy {
            cx.feat("mode lazy");
        }
        match &t.err {
            Some(e) => {
                cx.feat(&format!("cat {:?}", e.cat));
                if e.cat == ev::Cat::Io {
                    return Err(format!("{what}: refused, but as an I/O error: {}", e.msg));
                }
            }
            None if t.ok() => return Err(format!("{what}: accepted (lazy: {lazy}, io: {io}), with {} events", t.ev.len())),
            None => cx.feat("deferred error"),
        }
    }
    Ok(())
}
