#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: the one place both come from."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, level=level))


BASE = "Held on the executions of the run, which are random and bounded; says nothing of inputs no workload reaches. Trusts the harness's own oracle, rustc and std."

prop("P01", "Every input is drained without panic, abort, overflow or endless stream",
     "Whatever bytes it is given, through whichever reader and in either mode, the library neither panics, aborts, overflows an integer or the stack, nor loops: it delivers a number of events bounded by the length of its input, and then ends for good, as it does after the first error. Bytes which are not UTF8 are refused, not read.",
     ["inputs", "configurations"], "All byte strings (including ones nested or repeated 10^5 deep, or cut anywhere), every reader, eager and lazy.",
     "The unit tests sample a few dozen well chosen texts, nearly all valid; a panic hides in the malformed ones, in multi-byte characters at the wrong place, or at the end of a cut text.",
     ["src/scanner/mod.rs", "src/scanner/macros.rs", "src/event/mod.rs", "src/event/parser/mod.rs", "src/scanner/scalar/escape.rs"],
     [("advancing the buffer by whole characters", "src/scanner/macros.rs advance!/widthOf!"), ("end of the stream after an error", "src/event/mod.rs EventIter::next_event"), ("parser state machine with an explicit stack", "src/event/parser/mod.rs Parser::next_event")],
     ["events and errors delivered by the iterator", "panic hook, exit status and CPU time of the worker process"],
     "runtime monitoring: crash, panic, overflow and event-count monitor under hostile inputs", BASE)

prop("P02", "What an event borrows stays valid and unchanged for as long as it may be held",
     "Every text an event holds, borrows or may yet evaluate stays valid and keeps its value until the reader it came from is dropped: while the reader fetches more of its source, fails, or panics, after the iterator and event stream are gone, and in whatever order the events are read. The library has no undefined behaviour, leaks no memory, and hands no reader out twice in a way that would break this.",
     ["inputs", "histories", "fault_sequences"], "All streams, all orders of keeping, evaluating and dropping events, all ways a source may serve, fail, panic or call back.",
     "Tests read each event as it comes, from sources which never fail; a stale borrow of a refilled buffer usually still reads right under an ordinary allocator.",
     ["src/reader/owned.rs", "src/reader/mod.rs", "src/reader/borrow.rs", "src/scanner/scalar/block.rs", "src/scanner/scalar/plain.rs", "src/scanner/scalar/flow.rs", "src/token.rs"],
     [("append only list of chunks, kept until the reader is dropped", "src/reader/owned.rs OwnedImpl/Impl::refresh_buffer"), ("re-entrance and second stream guards", "src/reader/owned.rs read_next_chunk, new_reader"), ("deferred scalars own or borrow what they need", "src/scanner/scalar/*.rs *Lazy")],
     ["contents of kept events", "poisoning allocator, AddressSanitizer, Miri"],
     "runtime monitoring: AddressSanitizer, Miri, poisoning and counting allocator under event retention workloads",
     "Held on the executions of the run. ASan and Miri see each memory access of theirs; the native build sees staleness by a poisoning allocator. Trusts these tools and the harness.")

prop("P03", "Event streams are always well formed",
     "Every event stream follows the documented grammar: one stream start and end, documents bracketed in order, collections opened and closed in pairs, mappings with a value for every key, and exactly one root per document which has content; one which ends in an error is a prefix of such a stream. Node kinds, tag handles and directives agree with where the events are: a key is where a key is due, a shorthand tag's handle is one its document knows.",
     ["inputs", "configurations"], "All texts, valid or not, every reader, eager and lazy.",
     "Tests compare a few literal event lists; the pairing must survive every mixture of empty nodes, implied keys, indentation changes and errors.",
     ["src/event/parser/mod.rs", "src/event/state.rs", "src/event/types.rs", "src/scanner/mod.rs"],
     [("state machine", "src/event/parser/mod.rs Parser, src/event/state.rs State"), ("synthesised block ends and entries", "src/scanner/mod.rs unroll_indent, roll_indent, pop_zero_indent_sequence")],
     ["sequence of events from the iterator"],
     "runtime monitoring: online pushdown monitor of the event grammar", BASE)

prop("P04", "How input arrives does not change what is read",
     "A text gives the same events, texts, positions and error whether it is given as a string, as bytes, or through a reader of any kind, and however a reader splits it: single bytes, short reads, or boundaries in the middle of a character, line break, indicator or token.",
     ["inputs", "schedules", "configurations"], "All texts, every placement of chunk boundaries, all sequences of short reads, eager and lazy.",
     "Tests use inputs smaller than one chunk, so the code which stops at a boundary and resumes after it is never run.",
     ["src/reader/owned.rs", "src/reader/mod.rs", "src/scanner/macros.rs", "src/scanner/mod.rs", "src/scanner/scalar/plain.rs", "src/scanner/scalar/block.rs"],
     [("requests for more data before looking ahead", "src/scanner/macros.rs cache!"), ("resuming the scan in a longer buffer", "src/reader/owned.rs drive_scanner"), ("partial characters kept for the next chunk", "src/reader/owned.rs refresh_buffer")],
     ["traces of events, marks, texts and errors per way of delivery"],
     "runtime monitoring: differential trace checker over scripted chunk boundaries", BASE)

prop("P05", "Deferring evaluation changes nothing but when it happens",
     "Reading lazily and then evaluating every deferred scalar gives the very events, texts and styles that reading eagerly gives, and fails exactly when reading eagerly does; the events before an eager error are delivered lazily as well. Every scalar which is written out is deferred when asked to, and an error in its content is that scalar's alone: it ends no stream, and shows only when the scalar is evaluated.",
     ["inputs", "configurations"], "All texts, every reader.",
     "Lazy and eager scalars are scanned by separate code; tests compare them on a handful of scalars.",
     ["src/scanner/scalar/plain.rs", "src/scanner/scalar/flow.rs", "src/scanner/scalar/block.rs", "src/event/types.rs", "src/event/flag.rs"],
     [("skipping scanners which find the end of a scalar", "src/scanner/scalar/plain.rs, flow.rs, block.rs *_lazy"), ("deferred evaluation", "src/event/types.rs ScalarLike::evaluate")],
     ["traces of events and evaluated scalars in both modes"],
     "runtime monitoring: differential trace checker, eager against lazy", BASE)

prop("P06", "Documents read as YAML 1.2 says they do",
     "For every stream which the YAML 1.2 specification allows and the library documents itself to support, the events are the ones the specification assigns to it: structure, kinds and styles of nodes, contents, tags, anchors, aliases, document markers and directives, whatever mixture of block and flow styles, indentation, comments, line breaks and empty nodes it is written in.",
     ["inputs", "programs"], "All streams of the productions of the generator: any nesting of block and flow collections, scalars of all styles, properties, comments and separations, several documents.",
     "The tests check each construct alone, or in a few fixed combinations; faults are in how constructs meet.",
     ["src/scanner/mod.rs", "src/event/parser/mod.rs", "src/scanner/context.rs", "src/scanner/key.rs", "src/scanner/entry.rs"],
     [("simple key tracking", "src/scanner/key.rs, src/scanner/mod.rs save_key, expire_stale_key"), ("indentation tracking", "src/scanner/context.rs, src/scanner/mod.rs roll_indent/unroll_indent"), ("production of events", "src/event/parser/mod.rs")],
     ["events of the stream"],
     "runtime monitoring: reference events from a generator of the specification's productions", BASE + " Limits of the library which it documents or leaves open are not generated (DESIGN.md).")

prop("P07", "Plain and quoted scalars read back exactly",
     "The content of a plain, single or double quoted scalar is what the specification makes of its text, character for character: escapes are decoded, and malformed ones refused, lines are folded, trailing and leading white space of lines is dropped, quotes are unescaped, and nothing else is changed, lost or added, wherever the scalar stands.",
     ["inputs", "configurations"], "All sequences of pieces (characters of any plane, escapes, quotes, backslashes, folds, escaped breaks); the BMP and the escapes are enumerated.",
     "Tests have one or two scalars per escape and per kind of fold, not their combinations, lengths, or positions in a stream.",
     ["src/scanner/scalar/flow.rs", "src/scanner/scalar/plain.rs", "src/scanner/scalar/escape.rs"],
     [("escape decoding", "src/scanner/scalar/escape.rs flow_unescape"), ("line folding", "src/scanner/scalar/flow.rs, plain.rs")],
     ["content and style of the scalar event"],
     "runtime monitoring: model of flow scalars checked against delivered contents", BASE)

prop("P08", "Block scalars read back exactly",
     "The content of a literal or folded scalar is what the specification makes of its header and lines: indentation (detected or given) is removed and no more, lines are kept or folded, more indented lines are not folded, trailing breaks are stripped, clipped or kept, and the scalar ends where its indentation does.",
     ["inputs", "configurations"], "All headers and sequences of lines: up to 4 of 10 kinds of lines are enumerated, longer ones random; all places of the scalar, all ends of the stream.",
     "Tests have a few scalars per header; the rules interact (empty lines of indentation, more indented lines, chomping and the end of the stream).",
     ["src/scanner/scalar/block.rs"],
     [("header and indentation detection", "src/scanner/scalar/block.rs scan_headers, scan_indent_auto"), ("folding and chomping", "src/scanner/scalar/block.rs fold/scan_chomp")],
     ["content and style of the scalar event, events after it"],
     "runtime monitoring: model of block scalars checked against delivered contents", BASE)

prop("P09", "Tags, anchors, aliases and directives are reported on the right node",
     "Every tag, anchor and alias is reported, decoded, on exactly the node it was written on, be it a scalar, a collection or an empty node, a key or a value; the directives of a document are in force, and are reported, for that document and no other; and tags with unknown handles, repeated properties or directives, and malformed escapes are refused.",
     ["inputs", "histories"], "All sequences of documents with directives, all placements and forms of properties, tag escapes over all of Unicode.",
     "Tests have properties on scalars and one or two collections; that one never slips to a neighbouring node, or a directive to the next document, is about all combinations.",
     ["src/scanner/tag.rs", "src/scanner/anchor.rs", "src/scanner/directive.rs", "src/event/parser/mod.rs", "src/event/types.rs"],
     [("node properties", "src/event/parser/mod.rs parse_node"), ("directives per document", "src/event/parser/mod.rs document start"), ("percent escapes", "src/scanner/tag.rs scan_tag_uri, scalar/escape.rs tag_uri_unescape")],
     ["tags, anchors and names of events, directives of document starts"],
     "runtime monitoring: reference model of node properties and directives", BASE)

prop("P10", "Malformed streams are refused",
     "A text which no reading of the specification allows ends in an error, never in a silently completed stream: unclosed or mismatched delimiters, misplaced indicators, content where none may be, indentation which fits nothing, bad escapes, headers or directives, whether in a small text or deep inside a large valid one.",
     ["inputs"], "All texts with one such fault: about 200 templates of faults at random depths, and random streams cut, or broken in ways which are certain to be faults.",
     "Tests have few negative inputs; leniency appears when an error check is skipped in one of many contexts.",
     ["src/scanner/mod.rs", "src/scanner/error.rs", "src/event/parser/mod.rs", "src/event/error.rs"],
     [("scanner errors", "src/scanner/error.rs, src/scanner/mod.rs"), ("parser errors", "src/event/error.rs, src/event/parser/mod.rs")],
     ["whether the stream ends in an error"],
     "runtime monitoring: rejection monitor under fault templates and certain mutations", BASE)

prop("P11", "Failures of a source are reported, and lose or invent nothing",
     "When a source fails, or delivers bytes which are not UTF8, at any point, the stream ends in an error which is of the right category and carries the source's own error, as what it converts to and among the errors behind it (for bytes, the UTF8 error of the very place); the events before it are ones the sound text has, and none comes after it. A source which is merely interrupted or serves little at a time changes nothing.",
     ["fault_sequences", "inputs"], "All points of failure, error kinds, sequences of interruptions, and kinds of invalid UTF8, at and around chunk boundaries.",
     "No test has a source which fails half way; a fault at a boundary meets the code which resumes.",
     ["src/reader/owned.rs", "src/reader/error.rs", "src/error.rs"],
     [("filling a chunk, retrying interruptions", "src/reader/owned.rs read_fill"), ("validation of chunks", "src/reader/owned.rs refresh_buffer"), ("error conversion", "src/error.rs")],
     ["events before the error, its category, source and io kind"],
     "runtime monitoring: fault injection at every offset with a prefix and error-identity oracle", BASE)

prop("P12", "What can be borrowed from a borrowed source is, and from the right place",
     "Texts of a borrowed source which need no processing (scalars on one line, anchors, aliases, tags without escapes) are handed out as borrows of exactly where they were written, whenever they are evaluated; whatever is borrowed lies within the source and outlives the event stream it came from.",
     ["inputs", "configurations"], "All streams of such pieces, and, for borrows lying within the source, all streams at all; eager and lazy, evaluated at once or late.",
     "Tests compare contents; a copy, or a borrow of an equal text elsewhere, compares equal.",
     ["src/scanner/scalar/plain.rs", "src/scanner/scalar/flow.rs", "src/scanner/scalar/block.rs", "src/scanner/tag.rs", "src/scanner/anchor.rs", "src/event/types.rs"],
     [("borrowing unless text must change", "src/scanner/scalar/*.rs can_borrow/set_no_borrow, src/scanner/tag.rs")],
     ["addresses and ownership of the texts of events"],
     "runtime monitoring: address monitor on every text handed out", BASE + " Plain scalars which end their line are copied by design, and are not claimed.")


prop("P13", "However a stream is iterated, and beside whatever else, it gives the same",
     "An event stream gives the same events, marks, texts and error however its iterator is driven: by one iterator or by several one after the other, by reference, by value or through adaptors, in turns with other streams over the same or other readers, in other threads, with scalars evaluated at once, later or more than once; an ended stream stays ended. A reader which borrows its source serves any number of streams, each from the start; one which owns it serves the first stream that reads, and refuses every other with an I/O error, which does the first no harm.",
     ["inputs", "histories", "schedules", "configurations"], "All texts, all sequences of calls on streams, iterators, readers, events and deferred scalars, interleaved in any way.",
     "Tests drain each stream at once with a single iterator; state which leaks between iterators, streams or evaluations shows only when they are mixed.",
     ["src/event/mod.rs", "src/event/types.rs", "src/event/flag.rs", "src/reader/mod.rs", "src/reader/owned.rs", "src/reader/borrow.rs", "src/lib.rs"],
     [("iterators over shared stream state", "src/event/mod.rs Events, EventIter, EventIterRef"), ("deferred scalars", "src/event/types.rs ScalarLike"), ("first stream of an owned reader", "src/reader/owned.rs new_reader/Impl"), ("flags", "src/event/flag.rs")],
     ["results of every call on iterators, events and scalars"],
     "runtime monitoring: differential trace checker over random API histories", BASE)

prop("P14", "Layout which carries no meaning changes nothing",
     "Rewriting the layout of a stream leaves its events as they were, but for what the rewriting itself adds, and leaves broken streams broken in the same way: line breaks of another kind, comments and blank lines before or after it, blanks at line ends, a missing last line break, document markers made explicit, several streams made one, and a document indented further and moved into block collections, with or without properties, any number of times, or after any number of other documents.",
     ["inputs", "programs"], "All texts to which a rewriting applies, valid or not, every reader, eager and lazy.",
     "Tests fix one layout per construct; the scanner's handling of breaks, indentation and markers is spread over every kind of token.",
     ["src/scanner/mod.rs", "src/scanner/context.rs", "src/scanner/macros.rs", "src/scanner/scalar/plain.rs", "src/scanner/scalar/flow.rs", "src/scanner/scalar/block.rs", "src/event/parser/mod.rs"],
     [("skipping white space and comments", "src/scanner/mod.rs eat_whitespace"), ("line breaks", "src/scanner/macros.rs isBreak!, advance!(@line)"), ("indentation", "src/scanner/context.rs, src/scanner/mod.rs roll_indent/unroll_indent"), ("document boundaries", "src/event/parser/mod.rs document_start, document_end")],
     ["events of the rewritten text against those of the original"],
     "runtime monitoring: metamorphic trace checker over layout rewritings", BASE + " Texts which hold block scalars or escapes are left out of rewritings which would change them.")

prop("P15", "What reading takes is bounded by what is read",
     "With a borrowed source, and events dropped as they come, the memory held at any time grows with the depth of nesting and the largest scalar, never with the length of the stream; all memory allocated, and the time taken, grow in proportion to the length. Scalars which are deferred, and never evaluated, allocate nothing for their contents. An io::Read is pulled no further ahead of the events than in proportion to what was read, so that a stream which never ends can be followed, and everything is given back in the end.",
     ["inputs", "histories", "configurations"], "All streams made of repeated parts: documents, entries and pairs of all kinds of collections, directives, nesting, and contents of scalars of every style.",
     "Tests look at events of short texts, never at what they cost; a queue which is never drained, or a scan which starts over, shows at length only.",
     ["src/scanner/mod.rs", "src/scanner/context.rs", "src/scanner/key.rs", "src/queue.rs", "src/event/parser/mod.rs", "src/event/state.rs", "src/event/flag.rs", "src/reader/owned.rs", "src/scanner/scalar/plain.rs", "src/scanner/scalar/flow.rs", "src/scanner/scalar/block.rs"],
     [("tokens are queued only while a key is possible", "src/scanner/mod.rs scan_tokens, expire_stale_saved_key; src/queue.rs"), ("deferral of scalars, O_LAZY", "src/event/flag.rs, src/scanner/scalar/*.rs"), ("chunked reading", "src/reader/owned.rs next_capacity, drive_scanner")],
     ["allocations of the thread, CPU time of the thread, bytes pulled from the source, by event"],
     "runtime monitoring: counting allocator, CPU clock and read-ahead monitor over growing texts", BASE + " Time is compared by a factor of 6 in the best of several runs; runs of white space, and single tokens larger than a chunk of an io::Read, are held whole by design.")

prop("P16", "Marks say where events were written",
     "The marks of an event are a start and an end in the text, on characters, start no later than end; marks of the events of a stream are in order and do not overlap. What an event stands for, if it is written at all (the text of a scalar, an alias, an anchor, a tag, a bracket, an indicator, a document marker) is found between the end of the last event written before it and its own end; single line scalars, aliases, flow brackets and document markers end exactly where their event ends, block collections start with their first entry, a node with properties begins no later than what they belong to, and the stream ends at the end of the text.",
     ["inputs", "configurations"], "All texts, whether valid or not, up to the error; every reader, eager and lazy.",
     "Few tests look at marks, and those on one line of text; an offset which drifts by a byte per escape, break or refill leaves every event as it was.",
     ["src/event/types.rs", "src/event/parser/mod.rs", "src/event/parser/macros.rs", "src/scanner/entry.rs", "src/scanner/stats.rs", "src/scanner/mod.rs"],
     [("positions of tokens", "src/scanner/stats.rs MStats, src/scanner/entry.rs TokenEntry::new"), ("marks of events", "src/event/parser/mod.rs, src/event/parser/macros.rs"), ("offset of a chunk", "src/reader/owned.rs")],
     ["Event::start and Event::end against the text"],
     "runtime monitoring: online checker of marks against the source text", BASE + " Events which are not written (ends of block collections, implied documents, empty scalars) are only held to order and bounds.")

prop("P17", "Errors say what is wrong with the text",
     "A text in UTF8, from a source which does not fail, is only ever refused as a syntax error or as one which ends too soon, never as bad data or an I/O error; it is said to end too soon if it is cut within a quoted scalar, an escape, or a verbatim tag. A fault of a kind the library documents (an entry, key, value or node which is missing or not allowed, a collection which is not continued or closed, an unknown token, escape, directive or tag handle, a repeated directive, a bad header, version, tag or name, a marker within quotes, a missing document marker) is reported as what it is, wherever it lies: at any depth, in any document, from any reader, and, for the content of deferred scalars, when they are evaluated.",
     ["inputs", "configurations"], "All texts, with a fault of each kind in any surroundings, or cut within any token; every reader, eager and lazy.",
     "Tests compare a handful of errors; which of some thirty codes a fault ends in depends on what the scanner and the parser's states let pass before they give up, which no test of one construct shows.",
     ["src/error.rs", "src/scanner/error.rs", "src/event/error.rs", "src/reader/error.rs", "src/scanner/mod.rs", "src/scanner/tag.rs", "src/scanner/anchor.rs", "src/scanner/directive.rs", "src/scanner/scalar/escape.rs", "src/scanner/scalar/flow.rs", "src/event/parser/mod.rs"],
     [("codes and their category", "src/error.rs ErrorCode, Category"), ("conversion between the layers", "src/scanner/error.rs, src/event/error.rs, src/reader/error.rs"), ("where codes are raised", "src/scanner/*.rs, src/event/parser/mod.rs")],
     ["Error::classify, Display of the error which ends the stream, or the evaluation"],
     "runtime monitoring: checker of error category and message over planted faults and cut texts", BASE + " Faults which may fairly be described in several ways are held to a set of messages, or left out.")

prop("P18", "Events are values: written to, copied, compared or printed, they stay apart",
     "What is delivered belongs to its holder. Writing to an event (the text of its scalar, evaluated in place if it was deferred, its anchor, tag, name, kind, directives or content) makes it read as written, and shows in no other event, no copy made before, no event still to come and no later reading. Two events, of one stream or of several, eager ones or ones evaluated since, are equal if and only if all they tell is; deferred scalars equal nothing. Readers, streams, iterators, events, scalars and errors can be printed at any moment, whatever text they hold and wherever the sink gives up, which changes nothing of what is read; an error which says that it knows its place gives one of the text. The default directives and the empty scalar are what they are documented to be.",
     ["inputs", "histories", "configurations"], "All texts, every reader, eager and lazy; all sequences of printing, copying, comparing and writing in the course of a stream.",
     "Tests compare events with expected ones and print them only when they fail; equality which overlooks a field, printing which assumes its text to be ASCII, and state shared by copies need texts and histories no test has.",
     ["src/event/types.rs", "src/event/mod.rs", "src/error.rs", "src/token.rs", "src/queue.rs", "src/reader/owned.rs", "src/reader/mod.rs"],
     [("values with borrowed or owned text", "src/event/types.rs Event, EventData, Scalar, Slice"), ("equality", "src/event/types.rs PartialEq for ScalarLike, derives"), ("Debug and Display", "src/error.rs, src/queue.rs, src/reader/owned.rs, derives"), ("defaults", "src/event/types.rs DEFAULT_TAGS, Directives, EMPTY_SCALAR")],
     ["contents, equality and printed forms of events, copies and errors"],
     "runtime monitoring: shadow copies of every event, compared after random writes, prints and comparisons", BASE)


def load_more():
    p = os.path.join(HERE, "tools", "meta_more.py")
    if os.path.exists(p):
        exec(compile(open(p).read(), p, "exec"), globals())


load_more()

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
        assert len(p["title"]) <= 80, p["title"]

with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "No hooks: every monitor observes the library through its public interface. Known and repaired defects are in known-findings.txt.",
    }, f, indent=1)
    f.write("\n")
