#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here so that they stay in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Span locations stay exact through every history of parses and faults",
     "After any sequence of successful, rejected, interrupted (panicking or out-of-memory) and repeated parses on a thread, every span "
     "of every token, of both delimiters of a group, of a lex error, of a join and of a literal's subspan reports exactly the byte range, "
     "line, column (in characters), file name and source text of the characters it stands for in the text it was parsed from. "
     "The answer does not depend on how often, in which order or when locations are queried, nor on what was parsed before or after, and "
     "joining spans of different source texts gives nothing.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of parse, failed parse, literal parse, join, subspan, set-span, location query and caught panic on one thread, with "
     "an allocation failure or an iterator or sink panic at any point",
     "tests/test.rs checks one or two fixed sources per query; none repeats queries in another order, parses non-ASCII sources after "
     "rejected ones, or fails a parse half way, and the file table is thread-wide state that only a history exercises",
     ["src/fallback.rs", "src/parse.rs", "src/rcvec.rs", "src/location.rs", "src/lib.rs"],
     [("thread-wide source map assigning each parsed text a range of positions", "src/fallback.rs SourceMap::add_file"),
      ("binary search for the file of a span", "src/fallback.rs SourceMap::find"),
      ("lazily built character-to-byte index, filled by whichever query comes first", "src/fallback.rs FileInfo::byte/source_text"),
      ("positions taken by the parser", "src/parse.rs Cursor::advance, token_stream, LexError spans"),
      ("span join, subspan of literals", "src/fallback.rs Span::join, Literal::subspan")],
     [("SOURCE_MAP", "files parsed so far on the thread, with their position ranges", "src/fallback.rs"),
      ("FileInfo::char_index_to_byte_offset", "cache of character to byte offsets", "src/fallback.rs")],
     ["Span::byte_range/start/end/file/local_file/source_text/join", "Literal::subspan", "LexError::span"])

prop("C02", "Threads do not disturb each other",
     "Whatever other threads parse, build, invalidate or drop, and however they are interleaved, each thread obtains exactly the tokens, "
     "span locations, errors and printed text it would obtain if it ran alone. "
     "No interleaving crashes or blocks a thread.",
     ["schedules", "histories"],
     "all interleavings (at operations, callbacks, allocations and single machine instructions) of 2 to 4 threads running arbitrary "
     "workloads, outside macros and inside simulated macro expansions",
     "the test suite uses a second thread only to force the fallback; nothing runs two workloads at once, and a test would see one interleaving",
     ["src/fallback.rs", "src/rcvec.rs", "src/wrapper.rs", "src/detection.rs", "src/parse.rs"],
     [("per-thread source map", "src/fallback.rs thread_local SOURCE_MAP"),
      ("reference-counted token storage that never leaves a thread", "src/rcvec.rs, src/marker.rs"),
      ("process-wide implementation selection", "src/detection.rs")],
     [("WORKS / INIT", "process-wide selection shared by all threads", "src/detection.rs")],
     ["every public operation"])

prop("C03", "Invalidating spans affects only this thread's old spans and frees memory",
     "After the current thread's spans are invalidated, spans created afterwards report exact locations, tokens created before keep their "
     "content and structure, other threads' spans are untouched, and the memory held for old sources is released. "
     "Using an invalidated span may give an arbitrary answer or a panic, but never a crash or any damage to tokens, to fresh spans or to later parses. "
     "A thread that keeps invalidating can parse without limit on the total amount of source.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences mixing parses, invalidations, queries of fresh and stale spans and drops, on one or several interleaved threads",
     "the tests invalidate a fixed number of times on one thread and check one span; they cannot reach 4 GiB of sources, other threads or stale spans after faults",
     ["src/extra.rs", "src/fallback.rs", "src/rcvec.rs"],
     [("truncating the source map to its first entry", "src/fallback.rs invalidate_current_thread_spans"),
      ("position numbering restarts", "src/fallback.rs SourceMap::next_start_pos"),
      ("refusal inside a procedural macro", "src/wrapper.rs invalidate_current_thread_spans")],
     [("SOURCE_MAP", "files parsed since the last invalidation", "src/fallback.rs")],
     ["extra::invalidate_current_thread_spans", "Span queries", "memory in use"])

prop("C04", "Token streams behave as independent values under any sharing and failure",
     "A token stream is a value: whatever is done to one clone, iterator, group or nested stream (extending, iterating, dropping, "
     "re-wrapping, setting spans), every other holder keeps seeing exactly the tokens it had, and each operation yields exactly the tokens "
     "in order that its inputs determine. "
     "If an iterator being consumed panics, calls back into the library, misreports its length, or memory runs out, every other stream is "
     "unchanged, and the stream being extended holds what it held before, followed by at most the tokens the iterator had already yielded, in order.",
     ["histories", "fault_sequences"],
     "all programs over a pool of shared streams, iterators, groups and tokens, with a fault at any item of any iterator or at any allocation",
     "tests extend or clone a few literal streams; copy-on-write depends on the reference counts of the moment and the failure paths are never taken",
     ["src/rcvec.rs", "src/fallback.rs", "src/wrapper.rs", "src/lib.rs"],
     [("copy-on-write vector", "src/rcvec.rs make_mut/make_owned/get_mut"),
      ("push with negative-literal splitting", "src/fallback.rs push_token_from_proc_macro/push_negative_literal"),
      ("extend and collect of streams", "src/fallback.rs Extend/FromIterator, src/wrapper.rs"),
      ("owning iterator", "src/fallback.rs TokenTreeIter, src/rcvec.rs IntoIter")],
     [("RcVec strong count", "who else holds the same storage", "src/rcvec.rs")],
     ["TokenStream clone/extend/collect/into_iter", "Group::new/stream", "token_stream::IntoIter size_hint"])

prop("C05", "Inside a macro, the tokens and spans the compiler gets are exactly those built",
     "In a procedural macro, what a stream appears to contain to the macro, and what the compiler finally receives, is exactly the sequence "
     "of tokens, delimiters, spacing, literals and spans the macro built, however appends, clones, iteration, printing, conversions and "
     "compiler round trips are interleaved. "
     "Spans and literal subspans answer what the compiler answers; if a call into the compiler fails, the failure reaches the macro as a "
     "panic or error, no token is duplicated or reordered, and no compiler-side handle is leaked.",
     ["histories", "fault_sequences", "configurations"],
     "all histories of stream operations inside one or several expansions against a simulated compiler, with a failure in any compiler call",
     "the test suite runs outside the compiler, so the compiler-backed half of every type is exercised by no test except type checks",
     ["src/wrapper.rs", "src/lib.rs", "src/detection.rs", "src/fallback.rs"],
     [("deferred token buffer in front of the compiler's stream", "src/wrapper.rs DeferredTokenStream::evaluate_now/into_token_stream"),
      ("mapping of each token kind to the compiler's", "src/wrapper.rs into_compiler_token"),
      ("span and literal delegation", "src/wrapper.rs Span, Literal")],
     [("DeferredTokenStream.extra", "tokens appended but not yet given to the compiler", "src/wrapper.rs")],
     ["every operation inside a simulated expansion", "what the simulated compiler receives"])

prop("C06", "Choosing the implementation is atomic: force, unforce and first use linearize",
     "Concurrent first uses, force and unforce calls behave as if executed one at a time in some order consistent with real time: after a "
     "completed force every use is self-contained, after a completed unforce every use follows whether a compiler is present, and no "
     "in-progress first use can undo either. "
     "No schedule deadlocks, blocks forever or crashes.",
     ["schedules", "histories"],
     "all interleavings at single-instruction granularity of 2 to 4 threads doing 1 to 4 forces, unforces and uses each, from a process in which "
     "nothing has been selected yet, with and without a compiler present",
     "the tests call force and unforce from a single thread; a test process has exactly one first use",
     ["src/detection.rs", "src/fallback.rs", "src/wrapper.rs"],
     [("lazy detection and publication", "src/detection.rs inside_proc_macro, initialize"),
      ("explicit selection", "src/detection.rs force_fallback, unforce_fallback")],
     [("WORKS", "0 unknown, 1 self-contained, 2 compiler-backed", "src/detection.rs"), ("INIT", "one-time detection", "src/detection.rs")],
     ["fallback::force/unforce", "is_available-dependent behaviour of Span::call_site, Ident::new, parsing"])

prop("C07", "Compiler-backed and self-contained values are never silently mixed",
     "If the implementation is switched in the middle of an expansion, values made before and after the switch keep their content; every "
     "operation that would combine a compiler-backed and a self-contained value either gives the correct result or panics, and never drops, "
     "duplicates, reorders or re-labels tokens or yields a span of the other implementation. "
     "After such a panic every value involved and the library remain usable.",
     ["histories", "fault_sequences"],
     "all histories in which force, unforce, entering and leaving expansions are interleaved with building, combining, comparing, printing and converting values",
     "the tests never run inside a macro, so the two implementations never meet",
     ["src/wrapper.rs", "src/detection.rs"],
     [("mismatch detection", "src/wrapper.rs mismatch, unwrap_nightly/unwrap_stable"),
      ("selection", "src/detection.rs")],
     [("WORKS", "which implementation new values use", "src/detection.rs")],
     ["every binary operation between values", "From conversions to and from proc_macro types"])

prop("C08", "Invalid source inside a macro is a recoverable error",
     "Inside a macro, parsing text that is not a valid token stream or literal returns an error value with a compiler span and never a panic, "
     "abort or a compiler diagnostic, and text the library itself rejects is never handed to the compiler. "
     "When the compiler rejects or panics on text the library accepts, that too becomes an error value, and later parses are unaffected.",
     ["inputs", "fault_sequences", "histories"],
     "all valid, damaged and truncated texts, inside an expansion, with the compiler's parser succeeding, rejecting or panicking",
     "no test parses inside a macro; the compiler's rejection and panic paths are reached by none",
     ["src/wrapper.rs", "src/parse.rs", "src/fallback.rs"],
     [("validate with the library's own parser first", "src/wrapper.rs TokenStream::from_str_checked, Literal::from_str_checked"),
      ("catching the compiler's panic", "src/wrapper.rs proc_macro_parse, LexError::CompilerPanic")],
     [],
     ["TokenStream::from_str, Literal::from_str, LexError inside a simulated expansion", "texts the simulated compiler was asked to parse"])

prop("C09", "A failing or panicking output never corrupts printing",
     "Printing any value to an output that fails or panics at any point delivers a prefix of the text a working output would receive, "
     "reports the output's own error, and stops writing. "
     "The value prints identically afterwards, also when the output itself uses the library while being written to.",
     ["fault_sequences", "histories", "inputs"],
     "all values and all write positions at which the output returns an error, panics, or re-enters the library, for display and debug, plain and alternate",
     "tests print only to growing strings, which never fail",
     ["src/fallback.rs", "src/lib.rs", "src/wrapper.rs", "src/extra.rs", "src/location.rs"],
     [("error propagation through every nested write", "src/fallback.rs Display/Debug for TokenStream, Group, Ident, Literal, Punct"),
      ("debug helpers", "src/wrapper.rs debug_span_field_if_nontrivial")],
     [],
     ["Display and Debug of every public type through fmt::Write"])

prop("C10", "Nesting depth is limited by memory, not by the stack",
     "Parsing, building, cloning, walking one level at a time and dropping token streams nested arbitrarily deeply succeeds on a thread with a small stack, "
     "and so does rejecting deeply nested invalid text. "
     "Dropping frees everything, whether or not parts of the nest are still shared.",
     ["inputs", "fault_sequences", "histories"],
     "nesting depths up to hundreds of thousands, of every delimiter, shared at random depths, on stacks from 128 KiB",
     "the one existing test drops one fixed nest on the default stack",
     ["src/fallback.rs", "src/parse.rs", "src/rcvec.rs", "src/lib.rs"],
     [("non-recursive drop", "src/fallback.rs Drop for TokenStream"),
      ("parser with an explicit stack", "src/parse.rs token_stream"),
      ("shared storage", "src/rcvec.rs")],
     [],
     ["parse, drop, clone and iterate on a simulated thread with a small stack"])

prop("C11", "Values survive thread teardown in any order",
     "Streams, iterators, tokens and spans stored in a thread's local storage can be used, queried, extended, parsed into and dropped while the thread "
     "exits or after it was killed by a panic, in whatever order its locals are destroyed, without aborting the process, leaking or corrupting memory. "
     "Where a per-thread facility is already gone, the outcome is an ordinary panic that can be caught.",
     ["schedules", "histories", "crash_points"],
     "all orders of thread-local registration, all operation sequences before and during destruction, with the thread killed by a panic at any operation",
     "no test puts a value in thread-local storage or lets a thread die",
     ["src/fallback.rs", "src/rcvec.rs", "src/wrapper.rs"],
     [("thread-local source map accessed with a destructor", "src/fallback.rs thread_local SOURCE_MAP"),
      ("drops that do not need it", "src/rcvec.rs Drop, src/fallback.rs Drop for TokenStream")],
     [("SOURCE_MAP", "destroyed at thread exit", "src/fallback.rs")],
     ["destructors of a simulated thread's locals"])

prop("C12", "Torn or corrupted source is contained",
     "Parsing a source cut off at any byte or with any bytes flipped, duplicated or lost (a torn or corrupted read) terminates with either tokens or an error "
     "value whose span lies within that text at or before its end, never with a panic, hang or crash; the outcome is the same every time. "
     "It leaves all existing values, spans and later parses on the thread exactly as if it had been a different text.",
     ["inputs", "fault_sequences", "histories"],
     "all cut points and corruptions of generated sources (any Unicode, all token kinds), interleaved with undamaged parses",
     "the tests parse a fixed list of invalid fragments, each on fresh state",
     ["src/parse.rs", "src/fallback.rs"],
     [("every scanner returns a rejection instead of indexing past the end", "src/parse.rs"),
      ("rejected texts still occupy the source map", "src/fallback.rs TokenStream::from_str_checked")],
     [],
     ["TokenStream::from_str, Literal::from_str, LexError::span"])

prop("C13", "Memory is conserved under every failure",
     "Once every stream, token, iterator and span a thread holds is dropped and its spans are invalidated, everything the library allocated for them is freed, exactly once, "
     "whatever operations were performed and whichever panics, failed allocations, failed compiler calls or thread deaths interrupted them. "
     "No operation reads or writes memory outside what it owns.",
     ["histories", "fault_sequences", "crash_points", "schedules"],
     "all histories of every other property's workload with its faults, including an allocation failure at each allocation",
     "the tests measure no memory and inject no failure",
     ["src/rcvec.rs", "src/fallback.rs", "src/wrapper.rs", "src/parse.rs"],
     [("reference counting and manual moves", "src/rcvec.rs"),
      ("unsafe text handling", "src/fallback.rs, src/parse.rs")],
     [],
     ["a global allocator that tracks every block, poisons freed ones and guards block ends"])

prop("C14", "Build-time detection survives faults and follows the compiler",
     "Whatever fails, is killed or runs at the same time while the crate is being configured for a compiler, the crate never ends up using a "
     "compiler feature that compiler does not allow it, and configuring alone and undisturbed it uses every one it may, also after the toolchain's "
     "feature grants change between builds. "
     "Configuring fails only when the machine denies it a place to work in, then says why, and otherwise leaves nothing behind in the output "
     "directory, not even what an earlier killed run left there.",
     ["fault_sequences", "crash_points", "schedules", "histories", "configurations"],
     "all compilers (version, channel, grants, wrappers), all sequences of up to 6 builds with changing grants, one to three scripts at a time on "
     "one output directory in every interleaving of their system calls, a failed call, failed or killed compiler or killed script at any point",
     "a build runs the script once, on one compiler, on a healthy machine; no test runs it at all",
     ["build.rs", "src/probe/proc_macro_span.rs", "src/probe/proc_macro_span_file.rs", "src/probe/proc_macro_span_location.rs"],
     [("probing by compiling a file", "build.rs do_compile_probe"),
      ("tolerating a shared or vanishing probe directory", "build.rs create_dir/remove_dir_all error handling"),
      ("which changes make cargo configure again", "build.rs consider_rustc_bootstrap, rerun-if-changed"),
      ("version parsing with a fallback", "build.rs rustc_minor_version")],
     [("OUT_DIR/probe", "scratch directory of the probes", "build.rs")],
     ["what the build script prints, its exit status, the output directory"])

NA = [
 ("N01", "Printing and parsing round-trip", "Printing any token stream and parsing the text again yields an equal token stream.",
  ["inputs"], "all token streams", "tests round-trip a few streams", ["src/fallback.rs", "src/parse.rs"], [("Display and parser agree", "src/fallback.rs, src/parse.rs")]),
 ("N02", "Literal constructors denote their value", "A literal made from a value denotes exactly that value when read as Rust source.",
  ["inputs"], "all numbers, characters, strings and byte strings", "tests sample a few values", ["src/fallback.rs"], [("escaping and number formatting", "src/fallback.rs Literal")]),
 ("N03", "The parser accepts exactly Rust's lexical grammar", "A text is accepted if and only if the compiler's lexer accepts it, and splits into the same tokens.",
  ["inputs"], "all texts", "tests list accepted and rejected samples", ["src/parse.rs"], [("scanners", "src/parse.rs")]),
 ("N04", "Unescaping literal values", "The value of a string, byte-string or C-string literal token is the one Rust gives that literal.",
  ["inputs"], "all literal tokens", "tests unescape a few literals", ["src/lib.rs", "src/rustc_literal_escaper.rs"], [("literal values", "src/lib.rs Literal::str_value")]),
 ("N05", "Identifier validity, equality, order and hash are consistent", "Only valid identifiers can be made, and equal identifiers are ordered and hashed equally.",
  ["inputs"], "all strings", "tests sample identifiers", ["src/fallback.rs", "src/lib.rs"], [("identifier validation", "src/fallback.rs validate_ident")]),
 ("N06", "Tokens cannot be sent to or shared with other threads", "No public type can be sent to or shared with another thread.",
  ["programs"], "all client programs", "a type-level test lists the types", ["src/marker.rs", "src/lib.rs"], [("marker type", "src/marker.rs")]),
]
for n in NA:
    id, title, st, over, qt, why, files, mech = n
    prop(id, title, st, over, qt, why, files, mech)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        if not p["anchors"]["state"]:
            del p["anchors"]["state"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
