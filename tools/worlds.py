"""Simulated programs (binaries) and which of them decide which property."""

VEC_NOTE = ["int", "tracked/3 inline", "tracked/0 inline", "move-only/2", "relocatable handle/2", "text buffer", "64-byte aligned/1", "byte", "nested arrays", "large tracked/1", "byte/200 inline"]
BINARIES = {}
for k in range(11):
    BINARIES["vec%d" % k] = {"src": ["world_vec.cc"], "defs": ["VEC_KIND=%d" % k]}

HEAP_STUB = "the allocator (simulated heap: placement, reuse, stale contents, in-place or moving resize, exhaustion chosen by the seed)"
END_STUB = "process end and the standard streams (intercepted exit/abort/stdio)"
VEC = lambda q, t: [("vec%d" % k, 1, q, t) for k in range(11)]
VEC_RULE = ("A run is one seeded history of operations on up to four arrays of one element kind under one heap personality; "
            "non-trivial: at least three operations. Distinct runs have distinct event logs.")
PROPS = {
    "C01": {"worlds": VEC(14000, 600000), "rule": VEC_RULE, "real": ["best::vec, best::span, best::box, best::ptr, best::layout and all they use"], "stub": [HEAP_STUB, END_STUB],
            "probes": ["long-inline", "insert-middle", "remove-middle", "erase-middle", "splice-self-straddling", "splice-self-before", "splice-self-after", "self-copy", "self-move", "promised-insert", "vec-from-empty-box", "resize-in-place", "resize-moved", "block-reused", "refused-access"]},
}
_vec_real = PROPS["C01"]["real"]; _vec_stub = PROPS["C01"]["stub"]
for _p, _probes in {
    "C02": ["self-copy", "self-move", "splice-self-straddling", "move-inline", "move-heap"],
    "C03": ["resize-in-place", "resize-moved", "block-reused", "vec-from-empty-box"],
    "C04": ["promised-insert", "move-heap", "resize-moved"],
    "C11": ["refused-access"],
}.items():
    PROPS[_p] = {"worlds": VEC(14000, 600000), "rule": VEC_RULE, "real": list(_vec_real), "stub": list(_vec_stub), "probes": _probes}
BINARIES["malloc"] = {"src": ["world_malloc.cc"], "defs": ['MALLOC_WORLD="malloc"']}
BINARIES["mallocrel"] = {"src": ["world_malloc.cc"], "defs": ['MALLOC_WORLD="mallocrel"'], "variant": "release"}
PROPS["C05"] = {"worlds": [("malloc", 2, 150000, 4000000), ("mallocrel", 1, 100000, 3000000)],
    "rule": "A run is one seeded history of up to 40 calls on up to six blocks under one heap personality, with heap exhaustion injected at random calls; non-trivial: at least three calls.",
    "real": ["best::malloc (debug and release builds)", "best::layout", "crash routine"], "stub": ["the C heap (malloc/calloc/aligned_alloc/realloc/free)", END_STUB],
    "probes": ["over-aligned-realloc", "realloc-changes-alignment", "heap-moved", "heap-in-place", "refused", "exhausted", "heap-exhausted"]}
BINARIES["box"] = {"src": ["world_box.cc"]}
BOX_RULE = "A run is one seeded history of up to 48 operations over four owning pointers (or two chains of nodes that own each other) under one heap personality; non-trivial: at least three operations."
PROPS["C06"] = {"worlds": [("box", 1, 250000, 8000000)], "rule": BOX_RULE,
    "real": ["best::box, best::ptr, best::dyn, best::option, best::vec, best::malloc"], "stub": [HEAP_STUB, END_STUB],
    "probes": ["copied", "try-copied", "try-copy-refused", "copy-over-moved-from", "self-copy", "self-move", "assign-other-type", "raw-round-trip", "in-container", "assign-from-owned", "refused-access"]}
for _k in range(3):
    BINARIES["opt%d" % _k] = {"src": ["world_opt.cc"], "defs": ["OPT_PART=%d" % _k]}
BINARIES["res"] = {"src": ["world_res.cc"]}
BINARIES["cho"] = {"src": ["world_cho.cc"]}
SUM = lambda q, t: [("opt0", 1, q, t), ("opt1", 1, q, t), ("opt2", 1, q, t), ("cho", 1, q, t), ("res", 1, q, t)]
SUM_RULE = "A run is one seeded history of up to 44 operations over four optionals, results or variants of one payload kind; non-trivial: at least three operations."
PROPS["C07"] = {"worlds": SUM(100000, 5000000), "rule": SUM_RULE, "real": ["best::option, best::result, best::choice, best::object, best::pun and all they use"], "stub": [HEAP_STUB, END_STUB],
    "probes": ["copied", "moved", "converted", "self-copy", "self-move", "assign-in-place", "refused-access"]}
BINARIES["crash"] = {"src": ["world_crash.cc"], "variant": "preempt"}
PROPS["C10"] = {"worlds": [("crash", 1, 120000, 4000000)],
    "rule": "A run is up to three threads that print and then fail fatally, each in one of 13 ways, under one schedule and one plan of stream faults; every base plan is also run under 12 drawn schedules. Non-trivial: at least one thread ran.",
    "real": ["crash routine, best::wtf, best::format and every failing operation's check"], "stub": [HEAP_STUB, END_STUB, "thread scheduling (every basic block and memory access is a switch point chosen by the seed)"],
    "probes": ["long-message", "failing-together"]}
BINARIES["errs"] = {"src": ["world_errs.cc", "app_errs.cc"], "variant": "preempt"}
PROPS["C19"] = {"worlds": [("errs", 1, 150000, 5000000)],
    "rule": "A run is up to three threads that fail with arbitrary codes, capture, keep, copy, compare and format errors under one schedule; every base plan is also run under 6 drawn schedules. Non-trivial: at least three operations.",
    "real": ["best::ioerr and its table, best::format, best::result, best::option"], "stub": [HEAP_STUB, END_STUB, "thread scheduling (every basic block and memory access is a switch point chosen by the seed)"],
    "probes": ["shared-error"]}
BINARIES["print"] = {"src": ["world_print.cc"], "variant": "preempt"}
PROPS["C13"] = {"worlds": [("print", 1, 150000, 5000000)],
    "rule": "A run is up to three threads making up to seven print calls in all under one schedule and one plan of stream faults; every base plan is also run under 12 drawn schedules. Non-trivial: at least one call.",
    "real": ["best::print, println, eprint, eprintln, the formatter and the text buffer"], "stub": [HEAP_STUB, END_STUB, "thread scheduling (every basic block and memory access is a switch point chosen by the seed)"],
    "probes": ["call-hit-by-fault", "prints-while-formatting", "long-text", "interleaved-threads"]}
BINARIES["cli"] = {"src": ["world_cli.cc", "app_cli0.cc", "app_cli1.cc", "app_cli2.cc"], "variant": "preempt"}
PROPS["C20"] = {"worlds": [("cli", 1, 60000, 2000000)],
    "rule": "A run parses up to eight command lines, drawn from a pool of up to three, with up to three identical descriptions at different places, on up to three threads, after initialising the program's parts in a drawn order; every base plan is also run under 4 drawn schedules. Non-trivial: at least one line parsed.",
    "real": ["best::cli, its parser and the descriptions built by reflection, and all they use"], "stub": [HEAP_STUB, END_STUB, "thread scheduling (every basic block and memory access is a switch point chosen by the seed)", "order of static initialisation (drawn)"],
    "probes": ["same-line-again", "same-line-elsewhere", "accepted", "missing-flags", "several-missing", "odd-line"]}
BINARIES["threads"] = {"src": ["world_threads.cc", "app_cli0.cc"], "variant": "preempt"}
PROPS["C12"] = {"worlds": [("threads", 1, 100000, 4000000)],
    "rule": "A run is up to three threads, each doing up to seven pieces of work of 16 kinds on its own objects and on shared ones it only reads, under one schedule, compared with the same pieces done alone; every base plan is also run under 12 drawn schedules. Non-trivial: at least one piece of work.",
    "real": ["containers, text buffers, formatter, iterators, sorting, type-erased pointers, captured errors, command-line parsing, the default allocator"], "stub": [HEAP_STUB, END_STUB, "thread scheduling (every basic block and memory access is a switch point chosen by the seed)"],
    "probes": ["interleaved-threads"]}
for _k in range(6):
    BINARIES["text%d" % _k] = {"src": ["world_text.cc"], "defs": ["TEXT_KIND=%d" % _k]}
PROPS["C09"] = {"worlds": [("text%d" % _k, 1, 60000, 3000000) for _k in range(6)],
    "rule": "A run builds one text of up to about 40 runes in one of six encodings, damages it up to nine times in transit (cut at either end, units altered, bits flipped, units lost, repeated or exchanged) or delivers it in pieces, and examines what was received up to 21 times in 10 ways; non-trivial: at least two examinations.",
    "real": ["best::text, best::pretext, best::rune and the UTF-8, WTF-8, UTF-16, UTF-32, ASCII and Latin-1 codecs, their iterators and searches"], "stub": ["the channel a text arrives through (cuts, damage and piecewise delivery chosen by the seed)", HEAP_STUB, END_STUB],
    "probes": ["cut-off-rune", "searched", "searched-ill-formed", "split-at-nothing", "many-pieces", "refused-access"]}

for _k in range(6):
    BINARIES["strbuf%d" % _k] = {"src": ["world_strbuf.cc"], "defs": ["STR_KIND=%d" % _k]}
STR_RULE = "A run is one seeded history of up to 63 operations over four text buffers of one encoding under one heap personality, fed with well-formed, damaged, unrepresentable and own text; non-trivial: at least three operations."
PROPS["C08"] = {"worlds": [("strbuf%d" % _k, 1, 40000, 2000000) for _k in range(6)], "rule": STR_RULE,
    "real": ["best::textbuf, best::vec, best::text, best::rune, the six codecs and best::format"], "stub": [HEAP_STUB, END_STUB, "the source of the text (damage chosen by the seed)"],
    "probes": ["refused-append", "refused-append-to-content", "lossy-append", "replaced-ill-formed", "pushed-to-itself", "refused-truncation", "self-assigned", "raw-accepted", "raw-refused", "rejected-source", "refused-access"]}

BINARIES["iter"] = {"src": ["world_iter.cc"]}
PROPS["C16"] = {"worlds": [("iter", 4, 200000, 8000000)] + [("text%d" % _k, 1, 20000, 1000000) for _k in range(3)],
    "rule": "A run is one source under a stack of up to six adaptors, used through up to 40 steps by up to four copies (from either end, in loops left early, adapted further, drained, finished), or one examination of received text; non-trivial: at least three steps.",
    "real": ["best::iter and its adaptors, best::int_range, span, split and text iterators, best::vec, best::option, best::row"], "stub": [HEAP_STUB, END_STUB, "user-supplied iterators and functions (chosen by the seed)"],
    "probes": ["exhausted", "copied", "left-early", "whole-range", "reversed-range"]}

for _k in range(2):
    BINARIES["sort%d" % _k] = {"src": ["world_sort.cc"], "defs": ["SORT_PART=%d" % _k]}
PROPS["C18"] = {"worlds": [("sort%d" % _k, 1, 60000, 3000000) for _k in range(2)],
    "rule": "A run is up to three sequences of up to 700 elements of one of nine kinds, each sorted up to three times in 8 ways in whole or part and searched in 3 ways; the memory sorting would like is refused for none, some or all of the requests. Non-trivial: at least one sort.",
    "real": ["best::span sorting and bisection, best::vec, best::strbuf, the C++ standard library's sort and stable_sort"], "stub": ["optional memory (operator new(nothrow): refusals chosen by the seed)", HEAP_STUB, END_STUB],
    "probes": ["part-sorted", "with-memory", "without-memory", "found", "not-found"]}

BINARIES["func"] = {"src": ["world_func.cc"]}
PROPS["C17"] = {"worlds": [("func", 1, 150000, 6000000)],
    "rule": "A run is one seeded history of up to 36 operations: scopes opened and left in every way (closing, leaving several, exceptions), actions of five kinds deferred in them that run, cancel or trigger themselves and others, and function references set, copied, reassigned, passed down and called. Non-trivial: at least three operations.",
    "real": ["best::defer, best::fnref, best::tap, best::call"], "stub": [HEAP_STUB, END_STUB],
    "probes": ["runs-itself", "cancels-itself", "runs-another", "left-by-exception", "left-several", "reassigned", "reassigned-while-called"]}

BINARIES["fmt"] = {"src": ["world_fmt.cc"]}
BINARIES["fmtthreads"] = {"src": ["world_fmt.cc"], "defs": ["FMT_THREADS"], "variant": "preempt"}
PROPS["C21"] = {"worlds": [("fmt", 1, 150000, 5000000), ("fmtthreads", 1, 30000, 1500000)],
    "rule": "A run formats up to three documents of up to 24 steps (values that write texts in pieces and encodings drawn by the seed, blocks, containers, options, early finishes, exceptions, formatting within formatting) into output buffers with earlier contents, on up to three threads, and compares with a reference printer. Non-trivial: a document of at least three steps.",
    "real": ["best::formatter and its blocks, best::format, the template parser, the formatting of numbers, texts, runes, containers and reflected types, text buffers"], "stub": [HEAP_STUB, END_STUB, "thread scheduling (one of the two programs: every basic block and memory access is a switch point chosen by the seed)"],
    "probes": ["nested-blocks", "deeply-nested", "finished-early", "recovered", "formats-while-formatting", "interleaved-threads"]}

for _k in range(2):
    BINARIES["span%d" % _k] = {"src": ["world_span.cc"], "defs": ["SPAN_PART=%d" % _k]}

for _k in range(3):
    BINARIES["cmp%d" % _k] = {"src": ["world_cmp.cc"], "defs": ["CMP_PART=%d" % _k]}
PROPS["C22"] = {"worlds": [("cmp%d" % _k, 1, 60000, 3000000) for _k in range(3)],
    "rule": "A run is one seeded history of up to 43 operations that brings three arrays, six texts of different encodings, or two each of optionals, variants, results and rows of one of twelve payload kinds to states reached in different ways (inline, on the heap, with spare room, in recycled memory); after each operation all pairs are compared in every way. Non-trivial: at least three operations.",
    "real": ["the comparison operators of best::vec, span, box, option, choice, result, row, text, textbuf, rune, and best/base/ord.h"], "stub": [HEAP_STUB, END_STUB],
    "probes": ["equal", "different", "unordered"]}

BINARIES["app"] = {"src": ["world_app.cc"], "variant": "preempt"}
PROPS["C15"] = {"worlds": [("app", 1, 80000, 3000000)],
    "rule": "A run is one process: its parts and its applications (none, one or two of 13 kinds) initialised in a drawn order or installed by two threads, an argument vector of up to 40 elements, memory that may run out, streams that may fail, and up to three threads starting it, or a main that starts it again, installs another or exits; every base plan with threads is also run under 6 drawn schedules. Non-trivial: every run.",
    "real": ["best::app, best::cli and its parser, best::result, crash routine"], "stub": [HEAP_STUB, END_STUB, "the argument vector and the order of static initialisation", "thread scheduling (every basic block and memory access is a switch point chosen by the seed)"],
    "probes": ["installed-first", "installed-together", "two-applications", "no-application", "several-starts", "starts-itself", "installs-within", "rejected", "help", "failed", "succeeded", "out-of-memory"]}

BINARIES["tests"] = {"src": ["world_test.cc", "app_testmain.cc"]}
PROPS["C14"] = {"worlds": [("tests", 2, 120000, 5000000)],
    "rule": "A run is one test program: up to 20 tests registered in a drawn order among the program's own parts, each a script of up to five checks of 8 kinds that pass or fail, of runs of other tests, of noise or a crash; filters and skips drawn from parts of their names; run once as a process or up to three times directly. Non-trivial: every run.",
    "real": ["best::test, its runner and its application, best::app, best::cli, best::format and print"], "stub": [HEAP_STUB, END_STUB, "the loader's symbol table (names and failures chosen by the seed)", "the argument vector and the order of static initialisation"],
    "probes": ["registered-first", "runs-another", "run-again", "test-crashes", "nameless", "failing", "mixed", "none-selected", "not-all-selected", "whole-process"]}

# Properties of every container, decided in all their worlds.
def _also(prop, worlds, rule, real):
    PROPS[prop]["worlds"] = PROPS[prop]["worlds"] + worlds
    PROPS[prop]["rule"] = PROPS[prop]["rule"] + " " + rule
    PROPS[prop]["real"] = PROPS[prop]["real"] + real
_ALL_RULE = "Likewise one history of up to 63 operations over owning pointers, optionals, variants, results or text buffers."
_ALL_REAL = ["best::box, best::dyn, best::option, best::choice, best::result, best::textbuf"]
_ALL = [("box", 2, 20000, 1000000), ("opt0", 1, 15000, 1000000), ("opt1", 1, 15000, 1000000), ("cho", 1, 15000, 1000000), ("res", 1, 15000, 1000000)]
_also("C02", _ALL + [("strbuf%d" % k, 0.5, 6000, 500000) for k in (0, 2)] + [("func", 0.5, 8000, 500000), ("iter", 1, 8000, 500000), ("sort0", 0.5, 3000, 300000)], _ALL_RULE + " Or of deferred actions, iterators, sorting.", _ALL_REAL + ["best::defer, best::iter, sorting"])
_also("C03", _ALL + [("strbuf%d" % k, 0.5, 6000, 500000) for k in range(6)] + [("span%d" % k, 0.5, 8000, 500000) for k in range(2)], _ALL_RULE, _ALL_REAL + ["best::span"])
_also("C11", _ALL + [("strbuf%d" % k, 0.5, 6000, 500000) for k in (0, 2)] + [("text%d" % k, 0.5, 6000, 500000) for k in (0, 3)] + [("span%d" % k, 2, 60000, 3000000) for k in range(2)],
      _ALL_RULE + " Or of views narrowed step by step, of any and of fixed size, placed flush against unreadable memory; or examinations of received text.", _ALL_REAL + ["best::span, best::text"])
PROPS["C11"]["probes"] += ["reported-absent", "fixed-size", "narrowed"]
BINARIES["tree"] = {"src": ["world_tree.cc"]}
for _p in ("C01", "C02", "C03", "C07"):
    _also(_p, [("tree", 1 if _p == "C07" else 0.5, 20000, 1000000)], "Or one history of up to 44 operations over trees of nodes that own each other through arrays, variants and shared pointers, in which what is assigned may belong to what is assigned to.", [])
    PROPS[_p]["probes"] = PROPS[_p]["probes"] + ["assign-from-owned", "variant-from-owned"]
for _k in range(3):
    BINARIES["row%d" % _k] = {"src": ["world_row.cc"], "defs": ["KIND=%d" % _k]}
PROPS["C23"] = {"worlds": [("row%d" % _k, 1, 100000, 5000000) for _k in range(3)],
    "rule": "A run is one seeded history of up to 43 operations over two rows of four elements of one of six kinds (all alike; mixed; with nothing in place of one; of what can only be moved; referring to others; with rows and texts as elements): 38 operations on a row, on a constant row, and on a row to be moved out of, and assignments, swaps and rearrangements between them; after each operation the result and both rows are compared with a model. Non-trivial: at least three operations.",
    "real": ["best::row, best::args, best::object and the type lists they use"], "stub": [HEAP_STUB, END_STUB],
    "probes": ["from-a-row", "from-a-constant-row", "moved-out-of", "written-through", "joined-several", "assigned-new", "assigned", "move-assigned", "self-assigned", "swapped", "rearranged", "small", "rebound"]}
for _p in ("C02", "C03"):
    _also(_p, [("row%d" % (1 if _p == "C02" else 2), 0.5, 10000, 500000)], "Or of rows.", ["best::row"])
# Quick runs are bounded by time as well (quick_s); use more of it.
for _p in PROPS.values():
    _p["worlds"] = [(w, wt, 2 * q, t) for w, wt, q, t in _p["worlds"]]
