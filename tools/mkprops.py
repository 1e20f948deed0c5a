#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (run by hand when properties change).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

V="best/container/vec.h"; PT="best/memory/ptr.h"; SP="best/memory/span.h"
p("C01","A growable array behaves as a plain sequence through every history",
  "After any sequence of operations on growable arrays (construction, push, insert, append, splice from elsewhere or from the array itself, remove, erase, pop, truncate, clear, assignment, copy, move, conversion to and from an owning array pointer, storage changes, iteration, comparison), each array has exactly the elements, order, size and return values a plain sequence would have. This holds for inline and heap storage, for elements that must be moved one by one as well as those that can be moved bytewise, and whichever way the allocator places, moves or grows blocks. Arrays that were copied are independent; arrays that were moved from are empty and usable.",
  ["histories","configurations","fault_sequences"],
  "all operation histories over several live arrays x element kinds x inline capacities x allocator placement/growth decisions (equal and unequal allocators)",
  "The unit tests walk one short fixed script for a few element types with one allocator; the failing states need a particular prior history (storage mode, spare capacity, overlap distance) combined with an element kind and allocator decision.",
  [V,PT,SP], [("insert_uninit/erase shifting",V),("relo_overlapping",PT),("move_construct/assign/splice_within",V),("spill_to_heap",V)],
  ["size(), indexing, iteration, return values of every vec operation"], [("raw_/size word","inline-or-heap discriminant, size and heap span",V)])
p("C02","Every contained object is built once, destroyed once, and never used otherwise",
  "Every object that a container, optional, result, variant, owning pointer or text buffer creates is destroyed exactly once, no later than its owner, and none is read, moved, assigned or destroyed before it is created or after it is destroyed. This holds for every history of operations, including moving owners, self-assignment, replacing one alternative by another, early exit from iteration and storage relocation. When all owners are gone no object is left alive.",
  ["histories","configurations"],
  "all operation histories over live containers of instrumented element types (address-sensitive, move-only, copyable, bytewise relocatable)",
  "Existing tests count destructor calls for a handful of fixed scripts; a double destruction or leak appears only for particular combinations of prior state and operation.",
  [V,"best/container/option.h","best/container/result.h","best/container/choice.h","best/container/internal/choice.h","best/container/box.h",PT,SP],
  [("construct/destroy/relocate primitives",PT),("emplace of a new alternative","best/container/internal/choice.h"),("vec destroy/clear/erase/truncate",V),("box destructor/reset","best/container/box.h")],
  ["a registry of live object addresses maintained by the element types"])
p("C03","Memory is returned exactly once, as requested, and never overrun",
  "Every block a container, owning pointer or text buffer obtains from an allocator is returned exactly once, to an allocator equal to the one it came from, with the size and alignment it was requested with, and a resize request describes the block truthfully. No operation reads or writes outside the bytes it obtained, uses them after returning them, depends on their initial contents, or asks for a zero-sized or misaligned block. After all owners are destroyed nothing is outstanding.",
  ["histories","configurations","fault_sequences"],
  "all operation histories x allocator behaviours (placement, immediate or delayed reuse, in-place or moving growth, garbage contents, unequal allocators, exhaustion at any request)",
  "Tests use the process heap, which neither checks alignment/size on return in optimised builds nor varies placement, and never runs out; overruns into allocator slack are invisible.",
  [V,"best/container/box.h","best/text/strbuf.h",PT,"best/memory/allocator.h"],
  [("layout passed to alloc/realloc/dealloc",V),("ownership transfer between box and vec",V),("allocator propagation on move",V),("box dealloc","best/container/box.h")],
  ["every allocator call, with address-sanitised guard zones around each block"])
p("C04","Capacity promises: reserved room means no reallocation and stable references",
  "Capacity is never below size; after asking for room for n more elements, the next n insertions neither allocate nor move the existing elements that precede the insertion point; after asking to shrink, heap capacity equals size. Clearing and truncating keep the capacity, and moving a heap-stored array, or making an array from an owning array pointer, hands over the same storage without creating or moving elements.",
  ["histories","configurations"],
  "all histories reaching a reserve/shrink/clear/move point, all n, inline and heap modes, all element kinds",
  "Tests check one reserve call on one type; whether the promise holds depends on the storage mode and history preceding it, and on which growth path is taken.",
  [V],[("reserve/resize_uninit/spill_to_heap",V),("shrink_to_fit",V),("to_box / vec(box)",V)],
  ["allocator calls observed during the promised window; element addresses and move counts; capacity()"])
p("C05","The default allocator keeps its contract for every heap behaviour",
  "Every block the default allocator hands out has the requested size and alignment, does not overlap any live block, keeps its contents until freed, is all zero when zeroed memory was asked for, and after a resize holds the old contents up to the smaller of the two sizes, whether the underlying heap grew it in place or moved it. Freeing gives each underlying block back exactly once. When the heap is exhausted, or a block is returned with a size or alignment other than its own, the process ends with a diagnostic and no pointer is handed out; it never returns null and never under-allocates.",
  ["histories","configurations","fault_sequences"],
  "all alloc/zalloc/realloc/dealloc histories x sizes and alignments (including above the platform maximum) x heap placement/exhaustion at any call x debug and release builds",
  "There is no allocator test; the process heap always succeeds, rarely moves, and over-aligned resize is never executed.",
  ["best/memory/allocator.cc","best/memory/allocator.h","best/memory/layout.h"],
  [("malloc::alloc/zalloc/realloc/dealloc","best/memory/allocator.cc"),("layout cookie check","best/memory/allocator.cc")],
  ["the calls made to the C heap (intercepted) and the bytes of live blocks"],
  [("cookie header","layout recorded before each block in debug builds","best/memory/allocator.cc")])
p("C06","An owning pointer has one owner, copies deeply, and keeps the exact dynamic type",
  "An owning pointer to an object, an array or a type-erased interface always refers to a value that it alone owns: copying produces an equal, independent value of the same dynamic type, moving transfers the value and leaves the source empty, and destroying or overwriting it runs the destructor of the actual dynamic type exactly once. Calls through a type-erased pointer always reach the implementation of the value currently held, after any history of copies, moves and assignments between different dynamic types. Where copying cannot be done for the held value, asking to try reports that and changes nothing.",
  ["histories","configurations"],
  "all histories of construct/copy/move/assign/release over several owning pointers with values of several dynamic types and sizes, under any allocator placement",
  "Tests copy and move one box of each kind once; assignment between different dynamic types, after moves, is not exercised.",
  ["best/container/box.h","best/func/dyn.h","best/func/internal/dyn.h",PT],
  [("box copy/move/assign","best/container/box.h"),("interface table copy/destroy entries","best/func/dyn.h")],
  ["values, identity tags and destructor calls of the owned objects"])
p("C07","Optionals, results and variants always hold exactly one live alternative",
  "After any history of construction, assignment, emplacement, copy, move, swap, take/insert style updates and conversions, an optional, result or variant reports exactly one current alternative, and reading that alternative yields the value most recently stored through it. Copying leaves the source unchanged, self-assignment changes nothing, and mapping or chaining runs the supplied function exactly once when its alternative is current and never otherwise. References stored in them keep referring to the same object.",
  ["histories","configurations"],
  "all operation histories over several optionals/results/variants with trivial, niche-optimised, reference, void and instrumented payload types",
  "Tests check each accessor in isolation from a freshly built value; representation (niche, tag, in-place assign versus rebuild) interacts with history.",
  ["best/container/option.h","best/container/result.h","best/container/choice.h","best/container/internal/choice.h"],
  [("assign-or-rebuild of the active alternative","best/container/internal/choice.h"),("niche representation","best/container/internal/choice.h")],
  ["tag, value and identity through the public accessors after each operation"])
p("C08","A text buffer always holds valid text and a rejected append changes nothing",
  "Through any history of pushes of text, runes, text in another encoding or its own text, truncations, clears, copies, moves, conversions and round trips through raw code units, a text buffer's contents are exactly the concatenation its history implies, and are valid in its encoding; it uses the allocator it was given. An append that cannot be represented is reported as failed and leaves the buffer exactly as it was; each ill-formed unit of appended unchecked text counts as one replacement character. Making a buffer from ill-formed text is refused. Lossy appends always succeed and substitute the replacement character (or '?' where the encoding lacks it) precisely for the parts that cannot be represented.",
  ["histories","inputs","configurations","fault_sequences"],
  "all histories over text buffers in every supported encoding x valid, unpairable, truncated and corrupted appended text x inline/heap storage and allocator behaviour",
  "Tests push a few literals into a fresh buffer; partial failure in the middle of a longer append at a growth boundary is not reached.",
  ["best/text/strbuf.h","best/text/str.h","best/text/rune.h","best/text/utf8.h","best/text/utf16.h","best/text/utf32.h","best/text/ascii.h"],
  [("push/push_lossy","best/text/strbuf.h"),("encode/decode","best/text/rune.h")],
  ["buffer code units after each operation, compared with a reference transcoder"])
p("C09","Damaged or cut-off text is detected and never read past its end",
  "For text that was truncated at any code unit or had any code unit altered, validation accepts it exactly when it is well-formed in its encoding, and decoding yields the same runes and the same error positions however the text was cut. Decoding, searching, splitting and iterating never read outside the given text and always end after a number of steps bounded by its length. Splitting a text at a rune boundary and processing the pieces separately gives the same runes as processing it whole.",
  ["inputs","fault_sequences"],
  "all valid texts x truncation points x corrupted units x cut points, in each encoding, with the text placed flush against unreadable memory",
  "Tests decode a few complete literals followed by readable memory, so an over-read or an accepted malformed sequence cannot show.",
  ["best/text/utf8.h","best/text/internal/utf.h","best/text/utf16.h","best/text/utf32.h","best/text/ascii.h","best/text/rune.h","best/text/str.h"],
  [("decode and validate per encoding","best/text/internal/utf.h"),("rune iteration","best/text/str.h")],
  ["validation results, rune sequences, error results, guard zones around the text"])
p("C10","A fatal failure always ends the process with its own complete diagnostic",
  "Whenever the library detects a fatal condition, control never returns to the failing operation: the process ends with exit status 128 after writing to standard error the failing thread, a source location, and the failure's complete message. The location is the one the caller wrote for explicit failures, checked indexing of sequences, and unwrapping by name. This holds for messages of any length and content, for streams that fail or write short, and for several threads failing at the same moment: no diagnostic shows another failure's text or memory that is not part of the message.",
  ["schedules","inputs","fault_sequences"],
  "all interleavings of concurrently failing threads x message lengths x standard error faults x failing operations throughout the library",
  "Tests never let the process die; concurrent failures and long messages are not reachable from a passing test.",
  ["best/log/internal/crash.cc","best/log/wtf.h","best/log/location.h"],
  [("shared crash routine","best/log/internal/crash.cc"),("location capture","best/log/location.h")],
  ["standard error bytes and exit status"],
  [("scratch buffer","static buffer for the thread name and message","best/log/internal/crash.cc")])
p("C11","An access outside what exists is always refused, never undefined",
  "In every reachable state of a container, view, optional, result, variant, owning pointer or text buffer, a checked access with an index, range or alternative that does not exist in that state ends the process with a diagnostic, and the corresponding optional-returning access reports absence; neither reads or changes any element. Every access to what does exist succeeds. This includes ranges whose end or length overflows, empty and moved-from objects, and indices made stale by a preceding operation.",
  ["histories","inputs"],
  "all histories leading to a state x all indices/ranges/alternatives in that state, biased to boundaries and numeric extremes",
  "Failing accesses end the process, so the tests contain almost none; boundary arithmetic is only reached with extreme values in particular states.",
  ["best/iter/bounds.h","best/iter/bounds.cc",SP,V,"best/text/str.h","best/text/strbuf.h","best/container/option.h","best/container/result.h","best/container/choice.h","best/container/box.h"],
  [("bounds computation","best/iter/bounds.h"),("span indexing",SP),("unwrap checks","best/container/option.h")],
  ["outcome of every access (value, absence, process end) against the model; object contents afterwards"])
p("C12","Threads using their own objects never influence one another",
  "When several threads work at the same time, each on its own containers, text buffers, formatters, iterators and error values, or all reading the same unchanging value, each thread observes exactly the results it would observe running alone. No interleaving of their steps changes a result, loses output, or corrupts memory.",
  ["schedules","histories"],
  "all interleavings (at basic-block granularity) of per-thread operation histories over disjoint objects and shared read-only objects",
  "All tests are single threaded; hidden shared state only matters under a particular interleaving.",
  ["best/text/format.cc","best/text/format.h","best/text/strbuf.h",V,"best/memory/allocator.cc","best/io/ioerr.cc","best/cli/cli.h","best/func/tap.h","best/container/box.h"],
  [("absence of hidden mutable state in library routines","best/text/format.cc")],
  ["per-thread result digests compared with a sequential run of the same histories"])
p("C13","Each print call's output is complete, in order and never interleaved",
  "Everything printed by one call appears on the chosen stream exactly once, as one contiguous piece, followed by a newline exactly when a line-printing call was used, and calls made by one thread appear in the order made. Concurrent printing by other threads never splits, mixes or drops a call's text. If the stream fails or accepts only part, the program continues, other calls are unaffected, and no text other than the printed text ever appears.",
  ["schedules","fault_sequences","inputs"],
  "all interleavings of printing threads x texts of any length (including embedded zero bytes and newlines) x stream errors and short writes at any call",
  "Tests print from one thread to a working terminal and do not look at the bytes.",
  ["best/text/format.h","best/text/format.cc"],
  [("format then single stream write","best/text/format.h")],
  ["bytes accepted by the simulated standard streams, in order"])
p("C14","The test runner runs each selected test once and tells the truth",
  "For any set of registered tests, any selection options and any mix of passing and failing tests, the runner executes each selected test exactly once and no other, and reports each as passed or failed according to whether any of its checks failed. The totals match the lists, the process exit status is success exactly when no executed test failed, and a failing check identifies its location without stopping the tests that follow. A test that passes after another failed is still reported as passed.",
  ["configurations","histories","fault_sequences"],
  "all registrations, filter/skip selections, pass/fail/multi-failure mixes, nested checks, and output stream faults",
  "The runner cannot be tested by its own passing tests: failing tests and their reporting never occur in the suite.",
  ["best/test/test.h","best/test/test.cc","best/test/test_main.cc"],
  [("run_all selection and accounting","best/test/test.cc"),("failure flag and expectation helpers","best/test/test.h")],
  ["execution log of the tests, standard error report, exit status"],
  [("all_tests","registry of tests","best/test/test.cc")])
p("C15","A program starts its application once, with its own arguments and honest status",
  "Starting an application runs the one installed main function exactly once with exactly the process's arguments, in order, and ends the process with the status that function produced; a main that reports an error ends the process with a diagnostic and a failure status. Installing two applications, starting none, or starting twice (even from two threads at once) is reported as fatal instead of running anything twice. Rejected command lines are reported on standard error with a failure status and never reach the application; help requests print to standard output and succeed.",
  ["schedules","configurations","inputs","fault_sequences"],
  "all argument vectors, main function kinds and results, numbers of installed applications, interleavings of concurrent starts, and stream faults while reporting",
  "The sequence ends the process, so no test can run it; double starts need two threads at a particular instant.",
  ["best/cli/app.h","best/cli/app.cc","best/cli/cli.h","best/cli/cli.cc"],
  [("install/start","best/cli/app.cc"),("error reporting","best/cli/cli.cc")],
  ["arguments seen by main, number of invocations, exit status, standard streams"],
  [("global_main / called","installed application and start-once flag","best/cli/app.cc")])
p("C16","Iterators yield each item exactly once, in order, however they are consumed",
  "Any interleaving of taking items from the front, taking from the back, peeking at the remaining count, copying the iterator, looping over it and abandoning the loop early, and finally counting, collecting or taking the last item, yields each remaining item exactly once, fronts in order and backs in reverse order, and then reports exhaustion forever. The remaining-count bounds always contain the true number of items left. Adaptors (mapping, inspecting, enumerating, limiting, reversing, in any stacking) call their functions once per consumed item, in order, and consume nothing that was not asked for; splitting yields every piece between separators exactly once. This holds for every source: arrays, spans, integer ranges of every width up to the whole range of the type, texts, and users' own iterators.",
  ["schedules","histories","inputs"],
  "all interleavings of front/back consumption steps over all compositions of sources and adaptors",
  "Tests drain each adaptor once from the front; mixed-end consumption, early abandonment and repeated polling after the end are not sampled.",
  ["best/iter/iter.h","best/iter/bounds.h",SP,"best/text/str.h"],
  [("adaptor next/next_back/size_hint","best/iter/iter.h"),("integer ranges","best/iter/bounds.h")],
  ["items, counts and callback invocations against a list model after every step"])
p("C17","A deferred action runs exactly once, at scope end or on demand, unless cancelled",
  "A deferred action runs exactly once: when it is triggered explicitly or, failing that, when its scope ends by any path, and never if it was cancelled first. Several deferred actions in one scope run in reverse order of creation. Type-erased function references and stored callables invoke exactly the callable they currently refer to, once per call, with the caller's arguments unaltered.",
  ["histories","schedules"],
  "all histories of creation, trigger, cancel, re-entry from within the action, nesting and early scope exit, over callables of every kind",
  "Tests check one run and one cancel; re-entrant triggering and mixed orders are not exercised.",
  ["best/func/defer.h","best/func/fnref.h","best/func/call.h","best/func/tap.h","best/func/internal/fnref.h"],
  [("run/cancel","best/func/defer.h"),("erased call","best/func/fnref.h")],
  ["invocation log of the actions"])
p("C18","Sorting orders everything, loses nothing, and stays stable even without memory",
  "Sorting a sequence leaves exactly the same elements in non-decreasing order of the given key or comparison, and stable sorting keeps equal elements in their original order. This holds for every length and every element kind, and whether or not the temporary memory sorting would like is available. Searching a sorted sequence finds an element exactly when one is present, and names a correct position otherwise.",
  ["inputs","fault_sequences","histories"],
  "all sequences (sizes around algorithm thresholds, duplicates, presorted runs) x key/comparator kinds x temporary-memory exhaustion",
  "Tests sort one nine-element literal; stability under allocation failure and element lifetimes across size thresholds are never seen.",
  ["best/memory/span_sort.h",SP],
  [("sort / stable_sort / bisect entry points","best/memory/span_sort.h")],
  ["the sequence before and after, identity tags of elements, temporary allocations"])
p("C19","A captured system error never changes and always names itself correctly",
  "Capturing the current system error yields the error of the calling thread at that moment; the captured value keeps its code, name and message afterwards, whatever this or other threads do to the system error state in between. Capturing, comparing, copying and formatting an error never alters the calling thread's system error state. Every known code prints its own symbolic name and unknown codes print distinguishably.",
  ["schedules","histories","inputs"],
  "all interleavings of threads failing, capturing and formatting errors x all error codes",
  "The tests capture nothing concurrently and look at few codes.",
  ["best/io/ioerr.h","best/io/ioerr.cc"],
  [("capture of errno","best/io/ioerr.h"),("code table","best/io/ioerr.cc")],
  ["captured code/name/formatting and errno of each thread"])
p("C20","Command-line parsing depends only on the command line",
  "Parsing the same arguments always gives the same values, the same accept/reject decision and the same diagnostics in the same order, regardless of where objects happen to be placed in memory, what was parsed before, or what other threads are parsing. A rejected command line reports every problem it names exactly once.",
  ["schedules","configurations","histories"],
  "all argument vectors for a family of command-line types x heap placements x previously parsed command lines x concurrent parsers",
  "Tests parse each command line once in one memory layout in one thread; order of diagnostics that depends on object addresses never varies within one run.",
  ["best/cli/cli.h","best/cli/parser.h","best/cli/parser.cc","best/cli/cli.cc"],
  [("required-flag bookkeeping","best/cli/parser.cc"),("lazily built command description","best/cli/cli.h")],
  ["parsed values and diagnostics under different heap placements and interleavings"])
p("C21","Formatted output does not depend on how its pieces were written",
  "What a formatting call appends depends only on the values and the template: writing the same text in one piece or in many, nested inside any number of pretty-printed records, tuples and lists, gives the same output, in which every non-indentation character written appears exactly once and in order. Options given to one argument never leak into another, and text already in the output is never altered. The result is the same whatever the output buffer's storage or allocator does meanwhile.",
  ["schedules","histories","inputs","fault_sequences"],
  "all ways of chunking a text into writes x nesting of pretty-printed blocks x per-argument options x output buffer storage states",
  "Tests format whole literals into fresh buffers; chunk boundaries at newlines inside indented blocks are not exercised.",
  ["best/text/format.h","best/text/format.cc"],
  [("indentation and option state in the formatter","best/text/format.cc"),("record/list/tuple blocks","best/text/format.h")],
  ["formatted text for equivalent chunkings and nestings"],
  [("indent/option state","current spec and pending indentation","best/text/format.h")])
p("C22","Comparison is a consistent ordering across equal representations",
  "Equality and ordering of containers, views, optionals, variants, results, rows, owning pointers and text agree with each other and with the order of the elements, are reflexive, antisymmetric and transitive where the elements' are, and do not depend on representation (inline, heap, niche, encoding, by value or by reference) nor on the operations that led there.",
  ["histories","inputs"],
  "all pairs of values x the representations and histories (growth, moves, removals, reuse of memory) by which each was reached x encodings",
  "Tests compare a few literals, mostly by ==.",
  ["best/base/ord.h","best/memory/span.h","best/container/row.h","best/container/choice.h","best/container/option.h","best/container/result.h","best/container/vec.h","best/text/str.h","best/text/strbuf.h"],
  [("comparison operators","best/base/ord.h"),("lexicographic comparison of views","best/memory/span.h"),("comparison of texts across encodings","best/text/str.h")],
  ["results of comparisons"],
  [("tag or niche","which alternative a value holds","best/container/internal/choice.h")])
p("C23","Rows hold exactly the elements their operations name",
  "Every operation on a row (access, joining, slicing, pushing, inserting, updating, removing, splicing, gathering, scattering, selecting, applying, referring) gives the elements it names, of the types it says, in the order it says: copied when the row may not be moved from, moved exactly once and never copied when it may, and referred to (not assigned through) when they are references; elements the operation does not name, the other rows involved and what references refer to are unchanged. Assigning a row rebinds its references and gives every other element its new value. All elements are constructed and destroyed exactly once.",
  ["histories","inputs"],
  "all operations x kinds of elements (owned, moved only, void, references, nested) x ways of calling (on a row, a constant row, a row to be moved out of) x histories of assignment and rearrangement",
  "Tests apply each operation once, mostly to rows of integers, where a copy, a second move or a moved-out neighbour cannot be seen.",
  ["best/container/row.h","best/container/object.h","best/meta/tlist.h"],
  [("splicing and joining of elements","best/container/internal/row.h"),("rebinding assignment of objects","best/container/object.h")],
  ["results of operations, what is left in the rows involved, copies made, lifetimes of elements"])
# Pure properties: listed, not claimed.
p("N01","Integer arithmetic helpers report overflow exactly",
  "Checked, wrapping, saturating and strict arithmetic, and conversions between integer types, give the mathematically exact result when it is representable and report overflow, wrap, saturate or fail exactly when it is not. This holds for every pair of integer types and every value.",
  ["inputs"],"all integer types and values","Tests sample a few values per type.",["best/math/overflow.h","best/math/int.h","best/math/bit.h","best/math/conv.h"],
  [("overflow arithmetic","best/math/overflow.h")],["results of arithmetic"])
p("N03","Templates are parsed by their documented grammar and errors name the offset",
  "A format template is accepted exactly when it follows the documented grammar, selects the argument and options it spells, and a rejected template names the offending offset. Numbers are rendered exactly in the requested base, width and sign.",
  ["inputs"],"all templates and argument values","Tests sample templates.",["best/text/internal/format_parser.h","best/text/internal/format_impls.h"],
  [("template parser","best/text/internal/format_parser.h")],["formatted text"])
p("N04","Command-line grammar assigns every argument as documented",
  "Each argument is assigned to the flag, group, subcommand or positional the documented grammar says, repeated and default values follow the declared counts, and everything else is rejected.",
  ["inputs"],"all command-line declarations and argument vectors","Tests use one toy declaration.",["best/cli/cli.h","best/cli/parser.cc"],
  [("argument parser","best/cli/parser.cc")],["parsed values"])
p("N05","Compile-time reflection, type lists and layouts describe types truthfully",
  "Reported fields, names, alternatives, sizes, alignments and type-list results are those of the actual types for every type the library accepts.",
  ["programs"],"all types","Tests instantiate a few types.",["best/meta/reflect.h","best/meta/tlist.h","best/memory/layout.h","best/meta/names.h"],
  [("reflection","best/meta/reflect.h")],["compile-time results"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
