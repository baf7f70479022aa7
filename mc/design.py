"""Text of DESIGN.md; assembled by bin/gen together with mc/props.py, known_findings.json and seeded/."""

HEAD = r"""# Model checking estd

estd is a header-only reimplementation of much of the C++ standard library for microcontrollers: strings and views,
vectors, queues, heaps, hash maps and sets, linked lists, optional/variant/expected/tuple, function objects, shared
references, memory pools, text/number conversion, streams, time and units, algorithms, observers and locks.  It exists
to give *the ordinary library guarantees* in little memory.  Those guarantees are what `properties.jsonl` states: one
property for each part, "behaves as the plain thing it stands for, for every history or input, and touches nothing
outside its storage".

## 1. Method

**Technique.** Stateless / explicit-state model checking of the *implementation*.  There is no abstract model to keep
in step with the code: each transition calls the real estd operation, compiled from `/repo/src` as it is at the time of
the run, and the monitor compares every observable with a reference (mostly the host's `std::` counterpart, or a plain
list/map/integer computation) after every step.

* `mc/mc.h`, `mc/mc.cpp` – the explorer.  A scenario asks `c.pick(n)` for every nondeterministic choice: which operation, which
  position, which value, which object, how much the other side of a stream takes, at which construction a failure is
  thrown.  The explorer enumerates *all* choice sequences by re-execution (depth first, iteratively deepened by the
  scenario's bound).  `c.visited(key, left)` merges states: an execution ends when a state with the same complete key
  was already explored with at least as much depth left.  Keys always contain everything that determines the future
  (contents, who holds what, internal positions that are observable through capacity or wrap-around, and, where a
  structure has a hidden layout, the operations' history that fixes this layout), so merging is sound.
* `harness/Cxx_*.cpp` – per property: the alphabet of operations, the scenarios (flavours, sizes, types) and the reference.
* `bin/check ID [--thorough]` – compiles the harnesses of a property against `/repo`'s working tree (g++ -O1 with
  address and undefined-behaviour sanitizers: out-of-bounds access, use after free and overflow on any explored history
  are violations too), runs all scenarios in parallel, replays any violation before reporting it, writes
  `evidence/ID.json` (executions, transitions, states, distinct outcomes, bounds completed) and, for a violation, a
  replay file (`bin/check --replay FILE` prints the operation history).
* The choice sequence of a running execution lives in a shared memory file, so a crash, sanitizer stop or hang leaves the
  exact history behind.  A hang is re-run alone with a longer limit before being called one.
* **Language versions.** Checks compile as C++17.  A line `// ALSO: <flags>` in a harness adds a build with those flags to the
  quick tier (C++20 for views, optional, variant, tuple, streams, pairs, iterators: where the code switches on the version),
  and the thorough tier runs every harness once more as C++20.  A variant that does not build is left out (the
  first build decides); scenarios of variants carry the flags as a suffix and are replayed with them.
* **No standard library.** estd's own char traits, algorithms and clocks are used only where the platform has no standard
  library.  `// ALSO: DEVICE` builds a harness a second time as an Arduino program (`-DARDUINO`, the core being the
  stand-in of `harness/arduino`) on a platform without standard strings, algorithms, streams and mutexes
  (`harness/arduino/device.h` undefines those features once the library's platform header has determined them), where
  estd's own take the place of the host's; the thorough tier does this with every harness except FreeRTOS's.  Its
  remaining substitutes (`type_traits`, `initializer_list`, `move`/`forward` in namespace std) would collide with the
  host's own headers, which the checks need, and stay out.
* **Builds that reject moves.** Harnesses that use the move-only types `Owner`/`Moved` fail to compile when the code
  under test copies where it has to move.  `bin/check` then builds with `-DMC_NO_MOVES`, where those types can be copied; if that
  build works, the copy in place of a move is the violation (it is reproduced by the compiler, with the message as
  replay); if it fails too, the check gives no answer (exit 2).
* Objects of the type `Tracked` (in mc.h) count and check life times: construction over a live object, destruction of a
  dead one, reading a moved-from or dead one, and leftovers at the end are violations.  `Fixed<T>` guards storage.

**Why this reaches what the tests cannot.** A Catch test samples one history.  Most bugs here need a particular one:
an erase followed by an insert into the same bucket, a wrap-around at the moment a ring is full, a length of exactly 255
or 256, a text that ends where the buffer does, an exception at the second construction.  Within the bounds *every* history
is run, and the bounds were chosen so that each such coincidence is inside (see each section).

**Levels.** `model_checking` is claimed where histories of operations on stateful objects are explored; `exploration`
where the property quantifies over inputs of pure functions (parsing, rendering, calendar, units), so that the bounded
space enumerated exhaustively is a space of inputs, not of interleaved steps.

**Harnesses use the public interface only** and are written against what code does: helper extraction, reordering, different
but equivalent expressions do not disturb them.  Where a type deviates from std by documented design the reference follows
the documentation (see "outside" in the sections).

**No hooks** in `/repo` were needed.  `UNIT_TESTING` stays undefined except where the type is only usable with it.

**Concurrency.** estd is single-threaded by construction apart from handing a mutex to the platform; there are no atomics and
no shared state to interleave in the native build.  C32 therefore interleaves *histories* of two locks and a rival on
stand-in mutexes; the FreeRTOS wrappers are compiled
against stand-in kernel headers (`harness/freertos`) whose kernel model decides, per call, what blocks and what succeeds.
Serial streams and clocks (C42) are compiled against stand-ins for the Arduino core and the Pico SDK (`harness/arduino`), the
explorer deciding when each byte arrives.  ESP-IDF, ASF, VDK and the AVR program-memory
containers (`exp/pgm`, which do not compile where `size_t` is wider than `unsigned`) are outside.

## 2. False alarms that were corrected, and what is outside

Every violation seen while building was reproduced by hand against the real code and sorted into: genuine defect (fixed
with a `fix:` commit or listed as finding, sections 4 and 5) or wrong expectation.  Expectations that turned out too strong and were
corrected (never listed as findings):

* a fixed string appended past its capacity asserts by design → only edits that fit are driven;
* `layer1::string<N>` null-terminated holds N-1 characters; widths are 4-bit, fills limited to ' '..'_' by documented packing;
* `operator[]`/`try_emplace` without arguments leave a map value uninitialised (documented) → the value is written before it is read;
* comparing an empty optional with a value is false in every direction in estd;
* wide unsigned mixed with narrow signed promotes to signed of the same width by design;
* peek/ws do not raise the end condition by themselves; operations on a stream that already failed are unspecified;
* `chooser` documents that names must differ in their first letter;
* `one_shot` functions destroy their callable after the call (documented).

Not covered because they do not compile or are declared unfinished in the sources: vector `assign(range)`, deque const
`back()`, `array::back()`, optional `!=` optional in C++17, expected copy assignment, shared_ptr move assignment, weak
linked references, container-backed subjects, locking (handle based) allocators beyond the
heap and fixed ones, PGM (AVR program memory) strings, FILE-backed stream buffers for input, RTOS ports, TMR.

A fixed limit of the approach: types and template combinations not instantiated by a harness are not explored.  Each section names what is.
"""

HOW = {
"C01": "Oracle std::string. Alphabet: push_back, pop_back, +=, append (char, C string, counted, other estd strings), assign, insert at every position, erase of every (position, count) including npos, resize up/down with and without fill, clear, element write, assignment from views of the string's own content and inserting part of itself (`own_content_*`). After each step: length, emptiness, every character by index and iterator, terminator, max_size, conversion to a view, comparison with the reference, guard bytes behind borrowed buffers. Flavours: layer1 (owning; null-terminated / sized), layer2 (borrowed), layer3 (runtime capacity). `layer1_large_*` start from lengths next to 255, 256 and 300, where the stored length type changes width.",
"C02": "Oracle std::string::find/rfind/find_first_of/find_last_of/compare and lexicographic comparison. Every text × needle × position (0..len+2, npos) × kind of string on either side. The texts live in exactly sized guarded storage, so any read outside is caught.",
"C03": "Oracle std::string_view. Every text, every construction (pointer, pointer+length, literal, other string kinds, const storage), then every history of remove_prefix / remove_suffix / substr / copy; size, emptiness, front, back, index, iteration compared after each step.",
"C04": "Oracle std::vector. push_back, emplace_back, insert at every position, erase of every position and range, resize, clear, pop_back, self-referencing appends; bytes, shorts, ints, structs; layer1/2/3 and a growing heap allocator (harness/heap_allocator.h counts blocks). Large scenarios sit around lengths 255–257 where the length field's width matters.",
"C05": "Oracle std::deque. push/pop/emplace at either end, front/back, iteration forwards and backwards, moving the container; queue and stack adaptors over fixed deques and vectors; `ring_300` wraps past one-byte positions. State key includes the ring position, because wrap-around is what matters.",
"C06": "Every sequence of values (with repeats) through make_heap, push_heap, pop_heap, is_heap, sort_heap of 2-, 3- and more-ary heaps; priority_queue histories of push / emplace / pop / erase-by-predicate over both orders and a run-time comparison. Oracle: multiset plus the heap condition.",
"C07": "Oracle std::map from key to value, with the set of accepted keys. Every history of insert, emplace, try_emplace, insert_or_assign, operator[], erase by key and iterator, garbage collection, clear, find, count, equal_range, bucket iteration; hashes identity, constant, overlapping; sizes from tight to 132 slots; memory pre-filled with four patterns so uninitialised reads show. Refusals are checked against `there is no free slot reachable for that key`.",
"C08": "As C07 with std::set; additionally equality of every pair of reached sets.",
"C09": "Arrays and length-limited arrays of the sizes where the length type changes (1, 3, 4, 255, 256, 257, 300, 65536), histories of writes by index, iterator, fill, swap; all sub-spans of a span (static and dynamic extent, count given or not); fixed lookup tables with every key present or absent.",
"C10": "Oracle std::list. push/pop at either end, insert_after at every position, erase_after, remove, clear, splice-like relinking, on: intrusive forward list, intrusive with back, owning forward list (allocator counts nodes), doubly linked list, plain intrusive chain. Nodes are `Tracked`.",
"C11": "Oracle std::optional (two of them). emplace, assignment from value/optional/other kinds, reset, swap, copy, move, value(), value_or, comparison; plain, reserved-value (layer1), bit-packed, holding objects; `throwing_elements` injects a failure at each construction in turn.",
"C12": "Oracle (index, value) per variant. Assignment of each alternative, emplace by type and by index, copy/move assignment in both directions and to itself, get/get_if/holds/visit; trivially and non-trivially assignable objects, strings, repeated types, monostate; failures injected at every construction.",
"C13": "Oracle (has value, value or error). Assignments of values, errors, unexpected, emplace, value(), error(), value_or, comparison; seven type pairs; compiled in C++17 and C++20 because the implementation differs.",
"C14": "Histories of writes, copies and moves on tuples of plain, object, repeated, string and empty element types; get by position and by unique type; apply; visiting types, values, tuples with every possible accepting position, forwards and backwards, with index_sequence machinery behind it (`sequences`, `selecting`).",
"C15": "Two function objects, four callables: assignment, move, reset, call; each dispatch implementation (member pointer, function pointer, virtual); each argument passing mode counted by `Tracked`; method-bound, context-bound, inline storage, one-shot.",
"C16": "Oracle: graph of references. Create, copy, move, assign (self too), swap, reset, end of scope, over embedded and external objects with and without deleter; linked references over rings of up to four. `many_*` keep up to 1000 references alive at once and release them in several orders (counter width).",
"C17": "Oracle: set of blocks out plus their contents. Allocate, give back in any order, write into each block; v1, handle-linked and v2 pools; counts around 127–129, 254–257 and 300 blocks (index width).",
"C18": "Oracle: long division-free reference parser in 128-bit arithmetic. Every text of the alphabet × base × integer type; guarded text; the result variable is checked to stay untouched on failure.",
"C19": "Oracle: textbook rendering. Every value/base/buffer size; buffers embedded in guard bytes; to_string forms compared with to_chars.",
"C20": "Oracle: own formatter from the documented rules. Each format over each type's values; then histories of settings and output on streams over a short string, span and a virtual buffer that takes partial amounts.",
"C21": "Oracle: reference extractor from the property's text. Texts × base × type through num_get on iterators, stream extraction and character-at-a-time feeding; sequences of extractions on one stream.",
"C22": "Oracle: text plus read/write position. sputc, sputn, sgetc, sbumpc, sgetn, snextc, sungetc, seekoff/seekpos, in_avail, sync on string, span, wrapped and virtual buffers; buffered kinds in front of a scripted partner that takes or gives every possible partial amount at each call; the posix file buffer in front of a C file that takes only so much, whose content is compared after every step.",
"C23": "Oracle: byte deque plus the documented contiguity. offer, poll, peek, in-place reserve/commit; every ring size 1–5 and 8, embedded and external.",
"C24": "Oracle: position in the text and flags. get, getline, read, ignore, peek, unget, seek, >> word; then every way of cutting a text into pieces for non-waiting and waiting streams.",
"C25": "Oracle: 128-bit tick arithmetic. Nineteen duration types pairwise over boundary counts (overflowing combinations excluded), every second of 256 hours split both ways, every day of 8000 years against a counting calendar, std::chrono conversions, literals.",
"C26": "Oracle: 128-bit rationals. All ratio pairs of a grid; eight unit scales pairwise, offsets, percentages, rendering with prefix.",
"C27": "Compile-time facts and every 8/16-bit value at run time against std::numeric_limits and textbook reversal.",
"C28": "Oracle: std algorithms on copies. Every content of up to five elements with equal keys that differ in an invisible mark (so stability and `first of equals` show), every sub-range, through pointers and through iterators that offer only their category; hashes against a textbook FNV-1a.",
"C31": "Observers of six kinds in every enumerated mix; each records (who, what, order, context). Oracle: filter of the mix by who accepts.",
"C32": "Two locks × two mutexes × a rival; every history of lock, try_lock, timed, adopt, defer, unlock, release, move, swap, end of scope; the mutex stand-in reports misuse (double take, give back not held). State space is exhausted within the bound (merged states).",
"C35": "Every holder is built at every place it may legally take within a cache line, operated through every short sequence, and every address it hands out (and every address an element sees itself at while being made, copied and destroyed) is taken modulo the alignment. Reference: the alignment of the type and a plain sequence of values.",
"C34": "Every char × every mask; every base; every text up to a length through chooser. Oracle: classic-locale functions and prefix matching.",
"C36": "Oracle: std::pair and plain variables over observable objects counted by life. Histories of make/copy/move/assign/swap/exchange over two pairs with state merging; all order and equality operators over boundary values.",
"C37": "Every question is answered at compile time by both libraries for a universe of types (with all cv/ref/noexcept/variadic combinations of functions, incomplete arrays, unions, abstract, ambiguous and private bases) and for the product of that universe with itself; the explorer walks the answers and reports every disagreement with std:: by type name.",
"C39": "Oracle: std::vector of the members' names and values, computed at run time, and the standard's own type traits. Lists are instantiated by macro recursion and walked by the explorer with every position, predicate and stopping place.",
"C40": "Oracle: a model of the FreeRTOS kernel (harness/freertos/kernel.h) bound behind FreeRTOS's own headers, in which every call is checked for a living object of the right kind; the explorer picks the task that acts, and for each wait whether another task ends it in time. The wrapper's real code runs against it; a second, plain model of what the caller may expect is compared after every step. At 100, 128 and 1000 ticks per second.",
"C41": "Oracle: the text and a position in it. Every text up to the bound through every history of dereference, prefix and postfix increment, copy and comparison; output into fixed storage of every size with every history of writes; filters over every sequence and subset.",
"C42": "Oracle: the queue of bytes the device was sent and the text it was given. Every history of operations on the stream buffer and on the stream, interleaved with single bytes arriving, with state merging on (arrived, still to come, written); every pattern of pauses between typed characters; every room left in the device; clocks and sleeping against the counter.",
"C38": "Oracle: the underlying integer. Every pair of sets through every operator in the five kinds of enumeration.",
}

TAIL = r"""
## 7. How strong the checks are, and how that was measured

* **Planted bugs** (section 6) were written from the property texts and the code.  Those that a check missed led to stronger
  scenarios: erase counts that run past the end but stay below the length and texts given as unterminated views (C01, C02),
  elements that cannot be assigned (C04), several hundred references at a time (C16).
* **Coverage.** `bin/cov` compiles each harness with gcov and lists, per property, the lines of `/repo/src/estd` its quick run executes;
  lines of anchored files that were never executed were inspected by hand and either covered or listed as outside.
* **Mutation.** `bin/mutate ID` changes single tokens of covered lines (comparison operators, +/-1, dropped statements, negated
  conditions) in a scratch copy and runs the property's quick scenarios.  Survivors were inspected: most are equivalent
  (unreachable guards, asserts, code another property decides); the others led to new scenarios.

## 8. Cost

`bin/setup` only checks tools.  A quick check compiles in 5-30 s and runs in 1-90 s on 8 cores; all checks together take about seven minutes.
Thorough checks use larger bounds and run for minutes up to an hour.
"""
