"""Single source for properties.jsonl, MANIFEST.json and the per-check metadata.

P(id, title, statement, over, text, why, files, mechanism, level=..., rule=..., note=...)
A property whose `level` is None has no check (listed as not_applicable with `na`).
"""
PROPS = []
S = "src/estd/"
TESTS = "The unit tests in test/catch run a handful of fixed call sequences on fixed values; "


def P(id, title, statement, over, text, why, files, mech, level="model_checking", rule="", note="", na=None, technique=None, assumptions=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=TESTS + why,
                      files=[S + f for f in files], mech=mech, level=level, rule=rule, note=note, na=na,
                      technique=technique, assumptions=list(assumptions)))


MC = "exhaustive bounded exploration of the real code against a reference model, with state merging"
EN = "exhaustive enumeration of a bounded input space on the real code against a reference model"

P("C01", "String editing behaves like a plain character sequence",
  "For every sequence of edits (append, assign, insert, erase, resize, pop, clear, element writes) that stays within a string's capacity, the string's length, emptiness, characters and iteration are those of a plain character sequence put through the same edits, and a null-terminated string stays terminated. "
  "This holds for strings that own their storage, borrow a buffer, or carry a runtime capacity, whether the length is stored or implied by a terminator. No edit touches memory outside the string's storage.",
  ["histories", "configurations"], "every edit sequence up to the bound, on every storage flavour and around one-byte length limits",
  "they do not cover arbitrary edit orders, leftovers of earlier contents, or every boundary length.",
  ["internal/dynamic_array.h", "internal/string.h", "string.h", "internal/impl/dynamic_array.h", "allocators/fixed.h"],
  [("edits shift the tail and update a stored or implied length", S + "internal/dynamic_array.h")],
  rule="a case is one history of edits on one string flavour; distinct by resulting contents",
  note="Exhaustive up to the depth bound over a two-letter alphabet and capacities 4-5 plus lengths near 255/256/300; edits that overflow the capacity are outside the property.")

P("C02", "String searches and comparisons give the plain string answers",
  "For every text, needle, start position and contents, searching forwards or backwards for a character, a character set or a substring returns the position a plain string search returns, or the not-found value, and never reads outside the text. "
  "Equality, ordering, prefix and suffix tests depend only on the characters of both sides, whatever kind of string or length scheme each side uses; ordering is lexicographic.",
  ["inputs", "configurations"], "every text and needle up to a length over a small alphabet, every start position, every pairing of string kinds",
  "they never try start positions at or past the end, empty needles or most length combinations.",
  ["internal/string.h", "string_view.h", "internal/dynamic_array.h", "algorithm.h", "traits/char_traits.h"],
  [("searches scan forwards or backwards from a clamped position", S + "internal/string.h")],
  level="exploration", rule="a case is a pair of texts plus position and operation; distinct by observed results",
  note="Texts up to length 5 over two letters in the quick tier (7 thorough); texts of 254-520 and of about 65536 characters with a pattern at every boundary position; other character types are not enumerated.")

P("C03", "Views and constant strings denote exactly the given characters",
  "A view or constant string made from a pointer, a pointer and length, a literal or another string denotes exactly those characters: its size, emptiness, element access, iteration forwards, comparison and what it starts and ends with agree with the source. "
  "Trimming a prefix or suffix and taking a sub-view yield the corresponding characters and never look beyond the original view; the source is never modified.",
  ["inputs", "configurations"], "every text up to a length, every trim and sub-view position, every way to construct",
  "they check a couple of literals.",
  ["string_view.h", "internal/string.h", "internal/layer2/string.h", "internal/impl/dynamic_array.h"],
  [("views hold pointer and length and narrow in place", S + "string_view.h")],
  rule="a case is a history of view narrowing; distinct by resulting characters",
  note="Texts up to length 5; every history of narrowing up to the depth bound.")

P("C04", "Fixed and growing vectors keep exactly the elements put in",
  "After any sequence of appends, in-place constructions, insertions, erasures, resizes and clears that fits the capacity, a vector of plain elements holds exactly the elements of a plain sequence put through the same operations, in order, reachable by index, iterator, first and last. "
  "A vector with a growing allocator keeps its elements when it grows. No operation touches memory outside the vector's storage.",
  ["histories", "configurations"], "every operation sequence up to the bound, on several element types, capacities and allocators",
  "they use one element type per operation and never erase or insert multi-byte elements in all positions.",
  ["vector.h", "internal/dynamic_array.h", "internal/impl/dynamic_array.h", "internal/value_evaporator.h"],
  [("insert and erase shift elements", S + "vector.h"), ("growth reallocates through the allocator", S + "internal/dynamic_array.h")],
  rule="a case is one history on one vector flavour; distinct by resulting elements",
  note="Depth 5-7, capacities up to 5; plus lengths around 255-257. Trivially copyable elements only; a growing vector never frees its block (known finding).")

P("C05", "Queues, stacks and deques return elements in the promised order",
  "A queue hands out its elements first-in first-out, a stack last-in first-out, and a deque in the order produced by its pushes and pops at either end, for every history within its fixed capacity, including arbitrarily many wrap-arounds. "
  "Size, emptiness, first, last and iteration always agree with the elements held, and moving a container carries them over.",
  ["histories", "configurations"], "every push/pop/peek/move sequence up to the bound at every capacity",
  "they push and pop a few elements and hardly wrap around.",
  ["queue.h", "stack.h", "deque.h", "vector.h"],
  [("a circular buffer with head and tail that wrap", S + "queue.h")],
  rule="a case is one history; distinct by resulting contents and position",
  note="Capacities 1-4, depth 8-14 with state merging; trivially destructible elements. Iterating a completely full deque visits nothing (known finding).")

P("C06", "Heaps and priority queues always give the greatest element next",
  "For every sequence of element values and comparison order, building a heap, pushing into it and popping from it keep the heap condition and exactly the same multiset of elements, so that repeated popping yields the elements in sorted order. "
  "A priority queue always shows and removes an element that no other held element precedes, through any history of pushes, in-place constructions, pops and removals.",
  ["histories", "inputs", "configurations"], "every history of pushes and pops and every sequence of values up to a length, for both orders",
  "they heapify a few fixed lists.",
  ["internal/heap.h", "queue.h", "internal/priority_queue.h", "algorithm.h"],
  [("sift-up and sift-down keep parent before child", S + "internal/heap.h")],
  rule="a case is a value sequence or a history; distinct by resulting arrangement",
  note="Sequences up to length 7 over 3-4 values, histories up to depth 8-9.")

P("C07", "An unordered map finds exactly its keys with their latest values",
  "After any history of insertions, in-place constructions, assignments by key, erasures, garbage collections and clears, a fixed-size unordered map finds a key if and only if it was accepted and not erased since, with its latest value; duplicates are reported and change nothing. "
  "Size, counting and iteration (overall and per bucket) visit each held key exactly once, whatever the hash collisions. An insertion is refused only when there is no room for that key, and then nothing changes.",
  ["histories", "configurations"], "every history up to the bound over colliding and non-colliding keys, for several sizes, hashes and prior memory contents",
  "they follow a few hand-picked insert and erase sequences.",
  ["unordered_map.h", "internal/container/unordered_map.h", "internal/container/unordered/base.h", "internal/container/unordered/traits.h"],
  [("linear probing with erased-but-linking slots", S + "internal/container/unordered/base.h"), ("erased slots are marked and pruned", S + "internal/container/unordered_map.h")],
  rule="a case is one history on one map flavour; distinct by held key/value pairs",
  note="Up to 6 keys, 4-132 slots, depth 4-6 (9 thorough), memory pre-filled with four patterns. Values without destructors except for a dedicated lifetime scenario.")

P("C08", "An unordered set holds exactly the keys inserted and not erased",
  "After any history of insertions and erasures a fixed-size unordered set contains a key if and only if it was accepted and not erased since, reports duplicates, and its size, counts and iterations show each held key exactly once however keys collide. "
  "Two sets compare equal exactly when they hold the same keys. An insertion is refused only when there is no room for that key.",
  ["histories", "configurations"], "every history up to the bound over colliding keys, for several sizes, hashes and prior memory contents",
  "they insert two keys and erase one.",
  ["unordered_set.h", "internal/container/unordered_set.h", "internal/container/unordered/base.h", "internal/container/unordered/traits.h"],
  [("erasing moves the last key of the bucket into the gap", S + "internal/container/unordered/base.h")],
  rule="a case is one history on one set flavour; distinct by held keys",
  note="Up to 7 keys, 1-132 slots, depth 7-9 (12 thorough).")

P("C09", "Arrays, spans, buffers and lookup tables denote exactly their elements",
  "Arrays of every size, length-limited arrays, spans and sub-spans, and fixed lookup tables expose exactly the elements they hold or refer to: the same count, values and order by index, iteration, first and last, whether traversed forwards or through another view of the same memory. "
  "Writing one element changes that element and nothing else; looking a key up in a table finds its entry if and only if it is present.",
  ["inputs", "histories", "configurations"], "every size around length-type limits, every sub-span position, every write history up to the bound, every table and key",
  "they use one or two small sizes.",
  ["array.h", "internal/array.h", "span.h", "internal/buffer.h", "map.h"],
  [("the length type is deduced from the declared size", S + "internal/array.h"), ("subspan narrows pointer and count", S + "span.h")],
  rule="a case is a history of writes or a view position; distinct by resulting elements",
  note="Sizes 1-5, 255-257, 300, 65536; histories up to depth 5-7.")

P("C10", "Linked lists keep exactly the nodes linked in, in order",
  "After any sequence of pushes, pops, insertions, erasures, removals and clears on a singly or doubly linked list, owning or intrusive, walking the list visits exactly the remaining elements in the promised order, forwards and (where offered) backwards, and ends. "
  "First, last, emptiness and returned positions agree with that order, and a list that owns its nodes creates one per insertion and releases each exactly once on removal.",
  ["histories", "configurations"], "every operation sequence up to the bound at every position, for every list kind",
  "they push a few nodes and rarely remove from more than one position.",
  ["forward_list.h", "list.h", "internal/list_node.h", "internal/list", "internal/container", "exp/base.h"],
  [("nodes are linked through next/previous handles", S + "forward_list.h")],
  rule="a case is one history on one list kind; distinct by resulting order",
  note="Up to 4-5 nodes, depth 6-12 with state merging. Erasing from the doubly linked list is not offered by the library.")

P("C11", "An optional holds a value exactly when one was put in and is that value",
  "After any history of constructions, assignments, emplacements, resets and swaps between values and empties, an optional reports holding a value exactly when the last such step left one, and yields that value; reading an empty one is reported, and defaults are returned only then. "
  "This holds for plain, compact (reserved value or bit-packed) and object-holding optionals. Optionals that compare equal hash alike, as their value does. Every contained object is created once and destroyed once, even when its construction fails.",
  ["histories", "configurations", "faults"], "every history up to the bound over every kind of optional, with construction failures injected at every point",
  "they assign a value or two and never look at object lifetimes or failures.",
  ["optional.h", "internal/optional.h"],
  [("a flag or reserved value tells whether the storage is live", S + "internal/optional.h")],
  rule="a case is one history on one optional kind; distinct by presence and value",
  note="Two optionals plus values, depth 5 (8 thorough), with state merging. Comparing two optionals for inequality and holding a reference-like value are outside (they do not compile).")

P("C12", "A variant holds exactly the alternative last put in",
  "After any history of constructions, assignments, emplacements by type or index, copies, moves and self-assignments, a variant reports the index of the alternative last put in, yields its value through that alternative only, and visiting reaches exactly it; asking for another alternative is reported or gives nothing. "
  "Each alternative object is created and destroyed exactly once, and when a construction or assignment fails the variant never claims a value it does not have.",
  ["histories", "configurations", "faults"], "every history up to the bound for several alternative lists, with failures injected at every construction",
  "they emplace one or two alternatives and hardly cover copies, repeated types or failures.",
  ["variant.h", "internal/variant/storage.h", "internal/variant.h", "internal/variant"],
  [("an index selects which alternative the raw storage holds", S + "variant.h")],
  rule="a case is one history on one variant type; distinct by index and value of both variants",
  note="Two variants of three alternatives, depth 4 (7 thorough); failures at any of the first six constructions of each operation.")

P("C13", "An expected is exactly one of a value or an error, the last put in",
  "After any history of constructions, assignments of values and of errors, and emplacements, an expected holds either the value or the error that was last put in, never both, and says which; reading the value while it holds an error raises that error, and a fallback is returned only then. "
  "Every contained object, value or error, is created and destroyed exactly once.",
  ["histories", "configurations"], "every history up to the bound over several value and error types, in both language modes the library distinguishes",
  "they construct one value and one error and check each once.",
  ["expected.h", "internal/expected.h", "internal/variant/storage.h"],
  [("a flag selects whether value or error is alive in shared storage", S + "internal/expected.h")],
  rule="a case is one history on one value/error type pair; distinct by which is held and its value",
  note="Depth 5 (8 thorough) with state merging; failing constructions and conversions between kinds are outside.")

P("C14", "Tuples keep each element in its place and visiting is in order",
  "Whatever the element types (including empty and repeated ones) and whatever history of writes, copies and moves, each position of a tuple yields the value last put there and no other, by position or by unique type, and applying a callable passes all elements in order. "
  "Visiting elements, types or constant values reaches them in order (or in reverse where asked), stops at the first that is accepted, and reports which one, or that none was. Each element is created and destroyed exactly once.",
  ["histories", "inputs", "configurations"], "every history up to the bound over several element lists, every stopping point, every value list, every selection subset",
  "they check a couple of tuples and one stopping point.",
  ["tuple.h", "internal/tuple.h", "internal/tuple/get.h", "internal/tuple/sparse.h", "internal/tuple/apply.h", "internal/tuple/make.h", "internal/variadic/visitor.h", "internal/variadic/selector.h", "internal/variadic/integer_sequence.h", "internal/utility/sequence.h"],
  [("one base class per element, indexed by how many follow", S + "internal/tuple/sparse.h"), ("visitors recurse over the index", S + "internal/variadic/visitor.h")],
  rule="a case is a history on one tuple type or one visit; distinct by resulting elements or visit order",
  note="Three-element tuples of five element kinds, depth 2 (4 thorough); index sequences up to 39; type lists up to 5, value lists up to 5.")

P("C15", "A function object calls the callable last put in, with the arguments given",
  "After any history of assignments, moves and rebinding, calling a function object reaches exactly the callable last put in it (an object's own state, method or plain callable), passes every argument unchanged, by value, reference or move, and gives back its result; a function that was moved from, or never set, says it is empty. "
  "Each callable and argument is created and destroyed exactly once, whichever way calls are dispatched, copies of a function with inline storage stand on their own, and a callable put in by name stays as it was.",
  ["histories", "configurations"], "every history up to the bound over owning, non-owning, inline and method-bound functions and every dispatch implementation",
  "they call each function once or twice and never look at lifetimes, copies or reassignments.",
  ["functional.h", "internal/functional.h", "internal/impl/functional/fnptr1.h", "internal/impl/functional/fnptr2.h", "internal/impl/functional/virtual.h", "internal/impl/functional.h", "internal/invoke.h"],
  [("a model derived from a common base carries the callable", S + "internal/impl/functional/fnptr2.h"), ("owning functions delete through a remembered deleter", S + "functional.h")],
  rule="a case is one history on one kind of function; distinct by which callable is held and its state",
  note="Two functions, four callables, depth 4-5 (7 thorough). Callables are handed over as temporaries in the histories; copying an owning function double-frees, and a callable given by name is moved away (known findings).")

P("C16", "A shared object lives exactly as long as its references",
  "After any history of creating, copying, moving, assigning (including to itself), swapping, resetting and destroying references to shared objects, each reference yields the object it was last pointed at, the reported count is the number of live references, and an object is destroyed, through its deleter if one was given, exactly once: when its last reference goes away and not before. "
  "This holds for embedded and external objects and for references linked to each other in a ring instead of counted.",
  ["histories", "configurations"], "every history up to the bound over two shared objects and three references, and over rings of up to four references",
  "they make two or three references in a fixed order.",
  ["memory.h", "internal/linked_ref.h", "internal/list/intrusive_forward.h", "internal/value_evaporator.h"],
  [("a control block counts holders and runs the deleter at zero", S + "memory.h"), ("references form a circular list", S + "internal/linked_ref.h")],
  rule="a case is one history; distinct by which reference points where and what is alive",
  note="Two masters and three references, depth 6 (9 thorough); rings of four, depth 7 (10). A master with embedded storage outlives its references; weak references are not implemented by the library.")

P("C17", "A memory pool hands out distinct blocks and takes every one back",
  "Through any history of taking and giving back blocks in any order, a pool hands out only blocks of its own that are not already out, never more than it has, never changes a block that is out, and always reports how many remain; it refuses exactly when none is left. "
  "Block handles and blocks map to each other one to one, and objects made in a pool are created and destroyed exactly once. Storage handed out in pieces of varying size obeys the same: pieces never overlap or change, all of it is accounted for, and tidying it up step by step, whatever happens between the steps, ends and loses nothing.",
  ["histories", "configurations"], "every take/give-back history up to the bound for each pool kind and block size, and pools around index-width limits",
  "they take and return two or three blocks.",
  ["internal/memory/v1/pool.h", "exp/memory/memory_pool.h", "exp/memory/memory_pool2.h"],
  [("free blocks form a linked list inside the storage", S + "internal/memory/v1/pool.h")],
  rule="a case is one history on one pool; distinct by which blocks are out and the free order",
  note="1-4 blocks with depth 6-8 (11 thorough), plus 127-129, 254-257 and 300 blocks with whole-pool cycles; 48-96 bytes of varying-size storage with 2-4 handles, depth 6-7 (9 thorough).")

P("C18", "Text is parsed to exactly the number it spells, or refused",
  "For every text, base from 2 to 36 and integer width, parsing reads the longest run of digits of that base (after a '-' for signed types), gives exactly the number it spells and stops right behind it. "
  "Without any digit, or when the number does not fit, it says which of the two, leaves the result untouched, and reads nothing outside the text.",
  ["inputs", "configurations"], "every text up to the bound over an alphabet covering each character class, and every value around every width's limits, in every base",
  "they parse a handful of decimal and hex numbers, hardly any negative, none at a limit.",
  ["charconv.h", "internal/charconv/from_chars.hpp", "internal/raise_and_add.h", "internal/locale/cbase.h"],
  [("digits accumulate with overflow detection", S + "internal/charconv/from_chars.hpp"), ("characters map to digits by base", S + "internal/locale/cbase.h")],
  level="exploration",
  rule="a case is one text, base and type; distinct by value, end and status",
  note="All texts up to 3 characters of 19 (4 thorough) in 11 bases, up to 6 (8) of 6 in 4 bases; limits +-40 of each width in all bases; all 16-bit values in all bases.")

P("C19", "A rendered number reads back as itself and stays inside its buffer",
  "For every integer value, width, base and buffer size, rendering gives the shortest text that spells the value (with '-' only for negative ones, in the requested letter case) whenever it fits in the buffer, and otherwise reports that it does not. "
  "It never touches anything outside the buffer, and the string conversions give that same text with matching length.",
  ["inputs", "configurations"], "every 8- and 16-bit value and every neighbourhood of powers of two and of the base, in every base, for every buffer size up to one more than needed",
  "they render a few numbers into generous buffers.",
  ["charconv.h", "internal/charconv.hpp", "internal/charconv/reverse.hpp", "internal/charconv/string.h", "internal/to_string.h", "internal/locale/cbase.h"],
  [("digits are produced from the end of the buffer backwards", S + "internal/charconv.hpp"), ("text sits at the end of a shifted buffer", S + "internal/charconv/string.h")],
  level="exploration",
  rule="a case is one value, type, base and buffer size; distinct by value and base",
  note="All values of 8 and 16 bits; +-2 around every power of two and of the base for wider ones.")

P("C23", "A byte ring hands out what was put in, in order, one contiguous piece at a time",
  "After any history of offering and taking bytes, in whole or by filling room in place, a byte ring holds exactly what was put in and not yet taken, in order, and reports how many bytes that is. "
  "It shows and takes exactly what lies in one piece and offers exactly the room the two-region scheme has in one piece, never claiming more, and never touches anything outside its storage.",
  ["histories", "configurations"], "every history up to the bound for rings of 1 to 8 bytes, embedded and external",
  "they offer and poll a couple of strings without wrapping around.",
  ["internal/bip/buffer.h", "ext/willemt/bipbuffer/bipbuffer.c", "ext/willemt/bipbuffer/bipbuffer.h"],
  [("two regions of one array, the second filling before the first", S + "ext/willemt/bipbuffer/bipbuffer.c")],
  rule="a case is one history on one ring; distinct by contents and where they lie",
  note="Every history to depth 8-20 (16-30 thorough) with rings of up to 5 bytes, 5 (9) with 8.")

P("C22", "A stream buffer writes and reads exactly its text, and loses nothing under way",
  "Over any history of writing, reading, peeking, stepping back and seeking, a stream buffer over a string or span writes exactly the characters that fit and says how many, gives back exactly the text at its position, reports position, availability and end faithfully, and touches nothing outside the storage. "
  "A buffer in front of another stream buffer delivers every accepted character exactly once and in order, and refuses or comes up short only when the other side does, whatever amounts that side takes or gives at a time.",
  ["histories", "configurations", "faults"], "every history up to the bound for string, span, virtual, ring and string buffered kinds, with every partial transfer of the other side",
  "they write and read a few words, never fill the storage, and the other side always takes everything.",
  ["streambuf.h", "internal/streambuf.h", "internal/impl/streambuf/string.h", "internal/impl/streambuf/span.h", "internal/impl/streambuf/pos.h", "internal/impl/streambuf/buffer.h", "internal/impl/streambuf/bipbuf.h", "port/posix/streambuf.h", "internal/impl/streambuf/helpers.h", "internal/impl/streambuf.h", "sstream.h"],
  [("position plus string or span", S + "internal/impl/streambuf/string.h"), ("a ring or string holds what the other side has not taken", S + "internal/impl/streambuf/bipbuf.h")],
  rule="a case is one history on one kind of buffer; distinct by text, position and what is held",
  note="Room for 1-4 characters (including 0xFF and NUL), depth 4-8 (6-12 thorough); spans of 66000 characters in jumps. Seeking outside the text is undefined; Buffers over a C file are written through (a file with room for 0 to 40 characters, buffered or not); their input side does not compile. Strings over 64K are not covered.")

P("C24", "Input operations extract exactly what they say, whole words even in pieces",
  "From any text, position and history, each input operation (single characters, blocks, lines up to a delimiter, skipping, stepping back, words, repositioning) extracts exactly the characters it should, counts them, writes nothing beyond the memory given, and raises the failure and end conditions exactly when they apply. "
  "When input arrives in pieces, words are never torn apart: a stream that does not wait reports that it has no data and puts the partial word back, and one that waits reads as if the text had come in one piece.",
  ["inputs", "histories", "schedules"], "every text up to the bound over 5 character classes with every operation sequence, and every way of cutting texts up to 9 characters into pieces",
  "they read one short text in one order and never cut a word.",
  ["istream.h", "internal/istream.h", "internal/istream_runtimearray.hpp", "internal/ios_policy.h", "internal/ios_base.h", "internal/ios.h", "sstream.h", "streambuf.h"],
  [("unformatted operations over the stream buffer", S + "internal/istream.h"), ("characters of an unfinished word are put back", S + "internal/ios_policy.h")],
  rule="a case is one history on one text, or one text and its pieces; distinct by text and position, or by words",
  note="Texts of up to 4 (5 thorough) characters with 3-4 (4-6) operations; texts up to 9 (11) cut in every way. Operations start from a good state; extraction from a stream already failed is not covered.")

P("C20", "Formatted output is the value in the format asked for, and losses are told",
  "For every integer of every width, character and truth value, and every combination of base, letter case, width, fill and side, formatted output is the value's text in that format padded to at least that width on the right side, and the width is used up once. "
  "Over any sequence of settings and output the stream holds exactly the text written in order; what does not fit is cut off, the stream says so, and nothing outside its storage is touched; flushing delivers everything, after each output when so asked.",
  ["inputs", "histories", "configurations"], "every format over every 8-bit value and the neighbourhood of powers of 2, 8, 10 and 16 in all widths, and every sequence of settings and output into little room",
  "they print a few numbers with one width and fill and never run out of room.",
  ["ostream.h", "internal/ostream.h", "internal/ostream/integer.h", "internal/ostream_basic_string.hpp", "internal/locale/num_put.h", "iomanip.h", "ios.h", "internal/iomanip.h", "internal/ios_base.h"],
  [("integers are rendered backwards and padded around", S + "internal/ostream/integer.h"), ("padding in the facet", S + "internal/locale/num_put.h")],
  rule="a case is one format over one type's values, or one history; distinct by text",
  note="2016 formats over ten integer types; sequences of 5 (6 thorough) out of 17 operations into room for 6. Widths are 4 bits and fills printable up to underscore by design; floating point, showbase and alignment manipulators are not implemented by the library.")

P("C21", "Input reads exactly the number or truth value spelled, or says it failed",
  "From any text, in octal, decimal or hexadecimal and for every integer width, input takes the longest run of digits (after a '-' for signed types), stores exactly the number it spells, and leaves what follows in place; without a digit it stores zero and fails, beyond the range it stores the limit and fails, and it reports the end of input when it ran into it. "
  "The same holds for decimal fractions and for truth values by digit or by name in the locale's words, whether given a range, a stream or one character at a time.",
  ["inputs", "histories", "configurations"], "every text up to the bound over 15 characters, every value around each width's limits in each base, and every sequence of extractions",
  "they read about twenty hand-picked numbers.",
  ["internal/locale/num_get.h", "internal/locale/iterated/num_get.h", "internal/locale/numpunct.h", "internal/chooser.h", "internal/raise_and_add.h", "istream.h", "internal/istreambuf_iterator.h"],
  [("a state machine takes one character at a time", S + "internal/locale/iterated/num_get.h")],
  level="exploration",
  rule="a case is one text, base and type; distinct by value and state",
  note="Texts up to 3-4 characters (4-5 thorough), +-120 (600) around limits, 16-bit round trips, fractions of up to 6 (7) characters against a correctly rounding reference. Signs other than '-', base prefixes, grouping and exponents are not accepted by the library; extraction from a stream that already failed is not covered.")

P("C25", "Times, dates and durations are exact",
  "Durations of any tick convert (towards zero), add, subtract, scale, negate and compare exactly as the lengths of time they stand for whenever the result is representable, also to and from the platform's own durations and time points; mixing ticks loses nothing. "
  "Time points move and differ by exactly the durations applied to them. A time of day splits into the right hours, minutes, seconds and remainder, and every day falls on its Gregorian calendar date.",
  ["inputs", "configurations"], "every pairing of nineteen duration types over boundary counts, every second of 256 hours in both directions, every day of 8000 years",
  "they convert a few round values and check one date, with the day of the month commented out.",
  ["internal/chrono/duration.h", "internal/chrono/duration.hpp", "internal/chrono/operators.hpp", "internal/chrono/time_point.h", "internal/chrono/formatter.hpp", "internal/chrono/units.hpp", "internal/chrono/math.h", "internal/units/base.h", "internal/promoted_type.h", "ratio.h"],
  [("conversion multiplies and divides by the quotient of the tick ratios", S + "internal/units/base.h"), ("dates are split from the day number", S + "internal/chrono/formatter.hpp")],
  level="exploration", rule="a case is one count (or pair of counts, or day) in one type pairing; distinct by resulting value",
  note="Counts whose exact result, or whose 64 bit intermediate, does not fit are outside; negative counts into unsigned durations too. Hours are kept in 8 bits, so times of day go to 255 hours.")

P("C26", "Ratios and units of measure keep their value",
  "Ratios reduce, multiply, divide and add as fractions. A quantity converted between scales and count types keeps its value (towards zero for whole counts, offsets included), and quantities on different scales add, subtract and compare by what they stand for. "
  "A percentage of a range is that share of it, and a quantity is rendered as its count followed by the right prefix and unit.",
  ["inputs", "configurations"], "every pair of fractions in a grid, every pairing of eight scales over all 8 bit and boundary counts, every percentage",
  "they check a handful of conversions and two percentages.",
  ["ratio.h", "internal/numeric.h", "internal/units/base.h", "internal/units/operators.hpp", "internal/units/percent.h", "internal/units/bytes.h", "internal/units/ostream.h", "internal/units/common_type.h", "internal/promoted_type.h"],
  [("common type takes the gcd of the numerators and lcm of the denominators", S + "internal/units/common_type.h")],
  level="exploration", rule="a case is one count (or pair) in one pairing of scales; distinct by resulting value",
  note="Counts whose exact result, or whose 64 bit intermediate, does not fit are outside. Rendering of 8 bit counts (they are characters) and mixed whole/fractional arithmetic (does not compile) are not covered.")

P("C27", "Numeric limits, byte order and promoted types are right",
  "For every built-in integer the stated limits, digit counts and signedness are the real ones, and the stated text length in a base is enough for every value and not more than a sign too long. "
  "Swapping bytes reverses them and undoes itself. The type chosen for mixing two integers holds the values of both, being signed if either is.",
  ["inputs", "configurations"], "every built-in integer type, every 8 and 16 bit value, byte patterns of the wider ones, every pair of types up to 32 bits",
  "they check a few digits counts and three swapped values.",
  ["limits.h", "internal/limits/integer.h", "internal/limits/traits.h", "internal/limits/macros.h", "bit.h", "internal/promoted_type.h", "internal/common_type.h"],
  [("the text length is computed from the width", S + "internal/limits/traits.h"), ("the wider type is picked and adjusted for signedness", S + "internal/promoted_type.h")],
  level="exploration", rule="a case is one type, value or pair of types; distinct by result",
  note="A wide unsigned type mixed with a narrow signed one becomes signed of the same width by design, so its largest values are outside.")

P("C34", "Characters are classified, valued and matched as their letters say",
  "Every character belongs to exactly the categories the classic locale gives it, for any combination of categories asked for. A character is a digit of a base exactly if it is one of its digits or letters of either case, with that value, and writing the value gives it back. "
  "Feeding characters to a set of names with different first letters picks the name they spell, as soon as they spell it, and gives up at the first character that spells none.",
  ["inputs", "configurations"], "every character under every category mask and base 2 to 36, every text up to a length against sets of names",
  "they classify a couple of characters and match one name.",
  ["cctype.h", "internal/cctype.h", "internal/locale/ctype.h", "internal/locale/cbase.h", "internal/chooser.h", "locale.h"],
  [("categories are tested one after the other", S + "internal/locale/ctype.h"), ("the chooser keeps the first name whose letter matched", S + "internal/chooser.h")],
  level="exploration", rule="a case is one character or text; distinct by classification or by name and length matched",
  note="Only ASCII-compatible single byte encodings; names that share their first letter, and empty names, are outside (documented).")

P("C35", "What is kept in a container or holder sits at an address fit for its type",
  "Wherever a vector, array, double ended queue, priority queue, hash map or set, string, optional, variant, expected, tuple, embedded shared object, function or block pool is itself properly placed, every element or value in it is at an address that satisfies the alignment of its type, after any sequence of operations. "
  "This holds for every alignment a type may ask for and for sizes larger than the alignment.",
  ["histories", "configurations"], "every holder, every place it may take within a 64 byte line, every alignment from 1 to 64 with and without wider sizes, every short sequence of operations",
  "they run on a platform that forgives misaligned access and never look at an address.",
  ["internal/array.h", "memory.h", "exp/memory/memory_pool2.h", "internal/variant/storage.h", "internal/container/unordered/traits.h", "internal/optional.h", "internal/raw/type_traits.h"],
  [("raw byte storage that is later used as objects", S + "internal/array.h"), ("a pool of mixed links and raw storage", S + "exp/memory/memory_pool2.h")],
  note="The older handle pools pack their blocks by design (a stable test fixes their size) and are outside; hash maps to values smaller than 4 bytes do not compile.")

P("C28", "Generic algorithms and hashes do exactly their work on a range",
  "For every content, sub-range and kind of iterator, finding, searching, comparing, extremes and clamping give the position or element the definition gives (the first of equal ones where it says so) and read nothing outside; copying, moving, filling, reversing and swapping change exactly the destination to exactly what the definition says, overlapping where allowed, and return where they ended. "
  "The hash of a text is the published function of its bytes, whatever kind of string, range or pieces they come in.",
  ["inputs", "configurations"], "every range of up to 5 elements with repeated keys, every sub-range, destination and needle, through plain pointers and iterators that can do no more than required; every text of up to two arbitrary bytes and longer ones over an alphabet",
  "they run each algorithm on one or two arrays and hash two words.",
  ["algorithm.h", "internal/algorithm/raw.h", "numeric.h", "iterator.h", "internal/iterator_standalone.h", "internal/functional/hash.h", "internal/string/hash.h"],
  [("loops of their own, or the platform's by configuration", S + "algorithm.h"), ("the 64 bit hash multiplies by shifts", S + "internal/functional/hash.h")],
  level="exploration", rule="a case is one operation on one content; distinct by resulting content",
  note="The unspecified find_last_of kept internal is covered through string searches (C02). Heaps are C06.")

P("C31", "Notifications reach every observer that takes them, once and in order",
  "Whatever mix of observers a subject was given (referred to, held, stateless, behind a proxy), every notification reaches exactly those observers that take its kind, each once, in the order given and unchanged. "
  "A context handed along reaches exactly the observers that ask for it.",
  ["histories", "configurations"], "every mix out of six kinds of observer in the enumerated combinations, every holding, and every sequence of notifications with and without context",
  "they notify two observers twice.",
  ["exp/observer.h"],
  [("each observer's own method is picked by what it accepts", S + "exp/observer.h")],
  rule="a case is one mix of observers and a sequence of notifications; distinct by mix",
  note="Sequences of 2 (3 thorough) notifications. The container-backed subject offers no way to add observers and is outside.")

P("C32", "A mutex is held through a lock exactly as long as the lock says",
  "Through any history of taking (plainly, tentatively, for a time, or adopting), giving back, releasing and ending locks over shared mutexes, a mutex is held exactly from a successful taking until it is given back, at the latest when its lock goes away, however a guarded piece of work ends. "
  "A lock always says whether it holds its mutex, never gives back what it does not hold, and a failed attempt leaves the mutex alone.",
  ["histories", "schedules"], "every history of two locks over two mutexes that somebody else takes and gives back at any point, up to the bound; the reachable states are exhausted",
  "nothing tests locks.",
  ["mutex.h"],
  [("a lock keeps a pointer to its mutex", S + "mutex.h")],
  rule="a case is one history; distinct by who holds what",
  note="The mutex is a stand-in that reports any misuse; the platform's own mutex types are aliases or need their operating system and are outside. Histories of up to 9 (14) steps; states are memoised.")

P("C36", "Pairs, swaps and exchanges lose and invent nothing",
  "Whatever values a pair is made of or given (separately, from another pair, in place from two lists of arguments, by assignment or exchange), it holds exactly those two, compares as the values do, first before second, and makes and destroys each exactly once. "
  "Swapping trades two values, exchanging stores the new value and returns the old one, for every kind of value.",
  ["histories", "inputs"], "every history of making, assigning, swapping and exchanging pairs up to the bound for five kinds of pair; every boundary value pair of each built-in number",
  "they make three pairs and never swap.",
  ["utility.h", "internal/utility.h", "variant.h", "internal/fwd/utility.h"],
  [("a pair constructs its halves from two argument lists", S + "internal/utility.h")],
  rule="a case is one history of pairs or one pair of values; distinct by resulting contents",
  note="Histories of 4 (7 thorough) steps. Comparison by <= and >= and a pair made from move-only temporaries do not compile and are outside.")

P("C37", "Questions about types have the standard's answers",
  "What the library says of a type (what kind it is, its qualifiers, what it can be made, assigned, converted or called with, what it derives from), and the types it makes of it (without qualifiers, references, extents; decayed; signed or unsigned; the result of calling it), are what the C++ standard defines, for every type and pair of types. "
  "Combining answers by all and any gives their conjunction and disjunction.",
  ["configurations"], "about 190 types covering every kind, qualifier and reference; nearly 4000 ordered pairs; every list of up to five answers; about 40 calls",
  "they ask a handful of questions about a handful of types.",
  ["type_traits.h", "internal/type_traits/is_function.h", "internal/type_traits/is_convertible.h", "internal/type_traits/is_base_of.h", "internal/type_traits/constructible.h", "internal/type_traits/is_assignable.h", "internal/type_traits/is_copyable.h", "internal/type_traits/make_unsigned.h", "internal/llvm_type_traits.h", "internal/invoke_result.h"],
  [("a function type cannot be made const", S + "internal/type_traits/is_function.h"), ("decay tells functions, arrays and values apart", S + "type_traits.h")],
  level="exploration", rule="a case is one type, or one type against a list of types; distinct by type",
  note="Types no library can tell apart without compiler help are outside where the library does not use it: whether a union is a class, whether a union, member pointer or nullptr_t is an enumeration. So are references to cv void, decay of member-qualified function types (does not compile) and make_unsigned of character types; for long long, any unsigned type of its width is accepted.")

P("C38", "Flag sets combine and test exactly the flags meant",
  "Combining, intersecting, toggling and complementing sets of flags, by name or as sets, in any order, gives exactly the flags the bits say; a set is true exactly if it has a flag, equal exactly to sets of the same flags, and never loses or gains a flag by conversion, copying or assignment.",
  ["inputs", "configurations"], "every pair of sets over all low flags and every single high bit, for signed, unsigned, scoped, wide and plain enumerations",
  "they combine two flags once.",
  ["flags.h"],
  [("operators are generated for each enumeration", S + "flags.h")],
  level="exploration", rule="a case is one pair of flag sets; distinct by the pair",
  note="The complement of a plain enumeration without a stated width is outside (its result is not a value of the enumeration). Compound assignment does not compile.")


P("C39", "Lists of types and values are picked, filtered, mapped and visited in order",
  "A compile-time list of types or values contains exactly what it was made of, in that order: its size, its members by position, first and last, whether it has a member and where, what is left after taking, dropping, appending, prepending, selecting by a predicate or mapping, are what the list says, for every list. "
  "Visiting it calls the visitor once per member, in order, with the member and its position, passing the arguments on, and stops where the visitor says. The questions about a callable's signature (result, arguments, class) are answered from its declaration.",
  ["configurations"], "every list of up to three of four types and four of two; every list of up to four of three values, for five kinds of value; every counting list to 64",
  "they look at five lists.",
  ["internal/variadic.h", "internal/variadic/integer_sequence.h", "internal/variadic/type_sequence.h", "internal/variadic/visitor.h", "internal/variadic/selector.h", "internal/utility/sequence.h", "internal/functional/function_traits.h"],
  [("a selector prepends or drops each member of a list", S + "internal/variadic/selector.h"), ("whether a list contains a value", S + "internal/variadic/integer_sequence.h")],
  level="exploration", rule="a case is one list with one position, predicate or stopping place; distinct by the list",
  note="Visiting an empty value list and mapping to values smaller than four bytes do not compile and are outside.")

P("C40", "The FreeRTOS wrappers are the kernel's objects, no more and no less",
  "Each mutex, semaphore, queue, timer, event group and task wrapper makes exactly one kernel object of its kind, within its own storage exactly if it is the static kind, and gives exactly that one back when it ends. "
  "Whatever the interleaving of tasks, time-outs and interrupts, each operation has its documented effect on the object and returns what the kernel said; a time to wait of any unit is the whole ticks that fit in it; try operations do not wait; locks are free after the work they guard, however it ends. "
  "Clock readings and sleeping agree with the kernel's ticks.",
  ["schedules", "histories", "faults"], "every history up to the bound of operations by two tasks, each wait ending in success or time-out as the kernel model decides, at three tick rates",
  "no test runs them: there is no kernel on the test host.",
  ["port/freertos/mutex.h", "port/freertos/semaphore.h", "port/freertos/queue.h", "port/freertos/timer.h", "port/freertos/event_groups.h", "port/freertos/chrono.h", "port/freertos/thread.h", "port/freertos/wrapper/semphr.h", "port/freertos/wrapper/queue.h", "port/freertos/wrapper/timer.h", "port/freertos/wrapper/event_groups.h", "port/freertos/wrapper/task.h"],
  [("a mutex takes and gives the kernel's semaphore", S + "port/freertos/mutex.h"), ("durations become ticks", S + "port/freertos/chrono.h")],
  rule="a case is one history of operations, with every outcome of every wait; distinct by the state of the kernel object",
  note="The kernel is a model written to FreeRTOS's documentation; every call is checked for a living object of the right kind. Histories of 4 to 8 steps (8 to 12 thorough). The *_until functions do not compile; the experimental thread class, copies of wrappers and the ring buffer are outside.")

P("C41", "Stream iterators walk exactly the stream's characters, and know its end",
  "Reading through a stream buffer iterator yields exactly the characters the buffer still has, in order, each once, and it equals the end iterator exactly when none is left, also when made on an empty or used-up buffer. "
  "Writing through an output iterator appends exactly the values written, in order, with the separator asked for, and it says it failed exactly from the first character that found no room. "
  "A filtering iterator visits exactly the elements that satisfy its predicate, in order; distances and iterator types are those of the underlying range.",
  ["histories", "inputs"], "every text and history of reading, advancing and comparing up to the bound; every output history into every size of storage; every sequence and every subset of it as the filter",
  "they read one text through one iterator.",
  ["iterator.h", "internal/istreambuf_iterator.h", "internal/ostream_iterator.h", "internal/iterator_standalone.h"],
  [("an input iterator is at the end when the buffer says so", S + "internal/istreambuf_iterator.h"), ("an output iterator remembers whether its last write failed", S + "iterator.h")],
  rule="a case is one history over one text; distinct by what was read or written and where the iterator stands",
  note="back_insert_iterator, istream_iterator (no dereference) and prefix increment of ostream_iterator are unfinished or do not compile and are outside.")


P("C42", "Streams and clocks over a device are the device, byte for byte, tick for tick",
  "Over an Arduino serial port or a Pico console, writing hands the device exactly the bytes written, in order, and reports exactly those it took. "
  "Reading gives every byte the device delivers, of any value, each once and in order, whenever it arrives: nothing is taken by looking, only what was asked for is taken, the end is reported exactly when nothing is there, and reading words and numbers waits for them. "
  "The clocks are the device's counter and sleeping asks it for exactly the time given in its own unit.",
  ["histories", "schedules", "inputs"], "every history of reading and writing interleaved with the arrival of bytes up to the bound, every pattern of pauses while a line is typed, every size of device, every counter value and time of a list spread over the range",
  "no test runs them: there is no such device on the test host.",
  ["port/arduino/streambuf.h", "port/arduino/istream.h", "port/arduino/ostream.h", "port/arduino/chrono.h", "port/arduino/thread.h", "port/rpi/pico/streambuf.h", "port/rpi/pico/ostream.h", "port/rpi/pico/chrono.h"],
  [("a byte read from the port", S + "port/arduino/streambuf.h"), ("what the console is given", S + "port/rpi/pico/streambuf.h")],
  rule="a case is one history of operations and arrivals; distinct by what is left to read, what is still to come and what was written",
  note="The device is a model written to the Arduino core's and the Pico SDK's documentation. Reading from the Pico's console does not compile and is outside, as are the Arduino String operators, marked untested.")
