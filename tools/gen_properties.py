#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Hex encoding emits exactly two digits per byte, within the buffer",
  "Hex-encoding any byte sequence writes, for every input byte in order, its high and low nibble as digits of the requested letter case, and returns twice the input length. A zero terminator follows if the buffer has room for it; with no output buffer only the length including the terminator is returned, and -1 is returned if the output buffer is too small or the result does not fit the return type. Nothing is ever read outside the input or written outside the given output buffer, however large the sizes are.",
  ["inputs"], "every input length and content, every output buffer size (or none), both letter cases",
  "Tests compare a handful of short vectors; they never reach arbitrary bytes, the exact-fit and one-too-small buffers for all lengths, or sizes where the doubling wraps.",
  ["encode/hex.c", "encode/hex.h"], [("hex_encode", "encode/hex.c")], ["return value and output buffer of hex_encode"])
p("C02", "Hex decoding accepts exactly valid hex and inverts encoding",
  "Decoding succeeds exactly when the input has even length and consists only of the digits 0-9, a-f and A-F, and then yields the byte sequence whose encoding (in either letter case) is the input, returning half the input length. Any other input is rejected with -1, as is an output buffer that is too small; with no output buffer only the required size is returned. Nothing is read or written outside the given buffers, so decoding an encoding always gives the original bytes back.",
  ["inputs"], "every input string (all byte values, all lengths) and every output buffer size",
  "Tests try a few valid strings; rejection of each invalid byte at each position and the round trip for all inputs cannot be sampled.",
  ["encode/hex.c", "encode/hex.h"], [("hex_decode", "encode/hex.c"), ("hex_decode_digit", "encode/hex.c")], ["return value and output buffer of hex_decode"])
p("C03", "Base64 encoding is the RFC 4648 image of the input for the chosen alphabet",
  "Encoding any byte sequence writes exactly the RFC 4648 text for the chosen variant: the standard 6-bit grouping, the variant's 62nd and 63rd characters, and padding characters only when the variant defines one. The returned length equals the number of characters written, followed by a zero terminator if it fits; with no output buffer the length including the terminator is returned, and a negative value if the buffer is too small or the result does not fit the return type. Nothing is read or written outside the given buffers, however large the sizes are.",
  ["inputs", "configurations"], "every input length and content, every variant (standard, URL-safe, custom 62/63/padding), every output buffer size",
  "Tests cover a dozen ASCII vectors; they do not cover all remainders with all bytes, custom alphabets, or exact buffer limits.",
  ["encode/base64.c", "encode/base64.h"], [("base64_encode", "encode/base64.c")], ["return value and output buffer of base64_encode"])
p("C04", "Base64 decoding inverts encoding and rejects malformed text safely",
  "Decoding the encoding of any byte sequence under the same variant returns exactly that sequence and its length. Text that contains, apart from its final padding, a character outside the variant's alphabet, or whose length no encoding can have, or whose unused trailing bits are not zero, is rejected with a negative value, as is an output buffer too small; with no output buffer the required size is returned. For every input whatsoever, including bytes above 127, nothing outside the input, the output buffer and the fixed tables is accessed.",
  ["inputs", "configurations"], "every input string over all 256 byte values, every variant, every output buffer size",
  "Tests decode a few well-formed ASCII vectors; hostile bytes, malformed lengths and out-of-bounds table reads are not sampled.",
  ["encode/base64.c", "encode/base64.h"], [("base64_decode", "encode/base64.c")], ["return value and output buffer of base64_decode"])
p("C05", "CRC-32 equals the IEEE 802.3 polynomial checksum of every byte sequence",
  "The checksum of any byte sequence equals the reflected CRC-32 defined by polynomial 0x04C11DB7 with initial value and final inversion of all ones. No byte outside the given range is read, whatever its length.",
  ["inputs"], "every byte sequence of every length",
  "Tests check a few known strings, which exercise only some of the 256 table entries and no long inputs.",
  ["hash/crc32.c", "hash/crc32.h"], [("crc32 and its table", "hash/crc32.c")], ["return value of crc32"])
p("C06", "FNV-1a hashes equal the published recurrence for 32 and 64 bits",
  "For every byte sequence and start value, the 32-bit and 64-bit hashes equal the published FNV-1a recurrence: each byte in turn is xored in and the state multiplied by the FNV prime modulo 2^32 or 2^64. Hashing a sequence in consecutive pieces, passing each result on as the next start value, gives the same result as hashing it whole. No byte outside the given range is read.",
  ["inputs"], "every byte sequence of every length, every start value, every split into pieces",
  "Tests use a published list of short vectors; the recurrence for all bytes, lengths and start values is not settled by them.",
  ["hash/fnv1a.c", "hash/fnv1a.h"], [("fnv1a_32, fnv1a_64", "hash/fnv1a.c")], ["return values"])
p("C07", "Growable buffer behaves as a byte sequence under insert, append and remove",
  "Inserting n bytes at an offset yields the old prefix, the new bytes and the old suffix, in order; removing yields the prefix followed by what lies beyond the removed range; appending, clearing and reading follow the same sequence model. If memory for growth cannot be obtained the operation reports failure and the contents stay exactly as they were. Failure of an attempt to release memory while shrinking never loses contents.",
  ["inputs", "histories", "fault_sequences"], "every buffer state, offset, length and byte content, every outcome of each allocation",
  "Tests run short fixed edit scripts with allocation always succeeding; all offsets, sizes around growth thresholds, and failed reallocations are not sampled.",
  ["data/buffer.c", "data/buffer.h"], [("buffer_insert_raw, buffer_insert, buffer_remove", "data/buffer.c"), ("buffer_append, buffer_clear", "data/buffer.h")], ["buffer size and data"],
  [("size/alloc/data", "size bytes of contents within an allocation of alloc bytes", "BUFFER in data/buffer.h")])
p("C08", "Buffer never exceeds its allocation; reserve, resize, acquire, swap are exact",
  "After every operation the used size is at most the capacity and the memory block really has that capacity, so no operation reads or writes outside it, even for requests so large that a size computation would wrap (those fail and change nothing). A successful reservation guarantees that many further bytes can be appended without another allocation; resizing keeps the contents up to the new capacity; shrinking never changes contents. Acquiring hands over the block and size and leaves an empty buffer; swapping exchanges the complete state of the two buffers.",
  ["inputs", "histories", "fault_sequences"], "every buffer state, every requested size up to the maximum of the size type, every allocation outcome",
  "Tests use small sizes; the capacity rounding, wrap-around requests and allocation failure are out of their reach.",
  ["data/buffer.c", "data/buffer.h"], [("buffer_good_alloc_size, buffer_realloc, buffer_reserve, buffer_shrink", "data/buffer.c"), ("buffer_acquire, buffer_swap", "data/buffer.h")], ["buffer structure, heap"])
p("C09", "Stack is last-in first-out for every typed and raw push, peek and pop",
  "Pushing a value of any supported type and then popping with the same type returns that value and restores the previous contents exactly; peeking returns the same value without changing anything. Items come off in the reverse order they were pushed, also when types of different widths are mixed. A push that fails for lack of memory leaves the stack unchanged.",
  ["inputs", "histories", "fault_sequences"], "every stack content, every value of each of the nine typed variants and raw blocks of any size, every allocation outcome",
  "Tests push a few constants of some types; the remaining generated variants and all values and prior contents are unexercised.",
  ["data/buffer.h", "data/buffer.c"], [("stack_push_*, stack_peek_*, stack_pop_*", "data/buffer.h")], ["popped and peeked values, stack size"])
p("C10", "Typed arrays give indexed access, insertion and removal by element",
  "For each of the nine element types, getting, setting, appending, inserting and removing one or more elements at an index act on the array as a sequence of elements of that type: exactly the addressed element or range is affected and all others keep their values and relative order. The reported size counts elements, also for the block handed over when its contents are acquired, and emptiness agrees with it. Values are stored and returned without loss of width or sign, and insertions that fail or whose byte size would wrap change nothing.",
  ["inputs", "histories", "fault_sequences"], "every element type, array content, index, count and value, every allocation outcome",
  "Only one or two of the nine hand-duplicated families are exercised by tests, with small fixed arrays.",
  ["data/buffer.h", "data/buffer.c"], [("array_*_get/set/insert/append/remove/...", "data/buffer.h")], ["array size and elements"])
p("C11", "Doubly linked list operations preserve order and link consistency",
  "Inserting before or after any node, appending, prepending and removing change the sequence of nodes by exactly the addressed node and leave all other nodes in order. Forward and backward traversal always visit the same nodes in opposite order and terminate, head, tail, next and previous report that sequence (nothing beyond its ends), and emptiness is reported exactly for the empty sequence. Recovering the enclosing record from a node gives the record that contains it.",
  ["inputs", "histories"], "every list length and every position of every operation",
  "Tests build lists of a few nodes; correctness at every position of every length is a structural invariant over all histories.",
  ["data/list.h"], [("list_* inline functions", "data/list.h")], ["traversal in both directions"])
p("C12", "Singly linked list and queue operations preserve order, head and tail",
  "The singly linked list and the tail-pointer queue behave as node sequences under prepend, append, insert-after, remove-after and remove-head: exactly the addressed node changes and the others keep their order. After every operation the queue's tail designates its last node, including after the last node was removed or the queue emptied, so that later appends land at the end. Traversal visits each node once and terminates; emptiness is reported exactly for the empty sequence.",
  ["inputs", "histories"], "every list length, every position, every history of operations",
  "Tests use a few nodes and do not cover removal of the last node followed by appends for all lengths.",
  ["data/list.h"], [("slist_*, qlist_* inline functions", "data/list.h")], ["traversal, head and tail"])
p("C13", "Hash table is a faithful map under insert, lookup and remove",
  "For any hash and consistent equality supplied by the caller, lookup returns the stored node equal to the key, or nothing if there is none. A checked insertion succeeds exactly when no equal node is stored (and memory suffices) and then adds only that node; removal unlinks and returns exactly the equal node and leaves every other node stored. This holds across all internal growing and shrinking, and the reported emptiness always agrees with the stored set.",
  ["inputs", "histories", "fault_sequences"], "every set of nodes, every hash function including constant and adversarial ones, every history of insertions and removals, every allocation outcome",
  "Tests insert one sequence of integers with one good hash; collisions, boundary hash values and every grow/shrink point with every chain shape are not reached.",
  ["data/htable.c", "data/htable.h"], [("htable_insert, htable_insert_unsafe, htable_lookup, htable_remove", "data/htable.c")], ["lookup results over all keys"],
  [("planes/n_planes/n", "chains in planes of doubling size selected by hash", "HTABLE in data/htable.h")])
p("C14", "Hash table growth, shrinkage and teardown keep and visit every node once",
  "Growing and shrinking move every stored node to a chain where lookups find it, losing and duplicating none. If memory for growth runs out, a call either completes or reports failure with the stored set unchanged, and the table stays usable. Teardown hands each stored node to the caller's destructor exactly once, never touches a node after that, releases all internal memory and leaves an empty table.",
  ["histories", "fault_sequences"], "every table state, every allocation outcome, every destructor that frees its node",
  "Tests never make allocation fail, and check neither destructor counts nor memory release for all states.",
  ["data/htable.c"], [("htable_grow, htable_shrink, htable_fini", "data/htable.c")], ["destructor calls, heap, stored set"])
p("C15", "Red-black tree is a faithful ordered set under insert, lookup and remove",
  "For any comparator that is a total order, the tree holds exactly the nodes inserted and not yet removed. Insertion succeeds exactly when no equal node is stored and otherwise changes nothing; lookup returns the stored equal node or nothing; removal unlinks and returns exactly the equal node, or nothing if there is none, and keeps every other node and their order. Nodes are only relinked: no other memory is accessed.",
  ["inputs", "histories"], "every tree shape and size, every total order, every history of insertions and removals",
  "Tests run a few permutations of small key sets; every rebalancing case in every context is a proof over all trees.",
  ["data/rbtree.c", "data/rbtree.h"], [("rbtree_insert, rbtree_lookup, rbtree_remove", "data/rbtree.c")], ["in-order sequence of nodes"],
  [("lc/r", "left child with colour bit, right child", "RBTREE_NODE in data/rbtree.h")])
p("C16", "Red-black tree stays balanced after every operation",
  "After every insertion and removal no red node has a red child, the root is black, and every path from the root to a missing child has the same number of black nodes. Hence the height is at most twice the base-2 logarithm of the size plus one, and the fixed-size path buffers used by tree operations can never overflow.",
  ["histories"], "every tree reachable by any history of insertions and removals",
  "Tests verify the invariants on small trees after selected operations; the invariant over all histories needs induction.",
  ["data/rbtree.c"], [("rbtree_insert_fixup, rbtree_remove_fixup, rotations", "data/rbtree.c")], ["tree structure"])
p("C17", "Red-black tree cursors step through all nodes in order, both ways",
  "Starting from head or tail, or from a found key, stepping forward or backward visits exactly the nodes of the tree in comparator order, each once, and the current node reported is the one last reached. Stepping past either end, or asking for head or tail of an empty tree, returns nothing and leaves the cursor as it was. A lookup with a cursor finds the same node as a plain lookup.",
  ["inputs", "histories"], "every tree, every starting position, every sequence of forward and backward steps",
  "Tests walk small trees in one direction mostly; stepping from every position in every shape is not covered.",
  ["data/rbtree.c", "data/rbtree.h"], [("rbtree_head, rbtree_tail, rbtree_next, rbtree_prev, rbtree_lookup_ex, rbtree_current", "data/rbtree.c")], ["sequence of returned nodes"],
  [("stack/n", "path from root to the current node", "RBTREE_CURSOR in data/rbtree.h")])
p("C18", "Red-black tree teardown hands out every node exactly once",
  "Repeatedly taking nodes from a tree under teardown returns every stored node exactly once and then nothing, after which the tree is a valid empty tree. A node already handed out, which the caller may have freed, is never accessed again.",
  ["histories"], "every tree shape and size, with the caller freeing each node as it is handed out",
  "Tests tear down a few trees without checking every shape or freed-memory access.",
  ["data/rbtree.c"], [("rbtree_fini_step", "data/rbtree.c")], ["returned nodes, memory accesses"])
p("C19", "Scalar values round-trip and convert like C casts with rounding",
  "A value initialised as boolean or any numeric type reports that type and returns exactly the stored value through the getter of its own type. Getters of other numeric types give the C conversion of the stored number, rounded to the nearest integer (halves away from zero) when going from floating point to integer, whenever the rounded number fits the target. A null value, and any other type without numeric meaning, never makes a getter access invalid memory.",
  ["inputs"], "every value of every scalar type against every getter, including all float and double bit patterns",
  "Tests use a few constants; integer boundaries, halves, large odd integers held in floating point and NaN are not enumerated.",
  ["data/value.c", "data/value.h"], [("value_init_*, value_int32 .. value_double, value_type", "data/value.c")], ["getter results"])
p("C20", "Compatibility check is true exactly when a conversion keeps the value",
  "A value is compatible with its own type always, and a number is compatible with another integer type exactly when it has no fractional part and lies within that type's range, whatever its stored type; numbers are always compatible with floating point types. Values of types that cannot be converted (strings, containers, booleans, null against another type) are not compatible. The check never performs an out-of-range or otherwise undefined conversion.",
  ["inputs"], "every scalar value of every type (all bit patterns, NaN and infinities included) against every target type",
  "Tests check a few constants per pair of types; boundaries such as 2^31, 2^63, 2^64 or large integers held in floats are not covered.",
  ["data/value.c", "data/value.h"], [("value_is_compatible", "data/value.c")], ["return value"])
p("C21", "String values keep every byte and length and are zero-terminated",
  "Initialising a string value from any byte sequence, embedded zero bytes included, stores exactly those bytes with exactly that length, followed by a zero terminator; a missing source pointer means the empty string. This holds for every length across inline and heap storage. If memory is insufficient, initialisation fails and the value is null; finalising the value releases its memory.",
  ["inputs", "fault_sequences"], "every length and content, every allocation outcome",
  "Tests store a few short and long literals; the boundaries between storage forms and length encodings at all lengths are not covered.",
  ["data/value.c", "data/value.h"], [("value_init_string_, value_string, value_string_length", "data/value.c")], ["string pointer contents and length"])
p("C22", "Array values are sequences under append, insert, get and remove",
  "Appending or inserting creates one null value marked new at exactly the addressed position and keeps all other elements and their order; an index beyond the end is refused. Getting returns the element at a valid index and nothing otherwise; removing an element or a range finalises exactly those elements, keeps the rest in order, and refuses invalid ranges without change, whatever the index and count. If memory runs out the operation fails and the array is unchanged.",
  ["inputs", "histories", "fault_sequences"], "every array content, every index and count including ones whose sum wraps, every allocation outcome",
  "Tests use small arrays and in-range indices with allocation succeeding.",
  ["data/value.c", "data/value.h"], [("value_array_*", "data/value.c")], ["array size and elements"])
p("C23", "Dictionary values map each byte-string key to exactly one value",
  "Getting returns the value stored under exactly that key or nothing; adding creates a null value marked new and fails if the key is already used, even if its value was never initialised; get-or-add returns the existing value or adds one; removing finalises exactly that item and fails if there is none. All other items keep their keys and values, the size always equals the number of items, and keys are compared over their whole length (embedded zero bytes included) or by the caller's comparator. If memory runs out the dictionary is unchanged.",
  ["inputs", "histories", "fault_sequences"], "every dictionary content, every key, every comparator that is a total order, every history, every allocation outcome",
  "Tests use a few short ASCII keys; prefix keys, binary keys, every tree shape and failed allocations are not sampled.",
  ["data/value.c", "data/value.h"], [("value_dict_get_, value_dict_add_, value_dict_get_or_add_, value_dict_remove_", "data/value.c")], ["lookup results over all keys, size"])
p("C24", "Dictionary enumeration lists every item once in sorted or insertion order",
  "Sorted enumeration of keys or items yields every item exactly once in increasing key order of the dictionary's comparator; ordered enumeration, where order is maintained, yields every item exactly once in order of addition, also after removals and re-additions. A key buffer smaller than the dictionary receives exactly the first keys that fit, nothing is written beyond it, and the number stored is returned. A visitor returning non-zero stops the walk at once and its result is returned; ordered enumeration is refused when order is not maintained.",
  ["inputs", "histories"], "every dictionary content and history, every buffer size, every visitor",
  "Tests enumerate a few small dictionaries and never vary removal patterns, buffer sizes and stop points together.",
  ["data/value.c", "data/value.h"], [("value_dict_walk_sorted, value_dict_walk_ordered, value_dict_keys_sorted, value_dict_keys_ordered", "data/value.c")], ["visited sequence, keys buffer"])
p("C25", "Dictionary tree stays balanced, so operations stay logarithmic and in bounds",
  "After every addition and removal the dictionary's internal search tree is ordered by key, has equal black height on all paths, no red node with a red child and a black root. Hence its depth is logarithmic in its size and the fixed path buffers used while changing or walking it can never overflow.",
  ["histories"], "every dictionary reachable by any history of additions and removals of any keys",
  "Tests verify the tree on small dictionaries; the invariant over all histories needs induction.",
  ["data/value.c"], [("value_dict_fix_after_insert, value_dict_fix_after_remove, rotations", "data/value.c")], ["internal tree structure"])
p("C26", "Path lookup resolves exactly the documented path grammar",
  "Resolving a path returns the value reached by following its components from the root: dictionary keys delimited by slashes, bracketed indexes counted from the start, or from the end when negative; it returns nothing whenever a component does not resolve, or a bracketed index is out of range (of any magnitude) or not an optionally signed decimal number, and it never changes anything. Build-path resolution returns the same value when the whole path exists, and otherwise creates exactly the missing components with the right container types, appends for empty brackets, marks the final value new, and returns nothing if an existing value has the wrong type or an index is out of bounds. Only the path string and the values on the path are accessed.",
  ["inputs", "fault_sequences"], "every path string and every value hierarchy, every allocation outcome",
  "Tests resolve a few dozen hand-written paths; arbitrary separators, digits, huge or negative indexes and malformed brackets are not covered.",
  ["data/value.c", "data/value.h"], [("value_path, value_build_path", "data/value.c")], ["returned value pointer, hierarchy afterwards"])
p("C27", "Finalising or cleaning a value releases everything it owns exactly once",
  "Finalising any value releases every block owned by it and, recursively, by all its items, each exactly once, touches nothing released, and leaves a null value. Cleaning or removing items from a container releases exactly those items and leaves a valid container with the rest. Failed operations leak nothing.",
  ["histories", "fault_sequences"], "every hierarchy of values, every history building it, every allocation outcome",
  "Tests run without allocation failure and check no heap accounting over all shapes.",
  ["data/value.c"], [("value_fini, value_dict_clean, value_array_clean, value_array_remove_range, value_dict_remove_", "data/value.c")], ["heap accounting"])
p("C28", "Chunk allocator returns disjoint, stable blocks and frees them all",
  "Every successful allocation returns memory of at least the requested size, disjoint from every block handed out before and from the allocator's own bookkeeping, and valid until teardown; requests too large to satisfy return nothing and change nothing. Any block size chosen at initialisation works, zero meaning the default. Teardown frees every underlying block exactly once and leaves an allocator that can be used again.",
  ["inputs", "histories", "fault_sequences"], "every block size, every sequence of request sizes up to the maximum of the size type, every allocation outcome",
  "Tests allocate a few sizes; wrap-around sizes, exact fits and the switch between shared and dedicated blocks in all states are not covered.",
  ["mem/memchunk.c", "mem/memchunk.h"], [("memchunk_alloc, memchunk_fini, memchunk_init", "mem/memchunk.c")], ["returned pointers, heap"])
p("C29", "Stack-or-heap allocation is usable at full size and freed exactly when on heap",
  "For any size and threshold, also when given as expressions, the allocation macros return a block whose full requested size is usable, on the stack only when size and bookkeeping fit under the threshold and on the heap otherwise; they return nothing if the heap is exhausted or the size is unrepresentable. Releasing frees exactly the heap blocks, never a stack block, whatever the block contains and whatever the caller's variables are named (names ending in two underscores are reserved), and releasing a null pointer does nothing.",
  ["inputs", "programs", "fault_sequences"], "every size, threshold and argument expression, every block content, every allocation outcome",
  "Tests call the macros with constants and one variable; expression arguments, tiny thresholds and extreme sizes are not tried.",
  ["mem/malloca.h"], [("MALLOCA, MALLOCA_, FREEA", "mem/malloca.h")], ["returned block, heap"])
p("C30", "Command-line parsing reports exactly the documented sequence of options",
  "For any option table and argument list, the callback receives, in order, exactly the events the documentation prescribes: short options alone or grouped with required arguments taken from the same or the next token, long options with the argument attached by '=', compiler-like prefix options, positional arguments, everything after a lone double dash as positional, and unknown, missing-argument and bogus-argument errors naming the guilty token or option. A non-zero callback result stops parsing at once and is returned; otherwise zero is returned. The table, the argument list and their strings are only read, within their bounds.",
  ["inputs", "configurations"], "every option table, argument count and strings, every callback behaviour",
  "Tests parse some fifty fixed command lines against one table; flag combinations, grouping with every kind of option and over-long names are not all covered.",
  ["misc/cmdline.c", "misc/cmdline.h"], [("cmdline_read", "misc/cmdline.c")], ["sequence of callback invocations, return value"])
p("C31", "Helper macros compute min, max, clamp, abs and containers for all operands",
  "Minimum, maximum (of two and three), clamping into a non-empty range and absolute value give the mathematically defined result for all operands of a common arithmetic type whose result is representable, whatever operators the argument expressions contain and in whatever expression the macro is used. Array length, member offset and container recovery give the true count, offset and enclosing object, and stringising expands its argument first.",
  ["inputs", "programs"], "all operand values of the integer and floating types (NaN excluded), all argument expressions without side effects",
  "Tests evaluate a few literals; precedence interactions and full operand ranges are not enumerated.",
  ["misc/defs.h"], [("MIN, MAX, MIN3, MAX3, CLAMP, ABS, SIZEOF_ARRAY, OFFSETOF, CONTAINEROF, STRINGIZE", "misc/defs.h")], ["value of the macro expression"])
p("C32", "Memory stream reads, seeks, copies and counts references within its bounds",
  "A read-only stream over a memory block returns, for each read, the bytes from the current position up to the requested count or the end of the block and advances by that many; seeking moves to exactly the requested position, also beyond the end where reads then report the end, and fails without moving if that position is negative or does not fit 32 bits; copying transfers the same bytes to the other stream and reports the counts. Clones start at the same position and move independently. Reference counting destroys the stream exactly when the last reference is released, and nothing outside the block is ever read, for any 64-bit sizes and offsets.",
  ["inputs", "histories", "fault_sequences"], "every block size, position, request size and seek offset, every history of calls, every outcome of allocation and of writes to the destination",
  "The test for this part is compiled only on Windows; on the build platform nothing exercises the code.",
  ["win32/memstream.c", "win32/memstream.h"], [("memstream_create and the stream methods", "win32/memstream.c")], ["bytes returned, positions, reference count"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
