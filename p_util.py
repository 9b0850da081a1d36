from props import P, NAP, J, W, Harness, CONC
INC = "include/neolib/core/"
ids = Harness("ids.cpp", repo_src=["src/core/uuid.cpp"])
P("C24", "Version numbers and UUIDs order, print and read back exactly",
  "Versions compare by their four numbers in turn; a version written with its own operator<< and read back has the same numbers and name (a name without spaces or dots). A UUID prints as 32 upper case hexadecimal digits in five groups whatever the stream's settings, which it leaves alone, and reads back (either case) as the same UUID; UUIDs order as their texts, equal ones hash alike; generate_uuid marks version 4 and the RFC 4122 variant, takes the other 122 bits from the random bytes and throws when there are none. fast_hash is FNV-1a of the bytes.",
  ["inputs"], "all values of the four numbers (compare), of each number below the bound and every printable name up to the bound (text); of each part of a UUID in turn (text) and of all parts together (order); every key; every buffer up to the bound",
  "No test uses any of these; leading zeros, the third number, the stream's settings and the fixed bits decide.",
  ["include/neolib/app/version.hpp", "include/neolib/app/i_version.hpp", INC + "uuid.hpp", "src/core/uuid.cpp", INC + "fast_hash.hpp"],
  [("order", "include/neolib/app/version.hpp: operator<"), ("text", "version.hpp: version(string), operator<<; uuid.hpp: make_uuid, operator<<"), ("generation", "src/core/uuid.cpp: generate_uuid")],
  quick=[W(ids, 0), W(ids, 1, 2, 1000, time=100), W(ids, 2, 1), W(ids, 2, 2), W(ids, 2, 4), W(ids, 2, 8), W(ids, 2, 0x30), W(ids, 2, 0xC0), W(ids, 2, 0x300), W(ids, 3), W(ids, 4), W(ids, 5), W(ids, 6, 8)],
  thorough=[W(ids, 0), W(ids, 1, 3, 1000000, time=300), W(ids, 2, 1), W(ids, 2, 2), W(ids, 2, 4), W(ids, 2, 8), W(ids, 2, 0x30), W(ids, 2, 0xC0), W(ids, 2, 0x300), W(ids, 3), W(ids, 4), W(ids, 5), W(ids, 6, 16)],
  reach=["compare", "text", "named", "stream", "order", "generate", "fails", "hash"],
  bounds={"quick": "version numbers below 1000 and names up to 2 characters in text; buffers up to 8 bytes hashed.", "thorough": "numbers below 1000000, names up to 3; buffers up to 16."},
  assumptions=["the random bytes of generate_uuid come from a stand-in for openssl::generate_key whose bytes and success are symbolic"])
u = Harness("util.cpp", ["-DOPT=1"]); uc = Harness("util.cpp", ["-DOPT=1"], engine=CONC)
P("C25", "Iterator adaptors move, copy and compare as the iterators they hold",
  "any_iterator and any_const_iterator, through any history of steps (prefix and postfix), copies, assignments (also to itself) and resets, hold exactly the position of the iterator they wrap, whatever its size, compare as it does, throw when stepped empty, and free what they allocate. zip_iterator walks all its sequences together forwards, backwards and at random, gives the elements of each, writes through, and iter_swap exchanges the elements of both sequences.",
  ["inputs", "histories"], "every history up to the step bound over three wrappers of list iterators of 8 and of 64 bytes; sequences up to 4 elements of any values",
  "No test uses any of these; postfix steps, self assignment, the size of the wrapped iterator and swapping through reference tuples are what break them.",
  [INC + "any_iterator.hpp", INC + "zip_iterator.hpp"], [("wrappers", INC + "any_iterator.hpp"), ("zip", INC + "zip_iterator.hpp: zip_iterator, std::iter_swap")],
  quick=[W(uc, 8), W(uc, 9, 0), W(uc, 9, 1), W(uc, 9, 2)], thorough=[W(uc, 8), W(uc, 9, 0), W(uc, 9, 1), W(uc, 9, 2)], reach=["zip", "wrap", "postfix"],
  bounds={"quick": "3 operations out of 8.", "thorough": "as quick."})
P("C26", "Scope guards restore what they changed however the scope is left",
  "scoped_flag, scoped_atomic_flag, scoped_counter, scoped_pointer, scoped_object, scoped_deleter, scoped_cleanup, scoped_optional and scoped_optional_if set their target for the scope and, unless told to ignore it, restore (delete, run) on leaving it, by return or by exception. recursion_limiter admits exactly as many nested scopes as its limit, throws beyond, and leaves the depth at zero when all scopes are left, so that a refusal has no effect on later calls.",
  ["inputs", "faults"], "any values of the guarded objects, with and without an exception and ignore; every nesting depth up to 5, three times in a row", "No test uses these; the exceptional exits decide.",
  [INC + "scoped.hpp", INC + "recursion.hpp"], [("guards", INC + "scoped.hpp"), ("recursion", INC + "recursion.hpp: recursion_limiter")],
  quick=[W(u, 7), W(u, 6)], thorough=[W(u, 7), W(u, 6)], reach=["scopes", "recursion", "too deep"], bounds={"quick": "as stated.", "thorough": "as stated."})
P("C27", "Stepping counters hit both ends and random traversal visits everything once",
  "bresenham_counter<int> and bresenham_counter_alt<int> give N values from the start of the range to its end, in either direction: the first is the start, the last the end, none turns back, each is within one of the exact value (bresenham_counter: the nearest to it), also after init. A random number from an interval lies in it, whatever the generator gives. random_traversal, whatever the generator gives and also after reset, visits each element exactly once and then gives -1.",
  ["inputs"], "N up to the bound with any end in the range of the bound; intervals of 11 widths at any position; up to the bound of elements with every outcome of the draws", "No test uses these; remainders, descending ranges and the draws decide.",
  [INC + "bresenham_counter.hpp", INC + "random.hpp"], [("counters", INC + "bresenham_counter.hpp"), ("traversal", INC + "random.hpp: random_traversal"), ("interval", INC + "random.hpp: random_traits::interval, basic_random::get")],
  quick=[W(u, 0, 4), W(u, 1, 4), W(u, 2, 4), W(u, 3, 4), W(uc, 4, time=100), W(uc, 5, 4, time=100)],
  thorough=[W(u, 0, 6, time=200), W(u, 1, 6, time=200), W(u, 2, 4, 1, time=200), W(u, 3, 4, 1, time=200), W(uc, 4, 0, 0, 7, time=200), W(uc, 5, 7, time=300)],
  reach=["bresenham", "alt", "descending", "range", "traversal"],
  bounds={"quick": "N up to 4, ends -128..127 from 3 starts; at most 5 draws per call; 4 elements.", "thorough": "N up to 6, from zero ends -32768..32767; 7 elements (within the time limit)."},
  assumptions=["std::mt19937's output is replaced by symbolic 32-bit values (in the traversal by the 16 values that reach every outcome of every draw)"])
P("C28", "Enumeration names and values map to each other and nothing else is a name",
  "A declared enumerator converts to its name and back, through functions and objects; a value without a name gives its hexadecimal, or throws when a name is required; a text that is no enumerator's name throws (or gives nothing) and leaves an object's value as it was.",
  ["inputs"], "any 16-bit value and any text up to the bound, against an enumeration of three names", "No test uses enumerations.",
  [INC + "enum.hpp", INC + "i_enum.hpp"], [("conversion", INC + "i_enum.hpp: enum_to_string, string_to_enum, try_string_to_enum; enum.hpp: basic_enum")],
  quick=[W(u, 10), W(u, 11, 9)], thorough=[W(u, 10), W(u, 11, 12)], reach=["enum", "hex", "named", "name", "no name"], bounds={"quick": "texts up to 9 characters.", "thorough": "texts up to 12 characters."})
