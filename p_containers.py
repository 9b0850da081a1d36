from props import *
INC = "include/neolib/core/"

leb = Harness("leb128.cpp")
it = [Harness("iters.cpp", flags=[f"-DWHAT={k}"], engine=CONC) for k in range(9)]  # iterator laws of every sequence
P("C01", "LEB128 encoding is minimal and decodes to the original value",
  "Encoding any unsigned integer as (U)LEB128 and any signed integer as SLEB128 yields bytes in which exactly the non-final bytes carry the continuation bit, which decode back to the same value, and which are no longer than necessary.",
  ["inputs"], "all 2^64 unsigned, all 2^32 narrow unsigned and all 2^64 signed values",
  "No existing test encodes anything with LEB128; the property is over all 64-bit values, including the sign and byte-boundary cases.",
  [INC + "leb128.hpp"], [("encoder loops", INC + "leb128.hpp: ULEB128, LEB128, SLEB128")],
  quick=[J(leb)], reach=["uleb10", "leb5", "sleb10", "sleb-neg"], bounds="All 64-bit values of ULEB128/SLEB128 and all 32-bit values of LEB128 (loops at most 10 iterations: complete).")

gvF = lambda g, n, *f: Harness("gap_vector.cpp", flags=[f"-DGAP={g}", f"-DNEAR={n}", *f], engine=CONC)
gv2, gv4, gv40, gv4t = gvF(2, 1), gvF(4, 1), gvF(4, 0), gvF(4, 1, "-DTRIVIAL")
P("C02", "gap_vector is a sequence: every edit history gives vector contents",
  "After any sequence of insertions, erasures, resizes, copies, moves, swaps and reservations anywhere in a gap_vector, its size, indexing, iterators (forward, reverse and const; every step, distance and comparison) and returned positions equal those of an ordinary dynamic array subjected to the same edits. Every element is constructed and destroyed exactly once, nothing is leaked and no memory outside the buffer is touched, whatever the gap's position, also when the inserted value lives inside the container.",
  ["inputs", "histories"], "all element values, positions, counts and operation orders within the bounds",
  "The unit test runs a few hundred edits of one kind at fixed positions; gap placement depends on the order and distance of edits, and each combination takes a different code path.",
  [INC + "gap_vector.hpp"], [("gap placement and growth", INC + "gap_vector.hpp: make_gap/allocate_gap/insert/erase"), ("gap-skipping iterator arithmetic", INC + "gap_vector.hpp: iterator")],
  quick=[W(gv2, 3, 2, 0, time=90), W(gv4, 5, 1, time=40), W(gv40, 5, 1, time=40), W(gv4t, 5, 1, time=40), W(gv4, 3, 1, 0, 1, time=60), W(it[0], 5)],
  thorough=[W(gv2, 3, 2, 0, time=200), W(gv4, 3, 2, time=300), W(gv40, 3, 2, time=300), W(gv4t, 3, 2, time=200), W(gv2, 8, 2, 7, time=900), W(gv4, 3, 1, 0, 1, time=60), W(gv2, 2, 3, time=1500), W(it[0], 12)],
  reach=["iterators", "insert", "erase", "erase-range", "range-insert", "big-insert", "copy", "arith"],
  bounds={"quick": "gap sizes 2 and 4, near-gap threshold 0/1: initial length 0..3 followed by every 2 operations (gap 2), 0..5 followed by every single operation of 31 kinds (gap 4); counts up to gap+2; element values and positions symbolic.",
          "thorough": "As quick plus every 2 operations from 0..3 elements for gap 4, from 7..8 elements for gap 2, and every 3 operations from 0..2 elements for gap 2."})

sa2, sa3 = Harness("segmented_array.cpp", engine=CONC), Harness("segmented_array.cpp", flags=["-DSEG=3"], engine=CONC)
P("C03", "segmented_array is a sequence: every edit history gives vector contents",
  "After any sequence of insertions, erasures, copies, moves and swaps anywhere in a segmented_array, its size, indexing, iterators (forward, reverse and const; every step, distance and comparison) and returned positions equal those of an ordinary dynamic array subjected to the same edits. Every element is constructed and destroyed exactly once and nothing is leaked.",
  ["inputs", "histories"], "all element values, positions, counts and operation orders within the bounds",
  "The unit test inserts and erases at random positions without covering segment splits and merges systematically; each combination of position, count and segment fill takes a different path.",
  [INC + "segmented_array.hpp", INC + "array_tree.hpp"], [("segment splitting", INC + "segmented_array.hpp: do_insert/allocate_space/erase"), ("index tree", INC + "array_tree.hpp: insert_node/delete_node/find_node/rotations")],
  quick=[W(sa2, 3, 2, time=60), W(sa2, 9, 1, 6, time=60), W(sa3, 7, 1, time=60), W(sa2, 4, 1, 0, 1, time=60), W(it[1], 6)],
  thorough=[W(sa2, 5, 2, time=600), W(sa3, 5, 2, time=900), W(sa2, 13, 1, 0, time=600), W(sa2, 4, 1, 0, 1, time=60), W(it[1], 12)],
  reach=["iterators", "insert", "erase", "erase-range", "range-insert", "copy", "arith"],
  bounds={"quick": "segment size 2: every 2 operations from 0..3 elements, every single operation from 6..9 elements; segment size 3: every single operation from 0..7 elements; insert counts up to 6.",
          "thorough": "Segment sizes 2 and 3: every 2 operations from 0..5 elements, every single operation from 0..13 elements (segment size 2)."})

ta = Harness("tag_array.cpp", engine=CONC); ta4 = Harness("tag_array.cpp", flags=["-DCAPA=4", "-DCAPV=4"], engine=CONC)
P("C04", "tag_array keeps every element's order, value and tag",
  "After any sequence of tagged insertions and erasures in a tag_array, iteration and indexing give the elements in sequence order, each with its value and the tag it was inserted with. Every element is constructed and destroyed exactly once and nothing is leaked.",
  ["inputs", "histories"], "all element values, tags, positions, counts and operation orders within the bounds",
  "The unit test exercises two insert patterns; the tag of an element depends on how segments with different tags are split and merged around it.",
  [INC + "tag_array.hpp", INC + "array_tree.hpp"], [("segment selection by tag", INC + "tag_array.hpp: do_insert/allocate_space"), ("erase across segments", INC + "tag_array.hpp: erase")],
  quick=[W(ta, 4, 1, time=60), W(ta, 2, 2, time=60), W(ta4, 6, 1, time=60), W(it[2], 5)],
  thorough=[W(ta, 3, 2, time=600), W(ta, 7, 1, time=600), W(ta4, 3, 2, time=900), W(it[2], 12)],
  reach=["iterators", "insert", "range", "erase", "erase-range", "assign", "alias"],
  bounds={"quick": "two tags, segment capacities 2 to 3 and 4: every single operation from 0..4 (0..6) elements, every 2 operations from 0..2 elements; insert counts up to 6.",
          "thorough": "Every 2 operations from 0..3 elements, every single operation from 0..7 elements."})

ps = [Harness("poly_seq.cpp", flags=[f"-DKIND={k}"], engine=CONC) for k in range(5)]
P("C05", "The polymorphic vector, list and deque are faithful sequences",
  "neolib's vector, list and deque behave, for every bounded history of insertions, erasures, resizes, copies, moves and swaps, exactly like a sequence subjected to the same edits, including through their iterators (forward, reverse, const and abstract). Elements are constructed and destroyed exactly once and nothing is leaked.",
  ["inputs", "histories"], "all element values, positions, counts and operation orders within the bounds",
  "The existing tests use these containers only incidentally; positions and lifetimes through the type-erased iterators are not checked.",
  [INC + "vector.hpp", INC + "list.hpp", INC + "deque.hpp", INC + "container_iterator.hpp", INC + "generic_iterator.hpp"],
  [("wrapped container and abstract iterator conversions", INC + "vector.hpp, list.hpp, deque.hpp: do_insert/do_erase, to_std_iterator"), ("type-erased iterator", INC + "container_iterator.hpp")],
  quick=[W(ps[k], 4, 2, time=60) for k in range(3)] + [W(ps[k], 8, 1, time=40) for k in range(3)] + [W(ps[0], 6, 1, 0, 1)] + [W(it[k], 5) for k in (4, 5, 6)],
  thorough=[W(ps[k], 6, 2, time=300) for k in range(3)] + [W(ps[k], 2, 3, time=900) for k in range(3)] + [W(ps[0], 8, 1, 0, 1)] + [W(it[k], 12) for k in (4, 5, 6)],
  reach=["iterators", "insert", "erase", "copy", "arith", "abstract"],
  bounds={"quick": "every 2 of 31 kinds of operation from 0..4 elements, every single operation from 0..8 elements.", "thorough": "every 2 operations from 0..6 elements, every 3 from 0..2 (within the time limits)."})
P("C06", "Small-buffer vectors never lose, leak or corrupt elements",
  "A growable_static_vector and a vecarray hold exactly the elements of a sequence subjected to the same edits, whether the elements sit in the in-object buffer or on the heap and across every transition between the two. Elements are constructed and destroyed exactly once, and copying, moving or swapping two of them never makes them share or exchange in-object storage.",
  ["inputs", "histories"], "all element values, positions, counts and operation orders within the bounds",
  "The unit tests exercise one growth pattern; the transition from in-object to heap storage depends on the exact size at each operation.",
  [INC + "static_vector.hpp", INC + "small_buffer_allocator.hpp", INC + "vecarray.hpp"],
  [("in-object buffer allocator", INC + "small_buffer_allocator.hpp: allocate/deallocate"), ("container special members", INC + "static_vector.hpp")],
  quick=[W(ps[3], 3, 2, time=60), W(ps[3], 7, 1, time=40), W(ps[4], 3, 2, time=60), W(ps[4], 6, 1, time=40), W(ps[3], 5, 1, 0, 1), W(it[7], 5), W(it[8], 5)],
  thorough=[W(ps[3], 6, 2, time=400), W(ps[4], 6, 2, time=400), W(ps[3], 1, 3, time=900), W(ps[4], 1, 3, time=600), W(ps[3], 5, 1, 0, 1), W(it[7], 12), W(it[8], 6)],
  reach=["iterators", "insert", "erase", "copy", "arith"],
  bounds={"quick": "in-object capacity 3 (maximum 100) and fixed capacity 6: every 2 operations from 0..3 elements, every single operation from 0..7.", "thorough": "every 2 operations from 0..6, every 3 from 0..1."})
