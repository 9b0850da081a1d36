from props import P, NAP, J, W, Harness, CONC
INC = "include/neolib/core/"
RS = ["src/core/reference_counted.cpp", "src/core/lifetime.cpp"]
rc = Harness("refcount.cpp", engine=CONC, repo_src=RS)
P("C20", "A shared object dies exactly when its last ref_ptr goes, and weak pointers know",
  "Through any history of copying, moving, assigning (also from a pointer inside the object being released), casting, resetting and releasing ref_ptrs, including ones that look at a part of the object they own, linking objects to each other, taking weak pointers and pinning, an object's use count is the number of its owners, it is destroyed exactly once and exactly when the last owner lets go while it is not pinned, every weak pointer to it expires then and not before, dereferencing nothing or an expired weak pointer throws, and no memory is leaked. Counting of strong pointers constructed from a weak pointer itself is outside the claim.",
  ["histories"], "every history up to the step bound over 3 owners, 2 weak pointers and up to 6 linked objects",
  "No test uses reference counting; the histories that break it assign an object to itself or from inside itself, or drop the last owner during an assignment.",
  [INC + "reference_counted.hpp", INC + "i_reference_counted.hpp", "src/core/reference_counted.cpp"], [("counting", INC + "reference_counted.hpp: reference_counted, ref_ptr, weak_ref_ptr")],
  quick=[W(rc, 0, 2), W(rc, 1, 3, time=60), W(rc, 2, 3, time=60), W(rc, 0, 3, time=60), W(rc, 4, 2), W(rc, 4, 3, time=60), W(rc, 5, 2)], thorough=[W(rc, 0, 4, time=400), W(rc, 1, 4, time=400), W(rc, 2, 4, time=400), W(rc, 4, 4, time=400), W(rc, 5, 3, time=400)],
  reach=["history", "aliasing"],
  bounds={"quick": "3 operations of each of three sets of 9 operations and one of 13 (owners of parts and of uncounted objects).", "thorough": "4 operations (within the time limits)."})
P("C21", "Lifetime states move forward only and watching flags follow them",
  "An object's lifetime goes from creating to alive to destroying to destroyed, refuses to become alive twice or to be destroyed again once destroyed, and every destroyed_flag or destroying_flag, however copied, moved or reassigned, shows the state of the object it watches, also after the object is gone; no memory is leaked.",
  ["histories"], "every history up to the step bound over two objects and three flags", "No test uses lifetimes.",
  [INC + "lifetime.hpp", INC + "i_lifetime.hpp", "src/core/lifetime.cpp"], [("flags", INC + "lifetime.hpp: lifetime, destroyed_flag; src/core/lifetime.cpp: lifetime_flag")],
  quick=[W(rc, 3, 4)], thorough=[W(rc, 3, 6, time=200)], reach=["lifetime"],
  bounds={"quick": "4 operations out of 7.", "thorough": "6 operations."})
def mp(k, *f): return Harness("maps.cpp", [f"-DKIND={k}", "-fno-access-control", *f], engine=CONC)
m0, m1, m2, m3, m4, m6, m7, s0, s2 = mp(0), mp(1), mp(2), mp(3, "-U__SSE2__"), mp(4), mp(6), mp(7), mp(0, "-DSTR=1"), mp(2, "-DSTR=1")
P("C22", "Maps and sets hold what was inserted under its key, in order",
  "map, multimap, set (through their abstract interfaces), unordered_map, unordered_flat_map, mutable_set and mutable_multiset hold exactly the elements inserted and not erased: a unique-key container keeps the first element of a key, the ordered ones iterate in key order and, equal keys, in insertion order, both ways; find, lower_bound, upper_bound, at, operator[], emplace, erase and the iterators they return agree with that; copies and assignments, also through the abstract interface, are equal and independent; comparison is lexicographic; every element is destroyed once.",
  ["inputs", "histories"], "every history of operations up to the step bound, with any keys (hashed containers: any of a few keys some of which share a bucket) and any values",
  "No test uses any of these; which key meets which, and where, decides.",
  [INC + "map.hpp", INC + "set.hpp", INC + "mutable_set.hpp", INC + "unordered_map.hpp", INC + "container_iterator.hpp", INC + "i_iterator.hpp", INC + "pair.hpp", INC + "i_map.hpp"],
  [("wrappers", INC + "map.hpp, set.hpp, unordered_map.hpp"), ("mutable_set", INC + "mutable_set.hpp: mutable_base, mutable_set"), ("iterators", INC + "container_iterator.hpp: operator--")],
  quick=[W(m0, 0, 3, time=60), W(m1, 0, 3, time=60), W(m2, 0, 2), W(m3, 0, 2), W(m4, 0, 3), W(m6, 0, 3), W(m7, 0, 3), W(s0, 0, 2), W(s2, 0, 2)] + [W(x, 1) for x in (m0, m1, m2, m3, m4, m6, m7, s0)],
  thorough=[W(m0, 0, 4, 0x3FF, time=300), W(m1, 0, 4, time=300), W(m2, 0, 3, time=100), W(m2, 0, 2, 0x3FF, 5), W(m3, 0, 2, 0x3FF, 5, time=100), W(m4, 0, 4, time=100), W(m6, 0, 5, time=300), W(m7, 0, 5, time=300), W(s0, 0, 3, time=100), W(s2, 0, 3, time=200)] + [W(x, 1) for x in (m0, m1, m2, m3, m4, m6, m7, s0)],
  reach=["history", "list", "found", "absent", "erase", "new", "again", "copies", "index"],
  bounds={"quick": "3 operations (hashed and string-keyed containers 2) with any 8-bit keys and values.", "thorough": "4 operations (mutable sets 5, hashed 3 with 3 keys or 2 with 5)."},
  assumptions=["the C++ library's red-black tree and hash table support routines are modelled by engine/rt", "boost's flat map is built with its portable (non-SSE2) layout; assigning an empty flat map is left out (boost 1.83 defect)"])
va, vs = Harness("values.cpp", engine=CONC), Harness("values.cpp", ["-DSTR=1"], engine=CONC)
P("C23", "optional, variant, any and pair keep the value last given, or say there is none",
  "Through any history of assignments (from values, from each other, from themselves, through the concrete types and through the abstract interfaces), copies, moves, swaps and resets, an optional, variant, any or pair holds exactly the value last given to it, of exactly that type, or reports itself empty; reading another type or nothing throws; comparison is that of the values with empty least; copies are independent and every value is destroyed exactly once. Comparing anys is outside the claim.",
  ["inputs", "histories"], "every history of operations up to the step bound over two objects of each kind, with any values",
  "No test uses any of these; assignment through the abstract interface, from an empty or the very same object, is what breaks them.",
  [INC + "optional.hpp", INC + "i_optional.hpp", INC + "variant.hpp", INC + "i_variant.hpp", INC + "any.hpp", INC + "i_any.hpp", INC + "pair.hpp"],
  [("assignment through the interface", INC + "variant.hpp: assign; optional.hpp: operator="), ("any", INC + "any.hpp: any, operator=, any_cast")],
  quick=[W(va, 0, 2), W(va, 1, 2), W(va, 2, 2), W(va, 3), W(va, 4), W(vs, 0, 2), W(va, 1, 3, time=60), W(va, 2, 3, time=60)],
  thorough=[W(va, 0, 3, time=100), W(va, 1, 3, time=100), W(va, 2, 3, time=100), W(va, 3), W(va, 4), W(vs, 0, 3, time=100), W(va, 2, 4, time=400)],
  reach=["streams", "optional", "variant", "any", "pair", "compare", "assign", "assign empty", "move"],
  bounds={"quick": "3 operations (optional 2) on two objects, any 8-bit (integers 32-bit) values.", "thorough": "3 operations, any 4 (within the time limit)."})
