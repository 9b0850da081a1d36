from props import *
INC = "include/neolib/core/"
so = Harness("sort.cpp", engine=CONC)
P("C16", "intrusive_sort sorts every range through its swapper alone",
  "After intrusive_sort the range is ordered by the comparison it was given and holds the same elements, each exactly once; the swapper is only ever given elements of the range and nothing outside the range changes.",
  ["inputs"], "every range up to the length bound, with any keys (short ranges) or any keys from a small set (longer ones)",
  "No test sorts; the heapsort fallback only runs on inputs whose partitions are all lopsided, which samples almost never are.",
  [INC + "intrusive_sort.hpp"], [("introsort", INC + "intrusive_sort.hpp: introsort, partition, heapsort")],
  quick=[W(so, 0, 4, 0, time=60), W(so, 0, 7, 3, 7, time=60), W(so, 1, 7, 2, 7, time=40), W(so, 0, 16, 1, 16, time=60)],
  thorough=[W(so, 0, 5, 0, time=100), W(so, 0, 8, 3, 8, time=120), W(so, 1, 7, 3, 7, time=60), W(so, 0, 16, 1, 16, time=60), W(so, 0, 9, 2, 9, time=200), W(so, 0, 12, 2, 12, time=500)],
  reach=["sorted"],
  bounds={"quick": "up to 4 elements with any 32-bit keys; 7 elements with 4 distinct keys (enough for the heapsort fallback on 3 elements); 16 elements with two.", "thorough": "up to 5 with any keys; 8 with 4, 9 and (within the time limit) 12 with 3 distinct keys."})
