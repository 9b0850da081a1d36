from p_containers import it
from props import *
INC = "include/neolib/core/"
st2, st3 = Harness("segmented_tree.cpp", engine=CONC), Harness("segmented_tree.cpp", flags=["-DSEG=3"], engine=CONC)
P("C07", "segmented_tree keeps order, depth, parents and descendant counts",
  "After any sequence of appending, prepending, inserting and erasing values and subtrees at any level of a segmented_tree, and of sorting or copying it, traversal in either direction, by ++ or -- before or after the iterator, visits the values in document order, each with its depth, parent, children and descendant count; so do the traversals of siblings and of the children of any value, forwards, backwards and const. Skipping a value's children hides exactly its descendants from the skipping traversal.",
  ["inputs", "histories"], "all values, positions, skip flags and operation orders within the bounds",
  "The unit test builds one tree and prints it; counts and positions depend on every earlier insertion and erasure at every level above.",
  [INC + "segmented_tree.hpp", INC + "segmented_array.hpp"], [("descendant and skip counts", INC + "segmented_tree.hpp: node, insert/erase/skip_children"), ("traversal", INC + "segmented_tree.hpp: basic_iterator")],
  quick=[W(st2, 3, 2, time=60), W(st2, 3, 2, 1, time=60), W(st3, 4, 1, 1, time=60), W(st2, 3, 0, 0, 0, 1)],
  thorough=[W(st2, 2, 3, 1, time=300), W(st2, 5, 2, 1, time=300), W(st3, 3, 3, 1, time=900), W(st2, 4, 3, time=900), W(st2, 4, 0, 0, 0, 1), W(st3, 5, 0, 0, 5, 1, time=400)],
  reach=["views", "append", "prepend", "insert", "erase", "erase-subtree", "copy", "sort", "skip"],
  bounds={"quick": "every tree of up to 3 appended values followed by every 2 operations, up to 4 values and one operation (segment size 3).", "thorough": "every tree of up to 5 values and 2 operations, up to 4 values and 3 operations."})
ix = Harness("indexitor.cpp", engine=CONC)
P("C08", "indexitor maps positions to accumulated foreign indices and back",
  "In an indexitor every element has a width in a second (foreign) index, optionally with skipped amounts before and after it. After any sequence of edits the foreign index of a position is the sum of the widths and skips before it, the element found for any foreign index is the one whose range covers it, and iteration and indexing give the edited sequence.",
  ["inputs", "histories"], "all element widths, skips, positions, looked-up foreign indices and operation orders within the bounds",
  "There is no test that mixes edits and lookups; widths are accumulated in tree nodes that every insertion, rotation and removal has to keep up to date.",
  [INC + "indexitor.hpp", INC + "index_array_tree.hpp", INC + "array_tree.hpp"], [("foreign index accumulation", INC + "index_array_tree.hpp: node update, rotations"), ("lookups", INC + "indexitor.hpp: find_by_foreign_index, foreign_index")],
  quick=[W(ix, 4, 1, time=40), W(ix, 5, 1, 5, time=40), W(ix, 4, 2, 0, 0, 0, time=40), W(ix, 7, 1, 7, 0, 0, time=40), W(ix, 2, 1, 0, 1, time=60), W(ix, 4, 1, 4, 1, 0, time=40), W(it[3], 5)],
  thorough=[W(ix, 1, 3, 0, 0, 0, time=300), W(ix, 2, 2, 0, 0, 1, time=900), W(ix, 7, 1, 6, 0, 1, time=900), W(ix, 3, 1, 0, 1, 1, time=900), W(ix, 6, 2, 6, 0, 0, time=900), W(ix, 2, 3, 0, 0, 0, time=1200), W(it[3], 12)],
  reach=["iterators", "insert", "range", "erase", "erase-range", "update", "copy", "found", "not-found"],
  bounds={"quick": "every single operation from 0..5 elements with every lookup; every 2 operations from 0..4 elements; widths and skips are symbolic bytes.", "thorough": "every single operation from up to 7 elements with lookups; every 3 operations from 0..2 elements."})
jr = [Harness("jar.cpp", flags=[f"-DKIND={k}", "-fdelayed-template-parsing"], engine=CONC) for k in range(4)]
P("C09", "A jar's cookie names its item until that item is removed",
  "A cookie obtained from a jar is never null and never equals another live cookie, and refers to the item it was given for until that item is removed, whatever other items are inserted, removed or moved. Looking up, indexing or removing through a cookie with no live item is refused, and iteration visits each live item exactly once.",
  ["inputs", "histories"], "all item values, looked-up cookies and operation orders within the bounds (cookies passed to add() come from next_cookie())",
  "No test covers jars; items move when others are removed, so the reverse index is only exercised by mixed histories.",
  [INC + "jar.hpp", INC + "i_jar.hpp"], [("swap-with-last removal and reverse index", INC + "jar.hpp: remove"), ("cookie reuse", INC + "jar.hpp: next_cookie/return_cookie")],
  quick=[W(jr[0], 4, 2, time=60), W(jr[1], 4, 2, time=60), W(jr[2], 2, 3, time=60), W(jr[3], 2, 3, time=60)],
  thorough=[W(jr[0], 3, 3, time=600), W(jr[1], 3, 3, time=600), W(jr[2], 1, 4, time=900), W(jr[3], 1, 4, time=900)],
  reach=["insert", "add", "remove", "erase", "clear", "copy", "stale"],
  bounds={"quick": "every 2 operations from 0..4 items, every 3 from 0..2.", "thorough": "every 3 operations from 0..3 items, every 4 from 0..1."},
  assumptions=["cookies are not exhausted (fewer than 65534 live items)", "cookies given to add() were reserved with next_cookie()"])
