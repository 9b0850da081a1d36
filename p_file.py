from props import P, NAP, J, W, Harness, CONC
INC = "include/neolib/"
js, jk, jr = Harness("json.cpp", engine=CONC), Harness("json.cpp", ["-DSYNTAX=StandardNoKeywords"], engine=CONC), Harness("json.cpp", ["-DSYNTAX=Relaxed"], engine=CONC)
JF = [INC + "file/json.hpp", INC + "file/json.inl"]
P("C17", "Reading JSON accepts exactly JSON and builds exactly its tree",
  "Reading a text with the StandardNoKeywords syntax succeeds exactly when the text is one JSON value (RFC 8259) between optional white space, and the Standard syntax differs only in also taking unquoted words; numbers with superfluous leading zeros and unpaired surrogate escapes are outside the claim. The tree has the document's objects, arrays, members in order, names, strings with every escape decoded, exact integers, booleans and nulls; looking a member up by name or path finds it or reports its absence. Neither malformed text nor an earlier read of the same object changes any of this or makes the parser touch memory outside the text.",
  ["inputs", "histories"], "every text up to the length bounds: any bytes, any structural characters, any string contents, any unicode escapes; every text read before",
  "The unit test reads two documents; brackets that do not match, truncated input, escapes at particular positions and texts read after a failure decide.",
  JF, [("state tables", INC + "file/json.inl: sStateTables, object_state, value_state"), ("parse loop", INC + "file/json.inl: do_read, do_parse, buy_value"), ("member lookup", INC + "file/json.hpp: basic_json_object; json.inl: at")],
  quick=[W(js, 0, 3, time=60), W(jk, 0, 2, time=40), W(js, 1, 4, 4, time=60), W(js, 1, 3), W(jk, 1, 4, 4, time=60), W(js, 2, 4, time=60), W(js, 3, 4, time=60), W(js, 4, 4, 4, time=60), W(js, 5, 0, 1, time=60), W(js, 6, 3, time=60), W(js, 7, 4, 4, time=60), W(js, 8, 3, time=60), W(jk, 9, 4, 4, time=90), W(js, 10, 2), W(js, 11, 3), W(js, 13, 3, time=60)],
  thorough=[W(js, 0, 4, time=300), W(jk, 0, 3, time=100), W(js, 1, 5, 5, time=400), W(js, 2, 5, time=300), W(js, 3, 6, time=400), W(js, 4, 5, time=100), W(js, 5, 0, 0, time=60), W(js, 5, 0, 1, time=60), W(js, 6, 5, time=300), W(js, 7, 5, 5, time=400), W(jk, 8, 5, 5, time=400), W(jk, 9, 4, 4, time=90), W(js, 10, 3, time=200), W(js, 11, 4, time=100), W(js, 13, 4, time=200)],
  reach=["accepted", "rejected", "lookup"],
  bounds={"quick": "any 3 bytes; 4 characters of the structural alphabet alone or inside an array (3 inside an object); strings of any 4 bytes, names of any 3; any \\uXXXX and 3888 surrogate pair shapes; 4 characters of numbers; objects of up to 3 members.", "thorough": "any 4 bytes; 5 structural characters alone, inside arrays and objects; strings of 6 bytes, names of 5."},
  assumptions=["the value of a number with fraction or exponent is only checked to be a double; its conversion is property C14's", "the text comes from an in-memory stream; the C++ stream library is modelled by engine/rt"])
P("C18", "Written JSON reads back as the same tree",
  "Writing a tree that was read and reading the result gives the same tree: same structure, order, names, strings and exact integers, whatever bytes, quotes, control characters or escapes the names and strings hold. Trees containing doubles are outside the claim.",
  ["inputs"], "every document up to the length bounds", "Nothing tests the writer; quotes in names and control characters before integers are what break it.",
  JF, [("writer", INC + "file/json.inl: write")],
  quick=[W(js, 0, 2, 1, 1, time=60), W(js, 3, 4, 1, 1, time=60), W(js, 6, 4, 0, 1, time=60), W(js, 5, 0, 1, 1, time=60), W(js, 7, 4, 3, 1, time=60), W(js, 8, 4, 4, 1, time=60), W(js, 14, 2, time=60)],
  thorough=[W(js, 3, 6, 1, 1, time=400), W(js, 6, 5, 0, 1, time=400), W(js, 5, 0, 0, 1, time=60), W(js, 5, 0, 1, 1, time=60), W(js, 7, 5, 5, 1, time=500), W(js, 8, 5, 5, 1, time=500), W(js, 14, 3, time=400)],
  reach=["round-trip"],
  bounds={"quick": "documents accepted among: strings and names of any 4 bytes, surrogate pairs, arrays and objects with up to 4 structural characters inside, and nested mixed documents of two generated values.", "thorough": "strings of 6 bytes, names of 5, 5 structural characters inside, three generated values."},
  assumptions=["integers are written through the C++ stream library, modelled by engine/rt"])
P("C19", "Relaxed JSON accepts all JSON, and comments change nothing",
  "The Relaxed syntax accepts every JSON document with exactly the tree the standard gives it, comment markers and other quotes inside strings being text, and a comment (// to the end of the line or /* */) inserted between any two tokens of a document changes nothing.",
  ["inputs"], "every document up to the length bounds and every placement of up to two comments in four documents", "No test reads relaxed JSON at all.",
  JF, [("comment skipping", INC + "file/json.inl: next_state, do_parse"), ("quotes", INC + "file/json.inl: StringEnd, EndName")],
  quick=[W(jr, 0, 2, time=60), W(jr, 1, 4, 4, time=60), W(jr, 3, 4, time=60), W(jr, 6, 3, time=60), W(jr, 5, 0, 1, time=60), W(jr, 7, 4, 4, time=60), W(jr, 8, 4, 4, time=60), W(jr, 12, 1, time=60)],
  thorough=[W(jr, 0, 3, time=200), W(jr, 3, 6, time=300), W(jr, 6, 5, time=300), W(jr, 5, 0, 1, time=60), W(jr, 7, 5, 5, time=400), W(jr, 8, 5, 5, time=400), W(jr, 12, 2, time=300)],
  reach=["accepted", "commented"],
  bounds={"quick": "any 2 bytes; 4 structural characters alone or inside an array or object; strings of any 4 bytes, names of any 3; one comment of five kinds at every token boundary of four documents.", "thorough": "strings of 6 bytes, names of 5, 5 structural characters inside, two comments."})
jt = Harness("jsontree.cpp", engine=CONC)
P("C34", "A JSON document in memory is the tree its edits built, however it is looked at",
  "After reading a document of objects, arrays, numbers and strings and then any sequence of replacing values, assigning members by name, appending to arrays and objects, naming members and clearing values, the tree is what those edits make of it, in order. Every way of looking agrees with it and with every other: child iteration, first and last child, siblings and parents, document-order iteration, visiting (with or without recursion), array elements by position or iteration, members by name (has, at, at_or, dotted paths of member names), whether or not the same look-up was made before the edit. Writing the edited document and reading it back gives the same tree.",
  ["inputs", "histories"], "every document of the shapes and every edit history within the bounds, with each look-up made or not made before each edit; any 32-bit numbers where the document is not written out",
  "No test edits a document after looking something up in it; look-ups are cached, so only the order of edits and look-ups shows a stale cache.",
  JF, [("lazy look-ups", INC + "file/json.hpp: basic_json_object::cache, basic_json_array::cache"), ("tree links", INC + "file/json.hpp: basic_json_node, basic_json_value::clear"), ("traversal", INC + "file/json.inl: iterator_base, at, visit")],
  quick=[W(jt, 0, 2, 2, 0), W(jt, 1, 2, 2, 0), W(jt, 0, 0, 0, 2), W(jt, 0, 0, 0, 2, 0), W(jt, 0, 1, 2, 1), W(jt, 0, 1, 1, 2, 0, time=60)],
  thorough=[W(jt, 0, 3, 2, 0, time=200), W(jt, 1, 3, 2, 0, time=200), W(jt, 0, 0, 0, 3, time=900), W(jt, 0, 2, 2, 1, time=400), W(jt, 0, 1, 1, 2, time=300), W(jt, 0, 1, 2, 2, 0, time=900)],
  reach=["tree", "path", "replaced", "pushed", "member", "cleared", "appended", "named"],
  bounds={"quick": "documents of depth 2 with up to 2 children each (names a, b), unedited; 2 edits from the empty object and from one-child documents, 1 from two-child ones.", "thorough": "depth 3; 3 edits from the empty object, 2 from two-child documents (within the time limits)."},
  assumptions=["members looked up by name are the only ones of their name, except that has() and the path look-up (first of the name) are claimed always", "path elements are not empty and lead through objects only"])
