from props import P, NAP, J, W, Harness, CONC
IO = "include/neolib/io/"
uri = Harness("uri.cpp", repo_src=["src/io/uri.cpp"], engine=CONC)
P("C29", "A URI splits into its parts, escapes and unescapes without loss",
  "A URI made of scheme, user, password, host, port, path, query and fragment is parsed into exactly those parts, each ending at the first of its delimiters (so a query may hold '?' and '://', a fragment anything), and to_string gives the text back. A port that is no number from 0 to 65535 is refused. Any text at all is parsed or refused without touching memory outside it. unescape turns each %XX into its character wherever it stands, and unescape(escape(s)) is s.",
  ["inputs"], "every content of each part in turn, over characters other than its delimiters and '%', up to the length bound; every port; every text up to the bound",
  "No test uses uri; escapes at the ends, delimiters that occur again, empty parts and large ports are what break it.",
  [IO + "uri.hpp", "src/io/uri.cpp"], [("parse", "src/io/uri.cpp: uri::parse, to_string"), ("escape", "src/io/uri.cpp: uri::escape, unescape")],
  quick=[W(uri, 0, 1), W(uri, 1, 1, 1), W(uri, 2, 0, 1), W(uri, 2, 1, 1), W(uri, 2, 2, 1), W(uri, 2, 4, 1), W(uri, 2, 5, 1, 100), W(uri, 2, 6, 1), W(uri, 2, 7, 1), W(uri, 3, 1), W(uri, 3, 4, 1), W(uri, 4)],
  thorough=[W(uri, 0, 2, time=100), W(uri, 1, 1, 1), W(uri, 2, 0, 2, time=100), W(uri, 2, 1, 2, time=100), W(uri, 2, 2, 2, time=100), W(uri, 2, 3, 1, time=200), W(uri, 2, 4, 2, time=100), W(uri, 2, 5, 2, 1000, time=100), W(uri, 2, 6, 2, time=100), W(uri, 2, 7, 2, time=100), W(uri, 3, 2, time=150), W(uri, 3, 5, 1), W(uri, 4)],
  reach=["escaped", "escapes", "decode", "at the end", "parts", "parsed", "refused", "big", "fits"],
  bounds={"quick": "parts and texts of up to 1 character of any value, texts up to 4 of the delimiters and a few others; ports below 100 in a whole URI, and around 65535.", "thorough": "parts, escape and arbitrary texts up to 2 characters (within the time limit), 5 of the delimiters and a few others."})
pk = Harness("packets.cpp", engine=CONC)
P("C30", "Lines and binary packets come out the same however the bytes arrive split",
  "Text that arrives in chunks is assembled by string_packet into the lines it holds, whatever bytes the lines hold and wherever the chunks are cut, also between CR and LF: the same non-empty lines, in order, none joined, split, lost or shortened, with nothing left over but the unfinished last line. binary_packet takes every byte in order. Copies of a packet are equal and independent; the data of an empty packet is refused.",
  ["inputs", "histories"], "every text up to the length bound cut into chunks at every choice of places", "No test uses packets; the place where a chunk is cut decides, and a test has to hit it.",
  [IO + "string_packet.hpp", IO + "binary_packet.hpp", IO + "i_packet.hpp"], [("lines", IO + "string_packet.hpp: take_some"), ("binary", IO + "binary_packet.hpp: take_some")],
  quick=[W(pk, 0, 5, 2), W(pk, 0, 6, 2), W(pk, 0, 8, 1, time=100), W(pk, 1, 4, 2)], thorough=[W(pk, 0, 6, 3, time=200), W(pk, 0, 9, 1, time=200), W(pk, 0, 7, 2, time=200), W(pk, 1, 6, 3)],
  reach=["lines", "stream", "binary"], bounds={"quick": "texts up to 6 characters in up to 3 chunks, up to 8 characters in 2 chunks.", "thorough": "texts up to 6 characters in 4 chunks, 7 in 3, 9 in 2 (within the time limit)."},
  assumptions=["chunks are handed over by the loop of packet_connection, reproduced in the harness: a packet is taken from as long as bytes are left, and delivered when complete and not empty"])
FI = "include/neolib/file/"
xm, xmp = Harness("xml.cpp", engine=CONC), Harness("xml.cpp", ["-DALLOC=neolib::pool_allocator<char>"], engine=CONC)
P("C33", "XML is read into its tree, safely, and what is written reads back",
  "Reading a well-formed document (declaration, DOCTYPE, comments, CDATA, elements with attributes in either quote, references, white space wherever XML allows it between the parts of a tag, > in text, empty comments and CDATA) reports no error and builds exactly the document's tree: names, attributes, text with references replaced, comments and CDATA verbatim, in order; text that is only white space is dropped. Reading any text whatever, well-formed or not, ends, touches no memory it should not, and reports whether there is a root. A tree written out reads back as the same tree (up to white space around text where an element mixes text and other content, when white space is being stripped). Inserting, appending, erasing, finding and iterating over nodes, also filtered and backwards, agree with the list of children. > within an attribute value and DTD-defined entities are outside the claim.",
  ["inputs", "histories"], "every document of the grammar, every text over the markup characters appended to each of ten beginnings, every tree and edit history, up to the bounds",
  "No test reads or writes XML; unterminated tags at the very end of the text, empty comments, and newlines at the end of text are what break it.",
  [FI + "xml.hpp", FI + "xml.inl"], [("scanner", FI + "xml.inl: next_tag, next_token, parse"), ("references", FI + "xml.inl: parse_entities, generate_entities"), ("writer", FI + "xml.inl: write_node, node_writer"), ("node lists", FI + "xml.hpp: xml_node::iterator, insert, erase")],
  quick=[W(xm, 0, 3, k) for k in range(10)] + [W(xm, 0, 2, 10 * j + k) for j in (1, 2, 3) for k in (1, 2, 4, 5)] + [W(xm, 1, 2, 1), W(xm, 1, 1, 3), W(xm, 2, 2, 1), W(xm, 3, 2, 1), W(xm, 4, 3, 1), W(xmp, 2, 2, 1), W(xmp, 4, 2)],
  thorough=[W(xm, 0, 4, k, time=100) for k in range(40)] + [W(xm, 1, 3, 0, time=400), W(xm, 1, 2, 3, time=400), W(xm, 2, 3, 1, time=200), W(xm, 2, 2, 2, time=200), W(xm, 3, 3, 1, time=400), W(xm, 4, 4, 1, time=200), W(xmp, 2, 3, 1, time=100), W(xmp, 4, 3)],
  reach=["any", "well-formed", "round trip", "edits"],
  bounds={"quick": "texts of up to 3 markup characters after each of ten beginnings; documents and trees of 2 items (attributes, children, characters); 3 edits.", "thorough": "4 characters, 3 items, 4 edits (within the time limits)."},
  assumptions=["characters of text stand for themselves: each is drawn from a set with one member of every class the reader distinguishes"])
