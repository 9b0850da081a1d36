from props import *
INC = "include/neolib/core/"
utf = Harness("utf.cpp", engine=CONC)
P("C10", "UTF-8, UTF-16 and UTF-32 conversions follow the Unicode encoding forms",
  "Text converted between UTF-8, UTF-16 and UTF-32 is the standard encoding of the same characters, and converting back gives the original. Decoding arbitrary bytes as UTF-8 always terminates within the input and yields U+FFFD for each byte that starts no valid sequence (overlong, truncated and out-of-range forms included); check_utf8 is true exactly for well-formed UTF-8; arbitrary UTF-16, lone surrogates included, survives the round trip through UTF-8.",
  ["inputs"], "every sequence of code points, bytes or UTF-16 units up to the length bound",
  "No existing test converts text; the interesting inputs are boundary code points and malformed or truncated sequences, which samples miss.",
  [INC + "string_utf.hpp"], [("decoder", INC + "string_utf.hpp: next_utf_bits, utf8_to_utf16/32, check_utf8"), ("encoder and character map", INC + "string_utf.hpp: append_utf8, utf16_to_utf8")],
  quick=[W(utf, 0, 3, time=40), W(utf, 1, 4, time=60), W(utf, 2, 3, time=40), J(utf, 3)],
  thorough=[W(utf, 0, 5, time=300), W(utf, 1, 5, time=600), W(utf, 2, 5, time=600), J(utf, 3)],
  reach=["text", "bytes", "units", "ill-formed", "lone", "invalid"],
  bounds={"quick": "text of up to 3 code points (all 1,112,064 scalar values each), any up to 4 bytes, any up to 3 UTF-16 units, any 32-bit value for a single character.", "thorough": "up to 5 code points, 5 bytes, 5 units."},
  assumptions=["code page fallback (locale dependent) is off"])
su = Harness("strutil.cpp", engine=CONC, repo_src=["src/core/string_utils.cpp"])
P("C11", "Splitting, trimming and replacing strings lose and invent nothing",
  "tokens() yields exactly the pieces between delimiters (as a set of characters or as one delimiter string, empty pieces kept or skipped as asked, never more than the maximum asked for). Trimming removes exactly the leading or trailing characters of the set, and replace_string replaces every non-overlapping occurrence left to right, reports whether it replaced anything, and terminates.",
  ["inputs"], "every string over a small alphabet up to the length bound, with every option combination",
  "No test covers empty tokens, limits, overlapping or empty search strings.",
  [INC + "string_utils.hpp"], [("tokeniser", INC + "string_utils.hpp: tokens"), ("replacement", INC + "string_utils.hpp: replace_string, remove_leading/remove_trailing")],
  quick=[W(su, 0, 5, time=40), W(su, 1, 4, time=40), W(su, 2, 5, time=40)],
  thorough=[W(su, 0, 8, time=600), W(su, 1, 6, time=600), W(su, 2, 8, time=600)],
  reach=["tokens", "token-limit", "replaced", "trim"],
  bounds={"quick": "texts of up to 5 characters (two delimiters and one ordinary character; two letters; space, tab and one ordinary character), search strings up to 2, replacements up to 3.", "thorough": "texts of up to 8 (6 for replacement) characters."})
P("C12", "Wildcard and multi-pattern matching decide exactly the language",
  "wildcard_match is true exactly when the whole text matches the pattern, '?' standing for any one character, '*' for any string and anything else for itself. A string_search_fsa holding literal patterns reports every occurrence of every pattern in a text exactly once, with its position.",
  ["inputs"], "every text and pattern up to the length bound",
  "The unit test only prints what it finds; matching depends on repeated and overlapping substrings that need backtracking.",
  [INC + "string_utils.hpp", "src/core/string_utils.cpp"], [("matcher", INC + "string_utils.hpp: do_wildcard_match"), ("search automaton", "src/core/string_utils.cpp: search, rebuild")],
  quick=[W(su, 3, 4, 4, time=60), W(su, 4, 4, 2, time=60)],
  thorough=[W(su, 3, 6, 5, time=600), W(su, 4, 5, 3, time=600)],
  reach=["match", "no-match", "found"],
  bounds={"quick": "texts of up to 4 characters over {a,b}; patterns of up to 4 over {a,b,*,?}; two literal patterns of up to 2 characters.", "thorough": "texts up to 6, patterns up to 5; two literal patterns of up to 3 characters in texts of up to 5."})
P("C13", "Escape sequences decode exactly and leave other text alone",
  "unescape() replaces each backslash escape by the character it denotes and parse_url_escapes() each '%' followed by two hexadecimal digits by that byte; every other byte, including an incomplete or malformed escape at the end of the text, is kept, and nothing outside the text is read.",
  ["inputs"], "every byte string up to the length bound",
  "No test decodes escapes; truncated and malformed escapes at the end of the text are the dangerous inputs.",
  [INC + "string_utils.hpp"], [("decoders", INC + "string_utils.hpp: unescape, parse_url_escapes")],
  quick=[W(su, 5, 5, time=40), W(su, 5, 4, 1, time=40), W(su, 6, 5, time=40), W(su, 6, 4, 1, time=40)],
  thorough=[W(su, 5, 8, time=400), W(su, 5, 7, 1, time=400), W(su, 6, 8, time=400), W(su, 6, 6, 1, time=400)],
  reach=["unescape", "hex", "url", "escape", "not-hex"],
  bounds={"quick": "any 4 bytes; any 5 characters of an alphabet of escape characters and digits.", "thorough": "any 6 to 7 bytes; any 8 characters of the alphabet."})
nt = Harness("numtext.cpp", engine=CONC)
P("C14", "Numeric text converts to exactly the number it denotes",
  "A decimal or hexadecimal integer that fits the requested type converts to exactly its value, whatever follows it, through the string and the string_view interface alike. string_to_number keeps the exact integer value in some integer type for every integer from -2^63 to 2^64-1, and keeps the fraction and exponent of a number that has one.",
  ["inputs"], "every digit string up to the length bound, and every one within 10^3 of the 32- and 64-bit limits",
  "The tests only convert a handful of numbers; limits, signs and trailing text decide between the representations.",
  [INC + "string_numeric.hpp"], [("integer and number parsing", INC + "string_numeric.hpp: string_to_*")],
  quick=[W(nt, 0, 1, 4, time=40), W(nt, 0, 2, 3, 1, time=40), W(nt, 1, 1, 6, time=40), W(nt, 1, 1, 4, 0, 1), W(nt, 2, 1, 4, time=40), W(nt, 2, 2, 3, 1, time=40), W(nt, 3, time=40)],
  thorough=[W(nt, 0, 1, 4, time=40), W(nt, 0, 2, 5, 1, time=200), W(nt, 1, 1, 12, time=300), W(nt, 1, 1, 12, 0, 1, time=300), W(nt, 2, 1, 5, time=100), W(nt, 2, 2, 5, 1, time=200), W(nt, 3, time=40)],
  reach=["int32", "int64", "uint32", "uint64", "tail", "hex", "number", "real"],
  bounds={"quick": "up to 4 decimal digits and any trailing byte; integers sharing all but their last 2-3 digits with the 32/64-bit limits; up to 6 hexadecimal digits; fractions and exponents of a fixed shape with any leading digit.", "thorough": "all but the last 2-5 digits fixed near the limits; up to 12 hexadecimal digits; up to 5 decimal digits for string_to_number."})
qs, ns = Harness("qstring.cpp", engine=CONC), Harness("qstring.cpp", ["-DNSTRING"], engine=CONC)
P("C15", "quick_string and neolib::string behave as std::string does",
  "A quick_string made in any way, whether it views characters or owns them, and a neolib::string (also through i_string), answers every query (size, characters, the find family, substrings, comparison, concatenation) and changes under every modification as the std::string of the same characters would. Modifying a quick_string never changes the characters it was viewing or any copy made of it before.",
  ["inputs", "histories"], "every text and argument over a small alphabet up to the length bound, every way of making the string, and every modification history up to the bound",
  "No test touches quick_string; what it does depends on whether it is a view, how it was made and where in the string the arguments point.",
  [INC + "quick_string.hpp", INC + "string.hpp"], [("view and owner states", INC + "quick_string.hpp: get_string, get_view_string"), ("queries", INC + "quick_string.hpp: find*, compare, substr"), ("reference counted string", INC + "string.hpp")],
  quick=[W(qs, 0, 2, 2, time=60), W(qs, 1, 2, 1, 1, time=40), W(qs, 1, 2, 1, 1, 1), W(ns, 2, 3, 2, 1, time=40), W(ns, 2, 2, 1, 2, time=60)],
  thorough=[W(qs, 0, 4, 3, time=300), W(qs, 1, 2, 1, 2, time=500), W(qs, 1, 1, 1, 2, 2, time=500), W(ns, 2, 3, 2, 2, time=400)],
  reach=["view", "owner", "history", "string"],
  bounds={"quick": "texts of up to 2 characters (3 for neolib::string) over a three letter alphabet, arguments up to 2; one modification from every starting state (two for neolib::string).", "thorough": "texts of up to 4 characters, arguments up to 3; two modifications."},
  assumptions=["positions passed to the constructor and to compare() are inside the text, as they are not checked there"])
