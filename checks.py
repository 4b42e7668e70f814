# What each property's check runs. "bounds" states what the solver quantifies over.
PROPS = {}
NOT_APPLICABLE = {
    "C26": "the bindings run inside the CPython and Lua interpreters; executing those interpreters symbolically is out of reach, and without them the wrappers have no observable behaviour",
    "C27": "the library has no synchronisation to encode (process-wide tables are unsynchronised by design), and the engine executes one thread; interleavings of the C++ runtime's allocator and containers cannot be encoded within reach",
}
PROPS["C01"] = {"src": ["h_bits.cc"], "harnesses": [
    {"name": "bits_roundtrip", "time": 60, "reach": ["end"], "bounds": "prefix of 1..8 bits, field of 1..32 bits, field of 13 bits, all 32-bit values"},
    {"name": "bits_fixed", "time": 30, "reach": ["end"], "bounds": "prefix of 1..8 bits, then 32, 16 and 8 bit fields and raw bytes, all values"},
    {"name": "bits_values", "time": 60, "reach": ["end", "string", "missing", "binary", "number", "text"], "bounds": "prefix of 1..8 bits, then a 3-character text from any 4 bytes, a missing marker of 1..72 bits, an opaque value of 1..24 bits, a 16-bit number with reference, a 3-character variable"},
    {"name": "bits_read_bounds", "time": 100, "reach": ["read", "read-eof", "skip-eof"], "bounds": "buffers of 0..4 (thorough 6) arbitrary bytes, skip of 0..36 (thorough 56) bits, read of 1..32 bits"},
]}
def H(name, bounds, reach=("end",), time=60, **kw):
    return dict({"name": name, "time": time, "reach": list(reach), "bounds": bounds}, **kw)

PROPS["C02"] = {"src": ["h_scale.cc"], "harnesses": [
    H("scale_decimal", "scales -20..13, all 32-bit integers"),
    H("scale_binary", "scales -12..12, 8 reference values, all 32-bit field values"),
    H("scale_binary_ref", "scale 0, all references in +-2^30, all field values of 30 bits"),
    H("scale_binary_fit", "fields of 1..32 bits, references and values in +-10^9, scale 0", ("fits", "refused")),
    H("scale_binary_nolen", "definitions without a bit length, all field values"),
    H("scale_half_unit", "all doubles in range, scales -2..3 (thorough -4..4), 5 digits, 17 bits", time=90),
    H("scale_round", "all doubles in +-10^6, scales -4..4"),
    H("scale_range", "1..9 digits, 1..32 bits, scales -1..1, all references in +-2^30, class 31 or not", time=90),
    H("scale_range_crex", "1..12 digits, scales -5..5"),
]}
PROPS["C03"] = {"src": ["h_var.cc"], "harnesses": [
    H("num_seti", "10 definitions, 4 policies, all 32-bit integers", ("end", "in-range", "clamped", "unset", "hook")),
    H("num_construct", "10 definitions, all 32-bit integers, from integer and from double", ("built", "refused")),
    H("num_setd", "10 definitions, 4 policies, all doubles (NaN, infinities included)", ("end", "in-range", "clamped", "unset", "nan"), time=90),
    H("num_setc", "5 definitions, 4 policies, all texts of 1..4 bytes", ("end", "in-range", "clamped", "unset", "hook", "not-number")),
    H("num_sets", "as num_setc, through std::string", ("end", "in-range", "clamped", "unset", "hook", "not-number")),
    H("num_setc_long", "texts of 10..12 digits around the 32-bit limits, last 4 digits arbitrary", ("in-range", "refused")),
    H("num_text", "all values of up to 4 digits, and windows of 256 values at every order of magnitude, both signs"),
    H("num_sequence", "all sequences of 3 settings (4 policies, any integer) and unsettings"),
    H("num_type_errors", "text and binary variables, any integer"),
]}
PROPS["C23"] = {"src": ["h_var.cc"], "harnesses": [
    H("fmt_number", "scales -2..5, all values of 3 (thorough 4) digits", time=90),
    H("fmt_back", "scales -2..5, all values of 2 (thorough 3) digits, parsed back"),
    H("fmt_number_long", "scales -20..13, 96 values at the ends of the 32-bit range"),
    H("fmt_text", "texts of 0..5 arbitrary bytes in a 4-character variable"),
    H("fmt_binary", "opaque variables of 1..24 bits, all values"),
    H("fmt_stream", "5 definitions, 41 values each (enumerated: stdio streams are outside the encoding)"),
    H("fmt_parse", "all 4-character decimal texts with at most one decimal", time=90),
]}
PROPS["C04"] = {"src": ["h_text.cc"], "harnesses": [
    H("text_set", "7 setters, declared lengths 1..3 (thorough 5), texts of 0..4 (thorough 6) arbitrary bytes, over set and unset variables"),
    H("bin_set", "5 setters, opaque variables of 1..24 bits, values of 0..4 arbitrary bytes, over set and unset variables"),
    H("text_setval", "4 source kinds to 3 target kinds of lengths 1..4, all bytes / integers", ("end", "unset", "refused", "number")),
]}
PROPS["C05"] = {"src": ["h_text.cc"], "harnesses": [
    H("copy_ops", "6 x 6 definitions (integer, decimal, text, opaque), 7 operations, set or unset, 0..2 attributes, all values", ("end", "copied", "moved", "own-attrs"), time=120),
    H("copy_redefine", "4 definition pairs, all values"),
    H("attr_history", "all histories of 3 (thorough 4) attribute operations over 4 codes, all values", time=90),
    H("attr_codes", "3 (thorough 4) attributes with any codes (numbers, texts, unset), any code removed, copied or not", time=100),
]}
PROPS["C06"] = {"src": ["h_text.cc"], "harnesses": [
    H("var_eq", "pairs over 6 definitions, set or unset, all values", ("equal", "different"), time=100),
    H("var_attrs_eq", "variables with 0..2 attributes each, all values", ("equal", "different"), time=60),
    H("bull_header", "BUFR and CREX bulletins, each header field, all pairs of values", ("equal", "different"), src=["h_api.cc"]),
    H("bull_contents", "0..3 arbitrary descriptors, 3 tables, 0..2 subsets of 0..2 variables with arbitrary values and attributes", ("equal", "different"), src=["h_api.cc"]),
    H("bull_encoding", "a BUFR and a CREX bulletin", ("different",), src=["h_api.cc"]),
]}
PROPS["C07"] = {"src": ["h_misc.cc"], "harnesses": [
    H("code_format", "all 65536 codes"), H("code_roundtrip", "all 65536 codes, letter and digit forms"),
    H("code_parse", "all byte strings of 0..7 bytes", ("parsed", "rejected")), H("code_null", "null and empty"), H("type_names", "all texts of 0..8 (thorough 9) non-zero bytes", ("accepted", "refused")),
]}
PROPS["C08"] = {"src": ["h_misc.cc"], "harnesses": [
    H("units_linear", "71 unit pairs, both directions, integers in +-1000 (thorough +-100000); identities: all doubles", ("linear", "ident")),
    H("units_same", "any 3-byte unit name, all doubles"), H("units_unknown", "unknown names of 1..3 bytes against 3 units"),
    H("units_pairs", "71 x 71 pairs of known names", ("supported", "unsupported")),
    H("octants", "all integers, all doubles", ("octant", "degrees")), H("cloud_codes", "4 tables, all integers", ("to", "from")),
    H("weather_codes", "2 tables, all integers", ("same",)), H("level_codes", "all 7-bit, 18-bit and 9-bit flags"),
]}
PROPS["C24"] = {"src": ["h_misc.cc"], "harnesses": [
    H("override_nest", "nesting 1..4, all values, every exit by error or normally"), H("notes_nest", "collections of notes nested 1..4 deep in every shape, with or without a first target, leaving by error or normally", ("end", "thrown")), H("override_effect", "3 policies, all out-of-range integers"),
    H("error_codes", "11 error classes, texts of 0..3 characters over 4 and error numbers 1..40 (enumerated: formatted messages are outside the encoding)"),
    H("error_length", "messages of 0..66 and up to 1056 characters (enumerated)"),
]}
PROPS["C25"] = {"src": ["h_misc.cc"], "harnesses": [
    H("url_roundtrip", "all byte strings of 0..2 (thorough 3)"), H("url_decode", "all byte strings of 0..3 (thorough 4)"),
    H("cstring_roundtrip", "all byte strings of 0..2 (thorough 3)"), H("cstring_decode", "all byte strings of 0..3 (thorough 4)"),
    H("base64_roundtrip", "all byte strings of 0..5 (thorough 7)"), H("base64_decode", "all byte strings of 0..4 (thorough 6)"),
    H("strip", "all byte strings of 0..4 (thorough 5)"), H("split", "all byte strings of 0..4 (thorough 5), two separators", ("all", "skip")), H("split_rest", "all byte strings of 0..4 (thorough 5), three separators"), H("join", "0..3 items of 4, three separators (enumerated)"), H("path_norm", "all texts of 0..7 (thorough 9) of . / a"),
    H("paths", "all strings of 0..4 (thorough 5) non-zero bytes"), H("case_affix", "all byte strings of 0..3"),
]}
PROPS["C09"] = {"src": ["h_bufr.cc"], "harnesses": [
    H("hdr_layout", "editions 2, 3, 4; all values of every header field and of the table versions, optional sections of 0..4 arbitrary bytes, 1..3 descriptors, 1..2 subsets: every byte of sections 0..3 and 5 against the FM94 layout", time=90),
    H("hdr_roundtrip", "editions 2, 3, 4; all values of every header field but the table choice, optional sections of 0..3 bytes, 1..3 descriptors, 1..2 subsets, header-only and full decode"),
    H("hdr_decode", "editions 2, 3, 4; arbitrary bytes in the header fields of section 1, 0..2 local-use bytes", time=60),
    H("hdr_empty", "editions 2, 3, 4; 0..1 descriptors, 0..2 subsets, all values", ("encoded", "refused")),
    H("hdr_too_long", "6 data sizes around the 24-bit length limit (enumerated)", ("encoded", "refused")),
]}
PROPS["C10"] = {"src": ["h_bufr.cc", "h_print.cc"], "harnesses": [
    H("data_numbers", "editions 3, 4; lists of 3 descriptors over 6, all values and the missing value", time=150),
    H("data_scales", "all table entries of the list at every scale, all values", time=60),
    H("data_text", "texts of 0..3 and 8 characters, all characters, at unaligned positions", ("end", "unset"), time=90),
    H("data_opaque", "opaque values of 18 lengths from 1 to 255 bits, aligned or not, 1..2 subsets, all values of the first two bytes and of the last"),
    H("data_subsets", "1..3 subsets, all values"),
    H("data_replication", "fixed and delayed (4 factors) replications of 1..2 descriptors 0..3 (thorough 4) times, all values", time=90),
    H("data_nested", "a delayed replication inside another, 0..2 by 0..1, all values", time=60),
    H("data_misfit", "6 descriptors, variables with a wider definition and all values in +-9*10^7", ("fits", "refused"), time=60),
    H("data_short", "4 shapes of descriptors, 0..6 variables", ("encoded", "refused")),
    H("data_every", "every numeric entry of the table, all values (scaled entries: both ends of the range and the middle) and the missing value, between two others", ("end", "no-value"), time=120),
    H("reencode_any", "messages with 16 descriptor lists of every feature, 1..2 subsets, 2 arbitrary bytes (bitmaps: one, enumerated) at the first 3 (thorough 7) positions of the data: decoded, encoded and decoded again", ("end", "refused"), time=120),
    H("reencode_any_compressed", "the same, compressed messages encoded again uncompressed", ("end", "refused"), time=120),
]}
PROPS["C11"] = {"src": ["h_ops.cc"], "harnesses": [
    H("op_width", "5 descriptors, every width change 1..255, then a code table, a flag table and a text; all values", ("end", "refused"), time=120),
    H("op_scale", "5 descriptors, every scale change 1..255, all values", ("end", "refused"), time=120),
    H("op_increase", "5 descriptors, every increase 1..255, all values", ("end", "refused"), time=120),
    H("op_combined", "3 descriptors, 6 widths x 5 scales x 3 increases, cancelled one after the other, all values"),
    H("op_string_length", "7 lengths, all two-character texts"),
    H("op_reference", "3 descriptors, 9 reference values, 15 field sizes, all values", ("end", "refused"), time=90),
    H("op_characters", "5 lengths, texts of 0..3 arbitrary characters"),
    H("op_local", "12 widths, two descriptors with the same width or one with two widths, 3 arbitrary bytes each, missing or not"),
    H("op_local_known", "5 descriptors, all values"),
    H("op_mixed", "every combination of 3 widths, 3 scales, 2 increases, 3 text lengths and a new reference value, one of them cancelled, over a number, a code, a flag table, a text, local descriptors known and unknown, and inserted characters; all values", time=120),
    H("op_associated", "10 significances, 7 field sizes, number and text, with and without attribute, all values", ("end", "refused"), time=90),
    H("op_malformed", "7 shapes, every operand 1..255", ("ok", "refused"), time=60),
]}
PROPS["C12"] = {"src": ["h_bitmap.cc"], "harnesses": [
    H("bmp_quality", "1..3 (thorough 4) variables, every bitmap over the last n, fixed, delayed (2 factors) or defined for reuse; attributes set, unset or absent; all values", ("end", "empty"), time=120),
    H("bmp_skip_chars", "as above with character data between and after the variables", time=60),
    H("bmp_substituted", "1..3 (thorough 4) variables, every bitmap, all values", time=60),
    H("bmp_twice", "a bitmap used twice, by reuse or redefinition, 1..3 variables, all values", ("end", "reused", "redefined"), time=60),
    H("bmp_long", "2 subsets of 12 variables, each with a bitmap of 8, 9 or 12 marks and 4 places for the mark, all values", ("end",)),
    H("bmp_positions", "subsets of 1..4 (thorough 6) variables of either kind, every bitmap of 1..4 (thorough 6) bits", ("end", "refused"), time=90),
    H("bmp_append", "subsets of 0..4 (thorough 5) variables with and without attribute or special, sizes 1..6", time=60),
    H("bmp_refused", "7 shapes of unusable bitmaps, sizes 1..8", ("ok", "refused")),
]}
PROPS["C13"] = {"src": ["h_compressed.cc"], "harnesses": [
    H("cmp_numbers", "7 descriptors, 1..2 (thorough 3) subsets, 5 (6) difference sizes, all bases and differences", time=90),
    H("cmp_operators", "3 descriptors, 4 widths x 3 scales x 2 increases, 5 difference sizes, 2 subsets, all values", time=120),
    H("cmp_text", "1..3 subsets, differences of 0..8 characters, missing or not"),
    H("cmp_replication", "3 factors, counts 0..3, 6 difference sizes of the factor, all values", ("end", "refused")),
    H("cmp_factor_full", "replication factors with all bits set, compressed or not"),
    H("cmp_associated", "4 significances, 4 difference sizes, number and text, 1..2 subsets, all values", time=90),
    H("cmp_bitmap", "every bitmap over 2 variables, quality or substituted values, fixed or delayed, 3 difference sizes, 1..2 subsets, all values", time=90),
    H("cmp_refused", "every difference size 0..63, all differences", ("decoded", "refused")),
]}
PROPS["C14"] = {"src": ["h_robust.cc"], "ub": True, "harnesses": [
    H("any_ed4", "an edition 4 message with an optional section, every window of 3 arbitrary bytes outside of the table choice and the descriptors; at most 7 (thorough 255) subsets", ("decoded", "refused"), time=120),
    H("any_ed3", "as any_ed4, edition 3", ("decoded", "refused"), time=120),
    H("any_compressed", "as any_ed4, compressed data, at most 3 subsets", ("decoded", "refused"), time=90),
    H("any_data", "19 descriptor lists with every kind of operator, two bases (quick: the second for one list in three), every window of 2 bytes in the first 4 (thorough 8), whole or cut after the window, 1..2 subsets", ("decoded", "refused"), time=150),
    H("any_data_compressed", "as any_data, compressed", ("decoded", "refused"), time=120),
    H("any_text_compressed", "compressed texts of 4 lengths in 4 contexts with 10 difference lengths up to 63 characters, 1..2 subsets, data after them or not", ("decoded", "refused")),
    H("any_descriptor_b", "every B descriptor of table 14, 2 (thorough 6) arbitrary data bytes", ("decoded", "refused"), time=120),
    H("any_descriptor_d", "every D descriptor of table 14, one arbitrary data byte", ("decoded", "refused"), time=90),
    H("any_operator", "13 (thorough 16) operators, 21 operands, 7 following descriptors, compressed or not", ("decoded", "refused")),
    H("any_replication", "6 sizes, 5 counts, 36 following descriptors, in bitmaps or not, compressed or not", ("decoded", "refused")),
    H("truncated", "19 descriptor lists, 10 cuts, compressed or not", ("end",)),
    H("truncated_header", "editions 2..4, with and without optional section, every length"),
    H("short_data", "7 descriptor lists, 1..3 subsets, data of 0..25 bytes, the first 3 arbitrary", ("decoded", "refused")),
]}

PROPS["C15"] = {"src": ["h_crex.cc", "h_print.cc"], "harnesses": [
    H("crex_numbers", "9 (thorough 11) descriptors of every length, lists of 3 values, values within +-399 and the 100 next to either limit, missing values before and after, with and without check digits", time=90),
    H("crex_values", "every value of a 4-digit descriptor"),
    H("crex_text", "texts of 0..1 and 0..3 arbitrary characters in variables of 1 and 3, set or unset, with and without check digits", ("end", "refused")),
    H("crex_structure", "10 shapes (fixed, delayed and nested replications of 0..2, sequences), 1..2 (thorough 3) subsets, with and without check digits, all two-digit values", time=90),
    H("crex_header", "every edition, table number, version, category and subcategory 0..255", ("end", "no-table", "refused")),
    H("crex_precision", "scales 0..4 of the stored variable, windows of 65 values around the limits (enumerated)", ("end", "refused")),
    H("crex_empty", "0..2 descriptors, 0..2 subsets, with and without check digits, all values", ("encoded", "refused")),
    H("crex_refused", "variable lists that do not match the descriptors", ("refused",)),
    H("crex_reencode", "3 messages, one character of the data (thorough two) replaced by each of 12 (enumerated): decoded, encoded and decoded again", ("end", "refused")),
]}
PROPS["C16"] = {"src": ["h_crexrobust.cc"], "ub": True, "harnesses": [
    H("crex_any_data", "2 (thorough 3) messages, one (thorough two) arbitrary bytes at every position after the descriptors", ("decoded", "refused"), time=120),
    H("crex_any_pair", "an arbitrary byte after one of 4 (thorough 6) special characters at every position of the data", ("decoded", "refused")),
    H("crex_any_header", "one arbitrary byte (quick: printable ones and 5 more) at every position up to the end of the descriptors, full and header-only decode", ("decoded", "refused"), time=60),
    H("crex_header_end", "a message cut at every position of the header and continued by 0..3 characters over 12", ("decoded", "refused"), time=120),
    H("crex_truncated", "every prefix of 3 messages", ("end",)),
    H("crex_check_digit", "messages of 1..22 values with and without missing ones, every check digit replaced by any other byte but white space", ("end",)),
    H("crex_any_descriptor", "every B and D descriptor of the CREX table, 30 replications, 80 operators, numbers, missing and negative values (thorough 6 starts)", ("decoded", "refused")),
]}
PROPS["C17"] = {"src": ["h_stream.cc"], "harnesses": [
    H("stream_bufr_around", "0..12 (thorough 24) arbitrary bytes before a message and 0..4 (8) between two", ("message", "next", "end-of-file")),
    H("stream_bufr_marks", "all texts of 14 (thorough 24) bytes before the length", ("message", "end-of-file")),
    H("stream_bufr_length", "every length below 256 and 60 larger ones, 0..9 (thorough 40) bytes left", ("message", "end-of-file", "refused"), time=100),
    H("stream_bufr_cut", "every truncation of two messages", ("message", "next", "end-of-file", "refused")),
    H("stream_crex_around", "0..8 (thorough 12) arbitrary bytes before a message and 0..3 (4) between two", ("message", "next", "end-of-file")),
    H("stream_crex_end", "all texts of 0..7 (thorough 9) characters over those of the end mark, followed by 4 tails", ("message", "end-of-file", "refused"), time=100),
    H("stream_crex_cut", "every truncation of two messages, 2 arbitrary bytes", ("message", "next", "end-of-file", "refused")),
    H("stream_write_short", "BUFR and CREX messages of 12..24 bytes to streams with room for 1..30", ("refused", "written")),
    H("stream_write", "BUFR and CREX, 3 arbitrary bytes, written twice and read back"),
]}
PROPS["C18"] = {"src": ["h_tables.cc"], "harnesses": [
    H("tab_lookup", "tables of 1..3 entries with arbitrary codes, every code looked up", ("found", "not-found", "refused")),
    H("ship_b", "every code in every shipped B table (BUFR and CREX)", ("found", "not-found")),
    H("ship_d", "every code in every shipped D table", ("found", "not-found")),
    H("alt_one", "6 entries of every type, 8 (thorough 45) scales, 11 (thorough 34) lengths (binary 1..80), every reference value", ("end", "refused"), time=90),
    H("alt_history", "3 (thorough 4) requests, 2 codes, 2 (3) values of each of scale, length and reference", ("end",)),
    H("alt_missing", "altered requests for codes that are not in the table"),
    H("made_history", "2 (thorough 3) bitmaps, character data or local descriptors of 5 codes and 7 lengths up to 255, from tables moved in between", ("end",)),
    H("made_up", "unknown, character and bitmap definitions of every size", ("unknown", "characters", "bitmap")),
]}
PROPS["C19"] = {"src": ["h_tables.cc"], "ub": True, "harnesses": [
    H("tab_bufr_fields", "every code, 9 units, every scale, reference and length of the digits in their columns", ("end", "refused")),
    H("tab_texts", "arbitrary characters in windows of the description and unit columns", ("end",), time=90),
    H("tab_crex_fields", "as tab_bufr_fields, CREX columns", ("end", "refused"), time=90),
    H("tab_columns", "every column of numbers, all sizes and positions of the number in it, any last two digits", time=90),
    H("tab_short", "lines cut at every length", ("read", "refused")),
    H("tab_any", "one arbitrary byte at every position of a line, two lines", ("read", "refused")),
    H("tab_d", "1..3 sequences of 1..3 entries in any order, arbitrary codes", ("end",), time=90),
    H("tab_d_count", "every declared count against 1..3 entries", ("read", "refused")),
    H("tab_d_any", "one arbitrary byte at every position of a D table", ("read", "refused")),
]}
PROPS["C20"] = {"src": ["h_select.cc"], "harnesses": [
    H("sel_order_bufr", "all triples of BUFR identifiers", ("end", "ordered")),
    H("sel_order_crex", "all triples of CREX identifiers", ("end", "ordered")),
    H("sel_acceptable", "all pairs of identifiers, BUFR and CREX"),
    H("sel_closest_bufr", "all requests and all pairs of acceptable BUFR identifiers"),
    H("sel_closest_crex", "all requests and all pairs of acceptable identifiers, BUFR, CREX and mixed"),
    H("sel_names", "15 file names, all requests", ("found", "not-found")),
    H("sel_dir_bufr", "directories of 0..3 of 10 (thorough 15) files in all orders, all BUFR requests", ("found", "not-found"), time=120),
    H("sel_dir_crex", "directories of 0..3 of 9 (thorough 15) files in all orders, all CREX requests", ("found", "not-found"), time=150),
    H("sel_two_dirs", "pairs of 15 files over two directories, all BUFR requests", ("found", "not-found")),
    H("sel_history", "a directory of 5 files, all pairs of BUFR or CREX requests, the first one repeated"),
    H("sel_shipped", "the shipped tables, versions 0..40, 7 centres, 6 local versions (enumerated)", ("found", "not-found"), time=90),
    H("sel_shipped_crex", "the shipped tables, editions 0..3, versions 0..5, BUFR versions 0..40 (enumerated)", ("found", "not-found", "refused")),
]}
PROPS["C21"] = {"src": ["h_api.cc"], "harnesses": [
    H("ops_index", "lists of 0..6 arbitrary codes, every 32-bit index"),
    H("ops_sub", "lists of 0..6 arbitrary codes, 18 positions and lengths up to 2^32-1"),
    H("ops_walk", "lists of 0..3 (thorough 5) arbitrary codes, every sequence of 3 (4) steps", ("end", "popped", "refused")),
    H("int_visit", "lists of 0..4 (thorough 5) descriptors, 21 (23) for the first two and 3 (5) for the others, delayed counts 0..2", ("end", "refused"), time=150),
    H("int_print", "as int_visit", ("end", "refused"), time=90),
    H("int_features", "lists of 0..3 (thorough 4) over 9 descriptors", ("end", "refused")),
]}
PROPS["C22"] = {"src": ["h_api.cc"], "harnesses": [
    H("sub_store", "every sequence of 2 (thorough 3) of 8 ways to store a variable, all values, then copied, moved and assigned", ("stored", "unknown", "refused"), time=90),
    H("sub_bitmap", "subsets of 0..4 (thorough 5) variables of 4 kinds, bitmaps of every size up to 2 more than that", ("end",), time=120),
    H("sub_obtain", "every sequence of 3 (thorough 4) subsets 0..3, all values", ("end", "unloaded")),
    H("bul_clear", "BUFR and CREX bulletins with and without contents, all values of every header field", ("end",)),
]}
PROPS["C28"] = {"src": ["h_validate.cc"], "harnesses": [
    H("val_number", "4 descriptors, C01 widths 2, 7, 8, 16, 31 and 32, values set with a 32-bit definition, all 32-bit values", ("valid", "invalid")),
    H("val_own", "5 descriptors, all values (scaled ones: 61 at each end and in the middle)", ("valid",)),
    H("val_text", "BUFR and CREX, texts of 0..2 arbitrary bytes, alone or before 9 more", ("valid", "invalid")),
    H("val_crex", "3 descriptors, values within 20 (thorough 100) of the limit of their digits", ("valid", "invalid")),
    H("val_operators", "associated fields of 1..8 bits, reference values of 1..32 bits and any value, local descriptors of 1..16 bits, bitmaps of 1..3 marks for 0..3 described and values of -5..300", ("valid", "invalid")),
    H("val_structure", "10 descriptor lists with and without operators, one variable missing, different, or with one bit of its code changed", ("valid", "invalid")),
]}
PROPS["C29"] = {"src": ["h_print.cc"], "harnesses": [
    H("print_any", "messages with 15 descriptor lists of every feature, 1..2 subsets, 2 arbitrary bytes (bitmaps: one, enumerated) at the first 3 (thorough 7) positions of the data: printed in every way, decoded verbosely, and unchanged", ("end", "refused"), time=120),
    H("print_any_compressed", "the same for compressed messages", ("end", "refused"), time=120),
    H("print_text", "the text printed for the same lists, 4 contents of the data with one byte out of 16 (thorough 256) at 3 (thorough 9) positions, uncompressed and compressed (enumerated)", ("end", "refused"), time=150),
    H("print_crex", "3 CREX messages, one character of the data (thorough two) replaced by each of 12 (enumerated)", ("end", "refused")),
]}
