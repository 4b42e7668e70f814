# Source of properties.jsonl: python3 tools/props.py > properties.jsonl
import json
def P(id, title, statement, over, text, why, files, mech, observe):
    print(json.dumps({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}}))

P("C01", "Bit-packed fields read back exactly and never past the data",
  "Any sequence of fields appended bit by bit to a BUFR data section (integers of 1 to 32 bits, strings, opaque binary values, missing markers) occupies exactly the sum of their widths rounded up to a byte, most significant bit first, and reading the same widths back gives the same values wherever the fields fall relative to byte boundaries. A read or skip of more bits than the data holds raises a parse error and never returns invented bits or touches memory outside the buffer.",
  ["inputs", "histories"], "all field values, widths 1..32 and alignments 0..7; all buffer lengths and read requests, within the harness bounds",
  "Tests read a handful of fixed widths at fixed alignments; alignment x width x value is astronomically large and end-of-buffer reads need the exact remaining bit count.",
  ["wreport/buffers/bufr.cc", "wreport/buffers/bufr.h", "wreport/bufr/input.cc", "wreport/bufr/input.h"],
  [("bit accumulator of the output buffer, flush", "wreport/buffers/bufr.cc"), ("bit cursor of the input buffer and its bounds check", "wreport/bufr/input.h")],
  ["encoded bytes", "decoded values", "error_parse"])

P("C02", "Numeric scaling is exact to the declared precision",
  "For every numeric variable definition, decoding an encoded integer (decimal or binary, with scale and reference value) and encoding the result gives the same integer back, and encoding any in-range value and decoding it changes it by at most half a unit of the declared precision. Values that do not fit the binary field (negative or too large) are rejected, and for definitions of up to nine digits the declared minimum and maximum are the widest range that both the decimal and the binary form can hold without colliding with the missing marker.",
  ["inputs", "configurations"], "all integers in range and all doubles in range, for all scales, reference values, widths and digit counts within the harness bounds",
  "Tests round-trip a few values of a few variables; rounding errors depend on the particular double, scale and reference value.",
  ["wreport/varinfo.cc", "wreport/varinfo.h"],
  [("encode_decimal/decode_decimal/encode_binary/decode_binary/round_decimal", "wreport/varinfo.cc"), ("compute_range", "wreport/varinfo.cc")],
  ["Varinfo conversion results", "imin/imax/dmin/dmax"])

P("C03", "Numeric variables hold only in-range values, by the selected policy",
  "Setting a numeric variable, from an integer, a double or text, stores the value rounded to the variable's precision when it is inside the variable's range; when it is outside (or not a number) the variable never holds an out-of-range or unrelated value: it ends up unset with a domain error by default, silently unset, clamped to the nearest bound, or handed to the hook, according to the thread's options. Reading it back as integer, double, text and formatted text always gives the same stored value, and reading an unset variable raises a not-found error.",
  ["inputs", "configurations"], "all ints, all doubles (NaN and infinities included), all digit strings up to the bound, the four policies, variables of several scales, lengths and references",
  "Tests try a few values per variable; overflow on conversion from double or text needs specific magnitudes.",
  ["wreport/var.cc", "wreport/var.h", "wreport/options.h"],
  [("assign_i_checked/assign_d_checked", "wreport/var.cc"), ("seti/setd/setc/sets/setf, enqi/enqd/enqc/enqs", "wreport/var.cc"), ("thread-local policies", "wreport/options.cc")],
  ["enq*() results", "isset()", "error_domain"])

P("C04", "Text and binary variables keep their bytes within their length",
  "A text variable set to any string holds the longest prefix that fits its declared length, always terminated, and reads back that text; a binary variable holds exactly its declared number of bits, zero padded when set from a shorter value, with any excess bits cleared. Setting, copying, formatting or comparing such values never reads or writes outside them.",
  ["inputs", "configurations"], "all byte strings up to the bound, for declared lengths and bit lengths within the bound, through every setter",
  "Tests use a few short literals; the boundary cases are the exact length, one more, embedded zero bytes and partial last bytes.",
  ["wreport/var.cc", "wreport/var.h"],
  [("assign_c_checked/assign_b_checked/allocate", "wreport/var.cc"), ("copy_value/value_equals/format", "wreport/var.cc")],
  ["enqc()/enqs()/format()", "memory safety"])

P("C05", "Copies of a variable are equal, independent and keep attributes in order",
  "Copying, moving or assigning a variable (of any type and length, set or unset, over any other variable, with or without attributes) gives a variable equal to the original in definition, value and attributes, and independent of it: later changes to one do not show in the other. Attributes stay ordered by code with at most one per code: setting one replaces the previous value, removing one removes just that one, and looking one up finds exactly what was last set.",
  ["histories", "inputs"], "all sequences of attribute set/unset/lookup and copy/move/assign operations up to the bound over variables of all types",
  "Tests copy a few fixed variables; assignment between different types and lengths and arbitrary attribute orderings are not sampled.",
  ["wreport/var.cc", "wreport/var.h"],
  [("copy/move constructors and assignment", "wreport/var.cc"), ("seta/unseta/enqa attribute chain", "wreport/var.cc")],
  ["Var contents after the operation", "memory safety"])

P("C06", "Variable equality and diff agree with the contents compared",
  "Two variables compare equal exactly when they have the same code, are both unset or both set to the same value, and have the same attributes with the same values; comparison is symmetric. The diff of two variables is zero exactly when nothing a user can read from them differs, and the same holds for whole bulletins: equal headers, descriptors and subsets give no difference, and any change of a header field (other than whether the data is compressed), descriptor, value or attribute is reported.",
  ["inputs"], "all pairs of variables and bulletins within the bound, with an arbitrary difference in any one place",
  "Tests compare a few fixed pairs; a missed field shows only when that field alone differs.",
  ["wreport/var.cc", "wreport/bulletin.cc", "wreport/subset.cc", "wreport/opcodes.cc"],
  [("Var::operator== / diff", "wreport/var.cc"), ("Bulletin/BufrBulletin/CrexBulletin diff", "wreport/bulletin.cc")],
  ["operator== result", "diff() result"])

P("C07", "Descriptor codes and their text forms convert both ways",
  "Formatting any 16-bit descriptor code gives a letter for the descriptor class followed by the two-digit X and three-digit Y parts, and parsing that text (or the all-digit form) gives the same code back. Text that is not a class character followed by five digits is rejected with an error, without reading past its end. The same holds of the names of the four value types.",
  ["inputs"], "all 65536 codes, and all byte strings up to the bound",
  "Tests parse a few well-formed codes; short or malformed strings are not covered.",
  ["wreport/varinfo.cc", "wreport/varinfo.h"],
  [("varcode_format/varcode_parse", "wreport/varinfo.cc")],
  ["returned code or text", "error_consistency"])

P("C08", "Unit conversions are faithful and reversible",
  "For every supported pair of measurement units, converting a value and converting it back returns the original value up to floating point rounding, and conversion follows the physical definition of the units; unsupported pairs raise an error. Conversions between code tables (WMO weather, cloud and phenomena codes) map every documented code to its counterpart, are reversible where both directions exist, and reject or pass through out-of-table codes without reading outside their tables.",
  ["inputs"], "all pairs of supported units, all doubles in the bound; all integer codes",
  "Tests convert a handful of values for a handful of unit pairs.",
  ["wreport/conv.cc", "wreport/conv.h"],
  [("unit conversion repository with inverse functions", "wreport/conv.cc"), ("code table conversions", "wreport/conv.cc")],
  ["convert_units() result", "convert_* results", "error_domain/error_unimplemented"])

P("C09", "BUFR headers survive encoding and decoding",
  "For BUFR editions 2, 3 and 4, encoding a bulletin and decoding it (header only or whole) gives back the same edition, date and time, categories and subcategories, originating centre and subcentre, update number, table versions, optional section, descriptors and number of subsets, as far as the edition can represent them (editions 2 and 3 have two-digit years, read as 1951 to 2050, and no seconds; an optional section may come back padded with one zero byte). The encoded message starts with BUFR, ends with 7777, declares its exact total length, and its sections follow one another with the lengths they declare; a message too long for its length fields, or without descriptors or subsets, is refused.",
  ["inputs", "configurations"], "all header field values each edition can represent; optional sections up to the bound; descriptor lists up to the bound",
  "Tests re-encode a set of sample messages; header fields are swapped or truncated only for values the samples do not use.",
  ["wreport/bufr_encoder.cc", "wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/bulletin.cc"],
  [("encode_sec1ed3/ed4, encode_sec2..5", "wreport/bufr_encoder.cc"), ("decode_header, scan of section lengths", "wreport/bufr/decoder.cc")],
  ["bulletin fields after decode", "raw bytes of the message"])

P("C10", "BUFR data survives encoding and decoding",
  "Decoding an encoded bulletin gives the same subsets: the same descriptors in the same order, every set value equal to the encoded one (texts up to trailing white space) and every unset value unset, for numbers, text, code tables, fixed, delayed and nested replications and sequence descriptors; and the data section holds exactly the bits the BUFR rules prescribe. A number that does not fit its field, or a subset with fewer variables than the descriptors call for, raises an error while encoding instead of producing a message that decodes to something else. A message that decodes, compressed or not and whatever operators it uses, can be encoded again, and decodes to the same.",
  ["inputs", "configurations"], "all values (and the missing value) of the variables of the descriptor lists in the bound, all replication counts in the bound",
  "Tests round-trip sample files; which value, alignment and repetition count breaks is input dependent.",
  ["wreport/bufr_encoder.cc", "wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/buffers/bufr.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/internals.cc"],
  [("data section encoder", "wreport/bufr_encoder.cc"), ("uncompressed data section decoder", "wreport/bufr/decoder.cc"), ("descriptor interpreter", "wreport/bulletin/interpreter.cc")],
  ["decoded subsets"])

P("C11", "Operator descriptors change exactly the fields they govern",
  "Width, scale, reference and string length changes, character insertions, local descriptors with explicit width and associated fields apply to exactly the descriptors between the operator and its cancellation, with the values the BUFR rules give, in encoding and decoding alike: the bits laid out are those the rules prescribe, and what was encoded is decoded to the same values and associated-field attributes. An operator whose parameters cannot be honoured raises an error.",
  ["inputs", "configurations"], "all operator parameters and field values within the bound, over descriptor lists with the operator active and cancelled",
  "Sample messages use few operators with few parameters; a wrong parameter cancels out in a plain round trip unless the layout itself is checked.",
  ["wreport/bulletin/interpreter.cc", "wreport/bulletin/associated_fields.cc", "wreport/bufr_encoder.cc", "wreport/bufr/decoder.cc", "wreport/vartable.cc"],
  [("C modifiers in the interpreter", "wreport/bulletin/interpreter.cc"), ("associated field significance", "wreport/bulletin/associated_fields.cc")],
  ["encoded bits", "decoded values and attributes"])

P("C12", "Bitmap-described data attaches to the variables the bitmap selects",
  "Quality information and substituted values that follow a data present bitmap become attributes of exactly the variables the bitmap marks as present, in order, counting back over the variables that precede the operator; no other variable changes. Encoding a bulletin with such attributes and decoding it gives the same attributes on the same variables, and a bitmap that does not fit the preceding data is rejected with an error.",
  ["inputs"], "all bitmaps up to the bound, all quality values, over short variable lists",
  "A few sample messages carry a few bitmaps; off-by-one alignment shows only for particular bitmaps.",
  ["wreport/bulletin/bitmaps.cc", "wreport/bulletin/interpreter.cc", "wreport/bufr/decoder.cc", "wreport/bufr_encoder.cc"],
  [("Bitmap / Bitmaps iteration", "wreport/bulletin/bitmaps.cc"), ("C22/C23/C24 handling", "wreport/bulletin/interpreter.cc")],
  ["attributes of decoded variables"])

P("C13", "Compressed messages decode to the same values as uncompressed ones",
  "A compressed BUFR data section decodes, for every subset and every field, to base value plus that subset's increment, to missing when the base value is all ones or the increment is all ones, to the shared base text or the subset's own text for strings, and consistently for associated fields, replications and bitmaps. Subsets are numbered in the order of their increments and each holds the same variables in the same order.",
  ["inputs"], "all base values, increment widths, increments and subset counts within the bound",
  "Tests decode sample compressed messages; missing increments, zero-width increments and alignment combinations are not enumerable.",
  ["wreport/bufr/input.cc", "wreport/bufr/decoder.cc"],
  [("decode_compressed_*", "wreport/bufr/input.cc"), ("compressed data section target", "wreport/bufr/decoder.cc")],
  ["values of decoded subsets"])

P("C14", "Decoding arbitrary bytes as BUFR is safe and ends",
  "Whatever bytes are given to the BUFR decoder (full or header only), it ends and either returns a bulletin or raises one of the library's errors: it never reads or writes outside the message and its own objects, never relies on undefined arithmetic. A data section shorter than what its descriptors call for is refused. A message cut short at any point is never accepted as complete.",
  ["inputs"], "arbitrary changes to any bytes of the bound-sized messages (length fields, counts, flags, descriptors, data) and every truncation point",
  "Tests have a fixed corpus of broken files; the failing byte values are specific.",
  ["wreport/bufr/input.cc", "wreport/bufr/input.h", "wreport/bufr/decoder.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc"],
  [("section scan and length checks", "wreport/bufr/input.cc"), ("decoder checks", "wreport/bufr/decoder.cc")],
  ["sanitizer and assertion failures", "exception types"])

P("C15", "CREX messages survive encoding and decoding",
  "Encoding a CREX bulletin and decoding it gives back the same edition, table version, category and subcategory, descriptors and subsets, with every set value equal to the encoded one and unset values unset, for numbers (negative ones included), text (up to trailing white space) and replications, with and without check digits. The factor of a delayed replication is implicit in CREX and has 4 digits: B31000 to B31002 in the list of descriptors are not encoded and come back as B31012. The encoded text starts with CREX++ and ends with 7777, and a message without descriptors or subsets, or a value that does not fit its field or cannot be told from another one (a text made of slashes, or an empty text or one starting with white space where there are no check digits) raises an error instead of producing a message that decodes to something else.",
  ["inputs", "configurations"], "all header values, all values of the variables in the bound, replication counts within the bound",
  "Tests round-trip sample messages.",
  ["wreport/crex_encoder.cc", "wreport/crex_decoder.cc", "wreport/buffers/crex.cc"],
  [("CREX section encoder", "wreport/crex_encoder.cc"), ("CREX parser", "wreport/buffers/crex.cc")],
  ["decoded bulletin", "encoded text"])

P("C16", "Decoding arbitrary bytes as CREX is safe and ends",
  "Whatever bytes are given to the CREX decoder (full or header only), it ends and either returns a bulletin or raises one of the library's errors, without reading or writing outside the message and its own objects. A message cut short at any point is never accepted as complete, and with check digits enabled a message with any check digit replaced by another character (white space excepted) is rejected.",
  ["inputs"], "arbitrary changes to any characters of the bound-sized messages and every truncation point",
  "Tests have a few broken samples.",
  ["wreport/crex_decoder.cc", "wreport/buffers/crex.cc", "wreport/buffers/crex.h"],
  [("token reading and bounds checks", "wreport/buffers/crex.cc"), ("CREX decoder", "wreport/crex_decoder.cc")],
  ["sanitizer and assertion failures", "exception types"])

P("C17", "Messages are found in a stream byte for byte",
  "Reading BUFR or CREX messages from a file returns, one after the other, exactly the bytes of each message that is there, whatever bytes precede or separate them (near misses of the start marker included), with the offset at which each begins, and then reports the end of the file. A message cut short by the end of the file raises an error and is never returned as whole. Messages written are read back byte for byte, and one that cannot be written whole raises an error.",
  ["inputs"], "all separator bytes and message bytes up to the bound; every truncation point",
  "Tests read a few files with fixed separators; a partial marker right before a message is a specific input.",
  ["wreport/bulletin.cc"],
  [("seek to the message signature", "wreport/bulletin.cc"), ("BufrBulletin::read, CrexBulletin::read", "wreport/bulletin.cc")],
  ["buffer contents and offsets returned by read()"])

P("C18", "Variable table lookups return the entry asked for, altered as asked",
  "Looking up a code in a B table returns the entry with that code and the definition the table file gives it, or a not-found error when the table does not define it, whatever the order of lookups. Asking for an altered scale, bit length or reference returns a definition with exactly those changes and a consistent range and text length, the same one every time for the same request and different ones for different requests, leaving the base entry unchanged.",
  ["inputs", "histories"], "all 16-bit codes and all sequences of altered requests up to the bound, on BUFR and CREX tables",
  "Tests query a few codes and a few alterations in a fixed order.",
  ["wreport/vartable.cc", "wreport/vartable.h", "wreport/tables.cc"],
  [("binary search / altered-version chain", "wreport/vartable.cc"), ("generated entries for bitmaps, character data, unknown and binary fields", "wreport/tables.cc")],
  ["returned Varinfo fields"])

P("C19", "Table files are read as written and bad lines are reported",
  "Every well-formed line of a BUFR or CREX B table or D table file becomes exactly one entry with the code, description, unit, type, scale, reference, bit length and digits (or the expansion) written on it. Texts longer than their column (63 characters of description, 23 of unit) are cut, and D table sequences may be in any order, the last definition of a repeated one counting. A malformed file (a line that is too short or has no valid code, B table codes out of order, a sequence whose length differs from its count) raises an error; parsing never reads or writes outside its buffers, whatever the file contains.",
  ["inputs", "configurations"], "arbitrary field characters within the fixed columns of table lines, and line lengths and D table shapes up to the bound",
  "Tests load the shipped tables only.",
  ["wreport/vartable.cc", "wreport/dtable.cc"],
  [("BUFR/CREX B table line parser", "wreport/vartable.cc"), ("D table line parser", "wreport/dtable.cc")],
  ["entries of the loaded table", "error_parse/error_consistency"])

P("C20", "The best available table is selected, the same one every time",
  "Given the table identification in a message (centre, subcentre, master table number and versions), the tables chosen are an exact match when there is one and otherwise the closest acceptable one: acceptable tables have the same master table number and a version not older than wanted (for CREX also the same edition and BUFR table version), and the closest has the lowest version, then the same centre (or else the standard one), then the closest local version (not older first), then the same subcentre. The choice does not depend on the order in which the files of a directory are found nor on earlier requests, and directories added first are preferred. Comparison of table identifiers is a consistent ordering, and a request nothing can satisfy raises an error.",
  ["inputs", "configurations"], "all identifier values, over all sets of up to three available tables and all their orders",
  "Tests query the shipped tables for a few identifiers.",
  ["wreport/tableinfo.cc", "wreport/tableinfo.h", "wreport/internals/tabledir.cc"],
  [("is_acceptable_replacement / closest_match", "wreport/tableinfo.cc"), ("table queries and choice", "wreport/internals/tabledir.cc")],
  ["identifier of the chosen table"])

P("C21", "Descriptor list views and sequence expansion stay in bounds and in order",
  "A view over a list of descriptors iterates, indexes, slices and pops exactly the elements of the underlying list: head and next walk it in order, a slice from an offset with a length holds those elements, and every access past the end yields the documented end value instead of other memory. Interpreting a descriptor list visits every element with sequences expanded and replications covering exactly the declared number of descriptors, and a replication or sequence running past the end of the list is rejected with an error.",
  ["inputs", "histories"], "all lists up to the bound and all offsets and lengths; all descriptor lists up to the bound over a representative alphabet",
  "Tests slice one fixed list.",
  ["wreport/opcodes.h", "wreport/opcodes.cc", "wreport/bulletin/interpreter.cc", "wreport/dtable.cc"],
  [("Opcodes", "wreport/opcodes.h"), ("interpreter run loop", "wreport/bulletin/interpreter.cc")],
  ["elements visited", "errors"])

P("C22", "Building subsets through the API stores exactly what was asked",
  "Storing values in a subset by code, by definition, by fixed or delayed replication bitmap or as data present bitmap appends exactly one variable with that definition and value, in order, leaving existing entries alone, and a bitmap variable holds one mark per described variable with the count of present ones returned. Obtaining a subset of a bulletin by index creates the missing ones, empty and sharing the bulletin's tables, and keeps the existing ones. A bulletin that is cleared keeps nothing of what it held and has the header values of a new one.",
  ["inputs", "histories"], "all values, bitmaps and sequences of operations up to the bound",
  "Tests append a few values.",
  ["wreport/subset.cc", "wreport/subset.h", "wreport/bulletin.cc"],
  [("store_variable_*/append_*", "wreport/subset.cc"), ("obtain_subset, clear", "wreport/bulletin.cc")],
  ["contents of the subset and of the bulletin"])

P("C23", "Formatted values read back as the same value",
  "The formatted text of any set variable is the decimal value with the variable's number of decimals (or the text, or the bytes in hexadecimal), and setting a variable of the same definition from that text restores the same value; an unset variable formats as the text given for undefined values. Formatting to a string and to a stream give the same text.",
  ["inputs", "configurations"], "all stored integers for scales within the bound, all texts up to the bound",
  "Tests format a few values.",
  ["wreport/var.cc"], [("format/setf", "wreport/var.cc")], ["format() text", "value after setf()"])

P("C24", "Scoped option changes are undone and errors keep their category",
  "A scoped override of a library option is in force until its scope ends, however it ends, and then the previous value is back, nested overrides included; in the same way notes go to the stream of the innermost collection in force and to no other. Every error raised by the library carries the error code of its class and the message it was built from, at any length.",
  ["histories", "inputs"], "all nestings up to the bound with normal and exceptional exits; all messages up to the bound",
  "Tests use one override and a few messages.",
  ["wreport/options.h", "wreport/options.cc", "wreport/error.cc", "wreport/error.h", "wreport/notes.h", "wreport/notes.cc"],
  [("notes::Collect", "wreport/notes.h"), ("LocalOverride", "wreport/options.h"), ("error::throwf", "wreport/error.cc")],
  ["option values", "error code() and what()"])

P("C25", "String helpers are exact inverses and keep within their input",
  "URL, C-escape and base64 encoding decode back to the original bytes for every input, encoded text uses only the characters its format allows, and trimming, splitting, joining and path helpers keep every character they are documented to keep in order. Decoding malformed input ends without reading outside it.",
  ["inputs"], "all byte strings up to the bound",
  "Helpers are tested on a few literals.",
  ["wreport/utils/string.cc", "wreport/utils/string.h"],
  [("encode/decode pairs", "wreport/utils/string.cc")], ["returned strings"])

P("C26", "Script bindings give the same answers as the C++ API",
  "The Python and Lua objects for variables and tables return the same codes, values, attributes and errors as the C++ objects they wrap.",
  ["inputs"], "all values and calls", "Binding tests sample a few calls.",
  ["python/var.cc", "python/varinfo.cc", "python/vartable.cc", "wreport/var-lua.cc"],
  [("wrapper methods", "python/var.cc")], ["values seen from the script"])

P("C27", "Tables and options can be used from several threads at once",
  "Concurrent decoding, encoding and table loading in several threads give the same results as one after the other, and options set in one thread do not affect another.",
  ["schedules"], "all interleavings of operations of two or more threads", "Tests are single-threaded.",
  ["wreport/vartable.cc", "wreport/dtable.cc", "wreport/internals/tabledir.cc", "wreport/options.cc"],
  [("process-wide table caches", "wreport/internals/tabledir.cc")], ["results per thread"])

P("C28", "Validation accepts exactly what can be encoded",
  "Validating a subset against the descriptors of its bulletin succeeds exactly when its variables are those described, in order, and every value, attribute, associated field, reference value and bitmap can be encoded: a bulletin that validates encodes without errors, and a bulletin of the described variables that encodes also validates.",
  ["inputs"], "all bulletins within the bound of descriptors, variables and values",
  "Validation is tested on the bulletins of the test data, which are all valid.",
  ["wreport/bulletin/dds-validator.cc", "wreport/bulletin/dds-validator.h", "wreport/bulletin/internals.cc"],
  [("DDSValidator", "wreport/bulletin/dds-validator.cc")], ["exceptions of DDSValidator::run() and of encode()"])

P("C29", "Every decoded message can be printed, and is printed as it is",
  "Every message that decodes, whatever features it uses, can be printed as a list, as a structured list, and as a description of its descriptors, and the features it uses can be listed, without errors or invalid accesses and without changing it; the lists hold every variable with its attributes and its value, in order; decoding verbosely accepts the same messages as decoding and gives the same bulletin.",
  ["inputs"], "all messages within the bound of descriptor lists and data",
  "Printing is tested on the messages of the test data, and only that it does not fail.",
  ["wreport/bulletin.cc", "wreport/bulletin/dds-printer.cc", "wreport/bulletin/dds-scanfeatures.cc", "wreport/bulletin/interpreter.cc", "wreport/bufr/decoder.cc", "wreport/var.cc"],
  [("DDSPrinter", "wreport/bulletin/dds-printer.cc"), ("Printer", "wreport/bulletin/interpreter.cc"), ("ScanFeatures", "wreport/bulletin/dds-scanfeatures.cc"), ("VerboseDataSectionDecoder", "wreport/bufr/decoder.cc")], ["printed text, exceptions"])
