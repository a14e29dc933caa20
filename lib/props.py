"""The properties: one table, printed to properties.jsonl and MANIFEST.json by tools/gen.py and used
for the explanations of the evidence files."""

AI = ("abstract interpretation of the LLVM IR of the current sources (affine bit domain, exact trace partitioning), with "
      "an independent reference model in the driver as oracle")
TRUST = ("Decided without running the code: the IR of the library headers and of the code the current sprotoc generates for a fixed corpus of schemas is "
         "interpreted over abstract values that stand for all inputs of the stated shape at once. Exact within the shapes (field kinds, labels, sizes) listed; "
         "outside them nothing is claimed. Trusts clang's front end (x86-64, libstdc++ 13), the interpreter in engine/, the reference model in drivers/.")

DES, SER = "include/spb/pb/deserialize.hpp", "include/spb/pb/serialize.hpp"
JDES, JSER = "include/spb/json/deserialize.hpp", "include/spb/json/serialize.hpp"
DUMP = "src/spb-proto-compiler/dumper"

P = {}


def p(id, title, statement, over, text, why, files, mech, technique=AI, note=TRUST, expl="", assume=()):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, expl=expl, assume=list(assume))


p("W01", "Protobuf encoding is exactly the protobuf wire format",
  "For every message value the protobuf output is byte for byte what the wire format prescribes: tags with the declared field number and the wire type of the declared type, minimal varints, zigzag for sint, sign extension to 64 bits for negative int32/int64/enum, little-endian fixed values, exact length prefixes, packed or unpacked as declared. Absent optional, empty repeated and unset oneof fields produce no bytes.",
  ["inputs", "programs"], "every value of every field of every schema: all scalar types, labels (required, optional, repeated, packed, oneof, map), field numbers and C++ integer widths",
  "tests compare a few dozen sample values; the encoders are templates instantiated per type, label and container, and their correctness is over 2^64 values per instance",
  [SER, "include/spb/pb/wire-types.h", "include/spb/bits.h", DUMP + "/pb/dumper.cpp"],
  [("serialize templates", SER), ("tag and encoder selection in the generated code", DUMP + "/pb/dumper.cpp")],
  expl="Every message of the corpus is given arbitrary field values (all bits free), serialized, and the log of written bytes is compared bit by bit, as affine forms, to the log of a reference encoder written from the wire format specification.")

p("W02", "Predicted size and all protobuf output forms agree",
  "For every message the predicted size equals the number of bytes written, the returned size is that number, and writing to a user callback, to a raw buffer of exactly that size and to a growing container gives the same bytes. Nothing is written outside the buffer.",
  ["inputs", "programs"], "every message value, every field type and label, every output form",
  "a size computation that disagrees with the writer only for one type, one varint length or one container corrupts memory; tests never write to an exact-size buffer with every length",
  ["include/spb/pb.hpp", SER, "include/spb/io/buffer-io.hpp"],
  [("size computing stream", SER), ("serialize overloads", "include/spb/pb.hpp")],
  expl="serialize_size, serialize to a writer, to a heap buffer of exactly the predicted size (out-of-bounds is an alarm of the abstract memory) and to a container are interpreted for arbitrary values; sizes and bytes must be equal in every partition.")

p("W03", "Protobuf round trip returns an equal message",
  "Decoding the bytes a message was encoded to is accepted, consumes all of them and gives an equal message: same values bit for bit, same presence of optional and oneof fields, same order and count of repeated fields and the same map content.",
  ["inputs", "programs"], "every message value of every schema, including bit patterns of floats, unknown enum values, empty strings, user supplied and fixed size containers",
  "tests round trip a handful of literals per type",
  [SER, DES, DUMP + "/pb/dumper.cpp"], [("serialize", SER), ("deserialize", DES)],
  expl="serialize followed by deserialize of the logged bytes into a fresh message, for arbitrary field values; every field must be the same affine form.")

p("W04", "Protobuf decoding gives the value the wire format defines",
  "Every well formed encoding of a message, minimal or not, packed or not, with repeated singular fields, decodes to the value the wire format defines, whoever produced it. A varint that does not end within ten bytes, and a value that does not fit the C++ type the schema chose for it, is rejected (only signed 32 bit varints take the low 32 bits, as protobuf prescribes for int32).",
  ["inputs", "programs"], "all byte strings of a field: varints of 1 to 11 bytes with any content, both forms of repeated numbers, several occurrences of a singular field",
  "tests decode bytes that the same library or one GPB version produced; nonminimal varints, oversized values and mixed packing hardly occur",
  [DES, DUMP + "/pb/dumper.cpp"], [("read_varint", DES), ("packed and unpacked repeated fields", DES), ("deserialize_value of the generated code", DUMP + "/pb/dumper.cpp")],
  expl="The input is produced by the reference encoder (or is an arbitrary varint of up to 11 bytes) and decoded; value, acceptance and rejection must match the reference in every partition.")

p("W05", "Unknown or mistyped protobuf fields never change a message",
  "A field the schema does not know is skipped without changing any other field, at any position and nesting depth. A known field that arrives with another wire type is rejected or ignored, never stored; groups, undefined wire types, field number 0, tags over 32 bits and unknown fields that end behind the input are rejected.",
  ["inputs", "programs"], "all wire types for every field type and label, all lengths of unknown fields, all tags of 1 to 7 bytes",
  "tests contain a few unknown fields; a missing wire type check in one of the many decoder overloads needs that type, label and wire type together",
  [DES, DUMP + "/pb/dumper.cpp"], [("check_wire_type_or_throw at the decoders", DES), ("skip", DES), ("read_tag_or_eof", DES), ("default branch of deserialize_value", DUMP + "/pb/dumper.cpp")],
  expl="Inputs made of a known or unknown field with each of the eight wire types and arbitrary payload; the result must equal the untouched message, or the input must be rejected, as the wire format demands.")

p("W06", "Protobuf input is confined, truncation is always noticed",
  "Whatever bytes are decoded, nothing outside the given input or outside the decoder's own objects is read or written, and decoding ends. A record cut at any byte is rejected, from a buffer and from a reader, and no record is influenced by the bytes behind its end.",
  ["inputs", "programs"], "all inputs of up to three (thorough: four) arbitrary bytes behind every tag of every field type and label, all cuts of all valid records",
  "tests decode a few malformed inputs from buffers with slack; an overread shows only for one type at one cut and only under a sanitizer",
  [DES, DUMP + "/pb/dumper.cpp"], [("sub_stream, read_exact_or_throw, skip_or_throw", DES), ("check_if_empty_or_throw", DES)],
  expl="Inputs sit in abstract heap objects of exactly their size, so every access outside is an alarm; valid records are cut at every position; length delimited records with arbitrary content are decoded with and without bytes behind them, and nested messages also on their own, and must give the same result.")

p("W07", "A reader gives the same result as a buffer, whatever chunks it delivers",
  "Decoding through a user callback accepts the same inputs, gives the same message and consumes the same number of bytes as decoding the whole input from a buffer, no matter how many bytes the callback delivers per call. This holds for protobuf and JSON.",
  ["inputs", "schedules"], "all chunkings of the listed shapes (1, 2, 3 or all bytes per call, one short read at any call) for arbitrary field values and malformed inputs; JSON tokens at every position of the internal buffer",
  "the tests' readers deliver everything at once or byte by byte",
  [DES, JDES, "include/spb/io/buffer-io.hpp"], [("istream_reader", DES), ("buffered_reader", "include/spb/io/buffer-io.hpp")],
  expl="The same abstract input is decoded from a buffer and through readers with every chunking of the list; acceptance, message and consumed size must agree in every partition.")

p("W08", "max_size and max_count are enforced exactly, in every direction",
  "A string or bytes value longer than its declared maximum size, or a repeated field with more items than its declared maximum count, is refused by protobuf and JSON encoding and decoding; a value within the limit never is. The limit counts decoded bytes and all items, however the input splits them into packed, single or escaped pieces.",
  ["inputs", "programs"], "all lengths around the limit for every label, container and element type, both formats, both directions, buffer, container and callback",
  "tests cover some of the label, type, direction and format combinations, each of which is a separate template",
  [SER, DES, JSER, JDES, "include/spb/json/base64.h", DUMP + "/pb/dumper.cpp", DUMP + "/json/dumper.cpp"], [("check_size", "include/spb/pb/wire-types.h"), ("attributes printed by sprotoc", DUMP)],
  expl="Messages with limited fields are built or encoded by the reference with every length and count up to three over the limit; encoding and decoding in both formats must fail exactly over the limit.")

p("W09", "Strings are accepted exactly if they are valid UTF-8",
  "A string value is encoded to and decoded from protobuf and JSON if and only if its bytes are well formed UTF-8 as RFC 3629 defines it: no overlong forms, no surrogates, nothing above U+10FFFF, no truncated sequence, at any position and length.",
  ["inputs"], "all contents of up to four bytes behind any ASCII prefix length around the word size, for every label and container, both formats and directions",
  "there are 2^32 sequences of four bytes; tests contain a few invalid ones and hit the word-wise fast path at one alignment",
  ["include/spb/utf8.h", SER, DES, JSER, JDES], [("UTF-8 automaton and the word-wise fast path", "include/spb/utf8.h"), ("calls of validate in both codecs", DES)],
  expl="Strings of up to four arbitrary bytes behind ASCII prefixes are sent through protobuf and JSON encoding and decoding; acceptance must coincide with an independent transcription of the RFC's grammar in every partition.")

p("W10", "A bit-field takes a value exactly if it fits",
  "A field the schema maps to a C++ bit-field takes a decoded value from protobuf or JSON exactly if the value fits the declared number of bits (and sign), and then stores exactly that value; any other value is rejected, never truncated.",
  ["inputs", "programs"], "all values of every integer type for bit widths from 1 to the width of the type, in protobuf; all values around every limit in JSON, plain and quoted",
  "tests check a few widths with a few values; the range check is computed from the width per instance",
  ["include/spb/bits.h", DES, JDES, DUMP + "/pb/dumper.cpp", DUMP + "/json/dumper.cpp"], [("check_if_value_fit_in_bits", "include/spb/bits.h"), ("bit-field decoders", DES)],
  expl="Two abstract inputs cover all values of the field's type: one whose bits are arbitrary within the declared width (must be stored exactly) and one with some bit over it that is not the sign (must be rejected); JSON uses the values around all limits.")

p("W11", "Exceptions of user code end the operation and reach the caller",
  "If the user's reader, writer or container throws, at whatever call, the operation ends with that same exception: it is not swallowed, replaced, turned into a termination, or followed by another call of the user's code. Without such an exception nothing is thrown for valid data.",
  ["inputs", "programs", "faults"], "a fault at every one of the first calls of a reader or writer, every container that is full by one item, for every field type and label",
  "no test makes a callback throw in the middle",
  ["include/spb/io/io.hpp", "include/spb/io/buffer-io.hpp", "include/spb/io/function_ref.hpp", SER, DES, JSER, JDES], [("buffered_reader and its view", "include/spb/io/buffer-io.hpp"), ("istream and ostream", DES)],
  expl="Encoding and decoding are interpreted with callbacks that throw at a chosen call (exceptional control flow is part of the abstract semantics; an exception that reaches a noexcept function is an alarm), and with containers of bounded capacity filled up to and over it.")

p("W12", "The library itself never allocates on the heap",
  "With user supplied containers that do not allocate, no encoding, size computation or decoding, in either format and any output or input form, allocates on the heap; only exception objects may. This includes unknown fields, long unknown strings and truncated input.",
  ["inputs", "programs"], "every field type, label and container kind, both formats, every form of input and output, cut and complete inputs",
  "no test counts allocations; a temporary std::string in one overload is invisible except on an embedded target",
  ["README.md", SER, DES, JSER, JDES, "include/spb/json/base64.h"], [("'zero heap allocations' of the README", "README.md"), ("codec templates", DES)],
  expl="A heap effect analysis: from a mark in the driver on, every allocation function reached on any abstract path is a violation, reported with the allocating position; the schemas use containers with inline storage for everything.")

p("W13", "A oneof holds the last alternative that was sent, and only that",
  "After decoding, a oneof holds the alternative that occurred last in the input with exactly its value, whatever alternatives came before it, in protobuf and JSON; encoding writes exactly the alternative that is set, and nothing if none is. Different oneofs of a message are independent.",
  ["inputs", "programs"], "all ordered pairs and triples of alternatives of every type with arbitrary values",
  "tests decode one alternative at a time",
  [DES, JDES, DUMP + "/pb/dumper.cpp", DUMP + "/json/dumper.cpp"], [("deserialize_variant", DES), ("switch over the alternatives in the generated code", DUMP)],
  expl="Two and three messages with different alternatives are concatenated (reference encoder) or listed in one JSON object; the decoded oneof must equal the last one, and its encoding must contain only it.")

p("W14", "Presence is kept: absent stays absent, default values stay present",
  "A field with presence (optional, oneof, optional submessage) that is absent is not written and stays absent after a round trip; one that is set to the default value (0, false, empty string, bytes or message) is written and is present after a round trip. JSON null means absent.",
  ["inputs", "programs"], "every type, std and user supplied optionals, oneofs, recursive (pointer) fields, both formats, both directions",
  "tests use non-default values for most types",
  [SER, DES, JSER, JDES], [("optional overloads", SER), ("serialize_present", JSER)],
  expl="For every type: absent, default valued and arbitrary valued fields are encoded (size and bytes), decoded and compared; JSON texts without the field, with null and with the default value are decoded.")

p("W15", "Delimited messages are framed exactly",
  "With the delimited option the output is the varint length of the message followed by the message, in every output form and in the predicted size. Decoding delimited input reads exactly one message: it consumes the prefix and that many bytes, never takes a byte of what follows, and rejects a prefix that is larger than the input or ends inside a field.",
  ["inputs", "histories"], "arbitrary messages of every record type, sequences of messages, every wrong prefix up to the buffer, buffer and reader with any chunking",
  "tests write and read one message",
  ["include/spb/pb.hpp", DES], [("delimited option", "include/spb/pb.hpp"), ("sub_stream", DES)],
  expl="Two arbitrary messages are written behind each other and read back one at a time, from a buffer and a reader that counts what is taken; the bytes are compared to the reference framing; prefixes are changed to every other value and cut.")

p("W16", "Map items follow the wire format's map rules",
  "A map item may have its key and value in any order, lack either (default value), repeat either (last wins) and contain unknown fields; items with the same key replace each other, last wins. A key or value of a wrong wire type is never stored. The same holds for repeated keys in JSON.",
  ["inputs", "programs"], "every key type with every kind of value type, all orders and omissions, arbitrary keys and values",
  "tests decode items in the canonical form",
  [DES, JDES], [("map overload of deserialize", DES), ("deserialize_map_key", JDES)],
  expl="Items are composed by the reference from optional, repeated and unknown parts in every order with arbitrary keys and values; the decoded map must be the one the rules define.")

p("W17", "The result of a call depends on its arguments only",
  "Serializing and deserializing (both formats, all forms of the API) keep no state between calls and share none between threads: they use no mutable static or thread local variable and nothing of the environment (locale, time, files, environment variables), so calls on different messages may run at the same time, be nested in the user's readers, writers and containers, and repeat with the same result. Serializing changes nothing of the message.",
  ["schedules", "histories", "programs"], "all schedules and histories of calls, for every instance of the library's templates over the corpus of schemas",
  "a shared buffer or cache is right in every single-threaded, unnested test",
  [DES, SER, JDES, JSER, "include/spb/io/buffer-io.hpp"], [("readers and writers with their buffers", "include/spb/io/buffer-io.hpp"), ("number conversion", "include/spb/to_from_chars.h"), ("skipping of white space", JDES)],
  technique="effect analysis over the call graph of the LLVM IR of all API instances (references to mutable globals, calls of functions with hidden inputs), and abstract interpretation of repeated calls",
  note="Decided without running the code. The call graph contains every function whose address the reached code mentions. External functions are judged by a list of those with hidden inputs or effects; others (listed in the evidence) are assumed to be functions of their arguments. User supplied containers and callbacks are outside.",
  expl="Every function that any form of the API reaches is examined for references to static and thread local variables that are not constant and for calls of functions that depend on the locale, time, environment or files; and encoding a message with arbitrary values, before and after other successful and failing calls, must give the same bytes.")

# ---------------------------------------------------------------------------------------------- JSON
p("J01", "JSON output is valid JSON with exactly the text and numbers of the message",
  "Whatever strings and numbers a message holds (field values, map keys and map values), the JSON written for it is valid RFC 8259 JSON, and reading its strings as JSON gives exactly the original text: quotes, backslashes, control characters and all non-ASCII characters (as surrogate pairs above U+FFFF) are escaped correctly. Finite numbers are bare JSON numbers; NaN and infinities are the quoted names of the ProtoJSON mapping.",
  ["inputs", "programs"], "every Unicode character of every UTF-8 length behind and in front of other text, in every label, container and map place; every number class",
  "tests write a few characters; the escape table and the surrogate arithmetic have over a million inputs",
  [JSER, "include/spb/utf8.h", "include/spb/to_from_chars.h"], [("write_escaped, write_unicode", JSER), ("map keys", JSER)],
  expl="Messages with arbitrary valid UTF-8 text (all bytes of the character free) are written; the output is decoded by an independent JSON string parser and must give the same bytes as affine forms; numbers are followed through to_chars as opaque values that must be written between the right delimiters.")

p("J02", "A JSON string decodes to exactly the text it stands for",
  "A string in JSON (value, map key, map value) decodes to exactly the characters its escapes stand for: the eight short escapes, \\uXXXX with any case of the hex digits, and surrogate pairs. Undefined escapes, bad hex digits, lone or swapped surrogates are rejected, wherever they stand.",
  ["inputs", "programs"], "all escapes, all 2^16 units, all pairs of units, arbitrary raw bytes, for every label and container",
  "tests decode a dozen escapes; a mistake in one range of units or one position is invisible",
  [JDES, "include/spb/utf8.h"], [("unescape", JDES), ("deserialize of strings", JDES)],
  expl="The characters behind a backslash, the hex digits and the raw bytes are arbitrary; the result must coincide with an independent decoder (acceptance and every output bit).")

p("J03", "Bytes are exactly standard base64 in JSON",
  "Bytes are written to JSON as padded standard base64 (RFC 4648) of exactly the bytes, and base64 text decodes to exactly the bytes it stands for. Characters outside the alphabet, padding in the middle and incomplete groups are rejected.",
  ["inputs", "programs"], "all byte strings of every length modulo 3, all texts of up to four groups with padding at every position, all labels and containers",
  "tests use a few strings; the tables have 256 entries and the groups four positions",
  ["include/spb/json/base64.h", JDES, JSER], [("base64 encode and decode", "include/spb/json/base64.h")],
  expl="Bytes and characters are free; the encoder's output and the decoder's result must equal an independent implementation of RFC 4648 in every bit and in acceptance.")

p("J04", "JSON structure is followed exactly, whatever the white space",
  "White space of JSON (space, tab, line feed, carriage return) between any two tokens changes nothing. A text in which a token is missing, doubled or replaced, so that it is no JSON, is rejected, in fields the message knows and in those it does not know. (The syntax of numbers may be handled leniently.)",
  ["inputs", "programs"], "all white space of one and two characters at every gap, every single token removed, doubled or with any other first or last character, in texts that cover every kind of field",
  "tests contain a few formatted and a few broken texts",
  [JDES, DUMP + "/json/dumper.cpp"], [("consume_and_skip_white_space", JDES), ("ignore_value", JDES), ("deserialize of messages, maps and repeated", JDES)],
  expl="For every token position the white space is arbitrary, or the token is removed, doubled or its first or last byte is arbitrary; acceptance must imply that an independent RFC 8259 validator accepts, and white space must not change the message.")

p("J05", "JSON names select exactly their field or enum value",
  "A JSON member is stored in the field whose json_name (or lowerCamelCase name) or declared name it has, exactly and case sensitively, and in no field for any other name; the names may contain escapes. Enum values are read by any of their names or numbers and by nothing else. Output uses the JSON name and the enum's declared name, also for C++ keywords.",
  ["inputs", "programs"], "all names of the schema, all of their prefixes, extensions, case variants and one character changes, all names of arbitrary characters of the listed lengths",
  "names are matched through a hash in the generated code; tests use the declared names only",
  [DUMP + "/json/dumper.cpp", JDES], [("switch over the hashed names", DUMP + "/json/dumper.cpp"), ("json_name", DUMP + "/json/dumper.cpp")],
  expl="Every known name must set its field and no other; a list of near misses and names of arbitrary characters must set none; enum texts and numbers are handled the same way.")

p("J06", "JSON numbers and literals are taken exactly if they fit the field",
  "An integer field or map key takes a JSON number, plain or quoted, exactly if it is an integer in the range of the field's type (and of the C++ type chosen for it), and stores exactly that value. A bool takes only true and false. A value of another JSON type, or with anything behind it, is rejected. Floating point fields also take the names NaN, Infinity and -Infinity, and reject numbers outside their range. (Numbers written with more than 32 characters may be rejected.)",
  ["inputs", "programs"], "all values around every limit of every type and C++ type, all texts of up to three characters, all literals of up to six characters, any character behind a number, every label",
  "tests parse a few numbers per type; each type and label is a separate instance",
  [JDES, "include/spb/to_from_chars.h"], [("deserialize of numbers and bool", JDES), ("deserialize_map_key", JDES)],
  expl="Texts at and around all limits, and texts of arbitrary characters, are decoded; acceptance and value must coincide with a reference reading of the digits in every partition.")

p("J07", "JSON follows the ProtoJSON mapping and round trips",
  "For every message the JSON output is the object of the ProtoJSON mapping: one member per present field in order, arrays for repeated fields, objects for messages and maps, base64, enum names, nothing for absent or empty fields. Decoding it is accepted, consumes all of it and gives an equal message.",
  ["inputs", "programs"], "every field type, label, container and C++ type with the limits of its values, recursive messages",
  "tests compare a few objects as text",
  [JSER, JDES, DUMP + "/json/dumper.cpp"], [("serialize templates", JSER), ("deserialize templates", JDES)],
  expl="The output is compared byte by byte with a reference printer; it is decoded again and compared field by field.")

p("J08", "Unknown JSON members are skipped and change nothing",
  "A member the message does not know, with any JSON value of any nesting, is skipped without any effect, at any place in any (nested) message, also in messages without fields. If its value is no JSON, the text is rejected.",
  ["inputs", "programs"], "all kinds of values at every place of texts that cover every kind of field, strings and names of arbitrary characters",
  "tests skip a few simple values",
  [JDES], [("ignore_value, ignore_string", JDES)],
  expl="Unknown members with values of all kinds are inserted at every place of the sample texts; the message must not change. Strings with arbitrary characters must be skipped exactly if an independent parser finds the end there.")

p("J09", "JSON decoding is memory safe and ends on every input",
  "Whatever text is decoded, nothing outside the given input or outside the decoder's own objects is read or written, and decoding ends. A text cut anywhere is rejected, from a buffer and from a reader.",
  ["inputs", "programs"], "all inputs of up to three (thorough: four) arbitrary bytes behind every head of every field type and label, all cuts of the sample texts",
  "tests decode a few malformed texts from buffers with slack",
  [JDES, "include/spb/json/base64.h"], [("istream_buffer, istream_reader", JDES), ("base64 decode", "include/spb/json/base64.h")],
  expl="Inputs sit in abstract objects of exactly their size, so every access outside is an alarm; a repeated abstract state or an exceeded step limit is an endless loop.")

p("J10", "Predicted JSON size and all JSON output forms agree",
  "For every message the predicted JSON size equals the number of characters written, and writing to a callback, to a raw buffer of exactly that size and to a growing container gives the same text. Nothing is written outside the buffer.",
  ["inputs", "programs"], "every field type, label and container, every character class",
  "a size computation that disagrees with the writer for one character class corrupts memory; tests never write to an exact-size buffer",
  ["include/spb/json.hpp", JSER], [("size computing stream", JSER), ("serialize overloads", "include/spb/json.hpp")],
  expl="serialize_size, serialize to a writer, to a heap buffer of exactly the predicted size and to a container are interpreted for arbitrary text and the listed values; sizes and bytes must be equal in every partition.")

TYPES = ("compile-time witnesses: the current schema compiler generates C++ for an enumerated family of schemas, and the C++ type checkers of clang and gcc decide it "
         "together with static assertions about every generated declaration (nothing of the generated code is run)")
TNOTE = ("The generator is run to obtain the code under analysis; the verdict is the type checker's (clang 18 and gcc 13, C++20) on the generated declarations and on static assertions derived from "
         "the schema independently. Exact for the enumerated families of schemas; other schemas are not claimed.")
CNOTE = ("Decided without running the compiler: the IR of all sources of sprotoc is interpreted abstractly together with stand-ins for <filesystem>, <fstream> and <iostream> (drivers/comp), which model files, "
         "directories and failing output. Exact for the listed schemas and changes; other inputs are not claimed. Trusts clang's front end, libstdc++'s headers, the interpreter and the stand-ins.")
PARSER, OPTS, TYPESRC, ORDER, HDR, MAIN = ("src/spb-proto-compiler/parser/parser.cpp", "src/spb-proto-compiler/ast/ast-options.cpp", "src/spb-proto-compiler/ast/ast-types.cpp",
                                           "src/spb-proto-compiler/ast/ast-messages-order.cpp", DUMP + "/header.cpp", "src/spb-proto-compiler/main.cpp")

p("C01", "The code generated for an accepted schema compiles",
  "Whenever sprotoc accepts a valid protobuf schema (names and numbers unique in their scope; exit status 0), the header and source it writes are valid C++20 for clang and gcc: whatever the names of packages, messages, fields, enums and values (C++ keywords, names the library or generated code uses, proto keywords), the field types, labels, defaults, options, comments, nesting and imports.",
  ["programs"], "all schemas; decided for families that put every such name in every position, every type with every label and default, and all option, comment and import forms",
  "tests compile a dozen fixed schemas; generated text depends on names and on combinations of features",
  [HDR, DUMP + "/pb/dumper.cpp", DUMP + "/json/dumper.cpp", PARSER], [("header dumper", HDR), ("keyword escaping in to_cpp_ident", PARSER), ("pb and json dumpers", DUMP + "/pb/dumper.cpp")],
  technique=TYPES, note=TNOTE, expl="About 100 schemas (thousands of declarations) are generated; header and source of each must type check under both compilers.")

p("C02", "The exit status tells whether all output was written",
  "sprotoc exits with 0 only if every input file was read and every output completely written, and then prints no error; otherwise it exits with 1 and prints an error: unknown options, missing arguments, unreadable files, syntax errors in any of the files, directories that cannot be made, files that cannot be opened, written (at any point) or closed.",
  ["crash points", "inputs"], "every single failing operation on the output, every argument form, faulty input at every place of the file list",
  "tests never let the output fail; a build system that sees status 0 goes on with stale or truncated code",
  [MAIN, "src/spb-proto-compiler/io/file.cpp", DUMP + "/indent_ostream.h"], [("main and process_file", MAIN), ("load_file", "src/spb-proto-compiler/io/file.cpp"), ("indented_ostream", DUMP + "/indent_ostream.h")],
  technique=AI, note=CNOTE, expl="main is interpreted with every list of arguments below and with a fault at each output operation; exit status and console output must agree with the model's record of what was lost.")

p("C03", "The schema compiler survives every input",
  "For every content of a schema file and of the files it imports, sprotoc ends, and either accepts it and writes its output or exits with 1 and an error message. It never reads outside the file's content, uses dangling references, fails an assertion or lets an exception escape.",
  ["inputs"], "all inputs; decided for all changes of one byte (replaced by, or preceded by, any byte) at every position of 13 files that cover the grammar, for all their prefixes, and in the thorough tier for all pairs of adjacent bytes",
  "tests contain a few dozen malformed schemas; the parser is hand written over string views into the file",
  [PARSER, "src/spb-proto-compiler/parser/char_stream.h", TYPESRC, ORDER, OPTS], [("recursive descent parser", PARSER), ("char_stream", "src/spb-proto-compiler/parser/char_stream.h"), ("name resolution over the AST", TYPESRC)],
  technique=AI, note=CNOTE, expl="The file is an abstract object of exactly its size with one arbitrary byte; parsing, resolving and dumping are interpreted in every partition of that byte; accesses outside, assertions, escaping exceptions and loops without progress are alarms.")

p("C04", "The place of the output is determined and its content depends on the file only",
  "For every accepted command line, sprotoc writes exactly two files per input: OUT/DIR/NAME.pb.h and OUT/DIR/NAME.pb.cc, where DIR is the directory of the input relative to the first -I directory that contains it (empty if none does), in directories it makes first; however the directories and files are spelled (relative, absolute, '.', '..', double or final '/', all forms of the options). Their content is determined by the schema, its imports and DIR: not by the other files of the command, their order, options for other files, what the output files contained before, or the iteration order of hash tables.",
  ["programs", "histories"], "all orders of three files, all spellings of options and paths listed, nested and overlapping -I directories, existing output, two different hash functions",
  "tests generate every file once, by the same command line; a build system relies on names and reproducible content",
  [MAIN, PARSER, DUMP + "/dumper.cpp"], [("get_relative_output_dir and process_file", MAIN), ("search of files and imports", PARSER), ("dump_cpp", DUMP + "/dumper.cpp")],
  technique=AI, note=CNOTE, expl="main is interpreted for every file alone and for each command line in one analysis; the stand-ins record what is written where; every recorded text must equal that of the file written alone.")

p("C05", "Generated types follow the schema exactly",
  "Every message, enum, field, oneof and map of the schema appears in the generated header, in the namespace of its package and the scope of its parent, with the C++ type that the documentation gives for its type and label, enum values with their numbers; a type name is resolved by the scoping rules of protobuf (innermost scope first, then outwards, then imports).",
  ["programs"], "every type with every label in both syntaxes, all number formats, scopes and packages up to the listed nesting, all formatting variants of a declaration",
  "tests check a few fields; a wrong width, label or scope compiles silently",
  [TYPESRC, HDR, PARSER], [("type resolution", TYPESRC), ("header dumper", HDR)],
  technique=TYPES, note=TNOTE, expl="static_assert on the type of every generated member and on the value of every enumerator.")

p("C06", "Options apply to exactly what they are given for",
  "An option given for a field, message, enum or file, in brackets, as an option statement or in a comment of the documented forms, has its documented effect on exactly that element and those inside it; the innermost level wins; neighbours are not touched. Defaults initialise the field to the given value, deprecated marks it, and settings that cannot be honoured are rejected.",
  ["programs"], "all options at all levels and in all spellings, in all pairs of levels, on all labels, oneofs and maps; all integer, enum, float and string defaults of the listed forms",
  "tests use most options once, at one level",
  [OPTS, PARSER, HDR], [("convert_options and resolve_options", OPTS), ("options in comments", PARSER), ("defaults", HDR)],
  technique=TYPES + "; max_size and max_count limits are decided by abstract interpretation of the generated code", note=TNOTE,
  expl="static_assert on the type, default value and underlying type of every element; compile-fail witnesses for deprecated; abstract interpretation of encoder and decoder around every limit.")

p("C07", "The order of declarations and files does not matter",
  "Messages and enums may be used before they are declared, refer to each other in any way that has a C++ type, be nested and imported in any order: the generated code compiles, and the types of the fields do not depend on the order, except that an optional field that leads into a cycle of messages may be held by pointer. A schema that has no C++ type (a message that contains itself by value) and an unknown type are rejected.",
  ["programs", "histories"], "all dependency graphs of three messages with optional fields and of two messages with all labels, seeded graphs of five messages, all orders of five declarations, import diamonds and chains",
  "tests contain a few forward references; ordering is a graph algorithm over all declarations",
  [ORDER, TYPESRC, PARSER], [("sorting of messages and forward declarations", ORDER), ("imports", PARSER)],
  technique=TYPES, note=TNOTE, expl="Every graph becomes a schema with shuffled declarations; the generated code must type check and every field have the required type.")

p("C08", "Headers are self-contained and usable in any set of translation units",
  "Every header of the library and every generated header compiles on its own, twice, and together with the others in any order; none defines anything that two translation units would both define, and the generated sources of several schemas (with equal file, message, enum and field names in different packages and directories) and their users link into one program, in which everything that is used is defined.",
  ["programs"], "all headers alone, all ordered pairs of generated headers, several orders of all; all definitions of every translation unit; a family of schemas with equal names",
  "tests include headers in one order and link one or two schemas",
  [HDR, DUMP + "/pb/dumper.cpp", DUMP + "/json/dumper.cpp", "include/spb/pb.hpp", "include/spb/json.hpp"], [("generated includes and declarations", HDR), ("public headers", "include/spb/pb.hpp")],
  technique="compile-time witnesses (clang and gcc) and a linkage analysis of all definitions in the LLVM IR of the headers", note=TNOTE,
  expl="Every function and variable definition that a header brings into a translation unit must have inline, template or internal linkage; the modules of all generated sources and two users are linked at the IR level, and no declaration of namespace spb may stay undefined.")

p("C09", "A mistake in a schema is reported at its place",
  "When sprotoc rejects a schema because of a mistake in it, the error names the file that contains the mistake (also if that file is imported, directly or not), followed by ':LINE:COLUMN:' (both from 1) of a position inside the statement with the mistake, at most at the next word where the parser noticed it, and a message; whatever comes before the statement in the file.",
  ["inputs"], "82 kinds of mistakes in the grammar, types, options, bit-fields, imports and cycles; each behind 8 different texts, behind a comment of any two bytes, and in a file that is imported through another one",
  "tests check the line of some errors in files with a few lines, never the column or an imported file",
  ["src/spb-proto-compiler/parser/char_stream.h", PARSER, TYPESRC, HDR], [("current_line and current_column", "src/spb-proto-compiler/parser/char_stream.h"), ("nesting of errors of imports", PARSER), ("throw_parse_error at a place in the AST", HDR)],
  technique=AI, note=CNOTE, expl="main is interpreted on each file in memory, exceptions with their texts included; the text written to the console must name the file and a position inside the marked part of the statement.")
