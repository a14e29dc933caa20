"""Properties that static analysis does not decide here."""
NA = []


def n(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


n("X01", "Floating point numbers survive JSON exactly",
  "Every finite float and double is written to JSON as a number that reads back to the same bits.",
  ["inputs"], "all 2^32 floats and 2^64 doubles", "tests sample a few values",
  ["include/spb/to_from_chars.h", "include/spb/json/serialize.hpp"], [("std::to_chars, std::from_chars", "include/spb/to_from_chars.h")],
  "the digits are computed inside libstdc++'s compiled to_chars and from_chars (Ryu tables, multi-word arithmetic): the statement quantifies over numerical results of code that is not in the repository, and no sound static argument in reach bounds it")
n("X02", "Speed and code size stay comparable to the advertised libraries",
  "Encoding and decoding stay as fast, and binaries as small, as the README states.",
  ["configurations"], "all compilers, targets and schemas", "tests do not measure",
  ["README.md", "benchmark"], [("benchmark", "benchmark")],
  "timing and size of optimised binaries are measurements; the source does not determine them")
n("X03", "Stack use is bounded for any nesting of the input",
  "No input, however deeply nested, exhausts the stack of the decoder.",
  ["inputs"], "inputs of any nesting depth", "tests nest a few levels",
  ["include/spb/pb/deserialize.hpp", "include/spb/json/deserialize.hpp"], [("recursive descent of both decoders", "include/spb/pb/deserialize.hpp")],
  "the decoders recurse once per nesting level of a recursive schema and have no depth limit by design; whether a given depth fits depends on the frame sizes the compiler picks and on the stack of the caller, which are no facts of the source")
