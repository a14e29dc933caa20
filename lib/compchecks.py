"""Checks of the schema compiler (C01, C05, C06, C07): the C++ type checker decides witnesses about the generated code."""
import itertools, random, re
from core import *
from schema import NUMERIC, VARINT, FIXED, SIGNED, WIDTH

KEYWORDS = """alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const
consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit
export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected
public register reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch template this thread_local
throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq""".split()
PROTO_WORDS = """syntax import weak public package option required optional repeated oneof map extensions to max reserved enum message extend
service rpc stream returns group inf nan string bytes int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64""".split()
# names the generated code and the library use themselves
LOCALS = """value stream tag field result detail size i it name hash data begin end key items item serialize deserialize serialize_size
deserialize_value serialize_value deserialize_field serialize_field is_empty spb json pb string_view vector max_size max_count variant get index
M T Message options writer reader buffer type id self count length encoder wire_type monostate first second pair print out in error""".split()

SCALAR_T = {"bool": "bool", "float": "float", "double": "double", "int32": "std::int32_t", "sint32": "std::int32_t", "sfixed32": "std::int32_t",
            "uint32": "std::uint32_t", "fixed32": "std::uint32_t", "int64": "std::int64_t", "sint64": "std::int64_t", "sfixed64": "std::int64_t",
            "uint64": "std::uint64_t", "fixed64": "std::uint64_t", "string": "std::string", "bytes": "std::vector<std::byte>"}
KEYS = [k for k in SCALAR_T if k not in ("float", "double", "bytes")]

WITNESS = """#include <array>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
template <class A, class B> constexpr bool same = std::is_same_v<A, B>;
"""


def cc_name(n):
    return n + "_" if n in KEYWORDS else n


class Case:
    """schemas to compile, the witnesses about the generated code and whether the sources must compile as well"""

    def __init__(self, name, files, witness="", main=None, cc=False, accept=True, pre="", flags=(), valid=None):
        self.name, self.files, self.witness, self.cc, self.accept, self.pre, self.flags = name, files, witness, cc, accept, pre, flags
        self.main = main or list(files)[0]
        self.valid = valid
        self.extra = {}


def one(name, text, witness="", **kw):
    return Case(name, {name + ".proto": text}, witness, **kw)


def first_error(err):
    ls = [l for l in err.split("\n") if "error" in l]
    return re.sub(r"/\S*/(?=[^/\s]+\.(pb|cpp|h|proto))", "", ls[0] if ls else err[-200:])


def run_cases(w, cases, rule, compilers=(("clang++-18",), ("g++",))):
    w.sprotoc()
    asserts = sum(c.witness.count("static_assert") for c in cases)
    done = {"schemas": 0, "compiles": 0}
    inc = ["-I" + os.path.join(REPO, "include")]

    def gen(c):
        d = os.path.join(w.dir, "c_" + c.name)
        os.makedirs(d)
        for n, t in list(c.files.items()) + list(c.extra.items()):
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write(t)
        tu = []
        for n in sorted(c.files, key=lambda n: n != c.main):
            try:
                r = sh([os.path.join(w.dir, "sprotoc"), "--cpp_out=" + d, "-I" + d] + list(c.flags) + [os.path.join(d, n)], cwd=d, timeout=60)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc, err = 124, "does not end"
            done["schemas"] += 1
            ok = rc == 0
            if not c.accept:
                if n == c.main and rc != 1:
                    w.viol.append(Violation(rule, c.name + ".proto", "it must be rejected with exit status 1 (%s), exit status %d" % (c.valid, rc)))
                return []
            if not ok:
                w.viol.append(Violation(rule, c.name + ": " + n, "the schema compiler does not accept it (exit status %d): %s" % (rc, err.strip()[-300:].replace(d, ""))))
                return []
        b = c.main[:-6]
        with open(os.path.join(d, "witness.cpp"), "w") as f:
            f.write(c.pre + '#include "%s.pb.h"\n' % b + WITNESS + c.witness)
        tu = [("witness.cpp", x) for x in compilers]
        if c.cc:
            tu += [(n[:-6] + ".pb.cc", x) for n in c.files for x in compilers]
        return [(c, d, t, x) for t, x in tu]

    def cc(j):
        c, d, t, x = j
        r = sh(list(x) + ["-std=c++20", "-fsyntax-only", "-Wno-everything" if "clang" in x[0] else "-w", "-I" + d] + inc + ["-I" + DRV, os.path.join(d, t)], cwd=d)
        done["compiles"] += 1
        return j, r

    jobs = [j for js in pmap(gen, cases) for j in js]
    bad = {}
    for (c, d, t, x), r in pmap(cc, jobs):
        if r.returncode:
            bad.setdefault((c.name, t), []).append((x[0], r.stderr))
    for (n, t), es in sorted(bad.items()):
        err = es[0][1]
        what = "a witness fails" if "static assertion failed" in err or "static_assert" in err else "the generated code does not compile"
        c = [c for c in cases if c.name == n][0]
        w.viol.append(Violation(rule, n + ": " + (t if t != "witness.cpp" else c.main), "%s: %s" % (what, first_error(err)[:400]),
                                "compilers: %s\n%s\n%s" % (", ".join(e[0] for e in es), err[:4000], "\n".join("%s:\n%s" % kv for kv in c.files.items())[:6000])))
    w.cov["schemas_compiled"] = w.cov.get("schemas_compiled", 0) + done["schemas"]
    w.cov["translation_units_type_checked"] = w.cov.get("translation_units_type_checked", 0) + done["compiles"]
    w.cov["static_assertions"] = w.cov.get("static_assertions", 0) + asserts


def P2(pkg="w"):
    return 'syntax = "proto2";\n' + ("package %s;\n" % pkg if pkg else "")


def P3(pkg="w"):
    return 'syntax = "proto3";\n' + ("package %s;\n" % pkg if pkg else "")


def fields(names, label, typ, start=1):
    return "".join("  %s %s %s = %d;\n" % (label, typ, n, start + i) for i, n in enumerate(names))


# ---------------------------------------------------------------------------------------------- C01
def c01_cases():
    cs = []
    for part, names in (("a", KEYWORDS[:46]), ("b", KEYWORDS[46:]), ("p", PROTO_WORDS), ("l", LOCALS)):
        simple = [n for n in names]
        # as field names with every label, in a oneof, as map names
        t = P2() + "message Opt {\n" + fields(simple, "optional", "int32") + "}\nmessage Rep {\n" + fields(simple, "repeated", "uint64") + "}\nmessage Req {\n" + fields(simple, "required", "sint32") + "}\n"
        t += "message Str {\n" + fields(simple, "optional", "string") + "}\n"
        t += "message Map {\n" + "".join("  map<string, int32> %s = %d;\n" % (n, i + 1) for i, n in enumerate(simple)) + "}\n"
        t += "message One {\n  oneof which {\n" + "".join("    %s %s = %d;\n" % (["int32", "string", "bytes", "Opt"][i % 4], n, i + 1) for i, n in enumerate(simple)) + "  }\n}\n"
        t += "message Ones {\n" + "".join("  oneof %s { int32 f%d = %d; string g%d = %d; }\n" % (n, i, 2 * i + 1, i, 2 * i + 2) for i, n in enumerate(simple)) + "}\n"
        t += "enum Val {\n" + "".join("  %s = %d;\n" % (n, i) for i, n in enumerate(simple) if n not in ("option", "reserved")) + "}\n"
        t += "message Def {\n" + "".join("  optional Val d%d = %d [default = %s];\n" % (i, i + 1, n) for i, n in enumerate(simple) if n not in ("option", "reserved")) + "}\n"
        cs.append(one("names_fields_" + part, t, cc=True))
        # as names of types, nested and forwarded
        tn = [n for n in names if n not in SCALAR_T and n not in ("self", "next", "sub", "optional", "required", "repeated", "oneof", "map", "extensions", "reserved", "enum", "message", "option", "extend", "true", "false", "string", "spb")]
        t = P2() + "".join("message %s {\n  optional %s self = 1;\n  repeated %s next = 2;\n  message %s { optional int32 a = 1; }\n  enum E { A = 0; }\n  optional E e = 3;\n  oneof o { %s sub = 4; E en = 5; }\n  map<int32, E> m = 6;\n}\n" % (
            n, n, tn[(i + 1) % len(tn)], "in_" + n, "in_" + n) for i, n in enumerate(tn))
        t += "message Outer {\n" + "".join("  message %s { optional int32 a = 1; }\n  enum e_%s { %s_A = 0; }\n" % (n, n, n) for n in tn) + "".join("  optional %s f%d = %d;\n  repeated e_%s g%d = %d;\n" % (n, i, 2 * i + 1, n, i, 2 * i + 2) for i, n in enumerate(tn)) + "}\n"
        t += "message Refs {\n" + "".join("  optional Outer.%s f%d = %d;\n" % (n, i, i + 1) for i, n in enumerate(tn)) + "}\n"
        cs.append(one("names_types_" + part, t, cc=True))
        t = P2() + "".join("enum %s { %s_Z = 0; %s_N = -1; }\n" % (n, n, n) for n in tn) + "message X {\n" + "".join("  optional %s f%d = %d;\n" % (n, i, i + 1) for i, n in enumerate(tn)) + "}\n"
        cs.append(one("names_enums_" + part, t, cc=True))
    for i, pk in enumerate(["class", "int.new.class", "a.namespace.b", "detail", "a.detail", "json.pb", "x.y.z.w", "Foo.Bar", "_a" if False else "a_1"]):
        cs.append(one("pkg%d" % i, P2(pk) + "message M { optional string s = 1; optional M m = 2; enum E { A = 0; } optional E e = 3; map<string, E> x = 4; oneof o { int32 i = 5; N n = 6; } }\nmessage N { repeated bytes b = 1; }\nenum T { Q = 1; }\n", cc=True))
    cs.append(one("pkg_none", P2("") + "message M { optional string s = 1; optional M m = 2; enum E { A = 0; } optional E e = 3; }\nenum T { Q = 1; }\n", cc=True))
    # every field type with every label, every default
    t = P2() + "message Sub { optional int32 a = 1; }\nenum En { Z = 0; A = 1; B = -1; C = 2147483647; D = -2147483648; }\nmessage All {\n"
    n = 0
    for k in list(SCALAR_T) + ["Sub", "En"]:
        for l in ("optional", "required", "repeated"):
            n += 1
            t += "  %s %s f%d = %d;\n" % (l, k, n, n)
        n += 1
        t += "  repeated %s f%d = %d [packed = true];\n" % (k, n, n) if k not in ("string", "bytes", "Sub") else ""
    for k in KEYS:
        for v in list(SCALAR_T) + ["Sub", "En"]:
            n += 1
            t += "  map<%s, %s> f%d = %d;\n" % (k, v, n, n)
    t += "  oneof o {\n"
    for k in list(SCALAR_T) + ["Sub", "En"]:
        for j in range(2):
            n += 1
            t += "    %s f%d = %d;\n" % (k, n, n)
    t += "  }\n}\n"
    cs.append(one("all_types", t, cc=True))
    cs.append(one("all_types3", 'syntax = "proto3";\n' + t.split("\n", 1)[1].replace("  required ", "  "), cc=True))
    t = P2() + "enum En { Z = 0; A = 1; B = -1; }\nmessage Defaults {\n"
    n = 0
    for k, vs in DEFAULTS.items():
        for v, _ in vs:
            for l in ("optional", "required"):
                n += 1
                t += "  %s %s f%d = %d [default = %s];\n" % (l, k, n, n, v)
    t += "}\n"
    cs.append(one("defaults", t, cc=True))
    cs.append(one("default_bytes", P2() + 'message M { optional bytes a = 1 [default = "abc"]; }\n', cc=True))
    cs.append(one("name_clash_types", P2() + "message M { message N { optional int32 a = 1; } enum E { A = 0; } optional N N = 1; optional E E = 2; }\n", cc=True))
    cs.append(one("name_clash_std", P2("a.std") + "message M { optional string s = 1; }\n", cc=True))
    cs.append(one("name_clash_int", P2() + "message M { optional int32 int32_t = 1; optional int32 x = 2; }\n", cc=True))
    # options, reserved, comments, empty things
    cs.append(one("syntax1", P2() + r"""
// a comment that ends with a backslash \
option java_package = "x.y"; // trailing \
option (my.opt).sub = { a: 1, b: "x", c: { d: [1, 2, "q"] } };
option optimize_for = SPEED;
option (x).y.(z.w) = -1.5e3;
/* block
 * comment */
;
message M {
  ;
  // reserved
  reserved 2, 5 to 9, 100 to max;
  reserved "foo", 'bar';
  extensions 1000 to 1999;
  extensions 2000 to max;
  option deprecated = true;
  // path c:\dir\
  optional int32 a = 1; // c:\dir\
  optional int32 b = 3; /* x */
  /* y */ optional int32 c = 4;
  optional int32 hex = 0x10; // after
  optional int32 oct = 021 [(foo.bar) = "z", deprecated = true];
  optional int32 hex2 = 0xAF;
  optional int32 max_number = 536870911;
  // last
}
message Empty {}
message EmptyNested { message A {} message B {} enum C { X = 0; } }
enum E { option allow_alias = true; A = 0; B = 1; C = 1 [deprecated = true]; D = -5; reserved 7, 9 to 11; reserved "Q"; H = 0x7F; O = 017; }
message UsesEmpty { optional Empty a = 1; repeated Empty b = 2; required Empty c = 3; map<int32, Empty> d = 4; oneof o { Empty e = 5; } }
""", "static_assert(requires(w::M m) { m.a; m.b; m.c; m.hex; m.oct; m.hex2; m.max_number; });\n", cc=True))
    cs.append(one("syntax2", (P3() + "message M {\n  // c\n  int32 a = 1;\n  repeated int32 b = 2; // d\n  oneof o {\n    // e\n    string c = 3;\n    // f\n  }\n  map<int32, string> m = 4;\n}\n").replace("\n", "\r\n"), cc=True))
    cs.append(one("syntax3", "message M { optional int32 a=1; }", cc=True))
    cs.append(one("syntax4", "", cc=True))
    cs.append(one("syntax5", 'syntax="proto3";package\ta;message M{int32 a=1;message N{}N n=2;enum E{A=0;}E e=3;oneof o{int32 x=4;N y=5;}map<int32,E>m=6;}enum T{Q=0;}', cc=True))
    cs.append(one("syntax6", P3() + "message M { optional int32 a = 1 [json_name = \"x-y z\"]; int32 b_c_d = 2 [json_name=\"\u00e9\"]; int32 __e = 3; int32 f__ = 4; int32 G = 5; int32 h1_2i = 6; }\n".replace(" int32 __e = 3;", ""), cc=True))
    # imports
    cs.append(Case("imports", {"m.proto": P2("m") + 'import "a.proto";\nimport public "dir/b.proto";\nimport weak "dir/deep/c.proto";\nimport "nopkg.proto";\nimport "spb.proto";\nmessage M { optional a.A x = 1; repeated d.b.B y = 2; required c.C.N z = 3; optional c.C.E e = 4; map<int32, a.A> m = 5; oneof o { d.b.B ob = 6; Plain p = 7; } }\n',
                               "a.proto": P3("a") + "message A { int32 v = 1; }\n", "dir/b.proto": P3("d.b") + "message B { int32 v = 1; }\n",
                               "dir/deep/c.proto": P3("c") + "message C { message N { int32 v = 1; } enum E { Z = 0; } }\n", "nopkg.proto": "message Plain { optional int32 v = 1; }\n"}, main="m.proto", cc=True))
    return cs


DEFAULTS = {
    "bool": [("true", "true"), ("false", "false")],
    "int32": [("0", "0"), ("7", "7"), ("-7", "-7"), ("2147483647", "2147483647"), ("-2147483648", "-2147483647 - 1")],
    "sint32": [("5", "5"), ("-2147483648", "-2147483647 - 1")],
    "sfixed32": [("-1", "-1")],
    "uint32": [("4294967295", "4294967295u"), ("1", "1u")],
    "fixed32": [("4294967295", "4294967295u")],
    "int64": [("9223372036854775807", "9223372036854775807ll"), ("-9223372036854775808", "-9223372036854775807ll - 1"), ("-3", "-3")],
    "sint64": [("-9223372036854775807", "-9223372036854775807ll")],
    "sfixed64": [("4294967296", "4294967296ll")],
    "uint64": [("18446744073709551615", "18446744073709551615ull"), ("1", "1ull")],
    "fixed64": [("18446744073709551615", "18446744073709551615ull")],
    "float": [("1", "1.f"), ("-1", "-1.f"), ("1.5", "1.5f"), ("-0.25", "-.25f"), ("1e10", "1e10f"), ("1.5E-3", "1.5e-3f"), ("16777216", "16777216.f"), ("inf", "__builtin_inff()"), ("-inf", "-__builtin_inff()"), ("nan", None)],
    "double": [("1", "1."), ("-2", "-2."), ("1.5", "1.5"), ("1e300", "1e300"), ("0.1", "0.1"), ("inf", "__builtin_inf()"), ("-inf", "-__builtin_inf()"), ("nan", None), ("100000000000000000000", "1e20")],
    "string": [('"abc"', '"abc"'), ("'x y'", '"x y"'), ('"//no"', '"//no"')],
    "En": [("A", "En::A"), ("B", "En::B")],
}


def c01(w):
    run_cases(w, c01_cases(), "the code generated for an accepted schema compiles")
    return w.finish()


# ---------------------------------------------------------------------------------------------- C05
def T(e, t):
    return "static_assert(same<decltype(%s), %s>);\n" % (e, t)


def c05_cases():
    cs = []
    for syn in (2, 3):
        t, wit, n = "", "", 0
        t += "message Sub { optional int32 a = 1; message In { optional int32 b = 1; } enum InE { X = 0; } }\nenum En { Z = 0; A = 1; B = -1; C = 2147483647; D = -2147483648; H = 0x1f; O = 017; class = 5; }\n"
        kinds = dict(SCALAR_T)
        kinds.update({"Sub": "w::Sub", "En": "w::En", "Sub.In": "w::Sub::In", "Sub.InE": "w::Sub::InE"})
        body, twin = "", ""
        for k, c in kinds.items():
            for l, ct in (("optional", "std::optional<%s>"), ("required", "%s"), ("repeated", "std::vector<%s>"), ("", "std::optional<%s>")):
                if syn == 2 and l == "":
                    continue
                n += 1
                body += "  %s %s f%d = %d;\n" % (l, k, n, n)
                twin += "  %s f%d;\n" % (ct % c, n)
                wit += T("w::All::f%d" % n, ct % c)
        for k in KEYS:
            for v, c in kinds.items():
                n += 1
                body += "  map<%s, %s> f%d = %d;\n" % (k, v, n, n)
                twin += "  std::map<%s, %s> f%d;\n" % (SCALAR_T[k], c, n)
                wit += T("w::All::f%d" % n, "std::map<%s, %s>" % (SCALAR_T[k], c))
        body += "  oneof one {\n"
        alts = []
        for k, c in list(kinds.items()) + list(kinds.items())[::-1]:
            n += 1
            body += "    %s f%d = %d;\n" % (k, n, n)
            alts.append(c)
        body += "  }\n"
        twin += "  std::variant<std::monostate, %s> one;\n" % ", ".join(alts)
        wit += T("w::All::one", "std::variant<std::monostate, %s>" % ", ".join(alts))
        body += "  oneof two { int32 p = 9001; }\n  oneof three { string q = 9002; Sub r = 9003; }\n"
        twin += "  std::variant<std::monostate, std::int32_t> two;\n  std::variant<std::monostate, std::string, w::Sub> three;\n"
        wit += T("w::All::two", "std::variant<std::monostate, std::int32_t>") + T("w::All::three", "std::variant<std::monostate, std::string, w::Sub>")
        t += "message All {\n" + body + "}\n"
        wit += "struct Twin {\n" + twin + "};\nstatic_assert(sizeof(Twin) == sizeof(w::All) && alignof(Twin) == alignof(w::All) && std::is_aggregate_v<w::All>);\n"
        wit += "static_assert(std::is_scoped_enum_v<w::En>);\n" if False else "static_assert(std::is_enum_v<w::En> && !std::is_convertible_v<w::En, int>);\n"
        wit += "static_assert(same<std::underlying_type_t<w::En>, std::int32_t>);\n"
        for nm, v in (("Z", "0"), ("A", "1"), ("B", "-1"), ("C", "2147483647"), ("D", "-2147483647 - 1"), ("H", "31"), ("O", "15"), ("class_", "5")):
            wit += "static_assert(static_cast<std::int64_t>(w::En::%s) == %s);\n" % (nm, v)
        cs.append(one("types%d" % syn, (P2() if syn == 2 else P3()) + t, wit))
    # every integer C++ type, with bit fields
    t, wit, n = P2() + "message Ints {\n", "", 0
    for k, c in SCALAR_T.items():
        if "int" not in c:
            continue
        u = "u" if "uint" in c else ""
        for wd in (8, 16, 32, 64):
            if wd == 64 and "64" not in c:
                continue
            for l, ct in (("optional", "std::optional<%s>"), ("required", "%s"), ("repeated", "std::vector<%s>")):
                n += 1
                t += '  %s %s f%d = %d [(spb_opt).type = "%sint%d"];\n' % (l, k, n, n, u, wd)
                wit += T("w::Ints::f%d" % n, ct % ("std::%sint%d_t" % (u, wd)))
            n += 1
            t += '  required %s f%d = %d [(spb_opt).type = "%sint%d:%d"];\n' % (k, n, n, u, wd, wd - 3)
            wit += T("w::Ints::f%d" % n, "std::%sint%d_t" % (u, wd))
            # a bit-field of its width: the largest value fits, one more does not
            m = wd - 3
            if u:
                wit += "static_assert([] { w::Ints v{}; v.f%d = %s; return v.f%d; }() == %s);\n" % (n, hex((1 << wd) - 1) + "ull", n, hex((1 << m) - 1) + "ull")
            else:
                wit += "static_assert([] { w::Ints v{}; v.f%d = %d; return v.f%d; }() == -1);\n" % (n, (1 << m) - 1, n)
    t += "}\n"
    cs.append(one("int_types", t, wit.replace("static_assert([]", "static_assert([]")))
    # declared order and names: designated initializers in declared order (fields, maps, oneofs)
    t = P2() + "message M {\n  optional int32 zz = 9;\n  required string a = 3;\n  repeated int32 class = 5;\n  optional bytes m = 1;\n  map<int32, string> mp = 2;\n  oneof o { int32 x = 4; string y = 6; }\n}\n"
    wit = "const w::M m{.zz = 1, .a = \"x\", .class_ = {1, 2}, .m = {}, .mp = {{1, \"q\"}}, .o = std::string(\"x\")};\n"
    wit += "struct Twin { std::optional<std::int32_t> zz; std::string a; std::vector<std::int32_t> class_; std::optional<std::vector<std::byte>> m; std::map<std::int32_t, std::string> mp; std::variant<std::monostate, std::int32_t, std::string> o; };\n"
    wit += "static_assert(sizeof(Twin) == sizeof(w::M));\n" + "".join("static_assert(__builtin_offsetof(Twin, %s) == __builtin_offsetof(w::M, %s));\n" % (n, n) for n in ("zz", "a", "class_", "m", "mp", "o"))
    cs.append(one("order", t, wit))
    # packages and nesting
    for pk, ns in (("", ""), ("a", "a::"), ("a.b", "a::b::"), ("a.class.c", "a::class_::c::"), ("Foo.Bar.Baz.Qux", "Foo::Bar::Baz::Qux::")):
        t = P2(pk) + "message L1 { message L2 { message L3 { enum E { V = 3; } optional E e = 1; } optional L3 l3 = 1; enum F { W = 4; } } optional L2 l2 = 1; optional L2.L3 deep = 2; optional L2.L3.E de = 3; repeated L2.F f = 4; }\nenum Top { T = 2; }\nmessage Other { optional L1.L2.L3.E e = 1; required L1.L2 l = 2; optional Top t = 3; }\n"
        wit = T(ns + "L1::L2::L3::e", "std::optional<%sL1::L2::L3::E>" % ns) + T(ns + "L1::L2::l3", "std::optional<%sL1::L2::L3>" % ns) + T(ns + "L1::l2", "std::optional<%sL1::L2>" % ns)
        wit += T(ns + "L1::deep", "std::optional<%sL1::L2::L3>" % ns) + T(ns + "L1::de", "std::optional<%sL1::L2::L3::E>" % ns) + T(ns + "L1::f", "std::vector<%sL1::L2::F>" % ns)
        wit += T(ns + "Other::e", "std::optional<%sL1::L2::L3::E>" % ns) + T(ns + "Other::l", "%sL1::L2" % ns) + T(ns + "Other::t", "std::optional<%sTop>" % ns)
        wit += "static_assert(int(%sTop::T) == 2 && int(%sL1::L2::L3::E::V) == 3 && int(%sL1::L2::F::W) == 4);\n" % (ns, ns, ns)
        cs.append(one("nest_" + (pk.replace(".", "_") or "none"), t, wit))
    # scoping: the innermost declaration wins
    t = P2() + """message N { optional int32 outer = 1; }
enum K { KO = 1; }
message A {
  message N { optional int32 inner = 1; enum K { KI = 2; } optional K k = 2; }
  optional N n = 1;
  optional N.K nk = 2;
  optional K k = 3;
  message B { optional N n = 1; optional K k = 2; message A { optional N n = 1; message N { optional int32 deep = 1; } } optional A a = 3; }
  map<int32, N> m = 4;
  oneof o { N on = 5; K ok = 6; }
}
message Z { optional N n = 1; optional A.N an = 2; optional A.B.A.N ban = 3; optional K k = 4; optional A.N.K ak = 5; }
"""
    wit = T("w::A::n", "std::optional<w::A::N>") + T("w::A::nk", "std::optional<w::A::N::K>") + T("w::A::k", "std::optional<w::K>") + T("w::A::N::k", "std::optional<w::A::N::K>")
    wit += T("w::A::B::n", "std::optional<w::A::N>") + T("w::A::B::k", "std::optional<w::K>") + T("w::A::B::A::n", "std::optional<w::A::B::A::N>") + T("w::A::B::a", "std::optional<w::A::B::A>")
    wit += T("w::A::m", "std::map<std::int32_t, w::A::N>") + T("w::A::o", "std::variant<std::monostate, w::A::N, w::K>")
    wit += T("w::Z::n", "std::optional<w::N>") + T("w::Z::an", "std::optional<w::A::N>") + T("w::Z::ban", "std::optional<w::A::B::A::N>") + T("w::Z::k", "std::optional<w::K>") + T("w::Z::ak", "std::optional<w::A::N::K>")
    cs.append(one("scopes", t, wit))
    # types of other files
    fs = {"m.proto": P2("m.n") + 'import "a.proto";\nimport "x/b.proto";\nimport "nopkg.proto";\nmessage A { optional int32 mine = 1; }\nmessage M { optional a.A x = 1; repeated b.q.B y = 2; required b.q.B.N z = 3; optional b.q.E e = 4; map<int32, a.A> m = 5; oneof o { b.q.B.F ob = 6; Plain p = 7; } optional A own = 8; }\n',
          "a.proto": P3("a") + "message A { int32 v = 1; }\n",
          "x/b.proto": P3("b.q") + "message B { message N { int32 v = 1; } enum F { Y = 0; } }\nenum E { Z = 0; }\n",
          "nopkg.proto": "message Plain { optional int32 v = 1; }\n"}
    wit = T("m::n::M::x", "std::optional<a::A>") + T("m::n::M::y", "std::vector<b::q::B>") + T("m::n::M::z", "b::q::B::N") + T("m::n::M::e", "std::optional<b::q::E>")
    wit += T("m::n::M::m", "std::map<std::int32_t, a::A>") + T("m::n::M::o", "std::variant<std::monostate, b::q::B::F, Plain>") + T("m::n::M::own", "std::optional<m::n::A>")
    cs.append(Case("imported", fs, wit, main="m.proto"))
    # comments, formatting and unknown options change nothing
    base = "message M { optional int32 a = 1; repeated string b = 2; enum E { X = 0; Y = 7; } optional E e = 3; oneof o { int32 c = 4; M2 d = 5; } map<string, E> m = 6; message M2 { required bool q = 1; } reserved 10 to 20; }"
    toks = re.findall(r"[A-Za-z0-9_]+|\S", base)
    wit = T("w::M::a", "std::optional<std::int32_t>") + T("w::M::b", "std::vector<std::string>") + T("w::M::e", "std::optional<w::M::E>") + T("w::M::o", "std::variant<std::monostate, std::int32_t, w::M::M2>") + T("w::M::m", "std::map<std::string, w::M::E>") + T("w::M::M2::q", "bool") + "static_assert(int(w::M::E::Y) == 7);\n"
    for i, ws in enumerate(("\n", "\t ", "\r\n", " \f\v ", "  \n\n  ")):
        cs.append(one("format%d" % i, P2() + ws.join(toks) + "\n", wit))
    com = base.replace("; ", "; // close } /* \n/* block ; } */ ").replace("{ ", "{ // open { x = 1; }\n").replace("; // close } /* \n/* block ; } */ enum", "; enum")
    cs.append(one("format_comments", P2() + com + "\n", wit))
    opts = base.replace("= 1;", "= 1 [deprecated = false, (x.y) = {a: 1, b: [\"q\", 'r']}, foo = bar];").replace("= 0;", "= 0 [(z) = -1];").replace("M {", "M { option (o).p = 1.5; ;", 1).replace("M2 {", "M2 { option deprecated = false;")
    cs.append(one("format_options", P2() + "option java_package = 'q';\n;" + opts + ";\n", wit))
    return cs


def c05(w):
    run_cases(w, c05_cases(), "the generated types are those the schema declares")
    return w.finish()


# ---------------------------------------------------------------------------------------------- C06
OPT_PRE = """#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <optional>
#include <memory>
#include <map>
namespace u { template <char L, class... T> struct box { char c; }; template <char L> struct str { char c; }; }
"""
# option: (type of the field, declaration, default type, type chosen by level X)
OPT_KINDS = {
    "optional": ("optional int32 $n = $i", "std::optional<std::int32_t>", '"u::box<\'%s\',$$>"', "u::box<'%s',std::int32_t>"),
    "repeated": ("repeated int32 $n = $i", "std::vector<std::int32_t>", '"u::box<\'%s\',$$>"', "u::box<'%s',std::int32_t>"),
    "string": ("required string $n = $i", "std::string", '"u::box<\'%s\',$$>"', "u::box<'%s',char>"),
    "bytes": ("required bytes $n = $i", "std::vector<std::byte>", '"u::box<\'%s\',$$>"', "u::box<'%s',std::byte>"),
    "map": ("map<int32, bool> $n = $i", "std::map<std::int32_t, bool>", '"u::box<\'%s\',$$,@>"', "u::box<'%s',std::int32_t,bool>"),
    "ostring": ("string $n = $i", "std::string", '"u::box<\'%s\',$$>"', "u::box<'%s',char>"),
    "obytes": ("bytes $n = $i", "std::vector<std::byte>", '"u::box<\'%s\',$$>"', "u::box<'%s',std::byte>"),
}
ENUM_TYPES = ["int8", "uint8", "int16", "uint16", "int32"]


def c06_cases():
    cs = []
    # which level wins: field over message over file over the default
    for filelvl in ("", "option", "comment"):
        t, wit = P2(), ""
        if filelvl == "comment":
            t = "".join('//[[ (spb_fileopt).%s = %s ]]\n' % (k, OPT_KINDS[k][2].replace("$$", "$") % "L") for k in ("optional", "repeated", "string", "bytes", "map")) + t
        elif filelvl:
            t += "".join('option (spb_fileopt).%s = %s;\n' % (k, OPT_KINDS[k][2].replace("$$", "$") % "L") for k in ("optional", "repeated", "string", "bytes", "map"))
        n = 0
        for msglvl in ("", "option", "late", "comment"):
            n += 1
            mo = ""
            ks = ("optional", "repeated", "string", "bytes", "map")
            com = "".join('//[[ (spb_msgopt).%s = %s ]]\n' % (k, OPT_KINDS[k][2].replace("$$", "$") % "M") for k in ks)
            opt = "".join('  option (spb_msgopt).%s = %s;\n' % (k, OPT_KINDS[k][2].replace("$$", "$") % "M") for k in ks)
            body, one_ = "", ""
            i = 0
            alts = []
            for k, (decl, deft, val, typ) in OPT_KINDS.items():
                for fl in ("", "bracket", "comment", "trailing"):
                    i += 1
                    kk = k.lstrip("o") if k in ("ostring", "obytes") else k
                    o = "(spb_opt).%s = %s" % (kk, val.replace("$$", "$") % "F")
                    d = decl.replace("$n", "f%d" % i).replace("$i", str(i))
                    s = {"": "  %s;\n" % d, "bracket": "  %s [%s];\n" % (d, o), "comment": "  //[[ %s ]]\n  %s;\n" % (o, d), "trailing": "  %s; //[[ %s ]]\n" % (d, o)}[fl]
                    ty = typ % "F" if fl else typ % "M" if msglvl else typ % "L" if filelvl else deft
                    if k in ("ostring", "obytes"):
                        one_ += "  " + s
                        alts.append(ty)
                    else:
                        body += s
                        wit += T("w::M%d::f%d" % (n, i), ty)
            sub = "  message Inner { required string s = 1; message Own { option (spb_msgopt).string = \"u::box<'O',$>\"; required string s = 1; } }\n  oneof o {\n" + one_ + "  }\n"
            wit += T("w::M%d::o" % n, "std::variant<std::monostate, %s>" % ", ".join(alts))
            wit += T("w::M%d::Inner::Own::s" % n, "u::box<'O',char>")
            t += (com if msglvl == "comment" else "") + "message M%d {\n" % n + (opt if msglvl == "option" else "") + body + sub + (opt if msglvl == "late" else "") + "}\n"
        # a message without options in between is not touched by its neighbours
        t += "message Plain { required string s = 1; optional int32 i = 2; repeated int32 r = 3; required bytes b = 4; map<int32, bool> m = 5; }\n"
        for f, k in (("s", "string"), ("i", "optional"), ("r", "repeated"), ("b", "bytes"), ("m", "map")):
            wit += T("w::Plain::" + f, OPT_KINDS[k][3] % "L" if filelvl else OPT_KINDS[k][1])
        cs.append(one("levels_" + (filelvl or "none"), t, wit, pre=OPT_PRE))
    # the pointer of cyclic messages
    for filelvl in (0, 1):
        t, wit = P2(), ""
        if filelvl:
            t += "option (spb_fileopt).pointer = \"u::box<'L',$>\";\n"
        t += "message A { optional A a = 1; }\nmessage B { option (spb_msgopt).pointer = \"u::box<'M',$>\"; optional B b = 1; optional B c = 2 [(spb_opt).pointer = \"u::box<'F',$>\"]; }\nmessage C { optional C c = 1 [(spb_opt).pointer = \"u::box<'F',$>\"]; }\n"
        wit += T("w::A::a", "u::box<'L',w::A>" if filelvl else "std::unique_ptr<w::A>") + T("w::B::b", "u::box<'M',w::B>") + T("w::B::c", "u::box<'F',w::B>") + T("w::C::c", "u::box<'F',w::C>")
        cs.append(one("pointer%d" % filelvl, t, wit, pre=OPT_PRE))
    # types of enums
    for fe in ("", "uint16", "//uint16"):
        t, wit = P2(), ""
        if fe:
            t = '//[[ (spb_fileopt).enum = "uint16" ]]\n' + t if fe[0] == "/" else t + 'option (spb_fileopt).enum = "uint16";\n'
        for i, e in enumerate(ENUM_TYPES):
            t += 'enum E%d { option (spb_enumopt).type = "%s"; A%d = 0; }\n//[[ (spb_enumopt).type = "%s" ]]\nenum F%d { B%d = 0; }\n' % (i, e, i, e, i, i)
            t += 'message M%d { option (spb_msgopt).enum = "%s"; enum E { X = 0; } enum F { Y = 1; option (spb_enumopt).type = "uint8"; } }\n' % (i, e)
            t += '//[[ (spb_msgopt).enum = "%s" ]]\nmessage N%d { enum E { X = 0; } }\n' % (e, i)
            for q in ("E%d" % i, "F%d" % i, "M%d::E" % i, "N%d::E" % i):
                wit += "static_assert(same<std::underlying_type_t<w::%s>, std::%s_t>);\n" % (q, e)
            wit += "static_assert(same<std::underlying_type_t<w::M%d::F>, std::uint8_t>);\n" % i
        t += "enum P { Q = 0; }\nmessage R { enum S { U = 0; } optional S s = 1; }\n"
        for q in ("P", "R::S"):
            wit += "static_assert(same<std::underlying_type_t<w::%s>, std::%s_t>);\n" % (q, "uint16" if fe else "int32")
        cs.append(one("enums_" + re.sub("/+", "c", fe), t, wit, pre=OPT_PRE))
    # integer types in comments, in oneofs, in legacy syntax, and bit-fields
    t = P2() + """message M {
  //[[ (spb_opt).type = "int8" ]]
  optional int32 a = 1;
  optional int32 b = 2; //[[ (spb_opt).type = "int16" ]]
  //[[ (spb_opt).type = "uint8" ]]
  repeated uint64 c = 3;
  //[[ (spb_opt).type = "int8:3" ]]
  required sint64 d = 4;
  required uint32 e = 5 [(spb_opt).type = "uint32:9"];
  optional int32 plain = 6;
  oneof o { int32 oa = 7 [(spb_opt).type = "int8"]; uint64 ob = 8; /*[[ (spb_opt).type = "uint16" ]]*/ int64 oc = 9; }
  //[[ string.type = "u::box<'Q',$>" ]]
  required string s = 10;
  //[[ repeated.type = "u::box<'Q',$>" ]]
  repeated string r = 11;
  //[[ optional.type = "u::box<'Q',$>" ]]
  optional bytes y = 12;
  //[[ bytes.type = "u::box<'Q',$>" ]]
  repeated bytes z = 13 [(spb_opt).repeated = "u::box<'R',$>"];
  optional string os = 14 [(spb_opt).string = "u::box<'S',$>", (spb_opt).optional = "u::box<'T',$>"];
  optional int32 tail = 15;
}
"""
    wit = T("w::M::a", "std::optional<std::int8_t>") + T("w::M::b", "std::optional<std::int16_t>") + T("w::M::c", "std::vector<std::uint8_t>") + T("w::M::d", "std::int8_t") + T("w::M::e", "std::uint32_t") + T("w::M::plain", "std::optional<std::int32_t>")
    wit += T("w::M::o", "std::variant<std::monostate, std::int8_t, std::uint16_t, std::int64_t>") + T("w::M::s", "u::box<'Q',char>") + T("w::M::r", "u::box<'Q',std::string>") + T("w::M::y", "u::box<'Q',std::vector<std::byte>>")
    wit += T("w::M::z", "u::box<'R',u::box<'Q',std::byte>>") + T("w::M::os", "u::box<'T',u::box<'S',char>>") + T("w::M::tail", "std::optional<std::int32_t>")
    cs.append(one("comments", t, wit, pre=OPT_PRE))
    # several options of one field, in every order
    opts = ['(spb_opt).string = "u::box<\'S\',$>"', '(spb_opt).optional = "u::box<\'T\',$>"', 'deprecated = false', 'json_name = "x"', '(spb_opt).max_size = 9', '(other).thing = {a: 1, b: [1,2]}']
    t, wit = P2() + "message M {\n", ""
    for i, p in enumerate(itertools.permutations(opts)):
        if i % 7:
            continue
        t += "  optional string f%d = %d [%s];\n" % (i, i + 1, ", ".join(p))
        wit += T("w::M::f%d" % i, "u::box<'T',u::box<'S',char>>")
    cs.append(one("many", t + "}\n", wit, pre=OPT_PRE))
    # the same settings as one structured option
    t = P2() + 'message M { optional string a = 1 [(spb_opt) = {string: "u::box<\'S\',$>", optional: "u::box<\'T\',$>"}]; optional int32 b = 2 [(spb_opt) = { type : "int8" }]; }\n'
    cs.append(one("structured", t, T("w::M::a", "u::box<'T',u::box<'S',char>>") + T("w::M::b", "std::optional<std::int8_t>"), pre=OPT_PRE))
    # default values
    t, wit, n = P2() + "enum En { Z = 0; A = 1; B = -1; class = 2; }\nmessage Num {\n", "constexpr w::Num d{};\n", 0
    st, sw = "message Str {\n", ""
    for k, vs in DEFAULTS.items():
        for v, c in vs + ([("class", "En::class_")] if k == "En" else []):
            for l in ("optional", "required"):
                n += 1
                acc = "%s.f%d%s" % ("d" if k != "string" else "w::Str{}", n, ".value()" if l == "optional" else "")
                line = "  %s %s f%d = %d [default = %s];\n" % (l, k, n, n, v)
                if k == "string":
                    st += line
                    sw += "static_assert(%s == %s);\n" % (acc, c)
                    continue
                t += line
                if c is None:
                    wit += "static_assert(%s != %s);\n" % (acc, acc)
                else:
                    wit += "static_assert(%s == %s%s);\n" % (acc, "w::" if k == "En" else "static_cast<%s>(" % SCALAR_T[k], c + (")" if k != "En" else ""))
    for k in SCALAR_T:
        if k in ("string", "bytes"):
            continue
        n += 1
        t += "  optional %s f%d = %d;\n  required %s g%d = %d;\n" % (k, n, n + 1000, k, n, n + 2000)
        wit += "static_assert(!d.f%d.has_value() && d.g%d == decltype(d.g%d){});\n" % (n, n, n)
    cs.append(one("defaults", t + "}\n" + st + "}\n", wit + sw))
    cs.append(one("defaults_types", P2() + "message M { optional int32 a = 1 [default = -128, (spb_opt).type = \"int8\"]; required uint32 b = 2 [(spb_opt).type = \"uint8\", default = 255]; required uint32 c = 3 [(spb_opt).type = \"uint8:3\", default = 7]; }\n",
                  "constexpr w::M d{};\nstatic_assert(d.a.value() == -128 && d.b == 255 && d.c == 7);\n"))
    # includes
    inc = {"i%d.h" % i: "#define I%d\n" % i for i in range(8)}
    t = '//[[ (spb_fileopt).include = "<i1.h>" ]]\n' + P2() + 'option (spb_fileopt).include = "<i2.h>";\noption (spb_fileopt).include = "i3.h";\n//[[ (spb_msgopt).include = "<i4.h>" ]]\nmessage M { option (spb_msgopt).include = "<i5.h>"; optional int32 a = 1; }\nenum E { option (spb_enumopt).include = "i6.h"; A = 0; }\n'
    cs.append(Case("include", {"x.proto": t}, "".join("#ifndef I%d\n#error not included\n#endif\n" % i for i in range(1, 7)) + "#ifdef I7\n#error included\n#endif\n"))
    cs[-1].extra = inc
    # not allowed
    bad = {"uint8 for int32": "optional int32 a = 1 [(spb_opt).type = \"uint8\"];", "int8 for uint32": "optional uint32 a = 1 [(spb_opt).type = \"int8\"];", "int64 for int32": "optional int32 a = 1 [(spb_opt).type = \"int64\"];",
           "int8 for bool": "optional bool a = 1 [(spb_opt).type = \"int8\"];", "int32 for float": "optional float a = 1 [(spb_opt).type = \"int32\"];", "int8 for string": "optional string a = 1 [(spb_opt).type = \"int8\"];",
           "unknown type": "optional int32 a = 1 [(spb_opt).type = \"int7\"];", "unknown 64-bit type": "optional int64 a = 1 [(spb_opt).type = \"x\"];", "bool as type": "optional int32 a = 1 [(spb_opt).type = true];",
           "optional bit-field": "optional int32 a = 1 [(spb_opt).type = \"int8:2\"];", "repeated bit-field": "repeated int32 a = 1 [(spb_opt).type = \"int8:2\"];",
           "enum of float": "enum E { option (spb_enumopt).type = \"float\"; A = 0; }", "enum of int33": "enum E { option (spb_enumopt).type = \"int33\"; A = 0; }",
           "max_size of text": "optional string a = 1 [(spb_opt).max_size = abc];", "max_count of bool": "repeated int32 a = 1 [(spb_opt).max_count = true];", "packed of number": "repeated int32 a = 1 [packed = 1];", "deprecated of text": "optional int32 a = 1 [deprecated = maybe];",
           "uint16 for sint64": "required sint64 a = 1 [(spb_opt).type = \"uint16\"];", "int16 for fixed64": "required fixed64 a = 1 [(spb_opt).type = \"int16\"];", "uint32 for sfixed32": "repeated sfixed32 a = 1 [(spb_opt).type = \"uint32\"];",
           "int32 for uint64": "required uint64 a = 1 [(spb_opt).type = \"int32\"];", "uint8 bits for int64": "required int64 a = 1 [(spb_opt).type = \"uint8:2\"];"}
    # every pair of a field type and a C++ type: the same signedness, not wider
    enum = "enum E { Z = 0; }\n"
    for k in NUMERIC + ["string", "bytes", "E", "X"]:
        fits = [("int" if k in SIGNED else "uint") + str(b) for b in (8, 16, 32, 64) if k in VARINT + FIXED and b <= WIDTH[k]]
        good = "".join("  required %s f%d = %d [(spb_opt).type = \"%s\"];\n  optional %s g%d = %d [(spb_opt).type = \"%s\"];\n" % (k, i, i + 1, t, k, i, i + 100, t) for i, t in enumerate(fits))
        good += "".join("  required %s b%d_%d = %d [(spb_opt).type = \"%s:%d\"];\n" % (k, i, b, i * 70 + b + 200, t, b) for i, t in enumerate(fits) for b in range(1, int(t.lstrip("uint")) + 1))
        if fits:
            cs.append(one("types_" + k, P2() + "message M {\n%s}\n" % good, "".join("static_assert(std::is_same_v<decltype(w::M::f%d), %s_t> && std::is_same_v<decltype(w::M::b%d_1), %s_t>);\n" % (i, t, i, t) for i, t in enumerate(fits))))
        for t in ["%sint%d" % (u, b) for u in ("", "u") for b in (8, 16, 32, 64)] + ["int", "int24", "uint128", "char", "bool", "float", "Int8", "int8 ", "int8_t"]:
            if t not in fits:
                bad["%s for %s" % (t, k)] = "%s required %s a = 1 [(spb_opt).type = \"%s\"];" % (enum + "message X {}\n", k, t)
        for t in fits or ["int8"]:
            wd = int(t.lstrip("uint"))
            for b in ("0", str(wd + 1), "100", "", "x", "-1", "1 ", " 1", "1;", "0x1", "1:1", "4294967297", "18446744073709551617") if k in ("int32", "sint64", "fixed32", "uint64") else ("0", str(wd + 1)):
                bad["%s:%s for %s" % (t, b, k)] = "%s required %s a = 1 [(spb_opt).type = \"%s:%s\"];" % (enum + "message X {}\n", k, t, b)
    bad["bit-field in a oneof"] = "oneof o { int32 a = 1 [(spb_opt).type = \"int8:2\"]; }"
    bad["bit-field in a comment of a oneof"] = "oneof o { //[[ (spb_opt).type = \"int8:2\" ]]\nint32 a = 1; }"
    bad["type of a map"] = "map<int32, int32> a = 1 [(spb_opt).type = \"int8\"];"
    bad["type of a string map"] = "map<string, string> a = 1 [(spb_opt).type = \"int8\"];"
    for i, (n, b) in enumerate(bad.items()):
        cs.append(one("bad%d" % i, P2() + "message M { %s }\n" % b, accept=False, valid=n))
    return cs


def raw_file(name, text):
    class Raw:
        pass
    r = Raw()
    r.name, r.proto = name, lambda: text
    return r


def limit_units():
    """max_size and max_count of every level, in every spelling"""
    units = []
    for filelvl in ("", "spb", "nanopb", "length", "comment"):
        name = "lv" + (filelvl or "none")
        t, r = P2("lv"), '#include "%s.pb.cc"\n#include "ref.h"\n#include "maxlimits.h"\n' % name
        lim = {"spb": lambda s, n: "(spb_%s).max_size = %d" % (s, n), "nanopb": lambda s, n: "(nanopb%s).max_size = %d" % (s and "_" + s if s != "opt" else "", n),
               "length": lambda s, n: "(nanopb%s).max_length = %d" % (s and "_" + s if s != "opt" else "", n - 1), "comment": lambda s, n: "(spb_%s).max_size = %d" % (s, n)}
        cnt = {k: (lambda s, n, f=f: f(s, n).replace("max_size", "max_count")) for k, f in lim.items() if k != "length"}
        fo = []
        if filelvl:
            fo.append(lim[filelvl]("fileopt", 4))
            if filelvl in cnt:
                fo.append(cnt[filelvl]("fileopt", 4))
        t = "".join("//[[ %s ]]\n" % o for o in fo) + t if filelvl == "comment" else t + "".join("option %s;\n" % o for o in fo)
        i = 0
        for ml in ("", "spb", "nanopb", "length", "comment"):
            for fl in ("", "spb", "nanopb", "length", "comment"):
                if filelvl in ("nanopb", "length", "comment") and fl in ("nanopb", "length", "comment"):
                    continue
                if not (filelvl or ml or fl):
                    continue
                for kind in ("size", "count"):
                    tab = lim if kind == "size" else cnt
                    if any(x and x not in tab for x in (filelvl, ml, fl)):
                        continue
                    i += 1
                    limit = 2 if fl else 3 if ml else 4
                    what = ["string", "bytes"][i % 2]
                    decl = "%s v = 2" % what if kind == "size" else "repeated %s v = 2" % ("int32" if i % 2 else "string")
                    lab = ["required ", "optional ", "repeated ", "one"][(i // 2) % 4] if kind == "size" else ""
                    fopt = tab[fl]("opt", 2) if fl else ""
                    mopt = tab[ml]("msgopt", 3) if ml else ""
                    f = (lab if lab != "one" else "") + decl + (" [%s]" % fopt if fopt and fl != "comment" else "") + ";"
                    if fl == "comment":
                        f = "//[[ %s ]]\n  %s" % (fopt, f)
                    if lab == "one":
                        f = "oneof o { bool x = 1;\n %s }" % f
                    t += ("//[[ %s ]]\n" % mopt if ml == "comment" else "") + "message L%d {\n%s  %s\n}\n" % (i, "  option %s;\n" % mopt if mopt and ml != "comment" else "", f)
                    en = 'extern "C" void ai_%s_%s_%s_%d() { using M = lv::L%d; ' % (kind, ml or "none", fl or "none", i, i)
                    if kind == "size":
                        lv = {"required ": "m.v", "optional ": "m.v.emplace()", "repeated ": "m.v.emplace_back()", "one": "m.o.template emplace<2>()"}[lab]
                        r += en + "max_size<M>(2, %d, %s, %s, [](M &m, size_t n) { auto &v = %s; v.resize(n); for (size_t i = 0; i < n; i++) v.data()[i] = typename std::remove_cvref_t<decltype(v)>::value_type('a'); }); }\n" % (
                            limit, "true" if what == "string" else "false", "true" if lab == "repeated " else "false", lv)
                    elif i % 2:
                        r += en + 'max_count<M>(2, %d, true, "1", [](M &m) { m.v.emplace_back() = 1; }, [](int ch, bool tag) { if (tag) ref::field<ref::INT32>(ch, 2, 1); else ref::scalar<ref::INT32>(ch, 1); }); }\n' % limit
                    else:
                        r += en + 'max_count<M>(2, %d, false, "\\"a\\"", [](M &m) { m.v.emplace_back() = "a"; }, [](int ch, bool) { ref::field<ref::STRING>(ch, 2, std::string_view("a")); }); }\n' % limit
        units.append((raw_file(name, t), name, r))
    return units


def c06(w):
    cs = c06_cases()
    rule = "an option applies to exactly what it is given for, the innermost level wins"
    run_cases(w, cs, rule)
    # a use of a deprecated field must not compile cleanly, a use of another one must
    c = one("deprecated", P2() + "message M { optional int32 a = 1 [deprecated = true]; optional int32 b = 2; optional string c = 3 [(x) = 1, deprecated = true]; repeated int32 d = 4 [deprecated = true]; optional int32 e = 5 [deprecated = false]; required int32 f = 6; }\n")
    d, rc, err = w.generate("deprecated", list(c.files.values())[0], sub="gen")
    if rc:
        w.viol.append(Violation(rule, "deprecated.proto", "not accepted: " + err[-300:]))
    else:
        for f, dep in (("a", 1), ("b", 0), ("c", 1), ("d", 1), ("e", 0), ("f", 0)):
            p = os.path.join(w.dir, "dep_%s.cpp" % f)
            open(p, "w").write('#include "deprecated.pb.h"\nauto &use(w::M &m) { return m.%s; }\n' % f)
            r = sh(["clang++-18", "-std=c++20", "-fsyntax-only", "-Werror=deprecated-declarations", "-I" + d, "-I" + os.path.join(REPO, "include"), p])
            if bool(r.returncode) != bool(dep):
                w.viol.append(Violation(rule, "deprecated.proto", "use of field %s %s" % (f, "compiles without a deprecation error" if dep else "does not compile: " + first_error(r.stderr))))
    from pbchecks import gen_units, split_units
    us = []
    for f, n, r in limit_units():
        us += split_units(f, n, r, 3)
    w.drivers(gen_units(w, us), rule)
    return w.finish()


# ---------------------------------------------------------------------------------------------- C07
def graph_case(name, n, graphs, seed):
    """one outer message per dependency graph of n messages; graphs: [{(a, b): label}]"""
    rnd = random.Random(seed)
    t, wit = P2(), ""
    for gi, g in enumerate(graphs):
        order = list(range(n))
        rnd.shuffle(order)
        # reachability over optional and required edges: an optional field may become a pointer only on a cycle
        reach = {a: {b for (x, b), l in g.items() if x == a} for a in range(n)}
        for _ in range(n):
            for a in range(n):
                reach[a] |= set().union(*[reach[b] for b in reach[a]] or [set()])
        t += "message G%d {\n" % gi
        for a in order:
            t += "  message N%d {\n    optional int32 id = 99;\n" % a
            es = [(b, l) for (x, b), l in g.items() if x == a]
            rnd.shuffle(es)
            for b, l in es:
                q = "w::G%d::N%d" % (gi, b)
                e = "w::G%d::N%d::f%d" % (gi, a, b)
                t += {"opt": "    optional N%d f%d = %d;\n", "rep": "    repeated N%d f%d = %d;\n", "req": "    required N%d f%d = %d;\n", "map": "    map<int32, N%d> f%d = %d;\n", "one": "    oneof f%d { bool x%d = %d; N%d m%d = %d; }\n"}[l] % (
                    (b, b, b + 1) if l != "one" else (b, b, 50 + b, b, b, b + 1))
                # the compiler may break a cycle at any optional field that leads into it
                cyc = any(x in reach[x] for x in reach[b] | {b}) or a == b
                if l == "opt" and not cyc:
                    wit += T(e, "std::optional<%s>" % q)
                elif l == "opt":
                    wit += "static_assert(same<decltype(%s), std::unique_ptr<%s>> || %s same<decltype(%s), std::optional<%s>>);\n" % (e, q, "false &&" if a == b else "", e, q)
                elif l == "rep":
                    wit += T(e, "std::vector<%s>" % q)
                elif l == "req":
                    wit += T(e, q)
                elif l == "map":
                    wit += T(e, "std::map<std::int32_t, %s>" % q)
                else:
                    wit += T(e, "std::variant<std::monostate, bool, %s>" % q)
            t += "  }\n"
        t += "}\n"
    return one(name, t, wit)


def acyclic(n, g, labels):
    """is the graph of the edges with these labels without cycles"""
    left = set(range(n))
    while left:
        free = [a for a in left if not any(x == a and b in left and l in labels for (x, b), l in g.items())]
        if not free:
            return False
        left -= set(free)
    return True


def c07_cases(w):
    deep = w.tier == "thorough"
    cs = []
    # all dependency graphs of three messages with optional fields, all of two messages with all labels
    pairs3 = [(a, b) for a in range(3) for b in range(3)]
    gs = []
    for bits in range(512):
        gs.append({p: "opt" for i, p in enumerate(pairs3) if bits >> i & 1})
    for j in range(0, 512, 64):
        cs.append(graph_case("opt3_%d" % j, 3, gs[j:j + 64], j))
    lab = [None, "opt", "rep", "req", "map", "one"]
    gs = []
    for ls in itertools.product(lab, repeat=4):
        g = {p: l for p, l in zip([(0, 0), (0, 1), (1, 0), (1, 1)], ls) if l}
        # a cycle of values only has no C++ type and no valid message
        if acyclic(2, g, ("req", "map", "one")) and not any(a == b and l in ("req", "map", "one") for (a, b), l in g.items()):
            gs.append(g)
    cs.append(graph_case("all2", 2, gs, 1))
    # seeded graphs of five messages
    rnd = random.Random(7)
    gs = []
    while len(gs) < (400 if deep else 120):
        g = {}
        for a in range(5):
            for b in range(5):
                if rnd.random() < .3:
                    g[(a, b)] = rnd.choice(lab[1:])
        if acyclic(5, g, ("req", "map", "one")):
            gs.append(g)
    for j in range(0, len(gs), 40):
        cs.append(graph_case("five_%d" % j, 5, gs[j:j + 40], j))
    # every order of five messages and enums of a chain, at the top level and nested
    parts = ["message A { required B b = 1; optional E e = 2; }", "message B { repeated C c = 1; map<string, E> m = 2; }", "message C { oneof o { D d = 1; E e = 2; } }", "message D { optional string s = 1; }", "enum E { Z = 0; Y = 5; }"]
    for j, perms in enumerate([list(itertools.permutations(range(5)))[k::4] for k in range(4)]):
        t, wit = P2(), ""
        for i, p in enumerate(perms):
            t += "message O%d {\n%s}\n" % (i, "".join("  " + parts[k] + "\n" for k in p))
            q = "w::O%d::" % i
            wit += T(q + "A::b", q + "B") + T(q + "A::e", "std::optional<%sE>" % q) + T(q + "B::c", "std::vector<%sC>" % q) + T(q + "B::m", "std::map<std::string, %sE>" % q) + T(q + "C::o", "std::variant<std::monostate, %sD, %sE>" % (q, q)) + T(q + "D::s", "std::optional<std::string>")
        cs.append(one("perm%d" % j, t, wit))
    for j, p in enumerate(list(itertools.permutations(range(5)))[::5]):
        t = P2() + "".join(parts[k] + "\n" for k in p)
        wit = T("w::A::b", "w::B") + T("w::A::e", "std::optional<w::E>") + T("w::B::c", "std::vector<w::C>") + T("w::C::o", "std::variant<std::monostate, w::D, w::E>")
        cs.append(one("top%d" % j, t, wit))
    # nested messages that need outer and neighbouring ones
    nest = {
        "inner_needs_later": ("message A { message I { required B b = 1; } optional I i = 1; } message B { optional int32 x = 1; }", [("A::I::b", "w::B"), ("A::i", "std::optional<w::A::I>")]),
        "needs_inner_of_later": ("message A { optional B.I i = 1; repeated B.I r = 2; } message B { message I { optional int32 x = 1; } enum E { Z = 0; } optional E e = 1; } message C { required B.E e = 1; optional A a = 2; }",
                                 [("A::i", "std::optional<w::B::I>"), ("A::r", "std::vector<w::B::I>"), ("C::e", "w::B::E"), ("C::a", "std::optional<w::A>")]),
        "inner_of_inner": ("message A { message I { message J { optional C c = 1; } optional J j = 1; } repeated I.J js = 1; } message C { optional D.K k = 1; } message D { message K { optional int32 x = 1; } }",
                           [("A::I::J::c", "std::optional<w::C>"), ("A::I::j", "std::optional<w::A::I::J>"), ("A::js", "std::vector<w::A::I::J>"), ("C::k", "std::optional<w::D::K>")]),
        "cycle_through_inner": ("message A { message I { optional B b = 1; } optional I i = 1; } message B { optional A a = 1; }", []),
        "cycle_of_lists": ("message A { repeated B b = 1; } message B { repeated A a = 1; optional C c = 2; } message C { map<int32, B> m = 1; }", [("A::b", "std::vector<w::B>"), ("B::a", "std::vector<w::A>")]),
        "inner_uses_outer": ("message A { message I { optional A a = 1; repeated A r = 2; } optional I i = 1; repeated I r = 2; }", [("A::I::r", "std::vector<w::A>"), ("A::r", "std::vector<w::A::I>")]),
        "siblings": ("message A { message Z { required Y y = 1; } message Y { required X x = 1; } message X { optional int32 v = 1; } optional Z z = 1; required X x = 2; }", [("A::Z::y", "w::A::Y"), ("A::Y::x", "w::A::X"), ("A::z", "std::optional<w::A::Z>"), ("A::x", "w::A::X")]),
        "keyword_cycle": ("message class { optional int k = 1; } message int { optional class c = 1; repeated int r = 2; }", [("int_::r", "std::vector<w::int_>")]),
    }
    for n, (t, ws) in nest.items():
        cs.append(one("nest_" + n, P2() + t + "\n", "".join(T("w::" + e, ty) for e, ty in ws), cc=True))
    # imports: any order, the same file twice, cycles of files, files in directories, short files
    cs.append(Case("imports1", {"m.proto": P2("m") + 'import "z.proto";\nimport "a.proto";\nimport "z.proto";\nmessage M { required a.A a = 1; optional z.Z z = 2; }\n', "a.proto": P2("a") + 'import "z.proto";\nmessage A { optional z.Z z = 1; }\n', "z.proto": P2("z") + "message Z { optional int32 i = 1; }\n"},
                   T("m::M::a", "a::A") + T("m::M::z", "std::optional<z::Z>"), main="m.proto"))
    cs.append(Case("imports2", {"m.proto": P2("m") + 'import "s.proto";\nimport "sub/t.proto";\nmessage M { optional A a = 1; repeated E e = 2; optional q.T t = 3; }\n', "s.proto": "message A{}", "sub/t.proto": 'package q; import "u.proto"; message T { optional int32 x = 1; }\n', "sub/u.proto": "enum E{A1=0;}" if False else "package q;"} if False else
                   {"m.proto": P2("m") + 'import "s.proto";\nimport "e.proto";\nimport "sub/t.proto";\nmessage M { optional A a = 1; repeated E e = 2; optional q.T t = 3; }\n', "s.proto": "message A{}", "e.proto": "enum E{X=0;}", "sub/t.proto": 'package q;\nimport "u.proto";\nmessage T { optional U u = 1; }\n', "sub/u.proto": "message U{}"},
                   T("m::M::a", "std::optional<A>") + T("m::M::e", "std::vector<E>") + T("m::M::t", "std::optional<q::T>") + T("q::T::u", "std::optional<U>"), main="m.proto", cc=True))
    # values that contain each other have no type
    for i, t in enumerate(["message A { required B b = 1; } message B { required A a = 1; }", "message A { required A a = 1; }", "message A { map<int32, B> b = 1; } message B { required A a = 1; }", "message A { optional Nope n = 1; }", "message A { optional B.C c = 1; } message B { }",
                           'import "nope.proto"; message A { }', "message A { optional E.X x = 1; } enum E { X = 0; }"]):
        cs.append(one("notype%d" % i, P2() + t + "\n", accept=False, valid="a message without a C++ type"))
    return cs


def c07(w):
    run_cases(w, c07_cases(w), "the order of declarations and files does not matter")
    return w.finish()


# ---------------------------------------------------------------------------------------------- C02, C03: the compiler itself, interpreted
def compiler_module(w):
    """the IR of all sources of the schema compiler, against the stand-ins of drivers/comp"""
    base = os.path.join(REPO, "src", "spb-proto-compiler")
    src = sorted(os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs if f.endswith(".cpp"))
    if not src:
        raise CheckError("no sources of the schema compiler")
    od = os.path.join(w.dir, "cbc")
    os.makedirs(od, exist_ok=True)
    w.cflags = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-Wno-everything", "-Dmain=sprotoc_main",
                "-I" + os.path.join(DRV, "comp"), "-I" + DRV, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + base]

    def cc(s):
        o = os.path.join(od, os.path.relpath(s, base).replace("/", "_") + ".bc")
        return o, s, sh(["clang++-18"] + w.cflags + [s, "-o", o])
    objs = []
    for o, s, r in pmap(cc, src):
        if r.returncode:
            raise CheckError("%s does not compile for the analysis:\n%s" % (s, r.stderr[-2000:]))
        objs.append(o)
    out = os.path.join(od, "all.bc")
    r = sh(["llvm-link-18"] + objs + ["-o", out])
    if r.returncode:
        raise CheckError("the IR of the schema compiler does not link: " + r.stderr[-2000:])
    return out


def compiler_drivers(w, units, rule, need=("done",), cpu=400, extra=("--max-steps", "200000000")):
    """units: [(name, source)]: analysed together with the compiler"""
    lib = compiler_module(w)

    def cc(u):
        p = os.path.join(w.dir, u[0] + ".cpp")
        open(p, "w").write(u[1])
        bc = os.path.join(w.dir, u[0] + ".bc")
        r = sh(["clang++-18"] + w.cflags + [p, "-o", bc])
        if r.returncode:
            return u[0], bc, "driver %s does not compile: %s" % (u[0], r.stderr[-2000:])
        r = sh(["llvm-link-18", bc, lib, "-o", bc + ".l"])
        return u[0], bc + ".l", "does not link: " + r.stderr[-2000:] if r.returncode else ""
    comp = pmap(cc, units)
    for n, bc, err in comp:
        if err:
            w.errors.append(err)
    comp = [c for c in comp if not c[2]]
    build_engine()
    jobs = max(1, JOBS // max(1, min(len(comp), JOBS)))
    for (n, bc, _), res in zip(comp, pmap(lambda c: w.analyse(c[1], jobs, cpu=cpu, extra=extra), comp)):
        if not res:
            w.errors.append("no entries in " + n)
        w.add_results(n, res, rule, need)


def c_str(t):
    return '"' + "".join("\\%03o" % b if b < 32 or b > 126 or b in b'"\\?' else chr(b) for b in t.encode("latin-1")) + '"'


ROBUST = {
    "head": ({"m.proto": 'syntax = "proto3";\npackage a.b;\nimport "i.proto";\noption (x).y = 1;\nmessage M{E e=1;}\n'}, {"i.proto": "enum E{A=0;}"}),
    "fields": ({"m.proto": 'message M{required int32 a=1[(spb_opt).type="int8:3",default=-0x1];\n repeated string s=2[packed=true,json_name="q"];}\n'}, {}),
    "scope": ({"m.proto": 'package p;message A{message B{optional A a=1;}\n required p.A.B b=1;optional C.E e=2;}message C{enum E{X=0;}}\n'}, {}),
    "oneof": ({"m.proto": 'message M{oneof o{int32 a=1;string b=2[deprecated=true];}\n map<string,M> m=3;reserved 5,7 to max;reserved "x";extensions 9 to 12;}\n'}, {}),
    "enum": ({"m.proto": 'enum E{option allow_alias=true;option (spb_enumopt).type="uint8";\nA=0;B=-1[deprecated=true];reserved 2 to 4;reserved "C";}\n'}, {}),
    "comment": ({"m.proto": '//[[ (spb_fileopt).include = "<x.h>" ]]\nmessage M{/*[[ (spb_opt).type="int8" ]]*/optional int32 a=1;// x\n//[[ (spb_opt).optional="o<$>" ]]\noptional string b=2;}\n'}, {}),
    "default": ({"m.proto": 'message M{optional string s=1[default="a"];optional E e=2[default=B];optional float f=3[default=-inf];optional bool b=4[default=true];}enum E{B=1;}\n'}, {}),
    "option": ({"m.proto": 'option (a).b.c={d:[1,2],e:"x" f:{g:-1}};message M{option (spb_msgopt).max_size=7;optional string s=1[(spb_opt)={max_size:3}];}\n'}, {}),
    "extend": ({"m.proto": 'extend google.protobuf.FieldOptions{optional int32 q=50000;}\nservice S{rpc F(M)returns(stream M){option x=1;}}\nmessage M{;}\n'}, {}),
    "import": ({"m.proto": 'import "i.proto";message M{required n.A a=1;optional n.A.E e=2;}\n'}, {"i.proto": "package n;import \"j.proto\";message A{enum E{X=0;}}", "j.proto": "message J{}"}),
}


def robust_units(w, quick):
    units = []
    for name, (main, more) in ROBUST.items():
        files = dict(main)
        files.update(more)
        # every file of the set is mutated in turn
        for mutated in files:
            t = files[mutated]
            n = len(t)
            u = name + ("" if mutated == "m.proto" else "_" + mutated[0])
            o = "#include <ai_world.h>\nstatic const char text[] = %s;\n" % c_str(t)
            o += "static void world(const char *t, size_t n)\n{\n    model::add(\"/i/%s\", t, n);\n" % mutated
            for f, c in files.items():
                if f != mutated:
                    o += "    { static const char c[] = %s; model::add(\"/i/%s\", c, sizeof(c) - 1); }\n" % (c_str(c), f)
            o += "}\n#include <ai_mutate.h>\n"
            step = max(4, (n + 7) // 8)
            for i in range(0, n + 1, step):
                o += 'extern "C" void ai_%s_%d() { one(%d, %d); }\n' % (u, i, i, min(n + 1, i + step))
            if not quick:
                for i in range(0, n - 1, step):
                    o += 'extern "C" void ai_%s_two_%d() { two(%d, %d); }\n' % (u, i, i, min(n - 1, i + step))
            units.append(("c03_" + u, o))
    return units


def c03(w):
    compiler_drivers(w, robust_units(w, w.tier != "thorough"), "every input is accepted or rejected with an error message", cpu=800)
    return w.finish()


FAULTS = """#include <ai_world.h>
static const char text[] = "message M{optional int32 a=1;}\\n", text2[] = "enum E{A=0;}\\n", bad[] = "message M{optional int32 a;}\\n";
static void world()
{
    model::add("/i/m.proto", text, sizeof(text) - 1);
    model::add("/i/e.proto", text2, sizeof(text2) - 1);
    model::add("/i/bad.proto", bad, sizeof(bad) - 1);
    model::add("/i/d", bad, 0);
    model::inputs[3].directory = true;
}
static void check(int r)
{
    if (r == 0) __ai_assert(!model::lost, "exit status 0 although a file could not be read or written");
    if (r == 0) __ai_assert(!model::console_error, "exit status 0 and an error message");
    if (r != 0) __ai_assert(model::console_error, "a failure is reported on the console");
    __ai_assert(r == 0 || r == 1, "the exit status is 0 or 1");
    if (r == 0) __ai_assert(model::opened == model::closed, "all files are closed");
}
// one operation on the output fails
static void with_fault(int kind, int files, int writes)
{
    world();
    model::fault = kind;
    model::fault_file = (int)__ai_split(__ai_pick("file", files));
    static const int at[] = {0, 1, 2, 100, 300};
    model::fault_write = at[__ai_split(__ai_pick("write", writes))];
    model::quiet = writes == 1 && kind != model::FAIL_WRITE;
    int r = run({"sprotoc", "--cpp_out=/o", "/i/m.proto", "/i/e.proto"});
    check(r);
    if (model::lost) __ai_cover("done"); // the operation is reached
    __ai_assert(r == 1 || !model::lost, "an output that cannot be written is a failure");
}
// a file is not read to its end, what is read would be a schema
extern "C" void ai_read()
{
    world();
    model::fault = model::FAIL_READ;
    model::fault_file = (int)__ai_split(__ai_pick("file", 2));
    static const size_t at[] = {0, sizeof(text2) - 2, sizeof(text) - 2, 3};
    model::fault_read = at[__ai_split(__ai_pick("read", 4))];
    int r = run({"sprotoc", "--cpp_out=/o", "/i/m.proto", "/i/e.proto"});
    check(r);
    if (model::lost) __ai_cover("done");
    __ai_assert(r == 1 || !model::lost, "an input that cannot be read is a failure");
}
// the same for an imported file
extern "C" void ai_read_import()
{
    world();
    static const char top[] = "import \\"m.proto\\";\\nmessage T{optional M m=1;}\\n";
    model::add("/i/t.proto", top, sizeof(top) - 1);
    static const char more[] = "message M{optional int32 a=1;}\\nmessage N{optional int32 a=1;}\\n";
    model::inputs[0].text = more;
    model::inputs[0].size = sizeof(more) - 1;
    model::fault = model::FAIL_READ;
    model::fault_read = sizeof(text) - 1;
    int r = run({"sprotoc", "--cpp_out=/o", "/i/t.proto"});
    check(r);
    if (model::lost) __ai_cover("done");
    __ai_assert(r == 1 || !model::lost, "an input that cannot be read is a failure");
}
extern "C" void ai_directory() { with_fault(model::FAIL_DIR, 1, 1); }
extern "C" void ai_open() { with_fault(model::FAIL_OPEN, 4, 1); }
extern "C" void ai_close() { with_fault(model::FAIL_CLOSE, 4, 1); }
extern "C" void ai_write_0() { with_fault(model::FAIL_WRITE, 2, 2); }
extern "C" void ai_write_1() { with_fault(model::FAIL_WRITE, 4, 1); }
extern "C" void ai_write_2() { with_fault(model::FAIL_WRITE, 1, 5); }
"""


def c02(w):
    o = FAULTS
    # (arguments, accepted)
    cmds = [(["--cpp_out=/o", "/i/m.proto"], 1), (["--cpp_out", "/o", "/i/m.proto", "/i/e.proto"], 1), (["-I/i", "--cpp_out=/o", "/i/m.proto"], 1), (["-I", "/i", "--proto_path=/i", "--cpp_out=/o", "/i/e.proto"], 1),
            (["--version"], 2), (["-v"], 2), (["--help"], 2), (["-h"], 2), (["-h", "--nope"], 2),
            (["--cpp_out=/o", "/i/nope.proto"], 0), (["--cpp_out=/o", "/i/m.proto", "/i/nope.proto"], 0), (["--cpp_out=/o", "/i/bad.proto"], 0), (["--cpp_out=/o", "/i/m.proto", "/i/bad.proto"], 0),
            (["--cpp_out=/o", "/i/bad.proto", "/i/m.proto"], 0), (["--cpp_out=/o", "/i/m.proto", "/i/bad.proto", "/i/e.proto"], 0), (["--cpp_out=/o", "/i/d"], 0),
            (["/i/m.proto"], 0), (["--cpp_out=/o"], 0), (["--cpp_out"], 0), (["-I"], 0), (["--nope", "--cpp_out=/o", "/i/m.proto"], 0), (["--cpp_out=/o", "--nope", "/i/m.proto"], 0), (["--cpp_out=", "/i/m.proto"], 0), (["-I", "", "--cpp_out=/o", "/i/m.proto"], -1), (["--cpp_out", "", "/i/m.proto"], 0), (["--proto_path=", "--cpp_out=/o", "/i/m.proto"], -1), (["--cpp_out=/o", "/i/m.proto", "", "/i/e.proto"], 0), (["-"], 0), ([""], 0), (["--cpp_out=/o", ""], 0)]
    for i, (c, ok) in enumerate(cmds):
        o += 'extern "C" void ai_command_%d() { world(); int r = run({"sprotoc"%s}); check(r); ' % (i, "".join(', "%s"' % a for a in c))
        if ok == 1:
            o += '__ai_assert(r == 0, "a valid command is accepted"); __ai_assert(model::opened == %d, "all files are written"); ' % (2 * sum(a.endswith(".proto") for a in c))
        elif ok == 2:
            o += '__ai_assert(r == 0 && model::opened == 0, "version and help are no failure"); '
        elif ok == 0:
            o += '__ai_assert(r == 1, "exit status 1 for a command that cannot be carried out: %s"); ' % " ".join(c)
        o += '__ai_cover("done"); }\n'
    compiler_drivers(w, [("c02", o)], "the exit status tells whether all output is written")
    return w.finish()


# ---------------------------------------------------------------------------------------------- C04: places and independence of the output
PLACES = """#include <ai_world.h>
static void put(const char *p, const char *t) { model::add(p, t, strlen(t)); }
static void world()
{
    put("/cwd/p/a.proto", "package a;message A{optional int32 x=1;enum E{Z=0;Y=1;}optional E e=2;}");
    put("/cwd/p/d/b.proto", "package b;import \\"a.proto\\";option (spb_fileopt).max_size=7;message B{optional a.A x=1;repeated string s=2;}");
    put("/cwd/p/d/e/c.v1.proto", "syntax=\\"proto3\\";message C{map<string,D>m=1;oneof o{D d=2;bool b=3;}}message D{C c=1;}");
    put("/cwd/pp/z.proto", "//[[ (spb_fileopt).optional = \\"o<$>\\" ]]\\nenum E{A=0;}message Z{optional int32 class=1[deprecated=true,default=7];}");
    put("/q/d/b.proto", "enum Other{V=0;}");
}
#include <ai_places.h>
"""


def places():
    A, B, C, Z, Q = "/cwd/p/a.proto", "/cwd/p/d/b.proto", "/cwd/p/d/e/c.v1.proto", "/cwd/pp/z.proto", "/q/d/b.proto"
    o = "/cwd/o"
    rows = []
    # every order of the files, each file once more alone
    three = [("p/a.proto", A, ""), ("p/d/b.proto", B, "d"), ("p/d/e/c.v1.proto", C, "d/e"), ("/q/d/b.proto", Q, None)]
    for perm in itertools.permutations(three[:3]):
        rows.append((["--cpp_out=o", "-Ip"] + [x[0] for x in perm], o, [(x[1], x[2]) for x in perm]))
    for perm in itertools.permutations([three[0], three[2], ("pp/z.proto", Z, "")]):
        rows.append((["-Ip", "--cpp_out=o"] + [x[0] for x in perm], o, [(x[1], x[2]) for x in perm]))
    # every spelling of the options
    for i in (["-Ip"], ["-I", "p"], ["--proto_path=p"], ["-I/cwd/p"], ["-I", "./p"], ["-Ip/"], ["--proto_path=/cwd/./p/"], ["-Ip/d/.."], ["-I", "p/d/../"], ["-I/cwd/../cwd//p"], ["-Ip/."]):
        rows.append((i + ["--cpp_out=o", "p/d/b.proto"], o, [(B, "d")]))
    for c, q in ((["--cpp_out=o"], o), (["--cpp_out", "o"], o), (["--cpp_out=/cwd/o"], o), (["--cpp_out", "./o/"], o), (["--cpp_out=p"], "/cwd/p"), (["--cpp_out=."], "/cwd"), (["--cpp_out", "/x/y/z"], "/x/y/z"), (["--cpp_out=../o"], "/o")):
        rows.append((["-Ip"] + c + ["p/d/e/c.v1.proto"], q, [(C, "d/e")]))
        rows.append((c + ["-Ip", "p/a.proto"], q, [(A, "")]))
    for f in ("p/d/b.proto", "/cwd/p/d/b.proto", "./p/d/b.proto", "p/../p/d/b.proto", "p//d/./b.proto", "../cwd/p/d/b.proto"):
        rows.append((["-Ip", "--cpp_out=o", f], o, [(B, "d")]))
        rows.append((["-I/cwd/p", "--cpp_out=o", f], o, [(B, "d")]))
    # the first directory that contains the file; not one with the same beginning of its name
    rows += [(["-Ip/d", "-Ip", "--cpp_out=o", "p/d/b.proto"], o, [(B, "")]), (["-Ip", "-Ip/d", "--cpp_out=o", "p/d/b.proto"], o, [(B, "d")]), (["-Ip/d/e", "-Ip", "-Ip/d", "--cpp_out=o", "p/d/b.proto", "p/d/e/c.v1.proto"], o, [(B, "d"), (C, "")]),
             (["-Ip", "--cpp_out=o", "pp/z.proto"], o, [(Z, "")]), (["-Ip", "-I.", "--cpp_out=o", "pp/z.proto"], o, [(Z, "pp")]), (["-I.", "--cpp_out=o", "pp/z.proto", "p/a.proto"], o, [(Z, "pp"), (A, "p")]), (["-I/", "--cpp_out=o", "pp/z.proto"], o, [(Z, "cwd/pp")]),
             (["--cpp_out=o", "p/d/e/c.v1.proto"], o, [(C, "")]), (["--cpp_out=o", "pp/z.proto", "/q/d/b.proto"], o, [(Z, ""), (Q, "")]), (["-I/q", "-Ip", "--cpp_out=o", "/q/d/b.proto", "p/a.proto"], o, [(Q, "d"), (A, "")])]
    o_ = PLACES
    cs = lambda l: "{" + ", ".join('"%s"' % x for x in l) + "}"
    pl = lambda l: "{" + ", ".join('{"%s", "%s"}' % x for x in l) + "}"
    names = []
    for i, (args, out, want) in enumerate(rows):
        o_ += 'extern "C" void ai_place_%d() { world(); same(%s, "%s", %s); }\n' % (i, cs(["sprotoc"] + args), out, pl(want))
    # the files exist already: with longer text, and written by the same command
    o_ += 'extern "C" void ai_again() { world(); same(%s, "%s", %s, %s); }\n' % (cs(["sprotoc", "--cpp_out=o", "-Ip", "p/a.proto", "p/d/b.proto"]), o, pl([(A, ""), (B, "d")]), cs(["sprotoc", "-Ip", "--cpp_out=o", "p/d/b.proto", "p/a.proto"]))
    o_ += 'extern "C" void ai_over() { world(); same(%s, "%s", %s, %s); }\n' % (cs(["sprotoc", "--cpp_out=o", "-I/q", "/q/d/b.proto"]), o, pl([(Q, "d")]), cs(["sprotoc", "-Ip", "--cpp_out=o", "p/d/b.proto"]))
    return o_


def c04(w):
    compiler_drivers(w, [("c04", places())], "the output of a file has one place and depends on the file only", cpu=800, extra=("--max-steps", "200000000", "--path-limit", "60000000"))
    return w.finish()


# ---------------------------------------------------------------------------------------------- C09: the place of a mistake
def mistakes():
    """(name, text before, the statement, text behind): '{' .. '}' of the marks <<, >> delimit the positions that may be reported"""
    msg = ("message M{optional int32 z=99;", "}\n")
    top = ("", "\nmessage Z{}\n")
    en = ("enum E{A=0;", "}\n")
    r = []

    def add(name, ctx, stmt):
        r.append((name, ctx[0], stmt, ctx[1]))
    # of one statement: the place is behind what was read, at most at the next word
    add("no_number", msg, "optional int32 <<a>>;")
    add("no_number_sign", msg, "optional int32 a <<7>>;")
    add("bad_number", msg, "optional int32 a = <<x7>>;")
    add("negative_text", msg, "optional int32 a = <<\"7\">>;")
    add("no_semicolon", msg, "optional int32 <<a = 1\n optional>> int32 b = 2;")
    add("no_name", msg, "optional <<int32 = 1>>;")
    add("bad_name", msg, "optional int32 <<7a>> = 1;")
    add("bad_type", msg, "<<7nt32>> a = 1;")
    add("unknown_type", msg, "optional <<Nope>> a = 1;")
    add("unknown_part", msg, "required <<M.Nope>> a = 1;")
    add("unknown_repeated", msg, "repeated int32 y = 3;\n\n  repeated <<x.y.Z>> a = 1;")
    add("unknown_map", msg, "map<string,<<Nope>>> a = 1;")
    add("map_key", msg, "map<<<float>>,int32> a = 1;")
    add("map_key2", msg, "map<<<Nope>>, int32> a = 1;")
    add("map_comma", msg, "map<int32 <<int32>>> a = 1;")
    add("map_end", msg, "map<int32, <<int32 a>> = 1;")
    add("oneof_name", msg, "oneof <<{>> int32 a = 1; }")
    add("oneof_type", msg, "oneof o { int32 b = 2; <<Nope>> a = 1; }")
    add("oneof_number", msg, "oneof o { int32 b = 2;\n\tint32 <<a>>; }")
    add("oneof_label", msg, "oneof o { optional <<int32 a>> = 1; }")
    add("option_end", msg, "optional int32 a = 1 [<<packed = true;>>")
    add("option_value", msg, "optional int32 a = 1 [packed = <<]>>;")
    add("option_sign", msg, "optional int32 a = 1 [<<packed true>>];")
    add("option_comma", msg, "repeated int32 a = 1 [<<packed = true json_name>> = \"x\"];")
    add("option_bool", msg, "repeated int32 a = 1 [packed = <<maybe>>];")
    add("option_bool2", msg, "repeated int32 y = 5;\nrepeated int32 a = 1 [deprecated = <<7>>];")
    add("option_int", msg, "repeated int32 a = 1 [(spb_opt).max_count = <<many>>];")
    add("option_string", ("message M{", ""), "repeated int32 a = 1 [<<json_name = \"x];\n}\n>>")
    add("option_paren", msg, "optional int32 a = 1 [(<<spb_opt.type = \"int8\">>];")
    add("int_type", msg, "required int32 a = 1 [(spb_opt).type = \"<<int7>>\"];")
    add("int_type_string", msg, "required string a = 1 [(spb_opt).type = \"<<int8>>\"];")
    add("int_type_fixed", msg, "optional int32 y = 5;\n required fixed32 a = 1 [(spb_opt).type = \"<<uint64>>\"];")
    add("int_type_message", msg, "required M2 a = 1 [(spb_opt).type = \"<<int8>>\"]; message M2{}")
    add("int_type_map", msg, "map<int32,int32> a = 1 [(spb_opt).type = \"<<int8>>\"];")
    add("bits", msg, "required int32 a = 1 [(spb_opt).type = \"<<int8:9>>\"];")
    add("bits_zero", msg, "required int32 a = 1 [(spb_opt).type = \"<<int8:0>>\"];")
    add("bits_optional", msg, "optional int32 a = 1 [(spb_opt).type = \"<<int8:3>>\"];")
    add("bits_repeated", msg, "optional int32 y = 5;\nrepeated int32 a = 1 [(spb_opt).type = \"<<int8:3>>\"];")
    add("bits_oneof", msg, "oneof o { int32 a = 1 [(spb_opt).type = \"<<int8:3>>\"]; }")
    add("self", msg, "required <<M a>> = 1;")
    add("reserved", msg, "reserved <<x>>;")
    add("reserved_to", msg, "reserved 5 to <<x>>;")
    add("reserved_end", msg, "reserved <<5 6>>;")
    add("reserved_name", msg, "reserved <<\"x\" 6>>;")
    add("extensions", msg, "extensions <<x>>;")
    add("nested", msg, "message N { optional int32 b = 1; optional <<Nope>> a = 2; }")
    add("nested_enum", msg, "enum N { B = 0;\n C = <<x>>; }")
    add("comment", msg, "<</ x>>\n")
    add("comment_end", msg, "<</* x }>>")
    add("in_comment", msg, "//[[ packed = <<maybe>> ]]\nrepeated int32 a = 1;")
    add("in_comment_int", msg, "optional int32 y = 5; repeated int32 a = 1; //[[ (spb_opt).max_count = <<many>> ]]\n")
    add("message_end", ("message M{", ""), "optional int32 a = 1;<<>>")
    add("enum_name", en, "<<7>> = 1;")
    add("enum_number", en, "B = <<x>>;")
    add("enum_sign", en, "B <<1>>;")
    add("enum_end", en, "<<B = 1\n C>> = 2;")
    add("enum_option", en, "option <<allow_alias true>>;")
    add("enum_type", en, "option (spb_enumopt).type = \"<<int7>>\";")
    add("enum_type64", en, "B = 1;\n\n option (spb_enumopt).type = \"<<int64>>\";")
    add("enum_type_file", ("enum E{A=0;}\n", "\n"), "option (spb_fileopt).enum = \"<<int64>>\";")
    add("message_name", top, "message <<{ }>>")
    add("message_open", top, "message <<N optional>> int32 a = 1; }")
    add("top_word", top, "<<nope>>;")
    add("top_close", ("message Y{}\n", "\nmessage Z{}\n"), "<<}>>")
    add("top_number", top, "<<7>>")
    add("top_enum", top, "enum <<{}>>")
    add("top_service", top, "<<service S>> { }")
    add("top_word_m", top, "<<mesage>> M { }")
    add("top_word_e", top, "<<enumm>> M { }")
    add("top_word_s", top, "<<syntaks>> = \"proto3\";")
    add("top_word_o", top, "<<optio>> x = 1;")
    add("syntax", top, "syntax = <<\"proto4\">>;")
    add("syntax_end", top, "<<syntax = \"proto3\"\n message>> Y{}")
    add("package", top, "package <<7>>;")
    add("package_end", top, "<<package a b>>;")
    add("import_name", top, "import <<x>>;")
    add("import_missing", ("message Y{}\n", "\nmessage Z{}\n"), "import \"<<no.proto>>\";")
    add("option_end_top", top, "<<option x = 1\n message>> Y{}")
    add("option_file", top, "option (spb_fileopt).max_size = <<many>>;")
    add("extend", top, "extend <<google.protobuf.Nope>> { }")
    add("extend_other", top, "extend <<M>> { optional int32 a = 1; }")
    add("cycle", top, "<<message A { required B b = 1; }\nmessage B { required A a = 1; }>>")
    return r


def where_units():
    leads = ["", "\\n", "\\n\\n  ", "// x\\n", "/* x\\n\\n y */ ", "\\r\\n\\r\\n\\t", "syntax = \\\"proto2\\\";\\npackage p.q;\\n", "message First{optional int32 a=1; // [[ deprecated=true ]]\\n}\\nenum Second{A1=0;}\\n"]
    units = []
    for part in range(8):
        o = "#define AI_MESSAGES\n#include <ai_world.h>\n#include <ai_where.h>\n"
        o += "static const char *const leads[] = {%s};\n" % ", ".join('"%s"' % l for l in leads)
        o += "static const char top[] = \"import \\\"i.proto\\\";\\nmessage T{}\\n\", above[] = \"\\n import \\\"t.proto\\\";\";\n"
        for i, (name, before, stmt, behind) in enumerate(mistakes()):
            if i % 8 != part:
                continue
            lo, hi = stmt.index("<<"), stmt.rindex(">>") - 2
            if "<<<" in stmt:
                lo += 1
            text = stmt[:lo] + stmt[lo + 2:hi + 2] + stmt[hi + 4:]
            o += "static const mistake m_%s = {%s, %s, %s, %d, %d};\n" % (name, c_str(before), c_str(text), c_str(behind), lo, hi)
            o += "static void text_%s() { append(m_%s.lead); offset_of_statement = length; append(m_%s.statement); append(m_%s.rest); }\n" % (name, name, name, name)
            # behind any of the texts; behind a comment of any two bytes; in an imported file and in one imported by that
            o += 'extern "C" void ai_%s() { append(leads[__ai_split(__ai_pick("lead", %d))]); text_%s(); model::add("/i/m.proto", buffer, length); where(m_%s, "/i/m.proto", {"sprotoc", "--cpp_out=/o", "/i/m.proto"}); }\n' % (name, len(leads), name, name)
            o += 'extern "C" void ai_%s_any() { append("/*"); for (int i = 0; i < 2; i++) { unsigned char b = (unsigned char)__ai_any("byte", 8); __ai_assume(b != 0x2f); __ai_assume(b != 0x5b); buffer[length++] = (char)b; } append("x*/"); text_%s(); model::add("/i/m.proto", buffer, length); where(m_%s, "/i/m.proto", {"sprotoc", "--cpp_out=/o", "/i/m.proto"}); }\n' % (name, name, name)
            o += 'extern "C" void ai_%s_import() { append(leads[__ai_split(__ai_pick("lead", 2))]); text_%s(); model::add("/i/t.proto", top, sizeof(top) - 1); model::add("/i/m.proto", above, sizeof(above) - 1); model::add("/i/i.proto", buffer, length); where(m_%s, "/i/i.proto", {"sprotoc", "--cpp_out=/o", "/i/m.proto"}); }\n' % (name, name, name)
        units.append(("c09_%d" % part, o))
    return units


def c09(w):
    compiler_drivers(w, where_units(), "a mistake is reported at its place", cpu=800)
    return w.finish()
