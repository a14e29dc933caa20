"""Checks of the JSON codec (J..)."""
from core import *
from corpus import *
from pbchecks import split_units, entry, single, gen_units
from semchecks import cstr, json_text, TEXT1


def jhead(f, *inc, few=False):
    return ("#define REF_FEW\n" if few else "") + '#include "%s.pb.cc"\n#include "ref.h"\n#include "jref.h"\n%s%s\n' % (f.name, "".join('#include "%s"\n' % i for i in inc), f.jref(few) if not isinstance(f, Hand) else f.ref().replace("ref::any_value<uint32_t>", "rj::pick_value<uint32_t>") + RECUR_JSON)


RECUR_JSON = """
static void refj_Node(int ch, const recur::Node &m) { rj::object o(ch);
  if (m.next) { o.member("next"); refj_Node(ch, *m.next); }
  if (m.kids.size()) { o.member("kids"); rj::put(ch, '['); for (size_t i = 0; i < m.kids.size(); i++) { if (i) rj::put(ch, ','); refj_Node(ch, m.kids[i]); } rj::put(ch, ']'); }
  if (m.x) { o.member("x"); rj::value<ref::BOOL>(ch, *m.x); } }
static void refj_Ping(int ch, const recur::Ping &m) { rj::object o(ch);
  if (m.p) { o.member("p"); rj::object i(ch); if (m.p->q) { i.member("q"); refj_Ping(ch, *m.p->q); } }
  if (m.n) { o.member("n"); rj::value<ref::FIXED32>(ch, *m.n); } }
"""


def jentry(name, f, m, body):
    n = m.name.replace(".", "_")
    return 'extern "C" void ai_%s_%s_%s() { using M = %s::%s; %s }\n' % (name, f.name, n, f.ns, m.name.replace(".", "::"), body.replace("$M", n))


def json_files():
    fs = [scalars(l) for l in ("req", "opt", "rep", "pk", "one")] + [ints(), bits(), cont(), fixed(), maps(1), multi(), proto3()]
    for f in fs:
        if f.name in ("s_rep", "s_pk"):
            for m in f.msgs:
                fl = single(m)
                if fl is not None and fl.kind not in ("bool", "enum"):
                    fl.maxrep = 1 if fl.kind in ("message", "string") else 2
        if f.name == "multi":
            for m in f.msgs:
                for x in m.fields:
                    if not isinstance(x, tuple):
                        x.maxrep = 1
    return fs


# ---------------------------------------------------------------------------------------------- J07
def j07(w):
    body = """
  M m{}; mk_$M(m);
  refj_$M(1, m);
  spb::json::serialize(m, spb::io::writer(ref::log_writer{0}));
  __ai_assert_logs(0, 1, "JSON of the message");
  uint8_t buf[300];
  const size_t n = __ai_split(__ai_log_get(1, buf, sizeof buf));
  M r{};
  size_t used = 0;
  const bool ok = jdecode(r, exact(buf, n), n, &used);
  __ai_assert(ok, "JSON of a message is accepted");
  if (ok) { __ai_assert(used == n, "JSON is consumed completely"); eq_$M(m, r); }
  __ai_cover("done");"""
    units = []
    for f in json_files():
        r = jhead(f, few=f.name in ("multi", "maps"))
        for m in f.msgs:
            if m.name != "Sub":
                r += jentry("map", f, m, body)
        units += split_units(f, f.name, r, 2)
    f = recur()
    body2 = body.replace("mk_$M(m);", "mk_$M(m);")
    units.append((f, "recur", jhead(f) + "".join(jentry("map", f, m, body2) for m in f.msgs)))
    w.drivers(gen_units(w, units), "JSON follows the mapping and reads back to an equal message")
    return w.finish()


# ---------------------------------------------------------------------------------------------- J01, J02
def text_file():
    ca, cs = INC.replace("cont.h", "array"), '"cont::str<32>"'
    msgs = [M("Req", [F("v", "string", "req", 1)]), M("Opt", [F("v", "string", "opt", 2)]), M("Rep", [F("v", "string", "rep", 3)]),
            M("One", [("o", [F("x", "bool", "one", 1), F("v", "string", "one", 4)])]),
            M("Cont", [F("v", "string", "req", 1, opts={"(spb_opt).string": cs})]), M("ContRep", [F("v", "string", "rep", 1, opts={"(spb_opt).string": cs, "(spb_opt).repeated": '"cont::vec<$,4>"'})]),
            M("Max", [F("v", "string", "opt", 1, opts={"(spb_opt).max_size": "32"})]),
            M("Key", [F("v", "bool", "map", 1, key=F("k", "string", "req", 1))]), M("Val", [F("v", "string", "map", 1, key=F("k", "int32", "req", 1))])]
    msgs += [M("Fix%d" % i, [F("v", "string", "req", 1, opts={"(spb_opt).string": '"std::array<$,%d>"' % i}, fixed=i)]) for i in range(1, 5)]
    f = File("txt", msgs, INC + ca)
    put = "v.assign((const char *)p, (const char *)p + n);"
    sets = {"Req": "auto &v = m.v; " + put, "Opt": "auto &v = m.v.emplace(); " + put, "Rep": "auto &v = m.v.emplace_back(); " + put, "One": "auto &v = m.o.template emplace<2>(); " + put,
            "Key": "std::string v; " + put + " m.v[v] = true;", "Val": "auto &v = m.v[1]; " + put}
    sets["Cont"], sets["ContRep"], sets["Max"] = sets["Req"], sets["Rep"], sets["Opt"]
    get = {"Req": "m.v", "Opt": "m.v.value()", "Rep": "m.v.at(0)", "One": "std::get<2>(m.o)", "Key": "m.v.begin()->first", "Val": "m.v.at(1)", "Cont": "m.v", "ContRep": "m.v[0]", "Max": "m.v.value()"}
    for i in range(1, 5):
        sets["Fix%d" % i] = "memcpy(m.v.data(), p, n);"
        get["Fix%d" % i] = "m.v"
    return f, sets, get


PLACE = {"Rep": "ARRAY", "ContRep": "ARRAY", "Key": "KEY", "Val": "VALUE"}


def j01(w):
    f, sets, get = text_file()
    units = []
    head = '#include "txt.pb.cc"\n#include "ref.h"\n#include "jtext.h"\n'
    deep = w.tier == "thorough"
    for m in f.msgs:
        r = head
        for cls in range(5):
            if m.name.startswith("Fix"):
                if cls not in {"Fix1": (0,), "Fix2": (1, 2), "Fix3": (3,), "Fix4": (4,)}[m.name]:
                    continue
                shapes = [(0, 0)]
            else:
                shapes = [(0, 0), (3, 1)] if m.name in ("Req", "Cont", "Key") or deep else [(1, 0)]
                if m.name in ("Req", "Key"):
                    shapes = shapes + [(n, k % 2) for k, n in enumerate((30, 64, 130, 300, 513))]
            for pre, suf in shapes:
                r += jentry("written_%d_%d" % (cls, pre), f, m, "written<M>(%d, %d, %d, %s, [](M &m, const uint8_t *p, size_t n) { %s });" % (cls, pre, suf, PLACE.get(m.name, "PLAIN"), sets[m.name]))
        units.append((f, "txt_" + m.name, r))
    # numbers
    msgs, r = [], ""
    for k in ("float", "double"):
        for lab, st, h, t in (("req", "m.v = v;", '{"v":', "}"), ("opt", "m.v = v;", '{"v":', "}"), ("rep", "m.v.push_back(v);", '{"v":[', "]}"), ("pk", "m.v.push_back(v);", '{"v":[', "]}"), ("one", "m.o.template emplace<2>() = v;", '{"v":', "}")):
            fl = F("v", k, lab, 2)
            m = M("N_%s_%s" % (k, lab), [("o", [F("x", "bool", "one", 1), fl])] if lab == "one" else [fl])
            msgs.append(m)
            r += jentry("num", File("flt", []), m, "number_text<M, %s>(%s, %s, [](M &m, %s v) { %s });" % (k, cstr(h), cstr(t), k, st))
        m = M("N_%s_map" % k, [F("v", k, "map", 2, key=F("k", "bool", "req", 1))])
        msgs.append(m)
        r += jentry("num", File("flt", []), m, "number_text<M, %s>(%s, %s, [](M &m, %s v) { m.v[true] = v; });" % (k, cstr('{"v":{"true":'), cstr("}}"), k))
        m = M("N_%s_fix" % k, [F("v", k, "pk", 2, opts={"(spb_opt).repeated": '"std::array<$,1>"'}, fixed=1)])
        msgs.append(m)
        r += jentry("num", File("flt", []), m, "number_text<M, %s>(%s, %s, [](M &m, %s v) { m.v[0] = v; });" % (k, cstr('{"v":['), cstr("]}"), k))
    g = File("flt", msgs, INC.replace("cont.h", "array"))
    units.append((g, "flt", '#include "flt.pb.cc"\n#include "ref.h"\n#include "jtext.h"\n' + r))
    w.drivers(gen_units(w, units), "what is written is JSON with the same text and numbers")
    return w.finish()


def j02(w):
    f, sets, get = text_file()
    deep = w.tier == "thorough"
    units = []
    head = '#include "txt.pb.cc"\n#include "ref.h"\n#include "jtext.h"\n'
    for m in f.msgs:
        if m.name.startswith("Fix"):
            continue
        r = head
        for kind in ("SIMPLE", "UNIT", "PAIR", "PAIR_BITS", "PAIR_TAIL", "EDGES", "RAW"):
            if kind in ("PAIR", "PAIR_BITS", "UNIT") and m.name not in ("Req", "Key", "Cont") and not deep:
                continue
            shapes = [(0, 0), (2, 1)] if m.name in ("Req", "Key") or deep else [(1, 1)]
            if m.name in ("Req", "Key") and kind not in ("EDGES", "PAIR_BITS"):
                shapes = shapes + ([(63, 0), (254, 1), (600, 0)] if kind in ("SIMPLE", "RAW") else [(253, 1)])
            for pre, suf in shapes:
                r += jentry("%s_%d" % (kind.lower(), pre), f, m, "unescaped<M>(%s, %d, %d, %s, [](const M &m, const uint8_t *p, size_t n) { return ref::same_text(std::string_view((const char *)p, n), %s); });" % (kind, pre, suf, PLACE.get(m.name, "PLAIN"), get[m.name]))
        units.append((f, "esc_" + m.name, r))
    w.drivers(gen_units(w, units), "a JSON string gives exactly the text it stands for")
    return w.finish()


# ---------------------------------------------------------------------------------------------- J03
def bytes_file():
    cb = '"cont::bytes<32>"'
    msgs = [M("Req", [F("v", "bytes", "req", 1)]), M("Opt", [F("v", "bytes", "opt", 2)]), M("Rep", [F("v", "bytes", "rep", 3)]),
            M("One", [("o", [F("x", "bool", "one", 1), F("v", "bytes", "one", 4)])]),
            M("Cont", [F("v", "bytes", "req", 1, opts={"(spb_opt).bytes": cb})]),
            M("Max", [F("v", "bytes", "opt", 1, opts={"(spb_opt).max_size": "32"})]),
            M("Val", [F("v", "bytes", "map", 1, key=F("k", "int32", "req", 1))])]
    msgs += [M("Fix%d" % i, [F("v", "bytes", "req", 1, opts={"(spb_opt).bytes": '"std::array<$,%d>"' % i}, fixed=i)]) for i in (1, 2, 3, 5)]
    f = File("byt", msgs, INC + INC.replace("cont.h", "array"))
    put = "v.resize(n); if (n) memcpy(v.data(), p, n);"
    sets = {"Req": "auto &v = m.v; " + put, "Opt": "auto &v = m.v.emplace(); " + put, "Rep": "auto &v = m.v.emplace_back(); " + put, "One": "auto &v = m.o.template emplace<2>(); " + put, "Val": "auto &v = m.v[1]; " + put}
    sets["Cont"], sets["Max"] = sets["Req"], sets["Opt"]
    get = {"Req": "m.v", "Opt": "m.v.value()", "Rep": "m.v.at(0)", "One": "std::get<2>(m.o)", "Cont": "m.v", "Max": "m.v.value()", "Val": "m.v.at(1)"}
    for m in msgs:
        if m.name.startswith("Fix"):
            sets[m.name], get[m.name] = "memcpy(m.v.data(), p, n);", "m.v"
    return f, sets, get


def j03(w):
    f, sets, get = bytes_file()
    deep = w.tier == "thorough"
    units = []
    for m in f.msgs:
        r = '#include "byt.pb.cc"\n#include "ref.h"\n#include "jbytes.h"\n'
        fix = int(m.name[3:]) if m.name.startswith("Fix") else None
        for n in ([fix] if fix else range(1, 13 if deep else 8)):
            r += jentry("out%d" % n, f, m, "bytes_written<M>(%d, %s, [](M &m, const uint8_t *p, size_t n) { %s });" % (n, PLACE.get(m.name, "PLAIN"), sets[m.name]))
        cases = []
        if fix:
            n = (fix + 2) // 3 * 4
            good = [0, 1, 3][n // 4 * 3 - fix]
            tail = lambda b: sum(1 << (n - 1 - i) for i in range(4) if b >> i & 1)
            cases = [(n, tail(good)), (n, tail(good) | 1)] + [(n, tail(b)) for b in (2, 4, 8)]
        else:
            cases = [(4, b) for b in range(16)] + [(8, b << 4) for b in (0, 1, 2, 4, 8, 12)] + [(8, b) for b in (1, 8, 0x81, 0xc8)] + [(n, 0) for n in (1, 2, 3, 5, 6, 7)] + [(12, 0), (12, 0x800), (12, 0xc00), (12, 0x8)]
            if m.name in ("Req", "Cont") or deep:
                cases += [(16, 0), (16, 0xc000), (16, 0x8000), (16, 0x8800)]
        for n, b in dict.fromkeys(cases):
            for ch in (0, 1):
                r += jentry("in%d_%x_%d" % (n, b, ch), f, m, "bytes_read<M>(%d, %du, %s, %s, [](const M &m, const uint8_t *p, size_t n) { return ref::same_text(std::string_view((const char *)p, n), %s); });" % (n, b, "true" if ch else "false", PLACE.get(m.name, "PLAIN"), get[m.name]))
        units.append((f, "byt_" + m.name, r))
        if not fix and m.name not in ("Cont", "Max"):
            for i, (a, c) in enumerate(((0, 6), (120, 8), (180, 16), (226, 16), (242, 16), (258, 8), (390, 10))):
                if i > 4 and m.name != "Req":
                    continue
                r = '#include "byt.pb.cc"\n#include "ref.h"\n#include "jbytes.h"\n'
                r += jentry("long%d" % a, f, m, "bytes_read_long<M>(%d, %d, %s, [](const M &m, const uint8_t *p, size_t n) { return ref::same_text(std::string_view((const char *)p, n), %s); });" % (a, c, PLACE.get(m.name, "PLAIN"), get[m.name]))
                if deep or m.name == "Req" or a == 242:
                    units.append((f, "byt_%s_%d" % (m.name, a), r))
    w.drivers(gen_units(w, units), "bytes are base64 in JSON")
    return w.finish()


# ---------------------------------------------------------------------------------------------- J05
def camel(s):
    """protoc's ToJsonName"""
    r, up = "", False
    for c in s:
        if c == "_":
            up = True
        else:
            r += c.upper() if up else c
            up = False
    return r


NAMES = [("a", None), ("ab", None), ("bA", None), ("Foo", None), ("foo", None), ("foo_bar", None), ("fooBar_baz", None), ("x__y", None), ("t_", None), ("a1_b2_c3", None),
         ("class", None), ("long_long", None), ("lead", "we ird!"), ("gpb", "z"), ("UPPER_CASE", None), ("a_quite_long_name_of_a_field_with_many_words", None)]


def accepted():
    """key -> index"""
    r = {}
    for i, (n, j) in enumerate(NAMES):
        r[j or camel(n)] = i
    for i, (n, j) in enumerate(NAMES):
        assert r.setdefault(n, i) == i, n
    return r


def others():
    acc = accepted()
    r = {"", "b", "A", "aB", "bB", "ba", "v", " a", "a ", "_", "0", "class_", "a.b", "aquitelongnameofafieldwithmanywords", "a_quite_long_name_of_a_field_with_many_words_and_more"}
    for k in acc:
        for x in (k[:-1], k[1:], k + "_", k + "x", k.upper(), k.lower(), k.swapcase(), k[:1].upper() + k[1:], k.replace("_", ""), k[:-1] + chr(ord(k[-1]) + 1), k + "\x7f"):
            r.add(x)
        if len(k) > 1:  # the same djb2 hash
            r.add(k[:-2] + chr(ord(k[-2]) + 1) + chr(ord(k[-1]) - 33) if ord(k[-1]) >= 65 else k)
    return sorted(x for x in r if x not in acc and '"' not in x and "\\" not in x and len(x) < 60)


def name_files():
    f = []
    o = lambda j: {"json_name": '"%s"' % j} if j else {}
    cpp = lambda n: n + "_" if n in ("class",) else n
    opt = M("Opt", [F(n, "uint32", "opt", i + 1, opts=o(j)) for i, (n, j) in enumerate(NAMES)])
    rep = M("Rep", [F(n, "uint32", "rep", i + 1, opts=o(j)) for i, (n, j) in enumerate(NAMES)])
    one = M("One", [("o", [F(n, "uint32", "one", i + 1, opts=o(j)) for i, (n, j) in enumerate(NAMES)])])
    mp = M("Map", [F(n, "bool", "map", i + 1, key=F("k", "int32", "req", 1), opts=o(j)) for i, (n, j) in enumerate(NAMES)])
    bit = M("Bit", [F(n, "uint32", "req", i + 1, ctype="uint8", bits=4, opts=o(j)) for i, (n, j) in enumerate(NAMES)])
    loop = lambda test, val: "int w = -1; int c = 0; " + "".join("if (%s) { w = %d; c++; if (!(%s)) return -3; } " % (test % cpp(n), i, val % cpp(n)) for i, (n, _) in enumerate(NAMES)) + "return c > 1 ? -2 : w;"
    which = {"Opt": loop("m.%s.has_value()", "*m.%s == 7"), "Rep": loop("m.%s.size()", "m.%s[0] == 7"), "Map": loop("m.%s.size()", "m.%s.at(3)"), "Bit": loop("m.%s", "m.%s == 7"),
             "One": "if (m.o.index() == 0) return -1; uint32_t v = 0; switch (m.o.index()) { %s default: ; } return v == 7 ? int(m.o.index()) - 1 : -3;" % "".join("case %d: v = std::get<%d>(m.o); break; " % (i + 1, i + 1) for i in range(len(NAMES)))}
    val = {"Opt": "7", "Rep": "[7]", "One": "7", "Map": '{"3":true}', "Bit": "7"}
    put = {"Opt": "m.%s = 7u;", "Rep": "m.%s.push_back(7);", "Map": "m.%s[3] = true;", "Bit": "m.%s = 7;"}
    return File("nam", [opt, rep, one, mp, bit]), which, val, put, cpp


ENUMS = [("ZERO", 0), ("a", 1), ("ab", 2), ("bA", 3), ("class", 4), ("Mixed_Case", 5), ("NEG", -1), ("MIN", -2147483648), ("MAX", 2147483647), ("ALIAS", 5)]


def j05(w):
    f, which, val, put, cpp = name_files()
    units = []
    acc, oth = accepted(), others()
    for m in f.msgs:
        r = '#include "nam.pb.cc"\n#include "ref.h"\n#include "jnames.h"\n'
        r += "static constexpr auto which = [](const nam::%s &m) -> int { %s };\n" % (m.name, which[m.name])
        r += "static const name_case names[] = {%s};\n" % ", ".join("{%s, %d}" % (cstr(k), v) for k, v in acc.items())
        r += "static const char *const values[] = {%s};\n" % ", ".join([cstr(val[m.name])] * len(NAMES))
        for i in range(0, len(acc), 6):
            r += jentry("known%d" % i, f, m, "static const name_case c[] = {%s}; name_read<M>(c, values, \"1\", which);" % ", ".join("{%s, %d}" % (cstr(k), v) for k, v in list(acc.items())[i:i + 6]))
        some = oth if m.name in ("Opt", "One") or w.tier == "thorough" else oth[::3]
        for i in range(0, len(some), 20):
            r += jentry("other%d" % i, f, m, "static const name_case c[] = {%s}; name_read<M>(c, values, %s, which);" % (", ".join("{%s, -1}" % cstr(k) for k in some[i:i + 20]), cstr(val[m.name])))
        for n in (range(0, 24) if w.tier == "thorough" else (0, 1, 2, 3, 5, 7) if m.name in ("Opt", "One") else (1, 3)):
            r += jentry("any%d" % n, f, m, "name_other<M>(%d, names, %s, which);" % (n, cstr(val[m.name])))
        for i, (n, j) in enumerate(NAMES):
            if m.name == "Bit":
                e = "{%s}" % ",".join('"%s":%s' % (y or x, "7" if x == n else "0") for x, y in NAMES)
            else:
                e = '{"%s":%s}' % (j or n, val[m.name])
            p = "m.o.template emplace<%d>(7);" % (i + 1) if m.name == "One" else put[m.name] % cpp(n)
            r += jentry("out%d" % i, f, m, "M m{}; %s text_written(m, %s);" % (p, cstr(e)))
        units.append((f, "nam_" + m.name, r))
    # enums
    pre = "enum En { option allow_alias = true; %s }\n" % " ".join("%s = %d;" % x for x in ENUMS)
    e = lambda n, lab, num, **kw: F(n, "enum", lab, num, type_name="En", **kw)
    msgs = [M("Req", [e("v", "req", 1)]), M("Opt", [e("v", "opt", 2)]), M("Rep", [e("v", "rep", 3)]), M("One", [("o", [F("x", "bool", "one", 1), e("v", "one", 4)])]), M("Map", [e("v", "map", 1, key=F("k", "int32", "req", 1))])]
    g = File("enm", msgs, pre)
    get = {"Req": "m.v", "Opt": "m.v.value()", "Rep": "m.v.at(0)", "One": "std::get<2>(m.o)", "Map": "m.v.at(3)"}
    st = {"Req": "m.v = v;", "Opt": "m.v = v;", "Rep": "m.v.push_back(v);", "One": "m.o.template emplace<2>(v);", "Map": "m.v[3] = v;"}
    good = {n: v for n, v in ENUMS}
    cases = [('"%s"' % n, True, v) for n, v in ENUMS] + [(str(v), True, v) for v in sorted(set(good.values()))]
    cases += [('"%s"' % n, False, 0) for n in ("", "b", "A", "ZER", "ZEROO", "zero", "b\x20", "class_", "mixed_case", "bB", "aB", "En.ZERO", "5.", "ALIASALIASALIASALIAS")]
    cases += [(str(v), False, 0) for v in (7, -2, 2147483646, 2147483648, -2147483649, 4294967295, 4294967296, 4294967297, 18446744073709551616)] + [(t, False, 0) for t in ("true", "{}", "1.5", "x", "[0]", "1x", "-")]
    ct = "{%s}" % ", ".join("{%s, %s, %s}" % (cstr(t), "true" if k else "false", "int32_t(%du)" % (v & 0xffffffff)) for t, k, v in cases)
    for m in g.msgs:
        r = '#include "enm.pb.cc"\n#include "ref.h"\n#include "jnames.h"\nstatic const enum_case cases[] = %s;\n' % ct
        h, t = {"Rep": ('{"v":[', "]}"), "Map": ('{"v":{"3":', "}}")}.get(m.name, ('{"v":', "}"))
        r += jentry("enum", g, m, "enum_read<M>(cases, %s, %s, [](const M &m) { return int32_t(%s); });" % (cstr(h), cstr(t), get[m.name]))
        for n in range(0, 12) if w.tier == "thorough" else (0, 1, 2, 4, 5):
            r += jentry("any%d" % n, g, m, "enum_other<M>(%d, cases, %s, %s);" % (n, cstr(h), cstr(t)))
        for i, (n, v) in enumerate(ENUMS):
            first = [x for x, y in ENUMS if y == v][0]
            r += jentry("out%d" % i, g, m, "M m{}; const auto v = enm::En(int32_t(%du)); %s text_written(m, %s);" % (v & 0xffffffff, st[m.name], cstr(h + '"%s"' % first + t)))
        units.append((g, "enm_" + m.name, r))
    w.drivers(gen_units(w, units), "JSON names select exactly their field or enum value")
    return w.finish()


# ---------------------------------------------------------------------------------------------- J04, J08, J09
import re


def struct_files():
    """(file, message, sample text)"""
    e = lambda n, lab, num, **kw: mkfield(n, "enum", lab, num, **kw)
    sub = M("Sub", [F("a", "uint32", "opt", 1), F("b", "string", "opt", 2, maxlen=1)])
    s = lambda n, lab, num: F(n, "message", lab, num, type_name="Sub", sub=sub)
    A = M("A", [F("i", "int32", "req", 1), F("s", "string", "opt", 2), F("y", "bytes", "opt", 3), F("b", "bool", "opt", 4), e("e", "opt", 5), F("d", "double", "opt", 6), F("n", "string", "opt", 7)])
    B = M("B", [F("r", "uint32", "rep", 1), F("rs", "string", "rep", 2), F("fx", "uint32", "pk", 3, opts={"(spb_opt).repeated": '"std::array<$,2>"'}, fixed=2), F("rb", "bool", "rep", 4)])
    C = M("C", [s("m", "opt", 1), s("rm", "rep", 2), s("q", "req", 3)])
    D = M("D", [F("mp", "uint32", "map", 1, key=F("k", "string", "req", 1), opts={"(spb_opt).map": '"cont::map<$,@,4>"'}), F("ms", "message", "map", 2, type_name="Sub", sub=sub, key=F("k", "int32", "req", 1), opts={"(spb_opt).map": '"cont::map<$,@,4>"'})])
    E = M("E", [("o", [F("ob", "bool", "one", 1), s("om", "one", 2)]), F("z", "uint32", "opt", 3)])
    U = M("U", [F("i", "uint32", "opt", 1)])
    Z = M("Z", [])
    texts = {"A": r'{"i":-7,"s":"a\n","y":"AAE=","b":true,"e":"E_ONE","d":1.5,"n":null}', "B": '{"r":[1,2],"rs":["x","y"],"fx":[3,4],"rb":[true,false]}',
             "C": '{"m":{"a":1,"b":"x"},"rm":[{"a":2},{}],"q":{}}', "D": '{"mp":{"k":1,"l":2},"ms":{"3":{"a":4}}}', "E": '{"om":{"a":5},"z":7}',
             "U": r'{"u":[{"x":null,"y":[]},-1.5e+3,"\\\"q"],"i":3,"v":{"w":{},"t":true}}', "Z": '{"u":[1,{"x":false}]}'}
    return File("str_", [sub, A, B, C, D, E, U, Z], INC + INC.replace("cont.h", "array") + PRE), texts


def tokens(t):
    r = re.findall(r'"(?:\\.|[^"\\])*"|[{}\[\],:]|[^{}\[\],:"]+', t)
    assert "".join(r) == t
    return r


def arr(name, xs):
    return "static const char *const %s[] = {%s};" % (name, ", ".join(cstr(x) for x in xs))


def j04(w):
    f, texts = struct_files()
    units = []
    for m in f.msgs:
        if m.name not in texts:
            continue
        tk = tokens(texts[m.name])
        r = jhead(f, "jstruct.h")
        step = 12
        for i in range(0, len(tk) + 1, step):
            r += jentry("spaced%d" % i, f, m, arr("t", tk) + " spaced<M>(t, %d, %d, [](const M &a, const M &b) { eq_$M(a, b); });" % (i, min(i + step, len(tk) + 1)))
        step = 4
        for i in range(0, len(tk), step):
            r += jentry("broken%d" % i, f, m, arr("t", tk) + " broken<M>(t, %d, %d);" % (i, min(i + step, len(tk))))
        units += split_units(f, "str_" + m.name, r, 2)
    w.drivers(gen_units(w, units), "the structure of JSON is followed exactly")
    return w.finish()


VALUES = ["1", "-0", "-12.5e-7", "18446744073709551616", "1E+2", "true", "false", "null", '""', '"x"', r'"\"\\\/\b\f\n\r\t\u00e9\ud83d\ude00"', r'"\\"', r'"ends with a backslash\\"', '"]},{[:"', "[]", "{}", "[[],[[]],{}]", '[1,"a",null,true,{"i":9}]',
          '{"i":9,"v":{"i":8}}', '{"a":{"b":{"c":[{"d":[[[["e"]]]]}]}}}', '{ "x" : [ 1 , 2 ] , "y" : { } }', '"%s"' % ("long " * 60), "[%s]" % ",".join(["1"] * 40), '{"":""}', "123456789012345678901234567890", "1e999", "-1E-999", "0.1%s1" % ("0" * 60), "-%s.5e-0005" % ("9" * 290)]
BAD = ["", "]", "}", "[", "{", "[1", '{"a"', '{"a":', '{"a":1', "[1,]", '{"a":1,}', "[,1]", "[1 2]", '{"a" 1}', '{1:2}', "{,}", "tru", "truex", "nul", "nullx", "falsey", "True", "-", "+1", "x", "[1}", '{"a":1]', '"a', "[[]", "1 2", '"a" "b"', "{}{}", "'a'", "[x]", '{"a":x}', "/**/1",
       "inf", "-inf", "nan", "NaN", "INF", "Infinity", "-Infinity", "1.", "1.e2", "1e", "1e+", "-e1", ".5", "1.5.5", "1e5.5", "0x10", "--1", "-+1", "1-", "1e--1"]


def j08(w):
    f, texts = struct_files()
    units = []
    deep = w.tier == "thorough"
    for m in f.msgs:
        if m.name not in texts or m.name in ("U", "Z"):
            continue
        t = texts[m.name]
        parts = [p for p in re.split(r'(?<=\{)(?=["}])|(?=[,}](?:"|\}|,|$|\]))', t) if p]
        # places: behind '{', in front of ',' (between members) and '}'; not inside arrays and maps
        assert "".join(parts) == t
        r = jhead(f, "jstruct.h")
        good = []
        for i in range(len(parts) - 1):
            a, b = "".join(parts[:i + 1]), "".join(parts[i + 1:])
            if (a[-1] == "{" or b[0] in ",}") and inside_object(a) and not in_map(m, a):
                good.append(i)
        for i in good:
            a, b = "".join(parts[:i + 1]), "".join(parts[i + 1:])
            r += jentry("unknown%d" % i, f, m, arr("p", [a, b]) + arr("v", VALUES) + " unknown_member<M>(p, v, [](const M &a, const M &b) { eq_$M(a, b); }%s);" % (", true" if deep else ""))
        units += split_units(f, "unk_" + m.name, r, 3)
    V = M("V", [F("v", "uint32", "opt", 1)])
    W = M("W", [F("v", "uint32", "opt", 1), F("vv", "uint32", "opt", 2), F("a_long_name_of_a_field", "string", "opt", 3)])
    E = M("E", [])
    g = File("unk", [V, W, E])
    r = jhead(g, "jstruct.h")
    for m in (V, W):
        for key in (0, 1):
            for n in (range(1, 5) if deep else range(1, 4)):
                for pad in ("", "abcdefgh"):
                    r += jentry("string%d_%d_%d" % (key, n, len(pad)), g, m, "unknown_string<M>(%s, %d, %s, [](const M &a, const M &b) { eq_$M(a, b); });" % ("true" if key else "false", n, cstr(pad)))
    for m in (V, W, E):
        r += jentry("bad", g, m, arr("v", BAD) + " unknown_bad<M>(v);")
        r += jentry("alone", g, m, arr("p", ["{", "}"]) + arr("v", VALUES) + " unknown_member<M>(p, v, [](const M &a, const M &b) { eq_$M(a, b); });")
    units += split_units(g, "unk", r, 3)
    w.drivers(gen_units(w, units), "unknown members are skipped")
    return w.finish()


def inside_object(a):
    """is the position behind the text a directly inside an object"""
    st, q, e = [], False, False
    for c in a:
        if q:
            if e:
                e = False
            elif c == "\\":
                e = True
            elif c == '"':
                q = False
        elif c == '"':
            q = True
        elif c in "{[":
            st.append(c)
        elif c in "}]":
            st.pop()
    return not q and st and st[-1] == "{"


def in_map(m, a):
    """directly inside the object of a map"""
    if m.name != "D":
        return False
    st = 0
    for c in a:
        st += c == "{"
        st -= c == "}"
    return st == 2


def j09(w):
    f, texts = struct_files()
    units = []
    deep = w.tier == "thorough"
    for m in f.msgs:
        if m.name not in texts:
            continue
        r = jhead(f, "jstruct.h")
        r += jentry("cut", f, m, "cut<M>(%s);" % cstr(texts[m.name]))
        units.append((f, "cut_" + m.name, r))
    kinds = [("int32", {}), ("uint64", {}), ("double", {}), ("bool", {}), ("enum", {}), ("string", {}), ("bytes", {}), ("message", {})]
    for lab in ("opt", "rep", "one", "map", "fix", "arr"):
        msgs, r = [SUB], ""
        for k, o in kinds:
            x = None
            if lab == "map":
                x = mkfield("v", k, "map", 2, key=F("k", "int32", "req", 1))
            elif lab == "one":
                x = ("o", [F("x", "bool", "one", 1), mkfield("v", k, "one", 2)])
            elif lab == "fix":
                if k in ("string", "bytes"):
                    x = mkfield("v", k, "req", 2, opts={"(spb_opt).%s" % k: '"std::array<$,2>"'}, fixed=2)
            elif lab == "arr":
                if k not in ("string", "bytes", "message", "enum"):
                    x = mkfield("v", k, "pk", 2, opts={"(spb_opt).repeated": '"std::array<$,2>"'}, fixed=2)
            else:
                x = mkfield("v", k, lab, 2)
            if x is None:
                continue
            msgs.append(M("M_" + k, [x]))
        g = File("any_" + lab, msgs, INC + INC.replace("cont.h", "array") + PRE)
        r = '#include "any_%s.pb.cc"\n#include "ref.h"\n#include "jstruct.h"\n' % lab
        for m in msgs[1:]:
            k = m.name[2:]
            heads = {"opt": ['{"v":'], "one": ['{"v":'], "fix": ['{"v":'], "rep": ['{"v":['], "arr": ['{"v":[1,', '{"v":['], "map": ['{"v":{"1":', '{"v":{']}[lab]
            if k in ("string", "bytes"):
                heads = heads + [heads[0] + '"']
            if k == "string":
                heads.append(heads[0] + '"\\')
            if k == "bytes":
                heads.append(heads[0] + '"AA')
            if k == "message":
                heads = heads + [heads[0] + '{"b":']
            for i, h in enumerate(heads):
                for n in ((2, 3) if not deep else (2, 3, 4)):
                    if n >= 3 and lab not in ("opt", "fix", "map") and not deep:
                        continue
                    r += jentry("tail%d_%d" % (i, n), g, m, "any_tail<M>(%s, %d, __ai_pick(\"reader\", 2));" % (cstr(h), n))
        units += split_units(g, "any_" + lab, r, 3)
    m = M("V", [F("v", "uint32", "opt", 1)])
    g = File("top", [m])
    r = '#include "top.pb.cc"\n#include "ref.h"\n#include "jstruct.h"\n'
    for i, h in enumerate(["", "{", '{"', '{"v"', '{"\\', '{"\\u', '{"u":', '{"u":[', '{"u":{', '{"u":"', '{"u":"\\', '{"v":1', '{"v":1,', '{"u":n', '{"u":t', '{"u":-']):
        for n in (1, 2, 3):
            if n <= 2 or i < 8 or deep:
                r += jentry("tail%d_%d" % (i, n), g, m, "any_tail<M>(%s, %d, __ai_pick(\"reader\", 2));" % (cstr(h), n))
    units += split_units(g, "top", r, 4)
    w.drivers(gen_units(w, units), "any text is decoded within its bounds and in finite time")
    return w.finish()


def j10(w):
    body = """
  M m{}; %s
  const size_t n = spb::json::serialize_size(m);
  const size_t r = spb::json::serialize(m, spb::io::writer(ref::log_writer{0}));
  __ai_assert(n == __ai_log_size(0), "predicted size and bytes written to the writer");
  __ai_assert(r == n, "size returned with the writer");
  auto *buf = new uint8_t[__ai_split(n)];
  const size_t r2 = spb::json::serialize(m, (void *)buf);
  __ai_assert(r2 == n, "size returned with the buffer");
  if (n) __ai_log(1, buf, n);
  __ai_assert_logs(0, 1, "bytes in the buffer and bytes of the writer");
  std::string c("abc");
  const size_t r3 = spb::json::serialize(m, c);
  __ai_assert(r3 == n && c.size() == n, "size of the container");
  if (n) __ai_log(2, c.data(), c.size());
  __ai_assert_logs(0, 2, "bytes in the container and bytes of the writer");
  __ai_cover("done");"""
    units = []
    for f in json_files():
        r = jhead(f, few=f.name in ("multi", "maps", "s_rep", "s_pk"))
        for m in f.msgs:
            if m.name != "Sub":
                r += jentry("size", f, m, body % "mk_$M(m);")
        units += split_units(f, f.name, r, 2)
    f = recur()
    units.append((f, "recur", jhead(f) + "".join(jentry("size", f, m, body % "mk_$M(m);") for m in f.msgs)))
    f, sets, _ = text_file()
    r = '#include "txt.pb.cc"\n#include "ref.h"\n#include "jtext.h"\n'
    for m in f.msgs:
        for cls in range(5):
            if m.name.startswith("Fix") and cls not in {"Fix1": (0,), "Fix2": (1, 2), "Fix3": (3,), "Fix4": (4,)}[m.name]:
                continue
            r += jentry("text%d" % cls, f, m, "uint8_t t[8]; const size_t k = any_utf8(t, %d); " % cls + body % ("[&](M &m, const uint8_t *p, size_t n) { %s }(m, t, k);" % sets[m.name]))
    units += split_units(f, "txt", r, 4)
    w.drivers(gen_units(w, units), "size computation and every JSON output form agree")
    return w.finish()


# ---------------------------------------------------------------------------------------------- J06
LIMIT = {"int32": (-(1 << 31), (1 << 31) - 1), "int64": (-(1 << 63), (1 << 63) - 1), "uint32": (0, (1 << 32) - 1), "uint64": (0, (1 << 64) - 1)}
for _a, _b in (("sint32", "int32"), ("sfixed32", "int32"), ("sint64", "int64"), ("sfixed64", "int64"), ("fixed32", "uint32"), ("fixed64", "uint64")):
    LIMIT[_a] = LIMIT[_b]
CT_LIMIT = {"%sint%d" % (u, w): (0, (1 << w) - 1) if u else (-(1 << w - 1), (1 << w - 1) - 1) for w in (8, 16, 32, 64) for u in ("", "u")}
NOT_INT = ["", "-", "+1", "x", "1x", "--1", "1-", "0x10", "1.5", "-2.25", "1e-1", "true", "{}", "[]", '[1]', "NaN", "Infinity", "1 2", "1_000", "1,2", "null1"]


def places(m):
    """where the value stands in the message's JSON; the second form is a text in quotes"""
    f = m.fields[0]
    f = f[1][-1] if isinstance(f, tuple) else f
    if f.label == "map" and m.name.startswith("Key"):
        return [('{"v":{"', '":true}}'), ('{ "v" : { "', '" : true } }')]
    h, t = {"rep": ('{"v":[', "]}"), "pk": ('{"v":[', "]}"), "map": ('{"v":{"true":', "}}")}.get(f.label, ('{"v":', "}"))
    return [(h, t), (h + " ", "\t" + t), (h + '"', '"' + t)]


def lit_messages(k, ct=None):
    """(message, expression of the value)"""
    o = dict(ctype=ct) if ct else {}
    n = (ct or k)
    r = [(M("Req_" + n, [F("v", k, "req", 1, **o)]), "m.v"), (M("Opt_" + n, [F("v", k, "opt", 2, **o)]), "m.v.value()"), (M("Rep_" + n, [F("v", k, "rep", 3, **o)]), "m.v.at(0)"),
         (M("One_" + n, [("o", [F("x", "bool", "one", 1), F("v", k, "one", 4, **o)])]), "std::get<2>(m.o)"), (M("Map_" + n, [F("v", k, "map", 5, key=F("k", "bool", "req", 1), **o)]), "m.v.at(true)")]
    if k not in ("bytes", "string", "float", "double", "message", "enum") and not ct:
        r.append((M("Key_" + n, [F("v", "bool", "map", 6, key=F("k", k, "req", 1))]), "m.v.begin()->first"))
    return r


def ptable(ps):
    return "static const place ps[] = {%s};" % ", ".join("{%s, %s}" % (cstr(a).replace("\t", "\\t"), cstr(b).replace("\t", "\\t")) for a, b in ps)


def ctable(cs):
    return "static const lit_case cs[] = {%s};" % ", ".join("{%s, %s, %dull}" % (cstr(t), "true" if k else "false", v & ((1 << 64) - 1)) for t, k, v in cs)


def j06(w):
    deep = w.tier == "thorough"
    units = []
    kinds = [(k, None) for k in LIMIT] + [("int32", c) for c in ("int8", "int16")] + [("uint32", c) for c in ("uint8", "uint16")] + [("int64", c) for c in ("int8", "int16")] + [("uint64", "uint8")]
    seen = set()
    for k, ct in kinds:
        name = "%s_%s" % (k, ct or "")
        msgs = lit_messages(k, ct)
        if ct:
            msgs = [x for x in msgs if x[0].name[:3] in ("Req", "Rep", "Opt")]
        f = File("l_" + name.strip("_"), [m for m, _ in msgs])
        lo, hi = CT_LIMIT[ct] if ct else LIMIT[k]
        cand = {lo - 1, lo, lo + 1, -1, 0, 1, hi - 1, hi, hi + 1, 2 * hi + 1, 2 * hi + 2, 9, 10, -10, 99, 100, 101, hi // 10, hi // 10 * 10, hi // 10 * 10 + 10, hi * 10, 10 ** 19, 10 ** 20, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, -(1 << 63), -(1 << 63) - 1, 1 << 32, (1 << 32) + 1, -(1 << 31) - 1, -(1 << 32), 10 ** 30, -10 ** 28}
        cs = [(str(v), lo <= v <= hi, v) for v in sorted(cand)] + [(t, False, 0) for t in NOT_INT]
        r = '#include "%s.pb.cc"\n#include "ref.h"\n#include "jlit.h"\n' % f.name
        for m, get in msgs:
            ps = places(m)
            key = m.name.startswith("Key")
            g = "[](const M &m) { return %s; }" % get
            r += jentry("listed", f, m, ptable(ps) + ctable(cs if not (key or m.name.startswith("Rep")) else [c for c in cs if c[0] not in ("", "1,2")]) + " listed<M>(cs, ps, %s);" % g)
            for i, p_ in enumerate(ps[:1] if key else (ps[0], ps[2])):
                r += jentry("garbage%d" % i, f, m, ptable([p_]) + ' garbage<M>("7", ps[0], true);')
            for n in (1, 2, 3) if deep else (2,):
                for i, p_ in enumerate(ps[:1] if key else (ps[0], ps[2])):
                    if not deep and (k not in ("int32", "uint64", "sint64") or ct) and not m.name.startswith("Req"):
                        continue
                    r += jentry("any%d_%d" % (n, i), f, m, ptable([p_]) + "any_int<M>(%d, ps[0], %s, %d, %d, %s);" % (n, "true" if lo < 0 else "false", max(lo, -9999), min(hi, 9999), g))
            if ct in ("int8", "uint8") and (deep or (k[-2:] == "32" and m.name.startswith("Req"))):
                for i in (0, 2):
                    r += jentry("byte_%d" % i, f, m, ptable([ps[i]]) + "any_int<M>(3, ps[0], %s, %d, %d, %s);" % ("true" if lo < 0 else "false", max(lo, -9999), min(hi, 9999), g))
        units += split_units(f, f.name, r, 2 if not ct else 1)
    # bool
    msgs = lit_messages("bool")
    f = File("l_bool", [m for m, _ in msgs])
    r = '#include "l_bool.pb.cc"\n#include "ref.h"\n#include "jlit.h"\n'
    cs = [("true", True, 1), ("false", True, 0)] + [(t, False, 0) for t in ("1", "0", "True", "FALSE", "tru", "truee", "falsetrue", "yes", "{}", "[]", "2", "-1", "t", "f", "nulltrue", "true false")]
    for m, get in msgs:
        ps = [p for p in places(m)[:2]]
        g = "[](const M &m) { return bool(%s); }" % get
        r += jentry("listed", f, m, ptable(ps) + ctable(cs) + " listed<M>(cs, ps, %s);" % g)
        for t in ("true", "false"):
            r += jentry("garbage_" + t, f, m, ptable(ps[:1]) + ' garbage<M>("%s", ps[0], false);' % t)
        for n in range(1, 8 if deep else 7):
            r += jentry("any%d" % n, f, m, ptable(ps[:1]) + "any_bool<M>(%d, ps[0], %s);" % (n, g))
    units += split_units(f, f.name, r, 3)
    # other types: a value of another type is rejected
    other = {"string": ["7", "true", "[]", "{}", "x", '"a', '"a"b', '"a""b"', "'a'", '["a"]', "nulla"], "bytes": ["7", "true", "[]", "{}", "x", '"AA==', '"AA=="b', '["AA=="]', "nullA"],
             "message": ["7", "true", "[]", '"x"', '"{}"', "[{}]", "x", "{", "null{}"], "enum": ["true", "{}", "[]", "[1]", '"E_ONE', "1.5", '"E_ONE"1'],
             "double": ["true", "[]", "{}", '"x"', '"1x"', "x", "[1.5]", '"1.5', "1.5.5", "-", "e5", '""', '"-"'], "float": ["true", "[]", "{}", '"x"', '"1x"', "x", "[1.5]", '"1.5', "1.5.5", "-", "e5", '""', '"-"']}
    for k, ts in other.items():
        msgs = [(M("Req_" + k, [mkfield("v", k, "req", 1)]), ""), (M("Opt_" + k, [mkfield("v", k, "opt", 2)]), ""), (M("Rep_" + k, [mkfield("v", k, "rep", 3)]), ""),
                (M("One_" + k, [("o", [F("x", "bool", "one", 1), mkfield("v", k, "one", 4)])]), ""), (M("Map_" + k, [mkfield("v", k, "map", 5, key=F("k", "bool", "req", 1))]), "")]
        f = File("l_" + k, [m for m, _ in msgs] + [M("Sub", [F("a", "uint32", "opt", 1), F("b", "string", "opt", 2, maxlen=1)])], PRE)
        r = '#include "l_%s.pb.cc"\n#include "ref.h"\n#include "jlit.h"\n' % k
        cs = [(t, False, 0) for t in ts]
        for m, _ in msgs:
            ps = places(m)[:2]
            r += jentry("listed", f, m, ptable(ps) + ctable(cs) + " listed<M>(cs, ps, [](const M &) { return 0; });")
            # and the structure around it
            lab = m.name[:3]
            if lab == "Rep":
                r += jentry("outer", f, m, 'static const place ps[] = {{"{\\"v\\":", "}"}};' + ctable([(t, False, 0) for t in ["7", "true", "{}", '"x"', "[", "]", "x", '{"0":%s}' % TEXT1.get(k, "7")]]) + " listed<M>(cs, ps, [](const M &) { return 0; });")
            if lab == "Map":
                r += jentry("outer", f, m, 'static const place ps[] = {{"{\\"v\\":", "}"}};' + ctable([(t, False, 0) for t in ["7", "true", "[]", '"x"', "{", "]", "x", "[{}]", '{true:%s}' % TEXT1.get(k, "7"), '{"true"}', '{"true",%s}' % TEXT1.get(k, "7")]]) + " listed<M>(cs, ps, [](const M &) { return 0; });")
        units.append((f, "l_" + k, r))
    # floating point numbers and their names
    import struct
    for k in ("float", "double"):
        msgs = lit_messages(k)
        f = File("v_" + k, [m for m, _ in msgs])
        fm = "<f" if k == "float" else "<d"
        b = lambda v: int.from_bytes(struct.pack(fm, v), "little")
        inf, nan = float("inf"), float("nan")
        good = [("0", 0.0), ("-0", -0.0), ("1", 1.0), ("-1.5", -1.5), ("1e3", 1000.0), ("1E+3", 1000.0), ("25e-2", 0.25), ("-2.5e-1", -0.25), ("0.1", 0.1), ("16777217", 16777217.0), ("123456789012345678901234567890", 123456789012345678901234567890.0), ("1.7976931348623157e308" if k == "double" else "3.4028234e38", 1.7976931348623157e308 if k == "double" else 3.4028234e38)]
        cs = [(t, True, b(v)) for t, v in good] + [("1e309", False, 0), ("-1e999", False, 0)]
        if k == "float":
            cs += [("1e39", False, 0), ("-3.5e38", False, 0)]
        names = [("\"NaN\"", True, 1 << 63), ("\"Infinity\"", True, b(inf)), ("\"-Infinity\"", True, b(-inf))]
        r = '#include "%s.pb.cc"\n#include "ref.h"\n#include "jlit.h"\n' % f.name
        for m, get in msgs:
            ps = places(m)
            # one bit pattern for every NaN
            g = "[](const M &m) { const %s v = %s; if (v != v) return uint64_t(1) << 63; return uint64_t(std::bit_cast<%s>(v)); }" % (k, get, "uint32_t" if k == "float" else "uint64_t")
            r += jentry("listed", f, m, ptable(ps) + ctable(cs) + " listed<M>(cs, ps, %s);" % g)
            r += jentry("names", f, m, ptable(ps[:2]) + ctable(names) + " listed<M>(cs, ps, %s);" % g)
            for i in (0, 2):
                r += jentry("garbage%d" % i, f, m, ptable([ps[i]]) + ' garbage<M>("7", ps[0], true);')
        units.append((f, f.name, r))
    w.drivers(gen_units(w, units), "numbers and literals are accepted exactly if they are of the field's type and range")
    return w.finish()


def chunk_units(w):
    """JSON through readers (W07)"""
    deep = w.tier == "thorough"
    f, texts = struct_files()
    texts = dict(texts)
    texts["A"] = r'{"i":-7,"s":"a\n\ud83d\ude00\u00e9x","y":"AAECAwQFBgc=","b":true,"e":"E_ONE","d":1.5,"n":null}'
    texts["U"] = r'{"u":[{"x":null,"y":[]},-1.5e+3,"\\\"q"],"i":3,"v":{"w":{},"t":true}}'
    units = []
    eq = "[](const M &a, const M &b) { eq_$M(a, b); }"
    for m in f.msgs:
        if m.name not in texts:
            continue
        t, r = texts[m.name], jhead(f, "jchunk.h")
        n = len(t)
        for white in (0, 1):
            # every character of the text at the end of the internal buffer
            lo, hi = 256 - n - (0 if white else 14) - 2, 258 - (0 if white else 12)
            step = 30
            for a in range(lo, hi, step):
                r += jentry("boundary%d_%d" % (white, a), f, m, "json_chunked<M>(%s, %d, %d, %s, false, %s, %s);" % (cstr(t), a, min(a + step, hi), "true" if white else "false", "true" if deep else "false", eq))
        for a in (0, 256 - n - 13, 256 - n // 2 - 12):
            r += jentry("cut%d" % a, f, m, "json_chunked<M>(%s, %d, %d, false, true, false, %s);" % (cstr(t), a, a + 1, eq))
        units += split_units(f, "chunkj_" + m.name, r, 2)
    # texts longer than the internal buffer
    A = [x for x in f.msgs if x.name == "A"][0]
    r = jhead(f, "jchunk.h")
    for i, t in enumerate(('{"s":"%s"}' % ("abcdefg" * 60), '{"y":"%s"}' % ("AAEC" * 100), '{"y":"%s"}' % ("AAEC" * 100 + "AQ=="), '{"u%s":1,"i":3}' % ("key" * 100), r'{"s":"%s"}' % ("\\n" * 200), '{"i":1%s,"b":true}' % (" " * 300))):
        r += jentry("long%d" % i, f, A, "json_chunked<M>(%s, 0, 6, true, false, true, %s);" % (cstr(t), eq))
    units += split_units(f, "chunkj_long", r, 2)
    # the end of the buffer at every place of a long element
    r = jhead(f, "jchunk.h")
    tail = r"""\\\"\u00e9\ud83d\ude00\n/","""
    for i, (pre, fill, suf) in enumerate((('{"zz":"', "xy", tail + '"i":3}'), ('{"s":"', "xy", tail + '"i":3}'), ('{"', "k", r'\\\"\u0041\/":"\"","i":3}'), ('{"zz":', " ", r'[1,{"a":null,"b":"\\"}],"i":3}'),
                                         ('{"zz":[', "1", '.5e+10,-2,true,false,null],"i":3}'), ('{"y":"', "AAECAAEC", 'AQ==","i":3}'), ('{"i"', " ", ':-12 , "b" : true , "e":"E_ONE"}'), ('{"d":', " ", '-1.25e2,"n":null,"b":false}'))):
        n = len(suf)
        step = 8
        lo, hi = (24, 34) if len(fill) == 8 else (256 - n - len(pre) - 1, 258)
        for a in range(lo, hi, step):
            r += jentry("inside%d_%d" % (i, a), f, A, "json_inside<M>(%s, %s, %s, %d, %d, %s, %s);" % (cstr(pre), cstr(fill), cstr(suf), a, min(a + step, hi), "true" if deep else "false", eq))
    units += split_units(f, "chunkj_inside", r, 4)
    # what may be accepted or not (long numbers, long names), but the same way
    r = jhead(f, "jchunk.h")
    for i, (pre, fill, suf) in enumerate((('{"i":', "0", '7,"b":true}'), ('{"i":"', "0", '7","b":true}'), ('{"i":-', "0", '7}'), ('{"d":', "0", '1.5,"b":true}'), ('{"d":0.', "0", '1e5}'), ('{"d":"1.', "0", '"}'), ('{"d":1', "0", 'e-9}'),
                                         ('{"e":"', "E", '"}'), ('{"e":', "0", "}"), ('{"b":tr', "u", 'e}'), ('{"zz":', "7", ',"i":1}'), ('{"zz":nul', "l", '}'))):
        for a in (24,):
            r += jentry("alike%d_%d" % (i, a), f, A, "json_inside<M>(%s, %s, %s, %d, %d, %s, %s, false);" % (cstr(pre), cstr(fill), cstr(suf), a, a + 12, "true" if deep else "false", eq))
    units += split_units(f, "chunkj_alike", r, 2)
    return units
