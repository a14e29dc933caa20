"""Checks of the protobuf codec (W..)."""
from core import *
from corpus import *
import corpus

HEAD = '#include "%s.pb.cc"\n#include "ref.h"\n%s\n'


def per_message(f, body, names=None):
    """one entry per message of the file; body uses M (type), $M (reference name)"""
    r = HEAD % (f.name, f.ref())
    for m in f.msgs:
        if names and m.name not in names:
            continue
        if m.name == "Sub":
            continue
        n = m.name.replace(".", "_")
        r += 'extern "C" void ai_%s_%s() { using M = %s::%s; %s }\n' % (f.name, n, f.ns, m.name.replace(".", "::"), body.replace("$M", n))
    return r


def run_per_message(w, files, body, rule, need=("done",), more=()):
    units = gen_units(w, list(more))
    ok = pmap(lambda f: w.gen_file(f), files)
    for f, d in zip(files, ok):
        if d:
            units.append((w.prop.lower() + "_" + f.name, per_message(f, body)))
    w.drivers(units, rule, need)


def enc_files():
    fs = [scalars(l) for l in ("req", "opt", "rep", "pk", "one")]
    return fs + [ints(), bits(), cont(), fixed(), maps(2), multi(), proto3(), recur()]



def big_file():
    """bytes held by a view: lengths up to four gigabytes without the content"""
    o = {"(spb_opt).bytes": '"cont::view"'}
    leaf = M("Leaf", [F("v", "bytes", "req", 1, opts=o)])
    msgs = [leaf, M("Opt", [F("v", "bytes", "opt", 300, opts=o)]), M("Rep", [F("v", "bytes", "rep", 4, opts=o)]),
            M("One", [("o", [F("x", "bool", "one", 1), F("v", "bytes", "one", 2, opts=o)])]),
            M("Sub1", [F("s", "message", "opt", 5, type_name="Leaf", sub=leaf)]), M("Sub2", [F("s", "message", "rep", 16, type_name="Leaf", sub=leaf)]),
            M("Map", [F("m", "message", "map", 3, type_name="Leaf", sub=leaf, key=F("key", "bool", "req", 1), opts={"(spb_opt).map": '"cont::map<$,@,4>"'})])]
    return File("big", msgs, INC)


def big_units(call):
    f = big_file()
    get = {"Leaf": "m.v", "Opt": "m.v.emplace()", "Rep": "m.v.emplace_back()", "One": "m.o.emplace<2>()", "Sub1": "m.s.emplace().v", "Sub2": "m.s.emplace_back().v", "Map": "m.m[true].v"}
    text = "{ ref::tag(ch, %d, 2); ref::text(ch, %s); }"
    sub = "{ ref::tag(ch, %d, 2); ref::delimited(ch, 10, [&](int s) { %sref::tag(s, %d, 2); %s }); }"
    put = {"Leaf": text % (1, "m.v"), "Opt": text % (300, "*m.v"), "Rep": text % (4, "m.v[0]"), "One": text % (2, "std::get<2>(m.o)"),
           "Sub1": sub % (5, "", 1, "ref::text(s, m.s->v);"), "Sub2": sub % (16, "", 1, "ref::text(s, m.s[0].v);"),
           "Map": sub % (3, "ref::tag(s, 1, 0); ref::byte(s, 1); ", 2, "ref::delimited(s, 11, [&](int t) { ref::tag(t, 1, 2); ref::text(t, m.m.begin()->second.v); });")}
    r = '#include "big.pb.cc"\n#include "ref.h"\n#include "big.h"\n'
    for m in f.msgs:
        r += 'extern "C" void ai_big_%s() { using M = big::%s; M m{}; long_bytes(%s); %s(m, [](int ch, const M &m) %s); }\n' % (m.name, m.name, get[m.name], call, put[m.name])
    return [(f, "big", r)]


def w01(w):
    body = """
  M m{}; mk_$M(m);
  spb::pb::serialize(m, spb::io::writer(ref::log_writer{0}));
  ref_$M(1, 10, m);
  __ai_assert_logs(0, 1, "bytes written");
  __ai_cover("done");"""
    run_per_message(w, enc_files(), body, "the encoder emits exactly the wire format's bytes", more=big_units("big_output"))
    return w.finish()


def w02(w):
    body = """
  M m{}; mk_$M(m);
  const size_t n = spb::pb::serialize_size(m);
  const size_t r = spb::pb::serialize(m, spb::io::writer(ref::log_writer{0}));
  __ai_assert(n == __ai_log_size(0), "predicted size and bytes written to the writer");
  __ai_assert(r == n, "size returned with the writer");
  auto *buf = new uint8_t[__ai_split(n)];
  const size_t r2 = spb::pb::serialize(m, (void *)buf);
  __ai_assert(r2 == n, "size returned with the buffer");
  if (n) __ai_log(1, buf, n);
  __ai_assert_logs(0, 1, "bytes in the buffer and bytes of the writer");
  std::vector<std::byte> c(3);
  const size_t r3 = spb::pb::serialize(m, c);
  __ai_assert(r3 == n && c.size() == n, "size of the container");
  if (n) __ai_log(2, c.data(), c.size());
  __ai_assert_logs(0, 2, "bytes in the container and bytes of the writer");
  __ai_cover("done");"""
    run_per_message(w, enc_files(), body, "size computation and every output form agree", more=big_units("big_output"))
    return w.finish()


def w03(w):
    body = """
  M m{}; mk_$M(m);
  spb::pb::serialize(m, spb::io::writer(ref::log_writer{0}));
  uint8_t buf[128];
  const size_t n = __ai_log_get(0, buf, sizeof buf);
  M r{};
  bool ok = true;
  size_t used = 0;
  try { used = spb::pb::deserialize(r, buf, n); } catch (...) { ok = false; }
  __ai_assert(ok, "the encoded message is accepted");
  if (ok) { __ai_assert(used == n, "everything is consumed"); eq_$M(m, r); }
  __ai_cover("done");"""
    fs = [f if f.name != "maps" else maps(1) for f in enc_files()]
    run_per_message(w, fs, body, "decoding an encoded message gives an equal message")
    return w.finish()


def all_files():
    return [f if f.name != "maps" else maps(1) for f in enc_files()]


def gen_units(w, units):
    """units: [(File, name, text)]: generates the code of the schemas, then analyses the drivers"""
    pmap(lambda f: w.gen_file(f), list({f.name: f for f, n, t in units}.values()))
    return [(w.prop.lower() + "_" + n, t) for f, n, t in units]


def cpp_type(f):
    return f.cpp


# ---------------------------------------------------------------------------------------------- W04
VARINT_KIND = VARINT + ["bool", "enum"]


def w04(w):
    body = """
  M m{}; mk_$M(m);
  ref_$M(0, 10, m);
  uint8_t buf[128];
  const size_t n = __ai_log_get(0, buf, sizeof buf);
  M r{};
  bool ok = true;
  try { spb::pb::deserialize(r, buf, n); } catch (...) { ok = false; }
  __ai_assert(ok, "a well formed message is accepted");
  if (ok) eq_$M(m, r);
  __ai_cover("done");"""
    units = []
    for f in all_files():
        units.append((f, f.name, per_message(f, body)))
    # any varint, minimal or not
    for f, pick in ((scalars("req"), lambda m: m.name[2:] in VARINT_KIND), (ints(), lambda m: m.name[0] == "M" and m.fields[0].kind in VARINT)):
        r = HEAD % (f.name, f.ref())
        for m in f.msgs:
            if not m.name.startswith("M_") or not pick(m):
                continue
            fl = m.fields[0]
            r += 'extern "C" void ai_any_%s() { varint_any<%s::%s, ref::%s>(%d, [](auto &m) -> auto & { return m.%s; }); }\n' % (m.name, f.ns, m.name, fl.kind.upper(), fl.num, fl.name)
        units.append((f, f.name + "_any", r.replace('#include "ref.h"', '#include "ref.h"\n#include "varint_any.h"')))
    # any fixed size value for every C++ type
    f = ints()
    r = (HEAD % (f.name, f.ref())).replace('#include "ref.h"', '#include "ref.h"\n#include "varint_any.h"')
    for m in f.msgs:
        fl = m.fields[0]
        if fl.kind not in FIXED:
            continue
        for x in m.fields:
            get = {"req": "m.%s", "opt": "*m.%s"}.get(x.label, "m.%s.at(0)") % x.name
            for pk in ((0, 1) if x.label in ("rep", "pk") else (0,)):
                r += 'extern "C" void ai_fixed_%s_%s%d() { fixed_any<%s::%s, ref::%s>(%d, %d, [](auto &m) { return %s; }); }\n' % (m.name, x.name, pk, f.ns, m.name, fl.kind.upper(), x.num, pk, get)
    units.append((f, f.name + "_fixed", r))
    # packed data for unpacked fields and the reverse, single values repeated
    alt = """
  M m{}; mk_$M(m);
  %s
  uint8_t buf[128];
  const size_t n = __ai_log_get(0, buf, sizeof buf);
  M r{};
  bool ok = true;
  try { spb::pb::deserialize(r, buf, n); } catch (...) { ok = false; }
  __ai_assert(ok, "the other form of a repeated field is accepted");
  if (ok) eq_$M(m, r);
  __ai_cover("done");"""
    for lab in ("rep", "pk"):
        f = scalars(lab)
        f2 = File(f.name, [m for m in f.msgs if m.name[2:] in NUMERIC + ["enum"]], f.pre)
        r = HEAD % (f.name, f.ref())
        for m in f2.msgs:
            fl = m.fields[0]
            if lab == "rep":
                put = "ref::packed<%s>(0, 10, %d, m.v);" % (K(fl.kind), fl.num)
            else:
                put = "for (size_t i = 0; i < m.v.size(); i++) { const auto &v = m.v[i]; ref::field<%s>(0, %d, v); }" % (K(fl.kind), fl.num)
            r += 'extern "C" void ai_alt_%s_%s() { using M = %s::%s; %s }\n' % (f.name, m.name, f.ns, m.name, (alt % put).replace("$M", m.name))
        units.append((f, f.name + "_alt", r))
    # the last value of a singular field wins
    f = scalars("opt")
    r = HEAD % (f.name, f.ref())
    for m in f.msgs:
        if m.name == "Sub" or m.name == "M_message":
            continue
        r += 'extern "C" void ai_last_%s() { using M = %s::%s; %s }\n' % (m.name, f.ns, m.name, """
  M m{}, m2{}; mk_$M(m); mk_$M(m2); __ai_assume(m2.v.has_value());
  ref_$M(0, 10, m); ref_$M(0, 10, m2);
  uint8_t buf[128];
  const size_t n = __ai_log_get(0, buf, sizeof buf);
  M r{};
  bool ok = true;
  try { spb::pb::deserialize(r, buf, n); } catch (...) { ok = false; }
  __ai_assert(ok, "a repeated singular field is accepted");
  if (ok) eq_$M(m2, r);
  __ai_cover("done");""".replace("$M", m.name))
    units.append((f, f.name + "_last", r))
    # messages are merged
    for f, n, get in ((scalars("req"), "M_message", "r.v"), (scalars("opt"), "M_message", "*r.v"), (scalars("one"), "M_message", "std::get<2>(r.o)"), (cont(), "OPT_message", "*r.v")):
        m = [x for x in f.msgs if x.name == n][0]
        r = head(f, "fields.h") + entry("merge", f, m, "using S = %s::Sub; merges<M, S>(%d, [](S &s) { mk_Sub(s); }, [](int ch, const S &s) { ref_Sub(ch, 10, s); }, [](const S &a, const S &b) { eq_Sub(a, b); }, [](M &r) -> S & { return %s; });" % (f.ns, single(m).num, get))
        units.append((f, f.name + "_merge", r))
    f = choices()
    m = f.msgs[-1]
    r = head(f, "fields.h")
    for i, x in enumerate(m.fields[0][1]):
        if x.kind == "message":
            r += entry("merge%d" % i, f, m, "using S = %s::Sub; merges<M, S>(%d, [](S &s) { mk_Sub(s); }, [](int ch, const S &s) { ref_Sub(ch, 10, s); }, [](const S &a, const S &b) { eq_Sub(a, b); }, [](M &r) -> S & { return std::get<%d>(r.o); });" % (f.ns, x.num, i + 1))
    units.append((f, f.name + "_merge", r))
    f = recur()
    r = head(f) + """
extern "C" void ai_merge_node() {
  recur::Node a{}, b{}; mk_Node(a, 1); mk_Node(b, 1);
  for (const auto *p : {&a, &b}) { ref::tag(0, 1, 2); ref::delimited(0, 9, [&](int ch) { ref_Node(ch, 10, *p); }); }
  if (!b.x) b.x = a.x;
  if (a.next) { if (!b.next) b.next = std::move(a.next); else if (!b.next->x) b.next->x = a.next->x; }
  uint8_t buf[64]; const size_t n = __ai_log_get(0, buf, sizeof buf);
  recur::Node r{};
  bool ok = true;
  try { spb::pb::deserialize(r, buf, n); } catch (...) { ok = false; }
  __ai_assert(ok, "a repeated submessage is accepted");
  if (ok) { __ai_assert(!!r.next, "present"); if (r.next) eq_Node(b, *r.next); }
  __ai_cover("done");
}
"""
    units.append((f, f.name + "_merge", r))
    w.drivers(gen_units(w, units), "the decoder gives the value the wire format defines")
    return w.finish()


DECODE = """
  M r{};
  bool ok = true;
  try { spb::pb::deserialize(r, buf, n); } catch (...) { ok = false; }
"""


def w05(w):
    """wire types, tags and unknown fields"""
    units = []
    # a known field with another wire type
    for f in [scalars(l) for l in ("req", "opt", "rep", "pk", "one")] + [maps(1), fixed()]:
        r = (HEAD % (f.name, f.ref())).replace('#include "ref.h"', '#include "ref.h"\n#include "fields.h"')
        for m in f.msgs:
            if m.name == "Sub" or m.name.startswith(("D_", "N_")):
                continue
            fl = m.fields[0] if not isinstance(m.fields[0], tuple) else m.fields[0][1][1]
            ok = {2} if fl.label == "map" else {wire_type(fl.kind)}
            if fl.label in ("rep", "pk") and fl.kind not in ("string", "bytes", "message"):
                ok = {wire_type(fl.kind), 2}
            good = "".join("1" if i in ok else "0" for i in reversed(range(8)))
            r += 'extern "C" void ai_wt_%s_%s() { using M = %s::%s; wrong_wire_type<M>(%d, 0b%s, [](const M &a, const M &b) { eq_%s(a, b); }); }\n' % (f.name, m.name, f.ns, m.name, fl.num, good, m.name)
        units.append((f, f.name + "_wt", r))
    # unknown fields around known ones
    f = multi()
    r = (HEAD % (f.name, f.ref())).replace('#include "ref.h"', '#include "ref.h"\n#include "fields.h"')
    empty = File("unk", [SUB, M("Empty", []), M("One", [F("v", "uint32", "req", 2)]), M("Opt", [F("v", "string", "opt", 3, maxlen=1)]), M("Wrap", [F("s", "message", "req", 4, type_name="Sub", sub=SUB)]),
                        M("Or", [("o", [F("v", "bool", "one", 1), F("u", "string", "one", 5, maxlen=1)])])])
    r = (HEAD % (empty.name, empty.ref())).replace('#include "ref.h"', '#include "ref.h"\n#include "fields.h"')
    for m, prefix in (("Empty", ""), ("One", ""), ("Opt", ""), ("Or", "")):
        for mode in ("unknown_before", "unknown_after", "unknown_bad"):
            r += 'extern "C" void ai_%s_%s() { using M = unk::%s; %s<M>([](M &m) { mk_%s(m); }, [](int ch, const M &m) { ref_%s(ch, 10, m); }, [](const M &a, const M &b) { eq_%s(a, b); }); }\n' % (mode, m, m, mode, m, m, m)
    r += """
extern "C" void ai_unknown_nested() {
  // an unknown field inside a nested message
  unk::Wrap m{}; mk_Sub(m.s);
  ref::tag(0, 4, 2);
  ref::delimited(0, 5, [&](int ch) { ref_Sub(ch, 10, m.s); unknown_field(ch); });
  uint8_t buf[64]; const size_t n = __ai_log_get(0, buf, sizeof buf);
  using M = unk::Wrap;
  %s
  __ai_assert(ok, "unknown fields of nested messages are skipped");
  if (ok) eq_Wrap(m, r);
  __ai_cover("done");
}
extern "C" void ai_unknown_length() { unknown_length<unk::One>(); }
extern "C" void ai_zero_field() { zero_field<unk::One>(); zero_field<unk::Empty>(); }
extern "C" void ai_long_tag() { long_tag<unk::One>(); }
""" % DECODE
    units.append((empty, "unknown", r))
    w.drivers(gen_units(w, units), "a field that is unknown or has a wrong wire type is skipped or rejected, never stored")
    return w.finish()


# ---------------------------------------------------------------------------------------------- W06, W07
def head(f, *inc, narrow=False):
    return ("#define REF_NARROW\n" if narrow else "") + (HEAD % (f.name, f.ref())).replace('#include "ref.h"', '#include "ref.h"\n' + "".join('#include "%s"\n' % i for i in inc))


def entry(name, f, m, call):
    """one entry; $MK, $PUT and $EQ are the functions of the message"""
    n = m.name.replace(".", "_")
    call = call.replace("$MK", "[](M &m) { mk_%s(m); }" % n).replace("$PUT", "[](int ch, const M &m) { ref_%s(ch, 10, m); }" % n).replace("$EQ", "[](const M &a, const M &b) { eq_%s(a, b); }" % n)
    return 'extern "C" void ai_%s_%s_%s() { using M = %s::%s; %s }\n' % (name, f.name, n, f.ns, m.name.replace(".", "::"), call)


def split_units(f, name, r, k):
    """the entries of one text spread over k units"""
    hd, *lines = r.split('extern "C" void ')
    k = min(k, len(lines))
    return [(f, "%s_%d" % (name, i), hd + "".join('extern "C" void ' + l for l in lines[i::k])) for i in range(k)]


def single(m):
    """the only field of a message, None if there are more"""
    if len(m.fields) != 1:
        return None
    fl = m.fields[0]
    return fl[1][1 if len(fl[1]) > 1 else 0] if isinstance(fl, tuple) else fl


def one_record(m):
    fl = single(m)
    return fl is not None and not (fl.label == "rep" and fl.maxrep > 1)


def recs():
    """files whose messages have one record"""
    r = []
    for l in ("req", "opt", "rep", "pk", "one"):
        f = scalars(l)
        for m in f.msgs:
            if m.name != "Sub" and l in ("rep", "pk"):
                m.fields[0].maxrep = 2 if l == "pk" and m.fields[0].kind in ("bool", "fixed32", "double") else 1
        r.append(f)
    return r + [cont(), fixed(), maps(1)]


def w06(w):
    """memory safety, truncation and confinement"""
    deep = w.tier == "thorough"
    units = []
    for f in recs():
        r = head(f, "robust.h")
        for m in f.msgs:
            if m.name == "Sub":
                continue
            fl = single(m)
            if one_record(m):
                r += entry("cut", f, m, "truncated<M>($MK, $PUT);")
            r += entry("garbage", f, m, "garbage<M>(%d, %d);" % (fl.num, 4 if deep else 3))
            if wire_type(fl.kind) == 2 or fl.label in ("pk", "rep", "map"):
                r += entry("announced", f, m, "announced<M>(%d);" % fl.num)
                r += entry("confined", f, m, "confined<M>(%d, %d, $EQ);" % (fl.num, 4 if deep else 3))
        units.append((f, f.name + "_safe", r))
    f = multi()
    r = head(f, "robust.h")
    for m in f.msgs:
        r += entry("raw", f, m, "raw<M>(%d);" % (4 if deep else 3))
        r += entry("announced", f, m, "announced<M>(13);")
    units.append((f, "raw", r))
    for l, get in (("req", "a.v"), ("opt", "*a.v"), ("rep", "a.v[0]"), ("one", "std::get<2>(a.o)")):
        f = scalars(l)
        m = [x for x in f.msgs if x.name == "M_message"][0]
        r = head(f, "robust.h") + entry("nested", f, m, "using S = %s::Sub; nested<M, S>(%d, %d, [](M &a) -> S & { return %s; }, [](const S &a, const S &b) { eq_Sub(a, b); });" % (f.ns, single(m).num, 5 if deep else 4, get))
        units.append((f, "nested_" + l, r))
    w.drivers(gen_units(w, units), "no input makes the decoder read outside it, and a cut or malformed record is rejected")
    return w.finish()


def w07(w):
    """independence of the chunks a reader delivers"""
    deep = w.tier == "thorough"
    units = []
    for f in recs() + [recur(), multi()]:
        r = head(f, "robust.h")
        for m in f.msgs:
            if m.name in ("Sub", "Mix", "Leaf", "Mid", "Pong"):
                continue
            r += entry("chunked", f, m, "chunked<M>($MK, $PUT, $EQ);")
            fl = single(m)
            if fl and f.name in ("s_req", "s_pk", "s_one", "maps") and (wire_type(fl.kind) == 2 or deep or fl.kind in ("uint32", "fixed64", "bool") or fl.label == "map"):
                r += entry("chunked_any", f, m, "chunked_garbage<M>(%d, %d, $EQ);" % (fl.num, 3 if deep else 2))
        units.append((f, f.name + "_chunk", r))
    # unknown and long fields
    f = File("skp", [M("One", [F("v", "uint32", "req", 2)]), M("Str", [F("v", "uint32", "opt", 2), F("s", "string", "opt", 9), F("y", "bytes", "opt", 10), F("p", "uint32", "pk", 11)])])
    r = head(f, "robust.h")
    for m in f.msgs:
        for n in (5, 1000) if m.name == "One" else (9, 10, 11):
            for nest in ("false", "true"):
                r += entry("skip%d%s" % (n, nest[0]), f, m, "chunked_skip<M>(%d, 2, %s, $EQ);" % (n, nest))
    units.append((f, "skip_chunk", r))
    from jsonchecks import chunk_units
    units += chunk_units(w)
    w.drivers(gen_units(w, units), "a reader gives the same result as a buffer, whatever chunks it delivers")
    return w.finish()


# ---------------------------------------------------------------------------------------------- W08
TEXT = {"bool": "true", "enum": '\\"E_ONE\\"', "string": '\\"a\\"', "bytes": '\\"AA==\\"', "message": '{\\"a\\":1}', "float": "1.5", "double": "2.5"}


def w08(w):
    units = []
    for fname, extra, conts in (("lim", "", ("std", "cont")),):
        msgs = [SUB]
        ent = ""
        for cn in conts:
            for kind in ("string", "bytes"):
                for lab in ("req", "opt", "rep", "one", "both"):
                    name = "S_%s_%s_%s" % (cn, kind, lab)
                    o = {"(spb_opt).max_size": "3"}
                    if lab == "both":
                        lab = "rep"
                        o["(spb_opt).max_count"] = "9"
                    if cn == "cont":
                        o["(spb_opt)." + kind] = '"cont::%s<16>"' % ("str" if kind == "string" else "bytes")
                    fl = F("v", kind, lab, 2, opts=o)
                    m = M(name, [("o", [F("x", "bool", "one", 1), fl])] if lab == "one" else [fl])
                    msgs.append(m)
                    lv = {"req": "m.v", "opt": "m.v.emplace()", "rep": "m.v.emplace_back()", "one": "m.o.template emplace<2>()"}[lab]
                    fill = "[](M &m, size_t n) { auto &v = %s; v.resize(n); for (size_t i = 0; i < n; i++) v.data()[i] = typename std::remove_cvref_t<decltype(v)>::value_type('a'); }" % lv
                    ent += entry("size", File(fname, []), m, "max_size<M>(2, 3, %s, %s, %s);" % ("true" if kind == "string" else "false", "true" if lab == "rep" else "false", fill))
            for kind in ("bool", "uint32", "sint64", "fixed32", "double", "enum", "string", "bytes", "message"):
                for lab in ("rep", "pk", "both"):
                    name = "C_%s_%s_%s" % (cn, kind, lab)
                    if lab == "pk" and kind in ("string", "bytes", "message") or lab == "both" and kind not in ("string", "bytes"):
                        continue
                    o = {"(spb_opt).max_count": "2"}
                    if lab == "both":
                        lab = "rep"
                        o["(spb_opt).max_size"] = "1"
                    if cn == "cont":
                        o["(spb_opt).repeated"] = '"cont::vec<$,8>"'
                    fl = mkfield("v", kind, lab, 3, opts=o)
                    m = M(name, [fl])
                    msgs.append(m)
                    num = kind in NUMERIC + ["enum"]
                    val = {"bool": "true", "enum": "%s::En::E_ONE" % fname, "string": 'std::string_view("a")', "bytes": 'std::string_view("b")', "double": "2.5"}.get(kind, "%s(1)" % CPP.get(kind))
                    if kind == "message":
                        item = "[](int ch, bool) { ref::tag(ch, 3, 2); ref::varint(ch, 0); }"
                    elif num:
                        item = "[](int ch, bool tag) { if (tag) ref::field<%s>(ch, 3, %s); else ref::scalar<%s>(ch, %s); }" % (K(kind), val, K(kind), val)
                    else:
                        item = "[](int ch, bool) { ref::field<%s>(ch, 3, %s); }" % (K(kind), val)
                    add = {"bool": "m.v.push_back(true);", "message": "m.v.emplace_back();", "string": "m.v.emplace_back() = \"a\";", "bytes": "m.v.emplace_back().resize(1);"}.get(kind, "m.v.emplace_back() = %s;" % val)
                    ent += entry("count", File(fname, []), m, 'max_count<M>(3, 2, %s, "%s", [](M &m) { %s }, %s);' % ("true" if num else "false", TEXT.get(kind, "1"), add, item))
        for n in (2, 3, 4):
            for kind in ("string", "bytes"):
                m = M("Z_%s_%d" % (kind, n), [F("v", kind, "req", 2, opts={"(spb_opt).max_size": "3", "(spb_opt)." + kind: '"std::array<$,%d>"' % n}, fixed=n)])
                msgs.append(m)
                ent += entry("fixed", File(fname, []), m, "max_fixed<M>(2, 3, %s);" % ("true" if kind == "string" else "false"))
        f = File(fname, msgs, INC + INC.replace("cont.h", "array") + PRE)
        r = '#include "%s.pb.cc"\n#include "ref.h"\n#include "maxlimits.h"\n' % fname
        parts = [l + "\n" for l in ent.split("\n") if l]
        for i in range(4):
            units.append((f, "%s_%d" % (fname, i), r + "".join(parts[i::4])))
    w.drivers(gen_units(w, units), "a value is refused exactly if it is over max_size or max_count")
    return w.finish()


# ---------------------------------------------------------------------------------------------- W09
def w09(w):
    deep = w.tier == "thorough"
    std = {"(spb_opt).string": '"std::string"'}
    msgs = [M("Req", [F("v", "string", "req", 1)]), M("Opt", [F("v", "string", "opt", 2)]), M("Rep", [F("v", "string", "rep", 3)]),
            M("One", [("o", [F("x", "bool", "one", 1), F("v", "string", "one", 4)])]),
            M("Cont", [F("v", "string", "req", 1, opts={"(spb_opt).string": '"cont::str<32>"'})]),
            M("ContOpt", [F("v", "string", "opt", 1, opts={"(spb_opt).string": '"cont::str<32>"'})]),
            M("Max", [F("v", "string", "opt", 1, opts={"(spb_opt).max_size": "32"})]),
            M("Fix3", [F("v", "string", "req", 1, opts={"(spb_opt).string": '"std::array<$,3>"'})]),
            M("Fix4", [F("v", "string", "req", 1, opts={"(spb_opt).string": '"std::array<$,4>"'})]),
            M("Key", [F("v", "bool", "map", 1, key=F("k", "string", "req", 1))]),
            M("Val", [F("v", "string", "map", 1, key=F("k", "int32", "req", 1))])]
    f = File("utf", msgs, INC + INC.replace("cont.h", "array"))
    put = "v.assign((const char *)p, (const char *)p + n);"
    sets = {"Req": "auto &v = m.v; " + put, "Opt": "auto &v = m.v.emplace(); " + put, "Rep": "auto &v = m.v.emplace_back(); " + put, "One": "auto &v = m.o.template emplace<2>(); " + put,
            "Cont": "auto &v = m.v; " + put, "ContOpt": "auto &v = m.v.emplace(); " + put, "Max": "auto &v = m.v.emplace(); " + put, "Fix": "memcpy(m.v.data(), p, n);",
            "Key": "std::string v; " + put + " m.v[v] = true;", "Val": "auto &v = m.v[1]; " + put}
    place = {"Rep": "ARRAY", "Key": "KEY", "Val": "VALUE"}
    units = []
    for m in msgs:
        n = m.name
        if n == "Fix4":
            continue
        n = "Fix" if n == "Fix3" else n
        full = n in ("Req", "Cont") or deep
        r = '#include "utf.pb.cc"\n#include "ref.h"\n#include "text.h"\n'
        for way, wn in enumerate(("pb_enc", "pb_dec", "json_enc", "json_dec")):
            if n == "Fix":
                shapes = [(0, 0, 4 if way == 0 or deep else 3)]
            elif full:
                shapes = [(0, 0, 4 if way == 0 or deep else 3), (5, 0, 2), (7, 1, 2), (8, 8, 2), (13, 7, 1), (16, 0, 2)] + [(i, 17 - i, 1) for i in range(17)]
            else:
                shapes = [(0, 0, 2), (7, 8, 1)]
            for pre, suf, mx in shapes:
                call = "utf8<M>(%d, %d, %d, %d, %s, %d, %d, [](M &m, const uint8_t *p, size_t n) { %s });" % (way, pre, suf, single(m).num, place.get(n, "PLAIN"), mx if n == "Fix" else 0, mx, sets[n].replace("array_n", str(mx)))
                mm = M(n + ("%d" % mx if n == "Fix" else ""), [])
                r += entry("%s_%d_%d" % (wn, pre, suf), File("utf", []), mm, call)
        units.append((f, "utf_" + n, r))
    w.drivers(gen_units(w, units), "strings are accepted exactly if they are UTF-8")
    return w.finish()
