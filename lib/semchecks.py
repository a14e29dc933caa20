"""Checks of codec behaviour beyond single values (W10..W16)."""
from core import *
from corpus import *
from pbchecks import split_units, head, entry, single, gen_units, one_record, recs, all_files

NUM_T = {"int32": "int32_t", "int64": "int64_t", "uint32": "uint32_t", "uint64": "uint64_t", "sint32": "int32_t", "sint64": "int64_t",
         "fixed32": "uint32_t", "fixed64": "uint64_t", "sfixed32": "int32_t", "sfixed64": "int64_t"}


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


# ---------------------------------------------------------------------------------------------- W10
def bit_files():
    msgs = []
    for k in VARINT + FIXED:
        s = k in SIGNED
        c = "int" if s else "uint"
        ws = [(8, 1), (8, 7), (8, 8), (16, 9), (32, 3), (32, 31), (32, 32)]
        if WIDTH[k] == 64:
            ws = [(8, 1), (8, 4), (16, 16), (32, 17), (64, 1), (64, 33), (64, 63), (64, 64)]
        msgs.append(M("M_" + k, [F("f%d" % j, k, "req", j + 1, ctype=c + str(w), bits=b) for j, (w, b) in enumerate(ws)]))
    return File("bitf", msgs)


def w10(w):
    f = bit_files()
    r = head(f, "bits.h")
    for m in f.msgs:
        for fl in m.fields:
            k, b = fl.kind, fl.bits
            cw = int(fl.ctype.replace("uint", "").replace("int", ""))
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if fl.signed else (0, (1 << b) - 1)
            cand = {lo - 1, lo, lo + 1, -1, 0, 1, hi - 1, hi, hi + 1, 2 * hi + 1, 2 * hi + 2, -(1 << (cw - 1)), (1 << (cw - 1)) - 1, 1 << (cw - 1), (1 << cw) - 1, 1 << cw, -(1 << (cw - 1)) - 1, (1 << 64) - 1, 1 << 64, -(1 << 63) - 1}
            cases = ", ".join("{%s, %s, %dull}" % (cstr(str(v)), "true" if lo <= v <= hi else "false", v & ((1 << 64) - 1)) for v in sorted(cand))
            get = "[](const M &m) { return %s(m.%s); }" % ("int64_t" if fl.signed else "uint64_t", fl.name)
            n = "%s_%s" % (m.name, fl.name)
            r += 'extern "C" void ai_pb_%s() { using M = %s::%s; bits_pb<M, %s, %s>(%d, %d, %d, %s); }\n' % (n, f.ns, m.name, K(k), NUM_T[k], fl.num, b, cw, get)
            r += 'extern "C" void ai_json_%s() { using M = %s::%s; static const number_case cases[] = {%s}; bits_json<M>("%s", cases, %s); }\n' % (n, f.ns, m.name, cases, fl.name, get)
    units = split_units(f, "bitf", r, 6)
    w.drivers(gen_units(w, units), "a value is stored in a bit-field exactly if it fits")
    return w.finish()


# ---------------------------------------------------------------------------------------------- W11
TEXT1 = {"bool": "true", "enum": '"E_ONE"', "string": '"ab\\u00e9"', "bytes": '"AAE="', "message": '{"a":1,"b":"x"}', "float": "1.5", "double": "2.5"}


def json_text(m, count=2):
    """a JSON object with a value for every field of the message"""
    items = []
    for f in m.fields:
        if isinstance(f, tuple):
            f = f[1][-1]
        t = TEXT1.get(f.kind, "7")
        if f.fixed and f.kind == "bytes":
            t = '"%s"' % {1: "AA==", 2: "AAA=", 3: "AAAA"}[f.fixed]
        if f.fixed and f.kind == "string":
            t = '"%s"' % ("a" * f.fixed)
        if f.label == "map":
            t = '{"%s":%s}' % ({"string": "k", "bool": "true"}.get(f.key.kind, "3"), t)
        elif f.label in ("rep", "pk"):
            n = f.fixed if f.fixed and f.kind not in ("string", "bytes") else min(count, f.maxrep)
            t = "[%s]" % ",".join([t] * n)
        items.append('"%s":%s' % (f.name, t))
    return "{%s}" % ",".join(items)


def w11(w):
    units = []
    fs = [cont(("req", "opt", "rep")), fixed(), maps(1), multi(), recur(), scalars("one")]
    for f in fs:
        r = head(f, "failing.h")
        for m in f.msgs:
            if m.name in ("Sub", "Leaf", "Mid", "Pong", "Two"):
                continue
            if m.name.startswith("N_"):
                continue
            r += entry("wr_pb", f, m, "writer_fails<M>(false, $MK);")
            if not isinstance(f, Hand):
                r += entry("wr_json", f, m, "writer_fails<M>(true, [](M &m) { __ai_assert(jdecode(m, std::string_view(%s)), \"valid JSON is accepted\"); });" % cstr(json_text(m)))
            r += entry("rd_pb", f, m, "pb_reader_fails<M>($MK, $PUT);")
            if not isinstance(f, Hand):
                r += entry("rd_json", f, m, "rj::put(0, %s); reader_fails<M>(true);" % cstr(json_text(m)))
        units.append((f, f.name + "_fail", r))
    # containers that are full
    f = cont(("req", "opt", "rep"))
    r = head(f, "failing.h")
    for m in f.msgs:
        fl = single(m)
        if m.name == "Sub":
            continue
        if fl.label == "rep":
            if fl.kind in ("message",):
                item = "ref::tag(0, %d, 2); ref::varint(0, 0);" % fl.num
            elif fl.kind in ("string", "bytes"):
                item = "ref::tag(0, %d, 2); ref::varint(0, 1); ref::byte(0, 'a');" % fl.num
            else:
                item = "ref::field<%s>(0, %d, %s);" % (K(fl.kind), fl.num, "true" if fl.kind == "bool" else "cont_::En(1)" if fl.kind == "enum" else "1.0f" if fl.kind == "float" else "1.0" if fl.kind == "double" else NUM_T[fl.kind] + "(1)")
            for n in (4, 5):
                r += entry("full%d_pb" % n, f, m, "for (int i = 0; i < %d; i++) { %s } container_fails<M>(false, %s);" % (n, item, "true" if n > 4 else "false"))
                t = TEXT1.get(fl.kind, "7")
                r += entry("full%d_json" % n, f, m, "rj::put(0, %s); container_fails<M>(true, %s);" % (cstr('{"v":[%s]}' % ",".join([t] * n)), "true" if n > 4 else "false"))
        elif fl.kind in ("string", "bytes"):
            for n in (8, 9):
                r += entry("full%d_pb" % n, f, m, "ref::tag(0, %d, 2); ref::varint(0, %d); for (int i = 0; i < %d; i++) ref::byte(0, 'a'); container_fails<M>(false, %s);" % (fl.num, n, n, "true" if n > 8 else "false"))
                t = "a" * n if fl.kind == "string" else {8: "AAAAAAAAAAA=", 9: "AAAAAAAAAAAA"}[n]
                r += entry("full%d_json" % n, f, m, "rj::put(0, %s); container_fails<M>(true, %s);" % (cstr('{"v":"%s"}' % t), "true" if n > 8 else "false"))
    units.append((f, "full", r))
    f = maps(1)
    r = head(f, "failing.h")
    for m in f.msgs:
        fl = single(m)
        if m.name == "Sub" or m.name.startswith(("D_", "N_")) or fl.key.kind in ("bool",):
            continue
        for n in (4, 5):
            if fl.key.kind == "string":
                key = "ref::tag(s, 1, 2); ref::varint(s, 1); ref::byte(s, uint8_t('a' + i));"
            else:
                key = "ref::field<%s>(s, 1, i);" % K(fl.key.kind)
            r += entry("full%d_pb" % n, f, m, "for (int i = 0; i < %d; i++) { ref::tag(0, %d, 2); ref::delimited(0, 9, [&](int s) { %s }); } container_fails<M>(false, %s);" % (n, fl.num, key, "true" if n > 4 else "false"))
            t = TEXT1.get(fl.kind, "7")
            js = '{"v":{%s}}' % ",".join('"%s":%s' % ("abcde"[i] if fl.key.kind == "string" else str(i), t) for i in range(n))
            r += entry("full%d_json" % n, f, m, "rj::put(0, %s); container_fails<M>(true, %s);" % (cstr(js), "true" if n > 4 else "false"))
    units.append((f, "fullmap", r))
    w.drivers(gen_units(w, units), "an exception of the user's code ends the operation and reaches the caller")
    return w.finish()


# ---------------------------------------------------------------------------------------------- W12
LONG = '"unknown":{"a":["%s\\n\\u20ac",1.5e10,null,{"":[]}],"b":true,"%s":-1},' % ("x" * 60, "k" * 40)


def heapless():
    """everything with containers that do not allocate"""
    f = cont()
    one = M("One", [("o", [F("w", "uint32", "one", 7), F("s", "string", "one", 8, maxlen=1), F("y", "bytes", "one", 9, maxlen=1), F("m", "message", "one", 10, type_name="Sub", sub=f.msgs[0]), F("e", "enum", "one", 11, type_name="En")])])
    mp = [M("Map_%s_%s" % (k, v), [F("v", v, "map", 3, type_name={"enum": "En", "message": "Sub"}.get(v), sub=f.msgs[0] if v == "message" else None, key=F("key", k, "req", 1, maxlen=1), maxrep=1, maxlen=1)])
          for k, v in (("string", "string"), ("int32", "bytes"), ("bool", "message"), ("string", "enum"), ("sint64", "double"), ("fixed32", "uint64"))]
    fx = [M("Fix", [F("s", "string", "req", 1, opts={"(spb_opt).string": '"std::array<$,2>"'}, fixed=2), F("b", "bytes", "opt", 2, opts={"(spb_opt).bytes": '"std::array<$,3>"'}, fixed=3),
                    F("r", "int32", "pk", 3, opts={"(spb_opt).repeated": '"std::array<$,2>"'}, fixed=2), F("n", "int32", "req", 4, ctype="int8", bits=5)])]
    return File("heapless", f.msgs + [one] + mp + fx, f.pre.replace("<cont.h>", "<cont.h>") + INC.replace("<cont.h>", "<array>"))


def w12(w):
    f = heapless()
    r = head(f, "heap.h", narrow=True)
    for m in f.msgs:
        if m.name == "Sub":
            continue
        r += entry("pb", f, m, "no_heap_pb<M>($MK, $PUT);")
        r += entry("json", f, m, "no_heap_json<M>(%s);" % cstr("{" + LONG + json_text(m, 1)[1:]))
    units = split_units(f, "heap", r, 8)
    w.drivers(gen_units(w, units), "the library does not allocate on the heap")
    return w.finish()


# ---------------------------------------------------------------------------------------------- W13
DEF1 = {"bool": "false", "enum": '"E_ZERO"', "string": '""', "bytes": '""', "message": '{"a":0}'}


def w13(w):
    units = []
    alt = lambda f: '{%s, %d}'
    for f in (scalars("one"), multi(), choices()):
        r = head(f, "oneof.h", narrow=True)
        for m in f.msgs:
            ones = [x for x in m.fields if isinstance(x, tuple)]
            if not ones or len(ones) != len(m.fields):
                continue
            carry = "[](M &e, const M &p) { %s }" % " ".join("if (e.%s.index() == 0) e.%s = p.%s;" % (n, n, n) for n, _ in ones)
            clash = "[](const M &a, const M &b) { return %s; }" % (" || ".join("(a.%s.index() == %d && b.%s.index() == %d)" % (n, i + 1, n, i + 1) for n, fs in ones for i, x in enumerate(fs) if x.kind == "message") or "false")
            for count in (2, 3) if m.name not in ("Two", "Alts") or w.tier == "thorough" else (2,):
                r += entry("seq%d" % count, f, m, "oneof_sequence<M>(%d, $MK, $PUT, $EQ, %s, %s);" % (count, carry, clash))
            for n, fs in ones:
                alts, msg = [], 0
                for i, x in enumerate(fs):
                    t = TEXT1.get(x.kind, "7")
                    alts.append('{%s, %d}' % (cstr('"%s":%s' % (x.name, t)), i + 1))
                    if x.kind == "message":
                        msg = i + 1
                    if x.kind != "message" or m.name == "M_message":
                        alts.append('{%s, %d}' % (cstr('"%s":%s' % (x.name, DEF1.get(x.kind, "0"))), i + 1))
                r += entry("json_" + n, f, m, "static const json_alt alts[] = {%s}; oneof_json<M>(alts, [](const M &m) { return m.%s.index(); }, %d);" % (", ".join(alts), n, msg))
        units += split_units(f, f.name, r, 4)
    w.drivers(gen_units(w, units), "a oneof holds the last alternative only")
    return w.finish()


# ---------------------------------------------------------------------------------------------- W14
def w14(w):
    units = []
    for f in (scalars("opt"), cont(("opt",)), proto3(), scalars("one"), fixed()):
        r = head(f, "oneof.h")
        for m in f.msgs:
            if m.name == "Sub":
                continue
            fl = m.fields[0]
            t = DEF1.get((fl[1][1] if isinstance(fl, tuple) else fl).kind, "0")
            if isinstance(fl, tuple):
                fl = fl[1][1]
                has, st = "m.o.index() == 2", "m.o.template emplace<2>();"
            elif fl.label in ("opt", "plain"):
                has, st = "m.v.has_value()", "m.v.emplace();"
                if fl.fixed:
                    st, t = "m.v.emplace().fill({});", '"AAA="'
            else:
                continue
            r += entry("has", f, m, "presence<M>(%s, %s, [](const M &m) { return %s; }, [](M &m) { %s }, $PUT, $EQ);" % (cstr('{"v":%s}' % t), "false" if fl.label == "one" else "true", has, st))
        units.append((f, f.name + "_has", r))
    f = recur()
    r = head(f, "oneof.h")
    r += 'extern "C" void ai_node() { using M = recur::Node; presence<M>("{\\"next\\":{}}", true, [](const M &m) { return bool(m.next); }, [](M &m) { m.next = std::make_unique<M>(); }, [](int ch, const M &m) { ref_Node(ch, 10, m); }, [](const M &a, const M &b) { eq_Node(a, b); }); }\n'
    r += 'extern "C" void ai_ping() { using M = recur::Ping; presence<M>("{\\"p\\":{}}", true, [](const M &m) { return bool(m.p); }, [](M &m) { fill(m.p); }, [](int ch, const M &m) { ref_Ping(ch, 10, m); }, [](const M &a, const M &b) { eq_Ping(a, b); }); }\n'
    units.append((f, "recur_has", r))
    w.drivers(gen_units(w, units), "presence is kept")
    return w.finish()


# ---------------------------------------------------------------------------------------------- W15
def w15(w):
    units = []
    for f in [scalars("req"), scalars("opt"), scalars("pk"), scalars("one"), cont(("req", "pk")), maps(1), multi(), recur()]:
        r, r2 = head(f, "framing.h"), head(f, "framing.h", narrow=True)
        for m in f.msgs:
            if m.name in ("Sub", "Leaf", "Mid", "Pong"):
                continue
            r += entry("out", f, m, "framed_output<M>($MK, $PUT);")
            if single(m) and one_record(m) and not isinstance(f, Hand):
                r += entry("wrong", f, m, "framed_wrong<M>($MK, $PUT);")
            if m.name not in ("Mix", "Top", "Node"):
                r2 += entry("seq", f, m, "framed_sequence<M>($MK, $PUT, $EQ);")
        units += [(f, f.name + "_frame", r), (f, f.name + "_seq", r2)]
    from pbchecks import big_units
    units += big_units("big_framed")
    w.drivers(gen_units(w, units), "a delimited message is framed by its exact length")
    return w.finish()


# ---------------------------------------------------------------------------------------------- W16
def w16(w):
    f = maps(1)
    g = Gen(f.ns)
    r = head(f, "mapitems.h", narrow=True)
    for m in f.msgs:
        fl = single(m)
        if m.name == "Sub":
            continue
        pk = "[](int ch, const auto &kv) { %s }" % g.put(fl.key, "ch", "kv.first", 1)
        pv = "[](int ch, const auto &kv) { const int d = 10; (void)d; %s }" % g.put(fl, "ch", "kv.second", 2)
        long = m.name in ("D_bool_fixed32", "D_fixed32_bool") or w.tier == "thorough"
        r += entry("item", f, m, "map_item<M>(%d, %d, %s, $MK, %s, %s, $EQ);" % (fl.num, 3 if long and fl.kind != "message" else 2, "true" if fl.kind == "message" else "false", pk, pv))
        r += entry("same", f, m, "map_same_key<M>(%d, $MK, $PUT, %s, %s, $EQ);" % (fl.num, pk, pv))
        r += entry("wt", f, m, "map_wire_type<M>(%d, %d, %d, $EQ);" % (fl.num, 1 << wire_type(fl.key.kind), 1 << wire_type(fl.kind)))
        key = {"string": '"k"', "bool": '"true"'}.get(fl.key.kind, '"3"')
        r += entry("json", f, m, "map_json_same_key<M>(%s, %s, %s, $EQ);" % (cstr(key), cstr(TEXT1.get(fl.kind, "7")), cstr(DEF1.get(fl.kind, "0"))))
    units = split_units(f, "maps", r, 8)
    w.drivers(gen_units(w, units), "map items follow the wire format's rules")
    return w.finish()
