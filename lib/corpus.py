"""The schemas the analyses are instantiated on."""
from schema import *

KINDS = NUMERIC + ["enum", "string", "bytes", "message"]
PRE = "enum En { E_ZERO = 0; E_ONE = 1; E_BIG = 2147483647; E_NEG = -1; }\n"
SUB = M("Sub", [F("a", "uint32", "req", 1), F("b", "string", "opt", 2, maxlen=1)])


def mkfield(name, kind, label, num, **kw):
    t = {"enum": "En", "message": "Sub"}.get(kind)
    return F(name, kind, label, num, type_name=t, sub=SUB if kind == "message" else None, **kw)


class File:
    def __init__(self, name, msgs, pre="", syntax="proto2"):
        self.name, self.msgs, self.pre, self.syntax = name, msgs, pre, syntax
        self.ns = name

    def proto(self):
        return 'syntax = "%s";\npackage %s;\n%s%s' % (self.syntax, self.ns, self.pre, "".join(m.decl() for m in self.msgs))

    def ref(self):
        g = Gen(self.ns)
        return "".join(g.message(m) for m in self.msgs)

    def jref(self, few=False):
        g = GenJson(self.ns)
        g.few = few
        return "".join(g.message(m) + g.json(m) for m in self.msgs)


def scalars(label):
    """every kind with one label"""
    msgs = [SUB]
    for i, k in enumerate(KINDS):
        if label == "pk" and k in ("string", "bytes", "message"):
            continue
        n = NUMBERS[(i * 3 + len(label)) % len(NUMBERS)]
        if label == "one":
            other = F("w", "uint32", "one", 7)
            last = F("z", "string", "one", 8, maxlen=1)
            msgs.append(M("M_%s" % k, [("o", [other, mkfield("v", k, "one", n), last])]))
        else:
            msgs.append(M("M_%s" % k, [mkfield("v", k, label, n)]))
    return File("s_" + label, msgs, PRE)


INTS = {32: ["int8", "int16", "int32"], 64: ["int8", "int16", "int32", "int64"]}


def ints():
    msgs = []
    i = 0
    for k in VARINT + FIXED:
        for c in INTS[WIDTH[k]]:
            c = c if k in SIGNED else "u" + c
            fs = [F("a", k, "req", 1, ctype=c), F("b", k, "opt", 2, ctype=c)]
            msgs.append(M("M_%s_%s" % (k, c), fs))
            msgs.append(M("R_%s_%s" % (k, c), [F("a", k, ["rep", "pk"][i % 2], 3, ctype=c, maxrep=1)]))
            i += 1
    return File("ints", msgs)


def bits():
    msgs = []
    for k in VARINT + FIXED:
        s = k in SIGNED
        c = ("int" if s else "uint")
        ws = [(8, 1), (8, 7), (32, 3), (32, 31)] if WIDTH[k] == 32 else [(64, 33), (64, 63), (8, 4), (16, 9)]
        fs = [F("f%d" % j, k, "req", j + 1, ctype=c + str(w), bits=b) for j, (w, b) in enumerate(ws)]
        msgs.append(M("M_" + k, fs))
    return File("bits", msgs)


INC = 'option (spb_fileopt).include = "<cont.h>";\n'
CONT = INC + ('option (spb_fileopt).string = "cont::str<8>";\noption (spb_fileopt).bytes = "cont::bytes<8>";\n'
        'option (spb_fileopt).repeated = "cont::vec<$,4>";\noption (spb_fileopt).optional = "cont::opt<$>";\noption (spb_fileopt).map = "cont::map<$,@,4>";\n')


def cont(labels=("req", "opt", "rep", "pk")):
    """every kind with user supplied containers"""
    msgs = [SUB]
    i = 0
    for lab in labels:
        for k in KINDS:
            if lab == "pk" and k in ("string", "bytes", "message"):
                continue
            i += 1
            msgs.append(M("%s_%s" % (lab.upper(), k), [mkfield("v", k, lab, NUMBERS[i % len(NUMBERS)], maxrep=1)]))
    return File("cont_", msgs, CONT + PRE)


def fixed():
    """fixed size containers"""
    msgs = [M("B", [F("v", "bytes", "req", 1, opts={"(spb_opt).bytes": '"std::array<$,3>"'}, fixed=3)]),
            M("S", [F("v", "string", "req", 16, opts={"(spb_opt).string": '"std::array<$,2>"'}, fixed=2)]),
            M("OB", [F("v", "bytes", "opt", 1, opts={"(spb_opt).bytes": '"std::array<$,2>"'}, fixed=2)]),
            M("RB", [F("v", "bytes", "rep", 1, opts={"(spb_opt).bytes": '"std::array<$,2>"'}, fixed=2)])]
    for k in NUMERIC:
        msgs.append(M("A_" + k, [F("v", k, "pk", 5, opts={"(spb_opt).repeated": '"std::array<$,2>"'}, fixed=2)]))
    return File("fixed", msgs, INC.replace("<cont.h>", "<array>"))


MAPKEYS = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"]


def maps(maxrep=1):
    msgs = [SUB]
    o = {"(spb_opt).map": '"cont::map<$,@,4>"'}
    vals = [k for k in KINDS]
    for i, k in enumerate(MAPKEYS):
        for v in (vals[i % len(vals)], vals[(i + 5) % len(vals)]):
            t = {"enum": "En", "message": "Sub"}.get(v)
            msgs.append(M("M_%s_%s" % (k, v), [F("v", v, "map", NUMBERS[i % 4], type_name=t, sub=SUB if v == "message" else None, key=F("key", k, "req", 1, maxlen=1), opts=o, maxrep=1, maxlen=1)]))
    for v in ("string", "message", "bytes", "enum", "double", "uint32"):
        t = {"enum": "En", "message": "Sub"}.get(v)
        msgs.append(M("N_%s" % v, [F("v", v, "map", 3, type_name=t, sub=SUB if v == "message" else None, key=F("key", "bool", "req", 1), opts=o, maxrep=1, maxlen=1)]))
    # several items
    for k, v in (("bool", "fixed32"), ("fixed32", "bool"), ("string", "bool"), ("bool", "string")):
        msgs.append(M("D_%s_%s" % (k, v), [F("v", v, "map", 2, key=F("key", k, "req", 1, maxlen=1), opts=o, maxrep=2 if maxrep > 1 else 1, maxlen=1)]))
    return File("maps", msgs, INC + PRE)


def multi():
    """several fields, nesting, every label together"""
    leaf = M("Leaf", [F("x", "sfixed32", "opt", 4), F("n", "bool", "req", 2)])
    mid = M("Mid", [F("l", "message", "rep", 2, type_name="Leaf", sub=leaf, maxrep=2), F("k", "bytes", "opt", 1, maxlen=1)])
    top = M("Top", [F("m", "message", "opt", 300, type_name="Mid", sub=mid)])
    req = M("ReqMsg", [F("m", "message", "req", 3, type_name="Leaf", sub=leaf), F("z", "bool", "req", 1)])
    mix = M("Mix", [F("b", "bool", "req", 9), F("o", "fixed32", "opt", 2), F("r", "bool", "pk", 3, maxrep=2), F("s", "string", "opt", 20, maxlen=1),
                    F("e", "fixed64", "rep", 10, maxrep=1),
                    ("alt", [F("p", "bool", "one", 5), F("q", "string", "one", 1, maxlen=1), F("l", "message", "one", 8, type_name="Leaf", sub=leaf)])])
    two = M("Two", [("x", [F("xa", "bool", "one", 1), F("xb", "fixed32", "one", 2)]), ("y", [F("ya", "bool", "one", 3), F("yb", "bytes", "one", 4, maxlen=1)])])
    return File("multi", [leaf, mid, top, req, mix, two])


def choices():
    """a oneof with messages at several places"""
    sub = lambda n, k: F(n, "message", "one", k, type_name="Sub", sub=SUB)
    return File("alts", [SUB, M("Alts", [("o", [sub("b", 21), F("a", "fixed64", "one", 1), sub("e", 5), F("f", "bool", "one", 60), sub("g", 3000)])])])


def proto3():
    """syntax proto3: fields without a label, repeated numbers packed by default"""
    msgs = [SUB]
    for i, k in enumerate(KINDS):
        if k == "message":
            continue
        msgs.append(M("P_" + k, [mkfield("v", k, "plain", 1 + i)]))
        if k in ("string", "bytes"):
            continue
        f = mkfield("v", k, "pk", 40 + i, maxrep=1)
        del f.opts["packed"]
        msgs.append(M("R_" + k, [f]))
    return File("proto3_", msgs, PRE, syntax="proto3")


class Hand(File):
    """a file with hand written reference functions"""

    def __init__(self, name, msgs, text, ref, pre=""):
        super().__init__(name, msgs, pre, "proto2")
        self._text, self._ref = text, ref

    def proto(self):
        return 'syntax = "proto2";\npackage %s;\n%s' % (self.ns, self._text)

    def ref(self):
        return self._ref


def recur():
    """messages that contain themselves, directly and through each other"""
    return Hand("recur", [M("Node", [F("x", "bool", "opt", 3), F("next", "message", "opt", 1)]), M("Ping", [F("p", "message", "opt", 2)])], """
message Node { optional Node next = 1; repeated Node kids = 2; optional bool x = 3; }
message Ping { optional Pong p = 2; optional fixed32 n = 9; }
message Pong { optional Ping q = 7; }
""", """
template <class T> static void fill(std::optional<T> &o) { o.emplace(); }
template <class T> static void fill(std::unique_ptr<T> &o) { o = std::make_unique<T>(); }
static void mk_Node(recur::Node &m, int depth = 0) { if (__ai_pick("has_x", 2)) m.x = ref::any_value<bool>("x");
  if (depth == 2) return;
  if (__ai_pick("has_next", 2)) { m.next = std::make_unique<recur::Node>(); mk_Node(*m.next, depth + 1); }
  if (depth == 0) for (size_t i = 0, e = __ai_pick("kids", 2); i < e; i++) { m.kids.emplace_back(); if (__ai_pick("has_kx", 2)) m.kids.back().x = ref::any_value<bool>("kx"); } }
static void ref_Node(int ch, int d, const recur::Node &m) {
  if (m.next) { ref::tag(ch, 1, 2); ref::delimited(ch, d, [&](int s) { ref_Node(s, d + 1, *m.next); }); }
  for (const auto &k : m.kids) { ref::tag(ch, 2, 2); ref::delimited(ch, d, [&](int s) { ref_Node(s, d + 1, k); }); }
  if (m.x) ref::field<ref::BOOL>(ch, 3, *m.x); }
static void eq_Node(const recur::Node &a, const recur::Node &b) { __ai_assert(a.x.has_value() == b.x.has_value(), "presence of x"); if (a.x && b.x) __ai_assert(*a.x == *b.x, "x");
  __ai_assert(!a.next == !b.next, "presence of next"); if (a.next && b.next) eq_Node(*a.next, *b.next);
  __ai_assert(a.kids.size() == b.kids.size(), "count of kids"); if (a.kids.size() == b.kids.size()) for (size_t i = 0; i < a.kids.size(); i++) eq_Node(a.kids[i], b.kids[i]); }
static void mk_Ping(recur::Ping &m) { if (__ai_pick("has_n", 2)) m.n = ref::any_value<uint32_t>("n"); if (!__ai_pick("has_p", 2)) return; fill(m.p); if (!__ai_pick("has_q", 2)) return;
  fill(m.p->q); if (__ai_pick("has_n2", 2)) m.p->q->n = ref::any_value<uint32_t>("n2"); if (__ai_pick("has_p2", 2)) fill(m.p->q->p); }
static void ref_Ping(int ch, int d, const recur::Ping &m) { if (m.p) { ref::tag(ch, 2, 2); ref::delimited(ch, d, [&](int s) { if (m.p->q) { ref::tag(s, 7, 2); ref::delimited(s, d + 1, [&](int t) { ref_Ping(t, d + 2, *m.p->q); }); } }); }
  if (m.n) ref::field<ref::FIXED32>(ch, 9, *m.n); }
static void eq_Ping(const recur::Ping &a, const recur::Ping &b) { __ai_assert(a.n == b.n, "n"); __ai_assert(!a.p == !b.p, "presence of p"); if (!a.p || !b.p) return; __ai_assert(!a.p->q == !b.p->q, "presence of q"); if (a.p->q && b.p->q) eq_Ping(*a.p->q, *b.p->q); }
""")
