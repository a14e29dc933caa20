"""Schema descriptions: one description is printed both as a .proto file (the input of the compiler
under analysis) and as the reference encoder / abstract-value builder / comparison of the drivers."""

VARINT = ["int32", "int64", "uint32", "uint64", "sint32", "sint64"]
FIXED = ["fixed32", "fixed64", "sfixed32", "sfixed64"]
NUMERIC = VARINT + FIXED + ["float", "double", "bool"]
WIDTH = {"int32": 32, "int64": 64, "uint32": 32, "uint64": 64, "sint32": 32, "sint64": 64, "fixed32": 32,
         "fixed64": 64, "sfixed32": 32, "sfixed64": 64, "float": 32, "double": 64, "bool": 1, "enum": 32}
SIGNED = {"int32", "int64", "sint32", "sint64", "sfixed32", "sfixed64"}
WT = {"fixed32": 5, "sfixed32": 5, "float": 5, "fixed64": 1, "sfixed64": 1, "double": 1, "string": 2, "bytes": 2,
      "message": 2}
CPP = {"int32": "int32_t", "int64": "int64_t", "uint32": "uint32_t", "uint64": "uint64_t", "sint32": "int32_t",
       "sint64": "int64_t", "fixed32": "uint32_t", "fixed64": "uint64_t", "sfixed32": "int32_t",
       "sfixed64": "int64_t", "float": "float", "double": "double", "bool": "bool"}
NUMBERS = [1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911]


def wire_type(kind):
    return WT.get(kind, 0)


class F:
    def __init__(self, name, kind, label, num, type_name=None, ctype=None, bits=None, opts=None, sub=None, key=None,
                 fixed=None, json=None, maxlen=2, maxrep=2, cont=None):
        self.name, self.kind, self.label, self.num = name, kind, label, num
        self.type_name = type_name or kind   # .proto type
        self.ctype = ctype                   # int8.. (the (spb_opt).type option)
        self.bits = bits                     # bit-field width
        self.opts = dict(opts or {})
        self.sub = sub                       # M of a message typed field
        self.key = key                       # F of the key of a map
        self.fixed = fixed                   # fixed size of the container (string, bytes or repeated)
        self.json = json
        self.maxlen, self.maxrep = maxlen, maxrep
        if ctype:
            self.opts["(spb_opt).type"] = '"%s"' % (ctype + (":%d" % bits if bits else ""))
        if label == "pk":
            self.opts.setdefault("packed", "true")
        if label == "rep" and kind not in ("string", "bytes", "message"):
            self.opts.setdefault("packed", "false")

    @property
    def width(self):
        if self.bits:
            return self.bits
        if self.ctype:
            return int(self.ctype.replace("uint", "").replace("int", ""))
        return WIDTH.get(self.kind, 0)

    @property
    def cpp(self):
        if self.ctype:
            return self.ctype + "_t"
        return CPP.get(self.kind)

    @property
    def signed(self):
        return self.kind in SIGNED

    def decl(self):
        o = ", ".join("%s = %s" % kv for kv in self.opts.items())
        o = " [%s]" % o if o else ""
        if self.label == "map":
            return "  map<%s, %s> %s = %d%s;\n" % (self.key.type_name, self.type_name, self.name, self.num, o)
        lab = {"req": "required ", "opt": "optional ", "rep": "repeated ", "pk": "repeated ", "one": "", "plain": ""}[self.label]
        return "  %s%s %s = %d%s;\n" % (lab, self.type_name, self.name, self.num, o)


class M:
    """fields: list of F, or (oneof name, [F..]) tuples"""

    def __init__(self, name, fields, pre="", opts=""):
        self.name, self.fields, self.pre, self.opts = name, fields, pre, opts

    def decl(self):
        r = "message %s {\n%s%s" % (self.name, self.pre, self.opts)
        for f in self.fields:
            if isinstance(f, tuple):
                r += "  oneof %s {\n%s  }\n" % (f[0], "".join("  " + x.decl() for x in f[1]))
            else:
                r += f.decl()
        return r + "}\n"


K = lambda k: "ref::" + k.upper()


class Gen:
    """C++ of the reference for the messages of one file"""

    def __init__(self, ns):
        self.ns = ns

    def any(self, f, lv, tag):
        """statements that give the lvalue an arbitrary value of the field's type"""
        n = '"%s"' % tag
        if f.kind == "string":
            if f.fixed:
                return "{ auto *p_ = (char *)__ai_buffer(%s, %d); for (int i = 0; i < %d; i++) { __ai_assume(uint8_t(p_[i]) < 0x80); %s.data()[i] = p_[i]; } }" % (n, f.fixed, f.fixed, lv)
            return "ref::any_ascii(%s, %s, %d);" % (lv, n, f.maxlen)
        if f.kind == "bytes":
            if f.fixed:
                return "memcpy(%s.data(), __ai_buffer(%s, %d), %d);" % (lv, n, f.fixed, f.fixed)
            return "ref::any_bytes(%s, %s, %d);" % (lv, n, f.maxlen)
        if f.kind == "message":
            return "mk_%s(%s);" % (f.sub.name, lv)
        if f.bits:
            t = "int64_t" if f.signed else "uint64_t"
            v = "__ai_any(%s, %d)" % (n, f.bits)
            return "%s = %s;" % (lv, v if not f.signed else "int64_t(%s << %d) >> %d" % (v, 64 - f.bits, 64 - f.bits))
        return "%s = ref::any_value<std::remove_cvref_t<decltype(%s)>>(%s);" % (lv, lv, n)

    def put(self, f, ch, v, num=None):
        """tag and value"""
        num = num or f.num
        if f.kind == "message":
            return "ref::tag(%s, %d, 2); ref::delimited(%s, d, [&](int s_) { ref_%s(s_, d + 1, %s); });" % (ch, num, ch, f.sub.name, v)
        return "ref::field<%s>(%s, %d, %s);" % (K(f.kind), ch, num, v if not f.bits else "%s(%s)" % ("int64_t" if f.signed else "uint64_t", v))

    def putm(self, f, ch, v, num):
        """key or value of a map item: an empty one is left out"""
        r = self.put(f, ch, v, num)
        return "if (%s.size()) { %s }" % (v, r) if f.kind in ("string", "bytes") else r

    def eq(self, f, a, b, what):
        if f.kind in ("string", "bytes"):
            return '__ai_assert(ref::same_text(%s, %s), "%s");' % (a, b, what)
        if f.kind == "message":
            return "eq_%s(%s, %s);" % (f.sub.name, a, b)
        if f.bits:
            return '__ai_assert(%s == %s, "%s");' % (a, b, what)
        return '__ai_assert(ref::same(%s, %s), "%s");' % (a, b, what)

    def message(self, m):
        T = "%s::%s" % (self.ns, m.name.replace(".", "::"))
        nm = m.name.replace(".", "_")
        mk, rf, eq = [], [], []
        for f in m.fields:
            if isinstance(f, tuple):
                name, alts = f
                mk.append("switch (__ai_pick(\"%s\", %d)) {" % (name, len(alts) + 1))
                rf.append("switch (m.%s.index()) {" % name)
                eq.append('__ai_assert(a.%s.index() == b.%s.index(), "alternative of %s"); if (a.%s.index() == b.%s.index()) switch (a.%s.index()) {' % ((name,) * 6))
                for i, x in enumerate(alts):
                    mk.append("case %d: { auto &v = m.%s.template emplace<%d>(); %s break; }" % (i + 1, name, i + 1, self.any(x, "v", x.name)))
                    rf.append("case %d: { const auto &v = std::get<%d>(m.%s); %s break; }" % (i + 1, i + 1, name, self.put(x, "ch", "v")))
                    eq.append("case %d: { %s break; }" % (i + 1, self.eq(x, "std::get<%d>(a.%s)" % (i + 1, name), "std::get<%d>(b.%s)" % (i + 1, name), x.name)))
                for l in (mk, rf, eq):
                    l.append("default: break; }")
                continue
            n = "m." + f.name
            if f.label == "req":
                mk.append(self.any(f, n, f.name))
                # without presence an empty string is the absence of the field
                rf.append(("if (%s.size()) { %s }" % (n, self.put(f, "ch", n))) if f.kind in ("string", "bytes") else self.put(f, "ch", n))
                eq.append(self.eq(f, "a." + f.name, "b." + f.name, f.name))
            elif f.label in ("opt", "plain"):
                mk.append("if (__ai_pick(\"has_%s\", 2)) { %s.emplace(); %s }" % (f.name, n, self.any(f, "(*%s)" % n, f.name)))
                rf.append("if (%s.has_value()) { const auto &v = *%s; %s }" % (n, n, self.put(f, "ch", "v")))
                eq.append('__ai_assert(a.%s.has_value() == b.%s.has_value(), "presence of %s"); if (a.%s.has_value() && b.%s.has_value()) { %s }' % (f.name, f.name, f.name, f.name, f.name, self.eq(f, "(*a.%s)" % f.name, "(*b.%s)" % f.name, f.name)))
            elif f.label in ("rep", "pk"):
                if f.fixed and f.kind not in ("string", "bytes"):
                    mk.append("for (size_t i = 0; i < %d; i++) { %s }" % (f.fixed, self.any(f, "%s[i]" % n, f.name)))
                else:
                    if f.kind == "bool":
                        mk.append("for (size_t i = 0, e = __ai_pick(\"count_%s\", %d); i < e; i++) { bool v_; %s %s.push_back(v_); }" % (f.name, f.maxrep + 1, self.any(f, "v_", f.name), n))
                    else:
                        mk.append("for (size_t i = 0, e = __ai_pick(\"count_%s\", %d); i < e; i++) { auto &v_ = %s.emplace_back(); %s }" % (f.name, f.maxrep + 1, n, self.any(f, "v_", f.name)))
                if f.label == "pk":
                    rf.append("ref::packed<%s>(ch, d, %d, %s);" % (K(f.kind), f.num, n))
                else:
                    rf.append("for (size_t i = 0; i < %s.size(); i++) { const auto &v = %s[i]; %s }" % (n, n, self.put(f, "ch", "v")))
                eq.append('__ai_assert(a.%s.size() == b.%s.size(), "count of %s"); if (a.%s.size() == b.%s.size()) for (size_t i = 0; i < a.%s.size(); i++) { const auto &x = a.%s[i]; const auto &y = b.%s[i]; %s }' % ((f.name,) * 8 + (self.eq(f, "x", "y", "element of " + f.name),)))
            elif f.label == "map":
                k = f.key
                mk.append("for (size_t i = 0, e = __ai_pick(\"count_%s\", %d); i < e; i++) { auto &v_ = %s.add(); %s %s }" % (f.name, f.maxrep + 1, n, self.any(k, "v_.first", f.name + ".key"), self.any(f, "v_.second", f.name + ".value")))
                rf.append("for (const auto &kv : %s) { ref::tag(ch, %d, 2); ref::delimited(ch, d, [&](int c_) { int ch = c_, d0 = d; { int d = d0 + 1; (void)d; %s %s } }); }" % (n, f.num, self.putm(k, "ch", "kv.first", 1), self.putm(f, "ch", "kv.second", 2)))
                eq.append('__ai_assert(a.%s.size() == b.%s.size(), "count of %s"); if (a.%s.size() == b.%s.size()) for (size_t i = 0; i < a.%s.size(); i++) { %s %s }' % ((f.name,) * 6 + (self.eq(k, "a.%s.at(i).first" % f.name, "b.%s.at(i).first" % f.name, "key"), self.eq(f, "a.%s.at(i).second" % f.name, "b.%s.at(i).second" % f.name, "value"))))
        return ("[[maybe_unused]] static void mk_%s(%s &m) { (void)m; %s }\n" % (nm, T, "\n  ".join(mk)) +
                "[[maybe_unused]] static void ref_%s(int ch, int d, const %s &m) { (void)ch; (void)d; (void)m; %s }\n" % (nm, T, "\n  ".join(rf)) +
                "[[maybe_unused]] static void eq_%s(const %s &a, const %s &b) { (void)a; (void)b; %s }\n" % (nm, T, T, "\n  ".join(eq)))


class GenJson(Gen):
    """the JSON side: values are the limits of the types, texts are printed by the reference"""
    few = False  # fewer values where they are not the point

    def any(self, f, lv, tag):
        n = '"%s"' % tag
        if f.kind == "string" and not f.fixed and self.few:
            return "any_plain(%s, %s, __ai_pick(\"len\", %d));" % (lv, n, f.maxlen + 1)
        if f.kind in ("string", "bytes", "message"):
            return super().any(f, lv, tag)
        if f.bits:
            return "%s = rj::pick_bits<%s>(%s, %d, %s);" % (lv, f.cpp, n, f.bits, "true" if f.signed else "false")
        return "%s = rj::pick_value<std::remove_cvref_t<decltype(%s)>>(%s);" % (lv, lv, n)

    def eq(self, f, a, b, what):
        if f.kind in ("float", "double"):
            return '__ai_assert(%s == %s || (%s != %s && %s != %s), "%s");' % (a, b, a, a, b, b, what)
        return super().eq(f, a, b, what)

    def val(self, f, v):
        if f.kind == "message":
            return "refj_%s(ch, %s);" % (f.sub.name, v)
        return "rj::value<%s>(ch, %s);" % (K(f.kind), v if not f.bits else "%s(%s)" % ("int64_t" if f.signed else "uint64_t", v))

    def json(self, m):
        T = "%s::%s" % (self.ns, m.name.replace(".", "::"))
        r = []
        fs = [f for f in m.fields if not isinstance(f, tuple) and f.label != "map"]
        fs += [f for f in m.fields if not isinstance(f, tuple) and f.label == "map"]
        fs += [f for f in m.fields if isinstance(f, tuple)]
        for f in fs:
            if isinstance(f, tuple):
                r.append("switch (m.%s.index()) {" % f[0])
                for i, x in enumerate(f[1]):
                    r.append("case %d: { o_.member(\"%s\"); const auto &v = std::get<%d>(m.%s); %s break; }" % (i + 1, x.json or x.name, i + 1, f[0], self.val(x, "v")))
                r.append("default: break; }")
                continue
            n, mem = "m." + f.name, 'o_.member("%s");' % (f.json or f.name)
            if f.label == "req":
                if f.kind in ("string", "bytes"):
                    r.append("if (%s.size()) { %s %s }" % (n, mem, self.val(f, n)))
                else:
                    r.append("%s %s" % (mem, self.val(f, n)))
            elif f.label in ("opt", "plain"):
                r.append("if (%s.has_value()) { %s const auto &v = *%s; %s }" % (n, mem, n, self.val(f, "v")))
            elif f.label in ("rep", "pk"):
                r.append("if (%s.size()) { %s rj::put(ch, '['); for (size_t i = 0; i < %s.size(); i++) { if (i) rj::put(ch, ','); const auto &v = %s[i]; %s } rj::put(ch, ']'); }" % (n, mem, n, n, self.val(f, "v")))
            elif f.label == "map":
                k = f.key
                r.append("if (%s.size()) { %s rj::put(ch, '{'); bool c_ = false; for (const auto &kv : %s) { if (c_) rj::put(ch, ','); c_ = true; rj::key<%s>(ch, kv.first); rj::put(ch, ':'); %s } rj::put(ch, '}'); }" % (n, mem, n, K(k.kind), self.val(f, "kv.second")))
        nm = m.name.replace(".", "_")
        return "[[maybe_unused]] static void refj_%s(int ch, const %s &m) { (void)m; rj::object o_(ch); (void)o_; %s }\n" % (nm, T, "\n  ".join(r))
