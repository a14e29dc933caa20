"""W17 (no hidden state: effects of the library's functions) and C08 (headers)."""
import re
from core import *
import pbchecks, corpus

# every form of the public API for one message
API = """
void use_$N(const $T &c, $T &m, spb::io::writer w, spb::io::reader r, std::string &s, std::vector<std::byte> &v, void *p, const void *q, size_t n)
{
    spb::pb::serialize(c, w);
    spb::pb::serialize(c, w, {.delimited = true});
    spb::pb::serialize(c, s);
    spb::pb::serialize(c, v);
    spb::pb::serialize(c, p);
    (void)spb::pb::serialize<std::string>(c);
    (void)spb::pb::serialize<std::vector<std::byte>>(c);
    (void)spb::pb::serialize_size(c);
    spb::pb::deserialize(m, r);
    spb::pb::deserialize(m, r, {.delimited = true});
    spb::pb::deserialize(m, s);
    spb::pb::deserialize(m, v);
    spb::pb::deserialize(m, q, n);
    (void)spb::pb::deserialize<$T>(s);
    (void)spb::pb::deserialize<$T>(r);
    spb::json::serialize(c, w);
    spb::json::serialize(c, s);
    spb::json::serialize(c, v);
    spb::json::serialize(c, p);
    (void)spb::json::serialize<std::string>(c);
    (void)spb::json::serialize_size(c);
    spb::json::deserialize(m, r);
    spb::json::deserialize(m, s);
    spb::json::deserialize(m, v);
    spb::json::deserialize(m, q, n);
    (void)spb::json::deserialize<$T>(s);
    (void)spb::json::deserialize<$T>(r);
}
"""

# functions whose result or effect depends on more than their arguments: locale, time, environment, other calls, files
IMPURE = set("""setlocale localeconv newlocale uselocale duplocale nl_langinfo strtod strtof strtold atof strtod_l printf fprintf sprintf snprintf vprintf vsprintf vsnprintf vfprintf
sscanf scanf fscanf vsscanf __isoc99_sscanf __isoc23_sscanf isalpha isdigit isalnum isspace isupper islower isxdigit ispunct isprint isgraph iscntrl isblank toupper tolower towupper towlower iswalpha iswspace __ctype_b_loc
__ctype_tolower_loc __ctype_toupper_loc strcoll strxfrm mbtowc mbstowcs wctomb wcstombs mbrtowc wcrtomb mblen time clock clock_gettime gettimeofday localtime gmtime asctime ctime mktime strftime
rand srand random srandom drand48 rand_r getrandom getentropy getenv secure_getenv setenv putenv strtok strerror system fopen fclose fread fwrite fputs fputc puts putchar fgets getc
fgetc open close read write mmap munmap lseek unlink rename sleep usleep nanosleep pthread_create pthread_mutex_lock pthread_mutex_unlock pthread_once pthread_self pthread_getspecific pthread_setspecific signal raise exit
_exit quick_exit abort atexit __cxa_atexit __cxa_thread_atexit setjmp longjmp fork fegetround fesetround sched_yield gettid getpid""".split()) - {"abort"}
IMPURE_CXX = re.compile(r"^std::(locale|ios_base|basic_ostream|basic_istream|basic_iostream|basic_filebuf|ostream|istream|random_device|chrono::_V2::\w+_clock::now|this_thread|__basic_file|use_facet|has_facet|ctype|num_put|num_get|thread|mutex|condition_variable|__throw_future)|^std::__cxx11::basic_(string|o|i)?stream")
ALLOWED_GLOBALS = {"__libc_single_threaded"}  # reference counts of the standard library's shared pointers


def demangle(names):
    names = list(names)
    r = sh(["llvm-cxxfilt-18"], input="\n".join(names))
    if r.returncode:
        raise CheckError("llvm-cxxfilt fails")
    return dict(zip(names, r.stdout.split("\n")))


class Module:
    """functions of a module in LLVM assembly with the globals and functions they mention"""
    NAME = r'@("[^"]+"|[-\w.$]+)'

    def __init__(self, text):
        self.meta, self.vars, self.defs, self.decls = {}, {}, {}, set()
        self.text = dict(re.findall(self.NAME + r' = private unnamed_addr constant \[\d+ x i8\] c"([^"]*)"', text))
        cur = None
        for l in text.split("\n"):
            if cur is not None:
                if l == "}":
                    cur = None
                elif "@" in l:
                    f = re.search(r"call .*@(v?s?n?printf|vs?n?printf|sprintf|fprintf|printf)\(", l)
                    if f and self.plain_format(l):
                        l = l.replace("@" + f[1], "")
                    self.defs[cur]["uses"].update(x.strip('"') for x in re.findall(self.NAME, l))
                continue
            if l.startswith("!"):
                m = re.match(r"!(\d+) = (.*)", l)
                if m:
                    self.meta[m[1]] = m[2]
            elif l.startswith("@"):
                m = re.match(self.NAME + r" = ((?:[\w()]+ )*?)(global|constant|alias|ifunc) ", l)
                if m:
                    dbg = re.search(r"!dbg !(\d+)", l)
                    self.vars[m[1].strip('"')] = {"const": m[3] != "global", "tls": "thread_local" in m[2], "dbg": dbg and dbg[1], "linkage": m[2], "kind": m[3], "refs": set(x.strip('"') for x in re.findall(self.NAME, l))}
            elif l.startswith("define "):
                m = re.search(self.NAME + r"\(", l)
                dbg = re.search(r"!dbg !(\d+)", l)
                cur = m[1].strip('"')
                self.defs[cur] = {"uses": set(), "dbg": dbg and dbg[1], "head": l}
            elif l.startswith("declare "):
                self.decls.add(re.search(self.NAME + r"\(", l)[1].strip('"'))

    def plain_format(self, call):
        """a constant format of integers and text only: not subject to the locale"""
        g = [x for x in re.findall(self.NAME, call) if x in self.text]
        if not g or "@fprintf" in call or "@printf" in call:
            return False
        conv = re.findall(r"%([-+ #0-9.]*(?:hh|h|ll|l|j|z|t)?[a-zA-Z%])", self.text[g[0]])
        return all(re.fullmatch(r"[-+ #0-9.]*(hh|h|ll|l|j|z|t)?[diuxXo]|[-0-9.]*[cs]|%", c) for c in conv)

    def field(self, n, f):
        m = re.search(r"\b%s: (?:!(\d+)|(\d+)|\"([^\"]*)\")" % f, self.meta.get(n or "", ""))
        return m and (m[1] or m[2] or m[3])

    def place(self, n):
        if n is None:
            return "?"
        f = self.field(n, "file")
        return "%s:%s" % (self.field(f, "filename") or "?", self.field(n, "line") or "?")

    def const_type(self, g):
        """the declared type of the variable is const"""
        e = self.vars[g]["dbg"]
        v = self.field(e, "var") if e else None
        t = self.field(v, "type") if v else None
        while t:
            d = self.meta.get(t, "")
            if "DW_TAG_const_type" in d:
                return True
            if "DW_TAG_array_type" in d or "DW_TAG_typedef" in d:
                t = self.field(t, "baseType")
                continue
            return False
        return False

    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            if f in self.defs:
                todo += self.defs[f]["uses"]
            elif f in self.vars:
                todo += self.vars[f]["refs"]
        return seen


def lib_place(p):
    return p.replace(REPO + "/", "")


def effects(w, unit, text, rule, roots):
    """no function that the API reaches touches a mutable global or calls something whose result depends on more than its arguments"""
    p = os.path.join(w.dir, unit + ".cpp")
    open(p, "w").write(text)
    r = sh(["clang++-18", "-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-S", "-emit-llvm", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-Wno-everything",
            "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(w.dir, "gen"), "-I" + DRV, "-I" + w.dir, p, "-o", p + ".ll"])
    if r.returncode:
        w.errors.append("%s does not compile against the tree: %s" % (unit, " / ".join(l for l in r.stderr.split("\n") if "error" in l)[:1500]))
        return
    m = Module(open(p + ".ll").read())
    todo = [f for f in m.defs if re.search(roots, f)]
    if not todo:
        raise CheckError("no entry functions in " + unit)
    # an address that is taken may be called: tables of functions (virtual functions) are constants, what they mention counts as reached
    seen = m.reach(todo + [f for f in m.defs if re.search(r"^_ZTV|^_ZT[hv]", f)])
    fs = sorted(f for f in seen if f in m.defs)
    names = set(fs) | {g for f in fs for g in m.defs[f]["uses"]}
    nm = demangle(sorted(names))
    with w.lock:
        c = w.cov
        c["functions_examined"] = c.get("functions_examined", 0) + len(fs)
        c.setdefault("external_functions", [])
        c["references_examined"] = c.get("references_examined", 0) + sum(len(m.defs[f]["uses"]) for f in fs)
    ext = set()
    for f in fs:
        for g in sorted(m.defs[f]["uses"]):
            site = "%s  in %s" % (lib_place(m.place(m.defs[f]["dbg"])), nm[f][:300])
            if g in m.vars:
                v = m.vars[g]
                if g in ALLOWED_GLOBALS or v["const"]:
                    continue
                base = g[4:] if g.startswith("_ZGV") else None
                guarded = base and next((x for x in m.vars if x == "_Z" + base), None)
                if m.const_type(g) or guarded and m.const_type(guarded):
                    continue
                w.viol.append(Violation(rule, site, "uses the %s variable %s, which is shared by all calls" % ("thread local" if v["tls"] else "static", nm.get(g, g)), unit))
            elif g in m.decls:
                ext.add(nm[g])
                if g in IMPURE or IMPURE_CXX.search(nm[g]):
                    if g == "__cxa_atexit":
                        continue
                    w.viol.append(Violation(rule, site, "calls %s, whose result or effect depends on more than its arguments" % nm[g], unit))
    with w.lock:
        w.cov["external_functions"] = sorted(set(w.cov["external_functions"]) | {e for e in ext if not e.startswith("llvm.")})


def w17(w):
    rule = "the result depends on the arguments only"
    fs = pbchecks.all_files()
    pmap(lambda f: w.gen_file(f), fs)

    def unit(f):
        t = '#include <cstddef>\n#include <string>\n#include <vector>\n#include "%s.pb.cc"\n#include <spb/pb.hpp>\n#include <spb/json.hpp>\n' % f.name
        for m in f.msgs:
            T = "%s::%s" % (f.ns, m.name.replace(".", "::"))
            t += API.replace("$N", m.name.replace(".", "_")).replace("$T", T)
        effects(w, "w17_" + f.name, t, rule, r"^_Z\d+use_")
    pmap(unit, fs)
    body = """
  M m{}; mk_$M(m);
  spb::pb::serialize(m, spb::io::writer(ref::log_writer{0}));
  const size_t s0 = spb::pb::serialize_size(m);
  { // other calls in between, that succeed and fail
    uint8_t x[2] = {(uint8_t)__ai_any("first", 8), 1};
    M o{};
    try { spb::pb::deserialize(o, x, 2); } catch (...) {}
    try { spb::json::deserialize(o, "{\\"a\\":tru", 9); } catch (...) {}
    M e{};
    try { spb::json::serialize(e, spb::io::writer(ref::log_writer{2})); spb::pb::serialize(e, spb::io::writer(ref::log_writer{3})); } catch (...) {}
  }
  spb::pb::serialize(m, spb::io::writer(ref::log_writer{1}));
  __ai_assert_logs(0, 1, "the same message is encoded the same way");
  __ai_assert(s0 == spb::pb::serialize_size(m), "and has the same size");
  __ai_cover("done");"""
    pbchecks.run_per_message(w, fs, body, rule)
    return w.finish()


# ---------------------------------------------------------------------------------------------- C08
LINK = {
    "a/x.proto": 'syntax = "proto2";\npackage a;\nimport "b/x.proto";\nmessage M { optional int32 i = 1; optional b.M m = 2; enum E { Z = 0; } optional E e = 3; oneof o { string s = 4; bytes t = 5; } map<string, E> p = 6; message N { required E e = 1; } repeated N n = 7; }\nenum E { Q = 0; }\nmessage Empty {}\n',
    "b/x.proto": 'syntax = "proto3";\npackage b;\nmessage M { int32 i = 1; enum E { Z = 0; } E e = 3; oneof o { string s = 4; bytes t = 5; } map<string, E> p = 6; message N { E e = 1; } repeated N n = 7; }\nenum E { Q = 0; }\nmessage Empty {}\n',
    "c.proto": 'package a.b;\nimport "a/x.proto";\nmessage M { optional a.M i = 1; optional M m = 2; enum E { Z = 0; } optional E e = 3; }\nenum E { Q = 0; }\nmessage A { optional B b = 1; }\nmessage B { repeated A a = 1; }\n',
    "plain.proto": 'message M { optional int32 i = 1; repeated string s = 2; enum E { Z = 0; } optional E e = 3; }\nenum E { Q = 0; }\nmessage Empty {}\n',
    "fixed.proto": 'package f;\noption (spb_fileopt).include = "<array>";\nmessage M { required string s = 1 [(spb_opt).string = "std::array<$,4>"]; required int32 b = 2 [(spb_opt).type = "int8:3"]; repeated fixed32 r = 3 [packed = true, (spb_opt).repeated = "std::array<$,3>"]; }\n',
    "empty.proto": '',
}


def c08(w):
    rule = "headers are self-contained and define nothing twice"
    base = os.path.join(REPO, "include")
    hs = sorted(os.path.relpath(os.path.join(d, f), base) for d, _, fs in os.walk(base) for f in fs if f.endswith((".h", ".hpp", ".hxx", ".hh")))
    if not hs:
        raise CheckError("no headers")
    d = os.path.join(w.dir, "gen")
    for n, t in LINK.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "w").write(t)
    r = sh([w.sprotoc(), "--cpp_out=" + d, "-I", d] + [os.path.join(d, n) for n in LINK], cwd=d)
    if r.returncode:
        w.viol.append(Violation(rule, "a/x.proto", "the schema compiler does not accept it: " + r.stderr[-300:]))
        return w.finish()
    gen = [n[:-6] + ".pb.h" for n in LINK]
    inc = ["-I" + base, "-I" + d]
    jobs = []
    for h in hs + gen:
        for twice in (0, 1):
            jobs.append((h, ["<%s>" % h] * (1 + twice)))
    rnd = __import__("random").Random(3)
    orders = [hs + gen, gen[::-1] + hs[::-1]]
    for _ in range(24 if w.tier == "thorough" else 6):
        o = hs + gen
        rnd.shuffle(o)
        orders.append(o)
    for a in gen:
        for b in gen:
            if a != b:
                orders.append([a, b])
    jobs += [("%s ..." % o[0], ["<%s>" % h for h in o]) for o in orders]
    done = []

    def cc(j):
        i, (n, l) = j
        p = os.path.join(w.dir, "h%d.cpp" % i)
        open(p, "w").write("".join("#include %s\n" % x for x in l) + "int main() {}\n")
        out = []
        for c in (["clang++-18"], ["g++"]) if len(l) > 2 or i % 2 == 0 else (["clang++-18"],):
            r = sh(c + ["-std=c++20", "-fsyntax-only", "-w"] + inc + [p])
            done.append(1)
            if r.returncode:
                out.append((n, l, c[0], r.stderr))
        return out
    for o in pmap(cc, list(enumerate(jobs))):
        for n, l, c, err in o:
            e = [x for x in err.split("\n") if "error" in x]
            w.viol.append(Violation(rule, "include/" + l[0].strip("<>") if l[0].strip("<>") in hs else l[0].strip("<>"), "does not compile %s: %s" % ("alone" if len(l) == 1 else "twice" if len(set(l)) == 1 else "with the others in this order", re.sub(r"/\S*/(?=[^/\s]+:)", "", e[0])[:300] if e else err[-200:]), err[:3000]))
    # what the headers define, in LLVM assembly: nothing that two translation units would both define
    def bc(a):
        n, t = a
        p = os.path.join(w.dir, n + ".cpp")
        open(p, "w").write(t)
        r = sh(["clang++-18", "-std=c++20", "-O0", "-g", "-S", "-emit-llvm", "-Wno-everything"] + inc + [p, "-o", p + ".ll"])
        return n, p + ".ll", r
    uses = "".join("void use%d(%s &m, std::string &s) { spb::pb::serialize(m, s); spb::pb::deserialize(m, s); spb::json::serialize(m, s); spb::json::deserialize(m, s); }\n" % (i, t) for i, t in enumerate(["a::M", "b::M", "a::b::M", "::M", "f::M", "a::b::A"]))
    tus = [("all", "".join("#include <%s>\n" % h for h in hs + gen) + "namespace here {\n" + uses + "}\n")]
    tus += [("g%d" % i, "#include <%s>\n" % h) for i, h in enumerate(hs + gen)]
    lls = []
    defs = 0
    for n, ll, r in pmap(bc, tus):
        if r.returncode:
            if not w.viol:
                w.errors.append("%s does not compile: %s" % (n, r.stderr[-1500:]))
            continue
        m = Module(open(ll).read())
        for f, v in m.defs.items():
            defs += 1
            if not re.search(r"\b(linkonce_odr|linkonce|internal|private|available_externally|weak_odr|weak)\b", v["head"].split("@")[0]) and not re.match(r"_ZN4here", f):
                w.viol.append(Violation(rule, lib_place(m.place(v["dbg"])), "the header defines %s in every translation unit: not inline" % demangle([f])[f][:200]))
        for g, v in m.vars.items():
            defs += 1
            if not re.search(r"\b(external|linkonce_odr|linkonce|internal|private|available_externally|weak_odr|weak|extern_weak|appending)\b", v["linkage"]):
                w.viol.append(Violation(rule, lib_place(m.place(m.field(v["dbg"], "var") if v["dbg"] else None)), "the header defines the variable %s in every translation unit: not inline" % demangle([g])[g][:200]))
    # all generated sources in one program
    srcs = [("s%d" % i, '#include "%s"\n' % (n[:-6] + ".pb.cc")) for i, n in enumerate(LINK)] + [("user1", tus[0][1]), ("user2", tus[0][1].replace("here", "there"))]
    for n, ll, r in pmap(bc, srcs):
        if r.returncode:
            w.viol.append(Violation(rule, n, "a generated source does not compile: " + r.stderr[-400:]))
        lls.append(ll)
    if not w.viol:
        r = sh(["llvm-link-18"] + lls + ["-o", os.path.join(w.dir, "prog.bc")])
        if r.returncode:
            w.viol.append(Violation(rule, ", ".join(LINK), "the generated sources and their users do not link into one program: " + re.sub(r"/\S*/", "", r.stderr.strip())[-400:]))
        else:
            # everything of the library and the generated code that is used is defined somewhere
            r = sh(["llvm-dis-18", os.path.join(w.dir, "prog.bc"), "-o", os.path.join(w.dir, "prog.ll")])
            m = Module(open(os.path.join(w.dir, "prog.ll")).read())
            nm = demangle(sorted(m.decls))
            for f in sorted(m.decls):
                if re.search(r"\bspb::", nm[f].split("(")[0]) and not nm[f].startswith("std::"):
                    w.viol.append(Violation(rule, "generated sources", "declared and used, but defined nowhere: " + nm[f][:300]))
    w.cov.update({"headers": hs, "translation_units": len(done) + len(tus) + len(srcs), "definitions_examined": defs, "include_orders": len(orders)})
    return w.finish()
