#!/usr/bin/env python3
"""builds a planted bug: seed.py <spec.py> ...; the spec defines id, prop, file, old, new, proto, cpp, needs, breaks"""
import os, subprocess, sys, tempfile, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository, built
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp "$d"/x.proto "$t"/ && _build/src/spb-proto-compiler/spb-protoc -I"$t" --cpp_out="$t" "$t"/x.proto || exit 2
ulimit -v 8000000
g++ -std=c++20 -g -I include -I "$t" -I "$d" "$d"/demo.cpp "$t"/x.pb.cc -o "$t"/demo || exit 3
timeout 60 "$t"/demo
'''
HEAD = '''#include "x.pb.h"
#include <spb/json.hpp>
#include <spb/pb.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
using namespace std::literals;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "failed: %s (line %d)\\n", #c, __LINE__); exit(1); } } while (0)
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
// delivers the text in pieces
struct piece_reader
{
    const char *p; size_t left, piece;
    size_t operator()(void *d, size_t n) { size_t k = n < left ? n : left; if (k > piece) k = piece; memcpy(d, p, k); p += k; left -= k; return k; }
};
'''
def make(spec):
    d = os.path.join(V, "seeded", spec["id"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed.")
    try:
        for k, f in enumerate(["a", "b"]):
            for fn, old, new in spec["edits"]:
                s = open("/repo/" + fn).read() if not os.path.exists(t + "/" + f + "/" + fn) else open(t + "/" + f + "/" + fn).read()
                assert s.count(old) == 1, (spec["id"], s.count(old), old)
                os.makedirs(os.path.dirname(t + "/" + f + "/" + fn), exist_ok=True)
                open(t + "/" + f + "/" + fn, "w").write(s.replace(old, new) if k else s)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(r)
    finally:
        shutil.rmtree(t)
    open(d + "/demo.sh", "w").write(spec.get("demo", DEMO))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/x.proto", "w").write('syntax = "proto2";\npackage x;\n' + spec["proto"] if not spec["proto"].startswith("syntax") else spec["proto"])
    if "cpp" in spec:
        open(d + "/demo.cpp", "w").write((HEAD if not spec.get("nohead") else "") + spec["cpp"])
    json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # changed lines have to be lines of the original repository
    for fn, old, new in spec["edits"]:
        b = subprocess.run(["git", "blame", "-s", fn], cwd="/repo", capture_output=True, text=True).stdout.split("\n")
        text = open("/repo/" + fn).read()
        first = text[:text.index(old)].count("\n")
        ol, nl = old.split("\n"), new.split("\n")
        for i in range(old.count("\n") + 1):
            if ol[i] and ol[i] not in nl and not b[first + i].startswith("^"):
                print("  NOT ORIGINAL:", b[first + i])
for a in sys.argv[1:]:
    ns = {}
    exec(open(a).read(), ns)
    for s in ns["SPECS"]:
        make(s)
        print(s["id"])
