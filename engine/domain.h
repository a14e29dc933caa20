// Abstract domain of the interpreter.
//
//  * every bit of an integer is a GF(2)-affine combination of "atoms" (bit-level linear equalities,
//    i.e. Karr's domain over GF(2));
//  * the atoms of one unknown byte form a "group"; a path keeps the SET of values the byte may have
//    (256-bit mask), a non-linear function of one byte is an exact truth table over it;
//  * words keep a canonical linear form (sum of coefficients * bits + constant mod 2^w), so that
//    offsets and sizes cancel exactly;
//  * unsigned intervals, clauses (disjunctions of bits) and the solved form of the equalities are
//    the path facts.
// No solver is involved: everything is closed under the transfer functions below and what can not
// be expressed becomes an opaque (unconstrained, but named) value.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using u128 = unsigned __int128;

using BitId = u32; //- form index * 2 + constant
using BV = u32;    //- interned vector of bits
using AtomId = u32;

struct M256
{
    u64 w[4];
    static M256 none() { return {{0, 0, 0, 0}}; }
    static M256 all() { return {{~0ull, ~0ull, ~0ull, ~0ull}}; }
    bool get(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
    void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
    M256 operator&(const M256 &o) const { return {{w[0] & o.w[0], w[1] & o.w[1], w[2] & o.w[2], w[3] & o.w[3]}}; }
    M256 operator|(const M256 &o) const { return {{w[0] | o.w[0], w[1] | o.w[1], w[2] | o.w[2], w[3] | o.w[3]}}; }
    M256 operator^(const M256 &o) const { return {{w[0] ^ o.w[0], w[1] ^ o.w[1], w[2] ^ o.w[2], w[3] ^ o.w[3]}}; }
    M256 operator~() const { return {{~w[0], ~w[1], ~w[2], ~w[3]}}; }
    bool operator==(const M256 &o) const { return memcmp(w, o.w, sizeof w) == 0; }
    bool operator<(const M256 &o) const { return memcmp(w, o.w, sizeof w) < 0; }
    bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
    bool full() const { return !(~w[0] | ~w[1] | ~w[2] | ~w[3]); }
    int first() const
    {
        for (int i = 0; i < 256; i++)
            if (get(i)) return i;
        return 0;
    }
    int count() const
    {
        int n = 0;
        for (auto x : w) n += __builtin_popcountll(x);
        return n;
    }
};

enum Pred { P_EQ, P_ULT };
enum OpK : u8
{
    O_ADDLIN, // opaque word with a linear definition
    O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM, O_SHL, O_LSHR, O_ASHR,
    O_FRESH,  // unconstrained
    O_FLOAT,  // memoised uninterpreted operation
    O_MUX,
};

struct Atom
{
    enum K : u8 { INPUT, TT, ANDN, CMP, WORD, DTT } k;
    int group = -1; // INPUT, TT
    u8 idx = 0;     // INPUT: bit
    M256 tt{};      // TT, DTT
    std::vector<BitId> mem; // ANDN, DTT inputs
    Pred pred{};    // CMP
    BV a = 0, b = 0;
    u32 word = 0;   // WORD: index to words, idx = bit
};

struct Word
{
    OpK op;
    int width;
    std::string tag;
    std::vector<BV> ops;
    BV self = 0;
    u32 lin = ~0u; // O_ADDLIN
};

struct Lin // sum coef*var + k  (mod 2^width)
{
    int width;
    u64 k;
    std::vector<std::pair<u32, u64>> t; // form index -> coef, sorted
    bool operator<(const Lin &o) const
    {
        if (width != o.width) return width < o.width;
        if (k != o.k) return k < o.k;
        return t < o.t;
    }
};

struct Group
{
    std::string name;
    M256 init; //- possible values (e.g. bool: {0,1})
    int bits;
};

struct VecHash
{
    size_t operator()(const std::vector<u32> &v) const
    {
        u64 h = 0xcbf29ce484222325ull ^ v.size();
        for (auto x : v) h = (h ^ x) * 0x100000001b3ull, h ^= h >> 29;
        return h;
    }
};

#define POISON std::string("shift by ")
#define UNINIT std::string("uninit:")

inline u64 maskW(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct Facts;

struct Dom
{
    std::vector<std::vector<u32>> forms;                       // sorted atoms
    std::unordered_map<std::vector<u32>, u32, VecHash> formIdx;
    std::vector<int> formGroup;                                // single group or -1 (-2: constant)
    std::vector<Atom> atoms;
    std::vector<Group> groups;
    std::map<std::string, u32> groupByName;
    std::map<std::pair<int, M256>, u32> ttAtom;
    std::unordered_map<std::vector<u32>, u32, VecHash> andAtom;
    std::map<std::pair<std::vector<u32>, M256>, u32> dttAtom;
    std::map<std::tuple<int, BV, BV>, u32> cmpAtom;
    std::vector<Word> words;
    std::map<std::tuple<int, int, std::string, std::vector<BV>>, u32> wordIdx;
    std::unordered_map<u64, u32> xorMemo;

    std::vector<std::vector<BitId>> bvs;
    std::unordered_map<std::vector<u32>, BV, VecHash> bvIdx;
    std::vector<u8> bvConst; // 1 all const
    std::vector<u64> bvVal;
    std::map<Lin, BV> byLin;
    std::vector<Lin> lins;
    std::map<Lin, u32> linIdx;
    std::unordered_map<BV, u32> linOf; // BV -> lin

    // the text of a value of undefined behaviour that a bit depends on
    bool hasPoison = false;
    const std::string *poisonOf(BitId b)
    {
        std::set<u32> seenF, seenW;
        std::vector<u32> todo{b >> 1};
        auto vec = [&](BV v) { for (auto x : bvs[v]) if (x >= 2) todo.push_back(x >> 1); };
        while (!todo.empty())
        {
            u32 f = todo.back();
            todo.pop_back();
            if (!seenF.insert(f).second) continue;
            for (auto a : forms[f])
            {
                auto &at = atoms[a];
                for (auto m : at.mem) if (m >= 2) todo.push_back(m >> 1);
                if (at.k == Atom::CMP) vec(at.a), vec(at.b);
                if (at.k != Atom::WORD || !seenW.insert(at.word).second) continue;
                auto &w = words[at.word];
                if (w.op == O_FRESH && (w.tag.rfind(POISON, 0) == 0 || w.tag.rfind(UNINIT, 0) == 0)) return &w.tag;
                for (auto v : w.ops) vec(v);
                if (w.op == O_ADDLIN && w.lin != ~0u)
                    for (auto &t : lins[w.lin].t) todo.push_back(t.first);
            }
        }
        return nullptr;
    }

    Dom()
    {
        forms.push_back({});
        formIdx[{}] = 0;
        formGroup.push_back(-2);
    }
    // ---------------------------------------------------------------- forms
    u32 mkForm(std::vector<u32> a)
    {
        auto it = formIdx.find(a);
        if (it != formIdx.end()) return it->second;
        int g = -3;
        for (auto x : a)
        {
            auto &at = atoms[x];
            int ag = (at.k == Atom::INPUT || at.k == Atom::TT) ? at.group : -1;
            if (g == -3) g = ag;
            else if (g != ag) g = -1;
        }
        u32 id = forms.size();
        forms.push_back(a);
        formGroup.push_back(g);
        formIdx.emplace(std::move(a), id);
        return id;
    }
    BitId bitOfAtom(u32 a) { return mkForm({a}) * 2; }
    int groupOf(BitId b) const { return formGroup[b >> 1]; }

    static M256 inputTT(int i)
    {
        M256 m = M256::none();
        for (unsigned v = 0; v < 256; v++)
            if ((v >> i) & 1) m.set(v);
        return m;
    }
    M256 ttAtomOf(u32 a)
    {
        static std::array<M256, 8> in = [] { std::array<M256, 8> r; for (int i = 0; i < 8; i++) r[i] = inputTT(i); return r; }();
        auto &at = atoms[a];
        if (at.k == Atom::INPUT) return in[at.idx];
        return at.tt;
    }
    M256 ttOf(BitId b)
    {
        M256 m = M256::none();
        for (auto a : forms[b >> 1]) m = m ^ ttAtomOf(a);
        if (b & 1) m = ~m;
        return m;
    }
    u32 inputAtom(int g, int i)
    {
        // atoms of a group are allocated consecutively at creation
        return groupBase[g] + i;
    }
    std::vector<u32> groupBase;
    int mkGroup(const std::string &name, int bits = 8, M256 init = M256::all())
    {
        auto it = groupByName.find(name);
        if (it != groupByName.end()) return it->second;
        int g = groups.size();
        if (bits < 8)
        {
            M256 m = M256::none();
            for (int v = 0; v < (1 << bits); v++) m.set(v);
            init = init & m;
        }
        groups.push_back({name, init, bits});
        groupBase.push_back(atoms.size());
        for (int i = 0; i < 8; i++)
        {
            Atom a;
            a.k = Atom::INPUT;
            a.group = g;
            a.idx = i;
            atoms.push_back(a);
        }
        groupByName[name] = g;
        return g;
    }
    BitId mkTT(int g, M256 m)
    {
        m = m; // functions are total over 0..255
        if (m.empty()) return 0;
        if (m.full()) return 1;
        bool f0 = m.get(0);
        u8 e = 0;
        for (int i = 0; i < 8; i++)
            if (m.get(1u << i) != f0) e |= 1 << i;
        bool aff = true;
        for (unsigned v = 0; v < 256 && aff; v++) aff = m.get(v) == (f0 ^ (__builtin_popcount(v & e) & 1));
        if (aff)
        {
            std::vector<u32> at;
            for (int i = 0; i < 8; i++)
                if (e & (1 << i)) at.push_back(inputAtom(g, i));
            std::sort(at.begin(), at.end());
            return mkForm(at) * 2 + f0;
        }
        if (f0) m = ~m;
        auto key = std::make_pair(g, m);
        auto it = ttAtom.find(key);
        u32 a;
        if (it == ttAtom.end())
        {
            a = atoms.size();
            Atom x;
            x.k = Atom::TT;
            x.group = g;
            x.tt = m;
            atoms.push_back(x);
            ttAtom[key] = a;
        }
        else a = it->second;
        return bitOfAtom(a) ^ (f0 ? 1 : 0);
    }
    BitId bxor(BitId a, BitId b)
    {
        u32 fa = a >> 1, fb = b >> 1;
        u32 c = (a ^ b) & 1;
        if (fa == fb) return c;
        if (!fa) return fb * 2 + c;
        if (!fb) return fa * 2 + c;
        if (fa > fb) std::swap(fa, fb);
        u64 key = ((u64)fa << 32) | fb;
        auto it = xorMemo.find(key);
        if (it != xorMemo.end()) return it->second ^ c;
        std::vector<u32> r;
        std::set_symmetric_difference(forms[fa].begin(), forms[fa].end(), forms[fb].begin(), forms[fb].end(),
                                      std::back_inserter(r));
        // canonical form per group: merge the truth tables of one group
        u32 extra = 0;
        std::map<int, int> cnt;
        std::set<int> hasTT;
        for (auto x : r)
            if (atoms[x].group >= 0 && (atoms[x].k == Atom::INPUT || atoms[x].k == Atom::TT))
            {
                cnt[atoms[x].group]++;
                if (atoms[x].k == Atom::TT) hasTT.insert(atoms[x].group);
            }
        BitId res;
        bool redo = false;
        for (auto g : hasTT)
            if (cnt[g] > 1) redo = true;
        if (redo)
        {
            std::vector<u32> out;
            std::map<int, M256> acc;
            for (auto x : r)
            {
                auto &at = atoms[x];
                if ((at.k == Atom::INPUT || at.k == Atom::TT) && hasTT.count(at.group) && cnt[at.group] > 1)
                {
                    auto f = acc.find(at.group);
                    if (f == acc.end()) acc[at.group] = ttAtomOf(x);
                    else f->second = f->second ^ ttAtomOf(x);
                }
                else out.push_back(x);
            }
            std::vector<BitId> parts;
            for (auto &kv : acc) parts.push_back(mkTT(kv.first, kv.second));
            for (auto p : parts)
            {
                extra ^= p & 1;
                for (auto x : forms[p >> 1]) out.push_back(x);
            }
            std::sort(out.begin(), out.end());
            res = mkForm(out) * 2 + extra;
        }
        else res = mkForm(r) * 2;
        xorMemo[key] = res;
        return res ^ c;
    }
    static BitId bnot(BitId a) { return a ^ 1; }

    std::set<std::vector<BitId>> andFalse;
    BitId andN(std::vector<BitId> m)
    {
        // flatten, merge same group members
        std::vector<BitId> flat;
        for (size_t i = 0; i < m.size(); i++)
        {
            BitId b = m[i];
            if (b == 0) return 0;
            if (b == 1) continue;
            if (!(b & 1) && forms[b >> 1].size() == 1 && atoms[forms[b >> 1][0]].k == Atom::ANDN)
            {
                auto mm = atoms[forms[b >> 1][0]].mem; // copy
                for (auto x : mm) flat.push_back(x);
            }
            else flat.push_back(b);
        }
        std::map<int, M256> g;
        std::map<int, std::vector<BitId>> gm;
        std::vector<BitId> rest;
        for (auto b : flat)
        {
            int gr = groupOf(b);
            if (gr >= 0)
            {
                auto it = g.find(gr);
                if (it == g.end()) g[gr] = ttOf(b);
                else it->second = it->second & ttOf(b);
            }
            else rest.push_back(b);
        }
        for (auto &kv : g)
        {
            BitId b = mkTT(kv.first, kv.second & groups[kv.first].init);
            // keep the total function when it is a constant only inside of the init set
            BitId t = mkTT(kv.first, kv.second);
            if (b == 0) return 0;
            if ((~kv.second & groups[kv.first].init).empty()) continue;
            rest.push_back(t);
        }
        std::sort(rest.begin(), rest.end());
        rest.erase(std::unique(rest.begin(), rest.end()), rest.end());
        for (size_t i = 0; i + 1 < rest.size(); i++)
            if ((rest[i] ^ 1) == rest[i + 1]) return 0;
        if (rest.empty()) return 1;
        if (rest.size() == 1) return rest[0];
        auto it = andAtom.find(rest);
        u32 a;
        if (it == andAtom.end())
        {
            if (andFalse.count(rest)) return 0;
            bool deep = false;
            for (auto b : rest)
                for (auto f : forms[b >> 1]) deep = deep || atoms[f].k == Atom::DTT;
            if (deep)
            {
                std::vector<BitId> base;
                std::vector<M256> tabs;
                if (flatten(rest, base, tabs))
                {
                    M256 t = M256::all();
                    for (auto &x : tabs) t = t & x;
                    if (t.empty())
                    {
                        andFalse.insert(rest);
                        return 0;
                    }
                }
            }
            a = atoms.size();
            Atom x;
            x.k = Atom::ANDN;
            x.mem = rest;
            atoms.push_back(x);
            andAtom[rest] = a;
        }
        else a = it->second;
        return bitOfAtom(a);
    }
    BitId band(BitId a, BitId b)
    {
        if (a == 0 || b == 0) return 0;
        if (a == 1) return b;
        if (b == 1 || a == b) return a;
        if (a == (b ^ 1)) return 0;
        int ga = groupOf(a), gb = groupOf(b);
        if (ga >= 0 && ga == gb) return mkTT(ga, ttOf(a) & ttOf(b));
        return andN({a, b});
    }
    BitId bor(BitId a, BitId b) { return band(a ^ 1, b ^ 1) ^ 1; }
    BitId mux(BitId c, BitId t, BitId f)
    {
        if (c == 1) return t;
        if (c == 0) return f;
        if (t == f) return t;
        return bxor(f, band(c, bxor(t, f)));
    }
    // the bits as functions of at most 8 common base bits; looks through non-linear atoms
    bool flatten(const std::vector<BitId> &bits, std::vector<BitId> &base, std::vector<M256> &tabs)
    {
        bool through = false;
        auto add = [&](BitId b) {
            if (std::find(base.begin(), base.end(), b) == base.end()) base.push_back(b);
            return base.size() <= 8;
        };
        auto addForm = [&](BitId f, int depth, auto &self) -> bool {
            for (auto a : forms[f >> 1])
            {
                auto &at = atoms[a];
                if (at.k == Atom::DTT || at.k == Atom::ANDN)
                {
                    through = true;
                    if (depth > 3) return false;
                    auto mem = at.mem;
                    for (auto m : mem)
                        if (!self(m, depth + 1, self)) return false;
                }
                else if (at.k == Atom::TT)
                {
                    // the bits of the byte the table depends on
                    auto t = at.tt;
                    int g = at.group;
                    for (int i = 0; i < 8; i++)
                    {
                        bool dep = false;
                        for (unsigned v = 0; v < 256 && !dep; v++) dep = t.get(v) != t.get(v ^ (1u << i));
                        if (dep && !add(bitOfAtom(inputAtom(g, i)))) return false;
                    }
                }
                else if (!add(bitOfAtom(a))) return false;
            }
            return true;
        };
        for (auto b : bits)
            if (!addForm(b, 0, addForm)) return false;
        if (!through) return false;
        auto valueOf = [&](u32 a, unsigned v) -> bool {
            auto it = std::find(base.begin(), base.end(), bitOfAtom(a));
            return it != base.end() && ((v >> (it - base.begin())) & 1);
        };
        auto evalForm = [&](BitId b, unsigned v, auto &self) -> bool {
            bool r = b & 1;
            for (auto a : forms[b >> 1])
            {
                auto &at = atoms[a];
                if (at.k == Atom::DTT)
                {
                    unsigned i = 0;
                    for (size_t k = 0; k < at.mem.size(); k++)
                        if (self(at.mem[k], v, self)) i |= 1u << k;
                    r ^= at.tt.get(i);
                }
                else if (at.k == Atom::ANDN)
                {
                    bool all = true;
                    for (auto m : at.mem) all = all && self(m, v, self);
                    r ^= all;
                }
                else if (at.k == Atom::TT)
                {
                    unsigned x = 0;
                    for (int i = 0; i < 8; i++)
                        if (valueOf(inputAtom(at.group, i), v)) x |= 1u << i;
                    r ^= at.tt.get(x);
                }
                else r ^= valueOf(a, v);
            }
            return r;
        };
        for (auto b : bits)
        {
            M256 t = M256::none();
            for (unsigned v = 0; v < (1u << base.size()); v++)
                if (evalForm(b, v, evalForm)) t.set(v);
            tabs.push_back(t);
        }
        return true;
    }
    // function of at most 8 bits given by its truth table
    BitId boolFn(std::vector<BitId> in, M256 tt)
    {
        // canonical polarity, drop constants and duplicates
        for (size_t i = 0; i < in.size();)
        {
            auto restrict_ = [&](size_t pos, bool val)
            {
                M256 n = M256::none();
                unsigned cnt = 1u << (in.size() - 1);
                for (unsigned v = 0; v < cnt; v++)
                {
                    unsigned lo = v & ((1u << pos) - 1), hi = v >> pos;
                    unsigned o = lo | (val ? 1u << pos : 0) | (hi << (pos + 1));
                    if (tt.get(o)) n.set(v);
                }
                tt = n;
                in.erase(in.begin() + pos);
            };
            if (in[i] < 2) { restrict_(i, in[i]); continue; }
            if (in[i] & 1)
            {
                M256 n = M256::none();
                for (unsigned v = 0; v < (1u << in.size()); v++)
                    if (tt.get(v ^ (1u << i))) n.set(v);
                tt = n;
                in[i] ^= 1;
            }
            bool dup = false;
            for (size_t j = 0; j < i; j++)
                if (in[j] == in[i])
                {
                    M256 n = M256::none();
                    for (unsigned v = 0; v < (1u << (in.size() - 1)); v++)
                    {
                        unsigned lo = v & ((1u << i) - 1), hi = v >> i;
                        unsigned o = lo | (((v >> j) & 1) << i) | (hi << (i + 1));
                        if (tt.get(o)) n.set(v);
                    }
                    tt = n;
                    in.erase(in.begin() + i);
                    dup = true;
                    break;
                }
            if (!dup) i++;
        }
        if (in.size() > 1)
        {
            std::vector<BitId> base;
            std::vector<M256> tabs;
            if (flatten(in, base, tabs) && base.size() <= in.size())
            {
                M256 t2 = M256::none();
                for (unsigned v = 0; v < (1u << base.size()); v++)
                {
                    unsigned i = 0;
                    for (size_t k = 0; k < in.size(); k++)
                        if (tabs[k].get(v)) i |= 1u << k;
                    if (tt.get(i)) t2.set(v);
                }
                return boolFn(base, t2);
            }
        }
        unsigned n = 1u << in.size();
        // replicate to 256
        M256 full = M256::none();
        for (unsigned v = 0; v < 256; v++)
            if (tt.get(v & (n - 1))) full.set(v);
        if (full.empty()) return 0;
        if (full.full()) return 1;
        // drop inputs which do not matter
        for (size_t i = 0; i < in.size(); i++)
        {
            bool dep = false;
            for (unsigned v = 0; v < n && !dep; v++) dep = full.get(v) != full.get(v ^ (1u << i));
            if (!dep)
            {
                M256 m = M256::none();
                for (unsigned v = 0; v < n / 2; v++)
                {
                    unsigned lo = v & ((1u << i) - 1), hi = v >> i;
                    if (full.get(lo | (hi << (i + 1)))) m.set(v);
                }
                auto in2 = in;
                in2.erase(in2.begin() + i);
                return boolFn(in2, m);
            }
        }
        // sort
        std::vector<size_t> p(in.size());
        for (size_t i = 0; i < p.size(); i++) p[i] = i;
        std::sort(p.begin(), p.end(), [&](size_t x, size_t y) { return in[x] < in[y]; });
        std::vector<BitId> si;
        for (auto x : p) si.push_back(in[x]);
        M256 st = M256::none();
        for (unsigned v = 0; v < 256; v++)
        {
            unsigned o = 0;
            for (size_t i = 0; i < p.size(); i++)
                if ((v >> i) & 1) o |= 1u << p[i];
            if (full.get(o)) st.set(v);
        }
        // all inputs in one group?
        int g = groupOf(si[0]);
        for (auto b : si)
            if (groupOf(b) != g) g = -1;
        if (g >= 0)
        {
            std::vector<M256> t;
            for (auto b : si) t.push_back(ttOf(b));
            M256 r = M256::none();
            for (unsigned v = 0; v < 256; v++)
            {
                unsigned o = 0;
                for (size_t i = 0; i < si.size(); i++)
                    if (t[i].get(v)) o |= 1u << i;
                if (st.get(o)) r.set(v);
            }
            return mkTT(g, r);
        }
        // affine?
        bool f0 = st.get(0);
        unsigned e = 0;
        for (size_t i = 0; i < si.size(); i++)
            if (st.get(1u << i) != f0) e |= 1u << i;
        bool aff = true;
        for (unsigned v = 0; v < n && aff; v++) aff = st.get(v) == (f0 ^ (__builtin_popcount(v & e) & 1));
        if (aff)
        {
            BitId r = f0;
            for (size_t i = 0; i < si.size(); i++)
                if (e & (1u << i)) r = bxor(r, si[i]);
            return r;
        }
        // conjunction (or its negation)?
        for (int neg = 0; neg < 2; neg++)
        {
            int ones = 0, at = 0;
            for (unsigned v = 0; v < n; v++)
                if (st.get(v) != (bool)neg) ones++, at = v;
            if (ones == 1)
            {
                std::vector<BitId> m;
                for (size_t i = 0; i < si.size(); i++) m.push_back(si[i] ^ (((at >> i) & 1) ? 0 : 1));
                return andN(m) ^ neg;
            }
        }
        if (f0) st = ~st;
        auto key = std::make_pair(si, st);
        auto it = dttAtom.find(key);
        u32 a;
        if (it == dttAtom.end())
        {
            a = atoms.size();
            Atom x;
            x.k = Atom::DTT;
            x.mem = si;
            x.tt = st;
            atoms.push_back(x);
            dttAtom[key] = a;
        }
        else a = it->second;
        return bitOfAtom(a) ^ (f0 ? 1 : 0);
    }
    // ---------------------------------------------------------------- vectors
    BV mkBV(const std::vector<BitId> &b)
    {
        auto it = bvIdx.find(b);
        if (it != bvIdx.end()) return it->second;
        BV id = bvs.size();
        bool c = true;
        u64 v = 0;
        for (size_t i = 0; i < b.size(); i++)
        {
            if (b[i] > 1) c = false;
            else if (b[i] == 1 && i < 64) v |= 1ull << i;
        }
        bvs.push_back(b);
        bvConst.push_back(c);
        bvVal.push_back(c ? v : 0);
        bvIdx.emplace(b, id);
        return id;
    }
    BV cst(int w, u128 v)
    {
        std::vector<BitId> b(w);
        for (int i = 0; i < w; i++) b[i] = i < 128 ? (u32)((v >> i) & 1) : 0;
        return mkBV(b);
    }
    int width(BV v) const { return bvs[v].size(); }
    bool isC(BV v) const { return bvConst[v] && bvs[v].size() <= 64; }
    u64 val(BV v) const { return bvVal[v]; }
    i64 sval(BV v) const
    {
        int w = width(v);
        u64 x = bvVal[v];
        if (w < 64 && ((x >> (w - 1)) & 1)) x |= ~maskW(w);
        return (i64)x;
    }
    BV zext(BV a, int w)
    {
        auto b = bvs[a];
        b.resize(w, 0);
        return mkBV(b);
    }
    BV sext(BV a, int w)
    {
        auto b = bvs[a];
        BitId s = b.back();
        b.resize(w, s);
        return mkBV(b);
    }
    BV trunc(BV a, int w)
    {
        auto b = bvs[a];
        b.resize(w);
        return mkBV(b);
    }
    BV slice(BV a, int lo, int w)
    {
        auto &x = bvs[a];
        return mkBV(std::vector<BitId>(x.begin() + lo, x.begin() + lo + w));
    }
    BV concat(BV lo, BV hi)
    {
        auto b = bvs[lo];
        auto &h = bvs[hi];
        b.insert(b.end(), h.begin(), h.end());
        return mkBV(b);
    }
    template <class F> BV bitwise(BV a, BV b, F f)
    {
        auto x = bvs[a];
        auto y = bvs[b];
        for (size_t i = 0; i < x.size(); i++) x[i] = f(x[i], y[i]);
        return mkBV(x);
    }
    BV vand(BV a, BV b) { return bitwise(a, b, [&](BitId x, BitId y) { return band(x, y); }); }
    BV vor(BV a, BV b) { return bitwise(a, b, [&](BitId x, BitId y) { return bor(x, y); }); }
    BV vxor(BV a, BV b) { return bitwise(a, b, [&](BitId x, BitId y) { return bxor(x, y); }); }
    BV vmux(BitId c, BV a, BV b) { return bitwise(a, b, [&](BitId x, BitId y) { return mux(c, x, y); }); }

    BV word(OpK op, int w, const std::string &tag, const std::vector<BV> &ops, u32 lin = ~0u)
    {
        auto key = std::make_tuple((int)op, w, tag + (lin == ~0u ? "" : "L" + std::to_string(lin)), ops);
        auto it = wordIdx.find(key);
        if (it != wordIdx.end()) return words[it->second].self;
        u32 id = words.size();
        if (op == O_FRESH && (tag.rfind(POISON, 0) == 0 || tag.rfind(UNINIT, 0) == 0)) hasPoison = true;
        words.push_back({op, w, tag, ops, 0, lin});
        std::vector<BitId> b(w);
        for (int i = 0; i < w; i++)
        {
            u32 a = atoms.size();
            Atom x;
            x.k = Atom::WORD;
            x.word = id;
            x.idx = i;
            atoms.push_back(x);
            b[i] = bitOfAtom(a);
        }
        BV v = mkBV(b);
        words[id].self = v;
        wordIdx[key] = id;
        return v;
    }
    // is this BV exactly the value of an opaque word?
    int wordOf(BV v)
    {
        auto &b = bvs[v];
        if (b.empty() || b[0] < 2 || (b[0] & 1)) return -1;
        auto &f = forms[b[0] >> 1];
        if (f.size() != 1 || atoms[f[0]].k != Atom::WORD) return -1;
        int w = atoms[f[0]].word;
        return words[w].self == v ? w : -1;
    }
    // ---------------------------------------------------------------- linear forms
    Lin linear(BV v)
    {
        auto it = linOf.find(v);
        if (it != linOf.end()) return lins[it->second];
        int w = width(v);
        Lin l{w, 0, {}};
        int wi = wordOf(v);
        if (wi >= 0 && words[wi].op == O_ADDLIN) return lins[words[wi].lin];
        std::map<u32, u64> t;
        for (int i = 0; i < w; i++)
        {
            BitId b = bvs[v][i];
            u64 c = 1ull << i;
            if (b & 1)
            {
                l.k += c;
                c = -c;
            }
            if (b >> 1) t[b >> 1] += c;
        }
        l.k &= maskW(w);
        for (auto &kv : t)
            if (kv.second & maskW(w)) l.t.push_back({kv.first, kv.second & maskW(w)});
        linOf[v] = internLin(l);
        byLin.emplace(l, v);
        return l;
    }
    u32 internLin(const Lin &l)
    {
        auto it = linIdx.find(l);
        if (it != linIdx.end()) return it->second;
        u32 id = lins.size();
        lins.push_back(l);
        linIdx[l] = id;
        return id;
    }
    static Lin ladd(const Lin &a, const Lin &b, u64 sb)
    {
        Lin r{a.width, (a.k + sb * b.k) & maskW(a.width), {}};
        size_t i = 0, j = 0;
        while (i < a.t.size() || j < b.t.size())
        {
            u32 v;
            u64 c;
            if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) v = a.t[i].first, c = a.t[i++].second;
            else if (i >= a.t.size() || b.t[j].first < a.t[i].first) v = b.t[j].first, c = sb * b.t[j++].second;
            else v = a.t[i].first, c = a.t[i++].second + sb * b.t[j++].second;
            c &= maskW(a.width);
            if (c) r.t.push_back({v, c});
        }
        return r;
    }
    BV fromLin(const Lin &l0)
    {
        Lin l = l0;
        if (l.t.empty()) return cst(l.width, l.k);
        auto it = byLin.find(l);
        if (it != byLin.end()) return it->second;
        // direct binary representation?
        {
            std::vector<BitId> b(l.width, 0);
            u64 k = l.k;
            bool ok = true;
            std::vector<u8> used(l.width, 0);
            // negative coefficients -2^i: 2^i*(1-v) - 2^i
            for (auto &t : l.t)
            {
                u64 c = t.second, nc = (-c) & maskW(l.width);
                BitId bit = t.first * 2;
                if (c & (c - 1))
                {
                    if ((nc & (nc - 1)) == 0)
                    {
                        k = (k - nc) & maskW(l.width);
                        c = nc;
                        bit ^= 1;
                    }
                    else { ok = false; break; }
                }
                int p = __builtin_ctzll(c);
                if (used[p]) { ok = false; break; }
                used[p] = 1;
                b[p] = bit;
            }
            if (ok)
            {
                for (int i = 0; i < l.width && ok; i++)
                    if ((k >> i) & 1)
                    {
                        if (used[i]) ok = false;
                        else b[i] = 1;
                    }
            }
            if (ok)
            {
                BV v = mkBV(b);
                byLin.emplace(l, v);
                return v;
            }
        }
        u32 li = internLin(l);
        BV v = word(O_ADDLIN, l.width, "", {}, li);
        byLin.emplace(l, v);
        linOf[v] = li;
        return v;
    }
    int commonGroup(BV a, BV b)
    {
        int g = -2;
        for (auto v : {a, b})
            for (auto x : bvs[v])
            {
                int gg = groupOf(x);
                if (gg == -2) continue;
                if (gg < 0) return -1;
                if (g == -2) g = gg;
                else if (g != gg) return -1;
            }
        return g;
    }
    // value of a single group vector for a value of the byte
    std::vector<u64> enumVals(BV a, int g)
    {
        (void)g;
        std::vector<u64> r(256, 0);
        auto &b = bvs[a];
        for (size_t i = 0; i < b.size() && i < 64; i++)
        {
            if (b[i] == 0) continue;
            M256 t = b[i] == 1 ? M256::all() : ttOf(b[i]);
            for (int v = 0; v < 256; v++)
                if (t.get(v)) r[v] |= 1ull << i;
        }
        return r;
    }
    BV fromVals(const std::vector<u64> &vals, int g, int w)
    {
        std::vector<BitId> b(w);
        for (int i = 0; i < w; i++)
        {
            M256 m = M256::none();
            for (int v = 0; v < 256; v++)
                if ((vals[v] >> i) & 1) m.set(v);
            b[i] = mkTT(g, m);
        }
        return mkBV(b);
    }
    BV addsub(BV a, BV b, bool sub)
    {
        int w = width(a);
        if (isC(a) && isC(b)) return cst(w, (sub ? val(a) - val(b) : val(a) + val(b)) & maskW(w));
        if (isC(b) && val(b) == 0) return a;
        if (!sub && isC(a) && val(a) == 0) return b;
        if (sub && a == b) return cst(w, 0);
        if (w > 64) return word(O_FLOAT, w, sub ? "sub" : "add", {a, b});
        if (!sub)
        {
            bool dis = true;
            for (int i = 0; i < w && dis; i++) dis = bvs[a][i] == 0 || bvs[b][i] == 0;
            if (dis) return vor(a, b);
        }
        int g = commonGroup(a, b);
        if (g >= 0)
        {
            auto x = enumVals(a, g), y = enumVals(b, g);
            for (int v = 0; v < 256; v++) x[v] = (sub ? x[v] - y[v] : x[v] + y[v]) & maskW(w);
            return fromVals(x, g, w);
        }
        auto l = ladd(linear(a), linear(b), sub ? ~0ull : 1);
        return fromLin(l);
    }
    BV mul(BV a, BV b)
    {
        int w = width(a);
        if (isC(a) && isC(b)) return cst(w, (val(a) * val(b)) & maskW(w));
        if (isC(a)) std::swap(a, b);
        if (w > 64) return word(O_FLOAT, w, "mul", {a, b});
        if (isC(b))
        {
            u64 c = val(b);
            if (c == 0) return b;
            if (c == 1) return a;
            if ((c & (c - 1)) == 0) return shlC(a, __builtin_ctzll(c));
        }
        int g = commonGroup(a, b);
        if (g >= 0)
        {
            auto x = enumVals(a, g), y = enumVals(b, g);
            for (int v = 0; v < 256; v++) x[v] = (x[v] * y[v]) & maskW(w);
            return fromVals(x, g, w);
        }
        if (isC(b))
        {
            auto l = linear(a);
            Lin z{w, 0, {}};
            return fromLin(ladd(z, l, val(b)));
        }
        if (a > b) std::swap(a, b);
        return word(O_MUL, w, "", {a, b});
    }
    BV shlC(BV a, int n)
    {
        auto &x = bvs[a];
        int w = x.size();
        std::vector<BitId> b(w, 0);
        for (int i = n; i < w; i++) b[i] = x[i - n];
        return mkBV(b);
    }
    BV shrC(BV a, int n, bool ar)
    {
        auto &x = bvs[a];
        int w = x.size();
        std::vector<BitId> b(w, ar ? x[w - 1] : 0);
        for (int i = 0; i + n < w; i++) b[i] = x[i + n];
        return mkBV(b);
    }
    BV flipSign(BV a)
    {
        auto b = bvs[a];
        b.back() ^= 1;
        return mkBV(b);
    }
};
extern Dom D;
