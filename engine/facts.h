// Path facts: solved equalities, byte value sets, clauses and intervals.
#pragma once
#include "domain.h"

struct Facts
{
    std::vector<std::pair<u32, BitId>> subst;      // sorted by atom
    std::vector<std::pair<int, M256>> masks;       // sorted by group
    std::vector<std::vector<BitId>> clauses;
    std::map<BV, std::pair<u64, u64>> ranges;
    mutable std::unordered_map<u32, BitId> cf;
    mutable std::unordered_map<BV, BV> cb;
    mutable std::unordered_map<BV, std::pair<u64, u64>> cr;
    mutable int depth = 0;

    Facts() = default;
    Facts(const Facts &o) : subst(o.subst), masks(o.masks), clauses(o.clauses), ranges(o.ranges) {}
    void clear() { cf.clear(); cb.clear(); cr.clear(); }

    M256 mask(int g) const
    {
        auto it = std::lower_bound(masks.begin(), masks.end(), g, [](auto &a, int b) { return a.first < b; });
        if (it != masks.end() && it->first == g) return it->second;
        return D.groups[g].init;
    }
    void setMask(int g, M256 m)
    {
        auto it = std::lower_bound(masks.begin(), masks.end(), g, [](auto &a, int b) { return a.first < b; });
        if (it != masks.end() && it->first == g) it->second = m;
        else masks.insert(it, {g, m});
    }
    const BitId *findSubst(u32 a) const
    {
        auto it = std::lower_bound(subst.begin(), subst.end(), a, [](auto &x, u32 b) { return x.first < b; });
        if (it != subst.end() && it->first == a) return &it->second;
        return nullptr;
    }
    void addSubst(u32 a, BitId b)
    {
        auto it = std::lower_bound(subst.begin(), subst.end(), a, [](auto &x, u32 y) { return x.first < y; });
        if (it != subst.end() && it->first == a) it->second = b;
        else subst.insert(it, {a, b});
    }
    BitId redAtom(u32 a) const
    {
        if (auto *s = findSubst(a)) return red(*s);
        const Atom at = D.atoms[a];
        switch (at.k)
        {
        case Atom::INPUT:
        case Atom::TT:
        {
            M256 m = mask(at.group), t = D.ttAtomOf(a);
            if ((t & m).empty()) return 0;
            if ((~t & m).empty()) return 1;
            return D.bitOfAtom(a);
        }
        case Atom::ANDN:
        {
            bool ch = false;
            std::vector<BitId> m;
            for (auto b : at.mem)
            {
                BitId r = red(b);
                if (r == 0) return 0;
                ch |= r != b;
                m.push_back(r);
            }
            return ch ? D.andN(m) : D.bitOfAtom(a);
        }
        case Atom::DTT:
        {
            bool ch = false;
            std::vector<BitId> m;
            for (auto b : at.mem)
            {
                BitId r = red(b);
                ch |= r != b;
                m.push_back(r);
            }
            return ch ? D.boolFn(m, at.tt) : D.bitOfAtom(a);
        }
        case Atom::CMP:
        {
            if (depth > 60) return D.bitOfAtom(a);
            BV x = redBV(at.a), y = redBV(at.b);
            depth++;
            BitId r = cmp(at.pred, x, y);
            depth--;
            return r;
        }
        case Atom::WORD:
        {
            if (depth > 60) return D.bitOfAtom(a);
            BV self = D.words[at.word].self;
            depth++;
            BV r = redWord(at.word);
            depth--;
            if (r == self) return D.bitOfAtom(a);
            BitId b = D.bvs[r][at.idx];
            if (b == D.bitOfAtom(a)) return b;
            return b; // already reduced
        }
        }
        return D.bitOfAtom(a);
    }
    // a sum of functions of single bytes: parts that are constant are folded, parts that do not overlap are put side by side
    bool separate(const Lin &l, BV &out) const
    {
        struct Part { int g; std::vector<u64> t; u64 max = 0; int shift = 64; };
        std::vector<Part> ps;
        std::vector<std::pair<u32, u64>> rest;
        u64 M = maskW(l.width);
        for (auto &p : l.t)
        {
            int g = D.groupOf(p.first * 2);
            if (g < 0) { rest.push_back(p); continue; }
            size_t i = 0;
            while (i < ps.size() && ps[i].g != g) i++;
            if (i == ps.size())
            {
                if (i == 4) return false;
                ps.push_back({g, std::vector<u64>(256, 0)});
            }
            M256 m = D.ttOf(p.first * 2);
            for (int v = 0; v < 256; v++)
                if (m.get(v)) ps[i].t[v] += p.second;
        }
        if (ps.size() + (rest.empty() ? 0 : 1) < 2) return false;
        u64 k = l.k;
        bool folded = false;
        for (size_t i = 0; i < ps.size();)
        {
            auto &p = ps[i];
            M256 m = mask(p.g);
            // smallest value, as a signed number
            i64 lo = INT64_MAX;
            for (int v = 0; v < 256; v++)
                if (m.get(v))
                {
                    u64 x = p.t[v] & M;
                    if (l.width < 64 && ((x >> (l.width - 1)) & 1)) x |= ~M;
                    lo = std::min(lo, (i64)x);
                }
            for (int v = 0; v < 256; v++)
            {
                p.t[v] = (p.t[v] - (u64)lo) & M;
                if (!m.get(v)) continue;
                p.max = std::max(p.max, p.t[v]);
                if (p.t[v]) p.shift = std::min(p.shift, __builtin_ctzll(p.t[v]));
            }
            if (p.max == 0)
            {
                k += (u64)lo;
                folded = true;
                ps.erase(ps.begin() + i);
                continue;
            }
            for (int v = 0; v < 256; v++)
                if (!m.get(v)) p.t[v] = 0;
            k += (u64)lo;
            i++;
        }
        k &= M;
        if (!rest.empty())
        {
            if (!folded) return false;
            Lin n{l.width, l.k, {}};
            // drop the terms of the constant parts
            std::set<int> live;
            for (auto &p : ps) live.insert(p.g);
            u64 base = 0;
            for (auto &p : l.t)
            {
                int g = D.groupOf(p.first * 2);
                if (g < 0 || live.count(g)) n.t.push_back(p);
                else
                {
                    int v = mask(g).first();
                    if (D.ttOf(p.first * 2).get(v)) base += p.second;
                }
            }
            n.k = (l.k + base) & M;
            out = D.fromLin(n);
            return true;
        }
        if (ps.empty()) { out = D.cst(l.width, k); return true; }
        std::sort(ps.begin(), ps.end(), [](auto &a, auto &b) { return a.shift < b.shift; });
        std::vector<BitId> bits(l.width, 0);
        int at = 0; // bits below are done
        for (size_t i = 0; i < ps.size(); i++)
        {
            int end = i + 1 < ps.size() ? std::min(ps[i + 1].shift, l.width) : l.width;
            if (end <= at) return false;
            u64 low = maskW(end), base = k & low;
            k &= ~low;
            M256 m = mask(ps[i].g);
            bool first = true;
            u64 carry = 0;
            std::vector<u64> vals(256, 0);
            for (int v = 0; v < 256; v++)
            {
                u64 x = base + ps[i].t[v];
                vals[v] = x & low;
                if (end >= 64 || end == l.width || !m.get(v)) continue;
                u64 c = x >> end;
                if (!first && c != carry) return false;
                carry = c;
                first = false;
            }
            if (end < 64) k += carry << end;
            for (int b = at; b < end; b++)
            {
                M256 t = M256::none();
                for (int v = 0; v < 256; v++)
                    if ((vals[v] >> b) & 1) t.set(v);
                bits[b] = red(D.mkTT(ps[i].g, t));
            }
            at = end;
        }
        out = D.mkBV(bits);
        return true;
    }
    BV redWord(u32 wi) const
    {
        const Word w = D.words[wi];
        if (w.op == O_FRESH) return w.self;
        if (w.op == O_ADDLIN)
        {
            const Lin l = D.lins[w.lin];
            std::map<u32, u64> t;
            u64 k = l.k;
            bool ch = false;
            for (auto &p : l.t)
            {
                BitId r = red(p.first * 2);
                if (r != p.first * 2) ch = true;
                u64 c = p.second;
                if (r & 1) { k += c; c = -c; }
                if (r >> 1) t[r >> 1] += c;
            }
            if (!ch)
            {
                BV r = 0;
                return separate(l, r) ? r : w.self;
            }
            Lin n{l.width, k & maskW(l.width), {}};
            int g = -2;
            for (auto &kv : t)
                if (kv.second & maskW(l.width))
                {
                    n.t.push_back({kv.first, kv.second & maskW(l.width)});
                    int gg = D.groupOf(kv.first * 2);
                    g = g == -2 ? gg : (g == gg ? g : -1);
                }
            if (g >= 0)
            {
                std::vector<u64> vals(256, n.k);
                for (auto &p : n.t)
                {
                    M256 m = D.ttOf(p.first * 2);
                    for (int v = 0; v < 256; v++)
                        if (m.get(v)) vals[v] += p.second;
                }
                for (auto &v : vals) v &= maskW(l.width);
                return D.fromVals(vals, g, l.width);
            }
            BV r = 0;
            if (separate(n, r)) return r;
            return D.fromLin(n);
        }
        bool ch = false;
        std::vector<BV> ops;
        for (auto o : w.ops)
        {
            BV r = redBV(o);
            ch |= r != o;
            ops.push_back(r);
        }
        if (!ch) return w.self;
        switch (w.op)
        {
        case O_MUL: return D.mul(ops[0], ops[1]);
        case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: return divrem(w.op, ops[0], ops[1]);
        case O_SHL: case O_LSHR: case O_ASHR: return shift(w.op, ops[0], ops[1]);
        default: break;
        }
        if (w.op == O_FLOAT) return D.word(O_FLOAT, w.width, w.tag, ops);
        return w.self;
    }
    static BV divrem(OpK op, BV a, BV b)
    {
        int w = D.width(a);
        if (D.isC(a) && D.isC(b) && D.val(b))
        {
            switch (op)
            {
            case O_UDIV: return D.cst(w, D.val(a) / D.val(b));
            case O_UREM: return D.cst(w, D.val(a) % D.val(b));
            case O_SDIV: return D.cst(w, (u64)(D.sval(b) == -1 ? -(u64)D.sval(a) : D.sval(a) / D.sval(b)) & maskW(w));
            default: return D.cst(w, (u64)(D.sval(b) == -1 ? 0 : D.sval(a) % D.sval(b)) & maskW(w));
            }
        }
        if (D.isC(b) && D.val(b))
        {
            u64 c = D.val(b);
            if ((c & (c - 1)) == 0)
            {
                int n = __builtin_ctzll(c);
                if (op == O_UDIV) return D.shrC(a, n, false);
                if (op == O_UREM) return D.vand(a, D.cst(w, c - 1));
            }
            int g = D.commonGroup(a, a);
            if (g >= 0)
            {
                auto x = D.enumVals(a, g);
                for (auto &v : x)
                {
                    i64 s = w < 64 && ((v >> (w - 1)) & 1) ? (i64)(v | ~maskW(w)) : (i64)v;
                    switch (op)
                    {
                    case O_UDIV: v = v / c; break;
                    case O_UREM: v = v % c; break;
                    case O_SDIV: v = (u64)(s / D.sval(b)) & maskW(w); break;
                    default: v = (u64)(s % D.sval(b)) & maskW(w);
                    }
                }
                return D.fromVals(x, g, w);
            }
        }
        return D.word(op, w, "", {a, b});
    }
    static BV shift(OpK op, BV a, BV n)
    {
        int w = D.width(a);
        if (D.isC(n))
        {
            u64 s = D.val(n);
            if (s >= (u64)w) return D.cst(w, 0); // poison
            return op == O_SHL ? D.shlC(a, s) : D.shrC(a, s, op == O_ASHR);
        }
        int g = D.commonGroup(a, n);
        if (g >= 0)
        {
            auto x = D.enumVals(a, g), y = D.enumVals(n, g);
            for (int v = 0; v < 256; v++)
            {
                u64 s = y[v];
                if (s >= (u64)w) { x[v] = 0; continue; }
                if (op == O_SHL) x[v] = (x[v] << s) & maskW(w);
                else if (op == O_LSHR) x[v] >>= s;
                else
                {
                    i64 t = w < 64 && ((x[v] >> (w - 1)) & 1) ? (i64)(x[v] | ~maskW(w)) : (i64)x[v];
                    x[v] = (u64)(t >> s) & maskW(w);
                }
            }
            return D.fromVals(x, g, w);
        }
        return D.word(op, w, "", {a, n});
    }
    BitId red(BitId b) const
    {
        u32 f = b >> 1;
        if (!f) return b;
        auto it = cf.find(f);
        if (it != cf.end()) return it->second ^ (b & 1);
        const std::vector<u32> at = D.forms[f];
        BitId r = 0;
        for (auto a : at) r = D.bxor(r, redAtom(a));
        if (r > 1)
        {
            int g = D.groupOf(r);
            if (g >= 0)
            {
                M256 m = mask(g), t = D.ttOf(r);
                if ((t & m).empty()) r = 0;
                else if ((~t & m).empty()) r = 1;
            }
        }
        cf[f] = r;
        return r ^ (b & 1);
    }
    BV redBV(BV v) const
    {
        if (D.bvConst[v]) return v;
        auto it = cb.find(v);
        if (it != cb.end()) return it->second;
        BV res;
        int wi = D.wordOf(v);
        std::vector<BitId> b = D.bvs[v];
        bool ch = false;
        for (auto &x : b)
        {
            BitId r = red(x);
            ch |= r != x;
            x = r;
        }
        res = ch ? D.mkBV(b) : v;
        (void)wi;
        cb[v] = res;
        return res;
    }
    std::pair<u64, u64> bounds(BV v0) const
    {
        BV v = redBV(v0);
        if (D.isC(v)) return {D.val(v), D.val(v)};
        auto ic = cr.find(v);
        if (ic != cr.end()) return ic->second;
        int w = D.width(v);
        u64 lo = 0, hi = 0;
        if (w > 64) return {0, ~0ull};
        for (int i = 0; i < w; i++)
        {
            BitId b = D.bvs[v][i];
            if (b == 1) lo |= 1ull << i;
            if (b != 0) hi |= 1ull << i;
        }
        int g = D.commonGroup(v, v);
        if (g >= 0)
        {
            auto x = D.enumVals(v, g);
            M256 m = mask(g);
            lo = ~0ull;
            hi = 0;
            for (int i = 0; i < 256; i++)
                if (m.get(i)) lo = std::min(lo, x[i]), hi = std::max(hi, x[i]);
        }
        else
        {
            // linear bound
            int wi = D.wordOf(v);
            if (wi >= 0 && D.words[wi].op == O_ADDLIN && w < 64 + 1)
            {
                auto b = linBounds(D.lins[D.words[wi].lin]);
                if (b.first >= 0 && b.second <= (__int128)maskW(w))
                    lo = std::max(lo, (u64)b.first), hi = std::min(hi, (u64)b.second);
            }
            else
            {
                // bytes with value sets: bound the bits of every group exactly
                std::map<int, std::vector<int>> byg;
                for (int i = 0; i < w; i++)
                {
                    BitId b = D.bvs[v][i];
                    if (b > 1 && D.groupOf(b) >= 0) byg[D.groupOf(b)].push_back(i);
                }
                for (auto &kv : byg)
                {
                    u64 full = 0, mn = ~0ull, mx = 0;
                    std::vector<M256> t;
                    for (auto i : kv.second) full |= 1ull << i, t.push_back(D.ttOf(D.bvs[v][i]));
                    M256 m = mask(kv.first);
                    for (int x = 0; x < 256; x++)
                        if (m.get(x))
                        {
                            u64 y = 0;
                            for (size_t j = 0; j < t.size(); j++)
                                if (t[j].get(x)) y |= 1ull << kv.second[j];
                            mn = std::min(mn, y);
                            mx = std::max(mx, y);
                        }
                    lo += mn;
                    hi -= full - mx;
                }
            }
        }
        auto rit = ranges.find(v);
        if (rit != ranges.end())
        {
            lo = std::max(lo, rit->second.first);
            hi = std::min(hi, rit->second.second);
        }
        if (v0 != v)
        {
            rit = ranges.find(v0);
            if (rit != ranges.end())
            {
                lo = std::max(lo, rit->second.first);
                hi = std::min(hi, rit->second.second);
            }
        }
        cr[v] = {lo, hi};
        return {lo, hi};
    }
    std::pair<__int128, __int128> linBounds(const Lin &l) const
    {
        __int128 lo, hi;
        u64 k = l.k;
        __int128 sk = (k >> (l.width - 1)) & 1 ? (__int128)k - ((__int128)1 << l.width) : (__int128)k;
        lo = hi = sk;
        // terms of one word with proportional coefficients
        std::map<int, std::vector<std::pair<int, u64>>> byWord;
        std::map<int, std::vector<std::pair<u32, u64>>> byGroup;
        std::vector<u64> rest;
        for (auto &t : l.t)
        {
            auto &f = D.forms[t.first];
            if (f.size() == 1 && D.atoms[f[0]].k == Atom::WORD)
                byWord[D.atoms[f[0]].word].push_back({D.atoms[f[0]].idx, t.second});
            else if (D.formGroup[t.first] >= 0) byGroup[D.formGroup[t.first]].push_back(t);
            else rest.push_back(t.second);
        }
        auto sgn = [&](u64 c) -> __int128 {
            return (c >> (l.width - 1)) & 1 ? (__int128)c - ((__int128)1 << l.width) : (__int128)c;
        };
        for (auto &kv : byWord)
        {
            // base coefficient
            auto &v = kv.second;
            u64 base = v[0].first == 0 ? v[0].second : 0;
            bool prop = base != 0;
            for (auto &p : v) prop = prop && p.second == ((base << p.first) & maskW(l.width));
            if (prop && (int)v.size() >= std::min(l.width, D.words[kv.first].width) - 0)
            {
                auto r = ranges.find(D.words[kv.first].self);
                u64 a = 0, b = maskW(D.words[kv.first].width);
                if (r != ranges.end()) a = r->second.first, b = r->second.second;
                __int128 c = sgn(base);
                if (c >= 0) lo += c * a, hi += c * b;
                else lo += c * b, hi += c * a;
            }
            else
            {
                // bits above: is the value of the remaining word bits bounded by its range?
                for (auto &p : v)
                {
                    __int128 c = sgn(p.second);
                    if (c >= 0) hi += c;
                    else lo += c;
                }
            }
        }
        for (auto &kv : byGroup)
        {
            M256 m = mask(kv.first);
            __int128 mn = 0, mx = 0;
            bool first = true;
            std::vector<std::pair<M256, __int128>> ts;
            for (auto &t : kv.second) ts.push_back({D.ttOf(t.first * 2), sgn(t.second)});
            for (int x = 0; x < 256; x++)
                if (m.get(x))
                {
                    __int128 s = 0;
                    for (auto &t : ts)
                        if (t.first.get(x)) s += t.second;
                    if (first || s < mn) mn = s;
                    if (first || s > mx) mx = s;
                    first = false;
                }
            lo += mn;
            hi += mx;
        }
        for (auto c0 : rest)
        {
            __int128 c = sgn(c0);
            if (c >= 0) hi += c;
            else lo += c;
        }
        return {lo, hi};
    }
    // comparison of two (reduced) vectors, the result is a bit
    BitId cmp(Pred p, BV a, BV b) const
    {
        a = redBV(a);
        b = redBV(b);
        int w = D.width(a);
        if (a == b) return p == P_EQ ? 1 : 0;
        if (D.isC(a) && D.isC(b)) return p == P_EQ ? D.val(a) == D.val(b) : D.val(a) < D.val(b);
        if (p == P_EQ)
        {
            std::vector<BitId> d;
            for (int i = 0; i < w; i++)
            {
                BitId x = red(D.bxor(D.bvs[a][i], D.bvs[b][i]));
                if (x == 1) return 0;
                if (x) d.push_back(x ^ 1);
            }
            if (w <= 64)
            {
                auto ba = bounds(a), bb = bounds(b);
                if (ba.second < bb.first || bb.second < ba.first) return 0;
                // linear difference is a non-zero constant
                auto l = Dom::ladd(D.linear(a), D.linear(b), ~0ull);
                if (l.t.empty()) return l.k == 0;
                // x + k == y  and  x - y in bounds
                auto lb = linBounds(l);
                __int128 M = (__int128)1 << w;
                if ((lb.first > 0 && lb.second < M) || (lb.second < 0 && lb.first > -M)) return 0;
            }
            BitId r = D.andN(d);
            return red1(r);
        }
        auto ba = bounds(a), bb = bounds(b);
        if (w <= 64)
        {
            if (ba.second < bb.first) return 1;
            if (ba.first >= bb.second) return 0;
            auto l = Dom::ladd(D.linear(a), D.linear(b), ~0ull); // a - b
            auto lb = linBounds(l);
            __int128 M = (__int128)1 << w;
            (void)M;
            if (l.t.empty())
            {
                // a = b + k
                i64 k = w < 64 ? ((l.k >> (w - 1)) & 1 ? (i64)(l.k | ~maskW(w)) : (i64)l.k) : (i64)l.k;
                if (k < 0 && bb.first >= (u64)-k) return 1;
                if (k > 0 && bb.second <= maskW(w) - (u64)k) return 0;
                if (k < 0 && ba.second <= maskW(w) - (u64)-k) return 1; // b = a + |k|
                if (k > 0 && ba.first >= (u64)k) return 0;
            }
        }
        int g = D.commonGroup(a, b);
        if (g >= 0 && w <= 64)
        {
            auto x = D.enumVals(a, g), y = D.enumVals(b, g);
            M256 m = M256::none();
            for (int v = 0; v < 256; v++)
                if (x[v] < y[v]) m.set(v);
            return red1(D.mkTT(g, m));
        }
        if (D.isC(b) || D.isC(a))
        {
            bool cb_ = D.isC(b);
            BV x = cb_ ? a : b;
            u64 K = D.val(cb_ ? b : a);
            int non = 0;
            for (auto t : D.bvs[x]) non += t > 1;
            // x < K  (cb_)   or   K < x  ==  !(x < K+1)
            bool neg = !cb_;
            if (!cb_)
            {
                if (K == maskW(w)) return 0;
                K++;
            }
            bool simple = non <= 26;
            if (!simple)
            {
                // power of two: conjunction
                simple = (K & (K - 1)) == 0;
            }
            if (simple)
            {
                BitId r = 0;
                for (int i = 0; i < w; i++)
                {
                    BitId nx = D.bvs[x][i] ^ 1;
                    if ((K >> i) & 1) r = D.bor(nx, r);
                    else r = D.band(nx, r);
                }
                r = red1(r);
                return neg ? r ^ 1 : r;
            }
        }
        auto key = std::make_tuple((int)p, a, b);
        auto it = D.cmpAtom.find(key);
        u32 at;
        if (it == D.cmpAtom.end())
        {
            at = D.atoms.size();
            Atom x;
            x.k = Atom::CMP;
            x.pred = p;
            x.a = a;
            x.b = b;
            D.atoms.push_back(x);
            D.cmpAtom[key] = at;
        }
        else at = it->second;
        if (auto *s = findSubst(at)) return *s;
        // b < a known?  then a < b is false
        auto it2 = D.cmpAtom.find(std::make_tuple((int)p, b, a));
        if (it2 != D.cmpAtom.end())
            if (auto *s = findSubst(it2->second))
                if (*s == 1) return 0;
        return D.bitOfAtom(at);
    }
    // reduce without re-evaluating comparisons
    BitId red1(BitId r) const
    {
        if (r < 2) return r;
        int g = D.groupOf(r);
        if (g >= 0)
        {
            M256 m = mask(g), t = D.ttOf(r);
            if ((t & m).empty()) return 0;
            if ((~t & m).empty()) return 1;
            return r;
        }
        auto &f = D.forms[r >> 1];
        if (f.size() == 1)
        {
            if (auto *s = findSubst(f[0])) return (*s < 2) ? (*s ^ (r & 1)) : r;
            // a conjunction is false when a clause says so
        }
        if (implied(r ^ 1)) return 0;
        return r;
    }
    // is the bit (an OR when seen as a negated conjunction) implied by a clause?
    bool implied(BitId b) const
    {
        if (!(b & 1)) return false;
        auto &f = D.forms[b >> 1];
        if (f.size() != 1 || D.atoms[f[0]].k != Atom::ANDN) return false;
        auto &mem = D.atoms[f[0]].mem;
        // b = OR(~mem): implied by a clause c when c is a subset of {~mem}
        for (auto &c : clauses)
        {
            bool sub = true;
            for (auto x : c)
                if (!std::binary_search(mem.begin(), mem.end(), x ^ 1)) { sub = false; break; }
            if (sub) return true;
        }
        return false;
    }
    using Q = std::vector<std::pair<BitId, bool>>;
    bool setRange(BV v, u64 lo, u64 hi, Q &q)
    {
        auto b = bounds(v);
        lo = std::max(lo, b.first);
        hi = std::min(hi, b.second);
        if (lo > hi) return false;
        if (lo == b.first && hi == b.second) return true;
        ranges[v] = {lo, hi};
        clear();
        int w = D.width(v);
        for (int i = w - 1; i >= 0; i--)
        {
            bool x = (lo >> i) & 1, y = (hi >> i) & 1;
            if (x != y) break;
            BitId bit = D.bvs[v][i];
            if (red(bit) != (BitId)x) q.push_back({bit, x});
        }
        // propagate to the only word of  word + const
        int wi = D.wordOf(v);
        if (wi >= 0 && D.words[wi].op == O_ADDLIN)
        {
            const Lin l = D.lins[D.words[wi].lin];
            if (l.t.size() == (size_t)w)
            {
                auto &f = D.forms[l.t[0].first];
                if (f.size() == 1 && D.atoms[f[0]].k == Atom::WORD)
                {
                    BV x = D.words[D.atoms[f[0]].word].self;
                    if (D.width(x) == w && x != v)
                    {
                        Lin lx = D.linear(x);
                        if (lx.t == l.t)
                        {
                            // v = x + k
                            u64 nlo = (lo - l.k) & maskW(w), nhi = (hi - l.k) & maskW(w);
                            if (nlo <= nhi) return setRange(x, nlo, nhi, q);
                        }
                    }
                }
            }
        }
        return true;
    }
    // assume that a bit has a value; false: infeasible
    bool assume(BitId b0, bool v0)
    {
        Q q{{b0, v0}};
        while (true)
        {
            while (!q.empty())
            {
                auto [bb, v] = q.back();
                q.pop_back();
                BitId b = red(bb) ^ (v ? 0 : 1);
                if (b == 1) continue;
                if (b == 0) return false;
                int g = D.groupOf(b);
                if (g >= 0)
                {
                    M256 m = mask(g) & D.ttOf(b);
                    if (m.empty()) return false;
                    setMask(g, m);
                    clear();
                    continue;
                }
                const std::vector<u32> f = D.forms[b >> 1];
                if (f.size() == 1)
                {
                    const Atom at = D.atoms[f[0]];
                    bool val = !(b & 1);
                    addSubst(f[0], val);
                    clear();
                    switch (at.k)
                    {
                    case Atom::ANDN:
                        if (val)
                            for (auto m : at.mem) q.push_back({m, true});
                        else
                        {
                            std::vector<BitId> c;
                            for (auto m : at.mem) c.push_back(m ^ 1);
                            std::sort(c.begin(), c.end());
                            clauses.push_back(c);
                        }
                        break;
                    case Atom::DTT:
                        for (size_t i = 0; i < at.mem.size(); i++)
                        {
                            bool can0 = false, can1 = false;
                            for (unsigned x = 0; x < (1u << at.mem.size()); x++)
                                if (at.tt.get(x) == val) ((x >> i) & 1 ? can1 : can0) = true;
                            if (!can0 && !can1) return false;
                            if (!can0) q.push_back({at.mem[i], true});
                            if (!can1) q.push_back({at.mem[i], false});
                        }
                        break;
                    case Atom::CMP:
                        if (at.pred == P_ULT)
                        {
                            auto ba = bounds(at.a), bbn = bounds(at.b);
                            if (val)
                            {
                                if (bbn.second == 0) return false;
                                if (!setRange(redBV(at.a), 0, bbn.second - 1, q)) return false;
                                if (ba.first == maskW(D.width(at.a))) return false;
                                if (!setRange(redBV(at.b), ba.first + 1, ~0ull, q)) return false;
                            }
                            else
                            {
                                if (!setRange(redBV(at.a), bbn.first, ~0ull, q)) return false;
                                if (!setRange(redBV(at.b), 0, ba.second, q)) return false;
                            }
                        }
                        break;
                    default:
                        break;
                    }
                    continue;
                }
                // linear equation over several groups: solve for one atom
                u32 piv = f[0];
                int best = -1;
                for (auto a : f)
                {
                    int sc = 0;
                    auto k = D.atoms[a].k;
                    if (k == Atom::WORD && D.words[D.atoms[a].word].op == O_FRESH) sc = 3;
                    else if (k == Atom::INPUT) sc = mask(D.atoms[a].group) == D.groups[D.atoms[a].group].init ? 2 : 1;
                    if (sc >= best) best = sc, piv = a;
                }
                // b = 1  ->  piv = rest ^ const ^ 1
                BitId rest = D.bxor(b ^ 1, D.bitOfAtom(piv));
                addSubst(piv, rest);
                clear();
            }
            // unit propagation
            bool any = false;
            for (size_t i = 0; i < clauses.size() && !any; i++)
            {
                std::vector<BitId> c;
                bool sat = false;
                for (auto x : clauses[i])
                {
                    BitId r = red(x);
                    if (r == 1) { sat = true; break; }
                    if (r) c.push_back(r);
                }
                if (sat)
                {
                    clauses.erase(clauses.begin() + i);
                    i--;
                    continue;
                }
                if (c.empty()) return false;
                std::sort(c.begin(), c.end());
                c.erase(std::unique(c.begin(), c.end()), c.end());
                bool taut = false;
                for (size_t k = 0; k + 1 < c.size(); k++) taut |= (c[k] ^ 1) == c[k + 1];
                if (taut) { clauses.erase(clauses.begin() + i); i--; continue; }
                int g = D.groupOf(c[0]);
                for (auto x : c)
                    if (D.groupOf(x) != g) g = -1;
                if (c.size() == 1 || g >= 0)
                {
                    BitId r = 0;
                    for (auto x : c) r = D.bor(r, x);
                    clauses.erase(clauses.begin() + i);
                    q.push_back({r, true});
                    any = true;
                    break;
                }
                clauses[i] = c;
            }
            if (any) continue;
            // ranges of values that became simpler
            std::vector<std::pair<BV, std::pair<u64, u64>>> moved;
            for (auto it = ranges.begin(); it != ranges.end();)
            {
                const BV r = redBV(it->first);
                if (r == it->first) ++it;
                else moved.push_back({r, it->second}), it = ranges.erase(it);
            }
            if (!moved.empty()) clear();
            for (auto &[r, lh] : moved)
            {
                if (D.isC(r))
                {
                    if (D.val(r) < lh.first || D.val(r) > lh.second) return false;
                    continue;
                }
                auto [it, fresh] = ranges.insert({r, lh});
                if (!fresh) it->second = {std::max(it->second.first, lh.first), std::min(it->second.second, lh.second)};
                if (it->second.first > it->second.second) return false;
                const auto [lo, hi] = it->second;
                const int w = D.width(r);
                int g = -1;
                bool one = true;
                for (auto bit : D.bvs[r])
                {
                    if (bit < 2) continue;
                    const int gb = D.groupOf(bit);
                    if (gb < 0 || (g >= 0 && gb != g)) { one = false; break; }
                    g = gb;
                }
                if (!one) continue;
                BitId below = 0, over = 0; // r < lo, r > hi
                for (int i = 0; i < w; i++)
                {
                    const BitId x = D.bvs[r][i];
                    below = (lo >> i) & 1 ? D.bor(x ^ 1, below) : D.band(x ^ 1, below);
                    over = (hi >> i) & 1 ? D.band(x, over) : D.bor(x, over);
                }
                const BitId bad = red(D.bor(below, over));
                if (bad == 1) return false;
                if (bad != 0) q.push_back({bad, false});
            }
            if (q.empty()) break;
        }
        std::sort(clauses.begin(), clauses.end());
        clauses.erase(std::unique(clauses.begin(), clauses.end()), clauses.end());
        return true;
    }
    bool assumeEq(BV a, BV b)
    {
        for (int i = 0; i < D.width(a); i++)
            if (!assume(D.bxor(D.bvs[a][i], D.bvs[b][i]), false)) return false;
        return true;
    }
};
