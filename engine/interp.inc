// -*- c++ -*- part of struct Interp: control, calls, models, scheduling
FnInfo *fnInfo(Function *f)
{
    auto &p = fns[f];
    if (p) return p;
    p = new FnInfo;
    p->f = f;
    p->dem = demangle(f->getName().str());
    p->subject = subjectFn(f);
    int n = 0;
    for (auto &a : f->args()) p->num[&a] = n++;
    for (auto &b : *f)
        for (auto &i : b)
            if (!i.getType()->isVoidTy()) p->num[&i] = n++;
    p->n = n;
    ReversePostOrderTraversal<Function *> rpo(f);
    int k = 0;
    for (auto *b : rpo) p->rpo[b] = k++;
    // liveness
    std::vector<BasicBlock *> order(rpo.begin(), rpo.end());
    DenseMap<const BasicBlock *, std::vector<bool>> in;
    for (auto *b : order) in[b] = std::vector<bool>(n, false);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (auto it = order.rbegin(); it != order.rend(); ++it)
        {
            auto *b = *it;
            std::vector<bool> live(n, false);
            for (auto *su : successors(b))
            {
                auto &si = in[su];
                for (int i = 0; i < n; i++)
                    if (si[i]) live[i] = true;
                for (auto &phi : su->phis())
                {
                    auto *v = phi.getIncomingValueForBlock(b);
                    auto f2 = p->num.find(v);
                    if (f2 != p->num.end()) live[f2->second] = true;
                }
            }
            for (auto ii = b->rbegin(); ii != b->rend(); ++ii)
            {
                auto d = p->num.find(&*ii);
                if (d != p->num.end()) live[d->second] = false;
                if (isa<PHINode>(&*ii)) continue;
                for (auto &o : ii->operands())
                {
                    auto f2 = p->num.find(o.get());
                    if (f2 != p->num.end()) live[f2->second] = true;
                }
            }
            // phi results are defined at the entry: not live-in
            if (live != in[b])
            {
                in[b] = live;
                ch = true;
            }
        }
    }
    for (auto *b : order)
    {
        std::vector<int> d;
        for (int i = 0; i < n; i++)
            if (!in[b][i]) d.push_back(i);
        p->dead[b] = d;
    }
    usedFns.insert(p->dem);
    return p;
}
Frame *top(State &s)
{
    auto &p = s.stack.back();
    if (p->rc > 1) p = FrameP(new Frame(*p));
    p->h = 0;
    return p.p;
}
Val eval(State &s, const Value *v)
{
    if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
    auto &fr = *s.stack.back();
    auto it = fr.fi->num.find(v);
    if (it == fr.fi->num.end()) throw Unsupported{"operand"};
    Val r = fr.loc[it->second];
    if (r.k == Val::None) return undefOf(v->getType(), "none");
    if (r.k == Val::Int || r.k == Val::Ptr) r.bv = R(s, r.bv);
    return r;
}
void setRes(State &s, const Instruction *i, Val v)
{
    if (i->getType()->isVoidTy()) return;
    auto *f = top(s);
    f->loc[f->fi->num[i]] = std::move(v);
}
struct Pending
{
    std::vector<u64> key;
    u64 hash;
    SP s;
};
struct Less
{
    bool operator()(const std::vector<u64> &a, const std::vector<u64> &b) const
    {
        size_t n = std::min(a.size(), b.size());
        for (size_t i = 0; i < n; i++)
            if (a[i] != b[i]) return a[i] < b[i];
        return a.size() > b.size();
    }
};
std::map<std::vector<u64>, std::vector<Pending>, Less> pend;
size_t nPend = 0;
DenseMap<const Instruction *, u32> ordCache;
u32 ordOf(const Instruction *i)
{
    auto it = ordCache.find(i);
    if (it != ordCache.end()) return it->second;
    u32 k = 0;
    for (auto &x : *i->getParent()) ordCache[&x] = k++;
    return ordCache[i];
}
std::vector<u64> keyOf(State &s)
{
    std::vector<u64> k;
    for (auto &f : s.stack)
    {
        auto it = f->fi->rpo.find(f->bb);
        u64 r = it == f->fi->rpo.end() ? 0 : it->second;
        k.push_back(r << 20 | ordOf(&*f->it));
    }
    return k;
}
u64 hashState(State &s)
{
    u64 h = 1469598103934665603ull;
    auto mix = [&](u64 x) { h = (h ^ x) * 0x100000001b3ull; h ^= h >> 30; };
    for (auto &f : s.stack) mix(f->hash());
    for (auto &o : s.objs) mix(o ? o->hash() : 7);
    for (auto &g : s.globs) mix(g.first), mix(g.second->hash());
    for (auto &l : s.logs)
    {
        mix(99);
        if (l)
        {
            for (auto &i : l->items) mix(i.k | (u64)i.idx << 3 | (u64)i.a << 8), mix((u64)i.b << 32 | i.obj);
        }
    }
    for (auto &c : s.caught) mix(c.first);
    return h;
}
bool sameState(State &a, State &b)
{
    if (a.stack.size() != b.stack.size() || a.objs.size() != b.objs.size() || a.globs.size() != b.globs.size() ||
        a.logs.size() != b.logs.size() || a.caught != b.caught || a.ctr != b.ctr || a.notes != b.notes)
        return false;
    for (size_t i = 0; i < a.stack.size(); i++)
        if (a.stack[i].p != b.stack[i].p && !a.stack[i]->same(*b.stack[i])) return false;
    for (size_t i = 0; i < a.objs.size(); i++)
    {
        if (a.objs[i].p == b.objs[i].p) continue;
        if (!a.objs[i] || !b.objs[i] || !a.objs[i]->same(*b.objs[i])) return false;
    }
    auto x = a.globs.begin(), y = b.globs.begin();
    for (; x != a.globs.end(); ++x, ++y)
        if (x->first != y->first || !x->second->same(*y->second)) return false;
    for (size_t i = 0; i < a.logs.size(); i++)
    {
        if (a.logs[i].p == b.logs[i].p) continue;
        if (!a.logs[i] || !b.logs[i]) return false;
        if (!(a.logs[i]->items == b.logs[i]->items)) return false;
    }
    return true;
}
// exact join of the facts: they differ in the value set of one byte (or one known bit) only
static bool joinFacts(Facts &a, const Facts &b)
{
    if (a.clauses != b.clauses || a.ranges != b.ranges) return false;
    if (a.subst == b.subst)
    {
        int diff = 0, g = -1;
        M256 u{};
        std::map<int, std::pair<M256, M256>> m;
        for (auto &x : a.masks) m[x.first] = {x.second, D.groups[x.first].init};
        for (auto &x : b.masks)
        {
            auto it = m.find(x.first);
            if (it == m.end()) m[x.first] = {D.groups[x.first].init, x.second};
            else it->second.second = x.second;
        }
        bool aSubB = true, bSubA = true;
        for (auto &x : m)
        {
            if (x.second.first == x.second.second) continue;
            diff++;
            g = x.first;
            u = x.second.first | x.second.second;
            if (!(x.second.first & ~x.second.second).empty()) aSubB = false;
            if (!(x.second.second & ~x.second.first).empty()) bSubA = false;
        }
        if (diff == 0 || bSubA) return true;
        if (aSubB)
        {
            a.masks = b.masks;
            a.clear();
            return true;
        }
        if (diff == 1)
        {
            a.setMask(g, u);
            a.clear();
            return true;
        }
        return false;
    }
    if (a.masks != b.masks || a.subst.size() != b.subst.size()) return false;
    int diff = -1;
    for (size_t i = 0; i < a.subst.size(); i++)
    {
        if (a.subst[i].first != b.subst[i].first) return false;
        if (a.subst[i].second != b.subst[i].second)
        {
            if (diff >= 0) return false;
            diff = i;
        }
    }
    if (diff < 0) return true;
    if ((a.subst[diff].second ^ b.subst[diff].second) != 1) return false; // bit or its negation
    a.subst.erase(a.subst.begin() + diff);
    a.clear();
    return true;
}
void push(SP s)
{
    auto k = keyOf(*s);
    u64 h = hashState(*s);
    auto &v = pend[k];
    for (auto &p : v)
        if (p.hash == h && sameState(*p.s, *s))
        {
            Facts f(*p.s->facts);
            if (joinFacts(f, *s->facts))
            {
                joins++;
                p.s->facts = std::make_shared<Facts>(f);
                return;
            }
        }
    v.push_back({k, h, std::move(s)});
    nPend++;
}
SP pop()
{
    auto it = pend.begin();
    SP s = std::move(it->second.back().s);
    it->second.pop_back();
    nPend--;
    if (it->second.empty()) pend.erase(it);
    return s;
}
// enter a block; true if it is a merge point
bool enter(State &s, BasicBlock *bb)
{
    auto *f = top(s);
    BasicBlock *from = f->bb;
    std::vector<Val> ph;
    for (auto &phi : bb->phis()) ph.push_back(eval(s, phi.getIncomingValueForBlock(from)));
    int fromR = f->fi->rpo[from];
    f->prev = from;
    f->bb = bb;
    size_t k = 0;
    for (auto i : f->fi->dead[bb]) f->loc[i] = Val();
    for (auto &phi : bb->phis()) f->loc[f->fi->num[&phi]] = ph[k++];
    f->it = bb->getFirstNonPHI()->getIterator();
    bool back = f->fi->rpo[bb] <= fromR;
    if (back)
    {
        u64 h = hashState(s);
        for (auto &c : s.ctr) h = h * 31 + c.second;
        h ^= (u64)(uintptr_t)bb * 0x9e3779b97f4a7c15ull;
        u64 fh = 0;
        for (auto &m : s.facts->masks)
            for (auto w : m.second.w) fh = (fh ^ w) * 0x100000001b3ull + m.first;
        for (auto &m : s.facts->subst) fh = (fh ^ ((u64)m.first << 32 | m.second)) * 0x100000001b3ull;
        for (auto &m : s.facts->ranges) fh = (fh ^ m.first ^ m.second.first * 7 ^ m.second.second * 13) * 0x100000001b3ull;
        fh += s.facts->clauses.size();
        h ^= fh;
        for (auto x : s.headerHashes)
            if (x == h) violation(s, "the loop makes no progress (the same abstract state is reached again)");
        s.headerHashes.push_back(h);
        if (s.headerHashes.size() > 48) s.headerHashes.erase(s.headerHashes.begin());
    }
    return !bb->hasNPredecessorsOrMore(2) ? false : true;
}
void popFrame(State &s)
{
    for (auto a : s.stack.back()->allocas) s.objs[a - nStatic] = ObjP();
    while (!s.objs.empty() && !s.objs.back()) s.objs.pop_back();
    s.stack.pop_back();
}
std::string strArg(State &s, const Val &p)
{
    std::string r;
    const Obj *o = getObj(s, p.obj);
    if (!o) return "?";
    for (u64 i = D.val(R(s, p.bv));; i++)
    {
        Cell c = readCell(s, *o, p.obj, i);
        if (c.k != Cell::Byte || !D.isC(c.a)) break;
        if (!D.val(c.a)) break;
        r += (char)D.val(c.a);
    }
    return r;
}
// ---- exceptions
static bool derives(const std::string &t, const std::string &base)
{
    static const std::map<std::string, std::string> up = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
        {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
        {"_ZTINSt10filesystem7__cxx1116filesystem_errorE", "_ZTISt12system_error"}};
    std::string x = t;
    while (true)
    {
        if (x == base) return true;
        auto it = up.find(x);
        if (it != up.end()) { x = it->second; continue; }
        auto *g = M->getGlobalVariable(x, true);
        if (!g || !g->hasInitializer()) return false;
        auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
        if (!cs || cs->getNumOperands() < 3) return false;
        if (cs->getNumOperands() == 3)
        {
            auto *b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts());
            if (!b) return false;
            x = b->getName().str();
            continue;
        }
        // multiple inheritance: any base
        for (unsigned i = 4; i < cs->getNumOperands(); i += 2)
            if (auto *b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()))
                if (derives(b->getName().str(), base)) return true;
        return false;
    }
}
bool doThrow(State &s, u32 exc)
{
    // exceptions of the C++ library are constructed out of sight: give them the table of virtual functions of the driver
    if (auto *vt = M->getGlobalVariable("__ai_exception_vtable", true))
        if (auto *e = getObj(s, exc); e && gid.count(vt))
        {
            bool set = e->size >= 8 && e->cells.size() >= 8;
            for (int i = 0; set && i < 8; i++) set = e->cells[i].k != Cell::PFrag;
            if (set)
            {
                Obj *m = mutObj(s, exc);
                for (int i = 0; i < 8; i++)
                {
                    Cell c;
                    c.k = Cell::PFrag;
                    c.idx = i;
                    c.a = D.cst(64, 0);
                    c.obj = gid[vt];
                    m->cells[i] = c;
                }
            }
        }
    const Obj *e = getObj(s, exc);
    u32 ti = e ? e->excType : 0;
    std::string tn = ti ? gval[ti]->getName().str() : "?";
    while (!s.stack.empty())
    {
        auto *f = top(s);
        if (auto *inv = dyn_cast<InvokeInst>(&*f->it))
        {
            auto *ub = inv->getUnwindDest();
            auto *lp = cast<LandingPadInst>(ub->getFirstNonPHI());
            int sel = 0;
            bool match = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); i++)
            {
                if (!lp->isCatch(i)) { match = true; continue; } // filter: treat as a match
                auto *c = lp->getClause(i)->stripPointerCasts();
                if (isa<ConstantPointerNull>(c))
                {
                    match = true;
                    sel = 1;
                    break;
                }
                if (derives(tn, cast<GlobalValue>(c)->getName().str()))
                {
                    match = true;
                    sel = globalId(cast<GlobalValue>(c));
                    break;
                }
            }
            if (match)
            {
                trace(s, inv, "throws " + demangle(tn));
                enter(s, ub);
                setRes(s, lp, mkAgg({mkPtrC(exc, 0), mkC(32, sel)}));
                auto *f2 = top(s);
                f2->it = std::next(lp->getIterator());
                return true;
            }
        }
        else if (isa<CallInst>(&*f->it) && cast<CallInst>(&*f->it)->doesNotThrow() && s.stack.size() > 1)
        {
            violation(s, "exception " + demangle(tn) + " leaves a function marked as not throwing (std::terminate)");
        }
        if (s.stack.size() == 1) violation(s, "uncaught exception " + demangle(tn));
        popFrame(s);
    }
    return false;
}
// throw an exception of an external type
void throwStd(State &s, const std::string &ti)
{
    auto *g = M->getGlobalVariable(ti, true);
    if (!g)
    {
        // the type is not referenced in the module: create it
        g = new GlobalVariable(*M, Type::getInt8Ty(Ctx), true, GlobalValue::ExternalLinkage, nullptr, ti);
        gid[g] = 0;
    }
    if (!gid.count(g) || gid[g] == 0) throw Unsupported{"exception type " + ti};
    auto *o = new Obj;
    o->name = "exception";
    o->size = 64;
    o->kind = 5;
    o->cells.resize(64);
    o->excType = gid[g];
    u32 id = newObj(s, o);
    doThrow(s, id);
}
// ---- calls
// returns true when control was transferred (no fall through)
bool finishCall(State &s, const CallBase *cb)
{
    if (auto *inv = dyn_cast<InvokeInst>(cb)) return enter(s, inv->getNormalDest()), true;
    top(s)->it++;
    return true;
}
BV lenBV(State &s, const Val &v) { return R(s, toInt(v)); }
static bool ctypeFn(const std::string &n, int c)
{
    if (c < 0 || c > 127) return false;
    if (n == "isspace") return isspace(c);
    if (n == "isalnum") return isalnum(c);
    if (n == "isalpha") return isalpha(c);
    if (n == "isdigit") return isdigit(c);
    if (n == "isxdigit") return isxdigit(c);
    if (n == "isupper") return isupper(c);
    if (n == "islower") return islower(c);
    if (n == "ispunct") return ispunct(c);
    if (n == "isprint") return isprint(c);
    if (n == "iscntrl") return iscntrl(c);
    if (n == "isblank") return isblank(c);
    return false;
}
BV freshW(State &s, const std::string &tag, int w)
{
    auto &c = s.ctr[tag];
    return D.word(O_FRESH, w, tag + "#" + std::to_string(c++), {});
}
Val namedAny(State &s, const std::string &name0, int bits, int outBits)
{
    auto &c = s.ctr["any:" + name0];
    std::string name = c ? name0 + "#" + std::to_string(c) : name0;
    c++;
    std::vector<BitId> b;
    for (int i = 0; i * 8 < bits; i++)
    {
        int n = std::min(8, bits - 8 * i);
        int g = D.mkGroup(bits > 8 ? name + "." + std::to_string(i) : name, n);
        for (int k = 0; k < n; k++) b.push_back(D.bitOfAtom(D.inputAtom(g, k)));
    }
    b.resize(outBits, 0);
    return mkInt(D.mkBV(b));
}
LogP &logOf(State &s, u64 ch)
{
    while (s.logs.size() <= ch) s.logs.push_back(LogP());
    if (!s.logs[ch])
    {
        s.logs[ch] = LogP(new Log);
        s.logs[ch]->size = D.cst(64, 0);
    }
    if (s.logs[ch]->rc > 1) s.logs[ch] = LogP(new Log(*s.logs[ch]));
    return s.logs[ch];
}
void aiLog(State &s, u64 ch, const Val &p, BV n)
{
    n = R(s, n);
    const Instruction *at0 = site(s);
    const Obj *o = nullptr;
    if (D.isC(n))
    {
        u64 len = D.val(n);
        if (len == 0) return;
        checkAccess(s, p, n, false, o);
        if (o->constSize)
        {
            if (len > 4096) throw Unsupported{"long write"};
            if (!D.isC(R(s, p.bv)))
            {
                // one byte of a table at a symbolic offset
                BV r = 0;
                for (u64 i = 0; i < len; i++)
                {
                    Val q = p;
                    q.bv = D.addsub(q.bv, D.cst(64, i), false);
                    Val v = loadT(s, q, Type::getInt8Ty(Ctx));
                    r = v.bv;
                    auto &l = logOf(s, ch);
                    LogItem it{LogItem::Byte};
                    it.at = at0;
                    it.a = r;
                    l->items.push_back(it);
                }
                auto &l = logOf(s, ch);
                l->size = D.addsub(l->size, n, false);
                return;
            }
            u64 at = concrete(s, p.bv, 300, "write offset");
            auto &l = logOf(s, ch);
            for (u64 i = 0; i < len; i++)
            {
                Cell c = readCell(s, *o, p.obj, at + i);
                LogItem it{LogItem::Byte};
                it.at = at0;
                if (c.k == Cell::PFrag)
                {
                    it.k = LogItem::PFrag;
                    it.idx = c.idx;
                    it.a = c.a;
                    it.obj = c.obj;
                }
                else it.a = cellBV(s, c, o->name + "+" + std::to_string(at + i));
                l->items.push_back(it);
            }
            l->size = D.addsub(l->size, n, false);
            return;
        }
    }
    else
    {
        checkSymRange(s, p, n, false);
        o = getObj(s, p.obj);
        if (o && o->constSize)
        {
            u64 len = concrete(s, n, 300, "write size");
            return aiLog(s, ch, p, D.cst(64, len));
        }
    }
    auto &l = logOf(s, ch);
    LogItem it{LogItem::Blob};
    it.at = at0;
    it.obj = p.obj;
    it.a = R(s, p.bv);
    it.b = n;
    l->items.push_back(it);
    l->size = D.addsub(l->size, n, false);
}
void aiAssert(State &s, BitId b, const std::string &msg)
{
    asserts[msg]++;
    b = Rb(s, b);
    if (b == 1) return;
    if (b == 0) violation(s, msg);
    Facts f(*s.facts);
    if (!f.assume(b, false))
    {
        if (!mf(s)->assume(b, true)) throw Stop{};
        return;
    }
    s.facts = std::make_shared<Facts>(f);
    violation(s, msg);
}
std::string bvStr(BV v)
{
    if (D.isC(v))
    {
        char b[32];
        snprintf(b, sizeof b, "0x%llx", (unsigned long long)D.val(v));
        return b;
    }
    std::string r = "<";
    for (size_t i = D.bvs[v].size(); i-- > 0;)
    {
        BitId b = D.bvs[v][i];
        if (b < 2) r += b ? "1" : "0";
        else
        {
            if (b & 1) r += "~";
            auto &f = D.forms[b >> 1];
            auto &a = D.atoms[f[0]];
            if (f.size() > 1) r += "(+)";
            if (a.k == Atom::INPUT) r += D.groups[a.group].name + "." + std::to_string(a.idx);
            else if (a.k == Atom::TT) r += "f(" + D.groups[a.group].name + ")";
            else r += "t" + std::to_string(f[0]);
        }
        if (i) r += " ";
    }
    return r + ">";
}
void assertLogs(State &s, u64 a, u64 b, const std::string &msg)
{
    asserts[msg]++;
    auto &x = logOf(s, a)->items;
    auto &y = logOf(s, b)->items;
    size_t n = std::min(x.size(), y.size());
    for (size_t i = 0; i < n; i++)
    {
        auto &p = x[i];
        auto &q = y[i];
        if (p == q) continue;
        std::string w = msg + " (byte " + std::to_string(i) + " differs";
        const Instruction *bl = p.at ? p.at : q.at;
        if (p.k != q.k) violation(s, w + " in kind)", bl);
        if (p.k == LogItem::Byte)
        {
            BV u = R(s, p.a), v = R(s, q.a);
            std::vector<BitId> d;
            for (int k = 0; k < 8; k++) d.push_back(D.bxor(D.bvs[u][k], D.bvs[v][k]) ^ 1);
            for (auto bit : d) aiAssertQuiet(s, bit, w + ": " + bvStr(u) + " instead of " + bvStr(v) + ")", bl);
            continue;
        }
        if (p.k == LogItem::Blob && p.obj == q.obj && R(s, p.a) == R(s, q.a) && R(s, p.b) == R(s, q.b)) continue;
        violation(s, w + ")", bl);
    }
    if (x.size() != y.size())
    {
        const Instruction *bl = x.size() > n ? x[n].at : y[n].at;
        if (!bl && n) bl = x[n - 1].at;
        violation(s, msg + " (" + std::to_string(x.size()) + " items instead of " + std::to_string(y.size()) + ")", bl);
    }
}
void aiAssertQuiet(State &s, BitId b, const std::string &msg, const Instruction *blame = nullptr)
{
    b = Rb(s, b);
    if (b == 1) return;
    if (b == 0) violation(s, msg, blame);
    Facts f(*s.facts);
    if (!f.assume(b, false))
    {
        if (!mf(s)->assume(b, true)) throw Stop{};
        return;
    }
    s.facts = std::make_shared<Facts>(f);
    violation(s, msg, blame);
}
BV hexDigit(State &s, BV nib) // 4 bits -> 8 bits, lower case
{
    std::vector<BitId> in(D.bvs[nib].begin(), D.bvs[nib].begin() + 4);
    std::vector<BitId> out(8);
    const char *t = "0123456789abcdef";
    for (int i = 0; i < 8; i++)
    {
        M256 m = M256::none();
        for (int v = 0; v < 16; v++)
            if ((t[v] >> i) & 1) m.set(v);
        out[i] = D.boolFn(in, m);
    }
    (void)s;
    return D.mkBV(out);
}
// models of external functions; returns false when the function is not modelled
bool model(State &s, const CallBase *cb, Function *f, const std::vector<Val> &a)
{
    StringRef nm = f->getName();
    std::string n = nm.str();
    auto ret = [&](Val v) {
        setRes(s, cb, v);
        return finishCall(s, cb);
    };
    auto retv = [&]() { return finishCall(s, cb); };
    if (nm.startswith("__ai_"))
    {
        if (n == "__ai_any") return ret(namedAny(s, strArg(s, a[0]), concrete(s, toInt(a[1]), 1, "bits"), 64));
        if (n == "__ai_opaque")
        {
            std::string name = strArg(s, a[0]);
            int w = concrete(s, toInt(a[1]), 1, "bits");
            return ret(mkInt(D.zext(D.word(O_FRESH, w, "sym:" + name, {}), 64)));
        }
        if (n == "__ai_buffer")
        {
            u64 sz = concrete(s, toInt(a[1]), 64, "buffer size");
            u32 id = allocObj(s, strArg(s, a[0]), sz, 3, Obj::FInput);
            getObj(s, id);
            return ret(mkPtrC(id, 0));
        }
        if (n == "__ai_blob")
        {
            auto *o = new Obj;
            o->name = strArg(s, a[0]);
            o->constSize = false;
            o->sizeBV = R(s, toInt(a[1]));
            o->kind = 3;
            o->fill = Obj::FInput;
            o->writable = false;
            return ret(mkPtrC(newObj(s, o), 0));
        }
        if (n == "__ai_assume")
        {
            BitId b = Rb(s, D.bvs[toInt(a[0])][0]);
            if (b == 0 || !mf(s)->assume(b, true)) throw Stop{};
            return retv();
        }
        if (n == "__ai_assert")
        {
            aiAssert(s, D.bvs[toInt(a[0])][0], strArg(s, a[1]));
            return retv();
        }
        if (n == "__ai_fail")
        {
            asserts[strArg(s, a[0])]++;
            violation(s, strArg(s, a[0]));
        }
        if (n == "__ai_cover")
        {
            covers[strArg(s, a[0])]++;
            return retv();
        }
        if (n == "__ai_no_heap") // from here on the code under analysis must not (or may) allocate
        {
            if (concrete(s, toInt(a[0]), 2, "no_heap")) s.ctr["no_heap"] = 1;
            else s.ctr.erase("no_heap");
            return retv();
        }
        if (n == "__ai_note")
        {
            s.notes.push_back(strArg(s, a[0]) + "=" + bvStr(R(s, toInt(a[1]))));
            return retv();
        }
        if (n == "__ai_split")
        {
            u64 v = concrete(s, toInt(a[0]), 4096, "split");
            return ret(mkC(64, v));
        }
        if (n == "__ai_pick")
        {
            // a fresh value of [0, n)
            std::string name = strArg(s, a[0]);
            u64 m = concrete(s, toInt(a[1]), 64, "pick");
            if (m == 0 || m > 256) throw Unsupported{"pick range"};
            auto &c = s.ctr["any:" + name];
            std::string gn = name + (c ? "#" + std::to_string(c) : "");
            M256 mask = M256::none();
            for (u64 i = 0; i < m; i++) mask.set(i);
            int g = D.mkGroup(gn + "<" + std::to_string(m), 8, mask);
            BV v = groupBV(g, 8);
            u64 val = concrete(s, v, 256, name.c_str());
            s.ctr["any:" + name]++;
            return ret(mkC(64, val));
        }
        if (n == "__ai_log")
        {
            aiLog(s, concrete(s, toInt(a[0]), 1, "ch"), a[1], toInt(a[2]));
            return retv();
        }
        if (n == "__ai_log_byte")
        {
            auto &l = logOf(s, concrete(s, toInt(a[0]), 1, "ch"));
            LogItem it{LogItem::Byte};
            it.at = site(s);
            it.a = R(s, D.trunc(toInt(a[1]), 8));
            l->items.push_back(it);
            l->size = D.addsub(l->size, D.cst(64, 1), false);
            return retv();
        }
        if (n == "__ai_log_size") return ret(mkInt(R(s, logOf(s, concrete(s, toInt(a[0]), 1, "ch"))->size)));
        if (n == "__ai_log_clear")
        {
            auto &l = logOf(s, concrete(s, toInt(a[0]), 1, "ch"));
            l->items.clear();
            l->size = D.cst(64, 0);
            return retv();
        }
        if (n == "__ai_assert_logs")
        {
            assertLogs(s, concrete(s, toInt(a[0]), 1, "ch"), concrete(s, toInt(a[1]), 1, "ch"), strArg(s, a[2]));
            return retv();
        }
        if (n == "__ai_log_append")
        {
            u64 d = concrete(s, toInt(a[0]), 1, "ch"), c = concrete(s, toInt(a[1]), 1, "ch");
            auto from = logOf(s, c)->items;
            BV sz = logOf(s, c)->size;
            auto &l = logOf(s, d);
            l->items.insert(l->items.end(), from.begin(), from.end());
            l->size = D.addsub(l->size, R(s, sz), false);
            return retv();
        }
        if (n == "__ai_log_get") // size_t (int ch, void *dst, size_t cap): the bytes of a log
        {
            auto items = logOf(s, concrete(s, toInt(a[0]), 1, "ch"))->items;
            u64 cap = concrete(s, toInt(a[2]), 1, "cap");
            if (items.size() > cap) throw Unsupported{"log does not fit"};
            for (size_t k = 0; k < items.size(); k++)
            {
                if (items[k].k != LogItem::Byte) throw Unsupported{"log holds a blob"};
                Val q = a[1];
                q.bv = D.addsub(q.bv, D.cst(64, k), false);
                storeV(s, q, mkInt(R(s, items[k].a)), Type::getInt8Ty(Ctx));
            }
            return ret(mkC(64, items.size()));
        }
        if (n == "__ai_end") throw Stop{};
        throw Unsupported{"unknown " + n};
    }
    if (nm.startswith("llvm."))
    {
        auto id = f->getIntrinsicID();
        switch (id)
        {
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_assign:
        case Intrinsic::dbg_label:
        case Intrinsic::lifetime_end:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::donothing:
        case Intrinsic::stackrestore:
        case Intrinsic::invariant_end:
        case Intrinsic::prefetch:
            return retv();
        case Intrinsic::lifetime_start:
        {
            const Val &p = a[1];
            if (p.k == Val::Ptr && p.obj >= nStatic && getObj(s, p.obj))
            {
                auto *o = mutObj(s, p.obj);
                for (auto &c : o->cells) c = Cell();
            }
            return retv();
        }
        case Intrinsic::invariant_start:
        case Intrinsic::stacksave:
            return ret(mkPtrC(0, 0));
        case Intrinsic::assume:
        {
            BitId b = Rb(s, D.bvs[toInt(a[0])][0]);
            if (b == 0) violation(s, "assumption of the compiler is violated (undefined behaviour)");
            return retv();
        }
        case Intrinsic::expect:
        case Intrinsic::expect_with_probability:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
            return ret(a[0]);
        case Intrinsic::is_constant:
            return ret(mkC(1, 0));
        case Intrinsic::objectsize:
            return ret(mkC(bits(cb->getType()), maskW(bits(cb->getType()))));
        case Intrinsic::trap:
            violation(s, "trap is reached");
            return true;
        case Intrinsic::memcpy:
        case Intrinsic::memmove:
        case Intrinsic::memcpy_inline:
            copyBytes(s, a[0], a[1], toInt(a[2]));
            return retv();
        case Intrinsic::memset:
            memsetV(s, a[0], a[1], toInt(a[2]));
            return retv();
        case Intrinsic::eh_typeid_for:
            return ret(mkC(32, a[0].obj));
        case Intrinsic::umin:
        case Intrinsic::umax:
        case Intrinsic::smin:
        case Intrinsic::smax:
        {
            bool sg = id == Intrinsic::smin || id == Intrinsic::smax;
            bool mn = id == Intrinsic::smin || id == Intrinsic::umin;
            BitId lt = icmp(s, sg ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, a[0], a[1]);
            bool c = decide(s, lt, "min/max");
            return ret(c == mn ? a[0] : a[1]);
        }
        case Intrinsic::abs:
        {
            BV v = toInt(a[0]);
            bool neg = decide(s, D.bvs[v].back(), "negative");
            return ret(neg ? mkInt(D.addsub(D.cst(D.width(v), 0), v, true)) : a[0]);
        }
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::ssub_with_overflow:
        case Intrinsic::smul_with_overflow:
            return ret(overflowOp(s, id, toInt(a[0]), toInt(a[1])));
        case Intrinsic::usub_sat:
        {
            BitId lt = icmp(s, CmpInst::ICMP_ULT, a[0], a[1]);
            if (decide(s, lt, "sat")) return ret(mkC(D.width(a[0].bv), 0));
            return ret(addsubV(s, a[0], a[1], true));
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr:
        {
            BV x = toInt(a[0]), y = toInt(a[1]), c = R(s, toInt(a[2]));
            int w = D.width(x);
            u64 k = concrete(s, c, 64, "rotate") % w;
            BV cc = D.concat(y, x);
            if (id == Intrinsic::fshl) return ret(mkInt(D.slice(cc, w - (int)k, w)));
            return ret(mkInt(D.slice(cc, (int)k, w)));
        }
        case Intrinsic::bswap:
        {
            BV x = toInt(a[0]);
            int w = D.width(x) / 8;
            BV r = D.slice(x, 8 * (w - 1), 8);
            for (int i = w - 2; i >= 0; i--) r = D.concat(r, D.slice(x, 8 * i, 8));
            return ret(mkInt(r));
        }
        case Intrinsic::ctlz:
        case Intrinsic::cttz:
        case Intrinsic::ctpop:
        {
            BV x = R(s, toInt(a[0]));
            int w = D.width(x);
            if (D.isC(x))
            {
                u64 v = D.val(x);
                int r = id == Intrinsic::ctpop ? __builtin_popcountll(v) : v == 0 ? w : id == Intrinsic::ctlz ? __builtin_clzll(v) - (64 - w) : __builtin_ctzll(v);
                return ret(mkC(w, r));
            }
            if (id == Intrinsic::ctpop) return ret(mkInt(D.word(O_FLOAT, w, "ctpop", {x})));
            for (int k = 0; k < w; k++)
            {
                int i = id == Intrinsic::ctlz ? w - 1 - k : k;
                if (decide(s, D.bvs[x][i], "count zeros")) return ret(mkC(w, k));
            }
            return ret(mkC(w, w));
        }
        case Intrinsic::is_fpclass:
        {
            BV x = toInt(a[0]);
            int w = D.width(x);
            if (w != 32 && w != 64) break;
            u64 mask = D.val(R(s, toInt(a[1]))) & 1023;
            const int mb = w == 32 ? 23 : 52, eb = w - 1 - mb;
            BV man = D.slice(x, 0, mb), ex = D.slice(x, mb, eb);
            auto eq = [&](BV v, u64 c) { return decide(s, icmp(s, CmpInst::ICMP_EQ, mkInt(v), mkC(D.width(v), c)), "fp class"); };
            // classes: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +subnormal 8 +normal 9 +inf
            u64 cand = 1023;
            auto narrow = [&](u64 yes, auto test) {
                cand &= test() ? yes : ~yes;
            };
            auto open = [&] { return (cand & mask) && (cand & ~mask & 1023); };
            if (open()) narrow(0x207, [&] { return eq(ex, (1ull << eb) - 1); });
            if (open() && (cand & 0x207)) narrow(0x204, [&] { return eq(man, 0); });
            if (open() && (cand & 0x1f8)) narrow(0x0f0, [&] { return eq(ex, 0); });
            if (open() && (cand & 0x0f0)) narrow(0x060, [&] { return eq(man, 0); });
            if (open() && cand == 3) narrow(2, [&] { return eq(D.slice(x, mb - 1, 1), 1); });
            if (open()) narrow(0x3c3, [&] { return eq(D.slice(x, w - 1, 1), 0); });
            return ret(mkC(1, (cand & mask) != 0));
        }
        default:
            break;
        }
        if (cb->getType()->isFloatingPointTy() || nm.startswith("llvm.fptoui") || nm.startswith("llvm.fptosi"))
        {
            std::vector<BV> ops;
            for (auto &v : a) ops.push_back(R(s, toInt(v)));
            return ret(mkInt(D.word(O_FLOAT, bits(cb->getType()), n, ops)));
        }
        throw Unsupported{"intrinsic " + n};
    }
    if (n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t")
    {
        u64 sz = concrete(s, toInt(a[0]), 64, "allocation size");
        covers["__heap_allocation"]++;
        if (s.ctr.count("no_heap")) violation(s, "the library allocates " + std::to_string(sz) + " bytes on the heap");
        u32 id = allocObj(s, "heap" + std::to_string(sz), sz, 1);
        return ret(mkPtrC(id, 0));
    }
    if (nm.startswith("_ZdlPv") || nm.startswith("_ZdaPv") || n == "free")
    {
        if (a[0].k == Val::Ptr && a[0].obj)
        {
            const Obj *o = getObj(s, a[0].obj);
            if (!o || o->kind != 1) violation(s, "free of an object which is not on the heap");
            BV off = R(s, a[0].bv);
            if (!D.isC(off) || D.val(off)) violation(s, "free of an inner pointer");
            s.objs[a[0].obj - nStatic] = ObjP();
            while (!s.objs.empty() && !s.objs.back()) s.objs.pop_back();
        }
        return retv();
    }
    if (n == "__cxa_allocate_exception")
    {
        u64 sz = concrete(s, toInt(a[0]), 1, "exception size");
        u32 id = allocObj(s, "exception", sz, 5);
        return ret(mkPtrC(id, 0));
    }
    if (n == "__cxa_free_exception") return retv();
    if (n == "__cxa_throw")
    {
        mutObj(s, a[0].obj)->excType = a[1].obj;
        return doThrow(s, a[0].obj);
    }
    if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr")
    {
        if (n == "__cxa_begin_catch") s.caught.push_back({a[0].obj, 1});
        return ret(a[0]);
    }
    if (n == "__cxa_end_catch")
    {
        if (!s.caught.empty())
        {
            u32 e = s.caught.back().first;
            s.caught.pop_back();
            bool again = false;
            for (auto &c : s.caught) again |= c.first == e;
            if (!again && e >= nStatic && e - nStatic < s.objs.size() && !s.ctr.count("rethrown" + std::to_string(e)))
            {
                s.objs[e - nStatic] = ObjP();
                while (!s.objs.empty() && !s.objs.back()) s.objs.pop_back();
            }
            s.ctr.erase("rethrown" + std::to_string(e));
        }
        return retv();
    }
    if (n == "__cxa_rethrow")
    {
        if (s.caught.empty()) violation(s, "rethrow without an exception");
        u32 e = s.caught.back().first;
        s.ctr["rethrown" + std::to_string(e)] = 1;
        return doThrow(s, e);
    }
    if (n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_call_terminate")
        violation(s, n == "abort" ? "abort is called" : "std::terminate is called (an exception escapes a noexcept function)");
    if (n == "__assert_fail") violation(s, "assertion may fail: " + strArg(s, a[0]));
    if (n == "__cxa_pure_virtual") violation(s, "pure virtual call");
    if (n == "__cxa_guard_acquire")
    {
        Val v = loadT(s, a[0], Type::getInt8Ty(Ctx));
        return ret(mkInt(D.zext(D.mkBV({D.bvs[R(s, v.bv)][0] ^ 1}), 32)));
    }
    if (n == "__cxa_guard_release")
    {
        storeV(s, a[0], mkC(8, 1), Type::getInt8Ty(Ctx));
        return retv();
    }
    if (n == "__cxa_atexit") return ret(mkC(32, 0));
    if (n == "memcpy" || n == "memmove")
    {
        copyBytes(s, a[0], a[1], toInt(a[2]));
        return ret(a[0]);
    }
    if (n == "memset")
    {
        memsetV(s, a[0], a[1], toInt(a[2]));
        return ret(a[0]);
    }
    if (n == "memcmp" || n == "bcmp")
    {
        BV c = R(s, toInt(a[2]));
        if (!D.isC(c))
        {
            checkSymRange(s, a[0], c, false);
            checkSymRange(s, a[1], c, false);
        }
        u64 len = concrete(s, c, 300, "memcmp size");
        if (len == 0) return ret(mkC(32, 0));
        const Obj *o;
        checkAccess(s, a[0], D.cst(64, len), false, o);
        checkAccess(s, a[1], D.cst(64, len), false, o);
        std::vector<BitId> eq;
        std::vector<std::pair<BV, BV>> bytes;
        for (u64 i = 0; i < len; i++)
        {
            Val p = a[0], q = a[1];
            p.bv = D.addsub(p.bv, D.cst(64, i), false);
            q.bv = D.addsub(q.bv, D.cst(64, i), false);
            BV x = R(s, loadT(s, p, Type::getInt8Ty(Ctx)).bv), y = R(s, loadT(s, q, Type::getInt8Ty(Ctx)).bv);
            bytes.push_back({x, y});
            for (int k = 0; k < 8; k++)
            {
                BitId d = Rb(s, D.bxor(D.bvs[x][k], D.bvs[y][k]));
                eq.push_back(d ^ 1);
            }
        }
        BitId z = Rb(s, D.andN(eq));
        if (z == 1) return ret(mkC(32, 0));
        if (z == 0)
        {
            // known sign when the first bytes are known
            for (auto &b : bytes)
            {
                if (b.first == b.second) continue;
                if (D.isC(b.first) && D.isC(b.second)) return ret(mkC(32, D.val(b.first) < D.val(b.second) ? ~0ull & 0xffffffff : 1));
                break;
            }
        }
        bool used_as_eq = true;
        for (auto *u : cb->users())
        {
            auto *ic = dyn_cast<ICmpInst>(u);
            if (!ic || !ic->isEquality()) used_as_eq = false;
        }
        if (used_as_eq)
        {
            // only compared with zero: the result is  !z
            std::vector<BitId> r(32, 0);
            r[0] = z ^ 1;
            return ret(mkInt(D.mkBV(r)));
        }
        if (decide(s, z, "equal")) return ret(mkC(32, 0));
        // the order: byte by byte while it depends on one unknown byte only
        for (auto &b : bytes)
        {
            if (b.first == b.second) continue;
            if (D.isC(b.first) && D.isC(b.second)) return ret(mkC(32, D.val(b.first) < D.val(b.second) ? ~0ull & 0xffffffff : 1));
            if (D.commonGroup(b.first, b.second) < 0) break;
            if (decide(s, s.facts->cmp(P_EQ, b.first, b.second), "same byte")) continue;
            return ret(mkC(32, decide(s, s.facts->cmp(P_ULT, b.first, b.second), "byte is less") ? ~0ull & 0xffffffff : 1));
        }
        std::vector<BV> ops{D.cst(64, len)};
        for (auto &b : bytes)
        {
            ops.push_back(b.first);
            ops.push_back(b.second);
        }
        BV r = D.word(O_FLOAT, 31, "memcmp", ops);
        BV sign = D.word(O_FLOAT, 1, "memcmpsign", ops);
        BV full = D.concat(r, sign);
        Facts *fx = mf(s);
        BitId zero = fx->cmp(P_EQ, full, D.cst(32, 0));
        if (!fx->assume(zero, false)) throw Stop{};
        return ret(mkInt(full));
    }
    if (n == "memchr")
    {
        BV c = R(s, toInt(a[2]));
        if (!D.isC(c)) checkSymRange(s, a[0], c, false);
        u64 len = concrete(s, c, 300, "memchr size");
        if (len == 0) return ret(mkPtrC(0, 0));
        BV ch = R(s, D.trunc(toInt(a[1]), 8));
        for (u64 i = 0; i < len; i++)
        {
            Val p = a[0];
            p.bv = D.addsub(p.bv, D.cst(64, i), false);
            BV x = loadT(s, p, Type::getInt8Ty(Ctx)).bv;
            BitId e = s.facts->cmp(P_EQ, x, ch);
            if (decide(s, e, "found")) return ret(p);
        }
        return ret(mkPtrC(0, 0));
    }
    if (n == "_ZNSt3_V216generic_categoryEv" || n == "_ZNSt3_V215system_categoryEv") return ret(mkPtrC(allocObj(s, "error category", 8, 3), 0));
    if (n == "strlen")
    {
        for (u64 i = 0;; i++)
        {
            Val p = a[0];
            p.bv = D.addsub(p.bv, D.cst(64, i), false);
            BV x = loadT(s, p, Type::getInt8Ty(Ctx)).bv;
            if (decide(s, s.facts->cmp(P_EQ, x, D.cst(8, 0)), "nul")) return ret(mkC(64, i));
        }
    }
    if (n.size() > 4 && n.compare(0, 2, "is") == 0 && (n == "isspace" || n == "isalnum" || n == "isalpha" || n == "isdigit" || n == "isxdigit" || n == "isupper" || n == "islower" || n == "ispunct" || n == "isprint" || n == "iscntrl" || n == "isblank"))
    {
        BV x = R(s, toInt(a[0]));
        if (D.isC(x)) return ret(mkC(32, ctypeFn(n, (int)D.sval(x))));
        int g = D.commonGroup(x, x);
        if (g >= 0)
        {
            auto v = D.enumVals(x, g);
            M256 m = M256::none();
            for (int i = 0; i < 256; i++)
                if (ctypeFn(n, (int)(int32_t)v[i])) m.set(i);
            std::vector<BitId> r(32, 0);
            r[0] = D.mkTT(g, m);
            return ret(mkInt(D.mkBV(r)));
        }
        throw Unsupported{n + " of a compound value"};
    }
    if (n == "tolower" || n == "toupper")
    {
        BV x = R(s, toInt(a[0]));
        int g = D.commonGroup(x, x);
        if (D.isC(x)) return ret(mkC(32, (u32)(n == "tolower" ? tolower((int)D.sval(x)) : toupper((int)D.sval(x)))));
        if (g >= 0)
        {
            auto v = D.enumVals(x, g);
            for (auto &y : v)
                if (y < 128) y = n == "tolower" ? tolower((int)y) : toupper((int)y);
            return ret(mkInt(D.fromVals(v, g, 32)));
        }
        throw Unsupported{n};
    }
    if (n == "snprintf") return ret(snprintfModel(s, a));
    if (nm.startswith("_ZSt") && n.find("__throw_") != std::string::npos)
    {
        static const std::map<std::string, std::string> t = {
            {"length_error", "_ZTISt12length_error"}, {"out_of_range", "_ZTISt12out_of_range"}, {"logic_error", "_ZTISt11logic_error"},
            {"invalid_argument", "_ZTISt16invalid_argument"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"},
            {"runtime_error", "_ZTISt13runtime_error"}, {"bad_function_call", "_ZTISt17bad_function_call"}, {"bad_variant_access", "_ZTISt18bad_variant_access"},
            {"bad_optional_access", "_ZTISt19bad_optional_access"}};
        for (auto &kv : t)
            if (n.find("__throw_" + kv.first) != std::string::npos)
            {
                throwStd(s, kv.second);
                return true;
            }
    }
    std::string dem = demangle(n);
    {
        static const char *exc[] = {"runtime_error", "logic_error", "length_error", "out_of_range", "invalid_argument", "exception", "bad_alloc", "system_error", "overflow_error", "range_error", "domain_error", "bad_variant_access"};
        for (auto e : exc)
        {
            std::string c = std::string("std::") + e + "::" + e + "(", d = std::string("std::") + e + "::~" + e + "(";
            if (dem.compare(0, c.size(), c) == 0 || dem.compare(0, d.size(), d) == 0) return retv();
        }
    }
    if (dem.compare(0, 13, "std::to_chars") == 0 && f->isDeclaration()) return ret(toCharsFloat(s, a, n));
    if (dem.compare(0, 15, "std::from_chars") == 0 && f->isDeclaration()) return ret(fromCharsFloat(s, a, n));
    return false;
}
void memsetV(State &s, const Val &p, const Val &v, BV n0)
{
    BV n = R(s, n0);
    if (D.isC(n) && D.val(n) == 0) return;
    const Obj *o;
    if (!D.isC(n)) checkSymRange(s, p, n, true);
    u64 len = concrete(s, n, 300, "memset size");
    if (len == 0) return;
    checkAccess(s, p, D.cst(64, len), true, o);
    u64 at = concrete(s, p.bv, 300, "memset offset");
    Obj *m = mutObj(s, p.obj);
    BV b = D.trunc(toInt(v), 8);
    for (u64 i = 0; i < len; i++) setByte(*m, at + i, b);
}
Val overflowOp(State &s, Intrinsic::ID id, BV a, BV b)
{
    a = R(s, a);
    b = R(s, b);
    int w = D.width(a);
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    char op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? '+' : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? '-' : '*';
    BV r = op == '+' ? D.addsub(a, b, false) : op == '-' ? D.addsub(a, b, true) : D.mul(a, b);
    BitId ov;
    if (w > 64) throw Unsupported{"wide overflow"};
    auto x = s.facts->bounds(a), y = s.facts->bounds(b);
    if (!sg)
    {
        u128 lo, hi, mx = maskW(w);
        if (op == '+')
        {
            lo = (u128)x.first + y.first;
            hi = (u128)x.second + y.second;
            if (hi <= mx) ov = 0;
            else if (lo > mx) ov = 1;
            else ov = s.facts->cmp(P_ULT, r, a);
        }
        else if (op == '-') ov = s.facts->cmp(P_ULT, a, b);
        else
        {
            lo = (u128)x.first * y.first;
            hi = (u128)x.second * y.second;
            if (hi <= mx) ov = 0;
            else if (lo > mx) ov = 1;
            else if (D.isC(b) || D.isC(a))
            {
                u64 c = D.isC(b) ? D.val(b) : D.val(a);
                BV o = D.isC(b) ? a : b;
                // o * c > mx  <=>  o > mx / c
                ov = s.facts->cmp(P_ULT, D.cst(w, (u64)(mx / c)), o);
            }
            else ov = D.bvs[D.word(O_FLOAT, 1, "umulov", {a, b})][0];
        }
    }
    else
    {
        auto sb = [&](std::pair<u64, u64> p) {
            __int128 h = (__int128)1 << (w - 1);
            __int128 l = p.first, u = p.second;
            if (u < h) return std::make_pair(l, u);
            if (l >= h) return std::make_pair(l - 2 * h, u - 2 * h);
            return std::make_pair(-h, h - 1);
        };
        auto p = sb(x), q = sb(y);
        __int128 h = (__int128)1 << (w - 1);
        std::vector<__int128> c;
        for (auto u : {p.first, p.second})
            for (auto v : {q.first, q.second}) c.push_back(op == '+' ? u + v : op == '-' ? u - v : u * v);
        auto mn = *std::min_element(c.begin(), c.end()), mx = *std::max_element(c.begin(), c.end());
        if (mn >= -h && mx < h) ov = 0;
        else if (mn >= h || mx < -h) ov = 1;
        else if (op != '*')
        {
            // sign rule
            BitId sa = D.bvs[a].back(), sbt = D.bvs[b].back(), sr = D.bvs[r].back();
            BitId same = op == '+' ? D.bxor(sa, sbt) ^ 1 : D.bxor(sa, sbt);
            ov = D.band(same, D.bxor(sa, sr));
        }
        else if (D.isC(b) && D.sval(b) > 0)
        {
            // a*c overflows <=> a > max/c or a < min/c
            i64 cc = D.sval(b);
            i64 mxv = (i64)((h - 1) / cc), mnv = (i64)(-h / cc);
            BV fa = D.flipSign(a);
            BitId g1 = s.facts->cmp(P_ULT, D.flipSign(D.cst(w, (u64)mxv & maskW(w))), fa);
            BitId g2 = s.facts->cmp(P_ULT, fa, D.flipSign(D.cst(w, (u64)mnv & maskW(w))));
            ov = D.bor(g1, g2);
        }
        else ov = D.bvs[D.word(O_FLOAT, 1, "smulov", {a, b})][0];
    }
    return mkAgg({mkInt(r), mkInt(D.mkBV({Rb(s, ov)}))});
}
// "%u", "%d" are not needed: only %0Nx of values which fit in N digits
Val snprintfModel(State &s, const std::vector<Val> &a)
{
    u64 cap = concrete(s, toInt(a[1]), 4, "snprintf size");
    std::string f = strArg(s, a[2]);
    size_t arg = 3;
    std::vector<BV> out;
    for (size_t i = 0; i < f.size(); i++)
    {
        if (f[i] != '%') { out.push_back(D.cst(8, (u8)f[i])); continue; }
        i++;
        if (f[i] == '%') { out.push_back(D.cst(8, '%')); continue; }
        bool zero = false;
        int width = 0;
        if (f[i] == '0') zero = true, i++;
        while (isdigit((u8)f[i])) width = width * 10 + (f[i++] - '0');
        while (f[i] == 'h' || f[i] == 'l' || f[i] == 'j' || f[i] == 'z') i++;
        bool upper = f[i] == 'X';
        if ((f[i] != 'x' && f[i] != 'X') || arg >= a.size()) throw Unsupported{"snprintf format " + f};
        BV v = R(s, toInt(a[arg++]));
        int w = D.width(v), digits = (w + 3) / 4;
        // number of significant digits: partition
        int sig = digits;
        while (sig > 1)
        {
            std::vector<BitId> z;
            for (int b = 4 * (sig - 1); b < std::min(w, 4 * sig); b++) z.push_back(D.bvs[v][b] ^ 1);
            if (sig <= width && zero) break; // padded by zeros: the digits are the same
            if (!decide(s, D.andN(z), "leading zero digit")) break;
            v = R(s, v);
            sig--;
        }
        if (!zero)
            for (int k = sig; k < width; k++) out.push_back(D.cst(8, ' '));
        else
            for (int k = std::max(sig, digits); k < width; k++) out.push_back(D.cst(8, '0'));
        if (zero && sig <= width) sig = std::min(width, digits);
        v = R(s, v);
        for (int k = sig - 1; k >= 0; k--)
        {
            BV nib = D.slice(v, 4 * k, std::min(4, w - 4 * k));
            if (D.width(nib) < 4) nib = D.zext(nib, 4);
            BV h = hexDigit(s, nib);
            if (upper) throw Unsupported{"snprintf %X"};
            out.push_back(h);
        }
    }
    const Obj *o;
    u64 nw = cap ? std::min<u64>(cap - 1, out.size()) : 0;
    if (cap)
    {
        checkAccess(s, a[0], D.cst(64, nw + 1), true, o);
        u64 at = concrete(s, a[0].bv, 8, "snprintf offset");
        Obj *m = mutObj(s, a[0].obj);
        for (u64 i = 0; i < nw; i++) setByte(*m, at + i, out[i]);
        setByte(*m, at + nw, D.cst(8, 0));
    }
    return mkC(32, out.size());
}
// text of a floating point number: opaque, 1..24 chars, a function of the value
Val toCharsFloat(State &s, const std::vector<Val> &a, const std::string &sym)
{
    BV v = R(s, toInt(a[2]));
    BV space0 = R(s, addsubV(s, a[1], a[0], true).bv);
    if (D.isC(v) && D.isC(space0) && a.size() == 3)
    {
        // a constant is folded
        char b[64];
        std::to_chars_result r{b, std::errc()};
        u64 bits = D.val(v), sp = std::min<u64>(D.val(space0), sizeof b);
        if (D.width(v) == 32)
        {
            float x;
            u32 w = (u32)bits;
            memcpy(&x, &w, 4);
            r = std::to_chars(b, b + sp, x);
        }
        else if (D.width(v) == 64 && sym.find("to_charsPcS_d") != std::string::npos)
        {
            double x;
            memcpy(&x, &bits, 8);
            r = std::to_chars(b, b + sp, x);
        }
        else throw Unsupported{"to_chars " + sym};
        if (r.ec != std::errc()) return mkAgg({a[1], mkC(32, (u64)r.ec)});
        u64 len = r.ptr - b;
        const Obj *o;
        checkAccess(s, a[0], D.cst(64, len), true, o);
        u64 at = concrete(s, a[0].bv, 8, "to_chars offset");
        Obj *mo = mutObj(s, a[0].obj);
        for (u64 i = 0; i < len; i++) setByte(*mo, at + i, D.cst(8, (u8)b[i]));
        Val e = a[0];
        e.bv = D.addsub(e.bv, D.cst(64, len), false);
        return mkAgg({e, mkC(32, 0)});
    }
    M256 m = M256::none();
    // a few representative lengths: the length is not part of any obligation
    for (int i : {1, 3, 24}) m.set(i);
    int g = D.mkGroup("text_size(" + std::to_string(v) + ")", 8, m);
    u64 len = concrete(s, groupBV(g, 8), 32, "number text size");
    BV space = R(s, addsubV(s, a[1], a[0], true).bv);
    if (!D.isC(space)) throw Unsupported{"to_chars space"};
    if (D.val(space) < len) return mkAgg({a[1], mkC(32, 75)});
    const Obj *o;
    checkAccess(s, a[0], D.cst(64, len), true, o);
    u64 at = concrete(s, a[0].bv, 8, "to_chars offset");
    Obj *mo = mutObj(s, a[0].obj);
    for (u64 i = 0; i < len; i++) setByte(*mo, at + i, D.word(O_FLOAT, 8, "to_chars" + std::to_string(i), {v}));
    Val e = a[0];
    e.bv = D.addsub(e.bv, D.cst(64, len), false);
    return mkAgg({e, mkC(32, 0)});
}
// parse of a floating point number: any prefix may be consumed
Val fromCharsFloat(State &s, const std::vector<Val> &a, const std::string &sym)
{
    BV space = R(s, addsubV(s, a[1], a[0], true).bv);
    u64 n = concrete(s, space, 64, "from_chars size");
    bool isF = sym.find("S0_Rf") != std::string::npos, isD = sym.find("S0_Rd") != std::string::npos;
    if (n)
    {
        const Obj *o;
        checkAccess(s, a[0], D.cst(64, n), false, o);
        // the constant prefix; if parsing ends inside it the result is folded
        std::string text;
        bool ended = false;
        u64 at = concrete(s, a[0].bv, 64, "from_chars offset");
        for (u64 i = 0; i < n; i++)
        {
            Cell c = readCell(s, *o, a[0].obj, at + i);
            if (c.k != Cell::Byte) break;
            BV b = R(s, c.a);
            if (!D.isC(b) && D.commonGroup(b, b) >= 0)
            {
                // what cannot belong to a number ends it
                M256 m = M256::none();
                for (const char *q = "0123456789.eE+-xXnNaAiIfFtTyY()"; *q; q++) m.set((u8)*q);
                std::vector<BitId> in(D.bvs[b].begin(), D.bvs[b].end());
                if (!decide(s, D.boolFn(in, m), "digit"))
                {
                    ended = true;
                    break;
                }
                bool rest = true;
                for (u64 j = i + 1; j < n && rest; j++)
                {
                    Cell d = readCell(s, *o, a[0].obj, at + j);
                    rest = d.k == Cell::Byte && D.isC(R(s, d.a));
                }
                if (rest) b = D.cst(8, concrete(s, b, 40, "digit"));
            }
            if (!D.isC(b)) break;
            text += (char)D.val(b);
        }
        if ((isF || isD) && ended && text.empty()) return mkAgg({a[0], mkC(32, 22)});
        if ((isF || isD) && text.size())
        {
            double d = 0;
            float f = 0;
            auto r = isD ? std::from_chars(text.data(), text.data() + text.size(), d) : std::from_chars(text.data(), text.data() + text.size(), f);
            // "1e" and "-" stop in front of what follows
            u64 stop = r.ptr - text.data();
            bool whole = text.size() == n || ended || (stop + 3 <= text.size() && r.ec == std::errc()) || (r.ec == std::errc::invalid_argument && !strchr("-.iInN", text[0]));
            if (whole)
            {
                Val e = a[0];
                if (stop) e.bv = D.addsub(e.bv, D.cst(64, stop), false);
                if (r.ec == std::errc())
                {
                    u64 bits = 0;
                    if (isD) memcpy(&bits, &d, 8);
                    else memcpy(&bits, &f, 4);
                    const Obj *od;
                    checkAccess(s, a[2], D.cst(64, isD ? 8 : 4), true, od);
                    u64 to = concrete(s, a[2].bv, 8, "from_chars dest");
                    Obj *mo = mutObj(s, a[2].obj);
                    writeCells(*mo, to, mkC(isD ? 64 : 32, bits), isD ? 8 : 4);
                }
                return mkAgg({e, mkC(32, (u64)r.ec)});
            }
        }
    }
    auto &c = s.ctr["fc"];
    std::string name = "from_chars#" + std::to_string(c);
    M256 m = M256::none();
    for (u64 i = 0; i <= std::min<u64>(n, 64); i++) m.set(i);
    int g = D.mkGroup(name + "/" + std::to_string(n), 8, m);
    u64 used = concrete(s, groupBV(g, 8), 256, "number size");
    s.ctr["fc"]++;
    Val e = a[0];
    e.bv = D.addsub(e.bv, D.cst(64, used), false);
    if (used == 0) return mkAgg({a[0], mkC(32, 22)});
    // value: opaque
    const Obj *o = getObj(s, a[2].obj);
    (void)o;
    // size of the destination is given by the type of the reference (float/double)
    u64 at = concrete(s, a[2].bv, 8, "from_chars dest");
    u64 sz = isF ? 4 : 8;
    Val v = mkInt(D.word(O_FRESH, 8 * (int)sz, name + "value", {}));
    const Obj *oo = getObj(s, a[2].obj);
    if (oo && oo->constSize && at + sz > oo->size) v = mkInt(D.trunc(v.bv, 32)), sz = 4;
    Obj *mo = mutObj(s, a[2].obj);
    writeCells(*mo, at, v, sz);
    return mkAgg({e, mkC(32, 0)});
}
bool call(State &s, CallBase *cb)
{
    if (cb->isInlineAsm()) throw Unsupported{"inline asm"};
    Function *f = cb->getCalledFunction();
    if (!f)
    {
        Val c = eval(s, cb->getCalledOperand());
        if (c.k != Val::Ptr) throw Unsupported{"indirect call"};
        if (c.obj == 0) violation(s, "call of a null function pointer");
        if (c.obj >= nStatic || !isa<Function>(gval[c.obj])) violation(s, "call of data");
        f = const_cast<Function *>(cast<Function>(gval[c.obj]));
    }
    std::vector<Val> a;
    for (auto &x : cb->args())
    {
        if (x->getType()->isMetadataTy()) { a.push_back(Val()); continue; }
        a.push_back(eval(s, x.get()));
    }
    if (s.stack.back()->fi->subject) s.last = cb;
    if (f->isDeclaration() || isModelled(f))
    {
        if (model(s, cb, f, a)) return true;
        if (f->isDeclaration()) throw Unsupported{"call of external function " + demangle(f->getName().str()) + "\n" + position(s)};
    }
    if (s.stack.size() > 220)
    {
        throw Unsupported{"call depth exceeds 220 frames"};
    }
    auto *fi = fnInfo(f);
    auto *nf = new Frame;
    nf->fi = fi;
    nf->bb = &f->getEntryBlock();
    nf->it = nf->bb->begin();
    nf->loc.resize(fi->n);
    FrameP fp(nf);
    unsigned k = 0;
    for (auto &arg : f->args())
    {
        Val v = k < a.size() ? a[k] : Val();
        if (arg.hasByValAttr())
        {
            u64 sz = DL->getTypeAllocSize(arg.getParamByValType());
            u32 id = allocObj(s, "byval", sz, 0);
            copyBytes(s, mkPtrC(id, 0), v, D.cst(64, sz));
            nf->allocas.push_back(id);
            v = mkPtrC(id, 0);
        }
        nf->loc[k++] = v;
    }
    s.stack.push_back(fp);
    return true;
}
std::set<std::string> forceModel{"snprintf", "__clang_call_terminate", "_ZNSt12system_errorC1ESt10error_code", "_ZNSt12system_errorC2ESt10error_code"};
bool isModelled(Function *f) { return forceModel.count(f->getName().str()) > 0; }

Val gep(State &s, const GEPOperator *g)
{
    MapVector<Value *, APInt> vars;
    APInt off(64, 0);
    Val b = eval(s, g->getPointerOperand());
    if (!const_cast<GEPOperator *>(g)->collectOffset(*DL, 64, vars, off)) throw Unsupported{"gep"};
    if (b.k != Val::Ptr) b = mkPtr(0, toInt(b));
    BV o = b.bv;
    if (off.getZExtValue()) o = D.addsub(o, D.cst(64, off.getZExtValue()), false);
    for (auto &kv : vars)
    {
        Val i = eval(s, kv.first);
        if (i.k == Val::Ptr && i.obj)
        {
            // integer made of a pointer
            i = mkInt(toInt(i));
        }
        BV x = i.bv;
        if (D.width(x) < 64) x = D.sext(x, 64);
        else if (D.width(x) > 64) x = D.trunc(x, 64);
        x = D.mul(x, D.cst(64, kv.second.getZExtValue()));
        o = D.addsub(o, R(s, x), false);
    }
    b.bv = R(s, o);
    return b;
}
// one instruction; returns true when the state has to be re-queued (merge point)
bool step(State &s)
{
    auto *fr = s.stack.back().p;
    Instruction *i = &*fr->it;
    steps++;
    if (++s.steps > pathLimit) violation(s, "the path does not end within the step limit");
    if (steps > maxSteps) throw Unsupported{"step limit"};
    if ((steps & 1023) == 0 && (clock() > cpuEnd || (deadline && time(nullptr) > deadline))) throw Unsupported{"time limit"};
    auto next = [&]() {
        top(s)->it++;
        return false;
    };
    switch (i->getOpcode())
    {
    case Instruction::Alloca:
    {
        auto *al = cast<AllocaInst>(i);
        u64 sz = DL->getTypeAllocSize(al->getAllocatedType());
        if (!isa<ConstantInt>(al->getArraySize()))
        {
            sz *= concrete(s, toInt(eval(s, al->getArraySize())), 8, "alloca");
        }
        else sz *= cast<ConstantInt>(al->getArraySize())->getZExtValue();
        u32 id = allocObj(s, al->hasName() ? al->getName().str() : "tmp", sz, 0);
        auto *f = top(s);
        f->allocas.push_back(id);
        f->loc[f->fi->num[i]] = mkPtrC(id, 0);
        return next();
    }
    case Instruction::Load:
    {
        auto *l = cast<LoadInst>(i);
        Val p = eval(s, l->getPointerOperand());
        setRes(s, i, loadT(s, p, l->getType()));
        return next();
    }
    case Instruction::Store:
    {
        auto *st = cast<StoreInst>(i);
        Val v = eval(s, st->getValueOperand());
        Val p = eval(s, st->getPointerOperand());
        storeV(s, p, v, st->getValueOperand()->getType());
        return next();
    }
    case Instruction::GetElementPtr:
        setRes(s, i, gep(s, cast<GEPOperator>(i)));
        return next();
    case Instruction::Br:
    {
        auto *b = cast<BranchInst>(i);
        BasicBlock *t;
        if (b->isUnconditional()) t = b->getSuccessor(0);
        else
        {
            Val c = eval(s, b->getCondition());
            t = b->getSuccessor(decide(s, D.bvs[toInt(c)][0]) ? 0 : 1);
        }
        return enter(s, t);
    }
    case Instruction::Switch:
    {
        auto *sw = cast<SwitchInst>(i);
        BV c = R(s, toInt(eval(s, sw->getCondition())));
        if (D.isC(c))
        {
            auto *ci = ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), D.val(c));
            return enter(s, sw->findCaseValue(ci)->getCaseSuccessor());
        }
        std::vector<std::pair<BasicBlock *, BitId>> alts;
        for (auto &cs : sw->cases())
        {
            BitId e = Rb(s, s.facts->cmp(P_EQ, c, constVal(cs.getCaseValue()).bv));
            bool found = false;
            for (auto &al : alts)
                if (al.first == cs.getCaseSuccessor())
                {
                    al.second = D.bor(al.second, e);
                    found = true;
                }
            if (!found) alts.push_back({cs.getCaseSuccessor(), e});
        }
        for (auto &al : alts)
        {
            if (al.first == sw->getDefaultDest()) continue;
            if (decide(s, al.second, "case")) return enter(s, al.first);
        }
        return enter(s, sw->getDefaultDest());
    }
    case Instruction::Ret:
    {
        auto *r = cast<ReturnInst>(i);
        Val v;
        if (r->getReturnValue()) v = eval(s, r->getReturnValue());
        popFrame(s);
        if (s.stack.empty())
        {
            ended++;
            throw Stop{};
        }
        auto *cb = cast<CallBase>(&*s.stack.back()->it);
        if (!cb->getType()->isVoidTy()) setRes(s, cb, v);
        finishCall(s, cb);
        return true;
    }
    case Instruction::Call:
    case Instruction::Invoke:
        call(s, cast<CallBase>(i));
        return false;
    case Instruction::Resume:
    {
        Val v = eval(s, i->getOperand(0));
        u32 e = (*v.agg)[0].obj;
        popFrameForResume(s, e);
        return false;
    }
    case Instruction::Unreachable:
        violation(s, "unreachable code is reached (undefined behaviour)");
        return false;
    case Instruction::ExtractValue:
    {
        auto *e = cast<ExtractValueInst>(i);
        Val v = eval(s, e->getAggregateOperand());
        for (auto x : e->indices())
        {
            Val t = (*v.agg)[x];
            v = t;
        }
        setRes(s, i, v);
        return next();
    }
    case Instruction::InsertValue:
    {
        auto *e = cast<InsertValueInst>(i);
        Val v = eval(s, e->getAggregateOperand()), x = eval(s, e->getInsertedValueOperand());
        std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val b, ArrayRef<unsigned> ix) -> Val {
            if (ix.empty()) return x;
            std::vector<Val> c = *b.agg;
            c[ix[0]] = ins(c[ix[0]], ix.drop_front());
            return mkAgg(c);
        };
        setRes(s, i, ins(v, e->getIndices()));
        return next();
    }
    case Instruction::ICmp:
    {
        auto *c = cast<ICmpInst>(i);
        Val a = eval(s, c->getOperand(0)), b = eval(s, c->getOperand(1));
        setRes(s, i, mkInt(D.mkBV({icmp(s, c->getPredicate(), a, b)})));
        return next();
    }
    case Instruction::Select:
    {
        auto *se = cast<SelectInst>(i);
        BitId c = Rb(s, D.bvs[toInt(eval(s, se->getCondition()))][0]);
        Val a = eval(s, se->getTrueValue()), b = eval(s, se->getFalseValue());
        if (c < 2 || a == b)
        {
            setRes(s, i, c == 1 ? a : b);
            return next();
        }
        if (a.k == Val::Int && b.k == Val::Int)
        {
            bool mux = D.width(a.bv) == 1;
            int g = D.groupOf(c);
            if (!mux && g >= 0)
            {
                int h = D.commonGroup(a.bv, b.bv);
                mux = h == -2 || h == g;
            }
            if (mux)
            {
                setRes(s, i, mkInt(R(s, D.vmux(c, a.bv, b.bv))));
                return next();
            }
        }
        bool v = decide(s, c, "select");
        setRes(s, i, v ? a : b);
        return next();
    }
    case Instruction::Add:
    case Instruction::Sub:
        setRes(s, i, addsubV(s, eval(s, i->getOperand(0)), eval(s, i->getOperand(1)), i->getOpcode() == Instruction::Sub));
        return next();
    case Instruction::Mul:
        setRes(s, i, mkInt(D.mul(toInt(eval(s, i->getOperand(0))), toInt(eval(s, i->getOperand(1))))));
        return next();
    case Instruction::UDiv:
    case Instruction::URem:
    case Instruction::SDiv:
    case Instruction::SRem:
    {
        BV a = toInt(eval(s, i->getOperand(0))), b = toInt(eval(s, i->getOperand(1)));
        OpK k = i->getOpcode() == Instruction::UDiv ? O_UDIV : i->getOpcode() == Instruction::URem ? O_UREM : i->getOpcode() == Instruction::SDiv ? O_SDIV : O_SREM;
        if (D.isC(b) && D.val(b) == 0) violation(s, "division by zero");
        // signed operation on values which are not negative
        if ((k == O_SDIV || k == O_SREM) && D.bvs[a].back() == 0 && D.bvs[b].back() == 0) k = k == O_SDIV ? O_UDIV : O_UREM;
        setRes(s, i, mkInt(R(s, Facts::divrem(k, a, b))));
        return next();
    }
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr:
    {
        BV a = toInt(eval(s, i->getOperand(0))), b = toInt(eval(s, i->getOperand(1)));
        OpK k = i->getOpcode() == Instruction::Shl ? O_SHL : i->getOpcode() == Instruction::LShr ? O_LSHR : O_ASHR;
        if (!D.isC(b) && D.commonGroup(a, b) < 0)
        {
            u64 c = concrete(s, b, 64, "shift amount");
            b = D.cst(D.width(b), c);
        }
        if (D.isC(b) && D.val(b) >= (u64)D.width(a))
        {
            // the optimizer may compute it before the condition that excludes it: it is an error when something depends on it
            setRes(s, i, mkInt(D.word(O_FRESH, D.width(a), POISON + std::to_string(D.val(b)) + " bits of a " + std::to_string(D.width(a)) + "-bit value (undefined behaviour)", {a})));
            return next();
        }
        setRes(s, i, mkInt(R(s, Facts::shift(k, a, b))));
        return next();
    }
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor:
    {
        Val x = eval(s, i->getOperand(0)), y = eval(s, i->getOperand(1));
        BV a = toInt(x), b = toInt(y);
        BV r = i->getOpcode() == Instruction::And ? D.vand(a, b) : i->getOpcode() == Instruction::Or ? D.vor(a, b) : D.vxor(a, b);
        setRes(s, i, mkInt(R(s, r)));
        return next();
    }
    case Instruction::ZExt:
        setRes(s, i, mkInt(D.zext(toInt(eval(s, i->getOperand(0))), bits(i->getType()))));
        return next();
    case Instruction::SExt:
        setRes(s, i, mkInt(D.sext(toInt(eval(s, i->getOperand(0))), bits(i->getType()))));
        return next();
    case Instruction::Trunc:
        setRes(s, i, mkInt(D.trunc(toInt(eval(s, i->getOperand(0))), bits(i->getType()))));
        return next();
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
        setRes(s, i, castPI(eval(s, i->getOperand(0)), i->getType()));
        return next();
    case Instruction::BitCast:
        setRes(s, i, castPI(eval(s, i->getOperand(0)), i->getType()));
        return next();
    case Instruction::Freeze:
        setRes(s, i, eval(s, i->getOperand(0)));
        return next();
    case Instruction::Fence:
        return next();
    case Instruction::AtomicRMW:
    {
        auto *rm = cast<AtomicRMWInst>(i);
        Val p = eval(s, rm->getPointerOperand()), v = eval(s, rm->getValOperand());
        Val old = loadT(s, p, rm->getType());
        Val nv;
        if (rm->getOperation() == AtomicRMWInst::Add) nv = addsubV(s, old, v, false);
        else if (rm->getOperation() == AtomicRMWInst::Sub) nv = addsubV(s, old, v, true);
        else throw Unsupported{"atomicrmw"};
        storeV(s, p, nv, rm->getType());
        setRes(s, i, old);
        return next();
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
    case Instruction::FNeg: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI:
    case Instruction::UIToFP: case Instruction::SIToFP:
    {
        std::vector<BV> ops;
        for (auto &o : i->operands()) ops.push_back(toInt(eval(s, o.get())));
        setRes(s, i, mkInt(D.word(O_FLOAT, bits(i->getType()), i->getOpcodeName(), ops)));
        return next();
    }
    case Instruction::FCmp:
    {
        auto *c = cast<FCmpInst>(i);
        std::vector<BV> ops;
        for (auto &o : i->operands()) ops.push_back(toInt(eval(s, o.get())));
        for (auto &o : ops) o = R(s, o);
        if (D.isC(ops[0]) && D.isC(ops[1]) && (D.width(ops[0]) == 32 || D.width(ops[0]) == 64))
        {
            auto toD = [&](BV v) {
                u64 b = D.val(v);
                u32 b4 = (u32)b;
                float f;
                double d;
                memcpy(&f, &b4, 4);
                memcpy(&d, &b, 8);
                return D.width(v) == 32 ? (double)f : d;
            };
            double x = toD(ops[0]), y = toD(ops[1]);
            // predicate bits: 1 equal, 2 greater, 4 less, 8 unordered
            unsigned rel = x == y ? 1 : x > y ? 2 : x < y ? 4 : 8;
            setRes(s, i, mkC(1, (c->getPredicate() & rel) != 0));
            return next();
        }
        setRes(s, i, mkInt(D.word(O_FLOAT, 1, "fcmp" + std::to_string(c->getPredicate()), ops)));
        return next();
    }
    default:
        throw Unsupported{std::string("instruction ") + i->getOpcodeName()};
    }
}
void popFrameForResume(State &s, u32 e)
{
    // continue unwinding in the caller
    if (s.stack.size() == 1) violation(s, "uncaught exception");
    popFrame(s);
    // the call instruction of the caller propagates
    doThrow(s, e);
}
void runState(SP s)
{
    while (true)
    {
        bool merge;
        try
        {
            merge = step(*s);
        }
        catch (Stop &)
        {
            flush();
            return;
        }
        flush();
        if (viol.size() >= maxViol) return;
        if (merge && nPend)
        {
            push(std::move(s));
            return;
        }
    }
}
void flush()
{
    for (auto &f : forked) push(std::move(f));
    forked.clear();
}
void run(Function *f)
{
    auto s = std::make_unique<State>();
    s->facts = std::make_shared<Facts>();
    auto *nf = new Frame;
    nf->fi = fnInfo(f);
    nf->bb = &f->getEntryBlock();
    nf->it = nf->bb->begin();
    nf->loc.resize(nf->fi->n);
    s->stack.push_back(FrameP(nf));
    partitions = 1;
    push(std::move(s));
    while (nPend && viol.size() < maxViol) runState(pop());
}
