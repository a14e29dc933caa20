// spbai: abstract interpreter with trace partitioning for LLVM IR (see domain.h, facts.h)
//
//   spbai module.bc entry [--json out] [--max-states N] [--max-steps N]
//
// Entry is an extern "C" void f() of a driver translation unit. The driver describes the abstract
// initial state (__ai_any, __ai_buffer), calls the library and states obligations (__ai_assert,
// __ai_assert_logs). The library code is taken as compiled from the current sources; nothing is
// executed.
#include "facts.h"
#include <charconv>
#include <cstring>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <ctime>
#include <deque>
#include <functional>
#include <queue>
#include <unordered_set>

using namespace llvm;

Dom D;

// ------------------------------------------------------------------ ref counting
template <class T> struct Rc
{
    T *p = nullptr;
    Rc() = default;
    explicit Rc(T *x) : p(x) { if (p) p->rc++; }
    Rc(const Rc &o) : p(o.p) { if (p) p->rc++; }
    Rc(Rc &&o) noexcept : p(o.p) { o.p = nullptr; }
    Rc &operator=(Rc o) noexcept { std::swap(p, o.p); return *this; }
    ~Rc() { if (p && --p->rc == 0) delete p; }
    T *operator->() const { return p; }
    T &operator*() const { return *p; }
    explicit operator bool() const { return p; }
};

// ------------------------------------------------------------------ values
struct Val
{
    enum K : u8 { None, Int, Ptr, Agg } k = None;
    BV bv = 0;   // Int value / Ptr offset (64)
    u32 obj = 0; // Ptr
    std::shared_ptr<std::vector<Val>> agg;
    bool operator==(const Val &o) const
    {
        if (k != o.k || bv != o.bv || obj != o.obj) return false;
        if (k == Agg)
        {
            if (agg->size() != o.agg->size()) return false;
            for (size_t i = 0; i < agg->size(); i++)
                if (!((*agg)[i] == (*o.agg)[i])) return false;
        }
        return true;
    }
    u64 hash() const
    {
        u64 h = k * 0x9e3779b97f4a7c15ull ^ ((u64)bv << 32 | obj) * 0xff51afd7ed558ccdull;
        if (k == Agg)
            for (auto &a : *agg) h = h * 31 + a.hash();
        return h ^ (h >> 31);
    }
};
static Val mkInt(BV b) { Val v; v.k = Val::Int; v.bv = b; return v; }
static Val mkC(int w, u64 c) { return mkInt(D.cst(w, c)); }
static Val mkPtr(u32 obj, BV off)
{
    Val v;
    v.k = Val::Ptr;
    v.obj = obj;
    v.bv = off;
    return v;
}
static Val mkPtrC(u32 obj, u64 off) { return mkPtr(obj, D.cst(64, off)); }
static Val mkAgg(std::vector<Val> a)
{
    Val v;
    v.k = Val::Agg;
    v.agg = std::make_shared<std::vector<Val>>(std::move(a));
    return v;
}

struct Cell // one byte
{
    enum K : u8 { Lazy, Byte, PFrag, Undef } k = Lazy;
    u8 idx = 0;
    u32 a = 0;  // Byte: bv8; PFrag: offset BV
    u32 obj = 0;
    bool operator==(const Cell &o) const { return k == o.k && idx == o.idx && a == o.a && obj == o.obj; }
};

struct Obj
{
    int rc = 0;
    std::string name;
    bool constSize = true;
    u64 size = 0;
    BV sizeBV = 0;
    enum Fill : u8 { FUndef, FZero, FInput } fill = FUndef;
    bool writable = true, alive = true;
    u8 kind = 0; // 0 stack 1 heap 2 global 3 input 4 function 5 exception
    u32 excType = 0;
    std::vector<Cell> cells;
    mutable u64 h = 0;
    Obj() = default;
    Obj(const Obj &o) : name(o.name), constSize(o.constSize), size(o.size), sizeBV(o.sizeBV), fill(o.fill), writable(o.writable),
                        alive(o.alive), kind(o.kind), excType(o.excType), cells(o.cells) {}
    u64 hash() const
    {
        if (h) return h;
        u64 x = std::hash<std::string>()(name) ^ size * 77 ^ alive ^ (u64)sizeBV << 20 ^ (u64)excType << 40;
        for (auto &c : cells)
        {
            x = (x ^ (c.k | (u64)c.idx << 4 | (u64)c.a << 8 | (u64)c.obj << 36)) * 0x100000001b3ull;
            x ^= x >> 31;
        }
        return h = x | 1;
    }
    bool same(const Obj &o) const
    {
        return name == o.name && size == o.size && sizeBV == o.sizeBV && alive == o.alive && excType == o.excType && fill == o.fill && cells == o.cells;
    }
};
using ObjP = Rc<Obj>;

struct FnInfo
{
    Function *f;
    DenseMap<const Value *, int> num;
    int n = 0;
    bool subject = false; // code under analysis (not the driver, not the standard library)
    DenseMap<const BasicBlock *, int> rpo;
    DenseMap<const BasicBlock *, std::vector<int>> dead; // values dead at the entry of the block
    std::string dem;
};

struct Frame
{
    int rc = 0;
    FnInfo *fi = nullptr;
    BasicBlock *bb = nullptr, *prev = nullptr;
    BasicBlock::iterator it;
    std::vector<Val> loc;
    std::vector<u32> allocas;
    u32 vaObj = 0;
    mutable u64 h = 0;
    Frame() = default;
    Frame(const Frame &o) : fi(o.fi), bb(o.bb), prev(o.prev), it(o.it), loc(o.loc), allocas(o.allocas) {}
    u64 hash() const
    {
        if (h) return h;
        u64 x = (u64)fi * 31 ^ (u64)bb * 17 ^ (u64)&*it;
        for (auto &v : loc) x = (x ^ v.hash()) * 0x100000001b3ull, x ^= x >> 29;
        return h = x | 1;
    }
    bool same(const Frame &o) const
    {
        return fi == o.fi && bb == o.bb && it == o.it && loc == o.loc && allocas == o.allocas;
    }
};
using FrameP = Rc<Frame>;

struct LogItem
{
    enum K : u8 { Byte, PFrag, Blob } k;
    u8 idx = 0;
    u32 a = 0, b = 0, obj = 0; // Byte: a=bv8; Blob: obj, a=off, b=size
    const Instruction *at = nullptr; // the call site of the code under analysis that wrote it
    bool operator==(const LogItem &o) const { return k == o.k && idx == o.idx && a == o.a && b == o.b && obj == o.obj; }
};
struct Log
{
    int rc = 0;
    std::vector<LogItem> items;
    BV size = 0;
    Log() = default;
    Log(const Log &o) : items(o.items), size(o.size) {}
};
using LogP = Rc<Log>;

struct TraceN
{
    int rc = 0;
    Rc<TraceN> up;
    const DebugLoc *loc;
    const Instruction *inst;
    std::string what;
    int depth;
};

struct FactsP
{
    std::shared_ptr<const Facts> p;
};

struct State
{
    std::vector<FrameP> stack;
    std::vector<ObjP> objs;       // dynamic
    std::map<u32, ObjP> globs;    // modified statics
    std::shared_ptr<Facts> facts;
    std::vector<LogP> logs;
    std::vector<std::pair<u32, int>> caught; // exception obj stack
    std::map<std::string, u32> ctr;          // fresh counters
    std::vector<std::string> notes;
    Rc<TraceN> trace;
    const Instruction *last = nullptr; // last call or store in the code under analysis
    u64 steps = 0;
    std::vector<u64> headerHashes;
};
using SP = std::unique_ptr<State>;

// ------------------------------------------------------------------ interpreter
struct Unsupported
{
    std::string what;
};
struct Stop
{
};

static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;

struct Violation
{
    std::string site;
    std::string msg, where, trace, facts;
};

struct Interp
{
    std::vector<ObjP> statics; // id 1..
    DenseMap<const GlobalValue *, u32> gid;
    std::vector<const GlobalValue *> gval;
    u32 nStatic = 1;
    std::map<std::string, u32> typeIds;
    DenseMap<const Function *, FnInfo *> fns;
    std::vector<Violation> viol;
    std::set<std::string> violKeys;
    std::map<std::string, u64> covers;
    std::map<std::string, u64> asserts;
    std::set<std::string> usedFns;
    u64 steps = 0, partitions = 0, joins = 0, maxSteps = 120000000, maxParts = 200000, ended = 0, pathLimit = 3000000;
    u64 maxViol = 3;
    bool debug = false;
    clock_t cpuEnd = 0;
    time_t deadline = 0;
    std::string entry;
    DenseMap<const Constant *, Val> constCache;

    // ---- statics
    u32 globalId(const GlobalValue *g)
    {
        if (auto *a = dyn_cast<GlobalAlias>(g)) g = cast<GlobalValue>(a->getAliaseeObject());
        auto it = gid.find(g);
        if (it != gid.end()) return it->second;
        llvm_unreachable("unregistered global");
    }
    void initStatics()
    {
        statics.emplace_back(); // null
        gval.push_back(nullptr);
        for (auto &f : *M)
        {
            gid[&f] = statics.size();
            auto *o = new Obj;
            o->name = f.getName().str();
            o->kind = 4;
            o->size = 1;
            o->writable = false;
            statics.push_back(ObjP(o));
            gval.push_back(&f);
        }
        for (auto &g : M->globals())
        {
            gid[&g] = statics.size();
            auto *o = new Obj;
            o->name = g.getName().str();
            o->kind = 2;
            o->size = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8;
            o->writable = !g.isConstant();
            o->fill = Obj::FUndef;
            statics.push_back(ObjP(o));
            gval.push_back(&g);
        }
        nStatic = statics.size();
        for (auto &g : M->globals())
        {
            auto &o = statics[gid[&g]];
            if (g.hasInitializer())
            {
                o->cells.resize(o->size);
                storeConst(*o, 0, g.getInitializer());
            }
        }
    }
    void storeConst(Obj &o, u64 off, const Constant *c)
    {
        Type *t = c->getType();
        if (isa<ConstantAggregateZero>(c) || c->isNullValue())
        {
            u64 n = DL->getTypeAllocSize(t);
            for (u64 i = 0; i < n; i++) setByte(o, off + i, D.cst(8, 0));
            return;
        }
        if (isa<UndefValue>(c))
        {
            writeCells(o, off, Val(), DL->getTypeStoreSize(t));
            return;
        }
        if (auto *s = dyn_cast<ConstantStruct>(c))
        {
            auto *l = DL->getStructLayout(s->getType());
            for (unsigned i = 0; i < s->getNumOperands(); i++) storeConst(o, off + l->getElementOffset(i), s->getOperand(i));
            return;
        }
        if (auto *a = dyn_cast<ConstantArray>(c))
        {
            u64 es = DL->getTypeAllocSize(a->getType()->getElementType());
            for (unsigned i = 0; i < a->getNumOperands(); i++) storeConst(o, off + es * i, a->getOperand(i));
            return;
        }
        if (auto *a = dyn_cast<ConstantDataSequential>(c))
        {
            u64 es = a->getElementByteSize();
            for (unsigned i = 0; i < a->getNumElements(); i++) storeConst(o, off + es * i, a->getElementAsConstant(i));
            return;
        }
        Val v = constVal(c);
        writeCells(o, off, v, DL->getTypeStoreSize(t));
    }
    static void setByte(Obj &o, u64 i, BV b)
    {
        Cell c;
        c.k = Cell::Byte;
        c.a = b;
        o.cells[i] = c;
    }
    void writeCells(Obj &o, u64 off, const Val &v, u64 n)
    {
        o.h = 0;
        if (v.k == Val::Ptr && v.obj == 0)
        {
            for (u64 i = 0; i < n; i++) setByte(o, off + i, D.slice(v.bv, 8 * i, 8));
        }
        else if (v.k == Val::Ptr)
        {
            for (u64 i = 0; i < n; i++)
            {
                Cell c;
                c.k = Cell::PFrag;
                c.idx = i;
                c.a = v.bv;
                c.obj = v.obj;
                o.cells[off + i] = c;
            }
        }
        else if (v.k == Val::Int)
        {
            BV b = v.bv;
            if (D.width(b) < (int)(8 * n)) b = D.zext(b, 8 * n);
            for (u64 i = 0; i < n; i++) setByte(o, off + i, D.slice(b, 8 * i, 8));
        }
        else if (v.k == Val::None)
        {
            for (u64 i = 0; i < n; i++)
            {
                Cell c;
                c.k = Cell::Undef;
                o.cells[off + i] = c;
            }
        }
        else throw Unsupported{"store of aggregate"};
    }
    // ---- constants
    Val constVal(const Constant *c)
    {
        auto it = constCache.find(c);
        if (it != constCache.end()) return it->second;
        Val v = constVal2(c);
        constCache[c] = v;
        return v;
    }
    Val constVal2(const Constant *c)
    {
        if (auto *i = dyn_cast<ConstantInt>(c))
        {
            auto &a = i->getValue();
            int w = a.getBitWidth();
            std::vector<BitId> b(w);
            for (int k = 0; k < w; k++) b[k] = a[k];
            return mkInt(D.mkBV(b));
        }
        if (auto *f = dyn_cast<ConstantFP>(c))
        {
            auto a = f->getValueAPF().bitcastToAPInt();
            std::vector<BitId> b(a.getBitWidth());
            for (unsigned k = 0; k < b.size(); k++) b[k] = a[k];
            return mkInt(D.mkBV(b));
        }
        if (isa<ConstantPointerNull>(c)) return mkPtrC(0, 0);
        if (isa<UndefValue>(c))
        {
            // deterministic: undef values are unknown
            return undefOf(c->getType(), "undef");
        }
        if (auto *g = dyn_cast<GlobalValue>(c)) return mkPtrC(globalId(g), 0);
        if (auto *ce = dyn_cast<ConstantExpr>(c))
        {
            if (auto *g = dyn_cast<GEPOperator>(ce))
            {
                APInt off(64, 0);
                if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
                Val b = constVal(cast<Constant>(g->getPointerOperand()));
                b.bv = D.addsub(b.bv, D.cst(64, off.getZExtValue()), false);
                return b;
            }
            switch (ce->getOpcode())
            {
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::BitCast:
            case Instruction::AddrSpaceCast:
            {
                Val v = constVal(ce->getOperand(0));
                return castPI(v, ce->getType());
            }
            case Instruction::Sub:
            case Instruction::Add:
                return addsubV(*emptyState(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), ce->getOpcode() == Instruction::Sub);
            case Instruction::Trunc:
            {
                Val v = constVal(ce->getOperand(0));
                return mkInt(D.trunc(toInt(v), ce->getType()->getIntegerBitWidth()));
            }
            default:
                throw Unsupported{std::string("constant expression ") + ce->getOpcodeName()};
            }
        }
        if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c))
        {
            std::vector<Val> a;
            unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->isArrayTy() ? c->getType()->getArrayNumElements() : 0;
            for (unsigned i = 0; i < n; i++) a.push_back(constVal(c->getAggregateElement(i)));
            return mkAgg(a);
        }
        throw Unsupported{"constant"};
    }
    std::unique_ptr<State> es;
    State *emptyState()
    {
        if (!es)
        {
            es = std::make_unique<State>();
            es->facts = std::make_shared<Facts>();
        }
        return es.get();
    }
    Val undefOf(Type *t, const std::string &tag)
    {
        if (t->isStructTy() || t->isArrayTy())
        {
            std::vector<Val> a;
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            for (unsigned i = 0; i < n; i++) a.push_back(undefOf(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), tag));
            return mkAgg(a);
        }
        if (t->isPointerTy()) return mkPtrC(0, 0);
        int w = bits(t);
        return mkInt(D.word(O_FRESH, w, "undef:" + tag, {}));
    }
    static int bits(Type *t)
    {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isPointerTy()) return 64;
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        if (t->isX86_FP80Ty()) return 80;
        throw Unsupported{"type"};
    }
    // ---- helpers
    BV toInt(const Val &v)
    {
        if (v.k == Val::Int) return v.bv;
        if (v.k == Val::Ptr)
        {
            if (v.obj == 0) return v.bv;
            BV base = D.word(O_FRESH, 64, "addr:" + std::to_string(v.obj), {});
            return D.addsub(base, v.bv, false);
        }
        throw Unsupported{"toInt"};
    }
    Val castPI(const Val &v, Type *t)
    {
        if (t->isPointerTy())
        {
            if (v.k == Val::Ptr) return v;
            return mkPtr(0, D.width(v.bv) == 64 ? v.bv : D.zext(v.bv, 64));
        }
        if (v.k == Val::Ptr)
        {
            if (v.obj == 0)
            {
                int w = bits(t);
                return mkInt(w == 64 ? v.bv : w < 64 ? D.trunc(v.bv, w) : D.zext(v.bv, w));
            }
            if (bits(t) != 64) return mkInt(D.trunc(toInt(v), bits(t)));
            return v;
        }
        return v;
    }
    const Obj *getObj(State &s, u32 id)
    {
        if (id == 0) return nullptr;
        if (id < nStatic)
        {
            auto it = s.globs.find(id);
            if (it != s.globs.end()) return it->second.p;
            return statics[id].p;
        }
        u32 i = id - nStatic;
        if (i >= s.objs.size() || !s.objs[i]) return nullptr;
        return s.objs[i].p;
    }
    Obj *mutObj(State &s, u32 id)
    {
        if (id < nStatic)
        {
            auto it = s.globs.find(id);
            if (it == s.globs.end()) it = s.globs.emplace(id, ObjP(new Obj(*statics[id]))).first;
            else if (it->second->rc > 1) it->second = ObjP(new Obj(*it->second));
            it->second->h = 0;
            return it->second.p;
        }
        auto &p = s.objs[id - nStatic];
        if (p->rc > 1) p = ObjP(new Obj(*p));
        p->h = 0;
        return p.p;
    }
    u32 newObj(State &s, Obj *o)
    {
        for (u32 i = 0; i < s.objs.size(); i++)
            if (!s.objs[i])
            {
                s.objs[i] = ObjP(o);
                return nStatic + i;
            }
        s.objs.push_back(ObjP(o));
        return nStatic + s.objs.size() - 1;
    }
    u32 allocObj(State &s, const std::string &name, u64 size, u8 kind, Obj::Fill fill = Obj::FUndef)
    {
        auto *o = new Obj;
        o->name = name;
        o->size = size;
        o->kind = kind;
        o->fill = fill;
        if (size > 1 << 20) throw Unsupported{"object too large"};
        o->cells.resize(size);
        return newObj(s, o);
    }
    static std::string locStr(const Instruction *i)
    {
        if (!i) return "?";
        if (auto &l = i->getDebugLoc())
        {
            std::string r;
            const DILocation *d = l.get();
            r = d->getFilename().str() + ":" + std::to_string(d->getLine());
            return r;
        }
        return i->getFunction()->getName().str();
    }
    std::string position(State &s)
    {
        std::string r;
        for (size_t i = s.stack.size(); i-- > 0;)
        {
            auto &f = *s.stack[i];
            auto it = f.it;
            const Instruction *in = i + 1 == s.stack.size() ? &*it : &*it;
            std::string n = f.fi->dem;
            auto p = n.find('(');
            if (p != std::string::npos && n.size() > 160) n = n.substr(0, 160) + "...";
            r += "    at " + locStr(in) + "  in " + n + "\n";
        }
        return r;
    }
    std::string factsStr(State &s)
    {
        std::string r;
        for (auto &m : s.facts->masks)
        {
            r += "    " + D.groups[m.first].name + " in {";
            int n = 0;
            unsigned i = 0;
            while (i < 256)
            {
                if (!m.second.get(i)) { i++; continue; }
                unsigned j = i;
                while (j + 1 < 256 && m.second.get(j + 1)) j++;
                char b[40];
                if (i == j) snprintf(b, sizeof b, "%s0x%02x", n ? "," : "", i);
                else snprintf(b, sizeof b, "%s0x%02x-0x%02x", n ? "," : "", i, j);
                r += b;
                if (++n > 24) { r += ",..."; break; }
                i = j + 1;
            }
            r += "}\n";
        }
        for (auto &x : s.notes) r += "    note: " + x + "\n";
        return r;
    }
    static bool subjectFn(const Function *f)
    {
        auto *sp = f->getSubprogram();
        if (!sp || !sp->getFile()) return false;
        auto n = sp->getFile()->getFilename();
        return n.contains("include/spb/") || n.endswith(".pb.cc") || n.endswith(".pb.h") || n.contains("spb-proto-compiler/");
    }
    static std::string siteStr(const Instruction *i)
    {
        if (!i) return "";
        std::string n = demangle(i->getFunction()->getName().str());
        if (n.size() > 200) n = n.substr(0, 200) + "...";
        return locStr(i) + "  in " + n;
    }
    // innermost call site of the code under analysis
    const Instruction *site(State &s)
    {
        const Instruction *any = nullptr;
        for (size_t i = s.stack.size(); i-- > 0;)
        {
            auto *fi = s.stack[i]->fi;
            if (!fi->subject) continue;
            auto *at = &*s.stack[i]->it;
            if (!any) any = at;
            // the plumbing between the codec and the callback is not the culprit
            if (fi->dem.find("stream") < fi->dem.find('(') || fi->dem.find("function_ref") < fi->dem.find('(')) continue;
            return at;
        }
        return any;
    }
    void violation(State &s, const std::string &msg, const Instruction *blame = nullptr)
    {
        Violation v;
        v.msg = msg;
        v.where = position(s);
        if (!blame) blame = site(s);
        if (!blame) blame = s.last;
        v.site = siteStr(blame);
        std::vector<std::string> t;
        for (auto n = s.trace; n; n = n->up)
        {
            std::string l = locStr(n->inst) + "  " + n->what;
            t.push_back(l);
            if (t.size() > 60) break;
        }
        std::reverse(t.begin(), t.end());
        for (auto &x : t) v.trace += "    " + x + "\n";
        v.facts = factsStr(s);
        std::string key = msg + locStr(&*s.stack.back()->it);
        if (violKeys.insert(key).second)
            if (viol.size() < 20) viol.push_back(v);
        throw Stop{};
    }
    void trace(State &s, const Instruction *i, const std::string &w)
    {
        auto *n = new TraceN;
        n->up = s.trace;
        n->inst = i;
        n->what = w;
        n->depth = s.trace ? s.trace->depth + 1 : 0;
        s.trace = Rc<TraceN>(n);
    }
    // ---- partitions
    std::vector<SP> forked;
    SP clone(State &s)
    {
        auto n = std::make_unique<State>(s);
        n->facts = std::make_shared<Facts>(*s.facts);
        partitions++;
        if (debug && (partitions & (partitions - 1)) == 0) errs() << "partition " << partitions << "\n" << position(s) << factsStr(s);
        if (partitions > maxParts) throw Unsupported{"too many partitions"};
        return n;
    }
    Facts *mf(State &s)
    {
        if (s.facts.use_count() > 1) s.facts = std::make_shared<Facts>(*s.facts);
        return s.facts.get();
    }
    BV R(State &s, BV b) { return s.facts->redBV(b); }
    BitId Rb(State &s, BitId b) { return s.facts->red(b); }
    // decide a bit: partitions the trace when it is not known. The current state continues with
    // the returned value; the other one re-executes the current instruction (with the bit known).
    bool decide(State &s, BitId b, const char *what = nullptr)
    {
        b = Rb(s, b);
        if (b < 2) return b;
        if (D.hasPoison)
            if (auto *p = D.poisonOf(b)) violation(s, p->rfind(UNINIT, 0) == 0 ? "a decision depends on memory that was never written (" + p->substr(UNINIT.size()) + ")" : *p);
        auto other = clone(s);
        bool okT = mf(s)->assume(b, true);
        bool okF = mf(*other)->assume(b, false);
        if (!okT && !okF) throw Stop{};
        if (okT && okF)
        {
            trace(*other, &*s.stack.back()->it, what ? std::string(what) + "=0" : "cond=0");
            trace(s, &*s.stack.back()->it, what ? std::string(what) + "=1" : "cond=1");
            forked.push_back(std::move(other));
            // both re-execute the instruction, so that its effect is done once per partition
            return true;
        }
        if (okT) return true;
        s.facts = other->facts;
        return false;
    }
    // possible values of a vector; false if there are more than limit
    bool values(State &s, BV v, std::vector<u64> &out, size_t limit)
    {
        v = R(s, v);
        if (D.isC(v))
        {
            out = {D.val(v)};
            return true;
        }
        if (D.width(v) > 64) return false;
        int g = D.commonGroup(v, v);
        std::set<u64> r;
        if (g >= 0)
        {
            auto x = D.enumVals(v, g);
            M256 m = s.facts->mask(g);
            for (int i = 0; i < 256; i++)
                if (m.get(i)) r.insert(x[i]);
            if (r.size() > limit) return false;
            out.assign(r.begin(), r.end());
            return true;
        }
        auto b = s.facts->bounds(v);
        if (b.second - b.first < limit)
        {
            for (u64 x = b.first;; x++)
            {
                Facts f(*s.facts);
                if (f.assumeEq(v, D.cst(D.width(v), x))) r.insert(x);
                if (x == b.second) break;
            }
            out.assign(r.begin(), r.end());
            return true;
        }
        std::vector<BitId> non;
        for (auto x : D.bvs[v])
            if (x > 1)
            {
                BitId p = x & ~1u;
                if (std::find(non.begin(), non.end(), p) == non.end()) non.push_back(p);
            }
        if (non.size() > 8) return false;
        for (u64 k = 0; k < (1ull << non.size()); k++)
        {
            Facts f(*s.facts);
            bool ok = true;
            for (size_t i = 0; i < non.size() && ok; i++) ok = f.assume(non[i], (k >> i) & 1);
            if (!ok) continue;
            BV q = f.redBV(v);
            if (!D.isC(q)) return false;
            r.insert(D.val(q));
            if (r.size() > limit) return false;
        }
        out.assign(r.begin(), r.end());
        return true;
    }
    // concrete value: partitions
    u64 concrete(State &s, BV v, size_t limit, const char *what)
    {
        v = R(s, v);
        if (D.isC(v)) return D.val(v);
        std::vector<u64> vals;
        if (!values(s, v, vals, limit)) throw Unsupported{std::string("unbounded value: ") + what + "\n" + position(s)};
        if (vals.empty()) throw Stop{};
        for (size_t i = 1; i < vals.size(); i++)
        {
            auto o = clone(s);
            if (!mf(*o)->assumeEq(v, D.cst(D.width(v), vals[i]))) continue;
            trace(*o, &*s.stack.back()->it, std::string(what) + "=" + std::to_string(vals[i]));
            forked.push_back(std::move(o));
        }
        if (!mf(s)->assumeEq(v, D.cst(D.width(v), vals[0]))) throw Stop{};
        trace(s, &*s.stack.back()->it, std::string(what) + "=" + std::to_string(vals[0]));
        return vals[0];
    }
    // ---- memory
    Cell readCell(State &s, const Obj &o, u32 id, u64 i)
    {
        Cell c;
        if (i < o.cells.size()) c = o.cells[i];
        if (c.k == Cell::Lazy)
        {
            switch (o.fill)
            {
            case Obj::FZero:
                c.k = Cell::Byte;
                c.a = D.cst(8, 0);
                break;
            case Obj::FInput:
            {
                int g = D.mkGroup(o.name + "[" + std::to_string(i) + "]");
                c.k = Cell::Byte;
                c.a = groupBV(g, 8);
                break;
            }
            default:
                c.k = Cell::Undef;
            }
        }
        return c;
    }
    static BV groupBV(int g, int w)
    {
        std::vector<BitId> b(w);
        for (int i = 0; i < w; i++) b[i] = D.bitOfAtom(D.inputAtom(g, i));
        return D.mkBV(b);
    }
    BV cellBV(State &s, const Cell &c, const std::string &tag)
    {
        switch (c.k)
        {
        case Cell::Byte:
            return c.a;
        case Cell::PFrag:
            return D.slice(toInt(mkPtr(c.obj, c.a)), 8 * c.idx, 8);
        default:
            // it may be copied, but no decision may depend on it
            return D.word(O_FRESH, 8, UNINIT + tag, {});
        }
    }
    void checkAccess(State &s, const Val &p, BV n, bool write, const Obj *&o)
    {
        if (p.k != Val::Ptr)
        {
            violation(s, "memory access through an integer");
        }
        if (p.obj == 0)
        {
            BV off = R(s, p.bv);
            if (D.isC(off) && D.val(off) == 0) violation(s, "null pointer dereference");
            violation(s, "memory access through an invalid pointer");
        }
        o = getObj(s, p.obj);
        if (!o || !o->alive) violation(s, std::string(write ? "write to" : "read from") + " a dead object " + (o ? o->name : ""));
        if (o->kind == 4) violation(s, "data access to a function");
        if (write && !o->writable) violation(s, "write to a constant object " + o->name);
        BV off = R(s, p.bv);
        BV size = o->constSize ? D.cst(64, o->size) : R(s, o->sizeBV);
        n = R(s, n);
        // off + n <= size, off <= size
        if (D.isC(off) && D.isC(n) && D.isC(size))
        {
            u64 a = D.val(off), b = D.val(n), c = D.val(size);
            if (a <= c && b <= c - a) return;
            violation(s, std::string("out of bounds ") + (write ? "write" : "read") + " of " + std::to_string(b) + " bytes at offset " +
                             std::to_string((i64)a) + " of " + o->name + " (size " + std::to_string(c) + ")");
        }
        // symbolic: end = off + n; need !(size < off) and !(size - off < n)
        BitId bad1 = s.facts->cmp(P_ULT, size, off);
        BV rem = R(s, D.addsub(size, off, true));
        BitId bad2 = s.facts->cmp(P_ULT, rem, n);
        bad1 = Rb(s, bad1);
        bad2 = Rb(s, bad2);
        if (bad1 == 0 && bad2 == 0) return;
        if (bad1 == 1 || bad2 == 1) violation(s, std::string("out of bounds ") + (write ? "write" : "read") + " of " + o->name);
        // partition: the bad part is reported
        BitId bad = D.bor(bad1, bad2);
        Facts f(*s.facts);
        if (f.assume(bad, true))
        {
            s.facts = std::make_shared<Facts>(f);
            violation(s, std::string("possible out of bounds ") + (write ? "write" : "read") + " of " + o->name);
        }
        if (!mf(s)->assume(bad, false)) throw Stop{};
    }
    Val loadT(State &s, const Val &p, Type *t)
    {
        if (t->isStructTy())
        {
            auto *st = cast<StructType>(t);
            auto *l = DL->getStructLayout(st);
            std::vector<Val> a;
            for (unsigned i = 0; i < st->getNumElements(); i++)
            {
                Val q = p;
                q.bv = D.addsub(q.bv, D.cst(64, (u64)l->getElementOffset(i)), false);
                a.push_back(loadT(s, q, st->getElementType(i)));
            }
            return mkAgg(a);
        }
        if (t->isArrayTy())
        {
            std::vector<Val> a;
            u64 es = DL->getTypeAllocSize(t->getArrayElementType());
            for (unsigned i = 0; i < t->getArrayNumElements(); i++)
            {
                Val q = p;
                q.bv = D.addsub(q.bv, D.cst(64, es * i), false);
                a.push_back(loadT(s, q, t->getArrayElementType()));
            }
            return mkAgg(a);
        }
        u64 n = DL->getTypeStoreSize(t);
        const Obj *o;
        checkAccess(s, p, D.cst(64, n), false, o);
        BV off = R(s, p.bv);
        if (!o->constSize)
        {
            // opaque content
            int w = bits(t);
            if (t->isPointerTy()) throw Unsupported{"pointer in a blob"};
            return mkInt(D.word(O_FLOAT, w, "blob:" + o->name, {off}));
        }
        if (!D.isC(off))
        {
            int g = D.commonGroup(off, off);
            std::vector<u64> vals;
            // table lookup by one byte: exact truth table
            if (g >= 0)
            {
                auto x = D.enumVals(off, g);
                M256 m = s.facts->mask(g);
                bool ok = true;
                std::vector<u64> r(256, 0);
                for (int i = 0; i < 256 && ok; i++)
                {
                    if (!m.get(i)) continue;
                    for (u64 k = 0; k < n && k < 8; k++)
                    {
                        if (x[i] + k >= o->size) { ok = false; break; }
                        Cell c = readCell(s, *o, p.obj, x[i] + k);
                        if (c.k != Cell::Byte || !D.isC(c.a)) { ok = false; break; }
                        r[i] |= D.val(c.a) << (8 * k);
                    }
                }
                if (ok && !t->isPointerTy())
                {
                    // few different values: one partition for each keeps what is known about the index
                    std::vector<u64> d;
                    for (int i = 0; i < 256 && d.size() <= 16; i++)
                        if (m.get(i) && std::find(d.begin(), d.end(), r[i]) == d.end()) d.push_back(r[i]);
                    BV v = D.fromVals(r, g, bits(t));
                    std::set<u64> ix;
                    for (int i = 0; i < 256 && ix.size() <= d.size(); i++)
                        if (m.get(i)) ix.insert(x[i]);
                    if (d.size() > 1 && d.size() <= 16 && d.size() < ix.size()) return mkInt(D.cst(bits(t), concrete(s, v, 16, "table value")));
                    return mkInt(v);
                }
            }
            else if (!t->isPointerTy())
            {
                // index made of few bits
                std::vector<BitId> non;
                for (auto b : D.bvs[off])
                    if (b > 1 && std::find(non.begin(), non.end(), b & ~1u) == non.end()) non.push_back(b & ~1u);
                if (non.size() <= 8)
                {
                    bool ok = true;
                    std::vector<u64> r(256, 0);
                    for (unsigned k = 0; k < (1u << non.size()) && ok; k++)
                    {
                        u64 idx = 0;
                        for (int i = 0; i < 64; i++)
                        {
                            BitId b = D.bvs[off][i];
                            bool v = b & 1;
                            if (b > 1)
                            {
                                size_t j = std::find(non.begin(), non.end(), b & ~1u) - non.begin();
                                v ^= (k >> j) & 1;
                            }
                            if (v) idx |= 1ull << i;
                        }
                        for (u64 q = 0; q < n; q++)
                        {
                            if (idx + q >= o->size) { continue; } // excluded by checkAccess
                            Cell c = readCell(s, *o, p.obj, idx + q);
                            if (c.k != Cell::Byte || !D.isC(c.a)) { ok = false; break; }
                            r[k] |= D.val(c.a) << (8 * q);
                        }
                    }
                    if (ok)
                    {
                        std::vector<BitId> out(bits(t));
                        for (int i = 0; i < bits(t); i++)
                        {
                            M256 m = M256::none();
                            for (unsigned k = 0; k < (1u << non.size()); k++)
                                if ((r[k] >> i) & 1) m.set(k);
                            out[i] = D.boolFn(non, m);
                        }
                        return mkInt(D.mkBV(out));
                    }
                }
            }
            u64 c = concrete(s, off, 300, "load offset");
            off = D.cst(64, c);
            o = getObj(s, p.obj);
        }
        u64 at = D.val(off);
        std::vector<Cell> cs;
        bool frag = true;
        for (u64 i = 0; i < n; i++)
        {
            cs.push_back(readCell(s, *o, p.obj, at + i));
            frag = frag && cs[i].k == Cell::PFrag && cs[i].idx == i && cs[i].a == cs[0].a && cs[i].obj == cs[0].obj;
        }
        if (frag && n == 8) return mkPtr(cs[0].obj, cs[0].a);
        std::string tag = o->name + "+" + std::to_string(at);
        BV r = cellBV(s, cs[0], tag);
        for (u64 i = 1; i < n; i++) r = D.concat(r, cellBV(s, cs[i], o->name + "+" + std::to_string(at + i)));
        if (t->isPointerTy()) return mkPtr(0, r);
        int w = bits(t);
        if (w < D.width(r)) r = D.trunc(r, w);
        return mkInt(r);
    }
    void storeV(State &s, const Val &p, const Val &v, Type *t)
    {
        if (v.k == Val::Agg)
        {
            if (auto *st = dyn_cast<StructType>(t))
            {
                auto *l = DL->getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); i++)
                {
                    Val q = p;
                    q.bv = D.addsub(q.bv, D.cst(64, (u64)l->getElementOffset(i)), false);
                    storeV(s, q, (*v.agg)[i], st->getElementType(i));
                }
                return;
            }
            u64 esz = DL->getTypeAllocSize(t->getArrayElementType());
            for (unsigned i = 0; i < t->getArrayNumElements(); i++)
            {
                Val q = p;
                q.bv = D.addsub(q.bv, D.cst(64, esz * i), false);
                storeV(s, q, (*v.agg)[i], t->getArrayElementType());
            }
            return;
        }
        u64 n = DL->getTypeStoreSize(t);
        const Obj *o;
        checkAccess(s, p, D.cst(64, n), true, o);
        if (!o->constSize) throw Unsupported{"write to a blob"};
        u64 at = concrete(s, p.bv, 300, "store offset");
        Obj *m = mutObj(s, p.obj);
        writeCells(*m, at, v, n);
    }
    void copyBytes(State &s, const Val &d, const Val &src, BV n0)
    {
        BV n = R(s, n0);
        if (D.isC(n) && D.val(n) == 0) return;
        const Obj *so, *dob;
        // read check with the symbolic size first: reports the over-read precisely
        if (!D.isC(n))
        {
            checkSymRange(s, src, n, false);
            checkSymRange(s, d, n, true);
            n = D.cst(64, concrete(s, n, 300, "copy size"));
            if (D.val(n) == 0) return;
        }
        checkAccess(s, src, n, false, so);
        checkAccess(s, d, n, true, dob);
        u64 so_ = concrete(s, src.bv, 300, "copy source offset");
        u64 do_ = concrete(s, d.bv, 300, "copy destination offset");
        if (!dob->constSize) throw Unsupported{"write to a blob"};
        std::vector<Cell> cs;
        u64 len = D.val(n);
        if (!so->constSize)
        {
            for (u64 i = 0; i < len; i++)
            {
                Cell c;
                c.k = Cell::Byte;
                c.a = D.word(O_FLOAT, 8, "blob:" + so->name, {D.cst(64, so_ + i)});
                cs.push_back(c);
            }
        }
        else
            for (u64 i = 0; i < len; i++) cs.push_back(readCell(s, *so, src.obj, so_ + i));
        Obj *m = mutObj(s, d.obj);
        for (u64 i = 0; i < len; i++) m->cells[do_ + i] = cs[i];
    }
    void checkSymRange(State &s, const Val &p, BV n, bool write)
    {
        // n == 0 is fine with any pointer
        BitId z = Rb(s, s.facts->cmp(P_EQ, n, D.cst(64, 0)));
        if (z == 1) return;
        if (p.obj == 0 || p.k != Val::Ptr)
        {
            Facts f(*s.facts);
            if (f.assume(z, false))
            {
                s.facts = std::make_shared<Facts>(f);
                violation(s, "null pointer dereference");
            }
            return;
        }
        const Obj *o;
        checkAccess(s, p, n, write, o);
    }
    // ---- arithmetic on values
    Val addsubV(State &s, const Val &a, const Val &b, bool sub)
    {
        if (a.k == Val::Ptr && b.k == Val::Ptr)
        {
            if (sub && a.obj == b.obj) return mkInt(D.addsub(R(s, a.bv), R(s, b.bv), true));
            if (!sub) return mkInt(D.addsub(toInt(a), toInt(b), false));
            return mkInt(D.addsub(toInt(a), toInt(b), true));
        }
        if (a.k == Val::Ptr && a.obj)
        {
            Val r = a;
            r.bv = D.addsub(R(s, a.bv), R(s, toInt(b)), sub);
            return r;
        }
        if (b.k == Val::Ptr && b.obj && !sub)
        {
            Val r = b;
            r.bv = D.addsub(R(s, b.bv), R(s, toInt(a)), false);
            return r;
        }
        return mkInt(D.addsub(R(s, toInt(a)), R(s, toInt(b)), sub));
    }
    BitId icmp(State &s, CmpInst::Predicate p, const Val &a, const Val &b)
    {
        bool neg = false;
        if (a.k == Val::Ptr && b.k == Val::Ptr && a.obj != b.obj)
        {
            bool eq = ICmpInst::isEquality(p);
            if (eq)
            {
                // distinct objects (or null) are never equal
                return p == CmpInst::ICMP_EQ ? 0 : 1;
            }
            // objects do not overlap; their order is unspecified, one consistent order is taken
            if (a.obj && b.obj)
            {
                bool lt = a.obj < b.obj;
                bool isLt = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE;
                return lt == isLt ? 1 : 0;
            }
        }
        BV x, y;
        if (a.k == Val::Ptr && b.k == Val::Ptr && a.obj == b.obj) x = a.bv, y = b.bv;
        else
        {
            if (ICmpInst::isEquality(p) && (a.k == Val::Ptr || b.k == Val::Ptr))
            {
                const Val &pp = a.k == Val::Ptr ? a : b, &ii = a.k == Val::Ptr ? b : a;
                BV iv = R(s, toInt(ii));
                if (pp.obj && D.isC(iv) && D.val(iv) == 0) return p == CmpInst::ICMP_EQ ? 0 : 1;
            }
            x = toInt(a), y = toInt(b);
        }
        auto &f = *s.facts;
        BitId r;
        switch (p)
        {
        case CmpInst::ICMP_NE:
            neg = true;
            [[fallthrough]];
        case CmpInst::ICMP_EQ:
            r = f.cmp(P_EQ, x, y);
            break;
        case CmpInst::ICMP_UGT:
            r = f.cmp(P_ULT, y, x);
            break;
        case CmpInst::ICMP_ULE:
            r = f.cmp(P_ULT, y, x);
            neg = true;
            break;
        case CmpInst::ICMP_ULT:
            r = f.cmp(P_ULT, x, y);
            break;
        case CmpInst::ICMP_UGE:
            r = f.cmp(P_ULT, x, y);
            neg = true;
            break;
        default:
        {
            BV fx = R(s, x), fy = R(s, y);
            // sign comparison with zero / -1 is the sign bit
            if (D.isC(fy) && D.val(fy) == 0 && (p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SGE))
            {
                r = D.bvs[fx].back();
                neg = p == CmpInst::ICMP_SGE;
                break;
            }
            if (D.isC(fy) && D.sval(fy) == -1 && (p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_SLE))
            {
                r = D.bvs[fx].back() ^ 1;
                neg = p == CmpInst::ICMP_SLE;
                break;
            }
            // both signs known equal: unsigned comparison
            BitId sx = Rb(s, D.bvs[fx].back()), sy = Rb(s, D.bvs[fy].back());
            if (!(sx == sy && sx < 2))
            {
                fx = D.flipSign(fx);
                fy = D.flipSign(fy);
            }
            switch (p)
            {
            case CmpInst::ICMP_SGT: r = f.cmp(P_ULT, fy, fx); break;
            case CmpInst::ICMP_SLE: r = f.cmp(P_ULT, fy, fx); neg = true; break;
            case CmpInst::ICMP_SLT: r = f.cmp(P_ULT, fx, fy); break;
            default: r = f.cmp(P_ULT, fx, fy); neg = true; break;
            }
        }
        }
        return Rb(s, r) ^ (neg ? 1 : 0);
    }
#include "interp.inc"
};

#include "main.inc"
