// Symbolic executor for LLVM bitcode.  Path-forking, SMT-backed, byte-precise memory with
// object-granular address space, Itanium C++ exceptions.
#include "expr.h"
#include "solver.h"
#include <llvm/ADT/SmallVector.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <atomic>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;
typedef std::string Str;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options
static struct Options {
    double maxTime = 60;         // wall seconds for the whole run
    u64 maxSteps = 20000000;     // instructions per path
    u64 maxForkMem = 3500;       // MB per process
    int jobs = 1;
    unsigned queryTimeout = 20000;
    u32 maxEnum = 4096;
    u32 muxLimit = 512;
    Str out = "out";
    Str entry = "nsx_main";
    int maxViol = 6;
    int maxSamples = 12;
    bool trace = false;
    bool checkUninit = true;
    bool concAddr = false; // fork on symbolic addresses of writable objects instead of building if-then-else memory
    bool stopOnViolation = false;
    std::vector<i64> params;
} opt;

// ------------------------------------------------------------------ values
struct Val {
    u64 c = 0;
    Expr* e = nullptr;
    bool sym() const { return e != nullptr; }
};
static inline Val CV(u64 c) { Val v; v.c = c; return v; }
static inline u64 m64(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val fromE(Expr* e) {
    Val v;
    if (e->isConst() && e->w <= 64) { v.c = (u64)e->c; return v; }
    v.e = e;
    return v;
}
static inline Expr* toE(const Val& v, u32 w) { return v.e ? v.e : X.constant(v.c, w); }

// ------------------------------------------------------------------ memory
enum ObjKind : u8 { KGlobal, KStack, KMalloc, KNew, KNewArr, KFunc, KOther };
struct Obj {
    u32 refc = 0;
    u32 size = 0;
    ObjKind kind = KOther;
    bool ro = false, freed = false;
    bool anyNon = false;  // any byte not concrete
    u8* conc = nullptr;
    u8* st = nullptr;     // 0 concrete 1 symbolic 2 uninit
    Expr** symb = nullptr;
    const char* name = "";
    Obj(u32 sz, ObjKind k, bool uninit) : size(sz), kind(k) {
        conc = (u8*)calloc(sz ? sz : 1, 1);
        st = (u8*)calloc(sz ? sz : 1, 1);
        if (uninit && sz) { memset(st, 2, sz); anyNon = true; }
    }
    Obj(const Obj& o) : size(o.size), kind(o.kind), ro(o.ro), freed(o.freed), anyNon(o.anyNon), name(o.name) {
        u32 sz = size ? size : 1;
        conc = (u8*)malloc(sz); memcpy(conc, o.conc, sz);
        st = (u8*)malloc(sz); memcpy(st, o.st, sz);
        if (o.symb) { symb = (Expr**)malloc(sizeof(Expr*) * sz); memcpy(symb, o.symb, sizeof(Expr*) * sz); }
    }
    ~Obj() { free(conc); free(st); free(symb); }
    void setSym(u32 i, Expr* e) {
        if (!symb) symb = (Expr**)calloc(size ? size : 1, sizeof(Expr*));
        symb[i] = e; st[i] = 1; anyNon = true;
    }
};
struct ObjRef {
    Obj* p = nullptr;
    ObjRef() {}
    ObjRef(Obj* o) : p(o) { if (p) ++p->refc; }
    ObjRef(const ObjRef& o) : p(o.p) { if (p) ++p->refc; }
    ObjRef(ObjRef&& o) : p(o.p) { o.p = nullptr; }
    ObjRef& operator=(ObjRef o) { std::swap(p, o.p); return *this; }
    ~ObjRef() { if (p && --p->refc == 0) delete p; }
};
struct Chunk { u32 refc = 0; ObjRef o[64]; };
struct ChunkRef {
    Chunk* p = nullptr;
    ChunkRef() {}
    ChunkRef(Chunk* c) : p(c) { if (p) ++p->refc; }
    ChunkRef(const ChunkRef& c) : p(c.p) { if (p) ++p->refc; }
    ChunkRef(ChunkRef&& c) : p(c.p) { c.p = nullptr; }
    ChunkRef& operator=(ChunkRef c) { std::swap(p, c.p); return *this; }
    ~ChunkRef() { if (p && --p->refc == 0) delete p; }
};
static Obj* freedTomb[8];

// ------------------------------------------------------------------ lowered code
struct Leaf { u32 off; u32 w; };
struct FnInfo;
struct LInst {
    u16 opc = 0;
    u16 pred = 0;
    u16 w = 0, w2 = 0;   // result width / operand width (per lane)
    u16 n = 1;           // lanes / leaf count
    i32 dst = -1;
    u32 opOff = 0, opCnt = 0;
    i64 imm = 0;
    void* aux = nullptr; // various
    Instruction* I = nullptr;
};
struct PhiMove { i32 dst; i32 src; u32 n; };
struct LBlock {
    u32 first, last;      // instruction range
    std::map<u32, std::vector<PhiMove>> phis; // by predecessor block
    BasicBlock* bb;
    bool covered = false;
};
struct SwitchAux { std::vector<std::pair<u64, u32>> cases; u32 def; };
struct GepAux { std::vector<std::pair<i32, i64>> terms; std::vector<u32> widths; };
struct CallAux {
    Function* callee = nullptr; FnInfo* fi = nullptr; int builtin = -1;
    std::vector<std::pair<i32, u32>> args; // slot, leaf count
    std::vector<u32> argW;                 // width of first leaf
    std::vector<u64> byval;                // size if byval
    u32 normalBB = 0, unwindBB = 0; bool invoke = false;
    i32 calleeSlot = 0;
    Intrinsic::ID iid = Intrinsic::not_intrinsic;
    bool isVarArg = false;
};
struct MemAux { std::vector<Leaf> leaves; u64 size; };

struct FnInfo {
    Function* F = nullptr;
    bool lowered = false;
    u32 nslots = 0;
    std::vector<i32> argSlot; std::vector<u32> argN;
    std::vector<LInst> code;
    std::vector<LBlock> blocks;
    std::vector<i32> opnds;
    u64 executed = 0;
    Str name;
};

// ------------------------------------------------------------------ state
struct Frame {
    FnInfo* fn = nullptr;
    u32 pc = 0, bb = 0;
    std::vector<Val> regs;
    std::vector<u32> allocas;
    LInst* callInst = nullptr; // in the caller
};
struct InputRec { Str name; u32 w; Val v; };
struct State {
    std::vector<Frame> fr;
    std::vector<ChunkRef> mem;
    u32 nextObj = 1;
    std::vector<Expr*> cons;
    std::vector<u32> uf;                       // union-find over variables
    std::vector<u32> groupCons;                // number of multi-var constraints in group of root
    std::vector<std::shared_ptr<std::array<u64, 4>>> dom; // byte domains
    std::vector<std::pair<bool, u64>> known;
    bool anyKnown = false;
    ModelVec model; u64 modelId = 0;
    std::vector<InputRec> inputs;
    std::vector<std::pair<u64, Expr*>> observes;
    u64 steps = 0;
    i64 liveHeap = 0;
    u32 depth = 0;
    u32 vars = 0;
    std::vector<Str> reached;
    Str findingTag;
};
typedef std::unique_ptr<State> StateP;

// ------------------------------------------------------------------ globals
static LLVMContext LCtx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static Solver solver;
static std::unordered_map<const Function*, FnInfo*> fnInfos;
static std::unordered_map<u32, Function*> fnByObj;
static std::unordered_map<const GlobalValue*, u64> gvAddr;
static State* initState;
static std::vector<StateP> work;
static u64 statPaths = 0, statAssumeDrop = 0, statSteps = 0, statForks = 0, statAsserts = 0, statAssertsSym = 0, statErrPaths = 0, statInconcl = 0, statStates = 1;
static std::map<Str, u64> reachLabels;
static std::map<Str, u64> inconclusive;
static std::set<Str> stubsUsed;
static double tStart;
static bool timedOut = false;
static u64 modelIdGen = 1;

struct Violation { Str kind, msg, where, tag; std::vector<Str> stack; std::vector<std::pair<Str, std::pair<u32, u64>>> inputs; };
static std::map<Str, Violation> violations;
static u64 violCount = 0;
struct Sample { std::vector<std::pair<Str, std::pair<u32, u64>>> inputs; std::vector<u64> obs; std::vector<Str> reached; };
static std::vector<Sample> samples;

enum Status { ST_OK, ST_FORKED_RETRY, ST_DEAD };

static u64 curEvalModel = 0;
static u128 evalIn(State& s, Expr* e) {
    if (e->isConst()) return e->c;
    if (curEvalModel != s.modelId) { X.newEval(); curEvalModel = s.modelId; }
    return X.eval(e, s.model);
}
static u128 evalWith(Expr* e, const ModelVec& m) { X.newEval(); curEvalModel = 0; return X.eval(e, m); }

// ------------------------------------------------------------------ memory ops on state
static Obj* getObj(State& s, u64 id) {
    u64 ch = id >> 6;
    if (ch >= s.mem.size() || !s.mem[ch].p) return nullptr;
    return s.mem[ch].p->o[id & 63].p;
}
static Chunk* wrChunk(State& s, u64 ch) {
    if (s.mem.size() <= ch) s.mem.resize(ch + 1);
    if (!s.mem[ch].p) s.mem[ch] = ChunkRef(new Chunk);
    else if (s.mem[ch].p->refc > 1) {
        Chunk* n = new Chunk; for (int i = 0; i < 64; ++i) n->o[i] = s.mem[ch].p->o[i];
        s.mem[ch] = ChunkRef(n);
    }
    return s.mem[ch].p;
}
static Obj* getObjW(State& s, u64 id) {
    Chunk* c = wrChunk(s, id >> 6);
    ObjRef& r = c->o[id & 63];
    if (r.p->refc > 1) r = ObjRef(new Obj(*r.p));
    return r.p;
}
static u64 addObj(State& s, Obj* o) {
    u32 id = s.nextObj++;
    wrChunk(s, id >> 6)->o[id & 63] = ObjRef(o);
    return (u64)id << 32;
}
static void freeObj(State& s, u64 id, ObjKind k) {
    if (!freedTomb[k]) { freedTomb[k] = new Obj(0, k, false); freedTomb[k]->freed = true; ++freedTomb[k]->refc; }
    wrChunk(s, id >> 6)->o[id & 63] = ObjRef(freedTomb[k]);
}

// ------------------------------------------------------------------ constraints
static u32 ufFind(State& s, u32 v) {
    while (s.uf[v] != v) { s.uf[v] = s.uf[s.uf[v]]; v = s.uf[v]; }
    return v;
}
static void ensureVars(State& s, u32 v) {
    if (s.uf.size() <= v) {
        u32 o = (u32)s.uf.size();
        s.uf.resize(v + 1); s.groupCons.resize(v + 1, 0); s.dom.resize(v + 1); s.known.resize(v + 1, {false, 0});
        for (u32 i = o; i <= v; ++i) s.uf[i] = i;
        if (s.model.size() <= v) s.model.resize(v + 1, 0);
    }
}
struct TT { u64 b[4]; };
static std::unordered_map<u32, TT> ttCache;
static const TT& truthTable(Expr* e) {
    auto it = ttCache.find(e->id);
    if (it != ttCache.end()) return it->second;
    TT t{{0, 0, 0, 0}};
    u32 v = e->vars->v[0];
    u32 n = 1u << std::min<u32>(X.varInfos[v].width, 8);
    ModelVec m(v + 1, 0);
    for (u32 i = 0; i < n; ++i) { m[v] = i; if (evalWith(e, m)) t.b[i >> 6] |= 1ull << (i & 63); }
    return ttCache[e->id] = t;
}
static bool singleByte(Expr* e) { return e->vars->v.size() == 1 && X.varInfos[e->vars->v[0]].width <= 8; }
static std::array<u64, 4> domOf(State& s, u32 v) {
    if (s.dom[v]) return *s.dom[v];
    u32 w = X.varInfos[v].width;
    std::array<u64, 4> d{0, 0, 0, 0};
    for (u32 i = 0; i < (1u << w); ++i) d[i >> 6] |= 1ull << (i & 63);
    return d;
}
static void addCons(State& s, Expr* c) {
    if (c->isConst()) return;
    if (c->op == OAnd && c->w == 1) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; }
    auto& vs = c->vars->v;
    for (u32 v : vs) ensureVars(s, v);
    if (vs.size() > 1) {
        u32 r = ufFind(s, vs[0]);
        u32 g = s.groupCons[r] + 1;
        for (size_t i = 1; i < vs.size(); ++i) {
            u32 q = ufFind(s, vs[i]);
            if (q != r) { g += s.groupCons[q]; s.uf[q] = r; }
        }
        s.groupCons[r] = g;
    }
    if (singleByte(c)) {
        u32 v = vs[0];
        auto d = domOf(s, v);
        const TT& t = truthTable(c);
        int cnt = 0; u64 last = 0;
        for (int i = 0; i < 4; ++i) { d[i] &= t.b[i]; cnt += __builtin_popcountll(d[i]); }
        if (cnt == 1) { for (int i = 0; i < 4; ++i) if (d[i]) last = i * 64 + __builtin_ctzll(d[i]); s.known[v] = {true, last}; s.anyKnown = true; }
        s.dom[v] = std::make_shared<std::array<u64, 4>>(d);
    } else if (c->op == OEq && c->k[1]->isConst() && c->k[0]->op == OVar) {
        s.known[(u32)c->k[0]->c] = {true, (u64)c->k[1]->c}; s.anyKnown = true;
    }
    s.cons.push_back(c);
}

struct CacheEnt { SatResult r; ModelVec vals; }; // vals aligned with var list of the query
static std::unordered_map<Str, CacheEnt> qcache;
static std::deque<ModelVec> recentModels;

static void sliceFor(State& s, Expr* c, std::vector<Expr*>& out) {
    auto& vs = c->vars->v;
    std::set<u32> roots;
    for (u32 v : vs) { ensureVars(s, v); roots.insert(ufFind(s, v)); }
    for (Expr* k : s.cons) if (roots.count(ufFind(s, k->vars->v[0]))) out.push_back(k);
}

// Is (path && c) satisfiable?  On SAT `out` is a full model.
// strict: never use the byte-domain shortcut to answer (assertions go to the SMT solver).
static SatResult feasible1(State& s, Expr* c, ModelVec& out, bool strict);
static SatResult feasible(State& s, Expr* c, ModelVec& out, bool strict = false) {
    u64 before = solver.st.domainDecided;
    SatResult r = feasible1(s, c, out, strict);
    // every 16th finite-domain verdict is put to the SMT solver as well
    if (solver.st.domainDecided != before && solver.st.domainDecided % 16 == 1) {
        std::vector<Expr*> cs; sliceFor(s, c, cs); cs.push_back(c);
        ModelVec m = s.model;
        SatResult r2 = solver.check(cs, m);
        if (r2 != r && (r2 == SR_SAT || r2 == SR_UNSAT)) { fprintf(stderr, "domain verdict disagrees with the solver: %s\n", X.str(c, 8).c_str()); inconclusive["finite-domain verdict disagrees with the SMT solver"]++; }
    }
    return r;
}
static SatResult feasible1(State& s, Expr* c, ModelVec& out, bool strict) {
    if (c->isConst()) { if (c->c) { out = s.model; return SR_SAT; } return SR_UNSAT; }
    for (u32 v : c->vars->v) ensureVars(s, v);
    if (evalIn(s, c)) { out = s.model; return SR_SAT; }
    if (singleByte(c)) {
        u32 v = c->vars->v[0];
        auto d = domOf(s, v);
        const TT& t = truthTable(c);
        u64 any = 0; int pick = -1;
        for (int i = 0; i < 4; ++i) { u64 x = d[i] & t.b[i]; any |= x; if (x && pick < 0) pick = i * 64 + __builtin_ctzll(x); }
        if (!any && !strict) { ++solver.st.domainDecided; return SR_UNSAT; }
        if (any && s.groupCons[ufFind(s, v)] == 0) { ++solver.st.domainDecided; out = s.model; out[v] = pick; return SR_SAT; }
    }
    std::vector<Expr*> cs;
    sliceFor(s, c, cs);
    cs.push_back(c);
    std::vector<u32> ids; for (Expr* e : cs) ids.push_back(e->id);
    std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    Str key((const char*)ids.data(), ids.size() * 4);
    const VarSet* vs = X.emptySet;
    for (Expr* e : cs) vs = X.uni(vs, e->vars);
    auto it = qcache.find(key);
    if (it != qcache.end()) {
        ++solver.st.cacheHits;
        if (it->second.r == SR_SAT) { out = s.model; for (size_t i = 0; i < vs->v.size(); ++i) out[vs->v[i]] = it->second.vals[i]; }
        return it->second.r;
    }
    // recent models
    if (cs.size() < 200)
    for (auto& rm : recentModels) {
        ModelVec m = s.model;
        for (u32 v : vs->v) m[v] = v < rm.size() ? rm[v] : 0;
        X.newEval(); curEvalModel = 0;
        bool ok = true;
        for (size_t i = cs.size(); i-- > 0 && ok;) if (!X.eval(cs[i], m)) ok = false;
        if (ok) { ++solver.st.modelHits; out = m; CacheEnt ce{SR_SAT, {}}; for (u32 v : vs->v) ce.vals.push_back(m[v]); qcache[key] = ce; return SR_SAT; }
    }
    ModelVec m = s.model;
    // Branch feasibility over a few small variables: decided exactly on their (at most 1024) joint values.
    // Assertions are never decided this way.
    if (!strict) {
        u64 prod = 1; bool small = true;
        std::vector<std::vector<u32>> dv;
        for (u32 v : vs->v) {
            if (X.varInfos[v].width > 8) { small = false; break; }
            ensureVars(s, v);
            auto d = domOf(s, v);
            std::vector<u32> xs; for (u32 i = 0; i < 256; ++i) if (d[i >> 6] >> (i & 63) & 1) xs.push_back(i);
            prod *= xs.size(); if (prod > 1024 || prod == 0) { small = false; break; }
            dv.push_back(xs);
        }
        if (small) {
            ++solver.st.domainDecided;
            std::vector<size_t> ix(dv.size(), 0);
            SatResult r = SR_UNSAT;
            for (u64 n = 0; n < prod; ++n) {
                for (size_t i = 0; i < dv.size(); ++i) m[vs->v[i]] = dv[i][ix[i]];
                X.newEval(); curEvalModel = 0;
                bool ok = true;
                for (size_t i = cs.size(); i-- > 0 && ok;) if (!X.eval(cs[i], m)) ok = false;
                if (ok) { r = SR_SAT; break; }
                for (size_t i = 0; i < dv.size(); ++i) { if (++ix[i] < dv[i].size()) break; ix[i] = 0; }
            }
            CacheEnt ce{r, {}};
            if (r == SR_SAT) { for (u32 v : vs->v) ce.vals.push_back(m[v]); out = m; }
            qcache[key] = std::move(ce);
            return r;
        }
    }
    SatResult r = solver.check(cs, m);
    if (r == SR_SAT) {
        X.newEval(); curEvalModel = 0;
        for (Expr* e : cs) if (!X.eval(e, m)) {
            fprintf(stderr, "model mismatch: %s\n", X.str(e, 8).c_str());
            inconclusive["solver model does not evaluate to true (FP corner)"]++;
            r = SR_UNKNOWN; break;
        }
    }
    CacheEnt ce{r, {}};
    if (r == SR_SAT) {
        for (u32 v : vs->v) ce.vals.push_back(m[v]);
        out = m;
        recentModels.push_front(m);
        if (recentModels.size() > 24) recentModels.pop_back();
    }
    qcache[key] = std::move(ce);
    return r;
}

static void setModel(State& s, const ModelVec& m) { s.model = m; s.modelId = modelIdGen++; }

// ------------------------------------------------------------------ reporting
static Str srcLoc(const Instruction* I) {
    if (!I) return "?";
    if (const DebugLoc& d = I->getDebugLoc()) {
        auto* l = d.get();
        return l->getFilename().str() + ":" + std::to_string(l->getLine());
    }
    return "?";
}
static Str demName(StringRef n) { return demangle(n.str()); }
static Str innermostRepo(State& s) {
    for (size_t i = s.fr.size(); i-- > 0;) {
        Frame& f = s.fr[i];
        u32 pc = f.pc < f.fn->code.size() ? f.pc : 0;
        const Instruction* I = f.fn->code[pc].I;
        if (!I) continue;
        for (const DILocation* l = I->getDebugLoc().get(); l; l = l->getInlinedAt()) {
            Str fn = l->getFilename().str();
            if (fn.find("/neolib/") != Str::npos || fn.find("/repo/") != Str::npos) return fn + ":" + std::to_string(l->getLine());
        }
    }
    return s.fr.empty() ? "?" : srcLoc(s.fr.back().fn->code[s.fr.back().pc].I);
}
static std::vector<Str> stackTrace(State& s) {
    std::vector<Str> r;
    for (size_t i = s.fr.size(); i-- > 0 && r.size() < 14;) {
        Frame& f = s.fr[i];
        u32 pc = f.pc < f.fn->code.size() ? f.pc : 0;
        const Instruction* I = f.fn->code[pc].I;
        if (I) for (const DILocation* l = I->getDebugLoc().get(); l && r.size() < 14; l = l->getInlinedAt())
            r.push_back(l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName().str() + " " + l->getFilename().str() + ":" + std::to_string(l->getLine()) : "?");
        else r.push_back(f.fn->name);
    }
    return r;
}
static std::vector<std::pair<Str, std::pair<u32, u64>>> concreteInputs(State& s) {
    std::vector<std::pair<Str, std::pair<u32, u64>>> r;
    for (auto& i : s.inputs) r.push_back({i.name, {i.w, i.v.e ? (u64)evalIn(s, i.v.e) : i.v.c}});
    return r;
}
static void report(State& s, const Str& kind, const Str& msg) {
    ++violCount; ++statErrPaths;
    Str where = innermostRepo(s);
    Str key = s.findingTag + "|" + kind + "|" + msg + "|" + where;
    if (violations.count(key) || (int)violations.size() >= opt.maxViol * 4) return;
    Violation v; v.kind = kind; v.msg = msg; v.where = where; v.stack = stackTrace(s); v.inputs = concreteInputs(s); v.tag = s.findingTag;
    violations[key] = v;
    fprintf(stderr, "[violation] %s: %s at %s\n", kind.c_str(), msg.c_str(), where.c_str());
    if (opt.trace) for (auto& l : v.stack) fprintf(stderr, "      %s\n", l.c_str());
}
static Status inconcl(State& s, const Str& why) {
    ++statInconcl;
    if (inconclusive[why]++ == 0) {
        fprintf(stderr, "[inconclusive] %s at %s\n", why.c_str(), innermostRepo(s).c_str());
        if (opt.trace) for (auto& l : stackTrace(s)) fprintf(stderr, "      %s\n", l.c_str());
    }
    return ST_DEAD;
}

// ------------------------------------------------------------------ forking helpers
// Replace variables whose value the path condition has pinned down.
static Expr* simp(State& s, Expr* e) {
    if (!s.anyKnown || e->nk == 0 && e->op != OVar) return e;
    bool t = false;
    for (u32 v : e->vars->v) if (v < s.known.size() && s.known[v].first) { t = true; break; }
    if (!t) return e;
    std::unordered_map<u32, Expr*> m; std::unordered_map<Expr*, Expr*> memo;
    for (u32 v : e->vars->v) if (v < s.known.size() && s.known[v].first) m[v] = X.constant(s.known[v].second, X.varInfos[v].width);
    return X.subst(e, m, memo);
}
static StateP cloneState(State& s) { ++statForks; ++statStates; auto n = std::make_unique<State>(s); n->depth++; return n; }

// Branch on cond in the state `s`.  Returns 1 / 0 for the side taken by s, pushes the other side
// (re-executing the same instruction) when feasible.  -1: dead.
static int branch(State& s, Expr* c, const char* what = "") {
    c = simp(s, c);
    if (c->isConst()) return c->c ? 1 : 0;
    bool side = evalIn(s, c) != 0;
    Expr* other = side ? X.not1(c) : c;
    Expr* mine = side ? c : X.not1(c);
    ModelVec m;
    SatResult r = feasible(s, other, m);
    if (r == SR_UNKNOWN) { if (getenv("NSX_DBG")) fprintf(stderr, "UNKNOWN %s\n", X.str(mine, 12).c_str()); inconclusive["solver unknown on branch"]++; ++statInconcl; addCons(s, mine); return side; }
    if (r == SR_SAT) {
        StateP n = cloneState(s);
        addCons(*n, other);
        setModel(*n, m);
        work.push_back(std::move(n));
        addCons(s, mine);
        s.depth++;
    }
    return side;
}
// Concretise: picks the value in the current model, forks the rest.
static u64 concretize(State& s, Expr* e) {
    e = simp(s, e);
    if (e->isConst()) return (u64)e->c;
    u64 v = (u64)evalIn(s, e);
    Expr* eq = X.bin(OEq, e, X.constant(v, e->w));
    branch(s, eq); // current model satisfies eq, so stays on the true side
    return v;
}

static bool hasUninit(Expr* e) { for (u32 v : e->vars->v) if (X.varInfos[v].uninit) return true; return false; }
// Does the value of `c` really depend on uninitialised bytes?  Asked of the solver: can two different contents of those
// bytes give two different values on this path?  If not, the bytes are replaced by zero and execution goes on.
static bool uninitBranch(State& s, Expr*& c, const char* what = "control flow depends on uninitialised value") {
    if (!opt.checkUninit || !hasUninit(c)) return false;
    std::unordered_map<u32, Expr*> fresh, zero;
    for (u32 v : c->vars->v) if (X.varInfos[v].uninit) {
        Expr* f = X.newVar("uninit'", X.varInfos[v].width, true); ensureVars(s, (u32)f->c);
        fresh[v] = f; zero[v] = X.constant(0, X.varInfos[v].width);
    }
    std::unordered_map<Expr*, Expr*> m1, m2;
    Expr* c2 = X.subst(c, fresh, m1);
    Expr* diff = X.not1(X.bin(OEq, c, c2));
    ModelVec m;
    SatResult r = feasible(s, diff, m);
    if (r == SR_SAT) { setModel(s, m); report(s, "uninit", what); return true; }
    if (r == SR_UNKNOWN) { inconclusive["solver unknown on uninitialised-value check"]++; ++statInconcl; }
    c = X.subst(c, zero, m2);
    return false;
}

// ------------------------------------------------------------------ memory access
struct Access { bool ok; u64 id; u64 off; Expr* symOff; }; // symOff: 64-bit offset expr when symbolic

// Validate pointer `p` for n bytes. Returns: ST_OK with a set; ST_DEAD when error.
static Status resolve(State& s, const Val& p, u64 n, bool write, Access& a, const char* what) {
    u64 addr;
    if (p.e) {
        Expr* pe = simp(s, p.e);
        if (pe->isConst()) return resolve(s, CV((u64)pe->c), n, write, a, what);
        if (uninitBranch(s, pe, "uninitialised value used as an address")) return ST_DEAD;
        if (pe != p.e) return resolve(s, fromE(pe), n, write, a, what);
        addr = (u64)evalIn(s, p.e);
    } else addr = p.c;
    u64 id = addr >> 32, off = addr & 0xffffffffu;
    Obj* o = id ? getObj(s, id) : nullptr;
    Str acc = Str(write ? "write" : "read");
    if (!o) { report(s, "memory", id == 0 ? (off < 65536 ? "null dereference (" + acc + ")" : "wild pointer " + acc) : "wild pointer " + acc); return ST_DEAD; }
    if (o->freed) { report(s, "memory", Str(o->kind == KStack ? "use after return (" : "use after free (") + acc + ")"); return ST_DEAD; }
    if (o->kind == KFunc) { report(s, "memory", "data access to function"); return ST_DEAD; }
    bool in = off + n <= o->size;
    if (!p.e) {
        if (!in) { report(s, "memory", Str(o->kind == KStack ? "stack" : o->kind == KGlobal ? "global" : "heap") + " buffer overflow (" + acc + ")"); return ST_DEAD; }
        if (write && o->ro) { report(s, "memory", "write to read-only memory"); return ST_DEAD; }
        a.ok = true; a.id = id; a.off = off; a.symOff = nullptr;
        return ST_OK;
    }
    if (!in) { report(s, "memory", Str(o->kind == KStack ? "stack" : o->kind == KGlobal ? "global" : "heap") + " buffer overflow (" + acc + ")"); return ST_DEAD; }
    if (write && o->ro) { report(s, "memory", "write to read-only memory"); return ST_DEAD; }
    Expr* rel = X.bin(OSub, p.e, X.constant(id << 32, 64));
    Expr* cond = X.bin(OUle, rel, X.constant(o->size - n, 64));
    if (branch(s, cond) != 1) return inconcl(s, "resolve: inconsistent model");
    if (opt.concAddr && !o->ro) { u64 v = concretize(s, p.e); a.ok = true; a.id = v >> 32; a.off = v & 0xffffffffu; a.symOff = nullptr; return ST_OK; }
    a.ok = true; a.id = id; a.off = off; a.symOff = rel;
    return ST_OK;
}

static Expr* byteE(State& s, u64 id, u32 off) {
    Obj* o = getObj(s, id);
    if (o->st[off] == 0) return X.constant(o->conc[off], 8);
    if (o->st[off] == 1) return o->symb[off];
    Expr* v = X.newVar("uninit", 8, true);
    ensureVars(s, (u32)v->c);
    o = getObjW(s, id);
    o->setSym(off, v);
    return v;
}
static Val loadAt(State& s, u64 id, u64 off, u32 w) {
    u32 n = (w + 7) / 8;
    Obj* o = getObj(s, id);
    if (n <= 8) {
        bool conc = true;
        if (o->anyNon) for (u32 i = 0; i < n; ++i) if (o->st[off + i]) { conc = false; break; }
        if (conc) {
            u64 v = 0; memcpy(&v, o->conc + off, n);
            return CV(v & m64(w));
        }
    }
    Expr* r = byteE(s, id, (u32)off);
    for (u32 i = 1; i < n; ++i) r = X.concat(byteE(s, id, (u32)off + i), r);
    if (r->w > w) r = X.extract(r, 0, w);
    if (r->op == OVar && (u32)r->c < s.known.size() && s.known[(u32)r->c].first) return CV(s.known[(u32)r->c].second);
    if ((r->op == OZExt || r->op == OSExt) && r->k[0]->op == OVar && (u32)r->k[0]->c < s.known.size() && s.known[(u32)r->k[0]->c].first)
        return fromE(r->op == OZExt ? X.zext(X.constant(s.known[(u32)r->k[0]->c].second, r->k[0]->w), r->w) : X.sext(X.constant(s.known[(u32)r->k[0]->c].second, r->k[0]->w), r->w));
    return fromE(r);
}
static void storeAt(State& s, u64 id, u64 off, const Val& v, u32 w) {
    u32 n = (w + 7) / 8;
    Obj* o = getObjW(s, id);
    if (!v.e) {
        u64 c = v.c & m64(w);
        if (n <= 8) { memcpy(o->conc + off, &c, n); }
        else { memcpy(o->conc + off, &c, 8); memset(o->conc + off + 8, 0, n - 8); }
        if (o->anyNon) memset(o->st + off, 0, n);
        return;
    }
    Expr* e = v.e;
    if (e->w < n * 8) e = X.zext(e, n * 8);
    for (u32 i = 0; i < n; ++i) {
        Expr* b = X.extractRaw(e, i * 8, 8);
        if (b->isConst()) { o->conc[off + i] = (u8)b->c; o->st[off + i] = 0; }
        else o->setSym((u32)off + i, b);
    }
}
static Expr* muxRec(State& s, std::vector<Expr*>& leaves, Expr* idx, u32 bit, u64 base) {
    u64 n = 1ull << bit;
    if (base >= leaves.size()) return nullptr;
    if (bit == 0) return leaves[base];
    Expr* lo = muxRec(s, leaves, idx, bit - 1, base);
    Expr* hi = muxRec(s, leaves, idx, bit - 1, base + n / 2);
    if (!hi) return lo;
    return X.ite(X.extract(idx, bit - 1, 1), hi, lo);
}
static u32 knownLowZeros(Expr* e) {
    switch (e->op) {
    case OConst: { u32 n = 0; while (n < e->w && !((e->c >> n) & 1)) ++n; return n; }
    case OConcat: { u32 l = knownLowZeros(e->k[1]); return l == e->k[1]->w ? l + knownLowZeros(e->k[0]) : l; }
    case OZExt: case OSExt: { u32 l = knownLowZeros(e->k[0]); return l; }
    case OAdd: case OSub: case OOr: case OXor: return std::min(knownLowZeros(e->k[0]), knownLowZeros(e->k[1]));
    case OMul: return std::min<u32>(e->w, knownLowZeros(e->k[0]) + knownLowZeros(e->k[1]));
    case OAnd: return std::max(knownLowZeros(e->k[0]), knownLowZeros(e->k[1]));
    case OIte: return std::min(knownLowZeros(e->k[1]), knownLowZeros(e->k[2]));
    default: return 0;
    }
}
// Offsets that are an if-then-else tree over constants (pointer selects): collect leaf -> guard.
static bool iteLeaves(Expr* e, Expr* guard, u64 add, u64 mul, std::map<u64, Expr*>& out, u32 maxLeaves, u32 depth = 0) {
    if (e->isConst()) { u64 k = (u64)e->c * mul + add; auto it = out.find(k); if (it == out.end()) out[k] = guard; else it->second = X.bin(OOr, it->second, guard); return out.size() <= maxLeaves; }
    if (depth > 24) return false;
    if (e->op == OIte) return iteLeaves(e->k[1], X.bin(OAnd, guard, e->k[0]), add, mul, out, maxLeaves, depth + 1) && iteLeaves(e->k[2], X.bin(OAnd, guard, X.not1(e->k[0])), add, mul, out, maxLeaves, depth + 1);
    if (e->w == 64) {
        if (e->op == OAdd && e->k[1]->isConst()) return iteLeaves(e->k[0], guard, add + (u64)e->k[1]->c * mul, mul, out, maxLeaves, depth + 1);
        if (e->op == OAdd && e->k[0]->isConst()) return iteLeaves(e->k[1], guard, add + (u64)e->k[0]->c * mul, mul, out, maxLeaves, depth + 1);
        if (e->op == OMul && e->k[1]->isConst()) return iteLeaves(e->k[0], guard, add, mul * (u64)e->k[1]->c, out, maxLeaves, depth + 1);
        if (e->op == OMul && e->k[0]->isConst()) return iteLeaves(e->k[1], guard, add, mul * (u64)e->k[0]->c, out, maxLeaves, depth + 1);
        if (e->op == OShl && e->k[1]->isConst() && e->k[1]->c < 64) return iteLeaves(e->k[0], guard, add, mul << (u64)e->k[1]->c, out, maxLeaves, depth + 1);
    }
    if (e->op == OZExt && (e->k[0]->w == 1 || e->k[0]->op == OIte)) {
        if (e->k[0]->w == 1) return iteLeaves(X.constant(1, 64), X.bin(OAnd, guard, e->k[0]), add, mul, out, maxLeaves, depth + 1) && iteLeaves(X.constant(0, 64), X.bin(OAnd, guard, X.not1(e->k[0])), add, mul, out, maxLeaves, depth + 1);
        return iteLeaves(e->k[0], guard, add, mul, out, maxLeaves, depth + 1);
    }
    return false;
}
static Status loadVal(State& s, const Access& a, u32 w, u64 extra, Val& out) {
    if (!a.symOff) { out = loadAt(s, a.id, a.off + extra, w); return ST_OK; }
    u32 n = (w + 7) / 8;
    Obj* o = getObj(s, a.id);
    Expr* off = extra ? X.bin(OAdd, a.symOff, X.constant(extra, 64)) : a.symOff;
    if (o->anyNon) {
        std::map<u64, Expr*> lv;
        if (iteLeaves(off, X.boolean(true), 0, 1, lv, 24)) {
            Expr* r = nullptr;
            for (auto& kv : lv) if (kv.first + n <= getObj(s, a.id)->size) { Expr* x = toE(loadAt(s, a.id, kv.first, w), w); r = r ? X.ite(kv.second, x, r) : x; }
            if (r) { out = fromE(r); return ST_OK; }
        }
    }
    u32 al = 1; while (al < n && al < 16) al *= 2;
    u32 lz = knownLowZeros(off);
    u32 sh = 0; while ((1u << sh) < al && sh < lz) ++sh;
    u64 slots = (o->size + (1u << sh) - 1) >> sh;
    u32 limit = opt.muxLimit;
    bool allConc = !o->anyNon;
    if (allConc) limit = 70000;
    if (slots > limit || w > 64) {
        u64 v = concretize(s, off);
        out = loadAt(s, a.id, v, w);
        return ST_OK;
    }
    u32 bits = 0; while ((1ull << bits) < slots) ++bits;
    Expr* idx = X.extract(off, sh, bits ? bits : 1);
    if (bits == 0) { out = loadAt(s, a.id, 0, w); return ST_OK; }
    if (allConc) {
        std::vector<u64> t(slots, 0);
        for (u64 i = 0; i < slots; ++i) if ((i << sh) + n <= o->size) { u64 v = 0; memcpy(&v, o->conc + (i << sh), n); t[i] = v & m64(w); }
        out = fromE(X.table(std::move(t), idx, w));
        return ST_OK;
    }
    std::vector<Expr*> leaves;
    for (u64 i = 0; i < slots; ++i) if ((i << sh) + n <= getObj(s, a.id)->size) leaves.push_back(toE(loadAt(s, a.id, i << sh, w), w));
    out = fromE(muxRec(s, leaves, idx, bits, 0));
    return ST_OK;
}
static Status storeVal(State& s, const Access& a, const Val& v, u32 w, u64 extra) {
    if (!a.symOff) { storeAt(s, a.id, a.off + extra, v, w); return ST_OK; }
    u32 n = (w + 7) / 8;
    Obj* o = getObj(s, a.id);
    Expr* off = extra ? X.bin(OAdd, a.symOff, X.constant(extra, 64)) : a.symOff;
    {
        std::map<u64, Expr*> lv;
        if (iteLeaves(off, X.boolean(true), 0, 1, lv, 24)) {
            Expr* ve = toE(v, w);
            for (auto& kv : lv) if (kv.first + n <= getObj(s, a.id)->size) { Expr* old = toE(loadAt(s, a.id, kv.first, w), w); storeAt(s, a.id, kv.first, fromE(X.ite(kv.second, ve, old)), w); }
            return ST_OK;
        }
    }
    u32 al = 1; while (al < n && al < 16) al *= 2;
    u32 lz = knownLowZeros(off);
    u32 sh = 0; while ((1u << sh) < al && sh < lz) ++sh;
    u64 slots = o->size >> sh;
    if (slots > 256 || (1u << sh) < n) {
        u64 c = concretize(s, off);
        storeAt(s, a.id, c, v, w);
        return ST_OK;
    }
    Expr* ve = toE(v, w);
    for (u64 i = 0; i < slots; ++i) {
        if ((i << sh) + n > o->size) break;
        Expr* c = X.bin(OEq, off, X.constant(i << sh, 64));
        if (c->isFalse()) continue;
        Expr* old = toE(loadAt(s, a.id, i << sh, w), w);
        storeAt(s, a.id, i << sh, fromE(X.ite(c, ve, old)), w);
    }
    return ST_OK;
}
static void copyBytes(State& s, u64 did, u64 doff, u64 sid, u64 soff, u64 n) {
    if (!n) return;
    Obj* d = getObjW(s, did);
    Obj* src = getObj(s, sid);
    bool non = src->anyNon;
    memmove(d->conc + doff, src->conc + soff, n);
    if (!non && !d->anyNon) return;
    if (!non) { memset(d->st + doff, 0, n); return; }
    bool anyS = false, any = false;
    for (u64 i = 0; i < n; ++i) { if (src->st[soff + i]) any = true; if (src->st[soff + i] == 1) anyS = true; }
    if (any) d->anyNon = true;
    if (anyS) {
        if (!d->symb) d->symb = (Expr**)calloc(d->size, sizeof(Expr*));
        memmove(d->symb + doff, src->symb + soff, n * sizeof(Expr*));
    }
    memmove(d->st + doff, src->st + soff, n);
}

// ------------------------------------------------------------------ lowering
static void leavesOf(Type* T, u64 base, std::vector<Leaf>& out) {
    if (auto* ST = dyn_cast<StructType>(T)) {
        const StructLayout* SL = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); ++i) leavesOf(ST->getElementType(i), base + SL->getElementOffset(i), out);
        return;
    }
    if (auto* AT = dyn_cast<ArrayType>(T)) {
        u64 sz = DL->getTypeAllocSize(AT->getElementType());
        for (u64 i = 0; i < AT->getNumElements(); ++i) leavesOf(AT->getElementType(), base + i * sz, out);
        return;
    }
    if (auto* VT = dyn_cast<FixedVectorType>(T)) {
        u64 sz = DL->getTypeSizeInBits(VT->getElementType()) / 8;
        if (!sz) sz = 1;
        for (u64 i = 0; i < VT->getNumElements(); ++i) leavesOf(VT->getElementType(), base + i * sz, out);
        return;
    }
    if (T->isVoidTy()) return;
    out.push_back({(u32)base, (u32)DL->getTypeSizeInBits(T)});
}
static u32 leafCount(Type* T) { std::vector<Leaf> l; leavesOf(T, 0, l); return (u32)l.size(); }
static u32 scalarWidth(Type* T) { return (u32)DL->getTypeSizeInBits(T->getScalarType()); }

static std::vector<Val> constPool;
static std::unordered_map<const Constant*, i32> constSlots; // -1-idx
static u64 addrOf(const GlobalValue* G) {
    auto it = gvAddr.find(G);
    if (it != gvAddr.end()) return it->second;
    if (auto* A = dyn_cast<GlobalAlias>(G)) { if (auto* B = A->getAliaseeObject()) return addrOf(B); }
    fprintf(stderr, "no address for %s\n", G->getName().str().c_str());
    abort();
}
static void evalConst(const Constant* C, std::vector<Val>& out);
static u64 evalConst1(const Constant* C) { std::vector<Val> v; evalConst(C, v); return v.empty() ? 0 : v[0].e ? (u64)v[0].e->c : v[0].c; }
static void evalConst(const Constant* C, std::vector<Val>& out) {
    if (auto* CI = dyn_cast<ConstantInt>(C)) {
        u32 w = CI->getBitWidth();
        if (w <= 64) out.push_back(CV(CI->getZExtValue()));
        else { u128 v = ((u128)CI->getValue().extractBitsAsZExtValue(std::min(64u, w - 64), 64) << 64) | CI->getValue().extractBitsAsZExtValue(64, 0); Val x; x.e = X.constant(v, w); out.push_back(x); }
        return;
    }
    if (auto* CF = dyn_cast<ConstantFP>(C)) {
        APInt b = CF->getValueAPF().bitcastToAPInt();
        if (b.getBitWidth() <= 64) out.push_back(CV(b.getZExtValue()));
        else { u128 v = ((u128)b.extractBitsAsZExtValue(std::min(64u, b.getBitWidth() - 64), 64) << 64) | b.extractBitsAsZExtValue(64, 0); Val x; x.e = X.constant(v, b.getBitWidth()); out.push_back(x); }
        return;
    }
    if (isa<ConstantPointerNull>(C)) { out.push_back(CV(0)); return; }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantTokenNone>(C)) {
        std::vector<Leaf> l; leavesOf(C->getType(), 0, l);
        for (auto& x : l) { if (x.w > 64) { Val v; v.e = X.constant(0, x.w); out.push_back(v); } else out.push_back(CV(0)); }
        return;
    }
    if (auto* G = dyn_cast<GlobalValue>(C)) { out.push_back(CV(addrOf(G))); return; }
    if (auto* CA = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < CA->getNumOperands(); ++i) evalConst(CA->getOperand(i), out); return; }
    if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); ++i) evalConst(CD->getElementAsConstant(i), out); return; }
    if (auto* E = dyn_cast<DSOLocalEquivalent>(C)) { out.push_back(CV(addrOf(E->getGlobalValue()))); return; }
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* G = cast<GEPOperator>(CE);
            APInt off(64, 0);
            u64 base = evalConst1(cast<Constant>(G->getPointerOperand()));
            if (!G->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); abort(); }
            out.push_back(CV(base + off.getSExtValue()));
            return;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: case Instruction::Trunc: {
            u64 v = evalConst1(CE->getOperand(0));
            out.push_back(CV(v & m64(scalarWidth(CE->getType()))));
            return;
        }
        case Instruction::SExt: {
            u64 v = evalConst1(CE->getOperand(0));
            u32 ws = scalarWidth(CE->getOperand(0)->getType());
            out.push_back(CV((u64)sextv(v, ws) & m64(scalarWidth(CE->getType()))));
            return;
        }
        case Instruction::Select: { u64 c = evalConst1(CE->getOperand(0)); evalConst(CE->getOperand(c ? 1 : 2), out); return; }
        case Instruction::ICmp: {
            u64 a = evalConst1(CE->getOperand(0)), b = evalConst1(CE->getOperand(1));
            u32 w = scalarWidth(CE->getOperand(0)->getType());
            bool r = false;
            switch (CE->getPredicate()) {
            case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break;
            case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_ULE: r = a <= b; break;
            case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_UGE: r = a >= b; break;
            case CmpInst::ICMP_SLT: r = sextv(a, w) < sextv(b, w); break; case CmpInst::ICMP_SLE: r = sextv(a, w) <= sextv(b, w); break;
            case CmpInst::ICMP_SGT: r = sextv(a, w) > sextv(b, w); break; default: r = sextv(a, w) >= sextv(b, w); break;
            }
            out.push_back(CV(r)); return;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            u64 a = evalConst1(CE->getOperand(0)), b = evalConst1(CE->getOperand(1));
            u32 w = scalarWidth(CE->getType());
            Op o = CE->getOpcode() == Instruction::Add ? OAdd : CE->getOpcode() == Instruction::Sub ? OSub : CE->getOpcode() == Instruction::Mul ? OMul : CE->getOpcode() == Instruction::And ? OAnd : CE->getOpcode() == Instruction::Or ? OOr : CE->getOpcode() == Instruction::Xor ? OXor : CE->getOpcode() == Instruction::Shl ? OShl : CE->getOpcode() == Instruction::LShr ? OLShr : OAShr;
            out.push_back(CV((u64)foldOp(o, w, w, a, b, 0))); return;
        }
        default: break;
        }
    }
    if (isa<BlockAddress>(C) || isa<NoCFIValue>(C)) { out.push_back(CV(0)); return; }
    Str str; raw_string_ostream os(str); C->print(os);
    fprintf(stderr, "unsupported constant %s\n", os.str().c_str());
    abort();
}
static i32 constSlot(const Constant* C) {
    auto it = constSlots.find(C);
    if (it != constSlots.end()) return it->second;
    std::vector<Val> v; evalConst(C, v);
    i32 s = -1 - (i32)constPool.size();
    // negative slots count downward: leaf i of constant is at s - i
    for (auto& x : v) constPool.push_back(x);
    if (v.empty()) constPool.push_back(CV(0));
    constSlots[C] = s;
    return s;
}

enum { LX_GEP = 200, LX_CALL, LX_PHI_SKIP, LX_EXTRACTVALUE, LX_INSERTVALUE, LX_SHUFFLE, LX_MOV };

static int builtinId(const Str& name);
static FnInfo* infoFor(Function* F) {
    auto& p = fnInfos[F];
    if (!p) { p = new FnInfo; p->F = F; p->name = F->getName().str(); }
    return p;
}
static void lower(FnInfo* fi) {
    Function* F = fi->F;
    fi->lowered = true;
    std::unordered_map<const Value*, i32> slot;
    std::unordered_map<const BasicBlock*, u32> bbIdx;
    u32 ns = 0;
    for (auto& A : F->args()) { u32 n = leafCount(A.getType()); slot[&A] = ns; fi->argSlot.push_back(ns); fi->argN.push_back(n); ns += n ? n : 1; }
    u32 bi = 0;
    for (auto& B : *F) {
        bbIdx[&B] = bi++;
        for (auto& I : B) { u32 n = leafCount(I.getType()); if (n) { slot[&I] = ns; ns += n; } }
    }
    fi->nslots = ns;
    auto opnd = [&](const Value* V) -> i32 {
        if (auto* C = dyn_cast<Constant>(V)) return constSlot(C);
        auto it = slot.find(V);
        if (it == slot.end()) return 0x7fffffff;
        return it->second;
    };
    for (auto& B : *F) {
        LBlock lb; lb.bb = &B; lb.first = (u32)fi->code.size();
        for (auto& I : B) {
            if (auto* P = dyn_cast<PHINode>(&I)) {
                u32 n = leafCount(P->getType());
                for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
                    u32 pb = bbIdx[P->getIncomingBlock(i)];
                    auto& mv = lb.phis[pb];
                    bool dup = false;
                    for (auto& m : mv) if (m.dst == slot[P]) dup = true;
                    if (!dup) mv.push_back({slot[P], opnd(P->getIncomingValue(i)), n});
                }
                continue;
            }
            LInst L; L.I = &I; L.opc = I.getOpcode();
            Type* T = I.getType();
            if (!T->isVoidTy()) { L.dst = slot.count(&I) ? slot[&I] : -1; }
            L.opOff = (u32)fi->opnds.size();
            auto addOps = [&](unsigned cnt) { for (unsigned i = 0; i < cnt; ++i) fi->opnds.push_back(opnd(I.getOperand(i))); L.opCnt = cnt; };
            if (I.isBinaryOp() || isa<UnaryOperator>(I)) {
                addOps(I.getNumOperands()); L.w = scalarWidth(T); L.w2 = L.w; L.n = leafCount(T);
            } else if (auto* C = dyn_cast<CmpInst>(&I)) {
                addOps(2); L.w = 1; L.w2 = scalarWidth(C->getOperand(0)->getType()); L.n = leafCount(T); L.pred = C->getPredicate();
            } else if (isa<CastInst>(I)) {
                addOps(1); L.w = scalarWidth(T); L.w2 = scalarWidth(I.getOperand(0)->getType()); L.n = leafCount(T);
                if (I.getOpcode() == Instruction::BitCast) L.imm = leafCount(I.getOperand(0)->getType());
            } else if (isa<FreezeInst>(I)) {
                addOps(1); L.n = leafCount(T); L.w = scalarWidth(T->isAggregateType() ? Type::getInt8Ty(LCtx) : T);
            } else switch (I.getOpcode()) {
            case Instruction::Select: {
                addOps(3); L.n = leafCount(T);
                L.imm = I.getOperand(0)->getType()->isVectorTy();
                auto* ma = new MemAux; leavesOf(T, 0, ma->leaves); L.aux = ma;
                break;
            }
            case Instruction::Alloca: {
                auto* A = cast<AllocaInst>(&I);
                fi->opnds.push_back(opnd(A->getArraySize())); L.opCnt = 1;
                L.imm = DL->getTypeAllocSize(A->getAllocatedType());
                L.w2 = scalarWidth(A->getArraySize()->getType());
                break;
            }
            case Instruction::Load: {
                addOps(1); auto* ma = new MemAux; leavesOf(T, 0, ma->leaves); ma->size = DL->getTypeStoreSize(T); L.aux = ma; L.n = ma->leaves.size(); break;
            }
            case Instruction::Store: {
                addOps(2); auto* ma = new MemAux; Type* VT = I.getOperand(0)->getType(); leavesOf(VT, 0, ma->leaves); ma->size = DL->getTypeStoreSize(VT); L.aux = ma; L.n = ma->leaves.size(); break;
            }
            case Instruction::GetElementPtr: {
                auto* G = cast<GetElementPtrInst>(&I);
                L.n = leafCount(T);
                fi->opnds.push_back(opnd(G->getPointerOperand())); L.opCnt = 1;
                auto* ga = new GepAux; i64 cst = 0;
                for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                    Value* Idx = gi.getOperand();
                    if (StructType* ST = gi.getStructTypeOrNull()) { cst += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(Idx)->getZExtValue()); continue; }
                    i64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* CI = dyn_cast<ConstantInt>(Idx)) { cst += CI->getSExtValue() * sz; continue; }
                    ga->terms.push_back({opnd(Idx), sz}); ga->widths.push_back(scalarWidth(Idx->getType()));
                }
                L.imm = cst; L.aux = ga;
                break;
            }
            case Instruction::ExtractValue: {
                auto* E = cast<ExtractValueInst>(&I);
                addOps(1);
                Type* AT = E->getAggregateOperand()->getType(); u32 off = 0;
                for (unsigned ix : E->getIndices()) {
                    if (auto* ST = dyn_cast<StructType>(AT)) { for (unsigned j = 0; j < ix; ++j) off += leafCount(ST->getElementType(j)); AT = ST->getElementType(ix); }
                    else { Type* ET = cast<ArrayType>(AT)->getElementType(); off += ix * leafCount(ET); AT = ET; }
                }
                L.imm = off; L.n = leafCount(T);
                break;
            }
            case Instruction::InsertValue: {
                auto* E = cast<InsertValueInst>(&I);
                addOps(2);
                Type* AT = E->getAggregateOperand()->getType(); u32 off = 0;
                for (unsigned ix : E->getIndices()) {
                    if (auto* ST = dyn_cast<StructType>(AT)) { for (unsigned j = 0; j < ix; ++j) off += leafCount(ST->getElementType(j)); AT = ST->getElementType(ix); }
                    else { Type* ET = cast<ArrayType>(AT)->getElementType(); off += ix * leafCount(ET); AT = ET; }
                }
                L.imm = off; L.n = leafCount(T); L.w2 = leafCount(E->getInsertedValueOperand()->getType());
                break;
            }
            case Instruction::ExtractElement: addOps(2); L.w = scalarWidth(T); L.n = leafCount(I.getOperand(0)->getType()); break;
            case Instruction::InsertElement: addOps(3); L.w = scalarWidth(T); L.n = leafCount(T); break;
            case Instruction::ShuffleVector: {
                addOps(2); auto* S = cast<ShuffleVectorInst>(&I);
                L.n = leafCount(T); L.w2 = leafCount(I.getOperand(0)->getType());
                L.aux = new std::vector<int>(S->getShuffleMask().begin(), S->getShuffleMask().end());
                break;
            }
            case Instruction::Br: {
                auto* Br = cast<BranchInst>(&I);
                if (Br->isConditional()) { fi->opnds.push_back(opnd(Br->getCondition())); L.opCnt = 1; L.imm = ((u64)bbIdx[Br->getSuccessor(0)] << 32) | bbIdx[Br->getSuccessor(1)]; }
                else L.imm = bbIdx[Br->getSuccessor(0)];
                break;
            }
            case Instruction::Switch: {
                auto* S = cast<SwitchInst>(&I);
                fi->opnds.push_back(opnd(S->getCondition())); L.opCnt = 1; L.w2 = scalarWidth(S->getCondition()->getType());
                auto* sa = new SwitchAux; sa->def = bbIdx[S->getDefaultDest()];
                for (auto& c : S->cases()) sa->cases.push_back({c.getCaseValue()->getZExtValue(), bbIdx[c.getCaseSuccessor()]});
                L.aux = sa; break;
            }
            case Instruction::Ret: {
                if (I.getNumOperands()) { addOps(1); L.n = leafCount(I.getOperand(0)->getType()); } else L.n = 0;
                break;
            }
            case Instruction::Unreachable: break;
            case Instruction::Resume: addOps(1); break;
            case Instruction::LandingPad: L.n = 2; break;
            case Instruction::Fence: break;
            case Instruction::AtomicRMW: {
                addOps(2); auto* A = cast<AtomicRMWInst>(&I); L.pred = A->getOperation(); L.w = scalarWidth(T); break;
            }
            case Instruction::AtomicCmpXchg: addOps(3); L.w = scalarWidth(I.getOperand(1)->getType()); break;
            case Instruction::Call: case Instruction::Invoke: {
                auto* CB = cast<CallBase>(&I);
                auto* ca = new CallAux;
                ca->callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
                if (auto* GA = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) ca->callee = dyn_cast<Function>(GA->getAliaseeObject());
                ca->isVarArg = CB->getFunctionType()->isVarArg();
                for (unsigned i = 0; i < CB->arg_size(); ++i) {
                    Value* A = CB->getArgOperand(i);
                    if (A->getType()->isMetadataTy()) { ca->args.push_back({0, 0}); ca->argW.push_back(0); ca->byval.push_back(0); continue; }
                    ca->args.push_back({opnd(A), leafCount(A->getType())});
                    ca->argW.push_back(A->getType()->isAggregateType() ? 64 : scalarWidth(A->getType()));
                    ca->byval.push_back(CB->isByValArgument(i) ? (u64)DL->getTypeAllocSize(CB->getParamByValType(i)) : 0);
                }
                if (ca->callee) {
                    ca->iid = ca->callee->getIntrinsicID();
                    if (ca->iid == Intrinsic::not_intrinsic) {
                        ca->builtin = builtinId(ca->callee->getName().str());
                        if (ca->builtin < 0 && !ca->callee->isDeclaration()) ca->fi = infoFor(ca->callee);
                    }
                } else if (!isa<InlineAsm>(CB->getCalledOperand())) ca->calleeSlot = opnd(CB->getCalledOperand());
                if (auto* Inv = dyn_cast<InvokeInst>(&I)) { ca->invoke = true; ca->normalBB = bbIdx[Inv->getNormalDest()]; ca->unwindBB = bbIdx[Inv->getUnwindDest()]; }
                L.aux = ca; L.n = leafCount(T); if (!T->isVoidTy() && !T->isAggregateType()) L.w = scalarWidth(T);
                L.opc = LX_CALL;
                break;
            }
            default: break;
            }
            fi->code.push_back(L);
        }
        lb.last = (u32)fi->code.size();
        fi->blocks.push_back(std::move(lb));
    }
}

// ------------------------------------------------------------------ executor
#define REG(i) ((i) >= 0 ? F.regs[i] : constPool[-1 - (i)])
// leaf j of operand slot i
static inline const Val& OP(Frame& F, i32 i, u32 j) { return i >= 0 ? F.regs[i + j] : constPool[(-1 - i) + j]; }

static void enterBlock(State& s, u32 to) {
    Frame& F = s.fr.back();
    LBlock& b = F.fn->blocks[to];
    b.covered = true;
    if (!b.phis.empty()) {
        auto it = b.phis.find(F.bb);
        if (it != b.phis.end()) {
            auto& mv = it->second;
            if (mv.size() == 1) { for (u32 j = 0; j < mv[0].n; ++j) F.regs[mv[0].dst + j] = OP(F, mv[0].src, j); }
            else {
                static thread_local std::vector<Val> tmp; tmp.clear();
                for (auto& m : mv) for (u32 j = 0; j < m.n; ++j) tmp.push_back(OP(F, m.src, j));
                size_t k = 0;
                for (auto& m : mv) for (u32 j = 0; j < m.n; ++j) F.regs[m.dst + j] = tmp[k++];
            }
        }
    }
    F.bb = to; F.pc = b.first;
}
static bool pushFrame(State& s, FnInfo* fi, LInst* callInst, const std::vector<Val>& args) {
    if (!fi->lowered) lower(fi);
    if (s.fr.size() > 3000) return false;
    fi->executed++;
    s.fr.emplace_back();
    Frame& F = s.fr.back();
    F.fn = fi; F.callInst = callInst;
    F.regs.resize(fi->nslots);
    size_t k = 0;
    for (size_t i = 0; i < fi->argSlot.size(); ++i) for (u32 j = 0; j < fi->argN[i]; ++j) { if (k < args.size()) F.regs[fi->argSlot[i] + j] = args[k]; ++k; }
    F.bb = 0; F.pc = fi->blocks[0].first; fi->blocks[0].covered = true;
    return true;
}
static void popFrame(State& s) {
    for (u32 a : s.fr.back().allocas) freeObj(s, a, KStack);
    s.fr.pop_back();
}

static Val binop(Op op, const Val& a, const Val& b, u32 w) {
    if (!a.e && !b.e) {
        switch (op) {
        case OAdd: return CV((a.c + b.c) & m64(w));
        case OSub: return CV((a.c - b.c) & m64(w));
        case OAnd: return CV(a.c & b.c);
        case OOr: return CV(a.c | b.c);
        case OXor: return CV(a.c ^ b.c);
        default: return CV((u64)foldOp(op, w, w, a.c, b.c, 0));
        }
    }
    return fromE(X.bin(op, toE(a, w), toE(b, w)));
}
static Val cmpop(unsigned pred, const Val& a, const Val& b, u32 w) {
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c; i64 sx = (i64)sextv(x, w), sy = (i64)sextv(y, w);
        switch (pred) {
        case CmpInst::ICMP_EQ: return CV(x == y); case CmpInst::ICMP_NE: return CV(x != y);
        case CmpInst::ICMP_ULT: return CV(x < y); case CmpInst::ICMP_ULE: return CV(x <= y);
        case CmpInst::ICMP_UGT: return CV(x > y); case CmpInst::ICMP_UGE: return CV(x >= y);
        case CmpInst::ICMP_SLT: return CV(sx < sy); case CmpInst::ICMP_SLE: return CV(sx <= sy);
        case CmpInst::ICMP_SGT: return CV(sx > sy); case CmpInst::ICMP_SGE: return CV(sx >= sy);
        }
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return fromE(X.bin(OEq, x, y)); case CmpInst::ICMP_NE: return fromE(X.not1(X.bin(OEq, x, y)));
    case CmpInst::ICMP_ULT: return fromE(X.bin(OUlt, x, y)); case CmpInst::ICMP_ULE: return fromE(X.bin(OUle, x, y));
    case CmpInst::ICMP_UGT: return fromE(X.bin(OUlt, y, x)); case CmpInst::ICMP_UGE: return fromE(X.bin(OUle, y, x));
    case CmpInst::ICMP_SLT: return fromE(X.bin(OSlt, x, y)); case CmpInst::ICMP_SLE: return fromE(X.bin(OSle, x, y));
    case CmpInst::ICMP_SGT: return fromE(X.bin(OSlt, y, x)); case CmpInst::ICMP_SGE: return fromE(X.bin(OSle, y, x));
    }
    abort();
}
static Val fcmp(unsigned pred, const Val& a, const Val& b, u32 w) {
    Expr *x = toE(a, w), *y = toE(b, w);
    auto uno = [&] { return X.bin(OFUno, x, y); };
    auto oeq = [&] { return X.bin(OFOeq, x, y); };
    auto olt = [&] { return X.bin(OFOlt, x, y); };
    auto ole = [&] { return X.bin(OFOle, x, y); };
    auto ogt = [&] { return X.bin(OFOlt, y, x); };
    auto oge = [&] { return X.bin(OFOle, y, x); };
    Expr* r;
    switch (pred) {
    case CmpInst::FCMP_FALSE: r = X.boolean(false); break;
    case CmpInst::FCMP_TRUE: r = X.boolean(true); break;
    case CmpInst::FCMP_OEQ: r = oeq(); break;
    case CmpInst::FCMP_OGT: r = ogt(); break;
    case CmpInst::FCMP_OGE: r = oge(); break;
    case CmpInst::FCMP_OLT: r = olt(); break;
    case CmpInst::FCMP_OLE: r = ole(); break;
    case CmpInst::FCMP_ONE: r = X.bin(OOr, olt(), ogt()); break;
    case CmpInst::FCMP_ORD: r = X.not1(uno()); break;
    case CmpInst::FCMP_UNO: r = uno(); break;
    case CmpInst::FCMP_UEQ: r = X.not1(X.bin(OOr, olt(), ogt())); break;
    case CmpInst::FCMP_UGT: r = X.not1(ole()); break;
    case CmpInst::FCMP_UGE: r = X.not1(olt()); break;
    case CmpInst::FCMP_ULT: r = X.not1(oge()); break;
    case CmpInst::FCMP_ULE: r = X.not1(ogt()); break;
    case CmpInst::FCMP_UNE: r = X.not1(oeq()); break;
    default: abort();
    }
    return fromE(r);
}

// --------------------------------------------------------------- exceptions
// The C++ runtime model (rt.cpp) keeps a 64-byte header in front of the thrown object:
//   +0 typeinfo  +8 destructor  +16 handlerCount  +24 nextCaught  +32 adjustedPtr
static Str tiName(State& s, u64 ti) {
    if (!ti) return "?";
    Obj* o = getObj(s, ti >> 32);
    if (!o || o->freed || o->size < 16) return "?";
    u64 np; memcpy(&np, o->conc + 8, 8);
    Obj* n = getObj(s, np >> 32);
    if (!n || n->freed) return "?";
    return Str((const char*)n->conc + (np & 0xffffffff));
}
static u64 rd64(State& s, u64 addr) {
    Obj* o = getObj(s, addr >> 32);
    u64 v = 0; if (o && !o->freed && (addr & 0xffffffff) + 8 <= o->size) memcpy(&v, o->conc + (addr & 0xffffffff), 8);
    return v;
}
static u64 vt_class, vt_si, vt_vmi, vt_ptr;
static bool isBaseOf(State& s, u64 ti, u64 target, u64 obj, u64& adj) {
    if (!ti) return false;
    if (ti == target || tiName(s, ti) == tiName(s, target)) { adj = obj; return true; }
    u64 vt = rd64(s, ti);
    if (vt == vt_si + 16) return isBaseOf(s, rd64(s, ti + 16), target, obj, adj);
    if (vt == vt_vmi + 16) {
        Obj* o = getObj(s, ti >> 32);
        u32 cnt; memcpy(&cnt, o->conc + 20, 4);
        for (u32 i = 0; i < cnt; ++i) {
            u64 b = rd64(s, ti + 24 + i * 16); i64 of = (i64)rd64(s, ti + 32 + i * 16);
            if (!(of & 2)) continue;
            i64 off = of >> 8;
            u64 o2 = obj + off;
            if (of & 1) o2 = obj + (i64)rd64(s, rd64(s, obj) + off);
            if (isBaseOf(s, b, target, o2, adj)) return true;
        }
    }
    return false;
}
static bool catchMatches(State& s, u64 thrownTi, u64 catchTi, u64 obj, u64& adj) {
    if (catchTi == 0) { adj = obj; return true; }
    if (thrownTi == catchTi || tiName(s, thrownTi) == tiName(s, catchTi)) { adj = obj; if (rd64(s, thrownTi) == vt_ptr + 16) adj = rd64(s, obj); return true; }
    u64 vt = rd64(s, thrownTi);
    if (vt == vt_si + 16 || vt == vt_vmi + 16) return isBaseOf(s, thrownTi, catchTi, obj, adj);
    if (vt == vt_ptr + 16 && rd64(s, catchTi) == vt_ptr + 16) {
        // pointer conversions: qualification / void* / base
        u64 pt = rd64(s, thrownTi + 24), ct = rd64(s, catchTi + 24), p = rd64(s, obj);
        if (pt == ct || tiName(s, ct) == "v") { adj = p; return true; }
        u64 a; if (isBaseOf(s, pt, ct, p, a)) { adj = a; return true; }
    }
    return false;
}
static Status unwind(State& s, u64 exc) {
    u64 ti = rd64(s, exc - 64);
    // phase 1: is there a handler?
    // phase 2 is merged: run cleanups from the innermost frame outward.
    bool handler = false;
    for (size_t i = s.fr.size(); i-- > 0 && !handler;) {
        // frame i is currently executing a call inside it (except the throwing runtime frame)
        Frame& F = s.fr[i];
        LInst& L = F.fn->code[F.pc];
        if (L.opc != LX_CALL) continue;
        auto* ca = (CallAux*)L.aux;
        if (!ca->invoke) continue;
        LBlock& lb = F.fn->blocks[ca->unwindBB];
        auto* LP = lb.bb->getLandingPadInst();
        for (unsigned c = 0; c < LP->getNumClauses(); ++c) if (LP->isCatch(c)) {
            u64 adj; if (catchMatches(s, ti, evalConst1(LP->getClause(c)), exc, adj)) { handler = true; break; }
        }
    }
    if (!handler) {
        Str what = demangle("_Z" + ("TI" + tiName(s, ti)));
        if (what.rfind("typeinfo for ", 0) == 0) what = what.substr(13);
        report(s, "exception", "uncaught exception " + what);
        return ST_DEAD;
    }
    while (!s.fr.empty()) {
        Frame& F = s.fr.back();
        LInst& L = F.fn->code[F.pc];
        if (L.opc == LX_CALL && ((CallAux*)L.aux)->invoke) {
            auto* ca = (CallAux*)L.aux;
            LBlock& lb = F.fn->blocks[ca->unwindBB];
            auto* LP = lb.bb->getLandingPadInst();
            u64 adj = exc; i64 sel = 0; bool land = LP->isCleanup();
            for (unsigned c = 0; c < LP->getNumClauses(); ++c) {
                if (LP->isCatch(c)) {
                    u64 cti = evalConst1(LP->getClause(c));
                    if (catchMatches(s, ti, cti, exc, adj)) { sel = cti ? (i64)(cti >> 32) : 0x7fffffff; land = true; break; }
                } else { // filter
                    auto* CA = dyn_cast<ConstantArray>(LP->getClause(c));
                    bool allowed = false;
                    if (CA) for (unsigned k = 0; k < CA->getNumOperands() && !allowed; ++k) { u64 a; allowed = catchMatches(s, ti, evalConst1(CA->getOperand(k)), exc, a); }
                    if (!allowed) { sel = -1; land = true; break; }
                }
            }
            if (land) {
                storeAt(s, exc >> 32, (exc & 0xffffffff) - 32, CV(adj), 64);
                enterBlock(s, ca->unwindBB);
                Frame& G = s.fr.back();
                LInst& P = G.fn->code[G.pc];
                G.regs[P.dst] = CV(exc);
                G.regs[P.dst + 1] = CV((u64)sel & 0xffffffff);
                G.pc++;
                return ST_OK;
            }
        }
        popFrame(s);
    }
    report(s, "exception", "unwound past main");
    return ST_DEAD;
}

// --------------------------------------------------------------- builtins
enum Bi {
    B_NONE = -1,
    B_SYM8, B_SYM16, B_SYM32, B_SYM64, B_SYMBYTES, B_CHOICE, B_RANGE, B_CONCRETIZE, B_ASSUME, B_ASSERT, B_REACH, B_OBSERVE, B_LIVEHEAP, B_ISSYM, B_PARAM, B_STEPS, B_FAIL, B_ISCONC, B_PRINT, B_PRINTU, B_UNWIND, B_LEAKMARK, B_TAG,
    B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_DEL, B_DELARR, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN, B_ABORT, B_EXIT, B_ASSERTFAIL, B_NOP, B_TERMINATE, B_ALIGNEDNEW, B_FABS, B_SQRT, B_FLOOR, B_CEIL, B_TRUNC, B_ROUND, B_RINT, B_FMOD, B_HEAPSIZE, B_MATH1, B_MATH2, B_MEMCHR, B_POW
};
static const std::map<Str, int>& biMap() {
    static const std::map<Str, int> m = {
        {"nsx_u8", B_SYM8}, {"nsx_u16", B_SYM16}, {"nsx_u32", B_SYM32}, {"nsx_u64", B_SYM64}, {"nsx_bytes", B_SYMBYTES}, {"nsx_choice", B_CHOICE}, {"nsx_range", B_RANGE}, {"nsx_concretize", B_CONCRETIZE},
        {"nsx_assume", B_ASSUME}, {"nsx_assert", B_ASSERT}, {"nsx_reach", B_REACH}, {"nsx_observe", B_OBSERVE}, {"nsx_live_heap", B_LIVEHEAP}, {"nsx_is_symbolic", B_ISSYM}, {"nsx_param", B_PARAM}, {"nsx_steps", B_STEPS}, {"nsx_fail", B_FAIL},
        {"nsx_print", B_PRINT}, {"nsx_printu", B_PRINTU}, {"nsx_unwind", B_UNWIND}, {"nsx_tag", B_TAG}, {"nsx_heap_size", B_HEAPSIZE},
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
        {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR},
        {"_ZnwmSt11align_val_t", B_NEW}, {"_ZnamSt11align_val_t", B_NEWARR},
        {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdlPvSt11align_val_t", B_DEL}, {"_ZdlPvmSt11align_val_t", B_DEL}, {"_ZdlPvRKSt9nothrow_t", B_DEL},
        {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR}, {"_ZdaPvSt11align_val_t", B_DELARR}, {"_ZdaPvmSt11align_val_t", B_DELARR}, {"_ZdaPvRKSt9nothrow_t", B_DELARR},
        {"aligned_alloc", B_ALIGNEDNEW},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"memchr", B_MEMCHR},
        {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__assert_fail", B_ASSERTFAIL}, {"_ZSt9terminatev", B_TERMINATE}, {"__clang_call_terminate", B_TERMINATE},
        {"__cxa_atexit", B_NOP}, {"__cxa_thread_atexit", B_NOP}, {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP}, {"atexit", B_NOP},
        {"fabs", B_FABS}, {"fabsf", B_FABS}, {"sqrt", B_SQRT}, {"sqrtf", B_SQRT}, {"floor", B_FLOOR}, {"floorf", B_FLOOR}, {"ceil", B_CEIL}, {"ceilf", B_CEIL}, {"trunc", B_TRUNC}, {"truncf", B_TRUNC}, {"round", B_ROUND}, {"roundf", B_ROUND}, {"rint", B_RINT}, {"nearbyint", B_RINT}, {"rintf", B_RINT}, {"nearbyintf", B_RINT}, {"fmod", B_FMOD}, {"fmodf", B_FMOD},
        {"sin", B_MATH1}, {"cos", B_MATH1}, {"tan", B_MATH1}, {"asin", B_MATH1}, {"acos", B_MATH1}, {"atan", B_MATH1}, {"exp", B_MATH1}, {"log", B_MATH1}, {"exp2", B_MATH1}, {"log2", B_MATH1}, {"log10", B_MATH1}, {"pow", B_MATH2}, {"atan2", B_MATH2}, {"sinf", B_MATH1}, {"cosf", B_MATH1}, {"powf", B_MATH2},
    };
    return m;
}
static int builtinId(const Str& name) {
    auto& m = biMap();
    auto it = m.find(name);
    return it == m.end() ? -1 : it->second;
}

static Str cstr(State& s, const Val& p) {
    if (p.e) return "?";
    Obj* o = getObj(s, p.c >> 32);
    if (!o || o->freed) return "?";
    Str r; for (u64 i = p.c & 0xffffffff; i < o->size && o->conc[i]; ++i) r.push_back((char)o->conc[i]);
    return r;
}
static Val newSym(State& s, const Str& name, u32 w) {
    Expr* v = X.newVar(name, w);
    ensureVars(s, (u32)v->c);
    Val x; x.e = v;
    s.inputs.push_back({name, w, x});
    return x;
}
static Status doAlloc(State& s, u64 size, ObjKind k, bool zero, Val& out) {
    if (size > 0x10000000) return inconcl(s, "huge allocation");
    Obj* o = new Obj((u32)size, k, !zero);
    out = CV(addObj(s, o));
    s.liveHeap++;
    return ST_OK;
}
static Status doFree(State& s, const Val& p, ObjKind k) {
    u64 a = p.e ? concretize(s, p.e) : p.c;
    if (!a) return ST_OK;
    Obj* o = getObj(s, a >> 32);
    if (!o) { report(s, "memory", "free of wild pointer"); return ST_DEAD; }
    if (o->freed) { report(s, "memory", "double free"); return ST_DEAD; }
    if ((a & 0xffffffff) != 0 || (o->kind != KMalloc && o->kind != KNew && o->kind != KNewArr)) { report(s, "memory", "free of non-heap or interior pointer"); return ST_DEAD; }
    if (o->kind != k) { report(s, "memory", "alloc/dealloc mismatch"); return ST_DEAD; }
    freeObj(s, a >> 32, k);
    s.liveHeap--;
    return ST_OK;
}
static FnInfo* fnByName(const char* n) {
    Function* f = M->getFunction(n);
    if (!f || f->isDeclaration()) return nullptr;
    return infoFor(f);
}

static void finishCall(State& s, LInst& L, CallAux* ca) {
    if (ca->invoke) enterBlock(s, ca->normalBB);
    else s.fr.back().pc++;
}
static Val fpun(Op op, const Val& a, u32 w, u64 c = 0) { return fromE(X.un(op, toE(a, w), w, c)); }

static Status doMemcpy(State& s, Val d, Val sr, u64 n, bool move) {
    if (n == 0) return ST_OK;
    Access a, b;
    // symbolic addresses: concretise
    if (d.e) { u64 v = concretize(s, d.e); d = CV(v); }
    if (sr.e) { u64 v = concretize(s, sr.e); sr = CV(v); }
    if (resolve(s, sr, n, false, b, "memcpy src") != ST_OK) return ST_DEAD;
    if (resolve(s, d, n, true, a, "memcpy dst") != ST_OK) return ST_DEAD;
    if (!move && a.id == b.id && a.off != b.off && a.off < b.off + n && b.off < a.off + n) { report(s, "memory", "memcpy with overlapping ranges"); return ST_DEAD; }
    copyBytes(s, a.id, a.off, b.id, b.off, n);
    return ST_OK;
}
static Status doMemset(State& s, Val d, Val v, u64 n) {
    if (n == 0) return ST_OK;
    Access a;
    if (d.e) d = CV(concretize(s, d.e));
    if (resolve(s, d, n, true, a, "memset") != ST_OK) return ST_DEAD;
    Obj* o = getObjW(s, a.id);
    if (!v.e) { memset(o->conc + a.off, (u8)v.c, n); if (o->anyNon) memset(o->st + a.off, 0, n); }
    else { Expr* b = X.extract(v.e, 0, 8); for (u64 i = 0; i < n; ++i) { if (b->isConst()) { o->conc[a.off + i] = (u8)b->c; o->st[a.off + i] = 0; } else o->setSym((u32)(a.off + i), b); } }
    return ST_OK;
}

static Status builtin(State& s, LInst& L, CallAux* ca, std::vector<Val>& a) {
    Frame& F = s.fr.back();
    auto ret = [&](const Val& v) { if (L.dst >= 0) s.fr.back().regs[L.dst] = v; };
    auto num = [&](const Val& v) -> u64 { return v.e ? concretize(s, v.e) : v.c; };
    (void)F;
    switch (ca->builtin) {
    case B_SYM8: ret(newSym(s, cstr(s, a[0]), 8)); break;
    case B_SYM16: ret(newSym(s, cstr(s, a[0]), 16)); break;
    case B_SYM32: ret(newSym(s, cstr(s, a[0]), 32)); break;
    case B_SYM64: ret(newSym(s, cstr(s, a[0]), 64)); break;
    case B_SYMBYTES: {
        u64 n = num(a[1]); Str nm = cstr(s, a[2]);
        Access ac;
        if (n) { if (resolve(s, a[0], n, true, ac, "nsx_bytes") != ST_OK) return ST_DEAD; }
        for (u64 i = 0; i < n; ++i) { Val v = newSym(s, nm + "[" + std::to_string(i) + "]", 8); getObjW(s, ac.id)->setSym((u32)(ac.off + i), v.e); }
        break;
    }
    case B_CHOICE: {
        u64 lo = num(a[0]), hi = num(a[1]); Str nm = cstr(s, a[2]);
        if (lo > hi) { ++statAssumeDrop; return ST_DEAD; }
        for (u64 v = hi; v > lo; --v) {
            StateP n = cloneState(s);
            n->inputs.push_back({nm, 64, CV(v)});
            if (L.dst >= 0) n->fr.back().regs[L.dst] = CV(v);
            finishCall(*n, L, ca);
            work.push_back(std::move(n));
        }
        s.inputs.push_back({nm, 64, CV(lo)});
        ret(CV(lo));
        break;
    }
    case B_RANGE: {
        u64 lo = num(a[0]), hi = num(a[1]);
        Val v = newSym(s, cstr(s, a[2]), 64);
        // narrow representation: value = lo + zext(narrow) keeps queries small
        s.inputs.pop_back();
        u64 span = hi - lo; u32 bits = 1; while (bits < 64 && (span >> bits)) ++bits;
        Expr* nv = X.newVar(cstr(s, a[2]), bits); ensureVars(s, (u32)nv->c);
        Expr* full = X.bin(OAdd, X.zext(nv, 64), X.constant(lo, 64));
        Expr* c = X.bin(OUle, nv, X.constant(span, bits));
        if (!c->isConst()) addCons(s, c);
        s.inputs.push_back({cstr(s, a[2]), 64, fromE(full)});
        ret(fromE(full));
        break;
    }
    case B_CONCRETIZE: ret(CV(num(a[0]))); break;
    case B_ASSUME: {
        Expr* c = X.extract(toE(a[0], ca->argW[0]), 0, 1);
        if (c->isFalse()) { ++statAssumeDrop; return ST_DEAD; }
        if (c->isTrue()) break;
        ModelVec m;
        SatResult r = feasible(s, c, m);
        if (r == SR_UNSAT) { ++statAssumeDrop; return ST_DEAD; }
        if (r == SR_UNKNOWN) return inconcl(s, "solver unknown on assume");
        addCons(s, c); setModel(s, m);
        break;
    }
    case B_ASSERT: {
        ++statAsserts;
        Expr* c = X.extract(toE(a[0], ca->argW[0]), 0, 1);
        if (c->isTrue()) break;
        Str msg = cstr(s, a[1]);
        if (c->isFalse()) { report(s, "assert", msg); return ST_DEAD; }
        c = simp(s, c);
        if (c->isTrue()) { ++statAssertsSym; break; }
        if (c->isFalse()) { report(s, "assert", msg); return ST_DEAD; }
        ++statAssertsSym;
        if (uninitBranch(s, c, "checked value depends on uninitialised memory")) return ST_DEAD;
        if (c->isTrue()) break;
        if (c->isFalse()) { report(s, "assert", msg); return ST_DEAD; }
        Expr* neg = X.not1(c);
        ModelVec m;
        SatResult r = feasible(s, neg, m, true);
        if (r == SR_UNKNOWN) { inconclusive["solver unknown on assertion: " + msg]++; ++statInconcl; }
        if (r == SR_SAT) {
            { StateP n = std::make_unique<State>(s); addCons(*n, neg); setModel(*n, m); report(*n, "assert", msg); }
            SatResult r2 = feasible(s, c, m);
            if (r2 != SR_SAT) return ST_DEAD;
            addCons(s, c); setModel(s, m);
        }
        break;
    }
    case B_FAIL: report(s, "assert", cstr(s, a[0])); return ST_DEAD;
    case B_TAG: s.findingTag = cstr(s, a[0]); break;
    case B_REACH: { Str l = cstr(s, a[0]); reachLabels[l]++; bool dup = false; for (auto& x : s.reached) if (x == l) dup = true; if (!dup) s.reached.push_back(l); break; }
    case B_OBSERVE: s.observes.push_back({a[0].c, a[0].e}); break;
    case B_LIVEHEAP: ret(CV((u64)s.liveHeap)); break;
    case B_HEAPSIZE: { u64 p = num(a[0]); Obj* o = getObj(s, p >> 32); ret(CV(o ? o->size : 0)); break; }
    case B_ISSYM: ret(CV(1)); break;
    case B_PARAM: { u64 i = num(a[0]); ret(CV(i < opt.params.size() ? (u64)opt.params[i] : num(a[1]))); break; }
    case B_STEPS: ret(CV(s.steps)); break;
    case B_PRINT: fprintf(stderr, "%s\n", cstr(s, a[0]).c_str()); break;
    case B_PRINTU: fprintf(stderr, "%s = %s\n", cstr(s, a[0]).c_str(), a[1].e ? X.str(a[1].e, 10).c_str() : std::to_string(a[1].c).c_str()); break;
    case B_UNWIND: return unwind(s, num(a[0])) == ST_OK ? ST_FORKED_RETRY : ST_DEAD;
    case B_MALLOC: case B_NEW: case B_NEWARR: case B_ALIGNEDNEW: {
        u64 n = num(ca->builtin == B_ALIGNEDNEW ? a[1] : a[0]);
        if (n > 0x10000000) {
            if (ca->builtin == B_MALLOC || ca->builtin == B_ALIGNEDNEW) { ret(CV(0)); break; }
            FnInfo* f = fnByName("_ZSt17__throw_bad_allocv");
            if (!f) return inconcl(s, "huge allocation");
            pushFrame(s, f, &L, {}); return ST_FORKED_RETRY;
        }
        Val v;
        if (doAlloc(s, n, ca->builtin == B_NEW ? KNew : ca->builtin == B_NEWARR ? KNewArr : KMalloc, false, v) != ST_OK) return ST_DEAD;
        ret(v); break;
    }
    case B_CALLOC: { u64 n = num(a[0]) * num(a[1]); Val v; if (doAlloc(s, n, KMalloc, true, v) != ST_OK) return ST_DEAD; ret(v); break; }
    case B_REALLOC: {
        u64 p = num(a[0]), n = num(a[1]); Val v;
        if (doAlloc(s, n, KMalloc, false, v) != ST_OK) return ST_DEAD;
        if (p) {
            Obj* o = getObj(s, p >> 32);
            if (!o || o->freed || (p & 0xffffffff)) { report(s, "memory", "realloc of invalid pointer"); return ST_DEAD; }
            copyBytes(s, v.c >> 32, 0, p >> 32, 0, std::min<u64>(n, o->size));
            if (doFree(s, CV(p), KMalloc) != ST_OK) return ST_DEAD;
        }
        ret(v); break;
    }
    case B_FREE: if (doFree(s, a[0], KMalloc) != ST_OK) return ST_DEAD; break;
    case B_DEL: if (doFree(s, a[0], KNew) != ST_OK) return ST_DEAD; break;
    case B_DELARR: if (doFree(s, a[0], KNewArr) != ST_OK) return ST_DEAD; break;
    case B_MEMCPY: case B_MEMMOVE: { u64 n = num(a[2]); if (doMemcpy(s, a[0], a[1], n, ca->builtin == B_MEMMOVE) != ST_OK) return ST_DEAD; ret(a[0]); break; }
    case B_MEMSET: { u64 n = num(a[2]); if (doMemset(s, a[0], a[1], n) != ST_OK) return ST_DEAD; ret(a[0]); break; }
    case B_MEMCMP: {
        u64 n = num(a[2]);
        if (!n) { ret(CV(0)); break; }
        Access x, y; Val p = a[0], q = a[1];
        if (p.e) p = CV(concretize(s, p.e));
        if (q.e) q = CV(concretize(s, q.e));
        if (resolve(s, p, n, false, x, "memcmp") != ST_OK || resolve(s, q, n, false, y, "memcmp") != ST_OK) return ST_DEAD;
        Expr* r = X.constant(0, 32);
        for (u64 i = n; i-- > 0;) {
            Expr *b1 = toE(loadAt(s, x.id, x.off + i, 8), 8), *b2 = toE(loadAt(s, y.id, y.off + i, 8), 8);
            Expr* eq = X.bin(OEq, b1, b2);
            Expr* d = X.ite(X.bin(OUlt, b1, b2), X.constant(0xffffffff, 32), X.constant(1, 32));
            r = X.ite(eq, r, d);
        }
        ret(fromE(r)); break;
    }
    case B_MEMCHR: {
        u64 n = num(a[2]);
        if (!n) { ret(CV(0)); break; }
        Access x; Val p = a[0]; if (p.e) p = CV(concretize(s, p.e));
        Expr* ch = X.extract(toE(a[1], 32), 0, 8);
        // memchr may legally stop at the first match: only check bytes up to it
        Obj* o = getObj(s, p.c >> 32);
        u64 off = p.c & 0xffffffff;
        if (!o || o->freed || off >= o->size) { if (resolve(s, p, 1, false, x, "memchr") != ST_OK) return ST_DEAD; }
        u64 lim = std::min<u64>(n, getObj(s, p.c >> 32)->size - off);
        Expr* found = X.boolean(false);
        Expr* r = X.constant(0, 64);
        for (u64 i = lim; i-- > 0;) {
            Expr* eq = X.bin(OEq, toE(loadAt(s, p.c >> 32, off + i, 8), 8), ch);
            found = X.bin(OOr, found, eq);
            r = X.ite(eq, X.constant(p.c + i, 64), r);
        }
        if (lim < n) { // reading past the end if not found
            int b = branch(s, found);
            if (b == 0) { report(s, "memory", "buffer overflow (read) in memchr"); return ST_DEAD; }
        }
        // fork on the result so that pointers stay concrete
        if (!r->isConst()) { u64 v = concretize(s, r); ret(CV(v)); } else ret(fromE(r));
        break;
    }
    case B_ABORT: report(s, "abort", "abort() called"); return ST_DEAD;
    case B_EXIT: report(s, "abort", "exit() called"); return ST_DEAD;
    case B_TERMINATE: report(s, "abort", "std::terminate called"); return ST_DEAD;
    case B_ASSERTFAIL: report(s, "abort", "assertion failed: " + cstr(s, a[0])); return ST_DEAD;
    case B_NOP: if (L.dst >= 0) ret(CV(0)); break;
    case B_FABS: { u32 w = ca->argW[0]; ret(binop(OAnd, a[0], CV(m64(w - 1)), w)); break; }
    case B_SQRT: ret(fpun(OFSqrt, a[0], ca->argW[0])); break;
    case B_FLOOR: ret(fpun(OFRound, a[0], ca->argW[0], 1)); break;
    case B_CEIL: ret(fpun(OFRound, a[0], ca->argW[0], 2)); break;
    case B_TRUNC: ret(fpun(OFRound, a[0], ca->argW[0], 3)); break;
    case B_ROUND: ret(fpun(OFRound, a[0], ca->argW[0], 4)); break;
    case B_RINT: ret(fpun(OFRound, a[0], ca->argW[0], 0)); break;
    case B_FMOD: ret(fromE(X.bin(OFRem, toE(a[0], ca->argW[0]), toE(a[1], ca->argW[0])))); break;
    case B_MATH1: case B_MATH2: {
        if (a[0].e || (ca->builtin == B_MATH2 && a[1].e)) return inconcl(s, "symbolic argument to " + ca->callee->getName().str());
        u32 w = ca->argW[0]; double x, y = 0;
        if (w == 64) { memcpy(&x, &a[0].c, 8); if (ca->builtin == B_MATH2) memcpy(&y, &a[1].c, 8); }
        else { float f; memcpy(&f, &a[0].c, 4); x = f; if (ca->builtin == B_MATH2) { memcpy(&f, &a[1].c, 4); y = f; } }
        Str n = ca->callee->getName().str(); if (w == 32) n.pop_back();
        double r = n == "sin" ? sin(x) : n == "cos" ? cos(x) : n == "tan" ? tan(x) : n == "asin" ? asin(x) : n == "acos" ? acos(x) : n == "atan" ? atan(x) : n == "exp" ? exp(x) : n == "log" ? log(x) : n == "exp2" ? exp2(x) : n == "log2" ? log2(x) : n == "log10" ? log10(x) : n == "pow" ? pow(x, y) : atan2(x, y);
        u64 o = 0; if (w == 64) memcpy(&o, &r, 8); else { float f = (float)r; memcpy(&o, &f, 4); }
        ret(CV(o)); break;
    }
    default: return inconcl(s, "unimplemented builtin");
    }
    return ST_OK;
}

static Expr* popcnt(Expr* e, u32 w) {
    Expr* r = X.constant(0, w);
    for (u32 i = 0; i < w; ++i) r = X.bin(OAdd, r, X.zext(X.extract(e, i, 1), w));
    return r;
}
static Status intrinsic(State& s, LInst& L, CallAux* ca, std::vector<Val>& a) {
    Frame& F = s.fr.back();
    u32 n = L.n;
    u32 w = ca->argW.empty() ? 0 : ca->argW[0];
    auto set = [&](u32 i, const Val& v) { if (L.dst >= 0) s.fr.back().regs[L.dst + i] = v; };
    // lane access: argument k lane i
    auto A = [&](u32 k, u32 i) -> const Val& { return OP(F, ca->args[k].first, ca->args[k].second > 1 ? i : 0); };
    auto num = [&](const Val& v) -> u64 { return v.e ? concretize(s, v.e) : v.c; };
    switch (ca->iid) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::sideeffect: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::pseudoprobe:
        return ST_OK;
    case Intrinsic::stacksave: case Intrinsic::invariant_start: set(0, CV(0)); return ST_OK;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return doMemcpy(s, a[0], a[1], num(a[2]), false) == ST_OK ? ST_OK : ST_DEAD;
    case Intrinsic::memmove: return doMemcpy(s, a[0], a[1], num(a[2]), true) == ST_OK ? ST_OK : ST_DEAD;
    case Intrinsic::memset: case Intrinsic::memset_inline: return doMemset(s, a[0], a[1], num(a[2])) == ST_OK ? ST_OK : ST_DEAD;
    case Intrinsic::trap: case Intrinsic::debugtrap: report(s, "abort", "trap"); return ST_DEAD;
    case Intrinsic::ubsantrap: {
        static const char* k[] = {"add-overflow", "builtin-unreachable", "cfi-check-fail", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type-mismatch", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment-assumption", "vla-bound-not-positive"};
        u64 c = a[0].c; report(s, "ub", Str("undefined behaviour: ") + (c < 25 ? k[c] : "?")); return ST_DEAD;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: case Intrinsic::arithmetic_fence:
        for (u32 i = 0; i < n; ++i) set(i, A(0, i)); return ST_OK;
    case Intrinsic::is_constant: set(0, CV(0)); return ST_OK;
    case Intrinsic::objectsize: { u64 min = a[1].c; set(0, CV(min ? 0 : ~0ull)); return ST_OK; }
    case Intrinsic::eh_typeid_for: { u64 t = num(a[0]); set(0, CV(t >> 32)); return ST_OK; }
    case Intrinsic::ptrmask: set(0, binop(OAnd, a[0], a[1], 64)); return ST_OK;
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        Expr *x = toE(a[0], w), *y = toE(a[1], w); Expr *r, *o;
        switch (ca->iid) {
        case Intrinsic::uadd_with_overflow: r = X.bin(OAdd, x, y); o = X.bin(OUlt, r, x); break;
        case Intrinsic::usub_with_overflow: r = X.bin(OSub, x, y); o = X.bin(OUlt, x, y); break;
        case Intrinsic::sadd_with_overflow: { r = X.bin(OAdd, x, y); Expr *xe = X.sext(x, w + 1), *ye = X.sext(y, w + 1); o = X.not1(X.bin(OEq, X.bin(OAdd, xe, ye), X.sext(r, w + 1))); break; }
        case Intrinsic::ssub_with_overflow: { r = X.bin(OSub, x, y); Expr *xe = X.sext(x, w + 1), *ye = X.sext(y, w + 1); o = X.not1(X.bin(OEq, X.bin(OSub, xe, ye), X.sext(r, w + 1))); break; }
        case Intrinsic::umul_with_overflow: { r = X.bin(OMul, x, y); if (2 * w > 128) return inconcl(s, "umul overflow width"); Expr* f = X.bin(OMul, X.zext(x, 2 * w), X.zext(y, 2 * w)); o = X.not1(X.bin(OEq, X.extract(f, w, w), X.constant(0, w))); break; }
        default: { r = X.bin(OMul, x, y); if (2 * w > 128) return inconcl(s, "smul overflow width"); Expr* f = X.bin(OMul, X.sext(x, 2 * w), X.sext(y, 2 * w)); o = X.not1(X.bin(OEq, f, X.sext(r, 2 * w))); break; }
        }
        set(0, fromE(r)); set(1, fromE(o)); return ST_OK;
    }
    case Intrinsic::uadd_sat: for (u32 i = 0; i < n; ++i) { Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w), *r = X.bin(OAdd, x, y); set(i, fromE(X.ite(X.bin(OUlt, r, x), X.constant(~(u128)0, w), r))); } return ST_OK;
    case Intrinsic::usub_sat: for (u32 i = 0; i < n; ++i) { Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w); set(i, fromE(X.ite(X.bin(OUlt, x, y), X.constant(0, w), X.bin(OSub, x, y)))); } return ST_OK;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
        for (u32 i = 0; i < n; ++i) {
            Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w);
            bool sg = ca->iid == Intrinsic::smin || ca->iid == Intrinsic::smax, mn = ca->iid == Intrinsic::umin || ca->iid == Intrinsic::smin;
            Expr* c = X.bin(sg ? OSlt : OUlt, x, y);
            set(i, fromE(mn ? X.ite(c, x, y) : X.ite(c, y, x)));
        }
        return ST_OK;
    case Intrinsic::abs: for (u32 i = 0; i < n; ++i) { Expr* x = toE(A(0, i), w); set(i, fromE(X.ite(X.bin(OSlt, x, X.constant(0, w)), X.bin(OSub, X.constant(0, w), x), x))); } return ST_OK;
    case Intrinsic::bswap: { Expr* x = toE(a[0], w); Expr* r = X.extract(x, 0, 8); for (u32 i = 8; i < w; i += 8) r = X.concat(r, X.extract(x, i, 8)); set(0, fromE(r)); return ST_OK; }
    case Intrinsic::bitreverse: { Expr* x = toE(a[0], w); Expr* r = X.extract(x, 0, 1); for (u32 i = 1; i < w; ++i) r = X.concat(r, X.extract(x, i, 1)); set(0, fromE(r)); return ST_OK; }
    case Intrinsic::ctpop: for (u32 i = 0; i < n; ++i) set(i, A(0, i).e ? fromE(popcnt(A(0, i).e, w)) : CV(__builtin_popcountll(A(0, i).c))); return ST_OK;
    case Intrinsic::ctlz: for (u32 i = 0; i < n; ++i) { Expr* x = toE(A(0, i), w); Expr* r = X.constant(w, w); for (u32 b = 0; b < w; ++b) r = X.ite(X.extract(x, b, 1), X.constant(w - 1 - b, w), r); set(i, fromE(r)); } return ST_OK;
    case Intrinsic::cttz: for (u32 i = 0; i < n; ++i) { Expr* x = toE(A(0, i), w); Expr* r = X.constant(w, w); for (u32 b = w; b-- > 0;) r = X.ite(X.extract(x, b, 1), X.constant(b, w), r); set(i, fromE(r)); } return ST_OK;
    case Intrinsic::fshl: case Intrinsic::fshr:
        for (u32 i = 0; i < n; ++i) {
            Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w), *z = toE(A(2, i), w);
            Expr* sh = X.bin(OURem, z, X.constant(w, w));
            Expr* inv = X.bin(OSub, X.constant(w, w), sh);
            Expr* r = ca->iid == Intrinsic::fshl ? X.ite(X.bin(OEq, sh, X.constant(0, w)), x, X.bin(OOr, X.bin(OShl, x, sh), X.bin(OLShr, y, inv)))
                                                 : X.ite(X.bin(OEq, sh, X.constant(0, w)), y, X.bin(OOr, X.bin(OShl, x, inv), X.bin(OLShr, y, sh)));
            set(i, fromE(r));
        }
        return ST_OK;
    case Intrinsic::fabs: for (u32 i = 0; i < n; ++i) set(i, binop(OAnd, A(0, i), CV(m64(w - 1)), w)); return ST_OK;
    case Intrinsic::sqrt: for (u32 i = 0; i < n; ++i) set(i, fpun(OFSqrt, A(0, i), w)); return ST_OK;
    case Intrinsic::floor: for (u32 i = 0; i < n; ++i) set(i, fpun(OFRound, A(0, i), w, 1)); return ST_OK;
    case Intrinsic::ceil: for (u32 i = 0; i < n; ++i) set(i, fpun(OFRound, A(0, i), w, 2)); return ST_OK;
    case Intrinsic::trunc: for (u32 i = 0; i < n; ++i) set(i, fpun(OFRound, A(0, i), w, 3)); return ST_OK;
    case Intrinsic::round: for (u32 i = 0; i < n; ++i) set(i, fpun(OFRound, A(0, i), w, 4)); return ST_OK;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: for (u32 i = 0; i < n; ++i) set(i, fpun(OFRound, A(0, i), w, 0)); return ST_OK;
    case Intrinsic::copysign: for (u32 i = 0; i < n; ++i) set(i, binop(OOr, binop(OAnd, A(0, i), CV(m64(w - 1)), w), binop(OAnd, A(1, i), CV(1ull << (w - 1)), w), w)); return ST_OK;
    case Intrinsic::minnum: case Intrinsic::maxnum:
        for (u32 i = 0; i < n; ++i) {
            Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w);
            Expr* lt = ca->iid == Intrinsic::minnum ? X.bin(OFOlt, x, y) : X.bin(OFOlt, y, x);
            Expr* r = X.ite(X.bin(OFUno, x, x), y, X.ite(X.bin(OFUno, y, y), x, X.ite(lt, x, y)));
            set(i, fromE(r));
        }
        return ST_OK;
    case Intrinsic::fma: for (u32 i = 0; i < n; ++i) set(i, fromE(X.fma(toE(A(0, i), w), toE(A(1, i), w), toE(A(2, i), w)))); return ST_OK;
    case Intrinsic::fmuladd: for (u32 i = 0; i < n; ++i) set(i, fromE(X.bin(OFAdd, X.bin(OFMul, toE(A(0, i), w), toE(A(1, i), w)), toE(A(2, i), w)))); return ST_OK;
    case Intrinsic::is_fpclass: {
        u64 mask = a[1].c; Expr* x = toE(a[0], w); u32 mb = w == 32 ? 23 : 52;
        Expr* ex = X.extract(x, mb, w - 1 - mb); Expr* ma = X.extract(x, 0, mb); Expr* sg = X.extract(x, w - 1, 1);
        Expr* exAll = X.bin(OEq, ex, X.constant(~(u128)0, ex->w)); Expr* ex0 = X.bin(OEq, ex, X.constant(0, ex->w)); Expr* m0 = X.bin(OEq, ma, X.constant(0, mb));
        Expr* qn = X.extract(x, mb - 1, 1);
        auto And = [&](Expr* p, Expr* q) { return X.bin(OAnd, p, q); }; auto Not = [&](Expr* p) { return X.not1(p); };
        Expr* nan = And(exAll, Not(m0)); Expr* inf = And(exAll, m0); Expr* zero = And(ex0, m0); Expr* sub = And(ex0, Not(m0)); Expr* norm = And(Not(exAll), Not(ex0));
        Expr* cls[10] = {And(nan, Not(qn)), And(nan, qn), And(inf, sg), And(norm, sg), And(sub, sg), And(zero, sg), And(zero, Not(sg)), And(sub, Not(sg)), And(norm, Not(sg)), And(inf, Not(sg))};
        Expr* r = X.boolean(false); for (int i = 0; i < 10; ++i) if ((mask >> i) & 1) r = X.bin(OOr, r, cls[i]);
        set(0, fromE(r)); return ST_OK;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
        Op o = ca->iid == Intrinsic::vector_reduce_add ? OAdd : ca->iid == Intrinsic::vector_reduce_or ? OOr : ca->iid == Intrinsic::vector_reduce_and ? OAnd : ca->iid == Intrinsic::vector_reduce_mul ? OMul : OXor;
        Val r = A(0, 0); for (u32 i = 1; i < ca->args[0].second; ++i) r = binop(o, r, A(0, i), w);
        set(0, r); return ST_OK;
    }
    case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: {
        if (a[0].e || (ca->iid == Intrinsic::pow && a[1].e)) return inconcl(s, "symbolic argument to " + ca->callee->getName().str());
        double x, y = 0; float f;
        if (w == 64) { memcpy(&x, &a[0].c, 8); if (ca->iid == Intrinsic::pow) memcpy(&y, &a[1].c, 8); }
        else { memcpy(&f, &a[0].c, 4); x = f; if (ca->iid == Intrinsic::pow) { memcpy(&f, &a[1].c, 4); y = f; } }
        double r = ca->iid == Intrinsic::sin ? sin(x) : ca->iid == Intrinsic::cos ? cos(x) : ca->iid == Intrinsic::exp ? exp(x) : ca->iid == Intrinsic::log ? log(x) : ca->iid == Intrinsic::exp2 ? exp2(x) : ca->iid == Intrinsic::log2 ? log2(x) : ca->iid == Intrinsic::log10 ? log10(x) : pow(x, y);
        u64 o = 0; if (w == 64) memcpy(&o, &r, 8); else { f = (float)r; memcpy(&o, &f, 4); }
        set(0, CV(o)); return ST_OK;
    }
    default: break;
    }
    return inconcl(s, "unsupported intrinsic " + ca->callee->getName().str());
}

static Status doCall(State& s, LInst& L) {
    auto* ca = (CallAux*)L.aux;
    Frame& F = s.fr.back();
    static thread_local std::vector<Val> args;
    args.clear();
    if (ca->iid != Intrinsic::not_intrinsic) {
        for (auto& x : ca->args) { if (x.second) args.push_back(OP(F, x.first, 0)); else args.push_back(CV(0)); }
        std::vector<Val> a2(args);
        Status r = intrinsic(s, L, ca, a2);
        if (r == ST_OK) finishCall(s, L, ca);
        return r;
    }
    for (auto& x : ca->args) for (u32 j = 0; j < x.second; ++j) args.push_back(OP(F, x.first, j));
    FnInfo* fi = ca->fi;
    int bid = ca->builtin;
    if (!ca->callee) {
        if (isa<InlineAsm>(cast<CallBase>(L.I)->getCalledOperand())) {
            auto* IA = cast<InlineAsm>(cast<CallBase>(L.I)->getCalledOperand());
            if (IA->getAsmString().empty() || IA->getAsmString().find("pause") != Str::npos || IA->getAsmString().find("nop") != Str::npos) { for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = args.empty() ? CV(0) : args[0]; finishCall(s, L, ca); return ST_OK; }
            return inconcl(s, "inline asm");
        }
        const Val& t = OP(F, ca->calleeSlot, 0);
        u64 addr;
        if (t.e) {
            Expr* te = t.e; if (uninitBranch(s, te)) return ST_DEAD;
            addr = concretize(s, te);
        } else addr = t.c;
        auto it = fnByObj.find((u32)(addr >> 32));
        if (it == fnByObj.end() || (addr & 0xffffffff)) {
            Obj* o = (addr >> 32) ? getObj(s, addr >> 32) : nullptr;
            report(s, "memory", addr < 65536 ? "call through null pointer" : o && o->freed ? "call through pointer into freed memory" : "call through invalid pointer"); return ST_DEAD;
        }
        Function* fn = it->second;
        bid = builtinId(fn->getName().str());
        if (bid < 0) { if (fn->isDeclaration()) return inconcl(s, "call to external " + demName(fn->getName())); fi = infoFor(fn); }
        else {
            CallAux tmp = *ca; tmp.callee = fn; tmp.builtin = bid;
            std::vector<Val> a2(args);
            Status r = builtin(s, L, &tmp, a2);
            if (r == ST_OK) finishCall(s, L, ca);
            return r == ST_FORKED_RETRY ? ST_OK : r;
        }
    }
    if (bid >= 0) {
        std::vector<Val> a2(args);
        Status r = builtin(s, L, ca, a2);
        if (r == ST_OK) { finishCall(s, L, ca); return ST_OK; }
        return r == ST_FORKED_RETRY ? ST_OK : r;
    }
    if (!fi) return inconcl(s, "call to external " + demName(ca->callee->getName()));
    if (ca->isVarArg) { size_t fixedN = 0; for (size_t i = 0; i < ca->args.size() && i < fi->F->arg_size(); ++i) fixedN += ca->args[i].second; args.resize(fixedN); }
    // byval copies
    std::vector<u32> bv;
    size_t k = 0;
    for (size_t i = 0; i < ca->args.size(); ++i) {
        if (ca->byval[i]) {
            Obj* o = new Obj((u32)ca->byval[i], KStack, true);
            u64 ad = addObj(s, o);
            std::vector<Val> keep(args);
            if (doMemcpy(s, CV(ad), keep[k], ca->byval[i], true) != ST_OK) return ST_DEAD;
            args = keep;
            args[k] = CV(ad); bv.push_back((u32)(ad >> 32));
        }
        k += ca->args[i].second;
    }
    if (!pushFrame(s, fi, &L, args)) { report(s, "hang", "unbounded recursion"); return ST_DEAD; }
    for (u32 b : bv) s.fr.back().allocas.push_back(b);
    return ST_OK;
}


static Status step(State& s) {
    Frame& F = s.fr.back();
    LInst& L = F.fn->code[F.pc];
    const i32* ops = F.fn->opnds.data() + L.opOff;
    ++s.steps; ++statSteps;
    switch (L.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Op o = L.opc == Instruction::Add ? OAdd : L.opc == Instruction::Sub ? OSub : L.opc == Instruction::Mul ? OMul : L.opc == Instruction::And ? OAnd : L.opc == Instruction::Or ? OOr : L.opc == Instruction::Xor ? OXor : L.opc == Instruction::Shl ? OShl : L.opc == Instruction::LShr ? OLShr : OAShr;
        for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = binop(o, OP(F, ops[0], i), OP(F, ops[1], i), L.w);
        F.pc++; return ST_OK;
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        Op o = L.opc == Instruction::UDiv ? OUDiv : L.opc == Instruction::SDiv ? OSDiv : L.opc == Instruction::URem ? OURem : OSRem;
        for (u32 i = 0; i < L.n; ++i) {
            Val d = OP(F, ops[1], i);
            Expr* z = X.bin(OEq, toE(d, L.w), X.constant(0, L.w));
            int b = branch(s, z);
            if (b == 1) { report(s, "ub", "division by zero"); return ST_DEAD; }
            if (o == OSDiv || o == OSRem) {
                Val n = OP(F, ops[0], i);
                Expr* ov = X.bin(OAnd, X.bin(OEq, toE(d, L.w), X.constant(~(u128)0, L.w)), X.bin(OEq, toE(n, L.w), X.constant((u128)1 << (L.w - 1), L.w)));
                int b2 = branch(s, ov);
                if (b2 == 1) { report(s, "ub", "signed division overflow"); return ST_DEAD; }
            }
            F.regs[L.dst + i] = binop(o, OP(F, ops[0], i), d, L.w);
        }
        F.pc++; return ST_OK;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        if (L.w != 32 && L.w != 64) {
            if (L.w != 80) return inconcl(s, "fp width");
            for (u32 i = 0; i < L.n; ++i) {
                Expr *x = toE(OP(F, ops[0], i), 80), *y = toE(OP(F, ops[1], i), 80);
                if (!x->isConst() || !y->isConst()) return inconcl(s, "symbolic long double");
                long double a = 0, b = 0, r; memcpy(&a, &x->c, 10); memcpy(&b, &y->c, 10);
                r = L.opc == Instruction::FAdd ? a + b : L.opc == Instruction::FSub ? a - b : L.opc == Instruction::FMul ? a * b : L.opc == Instruction::FDiv ? a / b : fmodl(a, b);
                u128 o = 0; memcpy(&o, &r, 10); Val v; v.e = X.constant(o, 80); F.regs[L.dst + i] = v;
            }
            F.pc++; return ST_OK;
        }
        Op o = L.opc == Instruction::FAdd ? OFAdd : L.opc == Instruction::FSub ? OFSub : L.opc == Instruction::FMul ? OFMul : L.opc == Instruction::FDiv ? OFDiv : OFRem;
        for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = fromE(X.bin(o, toE(OP(F, ops[0], i), L.w), toE(OP(F, ops[1], i), L.w)));
        F.pc++; return ST_OK;
    }
    case Instruction::FNeg:
        for (u32 i = 0; i < L.n; ++i) { Expr* x = toE(OP(F, ops[0], i), L.w); F.regs[L.dst + i] = fromE(X.bin(OXor, x, X.constant((u128)1 << (L.w - 1), L.w))); }
        F.pc++; return ST_OK;
    case Instruction::ICmp:
        for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = L.w2 <= 64 ? cmpop(L.pred, OP(F, ops[0], i), OP(F, ops[1], i), L.w2) : cmpop(L.pred, Val{0, toE(OP(F, ops[0], i), L.w2)}, Val{0, toE(OP(F, ops[1], i), L.w2)}, L.w2);
        F.pc++; return ST_OK;
    case Instruction::FCmp:
        if (L.w2 == 80) {
            for (u32 i = 0; i < L.n; ++i) {
                Expr *x = toE(OP(F, ops[0], i), 80), *y = toE(OP(F, ops[1], i), 80);
                if (!x->isConst() || !y->isConst()) return inconcl(s, "symbolic long double");
                long double a = 0, b = 0; memcpy(&a, &x->c, 10); memcpy(&b, &y->c, 10); double da = a < b ? 0 : a > b ? 2 : 1, db = 1; if (std::isnan(a) || std::isnan(b)) da = NAN;
                u64 ua, ub; memcpy(&ua, &da, 8); memcpy(&ub, &db, 8);
                F.regs[L.dst + i] = fcmp(L.pred, CV(ua), CV(ub), 64);
            }
            F.pc++; return ST_OK;
        }
        for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = fcmp(L.pred, OP(F, ops[0], i), OP(F, ops[1], i), L.w2);
        F.pc++; return ST_OK;
    case Instruction::Trunc: for (u32 i = 0; i < L.n; ++i) { const Val& v = OP(F, ops[0], i); F.regs[L.dst + i] = v.e ? fromE(X.extract(v.e, 0, L.w)) : CV(v.c & m64(L.w)); } F.pc++; return ST_OK;
    case Instruction::ZExt: for (u32 i = 0; i < L.n; ++i) { const Val& v = OP(F, ops[0], i); F.regs[L.dst + i] = v.e || L.w > 64 ? fromE(X.zext(toE(v, L.w2), L.w)) : CV(v.c); } F.pc++; return ST_OK;
    case Instruction::SExt: for (u32 i = 0; i < L.n; ++i) { const Val& v = OP(F, ops[0], i); F.regs[L.dst + i] = v.e || L.w > 64 ? fromE(X.sext(toE(v, L.w2), L.w)) : CV((u64)sextv(v.c, L.w2) & m64(L.w)); } F.pc++; return ST_OK;
    case Instruction::PtrToInt: for (u32 i = 0; i < L.n; ++i) { const Val& v = OP(F, ops[0], i); F.regs[L.dst + i] = v.e ? fromE(X.extract(v.e, 0, L.w)) : CV(v.c & m64(L.w)); } F.pc++; return ST_OK;
    case Instruction::IntToPtr: for (u32 i = 0; i < L.n; ++i) { const Val& v = OP(F, ops[0], i); F.regs[L.dst + i] = v.e ? fromE(X.zext(v.e, 64)) : v; } F.pc++; return ST_OK;
    case Instruction::AddrSpaceCast: F.regs[L.dst] = OP(F, ops[0], 0); F.pc++; return ST_OK;
    case Instruction::Freeze: for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = OP(F, ops[0], i); F.pc++; return ST_OK;
    case Instruction::BitCast: {
        u32 sn = (u32)L.imm;
        if (sn == L.n) { for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = OP(F, ops[0], i); F.pc++; return ST_OK; }
        // reinterpret lanes
        if (sn > L.n) { u32 k = sn / L.n; for (u32 i = 0; i < L.n; ++i) { Expr* r = toE(OP(F, ops[0], i * k), L.w2); for (u32 j = 1; j < k; ++j) r = X.concat(toE(OP(F, ops[0], i * k + j), L.w2), r); F.regs[L.dst + i] = fromE(r); } }
        else { u32 k = L.n / sn; std::vector<Val> t; for (u32 i = 0; i < sn; ++i) { Expr* r = toE(OP(F, ops[0], i), L.w2); for (u32 j = 0; j < k; ++j) t.push_back(fromE(X.extract(r, j * L.w, L.w))); } for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = t[i]; }
        F.pc++; return ST_OK;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
        Op o = L.opc == Instruction::FPToSI ? OFToSI : L.opc == Instruction::FPToUI ? OFToUI : L.opc == Instruction::SIToFP ? OSIToF : L.opc == Instruction::UIToFP ? OUIToF : L.opc == Instruction::FPExt ? OFExt : OFTrunc;
        if (L.w == 80 || L.w2 == 80) {
            for (u32 i = 0; i < L.n; ++i) {
                Expr* x = toE(OP(F, ops[0], i), L.w2);
                if (!x->isConst()) return inconcl(s, "symbolic long double");
                if (L.w == 80) {
                    long double r = 0;
                    if (o == OFExt) { if (L.w2 == 32) { float f; u32 u = (u32)x->c; memcpy(&f, &u, 4); r = f; } else { double d; u64 u = (u64)x->c; memcpy(&d, &u, 8); r = d; } }
                    else if (o == OSIToF) r = (long double)(i64)sextv(x->c, L.w2); else r = (long double)(u64)x->c;
                    u128 ov = 0; memcpy(&ov, &r, 10); Val v; v.e = X.constant(ov, 80); F.regs[L.dst + i] = v;
                } else {
                    long double a = 0; memcpy(&a, &x->c, 10); u64 ov = 0;
                    if (o == OFTrunc) { if (L.w == 32) { float f = (float)a; memcpy(&ov, &f, 4); } else { double d = (double)a; memcpy(&ov, &d, 8); } }
                    else if (o == OFToSI) ov = (u64)(i64)a & m64(L.w); else ov = (u64)a & m64(L.w);
                    F.regs[L.dst + i] = CV(ov);
                }
            }
            F.pc++; return ST_OK;
        }
        for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = fromE(X.un(o, toE(OP(F, ops[0], i), L.w2), L.w));
        F.pc++; return ST_OK;
    }
    case Instruction::Select: {
        auto* ma = (MemAux*)L.aux;
        for (u32 i = 0; i < L.n; ++i) {
            const Val& c = OP(F, ops[0], L.imm ? i : 0);
            if (!c.e) { Val v = (c.c & 1) ? OP(F, ops[1], i) : OP(F, ops[2], i); F.regs[L.dst + i] = v; continue; }
            u32 w = ma->leaves[i].w;
            if (L.n == 1 && L.I->getType()->isPointerTy() && !hasUninit(c.e)) { bool t = concretize(s, c.e) & 1; F.regs[L.dst] = OP(F, ops[t ? 1 : 2], 0); continue; }
            F.regs[L.dst + i] = fromE(X.ite(c.e, toE(OP(F, ops[1], i), w), toE(OP(F, ops[2], i), w)));
        }
        F.pc++; return ST_OK;
    }
    case Instruction::Alloca: {
        const Val& v = OP(F, ops[0], 0);
        u64 cnt = v.e ? concretize(s, v.e) : v.c;
        u64 sz = cnt * L.imm;
        if (sz > 0x10000000) return inconcl(s, "huge alloca");
        u64 a = addObj(s, new Obj((u32)sz, KStack, true));
        F.allocas.push_back((u32)(a >> 32));
        F.regs[L.dst] = CV(a);
        F.pc++; return ST_OK;
    }
    case Instruction::Load: {
        auto* ma = (MemAux*)L.aux;
        Access a;
        Val p = OP(F, ops[0], 0);
        Status r = resolve(s, p, ma->size, false, a, "load");
        if (r != ST_OK) return r;
        for (u32 i = 0; i < L.n; ++i) {
            Val v; r = loadVal(s, a, ma->leaves[i].w, ma->leaves[i].off, v);
            if (r != ST_OK) return r;
            F.regs[L.dst + i] = v;
        }
        F.pc++; return ST_OK;
    }
    case Instruction::Store: {
        auto* ma = (MemAux*)L.aux;
        Access a;
        Val p = OP(F, ops[1], 0);
        Status r = resolve(s, p, ma->size, true, a, "store");
        if (r != ST_OK) return r;
        for (u32 i = 0; i < L.n; ++i) { r = storeVal(s, a, OP(F, ops[0], i), ma->leaves[i].w, ma->leaves[i].off); if (r != ST_OK) return r; }
        F.pc++; return ST_OK;
    }
    case Instruction::GetElementPtr: {
        auto* ga = (GepAux*)L.aux;
        if (L.n != 1) return inconcl(s, "vector gep");
        Val p = OP(F, ops[0], 0);
        bool sym = p.e != nullptr;
        for (auto& t : ga->terms) if (OP(F, t.first, 0).e) sym = true;
        if (!sym) {
            u64 v = p.c + L.imm;
            for (size_t i = 0; i < ga->terms.size(); ++i) v += (u64)((i64)sextv(OP(F, ga->terms[i].first, 0).c, ga->widths[i]) * ga->terms[i].second);
            F.regs[L.dst] = CV(v);
        } else {
            Expr* v = X.constant(0, 64);
            for (size_t i = 0; i < ga->terms.size(); ++i) {
                Expr* t = X.sext(toE(OP(F, ga->terms[i].first, 0), ga->widths[i]), 64);
                if (ga->widths[i] > 64) t = X.extract(t, 0, 64);
                v = X.bin(OAdd, v, X.bin(OMul, t, X.constant((u64)ga->terms[i].second, 64)));
            }
            v = X.bin(OAdd, X.bin(OAdd, toE(p, 64), v), X.constant((u64)L.imm, 64));
            v = simp(s, v);
            std::map<u64, Expr*> lv;
            if (!v->isConst() && !hasUninit(v) && iteLeaves(v, X.boolean(true), 0, 1, lv, 4)) v = X.constant(concretize(s, v), 64); // few targets: fork, keep pointers concrete
            F.regs[L.dst] = fromE(v);
        }
        F.pc++; return ST_OK;
    }
    case Instruction::ExtractValue: for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = OP(F, ops[0], (u32)L.imm + i); F.pc++; return ST_OK;
    case Instruction::InsertValue: {
        for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = OP(F, ops[0], i);
        for (u32 i = 0; i < L.w2; ++i) F.regs[L.dst + (u32)L.imm + i] = OP(F, ops[1], i);
        F.pc++; return ST_OK;
    }
    case Instruction::ExtractElement: { const Val& ix = OP(F, ops[1], 0); u64 i = ix.e ? concretize(s, ix.e) : ix.c; if (i >= L.n) i = 0; F.regs[L.dst] = OP(F, ops[0], (u32)i); F.pc++; return ST_OK; }
    case Instruction::InsertElement: {
        const Val& ix = OP(F, ops[2], 0); u64 k = ix.e ? concretize(s, ix.e) : ix.c;
        for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = OP(F, ops[0], i);
        if (k < L.n) F.regs[L.dst + k] = OP(F, ops[1], 0);
        F.pc++; return ST_OK;
    }
    case Instruction::ShuffleVector: {
        auto* mask = (std::vector<int>*)L.aux; u32 n1 = L.w2;
        std::vector<Val> t;
        for (u32 i = 0; i < L.n; ++i) { int m = (*mask)[i]; t.push_back(m < 0 ? CV(0) : (u32)m < n1 ? OP(F, ops[0], m) : OP(F, ops[1], m - n1)); }
        for (u32 i = 0; i < L.n; ++i) F.regs[L.dst + i] = t[i];
        F.pc++; return ST_OK;
    }
    case Instruction::Br: {
        if (L.opCnt == 0) { enterBlock(s, (u32)L.imm); return ST_OK; }
        const Val& c = OP(F, ops[0], 0);
        bool t;
        if (!c.e) t = c.c & 1;
        else {
            Expr* ce = c.e; if (uninitBranch(s, ce)) return ST_DEAD;
            int b = branch(s, ce);
            if (b < 0) return ST_DEAD;
            t = b;
        }
        enterBlock(s, t ? (u32)((u64)L.imm >> 32) : (u32)L.imm);
        return ST_OK;
    }
    case Instruction::Switch: {
        auto* sa = (SwitchAux*)L.aux;
        Val c = OP(F, ops[0], 0);
        if (c.e) { if (uninitBranch(s, c.e)) return ST_DEAD; c = fromE(c.e); }
        if (!c.e) {
            for (auto& k : sa->cases) if (k.first == c.c) { enterBlock(s, k.second); return ST_OK; }
            enterBlock(s, sa->def); return ST_OK;
        }
        // group by target
        u64 v = (u64)evalIn(s, c.e);
        u32 target = sa->def;
        for (auto& k : sa->cases) if (k.first == v) { target = k.second; break; }
        Expr* cond;
        if (target == sa->def) { cond = X.boolean(false); for (auto& k : sa->cases) if (k.second != target) cond = X.bin(OOr, cond, X.bin(OEq, c.e, X.constant(k.first, L.w2))); cond = X.not1(cond); }
        else { cond = X.boolean(false); for (auto& k : sa->cases) if (k.second == target) cond = X.bin(OOr, cond, X.bin(OEq, c.e, X.constant(k.first, L.w2))); }
        branch(s, cond);
        enterBlock(s, target);
        return ST_OK;
    }
    case LX_CALL: return doCall(s, L);
    case Instruction::Ret: {
        static thread_local std::vector<Val> rv; rv.clear();
        for (u32 i = 0; i < L.n; ++i) rv.push_back(OP(F, ops[0], i));
        LInst* ci = F.callInst;
        popFrame(s);
        if (s.fr.empty()) return ST_OK;
        if (!ci) return ST_OK; // global ctor style frame: caller handles
        auto* ca = (CallAux*)ci->aux;
        Frame& C = s.fr.back();
        if (ci->dst >= 0) for (u32 i = 0; i < rv.size() && i < ci->n; ++i) C.regs[ci->dst + i] = rv[i];
        finishCall(s, *ci, ca);
        return ST_OK;
    }
    case Instruction::Resume: {
        u64 exc = OP(F, ops[0], 0).c;
        popFrame(s);
        return unwind(s, exc);
    }
    case Instruction::Unreachable: report(s, "ub", "unreachable code reached"); return ST_DEAD;
    case Instruction::Fence: F.pc++; return ST_OK;
    case Instruction::AtomicRMW: {
        Access a; Val p = OP(F, ops[0], 0);
        if (resolve(s, p, (L.w + 7) / 8, true, a, "rmw") != ST_OK) return ST_DEAD;
        Val old; if (loadVal(s, a, L.w, 0, old) != ST_OK) return ST_DEAD;
        Val v = OP(F, ops[1], 0), nv;
        switch (L.pred) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(OAdd, old, v, L.w); break;
        case AtomicRMWInst::Sub: nv = binop(OSub, old, v, L.w); break;
        case AtomicRMWInst::And: nv = binop(OAnd, old, v, L.w); break;
        case AtomicRMWInst::Or: nv = binop(OOr, old, v, L.w); break;
        case AtomicRMWInst::Xor: nv = binop(OXor, old, v, L.w); break;
        default: return inconcl(s, "atomicrmw op");
        }
        if (storeVal(s, a, nv, L.w, 0) != ST_OK) return ST_DEAD;
        F.regs[L.dst] = old; F.pc++; return ST_OK;
    }
    case Instruction::AtomicCmpXchg: {
        Access a; Val p = OP(F, ops[0], 0);
        if (resolve(s, p, (L.w + 7) / 8, true, a, "cas") != ST_OK) return ST_DEAD;
        Val old; if (loadVal(s, a, L.w, 0, old) != ST_OK) return ST_DEAD;
        Val eq = cmpop(CmpInst::ICMP_EQ, old, OP(F, ops[1], 0), L.w);
        int b = branch(s, toE(eq, 1));
        if (b == 1) if (storeVal(s, a, OP(F, ops[2], 0), L.w, 0) != ST_OK) return ST_DEAD;
        F.regs[L.dst] = old; F.regs[L.dst + 1] = CV(b); F.pc++; return ST_OK;
    }
    case Instruction::LandingPad: return inconcl(s, "landingpad reached directly");
    case Instruction::VAArg: return inconcl(s, "va_arg");
    default: return inconcl(s, Str("unsupported instruction ") + L.I->getOpcodeName());
    }
}

// ------------------------------------------------------------------ init
static void initMemory(State& s) {
    for (auto& Fn : *M) {
        u64 a = addObj(s, [&] { auto* o = new Obj(1, KFunc, false); return o; }());
        gvAddr[&Fn] = a; fnByObj[(u32)(a >> 32)] = &Fn;
    }
    std::vector<GlobalVariable*> gs;
    for (auto& G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
        if (G.isDeclaration()) sz = std::max<u64>(sz, 256);
        auto* o = new Obj((u32)sz, KGlobal, false);
        o->ro = G.isConstant();
        gvAddr[&G] = addObj(s, o);
        gs.push_back(&G);
    }
    for (auto* G : gs) if (G->hasInitializer()) {
        u64 a = gvAddr[G]; u64 id = a >> 32;
        std::vector<Leaf> l; leavesOf(G->getValueType(), 0, l);
        Constant* C = G->getInitializer();
        if (C->isNullValue() || isa<UndefValue>(C)) continue;
        if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { StringRef r = CD->getRawDataValues(); memcpy(getObjW(s, id)->conc, r.data(), r.size()); continue; }
        std::vector<Val> v; evalConst(C, v);
        for (size_t i = 0; i < v.size() && i < l.size(); ++i) storeAt(s, id, l[i].off, v[i], l[i].w);
    }
    auto vt = [&](const char* n) -> u64 { auto* g = M->getNamedGlobal(n); return g ? gvAddr[g] : 0; };
    vt_class = vt("_ZTVN10__cxxabiv117__class_type_infoE"); vt_si = vt("_ZTVN10__cxxabiv120__si_class_type_infoE");
    vt_vmi = vt("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); vt_ptr = vt("_ZTVN10__cxxabiv119__pointer_type_infoE");
}

// Run one state until completion, fork, or death. Returns when the path has ended.
static void finishPath(State& s) {
    ++statPaths;
    if ((int)samples.size() < opt.maxSamples || (statPaths % 37 == 0 && (int)samples.size() < opt.maxSamples * 2)) {
        Sample sm; sm.inputs = concreteInputs(s);
        for (auto& o : s.observes) sm.obs.push_back(o.second ? (u64)evalIn(s, o.second) : o.first);
        sm.reached = s.reached;
        samples.push_back(sm);
    }
}
static u64 rssMB() {
    FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0;
    unsigned long a = 0, b = 0; if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f);
    return (u64)b * 4096 / 1048576;
}
static bool overTime() {
    if (now() - tStart > opt.maxTime) { timedOut = true; return true; }
    return false;
}
static void runState(StateP sp) {
    State& s = *sp;
    u64 cnt = 0;
    while (true) {
        if (s.fr.empty()) { finishPath(s); return; }
        Status r = step(s);
        if (r == ST_DEAD) return;
        if (s.steps > opt.maxSteps) { report(s, "hang", "path exceeded " + std::to_string(opt.maxSteps) + " instructions (non-termination?)"); return; }
        if ((++cnt & 0xfff) == 0) {
            if (overTime()) { work.push_back(std::move(sp)); return; }
            if ((cnt & 0xffff) == 0 && rssMB() > opt.maxForkMem) { inconclusive["memory limit"]++; ++statInconcl; timedOut = true; work.push_back(std::move(sp)); return; }
        }
    }
}

static Str jesc(const Str& s) {
    Str r;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
}
static void writeResult(const Str& path, size_t pending) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); return; }
    auto inputs = [&](auto& in) { fprintf(f, "["); bool first = true; for (auto& i : in) { fprintf(f, "%s[\"%s\",%u,%llu]", first ? "" : ",", jesc(i.first).c_str(), i.second.first, (unsigned long long)i.second.second); first = false; } fprintf(f, "]"); };
    fprintf(f, "{\"paths\":%llu,\"assume_dropped\":%llu,\"error_paths\":%llu,\"inconclusive_paths\":%llu,\"pending\":%zu,\"timed_out\":%s,\"steps\":%llu,\"forks\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"wall\":%.3f,\n",
        (unsigned long long)statPaths, (unsigned long long)statAssumeDrop, (unsigned long long)statErrPaths, (unsigned long long)statInconcl, pending, timedOut ? "true" : "false", (unsigned long long)statSteps, (unsigned long long)statForks, (unsigned long long)statAsserts, (unsigned long long)statAssertsSym, now() - tStart);
    auto& q = solver.st;
    fprintf(f, "\"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"domain_decided\":%llu,\"fp\":%llu,\"fresh\":%llu,\"time\":%.3f,\"max_time\":%.3f},\n",
        (unsigned long long)q.queries, (unsigned long long)q.sat, (unsigned long long)q.unsat, (unsigned long long)q.unknown, (unsigned long long)q.cacheHits, (unsigned long long)q.modelHits, (unsigned long long)q.domainDecided, (unsigned long long)q.fp, (unsigned long long)q.fresh, q.time, q.maxTime);
    fprintf(f, "\"reach\":{"); bool first = true;
    for (auto& r : reachLabels) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
    fprintf(f, "},\n\"inconclusive\":{"); first = true;
    for (auto& r : inconclusive) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
    fprintf(f, "},\n\"violations\":["); first = true;
    for (auto& kv : violations) {
        auto& v = kv.second;
        fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"tag\":\"%s\",\"stack\":[", first ? "" : ",\n", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.tag).c_str());
        for (size_t i = 0; i < v.stack.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(v.stack[i]).c_str());
        fprintf(f, "],\"inputs\":"); inputs(v.inputs); fprintf(f, "}"); first = false;
    }
    fprintf(f, "],\n\"samples\":["); first = true;
    for (auto& v : samples) {
        fprintf(f, "%s{\"inputs\":", first ? "" : ",\n"); inputs(v.inputs);
        fprintf(f, ",\"obs\":["); for (size_t i = 0; i < v.obs.size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)v.obs[i]);
        fprintf(f, "],\"reached\":["); for (size_t i = 0; i < v.reached.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(v.reached[i]).c_str());
        fprintf(f, "]}"); first = false;
    }
    fprintf(f, "],\n\"functions\":["); first = true;
    for (auto& kv : fnInfos) {
        FnInfo* fi = kv.second; if (!fi->executed) continue;
        u32 cov = 0; for (auto& b : fi->blocks) if (b.covered) ++cov;
        Str file = "?"; if (auto* SP = fi->F->getSubprogram()) file = SP->getFilename().str() + ":" + std::to_string(SP->getLine());
        fprintf(f, "%s[\"%s\",\"%s\",%u,%zu,%llu]", first ? "" : ",\n", jesc(demName(fi->name)).c_str(), jesc(file).c_str(), cov, fi->blocks.size(), (unsigned long long)fi->executed); first = false;
    }
    // source lines of the code under test that were executed symbolically
    std::map<Str, std::set<u32>> lines;
    for (auto& kv : fnInfos) for (auto& b : kv.second->blocks) if (b.covered) for (u32 i = b.first; i < b.last; ++i) {
        const Instruction* I = kv.second->code[i].I; if (!I) continue;
        for (const DILocation* l = I->getDebugLoc().get(); l; l = l->getInlinedAt()) { StringRef fn = l->getFilename(); if (fn.contains("/repo/")) lines[fn.str()].insert(l->getLine()); }
    }
    fprintf(f, "],\n\"lines\":{"); first = true;
    for (auto& kv : lines) { fprintf(f, "%s\"%s\":[", first ? "" : ",", jesc(kv.first).c_str()); bool f2 = true; for (u32 l : kv.second) { fprintf(f, "%s%u", f2 ? "" : ",", l); f2 = false; } fprintf(f, "]"); first = false; }
    fprintf(f, "}}\n");
    fclose(f);
}

static bool stopNow() { return opt.stopOnViolation && !violations.empty(); }

// Workers share the exploration by forking: a worker with pending states hands the older half to a new process
// whenever a slot is free.
struct Shared { std::atomic<int> active; std::atomic<int> nextId; };
static Shared* shared = nullptr;
static int workerId = 0;
static void resetStats();
static void beginWorker(int id) {
    workerId = id;
    resetStats();
    for (auto& kv : fnInfos) { kv.second->executed = 0; for (auto& b : kv.second->blocks) b.covered = false; }
}
static void maybeSplit() {
    static double last = 0;
    if (!shared || work.size() < 2 || shared->active.load(std::memory_order_relaxed) >= opt.jobs) return;
    double t = now();
    if (t - last < 0.03) return;
    last = t;
    if (shared->active.fetch_add(1) >= opt.jobs) { shared->active.fetch_sub(1); return; }
    int id = shared->nextId.fetch_add(1);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { shared->active.fetch_sub(1); shared->nextId.fetch_sub(1); return; }
    size_t half = work.size() / 2;
    if (p == 0) { beginWorker(id); work.resize(half); last = now(); }
    else work.erase(work.begin(), work.begin() + half);
}
static void exploreAll() {
    while (!work.empty() && !timedOut && !stopNow()) {
        maybeSplit();
        StateP s = std::move(work.back()); work.pop_back();
        runState(std::move(s));
        if (overTime()) break;
    }
}

static void resetStats() {
    statPaths = statAssumeDrop = statSteps = statForks = statAsserts = statAssertsSym = statErrPaths = statInconcl = 0;
    solver.st = SolverStats();
    reachLabels.clear(); inconclusive.clear(); samples.clear(); violations.clear();
}

int main(int argc, char** argv) {
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (rlim_t)1 << 30 && !getenv("NSX_STACK")) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? ((rlim_t)1 << 30) : std::min<rlim_t>(rl.rlim_max, (rlim_t)1 << 30);
        setrlimit(RLIMIT_STACK, &rl); setenv("NSX_STACK", "1", 1); execv("/proc/self/exe", argv);
    }
    std::vector<Str> files;
    for (int i = 1; i < argc; ++i) {
        Str a = argv[i];
        auto nx = [&] { return Str(argv[++i]); };
        if (a == "--time") opt.maxTime = atof(nx().c_str());
        else if (a == "--steps") opt.maxSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--mem") opt.maxForkMem = strtoull(nx().c_str(), 0, 10);
        else if (a == "--jobs") opt.jobs = atoi(nx().c_str());
        else if (a == "--qtimeout") opt.queryTimeout = atoi(nx().c_str());
        else if (a == "--out") opt.out = nx();
        else if (a == "--entry") opt.entry = nx();
        else if (a == "--param") opt.params.push_back(atoll(nx().c_str()));
        else if (a == "--trace") opt.trace = true;
        else if (a == "--conc-addr") opt.concAddr = true;
        else if (a == "--no-uninit") opt.checkUninit = false;
        else if (a == "--stop") opt.stopOnViolation = true;
        else if (a == "--samples") opt.maxSamples = atoi(nx().c_str());
        else files.push_back(a);
    }
    tStart = now();
    SMDiagnostic err;
    for (auto& fnm : files) {
        auto m = parseIRFile(fnm, err, LCtx);
        if (!m) { fprintf(stderr, "cannot load %s: %s\n", fnm.c_str(), err.getMessage().str().c_str()); return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed %s\n", fnm.c_str()); return 2; }
    }
    DL = &M->getDataLayout();
    solver.timeoutMs = opt.queryTimeout;
    solver.init();
    auto st = std::make_unique<State>();
    st->nextObj = 16; st->modelId = modelIdGen++;
    initMemory(*st);
    // global constructors
    struct Ctor { u32 prio; u32 ord; Function* f; };
    std::vector<Ctor> ctors;
    if (auto* G = M->getNamedGlobal("llvm.global_ctors")) if (auto* A = dyn_cast_or_null<ConstantArray>(G->getInitializer())) {
        u32 o = 0;
        for (auto& op : A->operands()) { auto* CS = cast<ConstantStruct>(op); if (auto* Fn = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) ctors.push_back({(u32)cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), o++, Fn}); }
    }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.prio < b.prio; });
    for (auto& c : ctors) {
        if (c.f->isDeclaration()) continue;
        pushFrame(*st, infoFor(c.f), nullptr, {});
        while (!st->fr.empty()) { if (step(*st) == ST_DEAD) { fprintf(stderr, "global constructor failed\n"); writeResult(opt.out + ".0.json", 1); return 2; } }
        if (!work.empty()) { fprintf(stderr, "fork in global ctor\n"); return 2; }
    }
    st->steps = 0; st->liveHeap = 0;
    Function* E = M->getFunction(opt.entry);
    if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 2; }
    pushFrame(*st, infoFor(E), nullptr, {});
    work.push_back(std::move(st));
    if (opt.jobs <= 1) {
        exploreAll();
        writeResult(opt.out + ".0.json", work.size());
        return 0;
    }
    shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shared->active = 1; shared->nextId = 1;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    fflush(stdout); fflush(stderr);
    pid_t p0 = fork();
    if (p0 == 0) {
        beginWorker(0);
        exploreAll();
        writeResult(opt.out + "." + std::to_string(workerId) + ".json", work.size());
        shared->active.fetch_sub(1);
        _exit(0);
    }
    size_t died = 0;
    for (;;) {
        int stt; pid_t p = wait(&stt);
        if (p < 0) { if (errno == EINTR) continue; break; }
        if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { ++died; shared->active.fetch_sub(1); fprintf(stderr, "a worker died (status %d)\n", stt); }
    }
    { FILE* f = fopen((opt.out + ".meta").c_str(), "w"); fprintf(f, "{\"batches\":%d,\"skipped\":0,\"died\":%zu}\n", shared->nextId.load(), died); fclose(f); }
    return 0;
}
