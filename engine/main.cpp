// llsym: a symbolic executor for LLVM bitcode (as rustc and clang emit it), with Z3 deciding branches and assertions.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/InlineAsm.h>
#include <unistd.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <map>
#include <set>
#include <deque>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/resource.h>

using namespace llvm;
typedef std::chrono::steady_clock Clock;

static ExprCtx *X;
static const DataLayout *DL;
static Module *M;

// ---------------------------------------------------------------------------------------------- values
struct Val {
    E e = nullptr;
    u128 c = 0;
    uint32_t w = 0;                                    // 0: aggregate (or void)
    std::shared_ptr<std::vector<Val>> agg;
    bool sym() const { return e != nullptr; }
};
static Val mkc(u128 c, unsigned w) { Val v; v.c = trunc(c, w); v.w = w; return v; }
static Val mke(E e) { Val v; v.w = e->w; if (e->op == CONST) v.c = e->c; else v.e = e; return v; }
static E toE(const Val &v) { return v.e ? v.e : X->con(v.c, v.w); }
static Val mkagg(std::vector<Val> &&x) { Val v; v.agg = std::make_shared<std::vector<Val>>(std::move(x)); return v; }

struct Obj {
    uint64_t base = 0, size = 0;
    uint32_t align = 1;
    char kind = 'h';        // h heap, s stack, g global
    bool ro = false, freed = false;
    char api = 0;           // r: __rust_alloc, m: malloc
    std::vector<uint8_t> b, st;   // st: 0 concrete, 1 symbolic, 2 uninitialised; empty = all concrete
    std::vector<E> s;
    uint32_t allocId = 0;
};
typedef std::shared_ptr<Obj> ObjRef;

struct FInfo {
    const Function *f;
    unsigned nslots = 0;
    std::string name, dem;
    int handler = -1;       // index of an intercept, -1: none, -2: not yet known
};

struct Frame {
    FInfo *fi = nullptr;
    const BasicBlock *prev = nullptr;
    const Instruction *pc = nullptr;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
    const CallBase *call = nullptr;   // in the caller
    bool isTry = false;
    bool isCleanup = false;
};
typedef std::shared_ptr<Frame> FrameRef;

// Vector clocks (up to 4 threads): who has seen what of whom.
static const int NT = 4;
struct Clk {
    uint16_t c[NT] = {0, 0, 0, 0};
    void join(const Clk &o) { for (int i = 0; i < NT; i++) c[i] = std::max(c[i], o.c[i]); }
};
// Last accesses of a byte by each thread: plain and atomic writes and reads.
struct Shadow { uint16_t w[NT] = {0}, r[NT] = {0}, aw[NT] = {0}, ar[NT] = {0}; };
typedef std::shared_ptr<std::vector<Shadow>> ShadowRef;

struct Thread {
    Clk clk, acq, rel;      // own clock; what relaxed loads read (for acquire fences); the clock at the last release fence
    std::vector<FrameRef> stack;
    bool done = false, joining = false, atVisible = false;
    int panics = 0;
    std::vector<Val> payloads;   // of the panics under way, empty for those without one (resume_unwind has one)
};

// variables whose value is settled on a path, and what expressions become with them
struct Pins { std::unordered_map<uint32_t, u128> v; std::unordered_map<E, E> memo; };

struct Input { std::string name; std::vector<uint32_t> vars; };

struct State {
    std::vector<Thread> th;
    int cur = 0;
    std::map<uint64_t, ObjRef> mem;
    std::vector<E> cons;
    std::shared_ptr<Model> model;
    std::shared_ptr<Pins> pins;
    std::vector<Input> inputs;
    std::vector<Val> logs;
    uint64_t heapNext = 0x100000000ULL, stackNext = 0x7f0000000000ULL;
    int64_t live = 0;
    uint64_t allocs = 0;
    bool abortOk = false;
    bool schedDone = false;
    int preempt = 0;
    uint64_t steps = 0;
    uint32_t nconc = 0;
    std::vector<int> sched;
    std::map<uint64_t, ShadowRef> shadow;              // per object, once there is more than one thread
    std::map<uint64_t, Clk> sync;                      // per atomic location: what an acquire load of it sees
    uint64_t ownStack = 0;                             // stack objects from here on belong to one thread
    std::map<std::pair<const GlobalVariable *, int>, uint64_t> tls;
    std::map<std::string, int> names;
    bool assertedSomething = false;
    int vis = 0;                                       // scheduling points passed
    std::string panicAt;
};
static std::map<std::string, std::string> fixedInputs;
static std::vector<int> fixedSched;
static bool haveFixedSched = false;

// ---------------------------------------------------------------------------------------------- globals of the run
struct Violation { std::string kind, msg, where; Model model; std::vector<Input> inputs; std::vector<int> sched; };
static std::vector<Violation> violations;
static std::map<std::string, uint64_t> engineErrors;
static std::map<std::string, uint64_t> covers;
struct Sample { std::vector<Input> inputs; Model model; std::vector<u128> logs; std::string outcome; };
static std::vector<Sample> samples;
static uint64_t nPaths = 0, nInstr = 0, nForks = 0, nQueries = 0, nSat = 0, nUnsat = 0, nUnknown = 0, nModelHits = 0, nCacheHits = 0, nAsserts = 0, nAborts = 0, nAssumeKill = 0, nSched = 0;
static double solverTime = 0;
static std::string incomplete;
static std::set<const Function *> executed;
static uint64_t maxSteps = 20000000, maxPaths = 2000000, maxConc = 4096;
static int maxPreempt = 1000;
static double timeLimit = 600;
static unsigned queryMs = 60000;
static size_t maxSamples = 8, maxViol = 12;
static Clock::time_point t0;
static double now() { return std::chrono::duration<double>(Clock::now() - t0).count(); }

struct PathEnd { std::string why; };       // thrown to end the current path
struct EngineError { std::string what; };  // unsupported construct
struct Retry {};                           // re-execute the current instruction

static std::vector<std::unique_ptr<State>> work;

// ---------------------------------------------------------------------------------------------- solver
static Z3_solver solver;
static Z3_solver newSolver() {
    Z3_symbol lg = Z3_mk_string_symbol(X->zc, "QF_BV");
    Z3_solver s = Z3_mk_solver_for_logic(X->zc, lg);
    Z3_solver_inc_ref(X->zc, s);
    Z3_params p = Z3_mk_params(X->zc);
    Z3_params_inc_ref(X->zc, p);
    Z3_params_set_uint(X->zc, p, Z3_mk_string_symbol(X->zc, "timeout"), queryMs);
    Z3_solver_set_params(X->zc, s, p);
    Z3_params_dec_ref(X->zc, p);
    return s;
}
static std::vector<std::shared_ptr<Model>> recent;    // models of earlier queries, tried before the solver
static size_t recentAt = 0;
static uint64_t nReuse = 0;
static std::unordered_map<std::string, int> qcache;   // 0 unsat, 1 sat (model not kept), used for unsat only

// 1 sat (m updated), 0 unsat, -1 unknown
static int check(const std::vector<E> &cons, E extra, Model &m) {
    if (extra->op == CONST && !extra->c) return 0;
    // slice: constraints sharing variables with extra, transitively
    std::vector<E> sl;
    {
        std::unordered_set<uint32_t> vs(X->varsOf(extra)->begin(), X->varsOf(extra)->end());
        std::vector<bool> in(cons.size(), false);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < cons.size(); i++) if (!in[i]) {
                auto &v = X->varsOf(cons[i]);
                bool hit = false;
                for (uint32_t x : *v) if (vs.count(x)) { hit = true; break; }
                if (hit) { in[i] = true; ch = true; vs.insert(v->begin(), v->end()); }
            }
        }
        for (size_t i = 0; i < cons.size(); i++) if (in[i]) sl.push_back(cons[i]);
    }
    std::vector<uint32_t> ids;
    for (E e : sl) ids.push_back(e->id);
    ids.push_back(extra->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    std::string key((const char *)ids.data(), ids.size() * 4);
    auto it = qcache.find(key);
    if (it != qcache.end() && it->second == 0) { nCacheHits++; return 0; }
    for (auto &c : recent) {
        Evaluator ev(*c);
        if (!ev.ev(extra)) continue;
        bool ok = true;
        for (E e : sl) if (!ev.ev(e)) { ok = false; break; }
        if (!ok) continue;
        for (E e : sl) for (uint32_t v : *X->varsOf(e)) { auto i = c->find(v); m[v] = i == c->end() ? 0 : i->second; }
        for (uint32_t v : *X->varsOf(extra)) { auto i = c->find(v); m[v] = i == c->end() ? 0 : i->second; }
        nReuse++;
        return 1;
    }
    nQueries++;
    if (getenv("SE_DUMP")) { fprintf(stderr, "--- query\n"); for (E e : sl) fprintf(stderr, "  %s\n", Z3_ast_to_string(X->zc, X->boolOf(e))); fprintf(stderr, "? %s\n", Z3_ast_to_string(X->zc, X->boolOf(extra))); }
    auto a = Clock::now();
    // one incremental solver for the many small queries; a fresh one, with the bit-vector tactic, for what it cannot do quickly
    static Z3_solver quick = nullptr;
    static int quickUses = 0;
    if (quick && ++quickUses > 3000) { Z3_solver_dec_ref(X->zc, quick); quick = nullptr; }
    if (!quick) {
        quickUses = 0;
        quick = Z3_mk_simple_solver(X->zc);
        Z3_solver_inc_ref(X->zc, quick);
        Z3_params p = Z3_mk_params(X->zc);
        Z3_params_inc_ref(X->zc, p);
        Z3_params_set_uint(X->zc, p, Z3_mk_string_symbol(X->zc, "timeout"), 300);
        Z3_solver_set_params(X->zc, quick, p);
        Z3_params_dec_ref(X->zc, p);
        Z3_solver_push(X->zc, quick);
    } else { Z3_solver_pop(X->zc, quick, 1); Z3_solver_push(X->zc, quick); }
    Z3_solver s = quick;
    for (E e : sl) Z3_solver_assert(X->zc, s, X->boolOf(e));
    Z3_solver_assert(X->zc, s, X->boolOf(extra));
    Z3_lbool r = Z3_solver_check(X->zc, s);
    if (r == Z3_L_UNDEF) {
        s = newSolver();
        for (E e : sl) Z3_solver_assert(X->zc, s, X->boolOf(e));
        Z3_solver_assert(X->zc, s, X->boolOf(extra));
        r = Z3_solver_check(X->zc, s);
    }
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) {
        Z3_model zm = Z3_solver_get_model(X->zc, s);
        Z3_model_inc_ref(X->zc, zm);
        std::unordered_set<uint32_t> vs;
        for (E e : sl) for (uint32_t v : *X->varsOf(e)) vs.insert(v);
        for (uint32_t v : *X->varsOf(extra)) vs.insert(v);
        for (uint32_t v : vs) {
            unsigned w = X->vars[v].w;
            Z3_ast c = Z3_mk_const(X->zc, Z3_mk_int_symbol(X->zc, (int)v), Z3_mk_bv_sort(X->zc, w)), o;
            if (Z3_model_eval(X->zc, zm, c, true, &o)) {
                u128 val = 0;
                uint64_t u = 0;
                if (w <= 64 && Z3_get_numeral_uint64(X->zc, o, &u)) val = u;
                else { const char *str = Z3_get_numeral_string(X->zc, o); for (; *str; str++) val = val * 10 + (*str - '0'); }
                m[v] = val;
            }
        }
        Z3_model_dec_ref(X->zc, zm);
        nSat++;
        Evaluator ev(m);
        for (E e : sl) if (!ev.ev(e)) throw EngineError{"model does not satisfy a constraint (encoding error)"};
        if (!ev.ev(extra)) throw EngineError{"model does not satisfy the query (encoding error)"};
        auto keep = std::make_shared<Model>(m);
        if (recent.size() < 24) recent.push_back(keep); else recent[recentAt++ % 24] = keep;
    } else if (res == 0) { nUnsat++; qcache[key] = 0; }
    else nUnknown++;
    if (s != quick) Z3_solver_dec_ref(X->zc, s);
    solverTime += std::chrono::duration<double>(Clock::now() - a).count();
    return res;
}

static bool settled(E e, u128 v, std::unordered_map<uint32_t, u128> &out) {
    switch (e->op) {
    case VAR: out[(uint32_t)e->c] = v; return true;
    case CONCAT: return settled(e->k[0], v >> e->k[1]->w, out) & settled(e->k[1], trunc(v, e->k[1]->w), out);
    case ZEXT: return settled(e->k[0], trunc(v, e->k[0]->w), out);
    default: return false;
    }
}
static E rebuild(Pins &p, E e) {
    if (e->op == CONST) return e;
    if (e->op == VAR) { auto it = p.v.find((uint32_t)e->c); return it == p.v.end() ? e : X->con(it->second, e->w); }
    auto it = p.memo.find(e);
    if (it != p.memo.end()) return it->second;
    bool any = false;
    for (uint32_t v : *X->varsOf(e)) if (p.v.count(v)) { any = true; break; }
    E r = e;
    if (any) {
        E a = rebuild(p, e->k[0]), b = e->k[1] ? rebuild(p, e->k[1]) : nullptr, c = e->k[2] ? rebuild(p, e->k[2]) : nullptr;
        switch (e->op) {
        case ITE: r = X->ite(a, b, c); break;
        case CONCAT: r = X->concat(a, b); break;
        case EXTRACT: r = X->extract(a, (unsigned)e->c, e->w); break;
        case ZEXT: r = X->zext(a, e->w); break;
        case SEXT: r = X->sext(a, e->w); break;
        default: r = X->bin(e->op, a, b);
        }
    }
    p.memo[e] = r;
    return r;
}
static E subst(State &st, E e) { return st.pins ? rebuild(*st.pins, e) : e; }
static void assume(State &st, E c) {
    if (c->op == CONST) return;
    if (c->op == EQ && c->k[1]->op == CONST) {
        std::unordered_map<uint32_t, u128> m;
        settled(c->k[0], c->k[1]->c, m);
        if (!m.empty()) {
            auto n = std::make_shared<Pins>();
            if (st.pins) n->v = st.pins->v;
            for (auto &x : m) n->v.insert(x);
            st.pins = n;
        }
    }
    if (c->op == AND && c->w == 1) { assume(st, c->k[0]); assume(st, c->k[1]); return; }
    st.cons.push_back(c);
}
static u128 evalM(State &st, E e) { if (e->op == CONST) return e->c; Evaluator ev(*st.model); return ev.ev(e); }

static std::unique_ptr<State> forkState(State &st) {
    nForks++;
    auto o = std::make_unique<State>(st);
    // the running frame is referred to by the code that forks: it stays st's own
    auto &s = o->th[o->cur].stack;
    if (!s.empty()) s.back() = std::make_shared<Frame>(*s.back());
    return o;
}

// ---------------------------------------------------------------------------------------------- locations
static std::string demangled(const std::string &n) {
    std::string d = llvm::demangle(n);
    size_t p = d.rfind("::h");
    if (p != std::string::npos && d.size() - p == 19) d = d.substr(0, p);
    return d;
}
static std::map<const Function *, FInfo *> finfos;
static std::map<const Value *, unsigned> slotOf_;
static std::unordered_map<const Value *, unsigned> slots;
static FInfo *finfo(const Function *f) {
    auto &fi = finfos[f];
    if (!fi) {
        fi = new FInfo;
        fi->f = f;
        fi->name = f->getName().str();
        fi->dem = demangled(fi->name);
        for (auto &a : f->args()) slots[&a] = fi->nslots++;
        for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) slots[&i] = fi->nslots++;
        fi->handler = -2;
    }
    return fi;
}
static std::string locOf(const Instruction *i) {
    if (auto &dl = i->getDebugLoc()) {
        auto *sc = cast<DIScope>(dl.getScope());
        std::string fn = sc->getFilename().str();
        return fn + ":" + std::to_string(dl.getLine());
    }
    return "?";
}
static std::string trace(State &st) {
    std::string r;
    int n = 0;
    auto &stack = st.th[st.cur].stack;
    for (size_t i = stack.size(); i-- > 0 && n < 12; n++) {
        r += (n ? " <- " : "") + stack[i]->fi->dem;
        std::string l = locOf(stack[i]->pc);
        if (l != "?") r += " (" + l + ")";
    }
    return r;
}

static void report(State &st, const std::string &kind, const std::string &msg, const Model &m) {
    int same = 0;
    for (auto &v : violations) if (v.kind == kind && v.msg == msg) same++;
    if (same >= 3 || violations.size() >= maxViol) return;
    std::string w = trace(st);
    violations.push_back({kind, msg, w.empty() ? st.panicAt : w, m, st.inputs, st.sched});
}
[[noreturn]] static void fail(State &st, const std::string &kind, const std::string &msg) {
    report(st, kind, msg, *st.model);
    throw PathEnd{"violation"};
}

// Does the value of e really depend on what the uninitialised bytes it mentions hold?
static std::unordered_map<uint32_t, E> twin;
static E twinOf(E e, std::unordered_map<E, E> &memo) {
    if (!e->undef) return e;
    if (e->op == VAR) { auto &t = twin[(uint32_t)e->c]; if (!t) t = X->var("uninit'", e->w, true); return t; }
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E a = twinOf(e->k[0], memo), b = e->k[1] ? twinOf(e->k[1], memo) : nullptr, c = e->k[2] ? twinOf(e->k[2], memo) : nullptr, r;
    switch (e->op) {
    case ITE: r = X->ite(a, b, c); break;
    case CONCAT: r = X->concat(a, b); break;
    case EXTRACT: r = X->extract(a, (unsigned)e->c, e->w); break;
    case ZEXT: r = X->zext(a, e->w); break;
    case SEXT: r = X->sext(a, e->w); break;
    default: r = X->bin(e->op, a, b);
    }
    return memo[e] = r;
}
static bool reallyUndef(State &st, E e) {
    if (!e->undef) return false;
    std::unordered_map<E, E> memo;
    E ne = X->lnot(X->bin(EQ, e, twinOf(e, memo)));
    auto m = std::make_shared<Model>(*st.model);
    if (check(st.cons, ne, *m) == 0) return false;
    st.model = m;
    return true;
}

// decides a 1-bit expression on this path; forks if both sides are possible
static bool branch(State &st, E c, bool pcStays = true) {
    c = subst(st, c);
    if (c->op == CONST) return c->c;
    if (reallyUndef(st, c)) {
        fail(st, "uninit", "control flow depends on uninitialised memory");
    }
    bool v = evalM(st, c);
    E cT = v ? c : X->lnot(c), cF = v ? X->lnot(c) : c;
    nModelHits++;
    auto m = std::make_shared<Model>(*st.model);
    int r = check(st.cons, cF, *m);
    if (r == 0) return v;
    if (r < 0) { incomplete = "solver gave unknown"; engineErrors["solver unknown"]++; }
    else {
        auto o = forkState(st);
        assume(*o, cF);
        o->model = m;
        work.push_back(std::move(o));
    }
    assume(st, cT);
    return v;
}
static u128 concretize(State &st, const Val &v) {
    if (!v.sym()) return v.c;
    E ve = subst(st, v.e);
    if (ve->op == CONST) return ve->c;
    if (reallyUndef(st, ve)) fail(st, "uninit", "address, size or callee depends on uninitialised memory");
    u128 a = evalM(st, ve);
    E eq = X->bin(EQ, ve, X->con(a, v.w));
    auto m = std::make_shared<Model>(*st.model);
    int r = check(st.cons, X->lnot(eq), *m);
    if (r == 0) return a;
    if (r < 0) { incomplete = "solver gave unknown"; engineErrors["solver unknown"]++; }
    else {
        if (++st.nconc > maxConc) throw EngineError{"too many values when enumerating an address, size or index"};
        auto o = forkState(st);
        assume(*o, X->lnot(eq));
        o->model = m;
        work.push_back(std::move(o));
    }
    assume(st, eq);
    return a;
}

// ---------------------------------------------------------------------------------------------- memory
static std::vector<ObjRef> globalsByAddr;
static std::map<const GlobalValue *, uint64_t> gaddr;
static std::map<uint64_t, const Function *> faddr;

static Obj *findObj(State &st, uint64_t a, bool write) {
    auto it = st.mem.upper_bound(a);
    if (it != st.mem.begin()) {
        --it;
        Obj *o = it->second.get();
        if (a - o->base < std::max<uint64_t>(o->size, 1) || a == o->base + o->size) {
            // one past the end only counts when nothing else starts there (never: gaps)
            if (write && it->second.use_count() > 1) { it->second = std::make_shared<Obj>(*o); o = it->second.get(); }
            return o;
        }
    }
    auto g = std::upper_bound(globalsByAddr.begin(), globalsByAddr.end(), a, [](uint64_t x, const ObjRef &o) { return x < o->base; });
    if (g != globalsByAddr.begin()) {
        --g;
        Obj *o = g->get();
        if (a - o->base <= o->size) {
            if (write) { auto n = std::make_shared<Obj>(*o); st.mem[n->base] = n; return n.get(); }
            return o;
        }
    }
    return nullptr;
}
static Obj *newObj(State &st, uint64_t size, uint64_t align, char kind, char api = 0) {
    auto o = std::make_shared<Obj>();
    if (align == 0) align = 1;
    uint64_t &next = kind == 's' ? st.stackNext : st.heapNext;
    uint64_t b = next + 16;
    b = (b + 2 * align - 1) / (2 * align) * (2 * align) + align;   // aligned to `align`, and to nothing more
    o->base = b; o->size = size; o->align = align; o->kind = kind; o->api = api;
    next = b + size + 16;
    o->b.assign(size, 0);
    o->st.assign(size, 2);
    st.mem[b] = o;
    return o.get();
}
static std::string hex(uint64_t v) { char t[32]; snprintf(t, sizeof t, "0x%llx", (unsigned long long)v); return t; }

// the object that [addr, addr+size) lies in; reports a violation otherwise. addr concrete.
static Obj *access(State &st, uint64_t a, uint64_t size, bool write, const char *what) {
    Obj *o = findObj(st, a, write);
    if (!o) {
        if (faddr.count(a)) fail(st, "memory", std::string(what) + " of a function's code");
        fail(st, "memory", std::string(what) + " at an address outside every live object");
    }
    if (o->freed) fail(st, "memory", std::string(what) + " of freed memory (use after free)");
    if (a - o->base + size > o->size) fail(st, "memory", std::string(what) + " out of bounds of its object (size " + std::to_string(o->size) + ", offset " + std::to_string(a - o->base) + ", length " + std::to_string(size) + ")");
    if (write && o->ro) fail(st, "memory", "write to read-only memory");
    return o;
}
// Records an access of the current thread, and reports a data race: two accesses by different threads to the same
// byte, one of them a write, not both atomic, neither happening before the other.
static bool atomicAccess = false, noRaces = false;
static void raceCheck(State &st, uint64_t a, uint64_t n, bool write) {
    if (st.th.size() < 2 || !n || noRaces) return;
    Obj *o = findObj(st, a, false);
    if (!o || o->ro || (o->kind == 's' && o->base >= st.ownStack)) return;
    auto &ref = st.shadow[o->base];
    if (!ref) ref = std::make_shared<std::vector<Shadow>>(std::max<uint64_t>(o->size, 1));
    else if (ref.use_count() > 1) ref = std::make_shared<std::vector<Shadow>>(*ref);
    int t = st.cur;
    const Clk &c = st.th[t].clk;
    for (uint64_t i = 0; i < n; i++) {
        Shadow &s = (*ref)[a - o->base + i];
        for (int u = 0; u < NT; u++) if (u != t) {
            bool bad = s.w[u] > c.c[u] || (!atomicAccess && s.aw[u] > c.c[u]) || (write && (s.r[u] > c.c[u] || (!atomicAccess && s.ar[u] > c.c[u])));
            if (bad) fail(st, "race", std::string("data race: ") + (write ? "write" : "read") + (atomicAccess ? " (atomic)" : "") + " of memory that another thread accesses at the same time");
        }
        (atomicAccess ? (write ? s.aw : s.ar) : (write ? s.w : s.r))[t] = c.c[t];
    }
}
static bool acquires(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static bool releases(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static void syncLoad(State &st, uint64_t a, AtomicOrdering o) {
    auto it = st.sync.find(a);
    if (it == st.sync.end()) return;
    Thread &t = st.th[st.cur];
    if (acquires(o)) t.clk.join(it->second); else t.acq.join(it->second);
}
static void syncStore(State &st, uint64_t a, AtomicOrdering o, bool rmw) {
    Thread &t = st.th[st.cur];
    Clk l;
    if (rmw) { auto it = st.sync.find(a); if (it != st.sync.end()) l = it->second; }   // a release sequence goes on
    l.join(releases(o) ? t.clk : t.rel);
    st.sync[a] = l;
    if (releases(o)) t.clk.c[st.cur]++;
}
static void syncFence(State &st, AtomicOrdering o) {
    if (st.th.size() < 2) return;
    Thread &t = st.th[st.cur];
    if (acquires(o)) t.clk.join(t.acq);
    if (releases(o)) { t.rel = t.clk; t.clk.c[st.cur]++; }
}
static E byteAt(State &st, Obj *&o, uint64_t off) {
    if (o->st.empty() || o->st[off] == 0) return X->con(o->b[off], 8);
    if (o->st[off] == 1) return o->s[off];
    // uninitialised: an arbitrary value that stays the same from now on
    if (o->s.empty()) o->s.resize(o->size);
    o = findObj(st, o->base, true);
    if (o->s.empty()) o->s.resize(o->size);
    o->s[off] = X->var("uninit", 8, true);
    o->st[off] = 1;
    return o->s[off];
}
static void setByte(Obj *o, uint64_t off, E e) {
    if (e->op == CONST) { o->b[off] = (uint8_t)e->c; if (!o->st.empty()) o->st[off] = 0; return; }
    if (o->st.empty()) o->st.assign(o->size, 0);
    if (o->s.empty()) o->s.resize(o->size);
    o->st[off] = 1; o->s[off] = e;
}
static Val loadBytes(State &st, Obj *o, uint64_t off, unsigned nbytes, unsigned w) {
    bool conc = true;
    if (!o->st.empty()) for (unsigned i = 0; i < nbytes; i++) if (o->st[off + i]) { conc = false; break; }
    if (conc) {
        u128 v = 0;
        for (unsigned i = 0; i < nbytes; i++) v |= (u128)o->b[off + i] << (8 * i);
        return mkc(v, w);
    }
    E e = byteAt(st, o, off);
    for (unsigned i = 1; i < nbytes; i++) e = X->concat(byteAt(st, o, off + i), e);
    return mke(X->extract(e, 0, w));
}
static void storeBytes(Obj *o, uint64_t off, unsigned nbytes, const Val &v) {
    if (!v.sym()) {
        for (unsigned i = 0; i < nbytes; i++) { o->b[off + i] = (uint8_t)(v.c >> (8 * i)); }
        if (!o->st.empty()) memset(&o->st[off], 0, nbytes);
        return;
    }
    E e = X->zext(v.e, nbytes * 8);
    for (unsigned i = 0; i < nbytes; i++) setByte(o, off + i, X->extract(e, i * 8, 8));
}

// Symbolic address: pins down the object (forking), returns it, and the symbolic offset stays symbolic.
static Obj *resolve(State &st, const Val &p0, uint64_t size, bool write, const char *what, uint64_t maxObj, bool &concrete, uint64_t &off) {
    Val p = p0;
    if (p.sym()) { E e = subst(st, p.e); if (e->op == CONST) p = mkc(e->c, 64); else p.e = e; }
    if (!p.sym()) {
        Obj *o = access(st, (uint64_t)p.c, size, write, what);
        concrete = true; off = (uint64_t)p.c - o->base;
        return o;
    }
    if (reallyUndef(st, p.e)) fail(st, "uninit", "pointer depends on uninitialised memory");
    uint64_t a = (uint64_t)evalM(st, p.e);
    Obj *o = findObj(st, a, false);
    if (!o || o->freed || a - o->base + size > o->size) {
        // this model makes it an invalid access: it is reported, and the rest of the values goes on
        report(st, "memory", std::string(what) + " out of bounds", *st.model);
        E eq = X->bin(EQ, p.e, X->con(a, 64));
        auto m = std::make_shared<Model>(*st.model);
        // find values that stay inside some object: exclude everything outside the nearest one is hard; exclude this value only
        if (check(st.cons, X->lnot(eq), *m) == 1 && ++st.nconc < 64) { assume(st, X->lnot(eq)); st.model = m; throw Retry{}; }
        throw PathEnd{"violation"};
    }
    E lo = X->bin(ULE, X->con(o->base, 64), p.e), hi = X->bin(ULE, p.e, X->con(o->base + o->size - size, 64));
    E in = X->bin(AND, lo, hi);
    auto m = std::make_shared<Model>(*st.model);
    int r = check(st.cons, X->lnot(in), *m);
    if (r < 0) { incomplete = "solver gave unknown"; engineErrors["solver unknown"]++; }
    if (r == 1) {
        auto other = forkState(st);
        assume(*other, X->lnot(in));
        other->model = m;
        work.push_back(std::move(other));
        assume(st, in);
    }
    if (o->size > maxObj) {
        uint64_t v = (uint64_t)concretize(st, p);
        o = findObj(st, v, write);
        concrete = true; off = v - o->base;
    } else {
        if (write) o = findObj(st, a, true);
        concrete = false; off = 0;
    }
    if (write && o->ro) fail(st, "memory", "write to read-only memory");
    return o;
}

static Val loadScalar(State &st, const Val &p, unsigned w, const char *what) {
    unsigned n = (w + 7) / 8;
    bool conc; uint64_t off;
    Obj *o = resolve(st, p, n, false, what, 256, conc, off);
    if (st.th.size() > 1) raceCheck(st, conc ? o->base + off : (uint64_t)evalM(st, p.e), n, false);
    if (conc) return loadBytes(st, o, off, n, w);
    E r = nullptr;
    uint64_t base = o->base;
    for (uint64_t k = 0; k + n <= o->size; k++) {
        E cond = X->bin(EQ, p.e, X->con(base + k, 64));
        if (cond->op == CONST && !cond->c) continue;
        Val v = loadBytes(st, o, k, n, w);
        o = findObj(st, base, false);
        r = r ? X->ite(cond, toE(v), r) : toE(v);
    }
    return mke(r);
}
static void storeScalar(State &st, const Val &p, const Val &v, unsigned w) {
    unsigned n = (w + 7) / 8;
    bool conc; uint64_t off;
    Obj *o = resolve(st, p, n, true, "write", 128, conc, off);
    if (st.th.size() > 1) raceCheck(st, conc ? o->base + off : (uint64_t)evalM(st, p.e), n, true);
    if (conc) { storeBytes(o, off, n, v); return; }
    E e = X->zext(toE(v), n * 8);
    std::vector<E> nv(o->size);
    uint64_t base = o->base;
    for (uint64_t k = 0; k < o->size; k++) nv[k] = byteAt(st, o, k);
    for (uint64_t k = 0; k + n <= o->size; k++) {
        E cond = X->bin(EQ, p.e, X->con(base + k, 64));
        for (unsigned i = 0; i < n; i++) nv[k + i] = X->ite(cond, X->extract(e, i * 8, 8), nv[k + i]);
    }
    o = findObj(st, base, true);
    for (uint64_t k = 0; k < o->size; k++) setByte(o, k, nv[k]);
}

static unsigned bitsOf(Type *t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isHalfTy()) return 16;
    if (t->isFP128Ty()) return 128;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static Val padd(const Val &p, uint64_t d) {
    if (!d) return p;
    if (!p.sym()) return mkc(p.c + d, 64);
    return mke(X->bin(ADD, p.e, X->con(d, 64)));
}
static Val load(State &st, const Val &p, Type *t, const char *what = "read") {
    if (unsigned w = bitsOf(t)) {
        if (w > 128) throw EngineError{"integer wider than 128 bits"};
        return loadScalar(st, p, w, what);
    }
    std::vector<Val> r;
    if (auto *s = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) r.push_back(load(st, padd(p, sl->getElementOffset(i)), s->getElementType(i), what));
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (uint64_t i = 0; i < a->getNumElements(); i++) r.push_back(load(st, padd(p, i * es), a->getElementType(), what));
    } else if (auto *v = dyn_cast<FixedVectorType>(t)) {
        unsigned ew = bitsOf(v->getElementType());
        if (ew % 8) {
            unsigned tot = ew * v->getNumElements();
            if (tot > 128) throw EngineError{"wide bit vector"};
            Val x = loadScalar(st, p, tot, what);
            for (unsigned i = 0; i < v->getNumElements(); i++) r.push_back(mke(X->extract(toE(x), i * ew, ew)));
        } else
            for (unsigned i = 0; i < v->getNumElements(); i++) r.push_back(loadScalar(st, padd(p, i * (ew / 8)), ew, what));
    } else throw EngineError{"load of an unsupported type"};
    return mkagg(std::move(r));
}
static void store(State &st, const Val &p, const Val &v, Type *t) {
    if (unsigned w = bitsOf(t)) { if (w > 128) throw EngineError{"integer wider than 128 bits"}; storeScalar(st, p, v, w); return; }
    if (auto *s = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) store(st, padd(p, sl->getElementOffset(i)), (*v.agg)[i], s->getElementType(i));
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (uint64_t i = 0; i < a->getNumElements(); i++) store(st, padd(p, i * es), (*v.agg)[i], a->getElementType());
    } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        unsigned ew = bitsOf(vt->getElementType());
        if (ew % 8) {
            E e = toE((*v.agg)[0]);
            for (unsigned i = 1; i < vt->getNumElements(); i++) e = X->concat(toE((*v.agg)[i]), e);
            storeScalar(st, p, mke(e), e->w);
        } else
            for (unsigned i = 0; i < vt->getNumElements(); i++) storeScalar(st, padd(p, i * (ew / 8)), (*v.agg)[i], ew);
    } else throw EngineError{"store of an unsupported type"};
}
static void checkAlign(State &st, const Val &p, uint64_t al) {
    if (al <= 1) return;
    if (!p.sym()) { if ((uint64_t)p.c % al) fail(st, "memory", "misaligned access"); return; }
    E low = X->bin(AND, p.e, X->con(al - 1, 64));
    E ok = X->bin(EQ, low, X->con(0, 64));
    if (ok->op == CONST && ok->c) return;
    auto m = std::make_shared<Model>(*st.model);
    if (!evalM(st, ok)) fail(st, "memory", "misaligned access");
    if (check(st.cons, X->lnot(ok), *m) == 1) { report(st, "memory", "misaligned access", *m); assume(st, ok); }
}
static void copyMem(State &st, uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    Obj *so = access(st, s, n, false, "read (copy)");
    Obj *dd = access(st, d, n, true, "write (copy)");
    if (st.th.size() > 1) { raceCheck(st, s, n, false); raceCheck(st, d, n, true); }
    so = findObj(st, s, false);   // may have moved
    uint64_t sof = s - so->base, dof = d - dd->base;
    std::vector<uint8_t> b(so->b.begin() + sof, so->b.begin() + sof + n), t;
    std::vector<E> e;
    if (!so->st.empty()) {
        t.assign(so->st.begin() + sof, so->st.begin() + sof + n);
        if (!so->s.empty()) e.assign(so->s.begin() + sof, so->s.begin() + sof + n);
    }
    memcpy(&dd->b[dof], b.data(), n);
    if (t.empty()) { if (!dd->st.empty()) memset(&dd->st[dof], 0, n); }
    else {
        if (dd->st.empty()) dd->st.assign(dd->size, 0);
        memcpy(&dd->st[dof], t.data(), n);
        if (!e.empty()) {
            if (dd->s.empty()) dd->s.resize(dd->size);
            for (uint64_t i = 0; i < n; i++) dd->s[dof + i] = e[i];
        }
    }
}

// ---------------------------------------------------------------------------------------------- constants
static Val freshUndef(Type *t) {
    if (unsigned w = bitsOf(t)) return mke(X->var("undef", w, true));
    std::vector<Val> r;
    if (auto *s = dyn_cast<StructType>(t)) for (auto *x : s->elements()) r.push_back(freshUndef(x));
    else if (auto *a = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < a->getNumElements(); i++) r.push_back(freshUndef(a->getElementType()));
    else if (auto *v = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < v->getNumElements(); i++) r.push_back(freshUndef(v->getElementType()));
    return mkagg(std::move(r));
}
static Val zeroOf(Type *t) {
    if (unsigned w = bitsOf(t)) return mkc(0, w);
    std::vector<Val> r;
    if (auto *s = dyn_cast<StructType>(t)) for (auto *x : s->elements()) r.push_back(zeroOf(x));
    else if (auto *a = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < a->getNumElements(); i++) r.push_back(zeroOf(a->getElementType()));
    else if (auto *v = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < v->getNumElements(); i++) r.push_back(zeroOf(v->getElementType()));
    return mkagg(std::move(r));
}
static Val castOp(unsigned opc, const Val &v, Type *from, Type *to);
static Val evalConst(State *st, const Constant *c);
static u128 apint(const APInt &a) {
    u128 v = a.getRawData()[0];
    if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
    if (a.getNumWords() > 2) throw EngineError{"constant wider than 128 bits"};
    return v;
}
static std::unordered_map<const Constant *, Val> constCache;
static bool cacheable(const Constant *c) {
    if (isa<UndefValue>(c)) return false;
    if (auto *g = dyn_cast<GlobalVariable>(c)) return !g->isThreadLocal();
    for (auto &o : c->operands()) if (auto *k = dyn_cast<Constant>(o)) if (!isa<GlobalValue>(k) || isa<GlobalVariable>(k)) if (!cacheable(k)) return false;
    return true;
}
static Val binop(State *st, unsigned opc, const Val &a, const Val &b);
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b);
static Val gepOf(State *st, const GEPOperator *g, std::function<Val(const Value *)> get) {
    Val p = get(g->getPointerOperand());
    if (!p.w) throw EngineError{"vector gep"};
    u128 off = 0; E soff = nullptr;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        const Value *ix = it.getOperand();
        if (auto *s = it.getStructTypeOrNull()) { off += DL->getStructLayout(s)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
        uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
        Val i = get(ix);
        if (!i.sym()) off += (u128)sx(i.c, i.w) * es;
        else {
            E x = i.w < 64 ? X->sext(i.e, 64) : X->extract(i.e, 0, 64);
            E t = X->bin(MUL, x, X->con(es, 64));
            soff = soff ? X->bin(ADD, soff, t) : t;
        }
    }
    if (!soff && !p.sym()) return mkc(p.c + off, 64);
    E r = X->bin(ADD, toE(p), X->con(off, 64));
    if (soff) r = X->bin(ADD, r, soff);
    return mke(r);
}
static uint64_t tlsAddr(State &st, const GlobalVariable *g) {
    if (st.cur == 0) return gaddr.at(g);
    auto key = std::make_pair(g, st.cur);
    auto it = st.tls.find(key);
    if (it != st.tls.end()) return it->second;
    // a fresh copy of the initial image
    const Obj *src = nullptr;
    for (auto &o : globalsByAddr) if (o->base == gaddr.at(g)) src = o.get();
    Obj *n = newObj(st, src->size, src->align, 'g');
    n->b = src->b; n->st = src->st; n->s = src->s;
    st.tls[key] = n->base;
    return n->base;
}
static Val evalConstRaw(State *st, const Constant *c) {
    Type *t = c->getType();
    if (auto *i = dyn_cast<ConstantInt>(c)) return mkc(apint(i->getValue()), bitsOf(t));
    if (isa<ConstantPointerNull>(c)) return mkc(0, 64);
    if (isa<UndefValue>(c)) return freshUndef(t);
    if (auto *g = dyn_cast<GlobalVariable>(c)) {
        if (st && g->isThreadLocal()) return mkc(tlsAddr(*st, g), 64);
        return mkc(gaddr.at(g), 64);
    }
    if (auto *g = dyn_cast<GlobalAlias>(c)) return evalConst(st, g->getAliasee());
    if (auto *g = dyn_cast<GlobalValue>(c)) return mkc(gaddr.at(g), 64);
    if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (auto *f = dyn_cast<ConstantFP>(c)) return mkc(apint(f->getValueAPF().bitcastToAPInt()), bitsOf(t));
    if (auto *a = dyn_cast<ConstantAggregate>(c)) {
        std::vector<Val> r;
        for (auto &o : a->operands()) r.push_back(evalConst(st, cast<Constant>(o)));
        return mkagg(std::move(r));
    }
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> r;
        for (unsigned i = 0; i < d->getNumElements(); i++) r.push_back(evalConst(st, d->getElementAsConstant(i)));
        return mkagg(std::move(r));
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (auto *g = dyn_cast<GEPOperator>(ce)) return gepOf(st, g, [&](const Value *v) { return evalConst(st, cast<Constant>(v)); });
        if (ce->isCast()) return castOp(ce->getOpcode(), evalConst(st, ce->getOperand(0)), ce->getOperand(0)->getType(), t);
        if (ce->getOpcode() == Instruction::ICmp) return icmp((CmpInst::Predicate)ce->getPredicate(), evalConst(st, ce->getOperand(0)), evalConst(st, ce->getOperand(1)));
        if (Instruction::isBinaryOp(ce->getOpcode())) return binop(st, ce->getOpcode(), evalConst(st, ce->getOperand(0)), evalConst(st, ce->getOperand(1)));
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    throw EngineError{"unsupported constant " + s.substr(0, 100)};
}
static Val evalConst(State *st, const Constant *c) {
    auto it = constCache.find(c);
    if (it != constCache.end()) return it->second;
    Val v = evalConstRaw(st, c);
    if (cacheable(c)) constCache[c] = v;
    return v;
}

// ---------------------------------------------------------------------------------------------- operations
static Val binop1(State *st, unsigned opc, const Val &a, const Val &b) {
    Op op;
    bool div = false;
    switch (opc) {
    case Instruction::Add: op = ADD; break;
    case Instruction::Sub: op = SUB; break;
    case Instruction::Mul: op = MUL; break;
    case Instruction::UDiv: op = UDIV; div = true; break;
    case Instruction::SDiv: op = SDIV; div = true; break;
    case Instruction::URem: op = UREM; div = true; break;
    case Instruction::SRem: op = SREM; div = true; break;
    case Instruction::And: op = AND; break;
    case Instruction::Or: op = OR; break;
    case Instruction::Xor: op = XOR; break;
    case Instruction::Shl: op = SHL; break;
    case Instruction::LShr: op = LSHR; break;
    case Instruction::AShr: op = ASHR; break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        if (a.sym() || b.sym()) throw EngineError{"symbolic floating point"};
        if (a.w == 64) {
            double x, y, r; uint64_t xa = (uint64_t)a.c, yb = (uint64_t)b.c; memcpy(&x, &xa, 8); memcpy(&y, &yb, 8);
            r = opc == Instruction::FAdd ? x + y : opc == Instruction::FSub ? x - y : opc == Instruction::FMul ? x * y : x / y;
            uint64_t o; memcpy(&o, &r, 8); return mkc(o, 64);
        } else {
            float x, y, r; uint32_t xa = (uint32_t)a.c, yb = (uint32_t)b.c; memcpy(&x, &xa, 4); memcpy(&y, &yb, 4);
            r = opc == Instruction::FAdd ? x + y : opc == Instruction::FSub ? x - y : opc == Instruction::FMul ? x * y : x / y;
            uint32_t o; memcpy(&o, &r, 4); return mkc(o, 32);
        }
    }
    default: throw EngineError{"unsupported binary operation"};
    }
    if (div && st) {
        E z = X->bin(EQ, toE(b), X->con(0, b.w));
        if (z->op == CONST ? z->c : branch(*st, z)) fail(*st, "ub", "division by zero");
    }
    if (!a.sym() && !b.sym()) { u128 r; ExprCtx::evalOp(op, a.w, a.w, a.c, b.c, r); return mkc(r, a.w); }
    return mke(X->bin(op, toE(a), toE(b)));
}
static Val binop(State *st, unsigned opc, const Val &a, const Val &b) {
    if (a.w) return binop1(st, opc, a, b);
    std::vector<Val> r;
    for (size_t i = 0; i < a.agg->size(); i++) r.push_back(binop1(st, opc, (*a.agg)[i], (*b.agg)[i]));
    return mkagg(std::move(r));
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
    if (!a.w) {
        std::vector<Val> r;
        for (size_t i = 0; i < a.agg->size(); i++) r.push_back(icmp(p, (*a.agg)[i], (*b.agg)[i]));
        return mkagg(std::move(r));
    }
    if (!a.sym() && !b.sym()) {
        u128 r = 0;
        switch (p) {
        case CmpInst::ICMP_EQ: r = a.c == b.c; break;
        case CmpInst::ICMP_NE: r = a.c != b.c; break;
        case CmpInst::ICMP_ULT: r = a.c < b.c; break;
        case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
        case CmpInst::ICMP_UGT: r = a.c > b.c; break;
        case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
        case CmpInst::ICMP_SLT: r = sx(a.c, a.w) < sx(b.c, b.w); break;
        case CmpInst::ICMP_SLE: r = sx(a.c, a.w) <= sx(b.c, b.w); break;
        case CmpInst::ICMP_SGT: r = sx(a.c, a.w) > sx(b.c, b.w); break;
        case CmpInst::ICMP_SGE: r = sx(a.c, a.w) >= sx(b.c, b.w); break;
        default: throw EngineError{"icmp predicate"};
        }
        return mkc(r, 1);
    }
    E x = toE(a), y = toE(b);
    switch (p) {
    case CmpInst::ICMP_EQ: return mke(X->bin(EQ, x, y));
    case CmpInst::ICMP_NE: return mke(X->lnot(X->bin(EQ, x, y)));
    case CmpInst::ICMP_ULT: return mke(X->bin(ULT, x, y));
    case CmpInst::ICMP_ULE: return mke(X->bin(ULE, x, y));
    case CmpInst::ICMP_UGT: return mke(X->bin(ULT, y, x));
    case CmpInst::ICMP_UGE: return mke(X->bin(ULE, y, x));
    case CmpInst::ICMP_SLT: return mke(X->bin(SLT, x, y));
    case CmpInst::ICMP_SLE: return mke(X->bin(SLE, x, y));
    case CmpInst::ICMP_SGT: return mke(X->bin(SLT, y, x));
    case CmpInst::ICMP_SGE: return mke(X->bin(SLE, y, x));
    default: throw EngineError{"icmp predicate"};
    }
}
static double asDouble(const Val &v) {
    if (v.sym()) throw EngineError{"symbolic floating point"};
    if (v.w == 64) { uint64_t u = (uint64_t)v.c; double d; memcpy(&d, &u, 8); return d; }
    uint32_t u = (uint32_t)v.c; float f; memcpy(&f, &u, 4); return f;
}
static Val fromDouble(double d, unsigned w) {
    if (w == 64) { uint64_t u; memcpy(&u, &d, 8); return mkc(u, 64); }
    float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return mkc(u, 32);
}
static Val fcmp(CmpInst::Predicate p, const Val &a, const Val &b) {
    double x = asDouble(a), y = asDouble(b);
    bool un = x != x || y != y, r;
    switch (p) {
    case CmpInst::FCMP_OEQ: r = !un && x == y; break;
    case CmpInst::FCMP_OGT: r = !un && x > y; break;
    case CmpInst::FCMP_OGE: r = !un && x >= y; break;
    case CmpInst::FCMP_OLT: r = !un && x < y; break;
    case CmpInst::FCMP_OLE: r = !un && x <= y; break;
    case CmpInst::FCMP_ONE: r = !un && x != y; break;
    case CmpInst::FCMP_ORD: r = !un; break;
    case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_UEQ: r = un || x == y; break;
    case CmpInst::FCMP_UGT: r = un || x > y; break;
    case CmpInst::FCMP_UGE: r = un || x >= y; break;
    case CmpInst::FCMP_ULT: r = un || x < y; break;
    case CmpInst::FCMP_ULE: r = un || x <= y; break;
    case CmpInst::FCMP_UNE: r = un || x != y; break;
    default: throw EngineError{"fcmp"};
    }
    return mkc(r, 1);
}
static E bitsVal(const Val &v, Type *t) {
    if (v.w) return toE(v);
    auto *vt = dyn_cast<FixedVectorType>(t);
    if (!vt) throw EngineError{"bitcast of an aggregate"};
    E e = toE((*v.agg)[0]);
    for (size_t i = 1; i < v.agg->size(); i++) {
        if (e->w + (*v.agg)[i].w > 128) throw EngineError{"bitcast wider than 128 bits"};
        e = X->concat(toE((*v.agg)[i]), e);
    }
    return e;
}
static Val castOp(unsigned opc, const Val &v, Type *from, Type *to) {
    if (!v.w && opc != Instruction::BitCast) {
        std::vector<Val> r;
        for (auto &x : *v.agg) r.push_back(castOp(opc, x, from->getScalarType(), to->getScalarType()));
        return mkagg(std::move(r));
    }
    unsigned w = bitsOf(to);
    switch (opc) {
    case Instruction::Trunc: return v.sym() ? mke(X->extract(v.e, 0, w)) : mkc(v.c, w);
    case Instruction::ZExt: if (w > 128) throw EngineError{"integer wider than 128 bits"}; return v.sym() ? mke(X->zext(v.e, w)) : mkc(v.c, w);
    case Instruction::SExt: if (w > 128) throw EngineError{"integer wider than 128 bits"}; return v.sym() ? mke(X->sext(v.e, w)) : mkc((u128)sx(v.c, v.w), w);
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (w == v.w) return v;
        if (w < v.w) return v.sym() ? mke(X->extract(v.e, 0, w)) : mkc(v.c, w);
        return v.sym() ? mke(X->zext(v.e, w)) : mkc(v.c, w);
    case Instruction::AddrSpaceCast: return v;
    case Instruction::BitCast: {
        if (v.w && w) return v;
        if (auto *vf = dyn_cast<FixedVectorType>(from)) if (auto *vo = dyn_cast<FixedVectorType>(to)) {
            // regrouped, element by element, so that wide vectors are no wide integers
            unsigned fw = bitsOf(vf->getElementType()), ow = bitsOf(vo->getElementType());
            if (fw == ow) return v;
            if (fw % ow == 0 || ow % fw == 0) {
                std::vector<Val> r;
                if (fw > ow) for (auto &x : *v.agg) for (unsigned i = 0; i < fw / ow; i++) r.push_back(mke(X->extract(toE(x), i * ow, ow)));
                else for (size_t i = 0; i < v.agg->size(); i += ow / fw) {
                    E e = toE((*v.agg)[i]);
                    for (size_t j = 1; j < ow / fw; j++) e = X->concat(toE((*v.agg)[i + j]), e);
                    r.push_back(mke(e));
                }
                return mkagg(std::move(r));
            }
        }
        E e = bitsVal(v, from);
        if (w) return mke(X->extract(e, 0, w));
        auto *vt = dyn_cast<FixedVectorType>(to);
        if (!vt) throw EngineError{"bitcast to an aggregate"};
        unsigned ew = bitsOf(vt->getElementType());
        std::vector<Val> r;
        for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(mke(X->extract(e, i * ew, ew)));
        return mkagg(std::move(r));
    }
    case Instruction::FPExt: case Instruction::FPTrunc: return fromDouble(asDouble(v), w);
    case Instruction::UIToFP: if (v.sym()) throw EngineError{"symbolic floating point"}; return fromDouble((double)v.c, w);
    case Instruction::SIToFP: if (v.sym()) throw EngineError{"symbolic floating point"}; return fromDouble((double)sx(v.c, v.w), w);
    case Instruction::FPToUI: return mkc((u128)asDouble(v), w);
    case Instruction::FPToSI: return mkc((u128)(s128)asDouble(v), w);
    }
    throw EngineError{"unsupported cast"};
}
static Val selectVal(const Val &c, const Val &a, const Val &b) {
    if (!c.w) {
        std::vector<Val> r;
        for (size_t i = 0; i < c.agg->size(); i++) r.push_back(selectVal((*c.agg)[i], (*a.agg)[i], (*b.agg)[i]));
        return mkagg(std::move(r));
    }
    if (!c.sym()) return c.c ? a : b;
    if (a.w) return mke(X->ite(c.e, toE(a), toE(b)));
    std::vector<Val> r;
    for (size_t i = 0; i < a.agg->size(); i++) r.push_back(selectVal(c, (*a.agg)[i], (*b.agg)[i]));
    return mkagg(std::move(r));
}
static Val lnotV(const Val &v) { return v.sym() ? mke(X->lnot(v.e)) : mkc(~v.c, v.w); }
static Val bop(Op op, const Val &a, const Val &b) { return mke(X->bin(op, toE(a), toE(b))); }

// ---------------------------------------------------------------------------------------------- frames
static Frame &top(State &st) {
    auto &f = st.th[st.cur].stack.back();
    if (f.use_count() > 1) f = std::make_shared<Frame>(*f);
    return *f;
}
static Val get(State &st, Frame &f, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return evalConst(&st, c);
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return Val();
    Val &r = f.regs[slots.at(v)];
    if (st.pins && r.sym() && X->varsOf(r.e)->size() <= 24) {
        E e = rebuild(*st.pins, r.e);
        if (e != r.e) r = mke(e);
    }
    return r;
}
static void setReg(Frame &f, const Value *v, Val x) { f.regs[slots.at(v)] = std::move(x); }

static void gotoBB(State &st, Frame &f, const BasicBlock *from, const BasicBlock *to) {
    f.prev = from;
    const Instruction *i = &to->front();
    std::vector<std::pair<const Value *, Val>> vs;
    while (auto *p = dyn_cast<PHINode>(i)) {
        vs.push_back({p, get(st, f, p->getIncomingValueForBlock(from))});
        i = i->getNextNode();
    }
    for (auto &x : vs) setReg(f, x.first, std::move(x.second));
    f.pc = i;
}
static void popAllocas(State &st, Frame &f) { for (uint64_t a : f.allocas) st.mem.erase(a); }

static void finishCall(State &st, Frame &f, const CallBase *cb, Val v) {
    if (!cb->getType()->isVoidTy()) setReg(f, cb, std::move(v));
    if (auto *inv = dyn_cast<InvokeInst>(cb)) gotoBB(st, f, inv->getParent(), inv->getNormalDest());
    else f.pc = cb->getNextNode();
}
// The System V x86-64 convention below LLVM's types, for calls whose caller and callee (clang and rustc) were given
// different LLVM types for the same C types: every scalar goes to an integer register, an SSE register or a stack slot.
static void leaves(Type *t, std::vector<Type *> &out) {
    if (bitsOf(t)) out.push_back(t);
    else if (auto *v = dyn_cast<FixedVectorType>(t)) {
        if (DL->getTypeSizeInBits(v) > 64) throw EngineError{"a wide vector is passed between different signatures"};
        out.push_back(t);
    } else if (auto *s = dyn_cast<StructType>(t)) for (auto *x : s->elements()) leaves(x, out);
    else if (auto *a = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), out);
}
static void leafVals(const Val &v, Type *t, std::vector<Val> &out) {
    if (bitsOf(t)) out.push_back(v);
    else if (isa<FixedVectorType>(t)) {
        E e = nullptr;
        for (auto &x : *v.agg) e = e ? X->concat(toE(x), e) : toE(x);
        out.push_back(mke(e));
    } else if (auto *s = dyn_cast<StructType>(t)) for (unsigned i = 0; i < s->getNumElements(); i++) leafVals((*v.agg)[i], s->getElementType(i), out);
    else if (auto *a = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < a->getNumElements(); i++) leafVals((*v.agg)[i], a->getElementType(), out);
}
static Val resize(const Val &v, unsigned w) {
    if (v.w == w) return v;
    if (v.w > w) return v.sym() ? mke(X->extract(v.e, 0, w)) : mkc(v.c, w);
    return v.sym() ? mke(X->zext(v.e, w)) : mkc(v.c, w);
}
static Val fromLeaves(Type *t, const std::vector<Val> &in, size_t &k) {
    if (unsigned w = bitsOf(t)) return resize(in[k++], w);
    std::vector<Val> r;
    if (auto *v = dyn_cast<FixedVectorType>(t)) {
        Val x = resize(in[k++], DL->getTypeSizeInBits(v));
        unsigned w = bitsOf(v->getElementType());
        for (unsigned i = 0; i < v->getNumElements(); i++) r.push_back(x.sym() ? mke(X->extract(x.e, i * w, w)) : mkc(x.c >> (i * w), w));
    } else if (auto *s = dyn_cast<StructType>(t)) for (auto *x : s->elements()) r.push_back(fromLeaves(x, in, k));
    else if (auto *a = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < a->getNumElements(); i++) r.push_back(fromLeaves(a->getElementType(), in, k));
    return mkagg(std::move(r));
}
static bool isSSE(Type *t) { return t->isFloatTy() || t->isDoubleTy() || isa<FixedVectorType>(t); }
struct Place { char kind; uint64_t at; };           // 'i' register, 's' SSE register, 'm' stack offset
struct Places {
    unsigned ints = 0, sses = 0, maxInts, maxSses; uint64_t stack = 0;
    Places(unsigned i, unsigned s) : maxInts(i), maxSses(s) {}
    Place next(Type *t) {
        if (isSSE(t) ? sses < maxSses : ints < maxInts) return isSSE(t) ? Place{'s', sses++} : Place{'i', ints++};
        stack += 8;
        return {'m', stack - 8};
    }
    Place memory(uint64_t size, uint64_t align) {
        stack = (stack + std::max<uint64_t>(align, 8) - 1) / std::max<uint64_t>(align, 8) * std::max<uint64_t>(align, 8);
        uint64_t a = stack;
        stack += (size + 7) / 8 * 8;
        return {'m', a};
    }
};
static Val reshapeRet(const Val &v, Type *from, Type *to) {
    std::vector<Type *> lf, lt; std::vector<Val> vs, out;
    leaves(from, lf); leaves(to, lt); leafVals(v, from, vs);
    Places pf(2, 2), pt(2, 2);
    std::map<std::pair<char, uint64_t>, Val> m;
    for (size_t i = 0; i < lf.size(); i++) { Place p = pf.next(lf[i]); m[{p.kind, p.at}] = vs[i]; }
    for (auto *t : lt) {
        Place p = pt.next(t);
        auto it = m.find({p.kind, p.at});
        if (it == m.end()) throw EngineError{"call signature mismatch (return value)"};
        out.push_back(it->second);
    }
    size_t k = 0;
    return fromLeaves(to, out, k);
}

static bool sameShape(const Val &v, Type *t) {
    if (unsigned w = bitsOf(t)) return v.w == w;
    if (v.w || !v.agg) return false;
    if (auto *s = dyn_cast<StructType>(t)) {
        if (s->getNumElements() != v.agg->size()) return false;
        for (unsigned i = 0; i < s->getNumElements(); i++) if (!sameShape((*v.agg)[i], s->getElementType(i))) return false;
        return true;
    }
    if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() == v.agg->size();
    if (auto *x = dyn_cast<FixedVectorType>(t)) return x->getNumElements() == v.agg->size();
    return false;
}

// pushes a frame for f; args as passed at the call
static void pushFrame(State &st, const Function *f, std::vector<Val> args, const CallBase *cb, bool isTry = false) {
    if (f->isDeclaration()) throw EngineError{"call of an unsupported external function " + f->getName().str()};
    auto &stack = st.th[st.cur].stack;
    if (stack.size() > 600) throw EngineError{"call depth exceeds 600"};
    FInfo *fi = finfo(f);
    executed.insert(f);
    auto fr = std::make_shared<Frame>();
    fr->fi = fi;
    fr->regs.resize(fi->nslots);
    fr->call = cb;
    fr->isTry = isTry;
    bool direct = !cb || isTry || cb->getFunctionType() == f->getFunctionType() || f->isVarArg();
    if (direct && cb && !isTry) for (auto &a : f->args()) if (a.hasByValAttr() != cb->isByValArgument(a.getArgNo())) direct = false;
    if (direct) { unsigned i = 0; for (auto &a : f->args()) if (i >= args.size() || !sameShape(args[i++], a.getType())) throw EngineError{"call signature mismatch calling " + fi->dem}; }
    if (!direct) {
        if (!cb || f->isVarArg()) throw EngineError{"call signature mismatch calling " + fi->dem};
        struct Slot { Val v; uint64_t src = 0, size = 0; };      // a scalar, or the memory of a by-value argument
        std::map<std::pair<char, uint64_t>, Slot> m;
        Places pf(6, 8), pt(6, 8);
        for (unsigned i = 0; i < args.size(); i++) {
            if (cb->isByValArgument(i)) {
                uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
                Place p = pf.memory(sz, cb->getParamAlign(i) ? cb->getParamAlign(i)->value() : 8);
                m[{p.kind, p.at}] = Slot{Val(), (uint64_t)concretize(st, args[i]), sz};
                continue;
            }
            std::vector<Type *> l; std::vector<Val> vs;
            leaves(cb->getArgOperand(i)->getType(), l); leafVals(args[i], cb->getArgOperand(i)->getType(), vs);
            for (size_t j = 0; j < l.size(); j++) { Place p = pf.next(l[j]); m[{p.kind, p.at}] = Slot{vs[j]}; }
        }
        std::vector<Val> out;
        for (auto &a : f->args()) {
            auto find = [&](Place p) -> Slot & {
                auto it = m.find({p.kind, p.at});
                if (it == m.end()) throw EngineError{"call signature mismatch calling " + fi->dem};
                return it->second;
            };
            if (a.hasByValAttr()) {
                uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
                Slot &sl = find(pt.memory(sz, a.getParamAlign() ? a.getParamAlign()->value() : 8));
                if (sl.size) { if (sl.size != sz) throw EngineError{"call signature mismatch calling " + fi->dem}; out.push_back(mkc(sl.src, 64)); continue; }
                if (sz > 8) throw EngineError{"call signature mismatch calling " + fi->dem};
                Obj *o = newObj(st, 8, 8, 's');
                fr->allocas.push_back(o->base);
                uint64_t b = o->base;
                storeBytes(findObj(st, b, true), 0, 8, resize(sl.v, 64));
                out.push_back(mkc(b, 64));
                continue;
            }
            std::vector<Type *> l; std::vector<Val> vs;
            leaves(a.getType(), l);
            for (auto *t : l) {
                Slot &sl = find(pt.next(t));
                if (sl.size) throw EngineError{"call signature mismatch calling " + fi->dem};
                vs.push_back(sl.v);
            }
            size_t k = 0;
            out.push_back(fromLeaves(a.getType(), vs, k));
        }
        if (pf.ints != pt.ints || pf.sses != pt.sses || pf.stack != pt.stack) throw EngineError{"call signature mismatch calling " + fi->dem};
        args = std::move(out);
    }
    unsigned i = 0;
    for (auto &a : f->args()) {
        Val v = args[i];
        if (a.hasByValAttr()) {
            Type *bt = a.getParamByValType();
            uint64_t sz = DL->getTypeAllocSize(bt);
            uint64_t al = std::max<uint64_t>(a.getParamAlign() ? a.getParamAlign()->value() : 8, 1);
            uint64_t src = (uint64_t)concretize(st, v);
            Obj *o = newObj(st, sz, al, 's');
            fr->allocas.push_back(o->base);
            uint64_t b = o->base;
            copyMem(st, b, src, sz);
            v = mkc(b, 64);
        }
        fr->regs[slots.at(&a)] = std::move(v);
        i++;
    }
    fr->pc = &f->getEntryBlock().front();
    stack.push_back(fr);
}

static const GlobalVariable *gPanicCount = nullptr;
static void setPanicCount(State &st, uint64_t n) {
    if (!gPanicCount) return;
    Obj *o = findObj(st, gaddr.at(gPanicCount), true);
    storeBytes(o, 0, 8, mkc(n, 64));
}
static void endAbort(State &st, const std::string &why) {
    nAborts++;
    if (!st.abortOk) fail(st, "abort", "the process aborts: " + why);
    throw PathEnd{"abort"};
}
// unwinds from the current top frame (which has raised) until an invoke, or a try frame
static void unwind(State &st) {
    auto &t = st.th[st.cur];
    while (true) {
        if (t.stack.empty()) throw PathEnd{"unwound"};
        Frame &f = top(st);
        if (f.fi->f->doesNotThrow()) fail(st, "ub", "unwinding out of a function that must not unwind: " + f.fi->dem);
        const CallBase *cb = f.call;
        bool isTry = f.isTry;
        popAllocas(st, f);
        t.stack.pop_back();
        if (isTry) {
            t.panics--; t.payloads.pop_back();
            setPanicCount(st, t.panics);
            Frame &c = top(st);
            finishCall(st, c, cb, mkc(1, bitsOf(cb->getType())));
            return;
        }
        if (t.stack.empty()) {
            report(st, "panic", "panic escapes the harness", *st.model);
            throw PathEnd{"violation"};
        }
        Frame &c = top(st);
        if (auto *inv = dyn_cast<InvokeInst>(cb)) {
            gotoBB(st, c, inv->getParent(), inv->getUnwindDest());
            return;
        }
        if (cb && cb->doesNotThrow()) fail(st, "ub", "unwinding through a call that must not unwind: " + c.fi->dem);
    }
}
static void raisePanic(State &st, const CallBase *cb, Val payload = Val()) {
    auto &t = st.th[st.cur];
    // A panic of a destructor that runs while unwinding is one like any other, if it is caught before it gets out of there.
    st.panicAt = trace(st);
    t.panics++; t.payloads.push_back(std::move(payload));
    setPanicCount(st, t.panics);
    if (auto *inv = dyn_cast_or_null<InvokeInst>(cb)) { gotoBB(st, top(st), inv->getParent(), inv->getUnwindDest()); return; }
    unwind(st);
}

// ---------------------------------------------------------------------------------------------- allocation
static uint32_t allocCounter = 0;
static Val doAlloc(State &st, const Val &size, const Val &align, char api, bool zero) {
    uint64_t n = (uint64_t)concretize(st, size), a = (uint64_t)concretize(st, align);
    if (n > (1u << 26)) return mkc(0, 64);
    Obj *o = newObj(st, n, a, 'h', api);
    o->allocId = ++allocCounter;
    if (zero) { o->st.clear(); }
    st.live++; st.allocs++;
    return mkc(o->base, 64);
}
static void doFree(State &st, const Val &p, char api, const Val *size, const Val *align) {
    uint64_t a = (uint64_t)concretize(st, p);
    uint64_t n = size ? (uint64_t)concretize(st, *size) : 0, al = align ? (uint64_t)concretize(st, *align) : 0;
    Obj *o = findObj(st, a, true);
    if (!o || o->kind != 'h' || o->base != a) fail(st, "memory", "deallocation of a pointer that is not the start of a heap allocation");
    if (o->freed) fail(st, "memory", "double free");
    if (o->api != api) fail(st, "memory", "deallocation with another allocator than the one that allocated");
    if (size && o->size != n) fail(st, "memory", "deallocation with size " + std::to_string(n) + " of an allocation of size " + std::to_string(o->size));
    if (align && o->align != al) fail(st, "memory", "deallocation with alignment " + std::to_string(al) + " of an allocation of alignment " + std::to_string(o->align));
    raceCheck(st, a, o->size, true);
    o->freed = true;
    o->b.clear(); o->st.clear(); o->s.clear();
    o->b.shrink_to_fit();
    st.live--;
}
// A choice of the environment: both ways are followed.
static bool choose(State &st, const std::string &what) {
    int k = st.names[what];
    std::string name = k ? what + "#" + std::to_string(k) : what;
    static std::map<std::string, E> vars;
    E &v = vars[name];
    if (!v) v = X->var(name + "[0]", 8, false);
    auto fx = fixedInputs.find(name);
    if (fx != fixedInputs.end()) { st.names[what]++; return fx->second != "00"; }
    if (st.inputs.empty() || st.inputs.back().name != name) {
        Input in; in.name = name; in.vars.push_back((uint32_t)v->c);
        st.inputs.push_back(in);
    }
    bool r = concretize(st, mke(X->bin(EQ, v, X->con(0, 8)))) == 0;
    st.names[what]++;
    return r;
}
static Val doRealloc(State &st, const Val &p, const Val &oldSize, const Val &align, const Val &newSize) {
    uint64_t a = (uint64_t)concretize(st, p), os = (uint64_t)concretize(st, oldSize), al = (uint64_t)concretize(st, align), ns = (uint64_t)concretize(st, newSize);
    Obj *o = findObj(st, a, false);
    if (!o || o->kind != 'h' || o->base != a) fail(st, "memory", "reallocation of a pointer that is not the start of a heap allocation");
    if (o->freed) fail(st, "memory", "reallocation of freed memory");
    if (o->size != os || o->align != al) fail(st, "memory", "reallocation with a layout that is not the allocation's");
    if (ns > (1u << 26)) return mkc(0, 64);
    if (ns <= os && choose(st, "realloc-in-place")) {
        raceCheck(st, a, os, true);
        o = findObj(st, a, true);
        o->size = ns;
        o->b.resize(ns);
        if (!o->st.empty()) o->st.resize(ns);
        if (!o->s.empty()) o->s.resize(ns);
        return mkc(a, 64);
    }
    Obj *n = newObj(st, ns, al, 'h', 'r');
    n->allocId = ++allocCounter;
    uint64_t nb = n->base;
    st.live++;
    copyMem(st, nb, a, std::min(os, ns));
    Val A = mkc(a, 64), S = mkc(os, 64), L = mkc(al, 64);
    doFree(st, A, 'r', &S, &L);
    return mkc(nb, 64);
}

// ---------------------------------------------------------------------------------------------- intercepted functions
typedef std::function<void(State &, Frame &, const CallBase *, std::vector<Val> &)> Handler;
static std::vector<Handler> handlers;
static std::unordered_map<std::string, int> byName;      // symbol
static std::vector<std::pair<std::string, int>> byDem;   // demangled, exact (without hash) or, with a trailing *, prefix
static void reg(const std::string &n, Handler h) { handlers.push_back(h); byName[n] = handlers.size() - 1; }
static void regDem(const std::string &n, Handler h) { handlers.push_back(h); byDem.push_back({n, (int)handlers.size() - 1}); }
static int lookup(FInfo *fi) {
    if (fi->handler != -2) return fi->handler;
    fi->handler = -1;
    auto it = byName.find(fi->name);
    if (it != byName.end()) fi->handler = it->second;
    else for (auto &d : byDem) {
        bool m = d.first.back() == '*' ? fi->dem.compare(0, d.first.size() - 1, d.first, 0, d.first.size() - 1) == 0 : fi->dem == d.first;
        if (m) { fi->handler = d.second; break; }
    }
    return fi->handler;
}
static std::string readStr(State &st, const Val &p, const Val &n) {
    uint64_t a = (uint64_t)concretize(st, p), k = (uint64_t)concretize(st, n);
    std::string r;
    if (!k) return r;
    Obj *o = access(st, a, k, false, "read");
    for (uint64_t i = 0; i < k; i++) { E e = byteAt(st, o, a - o->base + i); r.push_back(e->op == CONST ? (char)e->c : '?'); }
    return r;
}
static Val cmpBytes(State &st, const Val &pa, const Val &pb, const Val &pn, bool order) {
    uint64_t n = (uint64_t)concretize(st, pn);
    if (!n) return mkc(0, 32);
    uint64_t a = (uint64_t)concretize(st, pa), b = (uint64_t)concretize(st, pb);
    access(st, a, n, false, "read (compare)"); access(st, b, n, false, "read (compare)");
    if (st.th.size() > 1) { raceCheck(st, a, n, false); raceCheck(st, b, n, false); }
    E r = X->con(0, 32);
    for (uint64_t i = n; i-- > 0;) {
        Obj *oa = findObj(st, a, false); E x = byteAt(st, oa, a - oa->base + i);
        Obj *ob = findObj(st, b, false); E y = byteAt(st, ob, b - ob->base + i);
        E eq = X->bin(EQ, x, y);
        if (order) r = X->ite(eq, r, X->bin(SUB, X->zext(x, 32), X->zext(y, 32)));
        else r = X->ite(eq, r, X->con(1, 32));
    }
    return mke(r);
}
static bool decideAssert(State &st, E c, const std::string &msg) {
    nAsserts++;
    st.assertedSomething = true;
    if (c->op == CONST) { if (!c->c) fail(st, "assert", msg); return true; }
    c = subst(st, c);
    if (reallyUndef(st, c)) fail(st, "uninit", "assertion depends on uninitialised memory: " + msg);
    if (!evalM(st, c)) {
        report(st, "assert", msg, *st.model);
        auto m = std::make_shared<Model>(*st.model);
        int r = check(st.cons, c, *m);
        if (r == 1) { st.model = m; assume(st, c); return true; }
        throw PathEnd{"violation"};
    }
    Model m = *st.model;
    int r = check(st.cons, X->lnot(c), m);
    if (r == 1) { report(st, "assert", msg, m); assume(st, c); }
    if (r < 0) { incomplete = "solver gave unknown"; engineErrors["solver unknown"]++; }
    return true;
}
static void ret(State &st, Frame &f, const CallBase *cb, Val v = Val()) { finishCall(st, f, cb, std::move(v)); }
static Val ci(const CallBase *cb, u128 v) { return cb->getType()->isVoidTy() ? Val() : mkc(v, bitsOf(cb->getType())); }

static bool runnable(State &st, int t) {
    auto &x = st.th[t];
    if (x.done) return false;
    if (x.joining) for (size_t i = 1; i < st.th.size(); i++) if ((int)i != t && !st.th[i].done) return false;
    return true;
}
static void joined(State &st, int t) {
    st.th[t].joining = false;
    for (auto &o : st.th) st.th[t].clk.join(o.clk);
}
static void switchTo(State &st, int t) {
    if (st.th[t].joining) joined(st, t);
    st.cur = t;
    st.sched.push_back(st.vis);
    st.sched.push_back(t);
    st.schedDone = st.th[t].atVisible;
    setPanicCount(st, st.th[t].panics);
}
// the current thread cannot go on: every other runnable one is tried
static void reschedule(State &st) {
    std::vector<int> r;
    for (size_t i = 0; i < st.th.size(); i++) if ((int)i != st.cur && runnable(st, i)) r.push_back(i);
    if (r.empty()) {
        bool all = true;
        for (auto &t : st.th) if (!t.done) all = false;
        if (all) throw PathEnd{"ok"};
        if (runnable(st, st.cur)) { if (st.th[st.cur].joining) joined(st, st.cur); return; }
        fail(st, "deadlock", "no thread can run");
    }
    st.vis++;
    if (haveFixedSched) {
        for (size_t k = 0; k + 1 < fixedSched.size(); k += 2) if (fixedSched[k] == st.vis) { switchTo(st, fixedSched[k + 1]); return; }
        throw EngineError{"the schedule does not fit"};
    }
    for (size_t i = 1; i < r.size(); i++) { auto o = forkState(st); nSched++; switchTo(*o, r[i]); work.push_back(std::move(o)); }
    switchTo(st, r[0]);
}

static void setupHandlers() {
    reg("se_symbolic", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) {
        uint64_t p = (uint64_t)concretize(st, a[0]), n = (uint64_t)concretize(st, a[1]);
        std::string name = readStr(st, a[2], a[3]);
        int k = st.names[name]++;
        if (k) name += "#" + std::to_string(k);
        Input in; in.name = name;
        if (n) {
            Obj *o = access(st, p, n, true, "se_symbolic");
            for (uint64_t i = 0; i < n; i++) {
                E v = X->var(name + "[" + std::to_string(i) + "]", 8, false);
                in.vars.push_back((uint32_t)v->c);
                auto fx = fixedInputs.find(name);
                if (fx != fixedInputs.end()) {
                    unsigned b = 2 * i + 1 < fx->second.size() ? std::stoul(fx->second.substr(2 * i, 2), nullptr, 16) : 0;
                    if (!(*st.model)[(uint32_t)v->c] || b) { auto m = std::make_shared<Model>(*st.model); (*m)[(uint32_t)v->c] = b; st.model = m; }
                    setByte(o, p - o->base + i, X->con(b, 8));
                } else setByte(o, p - o->base + i, v);
            }
        }
        st.inputs.push_back(in);
        ret(st, f, cb);
    });
    reg("se_assume", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) {
        E c = X->extract(toE(a[0]), 0, 1);
        if (c->op == CONST) { if (!c->c) { nAssumeKill++; throw PathEnd{"assume"}; } }
        else {
            if (!evalM(st, c)) {
                auto m = std::make_shared<Model>(*st.model);
                int r = check(st.cons, c, *m);
                if (r == 0) { nAssumeKill++; throw PathEnd{"assume"}; }
                if (r < 0) { incomplete = "solver gave unknown"; throw PathEnd{"unknown"}; }
                st.model = m;
            }
            assume(st, c);
        }
        ret(st, f, cb);
    });
    reg("se_assert", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) {
        std::string msg = readStr(st, a[1], a[2]);
        decideAssert(st, X->extract(toE(a[0]), 0, 1), msg);
        ret(st, f, cb);
    });
    reg("se_cover", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) {
        covers[readStr(st, a[0], a[1])]++;
        ret(st, f, cb);
    });
    reg("se_log", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) { st.logs.push_back(a[0]); ret(st, f, cb); });
    reg("se_heap_live", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) { ret(st, f, cb, ci(cb, st.live)); });
    reg("se_heap_allocs", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) { ret(st, f, cb, ci(cb, st.allocs)); });
    reg("se_abort_ok", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) { st.abortOk = a[0].c & 1; ret(st, f, cb); });
    // picks a concrete value on every path: enumeration by the solver, for lengths and the like
    reg("se_concrete", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) {
        uint64_t v = (uint64_t)concretize(st, a[0]);
        ret(st, f, cb, mkc(v, 64));
    });
    reg("se_is_native", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) { ret(st, f, cb, ci(cb, 0)); });
    reg("se_try", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) {
        uint64_t fp = (uint64_t)concretize(st, a[0]);
        auto it = faddr.find(fp);
        if (it == faddr.end()) fail(st, "memory", "call of a non-function");
        pushFrame(st, it->second, {a[1]}, cb, true);
    });
    reg("se_spawn", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) {
        uint64_t fp = (uint64_t)concretize(st, a[0]);
        auto it = faddr.find(fp);
        if (it == faddr.end()) fail(st, "memory", "call of a non-function");
        int id = st.th.size();
        ret(st, f, cb);
        if (id >= NT) throw EngineError{"too many threads"};
        if (id == 1) { st.ownStack = st.stackNext; st.th[0].clk.c[0] = 1; }
        st.th.emplace_back();
        int cur = st.cur;
        st.th[id].clk = st.th[cur].clk;
        st.th[id].clk.c[id] = 1;
        st.th[cur].clk.c[cur]++;
        st.cur = id;
        pushFrame(st, it->second, {a[1]}, nullptr);
        st.cur = cur;
    });
    reg("se_join_all", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) {
        st.th[st.cur].joining = true;
        ret(st, f, cb);
        if (!runnable(st, st.cur)) reschedule(st); else joined(st, st.cur);
    });
    auto rustAlloc = [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) { ret(st, f, cb, doAlloc(st, a[0], a[1], 'r', false)); };
    for (auto n : {"__rust_alloc", "__rdl_alloc", "__rg_alloc"}) reg(n, rustAlloc);
    for (auto n : {"__rust_alloc_zeroed", "__rdl_alloc_zeroed", "__rg_alloc_zeroed"})
        reg(n, [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) { ret(st, f, cb, doAlloc(st, a[0], a[1], 'r', true)); });
    for (auto n : {"__rust_dealloc", "__rdl_dealloc", "__rg_dealloc"})
        reg(n, [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) { doFree(st, a[0], 'r', &a[1], &a[2]); ret(st, f, cb); });
    for (auto n : {"__rust_realloc", "__rdl_realloc", "__rg_realloc"})
        reg(n, [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) { ret(st, f, cb, doRealloc(st, a[0], a[1], a[2], a[3])); });
    reg("malloc", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) { ret(st, f, cb, doAlloc(st, a[0], mkc(16, 64), 'm', false)); });
    reg("calloc", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) { ret(st, f, cb, doAlloc(st, bop(MUL, a[0], a[1]), mkc(16, 64), 'm', true)); });
    reg("free", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) { if (a[0].sym() || a[0].c) doFree(st, a[0], 'm', nullptr, nullptr); ret(st, f, cb); });
    auto mcmp = [](bool order) { return [order](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) { ret(st, f, cb, cmpBytes(st, a[0], a[1], a[2], order)); }; };
    reg("memcmp", mcmp(true)); reg("bcmp", mcmp(false));
    auto mcpy = [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) {
        uint64_t n = (uint64_t)concretize(st, a[2]), d = (uint64_t)concretize(st, a[0]), s = (uint64_t)concretize(st, a[1]);
        copyMem(st, d, s, n); ret(st, f, cb, a[0]);
    };
    reg("memcpy", mcpy); reg("memmove", mcpy);
    reg("memset", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) {
        uint64_t n = (uint64_t)concretize(st, a[2]), d = (uint64_t)concretize(st, a[0]);
        if (n) { raceCheck(st, d, n, true); Obj *o = access(st, d, n, true, "write (memset)"); E b = X->extract(toE(a[1]), 0, 8); for (uint64_t i = 0; i < n; i++) setByte(o, d - o->base + i, b); }
        ret(st, f, cb, a[0]);
    });
    auto abortH = [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) { endAbort(st, f.fi->dem); };
    for (auto n : {"abort", "exit", "_exit"}) reg(n, abortH);
    regDem("std::process::abort", abortH);
    regDem("std::sys::unix::abort_internal", abortH);
    for (auto n : {"core::panicking::panic_nounwind", "core::panicking::panic_cannot_unwind", "core::panicking::panic_in_cleanup", "core::panicking::panic_no_unwind", "core::panicking::panic_nounwind_fmt", "core::panicking::panic_nounwind_nobacktrace", "core::panicking::panic_misaligned_pointer_dereference"})
        regDem(n, abortH);
    auto panicH = [](State &st, Frame &, const CallBase *cb, std::vector<Val> &) { raisePanic(st, cb); };
    reg("rust_begin_unwind", panicH);
    reg("__rust_start_panic", panicH);
    reg("_Unwind_RaiseException", panicH);
    regDem("std::panicking::rust_panic_with_hook", panicH);
    regDem("std::panicking::begin_panic", panicH);
    regDem("core::panicking::panic_fmt", panicH);
    regDem("std::panicking::rust_panic_without_hook", [](State &st, Frame &, const CallBase *cb, std::vector<Val> &a) {
        std::vector<Val> v = {a[0], a[1]};
        raisePanic(st, cb, mkagg(std::move(v)));
    });
    // catch_unwind, once its landing pad has the exception: the panic is over, its payload the catcher's
    regDem("std::panicking::try::cleanup", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) {
        auto &t = st.th[st.cur];
        if (!t.panics) throw EngineError{"catching without a panic"};
        t.panics--;
        setPanicCount(st, t.panics);
        Val v = std::move(t.payloads.back());
        t.payloads.pop_back();
        if (!v.agg) {               // a panic with a message: some payload, of a type of its own
            auto *g = M->getNamedGlobal("SE_PAYLOAD");
            if (!g) throw EngineError{"no SE_PAYLOAD"};
            Val p = mkc(gaddr.at(g), 64), q = mkc(gaddr.at(g) + 8, 64);
            auto *pt = PointerType::get(cb->getContext(), 0);
            std::vector<Val> w = {load(st, p, pt), load(st, q, pt)};
            v = mkagg(std::move(w));
        }
        ret(st, f, cb, v);
    });
    regDem("std::panicking::panic_count::is_zero_slow_path", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) { ret(st, f, cb, ci(cb, st.th[st.cur].panics == 0)); });
    regDem("std::thread::panicking", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) { ret(st, f, cb, ci(cb, st.th[st.cur].panics != 0)); });
    reg("__rust_alloc_error_handler", abortH);
    regDem("alloc::alloc::handle_alloc_error", abortH);
    regDem("alloc::alloc::handle_alloc_error::rt_error", abortH);
    // what the code under test prints is not part of any property
    regDem("std::io::stdio::_print", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) { ret(st, f, cb); });
    regDem("std::io::stdio::_eprint", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) { ret(st, f, cb); });
    reg("llsym_thread_atexit", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) { ret(st, f, cb, mkc(0, 32)); });
    reg("getenv", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) { ret(st, f, cb, mkc(0, 64)); });
    reg("__cxa_thread_atexit_impl", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &) { ret(st, f, cb, ci(cb, 0)); });
    // randomness of hash maps: any fixed keys will do
    reg("syscall", [](State &st, Frame &f, const CallBase *cb, std::vector<Val> &a) {
        uint64_t no = (uint64_t)concretize(st, a[0]);
        if (no == 318) {   // getrandom
            uint64_t p = (uint64_t)concretize(st, a[1]), n = (uint64_t)concretize(st, a[2]);
            Obj *o = access(st, p, n, true, "write");
            for (uint64_t i = 0; i < n; i++) setByte(o, p - o->base + i, X->con(0x5a, 8));
            ret(st, f, cb, ci(cb, n));
        } else if (no == 202) ret(st, f, cb, ci(cb, 0));   // futex wake
        else throw EngineError{"system call " + std::to_string(no)};
    });
}

// ---------------------------------------------------------------------------------------------- intrinsics
static E popcnt(E x) {
    E r = X->con(0, x->w);
    for (unsigned i = 0; i < x->w; i++) r = X->bin(ADD, r, X->zext(X->extract(x, i, 1), x->w));
    return r;
}
static Val mapV(const Val &a, const std::function<Val(const Val &)> &fn) {
    if (a.w) return fn(a);
    std::vector<Val> r;
    for (auto &x : *a.agg) r.push_back(fn(x));
    return mkagg(std::move(r));
}
static Val map2(const Val &a, const Val &b, const std::function<Val(const Val &, const Val &)> &fn) {
    if (a.w) return fn(a, b);
    std::vector<Val> r;
    for (size_t i = 0; i < a.agg->size(); i++) r.push_back(fn((*a.agg)[i], (*b.agg)[i]));
    return mkagg(std::move(r));
}
static bool intrinsic(State &st, Frame &f, const CallBase *cb, const Function *fn, std::vector<Val> &a) {
    auto id = fn->getIntrinsicID();
    switch (id) {
    case Intrinsic::not_intrinsic: return false;
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::sideeffect: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
    case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
        ret(st, f, cb, ci(cb, 0)); return true;
    case Intrinsic::stacksave: ret(st, f, cb, mkc(0, 64)); return true;
    case Intrinsic::assume: {
        E c = toE(a[0]);
        if (c->op == CONST) { if (!c->c) fail(st, "ub", "llvm.assume of a false condition"); }
        else if (!c->undef) {
            if (!evalM(st, c)) fail(st, "ub", "llvm.assume of a false condition");
            Model m = *st.model;
            if (check(st.cons, X->lnot(c), m) == 1) { report(st, "ub", "llvm.assume of a false condition", m); assume(st, c); }
        }
        ret(st, f, cb); return true;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ptrmask: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
        if (id == Intrinsic::ptrmask) ret(st, f, cb, bop(AND, a[0], a[1])); else ret(st, f, cb, a[0]);
        return true;
    case Intrinsic::is_constant: ret(st, f, cb, mkc(0, 1)); return true;
    case Intrinsic::objectsize: ret(st, f, cb, ci(cb, ~(u128)0)); return true;
    case Intrinsic::threadlocal_address: ret(st, f, cb, a[0]); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: endAbort(st, "trap"); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        uint64_t n = (uint64_t)concretize(st, a[2]);
        if (n) {
            uint64_t d = (uint64_t)concretize(st, a[0]), s = (uint64_t)concretize(st, a[1]);
            auto *mi = cast<MemTransferInst>(cb);
            checkAlign(st, mkc(d, 64), mi->getDestAlign() ? mi->getDestAlign()->value() : 1);
            checkAlign(st, mkc(s, 64), mi->getSourceAlign() ? mi->getSourceAlign()->value() : 1);
            if (id != Intrinsic::memmove && d != s && d < s + n && s < d + n) fail(st, "memory", "overlapping memcpy");
            copyMem(st, d, s, n);
        }
        ret(st, f, cb); return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        uint64_t n = (uint64_t)concretize(st, a[2]);
        if (n) {
            uint64_t d = (uint64_t)concretize(st, a[0]);
            Obj *o = access(st, d, n, true, "write (memset)");
            raceCheck(st, d, n, true);
            E b = toE(a[1]);
            for (uint64_t i = 0; i < n; i++) setByte(o, d - o->base + i, b);
        }
        ret(st, f, cb); return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned w = a[0].w;
        E x = toE(a[0]), y = toE(a[1]), r, o;
        if (id == Intrinsic::uadd_with_overflow) { r = X->bin(ADD, x, y); o = X->bin(ULT, r, x); }
        else if (id == Intrinsic::usub_with_overflow) { r = X->bin(SUB, x, y); o = X->bin(ULT, x, y); }
        else if (id == Intrinsic::umul_with_overflow) {
            if (w > 64) {
                r = X->bin(MUL, x, y);
                E z = X->con(0, w), d = X->bin(UDIV, r, X->ite(X->bin(EQ, x, z), X->con(1, w), x));
                o = X->bin(AND, X->lnot(X->bin(EQ, x, z)), X->lnot(X->bin(EQ, d, y)));
                std::vector<Val> v = {mke(r), mke(o)};
                ret(st, f, cb, mkagg(std::move(v))); return true;
            }
            E p = X->bin(MUL, X->zext(x, 2 * w), X->zext(y, 2 * w));
            r = X->extract(p, 0, w); o = X->lnot(X->bin(EQ, X->extract(p, w, w), X->con(0, w)));
        } else {
            Op op = id == Intrinsic::sadd_with_overflow ? ADD : id == Intrinsic::ssub_with_overflow ? SUB : MUL;
            if (w > 64) throw EngineError{"wide signed overflow"};
            E p = X->bin(op, X->sext(x, 2 * w), X->sext(y, 2 * w));
            r = X->extract(p, 0, w); o = X->lnot(X->bin(EQ, p, X->sext(r, 2 * w)));
        }
        ret(st, f, cb, mkagg({mke(r), mke(o)})); return true;
    }
    case Intrinsic::uadd_sat: ret(st, f, cb, map2(a[0], a[1], [](const Val &p, const Val &q) { E r = X->bin(ADD, toE(p), toE(q)); return mke(X->ite(X->bin(ULT, r, toE(p)), X->con(~(u128)0, p.w), r)); })); return true;
    case Intrinsic::usub_sat: ret(st, f, cb, map2(a[0], a[1], [](const Val &p, const Val &q) { return mke(X->ite(X->bin(ULT, toE(p), toE(q)), X->con(0, p.w), X->bin(SUB, toE(p), toE(q)))); })); return true;
    case Intrinsic::umin: ret(st, f, cb, map2(a[0], a[1], [](const Val &p, const Val &q) { return mke(X->ite(X->bin(ULT, toE(p), toE(q)), toE(p), toE(q))); })); return true;
    case Intrinsic::umax: ret(st, f, cb, map2(a[0], a[1], [](const Val &p, const Val &q) { return mke(X->ite(X->bin(ULT, toE(p), toE(q)), toE(q), toE(p))); })); return true;
    case Intrinsic::smin: ret(st, f, cb, map2(a[0], a[1], [](const Val &p, const Val &q) { return mke(X->ite(X->bin(SLT, toE(p), toE(q)), toE(p), toE(q))); })); return true;
    case Intrinsic::smax: ret(st, f, cb, map2(a[0], a[1], [](const Val &p, const Val &q) { return mke(X->ite(X->bin(SLT, toE(p), toE(q)), toE(q), toE(p))); })); return true;
    case Intrinsic::abs: ret(st, f, cb, mapV(a[0], [](const Val &p) { return mke(X->ite(X->bin(SLT, toE(p), X->con(0, p.w)), X->bin(SUB, X->con(0, p.w), toE(p)), toE(p))); })); return true;
    case Intrinsic::ctpop: ret(st, f, cb, mapV(a[0], [](const Val &p) { return mke(popcnt(toE(p))); })); return true;
    case Intrinsic::ctlz: ret(st, f, cb, mapV(a[0], [](const Val &p) {
        E x = toE(p), r = X->con(p.w, p.w);
        for (unsigned i = 0; i < p.w; i++) r = X->ite(X->bin(EQ, X->extract(x, i, 1), X->con(1, 1)), X->con(p.w - 1 - i, p.w), r);
        return mke(r); })); return true;
    case Intrinsic::cttz: ret(st, f, cb, mapV(a[0], [](const Val &p) {
        E x = toE(p), r = X->con(p.w, p.w);
        for (unsigned i = p.w; i-- > 0;) r = X->ite(X->bin(EQ, X->extract(x, i, 1), X->con(1, 1)), X->con(i, p.w), r);
        return mke(r); })); return true;
    case Intrinsic::bswap: ret(st, f, cb, mapV(a[0], [](const Val &p) {
        E x = toE(p), r = X->extract(x, 0, 8);
        for (unsigned i = 8; i < p.w; i += 8) r = X->concat(r, X->extract(x, i, 8));
        return mke(r); })); return true;
    case Intrinsic::bitreverse: ret(st, f, cb, mapV(a[0], [](const Val &p) {
        E x = toE(p), r = X->extract(x, 0, 1);
        for (unsigned i = 1; i < p.w; i++) r = X->concat(r, X->extract(x, i, 1));
        return mke(r); })); return true;
    case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = a[0].w;
        if (w > 64) throw EngineError{"wide funnel shift"};
        E c = X->concat(toE(a[0]), toE(a[1])), s = X->zext(X->bin(UREM, toE(a[2]), X->con(w, w)), 2 * w);
        E r = id == Intrinsic::fshl ? X->extract(X->bin(SHL, c, s), w, w) : X->extract(X->bin(LSHR, c, s), 0, w);
        ret(st, f, cb, mke(r)); return true;
    }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_umax: {
        E r = toE((*a[0].agg)[0]);
        for (size_t i = 1; i < a[0].agg->size(); i++) {
            E y = toE((*a[0].agg)[i]);
            r = id == Intrinsic::vector_reduce_or ? X->bin(OR, r, y) : id == Intrinsic::vector_reduce_and ? X->bin(AND, r, y) : id == Intrinsic::vector_reduce_add ? X->bin(ADD, r, y) : X->ite(X->bin(ULT, r, y), y, r);
        }
        ret(st, f, cb, mke(r)); return true;
    }
    case Intrinsic::x86_sse2_pmovmskb_128: {
        E r = X->extract(toE((*a[0].agg)[0]), 7, 1);
        for (unsigned i = 1; i < 16; i++) r = X->concat(X->extract(toE((*a[0].agg)[i]), 7, 1), r);
        ret(st, f, cb, mke(X->zext(r, 32))); return true;
    }
    case Intrinsic::x86_sse2_pause: ret(st, f, cb); return true;
    case Intrinsic::eh_typeid_for: ret(st, f, cb, ci(cb, 1)); return true;
    default:
        throw EngineError{"unsupported intrinsic " + fn->getName().str()};
    }
}

// ---------------------------------------------------------------------------------------------- the step function
static bool isVisible(const Instruction *i) {
    if (auto *l = dyn_cast<LoadInst>(i)) return l->isAtomic();
    if (auto *s = dyn_cast<StoreInst>(i)) return s->isAtomic();
    return isa<AtomicCmpXchgInst>(i) || isa<AtomicRMWInst>(i);
}

static std::string linesOut;                       // --lines FILE: which source lines were executed (a development aid)
static std::set<const DILocation *> linesHit;
static void step(State &st) {
    Frame &f = top(st);
    const Instruction *I = f.pc;
    if (st.th.size() > 1 && isVisible(I) && !st.schedDone) {
        st.th[st.cur].atVisible = true;
        st.vis++;
        if (haveFixedSched) {
            for (size_t k = 0; k + 1 < fixedSched.size(); k += 2) if (fixedSched[k] == st.vis) { switchTo(st, fixedSched[k + 1]); return; }
        }
        else if (st.preempt < maxPreempt)
            for (size_t t = 0; t < st.th.size(); t++) if ((int)t != st.cur && runnable(st, t)) {
                auto o = forkState(st); nSched++;
                o->preempt++;
                switchTo(*o, t);
                work.push_back(std::move(o));
            }
        st.schedDone = true;
    }
    nInstr++; st.steps++;
    if (!linesOut.empty()) if (auto &dl = I->getDebugLoc()) linesHit.insert(dl.get());
    auto next = [&]() { f.pc = I->getNextNode(); };
    auto G = [&](unsigned k) { return get(st, f, I->getOperand(k)); };
    switch (I->getOpcode()) {
    case Instruction::Alloca: {
        auto *a = cast<AllocaInst>(I);
        uint64_t n = (uint64_t)concretize(st, get(st, f, a->getArraySize()));
        uint64_t sz = DL->getTypeAllocSize(a->getAllocatedType()) * n;
        Obj *o = newObj(st, sz, a->getAlign().value(), 's');
        f.allocas.push_back(o->base);
        setReg(f, I, mkc(o->base, 64));
        next(); return;
    }
    case Instruction::Load: {
        auto *l = cast<LoadInst>(I);
        Val p = G(0);
        if (p.sym()) checkAlign(st, p, l->getAlign().value());
        else if (DL->getTypeStoreSize(l->getType())) checkAlign(st, p, l->getAlign().value());
        if (l->isAtomic()) {
            atomicAccess = true;
            Val v;
            try { v = load(st, p, l->getType()); } catch (...) { atomicAccess = false; throw; }
            atomicAccess = false;
            if (st.th.size() > 1) syncLoad(st, (uint64_t)concretize(st, p), l->getOrdering());
            setReg(f, I, v);
        } else setReg(f, I, load(st, p, l->getType()));
        next(); break;
    }
    case Instruction::Store: {
        auto *s = cast<StoreInst>(I);
        Val p = G(1);
        if (DL->getTypeStoreSize(s->getValueOperand()->getType())) checkAlign(st, p, s->getAlign().value());
        if (s->isAtomic()) {
            atomicAccess = true;
            try { store(st, p, G(0), s->getValueOperand()->getType()); } catch (...) { atomicAccess = false; throw; }
            atomicAccess = false;
            if (st.th.size() > 1) syncStore(st, (uint64_t)concretize(st, p), s->getOrdering(), false);
        } else store(st, p, G(0), s->getValueOperand()->getType());
        next(); break;
    }
    case Instruction::GetElementPtr:
        setReg(f, I, gepOf(&st, cast<GEPOperator>(I), [&](const Value *v) { return get(st, f, v); }));
        next(); return;
    case Instruction::Br: {
        auto *b = cast<BranchInst>(I);
        if (b->isUnconditional()) { gotoBB(st, f, I->getParent(), b->getSuccessor(0)); return; }
        Val c = G(0);
        bool v = c.sym() ? branch(st, c.e) : (bool)c.c;
        Frame &g = top(st);
        gotoBB(st, g, I->getParent(), b->getSuccessor(v ? 0 : 1));
        return;
    }
    case Instruction::Switch: {
        auto *s = cast<SwitchInst>(I);
        Val c = G(0);
        if (!c.sym()) {
            const BasicBlock *to = s->getDefaultDest();
            for (auto &k : s->cases()) if (apint(k.getCaseValue()->getValue()) == c.c) { to = k.getCaseSuccessor(); break; }
            gotoBB(st, f, I->getParent(), to);
            return;
        }
        // one branch per successor
        std::map<const BasicBlock *, E> conds;
        std::vector<const BasicBlock *> order;
        E none = X->con(1, 1);
        for (auto &k : s->cases()) {
            E q = X->bin(EQ, c.e, X->con(apint(k.getCaseValue()->getValue()), c.w));
            none = X->bin(AND, none, X->lnot(q));
            auto &e = conds[k.getCaseSuccessor()];
            if (!e) order.push_back(k.getCaseSuccessor());
            e = e ? X->bin(OR, e, q) : q;
        }
        for (auto *bb : order) {
            if (bb == s->getDefaultDest()) continue;
            if (branch(st, conds[bb])) { gotoBB(st, top(st), I->getParent(), bb); return; }
        }
        gotoBB(st, top(st), I->getParent(), s->getDefaultDest());
        return;
    }
    case Instruction::Ret: {
        auto *r = cast<ReturnInst>(I);
        Val v;
        Type *rt = nullptr;
        if (r->getReturnValue()) { v = G(0); rt = r->getReturnValue()->getType(); }
        const CallBase *cb = f.call;
        bool isTry = f.isTry;
        popAllocas(st, f);
        auto &t = st.th[st.cur];
        t.stack.pop_back();
        if (t.stack.empty()) {
            t.done = true;
            bool all = true;
            for (auto &x : st.th) if (!x.done) all = false;
            if (all) throw PathEnd{"ok"};
            reschedule(st);
            return;
        }
        Frame &c = top(st);
        if (isTry) v = mkc(0, bitsOf(cb->getType()));
        else if (!cb->getType()->isVoidTy() && rt != cb->getType()) {
            v = reshapeRet(v, rt, cb->getType());
        }
        finishCall(st, c, cb, v);
        return;
    }
    case Instruction::Unreachable: fail(st, "ub", "unreachable code is reached");
    case Instruction::ICmp: setReg(f, I, icmp(cast<ICmpInst>(I)->getPredicate(), G(0), G(1))); next(); return;
    case Instruction::FCmp: setReg(f, I, fcmp(cast<FCmpInst>(I)->getPredicate(), G(0), G(1))); next(); return;
    case Instruction::Select: setReg(f, I, selectVal(G(0), G(1), G(2))); next(); return;
    case Instruction::PHI: throw EngineError{"stray phi"};
    case Instruction::ExtractValue: {
        Val v = G(0);
        for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; }
        setReg(f, I, v); next(); return;
    }
    case Instruction::InsertValue: {
        Val v = G(0), x = G(1);
        auto idx = cast<InsertValueInst>(I)->getIndices();
        std::function<Val(const Val &, size_t)> put = [&](const Val &a, size_t d) -> Val {
            if (d == idx.size()) return x;
            std::vector<Val> c = *a.agg;
            c[idx[d]] = put(c[idx[d]], d + 1);
            return mkagg(std::move(c));
        };
        setReg(f, I, put(v, 0)); next(); return;
    }
    case Instruction::ExtractElement: {
        Val v = G(0); uint64_t i = (uint64_t)concretize(st, G(1));
        setReg(f, I, (*v.agg)[i]); next(); return;
    }
    case Instruction::InsertElement: {
        Val v = G(0); uint64_t i = (uint64_t)concretize(st, G(2));
        std::vector<Val> c = *v.agg; c[i] = G(1);
        setReg(f, I, mkagg(std::move(c))); next(); return;
    }
    case Instruction::ShuffleVector: {
        auto *s = cast<ShuffleVectorInst>(I);
        Val a = G(0), b = G(1);
        std::vector<Val> r;
        size_t n = a.agg->size();
        for (int k : s->getShuffleMask())
            r.push_back(k < 0 ? freshUndef(cast<VectorType>(I->getType())->getElementType()) : (size_t)k < n ? (*a.agg)[k] : (*b.agg)[k - n]);
        setReg(f, I, mkagg(std::move(r))); next(); return;
    }
    case Instruction::Freeze: setReg(f, I, G(0)); next(); return;
    case Instruction::FNeg: setReg(f, I, bop(XOR, G(0), mkc((u128)1 << (bitsOf(I->getType()) - 1), bitsOf(I->getType())))); next(); return;
    case Instruction::Fence: syncFence(st, cast<FenceInst>(I)->getOrdering()); next(); break;
    case Instruction::AtomicCmpXchg: {
        auto *c = cast<AtomicCmpXchgInst>(I);
        Type *t = c->getCompareOperand()->getType();
        Val p = G(0);
        struct Plain { ~Plain() { atomicAccess = false; } } plain;
        atomicAccess = true;
        Val old = load(st, p, t);
        E eq = X->bin(EQ, toE(old), toE(G(1)));
        if (st.th.size() > 1) {
            // success and failure synchronise differently: they are different paths
            bool won = branch(st, eq);
            uint64_t a = (uint64_t)concretize(st, p);
            syncLoad(st, a, won ? c->getSuccessOrdering() : c->getFailureOrdering());
            if (won) { store(st, p, G(2), t); syncStore(st, a, c->getSuccessOrdering(), true); }
            setReg(f, I, mkagg({old, mkc(won, 1)}));
            next(); break;
        }
        Val n = mke(X->ite(eq, toE(G(2)), toE(old)));
        store(st, p, n, t);
        setReg(f, I, mkagg({old, mke(eq)}));
        next(); break;
    }
    case Instruction::AtomicRMW: {
        auto *c = cast<AtomicRMWInst>(I);
        Type *t = c->getType();
        struct Plain { ~Plain() { atomicAccess = false; } } plain;
        atomicAccess = true;
        Val p = G(0), old = load(st, p, t), v = G(1), n;
        switch (c->getOperation()) {
        case AtomicRMWInst::Xchg: n = v; break;
        case AtomicRMWInst::Add: n = bop(ADD, old, v); break;
        case AtomicRMWInst::Sub: n = bop(SUB, old, v); break;
        case AtomicRMWInst::And: n = bop(AND, old, v); break;
        case AtomicRMWInst::Or: n = bop(OR, old, v); break;
        case AtomicRMWInst::Xor: n = bop(XOR, old, v); break;
        case AtomicRMWInst::Nand: n = lnotV(bop(AND, old, v)); break;
        case AtomicRMWInst::UMax: n = mke(X->ite(X->bin(ULT, toE(old), toE(v)), toE(v), toE(old))); break;
        case AtomicRMWInst::UMin: n = mke(X->ite(X->bin(ULT, toE(old), toE(v)), toE(old), toE(v))); break;
        default: throw EngineError{"atomicrmw"};
        }
        store(st, p, n, t);
        if (st.th.size() > 1) {
            uint64_t a = (uint64_t)concretize(st, p);
            syncLoad(st, a, c->getOrdering());
            syncStore(st, a, c->getOrdering(), true);
        }
        setReg(f, I, old);
        next(); break;
    }
    case Instruction::LandingPad: {
        auto *lp = cast<LandingPadInst>(I);
        std::vector<Val> r = {mkc(0xeece, 64), mkc(lp->getNumClauses() ? 1 : 0, 32)};
        setReg(f, I, mkagg(std::move(r)));
        // filters and catches of nounwind regions: code goes on there
        next(); return;
    }
    case Instruction::Resume: unwind(st); return;
    case Instruction::Call: case Instruction::Invoke: {
        auto *cb = cast<CallBase>(I);
        if (auto *ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) {
            std::string as(ia->getAsmString());
            if (as.empty()) { // black_box and the like
                ret(st, f, cb, cb->getType()->isVoidTy() ? Val() : (cb->arg_size() ? get(st, f, cb->getArgOperand(0)) : ci(cb, 0)));
                return;
            }
            throw EngineError{"inline assembly: " + as};
        }
        const Function *fn = cb->getCalledFunction();
        if (!fn) {
            if (auto *g = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) fn = dyn_cast<Function>(g->getAliaseeObject());
        }
        if (!fn) {
            if (auto *g = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) fn = g;
        }
        if (!fn) {
            uint64_t p = (uint64_t)concretize(st, get(st, f, cb->getCalledOperand()));
            auto it = faddr.find(p);
            if (it == faddr.end()) fail(st, "memory", p == 0 ? "call through a null function pointer" : "call through a pointer that is not a function");
            fn = it->second;
        }
        if (fn->isIntrinsic() && (fn->getIntrinsicID() == Intrinsic::dbg_declare || fn->getIntrinsicID() == Intrinsic::dbg_value)) { next(); return; }
        std::vector<Val> args;
        for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(get(st, f, cb->getArgOperand(i)));
        if (fn->isIntrinsic()) { intrinsic(st, f, cb, fn, args); return; }
        FInfo *fi = finfo(fn);
        int h = lookup(fi);
        if (h >= 0) { handlers[h](st, f, cb, args); return; }
        // byval at the call site is copied by pushFrame
        pushFrame(st, fn, std::move(args), cb);
        return;
    }
    default: break;
    }
    if (auto *b = dyn_cast<BinaryOperator>(I)) { setReg(f, I, binop(&st, b->getOpcode(), G(0), G(1))); top(st).pc = I->getNextNode(); return; }
    if (auto *c = dyn_cast<CastInst>(I)) { setReg(f, I, castOp(c->getOpcode(), G(0), c->getSrcTy(), c->getDestTy())); next(); return; }
    if (isa<LoadInst>(I) || isa<StoreInst>(I) || isa<FenceInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<AtomicRMWInst>(I)) {
        st.schedDone = false; st.th[st.cur].atVisible = false;
        return;
    }
    throw EngineError{std::string("unsupported instruction ") + I->getOpcodeName()};
}

// ---------------------------------------------------------------------------------------------- module set-up
static void writeInit(Obj *o, uint64_t off, const Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c)) {   // undefined bytes of a constant: padding
        uint64_t n = DL->getTypeStoreSize(t);
        if (o->st.empty()) o->st.assign(o->size, 0);
        for (uint64_t i = 0; i < n; i++) o->st[off + i] = 2;
        return;
    }
    if (isa<ConstantAggregateZero>(c)) return;
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = d->getRawDataValues();
        memcpy(&o->b[off], r.data(), r.size());
        return;
    }
    if (auto *s = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < s->getNumOperands(); i++) writeInit(o, off + sl->getElementOffset(i), cast<Constant>(s->getOperand(i)));
        return;
    }
    if (auto *a = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); i++) writeInit(o, off + i * es, cast<Constant>(a->getOperand(i)));
        return;
    }
    Val v = evalConst(nullptr, c);
    if (!v.w) {
        auto *vt = cast<FixedVectorType>(t);
        unsigned ew = bitsOf(vt->getElementType()) / 8;
        for (size_t i = 0; i < v.agg->size(); i++) storeBytes(o, off + i * ew, ew, (*v.agg)[i]);
        return;
    }
    storeBytes(o, off, (v.w + 7) / 8, v);
}

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; }
        else r += c;
    }
    return r + "\"";
}
static std::string jinputs(const std::vector<Input> &in, const Model &m) {
    std::string r = "{";
    bool first = true;
    for (auto &i : in) {
        r += (first ? "" : ",") + jstr(i.name) + ":\"";
        first = false;
        for (uint32_t v : i.vars) { auto it = m.find(v); char t[4]; snprintf(t, sizeof t, "%02x", it == m.end() ? 0 : (unsigned)it->second); r += t; }
        r += "\"";
    }
    return r + "}";
}

int main(int argc, char **argv) {
    std::string bc, entry, out;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--time") timeLimit = atof(val().c_str());
        else if (a == "--paths") maxPaths = atoll(val().c_str());
        else if (a == "--steps") maxSteps = atoll(val().c_str());
        else if (a == "--conc") maxConc = atoll(val().c_str());
        else if (a == "--samples") maxSamples = atoll(val().c_str());
        else if (a == "--query-ms") queryMs = atoll(val().c_str());
        else if (a == "--lines") linesOut = val();
        else if (a == "--no-races") noRaces = true;
        else if (a == "--preempt") maxPreempt = atoll(val().c_str());
        else if (a == "--fix") { std::string kv = val(); size_t q = kv.find('='); fixedInputs[kv.substr(0, q)] = kv.substr(q + 1); }
        else if (a == "--schedule") { haveFixedSched = true; std::stringstream ss(val()); std::string x; while (std::getline(ss, x, ',')) fixedSched.push_back(atoi(x.c_str())); }
        else if (a == "--out") out = val();
        else if (a == "--mem-gb") { struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)(atof(val().c_str()) * (1ull << 30)); setrlimit(RLIMIT_AS, &rl); }
        else if (bc.empty()) bc = a;
        else entry = a;
    }
    t0 = Clock::now();
    X = new ExprCtx;
    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(bc, err, ctx);
    if (!mod) { err.print(argv[0], errs()); return 3; }
    M = mod.get();
    DL = &M->getDataLayout();
    setupHandlers();

    // weak symbols the system does not define are null; the one std uses for destructors of thread locals is a no-op
    Function *atexitFn = nullptr;
    if (M->getNamedValue("__cxa_thread_atexit_impl")) {
        Type *pt = PointerType::getUnqual(M->getContext());
        atexitFn = Function::Create(FunctionType::get(Type::getInt32Ty(M->getContext()), {pt, pt, pt}, false), GlobalValue::ExternalLinkage, "llsym_thread_atexit", *M);
    }
    uint64_t fa = 0x1000000;
    for (auto &f : *M) if (f.hasExternalWeakLinkage() && f.isDeclaration()) gaddr[&f] = 0; else { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
    uint64_t ga = 0x10000000;
    std::vector<std::pair<Obj *, const GlobalVariable *>> init;
    for (auto &g : M->globals()) if (g.hasExternalWeakLinkage() && g.isDeclaration()) gaddr[&g] = g.getName() == "__cxa_thread_atexit_impl" ? gaddr[atexitFn] : 0; else {
        uint64_t sz = DL->getTypeAllocSize(g.getValueType()), al = g.getAlign() ? g.getAlign()->value() : DL->getABITypeAlign(g.getValueType()).value();
        ga = (ga + 16 + 2 * al - 1) / (2 * al) * (2 * al) + al;
        auto o = std::make_shared<Obj>();
        o->base = ga; o->size = sz; o->align = al; o->kind = 'g'; o->b.assign(sz, 0);
        gaddr[&g] = ga;
        ga += sz + 16;
        globalsByAddr.push_back(o);
        init.push_back({o.get(), &g});
        if (demangled(g.getName().str()) == "std::panicking::panic_count::GLOBAL_PANIC_COUNT") gPanicCount = &g;
    }
    for (auto &x : init) {
        if (x.second->hasInitializer()) {
            try { writeInit(x.first, 0, x.second->getInitializer()); } catch (EngineError &e) { }
        }
        x.first->ro = x.second->isConstant();
    }
    solver = newSolver();
    const Function *ef = M->getFunction(entry);
    std::string fatal;
    if (!ef || ef->isDeclaration()) fatal = "no such harness: " + entry;
    else {
        auto s0 = std::make_unique<State>();
        s0->model = std::make_shared<Model>();
        s0->th.emplace_back();
        pushFrame(*s0, ef, {}, nullptr);
        work.push_back(std::move(s0));
    }
    uint64_t rr = 0;
    while (!work.empty()) {
        if (now() > timeLimit) { incomplete = "time limit"; break; }
        if (nPaths >= maxPaths) { incomplete = "path limit"; break; }
        auto cur = std::move(work.back());
        work.pop_back();
        State &st = *cur;
        std::string outcome;
        try {
            while (true) {
                try { step(st); } catch (Retry &) {}
                if (st.steps > maxSteps) throw EngineError{"step limit on one path"};
                if ((nInstr & 0xfff) == 0 && now() > timeLimit) { incomplete = "time limit"; break; }
            }
            if (!incomplete.empty()) break;
        } catch (PathEnd &e) { outcome = e.why; }
        catch (EngineError &e) {
            std::string k = e.what + " at " + trace(st);
            engineErrors[k.substr(0, 600)]++;
            outcome = "error";
        } catch (std::bad_alloc &) { incomplete = "memory limit"; break; }
        nPaths++;
        if (outcome == "ok" || outcome == "abort") {
            // every 1st, 2nd, 4th, ... completed path is kept for comparison with a native run
            rr++;
            bool keep = samples.size() < maxSamples / 2 || (rr & (rr - 1)) == 0 || rr % 37 == 0;
            if (keep) {
                Sample s; s.inputs = st.inputs; s.model = *st.model; s.outcome = outcome;
                Evaluator ev(*st.model);
                if (st.th.size() == 1) for (auto &l : st.logs) s.logs.push_back(l.sym() ? ev.ev(l.e) : l.c);
                if (samples.size() < maxSamples) samples.push_back(s); else samples[maxSamples / 2 + rr % (maxSamples - maxSamples / 2)] = s;
            }
        }
    }
    std::ostringstream js;
    js << "{\"harness\":" << jstr(entry);
    if (!fatal.empty()) js << ",\"fatal\":" << jstr(fatal);
    js << ",\"paths\":" << nPaths << ",\"instructions\":" << nInstr << ",\"forks\":" << nForks << ",\"schedule_forks\":" << nSched << ",\"queries\":" << nQueries
       << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"unknown\":" << nUnknown << ",\"query_cache_hits\":" << nCacheHits << ",\"model_reuses\":" << nReuse
       << ",\"branch_decisions\":" << nModelHits << ",\"asserts\":" << nAsserts << ",\"aborts\":" << nAborts << ",\"assume_killed\":" << nAssumeKill << ",\"solver_s\":" << solverTime << ",\"wall_s\":" << now()
       << ",\"expr_nodes\":" << X->next << ",\"pending\":" << work.size();
    js << ",\"incomplete\":" << (incomplete.empty() ? "null" : jstr(incomplete));
    js << ",\"errors\":{";
    bool first = true;
    for (auto &e : engineErrors) { js << (first ? "" : ",") << jstr(e.first) << ":" << e.second; first = false; }
    js << "},\"covers\":{";
    first = true;
    for (auto &e : covers) { js << (first ? "" : ",") << jstr(e.first) << ":" << e.second; first = false; }
    js << "},\"violations\":[";
    first = true;
    for (auto &v : violations) {
        js << (first ? "" : ",") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"where\":" << jstr(v.where) << ",\"inputs\":" << jinputs(v.inputs, v.model) << ",\"schedule\":[";
        for (size_t i = 0; i < v.sched.size(); i++) js << (i ? "," : "") << v.sched[i];
        js << "]}";
        first = false;
    }
    js << "],\"samples\":[";
    first = true;
    for (auto &s : samples) {
        js << (first ? "" : ",") << "{\"inputs\":" << jinputs(s.inputs, s.model) << ",\"outcome\":" << jstr(s.outcome) << ",\"logs\":[";
        for (size_t i = 0; i < s.logs.size(); i++) js << (i ? "," : "") << "\"" << std::hex << (uint64_t)s.logs[i] << std::dec << "\"";
        js << "]}";
        first = false;
    }
    js << "],\"functions\":[";
    first = true;
    for (auto *f : executed) { js << (first ? "" : ",") << jstr(finfo(f)->dem); first = false; }
    js << "]}\n";
    if (!linesOut.empty()) {
        std::ofstream o(linesOut);
        std::set<std::pair<std::string, unsigned>> hit, all;
        auto add = [&](std::set<std::pair<std::string, unsigned>> &to, const DILocation *l) { for (; l; l = l->getInlinedAt()) to.insert({(l->getScope()->getFilename().starts_with("/") ? "" : l->getScope()->getDirectory().str() + "/") + l->getScope()->getFilename().str(), l->getLine()}); };
        for (auto *l : linesHit) add(hit, l);
        for (auto &f : *M) for (auto &bb : f) for (auto &i : bb) if (auto &dl = i.getDebugLoc()) add(all, dl.get());
        for (auto &x : all) if (x.first.find("sffi") != std::string::npos || x.first.find("/repo") != std::string::npos || hit.count(x)) o << (hit.count(x) ? "+" : "-") << x.first << ":" << x.second << "\n";
    }
    if (out.empty()) std::cout << js.str();
    else { std::ofstream o(out); o << js.str(); }
    std::cout.flush();
    _exit(0);
}
