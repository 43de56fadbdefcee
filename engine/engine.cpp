// Depth-first symbolic executor over LLVM IR with an undo trail; idle cores steal pending branches by fork().
#include <llvm/IR/IntrinsicsX86.h>
#include "engine.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

static const u64 BASE = 0x100000000000ull;
static const u64 SLOT = 1 << 16;
static const u64 FBASE = 0x200000000000ull;

struct SharedReach { char name[96]; std::atomic<u64> count; };
struct SharedFinding { u64 hash; std::atomic<u32> count; };
struct Shared {
    std::atomic<int> active;
    std::atomic<int> procs;
    std::atomic<bool> stop;
    std::atomic<bool> timedOut;
    std::atomic<bool> lock;
    std::atomic<u64> samples, paths, pathsCompleted, assumeFail, steps, forks, findings, unsupported, abandoned, deaths, exprs, stepLimit;
    std::atomic<u64> z3Queries, z3Sat, z3Unsat, z3Unknown, domainDecided, modelDecided, polyDecided, intDecided, cacheHits, cexHits, assertQueries, assertProved, assertTrivial;
    std::atomic<u64> z3Micros, z3MaxMicros;
    char unsupportedMsg[512];
    SharedReach reach[256];
    SharedFinding find[256];
};

struct Lock {
    Shared* s;
    Lock(Shared* s) : s{s} { while (s->lock.exchange(true)) usleep(50); }
    ~Lock() { s->lock = false; }
};

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
double Engine::elapsed() { return now() - startTime; }

Engine::Engine() {
#define R(n, f) builtins[n] = &Engine::f
    R("malloc", b_malloc); R("_Znwm", b_malloc); R("_Znam", b_malloc); R("_ZnwmRKSt9nothrow_t", b_malloc); R("calloc", b_calloc); R("realloc", b_realloc);
    R("posix_memalign", b_posix_memalign);
    R("free", b_free); R("_ZdlPv", b_free); R("_ZdaPv", b_free); R("_ZdlPvm", b_free); R("_ZdaPvm", b_free);
    R("memcpy", b_memcpy); R("memmove", b_memmove); R("memset", b_memset); R("memcmp", b_memcmp); R("bcmp", b_memcmp); R("strlen", b_strlen); R("memchr", b_memchr);
    R("abort", b_abort); R("__assert_fail", b_abort); R("exit", b_abort); R("_exit", b_abort); R("_ZSt9terminatev", b_abort);
    R("__cxa_atexit", b_zero); R("__cxa_thread_atexit", b_zero); R("__cxa_guard_acquire", b_guard_acquire); R("__cxa_guard_release", b_guard_release);
    R("__cxa_pure_virtual", b_purevirt); R("atexit", b_zero);
    R("__errno_location", b_errno);
    for (auto n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_once", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_destroy", "pthread_cond_init", "printf", "fprintf", "puts", "fputs", "putchar", "fflush"})
        R(n, b_zero);
    for (auto n : {"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}) R(n, b_nop);
    for (auto n : {"sqrt", "sqrtf", "floor", "floorf", "ceil", "ceilf", "pow", "powf", "sin", "sinf", "cos", "cosf", "fmod", "fmodf", "fabs", "fabsf", "exp", "expf", "log", "logf", "atan2", "atan2f", "tan", "tanf", "acos", "acosf", "roundf", "round", "trunc", "truncf", "ldexp", "frexp", "exp2", "exp2f", "log2", "log2f", "log10", "log10f", "asinf", "asin"}) R(n, b_math);
    R("sx_bytes", b_sx_bytes); R("sx_var", b_sx_var); R("sx_assume_", b_sx_assume); R("sx_assert_", b_sx_assert); R("sx_reach", b_sx_reach);
    R("sx_range", b_sx_range); R("sx_param", b_sx_param); R("sx_mark_heap", b_sx_mark_heap); R("sx_check_leaks", b_sx_check_leaks);
    R("sx_eq", b_sx_eq); R("sx_concrete", b_sx_concrete); R("sx_print", b_sx_print); R("sx_is_sym", b_sx_is_sym); R("sx_stop", b_sx_stop);
    R("sx_live_allocs", b_sx_live);
#undef R
}

// ------------------------------------------------------------------ memory

MemObj* Engine::newObj(u64 size, ObjKind kind, const char* name) {
    MemObj* o = new MemObj;
    u64 idx = table.size();
    u64 n = size + 8192 <= SLOT ? 1 : (size + 8192 + SLOT - 1) / SLOT;
    if (size > (1ull << 30)) { delete o; fail("huge-allocation", "allocation of " + std::to_string(size) + " bytes"); }
    o->base = BASE + idx * SLOT + 4096;
    o->size = size; o->kind = kind; o->name = name;
    o->conc = (u8*) ::malloc(size ? size : 1);
    memset(o->conc, fillByte, size);
    o->trailPos = trail.size();
    o->serial = ++allocSerial;
    TE t{}; t.kind = T_ALLOC; t.a = idx; trail.push_back(t);
    for (u64 i = 0; i < n; i++) table.push_back(o);
    return o;
}

MemObj* Engine::find(u64 addr) {
    if (addr < BASE) return nullptr;
    u64 idx = (addr - BASE) / SLOT;
    return idx < table.size() ? table[idx] : nullptr;
}

void Engine::killObj(MemObj* o) {
    bool older = !cps.empty() && o->trailPos < cps.back().trailSize;
    if (older) {
        TE t{}; t.kind = T_DEAD; t.p = o; trail.push_back(t);
        o->alive = false;
    } else if (o->kind == K_STACK) {
        u64 idx = (o->base - BASE) / SLOT;
        for (u64 i = idx; i < table.size() && table[i] == o; i++) table[i] = nullptr;
        // the T_ALLOC entry only truncates the table
        delete o;
    } else {
        o->alive = false;
        ::free(o->conc); o->conc = nullptr;
        ::free(o->sym); o->sym = nullptr;
    }
}

void Engine::logMem(MemObj* o, u64 off, u64 len) {
    if (cps.empty() || o->trailPos >= cps.back().trailSize) return;
    while (len) {
        u64 n = std::min<u64>(len, 8);
        TE t{}; t.kind = T_MEM; t.p = o; t.old.lo = off; t.len = n;
        memcpy(&t.a, o->conc + off, n);
        t.x = 0;
        if (o->sym) {
            bool any = false;
            for (u64 i = 0; i < n; i++) if (o->sym[off + i]) any = true;
            if (any) { t.x = 1; for (u64 i = 0; i < n; i++) symTrail.push_back(o->sym[off + i]); }
        }
        trail.push_back(t);
        off += n; len -= n;
    }
}

void Engine::memWriteConc(MemObj* o, u64 off, const u8* src, u64 len) {
    logMem(o, off, len);
    memcpy(o->conc + off, src, len);
    if (o->sym) memset(o->sym + off, 0, len * sizeof(Expr*));
}

// Loading back what was stored gives the stored expression, rather than a concatenation of its bytes.
struct JoinMemo { Expr* b[8]; u32 n; Expr* whole; };
static JoinMemo joinMemo[1 << 14];
static JoinMemo& joinSlot(Expr** b, u32 n) {
    size_t h = n;
    for (u32 i = 0; i < n; i++) h = (h ^ ((size_t) b[i] >> 4)) * 0x9E3779B97F4A7C15ull;
    return joinMemo[(h >> 32) & 0x3fff];
}
static Expr* joined(Expr** b, u32 n) {
    if (n < 2) return nullptr;
    for (u32 i = 0; i < n; i++) if (!b[i]) return nullptr;
    JoinMemo& m = joinSlot(b, n);
    if (m.n != n || memcmp(m.b, b, n * sizeof(Expr*))) return nullptr;
    return m.whole;
}
static void remember(Expr** b, u32 n, Expr* whole) {
    for (u32 i = 0; i < n; i++) if (!b[i]) return;
    JoinMemo& m = joinSlot(b, n);
    memcpy(m.b, b, n * sizeof(Expr*));
    m.n = n;
    m.whole = whole;
}
SVal Engine::memReadAt(MemObj* o, u64 off, u32 bits) {
    u32 n = (bits + 7) / 8;
    bool anySym = false;
    if (o->sym) for (u32 i = 0; i < n; i++) if (o->sym[off + i]) { anySym = true; break; }
    if (!anySym) {
        if (n <= 8) {
            u64 v = 0;
            memcpy(&v, o->conc + off, n);
            if (bits < 64) v &= (1ull << bits) - 1;
            return SVal(v);
        }
        u128 v = 0;
        if (n > 16) unsupported("load wider than 128 bits");
        memcpy(&v, o->conc + off, n);
        SVal r; r.e = mkConst(v, bits); return r;
    }
    if (n > 16) unsupported("load wider than 128 bits");
    Expr* e = nullptr;
    if (n <= 8 && n * 8 == bits && o->sym)
        if (Expr* whole = joined(o->sym + off, n)) return SVal(whole);
    for (u32 i = 0; i < n; i++) {
        Expr* b = o->sym[off + i] ? o->sym[off + i] : mkConst(o->conc[off + i], 8);
        e = e ? mkConcat(b, e) : b;
    }
    if (e->width != bits) e = mkExtract(e, 0, bits);
    return bits > 64 ? [&] { SVal r; r.e = e; return r; }() : SVal(e);
}

void Engine::memWriteAt(MemObj* o, u64 off, u32 bits, const SVal& v) {
    u32 n = (bits + 7) / 8;
    if (!v.e) {
        u64 x = v.lo;
        memWriteConc(o, off, (const u8*) &x, n);
        return;
    }
    if (v.e->isConst()) {
        u128 x = v.e->val;
        memWriteConc(o, off, (const u8*) &x, n);
        return;
    }
    logMem(o, off, n);
    if (!o->sym) o->sym = (Expr**) ::calloc(o->size ? o->size : 1, sizeof(Expr*));
    Expr* e = v.e;
    if (e->width != n * 8) e = mkZExt(e, n * 8);
    for (u32 i = 0; i < n; i++) {
        Expr* b = mkExtract(e, i * 8, 8);
        if (b->isConst()) { o->conc[off + i] = (u8) b->val; o->sym[off + i] = nullptr; }
        else { o->sym[off + i] = b; }
    }
    if (n >= 2 && n <= 8 && e == v.e) remember(o->sym + off, n, e);
}

void Engine::copyBytes(MemObj* d, u64 doff, MemObj* s, u64 soff, u64 len) {
    if (!len) return;
    logMem(d, doff, len);
    memmove(d->conc + doff, s->conc + soff, len);
    if (s->sym) {
        bool any = false;
        for (u64 i = 0; i < len && !any; i++) any = s->sym[soff + i] != nullptr;
        if (any) {
            if (!d->sym) d->sym = (Expr**) ::calloc(d->size ? d->size : 1, sizeof(Expr*));
            memmove(d->sym + doff, s->sym + soff, len * sizeof(Expr*));
            return;
        }
    }
    if (d->sym) memset(d->sym + doff, 0, len * sizeof(Expr*));
}

std::vector<u64> Engine::candidates(Expr* off, u64 maxOff, size_t limit, bool& ok) {
    std::vector<u64> res;
    ok = true;
    if (off->vars && off->vars->ids.size() == 1 && g_vars[off->vars->ids[0]].width == 8) {
        u32 v = off->vars->ids[0];
        const Dom* d = pc_.domainOf(v);
        std::set<u64> s;
        Model tmp = pc_.model;
        if (tmp.size() <= v) tmp.resize(v + 1, 0);
        for (u32 x = 0; x < 256; x++)
            if (!d || d->test(x)) {
                tmp[v] = x;
                u64 o = (u64) evalIn(off, tmp);
                if (o <= maxOff) s.insert(o);
            }
        res.assign(s.begin(), s.end());
        if (res.size() > limit) ok = false;
        return res;
    }
    u64 lo = (u64) off->umin, hi = (u64) std::min<u128>(off->umax, maxOff);
    u32 tz = 0;
    Expr* e = off;
    if (e->op == OAdd && e->b->isConst()) e = e->a;
    if (e->op == OConcat && e->b->isConst() && e->b->val == 0) tz = e->b->width;
    else if (e->op == OZExt && e->a->op == OConcat && e->a->b->isConst() && e->a->b->val == 0) tz = e->a->b->width;
    u64 stride = 1ull << tz;
    if (hi >= lo && (hi - lo) / stride + 1 <= limit) {
        u64 start = lo;
        if (off->op == OAdd && off->b->isConst()) { u64 k = (u64) off->b->val; start = lo + ((k - lo) & (stride - 1)); }
        else start = (lo + stride - 1) & ~(stride - 1);
        for (u64 o = start; o <= hi; o += stride) res.push_back(o);
        return res;
    }
    // enumerate feasible values with the solver
    size_t base = pc_.size();
    Model saved = pc_.model;
    while (res.size() <= limit) {
        Expr* c = mkBin(OUle, off, mkConst(maxOff, 64));
        for (u64 r : res) c = mkBin(OAnd, c, mkNot(mkBin(OEq, off, mkConst(r, 64))));
        Model m;
        Sat s = pc_.mayBeTrue(c, m);
        if (s == UNKNOWN) { ok = false; break; }
        if (s == UNSAT) break;
        res.push_back((u64) evalIn(off, m));
        if (limit > 64 && res.size() > 64) { ok = false; break; }
    }
    if (res.size() > limit) ok = false;
    (void) base;
    return res;
}

MemObj* Engine::resolve(SVal addr, u64 size, bool write, SVal& off, const char* what) {
    if (addr.isConc()) {
        MemObj* o = find(addr.lo);
        if (!o) {
            if (addr.lo < 4096) fail("null-deref", std::string(what) + " through null pointer (address " + std::to_string(addr.lo) + ")");
            fail("invalid-pointer", std::string(what) + " through invalid or dangling stack pointer");
        }
        if (!o->alive) fail(o->kind == K_HEAP ? "use-after-free" : "use-after-return", std::string(what) + " of freed memory " + o->name + " allocated at " + o->allocSite);
        if (addr.lo < o->base || addr.lo - o->base > o->size || o->size - (addr.lo - o->base) < size)
            fail("out-of-bounds", std::string(what) + " of " + std::to_string(size) + " bytes at offset " + std::to_string((s64) (addr.lo - o->base)) + " of " + o->name + " (size " + std::to_string(o->size) + ")" + (o->allocSite.empty() ? "" : " allocated at " + o->allocSite));
        if (write && o->kind == K_CONST) fail("write-to-const", std::string("write to constant ") + o->name);
        off = SVal(addr.lo - o->base);
        return o;
    }
    Expr* e = addr.e;
    for (int guard = 0; guard < 64; guard++) {
        while (e->op == OIte) {
            if (branch(SVal(e->a))) e = e->b; else e = e->c;
        }
        if (e->isConst()) return resolve(SVal((u64) e->val), size, write, off, what);
        u64 mv = (u64) evalIn(e, pc_.model);
        MemObj* o = nullptr;
        if (guard == 0 && e->op == OAdd && e->b->isConst()) o = find((u64) e->b->val);
        if (!o || !o->alive) o = find(mv);
        if (!o || !o->alive || o->size < size) {
            // whatever the model points at is not valid
            branch(SVal(mkBin(OEq, e, mkConst(mv, 64))));
            return resolve(SVal(mv), size, write, off, what);
        }
        Expr* rel = mkBin(OSub, e, mkConst(o->base, 64));
        Expr* inb = mkBin(OUle, rel, mkConst(o->size - size, 64));
        if (branch(SVal(inb))) {
            if (write && o->kind == K_CONST) fail("write-to-const", std::string("write to constant ") + o->name);
            off = SVal(rel);
            return o;
        }
        // outside of that object: does the model land in another live object?
        mv = (u64) evalIn(e, pc_.model);
        MemObj* o2 = find(mv);
        if (!o2 || o2 == o || !o2->alive || mv < o2->base || mv - o2->base > o2->size || o2->size - (mv - o2->base) < size) {
            fail("out-of-bounds", std::string(what) + " of " + std::to_string(size) + " bytes at symbolic offset, e.g. " + std::to_string((s64) (mv - o->base)) + " of " + o->name + " (size " + std::to_string(o->size) + ")" + (o->allocSite.empty() ? "" : " allocated at " + o->allocSite));
        }
        // landing inside an unrelated object is an overflow as well
        if (guard > 8) break;
    }
    u64 c = concretize(SVal(e), 64, "address");
    return resolve(SVal(c), size, write, off, what);
}

// Leaves of a tree of conditionals; false if any is not constant or there are too many.
static bool constLeaves(Expr* e, std::unordered_set<Expr*>& seen, std::vector<u64>& out) {
    if (!seen.insert(e).second) return true;
    if (seen.size() > 2000) return false;
    if (e->isConst()) { out.push_back((u64) e->val); return true; }
    return e->op == OIte && constLeaves(e->b, seen, out) && constLeaves(e->c, seen, out);
}
static Expr* mapLeaves(Expr* e, std::unordered_map<Expr*, Expr*>& memo, const std::function<Expr*(u64)>& f) {
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Expr* r = e->isConst() ? f((u64) e->val) : mkIte(e->a, mapLeaves(e->b, memo, f), mapLeaves(e->c, memo, f));
    memo[e] = r;
    return r;
}

SVal Engine::loadScalar(SVal addr, u32 bits) {
    u64 n = (bits + 7) / 8;
    if (addr.e && addr.e->op == OIte && bits <= 64) {
        // a choice between constant addresses that are all good is a choice between the values there
        std::unordered_set<Expr*> seen;
        std::vector<u64> leaves;
        if (constLeaves(addr.e, seen, leaves)) {
            bool good = true;
            for (u64 x : leaves) {
                MemObj* o = find(x);
                if (!o || !o->alive || x < o->base || x - o->base > o->size || o->size - (x - o->base) < n) { good = false; break; }
            }
            if (good) {
                std::unordered_map<Expr*, Expr*> memo;
                return SVal(mapLeaves(addr.e, memo, [&](u64 x) { MemObj* o = find(x); return toExpr(memReadAt(o, x - o->base, bits), bits); }));
            }
        }
    }
    SVal off;
    MemObj* o = resolve(addr, n, false, off, "read");
    if (off.isConc()) return memReadAt(o, off.lo, bits);
    bool ok;
    std::vector<u64> cs = candidates(off.e, o->size - n, 300, ok);
    if (!ok || cs.empty()) {
        u64 v = concretize(off, 64, "load offset");
        return memReadAt(o, v, bits);
    }
    if (bits > 64) { u64 v = concretize(off, 64, "load offset"); return memReadAt(o, v, bits); }
    // mux
    std::vector<std::pair<Expr*, std::vector<u64>>> groups;
    std::unordered_map<Expr*, size_t> gi;
    for (u64 c : cs) {
        Expr* v = toExpr(memReadAt(o, c, bits), bits);
        auto it = gi.find(v);
        if (it == gi.end()) { gi[v] = groups.size(); groups.push_back({v, {c}}); }
        else groups[it->second].second.push_back(c);
    }
    // largest group is the default
    size_t big = 0;
    for (size_t i = 1; i < groups.size(); i++) if (groups[i].second.size() > groups[big].second.size()) big = i;
    Expr* r = groups[big].first;
    for (size_t i = 0; i < groups.size(); i++) {
        if (i == big) continue;
        Expr* c = nullptr;
        for (u64 k : groups[i].second) { Expr* q = mkBin(OEq, off.e, mkConst(k, 64)); c = c ? mkBin(OOr, c, q) : q; }
        r = mkIte(c, groups[i].first, r);
    }
    return SVal(r);
}

void Engine::storeScalar(SVal addr, u32 bits, const SVal& v) {
    u64 n = (bits + 7) / 8;
    SVal off;
    MemObj* o = resolve(addr, n, true, off, "write");
    if (off.isConc()) { memWriteAt(o, off.lo, bits, v); return; }
    bool ok;
    std::vector<u64> cs = candidates(off.e, o->size - n, 40, ok);
    if (!ok || cs.empty() || n > 8) {
        u64 x = concretize(off, 64, "store offset");
        memWriteAt(o, x, bits, v);
        return;
    }
    Expr* ve = toExpr(v, bits);
    std::vector<std::pair<u64, Expr*>> nw;
    for (u64 c : cs) {
        Expr* old = toExpr(memReadAt(o, c, bits), bits);
        nw.push_back({c, old});
    }
    // overlapping candidates need byte granularity: apply as successive conditional byte updates
    for (u64 c : cs) {
        Expr* q = mkBin(OEq, off.e, mkConst(c, 64));
        for (u64 i = 0; i < n; i++) {
            Expr* old = toExpr(memReadAt(o, c + i, 8), 8);
            Expr* nb = mkExtract(mkZExt(ve, n * 8), i * 8, 8);
            memWriteAt(o, c + i, 8, SVal(mkIte(q, nb, old)));
        }
    }
}

SVal Engine::loadTy(SVal addr, TyDesc* t) {
    if (t->scalar) return loadScalar(addr, t->bits);
    std::vector<SVal> k;
    for (size_t i = 0; i < t->elems.size(); i++) k.push_back(loadTy(addv(addr, SVal(t->offs[i])), t->elems[i]));
    return SVal(mkAgg(k));
}
void Engine::storeTy(SVal addr, TyDesc* t, const SVal& v) {
    if (t->scalar) { storeScalar(addr, t->bits, v); return; }
    for (size_t i = 0; i < t->elems.size(); i++) storeTy(addv(addr, SVal(t->offs[i])), t->elems[i], elemGet(v, i));
}

// ------------------------------------------------------------------ values

SVal Engine::elemGet(const SVal& agg, u32 i) { return (*agg.e->kids)[i]; }

SVal Engine::binop(Op op, const SVal& a, const SVal& b, u32 w) {
    if (!a.e && !b.e && w <= 64) {
        u64 m = w == 64 ? ~0ull : (1ull << w) - 1;
        switch (op) {
            case OAdd: return SVal((a.lo + b.lo) & m);
            case OSub: return SVal((a.lo - b.lo) & m);
            case OMul: return SVal((a.lo * b.lo) & m);
            case OAnd: return SVal(a.lo & b.lo);
            case OOr: return SVal(a.lo | b.lo);
            case OXor: return SVal(a.lo ^ b.lo);
            default: break;
        }
        if (op == OUDiv || op == OSDiv || op == OURem || op == OSRem)
            if (b.lo == 0) fail("div-by-zero", "division by zero");
        return SVal((u64) foldBin(op, a.lo, b.lo, w));
    }
    Expr *x = toExpr(a, w), *y = toExpr(b, w);
    if (op == OUDiv || op == OSDiv || op == OURem || op == OSRem) {
        Expr* z = mkBin(OEq, y, mkConst(0, w));
        if (branch(SVal(z))) fail("div-by-zero", "division by zero");
    }
    Expr* r = mkBin(op, x, y);
    if (w > 64) { SVal v; v.e = r; return v; }
    return SVal(r);
}

SVal Engine::icmp(u32 pred, const SVal& a, const SVal& b, u32 w) {
    using P = llvm::CmpInst;
    if (!a.e && !b.e) {
        u64 x = a.lo, y = b.lo;
        s64 sx = (s64) sextv(x, w), sy = (s64) sextv(y, w);
        switch (pred) {
            case P::ICMP_EQ: return SVal((u64) (x == y));
            case P::ICMP_NE: return SVal((u64) (x != y));
            case P::ICMP_UGT: return SVal((u64) (x > y));
            case P::ICMP_UGE: return SVal((u64) (x >= y));
            case P::ICMP_ULT: return SVal((u64) (x < y));
            case P::ICMP_ULE: return SVal((u64) (x <= y));
            case P::ICMP_SGT: return SVal((u64) (sx > sy));
            case P::ICMP_SGE: return SVal((u64) (sx >= sy));
            case P::ICMP_SLT: return SVal((u64) (sx < sy));
            default: return SVal((u64) (sx <= sy));
        }
    }
    Expr *x = toExpr(a, w), *y = toExpr(b, w);
    switch (pred) {
        case P::ICMP_EQ: return SVal(mkBin(OEq, x, y));
        case P::ICMP_NE: return SVal(mkNot(mkBin(OEq, x, y)));
        case P::ICMP_UGT: return SVal(mkBin(OUlt, y, x));
        case P::ICMP_UGE: return SVal(mkBin(OUle, y, x));
        case P::ICMP_ULT: return SVal(mkBin(OUlt, x, y));
        case P::ICMP_ULE: return SVal(mkBin(OUle, x, y));
        case P::ICMP_SGT: return SVal(mkBin(OSlt, y, x));
        case P::ICMP_SGE: return SVal(mkBin(OSle, y, x));
        case P::ICMP_SLT: return SVal(mkBin(OSlt, x, y));
        default: return SVal(mkBin(OSle, x, y));
    }
}

SVal Engine::fcmp(u32 pred, const SVal& a, const SVal& b, u32 w) {
    using P = llvm::CmpInst;
    if (w > 64) unsupported("fp80 compare");
    Expr *x = toExpr(a, w), *y = toExpr(b, w);
    Expr* un = mkBin(OOr, mkFUn(OFIsNan, x, 1), mkFUn(OFIsNan, y, 1));
    Expr* r;
    switch (pred) {
        case P::FCMP_FALSE: return SVal((u64) 0);
        case P::FCMP_TRUE: return SVal((u64) 1);
        case P::FCMP_OEQ: r = mkBin(OFEq, x, y); break;
        case P::FCMP_OGT: r = mkBin(OFLt, y, x); break;
        case P::FCMP_OGE: r = mkBin(OFLe, y, x); break;
        case P::FCMP_OLT: r = mkBin(OFLt, x, y); break;
        case P::FCMP_OLE: r = mkBin(OFLe, x, y); break;
        case P::FCMP_ONE: r = mkBin(OAnd, mkNot(un), mkNot(mkBin(OFEq, x, y))); break;
        case P::FCMP_ORD: r = mkNot(un); break;
        case P::FCMP_UNO: r = un; break;
        case P::FCMP_UEQ: r = mkBin(OOr, un, mkBin(OFEq, x, y)); break;
        case P::FCMP_UGT: r = mkNot(mkBin(OFLe, x, y)); break;
        case P::FCMP_UGE: r = mkNot(mkBin(OFLt, x, y)); break;
        case P::FCMP_ULT: r = mkNot(mkBin(OFLe, y, x)); break;
        case P::FCMP_ULE: r = mkNot(mkBin(OFLt, y, x)); break;
        default: r = mkNot(mkBin(OFEq, x, y)); break; // UNE
    }
    return SVal(r);
}

SVal Engine::castop(u32 kind, const SVal& a, u32 from, u32 to) {
    using I = llvm::Instruction;
    auto wrap = [&](Expr* e) { if (to > 64) { SVal v; v.e = e; return v; } return SVal(e); };
    switch (kind) {
        case I::Trunc:
            if (!a.e) return SVal(to == 64 ? a.lo : a.lo & ((1ull << to) - 1));
            return wrap(mkExtract(a.e, 0, to));
        case I::ZExt:
            if (!a.e && to <= 64) return a;
            return wrap(mkZExt(toExpr(a, from), to));
        case I::SExt:
            if (!a.e && to <= 64) return SVal((u64) ((u128) sextv(a.lo, from) & maskOf(to)));
            return wrap(mkSExt(toExpr(a, from), to));
        case I::PtrToInt: case I::IntToPtr:
            if (from == to) return a;
            if (to < from) return wrap(mkExtract(toExpr(a, from), 0, to));
            return wrap(mkZExt(toExpr(a, from), to));
        case I::BitCast: return a;
        default: break;
    }
    if (from > 64 || to > 64) unsupported("fp80/i128 float cast");
    if (from == 16 || to == 16) if (kind == I::FPTrunc || kind == I::FPExt) unsupported("half");
    Expr* e = toExpr(a, from);
    switch (kind) {
        case I::FPToSI: return SVal(mkFUn(OFToSI, e, to));
        case I::FPToUI: return SVal(mkFUn(OFToUI, e, to));
        case I::SIToFP: return SVal(mkFUn(OSIToF, e, to));
        case I::UIToFP: return SVal(mkFUn(OUIToF, e, to));
        case I::FPExt: case I::FPTrunc: return SVal(mkFUn(OFConv, e, to));
        default: unsupported("cast");
    }
    return {};
}

// ------------------------------------------------------------------ control

std::string Engine::location() {
    std::string best;
    for (size_t i = stack.size(); i-- > 0;) {
        Frame* fr = stack[i];
        u32 pc = i + 1 == stack.size() ? fr->pc - 1 : fr->pc - 1;
        if (pc >= fr->f->code.size()) continue;
        const llvm::Instruction* I = fr->f->code[pc].src;
        if (!I) continue;
        if (const llvm::DebugLoc& dl = I->getDebugLoc()) {
            std::string file = dl->getFilename().str();
            std::string s = file + ":" + std::to_string(dl.getLine());
            if (best.empty()) best = s;
            if (file.find("/usr/") == 0) continue;
            return s;
        }
    }
    return best.empty() ? "?" : best;
}
std::string Engine::stackTrace() {
    std::string r;
    int n = 0;
    for (size_t i = stack.size(); i-- > 0 && n < 14; n++) {
        Frame* fr = stack[i];
        r += fr->f->name;
        u32 pc = fr->pc - 1;
        if (pc < fr->f->code.size() && fr->f->code[pc].src)
            if (const llvm::DebugLoc& dl = fr->f->code[pc].src->getDebugLoc())
                r += " (" + dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")";
        r += "\n";
    }
    return r;
}

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

void Engine::writeInputs(std::ostream& o, const Model& m) {
    bool first = true;
    u64 ep = ++g_evalEpoch;
    for (auto& in : inputs) {
        o << (first ? "" : ",") << "[" << jstr(in.name) << ",\"";
        first = false;
        for (Expr* e : in.bytes) {
            u128 v = evalExpr(e, m, ep);
            for (u32 i = 0; i < (e->width + 7) / 8; i++) { char b[4]; snprintf(b, 4, "%02x", (u8) (v >> (8 * i))); o << b; }
        }
        o << "\"]";
    }
}

void Engine::sample() {
    u64 n = sh->pathsCompleted++;
    if (!maxSamples || (n & (n - 1)) != 0) return;
    if (sh->samples++ >= maxSamples) return;
    std::string fn = outDir + "/sample-" + std::to_string(n) + ".json";
    std::ofstream o(fn);
    o << "{\"inputs\":[";
    writeInputs(o, pc_.model);
    o << "]}\n";
}

void Engine::report(const std::string& kind, const std::string& msg, const Model& m) {
    std::string loc = location();
    std::string key = kind + "|" + loc + (kind == "assert" ? "|" + msg : "");
    u64 h = std::hash<std::string>{}(key) | 1;
    u32 nth = 0;
    {
        Lock l(sh);
        for (auto& f : sh->find) {
            if (f.hash == h) { nth = ++f.count; break; }
            if (!f.hash) { f.hash = h; nth = ++f.count; break; }
        }
    }
    sh->findings++;
    if (nth > 2) return;
    static int cnt = 0;
    std::string fn = outDir + "/finding-" + std::to_string(getpid()) + "-" + std::to_string(cnt++) + ".json";
    std::ofstream o(fn + ".tmp");
    o << "{\"kind\":" << jstr(kind) << ",\"msg\":" << jstr(msg) << ",\"loc\":" << jstr(loc) << ",\"stack\":" << jstr(stackTrace()) << ",\"inputs\":[";
    writeInputs(o, m);
    o << "]}\n";
    o.close();
    rename((fn + ".tmp").c_str(), fn.c_str());
    u32 distinct = 0;
    for (auto& f : sh->find) if (f.hash) distinct++;
    if (distinct >= maxFindings) sh->stop = true;
}
void Engine::fail(const std::string& kind, const std::string& msg) {
    report(kind, msg, pc_.model);
    endPath(2);
}
void Engine::unsupported(const std::string& what) {
    sh->unsupported++;
    {
        Lock l(sh);
        if (!sh->unsupportedMsg[0]) snprintf(sh->unsupportedMsg, sizeof sh->unsupportedMsg, "%s at %s", what.c_str(), location().c_str());
    }
    if (verbose) fprintf(stderr, "unsupported: %s\n%s", what.c_str(), stackTrace().c_str());
    endPath(3);
}

bool Engine::branch(const SVal& cond) {
    if (!cond.e) return cond.lo & 1;
    Expr* c = cond.e;
    if (c->isConst()) return c->val != 0;
    bool kv;
    if (pc_.known(c, kv)) return kv;
    bool cur = evalIn(c, pc_.model) != 0;
    Expr* other = cur ? mkNot(c) : c;
    Model om;
    u64 zq = g_sstats.z3Queries;
    Sat s = pc_.mayBeTrue(other, om);
    static bool prof = getenv("SX_PROFILE") != nullptr;
    if (prof && g_sstats.z3Queries != zq) fprintf(stderr, "PROF %d %s\n", (int) s, location().c_str());
    if (s == SAT_) {
        Checkpoint cp;
        cp.trailSize = instrTrailSize; cp.symTrail = symTrail.size(); cp.consSize = pc_.size(); cp.inputs = inputs.size();
        cp.steps = steps; cp.alt = other; cp.model = std::make_shared<Model>(std::move(om));
        cp.frame = stack.back(); cp.pc = stack.back()->pc - 1; cp.nframes = stack.size(); cp.forkDepth = ++forkDepth;
        cps.push_back(cp);
        sh->forks++;
        pc_.add(c, cur);
    } else if (s == UNKNOWN) {
        sh->abandoned++;
        pc_.add(c, cur);
    }
    return cur;
}

u64 Engine::concretize(const SVal& v, u32 w, const char* why) {
    if (!v.e) return v.lo;
    if (v.e->isConst()) return (u64) v.e->val;
    for (;;) {
        u64 mv = (u64) evalIn(v.e, pc_.model);
        // prefer a value already fixed by the path condition
        if (branch(SVal(mkBin(OEq, v.e, mkConst(mv, w))))) return mv;
    }
}

void Engine::setReg(Frame* fr, s32 r, const SVal& v) {
    if (r < 0) return;
    if (!cps.empty() && fr->trailPos < cps.back().trailSize) {
        TE t{}; t.kind = T_REG; t.p = fr; t.x = r; t.old = fr->regs[r];
        trail.push_back(t);
    }
    fr->regs[r] = v;
}

void Engine::jump(Frame* fr, const Edge& e) {
    if (e.phis.size() == 1) {
        setReg(fr, e.phis[0].first, get(fr, e.phis[0].second));
    } else if (!e.phis.empty()) {
        SVal tmp[64];
        std::vector<SVal> big;
        SVal* vals = tmp;
        if (e.phis.size() > 64) { big.resize(e.phis.size()); vals = big.data(); }
        for (size_t i = 0; i < e.phis.size(); i++) vals[i] = get(fr, e.phis[i].second);
        for (size_t i = 0; i < e.phis.size(); i++) setReg(fr, e.phis[i].first, vals[i]);
    }
    fr->pc = e.target;
}

void Engine::pushFrame(Func* f, const std::vector<SVal>& args, s32 retDst, size_t nfixed) {
    if (!f->lowered) lower(f);
    f->executed = true;
    if (stack.size() > 2000) fail("stack-overflow", "call depth exceeds 2000");
    Frame* fr = new Frame;
    fr->f = f; fr->retDst = retDst;
    fr->regs.resize(f->numRegs);
    for (size_t i = 0; i < f->numArgs && i < args.size(); i++) fr->regs[i] = args[i];
    fr->trailPos = trail.size();
    TE t{}; t.kind = T_PUSH; t.p = fr;
    trail.push_back(t);
    stack.push_back(fr);
}

void Engine::popFrame() {
    Frame* fr = stack.back();
    for (u64 idx : fr->allocas) if (table[idx]) killObj(table[idx]);
    stack.pop_back();
    bool older = !cps.empty() && fr->trailPos < cps.back().trailSize;
    if (older) {
        TE t{}; t.kind = T_POP; t.p = fr; t.a = stack.empty() ? 0 : stack.back()->pc;
        trail.push_back(t);
    } else {
        if (fr->trailPos < trail.size()) trail[fr->trailPos].kind = T_NOP;
        delete fr;
    }
}

void Engine::undoTo(u64 n, size_t) {
    while (trail.size() > n) {
        TE& t = trail.back();
        switch (t.kind) {
            case T_REG: ((Frame*) t.p)->regs[t.x] = t.old; break;
            case T_MEM: {
                MemObj* o = (MemObj*) t.p;
                memcpy(o->conc + t.old.lo, &t.a, t.len);
                if (t.x) {
                    for (int i = 0; i < t.len; i++) o->sym[t.old.lo + i] = symTrail[symTrail.size() - t.len + i];
                    symTrail.resize(symTrail.size() - t.len);
                } else if (o->sym) memset(o->sym + t.old.lo, 0, t.len * sizeof(Expr*));
                break;
            }
            case T_ALLOC: {
                u64 idx = t.a;
                if (table.size() > idx && table[idx]) delete table[idx];
                table.resize(idx);
                break;
            }
            case T_DEAD: ((MemObj*) t.p)->alive = true; break;
            case T_PUSH:
                stack.pop_back();
                delete (Frame*) t.p;
                break;
            case T_POP:
                if (!stack.empty()) stack.back()->pc = (u32) t.a;
                stack.push_back((Frame*) t.p);
                break;
            case T_ALLOCA: ((Frame*) t.p)->allocas.pop_back(); break;
            case T_U64: *(u64*) t.p = t.a; break;
            default: break;
        }
        trail.pop_back();
    }
}
void Engine::logU64(u64* p) {
    TE t{}; t.kind = T_U64; t.p = p; t.a = *p;
    trail.push_back(t);
}

void Engine::restore(const Checkpoint& cp) {
    undoTo(cp.trailSize, cp.symTrail);
    pc_.popTo(cp.consSize);
    inputs.resize(cp.inputs);
    steps = cp.steps; forkDepth = cp.forkDepth;
    if (stack.size() != cp.nframes || stack.back() != cp.frame) { fprintf(stderr, "engine: stack mismatch on backtrack\n"); abort(); }
    stack.back()->pc = cp.pc;
    pc_.model = *cp.model;
    pc_.add(cp.alt, true);
}

bool Engine::backtrack() {
    if (cps.empty()) return false;
    Checkpoint cp = std::move(cps.back());
    cps.pop_back();
    restore(cp);
    return true;
}

bool Engine::stopRequested() {
    if (sh->stop) return true;
    if (elapsed() > timeBudget) { sh->timedOut = true; sh->stop = true; return true; }
    return false;
}

void Engine::maybeFork() {
    if (cps.empty() || sh->active >= (int) maxProcs) return;
    int cur = sh->active;
    if (cur >= (int) maxProcs || !sh->active.compare_exchange_strong(cur, cur + 1)) return;
    fflush(stdout); fflush(stderr);
    pid_t p = ::fork();
    if (p < 0) { sh->active--; return; }
    if (p == 0) {
        isChild = true;
        sh->procs++;
        g_sstats = SolverStats{}; g_polyDecided = 0; g_intDecided = 0;
        pathsLocal = 0; totalSteps = 0; g_numExprs = 0;
        Checkpoint cp = cps.front();
        cps.clear();
        restore(cp);
        throw PathEnd{100};
    }
    cps.erase(cps.begin());
}

void Engine::exec() {
    for (;;) {
        int why = 0;
        try {
            while (!stack.empty()) step();
            sample();
        } catch (PathEnd& e) { why = e.why; }
        if (why == 100) continue; // fresh child with restored state
        sh->paths++; pathsLocal++;
        if (why == 1) sh->assumeFail++;
        if (maxPaths && sh->paths >= maxPaths) { sh->timedOut = true; sh->stop = true; }
        if (stopRequested()) { if (!cps.empty()) sh->abandoned += cps.size(); break; }
        if (!backtrack()) break;
        try { maybeFork(); } catch (PathEnd&) {}
    }
}

void Engine::step() {
    Frame* fr = stack.back();
    instrTrailSize = trail.size();
    Instr& in = fr->f->code[fr->pc];
    steps++; totalSteps++;
    if ((totalSteps & 0xfff) == 0) {
        if (stopRequested()) { sh->abandoned++; endPath(4); }
        maybeFork();
        if (steps > maxSteps) { sh->stepLimit++; fail("nontermination", "path exceeds " + std::to_string(maxSteps) + " instructions"); }
    }
    fr->pc++;
    execInstr(fr, in);
}

static SVal mapAgg(Engine& E, TyDesc* t, const std::function<SVal(u32)>& f) {
    std::vector<SVal> k;
    for (u32 i = 0; i < t->elems.size(); i++) k.push_back(f(i));
    return SVal(mkAgg(k));
}

// flatten a value of type t to one bit-vector
static Expr* flatten(Engine& E, const SVal& v, TyDesc* t) {
    if (t->scalar) return E.toExpr(v, t->bits);
    Expr* r = nullptr;
    for (u32 i = 0; i < t->elems.size(); i++) {
        Expr* x = flatten(E, E.elemGet(v, i), t->elems[i]);
        if (r && r->width + x->width > 128) E.unsupported("wide vector bitcast");
        r = r ? mkConcat(x, r) : x;
    }
    return r;
}
static SVal unflatten(Engine& E, Expr* e, TyDesc* t, u32& pos) {
    if (t->scalar) {
        Expr* x = mkExtract(e, pos, t->bits);
        pos += t->bits;
        if (t->bits > 64) { SVal v; v.e = x; return v; }
        return SVal(x);
    }
    std::vector<SVal> k;
    for (auto* el : t->elems) k.push_back(unflatten(E, e, el, pos));
    return SVal(mkAgg(k));
}

static SVal iteVal(Engine& E, Expr* c, const SVal& a, const SVal& b, TyDesc* t) {
    if (t->scalar) {
        Expr* r = mkIte(c, E.toExpr(a, t->bits), E.toExpr(b, t->bits));
        if (t->bits > 64) { SVal v; v.e = r; return v; }
        return SVal(r);
    }
    return mapAgg(E, t, [&](u32 i) { return iteVal(E, c, E.elemGet(a, i), E.elemGet(b, i), t->elems[i]); });
}

void Engine::execInstr(Frame* fr, Instr& in) {
    switch (in.op) {
        case I_BIN: {
            SVal a = get(fr, in.ops[0]), b = get(fr, in.ops[1]);
            if (in.w) {
                if (in.sub >= OFAdd && in.w > 64) unsupported("fp80 arithmetic");
                if ((in.sub == OShl || in.sub == OLShr || in.sub == OAShr) && !b.e && b.lo >= in.w)
                    fail("oversized-shift", "shift amount " + std::to_string(b.lo) + " >= width " + std::to_string(in.w));
                setReg(fr, in.dst, binop((Op) in.sub, a, b, in.w));
            } else
                setReg(fr, in.dst, mapAgg(*this, in.ty, [&](u32 i) { return binop((Op) in.sub, elemGet(a, i), elemGet(b, i), in.ty->elems[i]->bits); }));
            break;
        }
        case I_ICMP: {
            SVal a = get(fr, in.ops[0]), b = get(fr, in.ops[1]);
            if (in.w2) setReg(fr, in.dst, icmp(in.sub, a, b, in.w2));
            else setReg(fr, in.dst, mapAgg(*this, in.ty, [&](u32 i) { return icmp(in.sub, elemGet(a, i), elemGet(b, i), in.ty2->elems[i]->bits); }));
            break;
        }
        case I_FCMP: {
            SVal a = get(fr, in.ops[0]), b = get(fr, in.ops[1]);
            if (in.w2) setReg(fr, in.dst, fcmp(in.sub, a, b, in.w2));
            else setReg(fr, in.dst, mapAgg(*this, in.ty, [&](u32 i) { return fcmp(in.sub, elemGet(a, i), elemGet(b, i), in.ty2->elems[i]->bits); }));
            break;
        }
        case I_CAST: {
            SVal a = get(fr, in.ops[0]);
            if (in.ty->scalar && in.ty2->scalar) setReg(fr, in.dst, castop(in.sub, a, in.w2, in.w));
            else if (in.sub == llvm::Instruction::BitCast) {
                Expr* e = flatten(*this, a, in.ty2);
                u32 pos = 0;
                setReg(fr, in.dst, unflatten(*this, e, in.ty, pos));
            } else
                setReg(fr, in.dst, mapAgg(*this, in.ty, [&](u32 i) { return castop(in.sub, elemGet(a, i), in.ty2->elems[i]->bits, in.ty->elems[i]->bits); }));
            break;
        }
        case I_LOAD:
            setReg(fr, in.dst, in.ty->scalar ? loadScalar(get(fr, in.ops[0]), in.ty->bits) : loadTy(get(fr, in.ops[0]), in.ty));
            break;
        case I_STORE:
            if (in.ty->scalar) storeScalar(get(fr, in.ops[1]), in.ty->bits, get(fr, in.ops[0]));
            else storeTy(get(fr, in.ops[1]), in.ty, get(fr, in.ops[0]));
            break;
        case I_GEP: {
            SVal base = get(fr, in.ops[0]);
            u64 off = in.cst;
            Expr* sym = base.e;
            if (!sym) off += base.lo;
            for (size_t i = 1; i < in.ops.size(); i++) {
                SVal x = fr->regs[in.ops[i].reg];
                u32 w = (u32) in.ops[i].k.lo;
                if (!x.e) off += (u64) sextv(x.lo, w) * in.nums[i - 1];
                else {
                    Expr* e = mkBin(OMul, w < 64 ? mkSExt(x.e, 64) : mkExtract(x.e, 0, 64), mkConst(in.nums[i - 1], 64));
                    sym = sym ? mkBin(OAdd, sym, e) : e;
                }
            }
            setReg(fr, in.dst, sym ? SVal(mkBin(OAdd, sym, mkConst(off, 64))) : SVal(off));
            break;
        }
        case I_BR: jump(fr, in.edges[0]); break;
        case I_CONDBR: jump(fr, branch(get(fr, in.ops[0])) ? in.edges[0] : in.edges[1]); break;
        case I_SWITCH: {
            SVal v = get(fr, in.ops[0]);
            if (!v.e) {
                size_t k = 0;
                for (size_t i = 0; i < in.nums.size(); i++) if (in.nums[i] == v.lo) { k = i + 1; break; }
                jump(fr, in.edges[k]);
                break;
            }
            // group cases by destination block
            std::map<s32, std::pair<size_t, Expr*>> g;
            for (size_t i = 0; i < in.nums.size(); i++) {
                Expr* q = mkBin(OEq, v.e, mkConst(in.nums[i], in.w2));
                // different phi values need different edges
                s32 key = in.edges[i + 1].phis.empty() ? in.edges[i + 1].target : (s32) (1000000 + i);
                auto it = g.find(key);
                if (it == g.end()) g[key] = {i + 1, q};
                else it->second.second = mkBin(OOr, it->second.second, q);
            }
            size_t k = 0;
            for (auto& kv : g) if (branch(SVal(kv.second.second))) { k = kv.second.first; break; }
            jump(fr, in.edges[k]);
            break;
        }
        case I_RET: {
            SVal v;
            bool has = !in.ops.empty();
            if (has) v = get(fr, in.ops[0]);
            s32 dst = fr->retDst;
            popFrame();
            if (has && !stack.empty()) setReg(stack.back(), dst, v);
            break;
        }
        case I_CALL: doCall(fr, in); break;
        case I_SELECT: {
            SVal c = get(fr, in.ops[0]), a = get(fr, in.ops[1]), b = get(fr, in.ops[2]);
            if (!in.ty2->scalar) {
                setReg(fr, in.dst, mapAgg(*this, in.ty, [&](u32 i) {
                    SVal ci = elemGet(c, i);
                    if (!ci.e) return ci.lo ? elemGet(a, i) : elemGet(b, i);
                    return iteVal(*this, ci.e, elemGet(a, i), elemGet(b, i), in.ty->elems[i]);
                }));
            } else if (!c.e) setReg(fr, in.dst, (c.lo & 1) ? a : b);
            else {
                bool kv;
                if (pc_.known(c.e, kv)) setReg(fr, in.dst, kv ? a : b);
                else if (forkSelect && in.ty2->scalar && in.ty->bits >= 32) setReg(fr, in.dst, branch(c) ? a : b);
                else setReg(fr, in.dst, iteVal(*this, c.e, a, b, in.ty));
            }
            break;
        }
        case I_ALLOCA: {
            u64 n = concretize(get(fr, in.ops[0]), 64, "alloca");
            u64 idx = table.size();
            MemObj* o = newObj(in.cst * n, K_STACK, "stack");
            if (!cps.empty() && fr->trailPos < cps.back().trailSize) { TE t{}; t.kind = T_ALLOCA; t.p = fr; trail.push_back(t); }
            fr->allocas.push_back(idx);
            setReg(fr, in.dst, SVal(o->base));
            break;
        }
        case I_EXTRACTVAL: {
            SVal v = get(fr, in.ops[0]);
            for (u64 i : in.nums) v = elemGet(v, i);
            setReg(fr, in.dst, v);
            break;
        }
        case I_INSERTVAL: {
            SVal agg = get(fr, in.ops[0]), v = get(fr, in.ops[1]);
            std::function<SVal(const SVal&, size_t)> rec = [&](const SVal& a, size_t d) -> SVal {
                if (d == in.nums.size()) return v;
                std::vector<SVal> k = *a.e->kids;
                k[in.nums[d]] = rec(k[in.nums[d]], d + 1);
                return SVal(mkAgg(k));
            };
            setReg(fr, in.dst, rec(agg, 0));
            break;
        }
        case I_EXTRACTEL: {
            SVal v = get(fr, in.ops[0]);
            u64 i = concretize(get(fr, in.ops[1]), 64, "vector index");
            if (i >= v.e->kids->size()) fail("out-of-bounds", "vector index");
            setReg(fr, in.dst, elemGet(v, i));
            break;
        }
        case I_INSERTEL: {
            SVal v = get(fr, in.ops[0]);
            u64 i = concretize(get(fr, in.ops[2]), 64, "vector index");
            std::vector<SVal> k = *v.e->kids;
            if (i >= k.size()) fail("out-of-bounds", "vector index");
            k[i] = get(fr, in.ops[1]);
            setReg(fr, in.dst, SVal(mkAgg(k)));
            break;
        }
        case I_SHUFFLE: {
            SVal a = get(fr, in.ops[0]), b = get(fr, in.ops[1]);
            u32 n = in.ty2->elems.size();
            std::vector<SVal> k;
            for (u64 m : in.nums) {
                s64 x = (s64) m;
                if (x < 0) k.push_back(SVal((u64) 0));
                else k.push_back((u64) x < n ? elemGet(a, x) : elemGet(b, x - n));
            }
            setReg(fr, in.dst, SVal(mkAgg(k)));
            break;
        }
        case I_UNREACHABLE: fail("unreachable", "unreachable code executed"); break;
        case I_FNEG: {
            SVal a = get(fr, in.ops[0]);
            auto neg = [&](const SVal& v, u32 w) { return binop(OXor, v, w == 64 ? SVal(1ull << 63) : SVal(1ull << 31), w); };
            if (in.w > 64) unsupported("fp80");
            if (in.w) setReg(fr, in.dst, neg(a, in.w));
            else setReg(fr, in.dst, mapAgg(*this, in.ty, [&](u32 i) { return neg(elemGet(a, i), in.ty->elems[i]->bits); }));
            break;
        }
        case I_FREEZE: setReg(fr, in.dst, get(fr, in.ops[0])); break;
        case I_ATOMICRMW: {
            SVal p = get(fr, in.ops[0]), v = get(fr, in.ops[1]);
            SVal off; resolve(p, in.w / 8, true, off, "atomic"); // fork before side effects
            SVal old = loadScalar(p, in.w);
            using A = llvm::AtomicRMWInst;
            SVal nv;
            switch (in.sub) {
                case A::Xchg: nv = v; break;
                case A::Add: nv = binop(OAdd, old, v, in.w); break;
                case A::Sub: nv = binop(OSub, old, v, in.w); break;
                case A::And: nv = binop(OAnd, old, v, in.w); break;
                case A::Or: nv = binop(OOr, old, v, in.w); break;
                case A::Xor: nv = binop(OXor, old, v, in.w); break;
                default: unsupported("atomicrmw");
            }
            storeScalar(p, in.w, nv);
            setReg(fr, in.dst, old);
            break;
        }
        case I_CMPXCHG: {
            SVal p = get(fr, in.ops[0]), c = get(fr, in.ops[1]), v = get(fr, in.ops[2]);
            SVal old = loadScalar(p, in.w2);
            SVal eq = icmp(llvm::CmpInst::ICMP_EQ, old, c, in.w2);
            bool t = branch(eq);
            if (t) storeScalar(p, in.w2, v);
            setReg(fr, in.dst, SVal(mkAgg({old, SVal((u64) t)})));
            break;
        }
        case I_NOP: break;
        default: {
            std::string s; llvm::raw_string_ostream os(s);
            if (in.src) in.src->print(os);
            unsupported("instruction " + os.str());
        }
    }
}

void Engine::doCall(Frame* fr, Instr& in) {
    Func* f = in.callee;
    size_t nargs = in.ops.size() - (in.cst ? 1 : 0);
    if (in.cst) {
        SVal fp = get(fr, in.ops.back());
        u64 a = concretize(fp, 64, "function pointer");
        u64 id = (a - FBASE) / 16;
        if (a < FBASE || id >= funcs.size() || (a & 15)) fail(a < 4096 ? "null-call" : "bad-call", "call through invalid function pointer");
        f = funcs[id];
    }
    std::vector<SVal> args;
    args.reserve(nargs);
    for (size_t i = 0; i < nargs; i++) args.push_back(get(fr, in.ops[i]));
    if (f->builtin) {
        SVal ret;
        f->executed = true;
        (this->*(f->builtin))(in, args, ret);
        if (in.dst >= 0) setReg(fr, in.dst, ret);
    } else if (f->isDecl) {
        unsupported("external function " + f->name);
    } else {
        for (size_t i = 0; i < nargs; i++)
            if (i < in.nums.size() && in.nums[i]) { // byval copy
                SVal off;
                MemObj* s = resolve(args[i], in.nums[i], false, off, "byval read");
                u64 so = concretize(off, 64, "byval");
                u64 idx = table.size();
                MemObj* d = newObj(in.nums[i], K_STACK, "byval");
                if (!cps.empty() && fr->trailPos < cps.back().trailSize) { TE t{}; t.kind = T_ALLOCA; t.p = fr; trail.push_back(t); }
                fr->allocas.push_back(idx);
                copyBytes(d, 0, s, so, in.nums[i]);
                args[i] = SVal(d->base);
            }
        pushFrame(f, args, in.dst, f->numArgs);
    }
    if (!in.edges.empty()) { // invoke: normal destination follows the return
        fr->pc = in.edges[0].target;
    }
}

// ------------------------------------------------------------------ builtins

#define BI(n) void Engine::n(Instr& in, std::vector<SVal>& a, SVal& r)

BI(b_malloc) {
    u64 n = concretize(a[0], 64, "malloc size");
    MemObj* o = newObj(n, K_HEAP, "heap block");
    o->allocSite = location();
    r = SVal(o->base);
}
BI(b_calloc) {
    u64 n = concretize(a[0], 64, "calloc") * concretize(a[1], 64, "calloc");
    MemObj* o = newObj(n, K_HEAP, "heap block");
    memset(o->conc, 0, n);
    o->allocSite = location();
    r = SVal(o->base);
}
BI(b_posix_memalign) {
    u64 n = concretize(a[2], 64, "memalign");
    SVal off; resolve(a[0], 8, true, off, "posix_memalign");
    MemObj* o = newObj(n, K_HEAP, "heap block");
    o->allocSite = location();
    storeScalar(a[0], 64, SVal(o->base));
    r = SVal((u64) 0);
}
BI(b_free) {
    u64 p = concretize(a[0], 64, "free");
    if (!p) return;
    MemObj* o = find(p);
    if (!o || o->kind != K_HEAP) fail("bad-free", "free of a pointer that is not a heap block");
    if (!o->alive) fail("double-free", "heap block freed twice, allocated at " + o->allocSite);
    if (p != o->base) fail("bad-free", "free of an interior pointer, block allocated at " + o->allocSite);
    killObj(o);
}
BI(b_realloc) {
    u64 p = concretize(a[0], 64, "realloc");
    u64 n = concretize(a[1], 64, "realloc size");
    if (!p) { MemObj* o = newObj(n, K_HEAP, "heap block"); o->allocSite = location(); r = SVal(o->base); return; }
    MemObj* o = find(p);
    if (!o || o->kind != K_HEAP || p != o->base) fail("bad-free", "realloc of a pointer that is not a heap block");
    if (!o->alive) fail("use-after-free", "realloc of a freed block");
    if (n == 0) { killObj(o); r = SVal((u64) 0); return; }
    MemObj* d = newObj(n, K_HEAP, "heap block");
    d->allocSite = location();
    copyBytes(d, 0, o, 0, std::min(n, o->size));
    killObj(o);
    r = SVal(d->base);
}
BI(b_memcpy) { b_memmove(in, a, r); }
BI(b_memmove) {
    u64 n = concretize(a[2], 64, "memcpy length");
    r = a[0];
    if (!n) return;
    SVal so, doff;
    MemObj* s = resolve(a[1], n, false, so, "memcpy read");
    MemObj* d = resolve(a[0], n, true, doff, "memcpy write");
    u64 s0 = concretize(so, 64, "memcpy source"), d0 = concretize(doff, 64, "memcpy dest");
    copyBytes(d, d0, s, s0, n);
}
BI(b_memset) {
    u64 n = concretize(a[2], 64, "memset length");
    r = a[0];
    if (!n) return;
    SVal off;
    MemObj* d = resolve(a[0], n, true, off, "memset");
    u64 d0 = concretize(off, 64, "memset");
    if (!a[1].e) {
        std::vector<u8> b(n, (u8) a[1].lo);
        memWriteConc(d, d0, b.data(), n);
    } else {
        SVal bv(mkExtract(a[1].e, 0, 8));
        for (u64 i = 0; i < n; i++) memWriteAt(d, d0 + i, 8, bv);
    }
}
BI(b_memcmp) {
    u64 n = concretize(a[2], 64, "memcmp length");
    r = SVal((u64) 0);
    if (!n) return;
    SVal xo, yo;
    MemObj* x = resolve(a[0], n, false, xo, "memcmp read");
    MemObj* y = resolve(a[1], n, false, yo, "memcmp read");
    u64 x0 = concretize(xo, 64, "memcmp"), y0 = concretize(yo, 64, "memcmp");
    Expr* res = mkConst(0, 32);
    for (u64 i = n; i-- > 0;) {
        Expr* p = toExpr(memReadAt(x, x0 + i, 8), 8);
        Expr* q = toExpr(memReadAt(y, y0 + i, 8), 8);
        if (p == q) continue;
        res = mkIte(mkBin(OEq, p, q), res, mkIte(mkBin(OUlt, p, q), mkConst(0xffffffff, 32), mkConst(1, 32)));
    }
    r = SVal(res);
}
BI(b_sx_eq) { // 1 iff equal
    u64 n = concretize(a[2], 64, "length");
    r = SVal((u64) 1);
    if (!n) return;
    SVal xo, yo;
    MemObj* x = resolve(a[0], n, false, xo, "compare read");
    MemObj* y = resolve(a[1], n, false, yo, "compare read");
    u64 x0 = concretize(xo, 64, "cmp"), y0 = concretize(yo, 64, "cmp");
    Expr* res = mkConst(1, 1);
    for (u64 i = 0; i < n; i++) {
        Expr* p = toExpr(memReadAt(x, x0 + i, 8), 8);
        Expr* q = toExpr(memReadAt(y, y0 + i, 8), 8);
        res = mkBin(OAnd, res, mkBin(OEq, p, q));
    }
    r = SVal(in.w == 1 ? res : mkZExt(res, in.w));
}
BI(b_strlen) {
    u64 n = 0;
    for (;; n++) {
        SVal c = loadScalar(addv(a[0], SVal(n)), 8);
        if (branch(icmp(llvm::CmpInst::ICMP_EQ, c, SVal((u64) 0), 8))) break;
    }
    r = SVal(n);
}
BI(b_memchr) {
    u64 n = concretize(a[2], 64, "memchr length");
    Expr* c = mkExtract(toExpr(a[1], 32), 0, 8);
    for (u64 i = 0; i < n; i++) {
        SVal p = addv(a[0], SVal(i));
        SVal b = loadScalar(p, 8);
        if (branch(SVal(mkBin(OEq, toExpr(b, 8), c)))) { r = p; return; }
    }
    r = SVal((u64) 0);
}
BI(b_nop) {}
BI(b_zero) { r = SVal((u64) 0); }
BI(b_identity) { r = a[0]; }
BI(b_abort) { fail("abort", "abort/exit called"); }
BI(b_trap) { fail("trap", "assertion failure or trap"); }
BI(b_purevirt) { fail("pure-virtual", "pure virtual function called"); }
BI(b_guard_acquire) {
    SVal g = loadScalar(a[0], 8);
    r = SVal((u64) (concretize(g, 8, "guard") == 0));
}
BI(b_guard_release) { storeScalar(a[0], 8, SVal((u64) 1)); }
BI(b_errno) { r = SVal(errnoAddr); }

std::string Engine::readCStr(SVal v) {
    std::string s;
    if (v.e) return "?";
    MemObj* o = find(v.lo);
    if (!o || !o->alive) return "?";
    for (u64 i = v.lo - o->base; i < o->size && o->conc[i]; i++) s += (char) o->conc[i];
    return s;
}
Expr* Engine::freshVar(const std::string& name, u32 w) {
    std::string key = name + ":" + std::to_string(w);
    auto it = inputVars.find(key);
    if (it != inputVars.end()) return it->second;
    return inputVars[key] = mkVar(name, w);
}
static void growModel(Model& m) { if (m.size() < g_vars.size()) m.resize(g_vars.size(), 0); }

BI(b_sx_bytes) { // (ptr, n, name)
    u64 n = concretize(a[1], 64, "sx_bytes");
    std::string nm = readCStr(a[2]);
    InputRec rec; rec.name = nm; rec.width = 8;
    if (n) {
        SVal off;
        MemObj* o = resolve(a[0], n, true, off, "sx_bytes");
        u64 o0 = concretize(off, 64, "sx_bytes");
        for (u64 i = 0; i < n; i++) {
            Expr* v = freshVar(nm + "#" + std::to_string(inputs.size()) + "[" + std::to_string(i) + "]", 8);
            rec.bytes.push_back(v);
            memWriteAt(o, o0 + i, 8, SVal(v));
        }
    }
    growModel(pc_.model);
    inputs.push_back(rec);
}
BI(b_sx_var) { // u64 sx_var(bits, name)
    u64 w = concretize(a[0], 64, "sx_var");
    std::string nm = readCStr(a[1]);
    InputRec rec; rec.name = nm; rec.width = w;
    Expr* v = freshVar(nm + "#" + std::to_string(inputs.size()), w);
    rec.bytes.push_back(mkZExt(v, 64));
    growModel(pc_.model);
    inputs.push_back(rec);
    r = SVal(mkZExt(v, 64));
}
BI(b_sx_range) { // u64 sx_range(lo, hi, name)
    u64 lo = concretize(a[0], 64, "lo"), hi = concretize(a[1], 64, "hi");
    std::string nm = readCStr(a[2]);
    if (hi < lo) endPath(1);
    InputRec rec; rec.name = nm;
    if (lo == hi) { rec.width = 64; rec.bytes.push_back(mkConst(lo, 64)); inputs.push_back(rec); r = SVal(lo); return; }
    u32 w = hi - lo < 256 ? 8 : 64;
    Expr* v = freshVar(nm + "#" + std::to_string(inputs.size()), w);
    growModel(pc_.model);
    if (evalIn(v, pc_.model) > hi - lo) pc_.model[v->aux] = 0;
    if (hi - lo != (u64) maskOf(w)) pc_.add(mkBin(OUle, v, mkConst(hi - lo, w)), true);
    Expr* e = mkBin(OAdd, mkZExt(v, 64), mkConst(lo, 64));
    rec.width = 64; rec.bytes.push_back(e);
    inputs.push_back(rec);
    r = SVal(e);
}
BI(b_sx_assume) {
    SVal c = a[0];
    if (!c.e) { if (!(c.lo & 1)) endPath(1); return; }
    Expr* e = c.e->width == 1 ? c.e : mkNot(mkBin(OEq, c.e, mkConst(0, c.e->width)));
    if (e->isConst()) { if (!e->val) endPath(1); return; }
    if (!evalIn(e, pc_.model)) {
        Model m;
        Sat s = pc_.mayBeTrue(e, m);
        if (s == UNKNOWN) { sh->abandoned++; endPath(4); }
        if (s != SAT_) endPath(1);
        pc_.model = m;
    }
    pc_.add(e, true);
}
BI(b_sx_assert) { // (cond, msg)
    SVal c = a[0];
    std::string msg = readCStr(a[1]);
    if (!c.e) {
        g_sstats.assertTrivial++;
        if (!(c.lo & 1)) fail("assert", msg);
        return;
    }
    Expr* e = c.e->width == 1 ? c.e : mkNot(mkBin(OEq, c.e, mkConst(0, c.e->width)));
    if (e->isConst()) { g_sstats.assertTrivial++; if (!e->val) fail("assert", msg); return; }
    bool kv;
    if (pc_.known(e, kv)) { g_sstats.assertTrivial++; if (!kv) fail("assert", msg); return; }
    if (!evalIn(e, pc_.model)) {
        report("assert", msg, pc_.model);
        Model m;
        if (pc_.mayBeTrue(e, m) != SAT_) endPath(2);
        pc_.model = m;
        pc_.add(e, true);
        return;
    }
    Model m;
    g_sstats.assertQueries++;
    Sat s = pc_.mayBeTrue(mkNot(e), m, true);
    if (s == SAT_) report("assert", msg, m);
    else if (s == UNSAT) g_sstats.assertProved++;
    else sh->abandoned++;
    if (s != UNSAT) pc_.add(e, true);
}
BI(b_sx_reach) {
    std::string n = readCStr(a[0]);
    Lock l(sh);
    for (auto& rr : sh->reach) {
        if (rr.name[0] == 0) { strncpy(rr.name, n.c_str(), 95); rr.count = 1; return; }
        if (n == rr.name) { rr.count++; return; }
    }
}
BI(b_sx_param) {
    std::string n = readCStr(a[0]);
    auto it = params.find(n);
    r = it == params.end() ? a[1] : SVal((u64) it->second);
}
BI(b_sx_mark_heap) {
    logU64(&heapMark);
    heapMark = allocSerial;
    r = SVal((u64) 0);
}
BI(b_sx_check_leaks) {
    for (size_t i = 0; i < table.size(); i++) {
        MemObj* o = table[i];
        if (o && o->kind == K_HEAP && o->alive && o->serial > heapMark)
            fail("leak", "heap block of " + std::to_string(o->size) + " bytes never freed, allocated at " + o->allocSite);
    }
}
BI(b_sx_live) {
    u64 n = 0;
    MemObj* last = nullptr;
    for (MemObj* o : table) if (o && o != last) { last = o; if (o->kind == K_HEAP && o->alive && o->serial > heapMark) n++; }
    r = SVal(n);
}
BI(b_sx_concrete) { r = SVal(concretize(a[0], 64, "sx_concrete")); }
BI(b_sx_is_sym) { r = SVal((u64) (a[0].e != nullptr)); }
BI(b_sx_stop) { while (stack.size() > 0) popFrame(); }
BI(b_sx_print) {
    if (!verbose) return;
    fprintf(stderr, "[sx] %s", readCStr(a[0]).c_str());
    if (a.size() > 1) { if (a[1].e) fprintf(stderr, " %s", exprToString(a[1].e).c_str()); else fprintf(stderr, " %llx", (unsigned long long) a[1].lo); }
    fprintf(stderr, "\n");
}
BI(b_math) {
    Func* f = in.callee;
    std::string n = f->name;
    bool isF = n.back() == 'f' && n != "modf" && n != "erf";
    if (isF) n.pop_back();
    u32 w = isF ? 32 : 64;
    if (n == "fabs") { r = binop(OAnd, a[0], SVal(isF ? 0x7fffffffull : ~0ull >> 1), w); return; }
    Op op = OConst;
    if (n == "sqrt") op = OFSqrt; else if (n == "floor") op = OFFloor; else if (n == "ceil") op = OFCeil; else if (n == "trunc") op = OFTrunc_; else if (n == "round") op = OFRound;
    if (op != OConst) { r = SVal(mkFUn(op, toExpr(a[0], w), w)); return; }
    if (a[0].e || (a.size() > 1 && a[1].e)) unsupported("symbolic " + n);
    double x, y = 0;
    auto dec = [&](u64 v) { double d; if (isF) { float t; u32 q = (u32) v; memcpy(&t, &q, 4); d = t; } else memcpy(&d, &v, 8); return d; };
    x = dec(a[0].lo);
    if (n == "ldexp") { double d = ldexp(x, (int) a[1].lo); u64 o; memcpy(&o, &d, 8); r = SVal(o); return; }
    if (n == "frexp") { int e; double d = frexp(x, &e); storeScalar(a[1], 32, SVal((u64) (u32) e)); u64 o; memcpy(&o, &d, 8); r = SVal(o); return; }
    if (a.size() > 1) y = dec(a[1].lo);
    double d = 0; float fr_ = 0;
#define M1(nm) if (n == #nm) { d = nm(x); fr_ = nm##f((float) x); }
#define M2(nm) if (n == #nm) { d = nm(x, y); fr_ = nm##f((float) x, (float) y); }
    M1(sin) M1(cos) M1(tan) M1(exp) M1(log) M1(acos) M1(asin) M1(exp2) M1(log2) M1(log10) M2(pow) M2(fmod) M2(atan2)
    if (isF) { u32 q; memcpy(&q, &fr_, 4); r = SVal((u64) q); }
    else { u64 q; memcpy(&q, &d, 8); r = SVal(q); }
}

BI(b_intrinsic) {
    const llvm::Instruction* I = in.src;
    auto* ci = llvm::cast<llvm::CallBase>(I);
    using namespace llvm;
    u32 id = in.callee->f->getIntrinsicID();
    u32 w = in.w;
    auto each = [&](std::function<SVal(std::vector<SVal>&, u32)> f) {
        if (in.ty->scalar) { r = f(a, in.ty->bits); return; }
        r = mapAgg(*this, in.ty, [&](u32 i) {
            std::vector<SVal> k;
            for (auto& x : a) k.push_back(x.e && x.e->op == OAgg ? elemGet(x, i) : x);
            return f(k, in.ty->elems[i]->bits);
        });
    };
    switch (id) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: b_memmove(in, a, r); return;
        case Intrinsic::memset: b_memset(in, a, r); return;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
        case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch:
        case Intrinsic::var_annotation:
            return;
        case Intrinsic::stacksave: r = SVal((u64) 0); return;
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: b_trap(in, a, r); return;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation:
            r = a[0]; return;
        case Intrinsic::is_constant: r = SVal((u64) 0); return;
        case Intrinsic::objectsize: r = SVal(w == 64 ? ~0ull : 0xffffffffull); return;
        case Intrinsic::umin: each([&](std::vector<SVal>& k, u32 w) { SVal c = icmp(CmpInst::ICMP_ULT, k[0], k[1], w); if (!c.e) return c.lo ? k[0] : k[1]; return SVal(mkIte(c.e, toExpr(k[0], w), toExpr(k[1], w))); }); return;
        case Intrinsic::umax: each([&](std::vector<SVal>& k, u32 w) { SVal c = icmp(CmpInst::ICMP_UGT, k[0], k[1], w); if (!c.e) return c.lo ? k[0] : k[1]; return SVal(mkIte(c.e, toExpr(k[0], w), toExpr(k[1], w))); }); return;
        case Intrinsic::smin: each([&](std::vector<SVal>& k, u32 w) { SVal c = icmp(CmpInst::ICMP_SLT, k[0], k[1], w); if (!c.e) return c.lo ? k[0] : k[1]; return SVal(mkIte(c.e, toExpr(k[0], w), toExpr(k[1], w))); }); return;
        case Intrinsic::smax: each([&](std::vector<SVal>& k, u32 w) { SVal c = icmp(CmpInst::ICMP_SGT, k[0], k[1], w); if (!c.e) return c.lo ? k[0] : k[1]; return SVal(mkIte(c.e, toExpr(k[0], w), toExpr(k[1], w))); }); return;
        case Intrinsic::abs: each([&](std::vector<SVal>& k, u32 w) {
            SVal n = binop(OSub, SVal((u64) 0), k[0], w);
            SVal c = icmp(CmpInst::ICMP_SLT, k[0], SVal((u64) 0), w);
            if (!c.e) return c.lo ? n : k[0];
            return SVal(mkIte(c.e, toExpr(n, w), toExpr(k[0], w))); }); return;
        case Intrinsic::usub_sat: each([&](std::vector<SVal>& k, u32 w) {
            SVal c = icmp(CmpInst::ICMP_ULT, k[0], k[1], w); SVal d = binop(OSub, k[0], k[1], w);
            if (!c.e) return c.lo ? SVal((u64) 0) : d;
            return SVal(mkIte(c.e, mkConst(0, w), toExpr(d, w))); }); return;
        case Intrinsic::uadd_sat: each([&](std::vector<SVal>& k, u32 w) {
            SVal d = binop(OAdd, k[0], k[1], w); SVal c = icmp(CmpInst::ICMP_ULT, d, k[0], w);
            if (!c.e) return c.lo ? SVal((u64) maskOf(w)) : d;
            return SVal(mkIte(c.e, mkConst(maskOf(w), w), toExpr(d, w))); }); return;
        case Intrinsic::bswap: each([&](std::vector<SVal>& k, u32 w) {
            Expr* e = toExpr(k[0], w); Expr* res = nullptr;
            for (u32 i = 0; i < w; i += 8) { Expr* b = mkExtract(e, i, 8); res = res ? mkConcat(res, b) : b; }
            return SVal(res); }); return;
        case Intrinsic::ctpop: each([&](std::vector<SVal>& k, u32 w) {
            Expr* e = toExpr(k[0], w); Expr* s = mkConst(0, w);
            for (u32 i = 0; i < w; i++) s = mkBin(OAdd, s, mkZExt(mkExtract(e, i, 1), w));
            return SVal(s); }); return;
        case Intrinsic::ctlz: each([&](std::vector<SVal>& k, u32 w) {
            Expr* e = toExpr(k[0], w); Expr* s = mkConst(w, w);
            for (u32 i = 0; i < w; i++) s = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), s);
            return SVal(s); }); return;
        case Intrinsic::cttz: each([&](std::vector<SVal>& k, u32 w) {
            Expr* e = toExpr(k[0], w); Expr* s = mkConst(w, w);
            for (u32 i = w; i-- > 0;) s = mkIte(mkExtract(e, i, 1), mkConst(i, w), s);
            return SVal(s); }); return;
        case Intrinsic::fshl: case Intrinsic::fshr: each([&](std::vector<SVal>& k, u32 w) {
            Expr* s = mkBin(OURem, toExpr(k[2], w), mkConst(w, w));
            Expr *x = toExpr(k[0], w), *y = toExpr(k[1], w);
            Expr* inv = mkBin(OSub, mkConst(w, w), s);
            Expr* z = mkBin(OEq, s, mkConst(0, w));
            if (id == Intrinsic::fshl) return SVal(mkIte(z, x, mkBin(OOr, mkBin(OShl, x, s), mkBin(OLShr, y, inv))));
            return SVal(mkIte(z, y, mkBin(OOr, mkBin(OLShr, y, s), mkBin(OShl, x, inv)))); }); return;
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            u32 bw = in.ty->elems[0]->bits;
            if (bw > 64) unsupported("wide overflow op");
            u32 ww = bw * 2;
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            Expr *x = toExpr(a[0], bw), *y = toExpr(a[1], bw);
            Expr *X = sg ? mkSExt(x, ww) : mkZExt(x, ww), *Y = sg ? mkSExt(y, ww) : mkZExt(y, ww);
            Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? OAdd : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? OSub : OMul;
            Expr* R = mkBin(op, X, Y);
            Expr* lo = mkExtract(R, 0, bw);
            Expr* back = sg ? mkSExt(lo, ww) : mkZExt(lo, ww);
            Expr* ov = mkNot(mkBin(OEq, back, R));
            r = SVal(mkAgg({SVal(lo), SVal(ov)}));
            return;
        }
        case Intrinsic::fabs: each([&](std::vector<SVal>& k, u32 w) { return binop(OAnd, k[0], SVal(w == 32 ? 0x7fffffffull : ~0ull >> 1), w); }); return;
        case Intrinsic::sqrt: each([&](std::vector<SVal>& k, u32 w) { return SVal(mkFUn(OFSqrt, toExpr(k[0], w), w)); }); return;
        case Intrinsic::floor: each([&](std::vector<SVal>& k, u32 w) { return SVal(mkFUn(OFFloor, toExpr(k[0], w), w)); }); return;
        case Intrinsic::ceil: each([&](std::vector<SVal>& k, u32 w) { return SVal(mkFUn(OFCeil, toExpr(k[0], w), w)); }); return;
        case Intrinsic::trunc: each([&](std::vector<SVal>& k, u32 w) { return SVal(mkFUn(OFTrunc_, toExpr(k[0], w), w)); }); return;
        case Intrinsic::round: each([&](std::vector<SVal>& k, u32 w) { return SVal(mkFUn(OFRound, toExpr(k[0], w), w)); }); return;
        case Intrinsic::fmuladd: each([&](std::vector<SVal>& k, u32 w) { return binop(OFAdd, binop(OFMul, k[0], k[1], w), k[2], w); }); return;
        case Intrinsic::minnum: each([&](std::vector<SVal>& k, u32 w) { Expr *x = toExpr(k[0], w), *y = toExpr(k[1], w); return SVal(mkIte(mkFUn(OFIsNan, x, 1), y, mkIte(mkFUn(OFIsNan, y, 1), x, mkIte(mkBin(OFLt, x, y), x, y)))); }); return;
        case Intrinsic::maxnum: each([&](std::vector<SVal>& k, u32 w) { Expr *x = toExpr(k[0], w), *y = toExpr(k[1], w); return SVal(mkIte(mkFUn(OFIsNan, x, 1), y, mkIte(mkFUn(OFIsNan, y, 1), x, mkIte(mkBin(OFLt, x, y), y, x)))); }); return;
        case Intrinsic::pow: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: unsupported("fp intrinsic " + in.callee->name); return;
        case Intrinsic::x86_sse_cvttss2si: {
            Expr* x = toExpr(elemGet(a[0], 0), 32);
            auto cf = [](float f) { u32 v; memcpy(&v, &f, 4); return mkConst(v, 32); };
            Expr* in = mkBin(OAnd, mkBin(OFLe, cf(-2147483648.f), x), mkBin(OFLt, x, cf(2147483648.f)));
            r = SVal(mkIte(in, mkFUn(OFToSI, x, 32), mkConst(0x80000000u, 32)));
            return;
        }
        default: {
            // vector reductions that simple loops are turned into
            StringRef n = in.callee->f->getName();
            if (n.starts_with("llvm.vector.reduce.")) {
                Op op = n.contains(".add.") ? OAdd : n.contains(".or.") ? OOr : n.contains(".and.") ? OAnd : n.contains(".xor.") ? OXor : n.contains(".mul.") ? OMul : OConst;
                if (op != OConst) {
                    SVal acc = elemGet(a[0], 0);
                    for (u32 i = 1; i < a[0].e->kids->size(); i++) acc = binop(op, acc, elemGet(a[0], i), w);
                    r = acc;
                    return;
                }
            }
            unsupported("intrinsic " + n.str());
        }
    }
    (void) ci;
}

// ------------------------------------------------------------------ driver

void Engine::finishProcess() {
    sh->steps += totalSteps; sh->exprs += g_numExprs;
    auto& s = g_sstats;
    sh->z3Queries += s.z3Queries; sh->z3Sat += s.z3Sat; sh->z3Unsat += s.z3Unsat; sh->z3Unknown += s.z3Unknown;
    sh->domainDecided += s.domainDecided; sh->modelDecided += s.modelDecided; sh->polyDecided += g_polyDecided; sh->intDecided += g_intDecided; sh->cacheHits += s.cacheHits; sh->cexHits += s.cexHits;
    sh->assertQueries += s.assertQueries; sh->assertProved += s.assertProved; sh->assertTrivial += s.assertTrivial;
    sh->z3Micros += (u64) (s.z3Seconds * 1e6);
    u64 mx = (u64) (s.z3MaxSeconds * 1e6), cur = sh->z3MaxMicros;
    while (mx > cur && !sh->z3MaxMicros.compare_exchange_weak(cur, mx)) {}
    std::ofstream o(outDir + "/funcs-" + std::to_string(getpid()));
    for (Func* f : funcs) if (f->executed && !f->builtin) o << f->name << "\n";
    o.close();
    sh->active--;
}

int Engine::run(const std::string& entry) {
    llvm::Function* ef = M->getFunction(entry);
    if (!ef || ef->isDeclaration()) { fprintf(stderr, "symex: no entry %s\n", entry.c_str()); return 3; }
    startTime = now();
    sh->active = 1; sh->procs = 1;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    pc_.model.clear();
    // static constructors, in order
    std::vector<std::pair<u64, llvm::Function*>> ctors;
    if (auto* gv = M->getGlobalVariable("llvm.global_ctors"))
        if (auto* ca = llvm::dyn_cast<llvm::ConstantArray>(gv->getInitializer()))
            for (u32 i = 0; i < ca->getNumOperands(); i++) {
                auto* cs = llvm::cast<llvm::ConstantStruct>(ca->getOperand(i));
                ctors.push_back({llvm::cast<llvm::ConstantInt>(cs->getOperand(0))->getZExtValue(), llvm::cast<llvm::Function>(cs->getOperand(1))});
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& x, auto& y) { return x.first < y.first; });
    bool initOk = true;
    for (auto& c : ctors) {
        pushFrame(getFunc(c.second), {}, -1, 0);
        try { while (!stack.empty()) step(); } catch (PathEnd& e) { initOk = false; break; }
    }
    if (initOk) {
        steps = 0;
        pushFrame(getFunc(ef), {}, -1, 0);
        exec();
    }
    finishProcess();
    if (isChild) _exit(0);
    int st;
    for (;;) {
        pid_t p = wait(&st);
        if (p < 0) break;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { sh->deaths++; sh->active--; }
    }
    std::set<std::string> fns;
    if (FILE* p = popen(("cat " + outDir + "/funcs-* && rm -f " + outDir + "/funcs-*").c_str(), "r")) {
        char buf[4096];
        while (fgets(buf, sizeof buf, p)) { std::string s = buf; if (!s.empty() && s.back() == '\n') s.pop_back(); fns.insert(s); }
        pclose(p);
    }
    std::ofstream o(outDir + "/stats.json");
    o << "{\"paths\":" << sh->paths << ",\"paths_completed\":" << sh->pathsCompleted << ",\"assume_pruned\":" << sh->assumeFail
      << ",\"instructions\":" << sh->steps << ",\"forks\":" << sh->forks << ",\"findings\":" << sh->findings
      << ",\"unsupported\":" << sh->unsupported << ",\"unsupported_msg\":" << jstr(sh->unsupportedMsg) << ",\"abandoned\":" << sh->abandoned
      << ",\"engine_deaths\":" << sh->deaths << ",\"step_limit\":" << sh->stepLimit << ",\"timed_out\":" << (sh->timedOut ? "true" : "false")
      << ",\"init_ok\":" << (initOk ? "true" : "false")
      << ",\"stopped\":" << (sh->stop ? "true" : "false") << ",\"processes\":" << sh->procs
      << ",\"z3_queries\":" << sh->z3Queries << ",\"z3_sat\":" << sh->z3Sat << ",\"z3_unsat\":" << sh->z3Unsat << ",\"z3_unknown\":" << sh->z3Unknown
      << ",\"z3_seconds\":" << sh->z3Micros / 1e6 << ",\"z3_max_seconds\":" << sh->z3MaxMicros / 1e6
      << ",\"byte_domain_decided\":" << sh->domainDecided << ",\"model_decided\":" << sh->modelDecided << ",\"polynomials_decided\":" << sh->polyDecided << ",\"integer_decided\":" << sh->intDecided << ",\"cache_hits\":" << sh->cacheHits << ",\"cex_hits\":" << sh->cexHits
      << ",\"assert_queries\":" << sh->assertQueries << ",\"assert_proved\":" << sh->assertProved << ",\"assert_concrete\":" << sh->assertTrivial
      << ",\"exprs\":" << sh->exprs << ",\"wall_s\":" << elapsed() << ",\"reach\":{";
    bool first = true;
    for (auto& rr : sh->reach) if (rr.name[0]) { o << (first ? "" : ",") << jstr(rr.name) << ":" << rr.count; first = false; }
    o << "},\"functions\":[";
    first = true;
    for (auto& f : fns) { o << (first ? "" : ",") << jstr(f); first = false; }
    o << "]}\n";
    return 0;
}

int main(int argc, char** argv) {
    Engine E;
    std::string bc, entry = "harness";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx();
        else if (a == "--time") E.timeBudget = atof(nx().c_str());
        else if (a == "--procs") E.maxProcs = atoi(nx().c_str());
        else if (a == "--out") E.outDir = nx();
        else if (a == "--max-steps") E.maxSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--max-paths") E.maxPaths = strtoull(nx().c_str(), 0, 10);
        else if (a == "--max-findings") E.maxFindings = atoi(nx().c_str());
        else if (a == "--fork-select") E.forkSelect = true;
        else if (a == "--samples") E.maxSamples = atoi(nx().c_str());
        else if (a == "-v") E.verbose = true;
        else if (a == "--param") { std::string p = nx(); size_t q = p.find('='); E.params[p.substr(0, q)] = atoll(p.c_str() + q + 1); }
        else bc = a;
    }
    if (E.outDir.empty()) { fprintf(stderr, "usage: symex FILE.bc --entry F --out DIR [--param k=v]...\n"); return 3; }
    E.sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    solverInit(getenv("SX_RLIMIT") ? strtoull(getenv("SX_RLIMIT"), nullptr, 10) : 10000000);
    if (!E.load(bc)) return 3;
    return E.run(entry);
}
