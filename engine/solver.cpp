#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <map>
#include <unordered_set>

SolverStats g_sstats;
static Z3_context ctx;
static Z3_solver solver;

static void errHandler(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}

void solverInit(u64 rlimit) {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(ctx, errHandler);
    solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, solver);
    if (rlimit) {
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned) rlimit);
        Z3_solver_set_params(ctx, solver, p);
        Z3_params_dec_ref(ctx, p);
    }
}

static bool usesFloat = false;
static Z3_solver fpSolver = nullptr, quick = nullptr;
static const u32 guardLimit = getenv("SX_GUARDS") ? atoi(getenv("SX_GUARDS")) : 1000;
static const u32 quickLimit = getenv("SX_QUICK") ? atoi(getenv("SX_QUICK")) : 5000;

// The context counts references: everything built here is kept for the process's lifetime.
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_sort keepSort(Z3_sort s) { Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s)); return s; }
static Z3_sort bvSort(u32 w) {
    static std::map<u32, Z3_sort> m;
    Z3_sort& s = m[w];
    if (!s) s = keepSort(Z3_mk_bv_sort(ctx, w));
    return s;
}
static std::vector<Z3_ast> varAst;

static Z3_ast toZ3(Expr* e);
static Z3_ast toBV(Expr* e) { // width-1 booleans as bv1
    Z3_ast r = toZ3(e);
    if (e->width == 1) {
        Z3_ast one = keep(Z3_mk_unsigned_int64(ctx, 1, bvSort(1))), zero = keep(Z3_mk_unsigned_int64(ctx, 0, bvSort(1)));
        return keep(Z3_mk_ite(ctx, r, one, zero));
    }
    return r;
}
static Z3_sort fpSort(u32 w) {
    static Z3_sort s32 = keepSort(Z3_mk_fpa_sort_32(ctx)), s64 = keepSort(Z3_mk_fpa_sort_64(ctx));
    return w == 32 ? s32 : s64;
}
static Z3_ast toFP(Expr* e) { return keep(Z3_mk_fpa_to_fp_bv(ctx, toZ3(e), fpSort(e->width))); }
static Z3_ast fromFP(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, keep(f)); }
static Z3_ast rne() { static Z3_ast r = keep(Z3_mk_fpa_rne(ctx)); return r; }

static Z3_ast mkNum(u128 v, u32 w) {
    if (w <= 64) return keep(Z3_mk_unsigned_int64(ctx, (u64) v, bvSort(w)));
    Z3_ast hi = keep(Z3_mk_unsigned_int64(ctx, (u64) (v >> 64), bvSort(w - 64)));
    Z3_ast lo = keep(Z3_mk_unsigned_int64(ctx, (u64) v, bvSort(64)));
    return keep(Z3_mk_concat(ctx, hi, lo));
}

static Z3_ast toZ3(Expr* e) {
    if (e->z3) return (Z3_ast) e->z3;
    Z3_ast r = nullptr;
    bool b1 = e->width == 1;
    switch (e->op) {
        case OConst:
            r = b1 ? (e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : mkNum(e->val, e->width);
            break;
        case OVar: {
            char nm[32];
            snprintf(nm, sizeof nm, "v%u", e->aux);
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), b1 ? Z3_mk_bool_sort(ctx) : bvSort(e->width));
            if (varAst.size() <= e->aux) varAst.resize(e->aux + 1, nullptr);
            varAst[e->aux] = r;
            break;
        }
        case OAdd: case OSub: case OXor:
            if (b1) { r = Z3_mk_xor(ctx, toZ3(e->a), toZ3(e->b)); break; }
            r = e->op == OAdd ? Z3_mk_bvadd(ctx, toZ3(e->a), toZ3(e->b)) : e->op == OSub ? Z3_mk_bvsub(ctx, toZ3(e->a), toZ3(e->b)) : Z3_mk_bvxor(ctx, toZ3(e->a), toZ3(e->b));
            break;
        case OAnd: case OMul: {
            Z3_ast as[2] = {toZ3(e->a), toZ3(e->b)};
            if (b1) r = Z3_mk_and(ctx, 2, as);
            else r = e->op == OAnd ? Z3_mk_bvand(ctx, as[0], as[1]) : Z3_mk_bvmul(ctx, as[0], as[1]);
            break;
        }
        case OOr: {
            Z3_ast as[2] = {toZ3(e->a), toZ3(e->b)};
            r = b1 ? Z3_mk_or(ctx, 2, as) : Z3_mk_bvor(ctx, as[0], as[1]);
            break;
        }
        case OUDiv: case OSDiv: case OURem: case OSRem: case OShl: case OLShr: case OAShr: {
            Z3_ast x = toBV(e->a), y = toBV(e->b);
            switch (e->op) {
                case OUDiv: r = Z3_mk_bvudiv(ctx, x, y); break;
                case OSDiv: r = Z3_mk_bvsdiv(ctx, x, y); break;
                case OURem: r = Z3_mk_bvurem(ctx, x, y); break;
                case OSRem: r = Z3_mk_bvsrem(ctx, x, y); break;
                case OShl: r = Z3_mk_bvshl(ctx, x, y); break;
                case OLShr: r = Z3_mk_bvlshr(ctx, x, y); break;
                default: r = Z3_mk_bvashr(ctx, x, y); break;
            }
            if (b1) { keep(r); r = Z3_mk_eq(ctx, r, mkNum(1, 1)); }
            break;
        }
        case OEq: r = Z3_mk_eq(ctx, toZ3(e->a), toZ3(e->b)); break;
        case OUlt: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
        case OUle: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
        case OSlt: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
        case OSle: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
        case OConcat: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
        case OExtract:
            r = Z3_mk_extract(ctx, e->aux + e->width - 1, e->aux, toBV(e->a));
            if (b1) { keep(r); r = Z3_mk_eq(ctx, r, mkNum(1, 1)); }
            break;
        case OZExt: r = Z3_mk_zero_ext(ctx, e->width - e->a->width, toBV(e->a)); break;
        case OSExt: r = Z3_mk_sign_ext(ctx, e->width - e->a->width, toBV(e->a)); break;
        case OIte: r = Z3_mk_ite(ctx, toZ3(e->a), toZ3(e->b), toZ3(e->c)); break;
        case OFAdd: r = fromFP(Z3_mk_fpa_add(ctx, rne(), toFP(e->a), toFP(e->b))); break;
        case OFSub: r = fromFP(Z3_mk_fpa_sub(ctx, rne(), toFP(e->a), toFP(e->b))); break;
        case OFMul: r = fromFP(Z3_mk_fpa_mul(ctx, rne(), toFP(e->a), toFP(e->b))); break;
        case OFDiv: r = fromFP(Z3_mk_fpa_div(ctx, rne(), toFP(e->a), toFP(e->b))); break;
        case OFRem: r = fromFP(Z3_mk_fpa_rem(ctx, toFP(e->a), toFP(e->b))); break;
        case OFSqrt: r = fromFP(Z3_mk_fpa_sqrt(ctx, rne(), toFP(e->a))); break;
        case OFFloor: r = fromFP(Z3_mk_fpa_round_to_integral(ctx, keep(Z3_mk_fpa_rtn(ctx)), toFP(e->a))); break;
        case OFCeil: r = fromFP(Z3_mk_fpa_round_to_integral(ctx, keep(Z3_mk_fpa_rtp(ctx)), toFP(e->a))); break;
        case OFTrunc_: r = fromFP(Z3_mk_fpa_round_to_integral(ctx, keep(Z3_mk_fpa_rtz(ctx)), toFP(e->a))); break;
        case OFRound: r = fromFP(Z3_mk_fpa_round_to_integral(ctx, keep(Z3_mk_fpa_rna(ctx)), toFP(e->a))); break;
        case OFEq: r = Z3_mk_fpa_eq(ctx, toFP(e->a), toFP(e->b)); break;
        case OFLt: r = Z3_mk_fpa_lt(ctx, toFP(e->a), toFP(e->b)); break;
        case OFLe: r = Z3_mk_fpa_leq(ctx, toFP(e->a), toFP(e->b)); break;
        case OFIsNan: r = Z3_mk_fpa_is_nan(ctx, toFP(e->a)); break;
        case OFToSI: r = Z3_mk_fpa_to_sbv(ctx, keep(Z3_mk_fpa_rtz(ctx)), toFP(e->a), e->width); break;
        case OFToUI: r = Z3_mk_fpa_to_ubv(ctx, keep(Z3_mk_fpa_rtz(ctx)), toFP(e->a), e->width); break;
        case OSIToF: r = fromFP(Z3_mk_fpa_to_fp_signed(ctx, rne(), toBV(e->a), fpSort(e->width))); break;
        case OUIToF: r = fromFP(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), toBV(e->a), fpSort(e->width))); break;
        case OFConv: r = fromFP(Z3_mk_fpa_to_fp_float(ctx, rne(), toFP(e->a), fpSort(e->width))); break;
        default: abort();
    }
    if (e->op >= OFAdd && e->op <= OFConv) usesFloat = true;
    keep(r);
    e->z3 = r;
    return r;
}

static u128 numVal(Z3_ast a, u32 w) {
    if (w <= 64) {
        uint64_t v = 0;
        if (!Z3_get_numeral_uint64(ctx, a, &v)) abort();
        return v;
    }
    const char* s = Z3_get_numeral_string(ctx, a);
    u128 r = 0;
    for (; *s; s++) r = r * 10 + (*s - '0');
    return r;
}

Sat intCheck(Z3_context ctx, const std::vector<Expr*>& cs, Model& update); // intsolve.cpp
static void account(Sat res, std::chrono::steady_clock::time_point t0) {
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_sstats.z3Queries++;
    g_sstats.z3Seconds += dt;
    g_sstats.z3MaxSeconds = std::max(g_sstats.z3MaxSeconds, dt);
    if (res == SAT_) g_sstats.z3Sat++;
    else if (res == UNSAT) g_sstats.z3Unsat++;
    else g_sstats.z3Unknown++;
}

Sat z3Check(const std::vector<Expr*>& cs, Model& update) {
    auto t0 = std::chrono::steady_clock::now();
    Sat viaInts = intCheck(ctx, cs, update);
    if (viaInts != UNKNOWN) {
        account(viaInts, t0);
        return viaInts;
    }
    std::vector<Z3_ast> asts;
    for (Expr* c : cs) asts.push_back(toZ3(c));
    Z3_solver s = solver;
    if (usesFloat) {
        if (!fpSolver) {
            fpSolver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
            Z3_solver_inc_ref(ctx, fpSolver);
        }
        s = fpSolver;
    }
    Z3_lbool r = Z3_L_UNDEF;
    static u32 hits = 0, misses = 0, turn = 0;
    if (s == solver && quickLimit && (misses < 10 || hits > misses || ++turn % 16 == 0)) {
        // Small queries: an incremental solver with a small resource limit, each constraint behind a guard literal
        // that the query assumes. Whatever it does not settle goes to the bit-blasting solver.
        static std::unordered_map<Z3_ast, Z3_ast> guards;
        static u32 nextGuard = 0;
        if (!quick) {
            quick = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, quick);
            Z3_params p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), quickLimit);
            Z3_solver_set_params(ctx, quick, p);
            Z3_params_dec_ref(ctx, p);
        }
        if (guards.size() + asts.size() > guardLimit) { Z3_solver_reset(ctx, quick); guards.clear(); }
        std::vector<Z3_ast> assumed;
        for (Z3_ast a : asts) {
            Z3_ast& g = guards[a];
            if (!g) {
                char nm[32];
                snprintf(nm, sizeof nm, "g%u", nextGuard++);
                g = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bool_sort(ctx)));
                Z3_solver_assert(ctx, quick, keep(Z3_mk_implies(ctx, g, a)));
            }
            assumed.push_back(g);
        }
        r = Z3_solver_check_assumptions(ctx, quick, (unsigned) assumed.size(), assumed.data());
        if (r != Z3_L_UNDEF) { s = quick; hits++; }
        else misses++;
    }
    if (r == Z3_L_UNDEF) {
        Z3_solver_reset(ctx, s);
        for (Z3_ast a : asts) Z3_solver_assert(ctx, s, a);
        r = Z3_solver_check(ctx, s);
    }
    Sat res = r == Z3_L_TRUE ? SAT_ : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (res == SAT_) {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        VarSet* vs = nullptr;
        for (Expr* c : cs) vs = unionVars(vs, c->vars);
        if (vs)
            for (u32 v : vs->ids) {
                if (update.size() <= v) update.resize(v + 1, 0);
                Z3_ast out = nullptr;
                Z3_model_eval(ctx, m, toZ3(g_vars[v].e), true, &out);
                Z3_inc_ref(ctx, out);
                if (g_vars[v].width == 1) update[v] = Z3_get_bool_value(ctx, out) == Z3_L_TRUE;
                else update[v] = numVal(out, g_vars[v].width);
                Z3_dec_ref(ctx, out);
            }
        Z3_model_dec_ref(ctx, m);
        // Never trust a model that does not satisfy the query.
        u64 ep = ++g_evalEpoch;
        for (Expr* c : cs)
            if (!evalExpr(c, update, ep)) {
                fprintf(stderr, "engine: z3 model does not satisfy constraint %s\n", exprToString(c).c_str());
                res = UNKNOWN;
                break;
            }
    }
    account(res, t0);
    return res;
}

static std::unordered_map<Expr*, Dom> ttCache;
const Dom& truthTable(Expr* c) {
    auto it = ttCache.find(c);
    if (it != ttCache.end()) return it->second;
    Dom d;
    u32 v = c->vars->ids[0];
    static Model tmp;
    if (tmp.size() <= v) tmp.resize(v + 1, 0);
    for (u32 x = 0; x < 256; x++) {
        tmp[v] = x;
        if (evalIn(c, tmp)) d.set(x);
    }
    return ttCache[c] = d;
}

static bool single8(Expr* c) { return c->vars && c->vars->ids.size() == 1 && g_vars[c->vars->ids[0]].width == 8; }

void PathCond::ensureVar(u32 v) {
    if (dom.size() <= v) { dom.resize(v + 1); domInit.resize(v + 1, 0); multi.resize(v + 1, 0); }
    if (!domInit[v]) { domInit[v] = 1; dom[v].set(); }
}
const Dom* PathCond::domainOf(u32 v) const {
    if (v < dom.size() && domInit[v]) return &dom[v];
    return nullptr;
}
bool PathCond::known(Expr* c, bool& val) const {
    bool neg = false;
    if (isNot(c)) { c = c->a; neg = true; }
    auto it = knownMap.find(c);
    if (it == knownMap.end()) {
        // complementary comparison forms
        Expr* o = nullptr;
        if (c->op == OUlt) o = mkBin(OUle, c->b, c->a);
        else if (c->op == OUle) o = mkBin(OUlt, c->b, c->a);
        else if (c->op == OSlt) o = mkBin(OSle, c->b, c->a);
        else if (c->op == OSle) o = mkBin(OSlt, c->b, c->a);
        if (!o) return false;
        it = knownMap.find(o);
        if (it == knownMap.end()) return false;
        val = !it->second != neg;
        return true;
    }
    val = it->second != neg;
    return true;
}

void PathCond::addAtom(Expr* c, bool truth) {
    if (isNot(c)) { addAtom(c->a, !truth); return; }
    if (c->isConst()) { if ((c->val != 0) != truth) contradictory = true; return; }
    if (truth && c->op == OAnd) { addAtom(c->a, true); addAtom(c->b, true); }
    if (!truth && c->op == OOr) { addAtom(c->a, false); addAtom(c->b, false); }
    bool kv;
    if (known(c, kv)) return;
    Undo u{c, -1, {}, nullptr};
    knownMap[c] = truth;
    if ((truth && c->op == OAnd) || (!truth && c->op == OOr)) { undo.push_back(u); return; }
    Expr* full = truth ? c : mkNot(c);
    if (single8(c)) {
        u32 v = c->vars->ids[0];
        ensureVar(v);
        u.domVar = v; u.oldDom = dom[v];
        dom[v] &= truth ? truthTable(c) : ~truthTable(c);
    } else if (c->vars) {
        u.multiVars = &c->vars->ids;
        for (u32 v : c->vars->ids) { ensureVar(v); multi[v]++; }
    }
    undo.push_back(u);
    // record as constraint
    undoMark.push_back(undo.size());
    cons.push_back(full);
}
void PathCond::add(Expr* c, bool truth) {
    // an entry that is only implied still needs an undo mark: push a marker constraint
    size_t before = cons.size();
    size_t ub = undo.size();
    addAtom(c, truth);
    if (cons.size() == before && undo.size() != ub) {
        undoMark.push_back(undo.size());
        cons.push_back(mkConst(1, 1));
    } else if (cons.size() != before) {
        undoMark.back() = undo.size();
    }
}
void PathCond::popTo(size_t n) {
    while (cons.size() > n) {
        cons.pop_back();
        undoMark.pop_back();
        size_t target = undoMark.empty() ? 0 : undoMark.back();
        while (undo.size() > target) {
            Undo& u = undo.back();
            knownMap.erase(u.knownKey);
            if (u.domVar >= 0) dom[u.domVar] = u.oldDom;
            if (u.multiVars) for (u32 v : *u.multiVars) multi[v]--;
            undo.pop_back();
        }
    }
}

std::vector<Expr*> PathCond::slice(Expr* c) {
    std::vector<Expr*> res;
    std::vector<char> inS(g_vars.size(), 0);
    if (c->vars) for (u32 v : c->vars->ids) inS[v] = 1;
    std::vector<char> taken(cons.size(), 0);
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = cons.size(); i-- > 0;) {
            if (taken[i] || !cons[i]->vars) continue;
            bool hit = false;
            for (u32 v : cons[i]->vars->ids) if (inS[v]) { hit = true; break; }
            if (!hit) continue;
            taken[i] = 1;
            for (u32 v : cons[i]->vars->ids) if (!inS[v]) { inS[v] = 1; changed = true; }
        }
    }
    for (size_t i = 0; i < cons.size(); i++) if (taken[i]) res.push_back(cons[i]);
    return res;
}

struct VecHash {
    size_t operator()(const std::vector<u32>& v) const {
        u64 h = 1469598103934665603ull;
        for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
        return h;
    }
};
struct CacheEntry { Sat res; Model vals; };
static std::unordered_map<std::vector<u32>, CacheEntry, VecHash> queryCache;
static std::deque<Model> recentModels;

Sat PathCond::mayBeTrue(Expr* c, Model& out, bool forceSolver) {
    if (c->isConst()) { if (c->val) out = model; return c->val ? SAT_ : UNSAT; }
    if (evalIn(c, model)) { g_sstats.modelDecided++; out = model; return SAT_; }
    if (single8(c) && !forceSolver) {
        u32 v = c->vars->ids[0];
        ensureVar(v);
        Dom d = dom[v] & truthTable(c);
        if (d.none()) { g_sstats.domainDecided++; return UNSAT; }
        if (multi[v] == 0) {
            g_sstats.domainDecided++;
            out = model;
            if (out.size() <= v) out.resize(v + 1, 0);
            out[v] = d._Find_first();
            return SAT_;
        }
    }
    std::vector<Expr*> cs = slice(c);
    cs.push_back(c);
    std::vector<u32> key;
    for (Expr* e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = queryCache.find(key);
    VarSet* vs = nullptr;
    for (Expr* e : cs) vs = unionVars(vs, e->vars);
    if (it != queryCache.end()) {
        g_sstats.cacheHits++;
        if (it->second.res == SAT_) {
            out = model;
            for (size_t i = 0; i < vs->ids.size(); i++) {
                u32 v = vs->ids[i];
                if (out.size() <= v) out.resize(v + 1, 0);
                out[v] = it->second.vals[i];
            }
        }
        return it->second.res;
    }
    if (!forceSolver)
    for (auto mit = recentModels.begin(); mit != recentModels.end(); ++mit) {
        u64 ep = ++g_evalEpoch;
        bool ok = evalExpr(c, *mit, ep);
        for (size_t i = 0; ok && i < cs.size(); i++) ok = evalExpr(cs[i], *mit, ep);
        if (ok) {
            g_sstats.cexHits++;
            out = model;
            for (u32 v : vs->ids) {
                if (out.size() <= v) out.resize(v + 1, 0);
                out[v] = v < mit->size() ? (*mit)[v] : 0;
            }
            return SAT_;
        }
    }
    Model m = model;
    Sat r = z3Check(cs, m);
    CacheEntry ce{r, {}};
    if (r == SAT_) {
        out = m;
        for (u32 v : vs->ids) ce.vals.push_back(v < m.size() ? m[v] : 0);
        recentModels.push_front(m);
        if (recentModels.size() > 12) recentModels.pop_back();
    }
    if (queryCache.size() > 400000) queryCache.clear();
    queryCache[key] = ce;
    return r;
}
