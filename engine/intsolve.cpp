// A second encoding for queries with divisions: bit-vector terms become integer terms. Each term stands for the
// bit-vector modulo 2^width and carries the interval of its values, so that wrapping is only encoded where an interval
// cannot rule it out. Where integers do not settle it, the terms become bit-vectors again, but only as wide as their
// intervals require. Queries with anything that has no linear counterpart are left to the bit-vector solver.
#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <map>
#include <unordered_map>

u64 g_intDecided = 0;
static const bool enabled = !getenv("SX_NOINT");
static const unsigned limit = getenv("SX_INTLIMIT") ? atoi(getenv("SX_INTLIMIT")) : 1000000;

static const unsigned narrowLimit = getenv("SX_NARROWLIMIT") ? atoi(getenv("SX_NARROWLIMIT")) : 5000000;

static const u32 narrowFirst = getenv("SX_NARROWFIRST") ? atoi(getenv("SX_NARROWFIRST")) : 12;

// Does the query contain a division that is expensive for bit-blasting?
static std::unordered_map<Expr*, bool> divMemo;
static bool hasDiv(Expr* e) {
    if (!e || e->isConst() || e->op == OVar) return false;
    auto it = divMemo.find(e);
    if (it != divMemo.end()) return it->second;
    bool r = (e->op == OUDiv || e->op == OSDiv || e->op == OURem || e->op == OSRem) && e->b->isConst() && e->width >= 32 &&
             (e->b->val & (e->b->val - 1)) != 0 && (e->a->umax >> 12) != 0;
    r = r || hasDiv(e->a) || hasDiv(e->b) || hasDiv(e->c);
    return divMemo[e] = r;
}

namespace {
struct Term {
    Z3_ast t = nullptr;
    s128 lo = 0, hi = 0;
};
struct Bail {};

struct Encoder {
    Z3_context ctx;
    Z3_sort ints;
    std::vector<Z3_ast> held;
    std::unordered_map<Expr*, Term> memo;
    std::unordered_map<Expr*, Z3_ast> boolMemo;
    std::unordered_map<u32, Z3_ast> vars;
    std::unordered_map<u32, std::pair<s128, s128>> bounds;
    std::vector<Z3_ast> side;
    bool failed = false;

    bool narrow;

    Encoder(Z3_context c, bool narrow_) : ctx(c), narrow(narrow_) { ints = Z3_mk_int_sort(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, ints)); }
    ~Encoder() {
        delete twin;
        for (Z3_ast a : held) Z3_dec_ref(ctx, a);
        Z3_dec_ref(ctx, Z3_sort_to_ast(ctx, ints));
    }
    Z3_ast k(Z3_ast a) { Z3_inc_ref(ctx, a); held.push_back(a); return a; }
    Z3_ast lit(s128 v) {
        char buf[48];
        bool neg = v < 0;
        u128 x = neg ? 0 - (u128) v : (u128) v;
        int i = 47;
        buf[i] = 0;
        do { buf[--i] = '0' + (int) (x % 10); x /= 10; } while (x);
        if (neg) buf[--i] = '-';
        return k(Z3_mk_numeral(ctx, buf + i, ints));
    }
    static s128 fdiv(s128 a, s128 b) { s128 q = a / b; return a % b < 0 ? q - 1 : q; }
    void fail() { failed = true; }

    // Two representations of a term: an integer, or (narrow) the bits of its distance from the lower end of its interval
    static u32 bitsFor(u128 v) { u32 n = 1; while (n < 127 && (v >> n)) n++; return n; }
    u32 bitsOf(const Term& x) { return bitsFor((u128) (x.hi - x.lo)); }
    Z3_ast bvNum(u128 v, u32 w) {
        Z3_sort s = Z3_mk_bv_sort(ctx, w);
        Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s));
        held.push_back(Z3_sort_to_ast(ctx, s));
        char buf[48];
        int i = 47;
        buf[i] = 0;
        do { buf[--i] = '0' + (int) (v % 10); v /= 10; } while (v);
        return k(Z3_mk_numeral(ctx, buf + i, s));
    }
    Z3_ast fit(Z3_ast b, u32 from, u32 to) {
        if (from < to) return k(Z3_mk_zero_ext(ctx, to - from, b));
        if (from > to) return k(Z3_mk_extract(ctx, to - 1, 0, b));
        return b;
    }
    Term constant(s128 v) { return {narrow ? bvNum(0, 1) : lit(v), v, v}; }
    Z3_ast raw = nullptr; // the variable made last
    Term fresh(const char* nm, s128 lo, s128 hi) {
        if (narrow) { // numbers from 0
            u32 w = bitsFor((u128) hi);
            Z3_ast v = k(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, w)));
            raw = v;
            side.push_back(k(Z3_mk_bvule(ctx, bvNum((u128) lo, w), v)));
            side.push_back(k(Z3_mk_bvule(ctx, v, bvNum((u128) hi, w))));
            return within({v, 0, hi}, lo, hi);
        }
        Z3_ast v = k(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), ints));
        raw = v;
        side.push_back(k(Z3_mk_ge(ctx, v, lit(lo))));
        side.push_back(k(Z3_mk_le(ctx, v, lit(hi))));
        return {v, lo, hi};
    }
    // x, whose value is known to lie in [lo, hi] (wherever it matters)
    Term within(Term x, s128 lo, s128 hi) {
        lo = std::max(lo, x.lo);
        hi = std::min(hi, x.hi);
        if (lo > hi) return x;
        if (lo == hi) return constant(lo);
        if (!narrow) return {x.t, lo, hi};
        u32 w = bitsOf(x);
        Z3_ast b = x.t;
        if (lo != x.lo) b = k(Z3_mk_bvsub(ctx, b, bvNum((u128) (lo - x.lo), w)));
        Term r{nullptr, lo, hi};
        r.t = fit(b, w, bitsOf(r));
        return r;
    }
    Term addC(Term x, s128 c) {
        if (!c) return x;
        return narrow ? Term{x.t, x.lo + c, x.hi + c} : add(x, constant(c));
    }
    Term add(Term x, Term y) {
        Term r{nullptr, x.lo + y.lo, x.hi + y.hi};
        if (!narrow) { Z3_ast as[2] = {x.t, y.t}; r.t = k(Z3_mk_add(ctx, 2, as)); return r; }
        if (x.lo == x.hi) return addC(y, x.lo);
        if (y.lo == y.hi) return addC(x, y.lo);
        u32 w = bitsOf(r);
        r.t = k(Z3_mk_bvadd(ctx, fit(x.t, bitsOf(x), w), fit(y.t, bitsOf(y), w)));
        return r;
    }
    Term negate(Term x) {
        Term r{nullptr, -x.hi, -x.lo};
        if (!narrow) { r.t = k(Z3_mk_unary_minus(ctx, x.t)); return r; }
        u32 w = bitsOf(x);
        r.t = k(Z3_mk_bvsub(ctx, bvNum((u128) (x.hi - x.lo), w), x.t));
        return r;
    }
    Term mulC(Term x, s128 c) {
        if (c == 0) return constant(0);
        if (c < 0) return negate(mulC(x, -c));
        Term r{nullptr, x.lo * c, x.hi * c};
        if (!narrow) { Z3_ast as[2] = {x.t, lit(c)}; r.t = k(Z3_mk_mul(ctx, 2, as)); return r; }
        u32 w = bitsOf(r);
        r.t = k(Z3_mk_bvmul(ctx, fit(x.t, bitsOf(x), w), bvNum((u128) c, w)));
        return r;
    }
    Term big(Term x) { // keep the intervals well inside 128 bits
        if (x.hi > ((s128) 1 << 100) || x.lo < -((s128) 1 << 100)) fail();
        return x;
    }
    Term divide(Term x, s128 c, bool quotient) { // c > 0, rounding down
        s128 l = fdiv(x.lo, c), h = fdiv(x.hi, c);
        if (l == h) return quotient ? constant(l) : addC(x, -l * c);
        Term r = quotient ? Term{nullptr, l, h} : Term{nullptr, 0, c - 1};
        if (!narrow) {
            r.t = k(quotient ? Z3_mk_div(ctx, x.t, lit(c)) : Z3_mk_mod(ctx, x.t, lit(c)));
            return r;
        }
        s128 shift = x.lo - l * c; // value - l * c = shift + distance
        u32 w = bitsFor((u128) std::max(x.hi - x.lo + shift, c));
        Z3_ast b = k(Z3_mk_bvadd(ctx, fit(x.t, bitsOf(x), w), bvNum((u128) shift, w)));
        b = k(quotient ? Z3_mk_bvudiv(ctx, b, bvNum((u128) c, w)) : Z3_mk_bvurem(ctx, b, bvNum((u128) c, w)));
        r.t = fit(b, w, bitsOf(r));
        return r;
    }
    Term quot(Term x, s128 c) { return divide(x, c, true); }
    Term rem(Term x, s128 c) { return divide(x, c, false); }
    Term based(Term x, s128 lo, s128 hi) { // the same value over a wider interval
        if (!narrow) return {x.t, lo, hi};
        Term r{nullptr, lo, hi};
        u32 w = bitsOf(r);
        r.t = fit(x.t, bitsOf(x), w);
        if (x.lo != lo) r.t = k(Z3_mk_bvadd(ctx, r.t, bvNum((u128) (x.lo - lo), w)));
        return r;
    }
    Term choose(Z3_ast c, Term a, Term b) {
        s128 lo = std::min(a.lo, b.lo), hi = std::max(a.hi, b.hi);
        a = based(a, lo, hi);
        b = based(b, lo, hi);
        return {k(Z3_mk_ite(ctx, c, a.t, b.t)), lo, hi};
    }
    Z3_ast boolean(bool v) { return k(v ? Z3_mk_true(ctx) : Z3_mk_false(ctx)); }
    enum Cmp { EQ, LT, LE };
    Z3_ast compare(Cmp c, Term x, Term y) {
        if (x.hi < y.lo) return boolean(c != EQ);
        if (y.hi < x.lo) return boolean(false);
        s128 lo = std::min(x.lo, y.lo), hi = std::max(x.hi, y.hi);
        x = based(x, lo, hi);
        y = based(y, lo, hi);
        if (c == EQ) return k(Z3_mk_eq(ctx, x.t, y.t));
        if (narrow) return k(c == LT ? Z3_mk_bvult(ctx, x.t, y.t) : Z3_mk_bvule(ctx, x.t, y.t));
        return k(c == LT ? Z3_mk_lt(ctx, x.t, y.t) : Z3_mk_le(ctx, x.t, y.t));
    }

    // Where the interval does not exclude wrapping, the integers may: an interval for x proved by a query of its own.
    Encoder* twin = nullptr; // holds the integer terms for a narrow encoder
    Term tighten(Expr* e, Term x, s128 lo, s128 hi) {
        if (failed || e->op == OVar || (x.lo >= lo && x.hi <= hi)) return x;
        static std::map<std::vector<u64>, std::pair<s128, s128>> proved;
        std::vector<u64> key{e->id, (u64) (lo < 0)};
        if (e->vars) for (u32 v : e->vars->ids) {
            auto b = bounds.find(v);
            if (b == bounds.end()) continue;
            key.push_back(v);
            key.push_back((u64) b->second.first);
            key.push_back((u64) b->second.second);
        }
        auto it = proved.find(key);
        if (it == proved.end()) {
            Encoder* enc = this;
            if (narrow) {
                if (!twin) { twin = new Encoder{ctx, false}; twin->bounds = bounds; }
                enc = twin;
            }
            Term y = enc->get(e);
            std::pair<s128, s128> r{1, 0};
            if (!enc->failed) {
                auto holds = [&](s128 l, s128 h) {
                    Z3_solver s = Z3_mk_simple_solver(ctx);
                    Z3_solver_inc_ref(ctx, s);
                    Z3_params p = Z3_mk_params(ctx);
                    Z3_params_inc_ref(ctx, p);
                    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 100000);
                    Z3_solver_set_params(ctx, s, p);
                    Z3_params_dec_ref(ctx, p);
                    for (Z3_ast a : enc->side) Z3_solver_assert(ctx, s, a);
                    Z3_ast out[2] = {enc->k(Z3_mk_lt(ctx, y.t, enc->lit(l))), enc->k(Z3_mk_gt(ctx, y.t, enc->lit(h)))};
                    Z3_solver_assert(ctx, s, enc->k(Z3_mk_or(ctx, 2, out)));
                    bool ok = Z3_solver_check(ctx, s) == Z3_L_FALSE;
                    Z3_solver_dec_ref(ctx, s);
                    return ok;
                };
                if (holds(lo, hi)) {
                    u32 a = 0, b = e->width; // the least number of bits for the distance from lo, or from zero
                    s128 low = std::max(lo, y.lo), high = std::min(hi, y.hi);
                    if (low <= 0 && high > 0 && holds(0, high)) low = 0;
                    while (a + 1 < b) {
                        u32 m = (a + b) / 2;
                        if (holds(low, low + ((s128) 1 << m) - 1)) b = m; else a = m;
                    }
                    r = {low, std::min(high, low + ((s128) 1 << b) - 1)};
                }
            }
            it = proved.emplace(key, r).first;
        }
        if (it->second.first > it->second.second) return x;
        return within(x, it->second.first, it->second.second);
    }

    Term uns(Expr* e) {
        Term x = get(e);
        if (e->width > 64) { fail(); return x; }
        if (fdiv(x.lo, (s128) 1 << e->width) != fdiv(x.hi, (s128) 1 << e->width)) x = tighten(e, x, 0, (s128) maskOf(e->width));
        x = rem(x, (s128) 1 << e->width);
        return within(x, (s128) e->umin, (s128) e->umax);
    }
    Term sgn(Expr* e) {
        Term x = get(e);
        if (e->width > 64) { fail(); return x; }
        s128 half = (s128) 1 << (e->width - 1);
        if (x.lo >= -half && x.hi < half) return x;
        if (fdiv(x.lo + half, half * 2) != fdiv(x.hi + half, half * 2)) x = tighten(e, x, -half, half - 1);
        return addC(rem(addC(x, half), half * 2), -half);
    }
    Term get(Expr* e) {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        Term r = failed ? constant(0) : big(make(e));
        memo[e] = r;
        return r;
    }
    Term make(Expr* e) {
        u32 w = e->width;
        if (w > 64) { fail(); return constant(0); }
        if (w == 1) {
            if (e->isConst()) return constant((s128) e->val);
            return choose(truth(e), constant(1), constant(0));
        }
        Expr *a = e->a, *b = e->b;
        switch (e->op) {
            case OConst: return constant((s128) e->val <= (s128) (maskOf(w) >> 1) ? (s128) e->val : (s128) e->val - ((s128) 1 << w));
            case OVar: {
                char nm[32];
                snprintf(nm, sizeof nm, "i%u", e->aux);
                s128 lo = 0, hi = (s128) maskOf(w);
                auto bd = bounds.find(e->aux);
                if (bd != bounds.end()) { lo = std::max(lo, bd->second.first); hi = std::min(hi, bd->second.second); }
                if (lo > hi) { lo = 0; hi = (s128) maskOf(w); }
                Term v = fresh(nm, lo, hi);
                vars[e->aux] = raw;
                return v;
            }
            case OAdd: { Term x = get(a), y = get(b); return add(x, y); }
            case OSub: { Term x = get(a), y = get(b); return add(x, negate(y)); }
            case OMul: {
                Term x = get(a), y = get(b);
                if (x.lo == x.hi) std::swap(x, y);
                if (y.lo != y.hi) { fail(); return constant(0); }
                s128 c = y.lo;
                u128 ac = c < 0 ? 0 - (u128) c : (u128) c;
                s128 m = std::max(x.hi < 0 ? -x.hi : x.hi, x.lo < 0 ? -x.lo : x.lo);
                if (ac && (u128) m > (((u128) 1 << 100) / ac)) { x = rem(x, (s128) 1 << w); m = x.hi; }
                if (ac && (u128) m > (((u128) 1 << 126) / ac)) { fail(); return constant(0); }
                Term r = mulC(x, c);
                if (r.hi > ((s128) 1 << 100) || r.lo < -((s128) 1 << 100)) r = rem(r, (s128) 1 << w);
                return r;
            }
            case OUDiv: if (b->isConst() && b->val) return quot(uns(a), (s128) b->val); fail(); return constant(0);
            case OURem: if (b->isConst() && b->val) return rem(uns(a), (s128) b->val); fail(); return constant(0);
            case OSDiv: case OSRem: {
                s128 c = b->isConst() ? sextv(b->val, w) : 0;
                if (c <= 0) { fail(); return constant(0); }
                Term x = sgn(a), n = negate(x);
                bool d = e->op == OSDiv;
                if (x.lo >= 0) return d ? quot(x, c) : rem(x, c);
                if (x.hi <= 0) return negate(d ? quot(n, c) : rem(n, c));
                Z3_ast pos = compare(LE, constant(0), x);
                Term xp = within(x, 0, x.hi), np = within(n, 1, n.hi);
                return choose(pos, d ? quot(xp, c) : rem(xp, c), negate(d ? quot(np, c) : rem(np, c)));
            }
            case OShl: if (b->isConst() && b->val < w) {
                Term x = get(a);
                s128 c = (s128) 1 << (u32) b->val;
                if (x.hi > ((s128) 1 << 100) / c || x.lo < -((s128) 1 << 100) / c) x = rem(x, (s128) 1 << w);
                if (x.hi > ((s128) 1 << 100) / c) { fail(); return constant(0); }
                return mulC(x, c);
            }
            fail(); return constant(0);
            case OLShr: if (b->isConst() && b->val < w) return quot(uns(a), (s128) 1 << (u32) b->val); fail(); return constant(0);
            case OAShr: if (b->isConst() && b->val < w) return quot(sgn(a), (s128) 1 << (u32) b->val); fail(); return constant(0);
            case OAnd: {
                if (a->isConst()) std::swap(a, b);
                if (!b->isConst() || !b->val) { fail(); return constant(0); }
                u128 m = b->val;
                u32 low = 0;
                while (!(m & 1)) { m >>= 1; low++; }
                if (m & (m + 1)) { fail(); return constant(0); }
                u32 n = 0;
                while (m) { m >>= 1; n++; }
                Term x = uns(a);
                if (low) x = quot(x, (s128) 1 << low);
                x = rem(x, (s128) 1 << n);
                return low ? mulC(x, (s128) 1 << low) : x;
            }
            case OOr: {
                // disjoint bits
                for (int turn = 0; turn < 2; turn++, std::swap(a, b)) {
                    u32 z = trailing(a);
                    if (z && (z >= 64 || b->umax < ((u128) 1 << z))) {
                        Term x = uns(a), y = uns(b);
                        return add(x, y);
                    }
                }
                fail(); return constant(0);
            }
            case OXor: {
                if (a->isConst()) std::swap(a, b);
                if (b->isConst() && b->val == maskOf(w)) return addC(negate(get(a)), -1);
                fail(); return constant(0);
            }
            case OConcat: {
                Term x = get(a), y = uns(b);
                s128 c = (s128) 1 << b->width;
                if (x.hi > ((s128) 1 << 100) / c || x.lo < -((s128) 1 << 100) / c) x = uns(a);
                if (x.hi > ((s128) 1 << 100) / c) { fail(); return constant(0); }
                return add(mulC(x, c), y);
            }
            case OExtract: return e->aux ? quot(uns(a), (s128) 1 << e->aux) : get(a);
            case OZExt: return uns(a);
            case OSExt: return sgn(a);
            case OIte: { Z3_ast c = truth(a); return choose(c, get(b), get(e->c)); }
            default: fail(); return constant(0);
        }
    }
    u32 trailing(Expr* e) {
        if (e->op == OShl && e->b->isConst()) return (u32) e->b->val;
        if (e->op == OConcat && e->b->isConst() && e->b->val == 0) return e->b->width;
        if (e->isConst() && e->val) { u32 z = 0; for (u128 v = e->val; !(v & 1); v >>= 1) z++; return z; }
        if (e->op == OZExt) return trailing(e->a);
        return 0;
    }
    Z3_ast truth(Expr* e) {
        auto it = boolMemo.find(e);
        if (it != boolMemo.end()) return it->second;
        Z3_ast r = failed ? k(Z3_mk_true(ctx)) : makeTruth(e);
        boolMemo[e] = r;
        return r;
    }
    Z3_ast makeTruth(Expr* e) {
        Expr *a = e->a, *b = e->b;
        switch (e->op) {
            case OConst: return k(e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx));
            case OVar: {
                char nm[32];
                snprintf(nm, sizeof nm, "b%u", e->aux);
                return vars[e->aux] = k(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bool_sort(ctx)));
            }
            case OAdd: case OSub: case OXor: { Z3_ast x = truth(a), y = truth(b); return k(Z3_mk_xor(ctx, x, y)); }
            case OAnd: case OMul: { Z3_ast as[2] = {truth(a), truth(b)}; return k(Z3_mk_and(ctx, 2, as)); }
            case OOr: { Z3_ast as[2] = {truth(a), truth(b)}; return k(Z3_mk_or(ctx, 2, as)); }
            case OIte: { Z3_ast c = truth(a), x = truth(b), y = truth(e->c); return k(Z3_mk_ite(ctx, c, x, y)); }
            case OEq: {
                if (a->width == 1) { Z3_ast x = truth(a), y = truth(b); return k(Z3_mk_iff(ctx, x, y)); }
                if (a->width > 64) { fail(); return k(Z3_mk_true(ctx)); }
                Term x = get(a), y = get(b);
                s128 half = (s128) 1 << (a->width - 1);
                if (x.lo >= -half && x.hi < half && y.lo >= -half && y.hi < half) return compare(EQ, x, y);
                x = uns(a); y = uns(b);
                return compare(EQ, x, y);
            }
            case OUlt: { Term x = uns(a), y = uns(b); return compare(LT, x, y); }
            case OUle: { Term x = uns(a), y = uns(b); return compare(LE, x, y); }
            case OSlt: { Term x = sgn(a), y = sgn(b); return compare(LT, x, y); }
            case OSle: { Term x = sgn(a), y = sgn(b); return compare(LE, x, y); }
            case OExtract: {
                Term x = uns(a);
                if (e->aux) x = quot(x, (s128) 1 << e->aux);
                return compare(EQ, rem(x, 2), constant(1));
            }
            default: fail(); return k(Z3_mk_true(ctx));
        }
    }
    // Bounds on single variables that the query states
    void learn(Expr* c, bool truth) {
        if (isNot(c)) { learn(c->a, !truth); return; }
        if (truth && c->op == OAnd && c->width == 1) { learn(c->a, true); learn(c->b, true); return; }
        if (!truth && c->op == OOr && c->width == 1) { learn(c->a, false); learn(c->b, false); return; }
        if (c->op != OUlt && c->op != OUle && c->op != OSlt && c->op != OSle) return;
        bool strict = c->op == OUlt || c->op == OSlt, isSigned = c->op == OSlt || c->op == OSle;
        Expr *x = c->a, *y = c->b;
        if (!truth) { std::swap(x, y); strict = !strict; } // x (< or <=) y
        auto var = [](Expr* e, bool& wide) { wide = false; while (e->op == OZExt) { e = e->a; wide = true; } return e->op == OVar && e->width > 1 ? e : nullptr; };
        bool wide;
        if (y->isConst()) {
            Expr* v = var(x, wide);
            if (!v || (isSigned && (!wide || sextv(y->val, y->width) < 0))) return;
            auto& bd = bounds.emplace(v->aux, std::make_pair((s128) 0, (s128) maskOf(v->width))).first->second;
            bd.second = std::min(bd.second, (s128) y->val - (strict ? 1 : 0));
        } else if (x->isConst()) {
            Expr* v = var(y, wide);
            if (!v || (isSigned && (!wide || sextv(x->val, x->width) < 0))) return;
            auto& bd = bounds.emplace(v->aux, std::make_pair((s128) 0, (s128) maskOf(v->width))).first->second;
            bd.first = std::max(bd.first, (s128) x->val + (strict ? 1 : 0));
        }
    }
};
}

static Sat attempt(Z3_context ctx, const std::vector<Expr*>& cs, Model& update, bool narrow) {
    Encoder enc{ctx, narrow};
    for (Expr* c : cs) enc.learn(c, true);
    std::vector<Z3_ast> as;
    for (Expr* c : cs) as.push_back(enc.truth(c));
    if (enc.failed) return UNKNOWN;
    Z3_solver s = narrow ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")) : Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), narrow ? narrowLimit : limit);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    for (Z3_ast a : enc.side) Z3_solver_assert(ctx, s, a);
    for (Z3_ast a : as) Z3_solver_assert(ctx, s, a);
    Z3_lbool r = Z3_solver_check(ctx, s);
    Sat res = r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (r == Z3_L_UNDEF && getenv("SX_DUMPINT")) {
        static int n = 0;
        std::string f = std::string(getenv("SX_DUMPINT")) + std::to_string(n++) + (narrow ? "n.smt2" : "i.smt2");
        if (FILE* o = fopen(f.c_str(), "w")) { fprintf(o, "%s\n(check-sat)\n", Z3_solver_to_string(ctx, s)); fclose(o); }
    }
    if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        Model out = update;
        for (auto& kv : enc.vars) {
            u32 v = kv.first;
            if (out.size() <= v) out.resize(v + 1, 0);
            Z3_ast o = nullptr;
            Z3_model_eval(ctx, m, kv.second, true, &o);
            Z3_inc_ref(ctx, o);
            if (g_vars[v].width == 1) out[v] = Z3_get_bool_value(ctx, o) == Z3_L_TRUE;
            else { uint64_t x = 0; if (Z3_get_numeral_uint64(ctx, o, &x)) out[v] = x; }
            Z3_dec_ref(ctx, o);
        }
        Z3_model_dec_ref(ctx, m);
        res = SAT_;
        u64 ep = ++g_evalEpoch;
        for (Expr* c : cs)
            if (!evalExpr(c, out, ep)) {
                fprintf(stderr, "engine: integer model does not satisfy %s\n", exprToString(c).c_str());
                res = UNKNOWN;
                break;
            }
        if (res == SAT_) update = out;
    }
    Z3_solver_dec_ref(ctx, s);
    if (res != UNKNOWN) g_intDecided++;
    return res;
}

// UNKNOWN: not applicable, or not settled
Sat intCheck(Z3_context ctx, const std::vector<Expr*>& cs, Model& update) {
    if (!enabled) return UNKNOWN;
    bool any = false;
    for (Expr* c : cs) if (hasDiv(c)) any = true;
    if (!any) return UNKNOWN;
    VarSet* vs = nullptr;
    for (Expr* c : cs) vs = unionVars(vs, c->vars);
    u32 bits = 0;
    if (vs) for (u32 v : vs->ids) bits += g_vars[v].width;
    bool first = bits <= narrowFirst; // few bits: blasting them is quicker
    Sat r = attempt(ctx, cs, update, first);
    return r != UNKNOWN ? r : attempt(ctx, cs, update, !first);
}
