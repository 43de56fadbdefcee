#include "expr.h"
#include <map>
#include <algorithm>
#include <cfenv>

std::vector<VarInfo> g_vars;
u64 g_numExprs = 0;
u64 g_evalEpoch = 0;

static std::vector<Expr*> table_(1 << 16, nullptr);
static std::vector<Expr*> nextInChain; // indexed by expr id
static size_t count_ = 0;
static std::vector<Expr*> all_;

SVal::SVal(Expr* e_) {
    if (e_->isConst() && e_->width <= 64) { lo = (u64) e_->val; e = nullptr; }
    else { lo = 0; e = e_; }
}

static inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
static u64 hashExpr(const Expr& x) {
    u64 h = mix(x.op, x.width);
    h = mix(h, x.aux);
    h = mix(h, (u64) x.a); h = mix(h, (u64) x.b); h = mix(h, (u64) x.c);
    h = mix(h, (u64) x.val); h = mix(h, (u64) (x.val >> 64));
    if (x.kids) for (auto& k : *x.kids) { h = mix(h, k.lo); h = mix(h, (u64) k.e); }
    return h;
}
static bool sameExpr(const Expr& x, const Expr& y) {
    if (x.op != y.op || x.width != y.width || x.aux != y.aux || x.a != y.a || x.b != y.b || x.c != y.c || x.val != y.val)
        return false;
    if (x.kids || y.kids) {
        if (!x.kids || !y.kids) return false;
        return *x.kids == *y.kids;
    }
    return true;
}

static std::unordered_map<u64, VarSet*> unionCache;
static std::unordered_map<std::string, VarSet*> setIntern;
static VarSet* internSet(std::vector<u32>&& ids) {
    std::string key((const char*) ids.data(), ids.size() * 4);
    auto it = setIntern.find(key);
    if (it != setIntern.end()) return it->second;
    VarSet* s = new VarSet{std::move(ids)};
    setIntern[key] = s;
    return s;
}
static std::unordered_map<VarSet*, u32> setIds;
static u32 setId(VarSet* s) {
    auto it = setIds.find(s);
    if (it != setIds.end()) return it->second;
    u32 id = setIds.size() + 1;
    setIds[s] = id;
    return id;
}
VarSet* unionVars(VarSet* a, VarSet* b) {
    if (!a) return b;
    if (!b || a == b) return a;
    u32 ia = setId(a), ib = setId(b);
    if (ia > ib) { std::swap(ia, ib); std::swap(a, b); }
    u64 key = ((u64) ia << 32) | ib;
    auto it = unionCache.find(key);
    if (it != unionCache.end()) return it->second;
    std::vector<u32> r;
    std::set_union(a->ids.begin(), a->ids.end(), b->ids.begin(), b->ids.end(), std::back_inserter(r));
    VarSet* s = internSet(std::move(r));
    unionCache[key] = s;
    return s;
}

static void computeRange(Expr* x) {
    u128 m = maskOf(x->width);
    x->umin = 0; x->umax = m;
    Expr *a = x->a, *b = x->b;
    switch (x->op) {
        case OConst: x->umin = x->umax = x->val; break;
        case OZExt: x->umin = a->umin; x->umax = a->umax; break;
        case OSExt:
            if (a->umax <= (maskOf(a->width) >> 1)) { x->umin = a->umin; x->umax = a->umax; }
            break;
        case OIte:
            x->umin = std::min(b->umin, x->c->umin); x->umax = std::max(b->umax, x->c->umax);
            break;
        case OAdd:
            if (x->width < 128 && a->umax + b->umax <= m) { x->umin = a->umin + b->umin; x->umax = a->umax + b->umax; }
            else if (x->width < 120 && b->isConst() && b->val > m / 2) {
                u128 neg = (m + 1) - b->val; // subtracting neg
                if (a->umin >= neg) { x->umin = a->umin - neg; x->umax = a->umax - neg; }
            }
            break;
        case OSub:
            if (a->umin >= b->umax) { x->umin = a->umin - b->umax; x->umax = a->umax - b->umin; }
            break;
        case OMul:
            if (x->width <= 64 && a->umax * b->umax <= m && (a->umax >> 64) == 0 && (b->umax >> 64) == 0) {
                x->umin = a->umin * b->umin; x->umax = a->umax * b->umax;
            }
            break;
        case OAnd: x->umax = std::min(a->umax, b->umax); break;
        case OOr: {
            u128 hi = a->umax | b->umax; // round up to all ones below top bit
            u128 r = 0;
            while (hi) { r = (r << 1) | 1; hi >>= 1; }
            x->umax = r & m;
            x->umin = std::max(a->umin, b->umin);
            break;
        }
        case OXor: {
            u128 hi = a->umax | b->umax; u128 r = 0;
            while (hi) { r = (r << 1) | 1; hi >>= 1; }
            x->umax = r & m;
            break;
        }
        case OLShr:
            if (b->isConst() && b->val < x->width) { x->umin = a->umin >> (u32) b->val; x->umax = a->umax >> (u32) b->val; }
            else { x->umax = a->umax; }
            break;
        case OShl:
            if (b->isConst() && b->val < x->width && x->width < 128) {
                u32 s = (u32) b->val;
                if ((a->umax << s) <= m && ((a->umax << s) >> s) == a->umax) { x->umin = a->umin << s; x->umax = a->umax << s; }
            }
            break;
        case OUDiv:
            if (b->isConst() && b->val) { x->umin = a->umin / b->val; x->umax = a->umax / b->val; }
            else x->umax = (b->umin > 0) ? a->umax / b->umin : m;
            break;
        case OURem:
            if (b->umax > 0 && b->umin > 0) x->umax = std::min(a->umax, b->umax - 1);
            break;
        case OConcat:
            x->umin = (a->umin << b->width) | b->umin; x->umax = (a->umax << b->width) | b->umax;
            break;
        case OExtract:
            if (x->aux == 0 && a->umax <= m) { x->umin = a->umin; x->umax = a->umax; }
            else { u128 hi = a->umax >> x->aux; if (hi <= m) { x->umax = hi; x->umin = a->umin >> x->aux; } }
            break;
        default: break;
    }
}

static Expr* intern(Expr&& proto) {
    u64 h = hashExpr(proto);
    if (count_ * 2 > table_.size()) {
        std::vector<Expr*> nt(table_.size() * 2, nullptr);
        std::vector<Expr*> nn(nextInChain.size(), nullptr);
        for (Expr* e : all_) {
            u64 i = hashExpr(*e) & (nt.size() - 1);
            nn[e->id] = nt[i]; nt[i] = e;
        }
        table_.swap(nt); nextInChain.swap(nn);
    }
    u64 i = h & (table_.size() - 1);
    for (Expr* e = table_[i]; e; e = nextInChain[e->id])
        if (sameExpr(*e, proto)) { if (proto.kids) delete proto.kids; return e; }
    Expr* e = new Expr(proto);
    e->id = all_.size();
    all_.push_back(e);
    nextInChain.push_back(table_[i]);
    table_[i] = e;
    count_++; g_numExprs++;
    if (e->op != OVar) {
        VarSet* s = nullptr; u32 d = 0;
        for (Expr* k : {e->a, e->b, e->c}) if (k) { s = unionVars(s, k->vars); d = std::max(d, k->depth); }
        if (e->kids) for (auto& k : *e->kids) if (k.e) { s = unionVars(s, k.e->vars); d = std::max(d, k.e->depth); }
        e->vars = s; e->depth = d + 1;
    }
    computeRange(e);
    return e;
}

Expr* mkConst(u128 v, u32 w) {
    Expr p{}; p.op = OConst; p.width = w; p.val = v & maskOf(w);
    return intern(std::move(p));
}
Expr* mkVar(const std::string& name, u32 w) {
    Expr p{}; p.op = OVar; p.width = w; p.aux = g_vars.size();
    Expr* e = intern(std::move(p));
    g_vars.push_back({name, w, e});
    e->vars = internSet({e->aux});
    e->umin = 0; e->umax = maskOf(w);
    return e;
}
static Expr* mk3(Op op, u32 w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u32 aux = 0) {
    Expr p{}; p.op = op; p.width = w; p.a = a; p.b = b; p.c = c; p.aux = aux;
    return intern(std::move(p));
}
Expr* mkAgg(const std::vector<SVal>& kids) {
    Expr p{}; p.op = OAgg; p.width = 0; p.kids = new std::vector<SVal>(kids);
    return intern(std::move(p));
}

static float bitsF(u128 v) { u32 x = (u32) v; float f; memcpy(&f, &x, 4); return f; }
static double bitsD(u128 v) { u64 x = (u64) v; double f; memcpy(&f, &x, 8); return f; }
static u128 fbits(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static u128 dbits(double f) { u64 x; memcpy(&x, &f, 8); return x; }

u128 foldBin(Op op, u128 a, u128 b, u32 w) {
    u128 m = maskOf(w);
    switch (op) {
        case OAdd: return (a + b) & m;
        case OSub: return (a - b) & m;
        case OMul: return (a * b) & m;
        case OUDiv: return b ? a / b : m;
        case OURem: return b ? a % b : a;
        case OSDiv: {
            s128 x = sextv(a, w), y = sextv(b, w);
            if (y == 0) return x < 0 ? 1 : m;
            if (y == -1) return (u128) (0 - (u128) x) & m;
            return (u128) (x / y) & m;
        }
        case OSRem: {
            s128 x = sextv(a, w), y = sextv(b, w);
            if (y == 0) return a;
            if (y == -1) return 0;
            return (u128) (x % y) & m;
        }
        case OAnd: return a & b;
        case OOr: return a | b;
        case OXor: return a ^ b;
        case OShl: return b >= w ? 0 : (a << (u32) b) & m;
        case OLShr: return b >= w ? 0 : a >> (u32) b;
        case OAShr: {
            s128 x = sextv(a, w);
            u32 s = b >= w ? w - 1 : (u32) b;
            return (u128) (x >> s) & m;
        }
        case OEq: return a == b;
        case OUlt: return a < b;
        case OUle: return a <= b;
        case OSlt: return sextv(a, w) < sextv(b, w);
        case OSle: return sextv(a, w) <= sextv(b, w);
        case OFAdd: return w == 32 ? fbits(bitsF(a) + bitsF(b)) : dbits(bitsD(a) + bitsD(b));
        case OFSub: return w == 32 ? fbits(bitsF(a) - bitsF(b)) : dbits(bitsD(a) - bitsD(b));
        case OFMul: return w == 32 ? fbits(bitsF(a) * bitsF(b)) : dbits(bitsD(a) * bitsD(b));
        case OFDiv: return w == 32 ? fbits(bitsF(a) / bitsF(b)) : dbits(bitsD(a) / bitsD(b));
        case OFRem: return w == 32 ? fbits(fmodf(bitsF(a), bitsF(b))) : dbits(fmod(bitsD(a), bitsD(b)));
        case OFEq: return w == 32 ? bitsF(a) == bitsF(b) : bitsD(a) == bitsD(b);
        case OFLt: return w == 32 ? bitsF(a) < bitsF(b) : bitsD(a) < bitsD(b);
        case OFLe: return w == 32 ? bitsF(a) <= bitsF(b) : bitsD(a) <= bitsD(b);
        default: abort();
    }
}
u128 foldFUn(Op op, u128 a, u32 wa, u32 w) {
    switch (op) {
        case OFSqrt: return wa == 32 ? fbits(sqrtf(bitsF(a))) : dbits(sqrt(bitsD(a)));
        case OFFloor: return wa == 32 ? fbits(floorf(bitsF(a))) : dbits(floor(bitsD(a)));
        case OFCeil: return wa == 32 ? fbits(ceilf(bitsF(a))) : dbits(ceil(bitsD(a)));
        case OFTrunc_: return wa == 32 ? fbits(truncf(bitsF(a))) : dbits(trunc(bitsD(a)));
        case OFRound: return wa == 32 ? fbits(roundf(bitsF(a))) : dbits(round(bitsD(a)));
        case OFIsNan: return wa == 32 ? std::isnan(bitsF(a)) : std::isnan(bitsD(a));
        case OFToSI: {
            double d = wa == 32 ? bitsF(a) : bitsD(a);
            if (!(d > -9.3e18 && d < 9.3e18)) return (u128) 1 << (w - 1);
            return (u128) (s128) (s64) d & maskOf(w);
        }
        case OFToUI: {
            double d = wa == 32 ? bitsF(a) : bitsD(a);
            if (!(d > -1.0 && d < 1.9e19)) return maskOf(w);
            return (u128) (u64) d & maskOf(w);
        }
        case OSIToF: {
            s128 s = sextv(a, wa);
            return w == 32 ? fbits((float) s) : dbits((double) s);
        }
        case OUIToF: return w == 32 ? fbits((float) a) : dbits((double) a);
        case OFConv:
            if (wa == w) return a;
            return wa == 32 ? dbits((double) bitsF(a)) : fbits((float) bitsD(a));
        default: abort();
    }
}

// Floats that hold small integers or binary fractions. IEEE operations on them are exact as long as the result stays
// within the precision, so comparisons can be decided over the integers instead. (The sign of zero is not recorded:
// it does not influence comparisons.) The bits of the value remain the IEEE term.
struct Exact {
    Expr* num; // value = num / 2^shift, 40 bits signed
    u32 shift;
    s64 lo, hi; // range of num
    const struct Poly* poly; // num as a polynomial of other expressions, if it is not too long
};
// Products of expressions (by their ids, in order) and their coefficients, modulo 2^64. Two of them denote the same for
// all values if they are equal.
struct Poly : std::map<std::vector<u32>, u64> {};
static const Poly* combine(const Poly* a, u64 ka, const Poly* b, u64 kb) {
    if (!a || !b) return nullptr;
    Poly* r = new Poly;
    for (auto& m : *a) if (m.second * ka) (*r)[m.first] = m.second * ka;
    for (auto& m : *b) {
        u64& c = (*r)[m.first];
        c += m.second * kb;
        if (!c) r->erase(m.first);
    }
    if (r->size() <= 3000) return r;
    delete r;
    return nullptr;
}
static const Poly* product(const Poly* a, const Poly* b) {
    if (!a || !b || a->size() * b->size() > 20000) return nullptr;
    Poly* r = new Poly;
    std::vector<u32> v;
    for (auto& m : *a)
        for (auto& n : *b) {
            v.clear();
            std::merge(m.first.begin(), m.first.end(), n.first.begin(), n.first.end(), std::back_inserter(v));
            u64& c = (*r)[v];
            c += m.second * n.second;
            if (!c) r->erase(v);
        }
    return r;
}
static const Poly* atom(Expr* e) {
    Poly* p = new Poly;
    if (!e->isConst()) (*p)[{e->id}] = 1;
    else if (e->val) (*p)[{}] = (u64) (s64) sextv(e->val, e->width);
    return p;
}
static const Poly* const zeroPoly = new Poly;
static const u32 XW = 40;
static const s64 XMAX = 1 << 24;
static bool signedRange(Expr* e, s128& lo, s128& hi, int depth = 0) {
    if (e->width > 64) return false;
    s128 half = (s128) 1 << (e->width - 1);
    if (e->isConst()) { lo = hi = sextv(e->val, e->width); return true; }
    lo = -half; hi = half - 1;
    if ((s128) e->umax < half) { lo = (s128) e->umin; hi = (s128) e->umax; }
    else if ((s128) e->umin >= half) { lo = (s128) e->umin - 2 * half; hi = (s128) e->umax - 2 * half; }
    if (depth > 30) return true;
    s128 al, ah, bl, bh, l, h;
    switch (e->op) {
        case OSExt: signedRange(e->a, l, h, depth + 1); break;
        case OAdd: signedRange(e->a, al, ah, depth + 1); signedRange(e->b, bl, bh, depth + 1); l = al + bl; h = ah + bh; break;
        case OSub: signedRange(e->a, al, ah, depth + 1); signedRange(e->b, bl, bh, depth + 1); l = al - bh; h = ah - bl; break;
        case OIte: signedRange(e->b, al, ah, depth + 1); signedRange(e->c, bl, bh, depth + 1); l = std::min(al, bl); h = std::max(ah, bh); break;
        case OMul: {
            signedRange(e->a, al, ah, depth + 1); signedRange(e->b, bl, bh, depth + 1);
            s128 lim = (s128) 1 << 60;
            if (al < -lim || ah > lim || bl < -lim || bh > lim) return true;
            s128 p[4] = {al * bl, al * bh, ah * bl, ah * bh};
            l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4);
            break;
        }
        default: return true;
    }
    if (l >= -half && h < half && (l > lo || h < hi)) { lo = std::max(l, lo); hi = std::min(h, hi); }
    return true;
}
static Exact* mkExact(Expr* num, u32 shift, s128 lo, s128 hi, const Poly* poly) {
    if (lo < -XMAX || hi > XMAX || shift > 20) return nullptr;
    return new Exact{num, shift, (s64) lo, (s64) hi, poly};
}
static Exact* mkExact(Expr* num, u32 shift, s128 lo, s128 hi) { return mkExact(num, shift, lo, hi, atom(num)); }
static Exact* exactOf(Expr* e) {
    if (e->exact || !e->isConst() || (e->width != 32 && e->width != 64)) return e->exact;
    double d = e->width == 32 ? bitsF(e->val) : bitsD(e->val);
    if (!(d > -XMAX && d < XMAX)) return nullptr;
    u32 sh = 0;
    while (d != (double) (s64) d && sh <= 20) { d *= 2; sh++; }
    if (d != (double) (s64) d) return nullptr;
    return e->exact = mkExact(mkConst((u128) (s128) (s64) d, XW), sh, (s64) d, (s64) d);
}
static Expr* scaled(Exact* x, u32 sh, s128& lo, s128& hi) {
    lo = (s128) x->lo << (sh - x->shift); hi = (s128) x->hi << (sh - x->shift);
    if (lo < -((s128) 1 << 38) || hi > ((s128) 1 << 38)) return nullptr;
    return sh == x->shift ? x->num : mkBin(OMul, x->num, mkConst((u128) 1 << (sh - x->shift), XW));
}
static Exact* exactBin(Op op, Expr* a, Expr* b) {
    Exact *x = exactOf(a), *y = exactOf(b);
    if (!x || !y) return nullptr;
    s128 al, ah, bl, bh;
    if (op == OFAdd || op == OFSub) {
        u32 sh = std::max(x->shift, y->shift);
        Expr *p = scaled(x, sh, al, ah), *q = scaled(y, sh, bl, bh);
        if (!p || !q) return nullptr;
        const Poly* sum = combine(x->poly, (u64) 1 << (sh - x->shift), y->poly, op == OFAdd ? (u64) 1 << (sh - y->shift) : 0 - ((u64) 1 << (sh - y->shift)));
        if (op == OFAdd) return mkExact(mkBin(OAdd, p, q), sh, al + bl, ah + bh, sum);
        return mkExact(mkBin(OSub, p, q), sh, al - bh, ah - bl, sum);
    }
    if (op == OFMul) {
        s128 p[4] = {(s128) x->lo * y->lo, (s128) x->lo * y->hi, (s128) x->hi * y->lo, (s128) x->hi * y->hi};
        s128 l = *std::min_element(p, p + 4), h = *std::max_element(p, p + 4);
        if (l < -XMAX || h > XMAX) return nullptr;
        return mkExact(mkBin(OMul, x->num, y->num), x->shift + y->shift, l, h, product(x->poly, y->poly));
    }
    if (op == OFDiv && b->isConst()) {
        double d = b->width == 32 ? bitsF(b->val) : bitsD(b->val);
        int ex;
        double fr = frexp(d, &ex); // d = +-0.5 * 2^ex
        if (fr != 0.5 && fr != -0.5) return nullptr;
        int k = ex - 1; // divide by 2^k
        if (k > 20 || k < -20) return nullptr;
        s128 l = x->lo, h = x->hi;
        Expr* n = x->num;
        u32 sh = x->shift;
        u64 kp = 1;
        if (k >= 0) sh += k;
        else if ((u32) -k <= sh) sh -= -k;
        else { n = mkBin(OMul, n, mkConst((u128) 1 << (-k - sh), XW)); l <<= -k - sh; h <<= -k - sh; kp = (u64) 1 << (-k - sh); sh = 0; }
        if (fr < 0) { n = mkBin(OSub, mkConst(0, XW), n); std::swap(l, h); l = -l; h = -h; kp = 0 - kp; }
        return mkExact(n, sh, l, h, combine(x->poly, kp, zeroPoly, 0));
    }
    return nullptr;
}
static bool samePoly(Exact* x, Exact* y) { // at the same scale
    u32 sh = std::max(x->shift, y->shift);
    if (!x->poly || !y->poly) return false;
    if (x->shift == y->shift && x->poly == y->poly) return true;
    const Poly *p = combine(x->poly, (u64) 1 << (sh - x->shift), y->poly, 0 - ((u64) 1 << (sh - y->shift)));
    bool same = p && p->empty();
    delete p;
    return same;
}
u64 g_polyDecided = 0;
static Expr* exactCmp(Op op, Expr* a, Expr* b) {
    Exact *x = exactOf(a), *y = exactOf(b);
    if (!x || !y) return nullptr;
    u32 sh = std::max(x->shift, y->shift);
    s128 al, ah, bl, bh;
    Expr *p = scaled(x, sh, al, ah), *q = scaled(y, sh, bl, bh);
    if (!p || !q) return nullptr;
    if (al > bh) return mkConst(0, 1);
    if (ah < bl) return mkConst(op != OFEq, 1);
    if (samePoly(x, y)) { g_polyDecided++; return mkConst(op != OFLt, 1); }
    u32 k = 2; // bits that hold both
    for (s128 m = std::max(std::max(ah, -al), std::max(bh, -bl)); m >= ((s128) 1 << (k - 1)); k++) {}
    if (k < XW) { p = mkExtract(p, 0, k); q = mkExtract(q, 0, k); }
    return mkBin(op == OFEq ? OEq : op == OFLt ? OSlt : OSle, p, q);
}
static Exact* exactNeg(Exact* x) { return mkExact(mkBin(OSub, mkConst(0, XW), x->num), x->shift, -x->hi, -x->lo, combine(x->poly, (u64) -1, zeroPoly, 0)); }
static void setExact(Expr* r, Exact* x) { if (x && !r->isConst() && !r->exact) r->exact = x; }
static Expr* withExactBin(Op op, Expr* a, Expr* b, Expr* r) {
    if (r->exact || r->isConst()) return r;
    if (op >= OFAdd && op <= OFDiv) {
        Exact* x = exactBin(op, a, b);
        // What always has the same value is a constant (but for zero, whose sign is not known)
        if (x && x->poly && x->poly->size() == 1 && x->poly->begin()->first.empty()) {
            double d = ldexp((double) (s64) x->poly->begin()->second, -(int) x->shift);
            return mkConst(r->width == 32 ? fbits((float) d) : dbits(d), r->width);
        }
        setExact(r, x);
    }
    else if ((op == OXor || op == OAnd) && (r->width == 32 || r->width == 64) && b->isConst() && a->exact) {
        u128 sign = (u128) 1 << (r->width - 1);
        if (op == OXor && b->val == sign) setExact(r, exactNeg(a->exact));
        if (op == OAnd && b->val == sign - 1) {
            Exact* x = a->exact;
            s64 m = std::max(x->hi, -x->lo);
            setExact(r, mkExact(mkIte(mkBin(OSlt, x->num, mkConst(0, XW)), mkBin(OSub, mkConst(0, XW), x->num), x->num), x->shift, 0, m));
        }
    }
    return r;
}
static Expr* ashrX(Expr* e, u32 s) { return s ? mkBin(OAShr, e, mkConst(s, XW)) : e; }
static Expr* withExactUn(Op op, Expr* a, Expr* r) {
    if (r->exact || r->isConst()) return r;
    if (op == OSIToF || op == OUIToF) {
        if (r->width != 32 && r->width != 64) return r;
        s128 lo = (s128) a->umin, hi = (s128) a->umax;
        if (op == OSIToF && !signedRange(a, lo, hi)) return r;
        if (lo < -XMAX || hi > XMAX) return r;
        Expr* n = a->width > XW ? mkExtract(a, 0, XW) : op == OSIToF ? mkSExt(a, XW) : mkZExt(a, XW);
        setExact(r, mkExact(n, 0, lo, hi));
        return r;
    }
    Exact* x = a->exact;
    if (!x) return r;
    s64 one = (s64) 1 << x->shift;
    if (op == OFConv && (r->width == 32 || r->width == 64)) setExact(r, x);
    else if (op == OFFloor) setExact(r, mkExact(ashrX(x->num, x->shift), 0, x->lo >> x->shift, x->hi >> x->shift));
    else if (op == OFCeil) setExact(r, mkExact(ashrX(mkBin(OAdd, x->num, mkConst((u128) (one - 1), XW)), x->shift), 0, (x->lo + one - 1) >> x->shift, (x->hi + one - 1) >> x->shift));
    return r;
}

static bool isCmp(Op op) { return op == OEq || op == OUlt || op == OUle || op == OSlt || op == OSle || op == OFEq || op == OFLt || op == OFLe; }
static bool isComm(Op op) { return op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq; }

Expr* mkNot(Expr* a) { return mkBin(OXor, a, mkConst(1, 1)); }

// if-then-else tree whose leaves are all constants
static bool constIte(Expr* e, int depth = 0) {
    if (e->op != OIte || depth > 40) return false;
    return (e->b->isConst() || constIte(e->b, depth + 1)) && (e->c->isConst() || constIte(e->c, depth + 1));
}
static Expr* mapIte(Op op, Expr* ite, Expr* k, bool kRight) {
    if (ite->isConst()) return kRight ? mkBin(op, ite, k) : mkBin(op, k, ite);
    return mkIte(ite->a, mapIte(op, ite->b, k, kRight), mapIte(op, ite->c, k, kRight));
}

static Expr* mkBin1(Op op, Expr* a, Expr* b);
Expr* mkBin(Op op, Expr* a, Expr* b) {
    if (op == OFEq || op == OFLt || op == OFLe) {
        if (a->exact || b->exact)
            if (Expr* r = exactCmp(op, a, b)) return r;
    } else if ((op >= OFAdd && op <= OFDiv) || op == OXor || op == OAnd) {
        if (a->exact || b->exact) {
            if (a->isConst() && (op == OXor || op == OAnd)) std::swap(a, b);
            return withExactBin(op, a, b, mkBin1(op, a, b));
        }
    }
    return mkBin1(op, a, b);
}
static Expr* mkBin1(Op op, Expr* a, Expr* b) {
    u32 w = a->width;
    u32 rw = isCmp(op) ? 1 : w;
    if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->val, b->val, w), rw);
    if (isComm(op)) {
        if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
    }
    if (op < OFAdd) {
        if (b->isConst() && constIte(a)) return mapIte(op, a, b, true);
        if (a->isConst() && constIte(b)) return mapIte(op, b, a, false);
    }
    u128 m = maskOf(w);
    switch (op) {
        case OAdd:
            if (b->isConst()) {
                if (b->val == 0) return a;
                if (a->op == OAdd && a->b->isConst()) return mkBin(OAdd, a->a, mkConst(a->b->val + b->val, w));
                if (a->op == OSub && a->a->isConst()) return mkBin(OSub, mkConst(a->a->val + b->val, w), a->b);
            } else {
                if (a->op == OAdd && a->b->isConst()) return mkBin(OAdd, mkBin(OAdd, a->a, b), a->b);
                if (b->op == OAdd && b->b->isConst()) return mkBin(OAdd, mkBin(OAdd, a, b->a), b->b);
                if (a->op == OSub && a->b == b) return a->a;
                if (b->op == OSub && b->b == a) return b->a;
            }
            break;
        case OSub:
            if (a == b) return mkConst(0, w);
            if (b->isConst()) return mkBin(OAdd, a, mkConst(0 - b->val, w));
            if (a->op == OAdd && a->b->isConst()) {
                return mkBin(OAdd, mkBin(OSub, a->a, b), a->b);
            }
            if (b->op == OAdd && b->b->isConst()) return mkBin(OAdd, mkBin(OSub, a, b->a), mkConst(0 - b->b->val, w));
            if (a->op == OAdd && a->a == b) return a->b;
            if (a->op == OAdd && a->b == b) return a->a;
            break;
        case OMul:
            if (b->isConst()) {
                if (b->val == 0) return b;
                if (b->val == 1) return a;
                if ((b->val & (b->val - 1)) == 0) {
                    u32 s = 0; while (!((b->val >> s) & 1)) s++;
                    return mkBin(OShl, a, mkConst(s, w));
                }
                if (a->op == OAdd && a->b->isConst()) return mkBin(OAdd, mkBin(OMul, a->a, b), mkConst(a->b->val * b->val, w));
            }
            break;
        case OUDiv:
            if (b->isConst() && b->val == 1) return a;
            if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) {
                u32 s = 0; while (!((b->val >> s) & 1)) s++;
                return mkBin(OLShr, a, mkConst(s, w));
            }
            break;
        case OURem:
            if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) return mkBin(OAnd, a, mkConst(b->val - 1, w));
            if (b->isConst() && a->umax < b->val) return a;
            break;
        case OAnd:
            if (a == b) return a;
            if (b->isConst()) {
                if (b->val == 0) return b;
                if (b->val == m) return a;
                if (a->op == OAnd && a->b->isConst()) return mkBin(OAnd, a->a, mkConst(a->b->val & b->val, w));
                // low mask
                if ((b->val & (b->val + 1)) == 0) {
                    if (a->umax <= b->val) return a;
                    u32 n = 0; while ((b->val >> n) & 1) n++;
                    return mkZExt(mkExtract(a, 0, n), w);
                }
                if (a->op == OZExt && (b->val & ~maskOf(a->a->width)) == 0)
                    return mkZExt(mkBin(OAnd, a->a, mkConst(b->val, a->a->width)), w);
                if (a->op == OZExt) return mkBin(OAnd, a, mkConst(b->val & maskOf(a->a->width), w));
            } else {
                if (w == 1) {
                    if (a->op == OXor && isNot(a) && a->a == b) return mkConst(0, 1);
                    if (b->op == OXor && isNot(b) && b->a == a) return mkConst(0, 1);
                }
                if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width)
                    return mkZExt(mkBin(OAnd, a->a, b->a), w);
            }
            break;
        case OOr:
            if (a == b) return a;
            if (b->isConst()) {
                if (b->val == 0) return a;
                if (b->val == m) return b;
            } else {
                if (w == 1) {
                    if (isNot(a) && a->a == b) return mkConst(1, 1);
                    if (isNot(b) && b->a == a) return mkConst(1, 1);
                }
                // (zext x) | (zext y << k) with disjoint bits -> concat
                for (int t = 0; t < 2; t++) {
                    Expr *lo = t ? b : a, *hi = t ? a : b;
                    if (hi->op == OShl && hi->b->isConst()) {
                        u32 s = (u32) hi->b->val;
                        if (s < w && lo->umax <= maskOf(s)) {
                            Expr* h = mkExtract(hi->a, 0, w - s);
                            Expr* l = mkExtract(lo, 0, s);
                            return mkConcat(h, l);
                        }
                    }
                    if (hi->op == OConcat && hi->b->isConst() && hi->b->val == 0 && lo->umax <= maskOf(hi->b->width))
                        return mkConcat(hi->a, mkExtract(lo, 0, hi->b->width));
                }
                if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width)
                    return mkZExt(mkBin(OOr, a->a, b->a), w);
            }
            break;
        case OXor:
            if (a == b) return mkConst(0, w);
            if (b->isConst()) {
                if (b->val == 0) return a;
                if (a->op == OXor && a->b->isConst()) return mkBin(OXor, a->a, mkConst(a->b->val ^ b->val, w));
                if (w == 1) {
                    // push negation into comparisons
                    if (a->op == OUlt) return mkBin(OUle, a->b, a->a);
                    if (a->op == OUle) return mkBin(OUlt, a->b, a->a);
                    if (a->op == OSlt) return mkBin(OSle, a->b, a->a);
                    if (a->op == OSle) return mkBin(OSlt, a->b, a->a);
                }
            }
            break;
        case OShl:
            if (b->isConst()) {
                if (b->val == 0) return a;
                if (b->val >= w) return mkConst(0, w);
                return mkConcat(mkExtract(a, 0, w - (u32) b->val), mkConst(0, (u32) b->val));
            }
            break;
        case OLShr:
            if (b->isConst()) {
                if (b->val == 0) return a;
                if (b->val >= w) return mkConst(0, w);
                return mkZExt(mkExtract(a, (u32) b->val, w - (u32) b->val), w);
            }
            break;
        case OAShr:
            if (b->isConst()) {
                if (b->val == 0) return a;
                u32 s = b->val >= w ? w - 1 : (u32) b->val;
                if (a->umax <= (m >> 1)) return mkBin(OLShr, a, mkConst(s, w));
                return mkSExt(mkExtract(a, s, w - s), w);
            }
            break;
        case OEq:
            if (a == b) return mkConst(1, 1);
            if (a->umax < b->umin || b->umax < a->umin) return mkConst(0, 1);
            if (b->isConst()) {
                if (w == 1) return b->val ? a : mkNot(a);
                if (a->op == OZExt) return mkBin(OEq, a->a, mkConst(b->val, a->a->width));
                if (a->op == OSExt) {
                    u128 t = b->val & maskOf(a->a->width);
                    if ((u128) sextv(t, a->a->width) == (u128) sextv(b->val, w)) return mkBin(OEq, a->a, mkConst(t, a->a->width));
                    return mkConst(0, 1);
                }
                if (a->op == OAdd && a->b->isConst()) return mkBin(OEq, a->a, mkConst(b->val - a->b->val, w));
                if (a->op == OSub && a->a->isConst()) return mkBin(OEq, a->b, mkConst(a->a->val - b->val, w));
                if (a->op == OXor && a->b->isConst()) return mkBin(OEq, a->a, mkConst(b->val ^ a->b->val, w));
                if (a->op == OConcat) {
                    Expr* hi = mkBin(OEq, a->a, mkConst(b->val >> a->b->width, a->a->width));
                    if (hi->isConst() && !hi->val) return hi;
                    Expr* lo = mkBin(OEq, a->b, mkConst(b->val, a->b->width));
                    return mkBin(OAnd, hi, lo);
                }
                if (a->op == OIte) {
                    if (a->b->isConst() || a->c->isConst())
                        return mkIte(a->a, mkBin(OEq, a->b, b), mkBin(OEq, a->c, b));
                }
            } else {
                if (a->op == OZExt && b->op == OZExt) {
                    u32 mw = std::max(a->a->width, b->a->width);
                    return mkBin(OEq, mkZExt(a->a, mw), mkZExt(b->a, mw));
                }
                if (a->op == OSExt && b->op == OSExt && a->a->width == b->a->width) return mkBin(OEq, a->a, b->a);
                if (a->op == OConcat && b->op == OConcat && a->b->width == b->b->width)
                    return mkBin(OAnd, mkBin(OEq, a->a, b->a), mkBin(OEq, a->b, b->b));
                if (a->op == OAdd && a->b->isConst() && b->op == OAdd && b->b->isConst())
                    return mkBin(OEq, a->a, mkBin(OAdd, b->a, mkConst(b->b->val - a->b->val, w)));
                if (b->op == OAdd && b->a == a) return mkBin(OEq, b->b, mkConst(0, w));
                if (a->op == OAdd && a->a == b) return mkBin(OEq, a->b, mkConst(0, w));
            }
            break;
        case OUlt:
            if (a == b) return mkConst(0, 1);
            if (a->umax < b->umin) return mkConst(1, 1);
            if (a->umin >= b->umax) return mkConst(0, 1);
            if (b->isConst() && b->val == 1) return mkBin(OEq, a, mkConst(0, w));
            if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width) return mkBin(OUlt, a->a, b->a);
            if (a->op == OZExt && b->isConst() && b->val <= maskOf(a->a->width)) return mkBin(OUlt, a->a, mkConst(b->val, a->a->width));
            if (b->op == OZExt && a->isConst() && a->val <= maskOf(b->a->width)) return mkBin(OUlt, mkConst(a->val, b->a->width), b->a);
            if (a->isConst() && a->val == 0) return mkNot(mkBin(OEq, b, a));
            break;
        case OUle:
            if (a == b) return mkConst(1, 1);
            if (a->umax <= b->umin) return mkConst(1, 1);
            if (a->umin > b->umax) return mkConst(0, 1);
            if (b->isConst() && b->val == 0) return mkBin(OEq, a, b);
            if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width) return mkBin(OUle, a->a, b->a);
            if (a->op == OZExt && b->isConst() && b->val <= maskOf(a->a->width)) return mkBin(OUle, a->a, mkConst(b->val, a->a->width));
            if (b->op == OZExt && a->isConst() && a->val <= maskOf(b->a->width)) return mkBin(OUle, mkConst(a->val, b->a->width), b->a);
            break;
        case OSlt: case OSle: {
            if (a == b) return mkConst(op == OSle, 1);
            u128 half = m >> 1;
            if (a->umax <= half && b->umax <= half) return mkBin(op == OSlt ? OUlt : OUle, a, b);
            if (a->umin > half && b->umin > half) return mkBin(op == OSlt ? OUlt : OUle, a, b);
            if (a->umin > half && b->umax <= half) return mkConst(1, 1);
            if (a->umax <= half && b->umin > half) return mkConst(0, 1);
            if (a->op == OSExt && b->op == OSExt && a->a->width == b->a->width) return mkBin(op, a->a, b->a);
            if (a->op == OSExt && b->isConst()) {
                u32 nw = a->a->width; u128 t = b->val & maskOf(nw);
                if ((u128) sextv(t, nw) == (u128) sextv(b->val, w)) return mkBin(op, a->a, mkConst(t, nw));
                return mkConst(sextv(b->val, w) > 0, 1);
            }
            if (b->op == OSExt && a->isConst()) {
                u32 nw = b->a->width; u128 t = a->val & maskOf(nw);
                if ((u128) sextv(t, nw) == (u128) sextv(a->val, w)) return mkBin(op, mkConst(t, nw), b->a);
                return mkConst(sextv(a->val, w) < 0, 1);
            }
            break;
        }
        default: break;
    }
    return mk3(op, rw, a, b);
}

// Narrowing is pushed through shared sub-expressions, so what has been narrowed before is remembered.
struct ExtractMemo { Expr* a; u32 lo, w; Expr* r; };
static ExtractMemo extractMemo[1 << 16];
static Expr* mkExtractUncached(Expr* a, u32 lo, u32 w);
Expr* mkExtract(Expr* a, u32 lo, u32 w) {
    if (lo == 0 && w == a->width) return a;
    if (a->isConst()) return mkConst(a->val >> lo, w);
    switch (a->op) {
        case OAnd: case OOr: case OXor: case OAdd: case OSub: case OMul: case OIte: case OConcat: {
            size_t h = ((size_t) a >> 4) * 0x9E3779B97F4A7C15ull + lo * 0xC2B2AE3D27D4EB4Full + w * 0x165667B19E3779F9ull;
            ExtractMemo& m = extractMemo[(h ^ (h >> 32)) & 0xffff];
            if (m.a == a && m.lo == lo && m.w == w) return m.r;
            Expr* r = mkExtractUncached(a, lo, w);
            m = {a, lo, w, r};
            return r;
        }
        default: return mkExtractUncached(a, lo, w);
    }
}
static Expr* mkExtractUncached(Expr* a, u32 lo, u32 w) {
    switch (a->op) {
        case OExtract: return mkExtract(a->a, a->aux + lo, w);
        case OConcat:
            if (lo >= a->b->width) return mkExtract(a->a, lo - a->b->width, w);
            if (lo + w <= a->b->width) return mkExtract(a->b, lo, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - a->b->width), mkExtract(a->b, lo, a->b->width - lo));
        case OZExt:
            if (lo >= a->a->width) return mkConst(0, w);
            if (lo + w <= a->a->width) return mkExtract(a->a, lo, w);
            return mkZExt(mkExtract(a->a, lo, a->a->width - lo), w);
        case OSExt:
            if (lo + w <= a->a->width) return mkExtract(a->a, lo, w);
            if (lo == 0) return mkSExt(a->a, w);
            if (lo < a->a->width) return mkSExt(mkExtract(a->a, lo, a->a->width - lo), w);
            return mkSExt(mkExtract(a->a, a->a->width - 1, 1), w);
        case OIte:
            if (constIte(a) || a->b->isConst() || a->c->isConst())
                return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
            break;
        case OAnd: case OOr: case OXor:
            return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        case OAdd: case OSub: case OMul:
            if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
            break;
        default: break;
    }
    return mk3(OExtract, w, a, nullptr, nullptr, lo);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
    u32 w = hi->width + lo->width;
    if (w > 128) abort();
    if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->width) | lo->val, w);
    if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
    if (hi->op == OExtract && lo->op == OExtract && hi->a == lo->a && hi->aux == lo->aux + lo->width)
        return mkExtract(hi->a, lo->aux, w);
    // whole value as extract of same base when low part is the value itself truncated
    if (lo->op == OConcat && hi->op == OExtract && lo->a->op == OExtract && lo->a->a == hi->a &&
        hi->aux == lo->a->aux + lo->a->width)
        return mkConcat(mkExtract(hi->a, lo->a->aux, hi->width + lo->a->width), lo->b);
    if (hi->op == OZExt) return mkZExt(mkConcat(hi->a, lo), w);
    return mk3(OConcat, w, hi, lo);
}
Expr* mkZExt(Expr* a, u32 w) {
    if (w == a->width) return a;
    if (a->isConst()) return mkConst(a->val, w);
    if (a->op == OZExt) return mkZExt(a->a, w);
    if (constIte(a)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
    return mk3(OZExt, w, a);
}
Expr* mkSExt(Expr* a, u32 w) {
    if (w == a->width) return a;
    if (a->isConst()) return mkConst((u128) sextv(a->val, a->width), w);
    if (a->op == OSExt) return mkSExt(a->a, w);
    if (a->op == OZExt) return mkZExt(a->a, w);
    if (a->width > 1 && a->umax <= (maskOf(a->width) >> 1)) return mkZExt(a, w);
    if (constIte(a)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return mk3(OSExt, w, a);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (c->isConst()) return c->val ? a : b;
    if (a == b) return a;
    if (isNot(c)) return mkIte(c->a, b, a);
    if (a->width == 1) {
        if (a->isConst() && b->isConst()) return a->val ? c : mkNot(c);
        if (a->isConst()) return a->val ? mkBin(OOr, c, b) : mkBin(OAnd, mkNot(c), b);
        if (b->isConst()) return b->val ? mkBin(OOr, mkNot(c), a) : mkBin(OAnd, c, a);
    }
    if (a->op == OIte && a->a == c) a = a->b;
    if (b->op == OIte && b->a == c) b = b->c;
    if (a == b) return a;
    Expr* r = mk3(OIte, a->width, c, a, b);
    if (!r->exact && (a->exact || b->exact)) {
        Exact *x = exactOf(a), *y = exactOf(b);
        if (x && y) {
            u32 sh = std::max(x->shift, y->shift);
            s128 al, ah, bl, bh;
            Expr *p = scaled(x, sh, al, ah), *q = scaled(y, sh, bl, bh);
            if (p && q) setExact(r, mkExact(mkIte(c, p, q), sh, std::min(al, bl), std::max(ah, bh)));
        }
    }
    return r;
}
Expr* mkFUn(Op op, Expr* a, u32 w) {
    if (a->isConst()) return mkConst(foldFUn(op, a->val, a->width, w), w);
    Exact* x = a->exact;
    if (op == OFIsNan && x) return mkConst(0, 1);
    if (op == OFToSI && x && w <= XW + 24) {
        s64 lo = x->lo >> x->shift, hi = (x->hi >> x->shift) + 1;
        if (w >= 26 || (lo >= -(1ll << (w - 1)) && hi < (1ll << (w - 1)))) {
            s64 one = (s64) 1 << x->shift; // towards zero
            Expr* n = x->num;
            if (x->shift)
                n = mkIte(mkBin(OSlt, n, mkConst(0, XW)), ashrX(mkBin(OAdd, n, mkConst((u128) (one - 1), XW)), x->shift), ashrX(n, x->shift));
            return w <= XW ? mkExtract(n, 0, w) : mkSExt(n, w);
        }
    }
    return withExactUn(op, a, mk3(op, w, a));
}

u128 evalExpr(Expr* e, const Model& m, u64 ep) {
    if (e->op == OConst) return e->val;
    if (e->op == OVar) return e->aux < m.size() ? m[e->aux] : 0;
    if (e->evalEpoch == ep) return e->evalVal;
    u128 r;
    switch (e->op) {
        case OConcat: r = (evalExpr(e->a, m, ep) << e->b->width) | evalExpr(e->b, m, ep); break;
        case OExtract: r = (evalExpr(e->a, m, ep) >> e->aux) & maskOf(e->width); break;
        case OZExt: r = evalExpr(e->a, m, ep); break;
        case OSExt: r = (u128) sextv(evalExpr(e->a, m, ep), e->a->width) & maskOf(e->width); break;
        case OIte: r = evalExpr(e->a, m, ep) ? evalExpr(e->b, m, ep) : evalExpr(e->c, m, ep); break;
        case OFSqrt: case OFFloor: case OFCeil: case OFTrunc_: case OFRound: case OFIsNan:
        case OFToSI: case OFToUI: case OSIToF: case OUIToF: case OFConv:
            r = foldFUn(e->op, evalExpr(e->a, m, ep), e->a->width, e->width); break;
        case OAgg: abort();
        default: r = foldBin(e->op, evalExpr(e->a, m, ep), evalExpr(e->b, m, ep), e->a->width); break;
    }
    e->evalEpoch = ep; e->evalVal = r;
    return r;
}

static const char* opNames[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","frem","fsqrt","ffloor","fceil","ftrunc","fround","feq","flt","fle","fisnan","ftosi","ftoui","sitof","uitof","fconv","agg"};
std::string exprToString(Expr* e, int depth) {
    if (e->isConst()) return std::to_string((unsigned long long) e->val) + ":" + std::to_string(e->width);
    if (e->op == OVar) return g_vars[e->aux].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + opNames[e->op];
    if (e->op == OExtract || e->op == OZExt || e->op == OSExt) s += "." + std::to_string(e->aux) + "." + std::to_string(e->width);
    for (Expr* k : {e->a, e->b, e->c}) if (k) s += " " + exprToString(k, depth - 1);
    return s + ")";
}
