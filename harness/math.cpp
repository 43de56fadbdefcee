// C23: vectors, matrices, rotations, axes and boxes. Components are small integers or fractions of powers of two, for
// which IEEE arithmetic is exact, so that results must be equal however the terms are arranged.
#include <ply-math/Core.h>
#include <ply-math/Vector.h>
#include <ply-math/IntVector.h>
#include <ply-math/Matrix.h>
#include <ply-math/Quaternion.h>
#include <ply-math/QuatPos.h>
#include <ply-math/AxisVector.h>
#include <ply-math/Extra.h>
#include <ply-math/Complex.h>
#include <ply-math/Interpolate.h>
#include <ply-math/Color.h>
#include <ply-math/Approx.h>
#include "sx.h"
using namespace ply;

static int num(const char* name, int bits = 4) {
    return (int) sx_var(bits, name) - (1 << (bits - 1));
}
static float flt(const char* name, int bits = 5) {
    return (float) num(name, bits);
}
static Float2 v2(const char* name) { return {flt(name), flt(name)}; }
static Float3 v3(const char* name) { return {flt(name), flt(name), flt(name)}; }
static Float4 v4(const char* name) { return {flt(name), flt(name), flt(name), flt(name)}; }
template <class V> struct Dim { static const int N = sizeof(V) / sizeof(V::x); };
template <class V> static decltype(V::x) at(const V& v, int i) { return (&v.x)[i]; }
template <class V> static decltype(V::x)& at(V& v, int i) { return (&v.x)[i]; }
template <class B> static bool bat(const B& b, int i) { return (&b.x)[i]; }
static float fmin_(float a, float b) { return a < b ? a : b; }
static float fmax_(float a, float b) { return a < b ? b : a; }

template <class V> static V any_();
template <> Float2 any_<Float2>() { return v2("v"); }
template <> Float3 any_<Float3>() { return v3("v"); }
template <> Float4 any_<Float4>() { return v4("v"); }

template <class V> static void vec() {
    const int N = Dim<V>::N;
    V a = any_<V>(), b = any_<V>(), c = any_<V>();
    float s = flt("s");
    V sum = a + b, dif = a - b, pro = a * b, neg = -a, scl = a * s, spl = V{s};
    V sum2 = a, dif2 = a, pro2 = a, asg;
    sum2 += b;
    dif2 -= b;
    pro2 *= b;
    asg = a;
    V lo = min(a, b), hi = max(a, b), ab = abs(a), cl = clamp(c, lo, hi);
    auto lt = a < b;
    auto le = a <= b;
    auto gt = a > b;
    auto ge = a >= b;
    float d = 0, l2 = 0;
    bool eq = true, allLt = true, anyLt = false;
    for (int i = 0; i < N; i++) {
        float x = at(a, i), y = at(b, i);
        CHECK(at(sum, i) == x + y && at(sum2, i) == x + y);
        CHECK(at(dif, i) == x - y && at(dif2, i) == x - y);
        CHECK(at(pro, i) == x * y && at(pro2, i) == x * y);
        CHECK(at(neg, i) == 0 - x && at(scl, i) == x * s && at(spl, i) == s && at(asg, i) == x);
        CHECK(at(lo, i) == fmin_(x, y) && at(hi, i) == fmax_(x, y) && at(ab, i) == fmax_(x, 0 - x));
        CHECK(at(cl, i) == fmax_(fmin_(at(c, i), fmax_(x, y)), fmin_(x, y)));
        CHECK(bat(lt, i) == (x < y) && bat(le, i) == (x <= y) && bat(gt, i) == (x > y) && bat(ge, i) == (x >= y));
        d += x * y;
        l2 += x * x;
        eq &= x == y;
        allLt &= x < y;
        anyLt |= x < y;
    }
    CHECK(dot(a, b) == d && a.length2() == l2);
    CHECK((a == b) == eq && (a != b) == !eq);
    CHECK(all(lt) == allLt && any(lt) == anyLt);
    // Near: within a distance
    float e = (float) sx_var(3, "eps");
    V bc = b - a;
    CHECK(isNear(a, b, e) == (bc.length2() <= e * e));
}
ENTRY h_vec() {
    switch (sx_pick(2, 4, "n")) {
        case 2: vec<Float2>(); break;
        case 3: vec<Float3>(); break;
        default: vec<Float4>(); break;
    }
    sx_reach("end");
}

// Division, length and rounding, with values for which they are exact.
template <class V> static void vecDiv() {
    const int N = Dim<V>::N;
    V a = any_<V>(), b;
    static const float divs[] = {1, -1, 2, 0.5f, 4, -8};
    float s = divs[sx_pick(0, 5, "s")];
    for (int i = 0; i < N; i++) {
        at(b, i) = divs[(sx_pick(0, 5, "b") + i) % 6];
        if (i)
            break;
    }
    for (int i = 1; i < N; i++) {
        at(b, i) = divs[i];
    }
    V q = a / b, q2 = a, r = a / s, r2 = a;
    q2 /= b;
    r2 /= s;
    float spc = s < 0 ? -s : s;
    V qr = a / V{8.f}, up = roundUp(qr, spc), dn = roundDown(qr, spc), nr = roundNearest(qr, spc);
    for (int i = 0; i < N; i++) {
        CHECK(at(q, i) * at(b, i) == at(a, i) && at(q2, i) == at(q, i));
        CHECK(at(r, i) * s == at(a, i) && at(r2, i) == at(r, i));
        float x = at(qr, i);
        CHECKM(at(up, i) >= x && at(up, i) - x < spc, "rounding up gives the next multiple");
        CHECKM(at(dn, i) <= x && x - at(dn, i) < spc, "rounding down gives the previous multiple");
        CHECKM(floorf(at(up, i) / spc) * spc == at(up, i) && floorf(at(dn, i) / spc) * spc == at(dn, i), "rounding gives multiples");
    }
    (void) nr;
}
ENTRY h_vec_div() {
    switch (sx_pick(2, 4, "n")) {
        case 2: vecDiv<Float2>(); break;
        case 3: vecDiv<Float3>(); break;
        default: vecDiv<Float4>(); break;
    }
    // Single numbers: nearest multiple, wrapping
    static const float spacings[] = {1, 2, 0.5f, 4};
    float x = (float) ((int) sx_pick(0, 64, "x") - 32) / 8, spc = spacings[sx_pick(0, 3, "spacing")];
    float n = roundNearest(x, spc);
    CHECK(floorf(n / spc) * spc == n && fabsf(n - x) <= spc / 2);
    CHECK(isRounded(Float2{n, x}, spc) == (n == x));
    CHECK((float) fastRoundInt(x) == fastRound(x) && fabsf(fastRound(x) - x) <= 0.5f);
    float w = wrap(x, spc);
    CHECK(w >= 0 && w < spc && floorf((x - w) / spc) * spc == x - w);
    CHECK(wrapOne(x) == x - floorf(x));
    CHECK(floorf(x) != x || exactInt(x) == (int) x);
    sx_reach("end");
}

ENTRY h_vec_shape() {
    Float2 a = v2("a");
    Float3 b = v3("b");
    Float4 c = v4("c");
    u32 i = (u32) sx_pick(0, 3, "i"), j = (u32) sx_pick(0, 3, "j"), k = (u32) sx_pick(0, 3, "k"), l = (u32) sx_pick(0, 3, "l");
    CHECK(c.swizzle(i, j) == (Float2{at(c, i), at(c, j)}));
    CHECK(c.swizzle(i, j, k) == (Float3{at(c, i), at(c, j), at(c, k)}));
    CHECK(c.swizzle(i, j, k, l) == (Float4{at(c, i), at(c, j), at(c, k), at(c, l)}));
    u32 m = i | j | k | l;
    if (m < 3 && i < 3 && j < 3 && k < 3 && l < 3) {
        CHECK(b.swizzle(i, j) == (Float2{at(b, i), at(b, j)}));
        CHECK(b.swizzle(i, j, k) == (Float3{at(b, i), at(b, j), at(b, k)}));
        CHECK(b.swizzle(i, j, k, l) == (Float4{at(b, i), at(b, j), at(b, k), at(b, l)}));
    }
    if (m < 2) {
        CHECK(a.swizzle(i, j) == (Float2{at(a, i), at(a, j)}));
        CHECK(a.swizzle(i, j, k) == (Float3{at(a, i), at(a, j), at(a, k)}));
        CHECK(a.swizzle(i, j, k, l) == (Float4{at(a, i), at(a, j), at(a, k), at(a, l)}));
    }
    CHECK(b.asFloat2() == (Float2{b.x, b.y}) && c.asFloat2() == (Float2{c.x, c.y}) && c.asFloat3() == (Float3{c.x, c.y, c.z}));
    CHECK((Float3{a, b.z}) == (Float3{a.x, a.y, b.z}) && (Float4{b, c.w}) == (Float4{b.x, b.y, b.z, c.w}));
    CHECK((Float4{a, b.z, c.w}) == (Float4{a.x, a.y, b.z, c.w}));
    CHECK(c.r() == c.x && c.g() == c.y && c.b() == c.z && c.a() == c.w && b.r() == b.x && b.g() == b.y && b.b() == b.z && a.r() == a.x && a.g() == a.y);
    c.a() = 5;
    c.r() = 6;
    CHECK(c.w == 5 && c.x == 6);
    Int2<s32> ia = a.to<Int2<s32>>();
    Int3<s16> ib = b.to<Int3<s16>>();
    CHECK(ia.to<Float2>() == a && ib.to<Float3>() == b);
    Int4<s32> ic = c.to<Int4<s32>>();
    CHECK(ic.to<Float4>() == c);
    Float2 d = v2("d");
    CHECK(cross(a, d) == a.x * d.y - a.y * d.x);
    // Product of complex numbers, and as matrices
    Float2 p = Complex::mul(a, d);
    CHECK(p.x == a.x * d.x - a.y * d.y && p.y == a.y * d.x + a.x * d.y);
    CHECK(Float2x2::fromComplex(a) * d == p);
    // The cross product: perpendicular to both, of the right length and direction
    Float3 e = v3("e"), f = cross(b, e);
    CHECK(dot(f, b) == 0 && dot(f, e) == 0);
    CHECK(f.length2() == b.length2() * e.length2() - dot(b, e) * dot(b, e));
    CHECK(f.z == b.x * e.y - b.y * e.x && cross(e, b) == -f);
    // Cubic curves: ends, and the blend of the blends
    Float2 q[4] = {a, d, v2("q"), v2("q")};
    static const float ts[] = {0, 0.25f, 0.5f, 1};
    float t = ts[i];
    Float2 r0 = mix(q[0], q[1], t), r1 = mix(q[1], q[2], t), r2 = mix(q[2], q[3], t);
    CHECK(mix(mix(r0, r1, t), mix(r1, r2, t), t) == interpolateCubic(q[0], q[1], q[2], q[3], t));
    CHECK(r0 == a * (1 - t) + d * t);
    CHECK(applySimpleCubic(t) == interpolateCubic(0.f, 0.f, 1.f, 1.f, t));
    sx_reach("end");
}

template <class V> static V anyInt();
template <> Int2<s32> anyInt<Int2<s32>>() { return {num("v", 8), num("v", 8)}; }
template <> Int3<s32> anyInt<Int3<s32>>() { return {num("v", 8), num("v", 8), num("v", 8)}; }
template <> Int4<s32> anyInt<Int4<s32>>() { return {num("v", 8), num("v", 8), num("v", 8), num("v", 8)}; }
template <class V> static void ivec() {
    const int N = Dim<V>::N;
    V a = anyInt<V>(), b = anyInt<V>();
    s32 s = num("s", 8);
    V sum = a + b, dif = a - b, pro = a * b, neg = -a, scl = a * s, spl = V::splat(s), rev = a.reverse();
    V sum2 = a, dif2 = a, pro2 = a, scl2 = a, asg;
    sum2 += b;
    dif2 -= b;
    pro2 *= b;
    scl2 *= s;
    asg = a;
    V lo = min(a, b), hi = max(a, b);
    auto lt = a < b;
    auto le = a <= b;
    auto gt = a > b;
    auto ge = a >= b;
    sreg d = 0, l2 = 0;
    bool eq = true;
    for (int i = 0; i < N; i++) {
        s32 x = at(a, i), y = at(b, i);
        CHECK(a[i] == x);
        CHECK(at(sum, i) == x + y && at(sum2, i) == x + y && at(dif, i) == x - y && at(dif2, i) == x - y);
        CHECK(at(pro, i) == x * y && at(pro2, i) == x * y && at(neg, i) == -x && at(scl, i) == x * s && at(scl2, i) == x * s);
        CHECK(at(spl, i) == s && at(rev, N - 1 - i) == x && at(asg, i) == x);
        CHECK(at(lo, i) == (x < y ? x : y) && at(hi, i) == (x < y ? y : x));
        CHECK(bat(lt, i) == (x < y) && bat(le, i) == (x <= y) && bat(gt, i) == (x > y) && bat(ge, i) == (x >= y));
        d += (sreg) x * y;
        l2 += (sreg) x * x;
        eq &= x == y;
    }
    CHECK(dot(a, b) == (sreg) d && a.length2() == (ureg) l2 && (a == b) == eq && (a != b) == !eq);
    s32 k = (s32) sx_pick(1, 3, "k");
    V q = a / k, q2 = a, q3 = a / V::splat(k), q4 = a;
    q2 /= k;
    q4 /= V::splat(k);
    for (int i = 0; i < N; i++) {
        s32 x = at(a, i) / k;
        CHECK(at(q, i) == x && at(q2, i) == x && at(q3, i) == x && at(q4, i) == x);
    }
}
ENTRY h_vec_int() {
    switch (sx_pick(2, 4, "n")) {
        case 2: {
            ivec<Int2<s32>>();
            Int2<s32> a = anyInt<Int2<s32>>(), b = anyInt<Int2<s32>>();
            CHECK(cross(a, b) == (sreg) a.x * b.y - (sreg) a.y * b.x && a.yx() == (Int2<s32>{a.y, a.x}) && a.swizzle(1, 0) == a.yx());
            // Narrow components wrap around
            Int2<u8> n{(u8) sx_var(8, "n"), (u8) sx_var(8, "n")}, m{(u8) sx_var(8, "m"), (u8) sx_var(8, "m")};
            CHECK((n + m).x == (u8) (n.x + m.x) && (n - m).y == (u8) (n.y - m.y) && (n - m + m) == n);
            break;
        }
        case 3: ivec<Int3<s32>>(); break;
        default: ivec<Int4<s32>>(); break;
    }
    sx_reach("end");
}

//---- boxes, as sets of points
template <class B, class V> static void boxArith(const B& a, const B& b, V p, V e) {
    for (int i = 0; i < Dim<V>::N; i++) {
        CHECK(at(a.size(), i) == at(a.maxs, i) - at(a.mins, i));
        CHECK(at(expand(a, e).mins, i) == at(a.mins, i) - at(e, i) && at(expand(a, e).maxs, i) == at(a.maxs, i) + at(e, i));
        CHECK(at((a + b).mins, i) == at(a.mins, i) + at(b.mins, i) && at((a + b).maxs, i) == at(a.maxs, i) + at(b.maxs, i));
        CHECK(at((a * e).mins, i) == at(a.mins, i) * at(e, i) && at((a * e).maxs, i) == at(a.maxs, i) * at(e, i));
    }
    CHECK(shrink(expand(a, e), e) == a && (a + b) - b == a);
    B c = a;
    c += b;
    CHECK(c == a + b);
    c -= b;
    CHECK(c == a);
    c *= e;
    CHECK(c == a * e);
}
// Along one axis all coordinates are arbitrary, along the others they are one of a few cases.
template <class B, class V> static void box(bool sets) {
    const int N = Dim<V>::N;
    B a, b;
    V p, q, e;
    int any = (int) sx_pick(0, N - 1, "axis");
    for (int i = 0; i < N; i++) {
        typedef decltype(V::x) T;
        if (i == any || !sets) {
            int bits = 4;
            at(a.mins, i) = (T) num("box", bits);
            at(a.maxs, i) = (T) num("box", bits);
            at(b.mins, i) = (T) num("box", bits);
            at(b.maxs, i) = (T) num("box", bits);
            at(p, i) = (T) num("pt", bits);
            at(q, i) = (T) num("pt", bits);
            at(e, i) = (T) num("by", 3);
        } else {
            static const int cases[][5] = {{0, 4, 2, 6, 3}, {0, 4, 2, 6, 4}, {4, 0, 1, 3, 2}, {0, 4, 2, 6, 1}, {0, 4, 4, 6, 3}, {0, 4, 1, 4, 0}, {1, 2, 5, 7, 6}};
            const int* k = cases[sx_pick(0, (int) sx_param("CASES", 3) - 1, "case")];
            at(a.mins, i) = (T) k[0];
            at(a.maxs, i) = (T) k[1];
            at(b.mins, i) = (T) k[2];
            at(b.maxs, i) = (T) k[3];
            at(p, i) = (T) k[4];
            at(q, i) = (T) 2;
            at(e, i) = (T) 1;
        }
    }
    bool inA = true, inB = true, emptyA = false, cover = true;
    for (int i = 0; i < N; i++) {
        inA &= at(a.mins, i) <= at(p, i) && at(p, i) < at(a.maxs, i);
        inB &= at(b.mins, i) <= at(p, i) && at(p, i) < at(b.maxs, i);
        emptyA |= at(a.mins, i) >= at(a.maxs, i);
        cover &= at(a.mins, i) <= at(b.mins, i) && at(b.maxs, i) <= at(a.maxs, i);
    }
    if (!sets) {
        boxArith(a, b, p, e);
        return;
    }
    CHECK(a.contains(p) == inA && b.contains(p) == inB && a.isEmpty() == emptyA);
    CHECK(!(inA && emptyA));
    CHECK(a.contains(b) == cover && !(cover && inB && !inA));
    CHECKM(intersect(a, b).contains(p) == (inA && inB), "a point is in the intersection if it is in both");
    CHECK(a.intersects(b) == !intersect(a, b).isEmpty());
    CHECKM(!(inA || inB) || makeUnion(a, b).contains(p), "a point of either box is in the union");
    B u = makeUnion(a, b), up = makeUnion(a, p), s = makeSolid(a), pq = makeUnion(p, q);
    for (int i = 0; i < N; i++) {
        CHECK(at(u.mins, i) == (at(a.mins, i) < at(b.mins, i) ? at(a.mins, i) : at(b.mins, i)));
        CHECK(at(u.maxs, i) == (at(a.maxs, i) < at(b.maxs, i) ? at(b.maxs, i) : at(a.maxs, i)));
        CHECK(at(up.mins, i) <= at(p, i) && at(p, i) <= at(up.maxs, i) && at(up.mins, i) <= at(a.mins, i) && at(a.maxs, i) <= at(up.maxs, i));
        CHECK(at(up.mins, i) == at(p, i) || at(up.mins, i) == at(a.mins, i));
        CHECK(at(up.maxs, i) == at(p, i) || at(up.maxs, i) == at(a.maxs, i));
        CHECK(at(s.mins, i) <= at(s.maxs, i) && at(s.mins, i) + at(s.maxs, i) == at(a.mins, i) + at(a.maxs, i));
        CHECK(at(s.mins, i) == at(a.mins, i) || at(s.mins, i) == at(a.maxs, i));
        CHECK(at(pq.mins, i) <= at(pq.maxs, i) && at(pq.mins, i) + at(pq.maxs, i) == at(p, i) + at(q, i));
        CHECK(at(pq.mins, i) == at(p, i) || at(pq.mins, i) == at(q, i));
    }
    CHECK((a == b) == (a.mins == b.mins && a.maxs == b.maxs));
    CHECK(B::fromSize(a.mins, a.size()) == a && B{p}.mins == p && B{p}.maxs == p);
    CHECK(a.width() == at(a.maxs, 0) - at(a.mins, 0) && a.height() == at(a.maxs, 1) - at(a.mins, 1));
    CHECKM(B::full().contains(p) && !B::empty().contains(p) && B::empty().isEmpty(), "the full box has every point, the empty one none");
    CHECK(makeUnion(B::empty(), a) == a || a.isEmpty());
    CHECK(makeUnion(B::empty(), p) == B{p});
    CHECK(intersect(B::full(), a) == a);
    CHECK(B::zero().mins == V{0} && B::zero().maxs == V{0});
}
ENTRY h_box() {
    bool sets = sx_pick(0, 1, "sets");
    switch (sx_param("KIND", 0)) {
        case 0: box<IntRect, IntVec2>(sets); break;
        case 1: box<Rect, Float2>(sets); break;
        case 2: box<Box3D, Float3>(sets); break;
        default: {
            Rect r{v2("r"), v2("r")}, g{v2("g"), v2("g")};
            Float2 p = v2("p");
            CHECK(r.mid() * 2.f == r.mins + r.maxs);
            CHECK(r.topLeft() == (Float2{r.mins.x, r.maxs.y}) && r.bottomRight() == (Float2{r.maxs.x, r.mins.y}));
            CHECK(Rect::fromSize(r.mins.x, r.mins.y, p.x, p.y) == (Rect{r.mins, r.mins + p}));
            static const float ts[] = {0, 0.25f, 0.5f, 1, 2, -1};
            Float2 t{ts[sx_pick(0, 5, "t")], ts[sx_pick(0, 5, "t")]};
            Float2 m = r.mix(t);
            CHECK(m.x == r.mins.x + (r.maxs.x - r.mins.x) * t.x && m.y == r.mins.y + (r.maxs.y - r.mins.y) * t.y);
            CHECK(r.mix(Rect{t, t}).mins == m);
            Float2 z{1.f, 4.f};
            Rect s{p, p + z};
            CHECKM(s.unmix(s.mix(t)) == t, "unmix undoes mix");
            CHECK(s.unmix(Rect{s.mins, s.maxs}) == (Rect{{0, 0}, {1, 1}}));
            Float2 w{2.f, 0.5f};
            CHECK((r / w) * w == r);
            Rect d = r;
            d /= w;
            CHECK(d == r / w);
            Float2 c = makeSolid(r).clamp(p);
            CHECK(c.x >= fmin_(r.mins.x, r.maxs.x) && c.x <= fmax_(r.mins.x, r.maxs.x));
            CHECK(c.y == fmax_(fmin_(r.mins.y, r.maxs.y), fmin_(p.y, fmax_(r.mins.y, r.maxs.y))));
            IntRect i = r.to<IntRect>();
            CHECK(i.to<Rect>() == r);
            Rect h{r.mins / Float2{4.f}, r.maxs / Float2{4.f}}, x = roundExpand(h);
            CHECK(x.mins == roundDown(h.mins) && x.maxs == roundUp(h.maxs) && x.contains(h));
            // A mapping of rectangles, and composing and inverting such mappings
            ScalePos2 f = ScalePos2::mapToRect(r), tr = ScalePos2::makeTranslation(p), sc = ScalePos2::makeScale(z);
            CHECK(f * (Rect{{0, 0}, {1, 1}}) == r);
            CHECK(ScalePos2::identity() * p == p && tr * r.mins == r.mins + p && sc * p == z * p);
            CHECKM((tr * sc * f) * g.mins == tr * (sc * (f * g.mins)), "a product of mappings applies them in turn");
            ScalePos2 zs{z, r.mins};
            CHECK(zs.inverted() * (zs * p) == p && zs * (zs.inverted() * p) == p);
            break;
        }
    }
    sx_reach("end");
}

//---- matrices
template <class M> struct MDim;
template <> struct MDim<Float2x2> { static const int C = 2, R = 2; };
template <> struct MDim<Float3x3> { static const int C = 3, R = 3; };
template <> struct MDim<Float3x4> { static const int C = 4, R = 3; };
template <> struct MDim<Float4x4> { static const int C = 4, R = 4; };
template <class M> static float el(const M& m, int c, int r) { return at(m.col[c], r); }
template <class M> static M anyM(int bits = 5) {
    M m;
    for (int c = 0; c < MDim<M>::C; c++) {
        for (int r = 0; r < MDim<M>::R; r++) {
            at(m.col[c], r) = flt("m", bits);
        }
    }
    return m;
}
// The element of the 4x4 matrix that a matrix stands for
template <class M> static float el4(const M& m, int c, int r) {
    return (c < MDim<M>::C && r < MDim<M>::R) ? el(m, c, r) : (c == r ? 1.f : 0.f);
}
template <class M, class A, class B> static void isProduct(const M& m, const A& a, const B& b) {
    for (int c = 0; c < MDim<M>::C; c++) {
        for (int r = 0; r < MDim<M>::R; r++) {
            float s = 0;
            for (int k = 0; k < 4; k++) {
                s += el4(a, k, r) * el4(b, c, k);
            }
            CHECKM(el(m, c, r) == s, "an element of a product is the sum of the products of row and column");
        }
    }
}
template <class M, class V> static void isTransform(const M& m, const V& v, const V& res) {
    const int N = Dim<V>::N;
    for (int r = 0; r < N; r++) {
        float s = 0;
        for (int k = 0; k < 4; k++) {
            s += el4(m, k, r) * (k < N ? at(v, k) : k == 3 ? 1.f : 0.f);
        }
        CHECKM(at(res, r) == s, "a transformed vector is the sum of the products of row and vector");
    }
}
template <class A, class B> static bool same4(const A& a, const B& b) {
    bool eq = true;
    for (int c = 0; c < 4; c++) {
        for (int r = 0; r < 4; r++) {
            eq &= el4(a, c, r) == el4(b, c, r);
        }
    }
    return eq;
}
template <class M> static void compares() {
    M m = anyM<M>(2), n = m;
    CHECK(m == n && !(m != n));
    int c = (int) sx_pick(0, MDim<M>::C - 1, "c"), r = (int) sx_pick(0, MDim<M>::R - 1, "r");
    at(n[c], r) = flt("other", 2);
    CHECK((m == n) == (el(m, c, r) == el(n, c, r)) && (m != n) == !(m == n));
}
ENTRY h_mat() {
    switch (sx_param("KIND", -1) >= 0 ? (int) sx_param("KIND", -1) : (int) sx_pick(0, 9, "kind")) {
        case 0: {
            Float2x2 a = anyM<Float2x2>(4), b = anyM<Float2x2>(4);
            Float2 v = v2("v");
            Float2x2 p = a * b;
            Float2 w = a * v;
            for (int r = 0; r < 2; r++) {
                CHECK(at(w, r) == el(a, 0, r) * v.x + el(a, 1, r) * v.y);
                for (int c = 0; c < 2; c++) {
                    CHECK(el(p, c, r) == el(a, 0, r) * el(b, c, 0) + el(a, 1, r) * el(b, c, 1));
                    CHECK(el(a.transposed(), r, c) == el(a, c, r));
                }
            }
            CHECK(Float2x2::identity() * a == a && a * Float2x2::identity() == a);
            CHECK(Float2x2::makeScale(v) * w == v * w);
            break;
        }
        case 1: {
            Float3x3 a = anyM<Float3x3>(), b = anyM<Float3x3>();
            Float3 v = v3("v");
            isProduct(a * b, a, b);
            isTransform(a, v, a * v);
            CHECK(Float3x3::identity() * a == a && a * Float3x3::identity() == a);
            CHECK(Float3x3::makeScale(v) * a.col[0] == v * a.col[0]);
            CHECK((a * b).transposed() == b.transposed() * a.transposed());
            for (int r = 0; r < 3; r++) {
                for (int c = 0; c < 3; c++) {
                    CHECK(el(a.transposed(), r, c) == el(a, c, r));
                }
            }
            break;
        }
        case 2: {
            Float3x4 a = anyM<Float3x4>(), b = anyM<Float3x4>();
            Float3 v = v3("v");
            Float4 h = v4("h");
            isProduct(a * b, a, b);
            isTransform(a, v, a * v);
            isTransform(a, h, a * h);
            CHECKM((a * b) * v == a * (b * v), "a product of transformations applies them in turn");
            CHECK(Float3x4::identity() * a == a && a * Float3x4::identity() == a);
            CHECK(Float3x4::makeScale(v) * a.col[0] == v * a.col[0] && Float3x4::makeTranslation(v) * a.col[0] == a.col[0] + v);
            break;
        }
        case 3: {
            Float4x4 a = anyM<Float4x4>(), b = anyM<Float4x4>();
            isProduct(a * b, a, b);
            break;
        }
        case 4: {
            Float4x4 a = anyM<Float4x4>();
            Float3x4 b = anyM<Float3x4>();
            isProduct(a * b, a, b);
            isProduct(b * a, b, a);
            break;
        }
        case 5: {
            Float4x4 a = anyM<Float4x4>();
            Float4 v = v4("v");
            Float3 s = v3("s");
            isTransform(a, v, a * v);
            CHECK(Float4x4::identity() * a == a && a * Float4x4::identity() == a);
            CHECK((Float4x4::makeScale(s) * v == Float4{s * v.asFloat3(), v.w}));
            CHECK((Float4x4::makeTranslation(s) * v == Float4{v.asFloat3() + s * v.w, v.w}));
            for (int r = 0; r < 4; r++) {
                for (int c = 0; c < 4; c++) {
                    CHECK(el(a.transposed(), r, c) == el(a, c, r));
                }
            }
            break;
        }
        case 6: {
            // Conversions keep the transformation
            Float3x3 a = anyM<Float3x3>();
            Float3 v = v3("v");
            Float3x4 p{a, v}, p0{a};
            Float4x4 q{a, v}, q0{a};
            CHECK(same4(p0, a) && same4(q0, a) && same4(p, q) && p.col[3] == v && p.asFloat3x3() == a);
            CHECK(same4(p.toFloat4x4(), p) && q.toFloat3x4() == p && q.toFloat3x3() == a);
            break;
        }
        case 7:
            compares<Float2x2>();
            compares<Float3x3>();
            break;
        case 8:
            compares<Float3x4>();
            compares<Float4x4>();
            break;
        default: {
            // Projections take the corners of the view to those of the cube
            static const float sizes[] = {1, 2, 0.5f, 8};
            Float2 size{sizes[sx_pick(0, 3, "w")], sizes[sx_pick(0, 3, "h")]}, lo = v2("lo");
            float n = (float) sx_pick(1, 4, "near"), f = n + sizes[sx_pick(0, 3, "depth")];
            int cx = (int) sx_pick(0, 1, "cx"), cy = (int) sx_pick(0, 1, "cy"), cz = (int) sx_pick(0, 1, "cz");
            Rect rect{lo, lo + size};
            float d = cz ? f : n;
            Float2 c{cx ? rect.maxs.x : rect.mins.x, cy ? rect.maxs.y : rect.mins.y};
            Float4 p = Float4x4::makeProjection(rect, n, f) * Float4{c * d, -d, 1};
            CHECKM(p == (Float4{cx ? d : -d, cy ? d : -d, cz ? d : -d, d}), "a projection maps the frustum to the cube");
            Float4 o = Float4x4::makeOrtho(rect, n, f) * Float4{c, -d, 1};
            CHECKM(o == (Float4{cx ? 1.f : -1.f, cy ? 1.f : -1.f, cz ? 1.f : -1.f, 1}), "an orthographic projection maps the box to the cube");
            break;
        }
    }
    sx_reach("end");
}

//---- quaternions
static Quaternion anyQ(int bits = 5) { return {flt("q", bits), flt("q", bits), flt("q", bits), flt("q", bits)}; }
// The 24 quaternions with integers or halves of unit length
static Quaternion unitQ() {
    int i = (int) sx_pick(0, 23, "unit");
    Float4 v{0.f};
    if (i < 8) {
        at(v, i >> 1) = i & 1 ? -1.f : 1.f;
    } else {
        for (int k = 0; k < 4; k++) {
            at(v, k) = (i - 8) >> k & 1 ? -0.5f : 0.5f;
        }
    }
    return v.asQuaternion();
}
static bool eq(const Quaternion& a, const Quaternion& b) { return a.asFloat4() == b.asFloat4(); }
static bool near(const Quaternion& a, const Quaternion& b, float eps = 1e-5f) {
    return (a.asFloat4() - b.asFloat4()).length2() < eps || (a.asFloat4() + b.asFloat4()).length2() < eps;
}
static bool near(const Float3& a, const Float3& b, float eps = 1e-5f) { return (a - b).length2() < eps; }

ENTRY h_quat() {
    switch (sx_param("KIND", -1) >= 0 ? (int) sx_param("KIND", -1) : (int) sx_pick(0, 3, "kind")) {
        case 0: {
            // As matrices
            Quaternion q = anyQ();
            Float3 v = v3("v"), p = v3("p");
            Float3 r = q * v;
            CHECKM(Float3x3::fromQuaternion(q) * v == r, "a quaternion and its matrix rotate alike");
            CHECK(same4(Float3x4::fromQuaternion(q), Float3x3::fromQuaternion(q)) && same4(Float4x4::fromQuaternion(q), Float3x3::fromQuaternion(q)));
            CHECK(Float3x4::fromQuaternion(q, p) * v == r + p && same4(Float4x4::fromQuaternion(q, p), Float3x4::fromQuaternion(q, p)));
            CHECK(q.rotateUnitX() == q * (Float3{1, 0, 0}) && q.rotateUnitY() == q * (Float3{0, 1, 0}) && q.rotateUnitZ() == q * (Float3{0, 0, 1}));
            QuatPos qp{q, p};
            CHECK(qp * v == r + p);
            CHECK(Float3x4::fromQuatPos(qp) == Float3x4::fromQuaternion(q, p) && Float4x4::fromQuatPos(qp) == Float4x4::fromQuaternion(q, p));
            Float3 s = v3("scale");
            QuatPosScale qs{q, p, s};
            CHECK(qs * v == q * (s * v) + p);
            CHECK(same4(qs.toFloat4x4(), qs.toFloat3x4()));
            CHECK(qs.toFloat3x4() == Float3x4::fromQuaternion(q, p) * Float3x4::makeScale(s));
            CHECK(eq(qs.asQuatPos().quat, q) && qs.asQuatPos().pos == p);
            CHECK(QuatPosScale{qp} * v == qp * v && QuatPosScale::identity() * v == v && QuatPosScale::makeTranslation(p) * v == v + p && QuatPosScale::makeScale(s) * v == s * v);
            CHECK(QuatPos{q} * v == r && QuatPos::identity() * v == v && QuatPos::makeTranslation(p) * v == v + p && Quaternion::identity() * v == v);
            CHECK((-q) * v == r);
            break;
        }
        case 1: {
            // Products
            Quaternion a = anyQ(), b = anyQ(), c = a * b;
            Float3 u = a.asFloat3(), v = b.asFloat3();
            CHECK((c.asFloat3() == v * a.w + u * b.w + cross(u, v)));
            CHECK(c.w == a.w * b.w - dot(u, v));
            CHECK(eq(Quaternion::identity() * a, a) && eq(a * Quaternion::identity(), a));
            CHECK((eq(a * a.inverted(), Quaternion{0, 0, 0, a.asFloat4().length2()})));
            // The nearer of a and -a
            Quaternion n = a.negatedIfCloserTo(b);
            CHECK(eq(n, a) || eq(n, -a));
            break;
        }
        case 2: {
            // Composition
            Quaternion a = unitQ(), b = unitQ();
            Float3 v = v3("v"), p = v3("p"), o = v3("o");
            CHECKM((a * b) * v == a * (b * v), "a product of rotations applies them in turn");
            CHECK(a.inverted() * (a * v) == v);
            QuatPos f{a, p}, g{b, o};
            CHECKM((f * g) * v == f * (g * v), "a product of transformations applies them in turn");
            CHECK((f * b) * v == f * (b * v) && (a * g) * v == a * (g * v));
            CHECK(f.inverted() * (f * v) == v && f * (f.inverted() * v) == v);
            QuatPosScale s{b, o, v3("scale")};
            CHECK((f * s) * v == f * (s * v));
            Float3x4 m = Float3x4::fromQuatPos(f);
            CHECK(m.invertedOrtho() * (m * v) == v && same4(m.invertedOrtho(), Float4x4::fromQuatPos(f).invertedOrtho()));
            CHECK(!m.hasScale() && !m.asFloat3x3().hasScale());
            break;
        }
        default: {
            // From matrices, vectors, angles
            Quaternion a = unitQ(), b = unitQ();
            Float3x3 m = Float3x3::fromQuaternion(a);
            Float3 p = v3("p");
            CHECKM(near(Quaternion::fromOrtho(m), a), "a rotation matrix gives the quaternion it was made of");
            CHECK(near(Quaternion::fromOrtho(Float3x4{m, p}), a) && near(Quaternion::fromOrtho(Float4x4{m, p}), a));
            CHECK((near(QuatPos::fromOrtho(Float3x4{m, p}).quat, a) && QuatPos::fromOrtho(Float3x4{m, p}).pos == p));
            CHECK((near(QuatPos::fromOrtho(Float4x4{m, p}).quat, a) && QuatPos::fromOrtho(Float4x4{m, p}).pos == p));
            CHECK(near(mix(a, b, 0.f), a) && near(mix(a, b, 1.f), b));
            QuatPos fm = mix(QuatPos{a, p}, QuatPos{b, {1, 2, 3}}, 1.f);
            CHECK(near(fm.quat, b) && fm.pos == (Float3{1, 2, 3}));
            Quaternion h = mix(Quaternion::identity(), a, 0.5f);
            if (a.w != 0)
                CHECKM(near(h * h, a), "half way to a rotation is a rotation that makes it up when done twice");
            CHECK((a.negatedIfCloserTo(b).asFloat4() - b.asFloat4()).length2() <= (a.asFloat4() - b.asFloat4()).length2());
            break;
        }
    }
    sx_reach("end");
}

// Rotations about any axis by any multiple of 15 degrees, against the definition; concrete numbers
ENTRY h_quat_angle() {
    static const Float3 axes[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 0, -1}, {0.6f, 0.8f, 0}, {0, -0.6f, 0.8f}, {2 / 3.f, -1 / 3.f, 2 / 3.f}, {-1, 0, 0}};
    Float3 n = axes[sx_pick(0, 7, "axis")], v = axes[sx_pick(0, 7, "vec")];
    int k = (int) sx_pick(0, 48, "angle") - 24;
    float angle = (float) k * Pi / 12, c = cosf(angle), s = sinf(angle);
    Float3 w = v * c + cross(n, v) * s + n * (dot(n, v) * (1 - c));
    Quaternion q = Quaternion::fromAxisAngle(n, angle);
    CHECK(fabsf(q.asFloat4().length2() - 1) < 1e-5f);
    CHECKM(near(q * v, w), "a rotation turns counterclockwise about its axis");
    CHECK(near(Float3x3::makeRotation(n, angle) * v, w) && near(Float3x4::makeRotation(n, angle) * v, w) && near(QuatPos::makeRotation(n, angle) * v, w));
    CHECK(near((Float4x4::makeRotation(n, angle) * Float4{v, 1}).asFloat3(), w));
    CHECKM(near(Quaternion::fromOrtho(Float3x3::fromQuaternion(q)), q), "a rotation matrix gives the quaternion it was made of");
    Quaternion u = Quaternion::fromUnitVectors(n, v);
    CHECK(fabsf(u.asFloat4().length2() - 1) < 1e-5f);
    CHECKM(near(u * n, v), "the rotation between two vectors takes one to the other");
    // In the plane
    Float2 e = Complex::fromAngle(angle);
    CHECK(fabsf(e.x - c) < 1e-6f && fabsf(e.y - s) < 1e-6f);
    if (k > -12 && k < 12)
        CHECK(fabsf(Complex::getAngle(e) - angle) < 1e-5f);
    CHECK(near(Float3{Float2x2::makeRotation(angle) * v.asFloat2(), 0}, Float3{Complex::mul(e, v.asFloat2()), 0}));
    // A basis: the chosen axis ends up forward, and it is a rotation
    Axis3 fwd = (Axis3) sx_pick(0, 5, "fwd"), up = (Axis3) sx_pick(0, 5, "up");
    if (isPerp(fwd, up)) {
        Float3x3 m = makeBasis(n, v, fwd, up);
        CHECKM(near(m * toFloat3(fwd), n), "the forward axis is turned forward");
        CHECK(near(m * cross(toFloat3(fwd), toFloat3(up)), cross(m * toFloat3(fwd), m * toFloat3(up))));
        if (cross(n, v).length2() > 0.01f)
            CHECKM(dot(m * toFloat3(up), v) > 0 && fabsf(dot(m * toFloat3(up), cross(n, v))) < 1e-5f, "the up axis is turned upward");
        Float3x3 g = makeBasis(n, fwd);
        CHECK(near(g * toFloat3(fwd), n) && fabsf(dot(g.col[0], g.col[1])) < 1e-5f && near(cross(g.col[0], g.col[1]), g.col[2]));
        Float4x4 l = lookAt(n);
        if (fabsf(n.z) < 0.9f)
            CHECKM(near((l * Float4{n, 1}).asFloat3(), {0, 0, -1}), "looking in a direction sees it straight ahead");
    }
    CHECK(fabsf(dot(anyPerp(n), n)) < 1e-6f && anyPerp(n).length2() > 0.05f);
    sx_reach("end");
}

//---- axes
ENTRY h_axis() {
    Axis3 a = (Axis3) sx_pick(0, 5, "a"), b = (Axis3) sx_pick(0, 5, "b");
    Float3 fa = toFloat3(a), fb = toFloat3(b), v = v3("v");
    CHECK(isValid(a) && !isValid(Axis3::Count));
    CHECK(dot(a, b) == dot(fa, fb) && dot(a, v) == dot(fa, v));
    CHECK(isPerp(a, b) == (dot(fa, fb) == 0));
    CHECK(toFloat3(negate(a)) == -fa && toFloat3(abs(a)) == abs(fa) && fa == toFloat3(abs(a)) * (float) sgn(a));
    s32 sign = sx_pick(0, 1, "sign") ? 1 : -1;
    CHECK(toFloat3(mulSign(a, sign)) == fa * (float) sign);
    if (isPerp(a, b))
        CHECKM(toFloat3(cross(a, b)) == cross(fa, fb), "the cross product of axes is that of their vectors");
    Axis2 r = (Axis2) sx_pick(0, 3, "r"), t = (Axis2) sx_pick(0, 3, "t");
    CHECK(toFloat2(r) == toFloat3(toAxis3(r)).asFloat2() && toFloat3(r) == toFloat3(toAxis3(r)) && toFloat2(r) * (float) sgn(r) == abs(toFloat2(r)));
    if (s32(a) < 4)
        CHECK(toAxis3(toAxis2(a)) == a);
    CHECK(isValid(r) && !isValid(Axis2::Count));
    CHECKM(r * v.asFloat2() == Complex::mul(toFloat2(r), v.asFloat2()), "an axis in the plane rotates as a complex number does");
    CHECK(r * v == AxisRot::fromRot2D(r) * v && (r * v).z == v.z);
    CHECK(AxisRot::fromRot2D(r) * toAxis3(t) == AxisRot::fromRot2D(r) * t);
    CHECK(toFloat3(AxisRot::fromRot2D(r) * t) == r * toFloat3(t));
    if (u32(r) < 4)
        CHECK((toAxisRot(Reflection(r)) == AxisRot::fromRot2D(r)));
    u32 i = (u32) sx_pick(0, 2, "i");
    AxisRot m = AxisRot::makeBasis(a, i);
    CHECK(m.isValid() && m.isOrtho() && m.isRightHanded() && m[i] == a);
    u32 k = (u32) sx_pick(0, 7, "reflection");
    Float2 c0 = ReflectXform[k].col[0], c1 = ReflectXform[k].col[1];
    CHECK(c0.length2() == 1 && dot(c0, c1) == 0 && cross(c0, c1) == (k < 4 ? 1.f : -1.f));
    for (u32 j = 0; j < k; j++) {
        CHECK(ReflectXform[j] != ReflectXform[k]);
    }
    sx_reach("end");
}

static AxisRot anyRot(const char* name) {
    int i = (int) sx_pick(0, 5, name), j = (int) sx_pick(0, 5, name);
    if (!isPerp((Axis3) i, (Axis3) j))
        sx_stop();
    AxisRot r{(Axis3) i, (Axis3) j};
    if (sx_pick(0, 1, name))
        r.cols[2] = negate(r.cols[2]);
    return r;
}
ENTRY h_axis_rot() {
    AxisRot a = anyRot("a"), b = anyRot("b");
    Float3 v = v3("v"), p = v3("p"), q = v3("q");
    Float3x3 m = a.toFloat3x3();
    CHECK(a.isValid() && a.isOrtho());
    CHECK(a * v == m * v && same4(a.toFloat4x4(), m));
    CHECK(a.isRightHanded() == (dot(cross(m.col[0], m.col[1]), m.col[2]) > 0));
    CHECK((a * b).toFloat3x3() == m * b.toFloat3x3() && (a * b) * v == a * (b * v));
    CHECK(a.inverted() * a == AxisRot::identity() && a * a.inverted() == AxisRot::identity() && a.inverted() * (a * v) == v);
    CHECK((a == b) == (m == b.toFloat3x3()) && (a != b) == !(a == b));
    CHECK((a < b) + (b < a) + (a == b) == 1);
    Axis3 x = (Axis3) sx_pick(0, 5, "x");
    CHECK(toFloat3(a * x) == a * toFloat3(x));
    AxisRotPos f{a, p}, g{b, q};
    CHECK(f * v == a * v + p && (f * g) * v == f * (g * v) && (f * b) * v == f * (b * v) && (a * g) * v == a * (g * v));
    CHECK(f.inverted() * (f * v) == v && f * (f.inverted() * v) == v && (f.inverted() * f) == AxisRotPos::identity());
    CHECK((f == g) == (a == b && p == q));
    CHECK((f.toFloat4x4() * Float4{v, 1} == Float4{f * v, 1}));
    CHECK(AxisRotPos::makeTranslation(p) * v == v + p && AxisRotPos{a} * v == a * v);
    if (a.isRightHanded())
        CHECKM(near(Quaternion::fromOrtho(m) * Float3{1, 2, 3}, m * Float3{1, 2, 3}), "a rotation matrix gives the quaternion of the same rotation");
    sx_reach("end");
}
ENTRY h_axis_all() {
    AxisRot all[64];
    int n = 0, right = 0;
    AxisRot::forEach([&](AxisRot r) {
        CHECK(n < 48 && r.isOrtho());
        for (int i = 0; i < n; i++) {
            CHECK(all[i] != r);
        }
        all[n++] = r;
        right += r.isRightHanded();
    });
    CHECKM(n == 48 && right == 24, "all rotations and reflections along the axes are listed");
    sx_reach("end");
}

//---- lengths, colors and approximations, with concrete numbers
template <class V> static void lengths(const V& v) {
    float l = v.length();
    CHECK(fabsf(l * l - v.length2()) < 1e-3f * (1 + l * l) && l >= 0);
    CHECK(v.isUnit() == (fabsf(l * l - 1) < 0.001f));
    V fall = v * 0.f;
    fall.x = 5;
    V s = v.safeNormalized(fall, 0.01f);
    if (l > 0.2f) {
        V u = v.normalized();
        CHECKM(u.isUnit() && (u * l - v).length() < 1e-4f * (1 + l) && s == u, "normalizing keeps the direction and makes the length 1");
    } else if (l < 0.05f) {
        CHECKM(s == fall, "a vector too short is replaced");
    }
    float m = (float) sx_pick(0, 6, "max") / 2;
    V c = clampLength(v, m);
    CHECK(c.length() <= m + 1e-4f && (l > m || c == v));
    CHECK(l <= m || l * m == 0 || (c * (l / m) - v).length() < 1e-3f);
    V to = fall, a = approach(v, to, m);
    float before = (to - v).length(), after = (to - a).length();
    CHECKM(before < m ? a == to : fabsf(before - after - m) < 1e-3f, "approaching comes closer by the step, and stops at the target");
}
ENTRY h_length() {
    float x = (float) ((int) sx_pick(0, 8, "x") - 4) / 2, y = (float) ((int) sx_pick(0, 8, "y") - 4) / 2;
    lengths(Float2{x, y});
    lengths(Float3{x, y, (float) sx_pick(0, 2, "z") - 1.f});
    lengths(Float4{x, 0, y, (float) sx_pick(0, 1, "w") * 3});
    sx_reach("end");
}

ENTRY h_cubic() {
    // The derivative of a curve: for these four it is known
    float t = (float) sx_pick(0, 16, "t") / 16, o = 1 - t;
    float b[4] = {o * o * o, 3 * o * o * t, 3 * o * t * t, t * t * t};
    float d[4] = {-3 * o * o, 3 * o * o - 6 * o * t, 6 * o * t - 3 * t * t, 3 * t * t};
    float p[4] = {flt("p"), flt("p"), flt("p"), flt("p")};
    for (int i = 0; i < 4; i++) {
        float q[4] = {i == 0 ? 1.f : 0.f, i == 1 ? 1.f : 0.f, i == 2 ? 1.f : 0.f, i == 3 ? 1.f : 0.f};
        CHECK(interpolateCubic(q[0], q[1], q[2], q[3], t) == b[i]);
        CHECKM(derivativeCubic(q[0], q[1], q[2], q[3], t) == d[i], "the derivative of the curve");
    }
    CHECK(interpolateCubic(p[0], p[1], p[2], p[3], t) == p[0] * b[0] + p[1] * b[1] + p[2] * b[2] + p[3] * b[3]);
    CHECK(derivativeCubic(p[0], p[1], p[2], p[3], t) == p[0] * d[0] + p[1] * d[1] + p[2] * d[2] + p[3] * d[3]);
    CHECK(applySimpleCubic(t) == b[2] + b[3]);
    CHECK(mix(p[0], p[1], t) == p[0] * o + p[1] * t);
    if (p[1] == p[0] + 4)
        CHECK(unmix(p[0], p[1], p[2]) == (p[2] - p[0]) / 4);
    // Sine by approximation
    float a = (float) ((int) sx_pick(0, 100, "angle") - 50) / 5;
    CHECK(fabsf(fastSin(a) - sinf(a)) < 0.002f && fabsf(fastCos(a) - cosf(a)) < 0.002f && fastCosSin(a) == (Float2{fastCos(a), fastSin(a)}));
    sx_reach("end");
}

ENTRY h_color() {
    static const char* digits[] = {"0123456789abcdef", "0123456789ABCDEF"};
    const char* d = digits[sx_pick(0, 1, "case")];
    u8 v[4];
    char hex[9];
    int first = (int) sx_pick(0, 255, "value");
    for (int i = 0; i < 4; i++) {
        v[i] = (u8) (first + i * 77);
        hex[i * 2] = d[v[i] >> 4];
        hex[i * 2 + 1] = d[v[i] & 15];
    }
    hex[8] = 0;
    Float4 c = fromHex<Float4>(hex);
    Int4<u8> b = to8888(c);
    for (int i = 0; i < 4; i++) {
        CHECKM(fabsf(at(c, i) * 255 - v[i]) < 1e-3f, "two hex digits are a component from 0 to 1");
        CHECKM(at(b, i) == v[i], "a component becomes its byte again");
    }
    hex[6] = 0;
    CHECK(fromHex<Float3>(hex) == c.asFloat3());
    // The curve of sRGB, both ways
    float x = c.x, y = sRGBToLinear(x), z = linearToSRGB(x);
    CHECK(fabsf(linearToSRGB(y) - x) < 1e-4f && fabsf(sRGBToLinear(z) - x) < 1e-4f);
    double want = x <= 0.04045 ? x / 12.92 : pow((x + 0.055) / 1.055, 2.4);
    CHECKM(fabs(y - want) < 1e-4, "as sRGB defines it");
    Float4 l = fromSRGB(c), s = toSRGB(c);
    for (int i = 0; i < 3; i++) {
        CHECK(at(l, i) == sRGBToLinear(at(c, i)) && at(s, i) == linearToSRGB(at(c, i)));
    }
    CHECK(l.w == c.w && s.w == c.w && fromSRGB(c.asFloat3()) == l.asFloat3() && toSRGB(c.asFloat3()) == s.asFloat3());
    sx_reach("end");
}
