// C13: sorting, searching and folding.
#include "sx.h"
#include <limits>
#include <ply-runtime/Base.h>
#include <ply-runtime/container/Array.h>
#include <ply-runtime/container/FixedArray.h>
#include <ply-runtime/algorithm/Sort.h>
#include <ply-runtime/algorithm/Find.h>
#include <ply-runtime/algorithm/Filter.h>
#include <ply-runtime/algorithm/Map.h>
#include <ply-runtime/algorithm/Sum.h>
#include <ply-runtime/algorithm/Range.h>
#include <ply-runtime/algorithm/Random.h>
#include <ply-runtime/container/Numeric.h>
using namespace ply;

static Array<u8> symArray(u32 hi) {
    SxBuf b((u32) sx_pick(0, hi, "n"), "b");
    Array<u8> a;
    for (u32 i = 0; i < b.n; i++) a.append((u8) b.p[i]);
    return a;
}
static u32 countOf(ArrayView<const u8> a, u8 x) {
    u32 n = 0;
    for (u8 y : a) n += (x == y);
    return n;
}
// The result is in order and holds every value as many times as before.
template <typename Less>
static void sorted(const Less& less) {
    sx_mark_heap();
    {
        Array<u8> a = symArray((u32) sx_param("N", 5));
        Array<u8> before = a.view();
        sort(a, less);
        CHECK(a.numItems() == before.numItems());
        for (u32 i = 1; i < a.numItems(); i++) CHECKM(!less(a[i], a[i - 1]), "order");
        u8 x = (u8) sx_var(8, "x");
        CHECKM(countOf(a.view(), x) == countOf(before.view(), x), "values");
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_sort() { sorted([](u8 a, u8 b) { return a < b; }); }
ENTRY h_sort_down() { sorted([](u8 a, u8 b) { return a > b; }); }
// A weak order: values that differ only in their low bits are equivalent.
ENTRY h_sort_weak() { sorted([](u8 a, u8 b) { return (a >> 6) < (b >> 6); }); }
struct Rec {
    u8 key;
    String name;
    bool operator<(const Rec& o) const { return key < o.key; }
};
ENTRY h_sort_records() {
    sx_mark_heap();
    {
        u32 n = (u32) sx_pick(0, sx_param("N", 4), "n");
        SxBuf b(n, "b");
        Array<Rec> a;
        for (u32 i = 0; i < n; i++) a.append(Rec{(u8) b.p[i], String::from(i)});
        sort(a);
        u32 seen = 0;
        for (u32 i = 0; i < n; i++) {
            CHECK(a[i].name.numBytes == 1);
            u32 k = (u32)(a[i].name[0] - '0');
            CHECK(k < n && !(seen & (1 << k)));
            seen |= 1 << k;
            CHECKM(a[i].key == (u8) b.p[k], "a record came apart");
            if (i) CHECK(!(a[i] < a[i - 1]));
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
// Longer arrays made of few values, in every arrangement.
ENTRY h_sort_long() {
    sx_mark_heap();
    {
        u32 n = (u32) sx_pick(6, sx_param("N", 9), "n"), values = (u32) sx_param("VALUES", 3);
        Array<u8> a;
        u32 cnt[8] = {}, after[8] = {};
        for (u32 i = 0; i < n; i++) {
            a.append((u8) sx_pick(0, values - 1, "v"));
            cnt[a.back()]++;
        }
        sort(a);
        for (u32 i = 0; i < n; i++) {
            after[a[i]]++;
            if (i) CHECK(a[i - 1] <= a[i]);
        }
        for (u32 i = 0; i < values; i++) CHECK(cnt[i] == after[i]);
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_find() {
    sx_mark_heap();
    {
        Array<u8> a = symArray((u32) sx_param("N", 4));
        u8 x = (u8) sx_var(8, "x");
        s32 f = -1, r = -1, n = (s32) a.numItems();
        for (s32 i = 0; i < n && f < 0; i++) if (a[i] == x) f = i;
        for (s32 i = n - 1; i >= 0 && r < 0; i--) if (a[i] == x) r = i;
        CHECK(find(a, x) == f && find(a.view(), [&](u8 y) { return y == x; }) == f);
        CHECK(rfind(a, x) == r && rfind(a.view(), [&](u8 y) { return y == x; }) == r);
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_filter() {
    sx_mark_heap();
    {
        Array<u8> a = symArray((u32) sx_param("N", 5));
        Array<u8> before = a.view();
        u8 limit = (u8) sx_var(8, "limit"), x = (u8) sx_var(8, "x");
        filter(a, [&](u8 y) { return y < limit; });
        for (u8 y : a) CHECK(y < limit);
        CHECK(countOf(a.view(), x) == (x < limit ? countOf(before.view(), x) : 0));
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_fold() {
    sx_mark_heap();
    {
        Array<u8> a = symArray((u32) sx_param("N", 4));
        Array<u32> wide = map(a, [](u8 x) { return (u32) x * 2; });
        CHECK(wide.numItems() == a.numItems());
        u32 total = 0;
        u8 mix = 7;
        for (u32 i = 0; i < a.numItems(); i++) {
            CHECK(wide[i] == a[i] * 2u);
            total += a[i] * 2u;
            mix = (u8)(mix * 3 ^ a[i]);
        }
        CHECK(sum(wide) == total);
        CHECK(reduce(a, [](u8 x, u8 y) { return (u8)(x * 3 ^ y); }, (u8) 7) == mix);
        u32 lo = (u32) sx_pick(0, 3, "lo"), hi = (u32) sx_pick(0, 4, "hi"), at = lo;
        for (u32 i : range(lo, hi)) { CHECK(i == at && i < hi); at++; }
        CHECK(at == (lo < hi ? hi : lo));
        at = 0;
        for (u32 i : range(hi)) { CHECK(i == at); at++; }
        CHECK(at == hi);
        Array<u32> sq = map(range(hi), [](u32 i) { return i * i; });
        CHECK(sq.numItems() == hi);
        for (u32 i = 0; i < hi; i++) CHECK(sq[i] == i * i);
    }
    sx_check_leaks();
    sx_reach("end");
}
// The same seed gives the same numbers.
ENTRY h_random() {
    u64 seed = sx_var(64, "seed");
    Random a{seed}, b{seed};
    for (u32 i = 0; i < 4; i++) {
        u64 x = a.next64();
        CHECK(x == b.next64());
    }
    CHECK(a.next32() == (u32) b.next64());
    CHECK((u16) a.next64() == b.next16());
    sx_reach("end");
}
template <typename T> static void castTo(Numeric n, bool neg, u64 mag) {
    // The value is mag, or -mag.
    bool precise = false;
    T r = n.cast<T>(precise);
    bool fits = neg ? (std::is_signed<T>::value && mag <= (u64) std::numeric_limits<T>::max() + 1) : mag <= (u64) std::numeric_limits<T>::max();
    CHECKM(precise == fits, "precise");
    if (fits) CHECKM((u64) r == (neg ? 0 - mag : mag), "value");
}
ENTRY h_numeric() {
    Numeric n;
    u64 v = sx_var(64, "v");
    bool neg = false;
    switch (sx_pick(0, 5, "type")) {
        case 0: n = (u8) v; v = (u8) v; break;
        case 1: n = (u32) v; v = (u32) v; break;
        case 2: n = (u64) v; break;
        case 3: n = (s8) v; neg = (s8) v < 0; v = (u64)(s64)(s8) v; break;
        case 4: n = (s32) v; neg = (s32) v < 0; v = (u64)(s64)(s32) v; break;
        default: n = (s64) v; neg = (s64) v < 0; break;
    }
    u64 mag = neg ? 0 - v : v;
    castTo<u8>(n, neg, mag);
    castTo<u16>(n, neg, mag);
    castTo<u32>(n, neg, mag);
    castTo<s8>(n, neg, mag);
    castTo<s16>(n, neg, mag);
    castTo<s32>(n, neg, mag);
    castTo<u64>(n, neg, mag);
    castTo<s64>(n, neg, mag);
    sx_reach("end");
}
