// C06: growable arrays, fixed arrays, views and sequences against a plain model.
#include "sx.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/container/Sequence.h>
#include <ply-runtime/container/FixedArray.h>
#include <ply-runtime/container/EnumIndexedArray.h>
#include <ply-runtime/container/Tuple.h>
using namespace ply;

// An item that owns memory: leaks, double destruction and lost items become heap errors.
struct It {
    u32* p;
    It() : p{(u32*) malloc(4)} { *p = 0; }
    It(u32 v) : p{(u32*) malloc(4)} { *p = v; }
    It(const It& o) : p{(u32*) malloc(4)} { CHECKM(o.p, "a moved-from item is not copied"); *p = *o.p; }
    It(It&& o) : p{o.p} { o.p = nullptr; }
    ~It() { free(p); }
    void operator=(const It& o) { if (this != &o) { free(p); p = (u32*) malloc(4); *p = *o.p; } }
    void operator=(It&& o) { u32* q = o.p; o.p = nullptr; free(p); p = q; }
    bool operator==(const It& o) const { return *p == *o.p; }
    u32 v() const { CHECKM(p, "no moved-from item is left in the container"); return *p; }
};

struct Model {
    static const u32 Max = 40;
    u32 m[Max];
    u32 n = 0;
    void push(u32 v) { m[n++] = v; }
    void insert(u32 pos, u32 count) {
        for (u32 i = n; i-- > pos;) m[i + count] = m[i];
        for (u32 i = 0; i < count; i++) m[pos + i] = 0;
        n += count;
    }
    void erase(u32 pos, u32 count) {
        for (u32 i = pos + count; i < n; i++) m[i - count] = m[i];
        n -= count;
    }
    void eraseQuick(u32 pos, u32 count) {
        // the items behind the gap that do not fit the shortened array fill it, in order
        u32 from = pos + count > n - count ? pos + count : n - count;
        for (u32 i = from; i < n; i++) m[pos + i - from] = m[i];
        n -= count;
    }
};
static u32 val() { return (u32) sx_var(32, "v"); }

static void equalArr(Array<It>& a, const Model& m) {
    CHECK(a.numItems() == m.n);
    CHECK(a.isEmpty() == (m.n == 0));
    CHECK(bool(a) == (m.n != 0));
    CHECK(a.sizeBytes() == m.n * sizeof(It));
    bool eq = true;
    for (u32 i = 0; i < m.n; i++) eq &= a[i].v() == m.m[i];
    CHECK(eq);
    u32 k = 0;
    for (const It& it : a) { CHECK(&it == a.begin() + k); k++; }
    CHECK(k == m.n);
    if (m.n) {
        CHECK(&a.back() == a.begin() + (m.n - 1));
        CHECK(&a.back(-(s32) m.n) == a.begin());
    }
}
static void fill(Array<It>& a, Model& m, u32 n) {
    for (u32 i = 0; i < n; i++) { u32 v = val(); a.append(v); m.push(v); }
}

enum { OpAppendCopy, OpAppendMove, OpAppendArg, OpInsert, OpErase, OpEraseQuick1, OpEraseQuick, OpResize, OpPop, OpReserve, OpTruncate, OpClear, OpExtendView, OpExtendRvalue, OpMoveExtend, OpCopy, OpMove, OpAssignCopy, OpAssignMove, OpAssignList, OpExtendList, OpPlus, OpAssignView, NumOps };
static void arrOp(Array<It>& a, Model& m, u32 op) {
    switch (op) {
        case OpAppendCopy: { It x{val()}; It& r = a.append(x); m.push(x.v()); CHECK(&r == &a.back()); break; }
        case OpAppendMove: { u32 v = val(); It x{v}; a.append(std::move(x)); m.push(v); break; }
        case OpAppendArg: { u32 v = val(); a.append(v); m.push(v); break; }
        case OpInsert: {
            u32 pos = (u32) sx_pick(0, m.n, "pos"), c = (u32) sx_pick(0, 2, "count");
            if (c == 1) { It& r = a.insert(pos); CHECK(&r == a.begin() + pos); }
            else if (c) a.insert(pos, c);
            m.insert(pos, c);
            if (c) { u32 v = val(); a[pos] = It{v}; m.m[pos] = v; }
            break;
        }
        case OpErase: {
            u32 pos = (u32) sx_pick(0, m.n, "pos"), c = (u32) sx_pick(0, m.n - pos, "count");
            if (c == 1) a.erase(pos); else a.erase(pos, c);
            m.erase(pos, c);
            break;
        }
        case OpEraseQuick1: {
            if (!m.n) break;
            u32 pos = (u32) sx_pick(0, m.n - 1, "pos");
            a.eraseQuick(pos);
            m.eraseQuick(pos, 1);
            break;
        }
        case OpEraseQuick: {
            u32 pos = (u32) sx_pick(0, m.n, "pos"), c = (u32) sx_pick(0, m.n - pos, "count");
            a.eraseQuick(pos, c);
            m.eraseQuick(pos, c);
            break;
        }
        case OpResize: {
            u32 k = (u32) sx_pick(0, m.n + 3, "size");
            a.resize(k);
            while (m.n < k) m.push(0);
            m.n = k;
            break;
        }
        case OpPop: {
            u32 c = (u32) sx_pick(0, m.n, "count");
            if (c == 1) a.pop(); else a.pop(c);
            m.n -= c;
            break;
        }
        case OpReserve: {
            a.reserve((u32) sx_pick(0, m.n + 3, "reserve"));
            break;
        }
        case OpTruncate: a.truncate(); break;
        case OpClear: a.clear(); m.n = 0; break;
        case OpExtendView: {
            Array<It> b; Model mb; fill(b, mb, (u32) sx_pick(0, 2, "n2"));
            a.extend(b.view());
            for (u32 i = 0; i < mb.n; i++) m.push(mb.m[i]);
            equalArr(b, mb);
            break;
        }
        case OpExtendRvalue: {
            Array<It> b; Model mb; fill(b, mb, (u32) sx_pick(0, 2, "n2"));
            a.extend(std::move(b));
            for (u32 i = 0; i < mb.n; i++) m.push(mb.m[i]);
            break;
        }
        case OpMoveExtend: {
            Array<It> b; Model mb; fill(b, mb, (u32) sx_pick(0, 2, "n2"));
            a.moveExtend(b.view());
            for (u32 i = 0; i < mb.n; i++) m.push(mb.m[i]);
            break;
        }
        case OpCopy: {
            Array<It> b{a};
            equalArr(b, m);
            if (m.n) { u32 k = (u32) sx_pick(0, m.n - 1, "which"); b[k] = It{val()}; } // independent of a
            break;
        }
        case OpMove: {
            Array<It> b{std::move(a)};
            equalArr(b, m);
            CHECK(a.numItems() == 0 && a.isEmpty());
            if (sx_pick(0, 1, "back")) a = std::move(b);
            else m.n = 0;
            break;
        }
        case OpAssignCopy: {
            Array<It> b; Model mb; fill(b, mb, (u32) sx_pick(0, 2, "n2"));
            a = b;
            equalArr(b, mb);
            m = mb;
            break;
        }
        case OpAssignMove: {
            Array<It> b; Model mb; fill(b, mb, (u32) sx_pick(0, 2, "n2"));
            a = std::move(b);
            CHECK(b.numItems() == 0);
            m = mb;
            break;
        }
        case OpAssignList: { u32 v = val(), w = val(); a = {v, w}; m.n = 0; m.push(v); m.push(w); break; }
        case OpExtendList: { u32 v = val(), w = val(); a.extend({It{v}, It{w}}); m.push(v); m.push(w); break; }
        case OpPlus: {
            Array<It> b; Model mb; fill(b, mb, (u32) sx_pick(0, 2, "n2"));
            Array<It> c = a + b;
            Model mc = m;
            for (u32 i = 0; i < mb.n; i++) mc.push(mb.m[i]);
            equalArr(c, mc);
            equalArr(b, mb);
            break;
        }
        case OpAssignView: { // from a part of itself
            u32 s = (u32) sx_pick(0, m.n, "start"), e = (u32) sx_pick(s, m.n, "end");
            a = a.subView(s, e - s);
            m.erase(e, m.n - e);
            m.erase(0, s);
            break;
        }
    }
}
ENTRY h_array() {
    sx_mark_heap();
    {
        Array<It> a;
        Model m;
        fill(a, m, (u32) sx_pick(sx_param("NLO", 0), sx_param("NHI", 3), "n"));
        u32 ops = (u32) sx_param("OPS", 2);
        for (u32 i = 0; i < ops; i++) arrOp(a, m, (u32) sx_pick(0, NumOps - 1, "op"));
        equalArr(a, m);
    }
    sx_check_leaks();
    sx_reach("end");
}
// A long run of appends with one other operation somewhere: growth at every capacity boundary.
ENTRY h_array_grow() {
    sx_mark_heap();
    {
        Array<u32> a;
        u32 n = (u32) sx_param("N", 33), at = (u32) sx_pick(0, n - 1, "at");
        u32 m[80], k = 0;
        u32 kind = (u32) sx_pick(0, 4, "kind");
        for (u32 i = 0; i < n; i++) {
            u32 v = val();
            if (i == at && kind == 1) {
                u32 cnt = (u32) sx_pick(1, 3, "count");
                a.insert(k / 2, cnt);
                for (u32 j = k; j-- > k / 2;) m[j + cnt] = m[j];
                k += cnt;
                for (u32 j = 0; j < cnt; j++) { u32 w = val(); a[(k - cnt) / 2 + j] = w; m[(k - cnt) / 2 + j] = w; }
            }
            if (i == at && kind == 2) a.truncate();
            if (i == at && kind == 3) { Array<u32> b = a; a = std::move(b); }
            if (i == at && kind == 4) { u32 w[3] = {val(), val(), val()}; a.extend(ArrayView<const u32>{w, 3}); for (u32 x : w) m[k++] = x; }
            a.append(v);
            m[k++] = v;
        }
        CHECK(a.numItems() == k);
        CHECK(sx_eq(a.begin(), m, k * 4));
    }
    sx_check_leaks();
    sx_reach("end");
}
// Trivially copyable items, views and comparisons.
ENTRY h_views() {
    sx_mark_heap();
    {
        u32 na = (u32) sx_pick(0, sx_param("N", 3), "na"), nb = (u32) sx_pick(0, sx_param("N", 3), "nb");
        Array<u8> a, b;
        a.resize(na); b.resize(nb);
        sx_bytes(a.begin(), na, "a");
        sx_bytes(b.begin(), nb, "b");
        bool eq = na == nb;
        for (u32 i = 0; i < min(na, nb); i++) eq &= a[i] == b[i];
        CHECK((a == b) == eq);
        CHECK((a.view() == b.view()) == eq);
        u32 s = (u32) sx_pick(0, na, "s"), n = (u32) sx_pick(0, na - s, "n");
        ArrayView<u8> v = a.subView(s, n);
        CHECK(v.items == a.begin() + s && v.numItems == n && v.sizeBytes() == n && v.isEmpty() == (n == 0));
        ArrayView<u8> w = a.view().subView(s);
        CHECK(w.items == a.begin() + s && w.numItems == na - s);
        ArrayView<u8> x = a.view().shortenedBy(s);
        CHECK(x.items == a.begin() && x.numItems == na - s);
        ArrayView<u8> y = a.view();
        y.offsetHead(s);
        CHECK(y.items == a.begin() + s && y.numItems == na - s);
        if (n) { y.offsetBack(-(s32) n); CHECK(y.numItems == na - s - n); }
        if (na) {
            u32 i = (u32) sx_pick(1, na, "back");
            CHECK(&a.view().back(-(s32) i) == a.begin() + (na - i));
            CHECK(&a.back(-(s32) i) == a.begin() + (na - i));
        }
        CHECK(a.stringView().bytes == (char*) a.begin() && a.stringView().numBytes == na);
        CHECK(ArrayView<u8>::from(a.mutableStringView()).numItems == na);
        Array<u8> c = a + b;
        CHECK(c.numItems() == na + nb);
        CHECK(sx_eq(c.begin(), a.begin(), na) && sx_eq(c.begin() + na, b.begin(), nb));
        Array<u8> d = std::move(a) + std::move(b);
        CHECK(d == c);
        // an array constructed from items of another type
        Array<u32> wide = ArrayView<const u8>{c.begin(), c.numItems()};
        bool same = wide.numItems() == c.numItems();
        for (u32 i = 0; i < c.numItems(); i++) same &= wide[i] == c[i];
        CHECK(same);
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_fixed() {
    sx_mark_heap();
    {
        u32 v[4] = {val(), val(), val(), val()};
        FixedArray<It, 3> a{It{v[0]}, It{v[1]}, It{v[2]}};
        FixedArray<It, 3> b = (const FixedArray<It, 3>&) a;
        CHECK(a.numItems() == 3 && a.view().numItems == 3 && a.end() - a.begin() == 3);
        for (u32 i = 0; i < 3; i++) CHECK(a[i].v() == v[i] && b[i].v() == v[i]);
        b[1] = It{v[3]};
        CHECK(a[1].v() == v[1]);
        CHECK((a == b) == (v[1] == v[3]));
        FixedArray<It, 3> c = std::move(a);
        c = (const FixedArray<It, 3>&) b;
        for (u32 i = 0; i < 3; i++) CHECK(c[i].v() == (i == 1 ? v[3] : v[i]));
        FixedArray<u32, 4> d{v[0], v[1], v[2], v[3]};
        CHECK(sx_eq(d.begin(), v, 16));
        CHECK(d.stringView().numBytes == 16);
        Array<It> e = b; // copies
        CHECK(e.numItems() == 3 && e[1].v() == v[3] && b[1].v() == v[3]);
        Array<It> f = std::move(b);
        CHECK(f.numItems() == 3 && f[0].v() == v[0]);
    }
    sx_check_leaks();
    sx_reach("end");
}

// Sequences of items of several sizes, so that few items cross blocks.
template <u32 Size>
struct Big {
    It it;
    char pad[Size - sizeof(It)];
    Big() {}
    Big(u32 v) : it{v} {}
};
template <typename T>
static void equalSeq(Sequence<T>& s, const Model& m) {
    CHECK(s.numItems() == m.n);
    CHECK(s.isEmpty() == (m.n == 0));
    u32 k = 0;
    bool eq = true;
    for (T& x : s) { CHECK(k < m.n); eq &= x.it.v() == m.m[k]; k++; }
    CHECK(k == m.n);
    auto c = s.end();
    while (k > 0) { --c; k--; eq &= c->it.v() == m.m[k]; }
    CHECK(!(c != s.begin()));
    if (m.n) {
        eq &= s.head().it.v() == m.m[0];
        eq &= s.tail().it.v() == m.m[m.n - 1];
    }
    auto r = s.begin();
    for (k = 0; k < m.n; k++) eq &= r.read().it.v() == m.m[k];
    CHECK(!(r != s.end()));
    CHECK(eq);
}
template <typename T>
static void seqRun() {
    sx_mark_heap();
    {
        Sequence<T> s;
        Model m;
        u32 n = (u32) sx_pick(0, sx_param("N", 3), "n");
        for (u32 i = 0; i < n; i++) { u32 v = val(); T& r = s.append(v); m.push(v); CHECK(&r == &s.tail()); }
        u32 ops = (u32) sx_param("OPS", 2);
        for (u32 i = 0; i < ops; i++) {
            switch (sx_pick(0, 8, "op")) {
                case 0: { T x{val()}; s.append(x); m.push(x.it.v()); break; }
                case 1: { u32 v = val(); T x{v}; s.append(std::move(x)); m.push(v); break; }
                case 2: { u32 c = (u32) sx_pick(0, m.n, "count"); if (c == 1) s.popTail(); else s.popTail(c); m.n -= c; break; }
                case 3: s.clear(); m.n = 0; break;
                case 4: { Sequence<T> t{std::move(s)}; equalSeq(t, m); s = std::move(t); break; }
                case 5: {
                    u32 k = (u32) sx_pick(0, m.n, "to");
                    auto it = s.begin();
                    for (u32 j = 0; j < k; j++) ++it;
                    s.truncate(it);
                    m.n = k;
                    break;
                }
                case 6: {
                    ArrayView<T> v = s.beginWriteViewNoConstruct();
                    CHECK(v.numItems >= 1);
                    u32 c = (u32) sx_pick(1, min(v.numItems, 2u), "count");
                    for (u32 j = 0; j < c; j++) { u32 x = val(); new (&v[j]) T{x}; m.push(x); }
                    s.endWrite(c);
                    break;
                }
                case 7: { // references stay valid while the sequence grows
                    if (!m.n) break;
                    T& h = s.head();
                    T* t = &s.tail();
                    s.append(val() & 0xff);
                    CHECK(&h == &s.head());
                    CHECK(t->it.v() == m.m[m.n - 1]);
                    m.push(s.tail().it.v());
                    break;
                }
                case 8: { Sequence<T> t; t.append(1u); t = std::move(s); equalSeq(t, m); s = std::move(t); break; }
            }
        }
        equalSeq(s, m);
        if (sx_pick(0, 1, "toArray")) {
            Array<T> a = s.moveToArray();
            CHECK(a.numItems() == m.n);
            bool eq = true;
            for (u32 i = 0; i < m.n; i++) eq &= a[i].it.v() == m.m[i];
            CHECK(eq);
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_seq_small() { seqRun<Big<16>>(); }
ENTRY h_seq_half() { seqRun<Big<1024>>(); }   // two to a block, exactly
ENTRY h_seq_odd() { seqRun<Big<1000>>(); }    // two to a block, with a rest
ENTRY h_seq_block() { seqRun<Big<2048>>(); }  // one to a block
ENTRY h_seq_huge() { seqRun<Big<3000>>(); }   // larger than a block
