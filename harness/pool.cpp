// C12: pools, labels and hashes.
#include "sx.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/container/Pool.h>
#include <ply-runtime/container/BigPool.h>
#include <ply-runtime/container/Hash.h>
#include <ply-runtime/container/Hash128.h>
#include <ply-runtime/string/Label.h>
using namespace ply;
extern "C" int sx_committed(const void* p);

static u32 op(u32 hi, const char* name = "op") { return (u32) sx_pick(0, hi, name); }
static int alive;
struct Item {
    u32 v, w;
    Item(u32 v) : v{v}, w{v + 1} { alive++; }
    ~Item() { alive--; }
};
using Idx = PoolIndex<Item, u16>;
// Items keep their index and value until deleted; iteration visits the live ones in index order; indices are reused.
ENTRY h_pool() {
    sx_mark_heap();
    {
        Pool<Item> pool;
        const u32 Max = 16;
        bool used[Max] = {};
        u32 val[Max] = {}, live = 0, peak = 0;
        u32 prefill = sx_param("PREFILL", 0) ? (u32) sx_pick(0, 1, "prefill") * 7 : 0;
        for (u32 step = 0; step < prefill + (u32) sx_param("OPS", 5); step++) {
            u32 what = step < prefill ? 0 : op(3);
            if (what == 0) {
                u32 v = step < prefill ? step * 3 : (u32) sx_var(8, "v");
                Idx i = pool.newItem<u16>(v);
                CHECK(i.isValid() && i.idx < Max && !used[i.idx]);
                used[i.idx] = true;
                val[i.idx] = v;
                live++;
                if (live > peak) peak = live;
                CHECKM(i.idx < peak, "an index of a deleted item was not reused");
            } else if (what == 1) {
                u32 i = op(Max - 1, "i");
                ASSUME(used[i]);
                pool.delItem(Idx{i});
                used[i] = false;
                live--;
            } else if (what == 2) {
                pool.clear();
                for (u32 i = 0; i < Max; i++) used[i] = false;
                live = peak = 0;
            } else {
                u32 at = 0, n = 0;
                for (auto item : pool) {
                    while (at < Max && !used[at]) at++;
                    CHECK(at < Max);
                    CHECK(item->v == val[at] && item->w == val[at] + 1 && pool.indexOf(item.get()) == at);
                    at++;
                    n++;
                }
                CHECKM(n == live, "iteration");
            }
            for (u32 i = 0; i < Max; i++)
                if (used[i]) CHECK(pool.get(Idx{i})->v == val[i]);
            CHECK(alive == (int) live);
        }
    }
    CHECK(alive == 0);
    sx_check_leaks();
    sx_reach("end");
}
static Pool<Item>* thePool;
struct HandleTraits {
    using T = Item;
    using Index = u16;
    static Pool<Item>& getPool() { return *thePool; }
};
ENTRY h_pool_handle() {
    sx_mark_heap();
    {
        Pool<Item> pool;
        thePool = &pool;
        {
            OwnPoolHandle<HandleTraits> h;
            CHECK(!h.isValid());
            for (u32 step = 0; step < 3; step++) {
                bool had = h.isValid();
                switch (op(2)) {
                    case 0: h.assign(pool.newItem<u16>(step)); CHECK(alive == 1 && h.get()->v == step); break;
                    case 1: h.clear(); CHECK(alive == 0 && !h.isValid()); break;
                    default: {
                        OwnPoolHandle<HandleTraits> g{std::move(h)};
                        CHECK(!h.isValid() && g.isValid() == had && alive == had);
                        break;
                    }
                }
            }
        }
        CHECK(alive == 0);
    }
    sx_check_leaks();
    sx_reach("end");
}
// Items of a BigPool never move, and lie in memory that has been committed.
ENTRY h_bigpool() {
    sx_mark_heap();
    {
        BigPool<u64> pool{65536};
        u64 val[6];
        u32 at[6];
        u64* ptr[6];
        u32 n = 0, total = 0;
        for (u32 step = 0; step < (u32) sx_param("OPS", 4); step++) {
            static const u32 sizes[] = {1, 2, 511, 512, 513, 1024};
            u32 k = sizes[op(5, "size")];
            val[n] = sx_var(8, "v");
            at[n] = total;
            if (op(1, "how")) {
                ptr[n] = pool.beginWrite(k + 3);
                pool.endWrite(k);
            } else
                ptr[n] = pool.alloc(k);
            CHECK(sx_committed(ptr[n]) && sx_committed((char*) (ptr[n] + k) - 1));
            ptr[n][0] = val[n];
            ptr[n][k - 1] = val[n];
            total += k;
            n++;
            CHECK(pool.numItems() == total && pool.end() == ptr[n - 1] + k && pool.back() == val[n - 1]);
            for (u32 i = 0; i < n; i++) CHECK(pool.get(at[i]) == ptr[i] && pool[at[i]] == val[i]);
        }
        CHECK(pool.append(u64(77)) == 77 && pool[total] == 77);
    }
    sx_check_leaks();
    sx_reach("end");
}
// Labels: the same text gives the same label, different texts give different labels, and the label gives the text back.
ENTRY h_labels() {
    sx_mark_heap();
    {
        LabelMap map;
        const u32 N = (u32) sx_param("N", 3);
        SxBuf* b[16];
        Label l[16];
        for (u32 i = 0; i < N; i++) {
            b[i] = new SxBuf(op((u32) sx_param("LEN", 2), "n"), "b");
            if (sx_param("LETTERS", 0))
                for (u32 k = 0; k < b[i]->n; k++) b[i]->p[k] = (char) ('a' + op((u32) sx_param("LETTERS", 2) - 1, "letter"));
            StringView v{b[i]->p, b[i]->n};
            s32 was = -1;
            for (u32 k = 0; k < i; k++)
                if (was < 0 && b[k]->n == b[i]->n && memcmp(b[k]->p, b[i]->p, b[i]->n) == 0) was = (s32) k;
            Label f = map.find(v);
            CHECK(f.isValid() == (was >= 0));
            l[i] = map.insertOrFind(v);
            CHECK(l[i].isValid());
            if (was >= 0) CHECK(l[i] == l[was] && f == l[i]);
            else for (u32 k = 0; k < i; k++) CHECK(!(l[i] == l[k]));
            CHECK(map.find(v) == l[i]);
            for (u32 k = 0; k <= i; k++) {
                StringView t = map.view(l[k]);
                CHECK(t.numBytes == b[k]->n && sx_eq(t.bytes, b[k]->p, t.numBytes));
            }
        }
        for (u32 i = 0; i < N; i++) delete b[i];
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_label_length() {
    u32 v = (u32) sx_var(32, "v");
    char buf[8];
    char* w = buf;
    details::LabelEncoder::encodeValue(w, v);
    u32 len = details::LabelEncoder::getEncLen(v);
    CHECK(len <= 5 && w == buf + len);
    const char* r = buf;
    CHECK(details::LabelEncoder::decodeValue(r) == v);
    CHECK(r == w);
    sx_reach("end");
}
// Long labels, whose lengths take more than one byte.
ENTRY h_labels_long() {
    sx_mark_heap();
    {
        LabelMap map;
        static const u32 sizes[] = {1, 126, 127, 128, 129, 300};
        u32 n = sizes[op(5, "n")], m = sizes[op(5, "m")];
        String a = String::allocate(n), b = String::allocate(m);
        for (u32 i = 0; i < n; i++) a[i] = 'x';
        for (u32 i = 0; i < m; i++) b[i] = 'x';
        a[0] = (char) sx_var(8, "a");
        b[m - 1] = 'y';
        Label la = map.insertOrFind(a), lb = map.insertOrFind(b);
        bool equal = n == m && memcmp(a.bytes, b.bytes, n) == 0;
        CHECK((la == lb) == equal);
        StringView va = map.view(la), vb = map.view(lb);
        CHECK(va.numBytes == n && sx_eq(va.bytes, a.bytes, n) && vb.numBytes == m && sx_eq(vb.bytes, b.bytes, m));
        CHECK(map.find(a) == la && map.find(b) == lb);
    }
    sx_check_leaks();
    sx_reach("end");
}
// The 128-bit hash of a message does not depend on the pieces it arrives in, on where it lies, or on hashes taken meanwhile.
ENTRY h_hash128() {
    sx_mark_heap();
    {
        static const u32 sizes[] = {0, 1, 15, 16, 17, 31, 32, 33, 95, 96, 97, 191, 192, 193, 287, 288, 289, 384, 400};
        u32 n = sizes[op(18, "n")];
        char* p = (char*) malloc(n + 9);
        sx_bytes(p, n + 8, "p");
        u128 whole = Hash128::compute({p, n});
        u32 a = sizes[op(18, "a")], b = sizes[op(18, "b")];
        ASSUME(a <= n && b <= n - a);
        Hash128 h;
        u128 at0 = h.get();
        h.append({p, a});
        if (op(1, "peek")) { u128 mid = h.get(); CHECK(a > 0 || (mid.lo == at0.lo && mid.hi == at0.hi)); }
        h.append({p + a, b});
        h.append({p + a + b, n - a - b});
        u128 pieces = h.get(), again = h.get();
        CHECKM(pieces.lo == whole.lo && pieces.hi == whole.hi, "pieces");
        CHECKM(pieces.lo == again.lo && pieces.hi == again.hi, "twice");
        u32 shift = op(1, "shift") * 5;
        char* q = (char*) malloc(n + 9);
        memcpy(q + shift, p, n);
        u128 moved = Hash128::compute({q + shift, n});
        CHECKM(moved.lo == whole.lo && moved.hi == whole.hi, "moved");
        free(p);
        free(q);
    }
    sx_check_leaks();
    sx_reach("end");
}
// Equal values hash equally, wherever they lie.
ENTRY h_hasher() {
    sx_mark_heap();
    {
        SxBuf b(op((u32) sx_param("N", 9), "n"), "b");
        char* q = (char*) malloc(b.n + 4);
        memcpy(q + 3, b.p, b.n);
        u32 h = Hasher::hash(StringView{b.p, b.n});
        CHECK(h == Hasher::hash(StringView{q + 3, b.n}));
        free(q);
        u32 x = (u32) sx_var(32, "x"), y = (u32) sx_var(32, "y");
        Hasher s, t;
        s << (((u64) y << 32) | x);
        t << x << y;
        CHECK(s.accum == t.accum);
        Hasher z, nz;
        z << 0.f;
        nz << -0.f;
        CHECK(z.result() == nz.result());
    }
    sx_check_leaks();
    sx_reach("end");
}
