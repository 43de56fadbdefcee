// C08: the ordered tree against a sorted list.
#include "sx.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/container/BTree.h>
using namespace ply;

struct It {
    u8 key = 0;
    u32* p;
    It() : p{(u32*) malloc(4)} { *p = 0; }
    It(u8 k, u32 v) : key{k}, p{(u32*) malloc(4)} { *p = v; }
    It(const It& o) : key{o.key}, p{(u32*) malloc(4)} { *p = *o.p; }
    It(It&& o) : key{o.key}, p{o.p} { o.p = nullptr; }
    ~It() { free(p); }
    void operator=(const It& o) { if (this == &o) return; free(p); key = o.key; p = (u32*) malloc(4); *p = *o.p; }
    void operator=(It&& o) { u32* q = o.p; o.p = nullptr; free(p); p = q; key = o.key; }
};
template <u32 Cap>
struct Traits {
    using Item = It;
    using Index = u8;
    static constexpr u32 NodeCapacity = Cap;
    static u8 getIndex(const It& i) { return i.key; }
    static bool less(u8 a, u8 b) { return a < b; }
    static void onItemMoved(It&, void*) {}
};
struct Model {
    u8 k[200]; u32 v[200], n = 0;
    void insert(u8 key, u32 val) { k[n] = key; v[n] = val; n++; }
    void erase(u32 i) { n--; k[i] = k[n]; v[i] = v[n]; }
};
// In order, and the same items (any order among equal keys); values are unique ids, concrete on every path.
template <typename Tree>
static void compare(Tree& t, Model& m) {
    CHECK(t.isEmpty() == (m.n == 0));
    u32 n = 0;
    u8 prev = 0;
    bool sorted = true, each = true, seen[200] = {};
    for (auto it = t.begin(); it.isValid() && it != t.end(); it.next()) {
        It& x = *it;
        CHECKM(n < m.n, "no item appears that was not inserted");
        sorted &= prev <= x.key;
        prev = x.key;
        u32 i = 0;
        while (i < m.n && m.v[i] != *x.p) i++;
        CHECKM(i < m.n && !seen[i], "every item is visited once");
        seen[i] = true;
        each &= m.k[i] == x.key;
        n++;
    }
    CHECKM(n == m.n, "every item is visited");
    CHECKM(each, "items keep their keys");
    CHECKM(sorted, "items are in order");
}
template <typename Tree>
static void finds(Tree& t, Model& m, u8 key) {
    u32 ge = 0;
    for (u32 i = 0; i < m.n; i++) ge += m.k[i] >= key;
    // Items in order: those below the key, then the others.
    auto it = t.findFirstGreaterOrEqualTo(key);
    u32 left = 0;
    bool all = true;
    for (auto i = it; i.isValid(); i.next()) { left++; all &= i->key >= key; }
    CHECKM(all, "everything from the found item on is not below the key");
    CHECKM(left == ge, "the found item is the first not below the key");
    auto lt = t.findLastLessThan(key);
    u32 before = 0;
    all = true;
    if (lt.isValid()) {
        auto i = lt;
        for (;; i.prev()) { before++; all &= i->key < key; if (!(i != t.begin())) break; }
    }
    CHECKM(all, "everything up to the found item is below the key");
    CHECKM(before + ge == m.n, "the found item is the last below the key");
}
template <u32 Cap>
static void run() {
    sx_mark_heap();
    {
        BTree<Traits<Cap>> t;
        Model m;
        u32 n = (u32) sx_pick(sx_param("NLO", 0), sx_param("NHI", 40), "n"), order = (u32) sx_pick(0, sx_param("ORDERS", 3), "order");
        u32 id = 1;
        auto insert = [&](u8 k) {
            if (id & 1) t.insert(It{k, id});
            else { It x{k, id}; t.insert(x); }
            m.insert(k, id++);
        };
        for (u32 i = 0; i < n; i++) {
            insert((u8) ((order == 0 ? i : order == 1 ? n - i : order == 2 ? (i * 7) % 16 : 3) * 3 + 5));
        }
        u32 ops = (u32) sx_param("OPS", 2);
        for (u32 i = 0; i < ops; i++) {
            u32 kind = (u32) sx_pick(0, sx_param("KINDS", 2), "op");
            if (kind == 0) insert((u8) sx_var(8, "key"));
            else if (kind == 1 && m.n) { // remove the item at some place, or a run of them
                u32 at = (u32) sx_pick(0, m.n - 1, "at"), run = (u32) sx_pick(1, sx_param("RUN", 2), "run");
                if (run == 2) run = m.n;
                while (run-- && m.n) {
                    if (at >= m.n) at = 0;
                    auto it = t.begin();
                    for (u32 j = 0; j < at; j++) it.next();
                    u32 v = *it->p;
                    It x = t.remove(it);
                    CHECK(*x.p == v);
                    u32 j = 0;
                    while (m.v[j] != v) j++;
                    CHECK(m.k[j] == x.key);
                    m.erase(j);
                }
            } else { t.clear(); m.n = 0; }
        }
        compare(t, m);
        if (sx_param("FIND", 1)) finds(t, m, (u8) sx_var(8, "search"));
        if (sx_pick(0, 1, "move")) { BTree<Traits<Cap>> u{std::move(t)}; CHECK(t.isEmpty()); compare(u, m); }
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_btree_4() { run<4>(); }
ENTRY h_btree_8() { run<8>(); }
// Nothing but symbolic keys: every order and every pattern of equal keys.
template <u32 Cap>
static void sym() {
    sx_mark_heap();
    {
        BTree<Traits<Cap>> t;
        Model m;
        u32 n = (u32) sx_param("N", 5);
        for (u32 i = 0; i < n; i++) { u8 k = (u8) sx_var(8, "key"); t.insert(It{k, i + 1}); m.insert(k, i + 1); }
        compare(t, m);
        finds(t, m, (u8) sx_var(8, "search"));
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_btree_sym4() { sym<4>(); }
ENTRY h_btree_sym8() { sym<8>(); }
