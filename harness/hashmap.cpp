// C07: the hash map against an association list, for keys that collide in every way.
#include "sx.h"
#include <ply-runtime/Base.h>
using namespace ply;

struct Key { u32 hash; u32 id; };
struct It {
    u32 id;
    u32* p;
    It(const Key& k) : id{k.id}, p{(u32*) malloc(4)} { *p = 0; }
    It(It&& o) : id{o.id}, p{o.p} { o.p = nullptr; }
    ~It() { free(p); }
    void operator=(It&& o) { free(p); id = o.id; p = o.p; o.p = nullptr; }
};
struct Traits {
    using Key = ::Key;
    using Item = It;
    static u32 hash(const Key& k) { return k.hash; }
    static bool match(const Item& item, const Key& k) { return item.id == k.id; }
};
typedef HashMap<Traits> Map;

struct Model {
    struct E { Key k; u32 v; } e[300];
    u32 n = 0;
    E* find(const Key& k) { for (u32 i = 0; i < n; i++) if (e[i].k.id == k.id) return &e[i]; return nullptr; }
    void erase(E* x) { *x = e[--n]; }
};
static void compare(Map& map, Model& m) {
    CHECK(map.numItems() == m.n);
    CHECK(map.isEmpty() == (m.n == 0));
    for (u32 i = 0; i < m.n; i++) {
        auto c = map.find(m.e[i].k);
        CHECKM(c.wasFound() && c.isValid(), "every item is found");
        CHECK(c->id == m.e[i].k.id && *c->p == m.e[i].v);
        auto cc = ((const Map&) map).find(m.e[i].k);
        CHECK(cc.wasFound() && &*cc == &*c);
    }
    u32 n = 0;
    for (It& it : map) {
        u32 hits = 0;
        for (u32 i = 0; i < m.n; i++) hits += it.id == m.e[i].k.id && *it.p == m.e[i].v;
        CHECKM(hits == 1, "iteration visits only what is in the map");
        n++;
    }
    CHECKM(n == m.n, "iteration visits every item once");
}
static void insertOne(Map& map, Model& m, const Key& k) {
    u32 v = (u32) sx_var(32, "v");
    Model::E* e = m.find(k);
    auto c = map.insertOrFind(k);
    CHECK(c.wasFound() == (e != nullptr));
    CHECK(c.isValid() && c->id == k.id);
    if (e) { CHECK(*c->p == e->v); *c->p = v; e->v = v; }
    else { *c->p = v; m.e[m.n++] = {k, v}; }
}
static void run(u32 keys, u32 hashLo, u32 hashHi, u32 init) {
    sx_mark_heap();
    {
        Map map{init};
        Model m;
        Key key[6];
        for (u32 i = 0; i < keys; i++) key[i] = {(u32) (sx_pick(hashLo, hashHi, "hash") * sx_param("MUL", 1)), i};
        u32 ops = (u32) sx_param("OPS", 4), pre = (u32) sx_pick(0, sx_param("PRE", 3), "pre");
        for (u32 i = 0; i < pre; i++) insertOne(map, m, key[i]);
        for (u32 i = 0; i < ops; i++) {
            Key k = key[sx_pick(0, keys - 1, "which")];
            switch (sx_pick(0, sx_param("KINDS", 3), "op")) {
                case 0: insertOne(map, m, k); break;
                case 1: {
                    auto c = map.find(k);
                    Model::E* e = m.find(k);
                    CHECK(c.wasFound() == (e != nullptr) && c.isValid() == (e != nullptr));
                    if (e) { c.erase(); CHECK(!c.isValid()); m.erase(e); }
                    break;
                }
                case 2: { Map other{std::move(map)}; compare(other, m); map = std::move(other); break; }
                case 3: map.clear(); CHECK(map.isEmpty() && map.numItems() == 0 && !(map.begin() != map.end())); map = Map{init}; m.n = 0; break; // a cleared map must be assigned to
            }
        }
        compare(map, m);
    }
    sx_check_leaks();
    sx_reach("end");
}
// All ways the hashes of a few keys can collide or neighbour each other.
ENTRY h_map_4() { run((u32) sx_param("KEYS", 4), 0, 3, 4); }
ENTRY h_map_8() { run((u32) sx_param("KEYS", 4), 2, 5, 8); }
ENTRY h_map_wrap() { run((u32) sx_param("KEYS", 4), 6, 9, 8); } // probing wraps around the table

// Keys whose identity is symbolic: the solver decides which of them are the same key.
ENTRY h_map_ids() {
    sx_mark_heap();
    {
        Map map{4};
        Model m;
        u32 n = (u32) sx_param("N", 4);
        for (u32 i = 0; i < n; i++) {
            Key k{0, (u32) sx_var(32, "id")};
            k.hash = (k.id & 1) * 4 + ((k.id >> 1) & 1); // a hash that the solver can split on
            k.hash = (u32) sx_concrete(k.hash);
            if (sx_pick(0, 1, "op") == 0) insertOne(map, m, k);
            else {
                Model::E* e = m.find(k);
                auto c = map.find(k);
                CHECK(c.wasFound() == (e != nullptr));
                if (e) { c.erase(); m.erase(e); }
            }
        }
        compare(map, m);
    }
    sx_check_leaks();
    sx_reach("end");
}

// Long probe distances: three items of one bucket, the gaps between them around the largest a link can hold.
ENTRY h_map_far() {
    sx_mark_heap();
    {
        Map map{512};
        Model m;
        u32 id = 0;
        auto add = [&](u32 hash) { Key k{hash, id++}; insertOne(map, m, k); return k; };
        Key a = add(0), b = add(0); // cells 0 and 1
        u32 g1 = (u32) sx_pick(sx_param("G1LO", 125), 128, "gap1"), g2 = (u32) sx_pick(sx_param("G1LO", 125), 128, "gap2");
        for (u32 i = 2; i < 1 + g1; i++) add(i);
        Key c = add(0);
        for (u32 i = 2 + g1; i < 1 + g1 + g2; i++) add(i);
        Key d = add(0);
        Key ks[4] = {a, b, c, d};
        Key k = ks[sx_pick(0, 3, "which")];
        Model::E* e = m.find(k);
        map.find(k).erase();
        m.erase(e);
        for (u32 i = 0; i < 4; i++) CHECKM(map.find(ks[i]).wasFound() == (ks[i].id != k.id), "every item is found");
        if (sx_pick(0, 1, "more")) { Key x = add(0); CHECK(map.find(x).wasFound()); }
        compare(map, m);
    }
    sx_check_leaks();
    sx_reach("end");
}
// Growth: every insertion is kept over any number of migrations.
ENTRY h_map_grow() {
    sx_mark_heap();
    {
        Map map{4};
        Model m;
        u32 n = (u32) sx_param("N", 40), mul = (u32) sx_pick(0, 4, "pattern");
        static const u32 MUL[] = {0, 1, 4, 0x9E3779B1u, 64};
        for (u32 i = 0; i < n; i++) {
            Key k{i * MUL[mul], i};
            insertOne(map, m, k);
            CHECK(map.numItems() == i + 1);
        }
        u32 drop = (u32) sx_pick(0, n - 1, "drop");
        Key k{drop * MUL[mul], drop};
        auto c = map.find(k);
        CHECK(c.wasFound());
        c.erase();
        m.erase(m.find(k));
        compare(map, m);
    }
    sx_check_leaks();
    sx_reach("end");
}

// The library's own traits: text keys and integers, hashed by the library.
struct StrTraits {
    using Key = StringView;
    struct Item { String name; u32 v = 0; Item(StringView n) : name{n} {} };
    static bool match(const Item& i, StringView k) { return i.name == k; }
};
ENTRY h_map_strings() {
    sx_mark_heap();
    {
        HashMap<StrTraits> map;
        u32 n = (u32) sx_param("N", 2);
        SxBuf b(2 * n, "b");
        StringView key[4];
        u32 len[4];
        for (u32 i = 0; i < n; i++) { len[i] = (u32) sx_pick(0, 2, "len"); key[i] = {b.p + 2 * i, len[i]}; }
        for (u32 i = 0; i < n; i++) {
            // concrete bytes on each path, because the hash decides where the item goes
            for (u32 j = 0; j < len[i]; j++) { ASSUME(b.p[2 * i + j] >= 'a' && b.p[2 * i + j] < 'a' + sx_param("LETTERS", 5)); b.p[2 * i + j] = (char) sx_concrete((u8) b.p[2 * i + j]); }
            bool dup = false;
            for (u32 j = 0; j < i; j++) dup |= key[j] == key[i];
            auto c = map.insertOrFind(key[i]);
            CHECK(c.wasFound() == dup);
            c->v = i + 1;
        }
        for (u32 i = 0; i < n; i++) {
            u32 want = 0;
            for (u32 j = 0; j < n; j++) if (key[j] == key[i]) want = j + 1;
            auto c = map.find(key[i]);
            CHECK(c.wasFound() && c->v == want && c->name == key[i]);
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
