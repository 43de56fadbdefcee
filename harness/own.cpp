// C11: owning pointers, reference counts and callables.
#include "sx.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/container/Owned.h>
#include <ply-runtime/container/Reference.h>
#include <ply-runtime/container/WeakRef.h>
#include <ply-runtime/container/Functor.h>
#include <ply-runtime/container/LambdaView.h>
#include <ply-runtime/container/Any.h>
#include <ply-runtime/container/Boxed.h>
#include <ply-runtime/container/Switch.h>
#include <ply-runtime/container/Tuple.h>
#include <ply-runtime/container/SetInScope.h>
using namespace ply;

static u32 op(u32 hi, const char* name = "op") { return (u32) sx_pick(0, hi, name); }
static int alive[8];

struct Base {
    int id;
    Base(int id = 0) : id{id} { alive[id]++; }
    virtual ~Base() { CHECK(alive[id] == 1); alive[id]--; }
};
struct Derived : Base {
    u64 more = 7;
    Derived(int id) : Base{id} {}
};
// Every object that an Owned held is destroyed once, when it is replaced, cleared or goes out of scope, unless it was released.
ENTRY h_owned() {
    sx_mark_heap();
    {
        Owned<Base> p[2];
        int in[2] = {-1, -1};
        for (u32 step = 0; step < (u32) sx_param("OPS", 3); step++) {
            u32 i = op(1, "slot");
            int id = (int) step;
            switch (op(6)) {
                case 0: p[i] = Owned<Base>::create(id); in[i] = id; break;
                case 1: p[i] = new Derived{id}; in[i] = id; break;
                case 2: p[i] = Owned<Base>{Owned<Derived>{new Derived{id}}}; in[i] = id; break;
                case 3: p[i] = std::move(p[1 - i]); in[i] = in[1 - i]; in[1 - i] = -1; break;
                case 4: p[i].clear(); in[i] = -1; break;
                case 5: {
                    Base* b = p[i].release();
                    CHECK((b ? b->id : -1) == in[i]);
                    in[i] = -1;
                    Owned<Base> again = Owned<Base>::adopt(b);
                    break;
                }
                default: {
                    Owned<Base> q{std::move(p[i])};
                    CHECK(!p[i].get() && (q.get() ? q->id : -1) == in[i]);
                    in[i] = -1;
                    break;
                }
            }
            for (u32 k = 0; k < 2; k++) {
                CHECK((p[k].get() ? p[k]->id : -1) == in[k]);
                CHECK(p[k].borrow().get() == p[k].get() && (Base*) p[k] == p[k].get());
            }
            for (int k = 0; k < 8; k++) CHECK(alive[k] == (in[0] == k || in[1] == k));
        }
    }
    for (int k = 0; k < 8; k++) CHECK(alive[k] == 0);
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_optionally() {
    sx_mark_heap();
    {
        Base mine{7};
        OptionallyOwned<Base> p[2];
        int in[2] = {-1, -1};
        for (u32 step = 0; step < (u32) sx_param("OPS", 3); step++) {
            u32 i = op(1, "slot");
            int id = (int) step;
            bool wasOwned = p[i].isOwned();
            switch (op(4)) {
                case 0: p[i] = Owned<Base>::create(id); in[i] = id; CHECK(p[i].isOwned()); break;
                case 1: p[i] = Owned<Derived>::create(id); in[i] = id; CHECK(p[i].isOwned()); break;
                case 2:
                    ASSUME(in[i] != 7);
                    p[i] = borrow(&mine);
                    in[i] = 7;
                    CHECK(!p[i].isOwned());
                    break;
                case 3:
                    ASSUME(in[i] != in[1 - i] || in[i] < 0);
                    wasOwned = p[1 - i].isOwned();
                    p[i] = std::move(p[1 - i]);
                    in[i] = in[1 - i];
                    in[1 - i] = -1;
                    CHECK(p[i].isOwned() == wasOwned);
                    break;
                default: {
                    Base* b = p[i].release();
                    CHECK((b ? b->id : -1) == in[i]);
                    if (wasOwned) delete b;
                    in[i] = -1;
                    break;
                }
            }
            for (u32 k = 0; k < 2; k++) CHECK((p[k].get() ? p[k]->id : -1) == in[k]);
            for (int k = 0; k < 7; k++) CHECK(alive[k] == (in[0] == k || in[1] == k));
            CHECK(alive[7] == 1);
        }
    }
    for (int k = 0; k < 8; k++) CHECK(alive[k] == 0);
    sx_check_leaks();
    sx_reach("end");
}
// A chain whose head is replaced by what it owns.
struct Link {
    int id;
    Owned<Link> next;
    Link(int id, Owned<Link>&& next) : id{id}, next{std::move(next)} { alive[id]++; }
    ~Link() { alive[id]--; }
};
ENTRY h_owned_chain() {
    sx_mark_heap();
    {
        Owned<Link> head;
        u32 n = 1 + op(3, "n");
        for (u32 i = 0; i < n; i++) head = Owned<Link>::create((int) i, std::move(head));
        for (u32 i = n; i-- > 0;) {
            CHECK(head->id == (int) i);
            head = std::move(head->next);
            for (u32 k = 0; k < n; k++) CHECK(alive[k] == (k < i));
        }
        CHECK(!head.get());
    }
    sx_check_leaks();
    sx_reach("end");
}

struct Counted : RefCounted<Counted> {
    int id;
    Reference<Counted> next;
    Counted(int id) : id{id} { alive[id]++; }
    ~Counted() { alive[id]--; }
    void onRefCountZero() { delete this; }
};
ENTRY h_reference() {
    sx_mark_heap();
    {
        Reference<Counted> p[3];
        int in[3] = {-1, -1, -1};
        for (u32 step = 0; step < (u32) sx_param("OPS", 3); step++) {
            u32 i = op(1, "slot"), j = (i + op(2, "other")) % 3;
            int id = (int) step;
            switch (op(6)) {
                case 0: p[i] = new Counted{id}; in[i] = id; break;
                case 1: p[i] = p[j]; in[i] = in[j]; break;
                case 2:
                    p[i] = std::move(p[j]);
                    if (i != j) { in[i] = in[j]; in[j] = -1; } // moving onto itself changes nothing
                    break;
                case 3: p[i] = p[j].get(); in[i] = in[j]; break;
                case 4: p[i].clear(); in[i] = -1; break;
                case 5: {
                    Counted* c = p[i].release();
                    CHECK((c ? c->id : -1) == in[i]);
                    if (c) c->decRef();
                    in[i] = -1;
                    break;
                }
                default: {
                    Reference<Counted> a{p[i]}, b{std::move(p[i])};
                    p[j] = std::move(a);
                    CHECK(!a.get());
                    if (i != j) { in[j] = in[i]; in[i] = -1; }
                    break;
                }
            }
            for (u32 k = 0; k < 3; k++) {
                CHECK((p[k].get() ? p[k]->id : -1) == in[k] && p[k].isEmpty() == (in[k] < 0) && (bool) p[k] == (in[k] >= 0));
                if (in[k] >= 0) CHECK(p[k]->getRefCount() == (in[0] == in[k]) + (in[1] == in[k]) + (in[2] == in[k]));
            }
            for (int k = 0; k < 8; k++) CHECK(alive[k] == (in[0] == k || in[1] == k || in[2] == k));
        }
    }
    for (int k = 0; k < 8; k++) CHECK(alive[k] == 0);
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_reference_chain() {
    sx_mark_heap();
    {
        Reference<Counted> head;
        u32 n = 1 + op(3, "n"), how = op(1, "how");
        for (u32 i = 0; i < n; i++) {
            Counted* c = new Counted{(int) i};
            c->next = std::move(head);
            head = c;
        }
        for (u32 i = n; i-- > 0;) {
            CHECK(head->id == (int) i);
            if (how) head = std::move(head->next);
            else head = head->next;
            for (u32 k = 0; k < n; k++) CHECK(alive[k] == (k < i));
        }
    }
    sx_check_leaks();
    sx_reach("end");
}

static int partial[4], full[4];
struct Dual : DualRefCounted<Dual> {
    int id;
    WeakRef<Dual> self; // may refer to its own object, until the strong references are gone
    Dual(int id) : id{id} { alive[id]++; }
    void onPartialRefCountZero() { partial[id]++; self = (Dual*) nullptr; }
    void onFullRefCountZero() { full[id]++; alive[id]--; delete this; }
};
// Strong references going away are reported once, and the object lives until the last reference of either kind is gone.
ENTRY h_weak() {
    sx_mark_heap();
    {
        Reference<Dual> s[2];
        WeakRef<Dual> w[2];
        Dual* a = new Dual{0};
        s[0] = a;
        int sin[2] = {1, 0}, win[2] = {0, 0}, own = (int) op(1, "self");
        if (own) a->self = a;
        for (u32 step = 0; step < (u32) sx_param("OPS", 4); step++) {
            u32 i = op(1, "slot"), j = 1 - i;
            switch (op(7)) {
                case 0: s[i] = s[j]; sin[i] = sin[j]; break;
                case 1: s[i].clear(); sin[i] = 0; break;
                case 2: ASSUME(sin[j]); w[i] = s[j].get(); win[i] = 1; break;
                case 3: ASSUME(sin[0] + sin[1] || !win[j]); w[i] = w[j]; win[i] = win[j]; break;
                case 4: w[i] = std::move(w[j]); win[i] = win[j]; win[j] = 0; break;
                case 5: w[i] = (Dual*) nullptr; win[i] = 0; break;
                case 6: { WeakRef<Dual>& self = w[i]; w[i] = std::move(self); break; }
                default: ASSUME(!win[i] && sin[0] + sin[1]); w[i].setFromNull(a); win[i] = 1; break;
            }
            int strong = sin[0] + sin[1], weak = win[0] + win[1];
            CHECK(partial[0] == (strong == 0) && full[0] == (strong + weak == 0));
            CHECK(alive[0] == (strong + weak > 0));
            if (strong + weak == 0) break;
            CHECK(a->getRefCount() == (u32) strong && a->getWeakRefCount() == (u32) (weak + (strong ? own : 0)));
            for (u32 k = 0; k < 2; k++) CHECK((s[k].get() == a) == (sin[k] == 1) && ((Dual*) w[k] == a) == (win[k] == 1));
        }
    }
    CHECK(alive[0] == 0 && partial[0] == 1 && full[0] == 1);
    sx_check_leaks();
    sx_reach("end");
}

// A functor keeps a copy of what it was made from, calls it, and destroys it once.
struct Token {
    int id;
    u64 fat = 0;
    explicit Token(int id) : id{id} { alive[id]++; }
    Token(const Token& o) : id{o.id}, fat{o.fat} { if (id >= 0) alive[id]++; }
    Token(Token&& o) : id{o.id}, fat{o.fat} { o.id = -1; }
    ~Token() { if (id >= 0) alive[id]--; }
};
ENTRY h_functor() {
    sx_mark_heap();
    {
        Functor<int(int)> f[2];
        int in[2] = {-1, -1};
        for (u32 step = 0; step < (u32) sx_param("OPS", 3); step++) {
            u32 i = op(1, "slot"), j = 1 - i;
            int id = (int) step;
            switch (op(4)) {
                case 0: {
                    Token t{id};
                    f[i] = [t](int x) { return t.id * 100 + x; };
                    in[i] = id;
                    break;
                }
                case 1: {
                    Token t{id};
                    auto lambda = [t = std::move(t)](int x) mutable { return t.id * 100 + x; };
                    f[i] = Functor<int(int)>{lambda};
                    in[i] = id;
                    break;
                }
                case 2: f[i] = std::move(f[j]); in[i] = in[j]; in[j] = -1; break;
                case 3: {
                    Functor<int(int)> g{std::move(f[i])};
                    CHECK(g.isValid() == (in[i] >= 0));
                    if (g) CHECK(g(3) == in[i] * 100 + 3);
                    in[i] = -1;
                    break;
                }
                default: f[i] = Functor<int(int)>{}; in[i] = -1; break;
            }
            for (u32 k = 0; k < 2; k++) {
                CHECK(f[k].isValid() == (in[k] >= 0) && (bool) f[k] == (in[k] >= 0));
                if (f[k]) CHECK(f[k]((int) k) == in[k] * 100 + (int) k);
            }
            for (int k = 0; k < 8; k++) CHECK(alive[k] == (in[0] == k || in[1] == k));
        }
    }
    for (int k = 0; k < 8; k++) CHECK(alive[k] == 0);
    sx_check_leaks();
    sx_reach("end");
}
// The callable of a functor can own memory.
ENTRY h_functor_string() {
    sx_mark_heap();
    {
        SxBuf b(1 + op(3, "n"), "b");
        Functor<String(StringView)> f;
        {
            String s = StringView{b.p, b.n};
            f = [s = std::move(s)](StringView tail) { return s + tail; };
        }
        Functor<String(StringView)> g{std::move(f)};
        String r = g("!");
        CHECK(r.numBytes == b.n + 1 && sx_eq(r.bytes, b.p, b.n) && r[b.n] == '!');
        LambdaView<String(StringView)> view = g;
        String r2 = view("?");
        CHECK(r2.numBytes == b.n + 1 && sx_eq(r2.bytes, b.p, b.n) && r2[b.n] == '?');
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_any() {
    sx_mark_heap();
    {
        struct Small { u32 a; int id; Small(u32 a, int id) : a{a}, id{id} { alive[id]++; } ~Small() { alive[id]--; } };
        struct Large { u64 a, b; int id; Large(u64 a, u64 b, int id) : a{a}, b{b}, id{id} { alive[id]++; } ~Large() { alive[id]--; } };
        u64 x = sx_var(64, "x"), y = sx_var(64, "y");
        Any s{(Small*) nullptr, (u32) x, 1};
        Any l{(Large*) nullptr, x, y, 2};
        CHECK(s.get<Small>()->a == (u32) x && s.get<Small>()->id == 1);
        CHECK(l.get<Large>()->a == x && l.get<Large>()->b == y && l.get<Large>()->id == 2);
        CHECK(alive[1] == 1 && alive[2] == 1);
        s.destruct<Small>();
        l.destruct<Large>();
        CHECK(alive[1] == 0 && alive[2] == 0);
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_boxed() {
    sx_mark_heap();
    {
        SxBuf a(op(3, "na"), "a"), b(op(3, "nb"), "b");
        MemOutStream outs;
        NativeEndianWriter wr{&outs};
        Boxed<String>::write(wr, {a.p, a.n});
        Boxed<String>::write(wr, {b.p, b.n});
        String all = outs.moveToString();
        CHECK(all.numBytes == a.n + b.n + 8);
        ViewInStream ins{all};
        NativeEndianReader rd{&ins};
        String x = Boxed<String>::read(rd), y = Boxed<String>::read(rd);
        CHECK(x.numBytes == a.n && sx_eq(x.bytes, a.p, a.n) && y.numBytes == b.n && sx_eq(y.bytes, b.p, b.n));
        CHECK(!ins.atEOF());
        String z = Boxed<String>::read(rd);
        CHECK(z.isEmpty() && ins.atEOF());
    }
    sx_check_leaks();
    sx_reach("end");
}

struct Shape {
    enum class ID { None, Text, List, Count };
    struct None {};
    struct Text { String s; };
    struct List { Array<u8> items; u32 k = 5; };
    union Storage_ {
        None none_;
        Text text_;
        List list_;
        PLY_INLINE Storage_() {}
        PLY_INLINE ~Storage_() {}
    };
    SWITCH_FOOTER(Shape, None)
    SWITCH_ACCESSOR(None, none)
    SWITCH_ACCESSOR(Text, text)
    SWITCH_ACCESSOR(List, list)
};
SWITCH_TABLE_BEGIN(Shape)
SWITCH_TABLE_STATE(Shape, None)
SWITCH_TABLE_STATE(Shape, Text)
SWITCH_TABLE_STATE(Shape, List)
SWITCH_TABLE_END(Shape)

struct ShapeModel { Shape::ID id = Shape::ID::None; u8 v = 0; };
static void same(const Shape& s, const ShapeModel& m) {
    CHECK(s.id == m.id);
    CHECK((bool) s.text() == (m.id == Shape::ID::Text) && (bool) s.list() == (m.id == Shape::ID::List) && (bool) s.none() == (m.id == Shape::ID::None));
    if (m.id == Shape::ID::Text) CHECK(s.text()->s.numBytes == 2 && (u8) s.text()->s[1] == m.v);
    if (m.id == Shape::ID::List) CHECK(s.list()->items.numItems() == 2 && s.list()->items[1] == m.v && s.list()->k == 5);
}
// A variant holds the state it was last switched to or assigned, and frees what it held before.
ENTRY h_switch() {
    sx_mark_heap();
    {
        Shape s[2];
        ShapeModel m[2];
        for (u32 step = 0; step < (u32) sx_param("OPS", 3); step++) {
            u32 i = op(1, "slot"), j = 1 - i;
            u8 v = (u8) sx_var(8, "v");
            Shape::Text t{String::allocate(2)};
            t.s[0] = 'x';
            t.s[1] = (char) v;
            switch (op(8)) {
                case 0: s[i].text().switchTo().get()->s = std::move(t.s); m[i] = {Shape::ID::Text, v}; break;
                case 1: s[i] = std::move(t); m[i] = {Shape::ID::Text, v}; break;
                case 2: {
                    auto list = s[i].list().switchTo();
                    list->items.append(u8(1));
                    list->items.append(v);
                    m[i] = {Shape::ID::List, v};
                    break;
                }
                case 3: s[i].none().switchTo(); m[i] = {}; break;
                case 4: s[i] = s[j]; m[i] = m[j]; break;
                case 5: {
                    s[i] = std::move(s[j]);
                    m[i] = m[j];
                    s[j].switchTo(Shape::ID::None);
                    m[j] = {};
                    break;
                }
                case 6: {
                    Shape c{(const Shape&) s[i]}, d{std::move(c)};
                    same(d, m[i]);
                    break;
                }
                case 7: { Shape& self = s[i]; s[i] = self; break; }
                default: if (s[i].text()) { s[i].text() = std::move(t); m[i].v = v; } break;
            }
            same(s[0], m[0]);
            same(s[1], m[1]);
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_small() {
    sx_mark_heap();
    {
        u8 a = (u8) sx_var(8, "a"), b = (u8) sx_var(8, "b"), c = (u8) sx_var(8, "c"), d = (u8) sx_var(8, "d");
        Tuple<u8, u8> t{a, b}, u{c, d};
        CHECK((t == u) == (a == c && b == d));
        Tuple<u8, u8, u8> t3{a, b, c}, u3{b, c, d};
        CHECK((t3 == u3) == (a == b && b == c && c == d));
        Tuple<u32, u64> wide = t;
        CHECK(wide.first == a && wide.second == b);
        Tuple<String, String> ts{String{"one"}, String{"two"}};
        Tuple<String, String> us = std::move(ts);
        CHECK(us.first == "one" && us.second == "two");
        u8 x = a;
        int ran = 0;
        {
            PLY_SET_IN_SCOPE(x, b);
            CHECK(x == b);
            PLY_ON_SCOPE_EXIT({ ran++; });
            CHECK(ran == 0);
            if (c & 1) x = d;
        }
        CHECK(x == a && ran == 1);
        String s{"old"};
        {
            PLY_SET_IN_SCOPE(s, String{"new"});
            CHECK(s == "new");
        }
        CHECK(s == "old");
    }
    sx_check_leaks();
    sx_reach("end");
}
