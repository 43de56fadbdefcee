// C19: reflected objects written to an asset and read back, and carried to Pylon and back.
#include "sx.h"
#include <limits>
#include <type_traits>
#include <ply-runtime/Base.h>
#include <ply-reflect/Base.h>
#include <ply-reflect/Asset.h>
#include <ply-reflect/TypedArray.h>
#include <ply-reflect/AnySavedObject.h>
#include <pylon-reflect/Export.h>
#include <pylon-reflect/Import.h>
using namespace ply;

// As SwitchMacros.h and the code generator define a switch.
#include "reflect.h"

template <typename T> static String save(T* obj) {
    MemOutStream mem;
    writeAsset(&mem, AnyObject::bind(obj));
    return mem.moveToString();
}
template <typename T> static Owned<T> load(StringView bin) {
    ViewInStream in{bin};
    AnyObject obj = readExpectedAsset<T>(&in);
    CHECKM(obj.data, "asset not readable");
    CHECKM(in.numBytesAvailable() == 0, "asset not read to its end");
    return (T*) obj.cast<T>();
}

ENTRY h_asset_scalars() {
    sx_mark_heap();
    {
        Scalars a;
        sx_bytes(&a, sizeof(Scalars), "a");
        a.b = sx_pick(0, 1, "b") != 0;
        ASSUME(a.f == a.f && a.d == a.d);
        Owned<Scalars> r = load<Scalars>(save(&a));
        CHECK(r->b == a.b && r->s8_ == a.s8_ && r->s16_ == a.s16_ && r->s32_ == a.s32_ && r->s64_ == a.s64_);
        CHECK(r->u8_ == a.u8_ && r->u16_ == a.u16_ && r->u32_ == a.u32_ && r->u64_ == a.u64_); 
        CHECK(r->f == a.f && r->d == a.d);
    }
    sx_check_leaks();
    sx_reach("end");
}
static Owned<Sub> makeSub(const char* name, u32 len) {
    Owned<Sub> r = new Sub;
    r->a = (u16) sx_var(16, name);
    r->s = String::allocate(len);
    sx_bytes(r->s.bytes, len, "subtext");
    return r;
}
static bool sameSub(const Sub& x, const Sub& y) { return x.a == y.a && x.s == y.s; }
static u32 lengthPick(const char* name) {
    static const u32 lengths[] = {0, 1, 2, 40};
    return lengths[sx_pick(0, 3, name)];
}
static void fill(Rec& r, bool named) {
    r.str = String::allocate(lengthPick("str"));
    sx_bytes(r.str.bytes, r.str.numBytes, "text");
    sx_bytes(r.fixed, sizeof(r.fixed), "fixed");
    r.names[0] = "x";
    r.bytes.resize(sx_pick(0, 2, "bytes"));
    sx_bytes(r.bytes.view().items, r.bytes.numItems(), "byte");
    for (u32 i = sx_pick(0, 2, "subs"); i > 0; i--) r.subs.append(std::move(*makeSub("sub", i)));
    r.owned = makeSub("owned", 1);
    static const Color colors[] = {Color::Red, Color::Green, Color::Blue};
    r.color = colors[sx_pick(0, 2, "color")];
    for (u32 i = 0; i < 3; i++) r.axes[i] = (u8) sx_var(8, "axis");
    switch (sx_pick(0, 2, "shape")) {
        case 0: r.shape.point()->x = (u8) sx_var(8, "px"); break;
        case 1:
            r.shape.label().switchTo();
            r.shape.label()->text = "lab";
            r.shape.label()->x = (u8) sx_var(8, "lx");
            break;
        case 2:
            r.shape.poly().switchTo();
            r.shape.poly()->pts.resize(2);
            sx_bytes(r.shape.poly()->pts.view().items, 4, "pts");
            break;
    }
    r.list.append(makeSub("l0", 0));
    r.list.append(makeSub("l1", 1));
    r.link = sx_pick(0, 1, "link") ? r.list[1].get() : r.owned.get();
    r.last = (u32) sx_var(32, "last");
}
static void sameShape(const Shape& x, const Shape& y) {
    CHECK(x.id == y.id);
    if (x.id == Shape::ID::Point) CHECK(x.point()->x == y.point()->x);
    else if (x.id == Shape::ID::Label) CHECK(x.label()->text == y.label()->text && x.label()->x == y.label()->x);
    else {
        CHECK(x.poly()->pts.numItems() == y.poly()->pts.numItems());
        for (u32 i = 0; i < x.poly()->pts.numItems(); i++) CHECK(x.poly()->pts[i] == y.poly()->pts[i]);
    }
}
ENTRY h_asset_roundtrip() {
    sx_mark_heap();
    {
        Rec a;
        fill(a, true);
        Owned<Rec> r = load<Rec>(save(&a));
        CHECK(r->str == a.str && r->last == a.last);
        for (u32 i = 0; i < 3; i++) CHECK(r->fixed[i] == a.fixed[i] && r->axes[i] == a.axes[i]);
        for (u32 i = 0; i < 2; i++) CHECK(r->names[i] == a.names[i]);
        CHECK(r->bytes.numItems() == a.bytes.numItems() && r->subs.numItems() == a.subs.numItems() && r->list.numItems() == a.list.numItems());
        for (u32 i = 0; i < a.bytes.numItems(); i++) CHECK(r->bytes[i] == a.bytes[i]);
        for (u32 i = 0; i < a.subs.numItems(); i++) CHECK(sameSub(r->subs[i], a.subs[i]));
        for (u32 i = 0; i < a.list.numItems(); i++) CHECK(sameSub(*r->list[i], *a.list[i]));
        CHECK(sameSub(*r->owned, *a.owned) && r->color == a.color);
        sameShape(r->shape, a.shape);
        CHECK(r->link == (a.link == a.owned.get() ? r->owned.get() : r->list[1].get()));
    }
    sx_check_leaks();
    sx_reach("end");
}
// A program whose types have moved on reads what it still knows.
ENTRY h_asset_evolve() {
    sx_mark_heap();
    {
        Rec a;
        fill(a, true);
        Owned<Rec2> r = load<Rec2>(save(&a));
        CHECK(r->last == a.last && r->str == a.str && r->added == "new");
        CHECK(r->owned->a == a.owned->a && r->owned->s == a.owned->s && r->owned->own == 77);
        CHECK(r->subs.numItems() == a.subs.numItems() && r->bytes.numItems() == a.bytes.numItems());
        for (u32 i = 0; i < a.subs.numItems(); i++) CHECK(r->subs[i].a == a.subs[i].a && r->subs[i].s == a.subs[i].s && r->subs[i].own == 77);
        for (u32 i = 0; i < a.bytes.numItems(); i++) CHECK(r->bytes[i] == a.bytes[i]);
        CHECK(r->color == (a.color == Color::Red ? Color2::Red : a.color == Color::Blue ? Color2::Blue : Color2::Mauve));
        CHECK(r->axes[Axis2::Z] == a.axes[Axis::Z] && r->axes[Axis2::Y] == a.axes[Axis::Y]);
        if (a.shape.id == Shape::ID::Point) CHECK(r->shape.id == Shape2::ID::Circle && r->shape.circle()->r == 3 && r->shape.circle()->name == "c");
        else if (a.shape.id == Shape::ID::Label)
            CHECK(r->shape.id == Shape2::ID::Label && r->shape.label()->x == a.shape.label()->x && r->shape.label()->text == a.shape.label()->text);
        else
            CHECK(r->shape.id == Shape2::ID::Poly && r->shape.poly()->extra == 5 && r->shape.poly()->pts.numItems() == 2 && r->shape.poly()->pts[0] == a.shape.poly()->pts[0] && r->shape.poly()->pts[1] == a.shape.poly()->pts[1]);
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_asset_skip() {
    sx_mark_heap();
    {
        Rec a;
        fill(a, true);
        Owned<RecLast> r = load<RecLast>(save(&a));
        CHECK(r->last == a.last);
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_asset_links() {
    u32 n = sx_param("N", 3), m = sx_param("M", 3);
    sx_mark_heap();
    {
        Links a;
        for (u32 i = 0; i < n; i++) {
            a.items.append(new Inner);
            a.items[i]->v = (u8) sx_var(8, "v");
        }
        a.outer = new Outer;
        a.outer->inner = new Inner;
        a.outer->v = 9;
        a.toOuter = a.outer;
        u32 to[8];
        for (u32 i = 0; i < m; i++) {
            to[i] = sx_pick(0, n, "to");
            Inner* p = to[i] < n ? a.items[to[i]].get() : a.outer->inner.get();
            if (i == 0) a.early = p;
            else a.refs.append(p);
        }
        Owned<Links> r = load<Links>(save(&a));
        CHECK(r->items.numItems() == n && r->refs.numItems() == m - 1 && r->toOuter == r->outer.get() && r->outer->v == 9);
        for (u32 i = 0; i < n; i++) CHECK(r->items[i]->v == a.items[i]->v);
        for (u32 i = 0; i < m; i++) {
            Inner* p = to[i] < n ? r->items[to[i]].get() : r->outer->inner.get();
            CHECK((i == 0 ? r->early : r->refs[i - 1]) == p);
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
template <typename T> static void readTrio(StringView bin, const Trio& x, bool a, bool b, bool c) {
    Owned<T> r = load<T>(bin);
    CHECK(r->last == x.last);
    CHECK(a ? r->a && r->a->v == x.a->v && r->pa == r->a.get() : !r->a && !r->pa);
    CHECK(b ? r->b && r->b->v == x.b->v && r->pb == r->b.get() : !r->b && !r->pb);
    CHECK(c ? r->c && r->c->v == x.c->v && r->c->inner->v == x.c->inner->v && r->pc == r->c->inner.get() : !r->c && !r->pc);
}
ENTRY h_asset_links_evolve() {
    sx_mark_heap();
    {
        Trio x;
        x.a = new Inner; x.b = new Inner; x.c = new Outer; x.c->inner = new Inner;
        x.a->v = (u8) sx_var(8, "a"); x.b->v = (u8) sx_var(8, "b"); x.c->inner->v = (u8) sx_var(8, "c");
        x.last = (u8) sx_var(8, "last");
        x.pa = x.a; x.pb = x.b; x.pc = x.c->inner;
        for (u32 i = (u32) sx_pick(0, 2, "more"); i > 0; i--) {
            u32 k = (u32) sx_pick(0, 2, "to");
            x.more.append(k == 0 ? x.a.get() : k == 1 ? x.b.get() : x.c->inner.get());
        }
        String bin = save(&x);
        switch (sx_pick(0, 4, "kept")) {
            case 0: readTrio<TrioA>(bin, x, true, false, false); break;
            case 1: readTrio<TrioB>(bin, x, false, true, false); break;
            case 2: readTrio<TrioC>(bin, x, false, false, true); break;
            case 3: readTrio<TrioAC>(bin, x, true, false, true); break;
            case 4: readTrio<TrioBC>(bin, x, false, true, true); break;
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_asset_any() {
    sx_mark_heap();
    {
        WithAny a;
        a.first = (u8) sx_var(8, "first");
        a.last = (u8) sx_var(8, "last");
        a.sub.a = (u16) sx_var(16, "a");
        a.subs.append(std::move(*makeSub("s", 2)));
        u32 kind = sx_pick(0, 2, "kind");
        if (kind == 1) a.any = AnyOwnedObject::create<Inner>();
        if (kind == 2) {
            a.any = AnyOwnedObject::create<Sub>();
            a.any.cast<Sub>()->s = "any";
        }
        String bin = save(&a);
        Owned<WithAny> r;
        {
            RegistryTypeResolver res;
            res.add(getTypeDescriptor<WithAny>());
            res.add(getTypeDescriptor<Inner>());
            res.add(getTypeDescriptor<Sub>());
            ViewInStream in{bin};
            AnyObject obj = readAsset(&in, &res);
            r = obj.cast<WithAny>();
        }
        CHECK(r->first == a.first && r->last == a.last && r->sub.a == a.sub.a && sameSub(r->subs[0], a.subs[0]));
        CHECK(kind == 0 ? !r->any.data : kind == 1 ? r->any.is<Inner>() : r->any.is<Sub>());
        if (kind == 2) CHECK(r->any.cast<Sub>()->s == "any");
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_asset_saved() { // types made up from the file
    sx_mark_heap();
    {
        WithSaved a;
        Array<Sub> subs;
        u32 n = sx_pick(0, 2, "n");
        for (u32 i = 0; i < n; i++) subs.append(std::move(*makeSub("sub", i)));
        Array<Sub> copy = subs;
        a.arr = std::move(subs);
        a.obj.owned = AnyOwnedObject::create<Scalars>();
        a.obj.typeOwner = TypeOwnerResolver<Scalars>::get();
        a.obj.owned.cast<Scalars>()->u16_ = (u16) sx_var(16, "u");
        a.last = (u8) sx_var(8, "last");
        String bin = save(&a);
        Owned<WithSaved> r = load<WithSaved>(bin);
        CHECK(r->last == a.last && r->arr.numItems() == n);
        auto* st = r->arr.getItemType()->cast<TypeDescriptor_Struct>();
        for (u32 i = 0; i < n; i++) {
            AnyObject item = r->arr.getItem(i);
            CHECK(*(u16*) PLY_PTR_OFFSET(item.data, st->findMember("a")->offset) == copy[i].a);
            CHECK(*(String*) PLY_PTR_OFFSET(item.data, st->findMember("s")->offset) == copy[i].s);
        }
        auto* ot = r->obj.owned.type->cast<TypeDescriptor_Struct>();
        CHECK(*(u16*) PLY_PTR_OFFSET(r->obj.owned.data, ot->findMember("u16_")->offset) == a.obj.owned.cast<Scalars>()->u16_);
        a.arr.destroy();
        r->arr.destroy();
    }
    sx_reach("end");
}
ENTRY h_asset_nested() {
    sx_mark_heap();
    {
        Nested a;
        a.outer = new Outer;
        a.outer->inner = new Inner;
        a.p = a.outer->inner;
        for (u32 i = 0; i < 3; i++) a.nothings.append(new Nothing);
        u32 k = sx_pick(0, 2, "k");
        a.q = a.nothings[k];
        Owned<Nested> r = load<Nested>(save(&a));
        CHECK(r->p == r->outer->inner.get());
        CHECK(r->nothings.numItems() == 3 && r->q == r->nothings[k].get());
    }
    sx_check_leaks();
    sx_reach("end");
}
// Numbers keep their value whenever the type they are read as can hold it.
template <typename T, typename F> static void pickNumeric(u32 k, F f) {
    switch (k) {
        case 0: f((T*) 0, (bool*) 0); break;
        case 1: f((T*) 0, (s8*) 0); break;
        case 2: f((T*) 0, (s16*) 0); break;
        case 3: f((T*) 0, (s32*) 0); break;
        case 4: f((T*) 0, (s64*) 0); break;
        case 5: f((T*) 0, (u8*) 0); break;
        case 6: f((T*) 0, (u16*) 0); break;
        case 7: f((T*) 0, (u32*) 0); break;
        case 8: f((T*) 0, (u64*) 0); break;
        case 9: f((T*) 0, (float*) 0); break;
        case 10: f((T*) 0, (double*) 0); break;
    }
}
template <typename S, typename T> static bool holdsInt(S x, T*) { // integers only
    if (std::is_same<T, bool>::value) return x == 0 || x == 1;
    T y = (T) x;
    return (S) y == x && (y < 0) == (x < 0);
}
ENTRY h_asset_numeric() {
    u32 from = sx_pick(0, 10, "from"), to = sx_pick(0, 10, "to");
    auto test = [&](auto* s, auto* d) {
        using S = std::remove_pointer_t<decltype(s)>;
        using D = std::remove_pointer_t<decltype(d)>;
        getTypeDescriptor<One<S>>();
        getTypeDescriptor<One<D>>();
        sx_mark_heap();
        {
            One<S> a;
            a.first = (u8) sx_var(8, "first");
            a.last = (u32) sx_var(32, "last");
            if (std::is_same<S, bool>::value) a.v = (S) sx_pick(0, 1, "b");
            else if (std::is_integral<S>::value && !std::is_integral<D>::value) a.v = (S)((S)(s8) sx_var(8, "n") * (S) sx_pick(1, 2, "times") * (S) (sizeof(S) > 1 ? 100 : 1));
            else if (std::is_integral<S>::value) sx_bytes(&a.v, sizeof(S), "v");
            else { // any fraction of 8 bits with a small exponent: exact in every wider type
                static const double scale[] = {1, -1, 0.5};
                a.v = (S)((double) (u8) sx_var(8, "m") * scale[sx_pick(0, 2, "scale")]);
            }
            bool keep;
            if (std::is_integral<S>::value) keep = !std::is_integral<D>::value ? sizeof(S) <= 2 || (u64) a.v < 100000 : holdsInt((std::conditional_t<std::is_same<S, bool>::value, u8, S>) a.v, (D*) 0);
            else if (std::is_integral<D>::value) {
                double x = a.v;
                double lo = std::is_same<D, bool>::value ? 0.0 : (double) std::numeric_limits<D>::lowest(), hi = std::is_same<D, bool>::value ? 1.0 : sizeof(D) < 8 ? (double) std::numeric_limits<D>::max() : 1e18;
                keep = x >= lo && x <= hi && (double) (s64) x == x;
            } else keep = true;
            ASSUME(keep);
            Owned<One<D>> r = load<One<D>>(save(&a));
            CHECK(r->first == a.first && r->last == a.last);
            CHECK(r->v == (D) a.v);
        }
        sx_check_leaks();
        sx_reach("end");
    };
    switch (from) {
        case 0: pickNumeric<bool>(to, test); break;
        case 1: pickNumeric<s8>(to, test); break;
        case 2: pickNumeric<s16>(to, test); break;
        case 3: pickNumeric<s32>(to, test); break;
        case 4: pickNumeric<s64>(to, test); break;
        case 5: pickNumeric<u8>(to, test); break;
        case 6: pickNumeric<u16>(to, test); break;
        case 7: pickNumeric<u32>(to, test); break;
        case 8: pickNumeric<u64>(to, test); break;
        case 9: pickNumeric<float>(to, test); break;
        case 10: pickNumeric<double>(to, test); break;
    }
}
// An item whose kind has changed is passed over, leaving the value it had.
static void put(u16& v) { v = 0x4142; }
static void put(String& v) { v = "words"; }
static void put(u8 (&v)[2]) { v[0] = v[1] = 5; }
static void put(Array<u8>& v) { v = {9, 8, 7}; }
static void put(Owned<Inner>& v) { v = new Inner; v->v = 3; }
static void put(Sub& v) { v.s = "sub"; v.a = 1; }
static void put(Color& v) { v = Color::Green; }
static void put(EnumIndexedArray<u8, Axis>& v) { for (u32 i = 0; i < 3; i++) v[i] = 4; }
static void put(Shape& v) { v.label().switchTo(); v.label()->text = "shape"; }
static bool none(const u16& v) { return v == 0; }
static bool none(const String& v) { return v.isEmpty(); }
static bool none(const u8 (&v)[2]) { return !v[0] && !v[1]; }
static bool none(const Array<u8>& v) { return v.isEmpty(); }
static bool none(const Owned<Inner>& v) { return !v; }
static bool none(const Sub& v) { return v.s.isEmpty() && v.a == 7; }
static bool none(const Color& v) { return v == Color::Blue; }
static bool none(const EnumIndexedArray<u8, Axis>& v) { return v[0u] == 0 && v[1u] == 0 && v[2u] == 0; }
static bool none(const Shape& v) { return v.id == Shape::ID::Point && v.point()->x == 1; }
template <typename T, typename F> static void pickKind(u32 k, F f) {
    switch (k) {
        case 0: f((One<T>*) 0, (One<u16>*) 0); break;
        case 1: f((One<T>*) 0, (One<String>*) 0); break;
        case 2: f((One<T>*) 0, (One<u8[2]>*) 0); break;
        case 3: f((One<T>*) 0, (One<Array<u8>>*) 0); break;
        case 4: f((One<T>*) 0, (One<Owned<Inner>>*) 0); break;
        case 5: f((One<T>*) 0, (One<Sub>*) 0); break;
        case 6: f((One<T>*) 0, (One<Color>*) 0); break;
        case 7: f((One<T>*) 0, (One<EnumIndexedArray<u8, Axis>>*) 0); break;
        case 8: f((One<T>*) 0, (One<Shape>*) 0); break;
        case 9: f((One<T>*) 0, (One<Inner*>*) 0); break;
    }
}
static void put(Inner*& v) { }
static bool none(Inner* const& v) { return !v; }
ENTRY h_asset_kinds() {
    u32 from = sx_pick(0, 8, "from"), to = sx_pick(0, 9, "to");
    ASSUME(from != to);
    auto test = [&](auto* s, auto* d) {
        using S = std::remove_pointer_t<decltype(s)>;
        using D = std::remove_pointer_t<decltype(d)>;
        getTypeDescriptor<S>();
        getTypeDescriptor<D>();
        sx_mark_heap();
        {
            S a;
            a.first = (u8) sx_var(8, "first");
            a.last = (u32) sx_var(32, "last");
            put(a.v);
            Owned<D> r = load<D>(save(&a));
            CHECK(r->first == a.first && r->last == a.last);
            CHECK(none(r->v));
        }
        sx_check_leaks();
        sx_reach("end");
    };
    switch (from) {
        case 0: pickKind<u16>(to, test); break;
        case 1: pickKind<String>(to, test); break;
        case 2: pickKind<u8[2]>(to, test); break;
        case 3: pickKind<Array<u8>>(to, test); break;
        case 4: pickKind<Owned<Inner>>(to, test); break;
        case 5: pickKind<Sub>(to, test); break;
        case 6: pickKind<Color>(to, test); break;
        case 7: pickKind<EnumIndexedArray<u8, Axis>>(to, test); break;
        case 8: pickKind<Shape>(to, test); break;
    }
}
static String word(u32 n) {
    String s = String::allocate(n);
    sx_bytes(s.bytes, n, "w");
    return s;
}
static void fillDoc(Doc& a) {
    a.title = word(sx_pick(0, 2, "title"));
    a.flag = sx_pick(0, 1, "flag") != 0;
    static const Color colors[] = {Color::Red, Color::Green, Color::Blue};
    a.color = colors[sx_pick(0, 2, "color")];
    for (u32 i = sx_pick(0, 2, "tags"); i > 0; i--) a.tags.append(word(1));
    a.grid.resize(2);
    a.grid[1] = {true, false};
    u32 k = sx_pick(0, 2, "shape");
    if (k == 1) { a.shape.label().switchTo(); a.shape.label()->text = word(1); }
    if (k == 2) { a.shape.list().switchTo(); a.shape.list()->items = {"p", "q"}; a.shape.list()->flag = true; }
    a.leaf = new Leaf;
    a.leaf->s = "leaf";
    a.leaf->b = true;
    a.leaves.resize(sx_pick(0, 1, "leaves"));
    if (!a.leaves.isEmpty()) a.leaves[0].s = "only";
}
static void sameDoc(const Doc& a, const Doc& r) {
    CHECK(r.title == a.title && r.flag == a.flag && r.color == a.color && r.tags.numItems() == a.tags.numItems() && r.grid.numItems() == a.grid.numItems());
    for (u32 i = 0; i < a.tags.numItems(); i++) CHECK(r.tags[i] == a.tags[i]);
    for (u32 i = 0; i < a.grid.numItems(); i++) {
        CHECK(r.grid[i].numItems() == a.grid[i].numItems());
        for (u32 j = 0; j < a.grid[i].numItems(); j++) CHECK(r.grid[i][j] == a.grid[i][j]);
    }
    CHECK(r.shape.id == a.shape.id);
    if (a.shape.id == PShape::ID::Label) CHECK(r.shape.label()->text == a.shape.label()->text);
    if (a.shape.id == PShape::ID::List) CHECK(r.shape.list()->items.numItems() == 2 && r.shape.list()->items[1] == a.shape.list()->items[1] && r.shape.list()->flag == a.shape.list()->flag);
    CHECK(r.leaf && r.leaf->s == a.leaf->s && r.leaf->b == a.leaf->b && r.leaves.numItems() == a.leaves.numItems());
    for (u32 i = 0; i < a.leaves.numItems(); i++) CHECK(r.leaves[i].s == a.leaves[i].s && r.leaves[i].b == a.leaves[i].b);
}
ENTRY h_pylon_roundtrip() {
    sx_mark_heap();
    {
        Doc a;
        fillDoc(a);
        Owned<pylon::Node> node = pylon::exportObj(AnyObject::bind(&a));
        Owned<Doc> r = pylon::import<Doc>(node);
        sameDoc(a, *r);
    }
    sx_check_leaks();
    sx_reach("end");
}
// An object that already holds something takes over what a document says.
ENTRY h_pylon_into() {
    sx_mark_heap();
    {
        Doc a, b;
        fillDoc(a);
        u32 have = sx_pick(0, 3, "have");
        if (have & 1) {
            b.title = "old title";
            b.tags = {"1", "2", "3"};
            b.grid.resize(1);
            b.grid[0] = {true, true, true};
            b.leaves.resize(3);
            b.leaves[2].s = "third";
        }
        if (have & 2) {
            b.shape.label().switchTo();
            b.shape.label()->text = "old text";
            b.leaf = new Leaf;
            b.leaf->s = "old leaf";
        }
        {
            Owned<pylon::Node> node = pylon::exportObj(AnyObject::bind(&a));
            pylon::importInto(AnyObject::bind(&b), node);
        }
        sameDoc(a, b);
    }
    sx_check_leaks();
    sx_reach("end");
}
// Numbers, and members the document does not mention.
ENTRY h_pylon_config() {
    sx_mark_heap();
    {
        Config c;
        for (u32 i = 0; i < 3; i++) c.axes[i] = (u8) (10 + i);
        u32 has = sx_pick(0, 127, "has");
        Owned<pylon::Node> node = pylon::Node::createObject();
        u8 digit = (u8) sx_range(0, 9, "digit");
        char text[2] = {(char) ('0' + digit), '5'};
        StringView num{text, 2};
        auto make = [&] { return pylon::Node::createText(num); };
        if (has & 1) node->set("a", make());
        if (has & 2) node->set("b", make());
        if (has & 4) node->set("c", make());
        if (has & 8) node->set("d", pylon::Node::createText("-37"));
        if (has & 16) node->set("e", pylon::Node::createText("0.5"));
        if (has & 32) {
            Owned<pylon::Node> arr = pylon::Node::createArray();
            arr->array().append(make());
            arr->array().append(pylon::Node::createText("300"));
            node->set("fixed", std::move(arr));
        }
        if (has & 64) {
            Owned<pylon::Node> axes = pylon::Node::createObject();
            axes->set("Z", make());
            axes->set("X", pylon::Node::createText("255"));
            node->set("axes", std::move(axes));
        }
        pylon::importInto(AnyObject::bind(&c), node);
        u32 v = digit * 10 + 5;
        CHECK(c.a == ((has & 1) ? v : 1));
        CHECK(c.b == ((has & 2) ? v : 2));
        CHECK(c.c == ((has & 4) ? v : 3));
        CHECK(c.d == ((has & 8) ? -37 : 4));
        CHECK(c.e == ((has & 16) ? 0.5f : 5));
        CHECK(c.fixed[0] == ((has & 32) ? v : 6) && c.fixed[1] == ((has & 32) ? 300 : 7));
        CHECK(c.axes[2u] == ((has & 64) ? v : 12) && c.axes[0u] == ((has & 64) ? 255 : 10) && c.axes[1u] == 11);
        CHECK(c.kept == "kept");
    }
    sx_check_leaks();
    sx_reach("end");
}
// Objects of a type the document itself describes.
ENTRY h_pylon_saved() {
    sx_mark_heap();
    {
        WithSaved a;
        for (u32 round = 0; round < 2; round++) {
            u32 n = sx_pick(0, 2, "n");
            u32 v[3];
            auto type = [&](bool asArray) {
                Owned<pylon::Node> t = pylon::Node::createObject();
                t->set("key", pylon::Node::createText("struct"));
                t->set("name", pylon::Node::createText("Vertex"));
                if (asArray) {
                    Owned<pylon::Node> arr = pylon::Node::createArray();
                    Owned<pylon::Node> m = pylon::Node::createArray();
                    m->array().append(pylon::Node::createText("pos"));
                    m->array().append(pylon::Node::createText("float"));
                    arr->array().append(std::move(m));
                    t->set("members", std::move(arr));
                } else {
                    Owned<pylon::Node> o = pylon::Node::createObject();
                    o->set("pos", pylon::Node::createText("float"));
                    o->set("pair", pylon::Node::createText("u16_2"));
                    t->set("members", std::move(o));
                }
                return t;
            };
            auto value = [&](u32 x) {
                Owned<pylon::Node> o = pylon::Node::createObject();
                o->set("pos", pylon::Node::createText(x ? "1.5" : "-2"));
                Owned<pylon::Node> p = pylon::Node::createArray();
                p->array().append(pylon::Node::createText("1"));
                p->array().append(pylon::Node::createText(x ? "65535" : "7"));
                o->set("pair", std::move(p));
                return o;
            };
            Owned<pylon::Node> root = pylon::Node::createObject();
            Owned<pylon::Node> arr = pylon::Node::createObject();
            arr->set("type", type(sx_pick(0, 1, "form")));
            Owned<pylon::Node> data = pylon::Node::createArray();
            for (u32 i = 0; i < n; i++) data->array().append(value(v[i] = sx_pick(0, 1, "x")));
            arr->set("data", std::move(data));
            root->set("arr", std::move(arr));
            Owned<pylon::Node> obj = pylon::Node::createObject();
            obj->set("type", type(false));
            obj->set("value", value(v[2] = sx_pick(0, 1, "x")));
            root->set("obj", std::move(obj));
            root->set("last", pylon::Node::createText("12"));
            pylon::importInto(AnyObject::bind(&a), root);
            CHECK(a.last == 12 && a.arr.numItems() == n);
            auto check = [](AnyObject o, u32 x) {
                auto* st = o.type->cast<TypeDescriptor_Struct>();
                CHECK(*(float*) PLY_PTR_OFFSET(o.data, st->findMember("pos")->offset) == (x ? 1.5f : -2.f));
                if (auto* m = st->findMember("pair")) {
                    u16* p = (u16*) PLY_PTR_OFFSET(o.data, m->offset);
                    CHECK(p[0] == 1 && p[1] == (x ? 65535 : 7));
                }
            };
            for (u32 i = 0; i < n; i++) check(a.arr.getItem(i), v[i]);
            check(a.obj.owned, v[2]);
        }
        a.arr.destroy(); // TypedArrays have no destructor
    }
    sx_check_leaks();
    sx_reach("end");
}
