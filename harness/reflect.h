#pragma once
#include <ply-runtime/container/Switch.h>

#define M1(m) PLY_STRUCT_MEMBER(m)

struct Scalars {
    PLY_REFLECT()
    bool b = false;
    s8 s8_ = 0;
    s16 s16_ = 0;
    s32 s32_ = 0;
    s64 s64_ = 0;
    u8 u8_ = 0;
    u16 u16_ = 0;
    u32 u32_ = 0;
    u64 u64_ = 0;
    float f = 0;
    double d = 0;
};
PLY_STRUCT_BEGIN(Scalars)
M1(b) M1(s8_) M1(s16_) M1(s32_) M1(s64_) M1(u8_) M1(u16_) M1(u32_) M1(u64_) M1(f) M1(d)
PLY_STRUCT_END()

struct Sub {
    PLY_REFLECT()
    u16 a = 7;
    String s;
};
PLY_STRUCT_BEGIN(Sub)
M1(s) M1(a)
PLY_STRUCT_END()

// The same items under another layout, with one more item of its own.
struct Sub2 {
    PLY_REFLECT()
    u32 own = 77;
    s32 a = 7;
    String s;
};
PLY_STRUCT_BEGIN(Sub2)
M1(a) M1(own) M1(s)
PLY_STRUCT_END()

enum class Color : u8 { Red = 3, Green = 200, Blue = 0 };
PLY_DECLARE_TYPE_DESCRIPTOR(Color)
PLY_ENUM_BEGIN(, Color)
PLY_ENUM_IDENTIFIER(Red)
PLY_ENUM_IDENTIFIER(Green)
PLY_ENUM_IDENTIFIER(Blue)
PLY_ENUM_END()

enum class Color2 : u32 { Blue = 70000, Mauve = 2, Red = 0 };
PLY_DECLARE_TYPE_DESCRIPTOR(Color2)
PLY_ENUM_BEGIN(, Color2)
PLY_ENUM_IDENTIFIER(Blue)
PLY_ENUM_IDENTIFIER(Mauve)
PLY_ENUM_IDENTIFIER(Red)
PLY_ENUM_END()

enum class Axis : u16 { X, Y, Z, Count };
PLY_DECLARE_TYPE_DESCRIPTOR(Axis)
PLY_ENUM_BEGIN(, Axis)
PLY_ENUM_IDENTIFIER(X)
PLY_ENUM_IDENTIFIER(Y)
PLY_ENUM_IDENTIFIER(Z)
PLY_ENUM_END()

enum class Axis2 : u16 { Z, W, Y, Q, Count };
PLY_DECLARE_TYPE_DESCRIPTOR(Axis2)
PLY_ENUM_BEGIN(, Axis2)
PLY_ENUM_IDENTIFIER(Z)
PLY_ENUM_IDENTIFIER(W)
PLY_ENUM_IDENTIFIER(Y)
PLY_ENUM_IDENTIFIER(Q)
PLY_ENUM_END()

// As the code generator expands PLY_STATE structs inside a switch.
struct Shape {
    struct Point {
        PLY_STATE()
        PLY_REFLECT()
        u8 x = 1;
    };
    struct Label {
        PLY_STATE()
        PLY_REFLECT()
        String text;
        u8 x = 2;
    };
    struct Poly {
        PLY_STATE()
        PLY_REFLECT()
        Array<u16> pts;
    };
    PLY_SWITCH_REFLECT()
    enum class ID : u16 { Point, Label, Poly, Count };
    union Storage_ {
        Point point;
        Label label;
        Poly poly;
        PLY_INLINE Storage_() {}
        PLY_INLINE ~Storage_() {}
    };
    SWITCH_FOOTER(Shape, Point)
    SWITCH_ACCESSOR(Point, point)
    SWITCH_ACCESSOR(Label, label)
    SWITCH_ACCESSOR(Poly, poly)
};
SWITCH_TABLE_BEGIN(Shape)
SWITCH_TABLE_STATE(Shape, Point)
SWITCH_TABLE_STATE(Shape, Label)
SWITCH_TABLE_STATE(Shape, Poly)
SWITCH_TABLE_END(Shape)
PLY_STRUCT_BEGIN(Shape::Point)
M1(x)
PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Shape::Label)
M1(text) M1(x)
PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Shape::Poly)
M1(pts)
PLY_STRUCT_END()
PLY_SWITCH_BEGIN(Shape)
PLY_SWITCH_MEMBER(Point)
PLY_SWITCH_MEMBER(Label)
PLY_SWITCH_MEMBER(Poly)
PLY_SWITCH_END()

// A later version: states renumbered, one dropped, one new.
struct Shape2 {
    struct Poly {
        PLY_STATE()
        PLY_REFLECT()
        Array<u16> pts;
        u8 extra = 5;
    };
    struct Circle {
        PLY_STATE()
        PLY_REFLECT()
        u8 r = 3;
        String name{"c"};
    };
    struct Label {
        PLY_STATE()
        PLY_REFLECT()
        u8 x = 2;
        String text;
    };
    PLY_SWITCH_REFLECT()
    enum class ID : u16 { Poly, Circle, Label, Count };
    union Storage_ {
        Poly poly;
        Circle circle;
        Label label;
        PLY_INLINE Storage_() {}
        PLY_INLINE ~Storage_() {}
    };
    SWITCH_FOOTER(Shape2, Circle)
    SWITCH_ACCESSOR(Poly, poly)
    SWITCH_ACCESSOR(Circle, circle)
    SWITCH_ACCESSOR(Label, label)
};
SWITCH_TABLE_BEGIN(Shape2)
SWITCH_TABLE_STATE(Shape2, Poly)
SWITCH_TABLE_STATE(Shape2, Circle)
SWITCH_TABLE_STATE(Shape2, Label)
SWITCH_TABLE_END(Shape2)
PLY_STRUCT_BEGIN(Shape2::Poly)
M1(pts) M1(extra)
PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Shape2::Circle)
M1(r) M1(name)
PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Shape2::Label)
M1(x) M1(text)
PLY_STRUCT_END()
PLY_SWITCH_BEGIN(Shape2)
PLY_SWITCH_MEMBER(Poly)
PLY_SWITCH_MEMBER(Circle)
PLY_SWITCH_MEMBER(Label)
PLY_SWITCH_END()

// One of everything.
struct Rec {
    PLY_REFLECT()
    String str;
    u16 fixed[3] = {1, 2, 3};
    FixedArray<String, 2> names;
    Array<u8> bytes;
    Array<Sub> subs;
    Owned<Sub> owned;
    Color color = Color::Red;
    EnumIndexedArray<u8, Axis> axes;
    Shape shape;
    Array<Owned<Sub>> list;
    Sub* link = nullptr;
    u32 last = 0;
};
PLY_STRUCT_BEGIN(Rec)
M1(str) M1(fixed) M1(names) M1(bytes) M1(subs) M1(owned) M1(color) M1(axes) M1(shape) M1(list) M1(link) M1(last)
PLY_STRUCT_END()

template <typename T> static Array<T> makeDefault() {
    Array<T> r;
    r.resize(2);
    for (T& t : r) t.s = "default";
    return r;
}
// What a later version of the program makes of it.
struct Rec2 {
    PLY_REFLECT()
    u64 last = 0;
    String added{"new"};
    Shape2 shape;
    EnumIndexedArray<u32, Axis2> axes;
    Color2 color = Color2::Mauve;
    Owned<Sub2> owned;
    Array<Sub2> subs = makeDefault<Sub2>();
    Array<s32> bytes = {1, 2, 3};
    double fixed[3] = {0, 0, 0};
    String str;
};
PLY_STRUCT_BEGIN(Rec2)
M1(last) M1(added) M1(shape) M1(axes) M1(color) M1(owned) M1(subs) M1(bytes) M1(fixed) M1(str)
PLY_STRUCT_END()

struct RecLast { // everything but the last item is gone
    PLY_REFLECT()
    u32 last = 0;
};
PLY_STRUCT_BEGIN(RecLast)
M1(last)
PLY_STRUCT_END()

struct Inner {
    PLY_REFLECT()
    u8 v = 0;
};
PLY_STRUCT_BEGIN(Inner)
M1(v)
PLY_STRUCT_END()
struct Outer { // begins with an owned object
    PLY_REFLECT()
    Owned<Inner> inner;
    u8 v = 0;
};
PLY_STRUCT_BEGIN(Outer)
M1(inner) M1(v)
PLY_STRUCT_END()
struct Nothing {
    PLY_REFLECT()
    u8 unsaved = 0;
};
PLY_STRUCT_BEGIN(Nothing)
PLY_STRUCT_END()
struct Links {
    PLY_REFLECT()
    Inner* early = nullptr;
    Array<Owned<Inner>> items;
    Owned<Outer> outer;
    Array<Inner*> refs;
    Outer* toOuter = nullptr;
};
PLY_STRUCT_BEGIN(Links)
M1(early) M1(items) M1(outer) M1(refs) M1(toOuter)
PLY_STRUCT_END()

// Owners of which only some are still known, each with a pointer to what it owns.
struct Trio {
    PLY_REFLECT()
    Inner* pa = nullptr;
    Owned<Inner> a;
    Owned<Inner> b;
    Inner* pb = nullptr;
    Array<Inner*> more;
    Owned<Outer> c;
    Inner* pc = nullptr;
    u8 last = 0;
};
PLY_STRUCT_BEGIN(Trio)
M1(pa) M1(a) M1(b) M1(pb) M1(more) M1(c) M1(pc) M1(last)
PLY_STRUCT_END()
struct TrioA {
    PLY_REFLECT()
    Owned<Inner> a, b;
    Owned<Outer> c;
    Inner *pa = nullptr, *pb = nullptr, *pc = nullptr;
    u8 last = 0;
};
PLY_STRUCT_BEGIN(TrioA)
M1(a) M1(pa) M1(last)
PLY_STRUCT_END()
struct TrioB : TrioA { PLY_REFLECT() };
PLY_STRUCT_BEGIN(TrioB)
M1(b) M1(pb) M1(last)
PLY_STRUCT_END()
struct TrioC : TrioA { PLY_REFLECT() };
PLY_STRUCT_BEGIN(TrioC)
M1(c) M1(pc) M1(last)
PLY_STRUCT_END()
struct TrioAC : TrioA { PLY_REFLECT() };
PLY_STRUCT_BEGIN(TrioAC)
M1(a) M1(c) M1(pa) M1(pc) M1(last)
PLY_STRUCT_END()
struct TrioBC : TrioA { PLY_REFLECT() };
PLY_STRUCT_BEGIN(TrioBC)
M1(c) M1(b) M1(pb) M1(pc) M1(last)
PLY_STRUCT_END()

struct WithAny {
    PLY_REFLECT()
    u8 first = 0;
    AnyOwnedObject any;
    Sub sub;
    Array<Sub> subs;
    u8 last = 0;
};
PLY_STRUCT_BEGIN(WithAny)
M1(first) M1(any) M1(sub) M1(subs) M1(last)
PLY_STRUCT_END()

struct WithSaved {
    PLY_REFLECT()
    TypedArray arr;
    AnySavedObject obj;
    u8 last = 0;
};
PLY_STRUCT_BEGIN(WithSaved)
M1(arr) M1(obj) M1(last)
PLY_STRUCT_END()

// What Pylon can carry both ways.
struct Leaf {
    PLY_REFLECT()
    String s;
    bool b = false;
};
PLY_STRUCT_BEGIN(Leaf)
M1(s) M1(b)
PLY_STRUCT_END()
struct PShape {
    struct None {
        PLY_STATE()
        PLY_REFLECT()
        bool unused = false;
    };
    struct Label {
        PLY_STATE()
        PLY_REFLECT()
        String text;
    };
    struct List {
        PLY_STATE()
        PLY_REFLECT()
        Array<String> items;
        bool flag = false;
    };
    PLY_SWITCH_REFLECT()
    enum class ID : u16 { None, Label, List, Count };
    union Storage_ {
        None none;
        Label label;
        List list;
        PLY_INLINE Storage_() {}
        PLY_INLINE ~Storage_() {}
    };
    SWITCH_FOOTER(PShape, None)
    SWITCH_ACCESSOR(None, none)
    SWITCH_ACCESSOR(Label, label)
    SWITCH_ACCESSOR(List, list)
};
SWITCH_TABLE_BEGIN(PShape)
SWITCH_TABLE_STATE(PShape, None)
SWITCH_TABLE_STATE(PShape, Label)
SWITCH_TABLE_STATE(PShape, List)
SWITCH_TABLE_END(PShape)
PLY_STRUCT_BEGIN(PShape::None)
M1(unused)
PLY_STRUCT_END()
PLY_STRUCT_BEGIN(PShape::Label)
M1(text)
PLY_STRUCT_END()
PLY_STRUCT_BEGIN(PShape::List)
M1(items) M1(flag)
PLY_STRUCT_END()
PLY_SWITCH_BEGIN(PShape)
PLY_SWITCH_MEMBER(None)
PLY_SWITCH_MEMBER(Label)
PLY_SWITCH_MEMBER(List)
PLY_SWITCH_END()
struct Doc {
    PLY_REFLECT()
    String title;
    bool flag = false;
    Color color = Color::Red;
    Array<String> tags;
    Array<Array<bool>> grid;
    PShape shape;
    Owned<Leaf> leaf;
    Array<Leaf> leaves;
};
PLY_STRUCT_BEGIN(Doc)
M1(title) M1(flag) M1(color) M1(tags) M1(grid) M1(shape) M1(leaf) M1(leaves)
PLY_STRUCT_END()
// What Pylon can fill in.
struct Config {
    PLY_REFLECT()
    u8 a = 1;
    u16 b = 2;
    u32 c = 3;
    s32 d = 4;
    float e = 5;
    u16 fixed[2] = {6, 7};
    EnumIndexedArray<u8, Axis> axes;
    String kept{"kept"};
};
PLY_STRUCT_BEGIN(Config)
M1(a) M1(b) M1(c) M1(d) M1(e) M1(fixed) M1(axes) M1(kept)
PLY_STRUCT_END()
// An owned object that begins with the only one linked to.
struct Nested {
    PLY_REFLECT()
    Owned<Outer> outer;
    Inner* p = nullptr;
    Array<Owned<Nothing>> nothings;
    Nothing* q = nullptr;
};
PLY_STRUCT_BEGIN(Nested)
M1(outer) M1(p) M1(nothings) M1(q)
PLY_STRUCT_END()
// A value between two others.
template <typename T> struct One {
    u8 first = 0;
    T v;
    u32 last = 0;
    One() : v{} {}
};
namespace ply {
template <typename T> struct TypeDescriptorSpecializer<One<T>> {
    static PLY_NO_INLINE TypeDescriptor* get() {
        static TypeDescriptor_Struct typeDesc{(One<T>*) nullptr, "One", {
            {"first", PLY_MEMBER_OFFSET(One<T>, first), getTypeDescriptor<u8>()},
            {"v", PLY_MEMBER_OFFSET(One<T>, v), getTypeDescriptor<T>()},
            {"last", PLY_MEMBER_OFFSET(One<T>, last), getTypeDescriptor<u32>()},
        }};
        return &typeDesc;
    }
};
} // namespace ply
