// C09: strings and string views against plain byte arrays.
#include "sx.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/container/Array.h>
#include <ply-runtime/io/OutStream.h>
#include <ply-runtime/string/TextEncoding.h>
#include <ply-runtime/string/WString.h>
using namespace ply;

static u32 len(const char* name, u32 hi) { return (u32) sx_pick(0, hi, name); }

ENTRY h_view() {
    sx_mark_heap();
    {
        SxBuf b(len("n", (u32) sx_param("N", 5)), "b");
        StringView v{b.p, b.n};
        CHECK(v.isEmpty() == (b.n == 0) && (bool) v == (b.n > 0));
        char c = (char) sx_var(8, "c");
        u32 from = (u32) sx_pick(0, b.n, "from");
        s32 first = -1, last = -1;
        for (u32 i = from; i < b.n && first < 0; i++) if (b.p[i] == c) first = (s32) i;
        CHECK(v.findByte(c, from) == first);
        CHECK(v.findByte([&](char x) { return x == c; }, from) == first);
        for (s32 i = (s32) b.n - 1; i >= 0 && last < 0; i--) if (b.p[i] == c) last = i;
        CHECK(v.rfindByte(c) == last);
        if (from < b.n) {
            s32 l2 = -1;
            for (s32 i = (s32) from; i >= 0 && l2 < 0; i--) if (b.p[i] == c) l2 = i;
            CHECK(v.rfindByte(c, from) == l2);
            CHECK(v.rfindByte([&](char x) { return x == c; }, from) == l2);
            CHECK(&v[from] == b.p + from && &v.back(-(s32) from - 1) == b.p + b.n - 1 - from);
        }
        u32 k = (u32) sx_pick(0, b.n - from, "k");
        auto is = [&](StringView x, u32 at, u32 n) { return x.bytes == b.p + at && x.numBytes == n; };
        CHECK(is(v.subStr(from), from, b.n - from) && is(v.subStr(from, k), from, k) && is(v.left(from), 0, from));
        CHECK(is(v.right(from), b.n - from, from) && is(v.shortenedBy(from), 0, b.n - from));
        StringView w = v;
        w.offsetHead(from);
        CHECK(is(w, from, b.n - from));
        w.offsetBack(-(s32) k);
        CHECK(is(w, from, b.n - from - k));
        CHECK(is(StringView::fromRange(b.p + from, b.p + from + k), from, k) && v.end() == b.p + b.n);
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_affix() {
    sx_mark_heap();
    {
        SxBuf a(len("na", (u32) sx_param("N", 4)), "a"), b(len("nb", (u32) sx_param("N", 4)), "b");
        StringView x{a.p, a.n}, y{b.p, b.n};
        bool s = b.n <= a.n, e = s;
        if (s) { s = sx_eq(a.p, b.p, b.n); e = sx_eq(a.p + a.n - b.n, b.p, b.n); }
        CHECK(x.startsWith(y) == s);
        CHECK(x.endsWith(y) == e);
    }
    sx_check_leaks();
    sx_reach("end");
}
// The order of byte strings: by the first byte that differs, as unsigned, else the shorter one first.
ENTRY h_compare() {
    sx_mark_heap();
    {
        SxBuf a(len("na", (u32) sx_param("N", 3)), "a"), b(len("nb", (u32) sx_param("N", 3)), "b");
        StringView x{a.p, a.n}, y{b.p, b.n};
        int want = a.n < b.n ? -1 : a.n > b.n;
        for (s32 i = (s32) min(a.n, b.n) - 1; i >= 0; i--) {
            u8 p = (u8) a.p[i], q = (u8) b.p[i];
            want = p < q ? -1 : p > q ? 1 : want;
        }
        s32 got = compare(x, y);
        CHECK((got < 0) == (want < 0) && (got > 0) == (want > 0));
        CHECK((x == y) == (want == 0) && (x != y) == (want != 0));
        CHECK((x < y) == (want < 0) && (x <= y) == (want <= 0) && (x > y) == (want > 0) && (x >= y) == (want >= 0));
    }
    sx_check_leaks();
    sx_reach("end");
}
static bool isA(char c) { return c == 'a'; }
static char flip(char c) { return (char) (c ^ 0x55); }
ENTRY h_trim() {
    sx_mark_heap();
    {
        SxBuf b(len("n", (u32) sx_param("N", 5)), "b");
        StringView v{b.p, b.n};
        u32 kind = (u32) sx_pick(0, 1, "kind");
        bool (*fn)(char) = kind ? isA : isWhite;
        auto m = [&](char c) { return kind ? c == 'a' : c == ' ' || c == '\t' || c == '\r' || c == '\n'; };
        u32 l = 0, r = b.n;
        while (l < b.n && m(b.p[l])) l++;
        while (r > 0 && m(b.p[r - 1])) r--;
        StringView lt = v.ltrim(fn), rt = v.rtrim(fn), t = v.trim(fn);
        CHECK(lt.bytes == b.p + l && lt.numBytes == b.n - l);
        CHECK(rt.bytes == b.p && rt.numBytes == r);
        CHECK(t.numBytes == (l < r ? r - l : 0));
        if (t.numBytes) CHECK(t.bytes == b.p + l);
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_split() {
    sx_mark_heap();
    {
        SxBuf b(len("n", (u32) sx_param("N", 6)), "b");
        char sep = (char) sx_var(8, "sep");
        Array<StringView> parts = StringView{b.p, b.n}.splitByte(sep);
        // Words are the maximal runs without the delimiter.
        u32 i = 0, w = 0;
        while (i < b.n) {
            if (b.p[i] == sep) { i++; continue; }
            u32 j = i;
            while (j < b.n && b.p[j] != sep) j++;
            CHECK(w < parts.numItems());
            CHECK(parts[w].bytes == b.p + i && parts[w].numBytes == j - i);
            w++;
            i = j;
        }
        CHECK(w == parts.numItems());
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_transform() {
    sx_mark_heap();
    {
        SxBuf b(len("n", (u32) sx_param("N", 4)), "b");
        StringView v{b.p, b.n};
        String up = v.upperAsc(), lo = v.lowerAsc(), rev = v.reversedBytes(), fl = v.filterBytes(flip);
        CHECK(up.numBytes == b.n && lo.numBytes == b.n && rev.numBytes == b.n && fl.numBytes == b.n);
        bool ok = true;
        for (u32 i = 0; i < b.n; i++) {
            u8 c = (u8) b.p[i], u = c, l = c;
            u = c >= 'a' && c <= 'z' ? c - 32 : c;
            l = c >= 'A' && c <= 'Z' ? c + 32 : c;
            ok &= (u8) up.bytes[i] == u;
            ok &= (u8) lo.bytes[i] == l;
            ok &= (u8) rev.bytes[i] == (u8) b.p[b.n - 1 - i];
            ok &= (u8) fl.bytes[i] == (u8) (c ^ 0x55);
        }
        CHECK(ok);
        HybridString z = v.withNullTerminator();
        bool hasZero = b.n > 0 && b.p[b.n - 1] == 0;
        CHECK(v.includesNullTerminator() == hasZero);
        CHECK(z.numBytes == b.n + (hasZero ? 0 : 1) && sx_eq(z.bytes, b.p, b.n) && z.bytes[z.numBytes - 1] == 0);
        StringView wo = v.withoutNullTerminator();
        CHECK(wo.bytes == b.p && wo.numBytes == b.n - (hasZero ? 1 : 0));
    }
    sx_check_leaks();
    sx_reach("end");
}
// Reversing by code point keeps each character's bytes together.
ENTRY h_reverse_utf8() {
    sx_mark_heap();
    {
        u32 k = (u32) sx_pick(0, sx_param("POINTS", 3), "points"), n = 0, at[8];
        char buf[32];
        for (u32 i = 0; i < k; i++) {
            static const u32 lo[] = {0, 0x80, 0x800, 0x10000}, hi[] = {0x7f, 0x7ff, 0xffff, 0x10ffff};
            u32 w = (u32) sx_pick(0, 3, "width");
            at[i] = n;
            n += UTF8::encodePoint({buf + n, 4}, (u32) sx_range(lo[w], hi[w], "cp"));
        }
        at[k] = n;
        String r = StringView{buf, n}.reversedUTF8();
        CHECK(r.numBytes == n);
        u32 o = 0;
        for (u32 i = k; i-- > 0;) { CHECK(sx_eq(r.bytes + o, buf + at[i], at[i + 1] - at[i])); o += at[i + 1] - at[i]; }
        // Arbitrary bytes: nothing out of bounds, and the same bytes.
        SxBuf b(len("n", (u32) sx_param("N", 4)), "b");
        String s = StringView{b.p, b.n}.reversedUTF8();
        CHECK(s.numBytes == b.n);
        u32 sum = 0;
        for (u32 i = 0; i < b.n; i++) { sum += (u8) b.p[i]; sum -= (u8) s.bytes[i]; }
        CHECK(sum == 0);
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_concat() {
    sx_mark_heap();
    {
        SxBuf a(len("na", 2), "a"), b(len("nb", 2), "b"), s(len("ns", 2), "s");
        StringView x{a.p, a.n}, y{b.p, b.n}, z{s.p, s.n};
        String c = x + y;
        CHECK(c.numBytes == a.n + b.n && sx_eq(c.bytes, a.p, a.n) && sx_eq(c.bytes + a.n, b.p, b.n));
        u32 k = (u32) sx_pick(0, 3, "times");
        String m = x * k;
        CHECK(m.numBytes == a.n * k);
        for (u32 i = 0; i < k; i++) CHECK(sx_eq(m.bytes + i * a.n, a.p, a.n));
        u32 parts = (u32) sx_pick(0, 3, "parts");
        StringView list[3] = {x, y, x};
        String j = z.join(ArrayView<const StringView>{list, parts});
        u32 o = 0;
        for (u32 i = 0; i < parts; i++) {
            if (i) { CHECK(o + z.numBytes <= j.numBytes && sx_eq(j.bytes + o, z.bytes, z.numBytes)); o += z.numBytes; }
            CHECK(o + list[i].numBytes <= j.numBytes && sx_eq(j.bytes + o, list[i].bytes, list[i].numBytes));
            o += list[i].numBytes;
        }
        CHECK(o == j.numBytes);
        String f = String::format("{}{{{}}}|{}", x, y, c);
        CHECK(f.numBytes == a.n + b.n + 3 + c.numBytes);
        CHECK(sx_eq(f.bytes, a.p, a.n) && f.bytes[a.n] == '{' && sx_eq(f.bytes + a.n + 1, b.p, b.n));
        CHECK(f.bytes[a.n + b.n + 1] == '}' && f.bytes[a.n + b.n + 2] == '|' && sx_eq(f.bytes + a.n + b.n + 3, c.bytes, c.numBytes));
        String t = x;
        t += y;
        CHECK(t == c);
        t += t;
        CHECK(t.numBytes == 2 * c.numBytes && sx_eq(t.bytes, c.bytes, c.numBytes) && sx_eq(t.bytes + c.numBytes, c.bytes, c.numBytes));
    }
    sx_check_leaks();
    sx_reach("end");
}
// Owned strings: any series of operations on two strings and two hybrid strings, one of them in turn borrowed.
ENTRY h_own() {
    sx_mark_heap();
    {
        SxBuf lit(3, "lit");
        u32 ln = (u32) sx_pick(0, 3, "ln");
        StringView view{lit.p, ln};
        struct M { char b[80]; u32 n = 0; void set(const char* p, u32 k) { memmove(b, p, k); n = k; } } m[4];
        String s[2];
        HybridString h[2];
        u32 ops = (u32) sx_param("OPS", 2);
        auto check = [&] {
            for (u32 i = 0; i < 2; i++) {
                CHECK(s[i].numBytes == m[i].n && sx_eq(s[i].bytes, m[i].b, m[i].n));
                CHECK(h[i].numBytes == m[2 + i].n && sx_eq(h[i].bytes, m[2 + i].b, m[2 + i].n));
            }
        };
        s[0] = view; m[0].set(lit.p, ln);
        h[0] = HybridString{String{view}}; m[2].set(lit.p, ln);
        for (u32 o = 0; o < ops; o++) {
            u32 i = (u32) sx_pick(0, 1, "i"), j = (u32) sx_pick(0, 1, "j");
            switch (sx_pick(0, 15, "op")) {
                case 0: s[i] = s[j]; m[i].set(m[j].b, m[j].n); break;
                case 1: if (i != j) { s[i] = std::move(s[j]); m[i].set(m[j].b, m[j].n); m[j].n = 0; } break;
                case 2: s[i] = s[j].view(); m[i].set(m[j].b, m[j].n); break;
                case 3: { u32 k = (u32) sx_pick(0, m[j].n, "k"); s[i] = s[j].left(k); m[i].set(m[j].b, k); break; }
                case 4: s[i] += s[j]; memmove(m[i].b + m[i].n, m[j].b, m[j].n); m[i].n += m[j].n; break;
                case 5: s[i].clear(); m[i].n = 0; break;
                case 6: { u32 k = (u32) sx_pick(0, 4, "k"); u32 old = m[i].n; s[i].resize(k); for (u32 q = old; q < k; q++) s[i][q] = m[i].b[q] = 'r'; m[i].n = k; break; }
                case 7: h[i] = h[j]; m[2 + i].set(m[2 + j].b, m[2 + j].n); break;
                case 8: if (i != j) { h[i] = std::move(h[j]); m[2 + i].set(m[2 + j].b, m[2 + j].n); m[2 + j].n = 0; } break;
                case 9: h[i] = HybridString{view}; m[2 + i].set(lit.p, ln); break;
                case 10: h[i] = HybridString{String{s[j]}}; m[2 + i].set(m[j].b, m[j].n); break;
                case 11: { bool own = h[j].isOwner; s[i] = String{std::move(h[j])}; m[i].set(m[2 + j].b, m[2 + j].n); if (own) m[2 + j].n = 0; break; }
                case 12: { String t{std::move(s[j])}; m[i == j ? j : i].set(m[j].b, m[j].n); if (i != j) m[j].n = 0; s[i] = std::move(t); break; }
                case 13: { u32 n = s[i].numBytes; char* p = s[i].release(); CHECK(!s[i].bytes && s[i].isEmpty()); s[i] = String::adopt(p, n); break; }
                case 14: { Array<String> a; a.append(s[i]); a.append(std::move(s[j])); if (i != j) s[j] = std::move(a[1]); else { s[j] = a[0]; } break; }
                case 15: h[i] = HybridString{h[i].view().left(h[i].numBytes)}.view() == h[i].view() ? HybridString{String{h[i].view()}} : HybridString{}; break;
            }
            check();
        }
        check();
    }
    sx_check_leaks();
    sx_reach("end");
}
