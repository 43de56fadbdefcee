// C14: path manipulation against what a path means.
#include "sx.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/filesystem/Path.h>
#include <ply-runtime/string/TextEncoding.h>
#include <ply-runtime/string/WString.h>
using namespace ply;

static bool win;
static bool sep(char c) { return c == '/' || (win && c == '\\'); }
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool drive(StringView p) { return win && p.numBytes >= 2 && letter(p.bytes[0]) && p.bytes[1] == ':'; }
static bool absolute(StringView p) {
    if (win) return drive(p) && p.numBytes >= 3 && sep(p.bytes[2]);
    return p.numBytes >= 1 && sep(p.bytes[0]);
}
static bool relative(StringView p) { return p.numBytes > 0 && !drive(p) && !sep(p.bytes[0]); }

// What a path designates: a starting point, some steps up, then names to go down.
struct Meaning {
    char drv = 0;
    bool abs = false;
    u32 ups = 0, n = 0;
    StringView name[12];
    void enter(StringView c) {
        if (c.numBytes == 0 || (c.numBytes == 1 && c.bytes[0] == '.')) return;
        if (c.numBytes == 2 && c.bytes[0] == '.' && c.bytes[1] == '.') {
            if (n) n--;
            else if (!abs) ups++; // the root has no parent
            return;
        }
        CHECK(n < 12);
        name[n++] = c;
    }
    void go(StringView p) {
        if (drive(p)) { drv = p.bytes[0]; abs = absolute(p); ups = n = 0; p = p.subStr(2); }
        else if (absolute(p)) { abs = true; ups = n = 0; }
        u32 i = 0;
        while (i < p.numBytes) {
            if (sep(p.bytes[i])) { i++; continue; }
            u32 j = i;
            while (j < p.numBytes && !sep(p.bytes[j])) j++;
            enter({p.bytes + i, j - i});
            i = j;
        }
    }
    bool same(const Meaning& o) const {
        if (drv != o.drv || abs != o.abs || ups != o.ups || n != o.n) return false;
        for (u32 i = 0; i < n; i++) if (name[i].numBytes != o.name[i].numBytes || !sx_eq(name[i].bytes, o.name[i].bytes, name[i].numBytes)) return false;
        return true;
    }
};
// No redundant separators or steps, and the format's own separator.
static void checkNormal(StringView p) {
    CHECKM(p.numBytes > 0, "empty");
    char s = win ? '\\' : '/';
    StringView rest = p;
    bool abs = absolute(p);
    if (drive(rest)) rest = rest.subStr(2);
    if (abs) { CHECKM(rest.bytes[0] == s, "separator"); rest = rest.subStr(1); }
    bool alone = rest.numBytes == p.numBytes, down = false;
    u32 i = 0;
    while (i < rest.numBytes) {
        u32 j = i;
        while (j < rest.numBytes && !sep(rest.bytes[j])) j++;
        CHECKM(j > i, "redundant separator");
        if (j - i == 1 && rest.bytes[i] == '.') CHECKM(alone && i == 0 && j + 1 >= rest.numBytes, "redundant .");
        else if (j - i == 2 && rest.bytes[i] == '.' && rest.bytes[i + 1] == '.') CHECKM(!abs && !down, "redundant ..");
        else down = true;
        if (j < rest.numBytes) CHECKM(rest.bytes[j] == s, "separator");
        i = j + 1;
    }
}
static bool endsInSep(StringView p) { return p.numBytes && sep(p.bytes[p.numBytes - 1]); }
// Windows names hold no colon; what a leading separator without a drive letter means is left open.
static void windowsOnly(StringView p) {
    if (!win) return;
    for (u32 i = 0; i < p.numBytes; i++) if (!(i == 1 && drive(p))) ASSUME(p.bytes[i] != ':');
    ASSUME(p.numBytes == 0 || !sep(p.bytes[0]));
}
ENTRY h_path_join() {
    sx_mark_heap();
    {
        win = sx_pick(0, 1, "windows");
        PathFormat fmt{win};
        u32 k = (u32) sx_pick(sx_param("KLO", 1), sx_param("K", 3), "parts"), left = (u32) sx_param("N", 5);
        StringView part[4];
        SxBuf* b[4];
        Meaning want;
        for (u32 i = 0; i < k; i++) {
            b[i] = new SxBuf((u32) sx_pick(0, left, "n"), "b");
            left -= b[i]->n;
            part[i] = {b[i]->p, b[i]->n};
            windowsOnly(part[i]);
            want.go(part[i]);
        }
        String r = fmt.joinAndNormalize(ArrayView<const StringView>{part, k});
        Meaning got;
        got.go(r);
        CHECKM(got.same(want), "meaning");
        checkNormal(r);
        bool slash = part[k - 1].isEmpty() || endsInSep(part[k - 1]);
        bool root = want.abs && want.n == 0, bare = want.drv && !want.abs && want.n == 0 && want.ups == 0;
        if (root) CHECKM(endsInSep(r), "root");
        else if (!bare && !(k == 1 && part[0].isEmpty())) CHECKM(endsInSep(r) == slash, "trailing separator");
        String again = fmt.joinAndNormalize(ArrayView<const StringView>{r.view()});
        CHECKM(again.numBytes == r.numBytes && sx_eq(again.bytes, r.bytes, r.numBytes), "not a fixed point");
        for (u32 i = 0; i < k; i++) delete b[i];
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_path_relative() {
    sx_mark_heap();
    {
        win = sx_pick(0, 1, "windows");
        PathFormat fmt{win};
        SxBuf a((u32) sx_pick(1, sx_param("N", 4), "na"), "a"), d((u32) sx_pick(1, sx_param("N", 4), "nd"), "d");
        StringView anc{a.p, a.n}, desc{d.p, d.n};
        windowsOnly(anc);
        windowsOnly(desc);
        ASSUME((absolute(anc) && absolute(desc)) || (relative(anc) && relative(desc)));
        Meaning ma, md, got;
        ma.go(anc);
        md.go(desc);
        ASSUME(ma.ups <= md.ups); // otherwise there is no answer
        String r = fmt.makeRelative(anc, desc);
        got.go(anc);
        got.go(r);
        CHECKM(got.same(md), "meaning");
        checkNormal(r);
        if (!absolute(r)) CHECKM(endsInSep(r) == endsInSep(desc), "trailing separator");
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_path_split() {
    sx_mark_heap();
    {
        win = sx_pick(0, 1, "windows");
        PathFormat fmt{win};
        SxBuf b((u32) sx_pick(0, sx_param("N", 6), "n"), "b");
        StringView p{b.p, b.n};
        CHECK(fmt.isAbsolute(p) == absolute(p) && fmt.isRelative(p) == relative(p) && fmt.hasDriveLetter(p) == drive(p));
        CHECK(fmt.endsWithSep(p) == endsInSep(p));
        StringView dl = fmt.getDriveLetter(p);
        CHECK(drive(p) ? dl.bytes == p.bytes && dl.numBytes == 2 : dl.isEmpty());
        auto is = [&](StringView v, u32 at, u32 n) { return v.numBytes == n && (n == 0 || v.bytes == b.p + at); };
        // split: the last component, and what leads up to it without its separators, unless that is the root.
        u32 at = b.n;
        while (at > 0 && !sep(b.p[at - 1])) at--;
        u32 head = at;
        while (head > 0 && sep(b.p[head - 1])) head--;
        if (at > 0 && (head == 0 || (head == 2 && drive(p)))) head++;
        auto s = fmt.split(p);
        CHECKM(is(s.second, at, b.n - at), "last component");
        CHECKM(is(s.first, 0, head), "leading part");
        // splitExt: the extension starts at the last period that does not lead the last component.
        u32 lead = at, dot = b.n;
        while (lead < b.n && b.p[lead] == '.') lead++;
        for (u32 i = lead; i < b.n; i++) if (b.p[i] == '.') dot = i;
        auto e = fmt.splitExt(p);
        CHECKM(is(e.first, 0, dot), "before the extension");
        CHECKM(is(e.second, dot, b.n - dot), "extension");
        // splitFull
        Array<StringView> f = fmt.splitFull(p);
        u32 i = 0, w = 0;
        if (drive(p) || (b.n && sep(b.p[0]))) {
            u32 root = drive(p) ? (absolute(p) ? 3 : 2) : 1;
            CHECK(f.numItems() > 0 && is(f[0], 0, root));
            w = 1;
            i = root;
            if (sep(b.p[root - 1])) while (i < b.n && sep(b.p[i])) i++;
        }
        bool more = i < b.n;
        while (more) {
            u32 j = i;
            while (j < b.n && !sep(b.p[j])) j++;
            CHECKM(w < f.numItems() && is(f[w], i, j - i), "component");
            w++;
            more = j < b.n;
            while (j < b.n && sep(b.p[j])) j++;
            i = j;
        }
        CHECKM(w == f.numItems(), "number of components");
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_path_convert() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 4), "n"), "b");
        StringView p{b.p, b.n};
        bool dstWin = sx_pick(0, 1, "dst"), srcWin = sx_pick(0, 1, "src");
        HybridString r = PathFormat{dstWin}.from(PathFormat{srcWin}, p);
        CHECK(r.numBytes == b.n);
        bool ok = true;
        for (u32 i = 0; i < b.n; i++) {
            char c = b.p[i];
            if (dstWin) c = c == '/' ? '\\' : c;
            else if (srcWin) c = c == '\\' ? '/' : c;
            ok &= r.bytes[i] == c;
        }
        CHECK(ok);
    }
    sx_check_leaks();
    sx_reach("end");
}
// The argument for Windows calls is the path in UTF-16 with backslashes and a terminator.
ENTRY h_path_win32() {
    sx_mark_heap();
    {
        u32 k = (u32) sx_pick(0, sx_param("POINTS", 3), "points"), n = 0, m = 0;
        char buf[24];
        u16 want[16];
        win = true;
        for (u32 i = 0; i < k; i++) {
            static const u32 lo[] = {0, 0x80, 0x800, 0x10000}, hi[] = {0x7f, 0x7ff, 0xd7ff, 0x10ffff};
            u32 w = (u32) sx_pick(0, 3, "width"), cp = (u32) sx_range(lo[w], hi[w], "cp");
            n += UTF8::encodePoint({buf + n, 4}, cp);
            if (w == 3) { want[m++] = (u16)(0xd800 + ((cp - 0x10000) >> 10)); want[m++] = (u16)(0xdc00 + ((cp - 0x10000) & 0x3ff)); }
            else want[m++] = cp == '/' ? u16('\\') : (u16) cp;
        }
        bool ext = sx_pick(0, 1, "extended");
        WString r = win32PathArg({buf, n}, ext);
        u32 at = ext && absolute({buf, n}) ? 4 : 0;
        CHECK(r.numUnits == at + m + 1);
        static const u16 prefix[] = {'\\', '\\', '?', '\\'};
        for (u32 i = 0; i < at; i++) CHECK((u16) r.units[i] == prefix[i]);
        for (u32 i = 0; i < m; i++) CHECK((u16) r.units[at + i] == want[i]);
        CHECK(r.units[at + m] == 0);
    }
    sx_check_leaks();
    sx_reach("end");
}
