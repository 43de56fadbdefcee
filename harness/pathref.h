// What a path designates, computed from the text alone.
#pragma once
#include "sx.h"
#include <ply-runtime/Base.h>
using namespace ply;
static bool win;
static bool sep(char c) { return c == '/' || (win && c == '\\'); }
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool drive(StringView p) { return win && p.numBytes >= 2 && letter(p.bytes[0]) && p.bytes[1] == ':'; }
static bool absolute(StringView p) {
    if (win) return drive(p) && p.numBytes >= 3 && sep(p.bytes[2]);
    return p.numBytes >= 1 && sep(p.bytes[0]);
}
static bool relative(StringView p) { return p.numBytes > 0 && !drive(p) && !sep(p.bytes[0]); }

// What a path designates: a starting point, some steps up, then names to go down.
struct Meaning {
    char drv = 0;
    bool abs = false;
    u32 ups = 0, n = 0;
    StringView name[12];
    void enter(StringView c) {
        if (c.numBytes == 0 || (c.numBytes == 1 && c.bytes[0] == '.')) return;
        if (c.numBytes == 2 && c.bytes[0] == '.' && c.bytes[1] == '.') {
            if (n) n--;
            else if (!abs) ups++; // the root has no parent
            return;
        }
        CHECK(n < 12);
        name[n++] = c;
    }
    void go(StringView p) {
        if (drive(p)) { drv = p.bytes[0]; abs = absolute(p); ups = n = 0; p = p.subStr(2); }
        else if (absolute(p)) { abs = true; ups = n = 0; }
        u32 i = 0;
        while (i < p.numBytes) {
            if (sep(p.bytes[i])) { i++; continue; }
            u32 j = i;
            while (j < p.numBytes && !sep(p.bytes[j])) j++;
            enter({p.bytes + i, j - i});
            i = j;
        }
    }
    bool same(const Meaning& o) const {
        if (drv != o.drv || abs != o.abs || ups != o.ups || n != o.n) return false;
        for (u32 i = 0; i < n; i++) if (name[i].numBytes != o.name[i].numBytes || !sx_eq(name[i].bytes, o.name[i].bytes, name[i].numBytes)) return false;
        return true;
    }
};
