// Text locations, and tags embedded in text.
#include "sx.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/io/text/FileLocationMap.h>
#include <ply-runtime/io/text/LiquidTags.h>
#include <ply-runtime/string/TextEncoding.h>
using namespace ply;

// Where an offset lies, counted from the start of the text.
static FileLocation reference(StringView src, u32 offset) {
    u32 line = 1, col = 1, start = 0, at = 0;
    for (;;) {
        StringView rest = src.subStr(at);
        DecodeResult d = UTF8::decodePoint(rest);
        if (rest.isEmpty() || at + d.numBytes > offset) return {line, offset - start, col, offset - at};
        at += d.numBytes;
        if (d.point == '\n') { line++; col = 1; start = at; }
        else if (d.point == '\t') col = (col / 4 + 1) * 4;
        else if (d.point != '\r') col++;
    }
}
static void check(FileLocation got, FileLocation want) {
    CHECKM(got.lineNumber == want.lineNumber, "line");
    CHECKM(got.columnNumber == want.columnNumber && got.numBytesIntoColumn == want.numBytesIntoColumn, "column");
    CHECKM(got.numBytesIntoLine == want.numBytesIntoLine, "bytes into line");
}
static void checkAll(StringView src, u32 lo) {
    FileLocationMap map = FileLocationMap::fromView(src);
    u32 line = 1, col = 1, start = 0, at = 0;
    for (;;) {
        StringView rest = src.subStr(at);
        DecodeResult d = UTF8::decodePoint(rest);
        for (u32 o = at; at >= lo && (o < at + d.numBytes || (o == at && rest.isEmpty())); o++) check(map.getFileLocation(o), {line, o - start, col, o - at});
        if (rest.isEmpty()) return;
        at += d.numBytes;
        if (d.point == '\n') { line++; col = 1; start = at; }
        else if (d.point == '\t') col = (col / 4 + 1) * 4;
        else if (d.point != '\r') col++;
    }
}
ENTRY h_locate() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 4), "n"), "b");
        checkAll({b.p, b.n}, 0);
    }
    sx_check_leaks();
    sx_reach("end");
}
// The same across the boundaries of the map's table.
ENTRY h_locate_chunk() {
    static const char* units[] = {"x", "\n", "\t", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\r", "\xff"};
    sx_mark_heap();
    {
        u32 chunk = (u32) sx_pick(1, sx_param("CHUNKS", 2), "chunk") * 256, kinds = (u32) sx_param("KINDS", 6);
        String s;
        u32 lead = (u32) sx_pick(0, 3, "lead");
        while (s.numBytes < chunk - 3 - lead) s += s.numBytes == 100 ? "\n" : s.numBytes % 50 == 7 ? "\xc3\xa9" : "x";
        u32 from = s.numBytes - 2;
        for (u32 i = 0; i < (u32) sx_param("N", 4); i++) s += units[sx_pick(0, kinds - 1, "unit")];
        if (sx_pick(0, 1, "more")) s += "\ny\xe2\x82\xac\tz";
        checkAll(s, from);
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_locate_text() {
    sx_mark_heap();
    {
        static const char* text = "a\n\n\tb\xc3\xa9" "c\r\nd";
        u32 o = (u32) sx_pick(0, strlen(text), "offset");
        FileLocationMap map = FileLocationMap::fromView(text);
        FileLocation want = reference(text, o);
        CHECK(map.formatFileLocation(o) == String::format("({}, {})", want.lineNumber, want.columnNumber));
    }
    sx_check_leaks();
    sx_reach("end");
}
// Everything outside the tags is passed on, and each tag is handled once, in order.
ENTRY h_tags() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 7), "n"), "b");
        if (sx_param("MARKS", 1)) for (u32 i = 0; i < b.n; i++) ASSUME(b.p[i] == '<' || b.p[i] == '%' || b.p[i] == '>' || b.p[i] == 'a');
        struct Tag { u32 from, to; } tag[8];
        u32 tags = 0, plainLen = 0;
        char plain[16];
        bool open = false;
        for (u32 i = 0; i < b.n;) {
            if (i + 1 < b.n && b.p[i] == '<' && b.p[i + 1] == '%') {
                u32 j = i + 2;
                while (j + 1 < b.n && !(b.p[j] == '%' && b.p[j + 1] == '>')) j++;
                if (j + 1 >= b.n) { open = true; break; } // a tag left open: only what precedes it is specified
                tag[tags++] = {i, j + 2};
                i = j + 2;
            } else plain[plainLen++] = b.p[i++];
        }
        u32 seen = 0;
        MemOutStream mout;
        ViewInStream vins{StringView{b.p, b.n}};
        extractLiquidTags(&mout, &vins, [&](StringView whole, StringView inner) {
            if (open && seen == tags) return;
            CHECKM(seen < tags, "tag invented");
            Tag t = tag[seen++];
            CHECKM(whole.bytes == b.p + t.from && whole.numBytes == t.to - t.from, "tag range");
            CHECKM(inner.numBytes == whole.numBytes - 4 && sx_eq(inner.bytes, b.p + t.from + 2, inner.numBytes), "tag text");
        });
        String out = mout.moveToString();
        CHECKM(seen == tags, "tags");
        CHECKM(out.numBytes == plainLen && sx_eq(out.bytes, plain, plainLen), "text outside tags");
    }
    sx_check_leaks();
    sx_reach("end");
}
