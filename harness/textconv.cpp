// C02: text conversion and line-end filters.
#include "pipes.h"
#include <ply-runtime/io/text/TextConverter.h>
#include <ply-runtime/io/text/NewLineFilter.h>
#include <ply-runtime/io/text/TextFormat.h>
using namespace ply;
using namespace sxp;

static const TextEncoding* enc(u32 i) {
    switch (i) {
        case 0: return TextEncoding::get<UTF8>();
        case 1: return TextEncoding::get<UTF16_LE>();
        case 2: return TextEncoding::get<UTF16_BE>();
        default: return TextEncoding::get<Enc_Bytes>();
    }
}

struct Bytes {
    char b[512];
    u32 n = 0;
    void put(const void* p, u32 k) { CHECKM(n + k <= sizeof(b), "harness bound"); memcpy(b + n, p, k); n += k; }
};
// Reference: decode one point at a time over the whole text, encode each. The number of source bytes used is returned;
// what is left is an incomplete code unit.
static u32 refConvert(Bytes& out, const TextEncoding* dst, const TextEncoding* src, const char* p, u32 n) {
    u32 pos = 0;
    while (pos < n) {
        DecodeResult d = src->decodePoint({p + pos, n - pos});
        if (d.point < 0) break;
        char tmp[4];
        u32 k = dst->encodePoint({tmp, 4}, d.point);
        out.put(tmp, k);
        pos += d.numBytes;
    }
    return pos;
}
static bool eq(const Bytes& w, const char* p, u32 n) { return w.n == n && (n == 0 || sx_eq(w.b, p, n)); }

static void pickEncs(const TextEncoding*& d, const TextEncoding*& s) {
    s = enc((u32) sx_pick(0, 3, "src"));
    d = enc((u32) sx_pick(sx_param("DLO", 0), sx_param("DHI", 3), "dst"));
}

ENTRY h_conv_string() {
    sx_mark_heap();
    {
        const TextEncoding *d, *s;
        pickEncs(d, s);
        u32 n = (u32) sx_pick(0, sx_param("N", 4), "n");
        SxBuf b(n, "b");
        Bytes want;
        refConvert(want, d, s, b.p, n);
        String r = TextConverter::convertInternal(d, s, {b.p, n});
        CHECK(eq(want, r.bytes, r.numBytes));
    }
    sx_check_leaks();
    sx_reach("end");
}

// Reading through a converter: source chunks and the sizes the reader asks for vary.
ENTRY h_conv_read() {
    sx_mark_heap();
    {
        const TextEncoding *d, *s;
        pickEncs(d, s);
        u32 n = (u32) sx_pick(0, sx_param("N", 4), "n");
        SxBuf b(n, "b");
        Bytes want, got;
        refConvert(want, d, s, b.p, n);
        ChunkInPipe src{b.p, n, 2, 3};
        {
            Owned<InPipe> conv = Owned<InPipe_TextConverter>::create(Owned<InStream>::create(borrow((InPipe*) &src), 7u), d, s);
            u32 picks = 0;
            for (;;) {
                u32 k = picks++ < 3 ? (u32) sx_pick(1, 4, "want") : 5;
                char* dst = (char*) malloc(k);
                u32 r = conv->readSome({dst, k});
                CHECK(r <= k);
                got.put(dst, r);
                free(dst);
                if (r == 0) break;
                CHECK(got.n <= want.n);
            }
            char more[4];
            CHECK(conv->readSome({more, 4}) == 0);
        }
        CHECK(eq(want, got.b, got.n));
    }
    sx_check_leaks();
    sx_reach("end");
}

// The same near the end of the reader's internal block.
ENTRY h_conv_read_block() {
    sx_mark_heap();
    {
        const TextEncoding *d, *s;
        pickEncs(d, s);
        u32 pre = 128 - 4 + (s == enc(1) || s == enc(2) ? 2 * (u32) sx_pick(0, 1, "pre") : (u32) sx_pick(0, 3, "pre"));
        u32 n = pre + (u32) sx_pick(3, sx_param("N", 4), "n");
        SxBuf b(n, "b");
        for (u32 i = 0; i < pre; i++) b.p[i] = s == enc(1) ? (i & 1 ? 0 : 'a') : s == enc(2) ? (i & 1 ? 'a' : 0) : 'a';
        Bytes want, got;
        refConvert(want, d, s, b.p, n);
        ChunkInPipe src{b.p, n, 0};
        InStream out{Owned<InPipe_TextConverter>::create(Owned<InStream>::create(borrow((InPipe*) &src), 7u), d, s), 7};
        String r = out.readRemainingContents();
        CHECK(eq(want, r.bytes, r.numBytes));
    }
    sx_check_leaks();
    sx_reach("end");
}

// Writing through a converter in pieces, with flushes; the destination's block has little room left.
ENTRY h_conv_write() {
    sx_mark_heap();
    {
        const TextEncoding *d, *s;
        pickEncs(d, s);
        u32 n = (u32) sx_pick(0, sx_param("N", 4), "n");
        SxBuf b(n, "b");
        Bytes want;
        RecOutPipe rec{512};
        u32 room = (u32) sx_pick(0, sx_param("ROOM", 2), "room");
        char pad[128];
        memset(pad, '.', 128);
        u32 pre = room ? 128 - room : 0;
        want.put(pad, pre);
        {
            OutStream dst{borrow((OutPipe*) &rec), 7};
            dst.write({pad, pre});
            OutPipe_TextConverter conv{borrow(&dst), d, s};
            u32 segStart = 0, pos = 0;
            while (pos < n) {
                u32 k = (u32) sx_pick(1, n - pos, "piece");
                CHECK(conv.write({b.p + pos, k}));
                pos += k;
                if (sx_pick(0, 1, "flush")) {
                    CHECK(conv.flush(false));
                    segStart += refConvert(want, d, s, b.p + segStart, pos - segStart);
                    CHECKM(eq(want, rec.got, rec.n), "all complete characters arrive by a flush");
                }
            }
            CHECK(conv.flush(false));
            refConvert(want, d, s, b.p + segStart, n - segStart);
            CHECK(eq(want, rec.got, rec.n));
        }
        CHECK(eq(want, rec.got, rec.n));
    }
    sx_check_leaks();
    sx_reach("end");
}

static void refNewLine(Bytes& out, const char* p, u32 n, bool crlf) {
    for (u32 i = 0; i < n; i++) {
        if (p[i] == '\r') continue;
        if (p[i] == '\n' && crlf) out.put("\r", 1);
        out.put(p + i, 1);
    }
}
ENTRY h_newline_in() {
    sx_mark_heap();
    {
        u32 n = (u32) sx_pick(0, sx_param("N", 5), "n");
        SxBuf b(n, "b");
        Bytes want, got;
        refNewLine(want, b.p, n, false);
        ChunkInPipe src{b.p, n, 3, 3};
        {
            Owned<InPipe> f = createInNewLineFilter(Owned<InStream>::create(borrow((InPipe*) &src), 7u));
            u32 picks = 0;
            for (;;) {
                u32 k = picks++ < 3 ? (u32) sx_pick(1, 3, "want") : 5;
                char* dst = (char*) malloc(k);
                u32 r = f->readSome({dst, k});
                CHECK(r <= k);
                got.put(dst, r);
                free(dst);
                if (r == 0) break;
            }
            char more[2];
            CHECK(f->readSome({more, 2}) == 0);
        }
        CHECK(eq(want, got.b, got.n));
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_newline_out() {
    sx_mark_heap();
    {
        u32 n = (u32) sx_pick(0, sx_param("N", 5), "n");
        bool crlf = sx_pick(0, 1, "crlf");
        SxBuf b(n, "b");
        Bytes want;
        RecOutPipe rec{512};
        u32 room = (u32) sx_pick(0, 3, "room");
        char pad[128];
        memset(pad, '.', 128);
        u32 pre = room ? 128 - room : 0;
        want.put(pad, pre);
        {
            Owned<OutStream> o = Owned<OutStream>::create(borrow((OutPipe*) &rec), 7u);
            o->write({pad, pre});
            Owned<OutPipe> f = createOutNewLineFilter(std::move(o), crlf);
            u32 pos = 0;
            while (pos < n) {
                u32 k = (u32) sx_pick(1, n - pos, "piece");
                CHECK(f->write({b.p + pos, k}));
                refNewLine(want, b.p + pos, k, crlf);
                pos += k;
                if (sx_pick(0, 1, "flush")) {
                    CHECK(f->flush(false));
                    CHECKM(eq(want, rec.got, rec.n), "whole line ends arrive by a flush");
                }
            }
        }
        CHECK(eq(want, rec.got, rec.n));
    }
    sx_check_leaks();
    sx_reach("end");
}

// Text of symbolic characters in UTF-8, without carriage returns. maxPoint bounds what the format can represent.
static u32 makeText(char* p, u32 points, bool bytesOnly, bool plain) {
    u32 n = 0;
    for (u32 i = 0; i < points; i++) {
        u32 v;
        switch (sx_pick(0, bytesOnly ? 2 : 4, "class")) {
            case 0: v = '\n'; break;
            case 1: v = (u32) sx_range(plain ? 32 : 0, plain ? 126 : 0x7f, "ascii"); ASSUME(v != '\r' && v != '\n'); break;
            case 2: v = (u32) sx_range(0x80, bytesOnly ? 0xff : 0x7ff, "two"); break;
            case 3: v = (u32) sx_range(0x800, 0xffff, "three"); ASSUME(v < 0xd800 || v > 0xdfff); ASSUME(v != 0xfeff && v != 0xfffe); break;
            default: v = (u32) sx_range(0x10000, 0x10ffff, "four"); break;
        }
        n += UTF8::encodePoint({p + n, 4}, v);
    }
    return n;
}
static TextFormat pickFormat() {
    TextFormat tf;
    tf.encoding = (TextFormat::Encoding) sx_pick(sx_param("ELO", 0), sx_param("EHI", 3), "encoding");
    tf.newLine = (TextFormat::NewLine) sx_pick(0, 1, "newline");
    tf.bom = tf.encoding != TextFormat::Encoding::Bytes && sx_pick(0, 1, "bom");
    return tf;
}
// What a file in this format must contain.
static void refExport(Bytes& out, const TextFormat& tf, const char* p, u32 n) {
    Bytes nl;
    refNewLine(nl, p, n, tf.newLine == TextFormat::NewLine::CRLF);
    switch (tf.encoding) {
        case TextFormat::Encoding::UTF8: if (tf.bom) out.put("\xef\xbb\xbf", 3); refConvert(out, enc(0), enc(0), nl.b, nl.n); break;
        case TextFormat::Encoding::UTF16_le: if (tf.bom) out.put("\xff\xfe", 2); refConvert(out, enc(1), enc(0), nl.b, nl.n); break;
        case TextFormat::Encoding::UTF16_be: if (tf.bom) out.put("\xfe\xff", 2); refConvert(out, enc(2), enc(0), nl.b, nl.n); break;
        default: refConvert(out, enc(3), enc(0), nl.b, nl.n); break;
    }
}
ENTRY h_format_roundtrip() {
    sx_mark_heap();
    {
        TextFormat tf = pickFormat();
        u32 pts = (u32) sx_pick(0, sx_param("POINTS", 2), "points");
        char* text = (char*) malloc(16);
        u32 n = makeText(text, pts, tf.encoding == TextFormat::Encoding::Bytes, false);
        Bytes file;
        refExport(file, tf, text, n);
        RecOutPipe rec{128};
        {
            Owned<OutStream> e = tf.createExporter(Owned<OutStream>::create(borrow((OutPipe*) &rec), 7u));
            u32 half = n ? (u32) sx_pick(0, n, "half") : 0;
            CHECK(e->write({text, half}));
            bool atBoundary = half == n || (text[half] & 0xc0) != 0x80;
            if (atBoundary && sx_pick(0, 1, "flush")) {
                CHECK(e->flush());
                Bytes part;
                refExport(part, tf, text, half);
                CHECKM(eq(part, rec.got, rec.n), "the file is complete up to a flush");
            }
            CHECK(e->write({text + half, n - half}));
        }
        CHECKM(eq(file, rec.got, rec.n), "the file holds the text in the format asked for");
        ChunkInPipe src{rec.got, rec.n, 2, 2};
        {
            Owned<InStream> im = tf.createImporter(Owned<InStream>::create(borrow((InPipe*) &src), 7u));
            String back = im->readRemainingContents();
            CHECKM(back.numBytes == n && (n == 0 || sx_eq(back.bytes, text, n)), "the text comes back");
        }
        free(text);
    }
    sx_check_leaks();
    sx_reach("end");
}
// Detecting the format of a file that carries a byte order mark, or of plain UTF-8, and reading it back.
ENTRY h_format_detect() {
    sx_mark_heap();
    {
        TextFormat tf = pickFormat();
        ASSUME(tf.bom || tf.encoding == TextFormat::Encoding::UTF8);
        u32 pts = (u32) sx_pick(0, sx_param("POINTS", 2), "points");
        char* text = (char*) malloc(16);
        u32 n = makeText(text, pts, false, !tf.bom);
        bool lines = false;
        for (u32 i = 0; i < n; i++) if (text[i] == '\n') lines = true;
        Bytes file;
        refExport(file, tf, text, n);
        ChunkInPipe src{file.b, file.n, 2, 2};
        {
            Owned<InStream> ins = Owned<InStream>::create(borrow((InPipe*) &src), 7u);
            TextFormat f = TextFormat::autodetect(ins);
            CHECK(f.encoding == tf.encoding && f.bom == tf.bom);
            CHECK(f.newLine == (lines ? tf.newLine : TextFormat::NewLine::LF));
            CHECKM(ins->getSeekPos() == 0, "detection does not consume anything");
            Owned<InStream> im = f.createImporter(std::move(ins));
            String back = im->readRemainingContents();
            CHECKM(back.numBytes == n && (n == 0 || sx_eq(back.bytes, text, n)), "the text comes back");
        }
        free(text);
    }
    sx_check_leaks();
    sx_reach("end");
}
// Any bytes at all, with any format guessed or imposed: nothing is read out of bounds, nothing crashes, and the
// chunking of the file makes no difference.
ENTRY h_import_any() {
    sx_mark_heap();
    {
        u32 n = (u32) sx_pick(0, sx_param("N", 3), "n");
        SxBuf b(n, "b");
        String r[2];
        TextFormat f[2];
        bool detect = sx_pick(0, 1, "detect");
        TextFormat tf;
        if (!detect) tf = pickFormat();
        for (u32 i = 0; i < 2; i++) {
            ChunkInPipe src{b.p, n, i ? 1u : 0u, 0};
            Owned<InStream> ins = Owned<InStream>::create(borrow((InPipe*) &src), 7u);
            f[i] = detect ? TextFormat::autodetect(ins) : tf;
            Owned<InStream> im = f[i].createImporter(std::move(ins));
            r[i] = im->readRemainingContents();
        }
        CHECK(f[0] == f[1]);
        CHECK(same(r[0], r[1]));
        for (u32 i = 0; i < r[0].numBytes; i++) CHECK(r[0].bytes[i] != '\r');
    }
    sx_check_leaks();
    sx_reach("end");
}
