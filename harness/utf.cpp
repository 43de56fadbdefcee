// C01: Unicode encodings.
#include "sx.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/string/TextEncoding.h>
using namespace ply;
using St = DecodeResult::Status;

static bool cont(u8 b) { return (b & 0xc0) == 0x80; }

// What a UTF-8 reader must report for these bytes (n > 0). Over-long forms and surrogates are accepted as valid.
static void specUTF8(const u8* b, u32 n, St& st, u32& len, u32& point, bool& either) {
    u8 f = b[0];
    either = false;
    u32 need = f < 0x80 ? 1 : f < 0xc0 ? 0 : f < 0xe0 ? 2 : f < 0xf0 ? 3 : f < 0xf8 ? 4 : 0;
    len = 1;
    point = f;
    if (need == 1) { st = St::Valid; return; }
    if (need == 0) { st = St::Invalid; return; }
    bool good = true;
    for (u32 i = 1; i < need && i < n; i++)
        if (!cont(b[i])) good = false;
    if (n < need) {
        st = St::Truncated;
        either = !good; // may already be reported invalid
        return;
    }
    if (!good) { st = St::Invalid; return; }
    u32 v = need == 2 ? f & 0x1f : need == 3 ? f & 0xf : f & 7;
    for (u32 i = 1; i < need; i++) v = (v << 6) | (b[i] & 0x3f);
    st = St::Valid; len = need; point = v;
}

static void checkUTF8(StringView v, DecodeResult r) {
    if (v.numBytes == 0) {
        CHECK(r.numBytes == 0 && r.point < 0 && r.status == St::Truncated);
        return;
    }
    St st; u32 len, pt; bool either;
    specUTF8((const u8*) v.bytes, v.numBytes, st, len, pt, either);
    CHECK(r.point >= 0);
    CHECK(r.numBytes == len);
    CHECK((u32) r.point == pt);
    CHECK(r.status == st || (either && r.status == St::Invalid));
}

ENTRY h_utf8_any() {
    u32 n = sx_pick(0, sx_param("N", 5), "n");
    SxBuf b(n, "b");
    StringView v{b.p, n};
    checkUTF8(v, UTF8::decodePoint(v));
    checkUTF8(v, TextEncoding::get<UTF8>()->decodePoint(v));
    u32 back = UTF8::backNumBytes(v);
    if (n == 0) {
        CHECK(back == 0);
    } else {
        // the longest well-formed sequence of 2..4 bytes that ends the text, else one byte
        u32 want = 1;
        const u8* t = (const u8*) b.p + n;
        if (n >= 2 && cont(t[-1]) && t[-2] >= 0xc0 && t[-2] < 0xe0) want = 2;
        if (n >= 3 && cont(t[-1]) && cont(t[-2]) && t[-3] >= 0xe0 && t[-3] < 0xf0) want = 3;
        if (n >= 4 && cont(t[-1]) && cont(t[-2]) && cont(t[-3]) && t[-4] >= 0xf0 && t[-4] < 0xf8) want = 4;
        CHECK(back == want);
    }
    sx_reach("end");
}

template <class Enc>
static void roundTrip(u32 point, u32 maxLen, const TextEncoding* te) {
    u32 len = Enc::numBytes(point);
    CHECK(len >= 1 && len <= maxLen);
    len = (u32) sx_concrete(len);
    char* buf = (char*) malloc(len); // exactly as large as promised
    u32 w = Enc::encodePoint({buf, len}, point);
    CHECK(w == len);
    char buf2[8];
    memset(buf2, 0x5a, 8);
    CHECK(te->encodePoint({buf2, 8}, point) == len);
    CHECK(sx_eq(buf, buf2, len));
    for (u32 i = len; i < 8; i++) CHECK(buf2[i] == 0x5a);
    for (u32 extra = 0; extra <= 1; extra++) {
        // followed by nothing or by other text: same answer
        char* b2 = (char*) malloc(len + 3 * extra);
        memcpy(b2, buf, len);
        if (extra) sx_bytes(b2 + len, 3, "after");
        DecodeResult r = Enc::decodePoint({b2, len + 3 * extra});
        CHECK(r.status == St::Valid && r.numBytes == len && (u32) r.point == point);
        r = te->decodePoint({b2, len + 3 * extra});
        CHECK(r.status == St::Valid && r.numBytes == len && (u32) r.point == point);
        free(b2);
    }
    // stepping back over it, with other text before it
    CHECK(Enc::backNumBytes({buf, len}) == len);
    // every proper prefix is truncated
    for (u32 k = te->unitSize; k < len; k += te->unitSize) {
        char* p = (char*) malloc(k);
        memcpy(p, buf, k);
        CHECK(Enc::decodePoint({p, k}).status == St::Truncated);
        free(p);
    }
    free(buf);
}

ENTRY h_utf8_points() {
    u32 point = (u32) sx_var(32, "point");
    ASSUME(point <= 0x10ffff);
    roundTrip<UTF8>(point, 4, TextEncoding::get<UTF8>());
    // the bytes are the ones the standard says
    u8 b[4];
    u32 n = (u32) sx_concrete(UTF8::encodePoint({(char*) b, 4}, point));
    if (n == 1) { CHECK(point < 0x80 && b[0] == point); }
    if (n == 2) { CHECK(point >= 0x80 && point < 0x800 && b[0] == (0xc0 | (point >> 6)) && b[1] == (0x80 | (point & 0x3f))); }
    if (n == 3) { CHECK(point >= 0x800 && point < 0x10000 && b[0] == (0xe0 | (point >> 12)) && b[1] == (0x80 | ((point >> 6) & 0x3f)) && b[2] == (0x80 | (point & 0x3f))); }
    if (n == 4) { CHECK(point >= 0x10000 && b[0] == (0xf0 | (point >> 18)) && b[1] == (0x80 | ((point >> 12) & 0x3f)) && b[2] == (0x80 | ((point >> 6) & 0x3f)) && b[3] == (0x80 | (point & 0x3f))); }
    sx_reach("end");
}

// Two characters in a row: forward and backward traversal visit the same boundaries.
ENTRY h_utf8_two() {
    u32 p = (u32) sx_var(32, "p"), q = (u32) sx_var(32, "q");
    ASSUME(p <= 0x10ffff && q <= 0x10ffff);
    char buf[8];
    u32 n1 = (u32) sx_concrete(UTF8::encodePoint({buf, 8}, p));
    u32 n2 = (u32) sx_concrete(UTF8::encodePoint({buf + n1, 8 - n1}, q));
    StringView v{buf, n1 + n2};
    DecodeResult r1 = UTF8::decodePoint(v);
    CHECK((u32) r1.point == p && r1.numBytes == n1);
    DecodeResult r2 = UTF8::decodePoint({buf + n1, n2});
    CHECK((u32) r2.point == q && r2.numBytes == n2);
    CHECK(UTF8::backNumBytes(v) == n2);
    CHECK(UTF8::backNumBytes({buf, n1}) == n1);
    sx_reach("end");
}

template <class Enc, bool BE>
static void utf16any() {
    u32 n = sx_pick(0, sx_param("N", 6), "n");
    SxBuf b(n, "b");
    StringView v{b.p, n};
    auto unit = [&](u32 i) -> u32 { u8 x = b.p[i], y = b.p[i + 1]; return BE ? (x << 8) | y : (y << 8) | x; };
    DecodeResult rs[2] = {Enc::decodePoint(v), TextEncoding::get<Enc>()->decodePoint(v)};
    for (auto& r : rs) {
        if (n < 2) {
            CHECK(r.numBytes == 0 && r.point < 0 && r.status == St::Truncated);
            continue;
        }
        u32 f = unit(0);
        bool hi = f >= 0xd800 && f < 0xdc00, lo = f >= 0xdc00 && f < 0xe000;
        if (!hi && !lo) {
            CHECK(r.status == St::Valid && r.numBytes == 2 && (u32) r.point == f);
        } else if (hi && n < 4) {
            CHECK(r.status == St::Truncated && r.numBytes == 2 && (u32) r.point == f);
        } else if (hi && unit(2) >= 0xdc00 && unit(2) < 0xe000) {
            CHECK(r.status == St::Valid && r.numBytes == 4 && (u32) r.point == 0x10000 + (((f & 0x3ff) << 10) | (unit(2) & 0x3ff)));
        } else {
            CHECK(r.status == St::Invalid && r.numBytes == 2 && (u32) r.point == f);
        }
    }
    u32 back = Enc::backNumBytes(v);
    if (n < 2) {
        CHECK(back == 0);
    } else if (n >= 4 && unit(n - 4) >= 0xd800 && unit(n - 4) < 0xdc00 && unit(n - 2) >= 0xdc00 && unit(n - 2) < 0xe000) {
        CHECK(back == 4);
    } else {
        CHECK(back == 2);
    }
    sx_reach("end");
}
ENTRY h_utf16le_any() { utf16any<UTF16_LE, false>(); }
ENTRY h_utf16be_any() { utf16any<UTF16_BE, true>(); }

ENTRY h_utf16_points() {
    u32 point = (u32) sx_var(32, "point");
    ASSUME(point <= 0x10ffff && !(point >= 0xd800 && point < 0xe000));
    roundTrip<UTF16_LE>(point, 4, TextEncoding::get<UTF16_LE>());
    roundTrip<UTF16_BE>(point, 4, TextEncoding::get<UTF16_BE>());
    u8 l[4] = {0}, b[4] = {0};
    u32 n = (u32) sx_concrete(UTF16_LE::encodePoint({(char*) l, 4}, point));
    CHECK(UTF16_BE::encodePoint({(char*) b, 4}, point) == n);
    for (u32 i = 0; i < n; i += 2) CHECK(l[i] == b[i + 1] && l[i + 1] == b[i]);
    if (n == 2) CHECK(point < 0x10000 && (((u32) b[0] << 8) | b[1]) == point);
    else CHECK((((u32) b[0] << 8) | b[1]) == 0xd800 + ((point - 0x10000) >> 10) && (((u32) b[2] << 8) | b[3]) == 0xdc00 + ((point - 0x10000) & 0x3ff));
    sx_reach("end");
}

ENTRY h_bytes() {
    u32 point = (u32) sx_var(32, "point");
    char buf[2] = {0x11, 0x22};
    CHECK(Enc_Bytes::encodePoint({buf, 1}, point) == 1 && buf[1] == 0x22);
    if (point < 256) {
        DecodeResult r = Enc_Bytes::decodePoint({buf, 1});
        CHECK(r.status == St::Valid && r.numBytes == 1 && (u32) r.point == point);
        r = TextEncoding::get<Enc_Bytes>()->decodePoint({buf, 2});
        CHECK(r.status == St::Valid && r.numBytes == 1 && (u32) r.point == point);
    }
    CHECK(Enc_Bytes::backNumBytes({buf, 1}) == 1 && Enc_Bytes::backNumBytes({buf, 0}) == 0);
    CHECK(Enc_Bytes::decodePoint({buf, 0}).numBytes == 0);
    sx_reach("end");
}
