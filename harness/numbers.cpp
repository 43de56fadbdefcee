// C05: integers to text and back.
#include "pipes.h"
using namespace ply;
using namespace sxp;
typedef unsigned __int128 u128_;

// Independent of the code's table; one lookup so that it does not split paths.
struct DigitVals {
    u8 v[256];
    DigitVals() {
        for (u32 c = 0; c < 256; c++) v[c] = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 255;
    }
};
static DigitVals dv;
static u32 digitVal(u8 c) { return dv.v[c]; }
static const u32 RAD[] = {10, 16, 2, 36, 7, 8, 3, 35, 11, 20, 29, 33};
static u32 pickRadix() { // RADS=0: all of them
    u32 k = (u32) sx_param("RADS", 4);
    return k ? RAD[sx_pick(0, k - 1, "radix")] : (u32) sx_pick(2, 36, "radix");
}

// The reference for parsing a T at the start of a text: how many bytes are the number, and whether it is good.
template <typename T>
struct Ref {
    bool ok = false;
    T value = 0;
    u32 used = 0;
    Ref(const char* p, u32 n, u32 radix) {
        bool sgn = std::is_signed<T>::value, neg = false;
        u32 i = 0;
        if (sgn && n && p[0] == '-') { neg = true; i++; }
        u128_ v = 0;
        u32 digits = 0;
        const u128_ cap = ((u128_) 1) << 100;
        for (; i < n; i++) {
            u32 d = digitVal((u8) p[i]);
            if (d >= radix) break;
            v = v * radix + d;
            if (v > cap) v = cap;
            digits++;
        }
        used = i;
        u32 bits = sizeof(T) * 8;
        u128_ lim = sgn ? (((u128_) 1) << (bits - 1)) - (neg ? 0 : 1) : (((u128_) 1) << bits) - 1;
        ok = digits && v <= lim;
        value = neg ? (T) (0 - (u64) v) : (T) (u64) v;
    }
};

template <typename T>
static void checkText(const char* p, u32 n, u32 radix) {
    Ref<T> ref{p, n, radix};
    {
        ViewInStream ins{StringView{p, n}};
        T v = ins.parse<T>(fmt::Radix{radix});
        CHECKM(ins.anyParseError() == !ref.ok, "a number is accepted exactly if it fits");
        if (ref.ok) CHECKM(v == ref.value, "the value is exact");
        CHECKM((u32) (ins.curByte - p) == ref.used, "nothing beyond the number is consumed");
    }
}

// Every text up to N bytes.
template <typename T>
static void anyText() {
    u32 n = (u32) sx_pick(0, sx_param("N", 4), "n");
    u32 radix = pickRadix();
    SxBuf b(n, "b");
    checkText<T>(b.p, n, radix);
    sx_reach("end");
}
ENTRY h_parse_u8() { anyText<u8>(); }
ENTRY h_parse_s8() { anyText<s8>(); }
ENTRY h_parse_u16() { anyText<u16>(); }
ENTRY h_parse_s16() { anyText<s16>(); }
ENTRY h_parse_u64() { anyText<u64>(); }
ENTRY h_parse_s64() { anyText<s64>(); }

static u32 toText(char* p, u128_ v, u32 radix, bool cap = false) {
    char tmp[80];
    u32 k = 0;
    do { u32 d = (u32) (v % radix); tmp[k++] = d < 10 ? '0' + d : (cap ? 'A' : 'a') + d - 10; v /= radix; } while (v);
    for (u32 i = 0; i < k; i++) p[i] = tmp[k - 1 - i];
    return k;
}
// Texts whose last K digits (and one further byte) are symbolic, around the limits of the type in any radix.
template <typename T>
static void limitText() {
    u32 radix = pickRadix();
    u32 bits = sizeof(T) * 8;
    bool sgn = std::is_signed<T>::value;
    char p[96];
    u32 n = 0;
    bool neg = sgn && sx_pick(0, 1, "neg");
    if (neg) p[n++] = '-';
    u32 z = (u32) sx_pick(0, 1, "zero");
    if (z) p[n++] = '0';
    u32 d0 = n;
    n += toText(p + n, sgn ? ((u128_) 1) << (bits - 1) : (((u128_) 1) << bits), radix);
    u32 K = (u32) sx_param("K", 2);
    SxBuf s(K + 1, "tail");
    u32 drop = (u32) sx_pick(0, 1, "drop");
    ASSUME(n - d0 >= K + drop);
    n -= drop;
    memcpy(p + n - K, s.p, K + 1);
    for (u32 i = 0; i < K; i++) ASSUME(digitVal((u8) s.p[i]) < radix);
    n++;
    checkText<T>(p, n, radix);
    sx_reach("end");
}
ENTRY h_limit_u8() { limitText<u8>(); }
ENTRY h_limit_s8() { limitText<s8>(); }
ENTRY h_limit_u16() { limitText<u16>(); }
ENTRY h_limit_s16() { limitText<s16>(); }
ENTRY h_limit_u32() { limitText<u32>(); }
ENTRY h_limit_s32() { limitText<s32>(); }
ENTRY h_limit_u64() { limitText<u64>(); }
ENTRY h_limit_s64() { limitText<s64>(); }

template <typename T>
static void checkPrint(T v, u32 radix, bool cap) {
    char want[72];
    u32 n = 0;
    bool neg = std::is_signed<T>::value && (s64) v < 0;
    u64 mag = neg ? 0 - (u64) (s64) v : (u64) v;
    if (neg) n++;
    MemOutStream out;
    out << fmt::WithRadix{v, radix, cap};
    String s = out.moveToString();
    // the text denotes the value, has no leading zero, and uses digits below the radix in the case asked for
    CHECK(s.numBytes > n && s.numBytes <= 65);
    if (neg) CHECK(s[0] == '-');
    u32 maxDigits = toText(want, ((u128_) 1 << 64) - 1, radix);
    CHECK(s.numBytes - n <= maxDigits);
    u64 acc = 0;
    u128_ wide = 0;
    bool digits = true;
    for (u32 i = n; i < s.numBytes; i++) {
        u8 c = (u8) s.bytes[i];
        u32 d = digitVal(c);
        digits &= (d < radix) & ((c <= '9') | (cap ? c <= 'Z' : c >= 'a'));
        if (s.numBytes - n == maxDigits) wide = wide * radix + d;
        else acc = acc * radix + d;
    }
    CHECK(digits);
    if (s.numBytes - n == maxDigits) CHECK(wide == mag);
    else CHECK(acc == mag);
    if (s.numBytes > n + 1) CHECK(s.bytes[n] != '0');
    // and it parses back
    ViewInStream ins{s};
    T back = ins.parse<T>(fmt::Radix{radix});
    CHECK(!ins.anyParseError());
    CHECK(back == v);
    CHECK(ins.numBytesAvailable() == 0);
    if (radix == 10) {
        MemOutStream o2;
        o2 << v;
        String t = o2.moveToString();
        CHECK(same(s, t));
    }
    if (radix == 16) {
        MemOutStream o2;
        o2 << fmt::Hex{v, cap};
        String t = o2.moveToString();
        CHECK(same(s, t));
    }
}
ENTRY h_print_16() {
    u32 radix = pickRadix();
    bool cap = radix > 10 && sx_pick(0, 1, "cap");
    if (sx_pick(0, 1, "signed")) checkPrint<s16>((s16) sx_var(16, "v"), radix, cap);
    else checkPrint<u16>((u16) sx_var(16, "v"), radix, cap);
    sx_reach("end");
}
// 64-bit values in windows of 2^W around powers of two and of the radix and both extremes.
ENTRY h_print_64() {
    u32 radix = pickRadix();
    u32 W = (u32) sx_param("W", 6);
    u64 off = sx_range(0, (1ull << W) - 1, "off");
    u64 base = 0;
    switch (sx_pick(0, 3, "where")) {
        case 0: base = 0 - (1ull << (W - 1)); break;      // 0 and 2^64
        case 1: base = (1ull << 63) - (1ull << (W - 1)); break; // most negative and largest signed
        case 2: base = (1ull << 32) - (1ull << (W - 1)); break;
        case 3: { // the largest power of the radix
            u64 p = 1;
            while (p <= ~0ull / radix) p *= radix;
            base = p - (1ull << (W - 1));
            break;
        }
    }
    if (sx_pick(0, 1, "signed")) checkPrint<s64>((s64) (base + off), radix, false);
    else checkPrint<u64>(base + off, radix, false);
    sx_reach("end");
}
// Any 64-bit value in the radices that are powers of two.
ENTRY h_print_64_pow2() {
    u32 radix = 1u << sx_pick(1, 5, "lg");
    checkPrint<u64>(sx_var(64, "v"), radix, false);
    sx_reach("end");
}

static bool white(u8 c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
// A whole string as a number, trimmed, with a default.
template <typename T>
static void wholeText() {
    u32 n = (u32) sx_pick(0, sx_param("N", 4), "n");
    SxBuf b(n, "b");
    T def = (T) sx_var(sizeof(T) * 8, "default");
    T v = StringView{b.p, n}.to<T>(def);
    u32 i = 0, e = n;
    while (i < e && white(b.p[i])) i++;
    while (e > i && white(b.p[e - 1])) e--;
    Ref<T> ref{b.p + i, e - i, 10};
    if (ref.ok && ref.used == e - i) CHECK(v == ref.value);
    else CHECK(v == def);
    sx_reach("end");
}
ENTRY h_to_u8() { wholeText<u8>(); }
ENTRY h_to_s32() { wholeText<s32>(); }

// Numbers arriving through a pipe in pieces parse as they do from memory.
ENTRY h_parse_chunks() {
    sx_mark_heap();
    {
        u32 n = (u32) sx_pick(0, sx_param("N", 3), "n");
        SxBuf b(n + 1, "b");
        Ref<s16> ref{b.p, n, 10};
        ChunkInPipe pipe{b.p, n, 2, 3};
        InStream ins{borrow((InPipe*) &pipe), 7};
        s16 v = ins.parse<s16>();
        CHECK(ins.anyParseError() == !ref.ok);
        if (ref.ok) CHECK(v == ref.value);
        CHECK(ins.getSeekPos() == ref.used);
    }
    sx_check_leaks();
    sx_reach("end");
}
