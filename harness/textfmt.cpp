// C10: quoting, escaping and scanning of text.
#include "sx.h"
#include "pipes.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/string/TextEncoding.h>
using namespace ply;

struct Bytes {
    u8 p[64];
    u32 n = 0;
    void put(u8 c) { if (n < 64) p[n] = c; n++; }
    void put(const char* s) { while (*s) put((u8) *s++); }
    bool is(StringView v) const { return v.numBytes == n && sx_eq((const char*) p, v.bytes, n); }
};

// No byte sequence that encodes an ASCII character in more than one byte.
static void noOverlong(const SxBuf& b) {
    for (u32 i = 0; i < b.n; i++) {
        u8 c = (u8) b.p[i], d = i + 1 < b.n ? (u8) b.p[i + 1] : 0xff, e = i + 2 < b.n ? (u8) b.p[i + 2] : 0xff;
        ASSUME(!((c == 0xc0) | (c == 0xc1) | ((c == 0xe0) & (d < 0x82)) | ((c == 0xf0) & (d == 0x80) & (e < 0x82))));
    }
}
// What is escaped is read back by QuotedString as the same bytes, and ends where the quotes do.
ENTRY h_escape_quote() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 4), "n"), "b");
        for (u32 i = 0; i < b.n; i++) {
            u8 c = (u8) b.p[i];
            ASSUME((c >= 32) | (c == '\t') | (c == '\r') | (c == '\n')); // QuotedString does not read hex escapes
        }
        noOverlong(b);
        u32 tail = (u32) sx_pick(0, 2, "tail");
        MemOutStream outs;
        outs << '"' << fmt::EscapedString{StringView{b.p, b.n}} << '"' << (tail == 0 ? StringView{""} : tail == 1 ? StringView{"x"} : StringView{" \""});
        String text = outs.moveToString();
        ViewInStream ins{text};
        String back = ins.parse(fmt::QuotedString{});
        CHECK(!ins.anyParseError());
        CHECK(back.numBytes == b.n && sx_eq(back.bytes, b.p, b.n));
        CHECK(ins.viewAvailable().numBytes == tail);
    }
    sx_check_leaks();
    sx_reach("end");
}
// What QuotedString reads from any text.
ENTRY h_quoted() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 5), "n"), "b");
        if (sx_param("TRIPLE", 0)) {
            for (u32 k = 0; k < b.n; k++) ASSUME(b.p[k] == '"' || (k >= 3 && (b.p[k] == 'a' || b.p[k] == '\\' || b.p[k] == '\n')));
        }
        bool single = sx_pick(0, 1, "single") != 0;
        Bytes want;
        int err = fmt::QuotedString::OK;
        u32 at = 0;
        bool open = b.n > 0 && (b.p[0] == '"' || (single && b.p[0] == '\''));
        if (b.n == 0) err = fmt::QuotedString::UnexpectedEndOfFile;
        else if (!open) err = fmt::QuotedString::NoOpeningQuote;
        else {
            char q = b.p[0];
            bool triple = b.n >= 3 && b.p[1] == q && b.p[2] == q;
            at = triple ? 3 : 1;
            for (;;) {
                if (at >= b.n) { err = fmt::QuotedString::UnexpectedEndOfFile; break; }
                char c = b.p[at];
                if (c == q) {
                    if (!triple) { at++; break; }
                    if (at + 2 < b.n && b.p[at + 1] == q && b.p[at + 2] == q) { at += 3; break; }
                    if (at + 1 >= b.n || (b.p[at + 1] == q && at + 2 >= b.n)) { err = fmt::QuotedString::UnexpectedEndOfFile; break; }
                    want.put((u8) c);
                    at++;
                } else if (c == '\n' || c == '\r') {
                    if (!triple) { err = fmt::QuotedString::UnexpectedEndOfLine; break; }
                    if (c == '\n') want.put('\n');
                    at++;
                } else if (c == '\\') {
                    if (at + 1 >= b.n) { err = fmt::QuotedString::UnexpectedEndOfFile; break; }
                    char d = b.p[at + 1];
                    if (d == '\r' || d == '\n') { err = fmt::QuotedString::UnexpectedEndOfLine; break; }
                    if (d == '\\' || d == '"' || d == '\'') want.put((u8) d);
                    else if (d == 'r') want.put('\r');
                    else if (d == 'n') want.put('\n');
                    else if (d == 't') want.put('\t');
                    else { err = fmt::QuotedString::BadEscapeSequence; break; }
                    at += 2;
                } else {
                    want.put((u8) c);
                    at++;
                }
            }
        }
        struct Errors { int first; InStream* from; } errors{fmt::QuotedString::OK, nullptr};
        int& got = errors.first;
        ViewInStream ins{StringView{b.p, b.n}};
        errors.from = &ins;
        fmt::QuotedString format;
        format.flags = single ? (u32) fmt::AllowSingleQuote : 0;
        format.errorCallback = {[](Errors* e, InStream* from, fmt::QuotedString::ErrorCode code) {
                                    CHECK(from == e->from);
                                    if (e->first == fmt::QuotedString::OK) e->first = code;
                                },
                                &errors};
        String r = ins.parse(format);
        CHECKM(got == err, "error");
        CHECK(ins.anyParseError() == (err != fmt::QuotedString::OK));
        if (err == fmt::QuotedString::OK) {
            CHECKM(want.is(r), "string");
            CHECKM(ins.viewAvailable().numBytes == b.n - at, "consumed");
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
// The same, when the text arrives in pieces.
ENTRY h_quoted_pieces() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(2, sx_param("N", 4), "n"), "b");
        ViewInStream vins{StringView{b.p, b.n}};
        String want = vins.parse(fmt::QuotedString{});
        sxp::ChunkInPipe pipe{b.p, b.n, 1, false};
        InStream ins{borrow((InPipe*) &pipe), 7};
        String got = ins.parse(fmt::QuotedString{});
        CHECK(ins.anyParseError() == vins.anyParseError());
        CHECK(got.numBytes == want.numBytes && sx_eq(got.bytes, want.bytes, got.numBytes));
        CHECK(ins.getSeekPos() == vins.getSeekPos());
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_xml() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 4), "n"), "b");
        noOverlong(b);
        MemOutStream outs;
        outs << fmt::XMLEscape{StringView{b.p, b.n}};
        String text = outs.moveToString();
        Bytes back;
        u32 i = 0;
        while (i < text.numBytes) {
            StringView rest = text.subStr(i);
            auto at = [&](const char* s, u32 n) { return rest.numBytes >= n && memcmp(rest.bytes, s, n) == 0; };
            char c = rest[0];
            CHECK(c != '<' && c != '>' && c != '"');
            if (c != '&') { back.put((u8) c); i++; }
            else if (at("&lt;", 4)) { back.put('<'); i += 4; }
            else if (at("&gt;", 4)) { back.put('>'); i += 4; }
            else if (at("&amp;", 5)) { back.put('&'); i += 5; }
            else if (at("&quot;", 6)) { back.put('"'); i += 6; }
            else { CHECKM(0, "not an entity"); break; }
        }
        CHECK(back.is({b.p, b.n}));
    }
    sx_check_leaks();
    sx_reach("end");
}
// A limit on the number of points cuts between points and appends an ellipsis.
ENTRY h_max_points() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 4), "n"), "b");
        u32 k = (u32) sx_pick(1, 3, "k");
        StringView v{b.p, b.n};
        u32 head = 0;
        for (u32 i = 0; i < k && head < v.numBytes; i++) head += UTF8::decodePoint(v.subStr(head)).numBytes;
        StringView tail = head < v.numBytes ? StringView{"..."} : StringView{""};
        auto same = [](StringView x, StringView y) { return x.numBytes == y.numBytes && sx_eq(x.bytes, y.bytes, x.numBytes); };
        MemOutStream a, a2, c, c2;
        a << fmt::EscapedString{v, k};
        a2 << fmt::EscapedString{v.left(head)} << tail;
        CHECK(same(a.moveToString(), a2.moveToString()));
        c << fmt::XMLEscape{v, k};
        c2 << fmt::XMLEscape{v.left(head)} << tail;
        CHECK(same(c.moveToString(), c2.moveToString()));
    }
    sx_check_leaks();
    sx_reach("end");
}
// The C runtime on Windows splits the command line back into the arguments it was made of.
ENTRY h_winarg() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 4), "n"), "b");
        for (u32 i = 0; i < b.n; i++) ASSUME(b.p[i] != 0);
        MemOutStream outs;
        outs << fmt::CmdLineArg_WinCrt{StringView{b.p, b.n}} << " x";
        String text = outs.moveToString();
        Bytes arg;
        bool quoted = false;
        u32 i = 0;
        while (i < text.numBytes) {
            char c = text[i];
            if (!quoted && (c == ' ' || c == '\t')) break;
            if (c == '\\') {
                u32 run = 0;
                while (i < text.numBytes && text[i] == '\\') { run++; i++; }
                if (i < text.numBytes && text[i] == '"') {
                    for (u32 k = 0; k < run / 2; k++) arg.put('\\');
                    if (run & 1) { arg.put('"'); i++; }
                } else
                    for (u32 k = 0; k < run; k++) arg.put('\\');
            } else if (c == '"') {
                i++;
                if (quoted && i < text.numBytes && text[i] == '"') { arg.put('"'); i++; }
                else quoted = !quoted;
            } else {
                arg.put((u8) c);
                i++;
            }
        }
        CHECKM(!quoted && i + 2 == text.numBytes, "argument does not end where it should");
        CHECKM(i > 0, "no argument");
        CHECKM(arg.is({b.p, b.n}), "argument");
    }
    sx_check_leaks();
    sx_reach("end");
}
static bool idStart(u8 c, u32 flags) {
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c >= 128 || ((flags & fmt::WithDollarSign) && c == '$') ||
           ((flags & fmt::WithDash) && c == '-');
}
ENTRY h_scan() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 4), "n"), "b");
        StringView v{b.p, b.n};
        u32 flags = (u32) sx_pick(0, 3, "flags");
        u32 e = 0;
        {
            while (e < b.n && (idStart((u8) b.p[e], flags) || (e > 0 && b.p[e] >= '0' && b.p[e] <= '9'))) e++;
            ViewInStream ins{v};
            StringView id = ins.readView<fmt::Identifier>(flags);
            CHECKM(id.bytes == b.p && id.numBytes == e, "identifier");
            CHECKM(ins.anyParseError() == (e == 0), "identifier error");
            CHECK(ins.getSeekPos() == e);
        }
        auto white = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; };
        {
            for (e = 0; e < b.n && white(b.p[e]);) e++;
            ViewInStream ins{v};
            CHECKM(ins.readView<fmt::Whitespace>().numBytes == e, "whitespace");
            CHECK(!ins.anyParseError());
        }
        {
            for (e = 0; e < b.n && !white(b.p[e]);) e++;
            ViewInStream ins{v};
            CHECKM(ins.readView<fmt::NonWhitespace>().numBytes == e, "non-whitespace");
            CHECK(!ins.anyParseError());
        }
        {
            char stop = (char) sx_var(8, "stop");
            for (e = 0; e < b.n && b.p[e] != stop;) e++;
            ViewInStream ins{v};
            CHECKM(ins.readView(fmt::Callback{[&](char c) { return c != stop; }}).numBytes == e, "callback");
        }
        {
            for (e = 0; e < b.n && b.p[e] != '\n';) e++;
            bool found = e < b.n;
            ViewInStream ins{v};
            StringView line = ins.readView<fmt::Line>();
            CHECKM(line.bytes == b.p && line.numBytes == e + found, "line");
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
// Scanning stops right after the first occurrence of the special text.
ENTRY h_special() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 5), "n"), "b"), s((u32) sx_pick(1, 3, "ns"), "s");
        for (u32 i = 1; i < s.n; i++) ASSUME(s.p[i] != s.p[0]);
        u32 e = b.n;
        bool found = false;
        for (u32 i = 0; i + s.n <= b.n && !found; i++)
            if (sx_eq(b.p + i, s.p, s.n)) { found = true; e = i + s.n; }
        ViewInStream ins{StringView{b.p, b.n}};
        CHECKM(fmt::scanUpToAndIncludingSpecial(&ins, {s.p, s.n}) == found, "found");
        CHECKM(ins.getSeekPos() == e, "where");
        CHECK(ins.anyParseError() == !found);
    }
    sx_check_leaks();
    sx_reach("end");
}
// Format strings: {} takes the next argument, {{ and }} are braces, everything else is itself.
ENTRY h_format() {
    sx_mark_heap();
    {
        SxBuf f((u32) sx_pick(0, sx_param("N", 5), "n"), "f"), a((u32) sx_pick(0, 2, "na"), "a");
        char c = (char) sx_var(8, "c");
        bool flag = (sx_var(8, "flag") & 1) != 0;
        Bytes want;
        u32 used = 0;
        for (u32 i = 0; i < f.n; i++) {
            if (f.p[i] == '{') {
                i++;
                ASSUME(i < f.n && (f.p[i] == '{' || f.p[i] == '}'));
                if (f.p[i] == '{') { want.put('{'); continue; }
                ASSUME(used < 3);
                if (used == 0) for (u32 k = 0; k < a.n; k++) want.put((u8) a.p[k]);
                if (used == 1) want.put((u8) c);
                if (used == 2) want.put(flag ? "true" : "false");
                used++;
            } else if (f.p[i] == '}') {
                i++;
                ASSUME(i < f.n && f.p[i] == '}');
                want.put('}');
            } else
                want.put((u8) f.p[i]);
        }
        StringView fv{f.p, f.n}, av{a.p, a.n};
        String got = used == 0 ? String::format(fv) : used == 1 ? String::format(fv, av) : used == 2 ? String::format(fv, String{av}, c) : String::format(fv, HybridString{av}, c, flag);
        CHECK(want.is(got));
    }
    sx_check_leaks();
    sx_reach("end");
}
