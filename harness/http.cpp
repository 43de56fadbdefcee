// C20: the web server over a model of the sockets.
// SX: srcdef Server.cpp -include socketredirect.h
// SX: srcdef Socket_POSIX.cpp -include socketredirect.h
// SX: srcdef Pipe_FD.cpp -Dread=sxk_read -Dwrite=sxk_write -Dclose=sxk_close
#include "sx.h"
#include <ply-runtime/Base.h>
#include <web-common/Server.h>
#include <web-common/URLEscape.h>
#include <errno.h>
#include <netinet/in.h>
using namespace ply;

static const u32 Cap = 40000;
static StringView in; static u32 inPos, maxRead, freeReads; // what the client sends
static char* out; static u32 nOut, failAt, nWrites; static bool failed; // what it receives
static u32 conns, failAccepts, port; static bool connOpen, listenOpen;
static void atAccept();
static void finished();
extern "C" {
int sxk_socket(int, int, int) { listenOpen = true; return 3; }
int sxk_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int sxk_bind(int s, const void* a, socklen_t n) { CHECK(s == 3 && n >= sizeof(sockaddr_in)); port = __builtin_bswap16(((const sockaddr_in*) a)->sin_port); return 0; }
int sxk_listen(int s, int) { CHECK(s == 3); return 0; }
int sxk_accept(int s, struct sockaddr* a, socklen_t* n) {
    CHECK(s == 3 && *n >= sizeof(sockaddr_in));
    if (failAccepts) { failAccepts--; errno = ECONNABORTED; return -1; }
    if (conns == 1) { finished(); sx_stop(); }
    conns++;
    atAccept();
    memset(a, 0, sizeof(sockaddr_in));
    ((sockaddr_in*) a)->sin_family = AF_INET;
    ((sockaddr_in*) a)->sin_port = __builtin_bswap16(0x1234);
    ((sockaddr_in*) a)->sin_addr.s_addr = 0x0100007f;
    *n = sizeof(sockaddr_in);
    connOpen = true;
    return 5;
}
int sxk_connect(int, const void*, socklen_t) { return -1; }
ssize_t sxk_read(int fd, void* p, size_t n) {
    CHECK(fd == 5 && connOpen && n > 0);
    u32 k = (u32) min<size_t>(n, in.numBytes - inPos);
    if (freeReads && k > 1) { freeReads--; k = (u32) sx_pick(1, k, "read"); }
    memcpy(p, in.bytes + inPos, k);
    inPos += k;
    return k;
}
ssize_t sxk_write(int fd, const void* p, size_t n) {
    CHECK(fd == 5 && connOpen);
    if (nWrites++ == failAt) { failed = true; errno = EPIPE; return -1; }
    if (failed) { errno = EPIPE; return -1; }
    CHECK(nOut + n <= Cap);
    memcpy(out + nOut, p, n);
    nOut += (u32) n;
    return (ssize_t) n;
}
int sxk_close(int fd) {
    if (fd == 3) { CHECK(listenOpen); listenOpen = false; }
    else { CHECKM(fd == 5 && connOpen, "the connection is closed once"); connOpen = false; }
    return 0;
}
int sxk_thread(void* (*f)(void*), void* p) { f(p); return 0; }
}
static bool same(StringView a, StringView b) { return a.numBytes == b.numBytes && (a.numBytes == 0 || sx_eq(a.bytes, b.bytes, a.numBytes)); }
static bool white(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static StringView rtrimmed(StringView v) { while (v.numBytes && white(v.bytes[v.numBytes - 1])) v.numBytes--; return v; }
static StringView trimmed(StringView v) { v = rtrimmed(v); while (v.numBytes && white(*v.bytes)) v.offsetHead(1); return v; }
// Reference: what the client's bytes ask for.
struct Ref {
    enum What { Closed, Bad, Good };
    u32 at = 0;
    StringView token[3], name[4], value[4]; u32 nFields;
    What next() {
        StringView lines[8]; u32 n = 0;
        for (;;) {
            if (at == in.numBytes) return n ? Bad : Closed;
            u32 from = at; bool blank = true;
            while (at < in.numBytes) { char c = in.bytes[at++]; if (!white(c)) blank = false; if (c == '\n') break; }
            if (blank) break;
            CHECK(n < 8);
            lines[n++] = {in.bytes + from, at - from};
        }
        if (n == 0) return Closed;
        StringView s = rtrimmed(lines[0]);
        u32 t = 0, from = 0;
        for (u32 i = 0; i <= s.numBytes; i++)
            if (i == s.numBytes || s.bytes[i] == ' ') { if (from < i) { if (t < 3) token[t] = {s.bytes + from, i - from}; t++; } from = i + 1; }
        if (t != 3) return Bad;
        nFields = 0;
        for (u32 k = 1; k < n; k++) {
            if (white(lines[k].bytes[0])) continue; // folded lines are skipped
            u32 c = 0;
            while (c < lines[k].numBytes && lines[k].bytes[c] != ':') c++;
            if (c == lines[k].numBytes) return Bad;
            CHECK(nFields < 4);
            name[nFields] = rtrimmed({lines[k].bytes, c});
            value[nFields++] = trimmed({lines[k].bytes + c + 1, lines[k].numBytes - c - 1});
        }
        return Good;
    }
};
static Ref ref;
static const u32 MaxResp = 4;
static const char* codes[] = {"200", "400", "404", "500"};
struct Expect { u32 code; bool chunked, open; } expect[MaxResp];
static u32 nExpect; static bool over;
static u32 behaviour; static StringView body; static u32 cut;
static void want(u32 code, bool chunked, bool open = false) { CHECK(nExpect < MaxResp); expect[nExpect++] = {code, chunked, open}; }
static void handler(void* hidden, StringView path, web::ResponseIface* iface) {
    CHECK(hidden == &ref);
    CHECKM(!over && ref.next() == Ref::Good, "the handler gets the well-formed requests");
    const web::Request& r = iface->request;
    CHECKM(same(path, ref.token[1]) && same(r.startLine.method, ref.token[0]) && same(r.startLine.uri, ref.token[1]) && same(r.startLine.httpVersion, ref.token[2]), "the start line is passed on");
    CHECKM(r.headerFields.numItems() == ref.nFields, "every header field is passed on");
    for (u32 i = 0; i < ref.nFields; i++) CHECK(same(r.headerFields[i].name, ref.name[i]) && same(r.headerFields[i].value, ref.value[i]));
    CHECK(r.clientPort == 0x1234 && r.clientAddr.version() == IPAddress::V4 && r.clientAddr.netOrdered[3] == 0x0100007f);
    bool chunked = same(ref.token[2], StringView{"HTTP/1.1"});
    if (!chunked) over = true;
    if (behaviour == 1) { want(2, chunked); iface->respondGeneric(web::ResponseCode::NotFound); return; }
    if (behaviour == 2) { want(3, chunked); return; }
    want(0, chunked, behaviour == 3);
    OutStream* o = iface->beginResponseHeader(web::ResponseCode::OK);
    *o << "X: y\r\n\r\n";
    if (behaviour == 3) { over = true; return; } // forgets to say where the header ends
    iface->endResponseHeader();
    o->write(body.left(cut));
    o->write(body.subStr(cut));
}
static void atAccept() { sx_mark_heap(); }
// Reference: what the client understands.
static u32 outAt;
static StringView line() {
    u32 from = outAt;
    while (outAt < nOut && out[outAt] != '\n') outAt++;
    CHECKM(outAt < nOut && outAt > from && out[outAt - 1] == '\r', "lines end in CR LF");
    outAt++;
    return {out + from, outAt - 2 - from};
}
static void checkBody(const Expect& e, const char* p, u32 n) {
    if (e.code == 0) CHECKM(n == body.numBytes && same({p, n}, body), "the client gets exactly what the handler wrote");
    else CHECK(n > 12 && same({p, 7}, "<html>\n") && same({p + n - 8, 8}, "</html>\n"));
}
static char* dechunked;
static void finished() {
    CHECKM(!connOpen, "the connection is closed");
    while (!over) { // what is left was not for the handler
        Ref::What w = ref.next();
        CHECKM(w != Ref::Good, "every well-formed request gets to the handler");
        if (w == Ref::Bad) want(1, false);
        over = true;
    }
    sx_check_leaks();
    if (!failed) {
        outAt = 0;
        for (u32 k = 0; k < nExpect; k++) {
            const Expect& e = expect[k];
            StringView s = line();
            CHECKM(s.numBytes > 13 && same(s.left(9), "HTTP/1.1 ") && same({s.bytes + 9, 3}, {codes[e.code], 3}) && s.bytes[12] == ' ', "the status is the one expected");
            if (e.open) break;
            bool chunked = false, own = false;
            for (;;) {
                s = line();
                if (s.numBytes == 0) break;
                if (s.numBytes == 26 && same(s, "Transfer-Encoding: chunked")) chunked = true;
                if (s.numBytes == 4 && same(s, "X: y")) own = true;
            }
            CHECKM(chunked == e.chunked, "the body is announced as it is sent");
            CHECKM(own == (e.code == 0), "the handler's header is passed on");
            if (!chunked) {
                CHECK(k + 1 == nExpect);
                checkBody(e, out + outAt, nOut - outAt);
                outAt = nOut;
                break;
            }
            u32 n = 0;
            for (;;) {
                s = line();
                u32 len = 0;
                CHECK(s.numBytes > 0 && s.numBytes < 8);
                for (u32 i = 0; i < s.numBytes; i++) {
                    char c = s.bytes[i];
                    CHECKM((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'), "the length of a chunk is hexadecimal");
                    len = len * 16 + (u32) (c <= '9' ? c - '0' : (c & 0x5f) - 'A' + 10);
                }
                CHECKM(len <= nOut - outAt, "a chunk is as long as announced");
                memcpy(dechunked + n, out + outAt, len);
                n += len; outAt += len;
                CHECK(line().numBytes == 0);
                if (len == 0) break;
            }
            checkBody(e, dechunked, n);
        }
        CHECKM(nExpect && expect[nExpect - 1].open ? true : outAt == nOut, "nothing but the responses is sent");
    }
    CHECK(port == 8080);
    sx_reach("end");
}
static void serve(StringView bytes) {
    in = bytes; inPos = 0; conns = 0; nOut = 0; nWrites = 0; failed = false; nExpect = 0; over = false;
    out = (char*) malloc(Cap); dechunked = (char*) malloc(Cap);
    ref = Ref{};
    web::runServer(8080, web::RequestHandler{handler, (void*) &ref});
    CHECKM(false, "the server goes on serving");
}
static void defaults() { behaviour = 0; body = "hello"; cut = 2; failAt = ~0u; freeReads = 0; failAccepts = 0; }

// Any start line and any header line.
ENTRY h_http_any() {
    defaults();
    u32 where = (u32) sx_pick(0, 2, "where");
    u32 n = (u32) sx_pick(0, sx_param("N", 5), "n");
    SxBuf b(n, "b");
    const char* pre[] = {"", "G / HTTP/1.1\r\n", "G / HTTP/1."};
    const char* post[] = {"\r\n\r\n", "\r\nx: y\r\n\r\n", "\r\n\r\nG /2 H\n\n"};
    u32 p = (u32) strlen(pre[where]), q = (u32) strlen(post[where]);
    char* text = (char*) malloc(p + n + q);
    memcpy(text, pre[where], p); memcpy(text + p, b.p, n); memcpy(text + p + n, post[where], q);
    serve({text, p + n + q});
}
// Sequences of requests, well-formed and not, that can end anywhere.
static const char* tokens[] = {"G /a HTTP/1.1\r\n", "\r\n", "a: b\r\n", "G /b HTTP/1.0\n", "\n", "x\r\n", " f: g\n", "c:d", "G  HTTP/1.1\n", ":\r\n", "H /c\r\n", " ", "e : \t\n"};
ENTRY h_http_tokens() {
    defaults();
    u32 n = (u32) sx_pick(0, sx_param("N", 4), "n");
    behaviour = (u32) sx_pick(0, 3, "behaviour");
    char* text = (char*) malloc(200); u32 m = 0;
    for (u32 i = 0; i < n; i++) {
        const char* t = tokens[sx_pick(0, sx_param("KINDS", 9), "t")];
        memcpy(text + m, t, strlen(t)); m += (u32) strlen(t);
    }
    serve({text, m});
}
// Bodies of any content around the sizes of the buffers.
ENTRY h_http_body() {
    defaults();
    static const u32 sizes[] = {0, 1, 9, 16, 4094, 4095, 4096, 4097, 8192, 9000};
    SxBuf a(sizes[sx_pick(0, 9, "size")], "a");
    body = {a.p, a.n};
    u32 c = (u32) sx_pick(0, 3, "cut");
    cut = c == 0 ? 0 : c == 1 ? min<u32>(a.n, 1) : c == 2 ? a.n / 2 : a.n;
    bool twice = sx_pick(0, 1, "twice");
    serve(twice ? StringView{"G /a HTTP/1.1\r\n\r\nG /b HTTP/1.1\r\n\r\n"} : sx_pick(0, 1, "old") ? StringView{"G / HTTP/1.0\r\n\r\n"} : StringView{"G / HTTP/1.1\r\n\r\n"});
}
// The bytes arrive in any pieces; the client goes away at any time.
ENTRY h_http_faults() {
    defaults();
    freeReads = (u32) sx_param("READS", 2);
    failAccepts = (u32) sx_pick(0, 1, "aborted");
    u32 f = (u32) sx_pick(0, 6, "fail");
    failAt = f == 6 ? ~0u : f;
    behaviour = (u32) sx_pick(0, 3, "behaviour");
    SxBuf a((u32) (sx_pick(0, 1, "long") ? 9000 : 3), "a");
    body = {a.p, a.n};
    static const char* texts[] = {"G /a HTTP/1.1\r\na: b\r\n\r\nG /b HTTP/1.1\r\n\r\n", "G /a HTTP/1.0\r\n\r\n", "G\r\n\r\n"};
    serve(texts[sx_pick(0, 2, "text")]);
}
// fmt: percent-encoding loses nothing and yields nothing but unreserved characters.
ENTRY h_url_escape() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 3), "n"), "b");
        String s = String::format("{}", web::URLEscape{StringView{b.p, b.n}});
        u32 j = 0;
        auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
        for (u32 i = 0; i < b.n; i++) {
            CHECK(j < s.numBytes);
            char c = s.bytes[j++];
            if (c == '%') {
                CHECK(j + 2 <= s.numBytes);
                int h = hex(s.bytes[j]), l = hex(s.bytes[j + 1]);
                CHECKM(h >= 0 && l >= 0, "two hexadecimal digits follow a percent sign");
                c = (char) (h * 16 + l);
                j += 2;
            } else CHECKM((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~', "only unreserved characters stand for themselves");
            CHECKM(c == b.p[i], "decoding gives the original");
        }
        CHECK(j == s.numBytes);
    }
    sx_check_leaks();
    sx_reach("end");
}
