// C15, C16: the web servers' file handlers open nothing outside the directory they serve, and serve exactly what they open.
#pragma once
#include "pathref.h"
#include <ply-runtime/filesystem/FileSystem.h>
#include <web-common/FetchFromFileSystem.h>
#include <web-common/SourceCode.h>
#ifdef SX_DOCS
#include <ply-web-serve-docs/DocServer.h>
#endif
#include <errno.h>
#include <sys/stat.h>
// The kernel: one file, whatever its name, with some contents, and every name a directory or not.
static char opened[2][64]; static u32 nOpened, nFiles, pos; static bool exists, isDir; static SxBuf* content;
static void take(const char* p) {
    CHECK(nOpened < 2);
    u32 i = 0;
    for (; p[i]; i++) { CHECK(i < 63); opened[nOpened][i] = p[i]; }
    opened[nOpened][i] = 0;
    nOpened++;
}
extern "C" int sxk_open(const char* p, int, ...) { take(p); if (!exists) { errno = ENOENT; return -1; } nFiles++; pos = 0; return 7; }
extern "C" int sxk_stat(const char* p, void* b) { take(p); if (!isDir) { errno = ENOENT; return -1; } ((struct stat*) b)->st_mode = S_IFDIR; return 0; }
extern "C" int sxk_fstat(int fd, void* b) { CHECK(fd == 7); ((struct stat*) b)->st_size = content->n; return 0; }
extern "C" ssize_t sxk_read(int fd, void* p, size_t n) { CHECK(fd == 7); u32 k = min<u32>(n, content->n - pos); memcpy(p, content->p + pos, k); pos += k; return k; }
extern "C" int sxk_close(int fd) { CHECK(fd == 7 && nFiles > 0); nFiles--; return 0; }
static void reset(bool e, bool d) { nOpened = nFiles = 0; exists = e; isDir = d; }
struct Resp : web::ResponseIface {
    MemOutStream mem; u32 begun = 0, ended = 0; web::ResponseCode code{}; u32 headerLen = 0;
    OutStream* beginResponseHeader(web::ResponseCode c) override { begun++; code = c; return &mem; }
    void endResponseHeader() override { ended++; headerLen = safeDemote<u32>(mem.getSeekPos()); }
};
static void checkOpened(StringView root, StringView req, StringView ext) {
    for (u32 k = 0; k < nOpened; k++) {
        StringView at{opened[k], (u32) strlen(opened[k])};
        Meaning r, q, m;
        r.go(root); q.go(at);
        u32 i = 0;
        while (i < req.numBytes && req.bytes[i] == '/') i++;
        m.go(req.subStr(i));
        CHECKM(q.abs == r.abs && q.ups == r.ups && q.n >= r.n, "only files below the root are opened");
        for (u32 i = 0; i < r.n; i++) CHECKM(q.name[i].numBytes == r.name[i].numBytes && sx_eq(q.name[i].bytes, r.name[i].bytes, r.name[i].numBytes), "only files below the root are opened");
        if (m.ups == 0 && ext.isEmpty()) {
            CHECKM(q.n == r.n + m.n, "the file opened is the one requested");
            for (u32 i = 0; i < m.n; i++) CHECK(q.name[r.n + i].numBytes == m.name[i].numBytes && sx_eq(q.name[r.n + i].bytes, m.name[i].bytes, m.name[i].numBytes));
        }
    }
    CHECKM(nFiles == 0, "every file is closed");
}
static void checkResponse(Resp& resp, bool found) {
    CHECKM(resp.begun == 1 && resp.ended == 1, "one response");
    CHECK(resp.code == (found ? web::ResponseCode::OK : web::ResponseCode::NotFound));
}
static const char* roots[] = {"/r/s", "r"};
#ifndef SX_DOCS
ENTRY h_fetch() {
    sx_mark_heap();
    {
        web::FetchFromFileSystem fetch;
        fetch.rootDir = roots[sx_pick(0, 1, "root")];
        u32 n = (u32) sx_pick(0, sx_param("N", 5), "n");
        SxBuf b(n, "b");
        for (u32 i = 0; i < n; i++) ASSUME(b.p[i] != '?' && b.p[i] != 0);
        String req = StringView{b.p, n} + StringView{"/x.js"};
        String full = sx_pick(0, 1, "query") ? req + StringView{"?/../y.png"} : String{req};
        reset(sx_pick(0, 1, "exists"), false);
        u32 m = exists ? (u32) sx_pick(0, 4, "m") : 0;
        SxBuf c(m, "c");
        content = &c;
        Resp resp;
        web::FetchFromFileSystem::serve(&fetch, full, &resp);
        CHECK(nOpened == 1);
        checkOpened(fetch.rootDir, req, {});
        checkResponse(resp, exists);
        if (exists) {
            String out = resp.mem.moveToString();
            CHECK(out.left(resp.headerLen) == "Content-Type: text/javascript\r\nCache-Control: max-age=1200\r\n\r\n");
            CHECKM(out.numBytes == resp.headerLen + m && sx_eq(out.bytes + resp.headerLen, c.p, m), "the file itself is served");
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
// Which names have a type that is served.
ENTRY h_fetch_types() {
    sx_mark_heap();
    {
        web::FetchFromFileSystem fetch;
        fetch.rootDir = "/r";
        static const char* toks[] = {"/", "a", ".", "..", ".js", ".png", "?"};
        String req;
        u32 n = (u32) sx_pick(0, sx_param("K", 4), "n");
        for (u32 i = 0; i < n; i++) req += toks[sx_pick(0, 6, "tok")];
        reset(true, false);
        SxBuf c(0, "c");
        content = &c;
        Resp resp;
        web::FetchFromFileSystem::serve(&fetch, req, &resp);
        s32 q = req.findByte('?');
        StringView path = q >= 0 ? req.left(q) : req.view();
        checkOpened("/r", path, {});
        u32 nameAt = path.numBytes;
        while (nameAt > 0 && path.bytes[nameAt - 1] != '/') nameAt--;
        StringView name = path.subStr(nameAt);
        u32 dot = 0;
        while (dot < name.numBytes && name.bytes[dot] != '.') dot++;
        bool js = dot > 0 && name.subStr(dot) == ".js", png = dot > 0 && name.subStr(dot) == ".png";
        checkResponse(resp, js || png);
        CHECK(nOpened == (js || png ? 1 : 0));
        if (js || png) CHECK(resp.mem.moveToString().startsWith(js ? "Content-Type: text/javascript\r\n" : "Content-Type: image/png\r\n"));
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_source() {
    sx_mark_heap();
    {
        web::SourceCode sc;
        sc.rootDir = roots[sx_pick(0, 1, "root")];
        u32 n = (u32) sx_pick(0, sx_param("N", 5), "n");
        SxBuf b(n, "b");
        for (u32 i = 0; i < n; i++) ASSUME(b.p[i] != 0);
        reset(false, false);
        Resp resp;
        web::SourceCode::serve(&sc, {b.p, n}, &resp);
        CHECK(nOpened == 1);
        checkOpened(sc.rootDir, {b.p, n}, {});
        checkResponse(resp, false);
    }
    sx_check_leaks();
    sx_reach("end");
}
#else
ENTRY h_docs() {
    sx_mark_heap();
    {
        web::DocServer ds;
        ds.dataRoot = roots[sx_pick(0, 1, "root")];
        u32 n = (u32) sx_pick(0, sx_param("N", 5), "n");
        SxBuf b(n, "b");
        for (u32 i = 0; i < n; i++) ASSUME(b.p[i] != 0);
        reset(sx_pick(0, 1, "exists"), sx_pick(0, 1, "isDir"));
        SxBuf c(0, "c");
        free(c.p); c.p = (char*) malloc(7); memcpy(c.p, "T\nbody\n", 7); c.n = 7;
        content = &c;
        Resp resp;
        ds.serveContentOnly({b.p, n}, &resp);
        checkOpened(ds.dataRoot + StringView{"/pages"}, {b.p, n}, ".html");
        bool absolute = n > 0 && b.p[0] == '/';
        CHECK(nOpened == (absolute ? 0 : 2));
        checkResponse(resp, exists && !absolute);
        if (exists && !absolute) CHECK(resp.mem.moveToString().endsWith("\r\n\r\nT\n<h1>T</h1>\nbody\n"));
        if (!absolute) {
            StringView p0{opened[0], (u32) strlen(opened[0])}, p1{opened[1], (u32) strlen(opened[1])};
            if (isDir) { Meaning a, m; a.go(p0); a.enter("index.html"); m.go(p1); CHECKM(a.same(m), "a directory is served by its index"); }
            else CHECKM(p1.numBytes == p0.numBytes + 5 && sx_eq(p1.bytes, p0.bytes, p0.numBytes) && p1.endsWith(".html"), "a page is served by its file");
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
#endif
