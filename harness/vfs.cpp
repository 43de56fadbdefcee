// C15: a virtual filesystem reaches nothing outside its root directory and is otherwise its target.
#include "pathref.h"
#include <ply-runtime/filesystem/FileSystem.h>
#include <ply-runtime/io/Pipe.h>

// A filesystem that records what it is asked to do.
struct Rec : FileSystem {
    static Funcs F;
    u32 calls = 0, which = 0, flags = 0;
    String a, b;
    FSResult ret = FSResult::OK;
    Rec() : FileSystem{&F} {}
};
static Rec* rec;
static void got(u32 which, StringView a, StringView b = {}) { rec->calls++; rec->which = which; rec->a = a; rec->b = b; }
struct NoDir : Directory::Impl { NoDir() { destruct = [](Directory::Impl*) {}; next = [](Directory::Impl* d) { d->entry = {}; return FSResult::OK; }; } };
static FileSystem::Funcs recFuncs() {
    FileSystem::Funcs f{};
    f.pathFmt = PathFormat{false};
    f.listDir = [](FileSystem*, StringView p, u32 fl) -> Directory { got(0, p); rec->flags = fl; FileSystem::setLastResult(rec->ret); return {new NoDir}; };
    f.makeDir = [](FileSystem*, StringView p) { got(1, p); return FileSystem::setLastResult(rec->ret); };
    f.setWorkingDirectory = [](FileSystem*, StringView p) { got(100, p); return rec->ret; };
    f.getWorkingDirectory = [](FileSystem*) -> String { got(101, {}); return {}; };
    f.exists = [](FileSystem*, StringView p) { got(2, p); return rec->ret == FSResult::OK ? ExistsResult::Directory : ExistsResult::NotFound; };
    f.openPipeForRead = [](FileSystem*, StringView p) -> Owned<InPipe> { got(3, p); FileSystem::setLastResult(rec->ret); return nullptr; };
    f.openPipeForWrite = [](FileSystem*, StringView p) -> Owned<OutPipe> { got(4, p); FileSystem::setLastResult(rec->ret); return nullptr; };
    f.moveFile = [](FileSystem*, StringView p, StringView q) { got(5, p, q); return FileSystem::setLastResult(rec->ret); };
    f.deleteFile = [](FileSystem*, StringView p) { got(6, p); return FileSystem::setLastResult(rec->ret); };
    f.removeDirTree = [](FileSystem*, StringView p) { got(7, p); return FileSystem::setLastResult(rec->ret); };
    f.getFileStatus = [](FileSystem*, StringView p) { got(8, p); FileStatus s; s.result = FileSystem::setLastResult(rec->ret); s.fileSize = 17; return s; };
    return f;
}
FileSystem::Funcs Rec::F = recFuncs();

// `at` is the place `p` names below `root`, or some place below root if p leads out of it.
static void checkPlace(StringView root, StringView p, StringView at) {
    Meaning r, q, m;
    r.go(root);
    q.go(at);
    m.go(p);
    CHECKM(q.abs == r.abs && q.drv == r.drv && q.ups == r.ups && q.n >= r.n, "the target path is below the root");
    for (u32 i = 0; i < r.n; i++) CHECKM(q.name[i].numBytes == r.name[i].numBytes && sx_eq(q.name[i].bytes, r.name[i].bytes, r.name[i].numBytes), "the target path is below the root");
    if (m.ups == 0) {
        CHECKM(q.n == r.n + m.n, "the target path is the place below the root");
        for (u32 i = 0; i < m.n; i++) CHECK(q.name[r.n + i].numBytes == m.name[i].numBytes && sx_eq(q.name[r.n + i].bytes, m.name[i].bytes, m.name[i].numBytes));
    }
}
static bool acceptable(StringView p) { // relative, and on Windows without the colons that drives are made of
    if (p.numBytes && (p.bytes[0] == '/' || (win && p.bytes[0] == '\\'))) return false;
    if (win) for (u32 i = 0; i < p.numBytes; i++) if (p.bytes[i] == ':') return false;
    return true;
}
ENTRY h_virtual() {
    sx_mark_heap();
    {
        win = sx_pick(0, 1, "win");
        Rec r; rec = &r;
        Rec::F.pathFmt = PathFormat{win};
        static const char* roots[2][3] = {{"/r/s", "r", ".."}, {"c:\\r", "..\\r", "r\\"}};
        StringView root = roots[win][sx_pick(0, 2, "root")];
        Owned<FileSystem> v = r.createVirtual(root);
        CHECKM(!v->pathFormat().isWindows, "a virtual filesystem takes POSIX-style paths");
        u32 f = (u32) sx_pick(0, sx_param("FUNCS", 8), "f");
        u32 n = (u32) sx_pick(0, sx_param(f == 2 ? "N" : "M", 3), "n");
        SxBuf b(n, "b");
        StringView p{b.p, n};
        ASSUME(acceptable(p));
        u32 n2 = f == 5 ? (u32) sx_pick(0, 2, "n2") : 0;
        SxBuf b2(n2, "b2");
        StringView p2{b2.p, n2};
        ASSUME(acceptable(p2));
        r.ret = sx_pick(0, 1, "ok") ? FSResult::OK : FSResult::NotFound;
        FileSystem::setLastResult(FSResult::Locked);
        bool setsResult = true;
        switch (f) {
            case 0: { Directory d = v->listDir(p, 2); CHECK(r.flags == 2); break; }
            case 1: CHECK(v->makeDir(p) == r.ret); break;
            case 2: CHECK((v->exists(p) == ExistsResult::Directory) == (r.ret == FSResult::OK)); setsResult = false; break;
            case 3: CHECK(!v->openPipeForRead(p)); break;
            case 4: CHECK(!v->openPipeForWrite(p)); break;
            case 5: CHECK(v->moveFile(p, p2) == r.ret); break;
            case 6: CHECK(v->deleteFile(p) == r.ret); break;
            case 7: CHECK(v->removeDirTree(p) == r.ret); break;
            case 8: { FileStatus s = v->getFileStatus(p); CHECK(s.result == r.ret && s.fileSize == 17); break; }
        }
        CHECK(FileSystem::lastResult_.load() == (setsResult ? r.ret : FSResult::Locked));
        CHECKM(r.calls == 1 && r.which == f, "one call of the same function of the target");
        checkPlace(root, p, r.a);
        if (f == 5) checkPlace(root, p2, r.b);
    }
    sx_check_leaks();
    sx_reach("end");
}
