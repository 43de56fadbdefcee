// C16: the native filesystem over a model of the kernel.
// SX: srcdef FileSystem_POSIX -include kredirect.h
// SX: srcdef Pipe_FD.cpp -Dread=sxk_read -Dwrite=sxk_write -Dclose=sxk_close -Dfstat=sxk_fstat
#include "kernel.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/filesystem/FileSystem.h>
using namespace ply;

static Node before[NODES];
static void save() { memcpy(before, node, sizeof node); }
static void swapIn() { Node t; for (int i = 0; i < NODES; i++) { t = node[i]; node[i] = before[i]; before[i] = t; } }
static bool sameNode(int i, int j) { return before[i].kind == node[j].kind && before[i].len == node[j].len && before[i].target == node[j].target && sx_eq(before[i].data, node[j].data, before[i].len); }
// The same names lead to the same things in `before` and `node`.
static bool sameBelow(int i, int j) {
    if (!sameNode(i, j)) return false;
    if (node[j].kind != Dir) return true;
    u32 n = 0;
    for (int k = 1; k < NODES; k++) {
        if (before[k].kind != None && before[k].parent == i) {
            int c = child(j, before[k].name, (unsigned) strlen(before[k].name));
            if (c < 0 || !sameBelow(k, c)) return false;
            n++;
        }
        if (node[k].kind != None && node[k].parent == j) n--;
    }
    return n == 0;
}
static void checkTree(const char*) { CHECKM(sameBelow(0, 0), "the directory tree is as the operation is documented to leave it"); }
static int nodeE;
static void world(SxBuf& c) { // d/ (e/ (h), f), g, l -> d, k -> nothing
    reset();
    int d = add(0, "d", Dir);
    nodeE = add(d, "e", Dir);
    int h = add(nodeE, "h", File);
    int f = add(d, "f", File);
    int g = add(0, "g", File);
    node[add(0, "l", Link)].target = d;
    node[h].len = 1; node[h].data[0] = 'h';
    node[f].len = c.n; memcpy(node[f].data, c.p, c.n);
    node[g].len = 2; memcpy(node[g].data, "gg", 2);
}
static const char* paths[] = {"d", "d/e", "d/f", "g", "x", "d/x", "l/f", "./d//f", "/d/e/h", "d/../g", "d/e/", "d/", "x/y", "l", "/", "g/x", "x/y/"};
static const u32 nPaths = sizeof paths / sizeof *paths;
static StringView pickPath(const char* name, u32 last = nPaths - 1) { const char* p = paths[sx_pick(0, last, name)]; return {p, (u32) strlen(p)}; }
static const char* z(StringView v) { static char buf[2][32]; static int k; k ^= 1; memcpy(buf[k], v.bytes, v.numBytes); buf[k][v.numBytes] = 0; return buf[k]; }

static void closed() { CHECKM(openFds == 0 && openDirs == 0, "every descriptor is closed"); }

static void checkList(FileSystem* fs, StringView p, u32 flags) {
    Found f = find(z(p), true);
    if (f.node >= 0 && node[f.node].kind != Dir) f.node = -1; // a file is no directory
    u32 seen = 0;
    {
        Directory dir = fs->listDir(p, flags);
        if (failed) CHECK(fs->lastResult() == FSResult::AccessDenied);
        else CHECK(fs->lastResult() == (f.node < 0 ? FSResult::NotFound : FSResult::OK));
        for (DirectoryEntry& e : dir) {
            CHECK(f.node >= 0 && !failed);
            int c = child(f.node, e.name.bytes, e.name.numBytes);
            CHECKM(c >= 0, "only what is in the directory is listed");
            CHECKM(!(seen >> c & 1), "every entry is listed once");
            seen |= 1u << c;
            int t = followed(c);
            CHECKM(e.isDir == (node[c].kind == Dir), "an entry is listed as what it is");
            if ((flags & FileSystem::WithSizes) && !e.isDir && node[t].kind == File) CHECK(e.fileSize == node[t].len);
            if (flags & FileSystem::WithTimes) CHECK(e.creationTime == 1000 + t && e.accessTime == 2000 + t && e.modificationTime == 3000 + t);
        }
        CHECK(failed || fs->lastResult() == (f.node < 0 ? FSResult::NotFound : FSResult::OK));
    }
    if (f.node >= 0 && !failed)
        for (int k = 1; k < NODES; k++) if (node[k].kind != None && node[k].parent == f.node) CHECKM((seen >> k & 1) || (flags && followed(k) < 0), "every entry is listed");
}
ENTRY h_fs_list() {
    sx_mark_heap();
    {
        SxBuf c((u32) sx_pick(0, 2, "n"), "c");
        world(c);
        add(0, "k", Link);
        unknownTypes = sx_pick(0, 1, "unknown");
        faults = (u32) sx_param("FAULTS", 1);
        u32 flags = (u32) sx_pick(0, 3, "flags");
        StringView p = pickPath("p");
        save();
        checkList(FileSystem::native(), p, flags);
        checkTree("");
        closed();
    }
    sx_check_leaks();
    sx_reach("end");
}
static void rmBelow(int n) { for (int k = 1; k < NODES; k++) if (before[k].kind != None && before[k].parent == n) { rmBelow(k); before[k].kind = None; } }
static bool isFile(StringView p) { return find(z(p), false).node >= 0 && node[find(z(p), false).node].kind != Dir; }

static void oneOp(FileSystem* fs, u32 op, SxBuf& w) {
    StringView p = pickPath("p");
    Found f = find(z(p), true), nf = find(z(p), false);
    bool isDir = f.node >= 0 && node[f.node].kind == Dir;
    failed = 0;
    save();
    FSResult r{};
    switch (op) {
        case 0: { // exists
            ExistsResult e = fs->exists(p);
            CHECK(e == (f.node < 0 ? ExistsResult::NotFound : isDir ? ExistsResult::Directory : ExistsResult::File));
            CHECK(fs->isDir(p) == isDir);
            return checkTree("");
        }
        case 1: { // makeDir
            ASSUME(!nf.err); // the parent must exist
            r = fs->makeDir(p);
            if (nf.node >= 0) CHECK(r == FSResult::AlreadyExists);
            else if (failed) CHECK(r == FSResult::AccessDenied);
            else { CHECK(r == FSResult::OK); swapIn(); add(nf.parent, nf.name, nf.nameLen, Dir); swapIn(); }
            break;
        }
        case 2: { // makeDirs
            ASSUME(f.node >= 0 || p != "d/../g");
            r = fs->makeDirs(p);
            if (isDir) CHECK(r == FSResult::AlreadyExists || r == FSResult::OK);
            else if (f.node >= 0 || f.err == ENOTDIR) CHECK(r == FSResult::AccessDenied);
            else if (failed) {
                CHECK(r == FSResult::AccessDenied);
                for (int k = 1; k < NODES; k++) CHECKM(before[k].kind == None ? node[k].kind == None || node[k].kind == Dir : sameNode(k, k), "only directories are added");
                memcpy(before, node, sizeof node);
            } else {
                CHECK(r == FSResult::OK);
                swapIn();
                unsigned keep = faults; faults = 0;
                char part[32];
                for (u32 i = 0; i <= p.numBytes; i++) {
                    if (i > 0 && (i == p.numBytes || p.bytes[i] == '/')) { part[i] = 0; sxk_mkdir(part, 0); }
                    if (i < p.numBytes) part[i] = p.bytes[i];
                }
                faults = keep;
                swapIn();
                CHECK(fs->isDir(p));
            }
            break;
        }
        case 3: { // loadBinary, the pipe's read
            ASSUME(!isDir);
            String s = fs->loadBinary(p);
            r = fs->lastResult();
            if (failed) { CHECKM(r != FSResult::OK && s.isEmpty(), "a file that cannot be read is not taken as read"); }
            else if (f.node < 0) CHECK(r == FSResult::NotFound && s.isEmpty());
            else CHECK(r == FSResult::OK && s.numBytes == node[f.node].len && sx_eq(s.bytes, node[f.node].data, s.numBytes));
            break;
        }
        case 4: { // write through a stream
            ASSUME(!isDir && !f.slash);
            bool ok = false;
            {
                Owned<OutStream> o = fs->openStreamForWrite(p);
                r = fs->lastResult();
                CHECK((bool) o == (r == FSResult::OK));
                if (o) { o->write({w.p, w.n}); ok = o->flush() && !o->atEOF(); }
            }
            if (f.err) CHECK(r == FSResult::NotFound || failed);
            else if (!failed) {
                CHECK(r == FSResult::OK && ok);
                swapIn();
                int n = f.node >= 0 ? f.node : add(f.parent, f.name, f.nameLen, File);
                node[n].len = w.n; memcpy(node[n].data, w.p, w.n);
                swapIn();
            }
            CHECKM(!failed || !ok, "a failed write is reported");
            if (failed) { CHECK(r == FSResult::OK || r == FSResult::AccessDenied); swapIn(); save(); swapIn(); memcpy(before, node, sizeof node); }
            break;
        }
        case 5: { // moveFile
            ASSUME(isFile(p));
            StringView q = pickPath("q");
            Found g = find(z(q), false);
            ASSUME(!g.err && !g.slash && (g.node < 0 || node[g.node].kind != Dir));
            r = fs->moveFile(p, q);
            if (failed) CHECK(r == FSResult::AccessDenied);
            else { CHECK(r == FSResult::OK); swapIn(); unsigned keep = faults; faults = 0; sxk_rename(z(p), z(q)); faults = keep; swapIn(); }
            break;
        }
        case 6: { // deleteFile
            ASSUME(nf.node < 0 ? true : isFile(p));
            r = fs->deleteFile(p);
            if (failed) CHECK(r == FSResult::AccessDenied);
            else if (nf.node < 0) CHECK(r == FSResult::NotFound);
            else { CHECK(r == FSResult::OK); before[nf.node].kind = None; }
            break;
        }
        case 7: { // removeDirTree
            ASSUME(nf.node > 0 && node[nf.node].kind == Dir);
            if (nf.slash) ASSUME(find(z(p.rtrim([](char u) { return u == '/'; })), false).node == nf.node); // a link itself is no directory
            r = fs->removeDirTree(p);
            if (failed) {
                CHECK(r == FSResult::AccessDenied);
                // What is left is part of what was there, and nothing outside is gone.
                for (int k = 1; k < NODES; k++) {
                    bool inside = false;
                    for (int a = k; a; a = before[a].parent) if (before[k].kind != None && a == nf.node) inside = true;
                    if (inside) CHECK(node[k].kind == None || sameNode(k, k));
                    else CHECKM(before[k].kind == None ? node[k].kind == None : sameNode(k, k) && node[k].parent == before[k].parent, "nothing outside the directory is removed");
                }
                memcpy(before, node, sizeof node);
            } else { CHECK(r == FSResult::OK); rmBelow(nf.node); before[nf.node].kind = None; }
            break;
        }
        case 8: { // getFileStatus
            
            FileStatus s = fs->getFileStatus(p);
            r = s.result;
            CHECK(r == (f.node < 0 ? FSResult::NotFound : FSResult::OK));
            if (f.node >= 0) CHECK(s.fileSize == (isDir ? 4096 : node[f.node].len) && s.creationTime == 1000 + f.node && s.accessTime == 2000 + f.node && s.modificationTime == 3000 + f.node);
            break;
        }
        case 9: { // working directory
            ASSUME(f.node < 0 ? true : isDir);
            r = fs->setWorkingDirectory(p);
            CHECK(r == (f.node < 0 ? FSResult::NotFound : FSResult::OK));
            String s = fs->getWorkingDirectory();
            CHECK(fs->lastResult() == FSResult::OK);
            Found at = find(z(s), true);
            CHECKM(at.node == cwd && (f.node < 0 || cwd == f.node), "the working directory is the one that was set");
            r = fs->lastResult();
            break;
        }
    }
    CHECKM(fs->lastResult() == r, "the result code is also the last result");
    checkTree("");
    closed();
}
ENTRY h_fs_op() {
    sx_mark_heap();
    {
        u32 op = (u32) sx_pick((u32) sx_param("LO", 0), (u32) sx_param("HI", 9), "op");
        SxBuf c((u32) sx_pick(0, op == 3 ? 2 : 1, "n"), "c");
        world(c);
        unknownTypes = op == 7 && sx_pick(0, 1, "unknown");
        if (op == 7) { node[add(nodeE, "m", Link)].target = 5; add(nodeE, "o", Link); node[add(nodeE, "q", Link)].target = 0; }
        shortIO = op == 3 || op == 4;
        SxBuf w(op == 4 ? (u32) sx_pick(0, 3, "m") : 0, "w");
        faults = (u32) sx_param("FAULTS", 1);
        oneOp(FileSystem::native(), op, w);
    }
    sx_check_leaks();
    sx_reach("end");
}
// Several operations in a row, each with its effect on what the ones before it left.
ENTRY h_fs_ops() {
    sx_mark_heap();
    {
        SxBuf c(1, "c"), w(1, "w");
        world(c);
        faults = (u32) sx_param("FAULTS", 1);
        u32 k = (u32) sx_param("OPS", 2);
        for (u32 i = 0; i < k; i++) { mutations = 0; oneOp(FileSystem::native(), (u32) sx_pick(1, 9, "op"), w); }
    }
    sx_check_leaks();
    sx_reach("end");
}
// Saving a file: whenever the machine stops, the file has its old or its new contents.
static char oldC[8], newC[8]; static u32 oldN, newN; static bool had; static int savedNew;
static const char* target;
static void check() {
    Found f = find(target, true);
    bool isOld = had ? f.node >= 0 && node[f.node].len == oldN && sx_eq(node[f.node].data, oldC, oldN) : f.node < 0;
    bool isNew = f.node >= 0 && node[f.node].len == newN && sx_eq(node[f.node].data, newC, newN);
    CHECKM(isOld || isNew, "at every moment the file has its old or its new contents");
    savedNew = isNew;
}
ENTRY h_fs_save() {
    sx_mark_heap();
    {
        SxBuf c((u32) sx_pick(0, 2, "n"), "c"), w((u32) sx_pick(0, 2, "m"), "w");
        world(c);
        static const char* targets[] = {"d/f", "x", "x/y", "/x/y/z", "l/f", "d/x", "g/x", "f"};
        target = targets[sx_pick(0, 7, "p")];
        if (sameStr(target, "f")) cwd = 1;
        Found f = find(target, true);
        had = f.node >= 0;
        oldN = had ? node[f.node].len : 0; memcpy(oldC, node[had ? f.node : 0].data, oldN);
        newN = w.n; memcpy(newC, w.p, w.n);
        faults = (u32) sx_param("FAULTS", 1);
        shortIO = sx_param("SHORT", 1);
        bool blocked = sameStr(target, "g/x");
        save();
        savedNew = 0;
        onChange = check;
        bool same = had && oldN == newN && sx_eq(oldC, newC, newN);
        FileSystem* fs = FileSystem::native();
        FSResult r = fs->makeDirsAndSaveBinaryIfDifferent({target, (u32) strlen(target)}, {w.p, w.n});
        CHECK(fs->lastResult() == r);
        check();
        if (failed) CHECKM(r != FSResult::OK && r != FSResult::Unchanged, "a failure is reported");
        else if (blocked) CHECK(r == FSResult::AccessDenied);
        else if (same) CHECKM(r == FSResult::Unchanged && mutations == 0, "a file with these contents is not touched");
        else { CHECKM(r == FSResult::OK, "the file is saved"); CHECK(savedNew); }
        // Nothing else is left behind or changed, except directories made on the way.
        for (int k = 1; k < NODES; k++) if (node[k].kind != None) {
            bool known = false;
            for (int j = 1; j < NODES; j++) if (before[j].kind != None && before[j].parent == node[k].parent && sameStr(before[j].name, node[k].name)) known = true;
            if (!known) CHECKM(node[k].kind == Dir || k == find(target, true).node, "no temporary file is left");
            else if (k != f.node && k < NODES) CHECK(k == find(target, true).node || sameNode(k, k));
        }
        closed();
    }
    sx_check_leaks();
    sx_reach("end");
}

// Text saved in a format reads back as the same text, and saving it again changes nothing.
ENTRY h_fs_text() {
    sx_mark_heap();
    {
        SxBuf c(0, "c");
        world(c);
        u32 n = (u32) sx_pick(0, sx_param("N", 2), "n");
        SxBuf b(n, "b");
        for (u32 i = 0; i < n; i++) ASSUME((u8) b.p[i] < 128 && b.p[i] != '\r' && b.p[i] != 0);
        TextFormat fmt;
        fmt.encoding = (TextFormat::Encoding) sx_pick(0, 3, "enc");
        fmt.newLine = (TextFormat::NewLine) sx_pick(0, 1, "nl");
        fmt.bom = sx_pick(0, 1, "bom");
        FileSystem* fs = FileSystem::native();
        ASSUME(fmt.encoding != TextFormat::Encoding::Bytes || !fmt.bom);
        const char* p = sx_pick(0, 1, "p") ? "x/y" : "d/f";
        CHECK(fs->makeDirsAndSaveTextIfDifferent(p, {b.p, n}, fmt) == (find(p, true).node == 3 && n == 0 && !fmt.bom ? FSResult::Unchanged : FSResult::OK) || n == 0);
        String t = fs->loadText(p, fmt);
        CHECK(fs->lastResult() == FSResult::OK);
        CHECKM(t.numBytes == n && sx_eq(t.bytes, b.p, n), "text reads back");
        u32 m = mutations;
        CHECK(fs->makeDirsAndSaveTextIfDifferent(p, {b.p, n}, fmt) == FSResult::Unchanged);
        CHECKM(mutations == m, "unchanged text is not written");
        {
            Owned<OutStream> o = fs->openTextForWrite("d/x", fmt);
            o->write({b.p, n});
        }
        int i = find(p, true).node, j = find("d/x", true).node;
        CHECKM(node[i].len == node[j].len && sx_eq(node[i].data, node[j].data, node[i].len), "a text stream writes the same file");
        CHECK(!fs->openTextForRead("x/q", fmt));
        CHECK(fs->lastResult() == FSResult::NotFound);
        CHECK(!fs->openTextForReadAutodetect("q").first);
        CHECK(fs->loadTextAutodetect("q").first.isEmpty());
        closed();
    }
    sx_check_leaks();
    sx_reach("end");
}
// A walk visits every directory below the top once, parents first, with its entries, unless the caller takes it out.
ENTRY h_fs_walk() {
    sx_mark_heap();
    {
        reset();
        int top = add(0, "t", Dir);
        u32 n = (u32) sx_pick(0, sx_param("N", 4), "n");
        static const char* names[] = {"a", "b", "c", "e", "i", "j"};
        int made[8] = {top};
        for (u32 i = 0; i < n; i++) {
            u32 par = (u32) sx_pick(0, i, "parent");
            ASSUME(node[made[par]].kind == Dir);
            made[i + 1] = add(made[par], names[i], sx_pick(0, 1, "isDir") ? Dir : File);
            node[made[i + 1]].len = 3 + i;
        }
        u32 prune = n ? (u32) sx_pick(0, n, "prune") : 0; // the caller takes this directory out of the list
        u32 seen = 0;
        FileSystem* fs = FileSystem::native();
        const char* start = sx_pick(0, 1, "slash") ? "./t" : "t";
        for (WalkTriple& triple : fs->walk(start, FileSystem::WithSizes)) {
            Found f = find(z(triple.dirPath), true);
            CHECKM(f.node >= 0 && node[f.node].kind == Dir, "a directory is visited");
            CHECKM(!(seen >> f.node & 1), "each directory is visited once");
            if (f.node != top) CHECKM(seen >> node[f.node].parent & 1, "parents come first");
            else CHECK(seen == 0);
            seen |= 1u << f.node;
            u32 here = 0;
            for (const WalkTriple::FileInfo& info : triple.files) {
                int c = child(f.node, info.name.bytes, info.name.numBytes);
                CHECK(c >= 0 && node[c].kind == File && !(here >> c & 1) && info.fileSize == node[c].len);
                here |= 1u << c;
            }
            for (u32 i = 0; i < triple.dirNames.numItems(); i++) {
                int c = child(f.node, triple.dirNames[i].bytes, triple.dirNames[i].numBytes);
                CHECK(c >= 0 && node[c].kind == Dir && !(here >> c & 1));
                here |= 1u << c;
            }
            for (int k = 1; k < NODES; k++) if (node[k].kind != None && node[k].parent == f.node) CHECKM(here >> k & 1, "every entry is given");
            for (u32 i = 0; i < triple.dirNames.numItems(); i++) if (prune && triple.dirNames[i] == names[prune - 1]) triple.dirNames.erase(i--);
            CHECK(fs->lastResult() == FSResult::OK);
        }
        for (u32 i = 0; i <= n; i++) {
            bool cut = false;
            for (int a = made[i]; a; a = node[a].parent) if (prune && a == made[prune]) cut = true;
            if (node[made[i]].kind == Dir) CHECKM((seen >> made[i] & 1) == !cut, "exactly the directories that were not taken out are visited");
        }
        closed();
    }
    sx_check_leaks();
    sx_reach("end");
}
