// A small model of the kernel's file system, with symbolic contents and symbolic faults.
#pragma once
#include "sx.h"
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <dirent.h>
#include <string.h>
#include <sys/stat.h>
namespace kern {
static void copyStr(char* d, const char* s) { do *d++ = *s; while (*s++); }
static bool sameStr(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
enum Kind { None, File, Dir, Link };
#ifndef KERN_DATA
#define KERN_DATA 12
#endif
static const unsigned DATA = KERN_DATA;
struct Node { Kind kind; int parent; char name[16]; char data[DATA]; unsigned len; int target; unsigned mode; };
static const int NODES = 16;
static Node node[NODES];
static int cwd;
struct Fd { int node; unsigned pos; bool out; };
static Fd fds[6];
struct DirH { int node; int next; dirent ent; };
static int openFds, openDirs, mutations;
static unsigned faults;                 // how many calls may still fail for no reason of their own
static unsigned failed;                 // how many did
static bool unknownTypes;               // readdir does not tell types
static bool shortIO;                    // read and write may transfer less than asked
static void (*onChange)();              // called at every point at which the machine may stop

static void reset() {
    for (int i = 0; i < NODES; i++) node[i].kind = None;
    node[0].kind = Dir; node[0].parent = 0; node[0].name[0] = 0;
    cwd = 0; openFds = openDirs = mutations = 0; faults = failed = 0; unknownTypes = shortIO = false; onChange = nullptr;
    for (int i = 0; i < 6; i++) fds[i].node = -1;
}
static int add(int parent, const char* name, unsigned nameLen, Kind kind) {
    for (int i = 1; i < NODES; i++)
        if (node[i].kind == None) {
            CHECK(nameLen < 16);
            node[i].kind = kind; node[i].parent = parent; node[i].len = 0; node[i].target = -1;
            for (unsigned k = 0; k < nameLen; k++) node[i].name[k] = name[k];
            node[i].name[nameLen] = 0;
            return i;
        }
    CHECKM(false, "model is too small");
    return -1;
}
static int add(int parent, const char* name, Kind kind) { return add(parent, name, (unsigned) strlen(name), kind); }
static int child(int parent, const char* name, unsigned n) {
    for (int i = 1; i < NODES; i++)
        if (node[i].kind != None && node[i].parent == parent && strlen(node[i].name) == n && memcmp(node[i].name, name, n) == 0) return i;
    return -1;
}
struct Found { int node; int parent; const char* name; unsigned nameLen; int err; bool slash; };
static int followed(int n) { for (int k = 0; k < 4 && n >= 0 && node[n].kind == Link; k++) n = node[n].target; return n; }
// Resolves a path. node is -1 and err is 0 if only the last name is missing.
static Found find(const char* p, bool follow) {
    Found f{-1, -1, nullptr, 0, 0, false};
    if (!*p) { f.err = ENOENT; return f; }
    int at = *p == '/' ? 0 : cwd;
    f.node = at; f.parent = at;
    while (*p) {
        if (*p == '/') { p++; continue; }
        unsigned n = 0;
        while (p[n] && p[n] != '/') n++;
        const char* name = p;
        p += n;
        bool last = true;
        for (const char* q = p; *q; q++) if (*q != '/') last = false;
        f.slash = last && *p == '/';
        if (node[at].kind != Dir) { f.err = ENOTDIR; f.node = -1; return f; }
        int c;
        if (n == 1 && name[0] == '.') c = at;
        else if (n == 2 && name[0] == '.' && name[1] == '.') c = node[at].parent;
        else c = child(at, name, n);
        if (last) { f.parent = at; f.name = name; f.nameLen = n; }
        if (!last || follow || f.slash) c = followed(c);
        if (c < 0) {
            f.node = -1;
            if (!last) f.err = ENOENT;
            return f;
        }
        if (last && f.slash && node[c].kind != Dir) { f.err = ENOTDIR; f.node = -1; return f; }
        f.node = c;
        at = c;
    }
    return f;
}
static bool fault(const char* what) {
    if (!faults || !sx_pick(0, 1, what)) return false;
    faults--; failed++;
    return true;
}
static void changed() { mutations++; if (onChange) onChange(); }
static bool isEmptyDir(int n) { for (int i = 1; i < NODES; i++) if (node[i].kind != None && node[i].parent == n) return false; return true; }
static int bad(int e) { errno = e; return -1; }
static void fill(int n, struct stat* st) {
    memset(st, 0, sizeof *st);
    st->st_mode = node[n].kind == Dir ? S_IFDIR : node[n].kind == Link ? S_IFLNK : S_IFREG;
    st->st_size = node[n].kind == Dir ? 4096 : node[n].len;
    st->st_ctime = 1000 + n; st->st_atime = 2000 + n; st->st_mtime = 3000 + n;
}
}
using namespace kern;
extern "C" {
int sxk_open(const char* p, int flags, ...) {
    CHECKM(flags & O_CLOEXEC, "descriptors are not inherited");
    if (fault("open")) return bad(EACCES);
    Found f = find(p, true);
    if (f.err) return bad(f.err);
    bool out = (flags & O_ACCMODE) == O_WRONLY;
    if (f.node < 0) {
        if (!(flags & O_CREAT)) return bad(ENOENT);
        if (f.slash) return bad(EISDIR);
        f.node = add(f.parent, f.name, f.nameLen, File);
        changed();
    } else if (node[f.node].kind == Dir && out) return bad(EISDIR);
    if (flags & O_TRUNC && node[f.node].len) { node[f.node].len = 0; changed(); }
    for (int i = 0; i < 6; i++)
        if (fds[i].node < 0) { fds[i].node = f.node; fds[i].pos = 0; fds[i].out = out; openFds++; return i + 3; }
    CHECKM(false, "descriptors leak");
    return -1;
}
static Fd* fdOf(int fd) { CHECKM(fd >= 3 && fd < 9 && fds[fd - 3].node >= 0, "the descriptor is open"); return &fds[fd - 3]; }
int sxk_close(int fd) { fdOf(fd)->node = -1; openFds--; return 0; }
ssize_t sxk_read(int fd, void* buf, size_t n) {
    Fd* f = fdOf(fd);
    if (fault("read")) return bad(EIO);
    Node& d = node[f->node];
    size_t k = d.len - f->pos < n ? d.len - f->pos : n;
    if (shortIO && k > 1) k = sx_pick(1, k, "short");
    memcpy(buf, d.data + f->pos, k);
    f->pos += k;
    return k;
}
ssize_t sxk_write(int fd, const void* buf, size_t n) {
    Fd* f = fdOf(fd);
    CHECK(f->out && n > 0);
    if (fault("write")) return bad(ENOSPC);
    Node& d = node[f->node];
    size_t k = n;
    if (shortIO && k > 1) k = sx_pick(1, k, "short");
    CHECKM(f->pos + k <= DATA, "nothing is written twice");
    memcpy(d.data + f->pos, buf, k);
    f->pos += k;
    if (f->pos > d.len) d.len = f->pos;
    changed();
    return k;
}
int sxk_fstat(int fd, void* st) { fill(fdOf(fd)->node, (struct stat*) st); return 0; }
int sxk_stat(const char* p, void* st) {
    Found f = find(p, true);
    if (f.err || f.node < 0) return bad(f.err ? f.err : ENOENT);
    fill(f.node, (struct stat*) st);
    return 0;
}
int sxk_lstat(const char* p, void* st) {
    Found f = find(p, false);
    if (f.err || f.node < 0) return bad(f.err ? f.err : ENOENT);
    fill(f.node, (struct stat*) st);
    return 0;
}
int sxk_mkdir(const char* p, mode_t) {
    Found f = find(p, false);
    if (f.err) return bad(f.err);
    if (f.node >= 0) return bad(EEXIST);
    if (fault("mkdir")) return bad(EACCES);
    add(f.parent, f.name, f.nameLen, Dir);
    changed();
    return 0;
}
int sxk_rmdir(const char* p) {
    Found f = find(p, false);
    if (f.err || f.node < 0) return bad(f.err ? f.err : ENOENT);
    if (node[f.node].kind != Dir) return bad(ENOTDIR);
    CHECK(f.node != 0);
    if (!isEmptyDir(f.node)) return bad(ENOTEMPTY);
    if (fault("rmdir")) return bad(EACCES);
    node[f.node].kind = None;
    changed();
    return 0;
}
int sxk_unlink(const char* p) {
    Found f = find(p, false);
    if (f.err || f.node < 0) return bad(f.err ? f.err : ENOENT);
    if (node[f.node].kind == Dir) return bad(EISDIR);
    if (fault("unlink")) return bad(EACCES);
    node[f.node].kind = None;
    changed();
    return 0;
}
int sxk_rename(const char* p, const char* q) {
    Found f = find(p, false), g = find(q, false);
    if (f.err || f.node < 0) return bad(f.err ? f.err : ENOENT);
    if (g.err) return bad(g.err);
    if (f.node == g.node) return 0;
    if (g.node >= 0) {
        if (node[g.node].kind == Dir) {
            if (node[f.node].kind != Dir) return bad(EISDIR);
            if (!isEmptyDir(g.node)) return bad(ENOTEMPTY);
        } else if (node[f.node].kind == Dir) return bad(ENOTDIR);
    }
    if (node[f.node].kind == Dir) for (int a = g.parent; a; a = node[a].parent) if (a == f.node) return bad(EINVAL);
    if (fault("rename")) return bad(EACCES);
    if (g.node >= 0) node[g.node].kind = None;
    node[f.node].parent = g.parent;
    for (unsigned k = 0; k < g.nameLen; k++) node[f.node].name[k] = g.name[k];
    node[f.node].name[g.nameLen] = 0;
    changed();
    return 0;
}
int sxk_chdir(const char* p) {
    Found f = find(p, true);
    if (f.err || f.node < 0) return bad(f.err ? f.err : ENOENT);
    if (node[f.node].kind != Dir) return bad(ENOTDIR);
    cwd = f.node;
    return 0;
}
void* sxk_opendir(const char* p) {
    if (fault("opendir")) { errno = EACCES; return nullptr; }
    Found f = find(p, true);
    if (f.err || f.node < 0) { errno = f.err ? f.err : ENOENT; return nullptr; }
    if (node[f.node].kind != Dir) { errno = ENOTDIR; return nullptr; }
    DirH* h = (DirH*) malloc(sizeof(DirH));
    h->node = f.node; h->next = -2;
    openDirs++;
    return h;
}
struct dirent* sxk_readdir(void* d) {
    DirH* h = (DirH*) d;
    int saved = errno;
    memset(&h->ent, 0, 32);
    if (h->next < 0) {
        copyStr(h->ent.d_name, h->next == -2 ? "." : "..");
        h->ent.d_type = unknownTypes ? DT_UNKNOWN : DT_DIR;
        h->next++;
        if (h->next == 0) h->next = 1;
        errno = saved;
        return &h->ent;
    }
    for (; h->next < NODES; h->next++) {
        Node& c = node[h->next];
        if (c.kind == None || c.parent != h->node) continue;
        copyStr(h->ent.d_name, c.name);
        h->ent.d_type = unknownTypes ? DT_UNKNOWN : c.kind == Dir ? DT_DIR : c.kind == Link ? DT_LNK : DT_REG;
        h->next++;
        return &h->ent;
    }
    return nullptr;
}
int sxk_closedir(void* d) { openDirs--; free(d); return 0; }
char* sxk_getcwd(char* buf, size_t n) {
    if (n) { buf[0] = 0; buf[n - 1] = 0; } // the whole buffer is the kernel's to write
    char rev[64]; unsigned at = 64;
    rev[--at] = 0;
    for (int k = cwd; k; k = node[k].parent) {
        unsigned l = (unsigned) strlen(node[k].name);
        at -= l;
        memcpy(rev + at, node[k].name, l);
        rev[--at] = '/';
    }
    if (cwd == 0) rev[--at] = '/';
    if (64 - at > n || fault("getcwd")) { errno = ERANGE; return nullptr; }
    memcpy(buf, rev + at, 64 - at);
    return buf;
}
}
