// Pipe stand-ins whose chunk sizes and faults are symbolic.
#pragma once
#include "sx.h"
#include <ply-runtime/Base.h>
namespace sxp {
using namespace ply;

struct ChunkInPipe : InPipe {
    static Funcs F;
    const char* data;
    u32 n;
    u32 pos = 0;
    u32 maxChunk;     // 0: deliver as much as fits
    u32 reads = 0;
    u32 splitReads;   // only the first so many reads have a symbolic size
    bool ended = false;
    bool* destroyed = nullptr;
    ChunkInPipe(const char* d, u32 n, u32 maxChunk = 0, u32 splitReads = 1000)
        : InPipe{&F}, data{d}, n{n}, maxChunk{maxChunk}, splitReads{splitReads} {
    }
};
inline void ChunkIn_destroy(InPipe* p) {
    auto* c = static_cast<ChunkInPipe*>(p);
    if (c->destroyed) *c->destroyed = true;
}
inline u32 ChunkIn_read(InPipe* p, MutableStringView buf) {
    auto* c = static_cast<ChunkInPipe*>(p);
    CHECKM(buf.numBytes > 0, "a pipe is never asked for zero bytes");
    u32 avail = c->n - c->pos;
    u32 k = min(avail, buf.numBytes);
    if (c->maxChunk && k > c->maxChunk) k = c->maxChunk;
    if (k > 1 && c->maxChunk && c->reads < c->splitReads) k = (u32) sx_pick(1, k, "chunk");
    c->reads++;
    memcpy(buf.bytes, c->data + c->pos, k);
    c->pos += k;
    if (k == 0) c->ended = true;
    return k;
}
inline InPipe::Funcs makeChunkInFuncs() {
    InPipe::Funcs f;
    f.destroy = ChunkIn_destroy; f.readSome = ChunkIn_read; f.getFileSize = InPipe::getFileSize_Unsupported;
    return f;
}
InPipe::Funcs ChunkInPipe::F = makeChunkInFuncs();

struct RecOutPipe : OutPipe {
    static Funcs F;
    char* got;
    u32 cap;
    u32 n = 0;
    u32 writes = 0, flushes = 0, devFlushes = 0;
    u32 failAt;        // this write call fails (writing a symbolic prefix)
    bool failed = false;
    bool destroyed = false;
    bool flushFails = false;
    RecOutPipe(u32 cap, u32 failAt = ~0u) : OutPipe{&F}, got{(char*) malloc(cap ? cap : 1)}, cap{cap}, failAt{failAt} {
    }
    StringView view() { return {got, n}; }
};
inline void RecOut_destroy(OutPipe* p) { free(static_cast<RecOutPipe*>(p)->got); static_cast<RecOutPipe*>(p)->got = nullptr; static_cast<RecOutPipe*>(p)->destroyed = true; }
inline bool RecOut_write(OutPipe* p, StringView v) {
    auto* c = static_cast<RecOutPipe*>(p);
    u32 w = c->writes++;
    if (w == c->failAt || c->failed) {
        c->failed = true;
        return false;
    }
    CHECKM(v.numBytes <= c->cap - c->n, "no more bytes are written than were given");
    memcpy(c->got + c->n, v.bytes, v.numBytes);
    c->n += v.numBytes;
    return true;
}
inline bool RecOut_flush(OutPipe* p, bool dev) {
    auto* c = static_cast<RecOutPipe*>(p);
    c->flushes++;
    if (dev) c->devFlushes++;
    return !c->failed && !c->flushFails;
}
inline u64 RecOut_seek(OutPipe*, s64, SeekDir) { return 0; }
inline OutPipe::Funcs makeRecOutFuncs() {
    OutPipe::Funcs f;
    f.destroy = RecOut_destroy; f.write = RecOut_write; f.flush = RecOut_flush; f.seek = RecOut_seek;
    return f;
}
OutPipe::Funcs RecOutPipe::F = makeRecOutFuncs();

inline bool same(StringView a, StringView b) { return a.numBytes == b.numBytes && (a.numBytes == 0 || sx_eq(a.bytes, b.bytes, a.numBytes)); }
} // namespace sxp
