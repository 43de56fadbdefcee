// C04: output streams and descriptor pipes.
#include "pipes.h"
#include <ply-runtime/io/impl/Pipe_FD.h>
using namespace ply;
using namespace sxp;

static const u32 SZ[] = {1, 5, 100, 127, 128, 129, 300};

// What the program gave to the stream, in order. Contents are symbolic.
struct Given {
    SxBuf src;
    u32 n = 0;
    Given(u32 cap) : src{cap, "given"} {}
    char* next(u32 k) { CHECKM(n + k <= src.n, "harness bound"); char* r = src.p + n; n += k; return r; }
};

struct Driver {
    OutStream* out;
    Given& g;
    RecOutPipe* pipe;
    bool ok() { return !pipe || !pipe->failed; }
    void check() {
        if (pipe) {
            CHECK(pipe->n <= g.n);
            if (pipe->n) CHECKM(sx_eq(pipe->got, g.src.p, pipe->n), "destination holds a prefix of what was written");
            if (out->atEOF()) CHECK(pipe->failed);
            if (pipe->failed) CHECK(out->atEOF());
        } else CHECK(!out->atEOF());
        if (ok()) CHECK(out->getSeekPos() == g.n);
    }
    // Room for k bytes was promised, use `use` of them through the buffer.
    void direct(u32 k, u32 use) {
        char* s = g.next(use);
        memcpy(out->curByte, s, use);
        out->curByte += use;
    }
    void op(u32 lo, u32 hi) {
        u32 which = (u32) sx_pick(0, 4, "op");
        u32 k = which >= 1 && which <= 3 ? SZ[sx_pick(lo, hi, "k")] : 0;
        switch (which) {
            case 0: {
                char* s = g.next(1);
                bool r = out->writeByte((u8) *s);
                if (ok()) CHECK(r);
                if (!r) g.n--;
                break;
            }
            case 1: {
                char* s = g.next(k);
                bool r = out->write({s, k});
                CHECKM(r == ok(), "write reports failure");
                break;
            }
            case 2: {
                u32 r = out->tryMakeBytesAvailable(k);
                CHECK(r <= k || r <= out->numBytesAvailable());
                if (ok()) CHECK(r >= k);
                if (r >= k) { CHECK(out->numBytesAvailable() >= k); direct(k, sx_pick(0, 1, "all") ? k : k / 2); }
                break;
            }
            case 3: {
                out->makeBytesAvailable(k);
                CHECK(out->numBytesAvailable() >= k);
                direct(k, sx_pick(0, 1, "all") ? k : k / 2);
                break;
            }
            case 4: {
                bool r = out->flush(sx_pick(0, 1, "dev"));
                CHECKM(r == ok(), "flush reports failure");
                if (pipe && ok()) CHECKM(pipe->n == g.n, "everything arrives by a flush");
                break;
            }
        }
        check();
    }
};

ENTRY h_out_pipe() {
    sx_mark_heap();
    {
        u32 ops = (u32) sx_param("OPS", 3), lo = (u32) sx_param("SZLO", 0), hi = (u32) sx_param("SZHI", 5);
        Given g{ops * SZ[hi] + 4};
        RecOutPipe pipe{g.src.n, sx_param("FAIL", 0) ? (u32) sx_pick(0, 2, "failAt") : ~0u};
        {
            OutStream a{borrow((OutPipe*) &pipe), 7};
            OutStream b{ViewOutStream{MutableStringView{}}};
            Driver d{&a, g, &pipe};
            u32 mv = (u32) sx_pick(0, 2, "moveAt");
            for (u32 i = 0; i < ops; i++) {
                if (i == mv) { b = std::move(a); d.out = &b; CHECK(a.numBytesAvailable() == 0); }
                d.op(lo, hi);
            }
            if (sx_pick(0, 1, "flush")) {
                CHECK(d.out->flush() == d.ok());
                if (d.ok()) CHECK(pipe.n == g.n);
            }
        }
        if (!pipe.failed) CHECKM(pipe.n == g.n, "everything arrives by the close");
        CHECK(sx_eq(pipe.got, g.src.p, pipe.n));
        CHECKM(!pipe.destroyed, "a borrowed pipe outlives the stream");
    }
    sx_check_leaks();
    sx_reach("end");
}

ENTRY h_out_mem() {
    sx_mark_heap();
    {
        u32 ops = (u32) sx_param("OPS", 3), lo = (u32) sx_param("SZLO", 0), hi = (u32) sx_param("SZHI", 6);
        Given g{ops * SZ[hi] + 4};
        MemOutStream m{7};
        Driver d{&m, g, nullptr};
        for (u32 i = 0; i < ops; i++)
            d.op(lo, hi);
        switch (sx_pick(0, 2, "how")) {
            case 0: {
                String s = m.moveToString();
                CHECK(s.numBytes == g.n);
                CHECK(g.n == 0 || sx_eq(s.bytes, g.src.p, g.n));
                break;
            }
            case 1: { // read back through the block list while the stream still exists
                m.flushMem();
                u32 pos = 0;
                for (StringView v : BlockList::iterateOverViews(m.getHeadRef())) {
                    CHECK(v.numBytes <= g.n - pos);
                    CHECK(v.numBytes == 0 || sx_eq(v.bytes, g.src.p + pos, v.numBytes));
                    pos += v.numBytes;
                }
                CHECK(pos == g.n);
                break;
            }
            case 2: break; // abandoned
        }
    }
    sx_check_leaks();
    sx_reach("end");
}

ENTRY h_out_view() {
    u32 cap = (u32) sx_pick(0, 6, "cap");
    SxBuf dst(cap, "dst");
    Given g{40};
    {
        ViewOutStream v{MutableStringView{dst.p, cap}};
        bool over = false;
        for (u32 i = 0; i < (u32) sx_param("OPS", 4); i++) {
            u32 room = cap - g.n;
            if (sx_pick(0, 1, "op")) {
                u32 k = (u32) sx_pick(0, 4, "k");
                char* s = g.next(k);
                bool r = v.write({s, k});
                if (k > room) { over = true; g.n -= k - room; }
                CHECK(r == !over);
            } else {
                char* s = g.next(1);
                bool r = v.writeByte((u8) *s);
                if (!room) { over = true; g.n--; }
                CHECK(r == (room > 0));
            }
            CHECK(v.getSeekPos() == g.n && v.numBytesAvailable() == cap - g.n);
            CHECK(sx_eq(dst.p, g.src.p, g.n));
            CHECK(v.atEOF() == over);
        }
    }
    CHECK(sx_eq(dst.p, g.src.p, g.n));
    sx_reach("end");
}

// Several sizes of block, with one owned pipe.
ENTRY h_out_blocks() {
    static bool destroyed;
    destroyed = false;
    sx_mark_heap();
    {
        struct Owned_ : OutPipe {
            char* got; u32 n = 0; u32 cap;
            Owned_(OutPipe::Funcs* f, u32 cap) : OutPipe{f}, got{(char*) malloc(cap)}, cap{cap} {}
        };
        static OutPipe::Funcs f;
        f.destroy = [](OutPipe* p) { destroyed = true; };
        f.write = [](OutPipe* p_, StringView v) { auto* p = static_cast<Owned_*>(p_); CHECK(v.numBytes <= p->cap - p->n); memcpy(p->got + p->n, v.bytes, v.numBytes); p->n += v.numBytes; return true; };
        f.flush = [](OutPipe*, bool) { return true; };
        f.seek = [](OutPipe*, s64, SeekDir) -> u64 { return 0; };
        u32 exp = (u32) sx_pick(7, 12, "exp"), bs = 1u << exp;
        u32 a = bs - 2 + (u32) sx_pick(0, 4, "a");
        u32 b = (u32) sx_pick(0, 3, "b") * (bs / 2) + 1;
        SxBuf src(a + b, "src");
        Owned_* p = (Owned_*) new Owned_{&f, a + b};
        char* got = p->got;
        {
            OutStream o{Owned<OutPipe>{(OutPipe*) p}, exp};
            CHECK(o.getBlockSize() == bs);
            CHECK(o.write({src.p, a}));
            CHECK(o.write({src.p + a, b}));
            CHECK(o.getSeekPos() == a + b);
            CHECK(o.flush());
            CHECK(p->n == a + b);
        }
        CHECK(destroyed);
        CHECK(sx_eq(got, src.p, a + b));
        free(got);
    }
    sx_reach("end");
}


// The block list underneath, driven directly.
ENTRY h_blocklist() {
    sx_mark_heap();
    {
        static const u32 sz[] = {1, 7, 2040, 2048, 2049};
        Given g{4 * 2049};
        BlockList bl;
        u32 tailUsed = 0;
        for (u32 i = 0; i < (u32) sx_param("OPS", 4); i++) {
            if (sx_pick(0, 1, "op")) {
                u32 k = sz[sx_pick(0, 4, "k")];
                char* s = g.next(k);
                char* d = bl.appendBytes(k);
                memcpy(d, s, k);
            } else {
                static const u32 pops[] = {0, 1, 7, 2040};
                u32 k = pops[sx_pick(0, 3, "pop")];
                if (k == 2040) k = bl.tail->numBytesUsed;
                ASSUME(k <= bl.tail->numBytesUsed);
                bl.popLastBytes(k);
                g.n -= k;
            }
            u32 pos = 0;
            BlockList::WeakRef end = bl.end();
            for (StringView v : BlockList::iterateOverViews({bl.head, bl.head->start()}, sx_pick(0, 1, "bound") ? end : BlockList::WeakRef{})) {
                CHECK(v.numBytes <= g.n - pos);
                CHECK(v.numBytes == 0 || sx_eq(v.bytes, g.src.p + pos, v.numBytes));
                pos += v.numBytes;
            }
            CHECK(pos == g.n);
        }
        String s = BlockList::toString(BlockList::Ref{std::move(bl.head), bl.head->start()});
        CHECK(s.numBytes == g.n && (g.n == 0 || sx_eq(s.bytes, g.src.p, g.n)));
    }
    sx_check_leaks();
    sx_reach("end");
}
