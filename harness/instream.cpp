// C03: input streams.
#include "pipes.h"
#include <ply-runtime/io/impl/Pipe_FD.h>
using namespace ply;
using namespace sxp;

// A source whose chunk sizes come from a small menu that straddles block boundaries.
struct MenuPipe : InPipe {
    static Funcs F;
    const char* data; u32 n; u32 pos = 0; u32 picks; u32 calls = 0; u32 endCalls = 0;
    MenuPipe(const char* d, u32 n, u32 picks) : InPipe{&F}, data{d}, n{n}, picks{picks} {}
};
static void Menu_destroy(InPipe*) {}
static u32 Menu_read(InPipe* p_, MutableStringView buf) {
    auto* p = static_cast<MenuPipe*>(p_);
    CHECKM(buf.numBytes > 0, "a pipe is never asked for zero bytes");
    u32 k = min(p->n - p->pos, buf.numBytes);
    if (p->calls < p->picks && k > 1) {
        static const u32 menu[] = {~0u, 1, 100, 2};
        u32 w = menu[sx_pick(0, sx_param("MENU", 3), "chunk")];
        if (w < k) k = w;
    }
    p->calls++;
    memcpy(buf.bytes, p->data + p->pos, k);
    p->pos += k;
    if (k == 0) p->endCalls++;
    return k;
}
static InPipe::Funcs menuFuncs() { InPipe::Funcs f; f.destroy = Menu_destroy; f.readSome = Menu_read; f.getFileSize = InPipe::getFileSize_Unsupported; return f; }
InPipe::Funcs MenuPipe::F = menuFuncs();

struct Model {
    InStream* ins;
    const char* data;
    u32 n;
    u32 pos = 0;
    bool sawEnd = false;
    void checkView() {
        StringView v = ins->viewAvailable();
        CHECK(v.numBytes <= n - pos);
        if (v.numBytes > 0) CHECK(sx_eq(v.bytes, data + pos, v.numBytes));
        CHECK(ins->getSeekPos() == pos);
        if (ins->atEOF()) CHECKM(sawEnd, "end of file is only reported once the end was met");
    }
    void readByte() {
        if (pos == n) sawEnd = true;
        u8 b = ins->readByte();
        if (pos < n) { CHECK(b == (u8) data[pos]); pos++; }
        else { CHECK(b == 0); CHECK(ins->atEOF()); }
    }
    void read(u32 k) {
        bool wasEnd = ins->atEOF();
        char* dst = (char*) malloc(k);
        memset(dst, 0x77, k);
        if (pos + k > n) sawEnd = true;
        bool ok = ins->read({dst, k});
        u32 rem = n - pos;
        if (k <= rem) {
            CHECK(sx_eq(dst, data + pos, k));
            if (!wasEnd) CHECK(ok);
            pos += k;
        } else {
            CHECK(!ok);
            CHECK(ins->atEOF());
            if (!wasEnd) { // what is missing reads as zero
                if (rem) CHECK(sx_eq(dst, data + pos, rem));
                for (u32 i = rem; i < k; i++) CHECK(dst[i] == 0);
                pos = n;
            }
        }
        free(dst);
    }
    void skip(u32 k) {
        bool wasEnd = ins->atEOF();
        if (pos + k > n) sawEnd = true;
        bool ok = ins->skip(k);
        if (k <= n - pos) {
            if (!wasEnd) CHECK(ok);
            pos += k;
        } else {
            CHECK(!ok);
            CHECK(ins->atEOF());
            if (!wasEnd) pos = n;
        }
    }
    void look(u32 k) {
        if (pos + k > n) sawEnd = true;
        u32 r = ins->tryMakeBytesAvailable(k);
        u32 avail = (u32) ins->numBytesAvailable();
        if (n - pos >= k) { CHECK(r >= k && avail >= k); }
        else { CHECK(r == n - pos && avail == n - pos); if (!ins->isView() || avail == 0) CHECK(ins->atEOF()); }
        CHECK(r <= avail);
    }
};

static void drive(InStream& ins, const char* data, u32 n, u32 ops, bool pipe) {
    static const u32 sizes[] = {1, 5, 27, 28, 100, 128, 129, 300};
    Model m{&ins, data, n};
    BlockList::Ref saved;
    u32 savedPos = 0;
    bool have = false;
    u32 lo = sx_param("SZLO", 0), hi = sx_param("SZHI", 3);
    for (u32 i = 0; i < ops; i++) {
        switch (sx_pick(0, pipe ? 6 : 3, "op")) {
            case 0: m.readByte(); break;
            case 1: m.read(sizes[sx_pick(lo, hi, "k")]); break;
            case 2: m.skip(sizes[sx_pick(lo, hi, "k")]); break;
            case 3: m.look(sizes[sx_pick(lo, hi, "k")]); break;
            case 4: saved = ins.getBlockRef(); savedPos = m.pos; have = true; break;
            case 5:
                ASSUME(have);
                ins.rewind(saved);
                m.pos = savedPos;
                m.sawEnd = false;
                CHECK(!ins.atEOF());
                break;
            case 6: { // everything between the saved position and here
                ASSUME(have && savedPos <= m.pos);
                String t = BlockList::toString(BlockList::Ref{saved}, ins.getBlockRef());
                CHECK(t.numBytes == m.pos - savedPos);
                if (t.numBytes) CHECK(sx_eq(t.bytes, data + savedPos, t.numBytes));
                break;
            }
        }
        m.checkView();
    }
    // everything that is left arrives, then end of file for good
    u32 left = n - m.pos;
    if (pipe) {
        u32 how = (u32) sx_pick(0, 1, "finish");
        if (how == 0) {
            String rest = ins.readRemainingContents();
            CHECK(rest.numBytes == left);
            if (left) CHECK(sx_eq(rest.bytes, data + m.pos, left));
            CHECK(ins.atEOF());
            CHECK(ins.tryMakeBytesAvailable() == 0);
            CHECK(ins.readByte() == 0);
            return;
        }
    }
    while (m.pos < n) {
        u32 r = ins.tryMakeBytesAvailable();
        CHECK(r > 0);
        if (r == 0) return;
        u32 a = (u32) ins.numBytesAvailable();
        CHECK(a <= n - m.pos);
        CHECK(sx_eq(ins.curByte, data + m.pos, a));
        ins.advanceByte(a);
        m.pos += a;
    }
    CHECK(ins.tryMakeBytesAvailable() == 0);
    CHECK(ins.atEOF());
    CHECK(ins.readByte() == 0);
    char c = 1;
    CHECK(!ins.read({&c, 1}));
    CHECK(ins.atEOF());
}

static void pipeCase(u32 ops) {
    sx_mark_heap();
    {
        static const u32 lens[] = {0, 1, 27, 130, 290};
        u32 n = lens[sx_pick(sx_param("LENLO", 0), sx_param("LENHI", 4), "len")];
        SxBuf b(n, "b");
        MenuPipe p{b.p, n, (u32) sx_param("PICKS", 3)};
        {
            InStream ins{borrow((InPipe*) &p), (u32) sx_param("EXP", 7)};
            if (sx_pick(0, 1, "move")) {
                InStream moved{std::move(ins)};
                CHECK(ins.tryMakeBytesAvailable() == 0 && ins.atEOF());
                drive(moved, b.p, n, ops, true);
            } else {
                drive(ins, b.p, n, ops, true);
            }
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_in_pipe() { pipeCase((u32) sx_param("OPS", 3)); }

ENTRY h_in_view() {
    u32 n = (u32) sx_pick(0, 6, "len");
    SxBuf b(n, "b");
    ViewInStream ins{StringView{b.p, n}};
    drive(ins, b.p, n, (u32) sx_param("OPS", 4), false);
    sx_reach("end");
}

// A chain of look-ahead, save and rewind that always starts near a block boundary.
ENTRY h_in_boundary() {
    sx_mark_heap();
    {
        u32 n = (u32) sx_param("N", 140);
        SxBuf b(n, "b");
        MenuPipe p{b.p, n, 2};
        InStream ins{borrow((InPipe*) &p), 7};
        Model m{&ins, b.p, n};
        m.skip((u32) sx_pick(120, 128, "start"));
        m.checkView();
        BlockList::Ref r1 = ins.getBlockRef();
        u32 p1 = m.pos;
        m.look((u32) sx_pick(1, 10, "k1"));
        m.checkView();
        m.skip((u32) sx_pick(0, 3, "s"));
        m.checkView();
        BlockList::Ref r2 = ins.getBlockRef();
        u32 p2 = m.pos;
        m.look((u32) sx_pick(1, 6, "k2"));
        m.checkView();
        m.readByte();
        m.checkView();
        String t = BlockList::toString(BlockList::Ref{r1}, ins.getBlockRef());
        CHECK(t.numBytes == m.pos - p1 && sx_eq(t.bytes, b.p + p1, t.numBytes));
        t = BlockList::toString(BlockList::Ref{r2}, ins.getBlockRef());
        CHECK(t.numBytes == m.pos - p2 && sx_eq(t.bytes, b.p + p2, t.numBytes));
        if (sx_pick(0, 1, "which")) { ins.rewind(r2); m.pos = p2; }
        else { ins.rewind(r1); m.pos = p1; }
        m.sawEnd = false;
        m.checkView();
        String rest = ins.readRemainingContents();
        CHECK(rest.numBytes == n - m.pos);
        CHECK(sx_eq(rest.bytes, b.p + m.pos, n - m.pos));
    }
    sx_check_leaks();
    sx_reach("end");
}
// Look-aheads over several blocks that were read before, twice.
ENTRY h_in_far() {
    sx_mark_heap();
    {
        static const u32 amounts[] = {1, 127, 128, 129, 200, 256, 257, 300, 384, 390};
        u32 n = (u32) sx_param("N", 400), na = (u32) sx_param("AMOUNTS", 10);
        SxBuf b(n, "b");
        MenuPipe p{b.p, n, 0};
        InStream ins{borrow((InPipe*) &p), 7};
        Model m{&ins, b.p, n};
        m.skip((u32) sx_pick(0, 1, "start"));
        BlockList::Ref r1 = ins.getBlockRef();
        u32 p1 = m.pos;
        m.read(amounts[sx_pick(0, na - 1, "read")]);
        m.checkView();
        BlockList::Ref r2 = ins.getBlockRef();
        u32 p2 = m.pos;
        for (u32 i = 0; i < (u32) sx_param("ROUNDS", 2); i++) {
            u32 to = (u32) sx_pick(0, 2, "rewind");
            if (to == 1) { ins.rewind(r1); m.pos = p1; m.sawEnd = false; }
            if (to == 2) { ins.rewind(r2); m.pos = p2; m.sawEnd = false; }
            m.checkView();
            if (sx_pick(0, 1, "skip")) m.skip(amounts[sx_pick(0, 3, "by")]);
            m.look(amounts[sx_pick(0, na - 1, "look")]);
            m.checkView();
        }
        if (sx_pick(0, 1, "again")) { ins.rewind(r1); m.pos = p1; m.sawEnd = false; }
        m.read(amounts[sx_pick(0, na - 1, "read")]);
        m.checkView();
        String rest = ins.readRemainingContents();
        CHECK(rest.numBytes == n - m.pos);
        CHECK(sx_eq(rest.bytes, b.p + m.pos, n - m.pos));
    }
    sx_check_leaks();
    sx_reach("end");
}
