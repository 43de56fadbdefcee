// C04, C03: descriptor pipes over a model of the kernel: read, write and close are redirected in Pipe_FD.cpp only.
// SX: srcdef Pipe_FD.cpp -Dread=sxk_read -Dwrite=sxk_write -Dclose=sxk_close
#include "pipes.h"
#include <ply-runtime/io/impl/Pipe_FD.h>
using namespace ply;
using namespace sxp;
static char* kBuf; static u32 kLen, kPos, kFaults; static bool kFailed, kClosed; static s32 kFd = 77; static u32 kZero;
extern "C" ssize_t sxk_write(int fd, const void* p, size_t n) {
    CHECK(fd == kFd && !kClosed);
    CHECK(n > 0);
    CHECKM(!kFailed, "no write after a failed write");
    u32 how = kFaults ? (u32) sx_pick(0, 2, "fault") : 0;
    if (how) kFaults--;
    if (how == 1) { errno = EINTR; return -1; }
    if (how == 2) { static const int es[] = {EIO, ENOSPC, EPIPE}; errno = es[sx_pick(0, 2, "errno")]; kFailed = true; return -1; }
    u32 k = n > 1 && kFaults ? (u32) sx_pick(1, n, "short") : (u32) n;
    if (k < n) kFaults--;
    CHECKM(kPos + k <= kLen, "no byte is written twice");
    memcpy(kBuf + kPos, p, k);
    kPos += k;
    return k;
}
extern "C" ssize_t sxk_read(int fd, void* p, size_t n) {
    CHECK(fd == kFd && !kClosed);
    u32 how = kFaults ? (u32) sx_pick(0, 2, "fault") : 0;
    if (how) kFaults--;
    if (how == 1) { errno = EINTR; return -1; }
    if (how == 2) { static const int es[] = {EIO, ECONNRESET}; errno = es[sx_pick(0, 1, "errno")]; kFailed = true; return -1; }
    u32 k = min<u32>((u32) n, kLen - kPos);
    if (k > 1 && kFaults) { u32 k2 = (u32) sx_pick(1, k, "short"); if (k2 < k) kFaults--; k = k2; }
    memcpy(p, kBuf + kPos, k);
    kPos += k;
    return k;
}
extern "C" int sxk_close(int fd) { CHECK(fd == kFd); CHECKM(!kClosed, "closed once"); kClosed = true; return 0; }

ENTRY h_fd_out() {
    sx_mark_heap();
    {
        u32 n = (u32) sx_pick(0, 6, "n");
        SxBuf b(n, "b");
        kBuf = (char*) malloc(8); kLen = n; kPos = 0; kFailed = kClosed = false;
        kFaults = (u32) sx_param("FAULTS", 3);
        u32 half = n ? (u32) sx_pick(0, n, "half") : 0;
        {
            OutPipe_FD p{kFd};
            bool r1 = p.write({b.p, half});
            CHECKM(r1 == !kFailed, "a pipe reports a failed write, and only that");
            if (r1) {
                CHECK(kPos == half);
                bool r2 = p.write({b.p + half, n - half});
                CHECK(r2 == !kFailed);
                if (r2) CHECKM(kPos == n, "all bytes are written");
            }
            CHECK(!kClosed);
        }
        CHECK(kClosed);
        CHECK(sx_eq(kBuf, b.p, kPos));
        free(kBuf);
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_fd_in() {
    sx_mark_heap();
    {
        u32 n = (u32) sx_pick(0, 6, "n");
        SxBuf b(n, "b");
        kBuf = b.p; kLen = n; kPos = 0; kFailed = kClosed = false;
        kFaults = (u32) sx_param("FAULTS", 3);
        char* dst = (char*) malloc(8);
        u32 got = 0;
        {
            InPipe_FD p{kFd};
            for (;;) {
                u32 k = p.readSome({dst + got, 8 - got});
                CHECK(k <= n - got);
                got += k;
                if (k == 0) break;
            }
            CHECKM(kFailed || got == n, "reading stops only at the end or an error");
            CHECK(got == kPos);
        }
        CHECK(kClosed);
        CHECK(got == 0 || sx_eq(dst, b.p, got));
        free(dst);
    }
    sx_check_leaks();
    sx_reach("end");
}
// A whole stream over a descriptor with faults.
ENTRY h_fd_stream() {
    sx_mark_heap();
    {
        u32 n = 130 + (u32) sx_pick(0, 2, "n");
        SxBuf b(n, "b");
        kBuf = (char*) malloc(n); kLen = n; kPos = 0; kFailed = kClosed = false;
        kFaults = 0;
        {
            OutStream o{Owned<OutPipe>{(OutPipe*) new OutPipe_FD{kFd}}, 7};
            kFaults = 1;
            o.write({b.p, 100});
            o.write({b.p + 100, n - 100});
            bool r = o.flush();
            CHECK(r == !kFailed);
            CHECK(o.atEOF() == kFailed);
            if (!kFailed) CHECK(kPos == n);
            kFaults = 0;
        }
        CHECK(kClosed);
        CHECK(sx_eq(kBuf, b.p, kPos));
        free(kBuf);
    }
    sx_check_leaks();
    sx_reach("end");
}
