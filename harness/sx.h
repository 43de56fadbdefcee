// Harness interface. Under the symbolic executor these are intrinsics; in the native replay binary they are
// implemented by native.cpp, which feeds the solver's counterexample back to the real code.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
extern "C" {
void sx_bytes(void* p, uint64_t n, const char* name);               // fill with symbolic bytes
uint64_t sx_var(int bits, const char* name);                        // symbolic bit-vector
uint64_t sx_range(uint64_t lo, uint64_t hi, const char* name);      // symbolic value in [lo, hi]
void sx_assume_(bool c);
void sx_assert_(bool c, const char* msg);                           // the solver decides this over all values
void sx_reach(const char* label);                                   // reachability witness
int64_t sx_param(const char* name, int64_t dflt);                   // bound chosen by the runner
void sx_mark_heap();                                                // leak accounting starts here
void sx_check_leaks();                                              // every block allocated since is freed
uint64_t sx_live_allocs();                                          // blocks live since the mark
bool sx_eq(const void* p, const void* q, uint64_t n);               // one non-forking comparison of n bytes
uint64_t sx_concrete(uint64_t v);                                   // split the path on every value of v
bool sx_is_sym(uint64_t v);
void sx_print(const char* s, uint64_t v);
void sx_stop();
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define CHECK(c) sx_assert_((bool) (c), #c " [" __FILE__ ":" SX_STR(__LINE__) "]")
#define CHECKM(c, m) sx_assert_((bool) (c), m " [" __FILE__ ":" SX_STR(__LINE__) "]")
#define ASSUME(c) sx_assume_((bool) (c))
#define ENTRY extern "C" void
// Value in [lo, hi], concrete on each path.
static inline uint64_t sx_pick(uint64_t lo, uint64_t hi, const char* name) {
    return sx_concrete(sx_range(lo, hi, name));
}
// Exactly-sized heap block so that any out-of-bounds access is detected.
struct SxBuf {
    char* p;
    uint32_t n;
    SxBuf(uint32_t n_, const char* name) : p((char*) malloc(n_ ? n_ : 1)), n(n_) {
        if (n_) sx_bytes(p, n_, name);
    }
    ~SxBuf() { free(p); }
    SxBuf(const SxBuf&) = delete;
};
