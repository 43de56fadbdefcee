// Replays one solver model against the natively compiled real code.
#include "sx.h"
#include <dlfcn.h>
#include <map>
#include <stdio.h>
#include <string>
#include <unistd.h>
#include <vector>
#include <sanitizer/allocator_interface.h>

extern "C" int sx_committed(const void* p) { return *(const volatile char*) p, 1; }
static std::vector<std::pair<std::string, std::vector<uint8_t>>>* inputs;
static size_t nextInput = 0;
static std::map<std::string, int64_t>* params;
static bool counting = false;
static bool internal_ = false;
static uint64_t live = 0;
struct Blk { const volatile void* p; };
static const size_t TAB = 1 << 16;
static Blk tab[TAB];
static size_t slotOf(const volatile void* p) { return ((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
static void onMalloc(const volatile void* p, size_t) {
    if (!counting || internal_ || !p) return;
    size_t s = slotOf(p);
    while (tab[s & (TAB - 1)].p && tab[s & (TAB - 1)].p != (void*) 1) s++;
    tab[s & (TAB - 1)].p = p;
    live++;
}
static void onFree(const volatile void* p) {
    if (!counting || internal_ || !p) return;
    size_t s = slotOf(p);
    for (; tab[s & (TAB - 1)].p; s++)
        if (tab[s & (TAB - 1)].p == p) { tab[s & (TAB - 1)].p = (void*) 1; live--; return; }
}
struct Int { bool o; Int() : o(internal_) { internal_ = true; } ~Int() { internal_ = o; } };

// What libc allocates to remember the destructors of function-local statics is not the program's.
extern "C" int __cxa_atexit(void (*f)(void*), void* p, void* d) {
    static auto real = (int (*)(void (*)(void*), void*, void*)) dlsym(RTLD_NEXT, "__cxa_atexit");
    Int g;
    return real(f, p, d);
}
static const std::vector<uint8_t>* take(const char* name) {
    if (nextInput >= inputs->size()) {
        fprintf(stderr, "replay: no more inputs at %s, using zero\n", name);
        return nullptr;
    }
    auto& in = (*inputs)[nextInput++];
    if (in.first != name) {
        fprintf(stderr, "replay: diverged, wanted %s got %s\n", name, in.first.c_str());
        _exit(9);
    }
    return &in.second;
}
extern "C" {
void sx_bytes(void* p, uint64_t n, const char* name) {
    Int g;
    auto* v = take(name);
    for (uint64_t i = 0; i < n; i++) ((uint8_t*) p)[i] = v && i < v->size() ? (*v)[i] : 0;
}
uint64_t sx_var(int bits, const char* name) {
    Int g;
    auto* v = take(name);
    uint64_t r = 0;
    if (v) for (size_t i = 0; i < v->size() && i < 8; i++) r |= (uint64_t) (*v)[i] << (8 * i);
    if (bits < 64) r &= (1ull << bits) - 1;
    return r;
}
uint64_t sx_range(uint64_t lo, uint64_t hi, const char* name) {
    uint64_t v = sx_var(64, name);
    if (v < lo || v > hi) { if (nextInput >= inputs->size()) return lo; fprintf(stderr, "replay: range\n"); _exit(9); }
    return v;
}
void sx_assume_(bool c) { if (!c) { fprintf(stderr, "replay: assumption not met\n"); _exit(9); } }
void sx_assert_(bool c, const char* msg) {
    if (!c) { printf("REPLAY-ASSERT %s\n", msg); fflush(stdout); _exit(3); }
}
void sx_reach(const char*) {}
int64_t sx_param(const char* name, int64_t d) { Int g; auto it = params->find(name); return it == params->end() ? d : it->second; }
void sx_mark_heap() { memset(tab, 0, sizeof tab); live = 0; counting = true; }
void sx_check_leaks() { counting = false; if (live) { printf("REPLAY-LEAK %llu blocks\n", (unsigned long long) live); fflush(stdout); _exit(4); } }
uint64_t sx_live_allocs() { return live; }
bool sx_eq(const void* p, const void* q, uint64_t n) { return n == 0 || memcmp(p, q, n) == 0; }
uint64_t sx_concrete(uint64_t v) { return v; }
bool sx_is_sym(uint64_t) { return false; }
void sx_print(const char* s, uint64_t v) { if (getenv("SX_VERBOSE")) fprintf(stderr, "%s %llu\n", s, (unsigned long long) v); }
void sx_stop() { _exit(0); }
}
int main(int argc, char** argv) { // entry inputfile [k=v...]
    internal_ = true;
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    inputs = new std::vector<std::pair<std::string, std::vector<uint8_t>>>;
    params = new std::map<std::string, int64_t>;
    FILE* f = fopen(argv[2], "r");
    char name[256];
    static char hex[1 << 20];
    while (f && fscanf(f, "%255s %1048575s", name, hex) == 2) {
        std::vector<uint8_t> v;
        for (size_t i = 1; hex[i] && hex[i + 1]; i += 2) { unsigned x; sscanf(hex + i, "%2x", &x); v.push_back((uint8_t) x); }
        inputs->push_back({name, v});
    }
    if (f) fclose(f);
    for (int i = 3; i < argc; i++) {
        std::string s = argv[i];
        size_t e = s.find('=');
        if (e != std::string::npos) (*params)[s.substr(0, e)] = atoll(s.c_str() + e + 1);
    }
    void (*fn)() = (void (*)()) dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 8; }
    internal_ = false;
    fn();
    printf("REPLAY-OK\n");
    fflush(stdout);
    _exit(0);
}
