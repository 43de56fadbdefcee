// Environment model linked into the bitcode only: the few libc calls that start-up code makes.
#include <time.h>
#include <string.h>
#include <pthread.h>
#include <stdlib.h>
extern "C" {
int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = 1000; t->tv_nsec = 0; return 0; }
char* getenv(const char*) { return nullptr; }
pthread_t pthread_self() { return 1; }
}
extern "C" {
long sysconf(int) { return 4096; }
}
#include <sys/mman.h>
extern "C" {
void* mmap(void*, size_t n, int, int, int, off_t) { return calloc(1, n < 65536 ? n : 65536); } // large reservations get a 64K window
int munmap(void* p, size_t) { free(p); return 0; }
// Which pages a program may touch: sx_committed(p) says so symbolically, and touches them natively.
static char *s_committed[32][2];
static unsigned s_numCommitted;
int mprotect(void* p, size_t n, int prot) {
    if ((prot & PROT_WRITE) && s_numCommitted < 32) {
        s_committed[s_numCommitted][0] = (char*) p;
        s_committed[s_numCommitted++][1] = (char*) p + n;
    }
    return 0;
}
int sx_committed(const void* p) {
    for (unsigned i = 0; i < s_numCommitted; i++)
        if ((char*) p >= s_committed[i][0] && (char*) p < s_committed[i][1]) return 1;
    return 0;
}
int madvise(void*, size_t, int) { return 0; }
}
extern "C" {
static const void* s_tls[64];
static unsigned s_numKeys;
int pthread_key_create(pthread_key_t* k, void (*)(void*)) { *k = s_numKeys++; return 0; }
int pthread_key_delete(pthread_key_t) { return 0; }
void* pthread_getspecific(pthread_key_t k) { return (void*) s_tls[k]; }
int pthread_setspecific(pthread_key_t k, const void* v) { s_tls[k] = v; return 0; }
}
// libstdc++'s out-of-line red-black tree operations (std::map), as a plain ordered binary tree: same order, no balancing.
#include <map>
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment((_Rb_tree_node_base*) x); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // end()
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement((_Rb_tree_node_base*) x); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if (p == h._M_left)
            h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right)
            h._M_right = x;
    }
}
} // namespace std
#include <unistd.h>
extern "C" __attribute__((weak)) ssize_t write(int, const void*, size_t n) { return (ssize_t) n; } // log messages
