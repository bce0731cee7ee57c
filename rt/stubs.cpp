// Environment models compiled to bitcode and linked into every analysed module (weak: real code wins).
#include "symx.h"
#include <cerrno>
#include <time.h>
#include <pthread.h>
#include <semaphore.h>
#define W __attribute__((weak))
extern "C" {
static int g_errno;
W int* __errno_location(void) noexcept { return &g_errno; }
W int sched_yield(void) noexcept { symx_yield(); return 0; }
W int nanosleep(const struct timespec*, struct timespec*) { symx_yield(); return 0; }
W int usleep(unsigned) { symx_yield(); return 0; }
W int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { symx_yield(); return 0; }
W int clock_gettime(clockid_t, struct timespec* t) noexcept { static long s = 1000; t->tv_sec = s++; t->tv_nsec = 0; return 0; }
W int getpid(void) noexcept { return 100; }
W pthread_t pthread_self(void) noexcept { return (pthread_t)(symx_tid() + 1000); }
struct SymxMutex { int lock; unsigned count; int owner; unsigned nusers; int kind; }; // layout of glibc's pthread_mutex_t (kind 1: recursive)
W int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { SymxMutex* p = (SymxMutex*)m; int me = symx_tid() + 1, r = 0; symx_atomic_begin(); if (p->kind == 1 && p->lock && p->owner == me) p->count++; else if (__atomic_exchange_n(&p->lock, 1, __ATOMIC_ACQUIRE)) r = EBUSY; else { p->owner = me; p->count = 1; } symx_atomic_end(); return r; }
W int pthread_mutex_lock(pthread_mutex_t* m) noexcept { while (pthread_mutex_trylock(m)) symx_yield(); return 0; }
W int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { SymxMutex* p = (SymxMutex*)m; symx_atomic_begin(); if (p->kind != 1 || --p->count == 0) { p->owner = 0; __atomic_store_n(&p->lock, 0, __ATOMIC_RELEASE); } symx_atomic_end(); return 0; }
W char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
W char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W char* strcat(char* d, const char* s) { char* r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
W char* strncat(char* d, const char* s, size_t n) { char* r = d; while (*d) d++; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
#undef strstr
#undef strchr
#undef strrchr
W char* symx_strstr(const char* h, const char* n) __asm__("strstr");
W char* symx_strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return const_cast<char*>(h); if (!*h) return nullptr; } }
W char* symx_strchr(const char* s, int c) __asm__("strchr");
W char* symx_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return const_cast<char*>(s); if (!*s) return nullptr; } }
W char* symx_strrchr(const char* s, int c) __asm__("strrchr");
W char* symx_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return const_cast<char*>(r); } }
}
// ---- libstdc++ / libc environment used by RouDi's bookkeeping
extern "C" {
W int sem_init(sem_t* s, int, unsigned v) noexcept { *(unsigned*)s = v; return 0; }
W int sem_destroy(sem_t*) noexcept { return 0; }
W int sem_post(sem_t* s) noexcept { __atomic_fetch_add((unsigned*)s, 1u, __ATOMIC_SEQ_CST); return 0; }
// background threads of the introspection are not started (their function only publishes statistics)
W void symx_thread_start(void* self, void** state, void (*)()) __asm__("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
W void (*symx_on_thread)(void* state) = nullptr; // a harness may take over the new thread's state object (it then runs it as a model thread)
W void symx_thread_start(void* self, void** state, void (*)()) { *(unsigned long*)self = 7; if (symx_on_thread) { symx_on_thread(*state); *state = nullptr; } }
W void (*symx_on_join)(void) = nullptr;
W void symx_thread_join(void* self) __asm__("_ZNSt6thread4joinEv");
W void symx_thread_join(void* self) { if (symx_on_join) symx_on_join(); *(unsigned long*)self = 0; }
W void symx_thread_state_dtor(void*) __asm__("_ZNSt6thread6_StateD2Ev");
W void symx_thread_state_dtor(void*) {}
W size_t symx_hash(const void* p, size_t n, size_t seed) __asm__("_ZSt11_Hash_bytesPKvmm");
W size_t symx_hash(const void* p, size_t n, size_t seed) { size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; return h; }
// red-black tree primitives of std::map/std::set (ordering semantics only, no rebalancing)
struct SymxNode { int color; SymxNode *p, *l, *r; };
W void symx_rb_insert(bool left, SymxNode* x, SymxNode* p, SymxNode* h) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
W void symx_rb_insert(bool left, SymxNode* x, SymxNode* p, SymxNode* h) { x->p = p; x->l = x->r = nullptr; x->color = 1; if (left) { p->l = x; if (p == h) { h->p = x; h->r = x; } else if (p == h->l) h->l = x; } else { p->r = x; if (p == h->r) h->r = x; } }
W SymxNode* symx_rb_inc(SymxNode* x) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
W SymxNode* symx_rb_inc(SymxNode* x) { if (x->r) { x = x->r; while (x->l) x = x->l; return x; } SymxNode* y = x->p; while (x == y->r) { x = y; y = y->p; } return x->r != y ? y : x; }
W SymxNode* symx_rb_incc(SymxNode* x) __asm__("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
W SymxNode* symx_rb_incc(SymxNode* x) { return symx_rb_inc(x); }
W SymxNode* symx_rb_dec(SymxNode* x) __asm__("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
W SymxNode* symx_rb_dec(SymxNode* x) { if (x->color == 0 && x->p && x->p->p == x) return x->r; if (x->l) { SymxNode* y = x->l; while (y->r) y = y->r; return y; } SymxNode* y = x->p; while (x == y->l) { x = y; y = y->p; } return y; }
W SymxNode* symx_rb_decc(SymxNode* x) __asm__("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
W SymxNode* symx_rb_decc(SymxNode* x) { return symx_rb_dec(x); }
W SymxNode* symx_rb_erase(SymxNode* z, SymxNode* h) __asm__("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
W SymxNode* symx_rb_erase(SymxNode* z, SymxNode* h) {
    SymxNode* n; if (!z->l) n = z->r; else if (!z->r) n = z->l; else { n = z->r; while (n->l) n = n->l; if (n != z->r) { n->p->l = n->r; if (n->r) n->r->p = n->p; n->r = z->r; z->r->p = n; } n->l = z->l; z->l->p = n; }
    if (n) n->p = z->p; if (h->p == z) h->p = n; else if (z->p->l == z) z->p->l = n; else z->p->r = n;
    SymxNode* root = h->p; if (!root) { h->l = h->r = h; } else { SymxNode* a = root; while (a->l) a = a->l; h->l = a; a = root; while (a->r) a = a->r; h->r = a; } return z; }
}
