// Native implementation of the harness API for replaying counterexamples on the compiled code.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <set>
#include <pthread.h>
#include <unistd.h>
#include <signal.h>
static std::map<std::string, unsigned long long> vals; static std::map<std::string, unsigned> cnt; static bool loaded = false, expectFatal = false;
static std::set<std::pair<unsigned, unsigned>> written; static std::vector<int> sched; static size_t schedPos = 0;
static void load() { if (loaded) return; loaded = true; const char* f = getenv("SYMX_INPUTS"); if (!f) return; FILE* p = fopen(f, "r"); if (!p) return; char n[4096]; unsigned long long v; while (fscanf(p, "%4095s %llu", n, &v) == 2) { vals[n] = v; unsigned r, o; if (sscanf(n, "@w:%u:%u", &r, &o) == 2) written.insert({r, o}); } fclose(p);
    const char* g = getenv("SYMX_SCHED"); if (g) { p = fopen(g, "r"); int t; while (p && fscanf(p, "%d", &t) == 1) sched.push_back(t); if (p) fclose(p); } }
static std::string nm(const char* s) { unsigned k = cnt[s]++; return k ? std::string(s) + "#" + std::to_string(k) : s; }
static uint64_t get(const std::string& s) { load(); auto i = vals.find(s); return i == vals.end() ? 0 : i->second; }
static void onFatal(int) { if (expectFatal) { const char m[] = "REPLAY: expected fatal\n"; (void)!write(2, m, sizeof m - 1); _exit(0); } const char m[] = "REPLAY-VIOLATION fatal: unexpected termination\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }
extern "C" {
uint8_t symx_u8(const char* n) { return (uint8_t)get(nm(n)); }
uint16_t symx_u16(const char* n) { return (uint16_t)get(nm(n)); }
uint32_t symx_u32(const char* n) { return (uint32_t)get(nm(n)); }
uint64_t symx_u64(const char* n) { return get(nm(n)); }
bool symx_bool(const char* n) { return get(nm(n)) & 1; }
uint64_t symx_range(const char* n, uint64_t lo, uint64_t hi) { uint64_t v = get(nm(n)); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
void symx_bytes(void* p, uint64_t n, const char* name) { std::string b = nm(name); for (uint64_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)get(b + "[" + std::to_string(i) + "]"); }
void symx_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY: assumption not satisfied\n"); _exit(0); } }
void symx_assert(bool c, const char* m) { if (!c) { fprintf(stderr, "REPLAY-VIOLATION assert: %s\n", m); _exit(77); } }
void symx_reach(const char*) {}
void symx_merge(uint64_t) {}
void symx_join(uint64_t) {}
void symx_expect_fatal(const char*) { expectFatal = true; }
void symx_no_fatal(void) { expectFatal = false; }
uint64_t symx_concrete(uint64_t v) { return v; }
void symx_note(const char* n, uint64_t v) { fprintf(stderr, "note %s = %llu\n", n, (unsigned long long)v); }
bool symx_native(void) { return true; }
void symx_atomic_begin(void) {}
void symx_atomic_end(void) {}
void symx_allow_deadlock(void) {}
void symx_race(const void*, uint64_t) {}
void symx_poison(const void*, uint64_t) {}
void symx_unpoison(const void*, uint64_t) {}
void symx_exit(void) { fprintf(stderr, "REPLAY: path ended\n"); _exit(0); }
// --- deterministic scheduler: one logical thread runs at a time, hand-over only before shared accesses
struct Rng { const char* a; uint64_t n; }; static std::vector<Rng> ranges;
struct Th { void (*fn)(void*); void* arg; pthread_t t; bool done = false, crashed = false; }; static std::vector<Th> ths(1); static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER; static bool running = false; static __thread int me = 0; static bool stopSched = false;
void symx_shared(const void* p, uint64_t n) { ranges.push_back({(const char*)p, n}); }
void symx_unshare(void) { ranges.clear(); }
int symx_tid(void) { return me; }
int symx_spawn(void (*fn)(void*), void* arg, int) { Th t; t.fn = fn; t.arg = arg; ths.push_back(t); return (int)ths.size() - 1; }
bool symx_crashed(int t) { return ths[t].crashed; }
static bool shared(const void* p) { for (auto& r : ranges) if ((const char*)p >= r.a && (const char*)p < r.a + r.n) return true; return false; }
static void waitTurn() { // next entry in the schedule must be me
    pthread_mutex_lock(&mx);
    for (;;) { if (schedPos >= sched.size()) { stopSched = true; pthread_cond_broadcast(&cv); break; }
        int s = sched[schedPos]; int t = s >= 100 ? s - 100 : s;
        if (t == me) { schedPos++; if (s >= 100) { ths[me].crashed = true; ths[me].done = true; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mx); pthread_exit(nullptr); } pthread_cond_broadcast(&cv); break; }
        if (t < (int)ths.size() && ths[t].done) { schedPos++; continue; }
        pthread_cond_wait(&cv, &mx); }
    pthread_mutex_unlock(&mx); }
static bool rdVisible(const void* p, uint64_t n) { for (unsigned r = 0; r < ranges.size(); r++) for (uint64_t i = 0; i < n; i++) { const char* q = (const char*)p + i; if (q >= ranges[r].a && q < ranges[r].a + ranges[r].n && written.count({r, (unsigned)(q - ranges[r].a)})) return true; } return false; }
void symx_rt_point(const void* a, const void* b, uint64_t n, uint64_t wr) { if (!running || me == 0 || n == 0) return; if ((wr ? shared(a) : rdVisible(a, n)) || (b && rdVisible(b, n))) waitTurn(); }
void symx_yield(void) { if (stopSched) sched_yield(); }
static void* body(void* p) { me = (int)(intptr_t)p; ths[me].fn(ths[me].arg); pthread_mutex_lock(&mx); ths[me].done = true; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mx); return nullptr; }
void symx_run(void) { load(); running = true; for (size_t i = 1; i < ths.size(); i++) pthread_create(&ths[i].t, nullptr, body, (void*)(intptr_t)i); for (size_t i = 1; i < ths.size(); i++) pthread_join(ths[i].t, nullptr); running = false; }
}
int main() { signal(SIGABRT, onFatal); signal(SIGSEGV, onFatal); signal(SIGILL, onFatal); signal(SIGTRAP, onFatal); alarm(60); symx_main(); fprintf(stderr, "REPLAY: completed without violation\n"); return 0; }
