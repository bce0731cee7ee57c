//@prop: C13
//@tus: %base
//@bound: sequential: capacity 2 (resizeable: maximum 3, symbolic initial capacity), NOPS symbolic operations (tryPush, push with eviction, pop, setCapacity with remove handler) with symbolic 32-bit values
//@bound: concurrent: 2 to 3 threads with NK operations each, operations symbolic, capacity CAP; all sequentially consistent interleavings of the atomic accesses (busy-wait cycles that change nothing are cut)
//@job: name=seq defs="-DSEQ -DCAP=2 -DNOPS=6" reach=full,evict,empty
//@job: name=seq1 defs="-DSEQ -DCAP=1 -DNOPS=5" reach=full,evict,empty
//@job: name=resize defs="-DRSEQ -DCAP=3 -DNOPS=5" reach=evict,empty,removed,refused
//@job: name=conc1 args="--joinite" defs="-DCONC -DCAP=1 -DNT=2 -DNK=2" reach=done,evict,popped,full
//@job: name=conc2 defs="-DCONC -DCAP=2 -DNT=2 -DNK=2 -DPRE=1" reach=done,popped
//@job: name=concr defs="-DCONC -DRESIZE -DCAP=2 -DNT=2 -DNK=2 -DPRE=2" reach=done,popped,evict
//@job: name=conc3 defs="-DCONC -DCAP=2 -DNT=3 -DNK=1 -DPRE=2" reach=done,evict,popped
//@job: name=conc1b defs="-DCONC -DCAP=1 -DNT=2 -DNK=3" reach=done,evict,popped tier=thorough
//@job: name=conc2b defs="-DCONC -DCAP=2 -DNT=2 -DNK=3 -DPRE=1" reach=done,evict,popped tier=thorough
//@job: name=resize_long defs="-DRSEQ -DCAP=3 -DNOPS=7" reach=evict,empty,removed,refused tier=thorough
#include "symx.h"
#include "iox/detail/mpmc_lockfree_queue.hpp"
#include "iox/detail/mpmc_resizeable_lockfree_queue.hpp"
#include <new>
using namespace iox::concurrent;
#if defined(SEQ)
void symx_main() {
    MpmcLockFreeQueue<uint32_t, CAP> q; uint32_t ref[NOPS + 1]; unsigned h = 0, t = 0;
    for (int k = 0; k < NOPS; k++) {
        symx_join(1);
        CHECK(q.size() == t - h && q.empty() == (h == t) && q.capacity() == CAP, "size, emptiness and capacity exact");
        switch (symx_range("op", 0, 2)) {
        case 0: { uint32_t v = symx_u32("v"); bool r = q.tryPush(v); CHECK(r == (t - h < CAP), "tryPush fails exactly when full"); if (r) ref[t++] = v; else symx_reach("full"); break; }
        case 1: { uint32_t v = symx_u32("v"); auto r = q.push(v); CHECK(r.has_value() == (t - h == CAP), "push evicts exactly when full"); if (r.has_value()) { CHECK(*r == ref[h], "the oldest value is evicted"); h++; symx_reach("evict"); } ref[t++] = v; break; }
        default: { auto r = q.pop(); CHECK(r.has_value() == (h != t), "pop fails exactly when empty"); if (r.has_value()) { CHECK(*r == ref[h], "values leave in order, unchanged"); h++; } else symx_reach("empty"); }
        }
    }
}
#elif defined(RSEQ)
void symx_main() {
    uint64_t cap = symx_concrete(symx_range("cap", 1, CAP)); MpmcResizeableLockFreeQueue<uint32_t, CAP> q(cap); uint32_t ref[NOPS + 1]; unsigned h = 0, t = 0;
    CHECK(q.maxCapacity() == CAP, "maximum capacity");
    for (int k = 0; k < NOPS; k++) {
        symx_join(1);
        CHECK(q.size() == t - h && q.empty() == (h == t) && q.capacity() == cap, "size, emptiness and capacity exact");
        switch (symx_range("op", 0, 3)) {
        case 0: { uint32_t v = symx_u32("v"); bool r = q.tryPush(v); CHECK(r == (t - h < cap), "tryPush fails exactly when full"); if (r) ref[t++] = v; break; }
        case 1: { uint32_t v = symx_u32("v"); auto r = q.push(v); CHECK(r.has_value() == (t - h == cap), "push evicts exactly when full"); if (r.has_value()) { CHECK(*r == ref[h], "the oldest value is evicted"); h++; symx_reach("evict"); } ref[t++] = v; break; }
        case 2: { auto r = q.pop(); CHECK(r.has_value() == (h != t), "pop fails exactly when empty"); if (r.has_value()) { CHECK(*r == ref[h], "values leave in order, unchanged"); h++; } else symx_reach("empty"); break; }
        default: { uint64_t n = symx_concrete(symx_range("n", 1, CAP + 1)); unsigned removed = 0; bool ok = true; bool r = q.setCapacity(n, [&](const uint32_t& v) { if (h + removed >= t || v != ref[h + removed]) ok = false; removed++; symx_reach("removed"); });
            CHECK(r == (n <= CAP), "a capacity beyond the maximum is refused"); CHECK(ok, "shrinking removes the oldest values first and reports each");
            if (r) { unsigned want = t - h > n ? t - h - (unsigned)n : 0; CHECK(removed == want, "shrinking removes only what does not fit"); h += removed; cap = n; } else { CHECK(removed == 0, "a refused resize changes nothing"); symx_reach("refused"); } }
        }
    }
}
#else
#ifndef PRE
#define PRE 0
#endif
#ifdef RESIZE
using Q = MpmcResizeableLockFreeQueue<uint64_t, CAP>;
#else
using Q = MpmcLockFreeQueue<uint64_t, CAP>;
#endif
enum { NV = PRE + NT * NK };
alignas(64) static uint8_t buf[sizeof(Q)];
static bool pushDone[NV], pushStarted[NV], outDone[NV]; static bool before[NV][NV]; /* a's push ended before b's began */ static bool cnt[NT]; static bool act[NT]; static uint32_t fin[NT]; static int sz; static bool evict, popped, full; static uint64_t cap = CAP; static bool resized;
static uint8_t sawOut[NT]; // set of values already out when the operation of this thread began
static void started(int v) { for (int a = 0; a < NV; a++) before[a][v] = pushDone[a]; pushStarted[v] = true; }
static void gotOut(uint64_t v, uint64_t self, int me, bool mine) {
    bool ok = v >= 1 && v <= NV; CHECK(ok, "only pushed values come out"); if (!ok) return; int i = (int)v - 1; CHECK(pushStarted[i] && (v != self), "no value comes out before it is pushed"); CHECK(!outDone[i], "no value comes out twice"); outDone[i] = true;
    if (mine) for (int b = 0; b < NV; b++) CHECK(!(before[i][b] && ((sawOut[me] >> b) & 1)), "values leave in the order in which they were pushed");
}
static uint8_t outs() { uint8_t r = 0; for (int i = 0; i < NV; i++) r = (uint8_t)(r | (outDone[i] ? 1u << i : 0u)); return r; }
static void body(void* p) {
    int me = (int)(uint64_t)p; auto& q = *(Q*)buf; 
    for (int k = 0; k < NK; k++) {
        int v = PRE + me * NK + k; uint64_t val = (uint64_t)v + 1; uint32_t f0[NT]; bool alone = true; for (int o = 0; o < NT; o++) { f0[o] = fin[o]; if (o != me && act[o]) alone = false; }
        int s0 = sz; act[me] = true; sawOut[me] = outs(); uint64_t c0 = cap;
        uint64_t op = symx_concrete(symx_range("op", 0,
#ifdef RESIZE
            me == 0 ? 3 : 2
#else
            2
#endif
        ));
        auto quiet = [&] { for (int o = 0; o < NT; o++) if (o != me && (act[o] || fin[o] != f0[o])) return false; return alone; };
        if (op == 0) { started(v); bool r = q.tryPush(val); if (quiet()) CHECK(r == (s0 < (int)c0), "tryPush fails exactly when full (no other operation in progress)"); if (r) { pushDone[v] = true; sz++; } else { full = true; pushStarted[v] = false; for (int a = 0; a < NV; a++) before[a][v] = false; } }
        else if (op == 1) { started(v); auto r = q.push(val); if (quiet()) CHECK(r.has_value() == (s0 == (int)c0), "push evicts exactly when full (no other operation in progress)"); if (r.has_value()) { gotOut(*r, val, me, true); sz--; evict = true; } pushDone[v] = true; sz++; }
        else if (op == 2) { auto r = q.pop(); if (quiet()) CHECK(r.has_value() == (s0 != 0), "pop fails exactly when empty (no other operation in progress)"); if (r.has_value()) { gotOut(*r, 0, me, true); sz--; popped = true; } }
#ifdef RESIZE
        else { uint64_t n = cap == 1 ? 2 : 1; bool r = q.setCapacity(n, [&](const uint64_t& x) { gotOut(x, 0, me, true); sz--; }); CHECK(r && q.capacity() == n, "resize takes effect"); cap = n; resized = true; }
#endif
        act[me] = false; fin[me]++; 
    }
}
void symx_main() {
#ifdef RESIZE
    new (buf) Q(CAP);
#else
    new (buf) Q();
#endif
    auto& q = *(Q*)buf; for (int i = 0; i < PRE; i++) { started(i); CHECK(q.tryPush((uint64_t)i + 1), "prefill"); pushDone[i] = true; sz++; }
    symx_shared(buf, sizeof buf);
    for (int t = 0; t < NT; t++) symx_spawn(body, (void*)(uint64_t)t, 0);
    symx_run(); symx_reach("done"); if (evict) symx_reach("evict"); if (popped) symx_reach("popped"); if (full) symx_reach("full");
    CHECK((int)q.size() == sz, "size equals values inside"); CHECK(sz >= 0 && sz <= (int)cap, "never more values than the capacity");
    uint8_t earlier = 0; for (int k = 0; k < NV; k++) { auto r = q.pop(); if (!r.has_value()) break; uint64_t v = *r; gotOut(v, 0, 0, false); for (int b = 0; b < NV; b++) CHECK(!((earlier >> b) & 1) || !before[v - 1][b], "drained in push order"); earlier = (uint8_t)(earlier | (1u << (v - 1))); sz--; }
    CHECK(sz == 0 && q.empty(), "all values accounted for"); for (int i = 0; i < NV; i++) CHECK(outDone[i] == pushDone[i], "every pushed value comes out exactly once");
    for (uint64_t i = 0; i < cap; i++) CHECK(q.tryPush(i + 1), "full capacity still usable"); CHECK(!q.tryPush(99), "and no more than that");
}
#endif
