//@prop: C12
//@tus: %base
//@bound: sequential: maximum capacity 3, NOPS symbolic push/pop/resize with symbolic values
//@bound: concurrent: 1 producer (NP pushes), 1 consumer (NC pops), capacity 1..2, all sequentially consistent interleavings of shared accesses
//@job: name=seq defs="-DSEQ -DCAP=2 -DNOPS=6" reach=overflow,empty,wrap,resized
//@job: name=seq3 defs="-DSEQ -DCAP=3 -DNOPS=8" reach=overflow,empty,wrap,resized tier=thorough
//@job: name=conc1 args="--joinite" defs="-DCONC -DCAP=1 -DNP=3 -DNC=2" reach=done,some,overflow
//@job: name=conc2 args="--joinite" defs="-DCONC -DCAP=2 -DNP=4 -DNC=2" reach=done,some,overflow
//@job: name=conc2b defs="-DCONC -DCAP=2 -DNP=5 -DNC=3" reach=done,some,overflow tier=thorough
#include "symx.h"
#include "iox/detail/spsc_sofi.hpp"
#include <new>
using namespace iox::concurrent;
#ifdef SEQ
void symx_main() {
    SpscSofi<uint32_t, CAP> q; uint32_t ref[NOPS]; unsigned h = 0, t = 0, cap = CAP;
    for (int k = 0; k < NOPS; k++) {
        symx_join(1);
        CHECK(q.size() == t - h && q.empty() == (h == t) && q.capacity() == cap, "size, emptiness and capacity exact");
        switch (symx_concrete(symx_range("op", 0, 2))) {
        case 0: { uint32_t v = symx_u32("v"), o = 0; bool r = q.push(v, o); if (t - h == cap) { CHECK(!r, "overflow reported"); CHECK(o == ref[h], "oldest value handed back"); h++; symx_reach("overflow"); } else CHECK(r, "no overflow while there is room"); ref[t++] = v; if (t > CAP + 1) symx_reach("wrap"); break; }
        case 1: { uint32_t o = 0; bool r = q.pop(o); CHECK(r == (h != t), "pop fails exactly when empty"); if (r) { CHECK(o == ref[h], "values leave in order"); h++; } else symx_reach("empty"); break; }
        default: { uint64_t n = symx_concrete(symx_range("cap", 0, CAP + 1)); bool e = h == t; bool r = q.setCapacity(n); CHECK(r == (e && n <= CAP), "resize accepted exactly when empty and within the maximum"); if (r) { cap = (unsigned)n; symx_reach("resized"); } symx_assume(cap > 0); break; }
        }
    }
}
#else
struct V { uint64_t a, b; };
using Q = SpscSofi<V, CAP>; alignas(64) static uint8_t buf[sizeof(Q)]; static uint64_t out[NC]; static uint64_t evict[NP]; static int nout, nev, done;
static void prod(void*) { auto& q = *(Q*)buf; for (int k = 0; k < NP; k++) { V v{(uint64_t)k + 1, ~((uint64_t)k + 1)}, o{0, 0}; bool r = q.push(v, o); if (!r) { CHECK(o.a == ~o.b, "evicted value is not torn"); evict[nev++] = o.a; } done = k + 1; } }
static void cons(void*) { auto& q = *(Q*)buf; for (int k = 0; k < NC; k++) { int avail = done - nev - nout; V o{0, 0}; if (q.pop(o)) { CHECK(o.a == ~o.b, "received value is not torn"); CHECK(o.a >= 1 && o.a <= NP, "received value was sent"); out[nout++] = o.a; } else CHECK(avail <= 1, "pop refused although values were available"); } }
void symx_main() {
    new (buf) Q(); symx_shared(buf, sizeof buf); symx_spawn(prod, nullptr, 0); symx_spawn(cons, nullptr, 0); symx_run(); symx_reach("done");
    auto& q = *(Q*)buf; if (nout) symx_reach("some"); if (nev) symx_reach("overflow");
    uint64_t rest[NP + 1]; int nr = 0; V o; while (nr <= NP && q.pop(o)) rest[nr++] = o.a; CHECK(nr <= CAP, "holds at most its capacity");
    for (int i = 1; i < nout; i++) CHECK(out[i] > out[i - 1], "received in order, none twice");
    for (int i = 1; i < nev; i++) CHECK(evict[i] > evict[i - 1], "evicted in order, none twice");
    for (int i = 1; i < nr; i++) CHECK(rest[i] == rest[i - 1] + 1, "rest contiguous"); if (nr) CHECK(rest[nr - 1] == NP, "the newest value is kept");
    // every value leaves exactly once: received, evicted, or still stored
    for (uint64_t v = 1; v <= NP; v++) { int c = 0; for (int i = 0; i < nout; i++) c += out[i] == v; for (int i = 0; i < nev; i++) c += evict[i] == v; for (int i = 0; i < nr; i++) c += rest[i] == v; CHECK(c == 1, "each value is received, evicted or stored, exactly once"); }
}
#endif
