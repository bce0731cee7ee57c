//@prop: C11
//@tus: %base
//@bound: sequential: capacity 1..3, NOPS symbolic push/pop with symbolic 32-bit values
//@bound: concurrent: 1 producer (NP pushes), 1 consumer (NC pops), capacity 1..2, all sequentially consistent interleavings of shared accesses; additionally every non-atomic access is checked for happens-before order under the C++ memory model
//@job: name=seq defs="-DSEQ -DCAP=2 -DNOPS=6" reach=full,empty,wrap
//@job: name=seq3 defs="-DSEQ -DCAP=3 -DNOPS=8" reach=full,empty,wrap tier=thorough
//@job: name=conc1 args="--joinite" defs="-DCONC -DCAP=1 -DNP=3 -DNC=3" reach=done,some,full
//@job: name=conc2 args="--joinite" defs="-DCONC -DCAP=2 -DNP=4 -DNC=4" reach=done,some,full
//@job: name=race1 defs="-DCONC -DRACE -DCAP=1 -DNP=2 -DNC=3" reach=done,some
//@job: name=race2 defs="-DCONC -DRACE -DCAP=2 -DNP=4 -DNC=4" reach=done,some tier=thorough
#include "symx.h"
#include "iox/detail/spsc_fifo.hpp"
#include <new>
using namespace iox::concurrent;
#ifdef SEQ
void symx_main() {
    SpscFifo<uint32_t, CAP> q; uint32_t ref[NOPS]; unsigned h = 0, t = 0; 
    for (int k = 0; k < NOPS; k++) {
        symx_join(1);
        CHECK(q.size() == t - h && q.empty() == (h == t) && q.capacity() == CAP, "size and emptiness exact");
        if (symx_bool("push")) { uint32_t v = symx_u32("v"); bool r = q.push(v); CHECK(r == (t - h < CAP), "push fails exactly when full"); if (r) { ref[t++] = v; if (t > CAP) symx_reach("wrap"); } else symx_reach("full"); }
        else { auto r = q.pop(); CHECK(r.has_value() == (h != t), "pop fails exactly when empty"); if (r.has_value()) { CHECK(*r == ref[h], "values leave in order, unchanged"); h++; } else symx_reach("empty"); }
    }
}
#else
using Q = SpscFifo<uint64_t, CAP>; alignas(64) static uint8_t buf[sizeof(Q)]; static uint64_t in[NP]; static uint64_t out[NC]; static int nin, nout; static bool full; static int pushed; static int popped;
static void prod(void*) { auto& q = *(Q*)buf; for (int k = 0; k < NP; k++) { int before = popped; uint64_t v = (uint64_t)(k + 1) * 0x100000001ull; if (q.push(v)) in[nin++] = v; else { full = true; CHECK(nin - before >= CAP || nin - popped >= CAP - 1, "push refused only when the queue was full"); } } }
static void cons(void*) { auto& q = *(Q*)buf; for (int k = 0; k < NC; k++) { int sure = nin - nout; auto r = q.pop(); if (r.has_value()) { CHECK(nout < nin + 1, "no value before it is pushed"); out[nout++] = *r; popped = nout; } else CHECK(sure <= 0, "pop refused although a completed push was available"); } }
void symx_main() {
    new (buf) Q(); symx_shared(buf, sizeof buf);
#ifdef RACE
    symx_race(buf, sizeof buf);
#endif
    symx_spawn(prod, nullptr, 0); symx_spawn(cons, nullptr, 0); symx_run(); symx_reach("done");
    if (nout) symx_reach("some"); if (full) symx_reach("full");
    auto& q = *(Q*)buf; CHECK(nout <= nin, "nothing invented"); for (int i = 0; i < nout; i++) CHECK(out[i] == in[i], "values arrive in order, unchanged");
    CHECK((int)q.size() == nin - nout, "size"); for (int i = nout; i < nin; i++) { auto r = q.pop(); CHECK(r.has_value() && *r == in[i], "nothing lost"); } CHECK(!q.pop().has_value(), "then empty");
}
#endif
