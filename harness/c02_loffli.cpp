//@prop: C02
//@tus: iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp
//@job: name=seq defs="-DSEQ -DCAP=3 -DNOPS=6" reach=full,empty,reuse,reject
//@job: name=conc2 args="--joinite" defs="-DCONC -DCAP=2 -DNOPS=3" reach=done,multi
//@job: name=conc2x4 defs="-DCONC -DCAP=2 -DNOPS=4" reach=done,multi
//@job: name=conc3 defs="-DCONC -DTHREE -DCAP=2 -DNOPS=2" reach=done,multi
//@job: name=conc3x3 defs="-DCONC -DTHREE -DCAP=3 -DNOPS=3" reach=done,multi tier=thorough
#include "symx.h"
#include "iox/detail/mpmc_loffli.hpp"
#include <new>
using namespace iox::concurrent;
static uint32_t mem[CAP + 1];
#ifdef SEQ
void symx_main() {
    MpmcLoFFLi l; l.init(mem, CAP);
    bool owned[CAP]; for (auto& o : owned) o = false; bool everFreed = false;
    for (int k = 0; k < NOPS; k++) {
        symx_merge(0);
        if (symx_bool("op")) {
            MpmcLoFFLi::Index_t i = 77; bool r = l.pop(i);
            bool any = false; for (bool o : owned) any |= !o;
            CHECK(r == any, "pop succeeds iff an index is free");
            if (r) { CHECK(i < CAP, "index in range"); CHECK(!owned[i], "index not already owned"); owned[i] = true; if (everFreed) symx_reach("reuse"); }
            else symx_reach("empty");
        } else {
            uint32_t i = symx_u32("idx");
            bool r = l.push(i);
            bool exp = i < CAP && owned[i < CAP ? i : 0];
            CHECK(r == exp, "push accepted iff index is owned");
            if (r) { owned[i] = false; everFreed = true; } else symx_reach("reject");
        }
        bool all = true; for (bool o : owned) all &= o; if (all) symx_reach("full");
    }
}
#else
static MpmcLoFFLi l; static int owner[CAP]; static bool multi;
static void body(void* a) {
    int me = (int)(intptr_t)a; MpmcLoFFLi::Index_t mine[NOPS]; int n = 0;
    for (int k = 0; k < NOPS; k++) {
        if (n == 0 || symx_bool(me == 1 ? "t1.op" : me == 2 ? "t2.op" : "t3.op")) {
            MpmcLoFFLi::Index_t i = 99;
            if (l.pop(i)) { CHECK(i < CAP, "index in range"); CHECK(owner[i] == 0, "index is not owned by anybody else"); owner[i] = me; mine[n++] = i; if (n == 2) multi = true; }
        } else { n--; owner[mine[n]] = 0; CHECK(l.push(mine[n]), "returning an owned index is accepted"); }
    }
}
void symx_main() {
    l.init(mem, CAP);
    symx_shared(&l, sizeof l); symx_shared(mem, sizeof mem);
    symx_spawn(body, (void*)1, 0); symx_spawn(body, (void*)2, 0);
#ifdef THREE
    symx_spawn(body, (void*)3, 0);
#endif
    symx_run();
    symx_reach("done"); if (multi) symx_reach("multi");
    // conservation: afterwards exactly the indices nobody owns can be obtained, each once
    int held = 0; for (int o : owner) held += o != 0;
    for (int k = 0; k < CAP; k++) { MpmcLoFFLi::Index_t i = 99; bool r = l.pop(i); CHECK(r == (held < CAP), "no index lost"); if (r) { CHECK(i < CAP && owner[i] == 0, "index free"); owner[i] = 9; held++; } }
}
#endif
