//@prop: C15
//@tus: %base %popo -iceoryx_hoofs/posix/time/source/adaptive_wait.cpp @rt/adaptive_wait_stub.cpp
//@cfg: IOX_MAX_NUMBER_OF_NOTIFIERS=3
//@bound: 3 notification slots; sequential: NOPS symbolic notify/wait/timedWait; concurrent: 1 to 2 notifying threads with NN notifications (symbolic slot) against a waiting thread, and destruction of the listener; all sequentially consistent interleavings
//@stub: the back-off between two polls of the semaphore is modelled as giving way to the other threads; the clock advances at every reading
//@job: name=seq defs="-DSEQ -DNOPS=5" reach=woken,timeout,none
//@job: name=one defs="-DCONC -DNT=1 -DNN=2" reach=done,merged,separate,late
//@job: name=two defs="-DCONC -DNT=2 -DNN=1 -DFIXED" reach=done,merged,separate,late
//@job: name=destroy defs="-DDESTROY" reach=done
//@job: name=timed defs="-DTIMED" reach=done,seen
//@job: name=index defs="-DINDEX" reach=fatal:index,ok
//@job: name=two1 defs="-DCONC -DNT=2 -DNN=1" reach=done,merged,separate,late tier=thorough
//@job: name=two2 defs="-DCONC -DNT=2 -DNN=2" reach=done,merged,separate,late tier=thorough
#include "symx.h"
#include "iceoryx_posh/internal/popo/building_blocks/condition_listener.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/condition_notifier.hpp"
#include <new>
using namespace iox; using namespace iox::popo;
alignas(64) static uint8_t cb[sizeof(ConditionVariableData)]; static ConditionVariableData& cv() { return *(ConditionVariableData*)cb; }
#if defined(INDEX)
void symx_main() { new (cb) ConditionVariableData("x"); uint64_t i = symx_u64("i"); if (i >= MAX_NUMBER_OF_NOTIFIERS) symx_expect_fatal("index"); ConditionNotifier n(cv(), i); CHECK(i < MAX_NUMBER_OF_NOTIFIERS, "an index out of range is refused"); symx_reach("ok"); symx_concrete(i); n.notify(); ConditionListener l(cv()); CHECK(l.wasNotified(), "notified"); auto v = l.wait(); CHECK(v.size() == 1 && v[0] == i, "exactly the notified index"); }
#elif defined(SEQ)
void symx_main() { new (cb) ConditionVariableData("x"); ConditionListener l(cv()); bool pend[3] = {}; 
    for (int k = 0; k < NOPS; k++) { symx_join(1); bool any = pend[0] || pend[1] || pend[2];
        auto chk = [&](const ConditionListener::NotificationVector_t& v) { unsigned n = 0; for (unsigned i = 0; i < 3; i++) { bool f = false; for (uint64_t x = 0; x < v.size(); x++) f |= v[x] == i; CHECK(f == pend[i], "exactly the notified sources are reported"); n += pend[i]; pend[i] = false; } CHECK(v.size() == n, "each once"); };
        switch (symx_concrete(symx_range("op", 0, 2))) {
        case 0: { uint64_t i = symx_concrete(symx_range("i", 0, 2)); ConditionNotifier(cv(), i).notify(); pend[i] = true; CHECK(l.wasNotified(), "notification visible"); break; }
        case 1: if (any) { chk(l.wait()); symx_reach("woken"); } else symx_reach("none"); break;
        default: { auto v = l.timedWait(units::Duration::fromSeconds(1)); if (!any) { CHECK(v.empty(), "timeout without notification"); symx_reach("timeout"); } else chk(v); } } } }
#elif defined(CONC)
// the last notifying thread to finish notifies slot 2, on which the listener stops; a lost wake-up shows as waiting forever
static int notified[3], reported[3], atStart[3], waits, left = NT, started;
static void fire(uint64_t i) { notified[i]++; atStart[i] = reported[i]; ConditionNotifier(cv(), i).notify(); }
static void take(const ConditionListener::NotificationVector_t& v) { CHECK(v.size() <= 3, "each source at most once"); for (uint64_t x = 0; x < v.size(); x++) { uint64_t i = v[x]; CHECK(i < 3, "only known sources"); reported[i]++; CHECK(reported[i] <= notified[i], "only notified sources are reported"); for (uint64_t y = 0; y < x; y++) CHECK(v[y] != v[x], "each source once per wait"); } }
#ifdef FIXED
static uint64_t slot(int n) { return n; }
#else
static uint64_t slot(int) { return symx_concrete(symx_range("i", 0, 1)); }
#endif
static void notifier(void*) { int n = started++; for (int k = 0; k < NN; k++) fire(slot(n)); if (--left == 0) fire(2); }
static void listener(void*) { ConditionListener l(cv()); while (reported[2] == 0) { auto v = l.wait(); waits++; CHECK(!v.empty(), "wait returns only with a notification"); take(v); } }
void symx_main() { new (cb) ConditionVariableData("x"); symx_shared(cb, sizeof cb); symx_spawn(listener, nullptr, 0); for (int i = 0; i < NT; i++) symx_spawn(notifier, nullptr, 0); symx_run(); symx_reach("done"); if (waits == 1) symx_reach("merged"); else symx_reach("separate");
    ConditionListener l(cv()); bool due = false; for (int i = 0; i < 3; i++) due |= notified[i] && reported[i] <= atStart[i]; if (due) { symx_reach("late"); auto v = l.timedWait(units::Duration::fromSeconds(0)); take(v); }
    for (int i = 0; i < 3; i++) CHECK(notified[i] == 0 || reported[i] > atStart[i], "every notification is reported by a later wait"); }
#elif defined(DESTROY)
static ConditionListener* L; alignas(8) static uint8_t lb[sizeof(ConditionListener)]; static bool ret;
static void waiter(void*) { auto v = L->wait(); CHECK(v.empty(), "no spurious notification"); ret = true; } static void destroyer(void*) { L->destroy(); }
void symx_main() { new (cb) ConditionVariableData("x"); L = new (lb) ConditionListener(cv()); symx_shared(cb, sizeof cb); symx_shared(lb, sizeof lb); symx_spawn(waiter, nullptr, 0); symx_spawn(destroyer, nullptr, 0); symx_run(); symx_reach("done"); CHECK(ret, "a waiting listener returns on destruction"); }
#else
static uint64_t nres; static bool pre; static void waiter(void*) { ConditionListener l(cv()); bool sure = pre; auto v = l.timedWait(units::Duration::fromSeconds(2)); nres = v.size(); if (sure) CHECK(v.size() == 1 && v[0] == 1, "a completed notification is reported"); } static void notifier(void*) { ConditionNotifier(cv(), 1).notify(); pre = true; }
void symx_main() { new (cb) ConditionVariableData("x"); symx_shared(cb, sizeof cb); symx_spawn(waiter, nullptr, 0); symx_spawn(notifier, nullptr, 0); symx_run(); symx_reach("done"); if (nres) symx_reach("seen"); else { symx_reach("timeout"); ConditionListener l(cv()); auto v = l.wait(); CHECK(v.size() == 1 && v[0] == 1, "a notification missed by a timeout is reported by the next wait"); } }
#endif
