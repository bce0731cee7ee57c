// shared by c14_spin.cpp (real waiting code) and c14_spin_conc.cpp (waiting modelled)
#include "symx.h"
#include "iox/spin_lock.hpp"
#include "iox/spin_semaphore.hpp"
#include <new>
#include <pthread.h>
#include <unistd.h>
using namespace iox; using namespace iox::concurrent;
static int g_pid[4] = {10, 10, 10, 10}; static uint64_t g_tid[4] = {100, 101, 102, 103}; static int g_me = -1;
extern "C" int getpid(void) noexcept { return g_pid[g_me >= 0 ? g_me : symx_tid()]; }
extern "C" pthread_t pthread_self(void) noexcept { return (pthread_t)g_tid[g_me >= 0 ? g_me : symx_tid()]; }
#ifdef SEMTIMED
#include <time.h>
static uint64_t g_now; static uint64_t g_start; static bool g_startSet;
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept { g_now += symx_range("dt", g_startSet ? 1 : 0, 3); if (!g_startSet) { g_start = g_now; g_startSet = true; } t->tv_sec = (long)g_now; t->tv_nsec = 0; return 0; }
#endif
using L = optional<SpinLock>; using S = optional<SpinSemaphore>;
alignas(64) static uint8_t buf[sizeof(L)]; alignas(64) static uint8_t sbuf[sizeof(S)];
static L& mk(bool rec) { auto* l = new (buf) L(); auto r = SpinLockBuilder().is_inter_process_capable(true).lock_behavior(rec ? LockBehavior::RECURSIVE : LockBehavior::NORMAL).create(*l); CHECK(!r.has_error() && l->has_value(), "lock created"); CHECK(SpinLockBuilder().create(*l).has_error(), "a lock in use is not overwritten"); return *l; }
#if defined(SEQ)
void symx_main() {
    for (int i = 0; i < 3; i++) { g_pid[i] = (int)symx_range("pid", 1, 0x7fffffff); g_tid[i] = symx_u64("tid"); symx_assume(g_tid[i] != 0); }
    for (int i = 0; i < 3; i++) for (int k = 0; k < i; k++) symx_assume(g_pid[i] != g_pid[k] || g_tid[i] != g_tid[k]);
    bool rec = symx_bool("rec"); g_me = 0; auto& l = mk(rec); int owner = -1; unsigned cnt = 0;
    for (int n = 0; n < NOPS; n++) {
        symx_join(1);
        g_me = (int)symx_concrete(symx_range("who", 0, 2));
        switch (symx_concrete(symx_range("op", 0, 2))) {
        case 0: { if (owner >= 0 && owner != g_me) break; /* would block */ auto r = l->lock(); if (owner == g_me && !rec) { CHECK(r.has_error() && r.error() == LockError::DEADLOCK_CONDITION, "relocking a non-recursive lock is reported"); symx_reach("deadlock"); } else { CHECK(!r.has_error(), "a free or own recursive lock is taken"); if (owner == g_me) symx_reach("recursed"); owner = g_me; cnt++; symx_reach("locked"); } break; }
        case 1: { auto r = l->try_lock(); CHECK(!r.has_error(), "try_lock reports no error"); bool exp = owner < 0 || (owner == g_me && rec); CHECK((r.value() == TryLock::LOCK_SUCCEEDED) == exp, "try_lock succeeds exactly when the lock is free or recursively owned"); if (exp) { owner = g_me; cnt++; } else symx_reach("refused"); break; }
        default: { auto r = l->unlock(); if (owner == g_me) { CHECK(!r.has_error(), "the owner can unlock"); if (--cnt == 0) owner = -1; } else { CHECK(r.has_error(), "nobody else can unlock"); symx_reach("notowned"); } }
        }
    }
    for (; cnt; cnt--) { g_me = owner; CHECK(!l->unlock().has_error(), "owner unwinds"); }
    g_me = 2; CHECK(l->try_lock().value() == TryLock::LOCK_SUCCEEDED, "free again after as many unlocks as locks");
}
#elif defined(CONC)
static int inside; static bool tryfail; static uint64_t data; static int entered;
static void body(void*) {
    auto& l = *(L*)buf;
    for (int k = 0; k < NK; k++) {
        bool ok = true;
#ifndef ONLYLOCK
        if (symx_bool("try")) { auto r = l->try_lock(); CHECK(!r.has_error(), "try_lock reports no error"); ok = r.value() == TryLock::LOCK_SUCCEEDED; if (!ok) tryfail = true; } else
#endif
        { auto r = l->lock(); CHECK(!r.has_error(), "lock() by a thread that does not hold the lock succeeds"); }
        if (ok) {
            CHECK(inside == 0, "mutual exclusion"); inside++; data++; entered++;
#ifdef REC
            CHECK(!l->lock().has_error(), "owner relocks a recursive lock"); CHECK(inside == 1, "mutual exclusion"); CHECK(!l->unlock().has_error(), "inner unlock"); CHECK(inside == 1, "mutual exclusion while still held once");
#endif
            data++; inside--; CHECK(!l->unlock().has_error(), "owner can unlock");
        }
    }
}
void symx_main() {
#ifdef REC
    mk(true);
#else
    mk(false);
#endif
#ifdef SAMETID
    g_pid[1] = 11; g_pid[2] = 12; g_tid[1] = g_tid[2] = 555; // two processes, equal thread handles (after fork)
#endif
#ifdef XPROC
    g_pid[1] = 11; g_pid[2] = 12; g_pid[3] = 12; g_tid[1] = 555; g_tid[2] = 555; g_tid[3] = 556; // thread handles of two processes coincide, one process has a second thread
#endif
    symx_shared(buf, sizeof buf);
#ifdef RACE
    symx_shared(&data, sizeof data); symx_race(&data, sizeof data);
#endif
   
    for (int i = 0; i < NT; i++) symx_spawn(body, nullptr, 0); symx_run(); symx_reach("done"); if (tryfail) symx_reach("tryfail");
    CHECK(data == 2u * (unsigned)entered && inside == 0, "no update lost"); CHECK((*(L*)buf)->try_lock().value() == TryLock::LOCK_SUCCEEDED, "lock free at the end");
}
#else
static S& mks(uint32_t v, bool& ok) { auto* s = new (sbuf) S(); ok = !SpinSemaphoreBuilder().initialValue(v).isInterProcessCapable(true).create(*s).has_error(); CHECK(ok == s->has_value(), "semaphore exists exactly on success"); return *s; }
#if defined(SEMSEQ)
void symx_main() {
    uint32_t v = symx_u32("initial"); bool ok; g_me = 0; auto& s = mks(v, ok); CHECK(ok == (v <= IOX_SEM_VALUE_MAX), "initial value within range exactly accepted"); if (!ok) { symx_reach("toolarge"); return; }
    uint32_t c = v;
    for (int n = 0; n < NOPS; n++) {
        symx_join(1);
        switch (symx_concrete(symx_range("op", 0, 2))) {
        case 0: { auto r = s->post(); if (c == IOX_SEM_VALUE_MAX) { CHECK(r.has_error() && r.error() == SemaphoreError::SEMAPHORE_OVERFLOW, "post beyond the maximum is refused"); symx_reach("overflow"); } else { CHECK(!r.has_error(), "post succeeds"); c++; } break; }
        case 1: { auto r = s->tryWait(); CHECK(!r.has_error() && r.value() == (c > 0), "tryWait succeeds exactly when a unit is available"); if (c) { c--; symx_reach("taken"); } else symx_reach("empty"); break; }
        default: if (c) { CHECK(!s->wait().has_error(), "wait takes an available unit"); c--; }
        }
    }
}
#elif defined(SEM)
static int avail, upper; static bool empty; // avail: units surely present (posts completed - takes started), upper: units possibly present
static int posts, takes, takesStarted, postsStarted;
static void body(void*) {
    auto& s = *(S*)sbuf;
    for (int k = 0; k < NK; k++) {
        if (symx_bool("post")) { postsStarted++; CHECK(!s->post().has_error(), "post succeeds"); posts++; }
        else { int sure = NINIT + posts - takesStarted; takesStarted++; auto r = s->tryWait(); CHECK(!r.has_error(), "tryWait reports no error"); if (r.value()) { takes++; CHECK(takes <= NINIT + postsStarted, "no unit is taken that was not posted"); } else { takesStarted--; empty = true; CHECK(sure - (takesStarted - (takesStarted)) <= 0 || takesStarted > 0 || takes > 0, "tryWait fails although nobody else could have taken the unit"); } }
    }
}
void symx_main() {
    bool ok; mks(NINIT, ok); CHECK(ok, "created"); symx_shared(sbuf, sizeof sbuf); for (int i = 0; i < NT; i++) symx_spawn(body, nullptr, 0); symx_run(); symx_reach("done"); if (empty) symx_reach("empty");
    auto& s = *(S*)sbuf; int rest = NINIT + posts - takes; CHECK(rest >= 0, "never more units taken than posted"); for (int i = 0; i < rest; i++) CHECK(s->tryWait().value(), "every posted unit can be taken"); CHECK(!s->tryWait().value(), "and no more");
}
#elif defined(SEMWAIT)
static int got; static void waiter(void*) { CHECK(!(*(S*)sbuf)->wait().has_error(), "wait returns"); got++; } static int posted; static void poster(void*) { for (int i = 0; i < NT; i++) { posted++; CHECK(!(*(S*)sbuf)->post().has_error(), "post succeeds"); CHECK(got <= posted, "wait returns only after a post"); } }
void symx_main() { bool ok; mks(0, ok); symx_shared(sbuf, sizeof sbuf); for (int i = 0; i < NT; i++) symx_spawn(waiter, nullptr, 0); symx_spawn(poster, nullptr, 0); symx_run(); symx_reach("done"); CHECK(got == NT, "every post wakes one waiter"); CHECK(!(*(S*)sbuf)->tryWait().value(), "units consumed exactly once"); }
#else
void symx_main() { bool ok; uint64_t init = symx_concrete(symx_range("init", 0, 1)); auto& s = mks((uint32_t)init, ok); g_me = 0; uint64_t to = symx_concrete(symx_range("timeout", 0, 3));
    auto r = s->timedWait(units::Duration::fromSeconds(to)); CHECK(!r.has_error(), "no error"); if (init) { CHECK(r.value() == SemaphoreWaitState::NO_TIMEOUT, "an available unit is taken"); CHECK(!s->tryWait().value(), "exactly one unit taken"); symx_reach("got"); } else { CHECK(r.value() == SemaphoreWaitState::TIMEOUT, "no unit: timeout"); CHECK(g_now - g_start >= to, "does not give up before the timeout"); symx_reach("timeout"); } }
#endif
#endif
