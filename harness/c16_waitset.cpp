//@prop: C16
//@tus: %base %mepoo %popo %capro %ports iceoryx_posh/source/popo/trigger.cpp iceoryx_posh/source/popo/trigger_handle.cpp iceoryx_posh/source/popo/user_trigger.cpp iceoryx_posh/source/popo/notification_info.cpp iceoryx_posh/source/popo/listener.cpp -iceoryx_hoofs/posix/time/source/adaptive_wait.cpp @rt/adaptive_wait_stub.cpp
//@cfg: IOX_MAX_NUMBER_OF_NOTIFIERS=3 IOX_MAX_ID_STRING_LENGTH=8 IOX_MAX_SUBSCRIBER_QUEUE_CAPACITY=4 IOX_MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY=4 IOX_MAX_NUMBER_OF_EVENTS_PER_LISTENER=2
//@bound: WaitSet of capacity 2 with two user triggers and one real subscriber attachable as state or event; sequential: NOPS symbolic attach/detach/trigger/push/take/wait operations; concurrent: one thread pushing NPUSH samples while the other waits for and takes one sample per wake-up, all sequentially consistent interleavings of the condition variable accesses (the sample queue itself is C13)
//@stub: the back-off between two polls of the semaphore is modelled as giving way to the other threads; the clock advances at every reading
//@job: name=seq7 tier=thorough defs="-DSEQ -DNOPS=7" reach=due,full,twice,timeout,reused,state
//@job: name=seq6 defs="-DSEQ -DNOPS=6" reach=due,full,twice,timeout,reused,state
//@job: name=state defs="-DCONC -DNPUSH=2" reach=done,kept
//@job: name=state3 defs="-DCONC -DNPUSH=3" reach=done,kept tier=thorough
//@job: name=event defs="-DCONC -DEVENT -DNPUSH=2" reach=done
//@job: name=lattach defs="-DLISTENER -DLSEQ -DNOPS=6" cfg="IOX_MAX_NUMBER_OF_NOTIFIERS=2" reach=full,twice,stopped
//@job: name=lconc defs="-DLISTENER" reach=called,done
//@job: name=lreuse defs="-DLISTENER -DLREUSE" reach=done
#include "common.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
#include "iceoryx_posh/popo/user_trigger.hpp"
#include "iceoryx_posh/internal/popo/base_subscriber.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_user.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_queue_pusher.hpp"
using namespace iox; using namespace iox::popo;
struct WS : WaitSet<2> { WS(ConditionVariableData& c) : WaitSet<2>(c) {} };
struct Sub : BaseSubscriber<SubscriberPortUser> { Sub(SubscriberPortUser&& p) : BaseSubscriber<SubscriberPortUser>(std::move(p)) {} using BaseSubscriber<SubscriberPortUser>::port; using BaseSubscriber<SubscriberPortUser>::takeChunk; };
static PoolEnv<4096, 4096> env; static mepoo::MePooConfig mc;
alignas(64) static uint8_t cb[sizeof(ConditionVariableData)], pb[sizeof(SubscriberPortData)], wb[sizeof(WS)], sb[sizeof(Sub)], ub[2][sizeof(UserTrigger)];
static ConditionVariableData& cv() { return *(ConditionVariableData*)cb; } static SubscriberPortData* pd; static WS* ws; static Sub* S; static UserTrigger* U[2];
static void push(uint32_t v) { auto r = env.mm->getChunk(mepoo::ChunkSettings::create(8, 8).value()); CHECK(!r.has_error(), "harness: chunk"); *(uint32_t*)r.value().getUserPayload() = v; ChunkQueuePusher<SubscriberPortData::ChunkQueueData_t>(&pd->m_chunkReceiverData).push(r.value()); }
static bool take() { auto c = S->takeChunk(); if (c.has_error()) return false; S->port().releaseChunk(c.value()); return true; }
static void init() { mc.addMemPool({128, 6}); env.init(mc); new (cb) ConditionVariableData("x"); SubscriberOptions o; o.queueCapacity = 4; pd = new (pb) SubscriberPortData({"s", "i", "e"}, "a", roudi::DEFAULT_UNIQUE_ROUDI_ID, VariantQueueTypes::SoFi_MultiProducerSingleConsumer, o);
    S = new (sb) Sub(SubscriberPortUser(pd)); ws = new (wb) WS(cv()); for (int i = 0; i < 2; i++) U[i] = new (ub[i]) UserTrigger(); }
#ifdef LISTENER
#include "iceoryx_posh/popo/listener.hpp"
struct LI : Listener { LI(ConditionVariableData& c) : Listener(c) {} }; alignas(64) static uint8_t lb[sizeof(LI)]; static LI* L;
extern "C" void (*symx_on_thread)(void*); extern "C" void (*symx_on_join)(void);
static void* tstate; static bool loopDone, detached[3]; static int calls[3];
static void runLoop(void*) { ((void (**)(void*))(*(void**)tstate))[2](tstate); loopDone = true; }
static void onThread(void* s) { tstate = s; } static void onJoin() { while (!loopDone) symx_yield(); }
static UserTrigger* T[3]; alignas(16) static uint8_t tb[3][sizeof(UserTrigger)];
static void cb0(UserTrigger* o) { int i = o == T[0] ? 0 : o == T[1] ? 1 : 2; CHECK(o == T[i], "the callback gets the source that triggered"); CHECK(!detached[i], "no callback runs after detaching"); calls[i]++; }
static void linit() { init(); symx_on_thread = onThread; symx_on_join = onJoin; for (int i = 0; i < 3; i++) T[i] = new (tb[i]) UserTrigger(); L = new (lb) LI(cv()); }
#ifdef LSEQ
static bool att_[3], pend_[3]; static void onJoin0() {}
void symx_main() { linit(); symx_on_join = onJoin0; // attaching and detaching only, the listener thread is not scheduled
    for (int k = 0; k < NOPS; k++) { symx_join(1);
        uint64_t op = symx_concrete(symx_range("op", 0, 2)), i = symx_concrete(symx_range("i", 0, 2)); int n = att_[0] + att_[1] + att_[2];
        switch (op) {
        case 0: { auto e = L->attachEvent(*T[i], createNotificationCallback(cb0)); if (att_[i]) { CHECK(e.has_error() && e.error() == ListenerError::EVENT_ALREADY_ATTACHED, "an event cannot be attached twice"); symx_reach("twice"); } else if (n == 2) { CHECK(e.has_error() && e.error() == ListenerError::LISTENER_FULL, "a full listener refuses"); symx_reach("full"); } else { CHECK(!e.has_error(), "an event can be attached"); att_[i] = true; } break; }
        case 1: L->detachEvent(*T[i]); att_[i] = false; break;
        default: T[i]->trigger(); CHECK(T[i]->hasTriggered() == att_[i], "an attached trigger notifies"); }
        CHECK(L->size() == (uint64_t)(att_[0] + att_[1] + att_[2]), "the size is the number of attached events");
    }
    symx_join(2); L->~LI(); symx_reach("stopped"); CHECK(cv().m_toBeDestroyed.load(), "the condition variable is given back"); ConditionListener l(cv()); (void)l.timedWait(units::Duration::fromSeconds(0)); for (int i = 0; i < 3; i++) T[i]->trigger(); CHECK(l.timedWait(units::Duration::fromSeconds(0)).empty(), "a destroyed listener is not notified any more"); for (int i = 0; i < 3; i++) T[i]->~UserTrigger(); }
#elif defined(LREUSE)
static void driver(void*) { CHECK(!L->attachEvent(*T[0], createNotificationCallback(cb0)).has_error(), "attach"); T[0]->trigger(); L->detachEvent(*T[0]); detached[0] = true; CHECK(!L->attachEvent(*T[1], createNotificationCallback(cb0)).has_error(), "attach"); L->~LI(); CHECK(calls[1] == 0, "no callback without a trigger"); symx_reach("done"); }
#else
static void driver(void*) { CHECK(!L->attachEvent(*T[0], createNotificationCallback(cb0)).has_error(), "attach"); int c = calls[0]; T[0]->trigger(); while (calls[0] == c) symx_yield(); symx_reach("called"); L->detachEvent(*T[0]); detached[0] = true; CHECK(!L->attachEvent(*T[1], createNotificationCallback(cb0)).has_error(), "attach"); T[1]->trigger(); L->~LI(); detached[1] = true; symx_reach("done"); CHECK(calls[0] <= 1, "one callback per trigger"); T[1]->trigger(); }
#endif
#ifndef LSEQ
void symx_main() { linit(); symx_shared(cb, sizeof cb); symx_shared(&loopDone, sizeof loopDone); symx_shared(calls, sizeof calls);
    symx_shared(lb, sizeof lb);
    symx_spawn(runLoop, nullptr, 0); symx_spawn(driver, nullptr, 0); symx_run(); }
#endif
#elif defined(SEQ)
static bool att[3], pend[3], isState; static int data, slots;
static bool due(int i) { return att[i] && (i == 2 && isState ? data > 0 : pend[i]); }
static void check(const WS::NotificationInfoVector& v) { int n = 0; for (int i = 0; i < 3; i++) { int hit = 0; for (auto* x : v) { bool mine = i < 2 ? x->doesOriginateFrom(U[i]) : x->doesOriginateFrom(S); if (mine) { hit++; CHECK(x->getNotificationId() == 10u + (uint64_t)i, "a notification carries the id given when attaching"); } } CHECK(hit == (due(i) ? 1 : 0), "exactly the triggered sources are reported, each once"); n += hit; if (hit) { pend[i] = false; symx_reach(i == 2 && isState ? "state" : "due"); } } CHECK((int)v.size() == n, "only attached sources are reported"); }
void symx_main() {
    init();
    for (int k = 0; k < NOPS; k++) {
        symx_join(1); uint64_t op = symx_concrete(symx_range("op", 0, 7)), i = op < 3 ? symx_concrete(symx_range("i", 0, 1)) : 2; int used = att[0] + att[1] + att[2];
        switch (op) {
        case 0: { auto e = ws->attachEvent(*U[i], 10 + i); if (att[i]) { CHECK(e.has_error() && e.error() == WaitSetError::ALREADY_ATTACHED, "a source cannot be attached twice"); symx_reach("twice"); } else if (used == 2) { CHECK(e.has_error() && e.error() == WaitSetError::WAIT_SET_FULL, "a full wait set refuses"); symx_reach("full"); } else { CHECK(!e.has_error(), "a source can be attached"); att[i] = true; pend[i] = false; if (++slots > 2) symx_reach("reused"); } break; }
        case 1: ws->detachEvent(*U[i]); att[i] = pend[i] = false; break;
        case 2: U[i]->trigger(); if (att[i]) pend[i] = true; CHECK(U[i]->hasTriggered() == pend[i], "a user trigger knows whether it was triggered"); break;
        case 3: case 4: { bool st = op == 3; auto e = st ? ws->attachState(*S, SubscriberState::HAS_DATA, 12) : ws->attachEvent(*S, SubscriberEvent::DATA_RECEIVED, 12); if (att[2] && isState == st) CHECK(e.has_error() && e.error() == WaitSetError::ALREADY_ATTACHED, "the same state cannot be attached twice"); else if (used == 2) CHECK(e.has_error() && e.error() == WaitSetError::WAIT_SET_FULL, "a full wait set refuses"); else { CHECK(!e.has_error(), "a subscriber can be attached"); att[2] = true; pend[2] = false; isState = st; if (++slots > 2) symx_reach("reused"); } break; }
        case 5: if (symx_bool("st")) ws->detachState(*S, SubscriberState::HAS_DATA); else ws->detachEvent(*S, SubscriberEvent::DATA_RECEIVED); att[2] = pend[2] = false; break;
        case 6: if (data < 3) { push(7); data++; if (att[2]) pend[2] = true; } else { while (take()) data--; CHECK(data == 0, "all data taken"); } break;
        default: { bool any = due(0) || due(1) || due(2); if (any) check(ws->wait()); else { auto v = ws->timedWait(units::Duration::fromSeconds(0)); CHECK(v.empty(), "nothing is reported when nothing was triggered"); symx_reach("timeout"); } }
        }
        CHECK(ws->size() == (uint64_t)(att[0] + att[1] + att[2]), "the size is the number of attached sources");
    }
    symx_join(2); ws->~WS(); CHECK(cv().m_toBeDestroyed.load(), "the condition variable is given back"); ConditionListener l(cv()); (void)l.timedWait(units::Duration::fromSeconds(0)); U[0]->trigger(); U[1]->trigger(); push(1); CHECK(l.timedWait(units::Duration::fromSeconds(0)).empty(), "a destroyed wait set is not notified any more"); for (int i = 0; i < 2; i++) U[i]->~UserTrigger();
}
#else
static int taken; static bool pushed[8];
static void producer(void*) { for (int i = 0; i < NPUSH; i++) push((uint32_t)i); }
static void waiter(void*) { while (taken < NPUSH) { auto v = ws->wait(); CHECK(v.size() <= 1, "each source at most once"); if (v.empty()) continue; CHECK(v[0]->doesOriginateFrom(S), "the subscriber is reported");
#ifdef EVENT
        while (take()) taken++;
#else
        CHECK(take(), "a state is reported only while it holds"); taken++; if (S->hasData()) symx_reach("kept");
#endif
    } }
void symx_main() { init();
#ifdef EVENT
    CHECK(!ws->attachEvent(*S, SubscriberEvent::DATA_RECEIVED, 1).has_error(), "attach");
#else
    CHECK(!ws->attachState(*S, SubscriberState::HAS_DATA, 1).has_error(), "attach");
#endif
    symx_shared(cb, sizeof cb); symx_spawn(producer, nullptr, 0); symx_spawn(waiter, nullptr, 0); symx_run(); CHECK(taken == NPUSH, "all samples are seen"); symx_reach("done"); }
#endif
