//@prop: C06
//@tus: %base %mepoo %popo
//@bound: sequential: 2 queues of symbolic kind (discard oldest / block producer, single and multi producer queue types), queue capacity 2, room for 2 queues (job one: 1), symbolic history capacity 0..2, NOPS symbolic operations (add queue with history request 0..3, remove, remove all, deliver to all, deliver to one, add to history, clear history, pop)
//@bound: concurrent: a delivering thread against a consuming thread or a thread that removes the queue; queue capacity 1; all interleavings of shared accesses
//@stub: deliveries that would block forever in a sequential history are excluded there (blocking is decided by the concurrent jobs)
//@job: name=seq defs="-DSEQ -DMAXQ=2 -DNOPS=4" reach=history,delivered,removed
//@job: name=full defs="-DSEQ -DPREFILL -DMAXQ=2 -DNOPS=3" reach=lost,history,delivered,removed
//@job: name=hist defs="-DSEQ -DHISTFOCUS -DMAXQ=2 -DNOPS=5" reach=history,delivered
//@job: name=one defs="-DSEQ -DPREFILL -DMAXQ=1 -DNOPS=3" reach=lost,delivered,toomany
//@job: name=seq_long defs="-DSEQ -DMAXQ=2 -DNOPS=5" reach=lost,history,delivered,removed tier=thorough
//@job: name=block defs="-DBLOCK -DNSEND=3" reach=done tier=quick
//@job: name=unsub defs="-DUNSUB -DNSEND=2" reach=done tier=quick
//@job: name=block2 defs="-DBLOCK2 -DNSEND=1" reach=done tier=quick
//@job: name=unsub2 defs="-DUNSUB2 -DNSEND=1" reach=done,waited tier=quick
//@job: name=sub defs="-DSUBCONC -DNSEND=2" reach=done,gothist,live tier=quick
#include "common.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_distributor.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_distributor_data.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_queue_popper.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_queue_pusher.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/locking_policy.hpp"
using namespace iox; using namespace iox::mepoo; using namespace iox::popo;
#ifndef MAXQ
#define MAXQ 2
#endif
#ifdef SEQ
#define QCAP 2
#else
#define QCAP 1
#endif
struct QCfg { static constexpr uint64_t MAX_QUEUE_CAPACITY = QCAP; };
struct DCfg { static constexpr uint32_t MAX_QUEUES = MAXQ; static constexpr uint64_t MAX_HISTORY_CAPACITY = 2; };
#ifdef SEQ
using Pol = SingleThreadedPolicy;
#else
using Pol = ThreadSafePolicy;
#endif
using QD = ChunkQueueData<QCfg, Pol>; using DD = ChunkDistributorData<DCfg, ThreadSafePolicy, ChunkQueuePusher<QD>>; using Dist = ChunkDistributor<DD>; using Pop = ChunkQueuePopper<QD>;
static PoolEnv<8192, 8192> env; static MePooConfig cfg; alignas(64) static uint8_t qb[2][sizeof(QD)], db[sizeof(DD)];
static QD& q(int i) { return *(QD*)qb[i]; }
static uint32_t tagOf(SharedChunk& c) { return *(uint32_t*)c.getUserPayload(); }
static SharedChunk mk(uint32_t tag) { auto r = env.mm->getChunk(settings(8)); CHECK(!r.has_error(), "a chunk is available: no leak"); *(uint32_t*)r.value().getUserPayload() = tag; return std::move(r.value()); }
#ifdef SEQ
void symx_main() {
    enum { NCH = NOPS + 3 };
    cfg.addMemPool({32, NCH}); env.init(cfg);
    bool wait = symx_bool("wait"); uint64_t hcap = symx_concrete(symx_range("hcap", 0, 2)); bool block[2];
    new (db) DD(wait ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA, hcap); DD& dd = *(DD*)db;
    for (int i = 0; i < 2; i++) { block[i] = symx_bool("block"); bool multi = i == 1; new (qb[i]) QD(block[i] ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA, block[i] ? (multi ? VariantQueueTypes::FiFo_MultiProducerSingleConsumer : VariantQueueTypes::FiFo_SingleProducerSingleConsumer) : (multi ? VariantQueueTypes::SoFi_MultiProducerSingleConsumer : VariantQueueTypes::SoFi_SingleProducerSingleConsumer)); }
    Dist d(&dd); uint32_t ref[2][QCAP]; uint32_t n[2] = {0, 0}; bool in[2] = {false, false}, lost[2] = {false, false}; uint32_t hist[2]; uint32_t nh = 0; uint32_t next = 1;
    auto push = [&](int i, uint32_t tag) { if (n[i] < QCAP) { ref[i][n[i]++] = tag; return true; } if (!block[i]) { for (uint32_t k = 1; k < QCAP; k++) ref[i][k - 1] = ref[i][k]; ref[i][QCAP - 1] = tag; } return false; };
    auto addHist = [&](uint32_t tag) { if (!hcap) return; if (nh == hcap) { for (uint32_t k = 1; k < nh; k++) hist[k - 1] = hist[k]; nh--; } hist[nh++] = tag; };
#ifdef PREFILL
    CHECK(!d.tryAddQueue(&q(0)).has_error(), "added"); in[0] = true; for (int k = 0; k < QCAP; k++) { uint32_t t = next++; CHECK(d.deliverToAllStoredQueues(mk(t)) == 1, "delivered"); push(0, t); addHist(t); }
#endif
    for (int k = 0; k < NOPS; k++) {
        symx_join(1); int i = 0;
#ifdef HISTFOCUS
        static const uint8_t ops[] = {0, 3, 5, 7}; uint64_t op = ops[symx_concrete(symx_range("op", 0, 3))];
#else
        uint64_t op = symx_concrete(symx_range("op", 0, 7));
#endif
        if (op == 0 || op == 1 || op == 4 || op == 7) i = (int)symx_concrete(symx_range("q", 0, 1));
        switch (op) {
        case 0: { uint64_t req = symx_concrete(symx_range("req", 0, 3)); auto r = d.tryAddQueue(&q(i), req); bool room = (in[0] + in[1]) < MAXQ; CHECK(r.has_error() == (!in[i] && !room), "a queue is refused only when there is no room"); if (r.has_error()) { symx_reach("toomany"); break; } if (!in[i]) { in[i] = true; uint32_t s = req <= nh ? nh - (uint32_t)req : 0; for (uint32_t h = s; h < nh; h++) { push(i, hist[h]); symx_reach("history"); } } break; }
        case 1: { auto r = d.tryRemoveQueue(&q(i)); CHECK(r.has_error() == !in[i], "only a known queue can be removed"); in[i] = false; symx_reach("removed"); break; }
        case 2: d.removeAllQueues(); in[0] = in[1] = false; break;
        case 3: { for (int x = 0; x < 2; x++) symx_assume(!(in[x] && wait && block[x] && n[x] == QCAP)); uint32_t t = next++; uint64_t r = d.deliverToAllStoredQueues(mk(t)); CHECK(r == (uint64_t)(in[0] + in[1]), "number of reached receivers is exact"); for (int x = 0; x < 2; x++) if (in[x]) { if (!push(x, t)) lost[x] = true; symx_reach("delivered"); } addHist(t); break; }
        case 4: { symx_assume(!(in[i] && wait && block[i] && n[i] == QCAP)); uint32_t t = next++; auto r = d.deliverToQueue(q(i).m_uniqueId, (uint32_t)symx_concrete(symx_range("hint", 0, 2)), mk(t)); CHECK(r.has_error() == !in[i], "delivery to one receiver fails exactly when it is unknown"); if (in[i] && !push(i, t)) lost[i] = true; break; }
        case 5: { uint32_t t = next++; d.addToHistoryWithoutDelivery(mk(t)); addHist(t); break; }
        case 6: d.clearHistory(); nh = 0; break;
        default: { Pop p(&q(i)); auto r = p.tryPop(); CHECK(r.has_value() == (n[i] != 0), "receive succeeds exactly when something is queued"); if (r.has_value()) { CHECK(tagOf(*r) == ref[i][0], "data is received in order, unchanged"); for (uint32_t x = 1; x < n[i]; x++) ref[i][x - 1] = ref[i][x]; n[i]--; } bool l = p.hasLostChunks(); CHECK(l == lost[i], "loss is reported exactly once per loss period"); if (l) symx_reach("lost"); lost[i] = false; }
        }
        CHECK(d.getHistorySize() == nh && d.hasStoredQueues() == (in[0] || in[1]), "history size and receivers exact"); for (int x = 0; x < 2; x++) CHECK(Pop(&q(x)).size() == n[x], "queue sizes exact");
        uint32_t live = 0; for (uint32_t t = 1; t < next; t++) { bool l = false; for (int x = 0; x < 2; x++) for (uint32_t y = 0; y < n[x]; y++) l |= ref[x][y] == t; for (uint32_t y = 0; y < nh; y++) l |= hist[y] == t; live += l; } CHECK(env.used(0) == live, "a chunk is kept exactly while a queue or the history refers to it");
    }
    d.cleanup(); for (int x = 0; x < 2; x++) Pop(&q(x)).clear(); CHECK(env.used(0) == 0, "cleanup releases everything");
}
#else
#if defined(BLOCK2) || defined(UNSUB2)
enum { NQ = 2 };
#else
enum { NQ = 1 };
#endif
static uint32_t got[8]; static int ngot; static bool stop; static int sent; static uint64_t cnt[4]; static bool removedBefore;
static void prod(void*) { Dist d((DD*)db); for (int i = 0; i < NSEND; i++) { cnt[i] = d.deliverToAllStoredQueues(mk((uint32_t)i + 1)); sent = i + 1; } }
static void take(Pop& p) { auto r = p.tryPop(); if (r.has_value()) { got[ngot++] = tagOf(*r); } else symx_yield(); }
static void setup(bool wait, bool block, uint64_t hcap) { cfg.addMemPool({32, NSEND + 4}); env.init(cfg); new (db) DD(wait ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA, hcap); for (int i = 0; i < NQ; i++) new (qb[i]) QD(block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA, block ? VariantQueueTypes::FiFo_SingleProducerSingleConsumer : VariantQueueTypes::SoFi_SingleProducerSingleConsumer); }
#if defined(BLOCK)
static void cons(void*) { Pop p(&q(0)); while (ngot < NSEND) take(p); }
void symx_main() { setup(true, true, 0); Dist d((DD*)db); CHECK(!d.tryAddQueue(&q(0)).has_error(), "added"); symx_shared(qb, sizeof qb); symx_shared(db, sizeof db);
    symx_spawn(prod, nullptr, 0); symx_spawn(cons, nullptr, 0); symx_run(); symx_reach("done"); for (int i = 0; i < NSEND; i++) CHECK(got[i] == (uint32_t)i + 1 && cnt[i] == 1, "with a blocking policy every chunk arrives, in order"); CHECK(!Pop(&q(0)).hasLostChunks(), "nothing lost"); CHECK(env.used(0) == 0, "no chunk leaked"); }
#elif defined(BLOCK2)
static void cons2(void*) { Pop p0(&q(0)), p1(&q(1)); int n0 = 0, n1 = 0; while (n0 < 2 || n1 < 2) { bool any = false; if (n0 < 2) { auto r = p0.tryPop(); if (r.has_value()) { CHECK(tagOf(*r) == (n0 ? 1u : 100u), "first queue in order"); n0++; any = true; } } if (n1 < 2) { auto r = p1.tryPop(); if (r.has_value()) { CHECK(tagOf(*r) == (n1 ? 1u : 100u), "second queue in order"); n1++; any = true; } } if (!any) symx_yield(); } }
void symx_main() { setup(true, true, 0); Dist d((DD*)db); for (int i = 0; i < 2; i++) CHECK(!d.tryAddQueue(&q(i)).has_error(), "added"); CHECK(d.deliverToAllStoredQueues(mk(100)) == 2, "fills both"); symx_shared(qb, sizeof qb); symx_shared(db, sizeof db);
    symx_spawn(prod, nullptr, 0); symx_spawn(cons2, nullptr, 0); symx_run(); symx_reach("done"); CHECK(cnt[0] == 2, "both waiting queues are counted"); CHECK(env.used(0) == 0, "no chunk leaked"); }
#elif defined(UNSUB2)
static bool gone;
static void remover2(void*) { Dist d((DD*)db); CHECK(!d.tryRemoveQueue(&q(0)).has_error(), "removed"); gone = true; { auto r = Pop(&q(0)).tryPop(); CHECK(r.has_value() && tagOf(*r) == 100, "content intact"); } if (sent == 0) symx_reach("waited"); }
void symx_main() { setup(true, true, 0); Dist d((DD*)db); for (int i = 0; i < 2; i++) CHECK(!d.tryAddQueue(&q(i)).has_error(), "added"); CHECK(d.deliverToAllStoredQueues(mk(100)) == 2, "fills both"); { auto r = Pop(&q(1)).tryPop(); CHECK(r.has_value(), "room in the second queue"); } symx_shared(qb, sizeof qb); symx_shared(db, sizeof db);
    symx_spawn(prod, nullptr, 0); symx_spawn(remover2, nullptr, 0); symx_run(); symx_reach("done"); CHECK(sent == 1 && cnt[0] == 1, "only the connected queue is served"); CHECK(!Pop(&q(0)).tryPop().has_value(), "a removed queue gets nothing more"); { auto r = Pop(&q(1)).tryPop(); CHECK(r.has_value() && tagOf(*r) == 1, "the connected queue got it"); } CHECK(env.used(0) == 0, "no chunk leaked"); }
#elif defined(UNSUB)
static void remover(void*) { Dist d((DD*)db); CHECK(!d.tryRemoveQueue(&q(0)).has_error(), "removed"); removedBefore = true; }
void symx_main() { setup(true, true, 0); Dist d((DD*)db); CHECK(!d.tryAddQueue(&q(0)).has_error(), "added"); CHECK(d.deliverToAllStoredQueues(mk(100)) == 1, "fills the queue"); symx_shared(qb, sizeof qb); symx_shared(db, sizeof db);
    symx_spawn(prod, nullptr, 0); symx_spawn(remover, nullptr, 0); symx_run(); symx_reach("done"); CHECK(sent == NSEND, "a blocked sender continues when the slow receiver leaves"); auto r = Pop(&q(0)).tryPop(); CHECK(r.has_value() && tagOf(*r) == 100, "content intact"); CHECK(!Pop(&q(0)).tryPop().has_value(), "a removed receiver gets nothing more"); r.reset(); CHECK(env.used(0) == 0, "no chunk leaked"); }
#else
static void adder(void*) { Dist d((DD*)db); CHECK(!d.tryAddQueue(&q(0), 1).has_error(), "added"); }
void symx_main() { setup(false, false, 1); Dist d((DD*)db); CHECK(d.deliverToAllStoredQueues(mk(100)) == 0, "nobody there"); symx_shared(qb, sizeof qb); symx_shared(db, sizeof db);
    symx_spawn(prod, nullptr, 0); symx_spawn(adder, nullptr, 0); symx_run(); symx_reach("done"); auto r = Pop(&q(0)).tryPop(); CHECK(r.has_value(), "a late joiner gets the last value"); uint32_t t = tagOf(*r); CHECK(t == NSEND || (t == 100 && false) || t == NSEND - 1, "a late joiner misses at most the value in flight"); if (t == NSEND && cnt[NSEND - 1] == 0) symx_reach("gothist"); if (cnt[NSEND - 1] == 1) { CHECK(t == NSEND, "a counted delivery arrives"); symx_reach("live"); } CHECK(!Pop(&q(0)).tryPop().has_value(), "capacity one"); r.reset(); d.cleanup(); CHECK(env.used(0) == 0, "no chunk leaked"); }
#endif
#endif
