//@prop: C07
//@tus: %base %mepoo %popo
//@bound: at most 2 chunks allocated at a time, pools of 16 and 64 bytes payload, history capacity HCAP, one receiver queue of capacity 2, NOPS symbolic operations (allocate with symbolic payload size 0..100, alignment 1, 4 with a user header, 16, and an invalid alignment, send to all, send to one, push to history, release, previous chunk, receive, send/release of a chunk not owned), symbolic payload values
//@job: name=seq defs="-DNOPS=4 -DHCAP=0" reach=sent,toomany,toolarge,badalign,reuse,received,foreign
//@job: name=hist defs="-DNOPS=4 -DHCAP=1" reach=sent,toomany,toolarge,received
//@job: name=full defs="-DNOPS=5 -DHCAP=0 -DSMALL" reach=sent,nochunk,reuse,received
//@job: name=seq_long defs="-DNOPS=5 -DHCAP=1" timeout=800 reach=sent,toomany,reuse,received,foreign tier=thorough
#include "common.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_sender.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_sender_data.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_queue_popper.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_queue_pusher.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/locking_policy.hpp"
using namespace iox; using namespace iox::mepoo; using namespace iox::popo;
struct QCfg { static constexpr uint64_t MAX_QUEUE_CAPACITY = 2; };
struct DCfg { static constexpr uint32_t MAX_QUEUES = 1; static constexpr uint64_t MAX_HISTORY_CAPACITY = 2; };
using QD = ChunkQueueData<QCfg, SingleThreadedPolicy>; using DD = ChunkDistributorData<DCfg, SingleThreadedPolicy, ChunkQueuePusher<QD>>; using SD = ChunkSenderData<2, DD>; using Snd = ChunkSender<SD>; using Pop = ChunkQueuePopper<QD>;
static PoolEnv<8192, 8192> env; static MePooConfig cfg; alignas(64) static uint8_t qb[sizeof(QD)], sb[sizeof(SD)];
#ifdef SMALL
enum { N0 = 2, N1 = 1, ALLO = 1, ALHI = 1 };
#else
enum { N0 = 5, N1 = 2, ALLO = 0, ALHI = 3 };
#endif
void symx_main() {
    cfg.addMemPool({16, N0}); cfg.addMemPool({64, N1}); env.init(cfg); new (qb) QD(QueueFullPolicy::DISCARD_OLDEST_DATA, VariantQueueTypes::SoFi_SingleProducerSingleConsumer); new (sb) SD(env.mm, ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA, HCAP);
    Snd s((SD*)sb); CHECK(!s.tryAddQueue((QD*)qb).has_error(), "receiver added"); const UniquePortId me{roudi::DEFAULT_UNIQUE_ROUDI_ID};
    struct C { ChunkHeader* h; uint64_t size; uint8_t val; uint64_t seq; int pool; }; C use[2]; int nu = 0; C que[2]; int nq = 0; C hist[2]; int nh = 0; C last{}; bool hasLast = false; uint64_t seq = 0; bool used = false; C held{}; bool hasHeld = false; optional<SharedChunk> heldChunk;
    auto live = [&](int pool) { ChunkHeader* seen[8]; int n = 0; auto add = [&](const C& c) { if (c.pool != pool) return; for (int i = 0; i < n; i++) if (seen[i] == c.h) return; seen[n++] = c.h; }; for (int i = 0; i < nu; i++) add(use[i]); for (int i = 0; i < nq; i++) add(que[i]); for (int i = 0; i < nh; i++) add(hist[i]); if (hasLast) add(last); if (hasHeld) add(held); return n; };
    auto onlyLast = [&](const C& c) { for (int i = 0; i < nu; i++) if (use[i].h == c.h) return false; for (int i = 0; i < nq; i++) if (que[i].h == c.h) return false; for (int i = 0; i < nh; i++) if (hist[i].h == c.h) return false; return !(hasHeld && held.h == c.h); };
    auto intact = [&](const C& c) { CHECK(c.h->userPayloadSize() == c.size && (c.size == 0 || *(uint8_t*)c.h->userPayload() == c.val), "content of a chunk in use is intact"); };
    for (int k = 0; k < NOPS; k++) {
        symx_join(1);
        uint64_t op = symx_concrete(symx_range("op", 0, 6));
        if (op == 0) {
            uint32_t al = (uint32_t)symx_concrete(symx_range("al", ALLO, ALHI)); uint32_t uh = al == 3 ? 8 : 0; al = al == 0 ? 3 : al == 1 ? 1 : al == 2 ? 16 : 4; // 3 is no power of two; the last kind has a user header
            uint64_t size = symx_range("size", 0, 100); uint64_t need = al == 3 ? 0 : settings(size, al, uh, uh ? 8 : 1).requiredChunkSize(); int pool = need <= sizeof(ChunkHeader) + 16 ? 0 : need <= sizeof(ChunkHeader) + 64 ? 1 : 2; bool reuse = al != 3 && hasLast && onlyLast(last) && last.h->chunkSize() >= need;
            auto r = s.tryAllocate(me, size, al, uh, uh ? 8 : CHUNK_NO_USER_HEADER_ALIGNMENT);
            if (al == 3) { CHECK(r.has_error() && r.error() == AllocationError::INVALID_PARAMETER_FOR_USER_PAYLOAD_OR_USER_HEADER, "invalid alignment refused"); symx_reach("badalign"); }
            else if (!reuse && pool == 2) { CHECK(r.has_error() && r.error() == AllocationError::NO_MEMPOOLS_AVAILABLE, "too large refused"); symx_reach("toolarge"); }
            else if (!reuse && live(pool) == (pool ? N1 : N0)) { CHECK(r.has_error() && r.error() == AllocationError::RUNNING_OUT_OF_CHUNKS, "exhausted pool refused"); symx_reach("nochunk"); }
            else if (nu == 2) { CHECK(r.has_error() && r.error() == AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL, "more than the allowed number of parallel chunks refused"); symx_reach("toomany"); }
            else { CHECK(!r.has_error(), "allocation succeeds"); C c{r.value(), size, symx_u8("val"), 0, reuse ? last.pool : pool}; for (int i = 0; i < nu; i++) CHECK(use[i].h != c.h, "not in use"); for (int i = 0; i < nq; i++) CHECK(que[i].h != c.h, "a queued chunk is not reused"); for (int i = 0; i < nh; i++) CHECK(hist[i].h != c.h, "a history chunk is not reused"); if (hasHeld) CHECK(held.h != c.h, "a chunk a receiver holds is not reused");
                if (reuse) { CHECK(c.h == last.h, "the exclusively owned last chunk is reused"); symx_reach("reuse"); } CHECK(c.h->userPayloadSize() == size && c.h->originId() == me, "header describes the request"); CHECK(c.h->chunkSize() >= sizeof(ChunkHeader) + size, "chunk large enough"); { uint8_t* pl = (uint8_t*)c.h->userPayload(); uint8_t* b = (uint8_t*)c.h; CHECK((uintptr_t)pl % al == 0, "payload aligned as requested"); CHECK(c.h->userPayloadAlignment() == al && c.h->userHeaderSize() == uh, "header describes alignment and user header"); CHECK(uh ? (uint8_t*)c.h->userHeader() >= b + sizeof(ChunkHeader) && (uint8_t*)c.h->userHeader() + uh <= pl : c.h->userHeader() == nullptr, "user header as requested, in front of the payload"); CHECK(pl >= b + sizeof(ChunkHeader) && pl + size <= b + c.h->chunkSize(), "payload inside the chunk"); CHECK(ChunkHeader::fromUserPayload(pl) == c.h, "header found from the payload"); } if (size) *(uint8_t*)c.h->userPayload() = c.val; if (reuse) last = c; use[nu++] = c; }
        } else if (op <= 3 || op == 4) { // 1 send, 2 send to one, 3 history, 4 release
            int i = (int)symx_concrete(symx_range("slot", 0, 1)); ChunkHeader fake(sizeof(ChunkHeader) + 8, settings(8)); bool own = i < nu; ChunkHeader* h = own ? use[i].h : &fake; C c{}; if (own) { intact(use[i]); c = use[i]; for (int x = i + 1; x < nu; x++) use[x - 1] = use[x]; nu--; }
            if (op == 4) s.release(h);
            else { uint64_t n = 1; if (op == 1) n = s.send(h); else if (op == 2) n = s.sendToQueue(h, UniqueId(((QD*)qb)->m_uniqueId), 0); else s.pushToHistory(h);
                if (own) { CHECK(n == 1, "the one receiver is reached"); c.seq = seq++; used = true; CHECK(c.h->sequenceNumber() == c.seq, "sequence numbers count sent chunks without gaps"); if (op != 3) { if (nq == 2) { que[0] = que[1]; nq--; } que[nq++] = c; symx_reach("sent"); } if (op != 2 && HCAP) { if (nh == HCAP) { for (int x = 1; x < nh; x++) hist[x - 1] = hist[x]; nh--; } hist[nh++] = c; } last = c; hasLast = true; }
                else if (op != 3) CHECK(n == 0, "a chunk that is not owned is not sent"); }
            if (!own) symx_reach("foreign");
        } else if (op == 5) { auto r = s.tryGetPreviousChunk(); CHECK(r.has_value() == hasLast && (!hasLast || *r == last.h), "previous chunk is the last one sent"); }
        else { Pop p((QD*)qb); heldChunk.reset(); hasHeld = false; auto r = p.tryPop(); CHECK(r.has_value() == (nq > 0), "received"); if (r.has_value()) { C c = que[0]; if (nq == 2) que[0] = que[1]; nq--; CHECK(r->getChunkHeader() == c.h && c.h->sequenceNumber() == c.seq, "in order"); intact(c); heldChunk.emplace(*r); held = c; hasHeld = true; symx_reach("received"); } }
        for (int i = 0; i < nq; i++) intact(que[i]); if (hasHeld) intact(held); for (int i = 0; i < nh; i++) intact(hist[i]);
        CHECK(env.used(0) == (uint32_t)live(0) && env.used(1) == (uint32_t)live(1), "exactly the referenced chunks are taken from the pools");
    }
    heldChunk.reset(); s.releaseAll(); Pop((QD*)qb).clear(); CHECK(env.used(0) == 0 && env.used(1) == 0, "everything is returned"); (void)used;
}
