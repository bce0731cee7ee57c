//@prop: C08
//@tus: %base %mepoo %popo
//@bound: receiver that may hold HELD chunks, queue capacity 2, both queue-full policies, NOPS symbolic operations (deliver, take, release of any taken or foreign chunk, release all), symbolic payload values
//@job: name=seq defs="-DNOPS=7 -DHELD=1" reach=taken,limit,empty,foreign,all
//@job: name=held2 defs="-DNOPS=8 -DHELD=2" reach=taken,limit,empty,foreign,all
//@job: name=held3 defs="-DNOPS=10 -DHELD=3" reach=taken,limit,empty,foreign,all tier=thorough
#include "common.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_receiver.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_receiver_data.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/chunk_queue_pusher.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/locking_policy.hpp"
using namespace iox; using namespace iox::mepoo; using namespace iox::popo;
struct QCfg { static constexpr uint64_t MAX_QUEUE_CAPACITY = 2; };
using QD = ChunkQueueData<QCfg, SingleThreadedPolicy>; using RD = ChunkReceiverData<HELD, QD>; using Rec = ChunkReceiver<RD>; using Push = ChunkQueuePusher<QD>;
static PoolEnv<8192, 8192> env; static MePooConfig cfg; alignas(64) static uint8_t rb[sizeof(RD)];
void symx_main() {
    enum { LIMIT = HELD + 1, NCH = LIMIT + 3 };
    cfg.addMemPool({16, NCH}); env.init(cfg); bool block = symx_bool("block"); bool multi = symx_bool("multi");
    new (rb) RD(block ? (multi ? VariantQueueTypes::FiFo_MultiProducerSingleConsumer : VariantQueueTypes::FiFo_SingleProducerSingleConsumer) : (multi ? VariantQueueTypes::SoFi_MultiProducerSingleConsumer : VariantQueueTypes::SoFi_SingleProducerSingleConsumer), block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA);
    Rec r((RD*)rb); Push p((QD*)(RD*)rb); struct C { const ChunkHeader* h; uint32_t v; }; C que[2], held[LIMIT]; int nq = 0, nh = 0;
    auto sum = [&] { uint32_t n = (uint32_t)(nq + nh); CHECK(env.used(0) == n, "exactly the queued and held chunks are alive"); for (int i = 0; i < nh; i++) CHECK(*(const uint32_t*)held[i].h->userPayload() == held[i].v, "a held chunk is never overwritten"); };
    for (int k = 0; k < NOPS; k++) {
        symx_join(1);
        switch (symx_concrete(symx_range("op", 0, 3))) {
        case 0: { auto c = env.mm->getChunk(settings(4)); CHECK(!c.has_error(), "no leak: a chunk is available"); uint32_t v = symx_u32("v"); *(uint32_t*)c.value().getUserPayload() = v; C x{c.value().getChunkHeader(), v}; bool ok = p.push(c.value()); CHECK(ok == (nq < 2), "overflow is reported exactly when the queue is full"); if (ok) que[nq++] = x; else if (!block) { que[0] = que[1]; que[1] = x; } break; }
        case 1: { auto g = r.tryGet(); if (nq == 0) { CHECK(g.has_error() && g.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE, "nothing to receive"); symx_reach("empty"); break; }
            C x = que[0]; que[0] = que[1]; nq--; if (nh == LIMIT) { CHECK(g.has_error() && g.error() == ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL, "the holding limit is enforced"); symx_reach("limit"); } else { CHECK(!g.has_error() && g.value() == x.h && *(const uint32_t*)x.h->userPayload() == x.v, "the oldest queued chunk is received, unchanged"); held[nh++] = x; symx_reach("taken"); } break; }
        case 2: { int i = (int)symx_concrete(symx_range("i", 0, LIMIT)); if (i >= nh) { ChunkHeader fake(sizeof(ChunkHeader) + 8, settings(8)); r.release(&fake); symx_reach("foreign"); } else { r.release(held[i].h); for (int x = i + 1; x < nh; x++) held[x - 1] = held[x]; nh--; } break; }
        default: r.releaseAll(); nq = nh = 0; symx_reach("all");
        }
        sum();
    }
    r.releaseAll(); CHECK(env.used(0) == 0, "release all returns every chunk");
}
