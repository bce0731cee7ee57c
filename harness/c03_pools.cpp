//@prop: C03
//@tus: %base %mepoo
//@bound: 2 or 3 pools of 1..2 chunks, up to NOPS acquire/release operations with symbolic order, symbolic request size (any 64-bit value) 
//@bound: concurrent: 2 threads, each acquiring and releasing symbolically, one pool of 1..2 chunks, all interleavings
//@job: name=seq defs="-DSEQ -DNOPS=5" reach=pool0,pool1,exhausted,toolarge,reuse
//@job: name=seq3 defs="-DSEQ -DNOPS=6 -DTHREEPOOLS" reach=pool0,pool1,pool2,exhausted,toolarge,reuse tier=thorough
//@job: name=empty defs="-DEMPTY" reach=nopool
//@job: name=conc args="--joinite" defs="-DCONC -DNCH=1 -DNOPS=2" reach=done,refused,got
//@job: name=conc2 defs="-DCONC -DNCH=2 -DNOPS=2" reach=done,got tier=thorough
#include "common.hpp"
using namespace iox; using namespace iox::mepoo;
static PoolEnv<4096, 8192> env; static MePooConfig cfg;
#ifdef SEQ
#ifdef THREEPOOLS
static const int NP = 3; static const uint64_t SZ[NP] = {32, 64, 256}; static const uint32_t CN[NP] = {2, 1, 1};
#else
static const int NP = 2; static const uint64_t SZ[NP] = {32, 128}; static const uint32_t CN[NP] = {2, 1};
#endif
struct Slot { SharedChunk c{nullptr}; int pool{-1}; };
void symx_main() {
    for (int i = 0; i < NP; i++) cfg.addMemPool({SZ[i], CN[i]});
    env.init(cfg);
    CHECK(env.mm->getNumberOfMemPools() == (uint32_t)NP, "all pools configured");
    Slot held[NOPS]; int used[NP] = {}; uint32_t minFree[NP]; for (int i = 0; i < NP; i++) minFree[i] = CN[i];
    uint32_t released[8]; int nrel = 0; (void)released; (void)nrel;
    for (int k = 0; k < NOPS; k++) {

        if (symx_bool("acquire")) {
            uint64_t sz = symx_u64("size"); uint32_t al = 8;
            auto st = ChunkSettings::create(sz, al); symx_assume(!st.has_error()); uint64_t need = st.value().requiredChunkSize();
            int p = -1; for (int i = NP; i-- > 0;) if (SZ[i] + sizeof(ChunkHeader) >= need) p = i;
            auto r = env.mm->getChunk(st.value());
            if (p < 0) { CHECK(r.has_error() && r.error() == MemoryManager::Error::NO_MEMPOOL_FOR_REQUESTED_CHUNK_SIZE, "request larger than every pool is refused as such"); symx_reach("toolarge"); }
            else if (used[p] == (int)CN[p]) { CHECK(r.has_error() && r.error() == MemoryManager::Error::MEMPOOL_OUT_OF_CHUNKS, "exhausted best-fit pool is reported, no other pool is raided"); symx_reach("exhausted"); }
            else {
                CHECK(!r.has_error(), "request with a free fitting chunk succeeds");
                if (p == 0) symx_reach("pool0"); else if (p == 1) symx_reach("pool1"); else symx_reach("pool2");
                SharedChunk c = std::move(r.value()); ChunkHeader* h = c.getChunkHeader(); uint64_t a = (uint64_t)h, n = SZ[p] + sizeof(ChunkHeader);
                CHECK(h->chunkSize() == n, "smallest fitting pool serves the request");
                CHECK(a >= (uint64_t)env.chunkMem && a + n <= (uint64_t)env.chunkMem + sizeof env.chunkMem, "chunk inside the pool memory");
                CHECK(a % MemPool::CHUNK_MEMORY_ALIGNMENT == 0, "chunk aligned");
                uint64_t pay = (uint64_t)c.getUserPayload(); CHECK(pay % al == 0 && pay >= a && pay + sz <= a + n, "payload inside the chunk");
                for (auto& s : held) if (s.pool >= 0) { uint64_t b = (uint64_t)s.c.getChunkHeader(); CHECK(a + n <= b || b + SZ[s.pool] + sizeof(ChunkHeader) <= a, "chunk disjoint from every chunk in use"); }
                used[p]++; if (CN[p] - used[p] < minFree[p]) minFree[p] = CN[p] - used[p];
                if (nrel) symx_reach("reuse");
                held[k].c = std::move(c); held[k].pool = p;
            }
        } else {
            int i = (int)symx_concrete(symx_range("which", 0, NOPS - 1)); symx_assume(held[i].pool >= 0);
            used[held[i].pool]--; held[i].pool = -1; held[i].c = SharedChunk(nullptr); nrel++;
        }
        for (int i = 0; i < NP; i++) { auto inf = env.mm->getMemPoolInfo(i); CHECK(inf.m_usedChunks == (uint32_t)used[i], "used counter exact"); CHECK(inf.m_minFreeChunks == minFree[i], "low-water mark exact"); CHECK(inf.m_numChunks == CN[i] && inf.m_chunkSize == SZ[i] + sizeof(ChunkHeader), "pool description"); }
    }
    for (auto& s : held) s.c = SharedChunk(nullptr);
    for (int i = 0; i < NP; i++) CHECK(env.used(i) == 0, "all chunks returned");
    CHECK(env.mm->getMemPoolInfo(NP).m_numChunks == 0, "unknown pool index reports nothing");
}
#elif defined(EMPTY)
void symx_main() { env.mm = new (env.mmBuf) MemoryManager(); auto r = env.mm->getChunk(settings(symx_range("size", 0, 1000))); CHECK(r.has_error() && r.error() == MemoryManager::Error::NO_MEMPOOLS_AVAILABLE, "no pools"); symx_reach("nopool"); }
#else
static int refused, got; static const void* own[3];
static void body(void* a) { int me = (int)(intptr_t)a;
    for (int k = 0; k < NOPS; k++) {
        auto r = env.mm->getChunk(settings(24));
        if (r.has_error()) { refused++; continue; }
        SharedChunk c = std::move(r.value()); const void* h = c.getChunkHeader(); got++;
        for (int o = 1; o < 3; o++) CHECK(own[o] != h, "chunk handed out to one user only");
        CHECK(c.getChunkHeader()->chunkSize() == 32 + sizeof(ChunkHeader) && c.getChunkHeader()->userPayloadSize() == 24, "header belongs to this request");
        own[me] = h;
        if (k + 1 < NOPS || symx_bool(me == 1 ? "t1.drop" : "t2.drop")) { own[me] = nullptr; c = SharedChunk(nullptr); } else { c.release(); } // kept: leave the reference alive
    }
}
void symx_main() {
    cfg.addMemPool({32, NCH}); env.init(cfg); env.share();
    symx_spawn(body, (void*)1, 0); symx_spawn(body, (void*)2, 0); symx_run(); symx_reach("done"); if (refused) symx_reach("refused"); if (got) symx_reach("got");
    uint32_t kept = (own[1] != nullptr) + (own[2] != nullptr);
    CHECK(env.used(0) == kept, "used counter exact after concurrent use");
    SharedChunk rest[NCH + 1]; uint32_t n = 0; for (auto& c : rest) { auto r = env.mm->getChunk(settings(24)); if (!r.has_error()) { c = std::move(r.value()); n++; for (int o = 1; o < 3; o++) CHECK(own[o] != c.getChunkHeader(), "kept chunk not handed out again"); } }
    CHECK(n + kept == NCH, "no chunk lost or duplicated");
}
#endif
