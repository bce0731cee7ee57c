//@prop: C04
//@tus: %base %mepoo
//@bound: sequential: 2 chunks, NH handles (plain and shared-memory form), NOPS symbolic copy/move/assign/drop/convert operations
//@bound: concurrent: 2-3 threads each holding a reference, copying/dropping symbolically, all interleavings
//@job: name=seq defs="-DSEQ -DNH=3 -DNOPS=4" reach=freed,shared,self
//@job: name=seq_long defs="-DSEQ -DNH=3 -DNOPS=6" reach=freed,shared,self tier=thorough
//@job: name=shm defs="-DSHM -DNOPS=4" reach=freed,soleowner,shared
//@job: name=conc args="--joinite" defs="-DCONC" reach=done,kept,gone
//@job: name=conc3 defs="-DCONC -DTHREE" reach=done,kept,gone tier=thorough
#include "common.hpp"
#include "iceoryx_posh/internal/mepoo/shared_chunk.hpp"
#include "iceoryx_posh/internal/mepoo/shm_safe_unmanaged_chunk.hpp"
using namespace iox; using namespace iox::mepoo;
static PoolEnv<4096, 4096> env; static MePooConfig cfg;
static SharedChunk get() { auto r = env.mm->getChunk(settings(16)); CHECK(!r.has_error(), "pool has a chunk"); return std::move(r.value()); }
#ifdef SEQ
void symx_main() {
    cfg.addMemPool({32, 2}); env.init(cfg);
    const void* id[2]; SharedChunk h[NH]; int m[NH]; for (auto& x : m) x = -1;
    h[0] = get(); m[0] = 0; h[1] = get(); m[1] = 1; id[0] = h[0].getChunkHeader(); id[1] = h[1].getChunkHeader();
    for (int k = 0; k < NOPS; k++) {
        symx_join(1);
        int a = (int)symx_concrete(symx_range("a", 0, NH - 1)), b = (int)symx_concrete(symx_range("b", 0, NH - 1));
        switch (symx_concrete(symx_range("op", 0, 4))) {
        case 0: h[a] = h[b]; m[a] = m[b]; if (a == b) symx_reach("self"); break;
        case 1: h[a] = std::move(h[b]); if (a != b) { m[a] = m[b]; m[b] = -1; } break;
        case 2: { SharedChunk t(h[a]); CHECK((bool)t == (m[a] >= 0), "copy refers to the same chunk"); CHECK(t == h[a], "copy equal"); } break;
        case 3: { int w = m[a]; SharedChunk t(std::move(h[a])); CHECK(!h[a], "moved-from handle is empty"); m[a] = -1; h[b] = std::move(t); m[b] = w; } break;
        default: h[a] = SharedChunk(nullptr); m[a] = -1; break;
        }
        uint32_t alive = 0; for (int c = 0; c < 2; c++) { int n = 0; for (int x : m) n += x == c; alive += n > 0; if (n > 1) symx_reach("shared"); }
        CHECK(env.used(0) == alive, "chunk is returned exactly when its last owner is gone"); if (alive < 2) symx_reach("freed");
        for (int i = 0; i < NH; i++) { CHECK((bool)h[i] == (m[i] >= 0), "handle emptiness"); if (m[i] >= 0) { CHECK(h[i].getChunkHeader() == id[m[i]], "handle refers to its chunk"); CHECK(h[i] == ((ChunkHeader*)id[m[i]])->userPayload(), "payload comparison"); } else CHECK(h[i].getUserPayload() == nullptr && h[i].getChunkHeader() == nullptr, "empty handle has no payload"); }
    }
    for (auto& x : h) x = SharedChunk(nullptr);
    CHECK(env.used(0) == 0, "all returned");
}
#elif defined(SHM)
void symx_main() {
    cfg.addMemPool({32, 2}); env.init(cfg);
    ShmSafeUnmanagedChunk u; bool has = false; int extra = 0; SharedChunk keep[2]; 
    CHECK(u.isLogicalNullptr() && u.getChunkHeader() == nullptr && !u.isNotLogicalNullptrAndHasNoOtherOwners(), "default is empty"); CHECK(!u.releaseToSharedChunk() && !u.cloneToSharedChunk(), "nothing to release");
    const void* id = nullptr;
    for (int k = 0; k < NOPS; k++) {
        switch (symx_concrete(symx_range("op", 0, 3))) {
        case 0: if (!has && !extra) { SharedChunk c = get(); id = c.getChunkHeader(); u = ShmSafeUnmanagedChunk(c); has = true; } break;
        case 1: if (has && extra < 2) { keep[extra] = u.cloneToSharedChunk(); CHECK(keep[extra].getChunkHeader() == id, "clone refers to the chunk"); extra++; symx_reach("shared"); } break;
        case 2: if (has) { SharedChunk c = u.releaseToSharedChunk(); has = false; CHECK(c.getChunkHeader() == id, "released handle refers to the chunk"); CHECK(u.isLogicalNullptr(), "released slot is empty"); } break;
        default: if (extra) { extra--; keep[extra] = SharedChunk(nullptr); } break;
        }
        bool alive = has || extra; if (!alive && id) symx_reach("freed");
        CHECK(env.used(0) == (alive ? 1u : 0u), "chunk lives exactly as long as somebody refers to it");
        CHECK(u.isLogicalNullptr() == !has, "null state"); CHECK(u.getChunkHeader() == (has ? id : nullptr), "slot refers to the chunk");
        CHECK(u.isNotLogicalNullptrAndHasNoOtherOwners() == (has && extra == 0), "sole ownership reported exactly"); if (has && !extra) symx_reach("soleowner");
    }
}
#else
alignas(8) static uint8_t refBuf[3][sizeof(SharedChunk)]; static bool kept[3];
static void body(void* a) { int me = (int)(intptr_t)a; auto& mine = *(SharedChunk*)refBuf[me];
    CHECK((bool)mine, "reference valid");
    { SharedChunk c2(mine); mine = SharedChunk(nullptr); CHECK((bool)c2 && c2.getChunkHeader()->userPayloadSize() == 16, "chunk alive while referenced"); 
      if (symx_bool(me == 0 ? "t0.keep" : me == 1 ? "t1.keep" : "t2.keep")) { mine = std::move(c2); kept[me] = true; } }
}
void symx_main() {
    cfg.addMemPool({32, 2}); env.init(cfg);
    { SharedChunk c = get(); for (auto& b : refBuf) new (b) SharedChunk(nullptr); *(SharedChunk*)refBuf[0] = c; *(SharedChunk*)refBuf[1] = c;
#ifdef THREE
      *(SharedChunk*)refBuf[2] = c;
#endif
    }
    env.share();
    symx_spawn(body, (void*)0, 0); symx_spawn(body, (void*)1, 0);
#ifdef THREE
    symx_spawn(body, (void*)2, 0);
#endif
    symx_run(); symx_reach("done");
    bool any = kept[0] || kept[1] || kept[2]; if (any) symx_reach("kept"); else symx_reach("gone");
    CHECK(env.used(0) == (any ? 1u : 0u), "chunk returned exactly once when the last reference is gone");
    for (auto& b : refBuf) *(SharedChunk*)b = SharedChunk(nullptr);
    CHECK(env.used(0) == 0, "returned"); SharedChunk x = get(), y = get(); CHECK(x.getChunkHeader() != y.getChunkHeader(), "pool intact");
}
#endif
