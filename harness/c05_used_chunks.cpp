//@prop: C05
//@tus: %base %mepoo
//@bound: sequential: list capacity 1..3, NOPS symbolic insert/remove operations incl. foreign chunks
//@bound: crash: process dies at any shared-memory access while executing NOPS symbolic insert/remove operations, capacity 2; cleanup runs afterwards in another process
//@job: name=seq defs="-DSEQ -DCAP=2 -DNOPS=5" reach=full,removed,unknown,cleaned
//@job: name=seq1 defs="-DSEQ -DCAP=1 -DNOPS=4" reach=full,removed,unknown,cleaned
//@job: name=seq3 defs="-DSEQ -DCAP=3 -DNOPS=6" reach=full,removed,unknown,cleaned tier=thorough
//@job: name=crash args="--joinite" defs="-DCRASH -DCAP=2 -DNOPS=3" reach=crashed,finished,leak,noleak
//@job: name=crash3 defs="-DCRASH -DCAP=3 -DNOPS=4" reach=crashed,finished,leak,noleak tier=thorough
#include "common.hpp"
#include "iceoryx_posh/internal/popo/used_chunk_list.hpp"
using namespace iox; using namespace iox::mepoo;
static PoolEnv<4096, 4096> env; static MePooConfig cfg; static const int NC = CAP + 1;
static SharedChunk get() { auto r = env.mm->getChunk(settings(16)); CHECK(!r.has_error(), "pool has a chunk"); return std::move(r.value()); }
using List = popo::UsedChunkList<CAP>; alignas(8) static uint8_t listBuf[sizeof(List)]; alignas(8) static uint8_t holdBuf[NC][sizeof(SharedChunk)];
static SharedChunk& hold(int i) { return *(SharedChunk*)holdBuf[i]; }
static void afterCleanup(List& l) { // list fully usable again
    for (int i = 0; i < CAP; i++) CHECK(l.insert(hold(i)), "cleaned list accepts its full capacity again");
    CHECK(!l.insert(hold(CAP)), "and not more");
    for (int i = 0; i < CAP; i++) { SharedChunk c; CHECK(l.remove(hold(i).getChunkHeader(), c) && c.getChunkHeader() == hold(i).getChunkHeader(), "every chunk is found again"); }
}
#ifdef SEQ
void symx_main() {
    cfg.addMemPool({32, NC}); env.init(cfg); auto& l = *new (listBuf) List(); bool in[NC] = {}; bool alive[NC]; int n = 0;
    for (int i = 0; i < NC; i++) { new (holdBuf[i]) SharedChunk(get()); alive[i] = true; }
    const ChunkHeader* id[NC]; for (int i = 0; i < NC; i++) id[i] = hold(i).getChunkHeader();
    for (int k = 0; k < NOPS; k++) {
        symx_join(1);
        int c = (int)symx_concrete(symx_range("chunk", 0, NC - 1));
        if (symx_bool("insert")) { if (in[c] || !alive[c]) continue; bool r = l.insert(hold(c)); CHECK(r == (n < CAP), "insert succeeds iff there is room"); if (r) { in[c] = true; n++; } else symx_reach("full"); }
        else if (symx_bool("drop")) { hold(c) = SharedChunk(nullptr); if (!in[c]) alive[c] = false; }
        else { SharedChunk o; bool r = l.remove(id[c], o); CHECK(r == in[c], "remove finds exactly the inserted chunks"); if (r) { CHECK(o.getChunkHeader() == id[c], "the right chunk is handed out"); in[c] = false; n--; symx_reach("removed"); hold(c) = std::move(o); } else { symx_reach("unknown"); CHECK(!o, "nothing handed out"); } }
        uint32_t a = 0; for (int i = 0; i < NC; i++) a += alive[i]; CHECK(env.used(0) == a, "inserted chunks stay alive, others are not affected");
    }
    l.cleanup(); symx_reach("cleaned");
    uint32_t a = 0; for (int i = 0; i < NC; i++) a += (bool)hold(i); CHECK(env.used(0) == a, "cleanup releases every listed chunk exactly once");
    for (int i = 0; i < NC; i++) if (!hold(i)) hold(i) = get();
    afterCleanup(l);
}
#else
static void body(void*) { auto& l = *(List*)listBuf; bool in[NC] = {};
    for (int k = 0; k < NOPS; k++) { int c = (int)symx_concrete(symx_range("chunk", 0, NC - 1));
        if (!in[c]) in[c] = l.insert(hold(c)); else { SharedChunk o; CHECK(l.remove(hold(c).getChunkHeader(), o), "found"); in[c] = false; } } }
void symx_main() {
    cfg.addMemPool({32, NC}); env.init(cfg); auto& l = *new (listBuf) List(); for (int i = 0; i < NC; i++) new (holdBuf[i]) SharedChunk(get());
    env.share(); symx_shared(listBuf, sizeof listBuf);
    int t = symx_spawn(body, nullptr, 1); symx_run(); bool cr = symx_crashed(t); if (cr) symx_reach("crashed"); else symx_reach("finished");
    l.cleanup();
    CHECK(env.used(0) == (uint32_t)NC, "cleanup after a crash never frees a chunk that is still referenced");
    afterCleanup(l);
    for (int i = 0; i < NC; i++) hold(i) = SharedChunk(nullptr);
    uint32_t leak = env.used(0); CHECK(leak <= (cr ? 1u : 0u), "at most the chunk in flight at the crash is lost"); if (leak) symx_reach("leak"); else symx_reach("noleak");
}
#endif
