//@prop: C26
//@tus: %base %mepoo iceoryx_posh/source/roudi/memory/memory_provider.cpp iceoryx_posh/source/roudi/memory/memory_block.cpp iceoryx_posh/source/roudi/memory/mempool_collection_memory_block.cpp iceoryx_posh/source/roudi/memory/roudi_memory_manager.cpp
//@cfg: IOX_MAX_NUMBER_OF_MEMPOOLS=3
//@bound: bump allocator: symbolic start address and length (below 2^14), 2 allocations with symbolic sizes (the last one over all 64-bit values) and alignments (1, 8, 64, 512); memory provider: 3 blocks with symbolic sizes below 2^13, alignments 1, 16, 256, 4096, symbolic page aligned base address, create / announce / destroy histories with failing creation; pool memory: up to 2 pools of 1 to 3 chunks with symbolic chunk sizes up to 16384
//@stub: the memory provider under test gets its memory from a harness subclass at a symbolic address that is never dereferenced
//@job: name=bump defs="-DBUMP -DNA=2" reach=ok,zero,oom,reuse
//@job: name=align defs="-DALIGN" reach=done
//@job: name=provider defs="-DPROV" reach=created,failed,destroyed,twice
//@job: name=manager defs="-DMANAGER" reach=ok,fail,none
//@job: name=pools defs="-DPOOLS" reach=done
//@job: name=alloc defs="-DALLOC" reach=done
#include "symx.h"
#include "iox/bump_allocator.hpp"
#include "iox/memory.hpp"
#include "iceoryx_posh/roudi/memory/memory_block.hpp"
#include "iceoryx_posh/roudi/memory/memory_provider.hpp"
#include "iceoryx_posh/roudi/memory/roudi_memory_manager.hpp"
#include "iceoryx_posh/internal/roudi/memory/mempool_collection_memory_block.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iox/relative_pointer.hpp"
#include <new>
using namespace iox;
static uint64_t U(const void* p) { return reinterpret_cast<uint64_t>(p); }
static uint64_t pow2(const char* n, unsigned max) { return 1ull << symx_range(n, 0, max); }
#if defined(BUMP)
void symx_main() { uint64_t start = symx_range("start", 1, 0x3fff), len = symx_range("len", 0, 0x3fff); BumpAllocator a(reinterpret_cast<void*>(start), len);
    uint64_t end = start; bool exhausted = false; (void)exhausted;
    for (int k = 0; k < NA; k++) { uint64_t s = k == NA - 1 ? symx_u64("size") : symx_range("size", 0, 0xffff), al = 1ull << symx_concrete(symx_range("align", 0, 3) * 3); auto r = a.allocate(s, al);
        uint64_t aligned = (end + al - 1) & ~(al - 1); bool fits = s != 0 && aligned <= start + len && s <= start + len - aligned;
        if (r.has_error()) { if (s == 0) { CHECK(r.error() == BumpAllocatorError::REQUESTED_ZERO_SIZED_MEMORY, "zero size is refused"); symx_reach("zero"); } else { CHECK(r.error() == BumpAllocatorError::OUT_OF_MEMORY && !fits, "refused only when it does not fit"); symx_reach("oom"); } }
        else { uint64_t p = U(r.value()); CHECK(fits && p % al == 0 && p >= end && s <= start + len && p <= start + len - s, "allocation is aligned, after the previous ones and within the memory"); end = p + s; symx_reach("ok"); } }
    a.deallocate(); auto r = a.allocate(1, 1); CHECK(r.has_error() == (len == 0), "usable again after deallocation"); if (!r.has_error()) { CHECK(U(r.value()) == start, "from the start"); symx_reach("reuse"); } }
#elif defined(ALIGN)
void symx_main() { uint64_t v = symx_u64("v"), al = pow2("al", 63); symx_assume(v <= UINT64_MAX - (al - 1)); uint64_t r = align(v, al); CHECK(r >= v && r - v < al && (r & (al - 1)) == 0, "the next multiple"); uint32_t w = symx_u32("w"), bl = 1u << symx_range("bl", 0, 31); symx_assume(w <= UINT32_MAX - (bl - 1)); uint32_t q = align(w, bl); CHECK(q >= w && q - w < bl && (q & (bl - 1)) == 0, "the next multiple (32 bit)"); symx_reach("done"); }
#elif defined(ALLOC)
void symx_main() { uint64_t al = symx_concrete(pow2("al", 7)); uint64_t n = symx_concrete(symx_range("n", 1, 40)); void* p = alignedAlloc(al, n); CHECK(p != nullptr && U(p) % al == 0, "aligned"); static_cast<uint8_t*>(p)[0] = 1; static_cast<uint8_t*>(p)[n - 1] = 2; alignedFree(p); symx_reach("done"); }
#else
struct Block : roudi::MemoryBlock { uint64_t s, a; unsigned destroyed{0}, available{0}; uint64_t where{0}; uint64_t size() const noexcept override { return s; } uint64_t alignment() const noexcept override { return a; } void destroy() noexcept override { destroyed++; } void onMemoryAvailable(not_null<void*> m) noexcept override { available++; where = U(m); } };
struct Prov : roudi::MemoryProvider { bool fail{false}, faild{false}; uint64_t base{0}, size_{0}, al{0}; unsigned created{0}, destr{0};
    expected<void*, roudi::MemoryProviderError> createMemory(const uint64_t size, const uint64_t alignment) noexcept override { created++; size_ = size; al = alignment; if (fail) return err(roudi::MemoryProviderError::MEMORY_CREATION_FAILED); symx_assume(base % alignment == 0); return ok(reinterpret_cast<void*>(base)); }
    expected<void, roudi::MemoryProviderError> destroyMemory() noexcept override { destr++; if (faild) return err(roudi::MemoryProviderError::MEMORY_DESTRUCTION_FAILED); return ok(); } };
#if defined(PROV)
static Block b[3];
void symx_main() { Prov& p = *new Prov; unsigned n = symx_concrete(symx_range("n", 0, 3)); for (unsigned i = 0; i < n; i++) { b[i].s = symx_range("size", 1, 0x1fff); b[i].a = 1ull << (symx_concrete(symx_range("align", 0, 3)) * 4); CHECK(!p.addMemoryBlock(&b[i]).has_error(), "block accepted"); }
    p.base = symx_range("page", 1, 15) << 12; p.fail = symx_concrete(symx_bool("fail")); auto r = p.create();
    if (n == 0) { CHECK(r.has_error() && r.error() == roudi::MemoryProviderError::NO_MEMORY_BLOCKS_PRESENT && p.created == 0, "nothing to create"); return; }
    CHECK(p.created == 1, "memory is created once");
    if (p.fail) { CHECK(r.has_error() && r.error() == roudi::MemoryProviderError::MEMORY_CREATION_FAILED && !p.baseAddress().has_value() && !p.segmentId().has_value(), "failure is reported"); CHECK(p.destroy().has_error(), "nothing to destroy"); symx_reach("failed"); return; }
    CHECK(!r.has_error() && U(p.baseAddress().value()) == p.base && p.size() == p.size_, "created"); symx_reach("created");
    for (unsigned i = 0; i < n; i++) { auto m = b[i].memory(); CHECK(m.has_value(), "every block gets its memory"); uint64_t at = U(m.value()); CHECK(at % b[i].a == 0 && at >= p.base && at - p.base <= p.size_ && b[i].s <= p.size_ - (at - p.base), "a block lies aligned inside the memory"); for (unsigned j = 0; j < i; j++) { uint64_t o = U(b[j].memory().value()); CHECK(o + b[j].s <= at || at + b[i].s <= o, "blocks do not overlap"); } CHECK(b[i].available == 0, "not announced yet"); }
    uint64_t seg = p.segmentId().value(); CHECK(seg >= 1 && U(UntypedRelativePointer::getBasePtr(segment_id_t{seg})) == p.base, "memory is registered for relative pointers"); CHECK(UntypedRelativePointer::searchId(reinterpret_cast<void*>(p.base + p.size_ - 1)) == seg && UntypedRelativePointer::searchId(reinterpret_cast<void*>(p.base + p.size_)) == 0, "with its full size");
    CHECK(p.create().has_error() && p.created == 1, "created only once"); Block x; CHECK(p.addMemoryBlock(&x).has_error(), "no block after creation"); symx_reach("twice");
    p.announceMemoryAvailable(); p.announceMemoryAvailable(); for (unsigned i = 0; i < n; i++) CHECK(b[i].available == 1 && b[i].where == U(b[i].memory().value()), "announced once with the block's memory");
    p.faild = symx_concrete(symx_bool("faild")); auto d = p.destroy(); CHECK(d.has_error() == p.faild && p.destr == 1, "destruction result"); for (unsigned i = 0; i < n; i++) CHECK(b[i].destroyed == 1, "every block is destroyed"); if (!p.faild) { CHECK(!p.baseAddress().has_value() && U(UntypedRelativePointer::getBasePtr(segment_id_t{seg})) == 0, "memory is gone"); CHECK(p.destroy().has_error() && p.destr == 1, "destroyed once"); symx_reach("destroyed"); } }
#elif defined(MANAGER)
static Block b[2]; static Prov p[2];
void symx_main() { { roudi::RouDiMemoryManager m; unsigned n = symx_concrete(symx_range("n", 0, 2)); for (unsigned i = 0; i < n; i++) { b[i].s = 64 + i; b[i].a = 8; p[i].base = 0x10000 * (i + 1); p[i].fail = symx_concrete(symx_bool("fail")); p[i].faild = symx_concrete(symx_bool("faild")); CHECK(!p[i].addMemoryBlock(&b[i]).has_error() && !m.addMemoryProvider(&p[i]).has_error(), "added"); }
    auto r = m.createAndAnnounceMemory(); bool f = false, fd = false; for (unsigned i = 0; i < n; i++) { bool c = !f && !p[i].fail; f |= p[i].fail; if (c) fd |= p[i].faild; }
    CHECK(r.has_error() == (n == 0 || f), "success only if all memory was created"); for (unsigned i = 0; i < n; i++) CHECK(b[i].available == (r.has_error() ? 0u : 1u), "announced only when everything was created"); if (n == 0) symx_reach("none"); else if (f) symx_reach("fail"); else symx_reach("ok");
    auto d = m.destroyMemory(); CHECK(d.has_error() == fd, "failed destruction is reported"); f = false; for (unsigned i = 0; i < n; i++) { bool c = !f && !p[i].fail; f |= p[i].fail; CHECK(p[i].destr == (c ? 1u : 0u) && b[i].destroyed == (c ? 1u : 0u), "every created memory is destroyed, even after a failure"); } }
}
#else
alignas(64) static uint8_t mem[131072];
struct PProv : roudi::MemoryProvider { uint64_t size_{0}; expected<void*, roudi::MemoryProviderError> createMemory(const uint64_t size, const uint64_t alignment) noexcept override { CHECK(64 % alignment == 0, "harness"); size_ = symx_concrete(size); CHECK(size_ <= sizeof mem, "harness: size"); return ok(static_cast<void*>(mem + sizeof mem - size_)); } expected<void, roudi::MemoryProviderError> destroyMemory() noexcept override { return ok(); } };
void symx_main() { mepoo::MePooConfig c; unsigned n = symx_concrete(symx_range("n", 1, 2)); uint32_t prev = 0; for (unsigned i = 0; i < n; i++) { uint32_t s = symx_concrete(symx_range("s", 1, 3)); static const uint32_t sz[4] = {0, 8, 104, 2056}; uint32_t z = sz[s] + (i ? 4096 : 0); CHECK(z > prev, "ascending"); prev = z; c.addMemPool({z, static_cast<uint32_t>(symx_concrete(symx_range("count", 1, 3)))}); }
    // the block's memory ends exactly at the end of the buffer: every allocation or write beyond the announced size is an error
    roudi::MemPoolCollectionMemoryBlock b(c); PProv p; CHECK(!p.addMemoryBlock(&b).has_error() && !p.create().has_error(), "the computed size is sufficient"); CHECK(U(b.memory().value()) % b.alignment() == 0, "aligned"); p.announceMemoryAvailable(); CHECK(b.memoryManager().has_value(), "memory manager available"); auto* mm = b.memoryManager().value(); CHECK(mm->getNumberOfMemPools() == n, "all pools");
    unsigned i = 0, nk = 0; for (auto& e : c.m_mempoolConfig) { for (unsigned k = 0; k < e.m_chunkCount; k++) { auto s = mepoo::ChunkSettings::create(e.m_size, 8).value(); auto r = mm->getChunk(s); CHECK(!r.has_error(), "the configured number of chunks of the configured size is available"); auto ch = r.value(); uint64_t a = U(ch.getChunkHeader()); CHECK(a >= U(b.memory().value()) && a + ch.getChunkHeader()->chunkSize() <= U(mem) + sizeof mem, "chunk inside the memory"); static_cast<uint8_t*>(ch.getUserPayload())[e.m_size - 1] = 7; static mepoo::SharedChunk keep[8]; keep[nk++] = ch; } i++; } (void)i; symx_reach("done"); }
#endif
#endif
