// shared set-up code of the posh harnesses (public constructors and configuration calls only)
#pragma once
#include "symx.h"
#include "iceoryx_posh/internal/mepoo/memory_manager.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iceoryx_posh/mepoo/chunk_header.hpp"
#include "iceoryx_posh/mepoo/chunk_settings.hpp"
#include "iox/bump_allocator.hpp"
#include <new>
template <uint64_t MgmtBytes, uint64_t ChunkBytes> struct PoolEnv {
    alignas(64) uint8_t mgmt[MgmtBytes]; alignas(64) uint8_t chunkMem[ChunkBytes]; alignas(64) uint8_t mmBuf[sizeof(iox::mepoo::MemoryManager)];
    iox::mepoo::MemoryManager* mm{nullptr};
    void init(const iox::mepoo::MePooConfig& c) {
        CHECK(iox::mepoo::MemoryManager::requiredManagementMemorySize(c) <= MgmtBytes && iox::mepoo::MemoryManager::requiredChunkMemorySize(c) <= ChunkBytes, "harness: pool memory large enough");
        iox::BumpAllocator a(mgmt, iox::mepoo::MemoryManager::requiredManagementMemorySize(c)), b(chunkMem, iox::mepoo::MemoryManager::requiredChunkMemorySize(c));
        mm = new (mmBuf) iox::mepoo::MemoryManager(); mm->configureMemoryManager(c, a, b);
    }
    void share() { symx_shared(mgmt, sizeof mgmt); symx_shared(chunkMem, sizeof chunkMem); symx_shared(mmBuf, sizeof mmBuf); }
    uint32_t used(uint32_t i) { return mm->getMemPoolInfo(i).m_usedChunks; }
    uint32_t total(uint32_t i) { return mm->getMemPoolInfo(i).m_numChunks; }
    bool inside(const void* p) const { return p >= (const void*)chunkMem && p < (const void*)(chunkMem + ChunkBytes); }
};
inline iox::mepoo::ChunkSettings settings(uint64_t size, uint32_t align = 8, uint32_t uh = 0, uint32_t uha = 1) { auto r = iox::mepoo::ChunkSettings::create(size, align, uh, uha); symx_assume(!r.has_error()); return r.value(); }
