// RouDi's PortManager on top of harness-owned memory (real PortPool, MemoryManagers, ports, registry, introspection)
#pragma once
#include "common.hpp"
#include "iceoryx_posh/internal/roudi/port_manager.hpp"
#include "iceoryx_posh/roudi/memory/roudi_memory_interface.hpp"
#include "iceoryx_posh/roudi/introspection_types.hpp"
using namespace iox; using namespace iox::roudi; using namespace iox::popo;
struct PM : PortManager { using PortManager::PortManager; using PortManager::serviceRegistry; };
struct FakeMem : RouDiMemoryInterface {
    PoolEnv<4096, 65536> disc, intro; alignas(64) uint8_t pd[sizeof(PortPoolData)], pp[sizeof(PortPool)]; PortPool* pool{nullptr}; PortPoolData* data{nullptr}; mepoo::MePooConfig c1, c2;
    void init() { c1.addMemPool({(uint32_t)align(sizeof(ServiceRegistry), (size_t)64), 3}); disc.init(c1);
        uint64_t m = sizeof(PortIntrospectionFieldTopic); if (sizeof(PortThroughputIntrospectionFieldTopic) > m) m = sizeof(PortThroughputIntrospectionFieldTopic); if (sizeof(SubscriberPortChangingIntrospectionFieldTopic) > m) m = sizeof(SubscriberPortChangingIntrospectionFieldTopic);
        c2.addMemPool({(uint32_t)align(m, (uint64_t)64), 6}); intro.init(c2); data = new (pd) PortPoolData(DEFAULT_UNIQUE_ROUDI_ID); pool = new (pp) PortPool(*data); }
    expected<void, RouDiMemoryManagerError> createAndAnnounceMemory() noexcept override { return ok(); }
    expected<void, RouDiMemoryManagerError> destroyMemory() noexcept override { return ok(); }
    const PosixShmMemoryProvider* mgmtMemoryProvider() const noexcept override { return nullptr; }
    optional<PortPool*> portPool() noexcept override { return make_optional<PortPool*>(pool); }
    optional<mepoo::MemoryManager*> introspectionMemoryManager() const noexcept override { return make_optional<mepoo::MemoryManager*>(intro.mm); }
    optional<mepoo::MemoryManager*> discoveryMemoryManager() const noexcept override { return make_optional<mepoo::MemoryManager*>(disc.mm); }
    optional<HeartbeatPool*> heartbeatPool() const noexcept override { return nullopt; }
    optional<mepoo::SegmentManager<>*> segmentManager() const noexcept override { return nullopt; }
};
static FakeMem* g_mem; static PM* g_pm; alignas(64) static uint8_t g_memBuf[sizeof(FakeMem)], g_pmBuf[sizeof(PM)]; static PoolEnv<8192, 16384> g_user; static mepoo::MePooConfig g_userCfg;
static inline void roudiInit(uint32_t chunks) { g_mem = new (g_memBuf) FakeMem(); g_mem->init(); g_userCfg.addMemPool({128, chunks}); g_user.init(g_userCfg); g_pm = new (g_pmBuf) PM(g_mem); }
