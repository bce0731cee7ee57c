//@prop: C19
//@tus: %base %mepoo %popo %capro %ports %roudi
//@cfg: %small IOX_MAX_NUMBER_OF_CONDITION_VARIABLES=3
//@bound: two applications, each with one publisher, subscriber, client, server, condition variable (and one interface port) connected to each other through the real PortManager; NOPS symbolic operations (publish, loan and keep, take and keep, requests, responses, unsubscribe, stop offer, discovery) after which application 1 ends in one of three symbolic ways (crash clean-up, orderly destroy of its ports, shutdown notice plus crash clean-up); then application 2 goes on, creates new ports and ends
//@stub: thread start of the introspection's periodic task does nothing; semaphores, red-black-tree primitives of libstdc++ modelled in rt/stubs.cpp
//@job: name=pubsub defs="-DNOPS=6 -DPS" reach=crash,orderly,shutdown,intact,loaned,kept
//@job: name=rpc defs="-DNOPS=6 -DRPCS" reach=crash,orderly,shutdown,served,kept
//@job: name=mixed defs="-DNOPS=4 -DPS -DRPCS" reach=crash,orderly,shutdown,served,kept
#include "roudi_env.hpp"
#include "iceoryx_posh/popo/rpc_header.hpp"
template <typename T> struct Slot { alignas(16) uint8_t b[sizeof(T)]; T* p{nullptr}; template <typename... A> T* mk(A&&... a) { p = new (b) T(a...); return p; } };
static Slot<PublisherPortUser> pu[2]; static Slot<SubscriberPortUser> su[2]; static Slot<ClientPortUser> cu[2]; static Slot<ServerPortUser> vu[2]; static ConditionVariableData* cv[2];
static const mepoo::ChunkHeader* kept[2][3]; static int nkept[2]; static mepoo::ChunkHeader* loaned[2]; static const RequestHeader* rkept[2]; static RequestHeader* rloan[2];
static uint32_t want2[16]; static int nwant2; static uint32_t tag = 1; static bool connA = true; // a: pub 0 -> sub 1
static capro::ServiceDescription topic(int i) { return i ? capro::ServiceDescription{"t1", "i", "e"} : capro::ServiceDescription{"t0", "i", "e"}; }
static capro::ServiceDescription rpc(int i) { return i ? capro::ServiceDescription{"r1", "i", "e"} : capro::ServiceDescription{"r0", "i", "e"}; }
static RuntimeName_t app(int i) { return i ? RuntimeName_t("two") : RuntimeName_t("one"); }
static void makeApp(int i) { PublisherOptions po; po.historyCapacity = 1; SubscriberOptions so; so.historyRequest = 1; so.queueCapacity = 12;
    auto p = g_pm->acquirePublisherPortData(topic(i), po, app(i), g_user.mm, {}); CHECK(!p.has_error(), "publisher port available"); pu[i].mk(p.value()); auto s = g_pm->acquireSubscriberPortData(topic(1 - i), so, app(i), {}); CHECK(!s.has_error(), "subscriber port available"); su[i].mk(s.value());
    auto c = g_pm->acquireClientPortData(rpc(1 - i), ClientOptions(), app(i), g_user.mm, {}); CHECK(!c.has_error(), "client port available"); cu[i].mk(*c.value()); auto v = g_pm->acquireServerPortData(rpc(i), ServerOptions(), app(i), g_user.mm, {}); CHECK(!v.has_error(), "server port available"); vu[i].mk(*v.value());
    auto d = g_pm->acquireConditionVariableData(app(i)); CHECK(!d.has_error(), "condition variable available"); cv[i] = d.value(); su[i].p->setConditionVariable(*cv[i], 0); vu[i].p->setConditionVariable(*cv[i], 1); CHECK(g_pm->acquireInterfacePortData(capro::Interfaces::INTERNAL, app(i)) != nullptr, "interface port available"); }
static void publish(int i) { auto c = pu[i].p->tryAllocateChunk(8, 8, 0, 1); if (c.has_error()) { CHECK(loaned[i] != nullptr, "a chunk can be loaned"); return; } uint32_t t = tag++; *(uint32_t*)c.value()->userPayload() = t; pu[i].p->sendChunk(c.value()); if (i == 0 && connA) want2[nwant2++] = t; }
static void take(int i) { auto c = su[i].p->tryGetChunk(); if (c.has_error()) return; if (i == 1) { CHECK(nwant2 > 0 && *(const uint32_t*)c.value()->userPayload() == want2[0], "data of the ended application stays intact and ordered"); for (int k = 1; k < nwant2; k++) want2[k - 1] = want2[k]; nwant2--; symx_reach("intact"); } kept[i][nkept[i]++] = c.value(); symx_reach("kept"); if (nkept[i] == 3) { su[i].p->releaseChunk(kept[i][0]); kept[i][0] = kept[i][1]; kept[i][1] = kept[i][2]; nkept[i] = 2; } }
static void request(int i) { auto r = cu[i].p->allocateRequest(8, 8); CHECK(!r.has_error(), "a request can be loaned"); *(uint32_t*)r.value()->getUserPayload() = tag++; (void)cu[i].p->sendRequest(r.value()); }
static void serve(int i) { if (!rkept[i]) { auto r = vu[i].p->getRequest(); if (!r.has_error()) { rkept[i] = r.value(); symx_reach("kept"); } return; } auto a = vu[i].p->allocateResponse(rkept[i], 8, 8); CHECK(!a.has_error(), "a response can be loaned"); auto e = vu[i].p->sendResponse(a.value()); if (!e.has_error()) symx_reach("served"); vu[i].p->releaseRequest(rkept[i]); rkept[i] = nullptr; }
static int nInternalPubs; template <typename L> static int count(L& l) { int n = 0; for (auto& x : l) { (void)x; n++; } return n; }
static void counts(int apps, const char* m) { CHECK(count(g_mem->pool->getPublisherPortDataList()) == nInternalPubs + apps && count(g_mem->pool->getSubscriberPortDataList()) == apps && count(g_mem->pool->getClientPortDataList()) == apps && count(g_mem->pool->getServerPortDataList()) == apps && count(g_mem->pool->getConditionVariableDataList()) == apps && count(g_mem->pool->getInterfacePortDataList()) == apps, m); }
void symx_main() {
    roudiInit(24); nInternalPubs = count(g_mem->pool->getPublisherPortDataList()); makeApp(0); makeApp(1); g_pm->doDiscovery(); counts(2, "every port exists"); CHECK(pu[0].p->hasSubscribers() && pu[1].p->hasSubscribers() && vu[0].p->hasClients() && vu[1].p->hasClients(), "everything is connected");
    static const uint8_t ops[] = {
#ifdef PS
        0, 1, 2, 3, 4, 5, 6,
#endif
#ifdef RPCS
        7, 8, 9, 10, 11, 12,
#endif
        13 };
    for (int k = 0; k < NOPS; k++) {
        symx_join(1);
        switch (ops[symx_concrete(symx_range("op", 0, sizeof ops - 1))]) {
        case 0: publish(0); break; case 1: if (!loaned[0]) { auto c = pu[0].p->tryAllocateChunk(8, 8, 0, 1); CHECK(!c.has_error(), "loan"); loaned[0] = c.value(); symx_reach("loaned"); } break;
        case 2: publish(1); break; case 3: take(0); break; case 4: take(1); break; case 5: su[0].p->unsubscribe(); break; case 6: pu[1].p->stopOffer(); break;
        case 7: request(0); break; case 8: serve(1); break; case 9: request(1); break; case 10: serve(0); break; case 11: if (!rloan[0]) { auto r = cu[0].p->allocateRequest(8, 8); CHECK(!r.has_error(), "loan"); rloan[0] = r.value(); } break; case 12: cu[1].p->disconnect(); break;
        default: g_pm->doDiscovery();
        }
    }
    symx_join(2);
    switch (symx_concrete(symx_range("end", 0, 2))) {
    case 0: g_pm->deletePortsOfProcess(app(0)); symx_reach("crash"); break;
    case 1: pu[0].p->destroy(); su[0].p->destroy(); cu[0].p->destroy(); vu[0].p->destroy(); cv[0]->m_toBeDestroyed = true; for (auto& x : g_mem->pool->getInterfacePortDataList()) if (x.m_runtimeName == app(0)) x.m_toBeDestroyed = true; g_pm->doDiscovery(); symx_reach("orderly"); break;
    default: g_pm->unblockProcessShutdown(app(0)); CHECK(!pu[0].p->hasSubscribers() && !vu[0].p->hasClients(), "an application that shuts down is disconnected"); g_pm->deletePortsOfProcess(app(0)); symx_reach("shutdown");
    }
    connA = false; counts(1, "exactly the ports of the ended application are removed"); CHECK(!pu[1].p->hasSubscribers() && !vu[1].p->hasClients() && cu[1].p->getConnectionState() != ConnectionState::CONNECTED, "nobody stays connected to the ended application");
    g_pm->doDiscovery(); publish(1); { auto r = cu[1].p->allocateRequest(8, 8); CHECK(!r.has_error() && cu[1].p->sendRequest(r.value()).has_error(), "requests to the ended server are refused"); } serve(1); serve(1);
    for (int k = 0; k < 14; k++) take(1); CHECK(nwant2 == 0, "everything published before the end is received");
    while (nkept[1]) su[1].p->releaseChunk(kept[1][--nkept[1]]); if (rkept[1]) { vu[1].p->releaseRequest(rkept[1]); rkept[1] = nullptr; } vu[1].p->releaseQueuedRequests(); cu[1].p->releaseQueuedResponses();
    CHECK(g_user.used(0) <= 3, "every chunk of the ended application is returned"); // history/last chunk of publisher, client and server of application 2
    bool pub = false, srv = false; g_pm->serviceRegistry().forEach([&](const ServiceRegistry::ServiceDescriptionEntry& e) { pub |= e.serviceDescription == topic(0); srv |= e.serviceDescription == rpc(0); }); CHECK(!pub && !srv, "services of the ended application are no longer offered");
    makeApp(0); g_pm->doDiscovery(); counts(2, "the application can be started again"); CHECK(pu[0].p->hasSubscribers() && vu[1].p->hasClients(), "the restarted application is connected"); connA = true; publish(0); take(1); CHECK(nwant2 == 0, "the restarted application communicates");
    g_pm->deletePortsOfProcess(app(1)); g_pm->deletePortsOfProcess(app(0)); counts(0, "nothing is left"); CHECK(g_user.used(0) == 0, "no chunk is left");
}
