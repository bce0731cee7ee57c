//@prop: C18
//@tus: %base %mepoo %popo %capro %ports %roudi
//@cfg: %small
//@bound: jobs direct*: ServiceRegistry alone with capacity CAP and NSV services, NOPS symbolic operations (add/remove publisher/server, purge) and a symbolic search pattern; jobs pm*: real PortManager, two publishers and a server on symbolically chosen services, a discovery subscriber, NOPS symbolic operations (offer, stop offer, destroy, discovery run)
//@stub: thread start of the introspection's periodic task does nothing; semaphores, red-black-tree primitives of libstdc++ modelled in rt/stubs.cpp
//@job: name=direct defs="-DDIRECT -DNOPS=5 -DCAP=2 -DNSV=3" cfg="IOX_MAX_PUBLISHERS=1 IOX_MAX_SERVERS=1" reach=full,removed,purged
//@job: name=find defs="-DDIRECT -DNOPS=3 -DCAP=3 -DNSV=4 -DSEARCH" cfg="IOX_MAX_PUBLISHERS=2 IOX_MAX_SERVERS=1" reach=removed,purged,found
//@job: name=direct4 defs="-DDIRECT -DNOPS=4 -DCAP=3 -DNSV=4" cfg="IOX_MAX_PUBLISHERS=2 IOX_MAX_SERVERS=1" reach=full,removed,purged
//@job: name=pm defs="-DNOPS=6" reach=shared,gone,published
//@job: name=pm7 defs="-DNOPS=7" reach=shared,gone,published tier=thorough
#include "roudi_env.hpp"
static const char* const SN[] = {"a", "b"}; static const char* const EN[] = {"e", "f"};
static capro::ServiceDescription svc(uint64_t i) { return {capro::IdString_t(TruncateToCapacity, SN[i & 1]), "i", capro::IdString_t(TruncateToCapacity, EN[(i >> 1) & 1])}; }
struct R { uint64_t p, s; };
#ifdef DIRECT
alignas(16) static uint8_t rb[sizeof(ServiceRegistry)];
void symx_main() {
    ServiceRegistry& r = *new (rb) ServiceRegistry(); R ref[4] = {}; CHECK(ServiceRegistry::CAPACITY == CAP, "harness: capacity"); CHECK(r.hasDataChangedSinceLastCall(), "initially changed");
    for (int k = 0; k < NOPS; k++) {
        symx_join(1); uint64_t op = symx_concrete(symx_range("op", 0, 4)), i = symx_concrete(symx_range("i", 0, NSV - 1)); int n = 0; for (auto& x : ref) n += x.p + x.s != 0; bool known = ref[i].p + ref[i].s != 0; R old = ref[i];
        switch (op) {
        case 0: case 1: { auto e = op ? r.addServer(svc(i)) : r.addPublisher(svc(i)); bool ok = known || n < CAP; CHECK(e.has_error() == !ok, "a service is refused only when the registry is full"); if (ok) (op ? ref[i].s : ref[i].p)++; else symx_reach("full"); break; }
        case 2: r.removePublisher(svc(i)); if (ref[i].p) { ref[i].p--; symx_reach("removed"); } break;
        case 3: r.removeServer(svc(i)); if (ref[i].s) ref[i].s--; break;
        default: r.purge(svc(i)); ref[i] = {}; symx_reach("purged");
        }
        bool ch = r.hasDataChangedSinceLastCall(); if ((old.p != 0) != (ref[i].p != 0) || (old.s != 0) != (ref[i].s != 0)) CHECK(ch, "every change of what is offered is announced"); CHECK(!r.hasDataChangedSinceLastCall(), "a change is announced once");
        uint64_t seen[4] = {}; r.forEach([&](const ServiceRegistry::ServiceDescriptionEntry& e) { int hit = 0; for (uint64_t x = 0; x < 4; x++) if (e.serviceDescription == svc(x)) { hit++; seen[x]++; CHECK(e.publisherCount == ref[x].p && e.serverCount == ref[x].s, "the counts are exact"); } CHECK(hit == 1, "only known services are listed"); });
        for (int x = 0; x < 4; x++) CHECK(seen[x] == (ref[x].p + ref[x].s != 0 ? 1u : 0u), "every offered service is listed exactly once");
    }
#ifdef SEARCH
    symx_join(2); bool ws = symx_bool("ws"), wi = symx_bool("wi"), we = symx_bool("we"); uint64_t a = symx_concrete(symx_range("a", 0, 1)), b = symx_concrete(symx_range("b", 0, 1)); uint64_t seen[4] = {};
    optional<capro::IdString_t> fs, fi, fe; if (!ws) fs = capro::IdString_t(TruncateToCapacity, SN[a]); if (!wi) fi = capro::IdString_t("i"); if (!we) fe = capro::IdString_t(TruncateToCapacity, EN[b]);
    r.find(fs, fi, fe, [&](const ServiceRegistry::ServiceDescriptionEntry& e) { symx_reach("found"); for (uint64_t x = 0; x < 4; x++) if (e.serviceDescription == svc(x)) seen[x]++; });
    for (uint64_t x = 0; x < 4; x++) { bool m = (ws || (x & 1) == a) && (we || (x >> 1) == b) && ref[x].p + ref[x].s != 0; CHECK(seen[x] == (m ? 1u : 0u), "a search returns exactly the matching services"); }
#endif
}
#else
static PublisherPortUser* pu[2]; static ServerPortUser* su; alignas(16) static uint8_t pbuf[2][sizeof(PublisherPortUser)], sbuf[sizeof(ServerPortUser)], qb[sizeof(SubscriberPortUser)];
static uint64_t ps[2], ss; static bool preq[2], poff[2], sreq, soff, pdead[2]; static SubscriberPortUser* q;
static void compare(const ServiceRegistry& r) { R ref[4] = {}; for (int p = 0; p < 2; p++) if (poff[p]) ref[ps[p]].p++; if (soff) ref[ss].s++; uint64_t seen[4] = {};
    r.forEach([&](const ServiceRegistry::ServiceDescriptionEntry& e) { for (uint64_t x = 0; x < 4; x++) if (e.serviceDescription == svc(x)) { seen[x]++; CHECK((e.publisherCount != 0) == (ref[x].p != 0) && (e.serverCount != 0) == (ref[x].s != 0), "a listed service has exactly the kinds of providers that are offered"); } });
    for (int x = 0; x < 4; x++) { CHECK(seen[x] == (ref[x].p + ref[x].s ? 1u : 0u), "the registry lists exactly the offered services"); if (ref[x].p && ref[x].s) symx_reach("shared"); } }
static const mepoo::ChunkHeader* last;
static void discover() { for (int p = 0; p < 2; p++) { if (pdead[p] && pu[p]) { preq[p] = false; pu[p] = nullptr; symx_reach("gone"); } poff[p] = preq[p]; } soff = sreq; g_pm->doDiscovery(); compare(g_pm->serviceRegistry());
    for (;;) { auto c = q->tryGetChunk(); if (c.has_error()) break; if (last) q->releaseChunk(last); last = c.value(); symx_reach("published"); } CHECK(last != nullptr, "a registry was published"); compare(*(const ServiceRegistry*)last->userPayload()); }
void symx_main() {
    roudiInit(4); ps[0] = 0; ps[1] = symx_concrete(symx_range("p1", 0, 1)); ss = symx_concrete(symx_range("srv", 0, 1)); RuntimeName_t n("app"); PublisherOptions po; po.offerOnCreate = false; ServerOptions so; so.offerOnCreate = false;
    for (int p = 0; p < 2; p++) { auto d = g_pm->acquirePublisherPortData(svc(ps[p]), po, n, g_user.mm, {}); CHECK(!d.has_error(), "publisher"); pu[p] = new (pbuf[p]) PublisherPortUser(d.value()); }
    { auto d = g_pm->acquireServerPortData(svc(ss), so, n, g_user.mm, {}); CHECK(!d.has_error(), "server"); su = new (sbuf) ServerPortUser(*d.value()); }
    { SubscriberOptions o; o.historyRequest = 1; o.queueCapacity = 1; o.queueFullPolicy = QueueFullPolicy::DISCARD_OLDEST_DATA; o.requiresPublisherHistorySupport = true; auto d = g_pm->acquireSubscriberPortData({SERVICE_DISCOVERY_SERVICE_NAME, SERVICE_DISCOVERY_INSTANCE_NAME, SERVICE_DISCOVERY_EVENT_NAME}, o, n, {}); CHECK(!d.has_error(), "subscriber"); q = new (qb) SubscriberPortUser(d.value()); }
    for (int k = 0; k < NOPS; k++) {
        symx_join(1); uint64_t op = symx_concrete(symx_range("op", 0, 3)); uint64_t w = op == 3 ? 0 : (op == 2 ? symx_concrete(symx_range("wd", 0, 1)) : symx_concrete(symx_range("w", 0, 2))); if (op != 3 && w < 2 && pdead[w]) continue;
        switch (op) { case 0: if (w == 2) { su->offer(); sreq = true; } else { pu[w]->offer(); preq[w] = true; } break; case 1: if (w == 2) { su->stopOffer(); sreq = false; } else { pu[w]->stopOffer(); preq[w] = false; } break; case 2: pu[w]->destroy(); pdead[w] = true; break; default: discover(); }
    }
    symx_join(2); discover();
}
#endif
