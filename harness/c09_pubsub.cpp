//@prop: C09
//@tus: %base %mepoo %popo %capro %ports %roudi
//@bound: real PortManager, PortPool, publisher/subscriber ports, ServiceRegistry and introspection; NP publishers and NS subscribers with symbolic QoS (blocking policies, history capacity/request/requirement, offer/subscribe on create, one of two services), NOPS symbolic operations (offer, stop offer, subscribe, unsubscribe, publish, discovery run) followed by a discovery run, one more publication and draining; queues large enough not to overflow (overflow is C06)
//@stub: thread start of the introspection's periodic task does nothing; semaphores, red-black-tree primitives of libstdc++ modelled in rt/stubs.cpp
//@job: name=qos defs="-DNP=1 -DNS=1 -DNOPS=3 -DQOS -DPRE" reach=connected,incompat,history
//@job: name=p1s2 defs="-DNP=1 -DNS=2 -DNOPS=8" reach=connected,history
//@job: name=p2s1 defs="-DNP=2 -DNS=1 -DNOPS=7" reach=connected,history
//@job: name=p2s2 defs="-DNP=2 -DNS=2 -DNOPS=6" reach=connected,history
//@job: name=o2m defs="-DNP=1 -DNS=2 -DNOPS=7 -DO2M" cfg="IOX_COMMUNICATION_POLICY=OneToManyPolicy" reach=connected,history,wait
//@job: name=limit defs="-DNP=1 -DNS=2 -DNOPS=7 -DLIMIT=1" cfg="IOX_MAX_SUBSCRIBERS_PER_PUBLISHER=1" reach=connected,history,refused
//@job: name=limito2m defs="-DNP=1 -DNS=2 -DNOPS=7 -DLIMIT=1 -DO2M" cfg="IOX_MAX_SUBSCRIBERS_PER_PUBLISHER=1 IOX_COMMUNICATION_POLICY=OneToManyPolicy" reach=connected,history,refused,wait
//@cfg: %small
#include "roudi_env.hpp"
#ifndef LIMIT
#define LIMIT 2
#endif
enum { MAXT = 24 };
struct Pub { PublisherPortUser* u; uint8_t svc; bool wait, req, offered; uint64_t hcap; uint32_t hist[2]; uint32_t nh; };
struct Sub { SubscriberPortUser* u; uint8_t svc; bool block, requires_, req, state; uint64_t hreq; uint32_t q[NP][MAXT]; uint32_t n[NP]; };
static Pub P[NP]; static Sub S[NS]; static bool conn[NP][NS]; static uint32_t nextTag = 1; alignas(16) static uint8_t pb[NP][sizeof(PublisherPortUser)], sb[NS][sizeof(SubscriberPortUser)];
static capro::ServiceDescription svc(uint8_t i) { return i ? capro::ServiceDescription{"b", "i", "e"} : capro::ServiceDescription{"a", "i", "e"}; }
static bool compat(int p, int s) { return P[p].svc == S[s].svc && !(!P[p].wait && S[s].block) && (!S[s].requires_ || P[p].hcap > 0); }
static void connectRef(int p, int s) { if (conn[p][s]) return; int n = 0; for (int x = 0; x < NS; x++) n += conn[p][x]; if (n == LIMIT) { symx_reach("refused"); return; } conn[p][s] = true; uint32_t from = S[s].hreq <= P[p].nh ? P[p].nh - (uint32_t)S[s].hreq : 0; for (uint32_t k = from; k < P[p].nh; k++) { S[s].q[p][S[s].n[p]++] = P[p].hist[k]; symx_reach("history"); } }
static void offerStep(int p) { if (P[p].req && !P[p].offered) { P[p].offered = true; for (int s = 0; s < NS; s++) if (S[s].u && S[s].state && compat(p, s)) connectRef(p, s); } else if (!P[p].req && P[p].offered) { P[p].offered = false; for (int s = 0; s < NS; s++) conn[p][s] = false; } }
static void subStep(int s) { if (S[s].req && !S[s].state) { S[s].state = true; for (int p = 0; p < NP; p++) if (P[p].u && P[p].offered && compat(p, s)) connectRef(p, s); } else if (!S[s].req && S[s].state) { S[s].state = false; for (int p = 0; p < NP; p++) conn[p][s] = false; } }
static void discover() { for (int p = 0; p < NP; p++) if (P[p].u) offerStep(p); for (int s = 0; s < NS; s++) if (S[s].u) subStep(s); g_pm->doDiscovery();
    for (int p = 0; p < NP; p++) { bool any = false; for (int s = 0; s < NS; s++) any |= conn[p][s]; CHECK(P[p].u->hasSubscribers() == any, "a publisher has subscribers exactly when a compatible, subscribed subscriber exists"); if (any) symx_reach("connected"); CHECK(P[p].u->isOffered() == P[p].req, "the offer state is what was requested"); }
    for (int s = 0; s < NS; s++) { auto st = S[s].u->getSubscriptionState();
#ifdef O2M
        bool any = false; for (int p = 0; p < NP; p++) any |= conn[p][s]; CHECK(st == (!S[s].req ? SubscribeState::NOT_SUBSCRIBED : any ? SubscribeState::SUBSCRIBED : SubscribeState::WAIT_FOR_OFFER), "a subscriber knows whether it is connected"); if (st == SubscribeState::WAIT_FOR_OFFER) symx_reach("wait");
#else
        CHECK(st == (S[s].req ? SubscribeState::SUBSCRIBED : SubscribeState::NOT_SUBSCRIBED), "the subscription state is what was requested");
#endif
    } }
static void publish(int p) { auto c = P[p].u->tryAllocateChunk(8, 8, 0, 1); CHECK(!c.has_error(), "a chunk can be loaned: nothing leaked"); uint32_t t = nextTag++; *(uint32_t*)c.value()->userPayload() = t * 8 + (uint32_t)p; P[p].u->sendChunk(c.value());
    if (P[p].req) for (int s = 0; s < NS; s++) if (conn[p][s]) S[s].q[p][S[s].n[p]++] = t; if (P[p].hcap) { if (P[p].nh == P[p].hcap) { for (uint32_t k = 1; k < P[p].nh; k++) P[p].hist[k - 1] = P[p].hist[k]; P[p].nh--; } P[p].hist[P[p].nh++] = t; } }
void symx_main() {
    roudiInit(24); RuntimeName_t pn("pub"), sn("sub");
    for (int p = 0; p < NP; p++) { PublisherOptions o; 
#ifdef QOS
        P[p].wait = symx_bool("wait"); P[p].hcap = symx_concrete(symx_range("hcap", 0, 2)); P[p].req = symx_bool("offerOnCreate"); P[p].svc = 0;
#else
        P[p].wait = true; P[p].hcap = (uint64_t)(2 - p); P[p].req = !p; P[p].svc = 0;
#endif
         o.subscriberTooSlowPolicy = P[p].wait ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA; o.historyCapacity = P[p].hcap; o.offerOnCreate = P[p].req;
        auto d = g_pm->acquirePublisherPortData(svc(P[p].svc), o, pn, g_user.mm, {}); CHECK(!d.has_error(), "publisher port available"); P[p].u = new (pb[p]) PublisherPortUser(d.value()); offerStep(p); }
#ifdef O2M
    { auto d = g_pm->acquirePublisherPortData(svc(0), PublisherOptions(), sn, g_user.mm, {}); CHECK(d.has_error() && d.error() == PortPoolError::UNIQUE_PUBLISHER_PORT_ALREADY_EXISTS, "one-to-many: a second publisher of the same service is refused"); }
#endif
#ifdef PRE
    publish(0); publish(0);
#endif
    for (int s = 0; s < NS; s++) { SubscriberOptions o; 
#ifdef QOS
        S[s].block = symx_bool("block"); S[s].hreq = symx_concrete(symx_range("hreq", 0, 2)); S[s].requires_ = symx_bool("needhist"); S[s].req = symx_bool("subOnCreate"); S[s].svc = (uint8_t)symx_bool("othersvc");
#else
        S[s].block = false; S[s].hreq = (uint64_t)(2 - s); S[s].requires_ = s != 0; S[s].req = s != 0; S[s].svc = 0;
#endif
         o.queueFullPolicy = S[s].block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA; o.historyRequest = S[s].hreq; o.requiresPublisherHistorySupport = S[s].requires_; o.subscribeOnCreate = S[s].req; o.queueCapacity = 12;
        auto d = g_pm->acquireSubscriberPortData(svc(S[s].svc), o, sn, {}); CHECK(!d.has_error(), "subscriber port available"); S[s].u = new (sb[s]) SubscriberPortUser(d.value()); subStep(s); for (int p = 0; p < NP; p++) if (P[p].svc == S[s].svc && !compat(p, s)) symx_reach("incompat"); }
    for (int k = 0; k < NOPS; k++) {
        symx_join(1);
        switch (symx_concrete(symx_range("op", 0, 5))) {
        case 0: { int p = (int)symx_concrete(symx_range("p", 0, NP - 1)); P[p].u->offer(); P[p].req = true; break; }
        case 1: { int p = (int)symx_concrete(symx_range("p", 0, NP - 1)); P[p].u->stopOffer(); P[p].req = false; break; }
        case 2: { int s = (int)symx_concrete(symx_range("s", 0, NS - 1)); S[s].u->subscribe(); if (!S[s].req) { S[s].req = true; for (int p = 0; p < NP; p++) S[s].n[p] = 0; } break; }
        case 3: { int s = (int)symx_concrete(symx_range("s", 0, NS - 1)); S[s].u->unsubscribe(); S[s].req = false; break; }
        case 4: discover(); break;
        default: publish((int)symx_concrete(symx_range("p", 0, NP - 1)));
        }
    }
    symx_join(2); discover(); for (int p = 0; p < NP; p++) publish(p);
    for (int s = 0; s < NS; s++) { uint32_t i[NP] = {}; for (;;) { auto c = S[s].u->tryGetChunk(); if (c.has_error()) { CHECK(c.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE, "queue empty"); break; } uint32_t v = *(const uint32_t*)c.value()->userPayload(); int p = (int)(v & 7); CHECK(p < NP && i[p] < S[s].n[p] && S[s].q[p][i[p]] == v >> 3, "a subscriber receives exactly the publications of its connected publishers, in order"); i[p]++; S[s].u->releaseChunk(c.value()); } for (int p = 0; p < NP; p++) CHECK(i[p] == S[s].n[p], "nothing that was published to a connected subscriber is missing"); }
}
