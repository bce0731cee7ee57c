//@prop: C10
//@tus: %base %mepoo %popo %capro %ports %roudi
//@cfg: %small
//@bound: real PortManager, PortPool, client/server ports; one server and NC clients with symbolic QoS (job qos), NOPS symbolic operations (offer, stop offer, connect, disconnect, send request, take request, send response, discovery run) followed by a discovery run, one request per client and draining; queues large enough not to overflow
//@stub: thread start of the introspection's periodic task does nothing; semaphores, red-black-tree primitives of libstdc++ modelled in rt/stubs.cpp
//@job: name=qos defs="-DNC=1 -DNOPS=3 -DQOS" reach=connected,incompat,answered
//@job: name=c1 defs="-DNC=1 -DNOPS=8" reach=connected,answered,gone,wait
//@job: name=c2 defs="-DNC=2 -DNOPS=6" reach=connected,answered,gone,wait
//@job: name=rpc defs="-DNC=2 -DNOPS=6 -DRPC" reach=connected,answered,gone
//@job: name=limit defs="-DNC=2 -DNOPS=6 -DLIMIT=1" cfg="IOX_MAX_CLIENTS_PER_SERVER=1" reach=connected,answered,refused
#include "roudi_env.hpp"
#include "iceoryx_posh/popo/rpc_header.hpp"
#ifndef LIMIT
#define LIMIT 2
#endif
enum { MAXT = 20 }; struct Msg { uint32_t v; int64_t seq; int c; };
struct Srv { ServerPortUser* u; bool req, offered, block, wait; Msg q[MAXT]; uint32_t n; const RequestHeader* held; Msg hm; };
struct Cli { ClientPortUser* u; bool req, block, wait; int st; bool other; Msg q[MAXT]; uint32_t n; };
static Srv V; static Cli C[NC]; static uint32_t nextTag = 1; alignas(16) static uint8_t vb[sizeof(ServerPortUser)], cb[NC][sizeof(ClientPortUser)];
static bool compat(int c) { return !C[c].other && !(!C[c].wait && V.block) && !(!V.wait && C[c].block); }
static bool connectRef(int c) { int n = 0; for (int x = 0; x < NC; x++) n += C[x].st == 2; if (n == LIMIT) { symx_reach("refused"); return false; } C[c].st = 2; return true; }
static void srvStep() { if (V.req && !V.offered) { V.offered = true; for (int c = 0; c < NC; c++) if (C[c].u && C[c].st == 1 && compat(c)) connectRef(c); } else if (!V.req && V.offered) { V.offered = false; for (int c = 0; c < NC; c++) if (C[c].st == 2) C[c].st = 1; } }
static void cliStep(int c) { if (C[c].st == 0 && C[c].req) { C[c].st = 1; if (V.offered && compat(c)) connectRef(c); } else if (C[c].st && !C[c].req) C[c].st = 0; }
static void discover() { srvStep(); for (int c = 0; c < NC; c++) cliStep(c); g_pm->doDiscovery(); bool any = false;
    for (int c = 0; c < NC; c++) { any |= C[c].st == 2; auto s = C[c].u->getConnectionState(); CHECK(s == (C[c].st == 0 ? ConnectionState::NOT_CONNECTED : C[c].st == 1 ? ConnectionState::WAIT_FOR_OFFER : ConnectionState::CONNECTED), "a client is connected exactly when it wants to and a compatible server offers"); if (C[c].st == 1) symx_reach("wait"); }
    CHECK(V.u->hasClients() == any && V.u->isOffered() == V.req, "a server has clients exactly when one is connected"); if (any) symx_reach("connected"); }
static void request(int c) { auto r = C[c].u->allocateRequest(8, 8); CHECK(!r.has_error(), "a request can be loaned: nothing leaked"); uint32_t t = nextTag++; int64_t seq = (int64_t)t * 3; *(uint32_t*)r.value()->getUserPayload() = t; r.value()->setSequenceId(seq); auto s = C[c].u->sendRequest(r.value());
    if (!C[c].req) CHECK(s.has_error() && s.error() == ClientSendError::NO_CONNECT_REQUESTED, "request refused without connect"); else if (C[c].st != 2) CHECK(s.has_error() && s.error() == ClientSendError::SERVER_NOT_AVAILABLE, "request refused without server"); else { CHECK(!s.has_error(), "request accepted"); V.q[V.n++] = {t, seq, c}; } }
static void take() { if (V.held) return; auto r = V.u->getRequest(); CHECK(r.has_error() == (V.n == 0), "the server receives a request exactly when one is pending"); if (r.has_error()) { CHECK(r.error() == (V.req ? ServerRequestResult::NO_PENDING_REQUESTS : ServerRequestResult::NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER), "reason reported"); return; }
    V.hm = V.q[0]; for (uint32_t k = 1; k < V.n; k++) V.q[k - 1] = V.q[k]; V.n--; V.held = r.value(); CHECK(*(const uint32_t*)V.held->getUserPayload() == V.hm.v && V.held->getSequenceId() == V.hm.seq, "requests arrive in order and unchanged"); }
static void respond() { if (!V.held) return; auto r = V.u->allocateResponse(V.held, 8, 8); CHECK(!r.has_error(), "a response can be loaned: nothing leaked"); *(uint32_t*)r.value()->getUserPayload() = V.hm.v + 1000; auto s = V.u->sendResponse(r.value()); V.u->releaseRequest(V.held); V.held = nullptr;
    if (!V.req) CHECK(s.has_error() && s.error() == ServerSendError::NOT_OFFERED, "no response without offer"); else if (C[V.hm.c].st != 2) { CHECK(s.has_error() && s.error() == ServerSendError::CLIENT_NOT_AVAILABLE, "the response is refused when its client is gone"); symx_reach("gone"); } else { CHECK(!s.has_error(), "response sent"); Cli& c = C[V.hm.c]; c.q[c.n++] = V.hm; symx_reach("answered"); } }
static void collect(int c) { auto r = C[c].u->getResponse(); CHECK(r.has_error() == (C[c].n == 0), "a response is received exactly when one was sent to this client"); if (r.has_error()) return; Msg m = C[c].q[0]; for (uint32_t k = 1; k < C[c].n; k++) C[c].q[k - 1] = C[c].q[k]; C[c].n--; CHECK(*(const uint32_t*)r.value()->getUserPayload() == m.v + 1000 && r.value()->getSequenceId() == m.seq, "the response belongs to this client's request"); C[c].u->releaseResponse(r.value()); }
void symx_main() {
    roudiInit(24); RuntimeName_t sn("srv"), cn("cli"); capro::ServiceDescription svc{"a", "i", "e"};
    { ServerOptions o;
#ifdef QOS
        V.req = symx_bool("offerOnCreate"); V.block = symx_bool("sblock"); V.wait = symx_bool("swait");
#elif defined(RPC)
        V.req = true;
#endif
        o.offerOnCreate = V.req; o.requestQueueFullPolicy = V.block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA; o.clientTooSlowPolicy = V.wait ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA; auto d = g_pm->acquireServerPortData(svc, o, sn, g_user.mm, {}); CHECK(!d.has_error(), "server port available"); V.u = new (vb) ServerPortUser(*d.value()); srvStep(); }
    { auto d = g_pm->acquireServerPortData(svc, ServerOptions(), cn, g_user.mm, {}); CHECK(d.has_error() && d.error() == PortPoolError::UNIQUE_SERVER_PORT_ALREADY_EXISTS, "a second server of the same service is refused"); }
    for (int c = 0; c < NC; c++) { ClientOptions o;
#ifdef QOS
        C[c].req = symx_bool("connOnCreate"); C[c].block = symx_bool("cblock"); C[c].wait = symx_bool("cwait"); C[c].other = symx_bool("othersvc");
#elif defined(RPC)
        C[c].req = true;
#else
        C[c].req = c != 0;
#endif
        o.connectOnCreate = C[c].req; o.responseQueueFullPolicy = C[c].block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA; o.serverTooSlowPolicy = C[c].wait ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA; auto d = g_pm->acquireClientPortData(C[c].other ? capro::ServiceDescription{"b", "i", "e"} : svc, o, cn, g_user.mm, {}); CHECK(!d.has_error(), "client port available"); C[c].u = new (cb[c]) ClientPortUser(*d.value()); cliStep(c); if (!C[c].other && !compat(c)) symx_reach("incompat"); }
    for (int k = 0; k < NOPS; k++) {
        symx_join(1);
#ifdef RPC
        static const uint8_t ops[] = {1, 3, 4, 5, 6, 7}; uint64_t op = ops[symx_concrete(symx_range("op", 0, 5))];
#else
        uint64_t op = symx_concrete(symx_range("op", 0, 7));
#endif
        int c = 0; if (NC > 1 && (op == 2 || op == 3 || op == 5)) c = (int)symx_concrete(symx_range("c", 0, NC - 1));
        switch (op) {
        case 0: V.u->offer(); V.req = true; break; case 1: V.u->stopOffer(); V.req = false; break;
        case 2: C[c].u->connect(); C[c].req = true; break; case 3: C[c].u->disconnect(); C[c].req = false; break;
        case 4: discover(); break; case 5: request(c); break; case 6: take(); break; default: respond();
        }
    }
    symx_join(2); discover(); for (int c = 0; c < NC; c++) request(c); respond(); while (V.n) { take(); respond(); } take(); for (int c = 0; c < NC; c++) { while (C[c].n) collect(c); collect(c); }
    CHECK(g_user.used(0) <= (uint32_t)NC + 1, "all requests and responses are returned");
}
