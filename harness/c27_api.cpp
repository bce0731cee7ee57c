//@prop: C27
//@tus: %base %mepoo %popo %capro %ports %roudi iceoryx_posh/source/popo/trigger.cpp iceoryx_posh/source/popo/trigger_handle.cpp iceoryx_posh/source/popo/notification_info.cpp
//@cfg: %small IOX_MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY=2
//@bound: one connected publisher/subscriber pair or client/server pair on the real ports and PortManager; two sample, request or response holders on each side; NOPS symbolic operations (loan, publish or send in all forms, drop, move, self-move, take, repeated publish of an empty holder) with symbolic values; loan limit 2, subscriber queue of 2
//@stub: thread start of the introspection's periodic task does nothing; semaphores, red-black-tree primitives of libstdc++ modelled in rt/stubs.cpp; ports are handed to the user classes directly instead of being requested from RouDi over IPC
//@job: name=pubsub defs="-DPS -DNOPS=6" reach=loaned,limit,published,empty,taken,lost
//@job: name=pub defs="-DPS -DPUBONLY -DNOPS=5" reach=loaned,limit,published,empty,moved
//@job: name=untyped defs="-DUNTYPED -DNOPS=6" reach=loaned,limit,published,taken,refused
//@job: name=rpc defs="-DRPC -DNOPS=9" reach=loaned,sent,served,answered,empty
//@job: name=pubsub8 defs="-DPS -DNOPS=8" reach=loaned,limit,published,empty,taken,lost tier=thorough
//@job: name=rpc11 defs="-DRPC -DNOPS=11" reach=loaned,sent,served,answered,empty tier=thorough
#include "iceoryx_posh/internal/popo/publisher_impl.hpp"
#include "iceoryx_posh/internal/popo/subscriber_impl.hpp"
#include "iceoryx_posh/internal/popo/untyped_publisher_impl.hpp"
#include "iceoryx_posh/internal/popo/untyped_subscriber_impl.hpp"
#include "iceoryx_posh/internal/popo/client_impl.hpp"
#include "iceoryx_posh/internal/popo/server_impl.hpp"
#include "roudi_env.hpp"
#include <cstring>
struct alignas(32) T { uint32_t v{7}; uint32_t w{9}; T() = default; explicit T(uint32_t x) : v(x), w(~x) {} };
struct Hd { uint64_t h; };
static void discover() { g_pm->doDiscovery(); }
static capro::ServiceDescription svc{"a", "i", "e"}; static RuntimeName_t app("app");
template <typename X> struct Buf { alignas(64) uint8_t b[sizeof(X)]; };
enum { QC = 2 };
static uint32_t qv[16], qn; static uint64_t qh[16]; static bool lost; // what the subscriber must receive
static void sentRef(uint32_t v, uint64_t h) { if (qn == QC) { for (uint32_t k = 1; k < qn; k++) { qv[k - 1] = qv[k]; qh[k - 1] = qh[k]; } qn--; lost = true; } qv[qn] = v; qh[qn++] = h; symx_reach("published"); }
static void takeRef(uint32_t& v, uint64_t& h) { v = qv[0]; h = qh[0]; for (uint32_t k = 1; k < qn; k++) { qv[k - 1] = qv[k]; qh[k - 1] = qh[k]; } qn--; }
template <typename PP, typename SP> static void connect(Buf<PP>& pb, Buf<SP>& sb, PP*& p, SP*& s) {
    PublisherOptions po; po.historyCapacity = 0; auto d = g_pm->acquirePublisherPortData(svc, po, app, g_user.mm, {}); CHECK(!d.has_error(), "publisher port"); p = new (pb.b) PP(PublisherPortUser(d.value()));
    SubscriberOptions so; so.queueCapacity = QC; auto e = g_pm->acquireSubscriberPortData(svc, so, app, {}); CHECK(!e.has_error(), "subscriber port"); s = new (sb.b) SP(SubscriberPortUser(e.value())); discover(); }
#ifdef PS
struct Pub : PublisherImpl<T, Hd> { Pub(PublisherPortUser&& p) : PublisherImpl(std::move(p)) {} };
struct Sub : SubscriberImpl<T, Hd> { Sub(SubscriberPortUser&& p) : SubscriberImpl(std::move(p)) {} };
static Buf<Pub> pb; static Buf<Sub> sb; static Pub* P; static Sub* S; using PSm = Sample<T, Hd>; using SSm = Sample<const T, const Hd>;
static optional<PSm> ps[2]; static optional<SSm> ss[2];
static int pst[2], sst[2]; static uint32_t pv[2], ph[2], sv[2]; static uint64_t sh[2]; // 0 none 1 full 2 emptied sample
static void checkAll() {
    for (int i = 0; i < 2; i++) { CHECK(ps[i].has_value() == (pst[i] != 0), "holder"); if (pst[i]) CHECK(static_cast<bool>(*ps[i]) == (pst[i] == 1), "a sample is empty exactly after it was published or moved away"); if (pst[i] == 1) CHECK((*ps[i])->v == pv[i] && (**ps[i]).w == ~pv[i] && ps[i]->getUserHeader().h == ph[i] && ps[i]->get()->v == pv[i] && ((uintptr_t)ps[i]->get() & 31) == 0, "a loaned sample keeps its content"); }
    for (int i = 0; i < 2; i++) { if (sst[i]) CHECK(static_cast<bool>(*ss[i]) == (sst[i] == 1), "a taken sample is empty exactly after it was moved away"); if (sst[i] == 1) CHECK((*ss[i])->v == sv[i] && (**ss[i]).w == ~sv[i] && ss[i]->getUserHeader().h == sh[i], "a taken sample keeps its content"); }
    CHECK(S->hasData() == (qn > 0), "data is reported exactly when a sample is waiting"); }
static int held() { return (sst[0] == 1) + (sst[1] == 1); }
void symx_main() {
    roudiInit(10); connect(pb, sb, P, S); CHECK(P->isOffered() && P->hasSubscribers() && S->getSubscriptionState() == SubscribeState::SUBSCRIBED, "connected");
    for (int k = 0; k < NOPS; k++) { symx_join(1);
#ifdef PUBONLY
        uint64_t op = symx_concrete(symx_range("op", 0, 6));
#else
        static const uint8_t ops[] = {0, 1, 5, 7, 8, 9}; uint64_t op = ops[symx_concrete(symx_range("op", 0, 5))];
#endif
        int i = 0; if (op != 5 && op != 6) i = (int)symx_concrete(symx_range("i", 0, 1));
        switch (op) {
        case 0: { uint32_t v = symx_u32("v"), h = symx_u32("h"); auto r = P->loan(v); bool full = (pst[0] == 1) + (pst[1] == 1) == 2; CHECK(r.has_error() == full, "a loan fails exactly when the allowed number of samples is loaned"); if (full) { CHECK(r.error() == AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL, "reason"); symx_reach("limit"); break; }
            r.value().getUserHeader().h = h; ps[i] = std::move(r.value()); pst[i] = 1; pv[i] = v; ph[i] = h; symx_reach("loaned"); break; }
        case 1: if (!pst[i]) break; if (pst[i] == 1) { sentRef(pv[i], ph[i]); } else symx_reach("empty"); ps[i]->publish(); pst[i] = 2; break;
        case 2: ps[i].reset(); pst[i] = 0; break;
        case 3: if (pst[i] == 0 || pst[1 - i] == 0) break; *ps[1 - i] = std::move(*ps[i]); pst[1 - i] = pst[i]; pv[1 - i] = pv[i]; ph[1 - i] = ph[i]; pst[i] = 2; symx_reach("moved"); break;
        case 4: if (!pst[i]) break; { PSm& a = *ps[i]; PSm& b = *ps[i]; a = std::move(b); } break;
        case 5: { uint32_t v = symx_u32("v"); auto r = P->publishCopyOf(T(v)); bool full = (pst[0] == 1) + (pst[1] == 1) == 2; CHECK(r.has_error() == full, "publishing a copy needs a free loan"); if (!full) sentRef(v, ~0ull); break; }
        case 6: { uint32_t v = symx_u32("v"); auto r = P->publishResultOf([](T* t, uint32_t x) { CHECK(t->v == 7 && t->w == 9, "a published result starts as a default constructed object"); t->v = x; t->w = ~x; }, v); bool full = (pst[0] == 1) + (pst[1] == 1) == 2; CHECK(r.has_error() == full, "publishing a result needs a free loan"); if (!full) sentRef(v, ~0ull); break; }
        case 7: { bool m = S->hasMissedData(); CHECK(m == lost, "missed data is reported exactly when a sample was discarded"); if (m) symx_reach("lost"); lost = false; auto r = S->take();
            bool none = qn == 0, toomany = !none && held() == 2; CHECK(r.has_error() == (none || (held() > 2)) || toomany, "a sample is received exactly when one is waiting");
            if (r.has_error()) { if (toomany) { uint32_t a; uint64_t b; takeRef(a, b); CHECK(r.error() == ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL, "reason"); } else CHECK(r.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE, "reason"); break; }
            uint32_t v; uint64_t h; takeRef(v, h); CHECK(r.value()->v == v, "samples arrive unchanged and in order"); if (h != ~0ull) CHECK(r.value().getUserHeader().h == h, "the user header arrives unchanged"); sv[i] = v; sh[i] = r.value().getUserHeader().h; ss[i] = std::move(r.value()); sst[i] = 1; symx_reach("taken"); break; }
        case 8: ss[i].reset(); sst[i] = 0; break;
        default: if (sst[i] != 1) break; if (!sst[1 - i]) { ss[1 - i] = std::move(ss[i]); sst[i] = 0; } else { *ss[1 - i] = std::move(*ss[i]); sst[i] = 2; } sst[1 - i] = 1; sv[1 - i] = sv[i]; sh[1 - i] = sh[i];
        }
        checkAll(); }
    symx_join(2); for (int i = 0; i < 2; i++) { ps[i].reset(); ss[i].reset(); } S->releaseQueuedData(); CHECK(!S->hasData(), "released"); CHECK(g_user.used(0) <= 1, "a dropped sample is returned to its pool");
    { auto a = P->loan(1u), b = P->loan(2u); CHECK(!a.has_error() && !b.has_error(), "all loans are available again"); a.value().publish(); }
    { auto r = S->take(); CHECK(!r.has_error() && r.value()->v == 1, "the connection still works"); }
    S->~Sub(); P->~Pub(); discover(); CHECK(g_user.used(0) == 0, "nothing is left when publisher and subscriber are gone");
}
#endif
#ifdef UNTYPED
struct Pub : UntypedPublisherImpl<> { Pub(PublisherPortUser&& p) : UntypedPublisherImpl(std::move(p)) {} };
struct Sub : UntypedSubscriberImpl<> { Sub(SubscriberPortUser&& p) : UntypedSubscriberImpl(std::move(p)) {} };
static Buf<Pub> pb; static Buf<Sub> sb; static Pub* P; static Sub* S; static void* ps[2]; static const void* ss[2]; static uint32_t pv[2], sv[2];
void symx_main() {
    roudiInit(10); connect(pb, sb, P, S);
    for (int k = 0; k < NOPS; k++) { symx_join(1); uint64_t op = symx_concrete(symx_range("op", 0, 4)); int i = (int)symx_concrete(symx_range("i", 0, 1));
        switch (op) {
        case 0: { if (ps[i]) { auto r = P->loan(4); bool full = ps[0] && ps[1]; CHECK(r.has_error() == full, "a loan fails exactly at the limit"); if (full) symx_reach("limit"); else P->release(r.value()); break; }
            if (k == 0) { uint64_t size = symx_u64("size"); static const uint32_t als[] = {0, 3, 8, 32}; uint32_t al = als[symx_concrete(symx_range("align", 0, 3))]; bool hdr = symx_concrete(symx_bool("hdr")); auto r = hdr ? P->loan(size, al, 8, 8) : P->loan(size, al); if (r.has_error()) { CHECK((al & (al - 1)) || size + al > 48 || size > 48, "a loan that fits is granted"); symx_reach("refused"); break; }
                CHECK(size <= 128 && (!al || (!(al & (al - 1)) && ((uintptr_t)r.value() & (al - 1)) == 0)), "a granted loan is aligned and fits"); if (hdr) { auto* h = (uint64_t*)mepoo::ChunkHeader::fromUserPayload(r.value())->userHeader(); CHECK(h && (uint8_t*)(h + 1) <= (uint8_t*)r.value(), "user header before the payload"); *h = ~0ull; } P->release(r.value()); break; }
            bool big = i == 1; auto r = big ? P->loan(40, 32, 8, 8) : P->loan(4); CHECK(!r.has_error(), "a loan below the limit is granted");
            uint32_t v = symx_u32("v"); memcpy(r.value(), &v, 4); ps[i] = r.value(); pv[i] = v; symx_reach("loaned"); break; }
        case 1: if (!ps[i]) break; P->publish(ps[i]); sentRef(pv[i], 0); ps[i] = nullptr; break;
        case 2: if (!ps[i]) break; P->release(ps[i]); ps[i] = nullptr; break;
        case 3: { bool m = S->hasMissedData(); CHECK(m == lost, "missed data"); if (m) symx_reach("lost"); lost = false; if (ss[i]) break; auto r = S->take(); CHECK(r.has_error() == (qn == 0), "a sample is received exactly when one is waiting"); if (r.has_error()) break; uint32_t v; uint64_t h; takeRef(v, h); ss[i] = r.value(); sv[i] = v; symx_reach("taken"); break; }
        default: if (!ss[i]) break; S->release(ss[i]); ss[i] = nullptr; }
        for (int x = 0; x < 2; x++) { uint32_t v; if (ps[x]) { memcpy(&v, ps[x], 4); CHECK(v == pv[x], "loaned memory keeps its content"); } if (ss[x]) { memcpy(&v, ss[x], 4); CHECK(v == sv[x], "taken memory keeps its content"); } }
        CHECK(S->hasData() == (qn > 0), "data is reported exactly when a sample is waiting"); }
    symx_join(2); for (int i = 0; i < 2; i++) { if (ps[i]) P->release(ps[i]); if (ss[i]) S->release(ss[i]); } S->releaseQueuedData(); CHECK(g_user.used(0) <= 1, "released memory is returned to its pool"); S->~Sub(); P->~Pub(); discover(); CHECK(g_user.used(0) == 0, "nothing is left when publisher and subscriber are gone");
}
#endif
#ifdef RPC
struct Cl : ClientImpl<T, T> { Cl(ClientPortUser&& p) : ClientImpl(std::move(p)) {} };
struct Sv : ServerImpl<T, T> { Sv(ServerPortUser&& p) : ServerImpl(std::move(p)) {} };
static Buf<Cl> cb; static Buf<Sv> vb; static Cl* C; static Sv* V; static optional<Request<T>> rq; static optional<Request<const T>> sq; static optional<Response<T>> rs; static optional<Response<const T>> cr;
static int rqs, rss; static uint32_t rqv, sqv, rsv, crv; static int64_t rqi, sqi; static uint32_t Q[16], A[16]; static int64_t Qi[16], Ai[16]; static uint32_t Qn, An; static int64_t rsi, cri;
void symx_main() {
    roudiInit(12); { ServerOptions o; auto d = g_pm->acquireServerPortData(svc, o, app, g_user.mm, {}); CHECK(!d.has_error(), "server port"); V = new (vb.b) Sv(ServerPortUser(*d.value())); ClientOptions c; auto e = g_pm->acquireClientPortData(svc, c, app, g_user.mm, {}); CHECK(!e.has_error(), "client port"); C = new (cb.b) Cl(ClientPortUser(*e.value())); discover(); CHECK(C->getConnectionState() == ConnectionState::CONNECTED && V->hasClients(), "connected"); }
    int64_t seq = 10;
    for (int k = 0; k < NOPS; k++) { symx_join(1); switch (symx_concrete(symx_range("op", 0, 7))) {
        case 0: { if (rqs == 1) { rq.reset(); rqs = 0; break; } uint32_t v = symx_u32("v"); auto r = C->loan(v); CHECK(!r.has_error(), "a request can be loaned"); CHECK(((uintptr_t)r.value().get() & 31) == 0, "aligned"); r.value().getRequestHeader().setSequenceId(++seq); rq = std::move(r.value()); rqs = 1; rqv = v; rqi = seq; symx_reach("loaned"); break; }
        case 1: { if (!rqs) break; auto r = rq->send(); if (rqs == 1) { CHECK(!r.has_error(), "a request is sent while connected"); Q[Qn] = rqv; Qi[Qn++] = rqi; symx_reach("sent"); } else { CHECK(r.has_error() && r.error() == ClientSendError::INVALID_REQUEST, "an empty request is refused"); symx_reach("empty"); } rqs = 2; CHECK(!static_cast<bool>(*rq), "a request is empty after it was sent"); break; }
        case 2: { if (sq) break; auto r = V->take(); CHECK(r.has_error() == (Qn == 0), "the server gets a request exactly when one is waiting"); if (r.has_error()) { CHECK(r.error() == ServerRequestResult::NO_PENDING_REQUESTS, "reason"); break; } CHECK(r.value()->v == Q[0] && r.value()->w == ~Q[0] && r.value().getRequestHeader().getSequenceId() == Qi[0], "requests arrive unchanged and in order"); sqv = Q[0]; sqi = Qi[0]; for (uint32_t x = 1; x < Qn; x++) { Q[x - 1] = Q[x]; Qi[x - 1] = Qi[x]; } Qn--; sq = std::move(r.value()); symx_reach("served"); break; }
        case 3: sq.reset(); break;
        case 4: { if (!sq || rss == 1) break; uint32_t v = symx_u32("v"); auto r = V->loan(*sq, v); CHECK(!r.has_error(), "a response can be loaned"); CHECK(r.value().getResponseHeader().getSequenceId() == sqi, "the response belongs to the request"); rs = std::move(r.value()); rss = 1; rsv = v; rsi = sqi; break; }
        case 5: { if (!rss) break; auto r = rs->send(); if (rss == 1) { CHECK(!r.has_error(), "a response is sent to a connected client"); A[An] = rsv; Ai[An++] = rsi; } else CHECK(r.has_error() && r.error() == ServerSendError::INVALID_RESPONSE, "an empty response is refused"); rss = 2; CHECK(!static_cast<bool>(*rs), "a response is empty after it was sent"); break; }
        case 6: { auto r = C->take(); CHECK(r.has_error() == (An == 0), "the client gets a response exactly when one is waiting"); if (r.has_error()) break; CHECK(r.value()->v == A[0] && r.value()->w == ~A[0] && r.value().getResponseHeader().getSequenceId() == Ai[0], "responses arrive unchanged, in order and with the id of their request"); crv = A[0]; cri = Ai[0]; for (uint32_t x = 1; x < An; x++) { A[x - 1] = A[x]; Ai[x - 1] = Ai[x]; } An--; cr = std::move(r.value()); symx_reach("answered"); break; }
        default: rs.reset(); rss = 0; cr.reset(); }
        CHECK(C->hasResponses() == (An > 0) && V->hasRequests() == (Qn > 0), "waiting messages are reported"); if (rqs == 1) CHECK((*rq)->v == rqv && (*rq)->w == ~rqv, "a loaned request keeps its content"); if (sq) CHECK((*sq)->v == sqv && (*sq)->w == ~sqv, "a taken request keeps its content"); if (rss == 1) CHECK((*rs)->v == rsv && (*rs)->w == ~rsv, "a loaned response keeps its content"); if (cr) CHECK((*cr)->v == crv && (*cr)->w == ~crv, "a taken response keeps its content"); }
    symx_join(2); rq.reset(); sq.reset(); rs.reset(); cr.reset(); V->releaseQueuedRequests(); C->releaseQueuedResponses(); CHECK(g_user.used(0) <= 2, "dropped requests and responses are returned to their pool");
    V->~Sv(); C->~Cl(); discover(); CHECK(g_user.used(0) == 0, "nothing is left when client and server are gone");
}
#endif
