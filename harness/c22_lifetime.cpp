//@prop: C22
//@tus: %base
//@bound: two wrappers of each kind with values of two tracked classes, NOPS symbolic operations (construction, copy, move, self-assignment, swap, emplacement, reset, access) with symbolic values; use of a moved-from function or pointer other than destruction and assignment is outside (documented as not allowed)
//@job: name=optional defs="-DOPT -DNOPS=5" reach=done,empty,set,fatal:novalue
//@job: name=variant defs="-DVAR -DNOPS=5" reach=done,empty,a,b,wrong
//@job: name=expected defs="-DEXPD -DNOPS=5" reach=done,value,error,fatal:access
//@job: name=function defs="-DFUN -DNOPS=4" reach=done,called
//@job: name=uniqueptr defs="-DUPTR -DNOPS=8" reach=done,released
//@job: name=guard defs="-DGUARD -DNOPS=8" reach=done,released
//@job: name=optional6 defs="-DOPT -DNOPS=6" reach=done,empty,set tier=thorough
//@job: name=variant6 defs="-DVAR -DNOPS=6" reach=done,empty,a,b,wrong tier=thorough
//@job: name=function6 defs="-DFUN -DNOPS=6" reach=done,called tier=thorough
#include "symx.h"
#include "iox/optional.hpp"
#include "iox/variant.hpp"
#include "iox/expected.hpp"
#include "iox/function.hpp"
#include "iox/function_ref.hpp"
#include "iox/unique_ptr.hpp"
#include "iox/scope_guard.hpp"
using namespace iox;
static int live;
constexpr uint8_t GONE = 0xee; // value of a moved-from object
template <int K, int SZ> struct Tr { uint32_t magic; uint8_t v; uint8_t pad[SZ]; static constexpr uint32_t ALIVE = 0xa11e0000u + K;
    void ok() const { CHECK(magic == ALIVE, "only living objects of the right class are used"); }
    explicit Tr(uint8_t x) : magic(ALIVE), v(x) { live++; } Tr(const Tr& o) : magic(ALIVE), v(o.v) { o.ok(); live++; } Tr(Tr&& o) noexcept : magic(ALIVE), v(o.v) { o.ok(); o.v = GONE; live++; }
    Tr& operator=(const Tr& o) { ok(); o.ok(); v = o.v; return *this; } Tr& operator=(Tr&& o) noexcept { ok(); o.ok(); if (this != &o) { v = o.v; o.v = GONE; } return *this; }
    ~Tr() { ok(); magic = 0xdead; live--; } bool operator==(const Tr& o) const { ok(); o.ok(); return v == o.v; } bool operator!=(const Tr& o) const { return !(*this == o); } };
using A = Tr<1, 3>; using B = Tr<2, 11>;
static uint8_t val() { uint8_t v = symx_u8("v"); symx_assume(v != GONE); return v; }
static uint64_t pick(const char* n, uint64_t hi) { return symx_concrete(symx_range(n, 0, hi)); }
#if defined(OPT)
struct M { bool has{false}; uint8_t v{0}; };
static void same(optional<A>& o, const M& m, const char* what) { CHECK(o.has_value() == m.has && static_cast<bool>(o) == m.has && (o == nullopt) == !m.has, what); if (m.has) { o->ok(); CHECK(o.value().v == m.v && (*o).v == m.v && static_cast<const optional<A>&>(o)->v == m.v, what); symx_reach("set"); } else symx_reach("empty"); }
void symx_main() { { optional<A> s[2]; M m[2]; for (int k = 0; k < NOPS; k++) { uint64_t op = pick("op", 11), i = pick("i", 1), j = 1 - i; switch (op) {
        case 0: { uint8_t v = val(); s[i].emplace(v); m[i] = {true, v}; break; } case 1: s[i].reset(); m[i].has = false; break; case 2: { A a(val()); s[i] = a; m[i] = {true, a.v}; break; } case 3: { uint8_t v = val(); s[i] = A(v); m[i] = {true, v}; break; }
        case 4: s[i] = s[j]; m[i] = m[j]; break; case 5: s[i] = std::move(s[j]); m[i] = m[j]; m[j].has = false; break; case 6: { auto& r = s[i]; s[i] = r; s[i] = std::move(r); break; } case 7: s[i] = optional<A>(nullopt); m[i].has = false; break;
        case 8: { optional<A> t(s[i]); same(t, m[i], "copy"); optional<A> u(std::move(t)); same(u, m[i], "move"); CHECK(!t.has_value(), "moved-from is empty"); break; }
        case 9: { bool e = s[0] == s[1]; CHECK(e == (m[0].has == m[1].has && (!m[0].has || m[0].v == m[1].v)), "equality"); CHECK((s[0] != s[1]) == !e, "inequality"); break; }
        case 10: { bool th = false, el = false; s[i].and_then([&](A& a) { th = true; CHECK(a.v == m[i].v, "and_then value"); }).or_else([&] { el = true; }); CHECK(th == m[i].has && el == !m[i].has, "exactly one continuation runs"); uint8_t d = val(); CHECK(s[i].value_or(A(d)).v == (m[i].has ? m[i].v : d), "value_or"); break; }
        default: { if (m[i].has) { A a = std::move(s[i]).value(); CHECK(a.v == m[i].v, "moved out"); m[i].v = GONE; } else { symx_expect_fatal("novalue"); uint8_t x = s[i].value().v; (void)x; CHECK(false, "an empty optional gives no value"); } } }
        same(s[0], m[0], "first"); same(s[1], m[1], "second"); CHECK(live == m[0].has + m[1].has, "every object is alive exactly once"); symx_join(k + 1); } } CHECK(live == 0, "all objects are destroyed"); symx_reach("done"); }
#elif defined(VAR)
using V = variant<A, B, uint8_t>; struct M { int t{-1}; uint8_t v{0}; };
static void same(V& o, const M& m, const char* what) { CHECK(o.index() == (m.t < 0 ? INVALID_VARIANT_INDEX : static_cast<uint64_t>(m.t)), what); A* a = o.get<A>(); B* b = o.get<B>(); uint8_t* c = o.get<uint8_t>(); CHECK((a != nullptr) == (m.t == 0) && (b != nullptr) == (m.t == 1) && (c != nullptr) == (m.t == 2), what); CHECK(holds_alternative<A>(o) == (m.t == 0) && holds_alternative<B>(o) == (m.t == 1), what); CHECK((o.get_at_index<0>() != nullptr) == (m.t == 0) && (o.get_at_index<1>() != nullptr) == (m.t == 1), what); if (a) { a->ok(); CHECK(a->v == m.v, what); symx_reach("a"); } if (b) { b->ok(); CHECK(b->v == m.v, what); symx_reach("b"); } if (c) CHECK(*c == m.v, what); if (m.t < 0) symx_reach("empty"); }
static void moved(M& m) { if (m.t == 0 || m.t == 1) m.v = GONE; }
void symx_main() { { V s[2]; M m[2]; for (int k = 0; k < NOPS; k++) { uint64_t op = pick("op", 9), i = pick("i", 1), j = 1 - i; switch (op) {
        case 0: { uint8_t v = val(); s[i].emplace<A>(v); m[i] = {0, v}; break; } case 1: { uint8_t v = val(); s[i].emplace<B>(v); m[i] = {1, v}; break; } case 2: { uint8_t v = val(); s[i].emplace_at_index<2>(v); m[i] = {2, v}; break; }
        case 3: s[i] = s[j]; m[i] = m[j]; break; case 4: s[i] = std::move(s[j]); m[i] = m[j]; moved(m[j]); break; case 5: { V& r = s[i]; s[i] = r; s[i] = std::move(r); break; }
        case 6: { V t(s[i]); same(t, m[i], "copy"); V u(std::move(t)); same(u, m[i], "move"); break; } case 7: { uint8_t v = val(); if (m[i].t >= 0) { s[i] = A(v); if (m[i].t == 0) m[i].v = v; else symx_reach("wrong"); } break; }
        case 8: { bool e = s[0] == s[1]; CHECK(e == (m[0].t == m[1].t && (m[0].t < 0 || m[0].v == m[1].v)), "equality"); CHECK((s[0] != s[1]) == !e, "inequality"); break; }
        default: { uint8_t v = val(); V t(in_place_index<1>(), v); M w{1, v}; same(t, w, "in place"); V u(in_place_type<A>(), v); w.t = 0; same(u, w, "in place"); V x{A(v)}; same(x, w, "from value"); A d(val()); CHECK(s[i].get_if<A>(&d) == (m[i].t == 0 ? s[i].get<A>() : &d), "get_if"); } }
        same(s[0], m[0], "first"); same(s[1], m[1], "second"); CHECK(live == (m[0].t == 0 || m[0].t == 1) + (m[1].t == 0 || m[1].t == 1), "every object is alive exactly once"); symx_join(k + 1); } } CHECK(live == 0, "all objects are destroyed"); symx_reach("done"); }
#elif defined(EXPD)
using X = expected<A, B>; struct M { bool ok; uint8_t v; };
static void same(X& o, const M& m, const char* what) { CHECK(o.has_value() == m.ok && o.has_error() == !m.ok && static_cast<bool>(o) == m.ok, what); if (m.ok) { o.value().ok(); CHECK(o->v == m.v && (*o).v == m.v, what); symx_reach("value"); } else { o.error().ok(); CHECK(o.error().v == m.v, what); symx_reach("error"); } }
void symx_main() { { uint8_t v0 = val(), v1 = val(); X s[2] = {X(in_place, v0), X(unexpect, v1)}; M m[2] = {{true, v0}, {false, v1}}; for (int k = 0; k < NOPS; k++) { uint64_t op = pick("op", 9), i = pick("i", 1), j = 1 - i; uint8_t v = val(); switch (op) {
        case 0: s[i] = ok(A(v)); m[i] = {true, v}; break; case 1: s[i] = err(B(v)); m[i] = {false, v}; break; case 2: { A a(v); s[i] = X(ok(a)); m[i] = {true, v}; break; } case 3: s[i] = s[j]; m[i] = m[j]; break; case 4: s[i] = std::move(s[j]); m[i] = m[j]; m[j].v = GONE; break; case 5: { X& r = s[i]; s[i] = r; s[i] = std::move(r); break; }
        case 6: { X t(s[i]); same(t, m[i], "copy"); X u(std::move(t)); same(u, m[i], "move"); expected<void, B> e = u; CHECK(e.has_error() == !m[i].ok && (m[i].ok || e.error().v == m[i].v), "to expected without value"); auto o = u.to_optional(); CHECK(o.has_value() == m[i].ok && (!m[i].ok || o->v == m[i].v), "to optional"); break; }
        case 7: { bool e = s[0] == s[1]; CHECK(e == (m[0].ok == m[1].ok && m[0].v == m[1].v), "equality"); CHECK((s[0] != s[1]) == !e, "inequality"); break; }
        case 8: { int th = 0, el = 0; s[i].and_then([&](A& a) { th++; CHECK(a.v == m[i].v, "value"); }).or_else([&](B& b) { el++; CHECK(b.v == m[i].v, "error"); }); CHECK(th == m[i].ok && el == !m[i].ok, "exactly one continuation runs"); CHECK(s[i].value_or(A(v)).v == (m[i].ok ? m[i].v : v), "value_or"); break; }
        default: symx_expect_fatal("access"); if (m[i].ok) { uint8_t x = s[i].error().v; (void)x; } else { uint8_t x = s[i].value().v; (void)x; } CHECK(false, "only what is there can be accessed"); }
        same(s[0], m[0], "first"); same(s[1], m[1], "second"); CHECK(live == 2, "every object is alive exactly once"); symx_join(k + 1); } } CHECK(live == 0, "all objects are destroyed"); symx_reach("done"); }
#elif defined(FUN)
using F = function<uint32_t(uint8_t), 64>;
static uint32_t freef(uint8_t x) { return 1000u + x; }
struct Obj { uint32_t b; uint32_t met(uint8_t x) { return 2000u + b + x; } uint32_t cmet(uint8_t x) const { return 3000u + b + x; } };
struct M { int kind; uint8_t v; bool gone; };
static uint32_t expectv(const M& m, uint8_t x) { switch (m.kind) { case 0: return 1000u + x; case 1: return 4000u + m.v + x; case 2: return 5000u + m.v + x; case 3: return 2007u + x; default: return 3007u + x; } }
static int alive(const M& m) { return !m.gone && (m.kind == 1 || m.kind == 2); }
void symx_main() { { static Obj obj{7}; auto mka = [](uint8_t v) { A a(v); return [a](uint8_t x) -> uint32_t { a.ok(); return 4000u + a.v + x; }; }; auto mkb = [](uint8_t v) { B b(v); return [b](uint8_t x) -> uint32_t { b.ok(); return 5000u + b.v + x; }; };
    auto make = [&](uint64_t kind, uint8_t v) -> F { switch (kind) { case 0: return F(freef); case 1: return F(mka(v)); case 2: return F(mkb(v)); case 3: return F(obj, &Obj::met); default: return F(static_cast<const Obj&>(obj), &Obj::cmet); } };
    F s[2] = {F(freef), F(mka(9))}; M m[2] = {{0, 0, false}, {1, 9, false}}; for (int k = 0; k < NOPS; k++) { uint64_t op = pick("op", 5), i = pick("i", 1), j = 1 - i; switch (op) {
        case 0: { uint64_t kd = pick("kind", 4); uint8_t v = val(); s[i] = make(kd, v); m[i] = {static_cast<int>(kd), v, false}; break; }
        case 1: if (!m[j].gone) { s[i] = s[j]; m[i] = m[j]; } break; case 2: if (!m[j].gone) { s[i] = std::move(s[j]); m[i] = m[j]; m[j].gone = true; } break; case 3: if (!m[i].gone) { F& r = s[i]; s[i] = r; s[i] = std::move(r); } break;
        case 4: if (!m[i].gone) { F t(s[i]); uint8_t x = val(); CHECK(t(x) == expectv(m[i], x), "copy calls the same"); F u(std::move(t)); CHECK(u(x) == expectv(m[i], x), "moved calls the same"); function_ref<uint32_t(uint8_t)> r(u); CHECK(r(x) == expectv(m[i], x), "reference calls the same"); } break;
        default: if (!m[0].gone && !m[1].gone) { if (i) s[0].swap(s[1]); else swap(s[0], s[1]); M t = m[0]; m[0] = m[1]; m[1] = t; } }
        uint8_t x = val(); for (int q = 0; q < 2; q++) if (!m[q].gone) { CHECK(s[q](x) == expectv(m[q], x), "calls the stored callable with its captures"); symx_reach("called"); } CHECK(live == alive(m[0]) + alive(m[1]), "every capture is alive exactly once"); symx_join(k + 1); } } CHECK(live == 0, "all captures are destroyed"); symx_reach("done"); }
#elif defined(UPTR)
static int del[3]; alignas(8) static unsigned char mem[3][sizeof(A)]; static int idx(A* p) { for (int i = 0; i < 3; i++) if (reinterpret_cast<unsigned char*>(p) == mem[i]) return i; return -1; }
void symx_main() { int next = 0; A* rel = nullptr; { auto mk = [&]() { int n = next++; A* p = new (mem[n]) A(5); return unique_ptr<A>(p, [n](A* q) { int d = idx(q); CHECK(d == n, "an object is deleted by its own deleter"); del[d]++; q->~A(); }); };
    unique_ptr<A> a = mk(), b = mk(); A *pa = a.get(), *pb = b.get(); for (int k = 0; k < NOPS; k++) { uint64_t op = pick("op", 6); switch (op) {
        case 0: if (pb) { a = std::move(b); pa = pb; pb = nullptr; } break; case 1: if (pa) { b = std::move(a); pb = pa; pa = nullptr; } break; case 2: if (pa && pb) { a.swap(b); std::swap(pa, pb); } break; case 3: if (pa) { auto& r = a; a = std::move(r); } break;
        case 4: if (pa && !rel) { rel = unique_ptr<A>::release(std::move(a)); CHECK(rel == pa, "released object"); pa = nullptr; symx_reach("released"); } break; case 5: if (next < 3) { a = mk(); pa = reinterpret_cast<A*>(mem[next - 1]); } break;
        default: if (pa) { unique_ptr<A> t(std::move(a)); CHECK(t.get() == pa && !a.get(), "moved"); pa = nullptr; } }
        CHECK(a.get() == pa && b.get() == pb && (a == b) == (pa == pb), "owner"); if (pa) { CHECK(a->v == 5 && a.operator->() == pa, "access"); } for (int i = 0; i < next; i++) { A* p = reinterpret_cast<A*>(mem[i]); bool own = p == pa || p == pb || p == rel; CHECK(del[i] == (own ? 0 : 1), "deleted exactly once, when it has no owner any more"); } symx_join(k + 1); } }
    for (int i = 0; i < next; i++) CHECK(del[i] == (reinterpret_cast<A*>(mem[i]) == rel ? 0 : 1), "deleted exactly once"); symx_reach("done"); }
#else
static int ran[4];
void symx_main() { int next = 0; bool rel[4]{}; { auto mk = [&]() { int n = next++; return ScopeGuard([n] { ran[n]++; }); }; ScopeGuard a = mk(), b = mk(); int ma = 0, mb = 1; bool init = false; { ScopeGuard c([&] { init = true; }, [] {}); CHECK(init, "the first function runs at once"); }
    for (int k = 0; k < NOPS; k++) { uint64_t op = pick("op", 5); switch (op) { case 0: a = std::move(b); ma = mb; mb = -1; break; case 1: b = std::move(a); mb = ma; ma = -1; break; case 2: { auto& r = a; a = std::move(r); break; } case 3: if (ma >= 0) { auto f = ScopeGuard::release(std::move(a)); (void)f; rel[ma] = true; ma = -1; symx_reach("released"); } break; case 4: if (next < 4) { b = mk(); mb = next - 1; } break; default: { ScopeGuard t(std::move(a)); } ma = -1; }
        for (int i = 0; i < next; i++) CHECK(ran[i] == (i == ma || i == mb || rel[i] ? 0 : 1), "the clean-up runs exactly once, at the end of its guard"); symx_join(k + 1); } }
    for (int i = 0; i < next; i++) CHECK(ran[i] == !rel[i], "the clean-up runs exactly once unless released"); symx_reach("done"); }
#endif
