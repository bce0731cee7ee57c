//@prop: C21
//@tus: %base
//@bound: containers of capacity 3, NOPS symbolic operations (all positions and iterators, symbolic element keys) on two instances, tracked element type that detects use before construction, use after destruction, double destruction and leaks; trivially copyable element type for the vector as well; symbolic 64-bit indices
//@job: name=vector defs="-DVECTOR -DNOPS=4" reach=full,emplaced,erased,resized,copied,moved
//@job: name=vectort defs="-DVECTOR -DTRIVIAL -DNOPS=4" reach=full,emplaced,erased,resized,copied,moved
//@job: name=vectora defs="-DVECTORA" reach=ok,fatal:oob
//@job: name=list defs="-DLIST -DNOPS=3" reach=full,inserted,erased,removed,copied,moved
//@job: name=flist defs="-DFLIST -DNOPS=3" reach=full,inserted,erased,removed,copied,moved
//@job: name=fpc defs="-DFPC -DNOPS=5" reach=full,erased,copied,moved
//@job: name=fpce defs="-DFPCE" reach=ok,fatal:bad
//@job: name=stack defs="-DSTACK -DNOPS=5" reach=full,empty,copied,moved
//@job: name=vector_long defs="-DVECTOR -DNOPS=5" reach=full,emplaced,erased,resized,copied,moved tier=thorough
//@job: name=list_long defs="-DLIST -DNOPS=4" reach=full,inserted,erased,removed,copied,moved tier=thorough
//@job: name=flist_long defs="-DFLIST -DNOPS=4" reach=full,inserted,erased,removed,copied,moved tier=thorough
//@job: name=fpc_long defs="-DFPC -DNOPS=7" reach=full,erased,copied,moved tier=thorough
//@job: name=stack_long defs="-DSTACK -DNOPS=7" reach=full,empty,copied,moved tier=thorough
#include "symx.h"
#include "iox/vector.hpp"
#include "iox/list.hpp"
#include "iox/forward_list.hpp"
#include "iox/fixed_position_container.hpp"
#include "iox/stack.hpp"
#include <new>
using namespace iox;
static int live;
#ifdef TRIVIAL
struct T { uint32_t v; bool operator==(const T& o) const { return v == o.v; } bool operator!=(const T& o) const { return v != o.v; } };
#define EXPECT_LIVE(n)
#else
// element that knows whether it is alive; a moved-from element has value 0
struct T { static constexpr uint64_t ALIVE = 0xA11FE; uint64_t st; uint32_t v;
    T() : st(ALIVE), v(77) { live++; } T(uint32_t x) : st(ALIVE), v(x) { live++; }
    T(const T& o) : st(ALIVE), v(o.v) { CHECK(o.st == ALIVE, "copy of a living element"); live++; } T(T&& o) noexcept : st(ALIVE), v(o.v) { CHECK(o.st == ALIVE, "move of a living element"); o.v = 0; live++; }
    T& operator=(const T& o) { CHECK(st == ALIVE && o.st == ALIVE, "assignment between living elements"); v = o.v; return *this; } T& operator=(T&& o) noexcept { CHECK(st == ALIVE && o.st == ALIVE, "move assignment between living elements"); v = o.v; if (this != &o) o.v = 0; return *this; }
    ~T() { CHECK(st == ALIVE, "only a living element is destroyed"); st = 0; v = 0; live--; } bool operator==(const T& o) const { return v == o.v; } bool operator!=(const T& o) const { return v != o.v; } };
#define EXPECT_LIVE(n) CHECK(live == static_cast<int>(n), "exactly the contained elements are alive")
#endif
struct Mod { unsigned n{0}; uint32_t c[3]{}; bool ins(unsigned p, uint32_t v) { if (n >= 3 || p > n) return false; for (unsigned i = n; i > p; i--) c[i] = c[i - 1]; c[p] = v; n++; return true; } void del(unsigned p) { for (unsigned i = p + 1; i < n; i++) c[i - 1] = c[i]; n--; } unsigned rm(uint32_t v) { unsigned k = 0; for (unsigned i = 0; i < n;) if (c[i] == v) { del(i); k++; } else i++; return k; } };
static unsigned pick(const char* n, unsigned hi) { return symx_concrete(symx_range(n, 0, hi)); }
static uint32_t key() { return 1 + static_cast<uint32_t>(symx_range("key", 0, 1)); }
#if defined(VECTOR)
using V = vector<T, 3>; alignas(8) static uint8_t buf[2][sizeof(V)]; static Mod m[2]; static V& o(int i) { return *reinterpret_cast<V*>(buf[i]); }
static void same() { for (int i = 0; i < 2; i++) { CHECK(o(i).size() == m[i].n && o(i).empty() == (m[i].n == 0) && o(i).end() - o(i).begin() == m[i].n && o(i).data() == o(i).begin(), "size"); for (unsigned k = 0; k < m[i].n; k++) CHECK(o(i)[k].v == m[i].c[k] && o(i).begin()[k].v == m[i].c[k], "elements in order"); if (m[i].n) CHECK(o(i).front().v == m[i].c[0] && o(i).back().v == m[i].c[m[i].n - 1], "front and back"); } EXPECT_LIVE(m[0].n + m[1].n); bool eq = m[0].n == m[1].n; for (unsigned k = 0; eq && k < m[0].n; k++) eq = m[0].c[k] == m[1].c[k]; CHECK((o(0) == o(1)) == eq && (o(0) != o(1)) == !eq, "comparison"); }
void symx_main() { for (int i = 0; i < 2; i++) { new (buf[i]) V; m[i].n = pick("init", 1) * (2 + i) % 4; for (unsigned k = 0; k < m[i].n; k++) { m[i].c[k] = 10 * i + k + 1; CHECK(o(i).emplace_back(T{m[i].c[k]}), "filled"); } } uint32_t id = 100;
    for (int k = 0; k < NOPS; k++) { symx_join(1); id++; V& v = o(0); Mod& w = m[0]; switch (pick("op", 9)) {
    case 0: { bool r = pick("mv", 1) ? v.push_back(T{id}) : [&] { T t{id}; return v.push_back(t); }(); CHECK(r == (w.n < 3), "refused only when full"); if (r) w.c[w.n++] = id; else symx_reach("full"); break; }
    case 1: { unsigned p = pick("pos", 4); bool r = v.emplace(p, T{id}); CHECK(r == w.ins(p, id), "emplace inside and with room"); if (r) symx_reach("emplaced"); break; }
    case 2: { bool r = v.pop_back(); CHECK(r == (w.n > 0), "pop"); if (r) w.n--; break; }
    case 3: { unsigned p = pick("epos", 3); if (p > w.n) break; bool r = v.erase(v.begin() + p); CHECK(r == (p < w.n), "erase only existing"); if (r) { w.del(p); symx_reach("erased"); } break; }
    case 4: { unsigned n = pick("n", 4); bool r = v.resize(n, T{id}); CHECK(r == (n <= 3), "resize within capacity"); if (r) { while (w.n < n) w.c[w.n++] = id; w.n = n; symx_reach("resized"); } break; }
    case 5: v.clear(); w.n = 0; break;
    case 6: o(0) = o(1); m[0] = m[1]; symx_reach("copied"); break;
    case 7: o(0) = std::move(o(1)); m[0] = m[1]; m[1].n = 0; symx_reach("moved"); break;
    case 8: { V c(o(1)); CHECK(c == o(1), "copy equals"); V d(std::move(o(0))); CHECK(d.size() == m[0].n && o(0).empty(), "moved"); o(0) = d; break; }
    default: { V& a = o(0); o(0) = a; o(0) = std::move(a); V e(2, T{id}); CHECK(e.size() == 2 && e[1].v == id, "filled"); V f(5, T{id}); CHECK(f.size() == 3, "cut to the capacity"); V g(2); CHECK(g.size() == 2, "default elements"); } }
    same(); } for (int i = 0; i < 2; i++) o(i).~V(); EXPECT_LIVE(0); }
#elif defined(VECTORA)
void symx_main() { vector<T, 3> v; unsigned n = pick("n", 3); for (unsigned i = 0; i < n; i++) v.emplace_back(i + 1); uint64_t p = symx_u64("p"); switch (pick("op", 2)) { case 0: { if (p >= n) symx_expect_fatal("oob"); uint32_t x = v.at(p).v; CHECK(p < n && x == p + 1, "element at a position"); symx_reach("ok"); break; } case 1: { if (n == 0) symx_expect_fatal("oob"); uint32_t a = v.front().v, b = v.back().v; CHECK(n > 0 && a == 1 && b == n, "ends"); break; } default: { bool r = v.emplace(p, 9u); CHECK(r == (p <= n && n < 3), "position out of range"); bool q = v.resize(p); CHECK(q == (p <= 3), "size out of range"); } } }
#elif defined(LIST) || defined(FLIST)
#ifdef LIST
using L = list<T, 3>;
#else
using L = forward_list<T, 3>;
#endif
alignas(8) static uint8_t buf[2][sizeof(L)]; static Mod m[2]; static L& o(int i) { return *reinterpret_cast<L*>(buf[i]); }
static void same() { for (int i = 0; i < 2; i++) { CHECK(o(i).size() == m[i].n && o(i).empty() == (m[i].n == 0) && o(i).full() == (m[i].n == 3), "size"); unsigned k = 0; for (auto it = o(i).begin(); it != o(i).end() && k < 4; ++it, k++) CHECK(k < m[i].n && it->v == m[i].c[k] && (*it).v == m[i].c[k], "elements in order"); CHECK(k == m[i].n, "all elements");
#ifdef LIST
    auto it = o(i).end(); for (k = m[i].n; k-- > 0;) { --it; CHECK(it->v == m[i].c[k], "elements in reverse order"); } CHECK(it == o(i).begin(), "first element"); if (m[i].n) CHECK(o(i).back().v == m[i].c[m[i].n - 1], "back");
#endif
    if (m[i].n) CHECK(o(i).front().v == m[i].c[0], "front"); } EXPECT_LIVE(m[0].n + m[1].n); }
void symx_main() { for (int i = 0; i < 2; i++) { new (buf[i]) L; m[i].n = pick("init", 1) * (2 + i) % 4; for (unsigned k = m[i].n; k-- > 0;) { m[i].c[k] = key(); CHECK(o(i).push_front(T{m[i].c[k]}), "filled"); } }
    for (int k = 0; k < NOPS; k++) { symx_join(1); uint32_t id = key(); L& v = o(0); Mod& w = m[0]; switch (pick("op", 8)) {
    case 0: { bool r = pick("mv", 1) ? v.push_front(T{id}) : [&] { T t{id}; return v.push_front(t); }(); CHECK(r == w.ins(0, id), "refused only when full"); if (!r) symx_reach("full"); break; }
    case 1: { bool r = v.pop_front(); CHECK(r == (w.n > 0), "pop"); if (r) w.del(0); break; }
#ifdef LIST
    case 2: { unsigned p = pick("pos", 3); if (p > w.n) break; auto it = v.begin(); for (unsigned i = 0; i < p; i++) ++it; auto r = v.insert(it, T{id}); bool ok = w.ins(p, id); CHECK((r != v.end()) == ok, "insert"); if (ok) { CHECK(r->v == id, "iterator to the new element"); symx_reach("inserted"); } break; }
    case 3: { unsigned p = pick("epos", 2); if (p >= w.n) break; auto it = v.begin(); for (unsigned i = 0; i < p; i++) ++it; auto r = v.erase(it); w.del(p); if (p < w.n) CHECK(r->v == w.c[p], "iterator after the erased element"); else CHECK(r == v.end(), "end"); symx_reach("erased"); break; }
    case 4: { if (pick("back", 1)) { bool r = v.pop_back(); CHECK(r == (w.n > 0), "pop back"); if (r) w.n--; } else { bool r = v.push_back(T{id}); CHECK(r == w.ins(w.n, id), "push back"); } break; }
#else
    case 2: { unsigned p = pick("pos", 3); if (p > w.n) break; auto it = v.before_begin(); for (unsigned i = 0; i < p; i++) ++it; auto r = v.insert_after(it, T{id}); bool ok = w.ins(p, id); CHECK((r != v.end()) == ok, "insert"); if (ok) { CHECK(r->v == id, "iterator to the new element"); symx_reach("inserted"); } break; }
    case 3: { unsigned p = pick("epos", 2); if (p >= w.n) break; auto it = v.before_begin(); for (unsigned i = 0; i < p; i++) ++it; auto r = v.erase_after(it); w.del(p); if (p < w.n) CHECK(r->v == w.c[p], "iterator after the erased element"); else CHECK(r == v.end(), "end"); symx_reach("erased"); break; }
    case 4: { if (w.n < 3) { T& r = v.emplace_front(id); w.ins(0, id); CHECK(r.v == id, "reference to the new element"); } break; }
#endif
    case 5: { auto r = pick("if", 1) ? v.remove_if([&](const T& t) { return t.v == id; }) : v.remove(T{id}); CHECK(r == w.rm(id), "all matching elements are removed"); if (r) symx_reach("removed"); break; }
    case 6: o(0) = o(1); m[0] = m[1]; symx_reach("copied"); break; case 7: o(0) = std::move(o(1)); m[0] = m[1]; m[1].n = 0; symx_reach("moved"); break;
    default: { L c(o(0)); CHECK(c.size() == w.n, "copy"); L d(std::move(c)); CHECK(d.size() == w.n && c.empty(), "move"); v.clear(); CHECK(v.empty(), "clear"); o(0) = d; L& a = o(0); o(0) = a; o(0) = std::move(a); } }
    same(); } for (int i = 0; i < 2; i++) o(i).~L(); EXPECT_LIVE(0); }
#elif defined(FPC)
using F = FixedPositionContainer<T, 3>; alignas(8) static uint8_t buf[2][sizeof(F)]; static uint32_t m[2][3]; static F& o(int i) { return *reinterpret_cast<F*>(buf[i]); }
static unsigned cnt(int i) { unsigned n = 0; for (auto x : m[i]) n += x != 0; return n; }
static void same() { for (int i = 0; i < 2; i++) { CHECK(o(i).size() == cnt(i) && o(i).empty() == (cnt(i) == 0) && o(i).full() == (cnt(i) == 3), "size"); unsigned at = 0; auto it = o(i).begin(); for (; at < 3; at++) if (m[i][at]) { CHECK(it != o(i).end() && it.to_index() == at && it->v == m[i][at], "each element stays at its position"); CHECK(it.to_ptr() == o(i).iter_from_index(at).to_ptr(), "address"); ++it; } CHECK(it == o(i).end(), "no other elements"); } EXPECT_LIVE(cnt(0) + cnt(1)); }
void symx_main() { for (int i = 0; i < 2; i++) { new (buf[i]) F; unsigned n = pick("init", 1) * (2 + i) % 4; for (unsigned k = 0; k < n; k++) { m[i][k] = 10 * i + k + 1; o(i).emplace(m[i][k]); } } uint32_t id = 100; if (m[1][0] && pick("hole", 1)) { o(1).erase(o(1).begin()); m[1][0] = 0; }
    for (int k = 0; k < NOPS; k++) { symx_join(1); id++; F& v = o(0); switch (pick("op", 5)) {
    case 0: { bool full = cnt(0) == 3; auto it = pick("mv", 1) ? v.emplace(id) : v.insert(T{id}); CHECK((it == v.end()) == full, "refused only when full"); if (!full) { unsigned x = it.to_index(); CHECK(x < 3 && m[0][x] == 0 && it->v == id, "a free position"); m[0][x] = id; } else symx_reach("full"); break; }
    case 1: { unsigned p = pick("pos", 2); if (!m[0][p]) break; unsigned nx = p + 1; while (nx < 3 && !m[0][nx]) nx++; auto r = [&] { switch (pick("how", 2)) { case 0: return v.erase(static_cast<F::IndexType>(p)); case 1: return v.erase(v.iter_from_index(p).to_ptr()); default: return v.erase(v.iter_from_index(p)); } }(); m[0][p] = 0; if (nx < 3) CHECK(r.to_index() == nx, "next element"); else CHECK(r == v.end(), "end"); symx_reach("erased"); break; }
    case 2: v.clear(); for (auto& x : m[0]) x = 0; break;
    case 3: case 4: { bool mv = pick("mv", 1); uint32_t q[3] = {0, 0, 0}; unsigned n = 0; for (auto x : m[1]) if (x) q[n++] = x; if (mv) { o(0) = std::move(o(1)); for (auto& x : m[1]) x = 0; symx_reach("moved"); } else { o(0) = o(1); symx_reach("copied"); } CHECK(o(0).size() == n, "all elements"); unsigned y = 0; for (auto it = o(0).begin(); it != o(0).end(); ++it, y++) CHECK(y < n && it->v == q[y], "the same elements in the same order"); for (auto& x : m[0]) x = 0; for (auto it = o(0).begin(); it != o(0).end(); ++it) m[0][it.to_index()] = it->v; break; }
    default: { F c(v); CHECK(c.size() == v.size(), "copy"); F d(std::move(c)); CHECK(d.size() == v.size() && c.empty(), "move"); auto a = d.begin(); for (auto b = v.begin(); b != v.end(); ++b, ++a) CHECK(a->v == b->v, "same elements"); F& s = v; v = s; v = std::move(s); c.emplace(5u); CHECK(c.size() == 1, "usable after being moved from"); if (!d.full()) { auto e = d.emplace(6u); CHECK(e->v == 6, "copy is usable"); } } }
    same(); } for (int i = 0; i < 2; i++) o(i).~F(); EXPECT_LIVE(0); }
#elif defined(FPCE)
void symx_main() { FixedPositionContainer<T, 3> v; v.emplace(1u); v.emplace(2u); v.emplace(3u); v.erase(1); uint8_t p = symx_u8("p"); if (pick("op", 1)) { if (p != 0 && p != 2) symx_expect_fatal("bad"); v.erase(p); CHECK(p == 0 || p == 2, "only used positions"); CHECK(v.size() == 1, "erased"); } else { bool bad = p != 0 && p != 2; auto it = v.iter_from_index(p); CHECK((it == v.end()) == bad, "iterator only for used positions"); if (bad) symx_expect_fatal("bad"); uint32_t x = it->v; CHECK(!bad && x == p + 1u, "element"); symx_reach("ok"); } }
#else
using S = stack<T, 3>; alignas(8) static uint8_t buf[2][sizeof(S)]; static Mod m[2]; static S& o(int i) { return *reinterpret_cast<S*>(buf[i]); }
void symx_main() { for (int i = 0; i < 2; i++) { new (buf[i]) S; m[i].n = pick("init", 1) * (2 + i) % 4; for (unsigned k = 0; k < m[i].n; k++) { m[i].c[k] = 10 * i + k + 1; CHECK(o(i).push(m[i].c[k]), "filled"); } } uint32_t id = 100;
    for (int k = 0; k < NOPS; k++) { symx_join(1); id++; S& v = o(0); Mod& w = m[0]; switch (pick("op", 6)) {
    case 0: { bool r = v.push(id); CHECK(r == w.ins(w.n, id), "refused only when full"); if (!r) symx_reach("full"); break; }
    case 1: { auto r = v.pop(); CHECK(r.has_value() == (w.n > 0), "empty exactly when nothing is left"); if (r.has_value()) CHECK(r->v == w.c[--w.n], "last in first out"); else symx_reach("empty"); break; }
    case 2: v.clear(); w.n = 0; break; case 3: o(0) = o(1); m[0] = m[1]; symx_reach("copied"); break; case 4: o(0) = std::move(o(1)); m[0] = m[1]; m[1].n = 0; symx_reach("moved"); break;
    case 5: { S c(v); S d(std::move(c)); CHECK(d.size() == w.n && c.size() == 0, "copy and move"); v = d; break; } default: { S& a = v; v = a; v = std::move(a); } }
    for (int i = 0; i < 2; i++) CHECK(o(i).size() == m[i].n, "size"); EXPECT_LIVE(m[0].n + m[1].n); }
    for (int i = 0; i < 2; i++) { while (m[i].n) { auto r = o(i).pop(); CHECK(r.has_value() && r->v == m[i].c[--m[i].n], "last in first out"); } CHECK(!o(i).pop().has_value(), "empty"); o(i).~S(); } EXPECT_LIVE(0); }
#endif
