//@prop: C17
//@tus: %base
//@bound: up to 3 registered segments with ids 1..3 (symbolic 48-bit base addresses and sizes, disjoint), NOPS symbolic register / unregister / unregister-all operations, symbolic pointers below 2^47; compact form: all 16-bit ids and 64-bit offsets
//@stub: addresses are symbolic numbers that are never dereferenced; the repository keeps its real capacity (10000 ids)
//@job: name=data defs="-DDATA" reach=valid,null
//@job: name=hist defs="-DHIST -DNOPS=3" reach=inside,outside,auto,taken,unreg,unregall,refused
//@job: name=remap defs="-DREMAP" reach=inside,outside
//@job: name=value defs="-DVALUE" reach=done
//@job: name=ids defs="-DIDS" reach=ok,toolarge
//@job: name=hist_long defs="-DHIST -DNOPS=4" reach=inside,outside,auto,taken,unreg,unregall,refused tier=thorough
#include "symx.h"
#include "iox/relative_pointer.hpp"
#include "iox/detail/relative_pointer_data.hpp"
using namespace iox;
using RP = RelativePointer<uint8_t>;
static uint8_t* P(uint64_t v) { return reinterpret_cast<uint8_t*>(v); }
static uint64_t U(const void* p) { return reinterpret_cast<uint64_t>(p); }
struct Seg { bool on; uint64_t base, size; };
static bool in(const Seg& s, uint64_t p) { return s.on && p - s.base < s.size; }
static void symSeg(Seg& s, const char* b, const char* n) { s.base = symx_u64(b); s.size = symx_u64(n); symx_assume(s.base >= 4096 && s.base < (1ull << 47) && s.size >= 1 && s.size < (1ull << 40)); }
// history job: segments lie in 16 MB slots (slot, start within the slot and size symbolic), which keeps the address arithmetic small
static void slotSeg(Seg& s, const Seg* o) { uint64_t n = symx_range("slot", 1, 5), lo = symx_range("start", 0, 0xfffff); s.base = (n << 24) + (lo << 3); s.size = symx_range("size", 1, 0x7fffff); s.on = true; for (unsigned j = 1; j < 4; j++) symx_assume(!o[j].on || (o[j].base >> 24) != n); }
static bool disjoint(const Seg& a, const Seg& b) { return !a.on || !b.on || a.base + a.size <= b.base || b.base + b.size <= a.base; }
#if defined(DATA)
void symx_main() { uint16_t id = symx_u16("id"); uint64_t off = symx_u64("off"); RelativePointerData d(id, off);
    CHECK(RelativePointerData{}.isLogicalNullptr(), "default is null");
    if (id != 0xffff && off < (1ull << 48) - 1) { CHECK(d.id() == id && d.offset() == off && !d.isLogicalNullptr(), "id and offset are kept"); symx_reach("valid"); }
    else { CHECK(d.isLogicalNullptr(), "an id or offset out of range becomes null"); symx_reach("null"); }
    d.reset(); CHECK(d.isLogicalNullptr() && d.id() == RelativePointerData::NULL_POINTER_ID && d.offset() == RelativePointerData::NULL_POINTER_OFFSET, "reset is null"); }
#elif defined(HIST)
static Seg s[4];
static void check() { uint64_t p = symx_u64("p"); symx_assume(p != 0 && p < (1ull << 47)); RP r(P(p)); CHECK(U(r.get()) == p && bool(r) && r == P(p) && !(r == nullptr), "a relative pointer refers to what it was made from"); uint64_t id = r.getId();
    bool any = false; for (unsigned i = 1; i < 4; i++) { if (in(s[i], p)) { any = true; CHECK(id == i && r.getOffset() == p - s[i].base && U(r.getBasePtr()) == s[i].base, "segment and offset of a pointer into a registered segment"); } }
    if (any) symx_reach("inside"); else { CHECK(id == 0 && r.getOffset() == p, "a pointer outside all registered segments is kept as it is"); symx_reach("outside"); }
    RP n(P(0)); CHECK(!n && n.get() == nullptr && n == nullptr, "null stays null"); RP a; a = P(p); CHECK(a.getId() == id && a.getOffset() == r.getOffset(), "assignment from a pointer"); }
void symx_main() { for (int k = 0; k < NOPS; k++) { switch (symx_concrete(symx_range("op", 0, 3))) {
    case 0: { uint64_t i = symx_concrete(symx_range("id", 1, 3)); Seg x; slotSeg(x, s); bool r = RP::registerPtrWithId(segment_id_t{i}, P(x.base), x.size); CHECK(r == !s[i].on, "a segment id is given out once"); if (r) s[i] = x; else symx_reach("taken"); break; }
    case 1: { Seg x; slotSeg(x, s); if (s[1].on && s[2].on && s[3].on) break; auto r = RP::registerPtr(P(x.base), x.size); CHECK(r.has_value() && r.value() >= 1 && r.value() <= 3 && !s[r.value()].on, "a free id is chosen"); s[r.value()] = x; symx_reach("auto"); break; }
    case 2: { uint64_t i = symx_concrete(symx_range("id", 1, 3)); bool r = RP::unregisterPtr(segment_id_t{i}); CHECK(r == s[i].on, "only a registered id can be removed"); s[i].on = false; if (r) symx_reach("unreg"); else symx_reach("refused"); break; }
    default: RP::unregisterAll(); for (auto& x : s) x.on = false; symx_reach("unregall"); }
    for (uint64_t i = 1; i < 4; i++) CHECK(U(RP::getBasePtr(segment_id_t{i})) == (s[i].on ? s[i].base : 0), "base address of a segment"); }
    check(); }
#elif defined(REMAP)
// the same relative pointer read in a process that has the segments mapped elsewhere
void symx_main() { Seg s[3]{}; for (unsigned i = 1; i < 3; i++) { symSeg(s[i], "base", "size"); s[i].on = true; } symx_assume(disjoint(s[1], s[2])); for (uint64_t i = 1; i < 3; i++) CHECK(RP::registerPtrWithId(segment_id_t{i}, P(s[i].base), s[i].size), "registered");
    uint64_t p = symx_u64("p"); symx_assume(p != 0 && p < (1ull << 47)); RP r(P(p)); RP e(P(p), segment_id_t{2}); if (in(s[2], p)) CHECK(U(e.get()) == p && e.getId() == 2, "explicit segment");
    RP::unregisterAll(); uint64_t nb[3]; for (uint64_t i = 1; i < 3; i++) { nb[i] = symx_u64("newbase"); symx_assume(nb[i] >= 4096 && nb[i] < (1ull << 47)); CHECK(RP::registerPtrWithId(segment_id_t{i}, P(nb[i]), s[i].size), "registered again"); }
    uint64_t w = p; for (unsigned i = 1; i < 3; i++) if (in(s[i], p)) { w = nb[i] + (p - s[i].base); symx_reach("inside"); } if (w == p) symx_reach("outside");
    CHECK(U(r.get()) == w, "the same place in the segment, wherever it is mapped"); RP c(r), d; d = r; CHECK(U(c.get()) == w && U(d.get()) == w, "copies refer to the same place"); CHECK(U(RP(r.getOffset(), segment_id_t{r.getId()}).get()) == w, "rebuilt from id and offset"); }
#elif defined(VALUE)
void symx_main() { uint64_t p = symx_u64("p"); symx_assume(p != 0 && p < (1ull << 47)); Seg x; symSeg(x, "base", "size"); x.on = true; RP::registerPtrWithId(segment_id_t{1}, P(x.base), x.size); RP a(P(p)); RP b(a); CHECK(U(b.get()) == p && U(a.get()) == p, "copy"); RP c(std::move(a)); CHECK(U(c.get()) == p && a.get() == nullptr && !a, "move leaves null"); RP d; d = std::move(c); CHECK(U(d.get()) == p && !c, "move assignment"); RP& dr = d; d = dr; CHECK(U(d.get()) == p, "self assignment"); d = std::move(dr); CHECK(U(d.get()) == p, "self move"); CHECK(!(d == nullptr) && d != nullptr && nullptr != d && d == P(p) && !(d != P(p)) && P(p) == d, "comparisons"); RP z; CHECK(!z && z == nullptr && z.getId() == RP::NULL_POINTER_ID, "default is null"); z = P(p); d = P(0); CHECK(U(z.get()) == p && !d, "assignment"); symx_reach("done"); }
#else
void symx_main() { uint64_t id = symx_u64("id"); symx_assume(id > 3 || id == 1); if (id <= 9999) id = symx_concrete(id == 1 ? 1 : (symx_assume(id == 4 || id == 9999), id)); bool r = RP::registerPtrWithId(segment_id_t{id}, P(4096), 64); CHECK(r == (id <= 9999), "ids beyond the capacity are refused"); if (r) { symx_reach("ok"); RP q(P(4100)); CHECK(q.getId() == id && q.getOffset() == 4, "found"); CHECK(RP::unregisterPtr(segment_id_t{id}), "removed"); } else { symx_reach("toolarge"); CHECK(!RP::unregisterPtr(segment_id_t{id}), "nothing to remove"); CHECK(RP::getBasePtr(segment_id_t{id}) == nullptr, "no base"); } }
#endif
