// happens-before tracking with symbolic vector clocks, stored in ordinary (mergeable) memory
static const u64 SH_BASE = 0x3800000; static const unsigned HT = 8;
static const u64 SH_VC = SH_BASE, SH_ACQ = SH_BASE + 0x100, SH_REL = SH_BASE + 0x200, SH_LOC = SH_BASE + 0x1000, SH_LOC_END = 0x4000000;
static bool hbOn() { return !g_race.empty(); }
static E g1(State& s, u64 a) { return s.mem.getByteE(a); }
static void p1(State& s, u64 a, E e) { s.mem.putByte(a, e, 0); }
static E emax(E a, E b) { if (a == b) return a; if (isF(a)) return b; if (isF(b)) return a; return mkIte(mkBin(O_ULT, a, b), b, a); }
// shadow index of a shared address at 4-byte granularity
static u64 locIdx(u64 a) { u64 base = 0; for (auto& r : g_shared) { if (a - r.a < r.n) return base + (a - r.a) / 4; base += (r.n + 3) / 4; } return ~0ull; }
static u64 locAddr(u64 idx, unsigned kind) { u64 x = SH_LOC + idx * (3 * HT) + kind * HT; if (x + HT >= SH_LOC_END) { fprintf(stderr, "symx: shadow exhausted\n"); exit(3);} return x; } // kind 0 release clock, 1 last write, 2 last read
static unsigned hbThreads(State& s) { return s.th.size(); }
static void hbInit(State& s) { if (!hbOn()) return; for (u32 t = 0; t < s.th.size(); t++) for (unsigned u = 0; u < HT; u++) { p1(s, SH_VC + t * HT + u, mkConst(t == u ? 1 : 0, 8)); p1(s, SH_ACQ + t * HT + u, mkConst(0, 8)); p1(s, SH_REL + t * HT + u, mkConst(0, 8)); } 
    u64 tot = 0; for (auto& r : g_shared) tot += (r.n + 3) / 4; for (u64 i = 0; i < tot * 3 * HT; i++) { u8 z = 0; s.mem.putC(SH_LOC + i, &z, 1); } }
static bool isAcq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static bool isRel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static void hbAtomic(State& s, u64 a, bool ld, bool stv, AtomicOrdering o, E did = nullptr) { // did: condition that the store part happened
    if (!hbOn() || !s.threaded) return; u64 ix = locIdx(a); if (ix == ~0ull) return; u32 t = s.cur; unsigned T = hbThreads(s);
    if (ld) for (unsigned u = 0; u < T; u++) { E l = g1(s, locAddr(ix, 0) + u); if (isAcq(o)) p1(s, SH_VC + t * HT + u, emax(g1(s, SH_VC + t * HT + u), l)); else p1(s, SH_ACQ + t * HT + u, emax(g1(s, SH_ACQ + t * HT + u), l)); }
    if (stv) { for (unsigned u = 0; u < T; u++) { u64 la = locAddr(ix, 0) + u; E old = g1(s, la); E rel = isRel(o) ? g1(s, SH_VC + t * HT + u) : g1(s, SH_REL + t * HT + u); E nv = ld ? emax(old, rel) : rel; if (did) nv = mkIte(did, nv, old); p1(s, la, nv); }
        u64 me = SH_VC + t * HT + t; p1(s, me, mkBin(O_ADD, g1(s, me), mkConst(1, 8))); }
}
static void hbFence(State& s, AtomicOrdering o) { if (!hbOn() || !s.threaded) return; u32 t = s.cur; unsigned T = hbThreads(s);
    if (isAcq(o)) for (unsigned u = 0; u < T; u++) p1(s, SH_VC + t * HT + u, emax(g1(s, SH_VC + t * HT + u), g1(s, SH_ACQ + t * HT + u)));
    if (isRel(o)) { for (unsigned u = 0; u < T; u++) p1(s, SH_REL + t * HT + u, g1(s, SH_VC + t * HT + u)); u64 me = SH_VC + t * HT + t; p1(s, me, mkBin(O_ADD, g1(s, me), mkConst(1, 8))); } }
static bool inRace(u64 a) { for (auto& r : g_race) if (a - r.a < r.n) return true; return false; }
static bool hbAccess(State& s, u64 a, u64 n, bool write) {
    if (!hbOn() || !s.threaded) return true; u32 t = s.cur; unsigned T = hbThreads(s); u64 last = ~0ull;
    for (u64 i = 0; i < n; i++) { if (!inRace(a + i)) continue; u64 ix = locIdx(a + i); if (ix == ~0ull || ix == last) continue; last = ix;
        E ok = mkTrue();
        for (unsigned u = 0; u < T; u++) if (u != t) { E vc = g1(s, SH_VC + t * HT + u); ok = mkAnd(ok, mkBin(O_ULE, g1(s, locAddr(ix, 1) + u), vc)); if (write) ok = mkAnd(ok, mkBin(O_ULE, g1(s, locAddr(ix, 2) + u), vc)); }
        if (!assertC(s, ok, "race", write ? "data race: write not ordered after a conflicting access" : "data race: read not ordered after a conflicting write")) return false;
        p1(s, locAddr(ix, write ? 1 : 2) + t, g1(s, SH_VC + t * HT + t)); }
    return true; }
