// builtin functions & intrinsics (included by symx.cpp)
enum BId { B_NONE = -1,
 B_sym8, B_sym16, B_sym32, B_sym64, B_symbool, B_symrange, B_symbytes, B_assume, B_assert, B_reach, B_merge, B_join, B_expect_fatal, B_no_fatal, B_shared, B_race, B_spawn, B_run, B_yield, B_concrete, B_note, B_native, B_crashed, B_atomic_b, B_atomic_e, B_exit, B_allow_deadlock, B_poison, B_unpoison, B_tid, B_symrangev, B_unshare,
 B_malloc, B_calloc, B_free, B_new, B_delete, B_memalign, B_alignednew,
 B_memcpy, B_memmove, B_memset, B_memcmp, B_strlen, B_strnlen, B_strcmp, B_strncmp, B_memchr, B_fatal, B_nop0, B_guard_acq, B_guard_rel, B_purevirt,
 B_iaddo, B_isubo, B_imulo, B_saddo, B_ssubo, B_smulo, B_uaddsat, B_usubsat, B_saddsat, B_ssubsat, B_umin, B_umax, B_smin, B_smax, B_abs, B_ctpop, B_ctlz, B_cttz, B_bswap, B_fshl, B_fshr, B_expect, B_objsize, B_isconst, B_copyptr, B_trap, B_tls, B_fabs, B_floor, B_ceil, B_stacksave, B_ptrmask, B_bitreverse, B_prefetch, B_retaddr, B_vacopy, B_loadrel };
static const std::map<std::string, int> bnames = {
 {"symx_u8", B_sym8}, {"symx_u16", B_sym16}, {"symx_u32", B_sym32}, {"symx_u64", B_sym64}, {"symx_bool", B_symbool}, {"symx_range", B_symrange}, {"symx_bytes", B_symbytes}, {"symx_assume", B_assume}, {"symx_assert", B_assert}, {"symx_reach", B_reach}, {"symx_merge", B_merge}, {"symx_join", B_join}, {"symx_expect_fatal", B_expect_fatal}, {"symx_no_fatal", B_no_fatal}, {"symx_shared", B_shared}, {"symx_unshare", B_unshare}, {"symx_race", B_race}, {"symx_spawn", B_spawn}, {"symx_run", B_run}, {"symx_yield", B_yield}, {"symx_concrete", B_concrete}, {"symx_note", B_note}, {"symx_native", B_native}, {"symx_crashed", B_crashed}, {"symx_atomic_begin", B_atomic_b}, {"symx_atomic_end", B_atomic_e}, {"symx_exit", B_exit}, {"symx_allow_deadlock", B_allow_deadlock}, {"symx_poison", B_poison}, {"symx_unpoison", B_unpoison}, {"symx_tid", B_tid},
 {"malloc", B_malloc}, {"calloc", B_calloc}, {"free", B_free}, {"_Znwm", B_new}, {"_Znam", B_new}, {"_ZnwmRKSt9nothrow_t", B_new}, {"_ZnamRKSt9nothrow_t", B_new}, {"_ZdlPv", B_delete}, {"_ZdaPv", B_delete}, {"_ZdlPvm", B_delete}, {"_ZdaPvm", B_delete}, {"_ZnwmSt11align_val_t", B_alignednew}, {"_ZnamSt11align_val_t", B_alignednew}, {"_ZdlPvSt11align_val_t", B_delete}, {"_ZdlPvmSt11align_val_t", B_delete}, {"aligned_alloc", B_memalign}, {"memalign", B_memalign},
 {"memcpy", B_memcpy}, {"memmove", B_memmove}, {"memset", B_memset}, {"memcmp", B_memcmp}, {"bcmp", B_memcmp}, {"strlen", B_strlen}, {"strnlen", B_strnlen}, {"strcmp", B_strcmp}, {"strncmp", B_strncmp}, {"memchr", B_memchr},
 {"abort", B_fatal}, {"_ZSt9terminatev", B_fatal}, {"__assert_fail", B_fatal}, {"exit", B_fatal}, {"_exit", B_fatal}, {"quick_exit", B_fatal}, {"__clang_call_terminate", B_fatal}, {"_ZSt20__throw_length_errorPKc", B_fatal}, {"_ZSt17__throw_bad_allocv", B_fatal}, {"_ZSt28__throw_bad_array_new_lengthv", B_fatal}, {"_ZSt20__throw_out_of_rangePKc", B_fatal}, {"_ZSt24__throw_out_of_range_fmtPKcz", B_fatal}, {"_ZSt19__throw_logic_errorPKc", B_fatal}, {"_ZSt25__throw_bad_function_callv", B_fatal}, {"_ZSt20__throw_system_errori", B_fatal}, {"__stack_chk_fail", B_fatal}, {"_ZSt24__throw_invalid_argumentPKc", B_fatal}, {"_ZSt18__throw_bad_variantv", B_fatal},
 {"__cxa_atexit", B_nop0}, {"atexit", B_nop0}, {"__cxa_thread_atexit", B_nop0}, {"fflush", B_nop0}, {"__cxa_guard_acquire", B_guard_acq}, {"__cxa_guard_release", B_guard_rel}, {"__cxa_guard_abort", B_nop0}, {"__cxa_pure_virtual", B_fatal}, {"_ZNSt8ios_base4InitC1Ev", B_nop0}, {"_ZNSt8ios_base4InitD1Ev", B_nop0}, {"setlocale", B_nop0} };
static const std::vector<std::pair<std::string, int>> iprefix = {
 {"llvm.memcpy.", B_memcpy}, {"llvm.memmove.", B_memmove}, {"llvm.memset.", B_memset}, {"llvm.uadd.with.overflow.", B_iaddo}, {"llvm.usub.with.overflow.", B_isubo}, {"llvm.umul.with.overflow.", B_imulo}, {"llvm.sadd.with.overflow.", B_saddo}, {"llvm.ssub.with.overflow.", B_ssubo}, {"llvm.smul.with.overflow.", B_smulo}, {"llvm.uadd.sat.", B_uaddsat}, {"llvm.usub.sat.", B_usubsat}, {"llvm.umin.", B_umin}, {"llvm.umax.", B_umax}, {"llvm.smin.", B_smin}, {"llvm.smax.", B_smax}, {"llvm.abs.", B_abs}, {"llvm.ctpop.", B_ctpop}, {"llvm.ctlz.", B_ctlz}, {"llvm.cttz.", B_cttz}, {"llvm.bswap.", B_bswap}, {"llvm.fshl.", B_fshl}, {"llvm.fshr.", B_fshr}, {"llvm.expect.", B_expect}, {"llvm.objectsize.", B_objsize}, {"llvm.is.constant.", B_isconst}, {"llvm.launder.invariant.group", B_copyptr}, {"llvm.strip.invariant.group", B_copyptr}, {"llvm.trap", B_fatal}, {"llvm.ubsantrap", B_fatal}, {"llvm.debugtrap", B_fatal}, {"llvm.threadlocal.address", B_copyptr}, {"llvm.fabs.", B_fabs}, {"llvm.floor.", B_floor}, {"llvm.ceil.", B_ceil}, {"llvm.stacksave", B_stacksave}, {"llvm.stackrestore", B_nop0}, {"llvm.bitreverse.", B_bitreverse}, {"llvm.prefetch", B_nop0}, {"llvm.returnaddress", B_nop0}, {"llvm.va_start", B_nop0}, {"llvm.va_end", B_nop0}, {"llvm.load.relative.", B_loadrel} };
static int builtinId(StringRef n) {
    auto it = bnames.find(n.str()); if (it != bnames.end()) return it->second;
    if (n.starts_with("llvm.")) for (auto& p : iprefix) if (n.starts_with(p.first)) return p.second;
    return B_NONE; }
enum BR { BR_OK, BR_DEAD, BR_PARK, BR_STAY };
static bool readCStr(State& s, u64 a, std::string& out) { out.clear(); for (unsigned i = 0; i < 4096; i++) { if (!s.mem.validRange(a + i, 1)) return false; E b = s.mem.getByteE(a + i); if (!isC(b)) { out += '?'; continue; } if (!b->v) return true; out += (char)b->v; } return false; }
static std::string nextName(State& s, const std::string& n) { u32 k = s.cnt[n]++; return k ? n + "#" + std::to_string(k) : n; }
static E inputVar(State& s, const std::string& full, unsigned w) { (void)s; if (replayMode) { auto it = replayVals.find(full); return mkConst(it == replayVals.end() ? 0 : it->second, w); } return mkVar(full, w); }
static u64 heapAlloc(State& s, u64 n, u64 al, int fill) {
    if (al < 16) al = 16; u64 a = (s.heapPtr + 32 + al - 1) / al * al; if (a + n + 64 > HEAP_END) return 0; s.heapPtr = a + (n ? n : 1) + 16; s.mem.setValid(a, n, true, fill); s.heap[a] = n; return a; }
static void setModel(State& s, E var, u128 v) { if (isC(var)) return; auto m = std::make_shared<Model>(*s.model); u32 i = (u32)var->v; if (m->size() <= i) m->resize(i + 1, 0); (*m)[i] = v; s.model = m; newEpoch(s); }
static bool assumeC(State& s, E c) { if (isT(c)) return true; if (isF(c)) { stAssumeKill++; return false; } std::shared_ptr<Model> m; Res r = feasible(s, c, m); if (r == Res::Unsat) { stAssumeKill++; return false; } if (m != s.model) { s.model = m; newEpoch(s); } addCond(s, c); return true; }
// check assertion; returns false if path is dead afterwards
static bool assertC(State& s, E c, const std::string& kind, const std::string& msg) {
    stAsserts++;
    if (isT(c)) return true;
    stAssertQ++;
    std::shared_ptr<Model> m; E nc = mkNot(c); Res r = feasible(s, nc, m);
    if (r == Res::Sat) { violation(s, kind, msg, m, nc); if (stopAll) return false; return assumeC(s, c); }
    if (r == Res::Unknown) { stopReason = "assertion query unknown: " + msg; addCond(s, c); }
    return true; }
#include "hb.inc"
static BR fatalCall(State& s, const std::string& name) {
    if (s.expectFatal) { stExpectedFatal++; reachLabels["fatal:" + s.expectLabel]++; return BR_DEAD; }
    violation(s, "fatal", "unexpected termination (" + llvm::demangle(name) + ")"); return BR_DEAD; }
static bool regionVisible(const std::vector<Val>& a, int id) { bool r = visibleAddr(a[0], a[2].c, true); if (id != B_memset && visibleAddr(a[1], a[2].c, false)) r = true; return r; }
static void traceOp(State& s, const char* what, u64 addr, u64 v) { if (!replayMode) return; char b[256]; snprintf(b, sizeof b, "T%u %s [0x%llx] %llu  ", s.cur, what, (unsigned long long)addr, (unsigned long long)v); auto st = stackOf(s); g_trace.push_back(std::string(b) + (st.size() ? st[0].substr(0, 300) : "")); g_schedLog.push_back(s.cur); }
static void wakeOthers(State& s) { for (u32 i = 0; i < s.th.size(); i++) if (i != s.cur) { if (s.th[i].stat == T_YIELDED) s.th[i].stat = T_READY; else s.th[i].dirty = true; } }
static BR callBuiltin(State& s, const DI& d, const CallInfo& ci, Func* bf, std::vector<Val>& a, Val* ret) {
    auto C = [&](int i) { return concretize(s, a[i], ci.widths[i]); };
    auto str = [&](int i) { std::string r; if (!a[i].e) readCStr(s, a[i].c, r); return r; };
    unsigned w = ci.widths.empty() ? 0 : ci.widths[0];
    switch (bf->builtin) {
    case B_sym8: case B_sym16: case B_sym32: case B_sym64: { unsigned vw = 8u << (bf->builtin - B_sym8); ret[0] = fromE(inputVar(s, nextName(s, str(0)), vw)); return BR_OK; }
    case B_symbool: ret[0] = fromE(mkZext(inputVar(s, nextName(s, str(0)), 1), d.w == 1 ? 1 : d.w)); return BR_OK;
    case B_symrange: { C(1); C(2); u64 lo = a[1].c, hi = a[2].c; std::string nm = nextName(s, str(0)); unsigned bits = 1; while (bits < 64 && (hi >> bits)) bits++;
        if (lo > hi) { unsupported(s, "empty range"); return BR_DEAD; }
        E v = inputVar(s, nm, bits); if (lo == hi) { ret[0] = VC(lo); return BR_OK; } if (!isC(v)) { setModel(s, v, lo); addCond(s, mkBin(O_ULE, mkConst(lo, bits), v)); addCond(s, mkBin(O_ULE, v, mkConst(hi, bits))); } ret[0] = fromE(mkZext(v, 64)); return BR_OK; }
    case B_symbytes: { C(0); C(1); std::string nm = nextName(s, str(2)); for (u64 i = 0; i < a[1].c; i++) { if (!s.mem.validRange(a[0].c + i, 1)) { oob(s, a[0].c + i, 1, "write"); return BR_DEAD; } s.mem.putByte(a[0].c + i, inputVar(s, nm + "[" + std::to_string(i) + "]", 8), 0); } return BR_OK; }
    case B_assume: return assumeC(s, w == 1 ? toE(a[0], 1) : mkNot(mkEq(toE(a[0], w), mkConst(0, w)))) ? BR_OK : BR_DEAD;
    case B_assert: { E c = w == 1 ? toE(a[0], 1) : mkNot(mkEq(toE(a[0], w), mkConst(0, w))); std::string m = str(1); assertHits[m]++; return assertC(s, c, "assert", m) ? BR_OK : BR_DEAD; }
    case B_reach: C(0); reachLabels[str(0)]++; return BR_OK;
    case B_note: { if (replayMode) { u64 v = a[1].e ? 0 : a[1].c; g_trace.push_back("note " + str(0) + " = " + std::to_string(v)); } return BR_OK; }
    case B_native: ret[0] = VC(0); return BR_OK;
    case B_tid: ret[0] = VC(s.cur); return BR_OK;
    case B_join: C(0); s.tag = a[0].c | (1ull << 63); if (s.threaded) return BR_OK; if (!g_base) g_base = cloneState(s); return BR_PARK;
    case B_merge: C(0); s.tag = a[0].c; if (s.threaded) return BR_OK; return BR_PARK;
    case B_expect_fatal: s.expectFatal = true; s.expectLabel = str(0); return BR_OK;
    case B_no_fatal: s.expectFatal = false; return BR_OK;
    case B_shared: C(0); C(1); { bool have = false; for (auto& r : g_shared) if (r.a == a[0].c && r.n == a[1].c) have = true; if (!have) { g_shared.push_back({a[0].c, a[1].c}); for (auto& w : g_writtenImport) if (w.first == g_shared.size() - 1) g_written.insert(a[0].c + w.second); } } return BR_OK;
    case B_unshare: g_shared.clear(); g_race.clear(); return BR_OK;
    case B_race: C(0); C(1); { bool have = false; for (auto& r : g_race) if (r.a == a[0].c && r.n == a[1].c) have = true; if (!have) g_race.push_back({a[0].c, a[1].c}); } return BR_OK;
    case B_allow_deadlock: s.allowDeadlock = true; return BR_OK;
    case B_poison: C(0); C(1); s.mem.setValid(a[0].c, a[1].c, false, -1); return BR_OK;
    case B_unpoison: C(0); C(1); s.mem.setValid(a[0].c, a[1].c, true, -1); return BR_OK;
    case B_concrete: C(0); ret[0] = a[0]; return BR_OK;
    case B_crashed: C(0); ret[0] = VC(a[0].c < s.th.size() && s.th[a[0].c].stat == T_CRASHED); return BR_OK;
    case B_atomic_b: s.atomicSec = true; return BR_OK;
    case B_atomic_e: s.atomicSec = false; return BR_OK;
    case B_exit: stPaths++; return BR_DEAD;
    case B_spawn: { C(0); C(1); C(2); auto it = faddr.find(a[0].c); if (it == faddr.end() || it->second->F->isDeclaration()) { unsupported(s, "spawn target"); return BR_DEAD; } Func* tf = it->second; decode(tf); Thread t; t.sp = STACK_BASE + s.th.size() * STACK_SZ; t.crashable = a[2].c & 1; Frame fr; fr.f = tf; fr.pc = 0; fr.r.assign(tf->nregs, VC(0)); if (tf->F->arg_size()) fr.r[0] = a[1]; fr.sp0 = t.sp; fr.retDst = -1; fr.nret = 0; t.st.push_back(fr); tf->executed = true; if (s.th.size() >= 8) { unsupported(s, "too many threads"); return BR_DEAD; } ret[0] = VC(s.th.size()); s.th.push_back(std::move(t)); return BR_OK; }
    case B_run: s.waitMain = true; return BR_STAY;
    case B_yield: if (s.threaded && !s.atomicSec) { auto& yt = s.th[s.cur]; if (yt.dirty) { yt.dirty = false; return BR_OK; } yt.stat = T_YIELDED; return BR_PARK; } return BR_OK;
    case B_malloc: case B_new: C(0); { u64 p = heapAlloc(s, a[0].c, 16, 0xA5); if (!p) { unsupported(s, "heap exhausted"); return BR_DEAD; } ret[0] = VC(p); return BR_OK; }
    case B_alignednew: C(0); C(1); { u64 p = heapAlloc(s, a[0].c, a[1].c, 0xA5); if (!p) { unsupported(s, "heap exhausted"); return BR_DEAD; } ret[0] = VC(p); return BR_OK; }
    case B_memalign: C(0); C(1); { u64 p = heapAlloc(s, a[1].c, a[0].c, 0xA5); if (!p) { unsupported(s, "heap exhausted"); return BR_DEAD; } ret[0] = VC(p); return BR_OK; }
    case B_calloc: C(0); C(1); { u64 p = heapAlloc(s, a[0].c * a[1].c, 16, 0); if (!p) { unsupported(s, "heap exhausted"); return BR_DEAD; } ret[0] = VC(p); return BR_OK; }
    case B_free: case B_delete: { C(0); if (!a[0].c) return BR_OK; auto it = s.heap.find(a[0].c); if (it == s.heap.end()) { violation(s, "memory", "invalid or double free"); return BR_DEAD; } s.mem.setValid(it->first, it->second, false, 0); s.heap.erase(it); return BR_OK; }
    case B_memcpy: case B_memmove: { C(0); C(1); C(2); u64 n = a[2].c; if (!n) { if (ret) ret[0] = a[0]; return BR_OK; }
        if (n > MEM_LIMIT || !s.mem.validRange(a[1].c, n)) { oob(s, a[1].c, n, "read (copy)"); return BR_DEAD; } if (!s.mem.validRange(a[0].c, n)) { oob(s, a[0].c, n, "write (copy)"); return BR_DEAD; }
        if (s.threaded) { if (!hbAccess(s, a[1].c, n, false) || !hbAccess(s, a[0].c, n, true)) return BR_DEAD; if (isShared(a[0].c)) wakeOthers(s); traceOp(s, "memcpy", a[0].c, n); }
        s.mem.copyBytes(a[0].c, a[1].c, n); if (ci.nret) ret[0] = a[0]; return BR_OK; }
    case B_memset: { C(0); C(2); u64 n = a[2].c; if (n) { if (n > MEM_LIMIT || !s.mem.validRange(a[0].c, n)) { oob(s, a[0].c, n, "write (set)"); return BR_DEAD; }
        if (s.threaded) { if (!hbAccess(s, a[0].c, n, true)) return BR_DEAD; if (isShared(a[0].c)) wakeOthers(s); traceOp(s, "memset", a[0].c, n); }
        E b = toE(a[1], ci.widths[1]); if (b->w > 8) b = mkExtract(b, 0, 8); if (isC(b)) { std::vector<u8> buf(n, (u8)b->v); for (u64 i = 0; i < n; i++) s.mem.putC(a[0].c + i, &buf[i], 1); } else for (u64 i = 0; i < n; i++) s.mem.putByte(a[0].c + i, b, 0); }
        if (ci.nret) ret[0] = a[0]; return BR_OK; }
    case B_memcmp: { C(0); C(1); C(2); u64 n = a[2].c; if (n && (!s.mem.validRange(a[0].c, n) || !s.mem.validRange(a[1].c, n))) { oob(s, a[0].c, n, "read (compare)"); return BR_DEAD; }
        E r = mkConst(0, 32); for (u64 i = n; i-- > 0;) { E x = s.mem.getByteE(a[0].c + i), y = s.mem.getByteE(a[1].c + i); r = mkIte(mkEq(x, y), r, mkIte(mkBin(O_ULT, x, y), mkConst(0xffffffff, 32), mkConst(1, 32))); } ret[0] = fromE(r); return BR_OK; }
    case B_strlen: case B_strnlen: { C(0); u64 lim = ~0ull; if (bf->builtin == B_strnlen) { C(1); lim = a[1].c; } std::vector<E> bs; bool closed = false;
        for (u64 i = 0; i < lim && i < 1u << 20; i++) { if (!s.mem.validRange(a[0].c + i, 1)) { E all = mkTrue(); for (E b : bs) all = mkAnd(all, mkNot(mkEq(b, mkConst(0, 8)))); std::shared_ptr<Model> m; Res r = feasible(s, all, m); if (r != Res::Unsat) { oob(s, a[0].c + i, 1, "read (strlen)", m, all); if (!assumeC(s, mkNot(all))) return BR_DEAD; } closed = true; break; }
            E b = s.mem.getByteE(a[0].c + i); bs.push_back(b); if (isF(b)) { closed = true; break; } }
        (void)closed; E r = mkConst(bs.size(), 64); for (size_t i = bs.size(); i-- > 0;) r = mkIte(mkEq(bs[i], mkConst(0, 8)), mkConst(i, 64), r); ret[0] = fromE(r); return BR_OK; }
    case B_strcmp: case B_strncmp: { C(0); C(1); u64 lim = 1u << 16; if (bf->builtin == B_strncmp) { C(2); lim = a[2].c; } std::vector<std::pair<E, E>> ps;
        for (u64 i = 0; i < lim; i++) { if (!s.mem.validRange(a[0].c + i, 1) || !s.mem.validRange(a[1].c + i, 1)) { E all = mkTrue(); for (auto& p : ps) all = mkAnd(all, mkAnd(mkEq(p.first, p.second), mkNot(mkEq(p.first, mkConst(0, 8))))); std::shared_ptr<Model> m; if (feasible(s, all, m) != Res::Unsat) { oob(s, a[0].c, i, "read (strcmp)", m, all); if (!assumeC(s, mkNot(all))) return BR_DEAD; } break; }
            E x = s.mem.getByteE(a[0].c + i), y = s.mem.getByteE(a[1].c + i); ps.push_back({x, y}); if (isF(x) || isF(y)) break; if (isC(x) && isC(y) && x != y) break; }
        E r = mkConst(0, 32); for (size_t i = ps.size(); i-- > 0;) { E x = ps[i].first, y = ps[i].second; r = mkIte(mkEq(x, y), mkIte(mkEq(x, mkConst(0, 8)), mkConst(0, 32), r), mkIte(mkBin(O_ULT, x, y), mkConst(0xffffffff, 32), mkConst(1, 32))); } ret[0] = fromE(r); return BR_OK; }
    case B_memchr: { C(0); C(2); E c = mkExtract(toE(a[1], 32), 0, 8); if (a[2].c && !s.mem.validRange(a[0].c, a[2].c)) { oob(s, a[0].c, a[2].c, "read (memchr)"); return BR_DEAD; } E r = mkConst(0, 64); for (u64 i = a[2].c; i-- > 0;) r = mkIte(mkEq(s.mem.getByteE(a[0].c + i), c), mkConst(a[0].c + i, 64), r); ret[0] = fromE(r); return BR_OK; }
    case B_fatal: return fatalCall(s, bf->name);
    case B_nop0: for (u32 i = 0; i < ci.nret; i++) ret[i] = VC(0); return BR_OK;
    case B_guard_acq: { u8 b; s.mem.getC(a[0].c, &b, 1); ret[0] = VC(!b); return BR_OK; }
    case B_guard_rel: { u8 b = 1; s.mem.putC(a[0].c, &b, 1); return BR_OK; }
    case B_iaddo: case B_isubo: case B_imulo: case B_saddo: case B_ssubo: case B_smulo: {
        E x = toE(a[0], w), y = toE(a[1], w); int id = bf->builtin; bool sg = id >= B_saddo; Op op = (id == B_iaddo || id == B_saddo) ? O_ADD : (id == B_isubo || id == B_ssubo) ? O_SUB : O_MUL; E r = mkBin(op, x, y); E o;
        if (op == O_MUL) { unsigned W = 2 * w; if (W > 128) { if (!isC(x) || !isC(y)) {
                    // overflow of wide multiplication: use division test
                    if (sg) { unsupported(s, "smul.overflow wide"); return BR_DEAD; }
                    o = mkAnd(mkNot(mkEq(y, mkConst(0, w))), mkBin(O_ULT, mkBin(O_UDIV, mkConst(~(u128)0, w), y), x)); } else { unsupported(s, "umulo i128 const"); return BR_DEAD; } }
            else { E X = sg ? mkSext(x, W) : mkZext(x, W), Y = sg ? mkSext(y, W) : mkZext(y, W); E P = mkBin(O_MUL, X, Y); o = mkNot(mkEq(P, sg ? mkSext(r, W) : mkZext(r, W))); } }
        else if (!sg) o = op == O_ADD ? mkBin(O_ULT, r, x) : mkBin(O_ULT, x, y);
        else { E X = mkSext(x, w + 1), Y = mkSext(y, w + 1); E P = mkBin(op, X, Y); o = mkNot(mkEq(P, mkSext(r, w + 1))); }
        ret[0] = fromE(r); ret[1] = fromE(o); return BR_OK; }
    case B_uaddsat: { E x = toE(a[0], w), y = toE(a[1], w); E r = mkBin(O_ADD, x, y); ret[0] = fromE(mkIte(mkBin(O_ULT, r, x), mkConst(~(u128)0, w), r)); return BR_OK; }
    case B_usubsat: { E x = toE(a[0], w), y = toE(a[1], w); ret[0] = fromE(mkIte(mkBin(O_ULT, x, y), mkConst(0, w), mkBin(O_SUB, x, y))); return BR_OK; }
    case B_umin: { E x = toE(a[0], w), y = toE(a[1], w); ret[0] = fromE(mkIte(mkBin(O_ULT, x, y), x, y)); return BR_OK; }
    case B_umax: { E x = toE(a[0], w), y = toE(a[1], w); ret[0] = fromE(mkIte(mkBin(O_ULT, x, y), y, x)); return BR_OK; }
    case B_smin: { E x = toE(a[0], w), y = toE(a[1], w); ret[0] = fromE(mkIte(mkBin(O_SLT, x, y), x, y)); return BR_OK; }
    case B_smax: { E x = toE(a[0], w), y = toE(a[1], w); ret[0] = fromE(mkIte(mkBin(O_SLT, x, y), y, x)); return BR_OK; }
    case B_abs: { E x = toE(a[0], w); ret[0] = fromE(mkIte(mkBin(O_SLT, x, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), x), x)); return BR_OK; }
    case B_ctpop: { E x = toE(a[0], w); E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(O_ADD, r, mkZext(mkExtract(x, i, 1), w)); ret[0] = fromE(r); return BR_OK; }
    case B_ctlz: { E x = toE(a[0], w); E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); ret[0] = fromE(r); return BR_OK; }
    case B_cttz: { E x = toE(a[0], w); E r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); ret[0] = fromE(r); return BR_OK; }
    case B_bswap: { E x = toE(a[0], w); E r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } ret[0] = fromE(r); return BR_OK; }
    case B_fshl: case B_fshr: { C(2); u64 sh = a[2].c % w; E x = toE(a[0], w), y = toE(a[1], w); if (bf->builtin == B_fshl) ret[0] = fromE(sh ? mkConcat(mkExtract(x, 0, w - sh), mkExtract(y, w - sh, sh)) : x); else ret[0] = fromE(sh ? mkConcat(mkExtract(x, 0, sh), mkExtract(y, sh, w - sh)) : y); return BR_OK; }
    case B_expect: case B_copyptr: ret[0] = a[0]; return BR_OK;
    case B_objsize: { ret[0] = VC((!a[1].e && a[1].c) ? 0 : m64(~0ull, d.w)); return BR_OK; }
    case B_isconst: ret[0] = VC(0); return BR_OK;
    case B_stacksave: ret[0] = VC(0); return BR_OK;
    case B_fabs: case B_floor: case B_ceil: { if (a[0].e) { unsupported(s, "symbolic fp"); return BR_DEAD; } if (w == 64) { double x; memcpy(&x, &a[0].c, 8); x = bf->builtin == B_fabs ? fabs(x) : bf->builtin == B_floor ? floor(x) : ceil(x); memcpy(&ret[0].c, &x, 8); } else { float x; u32 t = a[0].c; memcpy(&x, &t, 4); x = bf->builtin == B_fabs ? fabsf(x) : bf->builtin == B_floor ? floorf(x) : ceilf(x); memcpy(&t, &x, 4); ret[0].c = t; } ret[0].e = nullptr; return BR_OK; }
    case B_loadrel: { C(0); C(1); u32 off = 0; s.mem.getC(a[0].c + a[1].c, (u8*)&off, 4); ret[0] = VC(a[0].c + (i64)(int32_t)off); return BR_OK; }
    default: break;
    }
    unsupported(s, "builtin " + bf->name); return BR_DEAD;
}
