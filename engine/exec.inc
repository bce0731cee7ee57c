// interpreter loop, scheduler, state merging, main (included by symx.cpp)
static inline const Val& rv(const Frame& f, int o) { return o >= 0 ? f.r[o] : cpool[~o]; }
static void park(State* s);
static void dispatch(State* s);
static void jump(Frame& f, u32 edge) {
    const Edge& e = f.f->edges[edge];
    if (!e.moves.empty()) { if (e.moves.size() == 1) f.r[e.moves[0].first] = rv(f, e.moves[0].second); else { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.moves.size() > 64) { big.resize(e.moves.size()); t = big.data(); } for (size_t i = 0; i < e.moves.size(); i++) t[i] = rv(f, e.moves[i].second); for (size_t i = 0; i < e.moves.size(); i++) f.r[e.moves[i].first] = t[i]; } }
    f.pc = e.target;
}
static u64 stackAlloc(State& s, u64 n, u64 al) { Thread& t = s.th[s.cur]; if (al < 16) al = 16; u64 a = (t.sp + 16 + al - 1) / al * al; t.sp = a + (n ? n : 1) + 16; u64 lim = STACK_BASE + (s.cur + 1) * STACK_SZ; if (t.sp > lim) return 0; s.mem.setValid(a, n, true, 0xA5); return a; }
static void popFrame(State& s, Thread& t) { Frame& f = t.st.back(); if (t.sp > f.sp0) s.mem.setValid(f.sp0, t.sp - f.sp0, false, 0); t.sp = f.sp0; t.st.pop_back(); }
static bool pushCall(State& s, Func* cf, const std::vector<Val>& args, const CallInfo* ci, int retDst, u32 nret) {
    decode(cf); Thread& t = s.th[s.cur]; if (t.st.size() > 400) { violation(s, "stack", "call depth exceeded"); return false; }
    Frame nf; nf.f = cf; nf.pc = 0; nf.sp0 = t.sp; nf.retDst = retDst; nf.nret = nret; nf.r.assign(cf->nregs, VC(0)); cf->executed = true;
    size_t na = 0; for (auto& A : cf->F->args()) na += slotsOf(A.getType()).size();
    for (size_t i = 0; i < args.size() && i < na; i++) { nf.r[i] = args[i];
        if (ci && ci->byval[i].first) { u64 p = stackAlloc(s, ci->byval[i].first, ci->byval[i].second); if (!p || args[i].e) { unsupported(s, "byval"); return false; } s.mem.copyBytes(p, args[i].c, ci->byval[i].first); nf.r[i] = VC(p); } }
    t.st.push_back(std::move(nf)); return true;
}
static E cmpE(unsigned pred, E a, E b) {
    switch (pred) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); case CmpInst::ICMP_ULT: return mkBin(O_ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(O_ULE, a, b); case CmpInst::ICMP_UGT: return mkBin(O_ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(O_ULE, b, a); case CmpInst::ICMP_SLT: return mkBin(O_SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(O_SLE, a, b); case CmpInst::ICMP_SGT: return mkBin(O_SLT, b, a); case CmpInst::ICMP_SGE: return mkBin(O_SLE, b, a); }
    abort(); }
static double asF(const Val& v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v.c, 8); return d; } float f; u32 t = (u32)v.c; memcpy(&f, &t, 4); return f; }
static Val mkF(double d, unsigned w) { if (w == 64) { u64 t; memcpy(&t, &d, 8); return VC(t); } float f = (float)d; u32 t; memcpy(&t, &f, 4); return VC(t); }
static u64 tickCtr = 0;
static void checkLimits() { if (now() > optTimeout) { stopAll = true; stopReason = "timeout"; } if (optMaxInstr && stInstr > optMaxInstr) { stopAll = true; stopReason = "max-instr"; }
    FILE* f = fopen("/proc/self/statm", "r"); if (f) { unsigned long a = 0, b = 0; if (fscanf(f, "%lu %lu", &a, &b) == 2 && b * 4096 / 1048576 > optMaxMemMB) { stopAll = true; stopReason = "memory-limit"; } fclose(f); } }

// returns when the state ended, parked, or was handed to dispatch
static void run(State* sp) {
    State& s = *sp;
#define DIE do { endState(sp); return; } while (0)
#define VISIBLE(addrv, nb, wr) bool vis = false; if (s.threaded) { vis = visibleAddr(addrv, nb, wr); if (needRestart) DIE; if (vis && !s.atomicSec) { if (!s.budget) { park(sp); return; } s.budget--; } }
    auto accSize = [](const MemAcc& ac) { u64 n = 0; for (auto& x : ac.slots) n = x.off + (x.w + 7) / 8; return n; };
    for (;;) {
        if (stopAll || needRestart) DIE;
        Thread& t = s.th[s.cur]; Frame& f = t.st.back(); const DI& d = f.f->code[f.pc];
        stInstr++; s.instrs++; f.f->instrs++;
        if ((++tickCtr & 0x3fff) == 0) { checkLimits(); if (s.instrs > optMaxPathInstr) { stTrunc++; unsupported(s, "path instruction limit"); DIE; } }
        switch (d.op) {
        case D_BIN: { const Val &a = rv(f, d.ops[0]), &b = rv(f, d.ops[1]); Op op = (Op)d.sub;
            if (op >= O_UDIV && op <= O_SREM) { E y = toE(b, d.w); if (!assertC(s, mkNot(mkEq(y, mkConst(0, d.w))), "arith", "division by zero")) DIE; }
            if (!a.e && !b.e && d.w <= 64) { u64 x = a.c, y = b.c, r = 0; switch (op) { case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break; default: r = (u64)foldBin(op, x, y, d.w); } f.r[d.dst] = VC(m64(r, d.w)); }
            else f.r[d.dst] = fromE(mkBin(op, toE(a, d.w), toE(b, d.w)));
            f.pc++; break; }
        case D_CMP: { const Val &a = rv(f, d.ops[0]), &b = rv(f, d.ops[1]);
            if (!a.e && !b.e && d.w <= 64) { u64 x = a.c, y = b.c; i64 sx = s64(x, d.w), sy = s64(y, d.w); bool r = false; switch (d.sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; } f.r[d.dst] = VC(r); }
            else f.r[d.dst] = fromE(cmpE(d.sub, toE(a, d.w), toE(b, d.w)));
            f.pc++; break; }
        case D_ZEXT: { const Val& a = rv(f, d.ops[0]); if (!a.e && d.w <= 64) f.r[d.dst] = a; else f.r[d.dst] = fromE(mkZext(toE(a, d.aux), d.w)); f.pc++; break; }
        case D_SEXT: { const Val& a = rv(f, d.ops[0]); if (!a.e && d.w <= 64) f.r[d.dst] = VC(m64((u64)s64(a.c, d.aux), d.w)); else f.r[d.dst] = fromE(mkSext(toE(a, d.aux), d.w)); f.pc++; break; }
        case D_TRUNC: { const Val& a = rv(f, d.ops[0]); if (!a.e) f.r[d.dst] = VC(m64(a.c, d.w)); else f.r[d.dst] = fromE(mkExtract(a.e, 0, d.w)); f.pc++; break; }
        case D_COPY: f.r[d.dst] = rv(f, d.ops[0]); f.pc++; break;
        case D_SELECT: { const Val& c = rv(f, d.ops[0]); if (!c.e) f.r[d.dst] = c.c ? rv(f, d.ops[1]) : rv(f, d.ops[2]); else { const Val &a = rv(f, d.ops[1]), &b = rv(f, d.ops[2]); f.r[d.dst] = fromE(mkIte(c.e, toE(a, d.w), toE(b, d.w))); } f.pc++; break; }
        case D_GEP: { const GepInfo& g = f.f->geps[d.aux]; Val b = rv(f, d.ops[0]); 
            if (!b.e) { u64 x = b.c + g.off; bool sym = false; for (size_t i = 0; i < g.idx.size(); i++) { const Val& v = rv(f, g.idx[i].first); if (v.e) { sym = true; break; } x += (u64)s64(v.c, g.iw[i]) * g.idx[i].second; } if (!sym) { f.r[d.dst] = VC(x); f.pc++; break; } }
            E e = mkBin(O_ADD, toE(b, 64), mkConst(g.off, 64)); for (size_t i = 0; i < g.idx.size(); i++) { E v = toE(rv(f, g.idx[i].first), g.iw[i]); if (v->w < 64) v = mkSext(v, 64); else if (v->w > 64) v = mkExtract(v, 0, 64); e = mkBin(O_ADD, e, mkBin(O_MUL, v, mkConst(g.idx[i].second, 64))); }
            f.r[d.dst] = fromE(e); f.pc++; break; }
        case D_ALLOCA: { Val n = rv(f, d.ops[0]); if (!concretize(s, n, 64)) DIE; u64 a = stackAlloc(s, n.c * d.aux, d.w); if (!a) { violation(s, "stack", "stack exhausted"); DIE; } f.r[d.dst] = VC(a); f.pc++; break; }
        case D_LOAD: { Val a = rv(f, d.ops[0]); const MemAcc& ac = f.f->accs[d.aux]; if (s.threaded && a.e && (optMergeEq || hbOn() || !a.e->cl)) concretize(s, a, 64); VISIBLE(a, accSize(ac), false);
            if (s.threaded && !a.e && isShared(a.c)) { if (ac.ord == AtomicOrdering::NotAtomic) { if (!hbAccess(s, a.c, accSize(ac), false)) DIE; } else hbAtomic(s, a.c, true, false, ac.ord); }
            for (size_t i = 0; i < ac.slots.size(); i++) { Val x = a; if (ac.slots[i].off) x = a.e ? fromE(mkBin(O_ADD, a.e, mkConst(ac.slots[i].off, 64))) : VC(a.c + ac.slots[i].off); Val out; if (!memLoad(s, x, ac.slots[i].w, out)) DIE; s.th[s.cur].st.back().r[d.dst + i] = out; }
            if (replayMode && vis) traceOp(s, "load", a.c, f.r[d.dst].c);
            f.pc++; break; }
        case D_STORE: { Val a = rv(f, d.ops[0]); const MemAcc& ac = f.f->accs[d.aux]; if (s.threaded && a.e && (optMergeEq || hbOn() || !a.e->cl)) concretize(s, a, 64); VISIBLE(a, accSize(ac), true);
            if (vis) { wakeOthers(s); if (!a.e) { if (ac.ord == AtomicOrdering::NotAtomic) { if (!hbAccess(s, a.c, accSize(ac), true)) DIE; } else hbAtomic(s, a.c, false, true, ac.ord); } }
            for (size_t i = 0; i < ac.slots.size(); i++) { Val x = a; if (ac.slots[i].off) x = a.e ? fromE(mkBin(O_ADD, a.e, mkConst(ac.slots[i].off, 64))) : VC(a.c + ac.slots[i].off); if (!memStore(s, x, ac.slots[i].w, rv(f, d.ops[1 + i]))) DIE; }
            if (replayMode && vis) traceOp(s, "store", a.c, rv(f, d.ops[1]).c);
            f.pc++; break; }
        case D_CMPXCHG: { Val a = rv(f, d.ops[0]); if (s.threaded && a.e && (optMergeEq || hbOn() || !a.e->cl)) concretize(s, a, 64); VISIBLE(a, (d.w + 7) / 8, true); Val old; if (!memLoad(s, a, d.w, old)) DIE; E o = toE(old, d.w), ex = toE(rv(f, d.ops[1]), d.w), nv = toE(rv(f, d.ops[2]), d.w); E eq = mkEq(o, ex);
            // fork on the outcome so that control flow and memory stay precise
            if (!isC(eq)) { std::shared_ptr<Model> m; bool cur = evalB(s, eq); E other = cur ? mkNot(eq) : eq; Res r = feasible(s, other, m);
                if (r != Res::Unsat) { State* n = cloneState(s); addCond(*n, other); n->model = m; newEpoch(*n); n->budget = s.budget + (vis && !s.atomicSec ? 1 : 0); stForks++; 
                    // make the outcome syntactically decided in the clone by executing it here
                    Frame& nf = n->th[n->cur].st.back(); bool ok = !cur; nf.r[d.dst] = old; nf.r[d.dst + 1] = VC(ok); n->budget = s.budget; if (vis && !a.e) hbAtomic(*n, a.c, true, ok, f.f->accs[d.aux + (ok ? 0 : 1)].ord); if (ok) { if (vis) wakeOthers(*n); if (!memStore(*n, a, d.w, rv(nf, d.ops[2]))) { endState(n); n = nullptr; } } if (n) { n->th[n->cur].st.back().pc++; work.push_back(n); } }
                addCond(s, cur ? eq : mkNot(eq)); eq = mkConst(cur, 1); }
            bool ok = isT(eq); f.r[d.dst] = old; f.r[d.dst + 1] = VC(ok); if (vis && !a.e) hbAtomic(s, a.c, true, ok, f.f->accs[d.aux + (ok ? 0 : 1)].ord);
            if (ok) { if (vis) wakeOthers(s); if (!memStore(s, a, d.w, fromE(nv))) DIE; }
            if (replayMode && vis) traceOp(s, ok ? "cas-ok" : "cas-fail", a.c, old.c);
            f.pc++; break; }
        case D_RMW: { Val a = rv(f, d.ops[0]); if (s.threaded && a.e && (optMergeEq || hbOn() || !a.e->cl)) concretize(s, a, 64); VISIBLE(a, (d.w + 7) / 8, true); Val old; if (!memLoad(s, a, d.w, old)) DIE; E o = toE(old, d.w), v = toE(rv(f, d.ops[1]), d.w), r = nullptr;
            switch (d.sub) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = mkBin(O_ADD, o, v); break; case AtomicRMWInst::Sub: r = mkBin(O_SUB, o, v); break; case AtomicRMWInst::And: r = mkBin(O_AND, o, v); break; case AtomicRMWInst::Or: r = mkBin(O_OR, o, v); break; case AtomicRMWInst::Xor: r = mkBin(O_XOR, o, v); break; case AtomicRMWInst::UMax: r = mkIte(mkBin(O_ULT, o, v), v, o); break; case AtomicRMWInst::UMin: r = mkIte(mkBin(O_ULT, o, v), o, v); break; case AtomicRMWInst::Max: r = mkIte(mkBin(O_SLT, o, v), v, o); break; case AtomicRMWInst::Min: r = mkIte(mkBin(O_SLT, o, v), o, v); break; default: break; }
            if (!r) { unsupported(s, "rmw op"); DIE; }
            if (vis) { if (r != o) wakeOthers(s); if (!a.e) hbAtomic(s, a.c, true, true, f.f->accs[d.aux].ord); }
            f.r[d.dst] = old; if (!memStore(s, a, d.w, fromE(r))) DIE; if (replayMode && vis) traceOp(s, "rmw", a.c, old.c); f.pc++; break; }
        case D_FENCE: hbFence(s, (AtomicOrdering)d.sub); f.pc++; break;
        case D_BR: jump(f, d.aux); break;
        case D_CBR: { const Val& c = rv(f, d.ops[0]); if (!c.e) { jump(f, c.c ? d.aux : d.aux + 1); break; }
            E ce = c.e; bool cur = evalB(s, ce); std::shared_ptr<Model> m; E other = cur ? mkNot(ce) : ce; Res r = feasible(s, other, m);
            if (r != Res::Unsat) { State* n = cloneState(s); addCond(*n, other); n->model = m; newEpoch(*n); n->depth++; jump(n->th[n->cur].st.back(), cur ? d.aux + 1 : d.aux); work.push_back(n); stForks++; addCond(s, cur ? ce : mkNot(ce)); s.depth++; }
            jump(f, cur ? d.aux : d.aux + 1); break; }
        case D_SWITCH: { Val c = rv(f, d.ops[0]); const SwitchInfo& si = f.f->sws[d.aux];
            if (!c.e) { u32 e = si.def; for (auto& p : si.cases) if (p.first == c.c) { e = p.second; break; } jump(f, e); break; }
            // group by target edge; fork per feasible case
            E rest = mkTrue(); u64 cv = (u64)evalV(s, c.e); u32 ce = si.def; bool isCase = false; for (auto& p : si.cases) if (p.first == cv) { ce = p.second; isCase = true; break; }
            for (auto& p : si.cases) rest = mkAnd(rest, mkNot(mkEq(c.e, mkConst(p.first, d.w))));
            for (auto& p : si.cases) { if (isCase && p.first == cv) continue; E eq = mkEq(c.e, mkConst(p.first, d.w)); std::shared_ptr<Model> m; if (feasible(s, eq, m) != Res::Unsat) { State* n = cloneState(s); addCond(*n, eq); n->model = m; newEpoch(*n); jump(n->th[n->cur].st.back(), p.second); work.push_back(n); stForks++; } }
            if (isCase) { std::shared_ptr<Model> m; if (feasible(s, rest, m) != Res::Unsat) { State* n = cloneState(s); addCond(*n, rest); n->model = m; newEpoch(*n); jump(n->th[n->cur].st.back(), si.def); work.push_back(n); stForks++; } addCond(s, mkEq(c.e, mkConst(cv, d.w))); } else addCond(s, rest);
            jump(f, ce); break; }
        case D_RET: { Val rvs[16]; std::vector<Val> big; size_t n = d.ops.size(); Val* rr = rvs; if (n > 16) { big.resize(n); rr = big.data(); } for (size_t i = 0; i < n; i++) rr[i] = rv(f, d.ops[i]); int rd = f.retDst; popFrame(s, t);
            if (t.st.empty()) { if (s.cur == 0) { stPaths++; DIE; } t.stat = T_DONE; park(sp); return; }
            Frame& cf = t.st.back(); if (rd >= 0) for (size_t i = 0; i < n; i++) cf.r[rd + i] = rr[i]; break; }
        case D_CALL: { const CallInfo& ci = f.f->calls[d.aux]; 
            if (d.sub == 1) { f.pc++; if (d.dst >= 0) for (u32 i = 0; i < ci.nret; i++) f.r[d.dst + i] = VC(0); break; } // inline asm (cpu pause / barriers): no effect
            Func* cf = ci.direct; if (!cf) { Val cv = rv(f, ci.callee); if (!concretize(s, cv, 64)) DIE; auto it = faddr.find(cv.c); if (it == faddr.end()) { violation(s, "memory", "call through invalid function pointer"); DIE; } cf = it->second; }
            std::vector<Val> args; args.reserve(ci.args.size()); for (int o : ci.args) args.push_back(rv(f, o));
            if (cf->builtin >= 0) {
                if (s.threaded && !s.atomicSec && (cf->builtin == B_memcpy || cf->builtin == B_memmove || cf->builtin == B_memset)) {
                    for (int k = 0; k < 3; k++) if (!(cf->builtin == B_memset && k == 1)) concretize(s, args[k], ci.widths[k]);
                    bool rvis = !args[2].e && args[2].c && regionVisible(args, cf->builtin); if (needRestart) DIE; if (rvis) { if (!s.budget) { park(sp); return; } s.budget--; } }
                Val ret[4] = {VC(0), VC(0), VC(0), VC(0)}; BR b = callBuiltin(s, d, ci, cf, args, ret);
                if (b == BR_DEAD) DIE;
                Frame& ff = s.th[s.cur].st.back(); if (d.dst >= 0) for (u32 i = 0; i < ci.nret && i < 4; i++) ff.r[d.dst + i] = ret[i];
                ff.pc++; if (b == BR_PARK || b == BR_STAY) { park(sp); return; }
                break; }
            if (cf->F->isDeclaration()) { unsupported(s, "external function " + cf->name); DIE; }
            f.pc++; if (!pushCall(s, cf, args, &ci, d.dst, ci.nret)) DIE; break; }
        case D_UNREACH: violation(s, "unreachable", "undefined behaviour: unreachable code executed"); DIE;
        case D_FPBIN: { const Val &a = rv(f, d.ops[0]), &b = rv(f, d.ops[1]); if (a.e || b.e || d.w > 64) { unsupported(s, "symbolic floating point"); DIE; } double x = asF(a, d.w), y = asF(b, d.w), r = 0; switch (d.aux) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; } f.r[d.dst] = mkF(r, d.w); f.pc++; break; }
        case D_FNEG: { const Val& a = rv(f, d.ops[0]); if (a.e) { unsupported(s, "symbolic floating point"); DIE; } f.r[d.dst] = mkF(-asF(a, d.w), d.w); f.pc++; break; }
        case D_FPCMP: { const Val &a = rv(f, d.ops[0]), &b = rv(f, d.ops[1]); if (a.e || b.e || d.w > 64) { unsupported(s, "symbolic floating point"); DIE; } double x = asF(a, d.w), y = asF(b, d.w); bool un = x != x || y != y, r = false; unsigned p = d.sub; if (un) r = p & 8; else r = (x == y && (p & 1)) || (x > y && (p & 2)) || (x < y && (p & 4)); f.r[d.dst] = VC(r); f.pc++; break; }
        case D_FPCAST: { const Val& a = rv(f, d.ops[0]); if (a.e || d.w > 64 || d.aux > 64) { unsupported(s, "symbolic floating point"); DIE; } Val r; switch (d.sub) { case Instruction::SIToFP: r = mkF((double)s64(a.c, d.aux), d.w); break; case Instruction::UIToFP: r = mkF((double)a.c, d.w); break; case Instruction::FPToSI: r = VC(m64((u64)(i64)asF(a, d.aux), d.w)); break; case Instruction::FPToUI: r = VC(m64((u64)asF(a, d.aux), d.w)); break; case Instruction::FPTrunc: case Instruction::FPExt: r = mkF(asF(a, d.aux), d.w); break; default: unsupported(s, "fp cast"); DIE; } f.r[d.dst] = r; f.pc++; break; }
        case D_BITCASTV: { auto& ss = f.f->accs[d.aux].slots; auto& ds = f.f->accs[d.aux + 1].slots; E all = nullptr; for (size_t i = ss.size(); i-- > 0;) { E e = toE(rv(f, d.ops[i]), ss[i].w); all = all ? mkConcat(all, e) : e; } unsigned o = 0; for (size_t i = 0; i < ds.size(); i++) { f.r[d.dst + i] = fromE(mkExtract(all, o, ds[i].w)); o += ds[i].w; } f.pc++; break; }
        default: { std::string m; raw_string_ostream os(m); d.I->print(os); unsupported(s, "instruction " + os.str()); DIE; }
        }
    }
}


// ---------------------------------------------------------------- register liveness (dead registers are cleared before states are compared/merged)
static std::unordered_map<Func*, std::vector<std::vector<u64>>> g_live;
static const std::vector<std::vector<u64>>& liveOf(Func* f) {
    auto it = g_live.find(f); if (it != g_live.end()) return it->second;
    auto& L = g_live[f]; size_t W = (f->nregs + 63) / 64, n = f->code.size(); L.assign(n + 1, std::vector<u64>(W, 0)); bool ch = true;
    auto setb = [](std::vector<u64>& v, int r) { if (r >= 0) v[r >> 6] |= 1ull << (r & 63); }; auto clr = [](std::vector<u64>& v, int r) { if (r >= 0) v[r >> 6] &= ~(1ull << (r & 63)); };
    auto edge = [&](std::vector<u64>& out, u32 e) { const Edge& E2 = f->edges[e]; std::vector<u64> t = L[E2.target]; for (auto& m : E2.moves) clr(t, m.first); for (auto& m : E2.moves) setb(t, m.second); for (size_t i = 0; i < W; i++) out[i] |= t[i]; };
    while (ch) { ch = false;
        for (size_t pc = n; pc-- > 0;) { const DI& d = f->code[pc]; std::vector<u64> o(W, 0);
            switch (d.op) { case D_BR: edge(o, d.aux); break; case D_CBR: edge(o, d.aux); edge(o, d.aux + 1); break; case D_SWITCH: for (auto& c : f->sws[d.aux].cases) edge(o, c.second); edge(o, f->sws[d.aux].def); break; case D_RET: case D_UNREACH: break; default: o = L[pc + 1]; }
            u32 nd = 1; if (d.op == D_LOAD) nd = f->accs[d.aux].slots.size(); else if (d.op == D_CALL) nd = f->calls[d.aux].nret; else if (d.op == D_CMPXCHG) nd = 2; else if (d.op == D_BITCASTV) nd = f->accs[d.aux + 1].slots.size();
            if (d.dst >= 0) for (u32 i = 0; i < nd; i++) clr(o, d.dst + i);
            for (int r : d.ops) setb(o, r); if (d.op == D_GEP) for (auto& x : f->geps[d.aux].idx) setb(o, x.first); if (d.op == D_CALL) { for (int r : f->calls[d.aux].args) setb(o, r); if (!f->calls[d.aux].direct) setb(o, f->calls[d.aux].callee); }
            if (o != L[pc]) { L[pc] = std::move(o); ch = true; } } }
    return L; }
static void clearDead(State& s, Thread& t) {
    for (size_t k = 0; k < t.st.size(); k++) { Frame& f = t.st[k]; auto& l = liveOf(f.f)[f.pc]; int rd = -1; u32 nr = 0; if (k + 1 < t.st.size()) { rd = t.st[k + 1].retDst; nr = t.st[k + 1].nret; }
        for (size_t r = 0; r < f.r.size(); r++) if (!((l[r >> 6] >> (r & 63)) & 1) || (rd >= 0 && r >= (size_t)rd && r < (size_t)rd + nr)) f.r[r] = VC(0); } }
// ---------------------------------------------------------------- scheduling
static std::vector<u64> signature(State& s) {
    std::vector<u64> g; g.push_back(s.threaded); g.push_back(s.cur); g.push_back(s.tag); g.push_back(s.heapPtr); g.push_back(s.expectFatal | (s.allowDeadlock << 1) | (s.waitMain << 2) | (s.atomicSec << 3)); g.push_back(s.crashes);
    if (optPreempt >= 0) { g.push_back(s.lastTid); g.push_back(s.preempts); }
    for (auto& t : s.th) { g.push_back(t.stat | (t.primed << 4) | (t.dirty << 5)); g.push_back(t.sp); g.push_back(t.st.size()); for (auto& f : t.st) { g.push_back(((u64)f.f->id << 32) | f.pc); g.push_back(f.sp0); } }
    u64 h = 7; for (auto& c : s.cnt) { h = h * 1000003 + std::hash<std::string>()(c.first); h = h * 1000003 + c.second; } for (auto& c : s.heap) { h = h * 1000003 + c.first; h = h * 1000003 + c.second; } g.push_back(h);
    return g; }
static void enqueue(State* s) { for (auto& t : s->th) clearDead(*s, t); if (s->level > stMaxLevel) stMaxLevel = s->level; parked[((u64)s->phase << 32) | s->level][optNoMerge ? std::vector<u64>{s->id, stStates, (u64)s} : signature(*s)].push_back(s); }
static void park(State* sp) {
    State& s = *sp;
    if (s.waitMain && !s.threaded) { // entering concurrent phase
        s.threaded = true; s.waitMain = false; if (!g_base) g_base = cloneState(s); s.lastTid = -1; s.preempts = 0; hbInit(s); s.phase++; s.level = 0; s.budget = 0; }
    else if (!s.threaded) { s.phase++; s.level = 0; enqueue(sp); return; } // explicit merge point
    for (u32 i = 1; i < s.th.size(); i++) if (!s.th[i].primed && s.th[i].stat == T_READY) { s.th[i].primed = true; s.cur = i; s.budget = 0; work.push_back(sp); return; }
    bool all = true; for (u32 i = 1; i < s.th.size(); i++) if (s.th[i].stat != T_DONE && s.th[i].stat != T_CRASHED) all = false;
    s.cur = 0;
    if (all) { s.threaded = false; s.phase++; s.level = 0; for (u32 i = 1; i < s.th.size(); i++) { auto& t = s.th[i]; (void)t; } enqueue(sp); return; }
    s.level++; if (s.level > optMaxLevel) { stTrunc++; unsupported(s, "schedule step bound reached"); endState(sp); return; }
    enqueue(sp);
}
static void dispatch(State* sp) {
    State& s = *sp; stSteps++;
    struct Opt { u32 t; bool crash; }; std::vector<Opt> o;
    for (u32 i = 1; i < s.th.size(); i++) if (s.th[i].stat == T_READY) o.push_back({i, false});
    if (o.empty()) { 
        if (s.allowDeadlock) { reachLabels["deadlock"]++; endState(sp); return; }
        for (u32 i = 1; i < s.th.size(); i++) if (s.th[i].stat == T_YIELDED) { s.cur = i; break; }
        violation(s, "deadlock", "all remaining threads wait forever"); endState(sp); return; }
    if (optPreempt >= 0 && s.lastTid > 0 && s.th[s.lastTid].stat == T_READY && s.preempts >= optPreempt) { o.clear(); o.push_back({(u32)s.lastTid, false}); }
    if (s.crashes == 0) for (u32 i = 1; i < s.th.size(); i++) if (s.th[i].crashable && s.th[i].stat != T_DONE && s.th[i].stat != T_CRASHED) o.push_back({i, true});
    State* cur = sp; std::vector<std::pair<State*, Opt>> go;
    for (size_t i = 0; i < o.size(); i++) {
        if (i + 1 == o.size()) { go.push_back({cur, o[i]}); break; }
        std::string nm = "sched." + std::to_string(s.phase) + "." + std::to_string(s.level) + (o[i].crash ? ".c" : ".t") + std::to_string(o[i].t);
        E x = inputVar(s, nm, 1);
        if (isC(x)) { if (x->v) { go.push_back({cur, o[i]}); break; } continue; }
        State* n = cloneState(*cur); setModel(*n, x, 1); addCond(*n, x); go.push_back({n, o[i]}); setModel(*cur, x, 0); addCond(*cur, mkNot(x)); stForks++;
    }
    for (auto& g : go) { State* n = g.first; Opt op = g.second;
        if (op.crash) { n->th[op.t].stat = T_CRASHED; n->crashes++; n->cur = op.t; traceOp(*n, "CRASH", 0, 0); 
            // a crashed process' private stack vanishes
            auto& t = n->th[op.t]; while (!t.st.empty()) popFrame(*n, t); wakeOthers(*n); park(n); continue; }
        if (n->lastTid > 0 && (u32)n->lastTid != op.t && n->th[n->lastTid].stat == T_READY) n->preempts++;
        n->lastTid = op.t; n->cur = op.t; n->budget = 1; work.push_back(n); }
}
// ---------------------------------------------------------------- merging
struct MNode { E g = nullptr; int leaf = -1; MNode *t = nullptr, *f = nullptr; E pc = nullptr; };
static MNode* buildM(std::vector<int> idx, std::vector<std::vector<E>>& lits, std::deque<MNode>& arena) {
    arena.emplace_back(); MNode* n = &arena.back();
    if (idx.size() == 1) { n->leaf = idx[0]; E p = mkTrue(); for (E x : lits[idx[0]]) p = mkAnd(p, x); n->pc = p; return n; }
    std::vector<std::unordered_set<E>> sets; for (int i : idx) sets.emplace_back(lits[i].begin(), lits[i].end());
    // split literal
    E best = nullptr; size_t bestSz = 0; const auto& first = lits[idx[0]];
    for (size_t k = first.size(); k-- > 0;) { E x = first[k], nx = mkNot(x); bool ok = true, any = false; for (size_t j = 1; j < idx.size() && ok; j++) { if (sets[j].count(x)) continue; if (sets[j].count(nx)) { any = true; continue; } ok = false; } if (ok && any) { size_t z = dagSize(x, 200); if (!best || z < bestSz) { best = x; bestSz = z; } } }
    std::vector<int> A, B; 
    if (best) { E nb = mkNot(best); for (size_t j = 0; j < idx.size(); j++) { auto& L = lits[idx[j]]; if (sets[j].count(best)) { A.push_back(idx[j]); L.erase(std::remove(L.begin(), L.end(), best), L.end()); } else { B.push_back(idx[j]); L.erase(std::remove(L.begin(), L.end(), nb), L.end()); } } }
    else { // partial split: any literal separating first from some others; else full conjunction guard
        E p = mkTrue(); for (E x : first) p = mkAnd(p, x); best = p; A.push_back(idx[0]); lits[idx[0]].clear(); B.assign(idx.begin() + 1, idx.end());
        n->g = best; n->t = buildM(A, lits, arena); n->f = buildM(B, lits, arena); n->pc = mkOr(best, n->f->pc); return n; }
    n->g = best; n->t = buildM(A, lits, arena); n->f = buildM(B, lits, arena); n->pc = mkIte(best, n->t->pc, n->f->pc); return n; }
template <class G> static E mergeE(MNode* n, const G& get) { if (n->leaf >= 0) return get(n->leaf); E t = mergeE(n->t, get), f = mergeE(n->f, get); return t == f ? t : mkIte(n->g, t, f); }
static const Page zeroPage;
static bool mergeable(const std::vector<State*>& v) { // validity maps must agree
    State& a = *v[0];
    for (size_t k = 1; k < v.size(); k++) for (unsigned i = 0; i < TOPN; i++) { Chunk *x = a.mem.t[i], *y = v[k]->mem.t[i]; if (x == y) continue; for (unsigned j = 0; j < CHN; j++) { const Page* p = x ? x->p[j] : nullptr; const Page* q = y ? y->p[j] : nullptr; if (p == q) continue; if (!p) p = &zeroPage; if (!q) q = &zeroPage; if (memcmp(p->valid, q->valid, sizeof p->valid)) return false; } }
    return true; }

// ---------------------------------------------------------------- exact state equality (merge = disjunction of path conditions, no value ITEs)
static u64 hmix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static u64 pageHash(const Page* p) { u64 h = 1; const u64* w = (const u64*)p->d; for (unsigned i = 0; i < PG / 8; i++) h = hmix(h, w[i]); for (auto v : p->valid) h = hmix(h, v); if (p->nsym) for (unsigned i = 0; i < PG; i++) if (p->sym[i]) h = hmix(h, p->sym[i]->id * 256 + i); return h; }
static bool pageEq(const Page* a, const Page* b) { if (a == b) return true; if (!a) a = &zeroPage; if (!b) b = &zeroPage; if (memcmp(a->valid, b->valid, sizeof a->valid)) return false; if (!a->nsym && !b->nsym) return !memcmp(a->d, b->d, PG); if (a->nsym != b->nsym) return false; for (unsigned i = 0; i < PG; i++) { E x = a->sym[i], y = b->sym[i]; if (x != y || (!x && a->d[i] != b->d[i])) return false; } return true; }
static u64 contentHash(State& s) { u64 h = 3; static const u64 zh = pageHash(&zeroPage);
    for (unsigned i = 0; i < TOPN; i++) { Chunk *x = s.mem.t[i], *y = g_base ? g_base->mem.t[i] : nullptr; if (x == y || !x) continue; for (unsigned j = 0; j < CHN; j++) { Page* p = x->p[j]; Page* q = y ? y->p[j] : nullptr; if (p == q || !p) continue; u64 ph = pageHash(p); if (ph == (q ? pageHash(q) : zh)) continue; h = hmix(h, ph ^ ((u64)i << 40) ^ ((u64)j << 20)); } }
    for (auto& t : s.th) for (auto& f : t.st) for (auto& r : f.r) h = hmix(h, r.e ? r.e->id + 0x100000000ull : r.c);
    return h; }
static bool contentEq(State& a, State& b) {
    for (size_t t = 0; t < a.th.size(); t++) for (size_t k = 0; k < a.th[t].st.size(); k++) { auto &x = a.th[t].st[k].r, &y = b.th[t].st[k].r; for (size_t r = 0; r < x.size(); r++) if (x[r].e != y[r].e || x[r].c != y[r].c) return false; }
    for (unsigned i = 0; i < TOPN; i++) { Chunk *x = a.mem.t[i], *y = b.mem.t[i]; if (x == y) continue; for (unsigned j = 0; j < CHN; j++) if (!pageEq(x ? x->p[j] : nullptr, y ? y->p[j] : nullptr)) return false; }
    return true; }
// a state without symbolic content behaves the same whatever path led to it: it is expanded once (cuts busy-wait cycles)
static std::set<std::pair<u64, u64>> g_visited; static u64 stVisited = 0;
static bool fullyConcrete(State& s) { for (auto& t : s.th) for (auto& f : t.st) for (auto& r : f.r) if (r.e) return false;
    for (unsigned i = 0; i < TOPN; i++) if (s.mem.t[i]) for (auto* p : s.mem.t[i]->p) if (p && p->nsym) return false; return true; }
static State* mergeStates(std::vector<State*> v) {
    if (v.size() == 1) return v[0];
    if (v.size() > stMaxBucket) stMaxBucket = v.size();
    // factor common conditions
    std::vector<E> common; { std::vector<std::unordered_set<E>> sets; for (size_t i = 1; i < v.size(); i++) sets.emplace_back(v[i]->cond.begin(), v[i]->cond.end()); for (E x : v[0]->cond) { bool all = true; for (auto& s : sets) if (!s.count(x)) { all = false; break; } if (all) common.push_back(x); } }
    std::unordered_set<E> cs(common.begin(), common.end()); std::vector<std::vector<E>> lits(v.size()); std::vector<int> idx;
    for (size_t i = 0; i < v.size(); i++) { for (E x : v[i]->cond) if (!cs.count(x)) lits[i].push_back(x); idx.push_back(i); }
    std::deque<MNode> arena; MNode* root = buildM(idx, lits, arena);
    State& m = *v[0]; stMerges += v.size() - 1;
    // registers
    for (size_t t = 0; t < m.th.size(); t++) for (size_t k = 0; k < m.th[t].st.size(); k++) { Frame& fr = m.th[t].st[k]; for (size_t r = 0; r < fr.r.size(); r++) { bool same = true; for (size_t i = 1; i < v.size() && same; i++) { const Val& o = v[i]->th[t].st[k].r[r]; same = o.e == fr.r[r].e && o.c == fr.r[r].c; } if (same) continue; unsigned w = fr.f->regW[r];
                std::vector<E> vals; for (auto* s : v) vals.push_back(toE(s->th[t].st[k].r[r], w)); bool ok = true; for (E x : vals) if (x->w != w) ok = false; if (!ok) continue; fr.r[r] = fromE(mergeE(root, [&](int i) { return vals[i]; })); } }
    // memory
    for (unsigned i = 0; i < TOPN; i++) { bool same = true; for (size_t k = 1; k < v.size(); k++) if (v[k]->mem.t[i] != m.mem.t[i]) same = false; if (same) continue;
        for (unsigned j = 0; j < CHN; j++) { std::vector<const Page*> ps; bool sm = true; for (auto* s : v) { const Page* p = s->mem.t[i] ? s->mem.t[i]->p[j] : nullptr; ps.push_back(p); if (p != ps[0]) sm = false; } if (sm) continue; for (auto& p : ps) if (!p) p = &zeroPage;
            u64 base = ((u64)i << 16) | ((u64)j << 8); 
            auto diff = [&](unsigned o) { for (size_t k = 1; k < ps.size(); k++) { E a = ps[0]->nsym ? ps[0]->sym[o] : nullptr, b = ps[k]->nsym ? ps[k]->sym[o] : nullptr; if (a != b || (!a && ps[0]->d[o] != ps[k]->d[o])) return true; } return false; };
            std::vector<std::pair<unsigned, E>> wr; std::vector<std::pair<unsigned, E>> wrb;
            for (unsigned o = 0; o < PG;) { unsigned gr = ps[0]->gran[o], sz = (gr >> 4) + 1; bool word = sz > 1 && (gr & 15) == 0 && o + sz <= PG; if (word) for (size_t k = 0; k < ps.size() && word; k++) for (unsigned b = 0; b < sz; b++) if (ps[k]->gran[o + b] != ((sz - 1) << 4 | b)) { word = false; break; }
                if (!word) sz = 1; bool any = false; for (unsigned b = 0; b < sz && !any; b++) any = diff(o + b);
                if (any && ps[0]->isValid(o) || (any && base >= SH_BASE)) { std::vector<E> vals; for (auto* s : v) vals.push_back(s->mem.getE(base + o, sz)); E r = mergeE(root, [&](int q) { return vals[q]; }); if (word) wr.push_back({o, r}); else wrb.push_back({o, r}); }
                o += sz; }
            for (auto& x : wr) m.mem.putE(base + x.first, x.second);
            for (auto& x : wrb) m.mem.putByte(base + x.first, x.second, 0); } }
    m.cond.clear(); for (E x : common) m.cond.push_back(x); addCond(m, root->pc);
    for (size_t i = 1; i < v.size(); i++) { if (v[i]->instrs > m.instrs) m.instrs = v[i]->instrs; endState(v[i]); }
    return &m; }

// ---------------------------------------------------------------- instrumentation for native threaded replay
static void instrument(const std::string& out) {
    auto& C = M->getContext(); Type* V = Type::getVoidTy(C); Type* P = PointerType::getUnqual(C); Type* I64 = Type::getInt64Ty(C);
    FunctionCallee pt = M->getOrInsertFunction("symx_rt_point", V, P, P, I64, I64);
    for (auto& F : *M) { if (F.isDeclaration() || F.getName().starts_with("symx_rt_") ) continue; std::vector<Instruction*> is; for (auto& B : F) for (auto& I : B) if (isa<LoadInst>(I) || isa<StoreInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<AtomicRMWInst>(I) || isa<MemIntrinsic>(I)) is.push_back(&I);
            else if (auto* CB = dyn_cast<CallBase>(&I)) { if (auto* CF = CB->getCalledFunction()) if (CF->isDeclaration() && (CF->getName() == "memcpy" || CF->getName() == "memmove" || CF->getName() == "memset")) is.push_back(&I); }
        for (auto* I : is) { IRBuilder<> B(I); Value *a = nullptr, *b = ConstantPointerNull::get(PointerType::getUnqual(C)), *n = ConstantInt::get(I64, 1);
            if (auto* L = dyn_cast<LoadInst>(I)) a = L->getPointerOperand(); else if (auto* S2 = dyn_cast<StoreInst>(I)) a = S2->getPointerOperand(); else if (auto* X = dyn_cast<AtomicCmpXchgInst>(I)) a = X->getPointerOperand(); else if (auto* R = dyn_cast<AtomicRMWInst>(I)) a = R->getPointerOperand();
            else if (auto* MT = dyn_cast<MemTransferInst>(I)) { a = MT->getRawDest(); b = MT->getRawSource(); n = B.CreateZExtOrTrunc(MT->getLength(), I64); } else if (auto* MS = dyn_cast<MemSetInst>(I)) { a = MS->getRawDest(); n = B.CreateZExtOrTrunc(MS->getLength(), I64); }
            else { auto* CB = cast<CallBase>(I); a = CB->getArgOperand(0); if (CB->getArgOperand(1)->getType()->isPointerTy()) b = CB->getArgOperand(1); n = CB->getArgOperand(2); }
            if (!isa<MemIntrinsic>(I) && !isa<CallBase>(I)) { Type* AT = isa<LoadInst>(I) ? I->getType() : isa<StoreInst>(I) ? cast<StoreInst>(I)->getValueOperand()->getType() : isa<AtomicCmpXchgInst>(I) ? cast<AtomicCmpXchgInst>(I)->getNewValOperand()->getType() : cast<AtomicRMWInst>(I)->getValOperand()->getType(); n = ConstantInt::get(I64, DL->getTypeStoreSize(AT).getFixedValue()); }
            auto* call = B.CreateCall(pt, {a, b, n, ConstantInt::get(I64, isa<LoadInst>(I) ? 0 : 1)}); if (auto DLc = I->getDebugLoc()) call->setDebugLoc(DLc); else if (auto* SP = F.getSubprogram()) call->setDebugLoc(DILocation::get(C, 0, 0, SP)); } }
    std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*M, os); }

static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string u128s(u128 v) { if (!v) return "0"; std::string r; while (v) { r += '0' + (int)(v % 10); v /= 10; } std::reverse(r.begin(), r.end()); return r; }

int main(int argc, char** argv) {
    now(); std::string file, instrOut;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--timeout") optTimeout = atof(nx().c_str()); else if (a == "--qtimeout") optQTimeout = atoi(nx().c_str()); else if (a == "--inc") optInc = true; else if (a == "--bvint") optBvInt = true; else if (a == "--replay") optReplay = nx(); else if (a == "--max-viol") optMaxViol = atoi(nx().c_str()); else if (a == "--max-level") optMaxLevel = atoi(nx().c_str()); else if (a == "--preempt") optPreempt = atoi(nx().c_str()); else if (a == "--no-merge") optNoMerge = true; else if (a == "--ite") optMergeEq = false; else if (a == "--joineq") optJoinEq = true; else if (a == "--joinite") optJoinEq = false; else if (a == "--verbose") optVerbose = true; else if (a == "--instrument") instrOut = nx(); else if (a == "--mem") optMaxMemMB = atoi(nx().c_str()); else if (a == "--path-instr") optMaxPathInstr = atoll(nx().c_str()); else file = a; }
    SMDiagnostic err; M = parseIRFile(file, err, LC); if (!M) { err.print("symx", errs()); return 3; } DL = &M->getDataLayout();
    if (!instrOut.empty()) { instrument(instrOut); return 0; }
    if (!optReplay.empty()) { replayMode = true; std::ifstream in(optReplay); std::string nm, v; while (in >> nm >> v) { if (nm.rfind("@w:", 0) == 0) { size_t c2 = nm.find(':', 3); g_writtenImport.insert({atoll(nm.substr(3, c2 - 3).c_str()), atoll(nm.substr(c2 + 1).c_str())}); continue; } u128 x = 0; for (char c : v) x = x * 10 + (c - '0'); replayVals[nm] = x; } }
    S = new Solver(optQTimeout, optInc); S->intFallback = optBvInt; S->deadline = [] { return optTimeout - now(); };
    std::function<State*()> initial;
    State* s = new State(); s->model = std::make_shared<Model>(); newEpoch(*s); s->id = 0;
    u64 fa = FUNC_BASE; u32 fid = 0;
    for (auto& F : *M) { Func* f = new Func(); f->F = &F; f->name = F.getName().str(); f->id = fid++; f->addr = fa; fa += 16; f->builtin = builtinId(F.getName()); if (!F.isDeclaration() && f->builtin >= 0 && F.getName() != "abort") f->builtin = f->builtin; funcs.push_back(f); fmap[&F] = f; gaddr[&F] = f->addr; faddr[f->addr] = f; }
    u64 ga = GLOB_BASE; for (auto& G : M->globals()) { u64 sz = G.isDeclaration() ? 64 : DL->getTypeAllocSize(G.getValueType()).getFixedValue(); u64 al = std::max<u64>(G.getAlign().valueOrOne().value(), 16); ga = (ga + 32 + al - 1) / al * al; gaddr[&G] = ga; s->mem.setValid(ga, sz, true, 0); ga += sz ? sz : 1; if (ga > HEAP_BASE) { fprintf(stderr, "symx: globals too large\n"); return 3; } }
    for (auto& G : M->globals()) if (G.hasInitializer() && G.getName() != "llvm.global_ctors" && !G.getName().starts_with("llvm.")) initGlobalMem(s->mem, gaddr[&G], G.getInitializer());
    Function* EF = M->getFunction(optEntry); if (!EF) { fprintf(stderr, "symx: no entry %s\n", optEntry.c_str()); return 3; }
    s->th.emplace_back(); s->th[0].sp = STACK_BASE; pushCall(*s, getFunc(EF), {}, nullptr, -1, 0);
    if (auto* GC = M->getGlobalVariable("llvm.global_ctors")) if (auto* CA = dyn_cast<ConstantArray>(GC->getInitializer())) { std::vector<std::pair<u64, Function*>> cs; for (auto& o : CA->operands()) { auto* CS = cast<ConstantStruct>(o); if (auto* CF = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), CF}); } std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (size_t i = cs.size(); i-- > 0;) pushCall(*s, getFunc(cs[i].second), {}, nullptr, -1, 0); }
    State* init0 = s; double lastRep = 0;
  restart:
    needRestart = false; s = cloneState(*init0); work.push_back(s);
    while (!stopAll && !needRestart) {
        if (!work.empty()) { State* x = work.back(); work.pop_back(); run(x); if ((++tickCtr & 0xff) == 0) checkLimits(); }
        else if (!parked.empty()) { auto it = parked.begin(); auto groups = std::move(it->second); u64 key = it->first; parked.erase(it); size_t ngr = groups.size();
            for (auto& g : groups) { std::vector<std::vector<State*>> parts;
                if ((g.second[0]->threaded && optMergeEq) || (optJoinEq && g.second[0]->th.size() > 1) || (g.second[0]->tag >> 63)) { std::unordered_map<u64, std::vector<size_t>> hp; for (State* x : g.second) { u64 h = contentHash(*x); bool done = false; for (size_t pi : hp[h]) if (contentEq(*parts[pi][0], *x)) { parts[pi].push_back(x); done = true; break; } if (!done) { hp[h].push_back(parts.size()); parts.push_back({x}); } } stEqParts += parts.size(); }
                else for (State* x : g.second) { bool done = false; for (auto& p : parts) { if (mergeable({p[0], x})) { p.push_back(x); done = true; break; } } if (!done) parts.push_back({x}); }
                for (auto& p : parts) { State* m = mergeStates(p);
                    if (m->threaded && optMergeEq && !replayMode && fullyConcrete(*m)) { u64 h1 = contentHash(*m), h2 = 99; for (u64 x : signature(*m)) h2 = hmix(h2, x); h2 = hmix(h2, m->phase); h1 = hmix(h1, h2 >> 7); if (!g_visited.insert({h1, h2}).second) { stVisited++; endState(m); continue; } }
                    if (m->threaded) dispatch(m); else work.push_back(m); } }
            checkLimits();
            if (optVerbose && now() - lastRep > 2) { lastRep = now(); fprintf(stderr, "[%.1fs] phase %llu level %llu groups %zu work %zu exprs %zu q %llu (%.1fs) instr %llu\n", now(), (unsigned long long)(key >> 32), (unsigned long long)(key & 0xffffffff), ngr, work.size(), numExprs(), (unsigned long long)S->st.queries, S->st.time, (unsigned long long)stInstr); } }
        else break; }
    if (needRestart && !stopAll) { stRestarts++; for (auto* x : work) delete x; work.clear(); for (auto& k : parked) for (auto& g : k.second) for (auto* x : g.second) delete x; parked.clear(); g_visited.clear(); reachLabels.clear(); assertHits.clear(); viols.clear(); violKeys.clear(); g_trace.clear(); g_schedLog.clear(); unsupMsgs.clear(); stPaths = stForks = stMerges = stTrunc = stUnsup = stAsserts = stAssertQ = stSteps = stMaxLevel = stExpectedFatal = stAssumeKill = stUnknown = 0; stopReason.clear(); goto restart; }
    bool complete = !stopAll && stTrunc == 0 && stUnsup == 0 && stopReason.empty();
    if (!viols.empty()) stopReason = "violation";
    std::ostringstream j; j << "{\n \"status\": " << jstr(!viols.empty() ? "violation" : complete ? "verified" : "incomplete") << ",\n \"stop_reason\": " << jstr(stopReason) << ",\n";
    j << " \"stats\": {\"wall_s\": " << now() << ", \"queries\": " << S->st.queries << ", \"sat\": " << S->st.sat << ", \"unsat\": " << S->st.unsat << ", \"unknown\": " << S->st.unknown << ", \"second_solver\": " << S->st.second << ", \"cache_hits\": " << S->st.cacheHits << ", \"model_hits\": " << S->st.modelHits << ", \"solver_s\": " << S->st.time << ", \"max_query_s\": " << S->st.maxTime << ", \"instructions\": " << stInstr << ", \"paths\": " << stPaths << ", \"forks\": " << stForks << ", \"merges\": " << stMerges << ", \"sched_steps\": " << stSteps << ", \"restarts\": " << stRestarts << ", \"revisited\": " << stVisited << ", \"max_level\": " << stMaxLevel << ", \"truncated\": " << stTrunc << ", \"unsupported\": " << stUnsup << ", \"asserts\": " << stAsserts << ", \"asserts_symbolic\": " << stAssertQ << ", \"expected_fatal\": " << stExpectedFatal << ", \"assume_killed\": " << stAssumeKill << ", \"exprs\": " << numExprs() << ", \"vars\": " << g_vars.size() << "},\n";
    j << " \"reach\": {"; bool c = false; for (auto& r : reachLabels) { j << (c ? ", " : "") << jstr(r.first) << ": " << r.second; c = true; } j << "},\n \"assert_hits\": {"; c = false; for (auto& r : assertHits) { j << (c ? ", " : "") << jstr(r.first) << ": " << r.second; c = true; } j << "},\n \"unsupported\": ["; c = false; for (auto& r : unsupMsgs) { j << (c ? ", " : "") << jstr(r); c = true; } j << "],\n \"functions\": ["; c = false;
    for (auto* f : funcs) if (f->executed) { j << (c ? ", " : "") << jstr(llvm::demangle(f->name)); c = true; } j << "],\n \"violations\": ["; c = false;
    for (auto& v : viols) { j << (c ? ", " : "") << "{\"kind\": " << jstr(v.kind) << ", \"msg\": " << jstr(v.msg) << ", \"loc\": " << jstr(v.loc) << ", \"thread\": " << v.tid << ", \"stack\": ["; bool k = false; for (auto& x : v.stack) { j << (k ? ", " : "") << jstr(x); k = true; } j << "], \"inputs\": {"; k = false; for (auto& x : v.inputs) { j << (k ? ", " : "") << jstr(x.first) << ": " << u128s(x.second); k = true; } j << "}, \"trace\": ["; k = false; for (auto& x : v.trace) { j << (k ? ", " : "") << jstr(x); k = true; } j << "]}"; c = true; }
    j << "],\n \"sched_log\": ["; c = false; for (int x : g_schedLog) { j << (c ? ", " : "") << x; c = true; } j << "]\n}\n";
    if (!optOut.empty()) { std::ofstream o(optOut); o << j.str(); } else fputs(j.str().c_str(), stdout);
    if (optVerbose) { std::vector<Func*> fs(funcs.begin(), funcs.end()); std::sort(fs.begin(), fs.end(), [](Func* a, Func* b) { return a->instrs > b->instrs; }); for (int i = 0; i < 8 && i < (int)fs.size(); i++) fprintf(stderr, "  %10llu %s\n", (unsigned long long)fs[i]->instrs, llvm::demangle(fs[i]->name).substr(0, 150).c_str()); }
    fflush(stdout); _Exit(viols.empty() ? (complete ? 0 : 2) : 1);
}
