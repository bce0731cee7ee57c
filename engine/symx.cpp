// symx: symbolic executor / bounded model checker for LLVM-18 bitcode on top of z3 (QF_BV).
#include "expr.h"
#include "mem.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <deque>
#include <chrono>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <cmath>
using namespace llvm;
static double now() { static auto t0 = std::chrono::steady_clock::now(); return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

// ---------------------------------------------------------------- options
static std::string optEntry = "symx_main", optOut, optReplay, optTraceFile;
static double optTimeout = 300; static unsigned optQTimeout = 60000; static bool optInc = false, optBvInt = false, optVerbose = false; static u64 optMaxInstr = 0; static unsigned optMaxViol = 1, optMaxLevel = 100000;
static u64 optMaxPathInstr = 20000000; static size_t optMaxMemMB = 6000; static int optPreempt = -1; static bool optNoMerge = false, optMergeEq = true, optJoinEq = true; static u64 stEqParts = 0; static int optStop = 0;
static std::map<std::string, std::vector<u64>> dummy;
static std::map<std::string, u128> replayVals; static bool replayMode = false;

// ---------------------------------------------------------------- values & decoded code
struct Val { E e; u64 c; };
static inline Val VC(u64 c) { return Val{nullptr, c}; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { if (e->op == O_CONST && e->w <= 64) return Val{nullptr, (u64)e->v}; return Val{e, 0}; }
static inline u64 m64(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline i64 s64(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 s = 1ull << (w - 1); return (i64)((v ^ s) - s); }

enum DOp : u8 { D_BIN, D_CMP, D_ZEXT, D_SEXT, D_TRUNC, D_COPY, D_SELECT, D_LOAD, D_STORE, D_ALLOCA, D_GEP, D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_CMPXCHG, D_RMW, D_FENCE, D_UNREACH, D_FPBIN, D_FPCMP, D_FPCAST, D_FNEG, D_BITCASTV, D_UNSUP, D_XELEM, D_IELEM };
struct Func;
struct DI { DOp op; u8 sub = 0; u16 w = 0; int dst = -1; u32 aux = 0; std::vector<int> ops; const Instruction* I = nullptr; };
struct Edge { u32 target; std::vector<std::pair<int, int>> moves; };
struct CallInfo { Func* direct = nullptr; int callee = 0; std::vector<int> args; std::vector<std::pair<u64, u64>> byval; std::vector<u16> widths; u32 nret = 0; };
struct SlotT { u16 w; u32 off; };
struct MemAcc { std::vector<SlotT> slots; AtomicOrdering ord = AtomicOrdering::NotAtomic; bool rmwRet = false; };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; };
struct GepInfo { u64 off; std::vector<std::pair<int, u64>> idx; std::vector<u16> iw; };
struct Func { Function* F = nullptr; std::string name; int builtin = -1; bool decoded = false; u32 nregs = 0; std::vector<DI> code; std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<MemAcc> accs; std::vector<SwitchInfo> sws; std::vector<GepInfo> geps; u64 addr = 0; u32 id = 0; bool executed = false; std::vector<u32> argSlots; u64 instrs = 0; std::vector<u16> regW; };
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::vector<Func*> funcs; static std::unordered_map<const Function*, Func*> fmap; static std::unordered_map<u64, Func*> faddr;
static std::vector<Val> cpool; static std::unordered_map<const GlobalValue*, u64> gaddr;
static const u64 FUNC_BASE = 0x10000, GLOB_BASE = 0x100000, HEAP_BASE = 0x1000000, HEAP_END = 0x3000000, STACK_BASE = 0x3000000, STACK_SZ = 0x100000;

// ---------------------------------------------------------------- state
enum TStat : u8 { T_READY, T_YIELDED, T_DONE, T_CRASHED };
struct Frame { Func* f; u32 pc; std::vector<Val> r; u64 sp0; int retDst; u32 nret; };
struct Thread { std::vector<Frame> st; u64 sp; TStat stat = T_READY; bool crashable = false; bool primed = false; bool dirty = false; /* another thread changed shared memory since the last yield */ };
struct Range { u64 a, n; };
struct State {
    Memory mem; std::vector<Thread> th; u32 cur = 0; std::vector<E> cond; std::shared_ptr<Model> model; u64 epoch = 0;
    std::map<u64, u64> heap; u64 heapPtr = HEAP_BASE; std::map<std::string, u32> cnt; bool threaded = false; u32 budget = 0; u32 phase = 0, level = 0; u64 tag = 0;
    bool expectFatal = false; std::string expectLabel; u64 instrs = 0; int lastTid = -1, preempts = 0; u32 crashes = 0; bool waitMain = false; bool allowDeadlock = false;
    u64 id; u64 depth = 0; bool atomicSec = false; u64 visOps = 0;
};
static State* g_base = nullptr; // first merge point / start of the concurrent phase: reference for page sharing
static u64 g_epochCtr = 1;
static std::vector<Range> g_shared; // same for all states (registered before threads start)
static std::vector<Range> g_race;
static std::vector<State*> work; static std::map<u64, std::map<std::vector<u64>, std::vector<State*>>> parked;
static Solver* S; static u64 stInstr = 0, stPaths = 0, stForks = 0, stMerges = 0, stStates = 0, stTrunc = 0, stUnsup = 0, stAsserts = 0, stAssertQ = 0, stSteps = 0, stMaxLevel = 0, stMaxBucket = 0, stUnknown = 0, stExpectedFatal = 0, stAssumeKill = 0;
static std::map<std::string, u64> reachLabels; static std::set<std::string> unsupMsgs; static std::map<std::string, u64> assertHits;
static std::vector<std::string> sampleNotes;
struct Violation { std::string kind, msg, loc; std::vector<std::string> stack; std::vector<std::pair<std::string, u128>> inputs; std::vector<std::string> trace; u32 tid; };
static std::vector<Violation> viols; static std::set<std::string> violKeys; static bool stopAll = false; static std::string stopReason;
static std::vector<std::string> g_trace; static std::vector<int> g_schedLog;

static void exportWritten(std::vector<std::pair<std::string, u128>>& out);
static void newEpoch(State& s) { s.epoch = ((++g_epochCtr) << 1); }
static bool evalB(State& s, E e) { if (isC(e)) return e->v != 0; return evalExpr(e, *s.model, s.epoch) != 0; }
static u128 evalV(State& s, E e) { if (isC(e)) return e->v; return evalExpr(e, *s.model, s.epoch); }

static std::string locOf(const Instruction* I) {
    if (!I) return "?"; if (auto& L = I->getDebugLoc()) { std::string f = L->getFilename().str(); size_t p = f.find("/repo/"); if (p != std::string::npos) f = f.substr(p + 6); return f + ":" + std::to_string(L.getLine()); } return "?"; }
static std::vector<std::string> stackOf(State& s) {
    std::vector<std::string> r; auto& t = s.th[s.cur];
    for (size_t i = t.st.size(); i-- > 0 && r.size() < 24;) { auto& f = t.st[i]; u32 pc = f.pc; if (i + 1 < t.st.size() && pc) pc--; 
        const Instruction* I = pc < f.f->code.size() ? f.f->code[pc].I : nullptr; 
        std::string l = locOf(I); if (I) if (auto* L = I->getDebugLoc().get()) { auto* IA = L->getInlinedAt(); int d = 0; while (IA && d++ < 6) { std::string fn = IA->getFilename().str(); size_t p = fn.find("/repo/"); if (p != std::string::npos) fn = fn.substr(p + 6); l += " <- " + fn + ":" + std::to_string(IA->getLine()); IA = IA->getInlinedAt(); } }
        r.push_back(llvm::demangle(f.f->name) + " @ " + l); }
    return r; }
static void endState(State* s) { delete s; }

// solver helper: Is cond feasible in s? returns model
static Res feasible(State& s, E c, std::shared_ptr<Model>& out) {
    if (isC(c)) { out = s.model; return c->v ? Res::Sat : Res::Unsat; }
    if (evalB(s, c)) { S->st.modelHits++; out = s.model; return Res::Sat; }
    for (E x : s.cond) { if (x == c) { out = s.model; return Res::Sat; } if ((x->op == O_NOT && x->a == c) || (c->op == O_NOT && c->a == x)) return Res::Unsat; }
    auto m = std::make_shared<Model>(*s.model);
    Res r = S->check(s.cond, c, m.get());
    if (r == Res::Sat) out = m; else if (r == Res::Unknown) { stUnknown++; out = s.model; }
    return r;
}
static void addCond(State& s, E c) { if (isC(c)) return; if (c->op == O_AND && c->w == 1) { addCond(s, c->a); addCond(s, c->b); return; } for (E x : s.cond) if (x == c) return; s.cond.push_back(c); }
static void violation(State& s, const std::string& kind, const std::string& msg, std::shared_ptr<Model> m = nullptr, E extra = nullptr) {
    Violation v; v.kind = kind; v.msg = msg; v.tid = s.cur; v.stack = stackOf(s); 
    const Frame& f = s.th[s.cur].st.back(); v.loc = f.pc < f.f->code.size() ? locOf(f.f->code[f.pc].I) : "?";
    std::string key = kind + "|" + msg + "|" + v.loc; if (!violKeys.insert(key).second) return;
    // final model must satisfy everything exactly: re-solve full condition
    Model full; Res r = S->check([&] { auto c = s.cond; if (extra) c.push_back(extra); return c; }(), nullptr, &full);
    if (r == Res::Unsat) { fprintf(stderr, "symx: INTERNAL: violation on infeasible path %s\n", msg.c_str()); violKeys.erase(key); return; }
    if (r == Res::Unknown) { full = m ? *m : *s.model; bool sat = true; u64 ep = ++g_epochCtr; for (E c : s.cond) sat = sat && evalExpr(c, full, (ep << 1)); if (extra) sat = sat && evalExpr(extra, full, (ep << 1));
        if (!sat) { stUnknown++; violKeys.erase(key); fprintf(stderr, "symx: undecided [%s] %s at %s\n", kind.c_str(), msg.c_str(), v.loc.c_str()); return; } }
    for (size_t i = 0; i < g_vars.size(); i++) v.inputs.push_back({g_vars[i].name, i < full.size() ? full[i] : 0});
    exportWritten(v.inputs);
    v.trace = g_trace; viols.push_back(v);
    fprintf(stderr, "symx: violation [%s] %s at %s\n", kind.c_str(), msg.c_str(), v.loc.c_str());
    if (viols.size() >= optMaxViol) { stopAll = true; stopReason = "max-violations"; }
}
static void unsupported(State& s, const std::string& msg) { stUnsup++; std::string m = msg; auto st = stackOf(s); if (st.size()) m += " in " + st[0]; if (unsupMsgs.insert(m).second) fprintf(stderr, "symx: unsupported: %s\n", m.c_str()); }

static State* cloneState(State& s) { State* n = new State(s); stStates++; n->id = stStates; return n; }

// returns 0: continue (v concrete), 1: path dies
static bool concretize(State& s, Val& v, unsigned w) {
    if (!v.e) return true; if (isC(v.e)) { if (w <= 64) { v = VC((u64)v.e->v); } return true; }
    u64 x = (u64)evalV(s, v.e); E eq = mkEq(v.e, mkConst(x, w)); std::shared_ptr<Model> m;
    Res r = feasible(s, mkNot(eq), m);
    if (r != Res::Unsat) { State* n = cloneState(s); addCond(*n, mkNot(eq)); n->model = m; newEpoch(*n); n->depth++; work.push_back(n); stForks++; }
    addCond(s, eq); v = VC(x); return true;
}

// ---------------------------------------------------------------- memory access through (possibly symbolic) addresses
static bool oob(State& s, u64 a, u64 n, const char* what, std::shared_ptr<Model> m = nullptr, E extra = nullptr) {
    char b[128]; snprintf(b, sizeof b, "invalid memory %s of %llu byte(s)%s", what, (unsigned long long)n, a < 4096 ? " near null" : ""); (void)a; violation(s, "memory", b, m, extra); return false; }
static bool enumAddr(State& s, E a, std::vector<u64>& out) { // distinct feasible values
    std::vector<E> ex = s.cond; std::shared_ptr<Model> m = s.model; State& t = s;
    std::vector<E> saved = s.cond; bool ok = true;
    auto em = s.model; u64 ee = s.epoch;
    u64 v = (u64)evalV(t, a);
    for (;;) {
        out.push_back(v); if (out.size() > 256) { ok = false; break; }
        E ne = mkNot(mkEq(a, mkConst(v, 64))); s.cond.push_back(ne);
        Model mm = *s.model; Res r = S->check(s.cond, nullptr, &mm); // full check incl. all
        if (r == Res::Unsat) break; if (r == Res::Unknown) { stUnknown++; ok = false; break; }
        v = (u64)evalExpr(a, mm, ((++g_epochCtr) << 1));
    }
    s.cond = saved; s.model = em; s.epoch = ee; return ok;
}
static void leavesOf(E a, std::vector<u64>& out) { std::unordered_set<E> seen; std::vector<E> st{a}; std::set<u64> vs; while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (isC(e)) vs.insert((u64)e->v); else { st.push_back(e->b); st.push_back(e->c); } } out.assign(vs.begin(), vs.end()); }
// candidate addresses; prunes/flags invalid ones. Returns false if path dead.
static bool candidates(State& s, E a, unsigned n, const char* what, std::vector<u64>& out) {
    std::vector<u64> c; bool cl = a->cl;
    if (cl) leavesOf(a, c); else if (!enumAddr(s, a, c)) { 
        // too many values: concretise to the model's value (explicitly counted as truncation)
        u64 v = (u64)evalV(s, a); stTrunc++; unsupported(s, "symbolic address with more than 256 feasible values"); c.clear(); c.push_back(v); addCond(s, mkEq(a, mkConst(v, 64))); cl = false; }
    for (u64 v : c) {
        if (s.mem.validRange(v, n)) { out.push_back(v); continue; }
        E eq = mkEq(a, mkConst(v, 64)); std::shared_ptr<Model> m; Res r = cl ? feasible(s, eq, m) : Res::Sat; if (!cl) m = nullptr;
        if (r == Res::Unsat) continue;
        oob(s, v, n, what, m, eq); if (stopAll) return false;
        // continue excluding
        std::shared_ptr<Model> m2; Res r2 = feasible(s, mkNot(eq), m2); if (r2 == Res::Unsat) return false; addCond(s, mkNot(eq)); s.model = m2; newEpoch(s);
    }
    return !out.empty();
}
static bool memLoad(State& s, const Val& a, unsigned w, Val& out) {
    unsigned n = (w + 7) / 8;
    if (!a.e) {
        u64 ad = a.c; const Page* p = s.mem.rd(ad); unsigned o = ad & 255;
        if (p && o + n <= PG) { bool ok = true; for (unsigned i = 0; i < n; i++) if (!p->isValid(o + i)) { ok = false; break; }
            if (ok && (!p->nsym || !s.mem.hasSym(ad, n)) && n <= 8) { u64 v = 0; memcpy(&v, p->d + o, n); out = VC(m64(v, w)); return true; } }
        if (!s.mem.validRange(ad, n)) return oob(s, ad, n, "read");
        E e = s.mem.getE(ad, n); if (e->w != w) e = mkExtract(e, 0, w); out = fromE(e); return true;
    }
    std::vector<u64> c; if (!candidates(s, a.e, n, "read", c)) return false;
    E r = nullptr;
    if (a.e->cl) { bool ok; std::set<u64> good(c.begin(), c.end()); r = pushCL(a.e, [&](E k) { if (!good.count((u64)k->v)) return mkConst(0, 8 * n); return s.mem.getE((u64)k->v, n); }, 100000, ok); }
    else { r = s.mem.getE(c.back(), n); for (size_t i = c.size() - 1; i-- > 0;) r = mkIte(mkEq(a.e, mkConst(c[i], 64)), s.mem.getE(c[i], n), r); }
    if (r->w != w) r = mkExtract(r, 0, w); out = fromE(r); return true;
}
static bool memStore(State& s, const Val& a, unsigned w, const Val& v) {
    unsigned n = (w + 7) / 8;
    if (!a.e) {
        if (!s.mem.validRange(a.c, n)) return oob(s, a.c, n, "write");
        if (!v.e && n <= 8) { u64 x = m64(v.c, w); s.mem.putC(a.c, (u8*)&x, n); return true; }
        s.mem.putE(a.c, toE(v, w)); return true;
    }
    std::vector<u64> c; if (!candidates(s, a.e, n, "write", c)) return false;
    E ve = toE(v, w); if (w % 8) ve = mkZext(ve, 8 * n);
    std::vector<std::pair<u64, E>> wrs;
    for (u64 ad : c) wrs.push_back({ad, mkIte(mkEq(a.e, mkConst(ad, 64)), ve, s.mem.getE(ad, n))});
    // overlapping candidates (unaligned) are not expected; check
    for (size_t i = 0; i + 1 < c.size(); i++) { std::sort(c.begin(), c.end()); if (c[i + 1] - c[i] < n) { Val av = a; if (!concretize(s, av, 64)) return false; return memStore(s, av, w, v); } }
    for (auto& x : wrs) s.mem.putE(x.first, x.second);
    return true;
}
static inline bool isShared(u64 a) { for (auto& r : g_shared) if (a - r.a < r.n) return true; return false; }
// locations written by any thread during the concurrent phase (computed as a fixpoint by restarting): reads of other
// locations commute with everything and are no scheduling points
static std::unordered_set<u64> g_written; static bool needRestart = false; static u64 stRestarts = 0;
static std::set<std::pair<u64, u64>> g_writtenImport;
static void exportWritten(std::vector<std::pair<std::string, u128>>& out) { for (size_t r = 0; r < g_shared.size(); r++) for (u64 o = 0; o < g_shared[r].n; o++) if (g_written.count(g_shared[r].a + o)) out.push_back({"@w:" + std::to_string(r) + ":" + std::to_string(o), 1}); }
static bool isWritten(u64 a, u64 n) { for (u64 i = 0; i < n; i++) if (g_written.count(a + i)) return true; return false; }
static void noteWrite(u64 a, u64 n) { for (u64 i = 0; i < n; i++) if (isShared(a + i) && g_written.insert(a + i).second) needRestart = true; }
static bool visibleAddr(const Val& a, u64 n, bool write) {
    if (!a.e) { if (!isShared(a.c)) return false; if (write) { noteWrite(a.c, n); return true; } return isWritten(a.c, n); }
    if (a.e->cl) { std::vector<u64> l; leavesOf(a.e, l); bool r = false; for (u64 x : l) if (isShared(x)) { if (write) { noteWrite(x, n); r = true; } else if (isWritten(x, n)) return true; } return r; }
    return true; }

// ---------------------------------------------------------------- decode
static void flat(Type* T, u32 off, std::vector<SlotT>& out) {
    if (T->isIntegerTy()) out.push_back({(u16)T->getIntegerBitWidth(), off});
    else if (T->isPointerTy()) out.push_back({64, off});
    else if (T->isFloatTy()) out.push_back({32, off});
    else if (T->isDoubleTy()) out.push_back({64, off});
    else if (T->isX86_FP80Ty()) out.push_back({80, off});
    else if (auto* ST = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) flat(ST->getElementType(i), off + L->getElementOffset(i), out); }
    else if (auto* AT = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(AT->getElementType()); for (u64 i = 0; i < AT->getNumElements(); i++) flat(AT->getElementType(), off + i * es, out); }
    else if (auto* VT = dyn_cast<FixedVectorType>(T)) { u64 eb = DL->getTypeSizeInBits(VT->getElementType()); for (u64 i = 0; i < VT->getNumElements(); i++) flat(VT->getElementType(), off + i * eb / 8, out); }
    else if (T->isVoidTy() || T->isMetadataTy() || T->isTokenTy() || T->isLabelTy()) {}
    else { fprintf(stderr, "symx: unsupported type\n"); T->dump(); exit(3); }
}
static std::vector<SlotT> slotsOf(Type* T) { std::vector<SlotT> v; flat(T, 0, v); return v; }
static u64 constAddr(const Constant* C);
static Val constVal(const Constant* C, unsigned w) {
    if (auto* CI = dyn_cast<ConstantInt>(C)) { if (w <= 64) return VC(CI->getZExtValue()); u128 v = 0; for (unsigned i = 0; i < CI->getValue().getNumWords() && i < 2; i++) v |= (u128)CI->getValue().getRawData()[i] << (64 * i); if (w > 128) { fprintf(stderr, "symx: wide int %u\n", w); exit(3);} return Val{mkConst(v, w), 0}; }
    if (auto* CF = dyn_cast<ConstantFP>(C)) { APInt b = CF->getValueAPF().bitcastToAPInt(); if (w <= 64) return VC(b.getZExtValue()); return Val{mkConst((u128)b.getRawData()[0] | ((u128)b.getRawData()[1] << 64), w), 0}; }
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { if (w > 64) return Val{mkConst(0, w), 0}; return VC(0); }
    return VC(m64(constAddr(C), w));
}
static u64 constAddr(const Constant* C) {
    if (auto* GV = dyn_cast<GlobalAlias>(C)) return constAddr(GV->getAliasee());
    if (auto* GV = dyn_cast<GlobalValue>(C)) { auto it = gaddr.find(GV); if (it == gaddr.end()) { fprintf(stderr, "symx: no address for %s\n", GV->getName().str().c_str()); exit(3); } return it->second; }
    if (auto* CI = dyn_cast<ConstantInt>(C)) return CI->getZExtValue();
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto* G = cast<GEPOperator>(CE); if (!G->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "symx: gep const\n"); exit(3);} return constAddr(cast<Constant>(CE->getOperand(0))) + off.getZExtValue(); }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::ZExt: return constAddr(CE->getOperand(0));
        case Instruction::Trunc: return m64(constAddr(CE->getOperand(0)), CE->getType()->getIntegerBitWidth());
        case Instruction::Add: return constAddr(CE->getOperand(0)) + constAddr(CE->getOperand(1));
        case Instruction::Sub: return constAddr(CE->getOperand(0)) - constAddr(CE->getOperand(1));
        case Instruction::ICmp: { auto p = (CmpInst::Predicate)CE->getPredicate(); u64 a = constAddr(CE->getOperand(0)), b = constAddr(CE->getOperand(1)); if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; if (p == CmpInst::ICMP_ULT) return a < b; if (p == CmpInst::ICMP_UGT) return a > b; break; }
        case Instruction::And: return constAddr(CE->getOperand(0)) & constAddr(CE->getOperand(1));
        case Instruction::Or: return constAddr(CE->getOperand(0)) | constAddr(CE->getOperand(1));
        default: break;
        }
    }
    fprintf(stderr, "symx: const expr unsupported: "); C->print(errs()); fprintf(stderr, "\n"); exit(3);
}
static int pool(Val v) { cpool.push_back(v); return ~(int)(cpool.size() - 1); }
static void flatConst(const Constant* C, std::vector<Val>& out) {
    Type* T = C->getType();
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
        unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        for (unsigned i = 0; i < n; i++) { Constant* el = C->getAggregateElement(i); if (!el) { fprintf(stderr, "symx: agg const\n"); exit(3);} flatConst(el, out); }
        return; }
    out.push_back(constVal(C, DL->getTypeSizeInBits(T)));
}
static void initGlobalMem(Memory& m, u64 a, const Constant* C) {
    Type* T = C->getType();
    if (isa<UndefValue>(C) || C->isNullValue()) return; // zero-filled
    if (auto* CDS = dyn_cast<ConstantDataSequential>(C)) { StringRef d = CDS->getRawDataValues(); for (size_t i = 0; i < d.size(); i++) m.putC(a + i, (const u8*)&d.data()[i], 1); return; }
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
        if (auto* ST = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) initGlobalMem(m, a + L->getElementOffset(i), C->getAggregateElement(i)); }
        else { Type* et = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType(); u64 es = DL->getTypeAllocSize(et); unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); for (unsigned i = 0; i < n; i++) initGlobalMem(m, a + i * es, C->getAggregateElement(i)); }
        return; }
    unsigned w = DL->getTypeSizeInBits(T); Val v = constVal(C, w);
    if (v.e) m.putE(a, v.e); else { u64 x = v.c; m.putC(a, (u8*)&x, (w + 7) / 8); }
}
static Func* getFunc(const Function* F) { auto it = fmap.find(F); return it == fmap.end() ? nullptr : it->second; }
static int builtinId(StringRef n);
static void decode(Func* f) {
    if (f->decoded) return; f->decoded = true; Function& F = *f->F;
    std::unordered_map<const Value*, int> slot; int n = 0;
    auto assign = [&](const Value* v) { auto sl = slotsOf(v->getType()); slot[v] = n; n += sl.size(); for (auto& x : sl) f->regW.push_back(x.w); };
    for (auto& A : F.args()) assign(&A);
    for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) assign(&I);
    f->nregs = n;
    auto opsOf = [&](const Value* v) -> std::vector<int> {
        std::vector<int> r;
        if (auto* C = dyn_cast<Constant>(v)) { std::vector<Val> vs; flatConst(C, vs); for (auto& x : vs) r.push_back(pool(x)); return r; }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return r;
        int s = slot.at(v); size_t c = slotsOf(v->getType()).size(); for (size_t i = 0; i < c; i++) r.push_back(s + i); return r; };
    auto op1 = [&](const Value* v) { return opsOf(v)[0]; };
    std::unordered_map<const BasicBlock*, u32> bpc; std::vector<std::tuple<u32, const BasicBlock*, const BasicBlock*>> fix; // edge idx
    auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) -> u32 { f->edges.push_back({}); u32 id = f->edges.size() - 1; fix.push_back({id, from, to}); return id; };
    for (auto& B : F) {
        bpc[&B] = f->code.size();
        for (auto& I : B) {
            if (isa<PHINode>(I)) continue;
            DI d; d.I = &I; d.op = D_UNSUP; Type* T = I.getType(); if (!T->isVoidTy()) d.dst = slot[&I];
            auto emit = [&] { f->code.push_back(d); };
            if (auto* BO = dyn_cast<BinaryOperator>(&I)) {
                auto a = opsOf(BO->getOperand(0)), b = opsOf(BO->getOperand(1)); auto sl = slotsOf(T);
                bool fp = T->isFPOrFPVectorTy();
                static const std::map<unsigned, Op> mp = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
                int base = d.dst;
                for (size_t i = 0; i < sl.size(); i++) { d.dst = base + i; d.w = sl[i].w; d.ops = {a[i], b[i]}; if (fp) { d.op = D_FPBIN; d.sub = BO->getOpcode() - Instruction::FAdd; d.aux = BO->getOpcode(); } else { d.op = D_BIN; d.sub = mp.at(BO->getOpcode()); } emit(); }
                continue; }
            if (auto* U = dyn_cast<UnaryOperator>(&I)) { d.op = D_FNEG; d.w = slotsOf(T)[0].w; d.ops = {op1(U->getOperand(0))}; emit(); continue; }
            if (auto* CI = dyn_cast<CmpInst>(&I)) {
                auto a = opsOf(CI->getOperand(0)), b = opsOf(CI->getOperand(1)); auto sl = slotsOf(CI->getOperand(0)->getType()); int base = d.dst;
                for (size_t i = 0; i < sl.size(); i++) { d.dst = base + i; d.w = sl[i].w; d.ops = {a[i], b[i]}; d.op = isa<FCmpInst>(CI) ? D_FPCMP : D_CMP; d.sub = CI->getPredicate(); emit(); }
                continue; }
            if (auto* CA = dyn_cast<CastInst>(&I)) {
                auto ss = slotsOf(CA->getSrcTy()), ds = slotsOf(T); auto a = opsOf(CA->getOperand(0)); int base = d.dst;
                unsigned opc = CA->getOpcode();
                if (opc == Instruction::BitCast && (ss.size() != ds.size())) { d.op = D_BITCASTV; d.ops = a; f->accs.push_back({}); for (auto& x : ss) f->accs.back().slots.push_back(x); d.aux = f->accs.size() - 1; f->accs.push_back({}); f->accs.back().slots = ds; emit(); continue; }
                for (size_t i = 0; i < ds.size(); i++) { d.dst = base + i; d.w = ds[i].w; d.aux = ss[i].w; d.ops = {a[i]};
                    switch (opc) { case Instruction::ZExt: d.op = D_ZEXT; break; case Instruction::SExt: d.op = D_SEXT; break; case Instruction::Trunc: d.op = D_TRUNC; break;
                    case Instruction::BitCast: d.op = D_COPY; break;
                    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: d.op = ds[i].w > ss[i].w ? D_ZEXT : ds[i].w < ss[i].w ? D_TRUNC : D_COPY; break;
                    default: d.op = D_FPCAST; d.sub = opc; break; }
                    emit(); }
                continue; }
            if (auto* SI = dyn_cast<SelectInst>(&I)) { auto c = opsOf(SI->getCondition()), a = opsOf(SI->getTrueValue()), b = opsOf(SI->getFalseValue()); auto sl = slotsOf(T); int base = d.dst;
                for (size_t i = 0; i < sl.size(); i++) { d.op = D_SELECT; d.dst = base + i; d.w = sl[i].w; d.ops = {c.size() == 1 ? c[0] : c[i], a[i], b[i]}; emit(); } continue; }
            if (auto* L = dyn_cast<LoadInst>(&I)) { d.op = D_LOAD; d.ops = {op1(L->getPointerOperand())}; f->accs.push_back({slotsOf(T), L->getOrdering()}); d.aux = f->accs.size() - 1; emit(); continue; }
            if (auto* St = dyn_cast<StoreInst>(&I)) { d.op = D_STORE; d.ops = {op1(St->getPointerOperand())}; for (int x : opsOf(St->getValueOperand())) d.ops.push_back(x); f->accs.push_back({slotsOf(St->getValueOperand()->getType()), St->getOrdering()}); d.aux = f->accs.size() - 1; emit(); continue; }
            if (auto* A = dyn_cast<AllocaInst>(&I)) { d.op = D_ALLOCA; d.ops = {op1(A->getArraySize())}; d.aux = DL->getTypeAllocSize(A->getAllocatedType()); d.w = A->getAlign().value(); emit(); continue; }
            if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
                if (T->isVectorTy()) { emit(); continue; }
                d.op = D_GEP; d.ops = {op1(G->getPointerOperand())}; GepInfo gi; gi.off = 0;
                for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { Value* ix = it.getOperand();
                    if (StructType* ST = it.getStructTypeOrNull()) gi.off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    else { u64 es = DL->getTypeAllocSize(it.getIndexedType()); if (auto* CI = dyn_cast<ConstantInt>(ix)) gi.off += (u64)CI->getSExtValue() * es; else { gi.idx.push_back({op1(ix), es}); gi.iw.push_back(ix->getType()->getIntegerBitWidth()); } } }
                f->geps.push_back(gi); d.aux = f->geps.size() - 1; emit(); continue; }
            if (auto* Br = dyn_cast<BranchInst>(&I)) { if (Br->isConditional()) { d.op = D_CBR; d.ops = {op1(Br->getCondition())}; d.aux = mkEdge(&B, Br->getSuccessor(0)); mkEdge(&B, Br->getSuccessor(1)); } else { d.op = D_BR; d.aux = mkEdge(&B, Br->getSuccessor(0)); } emit(); continue; }
            if (auto* Sw = dyn_cast<SwitchInst>(&I)) { d.op = D_SWITCH; d.ops = {op1(Sw->getCondition())}; d.w = Sw->getCondition()->getType()->getIntegerBitWidth(); SwitchInfo si; for (auto& c : Sw->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), mkEdge(&B, c.getCaseSuccessor())}); si.def = mkEdge(&B, Sw->getDefaultDest()); f->sws.push_back(si); d.aux = f->sws.size() - 1; emit(); continue; }
            if (auto* R = dyn_cast<ReturnInst>(&I)) { d.op = D_RET; if (R->getReturnValue()) d.ops = opsOf(R->getReturnValue()); emit(); continue; }
            if (isa<UnreachableInst>(I)) { d.op = D_UNREACH; emit(); continue; }
            if (isa<FreezeInst>(I)) { auto a = opsOf(I.getOperand(0)); int base = d.dst; for (size_t i = 0; i < a.size(); i++) { d.op = D_COPY; d.dst = base + i; d.ops = {a[i]}; emit(); } continue; }
            if (auto* X = dyn_cast<ExtractValueInst>(&I)) { Type* AT = X->getAggregateOperand()->getType(); auto a = opsOf(X->getAggregateOperand()); size_t o = 0; Type* cur = AT; for (unsigned ix : X->indices()) { if (cur->isStructTy()) { for (unsigned k = 0; k < ix; k++) o += slotsOf(cur->getStructElementType(k)).size(); cur = cur->getStructElementType(ix); } else { cur = cur->getArrayElementType(); o += ix * slotsOf(cur).size(); } }
                size_t c = slotsOf(cur).size(); int base = d.dst; for (size_t i = 0; i < c; i++) { d.op = D_COPY; d.dst = base + i; d.ops = {a[o + i]}; emit(); } continue; }
            if (auto* X = dyn_cast<InsertValueInst>(&I)) { Type* AT = X->getAggregateOperand()->getType(); auto a = opsOf(X->getAggregateOperand()), b = opsOf(X->getInsertedValueOperand()); size_t o = 0; Type* cur = AT; for (unsigned ix : X->indices()) { if (cur->isStructTy()) { for (unsigned k = 0; k < ix; k++) o += slotsOf(cur->getStructElementType(k)).size(); cur = cur->getStructElementType(ix); } else { cur = cur->getArrayElementType(); o += ix * slotsOf(cur).size(); } }
                int base = d.dst; for (size_t i = 0; i < a.size(); i++) { d.op = D_COPY; d.dst = base + i; d.ops = {i >= o && i < o + b.size() ? b[i - o] : a[i]}; emit(); } continue; }
            if (auto* X = dyn_cast<ExtractElementInst>(&I)) { auto a = opsOf(X->getVectorOperand()); if (auto* CI = dyn_cast<ConstantInt>(X->getIndexOperand())) { d.op = D_COPY; d.ops = {a[CI->getZExtValue()]}; emit(); } else emit(); continue; }
            if (auto* X = dyn_cast<InsertElementInst>(&I)) { auto a = opsOf(X->getOperand(0)); int v = op1(X->getOperand(1)); if (auto* CI = dyn_cast<ConstantInt>(X->getOperand(2))) { int base = d.dst; for (size_t i = 0; i < a.size(); i++) { d.op = D_COPY; d.dst = base + i; d.ops = {i == CI->getZExtValue() ? v : a[i]}; emit(); } } else emit(); continue; }
            if (auto* X = dyn_cast<ShuffleVectorInst>(&I)) { auto a = opsOf(X->getOperand(0)), b = opsOf(X->getOperand(1)); int base = d.dst; auto mask = X->getShuffleMask(); for (size_t i = 0; i < mask.size(); i++) { d.op = D_COPY; d.dst = base + i; int k = mask[i]; d.ops = {k < 0 ? pool(VC(0)) : k < (int)a.size() ? a[k] : b[k - a.size()]}; emit(); } continue; }
            if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) { d.op = D_CMPXCHG; d.ops = {op1(X->getPointerOperand()), op1(X->getCompareOperand()), op1(X->getNewValOperand())}; d.w = slotsOf(X->getCompareOperand()->getType())[0].w; f->accs.push_back({{}, X->getSuccessOrdering()}); f->accs.push_back({{}, X->getFailureOrdering()}); d.aux = f->accs.size() - 2; emit(); continue; }
            if (auto* X = dyn_cast<AtomicRMWInst>(&I)) { d.op = D_RMW; d.ops = {op1(X->getPointerOperand()), op1(X->getValOperand())}; d.w = slotsOf(X->getValOperand()->getType())[0].w; d.sub = X->getOperation(); f->accs.push_back({{}, X->getOrdering()}); d.aux = f->accs.size() - 1; emit(); continue; }
            if (auto* X = dyn_cast<FenceInst>(&I)) { d.op = D_FENCE; d.sub = (u8)X->getOrdering(); emit(); continue; }
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (auto* II = dyn_cast<IntrinsicInst>(&I)) { switch (II->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect: continue; default: break; } }
                d.op = D_CALL; CallInfo ci; Value* cv = CB->getCalledOperand()->stripPointerCasts(); if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
                if (auto* CF = dyn_cast<Function>(cv)) ci.direct = getFunc(CF); else if (isa<InlineAsm>(cv)) { ci.direct = nullptr; ci.callee = pool(VC(0)); d.sub = 1; } else ci.callee = op1(cv);
                for (unsigned i = 0; i < CB->arg_size(); i++) { Value* a = CB->getArgOperand(i); auto o = opsOf(a); auto sl = slotsOf(a->getType()); for (size_t k = 0; k < o.size(); k++) { ci.args.push_back(o[k]); ci.widths.push_back(sl[k].w); u64 bs = 0, al = 0; if (CB->isByValArgument(i)) { bs = DL->getTypeAllocSize(CB->getParamByValType(i)); al = CB->getParamAlign(i).valueOrOne().value(); } ci.byval.push_back({bs, al}); } }
                ci.nret = slotsOf(T).size(); f->calls.push_back(ci); d.aux = f->calls.size() - 1; if (!T->isVoidTy()) { auto sl = slotsOf(T); d.w = sl.empty() ? 0 : sl[0].w; }
                emit();
                if (auto* INV = dyn_cast<InvokeInst>(&I)) { DI b; b.I = &I; b.op = D_BR; b.aux = mkEdge(&B, INV->getNormalDest()); f->code.push_back(b); }
                continue; }
            emit(); // unsupported
        }
    }
    for (auto& [id, from, to] : fix) { Edge& e = f->edges[id]; e.target = bpc[to]; for (auto& P : to->phis()) { auto src = opsOf(P.getIncomingValueForBlock(from)); int dst = slot[&P]; for (size_t i = 0; i < src.size(); i++) e.moves.push_back({dst + (int)i, src[i]}); } }
}

#include "builtins.inc"
#include "exec.inc"
