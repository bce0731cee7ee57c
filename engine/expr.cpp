#include "expr.h"
#include <deque>
#include <algorithm>
#include <cstring>
std::vector<VarInfo> g_vars;
static std::deque<Expr> g_arena;
struct KeyHash { size_t operator()(E e) const {
    u64 h = (u64)e->op * 0x9E3779B97F4A7C15ull ^ ((u64)e->w << 32);
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
    mix((u64)e->a); mix((u64)e->b); mix((u64)e->c); mix((u64)e->v); mix((u64)(e->v >> 64)); return h; } };
struct KeyEq { bool operator()(E x, E y) const { return x->op == y->op && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v; } };
static std::unordered_set<E, KeyHash, KeyEq> g_tab;
static std::unordered_map<std::string, u32> g_varIdx;
size_t numExprs() { return g_arena.size(); }

static E intern(Op op, unsigned w, E a, E b, E c, u128 v) {
    Expr k; k.op = op; k.w = w; k.a = a; k.b = b; k.c = c; k.v = v; k.cl = false; k.id = 0; k.cls = 0;
    auto it = g_tab.find(&k);
    if (it != g_tab.end()) return *it;
    k.id = g_arena.size();
    if (op == O_CONST) { k.cl = true; k.cls = 1; }
    else if (op == O_ITE && b->cl && c->cl) { k.cl = true; u64 s = (u64)b->cls + c->cls; k.cls = s > 1000000 ? 1000000 : s; }
    g_arena.push_back(k);
    E e = &g_arena.back();
    g_tab.insert(e);
    return e;
}
E mkConst(u128 v, unsigned w) { return intern(O_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkVar(const std::string& name, unsigned w) {
    auto it = g_varIdx.find(name);
    if (it != g_varIdx.end()) { if (g_vars[it->second].w != w) { fprintf(stderr, "symx: var %s width clash\n", name.c_str()); exit(3);} return g_vars[it->second].e; }
    u32 idx = g_vars.size();
    E e = intern(O_VAR, w, nullptr, nullptr, nullptr, idx);
    g_vars.push_back({name, w, e}); g_varIdx[name] = idx; return e;
}
u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
    u128 m = maskw(w);
    switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m; case O_UREM: return b ? a % b : a;
    case O_SDIV: { i128 x = sxt(a, w), y = sxt(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case O_SREM: { i128 x = sxt(a, w), y = sxt(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case O_ASHR: { i128 x = sxt(a, w); return (u128)(x >> (b >= w ? (w > 127 ? 127 : w) : (unsigned)b)) & m; }
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sxt(a, w) < sxt(b, w); case O_SLE: return sxt(a, w) <= sxt(b, w);
    case O_CONCAT: default: break;
    }
    abort();
}
static bool isCmp(Op op) { return op >= O_EQ && op <= O_SLE; }
static const size_t CLCAP = 3000;
static bool complementary(E x, E y) {
    if (x->op == O_NOT && x->a == y) return true;
    if (y->op == O_NOT && y->a == x) return true;
    if (x->w == 1 && y->w == 1) {
        if ((x->op == O_ULT && y->op == O_ULE) || (x->op == O_ULE && y->op == O_ULT) || (x->op == O_SLT && y->op == O_SLE) || (x->op == O_SLE && y->op == O_SLT))
            return x->a == y->b && x->b == y->a;
    }
    return false;
}
E pushCL(E x, const std::function<E(E)>& f, size_t cap, bool& ok) {
    std::unordered_map<E, E> memo; ok = true;
    std::function<E(E)> rec = [&](E n) -> E {
        if (!ok) return nullptr;
        if (n->op == O_CONST) return f(n);
        auto it = memo.find(n); if (it != memo.end()) return it->second;
        if (memo.size() > cap) { ok = false; return nullptr; }
        E t = rec(n->b); if (!ok) return nullptr;
        E e = rec(n->c); if (!ok) return nullptr;
        E r = mkIte(n->a, t, e); memo[n] = r; return r;
    };
    return rec(x);
}
E mkNot(E a) {
    if (isC(a)) return mkConst(~a->v, a->w);
    if (a->op == O_NOT) return a->a;
    if (a->w == 1) {
        if (a->op == O_ULT) return mkBin(O_ULE, a->b, a->a);
        if (a->op == O_ULE) return mkBin(O_ULT, a->b, a->a);
        if (a->op == O_SLT) return mkBin(O_SLE, a->b, a->a);
        if (a->op == O_SLE) return mkBin(O_SLT, a->b, a->a);
    }
    if (a->cl && a->w > 1 && a->cls <= CLCAP) { bool ok; E r = pushCL(a, [&](E k) { return mkNot(k); }, CLCAP, ok); if (ok) return r; }
    return intern(O_NOT, a->w, a, nullptr, nullptr, 0);
}
static unsigned knownZeroLow(E e) { // trailing zero bits
    switch (e->op) {
    case O_CONST: { if (e->v == 0) return e->w; unsigned n = 0; while (!((e->v >> n) & 1)) n++; return n; }
    case O_SHL: if (isC(e->b)) { u64 s = (u64)e->b->v + knownZeroLow(e->a); return s > e->w ? e->w : s; } return knownZeroLow(e->a);
    case O_CONCAT: { unsigned n = knownZeroLow(e->b); if (n == e->b->w) return n + knownZeroLow(e->a); return n; }
    case O_ZEXT: { unsigned n = knownZeroLow(e->a); return n == e->a->w ? e->w : n; }
    case O_MUL: { unsigned n = knownZeroLow(e->a) + knownZeroLow(e->b); return n > e->w ? e->w : n; }
    case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(knownZeroLow(e->a), knownZeroLow(e->b));
    case O_AND: return std::max(knownZeroLow(e->a), knownZeroLow(e->b));
    default: return 0;
    }
}
static unsigned activeBits(E e) { // upper bound of significant bits
    switch (e->op) {
    case O_CONST: { unsigned n = 0; u128 v = e->v; while (v) { n++; v >>= 1; } return n; }
    case O_ZEXT: return activeBits(e->a);
    case O_CONCAT: { unsigned n = activeBits(e->a); return n ? n + e->b->w : activeBits(e->b); }
    case O_AND: return std::min(activeBits(e->a), activeBits(e->b));
    case O_OR: case O_XOR: return std::max(activeBits(e->a), activeBits(e->b));
    case O_ITE: if (e->cls && e->cls > 64) return e->w; return std::max(activeBits(e->b), activeBits(e->c));
    case O_UREM: return std::min(activeBits(e->a), activeBits(e->b));
    case O_UDIV: return activeBits(e->a);
    case O_LSHR: if (isC(e->b)) { unsigned n = activeBits(e->a); u64 s = (u64)e->b->v; return n > s ? n - s : 0; } return activeBits(e->a);
    default: return e->w;
    }
}
E mkZext(E a, unsigned w) {
    if (a->w == w) return a;
    assert(w > a->w);
    if (isC(a)) return mkConst(a->v, w);
    if (a->op == O_ZEXT) return mkZext(a->a, w);
    if (a->cl && a->cls <= CLCAP) { bool ok; E r = pushCL(a, [&](E k) { return mkConst(k->v, w); }, CLCAP, ok); if (ok) return r; }
    if (a->op == O_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
    return intern(O_ZEXT, w, a, nullptr, nullptr, 0);
}
E mkSext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst((u128)sxt(a->v, a->w), w);
    if (a->op == O_ZEXT) return mkZext(a->a, w);
    if (a->op == O_SEXT) return mkSext(a->a, w);
    if (a->cl && a->cls <= CLCAP) { bool ok; E r = pushCL(a, [&](E k) { return mkSext(k, w); }, CLCAP, ok); if (ok) return r; }
    if (a->w == 1) return mkIte(a, mkConst(~(u128)0, w), mkConst(0, w));
    return intern(O_SEXT, w, a, nullptr, nullptr, 0);
}
E mkExtractRaw(E a, unsigned lo, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return mkConst(a->v >> lo, w);
    if (a->op == O_EXTRACT) return mkExtractRaw(a->a, lo + (unsigned)a->v, w);
    if (a->op == O_ZEXT) { if (lo >= a->a->w) return mkConst(0, w); if (lo + w <= a->a->w) return mkExtractRaw(a->a, lo, w); }
    if (a->op == O_CONCAT) { unsigned lw = a->b->w; if (lo + w <= lw) return mkExtractRaw(a->b, lo, w); if (lo >= lw) return mkExtractRaw(a->a, lo - lw, w); }
    return intern(O_EXTRACT, w, a, nullptr, nullptr, lo);
}
E mkExtract(E a, unsigned lo, unsigned w) {
    if (w == a->w) return a;
    assert(lo + w <= a->w);
    if (isC(a)) return mkConst(a->v >> lo, w);
    switch (a->op) {
    case O_EXTRACT: return mkExtract(a->a, lo + (unsigned)a->v, w);
    case O_ZEXT: if (lo >= a->a->w) return mkConst(0, w); if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo == 0) return mkZext(a->a, w); return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    case O_SEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo == 0) return mkSext(a->a, w); break;
    case O_CONCAT: { unsigned lw = a->b->w; if (lo + w <= lw) return mkExtract(a->b, lo, w); if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case O_AND: case O_OR: case O_XOR: if (isC(a->b) || isC(a->a)) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
    case O_NOT: return mkNot(mkExtract(a->a, lo, w));
    case O_ADD: case O_SUB: case O_MUL: if (lo == 0 ) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case O_ITE:
        if (a->cl && a->cls <= CLCAP) { bool ok; E r = pushCL(a, [&](E k) { return mkConst(k->v >> lo, w); }, CLCAP, ok); if (ok) return r; }
        if (!a->cl) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        break;
    default: break;
    }
    return intern(O_EXTRACT, w, a, nullptr, nullptr, lo);
}
E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, w);
    if (isC(hi) && hi->v == 0) return mkZext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && (unsigned)hi->v == (unsigned)lo->v + lo->w) return mkExtractRaw(hi->a, (unsigned)lo->v, w);
    if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && (unsigned)hi->v == (unsigned)lo->a->v + lo->a->w) return mkConcat(mkConcat(hi, lo->a), lo->b);
    if (hi->op == O_ITE && lo->op == O_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (isC(hi) && lo->cl && lo->cls <= CLCAP) { bool ok; E r = pushCL(lo, [&](E k) { return mkConst((hi->v << lo->w) | k->v, w); }, CLCAP, ok); if (ok) return r; }
    if (isC(lo) && hi->cl && hi->cls <= CLCAP) { bool ok; E r = pushCL(hi, [&](E k) { return mkConst((k->v << lo->w) | lo->v, w); }, CLCAP, ok); if (ok) return r; }
    if (hi->op == O_ITE && hi->cl && lo->op == O_ITE && lo->cl && (u64)hi->cls * lo->cls <= 64) {
        bool ok; E r = pushCL(hi, [&](E k) { return mkConcat(k, lo); }, CLCAP, ok); if (ok) return r; }
    if (hi->op == O_ZEXT && lo->op != O_CONST) { /* keep */ }
    if (hi->op == O_CONCAT && lo->op == O_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo)); // right-assoc normal form
    if (hi->op == O_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
    return intern(O_CONCAT, w, hi, lo, nullptr, 0);
}
E mkIte(E c, E t, E e) {
    if (isC(c)) return c->v ? t : e;
    if (t == e) return t;
    if (c->op == O_NOT) return mkIte(c->a, e, t);
    if (t->w == 1) {
        if (isT(t) && isF(e)) return c;
        if (isF(t) && isT(e)) return mkNot(c);
        if (isT(t)) return mkOr(c, e);
        if (isF(t)) return mkAnd(mkNot(c), e);
        if (isT(e)) return mkOr(mkNot(c), t);
        if (isF(e)) return mkAnd(c, t);
        if (t == c) return mkOr(c, e);
        if (e == c) return mkAnd(c, t);
    }
    if (t->op == O_ITE && t->a == c) return mkIte(c, t->b, e);
    if (e->op == O_ITE && e->a == c) return mkIte(c, t, e->c);
    if (e->op == O_ITE && e->b == t) return mkIte(mkOr(c, e->a), t, e->c);
    if (e->op == O_ITE && e->c == t) return mkIte(mkOr(c, mkNot(e->a)), t, e->b);
    if (t->op == O_ITE && t->c == e) return mkIte(mkAnd(c, t->a), t->b, e);
    if (t->op == O_ITE && t->b == e) return mkIte(mkAnd(c, mkNot(t->a)), t->c, e);
    if (t->op == O_CONCAT && e->op == O_CONCAT && t->b->w == e->b->w && (t->b == e->b || t->a == e->a)) return mkConcat(mkIte(c, t->a, e->a), mkIte(c, t->b, e->b));
    return intern(O_ITE, t->w, c, t, e, 0);
}
static void flattenB(Op op, E e, std::vector<E>& out, int depth) { if (e->op == op && e->w == 1 && depth < 4) { flattenB(op, e->a, out, depth + 1); flattenB(op, e->b, out, depth + 1);} else out.push_back(e); }
E mkEq(E a, E b) { return mkBin(O_EQ, a, b); }
E mkBin(Op op, E a, E b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "symx: width mismatch op %d: %u vs %u\n", op, a->w, b->w); abort(); }
    if (isC(a) && isC(b)) { u128 r = foldBin(op, a->v, b->v, w); return mkConst(r, isCmp(op) ? 1 : w); }
    bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
    if (comm) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
    u128 m = maskw(w);
    // constant-leaf pushing (not for width-1 boolean connectives)
    if (!(w == 1 && (op == O_AND || op == O_OR || op == O_XOR))) {
        if (a->cl && isC(b) && a->op == O_ITE && a->cls <= CLCAP) { bool ok; E r = pushCL(a, [&](E k) { return mkBin(op, k, b); }, CLCAP, ok); if (ok) return r; }
        if (b->cl && isC(a) && b->op == O_ITE && b->cls <= CLCAP) { bool ok; E r = pushCL(b, [&](E k) { return mkBin(op, a, k); }, CLCAP, ok); if (ok) return r; }
        if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) { return mkIte(a->a, mkBin(op, a->b, b->b), mkBin(op, a->c, b->c)); }
        if (a->cl && b->cl && (u64)a->cls * b->cls <= 400) { bool ok; E r = pushCL(a, [&](E k) { return mkBin(op, k, b); }, CLCAP, ok); if (ok) return r; }
    }
    switch (op) {
    case O_ADD:
        if (isC(b)) { if (b->v == 0) return a;
            if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, a->a, mkConst(a->b->v + b->v, w));
            if (a->op == O_SUB && isC(a->a)) return mkBin(O_SUB, mkConst(a->a->v + b->v, w), a->b);
            if (a->op == O_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(O_ADD, a->b, b), mkBin(O_ADD, a->c, b));
        } else {
            if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_ADD, a->a, b), a->b);
            if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_ADD, a, b->a), b->b);
            if (a->op == O_SUB && a->b == b) return a->a;
            if (b->op == O_SUB && b->b == a) return b->a;
        }
        if (w == 1) return mkBin(O_XOR, a, b);
        break;
    case O_SUB:
        if (a == b) return mkConst(0, w);
        if (isC(b)) return mkBin(O_ADD, a, mkConst((~b->v + 1) & m, w));
        if (a->op == O_ADD && a->a == b) return a->b;
        if (a->op == O_ADD && a->b == b) return a->a;
        if (b->op == O_ADD && isC(b->b)) { E r = mkBin(O_SUB, a, b->a); return mkBin(O_SUB, r, b->b); }
        if (a->op == O_ADD && isC(a->b)) { E r = mkBin(O_SUB, a->a, b); return mkBin(O_ADD, r, a->b); }
        if (w == 1) return mkBin(O_XOR, a, b);
        break;
    case O_MUL:
        if (isC(b)) { if (b->v == 0) return b; if (b->v == 1) return a;
            if ((b->v & (b->v - 1)) == 0) { unsigned n = 0; while (!((b->v >> n) & 1)) n++; return mkBin(O_SHL, a, mkConst(n, w)); } }
        if (w == 1) return mkAnd(a, b);
        break;
    case O_UDIV: if (isC(b)) { if (b->v == 1) return a; if (b->v && (b->v & (b->v - 1)) == 0) { unsigned n = 0; while (!((b->v >> n) & 1)) n++; return mkBin(O_LSHR, a, mkConst(n, w)); }
            unsigned ab = activeBits(a); if (ab < w && ab < 128 && b->v && (b->v >> ab) == 0 && ab > 0 && w >= ab * 2 && ab>=8) { return mkZext(mkBin(O_UDIV, mkExtract(a, 0, ab), mkConst(b->v, ab)), w);} } break;
    case O_UREM: if (isC(b)) { if (b->v == 1) return mkConst(0, w); if (b->v && (b->v & (b->v - 1)) == 0) return mkBin(O_AND, a, mkConst(b->v - 1, w));
            unsigned ab = activeBits(a); if (ab < w && b->v && (b->v >> ab) == 0 && ab > 0 && w >= ab * 2 && ab>=8) { return mkZext(mkBin(O_UREM, mkExtract(a, 0, ab), mkConst(b->v, ab)), w);} } break;
    case O_AND:
        if (a == b) return a;
        if (isC(b)) { if (b->v == 0) return b; if (b->v == m) return a;
            if (w > 1) { // mask -> extract/concat
                u128 bv = b->v; unsigned lo = 0; while (!((bv >> lo) & 1)) lo++; u128 s = bv >> lo;
                if ((s & (s + 1)) == 0) { unsigned n = 0; while ((s >> n) & 1) n++; // contiguous n bits at lo
                    E x = mkExtract(a, lo, n); if (lo) x = mkConcat(x, mkConst(0, lo)); return mkZext(x, w); }
                if (a->op == O_AND && isC(a->b)) return mkBin(O_AND, a->a, mkConst(a->b->v & bv, w));
            } }
        if (w == 1) {
            if (complementary(a, b)) return mkFalse();
            std::vector<E> f; flattenB(O_AND, a, f, 0); for (E x : f) { if (x == b) return a; if (complementary(x, b)) return mkFalse(); }
            f.clear(); flattenB(O_AND, b, f, 0); for (E x : f) { if (x == a) return b; if (complementary(x, a)) return mkFalse(); }
            for (int k = 0; k < 2; k++) { E p = k ? b : a, q = k ? a : b; if (q->op == O_OR) { if (q->a == p || q->b == p) return p; if (complementary(q->a, p)) return mkAnd(p, q->b); if (complementary(q->b, p)) return mkAnd(p, q->a); } }
            // eq(x,c1) && eq(x,c2)
            if (a->op == O_EQ && b->op == O_EQ && a->a == b->a && isC(a->b) && isC(b->b) && a->b != b->b) return mkFalse();
        }
        if (w > 1 && ((a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w))) return mkConcat(mkAnd(a->a, b->a), mkAnd(a->b, b->b));
        break;
    case O_OR:
        if (a == b) return a;
        if (isC(b)) { if (b->v == 0) return a; if (b->v == m) return b; }
        if (w == 1) {
            if (complementary(a, b)) return mkTrue();
            std::vector<E> f; flattenB(O_OR, a, f, 0); for (E x : f) { if (x == b) return a; if (complementary(x, b)) return mkTrue(); }
            f.clear(); flattenB(O_OR, b, f, 0); for (E x : f) { if (x == a) return b; if (complementary(x, a)) return mkTrue(); }
            for (int k = 0; k < 2; k++) { E p = k ? b : a, q = k ? a : b; if (q->op == O_AND) { if (q->a == p || q->b == p) return p; if (complementary(q->a, p)) return mkOr(p, q->b); if (complementary(q->b, p)) return mkOr(p, q->a); } }
            if (a->op == O_AND && b->op == O_AND) { // (x&y)|(x&!y) = x ; factor
                E xs[2] = {a->a, a->b}, ys[2] = {b->a, b->b};
                for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (xs[i] == ys[j]) return mkAnd(xs[i], mkOr(xs[1 - i], ys[1 - j]));
            }
        } else {
            // disjoint bits -> concat
            for (int k = 0; k < 2; k++) { E hi = k ? b : a, lo = k ? a : b; unsigned z = knownZeroLow(hi); unsigned ab = activeBits(lo);
                if (z > 0 && z < w && ab <= z && ab > 0) return mkConcat(mkExtract(hi, z, w - z), mkExtract(lo, 0, z)); }
            if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) return mkConcat(mkOr(a->a, b->a), mkOr(a->b, b->b));
        }
        break;
    case O_XOR:
        if (a == b) return mkConst(0, w);
        if (isC(b)) { if (b->v == 0) return a; if (b->v == m) return mkNot(a); if (a->op == O_XOR && isC(a->b)) return mkBin(O_XOR, a->a, mkConst(a->b->v ^ b->v, w)); }
        if (w == 1 && complementary(a, b)) return mkTrue();
        break;
    case O_SHL:
        if (isC(b)) { u64 s = b->v >= w ? w : (u64)b->v; if (s == 0) return a; if (s >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
        if (isF(a)) return a;
        break;
    case O_LSHR:
        if (isC(b)) { u64 s = b->v >= w ? w : (u64)b->v; if (s == 0) return a; if (s >= w) return mkConst(0, w); return mkZext(mkExtract(a, s, w - s), w); }
        if (isF(a)) return a;
        break;
    case O_ASHR:
        if (isC(b)) { u64 s = b->v >= w ? w - 1 : (u64)b->v; if (s == 0) return a; return mkSext(mkExtract(a, s, w - s), w); }
        break;
    case O_EQ:
        if (a == b) return mkTrue();
        if (w == 1) { if (isC(b)) return b->v ? a : mkNot(a); if (complementary(a, b)) return mkFalse(); }
        if (isC(b)) {
            if (a->op == O_ZEXT) { if (b->v >> a->a->w) return mkFalse(); return mkEq(a->a, mkConst(b->v, a->a->w)); }
            if (a->op == O_CONCAT) return mkAnd(mkEq(a->b, mkConst(b->v, a->b->w)), mkEq(a->a, mkConst(b->v >> a->b->w, a->a->w)));
            if (a->op == O_ADD && isC(a->b)) return mkEq(a->a, mkConst(b->v - a->b->v, w));
            if (a->op == O_SUB && isC(a->a)) return mkEq(a->b, mkConst(a->a->v - b->v, w));
            if (a->op == O_NOT) return mkEq(a->a, mkConst(~b->v, w));
            if (a->op == O_XOR && isC(a->b)) return mkEq(a->a, mkConst(b->v ^ a->b->v, w));
            if (a->op == O_SEXT) { u128 lowv = b->v & maskw(a->a->w); if (((u128)sxt(lowv, a->a->w) & m) != b->v) return mkFalse(); return mkEq(a->a, mkConst(lowv, a->a->w)); }
            if (a->op == O_ITE) { if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b)); }
        } else {
            if (a->op == O_ADD && b->op == O_ADD && a->a == b->a) return mkEq(a->b, b->b);
            if (a->op == O_ADD && b->op == O_ADD && a->b == b->b) return mkEq(a->a, b->a);
            if (a->op == O_ADD && a->a == b) return mkEq(a->b, mkConst(0, w));
            if (b->op == O_ADD && b->a == a) return mkEq(b->b, mkConst(0, w));
            if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
            if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->b, b->b), mkEq(a->a, b->a));
            if (a->op == O_ITE && a->b == b) return mkOr(a->a, mkEq(a->c, b));
            if (a->op == O_ITE && a->c == b) return mkOr(mkNot(a->a), mkEq(a->b, b));
            if (b->op == O_ITE && b->b == a) return mkOr(b->a, mkEq(b->c, a));
            if (b->op == O_ITE && b->c == a) return mkOr(mkNot(b->a), mkEq(b->b, a));
        }
        break;
    case O_ULT:
        if (a == b) return mkFalse();
        if (isC(b)) { if (b->v == 0) return mkFalse(); if (b->v == 1) return mkEq(a, mkConst(0, w)); if (activeBits(a) < 128 && (((u128)1 << activeBits(a)) - 1) < b->v) return mkTrue();
            if (a->op == O_ZEXT && activeBits(b) <= a->a->w) return mkBin(O_ULT, a->a, mkConst(b->v, a->a->w)); }
        if (isC(a)) { if (a->v == m) return mkFalse(); if (a->v == 0) return mkNot(mkEq(b, a)); if (b->op == O_ZEXT) { if (activeBits(a) > b->a->w) return mkFalse(); return mkBin(O_ULT, mkConst(a->v, b->a->w), b->a); } }
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_ULT, a->a, b->a);
        if (w == 1) return mkAnd(mkNot(a), b);
        if (a->op == O_ITE && isC(b) && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
        if (b->op == O_ITE && isC(a) && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
        break;
    case O_ULE:
        if (a == b) return mkTrue();
        if (isC(a)) { if (a->v == 0) return mkTrue(); return mkBin(O_ULT, mkConst(a->v - 1, w), b); }
        if (isC(b)) { if (b->v == m) return mkTrue(); return mkBin(O_ULT, a, mkConst(b->v + 1, w)); }
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_ULE, a->a, b->a);
        if (w == 1) return mkOr(mkNot(a), b);
        break;
    case O_SLT:
        if (a == b) return mkFalse();
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_ULT, a->a, b->a);
        if (a->op == O_ZEXT && isC(b)) return ((b->v >> (w - 1)) & 1) ? mkFalse() : mkBin(O_ULT, a, b);
        if (b->op == O_ZEXT && isC(a)) return ((a->v >> (w - 1)) & 1) ? mkTrue() : mkBin(O_ULT, a, b);
        if (w == 1) return mkAnd(a, mkNot(b));
        break;
    case O_SLE:
        if (a == b) return mkTrue();
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_ULE, a->a, b->a);
        if (a->op == O_ZEXT && isC(b)) return ((b->v >> (w - 1)) & 1) ? mkFalse() : mkBin(O_ULE, a, b);
        if (b->op == O_ZEXT && isC(a)) return ((a->v >> (w - 1)) & 1) ? mkTrue() : mkBin(O_ULE, a, b);
        if (w == 1) return mkOr(a, mkNot(b));
        break;
    default: break;
    }
    return intern(op, isCmp(op) ? 1 : w, a, b, nullptr, 0);
}
u128 evalExpr(E root, const Model& m, u64 epoch) {
    // iterative post-order
    static thread_local std::vector<E> st;
    if (root->op == O_CONST) return root->v;
    if (root->epoch == epoch) return root->ev;
    size_t base = st.size(); st.push_back(root);
    auto have = [&](E x) { return !x || x->op == O_CONST || x->epoch == epoch; };
    auto val = [&](E x) -> u128 { return x->op == O_CONST ? x->v : x->ev; };
    while (st.size() > base) {
        E e = st.back();
        if (have(e)) { st.pop_back(); continue; }
        if (e->op == O_VAR) { e->ev = (u64)e->v < m.size() ? m[(u64)e->v] & maskw(e->w) : 0; e->epoch = epoch; st.pop_back(); continue; }
        if (e->op == O_ITE) {
            if (!have(e->a)) { st.push_back(e->a); continue; }
            E n = val(e->a) ? e->b : e->c; if (!have(n)) { st.push_back(n); continue; }
            e->ev = val(n); e->epoch = epoch; st.pop_back(); continue;
        }
        bool ok = true;
        if (!have(e->a)) { st.push_back(e->a); ok = false; }
        if (!have(e->b)) { st.push_back(e->b); ok = false; }
        if (!ok) continue;
        u128 r = 0; u128 A = val(e->a);
        switch (e->op) {
        case O_NOT: r = ~A & maskw(e->w); break;
        case O_EXTRACT: r = (A >> (unsigned)e->v) & maskw(e->w); break;
        case O_ZEXT: r = A; break;
        case O_SEXT: r = (u128)sxt(A, e->a->w) & maskw(e->w); break;
        case O_CONCAT: r = (A << e->b->w) | val(e->b); break;
        default: r = foldBin(e->op, A, val(e->b), e->a->w); break;
        }
        e->ev = r; e->epoch = epoch; st.pop_back();
    }
    return root->ev;
}
static u32 g_mark = 0;
void collectVars(E root, std::vector<u32>& out) {
    g_mark++; std::vector<E> st{root};
    while (!st.empty()) { E e = st.back(); st.pop_back(); if (!e || e->op == O_CONST || e->vmark == g_mark) continue; e->vmark = g_mark;
        if (e->op == O_VAR) { out.push_back((u32)e->v); continue; }
        st.push_back(e->a); st.push_back(e->b); st.push_back(e->c); }
}
size_t dagSize(E root, size_t cap) {
    g_mark++; std::vector<E> st{root}; size_t n = 0;
    while (!st.empty() && n < cap) { E e = st.back(); st.pop_back(); if (!e || e->vmark == g_mark) continue; e->vmark = g_mark; n++;
        st.push_back(e->a); st.push_back(e->b); st.push_back(e->c); }
    return n;
}
std::string toStr(E e, int d) {
    char buf[64];
    if (e->op == O_CONST) { snprintf(buf, 64, "%llu:%u", (unsigned long long)e->v, e->w); return buf; }
    if (e->op == O_VAR) return g_vars[(u32)e->v].name;
    if (d == 0) return "...";
    static const char* n[] = {"const","var","+","-","*","udiv","sdiv","urem","srem","&","|","^","~","<<",">>","ashr","==","u<","u<=","s<","s<=","cat","ext","zx","sx","ite"};
    std::string s = std::string("(") + n[e->op];
    if (e->op == O_EXTRACT) { snprintf(buf, 64, "[%u+%u]", (unsigned)e->v, e->w); s += buf; }
    if (e->a) s += " " + toStr(e->a, d - 1); if (e->b) s += " " + toStr(e->b, d - 1); if (e->c) s += " " + toStr(e->c, d - 1);
    return s + ")";
}
