// Paged copy-on-write memory with byte validity, symbolic overlay and store-granule tracking.
#pragma once
#include "expr.h"
#include <cstring>
static const unsigned PG = 256, PGS = 8, CHN = 256, TOPN = 1024;
static const u64 MEM_LIMIT = (u64)PG * CHN * TOPN; // 64 MiB
struct Page {
    int rc = 1; u16 nsym = 0; u64 valid[4] = {0, 0, 0, 0}; u8 d[PG]; u8 gran[PG]; E* sym = nullptr;
    Page() { memset(d, 0, sizeof d); memset(gran, 0, sizeof gran); }
    Page(const Page& o) : rc(1), nsym(o.nsym) { memcpy(valid, o.valid, sizeof valid); memcpy(d, o.d, sizeof d); memcpy(gran, o.gran, sizeof gran); if (o.sym && nsym) { sym = new E[PG]; memcpy(sym, o.sym, sizeof(E) * PG); } }
    ~Page() { delete[] sym; }
    bool isValid(unsigned o) const { return (valid[o >> 6] >> (o & 63)) & 1; }
    void setValid(unsigned o, bool v) { if (v) valid[o >> 6] |= 1ull << (o & 63); else valid[o >> 6] &= ~(1ull << (o & 63)); }
};
struct Chunk { int rc = 1; Page* p[CHN]; Chunk() { memset(p, 0, sizeof p); } Chunk(const Chunk& o) : rc(1) { for (unsigned i = 0; i < CHN; i++) { p[i] = o.p[i]; if (p[i]) p[i]->rc++; } }
    ~Chunk() { for (auto x : p) if (x && --x->rc == 0) delete x; } };
struct Memory {
    Chunk* t[TOPN];
    Memory() { memset(t, 0, sizeof t); }
    Memory(const Memory& o) { for (unsigned i = 0; i < TOPN; i++) { t[i] = o.t[i]; if (t[i]) t[i]->rc++; } }
    Memory& operator=(const Memory&) = delete;
    ~Memory() { for (auto x : t) if (x && --x->rc == 0) delete x; }
    const Page* rd(u64 a) const { if (a >= MEM_LIMIT) return nullptr; Chunk* c = t[a >> 16]; return c ? c->p[(a >> 8) & 255] : nullptr; }
    Page* wr(u64 a) {
        Chunk*& c = t[a >> 16]; if (!c) c = new Chunk(); else if (c->rc > 1) { c->rc--; c = new Chunk(*c); }
        Page*& p = c->p[(a >> 8) & 255]; if (!p) p = new Page(); else if (p->rc > 1) { p->rc--; p = new Page(*p); }
        return p;
    }
    bool validRange(u64 a, u64 n) const {
        if (a >= MEM_LIMIT || n > MEM_LIMIT) return false;
        for (u64 i = 0; i < n;) { const Page* p = rd(a + i); if (!p) return false; unsigned o = (a + i) & 255;
            unsigned k = PG - o; if (k > n - i) k = n - i; for (unsigned j = 0; j < k; j++) if (!p->isValid(o + j)) return false; i += k; }
        return true;
    }
    void setValid(u64 a, u64 n, bool v, int fill) {
        for (u64 i = 0; i < n;) { Page* p = wr(a + i); unsigned o = (a + i) & 255; unsigned k = PG - o; if (k > n - i) k = n - i;
            for (unsigned j = 0; j < k; j++) { p->setValid(o + j, v); if (fill >= 0) { p->d[o + j] = fill; p->gran[o + j] = 0; if (p->sym && p->sym[o + j]) { p->sym[o + j] = nullptr; p->nsym--; } } }
            i += k; }
    }
    bool hasSym(u64 a, u64 n) const { for (u64 i = 0; i < n; i++) { const Page* p = rd(a + i); if (p && p->nsym && p->sym[(a + i) & 255]) return true; } return false; }
    void putC(u64 a, const u8* src, unsigned n) { // concrete
        for (unsigned i = 0; i < n;) { Page* p = wr(a + i); unsigned o = (a + i) & 255; unsigned k = PG - o; if (k > n - i) k = n - i;
            memcpy(p->d + o, src + i, k); for (unsigned j = 0; j < k; j++) p->gran[o + j] = n <= 16 ? ((n - 1) << 4 | (i + j)) : 0;
            if (p->nsym) for (unsigned j = 0; j < k; j++) if (p->sym[o + j]) { p->sym[o + j] = nullptr; p->nsym--; }
            i += k; }
    }
    void putByte(u64 a, E e, u8 gran) { // e width 8
        Page* p = wr(a); unsigned o = a & 255; p->gran[o] = gran;
        if (e->op == O_CONST) { p->d[o] = (u8)e->v; if (p->nsym && p->sym[o]) { p->sym[o] = nullptr; p->nsym--; } return; }
        if (!p->sym) { p->sym = new E[PG]; memset((void*)p->sym, 0, sizeof(E) * PG); }
        if (!p->sym[o]) p->nsym++; p->sym[o] = e;
    }
    void putE(u64 a, E e) { unsigned n = (e->w + 7) / 8; if (e->w % 8) e = mkZext(e, n * 8);
        if (isC(e)) { u8 b[16]; u128 v = e->v; for (unsigned i = 0; i < n; i++) b[i] = (u8)(v >> (8 * i)); putC(a, b, n); return; }
        for (unsigned i = 0; i < n; i++) putByte(a + i, mkExtractRaw(e, 8 * i, 8), (n - 1) << 4 | i); }
    E getByteE(u64 a) const { const Page* p = rd(a); unsigned o = a & 255; if (p && p->nsym && p->sym[o]) return p->sym[o]; return mkConst(p ? p->d[o] : 0, 8); }
    void getC(u64 a, u8* dst, unsigned n) const { for (unsigned i = 0; i < n;) { const Page* p = rd(a + i); unsigned o = (a + i) & 255; unsigned k = PG - o; if (k > n - i) k = n - i; if (p) memcpy(dst + i, p->d + o, k); else memset(dst + i, 0, k); i += k; } }
    E getE(u64 a, unsigned n) const { // n bytes -> expr (width 8n)
        if (!hasSym(a, n)) { u8 b[16]; getC(a, b, n); u128 v = 0; for (unsigned i = 0; i < n; i++) v |= (u128)b[i] << (8 * i); return mkConst(v, 8 * n); }
        E b0 = getByteE(a);
        if (b0->op == O_EXTRACT && (u64)b0->v == 0 && b0->a->w == 8 * n) { bool ok = true; for (unsigned i = 1; i < n && ok; i++) { E b = getByteE(a + i); ok = b->op == O_EXTRACT && b->a == b0->a && (u64)b->v == 8 * i; } if (ok) return b0->a; }
        E r = nullptr; // high to low
        for (unsigned i = n; i-- > 0;) { E b = getByteE(a + i); r = r ? mkConcat(r, b) : b; }
        if (r->op == O_EXTRACT) r = mkExtract(r->a, (unsigned)r->v, r->w);
        else if (r->op == O_ZEXT && r->a->op == O_EXTRACT) r = mkZext(mkExtract(r->a->a, (unsigned)r->a->v, r->a->w), r->w);
        return r;
    }
    void copyBytes(u64 d, u64 s, u64 n) {
        if (!n || d == s) return;
        std::vector<u8> buf(n), gr(n); std::vector<E> sy; bool any = false;
        for (u64 i = 0; i < n; i++) { const Page* p = rd(s + i); unsigned o = (s + i) & 255; buf[i] = p ? p->d[o] : 0; gr[i] = p ? p->gran[o] : 0; if (p && p->nsym && p->sym[o]) { if (!any) { sy.assign(n, nullptr); any = true; } sy[i] = p->sym[o]; } }
        for (u64 i = 0; i < n; i++) { Page* p = wr(d + i); unsigned o = (d + i) & 255; p->d[o] = buf[i]; p->gran[o] = gr[i];
            E e = any ? sy[i] : nullptr;
            if (e) { if (!p->sym) { p->sym = new E[PG]; memset((void*)p->sym, 0, sizeof(E) * PG); } if (!p->sym[o]) p->nsym++; p->sym[o] = e; }
            else if (p->nsym && p->sym[o]) { p->sym[o] = nullptr; p->nsym--; } }
    }
};
