// Hash-consed bit-vector expression DAG with aggressive simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <cassert>
#include <cstdio>
#include <cstdlib>
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using u128 = unsigned __int128;
using i64 = int64_t; using i128 = __int128;

enum Op : u8 { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_NOT,
               O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE };

struct Expr {
    Op op; bool cl; // cl: constant-leaf ITE tree (or const)
    u16 w; u32 id; u32 cls; // cls: approximate (saturating) tree size of cl ITE
    const Expr *a, *b, *c;
    u128 v; // const value / var index / extract low bit
    mutable u64 epoch = 0; mutable u128 ev = 0;
    mutable void* z = nullptr;
    mutable u32 vmark = 0;
};
using E = const Expr*;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sxt(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); return (i128)((v ^ s) - s); }

struct VarInfo { std::string name; unsigned w; E e; };
extern std::vector<VarInfo> g_vars;
E mkVar(const std::string& name, unsigned w);
E mkConst(u128 v, unsigned w);
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkEq(E a, E b);
E mkIte(E c, E t, E e);
E mkExtract(E a, unsigned lo, unsigned w);
E mkExtractRaw(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkAnd(E a, E b) { return mkBin(O_AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(O_OR, a, b); }
inline bool isC(E e) { return e->op == O_CONST; }
inline bool isT(E e) { return e->op == O_CONST && e->v != 0; }
inline bool isF(E e) { return e->op == O_CONST && e->v == 0; }
u128 foldBin(Op op, u128 a, u128 b, unsigned w); // operand width w
std::string toStr(E e, int depth = 6);
size_t numExprs();
size_t dagSize(E e, size_t cap);
// evaluation under a model (vector var index -> value)
using Model = std::vector<u128>;
u128 evalExpr(E e, const Model& m, u64 epoch);
void collectVars(E e, std::vector<u32>& out); // distinct vars
E pushCL(E x, const std::function<E(E)>& f, size_t cap, bool& ok);
