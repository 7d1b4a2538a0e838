// Hash-consed bit-vector expression DAG with simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <bitset>
#include <memory>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16; typedef int64_t s64;

enum Op : u8 { O_CONST, O_VAR, O_AND, O_OR, O_XOR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
               O_SHL, O_LSHR, O_ASHR, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_NUM };

typedef std::vector<u32> Sup; // sorted variable indices
struct Expr {
    u8 op, w; u32 id;
    Expr *a, *b, *c;
    u64 val;          // constant value / variable index / extract offset
    u64 lo, hi;       // unsigned interval
    u64 kz;           // bits known to be zero
    const Sup* sup;
    u64 estamp; u64 eval;
    void* z3; u64 z3gen;
    bool isC() const { return op == O_CONST; }
};
typedef Expr* E;
static inline u64 msk(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline s64 sx(u64 v, int w) { return w >= 64 ? (s64)v : (s64)(v << (64 - w)) >> (64 - w); }

E mkC(int w, u64 v);
E mkVar(const std::string& name, int w);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkUDiv(E a, E b); E mkSDiv(E a, E b); E mkURem(E a, E b); E mkSRem(E a, E b);
E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkConcat(E hi, E lo); E mkExtract(E e, int off, int w); E mkZext(E e, int w); E mkSext(E e, int w);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkIte(E c, E t, E f);
E mkBin(int op, E a, E b);
static inline E mkTrunc(E e, int w) { return mkExtract(e, 0, w); }
static inline E mkBool(bool b) { return mkC(1, b); }

struct Model { u64 stamp; std::vector<u64> v; Model(); Model(const Model& o); u64 get(u32 i) const { return i < v.size() ? v[i] : 0; }
    void set(u32 i, u64 x) { if (i >= v.size()) v.resize(i + 1); v[i] = x; } };
u64 evalE(E e, const Model& m);
size_t exprCount();
struct VarInfo { std::string name; int w; E e; };
extern std::vector<VarInfo> g_vars;
std::string toStr(E e, int depth = 6);
typedef std::bitset<256> Bits;
const Bits& truthTable(E e); // e: width 1, support = one variable of width <= 8
u64 foldBin(int op, int w, u64 a, u64 b);
