#include "expr.h"
#include <unordered_map>
#include <map>
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <set>
using namespace std;

vector<VarInfo> g_vars;
static u32 g_nextId = 1;
static u64 g_stamp = 1;
Model::Model() : stamp(++g_stamp) {}
Model::Model(const Model& o) : stamp(++g_stamp), v(o.v) {}

struct SupLess { bool operator()(const Sup* a, const Sup* b) const { return *a < *b; } };
static set<const Sup*, SupLess> g_sups;
static unordered_map<u64, const Sup*> g_supMerge;
static unordered_map<const Sup*, u32> g_supId;
static const Sup* internSup(const Sup& s) {
    auto it = g_sups.find(&s);
    if (it != g_sups.end()) return *it;
    Sup* n = new Sup(s); g_sups.insert(n); u32 id = g_supId.size(); g_supId[n] = id; return n;
}
static const Sup* emptySup() { static const Sup* e = internSup(Sup()); return e; }
static const Sup* mergeSup(const Sup* a, const Sup* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    u64 ia = g_supId[a], ib = g_supId[b];
    u64 key = ia < ib ? ia << 32 | ib : ib << 32 | ia;
    auto it = g_supMerge.find(key);
    if (it != g_supMerge.end()) return it->second;
    Sup r; set_union(a->begin(), a->end(), b->begin(), b->end(), back_inserter(r));
    return g_supMerge[key] = internSup(r);
}

struct Key { u8 op, w; E a, b, c; u64 val; bool operator==(const Key& o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && val == o.val; } };
struct KeyHash { size_t operator()(const Key& k) const {
    u64 h = k.op * 1000003ull + k.w; h = (h ^ (u64)k.a) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h = (h ^ (u64)k.b) * 0xBF58476D1CE4E5B9ull; h ^= h >> 31;
    h = (h ^ (u64)k.c) * 0x94D049BB133111EBull; h ^= h >> 30; h = (h ^ k.val) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 32); } };
static unordered_map<Key, E, KeyHash> g_tab;   // nodes
static unordered_map<Key, E, KeyHash> g_memo;  // requested op -> simplified node
size_t exprCount() { return g_tab.size(); }

static void computeRange(E e) {
    int w = e->w; u64 M = msk(w); u64 lo = 0, hi = M, kz = 0; E a = e->a, b = e->b, c = e->c;
    switch (e->op) {
    case O_CONST: lo = hi = e->val; kz = ~e->val & M; break;
    case O_AND: kz = a->kz | b->kz; hi = min(a->hi, b->hi); break;
    case O_OR: kz = a->kz & b->kz; lo = max(a->lo, b->lo); break;
    case O_XOR: kz = a->kz & b->kz; break;
    case O_ADD: { if (w < 64) { u64 l = a->lo + b->lo, h = a->hi + b->hi; if (h <= M) lo = l, hi = h; else if (l > M && h <= 2 * M + 1) { lo = l & M; hi = h & M; if (lo > hi) lo = 0, hi = M; } } else { if (a->hi <= ~b->hi) lo = a->lo + b->lo, hi = a->hi + b->hi; }
        u64 t = a->kz & b->kz; int z = 0; while (z < w && (t >> z & 1)) z++; kz = msk(z) & M; if (z == 0) kz = 0; break; }
    case O_SUB: if (a->lo >= b->hi) lo = a->lo - b->hi, hi = a->hi - b->lo; break;
    case O_MUL: { unsigned __int128 h = (unsigned __int128)a->hi * b->hi; if (h <= M) lo = a->lo * b->lo, hi = (u64)h; break; }
    case O_UDIV: if (b->lo > 0) lo = a->lo / b->hi, hi = a->hi / b->lo; break;
    case O_UREM: if (b->lo > 0) hi = min(a->hi, b->hi - 1); break;
    case O_CONCAT: lo = a->lo << b->w | b->lo; hi = a->hi << b->w | b->hi; if (a->lo != a->hi) { lo = a->lo << b->w; hi = a->hi << b->w | msk(b->w); if(a->w+b->w<=64){} } kz = a->kz << b->w | b->kz; break;
    case O_EXTRACT: kz = (a->kz >> e->val) & M; if ((a->hi >> e->val) <= M) lo = a->lo >> e->val, hi = a->hi >> e->val; break;
    case O_ZEXT: lo = a->lo; hi = a->hi; kz = a->kz | (M & ~msk(a->w)); break;
    case O_SEXT: if (!(a->hi >> (a->w - 1))) { lo = a->lo; hi = a->hi; kz = a->kz | (M & ~msk(a->w)); } break;
    case O_LSHR: hi = a->hi; break;
    case O_ITE: lo = min(b->lo, c->lo); hi = max(b->hi, c->hi); kz = b->kz & c->kz; break;
    default: break;
    }
    // combine: known zero high bits bound hi
    u64 nz = ~kz & M; if (hi > nz) { // highest possibly set bits
        hi = nz < hi ? nz : hi; }
    if (lo > hi) lo = 0;
    // hi bound gives zero bits
    int n = hi ? 64 - __builtin_clzll(hi) : 0; kz |= M & ~msk(n); if (n == 0) kz = M;
    e->lo = lo; e->hi = hi; e->kz = kz;
}

static E node(u8 op, int w, E a, E b, E c, u64 val) {
    Key k{op, (u8)w, a, b, c, val};
    auto it = g_tab.find(k);
    if (it != g_tab.end()) return it->second;
    E e = new Expr(); e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->val = val; e->id = g_nextId++;
    e->estamp = 0; e->z3 = nullptr; e->z3gen = 0;
    if (op == O_VAR) e->sup = internSup(Sup{(u32)val});
    else { const Sup* s = emptySup(); if (a) s = mergeSup(s, a->sup); if (b) s = mergeSup(s, b->sup); if (c) s = mergeSup(s, c->sup); e->sup = s; }
    computeRange(e);
    g_tab.emplace(k, e);
    if (op != O_CONST && op != O_VAR && e->lo == e->hi) { // fully determined
        E r = mkC(w, e->lo); g_tab[k] = r; return r;
    }
    return e;
}
E mkC(int w, u64 v) { return node(O_CONST, w, nullptr, nullptr, nullptr, v & msk(w)); }
E mkVar(const string& name, int w) {
    static unordered_map<string, E> byName;
    auto it = byName.find(name);
    if (it != byName.end()) { if (it->second->w != w) { fprintf(stderr, "var width clash %s\n", name.c_str()); abort(); } return it->second; }
    u32 i = g_vars.size(); g_vars.push_back({name, w, nullptr}); E e = node(O_VAR, w, nullptr, nullptr, nullptr, i); g_vars[i].e = e; byName[name] = e; return e;
}

u64 foldBin(int op, int w, u64 a, u64 b) {
    u64 M = msk(w);
    switch (op) {
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_ADD: return (a + b) & M; case O_SUB: return (a - b) & M; case O_MUL: return (a * b) & M;
    case O_UDIV: return b ? a / b : M; case O_UREM: return b ? a % b : a;
    case O_SDIV: { s64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - (u64)x) & M; return (u64)(x / y) & M; }
    case O_SREM: { s64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & M; }
    case O_SHL: return b >= (u64)w ? 0 : (a << b) & M;
    case O_LSHR: return b >= (u64)w ? 0 : a >> b;
    case O_ASHR: { s64 x = sx(a, w); return (u64)(x >> (b >= (u64)w ? w - 1 : b)) & M; }
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sx(a, w) < sx(b, w); case O_SLE: return sx(a, w) <= sx(b, w);
    }
    abort();
}

#define MEMO(op_, w_, a_, b_, c_, v_, body) do { Key k_{(u8)(op_), (u8)(w_), a_, b_, c_, (u64)(v_)}; auto it_ = g_memo.find(k_); if (it_ != g_memo.end()) return it_->second; E r_ = body; g_memo[k_] = r_; return r_; } while (0)

static bool iteConstArms(E e) { return e->op == O_ITE && e->b->isC() && e->c->isC(); }
static bool iteConstTree(E e, int d = 0) { return e->isC() || (d < 12 && e->op == O_ITE && iteConstTree(e->b, d + 1) && iteConstTree(e->c, d + 1)); }
static void order(E& a, E& b) { // constants right, otherwise by id
    if (a->isC() || (!b->isC() && a->id > b->id)) swap(a, b);
}
static bool isOnes(E e) { return e->isC() && e->val == msk(e->w); }
static bool isZero(E e) { return e->isC() && e->val == 0; }
static bool isNotOf(E a, E b) { return a->op == O_XOR && isOnes(a->b) && a->a == b; }

static E and_(E a, E b) {
    int w = a->w; u64 M = msk(w);
    if (a == b) return a;
    if (isZero(b)) return b;
    if (isOnes(b)) return a;
    if (isNotOf(a, b) || isNotOf(b, a)) return mkC(w, 0);
    if (((a->kz | b->kz) & M) == M) return mkC(w, 0);
    if (b->isC()) {
        u64 v = b->val;
        if ((~v & M & ~a->kz) == 0) return a; // mask keeps every possibly set bit
        if (a->op == O_AND && a->b->isC()) return mkAnd(a->a, mkC(w, a->b->val & v));
        if (w > 1 && (v & (v + 1)) == 0) { int k = 64 - __builtin_clzll(v); return mkZext(mkExtract(a, 0, k), w); }
        if (a->op == O_ZEXT) return mkZext(mkAnd(a->a, mkC(a->a->w, v)), w);
        if (a->op == O_CONCAT) return mkConcat(mkAnd(a->a, mkC(a->a->w, v >> a->b->w)), mkAnd(a->b, mkC(a->b->w, v)));
        if (a->op == O_SEXT && !(v >> a->a->w)) return mkZext(mkAnd(a->a, mkC(a->a->w, v)), w);
        if (iteConstArms(a)) return mkIte(a->a, mkAnd(a->b, b), mkAnd(a->c, b));
    }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkZext(mkAnd(a->a, b->a), w);
    if (w == 1) {
        if (a->op == O_AND && (a->a == b || a->b == b)) return a;
        if (b->op == O_AND && (b->a == a || b->b == a)) return b;
        if (a->op == O_OR && (a->a == b || a->b == b)) return b;
        if (b->op == O_OR && (b->a == a || b->b == a)) return a;
    }
    return node(O_AND, w, a, b, nullptr, 0);
}
E mkAnd(E a, E b) { order(a, b); if (a->isC()) return mkC(a->w, a->val & b->val); MEMO(O_AND, a->w, a, b, nullptr, 0, and_(a, b)); }
static int splitPoint(E a, E b) { // k such that b < 2^k and low k bits of a are zero
    u64 nz = ~b->kz & msk(b->w); int k = nz ? 64 - __builtin_clzll(nz) : 0;
    if (k == 0 || k >= b->w) return 0;
    return (a->kz & msk(k)) == msk(k) ? k : 0;
}
static E or_(E a, E b) {
    int w = a->w;
    if (a == b || isZero(b)) return a;
    if (isOnes(b)) return b;
    if (isNotOf(a, b) || isNotOf(b, a)) return mkC(w, msk(w));
    if (w > 1) {
        int k;
        if ((k = splitPoint(a, b))) return mkConcat(mkExtract(a, k, w - k), mkExtract(b, 0, k));
        if ((k = splitPoint(b, a))) return mkConcat(mkExtract(b, k, w - k), mkExtract(a, 0, k));
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkZext(mkOr(a->a, b->a), w);
        if (b->isC() && a->op == O_ZEXT && !(b->val >> a->a->w)) return mkZext(mkOr(a->a, mkC(a->a->w, b->val)), w);
        if (b->isC() && iteConstArms(a)) return mkIte(a->a, mkOr(a->b, b), mkOr(a->c, b));
        if (b->isC() && a->op == O_OR && a->b->isC()) return mkOr(a->a, mkC(w, a->b->val | b->val));
        if (b->isC() && a->op == O_CONCAT) return mkConcat(mkOr(a->a, mkC(a->a->w, b->val >> a->b->w)), mkOr(a->b, mkC(a->b->w, b->val)));
    } else {
        if (a->op == O_OR && (a->a == b || a->b == b)) return a;
        if (b->op == O_OR && (b->a == a || b->b == a)) return b;
        if (a->op == O_AND && (a->a == b || a->b == b)) return b;
        if (b->op == O_AND && (b->a == a || b->b == a)) return a;
    }
    return node(O_OR, w, a, b, nullptr, 0);
}
E mkOr(E a, E b) { order(a, b); if (a->isC()) return mkC(a->w, a->val | b->val); MEMO(O_OR, a->w, a, b, nullptr, 0, or_(a, b)); }
static E xor_(E a, E b) {
    int w = a->w;
    if (a == b) return mkC(w, 0);
    if (isZero(b)) return a;
    if (b->isC()) {
        if (a->op == O_XOR && a->b->isC()) return mkXor(a->a, mkC(w, a->b->val ^ b->val));
        if (w == 1) switch (a->op) { // negation of a comparison
            case O_ULT: return mkUle(a->b, a->a); case O_ULE: return mkUlt(a->b, a->a);
            case O_SLT: return mkSle(a->b, a->a); case O_SLE: return mkSlt(a->b, a->a);
            case O_ITE: if (iteConstTree(a)) return mkIte(a->a, mkXor(a->b, b), mkXor(a->c, b)); break; }
        if (a->op == O_ZEXT && !(b->val >> a->a->w)) return mkZext(mkXor(a->a, mkC(a->a->w, b->val)), w);
        if (iteConstArms(a)) return mkIte(a->a, mkXor(a->b, b), mkXor(a->c, b));
        if (isOnes(b) && a->op == O_SEXT) return mkSext(mkXor(a->a, mkC(a->a->w, ~0ull)), w);
    }
    if (w > 1 && b->isC() && b->val == 1ull << (w - 1)) return mkAdd(a, b); // flipping the top bit
    if (w > 1) {
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkZext(mkXor(a->a, b->a), w);
        if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkSext(mkXor(a->a, b->a), w);
    }
    // pull negations out
    if (!b->isC()) {
        bool na = a->op == O_XOR && isOnes(a->b), nb = b->op == O_XOR && isOnes(b->b);
        if (na && nb) return mkXor(a->a, b->a);
        if (na) return mkXor(mkXor(a->a, b), mkC(w, ~0ull));
        if (nb) return mkXor(mkXor(a, b->a), mkC(w, ~0ull));
    }
    return node(O_XOR, w, a, b, nullptr, 0);
}
E mkXor(E a, E b) { order(a, b); if (a->isC()) return mkC(a->w, a->val ^ b->val); MEMO(O_XOR, a->w, a, b, nullptr, 0, xor_(a, b)); }
E mkNot(E a) { return mkXor(a, mkC(a->w, ~0ull)); }

static E add_(E a, E b) {
    int w = a->w;
    if (isZero(b)) return a;
    if (w == 1) return mkXor(a, b);
    if (a->op == O_ADD && a->b->isC()) {
        if (b->isC()) return mkAdd(a->a, mkC(w, a->b->val + b->val));
        if (b->op == O_ADD && b->b->isC()) return mkAdd(mkAdd(a->a, b->a), mkC(w, a->b->val + b->b->val));
        return mkAdd(mkAdd(a->a, b), a->b);
    }
    if (b->op == O_ADD && b->b->isC()) return mkAdd(mkAdd(a, b->a), b->b);
    if (a->op == O_SUB && a->b == b) return a->a;
    if (b->op == O_SUB && b->b == a) return b->a;
    if (b->op == O_SUB && isZero(b->a)) return mkSub(a, b->b);
    if (a->op == O_SUB && isZero(a->a)) return mkSub(b, a->b);
    if (b->isC() && a->op == O_XOR && isOnes(a->b)) return mkSub(mkC(w, b->val - 1), a->a); // ~x + c = (c-1) - x
    if (b->isC() && a->op == O_SUB && a->a->isC()) return mkSub(mkC(w, a->a->val + b->val), a->b);
    if (((a->kz | b->kz) & msk(w)) == msk(w)) return mkOr(a, b);
    if (b->isC() && iteConstTree(a)) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->c, b));
    if (b->isC() && a->op == O_ZEXT) { int k = a->a->w; u64 m = 1ull << (k - 1); // (x ^ msb) - msb = sext(x)
        if (b->val == ((0 - m) & msk(w)) && a->a->op == O_ADD && a->a->b->isC() && a->a->b->val == m) return mkSext(a->a->a, w); }
    return node(O_ADD, w, a, b, nullptr, 0);
}
E mkAdd(E a, E b) { order(a, b); if (a->isC()) return mkC(a->w, a->val + b->val); MEMO(O_ADD, a->w, a, b, nullptr, 0, add_(a, b)); }
static E sub_(E a, E b) {
    int w = a->w;
    if (a == b) return mkC(w, 0);
    if (b->isC()) return mkAdd(a, mkC(w, 0 - b->val));
    if (w == 1) return mkXor(a, b);
    if (a->op == O_ADD) {
        if (a->a == b) return a->b;
        if (a->b == b) return a->a;
        if (a->b->isC()) return mkAdd(mkSub(a->a, b), a->b);
    }
    if (b->op == O_ADD && b->b->isC()) return mkAdd(mkSub(a, b->a), mkC(w, 0 - b->b->val));
    if (b->op == O_SUB && isZero(b->a)) return mkAdd(a, b->b);
    if (b->op == O_SUB && b->a->isC() && a->isC()) return mkAdd(b->b, mkC(w, a->val - b->a->val));
    if (b->op == O_SUB && b->a == a) return b->b;
    if (isOnes(a)) return mkNot(b);
    if (a->isC() && iteConstTree(b)) return mkIte(b->a, mkSub(a, b->b), mkSub(a, b->c));
    return node(O_SUB, w, a, b, nullptr, 0);
}
E mkSub(E a, E b) { if (a->isC() && b->isC()) return mkC(a->w, a->val - b->val); MEMO(O_SUB, a->w, a, b, nullptr, 0, sub_(a, b)); }
static E mul_(E a, E b) {
    int w = a->w;
    if (b->isC()) {
        if (!b->val) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) return mkShl(a, mkC(w, __builtin_ctzll(b->val)));
        if (isOnes(b)) return mkSub(mkC(w, 0), a);
        if (a->op == O_MUL && a->b->isC()) return mkMul(a->a, mkC(w, a->b->val * b->val));
        if (iteConstArms(a)) return mkIte(a->a, mkMul(a->b, b), mkMul(a->c, b));
    }
    // product of two zero-extended short values: multiply at the width that is needed
    return node(O_MUL, w, a, b, nullptr, 0);
}
E mkMul(E a, E b) { order(a, b); if (a->isC()) return mkC(a->w, a->val * b->val); MEMO(O_MUL, a->w, a, b, nullptr, 0, mul_(a, b)); }

// narrowest n such that e == sext(x, w) for some x of n bits, and that x
static int sextBits(E e) {
    if (e->isC()) { int n = 1; while (n < e->w && sx(e->val & msk(n), n) != sx(e->val, e->w)) n++; return n; }
    if (e->op == O_SEXT) return e->a->w;
    int z = __builtin_clzll(~e->kz & msk(e->w) ? ~e->kz & msk(e->w) : 1); int used = (~e->kz & msk(e->w)) ? 64 - z : 0;
    return min<int>(e->w, used + 1);
}
static int zextBits(E e) { u64 nz = ~e->kz & msk(e->w); return nz ? 64 - __builtin_clzll(nz) : 1; }
static E div_(int op, E a, E b) {
    int w = a->w; bool sg = op == O_SDIV || op == O_SREM;
    if (b->isC() && b->val) {
        if (b->val == 1) return (op == O_UDIV || op == O_SDIV) ? a : mkC(w, 0);
        if (op == O_UDIV && !(b->val & (b->val - 1))) return mkLShr(a, mkC(w, __builtin_ctzll(b->val)));
        if (op == O_UREM && !(b->val & (b->val - 1))) return mkAnd(a, mkC(w, b->val - 1));
        if (op == O_UDIV && a->hi < b->val) return mkC(w, 0);
        if (op == O_UREM && a->hi < b->val) return a;
        if (iteConstArms(a)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    }
    if (sg && (a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1) ) { // both non-negative; division by zero differs only for SDIV
        if (op == O_SREM) return mkURem(a, b);
        if (b->lo > 0) return mkUDiv(a, b);
    }
    if (!sg) { // both zero-extended: divide narrower (x/0 differs in the high bits, so only for divisors that cannot be 0; rem is fine)
        int n = max(zextBits(a), zextBits(b));
        if (n < w) {
            int s = n <= 8 ? 8 : n <= 16 ? 16 : n <= 32 ? 32 : 64;
            if (s < w) {
                if (op == O_UREM) return mkZext(mkURem(mkTrunc(a, s), mkTrunc(b, s)), w);
                E q = mkZext(mkUDiv(mkTrunc(a, s), mkTrunc(b, s)), w);
                if (b->lo > 0) return q;
                return mkIte(mkEq(b, mkC(w, 0)), mkC(w, ~0ull), q);
            }
        }
    } else {
        int n = max(sextBits(a), sextBits(b)); int s = n <= 8 ? 8 : n <= 16 ? 16 : n <= 32 ? 32 : 64;
        if (s < w) {
            E x = mkTrunc(a, s), y = mkTrunc(b, s);
            if (op == O_SREM) return mkSext(mkSRem(x, y), w);
            // INT_MIN / -1 overflows at the narrow width
            E ov = mkAnd(mkEq(y, mkC(s, ~0ull)), mkEq(x, mkC(s, 1ull << (s - 1))));
            return mkIte(ov, mkC(w, 1ull << (s - 1)), mkSext(mkSDiv(x, y), w));
        }
    }
    return node(op, w, a, b, nullptr, 0);
}
#define DIVLIKE(NAME, OP) E NAME(E a, E b) { if (a->isC() && b->isC()) return mkC(a->w, foldBin(OP, a->w, a->val, b->val)); MEMO(OP, a->w, a, b, nullptr, 0, div_(OP, a, b)); }
DIVLIKE(mkUDiv, O_UDIV) DIVLIKE(mkSDiv, O_SDIV) DIVLIKE(mkURem, O_UREM) DIVLIKE(mkSRem, O_SREM)

static E shift_(int op, E a, E b) {
    int w = a->w;
    if (b->isC()) {
        u64 k = b->val;
        if (k == 0) return a;
        if (k >= (u64)w) { if (op != O_ASHR) return mkC(w, 0); k = w - 1; }
        if (op == O_SHL) return mkConcat(mkExtract(a, 0, w - k), mkC(k, 0));
        if (op == O_LSHR) return mkZext(mkExtract(a, k, w - k), w);
        return mkSext(mkExtract(a, k, w - k), w);
    }
    if (isZero(a)) return a;
    if (op == O_ASHR && (a->kz >> (w - 1) & 1)) return mkLShr(a, b);
    return node(op, w, a, b, nullptr, 0);
}
#define SHLIKE(NAME, OP) E NAME(E a, E b) { if (a->isC() && b->isC()) return mkC(a->w, foldBin(OP, a->w, a->val, b->val)); MEMO(OP, a->w, a, b, nullptr, 0, shift_(OP, a, b)); }
SHLIKE(mkShl, O_SHL) SHLIKE(mkLShr, O_LSHR) SHLIKE(mkAShr, O_ASHR)

static E concat_(E h, E l) {
    int w = h->w + l->w;
    if (isZero(h)) return mkZext(l, w);
    if (l->op == O_CONCAT && h->isC() && l->a->isC()) return mkConcat(mkC(h->w + l->a->w, h->val << l->a->w | l->a->val), l->b);
    if (h->op == O_CONCAT && l->isC() && h->b->isC()) return mkConcat(h->a, mkC(h->b->w + l->w, h->b->val << l->w | l->val));
    if (h->op == O_EXTRACT) {
        E x = h->a;
        if (l->op == O_EXTRACT && l->a == x && l->val + l->w == h->val) return mkExtract(x, l->val, w);
        if (h->val == l->w && mkExtract(x, 0, l->w) == l) return mkExtract(x, 0, w);
        if (l->op == O_CONCAT && l->a->op == O_EXTRACT && l->a->a == x && l->a->val + l->a->w == h->val)
            return mkConcat(mkExtract(x, l->a->val, l->a->w + h->w), l->b);
    }
    if (h->op == O_ZEXT && h->a->op == O_EXTRACT) { // zext pieces
        E x = h->a->a; if (h->a->val == l->w && mkExtract(x, 0, l->w) == l) return mkZext(mkExtract(x, 0, h->a->w + l->w), w);
    }
    if (h->op == O_ZEXT) return mkZext(mkConcat(h->a, l), w);
    // sign bits above l
    if (h == mkSext(mkExtract(l, l->w - 1, 1), h->w)) return mkSext(l, w);
    if (h->op == O_SEXT && h->a->op != O_EXTRACT) {}
    // sext(x)[hi part] ++ x-low part
    if (h->op == O_SEXT) { E r = h->a; // h = sext(r): (sext(r) ++ l) = sext(r ++ l)
        return mkSext(mkConcat(r, l), w); }
    if (h->op == O_ITE && l->op == O_ITE && h->a == l->a) return mkIte(h->a, mkConcat(h->b, l->b), mkConcat(h->c, l->c));
    if (h->op == O_ITE && iteConstArms(h) && l->isC()) return mkIte(h->a, mkConcat(h->b, l), mkConcat(h->c, l));
    if (l->op == O_ITE && iteConstArms(l) && h->isC()) return mkIte(l->a, mkConcat(h, l->b), mkConcat(h, l->c));
    return node(O_CONCAT, w, h, l, nullptr, 0);
}
E mkConcat(E h, E l) { if (h->w + l->w > 64) { fprintf(stderr, "concat too wide\n"); abort(); } if (h->isC() && l->isC()) return mkC(h->w + l->w, h->val << l->w | l->val); MEMO(O_CONCAT, h->w + l->w, h, l, nullptr, 0, concat_(h, l)); }

static E extract_(E e, int off, int w) {
    if ((e->kz >> off & msk(w)) == msk(w)) return mkC(w, 0);
    switch (e->op) {
    case O_EXTRACT: return mkExtract(e->a, off + e->val, w);
    case O_CONCAT: { int lw = e->b->w;
        if (off + w <= lw) return mkExtract(e->b, off, w);
        if (off >= lw) return mkExtract(e->a, off - lw, w);
        return mkConcat(mkExtract(e->a, 0, off + w - lw), mkExtract(e->b, off, lw - off)); }
    case O_ZEXT: { int sw = e->a->w;
        if (off >= sw) return mkC(w, 0);
        if (off + w <= sw) return mkExtract(e->a, off, w);
        return mkZext(mkExtract(e->a, off, sw - off), w); }
    case O_SEXT: { int sw = e->a->w;
        if (off + w <= sw) return mkExtract(e->a, off, w);
        if (off >= sw) return mkSext(mkExtract(e->a, sw - 1, 1), w);
        return mkSext(mkExtract(e->a, off, sw - off), w); }
    case O_AND: return mkAnd(mkExtract(e->a, off, w), mkExtract(e->b, off, w));
    case O_OR: return mkOr(mkExtract(e->a, off, w), mkExtract(e->b, off, w));
    case O_XOR: return mkXor(mkExtract(e->a, off, w), mkExtract(e->b, off, w));
    case O_ADD: if (off == 0) return mkAdd(mkExtract(e->a, 0, w), mkExtract(e->b, 0, w)); break;
    case O_SUB: if (off == 0) return mkSub(mkExtract(e->a, 0, w), mkExtract(e->b, 0, w)); break;
    case O_MUL: if (off == 0) return mkMul(mkExtract(e->a, 0, w), mkExtract(e->b, 0, w)); break;
    case O_SHL: if (off == 0 && e->b->hi < (u64)w) return mkShl(mkExtract(e->a, 0, w), mkExtract(e->b, 0, w)); break;
    case O_ITE: return mkIte(e->a, mkExtract(e->b, off, w), mkExtract(e->c, off, w));
    case O_LSHR: case O_ASHR: // (ext x) >> n, low part: shift at the narrow width when the amount is < w
        if (off == 0 && e->b->hi < (u64)w) {
            E x = e->a;
            if (e->op == O_LSHR && zextBits(x) <= w) return mkLShr(mkTrunc(x, w), mkTrunc(e->b, w));
            if (e->op == O_ASHR && sextBits(x) <= w) return mkAShr(mkTrunc(x, w), mkTrunc(e->b, w));
        }
        break;
    }
    return node(O_EXTRACT, w, e, nullptr, nullptr, off);
}
E mkExtract(E e, int off, int w) {
    if (off == 0 && w == e->w) return e;
    if (off + w > e->w) { fprintf(stderr, "bad extract %d+%d of %d\n", off, w, e->w); abort(); }
    if (e->isC()) return mkC(w, e->val >> off);
    MEMO(O_EXTRACT, w, e, nullptr, nullptr, off, extract_(e, off, w));
}
E mkZext(E e, int w) {
    if (w == e->w) return e;
    if (e->isC()) return mkC(w, e->val);
    if (e->op == O_ZEXT) return mkZext(e->a, w);
    if (iteConstArms(e)) return mkIte(e->a, mkZext(e->b, w), mkZext(e->c, w));
    return node(O_ZEXT, w, e, nullptr, nullptr, 0);
}
E mkSext(E e, int w) {
    if (w == e->w) return e;
    if (e->isC()) return mkC(w, (u64)sx(e->val, e->w));
    if (e->kz >> (e->w - 1) & 1) return mkZext(e, w);
    if (e->op == O_SEXT) return mkSext(e->a, w);
    if (iteConstArms(e)) return mkIte(e->a, mkSext(e->b, w), mkSext(e->c, w));
    return node(O_SEXT, w, e, nullptr, nullptr, 0);
}
static E eq_(E a, E b) { // constant (if any) in b
    if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) { E x = mkEq(a->b, b->b), y = mkEq(a->c, b->c); if (x->isC() || y->isC()) return mkIte(a->a, x, y); }
    int w = a->w;
    if (a == b) return mkBool(true);
    if (a->hi < b->lo || b->hi < a->lo) return mkBool(false);
    if (w == 1) { if (b->isC()) return b->val ? a : mkNot(a); return mkNot(mkXor(a, b)); }
    if (b->isC()) {
        u64 v = b->val;
        if (v & a->kz) return mkBool(false);
        switch (a->op) {
        case O_ZEXT: return mkEq(a->a, mkC(a->a->w, v)); // v's high bits are zero (kz test above)
        case O_SEXT: { u64 t = v & msk(a->a->w); if ((u64)sx(t, a->a->w) != (u64)sx(v, w)) return mkBool(false); return mkEq(a->a, mkC(a->a->w, t)); }
        case O_CONCAT: return mkAnd(mkEq(a->a, mkC(a->a->w, v >> a->b->w)), mkEq(a->b, mkC(a->b->w, v)));
        case O_ADD: if (a->b->isC()) return mkEq(a->a, mkC(w, v - a->b->val)); break;
        case O_XOR: if (a->b->isC()) return mkEq(a->a, mkC(w, v ^ a->b->val)); if (v == 0) return mkEq(a->a, a->b); break;
        case O_SUB: if (v == 0) return mkEq(a->a, a->b); if (a->a->isC()) return mkEq(a->b, mkC(w, a->a->val - v)); break;
        case O_ITE: if (iteConstTree(a) || a->b->isC() || a->c->isC()) {
            E t = mkEq(a->b, b), f = mkEq(a->c, b); return mkIte(a->a, t, f); } break;
        case O_OR: if (v == 0) return mkAnd(mkEq(a->a, b), mkEq(a->b, b)); break;
        }
    } else {
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->op == O_ADD && b->op == O_ADD && a->b->isC() && b->b->isC()) return mkEq(mkAdd(a->a, mkC(w, a->b->val - b->b->val)), b->a);
        if (a->op == O_CONCAT && b->op == O_CONCAT && a->a->w == b->a->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
        if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
        if (a->op == O_ITE && (a->b == b || a->c == b)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
        if (b->op == O_ITE && (b->b == a || b->c == a)) return mkIte(b->a, mkEq(b->b, a), mkEq(b->c, a));
        // ite with constant arms against a zero/sign-extended bit
        if (a->op == O_ADD && a->a == b) return mkEq(a->b, mkC(w, 0));
        if (a->op == O_ADD && a->b == b) return mkEq(a->a, mkC(w, 0));
        if (b->op == O_ADD && b->a == a) return mkEq(b->b, mkC(w, 0));
        if (b->op == O_ADD && b->b == a) return mkEq(b->a, mkC(w, 0));
    }
    return node(O_EQ, 1, a, b, nullptr, 0);
}
E mkEq(E a, E b) { if (a->w != b->w) { fprintf(stderr, "eq width %d %d\n", a->w, b->w); abort(); } order(a, b); if (a->isC()) return mkBool(a->val == b->val); MEMO(O_EQ, 1, a, b, nullptr, 0, eq_(a, b)); }
static E ult_(E a, E b) {
    if (a == b) return mkBool(false);
    if (a->hi < b->lo) return mkBool(true);
    if (a->lo >= b->hi) return mkBool(false);
    int w = a->w;
    if (w == 1) return mkAnd(mkNot(a), b);
    if (b->isC() && b->val == 1) return mkEq(a, mkC(w, 0));
    if (isZero(a)) return mkNot(mkEq(b, a));
    if (b->isC() && b->val == msk(w)) return mkNot(mkEq(a, b));
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
    if (a->op == O_ZEXT && b->isC()) return mkUlt(a->a, mkC(a->a->w, b->val)); // b within range by interval test
    if (b->op == O_ZEXT && a->isC()) return mkUlt(mkC(b->a->w, a->val), b->a);
    if (a->op == O_ITE && b->isC() && (iteConstTree(a))) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
    if (b->op == O_ITE && a->isC() && (iteConstTree(b))) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
    return node(O_ULT, 1, a, b, nullptr, 0);
}
E mkUlt(E a, E b) { if (a->isC() && b->isC()) return mkBool(a->val < b->val); MEMO(O_ULT, 1, a, b, nullptr, 0, ult_(a, b)); }
static E ule_(E a, E b) {
    if (a == b) return mkBool(true);
    if (a->hi <= b->lo) return mkBool(true);
    if (a->lo > b->hi) return mkBool(false);
    if (b->isC()) return mkUlt(a, mkC(a->w, b->val + 1)); // b != max by interval test
    if (a->isC()) return mkUlt(mkC(a->w, a->val - 1), b);
    int w = a->w;
    if (w == 1) return mkOr(mkNot(a), b);
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkUle(a->a, b->a);
    return node(O_ULE, 1, a, b, nullptr, 0);
}
E mkUle(E a, E b) { if (a->isC() && b->isC()) return mkBool(a->val <= b->val); MEMO(O_ULE, 1, a, b, nullptr, 0, ule_(a, b)); }
static bool nonneg(E e) { return e->kz >> (e->w - 1) & 1; }
static E slt_(E a, E b) {
    int w = a->w;
    if (a == b) return mkBool(false);
    if (w == 1) return mkAnd(a, mkNot(b));
    if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
    if (isZero(b)) { E s = mkExtract(a, w - 1, 1); if (s->isC() || s->op != O_EXTRACT || a->op == O_SEXT || 1) return s; }
    if (a->isC() && isOnes(a)) return mkNot(mkExtract(b, w - 1, 1)); // -1 < b
    if (a->op == O_SEXT && b->op == O_SEXT) {
        int n = max(a->a->w, b->a->w); if (n < w) return mkSlt(mkTrunc(a, n), mkTrunc(b, n)); }
    if (a->op == O_SEXT && b->isC()) { int n = a->a->w; s64 v = sx(b->val, w), mx = (s64)msk(n - 1), mn = -mx - 1;
        if (v > mx) return mkBool(true); if (v <= mn) return mkBool(false); return mkSlt(a->a, mkC(n, v)); }
    if (b->op == O_SEXT && a->isC()) { int n = b->a->w; s64 v = sx(a->val, w), mx = (s64)msk(n - 1), mn = -mx - 1;
        if (v >= mx) return mkBool(false); if (v < mn) return mkBool(true); return mkSlt(mkC(n, v), b->a); }
    if (nonneg(a) && b->isC() && sx(b->val, w) < 0) return mkBool(false);
    if (nonneg(b) && a->isC() && sx(a->val, w) < 0) return mkBool(true);
    { int n = max(sextBits(a), sextBits(b)); int s = n <= 8 ? 8 : n <= 9 ? 9 : n <= 16 ? 16 : n <= 17 ? 17 : n <= 32 ? 32 : 64; if (s < w) return mkSlt(mkTrunc(a, s), mkTrunc(b, s)); }
    if (b->isC() && iteConstTree(a)) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
    if (a->isC() && iteConstTree(b)) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
    return node(O_SLT, 1, a, b, nullptr, 0);
}
E mkSlt(E a, E b) { if (a->isC() && b->isC()) return mkBool(sx(a->val, a->w) < sx(b->val, b->w)); MEMO(O_SLT, 1, a, b, nullptr, 0, slt_(a, b)); }
E mkSle(E a, E b) {
    if (a->isC() && b->isC()) return mkBool(sx(a->val, a->w) <= sx(b->val, b->w));
    if (a == b) return mkBool(true);
    int w = a->w; u64 smax = msk(w - 1), smin = 1ull << (w - 1);
    if (w > 1) {
        if (b->isC()) { if (b->val == smax) return mkBool(true); return mkSlt(a, mkC(w, b->val + 1)); }
        if (a->isC()) { if (a->val == smin) return mkBool(true); return mkSlt(mkC(w, a->val - 1), b); }
        if (nonneg(a) && nonneg(b)) return mkUle(a, b);
        if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkSle(a->a, b->a);
    }
    return node(O_SLE, 1, a, b, nullptr, 0);
}
static bool isMsbOf(E c, E x) { return c == mkExtract(x, x->w - 1, 1) || c == mkSlt(x, mkC(x->w, 0)); }
static E ite_(E c, E t, E f) {
    if (f->op == O_ZEXT && t->w > 1) { // msb(x) ? x - 2^k : x
        E x = f->a; if (t->op == O_ADD && t->a == f && t->b->isC() && t->b->val == ((0 - (1ull << x->w)) & msk(t->w)) && isMsbOf(c, x)) return mkSext(x, t->w);
        if (t->op == O_CONCAT && isOnes(t->a) && t->b == x && isMsbOf(c, x)) return mkSext(x, t->w); }
    if (c->op == O_XOR && isOnes(c->b)) return mkIte(c->a, f, t);
    int w = t->w;
    if (t->op == O_ITE && t->a == c) t = t->b;
    if (f->op == O_ITE && f->a == c) f = f->c;
    if (t == f) return t;
    if (w == 1) {
        if (t->isC()) return t->val ? mkOr(c, f) : mkAnd(mkNot(c), f);
        if (f->isC()) return f->val ? mkOr(mkNot(c), t) : mkAnd(c, t);
        if (t == c) return mkOr(c, f);
        if (f == c) return mkAnd(c, t);
    }
    if (f->op == O_ITE && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
    if (c->op == O_EQ && c->b->isC() && t == c->b && f == c->a) return f;
    if (t->isC() && f->isC() && w > 1) {
        if (t->val == 1 && f->val == 0) return mkZext(c, w);
        if (t->val == 0 && f->val == 1) return mkZext(mkNot(c), w);
        if (t->val == msk(w) && f->val == 0) return mkSext(c, w);
        if (t->val == 0 && f->val == msk(w)) return mkSext(mkNot(c), w);
    }
    if (t->op == O_ZEXT && f->op == O_ZEXT && t->a->w == f->a->w) return mkZext(mkIte(c, t->a, f->a), w);
    if (t->op == O_SEXT && f->op == O_SEXT && t->a->w == f->a->w) return mkSext(mkIte(c, t->a, f->a), w);
    return node(O_ITE, w, c, t, f, 0);
}
E mkIte(E c, E t, E f) {
    if (c->w != 1 || t->w != f->w) { fprintf(stderr, "ite widths\n"); abort(); }
    if (c->isC()) return c->val ? t : f;
    if (t == f) return t;
    MEMO(O_ITE, t->w, c, t, f, 0, ite_(c, t, f));
}
E mkBin(int op, E a, E b) {
    switch (op) {
    case O_AND: return mkAnd(a, b); case O_OR: return mkOr(a, b); case O_XOR: return mkXor(a, b);
    case O_ADD: return mkAdd(a, b); case O_SUB: return mkSub(a, b); case O_MUL: return mkMul(a, b);
    case O_UDIV: return mkUDiv(a, b); case O_SDIV: return mkSDiv(a, b); case O_UREM: return mkURem(a, b); case O_SREM: return mkSRem(a, b);
    case O_SHL: return mkShl(a, b); case O_LSHR: return mkLShr(a, b); case O_ASHR: return mkAShr(a, b);
    case O_CONCAT: return mkConcat(a, b);
    case O_EQ: return mkEq(a, b); case O_ULT: return mkUlt(a, b); case O_ULE: return mkUle(a, b); case O_SLT: return mkSlt(a, b); case O_SLE: return mkSle(a, b);
    }
    abort();
}

u64 evalE(E e, const Model& m) {
    if (e->op == O_CONST) return e->val;
    if (e->op == O_VAR) return m.get(e->val) & msk(e->w);
    if (e->estamp == m.stamp) return e->eval;
    u64 r;
    switch (e->op) {
    case O_ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
    case O_EXTRACT: r = (evalE(e->a, m) >> e->val) & msk(e->w); break;
    case O_ZEXT: r = evalE(e->a, m); break;
    case O_SEXT: r = (u64)sx(evalE(e->a, m), e->a->w) & msk(e->w); break;
    case O_CONCAT: r = evalE(e->a, m) << e->b->w | evalE(e->b, m); break;
    default: r = foldBin(e->op, e->a->w, evalE(e->a, m), evalE(e->b, m)); break;
    }
    e->estamp = m.stamp; e->eval = r; return r;
}
const Bits& truthTable(E e) {
    static unordered_map<u32, Bits> tab;
    auto it = tab.find(e->id);
    if (it != tab.end()) return it->second;
    Bits b; u32 v = (*e->sup)[0]; int n = 1 << g_vars[v].w; Model m;
    for (int i = 0; i < n; i++) { m.stamp = ++g_stamp; m.set(v, i); b[i] = evalE(e, m); }
    return tab[e->id] = b;
}
string toStr(E e, int d) {
    static const char* nm[] = {"const", "var", "and", "or", "xor", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "eq", "ult", "ule", "slt", "sle", "ite"};
    char buf[64];
    if (e->op == O_CONST) { snprintf(buf, 64, "%llx:%d", (unsigned long long)e->val, e->w); return buf; }
    if (e->op == O_VAR) return g_vars[e->val].name;
    if (d == 0) return "...";
    string s = string("(") + nm[e->op];
    if (e->op == O_EXTRACT) { snprintf(buf, 64, "[%d+:%d]", (int)e->val, e->w); s += buf; }
    if (e->op == O_ZEXT || e->op == O_SEXT) { snprintf(buf, 64, "%d", e->w); s += buf; }
    for (E k : {e->a, e->b, e->c}) if (k) s += " " + toStr(k, d - 1);
    return s + ")";
}
