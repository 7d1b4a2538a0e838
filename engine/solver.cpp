#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <atomic>
using namespace std;
Stats g_st; unsigned g_timeoutMs = 20000; string g_dumpDir;
static Z3_context Z; static u64 g_gen = 0; static u64 g_nodesIn = 0;
static void z3init() {
    if (Z && g_nodesIn < 400000) return;
    if (Z) Z3_del_context(Z);
    Z3_config c = Z3_mk_config(); Z = Z3_mk_context(c); Z3_del_config(c); g_gen++; g_nodesIn = 0;
    Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
}
static Z3_ast tr(E e) {
    if (e->z3gen == g_gen) return (Z3_ast)e->z3;
    Z3_ast a = e->a ? tr(e->a) : nullptr, b = e->b ? tr(e->b) : nullptr, c = e->c ? tr(e->c) : nullptr, r = nullptr;
    auto boolbv = [&](Z3_ast x) { return Z3_mk_ite(Z, x, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)), Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1))); };
    auto isone = [&](Z3_ast x) { return Z3_mk_eq(Z, x, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))); };
    switch (e->op) {
    case O_CONST: r = Z3_mk_unsigned_int64(Z, e->val, Z3_mk_bv_sort(Z, e->w)); break;
    case O_VAR: r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, g_vars[e->val].name.c_str()), Z3_mk_bv_sort(Z, e->w)); break;
    case O_AND: r = Z3_mk_bvand(Z, a, b); break; case O_OR: r = Z3_mk_bvor(Z, a, b); break; case O_XOR: r = Z3_mk_bvxor(Z, a, b); break;
    case O_ADD: r = Z3_mk_bvadd(Z, a, b); break; case O_SUB: r = Z3_mk_bvsub(Z, a, b); break; case O_MUL: r = Z3_mk_bvmul(Z, a, b); break;
    case O_UDIV: r = Z3_mk_bvudiv(Z, a, b); break; case O_SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
    case O_UREM: r = Z3_mk_bvurem(Z, a, b); break; case O_SREM: r = Z3_mk_bvsrem(Z, a, b); break;
    case O_SHL: r = Z3_mk_bvshl(Z, a, b); break; case O_LSHR: r = Z3_mk_bvlshr(Z, a, b); break; case O_ASHR: r = Z3_mk_bvashr(Z, a, b); break;
    case O_CONCAT: r = Z3_mk_concat(Z, a, b); break;
    case O_EXTRACT: r = Z3_mk_extract(Z, e->val + e->w - 1, e->val, a); break;
    case O_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, a); break; case O_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, a); break;
    case O_EQ: r = boolbv(Z3_mk_eq(Z, a, b)); break; case O_ULT: r = boolbv(Z3_mk_bvult(Z, a, b)); break; case O_ULE: r = boolbv(Z3_mk_bvule(Z, a, b)); break;
    case O_SLT: r = boolbv(Z3_mk_bvslt(Z, a, b)); break; case O_SLE: r = boolbv(Z3_mk_bvsle(Z, a, b)); break;
    case O_ITE: r = Z3_mk_ite(Z, isone(a), b, c); break;
    }
    e->z3 = r; e->z3gen = g_gen; g_nodesIn++; return r;
}
struct QKeyHash { size_t operator()(const vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32; } return h; } };
struct QRes { Res r; vector<pair<u32, u64>> m; };
static unordered_map<vector<u32>, QRes, QKeyHash> g_cache;

static const QRes& query(vector<E>& cs) {
    sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
    cs.erase(unique(cs.begin(), cs.end()), cs.end());
    vector<u32> key; for (E e : cs) key.push_back(e->id);
    auto it = g_cache.find(key);
    if (it != g_cache.end()) { g_st.cacheHits++; return it->second; }
    QRes q; q.r = R_UNKNOWN;
    auto t0 = chrono::steady_clock::now();
    z3init();
    Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, s);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), g_timeoutMs);
    Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
    Z3_ast one = Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1));
    for (E e : cs) Z3_solver_assert(Z, s, Z3_mk_eq(Z, tr(e), one));
    if (!g_dumpDir.empty()) { static u64 n = 0; char buf[64]; snprintf(buf, 64, "/q%06llu.smt2", (unsigned long long)n++); ofstream f(g_dumpDir + buf); f << "(set-logic QF_BV)\n" << Z3_solver_to_string(Z, s) << "(check-sat)\n"; }
    Z3_lbool r = Z3_solver_check(Z, s);
    g_st.queries++;
    if (r == Z3_L_TRUE) {
        q.r = R_SAT; g_st.sat++;
        Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
        vector<u32> vars; for (E e : cs) vars.insert(vars.end(), e->sup->begin(), e->sup->end());
        sort(vars.begin(), vars.end()); vars.erase(unique(vars.begin(), vars.end()), vars.end());
        for (u32 v : vars) { Z3_ast out; uint64_t val = 0; if (Z3_model_eval(Z, m, tr(g_vars[v].e), true, &out)) Z3_get_numeral_uint64(Z, out, &val); q.m.push_back({v, val}); }
        Z3_model_dec_ref(Z, m);
    } else if (r == Z3_L_FALSE) { q.r = R_UNSAT; g_st.unsat++; } else g_st.unknown++;
    Z3_solver_dec_ref(Z, s);
    g_st.time += chrono::duration<double>(chrono::steady_clock::now() - t0).count();
    return g_cache[key] = q;
}
static void slice(const PathCond& pc, E cond, vector<E>& out) {
    vector<bool> need(g_vars.size()); vector<bool> used(pc.cons.size());
    for (u32 v : *cond->sup) need[v] = true;
    out.push_back(cond);
    bool ch = true;
    while (ch) { ch = false;
        for (size_t i = 0; i < pc.cons.size(); i++) if (!used[i]) {
            bool hit = false; for (u32 v : *pc.cons[i]->sup) if (need[v]) { hit = true; break; }
            if (!hit) continue;
            used[i] = true; out.push_back(pc.cons[i]); ch = true;
            for (u32 v : *pc.cons[i]->sup) need[v] = true;
        } }
}
static bool byteVar(E c) { return c->sup->size() == 1 && g_vars[(*c->sup)[0]].w <= 8; }
Res PathCond::check(E cond, ModelP* out) {
    if (cond->isC()) { if (!cond->val) return R_UNSAT; if (out) *out = model; return R_SAT; }
    if (evalE(cond, *model)) { g_st.modelHits++; if (out) *out = model; return R_SAT; }
    if (byteVar(cond)) {
        u32 v = (*cond->sup)[0]; Bits t = truthTable(cond); if (const Bits* d = domOf(v)) t &= *d;
        if (t.none()) { g_st.byteDecisions++; return R_UNSAT; }
        if (!isMulti(v)) { g_st.byteDecisions++; if (out) { auto m = make_shared<Model>(*model); m->set(v, t._Find_first()); *out = m; } return R_SAT; }
    }
    vector<E> cs; slice(*this, cond, cs);
    const QRes& q = query(cs);
    if (q.r == R_SAT && out) { auto m = make_shared<Model>(*model); for (auto& p : q.m) m->set(p.first, p.second); *out = m; }
    return q.r;
}
int PathCond::branch(E cond, ModelP& mf, ModelP& mt) {
    if (cond->isC()) { mf = mt = model; g_st.trivial++; return cond->val ? 2 : 1; }
    int r = 0;
    bool ev = evalE(cond, *model);
    if (ev) { mt = model; r |= 2; Res q = check(mkNot(cond), &mf); if (q == R_SAT) r |= 1; else if (q == R_UNKNOWN) r |= 4; }
    else { mf = model; r |= 1; Res q = check(cond, &mt); if (q == R_SAT) r |= 2; else if (q == R_UNKNOWN) r |= 4; }
    return r;
}
void PathCond::addKnown(E c) {
    if (c->isC()) return;
    if (c->op == O_AND) { addKnown(c->a); addKnown(c->b); return; }
    if (find(cons.begin(), cons.end(), c) != cons.end()) return;
    cons.push_back(c);
    if (byteVar(c)) {
        u32 v = (*c->sup)[0]; const Bits& t = truthTable(c);
        for (auto& d : dom) if (d.first == v) { d.second &= t; return; }
        Bits b = t; dom.push_back({v, b});
    } else {
        multi.push_back(c);
        for (u32 v : *c->sup) { if (v >= inMulti.size()) inMulti.resize(v + 1); inMulti[v] = true; }
    }
}
bool PathCond::assume(E c) {
    ModelP m; Res r = check(c, &m); if (r != R_SAT) return false;
    model = m; addKnown(c); return true;
}
Res solveAll(const vector<E>& in, Model* out) {
    PathCond pc; vector<E> rest;
    vector<E> cs; for (E e : in) { if (e->isC()) { if (!e->val) { g_st.trivial++; return R_UNSAT; } continue; } cs.push_back(e); }
    if (cs.empty()) return R_SAT;
    const QRes& q = query(cs);
    if (q.r == R_SAT && out) for (auto& p : q.m) out->set(p.first, p.second);
    return q.r;
}
