#pragma once
#include "expr.h"
#include <map>
typedef std::shared_ptr<const Model> ModelP;
enum Res { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
struct Stats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, byteDecisions = 0, modelHits = 0, trivial = 0; double time = 0; u64 instrs = 0, forks = 0, xinstrs = 0; };
extern Stats g_st;
extern unsigned g_timeoutMs;
extern std::string g_dumpDir; // when set, final queries are dumped as SMT-LIB2
// Path condition with a model that satisfies it.
struct PathCond {
    std::vector<E> cons;            // every conjunct, in order
    std::vector<E> multi;           // conjuncts that are not single-byte-variable
    std::vector<std::pair<u32, Bits>> dom; // per variable domain from single-byte-variable conjuncts
    std::vector<bool> inMulti;      // variable occurs in multi
    ModelP model = std::make_shared<Model>();
    const Bits* domOf(u32 v) const { for (auto& d : dom) if (d.first == v) return &d.second; return nullptr; }
    bool isMulti(u32 v) const { return v < inMulti.size() && inMulti[v]; }
    // feasibility of cond: bit0 = can be false, bit1 = can be true; bit2 = unknown. Models for each side are returned.
    int branch(E cond, ModelP& mf, ModelP& mt);
    Res check(E cond, ModelP* out); // is pc && cond satisfiable
    void addKnown(E cond);          // add without checking (model must be set by the caller)
    bool assume(E cond);            // check and add; false when infeasible/unknown
};
Res solveAll(const std::vector<E>& cs, Model* out); // plain conjunction
