#pragma once
#include "expr.h"
#include <z3.h>
#include <string>
#include <vector>
#include <unordered_map>

enum SatResult { SR_UNSAT, SR_SAT, SR_UNKNOWN };

struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, domainDecided = 0, fp = 0, fresh = 0;
    double time = 0, maxTime = 0;
};

struct Solver {
    SolverStats st;
    unsigned timeoutMs = 20000;
    void init();
    // conjunction of cs; on SAT fills values for all variables of cs in `out` (var index -> value)
    SatResult check(const std::vector<Expr*>& cs, ModelVec& out);
    std::string smt2(const std::vector<Expr*>& cs);
private:
    Z3_context ctx = nullptr;
    Z3_solver inc = nullptr;
    std::vector<Z3_ast> bv, bl;
    std::vector<u8> fpFlag; // 0 unknown 1 no 2 yes
    std::unordered_map<u32, Z3_ast> lits;
    std::vector<Z3_ast> varAst;
    u64 incCount = 0, incQ = 0;
    double incBase = 0;
    std::unordered_map<u32, std::vector<Z3_ast>> tablesAst;
    Z3_ast toBV(Expr* e);
    Z3_ast toBool(Expr* e);
    Z3_ast toFP(Expr* e);
    Z3_ast keep(Z3_ast a);
    Z3_ast mux(const std::vector<u64>& t, Z3_ast idx, u32 iw, u32 bit, u64 base, u32 w);
    bool hasFP(Expr* e);
    void newInc();
    void reset();
    SatResult run(Z3_solver s, unsigned n, Z3_ast* as, const std::vector<Expr*>& cs, ModelVec& out);
    std::unordered_map<u64, Z3_sort> sorts;
    Z3_sort bvs(u32 w);
    Z3_sort fps(u32 w);
    Z3_ast rne = nullptr;
};
