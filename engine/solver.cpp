#include "solver.h"
#include <algorithm>
#include <chrono>

static double slowLog = getenv("NSX_SLOW") ? atof(getenv("NSX_SLOW")) : 1e9;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void onError(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e));
}

void Solver::init() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, onError);
    rne = keep(Z3_mk_fpa_rne(ctx));
    newInc();
}

void Solver::reset() {
    if (inc) Z3_solver_dec_ref(ctx, inc);
    inc = nullptr;
    lits.clear(); bv.clear(); bl.clear(); varAst.clear(); sorts.clear(); tablesAst.clear();
    Z3_del_context(ctx);
    init();
}

void Solver::newInc() {
    if (inc) Z3_solver_dec_ref(ctx, inc);
    inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, inc);
    lits.clear();
    incCount = 0; incQ = 0; incBase = 0;
}

Z3_ast Solver::keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }

Z3_sort Solver::bvs(u32 w) {
    auto it = sorts.find(w);
    if (it != sorts.end()) return it->second;
    Z3_sort s = Z3_mk_bv_sort(ctx, w);
    Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s));
    return sorts[w] = s;
}
Z3_sort Solver::fps(u32 w) {
    u64 k = 100000 + w;
    auto it = sorts.find(k);
    if (it != sorts.end()) return it->second;
    Z3_sort s = w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx);
    Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s));
    return sorts[k] = s;
}

bool Solver::hasFP(Expr* e) {
    if (fpFlag.size() <= e->id) fpFlag.resize(X.all.size() + 1024, 0);
    if (fpFlag[e->id]) return fpFlag[e->id] == 2;
    bool r = e->op >= OFAdd;
    for (int i = 0; i < e->nk && !r; ++i) r = hasFP(e->k[i]);
    fpFlag[e->id] = r ? 2 : 1;
    return r;
}

Z3_ast Solver::toFP(Expr* e) {
    // avoid round trip through bit patterns where possible
    switch (e->op) {
    case OFAdd: return Z3_mk_fpa_add(ctx, rne, toFP(e->k[0]), toFP(e->k[1]));
    case OFSub: return Z3_mk_fpa_sub(ctx, rne, toFP(e->k[0]), toFP(e->k[1]));
    case OFMul: return Z3_mk_fpa_mul(ctx, rne, toFP(e->k[0]), toFP(e->k[1]));
    case OFDiv: return Z3_mk_fpa_div(ctx, rne, toFP(e->k[0]), toFP(e->k[1]));
    case OFRem: return Z3_mk_fpa_rem(ctx, toFP(e->k[0]), toFP(e->k[1]));
    case OFSqrt: return Z3_mk_fpa_sqrt(ctx, rne, toFP(e->k[0]));
    case OFFma: return Z3_mk_fpa_fma(ctx, rne, toFP(e->k[0]), toFP(e->k[1]), toFP(e->k[2]));
    case OFRound: {
        Z3_ast rm = e->c == 0 ? rne : e->c == 1 ? Z3_mk_fpa_rtn(ctx) : e->c == 2 ? Z3_mk_fpa_rtp(ctx) : e->c == 3 ? Z3_mk_fpa_rtz(ctx) : Z3_mk_fpa_rna(ctx);
        return Z3_mk_fpa_round_to_integral(ctx, rm, toFP(e->k[0]));
    }
    case OFExt: case OFTrunc: return Z3_mk_fpa_to_fp_float(ctx, rne, toFP(e->k[0]), fps(e->w));
    case OSIToF: return Z3_mk_fpa_to_fp_signed(ctx, rne, toBV(e->k[0]), fps(e->w));
    case OUIToF: return Z3_mk_fpa_to_fp_unsigned(ctx, rne, toBV(e->k[0]), fps(e->w));
    case OIte: return Z3_mk_ite(ctx, toBool(e->k[0]), toFP(e->k[1]), toFP(e->k[2]));
    default: return Z3_mk_fpa_to_fp_bv(ctx, toBV(e), fps(e->w));
    }
}

Z3_ast Solver::toBool(Expr* e) {
    if (bl.size() <= e->id) bl.resize(X.all.size() + 1024, nullptr);
    if (bl[e->id]) return bl[e->id];
    Z3_ast r;
    switch (e->op) {
    case OConst: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case ONot: r = Z3_mk_not(ctx, toBool(e->k[0])); break;
    case OAnd: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
    case OOr: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
    case OXor: r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1])); break;
    case OIte: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    case OEq:
        if (e->k[0]->w == 1) r = Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1]));
        else r = Z3_mk_eq(ctx, toBV(e->k[0]), toBV(e->k[1]));
        break;
    case OUlt: r = Z3_mk_bvult(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case OUle: r = Z3_mk_bvule(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case OSlt: r = Z3_mk_bvslt(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case OSle: r = Z3_mk_bvsle(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case OFOeq: r = Z3_mk_fpa_eq(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
    case OFOlt: r = Z3_mk_fpa_lt(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
    case OFOle: r = Z3_mk_fpa_leq(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
    case OFUno: {
        Z3_ast a[2] = {Z3_mk_fpa_is_nan(ctx, toFP(e->k[0])), Z3_mk_fpa_is_nan(ctx, toFP(e->k[1]))};
        r = Z3_mk_or(ctx, 2, a); break;
    }
    default:
        r = Z3_mk_eq(ctx, toBV(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1)));
    }
    if (bl.size() <= e->id) bl.resize(X.all.size() + 1024, nullptr);
    return bl[e->id] = keep(r);
}

Z3_ast Solver::mux(const std::vector<u64>& t, Z3_ast idx, u32 iw, u32 bit, u64 base, u32 w) {
    // values for indices [base, base + 2^bit)
    u64 n = (u64)1 << bit;
    bool same = true;
    u64 v0 = base < t.size() ? t[base] : 0;
    for (u64 i = 0; i < n && same; ++i) if ((base + i < t.size() ? t[base + i] : v0) != v0) same = false;
    if (same || bit == 0) return Z3_mk_unsigned_int64(ctx, v0, bvs(w));
    Z3_ast hi = mux(t, idx, iw, bit - 1, base + n / 2, w);
    Z3_ast lo = mux(t, idx, iw, bit - 1, base, w);
    if (hi == lo) return hi;
    Z3_ast b = Z3_mk_eq(ctx, Z3_mk_extract(ctx, bit - 1, bit - 1, idx), Z3_mk_unsigned_int64(ctx, 1, bvs(1)));
    return Z3_mk_ite(ctx, b, hi, lo);
}

Z3_ast Solver::toBV(Expr* e) {
    if (bv.size() <= e->id) bv.resize(X.all.size() + 1024, nullptr);
    if (bv[e->id]) return bv[e->id];
    Z3_ast r;
    auto A = [&] { return toBV(e->k[0]); };
    auto B = [&] { return toBV(e->k[1]); };
    switch (e->op) {
    case OConst:
        if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->c, bvs(e->w));
        else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(e->c >> 64), bvs(e->w - 64)), Z3_mk_unsigned_int64(ctx, (u64)e->c, bvs(64)));
        break;
    case OVar: {
        char nm[32]; snprintf(nm, 32, "v%u", (u32)e->c);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(e->w));
        break;
    }
    case OAdd: r = Z3_mk_bvadd(ctx, A(), B()); break;
    case OSub: r = Z3_mk_bvsub(ctx, A(), B()); break;
    case OMul: r = Z3_mk_bvmul(ctx, A(), B()); break;
    case OUDiv: r = Z3_mk_bvudiv(ctx, A(), B()); break;
    case OSDiv: r = Z3_mk_bvsdiv(ctx, A(), B()); break;
    case OURem: r = Z3_mk_bvurem(ctx, A(), B()); break;
    case OSRem: r = Z3_mk_bvsrem(ctx, A(), B()); break;
    case OShl: r = Z3_mk_bvshl(ctx, A(), B()); break;
    case OLShr: r = Z3_mk_bvlshr(ctx, A(), B()); break;
    case OAShr: r = Z3_mk_bvashr(ctx, A(), B()); break;
    case OAnd: if (e->w > 1) { r = Z3_mk_bvand(ctx, A(), B()); break; } goto fromBool;
    case OOr: if (e->w > 1) { r = Z3_mk_bvor(ctx, A(), B()); break; } goto fromBool;
    case OXor: if (e->w > 1) { r = Z3_mk_bvxor(ctx, A(), B()); break; } goto fromBool;
    case OIte: if (e->w > 1) { r = Z3_mk_ite(ctx, toBool(e->k[0]), toBV(e->k[1]), toBV(e->k[2])); break; } goto fromBool;
    case OConcat: r = Z3_mk_concat(ctx, A(), B()); break;
    case OExtract: r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, A()); break;
    case OZExt: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, A()); break;
    case OSExt: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, A()); break;
    case OTable: {
        auto& t = X.tables[(u32)e->c];
        u32 bits = 0; while (((u64)1 << bits) < t.size()) ++bits;
        if (bits > e->k[0]->w) bits = e->k[0]->w;
        r = mux(t, A(), e->k[0]->w, bits, 0, e->w);
        break;
    }
    case OFAdd: case OFSub: case OFMul: case OFDiv: case OFRem: case OFSqrt: case OFRound: case OFExt: case OFTrunc: case OSIToF: case OUIToF: case OFFma:
        r = Z3_mk_fpa_to_ieee_bv(ctx, toFP(e)); break;
    case OFToSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), toFP(e->k[0]), e->w); break;
    case OFToUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), toFP(e->k[0]), e->w); break;
    default:
    fromBool:
        r = Z3_mk_ite(ctx, toBool(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1)));
    }
    if (bv.size() <= e->id) bv.resize(X.all.size() + 1024, nullptr);
    return bv[e->id] = keep(r);
}

SatResult Solver::run(Z3_solver s, unsigned n, Z3_ast* as, const std::vector<Expr*>& cs, ModelVec& out) {
    Z3_lbool r = n ? Z3_solver_check_assumptions(ctx, s, n, as) : Z3_solver_check(ctx, s);
    if (r == Z3_L_FALSE) return SR_UNSAT;
    if (r == Z3_L_UNDEF) return SR_UNKNOWN;
    Z3_model m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, m);
    const VarSet* vs = X.emptySet;
    for (Expr* c : cs) vs = X.uni(vs, c->vars);
    for (u32 v : vs->v) {
        char nm[32]; snprintf(nm, 32, "v%u", v);
        Z3_ast va = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(X.varInfos[v].width));
        Z3_inc_ref(ctx, va);
        Z3_ast val = nullptr;
        u64 x = 0;
        if (Z3_model_eval(ctx, m, va, true, &val) && val) {
            Z3_inc_ref(ctx, val);
            uint64_t t;
            if (Z3_get_numeral_uint64(ctx, val, &t)) x = t;
            Z3_dec_ref(ctx, val);
        }
        Z3_dec_ref(ctx, va);
        if (out.size() <= v) out.resize(v + 1, 0);
        out[v] = x;
    }
    Z3_model_dec_ref(ctx, m);
    return SR_SAT;
}

SatResult Solver::check(const std::vector<Expr*>& cs, ModelVec& out) {
    double t0 = now();
    ++st.queries;
    bool fp = false;
    for (Expr* c : cs) if (hasFP(c)) { fp = true; break; }
    SatResult r = SR_UNKNOWN;
    if (!fp) {
        if (incCount > std::max<size_t>(24, 3 * cs.size())) { if (X.all.size() > 4000000) reset(); else newInc(); }
        std::vector<Z3_ast> as;
        for (Expr* c : cs) {
            auto it = lits.find(c->id);
            if (it == lits.end()) {
                char nm[32]; snprintf(nm, 32, "p%u", c->id);
                Z3_ast p = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bool_sort(ctx)));
                Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, p, toBool(c)));
                it = lits.emplace(c->id, p).first;
                ++incCount;
            }
            as.push_back(it->second);
        }
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::min(timeoutMs, 3000u));
        Z3_solver_set_params(ctx, inc, p);
        r = run(inc, (unsigned)as.size(), as.data(), cs, out);
        Z3_params_dec_ref(ctx, p);
        if (r == SR_UNKNOWN) newInc();
        else {
            // the shared context slows down as it fills with formulas of unrelated paths: restart it when a query
            // costs clearly more than the first ones after a restart did
            double d = now() - t0;
            if (incQ < 5) incBase = std::max(incBase, d);
            if (++incQ > 20 && incCount > 40 && d > 0.02 && d > 4 * incBase) newInc();
        }
    }
    if (r == SR_UNKNOWN) {
        if (fp) ++st.fp; else ++st.fresh;
        Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV"));
        Z3_solver_inc_ref(ctx, s);
        if (!fp) {
            // non-incremental: full preprocessing tactic
            Z3_solver_dec_ref(ctx, s);
            Z3_tactic t = Z3_mk_tactic(ctx, "qfbv");
            Z3_tactic_inc_ref(ctx, t);
            s = Z3_mk_solver_from_tactic(ctx, t);
            Z3_solver_inc_ref(ctx, s);
            Z3_tactic_dec_ref(ctx, t);
        }
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
        Z3_solver_set_params(ctx, s, p);
        for (Expr* c : cs) Z3_solver_assert(ctx, s, toBool(c));
        r = run(s, 0, nullptr, cs, out);
        Z3_params_dec_ref(ctx, p);
        Z3_solver_dec_ref(ctx, s);
    }
    double dt = now() - t0;
    st.time += dt;
    if (dt > slowLog) { fprintf(stderr, "[slow %.2fs %s n=%zu]\n", dt, r == SR_SAT ? "sat" : r == SR_UNSAT ? "unsat" : "unknown", cs.size()); if (getenv("NSX_SLOWDUMP")) { static int k = 0; char nm[64]; snprintf(nm, 64, "%s.%d.smt2", getenv("NSX_SLOWDUMP"), k++); FILE* f = fopen(nm, "w"); fputs(smt2(cs).c_str(), f); fclose(f); } }
    if (dt > st.maxTime) st.maxTime = dt;
    if (r == SR_SAT) ++st.sat; else if (r == SR_UNSAT) ++st.unsat; else ++st.unknown;
    return r;
}

std::string Solver::smt2(const std::vector<Expr*>& cs) {
    Z3_solver s = Z3_mk_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    for (Expr* c : cs) Z3_solver_assert(ctx, s, toBool(c));
    std::string r = Z3_solver_to_string(ctx, s);
    Z3_solver_dec_ref(ctx, s);
    return r;
}
