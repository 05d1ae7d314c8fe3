#include "solver.hpp"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <unordered_map>
#include <map>
#include <fstream>

namespace se {
SolverStats solverStats;
std::string dumpDir;
static Z3_context ctx;
static Z3_solver slv, slvFp, slvInt;
static Z3_sort bv8;
static unsigned tmo;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }

static Z3_tactic seq(std::initializer_list<const char*> l) {
    Z3_tactic t = nullptr;
    for (auto n : l) { Z3_tactic x = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, x); if (!t) t = x; else { t = Z3_tactic_and_then(ctx, t, x); Z3_tactic_inc_ref(ctx, t); } }
    return t;
}

void solverInit(unsigned timeoutMs) {
    tmo = timeoutMs;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, errh);
    Z3_del_config(cfg);
    bv8 = Z3_mk_bv_sort(ctx, 8);
    Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bv8));
    auto setup = [&timeoutMs](Z3_tactic t) {
        Z3_solver s = Z3_mk_solver_from_tactic(ctx, t);
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
        Z3_solver_set_params(ctx, s, p);
        return s;
    };
    { unsigned full = timeoutMs; timeoutMs = std::min(full, 60000u); slvInt = setup(seq({"simplify", "propagate-values", "solve-eqs", "smt"})); timeoutMs = full; }
    slv = setup(seq({"simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat"}));
    slvFp = setup(seq({"simplify", "fpa2bv", "simplify", "propagate-values", "bit-blast", "sat"}));
}

static bool sawFp;
static Z3_ast tr(Expr* e);
static Z3_ast b1(Z3_ast boolean) { return Z3_mk_ite(ctx, boolean, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); }
static std::unordered_map<Expr*, Z3_ast> boolMemo;
static std::unordered_map<Expr*, bool> fpMemo;
static Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
static Z3_ast toFp(Expr* e) { return Z3_mk_fpa_to_fp_bv(ctx, tr(e), fpSort(e->width)); }

static bool hasFp(Expr* e) {
    if (e->op == Op::Const || e->op == Op::Var) return false;
    if (e->op >= Op::FAdd) return true;
    auto it = fpMemo.find(e); if (it != fpMemo.end()) return it->second;
    bool r = (e->a && hasFp(e->a)) || (e->b && hasFp(e->b)) || (e->c && hasFp(e->c));
    return fpMemo[e] = r;
}

static Z3_ast trBool(Expr* e) {
    auto it = boolMemo.find(e);
    if (it != boolMemo.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
    case Op::Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case Op::Eq: r = e->a->width == 1 ? Z3_mk_iff(ctx, trBool(e->a), trBool(e->b)) : Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
    case Op::Ult: r = Z3_mk_bvult(ctx, tr(e->a), tr(e->b)); break;
    case Op::Ule: r = Z3_mk_bvule(ctx, tr(e->a), tr(e->b)); break;
    case Op::Slt: r = Z3_mk_bvslt(ctx, tr(e->a), tr(e->b)); break;
    case Op::Sle: r = Z3_mk_bvsle(ctx, tr(e->a), tr(e->b)); break;
    case Op::And: { Z3_ast x[2] = {trBool(e->a), trBool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case Op::Or: { Z3_ast x[2] = {trBool(e->a), trBool(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case Op::Xor: r = isC(e->b) && e->b->val ? Z3_mk_not(ctx, trBool(e->a)) : Z3_mk_xor(ctx, trBool(e->a), trBool(e->b)); break;
    case Op::Ite: r = Z3_mk_ite(ctx, trBool(e->a), trBool(e->b), trBool(e->c)); break;
    case Op::FOeq: r = Z3_mk_fpa_eq(ctx, toFp(e->a), toFp(e->b)); break;
    case Op::FOlt: r = Z3_mk_fpa_lt(ctx, toFp(e->a), toFp(e->b)); break;
    case Op::FOle: r = Z3_mk_fpa_leq(ctx, toFp(e->a), toFp(e->b)); break;
    case Op::FUno: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, toFp(e->a)), Z3_mk_fpa_is_nan(ctx, toFp(e->b))}; r = Z3_mk_or(ctx, 2, x); break; }
    default: r = Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
    }
    Z3_inc_ref(ctx, r);
    boolMemo[e] = r;
    return r;
}

// Division by a constant: fresh quotient/remainder with a definitional side constraint (bit-blasting bvsdiv by a
// constant is what Z3 finds hardest).  The constraints are total definitions, so asserting them is always sound.
struct Side { Z3_ast c; Expr* of; };
static std::vector<Side> sides;
static Z3_ast bvC(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
static Z3_ast divConst(Expr* e) {
    unsigned w = e->width;
    bool sgn = e->op == Op::SDiv || e->op == Op::SRem, rem = e->op == Op::URem || e->op == Op::SRem;
    uint64_t C = e->b->val;
    static std::map<std::tuple<uint32_t, uint64_t, unsigned, bool>, std::pair<Z3_ast, Z3_ast>> memo;
    auto key = std::make_tuple(e->a->id, C, w, sgn);
    auto it = memo.find(key);
    Z3_ast x = tr(e->a);
    Z3_ast neg = sgn ? Z3_mk_bvslt(ctx, x, bvC(0, w)) : nullptr;
    if (it == memo.end()) {
        Z3_ast ax = sgn ? Z3_mk_ite(ctx, neg, Z3_mk_bvneg(ctx, x), x) : x;
        Z3_ast q = Z3_mk_fresh_const(ctx, "q", Z3_mk_bv_sort(ctx, w)), r = Z3_mk_fresh_const(ctx, "r", Z3_mk_bv_sort(ctx, w));
        Z3_inc_ref(ctx, q); Z3_inc_ref(ctx, r);
        uint64_t mx = w >= 64 ? ~0ull : ((1ull << w) - 1);
        Z3_ast cs[4] = {Z3_mk_eq(ctx, ax, Z3_mk_bvadd(ctx, Z3_mk_bvmul(ctx, q, bvC(C, w)), r)), Z3_mk_bvult(ctx, r, bvC(C, w)),
                        Z3_mk_bvule(ctx, q, bvC(mx / C, w)), Z3_mk_bvule(ctx, Z3_mk_bvmul(ctx, q, bvC(C, w)), ax)};
        Z3_ast c = Z3_mk_and(ctx, 4, cs);
        Z3_inc_ref(ctx, c);
        sides.push_back({c, e});
        it = memo.emplace(key, std::make_pair(q, r)).first;
    }
    Z3_ast v = rem ? it->second.second : it->second.first;
    return sgn ? Z3_mk_ite(ctx, neg, Z3_mk_bvneg(ctx, v), v) : v;
}
static bool divByConst(Expr* e) {
    if (!isC(e->b) || e->width > 64 || e->width < 8 || !e->b->val) return false;
    if (e->op == Op::SDiv || e->op == Op::SRem) return !(e->b->val >> (e->width - 1) & 1);
    return true;
}

static Z3_ast tr(Expr* e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    unsigned w = e->width;
    switch (e->op) {
    case Op::Const: r = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, w)); break;
    case Op::Var: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->val), bv8); break;
    case Op::Add: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
    case Op::Sub: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
    case Op::Mul: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
    case Op::UDiv: r = divByConst(e) ? divConst(e) : Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
    case Op::SDiv: r = divByConst(e) ? divConst(e) : Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
    case Op::URem: r = divByConst(e) ? divConst(e) : Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
    case Op::SRem: r = divByConst(e) ? divConst(e) : Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
    case Op::And: if (w > 1) r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
    case Op::Or: if (w > 1) r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
    case Op::Xor: if (w > 1) r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
    case Op::Shl: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
    case Op::LShr: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
    case Op::AShr: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
    case Op::Ite: if (w > 1) r = Z3_mk_ite(ctx, trBool(e->a), tr(e->b), tr(e->c)); break;
    case Op::Concat: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
    case Op::Extract: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, tr(e->a)); break;
    case Op::ZExt: r = Z3_mk_zero_ext(ctx, w - e->a->width, tr(e->a)); break;
    case Op::SExt: r = Z3_mk_sign_ext(ctx, w - e->a->width, tr(e->a)); break;
    case Op::FAdd: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, Z3_mk_fpa_rne(ctx), toFp(e->a), toFp(e->b))); break;
    case Op::FSub: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, Z3_mk_fpa_rne(ctx), toFp(e->a), toFp(e->b))); break;
    case Op::FMul: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, Z3_mk_fpa_rne(ctx), toFp(e->a), toFp(e->b))); break;
    case Op::FDiv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, Z3_mk_fpa_rne(ctx), toFp(e->a), toFp(e->b))); break;
    case Op::SIToFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), tr(e->a), fpSort(w))); break;
    case Op::UIToFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), tr(e->a), fpSort(w))); break;
    case Op::FPToSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), toFp(e->a), w); break;
    case Op::FPToUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), toFp(e->a), w); break;
    case Op::FPCvt: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), toFp(e->a), fpSort(w))); break;
    default: break;
    }
    if (!r) r = b1(trBool(e));
    Z3_inc_ref(ctx, r);
    e->z3 = r;
    return r;
}

// ---- linear integer translation, exact: used for queries with multiplications or divisions by constants, which
// bit-blasting handles badly.  Every term denotes the unsigned value of the bit vector.
static std::unordered_map<Expr*, bool> arithMemo;
static bool hasArith(Expr* e) {
    if (e->op == Op::Const || e->op == Op::Var) return false;
    if (e->op == Op::Mul || e->op == Op::UDiv || e->op == Op::SDiv || e->op == Op::URem || e->op == Op::SRem) return true;
    auto it = arithMemo.find(e); if (it != arithMemo.end()) return it->second;
    bool r = (e->a && hasArith(e->a)) || (e->b && hasArith(e->b)) || (e->c && hasArith(e->c));
    return arithMemo[e] = r;
}
struct Lia {
    std::unordered_map<Expr*, Z3_ast> memo, bmemo;
    std::map<std::tuple<Expr*, uint64_t, bool>, std::pair<Z3_ast, Z3_ast>> divs;
    std::vector<Z3_ast> defs;
    bool ok = true;
    Z3_sort I = Z3_mk_int_sort(ctx);
    Z3_ast num(unsigned __int128 v) { std::string t; do { t.insert(t.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); return Z3_mk_numeral(ctx, t.c_str(), I); }
    Z3_ast p2(unsigned w) { return num((unsigned __int128)1 << w); }
    Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(ctx, 2, x); }
    Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(ctx, 2, x); }
    Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(ctx, 2, x); }
    void def(Z3_ast d) { defs.push_back(d); }
    Z3_ast fresh(Z3_ast lo, Z3_ast hiExcl) { Z3_ast v = Z3_mk_fresh_const(ctx, "i", I); def(Z3_mk_le(ctx, lo, v)); def(Z3_mk_lt(ctx, v, hiExcl)); return v; }
    std::pair<Z3_ast, Z3_ast> divmod(Z3_ast x, unsigned __int128 C, unsigned __int128 qmax) {
        Z3_ast q = fresh(num(0), num(qmax + 1)), r = fresh(num(0), num(C));
        def(Z3_mk_eq(ctx, x, add(mul(num(C), q), r)));
        return {q, r};
    }
    Z3_ast wrap(Z3_ast x, unsigned w, unsigned __int128 lowK, unsigned __int128 nK) {   // x + lowK*2^w in [0, nK*2^w)
        Z3_ast k = fresh(num(0), num(nK)), v = fresh(num(0), p2(w));
        Z3_ast y = lowK ? add(x, mul(num(lowK), p2(w))) : x;
        def(Z3_mk_eq(ctx, y, add(v, mul(p2(w), k))));
        return v;
    }
    Z3_ast sv(Expr* e) { Z3_ast x = t(e); return Z3_mk_ite(ctx, Z3_mk_lt(ctx, x, p2(e->width - 1)), x, sub(x, p2(e->width))); }
    Z3_ast b(Expr* e) {
        auto it = bmemo.find(e); if (it != bmemo.end()) return it->second;
        Z3_ast r;
        switch (e->op) {
        case Op::Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case Op::Eq: r = e->a->width == 1 ? Z3_mk_iff(ctx, b(e->a), b(e->b)) : Z3_mk_eq(ctx, t(e->a), t(e->b)); break;
        case Op::Ult: r = Z3_mk_lt(ctx, t(e->a), t(e->b)); break;
        case Op::Ule: r = Z3_mk_le(ctx, t(e->a), t(e->b)); break;
        case Op::Slt: r = Z3_mk_lt(ctx, sv(e->a), sv(e->b)); break;
        case Op::Sle: r = Z3_mk_le(ctx, sv(e->a), sv(e->b)); break;
        case Op::And: { Z3_ast x[2] = {b(e->a), b(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case Op::Or: { Z3_ast x[2] = {b(e->a), b(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case Op::Xor: r = Z3_mk_xor(ctx, b(e->a), b(e->b)); break;
        case Op::Ite: r = Z3_mk_ite(ctx, b(e->a), b(e->b), b(e->c)); break;
        default: r = Z3_mk_eq(ctx, t(e), num(1));
        }
        return bmemo[e] = r;
    }
    Z3_ast t(Expr* e) {
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        unsigned w = e->width;
        Z3_ast r = nullptr;
        if (w > 96) { ok = false; return num(0); }
        auto cst = [&](Expr* x) { return isC(x) && x->width <= 64; };
        switch (e->op) {
        case Op::Const: if (w <= 64) r = num(e->val); break;
        case Op::Var: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->val), I); def(Z3_mk_le(ctx, num(0), r)); def(Z3_mk_lt(ctx, r, num(256))); break;
        case Op::Concat: r = add(mul(p2(e->b->width), t(e->a)), t(e->b)); break;
        case Op::ZExt: r = t(e->a); break;
        case Op::SExt: { Z3_ast x = t(e->a); r = Z3_mk_ite(ctx, Z3_mk_lt(ctx, x, p2(e->a->width - 1)), x, add(x, sub(p2(w), p2(e->a->width)))); break; }
        case Op::Extract: {
            Z3_ast x = t(e->a);
            if (e->aux) x = divmod(x, (unsigned __int128)1 << e->aux, ((unsigned __int128)1 << (e->a->width - e->aux)) - 1).first;
            if (e->aux + w < e->a->width) x = divmod(x, (unsigned __int128)1 << w, ((unsigned __int128)1 << (e->a->width - e->aux - w)) - 1).second;
            r = x; break;
        }
        case Op::Add: if (w > 1) r = wrap(add(t(e->a), t(e->b)), w, 0, 2); break;
        case Op::Sub: if (w > 1) r = wrap(sub(t(e->a), t(e->b)), w, 1, 2); break;
        case Op::Mul:
            if (w <= 64 && cst(e->b)) {
                if (e->b->val >> (w - 1)) { uint64_t m = (0 - e->b->val) & maskOf(w); r = wrap(sub(num(0), mul(num(m), t(e->a))), w, m, (unsigned __int128)m + 1); }
                else r = wrap(mul(num(e->b->val), t(e->a)), w, 0, e->b->val);
            }
            break;
        case Op::Shl: if (w <= 64 && cst(e->b) && e->b->val < w) r = wrap(mul(p2((unsigned)e->b->val), t(e->a)), w, 0, (unsigned __int128)1 << e->b->val); break;
        case Op::LShr: if (w <= 64 && cst(e->b) && e->b->val && e->b->val < w) r = divmod(t(e->a), (unsigned __int128)1 << e->b->val, ((unsigned __int128)1 << (w - e->b->val)) - 1).first; break;
        case Op::And:
            if (w > 1 && w <= 64 && cst(e->b) && e->b->val && (e->b->val & (e->b->val + 1)) == 0)
                r = divmod(t(e->a), (unsigned __int128)e->b->val + 1, maskOf(w) / ((unsigned __int128)e->b->val + 1)).second;
            break;
        case Op::UDiv: case Op::URem: case Op::SDiv: case Op::SRem: {
            if (!divByConst(e)) break;
            bool sgn = e->op == Op::SDiv || e->op == Op::SRem, rem = e->op == Op::URem || e->op == Op::SRem;
            auto key = std::make_tuple(e->a, e->b->val, sgn);
            Z3_ast x = t(e->a), neg = sgn ? Z3_mk_ge(ctx, x, p2(w - 1)) : nullptr;
            if (!divs.count(key)) divs[key] = divmod(sgn ? Z3_mk_ite(ctx, neg, sub(p2(w), x), x) : x, e->b->val, maskOf(w) / e->b->val);
            Z3_ast v = rem ? divs[key].second : divs[key].first;
            Z3_ast isz = sgn ? Z3_mk_eq(ctx, v, num(0)) : nullptr;
            if (sgn) { Z3_ast x2[2] = {neg, Z3_mk_not(ctx, isz)}; v = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, x2), sub(p2(w), v), v); }
            r = v; break;
        }
        case Op::Ite: if (w > 1) r = Z3_mk_ite(ctx, b(e->a), t(e->b), t(e->c)); break;
        default: break;
        }
        if (!r && w == 1 && (e->op == Op::Eq || e->op == Op::Ult || e->op == Op::Ule || e->op == Op::Slt || e->op == Op::Sle || e->op == Op::And || e->op == Op::Or || e->op == Op::Xor || e->op == Op::Ite))
            r = Z3_mk_ite(ctx, b(e), num(1), num(0));
        if (!r) { ok = false; r = num(0); }
        return memo[e] = r;
    }
};

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint8_t>> m; };
struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> cache;

static Res run(const std::vector<Expr*>& q, const std::vector<uint32_t>& vars, CacheEnt& out) {
    bool fp = false;
    for (auto* e : q) if (hasFp(e)) fp = true;
    bool arith = false;
    if (!fp) for (auto* e : q) if (hasArith(e)) arith = true;
    if (arith) {
        Lia l;
        std::vector<Z3_ast> as;
        for (auto* e : q) { as.push_back(l.b(e)); if (!l.ok) break; }
        if (l.ok) {
            Z3_solver_reset(ctx, slvInt);
            for (auto a : as) Z3_solver_assert(ctx, slvInt, a);
            for (auto a : l.defs) Z3_solver_assert(ctx, slvInt, a);
            auto t0 = std::chrono::steady_clock::now();
            Z3_lbool r = Z3_solver_check(ctx, slvInt);
            double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            solverStats.z3calls++; solverStats.time += dt; solverStats.maxTime = std::max(solverStats.maxTime, dt);
            if (getenv("SYMX_LIA")) fprintf(stderr, "lia: %d %.2f s\n", (int)r, dt);
            if (r == Z3_L_FALSE) { solverStats.unsat++; return out.r = Res::Unsat; }
            if (r == Z3_L_TRUE) {
                solverStats.sat++;
                Z3_model m = Z3_solver_get_model(ctx, slvInt);
                Z3_model_inc_ref(ctx, m);
                for (auto v : vars) {
                    Z3_ast val = nullptr; uint64_t x = 0;
                    if (Z3_model_eval(ctx, m, Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), l.I), true, &val) && val && Z3_get_ast_kind(ctx, val) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(ctx, val, &x);
                    out.m.push_back({v, (uint8_t)x});
                }
                Z3_model_dec_ref(ctx, m);
                return out.r = Res::Sat;
            }
        }
    }
    Z3_solver s = fp ? slvFp : slv;
    Z3_solver_reset(ctx, s);
    for (auto* e : q) Z3_solver_assert(ctx, s, trBool(e));
    for (auto& sd : sides) {   // only those over variables of this query
        bool hit = !sd.of->vars->v.empty();
        for (auto v : sd.of->vars->v) if (!std::binary_search(vars.begin(), vars.end(), v)) { hit = false; break; }
        if (hit) Z3_solver_assert(ctx, s, sd.c);
    }
    std::string text;
    if (!dumpDir.empty()) text = Z3_solver_to_string(ctx, s);
    auto t0 = std::chrono::steady_clock::now();
    Z3_lbool r = Z3_solver_check(ctx, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    solverStats.z3calls++; solverStats.time += dt; solverStats.maxTime = std::max(solverStats.maxTime, dt);
    if (!dumpDir.empty()) {
        static int n = 0;
        std::ofstream f(dumpDir + "/q" + std::to_string(n++) + (r == Z3_L_TRUE ? ".sat" : r == Z3_L_FALSE ? ".unsat" : ".unk") + ".smt2");
        f << text << "(check-sat)\n";
    }
    if (r == Z3_L_UNDEF) { solverStats.unknown++; return out.r = Res::Unknown; }
    if (r == Z3_L_FALSE) { solverStats.unsat++; return out.r = Res::Unsat; }
    solverStats.sat++;
    Z3_model m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, m);
    for (auto v : vars) {
        Z3_ast val = nullptr;
        uint64_t x = 0;
        if (Z3_model_eval(ctx, m, tr(mkVar(v)), true, &val) && val) {
            if (Z3_get_ast_kind(ctx, val) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(ctx, val, &x);
        }
        out.m.push_back({v, (uint8_t)x});
    }
    Z3_model_dec_ref(ctx, m);
    return out.r = Res::Sat;
}

static Res cached(std::vector<Expr*>& q, Assign& model) {
    std::sort(q.begin(), q.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
    q.erase(std::unique(q.begin(), q.end()), q.end());
    std::vector<uint32_t> key; key.reserve(q.size());
    for (auto* e : q) key.push_back(e->id);
    auto it = cache.find(key);
    if (it == cache.end()) {
        std::vector<uint32_t> vars;
        for (auto* e : q) vars.insert(vars.end(), e->vars->v.begin(), e->vars->v.end());
        std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
        CacheEnt ce; ce.r = Res::Unknown;
        run(q, vars, ce);
        it = cache.emplace(std::move(key), std::move(ce)).first;
    } else solverStats.cacheHits++;
    if (it->second.r == Res::Sat)
        for (auto& [v, x] : it->second.m) { if (model.size() <= v) model.resize(v + 1, 0); model[v] = x; }
    return it->second.r;
}

Res solve(const std::vector<Expr*>& cons, Expr* goal, Assign& model) {
    solverStats.queries++;
    if (isC(goal)) return goal->val ? Res::Sat : Res::Unsat;
    // independence slicing
    std::vector<Expr*> q{goal};
    static std::vector<uint32_t> mark; static uint32_t gen = 0; ++gen;
    auto ensure = [&](uint32_t v) { if (mark.size() <= v) mark.resize(v + 64, 0); };
    for (auto v : goal->vars->v) { ensure(v); mark[v] = gen; }
    std::vector<char> used(cons.size(), 0);
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < cons.size(); ++i) {
            if (used[i]) continue;
            bool hit = false;
            for (auto v : cons[i]->vars->v) { ensure(v); if (mark[v] == gen) { hit = true; break; } }
            if (!hit) continue;
            used[i] = 1; changed = true; q.push_back(cons[i]);
            for (auto v : cons[i]->vars->v) mark[v] = gen;
        }
    }
    return cached(q, model);
}

Res solveAll(const std::vector<Expr*>& cons, Assign& model) {
    solverStats.queries++;
    std::vector<Expr*> q = cons;
    if (q.empty()) return Res::Sat;
    return cached(q, model);
}

} // namespace se
