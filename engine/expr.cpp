#include "expr.hpp"
#include <algorithm>
#include <cstring>
#include <cmath>
#include <deque>
#include <unordered_set>
#include <map>

namespace se {

namespace {
struct Key { Op op; uint16_t w, aux; uint64_t val; Expr *a, *b, *c; };
struct H {
    size_t operator()(const Expr* e) const {
        uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull + e->width * 31 + e->aux * 131;
        h ^= e->val + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h ^= (uint64_t)(uintptr_t)e->a * 0xff51afd7ed558ccdull + (h << 6) + (h >> 2);
        h ^= (uint64_t)(uintptr_t)e->b * 0xc4ceb9fe1a85ec53ull + (h << 6) + (h >> 2);
        h ^= (uint64_t)(uintptr_t)e->c * 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        return h;
    }
};
struct E {
    bool operator()(const Expr* x, const Expr* y) const {
        return x->op == y->op && x->width == y->width && x->aux == y->aux && x->val == y->val
            && x->a == y->a && x->b == y->b && x->c == y->c;
    }
};
std::unordered_set<Expr*, H, E> table;
std::deque<Expr> arena;
VarSet emptySet;
struct VSH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
std::unordered_map<std::vector<uint32_t>, VarSet*, VSH> vsTable;
std::unordered_map<uint64_t, const VarSet*> unionMemo;

const VarSet* internVS(std::vector<uint32_t>&& v) {
    if (v.empty()) return &emptySet;
    auto it = vsTable.find(v);
    if (it != vsTable.end()) return it->second;
    auto* s = new VarSet{v};
    vsTable.emplace(std::move(v), s);
    return s;
}
const VarSet* unionVS(const VarSet* a, const VarSet* b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    if (a > b) std::swap(a, b);
    uint64_t k = ((uint64_t)(uintptr_t)a * 0x9E3779B97F4A7C15ull) ^ (uint64_t)(uintptr_t)b;
    static std::map<std::pair<const VarSet*, const VarSet*>, const VarSet*> memo;
    (void)k;
    auto it = memo.find({a, b});
    if (it != memo.end()) return it->second;
    std::vector<uint32_t> r;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    auto* s = internVS(std::move(r));
    memo[{a, b}] = s;
    return s;
}

Expr* mk(Op op, unsigned w, unsigned aux, uint64_t val, Expr* a, Expr* b, Expr* c) {
    Expr probe{op, (uint16_t)w, (uint16_t)aux, 0, val, a, b, c, nullptr, nullptr, 0, 0, 0, nullptr};
    auto it = table.find(&probe);
    if (it != table.end()) return *it;
    probe.id = (uint32_t)arena.size() + 1;
    const VarSet* vs = &emptySet;
    if (op == Op::Var) vs = internVS({(uint32_t)val});
    else {
        if (a) vs = unionVS(vs, a->vars);
        if (b) vs = unionVS(vs, b->vars);
        if (c) vs = unionVS(vs, c->vars);
    }
    probe.vars = vs;
    arena.push_back(probe);
    Expr* e = &arena.back();
    table.insert(e);
    return e;
}
} // anon

size_t exprCount() { return arena.size(); }

Expr* mkConst(uint64_t v, unsigned w) {
    if (w > 64) return mkZExt(mkConst(v, 64), w);
    return mk(Op::Const, w, 0, v & maskOf(w), nullptr, nullptr, nullptr);
}
Expr* mkConstWide(unsigned w, const std::vector<uint64_t>& words) {
    Expr* r = nullptr; unsigned done = 0;
    for (size_t i = 0; done < w; ++i) {
        unsigned n = std::min(64u, w - done);
        Expr* p = mkConst(i < words.size() ? words[i] : 0, n);
        r = r ? mkConcat(p, r) : p;
        done += n;
    }
    return r;
}
Expr* mkVar(uint32_t id) { return mk(Op::Var, 8, 0, id, nullptr, nullptr, nullptr); }

bool evalConstBin(Op op, uint64_t a, uint64_t b, unsigned w, uint64_t& r) {
    uint64_t m = maskOf(w);
    switch (op) {
    case Op::Add: r = a + b; break;
    case Op::Sub: r = a - b; break;
    case Op::Mul: r = a * b; break;
    case Op::UDiv: if (!b) return false; r = a / b; break;
    case Op::URem: if (!b) return false; r = a % b; break;
    case Op::SDiv: { int64_t x = sextOf(a, w), y = sextOf(b, w); if (!y) return false; if (y == -1) r = 0 - (uint64_t)x; else r = (uint64_t)(x / y); break; }
    case Op::SRem: { int64_t x = sextOf(a, w), y = sextOf(b, w); if (!y) return false; if (y == -1) r = 0; else r = (uint64_t)(x % y); break; }
    case Op::And: r = a & b; break;
    case Op::Or: r = a | b; break;
    case Op::Xor: r = a ^ b; break;
    case Op::Shl: r = b >= w ? 0 : a << b; break;
    case Op::LShr: r = b >= w ? 0 : (a & m) >> b; break;
    case Op::AShr: r = (uint64_t)(sextOf(a, w) >> (b >= w ? 63 : b)); break;
    default: return false;
    }
    r &= m;
    return true;
}
bool evalConstCmp(Op op, uint64_t a, uint64_t b, unsigned w) {
    switch (op) {
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sextOf(a, w) < sextOf(b, w);
    case Op::Sle: return sextOf(a, w) <= sextOf(b, w);
    default: return false;
    }
}
static double toD(uint64_t v, unsigned w) {
    if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
    double d; memcpy(&d, &v, 8); return d;
}
static uint64_t fromD(double d, unsigned w) {
    if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
    uint64_t v; memcpy(&v, &d, 8); return v;
}
uint64_t evalConstFP(Op op, uint64_t a, uint64_t b, unsigned opw, unsigned resw) {
    switch (op) {
    case Op::FAdd: if (opw == 32) return fromD((float)((float)toD(a, 32) + (float)toD(b, 32)), 32); return fromD(toD(a, 64) + toD(b, 64), 64);
    case Op::FSub: if (opw == 32) return fromD((float)((float)toD(a, 32) - (float)toD(b, 32)), 32); return fromD(toD(a, 64) - toD(b, 64), 64);
    case Op::FMul: if (opw == 32) return fromD((float)((float)toD(a, 32) * (float)toD(b, 32)), 32); return fromD(toD(a, 64) * toD(b, 64), 64);
    case Op::FDiv: if (opw == 32) return fromD((float)((float)toD(a, 32) / (float)toD(b, 32)), 32); return fromD(toD(a, 64) / toD(b, 64), 64);
    case Op::FOeq: return toD(a, opw) == toD(b, opw);
    case Op::FOlt: return toD(a, opw) < toD(b, opw);
    case Op::FOle: return toD(a, opw) <= toD(b, opw);
    case Op::FUno: return std::isnan(toD(a, opw)) || std::isnan(toD(b, opw));
    case Op::SIToFP: { int64_t s = sextOf(a, opw); return resw == 32 ? fromD((float)s, 32) : fromD((double)s, 64); }
    case Op::UIToFP: { uint64_t s = a & maskOf(opw); return resw == 32 ? fromD((float)s, 32) : fromD((double)s, 64); }
    case Op::FPToSI: return (uint64_t)(int64_t)toD(a, opw) & maskOf(resw);
    case Op::FPToUI: return (uint64_t)toD(a, opw) & maskOf(resw);
    case Op::FPCvt: return fromD(toD(a, opw), resw);
    default: return 0;
    }
}

static bool isOnes(Expr* e) { return isC(e) && e->val == maskOf(e->width); }
static bool isZero(Expr* e) { return isC(e) && e->val == 0; }

// flatten into segments, most significant first
static void segs(Expr* e, std::vector<Expr*>& out) {
    if (e->op == Op::Concat) { segs(e->a, out); segs(e->b, out); return; }
    if (e->op == Op::ZExt) {
        unsigned z = e->width - e->a->width;
        while (z > 64) { out.push_back(mkConst(0, 64)); z -= 64; }
        if (z) out.push_back(mkConst(0, z));
        segs(e->a, out); return;
    }
    out.push_back(e);
}

static Expr* bitwiseSegs(Op op, Expr* a, Expr* b) {
    std::vector<Expr*> sa, sb;
    segs(a, sa); segs(b, sb);
    if (sa.size() == 1 && sb.size() == 1 && a->width <= 64) {
        // constant mask: split the other side at the mask's boundaries
        Expr* c = isC(a) ? a : isC(b) ? b : nullptr;
        if (!c) return nullptr;
        Expr* x = c == a ? b : a;
        if (op == Op::And) {
            uint64_t v = c->val;
            // contiguous low mask or shifted contiguous mask
            if (!v) return c;
            unsigned lo = __builtin_ctzll(v);
            uint64_t t = v >> lo;
            if ((t & (t + 1)) == 0) {
                unsigned n = t == ~0ull ? 64 : (unsigned)__builtin_ctzll(t + 1);
                if (n == x->width) return x;
                Expr* mid = mkExtract(x, lo, n);
                Expr* r = mid;
                if (lo) r = mkConcat(r, mkConst(0, lo));
                return mkZExt(r, x->width);
            }
        }
        return nullptr;
    }
    // each overlapping piece must have a 0/ones constant on one side
    std::vector<Expr*> res;
    size_t i = 0, j = 0; unsigned ua = 0, ub = 0; // consumed bits from the top of the current segment
    while (i < sa.size() && j < sb.size()) {
        unsigned ra = sa[i]->width - ua, rb = sb[j]->width - ub;
        unsigned n = std::min(ra, rb);
        Expr* x = mkExtract(sa[i], ra - n, n);
        Expr* y = mkExtract(sb[j], rb - n, n);
        if (n <= 64 && (isC(x) || isC(y))) {
            Expr* cst = isC(x) ? x : y; Expr* oth = isC(x) ? y : x;
            Expr* r = nullptr;
            if (isC(oth)) { uint64_t v; evalConstBin(op, cst->val, oth->val, n, v); r = mkConst(v, n); }
            else if (op == Op::And) { if (isZero(cst)) r = cst; else if (isOnes(cst)) r = oth; }
            else if (op == Op::Or) { if (isZero(cst)) r = oth; else if (isOnes(cst)) r = cst; }
            else if (op == Op::Xor) { if (isZero(cst)) r = oth; }
            if (!r) {
                if (op == Op::And && cst == (isC(x) ? x : y)) r = bitwiseSegs(op, cst, oth);
                if (!r) r = mk(op, n, 0, 0, oth, cst, nullptr);
            }
            res.push_back(r);
        } else if (x == y && op != Op::Xor) res.push_back(x);
        else return nullptr;
        ua += n; ub += n;
        if (ua == sa[i]->width) { ++i; ua = 0; }
        if (ub == sb[j]->width) { ++j; ub = 0; }
    }
    Expr* r = res[0];
    for (size_t k = 1; k < res.size(); ++k) r = mkConcat(r, res[k]);
    return r;
}

// an upper bound of the unsigned value of e (width <= 64)
static uint64_t umax(Expr* e, int depth = 8) {
    unsigned w = e->width;
    uint64_t m = maskOf(w);
    if (w > 64 || depth == 0) return m;
    uint64_t x, y;
    switch (e->op) {
    case Op::Const: return e->val;
    case Op::ZExt: return umax(e->a, depth - 1);
    case Op::Add: x = umax(e->a, depth - 1); y = umax(e->b, depth - 1); return (x > m - y) ? m : x + y;
    case Op::Mul: x = umax(e->a, depth - 1); y = umax(e->b, depth - 1); return (x && y > m / x) ? m : x * y;
    case Op::UDiv: if (isC(e->b) && e->b->val) return umax(e->a, depth - 1) / e->b->val; return m;
    case Op::URem: if (isC(e->b) && e->b->val) return std::min(umax(e->a, depth - 1), e->b->val - 1); return m;
    case Op::And: return std::min(umax(e->a, depth - 1), umax(e->b, depth - 1));
    case Op::LShr: if (isC(e->b) && e->b->val < w) return umax(e->a, depth - 1) >> e->b->val; return m;
    case Op::Shl: if (isC(e->b) && e->b->val < w) { x = umax(e->a, depth - 1); return x > (m >> e->b->val) ? m : x << e->b->val; } return m;
    case Op::Ite: return std::max(umax(e->b, depth - 1), umax(e->c, depth - 1));
    case Op::Concat: return (umax(e->a, depth - 1) << e->b->width) | maskOf(e->b->width);
    default: return m;
    }
}
static bool topClear(Expr* e) { return e->width <= 64 && umax(e) <= (maskOf(e->width) >> 1); }

Expr* mkBin(Op op, Expr* a, Expr* b) {
    unsigned w = a->width;
    if ((op == Op::SDiv || op == Op::SRem) && w <= 64 && isC(b) && b->val && topClear(b) && topClear(a))
        return mkBin(op == Op::SDiv ? Op::UDiv : Op::URem, a, b);
    if (w <= 64 && isC(a) && isC(b)) {
        uint64_t r;
        if (evalConstBin(op, a->val, b->val, w, r)) return mkConst(r, w);
    }
    switch (op) {
    case Op::Add:
        if (isC(a)) std::swap(a, b);
        if (isZero(b)) return a;
        if (isC(b) && a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, a->a, mkConst(a->b->val + b->val, w));
        if (a->op == Op::Sub && a->b == b) return a->a;
        if (isC(b) && a->op == Op::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
        if (!isC(b) && b->op == Op::Add && isC(b->b)) return mkBin(Op::Add, mkBin(Op::Add, a, b->a), b->b);
        if (a->op == Op::Add && isC(a->b) && !isC(b)) return mkBin(Op::Add, mkBin(Op::Add, a->a, b), a->b);
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        for (int k = 0; k < 2; ++k) {   // (x / C) * C + x % C
            Expr *p = k ? b : a, *q = k ? a : b;
            if (p->op == Op::Mul && isC(p->b) && p->a->op == Op::UDiv && q->op == Op::URem && isC(q->b) && p->a->b == p->b && q->b == p->b && q->a == p->a->a) return q->a;
        }
        break;
    case Op::Sub:
        if (isZero(b)) return a;
        if (a == b) return mkConst(0, w);
        if (isC(b) && w <= 64) return mkBin(Op::Add, a, mkConst(0 - b->val, w));
        if (a->op == Op::Add && a->a == b) return a->b;
        if (a->op == Op::Add && a->b == b) return a->a;
        break;
    case Op::Mul:
        if (isC(a)) std::swap(a, b);
        if (isZero(b)) return b;
        if (isC(b) && b->val == 1) return a;
        if (isC(b) && w <= 64 && (b->val & (b->val - 1)) == 0) return mkBin(Op::Shl, a, mkConst(__builtin_ctzll(b->val), w));
        break;
    case Op::UDiv:
        if (isC(b) && b->val == 1) return a;
        if (isC(b) && b->val && w <= 64 && (b->val & (b->val - 1)) == 0) return mkBin(Op::LShr, a, mkConst(__builtin_ctzll(b->val), w));
        break;
    case Op::URem:
        if (isC(b) && b->val && w <= 64 && (b->val & (b->val - 1)) == 0) return mkBin(Op::And, a, mkConst(b->val - 1, w));
        break;
    case Op::And:
        if (isC(a)) std::swap(a, b);
        if (a == b) return a;
        if (isZero(b)) return b;
        if (isOnes(b)) return a;
        if (w == 1 && (a->op == Op::Xor && isC(a->b) && a->a == b)) return mkConst(0, 1);
        if (auto* r = bitwiseSegs(op, a, b)) return r;
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        break;
    case Op::Or:
        if (isC(a)) std::swap(a, b);
        if (a == b) return a;
        if (isZero(b)) return a;
        if (isOnes(b)) return b;
        if (auto* r = bitwiseSegs(op, a, b)) return r;
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        break;
    case Op::Xor:
        if (isC(a)) std::swap(a, b);
        if (a == b && w <= 64) return mkConst(0, w);
        if (isZero(b)) return a;
        if (isC(b) && a->op == Op::Xor && isC(a->b)) return mkBin(Op::Xor, a->a, mkConst(a->b->val ^ b->val, w));
        if (w == 1 && isC(b) && a->op == Op::Ult) return mkCmp(Op::Ule, a->b, a->a);
        if (w == 1 && isC(b) && a->op == Op::Ule) return mkCmp(Op::Ult, a->b, a->a);
        if (w == 1 && isC(b) && a->op == Op::Slt) return mkCmp(Op::Sle, a->b, a->a);
        if (w == 1 && isC(b) && a->op == Op::Sle) return mkCmp(Op::Slt, a->b, a->a);
        if (auto* r = bitwiseSegs(op, a, b)) return r;
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        break;
    case Op::Shl:
        if (isZero(b)) return a;
        if (isC(b)) {
            uint64_t k = b->val;
            if (k >= w) return mkConst(0, w);
            Expr* z = nullptr; unsigned n = (unsigned)k;
            while (n) { unsigned t = std::min(64u, n); Expr* p = mkConst(0, t); z = z ? mkConcat(z, p) : p; n -= t; }
            return mkConcat(mkExtract(a, 0, w - (unsigned)k), z);
        }
        break;
    case Op::LShr:
        if (isZero(b)) return a;
        if (isC(b)) {
            uint64_t k = b->val;
            if (k >= w) return mkConst(0, w);
            return mkZExt(mkExtract(a, (unsigned)k, w - (unsigned)k), w);
        }
        break;
    case Op::AShr:
        if (isZero(b)) return a;
        if (isC(b)) {
            uint64_t k = b->val;
            if (k >= w) k = w - 1;
            return mkSExt(mkExtract(a, (unsigned)k, w - (unsigned)k), w);
        }
        break;
    default: break;
    }
    return mk(op, w, 0, 0, a, b, nullptr);
}

Expr* mkCmp(Op op, Expr* a, Expr* b) {
    unsigned w = a->width;
    if (w <= 64 && isC(a) && isC(b)) return mkConst(evalConstCmp(op, a->val, b->val, w), 1);
    if (a == b) return mkConst(op == Op::Eq || op == Op::Ule || op == Op::Sle, 1);
    if (op == Op::Eq) {
        if (isC(a)) std::swap(a, b);
        if (w == 1 && isC(b)) return b->val ? a : mkNot(a);
        if (isC(b)) {
            if (a->op == Op::ZExt) {
                unsigned iw = a->a->width;
                if (iw <= 64 && (b->val & ~maskOf(iw))) return mkFalse();
                return mkCmp(Op::Eq, a->a, mkConst(b->val, iw));
            }
            if (a->op == Op::SExt && a->a->width <= 64) {
                unsigned iw = a->a->width;
                if (((uint64_t)sextOf(b->val & maskOf(iw), iw) & maskOf(w)) != b->val) return mkFalse();
                return mkCmp(Op::Eq, a->a, mkConst(b->val, iw));
            }
            if (a->op == Op::Concat) {
                unsigned lw = a->b->width;
                uint64_t lo = b->val & maskOf(lw), hi = lw >= 64 ? 0 : (b->val >> lw);
                // constant parts decide or vanish
                if (isC(a->b)) { if (a->b->val != lo) return mkFalse(); return mkCmp(Op::Eq, a->a, mkConst(hi, w - lw)); }
                if (isC(a->a)) { if (a->a->val != hi) return mkFalse(); return mkCmp(Op::Eq, a->b, mkConst(lo, lw)); }
                return mkBin(Op::And, mkCmp(Op::Eq, a->a, mkConst(hi, w - lw)), mkCmp(Op::Eq, a->b, mkConst(lo, lw)));
            }
            if (a->op == Op::Add && isC(a->b)) return mkCmp(Op::Eq, a->a, mkConst(b->val - a->b->val, w));
            if (a->op == Op::Xor && isC(a->b)) return mkCmp(Op::Eq, a->a, mkConst(b->val ^ a->b->val, w));
            if (a->op == Op::Ite) {
                if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->c, b));
            }
        } else {
            if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width) return mkCmp(op, a->a, b->a);
            if (a->op == Op::Concat && b->op == Op::Concat && a->b->width == b->b->width) {
                if (a->b == b->b) return mkCmp(op, a->a, b->a);
                if (a->a == b->a) return mkCmp(op, a->b, b->b);
                if ((isC(a->a) && isC(b->a)) || (isC(a->b) && isC(b->b)))
                    return mkBin(Op::And, mkCmp(op, a->a, b->a), mkCmp(op, a->b, b->b));
            }
            if (a->id > b->id) std::swap(a, b);
        }
    } else {
        if (op == Op::Ult) {
            if (isZero(b)) return mkFalse();
            if (isOnes(a)) return mkFalse();
        }
        if (op == Op::Ule) {
            if (isZero(a)) return mkTrue();
            if (isOnes(b)) return mkTrue();
        }
        if ((op == Op::Ult || op == Op::Ule)) {
            if (a->op == Op::ZExt && isC(b) && a->a->width <= 64) {
                unsigned iw = a->a->width;
                if (b->val > maskOf(iw)) return mkTrue();
                return mkCmp(op, a->a, mkConst(b->val, iw));
            }
            if (b->op == Op::ZExt && isC(a) && b->a->width <= 64) {
                unsigned iw = b->a->width;
                if (a->val > maskOf(iw)) return mkFalse();
                return mkCmp(op, mkConst(a->val, iw), b->a);
            }
            if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width) return mkCmp(op, a->a, b->a);
        }
        if (op == Op::Slt || op == Op::Sle) {
            bool na = (a->op == Op::ZExt) || (isC(a) && sextOf(a->val, w) >= 0);
            bool nb = (b->op == Op::ZExt) || (isC(b) && sextOf(b->val, w) >= 0);
            if (na && nb) return mkCmp(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
            if (na && isC(b)) return mkFalse();
            if (nb && isC(a)) return mkTrue();
            if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width) return mkCmp(op, a->a, b->a);
        }
        if (isC(b) && a->op == Op::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->c, b));
    }
    return mk(op, 1, 0, 0, a, b, nullptr);
}

Expr* mkNot(Expr* e) { return mkBin(Op::Xor, e, mkConst(1, 1)); }

Expr* mkIte(Expr* c, Expr* t, Expr* f) {
    if (isC(c)) return c->val ? t : f;
    if (t == f) return t;
    if (t->width == 1) {
        if (isC(t) && isC(f)) return t->val ? c : mkNot(c);
        if (isC(t)) return t->val ? mkBin(Op::Or, c, f) : mkBin(Op::And, mkNot(c), f);
        if (isC(f)) return f->val ? mkBin(Op::Or, mkNot(c), t) : mkBin(Op::And, c, t);
    }
    if (c->op == Op::Xor && isC(c->b)) return mkIte(c->a, f, t);
    return mk(Op::Ite, t->width, 0, 0, c, t, f);
}

Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->width + lo->width;
    if (isC(hi) && isC(lo) && w <= 64) return mkConst((hi->val << lo->width) | lo->val, w);
    if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
    if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
    // adjacent extracts of the same expression
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->width)
        return mkExtract(hi->a, lo->aux, w);
    // the low part of an arithmetic expression may have been simplified on its own
    if (hi->op == Op::Extract && lo->op != Op::Concat && hi->aux == lo->width &&
        (hi->a->op == Op::Add || hi->a->op == Op::Sub || hi->a->op == Op::Mul) && mkExtract(hi->a, 0, lo->width) == lo)
        return mkExtract(hi->a, 0, w);
    // left-associate to the right: Concat(Concat(a,b),c) -> Concat(a, Concat(b,c)) so that extracts merge
    if (hi->op == Op::Concat) {
        return mkConcat(hi->a, mkConcat(hi->b, lo));
    }
    if (lo->op == Op::Concat) {
        Expr* l1 = lo->a;
        if (isC(hi) && isC(l1) && hi->width + l1->width <= 64) return mkConcat(mkConcat(hi, l1), lo->b);
        if (hi->op == Op::Extract && l1->op == Op::Extract && hi->a == l1->a && hi->aux == l1->aux + l1->width)
            return mkConcat(mkExtract(hi->a, l1->aux, hi->width + l1->width), lo->b);
    }
    return mk(Op::Concat, w, 0, 0, hi, lo, nullptr);
}

Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->width) return e;
    if (isC(e)) return mkConst(e->val >> lo, w);
    switch (e->op) {
    case Op::Extract: return mkExtract(e->a, e->aux + lo, w);
    case Op::Concat: {
        unsigned lw = e->b->width;
        if (lo >= lw) return mkExtract(e->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(e->b, lo, w);
        return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo));
    }
    case Op::ZExt: {
        unsigned iw = e->a->width;
        if (lo >= iw) { if (w <= 64) return mkConst(0, w); return mkZExt(mkConst(0, 64), w); }
        if (lo + w <= iw) return mkExtract(e->a, lo, w);
        return mkZExt(mkExtract(e->a, lo, iw - lo), w);
    }
    case Op::SExt: {
        unsigned iw = e->a->width;
        if (lo + w <= iw) return mkExtract(e->a, lo, w);
        if (lo < iw) return mkSExt(mkExtract(e->a, lo, iw - lo), w);
        break;
    }
    case Op::And: case Op::Or: case Op::Xor:
        return mkBin(e->op, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case Op::Add: case Op::Sub: case Op::Mul:
        if (lo == 0) return mkBin(e->op, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
        break;
    case Op::Ite:
        if (isC(e->b) || isC(e->c)) return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
        break;
    default: break;
    }
    return mk(Op::Extract, w, lo, 0, e, nullptr, nullptr);
}

Expr* mkZExt(Expr* e, unsigned w) {
    if (w == e->width) return e;
    if (isC(e) && w <= 64) return mkConst(e->val, w);
    if (e->op == Op::ZExt) return mkZExt(e->a, w);
    return mk(Op::ZExt, w, 0, 0, e, nullptr, nullptr);
}
Expr* mkSExt(Expr* e, unsigned w) {
    if (w == e->width) return e;
    if (isC(e) && w <= 64) return mkConst((uint64_t)sextOf(e->val, e->width), w);
    if (e->op == Op::ZExt) return mkZExt(e->a, w);
    if (e->op == Op::SExt) return mkSExt(e->a, w);
    return mk(Op::SExt, w, 0, 0, e, nullptr, nullptr);
}
Expr* mkFP(Op op, Expr* a, Expr* b, unsigned rw) {
    if (isC(a) && (!b || isC(b))) return mkConst(evalConstFP(op, a->val, b ? b->val : 0, a->width, rw), rw);
    return mk(op, rw, 0, 0, a, b, nullptr);
}

// ---- evaluation ----
static uint32_t evalGenCounter = 0;
static const Assign* evalAssign;
bool evalInvalid = false;
static uint64_t evalRec(Expr* e) {
    if (e->op == Op::Const) return e->val;
    if (e->evalGen == evalGenCounter) return e->evalVal;
    uint64_t r = 0; unsigned w = e->width;
    switch (e->op) {
    case Op::Var: r = e->val < evalAssign->size() ? (*evalAssign)[e->val] : 0; break;
    case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
        if (e->a->width > 64) {
            // compare in 64-bit pieces (Eq only)
            bool eq = true;
            for (unsigned lo = 0; lo < e->a->width && eq; lo += 64) {
                unsigned n = std::min(64u, e->a->width - lo);
                eq = evalRec(mkExtract(e->a, lo, n)) == evalRec(mkExtract(e->b, lo, n));
            }
            r = eq;
        } else r = evalConstCmp(e->op, evalRec(e->a), evalRec(e->b), e->a->width);
        break;
    case Op::Ite: r = evalRec(e->a) ? evalRec(e->b) : evalRec(e->c); break;
    case Op::Concat: r = (e->b->width >= 64 ? 0 : evalRec(e->a) << e->b->width) | evalRec(e->b); break;
    case Op::Extract:
        if (e->a->width <= 64) r = (evalRec(e->a) >> e->aux) & maskOf(w);
        else {
            // wide operand that did not simplify: not evaluable here, callers fall back to the solver
            evalInvalid = true;
            r = 0;
        }
        break;
    case Op::ZExt: r = evalRec(e->a); break;
    case Op::SExt: r = (uint64_t)sextOf(evalRec(e->a), e->a->width) & maskOf(w); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno:
    case Op::SIToFP: case Op::UIToFP: case Op::FPToSI: case Op::FPToUI: case Op::FPCvt:
        r = evalConstFP(e->op, evalRec(e->a), e->b ? evalRec(e->b) : 0, e->a->width, w); break;
    default: {
        uint64_t x = evalRec(e->a), y = evalRec(e->b);
        if (!evalConstBin(e->op, x, y, w, r)) {
            // SMT-LIB division by zero
            if (e->op == Op::UDiv) r = maskOf(w);
            else if (e->op == Op::URem || e->op == Op::SRem) r = x;
            else if (e->op == Op::SDiv) r = sextOf(x, w) >= 0 ? maskOf(w) : 1;
        }
    }
    }
    e->evalGen = evalGenCounter; e->evalVal = r;
    return r;
}
uint64_t evalExpr(Expr* e, const Assign& m) {
    ++evalGenCounter; evalAssign = &m; evalInvalid = false;
    return evalRec(e);
}

// ---- substitution ----
static uint32_t subGenCounter = 0;
static const Known* subKnown;
static Expr* subRec(Expr* e) {
    if (e->vars->v.empty()) return e;
    if (e->subGen == subGenCounter) return e->subVal;
    Expr* r = e;
    if (e->op == Op::Var) {
        auto it = subKnown->find((uint32_t)e->val);
        if (it != subKnown->end()) r = mkConst(it->second, 8);
    } else {
        bool touch = false;
        if (e->vars->v.size() < subKnown->size()) { for (auto v : e->vars->v) if (subKnown->count(v)) { touch = true; break; } }
        else touch = true;
        if (touch) {
            Expr* a = e->a ? subRec(e->a) : nullptr;
            Expr* b = e->b ? subRec(e->b) : nullptr;
            Expr* c = e->c ? subRec(e->c) : nullptr;
            if (a != e->a || b != e->b || c != e->c) {
                switch (e->op) {
                case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: r = mkCmp(e->op, a, b); break;
                case Op::Ite: r = mkIte(a, b, c); break;
                case Op::Concat: r = mkConcat(a, b); break;
                case Op::Extract: r = mkExtract(a, e->aux, e->width); break;
                case Op::ZExt: r = mkZExt(a, e->width); break;
                case Op::SExt: r = mkSExt(a, e->width); break;
                case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno:
                case Op::SIToFP: case Op::UIToFP: case Op::FPToSI: case Op::FPToUI: case Op::FPCvt:
                    r = mkFP(e->op, a, b, e->width); break;
                default: r = mkBin(e->op, a, b);
                }
            }
        }
    }
    e->subGen = subGenCounter; e->subVal = r;
    return r;
}
Expr* substitute(Expr* e, const Known& k) {
    if (k.empty() || e->vars->v.empty()) return e;
    ++subGenCounter; subKnown = &k;
    return subRec(e);
}

std::string toStr(Expr* e, int d) {
    static const char* n[] = {"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","sitofp","uitofp","fptosi","fptoui","fpcvt"};
    if (e->op == Op::Const) return std::to_string(e->val) + ":" + std::to_string(e->width);
    if (e->op == Op::Var) return "v" + std::to_string(e->val);
    if (d == 0) return "...";
    std::string s = std::string("(") + n[(int)e->op];
    if (e->op == Op::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
    if (e->op == Op::ZExt || e->op == Op::SExt) s += std::to_string(e->width);
    for (Expr* x : {e->a, e->b, e->c}) if (x) s += " " + toStr(x, d - 1);
    return s + ")";
}

} // namespace se
