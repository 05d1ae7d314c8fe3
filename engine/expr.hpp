// Hash-consed bit-vector expressions used by the symbolic executor.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>

namespace se {

enum class Op : uint8_t {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
    // floating point (operands/result are the IEEE bit patterns)
    FAdd, FSub, FMul, FDiv, FOeq, FOlt, FOle, FUno,
    SIToFP, UIToFP, FPToSI, FPToUI, FPCvt
};

struct VarSet { std::vector<uint32_t> v; };   // sorted

struct Expr {
    Op op;
    uint16_t width;      // result width in bits
    uint16_t aux;        // Extract: low bit; FP conversions: unused
    uint32_t id;
    uint64_t val;        // Const value / Var id
    Expr *a, *b, *c;
    const VarSet* vars;
    void* z3;            // translated ast
    // evaluation memo
    uint32_t evalGen;
    uint64_t evalVal;
    // substitution memo
    uint32_t subGen;
    Expr* subVal;
};

inline uint64_t maskOf(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextOf(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskOf(w);
    return (int64_t)((v ^ m) - m);
}
inline bool isC(const Expr* e) { return e->op == Op::Const; }

Expr* mkConst(uint64_t v, unsigned w);              // w <= 64
Expr* mkConstWide(unsigned w, const std::vector<uint64_t>& words);
Expr* mkVar(uint32_t id);                           // 8-bit
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkCmp(Op op, Expr* a, Expr* b);               // result width 1
Expr* mkIte(Expr* c, Expr* t, Expr* f);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* e, unsigned lo, unsigned w);
Expr* mkZExt(Expr* e, unsigned w);
Expr* mkSExt(Expr* e, unsigned w);
Expr* mkNot(Expr* e);                               // 1 bit negation
Expr* mkFP(Op op, Expr* a, Expr* b, unsigned resWidth);

inline Expr* mkTrue() { return mkConst(1, 1); }
inline Expr* mkFalse() { return mkConst(0, 1); }

bool evalConstBin(Op op, uint64_t a, uint64_t b, unsigned w, uint64_t& r);
bool evalConstCmp(Op op, uint64_t a, uint64_t b, unsigned w);
uint64_t evalConstFP(Op op, uint64_t a, uint64_t b, unsigned opw, unsigned resw);

using Assign = std::vector<uint8_t>;   // var id -> value (0 when beyond the end)
// value of e (width <= 64) under the assignment; gen must be fresh per assignment
uint64_t evalExpr(Expr* e, const Assign& m);
extern bool evalInvalid;   // set when the last evaluation met a node it cannot evaluate
// substitute variables with a known constant
using Known = std::unordered_map<uint32_t, uint8_t>;
Expr* substitute(Expr* e, const Known& k);

size_t exprCount();
std::string toStr(Expr* e, int depth = 6);

} // namespace se
