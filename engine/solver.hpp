#pragma once
#include "expr.hpp"
#include <string>
namespace se {
struct SolverStats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0; double time = 0, maxTime = 0; };
extern SolverStats solverStats;
enum class Res { Sat, Unsat, Unknown };
void solverInit(unsigned timeoutMs);
// decides constraints(slice related to goal) /\ goal; on Sat merges the values of the slice's variables into model
Res solve(const std::vector<Expr*>& constraints, Expr* goal, Assign& model);
// no slicing: all constraints together (used to double check a counterexample)
Res solveAll(const std::vector<Expr*>& constraints, Assign& model);
extern std::string dumpDir;
}
