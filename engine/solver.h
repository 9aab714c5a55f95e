#pragma once
#include "expr.h"
enum class Sat { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0; double z3time = 0; uint64_t sat = 0, unsat = 0, unknown = 0; };
extern SolverStats gSS;
extern unsigned gSolverTimeoutMs;
// Is (conj of pc) & q satisfiable? pc is known satisfiable, with `model` a satisfying assignment.
// On SAT, *out receives a full assignment satisfying pc & q.
Sat solveSat(const std::vector<Expr *> &pc, Expr *q, const Assign &model, Assign *out);
