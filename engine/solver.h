#pragma once
#include "expr.h"
enum Res { UNSAT=0, SAT=1, UNKNOWN=2 };
struct SolverStats { u64 queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, fpQueries=0; double secs=0, maxSecs=0; };
extern SolverStats g_sstats;
extern unsigned g_solverTimeoutMs;
extern std::string g_dumpDir; // if set, dump final assertion queries as SMT-LIB2
// decide conjunction of cs. On SAT fills out (varId -> value) for the variables occurring in cs.
Res solveConj(const std::vector<Expr*>& cs, std::vector<std::pair<u32,u64>>& out, unsigned timeoutMs=0);
void warmSolver();
