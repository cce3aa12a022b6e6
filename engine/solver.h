// Deciding queries: path constraints + condition -> sat / unsat / unknown, with constraint slicing,
// an in-process Z3 and, when Z3 gives up, cvc5 and a newer z3 as separate processes.
#pragma once
#include "expr.h"
enum SatRes { R_UNSAT=0, R_SAT=1, R_UNKNOWN=2 };
struct SolverStats { u64 queries, sat, unsat, unknown, fallback, cachehits, us, xchecked, xdisagree, finite; };
extern SolverStats g_sstats; extern std::string g_scratch; extern u64 g_rlimit; extern int g_fallbackSec; extern int g_xcheckEvery;
// On sat, `m` (a model of `pc`) is updated to also satisfy `cond`.
SatRes solve(const std::vector<Expr*>& pc, Expr* cond, Model& m);
