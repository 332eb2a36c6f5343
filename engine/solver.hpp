#pragma once
#include "terms.hpp"
#include <z3.h>
enum SR { SR_UNSAT, SR_SAT, SR_UNKNOWN };
struct Model { // leaf (VAR / UFB) values
  std::unordered_map<const Term *, u64> leaf; std::unordered_map<const Term *, u64> memo;
  u64 eval(const Term *t);
};
struct Solver {
  Z3_context ctx = nullptr; Z3_solver inc = nullptr; Z3_sort usort = nullptr;
  std::vector<Term *> asserted; std::vector<Z3_ast> ast; std::vector<Z3_ast> appAst;
  std::unordered_map<u64, Z3_func_decl> fdecl; std::unordered_map<u64, Z3_func_decl> bdecl; std::unordered_map<unsigned, Z3_sort> bvs;
  u64 nQueries = 0, nSat = 0, nUnsat = 0, nUnknown = 0, nBranch = 0, nGoal = 0; double time = 0, maxTime = 0;
  unsigned goalTimeoutMs = 240000, branchTimeoutMs = 3000;
  bool abs = false, sawUF = false; // abs: bytes of uninterpreted functions are free variables (an over-approximation)
  void init();
  Z3_ast tr(Term *t); Z3_ast trWide(Term *const *chunks, u32 n, u32 blen);
  Z3_sort bv(unsigned w);
  // satisfiability of pc /\ extra
  SR check(const std::vector<Term *> &pc, const std::vector<Term *> &extra, Model *m, bool goal, unsigned timeoutMs = 0);
  void extractModel(Z3_model zm, const std::vector<Term *> &roots, Model *m);
  int proveStep(const RewriteStep &st); // 0 proved, 1 refuted, 2 no answer
};
extern Solver g_solver, g_abs;
double nowSec();
