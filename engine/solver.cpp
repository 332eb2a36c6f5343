#include "solver.hpp"
#include <chrono>
#include <unistd.h>
Solver g_solver, g_abs;
double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
u64 Model::eval(const Term *t0) {
  std::vector<const Term *> st{t0};
  while (!st.empty()) {
    const Term *t = st.back();
    if (memo.count(t)) { st.pop_back(); continue; }
    if (t->op == T_CONST) { memo[t] = t->c; st.pop_back(); continue; }
    if (t->op == T_VAR || t->op == T_UFB) { auto it = leaf.find(t); memo[t] = it == leaf.end() ? 0 : it->second; st.pop_back(); continue; }
    bool ready = true; for (u32 i = 0; i < t->n; i++) if (!memo.count(t->a[i])) { st.push_back(t->a[i]); ready = false; }
    if (!ready) continue;
    std::vector<u64> av(t->n); for (u32 i = 0; i < t->n; i++) av[i] = memo[t->a[i]];
    memo[t] = evalOp(t, av.data()); st.pop_back();
  }
  return memo[t0];
}
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "XSE-ERROR z3: %s\n", Z3_get_error_msg(c, e)); fflush(stderr); _exit(2); }
void Solver::init() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  inc = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, inc);
  usort = Z3_mk_uninterpreted_sort(ctx, Z3_mk_string_symbol(ctx, "H"));
}
Z3_sort Solver::bv(unsigned w) { auto it = bvs.find(w); if (it != bvs.end()) return it->second; return bvs[w] = Z3_mk_bv_sort(ctx, w); }
static Z3_ast num(Z3_context c, u64 v, unsigned w, Z3_sort s) { return Z3_mk_unsigned_int64(c, v, s); }
Z3_ast Solver::trWide(Term *const *ch, u32 n, u32 blen) { Z3_ast r = nullptr; for (u32 i = 0; i < n; i++) { Z3_ast x = tr(ch[i]); if (ch[i]->w == 1) x = Z3_mk_ite(ctx, x, num(ctx, 1, 1, bv(1)), num(ctx, 0, 1, bv(1))); r = r ? Z3_mk_concat(ctx, x, r) : x; } return r ? r : num(ctx, 0, 1, bv(1)); }
// width-1 terms are translated to Bool
Z3_ast Solver::tr(Term *t0) {
  std::vector<Term *> st{t0};
  auto have = [&](Term *t) { return t->id < ast.size() && ast[t->id]; };
  auto B2V = [&](Term *t) { Z3_ast x = ast[t->id]; return t->w == 1 ? Z3_mk_ite(ctx, x, num(ctx, 1, 1, bv(1)), num(ctx, 0, 1, bv(1))) : x; };
  auto V2B = [&](Z3_ast x) { return Z3_mk_eq(ctx, x, num(ctx, 1, 1, bv(1))); };
  while (!st.empty()) {
    Term *t = st.back(); if (have(t)) { st.pop_back(); continue; }
    bool ready = true; if (!(abs && t->op == T_UFB)) for (u32 i = 0; i < t->n; i++) if (!have(t->a[i])) { st.push_back(t->a[i]); ready = false; }
    if (!ready) continue; st.pop_back();
    Z3_ast r = nullptr; bool b = t->w == 1; auto A = [&](u32 i) { return ast[t->a[i]->id]; };
    switch (t->op) {
    case T_CONST: r = b ? (t->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(ctx, t->c, t->w, bv(t->w)); break;
    case T_VAR: { char nm[64]; snprintf(nm, 64, "v%lu", t->c); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), b ? Z3_mk_bool_sort(ctx) : bv(t->w)); break; }
    case T_ADD: { for (u32 i = 0; i < t->n; i++) r = r ? Z3_mk_bvadd(ctx, r, A(i)) : A(i); if (t->c) r = Z3_mk_bvadd(ctx, r, num(ctx, t->c, t->w, bv(t->w))); break; }
    case T_MUL: r = Z3_mk_bvmul(ctx, A(0), t->n == 1 ? num(ctx, t->c, t->w, bv(t->w)) : A(1)); break;
    case T_UDIV: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break; case T_UREM: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
    case T_SDIV: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break; case T_SREM: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
    case T_AND: case T_OR: case T_XOR:
      if (b) { std::vector<Z3_ast> v; for (u32 i = 0; i < t->n; i++) v.push_back(A(i));
        if (t->op == T_AND) r = v.size() == 1 ? v[0] : Z3_mk_and(ctx, v.size(), v.data()); else if (t->op == T_OR) r = v.size() == 1 ? v[0] : Z3_mk_or(ctx, v.size(), v.data());
        else { r = v[0]; for (size_t i = 1; i < v.size(); i++) r = Z3_mk_xor(ctx, r, v[i]); if (t->c) r = Z3_mk_not(ctx, r); } }
      else { for (u32 i = 0; i < t->n; i++) { Z3_ast x = A(i); r = !r ? x : t->op == T_AND ? Z3_mk_bvand(ctx, r, x) : t->op == T_OR ? Z3_mk_bvor(ctx, r, x) : Z3_mk_bvxor(ctx, r, x); }
        u64 M = wmask(t->w); if (t->op == T_AND ? t->c != M : t->c != 0) { if (t->op == T_XOR && t->c == M) r = Z3_mk_bvnot(ctx, r); else { Z3_ast k = num(ctx, t->c, t->w, bv(t->w)); r = t->op == T_AND ? Z3_mk_bvand(ctx, r, k) : t->op == T_OR ? Z3_mk_bvor(ctx, r, k) : Z3_mk_bvxor(ctx, r, k); } } }
      break;
    case T_SHL: r = Z3_mk_bvshl(ctx, A(0), A(1)); break; case T_LSHR: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break; case T_ASHR: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
    case T_CONCAT: { for (u32 i = 0; i < t->n; i++) { Z3_ast x = B2V(t->a[i]); r = r ? Z3_mk_concat(ctx, x, r) : x; } break; }
    case T_EXTRACT: { r = Z3_mk_extract(ctx, t->c + t->w - 1, t->c, A(0)); if (b) r = V2B(r); break; }
    case T_SEXT: { Z3_ast x = B2V(t->a[0]); r = Z3_mk_sign_ext(ctx, t->w - t->a[0]->w, x); break; }
    case T_ITE: r = Z3_mk_ite(ctx, A(0), A(1), A(2)); break;
    case T_EQ: r = Z3_mk_eq(ctx, A(0), A(1)); break;
    case T_ULT: r = Z3_mk_bvult(ctx, A(0), A(1)); break; case T_SLT: r = Z3_mk_bvslt(ctx, A(0), A(1)); break;
    case T_HAPP: { u64 key = ((u64)t->name << 32) | t->blen; Z3_func_decl &f = fdecl[key]; Z3_sort ds = bv(t->blen ? t->blen * 8 : 1);
      if (!f) { char nm[256]; snprintf(nm, 256, "f_%s_%u", g_names[t->name].c_str(), t->blen); f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm), 1, &ds, usort); }
      Z3_ast arg = trWide(t->a, t->n, t->blen); r = Z3_mk_app(ctx, f, 1, &arg); break; }
    case T_UFB: { if (abs) { sawUF = true; char nm[32]; snprintf(nm, 32, "u%u", t->id); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bv(8)); break; } Z3_func_decl &f = bdecl[t->c]; if (!f) { char nm[64]; snprintf(nm, 64, "byte%lu", t->c); f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm), 1, &usort, bv(8)); } Z3_ast arg = A(0); r = Z3_mk_app(ctx, f, 1, &arg); break; }
    default: fprintf(stderr, "XSE-ERROR tr\n"); _exit(2);
    }
    if (ast.size() <= t->id) ast.resize(std::max<size_t>(t->id + 1, ast.size() * 2), nullptr);
    ast[t->id] = r;
  }
  return ast[t0->id];
}
void Solver::extractModel(Z3_model zm, const std::vector<Term *> &roots, Model *m) {
  std::unordered_set<Term *> seen; std::vector<Term *> st(roots);
  while (!st.empty()) { Term *x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
    if (x->op == T_VAR || x->op == T_UFB) { Z3_ast v; if (Z3_model_eval(ctx, zm, tr(x), true, &v)) { u64 u = 0; if (x->w == 1) u = Z3_get_bool_value(ctx, v) == Z3_L_TRUE; else if (!Z3_get_numeral_uint64(ctx, v, &u)) { fprintf(stderr, "XSE-ERROR model value\n"); _exit(2); } m->leaf[x] = u; } }
    if (!(abs && x->op == T_UFB)) for (u32 i = 0; i < x->n; i++) st.push_back(x->a[i]); }
}
SR Solver::check(const std::vector<Term *> &pc, const std::vector<Term *> &extra, Model *m, bool goal, unsigned to) {
  for (Term *e : extra) if (e == tFalse()) return SR_UNSAT; for (Term *e : pc) if (e == tFalse()) return SR_UNSAT;
  double t0 = nowSec(); nQueries++; (goal ? nGoal : nBranch)++;
  // sync
  size_t k = 0; while (k < asserted.size() && k < pc.size() && asserted[k] == pc[k]) k++;
  if (k < asserted.size()) { Z3_solver_pop(ctx, inc, asserted.size() - k); asserted.resize(k); }
  for (; k < pc.size(); k++) { Z3_ast a = tr(pc[k]); Z3_solver_push(ctx, inc); Z3_solver_assert(ctx, inc, a); asserted.push_back(pc[k]); }
  unsigned budget = to ? to : goal ? goalTimeoutMs : branchTimeoutMs;
  auto run = [&](Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p); return Z3_solver_check(ctx, s); };
  Z3_solver_push(ctx, inc); for (Term *e : extra) Z3_solver_assert(ctx, inc, tr(e));
  Z3_lbool r = run(inc, goal ? std::min(budget, 20000u) : budget); SR res; std::vector<Term *> roots(pc); roots.insert(roots.end(), extra.begin(), extra.end());
  if (r == Z3_L_UNDEF && goal && budget > 20000) {
    Z3_solver fs = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, fs); for (Term *e : roots) Z3_solver_assert(ctx, fs, tr(e));
    r = run(fs, budget - 20000); if (r == Z3_L_TRUE && m) { Z3_model zm = Z3_solver_get_model(ctx, fs); Z3_model_inc_ref(ctx, zm); extractModel(zm, roots, m); Z3_model_dec_ref(ctx, zm); }
    Z3_solver_dec_ref(ctx, fs);
  } else if (r == Z3_L_TRUE && m) { Z3_model zm = Z3_solver_get_model(ctx, inc); Z3_model_inc_ref(ctx, zm); extractModel(zm, roots, m); Z3_model_dec_ref(ctx, zm); }
  Z3_solver_pop(ctx, inc, 1);
  res = r == Z3_L_TRUE ? SR_SAT : r == Z3_L_FALSE ? SR_UNSAT : SR_UNKNOWN;
  if (res == SR_SAT) nSat++; else if (res == SR_UNSAT) nUnsat++; else nUnknown++;
  double dt = nowSec() - t0; time += dt; if (dt > maxTime) maxTime = dt;
  return res;
}

// ---- audit: prove single rewriting steps. Nodes further than D operators away from the operands and the
// result become fresh variables constrained only by the node's derived range and known bits.
int Solver::proveStep(const RewriteStep &st) {
  for (int D : {2, 4, 7}) {
    std::unordered_map<Term *, int> depth; std::vector<Term *> q; for (Term *t : {st.a, st.b, st.c, st.r}) if (t && !depth.count(t)) { depth[t] = 0; q.push_back(t); }
    for (size_t i = 0; i < q.size(); i++) { Term *t = q[i]; if (depth[t] >= D) continue; for (u32 j = 0; j < t->n; j++) if (!depth.count(t->a[j])) { depth[t->a[j]] = depth[t] + 1; q.push_back(t->a[j]); } }
    Solver s2; s2.init(); std::vector<Z3_ast> side;
    std::vector<Term *> cuts; for (Term *t : q) if (depth[t] >= D && t->op != T_CONST && t->op != T_VAR && t->op != T_HAPP) cuts.push_back(t);
    for (Term *t : q) if (t->op == T_UFB && depth[t] < D && depth.count(t->a[0]) && depth[t->a[0]] >= D) cuts.push_back(t); // application hidden: keep the byte opaque
    auto C = [&](u64 v, unsigned w) { return num(s2.ctx, v, w, s2.bv(w)); };
    for (Term *t : cuts) { char nm[32]; snprintf(nm, 32, "cut%u", t->id); bool b = t->w == 1; Z3_ast v = Z3_mk_const(s2.ctx, Z3_mk_string_symbol(s2.ctx, nm), b ? Z3_mk_bool_sort(s2.ctx) : s2.bv(t->w)); if (s2.ast.size() <= t->id) s2.ast.resize(std::max<size_t>(t->id + 1, s2.ast.size() * 2), nullptr); s2.ast[t->id] = v;
      if (!b) { u64 M = wmask(t->w); side.push_back(Z3_mk_bvule(s2.ctx, C(t->lo, t->w), v)); side.push_back(Z3_mk_bvule(s2.ctx, v, C(t->hi, t->w))); side.push_back(Z3_mk_eq(s2.ctx, Z3_mk_bvand(s2.ctx, v, C((t->kz | t->ko) & M, t->w)), C(t->ko & M, t->w))); } }
    auto V = [&](Term *t) { Z3_ast x = s2.tr(t); return t->w == 1 ? Z3_mk_ite(s2.ctx, x, C(1, 1), C(0, 1)) : x; };
    Z3_ast l = nullptr, A = V(st.a), B = st.b ? V(st.b) : nullptr; auto b2v = [&](Z3_ast x) { return Z3_mk_ite(s2.ctx, x, C(1, 1), C(0, 1)); }; Z3_context c = s2.ctx;
    switch (st.op) {
    case T_ADD: l = st.k1 ? Z3_mk_bvsub(c, A, B) : Z3_mk_bvadd(c, A, B); break; case T_MUL: l = Z3_mk_bvmul(c, A, B); break;
    case T_UDIV: l = Z3_mk_bvudiv(c, A, B); break; case T_UREM: l = Z3_mk_bvurem(c, A, B); break; case T_SDIV: l = Z3_mk_bvsdiv(c, A, B); break; case T_SREM: l = Z3_mk_bvsrem(c, A, B); break;
    case T_AND: l = Z3_mk_bvand(c, A, B); break; case T_OR: l = Z3_mk_bvor(c, A, B); break; case T_XOR: l = Z3_mk_bvxor(c, A, B); break;
    case T_SHL: l = Z3_mk_bvshl(c, A, B); break; case T_LSHR: l = Z3_mk_bvlshr(c, A, B); break; case T_ASHR: l = Z3_mk_bvashr(c, A, B); break;
    case T_CONCAT: l = Z3_mk_concat(c, B, A); break; case T_EXTRACT: l = Z3_mk_extract(c, st.k1 + st.k2 - 1, st.k1, A); break; case T_SEXT: l = Z3_mk_sign_ext(c, st.k2 - st.a->w, A); break;
    case T_ITE: l = Z3_mk_ite(c, s2.tr(st.a), B, V(st.c)); break; case T_EQ: l = b2v(Z3_mk_eq(c, A, B)); break; case T_ULT: l = b2v(Z3_mk_bvult(c, A, B)); break; case T_SLT: l = b2v(Z3_mk_bvslt(c, A, B)); break; default: return 2; }
    Z3_ast ne = Z3_mk_not(c, Z3_mk_eq(c, l, V(st.r))); Z3_solver_push(c, s2.inc); for (Z3_ast x : side) Z3_solver_assert(c, s2.inc, x); Z3_solver_assert(c, s2.inc, ne);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), 5000); Z3_solver_set_params(c, s2.inc, p);
    Z3_lbool r = Z3_solver_check(c, s2.inc); bool exact = cuts.empty(); Z3_params_dec_ref(c, p); Z3_del_context(c);
    if (r == Z3_L_FALSE) return 0; if (r == Z3_L_TRUE && exact) return 1; }
  return 2; }
