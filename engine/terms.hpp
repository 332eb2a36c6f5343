// Hash-consed bit-vector terms (width <= 64) with strong local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

enum TOp : u8 { T_CONST, T_VAR, T_ADD, T_MUL, T_UDIV, T_UREM, T_SDIV, T_SREM, T_AND, T_OR, T_XOR,
  T_SHL, T_LSHR, T_ASHR, T_CONCAT, T_EXTRACT, T_SEXT, T_ITE, T_EQ, T_ULT, T_SLT, T_HAPP, T_UFB };
extern const char *TOpName[];

enum { TF_UF = 1, TF_UNINIT = 2, TF_SYM = 4 };

enum { NFP = 4 };
struct Term {
  u8 op, w, flags, pad; u32 id; u32 n; u32 ctl; // ctl: number of constant leaves if an ITE tree over constants, else 0
  u64 c;                                       // const value / extract low bit / var no / byte index / mul factor / n-ary const
  u64 lo, hi;                                  // unsigned range
  u64 kz, ko;                                  // known zero / known one bits
  u32 name; u32 blen;                          // HAPP: function name id and input byte length
  u64 h;
  u64 fp[4];
  Term *a[];
};

static inline u64 wmask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }

struct VarInfo { std::string name; u8 w; bool uninit; };

extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_names;
extern std::vector<Term *> g_terms; // by id
extern bool g_ufpush, g_wordops;

Term *mkConst(u64 v, unsigned w);
Term *mkVar(const std::string &name, unsigned w, bool uninit = false);
Term *mkAdd(Term *a, Term *b);
Term *mkNeg(Term *a);
Term *mkSub(Term *a, Term *b);
Term *mkMul(Term *a, Term *b);
Term *mkDivOp(TOp op, Term *a, Term *b);
Term *mkAnd(Term *a, Term *b);
Term *mkOr(Term *a, Term *b);
Term *mkXor(Term *a, Term *b);
Term *mkNot(Term *a);
Term *mkShift(TOp op, Term *a, Term *b);
Term *mkConcat(Term *hi, Term *lo);
Term *mkConcatV(const std::vector<Term *> &lsbFirst);
Term *mkExtract(Term *a, unsigned lo, unsigned w);
Term *mkZext(Term *a, unsigned w);
Term *mkSext(Term *a, unsigned w);
Term *mkIte(Term *c, Term *a, Term *b);
Term *mkEq(Term *a, Term *b);
Term *mkUlt(Term *a, Term *b);
Term *mkSlt(Term *a, Term *b);
static inline Term *mkUle(Term *a, Term *b) { return mkNot(mkUlt(b, a)); }
static inline Term *mkSle(Term *a, Term *b) { return mkNot(mkSlt(b, a)); }
u32 nameId(const std::string &s);
Term *mkHApp(u32 name, const std::vector<Term *> &chunks, u32 blen);
Term *mkUfb(Term *app, u64 idx);
static inline bool isC(const Term *t) { return t->op == T_CONST; }
static inline Term *tTrue() { static Term *t = mkConst(1, 1); return t; }
static inline Term *tFalse() { static Term *t = mkConst(0, 1); return t; }
u64 evalOp(const Term *t, const u64 *av);
Term *rebuild(const Term *t, Term **args); // same operator over new args, simplified
std::string show(const Term *t, int depth = 6);
bool isUninitFree(Term *t);
void support(Term *t, std::unordered_set<Term *> &seen, std::vector<Term *> &vars);

struct RewriteStep { u8 op, w; u64 k1, k2; Term *a, *b, *c, *r; };
extern std::vector<RewriteStep> g_audit; extern u64 g_auditEvery, g_fpChecks;
u64 happEval(const Term *t, const std::function<u64(Term *)> &val); u64 ufbEval(u64 app, u64 idx);
