#include <signal.h>
#include <unistd.h>
// xse: symbolic executor for LLVM IR (bounded, merging), deciding xse_check assertions with Z3.
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <algorithm>
#include <map>
#include <set>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>
#include <openssl/sha.h>
using namespace std;
namespace L = llvm;

struct V { Term *t; u64 c; };
static inline V CV(u64 c) { return V{nullptr, c}; }
static inline V TV(Term *t) { if (isC(t)) return V{nullptr, t->c}; return V{t, 0}; }
static inline Term *T(V v, unsigned w) { return v.t ? v.t : mkConst(v.c, w); }

struct Opd { int reg; V v; };
enum IOp : u8 { I_BIN, I_ICMP, I_LOAD, I_STORE, I_GEP, I_CAST, I_SELECT, I_CALL, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH, I_ALLOCA, I_FREEZE, I_NOP };
enum CastK : u8 { C_ZEXT, C_SEXT, C_TRUNC, C_NOP };
struct Func;
struct Inst {
  IOp k; u8 sub = 0, w = 0, w2 = 0; int dst = -1; Opd a{-1, {nullptr, 0}}, b{-1, {nullptr, 0}}, c{-1, {nullptr, 0}};
  vector<Opd> ops; vector<u64> scale; vector<u8> ws; u64 off = 0; int t = -1, f = -1; vector<pair<u64, int>> cases;
  Func *callee = nullptr; int intr = -1; bool exitBr = false; u32 site = 0; const L::Instruction *I = nullptr;
  u64 nFork = 0, nOne = 0; string uname;
};
struct Phi { int dst; u8 w; vector<pair<int, Opd>> in; };
struct Block { vector<Phi> phis; vector<Inst> ins; };
struct Func { string name, file; L::Function *F; bool decoded = false; int nregs = 0; vector<Block> blocks; vector<int> ipdom; vector<u8> regw; vector<int> argReg; u64 calls = 0, insns = 0; bool repo = false; Func *ovr = nullptr; };

typedef u64 Cell; // 0 = uninitialised, odd = concrete byte (b<<1|1), even = Term*
static inline Cell CC(u8 b) { return ((u64)b << 1) | 1; }
struct Obj { u32 id; u64 size; Term *symSize = nullptr; vector<Cell> d; string name; bool ro = false; u64 live = 1; Term *liveT = nullptr; u32 birth = 0; bool named = false; u8 kind = 0; /*0 global 1 stack 2 heap*/ };
static const u64 BIAS = 0x40000000ULL;
static inline u64 mkPtr(u32 id, u64 off = 0) { return ((u64)id << 32) + BIAS + off; }

struct Frame { Func *f; vector<V> regs; vector<u32> allocas; vector<u32> stamp; };
struct LogE { u32 obj; u32 off; Cell old; };
struct RegE { int reg; V old; };
struct Journal { Frame *fr; u32 id; vector<LogE> log; vector<RegE> rlog; vector<u32> born; unordered_map<string, u64> cnt; };

static L::Module *M; static const L::DataLayout *DL;
static unordered_map<const L::Function *, Func *> funcs; static vector<Func *> funcList;
static vector<Obj *> objs; static vector<Journal *> jstack; static u32 journalIds = 0;
static unordered_map<const L::GlobalVariable *, u32> gObj; static unordered_map<u64, Func *> fnPtr; static unordered_map<const L::Function *, u64> fnAddr;
static vector<Term *> pc; static unordered_multiset<Term *> pcSet;
static vector<Model *> models;
static map<string, long> params; static string outFile = "", propId; 
static unordered_map<string, u64> symCnt; static unordered_map<string, Term *> symVar;
struct Choice { string label; u64 n, k; vector<u64> vals; }; static vector<Choice> choices; static size_t choicePos;
static vector<Frame *> callStack; static vector<const L::Instruction *> callSites;
struct CheckStat { u64 n = 0, trivial = 0, solver = 0; u64 bytes = 0; }; static map<string, CheckStat> checks; static map<string, u64> reached;
static u64 totalInsns = 0, nForks = 0, nRuns = 0, nBranchSym = 0, nBranchDecidedSyn = 0, nMemChecks = 0, nSymPtr = 0, nRewriteDischarged = 0; static double tStart; 
static u64 memLimitMB = 6000; static double timeLimit = 800; static bool concreteHash = false; static bool verbose = false; static u64 ptrEnumMax = 300; 

static string where() { string s; int n = 0; for (int i = (int)callStack.size() - 1; i >= 0 && n < 8; i--, n++) { s += (n ? " < " : "") + callStack[i]->f->name; const L::Instruction *I = (size_t)i + 1 <= callSites.size() ? callSites[i] : nullptr; if (I) if (auto &dl = I->getDebugLoc()) { s += ":" + to_string(dl.getLine()); } } return s; }
static u64 auProved = 0, auUnknown = 0; static double auTime = 0; static u64 auditMax = 300;
static void writeResult(const string &status, const string &detail, const string &label);
[[noreturn]] static void die(const string &msg) { fprintf(stderr, "XSE-ERROR %s at %s\n", msg.c_str(), where().c_str()); writeResult("error", msg + " at " + where(), ""); fflush(nullptr); _exit(2); }
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string modelFile;
static void dumpModel(Model *m, const vector<Term *> &roots) {
  if (modelFile.empty()) return; FILE *f = fopen(modelFile.c_str(), "w"); if (!f) return;
  for (auto &p : params) fprintf(f, "param %s %ld\n", p.first.c_str(), p.second);
  for (size_t i = 0; i < choicePos && i < choices.size(); i++) fprintf(f, "choice %s %lu\n", choices[i].label.c_str(), choices[i].vals.empty() ? choices[i].k : choices[i].vals[choices[i].k]);
  for (auto &p : symVar) fprintf(f, "var %s %d %lu\n", p.first.c_str(), p.second->w, m->eval(p.second));
  unordered_set<Term *> seen; vector<Term *> st(roots); map<Term *, vector<pair<u64, u64>>> apps;
  while (!st.empty()) { Term *x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op == T_UFB) apps[x->a[0]].push_back({x->c, m->eval(x)}); for (u32 i = 0; i < x->n; i++) st.push_back(x->a[i]); }
  for (auto &a : apps) { fprintf(f, "uf %s %u ", g_names[a.first->name].c_str(), a.first->blen); u64 left = a.first->blen; if (!left) fprintf(f, "-");
    for (u32 i = 0; i < a.first->n; i++) { Term *c = a.first->a[i]; u64 v = m->eval(c); for (unsigned b = 0; b < c->w; b += 8) fprintf(f, "%02x", (u8)(v >> b)); }
    fprintf(f, " %zu", a.second.size()); for (auto &o : a.second) fprintf(f, " %lu:%02lx", o.first, o.second); fprintf(f, "\n"); }
  fclose(f);
}
static bool violated = false;
// report a violation: cond list must be satisfiable together with pc
[[noreturn]] static void violation(const string &label, const string &detail, Model &m, const vector<Term *> &roots) {
  violated = true; string vals; int n = 0; 
  for (auto &p : symVar) { if (m.leaf.count(p.second) && n++ < 60) { char b[32]; snprintf(b, 32, "=0x%lx ", m.eval(p.second)); vals += p.first + b; } }
  dumpModel(&m, roots); string d = detail + " at " + where() + " with " + vals;
  printf("XSE-VIOLATION label=%s %s\n", label.c_str(), d.c_str()); writeResult("violation", d, label); fflush(nullptr); _exit(1);
}
// Branch feasibility is decided with the bytes of uninterpreted functions as free variables: "unsatisfiable" is exact, "satisfiable" may
// explore an impossible side, which is sound. Goals go on to the full theory unless the abstraction already refutes them.
static SR solve(const vector<Term *> &extra, Model *m, bool goal, unsigned to = 0, bool absOnly = false) {
  SR r = g_abs.check(pc, extra, m, goal, goal ? (to ? to : 20000) : to); if (r == SR_UNSAT || !goal || absOnly || (r == SR_SAT && !g_abs.sawUF)) return r; return g_solver.check(pc, extra, m, goal, to); }
static u64 Q(u64 Solver::*f) { return g_solver.*f + g_abs.*f; }
// cheap search for a witness before asking the solver: evaluate under a few assignments, with every
// uninterpreted function read as one fixed pseudo-random function. Only ever finds models, never proves.
static double guessTime = 0;
static bool guess(Term *bad, Model &out, Model *from = nullptr) {
  double t0 = nowSec(); if (!from && guessTime > 5 + 0.2 * (t0 - tStart)) return false;
  vector<Term *> roots(pc); roots.push_back(bad); vector<Term *> order; { unordered_set<Term *> seen; vector<pair<Term *, u32>> st; for (Term *r : roots) { if (!seen.insert(r).second) continue; st.push_back({r, 0}); while (!st.empty()) { auto &p = st.back(); if (p.second < p.first->n) { Term *c = p.first->a[p.second++]; if (seen.insert(c).second) st.push_back({c, 0}); } else { order.push_back(p.first); st.pop_back(); } } } }
  static vector<u64> val; if (val.size() < g_terms.size()) val.resize(g_terms.size() + 1024); static u64 seed = 0x1234567; vector<u64> av; bool found = false;
  auto mixq = [](u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; };
  vector<Term *> conj; { vector<Term *> st(roots); while (!st.empty()) { Term *t = st.back(); st.pop_back(); if (t->op == T_AND && t->w == 1) st.insert(st.end(), t->a, t->a + t->n); else conj.push_back(t); } }
  // equations between a byte of an uninterpreted function and something else are met by choosing that function value
  for (int k = 0; k < (from ? 1 : 6) && !found; k++) { map<pair<u64, u64>, u64> forced; // from: complete a model of the abstraction, checking that it treats functions as functions
  u64 seed0 = seed;
   for (int pass = 0; pass < 4 && !found; pass++) { seed = seed0; bool more = false;
    for (Term *t : order) { u64 v; 
      if (t->op == T_VAR) { seed = mixq(seed, t->id); if (from) { auto it = from->leaf.find(t); v = it != from->leaf.end() ? it->second : seed; } else v = k == 1 ? 0 : k == 2 ? ~0ULL : k == 3 ? (seed & 1 ? seed >> 8 : (seed >> 9) & 3) : seed; v &= wmask(t->w); }
      else if (t->op == T_HAPP) v = happEval(t, [&](Term *x) { return val[x->id]; });
      else if (t->op == T_UFB) { v = ufbEval(val[t->a[0]->id], t->c); if (from) { auto it = from->leaf.find(t); if (it != from->leaf.end()) forced.insert({{val[t->a[0]->id], t->c}, it->second}); } if (!forced.empty()) { auto it = forced.find({val[t->a[0]->id], t->c}); if (it != forced.end()) v = it->second; } }
      else { av.resize(t->n); for (u32 i = 0; i < t->n; i++) av[i] = val[t->a[i]->id]; v = evalOp(t, av.data()); }
      val[t->id] = v; }
    found = true; for (Term *r : roots) if (!val[r->id]) { found = false; break; }
    if (!found) for (Term *t : conj) if (!val[t->id] && t->op == T_EQ) for (int q = 0; q < 2; q++) if (t->a[q]->op == T_UFB) { forced[{val[t->a[q]->a[0]->id], t->a[q]->c}] = val[t->a[1 - q]->id]; more = true; break; }
    if (!more || nowSec() - t0 > 20) break; }
    if (nowSec() - t0 > 20) break; }
  if (found) for (Term *t : order) if (t->op == T_VAR || t->op == T_UFB) out.leaf[t] = val[t->id];
  guessTime += nowSec() - t0; return found;
}
// is pc /\ bad satisfiable? -> violation ; unknown -> error
static void mustNot(Term *bad, const string &label, const string &detail) {
  if (bad == tFalse()) return;
  Model m; if (guess(bad, m)) { vector<Term *> roots(pc); roots.push_back(bad); violation(label, detail, m, roots); }
  SR r = g_abs.check(pc, {bad}, &m, true, 20000); if (r == SR_UNSAT) return;
  if (r == SR_SAT) { Model m2; if (guess(bad, m2, &m)) { vector<Term *> roots(pc); roots.push_back(bad); violation(label, detail, m2, roots); } }
  r = g_solver.check(pc, {bad}, &m, true); if (r == SR_UNSAT) return; if (r == SR_UNKNOWN) die("solver gave no answer for " + label + " (" + detail + ")");
  vector<Term *> roots(pc); roots.push_back(bad); violation(label, detail, m, roots);
}
struct Dead {};  // the current path is infeasible / killed
static bool pathFeasible(Term *extra) { vector<Term *> e; if (extra) e.push_back(extra); return solve(e, nullptr, true) != SR_UNSAT; }

// ---------------------------------------------------------------- memory
static Obj *newObj(u64 size, u8 kind, const string &name) { Obj *o = new Obj; o->id = objs.size(); o->size = size; o->d.assign(size, 0); o->name = name; o->kind = kind; o->birth = jstack.size(); objs.push_back(o); if (!jstack.empty()) jstack.back()->born.push_back(o->id); return o; }
static void checkResources() { static u64 cnt = 0; if ((++cnt & 0xfff) == 0) { FILE *f = fopen("/proc/self/statm", "r"); if (f) { unsigned long a = 0, b = 0; if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); if (b * 4096 / 1048576 > memLimitMB) die("memory limit"); } if (nowSec() - tStart > timeLimit) die("time limit"); } }
static void killObj(u32 id) { Obj *o = objs[id]; if (!o) return; if (o->birth < jstack.size()) { /* predates the current fork: keep storage for rollback */ jstack.back()->log.push_back({id, 0xffffffffu, o->live}); o->live = 0; return; } delete o; objs[id] = nullptr; }
static inline void logMem(Obj *o, u32 off) { if (!jstack.empty() && o->birth < jstack.size()) jstack.back()->log.push_back({o->id, off, o->d[off]}); }
static inline void setCell(Obj *o, u64 off, Cell c) { logMem(o, off); o->d[off] = c; }
static Term *symVarGet(const string &nm, unsigned w);
static Term *uninitVar(Obj *o, u64 off) { if (o->named) return symVarGet(o->name + "[" + to_string(off) + "]", 8); string nm = "uninit:" + o->name + "+" + to_string(off) + "#" + to_string(o->id); return mkVar(nm, 8, true); }
static inline Cell getCell(Obj *o, u64 off) { Cell c = o->d[off]; if (c == 0) { Term *t = uninitVar(o, off); c = (Cell)t; o->d[off] = c; } return c; }
static inline Term *cellT(Cell c) { return (c & 1) ? mkConst(c >> 1, 8) : (Term *)c; }
static inline Cell tCell(Term *t) { return isC(t) ? CC(t->c) : (Cell)t; }

static string objDesc(u32 id, i64 off, u64 len) { string s; if (id < objs.size() && objs[id]) { s = "object " + objs[id]->name + " size " + to_string(objs[id]->size); } else s = "dead or unknown object #" + to_string(id); return s + " offset " + to_string(off) + " length " + to_string(len); }
// check an access; returns object or throws Dead if the access is impossible under pc; cond: extra condition under which this access happens
static Obj *access(u64 addr, u64 len, bool write, Term *cond, u64 &off) {
  u32 id = addr >> 32; i64 o = (i64)(addr & 0xffffffffu) - (i64)BIAS; nMemChecks++;
  Obj *ob = id < objs.size() ? objs[id] : nullptr;
  const char *what = nullptr;
  if (!ob || id == 0) what = id == 0 ? "null or invalid pointer" : "use of dead object";
  else if (o < 0 || (u64)o + len > ob->size) what = "out of bounds";
  else if (write && ob->ro) what = "write to read-only object";
  if (what && ob && id && ob->symSize && o >= 0 && !(write && ob->ro)) { Term *bad = mkUlt(ob->symSize, mkConst(o + len, 64)); if (cond) bad = mkAnd(cond, bad); mustNot(bad, string("memory:") + (write ? "write" : "read"), "out of bounds (symbolic size) " + objDesc(id, o, len)); if (cond && !pathFeasible(cond)) return nullptr; die("access within the symbolic size but beyond the bytes that are stored: " + objDesc(id, o, len)); }
  if (what) { Term *bad = cond ? cond : tTrue(); mustNot(bad, string("memory:") + (write ? "write" : "read"), string(what) + " " + objDesc(id, o, len)); return nullptr; }
  if (ob->live != 1) { Term *dead = ob->live == 0 ? tTrue() : mkNot((Term *)ob->live); mustNot(cond ? mkAnd(cond, dead) : dead, "memory:use-after-free", objDesc(id, o, len)); if (ob->live == 0) return nullptr; }
  if (ob->symSize && (u64)o + len > ob->symSize->lo) { Term *bad = mkUlt(ob->symSize, mkConst(o + len, 64)); if (cond) bad = mkAnd(cond, bad); mustNot(bad, string("memory:") + (write ? "write" : "read"), "out of bounds (symbolic size) " + objDesc(id, o, len)); }
  off = o; return ob;
}
// enumerate values of a symbolic 64-bit term under pc
static vector<u64> enumValues(Term *t, u64 maxn, const char *why) {
  vector<u64> r; static map<pair<Term *, u64>, vector<u64>> cache; u64 ph = 1469598103934665603ULL; for (Term *p : pc) ph = (ph ^ p->id) * 1099511628211ULL;
  auto it = cache.find({t, ph}); if (it != cache.end()) return it->second;
  vector<Term *> ex; 
  for (;;) { Model m; SR s = solve(ex, &m, false, 20000); if (s == SR_UNSAT) break; if (s == SR_UNKNOWN) die(string("solver gave no answer while enumerating ") + why); u64 v = m.eval(t); r.push_back(v); ex.push_back(mkNot(mkEq(t, mkConst(v, t->w)))); if (r.size() > maxn) die(string("too many values for ") + why + ": " + show(t, 4)); }
  sort(r.begin(), r.end()); cache[{t, ph}] = r; return r;
}
static void leaves(Term *t, set<u64> &s) { if (isC(t)) { s.insert(t->c); return; } leaves(t->a[1], s); leaves(t->a[2], s); }
// candidate concrete addresses for a symbolic pointer: (condition, address)
static vector<pair<Term *, u64>> candidates(Term *p) {
  nSymPtr++; Term *base = p; u64 k = 0; if (p->op == T_ADD && p->n >= 1 && p->c) { k = p->c; base = mkSub(p, mkConst(k, 64)); }
  vector<pair<Term *, u64>> r; set<u64> vs;
  if (base->ctl && base->ctl <= 64) leaves(base, vs);
  else { u64 span = base->hi - base->lo; u64 nz = ~base->kz; int z = nz ? __builtin_ctzll(nz) : 63; if ((span >> z) <= 32) { for (u64 v = base->lo;; v += 1ULL << z) { if (((base->kz & v) == 0) && ((base->ko & ~v) == 0)) vs.insert(v); if (base->hi - v < (1ULL << z)) break; } }
    else { auto e = enumValues(base, ptrEnumMax, "pointer"); vs.insert(e.begin(), e.end()); } }
  for (u64 v : vs) { Term *c = mkEq(base, mkConst(v, 64)); if (c != tFalse()) r.push_back({c, v + k}); }
  return r;
}
static V loadCells(Obj *o, u64 off, unsigned n, unsigned w) {
  u64 c = 0; bool conc = true; for (unsigned i = 0; i < n; i++) { Cell x = o->d[off + i]; if (x & 1) c |= (x >> 1) << (8 * i); else { conc = false; break; } }
  if (conc) return CV(c & wmask(w));
  vector<Term *> v(n); for (unsigned i = 0; i < n; i++) v[i] = cellT(getCell(o, off + i));
  Term *t = n == 1 ? v[0] : mkConcatV(v); if (t->w > w) t = mkExtract(t, 0, w); return TV(t);
}
static V memLoad(V addr, unsigned w) {
  unsigned n = (w + 7) / 8; u64 off;
  if (!addr.t) { Obj *o = access(addr.c, n, false, nullptr, off); if (!o) throw Dead(); return loadCells(o, off, n, w); }
  auto cs = candidates(addr.t); Term *r = nullptr; 
  for (auto &c : cs) { Obj *o = access(c.second, n, false, c.first, off); if (!o) continue; Term *v = T(loadCells(o, off, n, w), w); r = r ? mkIte(c.first, v, r) : v; }
  if (!r) throw Dead(); return TV(r);
}
static void storeCells(Obj *o, u64 off, V v, unsigned n, unsigned w, Term *cond) {
  if (!v.t && !cond) { for (unsigned i = 0; i < n; i++) setCell(o, off + i, CC(v.c >> (8 * i))); return; }
  Term *t = T(v, w); if (w < 8 * n) t = mkZext(t, 8 * n);
  for (unsigned i = 0; i < n; i++) { Term *b = n == 1 ? t : mkExtract(t, 8 * i, 8); if (cond) b = mkIte(cond, b, cellT(getCell(o, off + i))); setCell(o, off + i, tCell(b)); }
}
static void memStore(V addr, V v, unsigned w) {
  unsigned n = (w + 7) / 8; u64 off;
  if (!addr.t) { Obj *o = access(addr.c, n, true, nullptr, off); if (!o) throw Dead(); storeCells(o, off, v, n, w, nullptr); return; }
  auto cs = candidates(addr.t); bool any = false;
  for (auto &c : cs) { Obj *o = access(c.second, n, true, c.first, off); if (!o) continue; any = true; storeCells(o, off, v, n, w, cs.size() == 1 ? nullptr : c.first); }
  if (!any) throw Dead();
}
static void readBytes(V p, u64 n, vector<Term *> &out, Term *cond = nullptr) { // generic byte read
  out.resize(n); if (!n) return; u64 off;
  if (!p.t) { Obj *o = access(p.c, n, false, cond, off); if (!o) throw Dead(); for (u64 i = 0; i < n; i++) out[i] = cellT(getCell(o, off + i)); return; }
  auto cs = candidates(p.t); bool any = false; 
  for (auto &c : cs) { Obj *o = access(c.second, n, false, cond ? mkAnd(cond, c.first) : c.first, off); if (!o) continue; for (u64 i = 0; i < n; i++) { Term *b = cellT(getCell(o, off + i)); out[i] = any ? mkIte(c.first, b, out[i]) : b; } any = true; }
  if (!any) throw Dead();
}
static void writeBytes(V p, const vector<Term *> &in, Term *cond = nullptr) {
  u64 n = in.size(), off; if (!n) return;
  if (!p.t) { Obj *o = access(p.c, n, true, cond, off); if (!o) throw Dead(); for (u64 i = 0; i < n; i++) { Term *b = in[i]; if (cond) b = mkIte(cond, b, cellT(getCell(o, off + i))); setCell(o, off + i, tCell(b)); } return; }
  auto cs = candidates(p.t); bool any = false;
  for (auto &c : cs) { Term *g = cond ? mkAnd(cond, c.first) : c.first; Obj *o = access(c.second, n, true, g, off); if (!o) continue; any = true; for (u64 i = 0; i < n; i++) setCell(o, off + i, tCell(mkIte(g, in[i], cellT(getCell(o, off + i))))); }
  if (!any) throw Dead();
}
// concrete fast copy; uninitialised bytes are copied as uninitialised symbols
static void memCopy(V d, V s, V len) {
  u64 off1, off2;
  if (!len.t) { u64 n = len.c; if (!n) return; if (n > (1ULL << 31)) { mustNot(tTrue(), "memory:write", "copy length " + to_string(n)); throw Dead(); }
    if (!d.t && !s.t) { Obj *so = access(s.c, n, false, nullptr, off2); Obj *dd = access(d.c, n, true, nullptr, off1); if (!so || !dd) throw Dead();
      if (so == dd && off1 > off2) { for (u64 i = n; i-- > 0;) { Cell c = getCell(so, off2 + i); setCell(dd, off1 + i, c); } }
      else for (u64 i = 0; i < n; i++) { Cell c = getCell(so, off2 + i); setCell(dd, off1 + i, c); } return; }
    vector<Term *> b; readBytes(s, n, b); writeBytes(d, b); return; }
  // symbolic length: guarded bytes up to the maximum
  Term *l = len.t; u64 mx = l->hi; if (mx > 262144) { Model m; if (solve({mkUlt(mkConst(262144, l->w), l)}, &m, true) != SR_UNSAT) { vector<u64> e; Term *bad = mkUlt(mkConst(1ULL << 24, l->w), l); mustNot(bad, "memory:write", "copy with huge length"); die("copy with unbounded symbolic length"); } mx = 262144; while (mx && solve({mkUlt(mkConst(mx / 2, l->w), l)}, nullptr, false) == SR_UNSAT) mx /= 2; }
  vector<Term *> b(1), w(1); vector<Term *> all; // read everything first (memmove semantics)
  vector<Term *> g; for (u64 i = 0; i < mx; i++) { Term *c = mkUlt(mkConst(i, l->w), l); if (c == tFalse()) break; g.push_back(c); }
  for (u64 i = 0; i < g.size(); i++) { V sp = s.t ? TV(mkAdd(s.t, mkConst(i, 64))) : CV(s.c + i); if (!sp.t) { u64 o; Obj *ob = access(sp.c, 1, false, g[i], o); if (!ob) { g.resize(i); break; } all.push_back(cellT(getCell(ob, o))); } else { readBytes(sp, 1, b, g[i]); all.push_back(b[0]); } }
  for (u64 i = 0; i < g.size(); i++) { V dp = d.t ? TV(mkAdd(d.t, mkConst(i, 64))) : CV(d.c + i); if (!dp.t) { u64 o; Obj *ob = access(dp.c, 1, true, g[i], o); if (!ob) break; Term *x = mkIte(g[i], all[i], cellT(getCell(ob, o))); setCell(ob, o, tCell(x)); } else { w[0] = all[i]; writeBytes(dp, w, g[i]); } }
}
static void memSet(V d, V val, V len) {
  Term *b = mkExtract(T(val, 8), 0, 8);
  if (!len.t) { u64 n = len.c; if (!n) return; if (n > (1ULL << 31)) { mustNot(tTrue(), "memory:write", "set length " + to_string(n)); throw Dead(); } vector<Term *> v(n, b); writeBytes(d, v); return; }
  Term *l = len.t; u64 mx = l->hi; if (mx > 262144) { mustNot(mkUlt(mkConst(262144, l->w), l), "memory:write", "set with huge length"); mx = 262144; }
  vector<Term *> w(1, b); for (u64 i = 0; i < mx; i++) { Term *g = mkUlt(mkConst(i, l->w), l); if (g == tFalse()) break; V dp = d.t ? TV(mkAdd(d.t, mkConst(i, 64))) : CV(d.c + i); if (!dp.t) { u64 o; Obj *ob = access(dp.c, 1, true, g, o); if (!ob) break; setCell(ob, o, tCell(mkIte(g, b, cellT(getCell(ob, o))))); } else writeBytes(dp, w, g); }
}
static string readStr(V p) { if (p.t) die("symbolic string pointer"); string s; for (u64 i = 0;; i++) { u64 off; Obj *o = access(p.c + i, 1, false, nullptr, off); if (!o) throw Dead(); Cell c = getCell(o, off); if (!(c & 1)) die("symbolic string"); if ((c >> 1) == 0) return s; s += (char)(c >> 1); } }

// ---------------------------------------------------------------- decode
static int regOf(Func *f, unordered_map<const L::Value *, int> &rm, const L::Value *v) { return rm.at(v); }
static u64 constVal(const L::Constant *c);
static unsigned tyW(L::Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); return w; } return 0; }
static Func *getFunc(const L::Function *F) { auto it = funcs.find(F); return it == funcs.end() ? nullptr : it->second; }
static u64 constVal(const L::Constant *c) {
  if (auto *ci = L::dyn_cast<L::ConstantInt>(c)) { if (ci->getBitWidth() > 64) die("wide constant"); return ci->getZExtValue(); }
  if (L::isa<L::ConstantPointerNull>(c)) return 0;
  if (auto *g = L::dyn_cast<L::GlobalVariable>(c)) { auto it = gObj.find(g); if (it == gObj.end()) die("unknown global " + g->getName().str()); return mkPtr(it->second); }
  if (auto *fn = L::dyn_cast<L::Function>(c)) { u64 &a = fnAddr[fn]; if (!a) { a = 0xF000000000000000ULL + fnAddr.size() * 16; fnPtr[a] = getFunc(fn); } return a; }
  if (auto *ce = L::dyn_cast<L::ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case L::Instruction::GetElementPtr: { u64 base = constVal(ce->getOperand(0)); L::APInt off(64, 0); if (!L::cast<L::GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("const gep"); return base + off.getZExtValue(); }
    case L::Instruction::BitCast: case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: return constVal(ce->getOperand(0));
    case L::Instruction::Add: return constVal(ce->getOperand(0)) + constVal(ce->getOperand(1));
    case L::Instruction::Sub: return constVal(ce->getOperand(0)) - constVal(ce->getOperand(1));
    default: die("constant expression"); } }
  string s; L::raw_string_ostream os(s); c->print(os); die("constant " + s);
}
static u32 gUndef = 0;
enum Intr { N_MEMCPY, N_MEMSET, N_IGN, N_IGN0, N_MALLOC, N_CALLOC, N_FREE, N_MEMCMP, N_SYM, N_SYMU, N_ASSUME, N_CHECK, N_CHECKEQ, N_CHECKINIT, N_UF, N_PARAM, N_CHOICE, N_SPLIT, N_REACH, N_FAIL, N_KILL, N_SHA256, N_SHA512, N_DUMP, N_MALLOCSYM, N_EXIT, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_ABS, N_BSWAP, N_FSHL, N_FSHR, N_EXPECT, N_SYMW, N_ISSYM, N_STRLEN, N_OBJSIZE, N_TAINT, N_CTPOP, N_CTLZ, N_CTTZ, N_HAVOC, N_CURFN, N_RECALLOC, N_PTROBJ, N_WRITABLE, N_SETRO, N_RANGE, N_BSWAPX, N_ABORT };
static const map<string, int> intrNames = {
  {"memcpy", N_MEMCPY}, {"memmove", N_MEMCPY}, {"__memcpy_chk", N_MEMCPY}, {"memset", N_MEMSET}, {"malloc", N_MALLOC}, {"calloc", N_CALLOC}, {"free", N_FREE}, {"memcmp", N_MEMCMP}, {"bcmp", N_MEMCMP},
  {"explicit_bzero", N_BSWAPX},
  {"xse_sym_bytes", N_SYM}, {"xse_range", N_RANGE}, {"xse_sym_words", N_SYMW}, {"xse_sym", N_SYMU}, {"xse_assume", N_ASSUME}, {"xse_check", N_CHECK}, {"xse_check_eq", N_CHECKEQ}, {"xse_check_init", N_CHECKINIT}, {"xse_uf", N_UF}, {"xse_param", N_PARAM}, {"xse_choice", N_CHOICE}, {"xse_split", N_SPLIT}, {"xse_reach", N_REACH}, {"xse_fail", N_FAIL}, {"xse_kill", N_KILL}, {"SHA256", N_SHA256}, {"SHA512", N_SHA512}, {"xse_dump", N_DUMP}, {"xse_malloc_sym", N_MALLOCSYM}, {"xse_is_symbolic", N_ISSYM}, {"strlen", N_STRLEN}, {"xse_havoc", N_HAVOC}, {"xse_set_ro", N_SETRO},
  {"abort", N_ABORT}, {"__assert_fail", N_ABORT}, {"bzero", N_BSWAPX}};
static const set<string> ignored = {"printf", "fprintf", "puts", "putchar", "perror", "fflush_", "xse_note"};
static int intrinsicOf(const L::Function *F) {
  string n = F->getName().str();
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) { case L::Intrinsic::memcpy: case L::Intrinsic::memmove: return N_MEMCPY; case L::Intrinsic::memset: return N_MEMSET;
    case L::Intrinsic::umax: return N_UMAX; case L::Intrinsic::umin: return N_UMIN; case L::Intrinsic::smax: return N_SMAX; case L::Intrinsic::smin: return N_SMIN; case L::Intrinsic::abs: return N_ABS; case L::Intrinsic::bswap: return N_BSWAP; case L::Intrinsic::fshl: return N_FSHL; case L::Intrinsic::fshr: return N_FSHR; case L::Intrinsic::expect: return N_EXPECT; case L::Intrinsic::ctpop: return N_CTPOP; case L::Intrinsic::trap: return N_ABORT; case L::Intrinsic::ctlz: return N_CTLZ; case L::Intrinsic::cttz: return N_CTTZ;
    case L::Intrinsic::stacksave: return N_IGN0;
    default: if (n.find("llvm.dbg") == 0 || n.find("llvm.lifetime") == 0 || n.find("llvm.stackrestore") == 0 || n.find("llvm.assume") == 0 || n.find("llvm.experimental.noalias") == 0) return N_IGN; return -2; } }
  auto it = intrNames.find(n); if (it != intrNames.end()) return it->second; if (ignored.count(n)) return N_IGN0; return -2;
}
static u32 siteCnt = 0;
static void decode(Func *f) {
  f->decoded = true; L::Function &F = *f->F; unordered_map<const L::Value *, int> rm; int n = 0; 
  for (auto &a : F.args()) { f->argReg.push_back(n); rm[&a] = n++; f->regw.push_back(tyW(a.getType())); }
  unordered_map<const L::BasicBlock *, int> bm; int bi = 0; for (auto &bb : F) { bm[&bb] = bi++; for (auto &I : bb) if (!I.getType()->isVoidTy()) { rm[&I] = n++; f->regw.push_back(tyW(I.getType())); } }
  f->nregs = n; f->blocks.resize(bi);
  L::DominatorTree DT(F); L::LoopInfo LI(DT);
  auto opd = [&](const L::Value *v) -> Opd { if (L::isa<L::UndefValue>(v)) { unsigned w = tyW(v->getType()); if (!w) die("undef aggregate"); if (L::isa<L::PoisonValue>(v)) return Opd{-1, CV(0)}; return Opd{-1, TV(mkVar("undef:" + f->name + ":" + to_string(gUndef++), w, true))}; }
    if (auto *c = L::dyn_cast<L::Constant>(v)) return Opd{-1, CV(constVal(c))}; auto it = rm.find(v); if (it == rm.end()) die("operand"); return Opd{it->second, CV(0)}; };
  for (auto &bb : F) { Block &B = f->blocks[bm[&bb]];
    for (auto &I : bb) {
      if (auto *p = L::dyn_cast<L::PHINode>(&I)) { Phi ph; ph.dst = rm[&I]; ph.w = tyW(I.getType()); for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ph.in.push_back({bm[p->getIncomingBlock(i)], opd(p->getIncomingValue(i))}); B.phis.push_back(ph); continue; }
      Inst x; x.I = &I; x.site = siteCnt++; if (!I.getType()->isVoidTy()) { x.dst = rm[&I]; x.w = tyW(I.getType()); }
      switch (I.getOpcode()) {
      case L::Instruction::Add: case L::Instruction::Sub: case L::Instruction::Mul: case L::Instruction::UDiv: case L::Instruction::SDiv: case L::Instruction::URem: case L::Instruction::SRem: case L::Instruction::And: case L::Instruction::Or: case L::Instruction::Xor: case L::Instruction::Shl: case L::Instruction::LShr: case L::Instruction::AShr:
        x.k = I_BIN; x.sub = 0; switch (I.getOpcode()) { case L::Instruction::Add: x.sub = T_ADD; break; case L::Instruction::Sub: x.sub = T_UFB; break; case L::Instruction::Mul: x.sub = T_MUL; break; case L::Instruction::UDiv: x.sub = T_UDIV; break; case L::Instruction::SDiv: x.sub = T_SDIV; break; case L::Instruction::URem: x.sub = T_UREM; break; case L::Instruction::SRem: x.sub = T_SREM; break; case L::Instruction::And: x.sub = T_AND; break; case L::Instruction::Or: x.sub = T_OR; break; case L::Instruction::Xor: x.sub = T_XOR; break; case L::Instruction::Shl: x.sub = T_SHL; break; case L::Instruction::LShr: x.sub = T_LSHR; break; default: x.sub = T_ASHR; }
        if (!x.w || x.w > 64) die("bad width in " + f->name); x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); break;
      case L::Instruction::ICmp: x.k = I_ICMP; x.sub = L::cast<L::ICmpInst>(I).getPredicate(); x.w2 = tyW(I.getOperand(0)->getType()); x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); break;
      case L::Instruction::Load: x.k = I_LOAD; if (!x.w || x.w > 64) die("load width in " + f->name); x.a = opd(I.getOperand(0)); break;
      case L::Instruction::Store: x.k = I_STORE; x.w = tyW(I.getOperand(0)->getType()); if (!x.w || x.w > 64) die("store width in " + f->name); x.a = opd(I.getOperand(1)); x.b = opd(I.getOperand(0)); break;
      case L::Instruction::GetElementPtr: { x.k = I_GEP; x.a = opd(I.getOperand(0)); auto &G = L::cast<L::GetElementPtrInst>(I);
        for (auto it = L::gep_type_begin(G), e = L::gep_type_end(G); it != e; ++it) { L::Value *ix = it.getOperand(); if (auto *st = it.getStructTypeOrNull()) { x.off += DL->getStructLayout(st)->getElementOffset(L::cast<L::ConstantInt>(ix)->getZExtValue()); continue; }
          u64 sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto *c = L::dyn_cast<L::ConstantInt>(ix)) { x.off += (u64)c->getSExtValue() * sz; continue; } x.ops.push_back(opd(ix)); x.scale.push_back(sz); x.ws.push_back(tyW(ix->getType())); } break; }
      case L::Instruction::ZExt: x.k = I_CAST; x.sub = C_ZEXT; goto cast; case L::Instruction::SExt: x.k = I_CAST; x.sub = C_SEXT; goto cast; case L::Instruction::Trunc: x.k = I_CAST; x.sub = C_TRUNC; goto cast;
      case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::BitCast: x.k = I_CAST; x.sub = C_ZEXT; { unsigned a = tyW(I.getOperand(0)->getType()); if (a > x.w) x.sub = C_TRUNC; }
      cast: x.w2 = tyW(I.getOperand(0)->getType()); if (!x.w || !x.w2 || x.w > 64 || x.w2 > 64) die("cast width"); x.a = opd(I.getOperand(0)); break;
      case L::Instruction::Select: x.k = I_SELECT; x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); x.c = opd(I.getOperand(2)); if (!x.w) die("select type"); break;
      case L::Instruction::Freeze: x.k = I_FREEZE; x.a = opd(I.getOperand(0)); break;
      case L::Instruction::Alloca: { x.k = I_ALLOCA; auto &A = L::cast<L::AllocaInst>(I); x.off = DL->getTypeAllocSize(A.getAllocatedType()); x.a = opd(A.getArraySize()); x.w2 = tyW(A.getArraySize()->getType()); x.uname = f->name + ":" + (I.hasName() ? I.getName().str() : "tmp"); break; }
      case L::Instruction::Br: { auto &b = L::cast<L::BranchInst>(I); if (b.isConditional()) { x.k = I_CBR; x.a = opd(b.getCondition()); x.t = bm[b.getSuccessor(0)]; x.f = bm[b.getSuccessor(1)]; if (auto *lp = LI.getLoopFor(&bb)) { x.exitBr = !lp->contains(b.getSuccessor(0)) || !lp->contains(b.getSuccessor(1)); } } else { x.k = I_BR; x.t = bm[b.getSuccessor(0)]; } break; }
      case L::Instruction::Switch: { auto &s = L::cast<L::SwitchInst>(I); x.k = I_SWITCH; x.a = opd(s.getCondition()); x.w2 = tyW(s.getCondition()->getType()); x.t = bm[s.getDefaultDest()]; for (auto &c : s.cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bm[c.getCaseSuccessor()]}); break; }
      case L::Instruction::Ret: x.k = I_RET; if (I.getNumOperands()) { x.a = opd(I.getOperand(0)); x.w = tyW(I.getOperand(0)->getType()); } else x.w = 0; break;
      case L::Instruction::Unreachable: x.k = I_UNREACH; break;
      case L::Instruction::Call: { auto &c = L::cast<L::CallInst>(I); x.k = I_CALL; const L::Function *cf = c.getCalledFunction(); 
        if (!cf) { if (auto *al = L::dyn_cast<L::Function>(c.getCalledOperand()->stripPointerCasts())) cf = al; }
        if (cf) { Func *fn = getFunc(cf); if (fn) { x.callee = fn; if (fn->ovr && fn->ovr != f && f->name != "__override_" + fn->name) x.callee = fn->ovr; }
          x.intr = (cf->isDeclaration() && !(fn && fn->ovr && x.callee == fn->ovr)) ? intrinsicOf(cf) : -1; if (cf->isDeclaration() && x.intr == -2) x.uname = cf->getName().str(); 
          if (x.intr == N_IGN) { x.k = I_NOP; break; } }
        else { x.b = opd(c.getCalledOperand()); x.intr = -3; }
        for (auto &a : c.args()) { if (a->getType()->isMetadataTy()) { continue; } unsigned w = tyW(a->getType()); if (!w || w > 64) { if (x.intr == N_IGN0 || x.intr == -2) { continue; } die("argument type in call to " + (cf ? cf->getName().str() : string("?"))); } x.ops.push_back(opd(a)); x.ws.push_back(w); }
        break; }
      default: die("unsupported instruction " + string(I.getOpcodeName()) + " in " + f->name);
      }
      B.ins.push_back(move(x));
    } }
  // immediate post-dominators, ignoring blocks that cannot reach a return
  int N = bi; vector<vector<int>> succ(N), pred(N); vector<char> canRet(N, 0); vector<int> wl;
  for (auto &bb : F) for (auto *s : L::successors(&bb)) { succ[bm[&bb]].push_back(bm[s]); pred[bm[s]].push_back(bm[&bb]); }
  for (auto &bb : F) if (L::isa<L::ReturnInst>(bb.getTerminator())) { canRet[bm[&bb]] = 1; wl.push_back(bm[&bb]); }
  while (!wl.empty()) { int b = wl.back(); wl.pop_back(); for (int p : pred[b]) if (!canRet[p]) { canRet[p] = 1; wl.push_back(p); } }
  vector<vector<char>> pd(N + 1, vector<char>(N + 1, 1)); int X = N; fill(pd[X].begin(), pd[X].end(), 0); pd[X][X] = 1; bool ch = true;
  while (ch) { ch = false; for (int b = N - 1; b >= 0; b--) { if (!canRet[b]) continue; vector<char> s(N + 1, 1); bool any = false; auto meet = [&](int t) { any = true; for (int i = 0; i <= N; i++) s[i] &= pd[t][i]; }; if (L::isa<L::ReturnInst>(&*f->blocks[b].ins.back().I)) meet(X); for (int t : succ[b]) if (canRet[t]) meet(t); if (!any) fill(s.begin(), s.end(), 0); s[b] = 1; if (s != pd[b]) { pd[b] = s; ch = true; } } }
  f->ipdom.assign(N, -1);
  for (int b = 0; b < N; b++) { if (!canRet[b]) continue; int best = -1; for (int c = 0; c < N; c++) if (c != b && pd[b][c]) { bool imm = true; for (int d = 0; d < N; d++) if (d != b && d != c && pd[b][d] && !pd[c][d]) { imm = false; break; } if (imm) best = c; } f->ipdom[b] = best; }
}

// ---------------------------------------------------------------- execution
enum St { S_REACHED, S_RETURNED, S_DEAD };
struct Res { St st; vector<V> phi; V ret; };
static V callFunc(Func *f, const vector<V> &args, const L::Instruction *site);
static inline V opv(Frame &fr, const Opd &o) { return o.reg >= 0 ? fr.regs[o.reg] : o.v; }
static inline void setReg(Frame &fr, int r, V v) {
  if (!jstack.empty()) { Journal *j = jstack.back(); if (j->fr == &fr && fr.stamp[r] != j->id) { fr.stamp[r] = j->id; j->rlog.push_back({r, fr.regs[r]}); } }
  fr.regs[r] = v;
}
static V binop(u8 op, V a, V b, unsigned w) {
  if (!a.t && !b.t) { u64 M = wmask(w); switch (op) {
    case T_ADD: return CV((a.c + b.c) & M); case T_UFB: return CV((a.c - b.c) & M); case T_MUL: return CV((a.c * b.c) & M); case T_AND: return CV(a.c & b.c); case T_OR: return CV(a.c | b.c); case T_XOR: return CV(a.c ^ b.c);
    case T_SHL: if (b.c < w) return CV((a.c << b.c) & M); break; case T_LSHR: if (b.c < w) return CV(a.c >> b.c); break; } }
  Term *x = T(a, w), *y = T(b, w); Term *r;
  switch (op) {
  case T_ADD: r = mkAdd(x, y); break; case T_UFB: r = mkSub(x, y); break; case T_MUL: r = mkMul(x, y); break; case T_AND: r = mkAnd(x, y); break; case T_OR: r = mkOr(x, y); break; case T_XOR: r = mkXor(x, y); break;
  case T_SHL: case T_LSHR: case T_ASHR: { if (y->hi >= w) { if (isC(y)) { // shift out of range: undefined value
        return TV(mkVar("undefshift" + to_string(gUndef++), w, true)); } }
      r = mkShift((TOp)op, x, y); break; }
  default: { if (y->lo == 0) mustNot(mkEq(y, mkConst(0, w)), "arith:division-by-zero", "division by zero"); r = mkDivOp((TOp)op, x, y); } }
  return TV(r);
}
static V icmp(u8 p, V a, V b, unsigned w) {
  typedef L::CmpInst C;
  if (!a.t && !b.t) { i64 x = w >= 64 ? (i64)a.c : ((i64)(a.c << (64 - w)) >> (64 - w)), y = w >= 64 ? (i64)b.c : ((i64)(b.c << (64 - w)) >> (64 - w));
    switch (p) { case C::ICMP_EQ: return CV(a.c == b.c); case C::ICMP_NE: return CV(a.c != b.c); case C::ICMP_ULT: return CV(a.c < b.c); case C::ICMP_ULE: return CV(a.c <= b.c); case C::ICMP_UGT: return CV(a.c > b.c); case C::ICMP_UGE: return CV(a.c >= b.c); case C::ICMP_SLT: return CV(x < y); case C::ICMP_SLE: return CV(x <= y); case C::ICMP_SGT: return CV(x > y); case C::ICMP_SGE: return CV(x >= y); } }
  Term *x = T(a, w), *y = T(b, w); Term *r;
  switch (p) { case C::ICMP_EQ: r = mkEq(x, y); break; case C::ICMP_NE: r = mkNot(mkEq(x, y)); break; case C::ICMP_ULT: r = mkUlt(x, y); break; case C::ICMP_ULE: r = mkUle(x, y); break; case C::ICMP_UGT: r = mkUlt(y, x); break; case C::ICMP_UGE: r = mkUle(y, x); break; case C::ICMP_SLT: r = mkSlt(x, y); break; case C::ICMP_SLE: r = mkSle(x, y); break; case C::ICMP_SGT: r = mkSlt(y, x); break; default: r = mkSle(y, x); }
  return TV(r);
}
static void pcPush(Term *c) { if (c == tTrue()) return; pc.push_back(c); pcSet.insert(c); }
static void pcPop() { auto it = pcSet.find(pc.back()); pcSet.erase(it); pc.pop_back(); }
static bool inPc(Term *c) { if (pcSet.count(c)) return true; if (c->op == T_AND && c->w == 1) { for (u32 i = 0; i < c->n; i++) if (!pcSet.count(c->a[i])) return false; return true; } return false; }
static void pcAssume(Term *c) { if (c->op == T_AND && c->w == 1 && c->n) { for (u32 i = 0; i < c->n; i++) pcPush(c->a[i]); return; } pcPush(c); }
// feasibility of the two directions of c under pc: bit0 = true side possible, bit1 = false side possible
// bounds on x implied by the comparisons of x with constants in the path condition
static bool atomOf(Term *c, Term *&x, u64 &lo, u64 &hi) { // c  <=>  x in [lo,hi] (possibly under a negation handled by the caller)
  if (c->op == T_ULT && isC(c->a[1])) { x = c->a[0]; if (!c->a[1]->c) return false; lo = 0; hi = c->a[1]->c - 1; return true; }
  if (c->op == T_EQ && isC(c->a[1])) { x = c->a[0]; lo = hi = c->a[1]->c; return true; } return false; }
static bool isNot(Term *c) { return c->op == T_XOR && c->w == 1 && c->n == 1 && c->c == 1; }
static int byInterval(Term *c, bool &sum) { // 1 true, 2 false, 0 open
  Term *x, *y; u64 l, h, l2, h2; Term *base = isNot(c) ? c->a[0] : c; sum = false; if (!atomOf(base, x, l, h)) return 0;
  u64 lo = x->lo, hi = x->hi;
  for (int pass = 0; pass < 2; pass++) for (Term *p : pc) { bool neg = isNot(p); Term *q = neg ? p->a[0] : p; if (!atomOf(q, y, l2, h2) || y != x) continue;
    if (!neg) { if (l2 > lo) lo = l2; if (h2 < hi) hi = h2; } else { if (l2 <= lo && h2 >= lo) { if (h2 == ~0ULL) continue; lo = h2 + 1; } if (h2 >= hi && l2 <= hi && l2) hi = l2 - 1; } }
  Term *z = x; while (z->op == T_EXTRACT || (z->op == T_CONCAT && isC(z->a[z->n - 1]))) z = z->a[0]; sum = z->op == T_ADD && z->n >= 8;
  if (lo > hi) return 0; int r = 0; if (lo >= l && hi <= h) r = 1; else if (lo > h || hi < l) r = 2; if (r && isNot(c)) r = 3 - r; return r; }
static int feasible(Term *c, Inst *site) {
  if (inPc(c)) { nBranchDecidedSyn++; return 1; } Term *nc = mkNot(c); if (inPc(nc)) { nBranchDecidedSyn++; return 2; }
  if (c->op == T_AND) for (u32 i = 0; i < c->n; i++) if (inPc(mkNot(c->a[i]))) { nBranchDecidedSyn++; return 2; }
  if (nc->op == T_AND) for (u32 i = 0; i < nc->n; i++) if (inPc(mkNot(nc->a[i]))) { nBranchDecidedSyn++; return 1; }
  nBranchSym++;
  { bool sum; int r = byInterval(c, sum); if (r) { nBranchDecidedSyn++; if (site) site->nOne++; return r; } if (sum && site) { site->nFork++; return 3; } } // a digit of a long sum: both sides are explored without asking
  if (site && !site->exitBr && site->nOne == 0 && site->nFork > 40 && (site->nFork & 63)) { site->nFork++; return 3; }
  int r = 0;
  for (Model *m : models) { bool ok = true; for (size_t i = pc.size(); i-- > 0;) if (!m->eval(pc[i])) { ok = false; break; } if (!ok) continue; r |= m->eval(c) ? 1 : 2; if (r == 3) break; }
  for (int side = 1; side <= 2 && r != 3; side++) { if (r & side) continue; Model *m = new Model; SR s = solve({side == 1 ? c : nc}, m, false); if (s == SR_SAT) { models.insert(models.begin(), m); if (models.size() > 12) { delete models.back(); models.pop_back(); } } else delete m; if (s != SR_UNSAT) r |= side; }
  if (site) { if (r == 3) site->nFork++; else site->nOne++; }
  return r;
}
static V mergeV(Term *c, V a, V b, unsigned w) { if (!a.t && !b.t && a.c == b.c) return a; if (a.t && a.t == b.t) return a; if (!w) die("merge of non-integer value"); return TV(mkIte(c, T(a, w), T(b, w))); }

struct SideState { Res res; vector<pair<u64, Cell>> mem; vector<pair<int, V>> regs; vector<Term *> extra; unordered_map<string, u64> cnt; };
static Res run(Frame &fr, int block, int pred, int stop, bool phisDone, size_t startIns = 0);
static void evalPhis(Frame &fr, int block, int pred, vector<V> &out) { auto &ph = fr.f->blocks[block].phis; out.resize(ph.size()); for (size_t i = 0; i < ph.size(); i++) { bool ok = false; for (auto &p : ph[i].in) if (p.first == pred) { out[i] = opv(fr, p.second); ok = true; break; } if (!ok) die("phi"); } }
template <class F> static void runSide(Frame &fr, Term *c, SideState &s, F body) {
  Journal j; j.fr = &fr; j.id = ++journalIds; jstack.push_back(&j); size_t mark = pc.size(); auto savedCnt = symCnt; size_t cs = callStack.size(), css = callSites.size();
  pcAssume(c); size_t mark2 = pc.size();
  try { s.res = body(); } catch (Dead &) { s.res.st = S_DEAD; callStack.resize(cs); callSites.resize(css); }
  for (size_t i = mark2; i < pc.size(); i++) s.extra.push_back(pc[i]);
  while (pc.size() > mark) pcPop();
  s.cnt = symCnt; symCnt = savedCnt;
  if (s.res.st != S_DEAD) {
    unordered_set<u64> seen; for (auto &e : j.log) { u64 key = ((u64)e.obj << 32) | e.off; if (!seen.insert(key).second) continue; Obj *o = objs[e.obj]; if (!o) continue; s.mem.push_back({key, e.off == 0xffffffffu ? o->live : o->d[e.off]}); }
    for (auto &e : j.rlog) s.regs.push_back({e.reg, fr.regs[e.reg]});
  }
  for (size_t i = j.log.size(); i-- > 0;) { auto &e = j.log[i]; Obj *o = objs[e.obj]; if (!o) continue; if (e.off == 0xffffffffu) o->live = e.old; else o->d[e.off] = e.old; }
  for (size_t i = j.rlog.size(); i-- > 0;) fr.regs[j.rlog[i].reg] = j.rlog[i].old;
  // stamps of this journal are stale ids, never reused
  jstack.pop_back(); for (u32 b : j.born) if (objs[b]) { Obj *o = objs[b]; if (o->birth > jstack.size()) o->birth = jstack.size(); if (!jstack.empty()) jstack.back()->born.push_back(b); }
}
static Cell cellOr(Obj *o, u32 off) { return off == 0xffffffffu ? o->live : getCell(o, off); }
static Res mergeSides(Frame &fr, Term *c, SideState &a, SideState &b, int stop) {
  bool da = a.res.st == S_DEAD, db = b.res.st == S_DEAD; Res r;
  if (da && db) { r.st = S_DEAD; return r; }
  if (da || db) { SideState &s = da ? b : a; pcAssume(da ? mkNot(c) : c); for (Term *e : s.extra) pcPush(e); symCnt = s.cnt;
    for (auto &m : s.mem) { Obj *o = objs[m.first >> 32]; u32 off = (u32)m.first; if (!o) continue; if (off == 0xffffffffu) { if (o->birth < jstack.size()) jstack.back()->log.push_back({o->id, off, o->live}); o->live = m.second; } else setCell(o, off, m.second); }
    for (auto &g : s.regs) setReg(fr, g.first, g.second); return s.res; }
  if (a.res.st != b.res.st) die("merge of different exits");
  for (Term *e : a.extra) pcPush(mkOr(mkNot(c), e)); for (Term *e : b.extra) pcPush(mkOr(c, e));
  for (auto &k : a.cnt) symCnt[k.first] = max(symCnt[k.first], k.second); for (auto &k : b.cnt) symCnt[k.first] = max(symCnt[k.first], k.second);
  unordered_map<u64, Cell> bm; for (auto &m : b.mem) bm[m.first] = m.second;
  auto put = [&](u64 key, Cell va, Cell vb) { Obj *o = objs[key >> 32]; u32 off = (u32)key; if (!o) return; if (va == vb) { if (off == 0xffffffffu) { if (o->birth < jstack.size()) jstack.back()->log.push_back({o->id, off, o->live}); o->live = va; } else setCell(o, off, va); return; }
    if (off == 0xffffffffu) { Term *x = va <= 1 ? mkConst(va, 1) : (Term *)va, *y = vb <= 1 ? mkConst(vb, 1) : (Term *)vb; Term *t = mkIte(c, x, y); if (o->birth < jstack.size()) jstack.back()->log.push_back({o->id, off, o->live}); o->live = isC(t) ? t->c : (u64)t; return; }
    Term *x = va ? cellT(va) : uninitVar(o, off), *y = vb ? cellT(vb) : uninitVar(o, off); setCell(o, off, tCell(mkIte(c, x, y))); };
  auto cur = [&](u64 key) -> Cell { Obj *o = objs[key >> 32]; if (!o) return 0; return cellOr(o, (u32)key); };
  for (auto &m : a.mem) { auto it = bm.find(m.first); Cell vb; if (it != bm.end()) { vb = it->second; bm.erase(it); } else vb = cur(m.first); put(m.first, m.second, vb); }
  for (auto &m : b.mem) { auto it = bm.find(m.first); if (it == bm.end()) continue; put(m.first, cur(m.first), m.second); }
  unordered_map<int, V> br; for (auto &g : b.regs) br[g.first] = g.second; unordered_map<int, V> ar;
  for (auto &g : a.regs) { auto it = br.find(g.first); V vb = it != br.end() ? it->second : fr.regs[g.first]; if (it != br.end()) br.erase(it); unsigned w = fr.f->regw[g.first]; if (!w) continue; setReg(fr, g.first, mergeV(c, g.second, vb, w)); }
  for (auto &g : br) { unsigned w = fr.f->regw[g.first]; if (!w) continue; setReg(fr, g.first, mergeV(c, fr.regs[g.first], g.second, w)); }
  r.st = a.res.st;
  if (r.st == S_REACHED) { auto &ph = fr.f->blocks[stop].phis; r.phi.resize(a.res.phi.size()); for (size_t i = 0; i < r.phi.size(); i++) r.phi[i] = mergeV(c, a.res.phi[i], b.res.phi[i], ph[i].w); }
  else { L::Type *rt = fr.f->F->getReturnType(); if (!rt->isVoidTy()) r.ret = mergeV(c, a.res.ret, b.res.ret, tyW(rt)); else r.ret = CV(0); }
  return r;
}
// fork on c: then-body / else-body both executed up to block P (or function return when P<0), then merged
static Res forkRun(Frame &fr, Term *c, int from, int tb, int fb, int P) {
  nForks++; SideState a, b;
  runSide(fr, c, a, [&]() { return run(fr, tb, from, P, false); });
  runSide(fr, mkNot(c), b, [&]() { return run(fr, fb, from, P, false); });
  return mergeSides(fr, c, a, b, P);
}
static Res forkSwitch(Frame &fr, Inst &x, size_t k, Term *v, int from, int P, const vector<pair<int, Term *>> &dests) {
  if (k + 1 == dests.size()) return run(fr, dests[k].first, from, P, false);
  Term *c = dests[k].second; int f = feasible(c, nullptr); if (f == 1) { return run(fr, dests[k].first, from, P, false); } if (f == 2) return forkSwitch(fr, x, k + 1, v, from, P, dests);
  if (f == 0) throw Dead();
  nForks++; SideState a, b; runSide(fr, c, a, [&]() { return run(fr, dests[k].first, from, P, false); }); runSide(fr, mkNot(c), b, [&]() { return forkSwitch(fr, x, k + 1, v, from, P, dests); }); return mergeSides(fr, c, a, b, P);
}
static V doCall(Frame &fr, Inst &x);
#define CALLSITE(I) callSites.back() = (I)

static Res run(Frame &fr, int block, int pred, int stop, bool phisDone, size_t startIns) {
  Func *f = fr.f;
  for (;;) {
    if (block == stop && !phisDone) { Res r; r.st = S_REACHED; r.ret = CV(0); evalPhis(fr, block, pred, r.phi); return r; }
    Block &B = f->blocks[block];
    if (!phisDone && !B.phis.empty()) { vector<V> pv; evalPhis(fr, block, pred, pv); for (size_t i = 0; i < pv.size(); i++) setReg(fr, B.phis[i].dst, pv[i]); }
    phisDone = false;
    f->insns += B.ins.size(); totalInsns += B.ins.size(); checkResources();
    int next = -1; bool jumped = false;
    for (size_t ii = startIns; ii < B.ins.size() && !jumped; ii++) {
      Inst &x = B.ins[ii];
      switch (x.k) {
      case I_NOP: break;
      case I_BIN: CALLSITE(x.I); setReg(fr, x.dst, binop(x.sub, opv(fr, x.a), opv(fr, x.b), x.w)); break;
      case I_ICMP: setReg(fr, x.dst, icmp(x.sub, opv(fr, x.a), opv(fr, x.b), x.w2)); break;
      case I_LOAD: CALLSITE(x.I); setReg(fr, x.dst, memLoad(opv(fr, x.a), x.w)); break;
      case I_STORE: CALLSITE(x.I); memStore(opv(fr, x.a), opv(fr, x.b), x.w); break;
      case I_GEP: { V p = opv(fr, x.a); u64 c = x.off; Term *sym = nullptr; if (p.t) sym = p.t; else c += p.c;
        for (size_t i = 0; i < x.ops.size(); i++) { V ix = opv(fr, x.ops[i]); unsigned w = x.ws[i]; if (!ix.t) { u64 s = w >= 64 ? ix.c : (u64)(((i64)(ix.c << (64 - w))) >> (64 - w)); c += s * x.scale[i]; } else { Term *s = mkMul(mkSext(ix.t, 64), mkConst(x.scale[i], 64)); sym = sym ? mkAdd(sym, s) : s; } }
        setReg(fr, x.dst, sym ? TV(mkAdd(sym, mkConst(c, 64))) : CV(c)); break; }
      case I_CAST: { V a = opv(fr, x.a); if (!a.t) { u64 v = a.c; if (x.sub == C_SEXT) v = x.w2 >= 64 ? v : (u64)(((i64)(v << (64 - x.w2))) >> (64 - x.w2)); setReg(fr, x.dst, CV(v & wmask(x.w))); }
        else setReg(fr, x.dst, TV(x.sub == C_ZEXT ? mkZext(a.t, x.w) : x.sub == C_SEXT ? mkSext(a.t, x.w) : mkExtract(a.t, 0, x.w))); break; }
      case I_SELECT: { V c = opv(fr, x.a); V r; if (!c.t) r = c.c ? opv(fr, x.b) : opv(fr, x.c); else r = mergeV(c.t, opv(fr, x.b), opv(fr, x.c), x.w); setReg(fr, x.dst, r); break; }
      case I_FREEZE: setReg(fr, x.dst, opv(fr, x.a)); break;
      case I_ALLOCA: { V n = opv(fr, x.a); CALLSITE(x.I); if (n.t) { auto e = enumValues(n.t, 1, "array length"); if (e.size() != 1) throw Dead(); n = CV(e[0]); } u64 sz = n.c * x.off; if (sz > (1ULL << 28)) { mustNot(tTrue(), "memory:alloca", "huge stack array " + to_string(sz)); throw Dead(); } Obj *o = newObj(sz, 1, x.uname); fr.allocas.push_back(o->id); setReg(fr, x.dst, CV(mkPtr(o->id))); break; }
      case I_CALL: { CALLSITE(x.I); V r = doCall(fr, x); if (x.dst >= 0) setReg(fr, x.dst, r); break; }
      case I_BR: next = x.t; jumped = true; break;
      case I_CBR: { V c = opv(fr, x.a); CALLSITE(x.I); if (!c.t) { next = c.c ? x.t : x.f; jumped = true; break; }
        if (x.t == x.f) { next = x.t; jumped = true; break; }
        int fe = feasible(c.t, &x); if (fe == 0) throw Dead(); if (fe == 1) { next = x.t; jumped = true; break; } if (fe == 2) { next = x.f; jumped = true; break; }
        int P = f->ipdom[block]; Res r = forkRun(fr, c.t, block, x.t, x.f, P);
        if (r.st == S_DEAD) throw Dead(); if (r.st == S_RETURNED) return r;
        if (P == stop) { return r; }
        { Block &PB = f->blocks[P]; for (size_t i = 0; i < r.phi.size(); i++) setReg(fr, PB.phis[i].dst, r.phi[i]); }
        next = P; phisDone = true; jumped = true; break; }
      case I_SWITCH: { V v = opv(fr, x.a); CALLSITE(x.I); if (!v.t) { next = x.t; for (auto &c : x.cases) if (c.first == v.c) next = c.second; jumped = true; break; }
        vector<pair<int, Term *>> d; map<int, size_t> idx; Term *def = tTrue(); for (auto &c : x.cases) { Term *e = mkEq(v.t, mkConst(c.first, x.w2)); def = mkAnd(def, mkNot(e)); if (c.second == x.t) continue; auto it = idx.find(c.second); if (it == idx.end()) { idx[c.second] = d.size(); d.push_back({c.second, e}); } else d[it->second].second = mkOr(d[it->second].second, e); }
        d.push_back({x.t, nullptr}); int P = f->ipdom[block]; Res r = forkSwitch(fr, x, 0, v.t, block, P, d);
        if (r.st == S_DEAD) throw Dead(); if (r.st == S_RETURNED) return r; if (P == stop) return r;
        { Block &PB = f->blocks[P]; for (size_t i = 0; i < r.phi.size(); i++) setReg(fr, PB.phis[i].dst, r.phi[i]); }
        next = P; phisDone = true; jumped = true; break; }
      case I_RET: { Res r; r.st = S_RETURNED; r.ret = x.w ? opv(fr, x.a) : CV(0); return r; }
      case I_UNREACH: throw Dead();
      }
    }
    startIns = 0; pred = block; block = next;
  }
}
static V callFunc(Func *f, const vector<V> &args, const L::Instruction *site) {
  if (!f->decoded) decode(f); f->calls++;
  Frame fr; fr.f = f; fr.regs.assign(f->nregs, CV(0)); fr.stamp.assign(f->nregs, 0); for (size_t i = 0; i < f->argReg.size() && i < args.size(); i++) fr.regs[f->argReg[i]] = args[i];
  callStack.push_back(&fr); callSites.push_back(nullptr); if (callStack.size() > 20000) die("call depth");
  Res r; try { r = run(fr, 0, -1, -1, false); } catch (Dead &) { for (u32 a : fr.allocas) killObj(a); throw; }
  for (u32 a : fr.allocas) killObj(a);
  callStack.pop_back(); callSites.pop_back(); if (r.st == S_DEAD) throw Dead(); return r.ret;
}
static vector<Term *> chunk(const vector<Term *> &b) { vector<Term *> r; for (size_t i = 0; i < b.size(); i += 8) { size_t e = min(b.size(), i + 8); vector<Term *> s(b.begin() + i, b.begin() + e); r.push_back(s.size() == 1 ? s[0] : mkConcatV(s)); } return r; }
static void applyUF(const string &name, V out, u64 outlen, V in, u64 inlen, vector<Term *> *res = nullptr) {
  vector<Term *> b; readBytes(in, inlen, b);
  if (concreteHash && (name == "SHA256" || name == "SHA512")) { bool conc = true; for (Term *t : b) if (!isC(t)) conc = false; if (conc) { vector<u8> d(inlen + 1); for (u64 i = 0; i < inlen; i++) d[i] = b[i]->c; u8 md[64]; if (name == "SHA256") ::SHA256(d.data(), inlen, md); else ::SHA512(d.data(), inlen, md); vector<Term *> o(outlen); for (u64 i = 0; i < outlen; i++) o[i] = mkConst(md[i], 8); if (res) *res = o; else writeBytes(out, o); return; } }
  Term *app = mkHApp(nameId(name), chunk(b), inlen); vector<Term *> o(outlen); for (u64 i = 0; i < outlen; i++) o[i] = mkUfb(app, i); if (res) *res = o; else writeBytes(out, o);
}
static void ufCall(const string &name, V out, u64 outlen, V in, V inlen) {
  if (!inlen.t) { applyUF(name, out, outlen, in, inlen.c); return; }
  // symbolic input length: case split over the feasible lengths
  auto vs = enumValues(inlen.t, 300, "hash input length"); vector<Term *> acc; if (vs.empty()) throw Dead();
  for (u64 v : vs) { vector<Term *> o; Term *c = mkEq(inlen.t, mkConst(v, inlen.t->w)); pcAssume(c); size_t n = c->op == T_AND && c->w == 1 ? c->n : c == tTrue() ? 0 : 1; applyUF(name, out, outlen, in, v, &o); while (n--) pcPop(); if (acc.empty()) acc = o; else for (u64 i = 0; i < outlen; i++) acc[i] = mkIte(c, o[i], acc[i]); }
  writeBytes(out, acc);
}
// Equality of two if-then-else trees by case analysis on the atoms of their conditions (complete tables selected by a narrow index).
static u64 nCaseEq = 0, nCaseSplits = 0;
struct CaseEq {
  unordered_map<Term *, pair<u64, u64>> known; unordered_map<Term *, unordered_set<u64>> excl; unordered_map<Term *, bool> truth; unordered_map<Term *, pair<u64, u64>> rng; bool contra = false; u64 budget = 0;
  pair<u64, u64> range(Term *y) { auto it = rng.find(y); return it == rng.end() ? make_pair(y->lo, y->hi) : it->second; }
  void narrow(Term *y, u64 lo, u64 hi) { auto r = range(y); u64 l = max(r.first, lo), h = min(r.second, hi); auto ex = excl.find(y); if (ex != excl.end()) { while (l <= h && ex->second.count(l)) l++; while (h > l && ex->second.count(h)) h--; } if (l == r.first && h == r.second) return; if (l > h) { contra = true; return; } log.push_back({3, y, r.first, r.second}); rng[y] = {l, h}; if (l == h) fix(y, l); }
  void fix(Term *y, u64 k) { Term *b; unsigned lo; base(y, b, lo); auto &p = known[b]; u64 m = wmask(y->w) << lo; if ((p.second ^ (k << lo)) & p.first & m) contra = true; log.push_back({1, b, p.first, p.second}); p.first |= m; p.second = (p.second & ~m) | (k << lo); }
  struct Undo { u8 k; Term *t; u64 x, y; }; vector<Undo> log;
  static void base(Term *y, Term *&b, unsigned &lo) { lo = 0; b = y; if (y->op == T_EXTRACT) { b = y->a[0]; lo = y->c; } }
  int decide(Term *c) {
    if (isC(c)) return c->c; auto it = truth.find(c); if (it != truth.end()) return it->second;
    if (c->w != 1) return -1;
    if (isNot(c)) { int r = decide(c->a[0]); return r < 0 ? r : 1 - r; }
    if (c->op == T_AND) { int r = 1; for (u32 i = 0; i < c->n; i++) { int q = decide(c->a[i]); if (q == 0) return 0; if (q < 0) r = -1; } return r; }
    if (c->op == T_OR) { int r = 0; for (u32 i = 0; i < c->n; i++) { int q = decide(c->a[i]); if (q == 1) return 1; if (q < 0) r = -1; } return r; }
    if (c->op == T_EXTRACT) { auto kn = known.find(c->a[0]); if (kn != known.end() && (kn->second.first >> c->c & 1)) return kn->second.second >> c->c & 1; return -1; }
    if ((c->op == T_EQ || c->op == T_ULT) && isC(c->a[1])) { Term *y = c->a[0], *b; unsigned lo; base(y, b, lo); u64 k = c->a[1]->c;
      auto kn = known.find(b); if (kn != known.end()) { u64 m = (kn->second.first >> lo) & wmask(y->w), v = (kn->second.second >> lo) & wmask(y->w); if (c->op == T_EQ && ((v ^ k) & m)) return 0; if (m == wmask(y->w)) return c->op == T_EQ ? v == k : v < k; }
      if (c->op == T_EQ) { auto ex = excl.find(y); if (ex != excl.end() && ex->second.count(k)) return 0; }
      auto r = range(y); if (c->op == T_EQ) { if (k < r.first || k > r.second) return 0; if (r.first == r.second) return 1; } else { if (r.second < k) return 1; if (r.first >= k) return 0; } }
    else if (c->op == T_ULT && isC(c->a[0])) { auto r = range(c->a[1]); u64 k = c->a[0]->c; if (r.first > k) return 1; if (r.second <= k) return 0; }
    return -1; }
  void assume(Term *c, bool v) {
    if (isC(c)) { if ((bool)c->c != v) contra = true; return; }
    if (isNot(c)) return assume(c->a[0], !v);
    if (c->w == 1 && ((c->op == T_AND && v) || (c->op == T_OR && !v))) { for (u32 i = 0; i < c->n; i++) assume(c->a[i], v); return; }
    if (truth.count(c)) { if (truth[c] != v) contra = true; return; } truth[c] = v; log.push_back({0, c, 0, 0});
    if (c->op == T_EXTRACT) { auto &p = known[c->a[0]]; u64 m = 1ULL << c->c; if ((p.first & m) && ((p.second >> c->c & 1) != (u64)v)) contra = true; log.push_back({1, c->a[0], p.first, p.second}); p.first |= m; p.second = v ? p.second | m : p.second & ~m; return; }
    if (c->op == T_ULT) { if (isC(c->a[1])) { u64 k = c->a[1]->c; if (v && !k) contra = true; else if (v) narrow(c->a[0], 0, k - 1); else narrow(c->a[0], k, ~0ULL); } else if (isC(c->a[0])) { u64 k = c->a[0]->c; if (v) narrow(c->a[1], k + 1, ~0ULL); else narrow(c->a[1], 0, k); } return; }
    if (c->op != T_EQ || !isC(c->a[1])) return; Term *y = c->a[0], *b; unsigned lo; base(y, b, lo); u64 k = c->a[1]->c;
    if (v) { auto &p = known[b]; u64 m = wmask(y->w) << lo; if ((p.second ^ (k << lo)) & p.first & m) contra = true; log.push_back({1, b, p.first, p.second}); p.first |= m; p.second = (p.second & ~m) | (k << lo); auto ex = excl.find(y); if (ex != excl.end() && ex->second.count(k)) contra = true; }
    else { auto &e = excl[y]; if (e.insert(k).second) log.push_back({2, y, k, 0}); if (y->w < 24 && e.size() == (1ULL << y->w)) contra = true; auto r = range(y); if (!contra && (r.first == k || r.second == k)) { if (r.first == r.second) contra = true; else narrow(y, r.first == k ? k + 1 : r.first, r.second == k ? k - 1 : r.second); } } }
  void undo(size_t n) { while (log.size() > n) { Undo u = log.back(); log.pop_back(); if (u.k == 0) truth.erase(u.t); else if (u.k == 1) known[u.t] = {u.x, u.y}; else if (u.k == 3) rng[u.t] = {u.x, u.y}; else excl[u.t].erase(u.x); } }
  Term *resolve(Term *t) { while (t->op == T_ITE) { int d = decide(t->a[0]); if (d < 0) break; t = t->a[d ? 1 : 2]; if (budget) budget--; } return t; }
  Term *val(Term *t, int d = 0) { // value under what is known
    if (isC(t) || d > 8) return t; Term *b; unsigned lo; base(t, b, lo); auto kn = known.find(b); if (kn != known.end() && ((kn->second.first >> lo) & wmask(t->w)) == wmask(t->w)) return mkConst((kn->second.second >> lo) & wmask(t->w), t->w);
    if (t->op == T_CONST || t->op == T_VAR || t->op == T_HAPP || t->op == T_UFB || t->n > 8 || !t->n) return t; Term *a[8]; bool ch = false; for (u32 i = 0; i < t->n; i++) { a[i] = val(t->a[i], d + 1); ch |= a[i] != t->a[i]; if (budget) budget--; } return ch ? rebuild(t, a) : t; }
  Term *atom(Term *c) { for (;;) { if (isNot(c)) { c = c->a[0]; continue; } if (c->w == 1 && (c->op == T_AND || c->op == T_OR)) { Term *q = nullptr; for (u32 i = 0; i < c->n && !q; i++) if (decide(c->a[i]) < 0) q = c->a[i]; if (!q) return c; c = q; continue; } return c; } }
  bool cmp(Term *a, Term *b, int depth) {
    size_t base = log.size(); bool res = false, c0 = contra;
    for (;;) { a = resolve(a); b = resolve(b); if (a == b || contra) { res = true; break; } if (!budget || depth > 200) break; budget--;
      Term *u = a->op == T_ITE ? a->a[0] : b->op == T_ITE ? b->a[0] : nullptr; if (!u) { res = !known.empty() && val(a) == val(b); break; } u = atom(u); nCaseSplits++;
      size_t l = log.size(); assume(u, true); bool r = contra || cmp(a, b, depth + 1); undo(l); contra = false; if (!r) break; assume(u, false); }
    undo(base); contra = c0; return res; }
};
static bool caseEq(Term *a, Term *b, u64 budget = 3000000) {
  if (a->op != T_ITE && b->op != T_ITE) return false; CaseEq c; for (Term *p : pc) c.assume(p, true); c.budget = budget; bool r = c.cmp(a, b, 0);
  if (r) { nCaseEq++; if (g_auditEvery && nCaseEq % (8 * g_auditEvery) == 1) { SR s = g_abs.check(pc, {mkNot(mkEq(a, b))}, nullptr, true, 5000); if (s == SR_SAT) die("case analysis refuted by the solver"); if (s == SR_UNSAT) auProved++; else auUnknown++; } }
  return r; }
static void checkEq(V a, V b, u64 n, const string &label) {
  vector<Term *> x, y; readBytes(a, n, x); readBytes(b, n, y); CheckStat &cs = checks[label]; cs.n++; cs.bytes += n; vector<Term *> bad; bool caseOk = true, cased = false; // a first failure of the case analysis ends its use for this check
  for (u64 i = 0; i < n; i++) { if (x[i] == y[i]) continue; Term *e = mkEq(x[i], y[i]); if (e == tTrue() || inPc(e)) continue; if (caseOk && caseEq(x[i], y[i])) { cased = true; continue; } caseOk = cased; bad.push_back(mkNot(e)); }
  if (bad.empty()) { cs.trivial++; nRewriteDischarged++; return; }
  cs.solver++; size_t i = 0; 
  if (verbose) for (u64 k = 0; k < n; k++) if (x[k] != y[k]) { Term *p = x[k], *q = y[k]; std::string path; for (int g = 0; g < 4000; g++) { if (p->op != q->op || p->n != q->n || p->c != q->c || p->w != q->w) break; int d = -1, nd = 0; for (u32 i = 0; i < p->n; i++) if (p->a[i] != q->a[i]) { if (d < 0) d = i; nd++; } if (d < 0) break; path += std::to_string(d) + (nd > 1 ? "(" + std::to_string(nd) + ")" : "") + "."; p = p->a[d]; q = q->a[d]; } fprintf(stderr, "[innermost %s]\n  L %s\n  R %s\n", path.c_str(), show(p, 3).c_str(), show(q, 3).c_str()); break; }
  if (verbose) { for (u64 k = 0; k < n; k++) if (x[k] != y[k]) { fprintf(stderr, "[eq %s byte %lu/%lu differs]\n  L %s\n  R %s\n", label.c_str(), k, n, show(x[k], 5).c_str(), show(y[k], 5).c_str()); break; } }
  while (i < bad.size()) { Term *o = tFalse(); size_t e = min(bad.size(), i + 64); for (; i < e; i++) o = mkOr(o, bad[i]); mustNot(o, label, "values differ"); }
}
static vector<string> unameList;
static Term *symVarGet(const string &nm, unsigned w) { auto it = symVar.find(nm); if (it != symVar.end()) return it->second; return symVar[nm] = mkVar(nm, w); }
static V doCall(Frame &fr, Inst &x) {
  vector<V> a(x.ops.size()); for (size_t i = 0; i < a.size(); i++) a[i] = opv(fr, x.ops[i]);
  auto conc = [&](int i, const char *what) -> u64 { if (a[i].t) die(string("symbolic ") + what); return a[i].c; };
  if (x.intr == -1) return callFunc(x.callee, a, x.I);
  switch (x.intr) {
  case -2: die("call to unknown external function " + x.uname);
  case -3: { V p = opv(fr, x.b); if (p.t) die("symbolic function pointer"); auto it = fnPtr.find(p.c); if (it == fnPtr.end() || !it->second) die("bad function pointer"); Func *g = it->second; if (g->ovr && fr.f != g->ovr) g = g->ovr; return callFunc(g, a, x.I); }
  case N_IGN0: return CV(0);
  case N_MEMCPY: { memCopy(a[0], a[1], a[2]); return a[0]; }
  case N_MEMSET: { memSet(a[0], a[1], a[2]); return a[0]; }
  case N_BSWAPX: { memSet(a[0], CV(0), a[1]); return a[0]; }
  case N_MALLOC: case N_CALLOC: { V sz = a[0]; if (x.intr == N_CALLOC) sz = binop(T_MUL, a[0], a[1], 64); Obj *o; string nm = "heap:" + fr.f->name;
    if (sz.t) { u64 mx = sz.t->hi; if (mx > (1 << 20)) { mx = 1; while (mx <= (1 << 20) && solve({mkUlt(mkConst(mx, 64), sz.t)}, nullptr, true) != SR_UNSAT) mx *= 2; if (mx > (1 << 20)) { /* may be huge: model as failure-prone allocation */ mx = 1 << 20; } } o = newObj(mx, 2, nm); o->symSize = sz.t; } else { if (sz.c > (1ULL << 28)) return CV(0); o = newObj(sz.c, 2, nm); }
    if (x.intr == N_CALLOC) for (auto &c : o->d) c = CC(0); return CV(mkPtr(o->id)); }
  case N_MALLOCSYM: { u64 cap = conc(0, "capacity"); Obj *o = newObj(cap, 2, readStr(a[2])); o->named = true; if (a[1].t) o->symSize = a[1].t; else { o->size = a[1].c; o->d.resize(a[1].c); } return CV(mkPtr(o->id)); }
  case N_FREE: { if (a[0].t) { auto cs = candidates(a[0].t); for (auto &c : cs) { u32 id = c.second >> 32; if (!c.second || id >= objs.size() || !objs[id]) continue; Obj *o = objs[id]; if (o->birth < jstack.size()) jstack.back()->log.push_back({id, 0xffffffffu, o->live}); Term *l = o->live <= 1 ? mkConst(o->live, 1) : (Term *)o->live; Term *t = mkAnd(l, mkNot(c.first)); o->live = isC(t) ? t->c : (u64)t; } return CV(0); }
    if (!a[0].c) return CV(0); u32 id = a[0].c >> 32; if ((a[0].c & 0xffffffff) != BIAS || id >= objs.size() || !objs[id] || objs[id]->kind != 2 || objs[id]->live == 0) { mustNot(tTrue(), "memory:free", "invalid free"); throw Dead(); }
    Obj *o = objs[id]; if (o->birth < jstack.size()) jstack.back()->log.push_back({id, 0xffffffffu, o->live}); o->live = 0; return CV(0); }
  case N_MEMCMP: { u64 n = conc(2, "memcmp length"); vector<Term *> p, q; readBytes(a[0], n, p); readBytes(a[1], n, q); Term *eq = tTrue(), *lt = tFalse(); for (u64 i = 0; i < n; i++) eq = mkAnd(eq, mkEq(p[i], q[i])); if (isC(eq) && eq->c) return CV(0);
    bool onlyZero = true; for (const L::User *u : x.I->users()) { auto *ic = L::dyn_cast<L::ICmpInst>(u); if (!ic || !ic->isEquality()) onlyZero = false; else if (auto *k = L::dyn_cast<L::ConstantInt>(ic->getOperand(1))) { if (!k->isZero()) onlyZero = false; } else onlyZero = false; }
    if (onlyZero) return TV(mkIte(eq, mkConst(0, 32), mkConst(1, 32)));
    for (u64 i = n; i-- > 0;) { Term *e = mkEq(p[i], q[i]); lt = mkIte(e, lt, mkUlt(p[i], q[i])); } return TV(mkIte(eq, mkConst(0, 32), mkIte(lt, mkConst(~0u, 32), mkConst(1, 32)))); }
  case N_STRLEN: { u64 n = 0; for (;; n++) { u64 off; if (a[0].t) die("symbolic strlen pointer"); Obj *o = access(a[0].c + n, 1, false, nullptr, off); if (!o) throw Dead(); Cell c = getCell(o, off); if (!(c & 1)) die("symbolic strlen"); if (c == CC(0)) return CV(n); } }
  case N_SYM: case N_SYMW: { u64 n = conc(1, "size"); string nm = readStr(a[2]); u64 k = symCnt[nm]++; if (k) nm += "#" + to_string(k); vector<Term *> b(n); if (x.intr == N_SYM) for (u64 i = 0; i < n; i++) b[i] = symVarGet(nm + "[" + to_string(i) + "]", 8); else for (u64 i = 0; i < n; i += 8) { u64 l = min<u64>(8, n - i); Term *w = symVarGet(nm + "[" + to_string(i) + "]", 8 * l); for (u64 q = 0; q < l; q++) b[i + q] = mkExtract(w, 8 * q, 8); } writeBytes(a[0], b); return CV(0); }
  case N_SYMU: { u64 w = conc(0, "width"); string nm = readStr(a[1]); u64 k = symCnt[nm]++; if (k) nm += "#" + to_string(k); return TV(mkZext(symVarGet(nm, w), 64)); }
  case N_ASSUME: { Term *c = a[0].t ? mkNot(mkEq(a[0].t, mkConst(0, x.ws[0]))) : mkConst(a[0].c != 0, 1); if (c == tFalse()) throw Dead(); if (c == tTrue()) return CV(0); int f = feasible(c, nullptr); if (!(f & 1)) throw Dead(); if (f != 1) pcAssume(c); return CV(0); }
  case N_CHECK: { string lb = readStr(a[1]); CheckStat &cs = checks[lb]; cs.n++; Term *c = a[0].t ? mkNot(mkEq(a[0].t, mkConst(0, x.ws[0]))) : mkConst(a[0].c != 0, 1); if (c == tTrue() || inPc(c)) { cs.trivial++; nRewriteDischarged++; return CV(0); } cs.solver++; if (verbose) fprintf(stderr, "[check %s] %s\n", lb.c_str(), show(c, atoi(getenv("XSE_DEPTH") ? getenv("XSE_DEPTH") : "4")).c_str()); mustNot(mkNot(c), lb, "assertion fails"); return CV(0); }
  case N_CHECKEQ: { string lb = readStr(a[3]); checkEq(a[0], a[1], conc(2, "length"), lb); return CV(0); }
  case N_CHECKINIT: { u64 n = conc(1, "length"); string lb = readStr(a[2]); CheckStat &cs = checks[lb]; cs.n++; cs.bytes += n; vector<Term *> b; readBytes(a[0], n, b); vector<Term *> badv; 
    for (u64 i = 0; i < n; i++) if (b[i]->flags & TF_UNINIT) { // does the value really depend on it? rename and compare
        unordered_map<Term *, Term *> memo; function<Term *(Term *)> ren = [&](Term *t) -> Term * { if (!(t->flags & TF_UNINIT)) return t; auto it = memo.find(t); if (it != memo.end()) return it->second; Term *r; if (t->op == T_VAR) r = mkVar(g_vars[t->c].name + "'", t->w, true); else { vector<Term *> aa(t->n); for (u32 q = 0; q < t->n; q++) aa[q] = ren(t->a[q]); r = rebuild(t, aa.data()); } return memo[t] = r; };
        Term *r = ren(b[i]); Term *bad = mkNot(mkEq(b[i], r)); if (bad != tFalse()) badv.push_back(bad); }
    if (badv.empty()) { cs.trivial++; nRewriteDischarged++; return CV(0); } cs.solver++; Term *o = tFalse(); for (Term *t : badv) o = mkOr(o, t); mustNot(o, lb, "value depends on uninitialised memory"); return CV(0); }
  case N_UF: { string nm = readStr(a[0]); ufCall(nm, a[1], conc(2, "uf output length"), a[3], a[4]); return CV(0); }
  case N_SHA256: { ufCall("SHA256", a[2], 32, a[0], a[1]); return a[2]; }
  case N_SHA512: { ufCall("SHA512", a[2], 64, a[0], a[1]); return a[2]; }
  case N_PARAM: { string nm = readStr(a[0]); auto it = params.find(nm); return CV(it == params.end() ? a[1].c : (u64)it->second); }
  case N_CHOICE: case N_SPLIT: { if (!jstack.empty()) die("choice inside a symbolic branch"); string lb = readStr(x.intr == N_CHOICE ? a[0] : a[1]);
    if (x.intr == N_SPLIT && !a[0].t) return a[0];
    if (choicePos == choices.size()) { Choice c; c.label = lb; c.k = 0; if (x.intr == N_CHOICE) c.n = conc(1, "choice count"); else { c.vals = enumValues(a[0].t, 5000, "split"); c.n = c.vals.size(); } if (!c.n) throw Dead(); choices.push_back(c); }
    Choice &c = choices[choicePos++]; if (x.intr == N_CHOICE) return CV(c.k); u64 v = c.vals[c.k]; pcAssume(mkEq(a[0].t, mkConst(v, a[0].t->w))); return CV(v); }
  case N_REACH: { string lb = readStr(a[0]); if (!reached.count(lb)) { if (solve({}, nullptr, true, 0, true) == SR_SAT) reached[lb] = 1; } else reached[lb]++; return CV(0); }
  case N_FAIL: { string lb = readStr(a[0]); checks[lb].n++; mustNot(tTrue(), lb, "forbidden event"); throw Dead(); }
  case N_KILL: throw Dead();
  case N_ABORT: checks["the program does not abort"].n++; mustNot(tTrue(), "the program does not abort", "call of abort or a failed assertion"); throw Dead();
  case N_CTLZ: case N_CTTZ: { bool lz = x.intr == N_CTLZ; if (!a[0].t) { u64 v = a[0].c; unsigned r = 0; while (r < x.w && !((v >> (lz ? x.w - 1 - r : r)) & 1)) r++; return CV(r); }
    Term *r = mkConst(x.w, x.w); for (unsigned i = 0; i < x.w; i++) { unsigned bit = lz ? i : x.w - 1 - i; r = mkIte(mkExtract(a[0].t, bit, 1), mkConst(lz ? x.w - 1 - bit : bit, x.w), r); } return TV(r); }
  case N_DUMP: { u64 n = conc(1, "n"); vector<Term *> b; readBytes(a[0], n, b); fprintf(stderr, "dump:"); for (auto t : b) fprintf(stderr, " %s", show(t, 4).c_str()); fprintf(stderr, "\n"); return CV(0); }
  case N_ISSYM: return CV(a[0].t != nullptr);
  case N_HAVOC: { // fresh unconstrained contents, uninitialised flag kept off
    u64 n = conc(1, "size"); string nm = readStr(a[2]); u64 k = symCnt[nm]++; vector<Term *> b(n); for (u64 i = 0; i < n; i++) b[i] = symVarGet(nm + "#" + to_string(k) + "[" + to_string(i) + "]", 8); writeBytes(a[0], b); return CV(0); }
  case N_RANGE: { if (a[0].t) die("symbolic pointer in xse_range"); u32 id = a[0].c >> 32; i64 o = (i64)(a[0].c & 0xffffffffu) - (i64)BIAS; Obj *ob = id && id < objs.size() ? objs[id] : nullptr; Term *n = T(a[1], 64); Term *nz = mkNot(mkEq(n, mkConst(0, 64))); const char *lb = (a[2].t || a[2].c) ? "memory:write" : "memory:read"; nMemChecks++;
    Term *bad; if (!ob || ob->live == 0 || o < 0) bad = nz; else { Term *sz = ob->symSize ? ob->symSize : mkConst(ob->size, 64), *ot = mkConst(o, 64); bad = mkAnd(nz, mkOr(mkUlt(sz, ot), mkUlt(mkSub(sz, ot), n))); }
    checks[lb].n++; if (bad == tFalse()) { checks[lb].trivial++; nRewriteDischarged++; return CV(0); } checks[lb].solver++; mustNot(bad, lb, "range out of bounds " + objDesc(id, o, 0) + " length " + show(n, 4)); return CV(0); }
  case N_SETRO: { u64 id = a[0].c >> 32; objs[id]->ro = conc(1, "flag"); return CV(0); }
  case N_UMAX: { Term *p = T(a[0], x.w), *q = T(a[1], x.w); return TV(mkIte(mkUlt(p, q), q, p)); } case N_UMIN: { Term *p = T(a[0], x.w), *q = T(a[1], x.w); return TV(mkIte(mkUlt(p, q), p, q)); }
  case N_SMAX: { Term *p = T(a[0], x.w), *q = T(a[1], x.w); return TV(mkIte(mkSlt(p, q), q, p)); } case N_SMIN: { Term *p = T(a[0], x.w), *q = T(a[1], x.w); return TV(mkIte(mkSlt(p, q), p, q)); }
  case N_ABS: { Term *p = T(a[0], x.w); return TV(mkIte(mkSlt(p, mkConst(0, x.w)), mkNeg(p), p)); }
  case N_BSWAP: { Term *p = T(a[0], x.w); vector<Term *> v; for (int i = x.w - 8; i >= 0; i -= 8) v.push_back(mkExtract(p, i, 8)); return TV(mkConcatV(v)); }
  case N_FSHL: case N_FSHR: { if (a[2].t) die("symbolic funnel shift"); u64 s = a[2].c % x.w; Term *p = T(a[0], x.w), *q = T(a[1], x.w); if (x.intr == N_FSHR) s = (x.w - s) % x.w; if (x.intr == N_FSHR && s == 0) return a[1]; if (s == 0) return a[0]; return TV(mkOr(mkShift(T_SHL, p, mkConst(s, x.w)), mkShift(T_LSHR, q, mkConst(x.w - s, x.w)))); }
  case N_CTPOP: { if (!a[0].t) return CV(__builtin_popcountll(a[0].c)); Term *r = mkConst(0, x.w); for (unsigned i = 0; i < x.w; i++) r = mkAdd(r, mkZext(mkExtract(a[0].t, i, 1), x.w)); return TV(r); }
  case N_EXPECT: return a[0];
  }
  die("intrinsic"); 
}
// ---------------------------------------------------------------- setup
static void initConst(Obj *o, u64 off, const L::Constant *c) {
  L::Type *t = c->getType(); u64 sz = DL->getTypeStoreSize(t);
  if (c->isNullValue()) { for (u64 i = 0; i < sz; i++) o->d[off + i] = CC(0); return; }
  if (L::isa<L::UndefValue>(c)) return;
  if (auto *s = L::dyn_cast<L::ConstantStruct>(c)) { auto *sl = DL->getStructLayout(L::cast<L::StructType>(t)); for (unsigned i = 0; i < s->getNumOperands(); i++) initConst(o, off + sl->getElementOffset(i), s->getOperand(i)); return; }
  if (auto *s = L::dyn_cast<L::ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(s->getType()->getElementType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initConst(o, off + i * es, s->getOperand(i)); return; }
  if (auto *s = L::dyn_cast<L::ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(s->getElementType()); for (unsigned i = 0; i < s->getNumElements(); i++) { u64 v = s->getElementAsInteger(i); for (u64 b = 0; b < es; b++) o->d[off + i * es + b] = CC(v >> (8 * b)); } return; }
  u64 v = constVal(c); for (u64 b = 0; b < sz; b++) o->d[off + b] = CC(b < 8 ? v >> (8 * b) : 0);
}
static void resetState() {
  for (Obj *o : objs) delete o; objs.clear(); objs.push_back(nullptr); gObj.clear(); jstack.clear(); pc.clear(); pcSet.clear(); symCnt.clear(); callStack.clear(); callSites.clear(); choicePos = 0;
  vector<L::GlobalVariable *> gs; for (auto &g : M->globals()) gs.push_back(&g);
  for (auto *g : gs) { if (g->getName().starts_with("llvm.")) continue; u64 sz = DL->getTypeAllocSize(g->getValueType()); Obj *o = newObj(sz, 0, "global:" + g->getName().str()); gObj[g] = o->id; }
  for (auto *g : gs) { auto it = gObj.find(g); if (it == gObj.end()) continue; Obj *o = objs[it->second]; if (g->hasInitializer()) { for (auto &c : o->d) c = CC(0); initConst(o, 0, g->getInitializer()); } if (g->isConstant()) o->ro = true; }
}
static void writeResult(const string &status, const string &detail, const string &label) {
  if (outFile.empty()) return; FILE *f = fopen(outFile.c_str(), "w"); if (!f) return;
  fprintf(f, "{\"status\":\"%s\",\"label\":\"%s\",\"detail\":\"%s\",\"wall\":%.3f,\"runs\":%lu,\"instructions\":%lu,\"forks\":%lu,\"symbolic_branches\":%lu,\"branches_decided_by_path_condition\":%lu,\"memory_accesses_checked\":%lu,\"symbolic_pointer_accesses\":%lu,\"terms\":%zu,", status.c_str(), jesc(label).c_str(), jesc(detail).c_str(), nowSec() - tStart, nRuns, totalInsns, nForks, nBranchSym, nBranchDecidedSyn, nMemChecks, nSymPtr, g_terms.size());
  fprintf(f, "\"solver\":{\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"goal_queries\":%lu,\"branch_queries\":%lu,\"time\":%.3f,\"max_time\":%.3f},\"discharged_by_rewriting\":%lu,", Q(&Solver::nQueries), Q(&Solver::nSat), Q(&Solver::nUnsat), Q(&Solver::nUnknown), Q(&Solver::nGoal), Q(&Solver::nBranch), (g_solver.time + g_abs.time), std::max(g_solver.maxTime, g_abs.maxTime), nRewriteDischarged);
  fprintf(f, "\"rewriting\":{\"steps_validated_on_fixed_assignments\":%lu,\"assignments\":%d,\"steps_proved_by_solver\":%lu,\"steps_no_answer\":%lu,\"audit_time\":%.2f},", g_fpChecks, (int)NFP, auProved, auUnknown, auTime);
  fprintf(f, "\"params\":{"); bool first = true; for (auto &p : params) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", p.first.c_str(), p.second); first = false; }
  fprintf(f, "},\"checks\":{"); first = true; for (auto &c : checks) { fprintf(f, "%s\"%s\":{\"n\":%lu,\"rewriting\":%lu,\"solver\":%lu,\"bytes\":%lu}", first ? "" : ",", jesc(c.first).c_str(), c.second.n, c.second.trivial, c.second.solver, c.second.bytes); first = false; }
  fprintf(f, "},\"reached\":{"); first = true; for (auto &c : reached) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(c.first).c_str(), c.second); first = false; }
  fprintf(f, "},\"functions\":{"); first = true; for (Func *fn : funcList) if (fn->calls && fn->repo) { fprintf(f, "%s\"%s:%s\":{\"calls\":%lu,\"instructions\":%lu}", first ? "" : ",", jesc(fn->file).c_str(), jesc(fn->name).c_str(), fn->calls, fn->insns); first = false; }
  fprintf(f, "}}\n"); fclose(f);
}
static string bcPath, entry = "harness", emitNative, repoDir = "/repo";
static void audit() { double t0 = nowSec(); if (!g_auditEvery) return; size_t n = g_audit.size(), step = n > auditMax ? n / auditMax : 1; for (size_t i = 0; i < n; i += step) { auto &s = g_audit[i]; int r = g_solver.proveStep(s); if (r == 0) auProved++; else if (r == 2) { auUnknown++; if (verbose) fprintf(stderr, "audit: no answer for op %s\n  a=%s\n  b=%s\n  r=%s\n", TOpName[s.op], show(s.a, 4).c_str(), s.b ? show(s.b, 4).c_str() : "", show(s.r, 4).c_str()); } else die(string("unsound rewriting step: ") + TOpName[s.op] + " " + show(s.a, 4) + " , " + (s.b ? show(s.b, 4) : "") + " -> " + show(s.r, 4)); if (nowSec() - t0 > 120) break; } auTime = nowSec() - t0; }
static void *mainThread(void *) {
  static L::LLVMContext ctx; L::SMDiagnostic err; auto mod = L::parseIRFile(bcPath, err, ctx); if (!mod) { err.print("xse", L::errs()); _exit(2); } M = mod.release(); DL = &M->getDataLayout();
  for (auto &F : *M) { Func *f = new Func; f->F = &F; f->name = F.getName().str(); if (auto *sp = F.getSubprogram()) { string d = sp->getDirectory().str(), fl = sp->getFilename().str(); string full = fl.size() && fl[0] == '/' ? fl : d + "/" + fl; f->file = full; if (full.compare(0, repoDir.size(), repoDir) == 0 && full.find("/verif/") == string::npos) { f->repo = true; f->file = full.substr(repoDir.size() + 1); } } funcs[&F] = f; funcList.push_back(f); }
  for (Func *f : funcList) if (f->name.compare(0, 11, "__override_") == 0) { L::Function *t = M->getFunction(f->name.substr(11)); if (t) funcs[t]->ovr = f; }
  if (!emitNative.empty()) { // same overrides, as a native module for replay
    for (Func *f : funcList) if (f->ovr) { vector<L::Use *> us; for (auto &u : f->F->uses()) { auto *I = L::dyn_cast<L::Instruction>(u.getUser()); if (I && I->getFunction() == f->ovr->F) continue; us.push_back(&u); } for (auto *u : us) u->set(f->ovr->F); }
    for (auto &F : *M) if (!F.isDeclaration()) F.addFnAttr(L::Attribute::SanitizeAddress);
    for (auto nm : {"SHA256", "SHA512"}) if (auto *F = M->getFunction(nm)) if (F->isDeclaration()) F->setName(string("xse_native_") + nm);
    std::error_code ec; L::raw_fd_ostream os(emitNative, ec); L::WriteBitcodeToFile(*M, os); os.flush(); _exit(0); }
  g_solver.init(); g_abs.abs = true; g_abs.init(); L::Function *E = M->getFunction(entry); if (!E) die("no entry function " + entry); Func *ef = funcs[E];
  for (;;) { resetState(); nRuns++; try { callFunc(ef, {}, nullptr); } catch (Dead &) {}
    if (choices.size() > choicePos) choices.resize(choicePos);
    while (!choices.empty() && choices.back().k + 1 >= choices.back().n) choices.pop_back();
    if (choices.empty()) break; choices.back().k++; }
  audit();
  printf("XSE-OK runs=%lu insns=%lu forks=%lu queries=%lu unknown=%lu solver=%.2fs wall=%.2fs terms=%zu\n", nRuns, totalInsns, nForks, Q(&Solver::nQueries), Q(&Solver::nUnknown), g_solver.time + g_abs.time, nowSec() - tStart, g_terms.size());
  if (verbose) { for (auto &c : checks) printf("  check %-40s n=%lu rewriting=%lu solver=%lu\n", c.first.c_str(), c.second.n, c.second.trivial, c.second.solver); for (auto &r : reached) printf("  reached %s %lu\n", r.first.c_str(), r.second); }
  writeResult("ok", "", ""); fflush(nullptr); _exit(0);
}
int main(int argc, char **argv) {
  tStart = nowSec();
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "-p") { string s = nx(); size_t e = s.find('='); params[s.substr(0, e)] = strtol(s.c_str() + e + 1, 0, 0); } else if (a == "-o") outFile = nx(); else if (a == "-m") modelFile = nx(); else if (a == "-e") entry = nx(); else if (a == "-v") verbose = true; else if (a == "--ufpush") g_ufpush = true; else if (a == "--audit") g_auditEvery = stoull(nx()); else if (a == "--audit-max") auditMax = stoull(nx()); else if (a == "--wordops") g_wordops = true; else if (a == "--concrete-hash") concreteHash = true; else if (a == "--emit-native") emitNative = nx(); else if (a == "--time") timeLimit = stod(nx()); else if (a == "--mem") memLimitMB = stoull(nx()); else if (a == "--goal-timeout") g_solver.goalTimeoutMs = stoul(nx()) * 1000; else if (a == "--ptr-max") ptrEnumMax = stoull(nx()); else if (a == "--repo") repoDir = nx(); else bcPath = a; }
  signal(SIGALRM, [](int) { static const char m[] = "XSE-ERROR time limit (hard)\n"; if (write(2, m, sizeof m - 1) < 0) {} _exit(2); }); alarm((unsigned)timeLimit + 10);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8ULL << 30); pthread_t th; if (pthread_create(&th, &at, mainThread, nullptr)) { pthread_attr_setstacksize(&at, 1ULL << 30); if (pthread_create(&th, &at, mainThread, nullptr)) { perror("pthread"); return 2; } } pthread_join(th, nullptr); return 2;
}
