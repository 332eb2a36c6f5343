#include "terms.hpp"
#include <algorithm>
#include <unistd.h>
const char *TOpName[] = {"const","var","add","mul","udiv","urem","sdiv","srem","and","or","xor","shl","lshr","ashr",
  "concat","extract","sext","ite","eq","ult","slt","happ","ufb"};
std::vector<VarInfo> g_vars; std::vector<std::string> g_names; std::vector<Term *> g_terms; bool g_ufpush = false, g_wordops = false;
static std::unordered_map<std::string, u32> nameMap;
u32 nameId(const std::string &s) { auto it = nameMap.find(s); if (it != nameMap.end()) return it->second;
  u32 i = g_names.size(); g_names.push_back(s); nameMap[s] = i; return i; }

// ---- arena + hash consing
static char *arena = nullptr; static size_t arenaLeft = 0;
static void *alloc(size_t n) { n = (n + 7) & ~7ull; if (n > arenaLeft) { size_t sz = 1 << 24; if (n > sz) sz = n; arena = (char *)malloc(sz); arenaLeft = sz; if (!arena) { fprintf(stderr, "oom\n"); exit(2);} }
  void *p = arena; arena += n; arenaLeft -= n; return p; }
static std::vector<Term *> tab(1 << 16, nullptr); static size_t tabN = 0;
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }
static void props(Term *t); static void fingerprint(Term *t);
static Term *intern(u8 op, u8 w, u64 c, Term *const *a, u32 n, u32 name = 0, u32 blen = 0) {
  u64 h = mix(mix(mix(op, w), c), ((u64)name << 32) | blen);
  for (u32 i = 0; i < n; i++) h = mix(h, a[i]->id);
  size_t m = tab.size() - 1, i = h & m;
  while (Term *t = tab[i]) {
    if (t->h == h && t->op == op && t->w == w && t->c == c && t->n == n && t->name == name && t->blen == blen &&
        (n == 0 || !memcmp(t->a, a, n * sizeof(Term *)))) return t;
    i = (i + 1) & m;
  }
  Term *t = (Term *)alloc(sizeof(Term) + n * sizeof(Term *));
  t->op = op; t->w = w; t->c = c; t->n = n; t->name = name; t->blen = blen; t->h = h; t->id = g_terms.size(); t->flags = 0; t->ctl = 0; t->pad = 0;
  if (n) memcpy(t->a, a, n * sizeof(Term *));
  g_terms.push_back(t); props(t); fingerprint(t);
  tab[i] = t; tabN++;
  if (tabN * 2 > tab.size()) { std::vector<Term *> nt(tab.size() * 2, nullptr); size_t nm = nt.size() - 1;
    for (Term *x : tab) if (x) { size_t j = x->h & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; } tab.swap(nt); }
  return t;
}
static inline int bitlen(u64 v) { return v ? 64 - __builtin_clzll(v) : 0; }
static void props(Term *t) {
  u64 M = wmask(t->w); t->lo = 0; t->hi = M; t->kz = ~M; t->ko = 0;
  for (u32 i = 0; i < t->n; i++) t->flags |= t->a[i]->flags;
  switch (t->op) {
  case T_CONST: t->lo = t->hi = t->c; t->kz = ~t->c; t->ko = t->c; t->ctl = 1; return;
  case T_VAR: t->flags |= TF_SYM; if (g_vars[t->c].uninit) t->flags |= TF_UNINIT; return;
  case T_HAPP: t->flags |= TF_UF; return;
  case T_UFB: t->flags |= TF_UF; return;
  case T_ADD: { // exact signed bounds of the sum; the value range follows when all of it lies in one period of 2^w
    __int128 lo = t->c, hi = t->c; for (u32 i = 0; i < t->n; i++) { Term *x = t->a[i]; __int128 k = 1; if (x->op == T_MUL && x->n == 1) { k = x->c; if (x->c >> (t->w - 1)) k -= (__int128)M + 1; x = x->a[0]; if (k > (1LL << 40) || k < -(1LL << 40)) { lo = -1; hi = (__int128)M + 1; break; } }
      if (k >= 0) { lo += k * x->lo; hi += k * x->hi; } else { lo += k * x->hi; hi += k * x->lo; } }
    __int128 P = (__int128)M + 1, ql = lo >= 0 ? lo / P : -((-lo + P - 1) / P), qh = hi >= 0 ? hi / P : -((-hi + P - 1) / P);
    if (ql == qh) { t->lo = (u64)(lo - ql * P); t->hi = (u64)(hi - qh * P); }
    int tz = t->c ? __builtin_ctzll(t->c) : 64; for (u32 i = 0; i < t->n; i++) { u64 nz = ~t->a[i]->kz; int z = nz ? __builtin_ctzll(nz) : 64; if (z < tz) tz = z; }
    if (tz > 0) t->kz |= wmask(tz);
    break; }
  case T_MUL: { if (t->n == 1) { __uint128_t hi = (__uint128_t)t->a[0]->hi * t->c; if (hi <= M) { t->lo = t->a[0]->lo * t->c; t->hi = (u64)hi; }
      int tz = t->c ? __builtin_ctzll(t->c) : 64; u64 nz = ~t->a[0]->kz; tz += nz ? __builtin_ctzll(nz) : 64; if (tz > 0) t->kz |= wmask(tz > 64 ? 64 : tz); }
    else { __uint128_t hi = (__uint128_t)t->a[0]->hi * t->a[1]->hi; if (hi <= M) { t->lo = t->a[0]->lo * t->a[1]->lo; t->hi = (u64)hi; } } break; }
  case T_UDIV: if (t->a[1]->lo) { t->lo = t->a[0]->lo / t->a[1]->hi; t->hi = t->a[0]->hi / t->a[1]->lo; } break;
  case T_UREM: if (t->a[1]->lo) { t->hi = std::min(t->a[0]->hi, t->a[1]->hi - 1); } break;
  case T_AND: { u64 kz = ~t->c, ko = t->c; for (u32 i = 0; i < t->n; i++) { kz |= t->a[i]->kz; ko &= t->a[i]->ko; if (t->a[i]->hi < t->hi) t->hi = t->a[i]->hi; } t->kz |= kz; t->ko = ko & M; if (t->c < t->hi) t->hi = t->c; break; }
  case T_OR: { u64 kz = ~t->c, ko = t->c; for (u32 i = 0; i < t->n; i++) { kz &= t->a[i]->kz; ko |= t->a[i]->ko; if (t->a[i]->lo > t->lo) t->lo = t->a[i]->lo; } t->kz |= kz; t->ko = ko & M; if (t->c > t->lo) t->lo = t->c; break; }
  case T_XOR: { u64 kn = ~0ULL, v = t->c; for (u32 i = 0; i < t->n; i++) { kn &= (t->a[i]->kz | t->a[i]->ko); v ^= t->a[i]->ko; } t->kz |= kn & ~v; t->ko |= kn & v & M; break; }
  case T_CONCAT: { u64 kz = 0, ko = 0, lo = 0, hi = 0; unsigned p = 0; for (u32 i = 0; i < t->n; i++) { Term *x = t->a[i]; u64 xm = wmask(x->w);
      kz |= (x->kz & xm) << p; ko |= (x->ko & xm) << p; lo |= x->lo << p; hi |= x->hi << p; p += x->w; }
    t->kz |= kz; t->ko |= ko; // range: top segment dominates
    { // exact when lower segments are full-range: combine min/max per segment
      t->lo = lo; t->hi = hi; } break; }
  case T_EXTRACT: { Term *x = t->a[0]; t->kz |= (x->kz >> t->c) & M; t->ko = (x->ko >> t->c) & M; if (t->c + t->w >= x->w) { t->lo = x->lo >> t->c; t->hi = x->hi >> t->c; } else if ((x->lo >> (t->c + t->w)) == (x->hi >> (t->c + t->w))) { t->lo = (x->lo >> t->c) & M; t->hi = (x->hi >> t->c) & M; } break; }
  case T_LSHR: t->hi = t->a[0]->hi; if (isC(t->a[0]) || true) { u64 s = t->a[1]->lo; t->hi = s >= 64 ? 0 : t->a[0]->hi >> s; } break;
  case T_SHL: { u64 nz = ~t->a[0]->kz; int z = nz ? __builtin_ctzll(nz) : 64; u64 s = t->a[1]->lo; u64 tz = z + (s > 64 ? 64 : s); if (tz) t->kz |= wmask(tz > 64 ? 64 : tz);
      if (t->a[1]->hi < 64) { __uint128_t h = (__uint128_t)t->a[0]->hi << t->a[1]->hi; if (h <= M) { t->hi = (u64)h; t->lo = t->a[0]->lo << t->a[1]->lo; } } break; }
  case T_ITE: { Term *x = t->a[1], *y = t->a[2]; t->lo = std::min(x->lo, y->lo); t->hi = std::max(x->hi, y->hi); t->kz = x->kz & y->kz; t->ko = x->ko & y->ko;
      if (x->ctl && y->ctl) t->ctl = x->ctl + y->ctl; break; }
  default: break;
  }
  // tighten range and known bits against each other
  u64 mx = ~t->kz & M; if (mx < t->hi) t->hi = mx; if (t->ko > t->lo) t->lo = t->ko; if (t->lo > t->hi) { t->lo = t->ko; t->hi = mx; }
  int bl = bitlen(t->hi); if (bl < 64) t->kz |= ~wmask(bl);
}
Term *mkConst(u64 v, unsigned w) { v &= wmask(w); static Term *small[65][257]; if (v <= 256 && w <= 64) { Term *&s = small[w][v]; if (!s) s = intern(T_CONST, w, v, nullptr, 0); return s; } return intern(T_CONST, w, v, nullptr, 0); }
Term *mkVar(const std::string &name, unsigned w, bool uninit) { u64 i = g_vars.size(); g_vars.push_back({name, (u8)w, uninit}); return intern(T_VAR, w, i, nullptr, 0); }

static inline bool cmpId(Term *a, Term *b) { return a->id < b->id; }
static Term *finish(Term *t) { if (t->op != T_CONST && t->lo == t->hi) return mkConst(t->lo, t->w); if (t->op != T_CONST && ((t->kz | t->ko) & wmask(t->w)) == wmask(t->w)) return mkConst(t->ko, t->w); return t; }

// push a unary/binary-with-constant operation into a small ITE tree of constants
static const u32 CTL_MAX = 40;
template <class F> static Term *mapTree(Term *t, F f) { if (isC(t)) return f(t); return mkIte(t->a[0], mapTree(t->a[1], f), mapTree(t->a[2], f)); }
static inline bool smallTree(Term *t) { return t->op == T_ITE && t->ctl && t->ctl <= CTL_MAX; }

// ---- ADD: linear normal form
// zext of a sum whose exact integer value (coefficients read as signed, constant sign chosen) fits its width
static bool sumConst(Term *t, __int128 &c) { __int128 P = (__int128)wmask(t->w) + 1; for (int s = 0; s < 2; s++) { __int128 lo = (__int128)t->c - (s ? P : 0), hi = lo; c = lo;
    for (u32 i = 0; i < t->n; i++) { Term *x = t->a[i]; __int128 k = 1; if (x->op == T_MUL && x->n == 1) { k = x->c; if (x->c >> (t->w - 1)) k -= P; x = x->a[0]; } if (k >= 0) { lo += k * x->lo; hi += k * x->hi; } else { lo += k * x->hi; hi += k * x->lo; } }
    if (lo >= 0 && hi < P) return true; } return false; }
static bool isZextSum(Term *t) { __int128 c; return t->op == T_CONCAT && t->n == 2 && t->a[0]->op == T_ADD && isC(t->a[1]) && t->a[1]->c == 0 && t->a[0]->w <= 24 && sumConst(t->a[0], c); }
static void addCollect(Term *t, u64 k, std::vector<std::pair<Term *, u64>> &v, u64 &c);
static void addCollectSum(Term *t, u64 k, std::vector<std::pair<Term *, u64>> &v, u64 &c) { Term *s = t->a[0]; u64 M = wmask(t->w); __int128 sc = 0, P = (__int128)wmask(s->w) + 1; sumConst(s, sc); c = (c + k * (u64)(i64)sc) & M;
  for (u32 i = 0; i < s->n; i++) { Term *x = s->a[i]; __int128 q = 1; if (x->op == T_MUL && x->n == 1) { q = x->c; if (x->c >> (s->w - 1)) q -= P; x = x->a[0]; } addCollect(mkZext(x, t->w), (k * (u64)(i64)q) & M, v, c); } }
static void addCollect(Term *t, u64 k, std::vector<std::pair<Term *, u64>> &v, u64 &c) {
  u64 M = wmask(t->w);
  if (isC(t)) { c = (c + k * t->c) & M; return; }
  if (t->op == T_ADD) { c = (c + k * t->c) & M; for (u32 i = 0; i < t->n; i++) addCollect(t->a[i], k, v, c); return; }
  if (t->op == T_MUL && t->n == 1) { if (isZextSum(t->a[0])) { addCollectSum(t->a[0], (k * t->c) & M, v, c); return; } v.push_back({t->a[0], (k * t->c) & M}); return; }
  if (isZextSum(t)) { addCollectSum(t, k, v, c); return; }
  if (t->op == T_CONCAT && t->n <= 4) { u64 cc = 0; unsigned p = 0; for (u32 i = 0; i < t->n; i++) { if (isC(t->a[i])) cc |= t->a[i]->c << p; p += t->a[i]->w; } // the constant pieces belong to the sum's constant
    if (cc) { std::vector<Term *> ps; for (u32 i = 0; i < t->n; i++) ps.push_back(isC(t->a[i]) ? mkConst(0, t->a[i]->w) : t->a[i]); c = (c + k * cc) & M; addCollect(mkConcatV(ps), k, v, c); return; } }
  v.push_back({t, k & M});
}
static Term *mkMulC(Term *t, u64 k);
static Term *addBuild(std::vector<std::pair<Term *, u64>> &v, u64 c, unsigned w) {
  u64 M = wmask(w);
  std::sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
  std::vector<Term *> args; size_t i = 0;
  while (i < v.size()) { size_t j = i; u64 k = 0; while (j < v.size() && v[j].first == v[i].first) k = (k + v[j++].second) & M;
    if (k) { if (k == 1) args.push_back(v[i].first); else { Term *a[1] = {v[i].first}; args.push_back(intern(T_MUL, w, k, a, 1)); } } i = j; }
  if (args.empty()) return mkConst(c, w);
  if (args.size() == 1 && c == 0) return args[0]; // mul-by-const stays
  // disjoint bits => concat-like OR
  if (args.size() <= 4) { u64 used = c; bool dis = true; for (Term *a : args) { u64 nz = ~a->kz & M; if (nz & used) { dis = false; break; } used |= nz; }
    if (dis) { Term *r = mkConst(c, w); bool ok = true; for (Term *a : args) if (a->op == T_MUL) ok = false; if (ok) { for (Term *a : args) r = mkOr(r, a); return r; } } }
  Term *t = finish(intern(T_ADD, w, c, args.data(), args.size()));
  if (t->op == T_ADD && t->n >= 8) { unsigned k = bitlen(t->hi); if (k < w && k <= 24) { bool all = true; for (u32 i = 0; i < t->n; i++) { Term *x = t->a[i]; if (x->op == T_MUL && x->n == 1) x = x->a[0]; if (!(x->op == T_CONCAT || x->op == T_SEXT)) all = false; }
    if (all) { Term *r = mkConst(c, k); for (Term *x : args) r = mkAdd(r, x->op == T_MUL && x->n == 1 ? mkMulC(mkExtract(x->a[0], 0, k), x->c) : mkExtract(x, 0, k)); return mkZext(r, w); } } }
  return t;
}
static Term *mkAdd_(Term *a, Term *b) {
  if (isC(a) && isC(b)) return mkConst(a->c + b->c, a->w);
  if (isC(a) && a->c == 0) return b; if (isC(b) && b->c == 0) return a;
  if (a->w == 1) return mkXor(a, b);
  if (isC(b) && smallTree(a)) return mapTree(a, [&](Term *x) { return mkConst(x->c + b->c, a->w); });
  if (isC(a) && smallTree(b)) return mapTree(b, [&](Term *x) { return mkConst(x->c + a->c, a->w); });
  std::vector<std::pair<Term *, u64>> v; u64 c = 0; addCollect(a, 1, v, c); addCollect(b, 1, v, c); return addBuild(v, c, a->w);
}
static Term *mkMulC(Term *t, u64 k) {
  k &= wmask(t->w);
  if (k == 0) return mkConst(0, t->w); if (k == 1) return t; if (isC(t)) return mkConst(t->c * k, t->w);
  if (smallTree(t)) return mapTree(t, [&](Term *x) { return mkConst(x->c * k, t->w); });
  if ((k & (k - 1)) == 0) return mkShift(T_SHL, t, mkConst(__builtin_ctzll(k), t->w));
  std::vector<std::pair<Term *, u64>> v; u64 c = 0; addCollect(t, k, v, c); return addBuild(v, c, t->w);
}
static Term *mkNeg_(Term *a) { if (isC(a)) return mkConst(-a->c, a->w); if (a->w == 1) return a; std::vector<std::pair<Term *, u64>> v; u64 c = 0; addCollect(a, wmask(a->w), v, c); return addBuild(v, c, a->w); }
static Term *mkSub_(Term *a, Term *b) {
  if (isC(b)) return mkAdd(a, mkConst(-b->c, b->w)); if (a == b) return mkConst(0, a->w); if (a->w == 1) return mkXor(a, b);
  if (isC(a) && smallTree(b)) return mapTree(b, [&](Term *x) { return mkConst(a->c - x->c, a->w); });
  std::vector<std::pair<Term *, u64>> v; u64 c = 0; addCollect(a, 1, v, c); addCollect(b, wmask(a->w), v, c); return addBuild(v, c, a->w); }
static Term *mkMul_(Term *a, Term *b) { if (isC(b)) return mkMulC(a, b->c); if (isC(a)) return mkMulC(b, a->c); if (a->w == 1) return mkAnd(a, b);
  if (a->op == T_MUL && a->n == 1) return mkMulC(mkMul(a->a[0], b), a->c);
  if (b->op == T_MUL && b->n == 1) return mkMulC(mkMul(a, b->a[0]), b->c);
  if (smallTree(a) && a->ctl <= 8) return mkIte(a->a[0], mkMul(a->a[1], b), mkMul(a->a[2], b));
  if (smallTree(b) && b->ctl <= 8) return mkIte(b->a[0], mkMul(a, b->a[1]), mkMul(a, b->a[2]));
  if (a->id > b->id) std::swap(a, b); Term *x[2] = {a, b}; return finish(intern(T_MUL, a->w, 1, x, 2)); }
static u64 sx(u64 v, unsigned w) { return w >= 64 ? v : (u64)(((i64)(v << (64 - w))) >> (64 - w)); }
static u64 divEval(TOp op, u64 a, u64 b, unsigned w) { // SMT-LIB semantics on zero
  u64 M = wmask(w);
  switch (op) { case T_UDIV: return b ? a / b : M; case T_UREM: return b ? a % b : a;
  case T_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (u64)(-(u64)x) & M; return (u64)(x / y) & M; }
  case T_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & M; } default: abort(); } }
static Term *mkDivOp_(TOp op, Term *a, Term *b) {
  if (isC(a) && isC(b)) return mkConst(divEval(op, a->c, b->c, a->w), a->w);
  u64 sb = 1ULL << (a->w - 1);
  if ((op == T_SDIV || op == T_SREM) && (a->kz & sb) && (b->kz & sb)) op = op == T_SDIV ? T_UDIV : T_UREM;
  if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) { int k = __builtin_ctzll(b->c);
    if (op == T_UDIV) return mkShift(T_LSHR, a, mkConst(k, a->w)); if (op == T_UREM) return mkAnd(a, mkConst(b->c - 1, a->w)); }
  if (isC(b) && smallTree(a)) return mapTree(a, [&](Term *x) { return mkConst(divEval(op, x->c, b->c, a->w), a->w); });
  if (isC(a) && smallTree(b)) return mapTree(b, [&](Term *x) { return mkConst(divEval(op, a->c, x->c, a->w), a->w); });
  if (smallTree(a) && smallTree(b) && a->ctl * b->ctl <= 400) return mkIte(b->a[0], mkDivOp(op, a, b->a[1]), mkDivOp(op, a, b->a[2]));
  if ((op == T_UDIV) && b->lo > a->hi) return mkConst(0, a->w); if (op == T_UREM && b->lo > a->hi) return a;
  Term *x[2] = {a, b}; return finish(intern(op, a->w, 0, x, 2)); }

// ---- bitwise
static u64 bitEval(u8 op, u64 a, u64 b) { return op == T_AND ? a & b : op == T_OR ? a | b : a ^ b; }
static Term *mkBit(u8 op, Term *a, Term *b) { return op == T_AND ? mkAnd(a, b) : op == T_OR ? mkOr(a, b) : mkXor(a, b); }
// cut a at the boundaries given, apply op segmentwise
static void bounds(Term *t, std::vector<unsigned> &b) { if (t->op == T_CONCAT) { unsigned p = 0; for (u32 i = 0; i < t->n; i++) { b.push_back(p); p += t->a[i]->w; } } else b.push_back(0); }
static void constRuns(u64 c, unsigned w, std::vector<unsigned> &b) { b.push_back(0); for (unsigned i = 1; i < w; i++) if (((c >> i) & 1) != ((c >> (i - 1)) & 1)) b.push_back(i); }
static Term *segmented(u8 op, Term *a, Term *b, std::vector<unsigned> &bs) {
  std::sort(bs.begin(), bs.end()); bs.erase(std::unique(bs.begin(), bs.end()), bs.end());
  std::vector<Term *> segs; for (size_t i = 0; i < bs.size(); i++) { unsigned lo = bs[i], hi = i + 1 < bs.size() ? bs[i + 1] : a->w; segs.push_back(mkBit(op, mkExtract(a, lo, hi - lo), mkExtract(b, lo, hi - lo))); }
  return mkConcatV(segs);
}
// a rotation x <<< k: kept whole, otherwise mixing rotations and bit operations would split words into bits
static inline bool isRot(Term *t) { return t->op == T_CONCAT && t->n == 2 && t->a[0]->op == T_EXTRACT && t->a[1]->op == T_EXTRACT && t->a[0]->a[0] == t->a[1]->a[0] && t->a[0]->a[0]->w == t->w && t->a[1]->c == 0; }
// concatenations that an extraction may be pushed into: no segment is itself a piece of a compound word
static bool leafy(Term *t) { if (t->op == T_SEXT) return true; if (t->op != T_CONCAT) return false; for (u32 i = 0; i < t->n; i++) if (t->a[i]->op == T_EXTRACT && t->a[i]->a[0]->op != T_VAR) return false; return true; }
static bool sameBounds(Term *a, Term *b) { if (a->op != T_CONCAT || b->op != T_CONCAT || a->n != b->n) return false; if (isRot(a) || isRot(b)) return false; for (u32 i = 0; i < a->n; i++) if (a->a[i]->w != b->a[i]->w) return false; return true; }
static Term *naryBit(u8 op, Term *a, Term *b) {
  unsigned w = a->w; u64 M = wmask(w); u64 c = op == T_AND ? M : 0; std::vector<Term *> v;
  for (Term *t : {a, b}) { if (isC(t)) c = bitEval(op, c, t->c); else if (t->op == op) { c = bitEval(op, c, t->c); v.insert(v.end(), t->a, t->a + t->n); } else v.push_back(t); }
  std::sort(v.begin(), v.end(), cmpId);
  std::vector<Term *> r;
  if (op == T_XOR) { for (size_t i = 0; i < v.size();) { size_t j = i; while (j < v.size() && v[j] == v[i]) j++; if ((j - i) & 1) r.push_back(v[i]); i = j; } }
  else { for (size_t i = 0; i < v.size(); i++) if (!i || v[i] != v[i - 1]) r.push_back(v[i]);
    if (op == T_AND && c == 0) return mkConst(0, w); if (op == T_OR && c == M) return mkConst(M, w);
    for (Term *t : r) if (t->op == T_XOR && t->n == 1 && t->c == M) { if (std::binary_search(r.begin(), r.end(), t->a[0], cmpId)) return mkConst(op == T_AND ? 0 : M, w); }
      else if (t->op == T_XOR && t->c == M && r.size() <= 8) { // complement of an n-ary xor
        Term *nt = mkNot(t); if (std::binary_search(r.begin(), r.end(), nt, cmpId)) return mkConst(op == T_AND ? 0 : M, w); }
    if (op == T_AND && w == 1 && r.size() <= 400) for (size_t i = 0; i < r.size(); i++) { Term *t = r[i]; if (!(t->op == T_XOR && t->n == 1 && t->c == 1 && t->a[0]->op == T_AND && t->a[0]->n <= 200)) continue; // unit propagation into a negated conjunction
      Term *q = t->a[0]; size_t in = 0; bool sat = false; std::vector<Term *> rest; for (u32 k = 0; k < q->n && !sat; k++) { Term *y = q->a[k]; if (std::binary_search(r.begin(), r.end(), y, cmpId)) in++; else { rest.push_back(y); if (std::binary_search(r.begin(), r.end(), mkNot(y), cmpId)) sat = true; } }
      if (!sat && !in) continue; if (!sat && rest.empty()) return mkConst(0, 1);
      Term *o = tTrue(); for (size_t k = 0; k < r.size(); k++) if (k != i) o = mkAnd(o, r[k]); if (!sat) { Term *x = tTrue(); for (Term *y : rest) x = mkAnd(x, y); o = mkAnd(o, mkNot(x)); } return o; }
  }
  if (r.empty()) return mkConst(c, w);
  if (r.size() == 1 && c == (op == T_AND ? M : 0)) return r[0];
  if (op == T_XOR && w == 1 && r.size() == 1 && c == 1) {} // plain negation
  return finish(intern(op, w, c, r.data(), r.size()));
}
static Term *mkAnd_(Term *a, Term *b) {
  if (isC(a)) std::swap(a, b); unsigned w = a->w; u64 M = wmask(w);
  if (isC(b)) { if (isC(a)) return mkConst(a->c & b->c, w); if (b->c == M) return a; if (b->c == 0) return b; 
    if ((~a->kz & M & ~b->c) == 0) return a; // mask keeps every possibly-set bit
    if (smallTree(a)) return mapTree(a, [&](Term *x) { return mkConst(x->c & b->c, w); });
    std::vector<unsigned> bs; constRuns(b->c, w, bs); if (bs.size() <= 6 && !g_wordops) return segmented(T_AND, a, b, bs); }
  if (a == b) return a;
  if ((~a->kz & ~b->kz & M) == 0) return mkConst(0, w);
  if (w > 1 && !g_wordops && sameBounds(a, b)) { std::vector<unsigned> bs; bounds(a, bs); return segmented(T_AND, a, b, bs); }
  return naryBit(T_AND, a, b);
}
static Term *mkOr_(Term *a, Term *b) {
  if (isC(a)) std::swap(a, b); unsigned w = a->w; u64 M = wmask(w);
  if (isC(b)) { if (isC(a)) return mkConst(a->c | b->c, w); if (b->c == 0) return a; if (b->c == M) return b; 
    if (smallTree(a)) return mapTree(a, [&](Term *x) { return mkConst(x->c | b->c, w); }); }
  if (a == b) return a;
  if (w == 1) return mkNot(mkAnd(mkNot(a), mkNot(b)));
  u64 na = ~a->kz & M, nb = ~b->kz & M;
  if (na == 0) return b; if (nb == 0) return a;
  if ((na & nb) == 0) { // disjoint: build a concat if each operand occupies few contiguous runs
    std::vector<unsigned> bs; constRuns(na, w, bs); constRuns(nb, w, bs); std::sort(bs.begin(), bs.end()); bs.erase(std::unique(bs.begin(), bs.end()), bs.end());
    if (bs.size() <= 17) { std::vector<Term *> segs; for (size_t i = 0; i < bs.size(); i++) { unsigned lo = bs[i], hi = i + 1 < bs.size() ? bs[i + 1] : w; u64 m = wmask(hi - lo);
        if (((na >> lo) & m)) segs.push_back(mkExtract(a, lo, hi - lo)); else if ((nb >> lo) & m) segs.push_back(mkExtract(b, lo, hi - lo)); else segs.push_back(mkConst(0, hi - lo)); }
      return mkConcatV(segs); } }
  if (isC(b)) { std::vector<unsigned> bs; constRuns(b->c, w, bs); if (bs.size() <= 6 && !g_wordops) return segmented(T_OR, a, b, bs); }
  if (!g_wordops && sameBounds(a, b)) { std::vector<unsigned> bs; bounds(a, bs); return segmented(T_OR, a, b, bs); }
  return naryBit(T_OR, a, b);
}
static Term *mkXor_(Term *a, Term *b) {
  if (isC(a)) std::swap(a, b); unsigned w = a->w; u64 M = wmask(w);
  if (isC(b)) { if (isC(a)) return mkConst(a->c ^ b->c, w); if (b->c == 0) return a; 
    if (smallTree(a)) return mapTree(a, [&](Term *x) { return mkConst(x->c ^ b->c, w); });
    if (a->op == T_CONCAT && a->n <= 16 && !g_wordops) { bool hasC = false; for (u32 i = 0; i < a->n; i++) if (isC(a->a[i])) hasC = true; if (hasC) { std::vector<unsigned> bs; bounds(a, bs); return segmented(T_XOR, a, b, bs); } } }
  if (a == b) return mkConst(0, w);
  if (w > 1) { u64 na = ~a->kz & M, nb = ~b->kz & M; if (!isC(b) && (na & nb) == 0) return mkOr(a, b);
    if (!g_wordops && sameBounds(a, b) && (isC(a->a[a->n-1]) && isC(b->a[b->n-1]))) { std::vector<unsigned> bs; bounds(a, bs); return segmented(T_XOR, a, b, bs); } }
  return naryBit(T_XOR, a, b);
}
Term *mkNot(Term *a) { return mkXor(a, mkConst(wmask(a->w), a->w)); }

static u64 shEval(TOp op, u64 a, u64 s, unsigned w) { u64 M = wmask(w); if (op == T_SHL) return s >= w ? 0 : (a << s) & M; if (op == T_LSHR) return s >= w ? 0 : a >> s; if (s >= w) s = w - 1; return (u64)((i64)sx(a, w) >> s) & M; }
static Term *mkShift_(TOp op, Term *a, Term *b) {
  unsigned w = a->w;
  if (isC(b)) { u64 s = b->c; if (isC(a)) return mkConst(shEval(op, a->c, s, w), w); if (s == 0) return a;
    if (smallTree(a)) return mapTree(a, [&](Term *x) { return mkConst(shEval(op, x->c, s, w), w); });
    if (op == T_ASHR && (a->kz >> (w - 1) & 1)) op = T_LSHR;
    if (op == T_SHL) { if (s >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
    if (op == T_LSHR) { if (s >= w) return mkConst(0, w); return mkZext(mkExtract(a, s, w - s), w); }
    if (s >= w) s = w - 1; return mkSext(mkExtract(a, s, w - s), w); }
  if (isC(a) && a->c == 0) return a;
  if (isC(a) && smallTree(b)) return mapTree(b, [&](Term *x) { return mkConst(shEval(op, a->c, x->c, w), w); });
  if (smallTree(b) && b->ctl <= 16) return mkIte(b->a[0], mkShift(op, a, b->a[1]), mkShift(op, a, b->a[2]));
  if (smallTree(a) && a->ctl <= 16) return mkIte(a->a[0], mkShift(op, a->a[1], b), mkShift(op, a->a[2], b));
  if (op == T_ASHR && (a->kz >> (w - 1) & 1)) op = T_LSHR;
  Term *x[2] = {a, b}; return finish(intern(op, w, 0, x, 2));
}

// ---- concat / extract
Term *mkConcat(Term *hi, Term *lo) { return mkConcatV({lo, hi}); }
static bool fuse(Term *lo, Term *hi, Term *&out) { // adjacent segments
  if (isC(lo) && isC(hi)) { out = mkConst(lo->c | (hi->c << lo->w), lo->w + hi->w); return true; }
  Term *x = nullptr, *y = nullptr; u64 p = 0, q = 0;
  if (lo->op == T_EXTRACT) { x = lo->a[0]; p = lo->c + lo->w; } else { return false; }
  if (hi->op == T_EXTRACT) { y = hi->a[0]; q = hi->c; }
  if (x && x == y && p == q) { out = mkExtract(x, lo->c, lo->w + hi->w); return true; }
  return false;
}
static Term *mkConcatV_(const std::vector<Term *> &in) {
  std::vector<Term *> v; v.reserve(in.size());
  std::function<void(Term *)> push = [&](Term *t) {
    if (t->op == T_CONCAT) { for (u32 i = 0; i < t->n; i++) push(t->a[i]); return; }
    Term *f; while (!v.empty() && fuse(v.back(), t, f)) { v.pop_back(); t = f; if (t->op == T_CONCAT) { Term *tt = t; for (u32 i = 0; i < tt->n; i++) push(tt->a[i]); return; } }
    v.push_back(t); };
  for (Term *t : in) push(t);
  if (v.size() == 1) return v[0];
  unsigned w = 0; for (Term *t : v) w += t->w;
  // sign extension pattern is kept as SEXT elsewhere; hoist a common ITE condition
  Term *c = nullptr; bool ok = true; 
  for (Term *t : v) { if (isC(t)) continue; if (t->op == T_ITE && (!c || t->a[0] == c)) c = t->a[0]; else { ok = false; break; } }
  if (ok && c) { std::vector<Term *> x, y; for (Term *t : v) if (isC(t)) { x.push_back(t); y.push_back(t); } else { x.push_back(t->a[1]); y.push_back(t->a[2]); } return mkIte(c, mkConcatV(x), mkConcatV(y)); }
  return finish(intern(T_CONCAT, w, 0, v.data(), v.size()));
}
static Term *mkExtract_(Term *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  u64 M = wmask(w); if (((a->kz >> lo) & M) == M) return mkConst(0, w);
  { u64 kz = (a->kz >> lo) & M, ko = (a->ko >> lo) & M; if ((kz | ko) == M) return mkConst(ko, w); }
  switch (a->op) {
  case T_EXTRACT: return mkExtract(a->a[0], a->c + lo, w);
  case T_CONCAT: { unsigned p = 0; std::vector<Term *> v; for (u32 i = 0; i < a->n; i++) { Term *s = a->a[i]; unsigned q = p + s->w; unsigned b = std::max(lo, p), e = std::min(lo + w, q); if (b < e) v.push_back(mkExtract(s, b - p, e - b)); p = q; } return mkConcatV(v); }
  case T_ITE: return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
  case T_SEXT: { Term *x = a->a[0]; if (lo + w <= x->w) return mkExtract(x, lo, w); if (lo < x->w) { if (lo == 0) return mkSext(x, w); return mkSext(mkExtract(x, lo, x->w - lo), w); } return mkSext(mkExtract(x, x->w - 1, 1), w); }
  case T_AND: case T_OR: case T_XOR: { if (g_wordops) break; bool all = true; for (u32 i = 0; i < a->n; i++) { if (!leafy(a->a[i])) { all = false; break; } } 
      if (all || w == 1 || (a->n == 1 && a->op == T_XOR && (a->a[0]->op != T_CONCAT || leafy(a->a[0])))) { Term *r = mkConst(a->c >> lo, w); for (u32 i = 0; i < a->n; i++) r = mkBit(a->op, r, mkExtract(a->a[i], lo, w)); return r; } break; }
  case T_ADD: if (lo == 0) { bool all = true; for (u32 i = 0; i < a->n; i++) { Term *x = a->a[i]; if (x->op == T_MUL && x->n == 1) x = x->a[0]; if (!(x->op == T_CONCAT || x->op == T_SEXT)) all = false; } if (all) { Term *r = mkConst(a->c, w); for (u32 i = 0; i < a->n; i++) r = mkAdd(r, mkExtract(a->a[i], 0, w)); return r; } } break;
  case T_MUL: if (lo == 0 && a->n == 1) { Term *x = a->a[0]; if (x->op == T_CONCAT || x->op == T_SEXT) return mkMulC(mkExtract(x, 0, w), a->c); } break;
  default: break;
  }
  Term *x[1] = {a}; return finish(intern(T_EXTRACT, w, lo, x, 1));
}
Term *mkZext(Term *a, unsigned w) { if (a->w == w) return a; return mkConcatV({a, mkConst(0, w - a->w)}); }
static Term *mkSext_(Term *a, unsigned w) { if (a->w == w) return a; if (isC(a)) return mkConst(sx(a->c, a->w), w); u64 sb = 1ULL << (a->w - 1); if (a->kz & sb) return mkZext(a, w);
  if (a->op == T_ITE) return mkIte(a->a[0], mkSext(a->a[1], w), mkSext(a->a[2], w));
  if (a->op == T_SEXT) return mkSext(a->a[0], w);
  Term *x[1] = {a}; return finish(intern(T_SEXT, w, 0, x, 1)); }

// ---- ite
static bool eqConst(Term *c, Term *&x, u64 &k) { if (c->op == T_EQ && isC(c->a[1])) { x = c->a[0]; k = c->a[1]->c; return true; } return false; }
static Term *mkIte_(Term *c, Term *a, Term *b) {
  if (isC(c)) return c->c ? a : b; if (a == b) return a;
  if (c->op == T_XOR && (c->c & 1)) { Term *nc = mkNot(c); return mkIte(nc, b, a); }
  if (a->op == T_ITE && a->a[0] == c) a = a->a[1]; if (b->op == T_ITE && b->a[0] == c) b = b->a[2]; if (a == b) return a;
  unsigned w = a->w;
  if (w == 1) {
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b); if (b == c) return mkAnd(c, a);
    if (mkNot(a) == b) return mkXor(c, b);
  }
  // nested with implied conditions: c is (x==k); inner chain over the same x
  Term *x; u64 k; 
  if (eqConst(c, x, k)) {
    if (a->op == T_ITE) { Term *y; u64 k2; if (eqConst(a->a[0], y, k2) && y == x) return mkIte(c, k2 == k ? a->a[1] : a->a[2], b); }
    if (b->op == T_ITE) { Term *y; u64 k2; if (eqConst(b->a[0], y, k2) && y == x && k2 > k) return mkIte(b->a[0], b->a[1], mkIte(c, a, b->a[2])); }
  }
  // factor: ite(c, ite(d,p,q), q) -> ite(c&d, p, q)
  if (a->op == T_ITE && a->a[2] == b) return mkIte(mkAnd(c, a->a[0]), a->a[1], b);
  if (a->op == T_ITE && a->a[1] == b) return mkIte(mkAnd(c, mkNot(a->a[0])), a->a[2], b);
  if (a->op == T_CONCAT && b->op == T_CONCAT && a->n == b->n && w <= 64) { // share equal segments
    bool sb = true; unsigned same = 0; for (u32 i = 0; i < a->n; i++) { if (a->a[i]->w != b->a[i]->w) { sb = false; break; } if (a->a[i] == b->a[i] && !isC(a->a[i])) same++; }
    if (sb && same) { std::vector<Term *> v; for (u32 i = 0; i < a->n; i++) v.push_back(mkIte(c, a->a[i], b->a[i])); return mkConcatV(v); } }
  if (g_ufpush && a->op == T_UFB && b->op == T_UFB && a->c == b->c) { Term *p = a->a[0], *q = b->a[0];
    if (p->name == q->name && p->blen == q->blen && p->n == q->n) {
      static std::unordered_map<u64, std::vector<std::pair<std::pair<Term *, Term *>, std::pair<Term *, Term *>>>> memo; // (p,q)->(c, app)
      auto &m = memo[((u64)p->id << 32) | q->id]; for (auto &e : m) if (e.second.first == c) return mkUfb(e.second.second, a->c);
      std::vector<Term *> args; for (u32 i = 0; i < p->n; i++) args.push_back(mkIte(c, p->a[i], q->a[i]));
      Term *app = mkHApp(p->name, args, p->blen); memo[((u64)p->id << 32) | q->id].push_back({{p, q}, {c, app}}); return mkUfb(app, a->c); } }
  Term *v[3] = {c, a, b}; return finish(intern(T_ITE, w, 0, v, 3));
}

// ---- comparisons
static Term *mkEq_(Term *a, Term *b) {
  if (a == b) return tTrue(); if (isC(a)) std::swap(a, b); unsigned w = a->w; u64 M = wmask(w);
  if (isC(a)) return mkConst(a->c == b->c, 1);
  if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); return mkNot(mkXor(a, b)); }
  if (a->lo > b->hi || b->lo > a->hi) return tFalse();
  if (((a->kz & b->ko) | (a->ko & b->kz)) & M) return tFalse();
  if (isC(b)) {
    switch (a->op) {
    case T_ADD: if (a->n == 1 && a->c) { return mkEq(a->a[0], mkConst(b->c - a->c, w)); } break;
    case T_XOR: if (a->c) { Term *x = mkXor(a, mkConst(a->c, w)); return mkEq(x, mkConst(b->c ^ a->c, w)); } break;
    case T_MUL: if (a->n == 1 && (a->c & 1)) { u64 inv = 1; for (int i = 0; i < 6; i++) inv *= 2 - a->c * inv; return mkEq(a->a[0], mkConst(b->c * inv, w)); } break;
    case T_CONCAT: { Term *r = tTrue(); unsigned p = 0; for (u32 i = 0; i < a->n && r != tFalse(); i++) { Term *s = a->a[i]; r = mkAnd(r, mkEq(s, mkConst(b->c >> p, s->w))); p += s->w; } return r; }
    case T_SEXT: { Term *x = a->a[0]; if (sx(b->c & wmask(x->w), x->w) != sx(b->c, w)) return tFalse(); return mkEq(x, mkConst(b->c, x->w)); }
    case T_ITE: if (a->ctl && a->ctl <= 4096) return mkIte(a->a[0], mkEq(a->a[1], b), mkEq(a->a[2], b));
      if (isC(a->a[1]) || isC(a->a[2])) return mkIte(a->a[0], mkEq(a->a[1], b), mkEq(a->a[2], b)); break;
    default: break;
    }
  } else {
    if (sameBounds(a, b)) { Term *r = tTrue(); for (u32 i = 0; i < a->n && r != tFalse(); i++) r = mkAnd(r, mkEq(a->a[i], b->a[i])); return r; }
    if (a->op == T_ADD || b->op == T_ADD || a->op == T_MUL || b->op == T_MUL) { Term *d = mkSub(a, b); if (isC(d)) return mkConst(d->c == 0, 1);
      if (d->op == T_ADD && d->n == 1 && d->a[0]->op != T_MUL) return mkEq(d->a[0], mkConst(-d->c, w)); }
    if (a->op == T_ITE && b->op == T_ITE && a->a[0] == b->a[0]) return mkIte(a->a[0], mkEq(a->a[1], b->a[1]), mkEq(a->a[2], b->a[2]));
    if (a->op == T_ITE && (a->a[1] == b || a->a[2] == b)) return a->a[1] == b ? mkOr(a->a[0], mkEq(a->a[2], b)) : mkOr(mkNot(a->a[0]), mkEq(a->a[1], b));
    if (b->op == T_ITE && (b->a[1] == a || b->a[2] == a)) return mkEq(b, a);
    if (a->id > b->id) std::swap(a, b);
  }
  Term *x[2] = {a, b}; return finish(intern(T_EQ, 1, 0, x, 2));
}
static Term *mkUlt_(Term *a, Term *b) {
  unsigned w = a->w;
  if (a == b) return tFalse(); if (a->hi < b->lo) return tTrue(); if (a->lo >= b->hi) return tFalse();
  if (isC(a) && isC(b)) return mkConst(a->c < b->c, 1);
  if (w == 1) return mkAnd(mkNot(a), b);
  if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, w));
  if (isC(a) && a->c == 0) return mkNot(mkEq(b, a));
  if (isC(b) && b->c == wmask(w)) return mkNot(mkEq(a, b));
  if (isC(b) && b->c == a->hi && a->hi) { return mkNot(mkEq(a, b)); }
  if (isC(a) && a->c == wmask(w) - 1) return mkEq(b, mkConst(wmask(w), w));
  if (isC(b) && a->op == T_ITE && a->ctl && a->ctl <= 4096) return mkIte(a->a[0], mkUlt(a->a[1], b), mkUlt(a->a[2], b));
  if (isC(a) && b->op == T_ITE && b->ctl && b->ctl <= 4096) return mkIte(b->a[0], mkUlt(a, b->a[1]), mkUlt(a, b->a[2]));
  { // one symbolic side x + k or k - x that cannot wrap: isolate x
    u64 M = wmask(w);
    auto lin = [&](Term *t, Term *&x, u64 &k, bool &neg) { if (t->op != T_ADD || t->n != 1) return false; x = t->a[0]; neg = false; k = t->c;
      if (x->op == T_MUL && x->n == 1) { if (x->c != M) return false; x = x->a[0]; neg = true; return x->hi <= k; }
      if (k >> (w - 1)) { u64 m = (-k) & M; return x->lo >= m; } return x->hi <= M - k; };
    Term *x; u64 k; bool neg;
    if (isC(b) && lin(a, x, k, neg)) { if (neg) { if (b->c > k) return tTrue(); return mkUlt(mkConst(k - b->c, w), x); } // k - x < c  <=>  k - c < x
      u64 r = (b->c - k) & M; if (k >> (w - 1)) { if (b->c > M - ((-k) & M)) return tTrue(); return mkUlt(x, mkConst(r, w)); } if (b->c < k) return tFalse(); return mkUlt(x, mkConst(r, w)); }
    if (isC(a) && lin(b, x, k, neg)) { if (neg) { if (a->c >= k) return tFalse(); return mkUlt(x, mkConst(k - a->c, w)); } // c < k - x  <=>  x < k - c
      u64 r = (a->c - k) & M; if (k >> (w - 1)) { if (a->c > M - ((-k) & M)) return tFalse(); return mkUlt(mkConst(r, w), x); } if (a->c < k) return tTrue(); return mkUlt(mkConst(r, w), x); }
  }
  // constant on the left: not (b <= a)
  if (isC(a)) return mkNot(mkUlt(b, mkConst(a->c + 1, w))); // a < max here, otherwise the ranges decide above
  // strip common known leading bits (differing ones are decided by the ranges above)
  u64 ka = ((a->kz & b->kz) | (a->ko & b->ko)) & wmask(w); unsigned z = 0; while (z < w && (ka >> (w - 1 - z) & 1)) z++;
  if (z > 0 && z < w && (a->op == T_CONCAT || b->op == T_CONCAT)) return mkUlt(mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
  // a known low part against a constant: only the high part counts
  if (isC(b) && a->op == T_CONCAT && isC(a->a[0])) { unsigned lw = a->a[0]->w; u64 ch = b->c >> lw, cl = b->c & wmask(lw); u64 t = ch + (a->a[0]->c < cl); if (t > wmask(w - lw)) return tTrue(); return mkUlt(mkExtract(a, lw, w - lw), mkConst(t, w - lw)); }
  Term *x[2] = {a, b}; return finish(intern(T_ULT, 1, 0, x, 2));
}
static Term *mkSlt_(Term *a, Term *b) {
  unsigned w = a->w; if (a == b) return tFalse(); if (isC(a) && isC(b)) return mkConst((i64)sx(a->c, w) < (i64)sx(b->c, w), 1);
  u64 sb = 1ULL << (w - 1);
  if ((a->kz & sb) && (b->kz & sb)) return mkUlt(a, b);
  if ((a->ko & sb) && (b->ko & sb)) return mkUlt(a, b);
  if ((a->ko & sb) && (b->kz & sb)) return tTrue(); if ((a->kz & sb) && (b->ko & sb)) return tFalse();
  if (isC(b) && b->c == 0 && w > 1) return mkExtract(a, w - 1, 1);
  if (isC(b) && a->op == T_ITE && a->ctl && a->ctl <= 4096) return mkIte(a->a[0], mkSlt(a->a[1], b), mkSlt(a->a[2], b));
  if (isC(a) && b->op == T_ITE && b->ctl && b->ctl <= 4096) return mkIte(b->a[0], mkSlt(a, b->a[1]), mkSlt(a, b->a[2]));
  if (a->op == T_SEXT && isC(b)) { Term *x = a->a[0]; u64 tb = b->c & wmask(x->w); if (sx(tb, x->w) == sx(b->c, w)) return mkSlt(x, mkConst(tb, x->w)); }
  if (a->op == T_SEXT && b->op == T_SEXT && a->a[0]->w == b->a[0]->w) return mkSlt(a->a[0], b->a[0]);
  Term *x[2] = {a, b}; return finish(intern(T_SLT, 1, 0, x, 2));
}
Term *mkHApp(u32 name, const std::vector<Term *> &chunks, u32 blen) { return intern(T_HAPP, 0, 0, chunks.data(), chunks.size(), name, blen); }
Term *mkUfb(Term *app, u64 idx) { Term *x[1] = {app}; return intern(T_UFB, 8, idx, x, 1); }

Term *rebuild(const Term *t, Term **a) {
  switch (t->op) {
  case T_CONST: case T_VAR: return (Term *)t;
  case T_ADD: { Term *r = mkConst(t->c, t->w); for (u32 i = 0; i < t->n; i++) r = mkAdd(r, a[i]); return r; }
  case T_MUL: return t->n == 1 ? mkMul(a[0], mkConst(t->c, t->w)) : mkMul(a[0], a[1]);
  case T_UDIV: case T_UREM: case T_SDIV: case T_SREM: return mkDivOp((TOp)t->op, a[0], a[1]);
  case T_AND: case T_OR: case T_XOR: { Term *r = mkConst(t->c, t->w); for (u32 i = 0; i < t->n; i++) r = mkBit(t->op, r, a[i]); return r; }
  case T_SHL: case T_LSHR: case T_ASHR: return mkShift((TOp)t->op, a[0], a[1]);
  case T_CONCAT: return mkConcatV(std::vector<Term *>(a, a + t->n));
  case T_EXTRACT: return mkExtract(a[0], t->c, t->w);
  case T_SEXT: return mkSext(a[0], t->w);
  case T_ITE: return mkIte(a[0], a[1], a[2]);
  case T_EQ: return mkEq(a[0], a[1]); case T_ULT: return mkUlt(a[0], a[1]); case T_SLT: return mkSlt(a[0], a[1]);
  case T_HAPP: return mkHApp(t->name, std::vector<Term *>(a, a + t->n), t->blen);
  case T_UFB: return mkUfb(a[0], t->c);
  } abort();
}
u64 evalOp(const Term *t, const u64 *v) {
  u64 M = wmask(t->w), r;
  switch (t->op) {
  case T_CONST: return t->c;
  case T_ADD: r = t->c; for (u32 i = 0; i < t->n; i++) r += v[i]; return r & M;
  case T_MUL: return (t->n == 1 ? v[0] * t->c : v[0] * v[1]) & M;
  case T_UDIV: case T_UREM: case T_SDIV: case T_SREM: return divEval((TOp)t->op, v[0], v[1], t->w);
  case T_AND: case T_OR: case T_XOR: r = t->c; for (u32 i = 0; i < t->n; i++) r = bitEval(t->op, r, v[i]); return r;
  case T_SHL: case T_LSHR: case T_ASHR: return shEval((TOp)t->op, v[0], v[1], t->w);
  case T_CONCAT: { r = 0; unsigned p = 0; for (u32 i = 0; i < t->n; i++) { r |= v[i] << p; p += t->a[i]->w; } return r; }
  case T_EXTRACT: return (v[0] >> t->c) & M;
  case T_SEXT: return sx(v[0], t->a[0]->w) & M;
  case T_ITE: return v[0] ? v[1] : v[2];
  case T_EQ: return v[0] == v[1]; case T_ULT: return v[0] < v[1];
  case T_SLT: return (i64)sx(v[0], t->a[0]->w) < (i64)sx(v[1], t->a[1]->w);
  } abort();
}
std::string show(const Term *t, int d) {
  char b[64];
  if (t->op == T_CONST) { snprintf(b, 64, "0x%lx:%d", t->c, t->w); return b; }
  if (t->op == T_VAR) return g_vars[t->c].name;
  if (d <= 0) { snprintf(b, 64, "#%u", t->id); return b; }
  std::string s = "(";
  if (t->op == T_HAPP) s += g_names[t->name]; else s += TOpName[t->op];
  if (t->op == T_EXTRACT) { snprintf(b, 64, "[%lu+%d]", t->c, t->w); s += b; } 
  else if (t->op == T_UFB) { snprintf(b, 64, "[%lu]", t->c); s += b; }
  else if ((t->op >= T_ADD && t->op <= T_MUL) || (t->op >= T_AND && t->op <= T_XOR)) { snprintf(b, 64, "{0x%lx}", t->c); s += b; }
  for (u32 i = 0; i < t->n; i++) { s += " "; static const char *wide = getenv("XSE_WIDE"); if (i > 12 && !wide) { s += ".."; break; } s += show(t->a[i], d - 1); }
  return s + ")";
}
void support(Term *t, std::unordered_set<Term *> &seen, std::vector<Term *> &vars) {
  std::vector<Term *> st{t}; while (!st.empty()) { Term *x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op == T_VAR) vars.push_back(x); for (u32 i = 0; i < x->n; i++) st.push_back(x->a[i]); } }

// ---- run-time validation of every rewriting step: each term carries its exact value under NFP fixed
// assignments (random / small / zero / all-ones variables, one fixed pseudo-random reading of every
// uninterpreted function); a simplified result must have the value of the operation it stands for.
static inline u64 mixq(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
u64 happEval(const Term *t, const std::function<u64(Term *)> &val) { u64 v = mixq(t->name, t->blen); unsigned p = 0; u64 acc = 0; for (u32 i = 0; i < t->n; i++) { u64 x = val(t->a[i]); for (unsigned b = 0; b < t->a[i]->w; b += 8) { acc = (acc << 8) | ((x >> b) & 0xff); if (++p == 8) { v = mixq(v, acc); acc = 0; p = 0; } } } return mixq(v, acc + p); }
u64 ufbEval(u64 app, u64 idx) { return mixq(app, idx) >> 17 & 0xff; }
static void fingerprint(Term *t) {
  u64 av[64], M = wmask(t->w ? t->w : 64); std::vector<u64> big; u64 *v = av; if (t->n > 64) { big.resize(t->n); v = big.data(); }
  for (int k = 0; k < NFP; k++) { u64 r;
    if (t->op == T_CONST) r = t->c;
    else if (t->op == T_VAR) { u64 q = mixq(mixq(t->c, 77), k); r = k == 0 ? q : k == 1 ? (q & 3) : k == 2 ? 0 : (q & 0x10000 ? ~0ULL : q >> 20); }
    else if (t->op == T_HAPP) r = happEval(t, [&](Term *x) { return x->fp[k]; });
    else if (t->op == T_UFB) r = ufbEval(t->a[0]->fp[k], t->c);
    else { for (u32 i = 0; i < t->n; i++) v[i] = t->a[i]->fp[k]; r = evalOp(t, v); }
    t->fp[k] = r & M;
    if (t->w && (t->fp[k] < t->lo || t->fp[k] > t->hi || (t->fp[k] & t->kz) || (~t->fp[k] & t->ko))) { fprintf(stderr, "XSE-ERROR unsound range or bit knowledge: %s\n", show(t, 4).c_str()); fflush(stderr); _exit(2); } } }
u64 g_fpChecks = 0; std::vector<RewriteStep> g_audit; u64 g_auditEvery = 0; static std::unordered_set<u64> auditSeen;
static void bad(const char *nm, Term *a, Term *b, Term *r) { fprintf(stderr, "XSE-ERROR unsound rewriting in %s: %s , %s -> %s\n", nm, show(a, 5).c_str(), b ? show(b, 5).c_str() : "", show(r, 5).c_str()); fflush(stderr); _exit(2); }
template <class F> static inline Term *chk(const char *nm, u8 op, Term *r, Term *a, Term *b, Term *c, u64 k1, u64 k2, F f) {
  g_fpChecks++; for (int k = 0; k < NFP; k++) if (r->fp[k] != (f(k) & wmask(r->w))) bad(nm, a, b, r);
  if (g_auditEvery && r->op != T_CONST) { u64 key = mixq(mixq(mixq(op, a->id), b ? b->id : 0), mixq(c ? c->id : 0, k1 * 1000 + k2)); if (key % g_auditEvery == 0 && auditSeen.insert(key).second) g_audit.push_back({op, (u8)r->w, k1, k2, a, b, c, r}); }
  return r; }
#define FP(x) (x)->fp[k]
Term *mkAdd(Term *a, Term *b) { return chk("add", T_ADD, mkAdd_(a, b), a, b, 0, 0, 0, [&](int k) { return FP(a) + FP(b); }); }
Term *mkNeg(Term *a) { return chk("neg", T_ADD, mkNeg_(a), mkConst(0, a->w), a, 0, 1, 0, [&](int k) { return -FP(a); }); }
Term *mkSub(Term *a, Term *b) { return chk("sub", T_ADD, mkSub_(a, b), a, b, 0, 1, 0, [&](int k) { return FP(a) - FP(b); }); }
Term *mkMul(Term *a, Term *b) { return chk("mul", T_MUL, mkMul_(a, b), a, b, 0, 0, 0, [&](int k) { return FP(a) * FP(b); }); }
Term *mkDivOp(TOp op, Term *a, Term *b) { return chk("div", op, mkDivOp_(op, a, b), a, b, 0, 0, 0, [&](int k) { return divEval(op, FP(a), FP(b), a->w); }); }
Term *mkAnd(Term *a, Term *b) { return chk("and", T_AND, mkAnd_(a, b), a, b, 0, 0, 0, [&](int k) { return FP(a) & FP(b); }); }
Term *mkOr(Term *a, Term *b) { return chk("or", T_OR, mkOr_(a, b), a, b, 0, 0, 0, [&](int k) { return FP(a) | FP(b); }); }
Term *mkXor(Term *a, Term *b) { return chk("xor", T_XOR, mkXor_(a, b), a, b, 0, 0, 0, [&](int k) { return FP(a) ^ FP(b); }); }
Term *mkShift(TOp op, Term *a, Term *b) { return chk("shift", op, mkShift_(op, a, b), a, b, 0, 0, 0, [&](int k) { return shEval(op, FP(a), FP(b), a->w); }); }
Term *mkConcatV(const std::vector<Term *> &in) { Term *r = mkConcatV_(in); if (in.size() == 2) return chk("concat", T_CONCAT, r, in[0], in[1], 0, 0, 0, [&](int k) { return FP(in[0]) | (FP(in[1]) << in[0]->w); });
  g_fpChecks++; for (int k = 0; k < NFP; k++) { u64 v = 0; unsigned p = 0; for (Term *t : in) { v |= FP(t) << p; p += t->w; } if (v != r->fp[k]) bad("concat", in[0], in.back(), r); } return r; }
Term *mkExtract(Term *a, unsigned lo, unsigned w) { return chk("extract", T_EXTRACT, mkExtract_(a, lo, w), a, 0, 0, lo, w, [&](int k) { return FP(a) >> lo; }); }
Term *mkSext(Term *a, unsigned w) { return chk("sext", T_SEXT, mkSext_(a, w), a, 0, 0, 0, w, [&](int k) { return sx(FP(a), a->w); }); }
Term *mkIte(Term *c, Term *a, Term *b) { return chk("ite", T_ITE, mkIte_(c, a, b), c, a, b, 0, 0, [&](int k) { return FP(c) ? FP(a) : FP(b); }); }
Term *mkEq(Term *a, Term *b) { return chk("eq", T_EQ, mkEq_(a, b), a, b, 0, 0, 0, [&](int k) { return (u64)(FP(a) == FP(b)); }); }
Term *mkUlt(Term *a, Term *b) { return chk("ult", T_ULT, mkUlt_(a, b), a, b, 0, 0, 0, [&](int k) { return (u64)(FP(a) < FP(b)); }); }
Term *mkSlt(Term *a, Term *b) { return chk("slt", T_SLT, mkSlt_(a, b), a, b, 0, 0, 0, [&](int k) { return (u64)((i64)sx(FP(a), a->w) < (i64)sx(FP(b), b->w)); }); }
