#include "expr.h"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <deque>
#include <fstream>

std::vector<VarInfo> g_vars;
std::vector<std::string> g_ufs;
SolverStats g_ss;
unsigned g_timeoutMs = 60000;
std::string g_dumpDir;

static std::deque<Expr> g_arena;
static uint64_t g_stamp = 0;
struct HK {
  size_t operator()(const Expr *e) const {
    uint64_t h = (uint64_t)e->k * 0x9E3779B97F4A7C15ULL + e->w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; };
    mix(e->v);
    mix(e->a ? e->a->id + 1 : 0);
    mix(e->b ? e->b->id + 1 : 0);
    mix(e->c ? e->c->id + 1 : 0);
    return h ^ (h >> 29);
  }
};
struct EK {
  bool operator()(const Expr *x, const Expr *y) const {
    return x->k == y->k && x->w == y->w && x->v == y->v && x->a == y->a && x->b == y->b && x->c == y->c;
  }
};
static std::unordered_set<Expr *, HK, EK> g_tab;
struct VH {
  size_t operator()(const VarSet &s) const { size_t h = s.size(); for (auto x : s) h = h * 1000003 + x; return h; }
};
static std::unordered_set<VarSet, VH> g_varsets;
static const VarSet *internVars(VarSet &&s) { return &*g_varsets.insert(std::move(s)).first; }
static const VarSet *unionVars(const VarSet *x, const VarSet *y) {
  if (!x || x->empty()) return y ? y : internVars({});
  if (!y || y->empty() || x == y) return x;
  VarSet r;
  std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
  return internVars(std::move(r));
}

Expr *mkNode(K k, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t v) {
  Expr t;
  t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.v = v; t.id = 0; t.vars = nullptr; t.z = t.zf = nullptr; t.stamp = 0; t.val = 0;
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return *it;
  t.id = g_arena.size();
  const VarSet *vs = nullptr;
  if (k == K::VAR) vs = internVars({(uint32_t)v});
  else {
    if (a) vs = unionVars(vs, a->vars);
    if (b) vs = unionVars(vs, b->vars);
    if (c) vs = unionVars(vs, c->vars);
    if (!vs) vs = internVars({});
  }
  t.vars = vs;
  g_arena.push_back(t);
  Expr *e = &g_arena.back();
  g_tab.insert(e);
  return e;
}

Expr *mkConst(uint64_t v, unsigned w) { return mkNode(K::CONST, w, nullptr, nullptr, nullptr, v & mask(w)); }
Expr *mkVar(const std::string &name, unsigned w) {
  g_vars.push_back({name, w});
  return mkNode(K::VAR, w, nullptr, nullptr, nullptr, g_vars.size() - 1);
}

static float asF(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static uint64_t ofF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static uint64_t ofD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }

template <class T> static uint64_t fpToSI(T x, unsigned w) {
  // x86 semantics: the "integer indefinite" value when out of range or NaN
  T lo = -std::ldexp((T)1, w - 1), hi = std::ldexp((T)1, w - 1);
  if (x != x) return 1ULL << (w - 1);
  T t = std::trunc(x);
  if (!(t >= lo && t < hi)) return 1ULL << (w - 1);
  return (uint64_t)(int64_t)t & mask(w);
}
template <class T> static uint64_t fpToUI(T x, unsigned w) {
  T hi = std::ldexp((T)1, w);
  if (x != x) return 0;
  T t = std::trunc(x);
  if (!(t >= 0 && t < hi)) return 0;
  return (uint64_t)t & mask(w);
}
template <class T> static T fround(T x, uint64_t m) {
  switch (m) {
  case RM_CEIL: return std::ceil(x);
  case RM_FLOOR: return std::floor(x);
  case RM_TRUNC: return std::trunc(x);
  case RM_RNE: return std::nearbyint(x);
  default: return std::round(x);
  }
}

uint64_t callUF(const std::string &n, unsigned w, uint64_t a, uint64_t b) {
  if (w == 64) {
    double x = asD(a), y = asD(b);
#define U1(f) if (n == #f) return ofD(::f(x));
    U1(sin) U1(cos) U1(tan) U1(asin) U1(acos) U1(atan) U1(sinh) U1(cosh) U1(tanh) U1(exp) U1(log) U1(log2) U1(log10)
    U1(exp2) U1(cbrt) U1(expm1) U1(log1p) U1(asinh) U1(acosh) U1(atanh) U1(sqrt)
#undef U1
    if (n == "pow") return ofD(::pow(x, y));
    if (n == "fmod") return ofD(::fmod(x, y));
    if (n == "atan2") return ofD(::atan2(x, y));
    if (n == "hypot") return ofD(::hypot(x, y));
  } else if (w == 32) {
    float x = asF(a), y = asF(b);
#define U1(g) if (n == #g "f") return ofF(::g##f(x));
    U1(sin) U1(cos) U1(tan) U1(asin) U1(acos) U1(atan) U1(sinh) U1(cosh) U1(tanh) U1(exp) U1(log) U1(log2) U1(log10)
#undef U1
    if (n == "powf") return ofF(::powf(x, y));
    if (n == "fmodf") return ofF(::fmodf(x, y));
  }
  return (a * 0x9E3779B97F4A7C15ULL ^ b) & mask(w);
}

uint64_t foldOp(K k, unsigned w, unsigned wa, uint64_t a, uint64_t b, uint64_t v) {
  switch (k) {
  case K::ADD: return (a + b) & mask(w);
  case K::SUB: return (a - b) & mask(w);
  case K::MUL: return (a * b) & mask(w);
  case K::UDIV: return b ? a / b : mask(w);
  case K::UREM: return b ? a % b : a;
  case K::SDIV: {
    int64_t x = sext(a, w), y = sext(b, w);
    if (y == 0) return x < 0 ? 1 : mask(w);
    if (y == -1) return (uint64_t)(0 - (uint64_t)x) & mask(w);
    return (uint64_t)(x / y) & mask(w);
  }
  case K::SREM: {
    int64_t x = sext(a, w), y = sext(b, w);
    if (y == 0) return a;
    if (y == -1) return 0;
    return (uint64_t)(x % y) & mask(w);
  }
  case K::AND: return a & b;
  case K::OR: return a | b;
  case K::XOR: return a ^ b;
  case K::SHL: return b >= w ? 0 : (a << b) & mask(w);
  case K::LSHR: return b >= w ? 0 : a >> b;
  case K::ASHR: { int64_t x = sext(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : x >> b) & mask(w); }
  case K::EQ: return a == b;
  case K::ULT: return a < b;
  case K::ULE: return a <= b;
  case K::SLT: return sext(a, wa) < sext(b, wa);
  case K::SLE: return sext(a, wa) <= sext(b, wa);
  case K::EXTRACT: return (a >> v) & mask(w);
  case K::ZEXT: return a;
  case K::SEXT: return (uint64_t)sext(a, wa) & mask(w);
#define FB(op) return w == 32 ? ofF(asF(a) op asF(b)) : ofD(asD(a) op asD(b));
  case K::FADD: FB(+)
  case K::FSUB: FB(-)
  case K::FMUL: FB(*)
  case K::FDIV: FB(/)
#undef FB
  case K::FSQRT: return w == 32 ? ofF(std::sqrt(asF(a))) : ofD(std::sqrt(asD(a)));
  case K::FNEG: return a ^ (1ULL << (w - 1));
  case K::FABS: return a & ~(1ULL << (w - 1)) & mask(w);
#define FC(op) return wa == 32 ? asF(a) op asF(b) : asD(a) op asD(b);
  case K::FEQ: FC(==)
  case K::FLT: FC(<)
  case K::FLE: FC(<=)
#undef FC
  case K::FNAN: return wa == 32 ? std::isnan(asF(a)) : std::isnan(asD(a));
  case K::FPTRUNC: return ofF((float)asD(a));
  case K::FPEXT: return ofD((double)asF(a));
  case K::FPTOSI: return wa == 32 ? fpToSI(asF(a), w) : fpToSI(asD(a), w);
  case K::FPTOUI: return wa == 32 ? fpToUI(asF(a), w) : fpToUI(asD(a), w);
  case K::SITOFP: { int64_t x = sext(a, wa); return w == 32 ? ofF((float)x) : ofD((double)x); }
  case K::UITOFP: return w == 32 ? ofF((float)a) : ofD((double)a);
  case K::FROUND: return w == 32 ? ofF(fround(asF(a), v)) : ofD(fround(asD(a), v));
  case K::UF: return callUF(g_ufs[v], w, a, b);
  default: break;
  }
  fprintf(stderr, "foldOp: bad kind %d\n", (int)k);
  abort();
}

static uint64_t evalRec(Expr *e, const Model &m) {
  if (e->k == K::CONST) return e->v;
  if (e->stamp == g_stamp) return e->val;
  uint64_t r;
  switch (e->k) {
  case K::VAR: r = e->v < m.size() ? m[e->v] : 0; break;
  case K::ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
  case K::CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
  default: {
    uint64_t a = evalRec(e->a, m), b = e->b ? evalRec(e->b, m) : 0;
    r = foldOp(e->k, e->w, e->a->w, a, b, e->v) & mask(e->w);
  }
  }
  e->stamp = g_stamp;
  e->val = r;
  return r;
}
uint64_t evalExpr(Expr *e, const Model &m) {
  ++g_stamp;
  return evalRec(e, m);
}

// An upper bound of the unsigned value.
static uint64_t maxVal(const Expr *e, int depth = 5) {
  uint64_t m = mask(e->w);
  if (e->k == K::CONST) return e->v;
  if (!depth) return m;
  --depth;
  switch (e->k) {
  case K::ZEXT: return maxVal(e->a, depth);
  case K::UREM: return isC(e->b) && e->b->v ? std::min(e->b->v - 1, maxVal(e->a, depth)) : m;
  case K::UDIV: return isC(e->b) && e->b->v ? maxVal(e->a, depth) / e->b->v : m;
  case K::AND: return isC(e->b) ? std::min(e->b->v, maxVal(e->a, depth)) : m;
  case K::ITE: return std::max(maxVal(e->b, depth), maxVal(e->c, depth));
  case K::ADD: {
    if (!isC(e->b)) return m;
    uint64_t x = maxVal(e->a, depth);
    return x <= m - e->b->v ? x + e->b->v : m;
  }
  case K::EXTRACT: {
    if (e->v) return m;
    uint64_t x = maxVal(e->a, depth);
    return std::min(x, m);
  }
  default: return m;
  }
}

Expr *mkNot(Expr *a) {
  if (isC(a)) return mkConst(!a->v, 1);
  if (a->k == K::XOR && isTrue(a->b)) return a->a;
  if (a->k == K::ULT) return mkBin(K::ULE, a->b, a->a);
  if (a->k == K::ULE) return mkBin(K::ULT, a->b, a->a);
  if (a->k == K::SLT) return mkBin(K::SLE, a->b, a->a);
  if (a->k == K::SLE) return mkBin(K::SLT, a->b, a->a);
  return mkNode(K::XOR, 1, a, mkConst(1, 1), nullptr, 0);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (c->k == K::XOR && isTrue(c->b)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkBin(K::OR, c, b);
    if (isFalse(a)) return mkBin(K::AND, mkNot(c), b);
    if (isFalse(b)) return mkBin(K::AND, c, a);
    if (isTrue(b)) return mkBin(K::OR, mkNot(c), a);
  }
  if (a->k == K::ITE && a->a == c) a = a->b;
  if (b->k == K::ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return mkNode(K::ITE, a->w, c, a, b, 0);
}

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->v >> lo, w);
  switch (a->k) {
  case K::EXTRACT: return mkExtract(a->a, a->v + lo, w);
  case K::CONCAT: {
    unsigned lw = a->b->w;
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
  }
  case K::ZEXT:
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo >= a->a->w) return mkConst(0, w);
    return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
  case K::SEXT:
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo == 0) return mkSext(a->a, w);
    break;
  case K::ITE:
    if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  case K::AND: case K::OR: case K::XOR:
    if (isC(a->b)) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    break;
  case K::ADD: case K::SUB: case K::MUL:
    if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  default: break;
  }
  return mkNode(K::EXTRACT, w, a, nullptr, nullptr, lo);
}
Expr *mkTrunc(Expr *a, unsigned w) { return mkExtract(a, 0, w); }

Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, w);
  if (isC(hi) && hi->v == 0) return mkZext(lo, w);
  if (hi->k == K::EXTRACT && lo->k == K::EXTRACT && hi->a == lo->a && hi->v == lo->v + lo->w) return mkExtract(hi->a, lo->v, w);
  if (hi->k == K::EXTRACT && hi->a == lo && hi->v == lo->w) return mkExtract(hi->a, 0, w);
  if (lo->k == K::CONCAT && hi->k == K::EXTRACT && lo->a->k == K::EXTRACT && hi->a == lo->a->a && hi->v == lo->a->v + lo->a->w)
    return mkConcat(mkConcat(hi, lo->a), lo->b);
  return mkNode(K::CONCAT, w, hi, lo, nullptr, 0);
}
Expr *mkZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->v, w);
  if (a->k == K::ZEXT) return mkZext(a->a, w);
  if (a->k == K::ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
  if ((a->k == K::UDIV || a->k == K::UREM) && isC(a->b) && a->b->v) return mkBin(a->k, mkZext(a->a, w), mkConst(a->b->v, w));
  if (a->k == K::EXTRACT && a->v == 0 && maxVal(a->a) <= mask(a->w)) return w >= a->a->w ? mkZext(a->a, w) : mkExtract(a->a, 0, w);
  if (a->k == K::ADD && isC(a->b) && maxVal(a->a) <= mask(a->w) - a->b->v) return mkBin(K::ADD, mkZext(a->a, w), mkConst(a->b->v, w));
  return mkNode(K::ZEXT, w, a, nullptr, nullptr, 0);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((uint64_t)sext(a->v, a->w), w);
  if (a->k == K::ZEXT) return mkZext(a->a, w);
  if (a->k == K::SEXT) return mkSext(a->a, w);
  if (a->w == 1) return mkIte(a, mkConst(~0ULL, w), mkConst(0, w));
  if (maxVal(a) <= mask(a->w - 1)) return mkZext(a, w);
  return mkNode(K::SEXT, w, a, nullptr, nullptr, 0);
}

static bool commut(K k) { return k == K::ADD || k == K::MUL || k == K::AND || k == K::OR || k == K::XOR || k == K::EQ; }
static bool isIteC(const Expr *e) { return e->k == K::ITE && (isC(e->b) || isC(e->c)); }

Expr *mkBin(K k, Expr *a, Expr *b) {
  unsigned w = a->w, rw = (k >= K::EQ && k <= K::SLE) || k == K::FEQ || k == K::FLT || k == K::FLE ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(foldOp(k, rw, w, a->v, b->v, 0), rw);
  if (commut(k)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  bool bc = isC(b);
  uint64_t bv = bc ? b->v : 0;
  switch (k) {
  case K::ADD:
    if (bc && bv == 0) return a;
    if (bc && a->k == K::ADD && isC(a->b)) return mkBin(K::ADD, a->a, mkConst(a->b->v + bv, w));
    if (bc && a->k == K::SUB && isC(a->a)) return mkBin(K::SUB, mkConst(a->a->v + bv, w), a->b);
    if (bc && isIteC(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (a->k == K::SUB && a->b == b) return a->a;
    if (b->k == K::SUB && b->b == a) return b->a;
    // decimal digits put together again: (y / k % m) * k + y % k = y % (m * k), and without % m: y
    for (int i = 0; i < 2; ++i) {
      Expr *x = i ? b : a, *y = i ? a : b;
      if (x->k != K::MUL || !isC(x->b) || y->k != K::UREM || !isC(y->b) || x->b->v != y->b->v || y->b->v < 2) continue;
      uint64_t kk = y->b->v;
      Expr *q = mkBin(K::UDIV, y->a, y->b);
      if (x->a == q) return y->a;
      if (x->a->k == K::UREM && isC(x->a->b) && x->a->a == q && x->a->b->v <= mask(w) / kk) return mkBin(K::UREM, y->a, mkConst(x->a->b->v * kk, w));
    }
    break;
  case K::SUB:
    if (a == b) return mkConst(0, w);
    if (bc) return mkBin(K::ADD, a, mkConst(0 - bv, w));
    if (a->k == K::ADD && a->a == b) return a->b;
    if (a->k == K::ADD && a->b == b) return a->a;
    if (a->k == K::ADD && isC(a->b) && b->k == K::ADD && isC(b->b) && a->a == b->a) return mkConst(a->b->v - b->b->v, w);
    break;
  case K::MUL:
    if (bc && bv == 0) return b;
    if (bc && bv == 1) return a;
    if (bc && (bv & (bv - 1)) == 0) return mkBin(K::SHL, a, mkConst(__builtin_ctzll(bv), w));
    break;
  case K::AND:
    if (a == b) return a;
    if (bc && bv == 0) return b;
    if (bc && bv == mask(w)) return a;
    if (bc && a->k == K::AND && isC(a->b)) return mkBin(K::AND, a->a, mkConst(a->b->v & bv, w));
    if (bc && a->k == K::ZEXT) {
      if ((bv & mask(a->a->w)) == mask(a->a->w)) return a;
      return mkZext(mkBin(K::AND, a->a, mkConst(bv, a->a->w)), w);
    }
    if (bc && isIteC(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (w == 1 && a->k == K::XOR && isTrue(a->b) && a->a == b) return mkConst(0, 1);
    if (w == 1 && b->k == K::XOR && isTrue(b->b) && b->a == a) return mkConst(0, 1);
    break;
  case K::OR:
    if (a == b) return a;
    if (bc && bv == 0) return a;
    if (bc && bv == mask(w)) return b;
    if (bc && w > 1 && maxVal(a) < (bv & -bv)) return mkBin(K::ADD, a, b);
    if (bc && isIteC(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (w == 1 && a->k == K::XOR && isTrue(a->b) && a->a == b) return mkConst(1, 1);
    if (w == 1 && b->k == K::XOR && isTrue(b->b) && b->a == a) return mkConst(1, 1);
    break;
  case K::XOR:
    if (a == b) return mkConst(0, w);
    if (bc && bv == 0) return a;
    if (w == 1 && bc && bv == 1) return mkNot(a);
    if (bc && a->k == K::XOR && isC(a->b)) return mkBin(K::XOR, a->a, mkConst(a->b->v ^ bv, w));
    if (bc && isIteC(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    break;
  case K::SHL:
    if (bc && bv == 0) return a;
    if (bc && bv >= w) return mkConst(0, w);
    if (bc && bv < w) return mkConcat(mkExtract(a, 0, w - bv), mkConst(0, bv));
    break;
  case K::LSHR:
    if (bc && bv == 0) return a;
    if (bc && bv >= w) return mkConst(0, w);
    if (bc) return mkZext(mkExtract(a, bv, w - bv), w);
    break;
  case K::ASHR:
    if (bc && bv == 0) return a;
    if (bc && bv < w) return mkSext(mkExtract(a, bv, w - bv), w);
    break;
  case K::UDIV:
    if (bc && bv == 1) return a;
    if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(K::LSHR, a, mkConst(__builtin_ctzll(bv), w));
    if (bc && bv && a->k == K::UDIV && isC(a->b) && a->b->v) {
      if (a->b->v > mask(w) / bv) return mkConst(0, w);
      return mkBin(K::UDIV, a->a, mkConst(a->b->v * bv, w));
    }
    if (bc && bv > maxVal(a)) return mkConst(0, w);
    break;
  case K::UREM:
    if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(K::AND, a, mkConst(bv - 1, w));
    if (bc && bv > maxVal(a)) return a;
    if (!bc) return mkBin(K::SUB, a, mkBin(K::MUL, mkBin(K::UDIV, a, b), b));
    break;
  // Division by a variable is reduced to unsigned division (the definitions of SMT-LIB), so that the forms a program and
  // its specification use share the one hard operator.
  case K::SDIV:
    if (bc && bv == 1) return a;
    if (!bc) {
      Expr *z = mkConst(0, w), *na = mkBin(K::SLT, a, z), *nb = mkBin(K::SLT, b, z);
      Expr *q = mkBin(K::UDIV, mkIte(na, mkBin(K::SUB, z, a), a), mkIte(nb, mkBin(K::SUB, z, b), b));
      return mkIte(mkBin(K::XOR, na, nb), mkBin(K::SUB, z, q), q);
    }
    break;
  case K::SREM:
    if (!bc) {
      Expr *z = mkConst(0, w), *na = mkBin(K::SLT, a, z), *nb = mkBin(K::SLT, b, z);
      Expr *m = mkBin(K::UREM, mkIte(na, mkBin(K::SUB, z, a), a), mkIte(nb, mkBin(K::SUB, z, b), b));
      return mkIte(na, mkBin(K::SUB, z, m), m);
    }
    break;
  case K::EQ:
    if (a == b) return mkConst(1, 1);
    if (w == 1 && bc) return bv ? a : mkNot(a);
    if (bc) {
      switch (a->k) {
      case K::ITE:
        if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkBin(K::EQ, a->b, b), mkBin(K::EQ, a->c, b));
        break;
      case K::UDIV:
        if (bv == 0 && isC(a->b) && a->b->v) return mkBin(K::ULT, a->a, a->b);
        break;
      case K::ZEXT:
        if (bv & ~mask(a->a->w)) return mkConst(0, 1);
        return mkBin(K::EQ, a->a, mkConst(bv, a->a->w));
      case K::SEXT:
        if (((uint64_t)sext(bv, a->a->w) & mask(w)) != bv) return mkConst(0, 1);
        return mkBin(K::EQ, a->a, mkConst(bv, a->a->w));
      case K::ADD:
        if (isC(a->b)) return mkBin(K::EQ, a->a, mkConst(bv - a->b->v, w));
        break;
      case K::XOR:
        if (isC(a->b)) return mkBin(K::EQ, a->a, mkConst(bv ^ a->b->v, w));
        break;
      case K::SUB:
        if (bv == 0) return mkBin(K::EQ, a->a, a->b);
        if (isC(a->a)) return mkBin(K::EQ, a->b, mkConst(a->a->v - bv, w));
        break;
      case K::CONCAT:
        return mkBin(K::AND, mkBin(K::EQ, a->a, mkConst(bv >> a->b->w, a->a->w)), mkBin(K::EQ, a->b, mkConst(bv, a->b->w)));
      default: break;
      }
    }
    if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return mkBin(K::EQ, a->a, b->a);
    if (a->k == K::SEXT && b->k == K::SEXT && a->a->w == b->a->w) return mkBin(K::EQ, a->a, b->a);
    break;
  case K::ULT:
    if (a == b) return mkConst(0, 1);
    if (bc && bv == 0) return mkConst(0, 1);
    if (bc && bv == 1) return mkBin(K::EQ, a, mkConst(0, w));
    if (bc && maxVal(a) < bv) return mkConst(1, 1);
    if (bc && a->k == K::ADD && isC(a->b) && maxVal(a->a) <= mask(w) - a->b->v) return bv <= a->b->v ? mkConst(0, 1) : mkBin(K::ULT, a->a, mkConst(bv - a->b->v, w));
    if (isC(a) && b->k == K::ADD && isC(b->b) && maxVal(b->a) <= mask(w) - b->b->v) return a->v < b->b->v ? mkConst(1, 1) : mkBin(K::ULT, mkConst(a->v - b->b->v, w), b->a);
    if (bc && a->k == K::UDIV && isC(a->b) && a->b->v) return bv > mask(w) / a->b->v ? mkConst(1, 1) : mkBin(K::ULT, a->a, mkConst(bv * a->b->v, w));
    if (isC(a) && b->k == K::UDIV && isC(b->b) && b->b->v && a->v < mask(w)) return mkBin(K::ULE, mkConst(a->v + 1, w), b);
    if (isC(a) && maxVal(b) <= a->v) return mkConst(0, 1);
    if (bc && a->k == K::ZEXT) { if (bv > mask(a->a->w)) return mkConst(1, 1); return mkBin(k, a->a, mkConst(bv, a->a->w)); }
    if (isC(a) && b->k == K::ZEXT) { if (a->v >= mask(b->a->w)) return mkConst(0, 1); return mkBin(k, mkConst(a->v, b->a->w), b->a); }
    if (isC(a) && a->v == mask(w)) return mkConst(0, 1);
    if (isC(a) && a->v == 0) return mkNot(mkBin(K::EQ, b, a));
    if (bc && isIteC(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (isC(a) && isIteC(b)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
    break;
  case K::ULE:
    if (a == b) return mkConst(1, 1);
    if (bc && bv == mask(w)) return mkConst(1, 1);
    if (isC(a) && a->v == 0) return mkConst(1, 1);
    if (bc && maxVal(a) <= bv) return mkConst(1, 1);
    if (bc && a->k == K::ADD && isC(a->b) && maxVal(a->a) <= mask(w) - a->b->v) return bv < a->b->v ? mkConst(0, 1) : mkBin(K::ULE, a->a, mkConst(bv - a->b->v, w));
    if (isC(a) && b->k == K::ADD && isC(b->b) && maxVal(b->a) <= mask(w) - b->b->v) return a->v <= b->b->v ? mkConst(1, 1) : mkBin(K::ULE, mkConst(a->v - b->b->v, w), b->a);
    if (isC(a) && b->k == K::UDIV && isC(b->b) && b->b->v) return a->v > mask(w) / b->b->v ? mkConst(0, 1) : mkBin(K::ULE, mkConst(a->v * b->b->v, w), b->a);
    if (bc && bv < mask(w) && a->k == K::UDIV && isC(a->b) && a->b->v) return mkBin(K::ULT, a, mkConst(bv + 1, w));
    if (isC(a) && maxVal(b) < a->v) return mkConst(0, 1);
    if (bc && bv == 0) return mkBin(K::EQ, a, b);
    if (bc && a->k == K::ZEXT) { if (bv >= mask(a->a->w)) return mkConst(1, 1); return mkBin(k, a->a, mkConst(bv, a->a->w)); }
    if (isC(a) && b->k == K::ZEXT) { if (a->v > mask(b->a->w)) return mkConst(0, 1); return mkBin(k, mkConst(a->v, b->a->w), b->a); }
    if (bc && isIteC(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (isC(a) && isIteC(b)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
    break;
  case K::SLT: case K::SLE:
    if (a == b) return mkConst(k == K::SLE, 1);
    if (bc && isIteC(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (isC(a) && isIteC(b)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    if (bc && a->k == K::ZEXT && a->a->w < w) {
      if (sext(bv, w) < 0) return mkConst(0, 1);
      return mkBin(k == K::SLT ? K::ULT : K::ULE, a, b);
    }
    if (isC(a) && b->k == K::ZEXT && b->a->w < w) {
      if (sext(a->v, w) < 0) return mkConst(1, 1);
      return mkBin(k == K::SLT ? K::ULT : K::ULE, a, b);
    }
    if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w && a->a->w < w) return mkBin(k == K::SLT ? K::ULT : K::ULE, a->a, b->a);
    if (a->k == K::SEXT && b->k == K::SEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
    break;
  default: break;
  }
  return mkNode(k, rw, a, b, nullptr, 0);
}

Expr *mkFUn(K k, Expr *a, unsigned w, uint64_t v) {
  if (isC(a)) return mkConst(foldOp(k, w, a->w, a->v, 0, v), w);
  if (k == K::FNEG && a->k == K::FNEG) return a->a;
  if (k == K::FPEXT && a->w == 32 && w == 64) {  // a known exponent: widening only moves bits
    Expr *e = mkExtract(a, 23, 8);
    if (isC(e) && e->v > 0 && e->v < 255) return mkConcat(mkConcat(mkExtract(a, 31, 1), mkConst(e->v + 896, 11)), mkConcat(mkExtract(a, 0, 23), mkConst(0, 29)));
  }
  if (k == K::FABS && (a->k == K::FNEG || a->k == K::FABS)) return mkFUn(K::FABS, a->a, w);
  if ((k == K::FNAN) && (a->k == K::FNEG || a->k == K::FABS)) return mkFUn(K::FNAN, a->a, w);
  return mkNode(k, w, a, nullptr, nullptr, v);
}
Expr *mkUF(const std::string &name, Expr *a, Expr *b, unsigned w) {
  size_t i;
  for (i = 0; i < g_ufs.size() && g_ufs[i] != name; ++i) {}
  if (i == g_ufs.size()) g_ufs.push_back(name);
  if (isC(a) && (!b || isC(b))) return mkConst(callUF(name, w, a->v, b ? b->v : 0), w);
  return mkNode(K::UF, w, a, b, nullptr, i);
}

bool mentions(Expr *e, const std::unordered_map<uint32_t, uint64_t> &bind) {
  for (auto v : *e->vars) if (bind.count(v)) return true;
  return false;
}
static Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c) {
  switch (e->k) {
  case K::ITE: return mkIte(a, b, c);
  case K::CONCAT: return mkConcat(a, b);
  case K::EXTRACT: return mkExtract(a, e->v, e->w);
  case K::ZEXT: return mkZext(a, e->w);
  case K::SEXT: return mkSext(a, e->w);
  case K::UF: return mkUF(g_ufs[e->v], a, b, e->w);
  case K::FSQRT: case K::FNEG: case K::FABS: case K::FNAN: case K::FPTRUNC: case K::FPEXT: case K::FPTOSI: case K::FPTOUI:
  case K::SITOFP: case K::UITOFP: case K::FROUND: return mkFUn(e->k, a, e->w, e->v);
  default: return mkBin(e->k, a, b);
  }
}
static Expr *substRec(Expr *e, const std::unordered_map<uint32_t, uint64_t> &bind, std::unordered_map<Expr *, Expr *> &memo) {
  if (e->k == K::CONST) return e;
  if (e->k == K::VAR) { auto it = bind.find(e->v); return it == bind.end() ? e : mkConst(it->second, e->w); }
  if (!mentions(e, bind)) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Expr *a = e->a ? substRec(e->a, bind, memo) : nullptr;
  Expr *b = e->b ? substRec(e->b, bind, memo) : nullptr;
  Expr *c = e->c ? substRec(e->c, bind, memo) : nullptr;
  Expr *r = (a == e->a && b == e->b && c == e->c) ? e : rebuild(e, a, b, c);
  memo[e] = r;
  return r;
}
Expr *substitute(Expr *e, const std::unordered_map<uint32_t, uint64_t> &bind) {
  if (bind.empty() || e->k == K::CONST) return e;
  std::unordered_map<Expr *, Expr *> memo;
  return substRec(e, bind, memo);
}

// --- Z3 ---------------------------------------------------------------------------------------
static Z3_context C;
static Z3_sort S32, S64;
static Z3_ast RMv[5];
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  fflush(stderr);
  abort();
}
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, onErr);
  S32 = Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, Z3_sort_to_ast(C, S32));
  S64 = Z3_mk_fpa_sort_64(C); Z3_inc_ref(C, Z3_sort_to_ast(C, S64));
  RMv[RM_CEIL] = keep(Z3_mk_fpa_rtp(C));
  RMv[RM_FLOOR] = keep(Z3_mk_fpa_rtn(C));
  RMv[RM_TRUNC] = keep(Z3_mk_fpa_rtz(C));
  RMv[RM_RNE] = keep(Z3_mk_fpa_rne(C));
  RMv[RM_RNA] = keep(Z3_mk_fpa_rna(C));
}
static Z3_sort fpS(unsigned w) { return w == 32 ? S32 : S64; }
static Z3_ast tr(Expr *e);
static Z3_ast trF(Expr *e);
static Z3_ast bvc(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C, v, Z3_mk_bv_sort(C, w)); }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(C, b, bvc(1, 1), bvc(0, 1)); }
// width-1 expressions translate to Bool, wider ones to BitVec
static Z3_ast trV(Expr *e) { return e->w == 1 ? b2v(tr(e)) : tr(e); }
static Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(C, v, bvc(1, 1)); }
static Z3_ast fpConst(double d, unsigned w) { return w == 32 ? Z3_mk_fpa_numeral_float(C, (float)d, S32) : Z3_mk_fpa_numeral_double(C, d, S64); }

static bool isFpKind(K k) {
  switch (k) {
  case K::FADD: case K::FSUB: case K::FMUL: case K::FDIV: case K::FSQRT: case K::FNEG: case K::FABS: case K::FPTRUNC: case K::FPEXT:
  case K::SITOFP: case K::UITOFP: case K::FROUND: case K::UF: return true;
  default: return false;
  }
}

static Z3_ast trF(Expr *e) {
  if (e->zf) return e->zf;
  Z3_ast r;
  Z3_ast rne = RMv[RM_RNE];
  switch (e->k) {
  case K::FADD: r = Z3_mk_fpa_add(C, rne, trF(e->a), trF(e->b)); break;
  case K::FSUB: r = Z3_mk_fpa_sub(C, rne, trF(e->a), trF(e->b)); break;
  case K::FMUL: r = Z3_mk_fpa_mul(C, rne, trF(e->a), trF(e->b)); break;
  case K::FDIV: r = Z3_mk_fpa_div(C, rne, trF(e->a), trF(e->b)); break;
  case K::FSQRT: r = Z3_mk_fpa_sqrt(C, rne, trF(e->a)); break;
  case K::FNEG: r = Z3_mk_fpa_neg(C, trF(e->a)); break;
  case K::FABS: r = Z3_mk_fpa_abs(C, trF(e->a)); break;
  case K::FPTRUNC: case K::FPEXT: r = Z3_mk_fpa_to_fp_float(C, rne, trF(e->a), fpS(e->w)); break;
  case K::SITOFP: r = Z3_mk_fpa_to_fp_signed(C, rne, trV(e->a), fpS(e->w)); break;
  case K::UITOFP: r = Z3_mk_fpa_to_fp_unsigned(C, rne, trV(e->a), fpS(e->w)); break;
  case K::FROUND: r = Z3_mk_fpa_round_to_integral(C, RMv[e->v], trF(e->a)); break;
  case K::ITE: r = Z3_mk_ite(C, tr(e->a), trF(e->b), trF(e->c)); break;
  default: r = Z3_mk_fpa_to_fp_bv(C, trV(e), fpS(e->w)); break;
  }
  return e->zf = keep(r);
}

static Z3_ast tr(Expr *e) {
  if (e->z) return e->z;
  Z3_ast r;
  bool b1 = e->w == 1;
  switch (e->k) {
  case K::CONST: r = b1 ? (e->v ? Z3_mk_true(C) : Z3_mk_false(C)) : bvc(e->v, e->w); break;
  case K::VAR: {
    Z3_symbol s = Z3_mk_int_symbol(C, (int)e->v);
    r = Z3_mk_const(C, s, b1 ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, e->w));
    break;
  }
  case K::UREM:
    if (isC(e->b) && e->b->v && !b1) r = Z3_mk_bvsub(C, tr(e->a), Z3_mk_bvmul(C, tr(mkBin(K::UDIV, e->a, e->b)), tr(e->b)));
    else { r = Z3_mk_bvurem(C, trV(e->a), trV(e->b)); if (b1) r = v2b(r); }
    break;
#define BIN(kk, f) case K::kk: r = f(C, trV(e->a), trV(e->b)); if (b1) r = v2b(r); break;
  BIN(ADD, Z3_mk_bvadd) BIN(SUB, Z3_mk_bvsub) BIN(MUL, Z3_mk_bvmul) BIN(UDIV, Z3_mk_bvudiv) BIN(SDIV, Z3_mk_bvsdiv)
  BIN(SREM, Z3_mk_bvsrem) BIN(SHL, Z3_mk_bvshl) BIN(LSHR, Z3_mk_bvlshr) BIN(ASHR, Z3_mk_bvashr)
#undef BIN
  case K::AND: if (b1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(C, 2, x); } else r = Z3_mk_bvand(C, tr(e->a), tr(e->b)); break;
  case K::OR: if (b1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_or(C, 2, x); } else r = Z3_mk_bvor(C, tr(e->a), tr(e->b)); break;
  case K::XOR:
    if (b1) r = isTrue(e->b) ? Z3_mk_not(C, tr(e->a)) : Z3_mk_xor(C, tr(e->a), tr(e->b));
    else r = Z3_mk_bvxor(C, tr(e->a), tr(e->b));
    break;
  case K::EQ: r = Z3_mk_eq(C, tr(e->a), tr(e->b)); break;
  case K::ULT: r = Z3_mk_bvult(C, trV(e->a), trV(e->b)); break;
  case K::ULE: r = Z3_mk_bvule(C, trV(e->a), trV(e->b)); break;
  case K::SLT: r = Z3_mk_bvslt(C, trV(e->a), trV(e->b)); break;
  case K::SLE: r = Z3_mk_bvsle(C, trV(e->a), trV(e->b)); break;
  case K::ITE: r = Z3_mk_ite(C, tr(e->a), tr(e->b), tr(e->c)); break;
  case K::CONCAT: r = Z3_mk_concat(C, trV(e->a), trV(e->b)); break;
  case K::EXTRACT: r = Z3_mk_extract(C, e->v + e->w - 1, e->v, trV(e->a)); if (b1) r = v2b(r); break;
  case K::ZEXT: r = e->a->w == 1 ? Z3_mk_ite(C, tr(e->a), bvc(1, e->w), bvc(0, e->w)) : Z3_mk_zero_ext(C, e->w - e->a->w, tr(e->a)); break;
  case K::SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, trV(e->a)); break;
  case K::FEQ: r = Z3_mk_fpa_eq(C, trF(e->a), trF(e->b)); break;
  case K::FLT: r = Z3_mk_fpa_lt(C, trF(e->a), trF(e->b)); break;
  case K::FLE: r = Z3_mk_fpa_leq(C, trF(e->a), trF(e->b)); break;
  case K::FNAN: r = Z3_mk_fpa_is_nan(C, trF(e->a)); break;
  case K::FNEG: r = Z3_mk_bvxor(C, tr(e->a), bvc(1ULL << (e->w - 1), e->w)); break;
  case K::FABS: r = Z3_mk_bvand(C, tr(e->a), bvc(mask(e->w - 1), e->w)); break;
  case K::FPTOSI: {
    unsigned aw = e->a->w;
    Z3_ast x = Z3_mk_fpa_round_to_integral(C, RMv[RM_TRUNC], trF(e->a));
    Z3_ast c[2] = {Z3_mk_fpa_geq(C, x, fpConst(-std::ldexp(1.0, e->w - 1), aw)), Z3_mk_fpa_lt(C, x, fpConst(std::ldexp(1.0, e->w - 1), aw))};
    r = Z3_mk_ite(C, Z3_mk_and(C, 2, c), Z3_mk_fpa_to_sbv(C, RMv[RM_TRUNC], trF(e->a), e->w), bvc(1ULL << (e->w - 1), e->w));
    break;
  }
  case K::FPTOUI: {
    unsigned aw = e->a->w;
    Z3_ast x = Z3_mk_fpa_round_to_integral(C, RMv[RM_TRUNC], trF(e->a));
    Z3_ast c[2] = {Z3_mk_fpa_geq(C, x, fpConst(0, aw)), Z3_mk_fpa_lt(C, x, fpConst(std::ldexp(1.0, e->w), aw))};
    r = Z3_mk_ite(C, Z3_mk_and(C, 2, c), Z3_mk_fpa_to_ubv(C, RMv[RM_TRUNC], trF(e->a), e->w), bvc(0, e->w));
    break;
  }
  case K::UF: {
    Z3_sort dom[2] = {Z3_mk_bv_sort(C, e->a->w), e->b ? Z3_mk_bv_sort(C, e->b->w) : nullptr};
    Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, ("uf_" + g_ufs[e->v]).c_str()), e->b ? 2 : 1, dom, Z3_mk_bv_sort(C, e->w));
    Z3_ast args[2] = {trV(e->a), e->b ? trV(e->b) : nullptr};
    r = Z3_mk_app(C, f, e->b ? 2 : 1, args);
    break;
  }
  default:
    if (isFpKind(e->k)) { r = Z3_mk_fpa_to_ieee_bv(C, trF(e)); break; }
    fprintf(stderr, "tr: bad kind %d\n", (int)e->k);
    abort();
  }
  return e->z = keep(r);
}

static std::deque<std::shared_ptr<Model>> g_recent;
struct QH { size_t operator()(const std::vector<uint32_t> &s) const { uint64_t h = s.size(); for (auto x : s) { h ^= x; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 31; } return h; } };
struct QR { Sat r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::vector<uint32_t>, QR, QH> g_qcache;

// `e` with the conditions assumed true replaced by constants, terms they equate replaced by one of the two, and divisions that
// the assumed upper bounds make trivial removed.
struct Ctx {
  std::unordered_map<Expr *, Expr *> memo;
  std::unordered_map<Expr *, uint64_t> below;  // e < bound
};
// The younger term, which the older one cannot contain, gives way to the older one; anything gives way to a constant.
static void equate(Expr *a, Expr *b, Ctx &x) {
  if (a == b) return;
  if (isC(b)) { x.memo[a] = b; return; }
  if (isC(a)) { x.memo[b] = a; return; }
  if (a->k == K::CONCAT && b->k == K::CONCAT && a->a->w == b->a->w) { equate(a->a, b->a, x); equate(a->b, b->b, x); }
  if (a->id < b->id) std::swap(a, b);
  x.memo.emplace(a, b);
}
static void assumeIn(Expr *c, bool v, Ctx &x) {
  if (c->k == K::CONST) return;
  x.memo[c] = mkConst(v, 1);
  if (c->k == K::XOR && isTrue(c->b)) assumeIn(c->a, !v, x);
  if (c->k == K::AND && v) { assumeIn(c->a, v, x); assumeIn(c->b, v, x); }
  if (c->k == K::OR && !v) { assumeIn(c->a, v, x); assumeIn(c->b, v, x); }
  if (c->k == K::EQ && v) equate(c->a, c->b, x);
  auto below = [&](Expr *e, uint64_t n) {
    auto it = x.below.find(e);
    if (it == x.below.end()) x.below[e] = n;
    else it->second = std::min(it->second, n);
  };
  if (c->k == K::ULT && v && isC(c->b)) below(c->a, c->b->v);
  if (c->k == K::ULE && v && isC(c->b) && c->b->v < mask(c->b->w)) below(c->a, c->b->v + 1);
  if (c->k == K::ULT && !v && isC(c->a) && c->a->v < mask(c->a->w)) below(c->b, c->a->v + 1);
  if (c->k == K::ULE && !v && isC(c->a)) below(c->b, c->a->v);
}
static Expr *simpRec(Expr *e, Ctx &x) {
  if (e->k == K::CONST) return e;
  auto it = x.memo.find(e);
  if (it != x.memo.end()) return it->second;
  if (e->k == K::VAR) return e;
  Expr *a = e->a ? simpRec(e->a, x) : nullptr;
  Expr *b = e->b ? simpRec(e->b, x) : nullptr;
  Expr *c = e->c ? simpRec(e->c, x) : nullptr;
  Expr *r;
  if ((e->k == K::UREM || e->k == K::UDIV) && isC(b) && b->v) {
    auto t = x.below.find(a);
    if (t != x.below.end() && t->second <= b->v) { r = e->k == K::UREM ? a : mkConst(0, e->w); x.memo[e] = r; return r; }
  }
  r = (a == e->a && b == e->b && c == e->c) ? e : rebuild(e, a, b, c);
  if (r != e) { it = x.memo.find(r); if (it != x.memo.end()) r = it->second; }
  x.memo[e] = r;
  return r;
}
Sat solve(const std::vector<Expr *> &pc, Expr *extra, const Model &hint, Model *out) {
  if (isFalse(extra)) return Sat::UNSAT;
  if (isTrue(extra)) { if (out) *out = hint; return Sat::SAT; }
  // independence slicing
  std::vector<Expr *> sl{extra};
  std::unordered_set<uint32_t> vs(extra->vars->begin(), extra->vars->end());
  std::vector<char> used(pc.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.size(); ++i) {
      if (used[i]) continue;
      bool hit = false;
      for (auto v : *pc[i]->vars) if (vs.count(v)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1;
      ch = true;
      sl.push_back(pc[i]);
      vs.insert(pc[i]->vars->begin(), pc[i]->vars->end());
    }
  }
  std::vector<uint32_t> key;
  for (auto *e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto emit = [&](const std::vector<std::pair<uint32_t, uint64_t>> &as) {
    if (!out) return;
    Model m = hint;
    for (auto &p : as) { if (m.size() <= p.first) m.resize(g_vars.size(), 0); m[p.first] = p.second; }
    *out = std::move(m);
  };
  auto it = g_qcache.find(key);
  if (it != g_qcache.end()) { ++g_ss.cached; if (it->second.r == Sat::SAT) emit(it->second.m); return it->second.r; }
  // try recent models
  for (auto &rm : g_recent) {
    ++g_ss.cached;
    bool ok = true;
    for (auto *e : sl) if (!evalExpr(e, *rm)) { ok = false; break; }
    if (ok) {
      std::vector<std::pair<uint32_t, uint64_t>> as;
      for (auto v : vs) as.push_back({v, v < rm->size() ? (*rm)[v] : 0});
      emit(as);
      return Sat::SAT;
    }
    --g_ss.cached;
  }
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver s = nullptr;
  Z3_lbool r = Z3_L_UNDEF;
  // First the question simplified under the path condition; as it stands only when that brings no answer.
  unsigned first = g_timeoutMs;
  for (int attempt = 0; attempt < 2 && r == Z3_L_UNDEF; ++attempt) {
    std::vector<Expr *> q = sl;
    if (!attempt) {
      Ctx ctx;
      for (size_t i = 1; i < sl.size(); ++i) assumeIn(sl[i], true, ctx);
      q[0] = simpRec(sl[0], ctx);
      if (isFalse(q[0])) { r = Z3_L_FALSE; ++g_ss.simplified; break; }
    } else Z3_solver_dec_ref(C, s);
    s = Z3_mk_solver(C);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), attempt ? g_timeoutMs : first);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    for (auto *e : q) Z3_solver_assert(C, s, tr(e));
    g_ss.asserts += q.size();
    r = Z3_solver_check(C, s);
  }
  QR qr{r == Z3_L_TRUE ? Sat::SAT : r == Z3_L_FALSE ? Sat::UNSAT : Sat::UNKNOWN, {}};
  ++g_ss.queries;
  if (r == Z3_L_TRUE) {
    ++g_ss.sat;
    Z3_model m = Z3_solver_get_model(C, s);
    Z3_model_inc_ref(C, m);
    auto mm = std::make_shared<Model>(g_vars.size(), 0);
    for (auto v : vs) {
      Expr *ve = mkNode(K::VAR, g_vars[v].w, nullptr, nullptr, nullptr, v);
      Z3_ast o = nullptr;
      uint64_t val = 0;
      if (Z3_model_eval(C, m, tr(ve), true, &o) && o) {
        Z3_inc_ref(C, o);
        if (g_vars[v].w == 1) val = Z3_get_bool_value(C, o) == Z3_L_TRUE;
        else Z3_get_numeral_uint64(C, o, &val);
        Z3_dec_ref(C, o);
      }
      qr.m.push_back({v, val});
      (*mm)[v] = val;
    }
    Z3_model_dec_ref(C, m);
    g_recent.push_front(mm);
    if (g_recent.size() > 12) g_recent.pop_back();
    emit(qr.m);
  } else if (r == Z3_L_FALSE) ++g_ss.unsat;
  else ++g_ss.unknown;
  if (s && !g_dumpDir.empty()) {
    std::ofstream f(g_dumpDir + "/q" + std::to_string(g_ss.queries) + ".smt2");
    f << "; expect " << (r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown") << "\n" << Z3_solver_to_string(C, s) << "(check-sat)\n";
  }
  if (s) Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt;
  if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (g_qcache.size() > 200000) g_qcache.clear();
  g_qcache.emplace(std::move(key), qr);
  return qr.r;
}

Sat solveDistinct(Expr *a, Expr *b) {
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver s = Z3_mk_solver(C);
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_timeoutMs);
  Z3_solver_set_params(C, s, p);
  Z3_params_dec_ref(C, p);
  Z3_solver_assert(C, s, Z3_mk_not(C, Z3_mk_eq(C, tr(a), tr(b))));
  Z3_lbool r = Z3_solver_check(C, s);
  Z3_solver_dec_ref(C, s);
  ++g_ss.queries;
  ++g_ss.asserts;
  (r == Z3_L_FALSE ? g_ss.unsat : r == Z3_L_TRUE ? g_ss.sat : g_ss.unknown)++;
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt;
  if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  return r == Z3_L_FALSE ? Sat::UNSAT : r == Z3_L_TRUE ? Sat::SAT : Sat::UNKNOWN;
}
