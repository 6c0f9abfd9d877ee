// Random test of the expression layer: the rewriting constructors against plain evaluation, the translation to Z3 against
// evaluation, and solve() under assumptions against evaluation.   selftest [rounds] [seed]
#include <cstdio>
#include <cstdlib>
#include <random>
#include "expr.h"
static std::mt19937_64 rng;
static uint64_t rnd(uint64_t n) { return rng() % n; }
static uint64_t interesting(unsigned w) {
  static const uint64_t k[] = {0, 1, 2, 3, 9, 10, 47, 48, 57, 58, 99, 100, 127, 128, 255, 256, 1000, 10000, 1000000000, 0x7fffffff, 0x80000000, ~0ull, ~0ull - 9, 1ull << 63, 7, 64, 32, 31};
  switch (rnd(4)) { case 0: return rng() & mask(w); case 1: return (1ull << rnd(w)) & mask(w); default: return k[rnd(sizeof k / 8)] & mask(w); }
}
struct T { Expr *e; std::vector<uint64_t> v; };  // expression and its value in each model
int main(int argc, char **argv) {
  int rounds = argc > 1 ? atoi(argv[1]) : 200;
  rng.seed(argc > 2 ? atoi(argv[2]) : 1);
  solverInit();
  g_timeoutMs = 2000;
  const int M = 12;
  unsigned ws[] = {1, 8, 16, 32, 64};
  long n = 0, q = 0, bad = 0, unk = 0;
  for (int round = 0; round < rounds; ++round) {
    std::vector<T> pool;
    bool fp = false;  // the payload of a NaN is the solver's own choice
    std::vector<Model> ms(M);
    for (unsigned w : ws)
      for (int i = 0; i < 2; ++i) {
        T t{mkVar("v" + std::to_string(w) + "_" + std::to_string(i) + "_" + std::to_string(round), w), {}};
        for (int m = 0; m < M; ++m) { uint64_t x = interesting(w); t.v.push_back(x); ms[m].resize(g_vars.size(), 0); ms[m][t.e->v] = x; }
        pool.push_back(t);
      }
    auto pick = [&](unsigned w) -> T {
      if (rnd(3) == 0) { uint64_t c = interesting(w); return T{mkConst(c, w), std::vector<uint64_t>(M, c)}; }
      for (;;) { T &t = pool[rnd(pool.size())]; if (t.e->w == w) return t; }
    };
    for (int step = 0; step < 120; ++step) {
      unsigned w = ws[rnd(5)];
      T r;
      r.v.resize(M);
      switch (rnd(10)) {
      case 0: case 1: case 2: {
        static const K ks[] = {K::ADD, K::SUB, K::MUL, K::UDIV, K::SDIV, K::UREM, K::SREM, K::AND, K::OR, K::XOR, K::SHL, K::LSHR, K::ASHR, K::ADD, K::UDIV, K::UREM};
        K k = ks[rnd(16)];
        if (w == 1 && k != K::AND && k != K::OR && k != K::XOR) k = K::AND;
        T a = pick(w), b = pick(w);
        if (k == K::UDIV || k == K::SDIV || k == K::UREM || k == K::SREM) {
          bool z = false;
          for (int m = 0; m < M; ++m) if (!b.v[m]) z = true;
          if (z) { b.e = mkBin(K::OR, b.e, mkConst(1, w)); for (auto &x : b.v) x |= 1; }
        }
        r.e = mkBin(k, a.e, b.e);
        for (int m = 0; m < M; ++m) r.v[m] = foldOp(k, w, w, a.v[m], b.v[m], 0) & mask(w);
        break;
      }
      case 3: {
        static const K ks[] = {K::EQ, K::ULT, K::ULE, K::SLT, K::SLE};
        K k = ks[rnd(5)];
        if (w == 1) k = K::EQ;
        T a = pick(w), b = pick(w);
        r.e = mkBin(k, a.e, b.e);
        for (int m = 0; m < M; ++m) r.v[m] = foldOp(k, 1, w, a.v[m], b.v[m], 0) & 1;
        break;
      }
      case 4: {
        T c = pick(1), a = pick(w), b = pick(w);
        if (rnd(3) == 0) { r.e = mkNot(c.e); for (int m = 0; m < M; ++m) r.v[m] = !c.v[m]; break; }
        r.e = mkIte(c.e, a.e, b.e);
        for (int m = 0; m < M; ++m) r.v[m] = c.v[m] ? a.v[m] : b.v[m];
        break;
      }
      case 5: {
        T a = pick(w);
        unsigned w2 = ws[rnd(5)];
        if (w2 > w) std::swap(w2, w), a = pick(w);
        unsigned lo = rnd(2) ? 0 : rnd(w - w2 + 1);
        r.e = mkExtract(a.e, lo, w2);
        for (int m = 0; m < M; ++m) r.v[m] = (a.v[m] >> lo) & mask(w2);
        break;
      }
      case 6: {
        T a = pick(w);
        unsigned w2 = ws[rnd(5)];
        if (w2 < w) std::swap(w2, w), a = pick(w);
        bool s = rnd(2);
        r.e = s ? mkSext(a.e, w2) : mkZext(a.e, w2);
        for (int m = 0; m < M; ++m) r.v[m] = s ? (uint64_t)sext(a.v[m], w) & mask(w2) : a.v[m];
        break;
      }
      case 7: {  // digits
        if (w < 8) w = 8;
        T y = pick(w);
        uint64_t k = 2 + rnd(12), mm = 2 + rnd(12);
        if (rnd(2)) k = mm = 10;
        int depth = rnd(3);
        auto dv = [&](T t, uint64_t c) { for (auto &x : t.v) x /= c; t.e = mkBin(K::UDIV, t.e, mkConst(c, t.e->w)); return t; };
        auto rm = [&](T t, uint64_t c) { for (auto &x : t.v) x %= c; t.e = mkBin(K::UREM, t.e, mkConst(c, t.e->w)); return t; };
        for (int i = 0; i < depth; ++i) y = dv(y, k);
        T hi = rm(dv(y, k), mm), lo = rm(y, k);
        if (rnd(2)) hi = dv(y, k);
        r.e = mkBin(K::ADD, mkBin(K::MUL, hi.e, mkConst(k, w)), lo.e);
        for (int m = 0; m < M; ++m) r.v[m] = (hi.v[m] * k + lo.v[m]) & mask(w);
        break;
      }
      case 8: {  // floating point
        fp = true;
        unsigned fw = rnd(2) ? 32 : 64;
        T a = pick(fw), b = pick(fw);
        static const K ks[] = {K::FADD, K::FSUB, K::FMUL, K::FDIV, K::FEQ, K::FLT, K::FLE, K::FNEG, K::FABS, K::FNAN, K::FPTRUNC, K::FPEXT, K::SITOFP, K::UITOFP};
        K k = ks[rnd(14)];
        unsigned ow = fw;
        if (k == K::FPTRUNC) { a = pick(64); ow = 32; }
        if (k == K::FPEXT) { a = pick(32); ow = 64; }
        if (k == K::FEQ || k == K::FLT || k == K::FLE || k == K::FNAN) ow = 1;
        bool un = k == K::FNEG || k == K::FABS || k >= K::FNAN;
        r.e = un ? mkFUn(k, a.e, ow) : mkBin(k, a.e, b.e);
        for (int m = 0; m < M; ++m) r.v[m] = foldOp(k, ow, a.e->w, a.v[m], un ? 0 : b.v[m], 0) & mask(ow);
        if (ow != 1) {  // the payload of a NaN is not specified
          bool nan = false;
          for (int m = 0; m < M; ++m) if (ow == 32 ? (r.v[m] & 0x7fffffff) > 0x7f800000 : (r.v[m] & ~(1ull << 63)) > 0x7ff0000000000000ull) nan = true;
          if (nan) { r = pool[0]; }
        }
        break;
      }
      default: {
        unsigned h = rnd(2) ? 8 : 16;
        T a = pick(h), b = pick(h);
        r.e = mkConcat(a.e, b.e);
        for (int m = 0; m < M; ++m) r.v[m] = (a.v[m] << h) | b.v[m];
        break;
      }
      }
      ++n;
      for (int m = 0; m < M; ++m)
        if (evalExpr(r.e, ms[m]) != r.v[m]) { ++bad; if (bad < 20) printf("rewrite: kind %d width %d got %llx want %llx\n", (int)r.e->k, r.e->w, (unsigned long long)evalExpr(r.e, ms[m]), (unsigned long long)r.v[m]); }
      pool.push_back(r);
      if (rnd(6) == 0) {
        // under the model's values for all variables the expression cannot differ from its value; and with a few of the
        // pool's conditions assumed, a value a model shows to be possible must be found possible
        int m = rnd(M);
        std::vector<Expr *> pc;
        for (int i = 0; i < 10; ++i) pc.push_back(mkBin(K::EQ, pool[i].e, mkConst(pool[i].v[m], pool[i].e->w)));
        Model h = ms[m], o;
        ++q;
        if (solve(pc, mkNot(mkBin(K::EQ, r.e, mkConst(r.v[m], r.e->w))), h, &o) == Sat::SAT) { ++bad; printf("solver: can differ from its value, kind %d\n", (int)r.e->k); }
        pc.clear();
        for (int i = 0; i < 6; ++i) {
          T &t = pool[rnd(pool.size())];
          if (t.e->w == 1) pc.push_back(t.v[m] ? t.e : mkNot(t.e));
          else {
            uint64_t c = interesting(t.e->w);
            Expr *x = mkBin(K::ULT, t.e, mkConst(c, t.e->w));
            pc.push_back(t.v[m] < c ? x : mkNot(x));
          }
        }
        std::vector<Expr *> pc2;
        for (auto *p : pc) if (!isC(p)) pc2.push_back(p);
        ++q;
        Sat s = solve(pc2, mkBin(K::EQ, r.e, mkConst(r.v[m], r.e->w)), h, &o);
        if (s == Sat::UNSAT) { ++bad; printf("solver: possible value found impossible, kind %d\n", (int)r.e->k); }
        if (s == Sat::UNKNOWN) ++unk;
        if (s == Sat::SAT) {
          bool ok = evalExpr(mkBin(K::EQ, r.e, mkConst(r.v[m], r.e->w)), o);
          for (auto *p : pc2) ok = ok && evalExpr(p, o);
          if (!ok && !fp) { ++bad; printf("solver: model does not satisfy the question\n"); }
        }
      }
    }
  }
  printf("selftest: %ld expressions, %ld queries (%ld unknown), %ld wrong\n", n, q, unk, bad);
  return bad != 0;
}
