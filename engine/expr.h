// Hash-consed bit-vector / floating-point expressions, their evaluation and their translation to Z3.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <z3.h>

enum class K : uint8_t {
  CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE,
  ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FSQRT, FNEG, FABS, FEQ, FLT, FLE, FNAN,
  FPTRUNC, FPEXT, FPTOSI, FPTOUI, SITOFP, UITOFP, FROUND, UF,
};
// FROUND modes (Expr::v)
enum RM : uint64_t { RM_CEIL = 0, RM_FLOOR, RM_TRUNC, RM_RNE, RM_RNA };

using VarSet = std::vector<uint32_t>;

struct Expr {
  K k;
  uint8_t w;
  uint32_t id;
  Expr *a, *b, *c;
  uint64_t v;
  const VarSet *vars;
  Z3_ast z, zf;
  uint64_t stamp, val;
};

inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sext(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ULL << (w - 1);
  v &= mask(w);
  return (int64_t)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufs;

using Model = std::vector<uint64_t>;

Expr *mkConst(uint64_t v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w);
Expr *mkBin(K k, Expr *a, Expr *b);
Expr *mkNot(Expr *a);  // width 1
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkTrunc(Expr *a, unsigned w);
Expr *mkFUn(K k, Expr *a, unsigned w, uint64_t v = 0);
Expr *mkUF(const std::string &name, Expr *a, Expr *b, unsigned w);
Expr *mkNode(K k, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t v);
Expr *substitute(Expr *e, const std::unordered_map<uint32_t, uint64_t> &bind);
bool mentions(Expr *e, const std::unordered_map<uint32_t, uint64_t> &bind);

uint64_t evalExpr(Expr *e, const Model &m);
uint64_t foldOp(K k, unsigned w, unsigned wa, uint64_t a, uint64_t b, uint64_t v);
uint64_t callUF(const std::string &name, unsigned w, uint64_t a, uint64_t b);

inline bool isC(const Expr *e) { return e->k == K::CONST; }
inline bool isTrue(const Expr *e) { return e->k == K::CONST && e->v == 1; }
inline bool isFalse(const Expr *e) { return e->k == K::CONST && e->v == 0; }

// --- solver -----------------------------------------------------------------------------------
enum class Sat { SAT, UNSAT, UNKNOWN };
struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, asserts = 0, simplified = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats g_ss;
extern unsigned g_timeoutMs;
extern std::string g_dumpDir;
void solverInit();
// Is (conjunction of pc) && extra satisfiable?  hint is a model of pc; on SAT *out is a full model.
Sat solve(const std::vector<Expr *> &pc, Expr *extra, const Model &hint, Model *out);
// Can a and b differ?
Sat solveDistinct(Expr *a, Expr *b);
