// symx: symbolic execution of LLVM bitcode.  Every input marked by the harness is a symbolic variable; branches whose
// condition depends on one are decided by Z3, both feasible sides are followed, and every check is a solver query over
// all values the path condition still allows.
#include "expr.h"

#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>

using namespace llvm;
using std::string;
using std::vector;

// ------------------------------------------------------------------------------------------------ values
struct Val {
  uint64_t c = 0;
  Expr *e = nullptr;
};
#define AGGTAG ((Expr *)1)
using Agg = vector<Val>;
static inline bool isAgg(const Val &v) { return v.e == AGGTAG; }
static inline Agg &agg(const Val &v) { return *(Agg *)v.c; }
static Val mkAgg(Agg a) { Val v; v.c = (uint64_t)(new Agg(std::move(a))); v.e = AGGTAG; return v; }
static inline Expr *X(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val V(Expr *e) { Val v; if (e->k == K::CONST) v.c = e->v; else v.e = e; return v; }
static inline Val VC(uint64_t c) { Val v; v.c = c; return v; }

struct Unsupported { string what; };
struct PathEnd {};  // this path is over (violation, infeasible assumption, limit)

// ------------------------------------------------------------------------------------------------ memory objects
enum OK : uint8_t { O_GLOBAL, O_CONST, O_STACK, O_NEW, O_NEWA, O_MALLOC, O_EXC, O_FUNC };
struct SByte { Expr *e; uint8_t i; };  // e==nullptr: i==0 concrete, i==1 undefined
// Who accessed a byte, of two threads: bits 0 and 1 reads, 2 and 3 writes, 4 to 7 the same for atomic accesses.
struct Acc { uint8_t who = 0; uint16_t locks[2] = {0xffff, 0xffff}; uint64_t last[2] = {0, 0}; };  // last: the first thread's last read and write
struct Obj {
  uint32_t rc = 0;
  bool tls = false;
  uint64_t size = 0;
  OK kind = O_GLOBAL;
  bool once = false;  // allocated while a function's static variable was being initialised: not counted as live
  vector<uint8_t> d;
  vector<SByte> s;  // empty: everything concrete
  vector<Acc> acc;  // empty: not accessed by a thread
  std::map<uint64_t, uint64_t> rel;  // the first thread's releasing stores: when
};
struct ObjRef {
  Obj *p = nullptr;
  ObjRef() = default;
  explicit ObjRef(Obj *o) : p(o) { if (p) ++p->rc; }
  ObjRef(const ObjRef &o) : p(o.p) { if (p) ++p->rc; }
  ObjRef(ObjRef &&o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef &operator=(ObjRef o) noexcept { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->rc == 0) delete p; }
};
static const unsigned SHIFT = 24;
static inline uint64_t addrOf(uint32_t id) { return (uint64_t)(id + 1) << SHIFT; }

// ------------------------------------------------------------------------------------------------ code
struct Op { int32_t reg = -1; Val v; };
struct FInfo;
struct Phi { int dst; unsigned w; vector<std::pair<int, Op>> in; };
struct Inst {
  unsigned opc = 0;
  unsigned w = 0, w2 = 0;
  int dst = -1;
  int t0 = -1, t1 = -1;
  int64_t imm = 0;
  vector<Op> ops;
  vector<uint64_t> aux;
  vector<int> tgt;
  const Instruction *I = nullptr;
  FInfo *callee = nullptr;
  bool isInvoke = false;
};
struct Block { int start; vector<Phi> phis; };
struct State;
struct Engine;
using Builtin = std::function<bool(State &, Inst &, vector<Val> &, Val &)>;
struct FInfo {
  Function *F = nullptr;
  string name;
  bool ready = false;
  bool executed = false;
  uint64_t addr = 0;
  int nregs = 0;
  vector<Inst> code;
  vector<Block> blocks;
  vector<std::pair<unsigned, uint64_t>> byval;
  const Builtin *bi = nullptr;
  bool biLooked = false;
};

struct Frame {
  FInfo *f;
  int pc = 0, blk = 0;
  vector<Val> regs;
  vector<uint32_t> allocas;
  vector<Val> va;  // arguments beyond the named ones
  Val lp;
  uint64_t freeExc = 0;
};
struct Input { string name; vector<Expr *> bytes; };
struct Exc { uint64_t tinfo, dtor; int handlers; bool rethrown; };
struct State {
  vector<Frame> frames;
  vector<ObjRef> objs;
  vector<Expr *> pc, implied;
  Model model;
  std::unordered_map<uint32_t, uint64_t> bind;
  vector<Input> inputs;
  vector<std::pair<string, Expr *>> obs;
  std::map<uint64_t, Exc> excs;
  vector<uint64_t> caught;
  uint32_t nvar = 0, nundef = 0;
  int64_t live = 0;
  unsigned thread = 0;  // 1, 2: in the first, the second of two threads
  uint64_t before = 0;  // what the first thread did until then happened before what the second one does now
  vector<std::pair<uint64_t, int>> held;  // locks: address, 1 shared or 2 exclusive
  uint32_t guard = 0;  // initialisations of function-local statics under way
  std::map<uint64_t, vector<uint32_t>> freed;  // only with --reuse
  uint64_t steps = 0;
  uint32_t depth = 0;
  bool shaky = false;  // the model may not satisfy pc under native evaluation
};

// ------------------------------------------------------------------------------------------------ engine
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const Function *, FInfo *> fmap;
static std::unordered_map<uint64_t, FInfo *> faddr;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::map<string, Builtin> builtins;
static std::unordered_map<uint64_t, string> tiName;
static std::map<string, uint64_t> tiAddr;
static std::map<string, string> tiBase;
static std::deque<State *> work;
static vector<int64_t> params;
static uint64_t maxSteps = 3000000;
static double timeLimit = 300;
static unsigned jobs = 1;
static unsigned maxViol = 3;
static uint64_t witnessSeed = 1;
static unsigned maxWit = 40;
static uint64_t g_frameSteps = 0;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
struct Shared { std::atomic<int> next, stop, viol; volatile double violAt; };
static Shared *shm;
static bool g_trace = false;

struct Result {
  std::map<string, uint64_t> n;
  std::map<string, double> t;
  std::set<string> inc, fns, reach;
  vector<string> viol, wit;
  std::set<string> violKeys;
};
static Result R;

static string esc(const string &s) {
  string r;
  for (unsigned char c : s) {
    if (c == '\t' || c == '\n' || c == '\\' || c < 32) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c;
  }
  return r;
}
static string hexByte(uint8_t b) { char x[3]; snprintf(x, 3, "%02x", b); return x; }

static Expr *simp(State &s, Expr *e) { return s.bind.empty() ? e : substitute(e, s.bind); }
static Val simpV(State &s, Val v) { return v.e && v.e != AGGTAG ? V(simp(s, v.e)) : v; }

static bool checkPc(State &s) {
  for (auto *e : s.pc) if (!evalExpr(e, s.model)) return false;
  return true;
}
static string inputsOf(State &s) {
  string r;
  for (auto &i : s.inputs) {
    r += "\t" + esc(i.name) + "=";
    for (auto *b : i.bytes) r += hexByte(evalExpr(b, s.model));
  }
  return r;
}
static string stackOf(State &s) {
  string r;
  int n = 0;
  for (auto it = s.frames.rbegin(); it != s.frames.rend() && n < 8; ++it, ++n) r += (n ? " < " : "") + it->f->name;
  return r;
}
[[noreturn]] static void violation(State &s, const string &kind, const string &msg) {
  if (s.shaky && !checkPc(s)) {
    Model m;
    Sat r = solve(s.pc, mkConst(1, 1), s.model, &m);
    (void)r;
    R.n["shaky_violations"]++;
  }
  string key = kind + "|" + msg + "|" + (s.frames.empty() ? "" : s.frames.back().f->name);
  R.n["violating_paths"]++;
  if (R.violKeys.insert(key).second && R.viol.size() < 12) {
    R.viol.push_back(esc(kind) + "\t" + esc(msg) + "\t" + esc(stackOf(s)) + inputsOf(s));
    if (shm->violAt == 0) shm->violAt = elapsed();
    if (++shm->viol >= (int)maxViol) shm->stop = 1;
  }
  throw PathEnd{};
}
static void incomplete(const string &why) { R.inc.insert(why); }
// After a violation the rest of the exploration is a courtesy.
static bool timeUp() { double e = elapsed(); return e > timeLimit || (shm->violAt > 0 && e > shm->violAt + 30); }

static void addPc(State &s, Expr *e) {
  if (isTrue(e)) return;
  if (e->k == K::AND && e->w == 1) { addPc(s, e->a); addPc(s, e->b); return; }
  if (e->k == K::XOR && isTrue(e->b) && e->a->k == K::OR) { addPc(s, mkNot(e->a->a)); addPc(s, mkNot(e->a->b)); return; }
  s.pc.push_back(e);
  if (e->k == K::EQ && e->a->k == K::VAR && isC(e->b)) s.bind[(uint32_t)e->a->v] = e->b->v;
  else if (e->k == K::VAR) s.bind[(uint32_t)e->v] = 1;
  else if (e->k == K::XOR && isTrue(e->b) && e->a->k == K::VAR) s.bind[(uint32_t)e->a->v] = 0;
}
static bool hasUF(Expr *e, std::unordered_set<Expr *> &seen) {
  if (!e || !seen.insert(e).second) return false;
  if (e->k == K::UF || e->k >= K::FADD) return true;
  return hasUF(e->a, seen) || hasUF(e->b, seen) || hasUF(e->c, seen);
}
static int known(State &s, Expr *c) {
  Expr *n = mkNot(c);
  for (auto *e : s.pc) { if (e == c) return 1; if (e == n) return 0; }
  for (auto *e : s.implied) { if (e == c) return 1; if (e == n) return 0; }
  return -1;
}
static State *cloneState(State &s) { R.n["forks"]++; return new State(s); }
static bool modelOk(State &s, Expr *extra, Model &m) {
  for (auto *e : s.pc) if (!evalExpr(e, m)) return false;
  return evalExpr(extra, m);
}
// Decide a condition; the current state continues on one side, a copy that restarts the current instruction on the other.
static bool decide(State &s, Expr *c) {
  c = simp(s, c);
  if (isC(c)) return c->v;
  int kn = known(s, c);
  if (kn >= 0) return kn;
  bool side = evalExpr(c, s.model);
  Expr *taken = side ? c : mkNot(c), *other = side ? mkNot(c) : c;
  Model m2;
  Sat r = solve(s.pc, other, s.model, &m2);
  R.n["branch_decisions"]++;
  if (r == Sat::UNKNOWN) incomplete("solver gave no answer at a branch in " + s.frames.back().f->name);
  if (r == Sat::SAT) {
    State *o = cloneState(s);
    o->model = m2;
    if (!modelOk(s, other, m2)) o->shaky = true;
    addPc(*o, other);
    o->depth++;
    work.push_back(o);
    addPc(s, taken);
    s.depth++;
  } else if (s.shaky) {
    // other side impossible: if the model is unreliable make sure this side is possible at all
    Sat q = solve(s.pc, taken, s.model, &m2);
    if (q == Sat::UNSAT) { R.n["infeasible"]++; throw PathEnd{}; }
    s.implied.push_back(taken);
  } else s.implied.push_back(taken);
  return side;
}
static uint64_t concretize(State &s, Expr *e, const char *why) {
  for (;;) {
    e = simp(s, e);
    if (isC(e)) return e->v;
    if (e->k == K::ITE) { e = decide(s, e->a) ? e->b : e->c; continue; }
    uint64_t v = evalExpr(e, s.model);
    R.n["concretizations"]++;
    if (decide(s, mkBin(K::EQ, e, mkConst(v, e->w)))) return v;
    v = evalExpr(e, s.model);
    if (known(s, mkBin(K::EQ, e, mkConst(v, e->w))) == 1) return v;
  }
}
static uint64_t conc(State &s, const Val &v, const char *why = "") { return v.e ? concretize(s, v.e, why) : v.c; }

// --- variables (interned per sequence number so that paths share them) ---
static std::map<std::tuple<uint32_t, unsigned, int>, Expr *> g_varTab;
static Expr *freshVar(State &s, unsigned w, const string &name, bool undef = false) {
  uint32_t seq = undef ? s.nundef++ : s.nvar++;
  auto &e = g_varTab[{seq, w, undef}];
  if (!e) e = mkVar((undef ? "undef" : "in") + std::to_string(seq) + "_" + name, w);
  return e;
}

// --- memory ---
static uint32_t newObj(State &s, uint64_t size, OK kind, bool undef) {
  Obj *o = new Obj;
  o->size = size;
  o->kind = kind;
  o->d.assign(size, 0);
  if (undef && size) o->s.assign(size, SByte{nullptr, 1});
  s.objs.push_back(ObjRef(o));
  return s.objs.size() - 1;
}
static Obj *wr(State &s, uint32_t id) {
  ObjRef &r = s.objs[id];
  if (r.p->rc > 1) { Obj *n = new Obj(*r.p); n->rc = 0; r = ObjRef(n); }
  return r.p;
}
static void freeObj(State &s, uint32_t id) { s.objs[id] = ObjRef(); }
// Addresses are normally never used twice.  With --reuse a released block's address goes to the next allocation of the
// same size class, last released first, which is what allocators do.
static bool g_reuse = false;
static uint64_t sizeClass(uint64_t n) { return n <= 24 ? 24 : (n + 7) / 16 * 16 + 8; }
static uint32_t newHeapObj(State &s, uint64_t size, OK kind, bool undef) {
  uint32_t id = newObj(s, size, kind, undef);
  if (!g_reuse) return id;
  auto it = s.freed.find(sizeClass(size));
  if (it == s.freed.end() || it->second.empty()) return id;
  uint32_t old = it->second.back();
  it->second.pop_back();
  s.objs[old] = s.objs[id];
  s.objs.pop_back();
  return old;
}
static void freeHeapObj(State &s, uint32_t id) {
  if (g_reuse) s.freed[sizeClass(s.objs[id].p->size)].push_back(id);
  freeObj(s, id);
}

static string ptrDesc(State &s, uint64_t a) {
  char b[100];
  uint64_t id = (a >> SHIFT) - 1, off = a & mask(SHIFT);
  if (a < 65536) snprintf(b, 100, "null+%llu", (unsigned long long)a);
  else if (id < s.objs.size() && s.objs[id].p) snprintf(b, 100, "offset %lld of an object of %llu bytes", (long long)off, (unsigned long long)s.objs[id].p->size);
  else snprintf(b, 100, "address %llx", (unsigned long long)a);
  return b;
}
struct Loc { uint32_t id; uint64_t off; Expr *soff = nullptr; };
// Two threads that touch the same byte, one of them writing, neither atomically nor under a common lock: a data race,
// in whatever order they run.  While nothing of the kind happens neither thread can notice the other, so that what one
// order of execution shows holds for every interleaving.
static bool g_atomic = false;
static int g_order = 0;  // 1: a releasing store, 2: an acquiring load
static vector<uint64_t> g_locks;
static uint16_t lockset(State &s, bool write) {
  uint16_t m = 0;
  for (auto &h : s.held) {
    if (write && h.second == 1) continue;
    size_t i = std::find(g_locks.begin(), g_locks.end(), h.first) - g_locks.begin();
    if (i == g_locks.size()) g_locks.push_back(h.first);
    if (i < 16) m |= 1 << i;
  }
  return m;
}
static void touch(State &s, uint32_t id, uint64_t off, uint64_t n, bool write) {
  if (s.guard) return;  // initialised once, before anyone sees it
  Obj *o = s.objs[id].p;
  if (o->kind == O_CONST || o->kind == O_FUNC || o->kind == O_STACK || o->tls) return;
  o = wr(s, id);
  if (o->acc.empty()) o->acc.resize(o->size);
  unsigned t = s.thread - 1, u = 1 - t;
  uint16_t ls = lockset(s, write);
  for (uint64_t i = off; i < off + n && i < o->size; ++i) {
    Acc &a = o->acc[i];
    unsigned plain = (a.who >> u) & 5, atom = (a.who >> (4 + u)) & 5;
    unsigned c = g_atomic ? plain : plain | atom;  // what of the other thread's could conflict
    if (t && a.last[0] < s.before) c &= 4;
    if (t && a.last[1] < s.before) c &= 1;
    if ((write ? c : c & 4) && !(ls & a.locks[u]))
      violation(s, "race", string("two threads use the same memory, ") + (write ? "the second" : "the first") + " writing it, without synchronisation");
    a.who |= (write ? 4 : 1) << t << (g_atomic ? 4 : 0);
    if (!t) a.last[write] = s.steps;
    a.locks[t] &= ls;
  }
}
// Resolve an access of n bytes; violations end the path.
static Loc locate1(State &s, const Val &p0, uint64_t n, bool write, bool allowSym);
static Loc locate(State &s, const Val &p0, uint64_t n, bool write, bool allowSym) {
  Loc l = locate1(s, p0, n, write, allowSym && !s.thread);  // in threads every address on a path of its own
  if (s.thread && g_order && !l.soff) {
    if (g_order == 1 && s.thread == 1) wr(s, l.id)->rel[l.off] = s.steps + 1;
    if (g_order == 2 && s.thread == 2) {
      auto &m = s.objs[l.id].p->rel;
      auto it = m.find(l.off);
      if (it != m.end() && it->second > s.before) s.before = it->second;
    }
  }
  if (s.thread && n) { if (l.soff) touch(s, l.id, 0, s.objs[l.id].p->size, write); else touch(s, l.id, l.off, n, write); }
  return l;
}
static Loc locate1(State &s, const Val &p0, uint64_t n, bool write, bool allowSym) {
  Val p = simpV(s, p0);
  while (p.e && p.e->k == K::ITE) p = V(simp(s, decide(s, p.e->a) ? p.e->b : p.e->c));
  auto checkObj = [&](uint64_t a) -> uint32_t {
    uint64_t id = (a >> SHIFT) - 1;
    if (a < 65536) violation(s, "null-dereference", string(write ? "write" : "read") + " through a null pointer (" + ptrDesc(s, a) + ")");
    // a small negative offset lands in the slot of the previous object
    if (id + 1 < s.objs.size() && (a & mask(SHIFT)) > (1u << SHIFT) - (1u << 20) && (!s.objs[id].p || (a & mask(SHIFT)) >= s.objs[id].p->size) && s.objs[id + 1].p)
      violation(s, "out-of-bounds", string(write ? "write" : "read") + " before the start of an object");
    if (id >= s.objs.size()) violation(s, "wild-pointer", string(write ? "write to " : "read from ") + "an address outside every object");
    if (!s.objs[id].p) violation(s, "use-after-free", string(write ? "write to " : "read from ") + "released memory");
    return id;
  };
  if (!p.e) {
    if (n == 0) { Loc l; uint64_t id = (p.c >> SHIFT) - 1; l.id = id; l.off = p.c & mask(SHIFT); return l; }
    uint32_t id = checkObj(p.c);
    uint64_t off = p.c & mask(SHIFT);
    Obj *o = s.objs[id].p;
    if (off + n > o->size) violation(s, "out-of-bounds", string(write ? "write" : "read") + " beyond an object");
    if (write && (o->kind == O_CONST || o->kind == O_FUNC)) violation(s, "write-to-constant", "write to constant memory");
    return Loc{id, off};
  }
  if (!allowSym) { uint64_t a = concretize(s, p.e, "pointer"); return locate1(s, VC(a), n, write, false); }
  // symbolic address: find the object
  // the sum of the constants of a linear address is the object's address plus a small offset (differences of pointers into
  // other objects cancel out); otherwise the object the current model points to
  uint64_t base = 0, total = 0;
  std::function<void(Expr *, bool)> sum = [&](Expr *e, bool neg) {
    if (e->k == K::ADD) { sum(e->a, neg); sum(e->b, neg); }
    else if (e->k == K::SUB) { sum(e->a, neg); sum(e->b, !neg); }
    else if (isC(e)) total += neg ? 0 - e->v : e->v;
  };
  sum(p.e, false);
  uint64_t tid = (total >> SHIFT) - 1;
  if (total > 65535) {
    if (tid + 1 < s.objs.size() && (total & mask(SHIFT)) > (1u << SHIFT) - 65536) base = addrOf(tid + 1);
    else if (tid < s.objs.size() && s.objs[tid].p && s.objs[tid].p->kind != O_FUNC) base = total;
  }
  if (!base) base = evalExpr(p.e, s.model);
  uint32_t id = checkObj(base);
  Obj *o = s.objs[id].p;
  Expr *off = mkBin(K::SUB, p.e, mkConst(addrOf(id), 64));
  if (o->size < n) violation(s, "out-of-bounds", string(write ? "write" : "read") + " beyond an object");
  if (!decide(s, mkBin(K::ULE, off, mkConst(o->size - n, 64)))) violation(s, "out-of-bounds", string(write ? "write" : "read") + " outside an object, at a computed offset");
  if (write && o->kind == O_CONST) violation(s, "write-to-constant", "write to constant memory");
  off = simp(s, off);
  if (isC(off)) return Loc{id, off->v};
  return Loc{id, 0, off};
}
static Expr *byteExpr(State &s, Obj *o, uint64_t i) {
  if (o->s.empty() || (!o->s[i].e && o->s[i].i == 0)) return mkConst(o->d[i], 8);
  if (!o->s[i].e) return freshVar(s, 8, "u", true);
  return mkExtract(o->s[i].e, o->s[i].i * 8, 8);
}
static Val readBytes(State &s, uint32_t id, uint64_t off, unsigned n) {
  Obj *o = s.objs[id].p;
  bool conc = true;
  if (!o->s.empty())
    for (unsigned i = 0; i < n; ++i) if (o->s[off + i].e || o->s[off + i].i) { conc = false; break; }
  if (conc) {
    uint64_t v = 0;
    memcpy(&v, &o->d[off], n);
    return VC(v);
  }
  SByte b0 = o->s[off];
  if (b0.e && b0.i == 0 && b0.e->w == n * 8) {
    bool same = true;
    for (unsigned i = 1; i < n; ++i) if (o->s[off + i].e != b0.e || o->s[off + i].i != i) { same = false; break; }
    if (same) return V(simp(s, b0.e));
  }
  Expr *e = byteExpr(s, o, off + n - 1);
  for (int i = (int)n - 2; i >= 0; --i) e = mkConcat(e, byteExpr(s, o, off + i));
  return V(simp(s, e));
}
static unsigned bytesOf(unsigned w) { return (w + 7) / 8; }
static Val loadVal(State &s, const Val &p, unsigned w) {
  unsigned n = bytesOf(w);
  Loc l = locate(s, p, n, false, true);
  Val r;
  if (!l.soff) r = readBytes(s, l.id, l.off, n);
  else {
    // symbolic offset: an ITE over the offsets it can take
    Obj *o = s.objs[l.id].p;
    unsigned tz = 0;
    {
      Expr *x = l.soff;
      auto tzOf = [&](auto &&self, Expr *e) -> unsigned {
        if (isC(e)) return e->v ? __builtin_ctzll(e->v) : 63;
        if (e->k == K::CONCAT && isC(e->b) && e->b->v == 0) return e->b->w;
        if (e->k == K::ADD || e->k == K::OR) return std::min(self(self, e->a), self(self, e->b));
        if (e->k == K::ITE) return std::min(self(self, e->b), self(self, e->c));
        if (e->k == K::MUL && isC(e->b)) return __builtin_ctzll(e->b->v | (1ULL << 63));
        if (e->k == K::ZEXT) { unsigned t = self(self, e->a); return t; }
        return 0;
      };
      tz = std::min(tzOf(tzOf, x), 6u);
    }
    uint64_t step = 1ULL << tz;
    if ((o->size - n) / step > 5000) throw Unsupported{"symbolic offset into an object of " + std::to_string(o->size) + " bytes"};
    // bounds of the offset, cheaply: only candidates; unreachable ones do no harm
    Expr *e = nullptr;
    for (uint64_t k = 0; k + n <= o->size; k += step) {
      Expr *v = X(readBytes(s, l.id, k, n), n * 8);
      e = e ? mkIte(mkBin(K::EQ, l.soff, mkConst(k, 64)), v, e) : v;
    }
    r = V(e);
  }
  if (w != n * 8) r = r.e ? V(mkTrunc(r.e, w)) : VC(r.c & mask(w));
  return r;
}
static void writeBytes(Obj *o, uint64_t off, unsigned n, const Val &v) {
  if (!v.e) {
    memcpy(&o->d[off], &v.c, n);
    if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) o->s[off + i] = SByte{nullptr, 0};
  } else {
    if (o->s.empty()) o->s.assign(o->size, SByte{nullptr, 0});
    for (unsigned i = 0; i < n; ++i) o->s[off + i] = SByte{v.e, (uint8_t)i};
  }
}
static void storeVal(State &s, const Val &p, Val v, unsigned w) {
  unsigned n = bytesOf(w);
  Loc l = locate(s, p, n, true, false);
  if (w != n * 8 && v.e) v = V(mkZext(v.e, n * 8));
  if (v.e && isC(v.e)) v = VC(v.e->v);
  writeBytes(wr(s, l.id), l.off, n, v);
}
static unsigned widthOf(Type *t) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) throw Unsupported{"integer wider than 64 bits"}; return w; }
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) throw Unsupported{"long double"};
  return 0;
}
static Val loadTy(State &s, const Val &p, Type *t) {
  unsigned w = widthOf(t);
  if (w) return loadVal(s, p, w);
  Agg a;
  uint64_t base = conc(s, p);
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) a.push_back(loadTy(s, VC(base + sl->getElementOffset(i)), st->getElementType(i)));
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); ++i) a.push_back(loadTy(s, VC(base + i * sz), at->getElementType()));
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); ++i) a.push_back(loadTy(s, VC(base + i * sz), vt->getElementType()));
  } else throw Unsupported{"load of an unusual type"};
  return mkAgg(a);
}
static void storeTy(State &s, const Val &p, const Val &v, Type *t) {
  unsigned w = widthOf(t);
  if (w) { storeVal(s, p, v, w); return; }
  uint64_t base = conc(s, p);
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(s, VC(base + sl->getElementOffset(i)), agg(v)[i], st->getElementType(i));
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); ++i) storeTy(s, VC(base + i * sz), agg(v)[i], at->getElementType());
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); ++i) storeTy(s, VC(base + i * sz), agg(v)[i], vt->getElementType());
  } else throw Unsupported{"store of an unusual type"};
}
static void copyMem(State &s, const Val &d, const Val &src, uint64_t n) {
  if (!n) return;
  Loc ls = locate(s, src, n, false, false), ld = locate(s, d, n, true, false);
  Obj *o = wr(s, ld.id), *q = s.objs[ls.id].p;
  if (!q->s.empty()) {
    vector<SByte> t(q->s.begin() + ls.off, q->s.begin() + ls.off + n);
    if (o->s.empty()) o->s.assign(o->size, SByte{nullptr, 0});
    std::copy(t.begin(), t.end(), o->s.begin() + ld.off);
  } else if (!o->s.empty()) std::fill(o->s.begin() + ld.off, o->s.begin() + ld.off + n, SByte{nullptr, 0});
  memmove(&o->d[ld.off], &q->d[ls.off], n);
}
static Expr *readByteE(State &s, Loc l, uint64_t i) { return X(readBytes(s, l.id, l.off + i, 1), 8); }
static string cstr(State &s, const Val &p) {
  uint64_t a = conc(s, p);
  string r;
  for (;; ++a) {
    Loc l = locate(s, VC(a), 1, false, false);
    Val b = readBytes(s, l.id, l.off, 1);
    uint8_t c = conc(s, b);
    if (!c) return r;
    r += c;
  }
}

// ------------------------------------------------------------------------------------------------ constants
static uint64_t globalAddr(const GlobalValue *g);
static Val constVal(const Constant *c);
static int64_t gepConst(const GEPOperator *g, bool &ok) {
  APInt off(64, 0);
  ok = g->accumulateConstantOffset(*DL, off);
  return off.getSExtValue();
}
static Val constVal(const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) throw Unsupported{"wide constant"};
    return VC(ci->getZExtValue());
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    if (!t->isFloatTy() && !t->isDoubleTy()) throw Unsupported{"long double constant"};
    return VC(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return VC(0);
  if (auto *g = dyn_cast<GlobalAlias>(c)) return constVal(g->getAliasee());
  if (auto *g = dyn_cast<GlobalValue>(c)) return VC(globalAddr(g));
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    Agg a;
    for (unsigned i = 0; i < n; ++i) {
      Constant *el = c->getAggregateElement(i);
      if (!el) throw Unsupported{"constant aggregate"};
      a.push_back(constVal(el));
    }
    return mkAgg(a);
  }
  if (isa<UndefValue>(c)) return VC(0);
  if (isa<ConstantAggregateZero>(c)) return VC(0);
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      bool ok;
      int64_t off = gepConst(cast<GEPOperator>(ce), ok);
      if (!ok) break;
      return VC(constVal(ce->getOperand(0)).c + off);
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return VC(constVal(ce->getOperand(0)).c & mask(widthOf(t)));
    case Instruction::Trunc: return VC(constVal(ce->getOperand(0)).c & mask(widthOf(t)));
    case Instruction::Add: return VC((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & mask(widthOf(t)));
    case Instruction::Sub: return VC((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & mask(widthOf(t)));
    case Instruction::ICmp: {
      uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
      if (ce->getPredicate() == ICmpInst::ICMP_EQ) return VC(a == b);
      if (ce->getPredicate() == ICmpInst::ICMP_NE) return VC(a != b);
      break;
    }
    default: break;
    }
  }
  string st;
  raw_string_ostream os(st);
  c->print(os);
  throw Unsupported{"constant " + os.str()};
}
static void initMem(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cd->getRawDataValues();
    memcpy(&o->d[off], r.data(), r.size());
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) initMem(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    uint64_t sz = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < n; ++i) initMem(o, off + i * sz, c->getAggregateElement(i));
    return;
  }
  Val v;
  try { v = constVal(c); } catch (Unsupported &) { return; }
  memcpy(&o->d[off], &v.c, bytesOf(widthOf(t)));
}
static uint64_t globalAddr(const GlobalValue *g) {
  auto it = gaddr.find(g);
  if (it == gaddr.end()) return 0;
  return it->second;
}

// ------------------------------------------------------------------------------------------------ precompilation
static FInfo *infoOf(Function *F) {
  auto &p = fmap[F];
  if (!p) { p = new FInfo; p->F = F; p->name = F->getName().str(); }
  return p;
}
static void compile(FInfo *fi) {
  if (fi->ready) return;
  fi->ready = true;
  Function *F = fi->F;
  DenseMap<const Value *, int> reg;
  DenseMap<const BasicBlock *, int> bid;
  int n = 0;
  for (auto &a : F->args()) {
    if (a.hasByValAttr()) fi->byval.push_back({a.getArgNo(), DL->getTypeAllocSize(a.getParamByValType())});
    reg[&a] = n++;
  }
  int nb = 0;
  for (auto &b : *F) {
    bid[&b] = nb++;
    for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++;
  }
  fi->nregs = n;
  auto op = [&](const Value *v) {
    Op o;
    if (auto *c = dyn_cast<Constant>(v)) o.v = constVal(c);
    else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) o.v = VC(0);
    else { auto it = reg.find(v); if (it == reg.end()) throw Unsupported{"operand"}; o.reg = it->second; }
    return o;
  };
  for (auto &b : *F) {
    Block B;
    B.start = fi->code.size();
    for (auto &phi : b.phis()) {
      Phi p;
      p.dst = reg[&phi];
      p.w = 0;
      for (unsigned i = 0; i < phi.getNumIncomingValues(); ++i) p.in.push_back({bid[phi.getIncomingBlock(i)], op(phi.getIncomingValue(i))});
      B.phis.push_back(std::move(p));
    }
    fi->blocks.push_back(std::move(B));
    for (auto &I : b) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      Inst in;
      in.I = &I;
      in.opc = I.getOpcode();
      if (!I.getType()->isVoidTy()) in.dst = reg[&I];
      try {
        if (!I.getType()->isVoidTy()) in.w = widthOf(I.getType());
        switch (I.getOpcode()) {
        case Instruction::Br: {
          auto &br = cast<BranchInst>(I);
          in.t0 = bid[br.getSuccessor(0)];
          if (br.isConditional()) { in.t1 = bid[br.getSuccessor(1)]; in.ops.push_back(op(br.getCondition())); }
          break;
        }
        case Instruction::Switch: {
          auto &sw = cast<SwitchInst>(I);
          in.ops.push_back(op(sw.getCondition()));
          in.w2 = widthOf(sw.getCondition()->getType());
          in.t0 = bid[sw.getDefaultDest()];
          for (auto &cs : sw.cases()) { in.aux.push_back(cs.getCaseValue()->getZExtValue()); in.tgt.push_back(bid[cs.getCaseSuccessor()]); }
          break;
        }
        case Instruction::GetElementPtr: {
          auto &g = cast<GetElementPtrInst>(I);
          if (g.getType()->isVectorTy()) throw Unsupported{"vector gep"};
          in.ops.push_back(op(g.getPointerOperand()));
          int64_t off = 0;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value *idx = gi.getOperand();
            if (auto *st = gi.getStructTypeOrNull()) {
              off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
              uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto *ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * (int64_t)sz;
              else { in.ops.push_back(op(idx)); in.aux.push_back(sz); in.aux.push_back(widthOf(idx->getType())); }
            }
          }
          in.imm = off;
          break;
        }
        case Instruction::Invoke: case Instruction::Call: {
          auto &cb = cast<CallBase>(I);
          in.isInvoke = isa<InvokeInst>(I);
          if (in.isInvoke) { in.t0 = bid[cast<InvokeInst>(I).getNormalDest()]; in.t1 = bid[cast<InvokeInst>(I).getUnwindDest()]; }
          Value *cv = cb.getCalledOperand()->stripPointerCasts();
          if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
          if (isa<InlineAsm>(cv)) in.imm = 1;
          else if (auto *cf = dyn_cast<Function>(cv)) in.callee = infoOf(cf);
          for (auto &a : cb.args()) in.ops.push_back(op(a.get()));
          if (!in.callee && !in.imm) in.ops.push_back(op(cv));
          break;
        }
        case Instruction::LandingPad: {
          auto &lp = cast<LandingPadInst>(I);
          in.imm = lp.isCleanup();
          for (unsigned i = 0; i < lp.getNumClauses(); ++i) {
            if (lp.isCatch(i)) { in.aux.push_back(0); in.ops.push_back(op(lp.getClause(i))); }
            else {
              auto *ca = lp.getClause(i);
              unsigned k = ca->getType()->getArrayNumElements();
              in.aux.push_back(1 + k);
              for (unsigned j = 0; j < k; ++j) in.ops.push_back(op(ca->getAggregateElement(j)));
            }
          }
          break;
        }
        case Instruction::ExtractValue: for (auto x : cast<ExtractValueInst>(I).indices()) in.aux.push_back(x); in.ops.push_back(op(I.getOperand(0))); break;
        case Instruction::InsertValue: for (auto x : cast<InsertValueInst>(I).indices()) in.aux.push_back(x); in.ops.push_back(op(I.getOperand(0))); in.ops.push_back(op(I.getOperand(1))); break;
        case Instruction::Alloca: in.imm = DL->getTypeAllocSize(cast<AllocaInst>(I).getAllocatedType()); in.ops.push_back(op(I.getOperand(0))); break;
        case Instruction::Unreachable: break;
        default:
          for (auto &o : I.operands()) in.ops.push_back(op(o.get()));
          if (I.getNumOperands()) { Type *t0 = I.getOperand(0)->getType(); in.w2 = t0->isSized() ? widthOf(t0) : 0; }
          break;
        }
      } catch (Unsupported &u) { in.opc = 0; string st; raw_string_ostream os(st); I.print(os); in.aux.clear(); fi->name = fi->name; in.imm = (int64_t)(new string(u.what + ":" + os.str())); }
      fi->code.push_back(std::move(in));
    }
  }
}

// ------------------------------------------------------------------------------------------------ execution
static inline Val get(Frame &f, const Op &o) { return o.reg >= 0 ? f.regs[o.reg] : o.v; }
static void jump(Frame &f, int to) {
  Block &b = f.f->blocks[to];
  if (!b.phis.empty()) {
    Val tmp[64];
    vector<Val> big;
    Val *t = tmp;
    if (b.phis.size() > 64) { big.resize(b.phis.size()); t = big.data(); }
    for (size_t i = 0; i < b.phis.size(); ++i)
      for (auto &p : b.phis[i].in) if (p.first == f.blk) { t[i] = get(f, p.second); break; }
    for (size_t i = 0; i < b.phis.size(); ++i) f.regs[b.phis[i].dst] = t[i];
  }
  f.blk = to;
  f.pc = b.start;
}
static void popFrame(State &s) {
  for (auto a : s.frames.back().allocas) freeObj(s, a);
  s.frames.pop_back();
}
static bool derives(const string &t, const string &b) {
  string x = t;
  for (int i = 0; i < 20; ++i) {
    if (x == b) return true;
    auto it = tiBase.find(x);
    if (it == tiBase.end()) return false;
    x = it->second;
  }
  return false;
}
static string demTi(const string &n) { return n.substr(0, 4) == "_ZTI" ? n.substr(4) : n; }
static void unwind(State &s, uint64_t exc) {
  Exc &x = s.excs[exc];
  string tn = tiName.count(x.tinfo) ? tiName[x.tinfo] : "?";
  State *keep = nullptr;
  (void)keep;
  string where = stackOf(s);
  while (!s.frames.empty()) {
    Frame &f = s.frames.back();
    Inst &in = f.f->code[f.pc];
    if (in.opc == Instruction::Invoke) {
      Block &b = f.f->blocks[in.t1];
      Inst &lp = f.f->code[b.start];
      bool match = false;
      int64_t sel = 0;
      size_t oi = 0;
      for (auto a : lp.aux) {
        if (a == 0) {
          uint64_t ti = lp.ops[oi++].v.c;
          if (ti == 0 || derives(tn, tiName[ti])) { match = true; sel = ti ? (ti >> SHIFT) : 0x7fffffff; break; }
        } else {
          bool any = false;
          for (uint64_t j = 0; j + 1 < a; ++j) { uint64_t ti = lp.ops[oi++].v.c; if (ti == 0 || derives(tn, tiName[ti])) any = true; }
          if (!any) { match = true; sel = -1; break; }
        }
      }
      if (match || lp.imm) {
        f.lp = mkAgg({VC(exc), VC((uint32_t)(match ? sel : 0))});
        jump(f, in.t1);
        return;
      }
    }
    if (s.frames.size() == 1) {
      s.frames.back().pc = s.frames.back().pc;
      violation(s, "uncaught-exception", "exception of type " + demTi(tn) + " left the harness; thrown at " + where);
    }
    popFrame(s);
  }
  throw PathEnd{};
}
static FInfo *fnByName(const char *n) {
  Function *F = M->getFunction(n);
  return F && !F->isDeclaration() ? infoOf(F) : nullptr;
}
static void pushFrame(State &s, FInfo *fi, vector<Val> args) {
  compile(fi);
  if (s.frames.size() > 500) violation(s, "stack-overflow", "call depth exceeds 500");
  for (auto &bv : fi->byval) {
    uint32_t id = newObj(s, bv.second, O_STACK, true);
    copyMem(s, VC(addrOf(id)), args[bv.first], bv.second);
    args[bv.first] = VC(addrOf(id));
  }
  fi->executed = true;
  Frame f;
  f.f = fi;
  f.regs.resize(fi->nregs);
  size_t named = std::min(args.size(), (size_t)fi->F->arg_size());
  for (size_t i = 0; i < named && i < (size_t)fi->nregs; ++i) f.regs[i] = args[i];
  if (fi->F->isVarArg()) f.va.assign(args.begin() + named, args.end());
  s.frames.push_back(std::move(f));
}
static void finishCall(State &s, Inst &in, const Val &r) {
  Frame &f = s.frames.back();
  if (in.dst >= 0) f.regs[in.dst] = r;
  if (in.isInvoke) jump(f, in.t0);
  else ++f.pc;
}
static Expr *fcmp(unsigned pred, Expr *a, Expr *b) {
  auto uno = [&] { return mkBin(K::OR, mkFUn(K::FNAN, a, 1), mkFUn(K::FNAN, b, 1)); };
  switch (pred) {
  case CmpInst::FCMP_FALSE: return mkConst(0, 1);
  case CmpInst::FCMP_TRUE: return mkConst(1, 1);
  case CmpInst::FCMP_OEQ: return mkBin(K::FEQ, a, b);
  case CmpInst::FCMP_UNE: return mkNot(mkBin(K::FEQ, a, b));
  case CmpInst::FCMP_OLT: return mkBin(K::FLT, a, b);
  case CmpInst::FCMP_OGT: return mkBin(K::FLT, b, a);
  case CmpInst::FCMP_OLE: return mkBin(K::FLE, a, b);
  case CmpInst::FCMP_OGE: return mkBin(K::FLE, b, a);
  case CmpInst::FCMP_ULT: return mkNot(mkBin(K::FLE, b, a));
  case CmpInst::FCMP_UGT: return mkNot(mkBin(K::FLE, a, b));
  case CmpInst::FCMP_ULE: return mkNot(mkBin(K::FLT, b, a));
  case CmpInst::FCMP_UGE: return mkNot(mkBin(K::FLT, a, b));
  case CmpInst::FCMP_UNO: return uno();
  case CmpInst::FCMP_ORD: return mkNot(uno());
  case CmpInst::FCMP_ONE: return mkBin(K::OR, mkBin(K::FLT, a, b), mkBin(K::FLT, b, a));
  case CmpInst::FCMP_UEQ: return mkNot(mkBin(K::OR, mkBin(K::FLT, a, b), mkBin(K::FLT, b, a)));
  }
  throw Unsupported{"fcmp"};
}
static Expr *icmp(unsigned pred, Expr *a, Expr *b) {
  switch (pred) {
  case CmpInst::ICMP_EQ: return mkBin(K::EQ, a, b);
  case CmpInst::ICMP_NE: return mkNot(mkBin(K::EQ, a, b));
  case CmpInst::ICMP_ULT: return mkBin(K::ULT, a, b);
  case CmpInst::ICMP_ULE: return mkBin(K::ULE, a, b);
  case CmpInst::ICMP_UGT: return mkBin(K::ULT, b, a);
  case CmpInst::ICMP_UGE: return mkBin(K::ULE, b, a);
  case CmpInst::ICMP_SLT: return mkBin(K::SLT, a, b);
  case CmpInst::ICMP_SLE: return mkBin(K::SLE, a, b);
  case CmpInst::ICMP_SGT: return mkBin(K::SLT, b, a);
  case CmpInst::ICMP_SGE: return mkBin(K::SLE, b, a);
  }
  throw Unsupported{"icmp"};
}
static K binKind(unsigned opc) {
  switch (opc) {
  case Instruction::Add: return K::ADD;
  case Instruction::Sub: return K::SUB;
  case Instruction::Mul: return K::MUL;
  case Instruction::UDiv: return K::UDIV;
  case Instruction::SDiv: return K::SDIV;
  case Instruction::URem: return K::UREM;
  case Instruction::SRem: return K::SREM;
  case Instruction::And: return K::AND;
  case Instruction::Or: return K::OR;
  case Instruction::Xor: return K::XOR;
  case Instruction::Shl: return K::SHL;
  case Instruction::LShr: return K::LSHR;
  case Instruction::AShr: return K::ASHR;
  case Instruction::FAdd: return K::FADD;
  case Instruction::FSub: return K::FSUB;
  case Instruction::FMul: return K::FMUL;
  case Instruction::FDiv: return K::FDIV;
  }
  return K::CONST;
}
static Val binop(State &s, unsigned opc, const Val &a, const Val &b, unsigned w, Type *t) {
  if (isAgg(a) || isAgg(b)) {
    Agg r;
    Type *et = cast<VectorType>(t)->getElementType();
    unsigned n = cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) r.push_back(binop(s, opc, agg(a)[i], agg(b)[i], widthOf(et), et));
    return mkAgg(r);
  }
  if (opc == Instruction::FRem) return V(mkUF(w == 32 ? "fmodf" : "fmod", X(a, w), X(b, w), w));
  K k = binKind(opc);
  if (k == K::CONST) throw Unsupported{"binary operator"};
  Val bb = b;
  if (k == K::UDIV || k == K::SDIV || k == K::UREM || k == K::SREM) {
    if (!decide(s, mkNot(mkBin(K::EQ, X(b, w), mkConst(0, w))))) violation(s, "division-trap", "integer division by zero");
    if (k == K::SDIV || k == K::SREM) {
      Expr *ov = mkBin(K::AND, mkBin(K::EQ, X(b, w), mkConst(mask(w), w)), mkBin(K::EQ, X(a, w), mkConst(1ULL << (w - 1), w)));
      if (decide(s, ov)) violation(s, "division-trap", "smallest integer divided by -1");
    }
  } else if ((k == K::SHL || k == K::LSHR || k == K::ASHR) && (w == 32 || w == 64)) {
    // x86 masks the shift amount
    bb = bb.e ? V(mkBin(K::AND, bb.e, mkConst(w - 1, w))) : VC(bb.c & (w - 1));
  }
  if (!a.e && !bb.e) return VC(foldOp(k, w, w, a.c, bb.c, 0) & mask(w));
  return V(mkBin(k, X(a, w), X(bb, w)));
}
static bool intrinsic(State &s, Inst &in, Function *F, vector<Val> &a, Val &r) {
  unsigned w = in.w;
  auto IDn = F->getIntrinsicID();
  switch (IDn) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch:
  case Intrinsic::var_annotation:
    return true;
  case Intrinsic::invariant_start: case Intrinsic::stacksave: r = VC(0); return true;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::threadlocal_address:
    r = a[0]; return true;
  case Intrinsic::is_constant: r = VC(0); return true;
  // x86-64 va_list {gp_offset, fp_offset, overflow_arg_area, reg_save_area}; everything is in the overflow area
  case Intrinsic::vastart: {
    vector<Val> va = s.frames.back().va;
    uint32_t id = newObj(s, va.size() * 8 + 8, O_STACK, false);
    s.frames.back().allocas.push_back(id);
    for (size_t i = 0; i < va.size(); ++i) storeVal(s, VC(addrOf(id) + 8 * i), va[i].e && va[i].e->w < 64 ? V(mkZext(va[i].e, 64)) : va[i], 64);
    uint64_t l = conc(s, a[0]);
    storeVal(s, VC(l), VC(48), 32);
    storeVal(s, VC(l + 4), VC(176), 32);
    storeVal(s, VC(l + 8), VC(addrOf(id)), 64);
    storeVal(s, VC(l + 16), VC(addrOf(id)), 64);
    return true;
  }
  case Intrinsic::vaend: return true;
  case Intrinsic::vacopy: copyMem(s, a[0], a[1], 24); return true;
  case Intrinsic::objectsize: r = VC(mask(w)); return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    uint64_t n = conc(s, a[2], "memcpy size");
    copyMem(s, a[0], a[1], n);
    return true;
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    uint64_t n = conc(s, a[2], "memset size");
    if (!n) return true;
    Loc l = locate(s, a[0], n, true, false);
    Obj *o = wr(s, l.id);
    for (uint64_t i = 0; i < n; ++i) writeBytes(o, l.off + i, 1, a[1]);
    return true;
  }
  case Intrinsic::umin: r = V(mkIte(mkBin(K::ULT, X(a[0], w), X(a[1], w)), X(a[0], w), X(a[1], w))); return true;
  case Intrinsic::umax: r = V(mkIte(mkBin(K::ULT, X(a[1], w), X(a[0], w)), X(a[0], w), X(a[1], w))); return true;
  case Intrinsic::smin: r = V(mkIte(mkBin(K::SLT, X(a[0], w), X(a[1], w)), X(a[0], w), X(a[1], w))); return true;
  case Intrinsic::smax: r = V(mkIte(mkBin(K::SLT, X(a[1], w), X(a[0], w)), X(a[0], w), X(a[1], w))); return true;
  case Intrinsic::abs: r = V(mkIte(mkBin(K::SLT, X(a[0], w), mkConst(0, w)), mkBin(K::SUB, mkConst(0, w), X(a[0], w)), X(a[0], w))); return true;
  case Intrinsic::bswap: {
    Expr *e = X(a[0], w), *x = nullptr;
    for (unsigned i = 0; i < w / 8; ++i) { Expr *b = mkExtract(e, i * 8, 8); x = x ? mkConcat(x, b) : b; }
    r = V(x);
    return true;
  }
  case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
    Expr *e = X(a[0], w), *x;
    if (IDn == Intrinsic::ctpop) { x = mkConst(0, w); for (unsigned i = 0; i < w; ++i) x = mkBin(K::ADD, x, mkZext(mkExtract(e, i, 1), w)); }
    else if (IDn == Intrinsic::ctlz) { x = mkConst(w, w); for (unsigned i = 0; i < w; ++i) x = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), x); }
    else { x = mkConst(w, w); for (int i = w - 1; i >= 0; --i) x = mkIte(mkExtract(e, i, 1), mkConst(i, w), x); }
    r = V(x);
    return true;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Expr *sh = mkBin(K::UREM, X(a[2], w), mkConst(w, w));
    Expr *inv = mkBin(K::SUB, mkConst(w, w), sh);
    bool l = IDn == Intrinsic::fshl;
    Expr *hi = mkBin(K::SHL, X(a[0], w), l ? sh : inv), *lo = mkBin(K::LSHR, X(a[1], w), l ? inv : sh);
    r = V(mkBin(K::OR, hi, lo));
    return true;
  }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned v = widthOf(F->getReturnType()->getStructElementType(0));
    Expr *x = X(a[0], v), *y = X(a[1], v), *z, *o;
    Expr *zero = mkConst(0, v);
    auto neg = [&](Expr *e) { return mkBin(K::SLT, e, zero); };
    switch (IDn) {
    case Intrinsic::uadd_with_overflow: z = mkBin(K::ADD, x, y); o = mkBin(K::ULT, z, x); break;
    case Intrinsic::usub_with_overflow: z = mkBin(K::SUB, x, y); o = mkBin(K::ULT, x, y); break;
    case Intrinsic::sadd_with_overflow: z = mkBin(K::ADD, x, y); o = mkBin(K::AND, mkBin(K::EQ, neg(x), neg(y)), mkNot(mkBin(K::EQ, neg(z), neg(x)))); break;
    case Intrinsic::ssub_with_overflow: z = mkBin(K::SUB, x, y); o = mkBin(K::AND, mkNot(mkBin(K::EQ, neg(x), neg(y))), mkNot(mkBin(K::EQ, neg(z), neg(x)))); break;
    case Intrinsic::umul_with_overflow:
      z = mkBin(K::MUL, x, y);
      if (isC(x)) std::swap(x, y);
      if (isC(y)) o = y->v ? mkBin(K::ULT, mkConst(mask(v) / y->v, v), x) : mkConst(0, 1);
      else if (v <= 32) o = mkNot(mkBin(K::EQ, mkExtract(mkBin(K::MUL, mkZext(x, 2 * v), mkZext(y, 2 * v)), v, v), zero));
      else o = mkBin(K::AND, mkNot(mkBin(K::EQ, x, zero)), mkNot(mkBin(K::EQ, mkBin(K::UDIV, z, x), y)));
      break;
    default:
      z = mkBin(K::MUL, x, y);
      if (v <= 32) { Expr *p = mkBin(K::MUL, mkSext(x, 2 * v), mkSext(y, 2 * v)); o = mkNot(mkBin(K::EQ, p, mkSext(mkTrunc(p, v), 2 * v))); }
      else {
        Expr *ovf = mkBin(K::AND, mkBin(K::EQ, x, mkConst(mask(v), v)), mkBin(K::EQ, y, mkConst(1ULL << (v - 1), v)));
        o = mkBin(K::AND, mkNot(mkBin(K::EQ, x, zero)), mkBin(K::OR, ovf, mkNot(mkBin(K::EQ, mkBin(K::SDIV, z, x), y))));
      }
    }
    r = mkAgg({V(z), V(o)});
    return true;
  }
  case Intrinsic::uadd_sat: { Expr *z = mkBin(K::ADD, X(a[0], w), X(a[1], w)); r = V(mkIte(mkBin(K::ULT, z, X(a[0], w)), mkConst(mask(w), w), z)); return true; }
  case Intrinsic::usub_sat: r = V(mkIte(mkBin(K::ULT, X(a[0], w), X(a[1], w)), mkConst(0, w), mkBin(K::SUB, X(a[0], w), X(a[1], w)))); return true;
  case Intrinsic::fabs: r = V(mkFUn(K::FABS, X(a[0], w), w)); return true;
  case Intrinsic::ceil: r = V(mkFUn(K::FROUND, X(a[0], w), w, RM_CEIL)); return true;
  case Intrinsic::floor: r = V(mkFUn(K::FROUND, X(a[0], w), w, RM_FLOOR)); return true;
  case Intrinsic::trunc: r = V(mkFUn(K::FROUND, X(a[0], w), w, RM_TRUNC)); return true;
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = V(mkFUn(K::FROUND, X(a[0], w), w, RM_RNE)); return true;
  case Intrinsic::round: r = V(mkFUn(K::FROUND, X(a[0], w), w, RM_RNA)); return true;
  case Intrinsic::lround: case Intrinsic::llround: {
    unsigned aw = widthOf(F->getArg(0)->getType());
    r = V(mkFUn(K::FPTOSI, mkFUn(K::FROUND, X(a[0], aw), aw, RM_RNA), w));
    return true;
  }
  case Intrinsic::lrint: case Intrinsic::llrint: {
    unsigned aw = widthOf(F->getArg(0)->getType());
    r = V(mkFUn(K::FPTOSI, mkFUn(K::FROUND, X(a[0], aw), aw, RM_RNE), w));
    return true;
  }
  case Intrinsic::sqrt: r = V(mkFUn(K::FSQRT, X(a[0], w), w)); return true;
  case Intrinsic::copysign: {
    Expr *m = mkBin(K::AND, X(a[0], w), mkConst(mask(w - 1), w)), *g = mkBin(K::AND, X(a[1], w), mkConst(1ULL << (w - 1), w));
    r = V(mkBin(K::OR, m, g));
    return true;
  }
  case Intrinsic::minnum: case Intrinsic::maxnum: {
    Expr *x = X(a[0], w), *y = X(a[1], w);
    Expr *lt = IDn == Intrinsic::minnum ? mkBin(K::FLT, y, x) : mkBin(K::FLT, x, y);
    r = V(mkIte(mkFUn(K::FNAN, x, 1), y, mkIte(lt, y, x)));
    return true;
  }
  case Intrinsic::fmuladd: r = V(mkBin(K::FADD, mkBin(K::FMUL, X(a[0], w), X(a[1], w)), X(a[2], w))); return true;
  case Intrinsic::is_fpclass: {
    unsigned aw = widthOf(F->getArg(0)->getType());
    Expr *x = X(a[0], aw);
    uint64_t m = a[1].c;
    unsigned ex = aw == 32 ? 8 : 11, mb = aw - 1 - ex;
    Expr *sg = mkExtract(x, aw - 1, 1), *ee = mkExtract(x, mb, ex), *mm = mkExtract(x, 0, mb);
    Expr *e1 = mkBin(K::EQ, ee, mkConst(mask(ex), ex)), *e0 = mkBin(K::EQ, ee, mkConst(0, ex)), *m0 = mkBin(K::EQ, mm, mkConst(0, mb));
    Expr *nan = mkBin(K::AND, e1, mkNot(m0)), *inf = mkBin(K::AND, e1, m0), *zero = mkBin(K::AND, e0, m0), *sub = mkBin(K::AND, e0, mkNot(m0));
    Expr *norm = mkBin(K::AND, mkNot(e1), mkNot(e0));
    Expr *o = mkConst(0, 1);
    Expr *q = mkExtract(x, mb - 1, 1);
    auto add = [&](unsigned bit, Expr *c) { if (m & bit) o = mkBin(K::OR, o, c); };
    add(1, mkBin(K::AND, nan, mkNot(q)));
    add(2, mkBin(K::AND, nan, q));
    add(4, mkBin(K::AND, inf, sg)); add(8, mkBin(K::AND, norm, sg)); add(16, mkBin(K::AND, sub, sg)); add(32, mkBin(K::AND, zero, sg));
    add(64, mkBin(K::AND, zero, mkNot(sg))); add(128, mkBin(K::AND, sub, mkNot(sg))); add(256, mkBin(K::AND, norm, mkNot(sg))); add(512, mkBin(K::AND, inf, mkNot(sg)));
    r = V(o);
    return true;
  }
  case Intrinsic::eh_typeid_for: r = VC((uint32_t)(a[0].c >> SHIFT)); return true;
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violation(s, "abort", "trap instruction");
  case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp2: {
    string nm = Intrinsic::getBaseName(IDn).str().substr(5);
    r = V(mkUF(w == 32 ? nm + "f" : nm, X(a[0], w), nullptr, w));
    return true;
  }
  case Intrinsic::pow: r = V(mkUF(w == 32 ? "powf" : "pow", X(a[0], w), X(a[1], w), w)); return true;
  default: return false;
  }
}

static void doCall(State &s, Inst &in) {
  Frame &f = s.frames.back();
  vector<Val> args;
  args.reserve(in.ops.size());
  for (auto &o : in.ops) args.push_back(simpV(s, get(f, o)));
  FInfo *fi = in.callee;
  if (in.imm == 1) {  // inline assembly: only empty barriers
    auto *ia = cast<InlineAsm>(cast<CallBase>(in.I)->getCalledOperand());
    if (!ia->getAsmString().empty()) throw Unsupported{"inline assembly"};
    finishCall(s, in, args.empty() ? VC(0) : args[0]);
    return;
  }
  if (!fi) {
    Val t = args.back();
    args.pop_back();
    uint64_t a = conc(s, t, "call target");
    auto it = faddr.find(a);
    if (it == faddr.end()) violation(s, "bad-call", a < 65536 ? "call through a null pointer" : "call through an invalid function pointer");
    fi = it->second;
  }
  Function *F = fi->F;
  if (!fi->biLooked) {
    fi->biLooked = true;
    auto it = builtins.find(fi->name);
    if (it != builtins.end() && (F->isDeclaration() || fi->name.compare(0, 3, "sx_") == 0)) fi->bi = &it->second;
  }
  Val r;
  if (fi->bi) {
    if ((*fi->bi)(s, in, args, r)) finishCall(s, in, r);
    return;
  }
  if (F->isIntrinsic()) {
    if (!intrinsic(s, in, F, args, r)) throw Unsupported{"intrinsic " + fi->name};
    finishCall(s, in, r);
    return;
  }
  if (F->isDeclaration()) throw Unsupported{"external function " + fi->name};
  pushFrame(s, fi, std::move(args));
}

static Val castOp(State &s, unsigned opc, const Val &a, unsigned aw, unsigned w, Type *dt, Type *st) {
  if (isAgg(a)) {
    if (opc == Instruction::BitCast) throw Unsupported{"vector bitcast"};
    Agg r;
    Type *de = cast<VectorType>(dt)->getElementType(), *se = cast<VectorType>(st)->getElementType();
    for (auto &x : agg(a)) r.push_back(castOp(s, opc, x, widthOf(se), widthOf(de), de, se));
    return mkAgg(r);
  }
  switch (opc) {
  case Instruction::Trunc: return a.e ? V(mkTrunc(a.e, w)) : VC(a.c & mask(w));
  case Instruction::ZExt: return a.e ? V(mkZext(a.e, w)) : a;
  case Instruction::SExt: return a.e ? V(mkSext(a.e, w)) : VC((uint64_t)sext(a.c, aw) & mask(w));
  case Instruction::BitCast: if (!w || aw != w) throw Unsupported{"bitcast"}; return a;
  case Instruction::PtrToInt: case Instruction::IntToPtr: return a.e ? V(w < aw ? mkTrunc(a.e, w) : mkZext(a.e, w)) : VC(a.c & mask(w));
  case Instruction::FPTrunc: return V(mkFUn(K::FPTRUNC, X(a, aw), w));
  case Instruction::FPExt: return V(mkFUn(K::FPEXT, X(a, aw), w));
  case Instruction::FPToSI: return V(mkFUn(K::FPTOSI, X(a, aw), w));
  case Instruction::FPToUI: return V(mkFUn(K::FPTOUI, X(a, aw), w));
  case Instruction::SIToFP: return V(mkFUn(K::SITOFP, X(a, aw), w));
  case Instruction::UIToFP: return V(mkFUn(K::UITOFP, X(a, aw), w));
  }
  throw Unsupported{"cast"};
}

// execute one instruction; returns false when the entry function returned
static bool step(State &s) {
  g_atomic = false;
  g_order = 0;
  Frame &f = s.frames.back();
  Inst &in = f.f->code[f.pc];
  switch (in.opc) {
  case 0: throw Unsupported{*(string *)in.imm};
  case Instruction::Ret: {
    Val r;
    if (!in.ops.empty()) r = get(f, in.ops[0]);
    uint64_t fe = f.freeExc;
    popFrame(s);
    if (fe) freeObj(s, (fe >> SHIFT) - 1), s.excs.erase(fe);
    if (s.frames.empty()) return false;
    Frame &c = s.frames.back();
    finishCall(s, c.f->code[c.pc], r);
    return true;
  }
  case Instruction::Br:
    if (in.t1 < 0) jump(f, in.t0);
    else {
      Val c = get(f, in.ops[0]);
      bool b = c.e ? decide(s, c.e) : c.c;
      jump(f, b ? in.t0 : in.t1);
    }
    return true;
  case Instruction::Switch: {
    Val c = simpV(s, get(f, in.ops[0]));
    if (!c.e) {
      int t = in.t0;
      for (size_t i = 0; i < in.aux.size(); ++i) if (in.aux[i] == c.c) { t = in.tgt[i]; break; }
      jump(f, t);
      return true;
    }
    uint64_t v = evalExpr(c.e, s.model);
    // group by target, the model's own target first
    int mt = in.t0;
    for (size_t i = 0; i < in.aux.size(); ++i) if (in.aux[i] == v) mt = in.tgt[i];
    std::map<int, Expr *> conds;
    Expr *def = mkConst(1, 1);
    for (size_t i = 0; i < in.aux.size(); ++i) {
      Expr *eq = mkBin(K::EQ, c.e, mkConst(in.aux[i], in.w2));
      def = mkBin(K::AND, def, mkNot(eq));
      if (in.tgt[i] == in.t0) continue;
      auto &x = conds[in.tgt[i]];
      x = x ? mkBin(K::OR, x, eq) : eq;
    }
    for (size_t i = 0; i < in.aux.size(); ++i)
      if (in.tgt[i] == in.t0) def = mkBin(K::OR, def, mkBin(K::EQ, c.e, mkConst(in.aux[i], in.w2)));
    conds[in.t0] = def;
    for (auto &p : conds) {
      if (p.first == mt) continue;
      Model m2;
      R.n["branch_decisions"]++;
      Sat r = solve(s.pc, p.second, s.model, &m2);
      if (r == Sat::UNKNOWN) incomplete("solver gave no answer at a switch in " + f.f->name);
      if (r != Sat::SAT) continue;
      State *o = cloneState(s);
      o->model = m2;
      if (!modelOk(s, p.second, m2)) o->shaky = true;
      addPc(*o, p.second);
      o->depth++;
      jump(o->frames.back(), p.first);
      work.push_back(o);
    }
    addPc(s, conds[mt]);
    s.depth++;
    jump(f, mt);
    return true;
  }
  case Instruction::Call: case Instruction::Invoke: doCall(s, in); return true;
  case Instruction::Unreachable: violation(s, "unreachable", "control reached code the compiler proved unreachable (undefined behaviour)");
  case Instruction::Load: {
    if (s.thread && cast<LoadInst>(in.I)->isAtomic()) { g_atomic = true; g_order = isAcquireOrStronger(cast<LoadInst>(in.I)->getOrdering()) ? 2 : 0; }
    Val r = loadTy(s, get(f, in.ops[0]), in.I->getType());
    g_atomic = false;
    g_order = 0;
    f.regs[in.dst] = r;
    break;
  }
  case Instruction::Store:
    if (s.thread && cast<StoreInst>(in.I)->isAtomic()) { g_atomic = true; g_order = isReleaseOrStronger(cast<StoreInst>(in.I)->getOrdering()) ? 1 : 0; }
    storeTy(s, get(f, in.ops[1]), simpV(s, get(f, in.ops[0])), in.I->getOperand(0)->getType());
    g_atomic = false;
    g_order = 0;
    break;
  case Instruction::Alloca: {
    uint64_t n = conc(s, get(f, in.ops[0]));
    uint32_t id = newObj(s, in.imm * n, O_STACK, true);
    f.allocas.push_back(id);
    f.regs[in.dst] = VC(addrOf(id));
    break;
  }
  case Instruction::GetElementPtr: {
    Val b = get(f, in.ops[0]);
    uint64_t off = in.imm;
    Expr *se = nullptr;
    for (size_t i = 1; i < in.ops.size(); ++i) {
      Val x = simpV(s, get(f, in.ops[i]));
      uint64_t sz = in.aux[2 * (i - 1)];
      unsigned w = in.aux[2 * (i - 1) + 1];
      if (!x.e) off += (uint64_t)sext(x.c, w) * sz;
      else {
        Expr *t = mkBin(K::MUL, mkSext(x.e, 64), mkConst(sz, 64));
        se = se ? mkBin(K::ADD, se, t) : t;
      }
    }
    if (!b.e && !se) { f.regs[in.dst] = VC(b.c + off); break; }
    Expr *e = mkBin(K::ADD, X(b, 64), mkConst(off, 64));
    if (se) e = mkBin(K::ADD, se, e);
    f.regs[in.dst] = V(e);
    break;
  }
  case Instruction::ICmp: {
    Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
    if (isAgg(a)) throw Unsupported{"vector icmp"};
    unsigned p = cast<CmpInst>(in.I)->getPredicate();
    f.regs[in.dst] = V(icmp(p, X(a, in.w2), X(b, in.w2)));
    break;
  }
  case Instruction::FCmp: {
    Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
    if (isAgg(a)) throw Unsupported{"vector fcmp"};
    f.regs[in.dst] = V(fcmp(cast<CmpInst>(in.I)->getPredicate(), X(a, in.w2), X(b, in.w2)));
    break;
  }
  case Instruction::Select: {
    Val c = simpV(s, get(f, in.ops[0])), a = get(f, in.ops[1]), b = get(f, in.ops[2]);
    if (isAgg(c)) {
      Agg r;
      unsigned ew = widthOf(cast<VectorType>(in.I->getType())->getElementType());
      for (size_t i = 0; i < agg(c).size(); ++i) r.push_back(V(mkIte(X(agg(c)[i], 1), X(agg(a)[i], ew), X(agg(b)[i], ew))));
      f.regs[in.dst] = mkAgg(r);
      break;
    }
    if (!c.e) f.regs[in.dst] = c.c ? a : b;
    else if (isAgg(a)) f.regs[in.dst] = decide(s, c.e) ? a : b;
    else f.regs[in.dst] = V(mkIte(c.e, X(a, in.w), X(b, in.w)));
    break;
  }
  case Instruction::ExtractValue: {
    Val v = get(f, in.ops[0]);
    for (auto i : in.aux) v = agg(v)[i];
    f.regs[in.dst] = v;
    break;
  }
  case Instruction::InsertValue: {
    Val v = get(f, in.ops[0]), x = get(f, in.ops[1]);
    std::function<Val(Val, size_t)> ins = [&](Val c, size_t k) -> Val {
      if (k == in.aux.size()) return x;
      Agg n = agg(c);
      n[in.aux[k]] = ins(n[in.aux[k]], k + 1);
      return mkAgg(n);
    };
    f.regs[in.dst] = ins(v, 0);
    break;
  }
  case Instruction::ExtractElement: { Val v = get(f, in.ops[0]); f.regs[in.dst] = agg(v).at(conc(s, get(f, in.ops[1]))); break; }
  case Instruction::InsertElement: { Agg n = agg(get(f, in.ops[0])); n.at(conc(s, get(f, in.ops[2]))) = get(f, in.ops[1]); f.regs[in.dst] = mkAgg(n); break; }
  case Instruction::ShuffleVector: {
    Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
    Agg r;
    for (int m : cast<ShuffleVectorInst>(in.I)->getShuffleMask()) r.push_back(m < 0 ? VC(0) : (size_t)m < agg(a).size() ? agg(a)[m] : agg(b)[m - agg(a).size()]);
    f.regs[in.dst] = mkAgg(r);
    break;
  }
  case Instruction::FNeg: { Val a = get(f, in.ops[0]); f.regs[in.dst] = V(mkFUn(K::FNEG, X(a, in.w), in.w)); break; }
  case Instruction::Freeze: f.regs[in.dst] = get(f, in.ops[0]); break;
  case Instruction::LandingPad: f.regs[in.dst] = f.lp; break;
  case Instruction::Resume: {
    Val v = get(f, in.ops[0]);
    uint64_t exc = agg(v)[0].c;
    if (s.frames.size() == 1) violation(s, "uncaught-exception", "exception left the harness: type " + tiName[s.excs[exc].tinfo]);
    popFrame(s);
    unwind(s, exc);
    return true;
  }
  case Instruction::AtomicRMW: {
    Val p = get(f, in.ops[0]), v = get(f, in.ops[1]);
    unsigned w = in.w;
    g_atomic = true;
    Val o = loadVal(s, p, w), n;
    auto cond = [&](Expr *c) { return V(mkIte(c, X(v, w), X(o, w))); };
    switch (cast<AtomicRMWInst>(in.I)->getOperation()) {
    case AtomicRMWInst::And: n = V(mkBin(K::AND, X(o, w), X(v, w))); break;
    case AtomicRMWInst::Or: n = V(mkBin(K::OR, X(o, w), X(v, w))); break;
    case AtomicRMWInst::Xor: n = V(mkBin(K::XOR, X(o, w), X(v, w))); break;
    case AtomicRMWInst::UMax: n = cond(mkBin(K::ULT, X(o, w), X(v, w))); break;
    case AtomicRMWInst::UMin: n = cond(mkBin(K::ULT, X(v, w), X(o, w))); break;
    case AtomicRMWInst::Max: n = cond(mkBin(K::SLT, X(o, w), X(v, w))); break;
    case AtomicRMWInst::Min: n = cond(mkBin(K::SLT, X(v, w), X(o, w))); break;
    case AtomicRMWInst::Add: n = V(mkBin(K::ADD, X(o, w), X(v, w))); break;
    case AtomicRMWInst::Sub: n = V(mkBin(K::SUB, X(o, w), X(v, w))); break;
    case AtomicRMWInst::Xchg: n = v; break;
    default: throw Unsupported{"atomicrmw"};
    }
    storeVal(s, p, n, w);
    g_atomic = false;
    f.regs[in.dst] = o;
    break;
  }
  case Instruction::AtomicCmpXchg: {
    Val p = get(f, in.ops[0]), c = get(f, in.ops[1]), n = get(f, in.ops[2]);
    unsigned w = widthOf(in.I->getOperand(1)->getType());
    g_atomic = true;
    Val o = loadVal(s, p, w);
    g_atomic = false;
    bool eq = decide(s, mkBin(K::EQ, X(o, w), X(c, w)));
    g_atomic = true;
    if (eq) storeVal(s, p, n, w);
    g_atomic = false;
    f.regs[in.dst] = mkAgg({o, VC(eq)});
    break;
  }
  case Instruction::Fence: break;
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
  case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
    f.regs[in.dst] = castOp(s, in.opc, get(f, in.ops[0]), in.w2, in.w, in.I->getType(), in.I->getOperand(0)->getType());
    break;
  default: {
    Val r = binop(s, in.opc, get(f, in.ops[0]), get(f, in.ops[1]), in.w, in.I->getType());
    f.regs[in.dst] = r;
  }
  }
  ++s.frames.back().pc;
  return true;
}

// ------------------------------------------------------------------------------------------------ builtins
static void addInput(State &s, const string &name, Expr *e) {
  Input i;
  i.name = name;
  for (unsigned b = 0; b < bytesOf(e->w); ++b) i.bytes.push_back(mkExtract(e, b * 8, std::min(8u, e->w - b * 8)));
  s.inputs.push_back(std::move(i));
}
static void setModel(State &s, Expr *var, uint64_t v) {
  if (s.model.size() <= var->v) s.model.resize(var->v + 1, 0);
  s.model[var->v] = v;
}
static bool throwBadAlloc(State &s) {
  FInfo *fi = fnByName("sx_throw_bad_alloc");
  if (!fi) throw Unsupported{"sx_throw_bad_alloc"};
  pushFrame(s, fi, {});
  return false;
}
static const uint64_t ALLOC_CAP = 1 << 21;
static bool doNew(State &s, const Val &n, OK kind, Val &r, bool nothrow) {
  uint64_t sz;
  if (n.e) {
    if (!decide(s, mkBin(K::ULE, n.e, mkConst(ALLOC_CAP, 64)))) { if (nothrow) { r = VC(0); return true; } return throwBadAlloc(s); }
    sz = conc(s, n, "allocation size");
  } else sz = n.c;
  if (sz > ALLOC_CAP) { if (nothrow) { r = VC(0); return true; } return throwBadAlloc(s); }
  uint32_t id = newHeapObj(s, sz, kind, true);
  if (kind == O_NEW || kind == O_NEWA) {
    if (s.guard) s.objs[id].p->once = true;
    else s.live++;
  }
  r = VC(addrOf(id));
  return true;
}
static void doFree(State &s, const Val &p, OK kind) {
  uint64_t a = conc(s, p, "pointer to release");
  if (!a) return;
  uint64_t id = (a >> SHIFT) - 1;
  if (a < 65536 || id >= s.objs.size()) violation(s, "invalid-free", "release of an address that was never allocated");
  if (!s.objs[id].p) violation(s, "double-free", "memory released twice");
  Obj *o = s.objs[id].p;
  if ((a & mask(SHIFT)) || o->kind < O_NEW || o->kind > O_MALLOC) violation(s, "invalid-free", "release of memory that was not allocated on the heap");
  if (o->kind != kind) violation(s, "mismatched-free", "memory released with a deallocation function that does not match its allocation");
  if (s.thread) touch(s, id, 0, o->size, true);
  if ((kind == O_NEW || kind == O_NEWA) && !o->once) s.live--;
  freeHeapObj(s, id);
}
static void doCheck(State &s, Expr *c, const string &msg) {
  R.n["checks"]++;
  c = simp(s, c);
  if (isTrue(c)) { R.n["checks_trivial"]++; return; }
  if (isFalse(c)) violation(s, "assertion", msg);
  Model m2;
  Sat r = solve(s.pc, mkNot(c), s.model, &m2);
  if (r == Sat::UNKNOWN) { incomplete("solver gave no answer for check: " + msg); return; }
  if (r == Sat::UNSAT) { R.n["checks_proved"]++; return; }
  // violated for some values: report from a copy; continue where it holds
  State *o = new State(s);
  o->model = m2;
  if (!modelOk(s, mkNot(c), m2)) o->shaky = true;
  o->pc.push_back(mkNot(c));
  try { violation(*o, "assertion", msg); } catch (PathEnd &) {}
  delete o;
  if (evalExpr(c, s.model)) { addPc(s, c); return; }
  r = solve(s.pc, c, s.model, &m2);
  if (r != Sat::SAT) throw PathEnd{};
  s.model = m2;
  addPc(s, c);
}
// Equality of a result with its specification.  When rewriting already made both sides the same term the solver is still
// asked (about the two sides as they were translated), so that every such verdict is the solver's.
static void doSame(State &s, Expr *a, Expr *b, int kind, const string &msg) {
  if (kind == 1) { a = mkExtract(a, 0, 32); b = mkExtract(b, 0, 32); }
  a = simp(s, a);
  b = simp(s, b);
  Expr *c = mkBin(K::EQ, a, b);
  if (kind) c = mkBin(K::OR, c, mkBin(K::AND, mkFUn(K::FNAN, a, 1), mkFUn(K::FNAN, b, 1)));
  if (!(isC(a) && isC(b)) && isTrue(c)) {
    R.n["checks"]++;
    Sat r = solveDistinct(a, b);
    if (r == Sat::UNSAT) R.n["checks_proved"]++;
    else incomplete("solver gave no answer for check: " + msg);
    return;
  }
  doCheck(s, c, msg);
}
static uint64_t strLen(State &s, const Val &p) {
  uint64_t a = conc(s, p);
  uint64_t n = 0;
  for (;; ++n) {
    Loc l = locate(s, VC(a + n), 1, false, false);
    Val b = readBytes(s, l.id, l.off, 1);
    if (b.e ? decide(s, mkBin(K::EQ, b.e, mkConst(0, 8))) : b.c == 0) return n;
  }
}
// Where c first is in the n bytes at p (l): an expression if those bytes are known, else by branching.
static Val chrIn(State &s, const Loc &l, uint64_t p, uint64_t n, Expr *c) {
  bool known = n <= 128 && !isC(c);
  for (uint64_t i = 0; known && i < n; ++i) known = isC(readByteE(s, l, i));
  if (!known) {
    for (uint64_t i = 0; i < n; ++i) if (decide(s, mkBin(K::EQ, readByteE(s, l, i), c))) return VC(p + i);
    return VC(0);
  }
  Expr *r = mkConst(0, 64);
  for (uint64_t i = n; i-- > 0;) r = mkIte(mkBin(K::EQ, readByteE(s, l, i), c), mkConst(p + i, 64), r);
  return V(r);
}
static void setupBuiltins() {
  auto B = [&](const char *n, Builtin b) { builtins[n] = std::move(b); };
#define BI [](State & s, Inst & in, vector<Val> & a, Val & r) -> bool
  // --- harness interface
  B("sx_bytes", BI {
    uint64_t n = conc(s, a[1]);
    string name = cstr(s, a[2]);
    Input i;
    i.name = name;
    if (n) {
      Loc l = locate(s, a[0], n, true, false);
      Obj *o = wr(s, l.id);
      for (uint64_t k = 0; k < n; ++k) { Expr *v = freshVar(s, 8, name); i.bytes.push_back(v); writeBytes(o, l.off + k, 1, V(v)); }
    }
    s.inputs.push_back(i);
    return true;
  });
  B("sx_i8", BI { string n = cstr(s, a[0]); Expr *v = freshVar(s, 8, n); addInput(s, n, v); r = V(v); return true; });
  B("sx_i32", BI { string n = cstr(s, a[0]); Expr *v = freshVar(s, 32, n); addInput(s, n, v); r = V(v); return true; });
  B("sx_i64", BI { string n = cstr(s, a[0]); Expr *v = freshVar(s, 64, n); addInput(s, n, v); r = V(v); return true; });
  B("sx_choice", BI {
    uint64_t n = conc(s, a[0]);
    string name = cstr(s, a[1]);
    if (n == 0) throw PathEnd{};
    Expr *v = freshVar(s, 32, name);
    addInput(s, name, v);
    for (uint64_t k = n; k-- > 1;) {
      State *o = cloneState(s);
      addPc(*o, mkBin(K::EQ, v, mkConst(k, 32)));
      setModel(*o, v, k);
      o->depth++;
      finishCall(*o, in, VC(k));
      work.push_back(o);
    }
    addPc(s, mkBin(K::EQ, v, mkConst(0, 32)));
    setModel(s, v, 0);
    r = VC(0);
    return true;
  });
  B("sx_assume", BI {
    Expr *c = simp(s, X(a[0], 1));
    if (c->w != 1) c = mkNot(mkBin(K::EQ, c, mkConst(0, c->w)));
    c = simp(s, c);
    if (isTrue(c)) return true;
    if (isFalse(c)) { R.n["assumed_away"]++; throw PathEnd{}; }
    if (!evalExpr(c, s.model)) {
      Model m;
      Sat q = solve(s.pc, c, s.model, &m);
      if (q == Sat::UNKNOWN) { incomplete("solver gave no answer for an assumption"); throw PathEnd{}; }
      if (q == Sat::UNSAT) { R.n["assumed_away"]++; throw PathEnd{}; }
      s.model = m;
      if (!modelOk(s, c, m)) s.shaky = true;
    }
    addPc(s, c);
    return true;
  });
  B("sx_check", BI {
    Expr *c = X(a[0], 1);
    if (c->w != 1) c = mkNot(mkBin(K::EQ, c, mkConst(0, c->w)));
    doCheck(s, c, cstr(s, a[1]));
    return true;
  });
  B("sx_same", BI { doSame(s, X(a[0], 64), X(a[1], 64), (int)conc(s, a[2]), cstr(s, a[3])); return true; });
  B("sx_fail", BI { R.n["checks"]++; violation(s, "assertion", cstr(s, a[0])); });
  B("sx_split", BI { Expr *c = X(a[0], 1); if (c->w != 1) c = mkNot(mkBin(K::EQ, c, mkConst(0, c->w))); r = VC(decide(s, c)); return true; });
  B("sx_observe", BI { s.obs.push_back({cstr(s, a[0]), X(a[1], 64)}); return true; });
  B("sx_live", BI { r = VC((uint64_t)s.live); return true; });
  B("sx_reach", BI { R.reach.insert(cstr(s, a[0])); return true; });
  B("sx_param", BI { uint64_t i = conc(s, a[0]); r = VC(i < params.size() ? (uint32_t)params[i] : 0); return true; });
  B("sx_symbolic", BI { r = VC(1); return true; });
  B("sx_unsupported", BI { throw Unsupported{cstr(s, a[0])}; });
  B("sx_bound", BI { incomplete("bound exceeded: " + cstr(s, a[0])); throw PathEnd{}; });
  // --- allocation
  for (const char *n : {"_Znwm", "_ZnwmSt11align_val_t"}) B(n, BI { return doNew(s, a[0], O_NEW, r, false); });
  for (const char *n : {"_Znam", "_ZnamSt11align_val_t"}) B(n, BI { return doNew(s, a[0], O_NEWA, r, false); });
  B("_ZnwmRKSt9nothrow_t", BI { return doNew(s, a[0], O_NEW, r, true); });
  B("_ZnamRKSt9nothrow_t", BI { return doNew(s, a[0], O_NEWA, r, true); });
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) B(n, BI { doFree(s, a[0], O_NEW); return true; });
  for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) B(n, BI { doFree(s, a[0], O_NEWA); return true; });
  B("malloc", BI { return doNew(s, a[0], O_MALLOC, r, true); });
  B("free", BI { doFree(s, a[0], O_MALLOC); return true; });
  B("realloc", BI {
    uint64_t p = conc(s, a[0]), n = conc(s, a[1], "allocation size");
    Val q;
    doNew(s, VC(n), O_MALLOC, q, true);
    if (p && conc(s, q)) {
      uint64_t id = (p >> SHIFT) - 1;
      if (id >= s.objs.size() || !s.objs[id].p || s.objs[id].p->kind != O_MALLOC || (p & mask(SHIFT))) violation(s, "invalid-free", "realloc of memory that was not allocated");
      copyMem(s, q, VC(p), std::min(n, s.objs[id].p->size));
      doFree(s, VC(p), O_MALLOC);
    }
    r = q;
    return true;
  });
  B("calloc", BI {
    uint64_t n = conc(s, a[0]) * conc(s, a[1]);
    if (n > ALLOC_CAP) { r = VC(0); return true; }
    r = VC(addrOf(newHeapObj(s, n, O_MALLOC, false)));
    return true;
  });
  // --- memory and strings
  auto mc = BI { uint64_t n = conc(s, a[2]); copyMem(s, a[0], a[1], n); r = a[0]; return true; };
  B("memcpy", mc);
  B("memmove", mc);
  B("memset", BI {
    uint64_t n = conc(s, a[2]);
    r = a[0];
    if (!n) return true;
    Loc l = locate(s, a[0], n, true, false);
    Obj *o = wr(s, l.id);
    Val b = V(mkTrunc(X(a[1], 32), 8));
    for (uint64_t i = 0; i < n; ++i) writeBytes(o, l.off + i, 1, b);
    return true;
  });
  B("bcmp", BI {
    uint64_t n = conc(s, a[2]);
    r = VC(0);
    if (!n) return true;
    Loc x = locate(s, a[0], n, false, false), y = locate(s, a[1], n, false, false);
    Expr *eq = mkConst(1, 1);
    for (uint64_t i = 0; i < n; ++i) eq = mkBin(K::AND, eq, mkBin(K::EQ, readByteE(s, x, i), readByteE(s, y, i)));
    r = V(mkIte(eq, mkConst(0, 32), mkConst(1, 32)));
    return true;
  });
  B("memcmp", BI {
    uint64_t n = conc(s, a[2]);
    r = VC(0);
    if (!n) return true;
    Loc x = locate(s, a[0], n, false, false), y = locate(s, a[1], n, false, false);
    Expr *e = mkConst(0, 32);
    for (uint64_t i = n; i-- > 0;) {
      Expr *p = readByteE(s, x, i), *q = readByteE(s, y, i);
      e = mkIte(mkBin(K::EQ, p, q), e, mkIte(mkBin(K::ULT, p, q), mkConst(~0ULL, 32), mkConst(1, 32)));
    }
    r = V(e);
    return true;
  });
  B("memchr", BI {
    uint64_t n = conc(s, a[2]), p = conc(s, a[0]);
    Expr *c = mkTrunc(X(a[1], 32), 8);
    r = VC(0);
    if (!n) return true;
    Loc l = locate(s, VC(p), n, false, false);
    r = chrIn(s, l, p, n, c);
    return true;
  });
  // strchr: in a known string without branching, as memchr
  auto chr = [&](const char *nm, bool orEnd) {
    builtins[nm] = [orEnd](State &s, Inst &in, vector<Val> &a, Val &r) -> bool {
      uint64_t p = conc(s, a[0]), n = strLen(s, a[0]) + 1;
      Loc l = locate(s, VC(p), n, false, false);
      r = chrIn(s, l, p, n, mkTrunc(X(a[1], 32), 8));
      if (orEnd) r = V(mkIte(mkBin(K::EQ, X(r, 64), mkConst(0, 64)), mkConst(p + n - 1, 64), X(r, 64)));
      return true;
    };
  };
  chr("strchr", false);
  chr("index", false);
  chr("strchrnul", true);
  B("strlen", BI { r = VC(strLen(s, a[0])); return true; });
  B("strnlen", BI {
    uint64_t p = conc(s, a[0]), n = conc(s, a[1]), k = 0;
    for (; k < n; ++k) { Loc l = locate(s, VC(p + k), 1, false, false); if (decide(s, mkBin(K::EQ, readByteE(s, l, 0), mkConst(0, 8)))) break; }
    r = VC(k);
    return true;
  });
  B("strcmp", BI {
    uint64_t x = conc(s, a[0]), y = conc(s, a[1]);
    for (uint64_t i = 0;; ++i) {
      Loc l = locate(s, VC(x + i), 1, false, false), m = locate(s, VC(y + i), 1, false, false);
      Expr *p = readByteE(s, l, 0), *q = readByteE(s, m, 0);
      if (!decide(s, mkBin(K::EQ, p, q))) { r = VC(decide(s, mkBin(K::ULT, p, q)) ? 0xffffffffu : 1); return true; }
      if (decide(s, mkBin(K::EQ, p, mkConst(0, 8)))) { r = VC(0); return true; }
    }
  });
  // --- C library mathematics
  for (const char *n : {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "log", "log2", "log10", "exp2", "cbrt", "expm1", "log1p", "asinh", "acosh", "atanh"}) {
    string nm = n;
    builtins[nm] = [nm](State &s, Inst &in, vector<Val> &a, Val &r) -> bool { r = V(mkUF(nm, X(a[0], 64), nullptr, 64)); return true; };
    builtins[nm + "f"] = [nm](State &s, Inst &in, vector<Val> &a, Val &r) -> bool { r = V(mkUF(nm + "f", X(a[0], 32), nullptr, 32)); return true; };
  }
  for (const char *n : {"pow", "fmod", "atan2", "hypot"}) {
    string nm = n;
    builtins[nm] = [nm](State &s, Inst &in, vector<Val> &a, Val &r) -> bool { r = V(mkUF(nm, X(a[0], 64), X(a[1], 64), 64)); return true; };
    builtins[nm + "f"] = [nm](State &s, Inst &in, vector<Val> &a, Val &r) -> bool { r = V(mkUF(nm + "f", X(a[0], 32), X(a[1], 32), 32)); return true; };
  }
  auto rnd = [&](const char *n, unsigned w, uint64_t m) { builtins[n] = [w, m](State &s, Inst &in, vector<Val> &a, Val &r) -> bool { r = V(mkFUn(K::FROUND, X(a[0], w), w, m)); return true; }; };
  rnd("ceil", 64, RM_CEIL); rnd("ceilf", 32, RM_CEIL); rnd("floor", 64, RM_FLOOR); rnd("floorf", 32, RM_FLOOR);
  rnd("trunc", 64, RM_TRUNC); rnd("truncf", 32, RM_TRUNC); rnd("round", 64, RM_RNA); rnd("roundf", 32, RM_RNA);
  rnd("rint", 64, RM_RNE); rnd("rintf", 32, RM_RNE); rnd("nearbyint", 64, RM_RNE); rnd("nearbyintf", 32, RM_RNE);
  auto lr = [&](const char *n, unsigned w, uint64_t m) { builtins[n] = [w, m](State &s, Inst &in, vector<Val> &a, Val &r) -> bool { r = V(mkFUn(K::FPTOSI, mkFUn(K::FROUND, X(a[0], w), w, m), 64)); return true; }; };
  lr("lround", 64, RM_RNA); lr("llround", 64, RM_RNA); lr("lroundf", 32, RM_RNA); lr("llroundf", 32, RM_RNA);
  lr("lrint", 64, RM_RNE); lr("llrint", 64, RM_RNE); lr("lrintf", 32, RM_RNE); lr("llrintf", 32, RM_RNE);
  B("fabs", BI { r = V(mkFUn(K::FABS, X(a[0], 64), 64)); return true; });
  B("fabsf", BI { r = V(mkFUn(K::FABS, X(a[0], 32), 32)); return true; });
  B("sqrt", BI { r = V(mkFUn(K::FSQRT, X(a[0], 64), 64)); return true; });
  B("sqrtf", BI { r = V(mkFUn(K::FSQRT, X(a[0], 32), 32)); return true; });
  // --- exceptions
  B("__cxa_allocate_exception", BI { uint32_t id = newObj(s, conc(s, a[0]), O_EXC, true); r = VC(addrOf(id)); return true; });
  B("__cxa_free_exception", BI { freeObj(s, (conc(s, a[0]) >> SHIFT) - 1); return true; });
  B("__cxa_throw", BI {
    uint64_t e = conc(s, a[0]);
    s.excs[e] = Exc{conc(s, a[1]), conc(s, a[2]), 0, false};
    unwind(s, e);
    return false;
  });
  B("__cxa_begin_catch", BI { uint64_t e = conc(s, a[0]); s.caught.push_back(e); s.excs[e].handlers++; s.excs[e].rethrown = false; r = VC(e); return true; });
  B("__cxa_get_exception_ptr", BI { r = a[0]; return true; });
  B("__cxa_end_catch", BI {
    if (s.caught.empty()) violation(s, "abort", "end_catch without a caught exception");
    uint64_t e = s.caught.back();
    s.caught.pop_back();
    Exc &x = s.excs[e];
    if (--x.handlers == 0 && !x.rethrown) {
      auto it = faddr.find(x.dtor);
      if (it != faddr.end() && !it->second->F->isDeclaration()) {
        pushFrame(s, it->second, {VC(e)});
        s.frames.back().freeExc = e;
        return false;
      }
      freeObj(s, (e >> SHIFT) - 1);
      s.excs.erase(e);
    }
    return true;
  });
  B("__cxa_rethrow", BI {
    if (s.caught.empty()) violation(s, "terminate", "rethrow without a caught exception");
    uint64_t e = s.caught.back();
    s.excs[e].rethrown = true;
    unwind(s, e);
    return false;
  });
  auto term = BI { violation(s, "terminate", "std::terminate / abort reached"); };
  for (const char *n : {"_ZSt9terminatev", "abort", "__cxa_pure_virtual", "_ZSt10unexpectedv", "__cxa_call_unexpected", "__cxa_deleted_virtual"}) B(n, term);
  B("__assert_fail", BI { violation(s, "abort", "assertion failed: " + cstr(s, a[0])); });
  B("__cxa_atexit", BI { r = VC(0); return true; });
  B("__cxa_thread_atexit", BI { r = VC(0); return true; });
  B("__cxa_guard_acquire", BI { Val g = loadVal(s, a[0], 8); bool first = conc(s, g) == 0; if (first) s.guard++; r = VC(first); return true; });
  B("__cxa_guard_release", BI { storeVal(s, a[0], VC(1), 8); s.guard--; return true; });
  B("__cxa_guard_abort", BI { s.guard--; return true; });
  B("sx_once", BI { if (conc(s, a[0])) s.guard++; else s.guard--; return true; });
  // locks and threads, as one thread sees them
  for (const char *n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype",
                        "pthread_mutexattr_destroy", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_init", "pthread_cond_destroy", "sched_yield"})
    B(n, BI { r = VC(0); return true; });
  for (const char *n : {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_rwlock_wrlock", "pthread_rwlock_trywrlock", "pthread_spin_lock"})
    B(n, BI { s.held.push_back({conc(s, a[0]), 2}); r = VC(0); return true; });
  for (const char *n : {"pthread_rwlock_rdlock", "pthread_rwlock_tryrdlock"}) B(n, BI { s.held.push_back({conc(s, a[0]), 1}); r = VC(0); return true; });
  for (const char *n : {"pthread_mutex_unlock", "pthread_rwlock_unlock", "pthread_spin_unlock"})
    B(n, BI {
      uint64_t m = conc(s, a[0]);
      for (size_t i = s.held.size(); i-- > 0;) if (s.held[i].first == m) { s.held.erase(s.held.begin() + i); break; }
      r = VC(0);
      return true;
    });
  B("sx_thread", BI { s.thread = conc(s, a[0]); return true; });
  B("_ZSt19uncaught_exceptionsv", BI { uint64_t n = 0; for (auto &e : s.excs) n += e.second.handlers == 0; r = VC(n); return true; });
  B("_ZSt18uncaught_exceptionv", BI { bool any = false; for (auto &e : s.excs) any |= e.second.handlers == 0; r = VC(any); return true; });
  B("pthread_self", BI { r = VC(1); return true; });
  for (const char *n : {"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}) B(n, BI { return true; });
}

// ------------------------------------------------------------------------------------------------ module set-up
static void setupGlobals(State &s) {
  for (auto &F : *M) {
    if (F.isIntrinsic()) continue;
    if (F.isDeclaration() && F.hasExternalWeakLinkage()) { gaddr[&F] = 0; continue; }
    FInfo *fi = infoOf(&F);
    uint32_t id = newObj(s, 1, O_FUNC, false);
    fi->addr = addrOf(id);
    gaddr[&F] = fi->addr;
    faddr[fi->addr] = fi;
  }
  for (auto &G : M->globals()) {
    if (G.isDeclaration() && G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0;
    if (G.isDeclaration() && sz < 256) sz = 256;
    uint32_t id = newObj(s, sz, G.isConstant() && !G.isDeclaration() ? O_CONST : O_GLOBAL, false);
    gaddr[&G] = addrOf(id);
    s.objs[id].p->tls = G.isThreadLocal();
    string n = G.getName().str();
    if (n.compare(0, 4, "_ZTI") == 0) { tiName[addrOf(id)] = n; tiAddr[n] = addrOf(id); }
  }
  for (auto &G : M->globals()) {
    if (G.isDeclaration()) continue;
    Obj *o = s.objs[(gaddr[&G] >> SHIFT) - 1].p;
    initMem(o, 0, G.getInitializer());
    string n = G.getName().str();
    if (n.compare(0, 4, "_ZTI") == 0 && G.hasInitializer()) {
      auto *c = G.getInitializer();
      if (c->getType()->isStructTy() && c->getType()->getStructNumElements() >= 3)
        for (unsigned i = 2; i < c->getType()->getStructNumElements(); ++i)
          if (auto *g = dyn_cast<GlobalVariable>(c->getAggregateElement(i)->stripPointerCasts()))
            if (g->getName().starts_with("_ZTI")) { tiBase[n] = g->getName().str(); break; }
    }
  }
  const char *std_[][2] = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
                           {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
                           {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
                           {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt12bad_any_cast", "_ZTISt8bad_cast"},
                           {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
                           {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}};
  for (auto &p : std_) if (!tiBase.count(p[0])) tiBase[p[0]] = p[1];
}

static void pathDone(State &s) {
  R.n["paths"]++;
  R.n["steps"] += s.steps;
  if (R.n["max_depth"] < s.depth) R.n["max_depth"] = s.depth;
  // reservoir sample of witnesses
  static uint64_t rng = 88172645463325252ULL ^ (witnessSeed * 0x9E3779B97F4A7C15ULL);
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  uint64_t k = R.n["paths"];
  if (R.wit.size() >= maxWit && rng % k >= maxWit) return;
  if (!checkPc(s)) { R.n["witness_not_evaluable"]++; return; }
  if (s.model.size() < g_vars.size()) s.model.resize(g_vars.size(), 0);
  // other values on the same path make better samples than the solver's
  auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; };
  for (auto &i : s.inputs)
    for (auto *b : i.bytes) {
      Expr *ve = b;
      while (ve->k == K::EXTRACT) ve = ve->a;
      if (ve->k != K::VAR) continue;
      uint32_t v = (uint32_t)ve->v;
      if (s.bind.count(v)) continue;
      vector<Expr *> cs;
      for (auto *e : s.pc) if (std::binary_search(e->vars->begin(), e->vars->end(), v)) cs.push_back(e);
      unsigned w = ve->w;
      for (int t = 0; t < 4; ++t) {
        uint64_t x = rnd(), old = s.model[v];
        switch ((x >> 60) & 7) {
        case 0: x = (uint64_t)((int64_t)(x << 10) >> 58); break;
        case 1: x = 1ULL << (w - 1); x -= rnd() & 1; break;
        case 2: case 3: if (w == 8) x = " 0aZ9-.xz\t"[x % 10]; else if (w >= 32) { double d = (double)(int64_t)(x % 200001 - 100000) / 8; float f = d; if (w == 32) { uint32_t q; memcpy(&q, &f, 4); x = q; } else memcpy(&x, &d, 8); } break;
        default: break;
        }
        s.model[v] = x & mask(w);
        bool ok = true;
        for (auto *e : cs) if (!evalExpr(e, s.model)) { ok = false; break; }
        if (ok) break;
        s.model[v] = old;
      }
    }
  string w = inputsOf(s) + "\t|";
  for (auto &o : s.obs) {
    char b[40];
    snprintf(b, 40, "%016llx", (unsigned long long)evalExpr(o.second, s.model));
    w += "\t" + esc(o.first) + "=" + b;
  }
  if (R.wit.size() < maxWit) R.wit.push_back(w);
  else R.wit[(rng >> 20) % maxWit] = w;
}
static void runState(State *s) {
  try {
    while (true) {
      if (++s->steps > maxSteps) {
        incomplete("a path exceeded the limit of " + std::to_string(maxSteps) + " instructions in " + s->frames.back().f->name);
        R.n["cut_paths"]++;
        break;
      }
      if ((s->steps & 0x3ff) == 0 && (timeUp() || shm->stop)) {
        if (timeUp()) incomplete("time limit");
        break;
      }
      if (g_trace) { string st; raw_string_ostream os(st); s->frames.back().f->code[s->frames.back().pc].I->print(os); fprintf(stderr, "%s: %s\n", s->frames.back().f->name.c_str(), os.str().c_str()); }
      if (!step(*s)) { pathDone(*s); break; }
    }
  } catch (PathEnd &) {
    R.n["ended_paths"]++;
    R.n["steps"] += s->steps;
  } catch (Unsupported &u) {
    incomplete("unsupported: " + u.what + (s->frames.empty() ? "" : " in " + s->frames.back().f->name));
    R.n["cut_paths"]++;
  }
  delete s;
}
static void dfs() {
  while (!work.empty() && !shm->stop) {
    if (timeUp()) { incomplete("time limit"); break; }
    State *s = work.back();
    work.pop_back();
    runState(s);
  }
}
static void emit(FILE *f) {
  for (auto &p : fmap) if (p.second->executed) R.fns.insert(p.second->name);
  for (auto &p : R.n) fprintf(f, "n\t%s\t%llu\n", p.first.c_str(), (unsigned long long)p.second);
  fprintf(f, "n\tqueries\t%llu\nn\tq_sat\t%llu\nn\tq_unsat\t%llu\nn\tq_unknown\t%llu\nn\tq_cached\t%llu\nt\tsolver\t%.3f\nt\tmaxq\t%.3f\n", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat,
          (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cached, g_ss.time, g_ss.maxTime);
  for (auto &x : R.inc) fprintf(f, "inc\t%s\n", esc(x).c_str());
  for (auto &x : R.fns) fprintf(f, "fn\t%s\n", x.c_str());
  for (auto &x : R.reach) fprintf(f, "reach\t%s\n", esc(x).c_str());
  for (auto &x : R.viol) fprintf(f, "viol\t%s\n", x.c_str());
  for (auto &x : R.wit) fprintf(f, "wit%s\n", x.c_str());
  fprintf(f, "end\n");
  fflush(f);
}

int main(int argc, char **argv) {
  T0 = std::chrono::steady_clock::now();
  string bc, entry, out;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    auto nx = [&] { return string(argv[++i]); };
    if (a == "--entry") entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--jobs") jobs = std::stoi(nx());
    else if (a == "--time") timeLimit = std::stod(nx());
    else if (a == "--steps") maxSteps = std::stoull(nx());
    else if (a == "--qtimeout") g_timeoutMs = std::stoul(nx());
    else if (a == "--param") params.push_back(std::stoll(nx()));
    else if (a == "--maxviol") maxViol = std::stoul(nx());
    else if (a == "--seed") witnessSeed = std::stoull(nx());
    else if (a == "--wit") maxWit = std::stoul(nx());
    else if (a == "--dump") g_dumpDir = nx();
    else if (a == "--trace") g_trace = true;
    else if (a == "--reuse") g_reuse = true;
    else bc = a;
  }
  rlimit rl{512 << 20, RLIM_INFINITY};
  getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512u << 20)) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (512u << 20) : rl.rlim_max;
    if (!getenv("SYMX_REEXEC") && setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("SYMX_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  shm = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (shm) Shared();
  SMDiagnostic err;
  M = parseIRFile(bc, err, LC);
  if (!M) { err.print("symx", errs()); return 3; }
  DL = &M->getDataLayout();
  solverInit();
  setupBuiltins();
  State *s0 = new State;
  s0->objs.reserve(4096);
  FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
  try {
    setupGlobals(*s0);
    // static initialisers
    vector<std::pair<uint32_t, Function *>> ctors;
    if (auto *g = M->getGlobalVariable("llvm.global_ctors"))
      if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
        for (auto &o : ca->operands()) {
          auto *cs = cast<ConstantStruct>(o);
          if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(uint32_t)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
        }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (auto &c : ctors) {
      pushFrame(*s0, infoOf(c.second), {});
      while (step(*s0)) ++g_frameSteps;
    }
    s0->steps = 0;
    Function *E = M->getFunction(entry);
    if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    for (auto &p : fmap) p.second->executed = false;
    R.n.clear();
    pushFrame(*s0, infoOf(E), {});
  } catch (Unsupported &u) {
    fprintf(stderr, "static initialisation: unsupported %s\n", u.what.c_str());
    return 3;
  } catch (PathEnd &) {
    fprintf(stderr, "static initialisation failed\n");
    emit(stderr);
    return 3;
  }
  work.push_back(s0);
  if (jobs <= 1) dfs();
  else {
    // sequential for a moment, then breadth first, then one process per job taking states from a shared counter
    while (!work.empty() && !shm->stop && elapsed() < 1.0) { State *s = work.back(); work.pop_back(); runState(s); }
    if (!work.empty() && !shm->stop) {
      // widen: run the shallowest states until there are enough of them
      unsigned guard = 0;
      while (work.size() < jobs * 8 && !work.empty() && guard++ < jobs * 8 && elapsed() < timeLimit && !shm->stop) {
        State *s = work.front();
        work.pop_front();
        size_t before = work.size();
        // run s until it forks once, then put it back
        try {
          bool ended = false;
          while (work.size() == before && !ended) {
            if (++s->steps > maxSteps) { incomplete("instruction limit"); ended = true; break; }
            if (!step(*s)) { pathDone(*s); ended = true; }
          }
          if (ended) delete s; else work.push_back(s);
        } catch (PathEnd &) { R.n["ended_paths"]++; delete s; } catch (Unsupported &u) { incomplete("unsupported: " + u.what + " in " + s->frames.back().f->name); delete s; }
      }
      vector<State *> init(work.begin(), work.end());
      work.clear();
      shm->next = 0;
      vector<pid_t> kids;
      vector<string> files;
      string base = "/tmp/symx." + std::to_string(getpid()) + ".";
      fflush(nullptr);
      for (unsigned j = 0; j < jobs && j < init.size(); ++j) {
        string fn = base + std::to_string(j);
        files.push_back(fn);
        pid_t p = fork();
        if (p == 0) {
          R = Result();
          g_ss = SolverStats();
          for (;;) {
            int i = shm->next++;
            if (i >= (int)init.size() || shm->stop) break;
            work.push_back(init[i]);
            dfs();
            if (timeUp()) break;
          }
          FILE *f = fopen(fn.c_str(), "w");
          emit(f);
          fclose(f);
          _exit(0);
        }
        kids.push_back(p);
      }
      for (auto k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) incomplete("a worker process died"); }
      uint64_t q = 0;
      (void)q;
      for (auto &fn : files) {
        std::ifstream f(fn);
        string line;
        bool ended = false;
        while (std::getline(f, line)) {
          size_t p = line.find('\t');
          string k = line.substr(0, p), rest = p == string::npos ? "" : line.substr(p + 1);
          if (k == "n" || k == "t") {
            size_t q = rest.find('\t');
            string nm = rest.substr(0, q), v = rest.substr(q + 1);
            if (k == "t") { if (nm == "solver") g_ss.time += std::stod(v); else g_ss.maxTime = std::max(g_ss.maxTime, std::stod(v)); }
            else if (nm == "queries") g_ss.queries += std::stoull(v);
            else if (nm == "q_sat") g_ss.sat += std::stoull(v);
            else if (nm == "q_unsat") g_ss.unsat += std::stoull(v);
            else if (nm == "q_unknown") g_ss.unknown += std::stoull(v);
            else if (nm == "q_cached") g_ss.cached += std::stoull(v);
            else if (nm == "max_depth") R.n[nm] = std::max(R.n[nm], (uint64_t)std::stoull(v));
            else R.n[nm] += std::stoull(v);
          } else if (k == "inc") R.inc.insert(rest);
          else if (k == "fn") R.fns.insert(rest);
          else if (k == "reach") R.reach.insert(rest);
          else if (k == "viol") R.viol.push_back(rest);
          else if (k == "wit") R.wit.push_back("\t" + rest);
          else if (k == "end") ended = true;
        }
        if (!ended) incomplete("a worker process gave no result");
        unlink(fn.c_str());
      }
    }
  }
  R.n["init_steps"] = g_frameSteps;
  R.t["wall"] = elapsed();
  fprintf(fo, "t\twall\t%.3f\n", elapsed());
  emit(fo);
  fflush(fo);
  _exit(0);
}
