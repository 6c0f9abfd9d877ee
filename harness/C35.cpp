// C35: evaluations in two threads do not disturb each other.
#include "rel.h"
// An evaluation: its own runner, bytes and row that others read too.
struct Job {
  const Bytes *code;
  const Tuple *row;
  bool bad = false;
  Operand r;
};
static void evaluate(void *x) {
  Job *j = (Job *)x;
  try {
    Runner r;
    r.Decode(j->code->data(), j->code->size());
    r.BindTuple(j->row);
    r.Run();
    j->r = r.Get();
  } catch (const std::exception &) {
    j->bad = true;
  }
}
static void sameJob(const Job &a, const Job &b, Byte type, const char *msg) {
  sx_observe("error", a.bad);
  sx_check(a.bad == b.bad, "an error with and without the other thread");
  if (a.bad) { sx_reach("error"); return; }
  observeOperand(a.r, type);
  sameOperand(a.r, b.r, type, msg);
  sx_reach("value");
}
static void call(Bytes &c, Tuple &t, const Op &op, uint32_t slot, bool sym, bool nulls) {
  for (uint32_t i = 0; i < op.arity; ++i) {
    Byte ty = op.arg[i];
    Operand v;
    if (nulls && sx_choice(2, "isnull")) v = nullptr;
    else if (ty == F) v = Operand(1.5f);
    else if (ty == D) v = Operand(0.25);
    else if (ty == S) v = Operand(String(std::string(sx_choice(2, "string") ? "12" : " Ab c")));
    else if (ty == B) v = Operand((bool)(slot & 1));
    else if (sym) v = symOperand(ty, 0, "v");
    else if (ty == I) v = Operand((int32_t)2);
    else v = Operand((int64_t)2);
    c << varOp(ty) << (int)t.size();
    t.push_back(v);
  }
  for (uint32_t i = 0; i < op.len; ++i) c << op.code[i];
  (void)slot;
}
// One operator in both threads, on the same row (shared strings) or each on its own.  params: group
ENTRY(C35_op) {
  Op o[MAX_OPS];
  size_t n = opGroup(sx_param(0), o);
  const Op &op = o[sx_choice((uint32_t)n, "op")];
  bool own = sx_choice(2, "own");
  Tuple t, u;
  Bytes c, d;
  call(c, t, op, 0, true, true);
  if (own) call(d, u, op, 1, true, false);
  Job a{&c, &t}, b{own ? &d : &c, own ? &u : &t}, p = a, q = b;
  sx_parallel(evaluate, &a, evaluate, &b);
  evaluate(&p);
  evaluate(&q);
  sameJob(a, p, op.res, "the first thread's result is that of the program alone");
  sameJob(b, q, op.res, "the second thread's result is that of the program alone");
}
// Two operators.  params: group of the first
ENTRY(C35_pair) {
  Op o[MAX_OPS], q[MAX_OPS];
  size_t n = opGroup(sx_param(0), o), m = opGroup(sx_choice(OP_GROUPS, "group"), q);
  const Op &x = o[sx_choice((uint32_t)n, "first")];
  const Op &y = q[sx_choice((uint32_t)m, "second")];
  Tuple t;
  Bytes c, d;
  call(c, t, x, 0, false, false);
  call(d, t, y, 1, false, false);
  Job a{&c, &t}, b{&d, &t}, e = a, f = b;
  sx_parallel(evaluate, &a, evaluate, &b);
  evaluate(&e);
  evaluate(&f);
  sameJob(a, e, x.res, "the first thread's result is that of the program alone");
  sameJob(b, f, y.res, "the second thread's result is that of the program alone");
}
// Constants, programs that end in errors, and bytes that are no program.
static const Byte PROGRAMS[][8] = {
    {2, 0x11, 0x07}, {4, 0x12, 0x87, 0x01}, {2, 0x21, 0x07}, {1, 0x13}, {1, 0x23}, {5, 0x14, 0x3f, 0x80, 0, 0}, {5, 0x17, 0x03, 'a', 'b', 'c'},
    {2, 0x37, 2},                       // $[2], a string
    {1, 0x07},                          // NULL
    {2, 0xFF, 0xFF}, {1, 0x17}, {3, 0x17, 0x05, 'a'}, {2, 0x83, 0x01}, {2, 0x83, 0x99},
    {7, 0x31, 0, 0x31, 1, 0x83, 0x01, 0}, {6, 0x31, 0, 0x11, 0, 0x86, 0x01}, {4, 0x32, 3, 0xFC, 0x12}, {4, 0x37, 2, 0xF0, 0x17},
};
static const uint32_t NPROGRAMS = sizeof PROGRAMS / sizeof PROGRAMS[0];
ENTRY(C35_programs) {
  const Byte *x = PROGRAMS[sx_choice(NPROGRAMS, "first")], *y = PROGRAMS[sx_choice(NPROGRAMS, "second")];
  Bytes c(x + 1, x + 1 + x[0]), d(y + 1, y + 1 + y[0]);
  Tuple t;
  t.push_back(sym<int32_t>("a"));
  t.push_back(sym<int32_t>("b"));
  t.push_back(String(std::string("no number")));
  t.push_back((int64_t)1 << 40);
  Job a{&c, &t}, b{&d, &t}, p = a, q = b;
  sx_parallel(evaluate, &a, evaluate, &b);
  evaluate(&p);
  evaluate(&q);
  sx_check(a.bad == p.bad && b.bad == q.bad, "an error with and without the other thread");
  sx_observe("errors", a.bad + 2 * b.bad);
  if (!a.bad) sx_check(a.r == p.r, "the first thread's result is that of the program alone");
  if (!b.bad) sx_check(b.r == q.r, "the second thread's result is that of the program alone");
  sx_reach("programs");
}
// A longer program with everything in it.
ENTRY(C35_long) {
  Bytes c;
  Tuple t;
  t.push_back(sym<int32_t>("a"));
  t.push_back(String(std::string("abcdefghijklmnopqrstuvwxyz, longer than a short string")));
  t.push_back(nullptr);
  c << 0x37 << 1 << 0x37 << 1 << 0xF1 << 0x21 << 0xF1 << 0x22;             // UPPER(CONCAT(s, s))
  c << 0x11 << 3 << 0x11 << 9 << 0xF1 << 0x2C;                              // SUBSTR
  c << 0x31 << 0 << 0xF0 << 0x71 << 0xF1 << 0x21;                           // CONCAT with STRING(a)
  c << 0x31 << 2 << 0xF0 << 0x71 << 0xF1 << 0x21 << 0xA1 << 0x07;           // IS_NULL(CONCAT with NULL)
  c << 0x31 << 0 << 0x11 << 5 << 0x95 << 0x01 << 0x53;                      // OR a < 5
  Job a{&c, &t}, b{&c, &t}, p = a;
  sx_parallel(evaluate, &a, evaluate, &b);
  evaluate(&p);
  sameJob(a, p, B, "the first thread's result is that of the program alone");
  sameJob(b, p, B, "the second thread's result is that of the program alone");
}
// Relational: an own runner over rows that others read too.
struct RelJob {
  const Bytes *code;
  const std::vector<Tuple> *rows;
  bool bad = false;
  std::vector<Tuple> out;
};
static void relational(void *x) {
  RelJob *j = (RelJob *)x;
  try {
    RelRunner r;
    r.Decode(j->code->data(), j->code->size());
    for (const Tuple &t : *j->rows) {
      const Tuple *o = r.Put(new Tuple(t));
      if (o) j->out.push_back(*o);
      delete o;
    }
    while (const Tuple *o = r.Get()) {
      j->out.push_back(*o);
      delete o;
    }
  } catch (const std::exception &) {
    j->bad = true;
  }
}
static void sameRel(const RelJob &a, const RelJob &b, const char *msg) {
  sx_check(a.bad == b.bad, "an error with and without the other thread");
  sx_observe("rows", a.out.size());
  sx_check(a.out.size() == b.out.size(), msg);
  std::vector<bool> used(b.out.size());
  for (const Tuple &t : a.out) {  // in whatever order groups come
    size_t i = 0;
    while (i < b.out.size() && (used[i] || !(b.out[i] == t))) ++i;
    sx_check(i < b.out.size(), msg);
    used[i] = true;
  }
}
// FILTER, PROJECT, GROUPED AGGREGATE, UNGROUPED AGGREGATE, and the first two before the third
static void pipeline(Bytes &c, uint32_t which) {
  const AggSpec aggs[] = {{COUNT_ALL, 0, 0}, {COUNT, I, 0}, {SUM, I, 0}, {MIN, I, 0}, {MAX, S, 1}};
  if (which == 0 || which == 4) c << 0x71 << 0x31 << 0 << 0x11 << 5 << 0x95 << 0x01 << 0x00;                       // $[0] < 5
  if (which == 1 || which == 4) c << 0x72 << 0x31 << 0 << 0x11 << 1 << 0x83 << 0x01 << 0x37 << 1 << 0xF1 << 0x22 << 0x00;  // $[0] + 1, UPPER($[1])
  if (which == 2 || which == 4) c << 0x73 << 0x61 << 1 << 1;                                                       // by $[1]
  if (which == 3) c << 0x74;
  if (which >= 2) {
    varint(c, 5);
    for (const AggSpec &a : aggs) encode(c, a);
    c << 0;
  }
}
// params: first pipeline, second pipeline, rows
ENTRY(C35_rel) {
  Bytes c, d;
  uint32_t first = sx_param(0), second = sx_param(1), n = sx_param(2);
  pipeline(c, first);
  pipeline(d, second);
  std::vector<Tuple> rows(n);
  for (uint32_t i = 0; i < n; ++i) {
    int32_t v = sym<int32_t>("v");
    sx_assume(v >= 3 && v < 7);
    rows[i].push_back(sx_choice(2, "isnull") ? Operand(nullptr) : Operand(v));
    rows[i].push_back(String(std::string(i & 1 ? "ab" : "a string that is not short")));
  }
  RelJob a{&c, &rows}, b{&d, &rows}, p = a, q = b;
  sx_parallel(relational, &a, relational, &b);
  relational(&p);
  relational(&q);
  sx_check(!a.bad && !b.bad, "no error");
  sameRel(a, p, "the first thread's rows are those of the pipeline alone");
  sameRel(b, q, "the second thread's rows are those of the pipeline alone");
  sx_reach("rel");
}
// What else there is to call.
#include <sstream>
#include "expr/types.h"
struct Misc {
  uint32_t what;
  const Tuple *row;
  std::string s;
  uint64_t n = 0;
  bool bad = false;
};
static void misc(void *x) {
  Misc *m = (Misc *)x;
  const Tuple &t = *m->row;
  try {
    switch (m->what) {
    case 0: {
      Byte b[4];
      HexToBytes(b, "11033a21", 8);
      m->s.assign((const char *)b, 4);
      break;
    }
    case 1: m->n = std::hash<Tuple>()(t); break;
    case 2: for (const Operand &a : t) for (const Operand &b : t) m->n = m->n * 2 + (a == b); break;
    case 3: { std::ostringstream o; o << t[0] << t[1] << t[2] << t[3]; m->s = o.str(); break; }
    case 4: for (int i = 0; i < 8; ++i) m->s += TypeName(i); break;
    case 5: {
      Runner r;
      static const Byte code[] = {0x37, 1, 0x31, 0, 0x17, 1, 'x'};
      const Byte *e = r.Decode(code, sizeof code);
      r.BindTuple(&t);
      r.Run();
      Tuple *all = r.GetAll();
      m->n = all->size() + (e - code) * 16 + r.GetType() * 256;
      m->s = *(*all)[0].GetValue<String>() + *(*all)[2].GetValue<String>();
      delete all;
      break;
    }
    case 6: { Operand o = any_optional_data_adaptor::ToOperand<String::ValueType>(any_optional_data_adaptor::FromOperand<String::ValueType>(t[1])); m->s = *o.GetValue<String>(); break; }
    case 7: { Operand o = any_optional_data_adaptor::ToOperand<int64_t>(any_optional_data_adaptor::FromOperand<int64_t>(t[2])); m->n = o.GetValue<int64_t>(); break; }
    }
  } catch (const std::exception &) {
    m->bad = true;
  }
}
ENTRY(C35_misc) {
  Tuple t{Operand(sym<int32_t>("v") & 127), Operand(String(std::string("some string that is not short"))), Operand((int64_t)-5), Operand(nullptr)};
  Misc a{sx_choice(8, "first"), &t}, b{sx_choice(8, "second"), &t}, p = a, q = b;
  sx_parallel(misc, &a, misc, &b);
  misc(&p);
  misc(&q);
  sx_check(a.bad == p.bad && b.bad == q.bad && !a.bad && !b.bad, "no error");
  sx_check(a.n == p.n && b.n == q.n, "results as alone");
  sx_check(a.s == p.s && b.s == q.s, "results as alone");
  sx_observe("n", a.s.size() + b.s.size());
  sx_reach("misc");
}
