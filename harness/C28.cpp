// C28: chained operators compose.
#include "rel.h"
// Operators from rows (INT32, INT32) to rows (INT32, INT32), with what they mean for a whole list of rows.
struct R { int32_t a, b; };
typedef std::vector<R> Rows;
static const Bytes OPS[] = {
    {0x71, 0x31, 0, 0x31, 1, 0x95, 1, 0},                      // 0 $0 < $1
    {0x71, 0x31, 1, 0x11, 3, 0x96, 1, 0},                      // 1 $1 <> 3
    {0x72, 0x31, 1, 0x31, 0, 0},                               // 2 swap
    {0x72, 0x31, 0, 0x31, 1, 0x83, 1, 0x31, 0, 0},             // 3 $0 + $1, $0
    {0x74, 2, 0x21, 0, 0x31, 1, 0},                            // 4 SUM $0, MAX $1
    {0x74, 2, 0x41, 1, 0x21, 1, 0},                            // 5 MIN $1, SUM $1
    {0x73, 0x61, 1, 0, 1, 0x21, 1, 0},                         // 6 by $0: SUM $1
    {0x73, 0x61, 1, 1, 1, 0x41, 0, 0},                         // 7 by $1: MIN $0
    {0x73, 0x61, 2, 0, 1, 0, 0},                               // 8 distinct
    {0x72, 0x11, 1, 0x11, 2, 0},                               // 9 (1, 2)
    {0x71, 0x23, 0},                                           // 10 nothing passes
};
static const uint32_t NO = sizeof OPS / sizeof OPS[0];
static int32_t plus32(int32_t x, int32_t y) { return (int32_t)((uint32_t)x + (uint32_t)y); }
static int32_t mn(int32_t x, int32_t y) { return x < y ? x : y; }
static int32_t mx(int32_t x, int32_t y) { return x < y ? y : x; }
static Rows meaning(uint32_t op, const Rows &in) {
  Rows out;
  switch (op) {
  case 0: for (const R &r : in) if (sx_split(r.a < r.b)) out.push_back(r); break;
  case 1: for (const R &r : in) if (sx_split(r.b != 3)) out.push_back(r); break;
  case 2: for (const R &r : in) out.push_back({r.b, r.a}); break;
  case 3: for (const R &r : in) out.push_back({plus32(r.a, r.b), r.a}); break;
  case 4: case 5:
    for (const R &r : in) {
      R v = op == 4 ? R{r.a, r.b} : R{r.b, r.b};
      if (out.empty()) out.push_back(v);
      else out[0] = op == 4 ? R{plus32(out[0].a, v.a), mx(out[0].b, v.b)} : R{mn(out[0].a, v.a), plus32(out[0].b, v.b)};
    }
    break;
  case 6: case 7: case 8:
    for (const R &r : in) {
      size_t i = 0;
      for (; i < out.size(); ++i)
        if (op == 6 ? sx_split(out[i].a == r.a) : op == 7 ? sx_split(out[i].a == r.b) : (sx_split(out[i].a == r.a) && sx_split(out[i].b == r.b))) break;
      if (i == out.size()) out.push_back(op == 7 ? R{r.b, r.a} : r);
      else if (op == 6) out[i].b = plus32(out[i].b, r.b);
      else if (op == 7) out[i].b = mn(out[i].b, r.a);
    }
    break;
  case 9: for (size_t i = 0; i < in.size(); ++i) out.push_back({1, 2}); break;
  case 10: break;
  }
  return out;
}
static void collect(Rows &got, const Tuple *t) {
  sx_check(t->size() == 2, "rows of two values");
  got.push_back({(*t)[0].GetValue<int32_t>(), (*t)[1].GetValue<int32_t>()});
  delete t;
}
static void run(const RelRunner &r, const std::vector<uint32_t> &ops, uint32_t n) {
  bool grouped = false;
  for (uint32_t o : ops) grouped |= o >= 6 && o <= 8;
  Rows in, want, got;
  for (uint32_t i = 0; i < n; ++i) {
    in.push_back({sym<int32_t>("a"), sym<int32_t>("b")});
    const Tuple *t = r.Put(new Tuple{in[i].a, in[i].b});
    if (t) collect(got, t);
  }
  for (uint32_t k = 0; k <= n; ++k) {
    const Tuple *t = r.Get();
    if (!t) break;
    sx_check(k < n, "no more rows than were put in");
    collect(got, t);
  }
  for (int k = 0; k < 2; ++k) sx_check(r.Get() == nullptr, "drained only when every operator is exhausted");
  want = in;
  for (uint32_t o : ops) want = meaning(o, want);
  sx_observe("rows", got.size());
  sx_check(got.size() == want.size(), "rows are neither lost nor duplicated");
  for (size_t i = 0; i < want.size(); ++i) {
    if (!grouped) {
      same(got[i].a, want[i].a, "each operator's output is the next one's input, in order");
      same(got[i].b, want[i].b, "each operator's output is the next one's input, in order");
      continue;
    }
    size_t k = 0;
    for (; k < got.size(); ++k) if (sx_split(got[k].a == want[i].a) && sx_split(got[k].b == want[i].b)) break;
    sx_check(k < got.size(), "each operator's output is the next one's input");
    got.erase(got.begin() + k);
  }
}
// params: operators, rows
ENTRY(C28_chain) {
  std::vector<uint32_t> ops;
  Bytes c;
  for (uint32_t i = 0; i < sx_param(0); ++i) { ops.push_back(sx_choice(NO, "op")); c << OPS[ops.back()]; }
  RelRunner r;
  decode(r, c);
  run(r, ops, sx_param(1));
  sx_reach("chain");
}
// A second round through the same chain.  params: operators, rows
ENTRY(C28_again) {
  std::vector<uint32_t> ops;
  Bytes c;
  for (uint32_t i = 0; i < sx_param(0); ++i) { ops.push_back(sx_choice(NO - 1, "op")); c << OPS[ops.back()]; }
  RelRunner r;
  decode(r, c);
  run(r, ops, sx_choice(sx_param(1) + 1, "rows"));
  run(r, ops, sx_param(1));
  sx_reach("again");
}
// Long chains.  params: which, rows
ENTRY(C28_long) {
  static const std::vector<uint32_t> CH[] = {
      {2, 0, 3, 1, 2, 3, 0, 1}, {6, 2, 7, 2, 4}, {1, 7, 0, 6, 3, 4, 2}, {8, 3, 8, 2, 8, 6}, {2, 2, 2, 2, 2, 2, 2, 2, 2, 2}, {6, 6, 7, 7}, {4, 4, 6, 5}, {6, 1, 7, 1, 8, 1}, {7, 0, 5, 3},
  };
  const std::vector<uint32_t> &ops = CH[sx_param(0)];
  Bytes c;
  for (uint32_t o : ops) c << OPS[o];
  RelRunner r;
  decode(r, c);
  run(r, ops, sx_param(1));
  sx_reach("long");
}
// Many rows through a chain.  params: rows, which
ENTRY(C28_many) {
  static const std::vector<uint32_t> CH[] = {{0, 6, 2}, {6, 7, 4}, {2, 1, 8}, {0, 3}, {7, 0}};
  const std::vector<uint32_t> &ops = CH[sx_param(1)];
  Bytes c;
  for (uint32_t o : ops) c << OPS[o];
  RelRunner r;
  decode(r, c);
  bool grouped = false;
  for (uint32_t o : ops) grouped |= o >= 6 && o <= 8;
  Rows in, got;
  for (uint32_t i = 0; i < sx_param(0); ++i) {
    in.push_back({(int32_t)(i * 7 % 10), (int32_t)(i * 5 % 13)});
    const Tuple *t = r.Put(new Tuple{in[i].a, in[i].b});
    if (t) collect(got, t);
  }
  while (const Tuple *t = r.Get()) collect(got, t);
  Rows want = in;
  for (uint32_t o : ops) want = meaning(o, want);
  sx_check(got.size() == want.size(), "rows are neither lost nor duplicated");
  for (size_t i = 0; i < want.size(); ++i) {
    size_t k = grouped ? 0 : i;
    if (grouped) while (k < got.size() && !(got[k].a == want[i].a && got[k].b == want[i].b)) ++k;
    sx_check(k < got.size() && got[k].a == want[i].a && got[k].b == want[i].b, "each operator's output is the next one's input");
    if (grouped) got.erase(got.begin() + k);
  }
  sx_reach("many");
}
// Rows of no values are rows.
ENTRY(C28_bare) {
  uint32_t n = sx_choice(4, "rows"), how = sx_choice(4, "how");
  bool pass = sx_choice(2, "pass");
  Bytes c;
  if (how == 0) c << 0x72 << 0;                                 // a projection to nothing
  c << 0x71 << (pass ? 0x13 : 0x23) << 0;
  if (how == 2) c << 0x72 << 0;
  if (how == 3) c << 0x73 << 0x61 << 0 << 0 << 0;               // all rows form one group
  c << 0x74 << 1 << 0x10 << 0;
  RelRunner r;
  decode(r, c);
  for (uint32_t i = 0; i < n; ++i) sx_check(r.Put(how == 1 ? new Tuple() : new Tuple{sym<int32_t>("v")}) == nullptr, "nothing before the end");
  uint32_t want = !pass ? 0 : how == 3 ? n > 0 : n;
  const Tuple *o = r.Get();
  if (o) {
    sx_check(o->size() == 1, "one value");
    sx_check((*o)[0] == nullptr ? want == 0 : (*o)[0].GetValue<int64_t>() == want, "each row counts");
    delete o;
  } else sx_check(want == 0, "each row counts");
  sx_check(r.Get() == nullptr, "drained");
  // and without an aggregate they come out
  RelRunner s;
  Bytes d;
  d << 0x72 << 0 << 0x71 << (pass ? 0x13 : 0x23) << 0;
  decode(s, d);
  for (uint32_t i = 0; i < n; ++i) {
    const Tuple *t = s.Put(new Tuple{1});
    sx_check((t != nullptr) == pass, "a row of no values is a row");
    if (t) sx_check(t->size() == 0, "of no values");
    delete t;
  }
  sx_check(s.Get() == nullptr, "nothing is left");
  sx_reach("bare");
}
// Draining many rows, of which the operators behind reject all but a few.
ENTRY(C28_reject) {
  uint32_t n = sx_param(0), how = sx_choice(3, "how");
  int32_t k = (int32_t)sx_choice(3, "which") * (int32_t)(n / 2), v = sym<int32_t>("v");
  Bytes c;
  c << OPS[6];                                     // by $0: SUM $1
  if (how == 1) c << OPS[2] << OPS[7] << OPS[2] << OPS[2];  // swapped, grouped again
  c << 0x71 << 0x31 << 0 << 0x11;
  varint(c, (uint32_t)k);
  c << 0x91 << 1 << 0;                             // $0 = k
  if (how == 2) c << OPS[2] << OPS[4];
  RelRunner r;
  decode(r, c);
  for (uint32_t i = 0; i <= n; ++i) sx_check(r.Put(new Tuple{(int32_t)i, v}) == nullptr, "nothing before the end");
  Rows got;
  while (const Tuple *t = r.Get()) {
    sx_check(got.empty(), "no more rows than passed");
    collect(got, t);
  }
  sx_check(got.size() == 1, "rows are neither lost nor duplicated");
  if (how == 2) { same(got[0].a, v, "each operator's output is the next one's input"); same(got[0].b, k, "each operator's output is the next one's input"); }
  else if (how == 0) { same(got[0].a, k, "each operator's output is the next one's input"); same(got[0].b, v, "each operator's output is the next one's input"); }
  else same(got[0].a, k, "each operator's output is the next one's input");
  sx_reach("reject");
}
// Chains of many operators.  params: operators, kind (0 swap, 1 swap and filters, 2 grouped, 3 ungrouped, 4 all of these), rows
ENTRY(C28_deep) {
  static const std::vector<uint32_t> PAT[] = {{2}, {2, 1, 3}, {6}, {4}, {2, 6, 1, 8, 2, 0, 3}};
  const std::vector<uint32_t> &pat = PAT[sx_param(1)];
  std::vector<uint32_t> ops;
  Bytes c;
  for (uint32_t i = 0; i < sx_param(0); ++i) { ops.push_back(pat[i % pat.size()]); c << OPS[ops.back()]; }
  RelRunner r;
  decode(r, c);
  run(r, ops, sx_param(2));
  sx_reach("deep");
}
