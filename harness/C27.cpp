// C27: grouped aggregation partitions the rows by key.
#include "rel.h"
static bool eqKey(const Operand &a, const Operand &b, Byte type) {
  bool na = a == nullptr, nb = b == nullptr;
  if (na || nb) return na && nb;
  switch (type) {
  case TYPE_INT32: return sx_split(a.GetValue<int32_t>() == b.GetValue<int32_t>());
  case TYPE_INT64: return sx_split(a.GetValue<int64_t>() == b.GetValue<int64_t>());
  case TYPE_BOOL: return sx_split(a.GetValue<bool>() == b.GetValue<bool>());
  case TYPE_FLOAT: {
    float x = a.GetValue<float>(), y = b.GetValue<float>();
    if (sx_split(bits(x) == bits(y))) return true;
    return sx_split(x == 0) && sx_split(y == 0);
  }
  case TYPE_DOUBLE: {
    double x = a.GetValue<double>(), y = b.GetValue<double>();
    if (sx_split(bits(x) == bits(y))) return true;
    return sx_split(x == 0) && sx_split(y == 0);
  }
  default: {
    String x = a.GetValue<String>(), y = b.GetValue<String>();
    if (x->size() != y->size()) return false;
    bool eq = true;
    for (size_t i = 0; i < x->size(); ++i) eq &= (*x)[i] == (*y)[i];
    return sx_split(eq);
  }
  }
}
// The specification: the groups of the rows put so far.
struct Groups {
  std::vector<int32_t> by;   // grouping columns
  std::vector<Byte> type;    // and their types
  std::vector<AggSpec> aggs;
  struct G { Tuple key; std::vector<Operand> acc; bool out; };
  std::vector<G> g;
  bool matches(const G &x, const Tuple &key) const {
    for (size_t i = 0; i < by.size(); ++i) if (!eqKey(x.key[i], key[i], type[i])) return false;
    return true;
  }
  void add(const Tuple &row) {
    Tuple key;
    for (int32_t c : by) key.push_back(row[c]);
    size_t i = 0;
    while (i < g.size() && !matches(g[i], key)) ++i;
    if (i == g.size()) g.push_back(G{key, std::vector<Operand>(aggs.size()), false});
    for (size_t k = 0; k < aggs.size(); ++k) g[i].acc[k] = fold(aggs[k], g[i].acc[k], row);
  }
  Bytes program(bool eoe = true) const {
    Bytes c;
    c << 0x73 << 0x61;
    varint(c, by.size());
    for (int32_t b : by) varint(c, b);
    varint(c, aggs.size());
    for (const AggSpec &a : aggs) encode(c, a);
    if (eoe) c << 0;
    return c;
  }
  // Everything is taken out: one row for each group, and nothing else.
  void drain(const RelRunner &r) {
    for (size_t n = 0; n < g.size(); ++n) {
      const Tuple *out = r.Get();
      sx_check(out != nullptr, "one row for each combination of the grouping columns");
      sx_check(out->size() == by.size() + aggs.size(), "the grouping columns followed by the aggregates");
      Tuple key(out->begin(), out->begin() + by.size());
      for (size_t i = 0; i < by.size(); ++i) sx_check(key[i] == nullptr || hasType(key[i], type[i]), "the grouping columns, in order");
      size_t i = 0;
      while (i < g.size() && (g[i].out || !matches(g[i], key))) ++i;
      sx_check(i < g.size(), "each combination once, none that did not occur");
      g[i].out = true;
      for (size_t k = 0; k < aggs.size(); ++k) {
        const Operand &v = (*out)[by.size() + k];
        sx_check(v == nullptr || hasType(v, aggType(aggs[k])), "the aggregates, in order");
        sameAgg(v, g[i].acc[k], aggType(aggs[k]), "the aggregates over exactly the rows of the group");
      }
      delete out;
    }
    for (int k = 0; k < 2; ++k) sx_check(r.Get() == nullptr, "draining ends with nothing left");
    sx_observe("groups", g.size());
    g.clear();
  }
};
static void put(const RelRunner &r, Groups &g, const Tuple &t) {
  g.add(t);
  sx_check(r.Put(new Tuple(t)) == nullptr, "putting a row emits nothing");
}
static const AggSpec CNT{COUNT_ALL, 0, 0};
// One grouping column.  params: type, rows, string length
ENTRY(C27_key) {
  Byte ty = TYPES[sx_param(0)];
  RelRunner r;
  Groups g{{1}, {ty}, {{SUM, I, 0}, CNT}};
  decode(r, g.program(sx_choice(2, "eoe")));
  uint32_t n = sx_choice(sx_param(1) + 1, "rows");
  for (uint32_t i = 0; i < n; ++i) {
    Tuple t{symOperand(I, 0, "v"), symOrNull(ty, sx_param(2), "key")};
    noNaN(t[1], ty);
    put(r, g, t);
  }
  g.drain(r);
  sx_reach("key");
}
// Several grouping columns of rows (INT32, STRING, INT32, BOOL).  params: rows, which columns, NULLs
static const Byte COLS[] = {I, S, I, B};
static Tuple row(bool nulls) {
  Tuple t;
  for (int i = 0; i < 4; ++i) t.push_back(i == 1 ? (nulls && sx_choice(2, "null") ? Operand(nullptr) : Operand(String(symString(1, "s")))) : nulls && i < 3 ? symOrNull(COLS[i], 0, "v") : symOperand(COLS[i], 0, "v"));
  return t;
}
static const std::vector<int32_t> BY[] = {{0, 2}, {2, 0}, {1, 0}, {3, 1}, {0, 0}, {}, {2}, {0, 1, 2}};
static std::vector<Byte> typesOf(const std::vector<int32_t> &by) {
  std::vector<Byte> t;
  for (int32_t c : by) t.push_back(COLS[c]);
  return t;
}
ENTRY(C27_keys) {
  const std::vector<int32_t> &by = BY[sx_param(1)];
  RelRunner r;
  Groups g{by, typesOf(by), {CNT, {MIN, I, 2}, {MAX, S, 1}}};
  decode(r, g.program());
  for (uint32_t i = 0; i < sx_param(0); ++i) put(r, g, row(sx_param(2)));
  g.drain(r);
  sx_reach("keys");
}
// Every aggregate, in groups.  params: aggregate, rows, string length
ENTRY(C27_agg) {
  AggSpec all[32];
  allAggs(all);
  AggSpec a = all[sx_param(0)];
  Byte ty = a.kind == COUNT_ALL ? I : a.type;
  a.col = 1;
  RelRunner r;
  Groups g{{0}, {I}, {a}};
  decode(r, g.program());
  for (uint32_t i = 0; i < sx_param(1); ++i) {
    Tuple t{sx_choice(2, "key") ? Operand(5) : Operand(nullptr), symOrNull(ty, sx_param(2), "v")};
    noNaN(t[1], ty);
    put(r, g, t);
  }
  g.drain(r);
  sx_reach("agg");
}
// Just the distinct keys.  params: rows
ENTRY(C27_distinct) {
  RelRunner r;
  Groups g{{1, 0}, {S, I}, {}};
  decode(r, g.program());
  for (uint32_t i = 0; i < sx_param(0); ++i) put(r, g, row(true));
  g.drain(r);
  sx_reach("distinct");
}
// Rounds.  params: rounds, rows of each
ENTRY(C27_rounds) {
  RelRunner r;
  Groups g{{2}, {I}, {{SUM, I, 0}, CNT}};
  decode(r, g.program());
  for (uint32_t k = 0; k < sx_param(0); ++k) {
    uint32_t n = sx_choice(sx_param(1) + 1, "rows");
    for (uint32_t i = 0; i < n; ++i) put(r, g, Tuple{symOperand(I, 0, "v"), Operand(nullptr), symOrNull(I, 0, "key")});
    g.drain(r);
  }
  sx_reach("rounds");
}
// Many rows and groups.  params: rows, groups, key type (0 INT32, 1 STRING, 2 INT64 and BOOL)
ENTRY(C27_many) {
  uint32_t n = sx_param(0), m = sx_param(1), kind = sx_param(2);
  RelRunner r;
  Groups g;
  if (kind == 0) g = Groups{{0}, {I}, {CNT, {SUM, I, 1}}};
  else if (kind == 1) g = Groups{{2}, {S}, {{MAX, I, 1}, CNT}};
  else g = Groups{{3, 4}, {L, B}, {{MIN, I, 1}, {COUNT, B, 4}}};
  decode(r, g.program());
  for (int round = 0; round < 2; ++round) {
    for (uint32_t i = 0; i < n; ++i) {
      uint32_t k = (i * 7 + round) % m;
      Tuple t{k % 11 == 10 ? Operand(nullptr) : Operand((int32_t)(k * 1000003)), i % 8 == 1 ? symOperand(I, 0, "v") : Operand((int32_t)i)};
      t.push_back(String(std::string(k % 40, 'k') + (char)('a' + k % 26)));
      t.push_back((int64_t)k << 33);
      t.push_back(k % 5 == 1 ? Operand(nullptr) : Operand(k % 2 == 0));
      put(r, g, t);
    }
    g.drain(r);
  }
  sx_reach("many");
}
// Wide rows, columns whose index needs two bytes.
ENTRY(C27_wide) {
  RelRunner r;
  Groups g{{200, 3}, {I, I}, {{SUM, I, 130}, {MAX, I, 255}}};
  decode(r, g.program());
  for (int i = 0; i < 3; ++i) {
    Tuple t;
    for (int c = 0; c < 256; ++c) t.push_back(c == 200 || c == 130 || c == 255 ? symOperand(I, 0, "v") : Operand(c));
    put(r, g, t);
  }
  g.drain(r);
  sx_reach("wide");
}
// Long string keys that agree up to some place.
ENTRY(C27_long) {
  static const uint32_t AT[] = {15, 64, 128, 255, 300, 32768, 70000};
  uint32_t at = AT[sx_choice(7, "at")];
  std::string a(at, 'm');
  for (uint32_t i = 0; i < at; ++i) a[i] = (char)(i * 11 + 3);
  std::string b = a;
  uint32_t x = sx_choice(3, "first"), y = sx_choice(3, "second");
  unsigned char p = x ? sx_i8("p") : 0, q = y ? sx_i8("q") : 0;
  if (x) a.push_back((char)p);
  if (y) b.push_back((char)q);
  if (x == 2) a += std::string(at, 'z');
  if (y == 2) b += std::string(at, 'z');
  bool same = x == y && (!x || sx_split(p == q));
  RelRunner r;
  Bytes c;
  c << 0x73 << 0x61 << 1 << 1 << 2 << 0x10 << 0x37 << 1 << 0;
  decode(r, c);
  for (int i = 0; i < 3; ++i) {
    const Tuple *o = r.Put(new Tuple{i, String(i == 1 ? b : a)});
    sx_check(o == nullptr, "nothing before the end");
  }
  size_t groups = 0, rows = 0;
  const Tuple *o;
  while ((o = r.Get()) != nullptr) {
    sx_check(o->size() == 3, "the key and the aggregates");
    const std::string &k = *(*o)[0].GetValue<String>(), &m = *(*o)[2].GetValue<String>();
    bool isA = k.size() == a.size() && memcmp(k.data(), a.data(), k.size()) == 0, isB = k.size() == b.size() && memcmp(k.data(), b.data(), k.size()) == 0;
    sx_check(isA || isB, "each key comes from a row");
    sx_check(m.size() == k.size() && memcmp(m.data(), k.data(), k.size()) == 0, "the aggregates of the rows with that key");
    int64_t n = (*o)[1].GetValue<int64_t>();
    sx_check(n == (same ? 3 : isA ? 2 : 1), "the aggregates of the rows with that key");
    rows += n;
    ++groups;
    delete o;
  }
  sx_check(groups == (same ? 1 : 2) && rows == 3, "one row for each key");
  sx_reach("long");
}
// Many grouping columns; the rows differ in one of them at most.  params: columns, aggregates
ENTRY(C27_columns) {
  uint32_t n = sx_param(0), at = sx_choice(n, "which"), m = sx_param(1);
  RelRunner r;
  Groups g;
  for (uint32_t i = 0; i < n; ++i) { g.by.push_back(n - 1 - i); g.type.push_back((n - 1 - i) % 3 == 2 ? S : I); }
  for (uint32_t i = 0; i < m; ++i) g.aggs.push_back(AggSpec{i % 3 == 0 ? SUM : i % 3 == 1 ? MAX : COUNT, I, (int32_t)(n + i % 5)});
  decode(r, g.program());
  for (int k = 0; k < 3; ++k) {
    Tuple t;
    for (uint32_t i = 0; i < n; ++i) {
      if (i == at) t.push_back(i % 3 == 2 ? Operand(String(symString(1, "s"))) : symOrNull(I, 0, "v"));
      else t.push_back(i % 3 == 2 ? Operand(String("c" + std::to_string(i))) : Operand((int32_t)(i * 77)));
    }
    for (int i = 0; i < 5; ++i) t.push_back(Operand(k * 10 + i));
    put(r, g, t);
  }
  g.drain(r);
  sx_reach("columns");
}
// Many groups, of one to three rows each.  params: groups
ENTRY(C27_groups) {
  uint32_t m = sx_param(0);
  int32_t v = sym<int32_t>("v");
  RelRunner r;
  Groups g{{0}, {I}, {CNT, {SUM, I, 1}}};
  decode(r, g.program());
  for (int round = 0; round < 2; ++round) {
    for (uint32_t k = 0; k < 3; ++k)
      for (uint32_t i = 0; i < m; ++i)
        if (k <= i % 3) sx_check(r.Put(new Tuple{(int32_t)(i * 3 - 500), (int32_t)((uint32_t)v + i + k)}) == nullptr, "nothing before the end");
    std::vector<bool> seen(m);
    uint32_t groups = 0;
    const Tuple *o;
    while ((o = r.Get()) != nullptr) {
      sx_check(o->size() == 3, "the key and the aggregates");
      uint32_t key = (uint32_t)(*o)[0].GetValue<int32_t>() + 500, i = key / 3;
      sx_check(key % 3 == 0 && i < m && !seen[i], "one row for each key");
      seen[i] = true;
      uint32_t n = i % 3 + 1, sum = n * ((uint32_t)v + i) + n * (n - 1) / 2;
      sx_check((*o)[1].GetValue<int64_t>() == n, "the aggregates of the rows with that key");
      same((*o)[2].GetValue<int32_t>(), (int32_t)sum, "the aggregates of the rows with that key");
      ++groups;
      delete o;
    }
    sx_check(groups == m, "one row for each key");
  }
  sx_reach("groups");
}
