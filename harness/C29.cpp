// C29: decoding relational code is safe and complete.
#include <new>
#include "rel.h"
// Decodes exactly the bytes; returns whether they were accepted.
static bool accepts(const Byte *code, size_t n) {
  Byte *b = new Byte[n];
  if (n) memcpy(b, code, n);
  RelRunner r;
  bool ok = false;
  try {
    const Byte *e = r.Decode(b, n);
    ok = true;
    sx_observe("consumed", e - b);
    sx_check(e >= b && e <= b + n, "the returned position lies inside the sequence or at its end");
  } catch (const std::bad_alloc &) {
    sx_fail("Decode asks for more memory than the bytes can need");
  } catch (const std::exception &) {
    static const Byte next[] = {0x71, 0x13, 0x00};
    sx_check(r.Decode(next, 3) == next + 3, "after an error the runner decodes the next code");
  }
  sx_observe("accepted", ok);
  delete[] b;
  return ok;
}
static bool accepts(const Bytes &c) { return accepts(c.data(), c.size()); }
static void outcome(bool ok) { if (ok) sx_reach("accepted"); else sx_reach("error"); }
// params: bytes: every sequence
ENTRY(C29_any) {
  Byte b[16];
  size_t n = sx_param(0);
  if (n) sx_bytes(b, n, "code");
  outcome(accepts(b, n));
}
// params: bytes, which beginning
ENTRY(C29_after) {
  static const Bytes PRE[] = {
      {0x71}, {0x72}, {0x73}, {0x73, 0x61}, {0x73, 0x61, 2}, {0x73, 0x61, 1, 0}, {0x73, 0x61, 1, 0, 2}, {0x73, 0x61, 1, 0, 2, 0x21, 0}, {0x74}, {0x74, 2}, {0x74, 2, 0x10},
      {0x74, 1, 0x31}, {0x71, 0x13, 0}, {0x74, 1, 0x10, 0}, {0x72, 0x31, 0, 0, 0x74, 1}, {0x71, 0x17, 2}, {0x74, 0x80}, {0x73, 0x61, 0xFF, 0xFF},
  };
  Bytes c = PRE[sx_param(1)];
  size_t n = sx_param(0), k = c.size();
  c.resize(k + n);
  sx_bytes(&c[k], n, "code");
  outcome(accepts(c));
}
// An operator of a defined code is accepted, of an undefined one rejected, in any place.
ENTRY(C29_ops) {
  static const Bytes REST[] = {{0x13, 0}, {0x31, 0, 0x31, 1, 0x83, 1, 0}, {0x61, 2, 1, 0, 2, 0x10, 0x21, 1, 0}, {1, 0x25, 3, 0}};
  Bytes c;
  uint32_t pre = sx_choice(3, "before");
  if (pre == 1) c << 0x71 << 0x13 << 0;
  if (pre == 2) c << 0x74 << 1 << 0x10 << 0;
  uint32_t which = sx_choice(5, "op");
  Byte op = which < 4 ? 0x71 + which : sx_i8("op");
  if (which == 4) sx_assume((op < 0x71) | (op > 0x74));
  if (which == 4 && pre == 2) sx_assume(op != 0);  // a second trailing byte: no claim
  c << op << REST[which < 4 ? which : sx_choice(4, "rest")];
  bool ok = accepts(c);
  if (which < 4) { sx_check(ok, "every documented operator is accepted"); sx_reach("defined"); }
  else { sx_check(!ok, "undefined operators are rejected"); sx_reach("undefined"); }
}
static bool isAgg(Byte c) {
  static const Byte OK[] = {0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x17, 0x21, 0x22, 0x24, 0x25, 0x31, 0x32, 0x34, 0x35, 0x37, 0x41, 0x42, 0x44, 0x45, 0x47};
  bool r = false;
  for (Byte k : OK) r |= c == k;
  return r;
}
// Aggregates: every code, at each place of a list of up to 3, grouped and not, with and without its index.
// 0x16, 0x26, ... (DECIMAL, not supported yet) and SUM of BOOL or STRING, MIN and MAX of BOOL are undefined.
ENTRY(C29_aggs) {
  Byte code = sx_i8("agg");
  bool known = sx_split(isAgg(code));
  uint32_t n = 1 + sx_choice(3, "count"), at = sx_choice(n, "at");
  Bytes c;
  if (sx_choice(2, "grouped")) c << 0x73 << 0x61 << 1 << 0;
  else c << 0x74;
  c << n;
  for (uint32_t i = 0; i < n; ++i) {
    if (i != at) { c << (i & 1 ? 0x41 : 0x21) << 2; continue; }
    c << code;
    if (sx_split(code == 0x10)) continue;
    uint32_t w = sx_choice(3, "index");
    if (w == 0) c << 1; else if (w == 1) c << 0x80 << 1; else c << 0x85 << 0x80 << 0x80 << 0x00;
  }
  c << 0;
  bool ok = accepts(c);
  sx_check(ok == known, "exactly the documented aggregates are accepted");
  if (known) sx_reach("defined"); else sx_reach("undefined");
}
// A cut-off or over-long list.  params: bytes left
ENTRY(C29_count) {
  Bytes c;
  bool grouped = sx_choice(2, "grouped"), inIndex = grouped && sx_choice(2, "indices");
  if (grouped) c << 0x73 << 0x61;
  else c << 0x74;
  if (grouped && !inIndex) c << 1 << 0;
  uint32_t w = 1 + sx_choice(5, "prefix"), m = sx_choice(sx_param(0) + 1, "left");
  uint32_t v = 0;
  for (uint32_t i = 0; i < w; ++i) {
    Byte b = sx_i8("count");
    sx_assume(i + 1 < w ? b >= 0x80 : b < 0x80);
    if (i == 4) sx_assume(b < 0x10);  // a number of 32 bits
    v |= (uint32_t)(b & 0x7f) << (7 * i);
    c << b;
  }
  for (uint32_t i = 0; i < m; ++i) c << 0x10;
  bool ok = accepts(c);
  if (sx_split(v > m)) { sx_check(!ok, "an element count larger than the remaining bytes is an error"); sx_reach("toomany"); }
  else if (!inIndex && sx_split(v == m)) { sx_check(ok, "a complete list is accepted"); sx_reach("complete"); }
}
// Grouping columns are an array of INT32.
ENTRY(C29_array) {
  Byte t = sx_i8("type");
  Bytes c;
  c << 0x73 << t << 1 << 0 << 1 << 0x10 << 0;
  bool ok = accepts(c);
  bool want = sx_split(t == 0x61);
  sx_check(ok == want, "grouping columns are an array of INT32");
  sx_reach("array");
}
// Every well-formed encoding with its trailing byte is consumed to its end, alone and in chains.
ENTRY(C29_whole) {
  static const Bytes OP[] = {
      {0x71, 0x31, 0, 0x31, 1, 0x95, 1, 0}, {0x72, 0x31, 1, 0x17, 2, 0, 0, 0x15, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0x72, 0}, {0x73, 0x61, 0, 0, 0}, {0x73, 0x61, 2, 1, 0, 1, 0x37, 2, 0},
      {0x74, 3, 0x10, 0x12, 0, 0x45, 0x81, 1, 0}, {0x74, 0, 0}, {0x73, 0x61, 1, 3, 1, 0x10, 0},
  };
  uint32_t n = 1 + sx_choice(3, "ops");
  Bytes c;
  for (uint32_t i = 0; i < n; ++i) c << OP[sx_choice(8, "op")];
  Byte *b = new Byte[c.size()];
  memcpy(b, c.data(), c.size());
  RelRunner r;
  const Byte *e = nullptr;
  try { e = r.Decode(b, c.size()); } catch (const std::exception &) { sx_fail("every documented encoding is accepted"); }
  sx_check(e == b + c.size(), "it is consumed to its end");
  delete[] b;
  sx_reach("whole");
}
// Every proper prefix that cuts an operator is safe, and the runner can be used again.
ENTRY(C29_cut) {
  static const Bytes W = {0x72, 0x31, 1, 0x37, 0, 0, 0x73, 0x61, 2, 1, 0x80, 0, 3, 0x10, 0x21, 0, 0x37, 0x81, 0, 0, 0x71, 0x31, 0, 0x15, 0, 0, 0, 0, 0, 0, 0, 0, 0xF0, 0x15, 0x92, 1, 0};
  uint32_t n = sx_choice(W.size() + 1, "kept");
  Byte *b = new Byte[n];
  if (n) memcpy(b, W.data(), n);
  RelRunner r;
  bool ok = false;
  try { r.Decode(b, n); ok = true; } catch (const std::exception &) { sx_reach("error"); }
  sx_observe("ok", ok);
  delete[] b;
  if (n == W.size()) sx_check(ok, "the whole is accepted");
  if ((n >= 7 && n <= 9) || (n >= 12 && n <= 18 && n != 18)) sx_check(!ok, "a cut-off list is an error");
  decode(r, Bytes{0x71, 0x13, 0});
  const Tuple *t = r.Put(new Tuple{1});
  sx_check(t && t->size() == 1 && (*t)[0] == Operand(1), "after an error the runner decodes the next code");
  delete t;
  sx_reach("cut");
}
// A number that never ends.  params: longest number
ENTRY(C29_endless) {
  static const Byte PRE[][8] = {{2, 0x73, 0x61}, {4, 0x73, 0x61, 1, 0}, {3, 0x73, 0x61, 2}, {4, 0x73, 0x61, 2, 1}, {1, 0x74}, {3, 0x74, 1, 0x21}, {5, 0x74, 3, 0x10, 0x10, 0x47}, {6, 0x73, 0x61, 1, 0, 1, 0x12}};
  const Byte *p = PRE[sx_choice(8, "beginning")];
  uint32_t n = sx_choice(sx_param(0) + 1, "bytes");
  Byte *b = new Byte[p[0] + n];
  memcpy(b, p + 1, p[0]);
  if (n) sx_bytes(b + p[0], n, "number");
  for (uint32_t i = 0; i < n; ++i) sx_assume(b[p[0] + i] & 0x80);
  RelRunner r;
  bool ok = false;
  try { r.Decode(b, p[0] + n); ok = true; } catch (const std::exception &) {}
  sx_check(!ok, "a number without an end is an error");
  delete[] b;
  sx_reach("endless");
}
