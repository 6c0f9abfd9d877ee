// C03: decoding arbitrary bytes never reads outside them.
#include <new>
#include "h.h"
static void arbitrary(const Byte *pre, size_t np, size_t n, bool again) {
  Byte *b = new Byte[np + n];  // exactly the sequence
  memcpy(b, pre, np);
  if (n) sx_bytes(b + np, n, "code");
  Runner r;
  const Byte *e = nullptr;
  try {
    e = r.Decode(b, np + n);
  } catch (const std::bad_alloc &) {
    sx_fail("Decode asks for more memory than the bytes can need");
  } catch (const std::exception &) {
    sx_observe("error", 1);
    sx_reach("error");
    if (again) {
      static const Byte one[] = {0x13};
      sx_check(r.Decode(one, 1) == one + 1, "after an error the runner decodes the next expression");
    }
  }
  if (e) {
    sx_observe("accepted", e - b);
    sx_check(e >= b && e <= b + np + n, "the returned position lies inside the sequence or at its end");
    sx_reach("accepted");
  }
  delete[] b;
}
// param: number of bytes
ENTRY(C03_any) { arbitrary(nullptr, 0, sx_param(0), false); }
// a valid beginning, then param 0 arbitrary bytes; param 1: which beginning
ENTRY(C03_after) {
  static const Byte pre[][4] = {{1, 0x11}, {1, 0x12}, {1, 0x21}, {1, 0x22}, {1, 0x14}, {1, 0x15}, {1, 0x17}, {1, 0x31}, {1, 0x37}, {1, 0x83}, {1, 0xF0}, {1, 0xFC}, {1, 0xF1}, {3, 0x11, 0x05, 0x91}, {2, 0x17, 0x02}, {2, 0x17, 0xFF}};
  const Byte *p = pre[sx_param(1)];
  arbitrary(p + 1, p[0], sx_param(0), true);
}
// a string whose length prefix is any varint of up to 10 bytes followed by up to param 0 bytes of data
ENTRY(C03_strlen) {
  uint32_t n = 1 + sx_choice(sx_param(1), "prefix"), m = sx_choice(sx_param(0) + 1, "data");
  Byte *b = new Byte[1 + n + m];
  b[0] = 0x17;
  sx_bytes(b + 1, n, "prefix");
  for (uint32_t i = 0; i + 1 < n; ++i) sx_assume(b[1 + i] & 0x80);
  sx_assume(!(b[n] & 0x80));
  for (uint32_t i = 0; i < m; ++i) b[1 + n + i] = 'x';
  uint64_t v = 0;
  for (uint32_t i = 0; i < n; ++i) v |= (uint64_t)(b[1 + i] & 0x7f) << (7 * i);
  Runner r;
  bool ok = false;
  const Byte *e = nullptr;
  try {
    e = r.Decode(b, 1 + n + m);
    ok = true;
  } catch (const std::bad_alloc &) {
    sx_fail("Decode asks for more memory than the bytes can need");
  } catch (const std::exception &) {
  }
  sx_observe("ok", ok);
  if ((uint32_t)v > m) { sx_check(!ok, "a string longer than what is left is an error"); sx_reach("toolong"); }
  if (ok) { sx_check(e >= b && e <= b + 1 + n + m, "the returned position lies inside the sequence or at its end"); sx_reach("accepted"); }
  delete[] b;
}
// A constant or variable whose number never ends, or ends exactly at the end.  params: longest number
ENTRY(C03_cut) {
  static const Byte PRE[] = {0x11, 0x12, 0x21, 0x22, 0x31, 0x32, 0x33, 0x34, 0x35, 0x37, 0x17};
  Byte pre = PRE[sx_choice(11, "code")];
  uint32_t n = 1 + sx_choice(sx_param(0), "bytes"), before = sx_choice(2, "before");
  bool ends = sx_choice(2, "ends");
  Byte *b = new Byte[before + 1 + n];
  if (before) b[0] = 0x13;
  b[before] = pre;
  sx_bytes(b + before + 1, n, "number");
  for (uint32_t i = 0; i + 1 < n; ++i) sx_assume(b[before + 1 + i] & 0x80);
  sx_assume(((b[before + n] & 0x80) == 0) == ends);
  if (pre == 0x17 && ends) sx_assume(n > 5 || b[before + n] != 0);
  Runner r;
  bool ok = false;
  const Byte *e = nullptr;
  try {
    e = r.Decode(b, before + 1 + n);
    ok = true;
  } catch (const std::bad_alloc &) {
    sx_fail("Decode asks for more memory than the bytes can need");
  } catch (const std::exception &) {
  }
  sx_observe("ok", ok);
  if (!ends) { sx_check(!ok, "a number without an end is an error"); sx_reach("cut"); }
  else if (pre != 0x17) { sx_check(ok && e == b + before + 1 + n, "a number that ends with the bytes is complete"); sx_reach("complete"); }
  delete[] b;
}
