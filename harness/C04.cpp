// C04: which codes are accepted.
#include "h.h"
static const int OUT = 2;  // no claim: SUB of strings, casts without a type or of DECIMAL to itself, variables of type DECIMAL
static bool isNum(Byte t) { return t == I || t == L || t == F || t == D; }
static bool isType(Byte t) { return t >= I && t <= S && t != TYPE_DECIMAL; }
// is the two-byte operator documented as implemented?
static int twoByte(Byte a, Byte b) {
  switch (a) {
  case 0x81: case 0x82: case 0x85: case 0x86: case 0xB3: case 0xB4: return isNum(b);
  case 0x83: return isNum(b) || b == S;
  case 0x84: return b == S ? OUT : isNum(b);
  case 0x87: return b == I || b == L;
  case 0x91: case 0x92: case 0x93: case 0x94: case 0x95: case 0x96:
  case 0xA1: case 0xA2: case 0xA3: case 0xB1: case 0xB2: return isType(b);
  case 0xF0: case 0xFC: {
    Byte d = b >> 4, s = b & 15;
    if (b == 0 || b == 0x66) return OUT;
    if (!isType(d) || !isType(s)) return 0;
    return !(d == B && s == S);
  }
  case 0xF1: return (b >= 0x01 && b <= 0x02) || (b >= 0x07 && b <= 0x11) || (b >= 0x21 && b <= 0x26) || b == 0x28 || b == 0x2A || (b >= 0x2C && b <= 0x2F);
  }
  return 0;
}
static bool isTwoByte(Byte a) {
  return (a >= 0x81 && a <= 0x87) || (a >= 0x91 && a <= 0x96) || (a >= 0xA1 && a <= 0xA3) || (a >= 0xB1 && a <= 0xB4) || a == 0xF0 || a == 0xF1 || a == 0xFC;
}
static int oneByte(Byte a) {  // operators without immediate number and with
  if (a == 0x36) return OUT;
  return isType(a) || (a >= 0x10 && a <= 0x17 && isType(a & 15)) || (a >= 0x21 && a <= 0x23) || (a >= 0x30 && a <= 0x37 && isType(a & 15)) || (a >= 0x51 && a <= 0x53);
}
static char hexDigit(unsigned v) { return (char)(v < 10 ? '0' + v : 'A' + (v - 10)); }
static void decodeAt(const Byte *b, size_t at, size_t n, int want, const Byte *expectEnd) {
  bool ok = false;
  std::string what;
  const Byte *e = nullptr;
  Runner r;
  try { e = r.Decode(b, n); ok = true; } catch (const ExprError &x) { what = x.what(); }
  sx_observe("ok", ok);
  if (want == OUT) { sx_reach("no claim"); return; }
  if (want) {
    sx_check(ok, "a documented operator is accepted");
    sx_check(e == expectEnd, "and consumed completely");
    sx_reach("accepted");
  } else {
    sx_check(!ok, "an undocumented operator is rejected");
    // the message carries the bytes from the offending operator on
    size_t k = 2 * (n - at), m = what.size();
    sx_check(m >= k, "the message carries the bytes");
    bool eq = true;
    for (size_t i = 0; i < n - at; ++i) {
      Byte x = b[at + i];
      eq &= what[m - k + 2 * i] == hexDigit(x >> 4) && what[m - k + 2 * i + 1] == hexDigit(x & 15);
    }
    sx_check(eq, "the message carries the bytes from the offending operator on, in hexadecimal");
    sx_reach("rejected");
  }
}
// params: bytes before (0, or a constant), bytes after
ENTRY(C04_two) {
  size_t pre = sx_param(0) ? 2 : 0, post = sx_param(1), n = pre + 2 + post;
  Byte *b = new Byte[n];
  if (pre) { b[0] = 0x11; b[1] = 0x07; }
  sx_bytes(b + pre, 2, "operator");
  sx_assume(isTwoByte(b[pre]));
  if (post) { sx_bytes(b + pre + 2, post, "after"); }
  Byte x = b[pre], y = b[pre + 1];
  int want = twoByte(x, y);
  if (post && want) b[pre + 2] = 0;  // nothing else to decode
  decodeAt(b, pre, n, want, b + pre + (post ? 3 : 2));
  delete[] b;
}
ENTRY(C04_one) {
  size_t pre = sx_param(0) ? 2 : 0;
  Byte x = sx_i8("operator");
  sx_assume(x != 0 && !isTwoByte(x));
  Byte b[16];
  size_t n = 0;
  if (pre) { b[n++] = 0x11; b[n++] = 0x07; }
  size_t at = n;
  b[n++] = x;
  int want = oneByte(x);
  if (want) {  // its immediate number
    if (x == 0x14) n += 4;
    else if (x == 0x15) n += 8;
    else if (x == 0x17) { b[n++] = 1; n++; }
    else if ((x & 0xF0) >= 0x10 && (x & 0xF0) <= 0x30 && x != 0x13 && x != 0x23) n++;
    for (size_t i = at + 1; i < n; ++i) if (!(x == 0x17 && i == at + 1)) b[i] = 5;
  } else if (sx_choice(2, "after")) b[n++] = sx_i8("after");
  Byte *h = new Byte[n];
  memcpy(h, b, n);
  decodeAt(h, at, n, want, h + n);
  delete[] h;
}
// the terminator: after k operators, followed by anything
ENTRY(C04_eoe) {
  Code c;
  uint32_t k = sx_choice(sx_param(0) + 1, "operators");
  for (uint32_t i = 0; i < k; ++i) {
    uint32_t o = sx_choice(5, "op");
    if (o == 0) c << 0x11 << 0;           // an immediate number 0 is no terminator
    else if (o == 1) c << 0x17 << 2 << 0 << 0;
    else if (o == 2) c << 0x13;
    else if (o == 3) c << 0x14 << 0 << 0 << 0 << 0;
    else c << 0x01;
  }
  size_t end = c.n + 1;
  uint32_t post = sx_choice(sx_param(1) + 1, "after");
  Byte *b = new Byte[end + post];
  memcpy(b, c.b, c.n);
  b[c.n] = 0;
  if (post) sx_bytes(b + end, post, "after");
  Runner r;
  sx_check(r.Decode(b, end + post) == b + end, "decoding stops just after the terminator");
  delete[] b;
  r.Run();
  Tuple *t = r.GetAll();
  sx_observe("size", t->size());
  sx_check(t->size() == k, "the operators before the terminator and no others");
  delete t;
  sx_reach("eoe");
}
