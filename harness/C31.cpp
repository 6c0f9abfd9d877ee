// C31: the hexadecimal helpers are inverse to each other.
#include "h.h"
static char digit(unsigned v) { return (char)(v < 10 ? '0' + v : 'A' + (v - 10)); }
// params: most bytes
ENTRY(C31_bytes) {
  uint32_t n = sx_choice(sx_param(0) + 1, "len");
  Byte *b = new Byte[n], *back = new Byte[n];
  if (n) sx_bytes(b, n, "bytes");
  char *hex = new char[2 * n];  // exactly
  BytesToHex(hex, b, n);
  for (uint32_t i = 0; i < n; ++i) {
    sx_observe("h", (unsigned char)hex[2 * i]);
    sx_same((unsigned char)hex[2 * i], (unsigned char)digit(b[i] >> 4), 0, "two upper-case digits per byte, high half first");
    sx_same((unsigned char)hex[2 * i + 1], (unsigned char)digit(b[i] & 15), 0, "two upper-case digits per byte, high half first");
  }
  HexToBytes(back, hex, 2 * n);
  for (uint32_t i = 0; i < n; ++i) sx_same(back[i], b[i], 0, "converting back restores the bytes");
  std::string s = HexOfBytes(b, n);
  sx_check(s.size() == 2 * n, "the string form equals the buffer form");
  sx_check(memcmp(s.data(), hex, 2 * n) == 0, "the string form equals the buffer form");
  delete[] b;
  delete[] back;
  delete[] hex;
  sx_reach("bytes");
}
static int value(unsigned char c) {
  if (c - (unsigned)'0' < 10) return c - '0';
  if (c - (unsigned)'a' < 6) return c - 'a' + 10;
  if (c - (unsigned)'A' < 6) return c - 'A' + 10;
  return -1;
}
// Any text of digits in either case.  params: most digits
ENTRY(C31_text) {
  uint32_t n = sx_choice(sx_param(0) + 1, "len") * 2;
  char *hex = new char[n];
  if (n) sx_bytes(hex, n, "hex");
  bool valid = true;
  for (uint32_t i = 0; i < n; ++i) valid &= value(hex[i]) >= 0;
  sx_assume(valid);
  Byte *b = new Byte[n / 2];
  HexToBytes(b, hex, n);
  for (uint32_t i = 0; i < n / 2; ++i) {
    sx_observe("b", b[i]);
    sx_same(b[i], (Byte)(value(hex[2 * i]) << 4 | value(hex[2 * i + 1])), 0, "upper and lower case digits alike");
  }
  delete[] hex;
  delete[] b;
  sx_reach("text");
}
ENTRY(C31_nibble) {
  unsigned char c = sx_i8("c");
  sx_same((uint32_t)HexToNibble((char)c), (uint32_t)value(c), 0, "the value of a digit");
  uint32_t v = sx_i32("v");
  sx_assume(v < 16);
  sx_observe("d", (unsigned char)NibbleToHex((int)v));
  sx_same((unsigned char)NibbleToHex((int)v), (unsigned char)digit(v), 0, "the digit of a value");
  sx_reach("nibble");
}
// params: bytes
ENTRY(C31_long) {
  uint32_t n = sx_param(0);
  std::vector<Byte> b(n), back(n);
  for (uint32_t i = 0; i < n; ++i) b[i] = (Byte)(i * 37);
  b[n / 2] = sx_i8("b");
  std::string s = HexOfBytes(b.data(), n);
  sx_check(s.size() == 2 * n, "two digits per byte");
  HexToBytes(back.data(), s.data(), s.size());
  for (uint32_t i = 0; i < n; ++i) sx_same(back[i], b[i], 0, "converting back restores the bytes");
  sx_reach("long");
}
// One arbitrary byte among others, both ways.  params: bytes
ENTRY(C31_each) {
  uint32_t n = sx_param(0), at = sx_choice(n, "at"), up = sx_choice(2, "case");
  Byte *b = new Byte[n], *back = new Byte[n];
  for (uint32_t i = 0; i < n; ++i) b[i] = (Byte)(i * 0x35 + 0x1e);
  b[at] = sx_i8("b");
  char *hex = new char[2 * n];
  BytesToHex(hex, b, n);
  for (uint32_t i = 0; i < n; ++i) {
    sx_same((unsigned char)hex[2 * i], (unsigned char)digit(b[i] >> 4), 0, "two upper-case digits per byte, high half first");
    sx_same((unsigned char)hex[2 * i + 1], (unsigned char)digit(b[i] & 15), 0, "two upper-case digits per byte, high half first");
  }
  std::string s = HexOfBytes(b, n);
  sx_check(s.size() == 2 * n && memcmp(s.data(), hex, 2 * n) == 0, "the string form equals the buffer form");
  if (up) for (uint32_t i = 0; i < 2 * n; ++i) if (i / 2 != at && hex[i] >= 'A') hex[i] = (char)(hex[i] + 32);
  HexToBytes(back, hex, 2 * n);
  for (uint32_t i = 0; i < n; ++i) sx_same(back[i], b[i], 0, "converting back restores the bytes");
  delete[] b;
  delete[] back;
  delete[] hex;
  sx_reach("each");
}
