// String streams: libstdc++'s own templates, instantiated here, over models of the library's out-of-line parts (locale
// handling, number formatting).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cerrno>
#include <charconv>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <istream>
#include <limits>
#include <sstream>
#include <string>

#include "sym.h"
#include "fmt.h"

// the one facet modelled: ctype<char> of the "C" locale
struct SxTables {
  unsigned short mask[256];
  char same[256];
};
static constexpr SxTables sx_tables() {
  SxTables t{};
  for (int c = 0; c < 256; ++c) {
    t.same[c] = (char)c;
    if (c > 127) continue;
    bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9', pr = c >= 32 && c < 127;
    unsigned m = 0;
    if (up) m |= std::ctype_base::upper;
    if (lo) m |= std::ctype_base::lower;
    if (up || lo) m |= std::ctype_base::alpha;
    if (di) m |= std::ctype_base::digit;
    if (di || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) m |= std::ctype_base::xdigit;
    if (c == ' ' || (c >= 9 && c <= 13)) m |= std::ctype_base::space;
    if (c == ' ' || c == 9) m |= std::ctype_base::blank;
    if (pr) m |= std::ctype_base::print;
    if (pr && c != ' ' && !up && !lo && !di) m |= std::ctype_base::punct;
    if (!pr) m |= std::ctype_base::cntrl;
    t.mask[c] = m;
  }
  return t;
}
static constexpr SxTables sx_tab = sx_tables();
namespace std {
locale::facet::~facet() {}
locale::id ctype<char>::id;
ctype<char>::ctype(const mask *t, bool, size_t refs) : facet(refs), _M_c_locale_ctype(), _M_del(false), _M_toupper(), _M_tolower(), _M_table(t ? t : sx_tab.mask), _M_widen_ok(1), _M_narrow_ok(1) {
  memcpy(_M_widen, sx_tab.same, 256);
  memcpy(_M_narrow, sx_tab.same, 256);
}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (char)(c - ((unsigned char)(c - 'a') < 26 ? 32 : 0)); }
char ctype<char>::do_tolower(char c) const { return (char)(c + ((unsigned char)(c - 'A') < 26 ? 32 : 0)); }
const char *ctype<char>::do_toupper(char *p, const char *e) const { for (; p < e; ++p) *p = do_toupper(*p); return e; }
const char *ctype<char>::do_tolower(char *p, const char *e) const { for (; p < e; ++p) *p = do_tolower(*p); return e; }
void ctype<char>::_M_narrow_init() const {}
void ctype<char>::_M_widen_init() const {}
const ctype_base::mask *ctype<char>::classic_table() throw() { return sx_tab.mask; }
typedef ctype<char> SxBase;
static struct SxCtype : SxBase { SxCtype() : SxBase((const mask *)nullptr, false, 1) {} ~SxCtype() {} } sx_ctype;
size_t locale::id::_M_id() const throw() { return this == &std::ctype<char>::id ? 0 : 1; }
static const void *sx_facets[2] = {&sx_ctype, nullptr};
static struct { long refcount; const void **facets; size_t size; const void **caches; char **names; } sx_locale = {1, sx_facets, 1, nullptr, nullptr};
locale::locale() noexcept : _M_impl((_Impl *)&sx_locale) {}
locale::locale(const locale &) noexcept : _M_impl((_Impl *)&sx_locale) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
const locale &locale::classic() { static locale l; return l; }

ios_base::ios_base() noexcept
    : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(),
      _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept {
  _M_precision = 6;
  _M_width = 0;
  _M_flags = skipws | dec;
}

template <> void basic_ios<char>::_M_cache_locale(const locale &) {
  _M_ctype = &sx_ctype;
  _M_num_put = nullptr;
  _M_num_get = nullptr;
}
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::narrow(char c, char) const { return c; }
template <> char basic_ios<char>::fill() const { return _M_fill_init ? _M_fill : ' '; }
template <> char basic_ios<char>::fill(char c) { char o = fill(); _M_fill = c; _M_fill_init = true; return o; }

static ostream &sxPut(ostream &o, const char *p, size_t n) { return __ostream_insert(o, p, n); }
static ostream &putFp(ostream &o, double v) {
  char b[400];
  ios_base::fmtflags f = o.flags() & ios_base::floatfield;
  char conv = f == ios_base::fixed ? 'f' : f == ios_base::scientific ? 'e' : f ? 'a' : 'g';
  size_t n = sx_format_fp(b, v, conv, (int)o.precision(), o.flags() & ios_base::showpoint, o.flags() & ios_base::showpos);
  return sxPut(o, b, n);
}
static ostream &putInt(ostream &o, unsigned long long v, bool neg, unsigned long long raw) {
  ios_base::fmtflags bf = o.flags() & ios_base::basefield;
  char b[32], *e = b + sizeof b, *p = e;
  if (bf == ios_base::hex || bf == ios_base::oct) {
    const char *const d = o.flags() & ios_base::uppercase ? "0123456789ABCDEF" : "0123456789abcdef";
    const unsigned sh = bf == ios_base::hex ? 4 : 3;
    unsigned long long x = raw;
    do { *--p = d[x & ((1u << sh) - 1)]; x >>= sh; } while (x);
    if ((o.flags() & ios_base::showbase) && raw) {
      if (sh == 4) *--p = o.flags() & ios_base::uppercase ? 'X' : 'x';
      *--p = '0';
    }
  } else {
    do { *--p = '0' + v % 10; v /= 10; } while (v);
    if (neg) *--p = '-';
    else if (o.flags() & ios_base::showpos) *--p = '+';
  }
  if ((o.flags() & ios_base::adjustfield) == ios_base::internal && o.width()) sx_unsupported("internal adjustment");
  return sxPut(o, p, e - p);
}
static ostream &putInt(ostream &o, unsigned long long v, bool neg) { return putInt(o, v, neg, neg ? 0 - v : v); }
static bool decimalBase(ostream &o) { ios_base::fmtflags bf = o.flags() & ios_base::basefield; return bf != ios_base::hex && bf != ios_base::oct; }
template <> template <> ostream &ostream::_M_insert(double v) { return putFp(*this, v); }
template <> template <> ostream &ostream::_M_insert(long double v) { sx_unsupported("long double output"); return *this; }
template <> template <> ostream &ostream::_M_insert(long v) { return putInt(*this, v < 0 ? 0ull - v : v, v < 0); }
template <> template <> ostream &ostream::_M_insert(long long v) { return putInt(*this, v < 0 ? 0ull - v : v, v < 0); }
template <> template <> ostream &ostream::_M_insert(unsigned long v) { return putInt(*this, v, false); }
template <> template <> ostream &ostream::_M_insert(unsigned long long v) { return putInt(*this, v, false); }
template <> template <> ostream &ostream::_M_insert(const void *) { sx_unsupported("pointer output"); return *this; }
template <> template <> ostream &ostream::_M_insert(bool v) {
  if (flags() & ios_base::boolalpha) return v ? sxPut(*this, "true", 4) : sxPut(*this, "false", 5);
  return putInt(*this, v, false);
}
template <> ostream &ostream::operator<<(int v) { return decimalBase(*this) ? _M_insert((long)v) : _M_insert((unsigned long)(unsigned)v); }
template <> ostream &ostream::operator<<(short v) { return decimalBase(*this) ? _M_insert((long)v) : _M_insert((unsigned long)(unsigned short)v); }
template <> ostream &ostream::put(char c) { if (rdbuf()->sputc(c) == traits_type::eof()) setstate(badbit); return *this; }
template <> ostream &ostream::write(const char *p, streamsize n) { if (rdbuf()->sputn(p, n) != n) setstate(badbit); return *this; }
template <> ostream &ostream::flush() { return *this; }

template class basic_ios<char>;
template class basic_streambuf<char>;
template class basic_ostream<char>;
template class basic_stringbuf<char>;
template class basic_stringstream<char>;
template class basic_ostringstream<char>;
template ostream &operator<<(ostream &, char);
template ostream &operator<<(ostream &, const char *);
template ostream &operator<<(ostream &, const string &);
template ostream &flush(ostream &);
template ostream &endl(ostream &);
}  // namespace std

// ---- printf
extern "C" int sx_vfmt(char *out, size_t cap, const char *f, va_list ap) {
  size_t n = 0;
  auto emit = [&](char c) { if (n + 1 < cap) out[n] = c; ++n; };
  for (; *f; ++f) {
    if (*f != '%') { emit(*f); continue; }
    ++f;
    if (*f == '%') { emit('%'); continue; }
    bool zero = false, plus = false, left = false, alt = false;
    for (;; ++f) {
      if (*f == '0') zero = true;
      else if (*f == '+') plus = true;
      else if (*f == '-') left = true;
      else if (*f == '#') alt = true;
      else break;
    }
    int width = 0, prec = -1, lng = 0;
    if (*f == '*') { width = va_arg(ap, int); ++f; if (width < 0) { left = true; width = -width; } }
    else for (; *f >= '0' && *f <= '9'; ++f) width = width * 10 + (*f - '0');
    if (*f == '.') {
      prec = 0;
      ++f;
      if (*f == '*') { prec = va_arg(ap, int); ++f; }
      else for (; *f >= '0' && *f <= '9'; ++f) prec = prec * 10 + (*f - '0');
    }
    for (;; ++f) {
      if (*f == 'l' || *f == 'j' || *f == 'z' || *f == 't') ++lng;
      else if (*f != 'h') break;
    }
    char b[400];
    const char *p = b;
    size_t m = 0;
    switch (*f) {
    case 'd': case 'i': case 'u': case 'x': case 'X': {
      unsigned long long v;
      bool neg = false;
      if (*f == 'd' || *f == 'i') {
        long long s = lng ? va_arg(ap, long long) : va_arg(ap, int);
        neg = s < 0;
        v = neg ? 0ull - s : s;
      } else v = lng ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
      unsigned base = *f == 'x' || *f == 'X' ? 16 : 10;
      char *e = b + sizeof b, *q = e;
      do { unsigned d = v % base; *--q = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
      while (prec > e - q) *--q = '0';
      if (zero && prec < 0 && !left) while (width > (e - q) + (neg || plus)) *--q = '0';
      if (neg) *--q = '-';
      else if (plus && (*f == 'd' || *f == 'i')) *--q = '+';
      p = q;
      m = e - q;
      break;
    }
    case 'f': case 'F': case 'e': case 'g': case 'a': m = sx_format_fp(b, va_arg(ap, double), *f == 'F' ? 'f' : *f, prec < 0 ? 6 : prec, alt, plus); break;
    case 'c': b[0] = (char)va_arg(ap, int); m = 1; break;
    case 's': p = va_arg(ap, const char *); m = strlen(p); if (prec >= 0 && m > (size_t)prec) m = prec; break;
    default: sx_unsupported("printf conversion");
    }
    if (!left) for (size_t i = m; i < (size_t)width; ++i) emit(' ');
    for (size_t i = 0; i < m; ++i) emit(p[i]);
    if (left) for (size_t i = m; i < (size_t)width; ++i) emit(' ');
  }
  if (cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
extern "C" {
int sx_m_vsnprintf(char *o, size_t n, const char *f, va_list ap) __asm__("vsnprintf");
int sx_m_vsnprintf(char *o, size_t n, const char *f, va_list ap) { return sx_vfmt(o, n, f, ap); }
int sx_m_vsprintf(char *o, const char *f, va_list ap) __asm__("vsprintf");
int sx_m_vsprintf(char *o, const char *f, va_list ap) { return sx_vfmt(o, 1 << 20, f, ap); }
int sx_m_snprintf(char *o, size_t n, const char *f, ...) __asm__("snprintf");
int sx_m_snprintf(char *o, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = sx_vfmt(o, n, f, ap); va_end(ap); return r; }
int sx_m_sprintf(char *o, const char *f, ...) __asm__("sprintf");
int sx_m_sprintf(char *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = sx_vfmt(o, 1 << 20, f, ap); va_end(ap); return r; }
}

// ---- reading from string streams
namespace std {
static int sxPeek(istream &i) { return i.rdbuf()->sgetc(); }
static bool sxPrepare(istream &i, bool ws) {
  if (!i.good()) { i.setstate(ios_base::failbit); return false; }
  if (ws && (i.flags() & ios_base::skipws)) {
    int c = sxPeek(i);
    while (c != EOF && isspace(c)) c = i.rdbuf()->snextc();
    if (c == EOF) { i.setstate(ios_base::eofbit | ios_base::failbit); return false; }
  }
  return true;
}
template <> istream::sentry::sentry(istream &i, bool noskip) : _M_ok(sxPrepare(i, !noskip)) {}
// the characters of a decimal number; what they mean is strtoll's and strtod's business
static string sxNumber(istream &i, bool fp) {
  if ((i.flags() & ios_base::basefield) != ios_base::dec) sx_unsupported("reading numbers that are not decimal");
  string s;
  int c = sxPeek(i);
  bool digit = false, point = false, exp = false;
  for (;; c = i.rdbuf()->snextc()) {
    if (c >= '0' && c <= '9') digit = true;
    else if ((c == '+' || c == '-') && (s.empty() || (fp && (s.back() | 32) == 'e'))) ;
    else if (fp && c == '.' && !point && !exp) point = true;
    else if (fp && (c == 'e' || c == 'E') && digit && !exp) exp = true;
    else break;
    s += (char)c;
  }
  if (c == EOF) i.setstate(ios_base::eofbit);
  return s;
}
template <class T> static istream &sxReadInt(istream &i, T &v) {
  istream::sentry ok(i, false);
  if (!ok) return i;
  string s = sxNumber(i, false);
  int keep = errno;
  errno = 0;
  char *e;
  if constexpr (is_signed<T>::value) {
    long long x = strtoll(s.c_str(), &e, 10);
    bool over = errno || x != (long long)(T)x;
    v = over ? (x < 0 ? numeric_limits<T>::min() : numeric_limits<T>::max()) : (T)x;
    if (over) i.setstate(ios_base::failbit);
  } else {
    unsigned long long x = strtoull(s.c_str(), &e, 10);
    bool over = errno || x != (unsigned long long)(T)x;
    v = over ? numeric_limits<T>::max() : (T)x;
    if (over) i.setstate(ios_base::failbit);
  }
  errno = keep;
  if (s.empty() || *e || e == s.c_str()) { v = 0; i.setstate(ios_base::failbit); }
  return i;
}
template <class T> static istream &sxReadFp(istream &i, T &v) {
  istream::sentry ok(i, false);
  if (!ok) return i;
  string s = sxNumber(i, true);
  int keep = errno;
  errno = 0;
  char *e;
  if constexpr (sizeof(T) == 4) v = strtof(s.c_str(), &e); else v = strtod(s.c_str(), &e);
  if (errno) i.setstate(ios_base::failbit);
  errno = keep;
  if (s.empty() || *e || e == s.c_str()) { v = 0; i.setstate(ios_base::failbit); }
  return i;
}
template <> template <> istream &istream::_M_extract(long &v) { return sxReadInt(*this, v); }
template <> template <> istream &istream::_M_extract(long long &v) { return sxReadInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned short &v) { return sxReadInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned &v) { return sxReadInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned long &v) { return sxReadInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned long long &v) { return sxReadInt(*this, v); }
template <> template <> istream &istream::_M_extract(float &v) { return sxReadFp(*this, v); }
template <> template <> istream &istream::_M_extract(double &v) { return sxReadFp(*this, v); }
template <> istream &istream::operator>>(int &v) { return sxReadInt(*this, v); }
template <> istream &istream::operator>>(short &v) { return sxReadInt(*this, v); }
template <> istream::int_type istream::get() {
  _M_gcount = 0;
  if (!sxPrepare(*this, false)) return EOF;
  int c = rdbuf()->sbumpc();
  if (c == EOF) setstate(eofbit | failbit);
  else _M_gcount = 1;
  return c;
}
template <> istream &istream::get(char &c) {
  int x = get();
  if (x != EOF) c = (char)x;
  return *this;
}
template <> istream::int_type istream::peek() {
  _M_gcount = 0;
  if (!sxPrepare(*this, false)) return EOF;
  int c = sxPeek(*this);
  if (c == EOF) setstate(eofbit);
  return c;
}
template <> istream &istream::read(char *p, streamsize n) {
  _M_gcount = 0;
  if (!sxPrepare(*this, false)) return *this;
  _M_gcount = rdbuf()->sgetn(p, n);
  if (_M_gcount != n) setstate(eofbit | failbit);
  return *this;
}
template <> istream &istream::ignore() { get(); return *this; }
template <> istream &istream::unget() {
  _M_gcount = 0;
  clear(rdstate() & ~eofbit);
  if (!sxPrepare(*this, false)) return *this;
  if (rdbuf()->sungetc() == EOF) setstate(badbit);
  return *this;
}
template <> istream &operator>>(istream &i, char &c) {
  istream::sentry ok(i, false);
  if (!ok) return i;
  int x = i.rdbuf()->sbumpc();
  if (x == EOF) i.setstate(ios_base::eofbit | ios_base::failbit);
  else c = (char)x;
  return i;
}
template <> istream &operator>>(istream &i, string &s) {
  istream::sentry ok(i, false);
  if (!ok) return i;
  s.clear();
  streamsize w = i.width();
  int c = sxPeek(i);
  while (c != EOF && !isspace(c) && (w <= 0 || (streamsize)s.size() < w)) { s += (char)c; c = i.rdbuf()->snextc(); }
  if (c == EOF) i.setstate(ios_base::eofbit);
  i.width(0);
  if (s.empty()) i.setstate(ios_base::failbit);
  return i;
}
template <> istream &getline(istream &i, string &s, char d) {
  if (!sxPrepare(i, false)) return i;
  s.clear();
  bool any = false;
  for (;;) {
    int c = i.rdbuf()->sbumpc();
    if (c == EOF) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; }
    any = true;
    if (c == (unsigned char)d) break;
    s += (char)c;
  }
  return i;
}
template istream &getline(istream &, string &);
template istream &ws(istream &);
template class basic_istringstream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;

// ---- <charconv> of floating-point numbers
static to_chars_result sxToChars(char *f, char *l, double v, chars_format m, int p) {
  char b[400];
  size_t n = sx_format_fp(b, v, m == chars_format::fixed ? 'f' : m == chars_format::scientific ? 'e' : 'g', p < 0 ? 6 : p, false, false);
  if ((size_t)(l - f) < n) return {l, errc::value_too_large};
  memcpy(f, b, n);
  return {f + n, errc()};
}
to_chars_result to_chars(char *f, char *l, double v, chars_format m, int p) noexcept { return sxToChars(f, l, v, m, p); }
to_chars_result to_chars(char *f, char *l, float v, chars_format m, int p) noexcept { return sxToChars(f, l, v, m, p); }
template <class T> static from_chars_result sxFromChars(const char *f, const char *l, T &v, chars_format m) {
  if (m != chars_format::general) sx_unsupported("from_chars with another format");
  string s(f, l);
  if (s.empty() || s[0] == '+' || isspace((unsigned char)s[0])) return {f, errc::invalid_argument};
  int keep = errno;
  errno = 0;
  char *e;
  T x;
  if constexpr (sizeof(T) == 4) x = strtof(s.c_str(), &e); else x = strtod(s.c_str(), &e);
  bool over = errno != 0;
  errno = keep;
  if (e == s.c_str()) return {f, errc::invalid_argument};
  const char *p = f + (e - s.c_str());
  if (over) return {p, errc::result_out_of_range};
  v = x;
  return {p, errc()};
}
from_chars_result from_chars(const char *f, const char *l, double &v, chars_format m) noexcept { return sxFromChars(f, l, v, m); }
from_chars_result from_chars(const char *f, const char *l, float &v, chars_format m) noexcept { return sxFromChars(f, l, v, m); }
}  // namespace std

// ---- floating point to text, exact (round half to even), as printf and iostreams do in the C locale
typedef unsigned long long u64;
static size_t digitsOf(char *out, u64 v) {  // decimal digits of v
  u64 t = v;
  size_t n = 1;
  while (t >= 10) { t /= 10; ++n; }
  for (size_t i = n; i-- > 0;) { out[i] = (char)('0' + v % 10); v /= 10; }
  return n;
}
static u64 pow5(int p) { u64 r = 1; while (p-- > 0) r *= 5; return r; }
static u64 pow10u(int p) { u64 r = 1; while (p-- > 0) r *= 10; return r; }
// round(f * 10^p / 2^s), f < 2^53, p <= 18
static u64 scaled(u64 f, int p, int s) {
  u64 hi, lo;  // f * 5^p (p <= 15: hi * 2^26 + lo, else hi * 2^64 + lo)
  int w, k = s - p;
  if (p <= 15) {
    u64 c = pow5(p), b = (f & ((1u << 26) - 1)) * c;
    hi = (f >> 26) * c + (b >> 26);
    lo = b & ((1u << 26) - 1);
    w = 26;
  } else {
    u64 c = pow5(p), fl = (unsigned)f, fh = f >> 32, cl = (unsigned)c, ch = c >> 32;
    u64 ll = fl * cl, m1 = fh * cl + (ll >> 32), m2 = fl * ch + (unsigned)m1;
    lo = (m2 << 32) | (unsigned)ll;
    hi = fh * ch + (m1 >> 32) + (m2 >> 32);
    w = 64;
  }
  if (k <= 0) return ((w == 64 ? 0 : hi << w) + lo) << -k;
  u64 q;
  bool up, tie;
  if (k <= w) {
    if (k == 64) { q = hi; u64 half = 1ull << 63; up = lo > half; tie = lo == half; }
    else {
      q = (k == w ? hi : hi << (w - k)) | (lo >> k);
      u64 rem = lo & ((1ull << k) - 1), half = 1ull << (k - 1);
      up = rem > half;
      tie = rem == half;
    }
  } else {
    int j = k - w;
    if (j >= 64) {
      if (j > 64) return 0;
      up = hi > (1ull << 63) || (hi == (1ull << 63) && lo != 0);
      return up;
    }
    q = hi >> j;
    u64 rem = hi & ((1ull << j) - 1), half = 1ull << (j - 1);
    up = rem > half || (rem == half && lo != 0);
    tie = rem == half && lo == 0;
  }
  if (up || (tie && (q & 1))) ++q;
  return q;
}
static size_t fixedText(char *out, u64 m, int e, int prec, bool alt) {  // m * 2^e
  char *o = out;
  if (e >= 11) {  // too large for 64 bits: decimal limbs, exact
    unsigned limb[40] = {0};
    int n = 0;
    for (u64 t = m; t; t /= 1000000000u) limb[n++] = t % 1000000000u;
    for (; e > 0; e -= (e >= 16 ? 16 : e)) {
      int sh = e >= 16 ? 16 : e;
      u64 carry = 0;
      for (int i = 0; i < n; ++i) { u64 t = ((u64)limb[i] << sh) + carry; limb[i] = t % 1000000000u; carry = t / 1000000000u; }
      if (carry) limb[n++] = (unsigned)carry;
    }
    o += digitsOf(o, limb[n - 1]);
    for (int i = n - 2; i >= 0; --i) { unsigned t = limb[i]; for (int j = 8; j >= 0; --j) { o[j] = '0' + t % 10; t /= 10; } o += 9; }
    if (prec || alt) *o++ = '.';
    for (int i = 0; i < prec; ++i) *o++ = '0';
    return o - out;
  }
  u64 ip, frac = 0;
  if (prec > 18) sx_unsupported("more than 18 decimals");
  if (e >= 0) ip = m << e;
  else {
    int s = -e;
    ip = s < 64 ? m >> s : 0;
    u64 f = s < 64 ? m & ((1ull << s) - 1) : m;
    frac = s > 300 ? 0 : scaled(f, prec, s);
    if (frac >= pow10u(prec)) { frac -= pow10u(prec); ++ip; }
  }
  o += digitsOf(o, ip);
  if (prec || alt) *o++ = '.';
  for (int i = prec; i-- > 0;) { o[i] = (char)('0' + frac % 10); frac /= 10; }
  return o + prec - out;
}
extern "C" size_t sx_format_fp(char *out, double v, char conv, int prec, bool alt, bool plus) {
  int given = -1;
  while (given < 400 && !sx_split(prec == given)) ++given;
  if (given == 400) { sx_unsupported("more than 399 digits of precision"); return 0; }
  prec = given;
  for (const char *k = "fgea"; *k; ++k) if (sx_split(conv == *k)) { conv = *k; break; }
  u64 b;
  memcpy(&b, &v, 8);
  char *o = out;
  if (b >> 63) *o++ = '-';
  else if (plus) *o++ = '+';
  int e = (int)((b >> 52) & 0x7ff);
  u64 m = b & ((1ull << 52) - 1);
  if (e == 0x7ff) { memcpy(o, m ? "nan" : "inf", 3); return o + 3 - out; }
  if (e) m |= 1ull << 52;
  else e = 1;
  e -= 1075;
  if (conv == 'f') return o + fixedText(o, m, e, prec, alt) - out;
  if (conv != 'g') { sx_unsupported("scientific or hexadecimal output"); return 0; }
  if (!prec) prec = 1;
  if (m == 0) { *o++ = '0'; return o - out; }
  u64 ip = e >= 0 ? (e < 11 ? m << e : ~0ull) : (-e < 64 ? m >> -e : 0);
  char t[32];
  int x;
  if (ip) x = (int)digitsOf(t, ip) - 1;
  else for (x = -1; x >= -4 && scaled(m, -x, -e) < 1; --x) {}
  if (x < -4 || x >= prec || prec - 1 - x > 18) { sx_unsupported("scientific output"); return 0; }
  size_t n = fixedText(o, m, e, prec - 1 - x, alt);
  if (!alt && prec - 1 - x > 0) {
    while (o[n - 1] == '0') --n;
    if (o[n - 1] == '.') --n;
  }
  return o + n - out;
}
