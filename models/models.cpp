// Models of the parts of libstdc++ and libc the code under test calls out of line.  libstdc++'s own templates are used
// wherever the headers have the source (std::string is instantiated here); the rest follows the documented behaviour.
#include <any>
#include <cerrno>
#include <climits>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <variant>

#include "sym.h"

template class std::basic_string<char>;
namespace std { inline namespace __cxx11 {} }

extern "C" char __libc_single_threaded = 1;

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

static char *dup(const char *s, size_t n) {
  char *p = (char *)::operator new(n + 1);
  memcpy(p, s, n);
  p[n] = 0;
  return p;
}
__cow_string::__cow_string() : _M_p(dup("", 0)) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dup(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dup(o._M_p, strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept {
  char *p = dup(o._M_p, strlen(o._M_p));
  ::operator delete((void *)_M_p);
  _M_p = p;
  return *this;
}
__cow_string::~__cow_string() { ::operator delete((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(dup(o._M_p, strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }

runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
#define DERIVED(C, B)                                \
  C::C(const string &s) : B(s) {}                    \
  C::C(const char *s) : B(s) {}                      \
  C::~C() noexcept {}
DERIVED(invalid_argument, logic_error)
DERIVED(out_of_range, logic_error)
DERIVED(length_error, logic_error)
DERIVED(domain_error, logic_error)
DERIVED(range_error, runtime_error)
DERIVED(overflow_error, runtime_error)
DERIVED(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
}  // namespace std
extern "C" void sx_throw_bad_alloc() { throw std::bad_alloc(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_throw_bad_array_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }

// keep the templates and types harnesses refer to alive in this module
namespace sx_keep {
__attribute__((used)) static void keep(std::exception *e) {
  try { e->what(); } catch (std::bad_alloc &) {} catch (std::out_of_range &) {} catch (std::invalid_argument &) {} catch (std::length_error &) {}
}
}  // namespace sx_keep


// ---------------------------------------------------------------- containers
namespace std {
// Murmur hash as in libstdc++
static inline size_t sx_load(const char *p) { size_t r; memcpy(&r, p, 8); return r; }
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  const char *buf = (const char *)ptr;
  const char *end = buf + (len & ~(size_t)7);
  size_t hash = seed ^ (len * mul);
  for (const char *p = buf; p != end; p += 8) {
    size_t d = sx_load(p) * mul;
    d ^= d >> 47;
    d *= mul;
    hash ^= d;
    hash *= mul;
  }
  if ((len & 7) != 0) {
    size_t d = 0;
    for (int n = (int)(len & 7) - 1; n >= 0; --n) d = (d << 8) + (unsigned char)end[n];
    hash ^= d;
    hash *= mul;
  }
  hash ^= hash >> 47;
  hash *= mul;
  hash ^= hash >> 47;
  return hash;
}
}  // namespace std
// Number of buckets an unordered container gets; any number is permitted by the standard.
extern "C" { uint32_t sx_buckets = 1; }
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { _M_next_resize = 1 << 30; return n > sx_buckets ? n : sx_buckets; }
// one bucket while there are few elements, so that the bucket does not depend on the hash
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n, size_t m) const { if (n + m > 48 && n + m > n_bkt) return {true, (n + m) * 4 + 1}; if (n_bkt < sx_buckets) return {true, sx_buckets}; return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *first, _List_node_base *last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base *tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base *t = this;
  do {
    _List_node_base *n = t->_M_next;
    t->_M_next = t->_M_prev;
    t->_M_prev = n;
    t = n;
  } while (t != this);
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  auto relink = [](_List_node_base &n, _List_node_base *old) {
    if (n._M_next == old) n._M_next = n._M_prev = &n;
    else n._M_next->_M_prev = n._M_prev->_M_next = &n;
  };
  _List_node_base *a = x._M_next, *b = x._M_prev;
  x._M_next = y._M_next;
  x._M_prev = y._M_prev;
  y._M_next = a;
  y._M_prev = b;
  relink(x, &y);
  relink(y, &x);
}
} }  // namespace std::__detail
namespace std {
// Trees are kept unbalanced here: balance is invisible through the interface.
static _Rb_tree_node_base *sx_inc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return sx_inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return sx_inc(const_cast<_Rb_tree_node_base *>(x)); }
static _Rb_tree_node_base *sx_dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;  // header
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return sx_dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return sx_dec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  if (h._M_left == z) h._M_left = sx_inc(z) == &h ? &h : sx_inc(z);
  if (h._M_right == z) { _Rb_tree_node_base *d = nullptr; if (z->_M_left) { d = z->_M_left; while (d->_M_right) d = d->_M_right; } else d = z->_M_parent; h._M_right = d; }
  auto replace = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
    if (o == h._M_parent) h._M_parent = n;
    else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
    else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base *y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  return z;
}
}  // namespace std

// ---------------------------------------------------------------- dynamic_cast
extern "C" {
extern char sx_tv_class[] __asm__("_ZTVN10__cxxabiv117__class_type_infoE");
extern char sx_tv_si[] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE");
extern char sx_tv_vmi[] __asm__("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
}
struct SxType { char *vt; const char *name; };
struct SxSi : SxType { const SxType *base; };
struct SxVmi : SxType { unsigned flags, count; struct { const SxType *base; long off; } b[]; };
static const char *sx_subobject(const char *p, const SxType *have, const SxType *want) {
  if (have == want) return p;
  if (have->vt == sx_tv_si + 16) return sx_subobject(p, ((const SxSi *)have)->base, want);
  if (have->vt == sx_tv_vmi + 16) {
    const SxVmi *v = (const SxVmi *)have;
    for (unsigned i = 0; i < v->count; ++i) {
      if (!(v->b[i].off & 2)) continue;  // not public
      long o = v->b[i].off >> 8;
      if (v->b[i].off & 1) o = *(const long *)(*(char *const *)p + o);
      if (const char *r = sx_subobject(p + o, v->b[i].base, want)) return r;
    }
  }
  return nullptr;
}
extern "C" void *__dynamic_cast(const void *src, const void *, const void *dst, long) {
  const long *vt = *(const long *const *)src;
  return (void *)sx_subobject((const char *)src + vt[-2], (const SxType *)vt[-1], (const SxType *)dst);
}

// ---------------------------------------------------------------- threads: what one thread sees of them
namespace std {
__thread void *__once_callable;
__thread void (*__once_call)();
}
extern "C" {
void sx_once(bool);
void __once_proxy() { std::__once_call(); }
int sx_m_once(int *ctl, void (*fn)()) __asm__("pthread_once");
int sx_m_once(int *ctl, void (*fn)()) {
  sx_once(true);
  if (*ctl) { sx_once(false); return 0; }
  try { fn(); } catch (...) { sx_once(false); throw; }
  *ctl = 2;
  sx_once(false);
  return 0;
}
void sx_thread(uint32_t which);
void sx_parallel(void (*f)(void *), void *a, void (*g)(void *), void *b) {
  __libc_single_threaded = 0;
  sx_thread(1);
  f(a);
  sx_thread(2);
  g(b);
  sx_thread(0);
}
char *sx_m_strdup(const char *s) __asm__("strdup");
char *sx_m_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *)malloc(n);
  memcpy(p, s, n);
  return p;
}
double sx_m_frexp(double v, int *e) __asm__("frexp");
double sx_m_frexp(double v, int *e) {
  uint64_t b;
  memcpy(&b, &v, 8);
  int x = (int)(b >> 52 & 0x7ff);
  if (x == 0x7ff || !(b << 1)) { *e = 0; return v; }
  if (!x) {
    v *= 18014398509481984.0;  // 2^54
    memcpy(&b, &v, 8);
    x = (int)(b >> 52 & 0x7ff) - 54;
  }
  *e = x - 1022;
  b = (b & ~(0x7ffull << 52)) | (1022ull << 52);
  memcpy(&v, &b, 8);
  return v;
}
static double sx_two(int e) { uint64_t b = (uint64_t)(e + 1023) << 52; double d; memcpy(&d, &b, 8); return d; }
double sx_m_ldexp(double v, int e) __asm__("ldexp");
double sx_m_ldexp(double v, int e) {
  if (e > 1023) { v *= sx_two(1023); e -= 1023; if (e > 1023) { v *= sx_two(1023); e -= 1023; if (e > 1023) e = 1023; } }
  else if (e < -1022) {
    // scaling down in steps that round at most once
    v *= sx_two(-1022 + 53); e += 1022 - 53;
    if (e < -1022) { v *= sx_two(-1022 + 53); e += 1022 - 53; if (e < -1022) e = -1022; }
  }
  return v * sx_two(e);
}
double sx_m_scalbn(double v, int e) __asm__("scalbn");
double sx_m_scalbn(double v, int e) { return sx_m_ldexp(v, e); }
double sx_m_modf(double v, double *ip) __asm__("modf");
double sx_m_modf(double v, double *ip) {
  double t = __builtin_trunc(v);
  *ip = t;
  return __builtin_copysign(__builtin_isinf(v) ? 0.0 : v - t, v);
}
float sx_m_modff(float v, float *ip) __asm__("modff");
float sx_m_modff(float v, float *ip) {
  float t = __builtin_truncf(v);
  *ip = t;
  return __builtin_copysignf(__builtin_isinf(v) ? 0.0f : v - t, v);
}
double sx_m_nextafter(double x, double y) __asm__("nextafter");
double sx_m_nextafter(double x, double y) {
  if (x != x || y != y) return x + y;
  if (x == y) return y;
  uint64_t b;
  memcpy(&b, &x, 8);
  if (!(b << 1)) b = (y < 0 ? 1ull << 63 : 0) | 1;
  else b += (x < y) == (x > 0) ? 1 : -1;
  memcpy(&x, &b, 8);
  return x;
}
}

// ---------------------------------------------------------------- libc
static __thread int sx_errno;
extern "C" {
int *__errno_location() noexcept { return &sx_errno; }
// "C" locale, without branches
int isspace(int c) noexcept { return (c == ' ') | ((unsigned)c - 9u < 5u); }
int isdigit(int c) noexcept { return (unsigned)c - '0' < 10u; }
int isupper(int c) noexcept { return (unsigned)c - 'A' < 26u; }
int islower(int c) noexcept { return (unsigned)c - 'a' < 26u; }
int isalpha(int c) noexcept { return ((unsigned)c | 32) - 'a' < 26u; }
int isalnum(int c) noexcept { return isalpha(c) | isdigit(c); }
int isxdigit(int c) noexcept { return isdigit(c) | (((unsigned)c | 32) - 'a' < 6u); }
int isblank(int c) noexcept { return (c == ' ') | (c == '\t'); }
int isprint(int c) noexcept { return (unsigned)c - 32u < 95u; }
int iscntrl(int c) noexcept { return ((unsigned)c < 32u) | (c == 127); }
int isgraph(int c) noexcept { return (unsigned)c - 33u < 94u; }
int ispunct(int c) noexcept { return isgraph(c) & !isalnum(c); }
int tolower(int c) noexcept { return c + (isupper(c) << 5); }
int toupper(int c) noexcept { return c - (islower(c) << 5); }

static inline int digitOf(unsigned char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
  return 99;
}
static unsigned long long sx_parse(const char *s, char **end, int base, unsigned long long maxPos, unsigned long long maxNeg, bool &neg, bool &over) {
  const char *p = s;
  while (isspace((unsigned char)*p)) ++p;
  neg = false;
  over = false;
  if (*p == '-') { neg = true; ++p; }
  else if (*p == '+') ++p;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitOf(p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long lim = neg ? maxNeg : maxPos, v = 0;
  bool any = false;
  for (;; ++p) {
    int d;
    if (base <= 10) { if (!((unsigned)(unsigned char)*p - '0' < (unsigned)base)) break; d = *p - '0'; }
    else { d = digitOf(*p); if (d >= base) break; }
    any = true;
    if (over) continue;
    const unsigned long long cut = lim / (unsigned)base, last = lim % (unsigned)base;
    if (v > cut || (v == cut && (unsigned)d > last)) { over = true; continue; }
    v = v * base + d;
  }
  if (end) *end = (char *)(any ? p : s);
  if (!any) { neg = false; return 0; }
  if (over) return lim;
  return v;
}
static long sx_l(const char *s, char **e, int b) {
  bool neg, over;
  unsigned long long v = sx_parse(s, e, b, LONG_MAX, 1ULL << 63, neg, over);
  if (over) sx_errno = ERANGE;
  return neg ? (long)(0 - v) : (long)v;
}
static unsigned long sx_ul(const char *s, char **e, int b) {
  bool neg, over;
  unsigned long long v = sx_parse(s, e, b, ULONG_MAX, ULONG_MAX, neg, over);
  if (over) { sx_errno = ERANGE; return ULONG_MAX; }
  return neg ? 0 - v : v;
}
#define SX_STRTO(ret, fn, impl) \
  ret sx_m_##fn(const char *s, char **e, int b) __asm__(#fn); \
  ret sx_m_##fn(const char *s, char **e, int b) { return impl(s, e, b); }
SX_STRTO(long, strtol, sx_l)
SX_STRTO(long long, strtoll, sx_l)
SX_STRTO(unsigned long, strtoul, sx_ul)
SX_STRTO(unsigned long long, strtoull, sx_ul)
SX_STRTO(long, __isoc23_strtol, sx_l)
SX_STRTO(long long, __isoc23_strtoll, sx_l)
SX_STRTO(unsigned long, __isoc23_strtoul, sx_ul)
SX_STRTO(unsigned long long, __isoc23_strtoull, sx_ul)
int sx_m_atoi(const char *s) __asm__("atoi");
int sx_m_atoi(const char *s) { return (int)sx_l(s, nullptr, 10); }
long sx_m_atol(const char *s) __asm__("atol");
long sx_m_atol(const char *s) { return sx_l(s, nullptr, 10); }
long long sx_m_atoll(const char *s) __asm__("atoll");
long long sx_m_atoll(const char *s) { return sx_l(s, nullptr, 10); }
int abs(int v) noexcept { return v < 0 ? (int)(0u - (unsigned)v) : v; }
long labs(long v) noexcept { return v < 0 ? (long)(0ul - (unsigned long)v) : v; }
long long llabs(long long v) noexcept { return labs(v); }

// Decimal floating-point text with at most 15 significant digits and a result exponent within the exactly representable
// powers of ten: digits / 10^k or digits * 10^k is then a single correctly rounded operation.  Anything beyond is
// outside the model.
void sx_unsupported(const char *);
static double sx_pow10(int k) {
  static const double t[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  return t[k];
}
static bool sx_word(const char *p, const char *w) {
  for (; *w; ++w, ++p) if ((*p | 32) != *w) return false;
  return true;
}
// 0 nothing, 1 a decimal number, 2 infinity, 3 NaN
struct sx_text { const char *digits, *exponent; bool wide; };  // wide: dig and exp10 do not say it all
static int sx_decimal(const char *s, char **end, bool &neg, unsigned long long &dig, int &exp10, sx_text &txt) {
  const char *p = s;
  while (isspace((unsigned char)*p)) ++p;
  neg = false;
  if (*p == '-') { neg = true; ++p; }
  else if (*p == '+') ++p;
  if (sx_word(p, "inf")) {
    if (end) *end = (char *)p + (sx_word(p + 3, "inity") ? 8 : 3);
    return 2;
  }
  if (sx_word(p, "nan")) {
    p += 3;
    if (*p == '(') {
      const char *q = p + 1;
      while (isalnum((unsigned char)*q) || *q == '_') ++q;
      if (*q == ')') p = q + 1;
    }
    if (end) *end = (char *)p;
    return 3;
  }
  dig = 0;
  exp10 = 0;
  bool any = false;
  int nd = 0;
  if (*p == '0' && (p[1] | 32) == 'x' && (isxdigit((unsigned char)p[2]) || (p[2] == '.' && isxdigit((unsigned char)p[3])))) sx_unsupported("strtod of hexadecimal text");
  txt = sx_text{p, nullptr, false};
  for (; (unsigned)(unsigned char)*p - '0' < 10u; ++p) { any = true; dig = dig * 10 + (*p - '0'); ++nd; }
  if (*p == '.') {
    const char *q = p + 1;
    bool frac = false;
    for (; (unsigned)(unsigned char)*q - '0' < 10u; ++q) { frac = true; dig = dig * 10 + (*q - '0'); --exp10; ++nd; }
    if (any || frac) { any = true; p = q; }
  }
  if (nd > 15) txt.wide = true;
  if (!any) { if (end) *end = (char *)s; return 0; }
  if ((*p | 32) == 'e') {
    const char *q = p + 1;
    bool en = false;
    if (*q == '-') { en = true; ++q; }
    else if (*q == '+') ++q;
    int x = 0;
    bool ea = false;
    txt.exponent = p + 1;
    for (; (unsigned)(unsigned char)*q - '0' < 10u; ++q) { ea = true; if (x < 10000) x = x * 10 + (*q - '0'); }
    if (ea) { p = q; exp10 += en ? -x : x; }
  }
  if (end) *end = (char *)p;
  return 1;
}
}
// Natural numbers, for the numbers the fast path does not cover; its digits are made concrete, one path for each.
struct sx_big {
  static const int MAX = 400;
  uint32_t w[MAX];
  int n = 0;
  void madd(uint32_t m, uint32_t a) {
    uint64_t c = a;
    for (int i = 0; i < n; ++i) { c += (uint64_t)w[i] * m; w[i] = (uint32_t)c; c >>= 32; }
    if (c) { if (n == MAX) { sx_unsupported("strtod of a very long number"); return; } w[n++] = (uint32_t)c; }
  }
  int bits() const { return n ? n * 32 - __builtin_clz(w[n - 1]) : 0; }
  void shl(int k) {
    int q = k / 32, r = k % 32;
    if (!n || !k) return;
    if (n + q + 1 > MAX) { sx_unsupported("strtod of a very long number"); return; }
    w[n] = 0;
    for (int i = n; i >= 0; --i) w[i + q] = w[i] << r | (r && i ? w[i - 1] >> (32 - r) : 0);
    for (int i = 0; i < q; ++i) w[i] = 0;
    n += q + 1;
    while (n && !w[n - 1]) --n;
  }
  bool less(const sx_big &o) const {
    if (n != o.n) return n < o.n;
    for (int i = n; i-- > 0;) if (w[i] != o.w[i]) return w[i] < o.w[i];
    return false;
  }
  void sub(const sx_big &o) {
    int64_t c = 0;
    for (int i = 0; i < n; ++i) { c += (int64_t)w[i] - (i < o.n ? o.w[i] : 0); w[i] = (uint32_t)c; c >>= 32; }
    while (n && !w[n - 1]) --n;
  }
};
static unsigned sx_digit(char c) {
  for (unsigned v = 0; v < 10; ++v) if (sx_split(c == (char)('0' + v))) return v;
  return 10;
}
// The number rounded to nearest, ties to even: p bits, least exponent of a normal number lo, greatest hi.
// Returns m and e with the value m * 2^e, or m = ~0 for infinity; range: overflow, or inexact and below the normal numbers.
static uint64_t sx_nearest(const sx_text &t, int p, int lo, int hi, int &e2, bool &range) {
  sx_big N, M;
  long long e10 = 0;
  bool point = false;
  int count = 0, sig = 0;
  range = false;
  e2 = 0;
  for (const char *c = t.digits;; ++c) {
    if (!point && sx_split(*c == '.')) { point = true; continue; }
    unsigned d = sx_digit(*c);
    if (d > 9) break;
    if (++count > 1500) { sx_unsupported("strtod of more than 1500 digits"); return 0; }
    N.madd(10, d);
    if (N.n) ++sig;
    if (point) --e10;
  }
  if (t.exponent) {
    const char *c = t.exponent;
    bool neg = false;
    if (sx_split(*c == '-')) { neg = true; ++c; }
    else if (sx_split(*c == '+')) ++c;
    long long x = 0;
    for (unsigned d; (d = sx_digit(*c)) < 10; ++c) if (x < 100000) x = x * 10 + d;
    e10 += neg ? -x : x;
  }
  if (!N.n) return 0;
  if (e10 + sig > 400) { range = true; return ~0ull; }
  if (e10 + sig < -400) { range = true; return 0; }
  M.madd(0, 1);
  for (; e10 > 0; --e10) N.madd(10, 0);
  for (; e10 < 0; ++e10) M.madd(10, 0);
  // 2^62 <= N / M * 2^-k < 2^64
  int k = N.bits() - M.bits() - 63;
  if (k > 0) M.shl(k); else N.shl(-k);
  uint64_t q = 0;
  M.shl(63);
  for (int i = 63; i >= 0; --i) {
    q <<= 1;
    if (!N.less(M)) { N.sub(M); q |= 1; }
    N.shl(1);  // instead of halving M
  }
  bool sticky = N.n != 0;
  int len = 64 - __builtin_clzll(q);  // the value lies in [2^(k + len - 1), 2^(k + len))
  int drop = len - p;
  if (k + drop < lo) drop = lo - k;
  if (drop <= 0) { e2 = k; return q; }
  uint64_t m = drop > 64 ? 0 : drop == 64 ? 0 : q >> drop;
  bool half = drop > 64 ? false : (q >> (drop - 1)) & 1;
  bool rest = sticky || (drop > 64 ? true : (q & ((1ull << (drop - 1)) - 1)) != 0);
  bool tiny = k + len - 1 < lo + p - 1;
  if (half && (rest || (m & 1))) ++m;
  if (tiny && (half || rest)) range = true;
  e2 = k + drop;
  if (m >> p) { m >>= 1; ++e2; }
  if ((m >> (p - 1)) && e2 + p - 1 > hi) { range = true; return ~0ull; }
  return m;
}
extern "C" {
double strtod(const char *s, char **end) noexcept {
  bool neg;
  unsigned long long d;
  int e;
  sx_text t;
  int kind = sx_decimal(s, end, neg, d, e, t);
  if (!kind) return 0;
  double v;
  if (kind == 2) v = __builtin_inf();
  else if (kind == 3) v = __builtin_nan("");
  else if (!t.wide && d == 0) v = 0;
  else if (!t.wide && e > 400) { v = __builtin_inf(); sx_errno = ERANGE; }
  else if (!t.wide && e < -400) { v = 0; sx_errno = ERANGE; }
  else if (t.wide || e > 22 || e < -22) {
    int x;
    bool range;
    uint64_t m = sx_nearest(t, 53, -1074, 1023, x, range), b;
    if (range) sx_errno = ERANGE;
    if (m == ~0ull) b = 0x7ffull << 52;
    else if (!(m >> 52)) b = m;
    else b = m - (1ull << 52) + ((uint64_t)(x + 1075) << 52);
    memcpy(&v, &b, 8);
  }
  else v = e >= 0 ? (double)d * sx_pow10(e) : (double)d / sx_pow10(-e);
  return neg ? -v : v;
}
float strtof(const char *s, char **end) noexcept {
  bool neg;
  unsigned long long d;
  int e;
  sx_text t;
  int kind = sx_decimal(s, end, neg, d, e, t);
  if (!kind) return 0;
  float v;
  if (kind == 2) v = __builtin_inff();
  else if (kind == 3) v = __builtin_nanf("");
  else if (!t.wide && d == 0) v = 0;
  else if (!t.wide && e > 60) { v = __builtin_inff(); sx_errno = ERANGE; }
  else if (!t.wide && e < -80) { v = 0; sx_errno = ERANGE; }
  else if (t.wide || e > 10 || e < -10 || d >= (1u << 24)) {
    int x;
    bool range;
    uint64_t m = sx_nearest(t, 24, -149, 127, x, range);
    uint32_t b;
    if (range) sx_errno = ERANGE;
    if (m == ~0ull) b = 0xffu << 23;
    else if (!(m >> 23)) b = (uint32_t)m;
    else b = (uint32_t)m - (1u << 23) + ((uint32_t)(x + 150) << 23);
    memcpy(&v, &b, 4);
  }
  else v = e >= 0 ? (float)d * (float)sx_pow10(e) : (float)d / (float)sx_pow10(-e);
  return neg ? -v : v;
}
double sx_m_atof(const char *s) __asm__("atof");
double sx_m_atof(const char *s) { return strtod(s, nullptr); }
}
