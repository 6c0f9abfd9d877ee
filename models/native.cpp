// Replays inputs recorded by symx against the real code (compiled natively).
//   replay ENTRY FILE [params...]    one input vector per line: name=hex <tab> name=hex ...
// Each line runs in a process of its own; prints "R <line> <how it ended>" after that line's observations.
#include <dlfcn.h>
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "sym.h"

static std::vector<std::pair<char *, char *>> *g_in;
static size_t g_pos;
static std::atomic<long> g_live;
static std::vector<uint32_t> *g_params;
static bool g_active;
static thread_local int g_guard;  // initialisations of function-local statics under way: what they allocate is not counted

// --- operator new/delete: counted, checked for mismatches, with the same limit on a single block as in the encoding
struct Hdr { uint64_t kind, once; };
static const uint64_t NEW = 0x53584e4557315f5full, NEWA = 0x53584e4557415f5full;
static const size_t CAP = 1 << 21;
static void *get(size_t n, uint64_t kind) {
  if (g_active && n > CAP) throw std::bad_alloc();
  // SX_SPREAD: blocks far apart, as in a heap that has been in use for long
  static int spread = -1;
  if (spread < 0) spread = getenv("SX_SPREAD") != nullptr;
  Hdr *h = (Hdr *)malloc(n + sizeof(Hdr) + (spread ? 8192 : 0));
  if (!h) throw std::bad_alloc();
  h->kind = kind;
  if (n) memset(h + 1, 0xA5, n);
  h->once = g_guard != 0;
  if (!h->once) g_live.fetch_add(1, std::memory_order_relaxed);
  return h + 1;
}
static void put(void *p, uint64_t kind) {
  if (!p) return;
  Hdr *h = (Hdr *)p - 1;
  if (h->kind != kind) {
    fprintf(stdout, "F memory released with the wrong function, twice, or not allocated\n");
    fflush(stdout);
    _exit(1);
  }
  h->kind = 0;
  if (!h->once) g_live.fetch_sub(1, std::memory_order_relaxed);
  free(h);
}
void *operator new(size_t n) { return get(n, NEW); }
void *operator new[](size_t n) { return get(n, NEWA); }
void operator delete(void *p) noexcept { put(p, NEW); }
void operator delete[](void *p) noexcept { put(p, NEWA); }
void operator delete(void *p, size_t) noexcept { put(p, NEW); }
void operator delete[](void *p, size_t) noexcept { put(p, NEWA); }

// the guards of function-local statics
static pthread_mutex_t g_guards = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
extern "C" int __cxa_guard_acquire(char *g) {
  pthread_mutex_lock(&g_guards);
  if (*g) {
    pthread_mutex_unlock(&g_guards);
    return 0;
  }
  ++g_guard;
  return 1;
}
extern "C" void __cxa_guard_release(char *g) {
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
  --g_guard;
  pthread_mutex_unlock(&g_guards);
}
extern "C" void __cxa_guard_abort(char *) {
  --g_guard;
  pthread_mutex_unlock(&g_guards);
}
extern "C" void sx_once(bool on) { g_guard += on ? 1 : -1; }

static void finish(int code) {
  fflush(stdout);
  _exit(code);
}
static void take(void *p, size_t n, const char *name) {
  memset(p, 0, n);
  if (!g_in || g_pos >= g_in->size()) return;  // inputs asked for after the recorded ones: zero
  auto &e = (*g_in)[g_pos++];
  if (strcmp(e.first, name) || strlen(e.second) != n * 2) {
    printf("X input %s expected, %s recorded\n", name, e.first);
    finish(78);
  }
  for (size_t i = 0; i < n; ++i) {
    unsigned b = 0;
    sscanf(e.second + 2 * i, "%2x", &b);
    ((unsigned char *)p)[i] = (unsigned char)b;
  }
}
extern "C" {
void sx_bytes(void *p, size_t n, const char *name) { take(p, n, name); }
uint8_t sx_i8(const char *name) { uint8_t v; take(&v, 1, name); return v; }
uint32_t sx_i32(const char *name) { uint32_t v; take(&v, 4, name); return v; }
uint64_t sx_i64(const char *name) { uint64_t v; take(&v, 8, name); return v; }
uint32_t sx_choice(uint32_t n, const char *name) { uint32_t v; take(&v, 4, name); return v; }
void sx_assume(bool c) { if (!c) finish(77); }
void sx_check(bool c, const char *msg) {
  if (c) return;
  printf("F %s\n", msg);
  finish(1);
}
void sx_same(uint64_t a, uint64_t b, int kind, const char *msg) {
  bool ok;
  if (kind == 1) {
    float x, y;
    memcpy(&x, &a, 4);
    memcpy(&y, &b, 4);
    ok = (uint32_t)a == (uint32_t)b || (x != x && y != y);
  } else if (kind == 2) {
    double x, y;
    memcpy(&x, &a, 8);
    memcpy(&y, &b, 8);
    ok = a == b || (x != x && y != y);
  } else ok = a == b;
  sx_check(ok, msg);
}
void sx_fail(const char *msg) { sx_check(false, msg); abort(); }
bool sx_split(bool c) { return c; }
void sx_observe(const char *name, uint64_t v) { printf("o\t%s=%016llx\n", name, (unsigned long long)v); }
uint64_t sx_live() { return (uint64_t)g_live; }
void sx_reach(const char *) {}
uint32_t sx_param(uint32_t i) { return i < g_params->size() ? (*g_params)[i] : 0; }
// Both start at the same moment; nothing else orders one with respect to the other (the counters are relaxed).
static std::atomic<int> g_ready;
void sx_parallel(void (*f)(void *), void *a, void (*g)(void *), void *b) {
  auto go = [](void (*fn)(void *), void *x) {
    g_ready.fetch_add(1, std::memory_order_relaxed);
    while (g_ready.load(std::memory_order_relaxed) < 2) {}
    fn(x);
  };
  g_ready = 0;
  std::thread t(go, f, a), u(go, g, b);
  t.join();
  u.join();
}
void sx_bound(const char *) { finish(79); }
unsigned sx_buckets = 0;
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  g_params = new std::vector<uint32_t>;
  for (int i = 3; i < argc; ++i) g_params->push_back((uint32_t)strtoul(argv[i], nullptr, 0));
  FILE *f = fopen(argv[2], "r");
  if (!f) return 2;
  char *line = nullptr;
  size_t cap = 0;
  ssize_t n;
  for (long k = 0; (n = getline(&line, &cap, f)) >= 0; ++k) {
    if (n && line[n - 1] == '\n') line[n - 1] = 0;
    g_in = new std::vector<std::pair<char *, char *>>;
    for (char *t = strtok(line, "\t"); t; t = strtok(nullptr, "\t")) {
      char *q = strchr(t, '=');
      if (!q) continue;
      *q = 0;
      g_in->push_back({t, q + 1});
    }
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      alarm(60);
      g_active = true;
      fn();
      finish(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) printf("R %ld signal %d\n", k, WTERMSIG(st));
    else printf("R %ld exit %d\n", k, WEXITSTATUS(st));
    delete g_in;
  }
  return 0;
}
