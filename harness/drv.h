// Common part of the conformance drivers: reads a schedule (one call per line, "Op key=value ..."),
// executes it on the real code, records one JSON event per public call.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <type_traits>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <algorithm>
#include <unistd.h>
#include <thread>
#include <atomic>
#include <sys/mman.h>
#include <signal.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#if defined(__x86_64__)
#include <xmmintrin.h>
#endif
#ifdef PROC
#include <iostream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <dirent.h>
#include <sys/prctl.h>
#include <sched.h>
#include <locale>
#include <new>
#include <exception>
#if __has_include(<gmp.h>)
#include <gmp.h>
#pragma weak __gmp_get_memory_functions
#endif
extern char **environ;
#endif
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

#ifdef HEAP
// Heap builds: every block handed out by malloc and its relatives is counted, with the size that was asked for.
extern "C" {
void *__libc_malloc(size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
namespace drv {
struct BlockHead { void *base; size_t n, magic, pad; };
static const size_t MAGIC = 0x6b636f6c62707421ull;
static std::atomic<long> live_blocks(0), live_bytes(0);
inline void *take(size_t n, size_t a) {
  size_t h = a > 32 ? a : 32;
  if (n + h < n) return nullptr;
  uint8_t *base = (uint8_t *)(a > 16 ? __libc_memalign(a, n + h) : __libc_malloc(n + h));
  if (!base) return nullptr;
  BlockHead *b = (BlockHead *)(base + h - 32);
  b->base = base; b->n = n; b->magic = MAGIC;
  live_blocks++; live_bytes += (long)n;
  return base + h;
}
inline void give(void *p) {
  if (!p) return;
  BlockHead *b = (BlockHead *)((uint8_t *)p - 32);
  if (b->magic != MAGIC) { __libc_free(p); return; }
  live_blocks--; live_bytes -= (long)b->n;
  b->magic = 0;
  __libc_free(b->base);
}
}
extern "C" {
__attribute__((noinline)) void *malloc(size_t n) noexcept { return drv::take(n, 16); }
__attribute__((noinline)) void free(void *p) noexcept { drv::give(p); }
__attribute__((noinline)) void *calloc(size_t m, size_t n) noexcept {
  size_t t;
  if (__builtin_mul_overflow(m, n, &t)) return nullptr;
  void *p = drv::take(t, 16);
  volatile uint8_t *q = (volatile uint8_t *)p;
  if (p) for (size_t i = 0; i < t; i++) q[i] = 0;
  return p;
}
__attribute__((noinline)) void *realloc(void *p, size_t n) noexcept {
  if (!p) return drv::take(n, 16);
  if (!n) { drv::give(p); return nullptr; }
  void *r = drv::take(n, 16);
  if (!r) return nullptr;
  size_t o = ((drv::BlockHead *)((uint8_t *)p - 32))->n;
  memcpy(r, p, o < n ? o : n);
  drv::give(p);
  return r;
}
__attribute__((noinline)) void *memalign(size_t a, size_t n) noexcept { return drv::take(n, a); }
__attribute__((noinline)) void *aligned_alloc(size_t a, size_t n) noexcept { return drv::take(n, a); }
__attribute__((noinline)) int posix_memalign(void **p, size_t a, size_t n) noexcept { *p = drv::take(n, a); return *p ? 0 : 12; }
}
#endif

namespace drv {
typedef std::vector<uint8_t> Bytes;

static unsigned poison = 0xA5;     // fill of fresh state objects, output buffers and guard zones
static thread_local unsigned align_seed = 0;    // != 0: place data at varying offsets
static thread_local FILE *trace = nullptr;
static const size_t GUARD = 96;
static const bool inplace = getenv("DRV_INPLACE") != nullptr;   // the output replaces the input

inline uint8_t guard_byte(size_t i) { return (uint8_t)(poison ^ (i * 37 + (i >> 3))); }

// Footprint builds: an access outside the buffers handed over ends the execution with a Fault event.
inline void fault() {
  if (trace) { fputs("{\"e\":\"Fault\"}\n", trace); fflush(trace); }
}
inline void footprint_start() {
#ifdef FOOTPRINT
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(fault);
#else
  for (int s : {SIGSEGV, SIGBUS}) signal(s, [](int) { fault(); _exit(0); });
#endif
  for (int s : {SIGILL, SIGTRAP, SIGFPE}) signal(s, [](int) { fault(); _exit(0); });
#endif
}
// Settings of the process that no call has to do with: DRV_PROC names some that differ from the usual ones.
inline void process_settings() {
  const char *e = getenv("DRV_PROC");
  if (!e) return;
  auto has = [e](const char *k) { return strstr(e, k) != nullptr; };
  if (has("up")) fesetround(FE_UPWARD);
  if (has("down")) fesetround(FE_DOWNWARD);
  if (has("zero")) fesetround(FE_TOWARDZERO);
  if (has("locale")) setlocale(LC_ALL, "C.UTF-8");
  if (has("random")) { srand(4711); srandom(99); srand48(5); }
  if (has("closed")) { close(0); close(1); close(2); }
  if (has("env")) { setenv("DEBUG", "1", 1); setenv("LC_ALL", "C.UTF-8", 1); unsetenv("HOME"); unsetenv("PATH"); }
}
#ifdef PROC
// Process builds: what belongs to the process and not to a call is recorded after every call.
static char random_state[128];
inline void proc_start() {
  initstate(1, random_state, sizeof random_state);
  for (int fd : {1, 2}) {
    FILE *f = tmpfile();
    if (!f) exit(3);
    dup2(fileno(f), fd);
    fclose(f);
  }
}
inline std::vector<long> proc_state() {
  fflush(stdout); fflush(stderr); std::cout.flush();
  uint32_t x = 0x811c9dc5u;
  auto mix = [&x](const void *p, size_t n) { for (size_t i = 0; i < n; i++) x = (x ^ ((const uint8_t *)p)[i]) * 16777619u; };
  auto str = [&](const char *c) { if (c) mix(c, strlen(c) + 1); };
  auto take = [&x] { long r = (long)((x ^ (x >> 16)) & 0xffffff); x = 0x811c9dc5u; return r; };
  std::vector<long> r;
  for (int fd : {1, 2}) r.push_back((long)lseek(fd, 0, SEEK_END));            // what was printed
  mix(random_state, sizeof random_state);                                     // rand() and random(), drand48()
  unsigned short seed[3] = {0, 0, 0}, was[3];
  memcpy(was, seed48(seed), sizeof was); mix(was, sizeof was); seed48(was);
  r.push_back(take());
  int m = fegetround(); mix(&m, sizeof m);
#if defined(__x86_64__)
  unsigned c = _mm_getcsr() & ~0x3fu; mix(&c, sizeof c);
  unsigned short cw; __asm__ __volatile__("fnstcw %0" : "=m"(cw)); mix(&cw, sizeof cw);
#endif
  r.push_back(take());                                                       // floating point modes
  str(setlocale(LC_ALL, nullptr)); str(std::locale().name().c_str()); r.push_back(take());
  for (char **e = environ; *e; e++) str(*e);
  r.push_back(take());
  char cwd[4096]; str(getcwd(cwd, sizeof cwd));
  mode_t u = umask(0); umask(u); mix(&u, sizeof u); r.push_back(take());
  for (int s = 1; s < 32; s++) { struct sigaction a; memset(&a, 0, sizeof a); if (!sigaction(s, nullptr, &a)) mix(&a.sa_handler, sizeof a.sa_handler); }
  sigset_t set; sigemptyset(&set); sigprocmask(SIG_BLOCK, nullptr, &set);
  for (int s = 1; s < 32; s++) { int b = sigismember(&set, s); mix(&b, sizeof b); }
  struct itimerval t; memset(&t, 0, sizeof t); getitimer(ITIMER_REAL, &t); int on = t.it_value.tv_sec || t.it_value.tv_usec; mix(&on, sizeof on);
  r.push_back(take());                                                       // signals
  struct rlimit lim;
  for (int k : {RLIMIT_STACK, RLIMIT_NOFILE, RLIMIT_CORE}) { getrlimit((__rlimit_resource)k, &lim); mix(&lim.rlim_cur, sizeof lim.rlim_cur); }
  r.push_back(take());
  auto fl = std::cout.flags(); auto fi = std::cout.fill(); auto pr = std::cout.precision(); auto w = std::cout.width();
  mix(&fl, sizeof fl); mix(&fi, sizeof fi); mix(&pr, sizeof pr); mix(&w, sizeof w); r.push_back(take());    // how others print
  auto nh = std::get_new_handler(); auto th = std::get_terminate(); mix(&nh, sizeof nh); mix(&th, sizeof th);
#ifdef __GNU_MP__
  if (__gmp_get_memory_functions) {
    void *(*f)(size_t), *(*g)(void *, size_t, size_t); void (*k)(void *, size_t);
    mp_get_memory_functions(&f, &g, &k); mix(&f, sizeof f); mix(&g, sizeof g); mix(&k, sizeof k);
  }
#endif
  int pri = getpriority(PRIO_PROCESS, 0), dump = prctl(PR_GET_DUMPABLE); mix(&pri, sizeof pri); mix(&dump, sizeof dump);
  cpu_set_t cpus; CPU_ZERO(&cpus); sched_getaffinity(0, sizeof cpus, &cpus); mix(&cpus, sizeof cpus);
  r.push_back(take());                                                       // handlers, allocators of numbers, scheduling
  int fds = 0, tasks = 0;
  for (int i = 0; i < 256; i++) fds += fcntl(i, F_GETFD) != -1;
  if (DIR *d = opendir("/proc/self/task")) { while (readdir(d)) tasks++; closedir(d); }
  r.push_back(fds); r.push_back(tasks);
  return r;
}
#endif
#ifdef FOOTPRINT
// Pages that the data fills up to their last byte, or from their first one, next to inaccessible ones.
struct Region {
  uint8_t *m = nullptr;
  size_t len = 0, pages = 0;
  Region() {}
  Region(const Region &o) { *this = o; }
  Region &operator=(const Region &o) { if (this != &o) { resize(o.len); memcpy(m, o.m, len); } return *this; }
  ~Region() { drop(); }
  void drop() { if (m) munmap(m - 4096, pages + 8192); m = nullptr; }
  void resize(size_t n) {
    drop();
    len = n;
    pages = (n + 4095) / 4096 * 4096 + 4096;
    uint8_t *q = (uint8_t *)mmap(nullptr, pages + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (q == MAP_FAILED) _exit(3);
    m = q + 4096;
    mprotect(m, pages, PROT_READ | PROT_WRITE);
    len = pages;
  }
  uint8_t *data() { return m; }
  const uint8_t *data() const { return m; }
  size_t size() const { return len; }
  uint8_t &operator[](size_t i) { return m[i]; }
  uint8_t operator[](size_t i) const { return m[i]; }
};
#endif

// A buffer of exactly n bytes between two guard zones.
struct Buf {
#ifdef FOOTPRINT
  Region mem;
#else
  std::vector<uint8_t> mem;
#endif
  Bytes orig;
  bool shared = false;        // also the output of the call
  size_t n, off;
#ifdef FOOTPRINT
  explicit Buf(size_t n_, size_t align = 16) : n(n_) {
    mem.resize(n);
    align_seed = align_seed * 1103515245u + 12345u;
    // against the end of the pages, or their beginning
    off = (align_seed >> 16) % 4 || (mem.size() - n) % align ? mem.size() - n : 0;
    for (size_t i = 0; i < mem.size(); i++) mem[i] = guard_byte(i);
#if defined(__SANITIZE_ADDRESS__)
    __asan_poison_memory_region(mem.data(), off);
    __asan_poison_memory_region(mem.data() + off + n, mem.size() - off - n);
#endif
  }
#if defined(__SANITIZE_ADDRESS__)
  ~Buf() { __asan_unpoison_memory_region(mem.data(), mem.size()); }
  Buf(const Buf &o) : Buf(o.n) { if (n) memcpy(p(), o.mem.data() + o.off, n); orig = o.orig; }
  bool guards() const { return true; }       // writing there is a fault
#endif
#else
  explicit Buf(size_t n_, size_t align = 16) : n(n_) {
    mem.resize(n + 2 * GUARD + 64);
    size_t base = (size_t)mem.data();
    off = ((base + GUARD + 31) & ~(size_t)31) - base;
    if (align_seed) {
      align_seed = align_seed * 1103515245u + 12345u;
      size_t o = (align_seed >> 16) % 16;
      off += o - o % align;      // a multiple of align
    }
    for (size_t i = 0; i < mem.size(); i++) mem[i] = guard_byte(i);
  }
#endif
  Buf(const Bytes &b, size_t align = 16) : Buf(b.size(), align) {
    if (n) memcpy(p(), b.data(), n);
    orig = b;
  }
  uint8_t *p() { return mem.data() + off; }
  Bytes get() { return Bytes(p(), p() + n); }
#if !defined(FOOTPRINT) || !defined(__SANITIZE_ADDRESS__)
  // nothing outside the n bytes was written
  bool guards() const {
    for (size_t i = 0; i < mem.size(); i++)
      if ((i < off || i >= off + n) && mem[i] != guard_byte(i)) return false;
    return true;
  }
#endif
  // input: neither guards nor contents changed
  bool unchanged() const { return guards() && (shared || memcmp(mem.data() + off, orig.data(), n) == 0); }
};

// Where a call puts the result for an input of the same size: memory of its own, or the input's.
template <class B> struct Out {
  std::unique_ptr<B> own;
  B *b;
  template <class... A> explicit Out(B &in, A... a) : b(&in) {
    if (inplace) in.shared = true;
    else own.reset(b = new B(in.n, a...));
  }
  uint8_t *p() { return b->p(); }
  Bytes get() { return b->get(); }
  Bytes sum() { return b->sum(); }
  bool guards() { return b->guards(); }
};

struct Line {
  std::string op;
  std::map<std::string, std::string> kv;
  bool has(const char *k) const { return kv.count(k) != 0; }
  std::string s(const char *k) const { auto i = kv.find(k); return i == kv.end() ? std::string() : i->second; }
  long i(const char *k, long d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : strtol(it->second.c_str(), nullptr, 10); }
  Bytes b(const char *k) const {
    std::string h = s(k);
    Bytes r(h.size() / 2);
    for (size_t j = 0; j < r.size(); j++) r[j] = (uint8_t)strtoul(h.substr(2 * j, 2).c_str(), nullptr, 16);
    return r;
  }
};

// One trace event; written when destroyed.
struct Ev {
  std::string t;
  explicit Ev(const std::string &op) { t = "{\"e\":\"" + op + "\""; }
  Ev &i(const char *k, long v) { t += ",\"" + std::string(k) + "\":" + std::to_string(v); return *this; }
  // a size beyond TLC's integers: <<high part, low 16 bits>>
  Ev &z(const char *k, size_t v) { t += ",\"" + std::string(k) + "\":[" + std::to_string(v >> 16) + "," + std::to_string(v & 65535) + "]"; return *this; }
  Ev &b(const char *k, const Bytes &v) {
    t += ",\"" + std::string(k) + "\":[";
    char tmp[8];
    for (size_t j = 0; j < v.size(); j++) { snprintf(tmp, sizeof tmp, j ? ",%u" : "%u", v[j]); t += tmp; }
    t += "]";
    return *this;
  }
  // words as pairs of 16-bit halves would lose nothing, bytes are simpler: big-endian bytes of each word
  Ev &w(const char *k, const uint32_t *v, size_t n) {
    Bytes r;
    for (size_t j = 0; j < n; j++) for (int s = 24; s >= 0; s -= 8) r.push_back((uint8_t)(v[j] >> s));
    return b(k, r);
  }
  Ev &str(const char *k, const std::string &v) { t += ",\"" + std::string(k) + "\":\"" + v + "\""; return *this; }
  ~Ev() { t += "}\n"; fputs(t.c_str(), trace); fflush(trace); }
};

// State object of a session, in poisoned memory between guards.
template <class T> struct State {
  Buf buf;
#ifdef FOOTPRINT
  State() : buf(sizeof(T), alignof(T)) { memset(buf.p(), (int)poison, sizeof(T)); }
#else
  State() : buf(sizeof(T)) { memset(buf.p(), (int)poison, sizeof(T)); }
#endif
  T *operator()() { return reinterpret_cast<T *>(buf.p()); }
  bool guards() const { return buf.guards(); }
};
template <class T> struct Sessions {
  std::map<long, std::unique_ptr<State<T>>> m;
  State<T> &operator[](long id) {
    auto &p = m[id];
    if (!p) p.reset(new State<T>());
    return *p;
  }
};

// leave recognisable garbage where later stack frames will be
inline void __attribute__((noinline)) dirty_stack() {
  volatile uint8_t a[16384];
  for (size_t i = 0; i < sizeof a; i++) a[i] = (uint8_t)(poison ^ (i * 29));
}

typedef std::map<std::string, std::function<void(const Line &)>> Ops;

// Inner functions are driven where the library offers them with the signature known here; otherwise the calls
// resolve to these and nothing is recorded: such functions are no part of the properties.
struct Absent {};
template <class T> constexpr bool offered() { return !std::is_same<T, Absent>::value; }

// data given literally (in=hex) or as a length and a seed (n=.. seed=..)
inline Bytes data(const Line &l, const char *k = "in") {
  if (l.has(k)) return l.b(k);
  std::string nk = std::string(k) + "n", sk = std::string(k) + "seed";
  size_t n = (size_t)l.i(nk.c_str());
  uint64_t x = (uint64_t)l.i(sk.c_str()) * 6364136223846793005ull + 1442695040888963407ull;
  Bytes r(n);
  for (size_t j = 0; j < n; j++) { x = x * 6364136223846793005ull + 1442695040888963407ull; r[j] = (uint8_t)(x >> 56); }
  return r;
}

// Data too long to be written into a trace: the input is the pattern of Words.tla, outputs are recorded by their
// checksum.  The zones before and after hold guard bytes.
struct Big {
  static const size_t ZONE = 1 << 16;
  uint8_t *m;
  bool shared = false;
  size_t n, off;
  explicit Big(size_t n_) : n(n_) {
    m = (uint8_t *)mmap(nullptr, n + 2 * ZONE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { fprintf(stderr, "no memory for %zu bytes\n", n); _exit(3); }
    off = ZONE - 64 + (align_seed ? 4 * (align_seed % 4) : 0);
    for (size_t i = 0; i < off; i++) m[i] = guard_byte(i);
    for (size_t i = off + n; i < n + 2 * ZONE; i++) m[i] = guard_byte(i);
  }
  Big(size_t n_, uint32_t seed) : Big(n_) {
    uint32_t x = seed;
    uint8_t *q = p();
    for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; q[i] = (uint8_t)(x >> 24); }
  }
  Big(const Big &) = delete;
  ~Big() { munmap(m, n + 2 * ZONE); }
  uint8_t *p() { return m + off; }
  bool guards() const {
    for (size_t i = 0; i < off; i++) if (m[i] != guard_byte(i)) return false;
    for (size_t i = off + n; i < n + 2 * ZONE; i++) if (m[i] != guard_byte(i)) return false;
    return true;
  }
  bool unchanged(uint32_t seed) const {
    if (shared) return guards();
    uint32_t x = seed;
    const uint8_t *q = m + off;
    uint8_t d = 0;
    for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; d |= q[i] ^ (uint8_t)(x >> 24); }
    return !d && guards();
  }
  uint32_t checksum() const {
    uint32_t x = 0x811c9dc5u;
    for (size_t i = 0; i < n; i++) x = (x ^ m[off + i]) * 16777619u;
    return x;
  }
  Bytes sum() const { uint32_t x = checksum(); return {(uint8_t)(x >> 24), (uint8_t)(x >> 16), (uint8_t)(x >> 8), (uint8_t)x}; }
};

inline int run(int argc, char **argv, Ops &ops) {
  if (argc < 3) return 3;
  if (argc > 3) poison = (unsigned)strtoul(argv[3], nullptr, 10);
  if (argc > 4) align_seed = (unsigned)strtoul(argv[4], nullptr, 10);
  footprint_start();
  FILE *f = fopen(argv[1], "r");
  trace = fopen(argv[2], "w");
  if (!f || !trace) return 3;
  process_settings();
#ifdef PROC
  proc_start();
  FILE *proc = trace;
  trace = fopen("/dev/null", "w");
  auto proc_event = [proc](const char *op) {
    std::string t = "{\"e\":\"" + std::string(op) + "\",\"proc\":[";
    for (long v : proc_state()) t += (t.back() == '[' ? "" : ",") + std::to_string(v);
    fprintf(proc, "%s]}\n", t.c_str());
    fflush(proc);
  };
  proc_event("AsStarted");
#endif
#ifdef HEAP
  // the trace tells after each call what is allocated; a line "Lap" begins a repetition
  FILE *heap = trace;
  trace = fopen("/dev/null", "w");
#endif
  char *line = nullptr;
  size_t cap = 0;
  ssize_t len;
  while ((len = getline(&line, &cap, f)) > 0) {
    Line l;
    char *save = nullptr;
    for (char *tok = strtok_r(line, " \n", &save); tok; tok = strtok_r(nullptr, " \n", &save)) {
      char *eq = strchr(tok, '=');
      if (!eq) l.op = tok;
      else l.kv[std::string(tok, eq)] = eq + 1;
    }
    if (l.op.empty()) continue;
#ifdef HEAP
    if (l.op == "Lap") {
      fprintf(heap, "{\"e\":\"Lap\",\"warm\":%ld}\n", l.i("warm"));
      continue;
    }
#endif
    auto it = ops.find(l.op);
    if (it == ops.end()) { fprintf(stderr, "unknown op %s\n", l.op.c_str()); return 3; }
    dirty_stack();
    long at = ftell(trace);
    it->second(l);
#ifdef HEAP
    int fds = 0;
    for (int i = 0; i < 256; i++) fds += fcntl(i, F_GETFD) != -1;
    fprintf(heap, "{\"e\":\"%s\",\"held\":[%ld,%ld,%d]}\n", l.op.c_str(), drv::live_blocks.load(), HEAP > 1 ? drv::live_bytes.load() : 0, fds);
    fflush(heap);
#endif
#ifdef PROC
    proc_event(l.op.c_str());
#endif
    if (getenv("DRV_SKIPPED") && ftell(trace) == at) Ev("Skipped");     // every line of the schedule has its line
  }
  free(line);
#ifdef PROC
  fclose(proc);
#endif
#ifdef HEAP
  fclose(heap);
#endif
  fclose(trace);
  return 0;
}
} // namespace drv

// Each driver's main function executes one schedule.  Given a list of schedules (file names ending in .0, .1, ...
// and their number as the fifth argument) the drivers' main functions run in as many threads.
int drv_main(int argc, char **argv);
int main(int argc, char **argv) {
  int n = argc > 5 ? atoi(argv[5]) : 0;
  if (n < 2) return drv_main(argc, argv);
  std::vector<std::thread> ts;
  std::atomic<int> ready(0), rc(0);
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      std::string in = std::string(argv[1]) + "." + std::to_string(i), out = std::string(argv[2]) + "." + std::to_string(i);
      char *av[] = {argv[0], &in[0], &out[0], argv[3], argv[4], nullptr};
      ready++;
      while (ready < n) {}
      int r = drv_main(5, av);
      if (r) rc = r;
    });
  for (auto &t : ts) t.join();
  return rc;
}
#define main drv_main
