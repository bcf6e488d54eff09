// Controlled scheduler and happens-before monitor.
//
// The code under test is compiled with -fsanitize=thread, but linked with this
// runtime, preloaded, instead of the one of the compiler.  While an execution
// is explored (between vk_begin and vk_end), the threads that the code creates
// run one at a time: at every creation, start, join, end, lock and wait, the
// next one is chosen by the script given to vk_begin.  Every memory access of
// the instrumented code is checked against the vector clocks of the accesses
// made before by the other threads.
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define TLS static thread_local __attribute__((tls_model("initial-exec")))

namespace {

constexpr int MAXT = 128;
constexpr int MAXSTEP = 1 << 16;
constexpr int MAXMOD = 8;

struct Clock {
  uint32_t c[MAXT];
};

enum State { kFree, kReady, kJoin, kLock, kCond, kDone };

struct Thread {
  State state;
  uint64_t waits;  // address of the mutex, of the condition, id of the thread
  pthread_t handle;
  sem_t sem;
  Clock vc;
  void *(*fn)(void *);
  void *arg;
};

struct Mutex {
  uint64_t key;
  int owner;
  Clock vc;
};

struct Access {
  uint64_t pc;
  uint32_t clk;
  uint8_t tid;
  uint8_t mask;
  uint8_t write;
  uint8_t used;
};

constexpr int NREC = 80;
struct Cell {
  uint64_t key;
  uint32_t epoch;
  uint32_t n;
  Access rec[NREC];
};
constexpr uint64_t NCELL = 1 << 17;

Thread threads[MAXT];
int nthreads = 0;
volatile bool active = false;
volatile bool freerun = false;
TLS int self = -1;
TLS int inside = 0;

int script[MAXSTEP];
int nscript = 0;
// trace: for each choice, the enabled set, the running thread, the chosen one
struct Choice {
  uint64_t lo, hi;
  int current, chosen;
};
Choice trace[MAXSTEP];
int ntrace = 0;

struct Race {
  uint64_t addr, pc1, pc2;
  int t1, t2, w1, w2;
};
Race races[64];
int nraces = 0;
int overflow = 0;
uint64_t naccess = 0;
uint64_t nsync = 0;
int deadlock = 0;

uint32_t epoch = 0;
Cell *cells = nullptr;

Mutex mutexes[4096];
int nmutex = 0;

uintptr_t lo[MAXMOD], hi[MAXMOD];
int nmod = 0;

int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *),
                   void *);
int (*real_join)(pthread_t, void **);
int (*real_lock)(pthread_mutex_t *);
int (*real_trylock)(pthread_mutex_t *);
int (*real_unlock)(pthread_mutex_t *);
int (*real_wait)(pthread_cond_t *, pthread_mutex_t *);
int (*real_signal)(pthread_cond_t *);
int (*real_broadcast)(pthread_cond_t *);

template <typename T>
void sym(T &f, const char *n) {
  f = reinterpret_cast<T>(dlsym(RTLD_NEXT, n));
}

void resolve() {
  static bool done = false;
  if (done) return;
  sym(real_create, "pthread_create");
  sym(real_join, "pthread_join");
  sym(real_lock, "pthread_mutex_lock");
  sym(real_trylock, "pthread_mutex_trylock");
  sym(real_unlock, "pthread_mutex_unlock");
  sym(real_wait, "pthread_cond_wait");
  sym(real_signal, "pthread_cond_signal");
  sym(real_broadcast, "pthread_cond_broadcast");
  done = true;
}

__attribute__((constructor)) void init() { resolve(); }

bool ours(void *ra) {
  auto a = reinterpret_cast<uintptr_t>(ra);
  for (int i = 0; i < nmod; ++i)
    if (a >= lo[i] && a < hi[i]) return true;
  return false;
}

inline bool managed() { return active && !freerun && self >= 0 && !inside; }

struct Guard {
  Guard() { ++inside; }
  ~Guard() { --inside; }
};

void join_clock(Clock &a, const Clock &b) {
  for (int i = 0; i < nthreads; ++i)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

// -- shadow memory ----------------------------------------------------------
Cell *cell(uint64_t key, bool create) {
  uint64_t h = (key * 0x9E3779B97F4A7C15ull) >> 40;
  for (uint64_t i = 0; i < NCELL; ++i) {
    Cell &c = cells[(h + i) & (NCELL - 1)];
    if (c.epoch != epoch) {
      if (!create) return nullptr;
      c.epoch = epoch;
      c.key = key;
      c.n = 0;
      return &c;
    }
    if (c.key == key) return &c;
  }
  overflow = 1;
  return nullptr;
}

void report(uint64_t addr, const Access &r, int tid, bool write, uint64_t pc) {
  for (int i = 0; i < nraces; ++i)
    if (races[i].pc1 == r.pc && races[i].pc2 == pc) return;
  if (nraces < 64)
    races[nraces++] = {addr, r.pc, pc, r.tid, tid, r.write, write};
}

void access_cell(uint64_t key, uint8_t mask, bool write, uint64_t pc) {
  Cell *c = cell(key, true);
  if (!c) return;
  const auto &vc = threads[self].vc;
  uint32_t out = 0;
  bool merged = false;
  for (uint32_t i = 0; i < c->n; ++i) {
    Access r = c->rec[i];
    if (r.tid != self && (r.mask & mask) && (r.write || write) &&
        r.clk > vc.c[r.tid])
      report(key << 3, r, self, write, pc);
    if (r.tid == self) {
      if (r.clk == vc.c[self] && r.write == write) {
        r.mask |= mask;
        merged = true;
      } else if (write || !r.write) {
        // superseded by this access
        r.mask &= ~mask;
      }
    } else if (write && r.clk <= vc.c[r.tid]) {
      // ordered before this write: what races with it races with this one
      r.mask &= ~mask;
    }
    if (r.mask) c->rec[out++] = r;
  }
  c->n = out;
  if (!merged) {
    if (c->n == NREC) {
      overflow = 1;
      memmove(c->rec, c->rec + 1, sizeof(Access) * (NREC - 1));
      --c->n;
    }
    c->rec[c->n++] = {pc, vc.c[self], static_cast<uint8_t>(self), mask,
                      static_cast<uint8_t>(write), 1};
  }
}

void access_range(uint64_t addr, uint64_t size, bool write, uint64_t pc) {
  naccess++;
  uint64_t end = addr + size;
  while (addr < end) {
    uint64_t key = addr >> 3;
    uint64_t stop = (key + 1) << 3;
    if (stop > end) stop = end;
    uint8_t mask = 0;
    for (uint64_t a = addr; a < stop; ++a) mask |= 1u << (a & 7);
    access_cell(key, mask, write, pc);
    addr = stop;
  }
}

void forget(uint64_t addr, uint64_t size) {
  for (uint64_t key = addr >> 3; key <= (addr + size - 1) >> 3; ++key) {
    Cell *c = cell(key, false);
    if (c) c->n = 0;
  }
}

Mutex *object(uint64_t key) {
  for (int i = 0; i < nmutex; ++i)
    if (mutexes[i].key == key) return &mutexes[i];
  if (nmutex == 4096) {
    overflow = 1;
    return &mutexes[0];
  }
  Mutex &m = mutexes[nmutex++];
  memset(&m, 0, sizeof m);
  m.key = key;
  m.owner = -1;
  return &m;
}

// -- scheduler ----------------------------------------------------------------
bool enabled(int t) {
  Thread &th = threads[t];
  switch (th.state) {
    case kReady:
      return true;
    case kJoin:
      return threads[th.waits].state == kDone;
    case kLock:
      return object(th.waits)->owner == -1;
    default:
      return false;
  }
}

void release_all() {
  freerun = true;
  for (int i = 0; i < nthreads; ++i)
    if (i != self) sem_post(&threads[i].sem);
}

// Choose who runs next; returns when the calling thread may go on.
void yield_to(bool leaving) {
  if (freerun) return;
  uint64_t m[2] = {0, 0};
  int first = -1, count = 0;
  for (int t = 0; t < nthreads; ++t)
    if (enabled(t)) {
      m[t >> 6] |= 1ull << (t & 63);
      if (first < 0) first = t;
      ++count;
    }
  if (count == 0) {
    deadlock = 1;
    release_all();
    return;
  }
  int next = enabled(self) && !leaving ? self : first;
  if (ntrace < MAXSTEP) {
    if (ntrace < nscript) {
      int w = script[ntrace];
      if (w >= 0 && w < nthreads && enabled(w)) next = w;
    }
    trace[ntrace++] = {m[0], m[1], leaving ? -1 : self, next};
  }
  if (next == self) return;
  int me = self;
  sem_post(&threads[next].sem);
  if (!leaving)
    while (sem_wait(&threads[me].sem) && errno == EINTR) {
    }
}

void point() {
  nsync++;
  threads[self].state = kReady;
  yield_to(false);
}

void block(State s, uint64_t what) {
  nsync++;
  threads[self].state = s;
  threads[self].waits = what;
  yield_to(false);
  threads[self].state = kReady;
}

void *trampoline(void *p) {
  auto t = static_cast<int>(reinterpret_cast<intptr_t>(p));
  while (sem_wait(&threads[t].sem) && errno == EINTR) {
  }
  self = t;
  void *r = threads[t].fn(threads[t].arg);
  if (active && !freerun) {
    Guard g;
    threads[t].state = kDone;
    threads[t].vc.c[t]++;
    int next = t;
    self = t;
    (void)next;
    yield_to(true);
  }
  threads[t].state = kDone;
  self = -1;
  return r;
}

pthread_t dog;
sem_t dog_sem;
volatile bool dog_stop;
int limit_ms;

void *watchdog(void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  ts.tv_sec += limit_ms / 1000;
  int r;
  while ((r = sem_timedwait(&dog_sem, &ts)) && errno == EINTR) {
  }
  if (r && !dog_stop) {
    // a thread waits by means that are not modelled: let everyone run
    self = -1;
    release_all();
  }
  return nullptr;
}

int find_module(struct dl_phdr_info *info, size_t, void *name) {
  if (!info->dlpi_name || !strstr(info->dlpi_name, static_cast<char *>(name)))
    return 0;
  uintptr_t a = ~0ull, b = 0;
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    if (info->dlpi_phdr[i].p_type != PT_LOAD) continue;
    uintptr_t s = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
    if (s < a) a = s;
    if (s + info->dlpi_phdr[i].p_memsz > b) b = s + info->dlpi_phdr[i].p_memsz;
  }
  if (nmod < MAXMOD) {
    lo[nmod] = a;
    hi[nmod++] = b;
  }
  return 0;
}

}  // namespace

EXPORT void vk_begin(const char *module, const int *s, int n, int ms) {
  resolve();
  if (!cells)
    cells = static_cast<Cell *>(mmap(nullptr, NCELL * sizeof(Cell),
                                     PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (!nmod) dl_iterate_phdr(find_module, const_cast<char *>(module));
  ++epoch;
  nscript = n < MAXSTEP ? n : MAXSTEP;
  memcpy(script, s, sizeof(int) * nscript);
  ntrace = nraces = nmutex = 0;
  overflow = deadlock = 0;
  naccess = nsync = 0;
  memset(threads, 0, sizeof threads);
  nthreads = 1;
  threads[0].state = kReady;
  threads[0].vc.c[0] = 1;
  sem_init(&threads[0].sem, 0, 0);
  self = 0;
  freerun = false;
  dog_stop = false;
  sem_init(&dog_sem, 0, 0);
  limit_ms = ms;
  real_create(&dog, nullptr, watchdog, nullptr);
  active = true;
}

struct Result {
  int ntrace, nraces, nthreads, freerun, deadlock, overflow;
  uint64_t naccess, nsync;
  const Choice *trace;
  const Race *races;
  uint64_t base;
};

EXPORT void vk_end(Result *r) {
  active = false;
  self = -1;
  dog_stop = true;
  sem_post(&dog_sem);
  real_join(dog, nullptr);
  *r = {ntrace,  nraces, nthreads, freerun, deadlock, overflow,
        naccess, nsync,  trace,    races,   nmod ? lo[0] : 0};
}

// -- interposed functions -------------------------------------------------------
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a,
                          void *(*fn)(void *), void *arg) {
  resolve();
  if (!managed() || nthreads == MAXT) return real_create(t, a, fn, arg);
  Guard g;
  int id = nthreads++;
  Thread &th = threads[id];
  th.fn = fn;
  th.arg = arg;
  th.vc = threads[self].vc;
  th.vc.c[id] = 1;
  threads[self].vc.c[self]++;
  sem_init(&th.sem, 0, 0);
  int r = real_create(t, a, trampoline, reinterpret_cast<void *>(
                                            static_cast<intptr_t>(id)));
  if (r) {
    nthreads--;
    return r;
  }
  th.handle = *t;
  th.state = kReady;
  point();
  return 0;
}

EXPORT int pthread_join(pthread_t t, void **ret) {
  resolve();
  if (managed()) {
    Guard g;
    for (int i = 1; i < nthreads; ++i)
      if (threads[i].state != kFree && pthread_equal(threads[i].handle, t) &&
          threads[i].fn) {
        block(kJoin, i);
        if (!freerun) {
          join_clock(threads[self].vc, threads[i].vc);
          threads[i].fn = nullptr;  // the handle may be used again
        }
        break;
      }
  }
  return real_join(t, ret);
}

static int lock_managed(pthread_mutex_t *m) {
  Guard g;
  auto key = reinterpret_cast<uint64_t>(m);
  object(key);
  point();
  while (!freerun && object(key)->owner != -1) block(kLock, key);
  if (!freerun) {
    auto *o = object(key);
    o->owner = self;
    join_clock(threads[self].vc, o->vc);
  }
  return real_lock(m);
}

EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  resolve();
  if (!managed() || !ours(__builtin_return_address(0))) return real_lock(m);
  return lock_managed(m);
}

EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
  resolve();
  if (!managed() || !ours(__builtin_return_address(0))) return real_trylock(m);
  Guard g;
  point();
  auto key = reinterpret_cast<uint64_t>(m);
  if (object(key)->owner != -1) return EBUSY;
  object(key)->owner = self;
  join_clock(threads[self].vc, object(key)->vc);
  return real_trylock(m);
}

static int unlock_managed(pthread_mutex_t *m) {
  Guard g;
  auto *o = object(reinterpret_cast<uint64_t>(m));
  if (!freerun) {
    o->owner = -1;
    join_clock(o->vc, threads[self].vc);
    threads[self].vc.c[self]++;
  }
  return real_unlock(m);
}

EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  resolve();
  if (!managed() || !ours(__builtin_return_address(0))) return real_unlock(m);
  return unlock_managed(m);
}

EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  resolve();
  auto key = reinterpret_cast<uint64_t>(m);
  bool known = false;
  if (managed())
    for (int i = 0; i < nmutex; ++i)
      known = known || (mutexes[i].key == key && mutexes[i].owner == self);
  if (!known) return real_wait(c, m);
  Guard g;
  unlock_managed(m);
  block(kCond, reinterpret_cast<uint64_t>(c));
  return lock_managed(m);
}

static void wake(pthread_cond_t *c, bool all) {
  for (int i = 0; i < nthreads; ++i)
    if (threads[i].state == kCond &&
        threads[i].waits == reinterpret_cast<uint64_t>(c)) {
      threads[i].state = kReady;
      if (!all) return;
    }
}

EXPORT int pthread_cond_signal(pthread_cond_t *c) {
  resolve();
  if (managed()) wake(c, false);
  return real_signal(c);
}

EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
  resolve();
  if (managed()) wake(c, true);
  return real_broadcast(c);
}

extern "C" void __libc_free(void *);
extern "C" void *__libc_realloc(void *, size_t);

EXPORT void free(void *p) {
  if (p && active && self >= 0 && managed()) {
    Guard g;
    auto n = malloc_usable_size(p);
    auto a = reinterpret_cast<uint64_t>(p);
    auto pc = reinterpret_cast<uint64_t>(__builtin_return_address(0));
    // releasing memory conflicts with every access to it that is not ordered
    for (uint64_t key = a >> 3; key <= (a + n - 1) >> 3; ++key) {
      Cell *c = cell(key, false);
      if (!c || !c->n) continue;
      for (uint32_t i = 0; i < c->n; ++i)
        if (c->rec[i].tid != self &&
            c->rec[i].clk > threads[self].vc.c[c->rec[i].tid])
          report(key << 3, c->rec[i], self, true, pc);
      c->n = 0;
    }
  }
  __libc_free(p);
}

EXPORT void *realloc(void *p, size_t n) {
  if (p && active && self >= 0 && managed()) {
    Guard g;
    forget(reinterpret_cast<uint64_t>(p), malloc_usable_size(p));
  }
  return __libc_realloc(p, n);
}

static void copied(void *d, const void *s, size_t n, void *ra) {
  if (n && active && self >= 0 && managed() && ours(ra)) {
    Guard g;
    auto pc = reinterpret_cast<uint64_t>(ra);
    if (s) access_range(reinterpret_cast<uint64_t>(s), n, false, pc);
    if (d) access_range(reinterpret_cast<uint64_t>(d), n, true, pc);
  }
}

// The three functions below must not be compiled into calls to themselves.
#define NOLOOP __attribute__((optimize("no-tree-loop-distribute-patterns")))
EXPORT NOLOOP void *memcpy(void *d, const void *s, size_t n) {
  copied(d, s, n, __builtin_return_address(0));
  void *r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}

EXPORT NOLOOP void *memmove(void *d, const void *s, size_t n) {
  copied(d, s, n, __builtin_return_address(0));
  void *r = d;
  if (d <= s || static_cast<const char *>(s) + n <= d) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    auto *a = static_cast<char *>(d) + n;
    auto *b = static_cast<const char *>(s) + n;
    while (n--) *--a = *--b;
  }
  return r;
}

EXPORT NOLOOP void *memset(void *d, int v, size_t n) {
  copied(d, nullptr, n, __builtin_return_address(0));
  void *r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}

// Initialisation of the static variables of the functions.
EXPORT int __cxa_guard_acquire(uint64_t *g) {
  static int (*real)(uint64_t *) = nullptr;
  if (!real) sym(real, "__cxa_guard_acquire");
  int r = real(g);
  if (!r && managed()) {
    Guard k;
    join_clock(threads[self].vc, object(reinterpret_cast<uint64_t>(g))->vc);
  }
  return r;
}

EXPORT void __cxa_guard_release(uint64_t *g) {
  static void (*real)(uint64_t *) = nullptr;
  if (!real) sym(real, "__cxa_guard_release");
  if (managed()) {
    Guard k;
    auto *o = object(reinterpret_cast<uint64_t>(g));
    join_clock(o->vc, threads[self].vc);
    threads[self].vc.c[self]++;
  }
  real(g);
}

// -- instrumentation ------------------------------------------------------------
static inline void touch(void *p, uint64_t n, bool w, void *ra) {
  if (!active || self < 0 || !managed()) return;
  Guard g;
  access_range(reinterpret_cast<uint64_t>(p), n, w,
               reinterpret_cast<uint64_t>(ra));
}

EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
#define RW(n)                                                              \
  EXPORT void __tsan_read##n(void *p) {                                    \
    touch(p, n, false, __builtin_return_address(0));                       \
  }                                                                        \
  EXPORT void __tsan_write##n(void *p) {                                   \
    touch(p, n, true, __builtin_return_address(0));                        \
  }                                                                        \
  EXPORT void __tsan_unaligned_read##n(void *p) {                          \
    touch(p, n, false, __builtin_return_address(0));                       \
  }                                                                        \
  EXPORT void __tsan_unaligned_write##n(void *p) {                         \
    touch(p, n, true, __builtin_return_address(0));                        \
  }                                                                        \
  EXPORT void __tsan_volatile_read##n(void *p) {                           \
    touch(p, n, false, __builtin_return_address(0));                       \
  }                                                                        \
  EXPORT void __tsan_volatile_write##n(void *p) {                          \
    touch(p, n, true, __builtin_return_address(0));                        \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, uint64_t n) {
  touch(p, n, false, __builtin_return_address(0));
}
EXPORT void __tsan_write_range(void *p, uint64_t n) {
  touch(p, n, true, __builtin_return_address(0));
}
EXPORT void __tsan_vptr_read(void *p) {
  touch(p, 8, false, __builtin_return_address(0));
}
EXPORT void __tsan_vptr_update(void **p, void *v) {
  if (*p != v) touch(p, 8, true, __builtin_return_address(0));
}

// Atomic operations order what precedes a release with what follows an acquire.
static void sync(const volatile void *p, int mo) {
  if (!active || self < 0 || !managed()) return;
  Guard g;
  if (mo == __ATOMIC_RELAXED) return;
  auto *o = object(reinterpret_cast<uint64_t>(p));
  if (mo != __ATOMIC_RELEASE) join_clock(threads[self].vc, o->vc);
  if (mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) {
    join_clock(o->vc, threads[self].vc);
    threads[self].vc.c[self]++;
  }
}

#define SEQ __ATOMIC_SEQ_CST
#define ATOMIC(b, T)                                                        \
  EXPORT T __tsan_atomic##b##_load(const volatile T *p, int mo) {           \
    sync(p, mo);                                                            \
    return __atomic_load_n(p, SEQ);                                         \
  }                                                                         \
  EXPORT void __tsan_atomic##b##_store(volatile T *p, T v, int mo) {        \
    sync(p, mo);                                                            \
    __atomic_store_n(p, v, SEQ);                                            \
  }                                                                         \
  EXPORT T __tsan_atomic##b##_exchange(volatile T *p, T v, int mo) {        \
    sync(p, mo);                                                            \
    return __atomic_exchange_n(p, v, SEQ);                                  \
  }                                                                         \
  EXPORT T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int mo) {       \
    sync(p, mo);                                                            \
    return __atomic_fetch_add(p, v, SEQ);                                   \
  }                                                                         \
  EXPORT T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int mo) {       \
    sync(p, mo);                                                            \
    return __atomic_fetch_sub(p, v, SEQ);                                   \
  }                                                                         \
  EXPORT T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int mo) {       \
    sync(p, mo);                                                            \
    return __atomic_fetch_and(p, v, SEQ);                                   \
  }                                                                         \
  EXPORT T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int mo) {        \
    sync(p, mo);                                                            \
    return __atomic_fetch_or(p, v, SEQ);                                    \
  }                                                                         \
  EXPORT T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int mo) {       \
    sync(p, mo);                                                            \
    return __atomic_fetch_xor(p, v, SEQ);                                   \
  }                                                                         \
  EXPORT T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int mo) {      \
    sync(p, mo);                                                            \
    return __atomic_fetch_nand(p, v, SEQ);                                  \
  }                                                                         \
  EXPORT int __tsan_atomic##b##_compare_exchange_strong(                    \
      volatile T *p, T *e, T v, int mo, int) {                              \
    sync(p, mo);                                                            \
    return __atomic_compare_exchange_n(p, e, v, false, SEQ, SEQ);           \
  }                                                                         \
  EXPORT int __tsan_atomic##b##_compare_exchange_weak(                      \
      volatile T *p, T *e, T v, int mo, int) {                              \
    sync(p, mo);                                                            \
    return __atomic_compare_exchange_n(p, e, v, true, SEQ, SEQ);            \
  }                                                                         \
  EXPORT T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, \
                                                   int mo, int) {           \
    sync(p, mo);                                                            \
    __atomic_compare_exchange_n(p, &e, v, false, SEQ, SEQ);                 \
    return e;                                                               \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) {
  __atomic_thread_fence(SEQ);
}
EXPORT void __tsan_atomic_signal_fence(int) {}
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) {
  return memcpy(d, s, n);
}
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) {
  return memmove(d, s, n);
}
EXPORT void *__tsan_memset(void *d, int v, size_t n) { return memset(d, v, n); }
