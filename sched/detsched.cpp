#include "detsched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>

#define REAL(name) ((decltype(&name))real(#name))

namespace ds {
namespace {
enum State { kRun, kReady, kSleep, kBlocked, kDone };
const char* kStateName[] = {"running", "ready", "asleep", "blocked", "done"};

struct Th {
  int id = 0;
  State state = kReady;
  uint64_t wake = 0;       // ns; 0: none
  const void* addr = nullptr;
  const char* what = "";
  bool timed_out = false;
  uint64_t order = 0;      // when it became ready
  std::atomic<int> go{0};
  pthread_t handle{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  bool by_first = false;
  double delay = 0;
  bool finished_flag = false;
};

constexpr uint64_t kEpoch = 1000000000ull * 1000000;  // virtual clocks start at one million seconds
volatile bool g_active = false;
Config g_cfg;
std::vector<Th*> g_th;
Th* g_cur = nullptr;
uint64_t g_now = kEpoch;
uint64_t g_order = 0, g_rng = 0, g_steps = 0, g_spin = 0, g_gap = 0, g_sync_gap = 0;
size_t g_next_stall = 0;
int g_spawned = 0;
Report g_rep;
__thread Th* t_self = nullptr;
__thread int t_inside = 0;  // within the scheduler

void* real(const char* n) {
  void* p = dlsym(RTLD_NEXT, n);
  if (!p) { fprintf(stderr, "detsched: no %s\n", n); _exit(99); }
  return p;
}

uint64_t rnd() {
  uint64_t z = (g_rng += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

void futex_wait(std::atomic<int>& w) {
  while (w.load(std::memory_order_acquire) == 0) syscall(SYS_futex, (int*)&w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  w.store(0, std::memory_order_relaxed);
}
void futex_post(std::atomic<int>& w) {
  w.store(1, std::memory_order_release);
  syscall(SYS_futex, (int*)&w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

bool managed() { return g_active && t_self && !t_inside; }
struct Inside { Inside() { ++t_inside; } ~Inside() { --t_inside; } };

std::string dump() {
  std::string s;
  char b[200];
  for (auto* t : g_th) {
    if (t->state == kDone) continue;
    snprintf(b, sizeof b, "thread %d %s%s%s; ", t->id, kStateName[t->state], t->what[0] ? " in " : "", t->what);
    s += b;
  }
  return s;
}
void failure(const char* tag, const std::string& m) {
  g_active = false;
  if (on_failure) on_failure(tag, m);
  _exit(98);
}

void ready(Th* t) { t->state = kReady; t->wake = 0; t->order = ++g_order; }

// Chooses the next thread; advances time when all wait.
Th* pick() {
  for (;;) {
    std::vector<Th*> r;
    for (auto* t : g_th) if (t->state == kReady) r.push_back(t);
    if (!r.empty()) {
      if (g_cfg.seed && r.size() > 1) return r[rnd() % r.size()];
      return *std::min_element(r.begin(), r.end(), [](Th* a, Th* b) { return a->order < b->order; });
    }
    uint64_t w = UINT64_MAX;
    for (auto* t : g_th) if ((t->state == kSleep || t->state == kBlocked) && t->wake) w = std::min(w, t->wake);
    if (w == UINT64_MAX) failure("deadlock", "every thread waits for ever: " + dump());
    if (w > g_now) { g_now = w; g_spin = 0; }
    if (g_now - kEpoch > (uint64_t)(g_cfg.max_time * 1e9)) failure("livelock", "no end after the virtual time limit: " + dump());
    for (auto* t : g_th) if ((t->state == kSleep || t->state == kBlocked) && t->wake && t->wake <= g_now) {
      t->timed_out = t->state == kBlocked;
      ready(t);
    }
  }
}
void step() {
  if (++g_steps > g_cfg.max_steps) failure("livelock", "no end after the step limit: " + dump());
}
// The current thread has set its state to something other than running.
void give_up() {
  Th* me = t_self;
  step();
  Th* n = pick();
  g_cur = n;
  n->state = kRun;
  n->what = n == me ? me->what : n->what;
  if (n == me) return;
  g_rep.switches++;
  futex_post(n->go);
  futex_wait(me->go);
}
void do_sleep(uint64_t ns, const char* what) {
  Th* me = t_self;
  me->state = kSleep;
  me->wake = g_now + ns;
  me->what = what;
  if (!ns) ready(me);
  give_up();
  me->what = "";
}
// Returns false on time-out.
bool block(const void* addr, uint64_t deadline, const char* what) {
  Th* me = t_self;
  me->state = kBlocked;
  me->addr = addr;
  me->wake = deadline;
  me->timed_out = false;
  me->what = what;
  if (deadline && deadline <= g_now) { me->timed_out = true; ready(me); }
  give_up();
  me->addr = nullptr;
  me->what = "";
  return !me->timed_out;
}
void wake(const void* addr, int n) {
  while (n > 0) {
    std::vector<Th*> r;
    for (auto* t : g_th) if (t->state == kBlocked && t->addr == addr) r.push_back(t);
    if (r.empty()) return;
    Th* t = r[g_cfg.seed ? rnd() % r.size() : 0];
    t->addr = nullptr;
    t->timed_out = false;
    ready(t);
    --n;
  }
}
void stall(double s) {
  g_rep.stalls++;
  do_sleep((uint64_t)(s * 1e9), "a stall");
}
void arm() {
  g_gap = g_sync_gap = 0;
  if (g_next_stall >= g_cfg.stalls.size()) return;
  const Stall& s = g_cfg.stalls[g_next_stall];
  if (s.sync) g_sync_gap = s.sync;
  else g_gap = std::max<uint64_t>(1, s.gap);
}
inline void count_point() {
  g_rep.points++;
  if (g_gap && --g_gap == 0) {
    double s = g_cfg.stalls[g_next_stall].seconds;
    ++g_next_stall;
    arm();
    stall(s);
  }
}
void sync_point() {
  g_rep.sync_points++;
  step();
  if (g_sync_gap && --g_sync_gap == 0) g_gap = std::max<uint64_t>(1, g_cfg.stalls[g_next_stall].gap);
  if (g_cfg.p_random > 0 && (rnd() >> 11) * 0x1p-53 < g_cfg.p_random) {
    static const double d[] = {0, 0, 0.0001, 0.001, 0.01, 0.02, 0.1, 0.5};
    stall(d[rnd() % 8]);
  }
  count_point();
}

void* trampoline(void* p) {
  Th* t = (Th*)p;
  t_self = t;
  futex_wait(t->go);
  if (t->delay > 0) { Inside i; do_sleep((uint64_t)(t->delay * 1e9), "its start delay"); }
  void* r = t->fn(t->arg);
  if (g_active) {
    Inside i;
    t->state = kDone;
    wake(t, 1000);
    t_self = nullptr;
    step();
    Th* n = pick();
    n->state = kRun;
    g_cur = n;
    futex_post(n->go);
  }
  return r;
}
uint64_t ts_ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
}  // namespace

void (*on_failure)(const char*, const std::string&) = nullptr;

void start(const Config& c) {
  for (auto* t : g_th) delete t;
  g_th.clear();
  g_cfg = c;
  g_now = kEpoch;
  g_order = g_steps = g_spin = 0;
  g_rng = c.seed;
  g_next_stall = 0;
  g_spawned = 0;
  arm();
  g_rep = Report();
  Th* t = new Th;
  t->state = kRun;
  t->handle = pthread_self();
  g_th.push_back(t);
  g_cur = t;
  t_self = t;
  t_inside = 0;
  g_active = true;
}
int live_threads() {
  int n = 0;
  for (auto* t : g_th) n += t->id != 0 && t->state != kDone;
  return n;
}
bool stop(double max_wait) {
  if (!g_active) return true;
  uint64_t end = g_now + (uint64_t)(max_wait * 1e9);
  {
    Inside i;
    g_gap = g_sync_gap = 0;
    g_cfg.p_random = 0;
    while (live_threads() && g_now < end) do_sleep(10000000, "");
  }
  bool ok = live_threads() == 0;
  if (ok) { g_active = false; t_self = nullptr; }
  return ok;
}
void abandon() { g_active = false; t_self = nullptr; }
bool active() { return g_active; }
double now() { return (g_now - kEpoch) * 1e-9; }
void sleep(double s) { if (managed()) { Inside i; do_sleep((uint64_t)(s * 1e9), "a sleep"); } }
void yield_point() { if (managed()) { Inside i; sync_point(); } }
Report report() { return g_rep; }
}  // namespace ds

using namespace ds;

extern "C" {
int __interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) __attribute__((weak));
int __interceptor_pthread_join(pthread_t, void**) __attribute__((weak));

int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  auto rc = __interceptor_pthread_create ? __interceptor_pthread_create : REAL(pthread_create);
  if (!managed()) return rc(th, at, fn, arg);
  Inside i;
  Th* t = new Th;
  t->id = (int)g_th.size();
  t->fn = fn;
  t->arg = arg;
  t->by_first = t_self->id == 0;
  if (!t->by_first && g_cfg.spawn_delay) t->delay = g_cfg.spawn_delay(g_spawned++);
  int r = rc(th, at, trampoline, t);
  if (r) { delete t; return r; }
  t->handle = *th;
  g_th.push_back(t);
  ready(t);
  sync_point();
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  auto rj = __interceptor_pthread_join ? __interceptor_pthread_join : REAL(pthread_join);
  if (managed()) {
    Inside i;
    sync_point();
    for (auto* t : g_th) if (t->id && pthread_equal(t->handle, th) && !t->finished_flag) {
      while (t->state != kDone) block(t, 0, "a thread join");
      t->finished_flag = true;
      break;
    }
  }
  return rj(th, ret);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto r = REAL(pthread_mutex_trylock);
  if (managed()) { Inside i; sync_point(); }
  return r(m);
}
static int mutex_lock_until(pthread_mutex_t* m, uint64_t deadline, const char* what) {
  static auto tr = REAL(pthread_mutex_trylock);
  for (;;) {
    int e = tr(m);
    if (e != EBUSY) return e;
    if (!block(m, deadline, what)) return ETIMEDOUT;
  }
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto r = REAL(pthread_mutex_lock);
  if (!managed()) return r(m);
  Inside i;
  sync_point();
  return mutex_lock_until(m, 0, "a mutex lock");
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!managed()) return REAL(pthread_mutex_timedlock)(m, ts);
  Inside i;
  sync_point();
  return mutex_lock_until(m, ts_ns(ts), "a timed mutex lock");
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  if (!managed()) return REAL(pthread_mutex_clocklock)(m, c, ts);
  Inside i;
  sync_point();
  return mutex_lock_until(m, ts_ns(ts), "a timed mutex lock");
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto r = REAL(pthread_mutex_unlock);
  int e = r(m);
  if (managed()) { Inside i; wake(m, 1); sync_point(); }
  return e;
}
#define RW(name, tryname)                                          \
  int name(pthread_rwlock_t* l) {                                  \
    static auto r = REAL(name);                                    \
    static auto t = REAL(tryname);                                 \
    if (!managed()) return r(l);                                   \
    Inside i;                                                      \
    sync_point();                                                  \
    for (;;) {                                                     \
      int e = t(l);                                                \
      if (e != EBUSY && e != EAGAIN) return e;                     \
      block(l, 0, "a reader-writer lock");                         \
    }                                                              \
  }
RW(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock)
RW(pthread_rwlock_wrlock, pthread_rwlock_trywrlock)
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  static auto r = REAL(pthread_rwlock_unlock);
  int e = r(l);
  if (managed()) { Inside i; wake(l, 1000); sync_point(); }
  return e;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  static auto ru = REAL(pthread_mutex_unlock);
  Inside i;
  sync_point();
  ru(m);
  wake(m, 1);
  bool ok = block(c, deadline, "a condition wait");
  mutex_lock_until(m, 0, "a mutex lock after a condition wait");
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_cond_wait)(c, m);
  return cond_wait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!managed()) return REAL(pthread_cond_timedwait)(c, m, ts);
  return cond_wait(c, m, std::max<uint64_t>(1, ts_ns(ts)));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!managed()) return REAL(pthread_cond_clockwait)(c, m, k, ts);
  return cond_wait(c, m, std::max<uint64_t>(1, ts_ns(ts)));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (managed()) { Inside i; wake(c, 1); sync_point(); return 0; }
  return REAL(pthread_cond_signal)(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (managed()) { Inside i; wake(c, 1000); sync_point(); return 0; }
  return REAL(pthread_cond_broadcast)(c);
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!managed()) return REAL(pthread_once)(o, fn);
  {
    Inside i;
    sync_point();
    while (*(volatile int*)o != 0 && *(volatile int*)o != 2) block(o, 0, "a once flag");
    if (*(volatile int*)o == 2) return 0;
    *(volatile int*)o = 1;
  }
  try { fn(); } catch (...) { *(volatile int*)o = 0; Inside i; wake(o, 1000); throw; }
  Inside i;
  *(volatile int*)o = 2;
  wake(o, 1000);
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  static auto r = (int (*)(uint64_t*))real("__cxa_guard_acquire");
  if (!managed()) return r(g);
  Inside i;
  char* b = (char*)g;
  while (b[1]) block(g, 0, "a static initialisation");
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  static auto r = (void (*)(uint64_t*))real("__cxa_guard_release");
  char* b = (char*)g;
  if (!managed()) { r(g); return; }
  Inside i;
  b[0] = 1;
  b[1] = 0;
  wake(g, 1000);
}
void __cxa_guard_abort(uint64_t* g) {
  static auto r = (void (*)(uint64_t*))real("__cxa_guard_abort");
  char* b = (char*)g;
  if (!managed()) { r(g); return; }
  Inside i;
  b[1] = 0;
  wake(g, 1000);
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!managed()) { return syscall(SYS_nanosleep, ts, rem) ? -1 : 0; }
  Inside i;
  sync_point();
  do_sleep(ts_ns(ts), "a sleep");
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
  if (!managed()) return syscall(SYS_clock_nanosleep, c, flags, ts, rem) ? errno : 0;
  Inside i;
  sync_point();
  uint64_t t = ts_ns(ts);
  if (flags & TIMER_ABSTIME) do_sleep(t > g_now ? t - g_now : 0, "a sleep");
  else do_sleep(t, "a sleep");
  return 0;
}
int usleep(useconds_t us) {
  struct timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec ts{(time_t)s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}
int sched_yield(void) {
  if (!managed()) return (int)syscall(SYS_sched_yield);
  Inside i;
  sync_point();
  // A yielding loop must let time pass.
  if (++g_spin > 200) do_sleep(1000000, "a yield");
  else do_sleep(0, "a yield");
  return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!managed() || !(c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_COARSE ||
                      c == CLOCK_REALTIME_COARSE))
    return syscall(SYS_clock_gettime, c, ts) ? -1 : 0;
  Inside i;
  sync_point();
  if (++g_spin > 200000) g_now += 1000;  // a loop that waits for the clock without sleeping
  ts->tv_sec = g_now / 1000000000ull;
  ts->tv_nsec = g_now % 1000000000ull;
  return 0;
}

// Instrumented code (-fsanitize-coverage): every edge and memory access is a point.
static volatile uint32_t g_guard;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (uint32_t* p = a; p < b; ++p) *p = 1; }
#define POINT do { if (g_active && t_self && !t_inside) { Inside i; count_point(); } } while (0)
void __sanitizer_cov_trace_pc_guard(uint32_t*) { POINT; }
void __sanitizer_cov_load1(uint8_t*) { POINT; }
void __sanitizer_cov_load2(uint16_t*) { POINT; }
void __sanitizer_cov_load4(uint32_t*) { POINT; }
void __sanitizer_cov_load8(uint64_t*) { POINT; }
void __sanitizer_cov_load16(__uint128_t*) { POINT; }
void __sanitizer_cov_store1(uint8_t*) { POINT; }
void __sanitizer_cov_store2(uint16_t*) { POINT; }
void __sanitizer_cov_store4(uint32_t*) { POINT; }
void __sanitizer_cov_store8(uint64_t*) { POINT; }
void __sanitizer_cov_store16(__uint128_t*) { POINT; }
}  // extern "C"

// Waiting for a future's state (libstdc++'s atomic futex).
namespace std {
struct __atomic_futex_unsigned_base {
  bool _M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns);
  bool _M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns);
  static void _M_futex_notify_all(unsigned* addr);
};
static bool futex_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) {
  if (!managed()) {
    if (!has_timeout) { syscall(SYS_futex, addr, FUTEX_WAIT, val, nullptr, nullptr, 0); return true; }
    timespec ts{0, 1000000};
    syscall(SYS_futex, addr, FUTEX_WAIT, val, &ts, nullptr, 0);
    return true;  // spurious wake-ups are allowed
  }
  Inside i;
  sync_point();
  if (*(volatile unsigned*)addr != val) return true;
  uint64_t d = has_timeout ? std::max<uint64_t>(1, (uint64_t)s.count() * 1000000000ull + ns.count()) : 0;
  return block(addr, d, "a future");
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool h, chrono::seconds s, chrono::nanoseconds n) { return futex_until(a, v, h, s, n); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool h, chrono::seconds s, chrono::nanoseconds n) { return futex_until(a, v, h, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
  if (managed()) { Inside i; wake(addr, 1000); sync_point(); return; }
  syscall(SYS_futex, addr, FUTEX_WAKE, 0x7fffffff, nullptr, nullptr, 0);
}
}  // namespace std
