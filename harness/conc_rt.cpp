#include "conc_rt.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <new>
#include <unordered_map>

namespace
{
constexpr int N = 4;
typedef uint32_t Clk;
struct VC
{
  Clk c[N] = {0, 0, 0, 0};
  void join(const VC & o) {for (int i = 0; i < N; ++i) {if (o.c[i] > c[i]) {c[i] = o.c[i];}}}
};
enum State {IDLE, READY, WANT, WANT_R, WAIT_COND, WAIT_GUARD, DONE};
struct Thread
{
  pthread_t p;
  sem_t go;
  State st = IDLE;
  void * obj = nullptr;
  VC vc;
  const std::function<void()> * body = nullptr;
};
struct Lock {int owner = -1; int depth = 0; int readers = 0; VC vc;};

// Plain memory for the bookkeeping, so that it never comes back into the hooks.
thread_local int t_self = -1;
thread_local int t_quiet = 0;

Thread th[N];
bool pool_up = false;
int nthreads = 0;
int cur = -1;
sem_t main_sem;
bool active = false;
rt::Plan * plan;
rt::Outcome out;
const std::function<void(const rt::Outcome &)> * fatal_fn;
size_t depth;
int preempts;
long since_switch;
size_t change_at;
int low_prio;
std::unordered_map<void *, Lock> * locks;

// ---- shadow memory
struct Cell
{
  uintptr_t key; uint32_t gen;
  int wt; Clk wc; uint8_t wm;
  Clk rc[N]; uint8_t rm[N];
};
constexpr size_t CELLS = 1 << 17;
Cell * cells;
uint32_t gen = 0;
std::map<uintptr_t, std::pair<uintptr_t, void *>> * released;

struct HQ {HQ() {++t_quiet;} ~HQ() {--t_quiet;}};

bool controlled() {return t_self >= 0 && active && t_quiet == 0;}

void trouble(const char * what)
{
  if (out.trouble.empty()) {out.trouble = what;}
}

Cell * cell(uintptr_t k)
{
  size_t h = (k * 0x9E3779B97F4A7C15ull) >> 47;
  for (int i = 0; i < 64; ++i) {
    Cell * c = &cells[(h + i) & (CELLS - 1)];
    if (c->gen != gen) {
      memset(c, 0, sizeof *c);
      c->key = k; c->gen = gen; c->wt = -1;
      return c;
    }
    if (c->key == k) {return c;}
  }
  return nullptr;
}

void check(uintptr_t a, size_t n, bool w)
{
  if (!released->empty()) {
    auto it = released->upper_bound(a + n - 1);
    if (it != released->begin()) {
      --it;
      if (a < it->second.first && it->first < a + n) {trouble("released");}
    }
  }
  Thread & me = th[t_self];
  while (n) {
    uintptr_t k = a >> 2;
    unsigned off = a & 3;
    unsigned len = std::min<size_t>(4 - off, n);
    uint8_t m = static_cast<uint8_t>(((1u << len) - 1) << off);
    Cell * c = cell(k);
    if (c) {
      if (c->wt >= 0 && c->wt != t_self && (c->wm & m) && c->wc > me.vc.c[c->wt]) {trouble("race");}
      if (w) {
        for (int i = 0; i < N; ++i) {
          if (i != t_self && (c->rm[i] & m) && c->rc[i] > me.vc.c[i]) {trouble("race");}
        }
        if (c->wt != t_self || c->wc != me.vc.c[t_self]) {c->wm = 0;}
        c->wt = t_self; c->wc = me.vc.c[t_self]; c->wm |= m;
      } else {
        if (c->rc[t_self] != me.vc.c[t_self]) {c->rm[t_self] = 0;}
        c->rc[t_self] = me.vc.c[t_self]; c->rm[t_self] |= m;
      }
    }
    a += len; n -= len;
  }
}

// ---- scheduling
Lock & lk(void * m) {return (*locks)[m];}
bool enabled(int i)
{
  Thread & t = th[i];
  switch (t.st) {
    case READY: return true;
    case WANT: {Lock & l = lk(t.obj); return l.owner < 0 && l.readers == 0;}
    case WANT_R: return lk(t.obj).owner < 0;
    default: return false;
  }
}

void hand(int to)
{
  // caller is `cur`
  int from = cur;
  if (to == from) {return;}
  since_switch = 0;
  bool done = th[from].st == DONE;   // once `to` runs, this run may end and the next begin
  cur = to;
  sem_post(&th[to].go);
  if (!done) {
    while (sem_wait(&th[from].go) != 0) {}
  }
}

void cannot_go_on(bool dead)
{
  out.deadlock = dead;
  out.stuck = !dead;
  (*fatal_fn)(out);
  _exit(9);
}

// chooses who continues; `rotate`: the current thread asks others to go first
void decide(bool rotate = false)
{
  ++out.points;
  int en[N], n = 0;
  for (int i = 0; i < nthreads; ++i) {if (enabled(i)) {en[n++] = i;}}
  if (n == 0) {
    bool all = true;
    for (int i = 0; i < nthreads; ++i) {all = all && th[i].st == DONE;}
    if (all) {cur = -1; sem_post(&main_sem); return;}
    cannot_go_on(true);
  }
  bool cur_en = enabled(cur);
  int pick;
  if (plan->fine) {
    if (rotate && cur_en) {plan->prio[cur] = low_prio--;}
    pick = en[0];
    for (int i = 1; i < n; ++i) {if (plan->prio[en[i]] > plan->prio[pick]) {pick = en[i];}}
  } else if (rotate) {
    pick = cur;
    for (int i = 1; i <= nthreads; ++i) {
      int c = (cur + i) % nthreads;
      if (enabled(c)) {pick = c; break;}
    }
  } else {
    int alts[N], k = 0;
    if (cur_en) {alts[k++] = cur;}
    if (!cur_en || preempts < plan->bound) {
      for (int i = 0; i < n; ++i) {if (en[i] != cur) {alts[k++] = en[i];}}
    }
    if (k == 1) {
      pick = alts[0];
    } else {
      HQ q;
      if (depth >= plan->stack.size()) {
        plan->stack.push_back({std::vector<int>(alts, alts + k), 0});
      }
      auto & ch = plan->stack[depth];
      pick = ch.alts[ch.idx < ch.alts.size() ? ch.idx : 0];
      if (!enabled(pick)) {pick = alts[0];}
      ++depth;
    }
    if (cur_en && pick != cur) {++preempts;}
  }
  hand(pick);
}

void step(bool access)
{
  ++out.steps;
  ++since_switch;
  if (out.steps > 400000) {cannot_go_on(false);}
  if (plan->fine && change_at < plan->change.size() && out.steps >= plan->change[change_at]) {
    ++change_at;
    plan->prio[cur] = low_prio--;
    if (access) {decide();}
  } else if (since_switch > 20000) {
    since_switch = 0;
    decide(true);
  }
  if (!access) {decide();}
}

void access(const void * p, size_t n, bool w)
{
  if (!controlled()) {return;}
  HQ q;
  step(true);
  check(reinterpret_cast<uintptr_t>(p), n, w);
}

void acquire(Lock & l) {th[t_self].vc.join(l.vc);}
void release(Lock & l)
{
  l.vc.join(th[t_self].vc);
  ++th[t_self].vc.c[t_self];
}

void take(void * m, bool recursive)
{
  Thread & t = th[t_self];
  {
    Lock & l = lk(m);
    if (recursive && l.owner == t_self) {++l.depth; return;}
  }
  t.st = WANT; t.obj = m;
  step(false);
  t.st = READY;
  Lock & l = lk(m);
  l.owner = t_self; l.depth = 1;
  acquire(l);
}
void drop(void * m)
{
  Lock & l = lk(m);
  if (l.owner == t_self && --l.depth > 0) {return;}
  release(l);
  if (l.owner == t_self) {l.owner = -1;} else if (l.readers > 0) {--l.readers;} else {
    trouble("unlock of a lock not held");
  }
  step(false);
}

void atomic(const void * p)
{
  if (!controlled()) {return;}
  HQ q;
  step(false);
  Lock & l = lk(const_cast<void *>(p));
  acquire(l);
  release(l);
}

void * thread_main(void * a)
{
  int i = static_cast<int>(reinterpret_cast<intptr_t>(a));
  t_self = i;
  for (;;) {
    ++t_quiet;
    while (sem_wait(&th[i].go) != 0) {}
    --t_quiet;
    (*th[i].body)();
    ++t_quiet;
    th[i].st = DONE;
    decide();
    --t_quiet;
  }
  return nullptr;
}
}  // namespace

namespace rt
{
Quiet::Quiet() {++t_quiet;}
Quiet::~Quiet() {--t_quiet;}
int self() {return t_self;}
void point() {if (controlled()) {HQ q; step(false);}}

bool Plan::next()
{
  while (!stack.empty()) {
    if (++stack.back().idx < stack.back().alts.size()) {return true;}
    stack.pop_back();
  }
  return false;
}

Outcome run(
  const std::vector<std::function<void()>> & bodies, Plan & p,
  const std::function<void(const Outcome &)> & fatal)
{
  if (!pool_up) {
    sem_init(&main_sem, 0, 0);
    locks = new std::unordered_map<void *, Lock>;
    released = new std::map<uintptr_t, std::pair<uintptr_t, void *>>;
    cells = static_cast<Cell *>(calloc(CELLS, sizeof(Cell)));
    for (int i = 0; i < N; ++i) {
      sem_init(&th[i].go, 0, 0);
      pthread_create(&th[i].p, nullptr, thread_main, reinterpret_cast<void *>(intptr_t(i)));
    }
    pool_up = true;
  }
  out = Outcome();
  plan = &p;
  fatal_fn = &fatal;
  nthreads = static_cast<int>(bodies.size());
  depth = 0; preempts = 0; since_switch = 0; change_at = 0; low_prio = -1;
  locks->clear();
  ++gen;
  for (int i = 0; i < nthreads; ++i) {
    th[i].st = READY;
    th[i].obj = nullptr;
    th[i].vc = VC();
    th[i].vc.c[i] = 1;
    th[i].body = &bodies[i];
  }
  active = true;
  // the first choice: pretend the last thread just finished
  cur = 0;
  {
    int first = 0;
    if (p.fine) {
      for (int i = 1; i < nthreads; ++i) {if (p.prio[i] > p.prio[first]) {first = i;}}
    } else if (nthreads > 1) {
      if (p.stack.empty()) {
        std::vector<int> alts;
        for (int i = 0; i < nthreads; ++i) {alts.push_back(i);}
        p.stack.push_back({alts, 0});
      }
      first = p.stack[0].alts[p.stack[0].idx];
      depth = 1;
    }
    cur = first;
    sem_post(&th[first].go);
  }
  while (sem_wait(&main_sem) != 0) {}
  active = false;
  for (auto & r : *released) {free(r.second.second);}
  released->clear();
  return out;
}
}  // namespace rt

// ------------------------------------------------ memory released by the code under test
void * operator new(size_t n)
{
  void * p = malloc(n ? n : 1);
  if (!p) {throw std::bad_alloc();}
  return p;
}
void * operator new[](size_t n) {return operator new(n);}
static void give_back(void * p, size_t n)
{
  if (p && n && t_self >= 0 && active && t_quiet == 0) {
    HQ q;
    memset(p, 0xDD, n);
    (*released)[reinterpret_cast<uintptr_t>(p)] = {reinterpret_cast<uintptr_t>(p) + n, p};
    return;
  }
  free(p);
}
#include <malloc.h>
void operator delete(void * p) noexcept {give_back(p, p ? malloc_usable_size(p) : 0);}
void operator delete[](void * p) noexcept {operator delete(p);}
void operator delete(void * p, size_t) noexcept {operator delete(p);}
void operator delete[](void * p, size_t) noexcept {operator delete(p);}

// ------------------------------------------------------------- synchronisation interposed
#define REAL(name) \
  static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
extern "C" {
static bool rec(pthread_mutex_t * m) {return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;}
int pthread_mutex_lock(pthread_mutex_t * m)
{
  REAL(pthread_mutex_lock);
  if (!controlled()) {return real(m);}
  HQ q;
  take(m, rec(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m)
{
  REAL(pthread_mutex_trylock);
  if (!controlled()) {return real(m);}
  HQ q;
  step(false);
  Lock & l = lk(m);
  if (l.owner == t_self && rec(m)) {++l.depth; return 0;}
  if (l.owner >= 0) {return EBUSY;}
  l.owner = t_self; l.depth = 1;
  acquire(l);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec *)
{
  return pthread_mutex_trylock(m) ? ETIMEDOUT : 0;
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t, const struct timespec *)
{
  return pthread_mutex_trylock(m) ? ETIMEDOUT : 0;
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  REAL(pthread_mutex_unlock);
  if (!controlled()) {return real(m);}
  HQ q;
  drop(m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t * m)
{
  REAL(pthread_rwlock_wrlock);
  if (!controlled()) {return real(m);}
  HQ q;
  take(m, false);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t * m)
{
  REAL(pthread_rwlock_rdlock);
  if (!controlled()) {return real(m);}
  HQ q;
  Thread & t = th[t_self];
  t.st = WANT_R; t.obj = m;
  step(false);
  t.st = READY;
  Lock & l = lk(m);
  ++l.readers;
  acquire(l);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t * m)
{
  REAL(pthread_rwlock_trywrlock);
  if (!controlled()) {return real(m);}
  HQ q;
  step(false);
  Lock & l = lk(m);
  if (l.owner >= 0 || l.readers) {return EBUSY;}
  l.owner = t_self; l.depth = 1;
  acquire(l);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m)
{
  REAL(pthread_rwlock_tryrdlock);
  if (!controlled()) {return real(m);}
  HQ q;
  step(false);
  Lock & l = lk(m);
  if (l.owner >= 0) {return EBUSY;}
  ++l.readers;
  acquire(l);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t * m)
{
  REAL(pthread_rwlock_unlock);
  if (!controlled()) {return real(m);}
  HQ q;
  drop(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  REAL(pthread_cond_wait);
  if (!controlled()) {return real(c, m);}
  HQ q;
  Lock & l = lk(m);
  release(l);
  l.owner = -1; l.depth = 0;
  Thread & t = th[t_self];
  t.st = WAIT_COND; t.obj = c;
  step(false);
  // woken: queue for the mutex again
  t.st = WANT; t.obj = m;
  step(false);
  t.st = READY;
  Lock & l2 = lk(m);
  l2.owner = t_self; l2.depth = 1;
  acquire(l2);
  return 0;
}
static void wake(pthread_cond_t * c, bool all)
{
  for (int i = 0; i < nthreads; ++i) {
    if (th[i].st == WAIT_COND && th[i].obj == c) {
      th[i].st = READY;
      if (!all) {break;}
    }
  }
}
int pthread_cond_signal(pthread_cond_t * c)
{
  REAL(pthread_cond_signal);
  if (!controlled()) {return real(c);}
  HQ q;
  wake(c, false);
  step(false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c)
{
  REAL(pthread_cond_broadcast);
  if (!controlled()) {return real(c);}
  HQ q;
  wake(c, true);
  step(false);
  return 0;
}
int sched_yield(void)
{
  if (controlled()) {HQ q; ++out.steps; decide(true);}
  return 0;
}
int nanosleep(const struct timespec * a, struct timespec * b)
{
  REAL(nanosleep);
  if (!controlled()) {return real(a, b);}
  HQ q;
  ++out.steps;
  decide(true);
  return 0;
}
int clock_nanosleep(clockid_t k, int f, const struct timespec * a, struct timespec * b)
{
  REAL(clock_nanosleep);
  if (!controlled()) {return real(k, f, a, b);}
  HQ q;
  ++out.steps;
  decide(true);
  return 0;
}
// initialisation of function-local statics
int __cxa_guard_acquire(long long * g)
{
  char * b = reinterpret_cast<char *>(g);
  if (!controlled()) {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) {return 0;}
    b[1] = 1;
    return 1;
  }
  HQ q;
  for (;;) {
    if (b[0]) {acquire(lk(g)); return 0;}
    if (!b[1]) {b[1] = 1; return 1;}
    ++out.steps;
    decide(true);
  }
}
void __cxa_guard_release(long long * g)
{
  char * b = reinterpret_cast<char *>(g);
  b[1] = 0;
  __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  if (controlled()) {HQ q; release(lk(g));}
}
void __cxa_guard_abort(long long * g) {reinterpret_cast<char *>(g)[1] = 0;}

// ---------------------------------------------------------- hooks of the instrumented code
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define ACC(n) \
  void __tsan_read ## n(void * p) {access(p, n, false);} \
  void __tsan_write ## n(void * p) {access(p, n, true);} \
  void __tsan_read_write ## n(void * p) {access(p, n, false); access(p, n, true);} \
  void __tsan_unaligned_read ## n(void * p) {access(p, n, false);} \
  void __tsan_unaligned_write ## n(void * p) {access(p, n, true);} \
  void __tsan_volatile_read ## n(void * p) {access(p, n, false);} \
  void __tsan_volatile_write ## n(void * p) {access(p, n, true);}
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void * p, size_t n) {access(p, n, false);}
void __tsan_write_range(void * p, size_t n) {access(p, n, true);}
void __tsan_vptr_read(void * p) {access(p, 8, false);}
void __tsan_vptr_update(void * p, void *) {access(p, 8, true);}
void * __tsan_memcpy(void * d, const void * s, size_t n)
{
  if (n) {access(s, n, false); access(d, n, true);}
  return memcpy(d, s, n);
}
void * __tsan_memmove(void * d, const void * s, size_t n)
{
  if (n) {access(s, n, false); access(d, n, true);}
  return memmove(d, s, n);
}
void * __tsan_memset(void * d, int c, size_t n)
{
  if (n) {access(d, n, true);}
  return memset(d, c, n);
}

// ------------------------------------- library functions called by the instrumented code
static void rd(const void * p, size_t n) {if (n) {access(p, n, false);}}
static void wr(const void * p, size_t n) {if (n) {access(p, n, true);}}
void * vf_memcpy(void * d, const void * s, size_t n) {rd(s, n); wr(d, n); return memcpy(d, s, n);}
void * vf_memmove(void * d, const void * s, size_t n) {rd(s, n); wr(d, n); return memmove(d, s, n);}
void * vf_memset(void * d, int c, size_t n) {wr(d, n); return memset(d, c, n);}
int vf_memcmp(const void * a, const void * b, size_t n) {rd(a, n); rd(b, n); return memcmp(a, b, n);}
void * vf_memchr(const void * a, int c, size_t n)
{
  const void * r = memchr(a, c, n);
  rd(a, r ? static_cast<size_t>(static_cast<const char *>(r) - static_cast<const char *>(a)) + 1 : n);
  return const_cast<void *>(r);
}
size_t vf_strlen(const char * s) {rd(s, strlen(s) + 1); return strlen(s);}
size_t vf_strnlen(const char * s, size_t n)
{
  size_t k = strnlen(s, n);
  rd(s, k < n ? k + 1 : k);
  return strnlen(s, n);
}
int vf_strcmp(const char * a, const char * b) {rd(a, strlen(a) + 1); rd(b, strlen(b) + 1); return strcmp(a, b);}
int vf_strncmp(const char * a, const char * b, size_t n) {rd(a, strnlen(a, n)); rd(b, strnlen(b, n)); return strncmp(a, b, n);}
char * vf_strcpy(char * d, const char * s) {size_t n = strlen(s) + 1; rd(s, n); wr(d, n); return strcpy(d, s);}
char * vf_strncpy(char * d, const char * s, size_t n) {rd(s, strnlen(s, n)); wr(d, n); return strncpy(d, s, n);}
char * vf_strcat(char * d, const char * s)
{
  size_t n = strlen(s) + 1, k = strlen(d);
  rd(s, n); rd(d, k + 1); wr(d + k, n);
  return strcat(d, s);
}
char * vf_strncat(char * d, const char * s, size_t m)
{
  size_t n = strnlen(s, m), k = strlen(d);
  rd(s, n); rd(d, k + 1); wr(d + k, n + 1);
  return strncat(d, s, m);
}
const char * vf_strchr(const char * s, int c) {rd(s, strlen(s) + 1); return strchr(s, c);}
const char * vf_strstr(const char * s, const char * t) {rd(s, strlen(s) + 1); rd(t, strlen(t) + 1); return strstr(s, t);}
int vf_vsnprintf(char * d, size_t n, const char * f, va_list a)
{
  int r = vsnprintf(d, n, f, a);
  if (r >= 0 && n) {
    char keep[4096];
    size_t k = std::min(n, std::min(static_cast<size_t>(r) + 1, sizeof keep));
    memcpy(keep, d, k);
    wr(d, k);
    memcpy(d, keep, k);   // others may have run in between
  }
  return r;
}
int vf_snprintf(char * d, size_t n, const char * f, ...)
{
  va_list a; va_start(a, f);
  int r = vf_vsnprintf(d, n, f, a);
  va_end(a);
  return r;
}
int vf_rcutils_vsnprintf(char * d, size_t n, const char * f, va_list a)
{
  if (!d && !n) {return vsnprintf(nullptr, 0, f, a);}
  if (!d || !f || !n) {return -1;}
  return vf_vsnprintf(d, n, f, a);
}
int vf_rcutils_snprintf(char * d, size_t n, const char * f, ...)
{
  va_list a; va_start(a, f);
  int r = vf_rcutils_vsnprintf(d, n, f, a);
  va_end(a);
  return r;
}
#define AT(bits, T) \
  T __tsan_atomic ## bits ## _load(const volatile T * a, int) \
  {atomic(const_cast<const T *>(a)); return __atomic_load_n(a, __ATOMIC_SEQ_CST);} \
  void __tsan_atomic ## bits ## _store(volatile T * a, T v, int) \
  {atomic(const_cast<const T *>(a)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _exchange(volatile T * a, T v, int) \
  {atomic(const_cast<const T *>(a)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _fetch_add(volatile T * a, T v, int) \
  {atomic(const_cast<const T *>(a)); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _fetch_sub(volatile T * a, T v, int) \
  {atomic(const_cast<const T *>(a)); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _fetch_and(volatile T * a, T v, int) \
  {atomic(const_cast<const T *>(a)); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _fetch_or(volatile T * a, T v, int) \
  {atomic(const_cast<const T *>(a)); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _fetch_xor(volatile T * a, T v, int) \
  {atomic(const_cast<const T *>(a)); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);} \
  int __tsan_atomic ## bits ## _compare_exchange_strong(volatile T * a, T * e, T v, int, int) \
  {atomic(const_cast<const T *>(a)); \
    return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);} \
  int __tsan_atomic ## bits ## _compare_exchange_weak(volatile T * a, T * e, T v, int, int) \
  {atomic(const_cast<const T *>(a)); \
    return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _compare_exchange_val(volatile T * a, T e, T v, int, int) \
  {atomic(const_cast<const T *>(a)); \
    __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e;}
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {if (controlled()) {HQ q; step(false);}}
void __tsan_atomic_signal_fence(int) {}
}
