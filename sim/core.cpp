// Scheduler, threads, synchronisation, time, process life cycle.
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <unistd.h>
#include <getopt.h>
#include <linux/futex.h>
#include <openssl/crypto.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {
State *S = nullptr;
__thread Thread *cur = nullptr;
std::function<void()> on_finish;
std::function<void(const std::string &)> on_crash;

static std::multimap<Time, std::function<void()>> evq;
static int64_t budget = 0;
static uint64_t last_bbs = 0;
static Thread *last_run = nullptr;
static int same_run = 0;
static int in_event = 0;
extern unsigned char *covmap;
extern size_t covsize;

static long sys_futex(int *a, int op, int v) {
  return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0);
}
static void park(Thread *t) {
  while (!__atomic_load_n(&t->futex, __ATOMIC_ACQUIRE))
    sys_futex(&t->futex, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->futex, 0, __ATOMIC_RELEASE);
}
static void unpark(Thread *t) {
  __atomic_store_n(&t->futex, 1, __ATOMIC_RELEASE);
  sys_futex(&t->futex, FUTEX_WAKE_PRIVATE, 1);
}
static void park_forever() {
  static int never = 0;
  for (;;) sys_futex(&never, FUTEX_WAIT_PRIVATE, 0);
}

void mix(uint64_t v) { S->hash = (S->hash ^ v) * 1099511628211ull; S->hash ^= S->hash >> 29; }
void mixs(const char *s) { uint64_t h = 7; while (*s) h = h * 131 + (unsigned char)*s++; mix(h); }
void tr(const char *fmt, ...) {
  if (!S->tracing) return;
  char b[512];
  int n = snprintf(b, sizeof b, "%12.6f T%d(%s) ", S->now / 1e9, cur ? cur->id : -1,
                   cur && cur->proc ? cur->proc->role.c_str() : "-");
  va_list ap; va_start(ap, fmt);
  vsnprintf(b + n, sizeof b - n, fmt, ap);
  va_end(ap);
  S->trace.push_back(b);
}
void fired(const std::string &kind) { S->counts[kind]++; }

void init_state() { S = new State(); }

static void new_budget() {
  if (S->k.budget <= 0) { budget = LLONG_MAX; return; }
  budget = 1 + (int64_t)S->rs.below((uint64_t)S->k.budget * 2);
}

void at(Time t, std::function<void()> f) { evq.emplace(t < S->now ? S->now : t, std::move(f)); }

static bool eligible(Thread *t) {
  return t->st == Thread::Runnable && !t->proc->dead && t->proc->paused_until <= S->now;
}

static void charge() {
  uint64_t d = S->bbs - last_bbs;
  last_bbs = S->bbs;
  S->now += (Time)(d * 5 + 1000);
}

// Give up the processor. self's state is already set.
static void schedule(Thread *self) {
  self->insim++;
  charge();
  std::vector<Thread *> c;
  for (;;) {
    while (!evq.empty() && evq.begin()->first <= S->now) {
      auto f = std::move(evq.begin()->second);
      evq.erase(evq.begin());
      S->events++;
      in_event++;
      f();
      in_event--;
    }
    c.clear();
    Time next = evq.empty() ? LLONG_MAX : evq.begin()->first;
    for (Thread *t : S->threads) {
      if (t->proc->dead) continue;
      if (t->st == Thread::Blocked && t->deadline >= 0) {
        if (t->deadline <= S->now) { t->st = Thread::Runnable; t->timedout = true; }
        else if (t->deadline < next) next = t->deadline;
      }
      if (eligible(t)) c.push_back(t);
      else if (t->st == Thread::Runnable && t->proc->paused_until > S->now && t->proc->paused_until < next)
        next = t->proc->paused_until;
    }
    if (!c.empty()) break;
    if (next == LLONG_MAX) { // nothing can ever happen again
      S->stopping = true;
      if (on_finish) on_finish();
      finish_run();
    }
    S->now = next;
  }
  Thread *n = nullptr;
  if (S->k.policy == 1) {
    for (Thread *t : c) if (!n || t->prio > n->prio) n = t;
    if (n == last_run && ++same_run > 300 && c.size() > 1) { n->prio = (int)S->rs.below(1000) - 2000; same_run = 0;
      n = c[S->rs.below(c.size())]; }
  } else if (S->k.policy == 2 && eligible(self) && !S->rs.chance(0.1)) {
    n = self;
  } else {
    n = c[S->rs.below(c.size())];
  }
  if (n != last_run) { same_run = 0; S->switches++; }
  last_run = n;
  mix((uint64_t)n->id * 1000003u + (uint64_t)S->now);
  S->schedhash = (S->schedhash ^ (uint64_t)n->id) * 1099511628211ull;
  new_budget();
  self->insim--;
  if (n == self) return;
  unpark(n);
  if (self->proc->dead || (self->st == Thread::Finished && self->id != 0)) {
    park_forever();
  }
  park(self);
}

bool block(const void *const *keys, int n, Time deadline) {
  Thread *t = cur;
  if (n > 72) n = 72;
  for (int i = 0; i < n; i++) t->keys[i] = keys[i];
  t->nkeys = n;
  t->deadline = deadline;
  t->timedout = false;
  t->st = Thread::Blocked;
  schedule(t);
  t->nkeys = 0;
  t->deadline = -1;
  return t->timedout;
}
bool block1(const void *key, Time deadline) { return block(&key, 1, deadline); }

void wake(const void *key) {
  for (Thread *t : S->threads)
    if (t->st == Thread::Blocked)
      for (int i = 0; i < t->nkeys; i++)
        if (t->keys[i] == key) { t->st = Thread::Runnable; break; }
}
void wake_one(const void *key) {
  std::vector<Thread *> c;
  for (Thread *t : S->threads)
    if (t->st == Thread::Blocked && !t->proc->dead)
      for (int i = 0; i < t->nkeys; i++)
        if (t->keys[i] == key) { c.push_back(t); break; }
  if (!c.empty()) c[S->rs.below(c.size())]->st = Thread::Runnable;
}

void yield(bool forced) {
  Thread *t = cur;
  if (!t || t->nopreempt || t->insim || t->locks > 0) return;
  if (!forced && !S->rs.chance(S->k.yieldpm / 1000.0)) { return; }
  schedule(t);
}
void opcost() {
  if (!cur || cur->nopreempt || cur->insim) return;
  S->now += 2000 + S->rs.below(8000);
  if (cur->locks > 0) return;
  if (!evq.empty() && evq.begin()->first <= S->now) { schedule(cur); return; }
  yield(false);
}
void sleep_until(Time t) {
  if (t <= S->now) { yield(true); return; }
  static int dummy;
  (void)dummy;
  block(nullptr, 0, t);
}
bool wait_for(std::function<bool()> pred, Time timeout, Time poll) {
  Time end = S->now + timeout;
  while (!pred()) {
    if (S->now >= end) return false;
    sleep_until(std::min(end, S->now + poll));
  }
  return true;
}

Host *add_host(const std::string &name, const std::string &ip) {
  Host *h = new Host();
  h->name = name; h->ip = ip;
  S->hosts[name] = h;
  set_name(name, ip);
  return h;
}
Host *host(const std::string &name) {
  auto i = S->hosts.find(name);
  return i == S->hosts.end() ? nullptr : i->second;
}
Time hosttime(Host *h) { return S->epoch + S->now + (h ? h->clock_off : 0); }

Proc *new_proc(Host *h, const std::string &role) {
  Proc *p = new Proc();
  p->id = (int)S->procs.size();
  p->host = h; p->role = role;
  p->t_start = S->now;
  p->crand.seed(1);
  p->rrand.seed(S->k.seed * 7919 + p->id * 104729 + 17);
  S->procs.push_back(p);
  return p;
}

static void thread_done(Thread *t) {
  InSim g;
  t->st = Thread::Finished;
  t->proc->live_threads--;
  wake(t);
}
static void *trampoline(void *a) {
  Thread *t = (Thread *)a;
  park(t);
  cur = t;
  if (t->fn) t->ret = t->fn(t->arg);
  else t->body();
  OPENSSL_thread_stop();
  thread_done(t);
  schedule(t);
  return nullptr;
}
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static pc_t real_pthread_create() {
  static pc_t f = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
  return f;
}
static Thread *mk_thread(Proc *p, const std::string &name) {
  Thread *t = new Thread();
  t->id = (int)S->threads.size();
  t->proc = p; t->name = name;
  t->prio = (int)S->rs.below(1000000);
  S->threads.push_back(t);
  p->live_threads++;
  if (!p->main) p->main = t;
  return t;
}
static bool start_real(Thread *t) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 8 << 20);
  int r = real_pthread_create()(&t->real, &a, trampoline, t);
  pthread_attr_destroy(&a);
  return r == 0;
}
Thread *spawn_thread(Proc *p, const std::string &name, std::function<void()> body) {
  InSim g;
  Thread *t = mk_thread(p, name);
  t->body = std::move(body);
  start_real(t);
  return t;
}

static void do_kill(Proc *p, int code) {
  if (p->dead) return;
  p->dead = true; p->exited = true; p->exitcode = code; p->t_end = S->now;
  close_all_fds(p, true);
  mix(0x4b1 + code + p->id * 31);
  tr("process %s(%d) ends code %d", p->role.c_str(), p->id, code);
  wake(p);
}
static bool holds(Proc *p) {
  for (Thread *t : S->threads)
    if (t->proc == p && t->st != Thread::Finished && t->locks > 0) return true;
  return false;
}
void kill_proc(Proc *p, int code) {
  InSim g;
  if (p->dead) return;
  if (!p->killpending) { p->killpending = true; p->pending_code = code; }
  if (holds(p)) return;
  do_kill(p, p->pending_code);
  if (cur && cur->proc == p && !in_event) { cur->st = Thread::Finished; schedule(cur); }
}
static void check_kill() {
  Proc *p = cur->proc;
  if (p->killpending && !p->dead && !holds(p)) {
    do_kill(p, p->pending_code);
    cur->st = Thread::Finished;
    schedule(cur);
  }
}
void proc_exit(int code, bool flush) {
  Proc *p = cur->proc;
  {
    InSim g; NoPreempt np;
    if (flush) { auto v = p->files; for (FILE *f : v) fflush(f); }
  }
  kill_proc(p, code);
  // other threads still hold library locks: wait for the deferred kill
  for (;;) { block(nullptr, 0, S->now + SEC); }
}

void rawcopy(char *d, const char *s, size_t n);
Proc *spawn_node(Host *h, const std::string &role, const std::vector<std::string> &args,
                 const std::string &in, std::function<int()> entry) {
  InSim g;
  Instance *inst = nullptr;
  for (Instance *i : S->insts) if (!i->used) { inst = i; break; }
  if (!inst) { // reuse a finished process's copy, restored to its pristine state
    for (Proc *q : S->procs)
      if (q->node && q->dead && q->inst) {
        inst = q->inst; q->inst = nullptr;
        for (auto &s : inst->snap) rawcopy(s.first, s.second.data(), s.second.size());
        break;
      }
  }
  if (!inst) { fprintf(stderr, "out of program instances\n"); abort(); }
  inst->used = true;
  Proc *p = new_proc(h, role);
  p->node = true;
  p->inst = inst;
  p->in = in;
  p->args = args;
  p->entry = entry;
  p->args.insert(p->args.begin(), "brski");
  for (int i = 0; i < 3; i++) { Fd f; f.std = i; p->fds[i] = f; }
  std::string all;
  for (auto &a : p->args) all += a + " ";
  tr("spawn %s(%d): %s", role.c_str(), p->id, all.c_str());
  spawn_thread(p, role, [p]() {
    Thread *t = cur;
    t->nopreempt++; // until the options are parsed (released at the first fopen)
    std::vector<char *> av;
    for (auto &s : p->args) av.push_back(strdup(s.c_str()));
    av.push_back(nullptr);
    extern int reset_getopt();
    reset_getopt();
    clearerr(stdin);
    if (p->entry) { t->nopreempt--; int rc = p->entry(); proc_exit(rc & 0xff, true); }
    int rc = p->inst->main((int)av.size() - 1, av.data());
    proc_exit(rc & 0xff, true);
  });
  return p;
}
int reset_getopt() { ::optind = 0; return 0; }

bool node_pc(uintptr_t pc) {
  for (Instance *i : S->insts) if (pc >= i->base && pc < i->end) return true;
  return false;
}

void run_controller(std::function<void()> f) {
  Proc *p = new_proc(nullptr, "ctl");
  Thread *t = mk_thread(p, "ctl");
  cur = t;
  new_budget();
  f();
  cur->insim++;
  if (on_finish) on_finish();
  finish_run();
}

void fatal_violation(const std::string &what) {
  if (cur) cur->insim++;
  if (on_crash) on_crash(what);
  finish_run();
}

unsigned char *covmap = nullptr;
void (*bbkill_cb)(Proc *) = nullptr;
size_t covsize = 0;
static void die_here() { cur->st = Thread::Finished; schedule(cur); }
void soon() { budget = 1; }
static void slow_bb(Thread *t) {
  if (t->nopreempt || t->insim || t->locks > 0) { budget = 1; return; }
  if (S->bb_limit && S->bbs > S->bb_limit) fatal_violation("LIVELOCK: basic-block limit exceeded");
  S->preempts++;
  schedule(t);
}
} // namespace sim

using namespace sim;

extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc() {
  Thread *t = cur;
  if (!t) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  Instance *i = t->proc->inst;
  if (i) {
    uintptr_t o = pc - i->base;
    if (o < covsize) covmap[o] = 1;
  }
  S->bbs++;
  t->steps++;
  if (__builtin_expect(t->proc->kill_bb >= 0, 0) && !t->insim && t->proc->kill_bb-- == 0 && bbkill_cb) { t->insim++; bbkill_cb(t->proc); t->insim--; if (t->proc->dead) die_here(); }
  if (__builtin_expect(--budget <= 0, 0)) slow_bb(t);
}

#define REAL(name) \
  static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
#define SIMULATED (cur && !cur->insim)
#define EXPORT extern "C" __attribute__((visibility("default")))

// ---------------------------------------------------------------- locks
static inline bool from_node(void *ra) { Instance *i = cur->proc->inst; return i && (uintptr_t)ra >= i->base && (uintptr_t)ra < i->end; }

// libraries take locks very often and their own locking is not under test: rarely yield there
static void lock_yield(bool lib) {
  if (!lib) { yield(false); return; }
  // no thread is ever suspended inside a library's critical section: the harness itself uses the same
  // library outside the simulation and would wait for such a thread for ever
  if (cur->locks > 0) return;
  static unsigned n;
  if (++n % 64 == 0) yield(false);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  REAL(pthread_mutex_lock);
  if (!SIMULATED) return real(m);
  static auto tryl = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  bool lib = !from_node(__builtin_return_address(0));
  lock_yield(lib);
  int r;
  while ((r = tryl(m)) == EBUSY) block1(m, -1);
  if (lib) cur->locks++;
  return r;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
  REAL(pthread_mutex_trylock);
  if (!SIMULATED) return real(m);
  bool lib = !from_node(__builtin_return_address(0));
  lock_yield(lib);
  int r = real(m);
  if (r == 0 && lib) cur->locks++;
  return r;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  REAL(pthread_mutex_unlock);
  if (!SIMULATED) return real(m);
  int r = real(m);
  { InSim g; wake(m); }
  bool lib = !from_node(__builtin_return_address(0));
  if (lib) { if (--cur->locks == 0) check_kill(); }
  lock_yield(lib);
  return r;
}
template <class F> static int rwl(F tryf, pthread_rwlock_t *l, bool lib) {
  lock_yield(lib);
  int r;
  while ((r = tryf(l)) == EBUSY) block1(l, -1);
  if (lib) cur->locks++;
  return r;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  REAL(pthread_rwlock_rdlock);
  if (!SIMULATED) return real(l);
  static auto t = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock");
  return rwl(t, l, !from_node(__builtin_return_address(0)));
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  REAL(pthread_rwlock_wrlock);
  if (!SIMULATED) return real(l);
  static auto t = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock");
  return rwl(t, l, !from_node(__builtin_return_address(0)));
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  REAL(pthread_rwlock_unlock);
  if (!SIMULATED) return real(l);
  int r = real(l);
  { InSim g; wake(l); }
  if (!from_node(__builtin_return_address(0))) { if (--cur->locks == 0) check_kill(); }
  return r;
}

// ---------------------------------------------------------------- condition variables
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, Time deadline) {
  static auto unl = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  static auto tryl = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  unl(m);
  { InSim g; wake(m); }
  bool to = false;
  if (S->k.spurious && S->rs.chance(S->k.spurious / 1000.0)) { fired("spurious_wakeup"); yield(true); }
  else to = block1(c, deadline);
  while (tryl(m) == EBUSY) block1(m, -1);
  return to ? ETIMEDOUT : 0;
}
static Time abs_rt(const struct timespec *ts) {
  return (Time)ts->tv_sec * SEC + ts->tv_nsec - hosttime(cproc()->host) + S->now;
}
static const Time MONO = 1000 * SEC;
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  REAL(pthread_cond_wait);
  if (!SIMULATED) return real(c, m);
  return cwait(c, m, -1);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  REAL(pthread_cond_timedwait);
  if (!SIMULATED) return real(c, m, ts);
  return cwait(c, m, std::max<Time>(S->now, abs_rt(ts)));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts) {
  REAL(pthread_cond_clockwait);
  if (!SIMULATED) return real(c, m, id, ts);
  Time d = id == CLOCK_REALTIME ? abs_rt(ts) : (Time)ts->tv_sec * SEC + ts->tv_nsec - MONO;
  return cwait(c, m, std::max<Time>(S->now, d));
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
  REAL(pthread_cond_signal);
  if (!SIMULATED) return real(c);
  { InSim g; wake_one(c); }
  yield(false);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
  REAL(pthread_cond_broadcast);
  if (!SIMULATED) return real(c);
  { InSim g; wake(c); }
  yield(false);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t *c) {
  REAL(pthread_cond_destroy);
  if (!SIMULATED) return real(c);
  return 0; // waiters live in the simulator
}

// ---------------------------------------------------------------- one-time initialisation
static Thread *once_owner = nullptr;
static int once_depth = 0;
static int once_key;
static void once_lock() {
  while (once_owner && once_owner != cur) block1(&once_key, -1);
  once_owner = cur;
  once_depth++;
  cur->locks++;
}
static void once_unlock() {
  if (--once_depth == 0) { once_owner = nullptr; InSim g; wake(&once_key); }
  if (--cur->locks == 0) check_kill();
}
EXPORT int pthread_once(pthread_once_t *o, void (*f)(void)) {
  REAL(pthread_once);
  if (!SIMULATED || *(volatile int *)o == 2) return real(o, f);
  once_lock();
  int r = real(o, f);
  once_unlock();
  return r;
}
EXPORT int __cxa_guard_acquire(long long *g) {
  char *b = (char *)g;
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
  if (!SIMULATED) return 1;
  once_lock();
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { once_unlock(); return 0; }
  return 1;
}
EXPORT void __cxa_guard_release(long long *g) {
  __atomic_store_n((char *)g, 1, __ATOMIC_RELEASE);
  if (SIMULATED && once_owner == cur) once_unlock();
}
EXPORT void __cxa_guard_abort(long long *g) {
  if (SIMULATED && once_owner == cur) once_unlock();
}

// ---------------------------------------------------------------- threads
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!SIMULATED) return real_pthread_create()(out, attr, fn, arg);
  Proc *p = cur->proc;
  if (p->thread_fail >= 0 && p->thread_fail-- == 0) { fired("thread_create_fail"); return EAGAIN; }
  {
    InSim g;
    Thread *t = mk_thread(p, p->role + ".t");
    t->fn = fn; t->arg = arg;
    if (!start_real(t)) { fprintf(stderr, "sim: pthread_create failed\n"); _exit(70); }
    *out = t->real;
    mix(0x7c + t->id);
  }
  opcost();
  return 0;
}
static Thread *find_thread(pthread_t t) {
  for (Thread *x : S->threads) if (x->real == t && x->real) return x;
  return nullptr;
}
EXPORT int pthread_join(pthread_t t, void **ret) {
  REAL(pthread_join);
  if (!SIMULATED) return real(t, ret);
  Thread *x = find_thread(t);
  if (!x) return ESRCH;
  while (x->st != Thread::Finished) block1(x, -1);
  if (ret) *ret = x->ret;
  return 0;
}
EXPORT int pthread_detach(pthread_t t) {
  REAL(pthread_detach);
  if (!SIMULATED) return real(t);
  return 0;
}
EXPORT int sched_yield() {
  REAL(sched_yield);
  if (!SIMULATED) return real();
  yield(true);
  return 0;
}
EXPORT int get_nprocs() {
  if (!SIMULATED) return 8;
  return cur->proc->ncpu;
}
EXPORT long sysconf(int n) {
  REAL(sysconf);
  if (SIMULATED && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return cur->proc->ncpu;
  return real(n);
}

// ---------------------------------------------------------------- time
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  REAL(clock_gettime);
  if (!cur) return real(id, ts);
  Time t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? hosttime(cur->proc->host) : S->now + MONO;
  ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC;
  return 0;
}
EXPORT time_t time(time_t *out) {
  REAL(time);
  if (!cur) return real(out);
  time_t t = hosttime(cur->proc->host) / SEC;
  if (out) *out = t;
  return t;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  static auto real = (int (*)(struct timeval *, void *))dlsym(RTLD_NEXT, "gettimeofday");
  if (!cur) return real(tv, tz);
  Time t = hosttime(cur->proc->host);
  if (tv) { tv->tv_sec = t / SEC; tv->tv_usec = t % SEC / 1000; }
  return 0;
}
static struct tm *lt(const time_t *t, struct tm *out) {
  int off = cproc()->host ? cproc()->host->tz_off : 0;
  time_t x = *t + off;
  gmtime_r(&x, out);
  out->tm_gmtoff = off;
  out->tm_zone = off ? "SIM" : "UTC";
  return out;
}
EXPORT struct tm *localtime(const time_t *t) {
  REAL(localtime);
  if (!cur) return real(t);
  struct tm tmp;
  lt(t, &tmp);
  if (SIMULATED) yield(false);
  memcpy(&cproc()->tmbuf, &tmp, sizeof tmp);
  return &cproc()->tmbuf;
}
EXPORT struct tm *gmtime(const time_t *t) {
  REAL(gmtime);
  if (!cur) return real(t);
  struct tm tmp;
  gmtime_r(t, &tmp);
  if (SIMULATED) yield(false);
  memcpy(&cproc()->tmbuf, &tmp, sizeof tmp);
  return &cproc()->tmbuf;
}
EXPORT struct tm *localtime_r(const time_t *t, struct tm *out) {
  REAL(localtime_r);
  if (!cur) return real(t, out);
  return lt(t, out);
}
EXPORT time_t mktime(struct tm *tm) {
  REAL(mktime);
  if (!cur) return real(tm);
  int off = cproc()->host ? cproc()->host->tz_off : 0;
  time_t r = timegm(tm) - off;
  lt(&r, tm);
  return r;
}
EXPORT void tzset() {}
EXPORT int nanosleep(const struct timespec *d, struct timespec *rem) {
  REAL(nanosleep);
  if (!SIMULATED) return real(d, rem);
  sleep_for((Time)d->tv_sec * SEC + d->tv_nsec);
  if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
  return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *d, struct timespec *rem) {
  REAL(clock_nanosleep);
  if (!SIMULATED) return real(id, flags, d, rem);
  Time t = (Time)d->tv_sec * SEC + d->tv_nsec;
  if (flags & TIMER_ABSTIME) t = (id == CLOCK_REALTIME ? abs_rt(d) : t - MONO) - S->now;
  sleep_for(std::max<Time>(t, 0));
  return 0;
}
EXPORT int usleep(useconds_t us) {
  REAL(usleep);
  if (!SIMULATED) return real(us);
  sleep_for((Time)us * 1000);
  return 0;
}
EXPORT unsigned sleep(unsigned s) {
  REAL(sleep);
  if (!SIMULATED) return real(s);
  sleep_for((Time)s * SEC);
  return 0;
}

// ---------------------------------------------------------------- randomness
EXPORT void srand(unsigned s) {
  REAL(srand);
  if (!cur) return real(s);
  cproc()->crand.seed(s);
  if (SIMULATED) yield(false);
}
EXPORT int rand() {
  REAL(rand);
  if (!cur) return real();
  return (int)(cproc()->crand.u64() & 0x7fffffff);
}
EXPORT void srandom(unsigned s) { REAL(srandom); if (!cur) return real(s); cproc()->crand.seed(s); }
EXPORT long random() { REAL(random); if (!cur) return real(); return (long)(cproc()->crand.u64() & 0x7fffffff); }
static void simrand(void *b, size_t n) {
  unsigned char *p = (unsigned char *)b;
  for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(cproc()->rrand.u64() >> 13);
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
  static auto real = (ssize_t(*)(void *, size_t, unsigned))dlsym(RTLD_NEXT, "getrandom");
  if (!cur) return real(b, n, f);
  simrand(b, n);
  return (ssize_t)n;
}
EXPORT int getentropy(void *b, size_t n) {
  static auto real = (int (*)(void *, size_t))dlsym(RTLD_NEXT, "getentropy");
  if (!cur) return real(b, n);
  simrand(b, n);
  return 0;
}
EXPORT uint32_t arc4random() {
  static auto real = (uint32_t(*)())dlsym(RTLD_NEXT, "arc4random");
  if (!cur) return real();
  uint32_t v; simrand(&v, 4); return v;
}

// ---------------------------------------------------------------- process
EXPORT void exit(int c) {
  REAL(exit);
  if (cur && cur->proc->node) proc_exit(c & 0xff, true);
  real(c);
  __builtin_unreachable();
}
EXPORT void _exit(int c) {
  REAL(_exit);
  if (cur && cur->proc->node && !S->stopping) proc_exit(c & 0xff, false);
  real(c);
  __builtin_unreachable();
}
EXPORT void abort() {
  REAL(abort);
  if (cur && cur->proc->node) fatal_violation("ABORT: abort() called in process " + cur->proc->role);
  real();
  __builtin_unreachable();
}
EXPORT void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
  if (cur && cur->proc->node) fatal_violation(std::string("ABORT: assertion failed: ") + e + " in process " + cur->proc->role);
  fprintf(stderr, "assert %s %s:%u\n", e, f, l);
  _exit(99);
}
EXPORT sighandler_t signal(int sig, sighandler_t h) {
  REAL(signal);
  if (!cur) return real(sig, h);
  if (sig == SIGPIPE) { bool o = cproc()->sigpipe_ign; cproc()->sigpipe_ign = h == SIG_IGN; return o ? SIG_IGN : SIG_DFL; }
  return SIG_DFL;
}
EXPORT int sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  static auto real = (int (*)(int, const struct sigaction *, struct sigaction *))dlsym(RTLD_NEXT, "sigaction");
  if (!SIMULATED) return real(sig, a, o);
  if (o) { memset(o, 0, sizeof *o); if (sig == SIGPIPE && cproc()->sigpipe_ign) o->sa_handler = SIG_IGN; }
  if (a && sig == SIGPIPE) cproc()->sigpipe_ign = a->sa_handler == SIG_IGN;
  return 0;
}
EXPORT pid_t getpid() {
  static auto real = (pid_t(*)())dlsym(RTLD_NEXT, "getpid");
  if (!cur) return real();
  return 1000 + cur->proc->id;
}
