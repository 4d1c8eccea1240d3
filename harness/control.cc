// Cooperative scheduler, see control.h.  Interposes the pthread functions (also those libstdc++ calls),
// call_once, function-local statics and the futex of std::future, and implements the __tsan_*
// callbacks of code compiled with -fsanitize=thread (memory-level preemption, race detection).
#include "control.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <chrono>
#include <algorithm>
#include <map>
#include <random>
#include <set>
#include <unordered_map>

namespace hz { [[noreturn]] void Die(const char* event, const char* detail); }

namespace sched {
#ifdef VERIF_SCHED
const bool kControlled = true;
#else
const bool kControlled = false;
#endif

namespace {
typedef std::vector<uint32_t> VC;
void Join(VC* a, const VC& b) {
  if (a->size() < b.size()) a->resize(b.size());
  for (size_t i = 0; i < b.size(); ++i) if (b[i] > (*a)[i]) (*a)[i] = b[i];
}
enum State { RUN, MUTEX, COND, JOIN, FUTEX, ONCE, RW, GUARD, DONE };
struct Thr {
  int id;
  pthread_t real;
  sem_t sem;
  State st = RUN;
  void* on = nullptr;       // mutex, condition, futex word
  void* mtx = nullptr;      // mutex to take again after COND
  unsigned val = 0;
  bool wr = false;
  Thr* joinee = nullptr;
  bool timed = false, timedout = false, signaled = false;
  uint64_t prio = 0;
  VC vc;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
};
struct Mtx { Thr* owner = nullptr; int rec = 0; VC vc; };
struct Rw { Thr* writer = nullptr; int readers = 0; VC vc, rvc; };
bool g_active = false;
Opt g_opt;
Info g_info;
std::vector<Thr*> g_thr;
std::unordered_map<void*, Mtx> g_mtx;
std::unordered_map<void*, Rw> g_rw;
std::unordered_map<void*, VC> g_cond, g_sync;
std::mt19937_64 g_rng;
thread_local Thr* t_self = nullptr;
thread_local int t_in = 0;    // inside the scheduler: callbacks do nothing
thread_local int t_quiet = 0; // inside the harness' own bookkeeping
int g_spurious, g_preempt;
std::vector<long> g_change;   // PCT: steps at which priorities change
// DFS
struct Ch { int n, i; };
std::vector<Ch> g_path;
size_t g_at;

struct In { In() { ++t_in; } ~In() { --t_in; } };
bool Managed() { return g_active && t_self && !t_in && !t_quiet; }

// ---- real functions -----------------------------------------------------
template <class F> F Real(F* cache, const char* n, const char* v = nullptr) {
  if (!*cache) *cache = (F)(v ? dlvsym(RTLD_NEXT, n, v) : dlsym(RTLD_NEXT, n));
  return *cache;
}
#define REAL(ret, name, args) typedef ret(*name##_t) args; name##_t r_##name
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*));
REAL(int, pthread_join, (pthread_t, void**));
REAL(int, pthread_mutex_lock, (pthread_mutex_t*));
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*));
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*));
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*));
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*));
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*));
REAL(int, pthread_cond_signal, (pthread_cond_t*));
REAL(int, pthread_cond_broadcast, (pthread_cond_t*));
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*));
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*));
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*));

// ---- choosing ----------------------------------------------------------
bool Enabled(Thr* t) {
  switch (t->st) {
    case RUN: return true;
    case MUTEX: { auto it = g_mtx.find(t->on); return it == g_mtx.end() || !it->second.owner || it->second.owner == t; }
    case COND: return false;
    case JOIN: return t->joinee->st == DONE;
    case FUTEX: return *(volatile unsigned*)t->on != t->val;
    case ONCE: return *(volatile int*)t->on != 1;
    case RW: { auto it = g_rw.find(t->on); return it == g_rw.end() || (!it->second.writer && (!t->wr || !it->second.readers)); }
    case GUARD: return *(volatile char*)t->on == 0;
    case DONE: return false;
  }
  return false;
}
int Choose(int n) {   // DFS choice among n
  if (n <= 1) return 0;
  ++g_info.choices;
  if (g_at == g_path.size()) g_path.push_back({n, 0});
  Ch& c = g_path[g_at++];
  if (c.n != n) hz::Die("Hang", "schedule replay diverged");
  return c.i;
}
bool Flip(double p) { return p > 0 && std::uniform_real_distribution<double>()(g_rng) < p; }

std::string Describe() {
  std::string s;
  static const char* nm[] = {"run", "mutex", "cond", "join", "future", "once", "rwlock", "guard", "done"};
  for (Thr* t : g_thr) s += "T" + std::to_string(t->id) + ":" + nm[t->st] + " ";
  return s;
}

// Gives the token to some enabled thread; returns when this thread has it again (unless it is done).
void Switch(bool sync) {
  Thr* me = t_self;
  ++g_info.steps;
  if (g_info.steps > g_opt.max_steps) hz::Die("Hang", ("step limit: " + Describe()).c_str());
  bool mine = Enabled(me);
  if (mine && g_opt.kind == Opt::RANDOM && !Flip(sync ? g_opt.p_sync : g_opt.p_mem)) { me->st = RUN; return; }
  if (mine && !sync && g_opt.kind != Opt::RANDOM && !Flip(g_opt.p_mem)) { me->st = RUN; return; }
  std::vector<Thr*> en;
  if (mine) en.push_back(me);
  for (Thr* t : g_thr) if (t != me && Enabled(t)) en.push_back(t);
  size_t sure = en.size();
  if (g_spurious > 0) for (Thr* t : g_thr) if (t->st == COND) en.push_back(t);
  if (!sure) {          // timed waits end when nothing else can happen
    en.clear();
    for (Thr* t : g_thr) if (t->st == COND && t->timed) en.push_back(t);
    if (en.empty()) {
      bool over = true;
      for (Thr* t : g_thr) over = over && t->st == DONE;
      if (over) return;
      hz::Die("Deadlock", Describe().c_str());
    }
    for (Thr* t : en) { t->st = MUTEX; t->on = t->mtx; t->timedout = true; }
    en.erase(std::remove_if(en.begin(), en.end(), [](Thr* t) { return !Enabled(t); }), en.end());
    if (en.empty()) hz::Die("Deadlock", Describe().c_str());
  }
  Thr* next;
  if (g_opt.kind == Opt::DFS) {
    size_t n = en.size();
    if (mine && g_preempt <= 0) n = 1;
    next = en[Choose(n)];
    if (mine && next != me) --g_preempt;
  } else if (g_opt.kind == Opt::PCT) {
    if (!g_change.empty() && g_info.steps >= g_change.back()) {
      g_change.pop_back();
      me->prio = g_change.size();
    }
    next = en[0];
    for (Thr* t : en) if (t->prio > next->prio) next = t;
    if (next->st == COND && !Flip(.1)) {   // spurious wake-ups by chance only
      next = nullptr;
      for (size_t i = 0; i < sure; ++i) if (!next || en[i]->prio > next->prio) next = en[i];
      if (!next) next = en[0];
    }
  } else {
    next = en[g_rng() % en.size()];
  }
  if (next->st == COND) {   // spurious
    --g_spurious;
    next->st = MUTEX;
    next->on = next->mtx;
    if (!Enabled(next)) { if (mine) next = me; else { Switch(sync); return; } }
  }
  if (next == me) { me->st = RUN; return; }
  ++g_info.switches;
  next->st = next->st == DONE ? DONE : RUN;
  bool done = me->st == DONE;
  sem_post(&next->sem);
  if (!done) while (sem_wait(&me->sem)) {}
}
void Tick() { Thr* t = t_self; if ((int)t->vc.size() <= t->id) t->vc.resize(t->id + 1); ++t->vc[t->id]; }
void Acquire(const VC& v) { Join(&t_self->vc, v); }
void Release(VC* v) { Join(v, t_self->vc); Tick(); }

void Lock(void* m) {
  Switch(true);
  for (;;) {
    Mtx& x = g_mtx[m];
    if (!x.owner) { x.owner = t_self; x.rec = 1; Acquire(x.vc); return; }
    t_self->st = MUTEX;
    t_self->on = m;
    Switch(true);
  }
}
void Unlock(void* m, bool point) {
  Mtx& x = g_mtx[m];
  Release(&x.vc);
  x.owner = nullptr;
  x.rec = 0;
  if (point) Switch(true);
}
void* Trampoline(void* p) {
  Thr* t = (Thr*)p;
  t_self = t;
  while (sem_wait(&t->sem)) {}
  void* r = t->fn(t->arg);
  ++t_in;
  t->ret = r;
  t->st = DONE;
  Switch(true);
  return r;
}

// ---- race detection -------------------------------------------------------
struct Use { int t; uint32_t e; uint8_t mask; bool w; };
typedef std::vector<Use> Cell;
struct Shadow {
  std::unordered_map<uintptr_t, Cell> m;
  std::set<std::pair<void*, void*>> seen;
};
Shadow* g_sh;
bool Before(int t, uint32_t e) { auto& v = t_self->vc; return t == t_self->id || ((int)v.size() > t && v[t] >= e); }
void Race(const char* kind, void* pc, uintptr_t a) {
  if (g_info.races.size() >= 8) return;
  if (!g_sh->seen.insert({pc, nullptr}).second) return;
  Dl_info di;
  char b[256];
  const char* sym = dladdr(pc, &di) && di.dli_sname ? di.dli_sname : "?";
  snprintf(b, sizeof b, "%s in %s", kind, sym);
  g_info.races.push_back(b);
}
void Access(uintptr_t a, int size, bool write, void* pc) {
  In in;
  Thr* me = t_self;
  uint32_t e = (int)me->vc.size() > me->id ? me->vc[me->id] : 0;
  for (uintptr_t c = a >> 3; c <= (a + size - 1) >> 3; ++c) {
    uint8_t mask = 0xff;
    uintptr_t lo = c << 3;
    int f = a > lo ? a - lo : 0, l = std::min<uintptr_t>(a + size, lo + 8) - lo;
    mask = (uint8_t)(((1u << l) - 1) & ~((1u << f) - 1));
    Cell& x = g_sh->m[c];
    size_t keep = 0;
    for (auto& u : x) {
      if ((u.mask & mask) && (write || u.w) && !Before(u.t, u.e)) Race(write ? u.w ? "write/write" : "read/write" : "write/read", pc, a);
      // superseded: a later access of the same thread at least as strong, or an ordered write over it
      bool gone = !(u.mask & ~mask) && (write ? Before(u.t, u.e) : u.t == me->id && !u.w);
      if (!gone) x[keep++] = u;
    }
    x.resize(keep);
    x.push_back({me->id, e, mask, write});
  }
}
void OnMem(uintptr_t a, int size, bool write, void* pc) {
  if (!Managed()) return;
  if (g_opt.races) Access(a, size, write, pc);
  if (g_opt.p_mem > 0) { In in; Switch(false); }
}
VC& SyncOf(const volatile void* a) { return g_sync[(void*)a]; }
void OnAtomic(const volatile void* a, bool acq, bool rel) {
  if (!Managed()) return;
  In in;
  Switch(true);
  VC& v = SyncOf(a);
  if (acq) Acquire(v);
  if (rel) Release(&v);
}
}  // namespace

void Forget(void* p, size_t n) {   // memory freed
  if (!g_active || !g_sh || t_in) return;
  In in;
  for (uintptr_t c = (uintptr_t)p >> 3; c <= ((uintptr_t)p + n) >> 3; ++c) g_sh->m.erase(c);
  if (n <= 4096) {
    for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a += 4) {
      g_sync.erase((void*)a);
      auto it = g_mtx.find((void*)a);
      if (it != g_mtx.end() && !it->second.owner) g_mtx.erase(it);
      g_cond.erase((void*)a);
    }
  }
}

Info Run(const Opt& o, const std::function<void()>& body) {
  if (!kControlled) { body(); return Info(); }
  {
    In in;
    g_opt = o;
    g_info = Info();
    g_mtx.clear(); g_rw.clear(); g_cond.clear(); g_sync.clear();
    delete g_sh;
    g_sh = new Shadow;
    g_rng.seed(o.seed * 1000003 + 17);
    g_spurious = o.spurious;
    g_preempt = o.preemptions;
    g_at = 0;
    g_change.clear();
    if (o.kind == Opt::PCT) {
      for (int i = 0; i < o.depth; ++i) g_change.push_back(1 + g_rng() % (40u << (g_rng() % 5)));
      std::sort(g_change.rbegin(), g_change.rend());
    }
    Thr* t = new Thr;
    t->id = 0;
    t->prio = 100 + g_rng() % 1000000;
    sem_init(&t->sem, 0, 0);
    g_thr.assign(1, t);
    t_self = t;
    Tick();
  }
  g_active = true;
  body();
  {
    In in;
    // threads not joined finish first
    for (;;) {
      bool left = false;
      for (Thr* t : g_thr) left = left || (t->id && t->st != DONE);
      if (!left) break;
      t_self->st = JOIN;
      for (Thr* t : g_thr) if (t->id && t->st != DONE) t_self->joinee = t;
      Switch(true);
    }
    g_active = false;
    for (Thr* t : g_thr) if (t->id == 0) { sem_destroy(&t->sem); delete t; }
    g_thr.clear();
    t_self = nullptr;
  }
  return g_info;
}
void DfsReset() { g_path.clear(); }
bool DfsNext() {
  while (!g_path.empty() && g_path.back().i + 1 >= g_path.back().n) g_path.pop_back();
  if (g_path.empty()) return false;
  ++g_path.back().i;
  return true;
}
int Self() { return t_self ? t_self->id : -1; }
bool Active() { return g_active; }
Quiet::Quiet() { ++t_quiet; }
Quiet::~Quiet() { --t_quiet; }
int Live() {
  int n = 0;
  for (Thr* t : g_thr) if (t->id && t->st != DONE) ++n;
  return n;
}
void Point() { if (Managed()) { In in; Switch(true); } }
}  // namespace sched

#ifdef VERIF_SCHED
using namespace sched;
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  auto real = Real(&r_pthread_create, "pthread_create");
  if (!Managed()) return real(th, at, fn, arg);
  In in;
  Thr* t = new Thr;
  t->id = g_thr.size();
  t->fn = fn;
  t->arg = arg;
  t->prio = 100 + g_rng() % 1000000;
  sem_init(&t->sem, 0, 0);
  t->vc = t_self->vc;
  if ((int)t->vc.size() <= t->id) t->vc.resize(t->id + 1);
  t->vc[t->id] = 1;
  Tick();
  g_thr.push_back(t);
  int r = real(&t->real, at, Trampoline, t);
  if (r) hz::Die("Hang", "pthread_create failed");
  *th = t->real;
  Switch(true);
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  auto real = Real(&r_pthread_join, "pthread_join");
  if (!Managed()) return real(th, ret);
  In in;
  Thr* j = nullptr;
  for (Thr* t : g_thr) if (t->id && t->real == th) j = t;   // the latest with this handle
  if (!j) return real(th, ret);
  t_self->st = JOIN;
  t_self->joinee = j;
  Switch(true);
  Acquire(j->vc);
  return real(th, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!Managed()) return Real(&r_pthread_mutex_lock, "pthread_mutex_lock")(m);
  In in;
  auto it = g_mtx.find(m);
  if (it != g_mtx.end() && it->second.owner == t_self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++it->second.rec; return 0; }
  Lock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!Managed()) return Real(&r_pthread_mutex_trylock, "pthread_mutex_trylock")(m);
  In in;
  Switch(true);
  Mtx& x = g_mtx[m];
  if (x.owner == t_self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++x.rec; return 0; }
  if (x.owner) return EBUSY;
  x.owner = t_self;
  x.rec = 1;
  Acquire(x.vc);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!Managed()) return Real(&r_pthread_mutex_unlock, "pthread_mutex_unlock")(m);
  In in;
  auto it = g_mtx.find(m);
  if (it == g_mtx.end() || it->second.owner != t_self) return 0;
  if (it->second.rec > 1) { --it->second.rec; return 0; }
  Unlock(m, true);
  return 0;
}
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Thr* me = t_self;
  Switch(true);
  me->st = COND;
  me->on = c;
  me->mtx = m;
  me->timed = timed;
  me->timedout = false;
  Unlock(m, false);
  Switch(true);
  // runs again: the mutex must be taken
  for (;;) {
    Mtx& x = g_mtx[m];
    if (!x.owner) { x.owner = me; x.rec = 1; Acquire(x.vc); break; }
    me->st = MUTEX;
    me->on = m;
    Switch(true);
  }
  Acquire(g_cond[c]);
  return me->timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!Managed()) return Real(&r_pthread_cond_wait, "pthread_cond_wait", "GLIBC_2.3.2")(c, m);
  In in;
  return CondWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!Managed()) return Real(&r_pthread_cond_timedwait, "pthread_cond_timedwait", "GLIBC_2.3.2")(c, m, ts);
  In in;
  return CondWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!Managed()) return Real(&r_pthread_cond_clockwait, "pthread_cond_clockwait")(c, m, k, ts);
  In in;
  return CondWait(c, m, true);
}
static void Wake(Thr* t) { t->st = MUTEX; t->on = t->mtx; }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!Managed()) return Real(&r_pthread_cond_signal, "pthread_cond_signal", "GLIBC_2.3.2")(c);
  In in;
  Switch(true);
  Release(&g_cond[c]);
  std::vector<Thr*> w;
  for (Thr* t : g_thr) if (t->st == COND && t->on == c) w.push_back(t);
  if (!w.empty()) Wake(w[g_opt.kind == Opt::DFS ? Choose(w.size()) : g_rng() % w.size()]);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!Managed()) return Real(&r_pthread_cond_broadcast, "pthread_cond_broadcast", "GLIBC_2.3.2")(c);
  In in;
  Switch(true);
  Release(&g_cond[c]);
  for (Thr* t : g_thr) if (t->st == COND && t->on == c) Wake(t);
  return 0;
}
static int RwLock(pthread_rwlock_t* l, bool wr) {
  In in;
  Switch(true);
  for (;;) {
    Rw& x = g_rw[l];
    if (!x.writer && (!wr || !x.readers)) {
      if (wr) x.writer = t_self; else ++x.readers;
      Acquire(x.vc);
      if (wr) Acquire(x.rvc);
      return 0;
    }
    t_self->st = RW;
    t_self->on = l;
    t_self->wr = wr;
    Switch(true);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return Managed() ? RwLock(l, false) : Real(&r_pthread_rwlock_rdlock, "pthread_rwlock_rdlock")(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return Managed() ? RwLock(l, true) : Real(&r_pthread_rwlock_wrlock, "pthread_rwlock_wrlock")(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!Managed()) return Real(&r_pthread_rwlock_unlock, "pthread_rwlock_unlock")(l);
  In in;
  Rw& x = g_rw[l];
  if (x.writer == t_self) { Release(&x.vc); x.writer = nullptr; }
  else if (x.readers) { Release(&x.rvc); --x.readers; }
  Switch(true);
  return 0;
}
// call_once: 0 not begun, 1 running, 2 done
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  volatile int* v = (volatile int*)o;
  for (;;) {
    if (*v == 2) {
      if (Managed()) { In in; Acquire(SyncOf(o)); }
      return 0;
    }
    if (*v == 0) {
      if (!g_active) { if (!__sync_bool_compare_and_swap(v, 0, 1)) continue; } else { *v = 1; }
      try {
        fn();
      } catch (...) {
        *v = 0;
        throw;
      }
      *v = 2;
      if (Managed()) { In in; Release(&SyncOf(o)); Switch(true); }
      return 0;
    }
    if (Managed()) {
      In in;
      t_self->st = ONCE;
      t_self->on = o;
      Switch(true);
    } else {
      usleep(50);
    }
  }
}
}  // extern "C"

// function-local statics: byte 0 done, byte 1 running
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  for (;;) {
    if (b[0]) { if (Managed()) { In in; Acquire(SyncOf(g)); } return 0; }
    if (__sync_bool_compare_and_swap(b + 1, 0, 1)) return 1;
    if (Managed()) { In in; t_self->st = GUARD; t_self->on = (void*)(b + 1); Switch(true); } else usleep(50);
  }
}
extern "C" void __cxa_guard_release(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  if (Managed()) { In in; Release(&SyncOf(g)); }
  b[1] = 0;
  __sync_synchronize();
  b[0] = 1;
}
extern "C" void __cxa_guard_abort(uint64_t* g) { ((volatile char*)g)[1] = 0; }
}  // namespace __cxxabiv1

// the futex under std::future; found by name so that the class need not be redefined
extern "C" bool verif_futex_wait(void* self, unsigned* a, unsigned v, bool has_to, long s, long ns)
    __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
extern "C" bool verif_futex_wait(void*, unsigned* a, unsigned v, bool has_to, long, long) {
  if (!Managed()) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v) usleep(100); return true; }
  In in;
  Switch(true);
  while (*(volatile unsigned*)a == v) {
    t_self->st = FUTEX;
    t_self->on = a;
    t_self->val = v;
    Switch(true);
  }
  return true;
}
extern "C" void verif_futex_wake(unsigned* a) __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
extern "C" void verif_futex_wake(unsigned*) { if (Managed()) { In in; Switch(true); } }

// ---- callbacks of the instrumented code ---------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { OnMem((uintptr_t)a, n, false, PC); } \
  void __tsan_write##n(void* a) { OnMem((uintptr_t)a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { OnMem((uintptr_t)a, n, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { OnMem((uintptr_t)a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { OnMem((uintptr_t)a, n, false, PC); } \
  void __tsan_volatile_write##n(void* a) { OnMem((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void*) { OnMem((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { OnMem((uintptr_t)a, 8, false, PC); }
void __tsan_read_range(void* a, unsigned long n) { if (n) OnMem((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { if (n) OnMem((uintptr_t)a, n, true, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* a, int) { OnAtomic(a, true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { OnAtomic(a, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { OnAtomic(a, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { OnAtomic(a, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { OnAtomic(a, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { OnAtomic(a, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { OnAtomic(a, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { OnAtomic(a, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { OnAtomic(a, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { OnAtomic(a, true, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { OnAtomic(a, true, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) { OnAtomic(a, true, true); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}
#endif
