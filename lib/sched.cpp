// Compiled without sanitizers: the hand-over between threads must stay invisible to ThreadSanitizer,
// so that the happens-before relation it checks is the one the code under test establishes itself.
#include "mcsched.h"
#include "mc.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <map>
#include <string>
#include <vector>

namespace mc {
void setInSchedule(bool (*f)());
}

#ifdef MC_TSAN
#define REAL_NAME(x) __interceptor_##x
#define DECL_REAL(ret, x, ...) extern "C" ret __interceptor_##x(__VA_ARGS__)
#define INIT_REAL(x)
#define REAL(x) __interceptor_##x
#else
#define DECL_REAL(ret, x, ...) static ret (*real_##x)(__VA_ARGS__) = nullptr
#define REAL(x)                                                                             \
  (real_##x ? real_##x                                                                      \
            : (real_##x = reinterpret_cast<decltype(real_##x)>(dlsym(RTLD_NEXT, #x)), real_##x))
#endif

DECL_REAL(int, pthread_mutex_lock, pthread_mutex_t*);
DECL_REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
DECL_REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
DECL_REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
DECL_REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
DECL_REAL(
    int,
    pthread_cond_clockwait,
    pthread_cond_t*,
    pthread_mutex_t*,
    clockid_t,
    const struct timespec*);
DECL_REAL(int, pthread_cond_signal, pthread_cond_t*);
DECL_REAL(int, pthread_cond_broadcast, pthread_cond_t*);
DECL_REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
DECL_REAL(int, pthread_join, pthread_t, void**);
DECL_REAL(int, pthread_detach, pthread_t);
DECL_REAL(int, clock_gettime, clockid_t, struct timespec*);
DECL_REAL(int, nanosleep, const struct timespec*, struct timespec*);
static int (*real_clock_nanosleep)(clockid_t, int, const struct timespec*, struct timespec*) = nullptr;
DECL_REAL(int, sem_wait, sem_t*);
DECL_REAL(int, sem_timedwait, sem_t*, const struct timespec*);
DECL_REAL(int, sem_trywait, sem_t*);
DECL_REAL(int, sem_post, sem_t*);

#ifdef MC_TSAN
extern "C" {
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
}
#endif

namespace sched {
namespace {

enum State { kRunnable, kMutex, kCond, kJoin, kSleep, kSem, kPred, kFinished };

struct Thread {
  int id = 0;
  std::string name;
  State state = kRunnable;
  const void* obj = nullptr; // what it is blocked on
  bool timed = false;
  uint64_t deadline = 0; // virtual ns
  bool timedOut = false;
  bool signaled = false;
  int baton = 0; // futex word
  pthread_t handle{};
  bool joined = false;
  bool detached = false;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  uint32_t steps = 0;
  const std::function<bool()>* pred = nullptr;
  const char* waitLabel = "";
};

struct MutexState {
  int owner = -1;
  int count = 0;
};

constexpr int kMaxThreads = 64;
Thread* threads[kMaxThreads];
int nThreads = 0;
int current = 0;
bool running = false;
uint64_t stepCount = 0;
uint64_t clockNs = 0;
Config cfg;

// Memory of the scheduler, shared by all threads with no synchronisation the sanitizers could see:
// taken from the C library below them.
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
template <class T>
struct RtAlloc {
  using value_type = T;
  RtAlloc() = default;
  template <class U>
  RtAlloc(const RtAlloc<U>&) {}
  T* allocate(size_t n) {
    return static_cast<T*>(__libc_malloc(n * sizeof(T)));
  }
  void deallocate(T* p, size_t) {
    __libc_free(p);
  }
  template <class U>
  bool operator==(const RtAlloc<U>&) const {
    return true;
  }
  template <class U>
  bool operator!=(const RtAlloc<U>&) const {
    return false;
  }
};
using MutexMap = std::map<const void*, MutexState, std::less<const void*>, RtAlloc<std::pair<const void* const, MutexState>>>;
MutexMap* mutexes = nullptr;

__thread Thread* me = nullptr;

void futexWait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) {
    syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
void futexWake(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

const char* stateName(State s) {
  static const char* n[] = {"runnable", "mutex", "cond", "join", "sleep", "sem", "wait", "finished"};
  return n[s];
}

bool isFree(const void* m, int tid) {
  auto it = mutexes->find(m);
  return it == mutexes->end() || it->second.owner < 0 || it->second.owner == tid;
}

// A predicate is harness code, evaluated here on behalf of another thread.
bool evalPred(Thread* t) {
  Thread* save = me;
  me = nullptr;
#ifdef MC_TSAN
  AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
  AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
#endif
  const bool r = (*t->pred)();
#ifdef MC_TSAN
  AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
  AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
#endif
  me = save;
  return r;
}

bool enabled(Thread* t) {
  switch (t->state) {
    case kRunnable:
      return true;
    case kMutex:
      return isFree(t->obj, t->id);
    case kCond:
      return t->signaled; // (then competes for its mutex)
    case kSem: {
      int v = 0;
      sem_getvalue(static_cast<sem_t*>(const_cast<void*>(t->obj)), &v);
      return v > 0;
    }
    case kJoin:
      return static_cast<const Thread*>(t->obj)->state == kFinished;
    case kPred:
      return evalPred(t);
    case kSleep:
    case kFinished:
      return false;
  }
  return false;
}

std::string describe() {
  std::string s;
  for (int i = 0; i < nThreads; ++i) {
    Thread* t = threads[i];
    char b[200];
    snprintf(
        b,
        sizeof(b),
        "  T%d %s: %s%s%s%s\n",
        t->id,
        t->name.c_str(),
        stateName(t->state),
        t->timed ? " (timed)" : "",
        t->waitLabel[0] ? " " : "",
        t->waitLabel);
    s += b;
    if (t->state == kMutex) {
      auto it = mutexes->find(t->obj);
      if (it != mutexes->end()) {
        s += "    held by T" + std::to_string(it->second.owner) + "\n";
      }
    }
  }
  return s;
}

// Pick the next thread to run. Called by the thread holding the baton.
Thread* pickNext(const char* label, bool selfCanRun) {
  if (++stepCount > cfg.maxSteps) {
    mc::reportAndExit({"livelock", "no end after " + std::to_string(stepCount) + " scheduling steps\n" + describe()});
  }
  mc::transition();
  Thread* cand[kMaxThreads * 2];
  uint8_t cost[kMaxThreads * 2];
  bool viaTimeout[kMaxThreads * 2];
  int n = 0;
  const bool curEnabled = selfCanRun && me->state == kRunnable;
  if (curEnabled) {
    cand[n] = me;
    cost[n] = 0;
    viaTimeout[n++] = false;
  }
  // the others, starting after the current one
  for (int k = 1; k <= nThreads; ++k) {
    Thread* t = threads[(me->id + k) % nThreads];
    if (t == me && (curEnabled || !selfCanRun)) {
      continue;
    }
    if (t->state != kFinished && enabled(t)) {
      cand[n] = t;
      cost[n] = curEnabled ? uint8_t(cfg.switchCost) : (cfg.freeSwitchAtBlock || n == 0 ? 0 : uint8_t(cfg.switchCost));
      viaTimeout[n++] = false;
    }
  }
  const int regular = n;
  // timed waits that may expire
  uint64_t earliest = UINT64_MAX;
  for (int k = 0; k < nThreads; ++k) {
    Thread* t = threads[k];
    if (t->timed && (t->state == kCond || t->state == kSleep || t->state == kSem) && !enabled(t)) {
      earliest = t->deadline < earliest ? t->deadline : earliest;
    }
  }
  if (earliest != UINT64_MAX) {
    for (int k = 0; k < nThreads; ++k) {
      Thread* t = threads[k];
      if (t->timed && (t->state == kCond || t->state == kSleep || t->state == kSem) && !enabled(t) &&
          t->deadline == earliest) {
        cand[n] = t;
        cost[n] = regular > 0 ? uint8_t(cfg.timeoutCost) : 0;
        viaTimeout[n++] = true;
      }
    }
  }
  if (n == 0) {
    mc::reportAndExit({"deadlock", std::string("no thread can run, at ") + label + "\n" + describe()});
  }
  int a = 0;
  if (n > 1) {
    if (regular == 0) {
      a = mc::choose(n, label, 0);
    } else {
      a = mc::chooseCosts(n, cost, label);
    }
  }
  Thread* t = cand[a];
  // the state reached: how far each thread has come, and what it is doing
  uint64_t h = 0x9E3779B97F4A7C15ull;
  me->steps++;
  for (int k = 0; k < nThreads; ++k) {
    h = mc::hashInt((uint64_t(threads[k]->steps) << 8) | uint64_t(threads[k]->state), h);
  }
  mc::state(mc::hashInt(t->id, h));
  if (viaTimeout[a]) {
    t->timedOut = true;
    if (t->deadline > clockNs) {
      clockNs = t->deadline;
    }
  }
  if (mc::noting()) {
    char b[96];
    snprintf(b, sizeof(b), "[T%d %s -> T%d%s]", me->id, label, t->id, viaTimeout[a] ? " timeout" : "");
    if (t != me || n > 1) {
      mc::note(b);
    }
  }
  return t;
}

void switchTo(Thread* t) {
  if (t != me) {
    t->state = t->state == kFinished ? kFinished : t->state;
    Thread* self = me;
    current = t->id;
    futexWake(&t->baton);
    futexWait(&self->baton);
  }
}

// A scheduling point at which the current thread could go on.
void yieldPoint(const char* label) {
  Thread* t = pickNext(label, true);
  switchTo(t);
}

// The current thread is blocked (state set): run others until it is chosen again.
void block(const char* label) {
  Thread* t = pickNext(label, true);
  switchTo(t);
  me->state = kRunnable;
  me->timed = false;
}

void acquire(pthread_mutex_t* m, const char* label) {
  // me is running; wait until the mutex is free, then own it
  while (!isFree(m, me->id)) {
    me->state = kMutex;
    me->obj = m;
    me->timed = false;
    block(label);
  }
  MutexState& s = (*mutexes)[m];
  s.owner = me->id;
  s.count++;
}

void release(pthread_mutex_t* m) {
  auto it = mutexes->find(m);
  if (it != mutexes->end() && --it->second.count <= 0) {
    mutexes->erase(it);
  }
}

bool isRecursive(pthread_mutex_t* m) {
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

uint64_t toNs(const struct timespec* ts) {
  return ts->tv_sec < 0 ? 0 : uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec;
}

void* trampoline(void* p) {
  Thread* t = static_cast<Thread*>(p);
  me = t;
  futexWait(&t->baton);
  t->state = kRunnable;
  void* r = t->fn(t->arg);
  // end of thread: hand over, and never run again
  t->state = kFinished;
  Thread* next = nullptr;
  bool any = false;
  for (int i = 0; i < nThreads; ++i) {
    any |= threads[i]->state != kFinished;
  }
  if (any) {
    next = pickNext("exit", false);
    current = next->id;
    me = nullptr;
    futexWake(&next->baton);
  } else {
    me = nullptr;
  }
  return r;
}

bool isActive() {
  return running && me != nullptr;
}

Thread* findByHandle(pthread_t h) {
  for (int i = nThreads - 1; i >= 0; --i) {
    if (pthread_equal(threads[i]->handle, h) && !threads[i]->joined && i != 0) {
      return threads[i];
    }
  }
  return nullptr;
}

int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t deadline, const char* label) {
  // release the mutex entirely (a condition variable is only used with a lock held once)
  release(m);
  REAL(pthread_mutex_unlock)(m);
  me->state = kCond;
  me->obj = c;
  me->signaled = false;
  me->timedOut = false;
  me->timed = timed;
  me->deadline = deadline;
  block(label);
  bool timedOut = me->timedOut && !me->signaled;
  me->timedOut = false;
  me->signaled = false;
  acquire(m, "relock");
  REAL(pthread_mutex_lock)(m);
  return timedOut ? ETIMEDOUT : 0;
}

void condSignal(pthread_cond_t* c, bool all) {
  Thread* waiting[kMaxThreads];
  int n = 0;
  for (int i = 0; i < nThreads; ++i) {
    Thread* t = threads[i];
    if (t->state == kCond && t->obj == c && !t->signaled && !t->timedOut) {
      waiting[n++] = t;
    }
  }
  if (n == 0) {
    return;
  }
  if (all) {
    for (int i = 0; i < n; ++i) {
      waiting[i]->signaled = true;
    }
  } else {
    // which waiter a signal wakes is the system's choice: explore them all
    int a = n > 1 ? mc::choose(n, "signal", 0) : 0;
    waiting[a]->signaled = true;
  }
}

} // namespace

bool active() {
  return isActive();
}
uint64_t steps() {
  return stepCount;
}
double now() {
  return clockNs / 1e9;
}
void advance(double sec) {
  clockNs += uint64_t(sec * 1e9);
}
int self() {
  return me ? me->id : -1;
}
void nameThread(const char* name) {
  if (me) {
    me->name = name;
  }
}
void point(const char* label) {
  if (isActive()) {
    yieldPoint(label);
  }
}
void waitUntil(const char* label, const std::function<bool()>& pred) {
  if (!isActive()) {
    return;
  }
  yieldPoint(label);
  while (!pred()) {
    me->state = kPred;
    me->pred = &pred;
    me->waitLabel = label;
    me->timed = false;
    block(label);
    me->waitLabel = "";
  }
}

void run(const std::function<void()>& f, const Config& config) {
  cfg = config;
  for (int i = 0; i < nThreads; ++i) {
    delete threads[i];
  }
  nThreads = 0;
  if (!mutexes) {
    mutexes = new MutexMap();
    mc::setInSchedule([]() { return running; });
  }
  mutexes->clear();
  stepCount = 0;
  clockNs = uint64_t(cfg.startTime * 1e9);
  Thread* t = new Thread();
  t->name = "main";
  t->handle = pthread_self();
  threads[nThreads++] = t;
  me = t;
  current = 0;
  running = true;
  f();
  // every thread the scenario started must have been joined, or be able to end
  for (;;) {
    bool any = false;
    for (int i = 1; i < nThreads; ++i) {
      any |= threads[i]->state != kFinished;
    }
    if (!any) {
      break;
    }
    std::function<bool()> p = []() {
      for (int i = 1; i < nThreads; ++i) {
        if (threads[i]->state != kFinished) {
          return false;
        }
      }
      return true;
    };
    waitUntil("end", p);
  }
  running = false;
  me = nullptr;
}

} // namespace sched

using namespace sched;

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!isActive()) {
    return REAL(pthread_mutex_lock)(m);
  }
  auto it = mutexes->find(m);
  if (it != mutexes->end() && it->second.owner == me->id) {
    if (isRecursive(m)) {
      it->second.count++;
      return REAL(pthread_mutex_lock)(m);
    }
    mc::reportAndExit({"self-deadlock", "T" + std::to_string(me->id) + " locks a mutex that it holds already\n" + describe()});
  }
  yieldPoint("lock");
  acquire(m, "lock-wait");
  return REAL(pthread_mutex_lock)(m);
}

int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!isActive()) {
    return REAL(pthread_mutex_trylock)(m);
  }
  yieldPoint("trylock");
  auto it = mutexes->find(m);
  if (it != mutexes->end() && it->second.owner >= 0 &&
      !(it->second.owner == me->id && isRecursive(m))) {
    return EBUSY;
  }
  MutexState& s = (*mutexes)[m];
  s.owner = me->id;
  s.count++;
  return REAL(pthread_mutex_trylock)(m);
}

int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!isActive()) {
    return REAL(pthread_mutex_unlock)(m);
  }
  release(m);
  return REAL(pthread_mutex_unlock)(m);
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!isActive()) {
    return REAL(pthread_cond_wait)(c, m);
  }
  return condWait(c, m, false, 0, "cond-wait");
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!isActive()) {
    return REAL(pthread_cond_timedwait)(c, m, ts);
  }
  return condWait(c, m, true, toNs(ts), "cond-timedwait");
}
int pthread_cond_clockwait(
    pthread_cond_t* c,
    pthread_mutex_t* m,
    clockid_t clock,
    const struct timespec* ts) {
  if (!isActive()) {
    return REAL(pthread_cond_clockwait)(c, m, clock, ts);
  }
  return condWait(c, m, true, toNs(ts), "cond-timedwait");
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!isActive()) {
    return REAL(pthread_cond_signal)(c);
  }
  yieldPoint("signal");
  condSignal(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!isActive()) {
    return REAL(pthread_cond_broadcast)(c);
  }
  yieldPoint("broadcast");
  condSignal(c, true);
  return 0;
}

int pthread_create(pthread_t* h, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!isActive()) {
    return REAL(pthread_create)(h, attr, fn, arg);
  }
  Thread* t = new Thread();
  t->id = nThreads;
  t->name = "thread";
  t->fn = fn;
  t->arg = arg;
  if (nThreads >= kMaxThreads) {
    mc::reportAndExit({"too-many-threads", ""});
  }
  int r = REAL(pthread_create)(h, attr, trampoline, t);
  if (r != 0) {
    delete t;
    return r;
  }
  t->handle = *h;
  int detach = 0;
  if (attr) {
    pthread_attr_getdetachstate(attr, &detach);
    t->detached = detach == PTHREAD_CREATE_DETACHED;
  }
  threads[nThreads++] = t;
  yieldPoint("create");
  return 0;
}

int pthread_join(pthread_t h, void** ret) {
  if (!isActive()) {
    return REAL(pthread_join)(h, ret);
  }
  Thread* t = findByHandle(h);
  if (t) {
    yieldPoint("join");
    while (t->state != kFinished) {
      me->state = kJoin;
      me->obj = t;
      block("join-wait");
    }
    t->joined = true;
  }
  return REAL(pthread_join)(h, ret);
}

int pthread_detach(pthread_t h) {
  if (isActive()) {
    Thread* t = findByHandle(h);
    if (t) {
      t->detached = true;
    }
  }
  return REAL(pthread_detach)(h);
}

int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!isActive() || id == CLOCK_MONOTONIC_RAW) {
    return REAL(clock_gettime)(id, ts);
  }
  clockNs += 1000;
  ts->tv_sec = clockNs / 1000000000ull;
  ts->tv_nsec = clockNs % 1000000000ull;
  return 0;
}

static int schedSleep(uint64_t deadline) {
  me->state = kSleep;
  me->obj = nullptr;
  me->timed = true;
  me->timedOut = false;
  me->deadline = deadline;
  block("sleep");
  me->timedOut = false;
  return 0;
}

int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!isActive()) {
    return REAL(nanosleep)(ts, rem);
  }
  return schedSleep(clockNs + toNs(ts));
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* ts, struct timespec* rem) {
  if (!isActive()) {
    if (!real_clock_nanosleep) {
      real_clock_nanosleep = reinterpret_cast<decltype(real_clock_nanosleep)>(dlsym(RTLD_NEXT, "clock_nanosleep"));
    }
    return real_clock_nanosleep(id, flags, ts, rem);
  }
  return schedSleep((flags & TIMER_ABSTIME) ? toNs(ts) : clockNs + toNs(ts));
}

int sem_wait(sem_t* s) {
  if (!isActive()) {
    return REAL(sem_wait)(s);
  }
  yieldPoint("sem_wait");
  for (;;) {
    int v = 0;
    sem_getvalue(s, &v);
    if (v > 0) {
      return REAL(sem_wait)(s);
    }
    me->state = kSem;
    me->obj = s;
    me->timed = false;
    block("sem_wait");
  }
}
int sem_timedwait(sem_t* s, const struct timespec* ts) {
  if (!isActive()) {
    return REAL(sem_timedwait)(s, ts);
  }
  yieldPoint("sem_timedwait");
  for (;;) {
    int v = 0;
    sem_getvalue(s, &v);
    if (v > 0) {
      return REAL(sem_wait)(s);
    }
    if (toNs(ts) <= clockNs) {
      errno = ETIMEDOUT;
      return -1;
    }
    me->state = kSem;
    me->obj = s;
    me->timed = true;
    me->timedOut = false;
    me->deadline = toNs(ts);
    block("sem_timedwait");
    if (me->timedOut) {
      me->timedOut = false;
      errno = ETIMEDOUT;
      return -1;
    }
  }
}
int sem_trywait(sem_t* s) {
  if (isActive()) {
    yieldPoint("sem_trywait");
  }
  return REAL(sem_trywait)(s);
}
int sem_post(sem_t* s) {
  if (isActive()) {
    yieldPoint("sem_post");
  }
  return REAL(sem_post)(s);
}

#ifdef MC_TSAN
// Accesses to std::atomic objects are scheduling points. The linker routes the compiler's calls here
// (--wrap). Reference counts (32-bit read-modify-write) and the guards of function-level statics
// (8-bit acquire loads) are not.
#define ATOMIC_POINT()                              \
  do {                                              \
    if (isActive() && cfg.atomicsArePoints) {       \
      yieldPoint("atomic");                         \
    }                                               \
  } while (0)
#define WRAP_ATOMICS(bits, T)                                                                   \
  T __real___tsan_atomic##bits##_load(const volatile T* a, int mo);                             \
  T __wrap___tsan_atomic##bits##_load(const volatile T* a, int mo) {                            \
    if (mo == 5) {                                                                              \
      ATOMIC_POINT();                                                                           \
    }                                                                                           \
    return __real___tsan_atomic##bits##_load(a, mo);                                            \
  }                                                                                             \
  void __real___tsan_atomic##bits##_store(volatile T* a, T v, int mo);                          \
  void __wrap___tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                         \
    if (mo == 5) {                                                                              \
      ATOMIC_POINT();                                                                           \
    }                                                                                           \
    __real___tsan_atomic##bits##_store(a, v, mo);                                               \
  }                                                                                             \
  T __real___tsan_atomic##bits##_exchange(volatile T* a, T v, int mo);                          \
  T __wrap___tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                         \
    ATOMIC_POINT();                                                                             \
    return __real___tsan_atomic##bits##_exchange(a, v, mo);                                     \
  }                                                                                             \
  T __real___tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo);                         \
  T __wrap___tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                        \
    if (mo == 5) {                                                                              \
      ATOMIC_POINT();                                                                           \
    }                                                                                           \
    return __real___tsan_atomic##bits##_fetch_add(a, v, mo);                                    \
  }                                                                                             \
  T __real___tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo);                         \
  T __wrap___tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                        \
    if (mo == 5) {                                                                              \
      ATOMIC_POINT();                                                                           \
    }                                                                                           \
    return __real___tsan_atomic##bits##_fetch_sub(a, v, mo);                                    \
  }                                                                                             \
  int __real___tsan_atomic##bits##_compare_exchange_strong(                                     \
      volatile T* a, T* c, T v, int mo, int fmo);                                               \
  int __wrap___tsan_atomic##bits##_compare_exchange_strong(                                     \
      volatile T* a, T* c, T v, int mo, int fmo) {                                              \
    ATOMIC_POINT();                                                                             \
    return __real___tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);              \
  }                                                                                             \
  int __real___tsan_atomic##bits##_compare_exchange_weak(                                       \
      volatile T* a, T* c, T v, int mo, int fmo);                                               \
  int __wrap___tsan_atomic##bits##_compare_exchange_weak(                                       \
      volatile T* a, T* c, T v, int mo, int fmo) {                                              \
    ATOMIC_POINT();                                                                             \
    return __real___tsan_atomic##bits##_compare_exchange_weak(a, c, v, mo, fmo);                \
  }
WRAP_ATOMICS(8, char)
WRAP_ATOMICS(16, short)
WRAP_ATOMICS(32, int)
WRAP_ATOMICS(64, long)
#endif

} // extern "C"
