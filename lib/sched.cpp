#include "sched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <sstream>

extern "C" int __asan_address_is_poisoned(void const volatile*) __attribute__((weak));

namespace sched {
namespace {

// ---- the real functions --------------------------------------------------------------------------
template <typename F>
F realFn(const char* name, const char* version = nullptr) {
  void* p = version ? dlvsym(RTLD_NEXT, name, version) : nullptr;
  if (!p) p = dlsym(RTLD_NEXT, name);
  if (!p) { std::fprintf(stderr, "sched: no %s\n", name); std::abort(); }
  return reinterpret_cast<F>(p);
}
#define REAL(NAME, ...)                                                             \
  ([]() {                                                                           \
    static void* f = realFn<void*>(#NAME, ##__VA_ARGS__);                           \
    return reinterpret_cast<decltype(&::NAME)>(f);                                  \
  }())

long rawFutex(std::atomic<int>* a, int op, int v) {
  long r;
  register long r10 __asm__("r10") = 0;
  register long r8 __asm__("r8") = 0;
  register long r9 __asm__("r9") = 0;
  __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

// ---- state ---------------------------------------------------------------------------------------
enum State { Runnable, OnMutex, OnCond, OnJoin, OnOnce, OnFutex, OnRw, Sleeping, Finishing, Done };
const char* const kStateName[] = {"runnable", "waiting for mutex", "waiting on condition", "joining", "waiting for once", "waiting on futex",
                                  "waiting for rwlock", "sleeping", "waiting for all threads", "done"};
struct Thread {
  int id = 0;
  State state = Runnable;
  const void* obj = nullptr;
  bool timed = false, timedOut = false;
  int64_t deadline = 0;
  pthread_t handle = 0;
  std::atomic<int> turn{0};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  int exitRounds = 0;
  bool joined = false;
  uint64_t sinceSync = 0;
};
struct Mutex { Thread* owner = nullptr; int depth = 0; };
struct Rw { Thread* writer = nullptr; std::map<Thread*, int> readers; };
struct Session {
  Plan plan;
  Stats st;
  std::vector<Thread*> threads;
  std::map<const void*, Mutex> mutexes;
  std::map<const void*, Rw> rws;
  std::map<const void*, std::pair<int, Thread*>> onces;  // 1 running, 2 done
  std::map<const void*, int> names;
  std::deque<std::string> log;
  size_t nextPre = 0, nextChoice = 0, nextSpurious = 0;
  uint64_t memSince = 0;
  uint64_t rng = 1;
  int64_t now = 1700000000ll * 1000000000ll;
  int64_t tickNs = 100;
};
Session* S = nullptr;
std::atomic<bool> gActive{false};
thread_local Thread* tSelf = nullptr;
thread_local int tQuiet = 0;
pthread_key_t gKey;
bool gKeyMade = false;

inline bool managed() { return tSelf != nullptr && gActive.load(std::memory_order_relaxed); }

std::string nameOf(const void* p) {
  auto it = S->names.find(p);
  if (it == S->names.end()) it = S->names.insert(std::make_pair(p, int(S->names.size()))).first;
  return "#" + std::to_string(it->second);
}
void note(const std::string& e) {
  S->log.push_back("T" + std::to_string(tSelf ? tSelf->id : -1) + " " + e);
  if (S->log.size() > 60) S->log.pop_front();
}
std::string situation() {
  std::ostringstream os;
  for (Thread* t : S->threads) {
    os << "  T" << t->id << " " << kStateName[t->state];
    if (t->obj) os << " " << nameOf(t->obj);
    if (t->state == OnMutex) {
      Thread* o = S->mutexes[t->obj].owner;
      if (o) os << " held by T" << o->id;
    }
    os << "\n";
  }
  os << "last operations:";
  for (const std::string& e : S->log) os << "\n  " << e;
  return os.str();
}

uint64_t rnd() {
  uint64_t& x = S->rng;
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  return x * 0x2545F4914F6CDD1Dull >> 16;
}
uint32_t choice(size_t n) {
  if (n <= 1) return 0;
  if (S->plan.walk) return uint32_t(rnd() % n);
  if (S->plan.choices.empty()) return 0;
  return S->plan.choices[S->nextChoice++ % S->plan.choices.size()] % uint32_t(n);
}

// ---- switching -----------------------------------------------------------------------------------
void waitTurn(Thread* t) {
  while (t->turn.load() == 0) rawFutex(&t->turn, FUTEX_WAIT_PRIVATE, 0);
  t->turn.store(0);
}
void wake(Thread* t) {
  t->turn.store(1);
  rawFutex(&t->turn, FUTEX_WAKE_PRIVATE, 1);
}
/// the threads that can run, in rotation order after the calling one
std::vector<Thread*> runnable(bool others) {
  std::vector<Thread*> r;
  const size_t n = S->threads.size();
  const size_t me = size_t(tSelf->id);
  for (size_t k = 1; k <= n; ++k) {
    Thread* t = S->threads[(me + k) % n];
    if (t->state == Runnable && !(others && t == tSelf)) r.push_back(t);
  }
  return r;
}
bool allDone() {
  for (Thread* t : S->threads) if (t->id != 0 && t->state != Done) return false;
  return true;
}
/// picks someone to run when the caller cannot; time passes if that is the only way on
Thread* pickNext() {
  for (;;) {
    if (S->threads[0]->state == Finishing && allDone()) { S->threads[0]->state = Runnable; S->threads[0]->obj = nullptr; }
    std::vector<Thread*> r = runnable(false);
    if (!r.empty()) return r[choice(r.size())];
    Thread* first = nullptr;
    for (Thread* t : S->threads)
      if (t->state != Done && t->state != Runnable && t->timed && (!first || t->deadline < first->deadline)) first = t;
    if (!first) bad("deadlock: no thread can run\n" + situation());
    if (first->deadline > S->now) S->now = first->deadline;
    first->timedOut = true;
    first->timed = false;
    first->state = Runnable;
    first->obj = nullptr;
  }
}
void switchTo(Thread* t) {
  if (t == tSelf) return;
  ++S->st.switches;
  Thread* me = tSelf;
  wake(t);
  waitTurn(me);
}
/// the caller has set its state to a blocked one
void block() {
  ++S->st.blocked;
  switchTo(pickNext());
}
void preemptTo(uint32_t target) {
  std::vector<Thread*> r = runnable(true);
  if (r.empty()) return;
  ++S->st.preempted;
  switchTo(r[target % r.size()]);
}
void wakeSpurious() {
  for (Thread* t : S->threads)
    if (t->state == OnCond) {
      t->state = Runnable;
      t->obj = nullptr;
      t->timed = false;
      note("spurious wakeup of T" + std::to_string(t->id));
      return;
    }
}
void checkPreempt() {
  Session& s = *S;
  while (s.nextPre < s.plan.preempts.size()) {
    const Preempt& p = s.plan.preempts[s.nextPre];
    if (p.sync > s.st.syncs || (p.sync == s.st.syncs && p.mem > s.memSince)) break;
    ++s.nextPre;
    if (tQuiet) continue;
    preemptTo(p.target);
  }
}
void syncPoint() {
  Session& s = *S;
  if (tQuiet) return;
  ++s.st.syncs;
  s.memSince = 0;
  tSelf->sinceSync = 0;
  if (s.st.syncs > 2000000) bad("livelock: two million synchronisation operations\n" + situation());
  while (s.nextSpurious < s.plan.spurious.size() && s.plan.spurious[s.nextSpurious] <= s.st.syncs) {
    ++s.nextSpurious;
    wakeSpurious();
  }
  checkPreempt();
  if (s.plan.walk && s.plan.syncRate && rnd() % s.plan.syncRate == 0) preemptTo(uint32_t(rnd() % 8));
}
inline void memStep() {
  if (!managed() || tQuiet) return;
  Session& s = *S;
  ++s.st.steps;
  ++s.memSince;
  if (s.nextPre < s.plan.preempts.size()) checkPreempt();
  if (s.plan.walk && s.plan.memRate && rnd() % s.plan.memRate == 0) preemptTo(uint32_t(rnd() % 8));
  if (++tSelf->sinceSync > 100000) {  // spinning: let the others run
    tSelf->sinceSync = 0;
    if (s.st.steps > 300000000) bad("livelock: three hundred million steps\n" + situation());
    preemptTo(0);
  }
}

void alive(const void* p, size_t n, const char* what) {
  if (!__asan_address_is_poisoned) return;
  if (__asan_address_is_poisoned(p) || __asan_address_is_poisoned((const char*)p + n - 1))
    bad(std::string(what) + " on a synchronisation object in freed memory\n" + situation());
}

// ---- mutexes and conditions ----------------------------------------------------------------------
int kindOf(const pthread_mutex_t* m) { return m->__data.__kind & 3; }
int lockMutex(pthread_mutex_t* m, bool try_, bool timed = false, int64_t deadline = 0) {
  alive(m, sizeof *m, "lock");
  for (;;) {
    Mutex& x = S->mutexes[m];
    if (!x.owner) { x.owner = tSelf; x.depth = 1; return 0; }
    if (x.owner == tSelf) {
      if (kindOf(m) == PTHREAD_MUTEX_RECURSIVE_NP) { ++x.depth; return 0; }
      if (try_) return EBUSY;
      if (kindOf(m) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
      if (!timed) bad("deadlock: T" + std::to_string(tSelf->id) + " locks mutex " + nameOf(m) + " which it holds already\n" + situation());
    } else if (try_) {
      return EBUSY;
    }
    tSelf->state = OnMutex;
    tSelf->obj = m;
    tSelf->timed = timed;
    tSelf->timedOut = false;
    tSelf->deadline = deadline;
    note("blocks on mutex " + nameOf(m));
    block();
    alive(m, sizeof *m, "lock");
    if (timed && tSelf->timedOut) return ETIMEDOUT;
  }
}
int unlockMutex(pthread_mutex_t* m) {
  alive(m, sizeof *m, "unlock");
  Mutex& x = S->mutexes[m];
  if (x.owner != tSelf) {
    if (kindOf(m) != 0) return EPERM;
    bad("T" + std::to_string(tSelf->id) + " unlocks mutex " + nameOf(m) + " which it does not hold\n" + situation());
  }
  if (--x.depth == 0) {
    x.owner = nullptr;
    for (Thread* t : S->threads)
      if (t->state == OnMutex && t->obj == m) { t->state = Runnable; t->obj = nullptr; t->timed = false; }
  }
  return 0;
}
int waitCond(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t deadline) {
  alive(c, sizeof *c, "wait");
  syncPoint();
  if (timed && deadline <= S->now) {
    // time is up, but others may get the mutex
    unlockMutex(m);
    syncPoint();
    lockMutex(m, false);
    return ETIMEDOUT;
  }
  note("waits on condition " + nameOf(c));
  const int depth = S->mutexes[m].depth;
  if (S->mutexes[m].owner != tSelf) bad("wait on a condition without holding its mutex\n" + situation());
  S->mutexes[m].depth = 1;
  unlockMutex(m);
  tSelf->state = OnCond;
  tSelf->obj = c;
  tSelf->timed = timed;
  tSelf->timedOut = false;
  tSelf->deadline = deadline;
  block();
  const bool out = tSelf->timedOut;
  tSelf->timedOut = false;
  lockMutex(m, false);
  S->mutexes[m].depth = depth;
  note(std::string("returns from condition ") + nameOf(c) + (out ? " (timeout)" : ""));
  return out ? ETIMEDOUT : 0;
}
int notify(pthread_cond_t* c, bool all) {
  alive(c, sizeof *c, "notify");
  syncPoint();
  alive(c, sizeof *c, "notify");
  std::vector<Thread*> w;
  for (Thread* t : S->threads)
    if (t->state == OnCond && t->obj == c) w.push_back(t);
  note(std::string(all ? "broadcasts" : "signals") + " condition " + nameOf(c) + " with " + std::to_string(w.size()) + " waiting");
  if (!all && !w.empty()) w = {w[choice(w.size())]};
  for (Thread* t : w) { t->state = Runnable; t->obj = nullptr; t->timed = false; }
  return 0;
}
int64_t ns(const timespec* t) { return int64_t(t->tv_sec) * 1000000000 + t->tv_nsec; }

// ---- threads -------------------------------------------------------------------------------------
void finishThread(Thread* t) {
  t->state = Done;
  for (Thread* o : S->threads)
    if (o->state == OnJoin && o->obj == t) { o->state = Runnable; o->obj = nullptr; }
  note("ends");
  Thread* n = pickNext();
  tSelf = nullptr;
  wake(n);
}
void keyDestructor(void* p) {
  Thread* t = static_cast<Thread*>(p);
  // after the destructors of other keys
  if (t->exitRounds++ < 2) { pthread_setspecific(gKey, p); return; }
  if (managed()) finishThread(t);
}
void* trampoline(void* p) {
  Thread* t = static_cast<Thread*>(p);
  waitTurn(t);
  tSelf = t;
  pthread_setspecific(gKey, t);
  return t->fn(t->arg);
}
Thread* find(pthread_t h) {
  for (size_t k = S->threads.size(); k-- > 1;) {  // handles are reused: the latest
    Thread* t = S->threads[k];
    if (!t->joined && pthread_equal(t->handle, h)) return t;
  }
  return nullptr;
}
void sleepUntil(int64_t when) {
  syncPoint();
  if (when <= S->now) { preemptTo(choice(8)); return; }
  tSelf->state = Sleeping;
  tSelf->obj = nullptr;
  tSelf->timed = true;
  tSelf->deadline = when;
  block();
  tSelf->timedOut = false;
}
int lockRw(pthread_rwlock_t* l, bool write, bool try_) {
  syncPoint();
  alive(l, sizeof *l, "lock");
  for (;;) {
    Rw& r = S->rws[l];
    const bool othersRead = !r.readers.empty();
    if (!r.writer && (!write || !othersRead)) {
      if (write) r.writer = tSelf;
      else ++r.readers[tSelf];
      return 0;
    }
    if (try_) return EBUSY;
    tSelf->state = OnRw;
    tSelf->obj = l;
    block();
  }
}
}  // namespace

void bad(const std::string& msg) {
  std::fprintf(stderr, "SCHED: %s\n", msg.c_str());
  std::fflush(stderr);
  std::abort();
}
int self() { return tSelf ? tSelf->id : -1; }
void point() { if (managed()) syncPoint(); }
int64_t clockNs() { return S ? S->now : 0; }
void advance(int64_t d) { if (S) S->now += d; }
void tick(int64_t d) { if (S) S->tickNs = d; }
Quiet::Quiet() { ++tQuiet; }
Quiet::~Quiet() { --tQuiet; }

std::string Plan::text() const {
  std::ostringstream os;
  for (const Preempt& p : preempts) os << "switch at " << p.sync << "+" << p.mem << "->" << p.target << " ";
  for (uint32_t x : spurious) os << "spurious at " << x << " ";
  if (!choices.empty()) { os << "choices"; for (uint32_t c : choices) os << " " << c; }
  if (walk) os << " walk seed " << seed << " rates 1/" << syncRate << " 1/" << memRate;
  return os.str();
}

Plan draw(pbt::Source& s, unsigned horizon, bool spurious) {
  Plan p;
  const unsigned n = unsigned(s.size(0, 5));
  for (unsigned k = 0; k < n; ++k) {
    Preempt q;
    q.sync = uint32_t(s.chance(1, 3) ? s.below(horizon) : s.below(1 + horizon / 3));
    if (s.chance(2, 3)) q.mem = uint32_t(s.logUniform(1, 400));
    q.target = uint32_t(s.below(4));
    p.preempts.push_back(q);
  }
  for (size_t i = 1; i < p.preempts.size(); ++i)
    for (size_t j = i; j > 0; --j) {
      Preempt &a = p.preempts[j - 1], &b = p.preempts[j];
      if (b.sync < a.sync || (b.sync == a.sync && b.mem < a.mem)) std::swap(a, b);
    }
  const unsigned c = unsigned(s.size(0, 12));
  for (unsigned k = 0; k < c; ++k) p.choices.push_back(uint32_t(s.below(5)));
  if (spurious && s.chance(1, 4)) {
    uint32_t at = 0;
    for (unsigned k = unsigned(s.size(1, 3)); k > 0; --k) p.spurious.push_back(at += 1 + uint32_t(s.below(horizon / 3 + 1)));
  }
  if (s.chance(1, 3)) {
    p.walk = true;
    p.seed = s.bits64() | 1;
    p.syncRate = s.pick({4u, 2u, 1u, 10u, 30u});
    p.memRate = s.pick({0u, 200u, 50u, 1000u, 10u});
  }
  return p;
}

Stats run(const Plan& plan, const std::function<void()>& body) {
  if (!gKeyMade) { pthread_key_create(&gKey, &keyDestructor); gKeyMade = true; }
  Session sess;
  sess.plan = plan;
  sess.rng = plan.seed | 1;
  Thread* main = new Thread();
  main->handle = pthread_self();
  sess.threads.push_back(main);
  S = &sess;
  tSelf = main;
  tQuiet = 0;
  gActive = true;
  try {
    body();
  } catch (const pbt::Failure& f) {  // the other threads are still there: this process cannot go on
    bad(f.msg);
  } catch (const std::exception& e) {
    bad(std::string("exception out of the first thread: ") + e.what());
  }
  tQuiet = 0;
  if (!allDone()) {
    main->state = Finishing;
    block();
  }
  gActive = false;
  tSelf = nullptr;
  Stats st = sess.st;
  st.threads = sess.threads.size();
  S = nullptr;
  return st;  // thread records stay: the threads may still be on their way out
}

}  // namespace sched

// ---- interposed functions ------------------------------------------------------------------------
using namespace sched;
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_mutex_lock)(m);
  syncPoint();
  return lockMutex(m, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_mutex_trylock)(m);
  syncPoint();
  return lockMutex(m, true);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) {
  if (!managed()) return REAL(pthread_mutex_timedlock)(m, t);
  syncPoint();
  return lockMutex(m, false, true, ns(t));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) {
  if (!managed()) return REAL(pthread_mutex_clocklock)(m, c, t);
  syncPoint();
  return lockMutex(m, false, true, ns(t));
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_mutex_unlock)(m);
  int r = unlockMutex(m);
  syncPoint();
  return r;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_mutex_destroy)(m);
  auto it = S->mutexes.find(m);
  if (it != S->mutexes.end()) {
    if (it->second.owner) bad("mutex " + nameOf(m) + " is destroyed while T" + std::to_string(it->second.owner->id) + " holds it\n" + situation());
    S->mutexes.erase(it);
  }
  for (Thread* t : S->threads)
    if (t->state == OnMutex && t->obj == m) bad("mutex " + nameOf(m) + " is destroyed while T" + std::to_string(t->id) + " waits for it\n" + situation());
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_cond_wait, "GLIBC_2.3.2")(c, m);
  return waitCond(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  if (!managed()) return REAL(pthread_cond_timedwait, "GLIBC_2.3.2")(c, m, t);
  return waitCond(c, m, true, ns(t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  if (!managed()) return REAL(pthread_cond_clockwait)(c, m, k, t);
  return waitCond(c, m, true, ns(t));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!managed()) return REAL(pthread_cond_signal, "GLIBC_2.3.2")(c);
  return notify(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!managed()) return REAL(pthread_cond_broadcast, "GLIBC_2.3.2")(c);
  return notify(c, true);
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!managed()) return REAL(pthread_cond_destroy, "GLIBC_2.3.2")(c);
  for (Thread* t : S->threads)
    if (t->state == OnCond && t->obj == c) bad("condition " + nameOf(c) + " is destroyed while T" + std::to_string(t->id) + " waits on it\n" + situation());
  return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!managed()) return REAL(pthread_create)(h, a, fn, arg);
  if (S->threads.size() > 200) bad("more than 200 threads");
  Thread* t = new Thread();
  t->fn = fn;
  t->arg = arg;
  t->id = int(S->threads.size());
  ++tQuiet;
  int r = REAL(pthread_create)(&t->handle, a, &trampoline, t);
  --tQuiet;
  if (r) { delete t; return r; }
  *h = t->handle;
  S->threads.push_back(t);
  note("creates T" + std::to_string(t->id));
  syncPoint();
  return 0;
}
int pthread_join(pthread_t h, void** ret) {
  if (!managed()) return REAL(pthread_join)(h, ret);
  syncPoint();
  Thread* t = find(h);
  if (t && t != tSelf && t->state != Done) {
    tSelf->state = OnJoin;
    tSelf->obj = t;
    block();
  }
  if (t == tSelf) return EDEADLK;
  if (t) t->joined = true;
  return REAL(pthread_join)(h, ret);
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!managed()) return REAL(pthread_once)(o, fn);
  syncPoint();
  for (;;) {
    auto& st = S->onces[o];
    if (st.first == 2) return 0;
    if (st.first == 0) break;
    if (st.second == tSelf) bad("deadlock: recursive pthread_once\n" + situation());
    tSelf->state = OnOnce;
    tSelf->obj = o;
    block();
  }
  S->onces[o] = std::make_pair(1, tSelf);
  struct Release {
    pthread_once_t* o;
    int to;
    ~Release() {
      if (to == 2) S->onces[o] = std::make_pair(2, (Thread*)nullptr);
      else S->onces.erase(o);
      for (Thread* t : S->threads)
        if (t->state == OnOnce && t->obj == o) { t->state = Runnable; t->obj = nullptr; }
    }
  } rel{o, 0};
  // the real once runs fn unless that has happened before the session
  int r = REAL(pthread_once)(o, fn);
  rel.to = 2;
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return managed() ? lockRw(l, false, false) : REAL(pthread_rwlock_rdlock)(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return managed() ? lockRw(l, true, false) : REAL(pthread_rwlock_wrlock)(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return managed() ? lockRw(l, false, true) : REAL(pthread_rwlock_tryrdlock)(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return managed() ? lockRw(l, true, true) : REAL(pthread_rwlock_trywrlock)(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!managed()) return REAL(pthread_rwlock_unlock)(l);
  Rw& r = S->rws[l];
  if (r.writer == tSelf) r.writer = nullptr;
  else if (r.readers.count(tSelf)) { if (--r.readers[tSelf] == 0) r.readers.erase(tSelf); }
  else bad("unlock of a rwlock that is not held\n" + situation());
  for (Thread* t : S->threads)
    if (t->state == OnRw && t->obj == l) { t->state = Runnable; t->obj = nullptr; }
  syncPoint();
  return 0;
}
int sched_yield() {
  if (!managed()) return REAL(sched_yield)();
  syncPoint();
  if (!tQuiet) preemptTo(0);
  return 0;
}
int nanosleep(const timespec* t, timespec* rem) {
  if (!managed()) return REAL(nanosleep)(t, rem);
  sleepUntil(S->now + ns(t));
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* rem) {
  if (!managed()) return REAL(clock_nanosleep)(c, flags, t, rem);
  sleepUntil((flags & TIMER_ABSTIME) ? ns(t) : S->now + ns(t));
  return 0;
}
int usleep(useconds_t u) {
  if (!managed()) return REAL(usleep)(u);
  sleepUntil(S->now + int64_t(u) * 1000);
  return 0;
}
unsigned sleep(unsigned x) {
  if (!managed()) return REAL(sleep)(x);
  sleepUntil(S->now + int64_t(x) * 1000000000);
  return 0;
}
int clock_gettime(clockid_t c, timespec* t) noexcept {
  if (!managed() || c == CLOCK_THREAD_CPUTIME_ID || c == CLOCK_PROCESS_CPUTIME_ID) return REAL(clock_gettime)(c, t);
  S->now += S->tickNs;
  t->tv_sec = S->now / 1000000000;
  t->tv_nsec = S->now % 1000000000;
  return 0;
}
int gettimeofday(timeval* t, void* z) noexcept {
  if (!managed()) return REAL(gettimeofday)(t, z);
  S->now += S->tickNs;
  t->tv_sec = S->now / 1000000000;
  t->tv_usec = S->now % 1000000000 / 1000;
  return 0;
}
time_t time(time_t* t) noexcept {
  if (!managed()) return REAL(time)(t);
  const time_t r = S->now / 1000000000;
  if (t) *t = r;
  return r;
}
long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (!managed() || n != SYS_futex) return REAL(syscall)(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  int* addr = reinterpret_cast<int*>(a[0]);
  const int op = int(a[1]) & 127 & ~FUTEX_CLOCK_REALTIME;
  syncPoint();
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    if (*reinterpret_cast<volatile int*>(addr) != int(a[2])) { errno = EAGAIN; return -1; }
    tSelf->state = OnFutex;
    tSelf->obj = addr;
    const timespec* t = reinterpret_cast<const timespec*>(a[3]);
    tSelf->timed = t != nullptr;
    tSelf->timedOut = false;
    if (t) tSelf->deadline = op == FUTEX_WAIT ? S->now + ns(t) : ns(t);
    block();
    if (tSelf->timedOut) { tSelf->timedOut = false; errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    long k = 0;
    for (Thread* t : S->threads)
      if (k < a[2] && t->state == OnFutex && t->obj == addr) { t->state = Runnable; t->obj = nullptr; t->timed = false; ++k; }
    return k;
  }
  return REAL(syscall)(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// initialisation of function-local statics
int __cxa_guard_acquire(uint64_t* g) {
  char* done = reinterpret_cast<char*>(g);
  if (!managed()) {
    // single-threaded use outside sessions, or the real one when other threads exist
    static int (*f)(uint64_t*) = realFn<int (*)(uint64_t*)>("__cxa_guard_acquire");
    return f(g);
  }
  for (;;) {
    if (*done) return 0;
    auto it = S->onces.find(g);
    if (it == S->onces.end()) break;
    if (it->second.second == tSelf) bad("recursive initialisation of a function-local static\n" + situation());
    tSelf->state = OnOnce;
    tSelf->obj = g;
    block();
  }
  S->onces[g] = std::make_pair(1, tSelf);
  return 1;
}
static void guardEnd(uint64_t* g, bool ok) {
  if (ok) *reinterpret_cast<char*>(g) = 1;
  S->onces.erase(g);
  for (Thread* t : S->threads)
    if (t->state == OnOnce && t->obj == g) { t->state = Runnable; t->obj = nullptr; }
}
void __cxa_guard_release(uint64_t* g) {
  if (!managed()) {
    static void (*f)(uint64_t*) = realFn<void (*)(uint64_t*)>("__cxa_guard_release");
    return f(g);
  }
  guardEnd(g, true);
}
void __cxa_guard_abort(uint64_t* g) {
  if (!managed()) {
    static void (*f)(uint64_t*) = realFn<void (*)(uint64_t*)>("__cxa_guard_abort");
    return f(g);
  }
  guardEnd(g, false);
}

// called by the instrumented code
void __sanitizer_cov_trace_pc() { memStep(); }
void __sanitizer_cov_load1(uint8_t*) { memStep(); }
void __sanitizer_cov_load2(uint16_t*) { memStep(); }
void __sanitizer_cov_load4(uint32_t*) { memStep(); }
void __sanitizer_cov_load8(uint64_t*) { memStep(); }
void __sanitizer_cov_load16(__uint128_t*) { memStep(); }
void __sanitizer_cov_store1(uint8_t*) { memStep(); }
void __sanitizer_cov_store2(uint16_t*) { memStep(); }
void __sanitizer_cov_store4(uint32_t*) { memStep(); }
void __sanitizer_cov_store8(uint64_t*) { memStep(); }
void __sanitizer_cov_store16(__uint128_t*) { memStep(); }
}
