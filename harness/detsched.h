// Deterministic scheduler: interposes the pthread primitives so that exactly one registered
// thread runs at a time and control changes hands only at gates (mutex lock, after mutex unlock,
// thread start, thread end, join, and explicit gates).  Which thread runs next is taken from a
// schedule (a list of thread numbers produced by the specification).
#pragma once
#include <pthread.h>
#include <dlfcn.h>
#include <vector>
#include <map>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
namespace sched {
typedef int (*mfn)(pthread_mutex_t *);
typedef int (*cfn)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*jfn)(pthread_t, void **);
inline mfn real_lock() { static mfn f = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_lock"); return f; }
inline mfn real_unlock() { static mfn f = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return f; }
inline cfn real_create() { static cfn f = (cfn)dlsym(RTLD_NEXT, "pthread_create"); return f; }
inline jfn real_join() { static jfn f = (jfn)dlsym(RTLD_NEXT, "pthread_join"); return f; }

struct Th { int state = 0; /*0 runnable 1 wants mutex 2 wants join 3 finished*/ pthread_mutex_t *m = nullptr; int j = -1; pthread_t id{}; bool started = false; };
inline pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
inline pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
inline bool active = false;
inline int current = 0;
inline std::vector<Th> th;
inline std::map<pthread_mutex_t *, int> owner;
inline std::vector<int> schedule;
inline size_t pos = 0;
inline size_t switches = 0;
inline int rr = 0;
inline thread_local int me = -1;
inline thread_local bool inside = false;
inline void (*on_deadlock)() = nullptr;
inline size_t create_count = 0;
inline int fail_create_at = -1; // make the n-th pthread_create fail with EAGAIN

inline bool enabled(int i) {
  Th &t = th[i];
  if (t.state == 3) return false;
  if (t.state == 1) { auto it = owner.find(t.m); return it == owner.end() || it->second < 0; }
  if (t.state == 2) return t.j < 0 || th[t.j].state == 3;
  return true;
}
// choose the next thread to run; called with big held
inline void choose() {
  int n = th.size(), pick = -1;
  if (pos < schedule.size()) {
    int w = schedule[pos++];
    if (w >= 0 && w < n && enabled(w)) pick = w;
    else { // first enabled after the wanted one
      for (int k = 1; k <= n && pick < 0; ++k) { int c = ((w % n) + n + k) % n; if (enabled(c)) pick = c; }
    }
  } else {
    for (int k = 1; k <= n && pick < 0; ++k) { int c = (current + k) % n; if (enabled(c)) pick = c; }
  }
  if (pick < 0) {
    bool all = true;
    for (auto &t : th) if (t.state != 3) all = false;
    if (!all) { if (on_deadlock) on_deadlock(); _exit(77); }
    return;
  }
  if (pick != current) ++switches;
  current = pick;
  pthread_cond_broadcast(&cv);
}
inline void wait_turn() { while (current != me) pthread_cond_wait(&cv, &big); }
inline void gate() {
  if (!active || me < 0 || inside) return;
  inside = true;
  real_lock()(&big);
  th[me].state = 0; choose(); wait_turn();
  real_unlock()(&big);
  inside = false;
}
inline void start(std::vector<int> const &s) { // the calling thread becomes thread 0
  schedule = s; pos = 0; switches = 0; th.assign(1, Th()); th[0].started = true; me = 0; current = 0; owner.clear(); create_count = 0; active = true;
}
inline void stop() { active = false; me = -1; }
struct Start { void *(*f)(void *); void *a; int n; };
inline void finish() {
  inside = true;
  real_lock()(&big);
  th[me].state = 3; choose();
  real_unlock()(&big);
  me = -1;
  inside = false;
}
inline void *trampoline(void *v) {
  Start s = *(Start *)v; delete (Start *)v;
  me = s.n;
  inside = true;
  real_lock()(&big); wait_turn(); real_unlock()(&big);
  inside = false;
  void *r = s.f(s.a);
  finish();
  return r;
}
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  using namespace sched;
  if (!active || me < 0 || inside || m == &big) return real_lock()(m);
  inside = true;
  real_lock()(&big);
  th[me].state = 1; th[me].m = m; choose(); wait_turn();
  th[me].state = 0; owner[m] = me;
  real_unlock()(&big);
  int r = real_lock()(m);
  inside = false;
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  using namespace sched;
  if (!active || me < 0 || inside || m == &big) return real_unlock()(m);
  inside = true;
  real_lock()(&big);
  int r = real_unlock()(m);
  owner[m] = -1;
  th[me].state = 0; choose(); wait_turn();
  real_unlock()(&big);
  inside = false;
  return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  using namespace sched;
  if (!active || me < 0 || inside) return real_create()(t, a, f, arg);
  if ((int)create_count++ == fail_create_at) return 11; // EAGAIN
  inside = true;
  real_lock()(&big);
  int n = th.size();
  th.push_back(Th()); th[n].started = true;
  auto *s = new Start{f, arg, n};
  int r = real_create()(t, a, trampoline, s);
  if (r) { th[n].state = 3; }
  else th[n].id = *t;
  choose(); wait_turn();
  real_unlock()(&big);
  inside = false;
  return r;
}
int pthread_join(pthread_t t, void **ret) {
  using namespace sched;
  if (!active || me < 0 || inside) return real_join()(t, ret);
  inside = true;
  real_lock()(&big);
  int n = -1;
  for (size_t i = 0; i < th.size(); ++i) if (th[i].started && i > 0 && pthread_equal(th[i].id, t)) n = i;
  th[me].state = 2; th[me].j = n; choose(); wait_turn();
  th[me].state = 0;
  real_unlock()(&big);
  int r = real_join()(t, ret);
  inside = false;
  return r;
}
}
