// replays SmartPtr.tla and SmartPtrMT.tla behaviours on Gyoto::SmartPointer
#include "drv.h"
#include "detsched.h"
#include "GyotoSmartPointer.h"
#include <map>
#include <set>
#include <new>
using namespace Gyoto;
struct B;
static const int NO = 6;
static B *live[NO + 1];
static std::vector<int> died;
struct B : SmartPointee {
  int id; int magic = 0x600d; SmartPointer<B> child;
  static int fresh() { for (int i = 1; i <= NO; ++i) if (!live[i]) return i; return 0; }
  B() : id(fresh()) { live[id] = this; }
  B(B const &o) : SmartPointee(o), id(fresh()), child(o.child) { live[id] = this; }
  B &operator=(B const &o) { SmartPointee::operator=(o); child = o.child; return *this; }
  virtual ~B() { died.push_back(id); if (live[id] == this) live[id] = nullptr; magic = 0xdead; }
  virtual B *dup() const { return new B(*this); }
  // memory of dead objects is kept so that a premature or double destruction is observed, not undefined
  static void *operator new(size_t s) { return malloc(s); }
  static void operator delete(void *p, size_t n) { memset(p, 0xdd, n); }
};
struct D : B { D() {} D(D const &o) : B(o) {} B *dup() const override { return new D(*this); } };
typedef SmartPointer<B> PB; typedef SmartPointer<D> PD;

template <class P, class Q> void cast_to(P *dst, Q &src, std::string const &f) {
  if (f == "ctor") { PB keep; dst->~P(); new (dst) P(src); }
  else if (f == "temp") { *dst = P(src); }
}
template <class P> void same(P *dst, P &src, std::string const &f) {
  if (f == "smart") *dst = src;
  else if (f == "const") { P const &c = src; *dst = c; }
  else if (f == "raw") { auto *r = src.operator->(); *dst = r; }
  else if (f == "temp") *dst = P(src);
  else if (f == "ctor") { if (dst == &src) return; P *q = dst; P tmp(src); q->~P(); new (q) P(tmp); }
}
template <class P> void same0(P *dst, P &src, std::string const &f) {
  if (f == "raw" && src() == nullptr) { *dst = (decltype(src.operator->()))nullptr; return; }
  same(dst, src, f);
}
static void single(std::vector<std::string> const &lines) {
  alignas(PB) static char b1[sizeof(PB)], b2[sizeof(PB)], b3[sizeof(PD)];
  PB *r[3] = {nullptr, new (b1) PB, new (b2) PB}; PD *d = new (b3) PD;
  for (auto &ln : lines) {
    auto w = drv::split(ln); std::string op = w[0], f = w[3]; int a = atoi(w[1].c_str()), b = atoi(w[2].c_str());
    died.clear(); bool err = false;
    try {
      if (op == "new") {
        if (a == 3) *d = new D; else if (f == "D") *r[a] = new D; else *r[a] = new B;
      } else if (op == "assign") {
        if (a == 3 && b == 3) same0(d, *d, f);
        else if (a == 3) { PB tmp(*r[b]); cast_to(d, tmp, f); }
        else if (b == 3) { PD tmp(*d); cast_to(r[a], tmp, f); }
        else same0(r[a], *r[b], f);
      } else if (op == "null") {
        if (f == "null") { if (a == 3) *d = (D *)nullptr; else *r[a] = (B *)nullptr; }
        else if (a == 3) { d->~PD(); new (d) PD; } else { r[a]->~PB(); new (r[a]) PB; }
      } else if (op == "setchild") {
        PB src; if (b == 3) src = PB(*d); else src = *r[b];
        if (a == 3) (*d)->child = src; else (*r[a])->child = src;
      } else if (op == "takechild") {
        PB &src = b == 3 ? (*d)->child : (*r[b])->child;
        if (a == 3) { if (f == "ctor") { PB tmp(src); cast_to(d, tmp, f); } else *d = PD(src); }
        else same0(r[a], src, f);
      } else if (op == "valcopy") {
        B &dst = a == 3 ? **d : **r[a]; B &src = b == 3 ? **d : **r[b];
        dst = src;
      } else if (op == "clone") {
        B &src = b == 3 ? **d : **r[b];
        if (a == 3) *d = dynamic_cast<D *>(src.dup()); else *r[a] = src.dup();
      }
    } catch (Gyoto::Error &) { err = true; }
    std::ostringstream o; o << err << " ;";
    for (int x : died) o << " " << x;
    o << " ;";
    for (int i = 1; i <= 3; ++i) {
      B const *p = i == 3 ? (B const *)(*d)() : (*r[i])();
      o << " " << (p ? (p->magic == 0x600d ? p->id : -1) : 0);
    }
    o << " ;";
    for (int i = 1; i <= NO; ++i) o << " " << (live[i] ? live[i]->getRefCount() : 0);
    drv::obs(o.str());
  }
}
// ---- threads ---------------------------------------------------------------
struct Job { int id; PB p; std::string ops; };
static std::vector<std::string> evs; static pthread_mutex_t evm = PTHREAD_MUTEX_INITIALIZER;
static void ev(std::string const &s) { sched::real_lock()(&evm); evs.push_back(s); sched::real_unlock()(&evm); }
struct S : B { ~S() { ev("destroyed 0"); } };
static void *work(void *v) {
  Job *j = (Job *)v; std::vector<PB *> mine; mine.push_back(&j->p);
  std::vector<PB *> own;
  for (char c : j->ops) {
    sched::gate();
    if (c == 'c') { PB *q = new PB(*mine.back()); mine.push_back(q); ev("copied " + std::to_string(j->id)); }
    else { PB *q = mine.back(); mine.pop_back(); ev("drop " + std::to_string(j->id)); if (q == &j->p) *q = (B *)nullptr; else delete q; }
  }
  sched::gate();
  return nullptr;
}
static void multi(std::vector<std::string> const &lines) {
  // line 0: MT ops1 ops2 ... ; line 1: S schedule ; line 2: R rounds (free-running threads)
  auto w = drv::split(lines[0]); auto s = drv::split(lines[1]);
  std::vector<int> sc; for (size_t i = 1; i < s.size(); ++i) sc.push_back(atoi(s[i].c_str()));
  int n = w.size() - 1;
  std::vector<Job> jobs(n);
  { PB first(new S); for (int i = 0; i < n; ++i) { jobs[i].id = i + 1; jobs[i].p = first; jobs[i].ops = w[i + 1]; } }
  std::vector<pthread_t> t(n);
  bool controlled = s[0] == "S";
  if (controlled) sched::start(sc);
  for (int i = 0; i < n; ++i) pthread_create(&t[i], nullptr, work, &jobs[i]);
  for (int i = 0; i < n; ++i) pthread_join(t[i], nullptr);
  if (controlled) sched::stop();
  std::ostringstream o;
  for (auto &e : evs) o << e << ";";
  drv::obs(o.str()); drv::obs(".");
}
static void script(std::vector<std::string> const &lines) {
  if (lines[0].compare(0, 2, "MT") == 0) multi(lines); else single(lines);
}
int main() { return drv::loop(script); }
