// replays Hooks.tla behaviours on Gyoto::Hook::Teller / Listener
#include "drv.h"
#include "GyotoHooks.h"
#include <map>
#include <memory>
using namespace Gyoto;
static std::map<std::pair<int,int>, int> told;
struct T : Hook::Teller {
  int id; T(int i) : id(i) {}
  T(T const &o, int i) : Teller(o), id(i) {}
  void announce() { tellListeners(); }
};
struct L : Hook::Listener {
  int id; L(int i) : id(i) {}
  void tell(Hook::Teller *m) override;
};
static std::map<int, std::unique_ptr<T>> ts;
static std::map<int, std::unique_ptr<L>> ls;
void L::tell(Hook::Teller *m) {
  int who = 0;
  for (auto &p : ts) if (static_cast<Hook::Teller*>(p.second.get()) == m) who = p.first;
  told[{who, id}]++;
  if (id > 100) ts[id - 100]->announce();
}
static void script(std::vector<std::string> const &lines) {
  for (int i = 1; i <= 4; ++i) ts[i].reset(new T(i));
  for (auto &ln : lines) {
    auto w = drv::split(ln);
    std::string op = w[0]; int a = atoi(w[1].c_str()), b = atoi(w[2].c_str());
    auto lis = [&](int i) { auto &p = ls[i]; if (!p) p.reset(new L(i)); return p.get(); };
    if (op == "hook") { ts[a]->hook(lis(b)); drv::obs("."); }
    else if (op == "unhook") { ts[a]->unhook(lis(b)); drv::obs("."); }
    else if (op == "copy") { std::unique_ptr<T> n(new T(*ts[a], b)); ts[b] = std::move(n); drv::obs("."); }
    else if (op == "renew") { ts[a].reset(); ts[a].reset(new T(a)); drv::obs("."); }
    else if (op == "tell") {
      told.clear(); ts[a]->announce();
      std::ostringstream o; o << ".";
      for (auto &p : told) o << " " << p.first.first << "," << p.first.second << "," << p.second;
      drv::obs(o.str());
    }
  }
}
int main() { return drv::loop(script); }
