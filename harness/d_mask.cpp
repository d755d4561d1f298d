// replays Mask.tla behaviours on Gyoto screens
#include "drv.h"
#include "GyotoScenery.h"
#include "GyotoAstrobj.h"
#include "GyotoPhoton.h"
#include "GyotoMetric.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoUtils.h"
#include "GyotoRegister.h"
#include "GyotoFactory.h"
#include "GyotoFactoryMessenger.h"
#include <fitsio.h>
#include <map>
#include <cfloat>
#include <cmath>
#include <sys/stat.h>
using namespace Gyoto;
class Probe : public Astrobj::Generic {
  friend class SmartPointer<Probe>;
public:
  GYOTO_OBJECT;
  Probe() : Generic("Probe") {}
  Probe(Probe const &o) : Generic(o) {}
  Probe *clone() const override { return new Probe(*this); }
  double rMax() override { return DBL_MAX; }
  double rMax() const override { return DBL_MAX; }
  double deltaMax(double *) override { return 1.; }
  int Impact(Photon *ph, size_t, Astrobj::Properties *d) override { if (d && d->intensity) *d->intensity = 1.; ph->transmit(size_t(-1), 0.); return 1; }
};
GYOTO_PROPERTY_START(Probe, "probe")
GYOTO_PROPERTY_END(Probe, Generic::properties)
static std::map<std::string, SmartPointer<Screen>> S;
static SmartPointer<Metric::Generic> gg;
static std::string observe(SmartPointer<Screen> &s, int nth) {
  std::ostringstream o; size_t n = s->resolution(); o << n << ";";
  if (s->mask()) for (size_t k = 0; k < n * n; ++k) o << s->mask()[k] * 4 << " ";
  std::string f = s->maskFile(); if (!f.empty() && f[0] == '!') f = f.substr(1);
  size_t sl = f.rfind('/'); if (sl != std::string::npos) f = f.substr(sl + 1);
  o << ";" << f << ";";
  for (size_t j = 1; j <= n; ++j) for (size_t i = 1; i <= n; ++i) o << ((*s)(i, j) ? 1 : 0) << " ";
  o << ";";
  SmartPointer<Astrobj::Generic> ob = new Probe(); ob->metric(gg);
  Scenery sc(gg, s, ob); sc.nThreads(nth); sc.delta(1.);
  std::vector<double> im(n * n, -7.); Astrobj::Properties d; d.intensity = im.data(); d.alloc = true;
  Screen::Range r1(1, n, 1), r2(1, n, 1); Screen::Grid g(r1, r2);
  sc.rayTrace(g, &d);
  for (auto v : im) o << (v == 1. ? 1 : v == 0. ? 0 : -1) << " ";
  int bad = 0; size_t e[4][2] = {{0, 1}, {1, 0}, {n + 1, 1}, {1, n + 1}};
  for (auto &x : e) try { (*s)(x[0], x[1]); ++bad; } catch (Gyoto::Error &) {}
  o << ";" << bad;
  return o.str();
}
static void mk(const char *name, long nx, long ny, long nz, std::vector<double> v) {
  fitsfile *f = 0; int st = 0; long ax[3] = {nx, ny, nz}, fp[3] = {1, 1, 1};
  fits_create_file(&f, name, &st); fits_create_img(f, DOUBLE_IMG, nz > 1 ? 3 : 2, ax, &st); fits_write_pix(f, TDOUBLE, fp, v.size(), v.data(), &st); fits_close_file(f, &st);
}
static void script(std::vector<std::string> const &lines) {
  char dir[] = "mXXXXXX"; if (!mkdtemp(dir) || chdir(dir)) _exit(7);
  mk("mp", 2, 2, 2, {.25, 0, 0, .5, 1, 1, 1, 1}); mk("ns", 3, 2, 1, {1, 0, 1, 0, 1, 0}); mk("tr", 3, 3, 1, std::vector<double>(9, 1.)); if (truncate("tr", 2890)) _exit(7);
  std::vector<std::string> pl{"stdplug"}; gg = (*Metric::getSubcontractor("Minkowski", pl))(NULL, pl);
  for (auto k : {"a", "b"}) { SmartPointer<Screen> s = new Screen(); s->metric(gg); s->resolution(2); s->distance(100., "geometrical"); s->inclination(0.7); s->fieldOfView(0.3); S[k] = s; }
  for (auto &ln : lines) {
    auto w = drv::split(ln); std::string const &op = w[0]; std::string res = "ok";
    if (op == "obs") { drv::obs(observe(S[w[1]], atoi(w[2].c_str()))); continue; }
    SmartPointer<Screen> &s = S[w[1]];
    try {
      if (op == "set") { std::vector<double> m; for (size_t k = 3; k < w.size(); ++k) m.push_back(atoi(w[k].c_str()) / 4.); size_t n = atoi(w[2].c_str()); if (n == s->resolution()) s->mask(m.data()); else s->mask(m.data(), n); }
      else if (op == "drop") s->mask(NULL);
      else if (op == "res") { if (w[3] == "p") s->set("Resolution", Value((size_t)atoi(w[2].c_str()))); else s->resolution(atoi(w[2].c_str())); }
      else if (op == "save") s->fitsWriteMask(w[2]);
      else if (op == "savenoname") s->fitsWriteMask("");
      else if (op == "load") { if (w[3] == "p") s->set("Mask", Value(w[2])); else if (w[3] == "i") s->maskFile(w[2]); else s->fitsReadMask(w[2]); }
      else if (op == "clone") S[w[2]] = s->clone();
      else if (op == "xml") { std::string x = Factory(s).format(); std::vector<char> b(x.begin(), x.end()); b.push_back(0); Factory f(b.data()); SmartPointer<Screen> n = f.screen(); n->metric(gg); S[w[2]] = n; }
      else res = "badcommand";
    } catch (Gyoto::Error &e) { res = "error " + drv::clean(e.get_message()); }
    drv::obs(res);
  }
}
int main() { Register::init(); verbose(0); return drv::loop(script); }
