// replays Transfer.tla behaviours: rays through an object whose encounters are given by the script
#include "drv.h"
#include "GyotoScenery.h"
#include "GyotoAstrobj.h"
#include "GyotoPhoton.h"
#include "GyotoMetric.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoUtils.h"
#include "GyotoRegister.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoFactoryMessenger.h"
#include <map>
#include <cfloat>
#include <cmath>
using namespace Gyoto;
static const size_t NS = 2;
struct Enc { double em; int s; double tr[NS + 1]; std::string m[NS]; bool same; };
static std::vector<Enc> encs; static bool consistent = true, noshift = false; static double nuobs[NS], nub[NS + 1];
static Eigen::Matrix4d mueller(std::string const &m) {
  Eigen::Matrix4d M = Eigen::Matrix4d::Identity();
  if (m == "half") M *= .5; else if (m == "zero") M.setZero();
  else if (m == "rot") M << 1,0,0,0, 0,0,-1,0, 0,1,0,0, 0,0,0,1;
  else if (m == "polp") M << .5,.5,0,0, .5,.5,0,0, 0,0,0,0, 0,0,0,0;
  else if (m == "polm") M << .5,-.5,0,0, -.5,.5,0,0, 0,0,0,0, 0,0,0,0;
  return M;
}
class Probe : public Astrobj::Generic {
  friend class SmartPointer<Probe>;
public:
  GYOTO_OBJECT;
  mutable Enc const *cur = NULL; mutable double gm1 = 1., ds = 0.; std::map<size_t, double> when;
  Probe() : Generic("Probe") {}
  Probe(Probe const &o) : Generic(o) {}
  Probe *clone() const override { return new Probe(*this); }
  double rMax() override { return 150.; }
  double rMax() const override { return 150.; }
  double deltaMax(double *) override { return 1.; }
  using Generic::radiativeQ; using Generic::emission; using Generic::integrateEmission;
  bool near(double a, double b) const { return fabs(a - b) <= 1e-9 * fabs(b); }
  void check(bool b) const { if (!b) consistent = false; }
  int chan(double nu) const { if (near(nu, gm1)) return 0; for (size_t i = 0; i < NS; ++i) if (near(nu, nuobs[i] * gm1)) return i + 1; consistent = false; return 0; }
  double em(int c) const { return cur->em * (1 + c); }
  double emission(double nu, double dsem, state_t const &, double const *) const override { check(near(dsem, ds)); return em(chan(nu)); }
  double transmission(double nu, double dsem, state_t const &, double const *) const override { check(near(dsem, ds)); return cur->tr[chan(nu)]; }
  double integrateEmission(double nu1, double nu2, double dsem, state_t const &, double const *) const override {
    check(near(dsem, ds)); for (size_t i = 0; i < NS; ++i) if (near(nu1, nub[i] * gm1) && near(nu2, nub[i + 1] * gm1)) return em(i + 1); consistent = false; return 0.; }
  void radiativeQ(double *I, double *T, double const *nu, size_t n, double dsem, state_t const &, double const *) const override {
    check(near(dsem, ds) && n == NS); for (size_t i = 0; i < n; ++i) { int c = chan(nu[i]); I[i] = em(c); T[i] = cur->tr[c]; } }
  void radiativeQ(double *I, double *Q, double *U, double *V, Eigen::Matrix4d *O, double const *nu, size_t n, double dsem, state_t const &, double const *) const override {
    check(near(dsem, ds) && n == NS); for (size_t i = 0; i < n; ++i) { int c = chan(nu[i]); check(c == int(i) + 1); I[i] = 4 * em(c); Q[i] = cur->em * (c + 2); U[i] = -cur->em; V[i] = 2 * cur->em * c; O[i] = mueller(cur->m[i]); } }
  int Impact(Photon *ph, size_t index, Astrobj::Properties *d) override {
    size_t n = ph->getI0() - index; if (n % 3) return 0;
    size_t step = n / 3, k = 0, at = 0; int hit = 0;   // encounters of that step
    for (k = 0; k < encs.size(); ++k) { if (k == 0 || !encs[k].same) ++at; if (at != step) continue;
      state_t c; ph->getCoord(index, c); double o[8]; for (int i = 0; i < 4; ++i) o[i] = c[i]; o[5] = o[6] = o[7] = 0.;
      cur = &encs[k]; double g = pow(2., noshift ? 0 : cur->s); o[4] = pow(2., -cur->s) / c[4]; gm1 = 1. / g; double dt = .25 + k; ds = dt / c[4] * gm1;
      when[k + 1] = c[0]; hit = 1;
      if (d) processHitQuantities(ph, c, o, dt, d); }
    return hit;
  }
};
GYOTO_PROPERTY_START(Probe, "probe")
GYOTO_PROPERTY_END(Probe, Generic::properties)
static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
static void script(std::vector<std::string> const &lines) {
  std::vector<std::string> pl{"stdplug"}; SmartPointer<Metric::Generic> gg = (*Metric::getSubcontractor("Minkowski", pl))(NULL, pl); gg->set("Spherical", Value(true));
  SmartPointer<Screen> scr = new Screen(); scr->metric(gg); scr->resolution(4); scr->distance(100., "geometrical"); scr->inclination(0.7); scr->fieldOfView(0.3);
  SmartPointer<Spectrometer::Uniform> sp = new Spectrometer::Uniform(); sp->kind("freq"); sp->nSamples(NS); sp->band({1e14, 2e14}, "Hz");
  for (size_t i = 0; i < NS; ++i) nuobs[i] = sp->getMidpoints()[i]; for (size_t i = 0; i <= NS; ++i) nub[i] = 1e14 + i * 1e14 / NS;
  SmartPointer<Probe> ob = new Probe(); ob->metric(gg); SmartPointer<Astrobj::Generic> og = ob;
  SmartPointer<Scenery> s = new Scenery(gg, scr, og); s->delta(1.); s->adaptive(false);
  for (auto &ln : lines) { // ray <how> <polar> <spectro> <noshift> <offset> <want,..> | em s tr0 tr1 tr2 m1 m2 same | ...
    auto w = drv::split(ln); std::string how = w[1]; bool polar = w[2] == "1", spec = w[3] == "1"; noshift = w[4] == "1"; size_t off = atoi(w[5].c_str());
    std::string want = "," + w[6] + ","; encs.clear(); ob->when.clear(); consistent = true;
    for (size_t k = 7; k + 8 < w.size() + 0; k += 9) { Enc e; e.em = ::atof(w[k + 1].c_str()); e.s = atoi(w[k + 2].c_str()); for (int i = 0; i < 3; ++i) e.tr[i] = ::atof(w[k + 3 + i].c_str()) / 2.; e.m[0] = w[k + 6]; e.m[1] = w[k + 7]; e.same = w[k + 8] == "1"; encs.push_back(e); }
    std::ostringstream o; std::string res = "ok"; int hit = 0;
    try {
      ob->redshift(!noshift);
      if (spec) scr->spectrometer(sp); else scr->spectrometer(NULL);
      s->parallelTransport(polar);
      auto has = [&](const char *x) { return want.find(std::string(",") + x + ",") != std::string::npos; };
      std::map<std::string, std::vector<double>> b; Astrobj::Properties d; d.offset = off; size_t sz = 1 + off * NS;
      auto mk = [&](const char *x) -> double * { if (!has(x)) return NULL; b[x].assign(sz, -3e99); return b[x].data(); };
      d.intensity = mk("Intensity"); d.spectrum = mk("Spectrum"); d.binspectrum = mk("BinSpectrum"); d.stokesQ = mk("Q"); d.stokesU = mk("U"); d.stokesV = mk("V"); d.redshift = mk("Redshift"); d.time = mk("Time");
      Astrobj::Properties *dp = want == ",none," ? NULL : &d;
      s->screen()->computeBaseVectors();
      if (how == "scenery") { (*s)(size_t(2), size_t(2), dp); hit = !ob->when.empty(); }
      else { Photon ph; ph.metric(gg); ph.astrobj(og); ph.parallelTransport(polar); ph.delta(1.); ph.adaptive(false); if (spec) ph.spectrometer(sp); ph.setInitialCondition(gg, og, scr, 0.01, 0.02);
        if (dp) dp->init(spec ? NS : 0); hit = ph.hit(dp); }
      o << res << " " << consistent << " " << hit << " " << ob->when.size();
      for (auto &x : b) { o << " " << x.first; std::string const &n = x.first; auto &v = x.second;
        if (n == "Redshift") o << " " << num(v[0]);
        else if (n == "Time") { int k = 0; for (auto &y : ob->when) if (y.second == v[0]) { k = y.first; } o << " " << k; }
        else if (n == "Intensity") o << " " << num(v[0]);
        else for (size_t i = 0; i < NS; ++i) o << " " << num(v[i * off]);
        // cells in between are not written
        for (size_t i = 0; i < sz; ++i) { bool own = (n == "Intensity" || n == "Redshift" || n == "Time") ? i == 0 : (i % off == 0 && i / off < NS); if (!own && v[i] != -3e99) consistent = false; } }
      o << " " << (consistent ? "own" : "stray");
    } catch (Gyoto::Error &e) { o.str(""); o << "error " << drv::clean(e.get_message()); }
    drv::obs(o.str());
  }
}
int main() { Register::init(); verbose(0); return drv::loop(script); }
