// replays RayTrace.tla configurations and schedules on Scenery::rayTrace
#include "drv.h"
#include "detsched.h"
#include "pixsel.h"
#include "GyotoScenery.h"
#include "GyotoAstrobj.h"
#include "GyotoPhoton.h"
#include "GyotoMetric.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoProperty.h"
#include "GyotoUtils.h"
#include "GyotoRegister.h"
#include "GyotoFactoryMessenger.h"
#include <map>
#include <cfloat>
#include <cmath>
using namespace Gyoto;
typedef std::pair<int, int> Pt;
struct Key { double v[8]; bool operator<(Key const &o) const { return std::lexicographical_compare(v, v + 8, o.v, o.v + 8); } };
static std::map<Key, int> table;      // initial condition -> code of the point
static std::vector<std::string> evs;
static pthread_mutex_t evm = PTHREAD_MUTEX_INITIALIZER;
static void log(std::string const &s) { sched::real_lock()(&evm); evs.push_back(s); sched::real_unlock()(&evm); }
static const size_t NSP = 3;
static const double BASE = 5000.;

class Probe : public Astrobj::Generic {
  friend class SmartPointer<Probe>;
public:
  GYOTO_OBJECT;
  Probe() : Generic("Probe") {}
  Probe(Probe const &o) : Generic(o) {}
  Probe *clone() const override { return new Probe(*this); }
  double rMax() override { return DBL_MAX; }
  double rMax() const override { return DBL_MAX; }
  double deltaMax(double *) override { return 1.; }
  int Impact(Photon *ph, size_t index, Astrobj::Properties *d) override {
    state_t c; ph->getInitialCoord(c);
    Key k; for (int i = 0; i < 8; ++i) k.v[i] = c[i];
    auto it = table.find(k);
    int code = it == table.end() ? -9 : it->second;
    if (index + 1 == ph->getI0()) log("v " + std::to_string(code));
    sched::gate();
    if (d) {
      double x = BASE + code;
      if (d->intensity) *d->intensity = x;
      sched::gate();
      if (d->time) *d->time = x + .01;
      if (d->distance) *d->distance = x + .02;
      if (d->first_dmin) *d->first_dmin = x + .03;
      if (d->redshift) *d->redshift = x + .04;
      if (d->user1) *d->user1 = x + .05;
      if (d->user2) *d->user2 = x + .06;
      if (d->user3) *d->user3 = x + .07;
      if (d->user4) *d->user4 = x + .08;
      if (d->user5) *d->user5 = x + .09;
      for (size_t i = 0; i < NSP; ++i) {
        if (d->spectrum) d->spectrum[i * d->offset] = x + .1 + .001 * i;
        if (d->stokesQ) d->stokesQ[i * d->offset] = x + .2 + .001 * i;
        if (d->stokesU) d->stokesU[i * d->offset] = x + .3 + .001 * i;
        if (d->stokesV) d->stokesV[i * d->offset] = x + .4 + .001 * i;
        if (d->binspectrum) d->binspectrum[i * d->offset] = x + .5 + .001 * i;
      }
      if (d->impactcoords) for (int i = 0; i < 16; ++i) d->impactcoords[i] = x + .6 + .001 * i;
    }
    ph->transmit(size_t(-1), 0.);
    for (size_t i = 0; i < NSP; ++i) ph->transmit(i, 0.);
    return 1;
  }
};
GYOTO_PROPERTY_START(Probe, "probe")
GYOTO_PROPERTY_END(Probe, Generic::properties)

static std::string run(std::vector<std::string> const &lines) {
  size_t npix = 4; int nth = 1; bool full = false, nodata = false; std::string qsel = "all"; std::vector<int> sc; int stretch = 1; bool sch = false, hasmask = false;
  std::vector<double> mask; PixSel ps; int failat = -1;
  ps.unit = 1e-3;
  std::vector<std::string> selw;
  for (auto &ln : lines) {
    auto w = drv::split(ln);
    if (w[0] == "npix") npix = atoi(w[1].c_str());
    else if (w[0] == "threads") nth = atoi(w[1].c_str());
    else if (w[0] == "full") full = atoi(w[1].c_str());
    else if (w[0] == "q") qsel = w[1];
    else if (w[0] == "nodata") nodata = true;
    else if (w[0] == "fail") failat = atoi(w[1].c_str());
    else if (w[0] == "mask") { hasmask = true; mask.assign(npix * npix, 0.); for (size_t k = 1; k < w.size(); k += 2) mask[(atoi(w[k + 1].c_str()) - 1) * npix + atoi(w[k].c_str()) - 1] = 1.; }
    else if (w[0] == "sel") selw = w;
    else if (w[0] == "sched") { sch = true; stretch = atoi(w[1].c_str()); for (size_t k = 2; k < w.size(); ++k) for (int s = 0; s < stretch; ++s) sc.push_back(atoi(w[k].c_str())); }
  }
  auto two = ps.make(selw, 1); (void)two;
  std::vector<std::string> pl{"stdplug"}; SmartPointer<Metric::Generic> gg = (*Metric::getSubcontractor("Minkowski", pl))(NULL, pl);
  SmartPointer<Screen> scr = new Screen();
  scr->metric(gg); scr->resolution(npix); scr->distance(100., "geometrical"); scr->inclination(0.7); scr->fieldOfView(0.3);
  SmartPointer<Spectrometer::Uniform> sp = new Spectrometer::Uniform(); sp->kind("freq"); sp->nSamples(NSP); sp->band({1e14, 2e14}, "Hz"); 
  scr->spectrometer(sp);
  SmartPointer<Astrobj::Generic> ob = new Probe();
  ob->metric(gg);
  Scenery S(gg, scr, ob);
  S.nThreads(nth);
  S.delta(1.);
  // what each point looks like from the object
  scr->computeBaseVectors();
  double E1[4], E2[4];
  for (size_t j = 1; j <= npix; ++j) for (size_t i = 1; i <= npix; ++i) { Key k; scr->getRayTriad(i, j, k.v, false, E1, E2); Photon p(gg, ob, k.v); state_t c; p.getInitialCoord(c); for (int q = 0; q < 8; ++q) k.v[q] = c[q]; table[k] = 10 * j + i; }
  for (int j = 0; j <= 4; ++j) for (int i = 0; i <= 4; ++i) { Key k; scr->getRayTriad(i * ps.unit, j * ps.unit, k.v, false, E1, E2); Photon p(gg, ob, k.v); state_t c; p.getInitialCoord(c); for (int q = 0; q < 8; ++q) k.v[q] = c[q]; table.insert({k, 1000 + 10 * j + i}); }
  if (hasmask) scr->mask(mask.data(), npix);
  size_t nc = npix * npix + 4, off = nc;
  const double SENT = -7.25;
  std::vector<std::string> names; std::map<std::string, std::vector<double>> buf;
  Astrobj::Properties d;
  auto want = [&](std::string n) { return qsel == "all" || ("," + qsel + ",").find("," + n + ",") != std::string::npos; };
  auto sca = [&](std::string n) -> double * { if (!want(n)) return nullptr; buf[n].assign(nc, SENT); return buf[n].data(); };
  auto spe = [&](std::string n) -> double * { if (!want(n)) return nullptr; buf[n].assign(nc * NSP, SENT); return buf[n].data(); };
  d.intensity = sca("I"); d.time = sca("t"); d.distance = sca("d"); d.first_dmin = sca("f"); d.redshift = sca("r");
  d.user1 = sca("u1"); d.user2 = sca("u2"); d.user3 = sca("u3"); d.user4 = sca("u4"); d.user5 = sca("u5");
  d.spectrum = spe("S"); d.stokesQ = spe("Q"); d.stokesU = spe("U"); d.stokesV = spe("V"); d.binspectrum = spe("B");
  if (want("C")) { buf["C"].assign(nc * 16, SENT); d.impactcoords = buf["C"].data(); }
  d.offset = off; d.alloc = full;
  if (sch) { sched::fail_create_at = failat; sched::start(sc); }
  std::string status = "ok";
  try { S.rayTrace(*ps.s, nodata ? nullptr : &d); } catch (Gyoto::Error &e) { status = "error"; }
  if (sch) sched::stop();
  // summarise each cell over all quantities
  std::ostringstream o; o << status << ";";
  for (auto &e : evs) o << e.substr(2) << " ";
  o << ";";
  for (size_t c = 0; c < nc; ++c) {
    int tok = -100; // undetermined
    auto see = [&](double v, double extra, double nothing) {
      int t;
      if (v == SENT) t = -1; else if (v == nothing) t = 0;
      else { double x = v - BASE - extra; t = std::fabs(x - std::round(x)) < 1e-6 ? (int)std::round(x) : -50; if (t <= 0) t = -50; }
      if (tok == -100) tok = t; else if (tok != t) tok = -60;
    };
    auto S1 = [&](const char *n, double e, double nul) { auto it = buf.find(n); if (it != buf.end()) see(it->second[c], e, nul); };
    S1("I", 0, 0.); S1("t", .01, DBL_MAX); S1("d", .02, DBL_MAX); S1("f", .03, DBL_MAX); S1("r", .04, 0.);
    S1("u1", .05, 0.); S1("u2", .06, 0.); S1("u3", .07, 0.); S1("u4", .08, 0.); S1("u5", .09, 0.);
    auto S2 = [&](const char *n, double e) { auto it = buf.find(n); if (it != buf.end()) for (size_t i = 0; i < NSP; ++i) see(it->second[c + i * off], e + .001 * i, 0.); };
    S2("S", .1); S2("Q", .2); S2("U", .3); S2("V", .4); S2("B", .5);
    if (buf.count("C")) for (int i = 0; i < 16; ++i) see(buf["C"][c * 16 + i], .6 + .001 * i, DBL_MAX);
    o << tok << " ";
  }
  o << ";" << sched::switches;
  return o.str();
}
static void script(std::vector<std::string> const &lines) {
  std::string r = run(lines);
  for (size_t i = 0; i + 1 < lines.size(); ++i) drv::obs(".");
  drv::obs(r);
}
int main() {
  Gyoto::requirePlugin("stdplug", 1);
  Gyoto::verbose(0);
  sched::on_deadlock = []() { drv::obs("deadlock"); fflush(drv::out); };
  return drv::loop(script);
}
