// replays Quantities.tla behaviours on Scenery
#include "drv.h"
#include "GyotoScenery.h"
#include "GyotoAstrobj.h"
#include "GyotoPhoton.h"
#include "GyotoMetric.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoUtils.h"
#include "GyotoRegister.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoFactoryMessenger.h"
#include <map>
#include <cfloat>
#include <cmath>
using namespace Gyoto;
static const size_t NS = 2;
class Probe : public Astrobj::Generic {
  friend class SmartPointer<Probe>;
public:
  GYOTO_OBJECT;
  Probe() : Generic("Probe") {}
  Probe(Probe const &o) : Generic(o) {}
  Probe *clone() const override { return new Probe(*this); }
  double rMax() override { return DBL_MAX; }
  double rMax() const override { return DBL_MAX; }
  double deltaMax(double *) override { return 1.; }
  Quantity_t getDefaultQuantities() override { return GYOTO_QUANTITY_INTENSITY | GYOTO_QUANTITY_REDSHIFT; }
  using Generic::radiativeQ; using Generic::emission; using Generic::integrateEmission;
  double emission(double, double, state_t const &, double const *) const override { return 3.; }
  double transmission(double, double, state_t const &, double const *) const override { return 0.; }
  double integrateEmission(double nu1, double nu2, double, state_t const &, double const *) const override { return 5. * (nu2 - nu1) / 1e14; }
  void radiativeQ(double *I, double *T, double const *nu, size_t n, double, state_t const &, double const *) const override { for (size_t i = 0; i < n; ++i) { I[i] = 7. + nu[i] / 1e14; T[i] = 0.; } }
  void radiativeQ(double *I, double *Q, double *U, double *V, Eigen::Matrix4d *O, double const *nu, size_t n, double, state_t const &, double const *) const override {
    for (size_t i = 0; i < n; ++i) { I[i] = 7. + nu[i] / 1e14; Q[i] = 11. + i; U[i] = 13. + i; V[i] = 17. + i; O[i] = Eigen::Matrix4d::Zero(); } }
  int Impact(Photon *ph, size_t index, Astrobj::Properties *d) override {
    if (index + 3 != ph->getI0()) return 0;
    state_t c; ph->getCoord(index, c); double o[8]; for (int i = 0; i < 4; ++i) o[i] = c[i]; o[4] = 1.25; o[5] = .75; o[6] = o[7] = 0.;
    if (d) {
      if (d->distance) *d->distance = 19.; if (d->first_dmin) *d->first_dmin = 23.;
      if (d->user1) *d->user1 = 29.; if (d->user2) *d->user2 = 31.; if (d->user3) *d->user3 = 37.; if (d->user4) *d->user4 = 41.; if (d->user5) *d->user5 = 43.;
      processHitQuantities(ph, c, o, 1., d);
    }
    ph->transmit(size_t(-1), 0.); for (size_t i = 0; i < NS; ++i) { ph->transmit(i, 0.); ph->transmit(i, Eigen::Matrix4d(Eigen::Matrix4d::Zero())); }
    return 1;
  }
};
GYOTO_PROPERTY_START(Probe, "probe")
GYOTO_PROPERTY_END(Probe, Generic::properties)
static std::vector<std::pair<std::string, Quantity_t>> Q = {
  {"Intensity", GYOTO_QUANTITY_INTENSITY}, {"EmissionTime", GYOTO_QUANTITY_EMISSIONTIME}, {"MinDistance", GYOTO_QUANTITY_MIN_DISTANCE}, {"FirstDistMin", GYOTO_QUANTITY_FIRST_DMIN},
  {"Redshift", GYOTO_QUANTITY_REDSHIFT}, {"NbCrossEqPlane", GYOTO_QUANTITY_NBCROSSEQPLANE}, {"ImpactCoords", GYOTO_QUANTITY_IMPACTCOORDS}, {"User1", GYOTO_QUANTITY_USER1}, {"User2", GYOTO_QUANTITY_USER2},
  {"User3", GYOTO_QUANTITY_USER3}, {"User4", GYOTO_QUANTITY_USER4}, {"User5", GYOTO_QUANTITY_USER5}, {"Spectrum", GYOTO_QUANTITY_SPECTRUM}, {"SpectrumStokesQ", GYOTO_QUANTITY_SPECTRUM_STOKES_Q},
  {"SpectrumStokesU", GYOTO_QUANTITY_SPECTRUM_STOKES_U}, {"SpectrumStokesV", GYOTO_QUANTITY_SPECTRUM_STOKES_V}, {"BinSpectrum", GYOTO_QUANTITY_BINSPECTRUM}};
static SmartPointer<Scenery> make() {
  std::vector<std::string> pl{"stdplug"}; SmartPointer<Metric::Generic> gg = (*Metric::getSubcontractor("Minkowski", pl))(NULL, pl); gg->set("Spherical", Value(true));
  SmartPointer<Screen> scr = new Screen(); scr->metric(gg); scr->resolution(4); scr->distance(100., "geometrical"); scr->inclination(0.7); scr->fieldOfView(0.3);
  SmartPointer<Spectrometer::Uniform> sp = new Spectrometer::Uniform(); sp->kind("freq"); sp->nSamples(NS); sp->band({1e14, 2e14}, "Hz"); scr->spectrometer(sp);
  SmartPointer<Astrobj::Generic> ob = new Probe(); ob->metric(gg);
  SmartPointer<Scenery> s = new Scenery(gg, scr, ob); s->delta(1.); return s;
}
static size_t width(std::string const &n) { return n == "ImpactCoords" ? 16 : n.find("Spectrum") != std::string::npos ? NS : 1; }
// render what flags ask for into one array, one plane after the other; empty on error
static std::map<std::string, std::vector<double>> render(SmartPointer<Scenery> s, Quantity_t f, bool single) {
  std::map<std::string, std::vector<double>> r; std::vector<double> buf(17 * 16 + 20, -1.); size_t k = 2;
  std::map<std::string, size_t> at; Astrobj::Properties d; d.offset = 1;
  for (auto &x : Q) if (f & x.second) { double *p = buf.data() + k; at[x.first] = k; k += width(x.first);
    if (x.first == "Intensity") d.intensity = p; else if (x.first == "EmissionTime") d.time = p; else if (x.first == "MinDistance") d.distance = p; else if (x.first == "FirstDistMin") d.first_dmin = p;
    else if (x.first == "Redshift") d.redshift = p; else if (x.first == "NbCrossEqPlane") d.nbcrosseqplane = p; else if (x.first == "ImpactCoords") d.impactcoords = p;
    else if (x.first == "User1") d.user1 = p; else if (x.first == "User2") d.user2 = p; else if (x.first == "User3") d.user3 = p; else if (x.first == "User4") d.user4 = p; else if (x.first == "User5") d.user5 = p;
    else if (x.first == "Spectrum") d.spectrum = p; else if (x.first == "SpectrumStokesQ") d.stokesQ = p; else if (x.first == "SpectrumStokesU") d.stokesU = p; else if (x.first == "SpectrumStokesV") d.stokesV = p; else d.binspectrum = p; }
  if ((Quantity_t)d != f) throw Gyoto::Error("flags of Properties");
  if (single) { s->setPropertyConverters(&d); s->screen()->computeBaseVectors(); (*s)(size_t(2), size_t(2), &d); }
  else { Screen::Range r1(2, 2, 1), r2(2, 2, 1); Screen::Grid g(r1, r2); s->rayTrace(g, &d); }
  if (buf[0] != -1. || buf[1] != -1. || buf[k] != -1.) return r;
  for (auto &x : at) r[x.first] = std::vector<double>(buf.begin() + x.second, buf.begin() + x.second + width(x.first));
  return r;
}
static void script(std::vector<std::string> const &lines) {
  // values in SI units, each quantity alone
  std::map<std::string, std::vector<double>> ref;
  for (auto &x : Q) { SmartPointer<Scenery> s = make(); s->setRequestedQuantities(x.second); ref[x.first] = render(s, x.second, false)[x.first]; }
  double pixsr = .3 * .3 / 16.;
  SmartPointer<Scenery> s = make(); bool single = false;
  for (auto &ln : lines) {
    auto w = drv::split(ln); std::string const &op = w[0]; std::string res = "ok"; std::ostringstream o; single = !single;
    try {
      if (op == "list") { std::string l = ln.size() > 5 ? ln.substr(5) : ""; if (w.size() > 1 && w.back() == "@p") { l = l.substr(0, l.size() - 3); s->set("Quantities", Value(l)); } else s->requestedQuantitiesString(l); }
      else if (op == "flags") { Quantity_t f = 0; for (size_t k = 1; k < w.size(); ++k) for (auto &x : Q) if (x.first == w[k]) f |= x.second; s->setRequestedQuantities(f); }
      else if (op == "clone") s = s->clone();
      else if (op == "again") s->requestedQuantitiesString(s->requestedQuantitiesString());
      else res = "badcommand";
    } catch (Gyoto::Error &e) { res = "error"; }
    o << res << ";";
    Quantity_t f = s->getRequestedQuantities(); Quantity_t rest = f;
    for (auto &x : Q) if (f & x.second) { o << x.first << " "; rest &= ~x.second; }
    if (rest) o << "other ";
    o << ";" << s->requestedQuantitiesString() << ";" << s->getScalarQuantitiesCount() << ";" << s->getSpectralQuantitiesCount() << ";" << s->parallelTransport() << ";";
    try {
      auto r = render(s, f, single);
      o << "1;";
      for (auto &x : r) { // unit of the plane: how it compares with the reference
        std::string u = "?"; std::vector<double> &v = x.second, &b = ref[x.first]; struct { const char *n; double f; } c[] = {{"SI", 1.}, {"cgs", 1e3}, {"jy", 1e26}, {"pix", 1e26 * pixsr}};
        for (auto &y : c) { bool same = true; for (size_t k = 0; k < v.size(); ++k) same = same && fabs(v[k] - b[k] * y.f) <= 1e-9 * fabs(b[k] * y.f); if (same) { u = y.n; break; } }
        o << x.first << " " << u << " "; }
    } catch (Gyoto::Error &e) { o << "0;" << drv::clean(e.get_message()); }
    drv::obs(o.str());
  }
}
int main() { Register::init(); verbose(0); return drv::loop(script); }
