// replays Compound.tla behaviours on Astrobj::Complex and Metric::Complex
#include "drv.h"
#include "GyotoComplexAstrobj.h"
#include "GyotoComplexMetric.h"
#include "GyotoScenery.h"
#include "GyotoPhoton.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoUtils.h"
#include "GyotoRegister.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoFactoryMessenger.h"
#include <map>
#include <cfloat>
#include <cmath>
using namespace Gyoto;
static const int NP = 4, NG = 2;
static const double RMAX[] = {0, 12, 30, 5, 18}, DMAX[] = {0, 3, 2, 7, 4};
static Photon *mainph = NULL;
static std::map<int, std::vector<int>> hits;  // label -> segments
struct Call { int lab; double t0, t1, tr, trc, trm; bool first; };
static std::vector<Call> calls; static size_t quiet = 0;
class Probe : public Astrobj::Generic {
  friend class SmartPointer<Probe>;
public:
  GYOTO_OBJECT;
  int lab;
  Probe(int l = 1) : Generic("Probe"), lab(l) {}
  Probe(Probe const &o) : Generic(o), lab(o.lab) {}
  Probe *clone() const override { return new Probe(*this); }
  double rMax() override { return RMAX[lab]; }
  double rMax() const override { return RMAX[lab]; }
  double deltaMax(double *) override { return DMAX[lab]; }
  int Impact(Photon *ph, size_t index, Astrobj::Properties *d) override {
    int hit = 1;
    if (ph == mainph) { int seg = int(ph->getI0()) - int(index); hit = 0; for (int s : hits[lab]) if (s == seg) hit = 1; }
    if (d) {
      state_t a, b; ph->getCoord(index, a); ph->getCoord(index + 1, b);
      calls.push_back(Call{lab, a[0], b[0], ph->getTransmission(size_t(-1)), ph->getTransmission(0), ph->getTransmissionMatrix(0)(0, 0), ph == mainph});
      if (hit) { ph->transmit(size_t(-1), .5); ph->transmit(0, .5); ph->transmit(0, Eigen::Matrix4d(Eigen::Matrix4d::Identity() * .5)); }
    } else if (ph != mainph) ++quiet;
    return hit;
  }
};
GYOTO_PROPERTY_START(Probe, "probe")
GYOTO_PROPERTY_END(Probe, Generic::properties)
struct Ear : Hook::Listener { int n = 0; void tell(Hook::Teller *) override { ++n; } };
typedef SmartPointer<Metric::Generic> MG; typedef SmartPointer<Astrobj::Generic> AG;
static std::vector<std::string> pl{"stdplug"};
static MG met(std::string const &k) { return (*Metric::getSubcontractor(k, pl))(NULL, pl); }
static AG ast(std::string const &k) { return (*Astrobj::getSubcontractor(k, pl))(NULL, pl); }
static MG mpart(int l) { MG m;
  if (l == 1) { m = met("KerrBL"); m->set("Spin", Value(.5)); } else if (l == 2) { m = met("KerrBL"); m->set("Spin", Value(.9)); m->set("HorizonSecurity", Value(1.)); }
  else if (l == 3) m = met("KerrKS"); else { m = met("Minkowski"); m->set("Spherical", Value(true)); }
  m->set("Mass", Value(double(l))); return m; }
static double PTS[][8] = {{0, 9, 1.2, .7, 1, 0, 0, 0.01}, {3, 2.2, 2.4, 4, 1, -.1, 0, 0}, {-5, 7, -4, 3, 1, .2, .1, 0}, {0, 1.5, 1.5, .2, 1, 0, 0, 0}};
static const int NPT = 4;
static void num(std::ostringstream &o, double v) { if (!std::isfinite(v) || fabs(v) > 2e4) o << " " << 2000000000; else o << " " << long(std::floor(v * 1e5 + .5)); }
static void values(std::ostringstream &o, Metric::Generic const *m) {
  o << " G"; for (auto &p : PTS) { double g[4][4]; m->gmunu(g, p); for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) num(o, g[a][b]); }
  o << " J"; for (auto &p : PTS) { double j[4][4][4]; m->jacobian(j, p); for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int c = b; c < 4; ++c) num(o, j[a][b][c]); }
  o << " S"; for (auto &p : PTS) o << " " << (m->isStopCondition(p) != 0);
}
template <class C, class P> struct World {
  std::map<std::string, SmartPointer<C>> cs; std::vector<P> base; std::vector<MG> gs; Ear ear;
};
static int mlab(MG const &m) { return m ? int(m->mass() + .5) - 10 : 0; }
static World<Astrobj::Complex, AG> A; static World<Metric::Complex, MG> M;
static std::string aobs(std::string const &n) {
  auto &c = A.cs[n]; std::ostringstream o; size_t k = c->getCardinal(); o << n << " " << k;
  for (size_t i = 0; i < k; ++i) o << " " << static_cast<Probe const *>((*c)[i]())->lab;
  for (size_t i = 0; i < k; ++i) { int b = 0; for (int j = 0; j < NP; ++j) if ((*c)[i]() == A.base[j]()) b = j + 1; o << " " << b; }
  bool dis = true; for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < i; ++j) { bool isb = false; for (auto &b : A.base) if (b() == (*c)[i]()) isb = true; if (!isb && (*c)[i]() == (*c)[j]()) dis = false; }
  o << " " << dis;
  for (int w = 0; w < 2; ++w) { std::string r = "ok"; try { if (w) c->remove(k); else (*c)[k]; } catch (Gyoto::Error &) { r = "error"; } o << " " << r; }
  MG g = c->metric(); o << " " << mlab(g); for (size_t i = 0; i < k; ++i) { MG p = (*c)[i]->metric(); o << " " << mlab(p) << " " << (p() == g()); }
  double x[8] = {0, 10, 1, 1, 1, 0, 0, 0}; double dm = c->deltaMax(x); o << " " << c->rMax() << " " << (dm > 1e5 ? 1e5 : dm);
  return o.str();
}
static std::string mobs(std::string const &n) {
  auto &c = M.cs[n]; std::ostringstream o; size_t k = c->getCardinal(); o << n << " " << k;
  for (size_t i = 0; i < k; ++i) o << " " << int((*c)[i]->mass() + .5);
  for (size_t i = 0; i < k; ++i) { int b = 0; for (int j = 0; j < NP; ++j) if ((*c)[i]() == M.base[j]()) b = j + 1; o << " " << b; }
  for (int w = 0; w < 2; ++w) { std::string r = "ok"; try { if (w) c->remove(k); else (*c)[k]; } catch (Gyoto::Error &) { r = "error"; } o << " " << r; }
  int ck = c->coordKind(); o << " " << (ck == GYOTO_COORDKIND_SPHERICAL ? "sph" : ck == GYOTO_COORDKIND_CARTESIAN ? "cart" : "none");
  bool inv = true;
  if (k) for (int q = 0; q < 1; ++q) { double g[4][4], u[4][4]; c->gmunu(g, PTS[q]); c->gmunu_up(u, PTS[q]); for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { double s = 0; for (int e = 0; e < 4; ++e) s += g[a][e] * u[e][b]; if (!(fabs(s - (a == b)) < 1e-7)) inv = false; if (c->gmunu(PTS[q], a, b) != g[a][b]) inv = false; } }
  o << " " << inv; values(o, c()); return o.str();
}
static MG mink() { MG m = met("Minkowski"); m->set("Spherical", Value(true)); return m; }
static std::string ray(std::string const &n, int seg) {
  MG g = mink(); SmartPointer<Spectrometer::Uniform> sp = new Spectrometer::Uniform(); sp->kind("freq"); sp->nSamples(2); sp->band({1e14, 2e14}, "Hz");
  Photon ph; ph.metric(g); ph.spectrometer(sp); ph.adaptive(false); ph.delta(1.); double c[8] = {100, 40, 1.2, .3, 1, 1, 0.003, 0.002}; double pos[4]; for (int i = 0; i < 4; ++i) pos[i] = c[i]; g->nullifyCoord(c);
  ph.setInitCoord(c, -1); ph.xFill(c[0] - 8); mainph = &ph; ph.resetTransmission(); ph.resetTransmissionMatrix();
  size_t ind = ph.getI0() - seg; if (ind < ph.getImin()) return "noray";
  calls.clear(); quiet = 0; std::ostringstream o;
  int h0 = A.cs[n]->Impact(&ph, ind, NULL); bool q = calls.empty() && ph.getTransmission(size_t(-1)) == 1. && ph.getTransmission(0) == 1.;
  calls.clear(); Astrobj::Properties d; double I = 0; d.intensity = &I; int h = A.cs[n]->Impact(&ph, ind, &d);
  state_t a, b; ph.getCoord(ind, a); ph.getCoord(ind + 1, b);
  auto lg = [](double x) { return x > 0 ? long(std::floor(.5 - std::log2(x))) : -1L; };
  bool agree = ph.getTransmission(0) == ph.getTransmission(size_t(-1)) && fabs(ph.getTransmissionMatrix(0)(0, 0) - ph.getTransmission(0)) <= 1e-12 * ph.getTransmission(0);
  o << "ok " << h0 << " " << q << " " << h << " " << (agree ? lg(ph.getTransmission(size_t(-1))) : -2L);
  // rank of the sub-steps
  bool whole = true, tiles = true; int r = 0; std::ostringstream cs; double t1 = b[0], t0 = b[0];
  for (size_t k = 0; k < calls.size(); ++k) { Call &x = calls[k];
    if (k == 0 || x.t0 != t0) { if (fabs(x.t1 - (k ? t0 : t1)) > 1e-9 || !(x.t0 < x.t1)) tiles = false; t0 = x.t0; ++r; }
    if (!x.first || x.t0 != a[0] || x.t1 != b[0]) whole = false;
    cs << " " << x.lab << " " << r << " " << (x.tr == x.trc && fabs(x.trm - x.tr) <= 1e-12 * x.tr ? lg(x.tr) : -3L); }
  if (calls.empty() || fabs(t0 - a[0]) > 1e-9) tiles = false;
  o << " " << whole << " " << tiles << " " << r << " " << calls.size() << cs.str(); mainph = NULL; return o.str();
}
// real: a compound of shipped objects against its parts, on the same stored ray
static std::string real(std::vector<std::string> const &w) {
  MG g = met("KerrBL"); g->set("Spin", Value(.6)); SmartPointer<Screen> scr = new Screen(); scr->metric(g); scr->resolution(9); scr->distance(60., "geometrical"); scr->inclination(1.3); scr->fieldOfView(.5); scr->time(1000., "geometrical_time");
  SmartPointer<Astrobj::Complex> c = new Astrobj::Complex(); c->metric(g); std::vector<AG> ps;
  for (size_t i = 4; i < w.size(); ++i) { AG p; std::string const &k = w[i];
    if (k == "star1" || k == "star2") { p = ast("FixedStar"); p->set("Radius", Value(k == "star1" ? 3. : 4.)); p->metric(g); p->set("Position", Value(std::vector<double>(k == "star1" ? std::vector<double>{10., 1.5, 1.} : std::vector<double>{12., 1.3, 1.2}))); }
    else if (k == "orbit") { p = ast("Star"); p->metric(g); p->set("Radius", Value(3.)); p->set("InitCoord", Value(std::vector<double>{900., 14., 1.5, 4., 1.1, 0., 0., .018})); }
    else if (k == "torus") { p = ast("Torus"); p->set("LargeRadius", Value(12.)); p->set("SmallRadius", Value(3.)); }
    else if (k == "thin") { p = ast("ThinDisk"); p->set("InnerRadius", Value(6.)); p->set("OuterRadius", Value(25.)); }
    else { p = ast("PageThorneDisk"); p->set("OuterRadius", Value(20.)); }
    p->metric(g); ps.push_back(p); c->append(p); }
  AG cg = c; Photon ph(g, cg, scr, .12 * (atoi(w[2].c_str()) - 4) / 4., .12 * (atoi(w[3].c_str()) - 4) / 4.); ph.delta(1.); ph.xFill(1000. - 120.);
  size_t nseg = 0, nhit = 0;
  for (size_t ind = ph.getI0() - 1; ind >= ph.getImin() && ind != size_t(-1); --ind) { ++nseg;
    std::vector<int> h; size_t n = 0, who = 0; for (size_t i = 0; i < ps.size(); ++i) { int x = ps[i]->Impact(&ph, ind, NULL); h.push_back(x); if (x) { ++n; who = i; } }
    int r = c->Impact(&ph, ind, NULL); if ((r != 0) != (n > 0)) return "ok differ hit segment " + std::to_string(nseg);
    if (n) ++nhit;
    if (n == 1) { double I[2] = {0, 0}, R[2] = {-7, -7}, T[2] = {-7, -7};
      for (int q = 0; q < 2; ++q) { ph.resetTransmission(); Astrobj::Properties d; d.intensity = I + q; d.redshift = R + q; d.time = T + q; if (q) c->Impact(&ph, ind, &d); else ps[who]->Impact(&ph, ind, &d); }
      ph.resetTransmission();
      if (memcmp(I, I + 1, 8) || memcmp(R, R + 1, 8) || memcmp(T, T + 1, 8)) { std::ostringstream o; o << "ok differ values segment " << nseg << " " << I[0] << "/" << I[1] << " " << R[0] << "/" << R[1]; return o.str(); } }
  }
  return "ok same " + std::to_string(nseg) + " " + std::to_string(nhit);
}
static std::string step(std::vector<std::string> const &w, bool &metricmode) {
  std::string op = w[0];
  if (op == "world") { metricmode = w[1] == "metric";
    if (metricmode) { for (int i = 1; i <= NP; ++i) M.base.push_back(mpart(i)); M.cs["c"] = new Metric::Complex(); M.cs["c"]->hook(&M.ear); }
    else { for (int i = 1; i <= NP; ++i) { AG p = new Probe(i); A.base.push_back(p); } for (int i = 1; i <= NG; ++i) { MG m = mink(); m->set("Mass", Value(10. + i)); A.gs.push_back(m); } A.cs["c"] = new Astrobj::Complex(); }
    return "ok"; }
  if (op == "table") { std::ostringstream o; o << "ok"; for (int l = 1; l <= NP; ++l) { MG m = mpart(l); o << " P " << (m->coordKind() == GYOTO_COORDKIND_SPHERICAL ? "sph" : "cart"); values(o, m()); } return o.str(); }
  if (op == "hits") { hits.clear(); int lab = 0; for (size_t i = 1; i < w.size(); ++i) if (w[i] == ";") continue; else if (w[i][0] == 'L') lab = atoi(w[i].c_str() + 1); else hits[lab].push_back(atoi(w[i].c_str())); return "ok"; }
  if (op == "ray") return ray(w[1], atoi(w[2].c_str()));
  if (op == "real") return real(w);
  if (op == "obs") return metricmode ? (M.cs.count(w[1]) ? mobs(w[1]) : "none") : (A.cs.count(w[1]) ? aobs(w[1]) : "none");
  int i = w.size() > 2 ? atoi(w[2].c_str()) : 0, p = w.size() > 3 ? atoi(w[3].c_str()) : 0;
  if (metricmode) { M.ear.n = 0;
    if (op == "append") M.cs[w[1]]->append(M.base[i - 1]); else if (op == "remove") M.cs[w[1]]->remove(i - 1); else if (op == "assign") (*M.cs[w[1]])[i - 1] = M.base[p - 1];
    else if (op == "clone") M.cs["d"] = M.cs["c"]->clone(); else if (op == "drop") M.cs.erase("d");
    return "ok " + std::to_string(w.size() > 1 && w[1] == "d" ? 1 : M.ear.n); }
  if (op == "append") A.cs[w[1]]->append(A.base[i - 1]); else if (op == "remove") A.cs[w[1]]->remove(i - 1); else if (op == "assign") (*A.cs[w[1]])[i - 1] = A.base[p - 1];
  else if (op == "setmetric") A.cs[w[1]]->metric(i ? A.gs[i - 1] : MG(NULL)); else if (op == "partmetric") A.base[atoi(w[1].c_str()) - 1]->metric(i ? A.gs[i - 1] : MG(NULL));
  else if (op == "clone") A.cs["d"] = A.cs["c"]->clone(); else if (op == "drop") A.cs.erase("d");
  return "ok";
}
static void script(std::vector<std::string> const &lines) {
  bool mm = false;
  for (auto &s : lines) { std::string r; try { r = step(drv::split(s), mm); } catch (Gyoto::Error &e) { r = "error " + drv::clean(e.get_message()); } drv::obs(r); }
}
int main() { Register::init("stdplug"); Gyoto::verbose(0); return drv::loop(script, 60); }
