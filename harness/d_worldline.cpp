// Trajectories: replays histories of changes, extensions and queries on photons and stars
#include "drv.h"
#include "GyotoUtils.h"
#include "GyotoRegister.h"
#include "GyotoMetric.h"
#include "GyotoPhoton.h"
#include "GyotoStar.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoDefs.h"
#include <map>
#include <cmath>
using namespace Gyoto;
typedef std::vector<double> V;
struct Point { double x[10 + 8]; };   // t, tau, x1..3, x0dot..x3dot, basis
struct Line {
  SmartPointer<Photon> ph; SmartPointer<Astrobj::Star> st;
  Worldline *w() const { return ph ? static_cast<Worldline *>(const_cast<Photon *>(ph())) : static_cast<Worldline *>(const_cast<Astrobj::Star *>(st())); }
  Object *o() const { return ph ? static_cast<Object *>(const_cast<Photon *>(ph())) : static_cast<Object *>(static_cast<Astrobj::Generic *>(const_cast<Astrobj::Star *>(st()))); }
  bool star() const { return !ph; }
  std::vector<Point> old; size_t oldi0 = 0; bool has = false;
  std::string answers;   // of the queries since the last invalidation
};
static std::map<std::string, Line> L; static std::map<std::string, SmartPointer<Metric::Generic>> G; static std::map<std::string, std::array<double, 16>> VEC;
static std::map<std::string, std::vector<std::pair<std::string, std::string>>> PAR;   // metric name -> its parameter and values
static std::map<std::string, std::string> KIND;
static V vec(std::string const &s) { V r; std::string w; std::istringstream i(s); while (std::getline(i, w, ',')) r.push_back(::atof(w.c_str())); return r; }
static void put(Object *o, std::string const &n, std::string const &v) {
  Property const *p = o->property(n); if (!p) GYOTO_ERROR("no property " + n);
  switch (p->type) {
  case Property::bool_t: o->set(n, v == "true"); break;
  case Property::double_t: o->set(n, ::atof(v.c_str())); break;
  case Property::string_t: o->set(n, v); break;
  case Property::size_t_t: o->set(n, Value(size_t(atol(v.c_str())))); break;
  case Property::vector_double_t: o->set(n, vec(v)); break;
  default: GYOTO_ERROR("type");
  }
}
static SmartPointer<Metric::Generic> mk(std::string const &k, int j) {
  std::vector<std::string> none; std::string kd = KIND.at(k); bool sub = kd.compare(0, 6, "Shift:") == 0;
  SmartPointer<Metric::Generic> g = (*Metric::getSubcontractor(sub ? "Shift" : kd, none))(NULL, none);
  if (sub) { SmartPointer<Metric::Generic> s = (*Metric::getSubcontractor(kd.substr(6), none))(NULL, none); g->set("SubMetric", s); }
  if (kd == "Minkowski") g->set("Spherical", true);
  if (kd == "RezzollaZhidenko") { g->set("Rms", 6.); g->set("Rmb", 4.); }
  if (kd == "KonoplyaRezzollaZhidenko") g->set("Spin", 0.2);
  if (kd == "ChernSimons") g->set("Spin", 0.1);
  auto &p = PAR.at(k)[j - 1]; put(&*g, p.first, p.second);
  return g;
}
static bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static std::vector<Point> points(Line &l, size_t &i0) {
  Worldline *w = l.w(); std::vector<Point> r; size_t lo = w->getImin(), hi = w->getImax(); i0 = 0;
  if (lo > hi) return r;
  size_t n = hi - lo + 1; i0 = w->getI0() - lo;
  V tau(n); w->get_tau(tau.data());
  for (size_t k = 0; k < n; ++k) { state_t c(w->parallelTransport() ? 16 : 8); w->getCoord(lo + k, c); Point p; for (double &y : p.x) y = 0.; p.x[0] = c[0]; p.x[1] = tau[k]; for (int q = 1; q < 8; ++q) p.x[q + 1] = c[q]; if (c.size() == 16) for (int q = 8; q < 16; ++q) p.x[q + 1] = c[q]; r.push_back(p); }
  return r;
}
static bool same(Point const &a, Point const &b) { for (int k = 0; k < 17; ++k) if (!eq(a.x[k], b.x[k])) return false; return true; }
static void norm(double &th, double &ph, double &thd) {
  while (th > M_PI) th -= 2. * M_PI; while (th < -M_PI) th += 2. * M_PI;
  if (th < 0.) { th = -th; thd = -thd; ph += M_PI; }
  while (ph > 2. * M_PI) ph -= 2. * M_PI; while (ph < 0.) ph += 2. * M_PI;
}
static std::string hex(double x) { char b[40]; if (x == 0.) x = 0.; snprintf(b, sizeof b, "%a", x); return b; }
static std::string step(std::vector<std::string> const &w) {
  std::string const &c = w[0];
  if (c == "def") { KIND[w[1]] = w[2]; for (size_t k = 4; k < w.size(); ++k) PAR[w[1]].push_back({w[3], w[k]}); return "ok"; }
  if (c == "new") { L.erase(w[1]); Line l; if (w[2] == "photon") l.ph = new Photon(); else { l.st = new Astrobj::Star(); l.st->set("Radius", 1.); } put(l.o(), "CheckBasis", "false"); put(l.o(), "MaxIter", "600"); L[w[1]] = l; return "ok"; }
  if (c == "copy") { // copy w r: r becomes w, w its clone
    Line n; Line &l = L.at(w[1]); if (l.ph) n.ph = l.ph->clone(); else n.st = l.st->clone(); n.answers = l.answers; Line keep = l; L.erase(w[2]); L[w[2]] = keep; L[w[1]] = n; return "ok"; }
  if (c == "mset") { if (!G.count(w[1])) G[w[1]] = mk(w[1], 1); auto &p = PAR.at(w[1])[atoi(w[2].c_str()) - 1]; put(&*G[w[1]], p.first, p.second); return "ok"; }
  Line &l = L.at(w[1]); Worldline *x = l.w();
  if (c == "metric") { if (!G.count(w[2])) G[w[2]] = mk(w[2], 1); if (l.ph) l.ph->metric(G[w[2]]); else l.st->metric(G[w[2]]); return "ok"; }
  if (c == "mfresh") { SmartPointer<Metric::Generic> g = mk(w[2], atoi(w[3].c_str())); if (l.ph) l.ph->metric(g); else l.st->metric(g); return "ok"; }
  if (c == "own") { auto &p = PAR.at(w[2])[atoi(w[3].c_str()) - 1]; SmartPointer<Metric::Generic> g = l.ph ? l.ph->metric() : l.st->metric(); put(&*g, p.first, p.second); return "ok"; }
  if (c == "init") { // init w name t r theta phi vr vth vph dir
    SmartPointer<Metric::Generic> g = l.ph ? l.ph->metric() : l.st->metric();
    double q[7]; for (int k = 0; k < 7; ++k) q[k] = ::atof(w[3 + k].c_str());
    double p[8] = {q[0], q[1], q[2], q[3], 1., q[4], q[5], q[6]};
    if (g && g->coordKind() == GYOTO_COORDKIND_CARTESIAN) {
      double r = q[1], s = sin(q[2]), co = cos(q[2]), cp = cos(q[3]), sp = sin(q[3]);
      p[1] = r * s * cp; p[2] = r * s * sp; p[3] = r * co;
      p[5] = q[4] * s * cp + r * q[5] * co * cp - r * s * sp * q[6]; p[6] = q[4] * s * sp + r * q[5] * co * sp + r * s * cp * q[6]; p[7] = q[4] * co - r * q[5] * s;
    }
    if (g) { if (l.star()) g->normalizeFourVel(p); else g->nullifyCoord(p); }
    std::array<double, 16> v; for (int k = 0; k < 8; ++k) v[k] = p[k];
    double E[8] = {0.1, 0.3, 0.02, 0.05, 0.05, -0.1, 0.06, 0.01}; for (int k = 0; k < 8; ++k) v[8 + k] = E[k];
    VEC[w[2]] = v;
    x->setInitCoord(v.data(), atoi(w[10].c_str()), v.data() + 8, v.data() + 12); return "ok"; }
  if (c == "vec") { auto &v = VEC.at(w[2]); bool b = w[3] == "1"; double z[4] = {0, 0, 0, 0}; x->setInitCoord(v.data(), 0, b ? v.data() + 8 : z, b ? v.data() + 12 : z); return "ok"; }
  if (c == "ptrans") { x->parallelTransport(w[2] == "1"); return "ok"; }
  if (c == "set") { put(l.o(), w[2], w[3]); return "ok"; }
  if (c == "reset") { x->reset(); return "ok"; }
  if (c == "clear") { l.answers.clear(); return "ok"; }
  double t0 = 0.; { size_t lo = x->getImin(), hi = x->getImax(); if (lo <= hi) { state_t s(8); x->getInitialCoord(s); t0 = s[0]; } else return "unset"; }
  if (c == "fill") { // fill w offset [proper]: as far as t0 + offset
    bool pr = w.size() > 3; double d = (pr ? 0. : t0) + ::atof(w[2].c_str());
    size_t i0; std::vector<Point> a = points(l, i0); size_t oi0 = i0; std::string err = "-";
    try { x->xFill(d, pr); } catch (Gyoto::Error &e) { err = "error"; }
    std::vector<Point> b = points(l, i0); l.answers += "F" + err + ";";
    std::ostringstream o; o.precision(17);
    long nb = long(i0) - long(oi0), na = long(b.size()) - long(a.size()) - nb; int T = pr ? 1 : 0;
    bool kept = nb >= 0 && na >= 0; if (kept) for (size_t k = 0; k < a.size(); ++k) if (!same(a[k], b[nb + k])) kept = false;
    bool mono = true; double lowr = 1e300; for (size_t k = 0; k + 1 < b.size(); ++k) if (!(b[k].x[0] < b[k + 1].x[0])) mono = false;
    SmartPointer<Metric::Generic> g = x->metric(); bool cart = g->coordKind() == GYOTO_COORDKIND_CARTESIAN;
    for (auto &p : b) lowr = std::min(lowr, cart ? sqrt(p.x[2] * p.x[2] + p.x[3] * p.x[3] + p.x[4] * p.x[4]) : fabs(p.x[2]));
    long over = 0; for (long k = 0; k < nb; ++k) if (b[k].x[T] < d) ++over; for (long k = 0; k < na; ++k) if (b[b.size() - 1 - k].x[T] > d) ++over;
    int side = d > a.back().x[T] ? 1 : d < a.front().x[T] ? -1 : 0; bool reached = side == 0 || (side > 0 ? b.back().x[T] >= d : b.front().x[T] <= d);
    o << "ok " << err << " " << nb << " " << na << " " << kept << " " << mono << " " << over << " " << side << " " << reached << " " << (lowr < 4.5) << " " << (size_t(std::max(nb, na)) >= x->maxiter()) << " " << b.size();
    return o.str(); }
  if (c == "query") { // query w mode comps date...: dates are offsets to t0 (or, if proper, to 0), or pK: that of the K-th point after the first one stored
    bool pr = w[2] == "proper", one = w[2] == "one", cartq = w[2] == "cartesian";
    std::string comps = w[3]; size_t n = w.size() - 4; V d(n); size_t i0; std::vector<Point> a = points(l, i0); std::vector<long> at(n, -1); int T = pr ? 1 : 0;
    for (size_t k = 0; k < n; ++k) {
      std::string const &s = w[4 + k];
      if (s[0] == 'p') { at[k] = long(::atof(s.c_str() + 1) * double(a.size() - 1) + .5); d[k] = a[at[k]].x[T]; }
      else d[k] = (pr ? 0. : t0) + ::atof(s.c_str());
    }
    bool pt = x->parallelTransport() && !l.star();
    std::vector<V> out(17, V(n, 0.)); bool want[17]; for (bool &b : want) b = false;
    for (char ch : comps) if (ch >= 'a' && ch <= 'p') want[ch - 'a'] = true;  // a: other time; b c d: x1 x2 x3; e f g h: x0dot..; i..p basis
    auto P = [&](int q) { return want[q] && (q < 8 || pt) ? out[q].data() : (double *)NULL; };
    std::ostringstream o; std::string err = "-";
    try {
      if (one) for (size_t k = 0; k < n; ++k) { state_t s(pt && want[8] ? 16 : 8); x->getCoord(d[k], s, false); for (int q = 1; q < 8; ++q) out[q][k] = s[q]; if (s.size() == 16) for (int q = 8; q < 16; ++q) out[q][k] = s[q]; want[0] = false; }
      else if (cartq) x->getCartesian(d.data(), n, out[0].data(), out[1].data(), out[2].data(), want[3] ? out[3].data() : NULL, want[4] ? out[4].data() : NULL, want[5] ? out[5].data() : NULL);
      else x->getCoord(d.data(), n, P(1), P(2), P(3), P(4), P(5), P(6), P(7), P(8), P(9), P(10), P(11), P(12), P(13), P(14), P(15), P(0), pr);
    } catch (Gyoto::Error &e) { err = "error"; }
    o << "ok " << err;
    SmartPointer<Metric::Generic> g = x->metric(); bool sph = g->coordKind() == GYOTO_COORDKIND_SPHERICAL;
    std::vector<Point> b = points(l, i0);
    if (err == "-") for (size_t k = 0; k < n; ++k) {
      o << " | " << hex(d[k]);
      if (cartq) { for (int q = 0; q < 3; ++q) o << " " << char('x' + q) << "=" << hex(out[q][k]); for (int q = 3; q < 6; ++q) if (want[q]) o << " " << char('x' + q - 3) << "'=" << hex(out[q][k]); continue; }
      for (int q = 0; q < 16; ++q) if (want[q] && (q < 8 || pt)) o << " " << char('a' + q) << "=" << hex(out[q][k]);
      // the stored point, if any, in the same order
      for (auto &p : b) if (p.x[T] == d[k]) {
        double v[16] = {p.x[1 - T], p.x[2], p.x[3], p.x[4], p.x[5], p.x[6], p.x[7], p.x[8]}; for (int q = 8; q < 16; ++q) v[q] = p.x[q + 1];
        if (sph) norm(v[2], v[3], v[6]);
        o << " stored"; for (int q = 0; q < 16; ++q) if (want[q] && (q < 8 || pt)) o << " " << char('a' + q) << "=" << hex(v[q]);
        at[k] = 0; break;
      }
      // between the neighbouring stored points
      bool near = at[k] >= 0;
      if (!near) for (size_t q = 0; q + 1 < b.size(); ++q) if (b[q].x[T] <= d[k] && d[k] <= b[q + 1].x[T]) {
        near = true; double dt = b[q + 1].x[0] - b[q].x[0], wid = fabs(b[q + 1].x[1 - T] - b[q].x[1 - T]);
        if (want[0] && !(out[0][k] >= std::min(b[q].x[1 - T], b[q + 1].x[1 - T]) - .1 * wid && out[0][k] <= std::max(b[q].x[1 - T], b[q + 1].x[1 - T]) + .1 * wid)) near = false;
        double sp = std::max(fabs(b[q].x[6] / b[q].x[5]), fabs(b[q + 1].x[6] / b[q + 1].x[5]));
        if (want[1] && !(fabs(out[1][k] - b[q].x[2]) <= 2. * dt * sp + .05 * fabs(b[q].x[2]) + .3 * dt)) near = false;
        break;
      }
      o << " near=" << near;
    }
    l.answers += "Q" + o.str() + ";";
    return o.str(); }
  if (c == "same") { // same w r: what has been computed since and every point
    Line &r = L.at(w[2]); size_t i, j; std::vector<Point> a = points(l, i), b = points(r, j);
    if (l.answers != r.answers) { size_t k = 0; while (k < l.answers.size() && k < r.answers.size() && l.answers[k] == r.answers[k]) ++k; size_t s = k > 30 ? k - 30 : 0; return "ok answers: " + drv::clean(l.answers.substr(s, 90)) + " / " + drv::clean(r.answers.substr(s, 90)); }
    if (a.size() != b.size() || i != j) return "ok points: " + std::to_string(a.size()) + "," + std::to_string(i) + " / " + std::to_string(b.size()) + "," + std::to_string(j);
    for (size_t k = 0; k < a.size(); ++k) if (!::same(a[k], b[k])) { std::ostringstream o; o.precision(17); o << "ok point " << long(k) - long(i) << ":"; for (int q = 0; q < 9; ++q) o << " " << a[k].x[q]; o << " /"; for (int q = 0; q < 9; ++q) o << " " << b[k].x[q]; return o.str(); }
    return "ok same"; }
  return "?";
}
static void script(std::vector<std::string> const &lines) {
  for (auto &s : lines) { std::string r; try { r = step(drv::split(s)); } catch (Gyoto::Error &e) { if (getenv("DRV_STDERR")) std::cerr << s << ": " << e.get_message() << std::endl; r = "error"; } drv::obs(r); }
}
int main() { Register::init("stdplug"); Gyoto::verbose(getenv("VB")?atoi(getenv("VB")):0); return drv::loop(script, 30); }
