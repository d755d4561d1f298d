// A heap of named Gyoto objects manipulated through the public property interface.
#pragma once
#include "drv.h"
#include "GyotoObject.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoMetric.h"
#include "GyotoAstrobj.h"
#include "GyotoStandardAstrobj.h"
#include "GyotoThinDisk.h"
#include "GyotoWorldline.h"
#include "GyotoSpectrum.h"
#include "GyotoSpectrometer.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoComplexSpectrometer.h"
#include "GyotoScreen.h"
#include "GyotoScenery.h"
#include "GyotoPhoton.h"
#include "GyotoFactory.h"
#include "GyotoFactoryMessenger.h"
#include "GyotoUtils.h"
#include "GyotoRegister.h"
#include "GyotoDefs.h"
#include "GyotoConverters.h"
#include <map>
#include <cmath>
#include <cfloat>
#include <iomanip>
inline double strtod_(const char *s) { return strtod(s, 0); }
namespace heap {
using namespace Gyoto;
struct Obj {
  std::string cat;
  SmartPointer<Metric::Generic> gg; SmartPointer<Astrobj::Generic> ao; SmartPointer<Spectrum::Generic> sp;
  SmartPointer<Spectrometer::Generic> sr; SmartPointer<Screen> sc; SmartPointer<Photon> ph; SmartPointer<Scenery> sn;
  template <class T> static Object *raw(SmartPointer<T> const &p) { return const_cast<T *>(p()); }
  Object *o() {
    if (cat == "metric") return raw(gg);
    if (cat == "astrobj") return raw(ao);
    if (cat == "spectrum") return raw(sp);
    if (cat == "spectrometer") return raw(sr);
    if (cat == "screen") return raw(sc);
    if (cat == "photon") return raw(ph);
    if (cat == "scenery") return raw(sn);
    return nullptr;
  }
  Obj() {}
  Obj(Obj const &x) : cat(x.cat), gg(x.gg), ao(x.ao), sp(x.sp), sr(x.sr), sc(x.sc), ph(x.ph), sn(x.sn) {}
  Obj &operator=(Obj const &y) { Obj x(y); cat = x.cat; gg = x.gg; ao = x.ao; sp = x.sp; sr = x.sr; sc = x.sc; ph = x.ph; sn = x.sn; return *this; }
};
inline std::map<std::string, Obj> H;
inline std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }

inline Obj make(std::string const &cat, std::string const &kind, std::string const &plug = "") {
  Obj r; r.cat = cat; std::vector<std::string> pl; if (!plug.empty()) pl.push_back(plug);
  if (cat == "metric") r.gg = (*Metric::getSubcontractor(kind, pl))(NULL, pl);
  else if (cat == "astrobj") r.ao = (*Astrobj::getSubcontractor(kind, pl))(NULL, pl);
  else if (cat == "spectrum") r.sp = (*Spectrum::getSubcontractor(kind, pl))(NULL, pl);
  else if (cat == "spectrometer") r.sr = (*Spectrometer::getSubcontractor(kind, pl))(NULL, pl);
  else if (cat == "screen") r.sc = new Screen();
  else if (cat == "photon") r.ph = new Photon();
  else if (cat == "scenery") r.sn = new Scenery();
  else throw std::runtime_error("category " + cat);
  return r;
}
inline Obj clone(Obj &x) {
  Obj r; r.cat = x.cat;
  if (x.cat == "metric") r.gg = x.gg->clone(); else if (x.cat == "astrobj") r.ao = x.ao->clone();
  else if (x.cat == "spectrum") r.sp = x.sp->clone(); else if (x.cat == "spectrometer") r.sr = x.sr->clone();
  else if (x.cat == "screen") r.sc = x.sc->clone(); else if (x.cat == "photon") r.ph = x.ph->clone();
  else if (x.cat == "scenery") r.sn = x.sn->clone();
  return r;
}
inline std::string toxml(Obj &x) {
  if (x.cat == "metric") return Factory(x.gg).format(); if (x.cat == "astrobj") return Factory(x.ao).format();
  if (x.cat == "spectrum") return Factory(x.sp).format(); if (x.cat == "spectrometer") return Factory(x.sr).format();
  if (x.cat == "screen") return Factory(x.sc).format(); if (x.cat == "photon") return Factory(x.ph).format();
  return Factory(x.sn).format();
}
inline Obj fromxml(std::string const &cat, std::string xml) {
  Obj r; r.cat = cat;
  std::vector<char> b(xml.begin(), xml.end()); b.push_back(0);
  Factory f(b.data());
  if (cat == "metric") r.gg = f.metric(); else if (cat == "astrobj") r.ao = f.astrobj(); else if (cat == "spectrum") r.sp = f.spectrum();
  else if (cat == "spectrometer") r.sr = f.spectrometer(); else if (cat == "screen") r.sc = f.screen(); else if (cat == "photon") r.ph = f.photon();
  else r.sn = f.scenery();
  return r;
}
inline std::string kindOf(Obj &x) {
  if (x.cat == "metric") return x.gg() ? std::string(x.gg->kind()) : "NULL"; if (x.cat == "astrobj") return x.ao() ? std::string(x.ao->kind()) : "NULL";
  if (x.cat == "spectrum") return x.sp() ? std::string(x.sp->kind()) : "NULL"; if (x.cat == "spectrometer") return x.sr() ? std::string(x.sr->kind()) : "NULL";
  return x.cat;
}
inline std::vector<double> vec(std::string const &s) { std::vector<double> v; std::string w; std::istringstream is(s); while (std::getline(is, w, ',')) v.push_back(::strtod_(w.c_str())); return v; }
inline std::string esc(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '~')) s.pop_back(); for (auto &c : s) if (c == ' ') c = '~'; return s; }
inline std::string unesc(std::string s) { for (auto &c : s) if (c == '~') c = ' '; return s == "_" ? "" : s; }
inline const char *tname(int t) {
  switch (t) {
  case Property::double_t: return "double"; case Property::long_t: return "long"; case Property::unsigned_long_t: return "ulong"; case Property::size_t_t: return "size";
  case Property::bool_t: return "bool"; case Property::string_t: return "string"; case Property::filename_t: return "filename"; case Property::vector_double_t: return "vdouble";
  case Property::vector_unsigned_long_t: return "vulong"; case Property::metric_t: return "metric"; case Property::screen_t: return "screen"; case Property::astrobj_t: return "astrobj";
  case Property::spectrum_t: return "spectrum"; case Property::spectrometer_t: return "spectrometer"; default: return "empty"; }
}
inline Value parse(int t, std::string const &s) {
  switch (t) {
  case Property::double_t: return Value(s == "max" ? DBL_MAX : s == "nan" ? NAN : s == "inf" ? INFINITY : ::strtod_(s.c_str()));
  case Property::long_t: return Value((long)atol(s.c_str()));
  case Property::unsigned_long_t: return Value((unsigned long)strtoul(s.c_str(), 0, 10));
  case Property::size_t_t: return Value((size_t)strtoul(s.c_str(), 0, 10));
  case Property::bool_t: return Value(bool(s == "true" || s == "1"));
  case Property::string_t: case Property::filename_t: return Value(unesc(s));
  case Property::vector_double_t: return Value(vec(s));
  case Property::vector_unsigned_long_t: { std::vector<unsigned long> v; for (double x : vec(s)) v.push_back((unsigned long)x); return Value(v); }
  case Property::metric_t: return Value(s == "NULL" ? SmartPointer<Metric::Generic>(NULL) : H.at(s).gg);
  case Property::astrobj_t: return Value(s == "NULL" ? SmartPointer<Astrobj::Generic>(NULL) : H.at(s).ao);
  case Property::spectrum_t: return Value(s == "NULL" ? SmartPointer<Spectrum::Generic>(NULL) : H.at(s).sp);
  case Property::spectrometer_t: return Value(s == "NULL" ? SmartPointer<Spectrometer::Generic>(NULL) : H.at(s).sr);
  case Property::screen_t: return Value(s == "NULL" ? SmartPointer<Screen>(NULL) : H.at(s).sc);
  default: throw std::runtime_error("type");
  }
}
// value as a list of tokens: numbers or strings
struct Tok { bool isnum; double x; std::string s; };
typedef std::vector<Tok> Toks;
inline void push(Toks &t, double x) { t.push_back({true, x, ""}); }
inline void push(Toks &t, std::string s) { for (auto &c : s) if (c == ' ' || c == '\n' || c == ';') c = '~'; t.push_back({false, 0., s.empty() ? "_" : s}); }
inline void dump(Object *o, Toks &t, int depth);
inline void show(Value const &v, int ty, Toks &t, int depth) {
  switch (ty) {
  case Property::double_t: push(t, double(v)); break; case Property::long_t: push(t, double(long(v))); break;
  case Property::unsigned_long_t: push(t, double((unsigned long)v)); break; case Property::size_t_t: push(t, double(size_t(v))); break;
  case Property::bool_t: push(t, std::string(bool(v) ? "true" : "false")); break;
  case Property::string_t: case Property::filename_t: push(t, std::string(v)); break;
  case Property::vector_double_t: { std::vector<double> x = v; push(t, "n" + std::to_string(x.size())); for (double y : x) push(t, y); break; }
  case Property::vector_unsigned_long_t: { std::vector<unsigned long> x = v; push(t, "n" + std::to_string(x.size())); for (auto y : x) push(t, double(y)); break; }
  case Property::metric_t: { SmartPointer<Metric::Generic> p = v; if (!p) push(t, std::string("NULL")); else { push(t, std::string(p->kind())); dump(const_cast<Object*>(static_cast<Object const*>(p())), t, depth + 1); } break; }
  case Property::astrobj_t: { SmartPointer<Astrobj::Generic> p = v; if (!p) push(t, std::string("NULL")); else { push(t, std::string(p->kind())); dump(const_cast<Object*>(static_cast<Object const*>(p())), t, depth + 1); } break; }
  case Property::spectrum_t: { SmartPointer<Spectrum::Generic> p = v; if (!p) push(t, std::string("NULL")); else { push(t, std::string(p->kind())); dump(const_cast<Object*>(static_cast<Object const*>(p())), t, depth + 1); } break; }
  case Property::spectrometer_t: { SmartPointer<Spectrometer::Generic> p = v; if (!p) push(t, std::string("NULL")); else { push(t, std::string(p->kind())); dump(const_cast<Object*>(static_cast<Object const*>(p())), t, depth + 1); } break; }
  case Property::screen_t: { SmartPointer<Screen> p = v; if (!p) push(t, std::string("NULL")); else { push(t, std::string("Screen")); dump(const_cast<Object*>(static_cast<Object const*>(p())), t, depth + 1); } break; }
  default: push(t, std::string("?"));
  }
}
inline void dump(Object *o, Toks &t, int depth) {
  if (depth > 4) { push(t, std::string("deep")); return; }
  push(t, std::string("{"));
  Property const *p = o->getProperties();
  bool scenery = dynamic_cast<Scenery *>(o) != nullptr;   // InitCoord of a scenery is that of the last ray, not a parameter
  while (p) {
    if (*p) {
      if (p->type != Property::empty_t && !(scenery && p->name == "InitCoord")) {
        push(t, "@" + p->name);
        try { show(o->get(*p), p->type, t, depth); } catch (Gyoto::Error &) { push(t, std::string("ERR")); }
      }
      ++p;
    } else p = p->parent;
  }
  push(t, std::string("}"));
}
inline std::string str(Toks const &t) { std::ostringstream o; for (auto &k : t) o << (k.isnum ? num(k.x) : k.s) << " "; return o.str(); }
inline bool close(double a, double b, double tol) {
  if (a == b) return true; if (std::isnan(a) && std::isnan(b)) return true;
  if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b));
}
// first difference, or "" if equal
// rel: numbers of a group (what follows a label) are also equal when they differ by less than rel times the largest of the group
inline std::string diff(Toks const &a, Toks const &b, double tol, double rel = 0.) {
  std::string ctx; double floor = 0.;
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
    if (i >= a.size() || i >= b.size()) return ctx + ":length";
    if (!a[i].isnum && a[i].s[0] == '@') {
      ctx = a[i].s; double big = 0.;
      if (rel > 0.) for (size_t j = i + 1; j < a.size() && (a[j].isnum || a[j].s[0] != '@'); ++j) if (a[j].isnum && std::fabs(a[j].x) < 1e100) big = std::max(big, std::fabs(a[j].x));
      floor = rel * big;
    }
    if (a[i].isnum != b[i].isnum || (a[i].isnum ? !(close(a[i].x, b[i].x, tol) || std::fabs(a[i].x - b[i].x) <= floor) : a[i].s != b[i].s))
      return ctx + ":" + (a[i].isnum ? num(a[i].x) : a[i].s) + "!=" + (b[i].isnum ? num(b[i].x) : b[i].s);
  }
  return "";
}
template <class F> void guard(Toks &t, F f) { size_t n = t.size(); try { f(); } catch (Gyoto::Error &e) { if (getenv("DRV_STDERR")) std::cerr << e.get_message() << std::endl; t.resize(n); push(t, std::string("ERR")); } }

inline void evalMetric(SmartPointer<Metric::Generic> g, Toks &t) {
  bool sph = g->coordKind() == GYOTO_COORDKIND_SPHERICAL;
  double P[4][4] = {{0., 10., 1.2, .3}, {5., 6.5, 2.1, -2.}, {-3., 30., .7, 1.}, {100., 4.2, 1.5707963267948966, 0.}};
  double C[4][4] = {{0., 8., 4., 3.}, {5., -6., 5., 2.}, {-3., 0.5, -30., 4.}, {100., 9., -3., 0.1}};
  push(t, double(g->mass())); push(t, g->unitLength());
  for (int q = 0; q < 4; ++q) {
    double *x = sph ? P[q] : C[q];
    push(t, "@gmunu" + std::to_string(q));
    guard(t, [&] { double m[4][4]; g->gmunu(m, x); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) push(t, m[i][j]); });
    push(t, std::string("@gmunu_comp"));
    guard(t, [&] { for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) push(t, g->gmunu(x, i, j)); });
    push(t, std::string("@gmunu_up"));
    guard(t, [&] { double m[4][4]; g->gmunu_up(m, x); for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) push(t, m[i][j]); });
    push(t, std::string("@christoffel"));
    guard(t, [&] { double d[4][4][4]; for (auto &a : d) for (auto &b : a) for (auto &c : b) c = 0.; g->christoffel(d, x); for (auto &a : d) for (auto &b : a) for (auto &c : b) push(t, c); });
    push(t, std::string("@circular"));
    guard(t, [&] { double v[4] = {0, 0, 0, 0}; g->circularVelocity(x, v, 1.); for (double y : v) push(t, y); });
    push(t, std::string("@zamo"));
    guard(t, [&] { double v[4] = {0, 0, 0, 0}; g->zamoVelocity(x, v); for (double y : v) push(t, y); });
    push(t, std::string("@stop"));
    guard(t, [&] { double c[8] = {x[0], x[1] * .25, x[2], x[3], 1., -.2, .01, .001}; push(t, double(g->isStopCondition(c))); });
    push(t, std::string("@norm"));
    guard(t, [&] { double u[4] = {1., .1, .02, .01}; push(t, g->ScalarProd(x, u, u)); });
    push(t, std::string("@tdot"));
    guard(t, [&] { double u[3] = {.01, .002, .001}; push(t, g->SysPrimeToTdot(x, u)); });
  }
  push(t, std::string("@rms")); guard(t, [&] { push(t, g->getRms()); });
  push(t, std::string("@rmb")); guard(t, [&] { push(t, g->getRmb()); });
  push(t, std::string("@potential")); guard(t, [&] { push(t, g->getPotential(sph ? P[0] : C[0], 3.9)); });
  push(t, std::string("@deltaMax")); guard(t, [&] { double c[8] = {0., 10., 1.2, .3, 1., 0., 0., .01}; push(t, g->deltaMax(c, DBL_MAX)); push(t, g->deltaMin()); });
}
inline void evalSpectrum(SmartPointer<Spectrum::Generic> s, Toks &t) {
  for (double nu : {1e9, 1e12, 3e14, 2.4e17}) { push(t, std::string("@nu")); guard(t, [&] { push(t, (*s)(nu)); }); }
  push(t, std::string("@opq")); guard(t, [&] { push(t, (*s)(1e14, 1e-3, 10.)); });
  push(t, std::string("@int")); guard(t, [&] { push(t, s->integrate(1e14, 2e14)); });
}
inline void evalSpectrometer(SmartPointer<Spectrometer::Generic> s, Toks &t) {
  size_t n = s->nSamples(), nb = s->getNBoundaries();
  push(t, double(n)); push(t, double(nb));
  guard(t, [&] {
    double const *b = s->getChannelBoundaries(), *m = s->getMidpoints(), *w = s->getWidths(); size_t const *ix = s->getChannelIndices();
    push(t, std::string("@bounds")); if (b) for (size_t i = 0; i < nb; ++i) push(t, b[i]);
    push(t, std::string("@mid")); if (m) for (size_t i = 0; i < n; ++i) push(t, m[i]);
    push(t, std::string("@width")); if (w) for (size_t i = 0; i < n; ++i) push(t, w[i]);
    push(t, std::string("@index")); if (ix) for (size_t i = 0; i < 2 * n; ++i) push(t, double(ix[i]));
  });
}
inline void evalScreen(SmartPointer<Screen> s, Toks &t) {
  size_t n = s->resolution();
  push(t, double(n));
  for (size_t j : {size_t(1), (n + 1) / 2, n}) for (size_t i : {size_t(1), n}) {
    push(t, "@ray" + std::to_string(i) + "," + std::to_string(j));
    guard(t, [&] { double c[8], a[4], b[4]; s->getRayTriad(i, j, c, true, a, b); for (double y : c) push(t, y); for (double y : a) push(t, y); for (double y : b) push(t, y); });
    push(t, std::string("@mask")); guard(t, [&] { push(t, double((*s)(i, j))); });
  }
  push(t, std::string("@pos")); guard(t, [&] { double p[4]; s->getObserverPos(p); for (double y : p) push(t, y); });
  push(t, std::string("@vel")); guard(t, [&] { double p[4]; s->getFourVel(p); for (double y : p) push(t, y); });
  push(t, std::string("@sky")); guard(t, [&] { double p[4] = {0., 10., 1., .5}, q[3]; s->coordToSky(p, q); for (double y : q) push(t, y); });
  push(t, std::string("@fov")); guard(t, [&] { push(t, s->fieldOfView()); push(t, s->distance()); push(t, s->freqObs()); });
  push(t, std::string("@spectro")); if (s->spectrometer()) evalSpectrometer(s->spectrometer(), t); else push(t, std::string("none"));
}
// image of the scenery with its requested (or default) quantities
inline void render(SmartPointer<Scenery> S, Toks &t, size_t nthreads = 0) {
  SmartPointer<Screen> s = S->screen(); size_t n = s->resolution(), nn = n * n;
  size_t ns = s->spectrometer() ? s->spectrometer()->nSamples() : 0;
  std::vector<double> I(nn, -1), T(nn, -1), D(nn, -1), R(nn, -1), SP(nn * std::max<size_t>(ns, 1), -1), BS(nn * std::max<size_t>(ns, 1), -1), IC(nn * 16, -1), FD(nn, -1), U(nn, -1);
  Astrobj::Properties d;
  Quantity_t q = S->getRequestedQuantities(); if (!q) q = GYOTO_QUANTITY_INTENSITY;
  if (q & GYOTO_QUANTITY_INTENSITY) d.intensity = I.data();
  if (q & GYOTO_QUANTITY_EMISSIONTIME) d.time = T.data();
  if (q & GYOTO_QUANTITY_MIN_DISTANCE) d.distance = D.data();
  if (q & GYOTO_QUANTITY_FIRST_DMIN) d.first_dmin = FD.data();
  if (q & GYOTO_QUANTITY_REDSHIFT) d.redshift = R.data();
  if (ns && (q & GYOTO_QUANTITY_SPECTRUM)) d.spectrum = SP.data();
  if (ns && (q & GYOTO_QUANTITY_BINSPECTRUM)) d.binspectrum = BS.data();
  if (q & GYOTO_QUANTITY_IMPACTCOORDS) d.impactcoords = IC.data();
  if (q & GYOTO_QUANTITY_USER4) d.user4 = U.data();
  d.offset = nn; d.alloc = true;
  if (nthreads) S->nThreads(nthreads);
  Screen::Range ri(1, n, 1), rj(1, n, 1); Screen::Grid g(ri, rj);
  S->rayTrace(g, &d);
  auto put = [&](const char *nm, double *p, std::vector<double> &v) { if (!p) return; push(t, std::string("@") + nm); for (double x : v) push(t, x); };
  put("I", d.intensity, I); put("T", d.time, T); put("D", d.distance, D); put("F", d.first_dmin, FD); put("R", d.redshift, R);
  put("S", d.spectrum, SP); put("B", d.binspectrum, BS); put("C", d.impactcoords, IC); put("U4", d.user4, U);
}
inline SmartPointer<Scenery> stage(SmartPointer<Astrobj::Generic> a, size_t npix, std::string const &quant, size_t nspec = 2, double inc = 1.3, double fov = 0.) {
  SmartPointer<Metric::Generic> g = a->metric();
  if (!g) GYOTO_ERROR("no metric");
  SmartPointer<Screen> s = new Screen(); s->metric(g); s->resolution(npix); s->distance(100., "geometrical"); s->time(900., "geometrical_time"); s->inclination(inc); s->PALN(M_PI); s->argument(-M_PI/2);
  s->fieldOfView(fov > 0. ? fov : .2);
  SmartPointer<Spectrometer::Uniform> sp = new Spectrometer::Uniform(); sp->kind("freqlog"); sp->nSamples(nspec); sp->band({11., 14.5}, "Hz"); s->spectrometer(sp); s->freqObs(1e12);
  SmartPointer<Scenery> S = new Scenery(g, s, a);
  S->requestedQuantitiesString(quant);
  S->absTol(1e-7); S->relTol(1e-7); S->delta(1.); S->tMin(500.); S->maxiter(3000);
  return S;
}
inline void evalAstrobj(SmartPointer<Astrobj::Generic> a, Toks &t) {
  push(t, std::string("@rmax")); guard(t, [&] { push(t, a->rMax()); });
  push(t, std::string("@optthin")); guard(t, [&] { push(t, double(a->opticallyThin())); });
  std::string k = a->kind(); bool slow = k == "SphericalAccretion" || k == "ThickDisk" || k == "Jet";
  double fov = slow ? .12 : .26; size_t n = slow ? 2 : 4;
  // the functions the object is made of, at points around the places the objects of the table occupy
  if (a->metric() && !dynamic_cast<Worldline *>(&*a)) {
    bool sph = a->metric()->coordKind() == GYOTO_COORDKIND_SPHERICAL;
    Astrobj::Standard *st = dynamic_cast<Astrobj::Standard *>(&*a); Astrobj::ThinDisk *td = dynamic_cast<Astrobj::ThinDisk *>(&*a);
    for (double r : {4.2, 7.1, 8.7, 10.3}) for (double z : {0., .06}) {
      double pos[8] = {640., r, M_PI / 2 - z, .6, 1., 0., 0., 0.};
      if (!sph) { pos[1] = r * cos(z) * cos(.6); pos[2] = r * cos(z) * sin(.6); pos[3] = r * sin(z); }
      bool vel = false;
      push(t, std::string("@function")); guard(t, [&] { if (st) push(t, (*st)(pos)); if (td) push(t, (*td)(pos)); });
      push(t, std::string("@velocity")); guard(t, [&] { if (st) st->getVelocity(pos, pos + 4); if (td) td->getVelocity(pos, pos + 4); vel = st || td; for (int k = 4; k < 8; ++k) push(t, pos[k]); });
      if (vel && st) { push(t, std::string("@delta")); guard(t, [&] { double c[8]; for (int k = 0; k < 8; ++k) c[k] = pos[k]; push(t, st->giveDelta(c)); }); }
    }
  }
  push(t, std::string("@image"));
  std::string first = k == "PageThorneDisk" ? "User4 EmissionTime Redshift" : "Intensity EmissionTime Redshift";
  size_t n0 = t.size();
  try { render(stage(a, n, first + (slow ? " Spectrum" : " Spectrum BinSpectrum"), 1, 1.3, fov), t); return; } catch (Gyoto::Error &e) { t.resize(n0); }
  guard(t, [&] { render(stage(a, n, first, 1, 1.3, fov), t); });
  push(t, std::string("@spectrum")); guard(t, [&] { render(stage(a, n, "Spectrum", 1, 1.3, fov), t); });
}
inline void evalPhoton(SmartPointer<Photon> p, Toks &t) {
  push(t, std::string("@state"));
  push(t, std::string("@init")); guard(t, [&] { state_t c; p->getInitialCoord(c); for (double x : c) push(t, x); });
  push(t, std::string("@path")); guard(t, [&] {
    p->reset(); state_t c; p->getInitialCoord(c); double t0 = c[0];
    for (double dt : {-5., 4., -20.}) { p->xFill(t0 + dt); }
    for (double dt : {-5., 3., -18.5}) { double date[1] = {t0 + dt}, a[1], b[1], d[1]; p->getCoord(date, 1, a, b, d); push(t, a[0]); push(t, b[0]); push(t, d[0]); }
  });
}
inline void eval(Obj &x, Toks &t) {
  if (x.cat == "metric") evalMetric(x.gg, t); else if (x.cat == "spectrum") evalSpectrum(x.sp, t); else if (x.cat == "spectrometer") evalSpectrometer(x.sr, t);
  else if (x.cat == "screen") evalScreen(x.sc, t); else if (x.cat == "astrobj") evalAstrobj(x.ao, t); else if (x.cat == "photon") evalPhoton(x.ph, t);
  else if (x.cat == "scenery") guard(t, [&] { if (x.sn->screen()) evalScreen(x.sn->screen(), t); render(x.sn, t); });
}
// one command; returns the observation
inline std::string command(std::vector<std::string> const &w) {
  std::string const &c = w[0];
  try {
    if (c == "new") { H.erase(w[1]); H[w[1]] = make(w[2], w.size() > 3 ? w[3] : "", w.size() > 4 ? w[4] : ""); return "ok"; }
    if (c == "del") { H.erase(w[1]); return "ok"; }
    if (c == "alias") { H[w[2]] = H.at(w[1]); return "ok"; }
    Obj &x = H.at(w[1]);
    if (c == "set") {
      Property const *p = x.o()->property(w[2]);
      Value v = p ? parse(p->type, w[3]) : Value(1.);
      if (w.size() > 4) x.o()->set(w[2], v, unesc(w[4])); else x.o()->set(w[2], v);
      return "ok";
    }
    if (c == "settype") { // value of a type that may not be the property's
      Value v;
      if (w[3] == "double") v = Value(::strtod_(w[4].c_str())); else if (w[3] == "string") v = Value(unesc(w[4])); else if (w[3] == "bool") v = Value(w[4] == "true");
      else if (w[3] == "vdouble") v = Value(vec(w[4])); else if (w[3] == "metric") v = Value(H.at(w[4]).gg); else if (w[3] == "spectrum") v = Value(H.at(w[4]).sp); else if (w[3] == "long") v = Value(atol(w[4].c_str()));
      else if (w[3] == "screen") v = Value(H.at(w[4]).sc); else if (w[3] == "astrobj") v = Value(H.at(w[4]).ao);
      if (w.size() > 5) x.o()->set(w[2], v, unesc(w[5])); else x.o()->set(w[2], v);
      return "ok";
    }
    if (c == "setp") { int r = x.o()->setParameter(w[2], unesc(w[3]), w.size() > 4 ? unesc(w[4]) : ""); return r ? "unknown" : "ok"; }
    if (c == "get") {
      Property const *p = x.o()->property(w[2]); if (!p) { x.o()->get(w[2]); return "noprop"; }
      Toks t; Value v = w.size() > 3 ? x.o()->get(w[2], unesc(w[3])) : x.o()->get(w[2]); show(v, p->type, t, 3); return "ok " + str(t);
    }
    if (c == "rawreads") { // raw value of each listed property; objects by the heap name they are stored under
      std::ostringstream o; o << "ok";
      for (size_t i = 2; i < w.size(); ++i) {
        Property const *p = x.o()->property(w[i]); if (!p) { o << " noprop"; continue; }
        try {
          Value v = x.o()->get(w[i]); const void *q = nullptr; bool isref = true;
          switch (p->type) {
          case Property::metric_t: q = SmartPointer<Metric::Generic>(v)(); break; case Property::astrobj_t: q = SmartPointer<Astrobj::Generic>(v)(); break;
          case Property::spectrum_t: q = SmartPointer<Spectrum::Generic>(v)(); break; case Property::spectrometer_t: q = SmartPointer<Spectrometer::Generic>(v)(); break;
          case Property::screen_t: q = SmartPointer<Screen>(v)(); break; default: isref = false;
          }
          if (isref) {
            std::string nm = q ? "?" : "NULL";
            for (auto &h : H) if (q) { const void *r = h.second.cat == "metric" ? (const void *)h.second.gg() : h.second.cat == "astrobj" ? (const void *)h.second.ao() : h.second.cat == "spectrum" ? (const void *)h.second.sp() :
                h.second.cat == "spectrometer" ? (const void *)h.second.sr() : h.second.cat == "screen" ? (const void *)h.second.sc() : nullptr; if (r == q) nm = h.first; }
            o << " " << nm;
          } else { Toks t; show(v, p->type, t, 3); std::string r; for (auto &k : t) if (!(p->type == Property::vector_double_t || p->type == Property::vector_unsigned_long_t) || k.isnum) r += (r.empty() ? "" : ",") + (k.isnum ? num(k.x) : esc(k.s)); o << " " << (r.empty() ? "_" : r); }
        } catch (Gyoto::Error &) { o << " ERR"; }
      }
      return o.str();
    }
    if (c == "dump") { Toks t; dump(x.o(), t, 0); return "ok " + str(t); }
    if (c == "eval") { Toks t; eval(x, t); return "ok " + str(t); }
    if (c == "own") { // own a prop param value: change a parameter of what a refers to
      Property const *p = x.o()->property(w[2]); if (!p) return "noprop";
      Value v = x.o()->get(*p); Object *q = nullptr;
      switch (p->type) {
      case Property::metric_t: q = Obj::raw(SmartPointer<Metric::Generic>(v)); break; case Property::astrobj_t: q = Obj::raw(SmartPointer<Astrobj::Generic>(v)); break;
      case Property::spectrum_t: q = Obj::raw(SmartPointer<Spectrum::Generic>(v)); break; case Property::spectrometer_t: q = Obj::raw(SmartPointer<Spectrometer::Generic>(v)); break;
      case Property::screen_t: q = Obj::raw(SmartPointer<Screen>(v)); break; default: break;
      }
      if (!q) return "error NULL";
      Property const *r = q->property(w[3]); q->set(w[3], r ? parse(r->type, w[4]) : Value(1.));
      return "ok";
    }
    if (c == "kind") return "ok " + kindOf(x);
    if (c == "clone") { Obj y = clone(x); H[w[2]] = y; return "ok"; }
    if (c == "xml") { Obj y = fromxml(x.cat, toxml(x)); H[w[2]] = y; return "ok"; }
    if (c == "xmlbad") { // a document that must be refused, made from a valid one
      std::string a = toxml(x); std::string const &m = w[2]; size_t i;
      if (m == "unknown") { i = a.rfind("</"); if (i == std::string::npos) { i = a.rfind("/>"); std::string root = x.cat == "metric" ? "Metric" : x.cat == "spectrum" ? "Spectrum" : x.cat == "spectrometer" ? "Spectrometer" : "Astrobj"; a = a.substr(0, i) + "><NoSuchProperty>1</NoSuchProperty></" + root + ">"; } else a.insert(i, "<NoSuchProperty>1</NoSuchProperty>"); }
      else if (m == "truncated") a = a.substr(0, a.size() * 2 / 3);
      else if (m == "kind") { i = a.find("kind=\""); if (i == std::string::npos) return "error no kind"; size_t j = a.find('"', i + 6); a = a.substr(0, i) + "kind=\"NoSuchKind" + a.substr(j); }
      else if (m == "plugin") { i = a.find("plugin=\""); if (i == std::string::npos) return "error no plugin"; size_t j = a.find('"', i + 8); a = a.substr(0, i) + "plugin=\"nosuchplugin" + a.substr(j); }
      else if (m == "empty") a = "<?xml version=\"1.0\"?>\n";
      else if (m == "root") a = "<?xml version=\"1.0\"?>\n<Elephant kind=\"grey\"/>\n";
      Obj y = fromxml(x.cat, a); return y.o() ? "ok" : "error null object";
    }
    if (c == "xmltext") return "ok " + drv::clean(toxml(x));
    if (c == "xmlfix") { std::string a = toxml(x); Obj y = fromxml(x.cat, a); std::string b = toxml(y); return a == b ? "ok same" : "ok differs"; }
    if (c == "same") { // same a b [tol]: properties and behaviour
      Obj &y = H.at(w[2]); double tol = w.size() > 3 ? ::strtod_(w[3].c_str()) : 1e-9;
      std::string k1 = kindOf(x), k2 = kindOf(y); if (k1 != k2) return "ok kind:" + k1 + "!=" + k2;
      Toks a, b; dump(x.o(), a, 0); dump(y.o(), b, 0); std::string d = diff(a, b, 1e-10); if (!d.empty()) return "ok prop:" + d;
      a.clear(); b.clear(); eval(x, a); eval(y, b); d = diff(a, b, tol, tol > 1e-6 ? 1e-12 : 0.); if (!d.empty()) return "ok eval:" + d;
      return "ok same";
    }
    if (c == "sameprops") { Obj &y = H.at(w[2]); Toks a, b; dump(x.o(), a, 0); dump(y.o(), b, 0); std::string d = diff(a, b, 1e-10); return d.empty() ? "ok same" : "ok prop:" + d; }
    if (c == "props") {
      std::ostringstream o; o << "ok"; Property const *p = x.o()->getProperties();
      while (p) { if (*p) { if (p->type != Property::empty_t) { o << " " << p->name << ":" << tname(p->type) << ":" << (p->type == Property::bool_t ? p->name_false : "") << ":";
            bool u = (p->type == Property::double_t && p->setter_unit.set_double) || (p->type == Property::vector_double_t && p->setter_unit.set_vdouble); o << (u ? "unit" : "") << "="; 
            Toks t; try { show(x.o()->get(*p), p->type, t, 3); } catch (Gyoto::Error &) { push(t, std::string("ERR")); } std::string s = str(t); for (auto &ch : s) if (ch == ' ') ch = ','; o << s; } ++p; } else p = p->parent; }
      return o.str();
    }
    if (c == "threadsafe") return x.o()->isThreadSafe() ? "ok 1" : "ok 0";
    return "badcommand";
  } catch (Gyoto::Error &e) { return "error " + drv::clean(e.get_message()); }
  catch (std::out_of_range &e) { return std::string("stdexcept ") + e.what(); }
  catch (std::exception &e) { return std::string("stdexcept ") + drv::clean(e.what()); }
}
}
