// replays Spectro.tla behaviours on Gyoto spectrometers
#include "drv.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoComplexSpectrometer.h"
#include "GyotoFactory.h"
#include "GyotoFactoryMessenger.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoRegister.h"
#include "GyotoHooks.h"
#include <map>
#include <cmath>
using namespace Gyoto;
typedef SmartPointer<Spectrometer::Generic> SG;
struct L : Hook::Listener { int n = 0; void tell(Hook::Teller *) override { ++n; } };
static std::map<std::string, SG> H; static std::map<std::string, L *> lis;
static Spectrometer::Generic *raw(SG const &p) { return const_cast<Spectrometer::Generic *>(p()); }
static void put(std::string const &k, SG p) {
  if (H.count(k) && H[k]() && lis[k]) raw(H[k])->unhook(lis[k]);
  H[k] = p; L *l = new L; lis[k] = l; if (p()) raw(p)->hook(l);
}
static Spectrometer::Generic *at(std::string const &s) { // name or name.rank.rank
  std::string w; std::istringstream is(s); std::getline(is, w, '.'); Spectrometer::Generic *p = raw(H.at(w));
  while (std::getline(is, w, '.')) { Spectrometer::Complex *c = dynamic_cast<Spectrometer::Complex *>(p); if (!c) throw Gyoto::Error("no parts"); p = raw((*c)[atoi(w.c_str())]); }
  return p;
}
static std::string show(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
static bool close(double a, double b) { return a == b || fabs(a - b) <= 1e-12 * std::max(fabs(a), fabs(b)); }
static std::string observe(std::string const &k) {
  if (!H.count(k) || !H[k]()) return "dead";
  Spectrometer::Generic *p = raw(H[k]); std::ostringstream o;
  size_t n = p->nSamples(), nb = p->getNBoundaries();
  std::vector<double> b = p->channelBoundaries(), m = p->midpoints(), w = p->widths(); std::vector<unsigned long> ci = p->channelIndices();
  bool mid = m.size() == n, wid = w.size() == n, unit = b.size() == nb && ci.size() == 2 * n;
  for (auto c : ci) if (c >= nb) return "live badindex";
  for (size_t i = 0; i < n; ++i) { double x = b[ci[2 * i]], y = b[ci[2 * i + 1]]; mid = mid && close(m[i], x * .5 + y * .5); wid = wid && fabs(w[i] - fabs(y - x)) <= 1e-12 * (fabs(x) + fabs(y)); }
  std::vector<double> bm = p->channelBoundaries("m"), mm = p->midpoints("m"), wm = p->widths("m"), bk = p->channelBoundaries("kHz"), mk = p->midpoints("kHz"), wk = p->widths("kHz");
  for (size_t i = 0; i < nb; ++i) unit = unit && close(bm[i], 299792458. / b[i]) && close(bk[i], b[i] / 1000.);
  for (size_t i = 0; i < n; ++i) { unit = unit && close(mm[i], 299792458. / m[i]) && close(mk[i], m[i] / 1000.) && fabs(wk[i] - w[i] / 1e3) <= 1e-12 * (w[i] + b[ci[2 * i]]);
    double d = fabs(bm[ci[2 * i]] - bm[ci[2 * i + 1]]); unit = unit && fabs(wm[i] - d) <= 1e-12 * (d + bm[ci[2 * i]]); }
  // raw pointers agree with the vectors
  for (size_t i = 0; i < nb; ++i) unit = unit && p->getChannelBoundaries()[i] == b[i];
  for (size_t i = 0; i < n; ++i) unit = unit && p->getMidpoints()[i] == m[i] && p->getWidths()[i] == w[i] && p->getChannelIndices()[2 * i] == ci[2 * i];
  o << "live " << p->kind() << " " << n << " " << nb; for (auto x : b) o << " " << show(x); for (auto x : ci) o << " " << x;
  o << " " << mid << " " << wid << " " << unit << " " << (lis[k]->n > 0);
  Spectrometer::Uniform *u = dynamic_cast<Spectrometer::Uniform *>(p);
  Spectrometer::Complex *c = dynamic_cast<Spectrometer::Complex *>(p);
  o << " " << (c ? (int)c->getCardinal() : -1);
  if (u) { auto v = u->band(); o << " " << show(v[0]) << " " << show(v[1]); char const *un[] = {"Hz", "kHz", "m", "cm", "km"}; std::string kk = u->kind();
    for (auto q : un) { bool isf = std::string(q).find("Hz") != std::string::npos; if (isf != (kk.compare(0, 4, "freq") == 0)) continue; auto x = u->band(q); o << " " << q << " " << show(x[0]) << " " << show(x[1]); } }
  return o.str();
}
static void script(std::vector<std::string> const &lines) {
  for (auto &ln : lines) {
    auto w = drv::split(ln); std::string const &op = w[0]; std::string res = "ok";
    if (op == "obs") { drv::obs(observe(w[1])); continue; }
    for (auto &x : lis) if (x.second) x.second->n = 0;
    try {
      if (op == "newu") put(w[1], new Spectrometer::Uniform());
      else if (op == "newc") put(w[1], new Spectrometer::Complex());
      else if (op == "makeu") put(w[1], new Spectrometer::Uniform(atoi(w[2].c_str()), ::atof(w[3].c_str()), ::atof(w[4].c_str()),
             w[5] == "freq" ? Spectrometer::Uniform::FreqKind : w[5] == "freqlog" ? Spectrometer::Uniform::FreqLogKind : w[5] == "wave" ? Spectrometer::Uniform::WaveKind : Spectrometer::Uniform::WaveLogKind));
      else if (op == "del") { put(w[1], SG()); }
      else if (op == "n") { Spectrometer::Uniform *u = dynamic_cast<Spectrometer::Uniform *>(at(w[1])); if (w[3] == "p") at(w[1])->set("NSamples", (size_t)atoi(w[2].c_str())); else u->nSamples(atoi(w[2].c_str())); }
      else if (op == "kind") { Spectrometer::Uniform *u = dynamic_cast<Spectrometer::Uniform *>(at(w[1])); if (w[3] == "p") at(w[1])->set("Kind", w[2]);
        else if (w[3] == "i") u->kindid(w[2] == "freq" ? Spectrometer::Uniform::FreqKind : w[2] == "freqlog" ? Spectrometer::Uniform::FreqLogKind : w[2] == "wave" ? Spectrometer::Uniform::WaveKind : Spectrometer::Uniform::WaveLogKind);
        else u->kind(w[2]); }
      else if (op == "band") { Spectrometer::Uniform *u = dynamic_cast<Spectrometer::Uniform *>(at(w[1])); double b[2] = {::atof(w[2].c_str()), ::atof(w[3].c_str())}; std::vector<double> v(b, b + 2); std::string un = w[4] == "_" ? "" : w[4];
        if (w[5] == "p") { if (un == "") at(w[1])->set("Band", v); else at(w[1])->set("Band", v, un); } else if (w[5] == "i") u->band(b, un); else u->band(v, un); }
      else if (op == "append") dynamic_cast<Spectrometer::Complex *>(at(w[1]))->append(H.at(w[2]));
      else if (op == "remove") dynamic_cast<Spectrometer::Complex *>(at(w[1]))->remove(atoi(w[2].c_str()));
      else if (op == "get") { Spectrometer::Complex *c = dynamic_cast<Spectrometer::Complex *>(at(w[1])); size_t i = w[2] == "end" ? c->getCardinal() : atoi(w[2].c_str()); SG x = (*c)[i]; }
      else if (op == "badremove") { Spectrometer::Complex *c = dynamic_cast<Spectrometer::Complex *>(at(w[1])); c->remove(c->getCardinal()); }
      else if (op == "clone") put(w[2], at(w[1])->clone());
      else if (op == "xml") { std::string x = Factory(H.at(w[1])).format(); std::vector<char> b(x.begin(), x.end()); b.push_back(0); Factory f(b.data()); put(w[2], f.spectrometer()); }
      else res = "badcommand";
    } catch (Gyoto::Error &e) { res = "error " + drv::clean(e.get_message()); }
    drv::obs(res);
  }
  for (auto &x : H) if (x.second() && lis[x.first]) raw(x.second)->unhook(lis[x.first]);
  H.clear();
}
int main() { Register::init(); return drv::loop(script); }
