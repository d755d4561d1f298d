// replays Units.tla behaviours on the unit converters and on properties with units
#include "drv.h"
#include "GyotoConverters.h"
#include "GyotoMetric.h"
#include "GyotoScreen.h"
#include "GyotoAstrobj.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoUtils.h"
#include "GyotoRegister.h"
#include "GyotoFactoryMessenger.h"
#include "GyotoDefs.h"
#include <map>
#include <cmath>
#include <udunits2.h>
using namespace Gyoto;
typedef SmartPointer<Metric::Generic> MG;
static std::vector<std::string> pl{"stdplug"};
static MG gg; static SmartPointer<Screen> scr; static std::map<std::string, SmartPointer<Astrobj::Generic>> obs_;
static std::string fmt(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
static void length(int j) { gg->mass(pow(10., j) / GYOTO_G_OVER_C_SQUARE); }
static Object *target(std::string const &p, std::string &name) {
  size_t d = p.find('.'); std::string k = p.substr(0, d); name = p.substr(d + 1);
  if (k == "Screen") { if (!scr) { scr = new Screen(); scr->metric(gg); } return &*scr; }
  auto &o = obs_[k]; if (!o) { o = (*Astrobj::getSubcontractor(k, pl))(NULL, pl); o->metric(gg); } return &*o;
}
static double call(std::string const &f, bool to, double v, std::string const &u, MG const &g) {
  using namespace Units;
  if (f == "Meters") return to ? ToMeters(v, u, g) : FromMeters(v, u, g);
  if (f == "Seconds") return to ? ToSeconds(v, u, g) : FromSeconds(v, u, g);
  if (f == "Kilograms") return to ? ToKilograms(v, u) : FromKilograms(v, u);
  if (f == "Geometrical") return to ? ToGeometrical(v, u, g) : FromGeometrical(v, u, g);
  if (f == "GeometricalTime") return to ? ToGeometricalTime(v, u, g) : FromGeometricalTime(v, u, g);
  return to ? ToHerz(v, u) : FromHerz(v, u);
}
static std::string step(std::vector<std::string> const &w) {
  std::string op = w[0]; auto U = [&](size_t i) { return i < w.size() && w[i] != "_" ? w[i] : std::string(); }; auto V = [&](size_t i) { return ::strtod(w[i].c_str(), NULL); };
  if (op == "const") { // independent of the code: the units library itself, or the definitions
    ut_set_error_message_handler(ut_ignore); ut_system *s = ut_read_xml(NULL); std::ostringstream o; o << "ok";
    for (size_t i = 1; i < w.size(); ++i) { size_t d = w[i].find('>'); ut_unit *a = ut_parse(s, w[i].substr(0, d).c_str(), UT_UTF8), *b = ut_parse(s, w[i].substr(d + 1).c_str(), UT_UTF8); cv_converter *c = a && b ? ut_get_converter(a, b) : NULL; o << " " << (c ? fmt(cv_convert_double(c, 1.)) : "-"); }
    return o.str(); }
  if (op == "mass") { if (w[1] == "99") { return "ok"; } length(atoi(w[1].c_str())); return "ok"; }
  bool nom = op[0] == 'n'; if (nom) op = op.substr(1); MG none; MG const &g = nom ? none : gg;   // nto: without a metric
  if (op == "to") return "ok " + fmt(call(w[1], true, V(2), U(3), g));
  if (op == "from") return "ok " + fmt(call(w[1], false, V(2), U(3), g));
  if (op == "convert") { int how = atoi(w[4].c_str()); Units::Unit a(U(2)), b(U(3)); double v = V(1);
    if (how == 0) return "ok " + fmt(Units::Converter(a, b)(v)); if (how == 1) return "ok " + fmt(b.To(v, a)); if (how == 2) return "ok " + fmt(a.From(v, b));
    Units::Converter c(Units::Unit("km"), Units::Unit("m")); try { c.reset(a, b); } catch (Gyoto::Error &e) { if (fabs(c(2.) - 2000.) > 1e-6) return "broken"; throw; } return "ok " + fmt(c(v)); }
  if (op == "set") { std::string n; Object *o = target(w[1], n); if (w[4] == "0") o->set(n, Value(V(2)), U(3)); else { if (o->setParameter(n, w[2], U(3))) return "error unknown"; } return "ok"; }
  if (op == "read") { std::string n; Object *o = target(w[1], n); return "ok " + fmt(double(U(2) == "" ? o->get(n) : o->get(n, U(2)))); }
  return "?";
}
static void script(std::vector<std::string> const &lines) {
  gg = (*Metric::getSubcontractor("KerrBL", pl))(NULL, pl); length(0);
  for (auto &s : lines) { std::string r; try { r = step(drv::split(s)); } catch (Gyoto::Error &e) { r = "error " + drv::clean(e.get_message()); } drv::obs(r); }
}
int main() { Register::init("stdplug"); Gyoto::verbose(0); return drv::loop(script, 30); }
