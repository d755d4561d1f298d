// replays Render.tla behaviours: renderings of a scenery read from XML
#include "drv.h"
#include "GyotoScenery.h"
#include "GyotoAstrobj.h"
#include "GyotoPhoton.h"
#include "GyotoMetric.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoUtils.h"
#include "GyotoRegister.h"
#include "GyotoFactory.h"
#include "GyotoSpectrometer.h"
#include <map>
#include <cfloat>
#include <cmath>
#ifdef HAVE_MPI
#include <mpi.h>
#endif
using namespace Gyoto;
// messages of the manager are recorded, and the order in which it hears from its workers can be imposed
static std::vector<int> order; static size_t onext = 0; static std::ostringstream msgs; static bool watch = false; static std::vector<bool> gone;
#ifdef HAVE_MPI
static const char *tagname(int t) { return t == Scenery::give_task ? "ask" : t == Scenery::raytrace ? "task" : t == Scenery::raytrace_done ? "done" : t == Scenery::impactcoords ? "impact" : "other"; }
extern "C" int MPI_Send(const void *b, int c, MPI_Datatype d, int to, int tag, MPI_Comm m) {
  int sz; MPI_Type_size(d, &sz); long n = long(c) * sz;
  if (watch) { if ((tag == Scenery::raytrace || tag == Scenery::raytrace_done) && n >= 16) { size_t ij[2]; double ad[2]; memcpy(ij, (const char *)b + n - 16, 16); memcpy(ad, ij, 16); if (to < int(gone.size()) && tag == Scenery::raytrace_done) gone[to] = true;
      char t[128]; if (ij[0] < 100000) snprintf(t, sizeof t, " S:%d:%s:%zu:%zu", to, tagname(tag), ij[0], ij[1]); else snprintf(t, sizeof t, " S:%d:%s:%.17g:%.17g", to, tagname(tag), ad[0], ad[1]); msgs << t; }
    else msgs << " S:" << to << ":" << tagname(tag) << ":0:0"; }
  return PMPI_Send(b, c, d, to, tag, m); }
extern "C" int MPI_Recv(void *b, int c, MPI_Datatype d, int from, int tag, MPI_Comm m, MPI_Status *st) {
  if (watch && from == MPI_ANY_SOURCE && onext < order.size()) { int w = order[onext++]; if (w > 0 && w < int(gone.size()) && !gone[w]) from = w; }
  MPI_Status s2; int r = PMPI_Recv(b, c, d, from, tag, m, &s2); if (watch) msgs << " R:" << s2.MPI_SOURCE << ":" << tagname(s2.MPI_TAG) << ":0:0"; if (st != MPI_STATUS_IGNORE) *st = s2; return r; }
#include <dirent.h>
#include <fstream>
static int workersLeft() { // processes started by this script
  char tag[64]; snprintf(tag, sizeof tag, "VERIF_MPI_TAG=%d", int(getpid())); int n = 0; DIR *d = opendir("/proc"); if (!d) return -1;
  while (dirent *e = readdir(d)) { if (!isdigit(e->d_name[0]) || atoi(e->d_name) == getpid()) continue; std::string base = std::string("/proc/") + e->d_name; std::ifstream c(base + "/comm"); std::string nm; std::getline(c, nm); if (nm.compare(0, 9, "gyoto-mpi")) continue;
    std::ifstream f(base + "/environ"); std::string x, all; while (std::getline(f, x, '\0')) if (x == tag) { ++n; break; } }
  closedir(d); return n; }
#endif
struct QQ { const char *n; Quantity_t f; double *Astrobj::Properties::*p; int w; };  // w: 0 = one value, 1 = per channel, 16 = impact coordinates
static std::vector<QQ> Q = {
  {"Intensity", GYOTO_QUANTITY_INTENSITY, &Astrobj::Properties::intensity, 0}, {"EmissionTime", GYOTO_QUANTITY_EMISSIONTIME, &Astrobj::Properties::time, 0},
  {"MinDistance", GYOTO_QUANTITY_MIN_DISTANCE, &Astrobj::Properties::distance, 0}, {"FirstDistMin", GYOTO_QUANTITY_FIRST_DMIN, &Astrobj::Properties::first_dmin, 0},
  {"Redshift", GYOTO_QUANTITY_REDSHIFT, &Astrobj::Properties::redshift, 0}, {"NbCrossEqPlane", GYOTO_QUANTITY_NBCROSSEQPLANE, &Astrobj::Properties::nbcrosseqplane, 0},
  {"ImpactCoords", GYOTO_QUANTITY_IMPACTCOORDS, &Astrobj::Properties::impactcoords, 16},
  {"User1", GYOTO_QUANTITY_USER1, &Astrobj::Properties::user1, 0}, {"User2", GYOTO_QUANTITY_USER2, &Astrobj::Properties::user2, 0}, {"User3", GYOTO_QUANTITY_USER3, &Astrobj::Properties::user3, 0},
  {"User4", GYOTO_QUANTITY_USER4, &Astrobj::Properties::user4, 0}, {"User5", GYOTO_QUANTITY_USER5, &Astrobj::Properties::user5, 0},
  {"Spectrum", GYOTO_QUANTITY_SPECTRUM, &Astrobj::Properties::spectrum, 1}, {"SpectrumStokesQ", GYOTO_QUANTITY_SPECTRUM_STOKES_Q, &Astrobj::Properties::stokesQ, 1},
  {"SpectrumStokesU", GYOTO_QUANTITY_SPECTRUM_STOKES_U, &Astrobj::Properties::stokesU, 1}, {"SpectrumStokesV", GYOTO_QUANTITY_SPECTRUM_STOKES_V, &Astrobj::Properties::stokesV, 1},
  {"BinSpectrum", GYOTO_QUANTITY_BINSPECTRUM, &Astrobj::Properties::binspectrum, 1}};
static const double UNSET = -7.25e99;
static std::string num(double v) { if (v == UNSET) return "unset"; if (v != v) return "nan"; char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
struct Buf { // one plane per quantity, n cells each
  std::map<std::string, std::vector<double>> v; Astrobj::Properties d; size_t n, nu;
  Buf(Quantity_t f, size_t cells, size_t nn, bool full) : n(cells), nu(nn) {
    if (full) d.alloc = true; d.offset = n;
    for (auto &q : Q) if (f & q.f) { auto &x = v[q.n]; x.assign(q.w == 0 ? n : q.w == 1 ? n * nu : 16 * n, UNSET); d.*(q.p) = x.data(); }
  }
  ~Buf() { d.alloc = false; }
  std::vector<double> cell(QQ const &q, size_t k) { auto &x = v[q.n]; if (q.w == 0) return {x[k]}; std::vector<double> r;
    if (q.w == 1) for (size_t c = 0; c < nu; ++c) r.push_back(x[k + c * n]); else for (size_t c = 0; c < 16; ++c) r.push_back(x[16 * k + c]); return r; }
};
static void script(std::vector<std::string> const &lines) {
  SmartPointer<Scenery> s, keep; std::map<size_t, std::vector<double>> impact; size_t impn = 0; bool mpi = false;
  for (auto &ln : lines) {
    auto w = drv::split(ln); std::string const &op = w[0]; std::ostringstream o; o << "ok";
    try {
      if (op == "load") { std::vector<char> f(w[1].begin(), w[1].end()); f.push_back(0); s = Factory(f.data()).scenery(); s->screen()->resolution(atoi(w[2].c_str())); s->nThreads(1);
        Quantity_t f2 = s->getRequestedQuantities(); o << " " << s->requestedQuantitiesString(); }
      else if (op == "clone") { keep = s; s = s->clone(); if (w[1] == "0") keep = NULL; }
      else if (op == "swap") { SmartPointer<Scenery> t = s; if (keep) { s = keep; keep = t; } }
      else if (op == "nproc") {
#ifdef HAVE_MPI
        int is = 0; MPI_Initialized(&is); if (!is) { if (!freopen("/dev/null", "r", stdin)) _exit(3); char t[32]; snprintf(t, sizeof t, "%d", int(getpid())); setenv("VERIF_MPI_TAG", t, 1); MPI_Init(NULL, NULL); } mpi = true;
#endif
        s->nProcesses(atoi(w[1].c_str())); }
      else if (op == "mpispawn") s->mpiSpawn(atoi(w[1].c_str()));
      else if (op == "mpiclone") s->mpiClone();
      else if (op == "mpiend") { s->mpiTerminate(); s->nProcesses(0);
#ifdef HAVE_MPI
        int left = workersLeft(); for (int k = 0; k < 100 && left; ++k) { usleep(100000); left = workersLeft(); } o << " left " << left;
#endif
      }
      else if (op == "order") { order.clear(); for (size_t k = 1; k < w.size(); ++k) order.push_back(atoi(w[k].c_str())); }
      else if (op == "fov") s->screen()->fieldOfView(::atof(w[1].c_str()));
      else if (op == "unit") s->requestedQuantitiesString(w.size() > 1 ? ln.substr(5) : "");
      else if (op == "mask") { size_t n = s->screen()->resolution(); if (w.size() == 1) s->screen()->mask(NULL); else { std::vector<double> m(n * n, 1.); for (size_t k = 1; k < w.size(); ++k) m[atoi(w[k].c_str())] = 0.; s->screen()->mask(m.data(), n); } }
      else if (op == "render" || op == "record" || op == "reuse") { // render <how> <threads> <quantities> pixels...
        std::string how = w[1]; s->nThreads(atoi(w[2].c_str())); Quantity_t f = 0; std::string ql = "," + w[3] + ",";
        for (auto &q : Q) if (ql.find(std::string(",") + q.n + ",") != std::string::npos) f |= q.f;
        if (op == "record") f |= GYOTO_QUANTITY_IMPACTCOORDS;
        size_t n = s->screen()->resolution(), nu = s->screen()->spectrometer() ? s->screen()->spectrometer()->nSamples() : 0;
        std::vector<std::pair<size_t, size_t>> px; std::vector<size_t> I, J; std::unique_ptr<Screen::Coord1dSet> a, b; std::unique_ptr<Screen::Coord2dSet> set; std::vector<double> aa, dd;
        size_t k = 4;
        if (how == "grid" || how == "image") { // i1 i2 di j1 j2 dj
          size_t v[6]; for (int x = 0; x < 6; ++x) v[x] = atoi(w[k++].c_str());
          a.reset(new Screen::Range(v[0], v[1], v[2])); b.reset(new Screen::Range(v[3], v[4], v[5])); set.reset(new Screen::Grid(*a, *b));
          for (size_t j = v[3]; j <= v[4]; j += v[5]) for (size_t i = v[0]; i <= v[1]; i += v[2]) px.push_back({i, j});
        } else { for (; k + 1 < w.size(); k += 2) { I.push_back(atoi(w[k].c_str())); J.push_back(atoi(w[k + 1].c_str())); px.push_back({I.back(), J.back()}); }
          if (how == "bucket") { a.reset(new Screen::Indices(I.data(), I.size())); b.reset(new Screen::Indices(J.data(), J.size())); set.reset(new Screen::Bucket(*a, *b)); }
          if (how == "angles") { double fov = s->screen()->fieldOfView(), d = fov / n, mid = (n + 1) / 2.; for (auto &p : px) { aa.push_back(-(double(p.first) - mid) * d); dd.push_back((double(p.second) - mid) * d); }
            a.reset(new Screen::Angles(aa.data(), aa.size())); b.reset(new Screen::Angles(dd.data(), dd.size())); set.reset(new Screen::Bucket(*a, *b)); } }
        bool full = how == "image"; size_t cells = full ? n * n : px.size(); Buf B(f, cells, nu, full);
        std::vector<double> ic; double *icp = NULL;
        if (op == "reuse") { ic.assign(16 * cells, UNSET); for (size_t x = 0; x < px.size(); ++x) { size_t c = full ? (px[x].second - 1) * n + px[x].first - 1 : x; auto &r = impact.at((px[x].second - 1) * n + px[x].first - 1); for (int y = 0; y < 16; ++y) ic[16 * c + y] = r[y]; } icp = ic.data(); }
        if (set) { msgs.str(""); watch = true; onext = 0; gone.assign(64, false); s->rayTrace(*set, &B.d, icp); watch = false; order.clear(); }
        else { s->screen()->computeBaseVectors(); s->setPropertyConverters(&B.d); // one by one
          for (size_t x = 0; x < px.size(); ++x) { Astrobj::Properties d; d.offset = cells; for (auto &q : Q) if (f & q.f) d.*(q.p) = B.v[q.n].data() + (q.w == 16 ? 16 * x : x); d.intensity_converter_ = B.d.intensity_converter_; d.spectrum_converter_ = B.d.spectrum_converter_; d.binspectrum_converter_ = B.d.binspectrum_converter_;
            if (how == "direct") { double fov = s->screen()->fieldOfView(), e = fov / n, mid = (n + 1) / 2.; (*s)(-(double(px[x].first) - mid) * e, (double(px[x].second) - mid) * e, &d); }
            else (*s)(px[x].first, px[x].second, &d, icp ? icp + 16 * x : NULL); } }
        // full image: everything else must be untouched
        bool stray = false; std::vector<bool> mine(cells, !full); if (full) for (auto &p : px) mine[(p.second - 1) * n + p.first - 1] = true;
        if (full) for (auto &q : Q) if (f & q.f) for (size_t c = 0; c < cells; ++c) if (!mine[c]) for (double y : B.cell(q, c)) if (y != UNSET) stray = true;
        o << (stray ? " stray" : " clean"); if (mpi) o << msgs.str();
        for (size_t x = 0; x < px.size(); ++x) { size_t c = full ? (px[x].second - 1) * n + px[x].first - 1 : x; o << " | " << px[x].first << " " << px[x].second;
          for (auto &q : Q) if (f & q.f) { auto v = B.cell(q, c); if (op == "record" && q.w == 16) { impact[(px[x].second - 1) * n + px[x].first - 1] = v; if (ql.find(",ImpactCoords,") == std::string::npos) continue; } o << " " << q.n << " " << v.size(); for (double y : v) o << " " << num(y); } }
      } else o.str("badcommand");
    } catch (Gyoto::Error &e) { o.str(""); o << "error " << drv::clean(e.get_message()); }
    drv::obs(o.str());
  }
#ifdef HAVE_MPI
  if (mpi) MPI_Finalize();
#endif
}
int main() { Register::init(); verbose(0); return drv::loop(script, 300); }
