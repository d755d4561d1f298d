// replays PixelSets.tla behaviours on Screen::Range, Indices, Angles, RepeatAngle, Grid, Bucket, Empty
#include "drv.h"
#include "pixsel.h"
#include <cmath>
static void script(std::vector<std::string> const &lines) {
  PixSel ps; ps.unit = 0.125; bool two = false, made = false;
  for (auto &ln : lines) {
    auto w = drv::split(ln); std::ostringstream o;
    try {
      if (w[0] == "make") { two = ps.make(w, 1); made = true; }
      else if (!made) { drv::obs("1"); continue; }
      else if (w[0] == "inc") { if (two) ++*ps.s; else ++*ps.a; }
      else if (w[0] == "begin") { if (two) ps.s->begin(); else ps.a->begin(); }
      if (two) {
        bool v = ps.s->valid(); bool ang = ps.s->kind == Gyoto::Screen::angle;
        o << "0 " << v << " " << ps.s->size() << " " << ang;
        if (v) { if (ang) { auto x = ps.s->angles(); o << " " << x[0] / ps.unit << " " << x[1] / ps.unit; } else { auto x = **ps.s; o << " " << x[0] << " " << x[1]; } }
      } else {
        bool v = ps.a->valid(); bool ang = ps.a->kind == Gyoto::Screen::angle;
        o << "0 " << v << " " << ps.a->size() << " " << ang;
        if (v) { if (ang) o << " " << ps.a->angle() / ps.unit; else o << " " << **ps.a; o << " " << ps.a->index(); }
      }
    } catch (Gyoto::Error &) { o.str("1"); }
    drv::obs(o.str());
  }
}
int main() { return drv::loop(script); }
