// builds pixel selections from their textual description
#pragma once
#include "GyotoScreen.h"
#include <memory>
#include <vector>
#include <string>
#include <stdexcept>
struct PixSel {
  std::unique_ptr<Gyoto::Screen::Coord1dSet> a, b; std::unique_ptr<Gyoto::Screen::Coord2dSet> s;
  double unit = 1.; // angle per token
  Gyoto::Screen::Coord1dSet *one(std::vector<std::string> const &w, size_t &p) {
    using namespace Gyoto;
    std::string k = w.at(p++);
    auto num = [&]() { return std::stol(w.at(p++)); };
    if (k == "R") { size_t x = num(), y = num(), d = num(); return new Screen::Range(x, y, d); }
    size_t n;
    if (k == "I") { n = num(); std::vector<size_t> v(n); for (auto &x : v) x = num(); v.resize(n + 1, 999); return new Screen::Indices(v.data(), n); }
    if (k == "A") { n = num(); std::vector<double> v(n); for (auto &x : v) x = num() * unit; v.resize(n + 1, 999.); return new Screen::Angles(v.data(), n); }
    if (k == "P") { double x = num() * unit; n = num(); return new Screen::RepeatAngle(x, n); }
    throw std::runtime_error("bad selection " + k);
  }
  // returns true if two-dimensional
  bool make(std::vector<std::string> const &w, size_t p) {
    using namespace Gyoto;
    std::string k = w.at(p);
    if (k == "E") { s.reset(new Screen::Empty()); return true; }
    if (k == "G" || k == "B") {
      ++p; a.reset(one(w, p)); b.reset(one(w, p));
      if (k == "G") s.reset(new Screen::Grid(*a, *b)); else s.reset(new Screen::Bucket(*a, *b));
      return true;
    }
    a.reset(one(w, p)); return false;
  }
};
