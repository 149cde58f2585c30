//@ src: common/zgridparam.cpp
//@ quick: deadline=90
//@ thorough: deadline=700
//@ cover: one two clipped
//@ assumes: refined windows do not overlap (candidate separation guarantees it in the pipeline)
//@ bounds: main grid of 6 regular samples (step 0.5); one or two refined windows with arbitrary real centres inside the range, half width 0.5, refined step 0.25, clipped to the range
#include "sym.h"
#include "RedshiftLibrary/common/zgridparam.h"
#include <string>
#include <algorithm>
using namespace NSEpic;
extern "C" void harness() {
  const double a = 1, b = 3.5, cs = 0.5, fs = 0.25, hw = 0.5;
  int nw = sym_int("windows", 1, 2);
  TZGridListParams ps{CZGridParam(TFloat64Range(a, b), cs)};
  std::vector<TFloat64List> subs;
  for (int k = 0; k < nw; k++) {
    double c = sym_double(("c" + std::to_string(k)).c_str(), a + 0.01, b - 0.01);
    TFloat64Range r(std::max(c - hw, a), std::min(c + hw, b));
    if (r.GetBegin() == a || r.GetEnd() == b) sym_cover("clipped");
    ps.push_back(CZGridParam(r, fs, c));
    subs.push_back(ps.back().getZGrid(false));
    if (k) sym_assume(subs[0].back() + 1e-6 < subs[1].front() || subs[1].back() + 1e-6 < subs[0].front());
  }
  TFloat64List main = ps[0].getZGrid(false);
  TFloat64List g = CZGridListParams(ps).getZGrid(false);
  sym_cover(nw == 1 ? "one" : "two");
  for (size_t i = 1; i < g.size(); i++) sym_assert(g[i] > g[i - 1], "merged grid strictly increasing");
  sym_assert(sym_near(g.front(), a, 3e-8) && sym_near(g.back(), b, 3e-8), "merged grid spans the range");
  auto has = [&](double v, double t) { for (double x : g) if (sym_near(x, v, t)) return true; return false; };
  // the last inserted window is present as generated (end samples may be snapped to the range ends)
  const auto &l = subs.back();
  for (size_t i = 0; i < l.size(); i++) {
    bool end = i == 0 || i + 1 == l.size();
    sym_assert(has(l[i], end ? fs : 1e-9), "refined samples present");
  }
  for (double m : main) {
    bool in = false;
    for (auto &s : subs) if (m >= s.front() - 1e-7 && m <= s.back() + 1e-7) in = true;
    if (!in) sym_assert(has(m, 1e-9), "coarse samples outside the windows kept");
  }
}
