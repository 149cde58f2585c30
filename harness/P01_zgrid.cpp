//@ src: common/zgridparam.cpp
//@ quick: DKMAX=3 deadline=90
//@ thorough: DKMAX=12 deadline=700
//@ cover: linear log centred single
//@ bounds: zmin in [0,4], step in {2^-8, 0.001, 0.01, 2^-3}, zmax-zmin and centre arbitrary reals within KMAX steps (quick 5, thorough 12)
//@ assumes: real arithmetic (rounding outside the claim); results compared within 1e-6 of a step plus the code's own 1e-8 tolerance
#include "sym.h"
#include "RedshiftLibrary/common/zgridparam.h"
using namespace NSEpic;
extern "C" void harness() {
  static const double steps[] = {0.00390625, 0.001, 0.01, 0.125};
  const double step = steps[sym_int("step", 0, 3)];
  const bool lg = sym_bool("log");
  const bool ctr = sym_bool("centred");
  double zmin = sym_double("zmin", 0, 4);
  double w = sym_double("width", 0, (lg ? 5 : 1) * KMAX * step);
  double zmax = zmin + w;
  const double eps = 2e-8, tol = 1e-6 * step;
  TFloat64List g;
  double zc = 0;
  if (ctr) {
    sym_assume(w > 2 * eps);
    zc = sym_double("zc", 0, 4 + 5 * KMAX * step);
    sym_assume(zc > zmin + eps && zc < zmax - eps);
    g = CZGridParam(TFloat64Range(zmin, zmax), step, zc).getZGrid(lg);
    sym_cover("centred");
  } else {
    g = CZGridParam(TFloat64Range(zmin, zmax), step).getZGrid(lg);
  }
  sym_cover(lg ? "log" : "linear");
  int n = g.size();
  sym_assert(n >= 1, "grid not empty");
  if (n == 1) sym_cover("single");
  bool hasc = false;
  for (int i = 0; i < n; i++) {
    sym_assert(g[i] >= zmin - tol && g[i] <= zmax + tol, "samples inside the requested range");
    if (i > 0) {
      sym_assert(g[i] > g[i - 1], "strictly increasing");
      // a step is exact except where a border sample was clipped to the range (1e-8)
      double ref = lg ? (1 + g[i - 1]) * (exp(step) - 1) : step;
      sym_assert(sym_near(g[i] - g[i - 1], ref, tol + eps), "constant step");
    }
    if (ctr && sym_near(g[i], zc, 1e-9)) hasc = true;
  }
  double up = lg ? (1 + zmax) * (exp(step) - 1) : step;
  if (!ctr) sym_assert(sym_near(g[0], zmin, 1e-9), "starts at the lower bound");
  else {
    sym_assert(hasc, "contains the centre");
    sym_assert(g[0] - zmin <= up + tol, "lower end of the range covered within a step");
  }
  sym_assert(zmax - g[n - 1] <= up + tol, "upper end of the range covered within a step");
}
