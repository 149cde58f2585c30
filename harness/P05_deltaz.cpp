//@ src: common/flag.cpp common/mutex.cpp log/handler.cpp log/log.cpp statistics/deltaz.cpp
//@ quick: DH=7 deadline=60
//@ thorough: DH=10 deadline=200
//@ cover: fit fallback narrow
//@ bounds: regular grids of 1 to 2H samples (quick H=7, thorough H=10), candidate at every position, arbitrary log probabilities in [-1000,1000]
//@ assumes: real arithmetic
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/statistics/deltaz.h"
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
extern "C" void harness() {
  const int n = sym_int("n", 1, 2 * H), k = sym_int("k", 0, n - 1);
  TFloat64List z, y;
  for (int i = 0; i < n; i++) {
    z.push_back(1 + i / 256.); // exact
    y.push_back(sym_double(nm("y", i).c_str(), -1000, 1000));
  }
  CDeltaz op;
  const double dz = op.GetDeltaz(z, y, z[k]);
  auto curv = [&](int half, double &num, double &den) {
    num = den = 0;
    for (int i = std::max(0, k - half); i <= std::min(n - 1, k + half); i++) {
      double x = z[i] - z[k];
      num += x * x * (y[k] - y[i]); den += x * x * x * x;
    }
  };
  double a, b, c, d;
  curv(5, a, b); curv(2, c, d);
  sym_assert(dz > 0, "uncertainty is positive");
  // a tiny curvature is decided by rounding: left out
  sym_assume(n == 1 || a > 1e-12 || a < -1e-12); sym_assume(n == 1 || c > 1e-12 || c < -1e-12);
  if (n > 1 && a > 0) { sym_cover("fit"); sym_assert(sym_near(dz * dz * a / b, 1, 1e-6), "uncertainty is the inverse square root of the fitted curvature"); }
  else if (n > 1 && c > 0) { sym_cover("narrow"); sym_assert(sym_near(dz * dz * c / d, 1, 1e-6), "uncertainty from the narrow fit"); }
  else { sym_cover("fallback"); sym_assert(dz == 0.001, "default uncertainty"); }
  bool refused = false;
  try { op.GetDeltaz(z, y, z[k] + 1e-3); } catch (AmzException const &) { refused = true; }
  sym_assert(refused, "a redshift off the grid is refused");
}
