//@ src: common/flag.cpp common/mutex.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp spectrum/axis.cpp spectrum/spectralaxis.cpp
//@ quick: deadline=100
//@ thorough: DSPLIT=40 deadline=600
//@ cover: refused formula morton inverse list unknown
//@ bounds: one or two arbitrary wavelengths in 1000-30000 A for the five published formulae (direct conversion) and the Morton inverse; lists of up to 3 arbitrary wavelengths with an arbitrary choice among constant refractive indices (n-1 between -1e-3 and 1e-2) for the iterated inverse, and the five published indices at 4 fixed wavelengths
//@ assumes: real arithmetic
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/line/airvacuum.h"
#include "RedshiftLibrary/spectrum/spectralaxis.h"
#include <string>
using namespace NSEpic;
#ifndef SPLIT
#define SPLIT 12
#endif
static const char *names[5] = {"edlen1953", "edlen1966", "PeckReeder1972", "ciddor1996", "morton2000"};
// published dispersion formulae, s = (1/lambda[um])^2
static double published(int m, double s) {
  switch (m) {
  case 0: return 1 + 6432.8e-8 + 2949810e-8 / (146 - s) + 25540e-8 / (41 - s);
  case 1: return 1 + 8342.13e-8 + 2406030e-8 / (130 - s) + 15997e-8 / (38.9 - s);
  case 2: return 1 + 0.05791817 / (238.0185 - s) + 0.00167909 / (57.362 - s);
  case 3: return 1 + 0.05792105 / (238.0185 - s) + 0.00167917 / (57.362 - s);
  default: return 1 + 8.34254e-5 + 2.406147e-2 / (130 - s) + 1.5998e-4 / (38.9 - s);
  }
}
static bool inRange(int m, double w) { return m < 2 ? w >= 2000 : w >= 3000 && w <= 19000; }
template <class F> static bool throws(F f) {
  try { f(); } catch (const AmzException &) { return true; }
  return false;
}
extern "C" void harness() {
  const int mode = sym_int("mode", 0, 4);
  if (mode == 0) { // direct conversion and range of validity
    const int m = sym_int("method", 0, 4), n = sym_int("n", 0, 2);
    auto c = CAirVacuumConverter::Get(names[m]);
    TFloat64List w;
    bool ok = n > 0;
    for (int i = 0; i < n; i++) w.push_back(sym_double(i ? "w1" : "w0", 1000, 30000));
    for (double x : w) ok = ok && inRange(m, x);
    TFloat64List air;
    bool refused = throws([&] { air = c->VacToAir(w); });
    sym_assert(refused == !ok, "refused exactly outside the range of validity");
    if (refused) {
      sym_assert(throws([&] { c->AirToVac(w); }), "inverse refused outside the range of validity");
      sym_cover("refused");
      return;
    }
    sym_assert((int)air.size() == n, "one wavelength each");
    for (int i = 0; i < n; i++) {
      double s = 1e8 / (w[i] * w[i]), ref = published(m, s);
      SYM_NEAR(air[i] * ref, w[i], 1e-7, "vacuum wavelength over the published refractive index");
      sym_assert(air[i] < w[i], "air wavelength shorter");
    }
    sym_cover("formula");
  } else if (mode == 1) { // Morton direct inversion
    const int k = sym_int("cell", 0, SPLIT - 1);
    const double a = 3000 + 15994. * k / SPLIT, b = 3000 + 15994. * (k + 1) / SPLIT;
    CAirVacMorton2000 c;
    const double x = sym_double("air", a, b);
    const double v = c.AirToVac({x})[0];
    sym_assert(v > x && v < x * 1.0003, "vacuum wavelength longer");
    SYM_NEAR(c.VacToAir({v})[0], x, 1e-6, "inverse of the published formula");
    sym_cover("morton");
  } else if (mode == 2) { // iterated inverse
    const double as[6] = {2.7e-4, 1e-2, 1e-5, 0, -1e-3, 3e-6};
    const double a = as[sym_int("index", 0, 5)];
    const int n = sym_int("n", 1, 3);
    CAirVacuum c(a, 0, 0, 1e12, 1e12, "const");
    TFloat64List w;
    for (int i = 0; i < n; i++) w.push_back(sym_double(("w" + std::to_string(i)).c_str(), 1000, 30000));
    TFloat64List v = c.AirToVac(w);
    sym_assert((int)v.size() == n, "one wavelength each");
    for (int i = 0; i < n; i++) SYM_NEAR(v[i], w[i] * (1 + a), 1e-8, "inverse of the direct conversion");
    TFloat64List back = c.VacToAir(v);
    for (int i = 0; i < n; i++) SYM_NEAR(back[i], w[i], 1e-8, "round trip");
    sym_cover("inverse");
  } else if (mode == 3) { // published indices, a list where one value converges last
    const int m = sym_int("method", 0, 3), k = sym_int("k", 0, 3);
    const TFloat64List all{3500, 4861.3, 6562.8, 15000};
    auto c = CAirVacuumConverter::Get(names[m]);
    TFloat64List w{all[k], all[(k + 1) % 4]}, v = c->AirToVac(w);
    for (int i = 0; i < 2; i++) {
      double s = 1e8 / (v[i] * v[i]);
      SYM_NEAR(v[i], w[i] * published(m, s), 1e-8, "inverse of the published formula");
    }
    CSpectrumSpectralAxis ax(w, names[m]), raw(w);
    for (int i = 0; i < 2; i++) {
      SYM_NEAR(ax[i], v[i], 1e-8, "axis given in air is converted to vacuum");
      sym_assert(raw[i] == w[i], "axis given in vacuum is kept");
    }
    sym_cover("list");
  } else {
    sym_assert(throws([&] { CAirVacuumConverter::Get("edlen"); }), "unknown method refused");
    sym_assert(throws([&] { CAirVacuumConverter::Get(""); }), "empty method refused");
    sym_cover("unknown");
  }
}
