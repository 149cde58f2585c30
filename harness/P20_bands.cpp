//@ src: photometry/photometricband.cpp photometry/photometricdata.cpp
//@ quick: DN=4 deadline=100
//@ thorough: DN=6 deadline=600
//@ cover: integral flat refused sorted data mismatch
//@ bounds: bands of 2 to N (quick 4, thorough 6) wavelengths, one of them arbitrary, arbitrary transmissions and fluxes; catalogues of 3 bands with arbitrary lower limits; photometric data of 3 bands in every order
//@ assumes: real arithmetic
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/photometry/photometricband.h"
#include "RedshiftLibrary/photometry/photometricdata.h"
#include <string>
#include <set>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
template <class F> static bool throws(F f) {
  try { f(); } catch (const AmzException &) { return true; }
  return false;
}
extern "C" void harness() {
  const int mode = sym_int("mode", 0, 2);
  if (mode == 0) {
    const int n = sym_int("n", 2, N);
    const bool desc = sym_bool("desc");
    const int sw = sym_int("sw", 0, n - 1);
    TFloat64List w(n), t(n), f(n), flat(n);
    const double c = 2.99792458e18;
    for (int i = 0; i < n; i++) {
      const int p = desc ? n - 1 - i : i;
      w[i] = i == sw ? sym_double("w", 4000 + 900. * p + 1, 4000 + 900. * p + 800) : 4000 + 900. * p + 300;
      t[i] = sym_double(nm("t", i).c_str(), i == n / 2 ? 0.25 : 0, 1);
      f[i] = sym_double(nm("f", i).c_str(), -100, 100);
    }
    CPhotometricBand b(t, w);
    double lo = w[desc ? n - 1 : 0];
    SYM_NEAR(b.GetMinLambda(), lo, 1e-9, "lower limit of the band");
    double num = 0, den = 0;
    for (int i = 1; i < n; i++) { // photon counting: T lambda dnu, in units of c / 1e4
      const double dnu = 1e4 / w[i - 1] - 1e4 / w[i];
      den += 0.5 * (t[i] * w[i] + t[i - 1] * w[i - 1]) * dnu;
      num += 0.5 * (f[i] * t[i] * w[i] * w[i] * w[i] + f[i - 1] * t[i - 1] * w[i - 1] * w[i - 1] * w[i - 1]) * 1e-8 * dnu;
    }
    const double r = b.IntegrateFlux(f);
    SYM_NEAR(r * (c * 1e-8) * den, num, 1e-4, "mean of the flux density per Hz, weighted by the photon transmission");
    sym_cover("integral");
    for (int i = 0; i < n; i++) flat[i] = 3 * c / (w[i] * w[i]);
    SYM_NEAR(b.IntegrateFlux(flat), 3, 1e-6, "a constant flux density per Hz is its own mean");
    sym_cover("flat");
    TFloat64List g(f);
    g.push_back(1);
    sym_assert(throws([&] { b.IntegrateFlux(g); }) && throws([&] { b.IntegrateFlux(TFloat64List(n - 1, 1.)); }) && throws([&] { CPhotometricBand x(t, g); }), "sizes that differ are refused");
    sym_cover("refused");
  } else if (mode == 1) {
    CPhotBandCatalog cat;
    const int perm = sym_int("perm", 0, 5);
    static const char *names[6][3] = {{"a", "b", "c"}, {"a", "c", "b"}, {"b", "a", "c"}, {"b", "c", "a"}, {"c", "a", "b"}, {"c", "b", "a"}};
    double lo[3];
    for (int i = 0; i < 3; i++) {
      lo[i] = sym_double(nm("lo", i).c_str(), 3000, 9000);
      const int first = sym_int(nm("first", i).c_str(), 0, 2);
      TFloat64List w = {lo[i] + 100, lo[i] + 200, lo[i] + 300};
      w[first] = lo[i];
      cat.Add(names[perm][i], CPhotometricBand(TFloat64List{1, 1, 1}, w));
    }
    auto s = cat.GetNameListSortedByLambda();
    sym_assert(s.size() == 3 && std::set<std::string>(s.begin(), s.end()).size() == 3, "every band once");
    auto v = [&](const std::string &x) { for (int i = 0; i < 3; i++) if (x == names[perm][i]) return lo[i]; return -1.; };
    sym_assert(v(s[0]) <= v(s[1]) && v(s[1]) <= v(s[2]), "sorted by lower limit");
    sym_assert(cat.GetNameList().size() == 3, "list of names");
    sym_cover("sorted");
  } else {
    const int perm = sym_int("perm", 0, 5);
    static const char *names[6][3] = {{"a", "b", "c"}, {"a", "c", "b"}, {"b", "a", "c"}, {"b", "c", "a"}, {"c", "a", "b"}, {"c", "b", "a"}};
    TStringList n(names[perm], names[perm] + 3);
    TFloat64List f, e;
    for (int i = 0; i < 3; i++) { f.push_back(sym_double(nm("f", i).c_str(), -100, 100)); e.push_back(sym_double(nm("e", i).c_str(), 0.1, 100)); }
    CPhotometricData d(n, f, e);
    for (int i = 0; i < 3; i++) {
      SYM_NEAR(d.GetFlux(n[i]), f[i], 0, "flux of the band");
      SYM_NEAR(d.GetFluxErr(n[i]), e[i], 0, "error of the band");
      SYM_NEAR(d.GetOneOverErr2(n[i]) * e[i] * e[i], 1, 1e-9, "weight of the band");
      SYM_NEAR(d.GetFluxOverErr2(n[i]) * e[i] * e[i], f[i] * f[i], 1e-6, "square of the signal to noise of the band");
    }
    sym_assert(d.GetNameList().size() == 3, "every band");
    sym_cover("data");
    TFloat64List g(f.begin(), f.begin() + 2);
    sym_assert(throws([&] { CPhotometricData x(n, g, e); }) && throws([&] { CPhotometricData x(n, f, g); }), "lists of different sizes are refused");
    sym_cover("mismatch");
  }
}
