//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinLinear.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp
//@ quick: DN=12 DK=1 DWMAX=7 deadline=100 noite=1
//@ thorough: DN=16 DK=1 DWMAX=9 deadline=300 noite=1
//@ thorough: DN=12 DK=2 DWMAX=2 deadline=500 noite=1
//@ cover: even odd flat spike zeros narrow large
//@ bounds: N samples (quick 12, thorough 16; 12 with two arbitrary) of which K (quick 1, thorough 2) arbitrary at any position and the others constant or following a ramp or null at the ends, window widths of 1 to WMAX samples (and a quarter sample around), even reflection (and odd reflection on a flat background)
//@ assumes: real arithmetic
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include <algorithm>
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
static TFloat64List continuum(const TFloat64List &f, double w, bool even, bool checkSum) {
  TFloat64List x;
  for (int i = 0; i < (int)f.size(); i++) x.push_back(4000 + 2 * i);
  CSpectrum s{CSpectrumSpectralAxis(x), CSpectrumFluxAxis(f)};
  s.SetMedianWinsize(w);
  s.SetMedianEvenReflection(even);
  s.SetContinuumEstimationMethod("irregularSamplingMedian");
  TFloat64List c = s.GetContinuumFluxAxis().GetSamplesVector(), d = s.GetWithoutContinuumFluxAxis().GetSamplesVector();
  sym_assert(c.size() == f.size() && d.size() == f.size(), "one value per sample");
  for (int i = 0; i < (int)f.size(); i++) {
    sym_assert(std::isfinite(c[i]), "finite continuum");
    if (checkSum) SYM_NEAR(c[i] + d[i], f[i], 1e-9, "continuum and continuum-free flux add up to the flux");
  }
  return c;
}
extern "C" void harness() {
  const bool even = sym_bool("even");
  const int shape = sym_int("shape", 0, 2);
  TFloat64List f;
  for (int i = 0; i < N; i++) f.push_back(shape == 0 ? 5 : shape == 1 ? 3 + 0.5 * i : i == 0 ? 0 : 5);
  if (!even && shape != 0) return;
  const int p = sym_int("pos", shape == 2, N - 1);
  int q = p;
  double lo = 1e9, hi = -1e9;
  for (double v : f) { lo = std::min(lo, v); hi = std::max(hi, v); }
  auto put = [&](int k, const char *n) { double v = sym_double(n, -50, 50); sym_assume(v != 0); f[k] = v; };
  put(p, "v");
  if (K > 1) { q = sym_int("pos2", p, N - 1); if (q == p) return; put(q, "u"); }
  const int amp = sym_int("amp", 1, WMAX);
  const double w = 2 * amp + 0.5 * sym_int("frac", -1, 1); // rounded to amp samples
  TFloat64List c = continuum(f, w, even, true);
  sym_cover(even ? "even" : "odd");
  if (shape == 2) { sym_assert(c[0] == 0, "null border left out"); sym_cover("zeros"); }
  if (amp < 4) sym_cover("narrow"); else sym_cover("large");
  if (even) {
    for (int i = 0; i < N; i++) {
      if (shape == 2 && i == 0) continue;
      double mn = std::min(lo, f[p]), mx = std::max(hi, f[p]);
      if (K > 1) { mn = std::min(mn, f[q]); mx = std::max(mx, f[q]); }
      sym_assert(c[i] >= mn - 1e-9 && c[i] <= mx + 1e-9, "continuum within the range of the flux");
      if (K == 1 && shape != 1 && !(shape == 2 && amp < 2)) {
        // a single deviating sample, even repeated once by the reflection, is not continuum
        bool border = p == (shape == 2) || p == N - 1;
        if (!border || amp >= 3) SYM_NEAR(c[i], 5, 1e-9, "a narrow feature on a flat flux leaves the continuum flat");
        sym_cover("spike");
      }
    }
  }
  if (shape == 0 && p == 0 && K == 1) {
    TFloat64List g(N, f[0]);
    TFloat64List cg = continuum(g, w, even, false);
    for (int i = 0; i < N; i++) SYM_NEAR(cg[i], f[0], 1e-6, "flat flux is its own continuum");
    sym_cover("flat");
  }
  if (!even) return;
  // scaling and direction
  TFloat64List g = f, r(f.rbegin(), f.rend());
  for (double &v : g) v *= -2;
  TFloat64List cg = continuum(g, w, even, false), cr = continuum(r, w, even, false);
  for (int i = 0; i < N; i++) {
    SYM_NEAR(cg[i], -2 * c[i], 1e-6, "continuum scales with the flux");
    if (amp / 4 < 2) // (a mean over an even count has no centre)
      SYM_NEAR(cr[N - 1 - i], c[i], 1e-6, "same continuum for the reversed flux");
  }
}
