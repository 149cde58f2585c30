//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinFineGrid.cpp spectrum/rebin/rebinLinear.cpp spectrum/rebin/rebinNgp.cpp spectrum/rebin/rebinSpline.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp
//@ quick: DINT=0 DM=3 deadline=60
//@ quick: DINT=1 DM=3 deadline=60
//@ quick: DINT=2 DM=2 deadline=60
//@ quick: DINT=3 DM=2 deadline=60
//@ thorough: DINT=0 DM=4 deadline=300
//@ thorough: DINT=1 DM=4 deadline=300
//@ thorough: DINT=2 DM=3 deadline=300
//@ thorough: DINT=3 DM=3 deadline=300
//@ cover: inside below above
//@ bounds: a source spectrum of 4 (linear and nearest) or 3 (spline and fine grid) samples on an irregular axis, arbitrary flux and noise, M arbitrary increasing target wavelengths, arbitrary range inside the source axis, three noise options
//@ assumes: real arithmetic; the natural cubic spline of GSL is encoded from its documentation; ties between two nearest samples excluded
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
extern "C" void harness() {
  const TFloat64List x = INT < 2 ? TFloat64List{100, 101, 103, 103.5} : TFloat64List{1, 1.25, 1.78125};
  const int n = x.size();
  TFloat64List f, e;
  for (int i = 0; i < n; i++) {
    f.push_back(sym_double(nm("f", i).c_str(), -100, 100));
    e.push_back(sym_double(nm("e", i).c_str(), 0.1, 100));
  }
  CSpectrum s(CSpectrumSpectralAxis(x), CSpectrumFluxAxis(f.data(), n, e.data(), n));
  const char *names[] = {"lin", "ngp", "spline", "preComputedFineGrid"};
  s.setRebinInterpMethod(names[INT]);
  const char *errs[] = {"no", "rebin", "rebinVariance"};
  const int err = sym_int("err", 0, 2);
  TFloat64List t;
  for (int j = 0; j < M; j++) {
    t.push_back(sym_double(nm("t", j).c_str(), x[0] - 0.5, x[n - 1] + 0.5));
    if (j) sym_assume(t[j] - t[j - 1] >= 0.01);
  }
  const double a = sym_double("lo", x[0], x[n - 1]), b = sym_double("hi", x[0], x[n - 1]);
  sym_assume(a <= b);
  for (double v : t) { sym_assume(std::abs(v - a) > 1e-6); sym_assume(std::abs(v - b) > 1e-6); }
  CSpectrum r;
  CMask mask;
  bool thrown = false;
  CSpectrumSpectralAxis T(t);
  try {
    s.Rebin(TFloat64Range(a, b), T, r, mask, errs[err]);
  } catch (AmzException &) { thrown = true; }
  if (thrown) { // noise is not interpolated by the spline methods
    bool in = false;
    for (double v : t) in |= v >= a && v <= b;
    sym_assert(INT >= 2 && err && in, "refused only when noise is asked of a spline");
    return;
  }
  sym_assert(r.GetSampleCount() == M && mask.GetMasksCount() == M && r.IsValid(), "one result per target");
  for (int j = 0; j < M; j++) {
    sym_assert(r.GetSpectralAxis()[j] == t[j], "target axis kept");
    const double v = t[j], y = r.GetFluxAxis()[j], w = r.GetErrorAxis()[j];
    if (v < a) { sym_assert(!mask[j] && y == 0, "below the range: masked"); sym_assert(err == 0 || std::isinf(w), "below the range: noise"); sym_cover("below"); continue; }
    const bool in = v <= b;
    if (in) sym_assert(mask[j] == 1, "in range: flagged");
    if (!mask[j]) { sym_assert(y == 0, "above the range: null"); sym_assert(err == 0 || std::isinf(w), "above the range: noise"); sym_cover("above"); continue; }
    sym_assert(v <= x[n - 1], "a flagged sample lies on the source axis");
    sym_cover("inside");
    // step of the target axis at this sample
    double dst = j + 1 < M ? t[j + 1] - v : j > 0 ? v - t[j - 1] : 0;
    double want = 0, var = 0;
    if (INT == 0) {
      int k = 0;
      while (k < n - 2 && v > x[k + 1]) k++;
      double q = (v - x[k]) / (x[k + 1] - x[k]);
      want = f[k] * (1 - q) + f[k + 1] * q;
      SYM_NEAR(y, want, 1e-9, "linear interpolation");
      if (err == 1) SYM_NEAR(w, e[k] * (1 - q) + e[k + 1] * q, 1e-9, "linear interpolation of the noise");
      if (err == 2) { var = e[k] * e[k] * (1 - q) * (1 - q) + e[k + 1] * e[k + 1] * q * q; if (dst != 0) var = var * (x[k + 1] - x[k]) / dst;
        sym_assert(w >= 0, "noise sign"); SYM_NEAR(w * w, var, 1e-6, "variance of the interpolated flux"); }
    } else if (INT == 1) {
      int k = 0;
      for (int i = 0; i < n; i++) { if (i) sym_assume(std::abs(v - (x[i] + x[i - 1]) / 2) > 1e-6); if (std::abs(x[i] - v) < std::abs(x[k] - v)) k = i; }
      SYM_NEAR(y, f[k], 1e-9, "nearest sample");
      if (err == 1) SYM_NEAR(w, e[k], 1e-9, "noise of the nearest sample");
      if (err == 2) { var = e[k] * e[k]; if (dst != 0) var = var * (k == n - 1 ? x[k] - x[k - 1] : x[k + 1] - x[k]) / dst;
        sym_assert(w >= 0, "noise sign"); SYM_NEAR(w * w, var, 1e-6, "variance of the nearest sample"); }
    } else {
      double at = v;
      if (INT == 3) { // nearest node of the 0.1 grid lying on the source axis
        int k = 0, last = int((x[n - 1] - x[0]) / 0.1);
        for (int i = 1; i <= last; i++) {
          sym_assume(std::abs(v - (x[0] + (i - 0.5) * 0.1)) > 1e-6);
          if (v > x[0] + (i - 0.5) * 0.1) k = i;
        }
        sym_assume(std::abs(v - (x[0] + (last + 0.5) * 0.1)) > 1e-6);
        at = x[0] + k * 0.1;
      }
      const double h0 = x[1] - x[0], h1 = x[2] - x[1], c = 3 * ((f[2] - f[1]) / h1 - (f[1] - f[0]) / h0) / (2 * (h0 + h1));
      double d;
      if (at <= x[1]) { d = at - x[0]; want = f[0] + d * ((f[1] - f[0]) / h0 - h0 * c / 3) + d * d * d * c / (3 * h0); }
      else { d = x[2] - at; want = f[2] + d * ((f[1] - f[2]) / h1 - h1 * c / 3) + d * d * d * c / (3 * h1); }
      SYM_NEAR(y, want, 1e-6, INT == 2 ? "natural cubic spline" : "nearest fine grid value");
    }
  }
}
