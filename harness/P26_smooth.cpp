//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinLinear.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp
//@ quick: DN=4 deadline=120
//@ thorough: DN=6 deadline=600
//@ cover: mean median none meansd nomask one maxabs rms integral range outside
//@ bounds: arbitrary flux on up to N samples (quick 4, thorough 6), arbitrary noise on one of them when there are at most two, every half width, mask, index range; masked samples may hold undefined flux or noise
//@ assumes: real arithmetic; the deviation is checked for selections that are not constant
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/spectrum/fluxaxis.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
extern "C" void harness() {
  const int what = sym_int("what", 0, 5);
  const int n = what == 2 ? sym_int("n", 1, N < 5 ? N : 5) : sym_int("n", 1, N);
  TFloat64List v, w, er;
  for (int i = 0; i < n; i++) v.push_back(sym_double(nm("f", i).c_str(), -100, 100));
  const TFloat64List o = v;
  if (what == 3 && n < 2) return;
  if (what == 0 || what == 1) {
    const int h = sym_int("half", 0, n + 1);
    CSpectrumFluxAxis f(v);
    const bool r = what ? f.ApplyMedianSmooth(h) : f.ApplyMeanSmooth(h);
    sym_assert(r == (h > 0 && n >= h + 1), "done when the axis has more samples than the half width");
    sym_assert(f.GetSamplesCount() == n, "size kept");
    for (int i = 0; i < n; i++) {
      if (!r) { SYM_NEAR(f[i], o[i], 1e-12, "unchanged when not done"); continue; }
      const int a = i - h < 0 ? 0 : i - h, b = i + h > n - 1 ? n - 1 : i + h, m = b - a + 1;
      if (!what) {
        double s = 0;
        for (int k = a; k <= b; k++) s += o[k];
        SYM_NEAR(f[i] * m, s, 1e-9, "mean of the samples of the window");
      } else {
        double le = 0, ge = 0;
        for (int k = a; k <= b; k++) { le += o[k] <= f[i] ? 1. : 0.; ge += o[k] >= f[i] ? 1. : 0.; }
        sym_assert(2 * le > m - .5 && 2 * ge > m - .5, "median of the samples of the window");
      }
    }
    if (r) sym_cover(what ? "median" : "mean"); else sym_cover("none");
  } else if (what == 2 || what == 3) { // masked mean and deviation
    CMask m(n);
    for (int i = 0; i < n; i++) { w.push_back(5000. + 2 * i + (i > 2)); er.push_back(1); }
    double lo = 0, hi = 0;
    bool inside = true;
    if (what == 3) {
      lo = sym_double("lo", 4998, 5012);
      hi = sym_double("hi", 4998, 5012);
      sym_assume(lo <= hi);
      inside = lo >= w[0] && hi <= w[n - 1];
    }
    for (int i = 0; i < n; i++) {
      m[i] = what == 3 ? w[i] >= lo && w[i] <= hi : sym_bool(nm("m", i).c_str());
      if (m[i] || i != 1) er[i] = i || n > 2 ? (i % 3 ? i % 3 : 0.5) : sym_double("e0", 0.5, 4);
      else { // outside the selection: anything
        const int bad = sym_int("bad", 0, 3);
        er[i] = bad == 0 ? 0 : bad == 1 ? NAN : bad == 2 ? INFINITY : 1;
        if (bad == 3) v[i] = NAN;
      }
    }
    double W = 0, W2 = 0, S = 0, Q = 0;
    int c = 0;
    for (int i = 0; i < n; i++)
      if (m[i]) { double g = 1 / (er[i] * er[i]); W += g; W2 += g * g; S += g * v[i]; Q += g * v[i] * v[i]; c++; }
    sym_assume(c < 2 || Q * W - S * S > 1e-3); // the deviation of a constant is subject to rounding
    CSpectrumFluxAxis f(v, CSpectrumNoiseAxis(er));
    double mean = -1, sd = -1;
    if (what == 3) {
      CSpectrum s{CSpectrumSpectralAxis(w), f};
      const bool r = s.GetMeanAndStdFluxInRange(TFloat64Range(lo, hi), mean, sd);
      sym_assert(r == inside, "range refused unless inside the spectrum");
      if (!r) { sym_assert(mean == -1 && sd == -1, "nothing returned"); sym_cover("outside"); return; }
      sym_cover("range");
    } else f.ComputeMeanAndSDev(m, mean, sd);
    if (!c) { sym_assert(std::isnan(mean) && std::isnan(sd), "nothing selected"); sym_cover("nomask"); return; }
    SYM_NEAR(mean * W, S, 1e-6, "weighted mean of the selected samples");
    if (c == 1) { sym_cover("one"); return; }
    SYM_NEAR(sd * sd * (W * W - W2), Q * W - S * S, 1e-5, "weighted deviation of the selected samples");
    sym_cover("meansd");
  } else if (what == 4) {
    CSpectrumFluxAxis f(v);
    const int a = sym_int("a", 0, n - 1), b = sym_int("b", a, n - 1);
    const double x = f.computeMaxAbsValue(a, b);
    double any = 0;
    for (int i = a; i <= b; i++) {
      const double y = o[i] < 0 ? -o[i] : o[i];
      sym_assert(y <= x, "no larger absolute value");
      any = y == x ? 1. : any;
    }
    sym_assert(any > 0.5, "largest absolute value of the range");
    sym_cover("maxabs");
    TFloat64List g;
    for (int i = 0; i < n; i++) g.push_back(sym_double(nm("g", i).c_str(), -100, 100));
    const double d = f.ComputeRMSDiff(CSpectrumFluxAxis(g));
    double s = 0;
    for (int i = 0; i < n; i++) s += (o[i] - g[i]) * (o[i] - g[i]);
    sym_assert(d >= 0, "not negative");
    SYM_NEAR(d * d * n, s, 1e-6, "root mean square difference");
    sym_cover("rms");
  } else {
    if (n < 2) return;
    for (int i = 0; i < n; i++) {
      w.push_back(i ? w[i - 1] + sym_double(nm("dw", i).c_str(), 0.1, 10) : sym_double("w0", 1000, 9000));
      er.push_back(1);
    }
    CSpectrumFluxAxis f(v, CSpectrumNoiseAxis(er));
    const int a = sym_int("a", 0, n - 1), b = sym_int("b", a, n - 1), c = sym_int("c", b, n - 1);
    auto r = CSpectrum::integrateFluxes_usingTrapez(CSpectrumSpectralAxis(w), f, {TInt32Range(a, b), TInt32Range(b, c)});
    double s = 0;
    for (int i = a; i < c; i++) s += (w[i + 1] - w[i]) * (v[i] + v[i + 1]) / 2;
    SYM_NEAR(r.first, s, 1e-7, "trapezes of the ranges");
    sym_assert(r.second >= 0, "variance not negative");
    sym_cover("integral");
  }
}
