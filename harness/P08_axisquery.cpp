//@ src: common/flag.cpp common/mutex.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp spectrum/axis.cpp spectrum/spectralaxis.cpp
//@ quick: DN=4 deadline=60
//@ thorough: DN=6 deadline=500
//@ cover: index resolution mask overlap overlap0 clamp clampthrow shift subsample ratio extract indexes
//@ bounds: strictly increasing axes of up to N arbitrary wavelengths (quick 4, thorough 6), arbitrary wavelength or range, arbitrary 0/1 masks, shift factors in [0.1,10], sub-sampling ratios 1..3
//@ assumes: real arithmetic
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/spectrum/spectralaxis.h"
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
static TFloat64List grid(int n) {
  TFloat64List v;
  for (int i = 0; i < n; i++) {
    v.push_back(sym_double(nm("g", i).c_str(), 10, 1000));
    if (i) sym_assume(v[i - 1] + 0.001 < v[i]);
  }
  return v;
}
extern "C" void harness() {
  const int what = sym_int("what", 0, 7);
  if (what == 5) { // log sampling
    const int n = sym_int("n", 2, N), ss = sym_int("ss", 1, 3);
    double st = sym_double("st", 1e-4, 0.1);
    TFloat64List v;
    for (int i = 0; i < n; i++) v.push_back(exp(4 + i * st));
    const CSpectrumSpectralAxis ax(v);
    const int a = sym_int("a", -1, n - 1), b = sym_int("b", 0, n);
    sym_assume(a <= b);
    bool thrown = false, ok = a >= 0 && b <= n - 1;
    TFloat64List m;
    try { m = ax.GetSubSamplingMask(ss, TInt32Range(a, b)); } catch (const AmzException &) { thrown = true; }
    sym_assert(thrown == !ok, "sub-sampling refused exactly outside the axis");
    if (ok) {
      sym_assert((int)m.size() == n, "one mask value per sample");
      if (ss > 1) for (int i = 0; i < n; i++) sym_assert(m[i] == ((i >= a && i <= b && (b - i) % ss == 0) ? 1. : 0.), "one sample out of ssratio, counted from the end of the range");
      else for (int i = a; i <= b; i++) sym_assert(m[i] == 1., "a unit ratio keeps every sample of the range");
      sym_cover("subsample");
    }
    return;
  }
  if (what == 6) {
    double st = sym_double("st", 1e-4, 0.1), want = sym_double("want", 1e-4, 0.3);
    sym_assume(want <= 4 * st);
    const CSpectrumSpectralAxis ax(TFloat64List{exp(4.), exp(4. + st), exp(4. + 2 * st)});
    double mod = -7;
    int r = ax.GetLogSamplingIntegerRatio(want, mod);
    sym_assert(r >= 0 && r <= 4, "ratio in range");
    SYM_NEAR(mod + r * st, want, 1e-9, "ratio and remainder rebuild the step");
    sym_assert(mod <= 0.5 * st + 1e-9 && mod >= -0.5 * st - 1e-9, "nearest integer ratio");
    sym_cover("ratio");
    return;
  }
  const int n = sym_int("n", 1, N);
  const TFloat64List v = grid(n);
  const CSpectrumSpectralAxis ax(v);
  if (what == 0) {
    double w = sym_double("w", 0, 1100);
    int i = ax.GetIndexAtWaveLength(w);
    sym_assert(i >= 0 && i < n, "index in range");
    sym_assert(v[i] >= w || i == n - 1, "the sample is at or above the wavelength");
    sym_assert(i == 0 || v[i - 1] < w, "the sample is the first such");
    double b = sym_double("b", 0, 1100);
    sym_assume(w <= b);
    TInt32Range r = ax.GetIndexesAtWaveLengthRange(TFloat64Range(w, b));
    sym_assert(r.GetBegin() == i && r.GetEnd() == ax.GetIndexAtWaveLength(b) && r.GetEnd() >= r.GetBegin(), "range limits are looked up each");
    sym_cover("indexes");
    sym_cover("index");
  } else if (what == 1) {
    double w = sym_double("w", 0, 1100);
    double d = ax.GetResolution(w);
    if (n < 2) sym_assert(d == 0, "no resolution on one sample");
    else {
      bool any = false;
      for (int i = 1; i < n; i++) {
        bool here = (i == 1 || w > v[i - 1]) && (i == n - 1 || w <= v[i]);
        any |= here && d == v[i] - v[i - 1];
      }
      sym_assert(any, "resolution is the step around the wavelength");
      SYM_NEAR(ax.GetMeanResolution(TInt32Range(0, n - 1)) * (n - 1), v[n - 1] - v[0], 1e-9, "mean resolution");
      sym_cover("resolution");
    }
    const TFloat64Range l = ax.GetLambdaRange();
    sym_assert(n < 2 ? l.GetBegin() == 0 && l.GetEnd() == 0 : l.GetBegin() == v[0] && l.GetEnd() == v[n - 1], "wavelength range");
  } else if (what == 2) {
    double b = sym_double("b", 0, 1100), e = sym_double("e", 0, 1100);
    sym_assume(b <= e);
    CMask m;
    ax.GetMask(TFloat64Range(b, e), m);
    sym_assert(m.GetMasksCount() == n, "one mask per sample");
    CMask o(n);
    int both = 0, self = 0;
    for (int i = 0; i < n; i++) {
      bool in = v[i] >= b && v[i] <= e;
      sym_assert(m[i] == (in ? 1 : 0), "exactly the samples inside the range");
      o[i] = sym_int(nm("o", i).c_str(), 0, 1);
      self += in; both += in && o[i];
    }
    sym_cover("mask");
    double f = ax.IntersectMaskAndComputeOverlapFraction(TFloat64Range(b, e), o);
    if (!self) { sym_assert(f == 0, "no overlap without samples"); sym_cover("overlap0"); }
    else { sym_assert(f * self == both, "overlap is the fraction of selected samples in the range"); sym_cover("overlap"); }
  } else if (what == 3) {
    double b = sym_double("b", 0, 1100), e = sym_double("e", 0, 1100);
    sym_assume(b <= e);
    TFloat64Range out(-1, -1);
    bool thrown = false, ok = n >= 2 && b < e;
    double lo = b, hi = e;
    if (ok) { lo = b > v[0] ? b : v[0]; hi = e < v[n - 1] ? e : v[n - 1]; ok = lo < hi; }
    try { ax.ClampLambdaRange(TFloat64Range(b, e), out); } catch (const AmzException &) { thrown = true; }
    sym_assert(thrown == !ok, "refused exactly when the intersection has no length");
    if (ok) { sym_assert(out.GetBegin() == lo && out.GetEnd() == hi, "clamped range is the intersection"); sym_cover("clamp"); }
    else sym_cover("clampthrow");
  } else if (what == 4) {
    double f = sym_double("f", -1, 10);
    sym_assume((f < 0) | (f == 0) | (f > 0.1));
    bool thrown = false;
    CSpectrumSpectralAxis s;
    const bool fwd = sym_bool("fwd");
    try { s = CSpectrumSpectralAxis(ax, f, fwd ? CSpectrumSpectralAxis::nShiftForward : CSpectrumSpectralAxis::nShiftBackward); } catch (const AmzException &) { thrown = true; }
    sym_assert(thrown == (f < 0), "negative shifts refused");
    if (thrown) return;
    sym_assert(s.GetSamplesCount() == n, "shift keeps the count");
    const CSpectrumSpectralAxis &c = s;
    for (int i = 0; i < n; i++)
      if (f == 0) sym_assert(c[i] == v[i], "null shift");
      else if (fwd) SYM_NEAR(c[i], v[i] * f, 1e-6, "shifted forward");
      else SYM_NEAR(c[i] * f, v[i], 1e-6, "shifted backward");
    if (n > 1) sym_assert(s.isSorted(), "a shifted axis stays sorted");
    sym_cover("shift");
  } else {
    const int a = sym_int("a", 0, n - 1), b = sym_int("b", a, n - 1);
    const CSpectrumSpectralAxis x = ax.extract(a, b);
    sym_assert(x.GetSamplesCount() == b - a + 1, "extracted count");
    for (int i = a; i <= b; i++) sym_assert(x[i - a] == v[i], "extracted samples");
    CSpectrumSpectralAxis y = ax;
    sym_cover("extract");
  }
}
