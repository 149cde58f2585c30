//@ src: common/flag.cpp common/mutex.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp spectrum/axis.cpp spectrum/spectralaxis.cpp
//@ quick: DN=4 DOPS=1 deadline=60
//@ quick: DN=4 DOPS=2 DREG=1 deadline=60
//@ thorough: DN=4 DOPS=1 deadline=100
//@ thorough: DN=3 DOPS=2 deadline=300
//@ thorough: DN=4 DOPS=3 DREG=1 deadline=400
//@ cover: sorted unsorted log notlog scale offset mask extract shrink grow assign tiny
//@ bounds: axes of N samples, either log-regular or at arbitrary real positions over a factor e^4, every history of OPS operations (scale, offset, mask, extract, resize, element assignment), sortedness and log sampling queried or not before each
//@ assumes: real arithmetic; offsets take two values
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/spectrum/spectralaxis.h"
#include <string>
#ifndef REG
#define REG 0
#endif
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
extern "C" void harness() {
  const bool regular = REG || sym_bool("regular");
  TFloat64List x; // natural log of the wavelengths
  const bool fix = sym_bool("fix");
  const double st = fix ? 0.001 : sym_double("st", 1e-4, 0.1);
  for (int i = 0; i < N; i++) x.push_back(regular ? i * st : i && i < 3 ? sym_double(nm("x", i).c_str(), 0, 4) : 1 + 0.25 * i);
  if (!regular) { // equal, or apart by more than rounding can blur
    if (sym_bool("dup")) x[2] = x[1];
    for (int i = 1; i < N; i++)
      for (int j = 0; j < i; j++) if (!(i == 2 && j == 1) || x[2] != x[1]) sym_assume(fabs(x[i] - x[j]) > 1e-6);
  }
  TFloat64List v;
  for (double e : x) v.push_back(exp(e));
  CSpectrumSpectralAxis ax(v);
  bool off = false; // the log positions are no longer known
  bool stale = false; // derived from a larger axis: a negative answer may be inherited
  auto query = [&](bool final) {
    const CSpectrumSpectralAxis &c = ax;
    const int n = c.GetSamplesCount();
    sym_assert(n == (int)v.size(), "sample count");
    bool s = c.isSorted(), lg = c.IsLogSampled();
    if (n < 2) sym_cover("tiny");
    bool inc = true;
    for (int i = 1; i < n; i++) if (!(v[i] > v[i - 1])) inc = false;
    if (s) { sym_cover("sorted"); sym_assert(inc, "an axis reported sorted is strictly increasing"); }
    else { sym_cover("unsorted"); sym_assert(!inc || stale, "a strictly increasing axis is reported sorted"); }
    if (lg) {
      sym_cover("log");
      sym_assert(n >= 2 || stale, "log sampling needs two samples");
      if (!off) for (int i = 1; i < n; i++) {
        double d = x[i] - x[i - 1], d0 = x[1] - x[0];
        sym_assert(d0 > 0 ? d >= 0.8 * d0 && d <= 1.25 * d0 : d0 < 0 ? d <= 0.8 * d0 && d >= 1.25 * d0 : false, "an axis reported log-sampled has constant log steps");
      } else for (int i = 2; i < n; i++) {
        double d = log(v[i] / v[i - 1]), d0 = log(v[1] / v[0]);
        sym_assert(d >= 0.8 * d0 && d <= 1.25 * d0, "an offset axis reported log-sampled has constant log steps");
      }
      if (final && !off && n >= 2) SYM_NEAR(c.GetlogGridStep() * (n - 1), x[n - 1] - x[0], 1e-6 + 0.25 * stale * 4, "log step spans the axis");
    } else {
      sym_cover("notlog");
      bool reg = n >= 2 && !off;
      if (reg && x[1] == x[0]) reg = false;
      for (int i = 1; reg && i < n; i++) if (!sym_near(x[i] - x[i - 1], x[1] - x[0], 1e-9)) reg = false;
      sym_assert(!reg || stale || sym_near(x[1], x[0], 1e-6), "a log-regular axis is reported log-sampled");
    }
  };
  for (int k = 0; k < OPS; k++) {
    if (sym_bool(nm("query", k).c_str())) query(false);
    const int n = v.size();
    switch (sym_int(nm("op", k).c_str(), 0, 5)) {
    case 0: { double f = sym_bool(nm("up", k).c_str()) ? 2.0 : 0.5; if (sym_bool(nm("div", k).c_str())) { ax /= 1 / f; } else ax *= f; for (double &e : v) e *= f; for (double &e : x) e += log(f); sym_cover("scale"); break; }
    case 1: { double d = regular && fix ? (sym_bool(nm("d", k).c_str()) ? 100. : 1.) : 0; ax.ApplyOffset(d); for (double &e : v) e += d; if (d != 0) off = true; sym_cover("offset"); break; }
    case 2: {
      TFloat64List m, w, y;
      for (int i = 0; i < n; i++) { m.push_back(sym_int((nm("m", k) + nm("_", i)).c_str(), 0, 1)); if (m[i]) { w.push_back(v[i]); y.push_back(x[i]); } }
      ax = ax.MaskAxis(m); v = w; x = y; stale = true; sym_cover("mask"); break; }
    case 3: {
      if (n < 1) break;
      int a = sym_int(nm("a", k).c_str(), 0, n - 1), b = sym_int(nm("b", k).c_str(), a, n - 1);
      ax = ax.extract(a, b); v = TFloat64List(v.begin() + a, v.begin() + b + 1); x = TFloat64List(x.begin() + a, x.begin() + b + 1); stale = true; sym_cover("extract"); break; }
    case 4: { int s = sym_int(nm("s", k).c_str(), 0, N + 1); if (s > n) { sym_cover("grow"); } else { stale = true; sym_cover("shrink"); } ax.SetSize(s); v.resize(s, 0); x.resize(s, 0);
      for (int i = n; i < s; i++) { ax[i] = v[i] = exp(6. + i * st); x[i] = 6. + i * st; } if (s > n) { off = off && n > 0; stale = false; } break; }
    case 5: { if (n < 1) break; int i = sym_int(nm("i", k).c_str(), 0, n - 1); x[i] = 5; v[i] = exp(5.); ax[i] = v[i]; off = off && n > 1; stale = false; sym_cover("assign"); break; }
    }
  }
  query(true);
}
