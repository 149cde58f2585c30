//@ src: common/mutex.cpp common/zgridparam.cpp log/handler.cpp log/log.cpp operator/logZPdfResult.cpp operator/pdfz.cpp
//@ quick: DNS=1 deadline=60
//@ thorough: DNS=2 deadline=400
//@ cover: coarse fine extend valid flat nan badsum
//@ bounds: coarse grid of 5 samples (step 0.5, first redshift 1), NS refined windows (quick 1, thorough 2) of 5 samples (step 0.25) at arbitrary real centres; arbitrary real log densities; extension by up to two steps
//@ assumes: real arithmetic; gsl linear interpolation as modelled in engine/gslmodel.cpp; refined windows do not overlap
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/operator/logZPdfResult.h"
#include <string>
#include <algorithm>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
extern "C" void harness() {
  const double a = 1, b = 3, cs = 0.5, fs = 0.25;
  if (sym_bool("validity")) {
    CZGridListParams ps({CZGridParam(TFloat64Range(a, b), cs)});
    TFloat64List v; double u[5], s = 0; bool nan = false, flat = true;
    for (int i = 0; i < 5; i++) {
      if (i < 3 && sym_bool(nm("nan", i).c_str())) { v.push_back(NAN); nan = true; u[i] = 0; continue; }
      v.push_back(sym_logdouble(nm("u", i).c_str(), 1, 0.001, 10)); u[i] = exp(v[i]);
    }
    if (!nan) for (int i = 1; i < 5; i++) if (u[i] != u[0]) flat = false;
    for (int i = 0; i < 5; i++) s += u[i] * (i % 4 ? cs : cs / 2);
    sym_assume(nan || flat || !sym_near(s < 1 ? 1 - s : s - 1, 0.1, 1e-9));
    CLogZPdfResult r(ps, false, v);
    if (!nan) SYM_NEAR(r.getSumTrapez(), s, 1e-9, "integral is the trapezoid sum");
    int code = 0;
    try { r.isPdfValid(); } catch (AmzException const &e) { code = e.getErrorCode() == ErrorCode::FLAT_ZPDF ? 1 : e.getErrorCode() == ErrorCode::PDF_NORMALIZATION_FAILED ? 2 : 3; }
    if (nan) { sym_cover("nan"); sym_assert(code != 0, "a density with undefined values is refused"); }
    else if (flat) { sym_cover("flat"); sym_assert(code == 1, "a flat density is reported"); }
    else if (s > 1.1 || s < 0.9) { sym_cover("badsum"); sym_assert(code == 2, "a density that does not integrate to one is refused"); }
    else { sym_cover("valid"); sym_assert(code == 0, "a valid density is accepted"); }
    return;
  }
  TZGridListParams ps{CZGridParam(TFloat64Range(a, b), cs)};
  std::vector<TFloat64List> subs;
  for (int k = 0; k < NS; k++) {
    double c = sym_double(nm("c", k).c_str(), a + 0.01, b - 0.01);
    ps.push_back(CZGridParam(TFloat64Range(std::max(c - 2 * fs, a), std::min(c + 2 * fs, b)), fs, c));
    subs.push_back(ps.back().getZGrid(false));
    // within rounding of the 1e-8 tolerance at the range ends: not decided
    for (double e : {1.25, 1.5, 2.5, 2.75}) sym_assume(!sym_near(c, e, 1e-7));
    if (k) sym_assume(subs[0].back() + 1e-6 < subs[1].front() || subs[1].back() + 1e-6 < subs[0].front());
  }
  CLogZPdfResult r{CZGridListParams(ps), false, {}};
  for (size_t i = 0; i < r.valProbaLog.size(); i++) r.valProbaLog[i] = sym_double(nm("v", i).c_str(), -100, 100);
  const TFloat64List z0 = r.redshifts, v0 = r.valProbaLog;
  const bool fine = sym_bool("fine");
  r.convertToRegular(fine);
  sym_cover(fine ? "fine" : "coarse");
  const double st = fine ? fs : cs;
  const int n = fine ? 9 : 5;
  sym_assert((int)r.redshifts.size() == n && r.valProbaLog.size() == r.redshifts.size(), "regular grid of the requested step over the full range");
  sym_assert(r.isRegular(), "converted grid is declared regular");
  for (int i = 0; i < n; i++) {
    double x = a + i * st;
    sym_assert(sym_near(r.redshifts[i], x, 1e-9), "regular redshifts");
    for (size_t j = 0; j + 1 < z0.size(); j++)
      if (z0[j] <= r.redshifts[i] && r.redshifts[i] <= z0[j + 1]) {
        // interpolation inequality is decided without division
        double d = z0[j + 1] - z0[j], f = (v0[j + 1] - v0[j]) * (r.redshifts[i] - z0[j]);
        sym_assert(sym_near((r.valProbaLog[i] - v0[j]) * d, f, 1e-6), "value interpolated between the enclosing samples");
        break;
      }
  }
  const TFloat64List z1 = r.redshifts, v1 = r.valProbaLog;
  const int k = sym_int("extend", 0, 2);
  r.extrapolate_on_right_border(b + k * st);
  if (k) sym_cover("extend");
  sym_assert(r.redshifts.size() == z1.size() + k && r.valProbaLog.size() == r.redshifts.size(), "extended by whole steps");
  for (size_t i = 0; i < r.redshifts.size(); i++) {
    sym_assert(sym_near(r.redshifts[i], a + i * st, 1e-9), "extended grid is regular");
    sym_assert(r.valProbaLog[i] == (i < v1.size() ? v1[i] : v1.back()), "values kept, border value repeated");
  }
}
