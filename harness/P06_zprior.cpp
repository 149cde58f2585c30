//@ src: common/mutex.cpp log/handler.cpp log/log.cpp operator/pdfz.cpp statistics/zprior.cpp
//@ quick: DN=3 noite=1 deadline=60
//@ thorough: DN=4 noite=1 deadline=300
//@ cover: lines snr combine constant euclid cut negative
//@ bounds: N samples (quick 3, thorough 4) with arbitrary strictly increasing redshifts; every presence pattern and line count; arbitrary penalisation in [1e-6,1]; arbitrary priors; arbitrary strength in (0,20] of the population prior at seven redshifts
//@ assumes: real arithmetic, exact exp/log
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/statistics/zprior.h"
#include <string>
#include <algorithm>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
static double trapz(const TFloat64List &z, const TFloat64List &l) {
  double s = 0;
  for (size_t i = 1; i < z.size(); i++) s += 0.5 * (z[i] - z[i - 1]) * (exp(l[i]) + exp(l[i - 1]));
  return s;
}
extern "C" void harness() {
  const int kind = sym_int("kind", 0, 4);
  if (kind == 4) {
    const double a = sym_double("strength", 0.001, 20);
    const double zz[] = {0.01, 0.1, 0.72, 1.0, 1.5, 2.5, 4.0};
    TFloat64List z(zz, zz + 7);
    TFloat64List p = CZPrior(false, z).GetEuclidNhaLogZPrior(z, a);
    double lr[7], m = -1e300;
    for (int i = 0; i < 7; i++) {
      double x = zz[i], c[] = {-2288.98457865, 79004.76406, -92914.84430357, 44240.3837462642, -10409.6716744981, 1203.94994364807, -54.7422088727874}, v = 0;
      for (int k = 6; k >= 0; k--) v = v * x + c[k];
      if (v < 0) { v = 2.2250738585072014e-308; sym_cover("negative"); }
      lr[i] = log(v); m = std::max(m, lr[i]);
    }
    for (int i = 0; i < 7; i++) {
      double e = a * (lr[i] - m), lim = -log(1e12);
      if (e < lim) { sym_cover("cut"); e = lim; }
      SYM_NEAR(p[i], e, 1e-7, "population prior follows the reference density to the given power, limited to 12 decades");
    }
    bool refused = false;
    try { CZPrior(false, z).GetEuclidNhaLogZPrior(z, 0.001 - a); } catch (AmzException const &) { refused = true; }
    sym_assert(refused, "a non-positive strength is refused");
    sym_cover("euclid");
    return;
  }
  const bool norm = sym_bool("normalise");
  TFloat64List z, l;
  for (int i = 0; i < N; i++) {
    z.push_back(sym_double(nm("z", i).c_str(), 0, 10));
    if (i) sym_assume(z[i] > z[i - 1] + 1e-3);
  }
  CZPrior op(norm, z);
  double w[N]; // expected unnormalised prior
  if (kind == 0) {
    l = op.GetConstantLogZPrior(N);
    for (double &x : w) x = 1;
    sym_cover("constant");
  } else if (kind == 1) {
    double pen = sym_logdouble("pen", 1, 1e-6, 1);
    TBoolList b;
    for (int i = 0; i < N; i++) { b.push_back(sym_bool(nm("present", i).c_str())); w[i] = b[i] ? 1 : exp(pen); }
    l = op.GetStrongLinePresenceLogZPrior(b, exp(pen));
    sym_cover("lines");
  } else if (kind == 2) {
    double pen = sym_logdouble("pen", 1, 1e-6, 1);
    TInt32List n;
    for (int i = 0; i < N; i++) { n.push_back(i < 3 ? sym_int(nm("nlines", i).c_str(), 0, 3) : i % 4); w[i] = n[i] >= 2 ? 1 : exp(pen); }
    l = op.GetNLinesSNRAboveCutLogZPrior(n, exp(pen));
    sym_cover("snr");
  } else {
    TFloat64List a, b;
    for (int i = 0; i < N; i++) {
      a.push_back(sym_logdouble(nm("a", i).c_str(), 1, 1e-3, 1e3));
      b.push_back(i < 2 ? sym_logdouble(nm("b", i).c_str(), 1, 1e-3, 1e3) : -0.5);
      w[i] = exp(a[i] + b[i]);
    }
    l = op.CombineLogZPrior(a, b);
    sym_cover("combine");
    bool refused = false;
    a.pop_back();
    try { op.CombineLogZPrior(a, b); } catch (AmzException const &) { refused = true; }
    sym_assert(refused, "priors of different length are refused");
  }
  sym_assert((int)l.size() == N, "one prior value per redshift");
  if (norm) SYM_NEAR(trapz(z, l), 1, 1e-7, "a normalised prior integrates to one");
  else for (int i = 0; i < N; i++) SYM_NEAR(exp(l[i]), w[i], 1e-7, "unnormalised prior value");
  for (int i = 1; i < N; i++) SYM_NEAR(exp(l[i]) * w[0], exp(l[0]) * w[i], 1e-6, "relative prior weights");
}
