//@ src: common/flag.cpp common/mutex.cpp common/zgridparam.cpp extremum/extremum.cpp log/handler.cpp log/log.cpp operator/logZPdfResult.cpp operator/operator.cpp operator/pdfz.cpp statistics/deltaz.cpp statistics/pdfcandidatesz.cpp statistics/zprior.cpp
//@ quick: DN=3 DM=2 DCOMB=0 DPRI=0 noite=1 deadline=60
//@ quick: DN=3 DM=1 DCOMB=0 DPRI=1 noite=1 deadline=30
//@ quick: DN=3 DM=2 DCOMB=1 DPRI=0 noite=1 deadline=60
//@ quick: DN=3 DM=1 DCOMB=2 DPRI=1 noite=1 deadline=30
//@ quick: DN=3 DM=2 DCOMB=2 DPRI=0 DFIX=1 noite=1 deadline=40
//@ thorough: DN=3 DM=2 DCOMB=0 DPRI=1 noite=1 deadline=250
//@ thorough: DN=4 DM=1 DCOMB=0 DPRI=1 noite=1 deadline=60
//@ thorough: DN=4 DM=2 DCOMB=1 DPRI=0 noite=1 deadline=150
//@ thorough: DN=4 DM=1 DCOMB=2 DPRI=1 noite=1 deadline=60
//@ thorough: DN=3 DM=2 DCOMB=2 DPRI=0 noite=1 deadline=150
//@ cover: norm
//@ bounds: one regular z grid of N samples, M models (FIX: second model fixed; PRI=0: flat z-prior); likelihoods exp(-chi2/2) and z-priors arbitrary reals in [1e-6,1e6], model priors arbitrary summing to 1, likelihood constant arbitrary; combination marg, bestChi2 or bestproba
//@ assumes: real arithmetic; exp/log exact
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/operator/pdfz.h"
#include "RedshiftLibrary/operator/logZPdfResult.h"
#include "RedshiftLibrary/statistics/pdfcandidateszresult.h"
#include <string>
using namespace NSEpic;
#ifndef FIX
#define FIX 0
#endif
static std::string nm(const char *p, int a, int b = -1) { return std::string(p) + std::to_string(a) + (b < 0 ? "" : "_" + std::to_string(b)); }
extern "C" void harness() {
  static const char *comb[] = {"marg", "bestChi2", "bestproba"};
  const double h = 0.5;
  CZGridParam zp(TFloat64Range(0., h * (N - 1)), h);
  ChisquareArray a;
  a.redshifts = zp.getZGrid(false);
  sym_assert((int)a.redshifts.size() == N, "grid");
  a.zstep = h;
  a.cstLog = sym_double("cst", -100, 100);
  double Lk[M][N], Pr[M][N], pm[M];
  for (int m = 0; m < M; m++) {
    TFloat64List c, p;
    for (int i = 0; i < N; i++) {
      static const double fx[] = {1., 3., 2., 5., 1.};
      double l = FIX && m ? log(fx[i]) : sym_logdouble(nm("L", m, i).c_str(), 1, 1e-6, 1e6); // log likelihood
      c.push_back(-2 * l); Lk[m][i] = exp(l);
      if (COMB == 1 || !PRI) { p.push_back(0); Pr[m][i] = 1; }
      else { p.push_back(sym_logdouble(nm("P", m, i).c_str(), 1, 1e-6, 1e6)); Pr[m][i] = exp(p[i]); }
    }
    a.chisquares.push_back(c); a.zpriors.push_back(p);
  }
  const bool mp = M > 1 && sym_bool("modelpriors");
  if (mp) {
    double s = 0;
    for (int m = 0; m + 1 < M; m++) { pm[m] = sym_double(nm("pm", m).c_str(), 0.001, 0.999); s += pm[m]; }
    pm[M - 1] = 1 - s;
    sym_assume(pm[M - 1] > 0.0005);
    a.modelpriors.assign(pm, pm + M);
  } else for (int m = 0; m < M; m++) pm[m] = 1.0 / M;
  // the search window holds two samples only, too few for a candidate: Compute
  // stops after the combination, which is of interest here
  a.zgridParams = {CZGridParam(TFloat64Range(0, h), h)};
  a.parentCandidates = {{"parent", nullptr}};
  COperatorPdfz op(comb[COMB], 0.0, 0.0, 1, false);
  bool refused = false;
  try { op.Compute(a); }
  catch (AmzException const &e) {
    ErrorCode c = e.getErrorCode();
    sym_assert(c == ErrorCode::FLAT_ZPDF || c == ErrorCode::INTERNAL_ERROR, "only a flat pdf is refused");
    refused = c == ErrorCode::FLAT_ZPDF;
  }
  TFloat64List const &lp = op.m_postmargZResult->valProbaLog;
  sym_assert((int)lp.size() == N, "one value per grid sample");
  double w[N], tot = 0, ref[N], rtot = 0;
  for (int i = 0; i < N; i++) w[i] = (i == 0 || i == N - 1) ? h / 2 : h;
  for (int i = 0; i < N; i++) tot += w[i] * exp(lp[i]);
  SYM_NEAR(tot, 1, 1e-9, "pdf integrates to one");
  sym_cover("norm");
  double q[M][N], ev[M];
  for (int m = 0; m < M; m++) {
    double sp = 0; ev[m] = 0;
    for (int i = 0; i < N; i++) sp += w[i] * Pr[m][i];
    for (int i = 0; i < N; i++) { q[m][i] = Lk[m][i] * Pr[m][i] / sp; ev[m] += w[i] * q[m][i]; }
  }
  if (COMB == 0) {
    double e = 0;
    for (int m = 0; m < M; m++) e += pm[m] * ev[m];
    for (int i = 0; i < N; i++) {
      double v = 0;
      for (int m = 0; m < M; m++) v += pm[m] * q[m][i];
      SYM_NEAR(exp(lp[i]) * e, v, 1e-9, "marginal pdf is the prior-weighted mixture of the model posteriors");
    }
    SYM_NEAR(exp(op.m_postmargZResult->valMargEvidenceLog - a.cstLog), e, 1e-9, "marginal evidence");
  } else for (int i = 0; i < N; i++) {
    ref[i] = 0;
    for (int m = 0; m < M; m++) { double v = COMB == 1 ? Lk[m][i] : q[m][i] / ev[m]; if (v > ref[i]) ref[i] = v; }
  }
  if (COMB) for (int i = 1; i < N; i++) SYM_NEAR(exp(lp[i]) * ref[0], exp(lp[0]) * ref[i], 1e-9, "pdf proportional to the best model at each redshift");
}
