//@ src: common/flag.cpp common/mutex.cpp log/handler.cpp log/log.cpp operator/operator.cpp operator/pdfz.cpp statistics/deltaz.cpp statistics/pdfcandidatesz.cpp
//@ quick: DNC=1 noite=1 deadline=60
//@ quick: DNC=2 noite=1 deadline=60
//@ thorough: DNC=1 noite=1 deadline=200
//@ thorough: DNC=2 noite=1 deadline=400
//@ cover: integrated ranked
//@ bounds: 1 or 2 candidates on a regular grid of 4+4*NC samples, probabilities arbitrary over six decades, the first candidate at every grid position
//@ assumes: the candidate has no concave neighbourhood, so that its uncertainty takes the default value (fixed window); real arithmetic, exact exp/log
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/statistics/pdfcandidatesz.h"
#include "RedshiftLibrary/statistics/pdfcandidateszresult.h"
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
extern "C" void harness() {
  const double h = 1.0 / 512; // default uncertainty 0.001 -> window of +-0.003
  const int n = 4 + 4 * NC;
  TFloat64List z, lp; double u[12];
  for (int i = 0; i < n; i++) z.push_back(1 + i * h);
  int pos[2]; pos[0] = NC == 1 ? sym_int("pos", 0, n - 1) : 1; pos[1] = n - 3;
  // the candidates are below their neighbours: no concave neighbourhood
  const double s0 = sym_logdouble("scale", 1, 1e-3, 1e3);
  for (int i = 0; i < n; i++) {
    double w = i == pos[0] || (NC == 2 && i == pos[1]) ? 0 : sym_logdouble(nm("u", i).c_str(), 1, 1, 1e3);
    lp.push_back(s0 + w); u[i] = exp(lp[i]);
  }
  TFloat64List zc;
  for (int c = 0; c < NC; c++) zc.push_back(z[pos[c]]);
  CPdfCandidatesZ op(zc);
  auto res = op.Compute(z, lp);
  sym_assert(res->size() == NC, "every candidate is reported");
  double val[2];
  for (int c = 0; c < NC; c++) {
    auto &cd = op.m_candidates[nm("EXT", c)];
    // expected enclosing samples of z +- 0.003, clipped to the grid
    double b = zc[c] - 0.003, e = zc[c] + 0.003;
    int i0 = 0, i1 = n - 1;
    while (i0 + 1 < n && z[i0 + 1] <= b) i0++;
    while (i1 - 1 >= 0 && z[i1 - 1] >= e) i1--;
    double s = 0;
    for (int i = i0; i < i1; i++) s += 0.5 * (u[i] + u[i + 1]) * (z[i + 1] - z[i]);
    SYM_NEAR(cd->ValSumProba, s, 1e-6, "integrated probability is the trapezoid sum over the window");
    sym_assert(cd->ValSumProbaZmin == z[i0] && cd->ValSumProbaZmax == z[i1], "reported window limits");
    sym_assert(sym_near(cd->Deltaz, 0.001, 1e-12), "default uncertainty");
    val[c] = cd->ValSumProba;
    sym_cover("integrated");
  }
  for (int c = 0; c + 1 < NC; c++) {
    auto &a = res->m_ranked_candidates[c].second, &b = res->m_ranked_candidates[c + 1].second;
    sym_assert(a->ValSumProba >= b->ValSumProba, "candidates ranked by decreasing integrated probability");
    sym_assert(res->m_ranked_candidates[c].first != res->m_ranked_candidates[c + 1].first, "each candidate ranked once");
  }
  sym_cover("ranked");
}
