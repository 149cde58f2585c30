//@ src: common/flag.cpp common/mutex.cpp common/polynom.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp line/line.cpp line/lineprofileSYM.cpp linemodel/abstractfitter.cpp linemodel/continuummanager.cpp linemodel/element.cpp linemodel/elementlist.cpp linemodel/elementparam.cpp linemodel/hybridfitter.cpp linemodel/individualfitter.cpp linemodel/lmeltlistvector.cpp linemodel/onesfitter.cpp linemodel/randomfitter.cpp linemodel/spectrummodel.cpp linemodel/svdfitter.cpp linemodel/svdlcfitter.cpp log/handler.cpp log/log.cpp operator/modelspectrumresult.cpp operator/templatefittingBase.cpp processflow/autoscope.cpp processflow/context.cpp processflow/inputcontext.cpp processflow/parameterstore.cpp processflow/resultstore.cpp processflow/scopestack.cpp processflow/scopestore.cpp spectrum/LSF.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/fluxcorrectioncalzetti.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinFineGrid.cpp spectrum/rebin/rebinLinear.cpp spectrum/rebin/rebinNgp.cpp spectrum/rebin/rebinSpline.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp spectrum/template/catalog.cpp spectrum/template/template.cpp
//@ quick: deadline=120
//@ thorough: deadline=800
//@ cover: individual svd hybrid joint negative refit offset chosen outside
//@ bounds: 8 layouts of 2 to 5 lines in 1 to 3 amplitude groups (emission, absorption, overlapping, touching, one never seen), 2 redshifts, 1 or 2 observations of 11 and 6 samples, 2 or 3 consecutive symbolic fluxes in [-20,20] at 4 positions, fixed errors and continuum, constant-width LSF, 0 or 2 wavelength offsets tried
//@ assumes: real arithmetic; GSL weighted linear least squares modelled by the normal equations; the spectrum of the line model carries the errors of the data; amplitudes of the joint fit farther than 1e-6 from 0 (rounding decides which side of the constraint is taken there)
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#define private public
#define protected public
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/processflow/inputcontext.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/linemodel/abstractfitter.h"
#include "RedshiftLibrary/linemodel/individualfitter.h"
#include "RedshiftLibrary/linemodel/hybridfitter.h"
#include "RedshiftLibrary/linemodel/elementlist.h"
#include "RedshiftLibrary/linemodel/spectrummodel.h"
#include "RedshiftLibrary/spectrum/LSFConstantWidth.h"
#include "RedshiftLibrary/../src/lib/line/catalog.cpp" // its templates are instantiated too early in it for clang to emit them all
#undef private
#undef protected
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a, int b = -1) { return std::string(p) + std::to_string(a) + (b >= 0 ? "_" + std::to_string(b) : ""); }
static CLine mk(int id, double pos, bool em, const std::string &grp, double nom, bool offfit) {
  return CLine("l" + std::to_string(id), pos, em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption, std::unique_ptr<CLineProfile>(new CLineProfileSYM(8)), CLine::EForce::nForce_Strong, 0, offfit, grp, nom, "v", id, "s" + std::to_string(id));
}

auto *keep = &CLineCatalogBase<CLine>::ConvertToGroupList;
static const double SIG = 0.75, CL = 299792.458;
struct L { int grp; double pos; bool em; double nom; };
extern "C" void harness() {
  const int fitter = sym_int("fitter", 0, 2); // individual, svd, hybrid
  const int nobs = fitter == 0 ? sym_int("nobs", 1, 2) : 1;
  const bool offsets = fitter > 0 && sym_bool("offsets");
  CProcessFlowContext &C = Context;
  C.m_ScopeStack->push_back("galaxy", ScopeType::SPECTRUMMODEL);
  C.m_ScopeStack->push_back("redshiftSolver", ScopeType::STAGE);
  C.m_ScopeStack->push_back("lineModelSolve", ScopeType::METHOD);
  C.LoadParameterStore("{\"galaxy\":{\"redshiftSolver\":{\"method\":\"lineModelSolve\",\"lineModelSolve\":{\"lineModel\":{\"velocityEmission\":\"100\",\"velocityAbsorption\":\"300\",\"lineWidthType\":\"instrumentDriven\",\"lineRatioType\":\"tplRatio\",\"improveBalmerFit\":false,\"lya\":{\"profile\":\"igm\"}}}}}}");
  // the lines; the lines of a group share an amplitude
  const int lay = sym_int("lay", 0, 7);
  std::vector<L> ln;
  if (lay == 0) ln = {{0, 5006, true, 1}, {0, 5010, true, 0.5}};         // one element, supports sharing one sample
  if (lay == 1) ln = {{0, 5006, true, 1}, {0, 5009, true, 2}, {1, 5013, true, 1}};
  if (lay == 2) ln = {{0, 5005, true, 1}, {1, 5014, false, 1}};          // emission and absorption
  if (lay == 3) ln = {{0, 5006, true, 1}, {1, 5008, true, 0.5}, {1, 5016, true, 1}};
  if (lay == 4) ln = {{0, 5008, true, 1}, {1, 5009, false, 0.5}};        // emission over absorption
  if (lay == 5) ln = {{0, 5006, true, 0.5}, {1, 5014, true, 1}, {1, 5900, true, 1}}; // the last one is never seen
  if (lay == 6) ln = {{0, 5006, true, 1}, {1, 5008, true, 0.5}, {2, 5010.5, true, 1}};
  if (lay == 7) ln = {{0, 5004, true, 1}, {0, 5013, true, 1}, {0, 5008, true, 0.5}, {0, 5016, true, 2}, {0, 5010.5, true, 1}}; // a chain
  const int nl = ln.size();
  int ne = 0;
  for (auto &l : ln) ne = std::max(ne, l.grp + 1);
  const bool joint = ne >= 2 && (fitter == 1 || (fitter == 2 && (lay == 1 || lay == 3 || lay == 6)));
  const double z = sym_int("zc", 0, 1) ? 0.0002 : 0.;
  CLineMap cat;
  for (int k = 0; k < nl; k++) cat[k] = mk(k, ln[k].pos, ln[k].em, nm("g", ln[k].grp), ln[k].nom, offsets);
  // the observations
  std::vector<TFloat64List> W(2), F(2), E(2), CT(2);
  CSpectraGlobalIndex idx(nobs);
  CTLambdaRangePtrVector lrs;
  auto spcs = std::make_shared<std::vector<std::shared_ptr<const CSpectrum>>>();
  const int sf = sym_int("sf", 0, 3);
  for (int o = 0; o < nobs; o++) {
    const int n = o ? 6 : 11;
    for (int k = 0; k < n; k++) {
      W[o].push_back(o ? 5011 + 2 * k : 5000 + 2 * k);
      CT[o].push_back(1 + 0.25 * ((k * 5) % 4));
      const bool symb = o == 0 && (k >= 2 + 2 * sf && k < (fitter == 0 ? 5 : 4) + 2 * sf);
      const double v = !fitter ? ((k * 7) % 5) - 1. : k == 1 + 2 * sf || k == 5 + 2 * sf ? 50. : ((k * 7) % 5) - 1.;
      F[o].push_back(symb ? sym_double(nm("f", o, k).c_str(), -20, 20) : v);
      E[o].push_back(k & 1 ? 0.5 : 1.);
    }
    auto s = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(W[o]), CSpectrumFluxAxis(F[o], CSpectrumNoiseAxis(E[o])));
    spcs->push_back(s);
    lrs.push_back(std::make_shared<TLambdaRange>(W[o].front(), W[o].back()));
  }
  std::shared_ptr<CLMEltListVector> elts;
  std::shared_ptr<CSpcModelVector> models;
  try {
    elts = std::make_shared<CLMEltListVector>(lrs, idx, cat, ElementComposition::Default);
    models = std::make_shared<CSpcModelVector>(idx);
    for (auto &o : idx) {
      for (auto &e : elts->getElementList()) e->SetLSF(std::make_shared<CLSFGaussianConstantWidth>(SIG));
      CSpectrumModel m(std::make_shared<CLineModelElementList>(elts->getElementList()), (*spcs)[o], cat, nullptr, nullptr, o);
      m.m_SpcFluxAxis = CSpectrumFluxAxis(F[o], CSpectrumNoiseAxis(E[o]));
      m.m_ContinuumFluxAxis = CSpectrumFluxAxis(CT[o], CSpectrumNoiseAxis(E[o]));
      m.m_Redshift = z;
      m.initModelWithContinuum();
      models->push_back(m);
    }
    idx.reset();
    sym_assert(elts->getNbElements() == ne, "one element per amplitude group");
    auto f = CAbstractFitter::makeFitter(fitter == 0 ? "individual" : fitter == 1 ? "svd" : "hybrid", elts, spcs, lrs, models, cat, nullptr, idx, false, offsets);
    f->m_LambdaOffsetMin = 0;
    f->m_LambdaOffsetMax = 80;
    f->m_LambdaOffsetStep = 40; // offsets tried: 0 and 40 km/s
    f->fit(z);
    models->refreshAllModels();
  } catch (const AmzException &x) { sym_assert(false, x.what()); return; }
  idx.reset();
  // ---- oracle: supports of the lines (checked by P18_support) merged when they share a sample
  std::vector<std::vector<TInt32Range>> sup(nobs);
  std::vector<std::vector<bool>> out(nobs);
  std::vector<std::vector<std::vector<bool>>> on(nobs); // [obs][line][sample]: the line contributes to the sample
  for (auto &o : idx) {
    const int n = W[o].size();
    on[o].assign(nl, std::vector<bool>(n, false));
    for (int k = 0, j = 0; k < nl; k++, j++) {
      if (k && ln[k].grp != ln[k - 1].grp) j = 0;
      auto &e = *elts->getElementList()[ln[k].grp];
      sup[o].push_back(e.getTheoreticalSupportSubElt(j));
      const double mu = ln[k].pos * (1 + z);
      out[o].push_back(e.IsOutsideLambdaRangeLine(j));
      if (mu > W[o].front() + 4 * SIG && mu < W[o].back() - 4 * SIG) sym_assert(!out[o][k], "a line well inside is fitted");
      if (mu > W[o].back() + 10 * SIG) sym_assert(out[o][k], "a line well outside is not fitted");
    }
    for (int k = 0; k < nl; k++) {
      if (out[o][k]) continue;
      for (int i = sup[o][k].GetBegin(); i <= sup[o][k].GetEnd(); i++) on[o][k][i] = true;
    }
    for (int r = 0; r < nl; r++)
      for (int k = 0; k < nl; k++)
        for (int m = 0; m < nl; m++) {
          if (ln[k].grp != ln[m].grp || out[o][k] || out[o][m]) continue;
          bool share = false;
          for (int i = 0; i < n; i++) share |= on[o][k][i] && on[o][m][i];
          if (share)
            for (int i = 0; i < n; i++) on[o][k][i] = on[o][m][i] = on[o][k][i] || on[o][m][i];
        }
  }
  auto prof = [&](int k, int o, int i, double off) {
    const double t = (W[o][i] - ln[k].pos * (1 + z) * (1 + off / CL)) / SIG;
    return ln[k].em ? exp(-t * t / 2) : -CT[o][i] * exp(-t * t / 2);
  };
  auto &par = elts->getElementParam();
  auto single = [&](int e, double off, double &mtm, double &dtm) { // element alone on its own samples
    mtm = dtm = 0;
    for (int o = 0; o < nobs; o++)
      for (size_t i = 0; i < W[o].size(); i++) {
        double g = 0;
        for (int k = 0; k < nl; k++)
          if (ln[k].grp == e && on[o][k][i]) g += ln[k].nom * prof(k, o, i, off);
        mtm += g * g / (E[o][i] * E[o][i]);
        dtm += g * (F[o][i] - CT[o][i]) / (E[o][i] * E[o][i]);
      }
  };
  double A[3], S[3], off[3] = {0, 0, 0};
  bool seen[3] = {false, false, false}, all = true;
  for (int k = 0; k < nl; k++)
    for (int o = 0; o < nobs; o++) seen[ln[k].grp] = seen[ln[k].grp] || !out[o][k];
  for (int e = 0; e < ne; e++) all &= seen[e];
  auto alone = [&](int e, bool fitoff) {
    double m0, d0, m1, d1;
    single(e, fitoff ? 0. : off[e], m0, d0);
    single(e, 40, m1, d1);
    A[e] = (d0 > 0 ? d0 : 0.) / m0;
    S[e] = 1 / sqrt(m0);
    if (fitoff) {
      double cap = INFINITY; // an absorption is at most complete
      for (auto &l : ln) if (l.grp == e && !l.em) cap = 1 / l.nom;
      const double a0 = std::min((d0 > 0 ? d0 : 0.) / m0, cap), a1 = std::min((d1 > 0 ? d1 : 0.) / m1, cap);
      const double p0 = 2 * a0 * d0 - a0 * a0 * m0, p1 = 2 * a1 * d1 - a1 * a1 * m1;
      // the offset kept is one that explains the data best
      off[e] = par[e]->m_Offsets[0];
      sym_assert((off[e] == 0 && sym_near(std::max(p0, p1), p0, 1e-9)) || (off[e] == 40 && sym_near(std::max(p0, p1), p1, 1e-9)), "the offset kept gives the best fit");
      if (off[e] == 40) { A[e] = (d1 > 0 ? d1 : 0.) / m1; S[e] = 1 / sqrt(m1); sym_cover("offset"); }
    }
  };
  if (!joint || !all) {
    if (fitter == 2 && lay == 6) return;
    for (int e = 0; e < ne; e++)
      if (seen[e] && fitter != 1) alone(e, offsets);
    if (fitter == 1) return; // a single element through the linear solver: not compared
  } else {
    // samples of both elements
    std::vector<int> xs;
    for (size_t i = 0; i < W[0].size(); i++) {
      bool in = false;
      for (int k = 0; k < nl; k++) in |= on[0][k][i];
      if (in) xs.push_back(i);
    }
    auto solve = [&](const std::vector<int> &el, double o_, double *a, double *s) { // joint normal equations of the elements el
      const int q = el.size();
      double m[3][3] = {}, v[3][3] = {}, d[3] = {};
      for (int i : xs) {
        double g[3] = {0, 0, 0};
        for (int c = 0; c < q; c++)
          for (int k = 0; k < nl; k++)
            if (!out[0][k] && ln[k].grp == el[c]) g[c] += ln[k].nom * prof(k, 0, i, o_);
        const double w = 1 / (E[0][i] * E[0][i]), y = F[0][i] - CT[0][i];
        for (int c = 0; c < q; c++) {
          d[c] += g[c] * y * w;
          for (int c2 = 0; c2 < q; c2++) m[c][c2] += g[c] * g[c2] * w;
        }
      }
      for (int c = 0; c < q; c++) v[c][c] = 1; // inverse by elimination (concrete)
      for (int c = 0; c < q; c++) {
        const double p = m[c][c];
        for (int j = 0; j < q; j++) { m[c][j] /= p; v[c][j] /= p; }
        for (int r = 0; r < q; r++) {
          if (r == c) continue;
          const double t = m[r][c];
          for (int j = 0; j < q; j++) { m[r][j] -= t * m[c][j]; v[r][j] -= t * v[c][j]; }
        }
      }
      for (int c = 0; c < q; c++) {
        a[el[c]] = 0;
        for (int j = 0; j < q; j++) a[el[c]] += v[c][j] * d[j];
        s[el[c]] = sqrt(v[c][c]);
      }
    };
    std::vector<int> full;
    for (int e = 0; e < ne; e++) full.push_back(e);
    const double o_ = offsets ? par[0]->m_Offsets[0] : 0.;
    if (offsets) { sym_assert(o_ == 0 || o_ == 40, "the offset kept is one of those tried"); for (int e = 1; e < ne; e++) sym_assert(par[e]->m_Offsets[0] == o_, "lines fitted together have the same offset"); if (o_ == 40) sym_cover("offset"); }
    solve(full, o_, A, S);
    off[0] = off[1] = off[2] = o_;
    if (offsets && ne == 2) {
      double B[2][3], T[3], r[2] = {0, 0};
      solve(full, 0, B[0], T); solve(full, 40, B[1], T);
      // the non-negative amplitudes at both offsets: only where no constraint is active is the choice compared
      const double lim = ln[nl - 1].em ? INFINITY : 1 / ln[nl - 1].nom;
      if ((B[0][1] < lim) & (B[1][1] < lim) & (B[0][0] > 0) & (B[0][1] > 0) & (B[1][0] > 0) & (B[1][1] > 0)) {
        for (int c = 0; c < 2; c++)
          for (int i : xs) {
            double v = F[0][i] - CT[0][i];
            for (int k = 0; k < nl; k++)
              if (on[0][k][i]) v -= B[c][ln[k].grp] * ln[k].nom * prof(k, 0, i, 40 * c);
            r[c] += v * v / (E[0][i] * E[0][i]);
          }
        sym_assert(o_ == 0 ? r[0] <= r[1] + 1e-6 : r[1] <= r[0] + 1e-6, "the offset kept gives the smallest residual");
        sym_cover("chosen");
      }
    }
    std::vector<int> pos;
    for (int e = 0; e < ne; e++) sym_assume((A[e] < -1e-6) | (A[e] > 1e-6)); // away from the switch between the joint and the constrained fit
    for (int e = 0; e < ne; e++) {
      if (A[e] < 0) { A[e] = 0; S[e] = -1; } else pos.push_back(e);
    }
    if ((int)pos.size() == ne) sym_cover("joint");
    else {
      sym_cover("negative");
      if (pos.size() == 1) alone(pos[0], false);
      else if (pos.size() > 1) {
        solve(pos, o_, A, S);
        for (int e : pos) sym_assume((A[e] < -1e-6) | (A[e] > 1e-6));
        bool again = false;
        for (int e : pos) again = again || A[e] < 0;
        sym_cover(again ? "twice" : "refit");
        if (again)
          for (int e : pos) { if (A[e] < 0) { A[e] = 0; S[e] = -1; } else alone(e, false); }
      }
    }
  }
  for (int k = 0, j = 0; k < nl; k++, j++) {
    const int e = ln[k].grp;
    if (k && e != ln[k - 1].grp) j = 0;
    bool o_ = true;
    for (int o = 0; o < nobs; o++) o_ &= out[o][k];
    const double a = par[e]->m_FittedAmplitudes[j], s = par[e]->m_FittedAmplitudesStd[j];
    if (o_) { sym_assert(std::isnan(a) && std::isnan(s), "a line outside the range has no amplitude"); sym_cover("outside"); continue; }
    double x = A[e] * ln[k].nom;
    if (!ln[k].em && x > 1) x = 1;
    SYM_NEAR(a, x, 1e-8, "amplitude of the line");
    if (S[e] >= 0) SYM_NEAR(s, S[e] * ln[k].nom, 1e-8, "standard deviation of the line");
  }
  // the model
  for (auto &o : idx) {
    auto &mf = models->getSpectrumModel().GetModelSpectrum().GetFluxAxis().GetSamplesVector();
    for (size_t i = 0; i < W[o].size(); i++) {
      double v = CT[o][i];
      for (int k = 0, j = 0; k < nl; k++, j++) {
        const int e = ln[k].grp;
        if (k && e != ln[k - 1].grp) j = 0;
        if (on[o][k][i]) v += par[e]->m_FittedAmplitudes[j] * prof(k, o, i, off[e]);
      }
      SYM_NEAR(mf[i], v, 1e-9, "model: continuum plus the lines over their supports");
    }
  }
  sym_cover(fitter == 0 ? "individual" : fitter == 1 ? "svd" : "hybrid");
}
