//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp operator/operator.cpp operator/templatefitting.cpp operator/templatefittingBase.cpp operator/templatefittingresult.cpp processflow/context.cpp processflow/inputcontext.cpp processflow/parameterstore.cpp processflow/resultstore.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/fluxcorrectioncalzetti.cpp spectrum/fluxcorrectionmeiksin.cpp spectrum/maskBuilder.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinLinear.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp spectrum/template/template.cpp
//@ quick: DNS=4 DSF=1 deadline=200
//@ thorough: DNS=4 DSF=2 deadline=700
//@ cover: oneIGM allIGM partIGM noIGM masked two dust igm prior positive nulled model
//@ bounds: one or two spectra of 4 samples with arbitrary fluxes (any one, thorough any two consecutive, when several configurations compete), two noise levels, every mask of the first spectrum, redshifts that put all, some or none of the samples below Lyman alpha; two dust values, two IGM curves; with or without amplitude prior; template of 9 samples with fixed fluxes, linear interpolation
//@ assumes: real arithmetic; Lyman alpha limit of the IGM curves 1216 as in the library
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#define private public
#define protected public
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/processflow/inputcontext.h"
#include "RedshiftLibrary/operator/templatefitting.h"
#include "RedshiftLibrary/operator/templatefittingresult.h"
#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/spectrum/maskBuilder.h"
#include "RedshiftLibrary/spectrum/template/template.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h"
#undef private
#undef protected
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a, int b = -1) { return std::string(p) + std::to_string(a) + (b >= 0 ? "_" + std::to_string(b) : ""); }
static int g_mask = -1;
struct MB : CMaskBuilder {
  const CSpectrumSpectralAxis *first = nullptr;
  CMask getMask(const CSpectrumSpectralAxis &a, const TFloat64Range &r, const Float64 &z) override {
    CMask m(a.GetSamplesCount(), 1);
    if (&a == first) for (int i = 0; i < a.GetSamplesCount(); i++) m[i] = g_mask >> i & 1;
    return m;
  }
};
static const double L0 = 1215.9;
extern "C" void harness() {
  auto cal = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection({1000, 1100, 1200, 1300}, {3, 2, 1, 0.5}), 0., 0.25, 2);
  std::vector<MeiksinCorrection> rc(1);
  for (int k = 0; k < 5; k++) rc[0].lbda.push_back(L0 + 0.05 * k);
  rc[0].fluxcorr = {TFloat64List(5, 0.5), TFloat64List(5, 0.25)};
  auto mei = std::make_shared<CSpectrumFluxCorrectionMeiksin>(rc, TFloat64List{1, 4});
  mei->m_corrections = rc; // as after a convolution
  mei->m_fineLambdaSize = 5;
  TFloat64List tw, tf;
  for (int k = 0; k < 9; k++) { tw.push_back(1040 + 40 * k); tf.push_back(k & 1 ? 2 : 1 + 0.5 * k); }
  auto tpl = std::make_shared<CTemplate>("t", "galaxy", CSpectrumSpectralAxis(tw), CSpectrumFluxAxis(tf));
  tpl->m_ismCorrectionCalzetti = cal;
  tpl->m_igmCorrectionMeiksin = mei;
  auto interp = [&](double x) {
    int i = (int)((x - 1040) / 40);
    return tf[i] + (x - tw[i]) / 40 * (tf[i + 1] - tf[i]);
  };
  const int nobs = 1 + sym_int("two", 0, 1);
  const int zc = sym_int("zc", 0, 3);
  const double z = zc == 0 ? 2.2 : zc == 1 ? 2. : zc == 2 ? 1.8 : 1.905; // the last one: one observation in the IGM range only
  const int swap = nobs == 2 && zc == 3 ? sym_int("swap", 0, 1) : 0;
  const bool ism = sym_bool("ism"), igm = sym_bool("igm"), withprior = sym_bool("prior");
  const double thr = sym_int("thr", 0, 1) ? 0. : -10000.;
  const int sf = ism || igm ? sym_int("sf", 0, NS - 1) : 0;
  auto ic = std::make_shared<CInputContext>(nullptr);
  CProcessFlowContext &C = Context;
  C.m_inputContext = ic;
  std::vector<TFloat64List> W(nobs), F(nobs), E(nobs);
  double lo[2] = {3400, 3400}, hi[2] = {3680, 3720};
  for (int o = 0; o < nobs; o++) {
    const double first = o == swap ? 3530 : 3545, step = o == swap ? 65. : 50.;
    for (int k = 0; k < NS; k++) {
      W[o].push_back(first + step * (k < NS - 1 ? k : k) * (3. / (NS - 1)));
      const double fix = 3 * ((k * 7 + o * 3) % 5) - 4.;
      F[o].push_back(ism || igm ? (o == 0 && (k == sf || (SF == 2 && k == sf + 1)) ? sym_double(nm("f", o, k).c_str(), -20, 20) : fix) : sym_double(nm("f", o, k).c_str(), -20, 20));
      E[o].push_back(k & 1 ? 2. : 0.5);
    }
    auto s = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(W[o]), CSpectrumFluxAxis(F[o], CSpectrumNoiseAxis(E[o])));
    ic->addSpectrum(s);
    hi[o] = o == swap ? 3730 : 3690;
    auto r = std::make_shared<TFloat64Range>(std::max(W[o].front(), lo[o]), std::min(W[o].back(), hi[o]));
    ic->m_clampedLambdaRanges.push_back(r);
    ic->m_constClampedLambdaRanges.push_back(r);
  }
  COperatorTemplateFitting op(TFloat64List{z});
  auto mb = std::make_shared<MB>();
  mb->first = &ic->m_constSpectra[0]->GetSpectralAxis();
  op.setMaskBuilder(mb);
  g_mask = sym_int("mask", 1, (1 << NS) - 1);
  CPriorHelper::TPriorZEList pz;
  const double pm[2] = {1.5, -0.5}, ps = 0.75, bA = 2, bTE = 0.5, bZ = 0.25;
  if (withprior) {
    CPriorHelper::TPriorEList pe;
    for (int i = 0; i < 2; i++) {
      CPriorHelper::SPriorTZE p;
      p.A_mean = pm[i]; p.A_sigma = ps; p.betaA = bA; p.betaTE = bTE; p.betaZ = bZ;
      p.logprior_precompA = -1 - i; p.logprior_precompTE = -2 - i; p.logprior_precompZ = -3;
      pe.push_back(p);
    }
    pz.push_back(pe);
  }
  std::shared_ptr<CTemplateFittingResult> res;
  bool failed = false;
  try {
    res = std::dynamic_pointer_cast<CTemplateFittingResult>(op.Compute(tpl, 0.5, "lin", igm, ism, thr, pz));
  } catch (const AmzException &e) { failed = true; sym_observe(e.what(), 0); }
  bool any = nobs == 2;
  for (int k = 0; k < NS; k++) if ((g_mask >> k & 1) && W[0][k] >= ic->m_clampedLambdaRanges[0]->GetBegin() && W[0][k] <= ic->m_clampedLambdaRanges[0]->GetEnd()) any = true;
  if (!any) { sym_assert(failed, "refused when every sample is masked"); return; }
  bool obs0 = false;
  for (int k = 0; k < NS; k++) if (g_mask >> k & 1 && W[0][k] <= ic->m_clampedLambdaRanges[0]->GetEnd()) obs0 = true;
  sym_assert(!failed, "the fit succeeds whenever some sample is used");
  // oracle: least squares over the used samples of every observation
  const int nD = ism ? 2 : 1, nM = igm ? 2 : 1;
  bool reach = false;
  double cst = 0;
  for (int o = 0; o < nobs; o++)
    for (int k = 0; k < NS; k++) {
      if (W[o][k] < ic->m_clampedLambdaRanges[o]->GetBegin() || W[o][k] > ic->m_clampedLambdaRanges[o]->GetEnd()) continue;
      if (W[o][k] / (1 + z) <= 1216) reach = true;
      cst += -0.5 * std::log(2 * M_PI) - std::log(E[o][k]);
    }
  SYM_NEAR(res->CstLog, cst, 1e-9, "constant of the likelihood");
  double best[2][2], A[2][2], S[2][2], D[2][2], T[2][2], LP[2][2];
  for (int d = 0; d < nD; d++)
    for (int m = 0; m < nM; m++) {
      double sc = 0, st = 0, ss = 0;
      for (int o = 0; o < nobs; o++)
        for (int k = 0; k < NS; k++) {
          if (W[o][k] < ic->m_clampedLambdaRanges[o]->GetBegin() || W[o][k] > ic->m_clampedLambdaRanges[o]->GetEnd()) continue;
          if (o == 0 && !(g_mask >> k & 1)) continue;
          const double x = W[o][k] / (1 + z);
          double y = interp(x);
          if (ism && d && x >= 1000 && x < 1300) { const double c[4] = {3, 2, 1, 0.5}; y *= std::pow(10., -0.4 * c[(int)std::round((x - 1000) / 100)] * 0.25 * d); }
          if (igm && x <= 1216) y *= m == 0 ? 0.5 : 0.25;
          const double iv = 1 / (E[o][k] * E[o][k]);
          sc += F[o][k] * y * iv; st += y * y * iv; ss += F[o][k] * F[o][k] * iv;
        }
      double a = sc / st, sig = std::sqrt(1 / st), lp = 0;
      double b2 = 0, mean = 0;
      if (withprior && ism) { b2 = bA / (ps * ps); mean = pm[d]; a = (sc + mean * b2) / (st + b2); sig = std::sqrt(st) / (st + b2); }
      const double snr = a / sig;
      if (snr < thr) { a = 0; sym_cover("nulled"); } else sym_cover("positive");
      double chi = ss - 2 * a * sc + a * a * st;
      if (withprior && ism) {
        lp = -2 * bTE * (-2. - d) - 2 * bA * (-1. - d) - 2 * bZ * (-3.) + b2 * (a - mean) * (a - mean);
        chi += lp; sym_cover("prior");
      }
      best[d][m] = chi; A[d][m] = a; S[d][m] = snr; D[d][m] = sc; T[d][m] = st; LP[d][m] = lp;
    }
  sym_assert((int)res->ChiSquareIntermediate[0].size() == nD && (int)res->ChiSquareIntermediate[0][0].size() == nM, "one chi2 per dust and IGM configuration");
  for (int d = 0; d < nD; d++)
    for (int m = 0; m < nM; m++) {
      SYM_NEAR(res->ChiSquareIntermediate[0][d][m], best[d][m], 1e-6, "chi2 of each dust and IGM configuration");
      if (ism) SYM_NEAR(res->IsmEbmvCoeffIntermediate[0][d][m], 0.25 * d, 1e-12, "dust of the configuration");
      else sym_assert(res->IsmEbmvCoeffIntermediate[0][d][m] == -1., "no dust");
      if (igm && reach) sym_assert(res->IgmMeiksinIdxIntermediate[0][d][m] == m, "IGM of the configuration");
    }
  // best configuration
  int bd = -1, bm = -1;
  for (int d = 0; d < nD; d++) if (ism ? res->FitEbmvCoeff[0] == 0.25 * d : true) bd = d;
  if (res->FitMeiksinIdx[0] == undefIdx) { sym_assert(!igm || !reach, "IGM fitted when in range"); bm = 0; }
  else { sym_assert(igm && reach, "no IGM when out of range"); bm = res->FitMeiksinIdx[0]; }
  sym_assert(bd >= 0 && bm >= 0 && bm < nM, "best configuration is one of the tried");
  SYM_NEAR(res->ChiSquare[0], best[bd][bm], 1e-6, "chi2 is that of the configuration returned");
  SYM_NEAR(res->FitAmplitude[0], A[bd][bm], 1e-6, "amplitude minimises the chi2");
  SYM_NEAR(res->FitAmplitudeSigma[0], S[bd][bm], 1e-6, "significance of the amplitude");
  SYM_NEAR(res->FitDtM[0], D[bd][bm], 1e-6, "data by model sum");
  SYM_NEAR(res->FitMtM[0], T[bd][bm], 1e-6, "model by model sum");
  SYM_NEAR(res->LogPrior[0], LP[bd][bm], 1e-6, "log prior of the configuration returned");
  for (int d = 0; d < nD; d++)
    for (int m = 0; m < nM; m++) sym_assert(res->ChiSquare[0] <= best[d][m] + 1e-6, "no configuration fits better");
  sym_cover(zc == 0 ? "allIGM" : zc == 1 ? "partIGM" : zc == 2 ? "noIGM" : "oneIGM");
  if (g_mask != (1 << NS) - 1) sym_cover("masked");
  if (nobs == 2) sym_cover("two");
  if (ism) sym_cover("dust");
  if (igm) sym_cover("igm");
  sym_cover("model");
}
