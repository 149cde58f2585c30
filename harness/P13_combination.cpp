//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp operator/modelspectrumresult.cpp operator/templatefittingresult.cpp operator/tplcombination.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/fluxcorrectioncalzetti.cpp spectrum/fluxcorrectionmeiksin.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinFineGrid.cpp spectrum/rebin/rebinLinear.cpp spectrum/rebin/rebinNgp.cpp spectrum/rebin/rebinSpline.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp spectrum/template/template.cpp
//@ quick: DNT=2 deadline=200
//@ thorough: DNT=3 deadline=700
//@ cover: single pair allIGM partIGM noIGM edge outside masked dust igm model clipped unsorted
//@ bounds: one spectrum of 5 samples with arbitrary fluxes (three, one when several configurations compete) and two noise levels, one to NT templates (quick 2, thorough 3) of 9 samples with fixed fluxes on a common axis, linear interpolation; redshifts that put all, some or none of the samples below Lyman alpha, a partial overlap and none; every mask; two dust values, two IGM curves
//@ assumes: real arithmetic; the weighted linear least squares of GSL is modelled by the normal equations
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#define private public
#define protected public
#include "RedshiftLibrary/operator/tplcombination.h"
#include "RedshiftLibrary/operator/tplcombinationresult.h"
#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/spectrum/template/template.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h"
#undef private
#undef protected
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a, int b = -1) { return std::string(p) + std::to_string(a) + (b >= 0 ? "_" + std::to_string(b) : ""); }
static const double L0 = 1215.9;
static const int NS = 5;
extern "C" void harness() {
  auto cal = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection({1000, 1100, 1200, 1300}, {3, 2, 1, 0.5}), 0., 0.25, 2);
  std::vector<MeiksinCorrection> rc(1);
  for (int k = 0; k < 5; k++) rc[0].lbda.push_back(L0 + 0.05 * k);
  rc[0].fluxcorr = {TFloat64List(5, 0.5), TFloat64List(5, 0.25)};
  auto mei = std::make_shared<CSpectrumFluxCorrectionMeiksin>(rc, TFloat64List{1, 4});
  mei->m_corrections = rc; // as after a convolution
  mei->m_fineLambdaSize = 5;
  const int nt = sym_int("nt", 1, NT);
  TFloat64List tw;
  for (int k = 0; k < 9; k++) tw.push_back(1040 + 40 * k);
  const double shape[3][9] = {{1, 2, 2, 2, 3, 2, 4, 2, 5}, {3, 1, 0.5, 4, 1, 0.25, 2, 2, 1}, {0.5, 4, 1, 3, 0.25, 5, 1, 3, 2}};
  TTemplateConstRefList tpls;
  for (int t = 0; t < nt; t++) {
    auto tpl = std::make_shared<CTemplate>(nm("t", t), "galaxy", CSpectrumSpectralAxis(tw), CSpectrumFluxAxis(TFloat64List(shape[t], shape[t] + 9)));
    tpl->m_ismCorrectionCalzetti = cal;
    tpl->m_igmCorrectionMeiksin = mei;
    tpls.push_back(tpl);
  }
  auto interp = [&](int t, double x) {
    int i = (int)((x - 1040) / 40);
    if (i > 7) i = 7;
    return shape[t][i] + (x - tw[i]) / 40 * (shape[t][i + 1] - shape[t][i]);
  };
  const int zc = sym_int("zc", 0, 4);
  sym_assume(!(nt == 3 && zc == 3)); // the templates are not independent over the overlap
  const double z = zc == 0 ? 2.2 : zc == 1 ? 2. : zc == 2 ? 1.8 : zc == 3 ? 2.44 : 2.8;
  const bool ism = sym_bool("ism"), igm = sym_bool("igm");
  const bool several = ism || igm;
  const int sf = several ? 1 + sym_int("sf", 0, 1) : 0;
  const int edge = sym_int("clip", 0, 1);
  TFloat64List W, F, E;
  for (int k = 0; k < NS; k++) {
    W.push_back(3545 + 40 * k);
    const double fix = 3 * ((k * 7) % 5) - 4.;
    if (k == 3) F.push_back(50); // the largest, so that the normalisation is known
    else F.push_back((several ? k == sf : k < 3) ? sym_double(nm("f", k).c_str(), -20, 20) : fix);
    E.push_back(k & 1 ? 2. : 0.5);
  }
  CSpectrum spc(CSpectrumSpectralAxis(W), CSpectrumFluxAxis(F, CSpectrumNoiseAxis(E)));
  const TFloat64Range lr(3400, edge ? 3700 : 3800);
  const int mk = sym_int("mask", 0, nt < 3 ? 2 : 0); // none, then one sample masked
  std::vector<CMask> masks;
  auto used = [&](int k) {
    const double x = W[k] / (1 + z);
    return W[k] <= lr.GetEnd() && x >= 1040 && x <= 1360;
  };
  TFloat64List zs{z, 1.75};
  const int n2 = zc == 1 ? 2 : 1; // a second, smaller redshift: the list is not sorted
  if (n2 == 1) zs.pop_back();
  for (int i = 0; mk && i < n2; i++) {
    CMask m(NS, 1);
    m[mk == 1 ? 0 : 2] = i; // not masked for the second redshift
    masks.push_back(m);
  }
  auto masked = [&](int k) { return mk && k == (mk == 1 ? 0 : 2); };
  COperatorTplcombination op;
  std::shared_ptr<CTplCombinationResult> res;
  bool failed = false;
  try {
    res = std::dynamic_pointer_cast<CTplCombinationResult>(op.Compute(spc, tpls, lr, zs, 0.5, masks, "lin", igm, ism));
  } catch (const AmzException &e) { failed = true; sym_observe(e.what(), 0); }
  if (zc == 4) { sym_assert(failed, "refused without overlap"); sym_cover("outside"); return; }
  sym_assert(!failed, "the fit succeeds when the templates overlap the spectrum");
  const int iz = n2 - 1; // sorted results
  sym_assert((int)res->Redshifts.size() == n2 && res->Redshifts[iz] == z && (n2 == 1 || res->Redshifts[0] == 1.75), "redshifts sorted");
  if (n2 == 2) {
    sym_cover("unsorted");
    sym_assert(res->FitMeiksinIdx[0] == undefIdx, "no IGM at the low redshift");
  }
  const int nD = ism ? 2 : 1, nM = igm ? 2 : 1;
  bool reach = false;
  double cst = 0;
  for (int k = 0; k < NS; k++) {
    if (W[k] <= lr.GetEnd()) cst += -0.5 * std::log(2 * M_PI) - std::log(E[k]);
    if (used(k) && W[k] / (1 + z) <= 1216) reach = true;
  }
  SYM_NEAR(res->CstLog, cst, 1e-9, "constant of the likelihood");
  auto ext = [&](int d, int m, double x) {
    double y = 1;
    if (ism && d && x >= 1000 && x < 1300) { const double c[4] = {3, 2, 1, 0.5}; y *= std::pow(10., -0.4 * c[(int)std::round((x - 1000) / 100)] * 0.25 * d); }
    if (igm && m >= 0 && x <= 1216) y *= m == 0 ? 0.5 : 0.25;
    return y;
  };
  double best[2][2], A[2][2][3], V[2][2][3][3];
  for (int d = 0; d < nD; d++)
    for (int m = 0; m < nM; m++) {
      double M[3][7] = {};
      for (int k = 0; k < NS; k++) {
        if (!used(k) || masked(k)) continue;
        const double x = W[k] / (1 + z), w = 1 / (E[k] * E[k]), e = ext(d, m, x);
        for (int a = 0; a < nt; a++) {
          for (int b = 0; b < nt; b++) M[a][b] += w * e * e * interp(a, x) * interp(b, x);
          M[a][6] += w * e * interp(a, x) * F[k];
        }
      }
      for (int a = 0; a < nt; a++) M[a][3 + a] = 1;
      for (int p = 0; p < nt; p++) {
        const double piv = M[p][p];
        for (int j = 0; j < 7; j++) M[p][j] = M[p][j] / piv;
        for (int r = 0; r < nt; r++) if (r != p) { const double f = M[r][p]; for (int j = 0; j < 7; j++) M[r][j] = M[r][j] - f * M[p][j]; }
      }
      double chi = 0;
      for (int a = 0; a < nt; a++) { A[d][m][a] = M[a][6]; for (int b = 0; b < nt; b++) V[d][m][a][b] = M[a][3 + b]; }
      for (int k = 0; k < NS; k++) {
        if (!used(k) || masked(k)) continue;
        const double x = W[k] / (1 + z), e = ext(d, m, x);
        double r = F[k];
        for (int a = 0; a < nt; a++) r -= A[d][m][a] * e * interp(a, x);
        chi += r * r / (E[k] * E[k]);
      }
      best[d][m] = chi;
    }
  sym_assert((int)res->ChiSquareIntermediate[iz].size() == nD && (int)res->ChiSquareIntermediate[iz][0].size() == nM, "one chi2 per dust and IGM configuration");
  for (int d = 0; d < nD; d++)
    for (int m = 0; m < nM; m++) {
      SYM_NEAR(res->ChiSquareIntermediate[iz][d][m], best[d][m], 1e-6, "chi2 of each dust and IGM configuration");
      if (ism) SYM_NEAR(res->IsmEbmvCoeffIntermediate[iz][d][m], 0.25 * d, 1e-12, "dust of the configuration");
      else sym_assert(res->IsmEbmvCoeffIntermediate[iz][d][m] == -1., "no dust");
      if (igm && reach) sym_assert(res->IgmMeiksinIdxIntermediate[iz][d][m] == m, "IGM of the configuration");
    }
  int bd = -1, bm = -1;
  for (int d = 0; d < nD; d++) if (ism ? res->FitEbmvCoeff[iz] == 0.25 * d : true) bd = d;
  if (res->FitMeiksinIdx[iz] == undefIdx) { sym_assert(!igm || !reach, "IGM fitted when in range"); bm = 0; }
  else { sym_assert(igm && reach, "no IGM when out of range"); bm = res->FitMeiksinIdx[iz]; }
  sym_assert(bd >= 0 && bm >= 0 && bm < nM, "best configuration is one of the tried");
  SYM_NEAR(res->ChiSquare[iz], best[bd][bm], 1e-6, "chi2 is that of the configuration returned");
  for (int d = 0; d < nD; d++)
    for (int m = 0; m < nM; m++) sym_assert(res->ChiSquare[iz] <= best[d][m] + 1e-6, "no configuration fits better");
  double sa = 0, se = 0;
  for (int a = 0; a < nt; a++) {
    SYM_NEAR(res->FitAmplitude[iz][a], A[bd][bm][a], 1e-6, "amplitudes of the configuration returned minimise its chi2");
    SYM_NEAR(res->FitAmplitudeError[iz][a], std::sqrt(V[bd][bm][a][a]), 1e-6, "amplitude errors");
    SYM_NEAR(res->FitAmplitudeSigma[iz][a], A[bd][bm][a] / std::sqrt(V[bd][bm][a][a]), 1e-6, "amplitude significances");
    sa += A[bd][bm][a] * A[bd][bm][a];
    se += V[bd][bm][a][a];
    for (int b = 0; b < nt; b++) SYM_NEAR(res->FitCOV[iz][a][b], V[bd][bm][a][b], 1e-6, "covariance of the amplitudes");
  }
  if (several) SYM_NEAR(res->SNR[iz] * res->SNR[iz], sa / se, 1e-6, "signal to noise ratio");
  auto model = op.ComputeSpectrumModel(spc, tpls, z, res->FitEbmvCoeff[iz], res->FitMeiksinIdx[iz], res->FitAmplitude[iz], lr, 0.5);
  const TFloat64List &mw = model->ModelLambda[""], &mf = model->ModelFlux[""];
  sym_assert((int)mw.size() == NS && (int)mf.size() == NS, "the model has the samples of the spectrum");
  for (int k = 0; k < NS; k++) {
    SYM_NEAR(mw[k], W[k], 1e-9, "the model is in the observed frame");
    if (!used(k)) continue;
    double y = 0;
    for (int a = 0; a < nt; a++) y += A[bd][bm][a] * interp(a, W[k] / (1 + z)) * ext(bd, bm, W[k] / (1 + z));
    SYM_NEAR(mf[k], y, 1e-6, "the model is the fitted combination");
  }
  sym_cover(zc == 0 ? "allIGM" : zc == 1 ? "partIGM" : zc == 2 ? "noIGM" : "edge");
  sym_cover(nt == 1 ? "single" : "pair");
  if (mk) sym_cover("masked");
  if (edge) sym_cover("clipped");
  if (ism) sym_cover("dust");
  if (igm) sym_cover("igm");
  sym_cover("model");
}
