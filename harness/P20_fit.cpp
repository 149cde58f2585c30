//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp operator/modelspectrumresult.cpp operator/operator.cpp operator/templatefitting.cpp operator/templatefittingBase.cpp operator/templatefittingresult.cpp operator/templatefittingwithphot.cpp photometry/photometricband.cpp photometry/photometricdata.cpp processflow/context.cpp processflow/inputcontext.cpp processflow/parameterstore.cpp processflow/resultstore.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/fluxcorrectioncalzetti.cpp spectrum/fluxcorrectionmeiksin.cpp spectrum/maskBuilder.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinLinear.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp spectrum/template/template.cpp
//@ quick: DSF=1 deadline=120
//@ thorough: DSF=2 deadline=800
//@ cover: specIGM bandIGM allbands noIGM dust igm prior positive nulled weight missing values
//@ bounds: a spectrum of 3 samples and two bands of 3 wavelengths, arbitrary spectrum and photometric fluxes (any one of them when several configurations compete, thorough two), errors of two values, weight 1 or 2; redshifts putting all, some or none of the samples and bands below Lyman alpha; two dust values, two IGM curves; with or without amplitude prior; template of fixed fluxes
//@ assumes: real arithmetic
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#define private public
#define protected public
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/processflow/inputcontext.h"
#include "RedshiftLibrary/operator/templatefittingwithphot.h"
#include "RedshiftLibrary/operator/templatefittingresult.h"
#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/photometry/photometricdata.h"
#include "RedshiftLibrary/spectrum/maskBuilder.h"
#include "RedshiftLibrary/spectrum/template/template.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h"
#undef private
#undef protected
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a, int b = -1) { return std::string(p) + std::to_string(a) + (b >= 0 ? "_" + std::to_string(b) : ""); }
static const double L0 = 1215.9, CL = 2.99792458e18;
extern "C" void harness() {
  auto cal = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection({1000, 1100, 1200, 1300}, {3, 2, 1, 0.5}), 0., 0.25, 2);
  std::vector<MeiksinCorrection> rc(1);
  for (int k = 0; k < 5; k++) rc[0].lbda.push_back(L0 + 0.05 * k);
  rc[0].fluxcorr = {TFloat64List(5, 0.5), TFloat64List(5, 0.25)};
  auto mei = std::make_shared<CSpectrumFluxCorrectionMeiksin>(rc, TFloat64List{0, 4});
  mei->m_corrections = rc; // as after a convolution
  mei->m_fineLambdaSize = 5;
  TFloat64List tw, tf;
  for (int k = 0; k < 40; k++) { tw.push_back(1000 + 40 * k); tf.push_back(k & 1 ? 2 : 1 + 0.125 * k); }
  auto tpl = std::make_shared<CTemplate>("t", "galaxy", CSpectrumSpectralAxis(tw), CSpectrumFluxAxis(tf));
  tpl->m_ismCorrectionCalzetti = cal;
  tpl->m_igmCorrectionMeiksin = mei;
  auto interp = [&](double x) {
    int i = (int)((x - 1000) / 40);
    return tf[i] + (x - tw[i]) / 40 * (tf[i + 1] - tf[i]);
  };
  const int zc = sym_int("zc", 0, 3);
  const double z = zc == 0 ? 2.2 : zc == 1 ? 2. : zc == 2 ? 1.8 : 1.2;
  const bool ism = sym_bool("ism"), igm = sym_bool("igm"), withprior = ism && sym_bool("prior");
  const double thr = sym_int("thr", 0, 1) ? 0. : -10000.;
  // spectrum and bands; the name order is not the wavelength order
  const int lay = sym_int("lay", 0, 2);
  const int order = sym_int("order", 0, 1);
  const TFloat64List W = {4150, 4200, 4250};
  const TFloat64List Bw[2] = {lay == 0 ? TFloat64List{3530, 3560, 3600} : lay == 1 ? TFloat64List{3300, 3550, 3590} : TFloat64List{3530, 3660, 3800},
                              lay == 0 ? TFloat64List{3600, 3700, 3850} : lay == 1 ? TFloat64List{3580, 3610, 3620} : TFloat64List{3900, 4000, 4100}};
  const TFloat64List Bt[2] = {{0.25, 1, 0.5}, {1, 0.5, 0.125}};
  const TFloat64List wu = lay == 2 ? TFloat64List{3540, 3600, 3660} : W;
  const std::string names[2] = {order ? "a" : "b", order ? "b" : "a"};
  const double wgt = sym_int("w", 1, 2);
  const int sf = ism || igm ? sym_int("sf", 0, 2) : -1;
  TFloat64List F, E = {0.5, 2, 1}, PF, PE = {0.25e-12, 1e-12};
  for (int k = 0; k < 3; k++) F.push_back(sf < 0 || ((sf == 0 || SF == 2) && k == 1) ? sym_double(nm("f", k).c_str(), -20, 20) : 2. * k - 1);
  for (int b = 0; b < 2; b++) PF.push_back((sf < 0 || sf == b + 1 ? sym_double(nm("p", b).c_str(), -20, 20) : 4. - 2 * b) * 1e-12);
  auto ic = std::make_shared<CInputContext>(nullptr);
  CProcessFlowContext &C = Context;
  C.m_inputContext = ic;
  auto s = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(wu), CSpectrumFluxAxis(F, CSpectrumNoiseAxis(E)));
  ic->addSpectrum(s);
  auto r = std::make_shared<TFloat64Range>(wu[0], wu[2]);
  ic->m_clampedLambdaRanges.push_back(r);
  ic->m_constClampedLambdaRanges.push_back(r);
  auto bands = std::make_shared<CPhotBandCatalog>();
  for (int b = 0; b < 2; b++) bands->Add(names[b], CPhotometricBand(Bt[b], Bw[b]));
  {
    int refused = 0;
    for (int t = 0; t < 4; t++) {
      if (t == 1) s->SetPhotData(std::make_shared<CPhotometricData>(TStringList{names[0]}, TFloat64List{1}, TFloat64List{1}));
      if (t == 2) s->SetPhotData(std::make_shared<CPhotometricData>(TStringList{names[0], "z", names[1]}, TFloat64List{PF[0], 7, PF[1]}, TFloat64List{PE[0], 1, PE[1]}));
      try { COperatorTemplateFittingPhot x(t < 2 ? bands : t == 2 ? nullptr : std::make_shared<CPhotBandCatalog>(), wgt, {z}); } catch (const AmzException &) { refused++; }
    }
    sym_assert(refused == 4, "refused without the photometry or the transmission of every band");
    sym_cover("missing");
  }
  COperatorTemplateFittingPhot op(bands, wgt, {z});
  CPriorHelper::TPriorZEList pz;
  const double pm[2] = {1.5, -0.5}, ps = 0.75, bA = 2, bTE = 0.5, bZ = 0.25;
  if (withprior) {
    CPriorHelper::TPriorEList pe;
    for (int i = 0; i < 2; i++) {
      CPriorHelper::SPriorTZE p;
      p.A_mean = pm[i]; p.A_sigma = ps; p.betaA = bA; p.betaTE = bTE; p.betaZ = bZ;
      p.logprior_precompA = -1 - i; p.logprior_precompTE = -2 - i; p.logprior_precompZ = -3;
      pe.push_back(p);
    }
    pz.push_back(pe);
  }
  std::shared_ptr<CTemplateFittingResult> res;
  try {
    res = std::dynamic_pointer_cast<CTemplateFittingResult>(op.Compute(tpl, 0.5, "lin", igm, ism, thr, pz));
  } catch (const AmzException &e) { sym_assert(false, e.what()); return; }
  // oracle: least squares over the samples and the bands, these weighted
  const int nD = ism ? 2 : 1, nM = igm ? 2 : 1;
  double cst = 0;
  for (int k = 0; k < 3; k++) cst += -0.5 * std::log(2 * M_PI) - std::log(E[k]);
  for (int b = 0; b < 2; b++) cst += -0.5 * std::log(2 * M_PI) - std::log(PE[b] / wgt);
  SYM_NEAR(res->CstLog, cst, 1e-9, "constant of the likelihood");
  bool reachS = wu[0] / (1 + z) <= 1216, reachB = std::min(Bw[0][0], Bw[1][0]) / (1 + z) <= 1216, allB = reachB;
  for (int b = 0; b < 2; b++) allB = allB && Bw[b][0] / (1 + z) <= 1216;
  double best[2][2], A[2][2], S[2][2], PH[2][2], V[2][2][2];
  for (int d = 0; d < nD; d++)
    for (int m = 0; m < nM; m++) {
      auto model = [&](double w) {
        const double x = w / (1 + z);
        double y = interp(x);
        if (ism && d && x >= 1000 && x < 1300) { const double c[4] = {3, 2, 1, 0.5}; y *= std::pow(10., -0.4 * c[(int)std::round((x - 1000) / 100)] * 0.25 * d); }
        if (igm && x <= 1216) y *= m == 0 ? 0.5 : 0.25;
        return y;
      };
      double sc = 0, st = 0, ss = 0, pc = 0, pt = 0, pS = 0;
      for (int k = 0; k < 3; k++) {
        const double y = model(wu[k]), iv = 1 / (E[k] * E[k]);
        sc += F[k] * y * iv; st += y * y * iv; ss += F[k] * F[k] * iv;
      }
      for (int b = 0; b < 2; b++) {
        double num = 0, den = 0;
        for (int i = 1; i < 3; i++) {
          const double w0 = Bw[b][i - 1], w1 = Bw[b][i], dn = CL / w0 - CL / w1;
          num += 0.5 * (model(w0) * w0 * w0 / CL * Bt[b][i - 1] * w0 + model(w1) * w1 * w1 / CL * Bt[b][i] * w1) * dn;
          den += 0.5 * (Bt[b][i - 1] * w0 + Bt[b][i] * w1) * dn;
        }
        const double y = num / den, iv = wgt * wgt / (PE[b] * PE[b]);
        V[d][m][b] = y;
        pc += PF[b] * y * iv; pt += y * y * iv; pS += PF[b] * PF[b] * iv;
      }
      sc += pc; st += pt; ss += pS;
      double a = sc / st, sig = std::sqrt(1 / st), lp = 0, b2 = 0, mean = 0;
      if (withprior) { b2 = bA / (ps * ps); mean = pm[d]; a = (sc + mean * b2) / (st + b2); sig = std::sqrt(st) / (st + b2); sym_cover("prior"); }
      const double snr = a / sig;
      if (snr < thr) { a = 0; sym_cover("nulled"); } else sym_cover("positive");
      double chi = ss - 2 * a * sc + a * a * st;
      if (withprior) chi += -2 * bTE * (-2. - d) - 2 * bA * (-1. - d) - 2 * bZ * (-3.) + b2 * (a - mean) * (a - mean);
      best[d][m] = chi; A[d][m] = a; S[d][m] = snr; PH[d][m] = pS - 2 * a * pc + a * a * pt;
    }
  for (int d = 0; d < nD; d++)
    for (int m = 0; m < nM; m++) SYM_NEAR(res->ChiSquareIntermediate[0][d][m], best[d][m], 1e-4, "chi2 of each dust and IGM configuration");
  int bd = -1, bm = -1;
  for (int d = 0; d < nD; d++) if (ism ? res->FitEbmvCoeff[0] == 0.25 * d : true) bd = d;
  if (res->FitMeiksinIdx[0] == undefIdx) { sym_assert(!igm || !(reachS || reachB), "IGM fitted when in range of the spectrum or of a band"); bm = 0; }
  else { sym_assert(igm && (reachS || reachB), "no IGM when out of range"); bm = res->FitMeiksinIdx[0]; }
  sym_assert(bd >= 0 && bm >= 0 && bm < nM, "best configuration is one of the tried");
  SYM_NEAR(res->ChiSquare[0], best[bd][bm], 1e-4, "chi2 is that of the configuration returned");
  SYM_NEAR(res->ChiSquarePhot[0], PH[bd][bm], 1e-4, "part of the chi2 due to the photometry");
  SYM_NEAR(res->FitAmplitude[0], A[bd][bm], 1e-6, "amplitude minimises the chi2");
  SYM_NEAR(res->FitAmplitudeSigma[0], S[bd][bm], 1e-6, "significance of the amplitude");
  for (int d = 0; d < nD; d++)
    for (int m = 0; m < nM; m++) sym_assert(res->ChiSquare[0] <= best[d][m] + 1e-4, "no configuration fits better");
  auto models = std::make_shared<CModelSpectrumResult>();
  auto v = op.ComputeSpectrumModel(tpl, z, ism ? res->FitEbmvCoeff[0] : -1, res->FitMeiksinIdx[0], -1.5, 0.5, 0, models);
  for (int b = 0; b < 2; b++) SYM_NEAR(v.at(names[b]) * 1e12, -1.5 * V[bd][bm][b] * 1e12, 1e-6, "photometry of the model is that of the scaled model");
  sym_cover("values");
  sym_cover(reachS ? "specIGM" : allB ? "allbands" : reachB ? "bandIGM" : "noIGM");
  if (ism) sym_cover("dust");
  if (igm) sym_cover("igm");
  if (wgt > 1) sym_cover("weight");
}
