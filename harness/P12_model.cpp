//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp operator/modelspectrumresult.cpp operator/operator.cpp operator/templatefitting.cpp operator/templatefittingBase.cpp operator/templatefittingresult.cpp processflow/context.cpp processflow/inputcontext.cpp processflow/parameterstore.cpp processflow/resultstore.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/fluxcorrectioncalzetti.cpp spectrum/fluxcorrectionmeiksin.cpp spectrum/maskBuilder.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinLinear.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp spectrum/template/template.cpp
//@ quick: deadline=120
//@ thorough: deadline=300
//@ cover: plain dust igm both outside partial refused two
//@ bounds: one or two spectra of 5 samples, one of the 25 wavelengths arbitrary, template of 9 samples of which three adjacent have arbitrary fluxes, any amplitude among three, dust value, IGM curve and redshift of a finite set
//@ assumes: real arithmetic; the arbitrary wavelength is not within 1e-6 A of a step of the curves
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#define private public
#define protected public
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/processflow/inputcontext.h"
#include "RedshiftLibrary/operator/templatefitting.h"
#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/spectrum/maskBuilder.h"
#include "RedshiftLibrary/spectrum/template/template.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h"
#undef private
#undef protected
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a, int b = -1) { return std::string(p) + std::to_string(a) + (b >= 0 ? "_" + std::to_string(b) : ""); }
static const double L0 = 1215.9;
extern "C" void harness() {
  auto cal = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection({1000, 1100, 1200, 1300}, {3, 2, 1, 0.5}), 0., 0.25, 2);
  std::vector<MeiksinCorrection> rc(1);
  for (int k = 0; k < 5; k++) rc[0].lbda.push_back(L0 + 0.05 * k);
  rc[0].fluxcorr = {TFloat64List(5, 0.5), TFloat64List(5, 0.25)};
  auto mei = std::make_shared<CSpectrumFluxCorrectionMeiksin>(rc, TFloat64List{1, 4});
  mei->m_corrections = rc; // as after a convolution
  mei->m_fineLambdaSize = 5;
  const int sy = sym_int("sy", 0, 2);
  TFloat64List tw, tf;
  for (int k = 0; k < 9; k++) { tw.push_back(1080 + 40 * k); tf.push_back(k / 3 == sy ? sym_double(nm("t", k).c_str(), -50, 50) : k & 1 ? 2 : 1 + 0.5 * k); }
  auto tpl = std::make_shared<CTemplate>("t", "galaxy", CSpectrumSpectralAxis(tw), CSpectrumFluxAxis(tf));
  tpl->m_ismCorrectionCalzetti = cal;
  tpl->m_igmCorrectionMeiksin = mei;
  const int nobs = 1 + sym_int("two", 0, 1), zc = sym_int("zc", 0, 3);
  const double zs[4] = {2.2, 2., 1.8, 2.4}, z = zs[zc];
  auto ic = std::make_shared<CInputContext>(nullptr);
  CProcessFlowContext &C = Context;
  C.m_inputContext = ic;
  std::vector<TFloat64List> W(nobs);
  const int sw = sym_int("sw", 0, 4);
  for (int o = 0; o < nobs; o++) {
    for (int k = 0; k < 5; k++) W[o].push_back((o == 0 ? 3530 : 3545) + (o == 0 ? 45. : 50.) * k);
    if (o == 0) W[o][sw] = sym_double("w", 3500 + 45. * sw, 3550 + 45. * sw);
    auto s = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(W[o]), CSpectrumFluxAxis(TFloat64List(5, 1.), CSpectrumNoiseAxis(TFloat64List(5, 1.))));
    s->setObsID(o == 0 ? "a" : "b");
    ic->addSpectrum(s);
    auto r = std::make_shared<TFloat64Range>(W[o].front(), std::min(o == 0 ? 3700. : 3720., W[o].back()));
    ic->m_clampedLambdaRanges.push_back(r);
    ic->m_constClampedLambdaRanges.push_back(r);
  }
  COperatorTemplateFitting op(TFloat64List{z});
  auto models = std::make_shared<CModelSpectrumResult>();
  const int d = sym_int("d", 0, 1), m = sym_int("m", -1, 1);
  const double amp = sym_int("amp", -1, 1) * 1.5;
  const double ov = sym_int("ov", 0, 1) ? 0.9 : 0.25;
  // another model computed before must not matter
  const bool hist = sym_bool("hist");
  for (int o = 0; o < nobs; o++) {
    const double beg = ic->m_clampedLambdaRanges[o]->GetBegin() / (1 + z), end = ic->m_clampedLambdaRanges[o]->GetEnd() / (1 + z);
    bool failed = false;
    try {
      if (hist) { auto other = std::make_shared<CModelSpectrumResult>(); op.ComputeSpectrumModel(tpl, 2., 0.25, 0, 3., 0., o, other); }
      op.ComputeSpectrumModel(tpl, z, d * 0.25, m, amp, ov, o, models);
    } catch (const AmzException &e) { failed = true; sym_assert(e.getErrorCode() == ErrorCode::OVERLAPFRACTION_NOTACCEPTABLE, "refused for insufficient overlap only"); }
    double in = 0, all = 0;
    for (int k = 0; k < 5; k++) {
      const double x = W[o][k] / (1 + z);
      if (x >= beg && x <= end) { all++; if (x >= 1080) in++; }
    }
    sym_assert(failed == (in < ov * all || in == 0), "refused when and only when the template does not cover enough of the samples");
    if (failed) { sym_cover("refused"); return; }
    const auto &M = models->ModelLambda.at(o == 0 ? "a" : "b");
    const auto &Y = models->ModelFlux.at(o == 0 ? "a" : "b");
    sym_assert(M.size() == 5 && Y.size() == 5, "model on the samples of the spectrum");
    for (int k = 0; k < 5; k++) {
      SYM_NEAR(M[k], W[o][k], 1e-7, "model in the observed frame");
      const double x = W[o][k] / (1 + z);
      for (double t : {1080., 1150., 1216., 1250.}) sym_assume(x > t + 1e-6 || x < t - 1e-6); // no rounding at the steps
      if (x < 1080 || x < beg || x > end) { sym_cover("outside"); continue; }
      int i = 0;
      while (i < 7 && x >= tw[i + 1]) i++;
      double y = tf[i] + (x - tw[i]) / 40 * (tf[i + 1] - tf[i]);
      if (d && x >= 1000 && x < 1300) { const double c[4] = {3, 2, 1, 0.5}; y *= std::pow(10., -0.4 * c[x < 1050 ? 0 : x < 1150 ? 1 : x < 1250 ? 2 : 3] * 0.25); }
      if (m >= 0 && x <= 1216) y *= m == 0 ? 0.5 : 0.25;
      SYM_NEAR(Y[k], amp * y, 1e-6, "model is the scaled, reddened and absorbed template");
    }
  }
  sym_cover(d && m >= 0 ? "both" : d ? "dust" : m >= 0 ? "igm" : "plain");
  if (nobs == 2) sym_cover("two");
  if (zc == 3) sym_cover("partial");
}
