//@ src: common/flag.cpp common/mutex.cpp common/polynom.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp line/line.cpp line/lineprofileSYM.cpp linemodel/abstractfitter.cpp linemodel/continuummanager.cpp linemodel/element.cpp linemodel/elementlist.cpp linemodel/elementparam.cpp linemodel/hybridfitter.cpp linemodel/individualfitter.cpp linemodel/lmeltlistvector.cpp linemodel/onesfitter.cpp linemodel/randomfitter.cpp linemodel/spectrummodel.cpp linemodel/svdfitter.cpp linemodel/svdlcfitter.cpp log/handler.cpp log/log.cpp operator/modelspectrumresult.cpp operator/templatefittingBase.cpp processflow/autoscope.cpp processflow/context.cpp processflow/inputcontext.cpp processflow/parameterstore.cpp processflow/resultstore.cpp processflow/scopestack.cpp processflow/scopestore.cpp spectrum/LSF.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/fluxcorrectioncalzetti.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinFineGrid.cpp spectrum/rebin/rebinLinear.cpp spectrum/rebin/rebinNgp.cpp spectrum/rebin/rebinSpline.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp spectrum/template/catalog.cpp spectrum/template/template.cpp
//@ quick: deadline=90
//@ thorough: DNSYM=2 deadline=800 pathsec=120
//@ cover: improvedHa improvedHb kept
//@ bounds: H beta (emission and absorption) or H alpha with its [NII] doublet over 17 samples, one (quick) or two (thorough) of them symbolic in [0,20], 5 positions of the symbolic samples, 2 levels of the others, constant continuum, combined widths
//@ assumes: real arithmetic; GSL weighted linear least squares modelled by the normal equations
#include "sym.h"
#include "RedshiftLibrary/line/linetags.h"
#include "RedshiftLibrary/common/exception.h"
#define private public
#define protected public
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/processflow/inputcontext.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/linemodel/abstractfitter.h"
#include "RedshiftLibrary/linemodel/individualfitter.h"
#include "RedshiftLibrary/linemodel/hybridfitter.h"
#include "RedshiftLibrary/linemodel/elementlist.h"
#include "RedshiftLibrary/linemodel/spectrummodel.h"
#include "RedshiftLibrary/spectrum/LSFConstantWidth.h"
#include "RedshiftLibrary/../src/lib/line/catalog.cpp" // its templates are instantiated too early in it for clang to emit them all
#undef private
#undef protected
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a, int b = -1) { return std::string(p) + std::to_string(a) + (b >= 0 ? "_" + std::to_string(b) : ""); }
auto *keep = &CLineCatalogBase<CLine>::ConvertToGroupList;
static const double SIG = 0.75;
#ifndef NSYM
#define NSYM 1
#endif
struct L { const char *name; double pos; bool em; const char *grp; double nom; };
extern "C" void harness() {
  CProcessFlowContext &C = Context;
  C.m_ScopeStack->push_back("galaxy", ScopeType::SPECTRUMMODEL);
  C.m_ScopeStack->push_back("redshiftSolver", ScopeType::STAGE);
  C.m_ScopeStack->push_back("lineModelSolve", ScopeType::METHOD);
  C.LoadParameterStore("{\"galaxy\":{\"redshiftSolver\":{\"method\":\"lineModelSolve\",\"lineModelSolve\":{\"lineModel\":{\"velocityEmission\":\"60\",\"velocityAbsorption\":\"300\",\"lineWidthType\":\"combined\",\"lineRatioType\":\"rules\",\"improveBalmerFit\":true,\"lya\":{\"profile\":\"igm\"}}}}}}");
  const bool ha = sym_bool("ha"); // H alpha is fitted with the [NII] doublet, H beta alone
  const double mu = ha ? 6564.61 : 4862.72, c = 299792.458;
  std::vector<L> ln;
  if (!ha) ln = {{linetags::hbeta_em, mu, true, "a", 1}, {linetags::hbeta_abs, mu, false, "b", 1}};
  else ln = {{linetags::halpha_em, mu, true, "a", 1}, {linetags::halpha_abs, mu, false, "b", 1}, {linetags::niib_em, 6549.86, true, "c", 0.5}, {linetags::niia_em, 6585.27, true, "c", 1.5}};
  const int nl = ln.size(), ne = ha ? 3 : 2;
  CLineMap cat;
  for (int k = 0; k < nl; k++)
    cat[k] = CLine(ln[k].name, ln[k].pos, ln[k].em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption, std::unique_ptr<CLineProfile>(new CLineProfileSYM(8)), CLine::EForce::nForce_Strong, 0, false, ln[k].grp, ln[k].nom, "v", k, "s" + std::to_string(k));
  const int n = 17;
  TFloat64List W, F, E, CT;
  const int sf = sym_int("sf", 0, 4), lev = sym_int("lev", 0, 1);
  for (int k = 0; k < n; k++) {
    W.push_back(mu - 32 + 4 * k);
    CT.push_back(10);
    E.push_back(k & 1 ? 0.5 : 1.);
    F.push_back(k >= 6 + sf && k < 6 + NSYM + sf ? sym_double(nm("f", k).c_str(), 0, 20) : 10 - (k >= 4 && k <= 12 ? lev ? 3. : -2. : 0.) + (k % 3) * 0.25 + (k == 11 + (sf > 3) ? -13.5 : 0)); // the largest is not symbolic: it scales the linear problem
  }
  CSpectraGlobalIndex idx(1);
  CTLambdaRangePtrVector lrs{std::make_shared<TLambdaRange>(W.front(), W.back())};
  auto spcs = std::make_shared<std::vector<std::shared_ptr<const CSpectrum>>>();
  spcs->push_back(std::make_shared<CSpectrum>(CSpectrumSpectralAxis(W), CSpectrumFluxAxis(F, CSpectrumNoiseAxis(E))));
  std::shared_ptr<CLMEltListVector> elts;
  std::shared_ptr<CSpcModelVector> models;
  try {
    elts = std::make_shared<CLMEltListVector>(lrs, idx, cat, ElementComposition::Default);
    idx.reset();
    models = std::make_shared<CSpcModelVector>(idx);
    for (auto &e : elts->getElementList()) e->SetLSF(std::make_shared<CLSFGaussianConstantWidth>(SIG));
    CSpectrumModel m(std::make_shared<CLineModelElementList>(elts->getElementList()), (*spcs)[0], cat, nullptr, nullptr, 0);
    m.m_SpcFluxAxis = CSpectrumFluxAxis(F, CSpectrumNoiseAxis(E));
    m.m_ContinuumFluxAxis = CSpectrumFluxAxis(CT, CSpectrumNoiseAxis(E));
    m.m_Redshift = 0;
    m.initModelWithContinuum();
    models->push_back(m);
    auto f = CAbstractFitter::makeFitter("hybrid", elts, spcs, lrs, models, cat, nullptr, idx, false, false);
    f->fit(0.);
  } catch (const AmzException &x) { sym_assert(false, x.what()); return; }
  idx.reset();
  auto &par = elts->getElementParam();
  sym_assert((int)par.size() == ne, "one element per group");
  auto g = [&](int k, int i) {
    const double v = ln[k].em ? 60 : 300, s = sqrt(SIG * SIG + ln[k].pos * ln[k].pos * v * v / c / c), t = (W[i] - ln[k].pos) / s;
    return ln[k].nom * (ln[k].em ? 1. : -CT[i]) * exp(-t * t / 2);
  };
  auto elt = [&](int k) { return k < 2 ? k : 2; };
  auto in = [&](int k, int i) { const auto s = elts->getElementList()[elt(k)]->getTheoreticalSupportSubElt(k < 2 ? 0 : k - 2); return i >= s.GetBegin() && i <= s.GetEnd(); };
  double A[3] = {0, 0, 0}, B[3] = {0, 0, 0};
  for (int e = 0; e < ne; e++) {
    double m = 0, d = 0;
    for (int i = 0; i < n; i++) {
      double v = 0;
      for (int k = 0; k < nl; k++)
        if (elt(k) == e && in(k, i)) v += g(k, i);
      m += v * v / E[i] / E[i];
      d += v * (F[i] - CT[i]) / E[i] / E[i];
    }
    A[e] = (d > 0 ? d : 0.) / m;
    B[e] = par[e]->m_FittedAmplitudes[0] / par[e]->m_NominalAmplitudes[0];
    if (e == 2) SYM_NEAR(par[2]->m_FittedAmplitudes[1], 3 * par[2]->m_FittedAmplitudes[0], 1e-9, "the doublet keeps its ratio");
  }
  if (A[1] > 1) A[1] = 1;
  double r0 = 0, r1 = 0;
  for (int i = 0; i < n; i++) {
    if (!in(1, i)) continue;
    double v0 = F[i] - CT[i], v1 = v0;
    for (int k = 0; k < nl; k++)
      if (in(k, i)) { v0 -= A[elt(k)] * g(k, i); v1 -= (B[elt(k)] > 0 ? B[elt(k)] : 0.) * g(k, i); }
    r0 += v0 * v0 / E[i] / E[i];
    r1 += v1 * v1 / E[i] / E[i];
  }
  const bool same = sym_near(B[0], A[0], 1e-9) & sym_near(B[1], A[1], 1e-9);
  if (same) { sym_cover("kept"); SYM_NEAR(B[2], A[2], 1e-9, "all the amplitudes are restored when the joint fit is not kept"); }
  else sym_cover(ha ? "improvedHa" : "improvedHb");
  sym_assert(r1 <= r0 + 1e-6, "the joint fit of the Balmer lines is kept only when it explains the data better");
}
