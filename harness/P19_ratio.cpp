//@ src: common/flag.cpp common/mutex.cpp common/polynom.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp line/catalogsTplRatio.cpp line/line.cpp line/lineRatioCatalog.cpp line/lineprofileASYM.cpp line/lineprofileASYMFIT.cpp line/lineprofileSYM.cpp line/regulament.cpp line/rule.cpp line/rule2singlelinesamplitude.cpp line/ruleOIIRatioRange.cpp line/ruleStrongHigherThanWeak.cpp linemodel/abstractfitter.cpp linemodel/continuummanager.cpp linemodel/element.cpp linemodel/elementlist.cpp linemodel/elementparam.cpp linemodel/hybridfitter.cpp linemodel/individualfitter.cpp linemodel/linemodelfitting.cpp linemodel/linemodelsolution.cpp linemodel/lineratiomanager.cpp linemodel/lmeltlistvector.cpp linemodel/onesfitter.cpp linemodel/randomfitter.cpp linemodel/rulesmanager.cpp linemodel/spectrummodel.cpp linemodel/svdfitter.cpp linemodel/svdlcfitter.cpp linemodel/templatesfitstore.cpp linemodel/tplcorrmanager.cpp linemodel/tplratiomanager.cpp log/handler.cpp log/log.cpp operator/modelspectrumresult.cpp operator/templatefittingBase.cpp processflow/autoscope.cpp processflow/context.cpp processflow/inputcontext.cpp processflow/parameterstore.cpp processflow/resultstore.cpp processflow/scopestack.cpp processflow/scopestore.cpp spectrum/LSF.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/fluxcorrectioncalzetti.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinFineGrid.cpp spectrum/rebin/rebinLinear.cpp spectrum/rebin/rebinNgp.cpp spectrum/rebin/rebinSpline.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp spectrum/template/catalog.cpp spectrum/template/template.cpp statistics/priorhelper.cpp
//@ quick: deadline=120 noite=1 pathsec=30
//@ thorough: DTHOROUGH=1 deadline=800 noite=1
//@ cover: fitted none duplicate dusty plain second best model strong alpha absorption
//@ bounds: H alpha (strong), a weak emission line, an absorption line when there is a continuum, a strong line out of range in one layout; 2 or 3 ratio catalogues, each plain and attenuated (E(B-V) 0.5) when the attenuation is fitted, first pass with or without attenuation; one or two observations of 9 to 14 samples, 2 of them symbolic in [-20,20] (thorough: 3), no continuum or a varying one; with a previous fit at another redshift in one layout
//@ assumes: real arithmetic; constant instrumental width; individual fitter; no line priors; absorption below the cap; free amplitudes not within 1e-6 of zero; the last sample of the range has a null residual; the sums over samples run over the supports checked by P18_support; in 2 to 10 of about 8000 queries per run the solver answers unknown and the path is followed on both sides
#include "sym.h"
#include "RedshiftLibrary/line/linetags.h"
#include "RedshiftLibrary/common/exception.h"
#define private public
#define protected public
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/processflow/inputcontext.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/linemodel/linemodelfitting.h"
#include "RedshiftLibrary/linemodel/tplratiomanager.h"
#include "RedshiftLibrary/line/catalogsTplRatio.h"
#include "RedshiftLibrary/spectrum/LSFConstantWidth.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/template/catalog.h"
#include "RedshiftLibrary/../src/lib/line/catalog.cpp" // its templates are instantiated too early in it for clang to emit them all
#undef private
#undef protected
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a, int b = -1) { return std::string(p) + std::to_string(a) + (b >= 0 ? "_" + std::to_string(b) : ""); }
auto *keep = &CLineCatalogBase<CLine>::ConvertToGroupList;
CLineMap (CLineCatalogBase<CLine>::*keep2)(const std::string &, const std::string &) const = &CLineCatalogBase<CLine>::GetFilteredList;
static const double SIG = 0.75;
#ifdef THOROUGH
static const bool THIRD = true;
#else
static const bool THIRD = false;
#endif
struct L { std::string name; double pos; bool em, strong; double dust, nom[3]; };
extern "C" void harness() {
  CProcessFlowContext &C = Context;
  C.m_ScopeStack->push_back("galaxy", ScopeType::SPECTRUMMODEL);
  C.m_ScopeStack->push_back("redshiftSolver", ScopeType::STAGE);
  C.m_ScopeStack->push_back("lineModelSolve", ScopeType::METHOD);
  const bool cont = sym_bool("continuum");       // continuum of the spectrum, or no continuum
  const bool dust = sym_bool("dust");            // ratios attenuated by the interstellar medium
  const bool skip = dust && sym_bool("skip");    // the first pass only tries the ratios without attenuation
  const int lay = sym_int("lay", 0, 2), nobs = lay == 2 ? 2 : 1;
  C.LoadParameterStore(std::string("{\"galaxy\":{\"redshiftSolver\":{\"method\":\"lineModelSolve\",\"lineModelSolve\":{\"lineModel\":{") +
    "\"fittingMethod\":\"individual\",\"ampOffsetFit\":false,\"lbdaOffsetFit\":false,\"lineTypeFilter\":\"no\",\"lineForceFilter\":\"no\",\"firstPass\":{\"fittingMethod\":\"individual\",\"multipleContinuumFitDisable\":true,\"tplRatioIsmFit\":" + (skip ? "false" : "true") +
    "},\"continuumComponent\":\"" + (cont ? "fromSpectrum" : "noContinuum") + "\",\"continuumFit\":{\"negativeThreshold\":-5,\"nullThreshold\":3},\"tplRatioIsmFit\":" + (dust ? "true" : "false") +
    ",\"nSigmaSupport\":8,\"hAlphaPrior\":1,\"tplRatio\":{\"priors\":{\"catalogDirPath\":\"\",\"betaA\":1,\"betaTE\":1,\"betaZ\":1}},\"velocityEmission\":100,\"velocityAbsorption\":300,\"lineWidthType\":\"instrumentDriven\",\"lineRatioType\":\"tplRatio\",\"improveBalmerFit\":false,\"lya\":{\"profile\":\"igm\"}}}}}}");
  // the lines: the ratios are per line for 3 catalogues
  std::vector<L> ln;
  ln.push_back({linetags::halpha_em, 5004, true, true, 2, {1, 0.25, 0}});
  ln.push_back({"w", 5014, true, false, 1, {0.5, 2, 1}});
  if (lay == 1) ln.push_back({"far", 5900, true, true, 0.5, {1, 1, 1}}); // never seen
  if (cont) ln.push_back({"abs", 5009, false, true, 4, {0.5, 0.25, 0.5}});
  const int nl = ln.size(), ncat = lay == 0 && !dust ? 3 : 2, nism = dust ? 2 : 1, nt = ncat * nism, ne = cont ? 2 : 1;
  auto cat = std::make_shared<CLineCatalog>(8.);
  for (int k = 0; k < nl; k++)
    cat->Add(CLine(ln[k].name, ln[k].pos, ln[k].em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption, std::unique_ptr<CLineProfile>(new CLineProfileSYM(8)), ln[k].strong ? CLine::EForce::nForce_Strong : CLine::EForce::nForce_Weak, 0, false, "g" + std::to_string(k), 1, "v", k, "s" + std::to_string(k)));
  auto ratios = std::make_shared<CLineCatalogsTplRatio>();
  for (int c = 0; c < ncat; c++)
    for (int i = 0; i < nism; i++) {
      CLineRatioCatalog r("r" + std::to_string(c), *cat);
      for (int k = 0; k < nl; k++) r.setLineAmplitude(k, ln[k].nom[c]);
      r.setIsmIndex(i);
      ratios->addLineRatioCatalog(r);
    }
  TFloat64List cl, cv;
  for (int l = 4990; l < 6000; l++) cl.push_back(l), cv.push_back(1);
  for (auto &l : ln) cv[int(l.pos) - 4990] = l.dust;
  auto tpl = std::make_shared<CTemplate>("t", "galaxy", CSpectrumSpectralAxis(TFloat64List{1, 2, 3}), CSpectrumFluxAxis(TFloat64List{1, 1, 1}));
  const double EBMV = 0.5;
  tpl->m_ismCorrectionCalzetti = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(cl, cv), 0., EBMV, 2);
  auto tcat = std::make_shared<CTemplateCatalog>();
  tcat->Add(tpl);
  // the observations
  const double z = lay == 1 ? 0.0002 : 0.;
  auto &I = *C.m_inputContext;
  std::vector<TFloat64List> W(2), F(2), E(2), CT(2);
  for (int o = 0; o < nobs; o++) {
    for (int k = 0; k < (o ? 9 : 14); k++) {
      W[o].push_back(o ? 5007.5 + 2 * k : 4996 + 2 * k);
      CT[o].push_back(cont ? 1 + 0.25 * ((k * 5) % 4) : 0.);
      E[o].push_back(k & 1 ? 0.5 : 1.);
      const bool symb = o == 0 && (k == 4 || k == 9 || (THIRD && k == 6));
      F[o].push_back(symb ? sym_double(nm("f", o, k).c_str(), -20, 20) : CT[o][k] + (k % 3) * 0.5 - 0.5);
    }
    F[o].back() = CT[o].back(); // the sample at the end of the range is not compared
    auto s = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(W[o]), CSpectrumFluxAxis(F[o], CSpectrumNoiseAxis(E[o])));
    s->SetLSF(std::make_shared<CLSFGaussianConstantWidth>(SIG));
    TFloat64List wc;
    for (size_t k = 0; k < W[o].size(); k++) wc.push_back(F[o][k] - CT[o][k]);
    s->m_ContinuumFluxAxis = CSpectrumFluxAxis(CT[o], CSpectrumNoiseAxis(E[o]));
    s->m_WithoutContinuumFluxAxis = CSpectrumFluxAxis(wc, CSpectrumNoiseAxis(E[o]));
    s->alreadyRemoved = true;
    I.m_spectra.push_back(s);
    I.m_constSpectra.push_back(s);
    I.m_constClampedLambdaRanges.push_back(std::make_shared<TLambdaRange>(W[o].front(), W[o].back()));
  }
  I.m_lineCatalogs["galaxy"]["lineModelSolve"] = cat;
  I.m_lineRatioCatalogCatalogs["galaxy"] = ratios;
  I.m_TemplateCatalog = tcat;
  const bool logging = sym_bool("final");
  double merit;
  CLineModelSolution sol(cat->GetList());
  std::unique_ptr<CLineModelFitting> lm;
  try {
    lm.reset(new CLineModelFitting(nullptr));
    lm->setPassMode(skip ? 1 : 2);
    CTplModelSolution csol;
    if (lay == 1) lm->fit(z + 0.0004, sol, csol, 0, !logging); // what was fitted before does not matter
    merit = lm->fit(z, sol, csol, 0, logging);
  } catch (const AmzException &x) { sym_assert(false, x.what()); return; }
  auto m = std::dynamic_pointer_cast<CTplratioManager>(lm->m_lineRatioManager);
  sym_assert(m != nullptr, "the ratio manager is used");
  lm->m_spectraIndex.reset();
  // ---- oracle
  std::vector<std::vector<std::vector<char>>> on(nobs); // [obs][line][sample]: the samples of a line (checked by P18), shared by the lines of an element when they overlap
  for (auto &o : lm->m_spectraIndex) {
    on[o].assign(nl, std::vector<char>(W[o].size(), 0));
    for (int k = 0; k < nl; k++) {
      auto [e, j] = lm->m_ElementsVector->findElementIndex(k);
      auto &el = *lm->getElementList()[e];
      const double mu = ln[k].pos * (1 + z);
      const bool out = el.IsOutsideLambdaRangeLine(j);
      if (mu > W[o].front() + 4 && mu < W[o].back() - 4) sym_assert(!out, "a line well inside is fitted");
      if (mu < W[o].front() - 4 || mu > W[o].back() + 4) sym_assert(out, "a line well outside is not fitted");
      if (out) continue;
      const auto r = el.getTheoreticalSupportSubElt(j);
      for (int i = r.GetBegin(); i <= r.GetEnd(); i++) on[o][k][i] = 1;
    }
    for (int a = 0; a < nl; a++)
      for (int b = 0; b < nl; b++) {
        bool share = false;
        if (ln[a].em != ln[b].em) continue;
        for (size_t i = 0; i < W[o].size(); i++) share |= on[o][a][i] & on[o][b][i];
        if (share) for (size_t i = 0; i < W[o].size(); i++) on[o][a][i] = on[o][b][i] = on[o][a][i] | on[o][b][i];
      }
  }
  auto prof = [&](int k, int o, int i) {
    const double t = (W[o][i] - ln[k].pos * (1 + z)) / SIG;
    if (!on[o][k][i]) return 0.;
    return ln[k].em ? exp(-t * t / 2) : -CT[o][i] * exp(-t * t / 2);
  };
  auto nominal = [&](int t, int k) {
    double n = ln[k].nom[t / nism];
    if (ln[k].em && t % nism) n *= pow(10, -0.4 * EBMV * ln[k].dust);
    return n;
  };
  std::vector<std::vector<double>> A(nt, std::vector<double>(ne, 0.)), S = A;
  auto shape = [&](int t, int e, int o, int i) { double g = 0; for (int k = 0; k < nl; k++) if (ln[k].em == (e == 0) && k != (lay == 1 ? 2 : -1)) g += nominal(t, k) * prof(k, o, i); return g; };
  int el[2] = {m->m_EmEltIdx, m->m_AbsEltIdx};
  sym_assert(lm->getElementParam()[el[0]]->IsEmission() && (!cont || !lm->getElementParam()[el[1]]->IsEmission()), "the elements of the emission and absorption lines");
  const TFloat64List chi = m->GetChisquareTplratio();
  sym_assert((int)chi.size() == nt, "one merit per ratio");
  const int best = m->m_savedIdxFitted;
  sym_assert(best >= 0 && best < nt, "a best ratio");
  for (int t = 0; t < nt; t++) {
    const bool dup = skip && t % nism;
    const int u = dup ? t - t % nism : t;
    if (dup) sym_cover("duplicate"); else sym_cover(t % nism ? "dusty" : "plain");
    for (int e = 0; e < ne; e++) {
      double mtm = 0, dtm = 0;
      for (int o = 0; o < nobs; o++)
        for (size_t i = 0; i < W[o].size(); i++) {
          const double g = shape(u, e, o, i);
          mtm += g * g / (E[o][i] * E[o][i]);
          dtm += g * (F[o][i] - CT[o][i]) / (E[o][i] * E[o][i]);
        }
      sym_assume((dtm > 1e-6) | (dtm < -1e-6));
      A[t][e] = (dtm > 0 ? dtm : 0.) / mtm;
      S[t][e] = 1 / sqrt(mtm);
      if (e) { double cap = 0; for (int k = 0; k < nl; k++) if (!ln[k].em) cap = 1 / ln[k].nom[u / nism]; sym_assume(A[t][e] < cap); sym_cover("absorption"); }
      SYM_NEAR(m->m_FittedAmpTplratio[t][el[e]], A[t][e], 1e-9, "amplitude for a ratio");
      if (A[t][e] > 0) { SYM_NEAR(m->m_FittedErrorTplratio[t][el[e]], S[t][e], 1e-9, "uncertainty for a ratio"); sym_cover("fitted"); } else sym_cover("none");
    }
    double r = 0;
    for (int o = 0; o < nobs; o++)
      for (size_t i = 0; i < W[o].size(); i++) {
        double v = F[o][i] - CT[o][i];
        for (int e = 0; e < ne; e++) v -= A[t][e] * shape(u, e, o, i);
        r += v * v / (E[o][i] * E[o][i]);
      }
    SYM_NEAR(chi[t], r, 1e-8, "merit of a ratio");
    sym_assert(merit <= chi[t], "the merit returned is the smallest");
    // presence of strong lines
    const bool st = bool((A[t][0] > 0) & (nominal(u, 0) > 0));
    sym_assert(m->GetStrongELPresentTplratio()[t] == st, "presence of a strong emission line");
    const bool ha = st && nominal(u, 0) > nominal(u, 1);
    if (st) sym_cover("strong");
    if (ha) sym_cover("alpha");
    sym_assert(m->getHaELPresentTplratio()[t] == ha, "H alpha is the strongest line");
  }
  sym_assert(merit == chi[best], "the best ratio has the merit returned");
  sym_cover("best");
  if (best) sym_cover("second");
  sym_assert(m->getTplratio_bestTplName() == "r" + std::to_string(best / nism), "name of the best ratio");
  if (dust) sym_assert(m->getTplratio_bestTplIsmCoeff() == EBMV * (best % nism), "attenuation of the best ratio");
  SYM_NEAR(m->getTplratio_bestAmplitudeEm(), A[best][0], 1e-9, "emission amplitude of the best ratio");
  if (cont) SYM_NEAR(m->getTplratio_bestAmplitudeAbs(), A[best][1], 1e-9, "absorption amplitude of the best ratio");
  for (int k = 0; k < nl; k++) {
    if (lay == 1 && k == 2) { sym_assert(std::isnan(sol.Amplitudes[k]), "a line that is not observed has no amplitude"); continue; }
    SYM_NEAR(sol.Amplitudes[k], nominal(best, k) * A[best][ln[k].em ? 0 : 1], 1e-9, "amplitude of a line in the solution");
  }
  if (logging) {
    sym_cover("model");
    for (auto &o : lm->m_spectraIndex) {
      auto &f = lm->getSpectrumModel().GetModelSpectrum().GetFluxAxis();
      for (size_t i = 0; i < W[o].size(); i++) {
        double v = CT[o][i];
        for (int e = 0; e < ne; e++) v += A[best][e] * shape(best, e, o, i);
        SYM_NEAR(f[i], v, 1e-9, "final model");
      }
    }
  }
}
