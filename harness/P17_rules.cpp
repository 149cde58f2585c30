//@ src: common/flag.cpp common/mutex.cpp common/polynom.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp line/line.cpp line/lineprofileASYM.cpp line/lineprofileASYMFIT.cpp line/lineprofileSYM.cpp line/regulament.cpp line/rule.cpp line/rule2singlelinesamplitude.cpp line/ruleOIIRatioRange.cpp line/ruleStrongHigherThanWeak.cpp linemodel/continuummanager.cpp linemodel/element.cpp linemodel/elementlist.cpp linemodel/elementparam.cpp linemodel/lineratiomanager.cpp linemodel/lmeltlistvector.cpp linemodel/rulesmanager.cpp linemodel/spectrummodel.cpp log/handler.cpp log/log.cpp processflow/autoscope.cpp processflow/context.cpp processflow/inputcontext.cpp processflow/parameterstore.cpp processflow/resultstore.cpp processflow/scopestack.cpp processflow/scopestore.cpp spectrum/LSF.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinLinear.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp
//@ quick: deadline=120
//@ thorough: DTHOROUGH=1 deadline=800
//@ cover: limited kept balmer ratio weak skipped outside none
//@ bounds: H alpha to H delta (thorough: to H11) with H beta absorption, the [OII] or [CIII] doublet with 3 sets of nominal amplitudes, alone or grouped with another line, strong and weak emission and absorption lines (one element of two lines), 3-4 variants of which lines are observed and grouped; every element amplitude symbolic in [0,100] (absorption [0,0.9]), 2 sets of uncertainties; rules none, balmersingle, ratioRange, strongWeak, all
//@ assumes: real arithmetic; one observation; uncertainties of the amplitudes positive
#include "sym.h"
#include "RedshiftLibrary/line/linetags.h"
#include "RedshiftLibrary/common/exception.h"
#define private public
#define protected public
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/processflow/inputcontext.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/linemodel/elementlist.h"
#include "RedshiftLibrary/linemodel/rulesmanager.h"
#include "RedshiftLibrary/linemodel/spectrummodel.h"
#include "RedshiftLibrary/line/regulament.h"
#include "RedshiftLibrary/spectrum/LSFConstantWidth.h"
#include "RedshiftLibrary/../src/lib/line/catalog.cpp" // its templates are instantiated too early in it for clang to emit them all
#undef private
#undef protected
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
auto *keep = &CLineCatalogBase<CLine>::ConvertToGroupList;
typedef linetags T;
// nominal amplitudes are powers of two or small integers
struct L { std::string name; double pos; bool em, strong; std::string grp; double nom; };
static const char *rules[] = {"no", "balmersingle", "ratioRange", "strongWeak", "all"};
enum { NO, BALMER, RATIO, STRONG, ALL };
extern "C" void harness() {
  CProcessFlowContext &C = Context;
  C.m_ScopeStack->push_back("galaxy", ScopeType::SPECTRUMMODEL);
  C.m_ScopeStack->push_back("redshiftSolver", ScopeType::STAGE);
  C.m_ScopeStack->push_back("lineModelSolve", ScopeType::METHOD);
  const int scen = sym_int("scenario", 0, 4);
  const int se = sym_int("errors", 0, 1);
  const int nvar = scen == BALMER ? 3 : scen == ALL ? 2 : 4;
  const int var = sym_int("variant", 0, nvar - 1);
  C.LoadParameterStore(std::string("{\"galaxy\":{\"redshiftSolver\":{\"method\":\"lineModelSolve\",\"lineModelSolve\":{\"lineModel\":{\"velocityEmission\":\"60\",\"velocityAbsorption\":\"300\",\"lineWidthType\":\"combined\",\"lineRatioType\":\"rules\",\"rules\":\"") + rules[scen] + "\",\"improveBalmerFit\":true,\"lya\":{\"profile\":\"igm\"}}}}}}");
  std::vector<L> ln;
  double w0 = 1800, w1 = 6700;
  if (scen == BALMER || scen == NO || scen == ALL) {
    ln = {{T::halpha_em, 6564.61, true, true, "ha", 1}, {T::hbeta_em, 4862.72, true, true, "hb", 1}, {T::hgamma_em, 4341.58, true, false, "hg", 2}, {T::hdelta_em, 4102.81, true, false, "hd", 1}};
#ifdef THOROUGH
    if (scen == BALMER) {
      const std::tuple<const char *, double> more[] = {{T::h8_em, 3890.17}, {T::h9_em, 3836.48}, {T::h10_em, 3798.99}, {T::h11_em, 3771.71}};
      for (auto &[n, p] : more) ln.push_back({n, p, true, false, n, 1});
    }
#endif
    if (scen != ALL) ln.push_back({T::hbeta_abs, 4862.72, false, true, "hba", 1});
    if (var == 1) w1 = 6400; // H alpha is not observed
    if (var == 2) ln.push_back({"other", 4500, true, false, "hg", 1}); // H gamma is fitted with another line
  }
  if (scen == RATIO || scen == ALL) {
    const bool c = scen == RATIO && var == 3;
    ln.push_back({c ? T::cIII1907_em : T::oII3726_em, c ? 1907.7 : 3727.09, true, true, "a", var == 1 ? 2. : 1.});
    ln.push_back({c ? T::cIII1909_em : T::oII3729_em, c ? 1908.7 : 3729.88, true, true, "b", var == 1 ? 0.5 : 1.});
    if (scen == RATIO && var == 0) ln.push_back({"other", 4500, true, true, "a", 3});
    if (scen == RATIO && var == 2) { ln.push_back({"other", 4500, true, true, "a", 3}); w0 = 4000; } // only the other line of the group is observed
  }
  if (scen == STRONG) {
    ln = {{"s1", 4000, true, true, "a", 1}, {"s2", 4200, true, true, "b", 0.5}, {"w1", 4400, true, false, "c", 1}, {"w2", 4600, true, false, "d", 1}, {"w3", 4800, true, var == 1, "d", 2}, {"sa", 5000, false, true, "e", 1}, {"wa", 5200, false, false, "f", 1}};
    if (var == 2) w0 = 4100, w1 = 4700; // one strong line, one of the doublet and the absorption lines are not observed
    if (var == 3) w0 = 4300;            // no strong emission line
  }
  const int nl = ln.size();
  CLineMap cat;
  for (int k = 0; k < nl; k++)
    cat[k] = CLine(ln[k].name, ln[k].pos, ln[k].em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption, std::unique_ptr<CLineProfile>(new CLineProfileSYM(8)), ln[k].strong ? CLine::EForce::nForce_Strong : CLine::EForce::nForce_Weak, 0, false, ln[k].grp, ln[k].nom, "v", k, "s" + std::to_string(k));
  TFloat64List W;
  for (double w = 1800; w < 6700; w += 2) W.push_back(w);
  CSpectraGlobalIndex idx(1);
  TFloat64List F(W.size(), 1.);
  CTLambdaRangePtrVector lrs{std::make_shared<TLambdaRange>(w0, w1)};
  auto spcs = std::make_shared<std::vector<std::shared_ptr<const CSpectrum>>>();
  spcs->push_back(std::make_shared<CSpectrum>(CSpectrumSpectralAxis(W), CSpectrumFluxAxis(F)));
  auto elts = std::make_shared<CLMEltListVector>(lrs, idx, cat, ElementComposition::Default);
  idx.reset();
  for (auto &e : elts->getElementList()) {
    e->SetLSF(std::make_shared<CLSFGaussianConstantWidth>(1.));
    e->prepareSupport((*spcs)[0]->GetSpectralAxis(), 0., *lrs[0]);
  }
  elts->setGlobalOutsideLambdaRangeFromSpectra();
  auto &par = elts->getElementParam();
  const int ne = par.size();
  // where each line is, its amplitude and its uncertainty
  std::vector<int> E(nl), I(nl);
  std::vector<char> out(nl);
  std::vector<double> A(ne), S(ne), amp(nl), sd(nl);
  for (int k = 0; k < nl; k++) {
    std::tie(E[k], I[k]) = elts->findElementIndex(k);
    out[k] = ln[k].pos < w0 || ln[k].pos > w1;
  }
  for (int e = 0; e < ne; e++) {
    A[e] = sym_double(nm("A", e).c_str(), 0, par[e]->m_isEmission ? 100 : 0.9);
    S[e] = (e & 1) == se ? 0.5 : 8;
    elts->SetElementAmplitude(e, A[e], S[e]);
  }
  for (int k = 0; k < nl; k++) {
    amp[k] = ln[k].nom * A[E[k]];
    sd[k] = ln[k].nom * S[E[k]];
    sym_assert(std::isnan(par[E[k]]->m_FittedAmplitudes[I[k]]) == bool(out[k]), "a line that is not observed has no amplitude");
  }
  try {
    auto models = std::make_shared<CSpcModelVector>(idx);
    CRulesManager m(elts, models, spcs, lrs, nullptr, cat, idx);
    m.setRulesOption();
    m.applyRules(true);
  } catch (const AmzException &x) { sym_assert(false, x.what()); return; }
  idx.reset();
  // the limits, in the order in which the rules are applied
  auto where = [&](const char *s) { for (int k = 0; k < nl; k++) if (ln[k].name == s) return k; return -1; };
  auto alone = [&](int k) { int c = 0; for (int j = 0; j < nl; j++) c += E[j] == E[k]; return c == 1; };
  auto set = [&](int k, double v) { for (int j = 0; j < nl; j++) if (j != k && E[j] == E[k]) amp[j] = v / ln[k].nom * ln[j].nom; amp[k] = v; };
  auto lower = [&](int k, double lim) { if (amp[k] > lim) { set(k, lim); sym_cover("limited"); } else sym_cover("kept"); };
  if (scen == BALMER || scen == ALL) {
    struct { const char *a, *b; double c; } pairs[] = {{T::halpha_em, T::hbeta_em, 1.1 / 2.86}, {T::hbeta_em, T::hgamma_em, 0.47 * 1.1}, {T::hgamma_em, T::hdelta_em, 1.1}, {T::hdelta_em, T::h8_em, 1.1}, {T::h8_em, T::h9_em, 1.1}, {T::h9_em, T::h10_em, 1.1}, {T::h10_em, T::h11_em, 1.1}};
    for (auto &p : pairs) {
      const int a = where(p.a), b = where(p.b);
      if (a < 0 || b < 0) continue;
      if (!alone(a) || !alone(b)) { sym_cover("skipped"); continue; }
      if (out[a] || out[b]) { sym_cover("outside"); continue; }
      sym_cover("balmer");
      lower(b, p.c * amp[a]);
    }
  }
  auto ratio = [&](const char *x, const char *y, double R) {
    int a = where(x), b = where(y);
    if (a < 0 || b < 0 || out[a] || out[b]) return;
    if (amp[b] > amp[a]) std::swap(a, b);
    if (amp[a] <= R * amp[b]) return;
    sym_cover("ratio");
    // the doublet with the limiting ratio that is the closest to the two measurements
    const double w1 = 1 / (sd[a] * sd[a]), w2 = 1 / (sd[b] * sd[b] * R * R), v = (amp[a] * w1 + amp[b] * w2 * R) / (w1 + w2);
    set(a, v);
    set(b, v / R);
  };
  if (scen == RATIO || scen == ALL) ratio(T::oII3726_em, T::oII3729_em, 2.5);
  if (scen == STRONG || scen == ALL)
    for (int em = 1; em >= 0; em--) {
      double lim = INFINITY, lo = INFINITY;
      for (int k = 0; k < nl; k++)
        if (ln[k].strong && ln[k].em == em && !out[k] && amp[k] < lo) lo = amp[k], lim = amp[k] + sd[k];
      if (lo == INFINITY) { sym_cover("none"); continue; }
      for (int k = 0; k < nl; k++)
        if (!ln[k].strong && ln[k].em == em && !out[k]) { sym_cover("weak"); lower(k, lim); }
    }
  if (scen == RATIO || scen == ALL) ratio(T::cIII1907_em, T::cIII1909_em, 2.0);
  for (int k = 0; k < nl; k++) {
    const double f = par[E[k]]->m_FittedAmplitudes[I[k]], s = par[E[k]]->m_FittedAmplitudesStd[I[k]];
    if (out[k]) { sym_assert(bool(std::isnan(f) & std::isnan(s)), "a line that is not observed gets no amplitude from the rules"); continue; }
    SYM_NEAR(f, amp[k], 1e-9, "amplitude after the rules");
    sym_assert(s == sd[k], "uncertainty after the rules");
  }
}
