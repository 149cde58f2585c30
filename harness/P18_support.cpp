//@ src: common/flag.cpp common/mutex.cpp line/airvacuum.cpp line/line.cpp line/lineprofileSYM.cpp linemodel/element.cpp linemodel/elementparam.cpp log/handler.cpp log/log.cpp spectrum/LSF.cpp spectrum/axis.cpp spectrum/spectralaxis.cpp
//@ quick: DNL=2 DOL=1 deadline=90
//@ thorough: DNL=3 DOL=1 deadline=800
//@ cover: outside inside merged apart touching offset velocity lsf
//@ bounds: one element of 2 or NL lines (quick 2, thorough 3) on a concrete grid of 10 samples, irregular step; continuous redshift, continuous velocity offset of one line, wavelength range equal to the spectrum or narrower at either end; three line widths, two support sizes; instrumental, velocity driven and combined widths
//@ assumes: real arithmetic
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#define private public
#define protected public
#include "RedshiftLibrary/linemodel/element.h"
#include "RedshiftLibrary/spectrum/LSFConstantWidth.h"
#include "RedshiftLibrary/spectrum/spectralaxis.h"
#undef private
#undef protected
#include <string>
using namespace NSEpic;
static CLine mk(int id, double pos, double nsig, double off, double nom) {
  return CLine("l" + std::to_string(id), pos, CLine::EType::nType_Emission, std::unique_ptr<CLineProfile>(new CLineProfileSYM(nsig)), CLine::EForce::nForce_Strong, off, false, "g", nom, "v", id, "s" + std::to_string(id));
}
extern "C" void harness() {
  const TFloat64List W = {5000, 5002, 5004, 5006, 5009, 5012, 5014, 5016, 5018, 5020};
  const int n = 10;
  const double c = 299792.458;
  const int nl = sym_int("nl", 2, NL);
  const int lay = sym_int("lay", 0, 3), lr = sym_int("lr", 0, 2), wt = sym_int("wt", 0, 2);
  const double z = sym_double("z", -0.003, 0.003);
  const double P[4][3] = {{5006, 5013, 5010}, {5008, 5009, 5017}, {5004, 5012, 5008}, {5009, 5002, 5016}};
  const double ns[4][3] = {{8, 8, 2}, {8, 2, 8}, {2, 8, 8}, {6, 6, 6}};
  const double off = lay == OL && wt == 0 && sym_bool("hasoff") ? sym_double("off", -200, 200) : 0.;
  const double eps = 1e-6;
  CLineVector ls;
  for (int k = 0; k < nl; k++) ls.push_back(mk(k, P[lay][k], ns[lay][k], k == 1 ? off : 0, 1));
  auto p = std::make_shared<TLineModelElementParam>(ls, 36., 999., wt == 0 ? "instrumentDriven" : wt == 1 ? "velocityDriven" : "combined");
  CLineModelElement e(p);
  e.SetLSF(std::make_shared<CLSFGaussianConstantWidth>(0.75));
  const TFloat64Range R(lr == 1 ? 5003. : 5000., lr == 2 ? 5015. : 5020.);
  const CSpectrumSpectralAxis ax(W);
  try { e.prepareSupport(ax, z, R); } catch (const AmzException &x) { sym_assert(false, x.what()); return; }
  if (off != 0) sym_cover("offset");
  int out = 0;
  for (int k = 0; k < nl; k++) {
    const double mu = P[lay][k] * (1 + z) * (1 + (k == 1 ? off : 0) / c);
    // twice the square of the half window, so that no root is needed: w = ns sigma
    const double v = wt == 0 ? 0 : 36. / c * mu, s2 = (wt == 1 ? 0 : 0.75 * 0.75) + v * v;
    const double h = ns[lay][k] / 2 * std::sqrt(s2), ws = mu - h, we = mu + h;
    const TInt32Range T = e.getTheoreticalSupportSubElt(k);
    const bool o = e.IsOutsideLambdaRangeLine(k);
    const double third = 0.33 * 2 * h, step = 3;
    const double RB = R.GetBegin(), RE = R.GetEnd();
    sym_assert(o | !((we + step <= RB) | (ws >= RE + eps)), "a line whose window misses the range by a sample is outside");
    sym_assert(!o | !((RE - ws > third + step + eps) & (we - RB > third + eps) & (RE - RB > third + step)), "a line with more than a third of its window in the range is inside");
    sym_assert(o | !((RE - ws + eps <= third) | (we + step + eps <= RB + third)), "a line with less than a third of its window in the range is outside");
    if (o) { out++; sym_cover("outside"); continue; }
    sym_cover("inside");
    sym_assert(T.GetBegin() >= 0 && T.GetEnd() < n && T.GetBegin() <= T.GetEnd(), "the support of a line inside the range is a range of samples");
    for (int i = 0; i < n; i++) {
      const bool in = i >= T.GetBegin() && i <= T.GetEnd(), rng = W[i] >= R.GetBegin() && W[i] <= R.GetEnd();
      if (!rng) sym_assert(!in, "support within the wavelength range");
      else {
        sym_assert(in | (W[i] <= ws + eps) | (W[i] >= we - eps), "every sample of the window belongs to the support");
        if (in) sym_assert((W[i] >= ws - eps) & (!i || W[i ? i - 1 : 0] <= we + eps), "no sample beyond the window in the support");
      }
    }
  }
  sym_assert(e.IsOutsideLambdaRange() == (out == nl), "an element is outside when all its lines are");
  if (wt == 1) sym_cover("velocity");
  if (wt == 0) sym_cover("lsf");
  // groups of lines sharing a sample
  int root[3] = {0, 1, 2};
  for (int it = 0; it < nl; it++)
    for (int a = 0; a < nl; a++)
      for (int b = 0; b < nl; b++) {
        if (a == b || e.IsOutsideLambdaRangeLine(a) || e.IsOutsideLambdaRangeLine(b)) continue;
        const TInt32Range A = e.getTheoreticalSupportSubElt(a), B = e.getTheoreticalSupportSubElt(b);
        if (A.GetBegin() <= B.GetEnd() && B.GetBegin() <= A.GetEnd()) {
          root[a] = root[b] = std::min(root[a], root[b]);
          if (A.GetEnd() == B.GetBegin()) sym_cover("touching");
        }
      }
  int size[3] = {0, 0, 0};
  for (int k = 0; k < nl; k++)
    if (!e.IsOutsideLambdaRangeLine(k)) size[root[k]]++;
  for (int g = 0; g < nl; g++) {
    if (size[g] > 1) sym_cover("merged");
    if (size[g] > 2) sym_cover("chain");
    if (size[g] == 1 && out < nl - 1) sym_cover("apart");
  }
  // each sample of a line belongs to one support, on which the lines of its group and no other are active
  for (int i = 0; i < n; i++) {
    int holder = -1, grp = -1, cnt = 0;
    for (int k = 0; k < nl; k++) {
      if (e.IsOutsideLambdaRangeLine(k)) continue;
      if (i >= e.getStartNoOverlap(k) && i <= e.getEndNoOverlap(k)) { cnt++; holder = k; }
      const TInt32Range T = e.getTheoreticalSupportSubElt(k);
      if (i >= T.GetBegin() && i <= T.GetEnd()) grp = root[k];
    }
    sym_assert(cnt == (grp >= 0 ? 1 : 0), "a sample under the lines is counted once");
    if (cnt != 1 || grp < 0) continue;
    sym_assert(root[holder] == grp, "the support is that of the group of the line");
    for (int k = 0; k < nl; k++)
      if (!e.IsOutsideLambdaRangeLine(k)) {
        sym_assert(e.isLineActiveOnSupport(holder, k) == (root[k] == grp), "the lines active on a support are those of its group");
        sym_assert(e.isLineActiveOnSupport(k, holder) == (root[k] == grp), "and see that support");
      }
  }
}
