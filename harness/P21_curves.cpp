//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp line/lineprofileSYM.cpp line/lineprofileSYMIGM.cpp log/handler.cpp log/log.cpp spectrum/LSF.cpp spectrum/LSFConstantResolution.cpp spectrum/LSFVariableWidth.cpp spectrum/LSF_NISPSIM_2016.cpp spectrum/LSF_NISPVSSPSF_201707.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/fluxcorrectioncalzetti.cpp spectrum/fluxcorrectionmeiksin.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinLinear.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp spectrum/template/template.cpp
//@ quick: DN=4 deadline=150
//@ thorough: DN=6 deadline=700
//@ cover: dust dustout irregular zbin wave beyond below convolved outconv narrow reset symigm symigmflux lya listed fixed off vector
//@ bounds: dust tables of 2-4 arbitrary values and arbitrary positions; IGM curves of N arbitrary values (quick 4, thorough 6) in two redshift bins, convolved with concrete spread functions over arbitrary ranges; arbitrary wavelengths and redshifts
//@ assumes: real arithmetic; exp is uninterpreted beyond its range, monotonicity and congruence (10^x = exp(x ln 10))
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#define private public
#define protected public
#include "RedshiftLibrary/line/lineprofileSYMIGM.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h"
#include "RedshiftLibrary/spectrum/template/template.h"
#undef private
#undef protected
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a, int b = -1) { return std::string(p) + std::to_string(a) + (b >= 0 ? "_" + std::to_string(b) : ""); }
template <class F> static bool throws(F f) {
  try { f(); } catch (const AmzException &) { return true; }
  return false;
}
static const double L0 = 1215.85, ST = 0.05;
static double cur[2][2][8];
static std::vector<MeiksinCorrection> curves(bool two) {
  std::vector<MeiksinCorrection> rc(2);
  for (int z = 0; z < 2; z++) {
    for (int k = 0; k < N; k++) rc[z].lbda.push_back(L0 + ST * k);
    rc[z].fluxcorr.assign(2, TFloat64List(N));
    for (int i = 0; i < 2; i++)
      for (int k = 0; k < N; k++) rc[z].fluxcorr[i][k] = cur[z][i][k] = (two ? i == 1 : z == 1 && i == 1) ? sym_double(nm("c", z, k).c_str(), 0, 1) : 0.9 - 0.3 * i - 0.02 * k - 0.1 * z;
  }
  return rc;
}
static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> conv(bool two) {
  auto rc = curves(two);
  auto m = std::make_shared<CSpectrumFluxCorrectionMeiksin>(rc, TFloat64List{2, 3, 4});
  m->m_corrections = rc; // as after a convolution
  m->m_fineLambdaSize = N;
  m->m_convolved = true;
  return m;
}
static int ngp(double l) { int i = (int)std::round((l - L0) / ST); return i < 0 ? 0 : i > N - 1 ? N - 1 : i; }
extern "C" void harness() {
  const int mode = sym_int("mode", 0, 7);
  if (mode == 0) { // dust
    const int n = sym_int("n", 2, 4), ne = sym_int("ne", 1, 3);
    TFloat64List lb, c;
    const int at = n > 2 ? sym_int("irregular", 0, n - 1) : 0;
    const double off = at >= 2 ? sym_double("off", -40, 40) : 0;
    for (int k = 0; k < n; k++) { lb.push_back(1000 + 100 * k + (k == at ? off : 0)); c.push_back(sym_double(nm("c", k).c_str(), 0, 10)); }
    sym_assume(off == 0 || off > 1e-3 || off < -1e-3);
    std::unique_ptr<CalzettiCorrection> t;
    const bool r = throws([&] { t.reset(new CalzettiCorrection(lb, c)); });
    sym_assert(r == (off != 0), "irregular sampling refused");
    if (r) { sym_cover("irregular"); return; }
    CSpectrumFluxCorrectionCalzetti d(*t, 0.1, 0.2, ne);
    sym_assert(d.GetNPrecomputedEbmvCoeffs() == ne && d.getLambdaMin() == 1000 && d.getLambdaMax() == 1000 + 100 * (n - 1), "table kept");
    const int k = sym_int("k", 0, 3);
    const double l = sym_double("lambda", 800, 1600);
    double v = -1;
    const bool e = throws([&] { v = d.GetDustCoeff(k, l); });
    sym_assert(e == (k >= ne), "index of a missing coefficient refused");
    if (e) return;
    const double eb = 0.1 + 0.2 * k;
    SYM_NEAR(d.GetEbmvValue(k), eb, 1e-12, "colour excess of the index");
    const double x = sym_double("x", -0.095, 0.095);
    sym_assert(d.GetEbmvIndex(eb + x) == k, "index of the nearest colour excess");
    if (l < 1000 || l >= 1000 + 100 * (n - 1)) { sym_assert(v == 1, "no extinction outside the table"); sym_cover("dustout"); return; }
    const int i = (int)std::round((l - 1000) / 100);
    SYM_NEAR(v, std::pow(10., -0.4 * c[i] * eb), 1e-7, "extinction of the nearest wavelength");
    sym_assert(v > 0 && v <= 1, "extinction between 0 and 1");
    sym_cover("dust");
  } else if (mode == 1) { // lookups
    auto m = conv(false);
    const double z = sym_double("z", 0, 8);
    const int zi = m->getRedshiftIndex(z), rz = z < 2 ? -1 : z < 3 ? 0 : 1;
    sym_assert(zi == (rz < 0 ? undefIdx : rz), "redshift bin, the last one beyond the table");
    sym_cover(z > 4 ? "beyond" : z < 2 ? "below" : "zbin");
    const double l = sym_double("lambda", 1215.5, 1216.5);
    sym_assert(m->getWaveIndex(l) == ngp(l), "nearest wavelength");
    const int i = sym_int("i", -1, 1);
    double v = -1;
    const bool r = throws([&] { v = m->getCorrection(z, i, l); });
    sym_assert(r == (l <= 1216 && i == -1), "undefined curve refused below Lyman alpha");
    double dv = 0, dd = 0;
    const bool r2 = throws([&] { std::tie(dv, dd) = m->getCorrectionAndDerivLbdaRest(z, i, l); });
    sym_assert(r2 == r, "derivative refused with the value");
    if (r) return;
    const bool none = l > 1216 || z < 2;
    SYM_NEAR(v, none ? 1. : cur[rz][i][ngp(l)], 1e-12, "transmission of the bin, curve and nearest wavelength");
    SYM_NEAR(dv, v, 1e-12, "same value with its derivative");
    if (none) { sym_assert(dd == 0, "no derivative"); if (l > 1216) sym_cover("lya"); }
    else {
      const int j = ngp(l), a = j ? j - 1 : 0, b = j < N - 1 ? j + 1 : j;
      SYM_NEAR(dd * (b - a) * ST, cur[rz][i][b] - cur[rz][i][a], 1e-9, "centred difference of the curve");
    }
    sym_cover("wave");
  } else if (mode == 2) { // samples of a range
    auto m = conv(false);
    const double a = sym_double("a", 1215.7, 1216.3), b = sym_double("b", 1215.7, 1216.3);
    sym_assume(a <= b);
    const double z = sym_bool("high") ? 3.5 : 1.5;
    std::pair<TFloat64List, TFloat64List> p;
    const bool r = throws([&] { p = m->getWaveAndCorrectionVector(TFloat64Range(a, b), z, 1); });
    int first = -1, cnt = 0;
    const double e = 1e-6;
    for (int k = 0; k < N; k++) {
      const double w = L0 + ST * k;
      sym_assume(w < a - e || w > a + e);
      sym_assume(w < b - e || w > b + e);
      if (w >= a && w <= b) { if (first < 0) first = k; cnt++; }
    }
    const bool in = b >= L0 && a <= L0 + ST * (N - 1); // a range outside the table gives the nearest sample
    if (in) sym_assert(r == (cnt == 0), "refused without any sample inside");
    if (r || !in) { sym_cover("narrow"); return; }
    sym_assert((int)p.first.size() == cnt && p.second.size() == p.first.size(), "samples of the range");
    for (int k = 0; k < cnt; k++) {
      SYM_NEAR(p.first[k], L0 + ST * (first + k), 1e-9, "wavelengths of the range");
      SYM_NEAR(p.second[k], z < 2 ? 1. : cur[1][1][first + k], 1e-12, "transmission of the samples");
    }
    sym_cover("vector");
  } else if (mode == 3 || mode == 4) { // convolution
    auto rc = curves(true);
    CSpectrumFluxCorrectionMeiksin m(rc, TFloat64List{2, 3, 4});
    sym_assert(!m.isConvolved(), "not convolved");
    const int R = sym_int("width", 0, 2);
    const double wd = R == 0 ? 0.01 : R == 1 ? 0.05 : 0.2; // observed sigma
    std::shared_ptr<const CLSF> lsf = CLSFFactory::GetInstance().Create("gaussianConstantWidth", std::make_shared<TLSFGaussianConstantWidthArgs>(wd));
    // convolution range, rest frame of the middle of the first bin
    double c0 = 3000, c1 = 9000;
    if (mode == 4) { c0 = sym_double("c0", 3600, 4300); c1 = sym_double("c1", 4300, 5000); }
    if (sym_bool("again")) {
      m.convolveByLSF(CLSFFactory::GetInstance().Create("gaussianConstantWidth", std::make_shared<TLSFGaussianConstantWidthArgs>(0.4)), TFloat64Range(3000, 9000));
      m.resetConvolution();
      sym_assert(!m.isConvolved(), "not convolved after a reset");
      sym_cover("reset");
    }
    m.convolveByLSF(lsf, TFloat64Range(c0, c1));
    sym_assert(m.isConvolved() && m.m_fineLambdaSize == N && (int)m.m_corrections.size() == 2, "convolved");
    for (int z = 0; z < 2; z++) {
      sym_assert(m.m_corrections[z].fluxcorr.size() == 2, "one curve each");
      const double zc = 2.5 + z;
      for (int k = 0; k < N; k++) {
        const double l = L0 + ST * k;
        bool in = true;
        if (mode == 4) {
          const double e = 1e-5;
          const double a = c0 / (3 + z + 1), b = c1 / (2 + z + 1);
          sym_assume(a < l - e || a > l + e);
          sym_assume(b < l - e || b > l + e);
          in = l >= a && l <= b;
        }
        for (int i = 0; i < 2; i++) {
          const double v = m.m_corrections[z].fluxcorr[i].at(k);
          if (!in) { sym_assert(v == 0, "not computed outside the convolution range"); sym_cover("outconv"); continue; }
          double num = 0, den = 0, lo = 2, hi = -1;
          const double half = 4 * wd / (1 + zc);
          for (int j = 0; j < N; j++) {
            const double d = ST * (j - k);
            if (std::fabs(d) > half + 1e-9) continue;
            const double g = std::exp(-0.5 * d * d * (1 + zc) * (1 + zc) / wd / wd);
            num += g * rc[z].fluxcorr[i][j];
            den += g;
          }
          SYM_NEAR(v * den, num, 1e-6, "curve averaged with the spread function of the middle of the bin");
          sym_cover("convolved");
        }
      }
    }
  } else if (mode == 5 || mode == 6) { // Lyman alpha profile
    auto m = conv(false);
    CLineProfileSYMIGM f(m);
    const double z = mode == 5 ? (sym_bool("high") ? 3.5 : 1.5) : 3.5;
    f.SetSymIgmParams(TSymIgmParams(1, z));
    sym_assert(f.isSymIgm() && f.GetIgmIdx() == 1 && f.getIGMIdxCount() == 2 && f.GetSymIgmParams().m_redshift == z, "parameters kept");
    if (mode == 5) {
      const double sg = 0.5, x0 = 1215.9 * (1 + z), l = sym_double("l", 1215.6, 1216.2), x = l * (1 + z), u = (x - x0) / sg;
      const double g = std::exp(-0.5 * u * u);
      const int j = ngp(l), a = j ? j - 1 : 0, b = j < N - 1 ? j + 1 : j;
      const bool none = l > 1216 || z < 2;
      sym_assume(l < 1215.9999 || l > 1216.0001);
      { const double fr = (l - L0) / ST - std::floor((l - L0) / ST); sym_assume(fr < 0.499 || fr > 0.501); }
      const double c = none ? 1. : cur[1][1][j], d = none ? 0. : (cur[1][1][b] - cur[1][1][a]) / (b - a) / ST;
      SYM_NEAR(f.GetLineProfileVal(x, x0, sg), g * c, 1e-9, "Gaussian times the transmission");
      SYM_NEAR(f.GetLineProfileDerivSigma(x, x0, sg), u * u / sg * g * c, 1e-7, "derivative with the width");
      SYM_NEAR(f.GetLineProfileDerivX0(x, x0, sg), u / sg * g * c - g * d * l / x0, 1e-6, "derivative with the centre, moving with the redshift");
      SYM_NEAR(f.Clone()->GetLineProfileVal(x, x0, sg), g * c, 1e-9, "clone");
      sym_cover("symigm");
    } else {
      const double lc = sym_double("centre", 1215.86, 1217.5), x0 = lc * (1 + z), sg = 0.05 * (1 + z), A = 3;
      double fl = -1;
      const bool r = throws([&] { fl = f.GetLineFlux(x0, sg, A); });
      const double a = lc - 0.2, b = lc + 0.2;
      if (a > 1216) { SYM_NEAR(fl, A * sg * std::sqrt(2 * M_PI), 1e-8, "flux of the Gaussian above Lyman alpha"); sym_cover("lya"); return; }
      if (r || a > L0 + ST * (N - 1)) return;
      // trapezes over the samples of the curve inside the support
      double once = 0, twice = 0, pv = 0, pc = 0;
      int n = 0;
      for (int k = 0; k < N; k++) {
        const double l = L0 + ST * k, e = 1e-6;
        sym_assume(a < l - e || a > l + e);
        sym_assume(b < l - e || b > l + e);
        if (l < a || l > b) continue;
        const double u = (l * (1 + z) - x0) / sg, c = cur[1][1][k], v = std::exp(-0.5 * u * u) * c;
        if (n) { once += (v + pv) * ST / 2 * (1 + z); twice += (v * c + pv * pc) * ST / 2; }
        pv = v; pc = c; n++;
      }
      sym_assert(sym_near(fl, A * twice, 1e-6) || sym_near(fl, A * once, 1e-6), "flux of the line through the IGM (either formula)");
      SYM_NEAR(fl, A * once, 1e-6, "flux of the line is the integral of its profile over observed wavelengths");
      sym_cover("symigmflux");
    }
  } else { // lists of indices
    CTemplate t("t", "c", CSpectrumSpectralAxis(TFloat64List{1, 2, 3}), CSpectrumFluxAxis(TFloat64List{1, 2, 3}));
    const bool hd = sym_bool("hasdust"), hm = sym_bool("hasigm"), d = sym_bool("dust"), x = sym_bool("igm");
    if (hd) t.m_ismCorrectionCalzetti = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection({1000, 1100}, {3, 2}), 0., 0.25, 3);
    if (hm) t.m_igmCorrectionMeiksin = conv(false);
    const int fd = sym_int("fitdust", -1, 2), fx = sym_int("fitigm", -1, 1);
    TInt32List lm, le;
    const bool r = throws([&] { t.GetIsmIgmIdxList(x, d, lm, le, fd < 0 ? undefIdx : fd, fx < 0 ? undefIdx : fx); });
    sym_assert(r == ((d && !hd) || (x && !hm)), "refused without the curves");
    if (r) return;
    if (!d) { sym_assert(le.size() == 1 && le[0] == -1, "no dust index when off"); sym_cover("off"); }
    else if (fd >= 0) { sym_assert(le.size() == 1 && le[0] == fd, "the fixed dust index"); sym_cover("fixed"); }
    else { sym_assert(le.size() == 3 && le[0] == 0 && le[1] == 1 && le[2] == 2, "every dust index"); sym_cover("listed"); }
    if (!x) sym_assert(lm.size() == 1 && lm[0] == -1, "no IGM index when off");
    else if (fx >= 0) sym_assert(lm.size() == 1 && lm[0] == fx, "the fixed IGM index");
    else sym_assert(lm.size() == 2 && lm[0] == 0 && lm[1] == 1, "every IGM index");
  }
}
