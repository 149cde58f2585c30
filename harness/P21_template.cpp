//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/fluxcorrectioncalzetti.cpp spectrum/fluxcorrectionmeiksin.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinFineGrid.cpp spectrum/rebin/rebinLinear.cpp spectrum/rebin/rebinNgp.cpp spectrum/rebin/rebinSpline.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp spectrum/template/template.cpp
//@ quick: DL=2 deadline=150
//@ thorough: DL=3 deadline=700
//@ cover: init range dust igm amplitude disable copy move masked maskedout setflux refused noigm dustoff igmoff type
//@ bounds: templates of 4 samples of arbitrary flux and one arbitrary wavelength, two arbitrary IGM curves in two redshift bins, two dust indices; every history of up to L operations (quick 2, thorough 3) after the first initialisation
//@ assumes: real arithmetic
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#define private public
#define protected public
#include "RedshiftLibrary/spectrum/template/template.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h"
#undef private
#undef protected
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a, int b = -1) { return std::string(p) + std::to_string(a) + (b >= 0 ? "_" + std::to_string(b) : ""); }
template <class F> static bool throws(F f) {
  try { f(); } catch (const AmzException &) { return true; }
  return false;
}
static const double L0 = 1215.9;
struct Model {
  TFloat64List w, raw;
  bool on = false;
  int a = 0, b = 0, dust = -1, igm = -1, zi = -1;
};
static std::shared_ptr<CSpectrumFluxCorrectionCalzetti> cal;
static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> mei;
static double cur[2][2][5];
static double dustc(const Model &m, int k) {
  if (!m.on || m.dust < 0 || k < m.a || k > m.b) return 1;
  if (m.w[k] < 1000 || m.w[k] >= 1300) return 1;
  int i = (int)std::round((m.w[k] - 1000) / 100);
  const double c[4] = {3, 2, 1, 0.5};
  return std::pow(10., -0.4 * c[i] * 0.25 * m.dust);
}
static double igmc(const Model &m, int k) {
  if (!m.on || m.igm < 0 || k < m.a || k > m.b || m.w[k] > 1216) return 1;
  if (m.w[k] < L0) return cur[m.zi][m.igm][0];
  int i = (int)std::round((m.w[k] - L0) / 0.05);
  return cur[m.zi][m.igm][i > 4 ? 4 : i];
}
static void check(const CTemplate &t, const Model &m, const char *msg) {
  sym_assert(t.GetSampleCount() == (int)m.w.size(), "number of samples");
  sym_assert(t.CheckIsmIgmEnabled() == m.on, "enabled after initialisation only");
  for (int k = 0; k < (int)m.w.size(); k++)
    SYM_NEAR(t.GetFluxAxis()[k], m.raw[k] * dustc(m, k) * igmc(m, k), 1e-9, msg);
  if (m.on) {
    sym_assert(t.GetIsmCoeff() == m.dust && t.GetIgmCoeff() == m.igm, "applied indices");
    auto r = t.GetIsmIgmRangeIndex();
    sym_assert(r.first == m.a && r.second == m.b, "range of application");
    int e = -1;
    for (int k = m.a; k <= m.b; k++) if (m.w[k] <= 1216) e = k;
    sym_assert(t.GetIgmEndIndex() == e, "last sample subject to the IGM");
    for (int k = m.a; k <= m.b; k++) {
      SYM_NEAR(t.GetcomputedDustCoeffs()[k], dustc(m, k), 1e-9, "dust coefficients");
      SYM_NEAR(t.GetcomputedMeiksinCoeffs()[k], igmc(m, k), 1e-9, "IGM coefficients");
    }
  }
}
extern "C" void harness() {
  cal = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection({1000, 1100, 1200, 1300}, {3, 2, 1, 0.5}), 0., 0.25, 2);
  std::vector<MeiksinCorrection> rc(2);
  for (int z = 0; z < 2; z++) {
    for (int k = 0; k < 5; k++) rc[z].lbda.push_back(L0 + 0.05 * k);
    rc[z].fluxcorr.assign(2, TFloat64List(5));
    for (int i = 0; i < 2; i++)
      for (int k = 0; k < 5; k++) rc[z].fluxcorr[i][k] = cur[z][i][k] = z == 0 && i == 0 ? sym_double(nm("c", z, k).c_str(), 0, 1) : 0.9 - 0.3 * i - 0.02 * k - 0.1 * z;
  }
  mei = std::make_shared<CSpectrumFluxCorrectionMeiksin>(rc, TFloat64List{2, 3, 4});
  mei->m_corrections = rc; // as after a convolution
  mei->m_fineLambdaSize = 5;
  Model m;
  const int wk = sym_int("wk", 0, 2);
  m.w = {1100, 1200, 1215.93, 1250};
  if (wk == 0) m.w[0] = sym_double("w0", 990, 1150);
  if (wk == 1) m.w[2] = sym_double("w2", 1215.8, 1216.2);
  if (wk == 2) m.w[3] = sym_double("w3", 1220, 1320);
  for (int k = 0; k < 4; k++) m.raw.push_back(sym_double(nm("f", k).c_str(), -50, 50));
  CTemplate t("t", "galaxy", CSpectrumSpectralAxis(m.w), CSpectrumFluxAxis(m.raw));
  sym_assert(throws([&] { t.ApplyDustCoeff(0); }) && throws([&] { t.ApplyMeiksinCoeff(0); }) && throws([&] { t.GetIsmCoeff(); }), "refused before initialisation");
  sym_assert(throws([&] { t.InitIsmIgmConfig(2.5); }), "refused without any curve");
  for (int step = 0; step <= L; step++) {
    const int op = step ? sym_int(nm("op", step).c_str(), 0, 10) : sym_int("op0", 0, 1);
    const int n = m.w.size();
    if (op <= 1) {
      const int z = L > 2 ? sym_int(nm("z", step).c_str(), 0, 1) : step & 1;
      int a = 0, b = n - 1;
      if (op == 1) { a = sym_int(nm("a", step).c_str(), 0, n - 1); b = sym_int(nm("b", step).c_str(), a, n - 1); }
      if (op == 0) t.InitIsmIgmConfig(2.5 + z, cal, mei);
      else { t.InitIsmIgmConfig(a, b, 2.5 + z, cal, mei); sym_cover("range"); }
      m.on = true; m.a = a; m.b = b; m.dust = m.igm = -1; m.zi = z;
      sym_cover("init");
    } else if (op == 2) {
      const int d = sym_int(nm("d", step).c_str(), -1, 1);
      const bool r = throws([&] { t.ApplyDustCoeff(d); });
      sym_assert(r == !m.on, "dust refused when not initialised");
      if (m.on) { m.dust = d; sym_cover(d < 0 ? "dustoff" : "dust"); } else sym_cover("refused");
    } else if (op == 3) {
      const int d = sym_int(nm("d", step).c_str(), -1, 1);
      bool ok = false;
      const bool r = throws([&] { ok = t.ApplyMeiksinCoeff(d); });
      sym_assert(r == !m.on, "IGM refused when not initialised");
      if (m.on) {
        bool any = false;
        for (int k = m.a; k <= m.b; k++) any = any || m.w[k] <= 1216;
        sym_assert(ok == any, "applied when some sample of the range is subject to the IGM");
        m.igm = d;
        sym_cover(!any ? "noigm" : d < 0 ? "igmoff" : "igm");
      }
    } else if (op == 4) {
      const double s = sym_int(nm("amp", step).c_str(), 0, 1) ? -2 : 0.5;
      t.ApplyAmplitude(s);
      for (double &x : m.raw) x *= s;
      sym_cover("amplitude");
    } else if (op == 5) {
      t.DisableIsmIgm();
      m.on = false;
      sym_cover("disable");
    } else if (op == 6) {
      CTemplate c(t), d("other", "x", CSpectrumSpectralAxis(TFloat64List{1100, 1210}), CSpectrumFluxAxis(TFloat64List{1, 2}));
      d.InitIsmIgmConfig(3.5 - m.zi, cal, mei); // overwritten
      d.ApplyDustCoeff(1);
      d.ApplyMeiksinCoeff(1);
      check(c, m, "copy");
      d = c;
      t.ApplyAmplitude(3); // the copies are independent
      t = CTemplate("o", "x", CSpectrumSpectralAxis(TFloat64List{1, 2}), CSpectrumFluxAxis(TFloat64List{1, 2}));
      t = std::move(d);
      sym_cover("copy");
    } else if (op == 7) {
      CTemplate c(std::move(t)), d("other", "x", CSpectrumSpectralAxis(TFloat64List{1100, 1210}), CSpectrumFluxAxis(TFloat64List{1, 2}));
      d.InitIsmIgmConfig(3.5 - m.zi, cal, mei); // overwritten
      d.ApplyDustCoeff(1);
      d.ApplyMeiksinCoeff(1);
      d = std::move(c);
      t = CTemplate("o", "x", CSpectrumSpectralAxis(TFloat64List{1, 2}), CSpectrumFluxAxis(TFloat64List{1, 2}));
      t = d;
      sym_cover("move");
    } else if (op == 8) {
      const int mk = sym_int(nm("mask", step).c_str(), 1, (1 << n) - 1);
      TFloat64List mask(n);
      Model q = m;
      q.w.clear(); q.raw.clear();
      int a = -1, b = -1;
      for (int k = 0; k < n; k++) {
        mask[k] = mk >> k & 1;
        if (!mask[k]) continue;
        if (m.on && k >= m.a && k <= m.b) { if (a < 0) a = q.w.size(); b = q.w.size(); }
        q.w.push_back(m.w[k]);
        q.raw.push_back(m.raw[k]);
      }
      CTemplate c(t, mask);
      if (m.on && a < 0) { q.on = false; sym_cover("maskedout"); }
      q.a = a; q.b = b;
      m = q;
      t = c;
      sym_cover("masked");
    } else if (op == 9) {
      for (int k = 0; k < n; k++) m.raw[k] = k + 1;
      t.SetFluxAxis(CSpectrumFluxAxis(m.raw));
      m.on = false;
      sym_cover("setflux");
    } else {
      const CTemplate &c = t;
      sym_assert(throws([&] { c.SetType(CSpectrum::EType::nType_noContinuum); }) == m.on, "component of a constant corrected template cannot change");
      c.SetType(CSpectrum::EType::nType_raw);
      if (!m.on) c.SetType(CSpectrum::EType::nType_raw);
      sym_cover("type");
    }
    check(t, m, "flux is the uncorrected flux times the coefficients of the current indices");
  }
}
