//@ src: common/flag.cpp common/mutex.cpp line/airvacuum.cpp line/lineprofileASYM.cpp line/lineprofileASYMFIT.cpp line/lineprofileLOR.cpp line/lineprofileSYM.cpp log/handler.cpp log/log.cpp spectrum/LSF.cpp spectrum/LSFConstantResolution.cpp spectrum/LSFVariableWidth.cpp spectrum/LSF_NISPSIM_2016.cpp spectrum/LSF_NISPVSSPSF_201707.cpp spectrum/axis.cpp spectrum/spectralaxis.cpp
//@ quick: deadline=120
//@ thorough: deadline=600
//@ cover: sym lor asym none mean mode fit invalid convert lsfconst lsfres lsfnisp lsfpsf lsfvar norm refused
//@ bounds: arbitrary position, centre, width, skewness and shift for each profile; LSF tables of up to 3 arbitrary widths at arbitrary increasing wavelengths; kernels of up to 3 arbitrary positions
//@ assumes: real arithmetic; exp and erf are uninterpreted beyond their range, monotonicity and congruence
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/line/lineprofileASYM.h"
#include "RedshiftLibrary/line/lineprofileASYMFIT.h"
#include "RedshiftLibrary/line/lineprofileLOR.h"
#include "RedshiftLibrary/line/lineprofileSYM.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include <string>
using namespace NSEpic;
template <class F> static bool throws(F f) {
  try { f(); } catch (const AmzException &) { return true; }
  return false;
}
struct TArgs : TLSFArguments {};
static void asymm() {
  const char *cm[3] = {"none", "mean", "mode"};
  const int m = sym_int("centring", 0, 2), kind = sym_int("kind", 0, 3);
  const double sc = sym_double("sigmacoeff", 0.5, 3), al = m == 2 ? (const double[]){0.5, 2, 4.5}[sym_int("skew", 0, 2)] : sym_double("skew", -5, 5);
  const double de = m == 0 ? 0 : sym_double("shift", -3, 3);
  const TAsymParams p{sc, al, de};
  CLineProfile_ptr f;
  if (kind == 0) f.reset(new CLineProfileASYM(8, p, cm[m]));
  else if (kind == 1) {
    f.reset(new CLineProfileASYMFIT(8, ASYMF_DEFAULT_PARAMS, cm[m]));
    f->SetAsymParams(p);
    sym_assert(f->isAsymFit() && !f->isAsymFixed() && f->isAsym(), "fitted profile");
    sym_cover("fit");
  } else { // converted back and forth
    CLineProfileASYM a(8, p, cm[m]);
    f = a.cloneToASYMFIT();
    sym_assert(f->isAsymFit() && f->GetName() == ASYMFIT, "conversion to a fitted profile");
    if (kind == 3) {
      f = static_cast<CLineProfileASYMFIT &>(*f).cloneToASYM()->Clone();
      sym_assert(!f->isAsymFit() && f->isAsymFixed() && f->GetName() == ASYM, "conversion to a fixed profile");
    }
    sym_cover("convert");
  }
  TAsymParams q = f->GetAsymParams();
  SYM_NEAR(q.sigma, sc, 1e-12, "width coefficient kept");
  SYM_NEAR(q.alpha, al, 1e-12, "skewness kept");
  SYM_NEAR(q.delta, de, 1e-12, "shift kept");
  SYM_NEAR(f->GetDelta(), de, 1e-12, "shift kept");
  const double t = sym_double("t", -6, 6), sg = sym_double("sigma", 0.5, 20), x0 = 4000, x = x0 + t;
  const double s = sg * sc;
  const double dl = al / std::sqrt(1 + al * al), muz = dl * std::sqrt(2 / M_PI);
  double m0 = 0;
  if (m == 1) m0 = muz;
  if (m == 2) {
    double g1 = (4 - M_PI) / 2 * muz * muz * muz / std::pow(1 - muz * muz, 1.5);
    m0 = muz - g1 * std::sqrt(1 - muz * muz) / 2 - 0.5 * std::exp(-2 * M_PI / al);
  }
  const double u = (t + s * m0 + de) / s;
  const double g = std::exp(-0.5 * u * u), e = 1 + std::erf(al / std::sqrt(2.0) * u), h = std::exp(-0.5 * al * al * u * u);
  const double val = f->GetLineProfileVal(x, x0, sg);
  SYM_NEAR(val, g * e, 1e-9, "skewed Gaussian");
  sym_assert(val >= 0 && val <= 2, "profile between 0 and 2");
  SYM_NEAR(f->GetLineFlux(x0, sg, 3), 3 * s * std::sqrt(2 * M_PI), 1e-8, "area of the skewed Gaussian");
  // d/du [exp(-u^2/2)(1+erf(a u/sqrt2))] = -u g e + a sqrt(2/pi) g h
  const double du = -u * g * e + al * std::sqrt(2 / M_PI) * g * h;
  SYM_NEAR(f->GetLineProfileDerivX0(x, x0, sg), -du / s, 1e-7, "derivative with the centre");
  SYM_NEAR(f->GetLineProfileDerivSigma(x, x0, sg), -sc * (u - m0) / s * du, 1e-7, "derivative with the width");
  SYM_NEAR(f->GetNSigmaSupport(), 8 * sc * (m ? 2.5 : 1), 1e-9, "support");
  sym_cover("asym");
  sym_cover(cm[m]);
}
extern "C" void harness() {
  const int mode = sym_int("mode", 0, 9);
  if (mode == 0) {
    CLineProfileSYM f(8);
    const double t = sym_double("t", -50, 50), sg = sym_double("sigma", 0.5, 20), x0 = sym_double("x0", 1000, 9000), x = x0 + t;
    const double val = f.GetLineProfileVal(x, x0, sg), ref = std::exp(-0.5 * (t / sg) * (t / sg));
    SYM_NEAR(val, ref, 1e-9, "Gaussian");
    SYM_NEAR(f.GetLineProfileVal(x0 - t, x0, sg), ref, 1e-9, "symmetric");
    SYM_NEAR(f.GetLineProfileVal(x0, x0, sg), 1, 1e-9, "peak of one");
    sym_assert(val >= 0 && val <= 1, "profile between 0 and 1");
    SYM_NEAR(f.GetLineFlux(x0, sg, -2), -2 * sg * std::sqrt(2 * M_PI), 1e-8, "area of the Gaussian");
    SYM_NEAR(f.GetLineProfileDerivX0(x, x0, sg), t / (sg * sg) * ref, 1e-8, "derivative with the centre");
    SYM_NEAR(f.GetLineProfileDerivSigma(x, x0, sg), t * t / (sg * sg * sg) * ref, 1e-8, "derivative with the width");
    SYM_NEAR(f.Clone()->GetLineProfileVal(x, x0, sg), ref, 1e-9, "clone");
    sym_assert(f.GetNSigmaSupport() == 8 && f.GetName() == SYM, "support");
    sym_cover("sym");
  } else if (mode == 1) {
    CLineProfileLOR f(8);
    const double t = sym_double("t", -50, 50), sg = sym_double("sigma", 0.5, 20), x0 = sym_double("x0", 1000, 9000), x = x0 + t;
    const double val = f.GetLineProfileVal(x, x0, sg);
    SYM_NEAR(val * (sg * sg + t * t), sg * sg, 1e-6, "Lorentzian");
    SYM_NEAR(f.GetLineFlux(x0, sg, 3), 3 * M_PI * sg, 1e-8, "area of the Lorentzian");
    sym_assert(throws([&] { f.GetLineProfileDerivX0(x, x0, sg); }) && throws([&] { f.GetLineProfileDerivSigma(x, x0, sg); }), "no derivative");
    sym_assert(f.GetNSigmaSupport() == 16 && f.GetName() == LOR, "support");
    sym_cover("lor");
  } else if (mode == 2) asymm();
  else if (mode == 3) { // undefined parameters
    const int k = sym_int("which", 0, 3);
    TAsymParams p{k == 0 ? NAN : 2, k == 1 ? NAN : 2, k == 2 ? NAN : 0};
    CLineProfileASYM f(8, p, "mean");
    bool r = throws([&] { f.GetLineProfileVal(4001, 4000, 2); });
    sym_assert(r == (k < 3), "undefined parameters refused, defined ones accepted");
    sym_assert(r == throws([&] { f.GetLineProfileDerivX0(4001, 4000, 2); }) && r == throws([&] { f.GetLineProfileDerivSigma(4001, 4000, 2); }), "derivatives refused with the value");
    CLineProfileASYMFIT q(8, p, "mean");
    q.resetParams();
    TAsymParams d = q.GetAsymParams();
    sym_assert(d.sigma == 2 && d.alpha == 0 && d.delta == 0, "reset parameters");
    CLineProfileASYM sh(8, {1, 2, 1}, "none");
    sym_assert(throws([&] { sh.GetLineProfileVal(4001, 4000, 2); }), "no shift without centring");
    sym_cover("invalid");
  } else if (mode == 4) {
    const double w = sym_anydouble("width", -5, 50), l = sym_double("lambda", 100, 40000);
    auto a = std::make_shared<TLSFGaussianConstantWidthArgs>(w);
    std::shared_ptr<CLSF> f;
    bool r = throws([&] { f = CLSFFactory::GetInstance().Create("gaussianConstantWidth", a); });
    if (std::isinf(w) && w > 0) return;
    sym_assert(r == !(w > 0), "refused without a positive width");
    if (r) { sym_cover("refused"); return; }
    SYM_NEAR(f->GetWidth(l), w, 1e-9, "constant width");
    SYM_NEAR(f->GetWidth(l, true), w, 1e-9, "constant width");
    SYM_NEAR(f->GetProfileVal(l + 1, l), std::exp(-0.5 / (w * w)), 1e-7, "profile of that width");
    sym_cover("lsfconst");
  } else if (mode == 5) {
    const double R = sym_anydouble("resolution", -5, 5000), l = sym_double("lambda", 100, 40000);
    auto a = std::make_shared<TLSFGaussianConstantResolutionArgs>(R);
    std::shared_ptr<CLSF> f;
    bool r = throws([&] { f = CLSFFactory::GetInstance().Create("gaussianConstantResolution", a); });
    if (std::isinf(R) && R > 0) return;
    sym_assert(r == !(R > 1), "refused without a resolution above one");
    if (r) { sym_cover("refused"); return; }
    SYM_NEAR(f->GetWidth(l) * R * 2.355, l, 1e-5, "width from the resolution");
    double c = l < 200 ? 200 : l > 30000 ? 30000 : l;
    SYM_NEAR(f->GetWidth(l, true) * R * 2.355, c, 1e-5, "width clipped to the range of definition");
    SYM_NEAR(CLSFGaussianConstantResolution::computeResolution(l, f->GetWidth(l)), R, 1e-5, "resolution from the width");
    sym_cover("lsfres");
  } else if (mode == 6) {
    const double l = sym_double("lambda", 100, 40000), c = l < 200 ? 200 : l > 30000 ? 30000 : l;
    auto f = CLSFFactory::GetInstance().Create("gaussianNISPSIM2016", std::make_shared<TArgs>());
    SYM_NEAR(f->GetWidth(l) * 2.35, l * 8.121e-4 + 7.4248, 1e-6, "simulation width");
    SYM_NEAR(f->GetWidth(l, true) * 2.35, c * 8.121e-4 + 7.4248, 1e-6, "simulation width clipped");
    sym_cover("lsfnisp");
  } else if (mode == 7) {
    const double l = sym_double("lambda", 100, 40000), c = l < 200 ? 200 : l > 30000 ? 30000 : l;
    const double src = sym_double("size", 0, 3);
    CLSFGaussianNISPVSSPSF201707 f(src);
    const double w = f.GetWidth(l), wc = f.GetWidth(l, true), i = l * 3.939e-4 + 2.191, ic = c * 3.939e-4 + 2.191, s = src * 13.4 / 0.355;
    SYM_NEAR(w * w, i * i + s * s, 1e-4, "instrument and source widths in quadrature");
    SYM_NEAR(wc * wc, ic * ic + s * s, 1e-4, "instrument and source widths in quadrature, clipped");
    sym_assert(w > 0, "positive width");
    sym_cover("lsfpsf");
  } else if (mode == 8) {
    const int n = sym_int("n", 0, 3), nl = n ? sym_int("nl", n - 1, n) : 0;
    TFloat64List lb, wd;
    bool ok = n > 0 && n == nl;
    for (int i = 0; i < nl; i++) {
      lb.push_back(sym_double(("l" + std::to_string(i)).c_str(), 3000, 9000));
      if (i) sym_assume(lb[i] > lb[i - 1] + 1);
    }
    for (int i = 0; i < n; i++) {
      wd.push_back(i == 1 && n < 3 ? sym_anydouble("w1", -1, 9) : sym_double(("w" + std::to_string(i)).c_str(), -1, 9));
      if (std::isinf(wd[i])) return;
      ok = ok && wd[i] > 0;
    }
    std::shared_ptr<CLSF> f;
    bool r = throws([&] { f = CLSFFactory::GetInstance().Create("gaussianVariableWidth", std::make_shared<TLSFGaussianVarWidthArgs>(lb, wd)); });
    sym_assert(r == !ok, "refused unless there is one positive width per wavelength");
    if (r) { sym_cover("refused"); return; }
    const double l = sym_double("lambda", 2000, 10000);
    const bool in = l >= lb[0] && l <= lb[n - 1];
    sym_assert(f->checkAvailability(l) == in, "available within the table");
    double got = 0;
    sym_assert(throws([&] { got = f->GetWidth(l); }) == !in, "no width outside the table");
    const double c = l < lb[0] ? lb[0] : l > lb[n - 1] ? lb[n - 1] : l;
    double ref = wd[n - 1];
    for (int i = n - 2; i >= 0; i--)
      if (c < lb[i + 1]) ref = wd[i] + (wd[i + 1] - wd[i]) * (c - lb[i]) / (lb[i + 1] - lb[i]);
    if (in) SYM_NEAR(got, ref, 1e-7, "linear interpolation of the table");
    SYM_NEAR(f->GetWidth(l, true), ref, 1e-7, "linear interpolation of the table, clipped");
    sym_cover("lsfvar");
  } else {
    CLSFGaussianConstantResolution f(1000);
    const int n = sym_int("n", 1, 3);
    const double l0 = 5000;
    TFloat64List lb;
    for (int i = 0; i < n; i++) lb.push_back(l0 + sym_double(("d" + std::to_string(i)).c_str(), -6, 6));
    TFloat64List k = f.getNormalizedProfileVector(lb, l0);
    sym_assert((int)k.size() == n, "one value each");
    double s = 0;
    for (int i = 0; i < n; i++) {
      s += k[i];
      sym_assert(k[i] >= 0 && k[i] <= 1 + 1e-9, "kernel between 0 and 1");
      SYM_NEAR(k[i] * f.GetProfileVal(lb[0], l0), k[0] * f.GetProfileVal(lb[i], l0), 1e-9, "proportional to the profile");
    }
    SYM_NEAR(s, 1, 1e-9, "kernel of unit sum");
    sym_cover("norm");
  }
}
