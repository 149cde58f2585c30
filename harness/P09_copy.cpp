//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp line/lineprofileSYM.cpp log/handler.cpp log/log.cpp photometry/photometricdata.cpp spectrum/LSF.cpp spectrum/LSFConstantResolution.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinFineGrid.cpp spectrum/rebin/rebinLinear.cpp spectrum/rebin/rebinNgp.cpp spectrum/rebin/rebinSpline.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp
//@ quick: DN=3 DOPS=2 deadline=60
//@ thorough: DN=4 DOPS=3 deadline=400
//@ cover: copy move assign moveassign mask extract amplitude invert method type replace manual raw zero
//@ bounds: N samples (quick 3, thorough 4) with arbitrary flux and noise, every history of OPS operations (scaling, inversion, flux replacement, continuum method change, component selection), then every way of copying, every mask and sub-range
//@ assumes: real arithmetic; continuum methods raw, zero and manual (the median one is P11)
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/photometry/photometricdata.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/LSFConstantResolution.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
extern "C" void harness() {
  TFloat64List x, f, e, c(N, 0.);
  for (int i = 0; i < N; i++) {
    x.push_back(100 + 10 * i);
    f.push_back(sym_double(nm("f", i).c_str(), -100, 100));
    e.push_back(sym_double(nm("e", i).c_str(), 0.1, 100));
  }
  std::shared_ptr<const CLSF> lsf = std::make_shared<CLSFGaussianConstantResolution>(2000.);
  auto phot = std::make_shared<CPhotometricData>(TStringList{"b"}, TFloat64List{1.}, TFloat64List{2.});
  CSpectrum s(CSpectrumSpectralAxis(x), CSpectrumFluxAxis(f.data(), N, e.data(), N), lsf);
  s.SetPhotData(phot); s.setObsID("obs"); s.SetName("name"); s.SetMedianWinsize(75.); s.SetMedianEvenReflection(false);
  int method = 1; // 0 raw 1 zero 2 manual
  s.SetContinuumEstimationMethod("zero");
  int type = 1;
  auto check = [&](const CSpectrum &t, const TFloat64List &X, const TFloat64List &F, const TFloat64List &E, const TFloat64List &C) {
    const int n = X.size();
    sym_assert(t.GetSampleCount() == n, "sample count");
    sym_assert(t.IsValid(), "copy is valid");
    const CSpectrumFluxAxis &r = t.GetRawFluxAxis(), &k = t.GetContinuumFluxAxis(), &w = t.GetWithoutContinuumFluxAxis(), &u = t.GetFluxAxis();
    sym_assert(r.GetSamplesCount() == n && k.GetSamplesCount() == n && w.GetSamplesCount() == n && r.GetError().GetSamplesCount() == n, "every component has all samples");
    for (int i = 0; i < n; i++) {
      sym_assert(t.GetSpectralAxis()[i] == X[i], "wavelengths");
      SYM_NEAR(r[i], F[i], 1e-9, "flux");
      SYM_NEAR(r.GetError()[i], E[i], 1e-9, "noise of the flux");
      double want = method == 0 ? F[i] : method == 1 ? 0 : C[i];
      SYM_NEAR(k[i], want, 1e-9, "continuum follows its method");
      SYM_NEAR(k[i] + w[i], F[i], 1e-9, "components add up to the flux");
      SYM_NEAR(u[i], type == 1 ? F[i] : type == 2 ? want : F[i] - want, 1e-9, "selected component");
    }
    sym_assert(t.GetName() == "name" && t.GetLSF() == lsf && t.GetMedianWinsize() == 75. && !t.GetMedianEvenReflection() &&
               t.GetContinuumEstimationMethod() == (method == 0 ? "raw" : method == 1 ? "zero" : "manual"), "settings");
  };
  for (int k = 0; k < OPS; k++) {
    if (sym_bool(nm("query", k).c_str())) s.GetContinuumFluxAxis();
    switch (sym_int(nm("op", k).c_str(), 0, 5)) {
    case 0: { double a = sym_double(nm("amp", k).c_str(), -4, 4); 
      if (method == 2 && !sym_bool(nm("q", k).c_str())) s.GetContinuumFluxAxis();
      else if (method == 2) break;
      sym_cover("amplitude"); s.ApplyAmplitude(a); for (double &v : f) v *= a; for (double &v : c) v *= a; break; }
    case 1: if (method == 2) s.GetContinuumFluxAxis(); sym_cover("invert"); s.InvertFlux(); for (double &v : f) v = -v; for (double &v : c) v = -v; break;
    case 2: {
      if (method == 2) break; // a manual continuum is dropped with the flux it belongs to
      sym_cover("replace");
      for (int i = 0; i < N; i++) { f[i] = sym_double((nm("g", k) + nm("_", i)).c_str(), -100, 100); e[i] = 1; }
      s.SetFluxAxis(CSpectrumFluxAxis(f)); type = 1; break; }
    case 3: sym_cover("method"); method = sym_int(nm("raw", k).c_str(), 0, 1); sym_cover(method ? "zero" : "raw"); s.SetContinuumEstimationMethod(method ? "zero" : "raw"); break;
    case 4: {
      sym_cover("manual"); method = 2;
      for (int i = 0; i < N; i++) c[i] = sym_double((nm("c", k) + nm("_", i)).c_str(), -100, 100);
      s.SetContinuumEstimationMethod(CSpectrumFluxAxis(c)); break; }
    case 5: sym_cover("type"); type = sym_int(nm("type", k).c_str(), 1, 3); s.SetType((CSpectrum::EType)type); break;
    }
  }
  auto extras = [&](const CSpectrum &t) { sym_assert(t.GetPhotData() == phot && t.getObsID() == "obs", "photometry and observation id"); };
  switch (sym_int("how", 0, 6)) {
  case 0: check(s, x, f, e, c); break;
  case 1: { CSpectrum t(s); check(t, x, f, e, c); extras(t); t.ApplyAmplitude(2); check(s, x, f, e, c); sym_cover("copy"); break; }
  case 2: { CSpectrum t(std::move(s)); check(t, x, f, e, c); extras(t); sym_cover("move"); break; }
  case 3: { CSpectrum t; t = s; check(t, x, f, e, c); extras(t); t.ApplyAmplitude(2); check(s, x, f, e, c); sym_cover("assign"); break; }
  case 4: { CSpectrum t; t = std::move(s); check(t, x, f, e, c); extras(t); sym_cover("moveassign"); break; }
  case 5: {
    TFloat64List m, X, F, E, C;
    for (int i = 0; i < N; i++) {
      m.push_back(sym_int(nm("m", i).c_str(), 0, 1));
      if (m[i]) { X.push_back(x[i]); F.push_back(f[i]); E.push_back(e[i]); C.push_back(c[i]); }
    }
    if (X.empty()) break;
    if (method == 2) s.GetContinuumFluxAxis();
    CSpectrum t(s, m); check(t, X, F, E, C); extras(t); sym_cover("mask"); break; }
  case 6: {
    if (method == 2) break;
    int a = sym_int("a", 0, N - 1), b = sym_int("b", a, N - 1);
    CSpectrum t = s.extract(a, b);
    type = 1;
    auto sub = [&](const TFloat64List &v) { return TFloat64List(v.begin() + a, v.begin() + b + 1); };
    check(t, sub(x), sub(f), sub(e), sub(c)); sym_cover("extract"); break; }
  }
}
