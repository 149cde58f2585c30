From ca49c7679f2b7d07bfc165d9bfb95bb99108f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 01/52] fix: FindAllPeaks no longer reports peaks inside
 descending or low plateaus

---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index b2d69b3..95e454c 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -292,9 +292,6 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
   auto isPeakAfterPlank = [&tmpY, godown, goflat](Int32 i, bool plank) {
     return plank * goflat(i - 1) * godown(i);
   };
-  auto isEndPlank = [&tmpY, goup, goflat](Int32 i) {
-    return goflat(i - 1) * goup(i);
-  };
 
   getFirstandLastnonNANElementIndices(yAxis, BeginIndex, EndIndex);
 
@@ -355,8 +352,9 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
       cnt_plk = 0;
       continue;
     }
-    // low plank: pdf is increasing after the plank. No peak here!
-    if (isEndPlank(i)) {
+    // low plank: pdf is increasing after the plank, or plank inside a descent.
+    // No peak here!
+    if (!goflat(i)) {
       plank = false; // end
       cnt_plk = 0;
       continue;
@@ -368,7 +366,8 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
   if (!m_allow_extrema_at_border)
     return result;
   // last element: check if plank is extended
-  if (godown(EndIndex - 1))
+  // a flat end is a peak only if it is a high plank
+  if (godown(EndIndex - 1) || (goflat(EndIndex - 1) && !plank))
     return result;
 
   cnt_plk += Int32(plank); // if no plank, cnt_plk+=0
-- 
2.43.0


From b85bef2358a0e308cf0b798d155021ea24d6d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 02/52] fix: re-sort candidate indexes after the merit cut
 (stale indexes read out of bounds)

---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index 95e454c..3661eff 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -120,6 +120,8 @@ TPointList CExtremum::Find(const TFloat64List &xAxis, const TFloat64List &yAxis,
   Int32 keepMinN = 1;
   if (m_meritCut > 0.0 && maxX.size() > keepMinN) {
     Cut_Threshold(maxX, maxY, keepMinN);
+    // the sorted indexes refer to the positions before the cut
+    SortIndexes(maxY);
   }
 
   // refine: eliminate very close candidates when possible.
-- 
2.43.0


From e52fa9de2785c273863f2cf65e7db6a360eb314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 03/52] fix: BestProba normalises with the trapezoid rule used
 by the pdf validity check

---
 RedshiftLibrary/src/lib/operator/pdfz.cpp | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/pdfz.cpp b/RedshiftLibrary/src/lib/operator/pdfz.cpp
index c931ed7..de74795 100644
--- a/RedshiftLibrary/src/lib/operator/pdfz.cpp
+++ b/RedshiftLibrary/src/lib/operator/pdfz.cpp
@@ -561,26 +561,13 @@ void COperatorPdfz::BestProba(const ChisquareArray &chisquarearray) {
     THROWG(ErrorCode::INTERNAL_ERROR,
            "Impossible to normalize: zstep is not constant");
 
-  // 2. prepare LogEvidence
-  Float64 maxi = -DBL_MAX;
-  TFloat64List smallVALUES(redshifts.size(), 0.0);
-  for (Int32 k = 0; k < redshifts.size(); k++) {
-    smallVALUES[k] = m_postmargZResult->valProbaLog[k];
-    maxi = std::max(maxi,
-                    smallVALUES[k]); // maxi will be used to avoid underflows
-                                     // when summing exponential of small values
-  }
-
-  Float64 sumModifiedExp = accumulate(
-      smallVALUES.begin(), smallVALUES.end(), 0.0,
-      [maxi](Float64 sum, Float64 value) { return sum + exp(value - maxi); });
-
-  Float64 logEvidence = maxi + log(sumModifiedExp) + log(zstep);
+  // 2. prepare LogEvidence (same trapezoidal integral as the pdf validity
+  // check, border samples count for half a step)
+  const Float64 logEvidence =
+      logSumExpTrick(m_postmargZResult->valProbaLog, redshifts);
 
   Log.LogDebug(Formatter() << "COperatorPdfz::BestProba: using logEvidence="
                            << logEvidence);
-  Log.LogDebug(Formatter() << "COperatorPdfz::BestProba: using log(zstep)="
-                           << log(zstep));
 
   std::transform(m_postmargZResult->valProbaLog.cbegin(),
                  m_postmargZResult->valProbaLog.cend(),
-- 
2.43.0


From c143b50b3af008aeefa8e6f54f5055747e2c69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 04/52] fix: compare every redshift candidate with the closest
 one still kept when trimming integration ranges

---
 .../src/lib/statistics/pdfcandidatesz.cpp     | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp b/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
index 94417e0..80dbbec 100644
--- a/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
+++ b/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
@@ -109,12 +109,19 @@ CPdfCandidatesZ::SetIntegrationRanges(const TFloat64Range PdfZRange,
               return candidates[Id1]->Redshift < candidates[Id2]->Redshift;
             });
 
-  // trim overlapping ranges
+  // trim overlapping ranges, comparing each candidate with the closest one
+  // still kept
   TStringList duplicates = {};
+  TStringList keptKeys = {};
   for (auto candidateKey = candidatesKeys.begin();
-       candidateKey != candidatesKeys.end() - 1; ++candidateKey) {
-    std::string &candidateKeyHigh = *candidateKey;
-    std::string &candidateKeyLow = *(candidateKey + 1);
+       candidateKey != candidatesKeys.end();) {
+    std::string &candidateKeyLow = *candidateKey;
+    if (keptKeys.empty()) {
+      keptKeys.push_back(candidateKeyLow);
+      ++candidateKey;
+      continue;
+    }
+    std::string candidateKeyHigh = keptKeys.back();
     Float64 &zHigh = candidates[candidateKeyHigh]->Redshift;
     Float64 &zLow = candidates[candidateKeyLow]->Redshift;
 
@@ -126,8 +133,11 @@ CPdfCandidatesZ::SetIntegrationRanges(const TFloat64Range PdfZRange,
     Float64 overlap =
         ranges[candidateKeyLow].GetEnd() - ranges[candidateKeyHigh].GetBegin();
 
-    if (overlap <= 0)
+    if (overlap <= 0) {
+      keptKeys.push_back(candidateKeyLow);
+      ++candidateKey;
       continue;
+    }
 
     // in the case of duplicates, split equally the overlap between both
     // candidates
@@ -142,6 +152,8 @@ CPdfCandidatesZ::SetIntegrationRanges(const TFloat64Range PdfZRange,
       Float64 midOverlap = ranges[candidateKeyLow].GetEnd() - 0.5 * overlap;
       ranges[candidateKeyLow].SetEnd(midOverlap);
       ranges[candidateKeyHigh].SetBegin(midOverlap);
+      keptKeys.push_back(candidateKeyLow);
+      ++candidateKey;
     } else {
       Log.LogInfo(Formatter()
                   << " CPdfCandidatesZ::SetIntegrationRanges: very close "
@@ -151,8 +163,10 @@ CPdfCandidatesZ::SetIntegrationRanges(const TFloat64Range PdfZRange,
       if (candidates[candidateKeyLow]->ValProba >
           candidates[candidateKeyHigh]->ValProba) {
         candidateKeyToRemove = candidateKeyHigh;
+        keptKeys.pop_back();
       } else {
         candidateKeyToRemove = candidateKeyLow;
+        ++candidateKey;
       }
       duplicates.push_back(candidateKeyToRemove);
     }
-- 
2.43.0


From e54ce40c227e6bbca552dfe3b24afcbca03fdc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 05/52] fix: convertToRegular(fine) read the step list past its
 end

---
 RedshiftLibrary/src/lib/operator/logZPdfResult.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
index e6bbe00..5ec8cef 100644
--- a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
+++ b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
@@ -155,8 +155,6 @@ void CLogZPdfResult::convertToRegular(bool fine) {
   zstep.resize(1);
 
   auto param = getZGridParams()[0];
-  if (fine)
-    param.zstep = zstep[1];
   auto target_redshifts = param.getZGrid(logsampling);
 
   interpolateOnGrid(target_redshifts);
-- 
2.43.0


From bcc95ce0f5104e1f8d5ac493dfdd163edf9a96fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 06/52] fix: forget the log sampling of a spectral axis when an
 offset is applied, not when none is

---
 RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index 73ad893..bbb43b2 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -169,8 +169,8 @@ void CSpectrumSpectralAxis::ApplyOffset(Float64 wavelengthOffset) {
   for (Int32 i = 0; i < nSamples; i++) {
     m_Samples[i] += wavelengthOffset;
   }
-  if (!wavelengthOffset)
-    m_isLogSampled = false;
+  if (wavelengthOffset)
+    m_isLogSampled = indeterminate;
 }
 
 /**
-- 
2.43.0


From 395188c28408af4973f3aec092a9be5f33ed3e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 07/52] fix: testing a spectral axis of fewer than two samples
 for log sampling read past its end

---
 RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index bbb43b2..34dba8d 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -343,6 +343,11 @@ Int32 CSpectrumSpectralAxis::GetIndexAtWaveLength(Float64 waveLength) const {
  * Check if spectralAxis is well rebinned in log
  */
 bool CSpectrumSpectralAxis::CheckLoglambdaSampling() const {
+  if (m_Samples.size() < 2) {
+    m_isLogSampled = false;
+    return false;
+  }
+
   Float64 logGridStep = log(m_Samples[1] / m_Samples[0]);
 
   Float64 relativelogGridStepTol =
-- 
2.43.0


From 207c36e0e7b2c374e0109c1c48ac43e30ea81122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 08/52] fix: an axis of equal wavelengths was reported as
 log-sampled (NaN relative step error)

---
 RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index 34dba8d..9ef7591 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -363,8 +363,7 @@ bool CSpectrumSpectralAxis::CheckLoglambdaSampling() const {
         std::abs((_logGridStep - logGridStep) / logGridStep);
     maxAbsRelativeError = max(relativeErrAbs, maxAbsRelativeError);
 
-    if (relativeErrAbs >
-        relativelogGridStepTol) { // return without setting anything
+    if (!(relativeErrAbs <= relativelogGridStepTol)) { // NaN (null step) fails
       m_isLogSampled = false;     // unsetting
       Log.LogDebug("   CSpectrumSpectralAxis::CheckLoglambdaSampling: "
                    "Log-regular lambda check FAILED");
-- 
2.43.0


From 45830939f1a8311719f2410cf51da1d8d49f28b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 09/52] fix: the last sample of the wavelength range was
 neither validated nor corrected

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 09197c3..2415828 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -446,6 +446,8 @@ void CSpectrum::ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const {
 
   Int32 iMin = m_SpectralAxis.GetIndexAtWaveLength(LambdaMin);
   Int32 iMax = m_SpectralAxis.GetIndexAtWaveLength(LambdaMax);
+  if (m_SpectralAxis[iMax] <= LambdaMax)
+    ++iMax; // the last sample of the range is to be checked too
   Log.LogDetail(Formatter()
                 << "CSpectrum::ValidateFlux - checking on the configured "
                    "lambdaRange = ("
@@ -453,7 +455,8 @@ void CSpectrum::ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const {
   Log.LogDetail(Formatter()
                 << "CSpectrum::ValidateFlux - checking on the true observed "
                    "spectral axis lambdarange = ("
-                << m_SpectralAxis[iMin] << ", " << m_SpectralAxis[iMax] << ")");
+                << m_SpectralAxis[iMin] << ", "
+                << m_SpectralAxis[std::max(iMin, iMax - 1)] << ")");
 
   const CSpectrumFluxAxis &flux = GetFluxAxis();
   std::map<string, int> invalidElements = {};
@@ -496,6 +499,8 @@ void CSpectrum::ValidateNoise(Float64 LambdaMin, Float64 LambdaMax) const {
   const TFloat64List &error = GetFluxAxis().GetError().GetSamplesVector();
   Int32 iMin = m_SpectralAxis.GetIndexAtWaveLength(LambdaMin);
   Int32 iMax = m_SpectralAxis.GetIndexAtWaveLength(LambdaMax);
+  if (m_SpectralAxis[iMax] <= LambdaMax)
+    ++iMax; // the last sample of the range is to be checked too
   Log.LogDetail(Formatter()
                 << "CSpectrum::ValidateNoise - checking on the configured "
                    "lambdaRange = ("
@@ -503,7 +508,8 @@ void CSpectrum::ValidateNoise(Float64 LambdaMin, Float64 LambdaMax) const {
   Log.LogDetail(Formatter()
                 << "CSpectrum::ValidateNoise - checking on the true observed "
                    "spectral axis lambdarange = ("
-                << m_SpectralAxis[iMin] << ", " << m_SpectralAxis[iMax] << ")");
+                << m_SpectralAxis[iMin] << ", "
+                << m_SpectralAxis[std::max(iMin, iMax - 1)] << ")");
 
   std::map<string, int> invalidElements = {};
 
@@ -536,6 +542,8 @@ bool CSpectrum::correctSpectrum(Float64 LambdaMin, Float64 LambdaMax,
 
   Int32 iMin = m_SpectralAxis.GetIndexAtWaveLength(LambdaMin);
   Int32 iMax = m_SpectralAxis.GetIndexAtWaveLength(LambdaMax);
+  if (m_SpectralAxis[iMax] <= LambdaMax)
+    ++iMax; // the last sample of the range is to be checked too
 
   bool corrected =
       GetFluxAxis_().correctFluxAndNoiseAxis(iMin, iMax, coeffCorr);
-- 
2.43.0


From c62054b76857d9107779391b81b1ca412344767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 10/52] fix: assigning a spectrum lost the photometric data and
 observation id

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 2415828..b41b86c 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -174,6 +174,8 @@ CSpectrum &CSpectrum::operator=(const CSpectrum &other) {
   m_medianEvenReflection = other.m_medianEvenReflection;
   m_Name = other.m_Name;
   alreadyRemoved = other.alreadyRemoved;
+  m_photData = other.m_photData;
+  m_obsId = other.m_obsId;
   m_rebin = CRebin::create(other.m_rebin->getType(), *this);
   return *this;
 }
@@ -193,6 +195,8 @@ CSpectrum &CSpectrum::operator=(CSpectrum &&other) {
   m_medianEvenReflection = other.m_medianEvenReflection;
   m_Name = std::move(other.m_Name);
   alreadyRemoved = other.alreadyRemoved;
+  m_photData = std::move(other.m_photData);
+  m_obsId = std::move(other.m_obsId);
   m_rebin = CRebin::create(other.m_rebin->getType(), *this);
 
   return *this;
-- 
2.43.0


From 85f6509bdd02ea3b2b9af83f848fde5a62826943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 11/52] fix: the precomputed fine grid of a spectrum outlived
 the flux, axis or continuum it was computed from

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index b41b86c..9bd680e 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -208,6 +208,7 @@ void CSpectrum::SetSpectralAxis(const CSpectrumSpectralAxis &spectralaxis) {
            "CSpectrum::SetSpectralAxis: new spectral axis has "
            "not the same size than flux axis");
   }
+  m_rebin->reset();
   m_SpectralAxis = spectralaxis;
 }
 
@@ -217,6 +218,7 @@ void CSpectrum::SetSpectralAxis(CSpectrumSpectralAxis &&spectralaxis) {
            "CSpectrum::SetSpectralAxis: new spectral axis has "
            "not the same size than flux axis");
   }
+  m_rebin->reset();
   m_SpectralAxis = std::move(spectralaxis);
 }
 
@@ -350,6 +352,7 @@ bool CSpectrum::InvertFlux() {
     m_ContinuumFluxAxis.Invert();
     m_WithoutContinuumFluxAxis.Invert();
   }
+  m_rebin->reset();
   return true;
 }
 
@@ -552,8 +555,10 @@ bool CSpectrum::correctSpectrum(Float64 LambdaMin, Float64 LambdaMax,
   bool corrected =
       GetFluxAxis_().correctFluxAndNoiseAxis(iMin, iMax, coeffCorr);
 
-  if (corrected)
+  if (corrected) {
     ResetContinuum();
+    m_rebin->reset();
+  }
 
   return corrected;
 }
@@ -576,6 +581,7 @@ void CSpectrum::SetMedianWinsize(Float64 winsize) {
   if (m_medianWindowSize != winsize &&
       m_estimationMethod == "irregularSamplingMedian") {
     ResetContinuum();
+    m_rebin->reset();
   }
   m_medianWindowSize = winsize;
 }
@@ -584,6 +590,7 @@ void CSpectrum::SetMedianEvenReflection(bool medianEvenReflection) {
   if (m_medianEvenReflection != medianEvenReflection &&
       m_estimationMethod == "irregularSamplingMedian") {
     ResetContinuum();
+    m_rebin->reset();
   }
   m_medianEvenReflection = medianEvenReflection;
 }
@@ -592,6 +599,7 @@ void CSpectrum::SetContinuumEstimationMethod(std::string method) const {
   if (m_estimationMethod != method) {
     m_estimationMethod = method;
     ResetContinuum();
+    m_rebin->reset();
   }
 }
 
@@ -603,6 +611,7 @@ void CSpectrum::SetContinuumEstimationMethod(
     const CSpectrumFluxAxis &ContinuumFluxAxis) {
   m_estimationMethod = "manual";
   ResetContinuum();
+  m_rebin->reset();
 
   if (ContinuumFluxAxis.GetSamplesCount() != GetSampleCount()) {
     THROWG(ErrorCode::INTERNAL_ERROR,
-- 
2.43.0


From 5ec7a9ba278e90a7d69c02d2aec27cade2897279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:12 +0000
Subject: [PATCH 12/52] fix: rebinning the variance onto a single sample read
 before the start of the target axis

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
index 3d96da3..a15ff05 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
@@ -105,7 +105,7 @@ Float64 CRebin::computeXStepCompensation(
   if (cursor < targetSpectralAxis.GetSamplesCount() - 1) {
     xDestStep = Xtgt[cursor + 1] - Xtgt[cursor];
     xStepCompensation = xSrcStep / xDestStep;
-  } else {
+  } else if (cursor > 0) {
     xDestStep = Xtgt[cursor] - Xtgt[cursor - 1];
     xStepCompensation = xSrcStep / xDestStep;
   }
-- 
2.43.0


From cd3ab20f986a771c3127f24bef9d44a70d75ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 13/52] fix: rebinning by fine grid gave a null flux within
 half a step of the end of the source axis

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
index f2bd3f5..5115c65 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
@@ -110,11 +110,16 @@ void CRebinFineGrid::rebin(CSpectrumFluxAxis &rebinedFluxAxis,
   // sample, 20150801
   Int32 k = 0;
   Float64 lmin = m_spectrum.GetSpectralAxis()[0];
+  Float64 lmax =
+      m_spectrum.GetSpectralAxis()[m_spectrum.GetSampleCount() - 1];
   // For each sample in the target
   // spectrum
   while (cursor < targetSpectralAxis.GetSamplesCount() &&
          Xtgt[cursor] <= range.GetEnd()) {
     k = int((Xtgt[cursor] - lmin) / m_dLambdaFineGrid + 0.5);
+    // the fine grid is null beyond the end of the source axis
+    if (k > 0 && lmin + k * m_dLambdaFineGrid > lmax)
+      k--;
     rebinedFluxAxis[cursor] = m_pfgFlux[k];
     rebinedMask[cursor] = 1;
 
-- 
2.43.0


From 7498a724bdb0dfefcae5fcdbd888a0a0c75f8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 14/52] fix: the precomputed fine grid survived a flux change
 made while another interpolation was selected

---
 RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h b/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
index cbe7860..c2d406c 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
@@ -67,7 +67,11 @@ public:
                CSpectrum &rebinedSpectrum, CMask &rebinedMask,
                const std::string opt_error_interp);
 
-  virtual void reset(){};
+  // forget the precomputed grid, kept across a change of interpolation
+  virtual void reset() {
+    m_FineGridInterpolated = false;
+    m_pfgFlux.clear();
+  };
   virtual const std::string &getType() = 0;
 
 protected:
-- 
2.43.0


From 405f69ca9e7ba085d64b73339246846ec9f6ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 15/52] fix: a median window of one to three samples gave an
 undefined continuum

---
 .../src/lib/continuum/irregularsamplingmedian.cpp           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
index e95f33e..2d4b588 100644
--- a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
+++ b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
@@ -306,7 +306,8 @@ bool CContinuumIrregularSamplingMedian::ProcessRemoveContinuum(
 
   // set the reflection size
   const Int32 nreflex =
-      boost::algorithm::clamp(round(nd / 2.0), 10.0, 5.0 * meanSmoothAmplitude);
+      boost::algorithm::clamp(round(nd / 2.0), 10.0,
+                              max(10.0, 5.0 * meanSmoothAmplitude));
 
   // declare extend vector array
   TFloat64List ysmoobig;
@@ -352,7 +353,8 @@ bool CContinuumIrregularSamplingMedian::ProcessRemoveContinuum(
   {
     // mean smoothing
     // mean smooth size=meanSmoothAmplitude/4
-    ysmoobig = MeanSmooth(ysmoobig, (Int32)meanSmoothAmplitude / 4);
+    // (at least one sample: the mean of an empty window is undefined)
+    ysmoobig = MeanSmooth(ysmoobig, max(1, meanSmoothAmplitude / 4));
   }
 
   // Copy spectrum before k0
-- 
2.43.0


From 59686bfd5ac2193deedb256e857a97066270bbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:08 +0000
Subject: [PATCH 16/52] fix: the air to vacuum inversion stopped after one
 iteration whatever its precision

---
 RedshiftLibrary/src/lib/line/airvacuum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/airvacuum.cpp b/RedshiftLibrary/src/lib/line/airvacuum.cpp
index 8bd8b4e..724c323 100644
--- a/RedshiftLibrary/src/lib/line/airvacuum.cpp
+++ b/RedshiftLibrary/src/lib/line/airvacuum.cpp
@@ -106,10 +106,10 @@ TFloat64List CAirVacuum::AirToVac(const TFloat64List &waveAir) const {
     std::transform(waveVac.begin(), waveVac.end(), delta.begin(),
                    waveVac.begin(), std::minus<Float64>());
 
-    precision =
+    precision = std::abs(
         *std::max_element(delta.begin(), delta.end(), [](Float64 x, Float64 y) {
-          return (abs(x) < abs(y));
-        });
+          return (std::abs(x) < std::abs(y));
+        }));
     if (precision <= minprecision)
       break;
 
-- 
2.43.0


From c3d3e688f55b501f6861b523139c9c0d8772fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 17/52] fix: centre derivative of the asymmetric profile had
 half of its skewness term

---
 RedshiftLibrary/src/lib/line/lineprofileASYM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
index 2f180fa..24667e6 100644
--- a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
+++ b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
@@ -140,7 +140,7 @@ Float64 CLineProfileASYM::GetLineProfileDerivX0(Float64 x, Float64 x0,
   Float64 val =
       xsurc / sigma * exp(-0.5 * xsurc2) *
           (1.0 + erf(m_asym_alpha / sqrt(2.0) * xsurc)) -
-      m_asym_alpha / sqrt(2 * M_PI) / sigma * exp(-(1 + alpha2) / 2 * xsurc2);
+      m_asym_alpha * sqrt(2 / M_PI) / sigma * exp(-(1 + alpha2) / 2 * xsurc2);
   return val;
 }
 
-- 
2.43.0


From 99a82b6f4771caa795b6eab0fc1a6788d8a83cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 18/52] fix: an asymmetric profile with an undefined shift was
 declared valid

---
 RedshiftLibrary/src/lib/line/lineprofileASYM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
index 24667e6..ae33c29 100644
--- a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
+++ b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
@@ -180,7 +180,7 @@ TAsymParams CLineProfileASYM::GetAsymParams() const {
 
 bool CLineProfileASYM::isValid() const {
   if (std::isnan(m_asym_sigma_coeff) || std::isnan(m_asym_alpha) ||
-      std::isnan(m_asym_alpha)) {
+      std::isnan(m_asym_delta)) {
     return 0;
   }
   return 1;
-- 
2.43.0


From c10c0a70ab25800c83cb75f92e4e7b3e13e1b0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 19/52] fix: the IGM curves stayed convolved by the line spread
 function of the first spectrum processed

---
 .../RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h      | 4 ++++
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp      | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h b/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
index da05e50..bddc6c6 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
@@ -71,6 +71,10 @@ public:
   void convolveByLSF(const std::shared_ptr<const CLSF> &lsf,
                      const TFloat64Range &lambdaRange);
   bool isConvolved() { return m_convolved; };
+  void resetConvolution() {
+    m_corrections.clear();
+    m_convolved = false;
+  };
   Int32 getIdxCount() const {
     return m_rawCorrections[0].fluxcorr.size();
   }; // harcoded value from the number of cols in the ascii files
diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 6d113e1..8b93464 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -206,6 +206,11 @@ void CInputContext::Init() {
                                                      *clampedLambdaRange_ptr);
   }
 
+  // the IGM curves convolved by the LSF of a previous spectrum are outdated
+  if (m_igmcorrectionMeiksin->isConvolved() &&
+      m_ParameterStore->Get<std::string>("lsf.lsfType") == "fromSpectrumData")
+    m_igmcorrectionMeiksin->resetConvolution();
+
   // validate spectra and initialize spectra continuum removal
   for (auto const &[spectrum_ptr, lambdaRange_ptr] :
        boost::combine(m_spectra, m_lambdaRanges)) {
@@ -213,8 +218,7 @@ void CInputContext::Init() {
     spectrum_ptr->InitSpectrumContinuum(*m_ParameterStore);
     // convolve IGM by LSF
 
-    if (!m_igmcorrectionMeiksin->isConvolved() ||
-        m_ParameterStore->Get<std::string>("lsf.lsfType") == "fromSpectrumData")
+    if (!m_igmcorrectionMeiksin->isConvolved())
       m_igmcorrectionMeiksin->convolveByLSF(spectrum_ptr->GetLSF(),
                                             *lambdaRange_ptr);
   }
-- 
2.43.0


From 26780bb7f8a9d9e23c9a2db22437817ed4b39290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 20/52] fix: the redshift range of a log-rebinned category was
 never updated after the first spectrum

---
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 8b93464..c6aa063 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -86,6 +86,7 @@ the client has the responsibility to add these info to each spectrum
 */
 void CInputContext::RebinInputs() {
 
+  m_logRebin.clear();
   std::map<std::string, bool> fft_processing;
   m_use_LogLambaSpectrum =
       m_ParameterStore->hasToLogRebin(m_categories, fft_processing);
-- 
2.43.0


From 71b0fab8152c7cd22214b8ac8276ec1e56bd2a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:05 +0000
Subject: [PATCH 21/52] fix: an undefined width was accepted in a
 variable-width line spread function

---
 RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp b/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp
index 23009b2..d94cb2d 100644
--- a/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp
@@ -87,7 +87,7 @@ bool CLSFGaussianVariableWidth::IsValid() const {
            "and width axis");
   }
   for (Float64 w : m_width)
-    if (w <= 0.)
+    if (!(w > 0.))
       return false;
   return true;
 }
-- 
2.43.0


From 0f4bc7817fd4a2c270d2f6937d6835871004964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:02 +0000
Subject: [PATCH 22/52] fix: masked samples no longer make the mean and
 deviation of a flux undefined

---
 RedshiftLibrary/src/lib/spectrum/fluxaxis.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/fluxaxis.cpp b/RedshiftLibrary/src/lib/spectrum/fluxaxis.cpp
index 2d7a22b..c5fd49d 100644
--- a/RedshiftLibrary/src/lib/spectrum/fluxaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/fluxaxis.cpp
@@ -173,6 +173,9 @@ bool CSpectrumFluxAxis::ComputeMeanAndSDev(const CMask &mask, Float64 &mean,
       THROWG(ErrorCode::INTERNAL_ERROR, "bad mask");
 #endif
 
+    if (mask[j] == 0) // masked samples may be undefined or without noise
+      continue;
+
     weight = 1.0 / (error[j] * error[j]);
 
     sum += mask[j] * m_Samples[j] * weight;
-- 
2.43.0


From 3650e7b2ee8c47e2b07862645d505b8aa73c8e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:02 +0000
Subject: [PATCH 23/52] fix: a masked copy of a template keeps the range its
 IGM correction applies to

---
 RedshiftLibrary/src/lib/spectrum/template/template.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index 814215d..b8b0c33 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -119,6 +119,9 @@ CTemplate::CTemplate(const CTemplate &other, const TFloat64List &mask)
       m_Igm_kend = -1; // not necessary but for security
       m_NoIsmIgmFluxAxis.clear();
     } else {
+      if (!MeiksinInitFailed())
+        m_Igm_kend = GetIgmEndIndex(m_IsmIgm_kstart, m_Ism_kend);
+
       m_NoIsmIgmFluxAxis =
           CSpectrumFluxAxis(other.m_NoIsmIgmFluxAxis.MaskAxis(mask));
 
-- 
2.43.0


From 1adca67ac6139728917003501aac891f9ee4f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:02 +0000
Subject: [PATCH 24/52] fix: masking out the whole corrected range of a
 template disables its ISM/IGM configuration

---
 RedshiftLibrary/src/lib/spectrum/template/template.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index b8b0c33..24fba48 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -106,7 +106,8 @@ CTemplate::CTemplate(const CTemplate &other, const TFloat64List &mask)
                                           m_IsmIgm_kstart, m_Ism_kend);
     } catch (const AmzException &exception) {
       if (exception.getErrorCode() ==
-          ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE) {
+              ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE ||
+          exception.getErrorCode() == ErrorCode::CRANGE_NO_INTERSECTION) {
         rangeIsMasked = true;
       } else {
         throw exception;
-- 
2.43.0


From 68b420166ccbe28bf33c0e37b95771b90a21c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:02 +0000
Subject: [PATCH 25/52] fix: no access to the priors of dust values when the
 dust is not fitted

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index df1c61c..a2d83e8 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -89,7 +89,7 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
   m_option_igmFastProcessing = (MeiksinListSize > 1 ? true : false);
 
   bool apply_priore =
-      !logpriore.empty() && !tpl->CalzettiInitFailed() &&
+      !logpriore.empty() && opt_dustFitting && !tpl->CalzettiInitFailed() &&
       (logpriore.size() ==
        tpl->m_ismCorrectionCalzetti->GetNPrecomputedEbmvCoeffs());
 
-- 
2.43.0


From 34613eee85f7f4ff969cd010a3ef26d9f6e7954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:02 +0000
Subject: [PATCH 26/52] fix: template fitting with IGM and without dust at
 redshifts where the IGM is out of range

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index a2d83e8..9556b00 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -86,7 +86,6 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
 
   Int32 EbmvListSize = EbmvList.size();
   Int32 MeiksinListSize = MeiksinList.size();
-  m_option_igmFastProcessing = (MeiksinListSize > 1 ? true : false);
 
   bool apply_priore =
       !logpriore.empty() && opt_dustFitting && !tpl->CalzettiInitFailed() &&
@@ -110,6 +109,7 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
 
   if (opt_extinction)
     opt_extinction = igmIsInRange(currentRanges);
+  m_option_igmFastProcessing = opt_extinction && MeiksinListSize > 1;
 
   if (opt_dustFitting || opt_extinction) {
     for (Int32 spcIndex = 0; spcIndex < m_spectra.size(); spcIndex++) {
-- 
2.43.0


From e774759e56b37c10f2ad5cbf81a989572325aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:02 +0000
Subject: [PATCH 27/52] fix: samples counted twice by the IGM fit when the
 whole spectrum is in the IGM range

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index 9556b00..b24c74b 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -289,6 +289,11 @@ TCrossProductResult COperatorTemplateFitting::ComputeCrossProducts(
   }
 
   if (m_option_igmFastProcessing) {
+    if (sumsIgmSaved == 0) { // no sample outside the IGM range
+      sumCross_IGM = sumCross;
+      sumT_IGM = sumT;
+      sumS_IGM = sumS;
+    }
     if (kM == 0) {
       m_sumCross_outsideIGM[spcIndex][kEbmv_] = sumCross - sumCross_IGM;
       m_sumT_outsideIGM[spcIndex][kEbmv_] = sumT - sumT_IGM;
-- 
2.43.0


From a8b30327c04cf2526ea7b12250fd208de7b6e757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:44 +0000
Subject: [PATCH 28/52] fix: likelihood constant of the photometric bands had
 its noise term with the wrong sign

---
 RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
index 536c7e2..fa8c2a9 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
@@ -320,9 +320,9 @@ Float64 COperatorTemplateFittingPhot::EstimateLikelihoodCstLog() const {
   const auto &photData = spectrum->GetPhotData();
   for (const auto &b : *m_photBandCat) {
     const std::string &bandName = b.first;
-    sumLogNoise += log(photData->GetFluxErr(bandName) * m_weight);
+    sumLogNoise += log(photData->GetFluxErr(bandName) / m_weight);
   }
-  cstlog -= m_photBandCat->size() * 0.5 * log(2 * M_PI) - sumLogNoise;
+  cstlog -= m_photBandCat->size() * 0.5 * log(2 * M_PI) + sumLogNoise;
 
   return cstlog;
 }
-- 
2.43.0


From 77d2560501dd326821c51fafa781f25767e67884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:44 +0000
Subject: [PATCH 29/52] fix: bands counted twice by the IGM fit when all of
 them are in the IGM range

---
 RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
index fa8c2a9..675e636 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
@@ -295,6 +295,11 @@ void COperatorTemplateFittingPhot::ComputePhotCrossProducts(
   }
 
   if (m_option_igmFastProcessing) {
+    if (!sumsIgmSaved) { // no band outside the IGM range
+      sumCross_IGM = sumCross_phot;
+      sumT_IGM = sumT_phot;
+      sumS_IGM = sumS_phot;
+    }
     if (kM == 0) {
       m_sumCross_outsideIGM_phot[kEbmv_] = sumCross_phot - sumCross_IGM;
       m_sumT_outsideIGM_phot[kEbmv_] = sumT_phot - sumT_IGM;
-- 
2.43.0


From 70b8d93afa486e5b9d219283b9fe507dfe356c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:44 +0000
Subject: [PATCH 30/52] fix: model photometry did not include the amplitude of
 the template

---
 RedshiftLibrary/src/lib/operator/templatefittingBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
index 0ed10ec..14d2a71 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
@@ -146,7 +146,7 @@ TPhotVal COperatorTemplateFittingBase::ComputeSpectrumModel(
                              CSpectrumSpectralAxis::nShiftForward);
   models->addModel(CSpectrum(std::move(modelwav), modelflux),
                    m_spectra[spcIndex]->getObsID());
-  return spcIndex > 0 ? TPhotVal() : getIntegratedFluxes();
+  return spcIndex > 0 ? TPhotVal() : getIntegratedFluxes(amplitude);
 }
 
 void COperatorTemplateFittingBase::RebinTemplate(
-- 
2.43.0


From 6568a07f2e16b9433bb179b96bfd9eec75c7af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:08 +0000
Subject: [PATCH 31/52] fix: an observation entirely masked no longer refuses
 the template fit of the others

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index b24c74b..137ca5a 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -170,6 +170,9 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
         fitRes.cross_result +=
             ComputeCrossProducts(kM, kEbmv_, redshift, spcIndex);
       }
+      if (fitRes.cross_result.sumT == 0.0)
+        THROWG(ErrorCode::INTERNAL_ERROR, "empty leastsquare sum");
+
       ComputeAmplitudeAndChi2(fitRes, logpriorTZE);
       Log.LogDebug(Formatter() << "BasicFit: z=" << redshift << " fit="
                                << fitRes.chiSquare << " coeffEBMV=" << coeffEBMV
@@ -305,10 +308,6 @@ TCrossProductResult COperatorTemplateFitting::ComputeCrossProducts(
     }
   }
 
-  if (sumT == 0.0) {
-    THROWG(ErrorCode::INTERNAL_ERROR, "empty leastsquare sum");
-  }
-
   return fitResult;
 }
 
-- 
2.43.0


From 8ce5ebcc61645cb38549ee873525a676c594b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:58 +0000
Subject: [PATCH 32/52] fix: template combination with a single template
 accessed a second amplitude

---
 .../src/lib/operator/tplcombination.cpp           | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 7c7d479..8ba821f 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -283,13 +283,14 @@ void COperatorTplcombination::BasicFit(
 
 #define C(i) (gsl_vector_get(c, (i)))
 #define COV(i, j) (gsl_matrix_get(cov, (i), (j)))
-      Log.LogDebug(Formatter() << "# best fit: Y = " << C(0) << " X1 + " << C(1)
-                               << " X2 ...");
-      Log.LogDebug(Formatter() << "# covariance matrix:");
-      Log.LogDebug(Formatter() << "[");
-      Log.LogDebug(Formatter() << "  " << COV(0, 0) << ", " << COV(0, 1));
-      Log.LogDebug(Formatter() << "  " << COV(1, 0) << "," << COV(1, 1));
-      Log.LogDebug(Formatter() << "]");
+      Log.LogDebug(Formatter() << "# best fit amplitudes and covariance matrix:");
+      for (Int32 iddl = 0; iddl < nddl; iddl++) {
+        Formatter covLine;
+        covLine << "  " << C(iddl) << " [";
+        for (Int32 iddc = 0; iddc < nddl; iddc++)
+          covLine << " " << COV(iddl, iddc);
+        Log.LogDebug(covLine << " ]");
+      }
       Log.LogDebug(Formatter() << "# chisq/n = " << chisq / n);
 
       for (Int32 iddl = 0; iddl < nddl; iddl++) {
-- 
2.43.0


From c52c01e05bef47e8b110e51f9ac5657db50b9a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:58 +0000
Subject: [PATCH 33/52] fix: template combination returned the amplitudes of
 the last dust and IGM configuration instead of the best one

---
 .../src/lib/operator/tplcombination.cpp       | 51 ++++++++-----------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 8ba821f..b9b50b8 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -299,37 +299,30 @@ void COperatorTplcombination::BasicFit(
                                  << " +- " << COV(iddl, iddl) * normFactor);
       }
 
-      // save the fitted amps and fitErrors, etc...
-      Float64 a, err2, err, sA = 0, sE = 0;
-      for (Int32 iddl = 0; iddl < nddl; iddl++) {
-        a = gsl_vector_get(c, iddl);
-        fittingResults.fittingAmplitudes[iddl] = a * normFactor;
-        err2 = COV(iddl, iddl);
-        err = std::sqrt(err2);
-        fittingResults.fittingAmplitudeErrors[iddl] = err * normFactor;
-        fittingResults.fittingAmplitudeSigmas[iddl] = a / err;
-        sA += a * a;
-        sE += err2;
-      }
-      SNR = std::sqrt(sA / sE);
-      fittingResults.fittingAmplitudesInterm[kEbmv_][kigm] =
-          fittingResults.fittingAmplitudes; // saving
-
-      // save covariance matrix into MtM
-      for (Int32 iddl = 0; iddl < nddl; iddl++) {
-        for (Int32 iddc = 0; iddc < nddl; iddc++) {
-          fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
-        }
-      }
-      if (fittingResults.fittingAmplitudes.size() != nddl) {
-        Log.LogDebug(Formatter() << " Found nfittedamps(="
-                                 << fittingResults.fittingAmplitudes.size()
-                                 << ") "
-                                    "different than nddl(="
-                                 << nddl << ")");
-      }
+      // amplitudes of this configuration
+      TFloat64List &amplitudes =
+          fittingResults.fittingAmplitudesInterm[kEbmv_][kigm];
+      for (Int32 iddl = 0; iddl < nddl; iddl++)
+        amplitudes[iddl] = C(iddl) * normFactor;
 
       if (chisq < fittingResults.chiSquare) {
+        // save the fitted amps and fitErrors, etc... of the best configuration
+        Float64 a, err2, err, sA = 0, sE = 0;
+        for (Int32 iddl = 0; iddl < nddl; iddl++) {
+          a = C(iddl);
+          err2 = COV(iddl, iddl);
+          err = std::sqrt(err2);
+          fittingResults.fittingAmplitudeErrors[iddl] = err * normFactor;
+          fittingResults.fittingAmplitudeSigmas[iddl] = a / err;
+          sA += a * a;
+          sE += err2;
+
+          // save covariance matrix into MtM
+          for (Int32 iddc = 0; iddc < nddl; iddc++)
+            fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
+        }
+        SNR = std::sqrt(sA / sE);
+        fittingResults.fittingAmplitudes = amplitudes;
         fittingResults.chiSquare = chisq;
         fittingResults.SNR = SNR;
         fittingResults.MeiksinIdx =
-- 
2.43.0


From c8ce91705e1868804faff9967f1b625a86a8eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:58 +0000
Subject: [PATCH 34/52] fix: covariance of the template combination was not in
 the unit of the amplitudes

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index b9b50b8..58113fa 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -319,7 +319,8 @@ void COperatorTplcombination::BasicFit(
 
           // save covariance matrix into MtM
           for (Int32 iddc = 0; iddc < nddl; iddc++)
-            fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
+            fittingResults.COV[iddl][iddc] =
+                COV(iddl, iddc) * normFactor * normFactor;
         }
         SNR = std::sqrt(sA / sE);
         fittingResults.fittingAmplitudes = amplitudes;
-- 
2.43.0


From 4c6cfad9b3e4bfc8cedcac942f23dddc98fb088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:58 +0000
Subject: [PATCH 35/52] fix: model of the template combination had its
 wavelengths redshifted twice

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 58113fa..c9ed5f3 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -647,8 +647,6 @@ COperatorTplcombination::ComputeSpectrumModel(
       modelFlux[k] += amplitudes[iddl] * tmp[k] * extinction[k];
     }
   }
-  modelSpcAxis.ShiftByWaveLength((1.0 + redshift),
-                                 CSpectrumSpectralAxis::nShiftForward);
 
   // Deallocate the rebined template and mask buffers
   m_templatesRebined_bf.clear();
-- 
2.43.0


From 261d458172b99524a420a63b568e3fa192bb70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:58 +0000
Subject: [PATCH 36/52] fix: additional masks were ignored by the template
 combination

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index c9ed5f3..554a0e9 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -191,8 +191,10 @@ void COperatorTplcombination::BasicFit(
     yi = spcFluxAxis[i + kStart] / normFactor;
     ei = spcError[i + kStart] / normFactor;
 
-    gsl_vector_set(y, i, yi);              // y[i] = yi
-    gsl_vector_set(w, i, 1.0 / (ei * ei)); // w[i] = 1/(ei*ei)
+    gsl_vector_set(y, i, yi); // y[i] = yi
+    // w[i] = 1/(ei*ei), masked samples have no weight
+    gsl_vector_set(w, i,
+                   spcMaskAdditional[i + kStart] ? 1.0 / (ei * ei) : 0.0);
   }
   for (Int32 kigm = 0; kigm < nIGM; kigm++) {
     if (igmLoopUseless_WavelengthRange) {
-- 
2.43.0


From 9b721621ce13a7656096266e7577bf210c877af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 37/52] fix: lines of an element whose supports share one
 sample counted it twice

---
 RedshiftLibrary/src/lib/linemodel/element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/element.cpp b/RedshiftLibrary/src/lib/linemodel/element.cpp
index 69a5cb0..f9ab487 100644
--- a/RedshiftLibrary/src/lib/linemodel/element.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/element.cpp
@@ -320,7 +320,7 @@ void CLineModelElement::prepareSupport(
         // compute overlapping region
         Int32 max = std::max(x1, y1);
         Int32 min = std::min(x2, y2);
-        if (max - min < 0) { // case of overlapping
+        if (max - min <= 0) { // case of overlapping
           m_StartNoOverlap[i] = std::min(x1, y1);
           m_EndNoOverlap[i] = std::max(x2, y2);
           m_StartNoOverlap[j] =
@@ -384,7 +384,7 @@ void CLineModelElement::prepareSupport(
         y2 = m_EndNoOverlap[j];
         Int32 max = std::max(x1, y1);
         Int32 min = std::min(x2, y2);
-        if (max - min < 0) {
+        if (max - min <= 0) {
           supportNoOverlap_has_duplicates = true;
           break;
         }
-- 
2.43.0


From 37be1dfab227d569f99028a22a79e682251cd936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 38/52] fix: joint fit of lines with wavelength offsets stopped
 on an invalid spectrum index

---
 RedshiftLibrary/src/lib/linemodel/svdfitter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp b/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
index 0489024..6ee13c7 100644
--- a/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
@@ -301,6 +301,7 @@ void CSvdFitter::fitAmplitudesLinSolveAndLambdaOffset(TInt32List EltsIdx,
     getModel().refreshModelUnderElements(EltsIdx);
 
     sumFit += getModelResidualRmsUnderElements(EltsIdx, false);
+    m_spectraIndex.reset(); // dummy implementation
 
     if (sumFit < bestMerit) {
       bestMerit = sumFit;
-- 
2.43.0


From a67dbed88e9b48c39c16cdcc133114bdb6e27fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 39/52] fix: joint fit of wavelength offsets compared the data
 without continuum to the model with it

---
 RedshiftLibrary/src/lib/linemodel/svdfitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp b/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
index 6ee13c7..ab7938d 100644
--- a/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
@@ -300,7 +300,7 @@ void CSvdFitter::fitAmplitudesLinSolveAndLambdaOffset(TInt32List EltsIdx,
     Float64 sumFit = 0.0;
     getModel().refreshModelUnderElements(EltsIdx);
 
-    sumFit += getModelResidualRmsUnderElements(EltsIdx, false);
+    sumFit += getModelResidualRmsUnderElements(EltsIdx, true);
     m_spectraIndex.reset(); // dummy implementation
 
     if (sumFit < bestMerit) {
-- 
2.43.0


From f558cb65a81d3ddb09368199c32a887cdc6cb0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 40/52] fix: improveBalmerFit stopped on an invalid spectrum
 index

---
 RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
index 452faf0..1962a35 100644
--- a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
@@ -271,6 +271,7 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
     // simulatneous fit with linsolve
     Float64 modelErr_init =
         getModelResidualRmsUnderElements({iElt_lineA}, true);
+    m_spectraIndex.reset(); // dummy implementation
     Float64 ampA = getElementParam()[iElt_lineA]->GetFittedAmplitude(lineA_id);
     Float64 amp_errorA =
         getElementParam()[iElt_lineA]->GetFittedAmplitudeStd(lineA_id);
@@ -301,6 +302,7 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
     getModel().refreshModelUnderElements(eltsIdx);
     Float64 modelErr_withfit =
         getModelResidualRmsUnderElements({iElt_lineA}, true);
+    m_spectraIndex.reset(); // dummy implementation
     if (modelErr_withfit > modelErr_init) {
       Float64 nominal_ampA =
           getElementParam()[iElt_lineA]->GetNominalAmplitude(lineA_id);
-- 
2.43.0


From bce79c39de1a42d2e4dab774fdf4a02a67768e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 41/52] fix: improveBalmerFit compared the joint fit to a model
 that did not contain the first fit

---
 RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
index 1962a35..79c5b2d 100644
--- a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
@@ -268,7 +268,15 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
       continue;
     }
 
+    TInt32List eltsIdx;
+    eltsIdx.push_back(iElt_lineA);
+    eltsIdx.push_back(iElt_lineE);
+    for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
+      eltsIdx.push_back(ilinesMore[imore]);
+    }
+
     // simulatneous fit with linsolve
+    getModel().refreshModelUnderElements(eltsIdx);
     Float64 modelErr_init =
         getModelResidualRmsUnderElements({iElt_lineA}, true);
     m_spectraIndex.reset(); // dummy implementation
@@ -288,12 +296,6 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
       ampErrorsMore.push_back(ampErr);
     }
 
-    TInt32List eltsIdx;
-    eltsIdx.push_back(iElt_lineA);
-    eltsIdx.push_back(iElt_lineE);
-    for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
-      eltsIdx.push_back(ilinesMore[imore]);
-    }
     TFloat64List ampsfitted;
     TFloat64List errorsfitted;
     fitAmplitudesLinSolve(eltsIdx, ampsfitted, errorsfitted, redshift);
-- 
2.43.0


From 4d6679d7d17482cc566a3db930c0a01a22622789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 42/52] fix: improveBalmerFit restored the [NII] amplitudes
 with the nominal amplitude of another line

---
 RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
index 79c5b2d..e03503b 100644
--- a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
@@ -234,17 +234,15 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
 
     // find the linesMore unique elements indexes
     TInt32List ilinesMore;
-    TInt32List linesMoreIds;
     for (Int32 imore = 0; imore < linetagsMore[itag].size(); imore++) {
       std::string tagMore = linetagsMore[itag][imore];
-      auto const &[iElt_lineMore, lineMore_id] =
+      auto const &[iElt_lineMore, _] =
           m_ElementsVector->findElementIndex(tagMore,
                                              CLine::EType::nType_Emission);
       if (iElt_lineMore == undefIdx)
         continue;
 
       ilinesMore.push_back(iElt_lineMore);
-      linesMoreIds.push_back(lineMore_id);
     }
     std::sort(ilinesMore.begin(), ilinesMore.end());
     ilinesMore.erase(std::unique(ilinesMore.begin(), ilinesMore.end()),
@@ -316,8 +314,7 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
                                             amp_errorE / nominal_ampE);
       for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
         Float64 nominal_ampMore =
-            getElementParam()[ilinesMore[imore]]->GetNominalAmplitude(
-                linesMoreIds[imore]);
+            getElementParam()[ilinesMore[imore]]->GetNominalAmplitude(0);
         m_ElementsVector->SetElementAmplitude(
             ilinesMore[imore], ampsMore[imore] / nominal_ampMore,
             ampErrorsMore[imore] / nominal_ampMore);
-- 
2.43.0


From 66b598086f80c08bf03e217d1be4bfc05b65ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:25 +0000
Subject: [PATCH 43/52] fix: the ratio rule sets line amplitudes, not element
 amplitudes

---
 .../src/lib/line/ruleOIIRatioRange.cpp            | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
index 0d1ecc0..58db441 100644
--- a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
+++ b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
@@ -109,6 +109,8 @@ void CRuleRatioRange::Correct(CLMEltListVector &LineModelElementList) {
       LineModelElementList.getElementParam()[iEltB]->GetFittedAmplitudeStd(idB);
   Int32 i1 = iEltA;
   Int32 i2 = iEltB;
+  Int32 id1 = idA;
+  Int32 id2 = idB;
   Float64 amp1 = ampA;
   Float64 er1 = erA;
   Float64 amp2 = ampB;
@@ -124,6 +126,8 @@ void CRuleRatioRange::Correct(CLMEltListVector &LineModelElementList) {
     if (std::abs(ampB) > std::abs(ampA * m_Coefficient)) {
       i1 = iEltB;
       i2 = iEltA;
+      id1 = idB;
+      id2 = idA;
       amp1 = ampB;
       er1 = erB;
       amp2 = ampA;
@@ -154,8 +158,15 @@ void CRuleRatioRange::Correct(CLMEltListVector &LineModelElementList) {
   constructLogMsg(m_LineA, ampA, correctedA);
   constructLogMsg(m_LineB, ampB, correctedB);
 
-  LineModelElementList.SetElementAmplitude(i1, corrected1, er1);
-  LineModelElementList.SetElementAmplitude(i2, corrected2, er2);
+  // the corrected values are line amplitudes, not element amplitudes
+  Float64 const nominal1 =
+      LineModelElementList.getElementParam()[i1]->m_NominalAmplitudes[id1];
+  Float64 const nominal2 =
+      LineModelElementList.getElementParam()[i2]->m_NominalAmplitudes[id2];
+  LineModelElementList.SetElementAmplitude(i1, corrected1 / nominal1,
+                                           er1 / nominal1);
+  LineModelElementList.SetElementAmplitude(i2, corrected2 / nominal2,
+                                           er2 / nominal2);
 }
 
 void CRuleRatioRange::constructLogMsg(const std::string &lineStrA, Float64 ampA,
-- 
2.43.0


From 17ef0f6f26314cef4c4b8a1f40f529713d1ee66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:25 +0000
Subject: [PATCH 44/52] fix: limiting an amplitude leaves the lines outside the
 lambda range without amplitude

---
 RedshiftLibrary/src/lib/linemodel/elementparam.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/linemodel/elementparam.cpp b/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
index a65b8ba..d4005f3 100644
--- a/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
@@ -253,6 +253,8 @@ bool TLineModelElementParam::LimitFittedAmplitude(Int32 line_index,
     Float64 amplitudeRef =
         GetFittedAmplitude(line_index) / m_NominalAmplitudes[line_index];
     for (Int32 index = 0; index != size(); ++index) {
+      if (std::isnan(m_FittedAmplitudes[index]))
+        continue; // line outside lambda range
       m_FittedAmplitudes[index] = m_NominalAmplitudes[index] * amplitudeRef;
     }
   }
-- 
2.43.0


From f358c8840e00f724fce783909a7cbc75f6b8aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:41 +0000
Subject: [PATCH 45/52] fix: the documented filter instruction ~^ was refused

---
 pylibamazed/python/pylibamazed/Filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/Filter.py b/pylibamazed/python/pylibamazed/Filter.py
index 868da36..eec4be5 100644
--- a/pylibamazed/python/pylibamazed/Filter.py
+++ b/pylibamazed/python/pylibamazed/Filter.py
@@ -53,7 +53,7 @@ class FilterItem:
     - value: with which value we want to make the comparison
     """
 
-    allowed_instructions = ["<", ">", "<=", ">=", "=", "in", "~in", "!=", "&", "~&", "0&", "^"]
+    allowed_instructions = ["<", ">", "<=", ">=", "=", "in", "~in", "!=", "&", "~&", "0&", "^", "~^"]
 
     def __init__(self, key: str, instruction: str, value: any):
         self.check_instruction(instruction)
-- 
2.43.0


From ac7ed612a47d63f7bd463077f75a4f0289ed60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:09 +0000
Subject: [PATCH 46/52] fix: the classification ran after every redshift solver
 had failed when a model has no redshift solver

---
 pylibamazed/python/pylibamazed/ProcessFlow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ProcessFlow.py b/pylibamazed/python/pylibamazed/ProcessFlow.py
index f146f5c..228f9a8 100644
--- a/pylibamazed/python/pylibamazed/ProcessFlow.py
+++ b/pylibamazed/python/pylibamazed/ProcessFlow.py
@@ -267,7 +267,8 @@ class ProcessFlow:
     def all_redshift_solver_failed(self, rso):
         answer = True
         for obj in self.parameters.get_spectrum_models():
-            if not rso.has_error(obj, "redshiftSolver"):
+            if self.parameters.get_redshift_solver_method(obj) is not None \
+                    and not rso.has_error(obj, "redshiftSolver"):
                 answer = False
                 break
         return answer
-- 
2.43.0


From 4805c33080d343aa8a43e7d184a58590a72a59c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:09 +0000
Subject: [PATCH 47/52] fix: incompatible line measurement options raised
 AttributeError instead of the error code

---
 pylibamazed/python/pylibamazed/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/Parameters.py b/pylibamazed/python/pylibamazed/Parameters.py
index cae312d..896e6a2 100644
--- a/pylibamazed/python/pylibamazed/Parameters.py
+++ b/pylibamazed/python/pylibamazed/Parameters.py
@@ -213,7 +213,7 @@ class Parameters(ParametersAccessor):
             if method == "lineModelSolve":
                 if self.get_linemeas_method(spectrum_model):
                     raise APIException(
-                        ErrorCode.INCOHERENT_CONFIG_OPTION,
+                        ErrorCode.INCOHERENT_CONFIG_OPTIONS,
                         "Cannot run LineMeasSolve from catalog when sequencial processing is selected"
                         "simultaneously."
                     )
-- 
2.43.0


From 51408a5a56882e369335f36f8fe33fa6c2ba1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:09 +0000
Subject: [PATCH 48/52] fix: the lower lambda limit of several observations was
 at most 3 angstroms

---
 pylibamazed/python/pylibamazed/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/Parameters.py b/pylibamazed/python/pylibamazed/Parameters.py
index 896e6a2..c1c510c 100644
--- a/pylibamazed/python/pylibamazed/Parameters.py
+++ b/pylibamazed/python/pylibamazed/Parameters.py
@@ -222,7 +222,7 @@ class Parameters(ParametersAccessor):
         if self.get_multiobs_method() != "full":
             return self.get_lambda_range()[0]
         else:
-            ret = 10 ^ 9
+            ret = float("inf")
             for obs_id in self.get_observation_ids():
                 cur = self.get_lambda_range(obs_id)[0]
                 if cur < ret:
-- 
2.43.0


From b572aae8f4759b57be4e72ef2f07d26344b0ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:09 +0000
Subject: [PATCH 49/52] fix: the upper lambda limit was the lower one

---
 pylibamazed/python/pylibamazed/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/Parameters.py b/pylibamazed/python/pylibamazed/Parameters.py
index c1c510c..0a459dc 100644
--- a/pylibamazed/python/pylibamazed/Parameters.py
+++ b/pylibamazed/python/pylibamazed/Parameters.py
@@ -231,7 +231,7 @@ class Parameters(ParametersAccessor):
 
     def get_lambda_range_max(self):
         if self.get_multiobs_method() != "full":
-            return self.get_lambda_range()[0]
+            return self.get_lambda_range()[1]
         else:
             ret = 0
             for obs_id in self.get_observation_ids():
-- 
2.43.0


From 4fba414f27b9abd7f8e8eb2e7ee6b2ff9977c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:09 +0000
Subject: [PATCH 50/52] fix: sourceSize was not checked for the lsf type that
 needs it

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index bec4140..3962a7f 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -178,7 +178,7 @@ class ParametersChecker:
 
     def _check_GaussianNISPSIM_lsf_type(self):
         self._check_dependant_parameter_presence(
-            self.accessor.get_lsf_type() == "GaussianNISPSIM201707",
+            self.accessor.get_lsf_type() in ["gaussianNISPVSSPSF201707", "GaussianNISPSIM201707"],
             self.accessor.get_lsf_sourcesize() is not None,
             "lsf sourceSize",
             "lsf sourceSize"
-- 
2.43.0


From 81ed8a07675f61ee31fb084a05bfa437948fd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:09 +0000
Subject: [PATCH 51/52] fix: medianEvenReflection false was refused as missing

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 3962a7f..019184f 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -270,7 +270,7 @@ class ParametersChecker:
     def _check_IrregularSamplingMedian_kernel_width(self, fromTemplateCatalog=False):
         self._check_dependant_parameter_presence(
             self.median_kernel_presence_condition(fromTemplateCatalog),
-            self.accessor.get_continuum_removal_median_kernel_width(fromTemplateCatalog),
+            self.accessor.get_continuum_removal_median_kernel_width(fromTemplateCatalog) is not None,
             "continuumRemoval medianKernelWidth",
             "continuumRemoval medianKernelWidth"
         )
@@ -278,7 +278,7 @@ class ParametersChecker:
     def _check_IrregularSamplingMedian_kernel_reflection(self, fromTemplateCatalog=False):
         self._check_dependant_parameter_presence(
             self.median_kernel_presence_condition(fromTemplateCatalog),
-            self.accessor.get_continuum_median_kernel_reflection(fromTemplateCatalog),
+            self.accessor.get_continuum_median_kernel_reflection(fromTemplateCatalog) is not None,
             "continuumRemoval medianEvenReflection",
             "continuumRemoval medianEvenReflection"
         )
-- 
2.43.0


From 63ffe11e00b19d720d71434e97eb80f4490fe733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:06 +0000
Subject: [PATCH 52/52] fix: a hybrid fit without continuumReestimation was
 accepted and then failed in the core

---
 pylibamazed/python/pylibamazed/ParametersExtender.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersExtender.py b/pylibamazed/python/pylibamazed/ParametersExtender.py
index a9948eb..c7a1e7c 100644
--- a/pylibamazed/python/pylibamazed/ParametersExtender.py
+++ b/pylibamazed/python/pylibamazed/ParametersExtender.py
@@ -92,7 +92,8 @@ class ParametersExtender:
 
     def _extend_continuum_reestimation(self):
         for spectrum_model in self.initial_accessor.get_spectrum_models([]):
-            is_present = self.checker.linemodelsolve_continuumreestimation_presence_condition(spectrum_model)
+            is_present = self.checker.linemodelsolve_continuumreestimation_presence_condition(spectrum_model) \
+                and self.initial_accessor.get_linemodel_continuum_reestimation(spectrum_model) is not None
             if not is_present:
                 self.extended_accessor.get_linemodel_solve_linemodel_section(True)
                 self.extended_accessor.get_linemodel_solve_linemodel_section(spectrum_model, True)[
-- 
2.43.0

