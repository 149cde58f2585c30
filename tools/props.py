"""The properties; tools/gen.py turns this into properties.jsonl and MANIFEST.json."""
L = "RedshiftLibrary/src/lib/"
P = []


def prop(id, title, statement, text, why, files, mech, note=None, na=None, over=("inputs",), technique=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, note=note, na=na, over=list(over), technique=technique))


prop("P01", "Redshift grids are regular, inside the range and complete",
     "For every redshift range, step, optional centre and sampling law (linear or logarithmic) the generated grid is strictly increasing, stays inside the requested range, has a constant step, contains the centre if one is given and leaves no uncovered gap larger than one step at either end. Merging refined windows into a coarse grid yields one strictly increasing grid that spans the full range, contains the refined samples and keeps every coarse sample outside the windows.",
     "all real range limits, centres and window positions within a bounded number of steps; linear and logarithmic sampling",
     "Existing tests sample a few ranges; rounding at the ends, the centred construction and windows clipped by the range depend on the exact real positions.",
     [L + "common/zgridparam.cpp", "RedshiftLibrary/RedshiftLibrary/common/zgridparam.h", "RedshiftLibrary/RedshiftLibrary/common/range.h"],
     [("centred and uncentred grid generation", "common/zgridparam.cpp getZGrid"), ("grid merging", "common/zgridparam.cpp insertSubgrid")],
     "every path of the instrumented grid code decided by Z3 over real inputs; grids of at most KMAX steps, merges of at most two windows; floating-point rounding is outside the claim")
prop("P02", "Closed index ranges select exactly the samples inside a value range",
     "For every strictly increasing axis and every value range, the index interval reported for a closed (or enclosing, or masked) selection contains exactly the samples inside the range, or is reported empty when there are none. Intersections and unions of ranges contain exactly the points of both, respectively either, operand.",
     "all strictly increasing axes of bounded length and all real range limits",
     "Off-by-one errors show only for limits that coincide with, or fall between, particular samples.",
     ["RedshiftLibrary/RedshiftLibrary/common/range.h"],
     [("closed and enclosing interval search", "common/range.h getClosedIntervalIndices, getEnclosingIntervalIndices")],
     "every path decided by Z3 over arbitrary real axes of bounded length")
prop("P03", "Redshift candidates are exactly the separated local maxima of the merit",
     "For every merit curve, the reported candidates are local maxima of the curve in decreasing merit order, no local maximum is missed before selection, and each plateau gives one candidate. After selection at most the requested number remain, the best peak is always kept, kept candidates respect the redshift separation and the merit cut, and every peak left out is beaten by a kept one or excluded by a limit.",
     "all real merit values (every weak ordering, undefined values at the ends) and all real redshift positions on grids of bounded length; all selection settings",
     "The result depends on the ordering of all values, on ties and on plateaus; tests hold a few hand-made curves.",
     [L + "extremum/extremum.cpp", "RedshiftLibrary/RedshiftLibrary/extremum/extremum.h"],
     [("peak search", "extremum/extremum.cpp FindAllPeaks"), ("separation, cut and count limits", "extremum/extremum.cpp Find")],
     "every path of the instrumented peak search decided by Z3; up to 5 (quick) or 7 (thorough) samples")
prop("P04", "The redshift posterior is normalised and combines the models as stated",
     "For every set of model merits, redshift priors and model priors, the combined redshift probability density integrates to one over the redshift grid or the computation reports a flat density. It is the prior-weighted mixture of the model posteriors for marginalisation, and proportional to the best model's likelihood or posterior at each redshift for the other two combination modes; the reported evidence equals the integral of the unnormalised mixture.",
     "all real merits, priors and model weights for bounded numbers of redshifts and models; three combination modes",
     "Log-sum-exp shifts, border weights and missing priors matter for particular magnitudes and positions of the maximum; tests check a few flat curves.",
     [L + "operator/pdfz.cpp", "RedshiftLibrary/RedshiftLibrary/operator/pdfz.h", L + "operator/logZPdfResult.cpp"],
     [("combination", "operator/pdfz.cpp Marginalize, BestChi2, BestProba"), ("integration", "operator/pdfz.cpp logSumExpTrick, checkPdfSum")],
     "every path decided over real arithmetic with exact exp/log; 3-4 redshift samples and 1-2 models")
prop("P05", "Candidate integration windows are disjoint and probabilities well ranked",
     "For every set of redshift candidates and window half-widths, the candidates kept are those not duplicated by a better one; their integration windows contain the candidate, lie inside the range and do not overlap, so no probability is counted twice. The reported probability of a candidate is the integral of the posterior over its window, never more than one in total, and candidates come out ranked by decreasing probability. The redshift uncertainty derived around a peak is the Gaussian width that the local curvature implies.",
     "all real candidate positions and window widths for up to three candidates; all posterior values on bounded grids",
     "Overlaps appear only for particular relative positions of several candidates; tests place candidates by hand.",
     [L + "statistics/pdfcandidatesz.cpp", L + "statistics/deltaz.cpp"],
     [("window construction", "statistics/pdfcandidatesz.cpp SetIntegrationRanges"), ("integration and ranking", "statistics/pdfcandidatesz.cpp getCandidateSumTrapez, Compute"), ("uncertainty", "statistics/deltaz.cpp")],
     "every path decided by Z3 over real arithmetic; up to 3 candidates, grids of bounded length; the Gaussian-fit option (GSL nonlinear solver) is outside the claim")
prop("P06", "Redshift priors are normalised log-probabilities that combine additively",
     "For every redshift grid, a constant prior gives each redshift the same log-probability, a strong-line-presence or emission-line-count prior gives the redshifts that satisfy it exactly the configured ratio over the others, a euclid-volume prior follows its formula, and combining priors adds their logs and renormalises so that the result integrates to one.",
     "all real grids, flags and factor values for bounded grid lengths",
     "Normalisation depends on all the samples together; tests check single configurations.",
     [L + "statistics/zprior.cpp", "RedshiftLibrary/RedshiftLibrary/statistics/zprior.h"],
     [("prior construction", "statistics/zprior.cpp"), ("combination", "statistics/zprior.cpp CombineLogZPrior")],
     "every path decided over real arithmetic with exact exp/log; N redshift samples")
prop("P07", "Posterior grid conversions keep the probability values",
     "Rebuilding the full mixed redshift grid from its stored description gives the recorded grid; converting a posterior to the regular coarse or fine grid gives exactly the grid it claims, keeps the value at every redshift both grids hold, interpolates linearly elsewhere, and isRegular tells the two forms apart.",
     "all real posterior values, grid descriptions with up to two refined windows",
     "Indexing errors show for particular numbers and positions of refined windows only.",
     [L + "operator/logZPdfResult.cpp", L + "common/zgridparam.cpp"],
     [("grid rebuilding", "operator/logZPdfResult.cpp"), ("conversion", "operator/logZPdfResult.cpp convertToRegular")],
     "every path decided by Z3; up to two refined windows of bounded size")
prop("P08", "Spectral axis queries and cached properties are right after any history",
     "After any sequence of scaling, offset, masking, extraction, resizing and assignment, a spectral axis answers 'sorted' only if its wavelengths strictly increase and 'log-sampled' only if their log steps are constant, with a step that spans the axis. Index lookups, masks, overlap fractions, resolutions, clamping, shifting and sub-sampling select exactly the samples their definition names, for every wavelength and range.",
     "all histories of bounded length over axes of bounded length with arbitrary real wavelengths; all ranges and masks",
     "A stale cached answer needs a specific order of operations; lookups fail only at coinciding limits.",
     [L + "spectrum/spectralaxis.cpp", L + "spectrum/axis.cpp", "RedshiftLibrary/RedshiftLibrary/spectrum/spectralaxis.h"],
     [("cached properties", "spectrum/spectralaxis.cpp isSorted, CheckLoglambdaSampling, ApplyOffset, MaskAxis, SetSize"), ("queries", "spectrum/spectralaxis.cpp GetIndexAtWaveLength, GetMask, ClampLambdaRange, GetSubSamplingMask")],
     "every path decided by Z3; histories of up to 2 (quick) or 3 (thorough) operations on axes of up to 4 samples; a negative answer inherited from a larger axis is accepted (conservative)")
prop("P09", "Spectrum validation, correction and copies keep every component consistent",
     "For every flux and noise content, a spectrum is refused exactly when some sample of the wavelength range is undefined, non-positive in noise or carries no flux at all; a correction repairs precisely the invalid samples of the range and leaves the others. After any history of scaling, inversion, flux or continuum replacement, copies, moves, masks and extracts carry the same wavelengths, flux, noise, continuum, settings, photometry and observation id, and continuum plus continuum-free flux is the flux.",
     "all real flux, noise and range values (and undefined values at any sample) on axes of bounded length; all histories of bounded length",
     "Validity must hold at every position including the limits; a lost component shows only after particular sequences of operations.",
     [L + "spectrum/spectrum.cpp", L + "spectrum/fluxaxis.cpp", L + "spectrum/noiseaxis.cpp"],
     [("validation and correction", "spectrum/spectrum.cpp ValidateFlux, ValidateNoise, correctSpectrum"), ("copies and masks", "spectrum/spectrum.cpp constructors, extract, operator=")],
     "every path decided by Z3; 3-4 samples, histories of up to 3 operations")
prop("P26", "Median, mean and smoothing utilities return the statistics they name",
     "For every list of values, the median is the value of middle rank (the mean of the two middle ones for an even count), the mean is the mean, and the input is unchanged. Running means and medians replace each sample with the statistic of exactly the samples of its window, and masked means, deviations, extrema and integrals use exactly the selected samples.",
     "all lists of real values up to a bounded length; all window sizes, masks and ranges on them",
     "Selection networks and partial sorts must be right for every ordering of the values, ties included; tests use a few lists.",
     ["RedshiftLibrary/RedshiftLibrary/common/median.h", "RedshiftLibrary/RedshiftLibrary/common/mean.h", L + "spectrum/fluxaxis.cpp"],
     [("median and mean", "common/median.h, common/mean.h"), ("smoothing and statistics", "spectrum/fluxaxis.cpp, spectrum/spectrum.cpp")],
     "every path decided by Z3; lists of up to 9 values (odd) or 6 (quick) and 8 (thorough) values (even)")
prop("P10", "Rebinning interpolates the current flux inside the range, masks the rest",
     "Rebinning a spectrum onto any target axis gives, for each target inside the range, exactly the value its method names (linear interpolation, nearest sample, natural spline, or the nearest node of the fine grid) of the flux the spectrum currently has, with the matching noise when asked. It flags those samples and no sample outside the source axis, and leaves masked samples null with infinite noise, whatever was done to the spectrum or its interpolation setting before.",
     "all real flux and noise values, increasing target axes and ranges; all histories of bounded length",
     "A stale precomputed grid needs a particular history; border targets need particular positions.",
     [L + "spectrum/rebin/rebin.cpp", L + "spectrum/rebin/rebinLinear.cpp", L + "spectrum/rebin/rebinFineGrid.cpp", L + "spectrum/rebin/rebinNgp.cpp", L + "spectrum/rebin/rebinSpline.cpp"],
     [("rebinning", "spectrum/rebin/*.cpp"), ("grid reset", "spectrum/spectrum.cpp")],
     "every path decided by Z3; 3-4 source samples, up to 3 (quick) or 4 (thorough) targets, histories of 2 or 3 operations; GSL's natural spline is encoded from its documentation; linear interpolation may extend one source step beyond the range end (as the code does)")
prop("P11", "Median continuum removal is finite, bounded and scales with the flux",
     "For every flux and window width, the estimated continuum is defined at each sample, adds up with the continuum-free flux to the flux, and leaves null borders alone. With even reflection it stays within the range of the flux, scales with it and does not depend on its direction; a flat flux is its own continuum, and a feature narrower than the window leaves the continuum of a flat flux flat.",
     "one or two arbitrary real samples at any position on flat, sloped or null-bordered backgrounds of bounded length; all window widths in a bounded range",
     "Window and reflection borders interact for particular lengths and widths only; a test looks at one spectrum.",
     [L + "continuum/irregularsamplingmedian.cpp", L + "spectrum/spectrum.cpp"],
     [("continuum", "continuum/irregularsamplingmedian.cpp"), ("components", "spectrum/spectrum.cpp EstimateContinuum")],
     "every path decided by Z3; 12-16 samples of which one or two are symbolic; with odd reflection only definedness, the sum and the flat case are claimed")
prop("P15", "Air and vacuum wavelengths are exact inverses under every convention",
     "For every supported convention, converting a vacuum wavelength to air divides it by the convention's refractive index, converting it back returns the same wavelength to the stated precision, and the order of wavelengths is preserved. An unknown convention and a wavelength out of the range of definition are refused.",
     "all wavelengths in the range of definition of each of the six conventions",
     "The inversion is iterative: whether it converges for every wavelength cannot be sampled.",
     [L + "line/airvacuum.cpp", "RedshiftLibrary/RedshiftLibrary/line/airvacuum.h"],
     [("conversions", "line/airvacuum.cpp VacToAir, AirToVac"), ("factory", "line/airvacuum.cpp CAirVacuumConverter::Get")],
     "every path decided by Z3; all conventions; single wavelengths and pairs")
prop("P16", "Line profiles and spread functions have the shape and derivatives of their kind",
     "Every line profile has the value, peak, area and support of its kind and its derivatives with centre and width are those of its value, also after conversion between the fixed and fitted forms; undefined parameters are refused. Line spread functions give the width their model defines at every wavelength (clipped when asked), refuse widths that are not positive or undefined, and the normalised kernel is proportional to the profile and sums to one.",
     "all positions, centres, widths, skewness and shifts; all width tables of bounded length",
     "A wrong term in a derivative only degrades a fit; an undefined parameter must be caught wherever it is.",
     [L + "line/lineprofileSYM.cpp", L + "line/lineprofileLOR.cpp", L + "line/lineprofileASYM.cpp", L + "line/lineprofileASYMFIT.cpp", L + "spectrum/LSF.cpp", L + "spectrum/LSFVariableWidth.cpp", L + "spectrum/LSFConstantResolution.cpp"],
     [("profiles", "line/lineprofile*.cpp"), ("line spread functions", "spectrum/LSF*.cpp")],
     "every path decided by Z3 with exp and erf uninterpreted (congruence, range, exp(a)exp(b) = exp(a+b)); skewness takes three values for the mode centring; tables of up to 3 widths")
prop("P12", "Template fit returns the least-squares optimum over every configuration tried",
     "For every spectrum (or set of spectra), mask, redshift and option, the fit returns for each dust and IGM configuration the minimum over the amplitude (with its prior when given) of the sum over the samples used of ((flux - amplitude x template) / noise)^2, and as result the configuration of least chi2 with its own amplitude, significance and sums; the amplitude is null exactly when below the significance asked; the IGM is fitted exactly when in range. The constant of the likelihood is that of the samples used. The model of a solution is the redshifted, reddened, absorbed and scaled template, refused only when the overlap is too small.",
     "all fluxes, masks, dust and IGM configurations, priors on or off, redshifts on both sides of every range limit",
     "The IGM shortcut, the masks, the ranges and the number of spectra combine; a test fits one spectrum at a few redshifts.",
     [L + "operator/templatefitting.cpp", L + "operator/templatefittingBase.cpp", L + "operator/templatefittingresult.cpp"],
     [("fit", "operator/templatefitting.cpp BasicFit, ComputeCrossProducts, ComputeAmplitudeAndChi2"), ("model", "operator/templatefittingBase.cpp ComputeSpectrumModel, RebinTemplate")],
     "every path decided by Z3; 1-2 spectra of 4 samples, templates of fixed flux, 2x2 configurations")
prop("P20", "Photometric bands enter the fit with the weight of their errors",
     "The flux of a band is the photon-weighted mean of the flux density per Hz: linear in the flux and equal to it when constant, whatever the sampling. Bands are listed once, by increasing lower limit. A fit with photometry minimises the sum of the spectroscopic chi2 and of the weighted photometric one, for every dust and IGM configuration, reports the photometric part, the normalisation of the corresponding likelihood and the band fluxes of the scaled model, and is refused when a band has no data or no transmission.",
     "all transmissions, fluxes, wavelengths, band orders, weights and redshifts on both sides of the limits",
     "Which bands the IGM shortcut covers depends on the redshift and on the order of the bands.",
     [L + "photometry/photometricband.cpp", L + "photometry/photometricdata.cpp", L + "operator/templatefittingwithphot.cpp"],
     [("bands", "photometry/photometricband.cpp"), ("fit", "operator/templatefittingwithphot.cpp")],
     "every path decided by Z3; bands of up to 4-6 wavelengths, fits of 3 samples and 2 bands")
prop("P21", "Dust and IGM corrections of a template are exact, reversible and history-free",
     "After any history of initialisations, corrections, amplitudes, copies, moves and masks, the flux of a template is the original flux, scaled, times the dust and IGM coefficients last asked for within the range initialised, and 1 outside it; the last sample subject to the IGM and the coefficients kept agree with it; what is not initialised is refused. The coefficients are those of the curves at the nearest tabulated wavelength and redshift, within and outside their limits.",
     "all histories up to a bounded length over arbitrary fluxes, wavelengths and curves",
     "The corrections are applied incrementally: only sequences of operations reveal a stale coefficient.",
     [L + "spectrum/template/template.cpp", L + "spectrum/fluxcorrectionmeiksin.cpp", L + "spectrum/fluxcorrectioncalzetti.cpp"],
     [("template", "spectrum/template/template.cpp"), ("curves", "spectrum/fluxcorrectionmeiksin.cpp, fluxcorrectioncalzetti.cpp")],
     "every path decided by Z3; histories of 3 (thorough 4) operations")
prop("P13", "Template combination returns the joint least-squares optimum and its covariance",
     "For every spectrum, set of templates, mask, redshift list and option, the combination fit returns for each dust and IGM configuration the minimum over the amplitudes of the sum over the unmasked samples in range of ((flux - sum of amplitude x template) / noise)^2, and as result the configuration of least chi2 with its own amplitudes, errors, significances and covariance, in flux units. Results come by increasing redshift, each with its own mask. The model of a solution is the fitted combination in the observed frame. A redshift without enough overlap is refused.",
     "all fluxes, masks, dust and IGM configurations, one to three templates, redshifts on both sides of every limit",
     "Configurations, masks and redshift order combine; the existing tests check one chi2 curve.",
     [L + "operator/tplcombination.cpp", "RedshiftLibrary/RedshiftLibrary/operator/tplcombinationresult.h"],
     [("joint fit", "operator/tplcombination.cpp BasicFit"), ("order, masks", "operator/tplcombination.cpp Compute"), ("model", "operator/tplcombination.cpp ComputeSpectrumModel")],
     "every path decided by Z3; 5 samples, up to 2 (thorough 3) templates of fixed flux; GSL's weighted least squares modelled by the normal equations")
prop("P18", "Line amplitudes are the non-negative least-squares fit over the lines' supports",
     "A line is fitted exactly when its window is in the wavelength range; lines of one amplitude group whose supports share a sample are modelled together there, once per sample. Each fitter returns the least-squares amplitudes (per group, or jointly for the groups fitted together) over the samples of all observations: never negative, the negative ones null and the others fitted again, absorptions at most complete, with their own deviation and the wavelength offset that explains the data best. Lines outside have none. The model is the continuum plus the lines over their supports; the Balmer refit is kept only when it improves.",
     "all fluxes, redshifts, velocity offsets and ranges; several layouts of emission and absorption lines; one or two observations",
     "Supports merge in chains, touch or leave the range only for particular redshifts; sign constraints depend on the data.",
     [L + "linemodel/element.cpp", L + "linemodel/abstractfitter.cpp", L + "linemodel/svdfitter.cpp", L + "linemodel/hybridfitter.cpp", L + "linemodel/spectrummodel.cpp"],
     [("supports", "linemodel/element.cpp prepareSupport, EstimateIndexRange"), ("fits", "linemodel/abstractfitter.cpp fitAmplitude, svdfitter.cpp, hybridfitter.cpp"), ("model", "linemodel/spectrummodel.cpp refreshModel")],
     "every path decided by Z3; grids of 10-17 samples with up to 3 symbolic fluxes, 2-5 lines; GSL's weighted least squares modelled by the normal equations; symmetric profiles; no polynomial amplitude offsets")
prop("P17", "Line-ratio rules limit amplitudes exactly as stated and keep group ratios",
     "The rules act only on observed lines and, for the Balmer and doublet rules, lines fitted alone. A Balmer line stronger than the stated multiple of the stronger line is brought down to it. A doublet outside its allowed ratio gets the limiting ratio, with the level closest to both measurements given their uncertainties. A weak line never exceeds the weakest observed strong line of its type plus that line's deviation. A limited line takes its amplitude group along in fixed ratios; lines outside the wavelength range keep no amplitude; everything else is unchanged.",
     "all amplitudes and deviations of the lines, all redshifts that move lines in or out of the range; one or two observations",
     "The rules correct one line from another: an error shows only for particular orders of amplitudes, missing lines or groups.",
     [L + "line/rule2singlelinesamplitude.cpp", L + "line/ruleOIIRatioRange.cpp", L + "line/ruleStrongHigherThanWeak.cpp", L + "line/regulament.cpp", L + "linemodel/elementparam.cpp"],
     [("rules", "line/rule*.cpp Correct"), ("limits", "linemodel/elementparam.cpp LimitFittedAmplitude, SetElementAmplitude")],
     "every path decided by Z3; 2 to 5 lines, symbolic amplitudes and deviations; an absorption version of the Balmer rules is never created by the regulament and is not exercised")
prop("P19", "The chosen line-ratio catalogue is the one that fits the spectrum best",
     "For each line-ratio catalogue (emission lines, plain or attenuated by dust) the amplitudes are the non-negative least-squares ones and the merit is the chi-square of the model. The reported catalogue, attenuation, amplitudes, strong-line flags, solution and final model are those of the smallest merit. A first pass without attenuation copies its results to every attenuation. A previous fit leaves no trace in the next.",
     "all fluxes, for two line-ratio catalogues with and without attenuation, one or two element groups, one or two fits in sequence",
     "The best of many fits is kept in saved arrays and restored; a wrong index shows only when that catalogue wins.",
     [L + "linemodel/tplratiomanager.cpp", L + "line/catalogsTplRatio.cpp", L + "linemodel/linemodelfitting.cpp", L + "linemodel/lineratiomanager.cpp"],
     [("ratio loop", "linemodel/tplratiomanager.cpp computeMerit, saveResults, finish"), ("model", "linemodel/linemodelfitting.cpp fit")],
     "every path decided by Z3 within the time limit (a few queries in thousands stay unknown: both sides are then explored); no line priors; individual fitter; 2 symbolic fluxes")
Y = "pylibamazed/python/pylibamazed/"
prop("P23", "What the reader hands to the library is exactly what the source provides",
     "For every observation (merged, kept apart or single) the spectrum given to the library holds exactly the samples that pass the filters of that observation, sorted by wavelength, with their own flux and error; merged observations lose no sample and get distinct wavelengths moved by a negligible amount. A warning is given exactly when the range asked for is not covered by the data of an observation. The spread function is the one the parameters or the data define. Wavelengths in air are converted with the method asked for. The photometry is that of the source, and inconsistent columns, names or wavelengths are refused with their error.",
     "all wavelengths (equal ones included), fluxes, errors and filters; all multi-observation and spread-function options",
     "Merging, sorting and filtering permute several columns together: a row goes astray only for some orders and some filters.",
     [Y + "AbstractSpectrumReader.py", Y + "Filter.py", Y + "lsf.py", Y + "Container.py"],
     [("reader", "AbstractSpectrumReader.py get_spectrum, init, _merge_spectrum_in_dataframe"), ("spread function", "lsf.py")],
     "every path of the real Python code decided by Z3 with numpy and pandas modelled on symbolic columns; up to 2 observations of 2-3 samples")
prop("P24", "An error stays in its stage: everything else is processed as usual",
     "Whatever stage fails, and with whatever error, the run of a spectrum ends with a result. The error is recorded for that model and stage with its code and message; stages that depend on it are recorded as not run for that reason, and every other stage of every model is executed in order, in its own scope, as if nothing had failed. The classification runs exactly when a redshift solver of some model succeeded. The scope is empty afterwards, a spectrum processed next is not affected, and incompatible options are refused.",
     "every combination of failing stages and kinds of error, models, solvers and options within the bounds",
     "Stages fail rarely and one at a time in tests: dependencies show only for combinations of failures and options.",
     [Y + "ProcessFlow.py", Y + "ScopeManager.py", Y + "ResultStoreOutput.py", Y + "Exception.py"],
     [("stages", "ProcessFlow.py run"), ("errors", "ScopeManager.py, Exception.py, AbstractOutput.py store_error")],
     "every combination explored with symbolic choices decided by Z3; two (thorough three) models, two spectra in sequence; C++ solvers replaced by stand-ins")
prop("P25", "A filter keeps exactly the samples that satisfy every stated condition",
     "The filters of an observation keep exactly the samples for which every condition holds (comparison, bit mask and its negation, in or out of a list or range) on the column it names, whatever their number, order and repetition; all columns of a sample stay together. Every documented instruction is accepted; an unknown instruction or column is refused with its error.",
     "all column values, comparison values, bit masks and lists; up to three filters",
     "Filters combine: several on one column, bit masks with several bits, limits equal to the value.",
     [Y + "Filter.py", Y + "FilterLoader.py"],
     [("filters", "Filter.py SpectrumFilterItem.compliant_lines, FilterList.apply"), ("loading", "FilterLoader.py")],
     "every path of the real Python code decided by Z3 over reals and 8-bit words; columns of 2-3 values")
prop("P22", "A configuration is accepted exactly when complete, and completed by the defaults",
     "A configuration of valid types is accepted exactly when every parameter its options need is given and no options exclude each other; otherwise it is refused with an error that names what is wrong. A warning is given for each parameter given but not used, and no other. An accepted configuration is then completed with the documented defaults so that the core finds what it reads: what is used keeps the value of the user, nothing else changes, and the input is not modified. Older formats are converted to the same tree. Methods, stages and ranges of every model and observation are read from it consistently.",
     "all combinations of the options of each group, each parameter given or not, for one or two spectrum models; all extrema counts and wavelength ranges",
     "Needs depend on combinations of options of several sections and models; tests check each dependency alone.",
     [Y + "ParametersChecker.py", Y + "ParametersExtender.py", Y + "ParametersAccessor.py", Y + "ParametersConverter.py", Y + "Parameters.py"],
     [("check", "ParametersChecker.py custom_check"), ("completion", "ParametersExtender.py extend"), ("reading", "ParametersAccessor.py, Parameters.py"), ("conversion", "ParametersConverter.py")],
     "every combination explored with symbolic options decided by Z3 against a table of needs written from the documentation; options of different groups are not combined; JSON schema not covered")
