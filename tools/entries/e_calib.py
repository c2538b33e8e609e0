MC = "bounded exhaustive enumeration of executions of the real code against a reference model"
prop("C20", "EMOS applies the fitted distribution; estimates score no worse than the guess",
     """Applying EMOS gives, at every point, the normal or zero-truncated normal distribution with location alpha + sum of beta times the ensemble mean and
     additional predictors (or beta squared times each member) and scale sqrt(gamma^2 + delta^2 * variance), with one set of coefficients or one per point.
     The output is in the form of the input - realizations in the raw rank order, percentiles, probabilities - or that
     of a probability template or requested percentiles, with its metadata; sea points keep the input. Coefficients are refused for another diagnostic,
     cycle hour, forecast period (rounded up to hours, unless tolerated) or domain, or if they disagree on the distribution. Without coefficients, or at other
     validity times, the forecast (or template) comes back with a warning comment. The estimated coefficients come from exactly the forecast and truth pairs of
     equal validity time on land, minimise the mean CRPS and score no worse than the first guess; insufficient training data is refused. Inputs of a command are told apart
     in any order, and none of the inputs is changed.""",
     ["inputs", "configurations", "histories"],
     "720 applications (predictors x pointwise x distributions x forms x masks x coefficients), 129 matching cases, 210 command runs, 80 estimations, every presence pattern of pairs, every order of up to 4-5 command inputs",
     "Tests compare tabulated values for one cube per form; masks with predictors, gridded pointwise coefficients, cell methods and input orders are not combined.",
     ["improver/calibration/ensemble_calibration.py", "improver/calibration/utilities.py", "improver/calibration/__init__.py", "improver/cli/apply_emos_coefficients.py"],
     [{"name": "ApplyEMOS, CalibratedForecastDistributionParameters, EstimateCoefficientsForEnsembleCalibration, ContinuousRankedProbabilityScoreMinimisers", "where": "improver/calibration"}],
     MC, "Scores are checked against numerical integration; statsmodels is not installed, least squares by numpy stands in for it.")
prop("C21", "Reliability tables count every matched pair once, and calibration follows them",
     """Probability bins tile [0, 1]. A reliability table holds, per threshold, bin and point, exactly the number of forecasts, the sum of their probabilities
     and the number of observed events over all forecast and truth pairs that are present; a point is masked only if it never has a truth. Aggregating tables, in any
     order, or over coordinates gives their sums, and tables that share forecasts are refused. Manipulated tables lose no counts, only join adjacent bins,
     have the minimum count in every bin (or one bin is left), and have observation frequencies that never decrease, per threshold or per point. Calibration replaces
     each probability by the piecewise linear reliability curve of its own threshold (and point), within [0, 1], monotone across thresholds, leaves
     thresholds with fewer than two bins unchanged, keeps masks, dimensions and metadata for one or several thresholds, and refuses thresholds without a table.""",
     ["inputs", "configurations"],
     "every bin edge and midpoint as forecast x truth mask histories of 1-3 times; every order of 3 tables; every table of 3 (4) bins over 5 counts x 4 frequencies; every pair of 6 reliability curves x layouts",
     "Tests use two fixed tables; bin edges, changing masks, table orders, all undersampled and non-monotone patterns and single thresholds are not listed.",
     ["improver/calibration/reliability_calibration.py"],
     [{"name": "ConstructReliabilityCalibrationTables, AggregateReliabilityCalibrationTables, ManipulateReliabilityTable, ApplyReliabilityCalibration", "where": "improver/calibration"}],
     MC, "The manipulation is compared step by step with the documented algorithm as well as with its invariants.")
prop("C22", "Bias correction removes the mean error; height rescaling follows the fit",
     """The forecast bias is, at every point, the mean over the matched validity times of forecast minus truth where both are present (masked where they never
     are), with the unified reference time; probabilities, several percentiles or realizations, and mixed forecast periods are refused. Correcting subtracts the mean of
     the biases from every realization, within the requested bounds, keeps masks and metadata, fills masked biases by zero only on request, leaves its inputs alone, and
     refuses biases of another cycle hour or forecast period; without biases the forecast returns with a warning comment. The height rescaling of a
     site is exp(-s dz), dz kept within the bounds, with s the least-squares slope of log(forecast/truth) on dz over sites matched by identifier in whatever order, times
     matched by validity, excluding zeros and heights out of bounds. Applying it multiplies each site by the scaling for the next forecast period and the nearest
     permitted cycle hour, and refuses other sites.""",
     ["inputs", "configurations"],
     "420 mask histories of 1-3 times; 990 corrections (biases x masks x filling x bounds x forms x orders); 650 slope estimations incl. all site orders of each input; 171 applications",
     "Tests use aligned inputs: sites in different orders, a fitted slope of zero, masks changing with time and reuse of the bias cube are not tried.",
     ["improver/calibration/simple_bias_correction.py", "improver/calibration/dz_rescaling.py"],
     [{"name": "CalculateForecastBias, ApplyBiasCorrection, EstimateDzRescaling, ApplyDzRescaling", "where": "improver/calibration"}],
     MC, "Exact reference in pure Python; tolerance 1e-4 relative for float32.")
