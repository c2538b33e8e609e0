MC = "bounded exhaustive enumeration of executions of the real code against a reference model"
prop("C23", "Thresholding gives, per threshold in any order, the share of members meeting it",
     """Thresholding gives for every threshold and point the truth (0 or 1) of the requested comparison (>, >=, <, <=), or with a fuzzy factor or bounds
     the membership rising linearly from 0 at the lower bound through 0.5 at the threshold to 1 at the upper (inverted for less-than). Each output slice belongs to the
     threshold and vicinity radius its coordinates name, in whatever order they, or the entries of a configuration with or without bounds, were given. With a
     vicinity it is the maximum over the square around the point, of unmasked points on like surfaces. Collapsing realizations or percentiles gives the mean
     over the members present, masked only where there is none. Thresholds in other units are converted; units, coordinates, name, relation and cell methods describe
     the result. Masked values are kept or filled as asked, NaN is refused, the input is not changed and the plugin can be used again. Latitude dependent thresholds
     compare each row with its own threshold.""",
     ["inputs", "configurations", "histories"],
     "every operator x threshold order x layout x mask with values at and next to every threshold and bound; 1-4 members x vicinities x land masks x fuzzy x filling (4264 configurations)",
     "Tests mostly give ascending thresholds; mixed bounds, unordered thresholds or radii, fuzzy vicinities of masked data and reuse are not tried.",
     ["improver/threshold.py", "improver/utilities/rescale.py", "improver/utilities/spatial.py"],
     [{"name": "Threshold, LatitudeDependentThreshold", "where": "improver/threshold.py"}],
     MC, "Per-point reference in pure Python. Bounds equal to the threshold on one side only are not claimed.")
prop("C24", "Between-threshold, inverted, expected and percentile values agree with the input",
     """The probability between two thresholds is the difference of the probabilities at the two (never a neighbouring threshold's), for above and below thresholds,
     any choice and order of ranges and units, labelled with both ends; unavailable thresholds are refused. Inverting gives one minus the probability of
     the opposite comparison (> with <=, >= with <), renamed, and inverting twice returns the input. Probability names give the diagnostic and the threshold name with
     or without vicinity. The expected value is the integral of the threshold midpoints weighted by the probability between them, however small
     the thresholds, or the mean of the members present; masked points stay masked; non-monotone probabilities and percentiles that are not equally spaced are
     refused. Percentiles over one or several coordinates interpolate linearly between the sorted values present, each labelled with its own
     percentage in whatever order they were asked for. No input is changed.""",
     ["inputs", "configurations"],
     "every range, pair and triple of ranges of 4 thresholds; 4 relations x directions x masks; 1-4 members; 6 coordinate sets x percentile sets x masks (2003 cases)",
     "Tests use ordered ranges and percentiles, thresholds of order 1 to 300 and unmasked probabilities.",
     ["improver/between_thresholds.py", "improver/utilities/probability_manipulation.py", "improver/metadata/probabilistic.py", "improver/expected_value.py", "improver/percentile.py"],
     [{"name": "OccurrenceBetweenThresholds, invert_probabilities, ExpectedValue, PercentileConverter", "where": "improver"}],
     MC, "iris' own percentile aggregation is the stand-in's; the check covers what IMPROVER passes to it and makes of it.")
