
MC = "explicit-state model checking: exhaustive enumeration of cubes, options and call histories within bounds, each executed on the implementation and compared with a reference model"
prop("C30", "Combining cubes gives the arithmetic result for the whole period",
     """Combine and CubeCombiner add, subtract, multiply, average, or take maxima and minima of the inputs point by point in the order given; a point is masked where any input is masked, except for masked_add, which
     counts masked points as zero and masks where all are. Cubes whose dimensions are ordered differently or that lack the dimension broadcast over (realization, threshold, or any named) are aligned by coordinate, and one with a
     mismatching dimension is refused. The result has the new name, the units and type of the first cube, the attributes shared, cell methods as documented, time, reference time and forecast period of the last with bounds
     spanning all inputs where asked. Only realizations all inputs have are used and fewer than the minimum are refused. A maximum over a time window needs gapless equal periods if the cubes have any, and labels its result with the whole window.
     Probability cubes of maxima and products keep threshold coordinates. Inputs are not changed and plugins can be used again with other cubes.""",
     ["inputs", "configurations", "histories"],
     "all operations x layouts x masks x numbers of inputs, broadcasting forms, times x reference times x bounds, realization sets of three cubes, periods x cell methods of windows",
     "Tests combine two or three equal cubes at a handful of points.",
     ["improver/cube_combiner.py"],
     [{"name": "Combine, CubeCombiner, MaxInTimeWindow", "where": "improver/cube_combiner.py"}],
     MC, "Merging and collapsing are the iris stand-in's.")
prop("C31", "Lead times, cycle shifts and periods keep times consistent",
     """A forecast period is validity time less reference time (with bounds from the time bounds), in the units and type asked; an existing one is returned unless recalculation is forced; times before the reference time are
     refused or reported. Unifying or rebadging cycles moves reference times to the cycle asked or the latest, changing only reference time and forecast period. A time-lagged ensemble holds every member once, with unique realization
     numbers, labelled with the latest cycle. The nearest slice is the one closest in time, refused where further away than allowed. Relabelling and uniting periods give the bounds of the whole period and sums or rescaled values as documented.
     Conversions between cycle strings, datetimes, numbers and iris times are inverses for every hour and refuse malformed dates. Inputs are not changed.""",
     ["inputs", "configurations"],
     "all times x reference times x bounds x forms of up to three cubes; every 7th hour (thorough: every hour) of a year; offsets in 15 (5) minute steps around five time axes",
     "Tests use one validity time and one cycle.",
     ["improver/metadata/forecast_times.py", "improver/utilities/temporal.py", "improver/utilities/time_lagging.py"],
     [{"name": "forecast_period_coord, rebadge_forecasts_as_latest_cycle, unify_cycletime, GenerateTimeLaggedEnsemble, extract_nearest_time_point, relabel_to_period, ...", "where": "improver/metadata/forecast_times.py, improver/utilities"}],
     MC, "Merging cubes into one is the iris stand-in's.")
prop("C32", "Consistency with a reference forecast is enforced and totals are normalised",
     """EnforceConsistentForecasts leaves each value within the limit(s) obtained from the reference (reference * multiplicative + additive, in its comparison direction) unchanged and replaces any other with the limit, for one or two
     limits, in the forecast's units, type and layout, whatever convertible units or layout of dimensions the reference has, keeping masks; unusable options and mismatching cubes are refused, and changes beyond the size documented warn.
     normalise_to_reference scales cubes at each point so their total equals the reference's total, keeping ratios, and returns zero totals as documented or refuses them when not to be ignored. split_cubes_by_name separates cubes by name without losing any.
     Inputs are not changed.""",
     ["inputs", "configurations"],
     "all limits x comparison directions x masks x units x layouts; all values of {0, 1, 3, masked} of two or three cubes at a point; 27 name triples x 6 requests",
     "Tests use one value array per option.",
     ["improver/utilities/forecast_reference_enforcement.py"],
     [{"name": "EnforceConsistentForecasts, normalise_to_reference, split_forecasts_and_bundle, split_cubes_by_name", "where": "improver/utilities/forecast_reference_enforcement.py"}],
     MC, "The wording of warnings is not claimed.")
prop("C33", "Reordering, collapsing, merging and masking keep values with their labels",
     """Dimension reordering, sorting, clipping, adding a coordinate, collapsing realizations (mean, sum, median, std_dev, min, max), merging and masking keep each value at its coordinate values, for every order of dimensions and mask.
     Reordering puts the requested dimensions first (or last) in that order, ignoring absent ones, the others keeping their order. Collapsing keeps metadata and ignores masked members. MergeCubes keeps only attributes and cell methods all cubes share,
     drops var_names and refuses time bounds of different lengths when asked to check. maximum_in_height and height_of_maximum use only levels within the bounds, wherever the height dimension is. apply_mask masks where the mask (inverted if asked) is true,
     in addition to existing masks, refusing mismatching dimensions. Comparisons of attributes, coordinates, times and grids report exactly the differences. Inputs are not changed.""",
     ["inputs", "configurations"],
     "all permutations of up to four dimensions x requests of up to three (thorough: four) names; masks; heights x bounds; three cubes' attributes, cell methods, periods",
     "Tests use one layout per function.",
     ["improver/utilities/cube_manipulation.py", "improver/utilities/cube_checker.py", "improver/utilities/mask.py"],
     [{"name": "enforce_coordinate_ordering, sort_coord_in_cube, collapse_realizations, MergeCubes, maximum_in_height, apply_mask, compare_attributes, compare_coords, ...", "where": "improver/utilities"}],
     MC, "Which of two equal maxima height_of_maximum returns is a known finding. Merging and collapsing are the iris stand-in's.")
