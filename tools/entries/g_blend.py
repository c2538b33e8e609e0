MC = "bounded exhaustive enumeration of executions of the real code against a reference model"
prop("C25", "Blending weights follow the configuration, sum to one and are labelled",
     """Linear default weights run evenly from y0val at the first to ynval at the last point of the coordinate; nonlinear ones are powers of cval, with inverse ordering
     the largest for the largest coordinate value; triangular ones fall linearly to zero at the width either side of the midpoint, whatever units midpoint and width are
     given in; configured ones interpolate linearly between the configured points, keep the nearest end's weight outside them, and do not depend on the order or units in
     which the configuration lists its points. At every point the weights of the inputs are non-negative and sum to one, and each is labelled with the input it belongs to.
     Weights varying with the mask are zero where the input is masked, shared in proportion among the unmasked inputs, reduced towards the edge of the mask in
     proportion to the distance up to the fuzzy length, the remainder going to the other inputs. Negative weights, weights adding up to zero, and masks that
     differ along other dimensions are refused. Inputs are not changed.""",
     ["inputs", "configurations"],
     "1-5 inputs x parameters x layouts; 6 profiles x listing orders x units x lead times; every pair of masks of a 2x3 grid and triples on 3x4 (10k+ cases)",
     "Tests use ascending configurations and one or two hand written masks.",
     ["improver/blending/weights.py", "improver/blending/spatial_weights.py"],
     [{"name": "ChooseWeightsLinear, ChooseDefaultWeights*, SpatiallyVaryingWeightsFromMask", "where": "improver/blending"}],
     MC, "References in exact fractions. Weights of a single scalar point with inverse ordering are not claimed.")
prop("C26", "A weighted blend is the weighted mean of the inputs present at each point",
     """Blending along a coordinate gives at each point the mean of the inputs weighted with the weights labelled with the same coordinate value (equal weights without
     any), whatever the order of the points or dimensions of cube and weights; angles in degrees are averaged as directions. Masked inputs do not contribute and a point is
     masked only where every input is masked. Percentiles are blended by averaging the cumulative distributions with the weights and inverting: the result is ordered, lies
     within the inputs having weight, and equals the input when only one has weight. The other dimensions keep their order, and name, units,
     attributes and cell methods are kept. Blending adjacent points in time uses triangular weights and returns a cube described as the central point.
     Different validity times, thresholds, mismatching weights, a single percentile and missing central points are refused. Neither cube nor weights are changed.""",
     ["inputs", "configurations"],
     "3 coordinates x 1-3 other dimensions x dimension orders x 6 kinds of weights x masks x directions; every pair of 3-point distributions on a 6-value scale x 5 weights (5948 cases)",
     "Tests use a few fixed arrays in one layout; zero weights at single points, masked percentiles and angles in 4D are not tried.",
     ["improver/blending/weighted_blend.py", "improver/blending/blend_across_adjacent_points.py", "improver/utilities/cube_manipulation.py"],
     [{"name": "WeightedBlendAcrossWholeDimension, PercentileBlendingAggregator, TriangularWeightedBlendAcrossAdjacentPoints", "where": "improver/blending"}],
     MC, "Points with unmasked inputs none of which has weight are not claimed. Coordinates of the blended dimension itself are claimed in C27.")
prop("C27", "Blended forecasts carry the right values, times, models and run record",
     """Blending cycles, models or realizations from end to end gives, whatever the order of the inputs, their mean with the configured weights; inputs without weight are left
     out of the blend and of the records. A blend of cycles or models takes the cycle time asked for as its blend time and forecast reference time, with the forecast period,
     and its bounds, counted from it, keeps the validity time, and marks reference time and period deprecated; without a cycle time it is refused. Configured
     model weights are those for the lead time counted from that cycle. The model attribute lists the contributing models in order; the run record
     has one line per contributing model run with its weight, weights of earlier blends being multiplied on; attributes are amended as asked and the mandatory
     ones are always set. With weights varying with the mask, each point is the mean of the inputs present there. Duplicate or missing model identifiers, different
     validity times or periods and inconsistent options are refused. Inputs, configuration and plugin are not changed.""",
     ["inputs", "configurations", "histories"],
     "1-4 cycles and 1-3 of 4 models in every order x methods x diagnostics x existing records x cycle times; pairs of masks x fuzzy lengths (4157 cases)",
     "Tests blend three models in one order at a few lead times.",
     ["improver/blending/calculate_weights_and_blend.py", "improver/blending/weighted_blend.py", "improver/blending/utilities.py", "improver/metadata/forecast_times.py", "improver/cli/weighted_blending.py"],
     [{"name": "WeightAndBlend, MergeCubesForWeightedBlending, blending utilities", "where": "improver/blending"}],
     MC, "Merging is the iris stand-in's. Default weights over models of different cycles, and blends over forecast_period, are not claimed.")
