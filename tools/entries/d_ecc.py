MC = "bounded exhaustive enumeration of executions of the real code against a reference model"
prop("C17", "Percentiles follow the distribution they are made from, at every point",
     """Percentiles made from realizations are each point's values in order, at i/(n+1) (or (i-1/2)/n) of probability; percentiles become realizations,
     numbered as asked, only when they partition probability evenly. Resampled percentiles and percentiles made
     from probabilities (above or below thresholds) are read off the piecewise linear distribution through the given values, extended to
     the bounds of the diagnostic in the units of the data (or held constant when bounds are skipped); values beyond the bounds are refused, or widen
     them with a warning. The results are in ascending percentile order whatever order was requested, for any position of the
     percentile or threshold dimension, masked points stay masked, capped percentiles are masked exactly above the probability of the last threshold, and other metadata is kept.""",
     ["inputs", "configurations"],
     "every monotone distribution over 5 levels for up to 3 thresholds or 4 percentiles x requests x layouts x masks x bounds; every set of up to 4 (6) percentiles for rebadging",
     "Tests use one ascending distribution; plateaus, boundary probabilities, unsorted requests, masks and dimension orders are not combined.",
     ["improver/ensemble_copula_coupling/ensemble_copula_coupling.py", "improver/ensemble_copula_coupling/utilities.py", "improver/ensemble_copula_coupling/numba_utilities.py", "improver/cli/generate_percentiles.py", "improver/cli/generate_realizations.py"],
     [{"name": "RebadgeRealizationsAsPercentiles, RebadgePercentilesAsRealizations, ResamplePercentiles, ConvertProbabilitiesToPercentiles", "where": "improver/ensemble_copula_coupling"}],
     MC, "Whole families of distributions are laid out as grid points of one cube; oracle is the inverse of the piecewise linear distribution with its plateaus as intervals.")
prop("C18", "Reordering keeps each point's values and takes the raw ensemble's ranks",
     """Ensemble reordering gives realizations that hold, at each point and time, exactly the post-processed values, in the rank order of the raw
     ensemble at that point (ties in any order); raw members are recycled in order when more values than members are needed and the
     first ones are used when fewer are. This holds for several times, any dimension order, masks and any number of members
     including one. Realization numbers are those of the raw forecast (or consecutive from its first), the metadata is that of the
     post-processed forecast. A seed makes the result reproducible. Masks that disagree, or a raw mask without post-processed mask, are refused.""",
     ["inputs", "configurations", "histories"],
     "every raw ensemble over 3 values for up to 4 members (orders of 5, 6) x 1-5 (7) percentiles x 1-2 times x layouts x masks x ties; every pair of 2x2 masks; seeds",
     "Tests reorder one 3-member ensemble without ties; every rank pattern, recycling count and several times cannot be listed by hand.",
     ["improver/ensemble_copula_coupling/ensemble_copula_coupling.py", "improver/utilities/indexing_operations.py", "improver/cli/generate_realizations.py"],
     [{"name": "EnsembleReordering", "where": "improver/ensemble_copula_coupling"}],
     MC, "All raw ensembles are grid points of one cube; the judge checks multisets and pairwise order.")
prop("C19", "Percentiles and probabilities from location and scale invert the distribution",
     """For a location and scale parameter the percentile values returned are the quantiles of the named distribution - normal, truncated normal
     with its bounds given in data units, or other scipy distributions - and the probabilities are its distribution function below, or its complement above,
     each threshold, in the units of the thresholds. Points masked in either parameter are masked, a zero scale gives the location, one or many percentiles
     work, and calling the same plugin again with other parameters gives what a fresh plugin gives. The metadata is the
     template's. Chosen percentiles split probability evenly; distribution bounds are converted to the units asked for; unknown distributions,
     missing bounds and incompatible units are refused.""",
     ["inputs", "histories"],
     "5 distributions x 15-18 parameter pairs x percentile and threshold sets x 4 masks x 4 template layouts, each plugin used twice; every pattern of zero scales on 2x2",
     "Tests compare a few tabulated values from fresh plugins; reuse, masks in one parameter and single percentiles are not covered.",
     ["improver/ensemble_copula_coupling/ensemble_copula_coupling.py", "improver/ensemble_copula_coupling/utilities.py", "improver/ensemble_copula_coupling/constants.py"],
     [{"name": "ConvertLocationAndScaleParametersToPercentiles, ConvertLocationAndScaleParametersToProbabilities", "where": "improver/ensemble_copula_coupling"}],
     MC, "Oracle: closed forms of the distribution functions evaluated in double precision; quantiles are checked by bracketing.")
