MC = "explicit-state model checking: exhaustive enumeration of fields, options, metadata and single and paired faults within bounds, each executed on the implementation and compared with a reference model"
prop("C45", "Ancillaries (land mask, orography bands, smoothing) and texture are right",
     """CorrectLandSeaMask gives land_binary_mask (int8) with one where the fraction is at least one half. The topography band masks hold each point in exactly the band above its lower and up to its upper limit, and no sea point where there is a land mask; the topographic zone weights rise linearly from one half at the limits of a band
     to one at its middle with the rest in the adjacent band, are one below the middle of the lowest and above that of the highest band, add up to one within the bands and are masked over the sea, in any units of bands and orography, with zones, bounds and dimensions of the result right and a warning for points outside.
     OrographicSmoothingCoefficients scale the gradient between adjacent points to the power given linearly between the limits given (minimum gradient to the first), over x and y together, zero where the mask says (inside, outside or at the boundary only), on the midpoints of the grid in the order of the input, without time coordinates.
     FieldTexture is, for each realization, whether the ratio of actual to possible transitions of set cells in the neighbourhood exceeds the threshold (one where a cell is not set), averaged over the realizations, also for a single one. Inputs are not changed; unsuitable ones are refused.""",
     ["inputs", "configurations", "histories"],
     "fractions either side of one half x shapes x types; five sets of bands x heights at and around every limit and middle x units x land masks x eight layouts; five orographies x limits x powers x masks x eight layouts x spacings, pairs of calls; all 512 binary 3x3 fields and larger ones x radii x thresholds x forms",
     "Tests use one or two small fields.",
     ["improver/generate_ancillaries/generate_ancillary.py", "improver/generate_ancillaries/generate_topographic_zone_weights.py", "improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py", "improver/utilities/textural.py"],
     [{"name": "CorrectLandSeaMask, GenerateOrographyBandAncils, GenerateTopographicZoneWeights, OrographicSmoothingCoefficients, FieldTexture", "where": "improver/generate_ancillaries, improver/utilities/textural.py"}],
     MC, "Points exactly at the lowest limit of the lowest band belong to no band and are not claimed.")
prop("C46", "Synthetic cubes carry what was asked, and the interpreter finds every fault",
     """The functions that set up variable, percentile and probability cubes, gridded and for spots, and generate-metadata-cube give exactly the dimensions (realization, percentile or threshold, height or pressure, y, x), also with a single value, the grid points and bounds of the spacing and corner, times, periods, bounds and
     reference or blend times of the right types, names, units and attributes asked, and refuse impossible choices; add_coordinate adds a leading or scalar coordinate and keeps the forecast period in step. MOMetadataInterpreter accepts every compliant kind of file (realizations, percentiles, probabilities, accumulations,
     extremes, blends, spots, weather codes, wind direction, ancillaries) for every model and display_interpretation describes it; each departure from the standard (names, units, thresholds, percentiles, mandatory and forbidden attributes, model and blend attributes, titles, missing coordinates, bounds, cell methods, types,
     members of a deterministic model) alone or in pairs raises a ValueError that names it and nothing else, and allowed oddities give a warning. interpret-metadata reports every file and fails if any is not compliant.""",
     ["inputs", "configurations", "fault_sequences"],
     "six builders x eight layouts x seven time choices x six grids; seven leading x four level choices x members x twelve option sets; 26 kinds of file x five models x all single faults (about fifty) and all pairs",
     "Tests check a single example of some faults.",
     ["improver/synthetic_data", "improver/developer_tools/metadata_interpreter.py"],
     [{"name": "set_up_variable_cube and others, generate_metadata, add_coordinate, MOMetadataInterpreter, display_interpretation", "where": "improver/synthetic_data, improver/developer_tools"}],
     MC, "Files are replaced by cubes in memory for interpret-metadata.")
prop("C47", "Lapse rates fit the neighbourhood; their application follows the heights",
     """LapseRate is, at each land point with a temperature, the least-squares slope of temperature against height over the land points with a temperature within the square neighbourhood (cut off at the edge of the grid) whose height differs from that of the point by at most the maximum height difference; the dry
     adiabatic rate where there is no difference of height or of temperature to fit (whatever the values round to), over sea and where the temperature is missing; limited to the given minimum and maximum. It is in K/m, single precision, named air_temperature_lapse_rate, with the coordinates and order of dimensions
     of the temperature (realizations, times, transposed grids, grids one point wide), for temperature and orography in any units. ApplyGriddedLapseRate adds the lapse rate times the difference of the orographies up to 50 m and the environmental lapse rate (-6.5 K/km) for the rest, in either direction, matching
     slices of temperature and lapse rate by their coordinates in any order of dimensions, in K. Grids or coordinates that do not match, negative radii or differences and limits the wrong way round are refused by plugin and command; the dry-adiabatic option needs only the temperature. Inputs of LapseRate are not changed.""",
     ["inputs", "configurations"],
     "every land mask of grids up to 2x3 and (6 or more land points; thorough: all) 3x3 x 4 orographies x 4 temperature fields x 5 settings; flat fields at 8 heights x radii 1-7; 12 orders of dimensions x 6 units/transpositions x length-one dimensions; 12 pairs of orders x 5 units; all refusals",
     "Tests look at one 5x5 field with values that add up without rounding, and one order of dimensions.",
     ["improver/lapse_rate.py", "improver/cli/temp_lapse_rate.py", "improver/cli/apply_lapse_rate.py"],
     [{"name": "LapseRate, ApplyGriddedLapseRate, compute_lapse_rate_adjustment", "where": "improver/lapse_rate.py"}],
     MC, "Masked temperature arrays are not claimed (missing temperatures are NaN). ApplyGriddedLapseRate documents that it converts the units of its inputs in place.")

prop("C48", "Every command gives what its plugin gives for the options it was given",
     """Each improver command, called through the command line entry point, gives exactly what the plugins it documents give for its input cubes and options: every option reaches its own parameter (with its documented default when absent, in the type and units documented) and no other, in any order of the inputs where the documentation allows it,
     optional inputs are used when present, and impossible combinations (missing or conflicting options, wrong numbers of cubes, unknown names, values out of range) are refused. Options given as dictionaries are not changed.
     Covers the commands for blending, thresholds, percentiles, realizations, neighbourhoods, vicinity, filters, regridding, merging, combining, extraction, standardisation, nowcasting, orographic enhancement, wind (also at a height in other units), spot data, bias, reliability and rescaling calibration, psychrometrics, precipitation type, lightning, solar and ancillary generation.""",
     ["inputs", "configurations", "programs"],
     "87 commands, each with every option alone at a value different from its default, pairs where they interact, each documented order of the inputs and each documented refusal (about 650 command lines)",
     "The repository's tests of commands need data that is not in the repository (acceptance tests); unit tests call the plugins and never the commands.",
     ["improver/cli"],
     [{"name": "process functions of the commands; execute_command, clizefy, inputcube and other converters", "where": "improver/cli/*.py"}],
     MC, "Plugins' own results are judged by the other properties; pysteps is replaced by a stand-in that moves whole grid lengths. Commands reading pandas tables (estimate-emos-coefficients-from-table) are not claimed.")
prop("C49", "RainForests probabilities are those of the tree models",
     """ApplyRainForestsCalibration gives, at each point, the mean over the members of the probability that each member's tree models give: for each member the models of the nearest lead time (the features in the order of their names, points exactly at a split of a tree on its lower side) give one probability of reaching each model threshold, cut to [0, 1] and made
     decreasing with the threshold (mean of the running minimum from below and the running maximum from above); interpolated linearly to the output thresholds with probability one at the lower bound of the variable, or taken as they are when the output thresholds are those of the models, however small these are. Output thresholds may be in any order and in other units.
     Features and forecast may have their dimensions in any order, features may come in any order, those without members are used for every member, and a forecast without members is treated as one. Binning the data, the number of threads, the library (lightgbm or treelite) and the repeated use of the plugin do not change the result; treelite is used when it is there and has all its models.
     The output has the thresholds first, then the dimensions of the forecast without members, is single precision in [0, 1] and carries the coordinates and attributes of the forecast. Another number of features, other grids or members, missing models and models with other thresholds at some lead time are refused. Inputs are not changed.""",
     ["inputs", "configurations", "histories"],
     "model thresholds in four orders x lead times around, between and beyond the models' x libraries x binning x which inputs have members, three calls of each plugin; all six orders of dimensions of each input and of all; six sets of tiny thresholds; fourteen refusals; the command with each of its options",
     "The tests need lightgbm, which is not always there, and only check that the results lie in [0, 1].",
     ["improver/calibration/rainforest_calibration.py", "improver/cli/apply_rainforests_calibration.py"],
     [{"name": "ApplyRainForestsCalibration, ApplyRainForestsCalibrationLightGBM, ApplyRainForestsCalibrationTreelite", "where": "improver/calibration/rainforest_calibration.py"}],
     MC, "lightgbm and treelite are replaced by stand-ins that read the text form of the models and evaluate the trees. Features that are missing (NaN) are not claimed.")
