MC = "explicit-state model checking: exhaustive enumeration of cubes, metadata, options and call histories within bounds, each executed on the implementation and compared with a reference model"
prop("C34", "Metadata is amended, combined, created and standardised as asked",
     """amend_attributes sets, removes and formats exactly the attributes asked ("{}" is the old value, "{now:...}" the time), history attributes append a UTC-stamped entry, model identifiers of several cubes are united (each once, sorted) or must agree,
     and mandatory attributes are kept only where all cubes agree, else the documented defaults, whatever the order of the cubes. create_new_diagnostic_cube takes coordinates from the template and everything else from the arguments, refusing missing
     mandatory attributes; it shares nothing with the template. Grid hashes are equal exactly for grids with the same points, names and units. check_mandatory_standards reports exactly the cubes, data and coordinates (with bounds) of a wrong type or
     time unit. StandardiseMetadata applies the options asked (name, units, coordinates, attributes, cell methods, flags to booleans), drops scalar leading dimensions except realization, converts 64-bit to 32-bit types and keeps all values.""",
     ["inputs", "configurations"],
     "13 attribute forms in pairs x old values; all lists of three cubes over five identifier sets; 64-bit, 32-bit and time types per coordinate; options in pairs; layouts of up to four dimensions",
     "Tests use one attribute dictionary and one cube each.",
     ["improver/metadata/amend.py", "improver/metadata/utilities.py", "improver/metadata/check_datatypes.py", "improver/standardise.py", "improver/utilities/copy_attributes.py"],
     [{"name": "amend_attributes, set_history_attribute, generate_mandatory_attributes, create_new_diagnostic_cube, create_coordinate_hash, check_mandatory_standards, StandardiseMetadata", "where": "improver/metadata, improver/standardise.py"}],
     MC, "StandardiseMetadata changes its input in place, as it always has. Hashes ignore bounds.")
prop("C35", "Extraction returns exactly the part asked for",
     """extract_subcube and ExtractSubCube return exactly the points matching all constraints: equality of names and floats (within the tolerance documented), membership of lists, and ranges [a:b:step] inclusive of both ends, negative and
     fractional ends included, in the units given (without changing the units of the result or the input), whatever dimension the coordinate is, keeping data, masks, order and metadata; nothing matching is refused, or returns the input when asked to.
     Longitudes are thinned in degrees across the date line. ExtractLevel returns, at each point, the value of the coordinate where the field crosses the level, by linear interpolation for fields falling along the levels, whether those rise or fall, in any order of dimensions,
     filling missing points as documented. ExtractValueFromTable returns the entry of the last row and column whose headers do not exceed the inputs, masked or missing where an input is. Inputs and tables are not changed.""",
     ["inputs", "configurations"],
     "four axes x all subsets, ranges and lists of their points x units x layouts x masks, pairs of constraints in both orders; columns of values over levels in all permutations of four dimensions; table sizes x input forms",
     "Tests extract a few constraints from one cube.",
     ["improver/utilities/cube_extraction.py", "improver/utilities/extract_from_table.py"],
     [{"name": "create_constraint, extract_subcube, parse_constraint_list, ExtractSubCube, ExtractLevel, thin_cube, ExtractValueFromTable", "where": "improver/utilities/cube_extraction.py, improver/utilities/extract_from_table.py"}],
     MC, "The stratify library that interpolates to levels is a stand-in with its documented behaviour.")
prop("C36", "Integrals, rescaling, line fits and gap filling are numerically right",
     """Integration over a coordinate is, for each column, the trapezium sum from the starting end down (or up) to each level within the start and end points given (0 included), counting positive parts only where asked, with the layer as bounds, for any
     order of dimensions and direction of levels. rescale maps data linearly from one range onto another, clipping exactly where asked, and refuses an empty range. fast_linear_fit gives the least squares gradient and intercept of each column, ignoring missing
     points, equal to a fit column by column. interpolate_missing_data fills missing points, and only those, from the valid ones (within the limit given) by the method asked and leaves what lies outside alone. InterpolateUsingDifference fills gaps with the
     reference less the interpolated difference, limited as asked, in the units of the field. Values that are there are kept exactly and no input is changed.""",
     ["inputs", "configurations"],
     "every column over four values on up to four levels x ends x directions x permutations of dimensions; value ranges x clips; columns of four values with gaps; all masks of 3x3 grids x methods x limits",
     "Tests integrate one column and fill one gap.",
     ["improver/utilities/mathematical_operations.py", "improver/utilities/interpolation.py", "improver/utilities/rescale.py"],
     [{"name": "Integration, rescale, fast_linear_fit, interpolate_missing_data, InterpolateUsingDifference", "where": "improver/utilities/mathematical_operations.py, interpolation.py, rescale.py"}],
     MC, "On degenerate triangulations any documented interpolant is accepted.")
