MC = "bounded exhaustive enumeration of executions of the real code against a reference model"
prop("C01", "A saved file is complete or absent, whatever interrupts the save",
     """Saving cubes to a file leaves, under the requested name, either the complete new content or whatever was there before:
     a crash, a torn or short write, a full disk, an I/O error or a refused cube at any point never leaves a partial file there.
     A save that returns has made the new content visible, and a save that fails reports the failure and does not prevent a later
     save to the same name. After any sequence of saves over several names each name holds exactly what was last saved there.""",
     ["crash_points", "fault_sequences", "histories"],
     "every file-system operation of a save as crash, torn-write, short-write, ENOSPC and EIO point; every position of a refused cube; every sequence of up to 3 (4) saves over 2 names",
     "Tests save on a healthy disk and look at the final file; no test interrupts a save or fails one of its writes.",
     ["improver/utilities/save.py", "improver/utilities/load.py"],
     [{"name": "write to a temporary name, then rename", "where": "improver/utilities/save.py save_netcdf"}],
     "exhaustive crash-point and I/O-fault enumeration on the real save, via an LD_PRELOAD file-operation shim",
     "Every file operation of each enumerated save is failed or crashed once, and the file left behind is read back and compared with old/new content. Trusts the kernel's rename and the iris stand-in's netCDF writer; single faults only.",
     observe=["the file under the requested name, read with the netCDF library"])
prop("C02", "Saving and loading a cube loses nothing",
     """A cube saved to netCDF and loaded again (with or without a name or constraint, alone or in a list of cubes of any shapes) is
     the same cube: values, masked points, types, units, coordinates with bounds, cell methods and attributes, with the dimensions
     in the loader's standard order. Compression never changes the content, and a requested precision changes float data only, by
     less than that precision. Loading several files gives the merged cube whatever order the files are named in.""",
     ["inputs", "configurations"],
     "26 cube kinds, every dimension order, compression and precision settings, all lists of up to 3 cubes over 9 kinds, every ordered selection of up to 4 files",
     "Tests round-trip one or two fixed cubes; dimension orders, masks, string coordinates, lists of different shapes and precision settings are not combined.",
     ["improver/utilities/save.py", "improver/utilities/load.py", "improver/utilities/cube_manipulation.py"],
     [{"name": "save_netcdf, load_cube, load_cubelist, enforce_coordinate_ordering", "where": "improver/utilities"}],
     MC, "All listed cube kinds and settings are saved and loaded by the real code and compared element by element; the netCDF layer of the iris stand-in is trusted (validated by the repository's own save/load tests).")
prop("C03", "File comparison reports every real difference and nothing else",
     """Comparing two netCDF files reports a difference exactly when their groups, dimensions, variables, attributes (apart from those
     excluded) or data differ: data within the absolute tolerance and the tolerance relative to the reference file count as equal, masked points and NaNs match only
     themselves, and excluded variables or attributes are never reported. The verdict depends only on the contents, not on the order in
     which elements were written, and the comparison reports rather than fails on files it can read. The compare command turns
     a reported difference into a failure, unless differences were to be ignored.""",
     ["inputs", "configurations"],
     "every single edit of a file with nested groups, masks, NaN, strings, integer and float variables; pairs of edits; all tolerance and exclusion settings",
     "Tests compare a handful of hand-edited files; masked and NaN data, nested groups, mismatching types and combinations of edits are not exercised.",
     ["improver/utilities/compare.py", "improver/cli/compare.py"],
     [{"name": "compare_netcdfs and its per-element comparisons", "where": "improver/utilities/compare.py"}],
     MC, "Every edit of the enumerated set is applied to a real netCDF file and the reported differences are compared with the edit that was made.")
prop("C04", "Command lines mean what their brackets say",
     """Bracketed command lines run each inner command exactly once, before the command that uses it and in left-to-right order, and hand
     its result over as the very object; unbalanced or empty brackets are refused. Arguments given as text are converted to the type
     the command declares (cube, list, number, path, ...), and objects of that kind pass through unchanged. With an output name the
     result is saved there with the requested compression and precision and only passed on if asked; without one it is returned.""",
     ["programs", "configurations", "inputs"],
     "every token sequence over brackets, words and options up to length 8 (10); every command tree of depth 2 in 3 notations; all conversions and output option combinations; all chains of 1-2 real commands three ways",
     "Tests use two or three fixed command lines; the grammar and the combinations of conversions and output options are unbounded.",
     ["improver/cli/__init__.py", "improver/cli/__main__.py"],
     [{"name": "unbracket, execute_command, ObjectAsStr, with_output, inputcube", "where": "improver/cli/__init__.py"}],
     "exhaustive enumeration of command programs up to a depth, replayed against a reference parser and evaluator",
     "All command programs within the bound are executed by the real dispatcher and compared with a recursive-descent reference; deeper nesting follows by the recursion but is not executed.")
prop("C05", "Box sums and moving windows equal their definition",
     """The box sum of an array equals, at every position, the sum of the values inside the box centred there, for every odd box size,
     padding mode and leading dimensions, whether the cumulative sum is given or not, for real, integer, boolean and complex numbers in any memory layout; even or non-integer sizes are refused. The rolling windows of
     an array are exactly its contiguous sub-arrays of the window shape, and padding adds exactly half a window on each side.""",
     ["inputs"],
     "every grid up to 5x5 (7x7), all odd boxes up to 7x7, 5 paddings, 0-2 leading dimensions; 11 number types x 5 memory layouts; boxes up to 21 (41); 12 shapes x 24 windows x 5 memory layouts",
     "Tests check one 5x5 array with one box; non-square boxes, edges, padding and leading dimensions are not combined.",
     ["improver/utilities/neighbourhood_tools.py"],
     [{"name": "rolling_window, pad_and_roll, pad_boxsum, boxsum", "where": "improver/utilities/neighbourhood_tools.py"}],
     MC, "Linear operation checked with position-unique values on every grid size within the bound.")
prop("C06", "Angles survive conversion to complex numbers and back",
     """Any wind direction converted to its complex form and back is the same angle modulo 360, always in the range from 0 up to but not
     including 360, whatever the radius and for both float types. The conversion acts element by element on arrays of any shape,
     keeps the modulus equal to the radius, and keeps single precision single.""",
     ["inputs"], "-720..1170 degrees in quarter degrees x 4 radii x 2 dtypes; a 12x12 lattice of complex numbers with signed zeros and tiny values",
     "Tests convert a few angles; values next to 0/360 and on the axes are where the conversion can leave the range.",
     ["improver/utilities/complex_conversion.py"], [{"name": "deg_to_complex, complex_to_deg", "where": "improver/utilities/complex_conversion.py"}],
     MC, "Lattice of angles and complex numbers enumerated completely; between lattice points by continuity.")
prop("C07", "The truncated normal distribution is exact in both tails",
     """Density, log-density, cumulative and survival function of the truncated normal agree with their definition for every pair of
     bounds, including infinite bounds and bounds far in one tail (up to 20 standard deviations): the cumulative function rises from 0 at the lower to 1 at the
     upper bound, and quantiles invert it and stay inside the bounds. Arrays of bounds, locations and points are treated element by
     element, and bounds in the wrong order give no number.""",
     ["inputs"], "all ordered bound pairs from an 17x19 lattice with infinities, 3 (6) location/scale pairs, 43 points and quantiles",
     "Tests evaluate five points of one distribution; other bounds select other branches (left tail, right tail, straddling zero).",
     ["improver/ensemble_copula_coupling/_scipy_continuous_distns.py"], [{"name": "truncnorm", "where": "improver/ensemble_copula_coupling/_scipy_continuous_distns.py"}],
     MC, "Reference from erfc in the tail without cancellation; lattice of bounds enumerated completely.")
prop("C08", "Profiling and output capture never change the program they observe",
     """A function run under memory profiling returns or fails exactly as without it, at whatever moment the monitor runs; on return the
     monitor has ended, tracing is off, the peak log lists exactly the rising memory maxima and the snapshot written is the one taken at
     the last maximum. Captured standard output reaches the innermost capture, and standard output is restored
     however the captured block ends. Time profiles go to the named file or, limited to the asked number of lines, to standard error.""",
     ["schedules", "programs", "fault_sequences"],
     "all interleavings of program and monitor thread at their communication points (fairness bound 3-6), all peak-memory answers from 3 values for up to 3 samples; all capture programs to depth 2",
     "The package has no test of its profiling, and no test can choose the interleaving of the two threads.",
     ["improver/memprofile.py", "improver/profile.py", "improver/utilities/redirect_stdout.py"],
     [{"name": "queue message ends the monitor, join waits for it", "where": "improver/memprofile.py"}],
     "stateless exploration of all thread interleavings of the real code under a controlled scheduler",
     "Every schedule at queue/thread/sleep/rusage/tracemalloc points within the fairness bound is executed on the real code; tracemalloc itself is a recording stand-in.")
prop("C09", "Plugins share one calling convention, title rule and namespace",
     """Calling a plugin passes its arguments on, returns the very result of its processing and lets its failures through. Cubes returned
     by a post-processing plugin, alone or in a collection, gain the prefix "Post-Processed" on their title unless they have no title,
     the default title or one that contains it already, so repeating it changes nothing; other results are untouched. Every
     published plugin name resolves in the flat namespace to the plugin of that name, and one or more cubes in any nesting of
     collections are accepted in order, anything else refused.""",
     ["inputs", "histories"], "all results of up to 3 items from 8 kinds in 4 collection types, 12 titles, 3 repeated calls; every published name; all nestings of up to 3 (4) cubes",
     "Tests call a dummy plugin with five results; the namespace test cannot import most plugins.",
     ["improver/__init__.py", "improver/api/__init__.py", "improver/utilities/common_input_handle.py"],
     [{"name": "BasePlugin, PostProcessingPlugin, PROCESSING_MODULES, as_cube, as_cubelist", "where": "improver"}],
     MC, "Complete enumeration within the bounds.")
prop("C10", "Rounding, flattening and indexed choice are exact",
     """Numbers that are whole up to 1e-7 become exactly that integer in the requested type, and anything clearly not whole is refused
     rather than rounded. Flattening any nesting yields every leaf once, in order, keeping texts whole. Choosing along the leading
     dimension with an index array gives, at every position, the value at the chosen index, whatever the array's shape.""",
     ["inputs"], "12 integers x 12 offsets x 6 forms x 4 dtypes; all nestings of depth 2 and width 3; every index array for 10 (14) shapes",
     "Tests use one or two arrays each; indexing errors appear only for other shapes and repeated indices.",
     ["improver/utilities/round.py", "improver/utilities/flatten.py", "improver/utilities/indexing_operations.py"],
     [{"name": "round_close, flatten, choose", "where": "improver/utilities"}], MC, "Complete enumeration within the bounds.")
prop("C11", "Options are paired, named and read as documented, or refused",
     """Neighbourhood radii and lead times are paired one to one in order, a single radius applies to all lead times, and lists of
     different length are refused. The name of a neighbour finding method and the leading dimension and vertical levels of synthetic data follow
     from exactly the options given, with contradictory options refused. A JSON configuration is read as the object it holds, no
     file means no configuration, and a missing or broken file is an error.""",
     ["inputs", "configurations"], "all lists of up to 3 radii and lead times; all subsets of the synthetic-data options; 9 documents",
     "Tests try three combinations; the space of option combinations is only covered by enumeration.",
     ["improver/nbhood/__init__.py", "improver/spotdata/utilities.py", "improver/synthetic_data/utilities.py", "improver/utilities/cli_utilities.py"],
     [{"name": "radius_by_lead_time, get_neighbour_finding_method_name, get_leading_dimension, get_height_levels, load_json_or_none", "where": "improver"}],
     MC, "Complete enumeration within the bounds.")
