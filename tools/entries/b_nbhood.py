MC = "bounded exhaustive enumeration of executions of the real code against a reference model"
prop("C12", "Neighbourhood processing equals its definition, with masks, at every edge",
     """The neighbourhood mean at a point is the (weighted) mean of the valid points of the square or disc of the given radius around it,
     and the sum is their sum: masked and NaN points never contribute, points whose neighbourhood has no valid point are masked or
     NaN as documented, and re-masking restores exactly the original mask. A constant field stays constant, a field of zeros and ones
     stays within [0, 1] - and 0 where all neighbours are 0, 1 where all are 1 - up to the domain edge. Slices over leading dimensions
     are treated independently and radii that vary with lead time are interpolated. Neighbourhood percentiles are percentiles of the points
     in the disc; processing with several mask zones gives each zone only its own points, and weighted collapsing of zones renormalises
     over the zones with data. Inputs are not modified.""",
     ["inputs", "configurations"],
     "all grids up to 5x5, all radii up to beyond the grid, 3 kernels x sums x masks x re-masking; every binary field of 9-12 points; all lead-time radii tables; all zone masks",
     "Tests check single-point holes in a fixed grid; combinations of masks, edges, radii, leading dimensions and binary fields are not covered.",
     ["improver/nbhood/nbhood.py", "improver/nbhood/use_nbhood.py", "improver/cli/nbhood.py", "improver/utilities/neighbourhood_tools.py"],
     [{"name": "NeighbourhoodProcessing, GeneratePercentilesFromANeighbourhood, ApplyNeighbourhoodProcessingWithAMask", "where": "improver/nbhood"}],
     MC, "Kernel matrices are built point by point from the definition and applied to position-unique and to all binary fields; real iris replaced by the stand-in.")
prop("C13", "Recursive filtering follows its recursion and never crosses masked points",
     """The recursive filter gives, for every coefficient field, iteration count and slice, the documented forward and backward recursion
     over the field extended symmetrically beyond its edges: zero coefficients change nothing, a constant stays constant and the result stays
     within the range of the input. Masked points stay masked, contribute nothing whatever is stored under the mask, and block smoothing
     across them; the coefficient cubes are not modified and may be given in either order. Coefficients above 0.5, misnamed or
     on another grid are refused. Orographic smoothing coefficients are the gradient magnitude to the given power scaled linearly
     between the two limits (the flat-terrain limit where all gradients are equal) and zero exactly at pairs of
     points inside the mask, outside it, or across its boundary, as requested.""",
     ["inputs", "configurations"],
     "all impulses on 4 (8) grid shapes x 6 coefficient fields x iterations x edge widths; every mask of a 3x3 (3x4) grid; 5 orographies x limits x powers x masks x 3 modes",
     "Tests filter one 5x5 field with constant coefficients; masks with arbitrary hidden values, padding and coefficient reuse are not exercised.",
     ["improver/nbhood/recursive_filter.py", "improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py", "improver/cli/recursive_filter.py"],
     [{"name": "RecursiveFilter, OrographicSmoothingCoefficients", "where": "improver/nbhood, improver/generate_ancillaries"}],
     MC, "The filter is linear in the field, so all impulses decide each enumerated coefficient field; coefficient fields themselves are a finite set.")
prop("C14", "Halos, grid spacings, differences and gradients are right at every edge",
     """Padding a field with a halo keeps its interior, fills the halo as documented and extends the coordinates evenly; removing the halo
     restores the cube exactly, for any leading dimensions. Only evenly spaced axes have a grid spacing: irregular ones are refused
     wherever the irregularity is, and distances and cell counts convert consistently. Differences between adjacent points are the forward
     differences along each axis, including the one across the meridian for circular longitudes; masked points stay masked;
     gradients are differences divided by distance in metres, signed by the coordinate's direction, for projected and
     lat-lon grids in any length unit, and the input cube is not modified.""",
     ["inputs"],
     "9 (16) shapes x 16 halo widths x 4 methods x spacings; every spacing pattern over {1,2,3} up to 4 (5) steps; 5 (7) shapes x 5 spacings x 3 units x single masked points; circular grids",
     "Tests use one ascending metre grid without masks; descending axes, other units, masks at the wrap and irregular interiors are not covered.",
     ["improver/utilities/pad_spatial.py", "improver/utilities/spatial.py"],
     [{"name": "pad_cube_with_halo, remove_cube_halo, calculate_grid_spacing, DifferenceBetweenAdjacentGridSquares, GradientBetweenAdjacentGridSquares", "where": "improver/utilities"}],
     MC, "Position-unique fields on every enumerated grid compared with index-by-index definitions.")
prop("C15", "Occurrence within a vicinity is the maximum over it, like surfaces only",
     """The vicinity value at a point is the maximum of the unmasked points within the square of the given radius around it, restricted to
     points of the same surface type when a land mask is given, for every data type; masked points keep mask and value. Several radii
     give one cube with a radius coordinate in ascending order after the leading dimensions, each equal to the single-radius result, and the name and
     radius metadata say what was done. Radii that are negative, mixed in kind or smaller than a grid cell are refused, and so are
     land masks with another name or grid.""",
     ["inputs", "configurations"],
     "5 (7) shapes x 4 radii x 8 data types x 5 masks x 5 land masks x 4 fields; 6 leading dimensions x 8 radius lists x masks x 2 grids",
     "Tests use a few float fields; integer fields with masks, several radii together with land masks and leading dimensions are not combined.",
     ["improver/utilities/spatial.py", "improver/cli/vicinity.py"],
     [{"name": "maximum_within_vicinity, OccurrenceWithinVicinity", "where": "improver/utilities/spatial.py"}],
     MC, "Every listed array is processed and compared with a point-by-point maximum.")
