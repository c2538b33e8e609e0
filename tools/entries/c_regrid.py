MC = "bounded exhaustive enumeration of executions of the real code against a reference model"
prop("C16", "Regridding gives each target point its documented weights, land to land",
     """Regridding between lat-lon grids gives every target point inside the source domain the documented value - the nearest of the four
     surrounding source points, or their bilinear weights - including points exactly on the first and last source rows and columns,
     and points outside the source domain are masked or NaN. The land-sea aware modes use source points of the target's own surface type whenever one
     is within reach and fall back as documented otherwise; weights are non-negative and sum to one, so a constant stays constant.
     The result has the target's horizontal coordinates and the source's other coordinates, name, units, attributes, cell methods and
     data type, for either axis order of the source and any leading dimensions. Source masks and NaNs do not spread to points that do not use them.
     Adjusting a regridded field replaces only points whose surface type changed. Inputs are not modified; grids with
     wrong names, masks on another grid and missing masks are refused.""",
     ["inputs", "configurations"],
     "all land-sea masks of 3x3 sources x target masks x modes; 4 source grids x 5 target grids x layouts x unit impulses on every source point",
     "Tests regrid one field to one grid; they cannot cover every land-sea configuration, nor points on each edge of the source domain.",
     ["improver/regrid/bilinear.py", "improver/regrid/grid.py", "improver/regrid/idw.py", "improver/regrid/landsea.py", "improver/regrid/landsea2.py", "improver/regrid/nearest.py", "improver/cli/regrid.py"],
     [{"name": "RegridLandSea, RegridWithLandSeaMask, AdjustLandSeaPoints", "where": "improver/regrid"}],
     MC, "Regridding is linear in the field, so unit impulses at every source point recover the complete weight matrix of each enumerated configuration.")
