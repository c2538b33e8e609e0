MC = "explicit-state model checking: exhaustive enumeration of grids, sites, fields, options and layouts within bounds, each executed on the implementation and compared with a reference model"
prop("C37", "Spot data come from the right neighbour, at the right height",
     """NeighbourSelection returns for each site, in the order of the site list, the nearest grid point satisfying the constraints asked: nearest, nearest land, smallest height difference among the candidates (all in the search radius, land only where asked),
     falling back to the nearest point where none is suitable, on equal area and global grids (longitudes wrapping), with altitude differences site minus grid, and sites outside the domain dropped with a warning. SpotExtraction returns the diagnostic at exactly
     these points for the neighbour method asked, for every leading dimension and any order of dimensions, with all coordinates, multi-dimensional ones and site attributes included. SpotHeightAdjustment shifts heights by the vertical displacement, interpolating
     probabilities within each site between thresholds and keeping the end values beyond. SpotLapseRateAdjust adds lapse rate times height difference (limited as documented) and shifts each percentile alike. SpotManipulation extracts, subsets by site,
     adjusts and collapses (percentiles, probabilities, realizations) as each step alone would. Inputs are not changed.""",
     ["inputs", "configurations"],
     "all land masks and height patterns of small grids x sites on and off the points x constraint pairs x radii; all layouts of up to three leading dimensions x neighbour methods; displacement x threshold x realization products",
     "Tests look at one grid with a few sites.",
     ["improver/spotdata"],
     [{"name": "NeighbourSelection, SpotExtraction, SpotHeightAdjustment, SpotLapseRateAdjust, SpotManipulation, build_spotdata_cube", "where": "improver/spotdata"}],
     MC, "node_limit=1 and a spot dimension that is not last are not claimed. Site coordinates are projected with the stand-in for cartopy.")
prop("C38", "Psychrometric quantities satisfy the equations they are defined by",
     """Saturation vapour pressure follows Goff and Gratch over water and ice with the pressure correction (also in the lookup table, which is used with linear interpolation and clipped at its ends), dry adiabatic ascent and descent are inverse to each other,
     condensation releases latent heat until saturation and conserves energy, and the humidity mixing ratio is the relative humidity times saturation. The wet bulb temperature solves the enthalpy balance to the precision asked, not above the air temperature,
     at every pressure, level and realization, in any order of cubes and dimensions; its integral is the trapezium sum. The cloud condensation level is where a dry ascent saturates; the convective cloud top is the last level where the saturated parcel
     is warmer, nothing if too shallow. PhaseChangeLevel returns the height at which the wet bulb integral reaches the threshold above the orography, below it by extrapolation along the column, filling missing points from neighbours as documented,
     and the phase probability and masks compare it with the orography. Inputs are not changed.""",
     ["inputs", "configurations"],
     "temperatures 160-350 K, pressures 300-1.1e5 Pa and humidity in steps; columns over all combinations of a small alphabet; orders of cubes and dimensions; phase level patterns x orography x options",
     "Tests compare single values of a recorded run.",
     ["improver/psychrometric_calculations", "improver/generate_ancillaries/generate_svp_table.py"],
     [{"name": "calculate_svp_in_air, saturated_humidity, dry_adiabatic_temperature, adjust_for_latent_heat, WetBulbTemperature, WetBulbTemperatureIntegral, CloudCondensationLevel, CloudTopTemperature, PhaseChangeLevel, PrecipPhaseProbability, SignificantPhaseMask", "where": "improver/psychrometric_calculations"}],
     MC, "The cloud top converts units in place, as a repository test demands; masks of PrecipPhaseProbability inputs are not claimed.")
prop("C39", "Precipitation types, hail and showers follow their definitions",
     """HailSize looks up both tables of Hand and Cappelluti: the first with the dry descent and saturated ascent differences rounded to 5 K and 0.5 K (no hail for negative or missing ones or a cloud base below 268.15 K), the second, by the wet bulb freezing
     altitude above ground, from 3350 m upwards only and zero from 4400 m. HailFraction rises linearly from 0 at 5 m/s to 0.25 at 50 m/s updraught, 0 unless cloud base is at least 268.15 K, cloud top at most 258.15 K and the melting level at or below ground,
     and at least 0.05 where hail exceeds 2 mm. Snow, sleet and rain probabilities add up to 1 (negative sleet refused). Freezing rain is the mean over the realizations common to all cubes of (rain + sleet) x probability below 0 C. The convective ratio is
     masked exactly where there is no precipitation. Showers are where cloud is at most or the convective ratio above the threshold, averaged over realizations. Snow fraction is snow over total, from the nearest precipitating point where there is none;
     the rain and snow parts of SnowSplitter add up to the precipitation. Low visibility probability is the larger of itself and the cloud base probability scaled by the quartic factor. Any units, no input changed.""",
     ["inputs", "configurations"],
     "the complete tables x 21 altitudes; 216 combinations of limits x updraughts x units; products of probability levels; realization sets; all wet/dry patterns of 2x3 grids; orders of cubes and dimensions",
     "Tests check a few cells with equal units and realizations.",
     ["improver/precipitation_type", "improver/psychrometric_calculations/hail_size.py", "improver/visibility"],
     [{"name": "HailSize, HailFraction, calculate_sleet_probability, FreezingRain, ConvectionRatioFromComponents, ShowerConditionProbability, SnowFraction, SnowSplitter, VisibilityCombineCloudBase", "where": "improver/precipitation_type, improver/psychrometric_calculations/hail_size.py, improver/visibility"}],
     MC, "A length-one realization dimension for the shower condition is not claimed.")
