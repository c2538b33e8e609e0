MC = "explicit-state model checking: exhaustive enumeration of times, fields, options, layouts and call histories within bounds, each executed on the implementation and compared with a reference model"
prop("C40", "The sun, day/night and interpolation in time follow their definitions",
     """The solar declination is -23.5 cos(0.9856 d + 9.3) degrees, the equation of time and the hour angle give local solar time, and sin(elevation) follows from declination, latitude and hour angle for every day, hour, latitude and longitude; arguments out of range are refused.
     DayNightMask marks day where the sun is above the horizon at each time (the middle of the bounds if there are any), on projected and latitude-longitude grids alike, for every time and leading dimension, whatever the plugin processed before.
     TemporalInterpolation returns exactly the times asked (or every interval, also over more than 24 hours): linear between two cubes, the shorter way round for directions, accumulations split in proportion to interpolated rates and renormalised so that the parts add up to the whole period
     (zero where it is dry), maxima and minima limited by the rules documented, day/night interpolation zero at night and solar interpolation scaled by sin(elevation), with times, periods and bounds of every result right, units and types kept, and inputs unchanged, in either order of arguments.
     Local solar time, clear sky radiation accumulated by the trapezium rule with the linke turbidity and altitude, and the UV index (scaled, negative refused) follow their formulae.""",
     ["inputs", "configurations", "histories"],
     "days x hours x latitudes x longitudes; grids x dates x numbers of times x bounds x leading dimensions; every divisor interval of periods from 2 to 30 hours x interpolation methods; every ordered choice of up to three of five times; histories of three kinds of grid",
     "Tests look at a few times within one day.",
     ["improver/utilities/solar.py", "improver/utilities/temporal_interpolation.py", "improver/generate_ancillaries/generate_derived_solar_fields.py", "improver/uv_index.py"],
     [{"name": "calc_solar_declination, calc_solar_time, calc_solar_elevation, DayNightMask, TemporalInterpolation, GenerateSolarTime, GenerateClearskySolarRadiation, calculate_uv_index", "where": "improver/utilities, improver/generate_ancillaries, improver/uv_index.py"}],
     MC, "Cubes whose spatial dimensions are ordered x, y are not claimed for the day/night mask.")
prop("C41", "Wind direction, components, gusts, updraughts and downscaling are right",
     """WindDirection is the direction of the mean unit vector over the realizations, in [0, 360) degrees whatever the unit, for each slice of the other dimensions, in their order; where the realizations cancel out it is the direction of the first realization or of the neighbourhood mean, as asked.
     ResolveWindComponents gives the components of the wind along the x and y axes of the grid, so that speed and direction are recovered, for directions from and to and any leading dimensions. WindGustDiagnostic is the larger of the gust percentile and the wind speed percentile,
     after checking the percentiles, times and names. VerticalUpdraught is 0.25 sqrt(2 CAPE) above 10 J/kg plus 7.33 (precipitation in mm/h / 28.7)^0.22 above 5 mm/h, in any units, argument order and layout. RoughnessCorrection and the wind-downscaling command apply, independently for each
     column, the log profile below the reference height where there is a vegetative roughness and the height correction exp(-kh) u(1/k) k (orography difference), never negative, leaving sea points, missing ancillaries and non-positive roughness alone, in every order of dimensions. Inputs are not changed.""",
     ["inputs", "configurations", "histories"],
     "all combinations of six directions for up to four realizations; orders of leading dimensions; grid origins x direction kinds x units; percentile pairs x forms x time relations; 400 columns of roughness, height and orography values x profiles x resolutions x layouts; histories of two or three calls",
     "Tests compare a few recorded values.",
     ["improver/wind_calculations"],
     [{"name": "WindDirection, ResolveWindComponents, WindGustDiagnostic, VerticalUpdraught, RoughnessCorrection, FrictionVelocity", "where": "improver/wind_calculations"}],
     MC, "The grid rotation of wind components relies on the stand-in for cartopy.")
