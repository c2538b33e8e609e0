MC = "explicit-state model checking: exhaustive enumeration of fields, velocities, units, masks, options, orders and call histories within bounds, each executed on the implementation and compared with a reference model"
prop("C42", "Radar nowcasting accumulates, advects and masks precipitation correctly",
     """Accumulation integrates rates over each period by the mean of consecutive rates times the time between them, in the units asked, masked where any contributing rate is missing, for the cubes in any order, with the time bounds, forecast period and cell method of each period; periods that do not
     divide into the interval of the rates and other unsuitable choices are refused, and a plugin used again with defaults behaves as if new. AdvectField moves a field by its velocities backwards along the trajectory with bilinear interpolation: a point is missing where its source lies outside the domain
     or any of the surrounding points is missing, whatever the velocity units; CreateExtrapolationForecast gives the analysis and one forecast for each interval up to the maximum with the enhancement of each time put back. ApplyOrographicEnhancement adds or subtracts the enhancement of the nearest time where there is
     precipitation (at least 1/32 mm/h is kept), in any units. ExtendRadarMask and FillRadarHoles mask and fill radar composites by coverage codes: holes with less than 30 % of the 9x9 neighbourhood masked get the geometric mean of the valid points of the 5x5 neighbourhood. Inputs, also lists and velocities, are not changed.""",
     ["inputs", "configurations", "histories"],
     "numbers of rates x intervals x periods x units x masks, every order of up to four; velocity pairs on a lattice of fractions x masks x units x times; enhancement operations x times x units; every neighbourhood count of masked points around radar holes; histories of up to three calls",
     "Tests compare a few recorded fields.",
     ["improver/nowcasting/accumulation.py", "improver/nowcasting/forecasting.py", "improver/nowcasting/utilities.py"],
     [{"name": "Accumulation, AdvectField, CreateExtrapolationForecast, ApplyOrographicEnhancement, ExtendRadarMask, FillRadarHoles", "where": "improver/nowcasting"}],
     MC, "Advection of cubes with more than two dimensions is refused by the implementation and not claimed.")
prop("C43", "Lightning probabilities and the feels-like temperature follow their formulae",
     """LightningFromCapePrecip is 1 where CAPE exceeds a threshold falling from 500 J/kg within 10 degrees of the equator to 350 J/kg beyond 50 degrees of latitude and the precipitation rate exceeds one falling from 4 to 1 mm/h per three hours, in both hemispheres, on any grid, units, order of dimensions and order of
     arguments, with the time and period of the precipitation. LightningMultivariateProbability_USAF2024 is the documented combination of CAPE, lifted index, precipitable water, convective inhibition and 3-hour precipitation for every branch, limited to [0, 0.95]. NowcastLightning combines
     first guess, lightning rate and the precipitation probabilities at each lead time by its documented limits, and ice content where given. The feels-like temperature is the wind chill below 10 C, the apparent temperature above 20 C and their linear mixture between, in the units of the temperature.
     Inputs are not changed; missing, unmatched or foreign inputs are refused.""",
     ["inputs", "configurations", "histories"],
     "seventeen latitudes x six CAPE x six precipitation fractions x periods x units x layouts; values either side of every branch point of the multivariate formula; lattice of rates x guesses x probabilities x lead times x ice; temperatures x winds x humidities x pressures; reuse of plugins",
     "Tests look at a few values.",
     ["improver/lightning.py", "improver/nowcasting/lightning.py", "improver/feels_like_temperature.py"],
     [{"name": "LightningFromCapePrecip, LightningMultivariateProbability_USAF2024, NowcastLightning, calculate_feels_like_temperature", "where": "improver/lightning.py, improver/nowcasting/lightning.py, improver/feels_like_temperature.py"}],
     MC, "One finding: NowcastLightning discards the neighbourhood smoothing of its result. Several times in one cube are not claimed.")
prop("C44", "Orographic enhancement, optical flow and extrapolation follow their equations",
     """OrographicEnhancement is, on the grid of the orography, the condensation rate forced by the upslope wind where the mean orography is at least 20 m, humidity at least 0.8 and the upslope component at least 0.0005 m/s, with the weighted contribution of points upstream within 15 km, in m/s, for fields in any units and order of
     coordinates; fields that do not match are refused. OpticalFlow solves the optical flow equation by least squares in each box after smoothing by the radius that grows with the interval, discards boxes with too little data or too fast, smooths iteratively and gives velocities (m/s) at the time of the later field,
     for fields separated by time or by forecast reference time; generate_optical_flow_components is the mean over consecutive fields in time order whatever the order of the list; generate_advection_velocities_from_winds adds the flow between the advected and the observed field to the background. PystepsExtrapolate
     gives pysteps the precipitation in mm/h without enhancement (if there is one), NaN where masked, and displacements in grid lengths per interval, and returns forecasts for each step with the enhancement of its time, in the units, times (in seconds) and attributes right. Inputs, lists included, are not changed.""",
     ["inputs", "configurations", "histories"],
     "25 winds x spacings x five orographies; twelve sets of fields x spacings x layouts x units; 25 displacements x six configurations of grid, box, interval, iterations and units; every order of up to four fields; intervals x lead times x units x masks x enhancement x attributes",
     "Tests use small artificial fields and recorded values; pysteps tests are skipped where it is not installed.",
     ["improver/orographic_enhancement.py", "improver/nowcasting/optical_flow.py", "improver/nowcasting/pysteps_advection.py"],
     [{"name": "OrographicEnhancement, OpticalFlow, generate_optical_flow_components, generate_advection_velocities_from_winds, PystepsExtrapolate", "where": "improver/orographic_enhancement.py, improver/nowcasting"}],
     MC, "pysteps itself is replaced by a recording model that moves whole grid lengths.")
