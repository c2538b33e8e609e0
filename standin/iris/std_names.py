"""CF standard names that matter to IMPROVER (a subset of the CF table)."""
_TABLE = """
time s
realization 1
forecast_period s
forecast_reference_time s
height m
depth m
latitude degree_north
longitude degree_east
grid_latitude degree
grid_longitude degree
projection_x_coordinate m
projection_y_coordinate m
altitude m
surface_altitude m
air_temperature K
air_pressure Pa
surface_air_pressure Pa
air_pressure_at_sea_level Pa
air_pressure_at_mean_sea_level Pa
air_potential_temperature K
air_temperature_lapse_rate K m-1
surface_temperature K
dew_point_temperature K
wet_bulb_temperature K
relative_humidity 1
specific_humidity 1
humidity_mixing_ratio 1
wind_speed m s-1
wind_speed_of_gust m s-1
wind_from_direction degree
wind_to_direction degree
x_wind m s-1
y_wind m s-1
eastward_wind m s-1
northward_wind m s-1
upward_air_velocity m s-1
lagrangian_tendency_of_air_pressure Pa s-1
grid_eastward_wind m s-1
grid_northward_wind m s-1
precipitation_amount kg m-2
precipitation_flux kg m-2 s-1
lwe_precipitation_rate m s-1
lwe_thickness_of_precipitation_amount m
lwe_thickness_of_snowfall_amount m
lwe_thickness_of_convective_precipitation_amount m
lwe_thickness_of_stratiform_precipitation_amount m
lwe_thickness_of_surface_snow_amount m
lwe_convective_precipitation_rate m s-1
lwe_stratiform_precipitation_rate m s-1
lwe_snowfall_rate m s-1
lwe_large_scale_precipitation_rate m s-1
lwe_convective_snowfall_rate m s-1
convective_rainfall_rate m s-1
stratiform_rainfall_rate m s-1
rainfall_rate m s-1
rainfall_flux kg m-2 s-1
rainfall_amount kg m-2
thickness_of_rainfall_amount m
thickness_of_snowfall_amount m
thickness_of_convective_rainfall_amount m
snowfall_flux kg m-2 s-1
snowfall_amount kg m-2
cloud_area_fraction 1
low_type_cloud_area_fraction 1
medium_type_cloud_area_fraction 1
high_type_cloud_area_fraction 1
low_cloud_area_fraction 1
convective_cloud_area_fraction 1
cloud_base_altitude m
convective_cloud_base_height m
fog_area_fraction 1
visibility_in_air m
land_binary_mask 1
land_area_fraction 1
sea_area_fraction 1
area_fraction 1
surface_roughness_length m
surface_downwelling_shortwave_flux_in_air W m-2
surface_downwelling_shortwave_flux_in_air_assuming_clear_sky W m-2
integral_wrt_time_of_surface_downwelling_shortwave_flux_in_air W s m-2
integral_of_surface_downwelling_shortwave_flux_in_air_wrt_time W s m-2
surface_upwelling_shortwave_flux_in_air W m-2
surface_downwelling_longwave_flux_in_air W m-2
surface_direct_downwelling_shortwave_flux_in_air W m-2
atmosphere_boundary_layer_thickness m
atmosphere_convective_available_potential_energy J kg-1
atmosphere_convective_inhibition J kg-1
atmosphere_specific_convective_available_potential_energy J kg-1
wet_bulb_potential_temperature K
freezing_level_altitude m
wet_bulb_freezing_level_altitude m
model_level_number 1
atmosphere_mass_content_of_water_vapor kg m-2
mass_fraction_of_cloud_ice_in_air 1
geopotential_height m
sea_surface_temperature K
sea_surface_wave_significant_height m
soil_temperature K
duration_of_sunshine s
solar_azimuth_angle degree
solar_zenith_angle degree
solar_elevation_angle degree
standard_deviation_of_height_in_grid_cell
number_of_observations 1
platform_name 1
platform_id 1
region 1
toa_incoming_shortwave_flux W m-2
ultraviolet_index 1
atmosphere_optical_thickness_due_to_ambient_aerosol 1
surface_snow_thickness m
frequency_of_lightning_flashes_per_unit_area m-2 s-1
temperature_difference_between_ambient_air_and_air_lifted_adiabatically_from_the_surface K
temperature_difference_between_ambient_air_and_air_lifted_adiabatically K
latent_heat_flux W m-2
"""
STD_NAMES = {}
for _line in _TABLE.strip().splitlines():
    _parts = _line.split(None, 1)
    STD_NAMES[_parts[0]] = {"canonical_units": _parts[1] if len(_parts) > 1 else "m"}
# not CF standard names (kept out although IMPROVER uses them as names)
for _n in (
    "wind_speed_of_gust_",
    "air_temperature_lapse_rate_",
    "precipitation_rate",
    "temperature_difference_between_ambient_air_and_air_lifted_adiabatically",
    "sea_area_fraction_",
    "latent_heat_flux",
    "surface_snow_thickness_",
    "air_pressure_at_sea_level",
    "dew_point_temperature_",
    "lwe_large_scale_precipitation_rate_",
    "ultraviolet_index_",
):
    STD_NAMES.pop(_n, None)
STD_NAMES["air_pressure_at_sea_level"] = {"canonical_units": "Pa"}
