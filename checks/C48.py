"""C48: every command does what it documents: its plugin, applied to the inputs in any documented order, with exactly the options given."""
import itertools
from copy import deepcopy
import json
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C48"
ATT = {"title": "UKV", "source": "S", "institution": "I", "mosg__model_configuration": "uk_det"}
MID = "mosg__model_configuration"
COMMANDS = {}
H = 3600


def command(f):
    COMMANDS[f.__name__.replace("_", "-")] = f
    return f


def g(name, units, lo=0.0, hi=1.0, k=0, lead=(), shape=(3, 4), **kw):
    """A field with a fixed pattern of values between lo and hi."""
    import cubes
    import numpy as np

    n = tuple(len(s[1]) for s in lead) + tuple(shape)
    i = np.arange(int(np.prod(n))).reshape(n)
    kw.setdefault("attributes", dict(ATT))
    return cubes.grid((lo + (hi - lo) * ((7 * i + 3 * k) % 11) / 10).astype(np.float32), name=name, units=units, leading=lead, **kw)


def still(name, units, *a, **k):
    return g(name, units, *a, time=None, frt=None, **k)


R = ("realization", [0, 1, 2], "1")


def same(got, want, msg):
    import cubes

    if want is None or isinstance(want, str):
        return expect(got == want, msg, expected=want, got=got)
    if hasattr(want, "slices_over"):
        for x in (got, want):
            if "history" in x.attributes:
                x.attributes["history"] = x.attributes["history"][20:]
        return cubes.expect_cube(got, want, msg)
    expect(len(got) == len(want), msg + ": number of results", expected=len(want), got=len(got))
    for x, y in zip(got, want):
        same(x, y, msg)


def mids(f):
    """The command without and with the name of the model attribute."""
    return [([], lambda *a: f(a, None)), (["--model-id-attr", MID], lambda *a: f(a, MID))]


def orders(cs):
    return [list(p) for p in itertools.permutations(cs)]


# each command yields (inputs, options, reference) ; the reference gets copies of the inputs, or is "refused"
@command
def uv_index():
    from improver.uv_index import calculate_uv_index as f

    for o, ref in mids(lambda a, m: f(*a, model_id_attr=m)):
        yield [g("surface_downwelling_ultraviolet_flux_in_air", "W m-2", 0, 3)], o, ref


@command
def feels_like_temp():
    from improver.feels_like_temperature import calculate_feels_like_temperature as f

    for o, ref in mids(lambda a, m: f(*a, model_id_attr=m)):
        yield [g("air_temperature", "K", 270, 300), g("wind_speed", "m s-1", 1, 20, 1), g("relative_humidity", "1", 0.1, 1, 2), g("air_pressure", "Pa", 99000, 101000, 3)], o, ref


def trh():
    return [g("air_temperature", "K", 270, 300), g("relative_humidity", "1", 0.2, 1, 2), g("air_pressure", "Pa", 99000, 101000, 3)]


@command
def wet_bulb_temperature():
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperature as P

    for o, ref in mids(lambda a, m: P(precision=0.05, model_id_attr=m)(*a)):
        yield trh(), o, ref
    yield trh(), ["--convergence-condition", "5"], lambda *a: P(precision=5)(*a)


def wb(top=4):
    return g("wet_bulb_temperature", "K", 268, 284, lead=[("height", [5.0 + 100 * q for q in range(top)], "m")])


@command
def wet_bulb_temperature_integral():
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperatureIntegral as P

    for o, ref in mids(lambda a, m: P(model_id_attr=m)(*a)):
        yield [wb()], o, ref


@command
def wet_bulb_freezing_level():
    import numpy as np
    from improver.psychrometric_calculations.wet_bulb_temperature import MetaWetBulbFreezingLevel as P

    c = wb()
    c.data = np.broadcast_to(np.array([281, 276, 272, 265], np.float32)[:, None, None], (4, 3, 4)) + np.arange(12, dtype=np.float32).reshape(3, 4) / 4
    yield [c], [], lambda *a: P()(*a)


@command
def phase_change_level():
    import numpy as np
    from improver.psychrometric_calculations.psychrometric_calculations import PhaseChangeLevel as P

    def ins():
        w = wb(5)
        w.data = np.broadcast_to(np.array([281, 277, 274, 270, 264], np.float32)[:, None, None], (5, 3, 4)) + np.arange(12, dtype=np.float32).reshape(3, 4) / 4
        i = g("wet_bulb_temperature_integral", "K m", lead=[("height", [5.0 + 100 * q for q in range(5)], "m")])
        i.data = np.broadcast_to(np.array([500, 180, 60, 20, 0], np.float32)[:, None, None], (5, 3, 4)) * (1 + np.arange(12, dtype=np.float32).reshape(3, 4) / 20)
        return [w, i, still("surface_altitude", "m", 0, 100), still("land_binary_mask", "1", 1, 1)]

    for pc in ("snow-sleet", "sleet-rain", "hail-rain"):
        for o, kw in (([], {}), (["--grid-point-radius", "1"], {"grid_point_radius": 1}), (["--horizontal-interpolation", "False"], {"horizontal_interpolation": False}), (["--model-id-attr", MID], {"model_id_attr": MID})):
            o = ["--phase-change", pc] + o
            kw = dict(dict(grid_point_radius=2, horizontal_interpolation=True, phase_change=pc), **kw)
            yield ins(), o, lambda *a, kw=kw: P(**kw)(*a)
    yield ins()[::-1], ["--phase-change", "snow-sleet"], lambda *a: P("snow-sleet", grid_point_radius=2)(*a[::-1])
    yield ins(), ["--phase-change", "rain-snow"], "refused"


@command
def phase_mask():
    from improver.psychrometric_calculations.significant_phase_mask import SignificantPhaseMask as P

    for ph in ("rain", "snow", "sleet"):
        for o, ref in mids(lambda a, m, ph=ph: P(model_id_attr=m)(*a, ph)):
            yield [g("snow_fraction", "1")], [ph] + o, ref
    yield [g("snow_fraction", "1")], ["kittens"], "refused"


@command
def phase_probability():
    from improver.psychrometric_calculations.precip_phase_probability import PrecipPhaseProbability as P

    for n in ("snow_sleet", "sleet_rain", "hail_rain"):
        for o in orders([0, 1]):
            cs = [g("altitude_of_%s_falling_level" % {"snow_sleet": "snow", "sleet_rain": "rain", "hail_rain": "rain_from_hail"}[n], "m", 10, 400, 1, lead=[("percentile", [20.0, 80.0], "%")]), still("surface_altitude", "m", 0, 300)]
            yield [cs[k] for k in o], [], lambda *a: P()(*a)


@command
def cloud_condensation_level():
    from improver.psychrometric_calculations.cloud_condensation_level import MetaCloudCondensationLevel as P

    hum = lambda: [g("air_temperature", "K", 280, 300), g("surface_air_pressure", "Pa", 99000, 101000, 3), g("relative_humidity", "1", 0.3, 0.9, 2)]  # noqa
    for o, ref in mids(lambda a, m: P(model_id_attr=m)(*a)):
        yield hum(), o, ref
        yield hum()[::-1], o, ref


@command
def convection_ratio():
    from improver.precipitation_type.convection import ConvectionRatioFromComponents as P

    cs = lambda: [g("lwe_convective_precipitation_rate", "m s-1", 0, 1e-6), g("lwe_stratiform_precipitation_rate", "m s-1", 0, 1e-6, 2)]  # noqa
    for o, ref in mids(lambda a, m: P()(a, model_id_attr=m)):
        yield cs(), o, ref
        yield cs()[::-1], o, ref
    yield cs()[:1], [], "refused"
    yield cs() + cs()[:1], [], "refused"


@command
def copy_attributes():
    from improver.utilities.copy_attributes import CopyAttributes as P

    t = lambda: g("x", "1", attributes={"title": "Nowcast", "source": "Other", "history": "h"})  # noqa
    for names in (["title"], ["source", "history"]):
        yield [g("y", "1"), t()], ["--attributes", ",".join(names)], lambda *a, names=names: P(names)(a[0], template_cube=a[1])
    yield [t(), g("y", "1")], ["--attributes", MID], lambda *a: P([MID])(a[0], template_cube=a[1])


@command
def create_grid_with_halo():
    from improver.utilities.pad_spatial import create_cube_with_halo as f

    for o, r in (([], 162000.0), (["--halo-radius", "4000"], 4000.0), (["--halo-radius", "7999.0"], 7999.0)):
        yield [g("x", "1")], o, lambda a, r=r: f(a, r)


@command
def enforce_consistent_forecasts():
    from improver.utilities.forecast_reference_enforcement import EnforceConsistentForecasts as P

    fc = lambda: g("wind_gust", "m s-1", 5, 20)  # noqa
    rf = lambda: g("wind_speed", "m s-1", 5, 20, 2)  # noqa
    ref = ["--ref-name", "wind_speed"]
    d = dict(additive_amount=0.0, multiplicative_amount=1.0, comparison_operator=">=")
    for o, kw in (([], {}), (["--additive-amount", "2"], {"additive_amount": 2.0}), (["--multiplicative-amount", "1.5"], {"multiplicative_amount": 1.5}), (["--comparison-operator", "<="], {"comparison_operator": "<="}),
                  (["--additive-amount", "-1,2", "--multiplicative-amount", "1.0,1.1", "--comparison-operator", ">=,<="], {"additive_amount": [-1.0, 2.0], "multiplicative_amount": [1.0, 1.1], "comparison_operator": [">=", "<="]}),
                  (["--additive-amount", "-2", "--multiplicative-amount", "0.5", "--comparison-operator", "<=", "--diff-for-warning", "500"], {"additive_amount": -2.0, "multiplicative_amount": 0.5, "comparison_operator": "<=", "diff_for_warning": 500.0})):
        for sw in (0, 1):
            cs = [fc(), rf()]
            yield cs[::-1] if sw else cs, ref + o, lambda *a, kw=kw, sw=sw: P(**dict(d, **kw))(a[sw], a[1 - sw])
    yield [fc(), rf()], ref + ["--additive-amount", "1,2"], "refused"
    yield [fc(), rf()], ref + ["--additive-amount", "1,2,3", "--multiplicative-amount", "1,1,1", "--comparison-operator", ">=,<=,>="], "refused"
    yield [fc()], ref, "refused"
    yield [fc(), rf(), g("x", "m s-1")], ref, "refused"
    yield [fc(), rf()], ["--ref-name", "rain"], "refused"


@command
def normalise_to_reference():
    import cubes
    from improver.utilities.forecast_reference_enforcement import normalise_to_reference as f

    n = ["rain", "snow", "sleet"]
    cs = lambda z=0: [g(x, "m s-1", z, 2, k + z) for k, x in enumerate(n)]  # noqa
    ref = lambda: g("precip", "m s-1", 3, 6, 4)  # noqa
    for w in n:
        for pos in range(4):
            c = cs(1)
            c.insert(pos, ref())
            yield c, ["--reference-name", "precip", "--return-name", w], lambda *a, w=w: [q for q in f([x for x in a if x.name() != "precip"], [x for x in a if x.name() == "precip"][0], False) if q.name() == w][0]

    def zero():
        z = cs(1)
        for q in z:
            q.data[1, 1] = 0
        return z

    yield zero() + [ref()], ["--reference-name", "precip", "--return-name", "rain"], "refused"
    yield zero() + [ref()], ["--reference-name", "precip", "--return-name", "rain", "--ignore-zero-total"], lambda *a: f(list(a[:3]), a[3], True)[0]
    yield cs(1), ["--reference-name", "precip", "--return-name", "rain"], "refused"
    yield cs(1) + [ref(), ref()], ["--reference-name", "precip", "--return-name", "rain"], "refused"
    yield cs(1) + [ref()], ["--reference-name", "precip", "--return-name", "hail"], "refused"


@command
def extend_radar_mask():
    import numpy as np
    from improver.nowcasting.utilities import ExtendRadarMask as P

    c = g("lwe_precipitation_rate", "m s-1")
    c.data = np.ma.masked_array(c.data, np.arange(12).reshape(3, 4) % 5 == 0)
    v = g("radar_coverage", "1")
    v.data = np.array([[0, 1, 2, 3], [1, 2, 3, 0], [1, 1, 1, 0]], np.int32)
    yield [c, v], [], lambda *a: P()(*a)


@command
def fill_radar_holes():
    import numpy as np
    from improver.nowcasting.utilities import FillRadarHoles as P

    c = g("lwe_precipitation_rate", "mm h-1", 0.5, 2, shape=(9, 9))
    m = np.zeros((9, 9), bool)
    m[4, 4] = m[4, 5] = True
    c.data = np.ma.masked_array(c.data, m)
    yield [c], [], lambda *a: P()(*a)


@command
def extract_from_table():
    from improver.utilities.extract_from_table import ExtractValueFromTable as P

    t = {"data": {str(c): {str(r): float(3 * i + j) for i, r in enumerate((0, 20, 40))} for j, c in enumerate((0, 5, 10))}, "metadata": {"units": "m s-1"}}
    cs = lambda: [g("wind_speed", "m s-1", 0, 15), g("temp", "K", 0, 60, 1)]  # noqa
    for o in ([], ["--new-name", "nn"]):
        for sw in (0, 1):
            yield (cs()[::-1] if sw else cs()) , ["--table", t, "--row-name", "temp"] + o, lambda *a, o=o: P(row_name="temp", new_name=o[1] if o else None)(a, table=t)


@command
def field_texture():
    import cubes
    import numpy as np
    from improver.utilities.textural import FieldTexture as P

    def c():
        return cubes.grid((np.arange(2 * 2 * 36).reshape(2, 2, 6, 6) * 7 % 11 > 5).astype(np.float32), name="probability_of_cloud_area_fraction_above_threshold", units="1", attributes=dict(ATT),
                       leading=[("realization", [0, 1], "1"), ("cloud_area_fraction", [0.65, 0.8125], "1", np.float32, {"spp__relative_to_threshold": "greater_than"}, True)])

    d = dict(nbhood_radius=20000.0, textural_threshold=0.05, diagnostic_threshold=0.8125, model_id_attr=None)
    for o, kw in ((["--nbhood-radius", "4000"], {"nbhood_radius": 4000.0}), (["--nbhood-radius", "2000", "--textural-threshold", "0.3"], {"nbhood_radius": 2000.0, "textural_threshold": 0.3}),
                  (["--nbhood-radius", "4000", "--diagnostic-threshold", "0.65"], {"nbhood_radius": 4000.0, "diagnostic_threshold": 0.65}), (["--nbhood-radius", "4000", "--model-id-attr", MID], {"nbhood_radius": 4000.0, "model_id_attr": MID})):
        q = dict(d, **kw)
        yield [c()], o, lambda a, q=q: P(q["nbhood_radius"], q["textural_threshold"], q["diagnostic_threshold"], model_id_attr=q["model_id_attr"])(a)
    yield [c()], ["--diagnostic-threshold", "0.5"], "refused"


@command
def generate_landmask_ancillary():
    from improver.generate_ancillaries.generate_ancillary import CorrectLandSeaMask as P

    yield [still("land_area_fraction", "1")], [], lambda *a: P()(*a)


@command
def generate_solar_time():
    from datetime import datetime, timezone

    from improver.generate_ancillaries.generate_derived_solar_fields import GenerateSolarTime as P

    for t in ("20200105T0600Z", "20200704T1830Z"):
        for o in ([], ["--new-title", "A title"]):
            yield [still("x", "1", spacing=200000.0)], ["--time", t] + o, lambda a, t=t, o=o: P()(a, datetime.strptime(t, "%Y%m%dT%H%MZ").replace(tzinfo=timezone.utc), new_title=o[1] if o else None)


@command
def generate_clearsky_solar_radiation():
    from datetime import datetime, timezone

    from improver.generate_ancillaries.generate_derived_solar_fields import GenerateClearskySolarRadiation as P

    tg = lambda: still("x", "1", spacing=200000.0)  # noqa
    al = lambda: still("surface_altitude", "m", 0, 900, 1, spacing=200000.0)  # noqa
    tl = lambda: still("linke_turbidity", "1", 2, 4, 2, spacing=200000.0)  # noqa
    T = datetime(2020, 7, 4, 12, 30, tzinfo=timezone.utc)
    b = ["--time", "20200704T1230Z", "--accumulation-period", "3"]
    for n, o, kw in ((1, [], {}), (2, [], {}), (3, [], {}), (3, ["--temporal-spacing", "60"], {"temporal_spacing": 60}), (1, ["--new-title", "A title"], {"new_title": "A title"})):
        yield [tg(), al(), tl()][:n], b + o, lambda *a, kw=kw: P()(a[0], T, 3, **dict(dict(surface_altitude=a[1] if len(a) > 1 else None, linke_turbidity=a[2] if len(a) > 2 else None), **kw))


@command
def apply_night_mask():
    import cubes
    import numpy as np
    from improver.utilities.solar import DayNightMask

    def ref(c):
        m = DayNightMask()(c).data
        c.data = np.where(np.broadcast_to(m == 0, c.shape), 0, c.data)
        return c

    for lead in ([], [R]):
        for hour in (0, 6, 12, 18):
            c = g("uv_index", "1", 1, 9, lead=lead, spatial="latlon", spacing=30.0, origin=(-30.0, -60.0), time=cubes.T0 + hour * H, frt=cubes.T0 - 6 * H)
            yield [c], [], ref
    for spp, ok in (("greater_than", 1), ("less_than", 0)):
        c = cubes.prob(np.linspace(0.1, 1, 24).reshape(2, 3, 4).astype(np.float32), [1.0, 2.0], diag="uv_index", tunits="1", spp=spp, spatial="latlon", spacing=30.0, origin=(-30.0, -60.0))
        yield [c], [], ref if ok else "refused"


@command
def height_of_max_vertical_velocity():
    from improver.utilities.cube_manipulation import height_of_maximum as f, maximum_in_height

    def ins():
        c = g("upward_air_velocity", "m s-1", -1, 3, lead=[("height", [5.0, 75.0, 200.0, 400.0], "m")])
        return [c, maximum_in_height(c, new_name="max_upward_air_velocity")]

    d = "height_of_maximum_upward_air_velocity"
    for o, kw in (([], {}), (["--find-lowest", "False"], {"find_lowest": False}), (["--new-name", "nn"], {"new_name": "nn"})):
        yield ins(), o, lambda *a, kw=kw: f(*a, **dict(dict(find_lowest=True, new_name=d), **kw))


@command
def max_in_height():
    from improver.utilities.cube_manipulation import maximum_in_height as f

    c = lambda: g("upward_air_velocity", "m s-1", -1, 3, lead=[("height", [5.0, 75.0, 200.0, 400.0], "m")])  # noqa
    for o, kw in (([], {}), (["--lower-height-bound", "75"], {"lower_height_bound": 75.0}), (["--upper-height-bound", "75"], {"upper_height_bound": 75.0}), (["--lower-height-bound", "70", "--upper-height-bound", "210"], {"lower_height_bound": 70.0, "upper_height_bound": 210.0}),
                  (["--new-name", "nn"], {"new_name": "nn"})):
        yield [c()], o, lambda a, kw=kw: f(a, **kw)
    yield [c()], ["--lower-height-bound", "500"], "refused"


def hourly(name, units, n=3, lead=(), attributes=None, lo=0.0, hi=3.0):
    import cubes

    return [g(name, units, lo, hi, k, lead=lead, time=cubes.T0 + (k + 1) * H, time_bounds=(cubes.T0 + k * H, cubes.T0 + (k + 1) * H)) for k in range(n)]


@command
def max_in_time_window():
    from iris.cube import CubeList
    from improver.cube_combiner import MaxInTimeWindow as P

    yield hourly("wind_gust", "m s-1", 1), [], "refused"
    for n in (2, 3):
        yield hourly("wind_gust", "m s-1", n), [], lambda *a: P()(CubeList(a))
    yield hourly("wind_gust", "m s-1", 3, [R])[::-1], ["--minimum-realizations", "2"], lambda *a: P(minimum_realizations=2)(CubeList(a))
    yield hourly("wind_gust", "m s-1", 3, [R]), ["--minimum-realizations", "4"], "refused"


@command
def integrate_time_bounds():
    from improver.utilities.temporal import integrate_time as f

    for o in ([], ["--new-name", "nn"]):
        yield hourly("lwe_precipitation_rate", "m s-1", 1), o, lambda a, o=o: f(a, new_name=o[1] if o else None)


@command
def relabel_to_period():
    import cubes
    from improver.utilities.temporal import relabel_to_period as f

    for p in ("1", "3", "6"):
        yield [g("x", "1")], ["--period", p], lambda a, p=p: f(a, int(p))
    yield [g("x", "1")], ["--period", "0"], "refused"
    yield hourly("x", "1", 1), [], "refused"


@command
def interpolate_using_difference():
    import numpy as np
    from improver.utilities.interpolation import InterpolateUsingDifference as P

    def ins():
        c = g("snow_level", "m", 100, 500)
        c.data = np.ma.masked_array(c.data, np.arange(12).reshape(3, 4) % 4 == 1)
        return [c, g("freezing_level", "m", 300, 900, 3), still("surface_altitude", "m", 150, 220, 2)]

    for n, o, kw in ((2, [], {}), (3, [], {"limit_as_maximum": True}), (3, ["--limit-as-maximum", "False"], {"limit_as_maximum": False}), (2, ["--limit-as-maximum", "False"], {"limit_as_maximum": False})):
        yield ins()[:n], o, lambda *a, kw=kw: P(**kw)(a[0], reference_cube=a[1], limit=a[2] if len(a) > 2 else None)


@command
def lightning_from_cape_and_precip():
    import cubes
    from improver.lightning import LightningFromCapePrecip as P

    cs = lambda: [g("atmosphere_convective_available_potential_energy", "J kg-1", 0, 1000, lead=[R], spatial="latlon", time=cubes.T0 + 3 * H), g("precipitation_rate_max", "mm h-1", 0, 6, 2, lead=[R], spatial="latlon", time=cubes.T0 + 4 * H, time_bounds=(cubes.T0 + 3 * H, cubes.T0 + 4 * H))]  # noqa
    for o, ref in mids(lambda a, m: P(model_id_attr=m)(*a)):
        for c in orders(cs()):
            yield c, o, ref


@command
def lightning_multivariate_probability_usaf2024():
    import cubes
    from iris.cube import CubeList
    from improver.lightning import LightningMultivariateProbability_USAF2024 as P

    def cs():
        t = dict(time=cubes.T0 + 3 * H)
        return [g("atmosphere_specific_convective_available_potential_energy", "J kg-1", 0, 3000, **t), g("atmosphere_specific_convective_inhibition", "J kg-1", -200, 0, 1, **t), g("temperature_difference_between_ambient_air_and_air_lifted_adiabatically", "K", -6, 4, 2, **t),
                g("precipitable_water", "kg m-2", 5, 50, 3, **t), g("precipitation_amount", "kg m-2", 0, 6, 4, time=cubes.T0 + 6 * H, time_bounds=(cubes.T0 + 3 * H, cubes.T0 + 6 * H))]

    for o, ref in mids(lambda a, m: P()(CubeList(a), model_id_attr=m)):
        yield cs(), o, ref
        yield cs()[::-1], o, ref


@command
def remake_as_shower_condition():
    import cubes
    import numpy as np
    from improver.precipitation_type.utilities import make_shower_condition_cube as f

    yield [cubes.prob(np.linspace(0, 1, 12).reshape(1, 3, 4).astype(np.float32), [0.05], diag="texture_of_cloud_area_fraction", tunits="1")[0]], [], lambda a: f(a)


@command
def shower_condition_probability():
    from iris.cube import CubeList
    from improver.precipitation_type.shower_condition_probability import ShowerConditionProbability as P

    cs = lambda: [g("low_and_medium_type_cloud_area_fraction", "1", 0, 1, lead=[R]), g("convective_ratio", "1", 0, 1, 3, lead=[R])]  # noqa
    for o, ref in mids(lambda a, m: P(cloud_threshold=0.8125, convection_threshold=0.8, model_id_attr=m)(CubeList(a))):
        yield cs(), ["--cloud-threshold", "0.8125", "--convection-threshold", "0.8"] + o, ref
        yield cs()[::-1], ["--cloud-threshold", "0.8125", "--convection-threshold", "0.8"] + o, ref
    yield cs(), ["--cloud-threshold", "0.2", "--convection-threshold", "0.5"], lambda *a: P(cloud_threshold=0.2, convection_threshold=0.5)(CubeList(a))


@command
def sleet_probability():
    import cubes
    import numpy as np
    from improver.precipitation_type.calculate_sleet_prob import calculate_sleet_probability as f

    s = g("probability_of_snow_at_surface", "1", 0, 0.5)
    r = g("probability_of_rain_at_surface", "1", 0, 0.5, 2)
    yield [s, r], [], lambda *a: f(*a)
    s = g("probability_of_snow_at_surface", "1", 0, 1)
    r = g("probability_of_rain_at_surface", "1", 0, 1, 2)
    yield [s, r], [], "refused"


def precip():
    return [g("rainfall_rate", "m s-1", 0, 1e-6, lead=[R]), g("lwe_snowfall_rate", "m s-1", 0, 1e-6, 2, lead=[R])]


@command
def snow_fraction():
    from iris.cube import CubeList
    from improver.precipitation_type.snow_fraction import SnowFraction as P

    for o, ref in mids(lambda a, m: P(model_id_attr=m)(CubeList(a))):
        for c in orders(precip()):
            yield c, o, ref


@command
def snow_splitter():
    from improver.precipitation_type.snow_splitter import SnowSplitter as P

    for v in (True, False):
        cs = [g("probability_of_rain_at_surface", "1", 0, 1, lead=[R]), g("probability_of_snow_at_surface", "1", 0, 1, 2, lead=[R]), g("precipitation_rate", "m s-1", 0, 1e-6, 3, lead=[R])]
        cs[1].data = 1 - cs[0].data
        for c in orders(cs):
            yield c, ["--output-is-rain", str(v)], lambda *a, v=v: P(output_is_rain=v)(*a)


@command
def freezing_rain():
    import cubes
    import numpy as np
    from improver.precipitation_type.freezing_rain import FreezingRain as P

    def ins():
        t = dict(time=cubes.T0 + 4 * H, time_bounds=(cubes.T0 + 3 * H, cubes.T0 + 4 * H))
        d = [np.linspace(0.1, 1, 24).reshape(2, 3, 4).astype(np.float32)[::-1] * k for k in (1, 0.8, 0.9)]
        return [cubes.prob(d[0], [1e-8, 1e-7], diag="rainfall_rate", tunits="m s-1", attributes=dict(ATT), **t), cubes.prob(d[1], [1e-8, 1e-7], diag="lwe_sleetfall_rate", tunits="m s-1", attributes=dict(ATT), **t),
                cubes.prob(d[2][:, ::-1], [272.15, 273.15], diag="air_temperature", tunits="K", spp="less_than", attributes=dict(ATT), **t)]

    for o, ref in mids(lambda a, m: P(model_id_attr=m)(*a)):
        for c in orders(ins()):
            yield c, o, ref
    yield ins()[:2], [], "refused"


def hail_inputs():
    return [g(n, u, lo, hi, k) for k, (n, u, lo, hi) in enumerate([("maximum_vertical_updraught", "m s-1", 0, 60), ("diameter_of_hail_stones", "m", 0, 0.06), ("air_temperature_at_condensation_level", "K", 255, 290),
            ("air_temperature_at_convective_cloud_top", "K", 215, 280), ("altitude_of_rain_from_hail_falling_level", "m", 0, 2500)])] + [still("surface_altitude", "m", 0, 100)]


@command
def hail_fraction():
    from improver.precipitation_type.hail_fraction import HailFraction as P

    for o, ref in mids(lambda a, m: P(model_id_attr=m)(*a)):
        yield hail_inputs(), o, ref
        yield hail_inputs()[::-1], o, ref


def hail_size_inputs():
    import numpy as np

    p = [100000.0, 80000.0, 60000.0, 40000.0]
    t = g("air_temperature", "K", lead=[("pressure", p, "Pa")])
    t.data = (np.array([300, 285, 265, 240], np.float32)[:, None, None] + np.zeros((3, 4), np.float32)).astype(np.float32)
    return [t, g("air_pressure_at_condensation_level", "Pa", 85000, 95000, 1), g("air_temperature_at_condensation_level", "K", 285, 292, 2), g("wet_bulb_freezing_level_altitude", "m", 2000, 4000, 3), still("surface_altitude", "m", 0, 100)]


@command
def hail_size():
    from improver.psychrometric_calculations.hail_size import HailSize as P

    for o, ref in mids(lambda a, m: P(model_id_attr=m)(*a)):
        yield hail_size_inputs(), o, ref
        yield hail_size_inputs()[::-1], o, ref


@command
def resolve_wind_components():
    import cubes
    from iris.cube import CubeList
    from improver.wind_calculations.wind_components import ResolveWindComponents as P

    yield [g("wind_speed", "m s-1", 1, 9), g("wind_from_direction", "degrees", 0, 350, 2)], [], lambda *a: CubeList(P()(*a))


@command
def wind_direction():
    from improver.wind_calculations.wind_direction import WindDirection as P

    c = lambda: g("wind_from_direction", "degrees", 0, 360, lead=[("realization", [0, 1, 2, 3], "1")], shape=(5, 5))  # noqa
    yield [c()], [], lambda a: P(backup_method="neighbourhood")(a)
    for m in ("neighbourhood", "first_realization"):
        yield [c()], ["--backup-method", m], lambda a, m=m: P(backup_method=m)(a)
    yield [c()], ["--backup-method", "random"], "refused"


@command
def wind_gust_diagnostic():
    from improver.wind_calculations.wind_gust_diagnostic import WindGustDiagnostic as P

    def ins():
        p = ("percentile", [40.0, 50.0, 80.0, 95.0], "%")
        a, b = hourly("wind_speed_of_gust", "m s-1", 1, [p], lo=8, hi=30)[0], hourly("wind_speed", "m s-1", 1, [p], lo=5, hi=20)[0]
        from iris.coords import CellMethod
        a.add_cell_method(CellMethod("maximum", coords="time"))
        b.add_cell_method(CellMethod("maximum", coords="time"))
        return [a, b]

    for o, p in (([], (50.0, 95.0)), (["--wind-gust-percentile", "40"], (40.0, 95.0)), (["--wind-speed-percentile", "80"], (50.0, 80.0))):
        yield ins(), o, lambda *a, p=p: P(*p)(*a)
    yield ins(), ["--wind-gust-percentile", "60"], "refused"


@command
def vertical_updraught():
    import cubes
    from improver.wind_calculations.vertical_updraught import VerticalUpdraught as P

    cs = lambda: [g("atmosphere_convective_available_potential_energy", "J kg-1", 0, 2000, time=cubes.T0 + 3 * H), g("lwe_precipitation_rate_max", "m s-1", 0, 1e-5, 2, time=cubes.T0 + 4 * H, time_bounds=(cubes.T0 + 3 * H, cubes.T0 + 4 * H))]  # noqa
    for o, ref in mids(lambda a, m: P(model_id_attr=m)(*a)):
        for c in orders(cs()):
            yield c, o, ref


@command
def visibility_combine_cloud_base():
    import cubes
    import numpy as np
    from improver.visibility.visibility_combine_cloud_base import VisibilityCombineCloudBase as P

    def ins():
        th = [40.0, 100.0, 1000.0, 5000.0, 9000.0]
        v = cubes.prob(np.sort(np.linspace(0.1, 1, 60).reshape(5, 3, 4), axis=0).astype(np.float32), th, diag="visibility_in_air", tunits="m", spp="less_than", attributes=dict(ATT))
        b = cubes.prob((np.arange(12).reshape(1, 3, 4) * 5 % 11 / 10).astype(np.float32), [4.5], diag="cloud_base_height_assuming_only_consider_cloud_area_fraction_greater_than_4p5_oktas", tunits="m", spp="less_than", attributes=dict(ATT))[0]
        return [v, b]

    for i, f in ((0.6, 5000), (0.3, 1000)):
        for sw in (0, 1):
            yield ins()[::-1] if sw else ins(), ["--initial-scaling-value", str(i), "--first-unscaled-threshold", str(f)], lambda *a, i=i, f=f: P(i, f)(a)


@command
def temporal_interpolate():
    import cubes
    from datetime import datetime
    from improver.utilities.cube_manipulation import MergeCubes
    from improver.utilities.temporal_interpolation import TemporalInterpolation as P

    def pair(bounds=False, name="air_temperature", sw=0):
        cs = [g(name, "K", 270, 290, k, time=cubes.T0 + 6 * H * (k + 1), frt=cubes.T0, **({"time_bounds": (cubes.T0 + 6 * H * k, cubes.T0 + 6 * H * (k + 1))} if bounds else {}), spatial="latlon", spacing=10.0) for k in range(2)]
        return cs[::-1] if sw else cs

    t0 = datetime.utcfromtimestamp(cubes.T0)
    times = [datetime.utcfromtimestamp(cubes.T0 + (6 + h) * H) for h in (1, 4)]
    ts = ",".join(t.strftime("%Y%m%dT%H%MZ") for t in times)
    for o, kw, b in ((["--interval-in-mins", "180"], {"interval_in_minutes": 180}, False), (["--interval-in-mins", "120"], {"interval_in_minutes": 120}, False), (["--times", ts], {"times": times}, False),
                     (["--interval-in-mins", "180", "--interpolation-method", "daynight"], {"interval_in_minutes": 180, "interpolation_method": "daynight"}, False), (["--interval-in-mins", "180", "--interpolation-method", "solar"], {"interval_in_minutes": 180, "interpolation_method": "solar"}, False),
                     (["--interval-in-mins", "180", "--accumulation"], {"interval_in_minutes": 180, "accumulation": True}, True), (["--interval-in-mins", "180", "--max"], {"interval_in_minutes": 180, "max": True}, True), (["--interval-in-mins", "180", "--min"], {"interval_in_minutes": 180, "min": True}, True)):
        for sw in (0, 1):
            yield pair(b, sw=sw), o, lambda *a, kw=kw, sw=sw: MergeCubes()(P(**kw)(*(a[::-1] if sw else a)))
    yield pair(), [], "refused"
    yield pair(), ["--interval-in-mins", "50"], "refused"


@command
def time_lagged_ensembles():
    import cubes
    from improver.utilities.time_lagging import GenerateTimeLaggedEnsemble as P

    cs = lambda n: [g("x", "1", 0, 1, k, lead=[("realization", [3 * k + q for q in range(2)] if k % 2 else [q for q in range(3)], "1")], time=cubes.T0 + 6 * H, frt=cubes.T0 - k * H) for k in range(n)]  # noqa
    for n in (2, 3):
        for c in orders(cs(n)):
            yield c, [], lambda *a: P()(a)
    yield cs(1), [], lambda a: a
    bad = cs(2)
    bad[1] = g("x", "1", lead=[R], time=cubes.T0 + 7 * H, frt=cubes.T0)
    yield bad, [], "refused"


@command
def apply_mask():
    import numpy as np

    def ins():
        m = still("land_binary_mask", "1")
        m.data = (np.arange(12).reshape(3, 4) % 3 == 0).astype(np.int8)
        return [g("x", "1"), m]

    def ref(a, inv):
        c, m = sorted(a, key=lambda q: q.name() != "x")
        mk = m.data.astype(bool)
        c.data = np.ma.masked_array(c.data, ~mk if inv else mk)
        return c

    for sw in (0, 1):
        for o, inv in (([], False), (["--invert-mask", "True"], True), (["--invert-mask", "False"], False)):
            yield ins()[::-1] if sw else ins(), ["--mask-name", "land_binary_mask"] + o, lambda *a, inv=inv: ref(a, inv)
    yield ins(), ["--mask-name", "other"], "refused"


# ------------------------------------------------------------ neighbourhoods
def zone_inputs(sea=False):
    import cubes
    import numpy as np
    from improver.generate_ancillaries.generate_ancillary import GenerateOrographyBandAncils
    from improver.generate_ancillaries.generate_topographic_zone_weights import GenerateTopographicZoneWeights

    o = still("surface_altitude", "m", 0, 190, shape=(6, 6))
    lm = still("land_binary_mask", "1", shape=(6, 6))
    lm.data = (np.arange(36).reshape(6, 6) % 7 != 0).astype(np.int8)
    th = {"bounds": [[-500, 50], [50, 100], [100, 500]], "units": "m"}
    k = {} if sea else {"landmask": lm}
    mask = GenerateOrographyBandAncils().process(o.copy(), th, **k)
    mask = mask.concatenate_cube() if not hasattr(mask, "slices_over") else mask
    return g("x", "1", 0, 1, 1, shape=(6, 6)), mask, GenerateTopographicZoneWeights().process(o.copy(), th, **k)


@command
def nbhood_iterate_with_mask():
    from improver.nbhood.use_nbhood import ApplyNeighbourhoodProcessingWithAMask as P

    c, m, w = zone_inputs()
    b = ["--coord-for-masking", "topographic_zone"]
    for n, o, a, kw in ((2, ["--radii", "4000"], ("square", 4000.0), {}), (3, ["--radii", "4000"], ("square", 4000.0), {}), (3, ["--radii", "2000", "--neighbourhood-shape", "circular"], ("circular", 2000.0), {}),
                        (3, ["--radii", "2000,6000", "--lead-times", "3,5"], ("square", [2000.0, 6000.0]), {"lead_times": [3, 5]}), (2, ["--radii", "4000", "--area-sum"], ("square", 4000.0), {"sum_only": True})):
        yield [c, m, w][:n], b + o, lambda *q, a=a, kw=kw: P("topographic_zone", *a, collapse_weights=q[2] if len(q) > 2 else None, **kw)(*q[:2])
    yield [c, m], b + ["--radii", "2000,3000"] + ["--lead-times", "3"], "refused"


@command
def nbhood_land_and_sea():
    import numpy as np
    from improver.nbhood.nbhood import NeighbourhoodProcessing as N
    from improver.nbhood.use_nbhood import ApplyNeighbourhoodProcessingWithAMask as P

    c, m, w = zone_inputs()
    sea = np.ma.getmaskarray(w[0].data)

    def ref(c, m, w=None, shape="square", r=4000.0, lt=None, s=False):
        ls = m if w is None else w[0].copy(data=(~sea).astype(int))
        one = ls.copy(data=(np.asarray(ls.data) > 0).astype(int))
        other = ls.copy(data=1 - one.data)
        kw = dict(lead_times=lt, sum_only=s)
        land = N(shape, r, re_mask=True, **kw)(c.copy(), one) if w is None else P("topographic_zone", shape, r, collapse_weights=w, **kw)(c.copy(), m)
        wet = N(shape, r, re_mask=True, **kw)(c.copy(), other)
        if not one.data.any():
            return wet
        if not other.data.any():
            return land
        return land.copy(data=np.where(one.data > 0, land.data.filled(0), wet.data.filled(0)))

    def lsm(v):
        q = still("land_binary_mask", "1", shape=(6, 6))
        q.data = np.broadcast_to(np.asarray(v), (6, 6)).astype(np.int8)
        return q

    half = np.arange(36).reshape(6, 6) % 5 > 1
    for v in (half, 1, 0):
        yield [c, lsm(v)], ["--radii", "4000"], lambda *a: ref(*a)
    for o, kw in ((["--radii", "2000", "--neighbourhood-shape", "circular"], dict(shape="circular", r=2000.0)), (["--radii", "2000,6000", "--lead-times", "3,5"], dict(r=[2000.0, 6000.0], lt=[3, 5])), (["--radii", "4000", "--area-sum"], dict(s=True))):
        yield [c, lsm(half)], o, lambda *a, kw=kw: ref(*a, **kw)
        yield [c, m, w], o, lambda *a, kw=kw: ref(*a, **kw)
    yield [c, m, w], ["--radii", "4000"], lambda *a: ref(*a)
    yield [c, lsm(half), w], ["--radii", "4000"], "refused"
    yield [c, m], ["--radii", "4000"], "refused"
    yield [c, lsm(half)], ["--radii", "4000,5000", "--lead-times", "3"], "refused"
    yield list(zone_inputs(sea=True)), ["--radii", "4000"], "refused"


# ------------------------------------------------------------ spot data
def site_list():
    return [{"altitude": 10 + 7 * k, "latitude": 54.2 + 0.3 * k, "longitude": -3.5 + 0.4 * k, "wmo_id": 1000 + k, "met_office_site_id": 70 + k} for k in range(4)]


@command
def neighbour_finding():
    import iris
    import numpy as np
    import cartopy.crs as ccrs
    from improver.spotdata.neighbour_finding import NeighbourSelection as P

    def ins():
        kw = dict(shape=(20, 20), spacing=10000.0, origin=(-100000.0, -100000.0))
        o, m = still("surface_altitude", "m", 0, 200, **kw), still("land_binary_mask", "1", **kw)
        m.data = (np.arange(400).reshape(20, 20) % 3 != 0).astype(np.float32)
        return [o, m, site_list()]

    ref = lambda o, m, s, **kw: P(**kw)(s, o, m)  # noqa
    for o, kw in (([], {}), (["--land-constraint"], {"land_constraint": True}), (["--similar-altitude"], {"minimum_dz": True}), (["--land-constraint", "--similar-altitude"], {"land_constraint": True, "minimum_dz": True}),
                  (["--similar-altitude", "--search-radius", "15000"], {"minimum_dz": True, "search_radius": 15000.0}), (["--similar-altitude", "--node-limit", "5"], {"minimum_dz": True, "node_limit": 5}), (["--unique-site-id-key", "met_office_site_id"], {"unique_site_id_key": "met_office_site_id"})):
        yield ins(), o, lambda *a, kw=kw: ref(*a, **kw)

    def every(*a):
        from improver.utilities.cube_manipulation import MergeCubes

        out = iris.cube.CubeList()
        for i, (lc, dz) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1))):
            q = ref(*a, land_constraint=bool(lc), minimum_dz=bool(dz))
            q.coord("neighbour_selection_method").points = np.int32(i)
            out.append(iris.util.squeeze(q))
        return MergeCubes()(out)

    yield ins(), ["--all-methods"], every
    for o in ("--land-constraint", "--similar-altitude"):
        yield ins(), ["--all-methods", o], "refused"
    i = ins()
    i[2] = [dict(s, x=k * 20000.0 - 30000, y=k * 10000.0 - 20000) for k, s in enumerate(i[2])]
    yield i, ["--site-coordinate-system", "LambertAzimuthalEqualArea", "--site-coordinate-options", json.dumps({"central_latitude": 54.9, "central_longitude": -2.5, "globe": {"semimajor_axis": 6378137.0, "semiminor_axis": 6356752.314140356}}), "--site-x-coordinate", "x", "--site-y-coordinate", "y"], \
        lambda *a: ref(*a, site_coordinate_system=ccrs.LambertAzimuthalEqualArea(central_latitude=54.9, central_longitude=-2.5, globe=ccrs.Globe(semimajor_axis=6378137.0, semiminor_axis=6356752.314140356)), site_x_coordinate="x", site_y_coordinate="y")
    yield ins(), ["--site-coordinate-system", "Flat"], "refused"


def spot_pair(lead=()):
    import C37
    from improver.metadata.utilities import create_coordinate_hash

    c = C37.field("yx" if not lead else lead)
    n = C37.sites_cube(["nearest", "nearest_land", "nearest_minimum_dz", "nearest_land_minimum_dz"], hash_=create_coordinate_hash(c), vd=[[0.0, 70.0, -80.0, 30.0, -10.0], [5.0, -60.0, 90.0, 0.0, 50.0], [1.0, 2, 3, 4, 5], [9.0, 8, 7, 6, 5]])
    return c, n


@command
def spot_extract():
    import cubes
    import numpy as np
    from improver.spotdata.spot_manipulation import SpotManipulation as P

    c, n = spot_pair()
    r, _ = spot_pair("ryx")
    p, _ = spot_pair("pyx")
    lr = cubes.grid(np.array([[-0.0065, 0.0, 0.01], [0.02, -0.0098, -0.003]], np.float32), name="air_temperature_lapse_rate", units="K m-1", scalars=[("height", 1.5, "m")])
    for k, cs, o, kw in ((0, [c, n], [], {}), (1, [c, n], ["--land-constraint"], {"land_constraint": True}), (2, [c, n], ["--similar-altitude"], {"similar_altitude": True}), (3, [c, n], ["--land-constraint", "--similar-altitude"], {"land_constraint": True, "similar_altitude": True}),
                         (4, [c, n], ["--new-title", "A title"], {"new_title": "A title"}), (5, [c, lr, n], ["--apply-lapse-rate-correction"], {"apply_lapse_rate_correction": True}), (6, [c, n], ["--fixed-lapse-rate", "-0.006"], {"fixed_lapse_rate": -0.006}),
                         (7, [r, n], ["--realization-collapse"], {"realization_collapse": True}), (8, [p, n], ["--extract-percentiles", "25"], {"extract_percentiles": [25.0]}), (9, [r, n], ["--extract-percentiles", "20,60"], {"extract_percentiles": [20.0, 60.0]}),
                         (10, [c, n], ["--suppress-warnings"], {"suppress_warnings": True}), (11, [c, n], ["--subset-coord", "wmo_id"], {"subset_coord": "wmo_id"})):
        yield list(cs), o, lambda *a, kw=kw: P(**kw)(a)


@command
def apply_height_adjustment():
    import C37
    from improver.spotdata.height_adjustment import SpotHeightAdjustment as P
    import numpy as np

    c = C37.spot(np.array([[300, 500, 700, 20, 10.0], [310, 510, 710, 30, 11.0]], np.float32), [("percentile", [25, 75], "%", None)], name="height_of_thing", units="m")
    _, n = spot_pair()
    for o, m in (([], "nearest"), (["--land-constraint"], "nearest_land"), (["--similar-altitude"], "nearest_minimum_dz"), (["--land-constraint", "--similar-altitude"], "nearest_land_minimum_dz")):
        yield [c, n], o, lambda *a, m=m: P(m)(*a)


# ------------------------------------------------------------ calibration
def history(kind):
    import cubes
    import numpy as np
    from iris.cube import CubeList

    fs, ts = CubeList(), CubeList()
    for d in range(3):
        t = cubes.T0 + (24 * d + 4) * H
        if kind == "prob":
            th = [("air_temperature", [280.0, 285.0], "K", np.float32, {"spp__relative_to_threshold": "greater_than"}, True)]
            f = g("probability_of_air_temperature_above_threshold", "1", 0, 1, d, lead=th, time=t, frt=t - 4 * H)
            o = g("probability_of_air_temperature_above_threshold", "1", 0, 1, d + 1, lead=th, time=t, frt=t)
            o.data = np.round(o.data)
        else:
            f = g("air_temperature", "K", 270, 290, d, time=t, frt=t - 4 * H)
            o = g("air_temperature", "K", 270, 290, d + 2, time=t, frt=t)
        o.attributes[MID] = "uk_det_analysis"
        fs.append(f)
        ts.append(o)
    return [fs.merge_cube(), ts.merge_cube()]


TA = ["--truth-attribute", MID + "=uk_det_analysis"]


@command
def construct_reliability_tables():
    from improver.calibration.reliability_calibration import ConstructReliabilityCalibrationTables as P

    d = dict(n_probability_bins=5, single_value_lower_limit=False, single_value_upper_limit=False)
    for o, kw, ag in (([], {}, None), (["--n-probability-bins", "4"], {"n_probability_bins": 4}, None), (["--single-value-lower-limit"], {"single_value_lower_limit": True}, None), (["--single-value-upper-limit"], {"single_value_upper_limit": True}, None),
                      (["--aggregate-coordinates", "projection_y_coordinate"], {}, ["projection_y_coordinate"]), (["--aggregate-coordinates", "projection_x_coordinate,projection_y_coordinate"], {}, ["projection_x_coordinate", "projection_y_coordinate"])):
        for sw in (0, 1):
            h = history("prob")
            yield h[::-1] if sw else h, TA + o, lambda *a, kw=kw, ag=ag, sw=sw: P(**dict(d, **kw))(a[sw], a[1 - sw], ag)
    yield history("prob"), ["--truth-attribute", MID + "=absent"], "refused"


def tables(n=2):
    import C21
    import numpy as np

    out = []
    for k in range(n):
        c = np.arange(12, dtype=float).reshape(3, 2, 2) * 20 + 30 * k + 10
        out.append(C21.mk_table(c * 0.4, c * 0.5, c, [864000 * (k + 1), 864000 * (k + 1) + 86400]))
    return out


@command
def aggregate_reliability_tables():
    from improver.calibration.reliability_calibration import AggregateReliabilityCalibrationTables as P

    for n in (1, 2, 3):
        yield tables(n), [] if n > 1 else ["--coordinates", "projection_x_coordinate"], lambda *a: P()(a, coordinates=None if len(a) > 1 else ["projection_x_coordinate"])
    yield tables(2), ["--coordinates", "projection_y_coordinate,projection_x_coordinate"], lambda *a: P()(a, coordinates=["projection_y_coordinate", "projection_x_coordinate"])


@command
def manipulate_reliability_table():
    from improver.calibration.reliability_calibration import ManipulateReliabilityTable as P

    for o, kw in (([], {}), (["--minimum-forecast-count", "50"], {"minimum_forecast_count": 50})):
        t = P and tables(1)[0][:, :, 0, 0]
        yield [t], o, lambda a, kw=kw: P(**dict(dict(minimum_forecast_count=200, point_by_point=False), **kw))(a)
    yield tables(1), ["--point-by-point", "--minimum-forecast-count", "50"], lambda a: P(point_by_point=True, minimum_forecast_count=50)(a)


@command
def apply_reliability_calibration():
    import cubes
    import numpy as np
    from iris.cube import CubeList
    from improver.calibration.reliability_calibration import ApplyReliabilityCalibration as P

    th = [("air_temperature", [280.0], "K", np.float32, {"spp__relative_to_threshold": "greater_than"}, True)]
    fc = lambda: g("probability_of_air_temperature_above_threshold", "1", 0, 1, 1, lead=th, shape=(2, 2))  # noqa
    t = tables(1)[0]
    yield [fc()], [], lambda a: a
    yield [fc(), t[:, :, 0, 0]], [], lambda *a: P(point_by_point=False)(a[0], a[1])
    from improver.calibration.reliability_calibration import ManipulateReliabilityTable as M

    yield [fc(), M(point_by_point=True, minimum_forecast_count=10)(t.copy())], ["True"], lambda *a: P(point_by_point=True)(a[0], a[1])


@command
def estimate_emos_coefficients():
    import C20
    import numpy as np
    from improver.calibration.ensemble_calibration import EstimateCoefficientsForEnsembleCalibration as P

    C20.stub_statsmodels()
    d = dict(point_by_point=False, use_default_initial_guess=False, desired_units=None, predictor="mean", tolerance=0.02, max_iterations=1000)
    quick = ["--tolerance", "0.5", "--max-iterations", "60"]
    q = {"tolerance": 0.5, "max_iterations": 60}

    def ins():
        m = still("land_binary_mask", "1", 1, 1, shape=(2, 3))
        m.data = np.array([[1, 0, 1], [1, 1, 0]], np.int8)
        return [C20.history(days=[1, 2, 3, 4]), C20.truth_for(C20.history(days=[1, 2, 3, 4]), [1, 2, 3, 4]), m]

    for dist in ("norm", "truncnorm"):
        for o, kw in (([], {}), (quick, q), (quick + ["--point-by-point"], dict(q, point_by_point=True)), (quick + ["--use-default-initial-guess"], dict(q, use_default_initial_guess=True)),
                      (quick + ["--units", "degC"], dict(q, desired_units="degC")), (quick + ["--predictor", "realizations"], dict(q, predictor="realizations")),
                      (["--tolerance", "0.001"], {"tolerance": 0.001}), (["--max-iterations", "5"], {"max_iterations": 5})):
            if dist == "truncnorm" and o in ([], ["--tolerance", "0.001"]):
                continue
            for p in ((0, 1), (1, 0, 2)) if o != quick else itertools.chain(*[itertools.permutations(k) for k in ((0, 1), (0, 1, 2))]):
                if 2 in p and "--point-by-point" in o:
                    continue
                yield [ins()[k] for k in p], o + ["--distribution", dist, "--truth-attribute", "truth=y"], lambda *a, p=p, kw=kw, dist=dist: P(dist, **dict(d, **kw))(
                    a[p.index(0)], a[p.index(1)], landsea_mask=a[p.index(2)] if 2 in p else None)
    yield ins()[:2], quick + ["--distribution", "norm", "--truth-attribute", "truth=z"], "refused"
    yield ins()[:2], quick + ["--distribution", "gamma", "--truth-attribute", "truth=y"], "refused"


@command
def generate_orographic_smoothing_coefficients():
    import numpy as np
    from improver.generate_ancillaries.generate_orographic_smoothing_coefficients import OrographicSmoothingCoefficients as P

    al = still("surface_altitude", "m", 0, 300, 2, shape=(6, 7))
    m = still("land_binary_mask", "1", 0, 1, shape=(6, 7))
    m.data = (np.arange(42).reshape(6, 7) % 5 > 1).astype(np.int8)
    N = ["--min-gradient-smoothing-coefficient", "--max-gradient-smoothing-coefficient", "--power"]
    for a, b, c in ((0.5, 0.0, 1.0), (0.3, 0.1, 1.0), (0.1, 0.4, 2.0), (0.5, 0.0, 0.5)):
        o = sum([[n, str(x)] for n, x, z in zip(N, (a, b, c), (0.5, 0.0, 1.0)) if x != z], [])
        yield [al], o, lambda x, k=(a, b, c): P(*k)(x)
        for ub in (False, True):
            for inv in (False, True):
                yield [al, m], o + ["--use-mask-boundary"] * ub + ["--invert-mask"] * inv, lambda x, y, k=(a, b, c, ub, inv): P(*k)(x, y)
    yield [al], ["--min-gradient-smoothing-coefficient", "0.6"], "refused"


@command
def generate_topography_bands_mask():
    from improver.generate_ancillaries.generate_ancillary import THRESHOLDS_DICT as T, GenerateOrographyBandAncils as P

    yield from bands(T, lambda a, b, m: P()(a, b, landmask=m).concatenate_cube())


@command
def generate_topography_bands_weights():
    from improver.generate_ancillaries.generate_ancillary import THRESHOLDS_DICT as T
    from improver.generate_ancillaries.generate_topographic_zone_weights import GenerateTopographicZoneWeights as P

    yield from bands(T, lambda a, b, m: P()(a, b, landmask=m))


def bands(T, f):
    import numpy as np

    al = still("surface_altitude", "m", 1, 290, 2, shape=(6, 7))
    lm = still("land_binary_mask", "1", 0, 1, shape=(6, 7))
    lm.data = (np.arange(42).reshape(6, 7) % 5 > 1).astype(np.int8)
    for b in (None, {"bounds": [[-500.0, 50.0], [50.0, 100.0], [100.0, 2000.0]], "units": "m"}, {"bounds": [[0, 0.4]], "units": "km"}):
        o = [] if b is None else ["--bands-config", b]
        yield [al], o, lambda a, b=b: f(a, deepcopy(b or T), None)
        yield [al, lm], o, lambda a, m, b=b: f(a, deepcopy(b or T), m)


@command
def calculate_forecast_bias():
    from improver.calibration.simple_bias_correction import CalculateForecastBias as P

    for sw in (0, 1):
        h = history("t")
        yield h[::-1] if sw else h, TA, lambda *a, sw=sw: P()(a[sw], a[1 - sw])
    yield history("t"), ["--truth-attribute", MID + "=absent"], "refused"


@command
def apply_bias_correction():
    import cubes
    import numpy as np
    from improver.calibration.simple_bias_correction import ApplyBiasCorrection as P, CalculateForecastBias

    def ins(mask=False):
        b = CalculateForecastBias()(*history("t"))
        if mask:
            b.data = np.ma.masked_array(b.data, np.arange(12).reshape(3, 4) % 4 == 0)
        return [g("air_temperature", "K", 270, 290, 5, lead=[R], time=cubes.T0 + 100 * H, frt=cubes.T0 + 96 * H), b]

    for o, a_, m in (([], (None, None, False), False), (["--lower-bound", "275"], (275.0, None, False), False), (["--upper-bound", "285"], (None, 285.0, False), False), (["--fill-masked-bias-data"], (None, None, True), True), ([], (None, None, False), True)):
        yield ins(m), o, lambda *a, a_=a_: P(*a_).process(*a)


@command
def estimate_dz_rescaling():
    from improver.calibration.dz_rescaling import EstimateDzRescaling as P

    f, t, n = dz_inputs()
    b = ["--forecast-period", "6"]
    d = dict(forecast_period=6, dz_lower_bound=None, dz_upper_bound=None, land_constraint=False, similar_altitude=False, site_id_coord="wmo_id")
    for o, kw in (([], {}), (["--dz-lower-bound", "-20"], {"dz_lower_bound": -20.0}), (["--dz-upper-bound", "20"], {"dz_upper_bound": 20.0}), (["--land-constraint", "--similar-altitude"], {"land_constraint": True, "similar_altitude": True}),
                  (["--site-id-coord", "met_office_site_id"], {"site_id_coord": "met_office_site_id"}), (["--forecast-period", "6", "--dz-lower-bound", "-20", "--dz-upper-bound", "20"][2:], {"dz_lower_bound": -20.0, "dz_upper_bound": 20.0})):
        yield [f, t, n], b + o, lambda *a, kw=kw: P(**dict(d, **kw))(*a)


def dz_inputs():
    import C22
    import cubes
    import numpy as np

    ids = [1, 2, 3, 4]
    t = cubes.T0 + 6 * H
    p = [("percentile", [50.0], "%")]
    f = C22.spot(np.array([[10.0, 8, 12, 6]]), ids, "wind_speed_at_10m", "m s-1", leading=p, time=t, frt=cubes.T0)
    tr = C22.spot(np.array([9.0, 8.4, 13, 5.5]), ids, "wind_speed_at_10m", "m s-1", time=t, frt=t)
    return f, tr, C22.neighbours([30.0, -40.0, 10.0, -5.0], ids)


@command
def apply_dz_rescaling():
    import cubes
    import numpy as np
    from improver.calibration.dz_rescaling import ApplyDzRescaling as P, EstimateDzRescaling

    f, t, n = dz_inputs()
    s = EstimateDzRescaling(forecast_period=6)(f.copy(), t.copy(), n.copy())
    s2 = EstimateDzRescaling(forecast_period=6, site_id_coord="met_office_site_id")(f.copy(), t.copy(), n.copy())
    yield [f, s], [], lambda *a: P(site_id_coord="wmo_id")(*a)
    yield [f, s2], ["--site-id-coord", "met_office_site_id"], lambda *a: P(site_id_coord="met_office_site_id")(*a)


# ------------------------------------------------------------ blending
@command
def blend_adjacent_points():
    import cubes
    from iris.cube import CubeList
    from improver.blending.blend_across_adjacent_points import TriangularWeightedBlendAcrossAdjacentPoints as P
    from improver.utilities.cube_manipulation import MergeCubes

    cs = lambda: [g("x", "1", 0, 1, k, lead=[("percentile", [25.0, 75.0], "%")], time=cubes.T0 + (k + 4) * H, frt=cubes.T0) for k in range(3)]  # noqa
    b = ["--coordinate", "forecast_period", "--blend-time-using-forecast-period"]
    ref = lambda a, *q: P("forecast_period", *q)(MergeCubes()(CubeList(a), check_time_bounds_ranges=True))  # noqa
    for o, q in ((["--central-point", "5", "--units", "hours", "--width", "2"], (5.0, "hours", 2.0)), (["--central-point", "18000", "--units", "seconds", "--width", "5400"], (18000.0, "seconds", 5400.0)), (["--central-point", "4", "--units", "hours", "--width", "3"], (4.0, "hours", 3.0))):
        for c in orders(cs())[:3]:
            yield c, b + o, lambda *a, q=q: ref(a, *q)
    hs = [g("x", "1", 0, 1, k, scalars=[("height", 10.0 * k, "m")]) for k in range(3)]
    yield hs, ["--coordinate", "height", "--central-point", "10", "--units", "m", "--width", "15"], lambda *a: P("height", 10.0, "m", 15.0)(MergeCubes()(CubeList(a)))
    yield cs(), ["--coordinate", "time", "--central-point", "5", "--units", "hours", "--width", "2"], "refused"
    yield hs, ["--coordinate", "height", "--central-point", "10", "--units", "m", "--width", "15", "--blend-time-using-forecast-period"], "refused"


def cycles(n=2, lead=(R,), name="air_temperature"):
    import cubes

    return [g(name, "K", 270, 290, k, lead=list(lead), time=cubes.T0 + 12 * H, frt=cubes.T0 + k * 3 * H) for k in range(n)]


@command
def blend_cycles_and_realizations():
    import cubes
    from datetime import datetime
    from iris.cube import CubeList
    from improver.blending.calculate_weights_and_blend import WeightAndBlend as P
    from improver.utilities.cube_manipulation import collapse_realizations

    ct = datetime.utcfromtimestamp(cubes.T0 + 4 * H).strftime("%Y%m%dT%H%MZ")
    for n in (2, 3):
        for o in ([], ["--cycletime", ct]):
            for c in (cycles(n), cycles(n)[::-1]):
                yield c, o, (lambda *a, o=o: P("forecast_reference_time", "linear", y0val=0.5, ynval=0.5)(CubeList([collapse_realizations(q) for q in a]), cycletime=o[1])) if o else "refused"


def models():
    import cubes
    import numpy as np

    out = []
    for k, m in enumerate(("uk_det", "uk_ens")):
        th = [("lwe_precipitation_rate", [1e-7, 1e-6], "m s-1", np.float32, {"spp__relative_to_threshold": "greater_than"}, True)]
        c = g("probability_of_lwe_precipitation_rate_above_threshold", "1", 0, 1, k, lead=th, time=cubes.T0 + 6 * H, frt=cubes.T0 + 3 * H * k)
        c.attributes[MID] = m
        out.append(c)
    return out


WD = {m: {"forecast_period": [0, 24], "weights": w, "units": "hours"} for m, w in (("uk_det", [0.9, 0.3]), ("uk_ens", [0.1, 0.7]))}


def blend_options():
    import cubes
    from datetime import datetime

    ct = datetime.utcfromtimestamp(cubes.T0 + 4 * H).strftime("%Y%m%dT%H%MZ")
    frt = ["--coordinate", "forecast_reference_time", "--cycletime", ct]
    y = ["--y0val", "0.2", "--ynval", "0.9"]
    F = dict(coordinate="forecast_reference_time", cycletime=ct)
    Y = dict(F, y0val=0.2, ynval=0.9)
    yield "c", frt + y, Y
    yield "c", frt + y[2:] + ["--y0val", "0.7"], dict(F, y0val=0.7, ynval=0.9)
    yield "c", frt + y + ["--weighting-coord", "forecast_reference_time"], dict(Y, weighting_coord="forecast_reference_time")
    yield "c", frt + ["--weighting-method", "nonlinear", "--cval", "0.6"], dict(F, weighting_method="nonlinear", cval=0.6)
    yield "c", frt + y + ["--attributes-config", {"title": "Blended"}], dict(Y, attributes_config={"title": "Blended"})
    yield "c", frt[:2] + y, None
    yield "c", frt, None
    yield "c", frt + y[:2], None
    yield "c", frt + ["--weighting-method", "dict", "--weighting-config", WD], None
    yield "c", frt + y + ["--cval", "0.5"], None
    yield "c", frt + ["--weighting-method", "nonlinear", "--cval", "0.6", "--y0val", "0.5"], None
    yield "c", frt + ["--weighting-method", "nonlinear", "--cval", "0.6", "--ynval", "0.5"], None
    yield "c", frt + ["--weighting-method", "nonlinear"], None
    yield "c", frt + y + ["--record-run-attr", "mosg__model_run"], None
    m = ["--coordinate", "model_configuration", "--weighting-method", "dict", "--weighting-config", WD, "--cycletime", ct]
    M = dict(coordinate="model_configuration", weighting_method="dict", weighting_config=WD, model_id_attr=MID, cycletime=ct)
    yield "m", m + ["--model-id-attr", MID], M
    yield "m", m + ["--model-id-attr", MID, "--record-run-attr", "mosg__model_run"], dict(M, record_run_attr="mosg__model_run")
    yield "m", m, None
    yield "m", m[:6] + ["--model-id-attr", MID], None
    yield "m", m[:4] + m[6:] + ["--model-id-attr", MID], None
    yield "w", m + ["--model-id-attr", MID, "--spatial-weights-from-mask", "--fuzzy-length", "6000"], dict(M, spatial_weights_from_mask=True, fuzzy_length=6000.0)
    yield "w", m + ["--model-id-attr", MID, "--spatial-weights-from-mask"], dict(M, spatial_weights_from_mask=True)


def blend_inputs(k):
    import numpy as np

    if k == "c":
        return cycles(3, ())
    c = models()
    if k == "w":
        m = np.zeros(c[0].shape, bool)
        m[..., :2] = True
        c[0].data = np.ma.masked_array(c[0].data, m)
    return c


def blend(a, coordinate, weighting_method="linear", weighting_coord="forecast_period", weighting_config=None, attributes_config=None, cycletime=None, y0val=None, ynval=None, cval=None, model_id_attr=None, record_run_attr=None, spatial_weights_from_mask=False, fuzzy_length=20000.0):
    from improver.blending.calculate_weights_and_blend import WeightAndBlend as P

    return P(coordinate, weighting_method, weighting_coord=weighting_coord, wts_dict=weighting_config, y0val=y0val, ynval=ynval, cval=cval)(
        a, cycletime=cycletime, model_id_attr=model_id_attr, record_run_attr=record_run_attr, spatial_weights=spatial_weights_from_mask, fuzzy_length=fuzzy_length, attributes_dict=attributes_config)


@command
def weighted_blending():
    for k, o, kw in blend_options():
        yield blend_inputs(k), o, (lambda *a, kw=kw: blend(a, **kw)) if kw else "refused"


@command
def blend_with_vicinity_and_rename():
    from improver.utilities.spatial import update_name_and_vicinity_coord

    for k, o, kw in blend_options():
        if kw and k == "c":
            continue
        for o2, q in ((["--vicinity-radius", "10000"], (None, 10000.0)), (["--new-name", "probability_of_lwe_precipitation_rate_in_vicinity_above_threshold", "--vicinity-radius", "5000"], ("probability_of_lwe_precipitation_rate_in_vicinity_above_threshold", 5000.0)), ([], None)):
            def ref(*a, kw=kw, q=q):
                from iris.coords import AuxCoord

                r = blend(a, **kw)
                update_name_and_vicinity_coord(r, *q)
                return r

            def vic():
                out = blend_inputs(k)
                from improver.utilities.spatial import create_vicinity_coord
                for c in out:
                    c.add_aux_coord(create_vicinity_coord(2000.0))
                return out

            yield vic(), o + o2, ref if kw and q else "refused"


@command
def categorical_modes():
    import cubes
    import numpy as np

    from improver.categorical.modal_code import ModalCategory as P
    T = {"meta": {"name": "weather_code"}, "Sun": {"leaf": 1}, "Cloud": {"leaf": 7}, "Light_Rain": {"leaf": 12}, "Heavy_Rain": {"leaf": 15}}

    def ins():
        out = []
        for k in range(3):
            c = g("weather_code", "1", time=cubes.T0 + (k + 1) * H, time_bounds=(cubes.T0 + k * H, cubes.T0 + (k + 1) * H), frt=cubes.T0)
            c.data = np.array([1, 7, 12, 15], np.int32)[(np.arange(12).reshape(3, 4) * (k + 3) + k) % 4]
            c.coord("forecast_period")
            c.attributes.update(weather_code=np.array([1, 7, 12, 15], np.int32), weather_code_meaning="Sun Cloud Light_Rain Heavy_Rain")
            out.append(c)
        return out

    for o, kw in (([], {}), (["--model-id-attr", MID], {"model_id_attr": MID}), (["--model-id-attr", MID, "--record-run-attr", "mosg__model_run"], {"model_id_attr": MID, "record_run_attr": "mosg__model_run"})):
        for c in (ins(), ins()[::-1]):
            yield c, ["--decision-tree", T] + o, lambda *a, kw=kw: P(T, **kw)(a)
    yield [], ["--decision-tree", T], "refused"


# ------------------------------------------------------------ clouds
@command
def cloud_top_temperature():
    import numpy as np
    from iris.cube import CubeList
    from improver.psychrometric_calculations.cloud_top_temperature import CloudTopTemperature as P

    def ins():
        t = g("air_temperature", "K", lead=[("pressure", [100000.0, 80000.0, 60000.0, 40000.0], "Pa")])
        t.data = (np.array([300, 285, 262, 230], np.float32)[:, None, None] + np.arange(12, dtype=np.float32).reshape(3, 4)).astype(np.float32)
        return [CubeList([g("air_temperature_at_condensation_level", "K", 280, 291, 1), g("air_pressure_at_condensation_level", "Pa", 85000, 95000, 2)]), t]

    for o, ref in mids(lambda a, m: P(model_id_attr=m)(*a[0], a[1])):
        yield ins(), o, ref


# ------------------------------------------------------------ everyday commands
def temps(k=0, lead=(R,), **kw):
    return g("air_temperature", "K", 270, 290, k, lead=list(lead), **kw)


def probs(k=0, th=(275.0, 280.0, 285.0), lead=()):
    import numpy as np

    c = g("probability_of_air_temperature_above_threshold", "1", 0, 1, k, lead=list(lead) + [("air_temperature", list(th), "K", np.float32, {"spp__relative_to_threshold": "greater_than"}, True)])
    c.data = np.sort(c.data, axis=len(lead))[(slice(None),) * len(lead) + (slice(None, None, -1),)].copy()
    return c


@command
def between_thresholds():
    from improver.between_thresholds import OccurrenceBetweenThresholds as P

    for o, a in ((["--threshold-ranges", [[275, 280], [275, 285]]], ([[275, 280], [275, 285]], "K")), (["--threshold-ranges", [[1.85, 6.85]], "--threshold-units", "celsius"], ([[1.85, 6.85]], "celsius"))):
        yield [probs()], o, lambda c, a=a: P(*a)(c)
    yield [probs()], ["--threshold-ranges", [[275, 281]]], "refused"
    yield [temps()], ["--threshold-ranges", [[275, 280]]], "refused"


@command
def clip():
    import numpy as np

    for o, a in ((["--min-value", "275"], (275, None)), (["--max-value", "280.5"], (None, 280.5)), (["--min-value", "272", "--max-value", "288"], (272, 288)), (["--max-value", "272", "--min-value", "272"], (272, 272))):
        yield [temps()], o, lambda c, a=a: c.copy(np.clip(c.data, *a))


@command
def collapse_realizations():
    from improver.utilities.cube_manipulation import collapse_realizations as f

    for m in ("mean", "max", "min", "median", "std_dev", "sum"):
        yield [temps()], ["--method", m], lambda c, m=m: f(c, method=m)
    yield [temps()], [], lambda c: f(c, method="mean")

    def named(c):
        r = f(c)
        r.rename("nn")
        return r

    yield [temps()], ["--new-name", "nn"], named
    yield [temps()], ["--method", "mode"], "refused"
    yield [temps(lead=())], [], "refused"


@command
def combine():
    from improver.cube_combiner import Combine as P

    a = lambda: [g("a%d" % k, "K", 270, 290, k, lead=[R]) for k in range(3)]  # noqa
    d = dict(operation="+", new_name=None, broadcast=None, minimum_realizations=None, cell_method_coordinate=None, expand_bound=True)
    for op in ("+", "-", "*", "add", "subtract", "multiply", "max", "min", "mean"):
        yield a(), ["--operation", op], lambda *c, op=op: P(**dict(d, operation=op))(*c)
    yield a(), [], lambda *c: P(**d)(*c)
    yield a(), ["--new-name", "nn"], lambda *c: P(**dict(d, new_name="nn"))(*c)
    yield a()[::-1], ["--operation", "-", "--new-name", "nn"], lambda *c: P(**dict(d, operation="-", new_name="nn"))(*c)
    hr = lambda: hourly("x", "1", 3, [R])  # noqa
    yield hr(), ["--minimum-realizations", "3"], lambda *c: P(**dict(d, minimum_realizations=3))(*c)
    yield hr()[:2] + [hr()[2][:2]], ["--minimum-realizations", "2"], lambda *c: P(**dict(d, minimum_realizations=2))(*c)
    yield hr()[:2] + [hr()[2][:2]], ["--minimum-realizations", "3"], "refused"
    yield hr(), ["--minimum-realizations", "4"], "refused"
    yield hr(), ["--minimum-realizations", "0"], "refused"
    yield a(), ["--operation", "%"], "refused"
    for o, kw in (([], {}), (["--expand-bound", "False"], {"expand_bound": False}), (["--operation", "max"], {"operation": "max"}), (["--operation", "max", "--cell-method-coordinate", "time"], {"operation": "max", "cell_method_coordinate": "time"})):
        yield hourly("x", "1", 3), o, lambda *c, kw=kw: P(**dict(d, **kw))(*c)
    b = lambda: [probs(), g("factor", "1", 0.5, 1, 2)]  # noqa
    yield b(), ["--operation", "*", "--broadcast", "threshold"], lambda *c: P(**dict(d, operation="*", broadcast="threshold"))(*c)
    yield a()[:1], [], "refused"


@command
def expected_value():
    from improver.expected_value import ExpectedValue as P

    yield [temps()], [], lambda c: P()(c)
    yield [probs()], [], lambda c: P()(c)
    yield [g("air_temperature", "K", 270, 290, lead=[("percentile", [25.0, 50.0, 75.0], "%")])], [], lambda c: P()(c)


@command
def extract():
    from improver.utilities.cube_extraction import ExtractSubCube as P

    c = lambda: probs(lead=[R])  # noqa
    for k, u in ((["realization=1"], None), (["realization=[0,2]", "air_temperature=280"], None), (["air_temperature=6.85"], ["celsius"]), (["projection_x_coordinate=[0:2:2]"], ["km"]), (["realization=1", "air_temperature=1.85"], ["1", "celsius"]), (["air_temperature=[275.0:281.0]"], None)):
        yield [c()], sum((["--constraints", q] for q in k), []) + (["--units", ",".join(u)] if u else []), lambda a, k=k, u=u: P(k, units=u).process(a)
    yield [c()], ["--constraints", "realization=7"], "refused"
    yield [c()], ["--constraints", "realization=7", "--ignore-failure"], lambda a: a
    yield [c()], [], "refused"


@command
def generate_percentiles():
    import numpy as np
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertProbabilitiesToPercentiles as C, RebadgeRealizationsAsPercentiles as RB
    from improver.percentile import PercentileConverter as PC

    for o, p in ((["--percentiles", "10,50,90"], [10.0, 50.0, 90.0]), ([], None), (["--percentiles", "37.5"], [37.5])):
        yield [temps()], ["--coordinates", "realization"] + o, lambda c, p=p: PC(["realization"], percentiles=p)(c)
        yield [temps()], ["--coordinates", "projection_y_coordinate,projection_x_coordinate"] + o, lambda c, p=p: PC(["projection_y_coordinate", "projection_x_coordinate"], percentiles=p)(c)
        yield [probs()], o, lambda c, p=p: C()(c, percentiles=p)
        yield [probs()], ["--coordinates", "realization"] + o, lambda c, p=p: C()(c, percentiles=p)

    def masked(f):
        c = temps()
        c.data = np.ma.masked_array(c.data, (np.arange(36).reshape(3, 3, 4) % 5 == 0) & f)
        return c

    yield [masked(True)], ["--coordinates", "realization", "--percentiles", "20,50"], lambda c: PC(["realization"], percentiles=[20.0, 50.0], fast_percentile_method=False)(c)
    yield [masked(False)], ["--coordinates", "realization", "--percentiles", "20,50"], lambda c: PC(["realization"], percentiles=[20.0, 50.0])(c.copy(c.data.data))
    yield [temps()], [], lambda c: RB()(c)
    yield [temps()], ["--optimal-crps-percentiles"], lambda c: RB(optimal_crps_percentiles=True)(c)
    out = lambda: probs(th=(400.0, 410.0, 420.0))  # noqa
    yield [out()], ["--percentiles", "50"], "refused"
    yield [out()], ["--percentiles", "50", "--ignore-ecc-bounds-exceedance"], lambda c: C(ecc_bounds_warning=True)(c, percentiles=[50.0])
    yield [out()], ["--percentiles", "50", "--skip-ecc-bounds"], lambda c: C(skip_ecc_bounds=True)(c, percentiles=[50.0])
    yield [probs()], ["--percentiles", "20,50", "--skip-ecc-bounds", "--mask-percentiles"], lambda c: C(skip_ecc_bounds=True, mask_percentiles=True)(c, percentiles=[20.0, 50.0])


@command
def generate_realizations():
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertProbabilitiesToPercentiles as C, EnsembleReordering as ER, RebadgePercentilesAsRealizations as RB, ResamplePercentiles as RP

    pc = lambda: g("air_temperature", "K", 270, 290, lead=[("percentile", [25.0, 50.0, 75.0], "%")])  # noqa

    def spread(c):
        import numpy as np
        c.data = np.sort(c.data, axis=0)
        return c

    yield [temps()], [], lambda c: c
    yield [temps(lead=())], ["--realizations-count", "3"], "refused"
    for mk, P in ((lambda: spread(pc()), RP), (probs, C)):
        yield [mk()], [], "refused"
        for n in (1, 2, 5):
            yield [mk()], ["--realizations-count", str(n)], lambda c, n=n, P=P: RB()(P()(c, no_of_percentiles=n))
        yield [mk(), temps(4)], ["--random-seed", "1"], lambda c, r, P=P: ER()(P()(c, no_of_percentiles=3), r, random_seed=1)
        yield [mk(), temps(4)], ["--random-seed", "1", "--realizations-count", "2"], lambda c, r, P=P: ER()(P()(c, no_of_percentiles=2), r, random_seed=1)
        yield [mk()], ["--realizations-count", "4", "--skip-ecc-bounds"], lambda c, P=P: RB()(P(skip_ecc_bounds=True)(c, no_of_percentiles=4))
    yield [probs(th=(400.0, 410.0, 420.0))], ["--realizations-count", "2"], "refused"
    yield [probs(th=(400.0, 410.0, 420.0))], ["--realizations-count", "2", "--ignore-ecc-bounds-exceedance"], lambda c: RB()(C(ecc_bounds_warning=True)(c, no_of_percentiles=2))


@command
def nbhood():
    import numpy as np
    from improver.constants import DEFAULT_PERCENTILES
    from improver.nbhood.nbhood import GeneratePercentilesFromANeighbourhood as GP, NeighbourhoodProcessing as NP
    from improver.utilities.complex_conversion import complex_to_deg, deg_to_complex
    from improver.utilities.pad_spatial import remove_cube_halo

    big = lambda: g("probability_of_thing", "1", 0, 1, shape=(9, 10), lead=[R])  # noqa
    m = lambda: still("land_binary_mask", "1", 1, 1, shape=(9, 10))  # noqa

    def mask():
        c = m()
        c.data = (np.arange(90).reshape(9, 10) % 3 != 0).astype(np.float32)
        return c

    b = ["--neighbourhood-output", "probabilities"]
    for sh in ("square", "circular"):
        for o, kw in (([], {}), (["--area-sum"], {"sum_only": True}), (["--weighted-mode"], {"weighted_mode": True})):
            if sh == "square" and "weighted_mode" in kw:
                yield [big()], b + ["--radii", "4000"] + o, "refused"
                continue
            yield [big()], b + ["--neighbourhood-shape", sh, "--radii", "4000"] + o, lambda c, sh=sh, kw=kw: NP(sh, 4000.0, **kw)(c)
        yield [big()], b + ["--neighbourhood-shape", sh, "--radii", "2000,6000", "--lead-times", "3,5"], lambda c, sh=sh: NP(sh, [2000.0, 6000.0], lead_times=[3, 5])(c)
    yield [big()], b + ["--radii", "2500"], lambda c: NP("square", 2500.0)(c)
    yield [big(), mask()], b + ["--radii", "4000"], lambda c, k: NP("square", 4000.0, re_mask=True)(c, mask_cube=k)
    yield [big()], b + ["--radii", "4000", "--halo-radius", "4000"], lambda c: remove_cube_halo(NP("square", 4000.0)(c), 4000.0)

    def angles(c):
        c.data = deg_to_complex(c.data)
        r = NP("square", 2000.0)(c)
        r.data = complex_to_deg(r.data)
        return r

    yield [g("wind_from_direction", "degrees", 0, 350, shape=(9, 10), lead=[R])], b + ["--radii", "2000", "--degrees-as-complex"], angles
    b = ["--neighbourhood-output", "percentiles", "--radii", "4000"]
    one = lambda: big()[0]  # noqa
    yield [one()], b, lambda c: GP(4000.0, percentiles=DEFAULT_PERCENTILES)(c)
    yield [one()], b + ["--percentiles", "25,50"], lambda c: GP(4000.0, percentiles=[25.0, 50.0])(c)
    yield [one()], b + ["--percentiles", "50", "--halo-radius", "2000"], lambda c: remove_cube_halo(GP(4000.0, percentiles=[50.0])(c), 2000.0)
    yield [one()], b + ["--weighted-mode"], "refused"
    yield [one()], b + ["--degrees-as-complex"], "refused"


@command
def merge():
    from iris.cube import CubeList
    from improver.utilities.cube_manipulation import MergeCubes as P

    for n in (1, 2, 3):
        for c in orders(hourly("x", "1", n, [R])):
            yield c, [], lambda *a: P()(CubeList(a))
    yield [temps(), g("x", "1")], [], "refused"


@command
def recursive_filter():
    import numpy as np
    from improver.generate_ancillaries.generate_orographic_smoothing_coefficients import OrographicSmoothingCoefficients as O
    from improver.nbhood.recursive_filter import RecursiveFilter as P

    al = still("surface_altitude", "m", 0, 300, 2, shape=(6, 7))
    co = O(0.4, 0.1)(al.copy())
    for o, n in (([], 1), (["--iterations", "2"], 2)):
        for sw in (0, 1):
            x = lambda: g("x", "1", shape=(6, 7), lead=[R])  # noqa
            yield [x(), CL([co.copy()[k] for k in ((1, 0) if sw else (0, 1))])], o, lambda a, b, n=n: P(iterations=n)(a, smoothing_coefficients=b)
    yield [g("x", "1", shape=(6, 7)), CL(co)], ["--iterations", "0"], "refused"


def CL(cs):
    from iris.cube import CubeList

    return CubeList(cs)


@command
def regrid():
    import numpy as np
    from improver.regrid.landsea import RegridLandSea as P

    src = lambda: g("air_temperature", "K", 270, 290, shape=(6, 7), attributes=dict(ATT, mosg__grid_type="standard", mosg__grid_version="1.2"))  # noqa
    tgt = lambda: still("surface_altitude", "m", 0, 9, shape=(5, 4), spacing=2600.0, origin=(-1500.0, 500.0), attributes={"mosg__grid_type": "other", "mosg__grid_version": "2.0", "title": "T"})  # noqa

    def land(sh, k, **kw):
        c = still("land_binary_mask", "1", 1, 1, shape=sh, **kw)
        c.data = ((np.arange(sh[0] * sh[1]).reshape(sh) * 5 + k) % 3 != 0).astype(np.float32)
        return c

    ts = lambda: land((5, 4), 1, spacing=2400.0, origin=(300.0, 500.0))  # noqa
    sm = lambda: land((6, 7), 0)  # noqa
    d = dict(regrid_mode="bilinear", extrapolation_mode="nanmask", landmask=None, landmask_vicinity=25000.0)
    for o, kw in (([], {}), (["--regrid-mode", "nearest"], {"regrid_mode": "nearest"}), (["--extrapolation-mode", "nan"], {"extrapolation_mode": "nan"}), (["--extrapolation-mode", "extrapolate"], {"extrapolation_mode": "extrapolate"})):
        yield [src(), tgt()], o, lambda a, t, kw=kw: P(**dict(d, **kw))(a, t, regridded_title=None)
    yield [src(), tgt()], ["--regridded-title", "A title"], lambda a, t: P(**d)(a, t, regridded_title="A title")
    for v, kw in ((None, {}), ("3000", {"landmask_vicinity": 3000.0})):
        yield [src(), ts(), sm()], ["--regrid-mode", "nearest-with-mask"] + (["--land-sea-mask-vicinity", v] if v else []), lambda a, t, m, kw=kw: P(**dict(d, regrid_mode="nearest-with-mask", landmask=m, **kw))(a, t, regridded_title=None)
    yield [src(), tgt(), sm()], [], "refused"
    yield [src(), tgt(), sm()], ["--regrid-mode", "nearest"], "refused"
    yield [src(), ts()], ["--regrid-mode", "nearest-with-mask"], "refused"
    yield [src(), tgt()], ["--regrid-mode", "cubic"], "refused"


@command
def standardise():
    from improver.standardise import StandardiseMetadata as P

    c = lambda: temps(scalars=[("height", 1.5, "m")])  # noqa
    for o, kw in (([], {}), (["--new-name", "nn"], {"new_name": "nn"}), (["--new-units", "celsius"], {"new_units": "celsius"}), (["--coords-to-remove", "height,forecast_period"], {"coords_to_remove": ["height", "forecast_period"]}),
                  (["--coord-modification", {"height": 10.0}], {"coord_modification": {"height": 10.0}}), (["--attributes-config", {"title": "T", "source": "remove"}], {"attributes_dict": {"title": "T", "source": "remove"}})):
        yield [c()], o, lambda a, kw=kw: P(**kw)(a)


@command
def threshold():
    from improver.threshold import Threshold as P

    v = ["--threshold-values", "275,280"]
    V = dict(threshold_values=[275.0, 280.0])
    for o, kw in (([], {}), (["--comparison-operator", "<="], {"comparison_operator": "<="}), (["--fuzzy-factor", "0.99"], {"fuzzy_factor": 0.99}), (["--collapse-coord", "realization"], {"collapse_coord": "realization"}), (["--vicinity", "2000"], {"vicinity": 2000.0}), (["--vicinity", "2000,4000"], {"vicinity": [2000.0, 4000.0]})):
        yield [temps()], v + o, lambda c, kw=kw: P(**dict(V, **kw))(c, None)
    yield [temps()], ["--threshold-values", "5", "--threshold-units", "celsius"], lambda c: P(threshold_values=[5.0], threshold_units="celsius")(c, None)
    yield [temps()], ["--threshold-config", {"280": [279, 282]}], lambda c: P(threshold_config={"280": [279, 282]})(c, None)

    def masked():
        import numpy as np
        c = temps()
        c.data = np.ma.masked_array(c.data, np.arange(36).reshape(3, 3, 4) % 5 == 0)
        return c

    yield [masked()], v + ["--fill-masked", "300"], lambda c: P(fill_masked=300.0, **V)(c, None)
    lm = lambda: still("land_binary_mask", "1", 1, 1)  # noqa

    def land():
        import numpy as np
        c = lm()
        c.data = (np.arange(12).reshape(3, 4) % 3 != 0).astype(np.int8)
        return c

    yield [temps(), land()], v + ["--vicinity", "2000"], lambda c, m: P(vicinity=2000.0, **V)(c, m)
    yield [temps(), land()], v, "refused"
    yield [temps()], [], "refused"
    yield [temps()], v + ["--threshold-config", {"280": [279, 282]}], "refused"
    yield [temps()], v + ["--comparison-operator", "?"], "refused"
    yield [temps()], v + ["--fuzzy-factor", "1.5"], "refused"


@command
def vicinity():
    from improver.utilities.spatial import OccurrenceWithinVicinity as P

    for r in ("2000", "2000,4000"):
        yield [probs(lead=[R])], [r], lambda c, r=r: P(radii=[float(x) for x in r.split(",")]).process(c)


@command
def categorical():
    import C28

    tree = {"meta": {"name": "cat"}}
    for k, (a, t, f) in (("n0", ("a", "n1", "L1")), ("n1", ("b", "L2", "L1"))):
        tree[k] = {x: y for x, y in C28.node(a, t, f, ">=").items() if x != "_ks"}
    tree.update(C28.leaves([1, 5]))
    from improver.categorical.decision_tree import ApplyDecisionTree as P
    from improver.categorical.utilities import check_tree

    ins = lambda: list(C28.inputs("ab", attributes=[dict(ATT)] * 2))  # noqa
    O = ["--decision-tree", tree]
    for o, kw in (([], {}), (["--model-id-attr", MID], {"model_id_attr": MID}), (["--title", "T"], {"title": "T"})):
        for c in (ins(), ins()[::-1]):
            yield c, O + o, lambda *a, kw=kw: P(deepcopy(tree), **kw)(*a)
    yield [], O + ["--check-tree"], lambda: check_tree(deepcopy(tree), target_period=None)


@command
def wind_downscaling():
    import numpy as np
    from improver.wind_calculations.wind_downscaling import RoughnessCorrection as P

    Z = ("height", [10.0, 20.0, 50.0, 100.0, 200.0, 500.0], "m")

    def ins(real):
        w = g("wind_speed", "m s-1", 2, 12, lead=([R] if real else []) + [Z])
        if real == 2:
            w = w[0:1]
        return [w, still("standard_deviation_of_height_in_grid_cell", "m", 5, 60, 1), still("surface_altitude", "m", 50, 400, 2), still("surface_altitude", "m", 60, 350, 4), still("silhouette_roughness", "1", 0.01, 0.3, 3), still("vegetative_roughness_length", "m", 0.05, 0.6, 5)]

    def ref(w, s, t, o, sil, z=None, level=None):
        import iris
        from iris.cube import CubeList

        p = lambda q: P(sil.copy(), s.copy(), t.copy(), o.copy(), 1500.0, z0_cube=z.copy() if z is not None else None)(q)  # noqa
        if not w.coords("realization"):
            r = p(w)
        else:
            r = CubeList([p(w[k]) for k in range(w.shape[0])]).merge_cube()
            if not r.coords("realization", dim_coords=True):
                r = iris.util.new_axis(r, "realization")
        return r if level is None else r[..., Z[1].index(level), :, :]

    for real in (0, 1, 2):
        for n in (5, 6):
            yield ins(real)[:n], ["--model-resolution", "1500"], ref
            yield ins(real)[:n], ["--model-resolution", "1500", "--output-height-level", "50"], lambda *a: ref(*a, level=50.0)
    yield ins(1), ["--model-resolution", "1500", "--output-height-level", "0.1", "--output-height-level-units", "km"], lambda *a: ref(*a, level=100.0)
    yield ins(1), ["--model-resolution", "1500", "--output-height-level", "30"], "refused"
    yield ins(1), [], "refused"


@command
def orographic_enhancement():
    import numpy as np
    from improver.orographic_enhancement import OrographicEnhancement as P
    from improver.wind_calculations.wind_components import ResolveWindComponents as W

    Z = ("height", [500.0, 1000.0, 1500.0], "m")
    kw = dict(shape=(8, 9), spacing=2000.0, origin=(-2000.0, -2000.0))

    def ins():
        return [g("air_temperature", "K", 270, 285, 0, lead=[Z], **kw), g("relative_humidity", "1", 0.7, 1, 1, lead=[Z], **kw), g("air_pressure", "Pa", 80000, 90000, 2, lead=[Z], **kw), g("wind_speed", "m s-1", 5, 25, 3, lead=[Z], **kw), g("wind_from_direction", "degrees", 0, 350, 4, lead=[Z], **kw),
                still("surface_altitude", "m", 0, 800, 5, shape=(8, 8), spacing=1000.0, origin=(1000.0, 1000.0), attributes=dict(ATT, mosg__grid_type="standard"))]

    def ref(a, k):
        c = [x[k] for x in a[:5]]
        u, v = W()(c[3], c[4])
        return P()(c[0], c[1], c[2], u, v, a[5])

    yield ins(), [], lambda *a: ref(a, 1)
    yield ins(), ["--boundary-height", "500"], lambda *a: ref(a, 0)
    yield ins(), ["--boundary-height", "1500", "--boundary-height-units", "m"], lambda *a: ref(a, 2)
    yield ins(), ["--boundary-height", "1.5", "--boundary-height-units", "km"], lambda *a: ref(a, 2)
    yield ins(), ["--boundary-height", "700"], "refused"


def nowcast_inputs(oe=True):
    import C44
    import cubes

    C44.fake([])
    T = cubes.T0 + 4 * H
    kw = dict(shape=(6, 7), time=T, frt=None)
    c = [g("lwe_precipitation_rate", "m s-1", 0, 3e-6, 0, shape=(6, 7), time=T, frt=T, attributes=dict(ATT)),
         CL([g("precipitation_advection_x_velocity", "m s-1", 2.3, 2.3, **kw), g("precipitation_advection_y_velocity", "m s-1", 0, 0, **kw)])]
    c[1][1].data[2:4] = -2.3
    if oe:
        q = CL([g("orographic_enhancement", "m s-1", 0, 2e-7, k, shape=(6, 7), time=T + k * H, frt=None) for k in range(8)]).merge_cube()
        c.append(q)
    return c


@command
def nowcast_extrapolate():
    from improver.nowcasting.pysteps_advection import PystepsExtrapolate as P
    from improver.utilities.cube_manipulation import MergeCubes

    d = dict(intv=15, mx=360, att=None)
    for n in (False, True):
        for o, kw in (([], {}), (["--max-lead-time", "60"], {"mx": 60}), (["--lead-time-interval", "30", "--max-lead-time", "100"], {"intv": 30, "mx": 100}), (["--max-lead-time", "30", "--attributes-config", {"source": "IMPROVER", "title": "Now"}], {"mx": 30, "att": {"source": "IMPROVER", "title": "Now"}})):
            i = nowcast_inputs(n)
            if not n:
                i[0].rename("rainfall_rate")
            for sw in (0, 1):
                j = list(i)
                if sw:
                    j[1] = CL([i[1][1], i[1][0]])

                def ref(a, w, e=None, q=dict(d, **kw), sw=sw):
                    return MergeCubes()(P(q["intv"], q["mx"])(a, w[sw], w[1 - sw], e, attributes_dict=q["att"]))

                yield j, o, ref


@command
def nowcast_accumulate():
    import numpy as np
    from improver.nowcasting.accumulation import Accumulation as A
    from improver.nowcasting.pysteps_advection import PystepsExtrapolate as P
    from improver.utilities.cube_manipulation import MergeCubes

    d = dict(mx=360, intv=15, per=15, un="m", att=None)
    for o, kw in ((["--max-lead-time", "30"], {"mx": 30}), (["--max-lead-time", "20", "--lead-time-interval", "5", "--accumulation-period", "10"], {"mx": 20, "intv": 5, "per": 10}), (["--max-lead-time", "15", "--accumulation-units", "mm"], {"mx": 15, "un": "mm"}),
                  (["--max-lead-time", "15", "--attributes-config", {"source": "IMPROVER", "title": "Now"}], {"mx": 15, "att": {"source": "IMPROVER", "title": "Now"}})):
        def ref(a, w, e, q=dict(d, **kw)):
            fc = P(1, q["mx"])(a, w[0], w[1], e, attributes_dict=q["att"])
            lt = np.arange(q["intv"], q["mx"] + 1, q["intv"])
            return MergeCubes()(A(accumulation_units=q["un"], accumulation_period=q["per"] * 60, forecast_periods=lt * 60)(fc))

        yield nowcast_inputs(), o, ref


def radar_pair(n=3):
    import C44
    import cubes

    T = cubes.T0 + 4 * H
    cs = []
    for k in range(n):
        c = g("lwe_precipitation_rate", "m s-1", 0, 1, shape=(64, 66), time=T + (k - n + 1) * 900, frt=None)
        c.data = (C44.rain(64, 66, dy=1.3 * k, dx=0.8 * k).astype("float32") / 3.6e6).astype("float32")
        cs.append(c)
    oe = g("orographic_enhancement", "m s-1", 0, 2e-7, 1, shape=(64, 66), time=T, frt=None)
    return [oe] + cs


@command
def nowcast_optical_flow():
    from improver.nowcasting.optical_flow import generate_optical_flow_components as f
    from improver.nowcasting.utilities import ApplyOrographicEnhancement as OE

    for c in (radar_pair(2), radar_pair(3), [radar_pair(3)[k] for k in (0, 3, 1, 2)]):
        def ref(oe, *a):
            a = CL(sorted(a, key=lambda q: q.coord("time").points[0]))
            return CL(f(OE("subtract")(a, oe), ofc_box_size=30, smart_smoothing_iterations=100))

        yield c, [], ref


@command
def nowcast_optical_flow_from_winds():
    import cubes
    from improver.nowcasting.optical_flow import generate_advection_velocities_from_winds as f

    def ins(n=2, order=(0, 1)):
        import C44

        C44.fake([])
        r = radar_pair(n)
        T = cubes.T0 + 4 * H
        w = [g("grid_%s_wind" % q, "m s-1", -3, 3, k, shape=(64, 66), time=T, frt=T) for k, q in enumerate(("eastward", "northward"))]
        return [CL([w[k] for k in order])] + r

    yield ins(), [], lambda w, oe, *a: f(CL(a), w, oe)
    yield ins(order=(1, 0)), [], lambda w, oe, *a: f(CL([*a]), CL([w[1], w[0]]), oe)
    yield ins()[:2] + ins()[:1:-1], [], lambda w, oe, *a: f(CL([a[1], a[0]]), w, oe)
    yield ins(3), [], "refused"
    yield ins(2)[:-1], [], "refused"


def c_commands(tier):
    for n in COMMANDS:
        yield (n,)


def copy(x):
    return x.copy() if hasattr(x, "slices_over") else type(x)([copy(y) for y in x]) if isinstance(x, (list, tuple)) and len(x) and hasattr(x[0], "slices_over") else x


def run_command(case, cov):
    from improver.cli import ObjectAsStr, command_executor

    (n,) = case
    seen = []
    for ins, opts, ref in COMMANDS[n]():
        args = [ObjectAsStr(x) if isinstance(x, (list, dict)) else x for x in map(copy, ins)]
        show = "%s %s (%d inputs)" % (n, " ".join(str(o)[:60] for o in opts), len(ins))
        box, keep = [], deepcopy(opts)
        e = raises(lambda: box.append(command_executor("improver", n, *args, *[ObjectAsStr(o) if isinstance(o, (list, dict)) else o for o in opts])))
        cov.step()
        if ref == "refused":
            expect(e is not None, show + ": must be refused", got=e)
            continue
        if e is not None:
            raise Violation(show + ": failed", got=repr(e)[:300])
        same(box[0], ref(*[copy(x) for x in ins]), show)
        expect(opts == keep, show + ": the options given are not changed", expected=keep, got=opts)
        seen.append(show)
    return "%d" % len(seen)


SECTIONS = [Section("commands", c_commands, run_command)]
if __name__ == "__main__":
    main(globals())
