"""C09: the plugin interface - calling convention, post-processed titles, flat namespace, input standardisation."""
import itertools

from mc import Section, Violation, expect, expect_same, main, raises

PROPERTY = "C09"
PUBLISHED = """
    Accumulation AdjustLandSeaPoints AdvectField AggregateReliabilityCalibrationTables apply_mask ApplyBiasCorrection
    ApplyDecisionTree ApplyDzRescaling ApplyEMOS ApplyGriddedLapseRate ApplyNeighbourhoodProcessingWithAMask
    ApplyOrographicEnhancement ApplyRainForestsCalibration ApplyReliabilityCalibration BaseNeighbourhoodProcessing
    CalculateForecastBias CalibratedForecastDistributionParameters ChooseDefaultWeightsLinear
    ChooseDefaultWeightsNonLinear ChooseDefaultWeightsTriangular ChooseWeightsLinear CloudCondensationLevel
    CloudTopTemperature Combine ConstructReliabilityCalibrationTables ContinuousRankedProbabilityScoreMinimisers
    ConvectionRatioFromComponents ConvertProbabilitiesToPercentiles CopyAttributes CorrectLandSeaMask
    CreateExtrapolationForecast CubeCombiner DayNightMask DifferenceBetweenAdjacentGridSquares
    EnforceConsistentForecasts EnsembleReordering EstimateCoefficientsForEnsembleCalibration EstimateDzRescaling
    ExpectedValue ExtendRadarMask ExtractLevel ExtractSubCube FieldTexture FillRadarHoles FreezingRain
    FrictionVelocity GenerateClearskySolarRadiation GenerateOrographyBandAncils GenerateSolarTime
    GenerateTimeLaggedEnsemble GenerateTopographicZoneWeights GradientBetweenAdjacentGridSquares HailFraction
    HailSize HumidityMixingRatio Integration InterpolateUsingDifference LapseRate LightningFromCapePrecip
    LightningMultivariateProbability_USAF2024 ManipulateReliabilityTable maximum_in_height MaxInTimeWindow MergeCubes
    MergeCubesForWeightedBlending MetaCloudCondensationLevel MetaNeighbourhood MetaWetBulbFreezingLevel ModalCategory
    NeighbourSelection NowcastLightning OccurrenceBetweenThresholds OccurrenceWithinVicinity OpticalFlow
    OrographicEnhancement OrographicSmoothingCoefficients PercentileConverter PhaseChangeLevel PostProcessingPlugin
    PrecipPhaseProbability PystepsExtrapolate RebadgePercentilesAsRealizations RebadgeRealizationsAsPercentiles
    RecursiveFilter RegridLandSea RegridWithLandSeaMask ResamplePercentiles ResolveWindComponents RoughnessCorrection
    SaturatedVapourPressureTable ShowerConditionProbability SignificantPhaseMask SnowFraction SnowSplitter
    SpatiallyVaryingWeightsFromMask SpotExtraction SpotHeightAdjustment SpotLapseRateAdjust SpotManipulation
    StandardiseMetadata TemporalInterpolation Threshold TriangularWeightedBlendAcrossAdjacentPoints VerticalUpdraught
    VisibilityCombineCloudBase WeightAndBlend WeightedBlendAcrossWholeDimension WetBulbTemperature
    WetBulbTemperatureIntegral WindDirection WindGustDiagnostic
""".split()

TITLES = [None, "", "unknown", "UKV Model Forecast", "Post-Processed UKV Model Forecast", "IMPROVER Post-Processed Multi-Model Blend",
          "post-processed x", "Unknown", "unknown model", "PostProcessed", "Post-Processed", "UKV Post-Processed"]


def want_title(t):
    if t is None or t == "unknown" or "Post-Processed" in t:
        return t
    return "Post-Processed " + t


def make(title):
    import numpy as np
    from iris.cube import Cube

    c = Cube(np.arange(3, dtype=np.float32), long_name="x", units="1")
    if title is not None:
        c.attributes["title"] = title
    c.attributes["source"] = "IMPROVER"
    return c


# ------------------------------------------------------------------ results
ITEMS = [0, 3, 4, 11, "str", "none", "array", "nested"]  # indices of TITLES or other objects


def item(i):
    import numpy as np

    if isinstance(i, int):
        return make(TITLES[i])
    return {"str": "text", "none": None, "array": np.arange(2), "nested": [make(TITLES[3])]}[i]


def view(o):
    from iris.cube import Cube
    import numpy as np

    if isinstance(o, Cube):
        return ("cube", dict(o.attributes), o.data.tolist(), o.name())
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (list, tuple)) or type(o).__name__ in ("deque", "Own"):
        return [view(x) for x in o]
    if isinstance(o, dict):
        return {k: view(v) for k, v in o.items()}
    return o


def model(o, top=True):
    """The observable value of the result after a post-processing plugin returned it."""
    from iris.cube import Cube

    if isinstance(o, Cube):
        a = dict(o.attributes)
        if "title" in a:
            a["title"] = want_title(a["title"])
        return ("cube", a, o.data.tolist(), o.name())
    if top and (isinstance(o, (list, tuple)) or type(o).__name__ in ("deque", "Own")):
        return [model(x, False) if isinstance(x, Cube) else view(x) for x in o]
    return view(o)


def check_result(case, cov):
    from iris.cube import CubeList
    from improver import BasePlugin, PostProcessingPlugin

    import collections

    class Own:
        """An iterable collection that is neither list nor tuple."""

        def __init__(self, parts):
            self.parts = parts

        def __iter__(self):
            return iter(self.parts)

    kind, items, base = case
    parent = BasePlugin if base == "base" else PostProcessingPlugin
    calls = []

    class P(parent):
        def process(self, *args, **kwargs):
            calls.append((args, kwargs))
            return self.out

    p = P()
    objs = [item(i) for i in items]
    res = {"one": lambda: objs[0], "list": lambda: list(objs), "tuple": lambda: tuple(objs), "cubelist": lambda: CubeList(objs), "deque": lambda: collections.deque(objs), "own": lambda: Own(objs), "dict": lambda: {str(i): o for i, o in enumerate(objs)}}[kind]()
    p.out = res
    for round_ in range(3):
        want = view(res) if base == "base" else model(res)
        got = p(1, "a", k=round_)
        expect(got is res, "the plugin returns what process returned")
        expect(calls[-1] == ((1, "a"), {"k": round_}), "arguments are passed on", None, calls[-1])
        args, kw = [((None,), {"a": None, "b": False}), ((), {"x": 0}), ((), {"": ""}), (([],), {"args": (), "kwargs": {}}), ((None, None), {})][(len(items) + round_) % 5]
        p(*args, **kw)
        expect(calls.pop() == (args, kw), "arguments are passed on", (args, kw), calls)
        expect(len(calls) == round_ + 1, "process runs once per call", round_ + 1, len(calls))
        expect_same(view(got), want, "attributes of the result (call %d)" % round_)
        cov.step()
        cov.state(case, round_)
    # process itself leaves titles alone
    q = P()
    q.out = item(items[0])
    before = view(q.out)
    expect_same(view(q.process()), before, "process leaves titles alone")
    return kind


def cases_result(tier):
    for base in ("base", "post"):
        for i in range(len(TITLES)):
            yield ["one", [i], base]
        for i in ITEMS:
            yield ["one", [i], base]
        for kind in ("list", "tuple", "dict"):
            yield_n = range(1, 4 if tier == "quick" else 5)
            for n in yield_n:
                for it in itertools.product(ITEMS, repeat=n):
                    yield [kind, list(it), base]
        for n in range(1, 4):
            for it in itertools.product([0, 3, 4, 11], repeat=n):
                yield ["cubelist", list(it), base]
                yield ["deque", list(it), base]
                yield ["own", list(it), base]


def check_abstract(case, cov):
    from improver import BasePlugin, PostProcessingPlugin

    for parent in (BasePlugin, PostProcessingPlugin):
        class Empty(parent):
            pass

        expect(isinstance(raises(Empty), TypeError), "a plugin without process cannot be created")
        expect(isinstance(raises(parent), TypeError), "the base class cannot be created")

        class Fails(parent):
            def process(self):
                raise KeyError("inner")

        expect(isinstance(raises(Fails()), KeyError), "failures of process propagate")
        cov.step(3)
        cov.state(parent.__name__)


# ------------------------------------------------------------------ flat namespace
def check_api(case, cov):
    import importlib
    import improver.api as api

    name, how = case
    if how == "unknown":
        exc = raises(getattr, api, name)
        expect(isinstance(exc, (AttributeError, KeyError)), "an unknown name is refused", "error", exc)
        return "refused"
    if how == "attr":
        obj = getattr(api, name)
    else:
        ns = {}
        exec("from improver.api import %s as obj" % name, ns)
        obj = ns["obj"]
    expect(callable(obj), "%s is callable" % name)
    expect(obj.__name__ == name, "api.%s is the plugin of that name" % name, name, obj.__name__)
    module = api.PROCESSING_MODULES[name]
    expect(obj.__module__ == module, "defining module", module, obj.__module__)
    expect(obj is getattr(importlib.import_module(module), name), "same object as in its module")
    cov.state(case)
    return "resolved"


def cases_api(tier):
    import improver.api as api

    for name in sorted(set(PUBLISHED) | set(api.PROCESSING_MODULES)):
        yield [name, "attr"]
        yield [name, "from"]
    for name in ("NoSuchPlugin", "", "combine", "COMBINE", "__nothing__", "__path_x__", "__all__", "process"):
        yield [name, "unknown"]


# ------------------------------------------------------------------ as_cubelist / as_cube
def check_inputs(case, cov):
    import numpy as np
    from iris.cube import Cube, CubeList
    from improver.utilities.common_input_handle import as_cube, as_cubelist

    n, shape, bad = case
    cubes = [make("t%d" % i) for i in range(n)]
    leaves = list(cubes)
    if bad is not None:
        leaves.insert(bad[0], {"str": "x", "none": None, "array": np.zeros(2), "dictkey": {"a": 1}}[bad[1]])

    def build(s, it):
        if s == "x":
            return next(it)
        seq = [build(y, it) for y in s[1]]
        return {"l": list, "t": tuple, "c": list, "g": iter}[s[0]](seq) if not (s[0] == "c" and all(isinstance(q, Cube) for q in seq)) else CubeList(seq)

    it = iter(leaves)
    args = [build(s, it) for s in shape]
    if bad is not None:
        exc = raises(as_cubelist, *args)
        expect(isinstance(exc, (TypeError, ValueError)), "something that is no cube is refused", TypeError, exc)
        return "refused"
    if n == 0:
        expect(isinstance(raises(as_cubelist, *args), ValueError), "no cubes at all is refused")
        return "empty"
    got = as_cubelist(*args)
    expect(isinstance(got, CubeList), "a CubeList is returned", CubeList, type(got))
    expect(len(got) == n and all(a is b for a, b in zip(got, cubes)), "all cubes in the order given", n, len(got))
    cov.state(case)
    return "ok"


def shapes(n, depth):
    """All argument shapes with n leaves (nesting depth bounded)."""
    def forest(n, d):
        if n == 0:
            yield []
            return
        for k in range(1, n + 1):
            for first in trees(k, d):
                for rest in forest(n - k, d):
                    yield [first] + rest

    def trees(k, d):
        if k == 1:
            yield "x"
        if d:
            for kind in ("l", "t", "c", "g"):
                for f in forest(k, d - 1):
                    yield [kind, f]

    return forest(n, depth)


def cases_inputs(tier):
    yield [0, [], None]
    yield [0, [["l", []]], None]
    yield [0, [["l", [["t", []]]], ["c", []]], None]
    for n in range(1, 4 if tier == "quick" else 5):
        for s in shapes(n, 2 if n < 3 else 1 if tier == "quick" and n > 3 else 2):
            yield [n, s, None]
    for n in (1, 2, 3):
        for s in shapes(n, 1):
            for pos in range(n):
                for b in ("str", "none", "array", "dictkey"):
                    yield [n - 1, s, [pos, b]]


def check_as_cube(case, cov):
    """One cube is returned as it is; several are merged along their scalar coordinate or refused."""
    import numpy as np
    from iris.coords import DimCoord, AuxCoord
    from iris.cube import Cube, CubeList
    from improver.utilities.common_input_handle import as_cube

    vals, names, wrap = case
    cubes = []
    for v, nm in zip(vals, names):
        c = Cube(np.full(3, v, np.float32), long_name=nm, units="1")
        c.add_aux_coord(DimCoord(np.int32(v), long_name="realization", units="1"))
        cubes.append(c)
    args = {"args": cubes, "list": [cubes], "cubelist": [CubeList(cubes)], "nested": [[[c] for c in cubes]]}[wrap]
    mergeable = len(set(vals)) == len(vals) and len(set(names)) == 1
    try:
        got = as_cube(*args)
    except ValueError:
        expect(len(cubes) > 1 and not mergeable, "cubes that merge are refused", "cube", ValueError)
        return "refused"
    if len(cubes) == 1:
        expect(got is cubes[0], "a single cube is returned as it is")
        return "single"
    expect(mergeable, "cubes that do not merge are accepted", ValueError, vals)
    expect(list(got.coord("realization").points) == sorted(vals), "merged points", sorted(vals), got.coord("realization").points)
    expect_same(np.array(got.data[:, 0]), np.array(sorted(vals), np.float32), "merged data")
    cov.state(case)
    return "merged"


def cases_as_cube(tier):
    for n in (1, 2, 3):
        for vals in itertools.product((0, 1, 2, 5), repeat=n):
            for names in itertools.product(("a", "b"), repeat=n):
                for wrap in ("args", "list", "cubelist", "nested"):
                    yield [list(vals), list(names), wrap]


def sections():
    import improver.api  # noqa
    import improver  # noqa

    return [
        Section("result", cases_result, check_result, "12 titles; all results of up to 3 items from 8 kinds as list, tuple, dict, CubeList; 3 repeated calls; both base classes"),
        Section("abstract", lambda t: [0], check_abstract, "both base classes"),
        Section("namespace", cases_api, check_api, "every published name, two import styles, 8 unknown names"),
        Section("as_cubelist", cases_inputs, check_inputs, "all nestings of up to 3 cubes (thorough 4), every bad leaf position"),
        Section("as_cube", cases_as_cube, check_as_cube, "all combinations of up to 3 cubes"),
    ]


if __name__ == "__main__":
    main(globals())
