"""Exceptions of the iris stand-in (same hierarchy as iris 3.0)."""


class IrisError(Exception):
    pass


class CoordinateCollapseError(IrisError):
    pass


class CoordinateNotFoundError(KeyError):
    pass


class CellMeasureNotFoundError(KeyError):
    pass


class AncillaryVariableNotFoundError(KeyError):
    pass


class CoordinateMultiDimError(ValueError):
    def __init__(self, msg):
        from iris.coords import Coord

        if isinstance(msg, Coord):
            msg = (
                "Multi-dimensional coordinate not supported: '%s'" % msg.name()
            )
        ValueError.__init__(self, msg)


class CoordinateNotRegularError(ValueError):
    pass


class InvalidCubeError(IrisError):
    pass


class ConstraintMismatchError(IrisError):
    pass


class NotYetImplementedError(IrisError):
    pass


class TranslationError(IrisError):
    pass


class IgnoreCubeException(IrisError):
    pass


class ConcatenateError(IrisError):
    def __init__(self, differences):
        self.differences = differences

    def __str__(self):
        return "\n  ".join(["failed to concatenate into a single cube."] + list(self.differences))


class MergeError(IrisError):
    def __init__(self, differences):
        self.differences = differences

    def __str__(self):
        return "\n  ".join(["failed to merge into a single cube."] + list(self.differences))


class DuplicateDataError(MergeError):
    def __init__(self, msg):
        self.differences = [msg]


class LazyAggregatorError(Exception):
    pass


class UnitConversionError(IrisError):
    pass


class CannotAddError(ValueError):
    pass
