"""C10: rounding to integers, flattening, indexed choice."""
import C06
from mc import Section, main

PROPERTY = "C10"


def sections():
    import improver.utilities.round  # noqa
    import improver.utilities.flatten  # noqa
    import improver.utilities.indexing_operations  # noqa

    return [
        Section("rounding", C06.cases_round, C06.check_round, "12 integers x 12 offsets x 6 forms x 4 dtypes"),
        Section("large", C06.cases_round_large, C06.check_round_large, "12 whole numbers up to 2**62 x 10 forms"),
        Section("flatten", lambda t: [[k, 16] for k in range(16)], C06.check_flatten, "all nestings of depth 2, width 3 x 3 iterable types"),
        Section("choose", C06.cases_choose, C06.check_choose, "every index array for 10 (thorough 14) shapes"),
    ]


if __name__ == "__main__":
    main(globals())
