"""C11: user options - radii by lead time, neighbour method names, synthetic data options, JSON configuration."""
import C06
from mc import Section, main

PROPERTY = "C11"


def sections():
    import improver.nbhood  # noqa

    one = lambda t: [["all"]]  # noqa
    return [
        Section("radii", C06.cases_radii, C06.check_radii, "all lists of up to 3 radii and lead times"),
        Section("method_names", one, C06.check_names, "all options"),
        Section("synthetic_options", C06.cases_synth, C06.check_synth, "all subsets (and orders up to 3) of the option keys"),
        Section("json", one, C06.check_json, "9 documents, missing and broken files"),
    ]


if __name__ == "__main__":
    main(globals())
