"""C04: command lines: bracketed pipelines, argument conversion, output handling."""
import itertools
import os
import pathlib

from mc import Section, Violation, expect, main, same

PROPERTY = "C04"

# ------------------------------------------------------------------------------- brackets
TOKENS = ["[", "]", "a", "--b"]
WORDS = ["[", "]", " [", "] ", "[a", "b]", "[]", "", "--c=[1]"]  # brackets inside a word are part of the word


class Bad(Exception):
    pass


def model_unbracket(toks):
    """Recursive descent parser of the bracket grammar."""
    pos = 0

    def parse(depth):
        nonlocal pos
        out = []
        while pos < len(toks):
            t = toks[pos]
            pos += 1
            if t == "[":
                out.append(parse(depth + 1))
            elif t == "]":
                if depth == 0:
                    raise Bad()
                return out
            else:
                out.append(t)
        if depth:
            raise Bad()
        return out

    return parse(0)


def check_brackets(case, cov):
    from improver.cli import unbracket

    n, prefix = case[:2]
    alphabet = WORDS if len(case) > 2 else TOKENS
    for rest in itertools.product(alphabet, repeat=n):
        toks = list(prefix) + list(rest)
        keep = list(toks)
        try:
            want = model_unbracket(toks)
        except Bad:
            want = "error"
        try:
            got = unbracket(toks)
        except ValueError as exc:
            got = "error"
            expect("ismatched" in str(exc), "unhelpful message", "Mismatched bracket ...", str(exc))
        expect(got == want, "brackets of %s" % toks, want, got)
        expect(toks == keep, "argument list modified", keep, toks)
        cov.step()
        cov.trace()
        cov.outcome("error" if want == "error" else "nested%d" % str(want).count("["))
        cov.state(toks, want)


def cases_brackets(tier):
    yield [0, []]
    for n in range(0, 7 if tier == "quick" else 9):
        for p in itertools.product(TOKENS, repeat=2):
            yield [n, list(p)]
    for p in TOKENS:
        yield [0, [p]]
    for n in range(1, 5 if tier == "quick" else 6):
        yield [n, [], "words"]


# ------------------------------------------------------------------------------- pipelines
class Thing:
    """An object passed between commands."""

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return "Thing(%s)" % self.label


class Unhashable(Thing):
    __hash__ = None

    def __eq__(self, other):
        return isinstance(other, Unhashable) and self.label == other.label


def trees(depth, width):
    """All command trees: ["cmd", child...]; a child is a string or a tree."""
    leaves = ["s", "--opt"]
    if depth == 0:
        return leaves
    sub = leaves + [t for t in trees(depth - 1, width) if isinstance(t, list)]
    out = list(leaves)
    for cmd in ("mk", "none"):
        for w in range(width + 1):
            for kids in itertools.product(sub, repeat=w):
                out.append([cmd] + list(kids))
    return out


def model_exec(tree, log, objs):
    """Post-order evaluation."""
    args = []
    for a in tree[1:]:
        if isinstance(a, list):
            args.append(model_exec(a, log, objs))
        elif a == "s" or a == "--opt":
            args.append(a)
    log.append((tree[0], tuple(args)))
    if tree[0] == "none":
        return None
    return ("obj", len(log) - 1)


def flatten_tree(tree):
    out = []
    for a in tree:
        if isinstance(a, list):
            out += ["["] + flatten_tree(a) + ["]"]
        else:
            out.append(a)
    return out


def check_pipeline(case, cov):
    """Nested commands run innermost and leftmost first; each receives the very objects its arguments returned."""
    from improver.cli import ObjectAsStr, execute_command, unbracket

    tree, how, unhash = case
    wantlog = []
    model_exec(tree, wantlog, {})
    log, made = [], []

    def dispatcher(prog, cmd, *args):
        expect(prog == "improver", "program name", "improver", prog)
        seen = []
        for a in args:
            expect(isinstance(a, str), "argument reached the command parser as %s" % type(a))
            if isinstance(a, ObjectAsStr):
                o = a.original_object
                if o is None:
                    seen.append(None)
                else:
                    idx = [i for i, m in enumerate(made) if m is o]
                    expect(len(idx) == 1, "argument is not the object its command returned", made, o)
                    seen.append(("obj", idx[0]))
            else:
                seen.append(str(a))
        log.append((str(cmd), tuple(seen)))
        if cmd == "none":
            made.append(None)
            return None
        made.append((Unhashable if unhash else Thing)(len(made)))
        return made[-1]

    if how == "lists":
        args = tree
    elif how == "tuples":
        def tup(t):
            return tuple(tup(x) if isinstance(x, list) else x for x in t)

        args = tup(tree)
    else:
        args = unbracket(flatten_tree(tree))
    res = execute_command(dispatcher, "improver", *args)
    expect(log == wantlog, "commands run or arguments received", wantlog, log)
    expect(res is made[-1], "result of the outer command", made[-1], res)
    # dry run: nothing is executed
    n = len(log)
    execute_command(dispatcher, "improver", *args, dry_run=True)
    expect(len(log) == n, "dry run executed a command", n, len(log))
    cov.state(tree, how)
    return "%d commands" % n


def cases_pipeline(tier):
    for t in trees(2, 2):
        if isinstance(t, list):
            for how in ("brackets", "lists", "tuples"):
                yield [t, how, 0]
            yield [t, "lists", 1]
    if tier == "thorough":
        for t in trees(1, 4):
            if isinstance(t, list):
                yield [t, "brackets", 0]
        for t in trees(3, 1):
            if isinstance(t, list):
                yield [t, "brackets", 0]


# ------------------------------------------------------------------------------- conversion
def _files():
    import json
    import numpy as np
    from iris.cube import CubeList
    from improver.synthetic_data.set_up_test_cubes import set_up_variable_cube
    from improver.utilities.save import save_netcdf

    d = os.environ["VERIF_SCRATCH"]
    one, two, js = (os.path.join(d, n) for n in ("one.nc", "two.nc", "x.json"))
    a = set_up_variable_cube(np.arange(4, dtype=np.float32).reshape(2, 2), name="air_temperature")
    b = set_up_variable_cube(np.arange(4, dtype=np.float32).reshape(2, 2), name="wind_speed", units="m s-1")
    if not os.path.exists(js):
        save_netcdf(a, one)
        save_netcdf(CubeList([a, b]), two)
        with open(js, "w") as f:
            json.dump({"k": [1, {"z": None}]}, f)
    return one, two, js, a, b


def check_convert(case, cov):
    """Every argument type accepts its text form and passes objects of its own kind through unchanged."""
    import datetime
    import numpy as np
    from iris.cube import Cube, CubeList
    from improver import cli

    kind, form = case
    one, two, js, a, b = _files()

    def obj_or(x):
        return cli.ObjectAsStr(x) if form == "wrapped" else x

    if kind == "inputcube":
        for conv in (cli.inputcube, cli.inputcube_nolazy):
            if form == "text":
                c = conv(one)
                expect(isinstance(c, Cube) and c.name() == "air_temperature" and same(c.data, a.data), "cube from path", a, c)
                if conv is cli.inputcube_nolazy:
                    expect(not conv(one).has_lazy_data(), "lazy data although they were to be loaded")
            else:
                expect(conv(obj_or(a)) is a, "a cube object must be passed through", a, None)
    elif kind == "inputcubelist":
        if form == "text":
            cl = cli.inputcubelist(two)
            expect(sorted(c.name() for c in cl) == ["air_temperature", "wind_speed"], "cubes from path", 2, cl)
        else:
            cl = CubeList([a, b])
            expect(cli.inputcubelist(obj_or(cl)) is cl, "a cube list object must be passed through")
    elif kind == "inputjson":
        if form == "text":
            expect(cli.inputjson(js) == {"k": [1, {"z": None}]}, "json from path")
            expect(cli.inputjson("") is None, "empty path", None, cli.inputjson(""))
        else:
            for d in ({"q": 1}, {}, None, [1, 2]):
                got = cli.inputjson(obj_or(d))
                expect(got is d, "an object must be passed through", d, got)
    elif kind == "list":
        if form == "text":
            for n in range(1, 4):
                for items in itertools.product(["a", "", "b c", "1.5"], repeat=n):
                    got = cli.comma_separated_list(",".join(items))
                    expect(got == list(items), "comma separated list", list(items), got)
                    cov.step()
        else:
            for x in ([], ["a"], ["a", "b"], ("a",)):
                expect(cli.comma_separated_list(obj_or(x)) is x, "a list must be passed through", x)
    elif kind == "floats":
        if form == "text":
            for n in range(1, 4):
                for items in itertools.product(["1", "-2.5", "1e3", "0"], repeat=n):
                    got = cli.comma_separated_list_of_float(",".join(items))
                    expect(got == [float(i) for i in items] and all(isinstance(g, float) for g in got), "list of floats", items, got)
                    cov.step()
        else:
            x = [1.0, 2.0]
            expect(cli.comma_separated_list_of_float(obj_or(x)) is x, "a list must be passed through")
    elif kind == "path":
        if form == "text":
            for p in ("a.nc", "/tmp/x/y.nc", "../q"):
                got = cli.inputpath(p)
                expect(isinstance(got, pathlib.Path) and str(got) == p, "path", p, got)
        else:
            p = pathlib.Path("a/b")
            expect(cli.inputpath(obj_or(p)) is p, "a path must be passed through")
    elif kind == "datetime":
        if form == "text":
            for y, mo, d, h, mi in itertools.product((1970, 2017, 2020), (1, 2, 12), (1, 28, 29), (0, 23), (0, 59)):
                try:
                    want = datetime.datetime(y, mo, d, h, mi)
                except ValueError:
                    continue
                got = cli.inputdatetime("%04d%02d%02dT%02d%02dZ" % (y, mo, d, h, mi))
                expect(got == want, "datetime", want, got)
                cov.step()
        else:
            p = datetime.datetime(2020, 1, 1)
            expect(cli.inputdatetime(obj_or(p)) is p, "a datetime must be passed through")
    elif kind == "constrained":
        for cons in itertools.permutations(["air_temperature", "wind_speed", lambda c: c.units == "m s-1"], 2):
            if callable(cons[0]) and cons[1] == "wind_speed":
                pass
            conv = cli.create_constrained_inputcubelist_converter(*cons)
            want = ["wind_speed" if callable(c) else c for c in cons]
            arg = two if form == "text" else obj_or(CubeList([a, b]))
            got = conv(arg)
            expect([c.name() for c in got] == want, "constrained cubes in the order of the constraints", want, [c.name() for c in got])
            cov.step()
        more = CubeList([a.copy(), b, a.copy(a.data + 1)])
        more[2].attributes["source"] = "other"
        for cons, arg, what in (
            (("absent",), two, "nothing"), (("absent",), CubeList([a, b]), "nothing"),
            (("air_temperature",), more, "two cubes"), (("wind_speed", "air_temperature"), more, "two cubes"),
            ((lambda c: c.units == "K",), more, "two cubes"), ((lambda c: True,), two, "two cubes"), ((lambda c: True,), CubeList([a, b]), "two cubes"),
            (("air_temperature", "absent"), two, "nothing"), (("absent", "wind_speed"), CubeList([a, b]), "nothing"),
        ):
            if isinstance(arg, str) != (form == "text"):
                continue
            conv = cli.create_constrained_inputcubelist_converter(*cons)
            exc = None
            try:
                conv(obj_or(arg))
            except Exception as e:
                exc = e
            expect(exc is not None, "a constraint that matches %s is accepted" % what, "error", cons)
            cov.step()
    return kind


def cases_convert(tier):
    for kind in ("inputcube", "inputcubelist", "inputjson", "list", "floats", "path", "datetime", "constrained"):
        for form in ("text", "object", "wrapped"):
            yield [kind, form]


def check_wrap(case, cov):
    """Wrapping an object as text keeps it reachable, is idempotent and never collides with equal plain text."""
    from improver.cli import ObjectAsStr, maybe_coerce_with

    for mk in (lambda: Thing(1), lambda: Unhashable(2), lambda: [1, 2], lambda: {"a": 1}, lambda: None, lambda: 3, lambda: (1,), lambda: "text", lambda: ""):
        for name in (None, "x.nc", ""):
            o = mk()
            w = ObjectAsStr(o, name)
            expect(w.original_object is o, "original object", o, w.original_object)
            expect(isinstance(w, str), "not text")
            expect(ObjectAsStr(w) is w, "wrapping twice")
            expect(ObjectAsStr(w, "other") is w, "wrapping twice with a name")
            if name is not None:
                expect(str(w) == name, "name", name, str(w))
            elif isinstance(o, str):
                expect(str(w) == o, "text of a text", o, str(w))
            else:
                expect(type(o).__name__ in w, "name mentions the type", type(o).__name__, str(w))
            expect(hash(w) != hash("".join(list(w))) or str(w) == "", "hash collides with plain text")
            calls = []
            got = maybe_coerce_with(lambda s, **k: calls.append((s, k)) or "converted", w, opt=1)
            if isinstance(o, str):
                expect(got == "converted" and calls == [(o, {"opt": 1})], "text must be converted", o, calls)
            else:
                expect(got is o and not calls, "an object must not be converted", o, got)
            cov.step(3)
    return "ok"


# ------------------------------------------------------------------------------- output
def check_output(case, cov):
    """With an output name the result is saved there with the given options and not returned (unless passed
    through); without one it is returned; a missing result is never saved."""
    import unittest.mock as mock
    from improver import cli

    result, output, pas, comp, lsd, via = case
    obj = {"cube": Thing("cube"), "none": None, "list": [Thing(1), Thing(2)], "empty": []}[result]
    saved = []

    @cli.with_output
    def command(x, *, flag=False):
        expect(x == "in" and flag is True, "options reach the command", ("in", True), (x, flag))
        return obj

    kw = {"output": output, "pass_through_output": pas}
    if comp is not None:
        kw["compression_level"] = comp
    if lsd is not None:
        kw["least_significant_digit"] = lsd
    if via == "cli":
        command = cli.clizefy(command)
        args = ["prog", cli.ObjectAsStr("in") if False else "in", "--flag"]
        if output:
            args += ["--output", output]
        if pas:
            args += ["--pass-through-output"]
        if comp is not None:
            args += ["--compression-level", str(comp)]
        if lsd is not None:
            args += ["--least-significant-digit=%d" % lsd]
    with mock.patch("improver.utilities.save.save_netcdf", lambda *a, **k: saved.append((a, k))):
        got = command.cli(*args) if via == "cli" else command("in", flag=True, **kw)
    if output and obj:
        expect(len(saved) == 1, "number of saves", 1, len(saved))
        a, k = saved[0]
        names = ["cubelist", "filename", "compression_level", "least_significant_digit"]
        full = dict(zip(names, a))
        full.update(k)
        expect(full["cubelist"] is obj and full["filename"] == output, "saved object and name", (obj, output), full)
        expect(full.get("compression_level", 1) == (1 if comp is None else comp), "compression", comp, full)
        expect(full.get("least_significant_digit") == lsd, "precision", lsd, full)
        if pas:
            expect(isinstance(got, cli.ObjectAsStr) and got.original_object is obj and str(got) == output, "passed-through result", obj, got)
        else:
            expect(got is None, "result returned although saved", None, got)
    else:
        expect(not saved, "saved without a name or result", [], saved)
        expect(got is obj, "result", obj, got)
    return "%s/%s" % (result, bool(output))


def cases_output(tier):
    for result in ("cube", "none", "list", "empty"):
        for output in (None, "o.nc", ""):
            for pas in (False, True):
                for comp in (None, 0, 9):
                    for lsd in (None, 0, 2, -1):
                        for via in ("call", "cli"):
                            if via == "cli" and output == "":
                                continue
                            yield [result, output, pas, comp, lsd, via]


# ------------------------------------------------------------------------------- real commands
STAGES = {
    "clip": ["--min-value", "2", "--max-value", "9"],
    "extract": ["--constraints", "realization=0,1"],
    "threshold": ["--threshold-values", "3,6"],
    "collapse-realizations": ["--method", "max"],
    "nbhood": None,
    "vicinity": ["2000"],
    "expected-value": [],
    "generate-percentiles": ["--coordinates", "realization", "--percentiles", "25,75"],
}
STAGES["nbhood"] = ["--neighbourhood-output", "probabilities", "--radii", "2000"]


def _source():
    import numpy as np
    from improver.synthetic_data.set_up_test_cubes import set_up_variable_cube

    d = (np.arange(3 * 5 * 4) * 7 % 11).astype(np.float32).reshape(3, 5, 4)
    return set_up_variable_cube(d, name="wind_speed", units="m s-1", spatial_grid="equalarea", x_grid_spacing=2000, y_grid_spacing=2000)


def check_real(case, cov):
    """A bracketed pipeline gives the same cube as running its stages one by one through files, and as calling the
    commands from Python; pass-through output also leaves the intermediate file."""
    import numpy as np
    from cubes import describe, diff
    from improver import cli
    from improver.utilities.load import load_cube
    from improver.utilities.save import save_netcdf

    stages = case
    d = os.environ["VERIF_SCRATCH"]
    src = os.path.join(d, "src.nc")
    if not os.path.exists(src):
        save_netcdf(_source(), src)
    # 1. staged through files
    cur, ok, err = src, True, None
    for i, s in enumerate(stages):
        out = os.path.join(d, "stage%d.nc" % i)
        if os.path.exists(out):
            os.unlink(out)
        try:
            r = cli.command_executor("improver", s, cur, *STAGES[s], "--output", out)
            expect(r is None, "saved command returned something")
        except Violation:
            raise
        except Exception as exc:
            ok, err = False, type(exc).__name__
            break
        cur = out
        cov.step()
    # 2. nested
    cmd = [src]
    for i, s in enumerate(stages):
        cmd = [s] + (["["] + cmd + ["]"] if i else cmd) + STAGES[s]
    final = os.path.join(d, "final.nc")
    if os.path.exists(final):
        os.unlink(final)
    exc2 = None
    try:
        cli.main("improver", *cmd, "--output", final)
    except Exception as exc:
        exc2 = exc
    # 3. nested, no output, objects in
    exc3, obj = None, _source()
    try:
        for s in stages:
            obj = cli.command_executor("improver", s, obj, *STAGES[s])
    except Exception as exc:
        exc3 = exc
    cov.step(2)
    expect((exc2 is None) == ok and (exc3 is None) == ok, "pipeline %s: staged %s, nested %r, objects %r" % (stages, err or "ok", exc2, exc3))
    if not ok:
        expect(not os.path.exists(final), "a failing pipeline left an output file")
        return "refused " + err
    a, b = describe(load_cube(cur)), describe(load_cube(final))
    r = diff(a, b)
    expect(r is None, "nested pipeline %s differs from the staged one: %s" % (stages, r))
    c = describe(obj)
    r = diff({k: v for k, v in a.items() if k in ("data", "shape", "units")}, {k: v for k, v in c.items() if k in ("data", "shape", "units")})
    expect(r is None, "pipeline on objects %s differs from the staged one: %s" % (stages, r))
    cov.state(stages, a["data"])
    return "ok"


def cases_real(tier):
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for st in itertools.product(STAGES, repeat=n):
            yield list(st)
    if tier == "quick":
        for st in itertools.product(["clip", "extract", "threshold", "nbhood"], repeat=3):
            yield list(st)


def check_table(case, cov):
    """Every command module is registered under its name and has a usage text."""
    import pkgutil
    import improver.cli as cli

    mods = [m.name for m in pkgutil.iter_modules(cli.__path__) if m.name != "__main__"]
    table = cli.SUBCOMMANDS_TABLE
    expect(sorted(table) == sorted(mods + ["help"]), "registered commands", sorted(mods), sorted(table))
    for m in mods:
        import importlib

        p = importlib.import_module("improver.cli." + m).process
        expect(callable(p) and hasattr(p, "cli"), "command %s is not callable from the command line" % m)
        cov.step()
        cov.state(m)
    for name in mods:
        u = cli.command_executor("improver", "help", name.replace("_", "-"), "--usage") if case[0] == "usage" else None
        expect(u is None or "Usage" in u or name.replace("_", "-") in u, "usage of %s" % name, "usage text", u)
    return "%d" % len(mods)


def sections():
    import improver.cli  # noqa
    import improver.utilities.save  # noqa

    return [
        Section("brackets", cases_brackets, check_brackets, "every token sequence over {[, ], word, option} up to length 8 (thorough 10)"),
        Section("pipelines", cases_pipeline, check_pipeline, "every command tree of depth 2, width 2 x 3 notations"),
        Section("conversion", cases_convert, check_convert, "8 argument types x text/object/wrapped object"),
        Section("wrapping", lambda t: [["all"]], check_wrap, "9 objects x 3 names"),
        Section("output", cases_output, check_output, "every combination of the output options"),
        Section("real_pipelines", cases_real, check_real, "all chains of 1-2 (and 3 over 4 commands; thorough: all 3) real commands, three ways"),
        Section("registry", lambda t: [["table"]], check_table, "all command modules"),
    ]


if __name__ == "__main__":
    main(globals())
