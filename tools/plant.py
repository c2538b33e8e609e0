"""Plant a bug: python3 tools/plant.py SPEC.py ... (each spec defines ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS, optional IRIS).
Builds seeded/ID after checking, in a scratch copy of /repo, that the demo passes without and fails with the change and that the
stable tests pass with it; then runs the property's quick check against the changed copy and says whether it is caught."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/plant"
TESTS = ["test_source_code.py", "test_api.py", "ensemble_copula_coupling/test__scipy_continuous_distns.py", "nbhood/test_init.py",
         "spotdata/test_utilities.py", "synthetic_data/test_utilities.py", "utilities/test_cli_utilities.py", "utilities/test_compare.py",
         "utilities/test_neighbourhood_tools.py", "utilities/test_round.py"]


def sh(cmd, cwd, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def stable(repo):
    out = SC + "/junit.xml"
    sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --import-mode=importlib --continue-on-collection-errors -o junit_family=xunit2 "
       "--junitxml=%s %s" % (out, " ".join("improver_tests/" + t for t in TESTS)), repo, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
    import xml.etree.ElementTree as ET

    ok = {c.get("classname") + "::" + c.get("name") for c in ET.parse(out).getroot().iter("testcase") if not len([x for x in c if x.tag in ("failure", "error", "skipped")])}
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in base if t not in ok]


def plant(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, "exec"), ns)
    bid, prop = ns["ID"], ns["PROPERTY"]
    shutil.rmtree(SC, ignore_errors=True)
    os.makedirs(SC)
    repo = SC + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", repo])
    for f, old, new in ns["EDITS"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "%s: text found %d times in %s" % (bid, s.count(old), f)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
    d = SC + "/demo"
    os.makedirs(d)
    if ns.get("IRIS", True):
        subprocess.check_call(["tar", "czf", d + "/standin.tgz", "--mtime=2020-01-01", "--owner=0", "--group=0", "-C", V, "--exclude=__pycache__", "standin"])
    demo = ns["DEMO"].strip() + "\n"
    open(d + "/demo.py", "w").write(demo)
    iris = """tar xzf "$here/standin.tgz" -C "$work"
""" if ns.get("IRIS", True) else ""
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
%sexport PYTHONPATH=$repo:$work/standin PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 TZ=UTC
cd "$work" && timeout 250 /opt/venv/bin/python "$here/demo.py"
""" % iris)
    open(SC + "/p.diff", "w").write(diff)
    r = sh("bash %s/demo.sh" % d, repo)
    if r.returncode == 0:
        return "%s: demo passes with the change\n%s" % (bid, r.stdout[-800:])
    bad = r.stdout[-500:]
    miss = stable(repo)
    if miss:
        return "%s: stable tests fail: %s" % (bid, miss)
    c = sh("bash %s/run.sh %s quick" % (V, prop), V, VERIF_REPO=repo)
    caught = c.returncode == 1 and "VIOLATION property=%s" % prop in c.stdout
    sh("git apply -R %s/p.diff" % SC, repo)
    r = sh("bash %s/demo.sh" % d, repo)
    if r.returncode != 0:
        return "%s: demo fails without the change\n%s" % (bid, r.stdout[-1500:])
    out = os.path.join(V, "seeded", bid)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    shutil.copy(SC + "/p.diff", out + "/patch.diff")
    json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    return "%s (%s): kept, %s [%s]" % (bid, prop, "CAUGHT" if caught else "MISSED rc=%d %s" % (c.returncode, c.stdout[-300:]), bad.strip().splitlines()[-1][:120] if bad.strip() else "")


for s in sys.argv[1:]:
    print(plant(s), flush=True)
shutil.rmtree(SC, ignore_errors=True)
