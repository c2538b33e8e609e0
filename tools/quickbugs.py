"""quickbugs.py FILE [workers] [name…]: applies each bug of FILE (BUGS = [(property, name, [(file, old, new), ...]), ...]) to a
scratch copy of /repo and says whether the property's quick check reports it. No demonstration: a fast screen for blind spots."""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/quickbugs/%d" % os.getpid()


def one(k, bug):
    prop, name, edits = bug
    repo = "%s/%d" % (BASE, k)
    shutil.rmtree(repo, ignore_errors=True)
    os.makedirs(repo)
    subprocess.check_call("cp -a /repo/improver /repo/bin /repo/setup.cfg %s/" % repo, shell=True)
    for f, old, new in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "TEXT found %d times in %s" % (s.count(old), f)
        open(p, "w").write(s.replace(old, new))
    if os.path.exists(repo + ".stop"):
        os.remove(repo + ".stop")
    c = subprocess.run(["bash", V + "/run.sh", prop, "quick"], env=dict(os.environ, VERIF_REPO=repo, VERIF_STOP=repo + ".stop"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(repo, ignore_errors=True)
    if c.returncode == 1 and "VIOLATION property=%s" % prop in c.stdout:
        return "caught " + [q for q in c.stdout.splitlines() if q.startswith("  [")][0][:150] if "  [" in c.stdout else "caught"
    return "MISSED rc=%d %s" % (c.returncode, c.stdout[-300:])


ns = {}
exec(open(sys.argv[1]).read(), ns)
bugs = [b for b in ns["BUGS"] if len(sys.argv) < 4 or b[1] in sys.argv[3:]]
with ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 2) as ex:
    for b, r in zip(bugs, ex.map(lambda q: one(*q), enumerate(bugs))):
        print(b[0], b[1], ":", r, flush=True)
shutil.rmtree(BASE, ignore_errors=True)
