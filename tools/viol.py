"""Violations of the last run of a check, one per section and message: viol.py Cxx [t] (with tracebacks)"""
import json, glob, sys
seen = {}
for f in sorted(glob.glob('/verif/evidence/replay/%s-*.json' % sys.argv[1])):
    d = json.load(open(f))
    k = (d['section'], d['message'][:60])
    seen.setdefault(k, []).append(d)
for (s, m), l in seen.items():
    print("##", s, len(l), "e.g.", *[str(d['case'])[:150] for d in l[:3]], sep="  ")
    d = l[0]
    print("  ", d['message'][:300], '|E', str(d['expected'])[:200], '|G', str(d['got'])[:300])
    if len(sys.argv) > 2:
        print(d['traceback'][-1200:])
