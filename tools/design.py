"""Rewrite the per-property part of DESIGN.md from properties.jsonl, the manifest, the last evidence, the seeded bugs and the
findings file. Run after the checks; nothing here is used by a check."""
import json, os, re, glob, textwrap
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated below by tools/design.py -->"
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(R + "/MANIFEST.json"))["checks"]}
kf = json.load(open(R + "/known_findings.json"))
caught = {}
if os.path.exists(R + "/tools/caught.json"):
    caught = json.load(open(R + "/tools/caught.json"))
bugs = {}
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    j = json.load(open(m)); bugs.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j))
out = []
out.append("## The properties, one by one\n")
out.append("Every property is decided by the same kind of step: each member of the listed spaces is executed on the real code and compared "
           "with a reference model (never recorded output of the implementation). `n` is the number of cases of the quick tier; a case often "
           "contains many executions. Costs are wall-clock seconds of the quick tier with 8 workers on the build machine.\n")
for p in props:
    i = p["id"]; c = man.get(i)
    out.append("### %s %s" % (i, p["title"]))
    if not c:
        out.append("Not claimed.\n"); continue
    e = {}
    f = R + "/evidence/%s.json" % i
    if os.path.exists(f): e = json.load(open(f))
    cov = e.get("coverage", {})
    out.append("*Method*: %s." % c["technique"].rstrip("."))
    secs = cov.get("cases_per_section", {}); bounds = cov.get("section_bounds", {})
    if secs and e.get("tier") == "quick":
        out.append("*Spaces* (%d states, %d transitions, %.0f s): " % (cov["states"], cov["transitions"], e["wall_s"]) +
                   "; ".join("`%s` n=%d%s" % (s, n, (" – " + bounds[s]) if bounds.get(s) else "") for s, n in secs.items()) + ".")
    out.append("*Why tests cannot settle it*: %s" % p["why_tests_cant"])
    out.append("*Limits*: %s" % c["level_note"])
    fx = [x.split(" ", 3) for x in kf["fixed"] if x.startswith("fixed: property=%s " % i)]
    if fx: out.append("*Defects found and repaired*: %d (see `known_findings.json`), e.g. %s." % (len(fx), "; ".join(x[3] for x in fx[:3])))
    fk = [x for x in kf["findings"] if x["property"] == i]
    for x in fk: out.append("*Known finding*: %s." % x["what"])
    for b, j in bugs.get(i, []):
        out.append("*Planted bug* `%s` (needs %s): %s." % (b, j["needs"], caught.get(b, "caught")))
    out.append("")
s = open(R + "/DESIGN.md").read().split(MARK)[0].rstrip()
wrapped = []
for para in out:
    wrapped.append("\n".join(textwrap.wrap(para, 140, break_long_words=False, break_on_hyphens=False)) if para else "")
open(R + "/DESIGN.md", "w").write(s + "\n\n" + MARK + "\n\n" + "\n".join(wrapped) + "\n")
print("DESIGN.md:", len(props), "properties")
