"""Writes properties.jsonl and MANIFEST.json from the entries in tools/entries/*.py (run: python3 tools/registry.py)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks = [], []
NOT = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique, level_note, state=None, observe=None, level="model_checking", na=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": mechanism}
    if state:
        anchors["state"] = state
    if observe:
        anchors["observe_at"] = observe
    props.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": quant},
                  "why_tests_cant": why, "anchors": anchors})
    if na:
        NOT.append({"property": id, "reason": na})
    else:
        checks.append({"property": id, "quick_cmd": "bash run.sh %s quick" % id, "thorough_cmd": "bash run.sh %s thorough" % id,
                       "technique": technique, "level": level, "level_note": level_note})


for f in sorted(glob.glob(os.path.join(HERE, "tools", "entries", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"prop": prop})

props.sort(key=lambda p: p["id"])
checks.sort(key=lambda p: p["property"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NOT}, f, indent=1)
    f.write("\n")
try:
    import jsonschema

    sch = json.load(open("/root/.vp/MANIFEST.schema.json"))
    jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), sch)
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, sch)
    print("valid:", len(props), "properties,", len(checks), "checks")
except ImportError:
    print("jsonschema not available; written unchecked")
