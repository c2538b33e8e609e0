ID = "open-bracket-at-end"
PROPERTY = "C04"
EDITS = [("improver/cli/__init__.py", "    if stack:\n        raise ValueError(mismatch_msg % len(args))\n", "    if stack and outargs:\n        raise ValueError(mismatch_msg % len(args))\n")]
DEMO = r'''
from improver.cli import unbracket
for a in (["a", "[", "b"], ["a", "["], ["["], ["a", "[", "[", "b", "]"]):
    try:
        r = unbracket(a)
    except ValueError:
        continue
    raise SystemExit("%s accepted: %s" % (a, r))
assert unbracket(["a", "[", "b", "]"]) == ["a", ["b"]]
'''
NEEDS = "a command line whose last word is an opening bracket"
BREAKS = "an unclosed bracket is accepted and everything before it is lost"
