"""mutate.py Cxx N [workers] : runs the quick check of a property, from a copy of /verif, against N mutants of the files it is about
(evenly spread over all possible ones); survivors are listed in /tmp/mut/Cxx.txt for review. Not part of any check."""
import ast
import json
import os
import shutil
import subprocess
import sys
import time

prop, N = sys.argv[1], int(sys.argv[2])
workers = sys.argv[3] if len(sys.argv) > 3 else "4"
props = {}
for ln in open("/verif/properties.jsonl"):
    d = json.loads(ln)
    props[d["id"]] = d
only = sys.argv[4:] 
P = props[prop]
text = json.dumps(P)
import re

files = only or sorted(set(re.findall(r"improver/[a-z_A-Z0-9/]+\.py", text)))
W = "/tmp/mut/%s" % prop
os.makedirs("/tmp/mut", exist_ok=True)
shutil.rmtree(W, ignore_errors=True)
shutil.copytree("/repo", W + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git", "improver_tests", "doc"))
shutil.copytree("/verif", W + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def sites(tree):
    """(node, kind) of every possible mutation, in functions only, not in raise statements or docstrings"""
    out = []

    def walk(n, infun):
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Assert)):
            return
        if isinstance(n, ast.arguments):
            return
        if isinstance(n, (ast.FunctionDef,)):
            infun = True
            for s in n.body:
                walk(s, True)
            return
        if infun:
            if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
                out.append((n, "cmp"))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                out.append((n, "bin"))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((n, "bool"))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                out.append((n, "num"))
            elif isinstance(n, (ast.If, ast.IfExp)):
                out.append((n, "if"))
            elif isinstance(n, ast.BoolOp):
                out.append((n, "bool op"))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                out.append((n, "unary"))
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                if "warn" in ast.unparse(n.value.func):
                    return
                out.append((n, "drop"))
            elif isinstance(n, ast.AugAssign):
                out.append((n, "aug"))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args and not n.keywords:
                out.append((n, "copy"))
            elif isinstance(n, ast.Call) and n.keywords and len(n.keywords) > 0:
                out.append((n, "kw"))
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            walk(c, infun)

    walk(tree, False)
    return out


class R(ast.NodeTransformer):
    def __init__(self, target, new):
        self.t, self.n = target, new

    def visit(self, node):
        return self.n if node is self.t else super().generic_visit(node)


def mutate(tree, node, kind, k):
    import copy

    if kind == "cmp":
        node.ops[0] = CMP[type(node.ops[0])]()
    elif kind == "bin":
        node.op = BIN[type(node.op)]()
    elif kind == "bool":
        node.value = not node.value
    elif kind == "num":
        node.value = node.value + 1 if isinstance(node.value, int) else node.value * 1.5 + 0.1
    elif kind == "if":
        node.test = ast.UnaryOp(ast.Not(), node.test)
    elif kind == "bool op":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif kind == "unary":
        return R(node, node.operand).visit(tree)
    elif kind == "drop":
        node.value = ast.Constant(None)
    elif kind == "aug":
        return R(node, ast.Assign([node.target], node.value, lineno=node.lineno)).visit(tree)
    elif kind == "copy":
        return R(node, node.func.value).visit(tree)
    elif kind == "kw":
        node.keywords.pop(k % len(node.keywords))
    return tree


al = []
for f in files:
    src = open("/repo/" + f).read()
    n = len(sites(ast.parse(src)))
    al += [(f, i) for i in range(n)]
step = max(1, len(al) / N)
pick = [al[int(i * step)] for i in range(min(N, len(al)))]
out = open("/tmp/mut/%s.txt" % prop, "w")
print("# %s: %d sites, %d picked" % (prop, len(al), len(pick)), file=out, flush=True)
killed = 0
for f, i in pick:
    src = open("/repo/" + f).read()
    tree = ast.parse(src)
    node, kind = sites(tree)[i]
    before = ast.unparse(node).split("\n")[0][:110]
    line = node.lineno
    tree = ast.fix_missing_locations(mutate(tree, node, kind, i))
    p = W + "/repo/" + f
    open(p, "w").write(ast.unparse(tree))
    stop = W + "/stop"
    if os.path.exists(stop):
        os.unlink(stop)
    env = dict(os.environ, VERIF_REPO=W + "/repo", VERIF_STOP=stop, VERIF_WORKERS=workers)
    t = time.time()
    try:
        r = subprocess.run(["bash", W + "/verif/run.sh", prop, "quick"], env=env, capture_output=True, text=True, timeout=600)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    if rc == 0:
        print("SURVIVED %s:%d %s: %s   (%.0fs)" % (f, line, kind, before, time.time() - t), file=out, flush=True)
    else:
        killed += 1
        print("killed   %s:%d %s: %s   (%.0fs)" % (f, line, kind, before, time.time() - t), file=out, flush=True)
    open(p, "w").write(src)
print("# killed %d of %d" % (killed, len(pick)), file=out, flush=True)
shutil.rmtree(W, ignore_errors=True)
