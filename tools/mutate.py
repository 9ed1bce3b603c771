#!/usr/bin/env python3
"""random small changes to the library (on scratch copies), to find what no check notices.

mutate.py WORKER COUNT SCALE OUT COVDIR: each change that passes the stable tests is shown to the checks that
execute the changed line (COVDIR holds what tools/cover.py wrote), cheapest first, until one notices."""
import ast, glob, hashlib, json, os, random, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
wid, count, scale, out, covdir = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4], sys.argv[5]
W = "/tmp/mut/w%d" % wid
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
COST = dict(P02=1, P03=2, P11=2, P21=3, P23=3, P20=3, P05=4, P06=4, P13=4, P25=4, P01=4, P10=4, P22=4, P17=5, P18=5, P07=5, P08=5, P09=5, P12=5, P14=5, P24=5, P04=6, P19=7, P27=7, P16=10, P15=10, P26=16)
hits = {}
for p in glob.glob(covdir + "/P*.json"):
    for f, n in json.load(open(p)):
        hits.setdefault((f, n), []).append(os.path.basename(p)[:3])


def seg(src, lines, node):
    return ast.get_source_segment(src, node)


def offset(lines, l, c):
    return sum(len(x) for x in lines[:l - 1]) + len(lines[l - 1].encode()[:c].decode())


def span(lines, node):
    return offset(lines, node.lineno, node.col_offset), offset(lines, node.end_lineno, node.end_col_offset)


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
SWAP = {"starts": "stops", "_starts": "_stops", "all": "any", "any": "all", "min": "max", "max": "min", "logical_and": "logical_or", "logical_or": "logical_and", "_index": "_tags", "left": "right"}


def candidates(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    res = []
    for node in ast.walk(tree):
        if not hasattr(node, "lineno"):
            continue
        s = lambda n: ast.get_source_segment(src, n)
        a = None
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a = ["%s %s %s" % (s(node.left), CMP[type(node.ops[0])], s(node.comparators[0]))]
        elif isinstance(node, ast.BoolOp) and len(node.values) == 2:
            op = "or" if isinstance(node.op, ast.And) else "and"
            a = ["(%s) %s (%s)" % (s(node.values[0]), op, s(node.values[1])), s(node.values[0]), s(node.values[1])]
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
            a = [s(node.operand)]
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)) and not isinstance(node.left, ast.Constant):
            op = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "*"}[type(node.op)]
            a = ["%s %s %s" % (s(node.left), op, s(node.right)), s(node.left)]
        elif isinstance(node, ast.Constant) and node.value is not None and not isinstance(node.value, str):
            if isinstance(node.value, bool):
                a = [str(not node.value)]
            elif isinstance(node.value, int):
                a = [str(node.value + 1), str(node.value - 1)]
        elif isinstance(node, ast.Attribute) and node.attr in SWAP:
            a = ["%s.%s" % (s(node.value), SWAP[node.attr])]
        elif isinstance(node, ast.If):
            node, a = node.test, ["not (%s)" % s(node.test), "False", "True"]
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            a = ["pass"]
        elif isinstance(node, ast.Slice):
            lo, hi, st = [s(x) if x is not None else "" for x in (node.lower, node.upper, node.step)]
            a = [x for x in ["%s:" % lo if hi else None, ":%s" % hi if lo else None, "%s:%s" % (lo, hi) if st else None] if x]
        elif isinstance(node, ast.Call):
            fn = s(node.func)
            if len(node.args) == 1 and not node.keywords:
                a = [s(node.args[0])]
            elif len(node.args) == 2 and not node.keywords:
                a = ["%s(%s, %s)" % (fn, s(node.args[1]), s(node.args[0]))]
            elif node.keywords:
                k = len(node.keywords) - 1
                a = ["%s(%s)" % (fn, ", ".join([s(x) for x in node.args] + [("%s=%s" % (w.arg, s(w.value)) if w.arg else "**" + s(w.value)) for w in node.keywords[:k]]))]
            if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
                a = (a or []) + [s(node.func.value)]
        elif isinstance(node, ast.Return) and node.value is not None:
            a = None
        if a:
            lo, hi = span(lines, node)
            for x in a:
                if x != src[lo:hi]:
                    res.append((node.lineno, lo, hi, x))
    return res


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def tests():
    env = {"PYTHONPATH": W, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1"}
    x = W + "/junit.xml"
    sh("timeout 120 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --maxfail=12 --timeout=60 -W ignore --tb=no -o junit_family=xunit2 --junitxml=%s tests" % x, W, env)
    if not os.path.exists(x):
        return False
    sh("/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s" % (W, x), W)
    o = json.load(open(W + "/o.json"))
    return not (STABLE - set(o["passed"]))


os.makedirs("/tmp/mut", exist_ok=True)
rng = random.Random("mut%d-%s" % (wid, os.environ.get("MUTSEED", "1")))
files = [os.path.relpath(p, R + "/awkward0") for p in glob.glob(R + "/awkward0/**/*.py", recursive=True) if not p.endswith(("version.py", "__init__.py"))]
srcs = dict((f, open(os.path.join(R, "awkward0", f)).read()) for f in files)
cands = []
for f in files:
    cands += [(f,) + c for c in candidates(srcs[f]) if (f, c[0]) in hits]
for k in range(count):
    f, line, lo, hi, new = rng.choice(cands)
    src = srcs[f]
    mut = src[:lo] + new + src[hi:]
    try:
        compile(mut, f, "exec")
    except SyntaxError:
        continue
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree(R, W, ignore=shutil.ignore_patterns(".git", "docs", "binder"))
    with open(os.path.join(W, "awkward0", f), "w") as g:
        g.write(mut)
    what = {"file": f, "line": line, "old": src[lo:hi][:200], "new": new[:200]}
    if not tests():
        what["result"] = "tests"
    else:
        checks = sorted(hits[(f, line)], key=lambda p: COST[p])
        main = [p for p in checks if p not in ("P16", "P26", "P27")]
        what["result"], what["ran"] = "MISSED", checks
        for p in (main or checks):
            env = {"AKMON_REPO": W, "AKMON_EVIDENCE": W + "/ev", "AKMON_SCALE": scale}
            rc, o = sh("%s/check.sh %s quick --workers 1" % (V, p), V, env)
            if "VIOLATION" in o or rc not in (0, 2):
                what["result"] = "caught %s" % p
                break
    with open(out, "a") as g:
        g.write(json.dumps(what) + "\n")
shutil.rmtree(W, ignore_errors=True)
