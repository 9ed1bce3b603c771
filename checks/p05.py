"""P05: reductions reduce every innermost list over its own present elements and nothing else."""
import functools
import math
import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *

SUITE = Suite("P05")
SUITE.needs = {"oracle": 10000}

REDUCERS = ["any", "all", "count", "count_nonzero", "sum", "prod", "min", "max"]
NUM = ["int64", "int64", "float64", "float64", "int32", "float32", "uint8", "int8"]


def isnan(v):
    return isinstance(v, float) and v != v


def present(vals):
    return [v for v in (x.value if isinstance(x, U) else x for x in vals) if v is not None and not isnan(v)]


def leaf(op, vals, dtype):
    """reference reduction of one list of numbers"""
    vals = present(vals)
    if op == "any":
        return any(bool(v) for v in vals)
    if op == "all":
        return all(bool(v) for v in vals)
    if op == "count":
        return len(vals)
    if op == "count_nonzero":
        return sum(1 for v in vals if v != 0)
    if op == "sum":
        return sum(int(v) if isinstance(v, bool) else v for v in vals) if dtype.kind != "f" else float(sum(vals))
    if op == "prod":
        out = functools.reduce(times, [int(v) if isinstance(v, bool) else v for v in vals], 1)
        return float(out) if dtype.kind == "f" else out
    if op in ("min", "max"):
        if len(vals) == 0:
            if dtype.kind == "f":
                return float("inf") if op == "min" else float("-inf")
            info = numpy.iinfo(dtype)
            return int(info.max if op == "min" else info.min)
        return min(vals) if op == "min" else max(vals)
    if isinstance(op, tuple):
        f, ident = op
        vals = [numpy.array([v], dtype=dtype) for v in vals]
        if len(vals) == 0:
            return ident
        if f == "multiply":
            functools.reduce(times, [v[0].item() for v in vals], 1)
        return functools.reduce(lambda x, y: getattr(numpy, f)(x, y), vals)[0].item()
    raise AssertionError(op)


def times(x, y):
    out = x * y
    if out != 0 and not 1e-30 < abs(out) < (2**31 if isinstance(out, int) else 1e30):
        raise Skip            # long lists: no product of this size is judged
    return out


def leafdtype(t):
    if isinstance(t, Opt):
        return leafdtype(t.of)
    if isinstance(t, Uni):
        return numpy.result_type(*[leafdtype(s) for s in t.of])
    return t.dtype


def haslist(t):
    if isinstance(t, Lst):
        return True
    if isinstance(t, Opt):
        return haslist(t.of)
    if isinstance(t, (Rec,)):
        return any(haslist(s) for n, s in t.fields)
    return False


def red(op, t, v):
    """reference: reduce the innermost lists of one value"""
    if isinstance(t, Opt):
        return None if v is None else red(op, t.of, v)
    if isinstance(t, Rec):
        f = lambda k, n, s: red(op, s, v[k] if t.istuple else v[n])
        out = [(n, f(k, n, s)) for k, (n, s) in enumerate(t.fields)]
        return tuple(x for n, x in out) if t.istuple else dict(out)
    if isinstance(t, Reg):
        return redreg(op, t, v, len(t.inner))
    assert isinstance(t, Lst), t
    if haslist(t.of) or isinstance(t.of, Reg):
        return [red(op, t.of, x) for x in v]
    return redflat(op, t.of, v)


def redreg(op, t, v, dims):
    if dims > 1:
        return [redreg(op, t, x, dims - 1) for x in v]
    return leaf(op, v, t.dtype)


def redflat(op, t, vals):
    """reduce one list whose items contain no lists"""
    if isinstance(t, Opt) and isinstance(t.of, Rec):
        return redflat(op, t.of, [v for v in vals if v is not None])
    if isinstance(t, Rec):
        out = [(n, redflat(op, s, [(v[k] if t.istuple else v[n]) for v in vals])) for k, (n, s) in enumerate(t.fields)]
        return tuple(x for n, x in out) if t.istuple else dict(out)
    return leaf(op, vals, leafdtype(t))


def item(rng, dtypes, kinds):
    """a type of list items"""
    k = rng.choice(kinds)
    p = lambda: Prim(rng.choice(dtypes))
    if k == "prim":
        return p()
    if k == "opt":
        return Opt(p())
    if k == "reg":
        d = rng.choice(dtypes)
        return Reg(d, [rng.randint(1, 3)] + ([2] if rng.random() < 0.2 else []))
    if k == "rec":
        r = Rec([("xyz"[i], item(rng, dtypes, ("prim", "prim", "opt"))) for i in range(rng.randint(1, 3))])
        return Opt(r) if rng.random() < 0.2 and all(isinstance(s, Prim) for n, s in r.fields) else r
    if k == "uni":
        return Uni([p() for _ in range(rng.randint(1, 2))])
    raise AssertionError(k)


def jagged(rng, dtypes, kinds=("prim", "prim", "opt", "rec", "uni", "reg")):
    t = Lst(item(rng, dtypes, kinds))
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        t = Lst(t)
    return t


def mkg(mon, **kw):
    rng = mon.rng
    return mon.G(**dict(dict(longcols=False, unsigned=True, pwrap=rng.choice([0.0, 0.0, 0.3]), pnone=rng.choice([0.3, 0.7]), pnan=rng.choice([0.0, 0.2]), wrap=set(["indexed", "virtual", "chunked", "sparse"])), **kw))


SIZES = [0, 1, 1, 2, 3, 4, 6, 9]


def isbool(t):
    if isinstance(t, (Lst, Opt)):
        return isbool(t.of)
    if isinstance(t, Rec):
        return any(isbool(s) for n, s in t.fields)
    if isinstance(t, Uni):
        return any(isbool(s) for s in t.of)
    return t.dtype.kind == "b"


@SUITE.scenario(12000, 150000)
def lists(mon):
    rng = mon.rng
    g = mkg(mon)
    op = rng.choice(REDUCERS)
    # the identity of a minimum or maximum of different types is the one of any of them
    t = jagged(rng, NUM + ["bool"] if op not in ("min", "max") else [rng.choice(NUM)])
    vals = [t.gen(g) for _ in range(many(rng, *SIZES))]
    a = encode(t, vals, g)
    mon.say(type=t.sig(), vals=plain(vals), op=op, cls=type(a).__name__)
    want = [red(op, t, v) for v in vals]
    got = mon.call(op, lambda: getattr(a, op)(), a)
    mon.eq(got, want, exact=not hasuni(t), rtol=1e-6 if op == "prod" else 0.0)


def hasuni(t):
    return isinstance(t, Uni) or (isinstance(t, (Lst, Opt)) and hasuni(t.of))


@SUITE.scenario(3000, 40000)
def around(mon):
    """lists that can be missing, and records of lists"""
    rng = mon.rng
    g = mkg(mon)
    op = rng.choice(REDUCERS)
    dt = NUM + ["bool"] if op not in ("min", "max") else NUM
    t = jagged(rng, dt, ("prim", "opt", "rec"))
    if rng.random() < 0.5:
        t = Opt(t)
    if rng.random() < 0.5:
        t = Rec([("xyz"[i], t if i == 0 else jagged(rng, dt, ("prim", "opt"))) for i in range(rng.randint(1, 3))])
    vals = [t.gen(g) for _ in range(many(rng, *SIZES))]
    a = encode(t, vals, g)
    mon.say(type=t.sig(), vals=plain(vals), op=op, cls=type(a).__name__)
    want = [red(op, t, v) for v in vals]
    got = mon.call(op, lambda: getattr(a, op)(), a)
    mon.eq(got, want, rtol=1e-6 if op == "prod" else 0.0)


@SUITE.scenario(3000, 40000)
def flat(mon):
    """an array without lists is one list"""
    rng = mon.rng
    g = mkg(mon)
    op = rng.choice(REDUCERS)
    t = item(rng, NUM + ["bool"] if op not in ("min", "max") else NUM, ("prim", "opt", "rec", "uni"))
    vals = [t.gen(g) for _ in range(rng.choice(SIZES[1:]))]
    a = encode(t, vals, g)
    if isinstance(a, numpy.ndarray):
        raise Skip
    mon.say(type=t.sig(), vals=plain(vals), op=op, cls=type(a).__name__)
    want = redflat(op, t, vals)
    got = mon.call(op, lambda: getattr(a, op)(), a)
    mon.eq(got, want, exact=not hasuni(t), rtol=1e-6 if op == "prod" else 0.0)


@SUITE.scenario(2000, 30000)
def generic(mon):
    """reduce with any associative function and its identity"""
    rng = mon.rng
    g = mkg(mon, pnan=0.0)
    f, ident = rng.choice([("bitwise_xor", 0), ("bitwise_or", 0), ("add", 0), ("multiply", 1), ("maximum", -128), ("minimum", 127)])
    t = Lst(item(rng, ["int64", "int32"], ("prim", "prim", "opt", "rec")))
    if rng.random() < 0.3:
        t = Lst(t)
    vals = [t.gen(g) for _ in range(many(rng, *SIZES))]
    a = encode(t, vals, g)
    mon.say(type=t.sig(), vals=plain(vals), f=f, cls=type(a).__name__)
    want = [red((f, ident), t, v) for v in vals]
    got = mon.call("reduce " + f, lambda: a.reduce(getattr(numpy, f), ident), a)
    mon.eq(got, want)


@SUITE.scenario(1500, 20000)
def regular_outside(mon):
    """lists with a regular outer dimension, as the same positions of every list have"""
    rng = mon.rng
    g = mkg(mon, wrap=set(["indexed", "virtual", "chunked"]))
    op = rng.choice(REDUCERS)
    t = Prim(rng.choice(NUM + (["bool"] if op not in ("min", "max") else [])))
    n, d = rng.randint(1, 4), rng.randint(1, 3)
    vals = [[Lst(t).gen(g) for _ in range(d)] for _ in range(n)]
    a = grid(t, vals, g)
    mon.say(type=t.sig(), vals=plain(vals), op=op, shape=(n, d))
    if rng.random() < 0.5:
        rng.choice([lambda: a.counts, lambda: a.parents, lambda: a.valid(), lambda: a.tolist()])()
    want = [[redflat(op, t, x) for x in v] for v in vals]
    got = mon.call(op, lambda: getattr(a, op)(), a)
    mon.eq(got, want, rtol=1e-6 if op == "prod" else 0.0)


# ------------------------------------------------------------------ moments

def moment(vals, ws, n):
    pairs = [(v, w) for v, w in zip(vals, ws) if v is not None and not isnan(v)]
    den = sum(w for v, w in pairs)
    if den == 0:
        return float("nan")
    return sum(w * float(v)**n for v, w in pairs) / den


def stat(name, arg, vals, ws):
    if name == "moment":
        return moment(vals, ws, arg)
    if name == "mean":
        return moment(vals, ws, 1)
    pairs = [(v, w) for v, w in zip(vals, ws) if v is not None and not isnan(v)]
    den = sum(w for v, w in pairs)
    if den - arg <= 0 or den == 0:
        return None          # a division by zero: not judged
    var = (moment(vals, ws, 2) - moment(vals, ws, 1)**2) * den / (den - arg)
    if name == "var":
        return var
    return None if var < 1e-9 else math.sqrt(var)


def close(mon, got, want):
    """compare, leaving out the entries that are not judged"""
    if isinstance(want, list):
        mon.check(isinstance(got, list) and len(got) == len(want), lambda: "got %s, want %s" % (V_short(got), V_short(want)))
        if mon.judge:
            for x, y in zip(got, want):
                close(mon, x, y)
    elif isinstance(want, dict):
        mon.check(isinstance(got, dict) and set(got) == set(want), lambda: "got %s, want %s" % (V_short(got), V_short(want)))
        if mon.judge:
            for n in want:
                close(mon, got[n], want[n])
    elif want is not None:
        mon.eq(got, want, rtol=1e-4, atol=1e-4)


def V_short(x):
    return repr(x)[:200]


@SUITE.scenario(5000, 60000)
def moments(mon):
    rng = mon.rng
    g = mkg(mon)
    name = rng.choice(["moment", "moment", "mean", "mean", "var", "std"])
    arg = rng.choice([1, 2, 3]) if name == "moment" else rng.choice([0, 0, 1, 2, 3])
    rec = rng.random() < 0.15
    leaft = item(rng, ["int64", "float64", "int32"], ("rec",) if rec else ("prim", "prim", "opt"))
    if isinstance(leaft, Opt) and isinstance(leaft.of, Rec):
        raise Skip
    t = Lst(leaft)
    deep = rng.random() < 0.2
    if deep:
        t = Lst(t)
    n = rng.choice(SIZES)
    vals = [t.gen(g) for _ in range(n)]
    a = encode(t, vals, g)
    weight = rng.choice([None, None, "number", "flat", "same"]) if not rec else None
    w, b = None, None
    one = lambda v, x: [one(y, x) for y in v] if isinstance(v, list) else x
    gw = mkg(mon, wrap=set(["indexed", "virtual"]))
    if weight == "number":
        b = rng.choice([1, 2, 2.5])
        w = [one(v, b) for v in vals]
    elif weight == "flat":
        ws = [rng.randint(1, 4) for _ in vals]
        b = numpy.array(ws, dtype=rng.choice(["int64", "float64"]))
        w = [one(v, x) for v, x in zip(vals, ws)]
    elif weight == "same":
        draw = lambda v: [draw(y) for y in v] if isinstance(v, list) else rng.randint(0 if name in ("moment", "mean") else 1, 4)
        w = [draw(v) for v in vals]
        tw = Lst(Prim("int64"))
        b = encode(Lst(tw) if deep else tw, w, gw)
    else:
        w = [one(v, 1) for v in vals]
    mon.say(type=t.sig(), vals=plain(vals), name=name, arg=arg, weight=weight, w=w, cls=type(a).__name__)

    def ref(v, w):
        if rec:
            return dict((nm, stat(name, arg, [x[nm] for x in v], w)) for nm, s in leaft.fields)
        return stat(name, arg, v, w)
    if deep:
        want = [[ref(x, y) for x, y in zip(v, ww)] for v, ww in zip(vals, w)]
    else:
        want = [ref(v, ww) for v, ww in zip(vals, w)]
    args = [arg] if name == "moment" else []
    kw = {}
    if weight is not None:
        kw["weight"] = b
    if name in ("var", "std") and (arg or rng.random() < 0.5):
        kw["ddof"] = arg
    got = mon.call("%s%s" % (name, "" if weight is None else " weight=" + weight), lambda: getattr(a, name)(*args, **kw), *([a, b] if weight == "same" else [a]))
    close(mon, tolist(got), want)
