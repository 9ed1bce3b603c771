"""P08: positions of extrema and sorts point at them."""
import numpy
import awkward0
from akmon import values as V
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *
from akmon.ops import *

SUITE = Suite("P08")
SUITE.needs = {"oracle": 8000}
NUM = ["int64", "int64", "float64", "float64", "int32", "float32", "uint8", "int8", "bool"]


def isnan(v):
    return isinstance(v, float) and v != v


def present(v):
    return [x for x in v if x is not None and not isnan(x)]


class Ties(Prim):
    """few different values, so that many are equal"""

    def gen(self, g):
        v = Prim.gen(self, g)
        if self.dtype.kind == "b" or g.rng.random() < 0.5:
            return v
        if isnan(v):
            return v
        if v in (float("inf"), float("-inf")):
            return v
        return type(v)(int(v) % 3)


class TiesOpt(Opt):
    pass


encs = globals()


def leaf(rng):
    dt = rng.choice(NUM)
    t = Ties(dt)
    return Opt(t) if rng.random() < 0.25 else t


import akmon.layouts as _L
_L.enc_Ties = lambda T, vals, g, depth: _L.enc_Prim(T, vals, g, depth)


def nest(v, d, f):
    return [nest(x, d - 1, f) for x in v] if d else f(v)


def zipnest(v, w, d, f):
    return [zipnest(x, y, d - 1, f) for x, y in zip(v, w)] if d else f(v, w)


def make(mon, depths=(1, 1, 1, 2, 3)):
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=rng.choice([0.0, 0.0, 0.3]), wrapskip=(Lst,), pextreme=rng.choice([0.0, 0.0, 0.2]),
              pnan=rng.choice([0.0, 0.0, 0.3]), inf=True, maxlen=rng.choice([2, 4, 7]), pnone=rng.choice([0.2, 0.6]))
    t = leaf(rng)
    depth = rng.choice(depths)
    full = t
    for _ in range(depth):
        full = Lst(full)
    vals = [full.gen(g) for _ in range(many(rng, 0, 1, 2, 3, 5, 8))]
    a = enc_Lst(full, vals, g, 0)
    if rng.random() < 0.3:
        w = random_where(rng, len(vals))
        a, vals = a[w], take(vals, w)
    return g, full, depth, vals, a


def extreme(kind, v):
    p = present(v)
    return [min(p) if kind == "argmin" else max(p)] if p else []


def local(kind, v, pos):
    """do the positions found in one list point at its extremum"""
    want = extreme(kind, v)
    if len(pos) != len(want):
        return "%s of %r gives %d positions" % (kind, v, len(pos))
    if want and not (0 <= pos[0] < len(v) and v[pos[0]] is not None and v[pos[0]] == want[0]):
        return "%s of %r gives %r" % (kind, v, pos)
    return None


@SUITE.scenario(6000, 80000)
def extrema(mon):
    rng = mon.rng
    g, t, depth, vals, a = make(mon)
    kind = rng.choice(["argmin", "argmax"])
    mon.say(type=t.sig(), vals=vals, kind=kind)
    idx_ = mon.call(kind, lambda: getattr(a, kind)(), a)
    got = tolist(idx_)
    mon.check(len(got) == len(vals), lambda: "%d results for %d lists" % (len(got), len(vals)))
    bad = []

    def walk(v, w, d):
        if d:
            if not isinstance(w, list) or len(v) != len(w):
                bad.append("structure differs: %r for %r" % (w, v))
                return
            for x, y in zip(v, w):
                walk(x, y, d - 1)
        else:
            e = local(kind, v, w)
            if e is not None:
                bad.append(e)
    walk(vals, got, depth)
    mon.check(not bad, lambda: "; ".join(bad[:3]))
    # selecting with them yields the extremum of each list
    sel = mon.call("select " + kind, lambda: a[idx_], a, idx_)
    mon.eq(sel, nest(vals, depth, lambda v: extreme(kind, v)), "a[a.%s()]" % kind)
    mon.eq(a, vals, "afterwards")


@SUITE.scenario(4000, 50000)
def sorts(mon):
    rng = mon.rng
    g, t, depth, vals, a = make(mon, (1, 1, 1, 2))
    asc = rng.random() < 0.5
    how = rng.choice([lambda: a.argsort(ascending=asc), lambda: a.argsort(asc)] + ([] if asc else [lambda: a.argsort()]))
    mon.say(type=t.sig(), vals=vals, ascending=asc)
    idx_ = mon.call("argsort", how, a)
    got = tolist(idx_)

    def order(v):
        p = sorted(present(v), reverse=not asc)
        return p + [x for x in v if isnan(x)]
    bad = []

    def walk(v, w, d):
        if d:
            if not isinstance(w, list) or len(v) != len(w):
                bad.append("structure differs: %r for %r" % (w, v))
                return
            for x, y in zip(v, w):
                walk(x, y, d - 1)
            return
        want = order(v)
        if len(set(w)) != len(w) or not all(0 <= i < len(v) for i in w):
            bad.append("argsort of %r gives %r" % (v, w))
        elif V.same([v[i] for i in w], want) is not None:
            bad.append("argsort of %r gives %r: %r" % (v, w, [v[i] for i in w]))
    walk(vals, got, depth)
    mon.check(not bad, lambda: "; ".join(bad[:3]))
    sel = mon.call("select argsort", lambda: a[idx_], a, idx_)
    mon.eq(sel, nest(vals, depth, order), "a[a.argsort()]")
    mon.eq(a, vals, "afterwards")


@SUITE.scenario(1500, 20000)
def regular_outside(mon):
    """lists with a regular outer dimension, as the same positions of every list have"""
    rng = mon.rng
    g = mon.G(unsigned=True, pnan=rng.choice([0.0, 0.3]), maxlen=rng.choice([2, 4]))
    t = Ties(rng.choice(NUM))
    n, d = rng.randint(1, 4), rng.randint(1, 3)
    vals = [[Lst(t).gen(g) for _ in range(d)] for _ in range(n)]
    a = grid(t, vals, g)
    kind = rng.choice(["argmin", "argmax"])
    mon.say(type=t.sig(), vals=plain(vals), kind=kind, shape=(n, d))
    if rng.random() < 0.3:
        a.counts
    idx_ = mon.call("regular " + kind, lambda: getattr(a, kind)(), a)
    got = tolist(idx_)
    mon.check(len(got) == n and all(len(x) == d for x in got), lambda: "%r for %r" % (got, vals))
    bad = [e for e in (local(kind, x, y) for v, w in zip(vals, got) for x, y in zip(v, w)) if e is not None]
    mon.check(not bad, lambda: "; ".join(bad[:3]))
    sel = mon.call("regular select " + kind, lambda: a[idx_], a, idx_)
    mon.eq(sel, [[extreme(kind, x) for x in v] for v in vals], "a[a.%s()]" % kind)
    mon.eq(a, vals, "afterwards")


@SUITE.scenario(1500, 20000)
def wrapped(mon):
    """jagged arrays in wrappers, and lists that may be missing"""
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=rng.choice([0.3, 0.8]), maxlen=4, wrapdepth=2)
    t = Ties(rng.choice(NUM))
    full = Lst(t)
    if rng.random() < 0.4:
        full = Opt(full)
    if rng.random() < 0.3:
        full = Lst(full)
    vals = [full.gen(g) for _ in range(many(rng, 1, 2, 3, 5))]
    a = encode(full, vals, g)
    kind = rng.choice(["argmin", "argmax"])
    mon.say(type=full.sig(), vals=vals, kind=kind)
    got = tolist(mon.call(kind, lambda: getattr(a, kind)(), a))
    bad = []

    def walk(t, v, w):
        if isinstance(t, Opt):
            if v is None or w is None:
                if v is not w:
                    bad.append("%r for %r" % (w, v))
                return
            return walk(t.of, v, w)
        if isinstance(t.of, (Lst, Opt)):
            if len(v) != len(w):
                bad.append("%r for %r" % (w, v))
                return
            for x, y in zip(v, w):
                walk(t.of, x, y)
        else:
            e = local(kind, v, w)
            if e is not None:
                bad.append(e)
    walk(Lst(full), vals, got)
    mon.check(not bad, lambda: "; ".join(bad[:3]))


@SUITE.scenario(1500, 20000)
def flat(mon):
    """the position of the extremum of a flat array"""
    rng = mon.rng
    t = Ties(rng.choice(NUM))
    if rng.random() < 0.4:
        t = Opt(t)
        g = mon.G(unsigned=True, pwrap=0.5, wrapdepth=1, wrap=set(["indexed", "virtual"]), pnone=rng.choice([0.2, 0.6]))
    elif rng.random() < 0.2:
        g = mon.G(unsigned=True, pwrap=1, wrapdepth=1, wrap=set(["sparse"]))
    else:
        g = mon.G(unsigned=True, pwrap=0.9, wrapdepth=2, wrap=set(["indexed", "chunked", "virtual", "appendable"]))
    vals = [t.gen(g) for _ in range(many(rng, 1, 2, 3, 5, 9))]
    if not present(vals):
        raise Skip()
    a = encode(t, vals, g)
    kind = rng.choice(["argmin", "argmax"])
    mon.say(type=t.sig(), vals=vals, kind=kind)
    i = mon.call("flat " + kind, lambda: getattr(a, kind)(), a)
    i = int(i)
    want = extreme(kind, vals)[0]
    mon.check(0 <= i < len(vals) and vals[i] is not None and vals[i] == want, lambda: "%s is %r, which is %r: the extremum is %r" % (kind, i, vals[i] if 0 <= i < len(vals) else "outside", want))
