"""P02: selecting rows is the Python-list selection, for any layout and history."""
import numpy
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *
from akmon.ops import *

SUITE = Suite("P02")

@SUITE.scenario(4000)
def rows(mon):
    rng = mon.rng
    g = mon.G(unsigned=True, wrap=set(WRAPS), pwrap=0.3)
    t = random_type(g, rng.randint(0, 2))
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, 3, 5, 8, 9, 17))]
    a = encode(t, vals, g)
    mon.say(type=t.sig(), vals=plain(vals), cls=type(a).__name__)
    hist = []
    n = len(vals)
    for j in [rng.randrange(-n, n) for _ in range(2)] if n else []:
        mon.eq(mon.call("one", lambda: a[j], a), vals[j], "[%d]" % j)
    for i in range(rng.choice([1, 2, 3])):
        if isinstance(a, numpy.ndarray):
            return
        w = random_where(rng, len(vals))
        hist.append(w)
        mon.say(hist=hist)
        before = str(w)
        b = mon.call("slice" if isinstance(w, slice) else "fancy", lambda: a[w], a, w)
        want = take(vals, w)
        mon.check(str(w) == before, "index argument was modified")
        mon.eq(b, want)
        mon.check(len(b) == len(want), "length")
        a, vals = b, want
        n = len(vals)
        for j in [rng.randrange(-n, n) for _ in range(2)] if n else []:
            k = rng.choice([int, int, numpy.int64, numpy.int32, numpy.int8 if n < 100 else int])(j)
            mon.eq(mon.call("one", lambda: a[k], a), vals[j], "[%r] after %r" % (k, hist))
        j = rng.choice([n, -n - 1, n + 3, -n - 8])
        mon.raises("bad one", lambda: a[j], a)


@SUITE.scenario(2500, 30000)
def rejects(mon):
    """selections that point outside of the array are refused, not answered"""
    rng = mon.rng
    g = mon.G(unsigned=True, wrap=set(WRAPS), pwrap=0.3)
    t = random_type(g, rng.randint(0, 2))
    vals = [t.gen(g) for _ in range(many(rng, 1, 2, 3, 5, 8, 9, 17))]
    a = encode(t, vals, g)
    n = len(vals)
    mon.say(type=t.sig(), vals=plain(vals), cls=type(a).__name__)
    kind = rng.choice(["high", "low", "short", "long"])
    if kind in ("high", "low"):
        w = [rng.randint(-n, n - 1) for _ in range(rng.randint(0, 4))]
        w.insert(rng.randint(0, len(w)), n + rng.choice([0, 1, 5]) if kind == "high" else -n - rng.choice([1, 2, 9]))
        w = rng.choice([lambda: w, lambda: numpy.array(w)])()
    else:
        w = numpy.ones(n + (rng.randint(1, 9) if kind == "long" else -rng.randint(1, n)), dtype=bool)
        if len(w) == 0:
            return
    mon.say(w=w, kind=kind)
    mon.raises("bad " + kind, lambda: a[w], a)


@SUITE.scenario(1500, 20000)
def tails(mon):
    """further dimensions of fixed-size inner arrays are selected too"""
    rng = mon.rng
    g = mon.G(unsigned=True, wrap=set(["indexed", "chunked", "virtual", "sparse", "appendable"]), pwrap=0.4)
    inner = [rng.randint(1, 3) for _ in range(rng.choice([1, 1, 2]))]
    t = Reg(rng.choice(["int64", "float64"]), inner)
    kind = rng.choice(["plain", "union"])
    if kind == "union":
        t = Uni([t, Reg("int32", inner)])
    vals = [t.gen(g) for _ in range(many(rng, 1, 2, 3, 5, 9))]
    a = encode(t, vals, g)
    if isinstance(a, numpy.ndarray):
        a = awkward0.IndexedArray(numpy.arange(len(vals)), a)
    w = random_where(rng, len(vals), ("slice", "slice", "ints", "bools")) if rng.random() < 0.8 else slice(None)
    if rng.random() < 0.25:
        w = rng.randint(-len(vals), len(vals) - 1)
    tail = []
    for k in inner:
        if rng.random() < 0.3 and tail:
            break
        tail.append(rng.choice([rng.randint(-k, k - 1), slice(None), slice(rng.randint(-k, k), None), slice(None, None, -1)]))
    if not isinstance(w, slice):
        # fancy with further fancy dimensions zips them: only ints and slices here
        pass
    mon.say(type=t.sig(), vals=plain(vals), w=w, tail=tail, cls=type(a).__name__)

    def ref(v, tail):
        if not tail:
            return v
        if isinstance(tail[0], slice):
            return [ref(x, tail[1:]) for x in v[tail[0]]]
        return ref(v[tail[0]], tail[1:])
    want = ref(plain(vals)[w], tail) if isinstance(w, int) else [ref(v, tail) for v in take(plain(vals), w)]
    if not isinstance(w, int) and len(want) == 0:
        return
    if not isinstance(w, (slice, int)) and len(tail) > 1 and any(not isinstance(x, slice) for x in tail[1:]):
        raise Skip()      # Numpy reorders dimensions when advanced indexes are separated
    try:
        got = mon.call("tail", lambda: a[(w,) + tuple(tail)], a, w)
    except NotImplementedError:
        raise Skip()
    mon.eq(got, want)
