"""P01: every documented arrangement of buffers is exactly the nested list it denotes."""
import numpy
import awkward0
from akmon.monitor import Suite, tolist, Violation
from akmon.layouts import *

SUITE = Suite("P01")
SUITE.needs = {"op:tolist": 3000, "op:getitem": 20000, "op:iter": 3000, "rejected": 3000, "op:all rows": 1000, "op:some rows": 300}


def walk(mon, a, vals, depth=0):
    """every way of reading an array must agree with the reference list"""
    n = len(vals)
    mon.check(mon.call("len", lambda: len(a), a) == n, lambda: "len is %d, not %d" % (len(a), n))
    mon.eq(mon.call("tolist", lambda: a.tolist(), a), vals, "tolist")
    mon.eq(mon.call("iter", lambda: [tolist(x) for x in a], a), vals, "iteration")
    if isinstance(a, numpy.ndarray):
        return
    s = mon.call("str", lambda: str(a), a)
    mon.check(isinstance(s, str) and s.startswith("[") and s.endswith("]"), "str is not a bracketed list")
    for i in range(n):
        for j in (i, i - n, numpy.int64(i), numpy.int32(i - n)):
            x = mon.call("getitem", lambda: a[j], a)
            mon.eq(x, vals[i], "[%r]" % j)
    w = mon.rng.randrange(6)
    if w == 0:
        mon.eq(mon.call("all rows", lambda: a[:], a), vals, "[:]")
    elif w == 1:
        mon.eq(mon.call("all rows", lambda: a[numpy.ones(n, dtype=bool)], a), vals, "[all true]")
    elif w == 2:
        mon.eq(mon.call("all rows", lambda: a[numpy.arange(n)], a), vals, "[arange]")
    elif w == 3:
        m = [mon.rng.random() < 0.5 for _ in range(n)]
        mon.eq(mon.call("some rows", lambda: a[numpy.array(m, dtype=bool)], a), [x for x, y in zip(vals, m) if y], "[booleans]")
    for j in (n, -n - 1, n + 7, -n - 9):
        mon.raises("out of range", lambda: a[j], a, kinds=(IndexError,))


def descend(mon, t, a, vals, depth=0):
    """nested access one level at a time agrees too"""
    rng = mon.rng
    for _ in range(4):
        if len(vals) == 0:
            return
        i = rng.randrange(len(vals))
        v = plain(vals[i])
        x = mon.call("getitem", lambda: a[rng.choice([i, i - len(vals)])], a)
        mon.eq(x, v)
        if isinstance(v, dict):
            n = rng.choice(sorted(v))
            x2 = mon.call("field", lambda: x[n], x)
            mon.eq(x2, v[n], "field %s" % n)
            if isinstance(t, Rec) and not mon.gs[0].longcols:
                mon.eq(mon.call("column then row", lambda: a[n][i], a), v[n], "column %s, row %d" % (n, i))
            x, v = x2, v[n]
        elif isinstance(v, tuple):
            k = rng.randrange(len(v))
            x2 = mon.call("field", lambda: x[str(k)], x)
            mon.eq(x2, v[k], "field %d" % k)
            x, v = x2, v[k]
        if not isinstance(v, list):
            return
        if len(v):
            j = rng.randrange(len(v))
            mon.eq(mon.call("getitem", lambda: x[j], x), v[j], "nested")
            mon.eq(mon.call("getitem", lambda: x[j - len(v)], x), v[j], "nested")
        a, vals, t = x, v, None


SIZES = [0, 1, 2, 3, 5, 8, 9, 17]


@SUITE.scenario(6000, 80000)
def any_layout(mon):
    rng = mon.rng
    g = mon.G(unsigned=True, wrap=set(WRAPS), pwrap=rng.choice([0.0, 0.2, 0.5]), wrapdepth=rng.choice([1, 2]), anywhen=True, pextreme=0.1, pnan=0.1, inf=True, longcols=rng.random() < 0.5)
    t = random_type(g, rng.choice([0, 1, 1, 2, 2, 3]))
    vals = [t.gen(g) for _ in range(many(rng, *SIZES))]
    mon.say(type=t.sig(), vals=plain(vals))
    a = encode(t, vals, g)
    mon.say(cls=type(a).__name__)
    walk(mon, a, vals)
    descend(mon, t, a, vals)


@SUITE.scenario(1500, 20000)
def jagged_layouts(mon):
    """deeply nested lists: every arrangement of starts/stops/offsets"""
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=0.0, maxlen=rng.choice([2, 5]))
    t = Prim(rng.choice(ALL_PRIM))
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = Lst(t)
    vals = [t.gen(g) for _ in range(many(rng, *SIZES))]
    if vals and rng.random() < 0.3:
        vals = vals + [rng.choice(vals) for _ in range(3)]      # shared sublists
        g.jagged = ("shared",)
    mon.say(type=t.sig(), vals=vals)
    a = encode(t, vals, g)
    walk(mon, a, vals)
    descend(mon, t, a, vals)


@SUITE.scenario(1500, 20000)
def bit_masks(mon):
    """bit-packed masks at every length modulo 8, both bit orders, both senses"""
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=0.1, masks=("bit",), pnone=rng.choice([0.0, 0.3, 1.0]))
    t = Opt(rng.choice([Prim("int64"), Prim("float64"), Str(), Lst(Prim("int32"))]))
    vals = [t.gen(g) for _ in range(rng.randint(0, 33))]
    mon.say(type=t.sig(), vals=vals)
    walk(mon, encode(t, vals, g), vals)


@SUITE.scenario(300, 3000)
def wide(mon):
    """more rows than a byte or a 16-bit index can count"""
    rng = mon.rng
    g = mon.G(unsigned=True, wrap=set(WRAPS), pwrap=0.3)
    g.maxlen = 3
    t = random_type(g, 1)
    n = rng.choice([130, 257, 300])
    vals = [t.gen(g) for _ in range(n)]
    mon.say(type=t.sig(), n=n)
    a = encode(t, vals, g)
    mon.eq(mon.call("tolist", lambda: a.tolist(), a), vals, "tolist")
    if isinstance(a, numpy.ndarray):
        return
    for i in (0, 127, 128, n - 1, -1, -128, -129, -n):
        mon.eq(mon.call("getitem", lambda: a[i], a), vals[i], "[%d]" % i)
    s = mon.call("str", lambda: str(a), a)
    mon.check(" ... " in s, "str of a long array is not abbreviated")


@SUITE.scenario(1500, 20000)
def as_numpy(mon):
    """as a NumPy array, an array of numbers has the same numbers"""
    rng = mon.rng
    g = mon.G(unsigned=True, wrap=set(WRAPS), pwrap=rng.choice([0.0, 0.3, 0.6]), wrapdepth=rng.choice([1, 2]), anywhen=True, pextreme=0.1, pnan=0.1, inf=True)
    kind = rng.choice(["numbers", "numbers", "fixed", "union", "integers"])
    if kind == "numbers":
        t = Prim(rng.choice(ALL_PRIM))
    elif kind == "fixed":
        t = Reg(rng.choice(ALL_PRIM), [rng.randint(1, 3) for _ in range(rng.randint(1, 2))])
    elif kind == "integers":
        g.wrap, g.pextreme = set(), 0.4        # there is an integer type with the values of all of them
        t = Uni([Prim(x) for x in rng.sample(["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32"], rng.randint(2, 3))])
    else:
        g.wrap, g.pextreme = set(), 0.0
        t = Uni([Prim(x) for x in rng.sample(["int64", "float64", "int32", "uint8"], rng.randint(1, 3))])
    vals = [t.gen(g) for _ in range(many(rng, *SIZES))]
    mon.say(kind=kind, type=t.sig(), vals=plain(vals))
    a = encode(t, vals, g)
    mon.say(cls=type(a).__name__)
    x = mon.call("to NumPy", lambda: numpy.array(a), a)
    mon.check(type(x) is numpy.ndarray and len(x) == len(vals), lambda: "not a NumPy array of %d elements: %r" % (len(vals), x))
    want = plain(vals)
    if kind == "union" and x.dtype.kind == "f":
        want = [float(v) for v in want]
    mon.eq([tolist(v) for v in x], want, "as a NumPy array")
    if kind in ("numbers", "fixed"):
        mon.check(x.dtype == t.dtype, lambda: "dtype is %s" % x.dtype)
