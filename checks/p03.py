"""P03: indexing into variable-length inner dimensions acts on every list by its own length."""
import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip, Violation
from akmon.layouts import *
from akmon.ops import *

SUITE = Suite("P03")


def leaf(rng, g):
    return rng.choice([Prim("int64"), Prim("float64"), Prim("float64"), Prim("bool"), Prim("uint8"),
                       Rec([("x", Prim("int64")), ("y", Prim("float64"))]), Str(), Opt(Prim("int64")), Reg("int64", [2]), Obj()])


def gen_rows(t, g, n):
    return [t.gen(g) for _ in range(n)]


def jarray(mon, depth, g=None, t=None, n=None):
    rng = mon.rng
    g = g or mon.G(unsigned=True, pwrap=rng.choice([0.0, 0.0, 0.25]), wrap=set(["indexed", "chunked", "virtual"]), wrapdepth=1, wrapskip=(Lst,), maxlen=rng.choice([3, 5]))
    t = t or leaf(rng, g)
    for _ in range(depth):
        t = Lst(t)
    vals = gen_rows(t, g, many(rng, 0, 1, 2, 3, 4, 7) if n is None else n)
    w = g.pwrap
    # the outermost node is a jagged array itself (wrappers go inside)
    a = enc_Lst(t, vals, g, 0)
    return g, t, vals, a


def ref(vals, where):
    """Python semantics of a tuple of indexers (at most one list indexer per call chain)"""
    if not where:
        return vals
    h, rest = where[0], where[1:]
    if isinstance(h, slice):
        return [ref(v, rest) for v in vals[h]]
    if isinstance(h, (int, numpy.integer)) and not isinstance(h, bool):
        return ref(vals[h], rest)
    return [ref(v, rest) for v in take(vals, h)]


def legal(vals, where):
    try:
        return ref(vals, where), None
    except IndexError as err:
        return None, err


@SUITE.scenario(5000, 60000)
def subdims(mon):
    """a[rows, i], a[rows, slice], a[rows, slice, i], a[i, slice] ..."""
    rng = mon.rng
    depth = rng.choice([1, 1, 2, 3])
    g, t, vals, a = jarray(mon, depth)
    n = len(vals)
    where = [random_where(rng, n, ("slice", "slice", "ints", "bools")) if rng.random() < 0.8 or n == 0 else rng.randint(-n, n - 1)]
    slices = 0
    for d in range(rng.randint(1, depth)):
        if rng.random() < 0.5 and slices < 1:
            slices += 1
            f = lambda: rng.choice([None, None, 0, 1, 2, -1, -2, 4, -6, 9])
            where.append(slice(f(), f(), rng.choice([None, None, 1, 2, 3, -1, -2])))
        else:
            where.append(rng.choice([0, 0, -1, -1, 1, -2, 2]))
    where = tuple(where)
    mon.say(type=t.sig(), vals=plain(vals), where=where)
    want, err = legal(vals, where)
    if err is not None:
        mon.raises("sub out of range", lambda: a[where], a, kinds=(IndexError, ValueError, TypeError))
        return
    if isinstance(want, list) and len(want) == 0:
        got = mon.call("sub", lambda: a[where], a, where)
        mon.check(len(got) == 0, "selecting from nothing is not empty")
        return
    got = mon.call("sub", lambda: a[where], a, where)
    mon.eq(got, want)


@SUITE.scenario(2500, 30000)
def sublists(mon):
    """a[slice, [i, j]], a[[rows], [cols]] and boolean sub-selections"""
    rng = mon.rng
    t0 = rng.choice([Prim("int64"), Prim("float64"), Lst(Prim("int64"))])
    k = rng.randint(1, 4)
    kind = rng.choice(["ints", "pairs", "bools"])
    g = mon.G(pwrap=0.0, unsigned=True)
    t = Lst(t0)
    n = rng.choice([1, 2, 3, 5])
    vals = [[t0.gen(g) for _ in range(k + (rng.randint(0, 2) if kind != "bools" else 0))] for _ in range(n)]
    a = enc_Lst(t, vals, g, 0)
    if kind == "bools":
        m = [rng.random() < 0.5 for _ in range(k)]
        where = (slice(None), numpy.array(m))
        want = [[x for x, b in zip(v, m) if b] for v in vals]
    elif kind == "ints":
        w = [rng.randint(-k, k - 1) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.1:
            w.append(k + 3)
        s = random_slice(rng, n)
        where = (s, numpy.array(w))
        want = None if k + 3 in w and len(vals[s]) else [[v[i] for i in w if i < k + 3] for v in vals[s]]
        if want is not None and len(want) == 0:
            return
    else:
        m = rng.randint(1, 4)
        rows = [rng.randint(-n, n - 1) for _ in range(m)]
        cols = [rng.randint(-k, k - 1) for _ in range(m)]
        if rng.random() < 0.1:
            cols[0] = k + 3
        where = (numpy.array(rows), numpy.array(cols))
        want = None if k + 3 in cols else [vals[i][j] for i, j in zip(rows, cols)]
    mon.say(type=t.sig(), vals=plain(vals), where=where)
    if want is None:
        mon.raises("sub list out of range", lambda: a[where], a, where, kinds=(IndexError,))
        return
    before = str(where)
    got = mon.call("sublist " + kind, lambda: a[where], a, where)
    mon.eq(got, want)
    mon.check(str(where) == before, "index argument was modified")


@SUITE.scenario(4000, 50000)
def jagged_mask(mon):
    rng = mon.rng
    depth = rng.choice([1, 1, 1, 2])
    g, t, vals, a = jarray(mon, depth)
    p = rng.choice([0.5, 0.5, 0.0, 1.0])

    def mk(v, d):
        return [mk(x, d - 1) for x in v] if d else [rng.random() < p for _ in v]
    m = [mk(v, depth - 1) for v in vals]
    g2 = mon.G(pwrap=0.0, unsigned=True)
    mt = Prim("bool")
    for _ in range(depth):
        mt = Lst(mt)
    mask = enc_Lst(mt, m, g2, 0)

    def rf(v, m, d):
        if d:
            return [rf(x, y, d - 1) for x, y in zip(v, m)]
        return [x for x, y in zip(v, m) if y]
    want = [rf(v, x, depth - 1) for v, x in zip(vals, m)]
    mon.say(type=t.sig(), vals=plain(vals), mask=m)
    if sum(map(lambda v: len(str(v)), m)) == 0 or len(str(m).replace("[", "").replace("]", "").replace(",", "").replace(" ", "")) == 0:
        pass
    got = mon.call("jagged mask", lambda: a[mask], a, mask)
    mon.eq(got, want)
    mon.check(len(got) == len(vals), "length")


def small(m):
    """all of these positions fit into 8 bits"""
    return all(small(x) for x in m) if isinstance(m, list) else -128 <= m <= 127


@SUITE.scenario(4000, 50000)
def jagged_ints(mon):
    rng = mon.rng
    depth = rng.choice([1, 1, 1, 2])
    g, t, vals, a = jarray(mon, depth)
    bad = rng.random() < 0.1
    did = [False]

    def mk(v, d):
        if d:
            return [mk(x, d - 1) for x in v]
        out = [rng.randint(-len(v), len(v) - 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))] if len(v) else []
        if bad and not did[0] and rng.random() < 0.5:
            out.insert(rng.randint(0, len(out)), len(v) + rng.choice([0, 1, 7]) if rng.random() < 0.5 else -len(v) - rng.choice([1, 2, 7]))
            did[0] = True
        return out
    m = [mk(v, depth - 1) for v in vals]
    g2 = mon.G(pwrap=0.0, unsigned=True)
    mt = Prim(rng.choice(["int64", "int32", "int16", "int8" if small(m) else "int16"]))
    for _ in range(depth):
        mt = Lst(mt)
    index = enc_Lst(mt, m, g2, 0)
    mon.say(type=t.sig(), vals=plain(vals), index=m)
    if did[0]:
        mon.raises("jagged index out of range", lambda: a[index], a, index, kinds=(IndexError,))
        return

    def rf(v, m, d):
        if d:
            return [rf(x, y, d - 1) for x, y in zip(v, m)]
        return [v[i] for i in m]
    want = [rf(v, x, depth - 1) for v, x in zip(vals, m)]
    got = mon.call("jagged index", lambda: a[index], a, index)
    mon.eq(got, want)
    mon.check(len(got) == len(vals), "length")


@SUITE.scenario(800, 10000)
def structure_mismatch(mon):
    """a jagged mask or index of a different structure is refused"""
    rng = mon.rng
    g, t, vals, a = jarray(mon, 1, n=rng.choice([1, 2, 3, 5]))
    kind = rng.choice(["mask rows", "mask inner", "index rows"])
    m = [[True] * len(v) for v in vals]
    i = rng.randrange(len(m))
    if kind == "mask inner":
        m[i] = m[i] + [True] * rng.randint(1, 2) if rng.random() < 0.5 or not m[i] else m[i][:-1]
    elif rng.random() < 0.5:
        m = m + [[True]]
    else:
        m = m[:-1]
    mt = Lst(Prim("bool"))
    if kind == "index rows":
        m = [[0] if False else [] for v in m]
        m = [[rng.randrange(len(v))] if len(v) else [] for v, _ in zip(vals + [[1]], m)]
        mt = Lst(Prim("int64"))
    idx_ = enc_Lst(mt, m, mon.G(pwrap=0.0), 0)
    mon.say(vals=plain(vals), kind=kind, m=m)
    mon.raises(kind, lambda: a[idx_], a, idx_)


@SUITE.scenario(1500, 20000)
def regular_outside(mon):
    """lists with a regular outer dimension, as the same positions of every list have"""
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=rng.choice([0.0, 0.25]), wrap=set(["indexed", "virtual"]), wrapdepth=1, maxlen=rng.choice([2, 4]))
    t = rng.choice([Prim("int64"), Prim("float64"), Prim("bool"), Rec([("x", Prim("int64")), ("y", Prim("float64"))])])
    n, d = rng.randint(1, 4), rng.randint(1, 3)
    vals = [[Lst(t).gen(g) for _ in range(d)] for _ in range(n)]
    a = grid(t, vals, g)
    if rng.random() < 0.3:
        rng.choice([lambda: a.counts, lambda: a.parents, lambda: a.valid()])()
    kind = rng.choice(["rows", "column", "columns", "pick", "inner", "mask"])
    mon.say(type=t.sig(), vals=plain(vals), kind=kind, shape=(n, d))
    if kind == "rows":
        w = random_where(rng, n)
        mon.eq(mon.call("regular rows", lambda: a[w], a, w), take(vals, w))
    elif kind == "column":
        w, j = random_slice(rng, n), rng.randint(-d, d - 1)
        want = [v[j] for v in vals[w]]
        mon.eq(mon.call("regular column", lambda: a[w, j], a), want)
    elif kind == "columns":
        w, v_ = random_slice(rng, n), random_slice(rng, d)
        want = [v[v_] for v in vals[w]]
        if want:
            mon.eq(mon.call("regular columns", lambda: a[w, v_], a), want)
    elif kind == "pick":
        w, js = random_slice(rng, n), [rng.randint(-d, d - 1) for _ in range(rng.randint(1, 3))]
        want = [[v[j] for j in js] for v in vals[w]]
        if want:
            mon.eq(mon.call("regular pick", lambda: a[w, js], a), want)
    elif kind == "inner":
        f = lambda: rng.choice([None, None, 0, 1, 2, -1, -2, 4, -6])
        c = slice(f(), f(), rng.choice([None, None, 1, 2, -1]))
        mon.eq(mon.call("regular inner", lambda: a[:, :, c], a), [[x[c] for x in v] for v in vals])
    else:
        m = [[[rng.random() < 0.5 for _ in x] for x in v] for v in vals]
        b = grid(Prim("bool"), m, g)
        mon.eq(mon.call("regular mask", lambda: a[b], a, b), [[[y for y, k in zip(x, z) if k] for x, z in zip(v, w)] for v, w in zip(vals, m)])
    mon.eq(a, vals, "afterwards")
