"""P07: combinations enumerate exactly the combinations of each list."""
import itertools
import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *
from akmon.ops import *

SUITE = Suite("P07")
SUITE.needs = {"oracle": 8000}


def item(rng):
    return rng.choice([Prim("int64"), Prim("float64"), Prim("bool"), Prim("uint8"), Rec([("x", Prim("int64")), ("y", Prim("float64"))]),
                       Str(), Opt(Prim("int64")), Reg("int64", [2]), Lst(Prim("float64")), Uni([Prim("int64"), Str()]), Obj()])


def rows(rng, g, t, n, top):
    out = []
    pe = rng.choice([0.0, 0.2, 0.6])
    for _ in range(n):
        k = 0 if rng.random() < pe else rng.randint(0, top)
        out.append([t.gen(g) for _ in range(k)])
    return out


def gg(mon):
    return mon.G(unsigned=True, pwrap=mon.rng.choice([0.0, 0.0, 0.3]), maxlen=4, fillunion=True, longindex=False, plarge=0.0)


def outer(mon, g, t, vals):
    """the array, possibly in a wrapper that doesn't change its value"""
    a = enc_Lst(Lst(t), vals, g, 0)
    k = mon.rng.random()
    if k < 0.08:
        a = awkward0.IndexedArray(numpy.arange(len(vals)), a)
    elif k < 0.16:
        a = awkward0.VirtualArray(lambda b=a: b)
    elif k < 0.3:
        w = random_where(mon.rng, len(vals))
        return a[w], take(vals, w)
    return a, vals


def tup(x):
    return tuple(x)


def group(v):
    """combinations of positions (sorted by first) grouped by first member"""
    return [list(x) for _, x in itertools.groupby(v, key=lambda c: c[0])]


def pick(v, combos):
    return [tuple(v[i] for i in c) for c in combos]


def positions(kind, k, n=2):
    if kind == "pairs":
        return [(i, j) for i in range(k) for j in range(i, k)]
    if kind == "distincts":
        return [(i, j) for i in range(k) for j in range(i + 1, k)]
    return sorted(itertools.combinations(range(k), n), key=lambda c: c[::-1])


def judge(mon, op, a, args, kw, want, wantpos, kind):
    """values, positions, columns, and structure"""
    got = mon.call(op, lambda: getattr(a, op)(*args, **kw), a, *args)
    mon.eq(got, want, op)
    mon.check(len(got) == len(want), "length")
    arg = mon.call("arg" + op, lambda: getattr(a, "arg" + op)(*args, **kw), a, *args)
    mon.eq(arg, wantpos, "arg" + op)
    if mon.rng.random() < 0.4:
        m = len(want[0][0]) if False else None
        cols = mon.call("unzip", lambda: got.unzip(), got)

        def col(v, k):
            return v[k] if isinstance(v, tuple) else [col(x, k) for x in v]
        for k, c in enumerate(cols):
            mon.eq(c, [col(v, k) for v in want], "unzip %d" % k)
    if mon.rng.random() < 0.3:
        mon.eq(mon.call("counts", lambda: got.counts, got), [len(v) for v in want], "counts")
    return got


@SUITE.scenario(3000, 40000)
def within(mon):
    rng = mon.rng
    g = gg(mon)
    t = item(rng)
    vals = rows(rng, g, t, rng.choice([0, 1, 2, 3, 5]), rng.choice([2, 3, 5, 8]))
    a, vals = outer(mon, g, t, vals)
    kind = rng.choice(["pairs", "distincts"])
    nested = rng.random() < 0.4
    mon.say(type=t.sig(), vals=plain(vals), kind=kind, nested=nested)
    pos = [positions(kind, len(v)) for v in vals]
    want = [pick(v, p) for v, p in zip(vals, pos)]
    if nested:
        want = [[pick(v, q) for q in group(p)] for v, p in zip(vals, pos)]
        pos = [group(p) for p in pos]
    judge(mon, kind, a, (), dict(nested=True) if nested else {}, want, pos, kind)
    mon.eq(a, vals, "afterwards")


@SUITE.scenario(2500, 30000)
def choosing(mon):
    rng = mon.rng
    g = gg(mon)
    t = item(rng)
    n = rng.choice([2, 2, 3, 3, 4, 5])
    vals = rows(rng, g, t, rng.choice([0, 1, 2, 3, 4]), rng.choice([n - 1, n, n + 1, n + 2, n + 4]))
    a, vals = outer(mon, g, t, vals)
    mon.say(type=t.sig(), vals=plain(vals), n=n)
    pos = [positions("choose", len(v), n) for v in vals]
    want = [pick(v, p) for v, p in zip(vals, pos)]
    judge(mon, "choose", a, (n,), {}, want, pos, "choose")
    mon.eq(a, vals, "afterwards")


@SUITE.scenario(160, 2000)
def long_lists(mon):
    """long lists, where the root formulas could round"""
    rng = mon.rng
    g = mon.G(pwrap=0.0, plarge=0.0)
    kind = rng.choice(["pairs", "distincts", "choose2", "choose3", "choose4", "choose5"])
    top = {"pairs": 250, "distincts": 250, "choose2": 250, "choose3": 50, "choose4": 26, "choose5": 19}[kind]
    ks = [rng.randint(0, top) for _ in range(rng.randint(1, 2))] + [rng.randint(0, 3)]
    vals = [list(range(k)) for k in ks]
    a = enc_Lst(Lst(Prim("int64")), vals, g, 0)
    mon.say(kind=kind, lengths=ks)
    n = int(kind[-1]) if kind.startswith("choose") else 2
    want = [positions(kind.rstrip("2345"), k, n) for k in ks]
    f = (lambda: a.argchoose(n)) if kind.startswith("choose") else (lambda: getattr(a, "arg" + kind)())
    got = mon.call("arg" + kind, f, a)
    mon.check([len(x) for x in want] == list(got.counts), "counts")
    for c in range(n):
        mon.check(got[str(c)].flatten().tolist() == [p[c] for w in want for p in w], lambda: "wrong positions in column %d for lists of lengths %r" % (c, ks))


@SUITE.scenario(3500, 50000)
def cross(mon):
    rng = mon.rng
    g = gg(mon)
    t, u = item(rng), item(rng)
    n = many(rng, 0, 1, 2, 3, 5)
    g.maxlen = 3
    v = rows(rng, g, t, n, rng.choice([1, 2, 4]))
    w = rows(rng, g, u, n, rng.choice([1, 2, 4]))
    a, b = enc_Lst(Lst(t), v, g, 0), enc_Lst(Lst(u), w, g, 0)
    if rng.random() < 0.2:
        s = random_where(rng, n)
        a, b, v, w = a[s], b[s], take(v, s), take(w, s)
    elif rng.random() < 0.1:
        b = awkward0.VirtualArray(lambda b=b: b)
    nested = rng.random() < 0.4
    mon.say(left=plain(v), right=plain(w), types=(t.sig(), u.sig()), nested=nested)
    if nested:
        want = [[[(x, y) for y in q] for x in p] for p, q in zip(v, w)]
        pos = [[[(i, j) for j in range(len(q))] for i in range(len(p))] for p, q in zip(v, w)]
    else:
        want = [[(x, y) for x in p for y in q] for p, q in zip(v, w)]
        pos = [[(i, j) for i in range(len(p)) for j in range(len(q))] for p, q in zip(v, w)]
    judge(mon, "cross", a, (b,), dict(nested=True) if nested else {}, want, pos, "cross")
    mon.eq(a, v, "left afterwards")
    mon.eq(b, w, "right afterwards")


@SUITE.scenario(1500, 20000)
def chain(mon):
    """a.cross(b).cross(c) lists flat triples"""
    rng = mon.rng
    g = gg(mon)
    g.maxlen = 2
    ts = [rng.choice([Prim("int64"), Prim("float64"), Str(), Rec([("x", Prim("int64"))])]) for _ in range(3)]
    n = many(rng, 0, 1, 2, 3)
    vs = [rows(rng, g, t, n, 3) for t in ts]
    a, b, c = [enc_Lst(Lst(t), v, g, 0) for t, v in zip(ts, vs)]
    kind = rng.choice(["flat", "flat", "right", "group", "groups", "long", "long"])
    mon.say(vals=plain(vs), kind=kind)
    if kind == "long":
        return long_chain(mon, g, n, ts, vs, [a, b, c])
    z = list(zip(*vs))
    if kind == "flat":
        got = mon.call("cross.cross", lambda: a.cross(b).cross(c), a, b, c)
        want = [[(x, y, w) for x in p for y in q for w in r] for p, q, r in z]
    elif kind == "right":
        got = mon.call("cross(cross)", lambda: a.cross(b.cross(c)), a, b, c)
        want = [[(x, y, w) for x in p for y in q for w in r] for p, q, r in z]
    elif kind == "group":
        got = mon.call("nested cross.cross", lambda: a.cross(b, nested=True).cross(c), a, b, c)
        want = [[[(x, y, w) for y in q for w in r] for x in p] for p, q, r in z]
    else:
        got = mon.call("nested cross.nested cross", lambda: a.cross(b, nested=True).cross(c, nested=True), a, b, c)
        want = [[[[(x, y, w) for w in r] for y in q] for x in p] for p, q, r in z]
    mon.eq(got, want, kind)
    if kind in ("flat", "right"):
        cols = got.unzip()
        mon.check(len(cols) == 3, "unzip gives %d columns" % len(cols))
        for k in range(3):
            mon.eq(cols[k], [[x[k] for x in w] for w in want], "column %d" % k)


def long_chain(mon, g, n, ts, vs, arrays):
    """four or five factors; every factor crossed as nested adds one level of grouping"""
    rng = mon.rng
    for _ in range(rng.randint(1, 2)):
        t = Prim("int64")
        v = rows(rng, g, t, n, 2)
        ts, vs, arrays = ts + [t], vs + [v], arrays + [enc_Lst(Lst(t), v, g, 0)]
    how = [rng.random() < 0.5 for _ in arrays[1:]]
    mon.say(trace="long chain %s" % how, factors=plain(vs))

    def fn():
        out = arrays[0]
        for nested, x in zip(how, arrays[1:]):
            out = out.cross(x, nested=nested)
        return out

    def at(row, k):
        # a leaf is a tuple of members so far; nested: what had one entry gets a list of entries
        out = [(x,) for x in row[0]]
        for nested, more in zip(how, row[1:]):
            def leaf(x):
                return [x + (y,) for y in more]

            def innermost(z):
                if any(isinstance(e, list) for e in z):
                    return [innermost(e) for e in z]
                return [leaf(x) for x in z] if nested else [w for x in z for w in leaf(x)]
            out = innermost(out)
        return out

    want = [at(row, 0) for row in zip(*vs)]
    got = mon.call("chain of crosses", fn, *arrays)
    if any(len(x) == 0 for v in vs for x in v):
        # (an empty list has no level below it by which to tell the grouping: compare the tuples in order)
        def leaves(z):
            return [y for x in z for y in leaves(x)] if isinstance(z, list) else [z]
        return mon.eq([leaves(x) for x in tolist(got)], [leaves(x) for x in want], "long chain")
    mon.eq(got, want, "long chain")


@SUITE.scenario(1200, 12000)
def columns(mon):
    """what is selected out of combinations is an ordinary jagged array"""
    rng = mon.rng
    g = gg(mon)
    g.maxlen = 2
    t = Prim("int64")
    n = many(rng, 0, 1, 2, 3)
    vs = [rows(rng, g, t, n, 3) for _ in range(3)]
    a, b, c = [enc_Lst(Lst(t), v, g, 0) for v in vs]
    nested = rng.random() < 0.6
    k = rng.choice([0, 1])
    mon.say(vals=plain(vs), nested=nested, column=k)
    x = a.cross(b, nested=nested)
    flat = [[(p, q)[k] for p in v for q in w] for v, w in zip(vs[0], vs[1])]
    if nested:
        want = [[[(p, q)[k] for q in w] for p in v] for v, w in zip(vs[0], vs[1])]
    else:
        want = flat
    col = mon.call("column of combinations", lambda: x[str(k)], x)
    mon.eq(col, want, "column")
    how = rng.choice(["cross", "cross nested", "rcross", "unzip"])
    if how == "unzip":
        col = mon.call("unzip", lambda: x.unzip()[k], x)
    if how in ("cross", "unzip", "cross nested"):
        m = how == "cross nested"
        got = mon.call("column.cross", lambda: col.cross(c, nested=m), col, c)
        exp = [[[(p, q) for q in w] for p in v] if m else [(p, q) for p in v for q in w] for v, w in zip(want, vs[2])]
    else:
        got = mon.call("cross of a column", lambda: c.cross(col), col, c)
        exp = [[(q, p) for q in w for p in v] for v, w in zip(want, vs[2])]
    if nested:
        exp = [[tuple(e) if isinstance(e, tuple) else e for e in r] for r in exp]
    mon.eq(got, exp, "column " + how)


@SUITE.scenario(1000, 12000)
def flattened_tuples(mon):
    """flattentuple() splices tuples of tuples, whatever rows the tables show"""
    rng = mon.rng
    g = gg(mon)
    n = many(rng, 0, 1, 2, 3, 5)

    def tup(depth, n):
        """(table, its rows as flat tuples) with rows shown in some order"""
        extra = rng.randint(0, 3)
        m = n + extra
        cols, flat = [], [() for _ in range(m)]
        for _ in range(rng.randint(1, 3)):
            if depth and rng.random() < 0.6:
                c, v = tup(depth - 1, m)
            else:
                c = numpy.array([rng.randrange(100) for _ in range(m)], dtype=rng.choice(["int64", "float64"]))
                v = [(x,) for x in c.tolist()]
            cols.append(c)
            flat = [x + y for x, y in zip(flat, v)]
        out = awkward0.Table.named("tuple", *cols)
        how = rng.choice(["reverse", "take", "mask", "slice", "slice"])
        if how == "reverse":
            k = rng.randint(0, extra)
            out = out[::-1][k:k + n]
            rows = list(range(m))[::-1][k:k + n]
        elif how == "take":
            rows = [rng.randrange(m) for _ in range(n)]
            out = out[numpy.array(rows, dtype=int)]
        elif how == "mask":
            rows = sorted(rng.sample(range(m), n))
            out = out[numpy.array([i in rows for i in range(m)], dtype=bool)]
        else:
            k = rng.randint(0, extra)
            rows = list(range(k, k + n))
            out = out[k:k + n]
            if rng.random() < 0.5:
                out, rows = out[::-1], rows[::-1]
        return out, [flat[i] for i in rows]

    t, want = tup(2, n)
    mon.say(want=want)
    got = mon.call("flattentuple", lambda: t.flattentuple(), t)
    mon.eq(got, want, "flattentuple")
    mon.check(list(got.columns) == [str(i) for i in range(len(want[0]) if want else len(got.columns))], "columns %r" % got.columns)


@SUITE.scenario(1000, 12000)
def chunks(mon):
    """arrays in chunks combine within each list, whatever the chunk boundaries"""
    rng = mon.rng
    g = gg(mon)
    g.maxlen = 3
    t, u = item(rng), item(rng)
    n = rng.choice([1, 2, 3, 5])
    v, w = rows(rng, g, t, n, 3), rows(rng, g, u, n, 3)
    parts = split(n, g)
    sizes = [y - x for x, y in parts]
    a = awkward0.ChunkedArray([enc_Lst(Lst(t), v[x:y], g, 0) for x, y in parts], sizes)
    b = awkward0.ChunkedArray([enc_Lst(Lst(u), w[x:y], g, 0) for x, y in parts], sizes)
    kind = rng.choice(["cross", "pairs", "distincts", "choose"])
    nested = kind != "choose" and rng.random() < 0.3
    mon.say(vals=plain(v), other=plain(w), sizes=sizes, kind=kind)
    kw = dict(nested=True) if nested else {}
    if kind == "cross":
        want = [[[(x, y) for y in q] for x in p] if nested else [(x, y) for x in p for y in q] for p, q in zip(v, w)]
        pos = [[[(i, j) for j in range(len(q))] for i in range(len(p))] if nested else [(i, j) for i in range(len(p)) for j in range(len(q))] for p, q in zip(v, w)]
        args = (b,)
    else:
        pos = [positions(kind, len(x)) for x in v]
        want = [pick(x, p) for x, p in zip(v, pos)]
        if nested:
            want = [[pick(x, q) for q in group(p)] for x, p in zip(v, pos)]
            pos = [group(p) for p in pos]
        args = (2,) if kind == "choose" else ()
    mon.eq(mon.call("chunked " + kind, lambda: getattr(a, kind)(*args, **kw), a, *args), want, kind)
    mon.eq(mon.call("chunked arg" + kind, lambda: getattr(a, "arg" + kind)(*args, **kw), a, *args), pos, "arg" + kind)


@SUITE.scenario(1000, 12000)
def missing(mon):
    """missing lists have missing combinations"""
    rng = mon.rng
    g = gg(mon)
    g.maxlen = 3
    t = item(rng)
    n = rng.choice([1, 2, 3, 5, 9])
    vals = [None if rng.random() < 0.3 else [t.gen(g) for _ in range(rng.randint(0, 3))] for _ in range(n)]
    a = enc_Opt(Opt(Lst(t)), vals, g, 0)
    kind = rng.choice(["pairs", "distincts", "choose"])
    mon.say(vals=plain(vals), kind=kind)
    args = (2,) if kind == "choose" else ()
    pos = [None if v is None else positions(kind, len(v)) for v in vals]
    want = [None if v is None else pick(v, p) for v, p in zip(vals, pos)]
    mon.eq(mon.call("masked " + kind, lambda: getattr(a, kind)(*args), a), want, kind)
    mon.eq(mon.call("masked arg" + kind, lambda: getattr(a, "arg" + kind)(*args), a), pos, "arg" + kind)


@SUITE.scenario(300, 3000)
def refused(mon):
    rng = mon.rng
    g = gg(mon)
    t = item(rng)
    n = rng.choice([1, 2, 3])
    a = enc_Lst(Lst(t), rows(rng, g, t, n, 3), g, 0)
    b = enc_Lst(Lst(t), rows(rng, g, t, n + rng.choice([-1, 1, 2]), 3), g, 0)
    kind = rng.choice(["lengths", "flat", "choose1"])
    mon.say(kind=kind)
    op = rng.choice(["cross", "argcross"])
    if kind == "lengths":
        mon.raises(op + " of other length", lambda: getattr(a, op)(b), a, b)
    elif kind == "flat":
        mon.raises(op + " with flat", lambda: getattr(a, op)(numpy.arange(n)), a)
    else:
        mon.raises("choose trivial", lambda: a.choose(rng.choice([0, 1])), a)
