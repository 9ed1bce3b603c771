"""P25: conversion to Pandas.

flatten=True: the DataFrame is compared with rows and index labels worked out
from plain Python values; flatten=False: columns are compared with the values
of the array after selections done by Pandas.
"""
import random
import warnings

import numpy
import awkward0
from akmon.monitor import Suite, Violation, Skip, tolist
from akmon.layouts import *
from akmon import values as V
from akmon.values import plain, same, short

SUITE = Suite("P25")
SUITE.needs = {"rows compared": 20000, "columns compared": 5000, "multi-row index": 2000, "multi-column names": 1000, "refused": 500, "wrapped columns": 2000}

NUMS = ["bool", "int8", "int32", "int64", "uint8", "uint32", "float32", "float64"]


def scalar(g, opt=True):
    t = g.rng.choice([Prim(g.rng.choice(NUMS)), Prim(g.rng.choice(NUMS)), Str()])
    if opt and g.rng.random() < 0.2:
        t = Opt(Prim(g.rng.choice(NUMS)))
    return t


def listof(g):
    kind = g.rng.random()
    if kind < 0.4:
        return Lst(scalar(g))
    if kind < 0.65:
        return Lst(Lst(scalar(g)))
    if kind < 0.85:
        return Lst(record(g, nlists=0, depth=g.rng.choice([0, 0, 1])))
    return Lst(record(g, nlists=1, depth=0))


def names(g, n):
    return g.rng.sample(["x", "y", "z", "one", "a b", "content", "1", "0"], n)


def record(g, nlists=0, depth=1, lists=None):
    fields = []
    ns = names(g, g.rng.randint(1, 4))
    at = g.rng.randrange(len(ns)) if nlists else None
    for i, n in enumerate(ns):
        if i == at:
            t = record(g, 1, depth - 1) if depth > 0 and g.rng.random() < 0.3 else (Lst(scalar(g)) if lists == "simple" else listof(g))
        elif depth > 0 and g.rng.random() < 0.3:
            t = record(g, 0, depth - 1)
        else:
            t = scalar(g)
        fields.append((n, t))
    return Rec(fields)


def depthof(t):
    if isinstance(t, Lst):
        return 1 + depthof(t.of)
    if isinstance(t, Rec):
        return max([depthof(x) for _, x in t.fields])
    return 0


def columnsof(t, path=()):
    """the names of the columns, in order"""
    if isinstance(t, Lst):
        return columnsof(t.of, path)
    if isinstance(t, Rec):
        out = []
        for n, x in t.fields:
            out += columnsof(x, path + (n,))
        return out
    return [path]


def flat(t, v):
    """[(position in the lists, {column: value})], one for each innermost element"""
    if isinstance(t, Lst):
        return [((i,) + loc, row) for i, x in enumerate(v) for loc, row in flat(t.of, x)]
    if isinstance(t, Rec):
        base, parts = {}, None
        for n, x in t.fields:
            sub = [(loc, dict(((n,) + k, y) for k, y in row.items())) for loc, row in flat(x, v[n])]
            if depthof(x) == 0:
                base.update(sub[0][1])
            elif parts is None:
                parts = sub
            else:
                parts = [(l1, dict(list(r1.items()) + list(r2.items()))) for (l1, r1), (l2, r2) in zip(parts, sub)]
        if parts is None:
            return [((), base)]
        return [(loc, dict(list(base.items()) + list(row.items()))) for loc, row in parts]
    return [((), {(): v})]


def expected(t, vals):
    return [((i,) + loc, row) for i, v in enumerate(vals) for loc, row in flat(t, v)]


def cell(x):
    """what Pandas holds, as a plain value; missing is None"""
    if x is None:
        return None
    if isinstance(x, float) or isinstance(x, numpy.floating):
        return float(x)
    return tolist(x)


def agree(got, want, isopt):
    if want is None:
        return got is None or got != got
    if isinstance(want, float) and want != want:
        return got is None or got != got
    if isinstance(want, bool):
        return got == want and (isopt or isinstance(got, (bool, numpy.bool_)))
    return got == want


def compare(mon, df, t, vals, bare):
    import pandas
    want = expected(t, vals)
    cols = columnsof(t)
    index = [tuple(x) if isinstance(x, tuple) else (x,) for x in df.index.tolist()]
    mon.check([tuple(map(int, x)) for x in index] == [loc for loc, _ in want], "row labels are %s, expected %s" % (short(index), short([loc for loc, _ in want])))
    deepest = max(len(c) for c in cols)
    if deepest == 0:
        mon.check(isinstance(df, pandas.Series), "not a Series: %s" % type(df))
        series = [df]
    else:
        mon.check(isinstance(df, pandas.DataFrame), "not a DataFrame: %s" % type(df))
        have = [c if isinstance(c, tuple) else (c,) for c in df.columns.tolist()]
        padded = [c + ("",) * (deepest - len(c)) for c in cols]
        mon.check(have == padded, "columns are %s, expected %s" % (have, padded))
        series = [df.iloc[:, i] for i in range(len(cols))]
        if deepest > 1:
            mon.events["multi-column names"] += 1
    if len(want) and len(want[0][0]) > 1:
        mon.events["multi-row index"] += 1
    types = leaves(t)
    for c, s, lt in zip(cols, series, types):
        isopt = isinstance(lt, Opt)
        got = [cell(x) for x in s.tolist()]
        exp = [plain(row[c]) for _, row in want]
        bad = [i for i, (x, y) in enumerate(zip(got, exp)) if not agree(x, y, isopt)]
        mon.check(len(got) == len(exp) and not bad, "column %s is %s, expected %s" % (c, short(got), short(exp)))
        if isinstance(lt, Prim) and len(exp):
            mon.check(s.dtype == lt.dtype, "column %s is of dtype %s, expected %s" % (c, s.dtype, lt.dtype))
        mon.events["columns compared"] += 1
    mon.events["rows compared"] += len(want)


def leaves(t):
    if isinstance(t, Lst):
        return leaves(t.of)
    if isinstance(t, Rec):
        out = []
        for _, x in t.fields:
            out += leaves(x)
        return out
    return [t]


def toptype(g):
    kind = g.rng.choice(["scalar", "list", "list", "rec", "rec", "reclist", "reclist", "reclist"])
    if kind == "scalar":
        return scalar(g)
    if kind == "list":
        return listof(g)
    if kind == "rec":
        return record(g, 0, 2)
    return record(g, 1, 2)


@SUITE.scenario(3000, 60000)
def flattened(mon):
    g = mon.G(encodings=["utf-8"])
    rng = mon.rng
    t = toptype(g)
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, 3, 5, 8))]
    a = encode(t, vals, g)
    mon.say(type=t, vals=vals, array=a)
    df = mon.call("topandas", lambda: awkward0.topandas(a, flatten=True), a)
    compare(mon, df, t, vals, not isinstance(t, Rec))


@SUITE.scenario(600, 12000)
def same_structure(mon):
    """several columns of lists with the same lengths, and with different ones"""
    g = mon.G(encodings=["utf-8"])
    rng = mon.rng
    fields = [(n, scalar(g)) for n in names(g, rng.randint(2, 4))]
    which = rng.sample(range(len(fields)), rng.randint(2, len(fields)))
    for i in which:
        t = rng.choice([scalar(g), record(g, 0, 0)])
        fields[i] = (fields[i][0], Lst(t))
    t = Rec(fields)
    n = rng.choice([1, 2, 3, 5])
    vals = []
    for _ in range(n):
        k = g.small_len()
        row = {}
        for name, x in t.fields:
            row[name] = [x.of.gen(g) for _ in range(k)] if isinstance(x, Lst) else x.gen(g)
        vals.append(row)
    spoil = rng.random() < 0.4
    if spoil:
        row, name = rng.choice(vals), fields[rng.choice(which)][0]
        row[name] = row[name] + [dict(t.fields)[name].of.gen(g)]
    a = encode(t, vals, g)
    mon.say(type=t, vals=vals, array=a)
    if spoil:
        mon.raises("topandas of different structures", lambda: awkward0.topandas(a, flatten=True), a, kinds=(ValueError,))
        mon.events["refused"] += 1
    else:
        df = mon.call("topandas", lambda: awkward0.topandas(a, flatten=True), a)
        compare(mon, df, t, vals, False)


def kinds(t, bad, vals):
    """which possibilities of the unflattenable type occur"""
    if t is bad:
        return [v.tag if isinstance(v, V.U) else v is None for v in vals]
    if isinstance(t, Lst):
        return kinds(t.of, bad, [x for v in vals for x in v])
    if isinstance(t, Rec):
        return [k for n, x in t.fields for k in kinds(x, bad, [v[n] for v in vals])]
    return []


@SUITE.scenario(300, 6000)
def unflattenable(mon):
    """what a DataFrame cannot hold is refused, not mangled"""
    g = mon.G(encodings=["utf-8"], wrap=set(["indexed", "virtual"]))
    rng = mon.rng
    bad = rng.choice([Opt(Lst(Prim("int64"))), Opt(Rec([("x", Prim("int64"))])), Uni([Prim("float64"), Str()]), Uni([Prim("int64"), Lst(Prim("int64"))])])
    where = rng.choice(["bare", "list", "record", "record in list", "nested"])
    t = {"bare": lambda: bad, "list": lambda: Lst(bad), "record": lambda: Rec([("a", Prim("int64")), ("b", bad)]),
         "record in list": lambda: Lst(Rec([("b", bad), ("a", Str())])), "nested": lambda: Rec([("r", Rec([("b", bad)])), ("a", Prim("int8"))])}[where]()
    vals = [t.gen(g) for _ in range(many(rng, 2, 3, 5))]
    if len(set(kinds(t, bad, vals))) < 2:
        raise Skip          # neither a union nor optional, after all
    a = encode(t, vals, g)
    mon.say(type=t, vals=vals, array=a)
    mon.raises("topandas unflattenable", lambda: awkward0.topandas(a, flatten=True), a, kinds=(ValueError,))
    mon.events["refused"] += 1


def wrappedtype(g, depth=0):
    r = g.rng.random()
    if r < 0.35:
        return Lst(g.rng.choice([Prim(g.rng.choice(NUMS)), Str(), Lst(Prim("int64")), Rec([("u", Prim("int8")), ("v", Prim("float64"))])]))
    if r < 0.5:
        return Str()
    if r < 0.6 and depth == 0:
        return Rec([(n, wrappedtype(g, 1)) for n in names(g, 2)])
    if r < 0.7:
        return Opt(g.rng.choice([Prim("int64"), Prim("float64"), Lst(Prim("int64"))]))
    if r < 0.75 and depth == 0:
        return Obj()
    return Prim(g.rng.choice(NUMS))


@SUITE.scenario(900, 18000)
def wrapped(mon):
    """flatten=False: columns are wrapped arrays, which Pandas can slice and mask"""
    import pandas
    g = mon.G(wrap=set(["indexed"]), pwrap=mon.rng.choice([0.0, 0.6]), masks=("bool", "indexed"))       # in chunks, virtual, unions, bit masks and sparse: documented as not fully implemented
    rng = mon.rng
    table = rng.random() < 0.8
    t = Rec([(n, wrappedtype(g)) for n in names(g, rng.randint(1, 4))]) if table else wrappedtype(g, 1)
    n = rng.choice([1, 2, 3, 5, 8])
    if not table and isinstance(t, Lst) and isinstance(t.of, Rec):
        raise Skip          # shows the columns of its records
    vals = [t.gen(g) for _ in range(n)]
    a = encode(t, vals, g)
    mon.say(type=t, vals=vals, array=a)
    df = mon.call("topandas", lambda: awkward0.topandas(a), a)
    if table:
        mon.check(isinstance(df, pandas.DataFrame), "not a DataFrame: %s" % type(df))
        mon.check(df.columns.tolist() == [k for k, _ in t.fields], "columns are %s" % df.columns.tolist())
        columns = [(df[k], [v[k] for v in vals]) for k, _ in t.fields]
    else:
        mon.check(isinstance(df, pandas.Series), "not a Series: %s" % type(df))
        columns = [(df, vals)]
    mon.check(len(df) == n, "%d rows" % len(df))
    mon.check(df.index.tolist() == list(range(n)), "index is %s" % df.index.tolist())
    where = slice(rng.choice([None, 0, 1, 2, -2]), rng.choice([None, 0, 1, 3, -1]), rng.choice([None, None, 1, 2, -1]))
    mask = numpy.array([rng.random() < 0.6 for _ in range(n)])
    i = rng.randrange(n)
    mon.say(where=where, mask=mask, i=i)
    part = df.iloc[where] if table else None
    for j, (s, want) in enumerate(columns):
        mon.eq(s.values, want, "values")
        mon.eq([tolist(x) for x in s], want, "iteration")
        mon.eq(mon.call("Series[slice]", lambda: s.iloc[where].values, a), want[where], "slice")
        mon.eq(mon.call("Series[mask]", lambda: s[mask].values, a), [x for x, m in zip(want, mask) if m], "mask")
        mon.check(s[mask].index.tolist() == numpy.arange(n)[mask].tolist(), "index after a mask")
        mon.eq(mon.call("Series[i]", lambda: s.iloc[i], a), want[i], "item")
        if table:
            mon.eq(part.iloc[:, j].values, want[where], "slice of the DataFrame")
            mon.check(part.index.tolist() == list(range(n))[where], "index after a slice")
        mon.events["wrapped columns"] += 1
