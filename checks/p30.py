"""P30: a row is the record it shows, wherever it comes from."""
import keyword
import operator
import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip, observe
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V
from checks.p04 import apply, retype, ARITH, UNARY, OPS, NUM

SUITE = Suite("P30")
SUITE.needs = {"oracle": 15000, "rows": 6000}

NAMES = ["x", "y", "z", "long_name", "class", "two words", "0", "1", "px2", "_u"]


def gg(mon, **kw):
    rng = mon.rng
    return mon.G(**dict(dict(longcols=False, unsigned=True, pwrap=rng.choice([0.0, 0.0, 0.25])), **kw))


def leaf(g, depth=1):
    k = g.rng.randrange(9 if depth else 4)
    if k < 3:
        return Prim(g.rng.choice(["int64", "float64", "int32", "bool", "uint8"]))
    if k == 3:
        return Str()
    if k == 4:
        return Lst(leaf(g, 0))
    if k == 5:
        return Opt(leaf(g, 0))
    if k == 6:
        return rec(g, leaf, 0)
    if k == 7:
        return Lst(rec(g, leaf, 0))
    return Reg("int64", [2])


def number(g, depth=1):
    k = g.rng.randrange(6 if depth else 2)
    if k < 3:
        return Prim(g.rng.choice(NUM))
    if k == 3:
        return Lst(number(g, 0))
    if k == 4:
        return rec(g, number, 0)
    return Lst(rec(g, number, 0))


def plainleaf(g, depth=1):
    k = g.rng.randrange(5 if depth else 4)
    if k < 3:
        return Prim(g.rng.choice(["int64", "float64", "bool", "int32"]))
    if k == 3:
        return Str()
    return rec(g, plainleaf, 0)


def rec(g, leaf, depth=1):
    istuple = g.rng.random() < 0.2
    n = g.rng.randint(1, 4)
    names = [str(i) for i in range(n)] if istuple else g.rng.sample(NAMES, n)
    return Rec([(x, leaf(g, depth)) for x in names], istuple)


def obtain(mon, g, t, vals, k):
    """the row that shows vals[k], from somewhere; (row, what the container is)"""
    rng = mon.rng
    n = len(vals)
    how = rng.choice(["item", "item", "negative", "iterate", "selected", "selected", "selected twice", "list", "list", "option", "column", "row of rows", "union", "chunks", "indexed"])
    mon.say(trace="row from %s" % how)
    if how in ("item", "negative", "iterate", "selected", "selected twice"):
        a = encode(t, vals, g)
        if rng.random() < 0.2:
            observe(a, rng)
        if how == "item":
            return mon.call("item", lambda: a[k], a)
        if how == "negative":
            return mon.call("item from the end", lambda: a[k - n], a)
        if how == "iterate":
            return mon.call("iteration", lambda: list(a)[k], a)
        at = list(range(n))
        for _ in range(1 if how == "selected" else 2):
            w = random_where(rng, len(at))
            new = take(at, w)
            if k not in new:
                w = slice(None, None, -1)
                new = at[::-1]
            b = a
            a = mon.call("selection", lambda: b[w], b)
            at = new
        j = rng.choice([i for i, x in enumerate(at) if x == k])
        return mon.call("item of a selection", lambda: a[j] if rng.random() < 0.7 else a[j - len(at)], a)
    if how == "list":
        cuts = sorted(rng.randint(0, n) for _ in range(3))
        parts = [vals[x:y] for x, y in zip([0] + cuts, cuts + [n])]
        a = enc_Lst(Lst(t), parts, g, 0)
        i = [i for i, (x, y) in enumerate(zip([0] + cuts, cuts + [n])) if x <= k < y][0]
        j = k - ([0] + cuts)[i]
        if rng.random() < 0.5:
            return mon.call("item of an item", lambda: a[i][j], a)
        return mon.call("item at two positions", lambda: a[i, j], a)
    if how == "option":
        some = list(vals)
        for i in range(n):
            if i != k and rng.random() < 0.3:
                some[i] = None
        a = enc_Opt(Opt(t), some, g, 0)
        return mon.call("item of optional records", lambda: a[k], a)
    if how in ("column", "row of rows"):
        a = encode(Rec([("u", t), ("w", Prim("int64"))]), [{"u": v, "w": i} for i, v in enumerate(vals)], g, depth=9 if how == "row of rows" else 0)
        if how == "column":
            return mon.call("item of a column", lambda: a["u"][k], a)
        return mon.call("column of an item", lambda: (a[k]["u"] if rng.random() < 0.5 else a[k].u), a)
    if how == "union":
        ut = Uni([Prim("int64"), t])
        some = [U(0, i) if i != k and rng.random() < 0.4 else U(1, v) for i, v in enumerate(vals)]
        a = encode(ut, some, g)
        return mon.call("item of a union", lambda: a[k], a)
    if how == "chunks":
        parts = split(n, g)
        a = awkward0.ChunkedArray([encode(t, vals[x:y], g) for x, y in parts], [y - x for x, y in parts])
        return mon.call("item of chunks", lambda: a[k], a)
    order = list(range(n))
    rng.shuffle(order)
    a = awkward0.IndexedArray(numpy.array([order.index(i) for i in range(n)], dtype=int), encode(t, [vals[i] for i in order], g))
    return mon.call("item at a position", lambda: a[k], a)


def start(mon, leaf, **kw):
    g = gg(mon, **kw)
    t = rec(g, leaf)
    vals = [t.gen(g) for _ in range(mon.rng.randint(1, 6))]
    k = mon.rng.randrange(len(vals))
    mon.say(type=t.sig(), vals=V.plain(vals), row=k)
    r = obtain(mon, g, t, vals, k)
    mon.check(isinstance(r, awkward0.Table.Row), lambda: "not a row but a %s" % type(r))
    mon.events["rows"] += 1
    return g, t, vals[k], r


def asdict(t, v):
    return dict(zip([n for n, _ in t.fields], v)) if t.istuple else v


@SUITE.scenario(4000, 50000)
def facts(mon):
    rng = mon.rng
    g, t, v, r = start(mon, leaf)
    d = asdict(t, v)
    names = [n for n, _ in t.fields]
    todo = ["tolist", "columns", "in", "len", "iter", "items", "attributes", "dir", "some", "unknown", "text", "zip"]
    rng.shuffle(todo)
    for what in todo:
        if what == "tolist":
            mon.eq([r.tolist()], [v], "tolist")
        elif what == "columns":
            mon.check(set(r.columns) == set(names), lambda: "columns %r" % (r.columns,))
        elif what == "in":
            mon.check(all(n in r for n in names) and not any(x in r for x in ("nothing", "tolist", "columns", "_table", "i0", "__len__")) and not any(n in r for n in NAMES if n not in names), "membership of names")
        elif what == "len":
            mon.check(len(r) == len(names), "length of a row")
        elif what == "iter":
            if t.istuple:
                mon.eq([tolist(x) for x in mon.call("iteration of a tuple", lambda: list(r))], list(v), "iteration of a tuple")
            else:
                mon.check(sorted(mon.call("iteration", lambda: list(r))) == sorted(names), "iteration over names")
        elif what == "items":
            for n in names:
                mon.eq([tolist(mon.call("item of a row", lambda: r[n]))], [d[n]], "row[%r]" % n)
        elif what == "attributes":
            for n in names:
                if n not in ("0", "1"):
                    mon.eq([tolist(mon.call("attribute of a row", lambda: getattr(r, n)))], [d[n]], "row.%s" % n)
            if t.istuple:
                for i in range(len(names)):
                    mon.eq([tolist(getattr(r, "i%d" % i))], [v[i]], "row.i%d" % i)
        elif what == "dir":
            known = mon.call("dir", lambda: dir(r))
            for n in names:
                mon.check((n in known) == (n.isidentifier() and not keyword.iskeyword(n)), lambda: "%r in dir of a row" % n)
        elif what == "some":
            ns = rng.sample(names, rng.randint(1, len(names)))
            s = mon.call("columns of a row", lambda: r[ns])
            if t.istuple:
                if ns == names:
                    mon.eq([s.tolist()], [v], "row[names]")
            else:
                mon.eq([s.tolist()], [dict((n, d[n]) for n in ns)], "row[names]")
                mon.check(set(s.columns) == set(ns), "columns of some columns")
        elif what == "unknown":
            mon.raises("unknown column", lambda: r["nothing"])
            mon.raises("unknown columns", lambda: r[names + ["nothing"]])
            mon.raises("unknown attribute", lambda: r.nothing, kinds=(AttributeError,))
            mon.check(not hasattr(r, "nothing"), "hasattr")
        elif what == "text":
            mon.call("str", lambda: (str(r), repr(r)))
        elif t.istuple:
            # a tuple can be unpacked
            mon.eq([tolist(x) for x in mon.call("unpacking", lambda: tuple(r))], list(v), "unpacking")


@SUITE.scenario(3000, 40000)
def equality(mon):
    """rows are equal if the records they show are equal"""
    rng = mon.rng
    g, t, v, r = start(mon, plainleaf)
    others = [v] + [t.gen(g) for _ in range(rng.randint(0, 3))]
    d = asdict(t, v)
    # a record that differs in one field only
    w = dict(d)
    n, ft = rng.choice(t.fields)
    w[n] = ft.gen(g)
    others.append(tuple(w[x] for x, _ in t.fields) if t.istuple else w)
    rng.shuffle(others)
    t2 = t
    if not t.istuple and rng.random() < 0.3:
        fields = list(t.fields)
        rng.shuffle(fields)
        t2 = Rec(fields)
    k = rng.randrange(len(others))
    mon.say(others=V.plain(others), other=k)
    s = obtain(mon, g, t2, others, k)
    want = V.plain(v) == V.plain(others[k])
    mon.check(bool(mon.call("equal", lambda: r == s)) == want, lambda: "== is %s for %r and %r" % (not want, v, others[k]))
    mon.check(bool(mon.call("equal", lambda: s == r)) == want, "== the other way around")
    mon.check(bool(mon.call("not equal", lambda: r != s)) == (not want), "!=")
    mon.check(bool(r == r) and not (r != r), "a row equals itself")
    mon.check(not (r == 5) and not (r == None) and not (r == v), "a row equals no number")
    if not t.istuple:
        more = Rec(t.fields + [("more", Prim("int64"))])
        o = obtain(mon, g, more, [dict(d, more=0)], 0)
        mon.check(not (r == o) and not (o == r), "equal although one has another field")
        if len(t.fields) > 1:
            x = t.fields[0][0]
            o = obtain(mon, g, Rec([("renamed", t.fields[0][1])] + t.fields[1:]), [dict([("renamed", d[x])] + [(n, d[n]) for n, _ in t.fields[1:]])], 0)
            mon.check(not (r == o) and not (o == r), "equal although a field has another name")


@SUITE.scenario(2000, 25000)
def selections(mon):
    """rows of the same table, of a part of it, and of some of its columns"""
    rng = mon.rng
    g = gg(mon)
    t = Rec([(x, Prim(rng.choice(["int64", "float64", "bool", "int32"]))) for x in rng.sample(NAMES[:6], rng.randint(1, 4))])
    names = [n for n, _ in t.fields]
    pool = [t.gen(g) for _ in range(rng.randint(1, 3))]
    vals = [rng.choice(pool) for _ in range(rng.randint(1, 6))]
    a = encode(t, vals, g, depth=9)
    mon.say(type=t.sig(), vals=V.plain(vals))
    versions = [(a, vals)]
    for _ in range(rng.randint(1, 4)):
        b, v = rng.choice(versions)
        have = [n for n in names if len(v) == 0 or n in v[0]]
        kind = rng.choice(["rows", "rows", "columns", "columns", "everything"])
        if kind == "rows":
            w = random_where(rng, len(v)) if rng.random() < 0.5 else slice(rng.randint(0, 1), None)
            new = (mon.call("rows", lambda: b[w], b), take(v, w))
        elif kind == "columns":
            ns = rng.sample(have, rng.randint(1, len(have)))
            new = (mon.call("columns", lambda: b[ns], b), [dict((n, x[n]) for n in ns) for x in v])
        else:
            new = (b[:], v)
        if len(new[1]):
            versions.append(new)
    rows = [(b[i], v[i]) for b, v in versions for i in range(len(v))]
    mon.events["rows"] += len(rows)
    for _ in range(12):
        (r, v), (s, w) = rng.choice(rows), rng.choice(rows)
        mon.eq([r.tolist()], [v], "row of a selection")
        want = V.plain(v) == V.plain(w)
        mon.check(bool(r == s) == want and bool(r != s) == (not want), lambda: "== is %s for %r and %r" % (not want, v, w))


@SUITE.scenario(600, 8000)
def tuples(mon):
    """the members of a tuple are its numbered fields, even if it has other fields"""
    rng = mon.rng
    g = gg(mon)
    n, more = rng.randint(1, 3), rng.sample(["x", "y", "more"], rng.randint(0, 2))
    fields = [(x, Prim(rng.choice(["int64", "float64", "bool"]))) for x in [str(i) for i in range(n)] + more]
    m = rng.randint(1, 5)
    cols = dict((x, [ft.gen(g) for _ in range(m)]) for x, ft in fields)
    if rng.random() < 0.5:
        a = awkward0.Table.named("tuple", [(x, nparr(cols[x], ft.dtype, g)) for x, ft in fields][0][1], *[nparr(cols[x], ft.dtype, g) for x, ft in fields[1:n]])
    else:
        a = awkward0.Table.named("tuple", **dict((x, nparr(cols[x], ft.dtype, g)) for x, ft in fields[:n]))
    for x, ft in fields[n:]:
        a[x] = nparr(cols[x], ft.dtype, g)
    at = list(range(m))
    if rng.random() < 0.5:
        w = random_where(rng, m)
        a, at = a[w], take(at, w)
    mon.say(cols=cols, rows=at)
    for j, i in enumerate(at):
        r = a[j]
        mon.events["rows"] += 1
        mon.check(len(r) == n, lambda: "a tuple of %d has length %d" % (n, len(r)))
        mon.eq(list(r), [cols[str(k)][i] for k in range(n)], "members of a tuple")
        mon.check(all(x in r for x, _ in fields), "membership")
        mon.eq([r[x] for x, _ in fields], [cols[x][i] for x, _ in fields], "fields of a tuple")
        if not more:
            mon.eq([r.tolist()], [tuple(cols[str(k)][i] for k in range(n))], "a tuple in Python")
        else:
            mon.eq([r.tolist()], [dict((x, cols[x][i]) for x, _ in fields)], "a record in Python")


def again(t, g, v):
    """another value with the same structure of lists"""
    if isinstance(t, Lst):
        return [again(t.of, g, x) for x in v]
    if isinstance(t, Rec):
        return tuple(again(s, g, x) for (n, s), x in zip(t.fields, v)) if t.istuple else dict((n, again(s, g, v[n])) for n, s in t.fields)
    return t.gen(g)


@SUITE.scenario(5000, 60000)
def arithmetic(mon):
    """computing with rows computes with their fields"""
    rng = mon.rng
    kind = rng.choice(["unary", "number", "number", "row", "row", "two results", "order"])
    # (columns in chunks combine only with the same chunks)
    wrap = set(["indexed", "virtual"] + (["chunked"] if kind not in ("row", "order") else []))
    g, t, v, r = start(mon, number, wrap=wrap)
    mon.say(kind=kind)
    if kind == "unary":
        name = rng.choice([u for u in UNARY if u != "isnan"])
        got = mon.call(name, lambda: OPS[name](r) if name in OPS and rng.random() < 0.5 else getattr(numpy, name)(r), r._table)
        want = apply(getattr(numpy, name), [t], [v])
    elif kind == "number":
        name = rng.choice(ARITH)
        x = rng.choice([2, -1, 0.5, 3.0, numpy.float64(1.5), numpy.int64(3), numpy.int32(2)])
        f = OPS[name] if name in OPS and rng.random() < 0.5 else getattr(numpy, name)
        if rng.random() < 0.5:
            got = mon.call(name, lambda: f(r, x), r._table)
            want = apply(getattr(numpy, name), [t, None], [v, x])
        else:
            got = mon.call(name, lambda: f(x, r), r._table)
            want = apply(getattr(numpy, name), [None, t], [x, v])
    elif kind == "row":
        name = rng.choice(ARITH)
        t2 = retype(t, g)
        others = [again(t2, g, v) for _ in range(rng.randint(1, 4))]
        k = rng.randrange(len(others))
        mon.say(others=V.plain(others), other=k)
        s = obtain(mon, g, t2, others, k)
        f = OPS[name] if name in OPS and rng.random() < 0.5 else getattr(numpy, name)
        got = mon.call(name, lambda: f(r, s), r._table, s._table)
        want = apply(getattr(numpy, name), [t, t2], [v, others[k]])
        if t.istuple != t2.istuple:
            raise Skip()
    elif kind == "two results":
        got = mon.call("divmod", lambda: divmod(r, 2), r._table)
        mon.check(isinstance(got, tuple) and len(got) == 2, "divmod gives a pair")
        for z, uf in zip(got, (numpy.floor_divide, numpy.remainder)):
            mon.eq([z.tolist()], [apply(uf, [t, None], [v, 2])], "divmod")
        return
    else:
        if not all(isinstance(x, Prim) for _, x in t.fields):
            raise Skip()
        t2 = retype(t, g)
        o = [again(t2, g, v) for _ in range(2)]
        s = obtain(mon, g, t2, o, 1)
        a, b = asdict(t, v), asdict(t2, o[1])
        for name in ("less", "less_equal", "greater", "greater_equal"):
            got = mon.call(name, lambda: OPS[name](r, s), r._table, s._table)
            mon.check(bool(got) == all(OPS[name](a[n], b[n]) for n in a), lambda: "%s of %r and %r" % (name, v, o[1]))
        return
    mon.check(isinstance(got, awkward0.Table.Row), lambda: "%s of a row is a %s" % (name, type(got)))
    mon.eq([got.tolist()], [want], name)
    for n, x in asdict(t, want).items():
        mon.eq([tolist(got[n])], [x], "column of the result")
    mon.eq([r.tolist()], [v], "the row afterwards")
    if rng.random() < 0.3:
        got2 = mon.call("again", lambda: got + 1, got._table)
        mon.eq([got2.tolist()], [apply(numpy.add, [t, None], [want, 1])] if all(isinstance(x, Prim) and x.dtype == numpy.dtype("float64") for _, x in t.fields) else [got2.tolist()], "computing with the result")


@SUITE.scenario(2500, 30000)
def broadcast(mon):
    """with arrays and tables, a row is combined with each of their rows"""
    rng = mon.rng
    g, t, v, r = start(mon, lambda g, depth=1: Prim(g.rng.choice(NUM)), wrap=set(["indexed", "virtual"]))
    if t.istuple:
        raise Skip()
    name = rng.choice(ARITH)
    uf = getattr(numpy, name)
    f = OPS[name] if name in OPS and rng.random() < 0.5 else uf
    n = rng.choice([0, 1, 2, 5])
    if rng.random() < 0.5:
        u = Prim(rng.choice(NUM))
        xs = [u.gen(g) for _ in range(n)]
        x = nparr(xs, u.dtype, g)
    else:
        u = retype(t, g)
        xs = [u.gen(g) for _ in range(n)]
        x = encode(u, xs, g, depth=9)
    first = rng.random() < 0.5
    mon.say(name=name, other=V.plain(xs), rowfirst=first)
    if first:
        got = mon.call(name, lambda: f(r, x), r._table, x)
        want = [apply(uf, [t, u], [v, y]) for y in xs]
    else:
        got = mon.call(name, lambda: f(x, r), r._table, x)
        want = [apply(uf, [u, t], [y, v]) for y in xs]
    mon.eq(got, want, name)
    mon.check(len(got) == n, "length")
