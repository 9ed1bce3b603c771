"""P15: columns and rows of a table commute; columns are assigned and deleted exactly."""
import copy

import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip, Violation
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V

SUITE = Suite("P15")
SUITE.needs = {"oracle": 15000}
A = awkward0.array.base.AwkwardArray
NAMES = ["x", "y", "z", "w", u"\u03b1", "a b", "0"]


def gg(mon, **kw):
    kw = dict(dict(pwrap=mon.rng.choice([0.0, 0.1, 0.3]), wrapdepth=2, anywhen=True, encodings=["utf-8"], unsigned=True,
                   wrap=set(["indexed", "chunked", "virtual", "appendable"])), **kw)
    return mon.G(**kw)


def leaf(g, depth=1, reg=True):
    return random_type(g, depth, ("prim", "list", "opt", "str", "rec", "obj", "byt") + (("reg",) if reg else ()))


def pick(v, n):
    """column n of a value, wherever its records are"""
    if isinstance(v, U):
        return pick(v.value, n)
    if isinstance(v, list):
        return [pick(x, n) for x in v]
    if v is None:
        return None
    return v[n]


def some(v, ns):
    if isinstance(v, U):
        return some(v.value, ns)
    if isinstance(v, list):
        return [some(x, ns) for x in v]
    if v is None:
        return None
    return dict((n, v[n]) for n in ns)


def merged(v, name, new):
    """v with a new column"""
    if isinstance(v, U):
        return merged(v.value, name, new)
    if v is None:
        return None
    if isinstance(v, list):
        assert len(v) == len(new)
        return [merged(x, name, y) for x, y in zip(v, new)]
    out = dict(v)
    out[name] = new
    return out


def without(v, names):
    if isinstance(v, U):
        return without(v.value, names)
    if v is None:
        return None
    if isinstance(v, list):
        return [without(x, names) for x in v]
    return dict((n, x) for n, x in v.items() if n not in names)


def table(g, n=None, fields=None, **kw):
    rng = g.rng
    names = rng.sample(NAMES, rng.randint(1, 4)) if fields is None else fields
    t = Rec([(x, leaf(g)) for x in names])
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, 5, 9) if n is None else n)]
    return t, vals


# ------------------------------------------------------------------ one Table, many steps

@SUITE.scenario(6000, 80000)
def history(mon):
    """any sequence of selections, assignments and deletions on a Table, its views and its columns"""
    rng = mon.rng
    g = gg(mon, tableviews=False, longcols=False)
    t, vals = table(g)
    types = dict(t.fields)
    base = encode(t, vals, mon.G(**dict(g.__dict__, rng=None, pwrap=0.0)) if False else g, depth=9)
    if rng.random() < 0.3:
        base.rowstart = rng.choice([None, 5, 100])
    start = base.rowstart
    mon.say(type=t.sig(), vals=V.plain(vals))
    # every view: [array, its rows' positions, its columns (name -> values of all rows of the base)]
    cols = dict((n, [v[n] for v in vals]) for n in types)
    n = len(vals)
    alive = [[base, list(range(n)), dict(cols), True]]
    steps = []
    for step in range(rng.randint(1, 10)):
        which = rng.choice(alive)
        arr, rows, have, isbase = which
        k = rng.choice(["rows", "rows", "cols", "assign", "assign", "delete", "multi", "scalar", "refuse", "column"])
        if k == "rows":
            w = random_where(rng, len(rows))
            steps.append("rows %r" % (w,))
            mon.say(steps=steps)
            new = mon.call("view of rows", lambda: arr[w], arr)
            if have:
                alive.append([new, take(rows, w), dict(have), False])
        elif k == "cols":
            if not have:
                continue
            ns = [rng.choice(list(have)) for _ in range(rng.randint(1, 3))]
            ns = list(dict.fromkeys(ns))
            steps.append("cols %r" % (ns,))
            mon.say(steps=steps)
            sel = rng.choice([ns, numpy.array(ns), numpy.array(ns, dtype=object)])
            new = mon.call("selection of columns", lambda: arr[sel], arr)
            # a Table that isn't a view can be assigned to, and that doesn't affect the Table it came from
            alive.append([new, list(rows), dict((x, have[x]) for x in ns), isbase])
        elif k in ("assign", "scalar"):
            if not isbase:
                continue
            name = rng.choice(NAMES)
            if k == "scalar":
                v = rng.choice([3, 2.5, True])
                if list(have) in ([], [name]):
                    continue
                new, what = [v] * n, v
                what = rng.choice([v, numpy.array(v)[()]])
            else:
                nt = leaf(g)
                new = [nt.gen(g) for _ in range(n)]
                what = encode(nt, new, g)
                if rng.random() < 0.2 and isinstance(nt, Prim):
                    what = list(what)
                    nt = Prim("float64")
                    what = [float(x) for x in what]
                    new = [float(x) for x in new]
            steps.append("%s %s %s" % (k, name, V.short(new, 60)))
            mon.say(steps=steps)
            arr[name] = what
            mon.events["op:assign"] += 1
            have = which[2] = dict(have)
            have[name] = new
        elif k == "multi":
            if not isbase:
                continue
            m = rng.randint(1, 3)
            ns = rng.sample(NAMES, m)
            nts = [leaf(g) for _ in ns]
            news = [[x.gen(g) for _ in range(n)] for x in nts]
            what = awkward0.Table(*[encode(x, new, g) for x, new in zip(nts, news)]) if rng.random() < 0.5 else awkward0.Table.frompairs([("q%d" % i, encode(x, new, g)) for i, (x, new) in enumerate(zip(nts, news))])
            steps.append("multi %r" % (ns,))
            mon.say(steps=steps)
            if rng.random() < 0.2:
                before = tolist(arr)
                mon.raises("assigning with too few names", lambda: arr.__setitem__(ns + ["extra"], what), what)
                mon.eq(arr, before, "after a refused assignment")
            sel = rng.choice([ns, numpy.array(ns)])
            arr[sel] = what
            mon.events["op:multi-assign"] += 1
            have = which[2] = dict(have)
            for x, new in zip(ns, news):
                have[x] = new
        elif k == "delete":
            if not isbase or len(have) < 2:
                continue
            ns = rng.sample(list(have), rng.randint(1, min(2, len(have) - 1)))
            steps.append("del %r" % (ns,))
            mon.say(steps=steps)
            if len(ns) == 1 and rng.random() < 0.7:
                del arr[ns[0]]
            else:
                del arr[ns]
            mon.events["op:delete"] += 1
            have = which[2] = dict((x, c) for x, c in have.items() if x not in ns)
        elif k == "refuse":
            if not isbase:
                mon.raises("assigning to a view", lambda: arr.__setitem__("x", numpy.arange(n)))
                if have:
                    mon.raises("deleting from a view", lambda: arr.__delitem__(rng.choice(list(have))))
            if have:
                mon.raises("unknown column", lambda: arr["nothing"], arr)
                mon.raises("unknown columns", lambda: arr[[list(have)[0], "nothing"]], arr)
            if have and isbase:
                mon.raises("deleting an unknown column", lambda: arr.__delitem__("nothing"), kinds=(KeyError, ValueError))
                mon.raises("deleting unknown columns", lambda: arr.__delitem__(["nothing", list(have)[0]]), kinds=(KeyError, ValueError))
                spare = arr.copy()
                try:
                    del spare[[list(have)[0], "nothing"]]
                except (KeyError, ValueError):
                    pass
                else:
                    mon.check(False, "deleting columns, one of which is unknown, is not refused")
        elif k == "column":
            pass
        # all views show what they should
        for arr, rows, have, isbase in (alive if rng.random() < 0.3 else [rng.choice(alive)]):
            judge(mon, arr, rows, have, start, isbase)
    for arr, rows, have, isbase in alive:
        judge(mon, arr, rows, have, start, isbase)


def judge(mon, arr, rows, have, start, isbase):
    rng = mon.rng
    mon.check(set(arr.columns) == set(have) and len(arr.columns) == len(have), lambda: "columns are %r" % arr.columns)
    mon.check(arr.columns == list(have), lambda: "columns are in the order %r instead of %r" % (arr.columns, list(have)))
    if not have:
        return
    mon.check(len(arr) == len(rows), lambda: "length %d" % len(arr))
    k = rng.randrange(6)
    names = list(have)
    if k == 0:
        mon.eq(mon.call("tolist", lambda: arr.tolist(), arr), [dict((x, have[x][i]) for x in names) for i in rows], "tolist")
    elif k == 1:
        x = rng.choice(names)
        mon.eq(mon.call("column", lambda: arr[x], arr), [have[x][i] for i in rows], "column " + x)
    elif k == 2 and rows:
        i = rng.randrange(-len(rows), len(rows))
        onerow(mon, arr[i], rows[i], have, start)
        if isbase or True:
            mon.check(arr[i] == arr[i], "a row equals itself")
    elif k == 3:
        got = list(arr)
        mon.check(len(got) == len(rows), "iteration length")
        for r, i in zip(got, rows):
            if rng.random() < 0.3:
                onerow(mon, r, i, have, start)
    elif k == 4:
        x = rng.choice(names)
        w = random_where(rng, len(rows))
        want = [have[x][i] for i in take(rows, w)]
        mon.eq(mon.call("column of selected rows", lambda: arr[w][x], arr), want, "arr[w][x]")
        mon.eq(mon.call("selected rows of column", lambda: arr[x][w], arr), want, "arr[x][w]")
    else:
        w = random_where(rng, len(rows))
        ns = rng.sample(names, rng.randint(1, len(names)))
        want = [dict((x, have[x][i]) for x in ns) for i in take(rows, w)]
        mon.eq(mon.call("columns of selected rows", lambda: arr[w][ns], arr), want, "arr[w][names]")
        mon.eq(mon.call("selected rows of columns", lambda: arr[ns][w], arr), want, "arr[names][w]")


def onerow(mon, r, i, have, start):
    """everything that a Row reports, i: its position in the original Table"""
    rng = mon.rng
    names = list(have)
    want = dict((x, have[x][i]) for x in names)
    mon.check(isinstance(r, awkward0.Table.Row), "a row")
    mon.eq(r.tolist(), want, "row.tolist()")
    x = rng.choice(names)
    mon.eq([tolist(r[x])], [want[x]], "row[%r]" % x)
    if x in ("x", "y", "z", "w"):
        mon.eq([tolist(getattr(r, x))], [want[x]], "row.%s" % x)
    mon.check(x in r and "nothing" not in r, "in")
    mon.check(r.columns == names, "columns of a row")
    mon.check(len(r) == len(names), "length of a row")
    mon.check(list(r) == names, "iteration over a row")
    mon.check(repr(r) == "<Row %d>" % (i + (start or 0)), lambda: "row %d is called %r" % (i + (start or 0), r))
    ns = rng.sample(names, rng.randint(1, len(names)))
    mon.eq(mon.call("columns of a row", lambda: r[ns]).tolist(), dict((n, want[n]) for n in ns), "row[names]")
    mon.raises("unknown column of a row", lambda: r["nothing"])
    mon.raises("unknown columns of a row", lambda: r[["nothing"]])
    mon.raises("unknown attribute of a row", lambda: r.nothing, kinds=(AttributeError,))


# ------------------------------------------------------------------ nested columns

def nest(g, rec, depth=2):
    """a type with records somewhere in it, and columns reachable by name"""
    rng = g.rng
    k = rng.choice(["list", "opt", "uni", "stop"]) if depth else "stop"
    if k == "list":
        return Lst(nest(g, rec, depth - 1))
    if k == "opt":
        t = nest(g, rec, depth - 1)
        return t if isinstance(t, Opt) else Opt(t)
    if k == "uni":
        t = rec()
        t = Rec([(n, leaf(g, 0, False)) for n, _ in t.fields])
        more = [Rec([(n, leaf(g, 0, False)) for n, _ in t.fields]) for _ in range(rng.randint(0, 2))]
        return Uni([t] + more)
    return rec()


def recs(t):
    if isinstance(t, Rec):
        return [t]
    if isinstance(t, (Lst, Opt)):
        return recs(t.of)
    return recs(t.of[0])


def hasuni(t):
    return isinstance(t, Uni) or (isinstance(t, (Lst, Opt)) and hasuni(t.of))


def emptied(v):
    """unions can't be empty: what stands for them is an array of their first alternative"""
    if isinstance(v, U):
        return False
    if isinstance(v, list):
        return len(v) == 0 or any(emptied(x) for x in v)
    return v is None


@SUITE.scenario(1500, 15000)
def listed(mon):
    """the columns of a union are those of any of its possibilities; rows that have a column show it"""
    rng = mon.rng
    g = gg(mon, fillunion=True, longcols=False, wrap=set(["indexed", "virtual"]))
    recs = [Rec([(n, rng.choice([Prim("int64"), Prim("float64"), Str()])) for n in rng.sample(["x", "y", "z", "w"], rng.randint(1, 3))]) for _ in range(rng.randint(2, 3))]
    t = Uni(recs)
    vals = [t.gen(g) for _ in range(rng.randint(1, 6))]
    if set(v.tag for v in vals) != set(range(len(recs))):
        vals = vals + [U(k, r.gen(g)) for k, r in enumerate(recs)]
    a = encode(t, vals, g)
    rows = [v.value for v in vals]
    names = sorted(set(n for r in recs for n, _ in r.fields))
    if rng.random() < 0.5:
        cuts = sorted(rng.randint(0, len(vals)) for _ in range(2))
        a = awkward0.JaggedArray.fromoffsets([0] + cuts + [len(vals)], a)
    else:
        cuts = None
    mon.say(types=[r.sig() for r in recs], vals=V.plain(vals), cuts=cuts)
    mon.check(sorted(mon.call("columns", lambda: a.columns, a)) == names, lambda: "columns are %r instead of %r" % (a.columns, names))
    known = mon.call("dir", lambda: dir(a), a)
    mon.check(all(n in known for n in names), lambda: "not listed: %r" % [n for n in names if n not in known])
    flat = a if cuts is None else a.content
    for i, v in enumerate(rows):
        r = flat[i]
        mon.check(sorted(r.columns) == sorted(v), lambda: "row %d has columns %r" % (i, r.columns))
    common = [n for n in names if all(n in dict(r.fields) for r in recs)]
    for n in names:
        if n in common:
            want = [v[n] for v in rows]
            if cuts is not None:
                want = [want[i:j] for i, j in zip([0] + cuts, cuts + [len(rows)])]
            mon.eq(mon.call("common column", lambda: a[n], a), want, "a[%r]" % n, exact=False)
        else:
            mon.raises("column of some", lambda: a[n], a)
    mon.raises("no column", lambda: a["nothing"], a)


@SUITE.scenario(6000, 80000)
def nested(mon):
    """columns are selected through any structure, before or after rows"""
    rng = mon.rng
    g = gg(mon, fillunion=True, longcols=False)
    names = rng.sample(["x", "y", "z", "w", u"\u03b1"], rng.randint(1, 3))
    t = nest(g, lambda: Rec([(n, leaf(g)) for n in names]))
    vals = [t.gen(g) for _ in range(many(rng, 1, 2, 4, 8))]
    if hasuni(t):
        g.wrap -= set(["chunked"])       # what is left of a union in a chunk may have another type than in other chunks
    a = encode(t, vals, g)
    exact = not hasuni(t)
    mon.say(type=t.sig(), vals=V.plain(vals))
    mon.check(a.columns == names, lambda: "columns are %r" % a.columns)
    n = rng.choice(names)
    want = [pick(v, n) for v in vals]
    mon.eq(mon.call("a[name]", lambda: a[n], a), want, "a[%r]" % n, exact=exact)
    if n in "xyzw":
        mon.eq(mon.call("a.name", lambda: getattr(a, n), a), want, "a.%s" % n, exact=exact)
    ns = rng.sample(names, rng.randint(1, len(names)))
    b = mon.call("a[names]", lambda: a[ns], a)
    mon.eq(b, [some(v, ns) for v in vals], "a[%r]" % ns, exact=exact)
    mon.check(b.columns == ns, lambda: "selected columns are %r" % b.columns)
    mon.eq(mon.call("a[names][name]", lambda: b[ns[0]], a), [pick(v, ns[0]) for v in vals], "a[names][name]", exact=exact)
    w = random_where(rng, len(vals))
    wv = take(want, w)
    if not (hasuni(t) and len(wv) == 0):
        mon.eq(mon.call("a[w][name]", lambda: a[w][n], a), wv, "a[w][name]", exact=exact)
        mon.eq(mon.call("a[name][w]", lambda: a[n][w], a), wv, "a[name][w]", exact=exact)
        w2 = random_where(rng, len(wv))
        wv2 = take(wv, w2)
        if not (hasuni(t) and len(wv2) == 0):
            mon.eq(mon.call("a[w][w2][name]", lambda: a[w][w2][n], a), wv2, "a[w][w2][name]", exact=exact)
            mon.eq(mon.call("a[w][name][w2]", lambda: a[w][n][w2], a), wv2, "a[w][name][w2]", exact=exact)
    if vals:
        i = rng.randrange(-len(vals), len(vals))
        e = a[i]
        v = vals[i]
        while isinstance(v, U):
            v = v.value
        mon.eq([tolist(a[n][i])], [pick(v, n)], "a[name][i]", exact=exact)
        if isinstance(v, list):
            if not (hasuni(t) and len(v) == 0) and (len(v) or isinstance(e, A)):
                mon.eq([tolist(e[n])], [pick(v, n)], "a[i][name]", exact=exact)
                if v:
                    j = rng.randrange(-len(v), len(v))
                    u = v[j]
                    mon.eq([tolist(a[n][i][j])], [pick(u, n)], "a[name][i][j]", exact=exact)
                    mon.eq([tolist(e[n][j])], [pick(u, n)], "a[i][name][j]", exact=exact)
                    if u is not None:
                        mon.eq([tolist(e[j][n])], [pick(u, n)], "a[i][j][name]", exact=exact)
        elif v is not None:
            mon.check(isinstance(e, awkward0.Table.Row), "a row")
            mon.eq([tolist(e[n])], [pick(v, n)], "a[i][name]", exact=exact)
            mon.eq(e.tolist(), v, "a[i]", exact=exact)
    mon.raises("unknown column", lambda: a["nothing"], a)
    mon.raises("unknown attribute", lambda: a.nothing, a, kinds=(AttributeError,))


@SUITE.scenario(2000, 20000)
def tables_in_tables(mon):
    """a column that is a Table has columns"""
    rng = mon.rng
    g = gg(mon, longcols=False)
    inner = Rec([(n, leaf(g)) for n in rng.sample("xyz", rng.randint(1, 3))])
    mid = nest(g, lambda: inner, 1) if rng.random() < 0.5 else inner
    outer = Rec([("p", mid), ("x", leaf(g))])
    vals = [outer.gen(g) for _ in range(many(rng, 0, 1, 3, 6))]
    if hasuni(mid) and not vals:
        raise Skip()
    if hasuni(mid):
        g.wrap -= set(["chunked"])
    a = encode(outer, vals, g)
    mon.say(type=outer.sig(), vals=V.plain(vals))
    n = rng.choice(inner.fields)[0]
    want = [pick(v["p"], n) for v in vals]
    exact = not hasuni(mid)
    mon.eq(mon.call("a[p][x]", lambda: a["p"][n], a), want, "a['p'][name]", exact=exact)
    mon.eq(mon.call("a.p.x", lambda: getattr(a.p, n), a), want, "a.p.name", exact=exact)
    mon.eq(mon.call("a[x]", lambda: a["x"], a), [v["x"] for v in vals], "a['x']")
    w = random_where(rng, len(vals))
    if not (hasuni(mid) and len(take(vals, w)) == 0):
        mon.eq(mon.call("a[w][p][x]", lambda: a[w]["p"][n], a), take(want, w), "a[w]['p'][name]", exact=exact)
        mon.eq(mon.call("a[p][w][x]", lambda: a["p"][w][n], a), take(want, w), "a['p'][w][name]", exact=exact)
        mon.eq(mon.call("a[p][x][w]", lambda: a["p"][n][w], a), take(want, w), "a['p'][name][w]", exact=exact)
    if vals and isinstance(mid, Rec):
        i = rng.randrange(len(vals))
        mon.eq([tolist(a[i]["p"][n])], [want[i]], "a[i]['p'][name]")
        mon.eq([tolist(getattr(a[i].p, n))], [want[i]], "a[i].p.name")


@SUITE.scenario(2000, 20000)
def tuples(mon):
    """tables without column names are tuples, in the order of their fields"""
    rng = mon.rng
    g = gg(mon)
    m = rng.choice([1, 2, 3, 10, 12])
    t = Rec([(str(i), leaf(g, 0)) for i in range(m)], istuple=True)
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 3, 6))]
    cols = [[v[i] for v in vals] for i in range(m)]
    enc = [encode(ct, c, g) for (_, ct), c in zip(t.fields, cols)]
    a = awkward0.Table(*enc)
    rows = list(range(len(vals)))
    for _ in range(rng.randint(0, 2)):
        w = random_where(rng, len(rows))
        a, rows = a[w], take(rows, w)
    vals = [vals[i] for i in rows]
    mon.say(type=t.sig(), vals=V.plain(vals))
    mon.check(a.istuple and a.rowname == "tuple", "it is a tuple")
    mon.eq(mon.call("tolist", lambda: a.tolist(), a), vals, "tolist")
    k = rng.randrange(m)
    mon.eq(a[str(k)], [v[k] for v in vals], "column")
    if k < 10:
        mon.eq(getattr(a, "i%d" % k), [v[k] for v in vals], "a.i%d" % k)
    for r, v in zip(a, vals):
        mon.check(len(r) == m, "length of a row")
        mon.eq([tolist(x) for x in r], list(v), "iteration over a row")
        mon.eq([tolist(r[str(k)])], [v[k]], "row[%d]" % k)
        if k < 10:
            mon.eq([tolist(getattr(r, "i%d" % k))], [v[k]], "row.i%d" % k)
        mon.eq([r.tolist()], [v], "row.tolist")
    un = mon.call("unzip", lambda: a.unzip(), a)
    mon.eq([tolist(x) for x in un], [[v[i] for v in vals] for i in range(m)], "unzip")


@SUITE.scenario(2000, 20000)
def constructors(mon):
    """every way of making a Table from the same columns"""
    rng = mon.rng
    g = gg(mon)
    names = rng.sample("xyzw", rng.randint(1, 4))
    t = Rec([(n, leaf(g)) for n in names])
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 3, 6))]
    cols = [(n, encode(ct, [v[n] for v in vals], g)) for n, ct in t.fields]
    mon.say(type=t.sig(), vals=V.plain(vals))
    inputs = [c for _, c in cols]
    k = rng.randrange(9)
    T = awkward0.Table
    row = "Row"
    if k == 0:
        a = mon.call("Table(dict)", lambda: T(dict(cols)), *inputs)
    elif k == 1:
        a = mon.call("Table(**columns)", lambda: T(**dict(cols)), *inputs)
    elif k == 2:
        cut = rng.randint(0, len(cols))
        a = mon.call("Table(dict, **columns)", lambda: T(dict(cols[:cut]), **dict(cols[cut:])), *inputs)
        if cut and len(cols) > cut:
            mon.raises("repeated column", lambda: T(dict(cols[:cut]), **dict(cols[:1])), *inputs)
    elif k == 3:
        start = rng.choice([0, 3])
        a = mon.call("frompairs", lambda: T.frompairs(cols, start), *inputs)
        if vals:
            mon.check(repr(a[0]) == "<Row %d>" % start, "rowstart")
    elif k == 4:
        row = rng.choice(["Point", "event"])
        a = mon.call("named", lambda: T.named(row, dict(cols)), *inputs)
    elif k == 5:
        a = T()
        for n, c in cols:
            a[n] = c
    elif k == 6:
        rec = Rec([(n, Prim(rng.choice(["int64", "float64", "bool", "int8"]))) for n in names])
        vals = [rec.gen(g) for _ in range(len(vals))]
        arr = numpy.zeros(len(vals), dtype=[(n, ct.dtype) for n, ct in rec.fields])
        for n in names:
            arr[n] = [v[n] for v in vals]
        a = mon.call("fromrec", lambda: T.fromrec(arr), arr)
    elif k == 7:
        a = T(**dict(cols))
        other = T(**dict(cols))
        other.contents = dict(cols)
        a = other
    else:
        junkrow = [[v[n] for v in junk(t, 2, g)] for n in names]
        b = T.frompairs([(n, encode(ct, j[:1] + [v[n] for v in vals] + j[1:], g)) for (n, ct), j in zip(t.fields, junkrow)])
        if rng.random() < 0.5:
            a = mon.call("fromview slice", lambda: T.fromview((1, 1, len(vals)), b), b)
        else:
            a = mon.call("fromview index", lambda: T.fromview(numpy.arange(1, 1 + len(vals)), b), b)
        mon.check(a.base is b, "base")
    mon.check(set(a.columns) == set(names), "columns")
    mon.check(len(a) == len(vals), "length")
    mon.check(a.rowname == row, "rowname")
    mon.eq(a.tolist(), vals, "tolist")
    if vals and k != 3:
        off = 1 if k == 8 else 0
        mon.check(repr(a[-1]) == "<%s %d>" % (row, len(vals) - 1 + off), lambda: "repr of a row is %r" % a[-1])


@SUITE.scenario(1500, 15000)
def columns_of_different_length(mon):
    """the length of a table is that of its shortest column, and longer columns are cut to it"""
    rng = mon.rng
    g = gg(mon, longcols=False)
    names = rng.sample("xyzw", rng.randint(2, 4))
    cols, enc = {}, {}
    for n in names:
        ct = leaf(g)
        cols[n] = [ct.gen(g) for _ in range(rng.randint(0, 6))]
        enc[n] = encode(ct, cols[n], g, depth=9 if rng.random() < 0.8 else 0)
    a = awkward0.Table.frompairs(list(enc.items()))
    n = min(len(c) for c in cols.values())
    mon.say(cols=dict((k, V.plain(v)) for k, v in cols.items()))
    mon.check(len(a) == n, "length")
    mon.eq(a.tolist(), [dict((k, c[i]) for k, c in cols.items()) for i in range(n)], "tolist")
    x = rng.choice(names)
    w = random_where(rng, n)
    mon.eq(mon.call("rows then column", lambda: a[w][x], a), take(cols[x][:n], w), "a[w][x]")
    got = mon.call("column", lambda: a[x], a)
    if len(tolist(got)) == n:            # columns that are not materialized are not cut
        mon.eq(mon.call("column then rows", lambda: a[x][w], a), take(cols[x][:n], w), "a[x][w]")
    if not isinstance(enc[x], (awkward0.VirtualArray, awkward0.ChunkedArray)) and "virtual" not in g.sig and not any("Virtual" in s or "Chunked" in s for s in g.sig):
        mon.eq(got, cols[x][:n], "a[x]")
    ns = rng.sample(names, rng.randint(1, len(names)))
    m = min(len(cols[k]) for k in ns)
    mon.eq(mon.call("columns", lambda: a[ns], a), [dict((k, cols[k][i]) for k in ns) for i in range(m)], "a[names]")
    mon.raises("beyond the shortest column", lambda: a[n], a, kinds=(IndexError,))
    mon.raises("before the shortest column", lambda: a[-n - 1], a, kinds=(IndexError,))


# ------------------------------------------------------------------ assigning through wrappers

def parallel(t, v, nt, g, missing):
    """values of a new column for every record in v; missing says what to put where records are missing"""
    if isinstance(t, Lst):
        return [parallel(t.of, x, nt, g, missing) for x in v]
    if isinstance(t, Opt):
        if v is None:
            return None if missing or isinstance(t.of, Lst) else nt.gen(g)
        return parallel(t.of, v, nt, g, missing)
    return nt.gen(g)


def paratype(t, nt, missing):
    if isinstance(t, Lst):
        return Lst(paratype(t.of, nt, missing))
    if isinstance(t, Opt):
        of = paratype(t.of, nt, missing)
        if missing or isinstance(t.of, Lst):
            return Opt(of)
        return of
    return nt


@SUITE.scenario(6000, 80000)
def assign(mon):
    """columns are assigned and deleted through lists, masks, unions and other wrappers"""
    rng = mon.rng
    wrap = rng.choice(["indexed", "indexed", "virtual"])
    g = gg(mon, tableviews=False, longcols=False, wrap=set([wrap]), pwrap=rng.choice([0.0, 0.2, 0.5]), shareindexed=False,
           jagged=("offsets", "counts", "startsstops", "longstops", "lead") if wrap == "indexed" else ("offsets",), masks=("bool", "bit", "indexed") if wrap == "indexed" else ("bool", "bit"))
    g.wrapskip, g.longmask = (Prim, Str, Byt, Obj, Reg), False
    names = rng.sample(["x", "y", "z"], rng.randint(1, 3))
    t = nest(g, lambda: Rec([(n, leaf(g, 0)) for n in names]), 2 if wrap == "indexed" else 0)
    for _ in range(0 if hasuni(t) or rng.random() < 0.8 else 1):
        t = Lst(t)
    vals = [t.gen(g) for _ in range(many(rng, 1, 2, 4, 8))]
    if hasuni(t) and any(emptied(v) for v in vals):
        raise Skip()
    a = encode(t, vals, g)
    mon.say(type=t.sig(), vals=V.plain(vals), layout_=repr(g.sig))
    now = V.plain(vals)
    exact = not hasuni(t)
    steps = []
    snap = a["x"] if "x" in names and not hasuni(t) else None
    before = None if snap is None else tolist(snap)
    for _ in range(rng.randint(1, 4)):
        have = set(a.columns)
        k = rng.choice(["assign", "assign", "delete", "multi", "broadcast", "refuse"])
        g2 = gg(mon, tableviews=True, longcols=False, wrap=set(["indexed"]), fillunion=True)
        if k == "assign":
            name = rng.choice(["x", "y", "z", "new", "a b"])
            nt = leaf(g2, rng.choice([0, 0, 1]))
            missing = rng.random() < 0.5
            new = [parallel(t, v, nt, g2, missing) for v in now]
            pt = paratype(t, nt, missing)
            what = encode(pt, new, g2)
            steps.append("assign %s %s %s" % (name, pt.sig(), g2.sig))
            mon.say(steps=steps)
            mon.call("assign", lambda: a.__setitem__(name, what), what)
            now = [merged(v, name, y) for v, y in zip(now, new)]
        elif k == "multi":
            ns = rng.sample(["x", "y", "z", "new", "more"], rng.randint(1, 3))
            nts = [leaf(g2, 0) for _ in ns]
            both = Rec([("q%d" % i, nt) for i, nt in enumerate(nts)])
            new = [parallel(t, v, both, g2, True) for v in now]
            what = encode(paratype(t, both, True), new, g2)
            steps.append("multi %s" % ns)
            mon.say(steps=steps)
            mon.call("assign many", lambda: a.__setitem__(ns, what), what)
            for i, n in enumerate(ns):
                now = [merged(v, n, pick(y, "q%d" % i)) for v, y in zip(now, new)]
        elif k == "broadcast":
            if not (isinstance(t, Lst) and isinstance(t.of, Rec)):
                continue
            # one value for every list
            nt = Prim(rng.choice(["int64", "float64", "bool"]))
            flat = [nt.gen(g2) for _ in vals]
            what = encode(nt, flat, g2)
            steps.append("broadcast")
            mon.say(steps=steps)
            mon.call("assign one per list", lambda: a.__setitem__("new", what), what)
            now = [merged(v, "new", [y] * len(v)) for v, y in zip(now, flat)]
        elif k == "delete":
            if len(have) < 2:
                continue
            ns = rng.sample(sorted(have), rng.randint(1, min(2, len(have) - 1)))
            steps.append("del %s" % ns)
            mon.say(steps=steps)
            if len(ns) == 1 and rng.random() < 0.7:
                del a[ns[0]]
            else:
                del a[ns]
            mon.events["op:delete"] += 1
            now = [without(v, ns) for v in now]
        else:
            # a different structure is refused and leaves the array as it was
            if isinstance(t, Lst) and len(vals) and not isinstance(a, awkward0.VirtualArray):
                new = [parallel(t, v, Prim("int64"), g2, True) for v in now]
                i = rng.randrange(len(new))
                new[i] = new[i] + [new[i][-1] if new[i] else parallel(t.of, V.plain(t.of.gen(g)), Prim("int64"), g2, True)]
                if hasuni(t) or isinstance(t.of, Opt):
                    continue
                what = encode(paratype(t, Prim("int64"), True), new, g2)
                steps.append("refuse")
                mon.say(steps=steps)
                mon.raises("assigning other lists", lambda: a.__setitem__("new", what), what)
            else:
                mon.raises("assigning to rows", lambda: a.__setitem__(0, numpy.arange(len(vals))))
                mon.raises("assigning to rows", lambda: a.__setitem__(slice(None), numpy.arange(len(vals))))
        mon.eq(a, now, "after the assignment", exact=exact)
        if any(v not in (None, []) for v in now):
            n = rng.choice(a.columns)
            mon.eq(mon.call("column", lambda: a[n], a), [pick(v, n) for v in now], "column " + n, exact=exact)
        w = random_where(rng, len(now))
        if not hasuni(t):
            mon.eq(mon.call("rows", lambda: a[w], a), take(now, w), "rows after the assignment")
        if snap is not None:
            mon.eq(snap, before, "a column taken before the assignment", exact=exact)


@SUITE.scenario(1500, 15000)
def chunks(mon):
    """columns of tables in chunks"""
    rng = mon.rng
    g = gg(mon, tableviews=False, longcols=False, wrap=set(["indexed"]), shareindexed=False, jagged=("offsets", "counts", "startsstops", "lead"))
    g.wrapskip, g.longmask = (Prim, Str, Byt, Obj, Reg), False
    names = rng.sample(["x", "y", "z"], rng.randint(1, 3))
    rec = Rec([(n, leaf(g, 0)) for n in names])
    t = rng.choice([rec, Lst(rec), Opt(rec)])
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 4, 8))]
    parts = split(len(vals), g)
    sizes = [j - i for i, j in parts]
    a = awkward0.ChunkedArray([encode(t, vals[i:j], g) for i, j in parts], sizes if rng.random() < 0.5 else [])
    now = list(vals)
    mon.say(type=t.sig(), vals=V.plain(vals), sizes=sizes)
    if rng.random() < 0.5:
        a.type
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["assign", "assign", "multi", "delete", "refuse"])
        nt = leaf(g, 0)
        if k == "assign":
            name = rng.choice(["x", "y", "z", "new"])
            new = [parallel(t, v, nt, g, True) for v in now]
            pt = paratype(t, nt, True)
            what = awkward0.ChunkedArray([encode(pt, new[i:j], g) for i, j in parts], sizes if rng.random() < 0.5 else [])
            mon.call("assign", lambda: a.__setitem__(name, what), what)
            now = [merged(v, name, y) for v, y in zip(now, new)]
        elif k == "multi":
            both = Rec([("q0", nt), ("q1", leaf(g, 0))])
            new = [parallel(t, v, both, g, True) for v in now]
            pt = paratype(t, both, True)
            what = awkward0.ChunkedArray([encode(pt, new[i:j], g) for i, j in parts])
            mon.call("assign many", lambda: a.__setitem__(["new", "x"], what), what)
            now = [merged(merged(v, "new", pick(y, "q0")), "x", pick(y, "q1")) for v, y in zip(now, new)]
        elif k == "delete":
            if len(a.columns) < 2:
                continue
            n = rng.choice(a.columns)
            mon.call("delete", lambda: a.__delitem__(n if rng.random() < 0.5 else [n]))
            now = [without(v, [n]) for v in now]
        else:
            if len(vals) and len(parts) > 1:
                mon.raises("assigning different chunks", lambda: a.__setitem__("new", awkward0.ChunkedArray([numpy.arange(len(vals))])))
        mon.eq(a, now, "after the assignment")
        if any(v not in (None, []) for v in now):
            n = rng.choice(a.columns)
            mon.eq(a[n], [pick(v, n) for v in now], "column " + n)
        if vals:
            mon.check(a.type.to == awkward0.ChunkedArray([c for c in a.chunks]).type.to, "the type includes the new column")


@SUITE.scenario(1500, 15000)
def virtual(mon):
    """assignments and deletions in virtual arrays outlive the cache"""
    rng = mon.rng
    g = gg(mon, tableviews=False, longcols=False, wrap=set(["indexed"]), shareindexed=False, jagged=("offsets", "counts", "startsstops", "lead"))
    g.wrapskip, g.longmask = (Prim, Str, Byt, Obj, Reg), False
    names = rng.sample(["x", "y", "z"], rng.randint(1, 3))
    rec = Rec([(n, leaf(g, 0)) for n in names])
    t = rng.choice([rec, Lst(rec)])
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 4))]
    mk = mon.rng.randrange(1 << 30)

    def generate():
        import random
        return encode(t, vals, G(random.Random(mk), **dict((k, v) for k, v in g.__dict__.items() if k not in ("rng", "sig"))), depth=9)

    cache = {}
    tpe = generate().type if rng.random() < 0.5 else None
    a = awkward0.VirtualArray(generate, cache=cache, type=tpe)
    now = list(vals)
    mon.say(type=t.sig(), vals=V.plain(vals), declared=tpe is not None)
    steps = []
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(["assign", "assign", "multi", "delete", "evict"])
        nt = leaf(g, 0)
        cols = a.columns
        if k == "assign":
            name = rng.choice(["x", "y", "z", "new"])
            new = [parallel(t, v, nt, g, True) for v in now]
            what = encode(paratype(t, nt, True), new, g)
            mon.call("assign", lambda: a.__setitem__(name, what), what)
            now = [merged(v, name, y) for v, y in zip(now, new)]
            steps.append("assign " + name)
        elif k == "multi":
            both = Rec([("q0", nt), ("q1", leaf(g, 0))])
            new = [parallel(t, v, both, g, True) for v in now]
            what = encode(paratype(t, both, True), new, g)
            mon.call("assign many", lambda: a.__setitem__(["new", "x"], what), what)
            now = [merged(merged(v, "new", pick(y, "q0")), "x", pick(y, "q1")) for v, y in zip(now, new)]
            steps.append("multi new, x")
        elif k == "delete":
            if len(cols) < 2:
                continue
            n = rng.choice(cols)
            lots = rng.random() < 0.4
            mon.call("delete", lambda: a.__delitem__([n] if lots else n))
            now = [without(v, [n]) for v in now]
            steps.append("del %s %s" % (n, many))
        else:
            cache.clear()
            steps.append("evict")
        mon.say(steps=steps)
        mon.eq(a, now, "after the assignment")
        if rng.random() < 0.5:
            cache.clear()
            mon.eq(a, now, "after an eviction")
        if any(v not in (None, []) for v in now):
            n = rng.choice(a.columns)
            mon.eq(a[n], [pick(v, n) for v in now], "column " + n)
        if tpe is not None:
            mon.check(a.type == a.array.type, "the type includes the assignments")
