"""P06: every description of a jagged structure describes the same lists."""
import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *
from akmon.ops import *

SUITE = Suite("P06")
SUITE.needs = {"oracle": 10000}
J = awkward0.JaggedArray


def item(rng):
    return rng.choice([Prim("int64"), Prim("float64"), Prim("float64"), Prim("bool"), Rec([("x", Prim("int64")), ("y", Prim("float64"))]),
                       Str(), Opt(Prim("int64")), Reg("int64", [2]), Lst(Prim("float64")), Uni([Prim("int64"), Str()]), Obj()])


def lists(rng, g, t, n=None, empties=True):
    n = many(rng, 0, 1, 2, 3, 5, 8) if n is None else n
    pe = rng.choice([0.0, 0.2, 0.5, 0.9]) if empties else 0.0
    return [[] if rng.random() < pe else [t.gen(g) for _ in range(rng.randint(0 if empties else 1, g.maxlen))] for _ in range(n)]


def index(rng, g, values):
    """an index given as an array of any integer type, a view, or a Python list"""
    if rng.random() < 0.2 and len(values):
        return list(values)
    a = idx(values, g)
    if rng.random() < 0.2:
        big = numpy.full(2 * len(a) + 3, 7, dtype=a.dtype)
        big[1:1 + 2 * len(a):2] = a
        a = big[1:1 + 2 * len(a):2]
    elif rng.random() < 0.2:
        big = numpy.full(len(a) + 3, 7, dtype=a.dtype)
        big[2:2 + len(a)] = a
        a = big[2:2 + len(a)]
    return a


def gg(mon, **kw):
    rng = mon.rng
    opts = dict(unsigned=True, pwrap=rng.choice([0.0, 0.0, 0.3]), fillunion=True, longindex=False, maxlen=rng.choice([2, 4, 6]))
    opts.update(kw)
    return mon.G(**opts)


def describe(mon, g, t, vals):
    """(name, fn building the array): vals described in one of the ways"""
    rng = mon.rng
    flat = [x for v in vals for x in v]
    n = len(vals)
    kinds = ["offsets", "lead", "short starts", "short starts", "counts", "startsstops", "parents", "parents", "scattered parents", "set offsets", "set counts", "set parents", "set starts stops", "jagged"]
    if all(len(v) for v in vals):
        kinds += ["uniques", "localindex", "jagged localindex"] * 2
    if n and len(set(map(len, vals))) == 1 and len(vals[0]) and isinstance(t, Prim):
        kinds += ["regular"] * 4
    if n and len(vals[0]) and all(len(v) == len(vals[0]) for v in vals[:-1]) and 0 < len(vals[-1]) <= len(vals[0]):
        kinds += ["folding"] * 3
    kind = rng.choice(kinds)
    offsets = [0]
    for v in vals:
        offsets.append(offsets[-1] + len(v))
    tail = junk(t, rng.choice([0, 0, 1, 2]), g)
    lead = junk(t, rng.randint(1, 3), g)
    enc = lambda v: encode(t, v, g)
    parents = [i for i, v in enumerate(vals) for _ in v]

    def scattered():
        order = list(range(n))
        rng.shuffle(order)
        content, par = [], []
        for i in order:
            k = rng.choice([0, 0, 1, 2])
            content += junk(t, k, g)
            par += [rng.choice([-1, -1, -2]) for _ in range(k)]
            content += vals[i]
            par += [i] * len(vals[i])
        k = rng.choice([0, 1])
        return content + junk(t, k, g), par + [-1] * k

    def base():
        # an array to be given a new structure: its own is unrelated, but valid
        v = lists(rng, g, t)
        return v

    if kind == "offsets":
        o, c = index(rng, g, offsets), enc(flat + tail)
        return kind, lambda: J.fromoffsets(o, c), (o, c)
    if kind == "lead":
        o, c = index(rng, g, [x + len(lead) for x in offsets]), enc(lead + flat + tail)
        return kind, lambda: J.fromoffsets(o, c), (o, c)
    if kind == "counts":
        o, c = index(rng, g, [len(v) for v in vals]), enc(flat + tail)
        return kind, lambda: J.fromcounts(o, c), (o, c)
    if kind == "short starts":
        # starts and stops are views of the same offsets, but there are more stops than starts (the extra ones are ignored)
        more = [offsets[-1]]
        rest = []
        for _ in range(rng.randint(1, 3)):
            v = junk(t, rng.randint(0, 2), g)
            rest += v
            more.append(more[-1] + len(v))
        o, c = index(rng, g, offsets[:-1] + more), enc(flat + rest + tail)
        if not isinstance(o, numpy.ndarray):
            o = numpy.array(o)
        return kind, lambda: J(o[:n], o[1:], c), (o, c)
    if kind in ("startsstops", "jagged"):
        a = enc_Lst(Lst(t), vals, g, 0)
        if kind == "jagged":
            return kind, lambda: J.fromjagged(a), (a,)
        s, e, c = a.starts, a.stops, a.content
        return kind, lambda: J(s, e, c), (s, e, c)
    if kind in ("parents", "scattered parents"):
        content, par = (flat, parents) if kind == "parents" else scattered()
        top = max(par) + 1 if len(par) and max(par) >= 0 else 0
        p, c = index(rng, g, par), enc(content)
        if top == n and rng.random() < 0.5:
            return kind, lambda: J.fromparents(p, c), (p, c)
        return kind + " length", lambda: J.fromparents(p, c, length=n), (p, c)
    if kind == "uniques":
        keys = rng.sample(range(-9, 50), n) if n < 50 else rng.sample(range(-99, 900), n)
        u, c = index(rng, g, [k for k, v in zip(keys, vals) for _ in v]), enc(flat)
        if len(flat) == 0:
            raise Skip()
        return kind, lambda: J.fromuniques(u, c), (u, c)
    if kind in ("localindex", "jagged localindex"):
        li = [list(range(len(v))) for v in vals]
        x = enc_Lst(Lst(Prim("int64")), li, mon.G(pwrap=0.0), 0) if kind.startswith("jagged") else index(rng, g, [i for v in li for i in v])
        c = enc(flat)
        val = rng.random() < 0.5
        return kind, lambda: J.fromlocalindex(x, c, validate=val), (x, c)
    if kind == "regular":
        r = nparr(vals, t.dtype, g)
        return kind, lambda: J.fromregular(r), (r,)
    if kind == "folding":
        c = enc(flat)
        size = len(vals[0])
        return kind, lambda: J.fromfolding(c, size), (c,)
    # setters: start from another valid structure, read something, then describe anew
    other = lists(rng, g, t)
    a = enc_Lst(Lst(t), other, g, 0)
    for _ in range(rng.randint(0, 3)):
        rng.choice([lambda: a.counts, lambda: a.parents, lambda: a.tolist(), lambda: a.localindex, lambda: a.iscompact, lambda: len(a), lambda: a.valid()])()
    if kind == "set starts stops":
        b = enc_Lst(Lst(t), vals, g, 0)
        order = rng.sample(["starts", "stops", "content"], 3)

        def fn():
            for o in order:
                setattr(a, o, getattr(b, o))
            return a
        return kind, fn, (b,)
    if kind == "set parents":
        content, par = (flat, parents) if rng.random() < 0.5 else scattered()
        top = max(par) + 1 if len(par) and max(par) >= 0 else 0
        if top != n:
            raise Skip()
        x, attr = index(rng, g, par), "parents"
    elif kind == "set counts":
        x, attr, content = index(rng, g, [len(v) for v in vals]), "counts", flat + tail
    else:
        x, attr, content = index(rng, g, offsets), "offsets", flat + tail
    c = enc(content)
    first = rng.random() < 0.5

    def fn():
        if first:
            a.content = c
        setattr(a, attr, x)
        if not first:
            a.content = c
        return a
    return kind, fn, (x, c)


def readback(mon, a, vals, dense=None):
    """every description of the array that can be read from it describes vals"""
    rng = mon.rng
    n = len(vals)
    todo = ["counts", "offsets", "parents", "localindex", "starts", "flatten", "compact"]
    rng.shuffle(todo)
    for what in todo[:rng.randint(2, 7)]:
        if what == "counts":
            mon.eq(numpy.array(mon.call("counts", lambda: a.counts, a)), [len(v) for v in vals], "counts")
        elif what == "starts":
            s, e = a.starts, a.stops
            mon.check(len(s) == n and len(e) == n, "starts and stops of another length")
            mon.eq([tolist(a.content[s[i]:e[i]]) for i in range(n)], vals, "content[starts:stops]")
        elif what == "offsets":
            st, sp = a.starts, a.stops
            ok = n == 0 or bool((numpy.array(st[1:]) == numpy.array(sp[:-1])).all())
            if not ok:
                mon.raises("offsets of lists that are not adjacent", lambda: a.offsets, a, kinds=(ValueError,))
            else:
                o = mon.call("offsets", lambda: a.offsets, a)
                mon.check(len(o) == n + 1, lambda: "%d offsets for %d lists" % (len(o), n))
                mon.eq([tolist(a.content[o[i]:o[i + 1]]) for i in range(n)], vals, "content[offsets[i]:offsets[i+1]]")
        elif what == "parents":
            p = mon.call("parents", lambda: a.parents, a)
            s, e = list(map(int, a.starts)), list(map(int, a.stops))
            owners = {}
            for i in range(n):
                for j in range(s[i], e[i]):
                    owners.setdefault(j, []).append(i)
            mon.check(len(p) >= max([0] + [e[i] for i in range(n) if e[i] > s[i]]), "parents don't cover the lists")
            mon.check(len(p) <= len(a.content), "more parents than elements")
            for j in range(len(p)):
                if j in owners:
                    mon.check(int(p[j]) in owners[j], lambda: "parents[%d] is %d, but the element belongs to %r" % (j, p[j], owners[j]))
                else:
                    mon.check(int(p[j]) < 0, lambda: "parents[%d] is %d, but the element belongs to no list" % (j, p[j]))
        elif what == "localindex":
            li = mon.call("localindex", lambda: a.localindex, a)
            mon.eq(li, [list(range(len(v))) for v in vals], "localindex")
            mon.eq(mon.call("gather localindex", lambda: a[li], a), vals, "a[a.localindex]")
        elif what == "flatten":
            mon.eq(mon.call("flatten", lambda: a.flatten(), a), [x for v in vals for x in v], "flatten")
        elif what == "compact":
            b = mon.call("compact", lambda: a.compact(), a)
            mon.eq(b, vals, "compact")
            mon.check(bool(b.iscompact), "compact() is not compact")
            mon.eq(b.counts, [len(v) for v in vals], "compact().counts")
            o = b.offsets
            mon.check(len(o) == n + 1 and all(o[i + 1] - o[i] == len(v) for i, v in enumerate(vals)), "compact().offsets")
    mon.eq(a, vals, "afterwards")


@SUITE.scenario(5000, 60000)
def constructors(mon):
    g = gg(mon)
    rng = mon.rng
    t = item(rng)
    vals = lists(rng, g, t, empties=rng.random() < 0.6)
    if rng.random() < 0.3 and vals:
        k = rng.randint(1, 4)
        vals = [[t.gen(g) for _ in range(k)] for _ in vals]
        if rng.random() < 0.5:
            vals[-1] = vals[-1][:rng.randint(1, k)]
    kind, fn, ins = describe(mon, g, t, vals)
    mon.say(type=t.sig(), vals=plain(vals), kind=kind, inputs=[x for x in ins if not isinstance(x, awkward0.array.base.AwkwardArray)])
    a = mon.call(kind, fn, *ins)
    mon.check(len(a) == len(vals), lambda: "length %d, want %d" % (len(a), len(vals)))
    mon.eq(a, vals, kind)
    readback(mon, a, vals)


@SUITE.scenario(3000, 40000)
def views(mon):
    """arrays in any arrangement, after row selections"""
    g = gg(mon)
    rng = mon.rng
    t = item(rng)
    vals = lists(rng, g, t)
    a = enc_Lst(Lst(t), vals, g, 0)
    for _ in range(rng.choice([0, 1, 2])):
        w = random_where(rng, len(vals))
        a, vals = a[w], take(vals, w)
    mon.say(type=t.sig(), vals=plain(vals))
    readback(mon, a, vals)


@SUITE.scenario(2500, 30000)
def roundtrips(mon):
    """descriptions read from an array build the same array"""
    g = gg(mon)
    rng = mon.rng
    t = item(rng)
    empties = rng.random() < 0.6
    vals = lists(rng, g, t, empties=empties)
    a = enc_Lst(Lst(t), vals, g, 0)
    mon.say(type=t.sig(), vals=plain(vals))
    kind = rng.choice(["counts", "parents", "starts", "localindex", "uniques", "compact offsets", "helpers"])
    flat = a.flatten()
    if kind == "counts":
        mon.eq(mon.call(kind, lambda: J.fromcounts(a.counts, flat), a), vals)
    elif kind == "parents":
        s, e = list(map(int, a.starts)), list(map(int, a.stops))
        seen = set()
        for i in range(len(vals)):
            if seen & set(range(s[i], e[i])):
                raise Skip()
            seen |= set(range(s[i], e[i]))
        p = a.parents
        mon.eq(mon.call(kind, lambda: J.fromparents(p, a.content[:len(p)], length=len(a)), a), vals)
    elif kind == "starts":
        mon.eq(mon.call(kind, lambda: J(a.starts, a.stops, a.content), a), vals)
    elif kind in ("localindex", "uniques"):
        if not all(len(v) for v in vals) or len(vals) == 0:
            raise Skip()
        if kind == "localindex":
            mon.eq(mon.call(kind, lambda: J.fromlocalindex(a.localindex, flat), a), vals)
        else:
            mon.eq(mon.call(kind, lambda: J.fromuniques(J.fromcounts(a.counts, flat).parents, flat), a), vals)
    elif kind == "compact offsets":
        b = a.compact()
        mon.eq(mon.call(kind, lambda: J.fromoffsets(b.offsets, b.content), b), vals)
    else:
        c = [len(v) for v in vals]
        off = mon.call("counts2offsets", lambda: J.counts2offsets(idx(c, g)))
        want = [0]
        for x in c:
            want.append(want[-1] + x)
        mon.eq(off, want, "counts2offsets")
        lead = rng.choice([0, 0, 2])
        par = [-1] * lead + [i for i, x in enumerate(c) for _ in range(x)]
        mon.eq(mon.call("offsets2parents", lambda: J.offsets2parents(off + lead)), par, "offsets2parents")
        mon.eq(mon.call("startsstops2parents", lambda: J.startsstops2parents((off + lead)[:-1], (off + lead)[1:])), par if len(c) else [], "startsstops2parents")
        n = max([0] + [i + 1 for i, x in enumerate(c) if x])
        ln = rng.choice([None, len(c), n, n + 2, max(0, n - 1)])
        st, sp = mon.call("parents2startsstops", lambda: J.parents2startsstops(idx(par, g), length=ln))
        k = n if ln is None else ln
        mon.check(len(st) == k and len(sp) == k, lambda: "parents2startsstops made %d lists, want %d" % (len(st), k))
        cc = (c + [0] * k)[:k]
        mon.check([int(y - x) for x, y in zip(st, sp)] == cc, "parents2startsstops has wrong counts")
        mon.check(all(int(x) == lead + sum(c[:i]) for i, x in enumerate(st) if cc[i]), "parents2startsstops has wrong starts")
        u = [rng.choice([3, 3, 5, 7]) * 10 + i for i, x in enumerate(c) for _ in range(x)]
        if sum(c):
            nz = [x for x in c if x]
            o, p = mon.call("uniques2offsetsparents", lambda: J.uniques2offsetsparents(idx([i * 3 + 1 for i, x in enumerate(c) for _ in range(x)], g)))
            mon.eq(numpy.diff(o), nz, "uniques2offsetsparents offsets")
            mon.eq(p, [i for i, x in enumerate(nz) for _ in range(x)], "uniques2offsetsparents parents")


@SUITE.scenario(1000, 10000)
def refused(mon):
    """descriptions that don't describe anything"""
    g = gg(mon, pwrap=0.0)
    rng = mon.rng
    t = Prim("float64")
    vals = lists(rng, g, t, n=rng.choice([2, 3, 5]), empties=False)
    flat = encode(t, [x for v in vals for x in v], g)
    n = len(flat)
    kind = rng.choice(["counts negative", "offsets negative", "offsets empty", "parents length", "uniques length", "localindex length", "localindex jump", "localindex structure", "floats", "regular 1d", "ragged regular"])
    mon.say(vals=vals, kind=kind)
    li = [i for v in vals for i in range(len(v))]
    if kind == "counts negative":
        c = [len(v) for v in vals]
        c[rng.randrange(len(c))] = -rng.randint(1, 3)
        fn = lambda: J.fromcounts(c, flat)
    elif kind == "offsets negative":
        fn = lambda: J.fromoffsets([-1, 0, 1], flat).tolist()
    elif kind == "offsets empty":
        fn = lambda: J.fromoffsets(numpy.array([], dtype=int), flat).tolist()
    elif kind in ("parents length", "uniques length", "localindex length"):
        p = [i for i, v in enumerate(vals) for _ in v]
        p = p[:-1] if rng.random() < 0.5 else p + [p[-1]]
        f = {"parents length": J.fromparents, "uniques length": J.fromuniques, "localindex length": J.fromlocalindex}[kind]
        fn = lambda: f(p if not kind.startswith("local") else list(range(len(p))), flat)
    elif kind == "localindex jump":
        where = [i for i in range(1, len(li)) if li[i] != 0]
        if not where:
            raise Skip()
        li[rng.choice(where)] += rng.choice([1, 2, 5])
        fn = lambda: J.fromlocalindex(li, flat)
    elif kind == "localindex structure":
        i = rng.randrange(len(vals))
        c = [len(v) for v in vals]
        if c[i] < 2:
            raise Skip()
        c[i:i + 1] = [1, c[i] - 1]
        fn = lambda: J.fromlocalindex(J.fromcounts(c, li), flat)
    elif kind == "floats":
        f = rng.choice([J.fromcounts, J.fromoffsets, J.fromparents, J.fromuniques, J.fromlocalindex])
        fn = lambda: f(numpy.zeros(n), flat)
    elif kind == "regular 1d":
        fn = lambda: J.fromregular(flat)
    else:
        if len(set(map(len, vals))) == 1:
            vals[0].append(1.0)
        a = enc_Lst(Lst(t), vals, g, 0)
        fn = lambda: a.regular()
    mon.raises(kind, fn)


def regtype(rng, depth):
    t = Prim(rng.choice(["int64", "float64", "bool"])) if rng.random() < 0.7 else Reg("int64", [2])
    return t


@SUITE.scenario(2000, 25000)
def regular(mon):
    """lists of equal length become a Numpy array, and back"""
    g = gg(mon, wrap=set(["indexed", "chunked", "virtual"]), jagged=("offsets", "lead", "counts", "startsstops", "longstops", "shared"))
    rng = mon.rng
    t = regtype(rng, 0)
    depth = rng.choice([1, 1, 2])
    dims = [rng.randint(0, 3) for _ in range(depth)]
    n = rng.choice([1, 2, 3, 5])
    full = t
    for _ in range(depth):
        full = Lst(full)

    def mk(d):
        return [mk(d[1:]) for _ in range(d[0])] if d else t.gen(g)
    vals = [mk(dims) for _ in range(n)]
    a = enc_Lst(full, vals, g, 0)
    if rng.random() < 0.3:
        w = random_where(rng, n)
        a, vals = a[w], take(vals, w)
    mon.say(type=full.sig(), vals=vals)
    r = mon.call("regular", lambda: a.regular(), a)
    mon.check(isinstance(r, numpy.ndarray), "regular() is not a Numpy array")
    mon.eq(r, vals, "regular")
    if len(vals) and all(dims):
        want = (len(vals),) + tuple(dims) + (t.inner if isinstance(t, Reg) else ())
        mon.check(r.shape == want, lambda: "regular has shape %s, want %s" % (r.shape, want))
        b = mon.call("fromregular", lambda: J.fromregular(r), r)
        mon.eq(b, vals, "fromregular")
        mon.check(len(b.shape) == 1, "fromregular is not jagged")


@SUITE.scenario(1200, 15000)
def regular_records(mon):
    """records whose columns are regular (and lists of equal numbers of them) become a Numpy array of records"""
    rng = mon.rng
    g = gg(mon, wrap=set(["indexed", "chunked", "virtual"]), jagged=("offsets", "lead", "counts", "startsstops", "longstops", "shared"))
    names = rng.sample(["x", "y", "z", "b"], rng.randint(1, 3))
    dims = {k: rng.choice([None, None, 1, 2]) for k in names}
    prims = {k: Prim(rng.choice(["int64", "float64", "int8", "bool"])) for k in names}
    t = Rec([(k, prims[k] if dims[k] is None else Lst(prims[k])) for k in names])
    one = lambda: {k: prims[k].gen(g) if dims[k] is None else [prims[k].gen(g) for _ in range(dims[k])] for k in names}
    nested = rng.random() < 0.4
    n, m = rng.choice([1, 2, 3, 5]), rng.randint(1, 3)
    vals = [[one() for _ in range(m)] for _ in range(n)] if nested else [one() for _ in range(n)]
    a = encode(Lst(t) if nested else t, vals, g)
    if rng.random() < 0.3:
        w = random_where(rng, n, ("slice", "ints"))
        a, vals = a[w], take(vals, w)
        if not vals:
            raise Skip
    mon.say(type=t.sig(), vals=vals, nested=nested)
    r = mon.call("regular", lambda: a.regular(), a)
    mon.check(isinstance(r, numpy.ndarray) and r.shape == ((len(vals), m) if nested else (len(vals),)), lambda: "regular() is %r" % (r,))
    mon.check(sorted(r.dtype.names) == sorted(names), lambda: "names %r" % (r.dtype.names,))
    for k in names:
        mon.eq(r[k], [[x[k] for x in v] for v in vals] if nested else [v[k] for v in vals], "regular column " + k)


@SUITE.scenario(2000, 25000)
def flattening(mon):
    """flatten(axis) removes the boundaries of that level only"""
    g = gg(mon, wrap=set(["indexed", "chunked", "virtual"]))
    rng = mon.rng
    depth = rng.choice([2, 2, 3])
    t = rng.choice([Prim("int64"), Prim("float64"), Rec([("x", Prim("int64")), ("y", Prim("float64"))]), Opt(Prim("int64")), Reg("int64", [2])])
    full = t
    for _ in range(depth):
        full = Lst(full)
    vals = [full.gen(g) for _ in range(many(rng, 0, 1, 2, 3, 5))]
    a = enc_Lst(full, vals, g, 0)
    axis = rng.randint(0, depth - 1 + (1 if isinstance(t, Reg) else 0))

    def fl(v, d):
        return [x for y in v for x in y] if d == 0 else [fl(x, d - 1) for x in v]
    # v: list at level 0; axis k joins the lists at depth k
    want = [x for v in vals for x in v] if axis == 0 else [fl(v, axis - 1) for v in vals]
    mon.say(type=full.sig(), vals=plain(vals), axis=axis)
    got = mon.call("flatten axis", lambda: a.flatten(axis=axis), a)
    mon.eq(got, want, "flatten(axis=%d)" % axis)
    mon.raises("negative axis", lambda: a.flatten(axis=-1), a, kinds=(TypeError,))


@SUITE.scenario(3000, 40000)
def fixed_outside(mon):
    """fixed-size dimensions outside of the lists: starts and stops of more than one dimension"""
    rng = mon.rng
    g = gg(mon, pwrap=0.0)
    t = rng.choice([Prim("int64"), Prim("float64"), Rec([("x", Prim("int64"))]), Str(), Lst(Prim("int64"))])
    n = many(rng, 0, 1, 2, 3)
    dims = [rng.randint(1, 3)] + ([rng.randint(1, 2)] if rng.random() < 0.2 else [])

    def mk(d):
        return [mk(d[1:]) for _ in range(d[0])] if d else [t.gen(g) for _ in range(g.small_len())]
    vals = [mk(dims) for _ in range(n)]

    def fl(v, d):
        return [y for x in v for y in fl(x, d - 1)] if d else [v]
    rows = [r for v in vals for r in fl(v, len(dims))]
    shape = (n,) + tuple(dims)
    kind = rng.choice(["counts", "startsstops", "startsstops", "set counts"])
    mon.say(type=t.sig(), vals=plain(vals), kind=kind)
    if kind in ("counts", "set counts"):
        c = numpy.array([len(r) for r in rows], dtype="int64").reshape(shape)
        content = encode(t, [x for r in rows for x in r] + junk(t, rng.choice([0, 1]), g), g)
        if kind == "counts":
            a = mon.call("fromcounts fixed", lambda: J.fromcounts(c, content), c, content)
        else:
            a = J([0], [0], content)
            a.counts = c
    else:
        f = enc_Lst(Lst(t), rows, g, 0)
        a = J(f.starts.reshape(shape), f.stops.reshape(shape), f.content)
    mon.check(a.shape == shape, lambda: "shape %s, want %s" % (a.shape, shape))
    mon.eq(a, vals, "tolist")
    mon.check(len(a) == n, "length")
    nst = lambda f, v, d: [nst(f, x, d - 1) for x in v] if d else f(v)
    for what in rng.sample(["counts", "localindex", "flatten", "structure1d", "compact", "parents", "elements", "rows", "inner"], 4):
        if what == "counts":
            got = mon.call("counts fixed", lambda: a.counts, a)
            mon.check(got.shape == shape, "counts of another shape")
            mon.eq(got, nst(len, vals, 1 + len(dims)), "counts")
        elif what == "localindex":
            mon.eq(mon.call("localindex fixed", lambda: a.localindex, a), nst(lambda v: list(range(len(v))), vals, 1 + len(dims)), "localindex")
        elif what == "flatten":
            mon.eq(mon.call("flatten fixed", lambda: a.flatten(), a), [x for r in rows for x in r], "flatten")
        elif what == "structure1d":
            b = mon.call("structure1d", lambda: a.structure1d(), a)
            mon.eq(b, vals, "structure1d")
            mon.check(b.shape == (n,), lambda: "structure1d has shape %s" % (b.shape,))
            if t.sig() != Lst(Prim("int64")).sig():
                d, c = 0, b
                while isinstance(c, J):
                    mon.check(len(c.starts.shape) == 1, "structure1d left a fixed dimension")
                    d, c = d + 1, c.content
                mon.check(d == 1 + len(dims), lambda: "structure1d has %d list levels, want %d" % (d, 1 + len(dims)))
        elif what == "compact":
            b = mon.call("compact fixed", lambda: a.compact(), a)
            mon.eq(b, vals, "compact")
            mon.check(b.shape == shape and bool(b.iscompact), "compact is not compact")
        elif what == "parents":
            p = mon.call("parents fixed", lambda: a.parents, a)
            s, e = a.starts.reshape(-1), a.stops.reshape(-1)
            for i in range(len(s)):
                for j in range(s[i], e[i]):
                    k = int(p[j])
                    mon.check(0 <= k < len(s) and s[k] <= j < e[k], lambda: "parents[%d] is %d" % (j, k))
        elif what == "elements" and n:
            i = rng.randint(-n, n - 1)
            mon.eq(mon.call("element fixed", lambda: a[i], a), vals[i], "a[%d]" % i)
        elif what == "rows":
            w = random_where(rng, n)
            mon.eq(mon.call("rows fixed", lambda: a[w], a), take(vals, w), "rows")
        elif what == "inner" and n:
            j = rng.randint(-dims[0], dims[0] - 1)
            w = rng.choice([slice(None), slice(1, None), rng.randint(-n, n - 1)])
            want = [v[j] for v in vals[w]] if isinstance(w, slice) else vals[w][j]
            mon.eq(mon.call("inner fixed", lambda: a[w, j], a), want, "a[%s, %d]" % (w, j))
    mon.eq(a, vals, "afterwards")


@SUITE.scenario(800, 8000)
def restructure(mon):
    """structure1d keeps the value of nested lists, whatever they contain"""
    rng = mon.rng
    g = gg(mon, wrap=set(["indexed", "chunked", "virtual"]))
    t = random_type(g, 3, ("prim", "list", "list", "opt", "rec", "reg", "str"))
    t = Lst(t)
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, 3, 5))]
    a = enc_Lst(t, vals, g, 0)
    mon.say(type=t.sig(), vals=plain(vals))
    mon.eq(mon.call("structure1d", lambda: a.structure1d(), a), vals, "structure1d")


@SUITE.scenario(600, 6000)
def iterables(mon):
    rng = mon.rng
    g = mon.G(pwrap=0.0)
    t = Prim(rng.choice(["int64", "float64", "bool"]))
    full = t
    depth = rng.choice([1, 2, 3])
    for _ in range(depth):
        full = Lst(full)
    vals = [full.gen(g) for _ in range(many(rng, 0, 1, 2, 3, 5))]
    mon.say(vals=vals)
    exact = len(str(vals).strip("[], ")) > 0
    a = mon.call("fromiter", lambda: J.fromiter(vals), vals)
    mon.eq(a, vals, "fromiter", exact=exact)
