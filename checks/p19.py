"""P19: where a sequence is cut into chunks makes no difference.

The same values are made twice: in one piece, and cut into chunks of different
layouts (empty ones, unknown sizes and lazy ones included).  Whatever can be
done with the one piece gives the same answer for the chunks.
"""
import random

import numpy
import awkward0
from akmon.monitor import Suite, Violation, Skip, tolist, AwkwardArray
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V

SUITE = Suite("P19")
SUITE.needs = {"compared": 15000, "translated": 3000, "boundaries": 10000, "both refused": 20}


def chunked(mon, t, vals, g=None, **kw):
    """values cut into chunks, and where they were cut"""
    rng = mon.rng
    n = len(vals)
    kw.setdefault("pwrap", rng.choice([0.0, 0.0, 0.2]))
    kw.setdefault("wrap", set(["indexed", "chunked", "virtual"]))
    g = mon.G(emptychunks=True, **kw)
    k = rng.choice([1, 2, 2, 3, 4, 6])
    cuts = sorted(rng.randint(0, n) for _ in range(k - 1))
    edges = [0] + cuts + [n]
    parts = [vals[a:b] for a, b in zip(edges[:-1], edges[1:])]
    if rng.random() < 0.1:
        parts = [[]] + parts
    if rng.random() < 0.1:
        parts = parts + [[]]
    return assemble(mon, t, parts, g), [len(p) for p in parts]


def assemble(mon, t, parts, g):
    rng = mon.rng
    chunks = [encode(t, p, g) for p in parts]
    for i in range(len(chunks)):
        if rng.random() < 0.1:
            x = chunks[i]
            chunks[i] = awkward0.VirtualArray(lambda x=x: x, cache=rng.choice([None, {}]))
    sizes = [len(p) for p in parts]
    r = rng.random()
    if r < 0.4:
        return awkward0.ChunkedArray(chunks, sizes)
    if r < 0.6:
        return awkward0.ChunkedArray(chunks, sizes[: rng.randint(0, len(sizes))])
    return awkward0.ChunkedArray(chunks)


def piece(mon, t, vals):
    return encode(t, vals, G(mon.rng, pwrap=0.0, tableviews=False, longcols=False, npviews=False))


def compare(mon, what, f, a, b, one, rtol=0.0, **kw):
    """the same operation on the piece, and on the chunks"""
    try:
        want = f(one)
    except (ValueError, TypeError, IndexError, AttributeError, NotImplementedError, KeyError):
        try:
            mon.call(what, lambda: tolist(f(a)))
        except (ValueError, TypeError, IndexError, AttributeError, NotImplementedError, KeyError):
            mon.events["both refused"] += 1
            return
        return
    got = mon.call(what, lambda: f(a))
    mon.events["compared"] += 1
    mon.events["boundaries"] += b
    if isinstance(want, tuple) and not isinstance(want, awkward0.Table.Row):
        mon.check(isinstance(got, tuple) and len(got) == len(want), what)
        for x, y in zip(got, want):
            mon.eq(x, tolist(y), what, **kw)
    else:
        mon.eq(got, tolist(want), what, rtol=rtol, **kw)
        if hasattr(want, "__len__") and hasattr(got, "__len__") and not isinstance(want, str):
            mon.check(len(got) == len(want), lambda: "%s has length %d, want %d" % (what, len(got), len(want)))
    return got


NUM = ("int64", "int32", "uint8", "float64", "float32", "bool")


@SUITE.scenario(6000, 80000)
def rows(mon):
    rng = mon.rng
    g = G(rng)
    t = random_type(g, 3, ("prim", "list", "opt", "rec", "str", "byt", "obj", "reg"))
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, 5, 9))]
    a, sizes = chunked(mon, t, vals)
    n = len(vals)
    plain = V.plain(vals)
    mon.say(type=t.sig(), vals=plain, sizes=sizes)
    mon.events["boundaries"] += len(sizes) - 1
    x, px = a, plain
    for _ in range(rng.randint(1, 3)):
        w = random_where(rng, len(px))
        x = mon.call("select", lambda: x[w])
        px = take(px, w)
        mon.eq(x, px, "rows")
        mon.events["compared"] += 1
        if not isinstance(x, AwkwardArray):
            break
    if n:
        i = rng.randrange(-n, n)
        mon.eq(mon.call("getitem", lambda: a[i]), plain[i], "element %d" % i)
    mon.raises("beyond", lambda: a[rng.choice([n, n + 3, -n - 1])])
    mon.eq(mon.call("iter", lambda: [tolist(y) for y in a]), plain, "iterated")
    one = piece(mon, t, vals)
    mon.check(len(a) == n, "length")
    if isinstance(one, (AwkwardArray, numpy.ndarray)) and n and "Union" not in mon.layout():
        ta, tb = awkward0.type.fromarray(a), awkward0.type.fromarray(one)
        mon.check(ta == tb, lambda: "type:\n%s\nwant\n%s" % (ta, tb))
        mon.check(tuple(a.shape) == tuple(one.shape), lambda: "shape %s, want %s" % (a.shape, one.shape))
        if isinstance(one, numpy.ndarray):
            mon.check(a.dtype == one.dtype, lambda: "dtype %s, want %s" % (a.dtype, one.dtype))


@SUITE.scenario(1000, 10000)
def empties(mon):
    """a chunk without elements says nothing about the others, whatever its type"""
    rng = mon.rng
    g = G(rng)
    t = random_type(g, 2, ("list", "rec", "rec", "str", "obj", "prim"))
    parts = [[t.gen(g) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]
    vals = [v for p in parts for v in p]
    chunks = [encode(t, p, mon.G(pwrap=0.0)) for p in parts]
    for _ in range(rng.randint(1, 2)):
        chunks.insert(rng.randint(0, len(chunks)), rng.choice([numpy.array([]), numpy.array([], dtype="i8"), awkward0.JaggedArray([], [], []), awkward0.Table()]))
    sizes = [len(c) for c in chunks]
    a = awkward0.ChunkedArray(chunks, sizes[: rng.randint(0, len(sizes))])
    mon.say(type=t.sig(), vals=V.plain(vals), sizes=sizes)
    mon.events["boundaries"] += len(sizes) - 1
    acts = ["columns", "iter", "tolist", "length", "item", "slice"]
    rng.shuffle(acts)
    for act in acts:
        if act == "columns":
            mon.check(list(mon.call("columns", lambda: a.columns, a)) == (list(chunks[max(range(len(sizes)), key=lambda i: sizes[i])].columns) if isinstance(t, Rec) else list(a.columns)), lambda: "columns %s" % a.columns)
        elif act == "iter":
            mon.eq(mon.call("iter", lambda: [tolist(x) for x in a], a), V.plain(vals), "iterated")
        elif act == "tolist":
            mon.eq(mon.call("tolist", lambda: a.tolist(), a), V.plain(vals), "tolist")
        elif act == "length":
            mon.check(len(a) == len(vals), "length")
        elif act == "item":
            i = rng.randrange(-len(vals), len(vals))
            mon.eq(mon.call("getitem", lambda: a[i], a), V.plain(vals)[i], "[%d]" % i)
        else:
            s = random_slice(rng, len(vals))
            mon.eq(mon.call("slice", lambda: a[s], a), V.plain(vals)[s], "slice")
    mon.events["compared"] += 1


@SUITE.scenario(3000, 30000)
def positions(mon):
    """local and global positions"""
    rng = mon.rng
    t = random_type(G(rng), 1, ("prim", "list", "str"))
    g = G(rng)
    vals = [t.gen(g) for _ in range(many(rng, 1, 2, 5, 9, 20))]
    a, sizes = chunked(mon, t, vals)
    n = len(vals)
    plain = V.plain(vals)
    where = [(c, l) for c, s in enumerate(sizes) for l in range(s)]
    mon.say(type=t.sig(), sizes=sizes)
    k = rng.choice([0, 1, 3, 6])
    pos = [rng.randrange(-n, n) for _ in range(k)]
    for i in pos[:2]:
        cid = mon.call("global2chunkid", lambda: a.global2chunkid(i))
        mon.check(int(cid) == where[i][0], lambda: "global2chunkid(%d) is %s, want %d" % (i, cid, where[i][0]))
        chunk, loc = mon.call("global2local", lambda: a.global2local(i))
        mon.check(int(loc) == where[i][1], lambda: "global2local(%d) is %s, want %d" % (i, loc, where[i][1]))
        mon.eq(chunk[loc], plain[i], "the element at its local position")
        mon.check(int(mon.call("local2global", lambda: a.local2global(loc, cid))) == i % n, "local2global")
        mon.check(int(mon.call("local2global", lambda: a.local2global(int(loc) - sizes[int(cid)], cid))) == i % n, "local2global of a negative position")
    idx = numpy.array(pos, dtype=rng.choice(["i8", "i4"]))
    given = idx if rng.random() < 0.7 else pos
    if k:
        cids = mon.call("global2chunkid", lambda: a.global2chunkid(given))
        mon.eq(cids, [where[i][0] for i in pos], "global2chunkid")
        chunks, locs = mon.call("global2local", lambda: a.global2local(given))
        mon.eq(locs, [where[i][1] for i in pos], "global2local")
        mon.eq([tolist(c[l]) for c, l in zip(chunks, locs)], [plain[i] for i in pos], "the elements at their local positions")
        neg = numpy.array([l - sizes[c] if rng.random() < 0.5 else l for c, l in (where[i] for i in pos)])
        mon.eq(mon.call("local2global", lambda: a.local2global(neg, cids)), [i % n for i in pos], "local2global")
    mon.raises("beyond", lambda: a.global2chunkid(rng.choice([n, -n - 1, [0, n], [-n - 1]])))
    mon.raises("beyond", lambda: a.global2local(rng.choice([n, -n - 1, [0, n], [-n - 1]])))
    c = rng.randrange(len(sizes))
    bad = rng.choice([sizes[c], -sizes[c] - 1])
    mon.raises("beyond", lambda: a.local2global(bad, c) if rng.random() < 0.5 else a.local2global([bad], [c]))
    o = mon.call("offsets", lambda: (a.knowchunksizes(), a.offsets)[1])
    mon.eq(o, [sum(sizes[:i]) for i in range(len(sizes) + 1)], "offsets")
    mon.eq(list(a.chunksizes), sizes, "chunksizes")
    u = rng.randint(0, len(sizes))
    b = awkward0.ChunkedArray(a.chunks)
    mon.call("knowchunksizes", lambda: b.knowchunksizes(u))
    mon.check(len(b.chunksizes) == u and b.chunksizesknown == (u == len(sizes)), "knowchunksizes(%d)" % u)
    for i, ch in enumerate(a.chunks):
        lo = sum(sizes[:i])
        mon.eq(ch, plain[lo:lo + sizes[i]], "chunk %d" % i)
    mon.events["translated"] += 1


@SUITE.scenario(5000, 60000)
def elementwise(mon):
    rng = mon.rng
    shape = rng.choice(["num", "num", "list", "opt", "lists", "rec"])
    p = Prim(rng.choice(NUM))
    t = {"num": p, "list": Lst(p), "opt": Opt(p), "lists": Lst(Lst(p)), "rec": Rec([("x", p), ("y", Prim("float64"))])}[shape]
    g = G(rng)
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 3, 8))]
    a, sizes = chunked(mon, t, vals)
    one = piece(mon, t, vals)
    n = len(vals)
    flat = numpy.array([rng.randint(1, 9) for _ in range(n)], dtype=rng.choice(["int64", "float64"]))
    other = rng.choice(["unary", "scalar", "rscalar", "flat", "rflat", "same", "masked", "two", "list"])
    mon.say(type=t.sig(), vals=V.plain(vals), sizes=sizes, other=other, flat=flat)
    nb = len(sizes) - 1
    f2 = rng.choice([numpy.add, numpy.subtract, numpy.multiply, numpy.equal, numpy.less, numpy.maximum])
    if shape == "rec" and f2 in (numpy.equal, numpy.less):
        raise Skip              # comparing tables combines the columns
    if other == "unary":
        f = rng.choice([numpy.absolute, numpy.sign, numpy.isfinite, numpy.sqrt, numpy.logical_not])
        with numpy.errstate(all="ignore"):
            compare(mon, f.__name__, f, a, nb, one)
    elif other == "scalar":
        compare(mon, f2.__name__, lambda x: f2(x, 3), a, nb, one)
    elif other == "rscalar":
        compare(mon, f2.__name__, lambda x: f2(2.5, x), a, nb, one)
    elif other in ("flat", "rflat"):
        y = flat if rng.random() < 0.7 else awkward0.IndexedArray(numpy.arange(n), flat)
        compare(mon, f2.__name__, lambda x: f2(x, y) if other == "flat" else f2(y, x), a, nb, one)
        if n:
            short = flat[1:]
            mon.raises("shorter", lambda: tolist(f2(a, short)) if n != 2 else tolist(f2(a, numpy.concatenate([flat, flat]))))
    elif other == "same":
        b = a if rng.random() < 0.3 else assemble(mon, t, [vals[sum(sizes[:i]):sum(sizes[:i + 1])] for i in range(len(sizes))], mon.G(pwrap=0.0))
        compare(mon, f2.__name__, lambda x: f2(x, b if x is a else one), a, nb, one)
    elif other == "two":
        f = rng.choice([numpy.modf, numpy.frexp])
        compare(mon, f.__name__, f, a, nb, one)
    elif other == "masked":
        m = [rng.random() < 0.3 for _ in range(n)]
        y = awkward0.MaskedArray(m, flat)
        if shape in ("num",):
            compare(mon, f2.__name__, lambda x: f2(x, y), a, nb, one)
    elif other == "list" and shape == "num" and n:
        y = piece(mon, Lst(Prim("int64")), [Lst(Prim("int64")).gen(g) for _ in range(n)])
        compare(mon, f2.__name__, lambda x: f2(x, y), a, nb, one)


@SUITE.scenario(5000, 60000)
def reductions(mon):
    rng = mon.rng
    shape = rng.choice(["num", "num", "list", "list", "opt", "lists", "optlist", "listopt", "rec", "reg"])
    p = Prim(rng.choice(NUM))
    t = {"num": p, "list": Lst(p), "opt": Opt(p), "lists": Lst(Lst(p)), "optlist": Opt(Lst(p)), "listopt": Lst(Opt(p)), "rec": Rec([("x", p), ("y", Prim("float64"))]), "reg": Reg(p.dtype, (2,))}[shape]
    g = G(rng, pnan=0.1)
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 3, 8))]
    a, sizes = chunked(mon, t, vals)
    one = piece(mon, t, vals)
    if isinstance(one, numpy.ndarray):
        one = awkward0.ChunkedArray([one])
    mon.say(type=t.sig(), vals=V.plain(vals), sizes=sizes)
    op = rng.choice(["any", "all", "count", "count_nonzero", "sum", "prod", "min", "max", "mean", "var", "std", "argmin", "argmax"])
    if op in ("argmin", "argmax") and shape in ("opt", "optlist", "reg", "rec", "lists", "listopt") or op in ("mean", "var", "std") and shape in ("reg", "rec", "opt", "optlist"):
        raise Skip
    if op in ("argmin", "argmax") and shape == "num" and len(vals) == 0:
        raise Skip
    if shape == "rec" and p.dtype.kind == "b" and op in ("min", "max"):
        raise Skip              # (numbers)
    if op == "prod" and p.dtype.kind == "f":
        raise Skip
    with numpy.errstate(all="ignore"):
        compare(mon, op, lambda x: getattr(x, op)(), a, len(sizes) - 1, one, rtol=1e-4 if op in ("mean", "var", "std", "sum") else 0.0)


@SUITE.scenario(5000, 60000)
def lists(mon):
    """operations on lists, missing values and columns"""
    rng = mon.rng
    g = G(rng)
    p = random_type(g, 1, ("prim",), list(NUM))
    shape = rng.choice(["list", "list", "list", "lists", "optlist", "rec", "listrec", "opt", "listopt"])
    r = Rec([("x", p), ("y", rng.choice([Prim("float64"), Str(), Lst(Prim("int64"))]))])
    t = {"list": Lst(p), "lists": Lst(Lst(p)), "optlist": Opt(Lst(p)), "rec": r, "listrec": Lst(r), "opt": Opt(p), "listopt": Lst(Opt(p))}[shape]
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 3, 8))]
    a, sizes = chunked(mon, t, vals, **(dict(pwrap=0.0) if shape == "list" else dict(longcols=False)))
    one = piece(mon, t, vals)
    n = len(vals)
    mon.say(type=t.sig(), vals=V.plain(vals), sizes=sizes)
    ops = [("copy", lambda x: x.copy()), ("deepcopy", lambda x: x.deepcopy()), ("empty", lambda x: x[:0])]
    if shape in ("list", "lists", "listrec", "listopt"):
        s = random_slice(rng, 4)
        k = rng.randint(0, 4)
        ops += [("counts", lambda x: x.counts), ("flatten", lambda x: x.flatten()), ("pad", lambda x: x.pad(k, clip=rng.random() < 0.5) if False else x.pad(k)), ("pad clip", lambda x: x.pad(k, clip=True)),
                ("inner slice", lambda x: x[:, s]), ("nonempty", lambda x: x[x.counts > 0]), ("first", lambda x: x[x.counts > 0][:, 0]), ("reversed", lambda x: x[:, ::-1])]
    if shape == "list":
        ops += [("argmax", lambda x: x.argmax()), ("argmin", lambda x: x.argmin()), ("pairs", lambda x: x.pairs()), ("distincts", lambda x: x.distincts()),
                ("choose", lambda x: x.choose(2)), ("argdistincts", lambda x: x.argdistincts()), ("argpairs", lambda x: x.argpairs()), ("cross", lambda x: x.cross(x)),
                ("argcross", lambda x: x.argcross(x)), ("select greater", lambda x: x[x > 1]), ("at maxima", lambda x: x[x.argmax()]), ("fillna", lambda x: x.fillna(7)),
                ("regular", lambda x: x[x.counts == 2].regular() if n else None)]
    if shape in ("opt", "listopt"):
        ops += [("fillna", lambda x: x.fillna(1 if p.dtype.kind == "b" else 99)), ("astype", lambda x: x.astype("float64")), ("isunmasked", lambda x: x.isunmasked)]
    if shape == "opt":
        ops += [("boolmask", lambda x: x.boolmask(maskedwhen=True)), ("boolmask false", lambda x: x.boolmask(maskedwhen=False)), ("present", lambda x: x[x.boolmask(maskedwhen=False)])]
    if shape in ("rec", "listrec"):
        w = random_where(rng, n)
        ops += [("column", lambda x: x["x"]), ("columns", lambda x: x[["x", "y"]]), ("column of rows", lambda x: x[w]["y"]), ("rows of column", lambda x: x["y"][w]), ("names", lambda x: list(x.columns)), ("attribute", lambda x: x.x)]
    if shape in ("list", "rec", "opt", "lists"):
        ops += [("concatenate", lambda x: x.concatenate([x]) if n else x), ("tolist", lambda x: x.tolist())]
    for name, f in rng.sample(ops, min(3, len(ops))):
        if name == "concatenate":
            got = mon.call(name, lambda: awkward0.concatenate([a, a]))
            mon.eq(got, V.plain(vals) * 2, name)
            continue
        compare(mon, name, f, a, len(sizes) - 1, one, exact=name != "fillna")


KINDS = ("prim", "list", "opt", "rec", "str", "byt", "obj", "reg")


@SUITE.scenario(2500, 25000)
def assigned(mon):
    """columns assigned in chunks, or deleted"""
    rng = mon.rng
    g = G(rng)
    t = Rec([("x", random_type(g, 1, KINDS)), ("y", random_type(g, 1, KINDS))])
    vals = [t.gen(g) for _ in range(many(rng, 1, 3, 8))]
    a, sizes = chunked(mon, t, vals, pwrap=0.0, tableviews=False, longcols=False)
    want = [dict(v) for v in V.plain(vals)]
    mon.say(type=t.sig(), vals=want, sizes=sizes)
    if rng.random() < 0.6:
        name = rng.choice(["x", "z"])
        u = random_type(g, 1, KINDS)
        new = [u.gen(g) for _ in vals]
        b = assemble(mon, u, [new[sum(sizes[:i]):sum(sizes[:i + 1])] for i in range(len(sizes))], mon.G(pwrap=0.0))
        mon.call("assign", lambda: a.__setitem__(name, b))
        for v, x in zip(want, V.plain(new)):
            v[name] = x
        mon.eq(mon.call("column", lambda: a[name]), V.plain(new), "the assigned column")
    else:
        mon.call("delete", lambda: a.__delitem__("x"))
        for v in want:
            del v["x"]
    mon.eq(a, want, "after")
    mon.check(list(a.columns) == list(want[0]), lambda: "columns %s" % a.columns)
    s = random_where(rng, len(vals))
    mon.eq(mon.call("select", lambda: a[s]), take(want, s), "rows, after")
    mon.check(set(awkward0.type.fromarray(a).to.columns) == set(want[0]), "type, after")
    mon.events["compared"] += 1
