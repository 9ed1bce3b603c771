"""P10: concatenation and zipping are positional."""
import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V

SUITE = Suite("P10")
SUITE.needs = {"oracle": 15000}
A = awkward0.array.base.AwkwardArray


def gg(mon, **kw):
    kw = dict(dict(unsigned=True, pwrap=mon.rng.choice([0.0, 0.1, 0.4]), wrapdepth=2, anywhen=True, fillunion=True,
                   encodings=["utf-8"], wrap=set(["indexed", "chunked", "virtual", "appendable"])), **kw)
    return mon.G(**kw)


def concat(mon, arrays, axis=0):
    k = mon.rng.randrange(4)
    kw = {} if axis == 0 and mon.rng.random() < 0.5 else {"axis": axis}
    if k == 0 and isinstance(arrays[0], A):
        return mon.call("a.concatenate axis=%d" % axis, lambda: arrays[0].concatenate(arrays[1:], **kw) if len(arrays) > 1 else A.concatenate(arrays, **kw), *arrays)
    if k == 1:
        return mon.call("AwkwardArray.concatenate axis=%d" % axis, lambda: A.concatenate(tuple(arrays), **kw), *arrays)
    if k == 2 and isinstance(arrays[0], awkward0.JaggedArray):
        return mon.call("JaggedArray.concatenate axis=%d" % axis, lambda: awkward0.JaggedArray.concatenate(arrays, **kw), *arrays)
    return mon.call("awkward0.concatenate axis=%d" % axis, lambda: awkward0.concatenate(arrays, **kw), *arrays)


def after(mon, out, vals):
    """the result is a proper array: it can be selected from like any other"""
    k = mon.rng.random()
    mon.check(len(out) == len(vals), "length")
    if k < 0.2:
        w = random_where(mon.rng, len(vals))
        mon.eq(mon.call("selected", lambda: out[w], out), take(vals, w), "rows of the result")
    elif k < 0.4 and len(vals):
        i = mon.rng.randrange(-len(vals), len(vals))
        mon.eq([tolist(out[i])], [vals[i]], "element %d" % i)
    elif k < 0.5 and isinstance(out, A):
        mon.eq([tolist(x) for x in out], vals, "iteration")
    elif k < 0.6 and isinstance(out, A):
        mon.check(out.valid(), lambda: "result is not valid: %s" % out.valid(message=True))


def pieces(mon, g, t, big=5):
    rng = mon.rng
    out = []
    for _ in range(rng.choice([1, 2, 2, 2, 3, 4])):
        vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, big))]
        a = encode(t, vals, g)
        if rng.random() < 0.2:
            w = random_where(rng, len(vals))
            a, vals = a[w], take(vals, w)
        out.append((a, vals))
    return out


def hollow(v):
    if isinstance(v, U):
        return hollow(v.value)
    if isinstance(v, list):
        return len(v) == 0 or any(hollow(x) for x in v)
    if isinstance(v, (tuple, dict)):
        return any(hollow(x) for x in (v.values() if isinstance(v, dict) else v))
    return v is None


@SUITE.scenario(5000, 60000)
def rows(mon):
    rng = mon.rng
    g = gg(mon)
    t = random_type(g, 2, ("prim", "list", "opt", "rec", "str", "byt", "obj", rng.choice(["uni", "reg"])))
    ps = pieces(mon, g, t)
    want = [x for _, v in ps for x in v]
    if "|" in t.sig() and any(hollow(v) for _, v in ps):
        raise Skip()         # there is no empty union: what stands for it has another type
    mon.say(type=t.sig(), vals=[V.plain(v) for _, v in ps])
    out = concat(mon, [a for a, _ in ps])
    # what is left of a union may be plain numbers, which have a common type
    mon.eq(out, want, "concatenate", exact="|" not in t.sig())
    if "|" not in t.sig():
        after(mon, out, want)
    if rng.random() < 0.2:
        more = pieces(mon, g, t)[:2]
        if "|" in t.sig() and any(hollow(v) for _, v in more):
            raise Skip()
        want = want + [x for _, v in more for x in v]
        mon.eq(concat(mon, [out] + [a for a, _ in more]), want, "concatenating again", exact="|" not in t.sig())


@SUITE.scenario(3000, 30000)
def small_index(mon):
    """starts and indexes in integer types that can't hold the positions in the result"""
    rng = mon.rng
    g = mon.G(maxlen=3)
    base = rng.choice(["int8", "uint8"])
    ps, want = [], []
    for _ in range(rng.randint(2, 4)):
        n = rng.randint(20, 60)
        flat = [rng.randint(0, 99) for _ in range(n * 2)]
        k = rng.choice(["jagged", "indexed", "indexedmasked", "union"])
        if ps and rng.random() < 0.7:
            k = last
        last = k
        if k == "jagged":
            cut = sorted(rng.randint(0, len(flat)) for _ in range(n + 1))
            ps.append(awkward0.JaggedArray.fromoffsets(numpy.array(cut, dtype=base), numpy.array(flat)))
            want += [flat[i:j] for i, j in zip(cut[:-1], cut[1:])]
        elif k == "indexed":
            w = [rng.randrange(len(flat)) for _ in range(n)]
            ps.append(awkward0.IndexedArray(numpy.array(w, dtype=base), numpy.array(flat)))
            want += [flat[i] for i in w]
        elif k == "union":
            w = [rng.randrange(len(flat)) for _ in range(n)]
            ps.append(awkward0.UnionArray(numpy.zeros(n, dtype="uint8"), numpy.array(w, dtype=base), [numpy.array(flat)]))
            want += [flat[i] for i in w]
        else:
            w = [rng.choice([-1, rng.randrange(len(flat))]) for _ in range(n)]
            ps.append(awkward0.IndexedMaskedArray(numpy.array(w, dtype="int8"), numpy.array(flat)))
            want += [None if i < 0 else flat[i] for i in w]
    mon.say(classes=[type(x).__name__ for x in ps])
    mon.eq(concat(mon, ps), want, "concatenate")


@SUITE.scenario(3000, 40000)
def mixed(mon):
    rng = mon.rng
    g = gg(mon, pwrap=0.1)
    ts = [random_type(g, rng.choice([0, 1, 2])) for _ in range(rng.choice([2, 2, 3]))]
    if len(set(t.sig() for t in ts)) == 1:
        raise Skip()
    ps, want = [], []
    for t in ts:
        vals = [t.gen(g) for _ in range(many(rng, 0, 1, 3))]
        ps.append(encode(t, vals, g))
        want += vals
    # records of different columns are refused, numbers of different types are converted to their common type
    cls = [type(x) for x in ps]
    if len(set(cls)) != len(cls) or any(isinstance(x, awkward0.MaskedArray) for x in ps) and sum(isinstance(x, awkward0.MaskedArray) for x in ps) > 1:
        raise Skip()
    if sum(isinstance(x, awkward0.ChunkedArray) for x in ps) > 1:
        raise Skip()
    if any(isinstance(x, awkward0.VirtualArray) for x in ps):
        raise Skip()
    mon.say(types=[t.sig() for t in ts], vals=V.plain(want))
    out = concat(mon, ps)
    mon.eq(out, want, "concatenate different types")
    if len(want) == 0:
        return              # there is no empty union
    mon.check(isinstance(out, awkward0.UnionArray), lambda: "different types made a %s" % type(out).__name__)
    if rng.random() < 0.3 and len(want):
        i = rng.randrange(-len(want), len(want))
        mon.eq([tolist(out[i])], [want[i]], "element")


@SUITE.scenario(800, 10000)
def other_columns(mon):
    """records of different columns are refused"""
    rng = mon.rng
    g = gg(mon, pwrap=0.0, longcols=False)
    k = rng.randint(2, 3)
    all_ = [(n, Prim(rng.choice(["int64", "float64"]))) for n in ["x", "y", "z", "w"]]
    ts = [Rec(rng.sample(all_, rng.randint(1, 3))) for _ in range(k)]
    n = rng.randint(1, 3)
    vs = [[t.gen(g) for _ in range(n)] for t in ts]
    names = [set(n for n, _ in t.fields) for t in ts]
    lists = rng.random() < 0.4
    if lists:
        vs = [[[v] for v in x] for x in vs]
        ts = [Lst(t) for t in ts]
    ps = [encode(t, v, g, depth=9) for t, v in zip(ts, vs)]
    axis = 1 if lists and rng.random() < 0.3 else 0
    mon.say(types=[t.sig() for t in ts], vals=V.plain(vs), axis=axis)
    if all(x == names[0] for x in names):
        out = mon.call("concatenate columns", lambda: awkward0.concatenate(ps, axis=axis), *ps)
        mon.eq(out, [v for x in vs for v in x] if axis == 0 else [sum(x, []) for x in zip(*vs)], "the same columns in another order")
    else:
        mon.raises("concatenate other columns", lambda: awkward0.concatenate(ps, axis=axis), *ps, kinds=(ValueError, TypeError, KeyError, NotImplementedError))


def listitem(rng):
    return rng.choice([Prim("int64"), Prim("float64"), Prim("bool"), Prim("uint8"), Prim("int8"), Reg("int64", [2]), Reg("float64", [2, 1]),
                       Rec([("x", Prim("int64")), ("y", Prim("float64"))]), Rec([("0", Prim("int64")), ("1", Prim("float64"))], istuple=True),
                       Rec([("x", Prim("int64")), ("y", Rec([("z", Prim("bool"))]))]), Obj()])


def othernumbers(rng, t):
    """the same structure with another type of numbers, any of which a common type can hold exactly"""
    if isinstance(t, Prim):
        return Prim(rng.choice(["int8", "uint8", "int32", "int64", "float64", "float32", "int16", "bool"]))
    elif isinstance(t, Reg):
        return Reg(rng.choice(["int8", "int64", "float64"]), t.inner)
    elif isinstance(t, Rec) and not isinstance(t, Obj):
        return Rec([(n, othernumbers(rng, x)) for n, x in t.fields], istuple=t.istuple)
    return t


@SUITE.scenario(4000, 50000)
def lists(mon):
    rng = mon.rng
    g = gg(mon, pwrap=0.0)
    t = listitem(rng)
    n = many(rng, 0, 1, 2, 3, 6)
    k = rng.choice([1, 2, 2, 2, 3, 4])
    mixed = rng.random() < 0.4
    ps, want = [], [[] for _ in range(n)]
    for _ in range(k):
        pe = rng.choice([0.0, 0.3, 0.8])
        if mixed:
            t = othernumbers(rng, t)
        vals = [[] if rng.random() < pe else [t.gen(g) for _ in range(rng.randint(0, 4))] for _ in range(n)]
        a = enc_Lst(Lst(t), vals, g, 0)
        if rng.random() < 0.1:
            a = awkward0.VirtualArray(lambda b=a: b)
        elif rng.random() < 0.1:
            w = numpy.arange(n)
            rng.shuffle(w)
            a, vals = a[w], take(vals, w)
        ps.append(a)
        for i, v in enumerate(vals):
            want[i] = want[i] + v
    mon.say(type=t.sig(), want=V.plain(want))
    out = concat(mon, ps, 1)
    mon.eq(out, want, "concatenate axis=1", exact=not mixed)
    if not mixed:
        after(mon, out, want)
    if rng.random() < 0.3:
        mon.eq(mon.call("counts", lambda: out.counts, out), [len(v) for v in want], "counts")


@SUITE.scenario(1500, 15000)
def text(mon):
    rng = mon.rng
    g = gg(mon, encodings=[rng.choice(["utf-8", "utf-16le"])])
    t = rng.choice([Str(), Byt()])
    n = many(rng, 0, 1, 2, 5)
    k = rng.choice([2, 2, 3])
    vs = [[t.gen(g) for _ in range(n)] for _ in range(k)]
    ps = [globals()["enc_" + type(t).__name__](t, v, g, 0) for v in vs]
    axis = rng.choice([0, 1])
    mon.say(vals=vs, axis=axis)
    want = [x for v in vs for x in v] if axis == 0 else [v[0][:0].join(v) if False else sum_(v) for v in zip(*vs)]
    out = concat(mon, ps, axis)
    mon.eq(out, want, "concatenate text")
    after(mon, out, want)


def sum_(v):
    out = v[0]
    for x in v[1:]:
        out = out + x
    return out


@SUITE.scenario(1000, 10000)
def lists_refused(mon):
    rng = mon.rng
    g = gg(mon, pwrap=0.0)
    t = rng.choice([Prim("int64"), Rec([("x", Prim("int64"))])])
    n = rng.randint(0, 4)
    m = n + rng.randint(1, 2)
    a = enc_Lst(Lst(t), [[t.gen(g) for _ in range(rng.randint(0, 3))] for _ in range(n)], g, 0)
    b = enc_Lst(Lst(t), [[t.gen(g) for _ in range(rng.randint(0, 3))] for _ in range(m)], g, 0)
    ps = [a, b] if rng.random() < 0.5 else [b, a]
    mon.say(lengths=[len(p) for p in ps])
    mon.raises("concatenate axis=1", lambda: awkward0.concatenate(ps, axis=1), *ps)
    mon.raises("concatenate nothing", lambda: awkward0.concatenate([]))


# ------------------------------------------------------------------ zip

def column(mon, g, counts, nested):
    """an argument of zip: (array, values broadcast into the lists)"""
    rng = mon.rng
    n = len(counts)
    k = rng.choice(["jagged", "jagged", "jagged", "flat", "number", "list", "awkward"])
    t = rng.choice([Prim("int64"), Prim("float64"), Prim("bool"), Reg("int64", [2]), Str(), Opt(Prim("int64")), Rec([("p", Prim("int64")), ("q", Prim("float64"))]),
                    Lst(Prim("int64")), Lst(Str()), Uni([Prim("int64"), Str()])])
    if k == "jagged":
        vals = [[t.gen(g) for _ in range(c)] for c in counts]
        a = enc_Lst(Lst(t), vals, g, 0)
        if rng.random() < 0.1:
            a = awkward0.VirtualArray(lambda b=a: b)
        return k, a, vals
    if k == "number":
        x = rng.choice([1, 2.5, True, numpy.float32(1.5), numpy.int8(3)])
        return k, x, [[x.item() if isinstance(x, numpy.generic) else x] * c for c in counts]
    if k == "awkward":
        if isinstance(t, Lst):      # ambiguous: lists of lists are fitted as lists
            t = Str()
        vals = [t.gen(g) for _ in range(n)]
        return k, encode(t, vals, g, 9), [[v] * c for v, c in zip(vals, counts)]
    t = rng.choice([Prim("int64"), Prim("float64"), Prim("bool")])
    vals = [t.gen(g) for _ in range(n)]
    if k == "flat":
        return k, nparr(vals, t.dtype, g), [[v] * c for v, c in zip(vals, counts)]
    if n == 0:
        return "flat", numpy.array([], dtype="int64"), []
    return k, vals, [[v] * c for v, c in zip(vals, counts)]


@SUITE.scenario(5000, 60000)
def zipping(mon):
    rng = mon.rng
    g = gg(mon, pwrap=0.0)
    n = many(rng, 0, 1, 2, 3, 5)
    pe = rng.choice([0.0, 0.3, 0.9])
    counts = [0 if rng.random() < pe else rng.randint(0, 4) for _ in range(n)]
    cols = [column(mon, g, counts, False) for _ in range(rng.randint(1, 4))]
    how = rng.choice(["positional", "keywords", "dict", "both", "instance", "instance+keywords", "dict+keywords"])
    j = [i for i, c in enumerate(cols) if isinstance(c[1], awkward0.JaggedArray)]
    if not any(c[0] == "jagged" for c in cols):
        raise Skip()
    if "instance" in how:
        if not j:
            raise Skip()
        cols.insert(0, cols.pop(j[0]))
    names = ["x", "y", "z", "w"][:len(cols)]
    kinds = [c[0] for c in cols]
    args = [c[1] for c in cols]
    cv = [c[2] for c in cols]
    mon.say(how=how, kinds=kinds, vals=V.plain(cv))
    Z = awkward0.JaggedArray.zip
    tup = False
    if how == "positional":
        f, tup = (lambda: Z(*args)), True
    elif how == "keywords":
        f = lambda: Z(**dict(zip(names, args)))
    elif how == "dict":
        d = dict(zip(names, args))
        before = list(d.items())
        f = lambda: Z(d)
    elif how == "dict+keywords":
        d = dict(list(zip(names, args))[:1])
        before = list(d.items())
        f = lambda: Z(d, **dict(list(zip(names, args))[1:]))
    elif how == "both":
        if len(args) < 2:
            raise Skip()
        names[0] = "0"
        f = lambda: Z(args[0], **dict(zip(names[1:], args[1:])))
    elif how == "instance":
        f, tup = (lambda: args[0].zip(*args[1:])), True
        names[0] = "0"
    else:
        if len(args) < 2:
            raise Skip()
        names[0] = "0"
        f = lambda: args[0].zip(**dict(zip(names[1:], args[1:])))
    out = mon.call("zip " + how, f, *args)
    want = [[tuple(c[i][k] for c in cv) if tup else dict((nm, c[i][k]) for nm, c in zip(names, cv)) for k in range(counts[i])] for i in range(n)]
    mon.eq(out, want, "zip " + how)
    if "dict" in how:
        mon.check(list(d.items()) == before if False else all(a is b[1] for a, b in zip(d.values(), before)) and len(d) == len(before), "zip changed its dict argument")
    mon.eq(mon.call("counts", lambda: out.counts, out), counts, "counts")
    back = mon.call("unzip", lambda: out.unzip(), out)
    mon.check(isinstance(back, tuple) and len(back) == len(cv), "unzip must give one array per column")
    for c, v, nm in zip(back, cv, names):
        mon.eq(c, v, "unzip of column %s" % nm)
    for a, k, v in zip(args, kinds, cv):
        if k == "jagged":
            mon.eq(a, v, "argument afterwards")
    if rng.random() < 0.3:
        again = mon.call("zip again", lambda: Z(*back), *back)
        mon.eq(again, [[tuple(c[i][k] for c in cv) for k in range(counts[i])] for i in range(n)], "zip of unzip")
    after(mon, out, want)


@SUITE.scenario(1500, 15000)
def zip_refused(mon):
    rng = mon.rng
    g = gg(mon, pwrap=0.0)
    n = rng.randint(1, 4)
    counts = [rng.randint(0, 3) for _ in range(n)]
    t = rng.choice([Prim("int64"), Str(), Rec([("x", Prim("int64"))])])
    a = enc_Lst(Lst(t), [[t.gen(g) for _ in range(c)] for c in counts], g, 0)
    k = rng.choice(["counts", "longer", "shorter", "flat", "permuted"])
    if k == "counts":
        other = list(counts)
        other[rng.randrange(n)] += rng.choice([1, 2])
    elif k == "longer":
        other = counts + [rng.choice([0, 1])]
    elif k == "shorter":
        other = counts[:-1]
    elif k == "permuted":
        other = counts[1:] + counts[:1]
        if other == counts:
            raise Skip()
    if k == "flat":
        m = n + rng.choice([-1, 1, 2])
        if m == 1:
            raise Skip()         # an array of one element is a plain value
        b = numpy.arange(m)
        if rng.random() < 0.3:
            b = awkward0.StringArray.fromiter(["s"] * m)
    else:
        b = enc_Lst(Lst(Prim("int64")), [[rng.randint(0, 9) for _ in range(c)] for c in other], g, 0)
    mon.say(counts=counts, kind=k, other=tolist(b))
    ps = [a, b] if rng.random() < 0.5 else [b, a]
    if rng.random() < 0.5:
        mon.raises("zip", lambda: awkward0.JaggedArray.zip(*ps), *ps)
    else:
        mon.raises("zip", lambda: awkward0.JaggedArray.zip(x=ps[0], y=ps[1]), *ps)


@SUITE.scenario(1500, 20000)
def tables(mon):
    """Table and unzip are opposites"""
    rng = mon.rng
    g = gg(mon)
    n = many(rng, 0, 1, 3, 6)
    ts = [random_type(g, 1) for _ in range(rng.randint(1, 4))]
    cv = [[t.gen(g) for _ in range(n)] for t in ts]
    args = [encode(t, v, g) for t, v in zip(ts, cv)]
    names = ["x", "y", "z", "w"][:len(ts)]
    mon.say(types=[t.sig() for t in ts], vals=V.plain(cv))
    how = rng.choice(["positional", "keywords", "dict", "pairs", "named"])
    T = awkward0.Table
    tup = False
    if how == "positional":
        out, tup = mon.call(how, lambda: T(*args), *args), True
    elif how == "keywords":
        out = mon.call(how, lambda: T(**dict(zip(names, args))), *args)
    elif how == "dict":
        out = mon.call(how, lambda: T(dict(zip(names, args))), *args)
    elif how == "pairs":
        out = mon.call(how, lambda: T.frompairs(list(zip(names, args)), 0), *args)
    else:
        out = mon.call(how, lambda: T.named("tuple", *args), *args)
        tup = True
    want = [tuple(c[i] for c in cv) if tup else dict((nm, c[i]) for nm, c in zip(names, cv)) for i in range(n)]
    mon.eq(out, want, how)
    if rng.random() < 0.4:
        w = random_where(rng, n)
        out = out[w]
        cv = [take(v, w) for v in cv]
        want = take(want, w)
        mon.eq(out, want, "rows")
    back = mon.call("unzip", lambda: out.unzip(), out)
    mon.check(isinstance(back, tuple) and len(back) == len(cv), "unzip must give one array per column")
    for c, v in zip(back, cv):
        mon.eq(c, v, "unzip")
    after(mon, out, want)
