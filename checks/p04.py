"""P04: elementwise functions act on corresponding leaves, whatever the layouts."""
import operator
import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *

SUITE = Suite("P04")
SUITE.needs = {"oracle": 20000, "rejected": 1000}

BINARY = ["add", "subtract", "multiply", "maximum", "minimum", "less", "greater_equal", "equal", "not_equal", "true_divide", "logical_and", "logical_or", "hypot", "arctan2"]
ARITH = ["add", "subtract", "multiply", "maximum", "minimum", "true_divide"]
COMPARE = ["less", "less_equal", "greater", "greater_equal", "equal", "not_equal"]
UNARY = ["negative", "absolute", "sqrt", "exp", "sign", "isnan", "square", "floor", "rint"]
OPS = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "less": operator.lt, "less_equal": operator.le, "greater": operator.gt,
       "greater_equal": operator.ge, "equal": operator.eq, "not_equal": operator.ne, "true_divide": operator.truediv, "negative": operator.neg, "absolute": abs}
NUM = ["int64", "float64", "float64", "int32", "float32", "int16"]


def leafcall(uf, dts, xs):
    """the ufunc on one leaf, with array (not scalar) promotion rules"""
    args = [numpy.array([x], dtype=dt) if dt is not None else x for dt, x in zip(dts, xs)]
    out = uf(*args)
    if isinstance(out, tuple):
        return tuple(o[0].item() for o in out)
    return out[0].item()


def structure(t, g, vals):
    """another value with the same list structure (and union tags) but new leaves"""
    def rec(t, v):
        if isinstance(t, Lst):
            return [rec(t.of, x) for x in v]
        if isinstance(t, Rec):
            return tuple(rec(s, x) for (n, s), x in zip(t.fields, v)) if t.istuple else dict((n, rec(s, v[n])) for n, s in t.fields)
        if isinstance(t, Opt):
            # independent missingness is only possible where the element has no structure of its own
            if v is None:
                return t.gen(g) if isinstance(t.of, Prim) else None
            return None if isinstance(t.of, Prim) and g.rng.random() < g.pnone else rec(t.of, v)
        if isinstance(t, Uni):
            return U(v.tag, rec(t.of[v.tag], v.value))
        return t.gen(g)
    return [rec(t, v) for v in vals]


def retype(t, g):
    if isinstance(t, Lst):
        return Lst(retype(t.of, g))
    if isinstance(t, Opt):
        return Opt(retype(t.of, g))
    if isinstance(t, Rec):
        fields = [(n, retype(s, g)) for n, s in t.fields]
        if not t.istuple and g.rng.random() < 0.4:
            g.rng.shuffle(fields)       # columns correspond by name, whatever their order
        return Rec(fields, t.istuple)
    if isinstance(t, Uni):
        return Uni([retype(s, g) for s in t.of])
    if isinstance(t, Reg):
        return Reg(g.rng.choice(["int64", "float64"]), t.inner)
    return Prim(g.rng.choice(NUM))


def apply(uf, ts, vs):
    """reference: leafwise application over arguments with types ts (None: a plain number)"""
    if any(isinstance(t, Opt) for t in ts):
        if any(isinstance(t, Opt) and v is None for t, v in zip(ts, vs)):
            return None
        return apply(uf, [t.of if isinstance(t, Opt) else t for t in ts], vs)
    if any(isinstance(t, Uni) for t in ts):
        return apply(uf, [t.of[v.tag] if isinstance(t, Uni) else t for t, v in zip(ts, vs)], [v.value if isinstance(t, Uni) else v for t, v in zip(ts, vs)])
    if any(isinstance(t, Lst) for t in ts):
        n = [len(v) for t, v in zip(ts, vs) if isinstance(t, Lst)]
        assert len(set(n)) == 1
        return [apply(uf, [t.of if isinstance(t, Lst) else t for t in ts], [v[i] if isinstance(t, Lst) else v for t, v in zip(ts, vs)]) for i in range(n[0])]
    if any(isinstance(t, Rec) for t in ts):
        r = [t for t in ts if isinstance(t, Rec)][0]
        f = lambda k, n: apply(uf, [dict(t.fields)[n] if isinstance(t, Rec) else t for t in ts],
                               [(v[k] if r.istuple else v[n]) if isinstance(t, Rec) else v for t, v in zip(ts, vs)])
        out = [f(k, n) for k, (n, s) in enumerate(r.fields)]
        return tuple(out) if r.istuple else dict((n, o) for (n, s), o in zip(r.fields, out))
    if any(isinstance(t, Reg) for t in ts):
        def rec(d, v):
            return [rec(d - 1, x) for x in v] if d else None
        t0 = [t for t in ts if isinstance(t, Reg)][0]
        def walk(depth, vs):
            if depth == len(t0.inner):
                return apply(uf, [Prim(t.dtype) if isinstance(t, Reg) else t for t in ts], vs)
            return [walk(depth + 1, [v[i] if isinstance(t, Reg) else v for t, v in zip(ts, vs)]) for i in range(t0.inner[depth])]
        return walk(0, vs)
    return leafcall(uf, [None if t is None else t.dtype for t in ts], vs)


def gen_type(g, depth, kinds):
    return random_type(g, depth, kinds, NUM)


def hasrec(t):
    return isinstance(t, Rec) or (isinstance(t, (Lst, Opt)) and hasrec(t.of)) or (isinstance(t, Uni) and any(hasrec(s) for s in t.of))


def mkg(mon, **kw):
    rng = mon.rng
    return mon.G(**dict(dict(longcols=False, unsigned=True, pwrap=rng.choice([0.0, 0.25]), wrap=set(["indexed", "virtual", "chunked", "sparse", "appendable"])), **kw))


def compute(mon, name, args, inputs):
    uf = getattr(numpy, name)
    if name in OPS and mon.rng.random() < 0.5:
        return mon.call("op " + name, lambda: OPS[name](*args), *inputs)
    return mon.call(name, lambda: uf(*args), *inputs)


def size(rng):
    return many(rng, 0, 1, 2, 3, 5, 8)


KINDS = ("prim", "list", "opt", "rec", "uni", "reg", "list")


@SUITE.scenario(2*4000, 60000)
def unary(mon):
    rng = mon.rng
    g = mkg(mon)
    t = gen_type(g, rng.randint(0, 3), KINDS)
    vals = [t.gen(g) for _ in range(size(rng))]
    a = encode(t, vals, g)
    name = rng.choice([u for u in UNARY if not (hasrec(t) and u == "isnan")])
    mon.say(type=t.sig(), vals=plain(vals), name=name, cls=type(a).__name__)
    want = [apply(getattr(numpy, name), [t], [v]) for v in vals]
    got = compute(mon, name, [a], [a])
    mon.eq(got, want)


@SUITE.scenario(2*4000, 60000)
def with_number(mon):
    rng = mon.rng
    g = mkg(mon)
    t = gen_type(g, rng.randint(0, 3), KINDS)
    vals = [t.gen(g) for _ in range(size(rng))]
    a = encode(t, vals, g)
    name = rng.choice(ARITH if hasrec(t) else BINARY[:-2])
    x = rng.choice([2, -1, 0.5, 3.0, numpy.float64(1.5), numpy.int64(3), numpy.int32(2)])
    left = rng.random() < 0.5
    if left and isinstance(x, numpy.generic):
        name_ok = True
    mon.say(type=t.sig(), vals=plain(vals), name=name, x=x, left=left, cls=type(a).__name__)
    ts, w = ([None, t], lambda v: [x, v]) if left else ([t, None], lambda v: [v, x])
    want = [apply(getattr(numpy, name), ts, w(v)) for v in vals]
    got = compute(mon, name, [x, a] if left else [a, x], [a])
    mon.eq(got, want)


@SUITE.scenario(2*6000, 80000)
def same_structure(mon):
    rng = mon.rng
    kinds = ("prim", "list", "list", "opt", "rec", "reg")
    # arrays in chunks combine only if they have the same chunk sizes (documented), so at most one of the two is in chunks
    g = mkg(mon)
    g2 = mkg(mon, wrap=set(["indexed", "virtual", "sparse"]))
    t = gen_type(g, rng.randint(0, 3), kinds)
    vals = [t.gen(g) for _ in range(size(rng))]
    t2 = retype(t, g)
    vals2 = structure(t2, g, vals)
    a = encode(t, vals, g)
    b = encode(t2, vals2, g2)
    if rng.random() < 0.5:
        t, vals, a, t2, vals2, b = t2, vals2, b, t, vals, a
    name = rng.choice(ARITH if hasrec(t) else BINARY)
    mon.say(type=t.sig(), type2=t2.sig(), vals=plain(vals), vals2=plain(vals2), name=name, cls=type(a).__name__, cls2=type(b).__name__)
    want = [apply(getattr(numpy, name), [t, t2], [x, y]) for x, y in zip(vals, vals2)]
    got = compute(mon, name, [a, b], [a, b])
    mon.eq(got, want)


def anyreg(t):
    while isinstance(t, (Lst, Opt)):
        t = t.of
    return isinstance(t, Reg)


@SUITE.scenario(2*2000, 30000)
def unions(mon):
    """two unions, or a union and numbers: the alternatives pair up by position"""
    rng = mon.rng
    g = mkg(mon, wrap=set(["indexed", "virtual"]))
    t = Uni([gen_type(g, rng.randint(0, 1), ("prim", "list", rng.choice(["reg", "opt"]), "prim")) for _ in range(rng.randint(1, 3))])
    if any(isinstance(s, Opt) for s in t.of) and any(anyreg(s) for s in t.of):
        raise Skip      # a selection of no elements shows the dimensions of either
    vals = [t.gen(g) for _ in range(size(rng))]
    if rng.random() < 0.5:
        t2 = retype(t, g)
        vals2 = structure(t2, g, vals)
    else:
        t2 = Prim(rng.choice(NUM))
        vals2 = [t2.gen(g) for _ in vals]
    name = rng.choice(BINARY)
    args = [(t, vals), (t2, vals2)]
    if rng.random() < 0.5:
        args.reverse()
    # numbers are not broadcast into a fixed-size inner dimension
    if isinstance(t2, Prim) and any(anyreg(s) for s in t.of):
        raise Skip
    arrays = [encode(ty, v, g) for ty, v in args]
    mon.say(types=[ty.sig() for ty, v in args], vals=[plain(v) for ty, v in args], name=name, cls=[type(x).__name__ for x in arrays])
    want = [apply(getattr(numpy, name), [ty for ty, v in args], vs) for vs in zip(*[v for ty, v in args])]
    got = compute(mon, name, arrays, arrays)
    mon.eq(got, want)


@SUITE.scenario(2*4000, 60000)
def broadcast(mon):
    """shallower arrays repeat in the lists of the same row"""
    rng = mon.rng
    g = mkg(mon, wrap=set(["indexed", "virtual"]))
    t = Lst(gen_type(g, rng.randint(0, 2), ("prim", "prim", "list", "list", "rec", "opt")))
    n = size(rng)
    vals = [t.gen(g) for _ in range(n)]
    # the flat operand: numbers, or records of numbers against lists of records
    leaf = t
    while isinstance(leaf, Lst):
        leaf = leaf.of
    if isinstance(leaf, Rec) and rng.random() < 0.6:
        flat = Rec([(nm, Prim(rng.choice(NUM))) for nm, s in leaf.fields], leaf.istuple)
    else:
        flat = Prim(rng.choice(NUM))
    fvals = [flat.gen(g) for _ in range(n)]
    name = rng.choice(ARITH if hasrec(t) else BINARY)
    args = [(t, vals), (flat, fvals)]
    if rng.random() < 0.5:
        args.reverse()
    arrays = [encode(ty, v, g) for ty, v in args]
    mon.say(types=[ty.sig() for ty, v in args], vals=[plain(v) for ty, v in args], name=name, cls=[type(x).__name__ for x in arrays])
    want = [apply(getattr(numpy, name), [ty for ty, v in args], vs) for vs in zip(*[v for ty, v in args])]
    got = compute(mon, name, arrays, arrays)
    mon.eq(got, want)


@SUITE.scenario(2*3000, 40000)
def flat_into_all(mon):
    """records, missing values and chunks combine with a flat array row by row"""
    rng = mon.rng
    g = mkg(mon)
    t = gen_type(g, rng.randint(0, 2), ("prim", "opt", "rec"))
    vals = [t.gen(g) for _ in range(size(rng))]
    flat = Prim(rng.choice(NUM))
    fvals = [flat.gen(g) for _ in vals]
    b = numpy.array(fvals, dtype=flat.dtype)
    if rng.random() < 0.2 and len(fvals):
        flat = Prim(rng.choice(["int64", "float64"]))
        fvals = [flat.gen(g) for _ in vals]
        b = list(fvals)
    name = rng.choice(ARITH if hasrec(t) else BINARY)
    a = encode(t, vals, g)
    left = rng.random() < 0.5
    args = [(flat, fvals, b), (t, vals, a)] if left else [(t, vals, a), (flat, fvals, b)]
    mon.say(types=[x[0].sig() for x in args], vals=[plain(x[1]) for x in args], name=name, cls=type(a).__name__)
    want = [apply(getattr(numpy, name), [x[0] for x in args], vs) for vs in zip(*[x[1] for x in args])]
    got = compute(mon, name, [x[2] for x in args], [a, b])
    mon.eq(got, want)


def both(x, y):
    """whether both hold, of results that may be missing or lists"""
    if x is None or y is None:
        return None
    if isinstance(x, list) or isinstance(y, list):
        n = len(x) if isinstance(x, list) else len(y)
        return [both(x[i] if isinstance(x, list) else x, y[i] if isinstance(y, list) else y) for i in range(n)]
    return x and y


@SUITE.scenario(2*2000, 30000)
def records_compared(mon):
    """records compare as true where every one of their columns does"""
    rng = mon.rng
    g = mkg(mon, wrap=set(["indexed", "virtual", "sparse"]))
    g2 = mkg(mon, wrap=set(["indexed", "virtual", "sparse"]))
    inner = [rng.choice(["prim", "prim", "prim", "rec"]) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.4:
        inner.append(rng.choice(["list", "opt"]))

    def col(k):
        x = Prim(rng.choice(NUM))
        return {"prim": x, "rec": Rec([("p", x), ("q", Prim("int64"))]), "list": Lst(x), "opt": Opt(x)}[k]
    t = Rec([("xyzw"[i], col(k)) for i, k in enumerate(inner)], istuple=rng.random() < 0.2)
    if t.istuple:
        t = Rec([(str(i), s) for i, (n, s) in enumerate(t.fields)], True)
    lists = "list" not in inner and "opt" not in inner and rng.random() < 0.4
    if lists:
        t = Lst(t)
    vals = [t.gen(g) for _ in range(size(rng))]
    vals2 = [v if rng.random() < 0.5 else w for v, w in zip(vals, structure(t, g, vals))]       # some the same
    name = rng.choice(["equal", "less", "less_equal", "greater", "greater_equal"])
    number = rng.random() < 0.15
    x = rng.choice([0, 1, 2.5])
    mon.say(type=t.sig(), vals=plain(vals), vals2=plain(vals2), name=name, number=x if number else None)
    uf = getattr(numpy, name)
    a = encode(t, vals, g)
    b = encode(t, vals2, g2)
    if rng.random() < 0.2:
        # (columns in chunks would have to be cut at the same places)
        cuts = [0] + sorted(rng.randint(0, len(vals)) for _ in range(2)) + [len(vals)]
        a = awkward0.ChunkedArray([encode(t, vals[i:j], g) for i, j in zip(cuts[:-1], cuts[1:])])
    if not number and rng.random() < 0.5:
        a, b, vals, vals2 = b, a, vals2, vals

    def collapse(r, v):
        if isinstance(r, Lst):
            return [collapse(r.of, z) for z in v]
        if isinstance(r, Rec):
            out = [collapse(s, v[i] if r.istuple else v[n]) for i, (n, s) in enumerate(r.fields)]
            total = True
            for z in out:
                total = both(total, z)
            return total
        return v
    if number:
        want = [collapse(t, apply(uf, [t, None], [v, x])) for v in vals]
        got = compute(mon, name, [a, x], [a])
    else:
        want = [collapse(t, apply(uf, [t, t], [v, w])) for v, w in zip(vals, vals2)]
        got = compute(mon, name, [a, b], [a, b])
    mon.eq(got, want)


@SUITE.scenario(2*2000, 30000)
def several_results(mon):
    """functions with two results (divmod, modf, frexp) give two arrays of the same structure"""
    rng = mon.rng
    g = mkg(mon)
    t = gen_type(g, rng.randint(0, 3), KINDS)
    vals = [t.gen(g) for _ in range(size(rng))]
    a = encode(t, vals, g)
    name = rng.choice(["modf", "frexp", "divmod"])
    uf = getattr(numpy, name)
    mon.say(type=t.sig(), vals=plain(vals), name=name, cls=type(a).__name__)
    args, ts = ([a], [t]) if name != "divmod" else ([a, 2], [t, None])
    got = mon.call(name, lambda: uf(*args), a)
    mon.check(isinstance(got, tuple) and len(got) == 2, lambda: "%s returned %s" % (name, type(got)))
    if not mon.judge:
        return
    for k in range(2):
        part = lambda *xs: pick(uf(*xs), k)
        want = [apply(part, ts, [v, 2][:len(ts)]) for v in vals]
        mon.eq(got[k], want, "result %d" % k)


def pick(out, k):
    return out[k]


@SUITE.scenario(2*3000, 40000)
def mismatched(mon):
    """operands of different lengths or different list lengths are refused"""
    rng = mon.rng
    g = mkg(mon)
    g2 = mkg(mon, wrap=set(["indexed", "virtual", "sparse"]))
    t = gen_type(g, rng.randint(0, 2), ("prim", "list", "list", "opt", "rec"))
    n = rng.choice([1, 2, 3, 5, 8])
    vals = [t.gen(g) for _ in range(n)]
    kind = rng.choice(["rows", "lists", "flat"])
    name = rng.choice(ARITH)
    t2 = t
    if kind == "flat":
        t2 = Prim(rng.choice(NUM))
        m = n + rng.choice([1, 2, -1])
        vals2 = [t2.gen(g) for _ in range(m)]
    elif kind == "lists":
        if not isinstance(t, Lst):
            t = t2 = Lst(t)
            vals = [t.gen(g) for _ in range(n)]
        vals2 = structure(t2, g, vals)
        i = rng.randrange(n)
        if rng.random() < 0.5 and len(vals2[i]):
            vals2[i] = vals2[i][:-1]
            if rng.random() < 0.5:
                vals2[rng.randrange(n)].append(t2.of.gen(g))        # the total may be the same
        else:
            vals2[i] = vals2[i] + [t2.of.gen(g)]
        if [len(v) for v in vals] == [len(v) for v in vals2]:
            raise Skip
    else:
        m = n + rng.choice([1, 2, -1])
        vals2 = structure(t2, g, vals)[:m]
        while len(vals2) < m:
            vals2.append(t2.gen(g))
    m = len(vals2)
    if 1 in (n, m) and n != m:
        # Numpy repeats single values
        raise Skip
    a = encode(t, vals, g)
    b = encode(t2, vals2, g2)
    args = [a, b] if rng.random() < 0.5 else [b, a]
    mon.say(type=t.sig(), type2=t2.sig(), kind=kind, vals=plain(vals), vals2=plain(vals2), name=name, cls=[type(x).__name__ for x in args])
    mon.raises(name, lambda: getattr(numpy, name)(*args), a, b)


@SUITE.scenario(2*1500, 20000)
def differently_cut(mon):
    """chunks that do not line up are refused, or else the rows still correspond"""
    rng = mon.rng
    g = mkg(mon)
    t = rng.choice([Prim(rng.choice(NUM)), Prim(rng.choice(NUM)), Lst(Prim("int64")), Reg("float64", [2]), Rec([("x", Prim("int64")), ("y", Prim("float64"))])])
    n = rng.choice([1, 2, 3, 4, 5, 8])
    vals = [t.gen(g) for _ in range(n)]
    vals2 = structure(t, g, vals)
    k = rng.choice([1, 2, 2, 3])

    def cut(v, k):
        edges = [0] + sorted(rng.randint(0, n) for _ in range(k - 1)) + [n]
        parts = [v[i:j] for i, j in zip(edges[:-1], edges[1:])]
        return awkward0.ChunkedArray([encode(t, x, g, 1) for x in parts], [len(x) for x in parts] if rng.random() < 0.5 else []), [len(x) for x in parts]
    a, sizes = cut(vals, k)
    b, sizes2 = cut(vals2, k if rng.random() < 0.7 else rng.choice([1, 2, 3]))
    name = rng.choice(ARITH)
    mon.say(type=t.sig(), vals=plain(vals), vals2=plain(vals2), sizes=[sizes, sizes2], name=name)
    one = getattr(numpy, name)(encode(t, vals, G(rng, pwrap=0.0)), encode(t, vals2, G(rng, pwrap=0.0)))
    try:
        out = getattr(numpy, name)(a, b)
        got = tolist(out)
    except ValueError:
        mon.events["refused chunks"] += 1
        mon.check(sizes != sizes2, lambda: "arrays with the same chunks were refused")
        return
    mon.check(len(out) == n, lambda: "%s of two arrays of length %d has length %d" % (name, n, len(out)))
    mon.eq(got, tolist(one), name + " of differently cut chunks")


@SUITE.scenario(2*1000, 20000)
def regular_outside(mon):
    """lists with a regular outer dimension, as the same positions of every list have"""
    rng = mon.rng
    g = mkg(mon, wrap=set(["indexed", "virtual"]))
    t, t2 = Prim(rng.choice(NUM)), Prim(rng.choice(NUM))
    n, d = rng.randint(1, 4), rng.randint(1, 3)
    vals = [[Lst(t).gen(g) for _ in range(d)] for _ in range(n)]
    a = grid(t, vals, g)
    if rng.random() < 0.3:
        rng.choice([lambda: a.counts, lambda: a.parents, lambda: a.valid()])()
    kind = rng.choice(["one", "number", "same", "numpy"])
    mon.say(type=t.sig(), type2=t2.sig(), vals=plain(vals), kind=kind, shape=(n, d))
    f = lambda uf, *args: [[[leafcall(uf, dts, [a[i][j][k] if isinstance(a, list) and isinstance(a[i][j], list) else a[i][j] if isinstance(a, list) else a
                                                for a in args]) for k in range(len(vals[i][j]))] for j in range(d)] for i in range(n)]
    if kind == "one":
        name = rng.choice(UNARY)
        dts = [t.dtype]
        mon.eq(compute(mon, name, [a], [a]), f(getattr(numpy, name), vals), "%s of lists in a regular dimension" % name)
        return
    name = rng.choice(BINARY[:-2])
    if kind == "number":
        b = vals2 = rng.choice([2, -1, 0.5, 3.0])
        dts = [t.dtype, None]
    elif kind == "same":
        vals2 = [[[t2.gen(g) for _ in x] for x in v] for v in vals]
        b = grid(t2, vals2, g)
        dts = [t.dtype, t2.dtype]
    else:
        vals2 = [[t2.gen(g) for _ in v] for v in vals]
        b = numpy.array(vals2, dtype=t2.dtype).reshape(n, d)
        dts = [t.dtype, t2.dtype]
    args, vs = [a, b], [vals, vals2]
    if rng.random() < 0.5:
        args, vs, dts = args[::-1], vs[::-1], dts[::-1]
    mon.eq(compute(mon, name, args, [a]), f(getattr(numpy, name), *vs), "%s of lists in a regular dimension" % name)
