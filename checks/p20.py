"""P20: the declared type describes the elements, and types compare, hash and print by structure."""
import gc
import random

import numpy
import awkward0
import awkward0.type as AT
from akmon.monitor import Suite, Violation, Skip, tolist, observe
from akmon.layouts import *
from akmon import values as V
from akmon.decl import arraydiff, Any

SUITE = Suite("P20")
SUITE.needs = {"described": 5000, "agreed": 2000, "equal": 4000, "different": 4000, "paths": 900, "declared": 1000, "derived": 1500}
INF = numpy.inf
PRIMS = ["bool", "int8", "int64", "uint8", "float32", "float64", "int32", "complex128"]


# ------------------------------------------------------------- arrays

def has(t, kinds):
    if isinstance(t, kinds):
        return True
    if isinstance(t, (Lst, Opt)):
        return has(t.of, kinds)
    if isinstance(t, Rec):
        return any(has(x, kinds) for _, x in t.fields)
    if isinstance(t, Uni):
        return any(has(x, kinds) for x in t.of)
    return False


class NoDtype(Exception):
    pass


def pruned(t, vals):
    """an array of a union that has no elements at all is not a union"""
    if isinstance(t, Uni):
        if len(vals) == 0:
            return Any()
        return Uni([pruned(x, [v.value for v in vals if v.tag == i]) for i, x in enumerate(t.of)])
    if isinstance(t, Lst):
        return Lst(pruned(t.of, [x for v in vals for x in v]))
    if isinstance(t, Opt):
        return Opt(pruned(t.of, [v for v in vals if v is not None]))
    if isinstance(t, Rec):
        return Rec([(n, pruned(x, [v[i] if isinstance(v, tuple) else v[n] for v in vals])) for i, (n, x) in enumerate(t.fields)])
    return t


def want_shape(t):
    if isinstance(t, Reg):
        return t.inner
    if isinstance(t, Opt):
        return want_shape(t.of)
    if isinstance(t, Uni):
        raise NoDtype
    return ()


def want_dtype(t):
    if isinstance(t, (Prim, Reg)):
        return t.dtype
    if isinstance(t, Opt):
        return want_dtype(t.of)
    if isinstance(t, Uni):
        raise NoDtype
    if isinstance(t, Rec):
        out = []
        for n, x in t.fields:
            if want_shape(x) != ():
                raise NoDtype
            out.append((n, want_dtype(x)))
        return numpy.dtype(out)
    return numpy.dtype(object)


def layout(mon, t, **kw):
    wrap = set(["indexed", "chunked", "virtual", "appendable", "sparse"])
    if has(t, Uni):
        wrap.discard("appendable")
        wrap.discard("chunked"); wrap.discard("sparse")
        kw["longmask"] = False          # (cutting to the length of the mask may simplify a union)
    kw.setdefault("pwrap", mon.rng.choice([0.0, 0.2, 0.5]))
    kw.setdefault("wrapdepth", 2)
    return mon.G(wrap=wrap, anywhen=True, unsigned=True, longcols=False, **kw)


def numpy_or(x):
    """the type of an array of either kind"""
    return AT.fromarray(x) if isinstance(x, numpy.ndarray) else x.type


@SUITE.scenario(5000, 80000)
def described(mon):
    rng = mon.rng
    g0 = G(rng)
    t = random_type(g0, rng.choice([1, 2, 3, 3]))
    g = layout(mon, t)
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, 5))]
    mon.say(type=t.sig(), vals=V.plain(vals))
    a = encode(t, vals, g)
    if rng.random() < 0.2:
        observe(a, rng)
    n = len(vals)
    mon.events["described"] += 1
    tpe = mon.call("type", lambda: numpy_or(a), a)
    d = arraydiff(pruned(t, vals), n, tpe)
    mon.check(d is None, "declared type: %s" % d)
    mon.check(numpy_or(a) == tpe and str(numpy_or(a)) == str(tpe), "asked again, the type is another one")
    mon.check(AT.fromarray(a) == tpe, "fromarray makes another type than the array declares")
    if isinstance(a, numpy.ndarray) or has(t, Uni):
        return
    try:
        shape = (n,) + tuple(want_shape(t))
    except NoDtype:
        shape = None
    try:
        dtype = want_dtype(t)
    except NoDtype:
        dtype = None
    if shape is not None:
        got = mon.call("shape", lambda: a.shape, a)
        mon.check(tuple(got) == shape, "shape %r, want %r" % (got, shape))
        mon.check(mon.call("ndim", lambda: a.ndim, a) == len(shape), "ndim is not the length of the shape")
    if dtype is not None:
        got = mon.call("dtype", lambda: a.dtype, a)
        mon.check(got == dtype, "dtype %r, want %r" % (got, dtype))
    else:
        mon.raises("dtype of records of arrays", lambda: a.dtype, a, kinds=(TypeError,))
    text = mon.call("str", lambda: str(tpe), a)
    for name in "xyz":
        mon.check(tpe.hascolumn(name) == (name in columns(t)), "hascolumn(%r) is wrong" % name)
    lay = mon.call("layout", lambda: a.layout, a)
    mon.check(lay[()].array is a and len(lay) == len(list(lay)), "layout does not start at the array")
    str(lay), repr(lay)
    for pos in lay:
        mon.check(pos == () or pos[:-1] in lay.lookup, "layout has a node without a parent")
        mon.check(lay[pos].args is None or lay[pos].cls is type(lay[pos].array), "layout names another class")


def columns(t):
    if isinstance(t, (Lst, Opt)):
        return columns(t.of)
    if isinstance(t, Rec):
        return set(n for n, _ in t.fields)
    if isinstance(t, Uni):
        return set(n for x in t.of for n in columns(x))
    return set()

@SUITE.scenario(800, 10000)
def dimensions(mon):
    """an index (or tags) with more than one dimension puts its dimensions first"""
    rng = mon.rng
    g = mon.G(pwrap=rng.choice([0.0, 0.3]), longcols=False, unsigned=True)
    kind = rng.choice(["indexed", "indexed", "nested", "numpy"])
    t = rng.choice([Prim("int64"), Prim("float64"), Lst(Prim("float64")), Reg("int32", [2]), Reg("float64", [2, 3]), Str()])
    n = rng.randint(1, 4)
    vals = [t.gen(g) for _ in range(n)]
    shape = tuple(rng.randint(0 if i == 0 else 1, 4) for i in range(rng.randint(1, 4)))
    where = numpy.array([rng.randrange(n) for _ in range(int(numpy.prod(shape)))], dtype=int).reshape(shape)
    content = encode(t, vals, g)
    mon.say(type=t.sig(), index=where.tolist(), kind=kind)
    tpe = content.type if not isinstance(content, numpy.ndarray) else AT.fromarray(content)
    item = tpe.to
    if kind == "numpy":
        if not isinstance(t, (Prim, Reg)):
            raise Skip()
        a = nparr(vals, t.dtype, g)[where]
    elif kind == "nested":
        a = awkward0.IndexedArray(numpy.arange(len(where)), awkward0.IndexedArray(where, content))
    else:
        a = awkward0.IndexedArray(where, content)
    got = mon.call("type", lambda: AT.fromarray(a), a)
    want = AT.ArrayType(*(shape + (item,)))
    mon.check(got == want, lambda: "type of an index of shape %r is\n%s\nwant\n%s" % (shape, got, want))
    if kind != "nested":
        full = shape + (tuple(want_shape(t)) if isinstance(t, (Prim, Reg)) else ())
        mon.check(tuple(a.shape) == full, lambda: "shape %r, want %r" % (a.shape, full))
        mon.check(a.ndim == len(full), "ndim")
    mon.events["described"] += 1


@SUITE.scenario(2500, 40000)
def agree(mon):
    """the same logical type in two layouts, and another logical type"""
    rng = mon.rng
    g0 = G(rng)
    t = random_type(g0, rng.choice([1, 2, 3]))
    n = many(rng, 0, 1, 2, 4)
    out = []
    for k in range(2):
        g = layout(mon, t)
        vals = [t.gen(g) for _ in range(n)]
        if "any" in pruned(t, vals).sig():
            raise Skip
        out.append(encode(t, vals, g))
        mon.say(**{"vals%d" % k: V.plain(vals)})
    mon.say(type=t.sig())
    a, b = [numpy_or(x) for x in out]
    mon.events["agreed"] += 1
    mon.check(a == b and not (a != b), "equal logical types, but %s != %s" % (a, b))
    mon.check(hash(a) == hash(b) and len(set([a, b])) == 1, "equal types with different hashes")
    mon.check(str(a) == str(b), "equal layouts print\n%s\nand\n%s" % (a, b))
    u = random_type(g0, rng.choice([0, 1, 2]))
    if rng.random() < 0.5:
        u = variant(t, rng)
    g = layout(mon, u)
    vals = [u.gen(g) for _ in range(n)]
    if "any" in pruned(u, vals).sig():
        raise Skip
    c = numpy_or(encode(u, vals, g))
    mon.say(other=u.sig())
    same = nf(ast(t)) == nf(ast(u))
    mon.check((a == c) == same and (c == a) == same, "types of %s and %s: equal is %s" % (t.sig(), u.sig(), a == c))


def variant(t, rng):
    """a logical type that differs in one place"""
    if isinstance(t, Prim):
        return Prim(rng.choice([x for x in PRIMS if x != str(t.dtype)]))
    if isinstance(t, Reg):
        inner = list(t.inner)
        inner[rng.randrange(len(inner))] += 1
        return Reg(t.dtype, inner)
    if isinstance(t, Lst):
        return Lst(variant(t.of, rng)) if rng.random() < 0.8 else t.of
    if isinstance(t, Opt):
        return Opt(variant(t.of, rng)) if rng.random() < 0.8 else t.of
    if isinstance(t, Rec):
        fields = list(t.fields)
        i = rng.randrange(len(fields))
        fields[i] = (fields[i][0], variant(fields[i][1], rng)) if rng.random() < 0.7 else ("other", fields[i][1])
        return Rec(fields)
    if isinstance(t, Uni):
        of = list(t.of)
        i = rng.randrange(len(of))
        of[i] = variant(of[i], rng)
        return Uni(of)
    if isinstance(t, Str):
        return Byt()
    return Str()


# ------------------------------------------------------------- types by themselves

def ast(t):
    if isinstance(t, Prim):
        return ("prim", str(t.dtype))
    if isinstance(t, Reg):
        out = ("prim", str(t.dtype))
        for n in t.inner[::-1]:
            out = ("arr", n, out)
        return out
    if isinstance(t, Lst):
        return ("arr", INF, ast(t.of))
    if isinstance(t, Opt):
        return ("opt", ast(t.of))
    if isinstance(t, Rec):
        return ("rec",) + tuple((n, ast(x)) for n, x in t.fields)
    if isinstance(t, Uni):
        return ("uni",) + tuple(ast(x) for x in t.of)
    if isinstance(t, Str):
        return ("text", "str")
    if isinstance(t, Byt):
        return ("text", "bytes")
    return ("fn", 0)


def nf(x):
    """one representative for all ways of writing a type"""
    k = x[0]
    if k == "arr":
        return ("arr", x[1], nf(x[2]))
    if k == "opt":
        y = nf(x[1])
        return y if y[0] == "opt" else ("opt", y)
    if k == "uni":
        out = []
        for y in map(nf, x[1:]):
            out.extend(y[1:] if y[0] == "uni" else [y])
        return ("uni",) + tuple(sorted(out, key=repr))
    if k == "rec":
        fields = sorted((n, nf(y)) for n, y in x[1:])
        if fields and all(y[0] == "arr" and y[1] == fields[0][1][1] and y[1] != INF for _, y in fields):
            return ("arr", fields[0][1][1], nf(("rec",) + tuple((n, y[2]) for n, y in fields)))
        return ("rec",) + tuple(fields)
    if k == "fn":
        return ("fn",)
    return x


def build(x, rng=None, share=None):
    """the type object, by any of the documented ways of making one"""
    if share is not None and x in share and rng.random() < 0.5:
        return share[x]
    k = x[0]
    how = rng.random() if rng is not None else 0.0
    if k == "prim":
        out = numpy.dtype(x[1])
        if how > 0.7:
            return {"float64": float, "int64": int, "bool": bool, "complex128": complex}.get(x[1], out.type)
        return out
    if k == "text":
        return {"str": str, "bytes": bytes}[x[1]]
    if k == "fn":
        return FNS[x[1]]
    if k == "arr":
        dims, y = [x[1]], x[2]
        while how > 0.5 and y[0] == "arr":
            dims.append(y[1])
            y = y[2]
        if rng is not None and rng.random() < 0.2:
            dims = [numpy.int32(n) if n != INF else n for n in dims]
        out = AT.ArrayType(*(dims + [build(y, rng, share)]))
    elif k == "opt":
        out = AT.OptionType(build(x[1], rng, share))
    elif k == "uni":
        parts = [build(y, rng, share) for y in x[1:]]
        if how > 0.6 and isinstance(parts[0], AT.Type):
            out = AT.UnionType(parts[0])
            for p in parts[1:]:
                if isinstance(p, AT.Type):
                    out = out | AT.UnionType(p)
                else:
                    out.append(p)
        else:
            out = AT.UnionType(*parts)
    elif k == "rec":
        parts = [(n, build(y, rng, share)) for n, y in x[1:]]
        if how > 0.7 and len(parts) > 1:
            m = rng.randrange(1, len(parts))
            out = AT.TableType(**dict(parts[:m])) & AT.TableType(**dict(parts[m:]))
        elif how > 0.4:
            out = AT.TableType(**dict(parts))
        elif how > 0.2 and parts:
            dims, y = [], x[1][1]
            while y[0] == "arr" and rng.random() < 0.7:
                dims.append(y[1])
                y = y[2]
            if dims:
                out = AT.ArrayType(*([parts[0][0]] + dims + [build(y, rng, share)]))
            else:
                out = AT.ArrayType(parts[0][0], parts[0][1])
            for n, p in parts[1:]:
                out[n] = p
        else:
            out = AT.TableType()
            for n, p in parts:
                out[n] = p
    if share is not None:
        share[x] = out
    return out


FNS = [Point, lambda row: None, len, makepoint]


def random_ast(rng, depth):
    k = rng.choice(["prim", "prim", "text", "fn"] if depth == 0 else ["prim", "arr", "arr", "opt", "uni", "rec", "rec", "text"])
    if k == "prim":
        return ("prim", rng.choice(PRIMS))
    if k == "text":
        return ("text", rng.choice(["str", "bytes"]))
    if k == "fn":
        return ("fn", rng.randrange(len(FNS)))
    if k == "arr":
        return ("arr", rng.choice([0, 1, 2, 3, INF, INF]), random_ast(rng, depth - 1))
    if k == "opt":
        return ("opt", random_ast(rng, depth - 1))
    if k == "uni":
        return ("uni",) + tuple(random_ast(rng, depth - 1) for _ in range(rng.randint(1, 3)))
    names = rng.sample(["x", "y", "zed", "w"], rng.randint(1, 3))
    if rng.random() < 0.4:
        n = rng.choice([0, 1, 2])
        return ("rec",) + tuple((m, ("arr", n, random_ast(rng, depth - 1))) for m in names)
    return ("rec",) + tuple((m, random_ast(rng, depth - 1)) for m in names)


def rewrite(x, rng):
    """another way of writing the same type"""
    k = x[0]
    if k == "arr":
        y = rewrite(x[2], rng)
        if y[0] == "rec" and x[1] != INF and len(y) > 1 and rng.random() < 0.4:
            return ("rec",) + tuple((n, ("arr", x[1], z)) for n, z in y[1:])
        return ("arr", x[1], y)
    if k == "opt":
        y = ("opt", rewrite(x[1], rng))
        while rng.random() < 0.3:
            y = ("opt", y)
        return y
    if k == "uni":
        parts = [rewrite(y, rng) for y in x[1:]]
        rng.shuffle(parts)
        while rng.random() < 0.4:
            i = rng.randrange(len(parts))
            j = rng.randrange(i, len(parts)) + 1
            parts = parts[:i] + [("uni",) + tuple(parts[i:j])] + parts[j:]
        return ("uni",) + tuple(parts)
    if k == "rec":
        parts = [(n, rewrite(y, rng)) for n, y in x[1:]]
        rng.shuffle(parts)
        if parts and all(y[0] == "arr" and y[1] == parts[0][1][1] and y[1] != INF for _, y in parts) and rng.random() < 0.5:
            return ("arr", parts[0][1][1], ("rec",) + tuple((n, y[2]) for n, y in parts))
        return ("rec",) + tuple(parts)
    if k == "fn":
        return ("fn", rng.randrange(len(FNS)))
    return x


def mutate(x, rng):
    """a type that (most likely) differs in one place"""
    k = x[0]
    if k == "prim":
        return ("prim", rng.choice(PRIMS)) if rng.random() < 0.7 else ("text", "str")
    if k == "text":
        return ("text", "bytes" if x[1] == "str" else "str") if rng.random() < 0.6 else ("fn", 0)
    if k == "fn":
        return ("text", "str")
    if rng.random() < 0.25:
        return rng.choice([("opt", x), ("arr", INF, x), ("arr", 2, x), ("uni", x), ("uni", x, ("prim", "int8")), ("rec", ("x", x))])
    if k == "arr":
        return ("arr", rng.choice([0, 1, 2, 3, INF]), x[2]) if rng.random() < 0.4 else ("arr", x[1], mutate(x[2], rng))
    if k == "opt":
        return x[1] if rng.random() < 0.3 else ("opt", mutate(x[1], rng))
    parts = list(x[1:])
    i = rng.randrange(len(parts))
    if k == "uni":
        r = rng.random()
        if r < 0.2:
            del parts[i]
        elif r < 0.4:
            parts.append(rng.choice(parts))
        else:
            parts[i] = mutate(parts[i], rng)
        return ("uni",) + tuple(parts or [("prim", "bool")])
    r = rng.random()
    if r < 0.2:
        parts[i] = ("other", parts[i][1])
    elif r < 0.4:
        parts.append(("more", ("prim", "bool")))
    else:
        parts[i] = (parts[i][0], mutate(parts[i][1], rng))
    return ("rec",) + tuple(parts)


@SUITE.scenario(9000, 150000, watch=False)
def pairs(mon):
    rng = mon.rng
    x = random_ast(rng, rng.choice([1, 2, 3, 4]))
    r = rng.random()
    y = rewrite(x, rng) if r < 0.5 else rewrite(mutate(x, rng), rng) if r < 0.95 else random_ast(rng, 3)
    x, y = ("arr", 5, x), ("arr", 5, y)
    mon.say(one=x, two=y)
    a, b = build(x, rng, {}), build(y, rng, {})
    sa, sb = str(a), repr(b)
    same = nf(x) == nf(y)
    mon.events["equal" if same else "different"] += 1
    for one, two in ((a, b), (b, a)):
        mon.check((one == two) == same and (one != two) == (not same), "%s == %s is %s" % (one, two, one == two))
    mon.check(a == a and b == b, "a type is not equal to itself")
    mon.check(str(a) == sa and repr(b) == sb, "comparing changed how a type prints")
    if same:
        mon.check(hash(a) == hash(b), "equal types with different hashes: %r %r" % (a, b))
        mon.check(len(set([a, b])) == 1 and {a: 1}[b] == 1, "equal types as two keys")
    else:
        mon.check(len(set([a, b])) == 2, "different types as one key")
    mon.check(str(a) == sa and repr(b) == sb, "hashing changed how a type prints")
    # alone, without any sharing of parts
    c, d = build(x, random.Random(1)), build(x, random.Random(1))
    mon.check(str(c) == str(d) and repr(c) == repr(d), "the same type prints in two ways")
    mon.check(c == a and hash(c) == hash(a), "sharing parts makes another type")
    if not same and str(c) == str(build(y, random.Random(1))):
        raise Violation("different types print alike: %s" % c)
    if not any(z in repr(c) for z in ("<", "T0")):
        mon.events["evaluated"] += 1
        e = eval(repr(c), {"ArrayType": AT.ArrayType, "TableType": AT.TableType, "UnionType": AT.UnionType, "OptionType": AT.OptionType, "dtype": numpy.dtype, "inf": INF})
        mon.check(e == c, "%r does not say what type it is" % c)


@SUITE.scenario(1500, 20000, watch=False)
def declared(mon):
    """a virtual array accepts a generator that makes what it declares, and no other"""
    rng = mon.rng
    g0 = G(rng)
    t = random_type(g0, rng.choice([0, 1, 2]))
    n = many(rng, 0, 1, 3)
    g = layout(mon, t)
    arr = encode(t, [t.gen(g) for _ in range(n)], g)
    x = ("arr", n, ast(t))
    if has(t, Uni):
        raise Skip
    r = rng.random()
    y = rewrite(x, rng) if r < 0.5 else ("arr", n + 1, x[2]) if r < 0.6 else ("arr", n, rewrite(ast(variant(t, rng)), rng))
    mon.say(made=x, declares=y)
    d = build(y, rng, {})
    if not isinstance(d, AT.ArrayType):
        raise Skip
    mon.events["declared"] += 1
    v = awkward0.VirtualArray(lambda: arr, type=d)
    mon.check(v.type is d, "declares another type than it was given")
    mon.check(v.shape == d.shape if not has(t, (Uni, Rec)) and "uni" not in repr(y) and "rec" not in repr(y) else True, "shape")
    if nf(x) == nf(y):
        mon.check(mon.call("materialize", lambda: v.array) is arr, "made another array")
        mon.check(v.type == d, "declares another type once made")
    elif "opt" not in repr(y):
        mon.raises("materialize another type", lambda: v.array, kinds=(TypeError,))
    else:
        raise Skip


# ------------------------------------------------------------- recursive types

def tree(rng, leaf, how, n):
    """records that refer to records of the same kind, in several layouts"""
    t = awkward0.Table()
    t["value"] = numpy.arange(n).astype(leaf)
    if how == "lists":
        counts = [rng.randint(0, 2) for _ in range(n)]
        if rng.random() < 0.5:
            t["next"] = awkward0.JaggedArray.fromcounts(counts, awkward0.IndexedArray(numpy.array([rng.randrange(n) for _ in range(sum(counts))], dtype=int), t))
        else:
            t["next"] = awkward0.IndexedArray(numpy.arange(n), awkward0.JaggedArray.fromcounts(counts, awkward0.IndexedArray(numpy.array([rng.randrange(n) for _ in range(sum(counts))], dtype=int), t)))
    elif how == "option":
        index = [rng.randrange(-1, n) for _ in range(n)]
        if rng.random() < 0.5:
            t["next"] = awkward0.IndexedMaskedArray(index, t)
        else:
            t["next"] = awkward0.MaskedArray([i < 0 for i in index], awkward0.IndexedArray([max(0, i) for i in index], t))
    elif how == "union":
        index = numpy.array([rng.randrange(n) for _ in range(n)])
        t["next"] = awkward0.UnionArray(numpy.array([rng.randrange(2) for _ in range(n)]), index, [t, numpy.arange(n) * 1.5])
    else:
        u = awkward0.Table()
        u["other"] = numpy.arange(n).astype(leaf)
        u["back"] = awkward0.IndexedMaskedArray([rng.randrange(-1, n) for _ in range(n)], t)
        t["next"] = awkward0.JaggedArray.fromcounts([1] * n, awkward0.IndexedArray(numpy.arange(n), u))
    return t


def step(tpe, how):
    """the type of what a record refers to"""
    x = tpe["next"]
    if how == "lists":
        assert x.takes == INF
        return x.to
    if how == "option":
        return x.type
    if how == "union":
        return [y for y in x if isinstance(y, AT.Type)][0]
    assert x.takes == INF and x.to.columns == ["other", "back"]
    return x.to["back"].type


@SUITE.scenario(700, 8000, watch=False)
def recursive(mon):
    rng = mon.rng
    how = rng.choice(["lists", "option", "union", "mutual"])
    leaf = rng.choice(["int64", "float64", "float32"])
    n = rng.choice([1, 2, 5])
    mon.say(how=how, leaf=leaf, n=n)
    t, u = tree(rng, leaf, how, n), tree(rng, leaf, how, n)
    a = mon.call("type", lambda: t.type)
    b = u.type
    x = a.to
    for i in range(rng.randint(0, 4)):
        mon.events["paths"] += 1
        mon.check(isinstance(x, AT.TableType) and x.columns == ["value", "next"] and x["value"] == numpy.dtype(leaf), "after %d steps the type is %s" % (i, x))
        x = step(x, how)
    for one, two in ((a, b), (b, a), (a, a), (a, AT.ArrayType(n, x)), (AT.ArrayType(n, x), b)):
        mon.check(one == two and not one != two, "%s is not equal to %s" % (one, two))
        mon.check(hash(one) == hash(two) and len(set([one, two])) == 1, "equal recursive types with different hashes")
    text = str(a)
    mon.check(str(b) == text and str(t.type) == text and text.count(":=") >= 1 and text.count("T0") >= 2, "prints as %s" % text)
    mon.check(repr(t.type) == repr(a), "repr")
    for lf, hw, m in ((leaf, rng.choice([z for z in ("lists", "option", "union", "mutual") if z != how]), n), (rng.choice([z for z in ("int8", "bool", "int16")]), how, n), (leaf, how, n + 1)):
        c = tree(rng, lf, hw, m).type
        mon.check(not a == c and not c == a, "%s is equal to %s" % (a, c))
    mon.check(a.hascolumn("next") and not a.hascolumn("nothing"), "hascolumn of a recursive type")
    lay = t.layout
    mon.check(any(y.cls == () for y in lay.values()) or len(str(lay)) > 0, "layout")
    w = AT.ArrayType(n, x | AT.UnionType(float))
    mon.check(not w == a, "a union is not its first possibility")
    # and what is selected has the same type
    i = rng.randrange(n)
    mon.check(arr_type(t[i:]) == AT.ArrayType(n - i, x), "a part of the array has another type")


def arr_type(x):
    return AT.fromarray(x)


# ------------------------------------------------------------- making types

@SUITE.scenario(1500, 20000, watch=False)
def derived(mon):
    rng = mon.rng
    mon.events["derived"] += 1
    k = rng.randrange(4)
    if k == 0:
        shape = tuple(rng.randint(0, 3) for _ in range(rng.randint(1, 3)))
        inner = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 2)))
        p = rng.choice(PRIMS)
        dt = numpy.dtype((p, inner)) if inner else numpy.dtype(p)
        mon.say(shape=shape, dtype=str(dt))
        got = AT.fromnumpy(shape, dt)
        x = ("prim", p)
        for n in (shape + inner)[::-1]:
            x = ("arr", n, x)
        mon.check(got == build(x), "fromnumpy(%r, %r) is %r" % (shape, dt, got))
        mon.check(got == AT.fromarray(numpy.zeros(shape, dt)), "fromnumpy and fromarray disagree")
        mon.check(got.shape == shape + inner and got.dtype == numpy.dtype(p), "shape and dtype")
        mon.check(AT.fromnumpy(shape, dt, masked=True) == AT.OptionType(got), "masked")
        if len(shape) == 1:
            mon.check(AT.fromnumpy(shape[0], dt) == got, "fromnumpy of a length")
    elif k == 1:
        xs = [random_ast(rng, 2) for _ in range(2)]
        a, b = [build(x, rng) for x in xs]
        mon.say(xs=xs)
        if not isinstance(a, AT.Type) or not isinstance(b, AT.Type):
            raise Skip
        s = str(a), str(b)
        got = a | b
        mon.check(got == build(("uni",) + tuple(xs)) and got == (b | a), "%r | %r is %r" % (a, b, got))
        mon.check((str(a), str(b)) == s, "making a union changed its parts")
    elif k == 2:
        names = rng.sample(["a", "b", "c", "d"], 4)
        fields = [(n, random_ast(rng, 1)) for n in names]
        m = rng.randint(1, 3)
        one, two = ("rec",) + tuple(fields[:m]), ("rec",) + tuple(fields[m:])
        a, b = AT.TableType(), AT.TableType()
        for n, x in fields[:m]:
            a[n] = build(x)
        for n, x in fields[m:]:
            b[n] = build(x)
        mon.say(one=one, two=two)
        got = a & b
        mon.check(got == build(("rec",) + tuple(fields)) and got.columns == names, "%r & %r is %r" % (a, b, got))
        mon.check(a.columns == names[:m] and b.columns == names[m:], "joining records changed its parts")
        n = rng.choice(names)
        del got[n]
        mon.check(got == build(("rec",) + tuple(f for f in fields if f[0] != n)) and not got.hascolumn(n), "deleting a field")
        mon.check((a.hascolumn(n), b.hascolumn(n)) == (n in names[:m], n in names[m:]), "deleting a field changed the parts")
    else:
        # structured Numpy arrays are records; masked Numpy arrays are options
        names = ["p", "q"]
        ps = [rng.choice(PRIMS) for _ in names]
        n = rng.randint(0, 3)
        mon.say(ps=ps, n=n)
        got = AT.fromarray(numpy.zeros(n, dtype=list(zip(names, ps))))
        mon.check(got == build(("arr", n, ("rec",) + tuple((m, ("prim", p)) for m, p in zip(names, ps)))), "structured array has type %r" % got)
        mon.check(got.to.dtype == numpy.dtype(list(zip(names, ps))), "its dtype")
        got = AT.fromarray(numpy.ma.MaskedArray(numpy.zeros((n, 2), dtype=ps[0])))
        mon.check(got == build(("arr", n, ("opt", ("arr", 2, ("prim", ps[0]))))), "masked array has type %r" % got)
