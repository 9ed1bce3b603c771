"""P24: arrays with methods mixed in keep them, and the methods see the right data.

Marker classes are mixed in at random places of random arrays.  After every
operation the classes found in the result are compared with those the rules
name, and computed methods with the same computation done row by row.
"""
import random

import numpy
import awkward0
from akmon.monitor import Suite, Violation, Skip, tolist, meaning
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V

SUITE = Suite("P24")
SUITE.needs = {"retained": 10000, "transferred": 5000, "not transferred": 2000, "methods called": 5000, "overloaded": 1000}


class A(awkward0.Methods):
    def mark_a(self):
        return "a", len(self)


class B(awkward0.Methods):
    def mark_b(self):
        return "b", len(self)


class C(awkward0.Methods):
    def mark_c(self):
        return "c", len(self)


class D(awkward0.Methods):
    def mark_d(self):
        return "d", len(self)


class E(C):
    def mark_c(self):
        return "e", len(self)


MARKS = (A, B, C, D, E)
BASES = (awkward0.StringArray, awkward0.ObjectArray, awkward0.Table, awkward0.JaggedArray, awkward0.BitMaskedArray, awkward0.IndexedMaskedArray, awkward0.MaskedArray,
         awkward0.IndexedArray, awkward0.SparseArray, awkward0.UnionArray, awkward0.AppendableArray, awkward0.ChunkedArray, awkward0.VirtualArray)


def base(x):
    for b in BASES:
        if isinstance(x, b):
            return b
    return None


def marks(x):
    return tuple(c.__name__ for c in MARKS if isinstance(x, c))


def parts(x):
    if isinstance(x, awkward0.Table):
        return [("column " + n, y) for n, y in x.contents.items()]
    if isinstance(x, awkward0.ChunkedArray):
        return [("chunks", y) for y in x.chunks[:1]]
    if isinstance(x, (awkward0.StringArray, awkward0.UnionArray, awkward0.VirtualArray)) or not hasattr(x, "content"):
        return []
    return [("content", x.content)]


def mix(x, methods):
    """the array with methods mixed in, in one of the documented ways"""
    out = x.copy()
    cls = type(x)
    for m in reversed(methods):
        cls = type("Mixed", (m, cls), {}) if issubclass(cls, awkward0.Methods) else awkward0.Methods.mixin(m, cls)
    out.__class__ = cls
    return out


def marked(x, rng, log, p=0.6, where="", only=None):
    """the same array, with markers mixed in at random places"""
    b = base(x)
    if b is None:
        return x
    if b in (awkward0.UnionArray, awkward0.VirtualArray, awkward0.AppendableArray, awkward0.SparseArray, awkward0.IndexedArray):
        out = x
    elif b is awkward0.Table:
        out = x.copy()
        for n in list(x.contents):
            out.contents[n] = marked(x.contents[n], rng, log, p, where + "." + n)
    elif b is awkward0.ChunkedArray:
        seed = rng.randint(0, 10**9)
        out = x.copy(chunks=[marked(c, random.Random(seed), log if i == 0 else [], p, where + "#") for i, c in enumerate(x.chunks)])
        if len(out.chunks) and any(signature(c) != signature(out.chunks[0]) for c in out.chunks):
            out = x
    elif b is awkward0.StringArray:
        out = x
    else:
        out = x.copy()
        out._content = marked(x.content, rng, log, p, where + "*")
    if b is awkward0.IndexedArray:
        out = x.copy()
        out._content = marked(x.content, rng, log, p, where + "@")
        return out
    if b in (awkward0.UnionArray, awkward0.VirtualArray):
        return out
    if rng.random() < p:
        ms = rng.choice([[A], [B], [C], [D], [E], [A, B], [C, D]])
        out = mix(out, ms)
        log.append("%s%s:%s" % (where, b.__name__, "+".join(m.__name__ for m in ms)))
    return out


def signature(x):
    return (None if base(x) is None else base(x).__name__, marks(x), tuple((n, signature(y)) for n, y in parts(x)))


def usable(mon, x):
    """its marker methods can be called, and see this array"""
    for c in MARKS[:4]:
        if isinstance(x, c):
            got = getattr(x, "mark_" + c.__name__.lower())()
            mon.check(got == ("e" if isinstance(x, E) else c.__name__.lower(), len(x)), lambda: "method of %s gives %r" % (type(x).__name__, got))
            mon.events["methods called"] += 1


def kept(mon, got, plain, a, where):
    """wherever the result has the class the original has there, the methods are the original's"""
    if base(plain) is None or base(plain) is not base(a):
        return
    mon.check(base(got) is base(plain), lambda: "%s is a %s, without methods it is a %s" % (where or "the result", type(got).__name__, type(plain).__name__))
    mon.check(marks(got) == marks(a), lambda: "%s: methods %s of the %s became %s" % (where or "the result", marks(a), base(a).__name__, marks(got)))
    if marks(a):
        mon.events["retained"] += 1
    usable(mon, got)
    ps, qs, rs = parts(got), parts(plain), dict(parts(a))
    for (n, x), (m, y) in zip(ps, qs):
        if n in rs:
            kept(mon, x, y, rs[n], (where + " " + n).strip())


def check_values(mon, got, want, what):
    mon.eq(got, meaning(want) if not isinstance(want, numpy.ndarray) else want.tolist(), what)


KINDS = ("prim", "list", "opt", "rec", "str", "obj", "reg")


def make(mon, p=0.6, depth=3, size=(0, 1, 3, 5), kinds=KINDS, wrap=("chunked",), dtypes=None):
    rng = mon.rng
    g = mon.G(wrap=set(wrap), pwrap=rng.choice([0.0, 0.3]) if wrap else 0.0, wrapdepth=2, longcols=False, emptychunks=False, readonly=False, npviews=False)
    t = random_type(g, depth, kinds=kinds, dtypes=dtypes)
    vals = [t.gen(g) for _ in range(rng.choice(size))]
    plain = encode(t, vals, g)
    if base(plain) is None:
        raise Skip()
    log = []
    a = marked(plain, rng, log, p)
    if not log:
        raise Skip()
    mon.say(type=t.sig(), vals=V.plain(vals), marked=log)
    return t, vals, plain, a


def keeping(rng, n, a):
    """operations that keep the class of every part"""
    ops = []
    lo = rng.randint(-n - 1, n + 1)
    hi = rng.randint(-n - 1, n + 1)
    step = rng.choice([None, 1, 2, -1, -2])
    ops.append(("[%s:%s:%s]" % (lo, hi, step), lambda x: x[lo:hi:step]))
    index = [rng.randint(-n, n - 1) for _ in range(rng.randint(0, 5))] if n else []
    ops.append(("%r" % index, lambda x: x[index]))
    ops.append(("array %r" % index, lambda x: x[numpy.array(index, dtype="int64")]))
    mask = [rng.random() < 0.5 for _ in range(n)]
    ops.append(("%r" % mask, lambda x: x[numpy.array(mask, dtype=bool)]))
    ops.append(("copy", lambda x: x.copy()))
    ops.append(("deepcopy", lambda x: x.deepcopy()))
    return ops


@SUITE.scenario(5000, 80000, watch=False)
def retained(mon):
    """selecting and copying keep the methods of the array and of everything inside"""
    rng = mon.rng
    t, vals, plain, a = make(mon)
    check_values(mon, a, plain, "with methods")
    for _ in range(rng.choice([1, 1, 2, 3])):
        what, f = rng.choice(keeping(rng, len(a), a))
        mon.say(op=what)
        x, y = mon.call(what, lambda: f(a), a), f(plain)
        check_values(mon, x, y, what)
        kept(mon, x, y, a, "")
        a, plain = x, y
        if base(a) is None:
            break


@SUITE.scenario(2500, 40000, watch=False)
def inside(mon):
    """so do selections inside of lists, and structure-keeping conversions"""
    rng = mon.rng
    t, vals, plain, a = make(mon, kinds=rng.choice([("prim", "list"), ("prim", "list", "rec"), ("prim", "list", "rec", "opt")]), dtypes=("float64", "int64"))
    what = rng.choice(["zeros_like", "ones_like", "empty_like", "astype", "concatenate", "jagged", "inner", "nothing"])
    if what in ("zeros_like", "ones_like"):
        f = lambda x: getattr(x, what)()
    elif what == "empty_like":
        if isinstance(a, awkward0.Table):
            raise Skip()
        f = lambda x: x.empty_like()
    elif what == "astype":
        f = lambda x: x.astype("float32")
    elif what == "concatenate":
        f = lambda x: x.concatenate([x])
    elif what == "nothing":
        f = lambda x: x[()]
    else:
        if not isinstance(a, awkward0.JaggedArray) or len(a.starts.shape) != 1:
            raise Skip()
        counts = plain.counts.tolist()
        if what == "jagged":
            k = rng.choice(["bools", "ints"])
            if k == "bools":
                inner = [[rng.random() < 0.5 for _ in range(c)] for c in counts]
                w = awkward0.JaggedArray.fromcounts(counts, numpy.array([v for r in inner for v in r], dtype=bool))
            else:
                inner = [[rng.randint(-c, c - 1) for _ in range(rng.randint(0, 2))] if c else [] for c in counts]
                w = awkward0.JaggedArray.fromcounts([len(r) for r in inner], numpy.array([v for r in inner for v in r], dtype="int64"))
            mon.say(inner=inner)
            f = lambda x: x[w]
        else:
            hi = rng.randint(-3, 3)
            f = lambda x: x[:, :hi]
    mon.say(op=what)
    try:
        y = f(plain)
    except (TypeError, ValueError, NotImplementedError, AttributeError, IndexError):
        raise Skip()
    x = mon.call(what, lambda: f(a), a)
    if what != "empty_like":
        check_values(mon, x, y, what)
    if base(y) is base(a) and base(y) not in (awkward0.BitMaskedArray,):
        mon.check(marks(x) == marks(a), lambda: "%s: methods %s of the %s became %s" % (what, marks(a), type(a).__name__, marks(x)))
        if what in ("zeros_like", "ones_like", "empty_like", "astype", "jagged", "inner"):
            kept(mon, x, y, a, "")
    mon.events["retained"] += 1


def ruled(mon, got, a, where=""):
    """after an elementwise function: records and objects keep their methods, others have those of what they contain"""
    if base(got) is None:
        return ()
    if base(got) in (awkward0.Table, awkward0.ObjectArray):
        want = marks(a)
        originals = dict(parts(a))
        for n, x in parts(got):
            if n in originals:
                ruled(mon, x, originals[n], (where + " " + n).strip())
    else:
        inner = parts(a)
        want = ()
        for n, x in parts(got)[:1]:
            # (options and lists may have been rearranged: go by what is inside)
            y = a
            while base(y) is not None and base(y) not in (awkward0.Table, awkward0.ObjectArray):
                z = parts(y)
                if not z:
                    return None
                if wrapper(base(y)) == wrapper(base(got)):
                    y = z[0][1]
                    break
                y = z[0][1]
            want = ruled(mon, x, y, (where + " " + n).strip())
            if want is None:
                return None
    mon.check(marks(got) == want, lambda: "%s: a %s has methods %s instead of %s" % (where or "the result", type(got).__name__, marks(got), want))
    mon.events["transferred" if want else "not transferred"] += 1
    usable(mon, got)
    return want


def wrapper(b):
    return "option" if b is not None and issubclass(b, awkward0.MaskedArray) else b


@SUITE.scenario(4000, 60000, watch=False)
def ufuncs(mon):
    """after an elementwise function, records and objects keep their methods, and what contains them has them too"""
    rng = mon.rng
    t, vals, plain, a = make(mon, p=rng.choice([0.5, 1.0]), kinds=rng.choice([("prim", "list", "rec"), ("prim", "list", "rec", "opt"), ("prim", "list", "rec", "obj")]), size=(1, 3, 5), dtypes=("float64", "int64"))
    what, f = rng.choice([("-a", lambda x: -x), ("a + 1", lambda x: x + 1), ("1 + a", lambda x: 1 + x), ("a + a", lambda x: x + x), ("abs", numpy.absolute), ("divmod", lambda x: numpy.divmod(x, 2)), ("a > 0", lambda x: x > 0)])
    mon.say(op=what)
    with numpy.errstate(all="ignore"):
        try:
            y = f(plain)
        except (TypeError, ValueError, NotImplementedError, AttributeError, AssertionError):
            raise Skip()
        x = mon.call(what, lambda: f(a), a)
    for x, y in (zip(x, y) if isinstance(x, tuple) else [(x, y)]):
        check_values(mon, x, y, what)
        if base(y) is None:
            mon.check(base(x) is None, lambda: "%s: a %s instead of a NumPy array" % (what, type(x).__name__))
            continue
        mon.check(base(x) is base(y), lambda: "%s: a %s instead of a %s" % (what, type(x).__name__, type(y).__name__))
        if what == "a > 0":
            for n, z in [("", x)] + parts(x):
                if base(z) not in (awkward0.Table, None):
                    mon.check(base(parts(z)[0][1]) is not None or marks(z) == (), lambda: "%s: booleans with methods %s" % (what, marks(z)))
            continue
        ruled(mon, x, a)


@SUITE.scenario(4000, 60000, watch=False)
def columns(mon):
    """a column has its own methods, not those of the records around it"""
    rng = mon.rng
    g = mon.G(wrap=set(["chunked", "indexed"]), pwrap=rng.choice([0.0, 0.3]), wrapdepth=2, longcols=False, emptychunks=False, readonly=False, npviews=False)
    inner = Rec([(n, random_type(g, rng.choice([0, 1, 2]), kinds=KINDS)) for n in ("x", "y", "z")[:rng.randint(1, 3)]])
    t = inner
    for _ in range(rng.choice([0, 1, 1, 2])):
        t = rng.choice([Lst, Lst, Opt])(t)
        if isinstance(t, Opt) and isinstance(t.of, Opt):
            t = t.of
    vals = [t.gen(g) for _ in range(many(rng, 1, 3, 5))]
    plain = encode(t, vals, g)
    log = []
    a = marked(plain, rng, log, rng.choice([0.6, 1.0]))
    if not log:
        raise Skip()
    mon.say(type=t.sig(), vals=V.plain(vals), marked=log)
    table = a
    while base(table) is not awkward0.Table:
        p = parts(table)
        if not p:
            raise Skip()
        table = p[0][1]
    name = rng.choice([n for n, _ in inner.fields])
    if rng.random() < 0.75:
        mon.say(op="column", name=name)
        x, y = mon.call("column", lambda: a[name], a), plain[name]
        stop = table.contents[name]
    else:
        names = rng.sample([n for n, _ in inner.fields], rng.randint(1, len(inner.fields)))
        mon.say(op="columns", names=names)
        x, y = mon.call("columns", lambda: a[names], a), plain[names]
        stop = table
    check_values(mon, x, y, "column")
    mon.check(base(x) is base(y), lambda: "a %s instead of a %s" % (type(x).__name__, type(y).__name__))
    # the wrappers of the records, from the outside: each has the methods of what it now contains
    z, w, around = x, a, []
    while base(w) is not awkward0.Table:
        if base(z) is not base(w) or base(z) is awkward0.ChunkedArray and len(set(signature(c) for c in z.chunks)) > 1:
            return
        around.append((z, w))
        z, w = parts(z)[0][1], parts(w)[0][1]
    want = marks(z)
    if base(z) is not None and base(z) is base(stop):
        mon.check(want == marks(stop), lambda: "the column's methods %s became %s" % (marks(stop), marks(z)))
        mon.events["retained"] += 1
    elif base(z) is None:
        want = ()
    for z, w in around:
        if base(z) is awkward0.IndexedArray:
            return
        mon.check(marks(z) == want, lambda: "column %r of a %s with %s: methods %s instead of %s" % (name, base(w).__name__, marks(w), marks(z), want))
        mon.events["transferred" if want else "not transferred"] += 1
        usable(mon, z)


# ---------------------------------------------------------------- methods that compute

class Vector(awkward0.Methods):
    """methods for records with x and y, and for anything that contains them"""

    @property
    def norm2(self):
        return self["x"] * self["x"] + self["y"] * self["y"]

    def scaled(self, by):
        return self["x"] * by

    def above(self, cut):
        return self["x"] > cut


class Adding(Vector):
    """addition of vectors is swapped on purpose: x with y"""

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if ufunc is numpy.subtract and all(isinstance(v, Adding) for v in inputs):
            a, b = inputs
            out = self.copy() if not isinstance(self, awkward0.Table) else self[:]
            out = out.copy()
            x, y = a["x"] - b["y"], a["y"] - b["x"]
            out = self.Table(x=x, y=y) if not isinstance(self, awkward0.Table) else type(self)(x=x, y=y)
            return out
        return super(Adding, self).__array_ufunc__(ufunc, method, *inputs, **kwargs)


VTable = awkward0.Methods.mixin(Vector, awkward0.Table)
VJagged = awkward0.Methods.mixin(Vector, awkward0.JaggedArray)
ATable = awkward0.Methods.mixin(Adding, awkward0.Table)


def vectors(mon, cls, n):
    rng = mon.rng
    rows = [{"x": rng.randint(-9, 9), "y": rng.randint(-9, 9)} for _ in range(n)]
    return rows, cls(x=numpy.array([r["x"] for r in rows], dtype="int64"), y=numpy.array([r["y"] for r in rows], dtype="int64"))


def deep(f, v):
    if v is None:
        return None
    if isinstance(v, list):
        return [deep(f, u) for u in v]
    return f(v)


def within(mon, table, rows, wrapper=None):
    """the records inside of lists, options and others"""
    rng = mon.rng
    a, vals, depth = table, rows, 0
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        n = len(vals)
        k = rng.choice(["lists", "lists", "option", "bits", "indexedoption", "positions", "chunks", "virtual"])
        if k == "lists":
            cuts = sorted(rng.randint(0, n) for _ in range(rng.randint(0, 3)))
            off = [0] + cuts + [n]
            cls = VJagged if rng.random() < 0.5 else awkward0.JaggedArray
            a = cls.fromoffsets(off, a)
            vals = [vals[p:q] for p, q in zip(off[:-1], off[1:])]
            depth += 1
        elif k in ("option", "bits", "indexedoption"):
            if any(v is None for v in vals):
                continue
            mask = [rng.random() < 0.3 for _ in range(n)]
            if k == "option":
                a = awkward0.MaskedArray(mask, a)
            elif k == "bits":
                a = awkward0.BitMaskedArray.fromboolmask(numpy.array(mask, dtype=bool), a)
            else:
                a = awkward0.IndexedMaskedArray([-1 if m else p for p, m in enumerate(mask)], a)
            vals = [None if m else v for m, v in zip(mask, vals)]
        elif k == "positions":
            index = [rng.randrange(n) for _ in range(rng.randint(0, 5))] if n else []
            a = awkward0.IndexedArray(numpy.array(index, dtype="int64"), a)
            vals = [vals[p] for p in index]
        elif k == "chunks":
            if n == 0:
                continue
            c = rng.randint(0, n)
            a = awkward0.ChunkedArray([a[:c], a[c:]])
        else:
            a = awkward0.VirtualArray(lambda a=a: a)
        mon.say(**{"within%d" % i: k})
    return a, vals, depth


def carries(x):
    """the record array inside"""
    while not isinstance(x, awkward0.Table):
        if isinstance(x, awkward0.VirtualArray):
            x = x.array
        elif isinstance(x, awkward0.ChunkedArray):
            cs = [c for c in x.chunks if len(c)]
            if not cs:
                return None
            x = cs[0]
        elif hasattr(x, "content"):
            x = x.content
        else:
            return None
    return x


@SUITE.scenario(3000, 50000, watch=False)
def computing(mon):
    """methods compute the same for the selected rows as row by row"""
    rng = mon.rng
    rows, table = vectors(mon, VTable, rng.choice([1, 2, 4, 8]))
    mon.say(rows=rows)
    a, vals = table, rows
    for _ in range(rng.choice([0, 1, 2])):
        n = len(vals)
        k = rng.choice(["slice", "gather", "mask", "lists", "negate", "concat"])
        if k == "slice":
            s = slice(rng.randint(-n, n), rng.randint(-n, n), rng.choice([1, 2, -1]))
            a, vals = a[s], vals[s]
        elif k == "gather":
            idx_ = [rng.randint(-n, n - 1) for _ in range(rng.randint(0, 5))] if n else []
            a, vals = a[numpy.array(idx_, dtype="int64")], [vals[i] for i in idx_]
        elif k == "mask":
            m = [rng.random() < 0.6 for _ in range(n)]
            a, vals = a[numpy.array(m, dtype=bool)], [v for v, keep in zip(vals, m) if keep]
        elif k == "negate":
            a, vals = -a, [{"x": -v["x"], "y": -v["y"]} for v in vals]
        elif k == "concat":
            a, vals = a.concatenate([a]), vals + vals
        mon.say(op=k)
    mon.check(isinstance(a, Vector), "the methods are lost")
    a, vals, depth = within(mon, a, vals)
    got = carries(a)
    if got is not None:
        mon.check(isinstance(got, Vector), "the methods of the records are lost")
    if isinstance(a, Vector):
        k = rng.randint(-5, 5)
        mon.eq(mon.call("property", lambda: a.norm2, a), deep(lambda v: v["x"] ** 2 + v["y"] ** 2, vals), "norm2")
        mon.eq(mon.call("method", lambda: a.scaled(k), a), deep(lambda v: v["x"] * k, vals), "scaled")
        mon.eq(mon.call("method", lambda: a.above(k), a), deep(lambda v: v["x"] > k, vals), "above")
        mon.events["methods called"] += 3
        if isinstance(a, awkward0.JaggedArray):
            flat = depth == 1 and all(u is not None for v in vals for u in v)
            x = mon.call("select by method", lambda: a[a.above(k)] if flat else a, a)
            if flat:
                want = [[u for u in v if u["x"] > k] for v in vals]
                mon.eq(x, want, "lists selected by a method")
                mon.check(isinstance(x, Vector), "the methods are lost")
                mon.eq(x.norm2, deep(lambda v: v["x"] ** 2 + v["y"] ** 2, want), "norm2 of the selected")
                f = mon.call("flatten", lambda: x.flatten(), x)
                mon.check(carries(f) is None or isinstance(carries(f), Vector), "flattened records lost their methods")
                mon.eq(f["x"] if not isinstance(f, Vector) else f.norm2, [v["x"] for u in want for v in u] if not isinstance(f, Vector) else [v["x"] ** 2 + v["y"] ** 2 for u in want for v in u], "norm2 of the flattened")
                mon.events["methods called"] += 2
    else:
        y = mon.call("negate", lambda: -a, a)
        mon.eq(y, deep(lambda v: {"x": -v["x"], "y": -v["y"]}, vals), "negated")
        if isinstance(y, (awkward0.JaggedArray, awkward0.MaskedArray)) and not isinstance(y.content, awkward0.VirtualArray):
            if carries(y) is not None:
                mon.check(isinstance(y, Vector), "a %s of records with methods has no methods" % type(y).__name__)
                mon.eq(mon.call("property", lambda: y.norm2, y), deep(lambda v: v["x"] ** 2 + v["y"] ** 2, vals), "norm2 after negation")
                mon.events["methods called"] += 1


@SUITE.scenario(2000, 30000, watch=False)
def pairing(mon):
    """the two sides of pairs and of cross products have the methods of what they come from"""
    rng = mon.rng
    counts = [rng.randint(0, 3) for _ in range(rng.choice([1, 2, 4]))]
    rows, table = vectors(mon, VTable, sum(counts))
    a = rng.choice([VJagged, awkward0.JaggedArray]).fromcounts(counts, table)
    off = numpy.cumsum([0] + counts).tolist()
    lists = [rows[i:j] for i, j in zip(off[:-1], off[1:])]
    k = rng.choice(["pairs", "distincts", "cross", "choose"])
    mon.say(rows=lists, op=k)
    if k == "pairs":
        p = mon.call(k, lambda: a.pairs(), a)
        want = [[(x, y) for i, x in enumerate(r) for y in r[i:]] for r in lists]
    elif k == "distincts":
        p = mon.call(k, lambda: a.distincts(), a)
        want = [[(x, y) for i, x in enumerate(r) for y in r[i + 1:]] for r in lists]
    elif k == "choose":
        p = mon.call(k, lambda: a.choose(2), a)
        want = [[(x, y) for i, x in enumerate(r) for y in r[i + 1:]] for r in lists]
    else:
        b = awkward0.JaggedArray.fromcounts(counts[::-1], table)
        b = awkward0.JaggedArray.fromcounts(counts, table * 10)
        p = mon.call(k, lambda: a.cross(b), a, b)
        want = [[(x, {"x": y["x"] * 10, "y": y["y"] * 10}) for x in r for y in r] for r in lists]
    for side, x in ((0, p.i0), (1, p.i1)):
        mon.eq(x, [[w[side] for w in r] for r in want], "side %d" % side)
        mon.check(isinstance(x, Vector), lambda: "side %d has no methods: %s" % (side, type(x).__name__))
        mon.eq(mon.call("method", lambda: x.norm2, x), [[w[side]["x"] ** 2 + w[side]["y"] ** 2 for w in r] for r in want], "norm2 of side %d" % side)
        mon.events["methods called"] += 1
        mon.events["transferred"] += 1
    d = mon.call("difference", lambda: p.i0 - p.i1, p)
    mon.eq(d.norm2, [[(u["x"] - v["x"]) ** 2 + (u["y"] - v["y"]) ** 2 for u, v in r] for r in want], "norm2 of the difference")


@SUITE.scenario(2000, 30000, watch=False)
def overloaded(mon):
    """a function overloaded by the methods is used wherever the records are"""
    rng = mon.rng
    rows, table = vectors(mon, ATable, rng.choice([1, 2, 4, 8]))
    mon.say(rows=rows)
    k = random.Random(rng.randint(0, 10**9))
    state = mon.rng.getstate()
    a, vals, depth = within(mon, table, rows)
    if any(isinstance(x, Vector) and not isinstance(x, Adding) for x in [a]):
        raise Skip()
    other = [{"x": rng.randint(-9, 9), "y": rng.randint(-9, 9)} for _ in rows]
    swap = lambda v: {"x": v["x"] - v["y"], "y": v["y"] - v["x"]}
    got = mon.call("a - a", lambda: a - a, a)
    mon.eq(got, deep(swap, vals), "overloaded difference")
    if carries(got) is not None:
        mon.check(isinstance(carries(got), Adding), "the result has lost its methods")
    plus = mon.call("a + a", lambda: a + a, a)
    mon.eq(plus, deep(lambda v: {"x": 2 * v["x"], "y": 2 * v["y"]}, vals), "sum, not overloaded")
    mon.events["overloaded"] += 1


# ---------------------------------------------------------------- classes

@SUITE.scenario(1500, 20000, watch=False)
def classes(mon):
    """classes made by mixin, by maybemixin and by inheritance"""
    rng = mon.rng
    n = rng.randint(1, 4)
    vals = [rng.randint(-9, 9) for _ in range(n)]
    c = numpy.array(vals)
    makers = [
        (awkward0.JaggedArray, lambda cls: cls.fromcounts([1] * n, c), [[v] for v in vals]),
        (awkward0.JaggedArray, lambda cls: cls.fromoffsets(list(range(n + 1)), c), [[v] for v in vals]),
        (awkward0.JaggedArray, lambda cls: cls(numpy.arange(n), numpy.arange(n) + 1, c), [[v] for v in vals]),
        (awkward0.JaggedArray, lambda cls: cls.fromparents(numpy.arange(n), c), [[v] for v in vals]),
        (awkward0.Table, lambda cls: cls(x=c), [{"x": v} for v in vals]),
        (awkward0.MaskedArray, lambda cls: cls([False] * n, c), vals),
        (awkward0.IndexedMaskedArray, lambda cls: cls(numpy.arange(n), c), vals),
        (awkward0.BitMaskedArray, lambda cls: cls.fromboolmask(numpy.zeros(n, dtype=bool), c), vals),
        (awkward0.ObjectArray, lambda cls: cls(c, int), vals),
        (awkward0.StringArray, lambda cls: cls.fromiter([str(v) for v in vals]), [str(v) for v in vals]),
        (awkward0.ChunkedArray, lambda cls: cls([c]), vals),
        (awkward0.AppendableArray, lambda cls: cls((n,), c.dtype, [c]), vals),
        (awkward0.IndexedArray, lambda cls: cls(numpy.arange(n), c), vals),
        (awkward0.SparseArray, lambda cls: cls(n, numpy.arange(n), c), vals),
        (awkward0.UnionArray, lambda cls: cls.fromtags([0] * n, [c]), vals),
        (awkward0.VirtualArray, lambda cls: cls(lambda: c), vals),
    ]
    b, f, want = rng.choice(makers)
    how = rng.choice(["mixin", "maybemixin", "class", "assigned", "subclass", "both"])
    mon.say(base=b.__name__, how=how, vals=vals)
    before = set(dir(b))
    if how == "mixin":
        cls, expected = awkward0.Methods.mixin(A, b), ("A",)
    elif how == "maybemixin":
        donor = rng.choice([awkward0.Methods.mixin(B, x[0]) for x in makers])
        cls, expected = awkward0.Methods.maybemixin(donor, b), ("B",)
        mon.check(awkward0.Methods.maybemixin(b, awkward0.JaggedArray) is awkward0.JaggedArray, "maybemixin of a class without methods made another class")
    elif how == "class":
        cls, expected = type("Mine", (C, b), {"extra": lambda self: len(self)}), ("C",)
    elif how == "subclass":
        first = awkward0.Methods.mixin(D, b)
        cls, expected = type("Mine", (first,), {"extra": lambda self: len(self)}), ("D",)
        again = awkward0.Methods.maybemixin(cls, awkward0.JaggedArray)
        mon.check(issubclass(again, D) and issubclass(again, awkward0.JaggedArray), "methods of a subclass are not transferred")
    elif how == "both":
        cls, expected = type("Mine", (A, B, b), {}), ("A", "B")
        again = awkward0.Methods.maybemixin(cls, awkward0.JaggedArray)
        mon.check(issubclass(again, A) and issubclass(again, B) and issubclass(again, awkward0.JaggedArray), "methods of two classes are not transferred")
    else:
        cls, expected = awkward0.Methods.mixin(A, b), ("A",)
    mon.check(issubclass(cls, b) and cls is not b and set(dir(b)) == before, "not a new class on top of %s" % b.__name__)
    if how == "assigned":
        a = mon.call("make", lambda: f(b))
        x = a.copy()
        a.__class__ = cls
        mon.check(marks(x) == () and type(x) is b, "another array got methods too")
    else:
        a = mon.call("make", lambda: f(cls))
    mon.check(type(a) is cls, lambda: "made a %s" % type(a).__name__)
    mon.check(marks(a) == expected, lambda: "methods %s" % (marks(a),))
    usable(mon, a)
    mon.eq(a, want, "the array")
    mon.eq(f(b), want, "without methods")
    mon.check(marks(f(b)) == (), "the plain class has methods")
    mon.events["retained"] += 1
    y = mon.call("copy", lambda: a.copy(), a)
    mon.check(type(y) is cls, lambda: "a copy is a %s" % type(y).__name__)
    y = mon.call("deepcopy", lambda: a.deepcopy(), a)
    mon.check(type(y) is cls, lambda: "a deep copy is a %s" % type(y).__name__)
    if b not in (awkward0.IndexedArray, awkward0.SparseArray, awkward0.VirtualArray, awkward0.UnionArray):
        y = mon.call("slice", lambda: a[1:], a)
        mon.check(type(y) is cls, lambda: "a slice is a %s" % type(y).__name__)
        mon.eq(y, want[1:], "a slice")
    mon.check(b.__name__ in type(a).__name__ or how in ("class", "subclass", "both"), "named %s" % type(a).__name__)
