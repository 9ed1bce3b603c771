"""P18: an appendable array holds what was appended, in order, and nothing else."""
import copy
import pickle

import numpy
import awkward0
from akmon.monitor import Suite, Violation, Skip, tolist
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V

SUITE = Suite("P18")
SUITE.needs = {"appended": 12000, "extended": 6000, "refused": 1500, "reads": 20000, "views": 2500, "views rechecked": 14000}

DTYPES = ["int64", "int32", "int8", "uint8", "uint64", "float64", "float32", "bool", "complex128", "datetime64[s]", "int64>"]


def poison(n=4):
    """leave recognisable garbage in memory that is about to be allocated"""
    for size in (8, 16, 64, 256, 1024):
        xs = [numpy.full(size, 0xAB, dtype="u1") for _ in range(n)]
        del xs


class Model(object):
    def __init__(self, mon):
        rng = self.rng = mon.rng
        name = rng.choice(DTYPES[:9]) if rng.random() < 0.8 else rng.choice(DTYPES)
        self.dtype = numpy.dtype(">i8") if name == "int64>" else numpy.dtype(name)
        self.inner = rng.choice([(), (), (), (2,), (2, 3), (1,)])
        self.vals = []          # one Numpy array of shape inner each

    def value(self):
        rng = self.rng
        x = numpy.empty(self.inner, dtype=self.dtype)
        for i in numpy.ndindex(*self.inner):
            x[i] = self.scalar()
        return x

    def scalar(self):
        rng, k = self.rng, self.dtype.kind
        if k == "b":
            return rng.random() < 0.5
        if k == "M":
            return numpy.datetime64(rng.randint(0, 10**9), "s")
        if k in "SU":
            s = "".join(rng.choice("abc") for _ in range(rng.randint(0, 3)))
            return s.encode() if k == "S" else s
        if k == "c":
            return complex(rng.randint(1, 9), rng.randint(1, 9))
        if k == "f":
            return rng.choice([rng.randint(1, 9) + 0.5, float("nan"), float("inf")])
        info = numpy.iinfo(self.dtype)
        return rng.choice([rng.randint(1, 99), int(info.max), int(info.min)])

    def array(self, vals):
        out = numpy.empty((len(vals),) + self.inner, dtype=self.dtype)
        for i, x in enumerate(vals):
            out[i] = x
        return out

    def tolist(self, vals=None):
        return self.array(self.vals if vals is None else vals).tolist()

    def given(self, x):
        """a value, the way users give it"""
        r = self.rng.random()
        if r < 0.4:
            return x.tolist() if self.inner else x[()]
        if r < 0.7 and self.dtype.kind not in "M":
            return x.tolist()
        return x


def check(mon, m, a, n, what):
    """all ways of reading agree with the model"""
    rng = mon.rng
    want = m.tolist()
    w = rng.randrange(12)
    mon.events["reads"] += 1
    if w == 0:
        mon.check(mon.call("len", lambda: len(a)) == n, lambda: "%s: length %d, want %d" % (what, len(a), n))
    elif w == 1:
        mon.eq(mon.call("iter", lambda: [tolist(x) for x in a]), want, what + ", iterated")
    elif w == 2 and n:
        i = rng.randrange(-n, n)
        mon.eq(mon.call("getitem", lambda: a[i]), want[i], what + "[%d]" % i)
    elif w == 3:
        i = rng.choice([n, n + 1, n + 7, -n - 1])
        mon.raises("out of range", lambda: a[i])
    elif w == 4:
        s = random_where(rng, n)
        mon.eq(mon.call("select", lambda: a[s]), take(want, s), what + "[%s]" % V.short(s))
    elif w == 5:
        x = mon.call("array", lambda: numpy.array(a))
        mon.check(len(x) == n, what + ", as a Numpy array, has another length")
        mon.eq(x, want, what + ", as a Numpy array")
    elif w == 6 and m.dtype.kind in "iuf":
        mon.eq(mon.call("ufunc", lambda: numpy.negative(a)), (-m.array(m.vals)).tolist(), "-" + what)
    elif w == 7 and m.dtype.kind in "iub" and not m.inner:
        x = m.array(m.vals)
        mon.check(mon.call("count", lambda: a.count()) == n, what + ": count")
        if n:
            mon.eq(mon.call("max", lambda: a.max()), x.max().item(), "max of " + what)
            mon.eq(mon.call("min", lambda: a.min()), x.min().item(), "min of " + what)
        mon.eq(mon.call("sum", lambda: a.sum()), x.astype(a.sum().dtype).sum().item(), "sum of " + what)
    elif w == 8:
        mon.check(mon.call("type", lambda: a.type).takes == n, what + ": type")
        mon.check(mon.call("dtype", lambda: a.dtype) == m.dtype, what + ": dtype")
        mon.check(mon.call("shape", lambda: tuple(a.shape)) == (n,) + m.inner, what + ": shape")
    elif w == 9:
        str(a), repr(a)
        o = mon.call("offsets", lambda: a.offsets)
        mon.check(o[0] == 0 and o[-1] == n, what + ": offsets")
    elif w == 10 and n:
        i = rng.randrange(-n, n)
        c, j = mon.call("global2local", lambda: a.global2local(i))
        mon.eq(c[j], want[i], "global2local of " + what)
        cid = a.global2chunkid(i)
        mon.check(a.local2global(j, cid) == i % n, "local2global of " + what)
    mon.eq(mon.call("tolist", lambda: a.tolist()), want, what)


@SUITE.scenario(3000, 40000, watch=False)
def histories(mon):
    rng = mon.rng
    m = Model(mon)
    size = rng.choice([1, 2, 3, 4, 5, 7, 16])
    shape = (size,) + m.inner
    start = []
    poison()
    if rng.random() < 0.3:
        start = [[m.value() for _ in range(rng.choice([0, 1, 2, size]))] for _ in range(rng.randint(1, 2))]
    made = [m.array(c) for c in start]
    cs = rng.choice([shape, list(shape)]) if m.inner or rng.random() < 0.5 else size
    a = mon.call("new", lambda: awkward0.AppendableArray(cs, m.dtype, made) if start or rng.random() < 0.5 else awkward0.AppendableArray(cs, m.dtype))
    for c in start:
        m.vals.extend(c)
    mon.say(chunkshape=shape, dtype=str(m.dtype), start=[len(c) for c in start])
    others = []                      # other appendable arrays with models of their own
    views = []                       # (what, array, values)
    trace = []

    def model(vals):
        q = Model.__new__(Model)
        q.rng, q.dtype, q.inner, q.vals = rng, m.dtype, m.inner, list(vals)
        return q

    live = [(a, m)]
    for step in range(rng.randint(3, 25)):
        a, q = rng.choice(live)
        n = len(q.vals)
        act = rng.choice(["append"] * 6 + ["extend"] * 4 + ["wrong", "view", "view", "copy", "read", "read", "self", "other", "pickle", "chunkshape"])
        trace.append(act)
        mon.say(trace=" ".join(trace), length=n)
        if act == "append":
            x = q.value()
            v = q.given(x)
            mon.call("append", lambda: a.append(v))
            q.vals.append(x)
            mon.events["appended"] += 1
        elif act == "extend":
            xs = [q.value() for _ in range(rng.choice([0, 1, 2, size - 1, size, size + 1, 3 * size + 1]))]
            how = rng.randrange(5)
            arr = q.array(xs)
            given = arr if how == 0 else arr[::-1].copy()[::-1] if how == 1 else list(arr) if how == 2 or q.dtype.kind == "M" else arr.tolist() if how == 3 else awkward0.ChunkedArray([arr[:1], arr[1:]]) if len(xs) > 1 else arr
            mon.call("extend", lambda: a.extend(given))
            q.vals.extend(xs)
            mon.events["extended"] += 1
            if isinstance(given, numpy.ndarray):
                mon.eq(given, q.tolist(xs), "the argument of extend")
                given[...] = numpy.zeros(1, dtype=q.dtype)      # it was copied
        elif act == "chunkshape":
            size = rng.choice([1, 2, 3, 5, 8])          # of the chunks that will be made
            a.chunkshape = (size,) + m.inner if m.inner or rng.random() < 0.5 else size
            mon.check(tuple(a.chunkshape) == (size,) + m.inner, "chunkshape")
        elif act == "wrong":
            bad = rng.choice([numpy.zeros((3, 5, 7)), [[[1, 2, 3, 4, 5]]], [1, 2, 3, 4, 5], object()] + (["text"] if q.dtype.kind not in "SUb" else []))
            try:
                mon.call("append", lambda: a.append(bad))
            except (ValueError, TypeError):
                mon.events["refused"] += 1
            else:
                if q.dtype.kind in "SU" and not isinstance(bad, (list, numpy.ndarray)) or q.dtype.kind == "b" or (isinstance(bad, str)):
                    return          # (Numpy makes something of it)
                raise Violation("append accepted %s" % V.short(bad))
        elif act == "self" and n < 200:
            b = a if rng.random() < 0.5 else rng.choice(live)[0]
            more = [x for y, z in live if y is b for x in z.vals]
            if len(more) > 200:
                continue
            mon.call("extend", lambda: a.extend(b))
            q.vals.extend(more)
            mon.events["extended"] += 1
        elif act == "other" and len(live) < 4:
            b = awkward0.AppendableArray(cs, m.dtype)
            live.append((b, model([])))
        elif act == "copy" and len(live) < 4:
            how = rng.choice(["copy", "deepcopy", "all", "rows"])
            if how == "all":
                b, vals = mon.call("all", lambda: a[:]), q.vals
            elif how == "rows":
                s = random_slice(rng, n)
                b, vals = mon.call("rows", lambda: a[s]), q.vals[s]
            else:
                b, vals = mon.call(how, lambda: getattr(a, how)()), q.vals
            if isinstance(b, awkward0.AppendableArray):
                live.append((b, model(vals)))
            else:
                views.append((how, b, q.tolist(vals)))
        elif act == "pickle" and q.dtype.kind in "iufb" and len(live) < 4:
            if rng.random() < 0.5:
                b = mon.call("pickle", lambda: pickle.loads(pickle.dumps(a)))
            else:
                storage = {}
                b = mon.call("serialize", lambda: (awkward0.persist.serialize(a, storage), awkward0.persist.deserialize(storage))[1])
            mon.check(isinstance(b, awkward0.AppendableArray), "it is not appendable any more")
            live.append((b, model(q.vals)))
        elif act == "view":
            w = rng.randrange(6)
            want = q.tolist()
            if w == 0:
                s = random_where(rng, n)
                views.append(("selection", mon.call("select", lambda: a[s]), take(want, s)))
            elif w == 1 and n:
                s = rng.randrange(n)
                views.append(("element", mon.call("getitem", lambda: a[s]), want[s]))
            elif w == 2 and q.dtype.kind in "iuf":
                views.append(("ufunc", mon.call("ufunc", lambda: a + a), (q.array(q.vals) + q.array(q.vals)).tolist()))
            elif w == 3 and n:
                views.append(("concatenated", mon.call("concatenate", lambda: awkward0.concatenate([a, a])), want + want))
            elif w == 4 and not q.inner and n:
                c = rng.randrange(n + 1)
                views.append(("in lists", mon.call("nest", lambda: awkward0.JaggedArray.fromcounts([c, n - c], a)), [want[:c], want[c:]]))
            elif w == 5 and n:
                i = [rng.randrange(n) for _ in range(3)]
                views.append(("indexed", mon.call("indexed", lambda: awkward0.IndexedArray(i, a)), [want[j] for j in i]))
            mon.events["views"] += 1
        if act == "read":
            check(mon, q, a, n, "the array")
        for b, r in live:
            mon.eq(mon.call("tolist", lambda: b.tolist()), r.tolist(), "after %s" % act)
            mon.check(len(b) == len(r.vals), "the length after %s" % act)
        for what, v, want in views:
            mon.eq(tolist(v), want, "%s taken earlier, after %s" % (what, act))
            mon.events["views rechecked"] += 1
    if start:
        for c, x in zip(start, made):
            mon.eq(x, m.tolist(c), "the chunks that were given")
    for b, r in live:
        check(mon, r, b, len(r.vals), "in the end, the array")


@SUITE.scenario(2000, 20000, watch=False)
def columns(mon):
    """appendable arrays inside of other arrays show the appended, too, as far as these say"""
    rng = mon.rng
    m = Model(mon)
    size = rng.choice([1, 2, 3, 5])
    a = awkward0.AppendableArray((size,) + m.inner, m.dtype)
    t = None
    mon.say(size=size, dtype=str(m.dtype), inner=m.inner)
    for step in range(rng.randint(1, 4)):
        k = rng.choice([0, 1, size, size + 1])
        xs = [m.value() for _ in range(k)]
        if rng.random() < 0.5:
            mon.call("extend", lambda: a.extend(m.array(xs)))
        else:
            for x in xs:
                mon.call("append", lambda: a.append(m.given(x)))
        m.vals.extend(xs)
        mon.events["appended"] += k
        n = len(m.vals)
        if t is None:
            t = awkward0.Table(x=a)
        mon.eq(mon.call("table", lambda: t.tolist()), [{"x": v} for v in m.tolist()], "a Table of it")
        mon.check(len(t) == n, "the length of a Table of it")
        counts = []
        while sum(counts) < n:
            counts.append(rng.randint(0, n - sum(counts)))
        j = mon.call("nest", lambda: awkward0.JaggedArray.fromcounts(counts, a))
        want, i = [], 0
        for c in counts:
            want.append(m.tolist()[i:i + c])
            i += c
        mon.eq(j, want, "lists of it")
        mask = [rng.random() < 0.5 for _ in range(n)]
        mon.eq(mon.call("mask", lambda: awkward0.MaskedArray(mask, a)), [None if b else v for b, v in zip(mask, m.tolist())], "it, masked")
        r = rng.random()
        if r < 0.3 and n:
            mon.raises("beyond", lambda: awkward0.IndexedArray([n], a).tolist())
            mon.raises("beyond", lambda: awkward0.JaggedArray([0], [n + 1], a).tolist())
        mon.events["reads"] += 3
