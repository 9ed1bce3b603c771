"""P28: a sparse array is the dense array that it stands for."""
import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *
from akmon.ops import *
from akmon.values import plain

SUITE = Suite("P28")
SUITE.needs = {"op:getitem": 10000, "op:sparse mask": 2000, "op:ufunc": 4000, "op:dense": 4000, "op:reduce": 2000, "rejected": 2000}
NUM = ["int64", "float64", "int32", "bool", "uint8", "float32", "int8"]
UFUNCS = ["add", "subtract", "multiply", "maximum", "minimum", "less", "equal", "not_equal", "greater_equal", "hypot"]
UNARY = ["negative", "absolute", "sqrt", "exp", "sign", "square", "isnan", "logical_not"]


class Sparse(object):
    """a sparse array with the list of its values"""

    def __init__(self, mon, n=None, dtype=None, inner=None, plain_content=False, twice=False):
        rng = mon.rng
        g = self.g = mon.G(unsigned=True, wrap=set(["indexed", "chunked", "virtual"]), pwrap=0.0 if plain_content or rng.random() < 0.5 else 0.6)
        self.dtype = numpy.dtype(dtype or rng.choice(NUM))
        inner = self.inner = inner if inner is not None else rng.choice([(), (), (), (2,), (3,), (2, 2), (1,)])
        self.t = Reg(self.dtype, inner) if inner else Prim(self.dtype)
        n = self.n = many(rng, 0, 1, 2, 3, 6, 10, 20) if n is None else n
        how = rng.random()
        kept = [i for i in range(n) if rng.random() < how]
        spare = rng.choice([0, 0, 1, 3])
        beyond = sorted(n + rng.randint(0, 9) for _ in range(rng.choice([0, 0, 1, 2])))
        doubled, twice = twice and kept and rng.random() < 0.15, kept[:]
        self.doubled = doubled
        if doubled:             # of what is given twice for a position, the first counts (as long as nothing reverses them)
            twice = sorted(kept + [rng.choice(kept) for _ in range(rng.randint(1, 3))])
        vals = [self.t.gen(g) for _ in range(len(twice) + len(beyond) + spare)]
        if rng.random() < 0.5:
            self.default, shown = None, (numpy.zeros(inner, dtype=self.dtype) if inner else self.dtype.type(0))
        elif inner:
            self.default = shown = numpy.array(self.t.gen(g), dtype=self.dtype)
        else:
            self.default = shown = self.dtype.type(self.t.gen(g))
        index = idx(twice + beyond, g)
        if rng.random() < 0.2:
            index = [int(x) for x in index]
        self.content = encode(self.t, vals, g, 1 if g.pwrap == 0 else 0)
        self.array = awkward0.SparseArray(n, index, self.content, default=self.default)
        where = dict(reversed(list(zip(twice, vals))))
        self.shown = shown.tolist()
        self.kept = kept
        self.vals = [plain(where.get(i, self.shown)) for i in range(n)]
        self.isplain = isinstance(self.content, numpy.ndarray)

    def dense(self):
        return numpy.array(self.vals, dtype=self.dtype).reshape((self.n,) + self.inner)


def look(mon, a, vals, what=None):
    rng = mon.rng
    n = len(vals)
    mon.check(len(a) == n, lambda: "%s: length %d, not %d" % (what, len(a), n))
    mon.eq(a.tolist(), vals, what)
    if rng.random() < 0.3:
        mon.eq([tolist(x) for x in a], vals, what)
    for _ in range(3):
        if n:
            i = rng.randint(-n, n - 1)
            mon.eq(mon.call("getitem", lambda: a[rng.choice([int, numpy.int64, numpy.int8 if n < 100 else numpy.int16])(i)], a), vals[i], i)
    i = rng.choice([n, -n - 1, n + 5])
    mon.raises("out of range", lambda: a[i], a, kinds=(IndexError,))


@SUITE.scenario(3000, 60000)
def selections(mon):
    """any number of selections, with a dimension inside at the end"""
    rng = mon.rng
    s = Sparse(mon, twice=True)
    a, vals = s.array, s.vals
    mon.say(vals=vals, kept=s.kept, default=s.shown, dtype=str(s.dtype))
    look(mon, a, vals)
    trace = []
    for _ in range(rng.randint(1, 4)):
        w = random_where(rng, len(vals))
        if s.doubled and isinstance(w, slice) and w.step is not None and w.step < 0:
            continue
        trace.append(w)
        mon.say(trace=" ".join(str(x) for x in trace))
        a = mon.call("getitem", lambda: a[w], a, w)
        vals = take(vals, w)
        look(mon, a, vals, "selected")
    if s.inner and vals:
        k = s.inner[0]
        tail = rng.choice([rng.randint(-k, k - 1), slice(None, None, -1), slice(1, None)])
        w = rng.choice([slice(None), slice(None, None, 1 if s.doubled else -1), slice(1, None), rng.randint(-len(vals), len(vals) - 1), random_where(rng, len(vals), ("ints", "bools"))])
        mon.say(last=(w, tail))
        want = vals[w][tail] if isinstance(w, int) else [v[tail] for v in take(vals, w)]
        if want != []:
            mon.eq(mon.call("getitem tail", lambda: a[w, tail], a), want, "with a dimension inside")


@SUITE.scenario(2000, 30000)
def masks(mon):
    """boolean sparse arrays as masks"""
    rng = mon.rng
    s = Sparse(mon)
    m = Sparse(mon, s.n if rng.random() < 0.9 else s.n + rng.choice([1, 2]), "bool", ())
    mon.say(vals=s.vals, mask=m.vals, kept=s.kept, mkept=m.kept, mdefault=m.shown, default=s.shown)
    if s.n != m.n:
        mon.raises("sparse mask of another length", lambda: s.array[m.array], s.array, m.array, kinds=(IndexError, ValueError))
        return
    got = mon.call("sparse mask", lambda: s.array[m.array], s.array, m.array)
    want = [v for v, keep in zip(s.vals, m.vals) if keep]
    look(mon, got, want, "masked")
    # and of other arrays
    x = numpy.arange(s.n)
    mon.eq(mon.call("mask as Numpy", lambda: x[m.array.dense if m.isplain else numpy.array(m.vals, dtype=bool)], m.array), [i for i, keep in enumerate(m.vals) if keep])


@SUITE.scenario(2500, 40000)
def derived(mon):
    """dense, boolmask, regular, flatten, dtype, shape"""
    rng = mon.rng
    s = Sparse(mon)
    a = s.array
    mon.say(vals=s.vals, kept=s.kept, default=s.shown, dtype=str(s.dtype))
    stored = set(s.kept)
    for maskedwhen in rng.sample([True, False], 2):
        got = mon.call("boolmask", lambda: a.boolmask(maskedwhen=maskedwhen), a)
        mon.eq(got, [(i in stored) == maskedwhen for i in range(s.n)], "boolmask(%s)" % maskedwhen)
    mon.check(a.shape == (s.n,) + s.inner and a.dtype == s.dtype, lambda: "shape %s dtype %s" % (a.shape, a.dtype))
    mon.check(a.type == awkward0.type.fromarray(s.dense()), lambda: "type %s" % a.type)
    if not s.isplain:
        return
    got = mon.call("dense", lambda: a.dense, a)
    mon.check(isinstance(got, numpy.ndarray) and got.dtype == s.dtype and got.shape == (s.n,) + s.inner, lambda: "dense is %s" % (got,))
    mon.eq(got, s.vals, "dense")
    got = mon.call("regular", lambda: a.regular(), a)
    mon.eq(got, s.vals, "regular")
    mon.eq(mon.call("counts", lambda: a.counts, a), [s.inner[0] if s.inner else -1] * s.n, "counts")
    if s.inner:
        got = mon.call("flatten", lambda: a.flatten(), a)
        mon.eq(got, s.dense().reshape((-1,) + s.inner[1:]).tolist(), "flatten")
    mon.eq(mon.call("to NumPy", lambda: numpy.array(a), a), s.vals, "to NumPy")


@SUITE.scenario(2500, 40000)
def functions(mon):
    """elementwise functions"""
    rng = mon.rng
    s = Sparse(mon, plain_content=True)
    if rng.random() < 0.25:
        name = rng.choice(UNARY)
        if s.dtype.kind == "b" and name in ("negative", "sign", "square", "absolute"):
            raise Skip
        mon.say(vals=s.vals, kept=s.kept, default=s.shown, dtype=str(s.dtype), name=name)
        f = getattr(numpy, name)
        mon.eq(mon.call("ufunc", lambda: f(s.array), s.array), f(s.dense()).tolist(), name, rtol=1e-3)
        return
    kind = rng.choice(["sparse", "sparse", "dense", "number", "list"])
    name = rng.choice(UFUNCS)
    f = getattr(numpy, name)
    dt = rng.choice(NUM)
    if s.dtype.kind == "b" and dt == "bool" and name in ("subtract", "hypot"):
        raise Skip
    if kind == "sparse":
        other = Sparse(mon, s.n if rng.random() < 0.9 else s.n + 2, dt, s.inner, plain_content=True)
        x, y = other.array, other.dense()
    elif kind == "dense":
        y = numpy.array([Reg(dt, s.inner).gen(s.g) for _ in range(s.n)], dtype=dt).reshape((s.n,) + s.inner)
        x = y
    elif kind == "list":
        if s.n == 0:
            raise Skip
        x = [rng.randint(0, 9) for _ in range(s.n)]
        if s.inner:
            raise Skip
        y = numpy.array(x)
    else:
        x = y = rng.choice([2, 1.5, True if s.dtype.kind != "b" else 3, 0])
    left = rng.random() < 0.5
    mon.say(vals=s.vals, kept=s.kept, default=s.shown, dtype=str(s.dtype), name=name, other=tolist(y), left=left)
    args, ref = ((s.array, x), (s.dense(), y)) if left else ((x, s.array), (y, s.dense()))
    if kind == "sparse" and other.n != s.n and 1 not in (other.n, s.n):
        mon.raises("ufunc of another length", lambda: f(*args), s.array, x, kinds=(ValueError,))
        return
    if kind == "sparse" and other.n != s.n:
        raise Skip
    got = mon.call("ufunc", lambda: f(*args), s.array, x)
    mon.eq(got, f(*ref).tolist(), name, rtol=1e-3)


@SUITE.scenario(2000, 30000)
def reducers(mon):
    """sums and extrema count the default as often as it stands"""
    rng = mon.rng
    s = Sparse(mon, inner=(), plain_content=True)
    d = s.dense()
    name = rng.choice(["sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "argmin", "argmax"])
    if name.startswith("arg") and s.n == 0:
        raise Skip
    mon.say(vals=s.vals, kept=s.kept, default=s.shown, dtype=str(s.dtype), name=name)
    got = mon.call("reduce", lambda: getattr(s.array, name)(), s.array)
    if s.n == 0:
        return              # identities are P05's
    if name == "count":
        want = s.n
    elif name == "count_nonzero":
        want = numpy.count_nonzero(d)
    elif name.startswith("arg"):
        i = int(numpy.asarray(got).reshape(-1)[0])
        mon.eq(s.vals[i], tolist(d[getattr(d, name)()]), name)
        return
    else:
        want = getattr(d, name)()
    if name in ("prod", "sum") and s.dtype.itemsize < 8 and s.dtype.kind != "f":
        got, want = int(got) % (1 << (8 * s.dtype.itemsize)), int(want) % (1 << (8 * s.dtype.itemsize))
        if s.dtype.kind == "b":
            raise Skip
    if name in ("min", "max") and s.dtype.kind == "b":
        got, want = float(got), float(want)         # extrema of booleans are numbers
    mon.eq(got, want, name, rtol=1e-3)


@SUITE.scenario(2000, 30000)
def lists(mon):
    """sparse arrays of lists: empty lists where nothing is stored"""
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=0.0, plarge=0.0, objargs="none")
    inner = rng.choice([Prim(rng.choice(NUM)), Prim(rng.choice(NUM)), Lst(Prim("int64")), Rec([("x", Prim("int64")), ("y", Prim("float64"))]), Str()])
    n = many(rng, 0, 1, 2, 3, 6, 10)
    how = rng.random()
    kept = [i for i in range(n) if rng.random() < how]
    vals = [[inner.gen(g) for _ in range(rng.randint(0, 3))] for _ in range(len(kept) + rng.choice([0, 0, 2]))]
    a = awkward0.SparseArray(n, idx(kept, g), enc_Lst(Lst(inner), vals, g, 0))
    where = dict(zip(kept, vals))
    want = [plain(where.get(i, [])) for i in range(n)]
    mon.say(vals=want, kept=kept, type=inner.sig())
    look(mon, a, want)
    for _ in range(rng.randint(0, 2)):
        w = random_where(rng, n)
        a, want = mon.call("getitem", lambda: a[w], a, w), take(want, w)
        n = len(want)
        look(mon, a, want, w)
    if isinstance(inner, Prim) and isinstance(a, awkward0.SparseArray):
        mon.eq(mon.call("counts", lambda: a.counts, a), [len(v) for v in want], "counts")
        if inner.dtype.kind in "iu":
            mon.eq(mon.call("sum", lambda: a.sum(), a), [sum(v) for v in want], "sum")
    elif isinstance(inner, Rec) and isinstance(a, awkward0.SparseArray):
        name = rng.choice(["x", "y"])
        mon.eq(mon.call("column", lambda: a[name], a), [[x[name] for x in v] for v in want], "column")


@SUITE.scenario(1500, 20000, watch=False)
def columns(mon):
    """columns of a sparse array of records, selected and assigned: zero where nothing is stored"""
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=0.0, plarge=0.0)
    n = many(rng, 1, 2, 3, 6, 10)
    how = rng.random()
    kept = [i for i in range(n) if rng.random() < how]
    rows = len(kept) + rng.choice([0, 0, 2])

    def column():
        """values for every position (nothing where nothing is stored) and an array of them"""
        kind = rng.choice(["int64", "float64", "int8", "list"])
        t = Lst(Prim("int64")) if kind == "list" else Prim(kind)
        zero = [] if kind == "list" else numpy.dtype(kind).type(0).item()
        v = [plain(t.gen(g)) if i in kept else zero for i in range(n)]
        return kind, v, enc_Lst(t, v, g, 0) if kind == "list" else numpy.array(v, dtype=kind)
    dt = rng.choice(["int64", "float64", "int8"])
    x = numpy.array([rng.randint(-9, 9) for _ in range(rows)], dtype=dt)
    a = awkward0.SparseArray(n, idx(kept, g), awkward0.Table(x=x))
    shown = {"x": [x.tolist()[kept.index(i)] if i in kept else x.dtype.type(0).item() for i in range(n)]}
    mon.say(kept=kept, n=n, x=shown["x"])
    trace = []
    for _ in range(rng.randint(1, 4)):
        how = rng.choice(["assign", "assign", "several", "bad", "length", "rows"])
        trace.append(how)
        mon.say(trace=" ".join(trace))
        if how == "assign":
            name = rng.choice(["x", "y", "z"])
            _, v, c = column()
            mon.call("assign", lambda: a.__setitem__(name, c), c)
            shown[name] = v
        elif how == "several":
            v, w = [rng.randint(1, 99) if i in kept else 0 for i in range(n)], [rng.random() if i in kept else 0.0 for i in range(n)]
            c = awkward0.Table.named("tuple", numpy.array(v), numpy.array(w))
            mon.call("assign several", lambda: a.__setitem__(["y", "z"], c), c)
            shown["y"], shown["z"] = v, w
        elif how == "bad" and len(kept) < n:
            i = rng.choice([i for i in range(n) if i not in kept])
            c = numpy.zeros(n)
            c[i] = 1
            mon.raises("value where nothing is stored", lambda: a.__setitem__(rng.choice(["x", "y", "w"]), c), c, kinds=(ValueError,))
        elif how == "length":
            mon.raises("column of another length", lambda: a.__setitem__("y", numpy.zeros(n + 1)), kinds=(ValueError,))
        elif how == "rows":
            w = random_where(rng, n, ("slice",))
            for name in shown:
                mon.eq(mon.call("column of rows", lambda: a[w][name], a), take(shown[name], w), "column of rows")
    mon.check(sorted(a.columns) == sorted(shown), lambda: "columns %r" % a.columns)
    for name, v in shown.items():
        mon.eq(mon.call("column", lambda: a[name], a), v, name)
    for i in kept:
        mon.eq(a[i], {k: v[i] for k, v in shown.items()}, "row %d" % i)


@SUITE.scenario(2000, 30000)
def parts(mon):
    """new parts given one at a time; copies"""
    rng = mon.rng
    s = Sparse(mon, plain_content=True, n=rng.randint(0, 9))
    a = s.array
    length, index, content, default = s.n, list(int(x) for x in a.index), [plain(x) for x in tolist(s.content)], s.shown
    mon.say(vals=s.vals, kept=s.kept, default=s.shown, dtype=str(s.dtype))
    trace = []

    def now():
        where = {}
        for i, v in reversed(list(zip(index, content))):
            where[i] = v
        return [where.get(i, default) for i in range(length)]
    old = None
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(["length", "index", "content", "default", "look", "copy"])
        if k == "length":
            length = rng.randint(0, 12)
            a.length = length
        elif k == "index":
            index = sorted(rng.sample(range(14), rng.randint(0, min(14, len(content)))))
            a.index = idx(index, s.g)
        elif k == "content":
            content = [s.t.gen(s.g) for _ in range(len(index) + rng.randint(0, 2))]
            a.content = numpy.array(content, dtype=s.dtype).reshape((-1,) + s.inner)
        elif k == "default":
            default = s.t.gen(s.g)
            a.default = numpy.array(default, dtype=s.dtype) if s.inner else s.dtype.type(default)
        elif k == "copy":
            old = (a, now())
            a = mon.call("copy", lambda: a.copy(), a) if rng.random() < 0.7 else mon.call("deepcopy", lambda: a.deepcopy(), a)
        else:
            mon.eq(mon.call("dense", lambda: a.dense, a), now(), "dense after " + " ".join(trace))
        trace.append(k)
        mon.say(trace=" ".join(trace))
        if rng.random() < 0.6:
            look(mon, a, now(), " ".join(trace))
    look(mon, a, now(), " ".join(trace))
    if old is not None:
        look(mon, old[0], old[1], "the copied")
    if not (awkward0.AwkwardArray.check_prop_valid and awkward0.AwkwardArray.check_whole_valid):
        return
    bad = rng.choice(["decreasing", "negative", "float", "two", "length", "flength", "content"])
    good = awkward0.SparseArray(5, [1, 3], [1.0, 2.0])
    if bad == "content":
        good.content = numpy.arange(1.0)
        mon.raises("less content than index", lambda: good.tolist(), kinds=(ValueError,))
    else:
        def assign():
            if bad in ("length", "flength"):
                good.length = -1 if bad == "length" else 2.5
            else:
                good.index = {"decreasing": [3, 1], "negative": [-1, 3], "float": [1.5, 2.5], "two": [[1], [3]]}[bad]
        mon.raises("bad " + bad, assign, kinds=(ValueError, TypeError))
