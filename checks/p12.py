"""P12: what is saved loads back as the same array."""
import io
import os
import pathlib
import pickle
import shutil
import tempfile
import zlib
import lzma
import bz2

import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *
from akmon.ops import *
from akmon.decl import arraydiff
from akmon import values as V

SUITE = Suite("P12")
SUITE.needs = {"oracle": 15000}
P = awkward0.persist
WHITE = P.whitelist + [["builtins", "str"], ["builtins", "bytes"], ["akmon.layouts"], ["checks.p12"], ["bz2", "decompress"]]


def squash(buf):
    return zlib.compress(bytes(buf), 1)


def shrink(buf):
    return lzma.compress(bytes(buf))


def bz(buf):
    return bz2.compress(bytes(buf))


COMPRESSIONS = [
    ("default", P.compression), ("True", True), ("False", False), ("None", None), ("[]", []),
    ("zlib", zlib.compress), ("pair", (squash, ("zlib", "decompress"))),
    ("lzma", [{"pair": (shrink, ("lzma", "decompress"))}]),
    ("bz2 for floats, zlib for others", [{"types": numpy.floating, "pair": (bz, ("bz2", "decompress"))}, (squash, ("zlib", "decompress"))]),
    ("large only", {"minsize": 24, "pair": (squash, ("zlib", "decompress"))}),
    ("contents", {"contexts": "*.content", "pair": (squash, ("zlib", "decompress"))}),
    ("starts and tags", [{"contexts": ["*.starts", "*.tags", "*.mask"], "enc": zlib.compress}]),
    ("integers", {"types": [numpy.integer, numpy.bool_], "minsize": 1, "pair": (squash, ("zlib", "decompress"))}),
]


def gg(mon, **kw):
    kw = dict(dict(unsigned=True, pwrap=mon.rng.choice([0.0, 0.2, 0.5]), wrapdepth=2, anywhen=True, pnan=0.1, inf=True,
                   pextreme=0.1, wrap=set(["indexed", "chunked", "virtual", "sparse", "appendable"])), **kw)
    return mon.G(**kw)


# ------------------------------------------------------------- what is the same

WRAPPERS = (awkward0.VirtualArray, awkward0.IndexedArray, awkward0.SparseArray, awkward0.ChunkedArray, awkward0.UnionArray)


def differ(a, b, path="array", seen=None, inlist=False):
    """None, or how the nodes of b differ from the nodes of a"""
    if seen is None:
        seen = {}
    if (id(a), id(b)) in seen:
        return None
    seen[id(a), id(b)] = (a, b)
    if isinstance(a, awkward0.VirtualArray) and not a.persistvirtual:
        return differ(a.array, b, path, seen, inlist)
    if inlist and type(a) is not type(b) and type(a) in WRAPPERS:
        return None           # only the part of the content that the lists use is kept
    if type(a) is not type(b):
        return "%s: %s, want %s" % (path, type(b).__name__, type(a).__name__)
    if isinstance(a, numpy.ndarray):
        if a.dtype != b.dtype or a.shape[1:] != b.shape[1:] or (len(a) != len(b) and not inlist):
            return "%s: %s%s, want %s%s" % (path, b.dtype, b.shape, a.dtype, a.shape)
        return None
    attrs, subs = [], [("content", "content")]
    if isinstance(a, awkward0.Table):
        if a.columns != b.columns:
            return "%s: columns %s, want %s" % (path, b.columns, a.columns)
        attrs = ["rowname", "rowstart"]
        subs = []
        for n in a.columns:
            d = differ(a.contents[n], b.contents[n], path + "." + n, seen, inlist)
            if d is not None:
                return d
    elif isinstance(a, awkward0.UnionArray):
        if inlist and (len(a.contents) != len(b.contents) or any(isinstance(x, awkward0.SparseArray) for x in a.contents)):
            return None       # a part in which one alternative remains is that alternative, and selections of sparse arrays are unions
        if len(a.contents) != len(b.contents):
            return "%s: %d contents, want %d" % (path, len(b.contents), len(a.contents))
        subs = []
        for i in range(len(a.contents)):
            d = differ(a.contents[i], b.contents[i], "%s.contents[%d]" % (path, i), seen, inlist)
            if d is not None:
                return d
    elif isinstance(a, awkward0.AppendableArray):
        attrs, subs = ["chunkshape", "dtype"], []
    elif isinstance(a, awkward0.ChunkedArray):
        subs = []
        a.knowchunksizes()
        one = [x for n, x in zip(a.chunksizes, a.chunks) if n > 0]
        b.knowchunksizes()
        two = [x for n, x in zip(b.chunksizes, b.chunks) if n > 0]
        if inlist:
            one = one[:0]
        elif len(one) != len(two):
            return "%s: %d chunks that are not empty, want %d" % (path, len(two), len(one))
        for i in range(len(one)):
            d = differ(one[i], two[i], "%s.chunks[%d]" % (path, i), seen, inlist)
            if d is not None:
                return d
    elif isinstance(a, awkward0.VirtualArray):
        attrs, subs = ["args", "kwargs", "generator", "persistentkey"] if a.persistentkey != "TransientKey" and a._persistentkey else ["args", "kwargs", "generator"], []
    elif isinstance(a, awkward0.StringArray):
        attrs, subs = ["encoding"], []
    elif isinstance(a, awkward0.ObjectArray):
        attrs = ["generator", "args", "kwargs"]
    elif isinstance(a, awkward0.BitMaskedArray):
        attrs = ["maskedwhen", "lsborder"]
    elif isinstance(a, awkward0.MaskedArray):
        attrs = ["maskedwhen"]
    elif isinstance(a, awkward0.SparseArray):
        attrs = ["default"] if inlist else ["length", "default"]
    for n in attrs:
        x, y = getattr(a, n), getattr(b, n)
        if isinstance(x, numpy.ndarray) or isinstance(y, numpy.ndarray):
            x, y = (x.tolist() if isinstance(x, numpy.ndarray) else x), (y.tolist() if isinstance(y, numpy.ndarray) else y)
        if V.same(x, y) is not None if isinstance(x, list) and isinstance(y, list) else x != y and not (x != x and y != y):
            return "%s.%s: %s, want %s" % (path, n, V.short(y), V.short(x))
    for n, m in subs:
        d = differ(getattr(a, n), getattr(b, m), path + "." + n, seen, inlist or isinstance(a, awkward0.JaggedArray))
        if d is not None:
            return d
    return None


def judge(mon, a, b, vals, what, t=None):
    mon.eq(b, vals, what + " values")
    mon.check(differ(a, b) is None, lambda: "%s structure: %s" % (what, differ(a, b)))
    mon.check(len(a) == len(b), lambda: "%s length" % what)
    if t is not None and "(" not in t.sig() and "Sparse" not in mon.layout() and isinstance(b, awkward0.array.base.AwkwardArray):
        mon.check(arraydiff(t, len(vals), b.type) is None, lambda: "%s %s" % (what, arraydiff(t, len(vals), b.type)))
    if mon.rng.random() < 0.3 and len(vals) and "Sparse" not in mon.layout():
        w = random_where(mon.rng, len(vals))
        mon.eq(b[w], take(vals, w), what + " rows of the loaded array")


# ------------------------------------------------------------- making arrays

LEAVES = ["int8", "uint16", "int32", "int64", "uint64", "float32", "float64", "bool", ">i4", ">f8", "complex128"]


STORE = {}


def generate(key, half=None, plus=0):
    a = STORE[key]
    if half is not None:
        a = a[:half]
    return a + plus if plus else a


def make(mon, g, depth=2):
    t = random_type(g, depth, ("prim", "list", "opt", "rec", "uni", "str", "byt", "obj", "reg"), LEAVES)
    vals = [t.gen(g) for _ in range(many(mon.rng, 0, 1, 2, 5, 5))]
    a = encode(t, vals, g)
    if mon.rng.random() < 0.2 and "Sparse" not in g.sig:     # selecting rows of a sparse array is not for all contents
        w = random_where(mon.rng, len(vals))
        a, vals = a[w], take(vals, w)
    return t, vals, unlambda(a)


def unlambda(a, seen=None):
    """give virtual arrays made by the generators a persistent generator, or say they are to be saved as data"""
    if seen is None:
        seen = set()
    if id(a) in seen:
        return a
    seen.add(id(a))
    if isinstance(a, awkward0.VirtualArray):
        if a.generator is not generate:
            a.persistvirtual = False
        unlambda(a.array, seen)
    elif isinstance(a, awkward0.array.base.AwkwardArray):
        for x in list(a.__dict__.values()):
            if isinstance(x, awkward0.array.base.AwkwardArray):
                unlambda(x, seen)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    if isinstance(y, awkward0.array.base.AwkwardArray):
                        unlambda(y, seen)
            elif isinstance(x, dict):
                for y in x.values():
                    if isinstance(y, awkward0.array.base.AwkwardArray):
                        unlambda(y, seen)
    return a


def options(mon):
    rng = mon.rng
    kw = {}
    if rng.random() < 0.75:
        name, kw["compression"] = rng.choice(COMPRESSIONS)
        mon.events["compression:" + name] += 1
        mon.say(compression=name)
    return kw


# ------------------------------------------------------------------ in memory

@SUITE.scenario(5000, 60000)
def memory(mon):
    rng = mon.rng
    g = gg(mon)
    t, vals, a = make(mon, g)
    mon.say(type=t.sig(), vals=V.plain(vals))
    kw = options(mon)
    name = rng.choice(["", "", "a", "some name", "x-1"])
    if rng.random() < 0.3:
        kw["suffix"] = rng.choice([".raw", "-data", ""])
    schemasuffix = ""
    if rng.random() < 0.3:
        kw["schemasuffix"] = schemasuffix = rng.choice([".json", "", "-schema"])
    if rng.random() < 0.3:
        kw["delimiter"] = rng.choice(["-", ":", "/", None, ""])
    elif name == "":
        kw["prefix"] = rng.choice(["", "", "p-"])
    storage = {}
    mon.call("serialize", lambda: awkward0.serialize(a, storage, name, **kw), a)
    for k, v in list(storage.items()):
        if not isinstance(v, bytes):
            storage[k] = numpy.frombuffer(v, dtype=numpy.uint8).tobytes() if not isinstance(v, numpy.ndarray) else v.tobytes()
    b = mon.call("deserialize", lambda: awkward0.deserialize(storage, name + schemasuffix, whitelist=WHITE))
    judge(mon, a, b, vals, "loaded", t)
    mon.eq(a, vals, "the saved array")
    if rng.random() < 0.3:
        # saving what was loaded
        again = {}
        awkward0.serialize(b, again, "n", compression=rng.choice(COMPRESSIONS)[1])
        c = mon.call("deserialize again", lambda: awkward0.deserialize(again, "n", whitelist=WHITE))
        judge(mon, b, c, vals, "loaded twice", t)
    mon.check(set(P.keys(storage, name + schemasuffix)) == set(storage), lambda: "keys says %s, stored %s" % (sorted(P.keys(storage, name + schemasuffix)), sorted(storage)))


@SUITE.scenario(2500, 25000)
def pickled(mon):
    rng = mon.rng
    g = gg(mon, wrap=set(["indexed", "chunked", "sparse", "appendable", "virtual"]))
    t = random_type(g, 2, ("prim", "list", "opt", "rec", "uni", "str", "byt", "reg"), LEAVES)
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 3, 5))]
    a = unlambda(encode(t, vals, g))
    if isinstance(a, numpy.ndarray):
        raise Skip()
    mon.say(type=t.sig(), vals=V.plain(vals))
    protocol = rng.randint(0, pickle.HIGHEST_PROTOCOL)
    b = mon.call("pickle", lambda: pickle.loads(pickle.dumps(a, protocol)), a)
    judge(mon, a, b, vals, "unpickled", t)
    both = pickle.loads(pickle.dumps({"x": [a, a], "y": (a, 1)}, protocol))
    judge(mon, a, both["x"][1], vals, "unpickled in a list", t)


@SUITE.scenario(2500, 25000)
def buffers(mon):
    """plain Numpy arrays of any type, shape and memory order as leaves"""
    rng = mon.rng
    shape = tuple(rng.randint(0, 3) for _ in range(rng.choice([1, 1, 2, 3])))
    n = 1
    for s in shape:
        n *= s
    kind = rng.choice(LEAVES + ["S3", "U4", "datetime64[s]", "timedelta64[ms]", ">i8", "<u2", "struct", "sub", "float16", ">c8"])
    if kind == "struct":
        dt = numpy.dtype([("p", "<i4"), ("q", ">f8"), ("r", "i1", (2,))])
    elif kind == "sub":
        dt = numpy.dtype([("v", "f4", (2, 3)), ("w", [("k", "S2"), ("l", "?")])])
    else:
        dt = numpy.dtype(kind)
    raw = numpy.random.randint(0, 100, max(1, n)).astype("i8")
    if dt.names is None:
        flat = raw[:n].astype(dt)
    else:
        flat = numpy.zeros(n, dtype=dt)
        for k, name in enumerate(dt.names):
            if dt[name].names is None:
                flat[name] = (raw[:n] + k).reshape((n,) + (1,) * len(dt[name].shape))
            else:
                flat[name]["k"] = raw[:n].astype("S2")
    a = flat.reshape(shape)
    how = rng.choice(["plain", "fortran", "strided", "reversed", "readonly", "broadcast", "transposed"])
    if how == "fortran":
        a = numpy.asfortranarray(a)
    elif how == "strided":
        big = numpy.zeros((shape[0] * 2 + 1,) + shape[1:], dtype=dt)
        big[1::2] = a
        a = big[1::2]
    elif how == "reversed":
        a = a[::-1]
    elif how == "readonly":
        a = a.copy()
        a.flags.writeable = False
    elif how == "broadcast" and n:
        a = numpy.broadcast_to(a, (2,) + shape)
    elif how == "transposed":
        a = a.T
    want = a.copy()
    mon.say(dtype=str(dt), shape=a.shape, how=how)
    mon.gs.append(mon.G())
    mon.gs[-1].note("%s%dd:%s" % (dt, a.ndim, how))
    kw = options(mon)
    nested = rng.choice(["bare", "bare", "jagged", "table", "indexed", "masked", "twice"])
    if nested == "bare":
        x = a
    elif nested == "jagged":
        x = awkward0.JaggedArray.fromcounts([len(a)], a) if rng.random() < 0.5 else awkward0.JaggedArray([0], [len(a)], a)
    elif nested == "table":
        x = awkward0.Table(x=a)
    elif nested == "twice":
        x = awkward0.Table(x=a, y=a, z=awkward0.IndexedArray(numpy.arange(len(a)), a))
    elif nested == "indexed":
        x = awkward0.IndexedArray(numpy.arange(len(a)), a)
    else:
        x = awkward0.MaskedArray(numpy.zeros(len(a), bool), a)
    storage = {}
    mon.call("serialize buffer", lambda: awkward0.serialize(x, storage, "b", **kw), x)
    y = mon.call("deserialize buffer", lambda: awkward0.deserialize(dict((k, v if isinstance(v, bytes) else numpy.asarray(v).tobytes()) for k, v in storage.items()), "b", whitelist=WHITE))
    mon.check(differ(x, y) is None, lambda: differ(x, y))
    get = {"bare": lambda o: [o], "jagged": lambda o: [o.content], "table": lambda o: [o["x"]], "indexed": lambda o: [o.content],
           "masked": lambda o: [o.content], "twice": lambda o: [o["x"], o["y"], o["z"].content]}[nested]
    for b in get(y):
        mon.check(isinstance(b, numpy.ndarray) and b.dtype == want.dtype and b.shape == want.shape and numpy.ascontiguousarray(b).tobytes() == numpy.ascontiguousarray(want).tobytes(),
                  lambda: "%s of %s%s loaded as %s" % (how, want.dtype, want.shape, V.short(b)))


# ------------------------------------------------------------------ containers

def scratch():
    return tempfile.mkdtemp(prefix="akmon-p12-")


@SUITE.scenario(1500, 15000)
def archive(mon):
    """awkd files: one array or several, written at once or by appending"""
    rng = mon.rng
    g = gg(mon)
    kw = options(mon)
    many = rng.random() < 0.7
    names = rng.sample(["a", "b", "cc", "d d", "e/f", u"\u00e9"], rng.randint(1, 4)) if many else [""]
    arrays = {}
    for n in names:
        arrays[n] = make(mon, g, rng.choice([1, 2]))
    mon.say(arrays=dict((n, (x[0].sig(), V.plain(x[1]))) for n, x in arrays.items()))
    tmp = None
    target = rng.choice(["bytes", "bytes", "path", "pathlib", "openfile"])
    try:
        if target == "bytes":
            f = io.BytesIO()
            where = f
        else:
            tmp = scratch()
            where = os.path.join(tmp, rng.choice(["x.awkd", "y"]))
            real = where if where.endswith(".awkd") else where + ".awkd"
            if target == "pathlib":
                where = pathlib.Path(where)
            elif target == "openfile":
                where = open(real, "w+b")
        if rng.random() < 0.3:
            kw["delimiter"] = rng.choice(["-", "/", ":"])
        if rng.random() < 0.3:
            kw["suffix"] = rng.choice([".raw", ".bin"])
        loadkw = {}
        if rng.random() < 0.2:
            kw["schemasuffix"] = loadkw["schemasuffix"] = rng.choice([".schema", ".js", "#"])
        prefix = ""
        todo = dict((n, x[2]) for n, x in arrays.items())
        first = rng.choice(["a", "w"])
        if many and rng.random() < 0.4:
            for k, n in enumerate(names):
                mon.call("save one more", lambda: awkward0.save(where, todo[n], name=n, mode=first if k == 0 else "a", **kw), todo[n])
        elif many:
            if rng.random() < 0.2:
                prefix = "pre."
                mon.call("save dict", lambda: awkward0.save(where, todo, name=prefix, mode=first, **kw), *todo.values())
            else:
                mon.call("save dict", lambda: awkward0.save(where, todo, mode=first, **kw), *todo.values())
        else:
            mon.call("save", lambda: awkward0.save(where, todo[""], mode=first, **kw), todo[""])
        if target == "openfile":
            where.close()
            where = real
        if target in ("path", "pathlib"):
            where = real
        if many and rng.random() < 0.3:
            # a name that is there already can't be written again, and that disturbs nothing
            n = rng.choice(names)
            other = awkward0.fromiter([1, 2, 3])
            mon.raises("save over", lambda: awkward0.save(where, other, name=prefix + n, mode="a"), kinds=(KeyError,))
        got = mon.call("load", lambda: awkward0.load(where, whitelist=WHITE, **loadkw))
        if not many:
            judge(mon, arrays[""][2], got, arrays[""][1], "loaded", arrays[""][0])
        else:
            mon.check(sorted(got) == sorted(prefix + n for n in names), lambda: "names %s, saved %s" % (sorted(got), sorted(names)))
            mon.check(len(got) == len(names), "number of arrays")
            rng.shuffle(names)
            for n in names:
                mon.check(prefix + n in got, "membership")
                judge(mon, arrays[n][2], mon.call("load one", lambda: got[prefix + n]), arrays[n][1], "loaded %r" % n, arrays[n][0])
            got.close()
        if rng.random() < 0.2:
            # mode "w" starts the file again
            other = awkward0.fromiter([[1.5, 2.5], [], [3.5]])
            if hasattr(where, "seek"):
                where = io.BytesIO()
            mon.call("save anew", lambda: awkward0.save(where, other, mode="w"), other)
            mon.eq(mon.call("load anew", lambda: awkward0.load(where)), [[1.5, 2.5], [], [3.5]], "written anew")
    finally:
        if tmp is not None:
            shutil.rmtree(tmp, ignore_errors=True)


try:
    import h5py
except ImportError:
    h5py = None


@SUITE.scenario(500, 6000)
def database(mon):
    """histories of writing, overwriting, deleting and reading in an HDF5 group"""
    if h5py is None:
        raise Skip()
    rng = mon.rng
    g = gg(mon, unicode=False)
    f = h5py.File("akmon-%d" % rng.randrange(1 << 40), "w", driver="core", backing_store=False)
    try:
        groups = [f] if rng.random() < 0.5 else [f.create_group("one"), f.create_group("two")]
        dbs, model = [], []
        for grp in groups:
            dbs.append(awkward0.hdf5(grp, whitelist=WHITE, **options(mon)))
            model.append({})
        log = []
        for _ in range(rng.randint(2, 8)):
            k = rng.randrange(len(dbs))
            db, ref = dbs[k], model[k]
            n = rng.choice(["a", "b", "ab", "c d"])
            act = rng.choice(["set", "set", "set", "del", "get", "list", "plain"])
            log.append((k, act, n))
            mon.say(log=log)
            if act == "set":
                t, vals, a = make(mon, g, rng.choice([0, 1, 2]))
                if rng.random() < 0.2:
                    # something that can't be saved changes nothing
                    mon.raises("group[name] = not an array", lambda: db.__setitem__(n, awkward0.ObjectArray([1], lambda x: x)), kinds=(TypeError, AssertionError, AttributeError))
                    mon.check(sorted(db) == sorted(ref), "a refused assignment changed the names")
                    mon.check(n in ref or n not in groups[k], "a refused assignment left something behind")
                if n in ref:
                    if rng.random() < 0.5:
                        del db[n]
                    mon.events["overwritten"] += 1
                mon.call("group[name] = array", lambda: db.__setitem__(n, a), a)
                ref[n] = (t, vals, a)
            elif act == "del":
                if n in ref:
                    mon.call("del group[name]", lambda: db.__delitem__(n))
                    del ref[n]
                    mon.events["deleted"] += 1
                else:
                    mon.raises("del group[absent]", lambda: db.__delitem__(n), kinds=(KeyError,))
            elif act == "get":
                if n in ref:
                    judge(mon, ref[n][2], mon.call("group[name]", lambda: db[n]), ref[n][1], "read %r" % n, ref[n][0])
                else:
                    mon.raises("group[absent]", lambda: db[n], kinds=(KeyError,))
            elif act == "plain" and "data" not in groups[k]:
                groups[k]["data"] = numpy.arange(3)
            mon.check(sorted(db) == sorted(ref) and len(db) == len(ref), lambda: "names %s, want %s" % (sorted(db), sorted(ref)))
        if rng.random() < 0.5:
            # opened again
            dbs = [awkward0.hdf5(grp, whitelist=WHITE) for grp in groups]
        for db, ref in zip(dbs, model):
            for n in ref:
                judge(mon, ref[n][2], mon.call("group[name] at the end", lambda: db[n]), ref[n][1], "in the end %r" % n, ref[n][0])
    finally:
        f.close()


# ------------------------------------------------------ references and virtual

@SUITE.scenario(2000, 20000)
def virtual(mon):
    """virtual arrays are saved as the call that makes them, unless told otherwise"""
    rng = mon.rng
    g = gg(mon, wrap=set())
    t = random_type(g, 1, ("prim", "list", "opt", "rec", "str"))
    vals = [t.gen(g) for _ in range(rng.randint(1, 5))]
    inner = encode(t, vals, g)
    key = "k%d" % rng.randrange(1 << 30)
    STORE.clear()
    STORE[key] = inner
    args, kwargs, want = (key,), {}, vals
    if rng.random() < 0.4:
        n = rng.randint(0, len(vals))
        want = vals[:n]
        if rng.random() < 0.5:
            args = (key, n)
        else:
            kwargs = {"half": n}
    extra = {}
    if rng.random() < 0.3:
        extra["persistvirtual"] = rng.random() < 0.5
    if rng.random() < 0.3:
        extra["persistentkey"] = "my key"
    if rng.random() < 0.3 and isinstance(inner, awkward0.array.base.AwkwardArray):
        extra["type"] = awkward0.type.fromarray(inner[:len(want)])
    v = awkward0.VirtualArray(generate, args, kwargs, **extra)
    if rng.random() < 0.4:
        v.materialize()
    n = len(want)
    how = rng.choice(["bare", "table", "jagged", "twice", "chunks", "indexed", "before", "behind"])
    if how == "bare":
        a, logical = v, want
    elif how == "before":
        a, logical = awkward0.Table(p=v.array, q=v, r=v), [{"p": x, "q": x, "r": x} for x in want]
    elif how == "behind":
        a, logical = awkward0.Table(p=v, q=v.array, r=v), [{"p": x, "q": x, "r": x} for x in want]
    elif how == "table":
        a, logical = awkward0.Table(p=v, q=numpy.arange(n)), [{"p": x, "q": i} for i, x in enumerate(want)]
    elif how == "jagged":
        a, logical = awkward0.JaggedArray.fromcounts([n, 0], v), [want, []]
    elif how == "twice":
        a, logical = awkward0.Table(p=v, q=v), [{"p": x, "q": x} for x in want]
    elif how == "chunks":
        a, logical = awkward0.ChunkedArray([v, v], [n, n]), want + want
    else:
        a, logical = awkward0.IndexedArray(numpy.arange(n)[::-1].copy(), v), want[::-1]
    mon.say(type=t.sig(), vals=V.plain(vals), how=how, args=args, kwargs=kwargs, extra=extra)
    storage = {}
    cache = rng.choice([None, {}])
    mon.call("serialize virtual", lambda: awkward0.serialize(a, storage, "v", **options(mon)), a)
    if extra.get("persistvirtual", True) is False:
        STORE.clear()            # the data must be in what was saved
    b = mon.call("deserialize virtual", lambda: awkward0.deserialize(storage, "v", whitelist=WHITE, cache=cache))
    if "type" in extra and how == "bare" and extra.get("persistvirtual", True):
        mon.check(b.type == extra["type"], lambda: "type %s, want %s" % (b.type, extra["type"]))
    mon.eq(b, logical, "loaded")
    if not (how == "chunks" and n == 0):
        mon.check(differ(a, b) is None, lambda: differ(a, b))
    if cache is not None and extra.get("persistvirtual", True) and n and how != "jagged":
        mon.check(len(cache) > 0, "the loaded array does not use the cache")
        if "persistentkey" in extra:
            mon.check("my key" in cache, lambda: "keys in the cache: %s" % list(cache))


@SUITE.scenario(1500, 15000)
def shared(mon):
    """the same node in several places, and nodes that contain themselves"""
    rng = mon.rng
    g = gg(mon, wrap=set(["indexed", "chunked", "sparse"]))
    t = random_type(g, 1, ("prim", "list", "opt", "rec", "str", "reg"))
    vals = [t.gen(g) for _ in range(rng.randint(1, 5))]
    x = encode(t, vals, g)
    n = len(vals)
    how = rng.choice(["table", "union", "chunks", "nested", "tree"])
    if how == "table":
        a, want = awkward0.Table(p=x, q=x, r=numpy.arange(n)), [{"p": v, "q": v, "r": i} for i, v in enumerate(vals)]
    elif how == "union":
        tags = numpy.array([rng.randrange(2) for _ in range(n)])
        a, want = awkward0.UnionArray(tags, numpy.arange(n), [x, x]), vals
    elif how == "chunks":
        a, want = awkward0.ChunkedArray([x, x, x]), vals * 3
    elif how == "nested":
        inner = awkward0.JaggedArray.fromcounts([n], x)
        a, want = awkward0.Table(p=inner, q=awkward0.JaggedArray([0], [n], x), r=awkward0.IndexedArray([0], inner)), [{"p": vals, "q": vals, "r": vals}]
    else:
        # a tree: node i has children after i
        kids = [[] for _ in range(n)]
        for i in range(1, n):
            kids[rng.randrange(i)].append(i)
        order, counts = [], []
        for i in range(n):
            counts.append(len(kids[i]))
            order.extend(kids[i])
        node = awkward0.Table(value=x)
        node.contents["children"] = awkward0.JaggedArray.fromcounts(counts, awkward0.IndexedArray(numpy.array(order, dtype=numpy.int64), node))

        def at(i):
            return {"value": vals[i], "children": [at(j) for j in kids[i]]}
        a, want = node, [at(i) for i in range(n)]
    mon.say(type=t.sig(), vals=V.plain(vals), how=how)
    mon.eq(a, want, "before")
    storage = {}
    mon.call("serialize shared", lambda: awkward0.serialize(a, storage, "s", **options(mon)), a)
    b = mon.call("deserialize shared", lambda: awkward0.deserialize(storage, "s", whitelist=WHITE))
    mon.eq(b, want, "loaded " + how)
    if how != "tree":
        mon.check(differ(a, b) is None, lambda: differ(a, b))


@SUITE.scenario(2000, 20000)
def types(mon):
    """types written as JSON are the same types"""
    rng = mon.rng
    g = gg(mon, wrap=set())
    t = random_type(g, 3, ("prim", "list", "opt", "rec", "uni", "str", "byt", "obj", "reg"), LEAVES)
    vals = [t.gen(g) for _ in range(rng.randint(1, 3))]
    a = encode(t, vals, g)
    tpe = awkward0.type.fromarray(a)
    if rng.random() < 0.5:
        tpe = tpe.to
    import json
    got = mon.call("json2type", lambda: P.json2type(json.loads(json.dumps(P.type2json(tpe))), whitelist=WHITE + [["builtins"], ["codecs"], ["awkward0"]]), a)
    mon.say(type=t.sig())
    mon.check(got == tpe and str(got) == str(tpe), lambda: "type\n%s\nloaded as\n%s" % (tpe, got))
