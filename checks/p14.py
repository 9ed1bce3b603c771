"""P14: Arrow and Parquet conversions preserve values."""
import io
import os
import shutil
import tempfile

import numpy
import pyarrow
import pyarrow.parquet
import awkward0
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *
from akmon.ops import *
from akmon.decl import typediff
from akmon import values as V

SUITE = Suite("P14")
SUITE.needs = {"oracle": 15000}

LEAVES = ["int8", "int16", "uint16", "int32", "int64", "uint64", "float32", "float64", "bool", "uint8"]
KINDS = ("prim", "list", "opt", "rec", "uni", "str", "byt")
NOUNION = ("prim", "list", "opt", "rec", "str", "byt")


def gg(mon, **kw):
    kw = dict(dict(unsigned=True, pwrap=mon.rng.choice([0.0, 0.2, 0.5]), wrapdepth=2, anywhen=True, pnan=0.1, inf=True,
                   pextreme=0.1, encodings=("utf-8",), wrap=set(["indexed", "virtual"])), **kw)
    return mon.G(**kw)


# ------------------------------------------------------------- comparing

def allnone(x):
    if isinstance(x, dict):
        return all(allnone(y) for y in x.values())
    if isinstance(x, (list, tuple)):
        return all(allnone(y) for y in x)
    return x is None


def fold(want, got):
    """missing lists and records may show as lists and records of missing values"""
    if want is None and allnone(got):
        return None
    if isinstance(want, dict) and isinstance(got, dict):
        return dict((n, fold(want.get(n), got[n])) for n in got)
    if isinstance(want, tuple) and isinstance(got, dict) and all(n.isdigit() for n in got):
        got = tuple(got[n] for n in sorted(got, key=int))
    if isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)) and len(want) == len(got):
        return type(got)(fold(w, g) for w, g in zip(want, got))
    return got


def close(mon, got, want, what):
    want = V.plain(want)
    mon.eq(fold(want, tolist(got)), want, what)


def shows(mon, got, want, what):
    """exactly these values; tuples are records with numbered fields in Arrow"""
    mon.eq(tolist(got), aspy(V.plain(want)), what)


def pyof(x):
    if isinstance(x, pyarrow.RecordBatch):
        x = pyarrow.Table.from_batches([x])
    return x.to_pylist()


def same_type(t, tpe):
    """arrays of t have the declared type tpe, missing or not"""
    return typediff(strip(t), unoption(tpe))


def strip(t):
    if isinstance(t, Opt):
        return strip(t.of)
    if isinstance(t, Lst):
        return Lst(strip(t.of))
    if isinstance(t, Rec):
        return Rec([(n, strip(x)) for n, x in t.fields], t.istuple)
    if isinstance(t, Uni):
        return Uni([strip(x) for x in t.of])
    return t


def unoption(tpe):
    A = awkward0.type
    if isinstance(tpe, A.OptionType):
        return unoption(tpe.type)
    if isinstance(tpe, A.ArrayType):
        return A.ArrayType(tpe.takes, unoption(tpe.to))
    if isinstance(tpe, A.TableType):
        return A.TableType(**dict((n, unoption(tpe[n])) for n in tpe.columns))
    return tpe


# ------------------------------------------------------------- to Arrow

def validate(mon, x):
    for y in (x.itercolumns() if isinstance(x, pyarrow.Table) else [x]):
        y.validate(full=True)


@SUITE.scenario(5000, 60000)
def toarrow(mon):
    """what Arrow shows, and what comes back"""
    g = gg(mon)
    t = random_type(g, 3, KINDS, LEAVES)
    vals = [t.gen(g) for _ in range(many(mon.rng, 0, 1, 2, 5, 5, 12))]
    a = encode(t, vals, g)
    if mon.rng.random() < 0.3:
        w = random_where(mon.rng, len(vals))
        a, vals = a[w], take(vals, w)
    mon.say(type=t.sig(), vals=V.plain(vals))
    x = mon.call("toarrow", lambda: awkward0.toarrow(a), a)
    validate(mon, x)
    mon.check(len(x) == len(vals), lambda: "Arrow length %d, want %d" % (len(x), len(vals)))
    close(mon, pyof(x), vals, "as seen by Arrow")
    b = mon.call("fromarrow", lambda: awkward0.fromarrow(x))
    close(mon, b, vals, "back from Arrow")
    if mon.rng.random() < 0.4:
        i = mon.rng.randint(0, len(vals))
        j = mon.rng.randint(i, len(vals))
        c = mon.call("fromarrow slice", lambda: awkward0.fromarrow(x.slice(i, j - i)))
        close(mon, c, vals[i:j], "a slice, back from Arrow")
    if len(vals) and mon.rng.random() < 0.4:
        w = random_where(mon.rng, len(vals))
        close(mon, b[w], take(vals, w), "rows of the result")
    if isinstance(t, Rec) and isinstance(a, awkward0.Table) and len(vals):
        n = mon.rng.choice([n for n, _ in t.fields])
        close(mon, b[n], [v[int(n) if t.istuple else n] for v in V.plain(vals)], "column of the result")
    # conversion of what came back is the same again
    if mon.rng.random() < 0.3:
        y = mon.call("toarrow again", lambda: awkward0.toarrow(b), b)
        close(mon, pyof(y), vals, "Arrow again")


@SUITE.scenario(2500, 30000)
def chunks(mon):
    """chunked arrays become record batches"""
    g = gg(mon)
    rng = mon.rng
    t = random_type(g, 2, KINDS, LEAVES)
    if not isinstance(t, Rec):
        t = Rec([("x", t), ("y", Prim("int32"))])
    parts = [[t.gen(g) for _ in range(rng.choice([0, 1, 2, 5]))] for _ in range(rng.randint(1, 4))]
    # a batch has one type: same layout in all chunks
    seed = rng.randrange(10**6)
    arrays = []
    for p in parts:
        cols = {}
        for n, x in t.fields:
            col = [v[int(n) if t.istuple else n] for v in p]
            plain = mon.G(pwrap=0.0, tableviews=False, encodings=("utf-8",), masks=(["bool", "bit", "indexed"][seed % 3],), fillunion=True)
            cols[n] = encode(x, col, plain)
        arrays.append(awkward0.Table.frompairs(cols.items(), 0))
    if any(len(p) == 0 for p in parts) and "|" in t.sig():
        raise Skip("an empty union has no type")
    a = awkward0.ChunkedArray(arrays)
    vals = [v for p in parts for v in p]
    mon.say(type=t.sig(), vals=V.plain(parts))
    try:
        x = mon.call("toarrow chunks", lambda: awkward0.toarrow(a), a)
    except (ValueError, pyarrow.ArrowInvalid) as err:
        if "Schema at index" in str(err):
            raise Skip("chunks of different Arrow types are refused")
        raise
    validate(mon, x)
    close(mon, pyof(x), vals, "as seen by Arrow")
    b = mon.call("fromarrow batches", lambda: awkward0.fromarrow(x))
    close(mon, b, vals, "back from Arrow")
    i = rng.randint(0, len(vals))
    j = rng.randint(i, len(vals))
    close(mon, mon.call("fromarrow slice of batches", lambda: awkward0.fromarrow(x.slice(i, j - i))), vals[i:j], "slice of a Table")


# ------------------------------------------------------------- from Arrow

def arrow_type(t, rng):
    """an Arrow type that holds the values of t"""
    if isinstance(t, Prim):
        return pyarrow.from_numpy_dtype(t.dtype)
    if isinstance(t, Str):
        x = rng.choice([pyarrow.string(), pyarrow.large_string()])
        return x if rng.random() < 0.7 else pyarrow.dictionary(rng.choice([pyarrow.int16(), pyarrow.int32(), pyarrow.int64()]), pyarrow.string())
    if isinstance(t, Byt):
        return rng.choice([pyarrow.binary(), pyarrow.large_binary()])
    if isinstance(t, Opt):
        return arrow_type(t.of, rng)
    if isinstance(t, Lst):
        return rng.choice([pyarrow.list_, pyarrow.large_list])(pyarrow.field("item", arrow_type(t.of, rng), isinstance(t.of, Opt) or rng.random() < 0.7))
    if isinstance(t, Rec):
        return pyarrow.struct([pyarrow.field(n, arrow_type(x, rng), isinstance(x, Opt) or rng.random() < 0.7) for n, x in t.fields])
    raise AssertionError(t)


def build(t, vals, rng, depth=0):
    """an Arrow array of the values with offsets at any level, and anything under missing values"""
    vals = list(vals)
    lead, trail = (rng.choice([0, 0, 1, 3, 9]), rng.choice([0, 0, 2])) if rng.random() < 0.5 else (0, 0)
    g = V and G(rng)
    base = t.of if isinstance(t, Opt) else t
    full = [base.gen(g) if isinstance(t, Opt) and rng.random() < 0.5 else t.gen(g) for _ in range(lead)] + vals + [t.gen(g) for _ in range(trail)]
    n = len(full)
    missing = numpy.array([v is None for v in full], dtype=bool)
    filled = [base.gen(g) if v is None else v for v in full]
    bitmap = None
    if missing.any() or (isinstance(t, Opt) and rng.random() < 0.5):
        bits = numpy.packbits(numpy.concatenate([~missing, numpy.array([rng.random() < 0.5 for _ in range(-n % 8)], dtype=bool)]), bitorder="little")
        bitmap = pyarrow.py_buffer(bits.tobytes() + b"\xaa" * rng.choice([0, 3]))
    if isinstance(base, Prim):
        if base.dtype.kind == "b":
            data = numpy.packbits(numpy.array(filled, dtype=bool), bitorder="little").tobytes()
        else:
            data = numpy.array(filled, dtype=base.dtype).tobytes()
        out = pyarrow.Array.from_buffers(pyarrow.from_numpy_dtype(base.dtype), n, [bitmap, pyarrow.py_buffer(data + b"\x55" * rng.choice([0, 8]))])
    elif isinstance(base, (Str, Byt)):
        if isinstance(base, Str) and rng.random() < 0.3:
            words = sorted(set(filled)) + ["unused"]
            rng.shuffle(words)
            index = numpy.array([words.index(v) for v in filled], dtype=rng.choice(["int8" if len(words) < 100 else "int16", "int32", "int64", "uint16"]))
            if index.dtype.kind == "i":
                index[missing] = 99
            ind = pyarrow.Array.from_buffers(pyarrow.from_numpy_dtype(index.dtype), n, [bitmap, pyarrow.py_buffer(index.tobytes())])
            out = pyarrow.DictionaryArray.from_arrays(ind, build(Str(), words, rng, depth + 1), safe=False)
        else:
            raw = [v.encode("utf-8") if isinstance(base, Str) else v for v in filled]
            large = rng.random() < 0.3
            pre = rng.choice([b"", b"xyz"])
            off = numpy.cumsum([len(pre)] + [len(v) for v in raw]).astype("int64" if large else "int32")
            typ = {(True, True): pyarrow.large_string(), (True, False): pyarrow.string(), (False, True): pyarrow.large_binary(), (False, False): pyarrow.binary()}[isinstance(base, Str), large]
            out = pyarrow.Array.from_buffers(typ, n, [bitmap, pyarrow.py_buffer(off.tobytes()), pyarrow.py_buffer(pre + b"".join(raw) + b"tail" * rng.choice([0, 1]))])
    elif isinstance(base, Lst):
        large = rng.random() < 0.3
        pre = [base.of.gen(g) for _ in range(rng.choice([0, 0, 2]))]
        off = numpy.cumsum([len(pre)] + [len(v) for v in filled]).astype("int64" if large else "int32")
        child = build(base.of, pre + [x for v in filled for x in v] + [base.of.gen(g) for _ in range(rng.choice([0, 0, 2]))], rng, depth + 1)
        typ = (pyarrow.large_list if large else pyarrow.list_)(child.type)
        out = pyarrow.Array.from_buffers(typ, n, [bitmap, pyarrow.py_buffer(off.tobytes())], children=[child])
    elif isinstance(base, Rec):
        kids = [build(x, [v[int(m) if base.istuple else m] for v in filled], rng, depth + 1) for m, x in base.fields]
        out = pyarrow.Array.from_buffers(pyarrow.struct([pyarrow.field(m, k.type) for (m, _), k in zip(base.fields, kids)]), n, [bitmap], children=kids)
    elif isinstance(base, Uni):
        codes = rng.sample(range(0, 20), len(base.of)) if rng.random() < 0.5 else list(range(len(base.of)))
        tags = [v.tag if isinstance(v, U) else 0 for v in filled]
        typecodes = pyarrow.py_buffer(numpy.array([codes[k] for k in tags], dtype="int8").tobytes())
        if rng.random() < 0.5:
            index, per = [], [[] for _ in base.of]
            for v, k in zip(filled, tags):
                index.append(len(per[k]))
                per[k].append(v.value)
            kids = [build(x, p, rng, depth + 1) for x, p in zip(base.of, per)]
            out = pyarrow.UnionArray.from_dense(pyarrow.array([codes[k] for k in tags], pyarrow.int8()), pyarrow.array(index, pyarrow.int32()), kids, ["f%d" % i for i in range(len(kids))], codes)
        else:
            kids = [build(x, [v.value if k == i else x.gen(g) for v, k in zip(filled, tags)], rng, depth + 1) for i, x in enumerate(base.of)]
            out = pyarrow.UnionArray.from_sparse(pyarrow.array([codes[k] for k in tags], pyarrow.int8()), kids, ["f%d" % i for i in range(len(kids))], codes)
    else:
        raise AssertionError(base)
    if lead or trail:
        out = out.slice(lead, len(vals))
    return out


def no_option_union(t):
    """Arrow unions have no missing values of their own"""
    if isinstance(t, Opt):
        x = no_option_union(t.of)
        return x if isinstance(x, Uni) else Opt(x)
    if isinstance(t, Lst):
        return Lst(no_option_union(t.of))
    if isinstance(t, Rec):
        return Rec([(n, no_option_union(x)) for n, x in t.fields], t.istuple)
    if isinstance(t, Uni):
        return Uni([no_option_union(x) for x in t.of])
    return t


@SUITE.scenario(5000, 60000)
def fromarrow(mon):
    """Arrow data with offsets, padding and junk under missing values"""
    g = gg(mon)
    rng = mon.rng
    t = no_option_union(random_type(g, 3, KINDS, LEAVES))
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, 5, 9))]
    x = build(t, vals, rng)
    mon.say(type=t.sig(), vals=V.plain(vals), arrow=str(x.type))
    if "sparse" not in str(x.type):
        x.validate(full="dictionary" not in str(x.type))
        want = fold(V.plain(vals), x.to_pylist())
        if V.same(want, V.plain(vals)) is not None:
            raise AssertionError("harness: Arrow shows %s, want %s" % (x.to_pylist(), V.plain(vals)))
    a = mon.call("fromarrow", lambda: awkward0.fromarrow(x))
    shows(mon, a, vals, "read from Arrow")
    mon.check(len(a) == len(vals), lambda: "length")
    if len(vals):
        w = random_where(rng, len(vals))
        shows(mon, a[w], take(vals, w), "rows of what was read")
        i = rng.randrange(len(vals))
        shows(mon, [a[i]], [vals[i]], "element of what was read")
    i = rng.randint(0, len(vals))
    j = rng.randint(i, len(vals))
    shows(mon, mon.call("fromarrow slice", lambda: awkward0.fromarrow(x.slice(i, j - i))), vals[i:j], "slice")


@SUITE.scenario(2500, 30000)
def containers(mon):
    """chunked arrays, record batches and tables"""
    g = gg(mon)
    rng = mon.rng
    how = rng.choice(["chunked", "batch", "table", "table"])
    if how == "chunked":
        t = no_option_union(random_type(g, 2, NOUNION, LEAVES))
        typ = arrow_type(t, rng)
        parts = [[V.plain(t.gen(g)) for _ in range(rng.choice([0, 1, 3]))] for _ in range(rng.randint(0, 3))]
        x = pyarrow.chunked_array([pyarrow.array(aspy(p), typ) for p in parts], typ)
        vals = [v for p in parts for v in p]
    else:
        t = Rec([("xyz"[i], no_option_union(random_type(g, 2, NOUNION, LEAVES))) for i in range(rng.randint(1, 3))])
        vals = [V.plain(t.gen(g)) for _ in range(many(rng, 0, 1, 4, 8))]
        schema = pyarrow.schema([pyarrow.field(n, arrow_type(u, rng), True) for n, u in t.fields])
        if how == "batch":
            x = pyarrow.RecordBatch.from_arrays([pyarrow.array(aspy([v[n] for v in vals]), schema.field(n).type) for n, _ in t.fields], schema=schema)
        else:
            cols = []
            for n, _ in t.fields:       # columns cut in different places
                cuts = sorted(rng.randint(0, len(vals)) for _ in range(rng.choice([0, 1, 2])))
                pieces = [[v[n] for v in vals[i:j]] for i, j in zip([0] + cuts, cuts + [len(vals)])]
                cols.append(pyarrow.chunked_array([pyarrow.array(aspy(p), schema.field(n).type) for p in pieces], schema.field(n).type))
            x = pyarrow.Table.from_arrays(cols, schema=schema)
    mon.say(type=t.sig(), how=how, vals=vals, arrow=str(x.type if how == "chunked" else x.schema))
    try:
        for y in (x.chunks if how == "chunked" else [x] if how == "batch" else x.to_batches()):
            y.validate(full=True)
    except pyarrow.ArrowInvalid:
        raise Skip("Arrow made invalid data")
    a = mon.call("fromarrow " + how, lambda: awkward0.fromarrow(x))
    shows(mon, a, vals, "read from " + how)
    if how != "chunked":
        n = rng.choice([n for n, _ in t.fields])
        shows(mon, a[n], [v[n] for v in vals], "column of " + how)
        tpe = mon.call("schema2type", lambda: awkward0.arrow.schema2type(x.schema))
        mon.check(same_type(t, tpe) is None, lambda: "schema: %s" % same_type(t, tpe))
        if len(vals):
            tpe = a.type.to
            mon.check(same_type(t, tpe) is None, lambda: "type: %s" % same_type(t, tpe))
    i = rng.randint(0, len(vals))
    j = rng.randint(i, len(vals))
    shows(mon, mon.call("fromarrow slice of " + how, lambda: awkward0.fromarrow(x.slice(i, j - i))), vals[i:j], "slice")


def aspy(x):
    """tuples are records with numbered fields"""
    if isinstance(x, tuple):
        return dict((str(i), aspy(y)) for i, y in enumerate(x))
    if isinstance(x, dict):
        return dict((n, aspy(y)) for n, y in x.items())
    if isinstance(x, list):
        return [aspy(y) for y in x]
    return x


# ------------------------------------------------------------- Parquet

class Dir(object):
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix="akmon-p14-", dir=base)
        return os.path.join(self.path, "f.parquet")

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


def explore(mon, f, t, vals, what):
    """read it all, or in pieces and any order, lazily"""
    rng = mon.rng
    options = {}
    if rng.random() < 0.4:
        options["cache"] = rng.choice([dict, lambda: Forgetful(1)])()
    if rng.random() < 0.3:
        options["persistvirtual"] = True
    a = mon.call("fromparquet", lambda: awkward0.fromparquet(f, **options))
    mon.check(len(a) == len(vals), lambda: "%s length %d, want %d" % (what, len(a), len(vals)))
    names = [n for n, _ in t.fields] if isinstance(t, Rec) else []
    steps = ["all", "type"] + (["column", "chunk", "rows", "cell"] * (2 if len(vals) else 0) if names else ["rows"] if len(vals) else [])
    rng.shuffle(steps)
    for s in steps:
        if s == "all":
            close(mon, a, vals, what)
        elif s == "type":
            if len(vals):
                tpe = a.type.to
                mon.check(same_type(t, tpe) is None, lambda: "%s: %s" % (what, same_type(t, tpe)))
        elif s == "column":
            n = rng.choice(names)
            close(mon, a[n], [get(v, n) for v in V.plain(vals)], what + " column")
        elif s == "chunk":
            i, at = 0, 0
            k = rng.randrange(len(a.chunks))
            at = sum(len(c) for c in a.chunks[:k])
            close(mon, a.chunks[k], vals[at:at + len(a.chunks[k])], what + " row group")
        elif s == "rows":
            w = random_slice(rng, len(vals))
            if "(" not in t.sig():
                close(mon, a[w], take(vals, w), what + " rows")
        else:
            n = rng.choice(names)
            i = rng.randrange(len(vals))
            v = get(V.plain(vals[i]), n)
            close(mon, [a[i][n]], [v], what + " cell")
            close(mon, [a[n][i]], [v], what + " cell")
    return a


def get(v, n):
    return v[int(n)] if isinstance(v, tuple) else v[n]


class Forgetful(dict):
    """keeps only the last n items"""
    def __init__(self, n):
        dict.__init__(self)
        self.n = n

    def __setitem__(self, k, v):
        while len(self) >= self.n:
            del self[next(iter(self))]
        dict.__setitem__(self, k, v)


@SUITE.scenario(700, 8000)
def parquet(mon):
    """written from any layout, in one or many row groups"""
    g = gg(mon)
    rng = mon.rng
    t = random_type(g, 2, NOUNION, LEAVES)
    if rng.random() < 0.7 and not isinstance(t, Rec):
        t = Rec([("x", t), ("y", random_type(g, 1, NOUNION, LEAVES))])
    if isinstance(t, Rec):
        t = Rec([("xyz"[i], x) for i, (_, x) in enumerate(t.fields)])
    how = rng.choice(["one", "one", "chunks", "list", "iterator"])
    parts = [[t.gen(g) for _ in range(rng.choice([0, 1, 2, 5]))] for _ in range(1 if how == "one" else rng.randint(1, 3))]
    vals = [v for p in parts for v in p]
    if how == "one":
        arrays = [encode(t, parts[0], g)]
    else:
        k = rng.randrange(3)
        arrays = [encode(t, p, mon.G(pwrap=0.0, encodings=("utf-8",), masks=(("bool", "bit", "indexed")[k],), wrap=set())) for p in parts]
    mon.say(type=t.sig(), how=how, vals=V.plain(parts))
    with Dir() as f:
        obj = arrays[0] if how == "one" else awkward0.ChunkedArray(arrays) if how == "chunks" else arrays if how == "list" else iter(arrays)
        try:
            mon.call("toparquet iterator" if how == "iterator" else "toparquet", lambda: awkward0.toparquet(f, obj), *arrays)
        except (pyarrow.ArrowNotImplementedError, pyarrow.ArrowInvalid, OSError) as err:
            if "dictionary" not in str(awkward0.toarrow(arrays[0]).schema if isinstance(awkward0.toarrow(arrays[0]), pyarrow.Table) else awkward0.toarrow(arrays[0]).type):
                raise
            raise Skip("Parquet does not have this type")
        x = pyarrow.parquet.read_table(f)
        seen = x.to_pylist()
        if x.schema.names == [""]:
            seen = [v[""] for v in seen]
        close(mon, seen, vals, "as seen by Arrow")
        a = explore(mon, f, t, vals, "Parquet")
        if rng.random() < 0.3:
            g2 = f + "2"
            mon.call("toparquet again", lambda: awkward0.toparquet(g2, a), a)
            close(mon, awkward0.fromparquet(g2), vals, "written and read again")


@SUITE.scenario(500, 6000)
def groups(mon):
    """files written by Arrow, with row groups of any size"""
    g = gg(mon)
    rng = mon.rng
    t = Rec([("xyz"[i], random_type(g, 2, NOUNION, LEAVES)) for i in range(rng.randint(1, 3))])
    vals = [V.plain(t.gen(g)) for _ in range(many(rng, 0, 1, 4, 10))]
    schema = pyarrow.schema([pyarrow.field(n, arrow_type(u, rng), True) for n, u in t.fields])
    x = pyarrow.Table.from_arrays([pyarrow.array(aspy([v[n] for v in vals]), schema.field(n).type) for n, _ in t.fields], schema=schema)
    mon.say(type=t.sig(), vals=vals, arrow=str(x.schema))
    with Dir() as f:
        try:
            pyarrow.parquet.write_table(x, f, row_group_size=rng.choice([1, 2, 3, 100]))
            if V.same(pyarrow.parquet.read_table(f).to_pylist(), x.to_pylist()) is not None:
                raise Skip("Arrow itself does not give back what it wrote")
        except (pyarrow.ArrowNotImplementedError, pyarrow.ArrowInvalid):
            raise Skip("Parquet does not have this type")
        explore(mon, f, t, vals, "Parquet written by Arrow")


@SUITE.scenario(400, 3000)
def times(mon):
    """dates and times keep their unit"""
    rng = mon.rng
    unit = rng.choice(["s", "ms", "us", "ns"])
    kind = rng.choice(["timestamp", "duration", "date64"])
    if kind == "date64":
        unit = "ms"
    dtype = "M8[%s]" % unit if kind != "duration" else "m8[%s]" % unit
    n = rng.randint(0, 9)
    ints = [rng.randint(-10**6, 10**9) * (86400000 if kind == "date64" else 1) for _ in range(n)]
    missing = [rng.random() < 0.3 for _ in range(n)]
    typ = {"timestamp": lambda: pyarrow.timestamp(unit, rng.choice([None, "UTC"])), "duration": lambda: pyarrow.duration(unit), "date64": pyarrow.date64}[kind]()
    x = pyarrow.array([None if m else i for m, i in zip(missing, ints)], pyarrow.int64()).cast(pyarrow.int64()).view(typ)
    i = rng.randint(0, n)
    want = [None if m else numpy.array(v, dtype="int64").view(dtype)[()] for m, v in zip(missing, ints)]
    mon.say(arrow=str(typ), want=want)
    for y, w in (x, want), (x.slice(i), want[i:]):
        a = mon.call("fromarrow times", lambda: awkward0.fromarrow(y))
        got = list(a)
        mon.check(len(got) == len(w) and all(p is q if q is None else p == q and p.dtype == q.dtype for p, q in zip(got, w)), lambda: "got %r want %r" % (got, w))
    a = awkward0.fromarrow(x)
    if kind != "date64" and (typ.tz is None if kind == "timestamp" else True):
        b = mon.call("toarrow times", lambda: awkward0.toarrow(a), a)
        mon.check(b.type == typ and b.equals(x), lambda: "back in Arrow %s, want %s" % (b, x))
