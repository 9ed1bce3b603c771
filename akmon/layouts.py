"""Random physical layouts for a given logical value (value-first encoding).

encode(T, values, g) builds one of the many arrangements of buffers that the
library documents as representing `values`; the caller keeps `values` as the
reference.  Every buffer that is not referenced by the value is filled with
junk, so that reading an unreachable element is visible.
"""
import random

import numpy
import awkward0
from akmon.values import *

WRAPS = ("indexed", "chunked", "virtual", "sparse", "appendable")


LARGE = (100, 129, 140, 200, 257, 300)      # more than a byte can count, or than is shown when printed


def many(rng, *sizes):
    """how many rows"""
    return rng.choice(LARGE) if rng.random() < 0.006 else rng.choice(sizes)


class G(object):
    """generation context: randomness, size, and which layouts are allowed"""

    def __init__(self, rng, **kw):
        self.rng = rng
        self.pnone = 0.3
        self.pnan = 0.0
        self.inf = False
        self.pextreme = 0.0
        self.maxlen = 5
        self.wrap = set(["indexed", "chunked", "virtual"])
        self.pwrap = 0.15
        self.wrapdepth = 1
        self.wrapskip = ()
        self.masks = ("bool", "bit", "indexed")
        self.jagged = ("offsets", "counts", "startsstops", "longstops", "shared", "lead")
        self.tableviews = True
        self.longcols = True
        self.npviews = True
        self.readonly = True
        self.unicode = True
        self.unsigned = False
        self.plarge = 0.0007
        self.sig = []
        self.__dict__.update(kw)

    def small_len(self):
        r = self.rng.random()
        if r < 0.25:
            return 0
        if r < 0.5:
            return 1
        if r > 1.0 - self.plarge:
            self.plarge, self.maxlen = 0.0, min(self.maxlen, 2)       # one per case: items of many items take long
            return self.rng.choice(LARGE)
        return self.rng.randint(2, self.maxlen) if self.maxlen >= 2 else self.rng.randint(0, self.maxlen)

    def string(self):
        n = self.small_len()
        alpha = u"abcXYZ 019" + (u"\u00e9\u03b1\u2603\U0001f600" if self.unicode else u"")
        return u"".join(self.rng.choice(alpha) for _ in range(n))

    def bytestring(self):
        # no trailing NUL ambiguity for plain content; any byte value otherwise
        return bytes(self.rng.choice([0, 1, 65, 66, 97, 255]) for _ in range(self.small_len()))

    def note(self, x):
        self.sig.append(x)

    def chance(self, p):
        return self.rng.random() < p


def nparr(values, dtype, g, shape=None):
    """a 1-d (or shaped) Numpy array with random strides/offset/readonly"""
    a = numpy.array(values, dtype=dtype) if len(values) else numpy.empty((0,) + (shape or ()), dtype=dtype)
    if shape is not None and len(values) == 0:
        a = numpy.empty((0,) + shape, dtype=dtype)
    if g.npviews:
        r = g.rng.random()
        if r < 0.12:
            big = numpy.empty((len(a) * 2 + 3,) + a.shape[1:], dtype=a.dtype)
            big[...] = 77 if a.dtype.kind != "b" else True
            big[1:1 + 2 * len(a):2] = a
            a = big[1:1 + 2 * len(a):2]
            g.note("np-stride")
        elif r < 0.2:
            a = a[::-1].copy()[::-1]
            g.note("np-rev")
        elif r < 0.3:
            big = numpy.empty((len(a) + 4,) + a.shape[1:], dtype=a.dtype)
            big[...] = 77 if a.dtype.kind != "b" else True
            big[2:2 + len(a)] = a
            a = big[2:2 + len(a)]
            g.note("np-off")
    if g.readonly and g.chance(0.25):
        a.flags.writeable = False
    return a


SIGNED = ("int64", "int64", "int64", "int32", "int16")
UNSIGNED = SIGNED + ("uint8", "uint32")


def idx(values, g, kinds=None):
    """an index-like array in a random integer dtype able to hold it"""
    k = g.rng.choice(kinds or (UNSIGNED if g.unsigned else SIGNED))
    lo = min(values) if len(values) else 0
    hi = max(values) if len(values) else 0
    info = numpy.iinfo(k)
    if lo < info.min or hi > info.max:
        k = "int64"
    a = numpy.array(values, dtype=k)
    if g.readonly and g.chance(0.2):
        a.flags.writeable = False
    return a


def junk(T, n, g):
    return [T.gen(g) for _ in range(n)]


def encode(T, vals, g, depth=0):
    wraps = [w for w in g.wrap]
    wraps.sort()
    if wraps and depth < g.wrapdepth and not isinstance(T, g.wrapskip) and g.rng.random() < g.pwrap:
        w = g.rng.choice(wraps)
        f = globals()["wrap_" + w]
        out = f(T, vals, g, depth)
        if out is not None:
            return out
    return globals()["enc_" + type(T).__name__](T, vals, g, depth)


# ------------------------------------------------------------------ leaves

def enc_Prim(T, vals, g, depth):
    g.note(T.sig())
    return nparr(vals, T.dtype, g)


def enc_Reg(T, vals, g, depth):
    g.note(T.sig())
    return nparr(vals, T.dtype, g, shape=T.inner)


# ------------------------------------------------------------------- lists

def enc_Lst(T, vals, g, depth):
    style = g.rng.choice(g.jagged)
    n = len(vals)
    J = awkward0.JaggedArray
    if style in ("offsets", "lead", "counts"):
        lead = g.rng.randint(1, 3) if style == "lead" else 0
        tail = g.rng.randint(0, 2) if style != "counts" else g.rng.choice([0, 0, 1])
        content = junk(T.of, lead, g)
        offsets = [lead]
        for v in vals:
            content.extend(v)
            offsets.append(len(content))
        content.extend(junk(T.of, tail, g))
        g.note("Jagged:" + style)
        c = encode(T.of, content, g, depth)
        if style == "counts":
            return J.fromcounts(idx([len(v) for v in vals], g), c)
        return J.fromoffsets(idx(offsets, g), c)
    # starts/stops in random order with gaps
    order = list(range(n))
    g.rng.shuffle(order)
    content = []
    starts, stops = [0] * n, [0] * n
    done = {}
    for i in order:
        v = vals[i]
        if style == "shared":
            key = id(v)
            for j in done:
                if vals[j] is v or (len(v) <= len(vals[j]) and all(a is b for a, b in zip(v, vals[j][:len(v)]))):
                    starts[i] = starts[j]
                    stops[i] = starts[j] + len(v)
                    break
            else:
                content.extend(junk(T.of, g.rng.choice([0, 0, 1, 2]), g))
                starts[i] = len(content)
                content.extend(v)
                stops[i] = len(content)
            done[i] = True
            continue
        content.extend(junk(T.of, g.rng.choice([0, 0, 1, 2]), g))
        starts[i] = len(content)
        content.extend(v)
        stops[i] = len(content)
    content.extend(junk(T.of, g.rng.choice([0, 0, 1]), g))
    if style == "longstops":
        stops = stops + [g.rng.randint(0, len(content)) for _ in range(g.rng.randint(1, 3))]
        # extra stops are not part of the array
    g.note("Jagged:" + style)
    return J(idx(starts, g), idx(stops, g), encode(T.of, content, g, depth))


def grid(t, vals, g):
    """lists with a regular outer dimension: vals[i][j] is a list of t, with as many j for every i"""
    n, d = len(vals), len(vals[0])
    J = awkward0.JaggedArray
    style = g.rng.choice(["select", "counts", "starts", "view"])
    g.note("grid:" + style)
    if style == "select":
        # selecting the same positions from every list
        full, pos = [], []
        where = sorted(g.rng.sample(range(d + 2), d))
        for v in vals:
            row = [[t.gen(g) for _ in range(g.rng.randint(0, 2))] for _ in range(d + 2 + g.rng.choice([0, 0, 1]))]
            for j, x in zip(where, v):
                row[j] = x
            full.append(row)
        a = enc_Lst(Lst(Lst(t)), full, G_plain(g), 0)
        return a[:, where]
    rows = [x for v in vals for x in v]
    if style == "counts":
        return J.fromcounts(idx([len(x) for x in rows], g).reshape(n, d), encode(t, [y for x in rows for y in x], g, 1))
    content, where = [], {}
    for k in g.rng.sample(range(n * d), n * d):
        content.extend(junk(t, g.rng.choice([0, 0, 1]), g))
        where[k] = len(content)
        content.extend(rows[k])
    content.extend(junk(t, g.rng.choice([0, 1]), g))
    starts = numpy.array([where[k] for k in range(n * d)], dtype="int64").reshape(n, d)
    stops = starts + numpy.array([len(x) for x in rows], dtype="int64").reshape(n, d)
    c = encode(t, content, g, 1)
    if style == "view":
        k = g.rng.randint(1, 2)
        pad = numpy.zeros((k, d), dtype="int64")
        return J(numpy.concatenate([pad, starts, pad]), numpy.concatenate([pad, stops, pad]), c)[k:n + k]
    return J(starts, stops, c)


def G_plain(g):
    """the same generator, without wrappers"""
    import copy
    h = copy.copy(g)
    h.pwrap = 0.0
    return h


# ------------------------------------------------------------- missing data

def enc_Opt(T, vals, g, depth):
    kind = g.rng.choice(g.masks)
    n = len(vals)
    if kind == "indexed":
        present = [i for i in range(n) if vals[i] is not None]
        order = list(present)
        g.rng.shuffle(order)
        content, where = [], {}
        for i in order:
            content.extend(junk(T.of, g.rng.choice([0, 0, 1]), g))
            where[i] = len(content)
            content.append(vals[i])
        content.extend(junk(T.of, g.rng.choice([0, 1]), g))
        when = g.rng.choice([-1, -1, -1, -2, -999] if getattr(g, "anywhen", False) else [-1])
        mask = [where[i] if i in where else when for i in range(n)]
        g.note("IndexedMasked:%d" % when)
        return awkward0.IndexedMaskedArray(idx(mask, g, ("int64", "int64", "int32", "int16")), encode(T.of, content, g, depth), maskedwhen=when)
    when = g.rng.random() < 0.5
    filled = [v if v is not None else T.of.gen(g) for v in vals]
    mask = [(v is None) == when for v in vals]
    if getattr(g, "longmask", True) and g.chance(0.15):
        filled = filled + junk(T.of, g.rng.randint(1, 3), g)
        g.note("longcontent")
    content = encode(T.of, filled, g, depth)
    if kind == "bool":
        g.note("Masked:%s" % when)
        return awkward0.MaskedArray(nparr(mask, bool, g), content, maskedwhen=when)
    lsb = g.rng.random() < 0.5
    m = list(mask) + [g.rng.random() < 0.5 for _ in range(len(filled) - len(mask))]
    while len(m) % 8:
        m.append(g.rng.random() < 0.5)
    byts = []
    for i in range(0, len(m), 8):
        b = 0
        for j in range(8):
            if m[i + j]:
                b |= (1 << j) if lsb else (0x80 >> j)
        byts.append(b)
    if len(filled) != len(vals):
        # a bit mask's array length is that of its content
        content = content[:len(vals)]
    g.note("BitMasked:%s:%s" % (when, "lsb" if lsb else "msb"))
    return awkward0.BitMaskedArray(numpy.array(byts, dtype=numpy.uint8), content, maskedwhen=when, lsborder=lsb)


# ------------------------------------------------------------------ records

def enc_Rec(T, vals, g, depth):
    n = len(vals)
    view = g.tableviews and g.chance(0.3)
    rows = list(vals)
    sel = None
    if view:
        kind = g.rng.choice(["slice", "step", "neg", "fancy"])
        pre, post = g.rng.randint(0, 2), g.rng.randint(0, 2)
        if kind == "slice":
            rows = junk(T, pre, g) + rows + junk(T, post, g)
            sel = slice(pre, pre + n)
        elif kind == "step":
            step = g.rng.choice([2, 3])
            out = junk(T, pre, g)
            for r in rows:
                out.append(r)
                out.extend(junk(T, step - 1, g))
            rows = out + junk(T, post, g)
            sel = slice(pre, pre + n * step, step)
        elif kind == "neg":
            rows = junk(T, pre, g) + rows[::-1] + junk(T, post, g)
            stop = pre - 1
            sel = slice(pre + n - 1, stop if stop >= 0 else None, -1) if n else slice(0, 0)
        else:
            order = list(range(n))
            g.rng.shuffle(order)
            out, where = [], {}
            for i in order:
                out.extend(junk(T, g.rng.choice([0, 1]), g))
                where[i] = len(out)
                out.append(rows[i])
            rows = out
            sel = numpy.array([where[i] for i in range(n)], dtype=numpy.int64)
        g.note("Tableview:" + kind)
    else:
        g.note("Table")
    cols = []
    for k, (name, t) in enumerate(T.fields):
        c = [(r[k] if T.istuple else r[name]) for r in rows]
        if g.longcols and k > 0 and not view and g.chance(0.1):
            c = c + junk(t, g.rng.randint(1, 2), g)
            g.note("longcol")
        cols.append((name, encode(t, c, g, depth)))
    out = awkward0.Table.frompairs(cols, 0)
    if T.istuple:
        out.rowname = "tuple"
    if sel is not None:
        out = out[sel]
    return out


def enc_Obj(T, vals, g, depth):
    rec = Rec([("x", Prim("int64")), ("y", Prim("int64"))])
    how = getattr(g, "objargs", None)
    if how is None:
        how = g.objargs = g.rng.choice(["none", "none", "args", "kwargs", "both"])     # arrays of the same objects have the same arguments
    g.note("Object:" + how)
    args, kwargs = {"none": ((), {}), "args": ((-1,), {}), "kwargs": ((), {"sy": -1}), "both": ((1,), {"sy": -1})}[how]
    sx, sy = args[0] if args else 1, kwargs.get("sy", 1)
    content = encode(rec, [{"x": sx * v.x, "y": sy * v.y} for v in vals], g, depth)
    if how == "none":
        return awkward0.ObjectArray(content, makepoint)
    return awkward0.ObjectArray(content, makepoint, args, kwargs)


def makepoint(row, sx=1, sy=1):
    return Point(sx * int(row["x"]), sy * int(row["y"]))


# ------------------------------------------------------------------- unions

def enc_Uni(T, vals, g, depth):
    nt = len(T.of)
    contents = [[] for _ in range(nt)]
    n = len(vals)
    if n == 0:
        # a union cannot be empty: the library's own empty selections of a
        # union are empty arrays of its first alternative
        return encode(T.of[0], [], g, depth)
    index = [0] * n
    order = list(range(n))
    if g.chance(0.5):
        g.rng.shuffle(order)
    for i in order:
        v = vals[i]
        c = contents[v.tag]
        if g.chance(0.2):
            c.extend(junk(T.of[v.tag], 1, g))
        index[i] = len(c)
        c.append(v.value)
    for t in range(nt):
        if g.chance(0.2) or (len(contents[t]) == 0 and getattr(g, "fillunion", False)):
            contents[t].extend(junk(T.of[t], 1, g))
    if getattr(g, "longindex", True) and g.chance(0.1):
        index = index + [0] * g.rng.randint(1, 2)
        g.note("longindex")
    g.note("Union%d" % nt)
    tags = numpy.array([v.tag for v in vals], dtype=g.rng.choice(["uint8", "int64", "int8"]))
    encs = [encode(T.of[t], contents[t], g, depth) for t in range(nt)]
    return awkward0.UnionArray(tags, idx(index, g), encs)


# ------------------------------------------------------------------ strings

def _enc_string(T, byts, encoding, g):
    class B(T_Byte):
        pass
    n = len(byts)
    order = list(range(n))
    style = g.rng.choice(["compact", "scatter", "fromiter"])
    S = awkward0.StringArray
    if style == "fromiter":
        g.note("String:fromiter")
        if encoding is None:
            return S.fromiter(byts, encoding=None)
        return S.fromiter([b.decode(encoding) for b in byts], encoding=encoding)
    content = bytearray()
    starts, stops = [0] * n, [0] * n
    if style == "scatter":
        g.rng.shuffle(order)
    for i in order:
        if style == "scatter":
            content.extend(g.rng.choice([b"", b"", b"?", b"##"]))
        starts[i] = len(content)
        content.extend(byts[i])
        stops[i] = len(content)
    if style == "scatter":
        content.extend(b"!")
    g.note("String:" + style)
    return S(idx(starts, g), idx(stops, g), numpy.frombuffer(bytes(content), dtype=numpy.uint8), encoding=encoding)


class T_Byte(object):
    pass


def enc_Str(T, vals, g, depth):
    encoding = g.rng.choice(getattr(g, "encodings", ["utf-8", "utf-8", "utf-8", "utf-16le"]))
    return _enc_string(T, [v.encode(encoding) for v in vals], encoding, g)


def enc_Byt(T, vals, g, depth):
    return _enc_string(T, list(vals), None, g)


# ----------------------------------------------------------------- wrappers

def wrap_indexed(T, vals, g, depth):
    n = len(vals)
    order = list(range(n))
    g.rng.shuffle(order)
    content, where = [], {}
    for i in order:
        dup = None
        for j in where if getattr(g, "shareindexed", True) else ():
            if vals[j] is vals[i]:
                dup = j
                break
        if dup is not None:
            where[i] = where[dup]
            continue
        content.extend(junk(T, g.rng.choice([0, 0, 1]), g))
        where[i] = len(content)
        content.append(vals[i])
    g.note("Indexed")
    return awkward0.IndexedArray(idx([where[i] for i in range(n)], g), encode(T, content, g, depth + 1))


def split(n, g, empties=True):
    """random cut of range(n) into chunks"""
    k = g.rng.randint(1, 4)
    cuts = sorted(g.rng.randint(0, n) for _ in range(k - 1))
    edges = [0] + cuts + [n]
    parts = list(zip(edges[:-1], edges[1:]))
    if not empties:
        parts = [p for p in parts if p[1] > p[0]] or [(0, n)]
    return parts


def wrap_chunked(T, vals, g, depth):
    parts = split(len(vals), g, getattr(g, "emptychunks", True))
    g.note("Chunked%d%s" % (len(parts), "e" if any(a == b for a, b in parts) else ""))
    same_layout = g.rng.randrange(1 << 30)
    chunks = []
    mix = getattr(g, "mixchunks", True)
    for a, b in parts:
        if mix:
            chunks.append(encode(T, vals[a:b], g, depth + 1))
        else:
            sub = G(random.Random(same_layout), **dict((k, v) for k, v in g.__dict__.items() if k not in ("rng", "sig")))
            chunks.append(encode(T, vals[a:b], sub, depth + 1))
    sizes = [b - a for a, b in parts]
    if g.chance(0.5):
        return awkward0.ChunkedArray(chunks, sizes)
    if g.chance(0.3):
        return awkward0.ChunkedArray(chunks, sizes[:g.rng.randint(0, len(sizes))])
    return awkward0.ChunkedArray(chunks)


def wrap_virtual(T, vals, g, depth):
    inner = encode(T, vals, g, depth + 1)
    g.note("Virtual")
    cache = g.rng.choice([None, {}])
    out = awkward0.VirtualArray(lambda: inner, cache=cache)
    if g.chance(0.3):
        out.materialize()
    return out


def wrap_sparse(T, vals, g, depth):
    if isinstance(T, Reg):
        if getattr(g, "insparse", False):
            return None
        default = numpy.array(vals[0] if len(vals) and g.chance(0.3) else numpy.zeros(T.inner), dtype=T.dtype)
        same = default.tolist()
        keep = [i for i, v in enumerate(vals) if not (v == same and g.chance(0.9))]
        g.note("Sparse")
        g.insparse = True
        try:
            sub = encode(T, [vals[i] for i in keep], g, depth + 1)
        finally:
            g.insparse = False
        return awkward0.SparseArray(len(vals), numpy.array(keep, dtype=numpy.int64), sub, default=default if default.any() or g.chance(0.5) else None)
    if not isinstance(T, Prim):
        return None
    default = vals[0] if len(vals) and g.chance(0.5) else 0
    if T.dtype.kind == "b":
        default = bool(default)
    if default != default:
        return None
    keep = [i for i, v in enumerate(vals) if not (v == default and g.chance(0.9))]
    g.note("Sparse")
    default = T.dtype.type(default)
    sub = encode(T, [vals[i] for i in keep], g, depth + 1)
    return awkward0.SparseArray(len(vals), numpy.array(keep, dtype=numpy.int64), sub, default=default)


def wrap_appendable(T, vals, g, depth):
    if not isinstance(T, Prim):
        return None
    g.note("Appendable")
    size = g.rng.randint(1, 4)
    out = awkward0.AppendableArray((size,), T.dtype)
    k = g.rng.randint(0, len(vals))
    for v in vals[:k]:
        out.append(v)
    if k < len(vals):
        out.extend(numpy.array(vals[k:], dtype=T.dtype))
    return out


# ------------------------------------------------------------ random types

def random_type(g, depth=2, kinds=("prim", "list", "opt", "rec", "uni", "str", "byt", "obj", "reg"), dtypes=None):
    rng = g.rng
    kinds = list(kinds)
    if depth <= 0:
        kinds = [k for k in kinds if k in ("prim", "str", "byt", "reg", "obj")]
    k = rng.choice(kinds)
    sub = lambda: random_type(g, depth - 1, tuple(kinds), dtypes)
    if k == "prim":
        return Prim(rng.choice(dtypes or ["int64", "float64", "float64", "int32", "bool", "uint8", "float32", "int8"]))
    if k == "reg":
        return Reg(rng.choice(["int64", "float64"]), [rng.randint(1, 3)] + ([2] if rng.random() < 0.2 else []))
    if k == "list":
        return Lst(sub())
    if k == "opt":
        t = sub()
        while isinstance(t, Opt):
            t = t.of
        return Opt(t)
    if k == "rec":
        nf = rng.randint(1, 3)
        if rng.random() < 0.2:
            return Rec([(str(i), sub()) for i in range(nf)], istuple=True)
        return Rec([("xyz"[i], sub()) for i in range(nf)])
    if k == "uni":
        return Uni([sub() for _ in range(rng.randint(1, 3))])
    if k == "str":
        return Str()
    if k == "byt":
        return Byt()
    if k == "obj":
        return Obj()
    raise AssertionError(k)
