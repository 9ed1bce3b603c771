"""P09: missing data is dropped, filled and reported exactly where it is missing."""
import numpy
import awkward0
from akmon import values as V
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *
from akmon.ops import *

SUITE = Suite("P09")
SUITE.needs = {"oracle": 20000}


def oracle_counts(t, v):
    if isinstance(t, Opt):
        return -1 if v is None else oracle_counts(t.of, v)
    if isinstance(t, Uni):
        return oracle_counts(t.of[v.tag], v.value)
    if isinstance(t, Lst):
        return len(v)
    if isinstance(t, Reg):
        return t.inner[0]
    return -1


def has(t, cls):
    if isinstance(t, cls):
        return True
    if isinstance(t, (Lst, Opt)):
        return has(t.of, cls)
    if isinstance(t, Rec):
        return any(has(x, cls) for _, x in t.fields)
    if isinstance(t, Uni):
        return any(has(x, cls) for x in t.of)
    return False


def missing(t, v):
    if isinstance(t, Opt):
        return v is None          # what is inside of it is not the first mask
    if isinstance(t, Uni):
        return missing(t.of[v.tag], v.value)
    return False


@SUITE.scenario(6000, 70000)
def masks(mon):
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=rng.choice([0.1, 0.5]), wrapdepth=2, pnone=rng.choice([0.1, 0.3, 0.8]), anywhen=True)
    t = random_type(g, 2)
    if rng.random() < 0.6 and not isinstance(t, Opt):
        t = Opt(t)
    n = rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 20])
    vals = [t.gen(g) for _ in range(n)]
    a = encode(t, vals, g)
    if rng.random() < 0.3:
        w = random_where(rng, n)
        a, vals = a[w], take(vals, w)
    if not isinstance(a, awkward0.array.base.AwkwardArray):
        raise Skip()
    mon.say(type=t.sig(), vals=vals)
    want = [missing(t, v) for v in vals]
    inv = [not x for x in want]
    for _ in range(2):
        k = rng.choice(["boolmask(True)", "boolmask(False)", "ismasked", "isunmasked", "counts", "drop", "default"])
        if k == "boolmask(True)":
            mon.eq(mon.call(k, lambda: a.boolmask(True) if rng.random() < 0.5 else a.boolmask(maskedwhen=True), a), want, k)
        elif k == "boolmask(False)":
            mon.eq(mon.call(k, lambda: a.boolmask(maskedwhen=False), a), inv, k)
        elif k == "ismasked":
            mon.eq(mon.call(k, lambda: a.ismasked, a), want, k)
        elif k == "isunmasked":
            mon.eq(mon.call(k, lambda: a.isunmasked, a), inv, k)
        elif k == "counts":
            if has(t, (Str, Byt)):
                continue
            mon.eq(mon.call(k, lambda: a.counts, a), [oracle_counts(t, v) for v in vals], k)
        elif k == "drop":
            mon.eq(mon.call("a[a.isunmasked]", lambda: a[a.isunmasked], a), [v for v, m in zip(vals, want) if not m], "a[a.isunmasked]")
        elif isinstance(a, awkward0.IndexedMaskedArray) or not isinstance(a, awkward0.MaskedArray):
            if isinstance(a, awkward0.MaskedArray) or isinstance(t, (Lst, Rec)) and not isinstance(a, (awkward0.VirtualArray, awkward0.IndexedArray, awkward0.ChunkedArray)):
                mon.eq(mon.call("boolmask()", lambda: a.boolmask(), a), want, "boolmask()")
        else:
            mon.eq(mon.call("boolmask()", lambda: a.boolmask(), a), want if a.maskedwhen else inv, "boolmask()")
    mon.eq(a, vals, "afterwards")


@SUITE.scenario(3000, 40000)
def constructors(mon):
    """the different representations of a mask are interchangeable"""
    rng = mon.rng
    g = mon.G(pwrap=0.1)
    t = random_type(g, 1, ("prim", "list", "rec", "str", "reg"))
    n = rng.choice([0, 1, 2, 5, 7, 8, 9, 12, 15, 16, 17, 24, 25, 33])
    vals = [t.gen(g) for _ in range(n)]
    c = encode(t, vals, g)
    p = rng.choice([0.5, 0.1, 0.9])
    gone = [rng.random() < p for _ in range(n)]
    want = [None if m else v for v, m in zip(vals, gone)]
    when = rng.random() < 0.5
    lsb = rng.random() < 0.5
    m = nparr([x == when for x in gone], bool, g)
    B = awkward0.BitMaskedArray
    k = rng.choice(["fromboolmask", "bits", "fromcontent", "indexed", "ints", "trip", "isfromcontent", "relabel"])
    mon.say(type=t.sig(), vals=vals, gone=gone, when=when, lsb=lsb, how=k)
    if k == "fromboolmask":
        a = mon.call(k, lambda: B.fromboolmask(m, c, maskedwhen=when, lsborder=lsb), m, c)
    elif k == "bits":
        bits = mon.call("bool2bit", lambda: B.bool2bit(m, lsborder=lsb), m)
        mon.check(len(bits) == (n + 7) // 8, lambda: "%d bytes for %d bits" % (len(bits), n))
        want_bytes = []
        for i in range(0, n, 8):
            b = 0
            for j, x in enumerate((list(m) + [False] * 8)[i:i + 8]):
                if x:
                    b |= (1 << j) if lsb else (0x80 >> j)
            want_bytes.append(b)
        keep = n % 8
        if keep and len(bits) == len(want_bytes):
            # the unused bits of the last byte are not specified
            used = ((1 << keep) - 1) if lsb else (0xff00 >> keep) & 0xff
            bits_ = [int(x) for x in bits]
            bits_[-1] &= used
            mon.eq(bits_, want_bytes, "bool2bit")
        back = mon.call("bit2bool", lambda: B.bit2bool(bits, lsborder=lsb), bits)
        mon.eq(list(tolist(back))[:n], [bool(x) for x in m], "bit2bool")
        a = B(bits, c, maskedwhen=when, lsborder=lsb)
    elif k == "fromcontent":
        cls = rng.choice([awkward0.MaskedArray, B, awkward0.IndexedMaskedArray])
        a = mon.call("%s.fromcontent" % cls.__name__, lambda: cls.fromcontent(c) if cls is awkward0.IndexedMaskedArray else cls.fromcontent(c, maskedwhen=when), c)
        want = vals
        mon.eq(a.boolmask(maskedwhen=True), [False] * n, "boolmask of nothing missing")
    elif k == "isfromcontent":
        a = mon.call("BitMaskedArray.fromcontent", lambda: B.fromcontent(c, maskedwhen=when, lsborder=lsb), c)
        want = vals
        mon.eq(a.boolmask(maskedwhen=False), [True] * n, "boolmask of nothing missing")
    elif k == "indexed":
        b = awkward0.MaskedArray(m, c, maskedwhen=when) if rng.random() < 0.5 else B.fromboolmask(m, c, maskedwhen=when, lsborder=lsb)
        a = mon.call("indexed", lambda: b.indexed(), b)
        mon.check(isinstance(a, awkward0.IndexedMaskedArray), "indexed() gives %s" % type(a).__name__)
        mon.eq(b, want, "afterwards")
    elif k == "ints":
        # any number other than zero is true
        mi = numpy.array([rng.choice([1, 2, -1, 255]) if x else 0 for x in m], dtype="int16")
        a = mon.call("int mask", lambda: awkward0.MaskedArray(mi, c, maskedwhen=when), mi, c)
    elif k == "trip":
        b = awkward0.MaskedArray(m, c, maskedwhen=when)
        w2 = rng.random() < 0.5
        a = mon.call("via boolmask", lambda: B.fromboolmask(b.boolmask(maskedwhen=w2), b.content, maskedwhen=w2, lsborder=lsb), b)
    else:
        b = awkward0.MaskedArray(m, c, maskedwhen=when)
        a = b.copy(mask=numpy.logical_not(m), maskedwhen=not when)
    mon.eq(a, want, "values")
    mon.check(len(a) == n, "length %d" % len(a))


def fill(t, v, x):
    """what fillna means for a value"""
    if isinstance(t, Opt):
        return x if v is None else fill(t.of, v, x)
    if isinstance(t, Lst):
        return [fill(t.of, y, x) for y in v]
    if isinstance(v, list):
        return [fill(t, y, x) for y in v]
    if isinstance(t, Rec):
        if t.istuple:
            return tuple(fill(s, y, x) for (n, s), y in zip(t.fields, v))
        return dict((n, fill(s, v[n], x)) for n, s in t.fields)
    if isinstance(t, Uni):
        return fill(t.of[v.tag], v.value, x)
    if isinstance(v, float) and v != v:
        return float(x)
    return v


@SUITE.scenario(5000, 60000)
def filling(mon):
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=rng.choice([0.0, 0.2, 0.6]), wrapdepth=2, pnone=rng.choice([0.1, 0.4, 0.8]), longcols=False,
              pnan=rng.choice([0, 0, 0.3]), maxlen=rng.choice([3, 9]), anywhen=True)
    numbers = ["int64", "float64", "int32", "float32", "int8", "uint8"]

    def rnd(d):
        r = rng.random()
        if d <= 0 or r < 0.2:
            p = Prim(rng.choice(numbers)) if rng.random() < 0.9 else Reg(rng.choice(["int64", "float64"]), [rng.randint(1, 3)])
            return Opt(p) if rng.random() < 0.7 and isinstance(p, Prim) else p
        if r < 0.55:
            return Lst(rnd(d - 1))
        if r < 0.85:
            nf = rng.randint(1, 3)
            if rng.random() < 0.2:
                return Rec([(str(i), rnd(d - 1)) for i in range(nf)], istuple=True)
            return Rec([("xyz"[i], rnd(d - 1)) for i in range(nf)])
        return Uni([rnd(d - 1) for _ in range(2)])
    t = rnd(rng.choice([0, 1, 2]))
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, 3, 5, 8, 9, 17))]
    a = encode(t, vals, g)
    if not isinstance(a, awkward0.array.base.AwkwardArray):
        raise Skip()
    x = rng.choice([0, 1, 7, 99])
    mon.say(type=t.sig(), vals=vals, fill=x)
    b = mon.call("fillna", lambda: a.fillna(x), a)
    mon.eq(b, [fill(t, v, x) for v in vals], "fillna(%d)" % x, exact=False)
    mon.eq(a, vals, "afterwards")


def padded(t, v, n, clip, axis=0):
    if isinstance(t, Opt):
        return None if v is None else padded(t.of, v, n, clip, axis)
    if isinstance(t, Uni):
        return padded(t.of[v.tag], v.value, n, clip, axis)
    if isinstance(t, Rec):
        if t.istuple:
            return tuple(padded(s, y, n, clip, axis) for (k, s), y in zip(t.fields, v))
        return dict((k, padded(s, v[k], n, clip, axis)) for k, s in t.fields)
    if axis > 0:
        return [padded(t.of, y, n, clip, axis - 1) for y in v]
    out = V.plain(list(v))
    if clip:
        out = out[:n]
    return out + [None] * (n - len(out))


@SUITE.scenario(6000, 70000)
def padding(mon):
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=rng.choice([0.0, 0.2, 0.5]), wrapdepth=2, pnone=rng.choice([0.1, 0.5]), longcols=False, maxlen=rng.choice([2, 5]))
    inner = random_type(g, rng.choice([0, 0, 1, 2]))
    axis = 0
    t = Lst(inner)
    if rng.random() < 0.15:
        t = Reg(rng.choice(["int64", "float64"]), [rng.randint(1, 3)] + ([2] if rng.random() < 0.3 else []))
    while rng.random() < 0.3:
        axis += 1
        t = Lst(t)
    r = rng.random()
    if r < 0.2:
        t = Opt(t)
    elif r < 0.4:
        s = Lst(Prim("int64")) if axis == 0 else Lst(Lst(Prim("int64")))
        for _ in range(max(0, axis - 1)):
            s = Lst(s)
        t = Rec([("x", t), ("y", s)])
    elif r < 0.5:
        s = Lst(Prim("int64"))
        for _ in range(axis):
            s = Lst(s)
        t = Uni([t, s])
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, 3, 5, 8))]
    a = encode(t, vals, g)
    if not isinstance(a, awkward0.array.base.AwkwardArray):
        raise Skip()
    n = rng.choice([0, 1, 2, 3, 4, 6])
    clip = rng.random() < 0.5
    kw = {}
    if rng.random() < 0.3:
        kw["maskedwhen"] = rng.random() < 0.5
    if axis:
        kw["axis"] = axis
    mon.say(type=t.sig(), vals=vals, length=n, clip=clip, kw=kw)
    b = mon.call("pad", lambda: a.pad(n, clip=clip, **kw), a)
    mon.eq(b, [padded(t, v, n, clip, axis) for v in vals], "pad(%d, clip=%r)" % (n, clip))
    mon.eq(a, vals, "afterwards")
    if isinstance(t, Lst) and isinstance(t.of, Prim) and clip and len(vals):
        c = mon.call("pad fillna regular", lambda: a.pad(n, clip=True).fillna(0).regular(), a)
        mon.check(isinstance(c, numpy.ndarray) and c.shape == (len(vals), n), lambda: "regular gives %r" % (c,))
        mon.eq(c, [padded(t, v, n, True) if False else [fill(Opt(t.of), y, 0) for y in padded(t, v, n, True)] for v in vals], "pad.fillna.regular", exact=False)


@SUITE.scenario(1500, 15000)
def npmasked(mon):
    """Numpy's own masked arrays as the result of padding"""
    rng = mon.rng
    g = mon.G(pwrap=0)
    t = Lst(Prim(rng.choice(["int64", "float64", "int32"]))) if rng.random() < 0.7 else Reg("int64", [rng.randint(1, 3)])
    vals = [t.gen(g) for _ in range(many(rng, 1, 2, 3, 5, 8))]
    a = encode(t, vals, g)
    wrapped = isinstance(t, Reg)
    if wrapped:
        a = awkward0.Table(x=a)
    n = rng.choice([0, 1, 2, 3, 4, 6])
    clip = rng.random() < 0.5
    if clip and n == 0:
        raise Skip()
    mon.say(vals=vals, n=n, clip=clip, type=t.sig())
    b = mon.call("pad ma", lambda: a.pad(n, numpy.ma.masked, clip=clip), a)
    b = b["x"] if wrapped else b
    want = [padded(t, v, n, clip) for v in vals]
    if not len(vals) or not sum(len(v) for v in vals):
        raise Skip()
    mon.check(len(b) == len(vals), "length %d" % len(b))
    for x, w in zip(b, want):
        mon.eq([None if y is numpy.ma.masked else tolist(y) for y in x], w, "pad with numpy.ma.masked")


@SUITE.scenario(1500, 15000)
def padstrings(mon):
    """strings are padded with characters"""
    rng = mon.rng
    g = mon.G(unsigned=True, unicode=False, pwrap=rng.choice([0.0, 0.3]), encodings=["utf-8"])
    byt = rng.random() < 0.4
    t = Byt() if byt else Str()
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, 5, 8))]
    a = encode(t, vals, g)
    n = rng.choice([0, 1, 2, 3, 4, 6])
    clip = rng.random() < 0.5
    c = rng.choice([None, b".", b"\x00", b"z"])
    ch = (b" " if c is None else c)
    ch = ch if byt else ch.decode()
    if not isinstance(a, awkward0.StringArray):
        raise Skip()
    mon.say(vals=vals, n=n, clip=clip, c=c)
    b = mon.call("pad strings", lambda: a.pad(n, clip=clip) if c is None else a.pad(n, maskedwhen=c, clip=clip), a)
    mon.check(isinstance(b, awkward0.StringArray), lambda: "padding strings gives %s" % type(b).__name__)
    mon.eq(b, [(v[:n] if clip else v) + ch * (n - len(v)) for v in vals], "pad strings")
    mon.eq(a, vals, "afterwards")


@SUITE.scenario(4000, 50000)
def flattening(mon):
    """missing lists stay one missing element at axis 0, and are dropped at axis 1"""
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=rng.choice([0.0, 0.3]), wrapdepth=1, pnone=rng.choice([0.2, 0.5]), maxlen=4, anywhen=True)
    x = random_type(g, 1)
    if isinstance(x, (Uni,)):
        raise Skip()
    shape = rng.choice(["opt-list", "list-opt", "opt-list-list", "list-list-opt", "opt"])
    o = x if isinstance(x, Opt) else Opt(x)
    t = {"opt-list": Opt(Lst(x)), "list-opt": Lst(o), "opt-list-list": Opt(Lst(Lst(x))), "list-list-opt": Lst(Lst(o)), "opt": Opt(Prim("int64"))}[shape]
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 2, 3, 5, 8))]
    a = encode(t, vals, g)
    axis = 1 if shape.count("list") == 2 and rng.random() < 0.6 else 0
    mon.say(type=t.sig(), vals=vals, axis=axis)
    b = mon.call("flatten", lambda: a.flatten(axis=axis) if axis or rng.random() < 0.5 else a.flatten(), a)
    if axis == 0:
        want = []
        for v in vals:
            if v is None or not isinstance(v, list):
                want.append(v)
            else:
                want.extend(v)
    else:
        want = [sum(v, []) for v in vals if v is not None]
    mon.eq(b, want, "flatten(axis=%d)" % axis)
    mon.eq(a, vals, "afterwards")


@SUITE.scenario(600, 6000)
def regularising(mon):
    """a missing number becomes NaN in a regular array"""
    rng = mon.rng
    g = mon.G(unsigned=True, pwrap=0.2, pnone=0.4, wrap=set(["indexed", "virtual"]))
    t = Opt(Prim(rng.choice(["int64", "float64", "int8"])) if rng.random() < 0.7 else Reg("float64", [2]))
    vals = [t.gen(g) for _ in range(many(rng, 1, 2, 3, 8, 9))]
    a = encode(t, vals, g)
    mon.say(type=t.sig(), vals=vals)
    b = mon.call("regular", lambda: a.regular(), a)
    mon.check(isinstance(b, numpy.ndarray) and len(b) == len(vals), "not a Numpy array of the same length")
    miss = float("nan") if isinstance(t.of, Prim) else [float("nan")] * 2
    mon.eq(b, [miss if v is None else v for v in vals], "regular", exact=False)


@SUITE.scenario(600, 6000)
def refused(mon):
    rng = mon.rng
    g = mon.G(pwrap=0.1)
    k = rng.choice(["scalar", "table", "union", "axis", "deep", "maskstring"])
    n = rng.choice([1, 2, 5])
    lists = encode(Lst(Prim("int64")), [Lst(Prim("int64")).gen(g) for _ in range(n)], g)
    nums = encode(Prim("int64"), list(range(n)), g)
    mon.say(kind=k, n=n)
    if k == "scalar":
        a = encode(Opt(Prim("int64")), [Opt(Prim("int64")).gen(g) for _ in range(n)], g)
        mon.raises("pad scalars", lambda: a.pad(3), a)
    elif k == "table":
        a = awkward0.Table(x=nums, y=lists)
        mon.raises("pad table of scalars", lambda: a.pad(3), a)
    elif k == "union":
        a = awkward0.UnionArray.fromtags([0, 1] * n, [lists, nums])
        mon.raises("pad union with scalars", lambda: a.pad(3), a)
    elif k == "axis":
        mon.raises("flatten(axis=-1)", lambda: lists.flatten(axis=-1), lists)
        mon.raises("pad(axis=-1)", lambda: lists.pad(2, axis=-1), lists)
    elif k == "deep":
        mon.raises("pad too deep", lambda: lists.pad(2, axis=1), lists)
    else:
        a = awkward0.StringArray.fromiter(["one", "two"])
        mon.raises("pad strings with not one character", lambda: a.pad(5, maskedwhen=rng.choice([b"", b"ab", "x", 3])), a)
