"""P23: an array of strings is a list of strings, whatever its layout and encoding."""
import codecs

import numpy
import awkward0
from akmon.monitor import Suite, Violation, Skip, tolist
from akmon.layouts import *
from akmon.layouts import _enc_string
from akmon.ops import *

SUITE = Suite("P23")
SUITE.needs = {"op:build": 4000, "op:compare": 6000, "rejected": 1500}
S = awkward0.StringArray

ALPHA = {"ascii": u"ab Z09", "latin-1": u"ab\u00e9\u00ff Z"}
WIDE = u"abXY 09\u00e9\u03b1\u2603\U0001f600"
ENC = ["utf-8", "utf-8", "utf-16le", "utf-16", "utf-32le", "latin-1", "ascii", None]


def strings(mon, enc, n, nul=False):
    rng = mon.rng
    out = []
    for _ in range(n):
        k = rng.choice([0, 0, 1, 1, 2, 3, 5])
        if enc is None:
            out.append(bytes(rng.choice([0, 1, 65, 66, 97, 255] if nul else [1, 65, 66, 97, 255]) for _ in range(k)))
        else:
            al = ALPHA.get(enc, WIDE) + (u"\0" if nul else u"")
            out.append(u"".join(rng.choice(al) for _ in range(k)))
    # repeat some, so that equal strings are common
    for i in range(n):
        if rng.random() < 0.4:
            out[i] = out[rng.randrange(n)]
    return out


def tobytes(v, enc):
    return v if enc is None else codecs.getencoder(enc)(v)[0]


def build(mon, vals, enc):
    rng = mon.rng
    byts = [tobytes(v, enc) for v in vals]
    content = numpy.frombuffer(b"".join(byts), dtype=numpy.uint8)
    counts = [len(b) for b in byts]
    kinds = ["any", "any", "fromiter", "fromoffsets", "fromcounts", "fromparents", "fromjagged"]
    plainnul = all(not v.endswith(b"\0" if enc is None else u"\0") for v in vals)
    if enc in (None, "utf-32le") and len(vals) and plainnul:
        kinds += ["fromnumpy", "fromnumpy"]
    if len(vals) and all(v == vals[0] for v in vals):
        kinds += ["fromstr"] * 4
    k = rng.choice(kinds)
    mon.say(how=k)
    if k == "any":
        return _enc_string(None, byts, enc, mon.G())
    if k == "fromiter":
        how = rng.choice(["list", "tuple", "generator"])
        src = list(vals) if how == "list" else tuple(vals) if how == "tuple" else (x for x in vals)
        mon.say(how="fromiter " + how)
        return S.fromiter(src, encoding=enc) if enc != "utf-8" or rng.random() < 0.5 else S.fromiter(src)
    if k == "fromoffsets":
        pre = rng.choice([0, 0, 3])
        c = numpy.concatenate([numpy.full(pre, 88, dtype=numpy.uint8), content, numpy.full(rng.choice([0, 2]), 89, dtype=numpy.uint8)])
        return S.fromoffsets(numpy.array([pre] + [pre + sum(counts[: i + 1]) for i in range(len(counts))]), c, encoding=enc)
    if k == "fromcounts":
        return S.fromcounts(numpy.array(counts, dtype=rng.choice(["i8", "i4", "u1"])) if rng.random() < 0.7 else counts, content, encoding=enc)
    if k == "fromparents":
        while counts and counts[-1] == 0:
            raise Skip("parents say nothing about empty strings at the end")
        return S.fromparents(numpy.repeat(numpy.arange(len(counts)), counts), content, encoding=enc)
    if k == "fromjagged":
        return S.fromjagged(encode(Lst(Prim("uint8")), [list(b) for b in byts], mon.G(pwrap=0.0, endian=False, negative=False)), encoding=enc)
    if k == "fromnumpy":
        width = max([len(v) for v in vals] + [1]) + rng.choice([0, 0, 2])
        a = numpy.array(vals, dtype=("S%d" if enc is None else "U%d") % width)
        how = rng.choice(["plain", "reversed", "strided", "swapped"])
        if how == "reversed":
            a = numpy.ascontiguousarray(a[::-1])[::-1]
        elif how == "strided":
            b = numpy.full(2 * len(a), b"?" if enc is None else u"?", dtype=a.dtype)
            b[::2] = a
            a = b[::2]
        elif how == "swapped" and enc is not None:
            a = a.astype(a.dtype.newbyteorder(">"))
        mon.say(how="fromnumpy " + how)
        return S.fromnumpy(a)
    return S.fromstr(len(vals), vals[0], encoding=enc)


def look(mon, a, vals, enc):
    mon.check(isinstance(a, S), lambda: "made a %s" % type(a).__name__)
    mon.check(len(a) == len(vals), lambda: "len is %d" % len(a))
    mon.eq(mon.call("tolist", lambda: a.tolist(), a), vals, "tolist")
    mon.eq(mon.call("iter", lambda: list(a), a), vals, "iteration")
    mon.check(a.encoding == enc, lambda: "encoding is %r" % (a.encoding,))
    mon.check(a.type.to is (bytes if enc is None else str), lambda: "type is %s" % a.type)
    mon.eq(mon.call("counts", lambda: numpy.asarray(a.counts).tolist(), a), [len(tobytes(v, enc)) for v in vals], "counts")
    if len(vals):
        i = mon.rng.randrange(len(vals))
        mon.eq(mon.call("getitem", lambda: a[i], a), vals[i])
        mon.check((vals[i] in a) is True, "the string is not 'in' the array")


SIZES = [0, 1, 2, 3, 3, 5, 8]


@SUITE.scenario(6000, 90000)
def constructors(mon):
    rng = mon.rng
    enc = rng.choice(ENC)
    vals = strings(mon, enc, many(rng, *SIZES), nul=rng.random() < 0.3)
    if vals and rng.random() < 0.15:
        vals = [vals[0]] * len(vals)
    mon.say(encoding=enc, vals=vals)
    a = mon.call("build", lambda: build(mon, vals, enc))
    look(mon, a, vals, enc)
    got = mon.call("regular", lambda: a.regular(), a)
    if not any(v.endswith(b"\0" if enc is None else u"\0") for v in vals):
        mon.eq([x for x in got.tolist()], vals, "regular")
    w = rng.choice([rng.randrange(4), rng.randrange(4)])
    if w == 0:
        m = [rng.random() < 0.5 for _ in vals]
        look(mon, mon.call("select", lambda: a[numpy.array(m, dtype=bool)], a), [v for v, k in zip(vals, m) if k], enc)
    elif w == 1:
        s = random_slice(rng, len(vals))
        look(mon, mon.call("select", lambda: a[s], a), vals[s], enc)
    elif w == 2 and vals:
        i = [rng.randrange(-len(vals), len(vals)) for _ in range(rng.choice([0, 1, 3, 6]))]
        look(mon, mon.call("select", lambda: a[numpy.array(i, dtype=int)], a), [vals[k] for k in i], enc)
    else:
        look(mon, mon.call("compact", lambda: a.compact(), a), vals, enc)
        mon.eq(mon.call("parents", lambda: S.fromjagged(awkward0.JaggedArray.fromcounts(a.counts, a.flatten().content), enc), a), vals, "counts and content")


@SUITE.scenario(1500, 30000)
def undecodable(mon):
    """bytes that are no text in the encoding are shown with replacement characters, and only in the strings that have them"""
    rng = mon.rng
    enc = rng.choice(["utf-8", "ascii", "utf-16le"])
    byts = [bytes(rng.choice([0x41, 0x62, 0xc3, 0xa9, 0x80, 0xff, 0xd8]) for _ in range(rng.choice([0, 1, 2, 4]))) for _ in range(many(rng, *SIZES))]
    mon.say(encoding=enc, bytes_=byts)
    a = _enc_string(None, byts, None, mon.G())
    mon.eq(mon.call("tolist", lambda: a.tolist(), a), byts)
    a.encoding = enc
    mon.eq(mon.call("tolist", lambda: a.tolist(), a), [b.decode(enc, "replace") for b in byts], "after setting the encoding")
    a.encoding = None
    mon.eq(mon.call("tolist", lambda: a.tolist(), a), byts, "after removing the encoding")
    b = mon.call("copy", lambda: a.copy(encoding=enc), a)
    mon.eq(mon.call("tolist", lambda: b.tolist(), b), [b.decode(enc, "replace") for b in byts], "copy with encoding")
    mon.eq(mon.call("tolist", lambda: a.tolist(), a), byts, "the original of the copy")


@SUITE.scenario(7000, 100000)
def compare(mon):
    rng = mon.rng
    enc = rng.choice(ENC)
    n = many(rng, *SIZES)
    vals = strings(mon, enc, n, nul=rng.random() < 0.2)
    a = build(mon, vals, enc)
    ne = rng.random() < 0.4
    op = (lambda x, y: x != y) if ne else (lambda x, y: x == y)
    kind = rng.choice(["array", "array", "same", "other encoding", "one", "one", "numpy", "object", "number"])
    mon.say(kind=kind, ne=ne, encoding=enc, vals=vals)
    if kind in ("array", "same", "numpy", "object"):
        other = [v if rng.random() < 0.4 else w for v, w in zip(vals, strings(mon, enc, n, nul=rng.random() < 0.2))]
        if kind == "same":
            other = list(vals)
        if kind == "numpy":
            if any(v.endswith(b"\0" if enc is None else u"\0") for v in other) or n == 0:
                raise Skip("Numpy does not have NUL at the end")
            b = numpy.array(other)
        elif kind == "object":
            b = numpy.empty(n, dtype=object)
            b[:] = other
        else:
            b = build(mon, other, enc)
    elif kind == "other encoding":
        if enc is None:
            raise Skip("bytes have no encoding")
        enc2 = rng.choice([e for e in ENC if e is not None])
        other = [v if rng.random() < 0.4 and all(ch in ALPHA.get(enc2, v) for ch in v) else w for v, w in zip(vals, strings(mon, enc2, n))]
        b = build(mon, other, enc2)
    elif kind == "one":
        one = rng.choice(vals) if vals and rng.random() < 0.7 else (strings(mon, enc, 1)[0])
        other, b = [one] * n, one
    else:
        b = rng.choice([5, 1.5, None, True])
        other = [None] * n
    mon.say(other=other)
    want = [(x != y) if ne else (x == y) for x, y in zip(vals, other)]
    if rng.random() < 0.5:
        got = mon.call("compare", lambda: op(a, b), a, b)
    else:
        got = mon.call("compare", lambda: op(b, a), a, b)
    mon.eq(got, want, "comparison")
    if kind == "array" and n:
        c = build(mon, (vals + vals)[: n + rng.randint(1, 2)], enc)
        mon.raises("compare lengths", lambda: op(a, c), a, c)


@SUITE.scenario(4000, 60000)
def compare_structures(mon):
    """strings in lists, behind masks and in wrappers are compared item by item"""
    rng = mon.rng
    base = rng.choice([Str(), Byt()])
    t = rng.choice([base, base, Lst(base), Lst(base), Opt(base), Lst(Opt(base)), Lst(Lst(base)), Opt(Lst(base))])
    g = mon.G(pwrap=rng.choice([0.0, 0.4]), wrap=set(["indexed", "virtual"]), encodings=("utf-8",), sparse=False)
    n = rng.choice([1, 2, 3, 5])
    vals = [t.gen(g) for _ in range(n)]
    a = encode(t, vals, g)

    def change(v):
        if v is None:
            return None
        if isinstance(v, list):
            return [change(x) for x in v]
        return v if rng.random() < 0.6 else v + v[:1]

    def compared(v, w):
        if v is None or w is None:
            return None
        if isinstance(v, list):
            return [compared(x, y if isinstance(w, list) else w) for x, y in zip(v, w if isinstance(w, list) else v)]
        return (v == w) if not ne else (v != w)

    ne = rng.random() < 0.4
    mon.say(type=t.sig(), vals=vals, ne=ne)
    if rng.random() < 0.5:
        flat = []

        def rec(v):
            if isinstance(v, list):
                for x in v:
                    rec(x)
            elif v is not None:
                flat.append(v)
        rec(vals)
        b = w = rng.choice(flat) if flat and rng.random() < 0.8 else base.gen(g)
        want = [compared(v, w) for v in vals]
    else:
        w = [change(v) for v in vals]
        b = encode(t, w, mon.G(pwrap=0.0, encodings=("utf-8",)))
        want = [compared(x, y) for x, y in zip(vals, w)]
    mon.say(other=w)
    mon.eq(mon.call("compare", lambda: (a != b) if ne else (a == b), a, b), want, "comparison")


@SUITE.scenario(1500, 20000)
def joined(mon):
    rng = mon.rng
    enc = rng.choice(["utf-8", "utf-16le", "latin-1", None])
    n = many(rng, *SIZES)
    parts = [strings(mon, enc, n) for _ in range(rng.choice([1, 2, 3]))]
    arrays = [build(mon, p, enc) for p in parts]
    mon.say(encoding=enc, parts=parts)
    empty = b"" if enc is None else u""
    w = rng.randrange(4)
    if w == 0:
        look(mon, mon.call("flatten", lambda: arrays[0].flatten(), arrays[0]), [empty.join(parts[0])], enc)
    elif w == 1 and len(parts) > 1:
        look(mon, mon.call("concatenate", lambda: arrays[0].concatenate(arrays[1:]), *arrays), [v for p in parts for v in p], enc)
    elif w == 2 and len(parts) > 1 and n:
        look(mon, mon.call("concatenate", lambda: arrays[0].concatenate(arrays[1:], axis=1), *arrays), [empty.join(p[i] for p in parts) for i in range(n)], enc)
    elif enc in ("latin-1", None):
        # one byte per character
        lo, hi = rng.choice([(None, 1), (None, 2), (1, None), (1, 3), (None, None), (-2, None), (None, -1)])
        look(mon, mon.call("substrings", lambda: arrays[0][:, lo:hi], arrays[0]), [v[lo:hi] for v in parts[0]], enc)
        k = rng.choice([0, 1, 2, 4, 7])
        clip = rng.random() < 0.5
        fill = rng.choice([b" ", b".", b"x"])
        f = fill if enc is None else fill.decode("ascii")
        want = [v + f * (k - len(v)) for v in parts[0]]
        look(mon, mon.call("pad", lambda: arrays[0].pad(k, maskedwhen=fill, clip=clip), arrays[0]), [v[:k] for v in want] if clip else want, enc)


@SUITE.scenario(1500, 20000)
def nonsense(mon):
    """operations that make no sense for strings are rejected rather than done to their bytes"""
    rng = mon.rng
    enc = rng.choice(ENC)
    vals = strings(mon, enc, rng.choice([1, 2, 3]))
    a = build(mon, vals, enc)
    mon.say(encoding=enc, vals=vals)
    f = rng.choice([lambda: a + a, lambda: a + 1, lambda: -a, lambda: numpy.sqrt(a), lambda: a * 2, lambda: a < a, lambda: a >= a, lambda: numpy.maximum(a, a),
                    lambda: a.sum(), lambda: a.max(), lambda: a.argmax(), lambda: a & a, lambda: ~a, lambda: numpy.isnan(a), lambda: a[["x"]], lambda: a["x"],
                    lambda: a[len(vals)], lambda: a[-len(vals) - 1], lambda: a[numpy.array([True] * (len(vals) + 1))], lambda: a[numpy.array([0, len(vals)])]])
    mon.raises("nonsense", f, a)
    look(mon, a, vals, enc)
