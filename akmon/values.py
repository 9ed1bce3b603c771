"""Logical types and values: the reference side of every monitor.

A logical type describes what a user would write down as plain Python; a
logical value is a list of such items.  Nothing in this file touches the
library under test.
"""
import math
import numpy

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLOATS = ["float32", "float64"]
ALL_PRIM = ["bool"] + INTS + FLOATS


class Missing(object):
    pass


class T(object):
    name = "?"

    def __repr__(self):
        return self.sig()


class Prim(T):
    def __init__(self, dtype):
        self.dtype = numpy.dtype(dtype)

    def sig(self):
        return str(self.dtype)

    def gen(self, g):
        return prim_value(self.dtype, g)


class Reg(T):
    """fixed-size inner dimensions (a multidimensional Numpy array)"""

    def __init__(self, dtype, inner):
        self.dtype = numpy.dtype(dtype)
        self.inner = tuple(inner)

    def sig(self):
        return "%s%s" % (self.dtype, list(self.inner))

    def gen(self, g):
        def rec(dims):
            if not dims:
                return prim_value(self.dtype, g)
            return [rec(dims[1:]) for _ in range(dims[0])]
        return rec(self.inner)


class Lst(T):
    def __init__(self, of):
        self.of = of

    def sig(self):
        return "[%s]" % self.of.sig()

    def gen(self, g):
        return [self.of.gen(g) for _ in range(g.small_len())]


class Opt(T):
    def __init__(self, of):
        self.of = of

    def sig(self):
        return "?%s" % self.of.sig()

    def gen(self, g):
        if g.rng.random() < g.pnone:
            return None
        return self.of.gen(g)


class Rec(T):
    def __init__(self, fields, istuple=False):
        self.fields = list(fields)          # [(name, T)]
        self.istuple = istuple

    def sig(self):
        return "{%s}" % ",".join("%s:%s" % (n, t.sig()) for n, t in self.fields)

    def gen(self, g):
        if self.istuple:
            return tuple(t.gen(g) for n, t in self.fields)
        return dict((n, t.gen(g)) for n, t in self.fields)


class Uni(T):
    def __init__(self, of):
        self.of = list(of)

    def sig(self):
        return "(%s)" % "|".join(t.sig() for t in self.of)

    def gen(self, g):
        return U(g.rng.randrange(len(self.of)), None, self, g)


class U(object):
    """a tagged union value (tag is stripped by plain())"""
    __slots__ = ("tag", "value")

    def __init__(self, tag, value, typ=None, g=None):
        self.tag = tag
        self.value = value if g is None else typ.of[tag].gen(g)


class Str(T):
    def sig(self):
        return "str"

    def gen(self, g):
        return g.string()


class Byt(T):
    def sig(self):
        return "bytes"

    def gen(self, g):
        return g.bytestring()


class Point(object):
    """user class for ObjectArray"""

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __eq__(self, other):
        return isinstance(other, Point) and (self.x, self.y) == (other.x, other.y)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self.x, self.y))

    def __repr__(self):
        return "Point(%r, %r)" % (self.x, self.y)


class Obj(T):
    """Python objects generated from records with integer fields x, y"""

    def sig(self):
        return "Point"

    def gen(self, g):
        return Point(g.rng.randint(-9, 9), g.rng.randint(-9, 9))


def prim_value(dtype, g):
    rng = g.rng
    k = dtype.kind
    if k == "b":
        return rng.random() < 0.5
    if k in "iu":
        info = numpy.iinfo(dtype)
        r = rng.random()
        if r < g.pextreme:
            return rng.choice([int(info.min), int(info.max), 0, 1])
        lo = max(int(info.min), -9)
        return rng.randint(lo, 9)
    if k == "f":
        r = rng.random()
        if r < g.pnan:
            return rng.choice([float("nan"), float("inf"), float("-inf"), -0.0]) if g.inf else float("nan")
        if r < 0.3:
            return float(rng.randint(-4, 4))
        # exactly representable in float32 and with exact small sums
        return rng.randint(-64, 64) / 8.0
    if k == "c":
        return complex(rng.randint(-4, 4), rng.randint(-4, 4))
    raise AssertionError(dtype)


def plain(v):
    """strip union tags"""
    if isinstance(v, U):
        return plain(v.value)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[plain(x) for x in v])
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, dict):
        return dict((n, plain(x)) for n, x in v.items())
    return v


# ------------------------------------------------------------- comparing

def same(got, want, exact=True, rtol=0.0, atol=0.0):
    """None if equal, else a short description of the first difference.

    exact=True also demands the same kind of leaf (bool/int/float), which is
    what the array's dtype promises.
    """
    return _same(got, want, exact, rtol, atol, "")


def _kind(x):
    if isinstance(x, (bool, numpy.bool_)):
        return "bool"
    if isinstance(x, (int, numpy.integer)):
        return "int"
    if isinstance(x, (float, numpy.floating)):
        return "float"
    if isinstance(x, (complex, numpy.complexfloating)):
        return "complex"
    return None


def _same(got, want, exact, rtol, atol, path):
    if isinstance(want, numpy.ndarray) and isinstance(got, numpy.ndarray):
        if want.dtype != got.dtype or want.shape != got.shape:
            return "%s: got %s, want %s" % (path, short(got), short(want))
        got, want = got.tolist(), want.tolist()
    if want is None:
        return None if got is None else "%s: got %s, want None" % (path, short(got))
    if got is None:
        return "%s: got None, want %s" % (path, short(want))
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return "%s: got %s, want record %s" % (path, short(got), short(want))
        if set(got) != set(want):
            return "%s: got fields %s, want %s" % (path, sorted(got), sorted(want))
        for n in want:
            d = _same(got[n], want[n], exact, rtol, atol, "%s.%s" % (path, n))
            if d is not None:
                return d
        return None
    if isinstance(want, tuple):
        if not isinstance(got, tuple):
            return "%s: got %s, want tuple %s" % (path, short(got), short(want))
        if hasattr(want, "_fields") and type(got) is not type(want):
            return "%s: got %s, want %s" % (path, short(got), short(want))
    elif isinstance(want, list):
        if not isinstance(got, list):
            return "%s: got %s, want list %s" % (path, short(got), short(want))
    if isinstance(want, (list, tuple)):
        if len(got) != len(want):
            return "%s: got length %d, want %d: got %s want %s" % (path, len(got), len(want), short(got), short(want))
        for i in range(len(want)):
            d = _same(got[i], want[i], exact, rtol, atol, "%s[%d]" % (path, i))
            if d is not None:
                return d
        return None
    kw = _kind(want)
    if kw is not None:
        kg = _kind(got)
        if kg is None:
            return "%s: got %s, want %s" % (path, short(got), short(want))
        if exact and kg != kw:
            return "%s: got %s %s, want %s %s" % (path, kg, short(got), kw, short(want))
        if kg == "complex" or kw == "complex":
            g, w = complex(got), complex(want)
            return None if g == w or (g != g and w != w) or abs(g - w) <= atol + rtol * abs(w) else "%s: got %r, want %r" % (path, g, w)
        if kw in ("bool", "int") and kg in ("bool", "int"):
            return None if int(got) == int(want) else "%s: got %r, want %r" % (path, got, want)
        g, w = float(got), float(want)
        if math.isnan(w) or math.isnan(g):
            return None if math.isnan(w) and math.isnan(g) else "%s: got %r, want %r" % (path, g, w)
        if g == w:
            return None
        if rtol or atol:
            if not math.isinf(g) and not math.isinf(w) and abs(g - w) <= atol + rtol * abs(w):
                return None
        return "%s: got %r, want %r" % (path, g, w)
    if type(got) is type(want) and hasattr(want, "tolist") and not isinstance(want, numpy.generic):
        return _same(got.tolist(), want.tolist(), exact, rtol, atol, path)
    if type(got) is not type(want) and not isinstance(got, type(want)):
        return "%s: got %s %s, want %s %s" % (path, type(got).__name__, short(got), type(want).__name__, short(want))
    try:
        ok = bool(got == want)
    except Exception as err:
        return "%s: comparison failed: %r" % (path, err)
    return None if ok else "%s: got %s, want %s" % (path, short(got), short(want))


def short(x, n=160):
    try:
        s = repr(x)
    except Exception as err:
        s = "<unprintable %s: %r>" % (type(x).__name__, err)
    return s if len(s) <= n else s[:n] + "..."
