"""P11: building from Python values and converting back is the identity."""
import collections
import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip
from akmon.values import *
from akmon.decl import *
from akmon import values as V
from akmon.layouts import many

SUITE = Suite("P11")
SUITE.needs = {"oracle": 20000}


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        return type(self) is type(other) and V.same(vars(self), vars(other)) is None

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 0

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join("%s=%r" % x for x in sorted(vars(self).items())))


class Other(Thing):
    pass


Pair = collections.namedtuple("Pair", ["second", "first"])
Trip = collections.namedtuple("Trip", ["x", "y", "z"])
Void = collections.namedtuple("Void", [])


# -------------------------------------------- what the documentation promises

def kind(x):
    if x is None or isinstance(x, dict) and len(x) == 0:
        return None
    if isinstance(x, (bool, numpy.bool_)):
        return "bool"
    if isinstance(x, (int, float, complex, numpy.number)):
        return "number"
    if isinstance(x, bytes):
        return "bytes"
    if isinstance(x, str):
        return "str"
    if isinstance(x, dict):
        return "dict", frozenset(x)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return "named", type(x)
    if isinstance(x, Thing):
        return "object", type(x), frozenset(vars(x))
    return "list"


class PyObj(Obj):
    def __init__(self, inner):
        self.inner = inner          # the type of its attributes


def infer(values):
    """(type, the values as they must come back) of all values at one level of the hierarchy"""
    groups = collections.OrderedDict()
    for i, x in enumerate(values):
        groups.setdefault(kind(x), []).append(i)
    nulls = groups.pop(None, [])
    out = [None] * len(values)
    ts = []
    for k, where in groups.items():
        t, vs = infer1(k, [values[i] for i in where])
        ts.append(t)
        for i, v in zip(where, vs):
            out[i] = v
    t = Any() if nulls and not ts else Prim("float64") if not ts else ts[0] if len(ts) == 1 else Uni(ts)
    return (Opt(t) if nulls else t), out


def infer1(k, vs):
    if k == "bool":
        return Prim("bool"), [bool(x) for x in vs]
    if k == "number":
        ks = [V._kind(x) for x in vs]
        if "complex" in ks:
            return Same("c"), [complex(x) for x in vs]
        if "float" in ks:
            return Same("f"), [float(x) for x in vs]
        return Same("i"), [int(x) for x in vs]
    if k == "bytes":
        return Byt(), list(vs)
    if k == "str":
        return Str(), list(vs)
    if k == "list":
        vs = [list(v) for v in vs]
        t, flat = infer([x for v in vs for x in v])
        out, i = [], 0
        for v in vs:
            out.append(flat[i:i + len(v)])
            i += len(v)
        return Lst(t), out
    if k[0] == "dict":
        names = sorted(k[1])
        cols = [infer([v[n] for v in vs]) for n in names]
        return Rec(list(zip(names, [t for t, _ in cols]))), [dict((n, c[1][i]) for n, c in zip(names, cols)) for i in range(len(vs))]
    if k[0] == "named":
        names = k[1]._fields
        cols = [infer([getattr(v, n) for v in vs]) for n in names]
        return PyObj([c[0] for c in cols]), [k[1](*[c[1][i] for c in cols]) for i in range(len(vs))]
    if k[0] == "object":
        names = sorted(k[2])
        cols = [infer([getattr(v, n) for v in vs]) for n in names]
        return PyObj([c[0] for c in cols]), [k[1](**dict((n, c[1][i]) for n, c in zip(names, cols))) for i in range(len(vs))]
    raise AssertionError(k)


# ------------------------------------------------------------- workload

def schema(rng, depth, g):
    """a generator of values: mostly of one kind, changing at random positions"""
    k = rng.choice(["bool", "int", "int", "float", "complex", "bytes", "str", "npint", "npfloat", "none"] +
                   (["list", "list", "list", "dict", "dict", "named", "object", "mixed", "mixed", "option", "option", "tuple", "emptydict", "iterable"] if depth > 0 else []))
    sub = lambda: schema(rng, depth - 1, g)
    if k == "bool":
        return lambda: rng.random() < 0.5
    if k == "int":
        return lambda: rng.choice([0, 1, -1, rng.randint(-1000, 1000), 2**31, -2**63, 2**62])
    if k == "float":
        return lambda: rng.choice([0.0, 1.5, -2.25, float("nan"), float("inf"), rng.random()])
    if k == "complex":
        return lambda: complex(rng.randint(-3, 3), rng.randint(-3, 3))
    if k == "npint":
        return lambda: rng.choice([numpy.int64(rng.randint(-9, 9)), numpy.int32(5), numpy.int8(-3)])
    if k == "npfloat":
        return lambda: rng.choice([numpy.float64(rng.randint(-9, 9) / 4.0), numpy.float64(0.5)])
    if k == "bytes":
        return g.bytestring
    if k == "str":
        return lambda: g.string() + (u"\0" if rng.random() < 0.05 else u"")
    if k == "none":
        return lambda: None
    if k == "list":
        s, top = sub(), rng.choice([0, 1, 3, 5])
        return lambda: [s() for _ in range(rng.randint(0, top))]
    if k == "tuple":
        s = sub()
        return lambda: tuple(s() for _ in range(rng.randint(0, 3)))
    if k == "iterable":
        return lambda: rng.choice([range(rng.randint(0, 3)), numpy.arange(rng.randint(0, 3)), collections.deque([1, 2]), numpy.array([1.5, 2.5])])
    if k == "dict":
        names = rng.sample(["x", "y", "z", "a", "", "b c", u"\u03b1", "0"], rng.randint(1, 3))
        ss = [sub() for _ in names]
        return lambda: dict((n, s()) for n, s in zip(names, ss))
    if k == "emptydict":
        return lambda: {}
    if k == "named":
        cls = rng.choice([Pair, Trip, Void])
        ss = [sub() for _ in cls._fields]
        return lambda: cls(*[s() for s in ss])
    if k == "object":
        cls = rng.choice([Thing, Other])
        names = rng.sample(["x", "y", "z"], rng.randint(0, 2))
        ss = [sub() for _ in names]
        return lambda: cls(**dict((n, s()) for n, s in zip(names, ss)))
    if k == "option":
        s, p = sub(), rng.choice([0.1, 0.5, 0.9])
        return lambda: None if rng.random() < p else s()
    ss = [sub() for _ in range(rng.randint(2, 4))]
    if rng.random() < 0.5:
        return lambda: rng.choice(ss)()
    # one kind after the other
    state = [0]

    def change():
        if rng.random() < 0.2 and state[0] < len(ss) - 1:
            state[0] += 1
        return ss[state[0]]()
    return change


def classes(mon, a, t, maskedwhen, dictenc):
    """the documented canonical form"""
    if isinstance(t, Any):
        return
    if isinstance(t, Opt):
        want = awkward0.IndexedMaskedArray if isinstance(t.of, (Rec, Obj, Uni)) else awkward0.MaskedArray
        mon.check(type(a) is want, lambda: "%s made a %s, want %s" % (t.sig(), type(a).__name__, want.__name__))
        if type(a) is awkward0.MaskedArray:
            mon.check(a.maskedwhen == maskedwhen, "maskedwhen option was ignored")
        classes(mon, a.content, t.of, maskedwhen, dictenc)
    elif isinstance(t, (Prim, Same)):
        mon.check(type(a) is numpy.ndarray, lambda: "numbers made a %s" % type(a).__name__)
    elif isinstance(t, (Str, Byt)):
        if dictenc is True:
            mon.check(type(a) is awkward0.IndexedArray and type(a.content) is awkward0.StringArray, lambda: "strings made a %s" % type(a).__name__)
        elif dictenc is False:
            mon.check(type(a) is awkward0.StringArray, lambda: "strings made a %s" % type(a).__name__)
    elif isinstance(t, Lst):
        mon.check(type(a) is awkward0.JaggedArray, lambda: "lists made a %s" % type(a).__name__)
        classes(mon, a.content, t.of, maskedwhen, dictenc)
    elif isinstance(t, Rec):
        mon.check(type(a) is awkward0.Table and a.columns == [n for n, _ in t.fields], lambda: "dicts made a %s" % type(a).__name__)
        for n, x in t.fields:
            classes(mon, a[n], x, maskedwhen, dictenc)
    elif isinstance(t, Obj):
        mon.check(type(a) is awkward0.ObjectArray, lambda: "objects made a %s" % type(a).__name__)
    elif isinstance(t, Uni):
        mon.check(type(a) is awkward0.UnionArray and len(a.contents) == len(t.of), lambda: "mixed types made a %s" % type(a).__name__)
        for c, x in zip(a.contents, t.of):
            classes(mon, c, x, maskedwhen, dictenc)


def build(mon, vals):
    rng = mon.rng
    opts = {}
    if rng.random() < 0.3:
        opts["maskedwhen"] = rng.random() < 0.5
    if rng.random() < 0.3:
        opts["dictencoding"] = rng.choice([True, False, "f"])
    mw, de = opts.get("maskedwhen", True), opts.get("dictencoding", False)
    if de == "f":
        opts["dictencoding"] = lambda data: len(data) % 2 == 0
    k = rng.choice(["list", "iterator", "generator", "tuple"])
    src = vals if k == "list" else iter(vals) if k == "iterator" else (x for x in vals) if k == "generator" else tuple(vals)
    return mon.call("fromiter " + k, lambda: awkward0.fromiter(src, **opts), vals), mw, de


def judge(mon, vals):
    rng = mon.rng
    t, want = infer(vals)
    mon.say(vals=vals, type=t.sig())
    mon.sigs.add(("type", t.sig()[:200]))
    a, mw, de = build(mon, vals)
    mon.check(len(a) == len(vals), lambda: "length %d, want %d" % (len(a), len(vals)))
    mon.eq(a, want, "tolist")
    if len(vals):
        i = rng.randrange(-len(vals), len(vals))
        mon.eq([tolist(a[i])], [want[i]], "element %d" % i)
    tpe = awkward0.type.fromarray(a)
    d = arraydiff(t, len(vals), tpe)
    mon.check(d is None, lambda: d)
    classes(mon, a, t, mw, de)
    if isinstance(a, awkward0.array.base.AwkwardArray):
        mon.check(a.valid(), lambda: "not valid: %s" % a.valid(message=True))
    return a, t, want


@SUITE.scenario(9000, 120000)
def nested(mon):
    rng = mon.rng
    s = schema(rng, rng.choice([1, 2, 3]), mon.G())
    n = many(rng, 0, 1, 2, 3, 5, 8, 20)
    judge(mon, [s() for _ in range(n)])


@SUITE.scenario(6000, 60000)
def transitions(mon):
    """every change of kind at every position of a short sequence"""
    rng = mon.rng
    g = mon.G()
    pool = [lambda: None, lambda: {}, lambda: rng.random() < 0.5, lambda: rng.randint(-9, 9), lambda: 1.5, lambda: g.string(), lambda: g.bytestring(),
            lambda: [], lambda: [rng.randint(0, 9)], lambda: [None], lambda: ["s"], lambda: [[]], lambda: {"x": 1}, lambda: {"x": None}, lambda: {"x": "s", "y": []},
            lambda: Thing(), lambda: Thing(x=1), lambda: Thing(x=[1, None]), lambda: Other(x=2), lambda: Pair(1, "2"), lambda: Void(), lambda: {"x": Thing(x=Other())}]
    few = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
    vals = [rng.choice(few)() for _ in range(rng.randint(1, 7))]
    if rng.random() < 0.5:
        # the same inside of lists, or of records
        out, i = [], 0
        while i < len(vals):
            k = rng.randint(0, 3)
            out.append(vals[i:i + k])
            i += k
        vals = out
    elif rng.random() < 0.3:
        vals = [{"r": v} for v in vals]
    judge(mon, vals)


@SUITE.scenario(2000, 20000)
def combined(mon):
    """what was built is a proper array: selections act on the values"""
    rng = mon.rng
    s = schema(rng, 2, mon.G())
    vals = [s() for _ in range(rng.randint(1, 8))]
    a, t, want = judge(mon, vals)
    w = [i for i in range(len(vals)) if rng.random() < 0.6]
    mon.eq(mon.call("a[rows]", lambda: a[numpy.array(w, dtype="int64")], a), [want[i] for i in w], "rows")
    if rng.random() < 0.5:
        # the values it gives back build the same array again
        b = awkward0.fromiter(a.tolist())
        mon.eq(b, infer(want)[1], "built again")


@SUITE.scenario(40, 300)
def several(mon):
    """more kinds than a byte can number; long runs"""
    rng = mon.rng
    n = rng.choice([5, 130, 260, 300])
    vals = [{"k%d" % rng.randrange(n): i} for i in range(n * 2)]
    if rng.random() < 0.5:
        vals = [vals[i:i + 3] for i in range(0, len(vals), 3)]
    judge(mon, vals)


@SUITE.scenario(300, 2000)
def refused(mon):
    rng = mon.rng
    mon.say()
    mon.raises("unknown option", lambda: awkward0.fromiter([1, 2], **{rng.choice(["masked", "encoding", "x"]): True}))
    bad = {rng.choice([1, 2.5, None, b"x", ("a",)]): 1}
    vals = [{"x": 1}] * rng.randint(0, 2) + [bad]
    mon.raises("keys that aren't strings", lambda: awkward0.fromiter(vals))
