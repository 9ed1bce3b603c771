"""P27: the switches that forbid iteration and conversion, and those that skip validity checks.

The scenarios of the other suites are run with the switches set, around every
operation (or all the time, for validity checks); the answers must not change.
"""
import contextlib
import re

import numpy
import awkward0
from akmon.monitor import Suite, Violation, Skip, tolist, meaning, ARRAYLIKE
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V
from checks.p16 import others

SUITE = Suite("P27")
SUITE.needs = {"with iteration forbidden": 5000, "checks off": 5000, "refused to iterate": 2000, "refused to convert": 2000, "printed": 1000, "invalid": 300}
A = awkward0.AwkwardArray
CLASSES = [awkward0.JaggedArray, awkward0.Table, awkward0.MaskedArray, awkward0.BitMaskedArray, awkward0.IndexedMaskedArray, awkward0.IndexedArray, awkward0.SparseArray,
           awkward0.ChunkedArray, awkward0.AppendableArray, awkward0.ObjectArray, awkward0.StringArray, awkward0.UnionArray, awkward0.VirtualArray]
SWITCHES = ("allow_iter", "allow_tonumpy", "check_prop_valid", "check_whole_valid")
# these need every element, or Numpy arrays, at least for some layouts
ITERATES = ("tolist", "to NumPy", "iter", "argmax", "argmin", "argsort", "select argm", "select argsort", "at maxima", "fillna", "compare", "fromiter", "str", "repr")
CHUNKED = ("pad", "deepcopy", "astype", "zeros_like", "ones_like", "empty_like", "select", "like", "copy")
ARRAYS = ("p02", "p03", "p04", "p05", "p06", "p07", "p08", "p09", "p10", "p20", "p22")


@contextlib.contextmanager
def switched(where, **switches):
    """set on a class or an array, and put back afterwards"""
    before = dict((n, where.__dict__[n]) for n in switches if n in where.__dict__)
    for n, x in switches.items():
        setattr(where, n, x)
    try:
        yield
    finally:
        for n in switches:
            if n in before:
                setattr(where, n, before[n])
            else:
                delattr(where, n)


def forbidding(mon, sc):
    def around(op, f, inputs):
        try:
            with switched(A, allow_iter=False, allow_tonumpy=False):
                out = f()
        except RuntimeError as err:
            if "refusing" not in str(err):
                raise
            mon.events["refused in " + op] += 1
            if op.startswith(ITERATES) or re.search("Chunked|Appendable", mon.layout()) and op.startswith(CHUNKED):
                raise Skip
            raise Violation("%s iterates over an array or converts it to NumPy: %s" % (op, err))
        mon.events["with iteration forbidden"] += 1
        return out
    mon.around = around
    sc.fn(mon)


def unchecked(mon, sc):
    with switched(A, check_prop_valid=False, check_whole_valid=False):
        mon.events["checks off"] += 1
        sc.fn(mon)


ALL = ("p16", "p26", "p27", "p13", "p17", "p18", "p21")


class Renamed(object):
    """collects the scenarios under another name"""

    def __init__(self, suite, prefix):
        self.suite, self.prefix = suite, prefix

    def scenario(self, quick, thorough=None, watch=True):
        def deco(fn):
            fn.__name__ = self.prefix + fn.__name__
            return self.suite.scenario(quick, thorough, watch)(fn)
        return deco


others(Renamed(SUITE, "forbidden_"), ALL, 0.04, 1.0, forbidding, only=ARRAYS)
others(Renamed(SUITE, "unchecked_"), ALL, 0.04, 1.0, unchecked)


def anything(mon, **kw):
    g = mon.G(wrap=set(["indexed", "chunked", "virtual", "sparse", "appendable"]), pwrap=mon.rng.choice([0.1, 0.4]), **kw)
    t = random_type(g, 3)
    vals = [t.gen(g) for _ in range(many(mon.rng, 0, 1, 3, 6, 9))]
    a = encode(t, vals, g)
    if not isinstance(a, A):
        raise Skip
    mon.say(type=t, vals=V.plain(vals))
    return a, vals


def loop(x):
    return [y for y in x]


LOOPS = [("list", list), ("for", loop), ("iter", lambda x: next(iter(x), None)), ("tolist", lambda x: x.tolist()), ("map", lambda x: list(map(type, x))),
         ("tuple", tuple), ("enumerate", lambda x: list(enumerate(x))), ("zip", lambda x: list(zip(x, x)))]
CONVERSIONS = [("numpy.array", numpy.array), ("numpy.asarray", numpy.asarray), ("asarray of objects", lambda x: numpy.asarray(x, dtype=object)),
               ("numpy.concatenate", lambda x: numpy.concatenate([x, x])), ("numpy.sort", numpy.sort)]


def places(mon, a):
    """where to set a switch for this array, and whether it then applies to it"""
    other = mon.rng.choice([c for c in CLASSES if not isinstance(a, c)])
    return mon.rng.choice([(A, True), (type(a), True), (a, True), (other, False)])


def refused(f):
    try:
        f()
    except RuntimeError as err:
        if "refusing" in str(err):
            return True
        raise
    except Exception:
        pass                # cannot be done, for another reason
    return False


@SUITE.scenario(2500, 50000)
def loops(mon):
    """iterating over an array from outside"""
    a, vals = anything(mon)
    name, f = mon.rng.choice(LOOPS)
    where, applies = places(mon, a)
    mon.say(how=name, where=where if isinstance(where, type) else "this array")
    if where is not A and not applies and name in ("tolist",):
        raise Skip          # goes through all the arrays inside
    if not applies and any(isinstance(x, where) for x in inside(a)):
        raise Skip
    with switched(where, allow_iter=False):
        r = mon.call("loop with " + name, lambda: refused(lambda: f(a)))
    if applies:
        mon.check(r, "iteration is forbidden, but was done")
        mon.events["refused to iterate"] += 1
    else:
        mon.check(not r, "iteration is forbidden for another class, but was refused")
    with switched(A, allow_tonumpy=False):
        mon.check(not refused(lambda: list(a)), "only conversion was forbidden, but iteration was refused")
    mon.eq(a.tolist(), vals, "after it is allowed again")


def inside(x, depth=0):
    """every array in an array"""
    out = [x]
    if depth > 40:
        return out
    for name in ("_content", "_contents", "_chunks", "_array"):
        y = getattr(x, "__dict__", {}).get(name)
        ys = list(y.values()) if isinstance(y, dict) else y if isinstance(y, (list, tuple)) else [y]
        for z in ys:
            if isinstance(z, A):
                out += inside(z, depth + 1)
    if isinstance(x, awkward0.VirtualArray):
        z = x.array
        if isinstance(z, A):
            out += inside(z, depth + 1)
    return out


@SUITE.scenario(2500, 50000)
def conversions(mon):
    """converting an array to NumPy from outside"""
    a, vals = anything(mon)
    name, f = mon.rng.choice(CONVERSIONS)
    where, applies = places(mon, a)
    mon.say(how=name, where=where if isinstance(where, type) else "this array")
    if not applies and any(isinstance(x, where) for x in inside(a)):
        raise Skip
    with switched(where, allow_tonumpy=False):
        r = mon.call("convert with " + name, lambda: refused(lambda: f(a)))
    if applies:
        mon.check(r, "conversion is forbidden, but was done")
        mon.events["refused to convert"] += 1
    else:
        mon.check(not r, "conversion is forbidden for another class, but was refused")


@SUITE.scenario(1500, 30000)
def printing(mon):
    """an array can be printed and described, whatever is forbidden"""
    a, vals = anything(mon)
    looks = [("str", str), ("repr", lambda x: repr(x).split(" at 0x")[0]), ("len", len), ("type", lambda x: str(x.type)), ("shape", lambda x: x.shape),
             ("dtype", lambda x: str(x.dtype)), ("valid", lambda x: x.valid()), ("columns", lambda x: x.columns), ("layout", lambda x: len(str(x.layout)))]
    for name, f in mon.rng.sample(looks, 4):
        if name == "layout" and any(isinstance(x, awkward0.VirtualArray) for x in inside(a)):
            continue
        try:
            str(a)          # how much of an array in chunks is shown depends on which of their sizes are known
            want = f(a)
        except Exception as err:
            want = type(err).__name__
        mon.say(how=name)

        def again():
            with switched(A, allow_iter=False, allow_tonumpy=False):
                return f(a)
        try:
            got = mon.call(name, again, a)
        except Exception as err:
            got = "%s" % type(err).__name__
        mon.check(got == want, lambda: "%s gives %s with iteration forbidden, %s otherwise" % (name, V.short(got), V.short(want)))
        mon.events["printed"] += 1


def bad_properties(rng):
    """(what, constructor): each would be refused for one of its properties alone"""
    I = numpy.array
    content = numpy.arange(10)
    neg = [rng.randint(0, 3), -1 - rng.randint(0, 2), 2]
    return [("negative starts", lambda: awkward0.JaggedArray(neg, [3, 3, 3], content)),
            ("negative stops", lambda: awkward0.JaggedArray([0, 1, 2], neg, content)),
            ("starts of floats", lambda: awkward0.JaggedArray(I([0.0, 1.0]), I([1, 2]), content)),
            ("stops of floats", lambda: awkward0.JaggedArray(I([0, 1]), I([1.0, 2.0]), content)),
            ("negative index", lambda: awkward0.IndexedArray(neg, content)),
            ("index of floats", lambda: awkward0.IndexedArray(I([0.0, 2.0]), content)),
            ("two-dimensional mask", lambda: awkward0.MaskedArray(I([[True, False]]), content)),
            ("two-dimensional index mask", lambda: awkward0.IndexedMaskedArray(I([[0, 1]]), content)),
            ("index mask of floats", lambda: awkward0.IndexedMaskedArray(I([0.0, 1.0]), content)),
            ("negative tags", lambda: awkward0.UnionArray(neg, [0, 1, 2], [content, content])),
            ("tags of floats", lambda: awkward0.UnionArray(I([0.0, 1.0]), [0, 1], [content, content])),
            ("negative index of a union", lambda: awkward0.UnionArray([0, 1, 0], neg, [content, content])),
            ("sparse length", lambda: awkward0.SparseArray(-1, [0], content)),
            ("sparse index", lambda: awkward0.SparseArray(10, [2, 1], content)),
            ("generator", lambda: awkward0.ObjectArray(content, 5)),
            ("negative chunksizes", lambda: awkward0.ChunkedArray([content, content], chunksizes=[3, -1])),
            ("dtype of a chunk", lambda: awkward0.AppendableArray((5,), numpy.dtype("int64"), [numpy.arange(3.0)]))]


@SUITE.scenario(400, 4000)
def invalid_properties(mon):
    """check_prop_valid decides whether a bad property is noticed; it can be set for one class alone"""
    rng = mon.rng
    what, make = rng.choice(bad_properties(rng))
    mon.say(what=what)

    def outcome():
        try:
            return type(make()), None
        except (ValueError, TypeError) as err:
            return None, err
    cls, err = outcome()
    mon.check(err is not None, "%s was accepted" % what)
    where = rng.choice([A] + CLASSES)
    with switched(where, check_prop_valid=False):
        off, err = outcome()
    name = {"s": None}
    if where is A:
        mon.check(off is not None, lambda: "checks are off, but %s was refused: %s" % (what, err))
    elif off is None:
        pass                # another class
    else:
        mon.check(issubclass(off, where), "checks are off for %s, but %s was accepted by %s" % (where.__name__, what, off.__name__))
    cls, err = outcome()
    mon.check(err is not None, "%s was accepted after checks were switched on again" % what)
    mon.events["invalid"] += 1


@SUITE.scenario(400, 4000)
def invalid_wholes(mon):
    """check_whole_valid decides whether inconsistent properties are noticed"""
    rng = mon.rng
    content = numpy.arange(5)
    n = rng.randint(1, 3)
    what, make, use = rng.choice([
        ("more starts than stops", lambda: awkward0.JaggedArray([0, 1, 2], [1, 2], content), lambda x: x[:1]),
        ("stops before starts", lambda: awkward0.JaggedArray([0, 3, 2], [1, 2, 3], content), lambda x: x[:1]),
        ("stops beyond the content", lambda: awkward0.JaggedArray([0, 1], [2, 5 + n], content), lambda x: x[:1]),
        ("mask longer than content", lambda: awkward0.MaskedArray([False] * (5 + n), content), lambda x: x[:1]),
        ("index beyond the content", lambda: awkward0.IndexedArray([0, 4 + n], content), lambda x: x[:1]),
        ("tag without content", lambda: awkward0.UnionArray([0, 1 + n], [0, 0], [content, content]), lambda x: x[:1]),
    ])
    mon.say(what=what)

    def outcome():
        try:
            use(make())
        except (ValueError, IndexError) as err:
            return err
        return None
    mon.check(outcome() is not None, "%s was accepted" % what)
    with switched(A, check_whole_valid=False):
        err = mon.call("use " + what, outcome)
    mon.check(err is None, lambda: "checks are off, but %s was refused: %s" % (what, err))
    mon.check(outcome() is not None, "%s was accepted after checks were switched on again" % what)
    mon.events["invalid"] += 1
