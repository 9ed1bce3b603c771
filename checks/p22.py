"""P22: copies are independent of the original, and conversions keep the structure."""
import random

from collections import OrderedDict
import numpy
import awkward0
from akmon.monitor import Suite, Violation, Skip, tolist, AwkwardArray
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V
from akmon import decl

SUITE = Suite("P22")
SUITE.needs = {"copies": 3000, "parts": 2500, "deep copies": 3000, "scribbled": 3000, "conversions": 3000, "likes": 3000, "columns": 500}

WRAP = set(["indexed", "chunked", "virtual", "sparse", "appendable"])
PARTS = {
    "JaggedArray": ["starts", "stops", "content"],
    "MaskedArray": ["mask", "content", "maskedwhen"],
    "BitMaskedArray": ["mask", "content", "maskedwhen", "lsborder"],
    "IndexedMaskedArray": ["mask", "content", "maskedwhen"],
    "IndexedArray": ["index", "content"],
    "SparseArray": ["length", "index", "content", "default"],
    "ChunkedArray": ["chunks", "chunksizes"],
    "ObjectArray": ["content", "generator", "args", "kwargs"],
    "StringArray": ["starts", "stops", "content", "encoding"],
    "UnionArray": ["tags", "index", "contents"],
}


def make(mon, t, vals, **kw):
    kw.setdefault("pwrap", mon.rng.choice([0.0, 0.3, 0.6]))
    kw.setdefault("wrapdepth", 2)
    kw.setdefault("wrap", WRAP)
    try:
        return encode(t, vals, mon.G(**kw))
    except TypeError as err:
        if "Union has no Numpy dtype" in str(err):
            raise Skip          # selecting from a SparseArray may give a union
        raise


def buffers(x, out=None, seen=None):
    """every Numpy array that an array is made of"""
    if out is None:
        out, seen = [], set()
    if id(x) in seen:
        return out
    seen.add(id(x))
    if isinstance(x, numpy.ndarray):
        out.append(x)
    elif isinstance(x, AwkwardArray):
        for n, y in x.__dict__.items():
            if n not in ("_generator", "_args", "_kwargs", "_cache", "_base"):
                buffers(y, out, seen)
        if isinstance(x, awkward0.VirtualArray) and x.ismaterialized:
            buffers(x.array, out, seen)
    elif isinstance(x, (list, tuple)):
        for y in x:
            buffers(y, out, seen)
    elif isinstance(x, dict):
        for y in x.values():
            buffers(y, out, seen)
    return out


def attempt(mon, how, f):
    try:
        return mon.call(how, f)
    except TypeError as err:
        if "Union has no Numpy dtype" in str(err) and "Sparse" in mon.layout():
            raise Skip          # selecting from a SparseArray may give a union
        raise
    except ValueError as err:
        if "shape mismatch" in str(err) and "Union" in mon.layout() and "Chunked" in mon.layout():
            raise Skip          # chunks of a union may have other types than the whole
        raise


def sametype(mon, a, b, what):
    mon.check(type(a) is type(b), lambda: "%s: a %s became a %s" % (what, type(a).__name__, type(b).__name__))


def oftype(mon, t, n, b, what):
    if not has(t, Uni) and "Sparse" not in mon.layout():        # the type of a SparseArray depends on the type of its default
        d = decl.arraydiff(t, n, awkward0.type.fromarray(b))
        mon.check(d is None, lambda: "%s has another type: %s" % (what, d))


def random_array(mon, kinds=None, depth=3, n=None, **kw):
    g = G(mon.rng)
    t = random_type(g, depth) if kinds is None else random_type(g, depth, kinds)
    vals = [t.gen(g) for _ in range(many(mon.rng, 0, 1, 3, 6) if n is None else n)]
    a = make(mon, t, vals, **kw)
    if not isinstance(a, AwkwardArray):
        raise Skip
    mon.say(type=t.sig(), cls=type(a).__name__, vals=V.plain(vals))
    return t, vals, a


@SUITE.scenario(5000, 60000)
def copies(mon):
    t, vals, a = random_array(mon)
    rng = mon.rng
    how = rng.choice(["copy", "deepcopy"])
    b = attempt(mon, how, lambda: getattr(a, how)())
    mon.eq(b, vals, how)
    sametype(mon, a, b, how)
    oftype(mon, t, len(vals), b, how)
    mon.events["copies"] += 1
    # a copy of rows
    w = random_where(rng, len(vals))
    try:
        s = a[w]
    except Exception:
        return
    if isinstance(s, AwkwardArray):
        c = attempt(mon, how, lambda: getattr(s, how)())
        mon.eq(c, take(V.plain(vals), w), how + " of selected rows")
        sametype(mon, s, c, how + " of selected rows")


@SUITE.scenario(6000, 60000)
def parts(mon):
    """a copy is given parts of another array; it shows these, and the original is what it was"""
    rng = mon.rng
    kind = rng.choice(["list", "list", "opt", "opt", "opt", "uni", "str", "byt", "obj", "prim", "prim"])
    g = G(rng)
    t = {"list": lambda: Lst(random_type(g, 2)), "opt": lambda: Opt(random_type(g, 2)), "uni": lambda: Uni([Prim("int64"), Lst(Prim("float64"))]),
         "str": Str, "byt": Byt, "obj": Obj, "prim": lambda: Prim(rng.choice(["int64", "float64"]))}[kind]()
    v1 = [t.gen(g) for _ in range(rng.choice([1, 3, 6]))]
    v2 = [t.gen(g) for _ in range(rng.choice([1, 3, 6]))]
    wrap = dict(pwrap=1.0 if kind == "prim" else 0.0, wrapdepth=1, wrap=set(["indexed", "chunked", "sparse"]), anywhen=True)
    a = make(mon, t, v1, **wrap)
    for _ in range(20):
        b = make(mon, t, v2, **wrap)
        if type(b) is type(a):
            break
    else:
        raise Skip
    names = PARTS.get(type(a).__name__)
    if names is None:
        raise Skip
    mon.say(type=t.sig(), cls=type(a).__name__, v1=V.plain(v1), v2=V.plain(v2))
    how = rng.choice(["set", "set", "copy", "deepcopy", "deepset"])
    if how in ("set", "deepset"):
        c = mon.call("copy", lambda: a.copy() if how == "set" else a.deepcopy())
        if rng.random() < 0.5:
            c.type, len(c)
        names = list(names)
        if type(a).__name__ not in ("ChunkedArray",):
            rng.shuffle(names)
        for n in names:
            mon.call("assign " + n, lambda: setattr(c, n, getattr(b, n)))
            mon.eq(a, v1, "the original, after assigning %s of its copy" % n)
    else:
        over = dict((n, getattr(b, n)) for n in names)
        c = mon.call(how, lambda: getattr(a, how)(**over))
    mon.eq(c, v2, "the copy, given the parts of another array")
    mon.eq(a, v1, "the original")
    mon.eq(b, v2, "the other")
    mon.events["parts"] += 1


@SUITE.scenario(2000, 20000)
def replaced_content(mon):
    """copy(content=...) has the same structure over another content"""
    rng = mon.rng
    t, vals, a = random_array(mon, ("list", "opt", "prim"), pwrap=0.4, wrap=set(["indexed"]))
    if not hasattr(a, "content") or isinstance(a, awkward0.ChunkedArray) or isinstance(a, awkward0.VirtualArray):
        raise Skip
    how = rng.choice(["copy", "deepcopy"])
    n = len(a.content)
    new = numpy.arange(n) * 10
    over = dict(content=new.tolist() if rng.random() < 0.3 and n else new)
    c = mon.call(how, lambda: getattr(a, how)(**over))
    ids = mon.call("copy ids", lambda: a.copy(content=numpy.arange(n)))

    def times(x):
        return [times(y) for y in x] if isinstance(x, list) else None if x is None else x * 10
    mon.eq(c, times(tolist(ids)), how + " with another content")
    mon.eq(a, vals, "the original")
    d = attempt(mon, how, lambda: getattr(a, how)())
    d.content = a.content
    mon.eq(d, vals, "given its content back")
    mon.events["parts"] += 1


@SUITE.scenario(3000, 30000)
def columns(mon):
    """columns assigned to (or deleted from) a copy are not assigned to the original, and the other way around"""
    rng = mon.rng
    g = G(rng)
    fields = [(n, random_type(g, 1)) for n in ("x", "y", "z")[: rng.choice([1, 2, 3])]]
    t = Rec(fields)
    outer = rng.choice([lambda r: r, lambda r: r, Lst, Opt])(t)
    vals = [outer.gen(g) for _ in range(many(rng, 1, 3, 6))]
    a = make(mon, outer, vals, pwrap=rng.choice([0.0, 0.0, 0.4]), wrap=set(["indexed", "chunked"]), longcols=False, tableviews=rng.random() < 0.5)
    if not isinstance(a, AwkwardArray):
        raise Skip
    ischunked = "Chunked" in mon.layout()
    how = rng.choice(["copy", "deepcopy"])
    b = attempt(mon, how, lambda: getattr(a, how)())
    mon.say(type=outer.sig(), cls=type(a).__name__, vals=V.plain(vals), how=how)
    x, y = (a, b) if rng.random() < 0.5 else (b, a)
    plain = V.plain(vals)
    if how == "copy" and not isinstance(x, (awkward0.Table, awkward0.VirtualArray)):
        # a shallow copy has the same content
        how = "deepcopy"
        b = mon.call(how, lambda: a.deepcopy())
        x, y = (a, b) if rng.random() < 0.5 else (b, a)
    if rng.random() < 0.6 and isinstance(outer, Rec):
        name = rng.choice(["x", "new"])
        try:
            mon.call("assign", lambda: x.__setitem__(name, numpy.arange(len(vals))))
        except ValueError as err:
            if "not a view" in str(err) or ischunked:
                raise Skip
            raise
        want = [dict(v, **{name: i}) for i, v in enumerate(plain)]
    else:
        name = "x"

        def drop(v):
            return [drop(w) for w in v] if isinstance(v, list) else None if v is None else dict((n, w) for n, w in v.items() if n != name)
        if len(fields) == 1:
            raise Skip
        try:
            mon.call("delete", lambda: x.__delitem__(name))
        except (NotImplementedError, AttributeError, ValueError, TypeError):
            raise Skip
        want = drop(plain)
    mon.eq(x, want, "the one that was changed")
    mon.eq(y, plain, "the other one")
    mon.events["columns"] += 1

@SUITE.scenario(2500, 25000, watch=False)
def virtual_columns(mon):
    """copies of a virtual table have columns of their own, even after the data are generated again"""
    rng = mon.rng
    g = G(rng)
    n = rng.choice([0, 1, 3, 5])
    base = OrderedDict((x, [rng.randrange(100) for _ in range(n)]) for x in rng.sample(["x", "y", "z", "w"], rng.randint(1, 3)))

    def generate():
        mon.events["generated"] += 1
        return awkward0.Table(OrderedDict((k, numpy.array(v, dtype=int)) for k, v in base.items()))
    caches = [{}, {}]
    kind = rng.choice(["no cache", "one cache", "one cache", "two caches"])
    first = awkward0.VirtualArray(generate, cache=None if kind == "no cache" else caches[0])
    have = [[first, OrderedDict(base), 0]]
    mon.say(base=base, kind=kind, trace="virtual columns %s" % kind)
    steps = []
    for _ in range(rng.randint(2, 9)):
        i = rng.randrange(len(have))
        a, cols, where = have[i]
        step = rng.choice(["copy", "copy", "deepcopy", "assign", "assign", "delete", "evict", "evict", "read"])
        if step in ("copy", "deepcopy"):
            if len(have) > 4:
                continue
            kw = {}
            if kind == "two caches" and rng.random() < 0.5:
                where = 1 - where
                kw = {"cache": caches[where]}
            b = mon.call(step, lambda: getattr(a, step)(**kw))
            have.append([b, OrderedDict(cols), where])
        elif step == "assign":
            x = rng.choice(["x", "y", "n1", "n2", "n3"])
            v = [rng.randrange(100) for _ in range(n)]
            mon.call("assign", lambda: a.__setitem__(x, numpy.array(v, dtype=int)))
            cols[x] = v
        elif step == "delete":
            if len(cols) < 2:
                continue
            x = rng.choice(list(cols))
            mon.call("delete", lambda: a.__delitem__(x))
            del cols[x]
        elif step == "evict":
            for c in caches:
                if rng.random() < 0.7:
                    c.clear()
        else:
            a.tolist()
        steps.append("%s %d" % (step, i))
        mon.say(steps=steps)
        for j in rng.sample(range(len(have)), rng.randint(0, len(have))):
            judge_columns(mon, j, n, *have[j][:2])
    order = list(range(len(have)))
    rng.shuffle(order)
    for j in order:
        judge_columns(mon, j, n, *have[j][:2])
    for c in caches:
        c.clear()
    for j in order:
        judge_columns(mon, j, n, *have[j][:2])
    mon.events["columns"] += 1


def judge_columns(mon, j, n, a, cols):
    mon.check(set(a.columns) == set(cols), lambda: "array %d has columns %r, want %r" % (j, a.columns, list(cols)))
    mon.eq(a, [dict((k, v[i]) for k, v in cols.items()) for i in range(n)], "array %d" % j)


@SUITE.scenario(5000, 60000)
def deep(mon):
    """a deep copy shares no memory: scribbling over one does not show in the other"""
    rng = mon.rng
    t, vals, a = random_array(mon, wrap=set(["indexed", "chunked", "sparse", "appendable"]))
    if rng.random() < 0.3 and len(vals):
        s = random_slice(rng, len(vals))
        try:
            a, vals = a[s], vals[s]
        except Exception:
            raise Skip
        if not isinstance(a, AwkwardArray):
            raise Skip
    b = attempt(mon, "deepcopy", lambda: a.deepcopy())
    mon.eq(b, vals, "deepcopy")
    mine, theirs = buffers(b), buffers(a)
    for x in mine:
        for y in theirs:
            if x.nbytes and y.nbytes and numpy.may_share_memory(x, y) and numpy.shares_memory(x, y):
                raise Violation("a deep copy of %s shares a buffer of type %s%s with the original" % (type(a).__name__, x.dtype, x.shape))
    mon.events["deep copies"] += 1
    x, y = (a, b) if rng.random() < 0.5 else (b, a)
    done = 0
    for z in buffers(x):
        if z.flags.writeable and z.size and z.dtype != numpy.dtype(object):
            z[...] = numpy.ones(1, dtype=z.dtype)[0] if rng.random() < 0.5 else numpy.zeros(1, dtype=z.dtype)[0]
            done += 1
    mon.eq(y, vals, "%s, after the buffers of the %s were overwritten" % (("the copy", "original") if y is b else ("the original", "copy")))
    if done:
        mon.events["scribbled"] += 1


def cast(v, dt):
    """every number of a value as another type"""
    if isinstance(v, V.U):
        return cast(v.value, dt)
    if isinstance(v, Point):
        return Point(cast(v.x, dt), cast(v.y, dt))
    if isinstance(v, (list, tuple)):
        return type(v)(cast(x, dt) for x in v)
    if isinstance(v, dict):
        return dict((n, cast(x, dt)) for n, x in v.items())
    if v is None or isinstance(v, (str, bytes)):
        return v
    return numpy.array([v]).astype(dt)[0].item()


def structure(t, dt):
    if isinstance(t, Prim):
        return Prim(dt)
    if isinstance(t, Reg):
        return Reg(dt, t.inner)
    if isinstance(t, Lst):
        return Lst(structure(t.of, dt))
    if isinstance(t, Opt):
        return Opt(structure(t.of, dt))
    if isinstance(t, Rec):
        return Rec([(n, structure(u, dt)) for n, u in t.fields])
    return t


def has(t, kinds):
    if isinstance(t, kinds):
        return True
    if isinstance(t, (Lst, Opt)):
        return has(t.of, kinds)
    if isinstance(t, Uni):
        return any(has(u, kinds) for u in t.of)
    return isinstance(t, Rec) and any(has(u, kinds) for _, u in t.fields)


@SUITE.scenario(5000, 60000)
def astype(mon):
    rng = mon.rng
    t, vals, a = random_array(mon, ("prim", "prim", "list", "opt", "rec", "uni", "obj", "reg"), pnan=0.0, pextreme=0.0, objargs="none")
    dt = numpy.dtype(rng.choice(["int64", "int32", "int8", "float64", "float32", "bool", "complex128"]))
    if dt.kind != "c" and "complex" in t.sig():
        raise Skip
    if dt.kind in "iu" and any(x != x or abs(x) == float("inf") for x in leaves(vals)):
        raise Skip
    if rng.random() < 0.3 and len(vals):
        s = random_slice(rng, len(vals))
        a, vals = a[s], vals[s]
    b = attempt(mon, "astype", lambda: a.astype(dt if rng.random() < 0.5 else dt.type))
    mon.eq(b, cast(vals, dt), "astype %s" % dt)
    mon.check(len(b) == len(vals), "astype has another length")
    oftype(mon, structure(t, dt), len(vals), b, "astype %s" % dt)
    mon.eq(a, vals, "the original of astype")
    mon.events["conversions"] += 1


def leaves(v):
    if isinstance(v, V.U):
        for x in leaves(v.value):
            yield x
    elif isinstance(v, Point):
        yield v.x
        yield v.y
    elif isinstance(v, (list, tuple)):
        for x in v:
            for y in leaves(x):
                yield y
    elif isinstance(v, dict):
        for x in v.values():
            for y in leaves(x):
                yield y
    elif v is not None and not isinstance(v, (str, bytes)):
        yield v


def filled(v, one, t):
    if isinstance(v, V.U):
        return filled(v.value, one, t)
    if isinstance(v, Point):
        return Point(one, one)
    if isinstance(v, (list, tuple)):
        return type(v)(filled(x, one, t) for x in v)
    if isinstance(v, dict):
        return dict((n, filled(x, one, t)) for n, x in v.items())
    if v is None:
        return v
    if isinstance(v, str):
        return chr(one) * len(v.encode("utf-8"))
    if isinstance(v, bytes):
        return bytes([one]) * len(v)
    return type(v)(one)


def shape(v):
    """what remains of a value if its leaves may be anything"""
    if isinstance(v, V.U):
        return shape(v.value)
    if isinstance(v, (list, tuple)):
        return type(v)(shape(x) for x in v)
    if isinstance(v, dict):
        return dict((n, shape(x)) for n, x in v.items())
    if v is None:
        return None
    return 0


@SUITE.scenario(6000, 60000)
def likes(mon):
    rng = mon.rng
    t, vals, a = random_array(mon, ("prim", "prim", "list", "opt", "rec", "uni", "obj", "reg", ), objargs="none")
    if rng.random() < 0.3 and len(vals):
        s = random_slice(rng, len(vals))
        a, vals = a[s], vals[s]
    if not isinstance(a, AwkwardArray):
        raise Skip
    how = rng.choice(["zeros_like", "ones_like", "empty_like"])
    b = attempt(mon, how, lambda: getattr(a, how)())
    if how == "empty_like":
        if has(t, (Rec, Obj)):
            raise Skip          # empty_like of a Table has no columns
        mon.eq(shape(tolist(b)), shape(vals), how, exact=False)
    else:
        mon.eq(b, filled(vals, 0 if how == "zeros_like" else 1, t), how)
    oftype(mon, t, len(vals), b, how)
    mon.eq(a, vals, "the original of " + how)
    mon.events["likes"] += 1
