"""P21: buffers that contradict each other are detected instead of being read; correct ones are never rejected.

Every case makes a correct array, checks that it is accepted, and then makes
one part of it wrong in one of the documented ways: in the constructor, with a
setter of an array that was (or was not) already observed, or with copy().
"""
import random

import numpy
import awkward0
import awkward0.type
from akmon.monitor import Suite, Violation, Skip, tolist, observe, meaning
from akmon.layouts import *
from akmon import values as V

SUITE = Suite("P21")
SUITE.needs = {"corrupted": 8000, "rejected at once": 2500, "found invalid": 2500, "use refused": 8000, "nested": 1500, "accepted": 4000}


def content(mon, n, simple=False):
    """an array of at least n elements, of any type"""
    rng = mon.rng
    g = mon.G(pwrap=0.1, longcols=False, longmask=False)
    t = Prim("float64") if simple or rng.random() < 0.5 else random_type(g, 1, ("prim", "list", "rec", "str", "reg", "opt"))
    vals = [t.gen(g) for _ in range(n)]
    return encode(t, vals, g), V.plain(vals), t, g


# ---------------------------------------------------------------- correct arrays and ways to spoil them

class Plan(object):
    """a correct array: how to construct it from its parts, and what it means"""
    def __init__(self, cls, parts, meaning):
        self.cls, self.parts, self.meaning = cls, dict(parts), meaning
        self.order = [k for k, _ in parts]
        self.bad = []                     # (what, {part: wrong value}, ways)

    def make(self, parts=None):
        p = dict(self.parts)
        p.update(parts or {})
        return self.cls(*[p[x] for x in self.order])


def ints(values, rng):
    kind = rng.choice(["int64", "int64", "int32", "int16", "uint8", "list"])
    if kind == "list":
        return list(values)
    if kind == "uint8" and (min(values) < 0 or max(values) > 255):
        kind = "int64"
    return numpy.array(values, dtype=kind)


def put(values, i, x):
    out = list(values)
    out[i] = x
    return out


def jagged(mon):
    rng = mon.rng
    n = rng.randint(1, 4)
    counts = [rng.randint(0, 3) for _ in range(n)]
    total = sum(counts)
    extra = rng.choice([0, 0, 2])
    lead = rng.choice([0, 0, 1])
    c, vals, t, g = content(mon, total + extra + lead)
    offsets = [lead]
    for k in counts:
        offsets.append(offsets[-1] + k)
    starts, stops = offsets[:-1], offsets[1:]
    order = list(range(n))
    if rng.random() < 0.4:
        rng.shuffle(order)
        starts, stops = [starts[i] for i in order], [stops[i] for i in order]
    # lists without elements may start anywhere, and there may be more ends than starts
    starts, stops = list(starts), list(stops)
    for i in range(n):
        if starts[i] == stops[i] and rng.random() < 0.3:
            starts[i] = stops[i] = rng.choice([0, len(c), len(c) + 5])
    stops2 = stops + ([rng.choice([0, 99])] if rng.random() < 0.2 else [])
    want = [vals[b:e] for b, e in zip(starts, stops)]
    cls = awkward0.JaggedArray
    p = Plan(cls, [("starts", ints(starts, rng)), ("stops", ints(stops2, rng)), ("content", c)], want)
    i = rng.randrange(n)
    big = len(c) + rng.choice([1, 1, 2, 200])
    full = [j for j in range(n) if starts[j] < stops[j]]
    p.bad += [
        ("stop before start", {"starts": ints(put(starts, i, stops[i] + 1), rng)}),
        ("stop before start", {"stops": ints(put(put(stops2, i, 1), i, 1), rng), "starts": ints(put(starts, i, 2), rng)}),
        ("stop beyond content", {"starts": ints(put(starts, i, 0), rng), "stops": ints(put(stops2, i, big), rng)}),
        ("start beyond content", {"starts": ints(put(starts, i, big), rng), "stops": ints(put(stops2, i, big + 1), rng)}),
        ("start at end of content", {"starts": ints(put(starts, i, len(c)), rng), "stops": ints(put(stops2, i, len(c) + 1), rng)}),
        ("negative start", {"starts": ints(put(starts, i, -1), rng)}),
        ("negative start and stop", {"starts": ints(put(starts, i, -2), rng), "stops": ints(put(stops2, i, -1), rng)}),
        ("negative stop", {"stops": ints(put(stops2, i, -1), rng)}),
        ("fewer stops than starts", {"stops": ints(stops[:-1], rng) if n > 1 else numpy.array([], dtype=int)}),
        ("dimensions differ", {"starts": numpy.array(starts).reshape(n, 1), "stops": numpy.array(stops)}),
        ("dimensions differ", {"starts": numpy.array(starts), "stops": numpy.array(stops).reshape(n, 1)}),
        ("fractional starts", {"starts": numpy.array(starts, dtype=float)}),
        ("fractional stops", {"stops": numpy.array(stops2) + 0.5}),
        ("scalar starts", {"starts": numpy.array(1)}),
        ("bool starts", {"starts": numpy.array([False] * n)}),
    ]
    if full:
        last = max(stops[j] for j in full)
        p.bad.append(("content too short", {"content": c[:last - 1]}))
        if len(c[:last - 1]) != last - 1:
            p.bad.pop()
    return p


def offsets(mon):
    rng = mon.rng
    n = rng.randint(1, 4)
    counts = [rng.randint(0, 3) for _ in range(n)]
    lead = rng.choice([0, 0, 2])
    extra = rng.choice([0, 2])
    off = [lead]
    for k in counts:
        off.append(off[-1] + k)
    c, vals, t, g = content(mon, off[-1] + extra)
    want = [vals[b:e] for b, e in zip(off[:-1], off[1:])]
    p = Plan(awkward0.JaggedArray.fromoffsets, [("offsets", ints(off, rng)), ("content", c)], want)
    i = rng.randrange(n + 1)
    p.bad += [
        ("offset beyond content", {"offsets": ints(put(off, n, len(c) + rng.choice([1, 50])), rng)}),
        ("negative offset", {"offsets": ints(put(off, i, -1), rng)}),
        ("fractional offsets", {"offsets": numpy.array(off) + 0.5}),
        ("two-dimensional offsets", {"offsets": numpy.array([off, off])}),
        ("no offsets", {"offsets": numpy.array([], dtype=int)}),
        ("scalar offsets", {"offsets": numpy.array(3)}),
    ]
    if i + 1 <= n:
        p.bad.append(("decreasing offsets", {"offsets": ints(put(off, i, off[i + 1] + 1), rng)}))
    if off[-1] > lead:
        p.bad.append(("content too short", {"content": c[:off[-1] - 1]}))
    return p


def counts(mon):
    rng = mon.rng
    n = rng.randint(1, 4)
    k = [rng.randint(0, 3) for _ in range(n)]
    c, vals, t, g = content(mon, sum(k) + rng.choice([0, 2]))
    off = [0]
    for x in k:
        off.append(off[-1] + x)
    want = [vals[b:e] for b, e in zip(off[:-1], off[1:])]
    p = Plan(awkward0.JaggedArray.fromcounts, [("counts", ints(k, rng)), ("content", c)], want)
    i = rng.randrange(n)
    p.bad += [
        ("more counts than content", {"counts": ints(put(k, i, k[i] + len(c) - sum(k) + 1), rng)}),
        ("negative count", {"counts": ints(put(k, i, -1), rng)}),
        ("fractional counts", {"counts": numpy.array(k) + 0.5}),
    ]
    if sum(k) > 0:
        p.bad.append(("content too short", {"content": c[:sum(k) - 1]}))
    return p


def parents(mon):
    rng = mon.rng
    n = rng.randint(1, 4)
    k = [rng.randint(0, 3) for _ in range(n)]
    if k[-1] == 0:
        k[-1] = 1
    par = [i for i, x in enumerate(k) for _ in range(x)]
    c, vals, t, g = content(mon, len(par))
    off = [0]
    for x in k:
        off.append(off[-1] + x)
    want = [vals[b:e] for b, e in zip(off[:-1], off[1:])]
    p = Plan(awkward0.JaggedArray.fromparents, [("parents", ints(par, rng)), ("content", c)], want)
    p.bad += [
        ("more parents than content", {"parents": ints(par + [par[-1]], rng)}),
        ("fractional parents", {"parents": numpy.array(par) + 0.5}),
    ]
    return p


def multi(mon):
    rng = mon.rng
    k = numpy.array([[rng.randint(0, 2) for _ in range(2)] for _ in range(rng.randint(1, 3))])
    off = numpy.r_[0, numpy.cumsum(k.reshape(-1))]
    c, vals, t, g = content(mon, int(k.sum()), simple=True)
    starts, stops = off[:-1].reshape(k.shape), off[1:].reshape(k.shape)
    want = [[vals[b:e] for b, e in zip(x, y)] for x, y in zip(starts, stops)]
    p = Plan(awkward0.JaggedArray, [("starts", starts), ("stops", stops), ("content", c)], want)
    i, j = rng.randrange(len(k)), rng.randrange(2)
    one = starts.copy(); one[i, j] = stops[i, j] + 1
    two = stops.copy(); two[i, j] = len(c) + 1
    three = starts.copy(); three[i, j] = -1
    p.bad += [("stop before start", {"starts": one}), ("stop beyond content", {"stops": two}), ("negative start", {"starts": three}),
              ("dimensions differ", {"starts": starts.reshape(-1)}), ("dimensions differ", {"stops": stops[:, :1]}), ("fewer stops than starts", {"stops": stops[:-1]})]
    return p


def strings(mon):
    rng = mon.rng
    words = [rng.choice([u"", u"a", u"xyz", u"q\u00e9"]) for _ in range(rng.randint(1, 4))]
    data = b"".join(w.encode("utf-8") for w in words)
    off = [0]
    for w in words:
        off.append(off[-1] + len(w.encode("utf-8")))
    c = numpy.frombuffer(data, dtype=numpy.uint8)
    starts, stops = off[:-1], off[1:]
    n = len(words)
    i = rng.randrange(n)
    p = Plan(awkward0.StringArray, [("starts", ints(starts, rng)), ("stops", ints(stops, rng)), ("content", c), ("encoding", "utf-8")], words)
    p.bad += [
        ("stop before start", {"starts": ints(put(starts, i, stops[i] + 1), rng)}),
        ("stop beyond content", {"stops": ints(put(stops, i, len(c) + 1), rng)}),
        ("negative start", {"starts": ints(put(starts, i, -1), rng)}),
        ("fewer stops than starts", {"stops": ints(stops[:-1], rng) if n > 1 else numpy.array([], dtype=int)}),
        ("fractional starts", {"starts": numpy.array(starts) + 0.5}),
        ("unknown encoding", {"encoding": "no such encoding"}),
    ]
    if len(c) > 0:
        p.bad.append(("content too short", {"content": c[:-1]}))
    return p


def masked(mon):
    rng = mon.rng
    n = rng.randint(1, 9)
    mask = [rng.random() < 0.4 for _ in range(n)]
    when = rng.random() < 0.5
    c, vals, t, g = content(mon, n + rng.choice([0, 0, 2]))
    want = [None if m == when else v for m, v in zip(mask, vals)]
    p = Plan(lambda mask, content, maskedwhen: awkward0.MaskedArray(mask, content, maskedwhen=maskedwhen), [("mask", numpy.array(mask)), ("content", c), ("maskedwhen", when)], want)
    p.bad += [
        ("mask longer than content", {"mask": numpy.array(mask + [False] * (len(c) - n + 1))}),
        ("two-dimensional mask", {"mask": numpy.array([mask, mask])}),
        ("content too short", {"content": c[:n - 1]}),
    ]
    return p


def bitmasked(mon):
    rng = mon.rng
    n = rng.choice([1, 3, 8, 9, 17])
    bits = [rng.random() < 0.4 for _ in range(n)]
    when, lsb = rng.random() < 0.5, rng.random() < 0.5
    c, vals, t, g = content(mon, n)
    padded = bits + [rng.random() < 0.5 for _ in range(-n % 8)] + ([True] * 8 if rng.random() < 0.2 else [])
    b = numpy.array(padded).reshape(-1, 8)
    mask = numpy.packbits(b[:, ::-1] if lsb else b, axis=1).reshape(-1)
    want = [None if m == when else v for m, v in zip(bits, vals)]
    p = Plan(lambda mask, content, maskedwhen, lsborder: awkward0.BitMaskedArray(mask, content, maskedwhen=maskedwhen, lsborder=lsborder), [("mask", mask), ("content", c), ("maskedwhen", when), ("lsborder", lsb)], want)
    need = -(-n // 8)
    p.bad += [
        ("mask too short", {"mask": mask[:need - 1]}),
        ("two-dimensional mask", {"mask": mask.reshape(-1, 1)}),
    ]
    return p


def indexedmasked(mon):
    rng = mon.rng
    m = rng.randint(1, 5)
    c, vals, t, g = content(mon, m)
    when = rng.choice([-1, -1, -7, 1000])
    n = rng.randint(1, 6)
    index = [when if rng.random() < 0.3 else rng.randrange(m) for _ in range(n)]
    want = [None if i == when else vals[i] for i in index]
    p = Plan(lambda mask, content, maskedwhen: awkward0.IndexedMaskedArray(mask, content, maskedwhen=maskedwhen), [("mask", numpy.array(index)), ("content", c), ("maskedwhen", when)], want)
    i = rng.randrange(n)
    used = [x for x in index if x != when]
    p.bad += [
        ("index beyond content", {"mask": numpy.array(put(index, i, m + rng.choice([0, 1, 40])))}),
        ("negative index that does not mean missing", {"mask": numpy.array(put(index, i, -3))}),
        ("fractional mask", {"mask": numpy.array(index) + 0.5}),
        ("two-dimensional mask", {"mask": numpy.array([index, index])}),
        ("fractional maskedwhen", {"maskedwhen": 0.5}),
    ]
    if used:
        p.bad.append(("content too short", {"content": c[:max(used)]}))
    if when in index:
        p.bad.append(("positions of missing elements", {"maskedwhen": -99}))
    return p


def indexed(mon):
    rng = mon.rng
    m = rng.randint(1, 5)
    c, vals, t, g = content(mon, m)
    n = rng.randint(1, 6)
    index = [rng.randrange(m) for _ in range(n)]
    p = Plan(awkward0.IndexedArray, [("index", ints(index, rng)), ("content", c)], [vals[i] for i in index])
    i = rng.randrange(n)
    p.bad += [
        ("index beyond content", {"index": ints(put(index, i, m + rng.choice([0, 1, 40])), rng)}),
        ("negative index", {"index": ints(put(index, i, -1), rng)}),
        ("fractional index", {"index": numpy.array(index) + 0.5}),
        ("content too short", {"content": c[:max(index)]}),
    ]
    return p


def sparse(mon):
    rng = mon.rng
    length = rng.randint(2, 8)
    index = sorted(rng.sample(range(length), rng.randint(1, length)))
    c, vals, t, g = content(mon, len(index) + rng.choice([0, 1]), simple=True)
    d = rng.choice([0.0, -99.0])
    want = [vals[index.index(i)] if i in index else d for i in range(length)]
    p = Plan(awkward0.SparseArray, [("length", length), ("index", ints(index, rng)), ("content", c), ("default", d)], want)
    i = rng.randrange(len(index))
    p.bad += [
        ("negative length", {"length": -1}),
        ("fractional length", {"length": 2.5}),
        ("negative index", {"index": ints(put(index, 0, -1), rng)}),
        ("fractional index", {"index": numpy.array(index) + 0.5}),
        ("two-dimensional index", {"index": numpy.array([index])}),
        ("content too short", {"content": c[:len(index) - 1]}),
    ]
    if len(index) > 1:
        p.bad.append(("unsorted index", {"index": numpy.array(index[::-1])}))
    return p


def union(mon):
    rng = mon.rng
    ms = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
    cs = [content(mon, m, simple=rng.random() < 0.4) for m in ms]
    n = rng.randint(1, 6)
    tags = [rng.randrange(len(ms)) for _ in range(n)]
    index = [rng.randrange(ms[k]) for k in tags]
    want = [cs[k][1][i] for k, i in zip(tags, index)]
    long = index + ([rng.choice([0, 77])] if rng.random() < 0.3 else [])
    p = Plan(awkward0.UnionArray, [("tags", ints(tags, rng)), ("index", ints(long, rng)), ("contents", [c[0] for c in cs])], want)
    i = rng.randrange(n)
    k = tags[i]
    p.bad += [
        ("tag beyond contents", {"tags": ints(put(tags, i, len(ms) + rng.choice([0, 1, 120, 250])), rng)}),
        ("negative tag", {"tags": numpy.array(put(tags, i, -1))}),
        ("fractional tags", {"tags": numpy.array(tags) + 0.5}),
        ("index beyond contents", {"index": ints(put(long, i, ms[k] + rng.choice([0, 1, 60])), rng)}),
        ("negative index", {"index": ints(put(long, i, -1), rng)}),
        ("fractional index", {"index": numpy.array(long) + 0.5}),
        ("fewer positions than tags", {"index": ints(index[:-1], rng) if n > 1 else numpy.array([], dtype=int)}),
        ("dimensions differ", {"index": numpy.array(index).reshape(-1, 1)}),
        ("no contents", {"contents": []}),
        ("contents not iterable", {"contents": 5}),
        ("fewer contents than tags", {"contents": [c[0] for c in cs][:max(tags)]}),
        ("content too short", {"contents": [c[0][:max(j for kk, j in zip(tags, index) if kk == k)] if x == k else c[0] for x, c in enumerate(cs)]}),
    ]
    return p


def chunked(mon):
    rng = mon.rng
    g = mon.G(pwrap=0.0, longcols=False, longmask=False)
    t = random_type(g, 1, ("prim", "list", "rec", "str"))
    sizes = [rng.randint(0, 3) for _ in range(rng.randint(1, 3))]
    parts = [[t.gen(g) for _ in range(k)] for k in sizes]
    chunks = [encode(t, x, g) for x in parts]
    known = sizes[:rng.randint(1, len(sizes))]
    p = Plan(awkward0.ChunkedArray, [("chunks", chunks), ("chunksizes", known)], V.plain([v for x in parts for v in x]))
    i = rng.randrange(len(known))
    p.bad += [
        ("size of a chunk is wrong", {"chunksizes": put(known, i, sizes[i] + 1)}),
        ("negative size", {"chunksizes": put(known, i, -1)}),
        ("fractional size", {"chunksizes": put(known, i, 1.5)}),
        ("more sizes than chunks", {"chunksizes": sizes + [0]}),
        ("sizes not iterable", {"chunksizes": 3}),
        ("chunks not iterable", {"chunks": 3}),
    ]
    if sizes[i] > 0:
        p.bad.append(("size of a chunk is wrong", {"chunksizes": put(known, i, sizes[i] - 1)}))
        p.bad.append(("chunk too short", {"chunks": put(chunks, i, chunks[i][:-1])}))
    return p


def appendable(mon):
    rng = mon.rng
    k = rng.randint(1, 3)
    sizes = [k] * rng.randint(1, 2)
    chunks = [numpy.array([rng.randint(-9, 9) for _ in range(x)], dtype="int64") for x in sizes]
    p = Plan(awkward0.AppendableArray, [("chunkshape", k), ("dtype", "int64"), ("chunks", chunks)], [int(v) for x in chunks for v in x])
    i = rng.randrange(len(sizes))
    p.bad += [
        ("chunk of another dtype", {"chunks": put(chunks, i, chunks[i].astype("float64"))}),
        ("chunk of another dimensionality", {"chunks": put(chunks, i, chunks[i].reshape(-1, 1))}),
        ("no room in chunks", {"chunkshape": 0}),
        ("fractional chunkshape", {"chunkshape": 1.5}),
        ("chunkshape of a wrong kind", {"chunkshape": "nothing"}),
        ("negative chunkshape", {"chunkshape": (-3,)}),
        ("chunks not iterable", {"chunks": 3}),
    ]
    return p


def objects(mon):
    rng = mon.rng
    n = rng.randint(1, 4)
    vals = [rng.randint(-9, 9) for _ in range(n)]
    p = Plan(awkward0.ObjectArray, [("content", numpy.array(vals)), ("generator", double), ("args", (10,)), ("kwargs", {"factor": 2})], [v * 2 + 10 for v in vals])
    p.bad += [
        ("generator is not a function", {"generator": 3}),
        ("keywords are not a dict", {"kwargs": [1, 2]}),
    ]
    return p


def double(x, plus, factor=1):
    return int(x) * factor + plus


def virtual(mon):
    rng = mon.rng
    n = rng.randint(1, 4)
    vals = [float(rng.randint(-9, 9)) for _ in range(n)]

    def make(generator, args, kwargs, cache, persistentkey, type, nbytes, persistvirtual):
        return awkward0.VirtualArray(generator, args, kwargs, cache=cache, persistentkey=persistentkey, type=type, nbytes=nbytes, persistvirtual=persistvirtual)
    p = Plan(make, [("generator", numpy.array), ("args", (vals,)), ("kwargs", {}), ("cache", rng.choice([None, {}])), ("persistentkey", None),
                    ("type", rng.choice([None, awkward0.type.fromnumpy(n, float)])), ("nbytes", rng.choice([None, 100])), ("persistvirtual", True)], vals)
    p.bad += [
        ("generator is not a function", {"generator": 3}),
        ("keywords are not a dict", {"kwargs": 5}),
        ("cache that cannot be assigned to", {"cache": "text"}),
        ("key is not text", {"persistentkey": 5}),
        ("type is not a type", {"type": 5}),
        ("type is a number type", {"type": numpy.dtype(float)}),
        ("size is not a number", {"nbytes": "many"}),
        ("size is negative", {"nbytes": -3}),
        ("another type than declared", {"type": awkward0.type.fromnumpy(n, bool)}),
        ("another length than declared", {"type": awkward0.type.fromnumpy(n + 1, float)}),
    ]
    return p


PLANS = [jagged, jagged, offsets, counts, parents, multi, strings, masked, bitmasked, indexedmasked, indexed, sparse, union, chunked, appendable, objects, virtual]
DEFERRED = ("another type than declared", "another length than declared")      # (virtual arrays have no validity conditions, they fail when used)


def uses(rng, a, n):
    out = [("tolist", lambda: a.tolist()), ("iterate", lambda: list(a)), ("slice", lambda: tolist(a[:])), ("first", lambda: tolist(a[0])),
           ("gather", lambda: tolist(a[[0]])), ("mask", lambda: tolist(a[numpy.arange(n) < 1])), ("reverse", lambda: tolist(a[::-1]))]
    return rng.sample(out, 3)


def nest(mon, a):
    """the array as a part of another one: reading the whole reads the part"""
    n = None
    kind = mon.rng.choice(["column", "lists", "option", "positions", "object", "chunk", "virtual"])
    mon.say(within=kind)
    n = len(a)
    if kind == "column":
        return awkward0.Table(x=numpy.arange(n), y=a)
    if kind == "lists":
        return awkward0.JaggedArray.fromcounts([n], a)
    if kind == "option":
        return awkward0.MaskedArray([False] * n, a)
    if kind == "positions":
        return awkward0.IndexedArray(numpy.arange(n), a)
    if kind == "object":
        return awkward0.ObjectArray(a, lambda x: x)
    if kind == "chunk":
        return awkward0.ChunkedArray([a])
    return awkward0.VirtualArray(lambda: a)


def refused(mon, what, f):
    try:
        out = f()
    except RecursionError:
        raise Violation("%s: endless recursion" % what)
    except Exception as err:
        mon.events["use refused"] += 1
        return err
    raise Violation("%s of an array with inconsistent parts returned %.200r" % (what, out))


@SUITE.scenario(14000, 200000, watch=False)
def corrupt(mon):
    rng = mon.rng
    maker = rng.choice(PLANS)
    p = maker(mon)
    mon.say(kind=maker.__name__, parts=dict((k, x if not isinstance(x, awkward0.array.base.AwkwardArray) else tolist(x)) for k, x in p.parts.items()))
    good = mon.call("make", lambda: p.make())
    mon.check(good.valid() is True and good.valid(message=True) is None and good.valid(exception=True) in (True, None), "a correct array is not valid: %s" % good.valid(message=True))
    mon.eq(good, p.meaning, "a correct array")
    mon.events["accepted"] += 1
    what, wrong = rng.choice(p.bad)
    mon.say(wrong=what, by=wrong)
    mon.events["corrupted"] += 1
    mon.events["kind:" + maker.__name__ + ":" + what] += 1
    way = rng.choice(["construct", "construct", "set", "set", "copy"])
    if len(wrong) > 1 and way != "construct":
        way = "set"
    if maker in (offsets, counts, parents) and way == "copy":
        way = "set"
    if maker is chunked and what == "chunk too short" and way == "copy":
        way = "set"                               # (a copy with other chunks gets to know their sizes itself)
    observed = rng.random() < 0.6 and what not in DEFERRED
    a = p.make()
    if observed and way != "construct":
        observe(a, rng)
        tolist(a)
        a.valid()
    mon.say(way=way)
    before = meaning(a) if way != "construct" and what not in DEFERRED else None
    try:
        if way == "construct":
            a = p.make(wrong)
        elif way == "set":
            for k, x in wrong.items():
                setattr(a, k, x)
        else:
            a = a.copy(**wrong)
    except RecursionError:
        raise
    except Exception as err:
        mon.events["rejected at once"] += 1
        if before is not None and way == "set" and len(wrong) == 1:
            d = V.same(meaning(a), before)
            mon.check(d is None and a.valid(), "a rejected assignment changed the array: %s" % d)
        return
    if what not in DEFERRED:
        mon.check(a.valid() is False, "%s: valid() says %r" % (what, a.valid()))
        mon.check(isinstance(a.valid(message=True), str), "no message")
        refused(mon, "valid(exception=True)", lambda: a.valid(exception=True))
        mon.events["found invalid"] += 1
    n = len(p.meaning)
    for name, f in uses(rng, a, n):
        refused(mon, name, f)
    if what not in DEFERRED:
        mon.check(a.valid() is False, "%s: once used, valid() says %r" % (what, a.valid()))
    if rng.random() < 0.5:
        try:
            b = nest(mon, a)
        except Exception as err:
            mon.events["nested"] += 1
            return
        mon.events["nested"] += 1
        if len(b) != 0:                           # (nothing of the part is read if the whole is empty)
            refused(mon, "tolist of the whole", lambda: tolist(b))
    # and once it is set right again, it can be used
    if way == "set" and rng.random() < 0.7 and maker not in (parents,):
        for k in wrong:
            setattr(a, k, p.parts[k])
        if maker in (chunked, appendable):
            a.chunks = p.parts["chunks"]
            if maker is chunked:
                a.chunksizes = p.parts["chunksizes"]
        mon.check(a.valid() is True, "set right again, but not valid: %s" % a.valid(message=True))
        mon.eq(a, p.meaning, "set right again")


@SUITE.scenario(3000, 60000, watch=False)
def accepted(mon):
    """no correct array is rejected, whatever its layout"""
    rng = mon.rng
    g0 = G(rng)
    t = random_type(g0, 3)
    g = mon.G(wrap=set(["indexed", "chunked", "virtual", "sparse", "appendable"]), pwrap=rng.choice([0.0, 0.3]), wrapdepth=2, anywhen=True, unsigned=True, longcols=False)
    vals = [t.gen(g) for _ in range(many(rng, 0, 1, 3, 5))]
    mon.say(type=t.sig(), vals=V.plain(vals))
    a = encode(t, vals, g)
    todo, seen = [a], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, awkward0.array.base.AwkwardArray) or id(x) in seen:
            continue
        seen.add(id(x))
        mon.events["accepted"] += 1
        mon.check(x.valid() is True, "%s is not valid: %s" % (type(x).__name__, x.valid(message=True)))
        if isinstance(x, awkward0.Table):
            todo.extend(x.contents.values())
        elif isinstance(x, awkward0.UnionArray):
            todo.extend(x.contents)
        elif isinstance(x, awkward0.ChunkedArray):
            todo.extend(x.chunks)
        elif isinstance(x, awkward0.VirtualArray):
            todo.append(x.array)
        elif hasattr(x, "content"):
            todo.append(x.content)
    mon.eq(a, V.plain(vals), "the array")
