"""P29: an array whose parts are replaced is the array built from the new parts.

Each history keeps a model of an array's parts as Python lists.  It builds the
array, looks at it in random ways (also through views and copies made before),
assigns new parts, and compares what the array then shows with the values that
the model computes from the parts it now has.  Copies made with new parts
(copy(content=...)) are judged in the same way, and the array they are made
from must not change.
"""
import numpy
import awkward0
from akmon.monitor import Suite, observe, tolist, Skip
from akmon.layouts import *
from akmon.ops import *
from akmon.values import plain

SUITE = Suite("P29")
SUITE.needs = {"assigned": 20000, "copied": 3000, "shown": 20000, "derived": 8000}


class Model(object):
    """parts: the Python meaning of each part; arrays: what is given to the library"""

    def __init__(self, mon):
        self.mon, self.rng = mon, mon.rng
        self.g = mon.G(unsigned=True, wrap=set(["indexed", "chunked"]), pwrap=mon.rng.choice([0.0, 0.0, 0.3]))
        self.t = random_type(self.g, 1, self.KINDS)
        self.parts = {}

    KINDS = ("prim", "list", "opt", "str", "rec", "reg")

    def values(self, n, t=None):
        t = t or self.t
        vals = [t.gen(self.g) for _ in range(n)]
        return vals, encode(t, vals, self.g)

    def put(self, target, name, given, meaning=None):
        setattr(target, name, given)
        self.parts[name] = meaning

    def derived(self, a, show):
        pass


def asint(g, vals, shape=None):
    vals = [int(x) for x in vals]
    r = g.rng.random()
    if r < 0.3:
        return vals if len(vals) else numpy.array([], dtype=numpy.int64)
    return idx(vals, g)


class Jagged(Model):
    def fresh(self, m):
        """new starts and stops for a content of length m"""
        rng = self.rng
        n = many(rng, 0, 1, 2, 3, 5)
        how = rng.random()
        if how < 0.4:
            cuts = sorted(rng.randint(0, m) for _ in range(n + 1))
            return cuts[:-1], cuts[1:]
        starts = [rng.randint(0, m) for _ in range(n)]
        return starts, [rng.randint(s, m) for s in starts]

    def build(self):
        m = self.rng.choice([0, 1, 3, 6, 9])
        vals, content = self.values(m)
        starts, stops = self.fresh(m)
        self.parts = dict(starts=starts, stops=stops, content=vals)
        if starts[1:] == stops[:-1] and self.rng.random() < 0.7:
            offs = starts[:1] + stops if starts else [0]
            return awkward0.JaggedArray.fromoffsets(asint(self.g, offs), content)
        return awkward0.JaggedArray(asint(self.g, starts), asint(self.g, stops), content)

    def assign(self, a):
        rng, P = self.rng, self.parts
        k = rng.choice(["starts", "stops", "both", "content", "offsets", "counts", "parents", "all"])
        n, m = len(P["starts"]), len(P["content"])
        if k == "starts":
            P["starts"] = [rng.randint(0, s) for s in P["stops"][:n]]
            a.starts = asint(self.g, P["starts"])
        elif k == "stops":
            P["stops"] = [rng.randint(s, m) for s in P["starts"]]
            a.stops = asint(self.g, P["stops"] + [0] * rng.choice([0, 0, 1]))
            P["stops"] = P["stops"][:n]
        elif k in ("both", "all"):
            if k == "all":
                P["content"], content = self.values(rng.choice([0, 2, 5, 8]))
            P["starts"], P["stops"] = self.fresh(len(P["content"]))
            todo = ["starts", "stops"] + (["content"] if k == "all" else [])
            rng.shuffle(todo)
            for x in todo:
                setattr(a, x, content if x == "content" else asint(self.g, P[x]))
                if rng.random() < 0.3:
                    observe(a, rng)
        elif k == "content":
            need = max([e for s, e in zip(P["starts"], P["stops"]) if e > s] + [0])
            if self.rng.random() < 0.5:
                need = max(P["stops"] + [0])
            # offsets are held to the content as a whole
            need = max(P["stops"] + [0])
            P["content"], content = self.values(need + rng.choice([0, 0, 1, 3]))
            a.content = content
        elif k == "offsets":
            cuts = sorted(rng.randint(0, m) for _ in range(many(rng, 1, 2, 4)))
            P["starts"], P["stops"] = cuts[:-1], cuts[1:]
            a.offsets = asint(self.g, cuts)
        elif k == "counts":
            counts, left = [], m
            for _ in range(many(rng, 0, 1, 3, 5)):
                c = rng.randint(0, left)
                left -= c
                counts.append(c)
            cuts = [sum(counts[:i]) for i in range(len(counts) + 1)]
            P["starts"], P["stops"] = cuts[:-1], cuts[1:]
            a.counts = asint(self.g, counts)
        else:
            runs = list(range(rng.randint(1, 4)))
            rng.shuffle(runs)
            parents = []
            for r in runs:
                parents += [r] * rng.randint(0, max(0, m - len(parents)))
            parents += [-1] * (m - len(parents))
            n = max(parents + [-1]) + 1
            P["starts"] = [parents.index(i) if i in parents else 0 for i in range(n)]
            P["stops"] = [s + parents.count(i) for i, s in enumerate(P["starts"])]
            a.parents = numpy.array(parents, dtype=numpy.int64)
        return k

    def show(self):
        P = self.parts
        return [P["content"][s:e] for s, e in zip(P["starts"], P["stops"])]

    def derived(self, a, show):
        mon, P = self.mon, self.parts
        mon.eq(a.counts.tolist(), [len(x) for x in show], "counts")
        mon.eq(a.localindex.tolist(), [list(range(len(x))) for x in show], "localindex")
        mon.eq(tolist(a.flatten()), [y for x in show for y in x], "flatten()")
        if P["starts"][1:] == P["stops"][:-1]:
            mon.eq(a.offsets.tolist(), P["starts"][:1] + P["stops"] if P["starts"] else a.offsets.tolist()[:1], "offsets")
        else:
            # (an empty list may lie between: any offsets that are given must describe the lists)
            try:
                offs = a.offsets.tolist()
            except ValueError:
                pass
            else:
                mon.eq([y - x for x, y in zip(offs[:-1], offs[1:])], [len(x) for x in show], "offsets")
        owner = {}
        for i, (s, e) in enumerate(zip(P["starts"], P["stops"])):
            for j in range(s, e):
                owner.setdefault(j, []).append(i)
        if all(len(x) == 1 for x in owner.values()):
            parents = a.parents.tolist()
            mon.eq([p for p in parents if p >= 0], [owner[j][0] for j in sorted(owner)], "parents")
            mon.check(all(parents[j] == owner[j][0] for j in owner), lambda: "parents %r do not say where the elements are" % (parents,))

    def copies(self, a):
        P = dict(self.parts)
        m = len(P["content"])
        P["starts"], P["stops"] = self.fresh(m)
        return a.copy(starts=asint(self.g, P["starts"]), stops=asint(self.g, P["stops"])), P


class Indexed(Model):
    def fresh(self, m):
        return [self.rng.randrange(m) for _ in range(many(self.rng, 0, 1, 3, 6))] if m else []

    def build(self):
        vals, content = self.values(self.rng.choice([0, 1, 4, 7]))
        self.parts = dict(index=self.fresh(len(vals)), content=vals)
        return awkward0.IndexedArray(asint(self.g, self.parts["index"]), content)

    def assign(self, a):
        P, rng = self.parts, self.rng
        k = rng.choice(["index", "content", "both"])
        if k == "index":
            P["index"] = self.fresh(len(P["content"]))
            a.index = asint(self.g, P["index"])
        elif k == "content":
            P["content"], content = self.values(max(P["index"] + [-1]) + 1 + rng.choice([0, 0, 2]))
            a.content = content
        else:
            P["content"], content = self.values(rng.choice([0, 2, 6]))
            P["index"] = self.fresh(len(P["content"]))
            if rng.random() < 0.5:
                a.content = content
                a.index = asint(self.g, P["index"])
            else:
                a.index = asint(self.g, P["index"])
                a.content = content
        return k

    def show(self):
        return [self.parts["content"][i] for i in self.parts["index"]]

    def derived(self, a, show):
        self.mon.eq(a.index.tolist(), self.parts["index"], "index")

    def copies(self, a):
        P = dict(self.parts)
        P["index"] = self.fresh(len(P["content"]))
        return a.copy(index=asint(self.g, P["index"])), P


def maskof(rng, n):
    return [rng.random() < 0.4 for _ in range(n)]


class Masked(Model):
    KINDS = ("prim", "list", "str", "reg")
    cls = awkward0.MaskedArray

    def wrapmask(self, mask):
        r = self.rng.random()
        if r < 0.2:
            return mask if len(mask) else numpy.array([], dtype=bool)
        if r < 0.4:
            return numpy.array([int(x) * self.rng.choice([1, 1, 2]) for x in mask], dtype=numpy.int8)
        return numpy.array(mask, dtype=bool)

    def build(self):
        vals, content = self.values(many(self.rng, 0, 1, 4, 8))
        self.parts = dict(mask=maskof(self.rng, len(vals)), content=vals, maskedwhen=self.rng.random() < 0.5)
        return self.make(content)

    def make(self, content):
        return awkward0.MaskedArray(self.wrapmask(self.parts["mask"]), content, maskedwhen=self.parts["maskedwhen"])

    def assign(self, a):
        P, rng = self.parts, self.rng
        k = rng.choice(["mask", "content", "maskedwhen", "all"])
        if k in ("content", "all"):
            n = len(P["content"]) if k == "content" else many(rng, 0, 2, 5, 9)
            P["content"], content = self.values(n)
        if k in ("mask", "all"):
            P["mask"] = maskof(rng, len(P["content"]))
        if k in ("maskedwhen", "all"):
            P["maskedwhen"] = rng.random() < 0.5
        todo = ["mask", "content", "maskedwhen"] if k == "all" else [k]
        rng.shuffle(todo)
        for x in todo:
            setattr(a, x, content if x == "content" else self.wrapmask(P["mask"]) if x == "mask" else P["maskedwhen"])
            if rng.random() < 0.3 and k != "all":
                observe(a, rng)
        return k

    def show(self):
        P = self.parts
        return [None if m == P["maskedwhen"] else v for m, v in zip(P["mask"], P["content"])]

    def derived(self, a, show):
        P = self.parts
        n = len(P["content"])
        self.mon.eq([bool(x) for x in a.boolmask(maskedwhen=True)][:n], [x is None for x in show], "boolmask(True)")
        self.mon.eq([bool(x) for x in a.boolmask(maskedwhen=False)][:n], [x is not None for x in show], "boolmask(False)")
        self.mon.eq([bool(x) for x in a.isunmasked], [x is not None for x in show], "isunmasked")

    def copies(self, a):
        P = dict(self.parts)
        P["mask"] = maskof(self.rng, len(P["content"]))
        return a.copy(mask=self.wrapmask(P["mask"])), P


def bits(mask, lsb):
    out = []
    for i in range(0, len(mask), 8):
        eight = (mask[i:i + 8] + [False] * 8)[:8]
        out.append(sum(1 << (j if lsb else 7 - j) for j, x in enumerate(eight) if x))
    return out


def unbits(byts, lsb):
    return [bool(b & (1 << (j if lsb else 7 - j))) for b in byts for j in range(8)]


class BitMasked(Masked):
    def newmask(self, n):
        return [self.rng.randrange(256) for _ in range(-(-n // 8))]

    def build(self):
        vals, content = self.values(many(self.rng, 0, 1, 4, 9, 17))
        rng = self.rng
        self.parts = P = dict(mask=self.newmask(len(vals)), content=vals, maskedwhen=rng.random() < 0.5, lsborder=rng.random() < 0.5)
        return awkward0.BitMaskedArray(numpy.array(P["mask"], dtype=numpy.uint8), content, maskedwhen=P["maskedwhen"], lsborder=P["lsborder"])

    def assign(self, a):
        P, rng = self.parts, self.rng
        k = rng.choice(["mask", "content", "maskedwhen", "lsborder", "all"])
        if k in ("content", "all"):
            n = len(P["content"]) if k == "content" else many(rng, 0, 2, 9)
            P["content"], content = self.values(n)
        if k in ("mask", "all"):
            P["mask"] = self.newmask(len(P["content"]))
        for x in ("maskedwhen", "lsborder"):
            if k in (x, "all"):
                P[x] = rng.random() < 0.5
        todo = ["mask", "content", "maskedwhen", "lsborder"] if k == "all" else [k]
        rng.shuffle(todo)
        for x in todo:
            setattr(a, x, content if x == "content" else numpy.array(P["mask"], dtype=numpy.uint8) if x == "mask" else P[x])
        return k

    def show(self):
        P = self.parts
        return [None if m == P["maskedwhen"] else v for m, v in zip(unbits(P["mask"], P["lsborder"]), P["content"])]

    def copies(self, a):
        P = dict(self.parts)
        P["mask"] = self.newmask(len(P["content"]))
        P["lsborder"] = not P["lsborder"]
        return a.copy(mask=numpy.array(P["mask"], dtype=numpy.uint8), lsborder=P["lsborder"]), P


class IndexedMasked(Masked):
    def fresh(self, m):
        return [self.missing if m == 0 or self.rng.random() < 0.3 else self.rng.randrange(m) for _ in range(many(self.rng, 0, 1, 3, 6))]

    def build(self):
        self.missing = self.rng.choice([-1, -1, -5])
        vals, content = self.values(self.rng.choice([0, 1, 4, 7]))
        self.parts = dict(mask=self.fresh(len(vals)), content=vals, maskedwhen=self.missing)
        return awkward0.IndexedMaskedArray(numpy.array(self.parts["mask"], dtype=numpy.int64), content, maskedwhen=self.missing)

    def assign(self, a):
        P, rng = self.parts, self.rng
        k = rng.choice(["mask", "content", "all"])
        if k == "mask":
            P["mask"] = self.fresh(len(P["content"]))
            a.mask = numpy.array(P["mask"], dtype=rng.choice([numpy.int64, numpy.int32]))
        elif k == "content":
            P["content"], content = self.values(max(P["mask"] + [-1]) + 1 + rng.choice([0, 0, 2]))
            a.content = content
        else:
            self.missing = rng.choice([-1, -3])
            P["content"], content = self.values(rng.choice([0, 2, 6]))
            P["mask"] = self.fresh(len(P["content"]))
            P["maskedwhen"] = self.missing
            todo = ["mask", "content", "maskedwhen"]
            rng.shuffle(todo)
            for x in todo:
                setattr(a, x, content if x == "content" else numpy.array(P["mask"], dtype=numpy.int64) if x == "mask" else self.missing)
        return k

    def show(self):
        P = self.parts
        return [None if i == P["maskedwhen"] else P["content"][i] for i in P["mask"]]

    def derived(self, a, show):
        self.mon.eq([bool(x) for x in a.boolmask(maskedwhen=True)], [x is None for x in show], "boolmask(True)")
        self.mon.eq([bool(x) for x in a.isunmasked], [x is not None for x in show], "isunmasked")

    def copies(self, a):
        P = dict(self.parts)
        P["mask"] = self.fresh(len(P["content"]))
        return a.copy(mask=numpy.array(P["mask"], dtype=numpy.int64)), P


class Union(Model):
    def fresh(self, sizes):
        n = many(self.rng, 1, 2, 4, 7)
        usable = [i for i, s in enumerate(sizes) if s] or None
        if usable is None:
            raise Skip("nothing to point at")
        tags = [self.rng.choice(usable) for _ in range(n)]
        return tags, [self.rng.randrange(sizes[t]) for t in tags]

    def newcontents(self):
        ts = [self.t, random_type(self.g, 1, ("prim", "str", "list"))][:self.rng.choice([1, 2, 2])]
        out = [self.values(self.rng.choice([1, 2, 5]), t) for t in ts]
        return [x for x, y in out], [y for x, y in out]

    def build(self):
        vals, contents = self.newcontents()
        tags, index = self.fresh([len(x) for x in vals])
        self.parts = dict(tags=tags, index=index, contents=vals)
        return awkward0.UnionArray(asint(self.g, tags), asint(self.g, index), contents)

    def assign(self, a):
        P, rng = self.parts, self.rng
        k = rng.choice(["index", "tags", "contents", "all"])
        if k == "index":
            P["index"] = [rng.randrange(len(P["contents"][t])) for t in P["tags"]]
            a.index = asint(self.g, P["index"])
        elif k == "tags":
            n = len(P["tags"])
            P["tags"] = [rng.choice([i for i, x in enumerate(P["contents"]) if len(x) > j]) for j in P["index"]]
            a.tags = asint(self.g, P["tags"])
        elif k == "contents":
            new = []
            for i in range(len(P["contents"])):
                need = max([j for t, j in zip(P["tags"], P["index"]) if t == i] + [-1]) + 1
                new.append(self.values(need + rng.choice([0, 1]), rng.choice([self.t, random_type(self.g, 1, ("prim", "str", "list"))])))
            P["contents"] = [x for x, y in new]
            a.contents = [y for x, y in new]
        else:
            P["contents"], contents = self.newcontents()
            P["tags"], P["index"] = self.fresh([len(x) for x in P["contents"]])
            todo = ["tags", "index", "contents"]
            rng.shuffle(todo)
            for x in todo:
                setattr(a, x, contents if x == "contents" else asint(self.g, P[x]))
        return k

    def show(self):
        P = self.parts
        return [P["contents"][t][i] for t, i in zip(P["tags"], P["index"])]

    def copies(self, a):
        P = dict(self.parts)
        P["tags"], P["index"] = self.fresh([len(x) for x in P["contents"]])
        return a.copy(tags=asint(self.g, P["tags"]), index=asint(self.g, P["index"])), P


class Chunked(Model):
    def newchunks(self):
        out = [self.values(self.rng.choice([0, 1, 2, 4])) for _ in range(self.rng.randint(1, 4))]
        return [x for x, y in out], [y for x, y in out]

    def build(self):
        vals, chunks = self.newchunks()
        self.parts = dict(chunks=vals)
        return awkward0.ChunkedArray(chunks, self.rng.choice([[], [len(x) for x in vals]]))

    def assign(self, a):
        P, rng = self.parts, self.rng
        P["chunks"], chunks = self.newchunks()
        sizes = rng.choice([[], [len(x) for x in P["chunks"]]])
        if rng.random() < 0.5:
            a.chunks = chunks
            a.chunksizes = sizes
        else:
            a.chunksizes = sizes
            a.chunks = chunks
        return "chunks"

    def show(self):
        return [y for x in self.parts["chunks"] for y in x]

    def derived(self, a, show):
        sizes = [len(x) for x in self.parts["chunks"]]
        a.knowchunksizes()
        self.mon.eq([int(x) for x in a.chunksizes], sizes, "chunksizes")
        self.mon.eq(a.offsets.tolist(), [sum(sizes[:i]) for i in range(len(sizes) + 1)], "offsets")

    def copies(self, a):
        vals, chunks = self.newchunks()
        return a.copy(chunks=chunks, chunksizes=self.rng.choice([[], [len(x) for x in vals]])), dict(chunks=vals)


class Made(object):
    def __init__(self, row, *args, **kwargs):
        self.what = (tolist(row), args, tuple(sorted(kwargs.items())))

    def __eq__(self, other):
        return isinstance(other, Made) and type(self) is type(other) and repr(self.what) == repr(other.what)

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return "%s%r" % (type(self).__name__, self.what)


class Other(Made):
    pass


class Object(Model):
    KINDS = ("prim", "list", "str")

    def build(self):
        vals, content = self.values(many(self.rng, 0, 1, 4))
        self.parts = dict(content=vals, generator=Made, args=(), kwargs={})
        return awkward0.ObjectArray(content, Made)

    def assign(self, a):
        P, rng = self.parts, self.rng
        k = rng.choice(["content", "generator", "args", "kwargs"])
        if k == "content":
            P["content"], content = self.values(many(rng, 0, 2, 5))
            a.content = content
        else:
            P[k] = rng.choice([Made, Other]) if k == "generator" else rng.choice([(), (1,), (1, "two")]) if k == "args" else rng.choice([{}, {"a": 1}, {"b": 2, "c": 3}])
            setattr(a, k, P[k])
        return k

    def show(self):
        P = self.parts
        return [P["generator"](plain(x), *P["args"], **P["kwargs"]) for x in P["content"]]

    def copies(self, a):
        P = dict(self.parts)
        rng = self.rng
        new = {"generator": rng.choice([Made, Other]), "args": rng.choice([(), (7,)]), "kwargs": rng.choice([{}, {"d": 4}])}
        new = dict((k, new[k]) for k in rng.sample(sorted(new), rng.randint(1, 3)))
        P.update(new)
        return a.copy(**new), P


class Strings(Model):
    def build(self):
        self.t = Prim("uint8")
        self.bytes = [self.rng.choice(b"abcdefghij") for _ in range(self.rng.choice([0, 3, 9]))]
        starts, stops = Jagged.fresh(self, len(self.bytes))
        self.parts = dict(starts=starts, stops=stops, content=self.bytes, encoding=self.rng.choice(["utf-8", "ascii", None, "latin-1"]))
        return awkward0.StringArray(asint(self.g, starts), asint(self.g, stops), numpy.array(self.bytes, dtype=numpy.uint8), encoding=self.parts["encoding"])

    def assign(self, a):
        P, rng = self.parts, self.rng
        k = rng.choice(["starts", "stops", "content", "encoding", "all"])
        n, m = len(P["starts"]), len(P["content"])
        if k == "starts":
            P["starts"] = [rng.randint(0, s) for s in P["stops"]]
        elif k == "stops":
            P["stops"] = [rng.randint(s, m) for s in P["starts"]]
        elif k == "content":
            P["content"] = [rng.choice(b"klmnopqrst") for _ in range(max(P["stops"] + [0]) + rng.choice([0, 2]))]
        elif k == "encoding":
            P["encoding"] = rng.choice(["utf-8", None, "latin-1", "utf-16-le" if all((e - s) % 2 == 0 for s, e in zip(P["starts"], P["stops"])) and rng.random() < 0 else "ascii"])
        else:
            P["content"] = [rng.choice(b"uvwxyz") for _ in range(rng.choice([0, 2, 8]))]
            P["starts"], P["stops"] = Jagged.fresh(self, len(P["content"]))
        todo = ["starts", "stops", "content"] if k == "all" else [k]
        rng.shuffle(todo)
        for x in todo:
            setattr(a, x, P[x] if x == "encoding" else numpy.array(P[x], dtype=numpy.uint8) if x == "content" else asint(self.g, P[x]))
        return k

    def show(self):
        P = self.parts
        out = [bytes(bytearray(P["content"][s:e])) for s, e in zip(P["starts"], P["stops"])]
        return out if P["encoding"] is None else [x.decode(P["encoding"]) for x in out]

    def derived(self, a, show):
        self.mon.eq(a.counts.tolist(), [len(x) for x in show], "counts")

    def copies(self, a):
        P = dict(self.parts)
        P["starts"], P["stops"] = Jagged.fresh(self, len(P["content"]))
        return a.copy(starts=asint(self.g, P["starts"]), stops=asint(self.g, P["stops"])), P


MODELS = [Jagged, Jagged, Indexed, Masked, BitMasked, IndexedMasked, Union, Chunked, Object, Strings]


def look(mon, m, a, what):
    rng = mon.rng
    show = m.show()
    n = len(show)
    mon.check(len(a) == n, lambda: "%s: length %d, not %d" % (what, len(a), n))
    mon.eq(a.tolist(), show, what)
    mon.events["shown"] += 1
    r = rng.random()
    if r < 0.3:
        mon.eq([tolist(x) for x in a], show, what + ", looped over")
    elif r < 0.6 and n:
        i = rng.randrange(-n, n)
        mon.eq(tolist(a[i]), show[i], "%s, [%d]" % (what, i))
        w = random_slice(rng, n)
        mon.eq(tolist(a[w]), show[w], "%s, [%r]" % (what, w))
    elif r < 0.8 and n:
        w = [rng.randrange(n) for _ in range(3)]
        mon.eq(tolist(a[w]), [show[i] for i in w], "%s, [%r]" % (what, w))
    mon.check(a.type.takes == n, lambda: "%s: type says %r" % (what, a.type.takes))
    if rng.random() < 0.7:
        m.derived(a, show)
        mon.events["derived"] += 1


def rows(vals):
    return [plain(x) for x in vals]


@SUITE.scenario(9000, 200000, watch=False)
def parts(mon):
    rng = mon.rng
    m = rng.choice(MODELS)(mon)
    trace = [type(m).__name__, m.t.sig()]
    try:
        history(mon, m, trace)
    finally:
        mon.say(trace=" ".join(map(str, trace)))


def history(mon, m, trace):
    rng = mon.rng
    a = m.build()
    trace.append(len(m.show()))
    kept = None
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.7:
            observe(a, rng)
        if rng.random() < 0.3:
            look(mon, m, a, "before")
        if rng.random() < 0.25:
            # a copy with other parts, and the array it comes from
            was = m.parts
            b, other = m.copies(a)
            trace.append("copy")
            m.parts = other
            look(mon, m, b, "a copy with other parts")
            m.parts = was
            look(mon, m, a, "what was copied")
            mon.events["copied"] += 1
        if rng.random() < 0.3:
            kept = (a.copy(), dict(m.parts), a)
        trace.append(m.assign(a))
        mon.events["assigned"] += 1
        mon.events["part:%s.%s" % (type(m).__name__, trace[-1])] += 1
        look(mon, m, a, "after assigning %s" % trace[-1])
        if kept is not None and not isinstance(m, Strings):
            now, m.parts = m.parts, kept[1]
            look(mon, m, kept[0], "a copy made before")
            m.parts = now
