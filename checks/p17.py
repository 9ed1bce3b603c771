"""P17: virtual arrays show what their generator makes, and run it exactly when they have to."""
import gc
import random

import numpy
import awkward0
from akmon.monitor import Suite, Violation, Skip, tolist, meaning, ARRAYLIKE
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V
from checks.p16 import USES

SUITE = Suite("P17")
SUITE.needs = {"generated": 3000, "served from cache": 1500, "evicted": 500, "failed": 300, "not generated": 3000, "transparent": 2000}


class Boom(Exception):
    pass


class Source(object):
    """makes equal arrays, in another layout every time, and counts how often"""
    def __init__(self, t, vals, seed, **kw):
        self.t, self.vals, self.seed, self.kw = t, vals, seed, kw
        self.calls = self.failed = self.fail = 0
        self.simple = False

    def __call__(self):
        if self.fail:
            self.fail -= 1
            self.failed += 1
            raise Boom("the generator failed")
        self.calls += 1
        if self.simple:
            return awkward0.Table(*[], **{n: encode(u, [v[n] for v in self.vals], G(random.Random(self.seed + self.calls), **self.kw)) for n, u in self.t.fields})
        return encode(self.t, self.vals, G(random.Random(self.seed + self.calls), **self.kw))


REG = {}


def regen(k):
    return REG[k]()


class Bounded(dict):
    def __init__(self, n):
        dict.__init__(self)
        self.n = n

    def __setitem__(self, k, v):
        while len(self) >= self.n and k not in self:
            del self[next(iter(self))]
        dict.__setitem__(self, k, v)


class Oblivious(dict):
    """forgets at once (in the documentation: if absolutely no caching is desired)"""
    def __setitem__(self, k, v):
        pass


class Minimal(object):
    """only the three documented methods"""
    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def __len__(self):
        return len(self.d)

    def clear(self):
        self.d.clear()

    def keys(self):
        return self.d.keys()


class Flaky(dict):
    """does not always accept what is put into it"""
    broken = 0

    def __setitem__(self, k, v):
        if self.broken:
            self.broken -= 1
            raise Boom("the cache failed")
        dict.__setitem__(self, k, v)


class Strings(dict):
    """accepts only strings as keys"""
    def __setitem__(self, k, v):
        dict.__setitem__(self, str(k), v)

    def __getitem__(self, k):
        return dict.__getitem__(self, str(k))

    def __delitem__(self, k):
        dict.__delitem__(self, str(k))

    def __contains__(self, k):
        return dict.__contains__(self, str(k))


def typeof(t, vals, seed=1):
    a = encode(t, vals, G(random.Random(seed), pwrap=0.0))
    return awkward0.type.fromarray(a)


class Obj_(object):
    pass


@SUITE.scenario(1500, 30000, watch=False)
def histories(mon):
    rng = mon.rng
    shared = [None, None, {}, Bounded(2), Bounded(1), Oblivious(), Minimal(), Flaky(), Strings()]
    rng.shuffle(shared)
    caches = shared[: rng.choice([1, 2, 3])]
    persistent = {}
    objs = []
    trace = []

    def source(rec):
        g = G(rng)
        t = Rec([("x", Prim("int64")), ("y", Lst(Prim("float64")))][: rng.choice([1, 2])]) if rec else random_type(g, 2, ("prim", "list", "opt", "str"), ["int64", "float64", "bool"])
        vals = [t.gen(g) for _ in range(many(rng, 0, 1, 3, 4))]
        s = Source(t, vals, rng.randrange(1 << 30), pwrap=0.0)
        s.simple = rec
        k = len(REG)
        REG[k] = s
        return k, s

    def new():
        o = Obj_()
        cache = rng.choice(caches)
        pk = None
        if cache is not None and rng.random() < 0.25:
            pk = rng.choice(["one", "two"])
        if pk is None:
            o.rec = rng.random() < 0.4
            o.k, o.s = source(o.rec)
        else:
            if (id(cache), pk) not in persistent:
                persistent[id(cache), pk] = source(False)
            o.rec, (o.k, o.s) = False, persistent[id(cache), pk]
        o.vals = [dict(v) if isinstance(v, dict) else v for v in V.plain(o.s.vals)]
        o.typed = rng.random() < 0.3 and len(o.vals) > 0
        o.v = awkward0.VirtualArray(regen, (o.k,), cache=cache, persistentkey=pk, type=typeof(o.s.t, o.s.vals) if o.typed else None)
        o.cache, o.pk = cache, pk
        o.have = False if pk is None else None     # is the array in memory?
        o.n = 0
        objs.append(o)

    def have(o):
        if o.pk is not None:
            return o.pk in list(o.cache.keys())         # the entry is shared
        if o.have is None or o.cache is None:
            return o.have
        if not o.have:
            return False
        return o.key in o.cache.keys() if isinstance(o.cache, (Minimal,)) else (o.key in o.cache)

    def use(o, f, want, what, needs=True):
        """one use, and what it did"""
        was = have(o)
        calls, failed = o.s.calls, o.s.failed
        keys = set(o.cache.keys()) if o.cache is not None else set()
        flaky = isinstance(o.cache, Flaky) and o.cache.broken
        try:
            got = mon.call(what, f)
        except Boom:
            mon.events["failed"] += 1
            mon.check(o.s.failed == failed + 1 or flaky, "an error without a failure")
            if was is True:
                raise Violation("%s failed although the array was in memory" % what)
            if o.cache is not None:
                mon.check(o.s.failed == failed or set(o.cache.keys()) <= keys, "a failed generator left something in the cache")
            o.have = None
            return
        made = o.s.calls - calls
        if o.s.failed != failed:
            raise Violation("%s swallowed the failure of the generator" % what)
        mon.eq(got, want, what)
        if was is True:
            mon.check(made == 0, lambda: "%s ran the generator %d times although the array was in memory" % (what, made))
            mon.events["served from cache"] += 1
        elif not needs and was is None and isinstance(o.cache, Oblivious):
            pass            # it was in memory until its cache was exchanged for one that forgets
        elif not needs:
            mon.check(made == 0, lambda: "%s ran the generator, but the declared type says it all" % what)
            mon.events["not generated"] += 1
            return
        elif was is False and not isinstance(o.cache, Oblivious):
            mon.check(made == 1, lambda: "%s ran the generator %d times" % (what, made))
            mon.events["generated"] += 1
        elif isinstance(o.cache, Oblivious) and was is None:
            pass
        elif isinstance(o.cache, Oblivious):
            mon.check(made >= 1, lambda: "%s did not run the generator" % what)
            mon.events["generated"] += 1
            o.have = False
            return
        else:
            mon.check(made <= 1, lambda: "%s ran the generator %d times" % (what, made))
        if o.cache is None:
            o.have = True
        elif made:
            added = [k for k in o.cache.keys() if (k not in keys)]
            if len(added) == 1:
                o.key, o.have = added[0], True
            elif o.pk is not None:
                o.key, o.have = o.pk, True
            elif was is False:
                raise Violation("%s did not put the array into the cache" % what)
        elif o.pk is not None:
            o.key, o.have = o.pk, True
        if o.typed is None:
            pass

    new()
    for step in range(rng.randint(4, 16)):
        act = rng.choice(["read"] * 8 + ["len"] * 2 + ["new", "new", "evict", "evict", "evict", "delete", "copy", "deepcopy", "assign", "remove", "fail", "materialize", "cache", "save"])
        if not objs:
            new()
        o = rng.choice(objs)
        trace.append(act)
        mon.say(trace=" ".join(trace), cache=type(o.cache).__name__, pk=o.pk, type=o.s.t.sig(), vals=o.vals)
        n = len(o.vals)
        if act == "read":
            w = rng.randrange(4)
            if w == 0:
                use(o, lambda: tolist(o.v), o.vals, "tolist")
            elif w == 1 and n:
                i = rng.randrange(-n, n)
                use(o, lambda: tolist(o.v[i]), o.vals[i], "getitem")
            elif w == 2:
                s = random_slice(rng, n)
                use(o, lambda: tolist(o.v[s]), o.vals[s], "slice")
            else:
                use(o, lambda: [tolist(x) for x in o.v], o.vals, "iter")
        elif act == "len":
            w = rng.randrange(2)
            if w == 0 or n == 0:
                use(o, lambda: len(o.v), n, "len", needs=not o.typed)
            elif o.typed:
                use(o, lambda: o.v.type.takes, n, "type", needs=False)
        elif act == "new":
            new()
        elif act == "evict":
            if o.cache is not None and len(o.cache):
                if rng.random() < 0.3:
                    o.cache.clear()
                else:
                    k = rng.choice(list(o.cache.keys()))
                    del o.cache[k]
                mon.events["evicted"] += 1
        elif act == "delete":
            objs.remove(o)
            was = have(o)
            cache, key, pk = o.cache, o.pk or getattr(o, "key", None), o.pk
            o.v = q = None
            gc.collect()
            if was and cache is not None:
                there = key in list(cache.keys())
                mon.check(there == (pk is not None), "deleting a virtual array %s its entry in the cache" % ("removed" if pk else "left"))
            mon.events["deleted"] += 1
        elif act in ("copy", "deepcopy"):
            q = Obj_()
            q.__dict__.update(o.__dict__)
            q.__dict__.pop("key", None)
            calls = o.s.calls
            was = have(o)
            try:
                q.v = mon.call(act, lambda: o.v.copy() if act == "copy" else o.v.deepcopy())
            except Boom:
                if not (isinstance(o.cache, Flaky)):
                    raise Violation("%s ran the generator" % act)
                q = None        # (it would keep the original alive)
                continue
            if was is False:
                mon.check(o.s.calls == calls, "%s ran the generator" % act)
            q.vals = [dict(v) if isinstance(v, dict) else v for v in o.vals]
            q.have = None
            objs.append(q)
        elif act == "assign" and o.rec and o.pk is None:
            name = rng.choice(["z", "x", "w"])
            col = [rng.randrange(100) for _ in range(n)]
            was, calls, failed = have(o), o.s.calls, o.s.failed
            flaky = isinstance(o.cache, Flaky) and o.cache.broken
            try:
                mon.call("assign", lambda: o.v.__setitem__(name, numpy.array(col, dtype="int64")))
            except Boom:
                mon.check(o.s.failed > failed or flaky, "an error without a failure")
                o.have = None
                continue
            for v, c in zip(o.vals, col):
                v[name] = c
            o.have = None if o.cache is not None else True
            mon.events["assigned"] += 1
        elif act == "remove" and o.rec and o.pk is None and n and len(o.vals[0]) > 1:
            name = rng.choice(sorted(o.vals[0]))
            failed = o.s.failed
            flaky = isinstance(o.cache, Flaky) and o.cache.broken
            try:
                mon.call("delete", lambda: o.v.__delitem__(name))
            except Boom:
                mon.check(o.s.failed > failed or flaky, "an error without a failure")
                o.have = None
                continue
            for v in o.vals:
                del v[name]
            o.have = None if o.cache is not None else True
            mon.events["removed"] += 1
        elif act == "fail":
            if isinstance(o.cache, Flaky) and rng.random() < 0.5:
                o.cache.broken = rng.choice([1, 1, 2])
            else:
                o.s.fail = rng.choice([1, 1, 2])
        elif act == "materialize":
            if have(o) is not True:
                use(o, lambda: tolist(o.v.materialize()), o.vals, "materialize")
        elif act == "cache" and o.pk is None:
            if o.cache is not None:
                o.cache.clear()         # nothing of an older version, or of a former array, may be left behind
            o.cache = rng.choice(caches)
            if o.cache is not None:
                o.cache.clear()
            o.v.cache = o.cache
            o.have = None
        elif act == "save":
            if o.s.fail or isinstance(o.cache, Flaky):
                continue
            calls = o.s.calls
            storage = {}
            keep = rng.random() < 0.7
            o.v.persistvirtual = keep
            mon.call("serialize", lambda: awkward0.persist.serialize(o.v, storage, "name"))
            if keep:
                mon.check(o.s.calls == calls, "saving ran the generator")
            elif o.cache is not None:
                o.have = None
            else:
                o.have = True
            b = mon.call("deserialize", lambda: awkward0.persist.deserialize(storage, "name", whitelist=awkward0.persist.whitelist + [["checks.p17", "regen"], ["builtins", "str"]]))
            if keep:
                mon.check(o.s.calls == calls, "loading ran the generator")
            mon.eq(b, o.vals, "saved and loaded")
            mon.events["saved"] += 1
        if act in ("materialize", "read") and o.cache is None and o.have is True:
            mon.check(o.v.ismaterialized is True, "ismaterialized is wrong")
        elif o.have is False and o.pk is None and act == "len":
            mon.check(o.v.ismaterialized is False, "ismaterialized is wrong")
    # in the end all show their values
    for o in objs:
        o.s.fail = 0
        if isinstance(o.cache, Flaky):
            o.cache.broken = 0
    for o in objs:
        mon.eq(mon.call("finally", lambda: tolist(o.v)), o.vals, "in the end")
    REG.clear()


@SUITE.scenario(2500, 40000)
def lazy(mon):
    """only what is needed is generated"""
    rng = mon.rng
    g = G(rng)
    n = rng.choice([1, 2, 4, 6])
    cols = ["x", "y", "z"][: rng.choice([2, 3])]
    kind = rng.choice(["table", "table", "chunked", "nested"])

    def make(t, vals):
        s = Source(t, vals, rng.randrange(1 << 30), pwrap=rng.choice([0.0, 0.3]), wrap=set(["indexed", "chunked"]), sparse=False)
        s.cache = rng.choice([None, None, {}, Bounded(1)])
        s.v = awkward0.VirtualArray(s, type=awkward0.type.ArrayType(len(vals), typeof(t, vals).to), cache=s.cache)
        return s
    kinds = ("prim", "list", "opt", "str")
    if kind in ("table", "nested"):
        ss = []
        for c in cols:
            t = random_type(g, 2, kinds, ["int64", "float64", "bool"])
            ss.append(make(t, [t.gen(g) for _ in range(n)]))
        a = awkward0.Table((c, s.v) for c, s in zip(cols, ss)) if False else awkward0.Table(**{c: s.v for c, s in zip(cols, ss)})
        rows = list(range(n))
        if kind == "nested":
            counts = []
            left = n
            while left:
                k = rng.randint(0, left)
                counts.append(k)
                left -= k
            a = mon.call("nest", lambda: awkward0.JaggedArray.fromcounts(counts, a))
        mon.say(kind=kind, types=[s.t.sig() for s in ss], n=n)
        mon.check(mon.call("columns", lambda: a.columns) == cols, "columns")
        mon.call("copy", lambda: a.copy())
        mon.check(len(a) == (n if kind == "table" else len(counts)), "len")
        if kind == "table":
            for _ in range(rng.randint(0, 3)):
                w = random_where(rng, len(rows))
                a = mon.call("rows", lambda: a[w])
                rows = take(rows, w)
            mon.check(len(a) == len(rows), "len of rows")
            if rows:
                mon.call("repr", lambda: (repr(a[0]), str(a[0])))
        mon.check(all(s.calls == 0 for s in ss), lambda: "selecting rows ran the generators %s times" % [s.calls for s in ss])
        mon.events["not generated"] += len(ss)
        i = rng.randrange(len(cols))
        got = mon.call("column", lambda: tolist(a[cols[i]]))
        want = [V.plain(ss[i].vals[r]) for r in rows]
        if kind == "nested":
            p = [0]
            for k in counts:
                p.append(p[-1] + k)
            want = [want[b:e] for b, e in zip(p[:-1], p[1:])]
        mon.eq(got, want, "the column")
        mon.check([s.calls for s in ss] == [int(j == i and len(rows) > 0) for j in range(len(ss))] or len(rows) == 0 and sum(s.calls for j, s in enumerate(ss) if j != i) == 0 and ss[i].calls <= 1,
                  lambda: "column %s ran the generators %s times" % (cols[i], [s.calls for s in ss]))
        mon.events["generated"] += 1
        j = rng.randrange(len(cols))
        sub = mon.call("columns", lambda: a[[cols[j]]])
        mon.check(all(s.calls == 0 for k, s in enumerate(ss) if k not in (i, j)), "selecting columns ran other generators")
    else:
        t = random_type(g, 2, kinds, ["int64", "float64", "bool"])
        sizes = [rng.choice([0, 1, 2, 3]) for _ in range(rng.randint(1, 4))]
        parts = [[t.gen(g) for _ in range(k)] for k in sizes]
        vals = V.plain([v for p in parts for v in p])
        ss = [make(t, p) for p in parts]
        a = awkward0.ChunkedArray([s.v for s in ss], chunksizes=sizes)
        mon.say(kind=kind, type=t.sig(), sizes=sizes, vals=vals)
        mon.check(len(a) == len(vals), "len")
        mon.check(all(s.calls == 0 for s in ss), "making a chunked array with known sizes ran a generator")
        mon.events["not generated"] += len(ss)
        if vals:
            i = rng.randrange(-len(vals), len(vals))
            mon.eq(mon.call("getitem", lambda: tolist(a[i])), vals[i], "the item")
            c, j = 0, i % len(vals)
            while j >= sizes[c]:
                j -= sizes[c]
                c += 1
            mon.check([s.calls for s in ss] == [int(k == c) for k in range(len(ss))], lambda: "item %d is in chunk %d, but the generators ran %s times" % (i, c, [s.calls for s in ss]))
            mon.events["generated"] += 1
        mon.eq(mon.call("tolist", lambda: tolist(a)), vals, "all")


@SUITE.scenario(5000, 80000)
def transparent(mon):
    """what an operation gives for the array, it gives for the virtual array"""
    rng = mon.rng
    g0 = G(rng)
    t = random_type(g0, 3)
    vals = [t.gen(g0) for _ in range(many(rng, 0, 1, 3, 6))]
    g = mon.G(pwrap=rng.choice([0.0, 0.2]))
    g.longcols = False          # how much of a column is shown depends on what is known of the other columns
    a = encode(t, vals, g)
    depth = rng.choice([1, 1, 2])
    mon.say(type=t.sig(), vals=V.plain(vals))

    def virtual():
        v = a
        for _ in range(depth):
            v = awkward0.VirtualArray(lambda x=v: x, cache=rng.choice([None, {}]), type=awkward0.type.fromarray(a) if len(vals) and rng.random() < 0.2 else None)
        return v
    n = len(vals)
    ops = list(USES) + [lambda x, w=random_where(rng, n): x[w], lambda x, w=random_slice(rng, n): x[w], lambda x: x[:, ::-1], lambda x: x[..., 0],
                        lambda x: x[rng.randrange(-n, n)] if n else None, lambda x: x.tolist(), lambda x: len(x), lambda x: x.shape, lambda x: x.dtype,
                        lambda x: x + x, lambda x: x["x"], lambda x: x[["x", "y"]], lambda x: x.columns, lambda x: a + x, lambda x: numpy.sqrt(x),
                        lambda x: x.min(), lambda x: x.count(), lambda x: x.count_nonzero(), lambda x: x.mean(), lambda x: x[n], lambda x: x == a,
                        lambda x: awkward0.IndexedArray(list(range(n))[::-1], x).tolist(), lambda x: awkward0.MaskedArray([True] * n, x).tolist(),
                        lambda x: awkward0.JaggedArray([0], [n], x).tolist(), lambda x: awkward0.Table(x=x).tolist(), lambda x: x.concatenate([a])]
    skip = ("iscompact", "isunmasked", "starts", "stops", "offsets", "content", "mask", "index", "tags", "dense", "compact", "bool2index", "parents", "serialize", "boolmask", "argsort", "deepcopy")
    ops = [o for o in ops if not set(o.__code__.co_names) & set(skip)]
    for op in rng.sample(ops, 6):
        out = []
        state = rng.getstate()
        for x in (a, virtual()):
            rng.setstate(state)
            try:
                r = op(x)
                out.append(meaning(r) if isinstance(r, ARRAYLIKE + (list, tuple, dict)) else repr(r))
            except Exception as err:
                out.append("raised")
        mon.events["transparent"] += 1
        mon.desc["op"] = "%s %s" % (op.__code__.co_names, op.__code__.co_consts)
        if isinstance(out[0], str) and isinstance(out[1], str) and " at 0x" in out[0]:
            continue
        if isinstance(a, numpy.ndarray) and (out[0] == "raised" or isinstance(out[0], str)):
            continue            # Numpy arrays do not have these methods
        if isinstance(a, (numpy.ndarray, awkward0.UnionArray)) and set(op.__code__.co_names) & set(["dtype", "flatten"]):
            continue            # Numpy flattens all dimensions
        if isinstance(a, numpy.ndarray) and out[1] == "raised":
            raise Violation("not for virtual arrays")
        d = V.same(out[1], out[0])
        if d is not None:
            raise Violation("a virtual array gives another answer: %s" % d)


@SUITE.scenario(1500, 20000)
def wrong_types(mon):
    """a generator that makes something else than declared"""
    rng = mon.rng
    g = G(rng)
    kinds = ("prim", "list", "opt", "str", "rec")
    t = random_type(g, 2, kinds, ["int64", "float64", "bool"])
    vals = [t.gen(g) for _ in range(many(rng, 1, 2, 4))]
    how = rng.choice(["type", "length"])
    if how == "type":
        u = random_type(g, 2, kinds, ["int64", "float64", "bool"])
        declared = typeof(u, [u.gen(g) for _ in range(len(vals))])
    else:
        declared = awkward0.type.ArrayType(len(vals) + rng.choice([-1, 1, 5]), typeof(t, vals).to)
    s = Source(t, vals, rng.randrange(1 << 30), pwrap=0.0)
    mon.say(type=t.sig(), declared=str(declared))
    if how == "type" and u.sig().replace("?", "") == t.sig().replace("?", ""):
        raise Skip("the same")
    cache = rng.choice([None, {}])
    v = awkward0.VirtualArray(s, type=declared, cache=cache)
    mon.check(v.type is declared or v.type == declared, "the declared type is not shown")
    for _ in range(2):
        mon.raises("wrong type", lambda: v[rng.choice([0, -1])] if rng.random() < 0.5 else v.tolist(), kinds=(TypeError,))
    mon.check(not cache, "an array of the wrong type was put into the cache")
    v.type = None
    mon.eq(mon.call("tolist", lambda: v.tolist()), vals, "without declaring a type")
