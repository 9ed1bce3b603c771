"""P16: operations never change their inputs.

The workloads are those of the other suites; the monitor takes the bytes of
every buffer that can be reached from the operands of every operation, and the
values that the operands show, before and after it.
"""
import importlib
import os

import numpy
import awkward0
from akmon.monitor import Suite, freeze, thawed, meaning, Violation, Skip
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V

SUITE = Suite("P16")
SUITE.watch, SUITE.judge = True, False
SUITE.needs = {"watched": 30000, "buffers": 100000, "operands": 20000}
SUITE.assumptions = ["buffers are found by following attributes, lists, dicts and closures from the operands"]


def others(suite, skip, quick, thorough, wrap, only=None):
    """the scenarios of the other suites, under another monitor"""
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        name = f[:-3]
        if not (f.startswith("p") and f.endswith(".py")) or name in skip or (only and name not in only):
            continue
        mod = importlib.import_module("checks." + name)
        for sc in mod.SUITE.scenarios:
            if not sc.watchable:
                continue

            def run(mon, sc=sc):
                wrap(mon, sc)

            run.__name__ = "%s_%s" % (name, sc.name)
            suite.scenario(max(60, int(sc.quick * quick)), max(600, int(sc.quick * thorough)))(run)


others(SUITE, ("p16", "p26", "p27", "p13", "p17", "p21"), 0.09, 2.0, lambda mon, sc: sc.fn(mon))


def raw(rng, n, kind="any"):
    return numpy.array([rng.randint(0, 9) for _ in range(n)], dtype=rng.choice(["int64", "int32", "float64"]))


@SUITE.scenario(2500, 40000)
def constructors(mon):
    """the buffers (or lists) given to a constructor are only read"""
    rng = mon.rng
    A = awkward0
    n = rng.randint(0, 6)
    counts = [rng.randint(0, 3) for _ in range(n)]
    content = raw(rng, sum(counts) + rng.randint(0, 2))
    offsets = [0]
    for c in counts:
        offsets.append(offsets[-1] + c)
    small = rng.choice(["int64", "int32", "uint8", "int8"])
    arr = lambda x, d=None: numpy.array(x, dtype=d or small)
    k = rng.randrange(16)
    if k == 0:
        buf = [arr(offsets), content]
        f = lambda: A.JaggedArray.fromoffsets(*buf)
    elif k == 1:
        buf = [arr(counts), content]
        f = lambda: A.JaggedArray.fromcounts(*buf)
    elif k == 2:
        buf = [arr(offsets[:-1]), arr(offsets[1:]), content]
        f = lambda: A.JaggedArray(*buf)
    elif k == 3:
        parents = [i for i, c in enumerate(counts) for _ in range(c)]
        buf = [arr(parents), content[:len(parents)].copy()]
        f = lambda: A.JaggedArray.fromparents(*buf)
    elif k == 4:
        uniques = [i * 2 for i, c in enumerate(counts) for _ in range(c)]
        buf = [arr(uniques), content[:len(uniques)].copy()]
        f = lambda: A.JaggedArray.fromuniques(*buf)
    elif k == 5:
        buf = [[[1.5, 2.5], [], None], content]
        f = lambda: A.JaggedArray.fromiter([list(range(c)) for c in counts])
    elif k == 6:
        buf = [arr([rng.random() < 0.5 for _ in content], bool), content]
        f = lambda: A.MaskedArray(*buf, maskedwhen=rng.random() < 0.5)
    elif k == 7:
        buf = [arr([rng.randint(0, 255) for _ in range(len(content) // 8 + 1)], "uint8"), content]
        f = lambda: A.BitMaskedArray(*buf, maskedwhen=rng.random() < 0.5, lsborder=rng.random() < 0.5)
    elif k == 8:
        buf = [arr([rng.randint(-1, len(content) - 1) for _ in range(n)], rng.choice(["int64", "int8"])), content]
        f = lambda: A.IndexedMaskedArray(*buf)
    elif k == 9:
        if not len(content):
            raise Skip()
        buf = [arr([rng.randrange(len(content)) for _ in range(n)]), content]
        f = lambda: A.IndexedArray(*buf)
    elif k == 10:
        index = sorted(rng.sample(range(20), min(len(content), 6)))
        buf = [arr(index), content[:len(index)].copy()]
        f = lambda: A.SparseArray(20, *buf)
    elif k == 11:
        tags = [rng.randint(0, 1) for _ in range(len(content))]
        if not tags:
            raise Skip()
        buf = [arr(tags, rng.choice(["uint8", "int64"])), content, content * 1.5]
        f = (lambda: A.UnionArray.fromtags(buf[0], [buf[1], buf[2]])) if rng.random() < 0.5 else (lambda: A.UnionArray(buf[0], numpy.arange(len(tags)), [buf[1], buf[2]]))
    elif k == 12:
        chunks = [raw(rng, rng.randint(0, 3)).astype("int64") for _ in range(n)]
        sizes = [len(x) for x in chunks][:rng.randint(0, n)]
        buf = [chunks, sizes]
        f = lambda: A.ChunkedArray(chunks, sizes)
    elif k == 13:
        buf = [content, content[::-1]]
        cols = {"x": content, "y": list(content)}
        buf.append(cols)
        f = lambda: A.Table(cols, z=content)
    elif k == 14:
        data = [g.string() for g in [mon.G()] for _ in range(n)]
        buf = [data]
        f = lambda: A.StringArray.fromiter(data)
    else:
        g = mon.G()
        t = random_type(g, 2, ("prim", "list", "opt", "rec", "str"))
        data = [V.plain(t.gen(g)) for _ in range(n)]
        buf = [data]
        f = lambda: A.fromiter(data)
    for b in buf:
        if isinstance(b, numpy.ndarray) and rng.random() < 0.3:
            b.flags.writeable = False
    mon.say(kind=k, buf=buf)
    shown = [meaning(b) for b in buf]
    snap = freeze(buf)
    out = f()
    for op in rng.sample(USES, 4):
        try:
            op(out)
        except Exception:
            pass
    mon.events["watched"] += 1
    changed = thawed(snap)
    if changed is not None:
        raise Violation("constructing and using an array modified the arrays it was made of: %s" % changed)
    for b, s in zip(buf, shown):
        d = V.same(meaning(b), s)
        if d is not None:
            raise Violation("constructing and using an array changed what it was made of: %s" % d)


USES = [lambda a: a.tolist(), lambda a: a.type, lambda a: a[::-1].tolist(), lambda a: a[[0, -1]].tolist(), lambda a: a[a > 2].tolist(),
        lambda a: (a + 1).tolist(), lambda a: a.sum(), lambda a: a.argmax(), lambda a: a.max(), lambda a: a.flatten(), lambda a: a.pad(2).tolist(),
        lambda a: a.fillna(5), lambda a: a.counts, lambda a: a.parents, lambda a: a.index, lambda a: a.compact(), lambda a: a.dense,
        lambda a: a.boolmask(), lambda a: a.pairs(), lambda a: a.concatenate([a]).tolist(), lambda a: a.astype("float32"), lambda a: numpy.array(a),
        lambda a: a.argsort(), lambda a: numpy.sqrt(a), lambda a: a.regular(), lambda a: awkward0.toarrow(a), lambda a: awkward0.persist.serialize(a, {}),
        lambda a: a.choose(2), lambda a: a.zeros_like(), lambda a: a.ones_like(), lambda a: a.deepcopy(), lambda a: a.any(), lambda a: a.prod(),
        lambda a: a.cross(a), lambda a: a.distincts(), lambda a: a[:, :1], lambda a: a[:, 0], lambda a: a[a.argmax()], lambda a: a * a.counts,
        lambda a: a.dropna(), lambda a: a.isunmasked, lambda a: a.bool2index, lambda a: a == a, lambda a: -a, lambda a: a.unzip()]
