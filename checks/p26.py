"""P26: earlier observations do not change later answers.

Every operation of the other suites is done, then its operands are observed in
random ways (including ways that fail), and it is done again: the answer has
to be the same.  The histories scenario compares an array that was observed
with a twin, made of the same buffers, that was not.
"""
import random

import numpy
import awkward0
from akmon.monitor import Suite, observe, meaning, Violation, Skip, tolist
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V
from checks.p16 import others, USES

SUITE = Suite("P26")
SUITE.judge = False
SUITE.needs = {"repeated": 30000, "observations": 40000, "twins": 5000}


def again(mon, sc):
    mon.again = True
    sc.fn(mon)


others(SUITE, ("p16", "p26", "p27", "p13", "p17", "p21", "p18"), 0.04, 1.0, again)


def twins(mon, t, vals, **kw):
    """the same array twice, without any shared state"""
    seed = mon.rng.randrange(1 << 40)

    def make():
        g = G(random.Random(seed), **kw)
        g.longcols = False          # how much of a column is shown depends on what is known of the other columns
        a = encode(t, vals, g)
        return a, g
    a, g = make()
    b, _ = make()
    mon.gs.append(g)
    return a, b


@SUITE.scenario(5000, 100000)
def histories(mon):
    rng = mon.rng
    wrap = set(["indexed", "chunked", "virtual", "sparse", "appendable"])
    g0 = G(rng)
    t = random_type(g0, 3)
    vals = [t.gen(g0) for _ in range(many(rng, 0, 1, 3, 6))]
    a, b = twins(mon, t, vals, pwrap=rng.choice([0.0, 0.2, 0.5]), wrapdepth=2, wrap=wrap, anywhen=True, unsigned=True)
    mon.say(type=t.sig(), vals=V.plain(vals))
    seen = 0
    for _ in range(rng.randint(1, 3)):
        seen += observe(a, rng)
    mon.events["observations"] += seen
    n = len(vals)
    ops = list(USES) + [lambda x, w=random_where(rng, n): x[w], lambda x, w=random_slice(rng, n): x[w],
                        lambda x: x[rng.randrange(-n, n)] if n else None, lambda x: x.type, lambda x: x.tolist(), lambda x: len(x),
                        lambda x: x + x, lambda x: x["x"], lambda x: x[["x", "y"]], lambda x: x.columns, lambda x: x.nbytes and None,
                        lambda x: x.valid(), lambda x: str(x), lambda x: x.shape, lambda x: x.dtype, lambda x: x.min(), lambda x: x.count()]
    for op in rng.sample(ops, 4):
        out = []
        state = rng.getstate()
        for x in (a, b):
            rng.setstate(state)
            try:
                r = op(x)
                out.append(meaning(r) if isinstance(r, (numpy.ndarray, awkward0.array.base.AwkwardArray, awkward0.Table.Row, list, tuple, dict)) else repr(r))
            except Exception as err:
                out.append("raised %s" % type(err).__name__)
        mon.events["twins"] += 1
        if isinstance(out[0], str) and isinstance(out[1], str) and " at 0x" in out[0]:
            continue
        d = V.same(out[0], out[1])
        if d is not None:
            raise Violation("an array that was looked at gives another answer: %s" % d)
    # and the twin has not changed, either
    d = V.same(meaning(a), meaning(b))
    if d is not None:
        raise Violation("the array that was looked at shows other values: %s" % d)
