"""Runtime monitors that watch the real library while a workload drives it.

Mon is handed to every scenario.  A scenario generates inputs whose meaning it
knows, drives the library through mon.call(...), and lets an oracle judge what
came back with mon.eq(...)/mon.check(...).  Around every mon.call the monitor
can also watch the buffers reachable from the inputs (see P16).
"""
import collections
import random
import re
import types

import numpy

import awkward0
import awkward0.array.base
from akmon import values as V

AwkwardArray = awkward0.array.base.AwkwardArray


class Violation(Exception):
    pass


class Skip(Exception):
    """the generated case is outside the stated domain"""


def reach(obj, out=None, seen=None, depth=0):
    """every ndarray reachable from obj (through any attribute), and its bases"""
    if out is None:
        out, seen = [], set()
    if id(obj) in seen or depth > 60:
        return out
    if isinstance(obj, numpy.ndarray):
        seen.add(id(obj))
        out.append(obj)
        if obj.dtype.kind == "O":
            for x in obj.ravel():
                reach(x, out, seen, depth + 1)
        if isinstance(obj.base, numpy.ndarray):
            reach(obj.base, out, seen, depth + 1)
    elif isinstance(obj, (list, tuple)):
        seen.add(id(obj))
        for x in obj:
            reach(x, out, seen, depth + 1)
    elif isinstance(obj, dict):
        seen.add(id(obj))
        for x in list(obj.values()):
            reach(x, out, seen, depth + 1)
    elif isinstance(obj, awkward0.Table.Row):
        seen.add(id(obj))
        reach(obj._table, out, seen, depth + 1)
    elif isinstance(obj, AwkwardArray):
        seen.add(id(obj))
        for x in list(obj.__dict__.values()):
            reach(x, out, seen, depth + 1)
    elif isinstance(obj, types.FunctionType):
        seen.add(id(obj))
        for x in captured(obj):
            reach(x, out, seen, depth + 1)
    elif isinstance(obj, slice):
        pass
    return out


ARRAYLIKE = (AwkwardArray, awkward0.Table.Row, numpy.ndarray)


def captured(f):
    """what a function has in its closure"""
    out = []
    for cell in getattr(f, "__closure__", None) or ():
        try:
            out.append(cell.cell_contents)
        except ValueError:
            pass
    return out


def operands(f, inputs):
    """everything that an operation was given: arrays, and Python lists and dicts"""
    out, seen = [], set()

    def add(x, depth):
        if id(x) in seen or depth > 3:
            return
        seen.add(id(x))
        if isinstance(x, ARRAYLIKE + (list, tuple, dict)):
            out.append(x)
        elif isinstance(x, types.FunctionType):
            for y in captured(x):
                add(y, depth + 1)

    for x in inputs:
        add(x, 0)
    for x in captured(f):
        add(x, 0)
    return out


def meaning(x):
    """the values that an operand shows now"""
    try:
        if isinstance(x, numpy.ndarray) and x.dtype == numpy.dtype(object):
            return [meaning(y) if isinstance(y, ARRAYLIKE + (list, tuple, dict)) else repr(y) for y in x.reshape(-1)]
        if isinstance(x, ARRAYLIKE):
            return tolist(x)
        return repr(x) if len(x) < 200 and not any(isinstance(y, ARRAYLIKE + (list, tuple, dict)) for y in (x.values() if isinstance(x, dict) else x)) else [meaning(y) if isinstance(y, ARRAYLIKE + (list, tuple, dict)) else repr(y) for y in (x.values() if isinstance(x, dict) else x)]
    except Exception as err:
        return "unreadable: %s" % type(err).__name__


def observe(x, rng):
    """look at an array in some way; the way must not matter"""
    looks = [lambda: x.type, lambda: len(x), lambda: repr(x), lambda: str(x), lambda: x.tolist(), lambda: x.dtype, lambda: x.shape,
             lambda: x.nbytes, lambda: x.columns, lambda: x.valid(), lambda: list(x), lambda: x[0], lambda: x[-1], lambda: x[:0],
             lambda: x[1:], lambda: x[::-1], lambda: x.counts, lambda: x.offsets, lambda: x.parents, lambda: x.starts, lambda: x.stops,
             lambda: x.index, lambda: x.flatten(), lambda: x.compact(), lambda: x.copy(), lambda: x.deepcopy(), lambda: x.sum(),
             lambda: x + 1, lambda: x == x, lambda: x.boolmask(), lambda: x.isunmasked, lambda: x.mask, lambda: x.layout,
             lambda: x.localindex, lambda: x.iscompact, lambda: x.regular(), lambda: x.pad(2), lambda: x.dropna(), lambda: x.argmax(),
             lambda: x.chunksizes, lambda: x.offsets, lambda: x.knowchunksizes(), lambda: x.materialize(), lambda: x.ismaterialized,
             lambda: x[len(x) + 5], lambda: x["nothing"], lambda: x.nothing, lambda: x[1.5], lambda: x + "wrong", lambda: hash(x.type),
             lambda: x.concatenate([x]), lambda: x.zeros_like(), lambda: x.tags, lambda: x.isvalid, lambda: x.jagged, lambda: x.unzip(),
             lambda: awkward0.persist.serialize(x, {}), lambda: awkward0.toarrow(x), lambda: dir(x), lambda: x.dense, lambda: x.stack]
    done = 0
    for look in rng.sample(looks, 6):
        try:
            look()
            done += 1
        except Exception:
            pass
    return done


def freeze(objs):
    return [(a, a.dtype, a.shape, a.tobytes() if a.dtype.kind != "O" else list(map(id, a.ravel()))) for a in reach(list(objs))]


def thawed(snap):
    """None, or what changed since the snapshot was taken"""
    for a, dt, sh, b in snap:
        if a.dtype != dt or a.shape != sh:
            return "a buffer changed from %s%s to %s%s" % (dt, sh, a.dtype, a.shape)
        now = a.tobytes() if a.dtype.kind != "O" else list(map(id, a.ravel()))
        if now != b:
            return "a buffer of type %s%s was overwritten" % (dt, sh)
    return None


def tolist(x):
    if isinstance(x, awkward0.Table.Row):
        return x.tolist()
    if isinstance(x, (AwkwardArray, numpy.ndarray, numpy.generic)):
        if isinstance(x, numpy.ma.core.MaskedConstant):
            return None
        return x.tolist()
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[tolist(y) for y in x])
    if isinstance(x, (list, tuple)):
        return type(x)(tolist(y) for y in x)
    return x


# operations that are there to change an array, or a file
ONESHOT = ("fromiter iterator", "fromiter generator", "toparquet iter", "del ", "put", "empty_like")     # cannot be done twice
MUTATING = ("assign", "delete", "append", "extend", "save", "materialize")


class Mon(object):
    def __init__(self, rng, scenario="", watch=False, judge=True):
        self.again = False
        self.around = None         # another way of calling operations (see P27)
        self.rng = rng
        self.scenario = scenario
        self.events = collections.Counter()      # observed events by kind
        self.sigs = set()                        # distinct (op, layout) combinations
        self.desc = {}                           # what the case was, for the replay file
        self.watch = watch
        self.judge = judge
        self.gs = []

    # ---- generation helpers

    def G(self, **kw):
        from akmon.layouts import G
        g = G(self.rng, **kw)
        self.gs.append(g)
        return g

    def say(self, **kw):
        for n, x in kw.items():
            self.desc[n] = V.short(x, 1500)
            if n == "trace":        # the history of operations so far
                self.sigs.add((self.scenario, re.sub("[0-9.]+", "#", x)[-300:]))

    def layout(self):
        return "/".join(x for g in self.gs for x in g.sig)

    # ---- events

    def call(self, op, f, *inputs):
        self.events["op:" + op] += 1
        self.sigs.add((self.scenario, op, self.layout()[:200]))
        self.desc["op"] = op
        if self.around is not None:
            return self.around(op, f, inputs)
        if not (self.watch or self.again) or op.startswith(MUTATING) or (self.again and op.startswith(ONESHOT)):
            return f()
        return self.watched(op, f, inputs) if self.watch else self.repeated(op, f, inputs)

    def watched(self, op, f, inputs):
        """P16: do the operands show the same values, from the same bytes, after the operation?"""
        objs = [x for x in operands(f, inputs) if not (isinstance(x, dict) and op.startswith("serialize"))]     # storage is to be written
        look = random.Random(self.events["watched"] + 1000 * len(objs)).random() < 0.6
        before = [meaning(x) for x in objs] if look else None
        snap = freeze(objs)
        try:
            return f()
        finally:
            self.events["watched"] += 1
            self.events["buffers"] += len(snap)
            changed = thawed(snap)
            if changed is not None:
                raise Violation("%s modified its input: %s" % (op, changed))
            if look:
                self.events["operands"] += len(objs)
                for x, v in zip(objs, before):
                    d = V.same(meaning(x), v)
                    if d is not None:
                        raise Violation("%s changed what its operand shows: %s" % (op, d))

    def repeated(self, op, f, inputs):
        """P26: is the answer the same after other observations?"""
        state = self.rng.getstate()
        rng = random.Random(self.events["repeated"])

        def attempt():
            self.rng.setstate(state)
            try:
                out = f()
            except (Violation, Skip):
                raise
            except Exception as err:
                return None, err, type(err).__name__
            return out, None, meaning(out) if isinstance(out, ARRAYLIKE + (list, tuple, dict)) else repr(out) if isinstance(out, (bool, int, float, str, bytes, numpy.generic, type(None))) else "other"

        out, err, first = attempt()
        for _ in range(2):
            for x in operands(f, inputs):
                if isinstance(x, AwkwardArray):
                    self.events["observations"] += observe(x, rng)
            out2, err2, second = attempt()
            self.events["repeated"] += 1
            d = V.same(second, first)
            if d is not None:
                raise Violation("%s gives another answer after its operands were looked at: %s" % (op, d))
        if err2 is not None:
            raise err2
        return out2

    def raises(self, op, f, *inputs, **kw):
        """the call must be rejected with an ordinary exception"""
        kinds = kw.get("kinds", (ValueError, TypeError, IndexError))
        try:
            out = self.call(op, f, *inputs)
        except kinds as err:
            self.events["rejected"] += 1
            return err
        if self.judge:
            raise Violation("%s was accepted and returned %s" % (op, V.short(tolist(out))))

    # ---- oracles

    def check(self, ok, msg):
        self.events["oracle"] += 1
        if self.judge and not ok:
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, got, want, what="", exact=True, rtol=0.0, atol=0.0):
        self.events["oracle"] += 1
        if not self.judge:
            return
        d = V.same(tolist(got), V.plain(want), exact, rtol, atol)
        if d is not None:
            raise Violation("%s%s" % (what + ": " if what else "", d))


# -------------------------------------------------------------- registration

class Scenario(object):
    def __init__(self, name, fn, quick, thorough, watchable):
        self.name, self.fn, self.quick, self.thorough, self.watchable = name, fn, quick, thorough, watchable


class Suite(object):
    def __init__(self, property):
        self.property = property
        self.scenarios = []
        self.known = []            # (key, fn): fn() returns a description while the finding is still there

    def scenario(self, quick, thorough=None, watch=True):
        def deco(fn):
            self.scenarios.append(Scenario(fn.__name__, fn, quick, thorough or quick * 12, watch))
            return fn
        return deco

    def finding(self, key):
        def deco(fn):
            self.known.append((key, fn))
            return fn
        return deco
