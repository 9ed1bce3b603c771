"""P13: loading refuses functions outside of the whitelist."""
import base64
import copy
import fnmatch
import io
import json
import pickle
import sys
import types
import zipfile

import numpy
import awkward0
from akmon.monitor import Suite, tolist, Skip
from akmon.layouts import *
from akmon.ops import *
from akmon import values as V
from checks.p12 import unlambda, LEAVES

SUITE = Suite("P13")
SUITE.needs = {"refused": 5000, "admitted function seen": 1500}
SUITE.assumptions = ["a pattern admits every function below what it names (the documented default list relies on that), but special attributes (__x__) only where the pattern itself names or globs them, unless the whitelist is '*'"]
P = awkward0.persist

# ------------------------------------------------------------------- the monitor

LOG = []          # every function of the trap modules that was looked up, imported or called


class Trap(types.ModuleType):
    """a module that records what is looked up in it"""

    def __getattribute__(self, name):
        if not name.startswith("__"):
            LOG.append(("lookup", types.ModuleType.__getattribute__(self, "__name__"), name))
        return types.ModuleType.__getattribute__(self, name)


class Finder(object):
    """makes trap modules on import, and records that they were imported"""

    NAMES = ("trapmod", "trapmod.sub", "trapmod.sub.deep", "trap_other", "zlib_evil", "awkward0_evil", "numpyx")

    def find_spec(self, name, path=None, target=None):
        if name in self.NAMES:
            import importlib.machinery
            LOG.append(("import", name, None))
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return Trap(spec.name)

    def exec_module(self, module):
        name = module.__name__
        for f in ("fire", "fireArray", "loads", "decompress", "frombuffer", "from_bytes"):
            module.__dict__[f] = firing(name, f)
        module.__dict__["Thing"] = type("Thing", (object,), {"make": staticmethod(firing(name, "Thing.make")), "__module__": name, "__init__": firing_init(name)})


def firing(mod, fn):
    def fire(*args, **kwargs):
        LOG.append(("call", mod, fn))
        return numpy.array([1, 2, 3])
    fire.__module__, fire.__qualname__ = mod, fn
    return fire


def firing_init(mod):
    def __init__(self, *args, **kwargs):
        LOG.append(("call", mod, "Thing"))
    return __init__


sys.meta_path.insert(0, Finder())


def reset():
    for n in Finder.NAMES:
        sys.modules.pop(n, None)
    del LOG[:]


class Payload(object):
    def __reduce__(self):
        import importlib
        return (eval, ("__import__('trapmod').fire('unpickled')",))


# -------------------------------------------------------------------- the oracle

def admitted(spec, white):
    """does an entry of the whitelist admit this function?"""
    if isinstance(white, str):
        white = [[white]]
    elif len(white) > 0 and isinstance(white[0], str):
        white = [white]
    for w in white:
        if len(spec) >= len(w) and all(fnmatch.fnmatchcase(n, p) for n, p in zip(spec, w)):
            if w == ["*"] or not any(n.startswith("__") for n in spec[len(w):]):
                return True
    return False


LIBRARY = [["awkward0", "*Array"], ["awkward0", "Table"], ["awkward0", "numpy", "frombuffer"], ["awkward0.persist", "json2type"], ["akmon.layouts"], ["zlib", "decompress"]]
SPECS = [["trapmod", "fire"], ["trapmod", "loads"], ["trapmod", "fireArray"], ["trapmod", "Thing"], ["trapmod", "Thing", "make"], ["trapmod.sub", "fire"],
         ["trapmod.sub.deep", "frombuffer"], ["trap_other", "fire"], ["zlib_evil", "decompress"], ["awkward0_evil", "fireArray"], ["numpyx", "frombuffer"], ["trapmod.sub", "from_bytes"]]
PATTERNS = [["trapmod", "fire"], ["trapmod", "fire*"], ["trapmod", "*Array"], ["trapmod.*"], ["trapmod"], ["trapmod", "Thing"], ["trapmod", "Thing", "make"], ["trapmod", "Thing", "m*"],
            ["trapmod", "Thing", "other"], ["trap?other", "fire"], ["trap[_]other"], ["*", "decompress"], ["trapmod.sub", "f*"], ["trapmod.sub.deep", "fire"], ["Trapmod", "fire"], ["trapmo", "fire"],
            ["trapmod.sub*", "*"], ["trapmod", "loads", "again"], ["numpy", "frombuffer"], ["zlib", "decompress"]]


def make(mon):
    g = mon.G(unsigned=True, pwrap=mon.rng.choice([0.0, 0.3]), wrapdepth=2, wrap=set(["indexed", "chunked", "appendable"]))
    t = random_type(g, 2, ("prim", "list", "opt", "rec", "uni", "str", "byt", "obj", "reg"), LEAVES)
    vals = [t.gen(g) for _ in range(many(mon.rng, 1, 2, 4))]
    a = unlambda(encode(t, vals, g))
    storage = {}
    awkward0.serialize(a, storage, compression=mon.rng.choice([None, True]))
    return t, vals, storage, json.loads(storage[""].decode("ascii"))


def places(schema, out=None):
    """every position of the schema where an expression stands: (container, key)"""
    if out is None:
        out = []
    if isinstance(schema, dict):
        if "schema" in schema:
            out.append((schema, "schema"))
            places(schema["schema"], out)
        for k in ("args", "list", "tuple"):
            if k in schema:
                for i in range(len(schema[k])):
                    out.append((schema[k], i))
                    places(schema[k][i], out)
        for k in ("kwargs", "dict"):
            if k in schema:
                for n in schema[k]:
                    out.append((schema[k], n))
                    places(schema[k][n], out)
        for pair in schema.get("pairs", []):
            out.append((pair, 1))
            places(pair[1], out)
    return out


TYPE = [lambda f: f, lambda f: {"takes": "inf", "to": f}, lambda f: {"fields": [["x", {"dtype": "int64"}], ["y", f]]}, lambda f: {"type": f},
        lambda f: {"possibilities": [{"dtype": "int64"}, f]}, lambda f: {"set": "T0", "as": {"takes": 3, "to": f}}]
ARRAY = {"call": ["awkward0", "numpy", "frombuffer"], "args": [{"read": "trap"}, {"dtype": "int64"}, {"json": 3}]}


def hostile(mon, spec, form):
    """an expression that names the function spec"""
    rng = mon.rng
    call = {"call": spec}
    if rng.random() < 0.5:
        call["args"] = [rng.choice([{"json": "x"}, {"json": 1}, ARRAY])]
    if rng.random() < 0.3:
        call["kwargs"] = {"a": {"json": [1]}}
    if form == "call":
        return call
    if form == "call with other fields":
        return dict(call, **rng.choice([{"id": 990}, {"json": 1}, {"cacheable": True}, {"whitelistable": True}, {"whitelist": ["*"]}, {"doc": "harmless"}]))
    if form == "function":
        return {"function": spec}
    if form == "virtual generator":
        return {"call": ["awkward0", "VirtualArray"], "args": [{"function": spec}], "cacheable": rng.random() < 0.5}
    if form == "object generator":
        return {"call": ["awkward0", "ObjectArray"], "args": [ARRAY, {"function": spec}]}
    if form == "argument":
        return {"call": ["awkward0", "IndexedArray"], "args": [ARRAY, call]}
    if form == "keyword":
        return {"call": ["awkward0", "IndexedArray"], "kwargs": {"index": ARRAY, "content": call}}
    if form == "container":
        return rng.choice([lambda x: {"list": [{"json": 0}, x]}, lambda x: {"tuple": [x]}, lambda x: {"dict": {"k": x}}, lambda x: {"pairs": [["k", {"json": 1}], ["l", x]]}])(call)
    if form == "decompress":
        return {"call": ["awkward0", "numpy", "frombuffer"], "args": [{"call": spec, "args": [{"read": "trap"}]}, {"dtype": "int64"}, {"json": 3}]}
    f = {"function": spec}
    for _ in range(rng.randint(1, 3)):
        f = rng.choice(TYPE)(f)
    t = {"call": ["awkward0.persist", "json2type"], "args": [{"json": f}]}
    if form == "type":
        if rng.random() < 0.5:
            t["whitelistable"] = rng.random() < 0.8
        return {"call": ["awkward0", "VirtualArray"], "args": [{"call": ["awkward0", "numpy", "frombuffer"], "args": []}], "kwargs": {"type": t}} if rng.random() < 0.2 else t
    if form == "type with its own whitelist":
        w = {"json": rng.choice([[["*"]], [[spec[0]]], ["*", "*"]])}
        if rng.random() < 0.5:
            t["args"].append(w)
        else:
            t["kwargs"] = {"whitelist": w}
        if rng.random() < 0.5:
            t["whitelistable"] = rng.random() < 0.5
        return t
    raise AssertionError(form)


FORMS = ["call", "call", "call with other fields", "function", "virtual generator", "object generator", "argument", "keyword", "container", "decompress", "type", "type with its own whitelist"]


def whitelist(mon, spec):
    rng = mon.rng
    k = rng.random()
    if k < 0.25:
        return "default", P.whitelist + [["akmon.layouts"]]
    if k < 0.3:
        return "*", rng.choice(["*", ["*"], [["*"]]])
    if k < 0.4:
        return "library only", LIBRARY
    w = [rng.choice(PATTERNS) for _ in range(rng.randint(1, 3))]
    if k < 0.6:
        w.append(list(spec))
    elif k < 0.7:
        w.append(list(spec[:1]) + ["".join(rng.choice(["*", c]) for c in spec[-1][:3]) + "*"])
    elif k < 0.8:
        w.append(list(spec) + [rng.choice(["*", "x"])])
    out = LIBRARY + w
    rng.shuffle(out)
    return "patterns", out


def read(mon, storage, white):
    """load through one of the containers"""
    how = mon.rng.choice(["deserialize", "deserialize", "load", "hdf5"])
    mon.say(container=how)
    if how == "deserialize":
        return mon.call("deserialize", lambda: awkward0.deserialize(storage, whitelist=white))
    if how == "load":
        f = io.BytesIO()
        with zipfile.ZipFile(f, "w") as z:
            for k, x in storage.items():
                z.writestr(k + ".json" if k == "" else k, x if isinstance(x, bytes) else x.tobytes())
        return mon.call("load", lambda: awkward0.load(f, whitelist=white))
    try:
        import h5py
    except ImportError:
        raise Skip()
    with h5py.File("akmon-%d" % mon.rng.randrange(1 << 40), "w", driver="core", backing_store=False) as f:
        grp = f.create_group("a")
        schema = json.loads(storage[""].decode("ascii"))
        schema["prefix"] = "a/"
        grp["schema.json"] = numpy.frombuffer(json.dumps(schema).encode("ascii"), dtype=numpy.uint8)
        for k, x in storage.items():
            if k != "":
                grp[k] = numpy.frombuffer(x if isinstance(x, bytes) else x.tobytes(), dtype=numpy.uint8)
        return mon.call("hdf5", lambda: awkward0.hdf5(f, whitelist=white)["a"])


@SUITE.scenario(8000, 80000, watch=False)
def planted(mon):
    """one hostile expression somewhere in the data of an ordinary array"""
    rng = mon.rng
    t, vals, storage, schema = make(mon)
    storage["trap"] = numpy.arange(3).tobytes()
    spec = list(rng.choice(SPECS))
    form = rng.choice(FORMS)
    bad = hostile(mon, spec, form)
    name, white = whitelist(mon, spec)
    where = rng.choice(places(schema))
    how = rng.choice(["replaced", "extra argument", "extra keyword"])
    target = where[0][where[1]]
    if how == "replaced" or not (isinstance(target, dict) and "call" in target):
        where[0][where[1]] = bad
        how = "replaced"
    elif how == "extra argument":
        target["args"] = target.get("args", []) + [bad]
    else:
        target.setdefault("kwargs", {})["more"] = bad
    storage[""] = json.dumps(schema).encode("ascii")
    ok = admitted(spec, white)
    mon.say(type=t.sig(), spec=spec, form=form, how=how, whitelist=white if name == "patterns" else name, expression=bad)
    mon.gs[-1].note("|%s|%s|%s|%s" % (form, how, name, "admitted" if ok else "refused"))
    reset()
    given = copy.deepcopy(white)
    error = None
    try:
        out = read(mon, storage, white)
        tolist(out)
    except Skip:
        raise
    except Exception as err:
        error = err
    seen = list(LOG)
    mon.events["oracle"] += 1
    mon.check(white == given, lambda: "loading changed the whitelist to %s" % white)
    calls = [x for x in seen if x[0] == "call"]
    if not ok:
        mon.check(len(seen) == 0, lambda: "%s is outside of the whitelist, but loading did %s" % (spec, seen))
        if form != "call with other fields":
            mon.check(error is not None, lambda: "%s is outside of the whitelist, but the data were loaded" % (spec,))
        mon.events["refused"] += 1
    elif any(x[1] == spec[0] for x in seen):
        mon.events["admitted function seen"] += 1
        if calls:
            mon.events["admitted function called"] += 1


@SUITE.scenario(3000, 30000, watch=False)
def by_itself(mon):
    """the whole data is one call or function: admitted ones load, others don't"""
    rng = mon.rng
    spec = list(rng.choice(SPECS))
    form = rng.choice(["call", "function", "container", "virtual generator", "type"])
    bad = hostile(mon, spec, form)
    name, white = whitelist(mon, spec)
    ok = admitted(spec, white)
    storage = {"": json.dumps({"awkward0": "0", "schema": bad}).encode("ascii"), "trap": numpy.arange(3).tobytes()}
    mon.say(spec=spec, form=form, whitelist=white if name == "patterns" else name)
    mon.gs.append(mon.G())
    mon.gs[-1].note("%s|%s|%s|%s" % (spec, form, name, ok))
    reset()
    try:
        out = read(mon, storage, white)
        error = None
    except Skip:
        raise
    except Exception as err:
        error = err
    if not ok:
        mon.check(error is not None and not LOG, lambda: "%s is outside of the whitelist %s: %s, error %r" % (spec, white, LOG, error))
        mon.events["refused"] += 1
        return
    if form == "type" and ("VirtualArray" in json.dumps(bad) or "possibilities" in json.dumps(bad)):
        return
    mon.check(error is None, lambda: "the whitelist %s admits %s, but loading failed with %r" % (white, spec, error))
    mon.check(any(x[0] == "lookup" for x in LOG), "an admitted function was not looked up")
    if form == "call":
        fired = [x for x in LOG if x[0] == "call"]
        mon.check(fired == [("call", spec[0], ".".join(spec[1:]))], lambda: "calls %s, want %s" % (fired, spec))
    mon.events["admitted function seen"] += 1


@SUITE.scenario(2000, 20000, watch=False)
def pickles(mon):
    """pickled values name functions too"""
    rng = mon.rng
    t, vals, storage, schema = make(mon)
    storage["trap"] = numpy.arange(3).tobytes()
    bad = {"python": base64.b64encode(pickle.dumps(Payload(), rng.randint(0, 4))).decode("ascii")}
    if rng.random() < 0.3:
        bad = rng.choice([lambda x: {"list": [x]}, lambda x: {"call": ["awkward0", "IndexedArray"], "args": [ARRAY, x]}, lambda x: {"tuple": [x]}])(bad)
    where = rng.choice(places(schema))
    target = where[0][where[1]]
    if rng.random() < 0.5 or not (isinstance(target, dict) and "call" in target):
        where[0][where[1]] = bad
    else:
        target["args"] = target.get("args", []) + [bad]
    storage[""] = json.dumps(schema).encode("ascii")
    k = rng.randrange(5)
    white = [LIBRARY, LIBRARY + [["trapmod"]], LIBRARY + [["builtins", "eval"]], LIBRARY + [["awkward0.persist", "topython"]], "*"][k]
    ok = k >= 3
    mon.say(type=t.sig(), whitelist=white, schema=schema)
    mon.gs[-1].note("|pickle%d" % k)
    reset()
    error = None
    try:
        tolist(read(mon, storage, white))
    except Skip:
        raise
    except Exception as err:
        error = err
    if not ok:
        mon.check(not LOG, lambda: "a pickle was loaded that is outside of the whitelist: %s" % LOG)
        mon.check(error is not None, "a pickle outside of the whitelist was loaded")
        mon.events["refused"] += 1
    elif LOG:
        mon.events["admitted function seen"] += 1


@SUITE.scenario(2000, 20000, watch=False)
def special(mon):
    """special attributes and modules as stepping stones"""
    rng = mon.rng
    t, vals, storage, schema = make(mon)
    storage["trap"] = numpy.arange(3).tobytes()
    first = rng.choice([["awkward0", "JaggedArray"], ["awkward0", "Table", "fromview"], ["awkward0", "IndexedArray", "copy"], ["awkward0.persist", "json2type"], ["akmon.layouts", "makepoint"], ["awkward0", "numpy", "frombuffer"]])
    spec = first + rng.choice([["__globals__", "get"], ["__init__", "__globals__", "get"], ["__func__", "__globals__", "get"], ["__class__", "__bases__", "index"], ["__subclasses__"], ["__call__"],
                               ["__init__", "__builtins__", "get"], ["__reduce_ex__"], ["__class__", "mro"]])
    get = {"call": spec, "args": rng.choice([[{"json": "eval"}], [{"json": "__builtins__"}], [{"json": "topython"}], []])}
    bad = rng.choice([get, {"function": spec}, {"call": ["awkward0", "VirtualArray"], "args": [get, {"tuple": [{"json": "__import__('trapmod').fire()"}]}]}])
    where = rng.choice(places(schema))
    where[0][where[1]] = bad
    storage[""] = json.dumps(schema).encode("ascii")
    white = rng.choice([LIBRARY, P.whitelist + [["akmon.layouts"]]])
    mon.say(type=t.sig(), spec=spec, expression=bad)
    mon.gs[-1].note("|" + ".".join(spec))
    reset()
    error = None
    try:
        tolist(read(mon, storage, white))
    except Skip:
        raise
    except Exception as err:
        error = err
    mon.check(not LOG, lambda: "loading did %s" % LOG)
    mon.check(error is not None, lambda: "%s was reached" % spec)
    mon.events["refused"] += 1


@SUITE.scenario(1000, 8000, watch=False)
def through_modules(mon):
    """a module that the whitelist admits does not admit the modules that it happens to import"""
    rng = mon.rng
    t, vals, storage, schema = make(mon)
    storage["trap"] = numpy.arange(3).tobytes()
    steps = [["awkward0.persist", "os", "getpid"], ["awkward0.persist", "numbers", "Number"], ["awkward0.persist", "zlib", "crc32"], ["awkward0.persist", "pickle", "dumps"],
             ["awkward0", "persist", "numpy", "frombuffer"], ["awkward0", "util", "numpy", "arange"], ["awkward0.persist", "json", "dumps"], ["awkward0.persist", "awkward0", "array", "jagged", "JaggedArray"],
             ["numpy", "random", "seed"], ["numpy", "ctypeslib", "load_library"], ["awkward0", "type", "fromarray"], ["akmon.layouts", "awkward0", "fromiter"]]
    spec = rng.choice(steps)
    call = {"call": spec, "args": rng.choice([[], [{"json": 1}], [ARRAY], [{"json": "abc"}]])}
    bad = rng.choice([call, call, {"function": spec}, {"call": ["awkward0", "VirtualArray"], "args": [{"function": spec}]}])
    where = rng.choice(places(schema))
    where[0][where[1]] = bad
    storage[""] = json.dumps(schema).encode("ascii")
    name, white = rng.choice([("library", LIBRARY), ("default", P.whitelist + [["akmon.layouts"]]), ("modules", LIBRARY + [["awkward0.persist"], ["numpy"], ["akmon.layouts"]]),
                              ("everything in", LIBRARY + [["awkward0.persist", "*"], ["akmon.layouts", "*"], ["numpy", "*"]]), ("exactly", LIBRARY + [spec])])
    mon.say(type=t.sig(), spec=spec, expression=bad, whitelist=name)
    mon.gs[-1].note("|%s|%s" % (".".join(spec), name))
    error = None
    try:
        tolist(read(mon, storage, white))
    except Skip:
        raise
    except Exception as err:
        error = err
    mon.check(error is not None, lambda: "%s was reached through the modules that are imported on the way" % spec)
    mon.events["refused"] += 1


@SUITE.scenario(1500, 15000, watch=False)
def ordinary(mon):
    """what the whitelist admits loads normally, and every needed function is needed"""
    rng = mon.rng
    t, vals, storage, schema = make(mon)
    mon.say(type=t.sig(), vals=V.plain(vals))
    used = set()
    for c, k in places(schema):
        e = c[k]
        if isinstance(e, dict):
            for w in ("call", "function"):
                if w in e:
                    used.add(tuple(e[w]))
    exact = [list(u) for u in used]
    white = rng.choice([P.whitelist + [["akmon.layouts"]], LIBRARY, exact, "*", exact + LIBRARY])
    reset()
    mon.eq(read(mon, storage, white), vals, "loaded")
    mon.events["admitted function seen"] += 1
    if exact:
        # without one of the functions that it needs, nothing is loaded
        rng.shuffle(exact)
        if admitted(exact[0], exact[1:]):
            return
        mon.raises("load with one function missing", lambda: awkward0.deserialize(storage, whitelist=exact[1:]), kinds=(RuntimeError,))
        mon.events["refused"] += 1


@SUITE.finding("default-whitelist-topython")
def topython_by_default():
    if any(len(w) <= 2 and fnmatch.fnmatchcase("awkward0.persist", w[0]) and all(fnmatch.fnmatchcase("topython", p) for p in w[1:]) for w in P.whitelist):
        return "the default whitelist admits awkward0.persist.topython (through the entry ['awkward0.persist']), which docs/serialization.adoc says no default whitelist should do: it unpickles"
    return None
