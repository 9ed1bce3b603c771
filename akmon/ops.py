"""reference (pure Python) versions of the operations under test"""
import numpy


def random_slice(rng, n):
    f = lambda: rng.choice([None, None, rng.randint(-n - 2, n + 2)])
    return slice(f(), f(), rng.choice([None, None, 1, 2, 3, -1, -2, -3]))


def random_where(rng, n, kinds=("slice", "slice", "ints", "bools", "list", "empty", "boollist", "emptyarr")):
    """a way of selecting rows of a length-n array"""
    k = rng.choice(list(kinds))
    if k == "slice":
        return random_slice(rng, n)
    if k in ("ints", "list"):
        if n == 0:
            return numpy.array([], dtype="int64")
        w = [rng.randint(-n, n - 1) for _ in range(rng.randint(1, 2 * n))]
        if rng.random() < 0.3:
            w.sort(key=lambda i: i % n)
        return w if k == "list" else numpy.array(w, dtype=rng.choice(["int64", "int32", "int8" if n < 100 else "int64"]))
    if k == "empty":
        return []
    if k == "emptyarr":
        return numpy.array([], dtype=rng.choice(["int64", "int32"]))
    p = rng.choice([0.5, 0.5, 0.1, 0.9, 0.0, 1.0])
    m = [rng.random() < p for _ in range(n)]
    return m if k == "boollist" and m else numpy.array(m, dtype=bool)


def take(vals, w):
    if isinstance(w, slice):
        return vals[w]
    w = list(w)
    if w and isinstance(w[0], (bool, numpy.bool_)):
        return [v for v, b in zip(vals, w) if b]
    return [vals[i] for i in w]
