"""P10: fingerprints of values are deterministic and tell different values apart."""
import copy
import dataclasses
import datetime
import enum
import json
import math
import os
import pathlib
import random
import subprocess
import sys
import types

import vf
from cmpv import short

check = vf.Check(
    "P10",
    rule="random values (nested containers, scalars, dates, objects, numpy, pandas, polars) and single mutations of them: equal "
         "reconstructions, copies, insertion orders and other processes give the same fingerprint, every mutation a different one. "
         "Distinct = value shape x mutation",
    assumptions=["values of different types may share a fingerprint (int 1 / str '1' ...): known finding of P07"],
    required=["determinism", "mutations", "pandas_mutations", "numpy_mutations", "polars_mutations", "object_mutations",
              "cross_process", "unhashable", "order_insensitive", "long_values"],
)


class Color(enum.Enum):
    RED = 1
    BLUE = 2


@dataclasses.dataclass
class Point:
    x: int
    y: object


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, o):
        return type(o) is type(self) and self.__dict__ == o.__dict__

    __hash__ = None


class Opaque:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


@check.setup
def setup_env():
    import numpy as np
    import pandas as pd
    import polars as pl
    from hamilton.caching import fingerprinting
    globals().update(np=np, pd=pd, pl=pl, fingerprinting=fingerprinting, hv=fingerprinting.hash_value,
                     UN=fingerprinting.UNHASHABLE)


def leaf(rng):
    return rng.choice([
        lambda: rng.randrange(-5, 5), lambda: rng.randrange(10**20), lambda: rng.random(), lambda: rng.choice([0.0, -0.0, 1e308, float("inf")]),
        lambda: "".join(rng.choice("ab ,é\n'") for _ in range(rng.randrange(4))), lambda: rng.random() < .5, lambda: None,
        lambda: rng.randbytes(rng.randrange(4)), lambda: datetime.date(2020, 1, 1 + rng.randrange(28)),
        lambda: datetime.datetime(2020, 1, 1, rng.randrange(24), 0, 0, rng.randrange(3)), lambda: datetime.timedelta(rng.randrange(9)),
    ])()


def skey(rng):
    return rng.choice("abcdefgh") * rng.randrange(1, 3)


def gen(rng, depth=0):
    r = rng.random()
    if depth > 3 or r < .4:
        return leaf(rng)
    n = rng.randrange(0, 4)
    if r < .6:
        return [gen(rng, depth + 1) for _ in range(n)]
    if r < .68:
        return tuple(gen(rng, depth + 1) for _ in range(n))
    if r < .88:
        return {skey(rng): gen(rng, depth + 1) for _ in range(n)}
    if r < .94:
        return {rng.randrange(50) for _ in range(n)}
    if rng.random() < .4:
        return Point(rng.randrange(9), gen(rng, depth + 2))
    return Plain(**{k: gen(rng, depth + 2) if i == 0 else rng.randrange(5)
                    for i, k in enumerate(rng.sample(["a", "b", "_c", "__d", "e_"], rng.randrange(1, 4)))})


def other_leaf(rng, v):
    """A different value of the same type."""
    if v is None:
        return 7
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 10])
    if isinstance(v, float):
        return rng.choice([v + 1.5, math.nextafter(v, 2), v * (1 + 1e-9) + 1e-12]) if v < 1e300 else -v
    if isinstance(v, str):
        return rng.choice([v + "a", v + "b", v + " ", " " + v, v + "\n", v.upper(), v[::-1], v[1:]])
    if isinstance(v, bytes):
        return v + b"\0"
    if isinstance(v, datetime.timedelta):
        return v + datetime.timedelta(seconds=1)
    if isinstance(v, datetime.datetime):
        return v + datetime.timedelta(microseconds=1)
    return v + datetime.timedelta(days=1)


def paths(v, pre=()):
    yield pre
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from paths(x, pre + (i,))
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from paths(x, pre + (k,))
    elif isinstance(v, (Point, Plain)):
        for k, x in v.__dict__.items():
            yield from paths(x, pre + (k,))


def replace(v, path, f):
    if not path:
        return f(v)
    k, rest = path[0], path[1:]
    if isinstance(v, (list, tuple)):
        return type(v)(replace(x, rest, f) if i == k else x for i, x in enumerate(v))
    if isinstance(v, dict):
        return {q: replace(x, rest, f) if q == k else x for q, x in v.items()}
    w = copy.copy(v)
    setattr(w, k, replace(getattr(v, k), rest, f))
    return w


def identical(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(identical(a[k], b[k]) for k in a)
    if isinstance(a, (Point, Plain)):
        return identical(a.__dict__, b.__dict__)
    return repr(a) == repr(b) if not isinstance(a, set) else a == b


def canon(v):
    """Forgets what fingerprints are known to ignore: the types of containers, objects and scalars."""
    if isinstance(v, (Point, Plain)):
        v = v.__dict__
    if isinstance(v, (list, tuple, dict, set)) and not v:
        return "<empty>"
    if isinstance(v, (list, tuple)):
        return ("seq", *[canon(x) for x in v])
    if isinstance(v, dict):
        return ("map", *sorted((canon(k), repr(canon(x))) for k, x in v.items()))
    if isinstance(v, set):
        return ("set", *sorted(repr(canon(x)) for x in v))
    return v.decode("latin1") if isinstance(v, bytes) else None if v is None else str(v) if type(v) in (int, float, str, bool) else repr(v)


def mutate(rng, v):
    """(kind, a value that differs in exactly one place, with the same types)."""
    p = rng.choice(list(paths(v)))

    def f(x):
        nonlocal kind
        if isinstance(x, list) or isinstance(x, tuple):
            m = rng.choice(["append", "drop", "swap"])
            y = list(x)
            if m == "append":
                y.append(rng.choice([0, "z", None, [1]]))
            elif m == "drop" and y:
                y.pop(rng.randrange(len(y)))
            elif m == "swap" and len(y) > 1:
                i, j = rng.sample(range(len(y)), 2)
                y[i], y[j] = y[j], y[i]
            kind = "seq-" + m
            return type(x)(y)
        if isinstance(x, dict):
            m = rng.choice(["add", "drop", "rename", "swap", "turn"])
            y = dict(x)
            if m == "add":
                y["zzz"] = rng.choice([None, 0, ""])
            elif m == "drop" and y:
                y.pop(rng.choice(sorted(y)))
            elif m == "rename" and y:
                k = rng.choice(sorted(y))
                y["q" + k] = y.pop(k)
            elif m == "swap" and len(y) > 1:
                a, b = rng.sample(sorted(y), 2)
                y[a], y[b] = y[b], y[a]
            elif m == "turn":
                for k in [k for k, q in y.items() if isinstance(q, str)][:1]:
                    q = y.pop(k)
                    y[q] = k
            kind = "dict-" + m
            return y
        if isinstance(x, set):
            kind = "set"
            return x | {99} if rng.random() < .5 or not x else set(sorted(x)[1:])
        if isinstance(x, (Point, Plain)):
            kind = "object"
            y = copy.copy(x)
            k = rng.choice(sorted(y.__dict__))
            setattr(y, k, 12345678)
            return y
        kind = "leaf-" + type(x).__name__
        return other_leaf(rng, x)
    kind = None
    w = replace(v, p, f)
    return kind, w, p


def reorder(v, rng):
    """The same value with other insertion orders."""
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: reorder(v[k], rng) for k in ks}
    if isinstance(v, (list, tuple)):
        return type(v)(reorder(x, rng) for x in v)
    if isinstance(v, set):
        xs = list(v)
        rng.shuffle(xs)
        out = set()
        for x in xs + [1000]:
            out.add(x)
        out.discard(1000)
        return out
    return v


def fresh(v):
    """An equal value built from new objects."""
    if isinstance(v, str):
        return "".join(list(v))
    if isinstance(v, dict):
        return {fresh(k): fresh(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)([fresh(x) for x in v])
    return copy.deepcopy(v)


@check.family("values", 8000, 60000)
def fam_values(ctx):
    rng = ctx.rng
    v = gen(rng)
    h = hv(v)
    det = dict(value=short(v, 800))
    ctx.require(isinstance(h, str) and h != UN, "supported-unhashable", lambda: f"{short(v)} has no fingerprint", **det)
    ctx.observe("determinism")
    ctx.require(hv(v) == h and hv(fresh(v)) == h and hv(copy.deepcopy(v)) == h, "unstable", lambda: f"{short(v)}", **det)
    ctx.observe("order_insensitive")
    ctx.require(hv(reorder(v, rng)) == h, "insertion-order", lambda: f"{short(v)}", **det)
    for _ in range(6):
        kind, w, p = mutate(rng, v)
        if identical(v, w) or canon(v) == canon(w):
            continue
        ctx.observe("mutations")
        if kind == "object" or any(isinstance(k, str) for k in p):
            ctx.observe("object_mutations")
        ctx.require(hv(w) != h, f"same-fingerprint:{kind}", lambda: f"{short(v)} and {short(w)} share {h}", path=repr(p), **det)
        ctx.sig(kind, len(p), type(v).__name__, short(v, 60))
    # nesting is not flattened
    for a, b in (([v], [[v]]), ([v, v], [[v, v]]), ([v, [1]], [v, 1]), ({"k": v}, {"k": [v]}), ([[v], []], [[], [v]])):
        ctx.require(hv(a) != hv(b) or hv(a) == UN, "nesting", lambda: f"{short(a)} and {short(b)}")
    ctx.sample(dict(value=short(v, 200), fingerprint=h))


@check.family("long", 500, 2500)
def fam_long(ctx):
    """One difference anywhere in a long value."""
    rng = ctx.rng
    n = rng.choice([60, 130, 300, 1100, 5000])
    i = rng.choice([0, 1, n // 2, n - 2, n - 1, rng.randrange(n)])
    xs = [rng.randrange(1000) for _ in range(n)]
    ys = list(xs)
    ys[i] += 1
    how = rng.choice(["list", "tuple", "str", "bytes", "dict", "dictkey", "set", "series", "frame", "array", "polars", "object", "nested"])
    make = {"list": list, "tuple": tuple, "str": lambda v: ",".join(map(str, v)), "bytes": lambda v: b"".join(x.to_bytes(2, "big") for x in v),
            "dict": lambda v: {f"k{j}": x for j, x in enumerate(v)}, "dictkey": lambda v: {(j * 2000 + x): 0 for j, x in enumerate(v)},
            "set": lambda v: {j * 2000 + x for j, x in enumerate(v)}, "series": lambda v: pd.Series(v), "array": lambda v: np.array(v),
            "frame": lambda v: pd.DataFrame({"a": range(n), "b": v}), "polars": lambda v: pl.DataFrame({"a": range(n), "b": v}),
            "object": lambda v: Plain(**{f"f{j}": x for j, x in enumerate(v)}), "nested": lambda v: {"k": [[x] for x in v]}}[how]
    a, b = hv(make(xs)), hv(make(ys))
    ctx.observe("long_values")
    ctx.require(a == hv(make(list(xs))) and a != UN, "unstable", f"{how} of {n}")
    ctx.require(a != b, f"same-fingerprint:long-{how}", f"{how} of {n} items differing at {i}")
    ctx.require(a != hv(make(xs[:-1])) if how not in ("frame", "polars") else True, f"same-fingerprint:long-{how}", f"{how} of {n} and {n - 1} items")
    ctx.sig(how, n, i)


@check.family("unhashable", 1200, 6000)
def fam_unhashable(ctx):
    """A value containing something without a fingerprint has none either, wherever it is."""
    rng = ctx.rng
    bad = rng.choice([lambda: Opaque(1), lambda: object(), lambda: (x for x in range(3)), lambda: memoryview(bytearray(2))])()
    v = bad
    for _ in range(rng.randrange(0, 4)):
        r = rng.randrange(7)
        if r == 0:
            v = [leaf(rng), v]
        elif r >= 5 and isinstance(v, (Opaque, frozenset)):
            v = frozenset([v, 1]) if r == 5 else {v: 1}
        elif r == 1:
            v = (v,)
        elif r == 2:
            v = {"k": v, "j": leaf(rng)}
        elif r == 3:
            v = Plain(a=v)
        else:
            v = {"x": {"y": v}, "z": [1]}
    if isinstance(bad, memoryview):
        return
    ctx.observe("unhashable")
    ctx.require(hv(v) == UN, "hides-unhashable", lambda: f"{short(v)} got {hv(v)}")
    ctx.sig(short(v, 100), type(bad).__name__)


def gen_frame(rng):
    n = rng.randrange(1, 6)
    cols = {}
    for c in rng.sample("abcdef", rng.randrange(1, 4)):
        k = rng.choice(["int", "float", "str", "bool", "date", "nan", "cat", "none"])
        cols[c] = {"int": lambda: [rng.randrange(9) for _ in range(n)], "float": lambda: [rng.random() for _ in range(n)],
                   "str": lambda: [rng.choice(["x", "y", "zz", ""]) for _ in range(n)], "bool": lambda: [rng.random() < .5 for _ in range(n)],
                   "date": lambda: [pd.Timestamp(2020, 1, 1 + rng.randrange(9)) for _ in range(n)],
                   "nan": lambda: [rng.choice([float("nan"), 1.5, 2.5]) for _ in range(n)],
                   "cat": lambda: pd.Categorical([rng.choice("uv") for _ in range(n)], categories=["u", "v"]),
                   "none": lambda: [rng.choice([None, "p", "q"]) for _ in range(n)]}[k]()
    ik = rng.choice(["range", "int", "str", "dup", "date", "multi"])
    idx = {"range": lambda: None, "int": lambda: [rng.randrange(100) for _ in range(n)], "str": lambda: [rng.choice("klmn") + str(i) for i in range(n)],
           "dup": lambda: [0] * n, "date": lambda: pd.date_range("2020", periods=n),
           "multi": lambda: pd.MultiIndex.from_tuples([(i, "x") for i in range(n)])}[ik]()
    return pd.DataFrame(cols, index=idx), ik


@check.family("pandas", 3000, 20000)
def fam_pandas(ctx):
    rng = ctx.rng
    df, ik = gen_frame(rng)
    series = rng.random() < .4
    v = df[df.columns[0]] if series else df
    if series and rng.random() < .3:
        v = v.rename(None)
    h = hv(v)
    det = dict(value=short(v, 600), index=ik)
    ctx.observe("determinism")
    ctx.require(h != UN and hv(v.copy()) == h and hv(copy.deepcopy(v)) == h, "unstable", lambda: f"{short(v)}", **det)
    m = rng.choice(["cell", "cell", "order", "drop", "index", "name", "append", "wrap"])
    w = v.copy()
    if m == "cell":
        i = rng.randrange(len(w))
        if series:
            old = w.iloc[i]
        else:
            j = rng.randrange(w.shape[1])
            old = w.iloc[i, j]
        new = ("v" if old == "u" else "u") if isinstance(v.dtype if series else df.dtypes.iloc[j], pd.CategoricalDtype) else \
            old + "q" if isinstance(old, str) else "new" if old is None else \
            (not old) if isinstance(old, (bool, np.bool_)) else old + pd.Timedelta(1, "D") if isinstance(old, pd.Timestamp) else \
            12.75 if old != old else type(old)(old + 1)
        if series:
            w.iloc[i] = new
        else:
            w.iloc[i, j] = new
    elif m == "order" and len(w) > 1:
        w = w.iloc[::-1]
        if ik == "dup" and w.reset_index(drop=True).equals(v.reset_index(drop=True)):
            return
    elif m == "drop":
        w = w.iloc[:-1]
    elif m == "index":
        w = w.copy()
        w.index = [f"w{i}" for i in range(len(w))]
    elif m == "name" and series:
        w = w.rename("other_name")
    elif m == "append":
        w = pd.concat([w, w.iloc[:1]])
    elif m == "wrap":
        w = [w]
        ctx.require(hv(w) != h, "same-fingerprint:pandas-wrap", f"{short(v)} alone and in a list", **det)
        return
    else:
        return
    if type(w) is type(v) and w.equals(v) and (not series or w.name == v.name) and w.index.equals(v.index):
        return
    ctx.observe("pandas_mutations")
    ctx.require(hv(w) != h, f"same-fingerprint:pandas-{m}", lambda: f"{short(v)} and {short(w)}", **det)
    ctx.require(hv({"k": [w]}) != hv({"k": [v]}), f"same-fingerprint:pandas-nested-{m}", lambda: f"{short(v)} and {short(w)}", **det)
    ctx.sig(m, series, ik, short(v, 80))


@check.family("numpy", 1600, 10000)
def fam_numpy(ctx):
    rng = ctx.rng
    shape = rng.choice([(0,), (1,), (4,), (2, 3), (1, 2, 2)])
    dt = rng.choice(["int64", "int32", "float64", "float32", "bool", "<U3", "datetime64[D]"])
    v = np.array([rng.randrange(0, 2 if dt == "bool" else 9) for _ in range(int(np.prod(shape)))]).astype(dt).reshape(shape)
    h = hv(v)
    ctx.observe("determinism")
    ctx.require(h != UN and hv(v.copy()) == h and hv(np.asfortranarray(v)) == h and hv(np.concatenate([v, v])[:len(v)]) == h,
                "unstable", lambda: f"{v!r}")
    w = v.copy().reshape(-1)
    if w.size == 0:
        return
    i = rng.randrange(w.size)
    m = rng.choice(["cell", "order", "drop", "dup"])
    if m == "cell":
        w[i] = ~w[i] if dt == "bool" else (w[i] + "z")[-3:] if dt == "<U3" and not str(w[i]).endswith("z") else w[i] + 1 if dt != "<U3" else "q"
        w = w.reshape(shape)
    elif m == "order":
        w = w[::-1].reshape(shape)
    elif m == "drop":
        w = w[:-1]
    else:
        w = np.append(w, w[-1:])
    if w.shape == v.shape and (w == v).all():
        return
    ctx.observe("numpy_mutations")
    ctx.require(hv(w) != h and hv([w]) != hv([v]), f"same-fingerprint:numpy-{m}", lambda: f"{v!r} and {w!r}")
    ctx.sig(m, dt, repr(v))


@check.family("polars", 1000, 6000)
def fam_polars(ctx):
    rng = ctx.rng
    n = rng.randrange(1, 5)
    data = {}
    for c in rng.sample("abcd", rng.randrange(1, 4)):
        data[c] = rng.choice([lambda: [rng.randrange(9) for _ in range(n)], lambda: [rng.random() for _ in range(n)],
                              lambda: [rng.choice(["x", "y", None]) for _ in range(n)], lambda: [rng.random() < .5 for _ in range(n)]])()
    series = rng.random() < .4
    c0 = list(data)[0]
    mk = (lambda d: pl.Series(c0, d[c0])) if series else (lambda d: pl.DataFrame(d))
    v = mk(data)
    h = hv(v)
    ctx.observe("determinism")
    ctx.require(h != UN and hv(mk(data)) == h and hv(v.clone()) == h, "unstable", lambda: f"{data}")
    d2 = {k: list(x) for k, x in data.items()}
    m = rng.choice(["cell", "order", "drop", "rename", "relabel"])
    if m == "relabel":
        if series or len(d2) < 2:
            return
        d2 = dict(zip([*list(d2)[1:], c0], d2.values()))
        ctx.observe("polars_mutations")
        ctx.require(hv(mk(d2)) != h, "same-fingerprint:polars-relabel", lambda: f"{data} and {d2}")
        return
    if m == "cell":
        c = c0 if series else rng.choice(list(d2))
        i = rng.randrange(n)
        x = d2[c][i]
        d2[c][i] = "new" if x is None else x + "q" if isinstance(x, str) else (not x) if isinstance(x, bool) else x + 1
    elif m == "order":
        d2 = {k: x[::-1] for k, x in d2.items()}
    elif m == "drop":
        d2 = {k: x[:-1] for k, x in d2.items()}
    else:
        if series:
            w = v.alias("other")
        else:
            d2 = {("z" + k if k == c0 else k): x for k, x in d2.items()}
    if not (series and m == "rename"):
        if series and m != "rename" and d2[c0] == data[c0] or d2 == data:
            return
        w = mk(d2)
    ctx.observe("polars_mutations")
    ctx.require(hv(w) != h, f"same-fingerprint:polars-{m}", lambda: f"{data} and {d2}")
    ctx.sig(m, series, repr(data))


CHILD = r'''
import json, random, sys
spec = json.loads(sys.argv[1])
sys.path[:0] = spec["libs"]
import P10
P10.check._setup()
print("R" + json.dumps(P10.batch(spec["seed"], spec["n"])))
'''


def batch(seed, n):
    rng = random.Random(seed)
    out = []
    for _ in range(n):
        v = gen(rng)
        out.append(hv(v))
        df, _ = gen_frame(rng)
        out.append(hv(df))
        out.append(hv({"k": df[df.columns[0]], "a": np.arange(rng.randrange(5))}))
        out.append(hv(set(rng.sample(["a", "b", "cc", "d", "e1", "f"], 4))))
        out.append(hv(pl.DataFrame({"a": [rng.randrange(9), 2], "b": ["x", str(rng.random())]})))
        out.append(hv(Plain(p=frozenset("abc"), q=v, r=pathlib.PurePosixPath("/a/b"))))
    return out


@check.family("process", 8, 64)
def fam_process(ctx):
    """Fingerprints agree between processes with different hash seeds."""
    seed, n = ctx.rng.randrange(10**9), 60
    mine = batch(seed, n)
    env = dict(os.environ, PYTHONHASHSEED=str(ctx.rng.randrange(1, 10**6)))
    r = subprocess.run([sys.executable, "-c", CHILD, json.dumps(dict(libs=[os.path.join(vf.VERIF, "lib"), os.path.join(vf.VERIF, "checks"), vf.REPO],
                                                                     seed=seed, n=n))],
                       env=env, capture_output=True, text=True, timeout=90)
    if not r.stdout.startswith("R"):
        raise RuntimeError(r.stderr[-1500:])
    other = json.loads(r.stdout[1:])
    diff = [i for i in range(len(mine)) if mine[i] != other[i]]
    ctx.observe("cross_process", len(mine))
    ctx.require(not diff, "process-dependent", lambda: f"{len(diff)} of {len(mine)} fingerprints differ between processes (positions {diff[:9]})")
    ctx.sig(seed)


KNOWN_PAIRS = {
    "array-dtype": lambda: (np.zeros(2), np.zeros(2, dtype="int64")),
    "array-shape": lambda: (np.arange(6).reshape(2, 3), np.arange(6).reshape(3, 2)),
    "frame-columns": lambda: (pd.DataFrame({"a": [1]}), pd.DataFrame({"b": [1]})),
    "object-class": lambda: (Point(1, 2), types.SimpleNamespace(x=1, y=2)),
}


@check.family("pairs", len(KNOWN_PAIRS), len(KNOWN_PAIRS))
def fam_pairs(ctx):
    name = sorted(KNOWN_PAIRS)[ctx.idx]
    a, b = KNOWN_PAIRS[name]()
    ctx.require(hv(a) != hv(b), f"shared:{name}", f"{a!r} and {b!r} share {hv(a)}")
    ctx.sig(name)


if __name__ == "__main__":
    check.main()
