"""P21: result builders assemble exactly the requested values."""
import asyncio
import copy
import math
import random

import vf
from cmpv import same, short
from gen import fresh_names, load_module, unload

check = vf.Check(
    "P21",
    rule="random requests over functions returning scalars, lists, arrays, series, frames, indexes (int, "
         "range, str, datetime, categorical, float indexes; overlapping, shuffled, empty) x result builders "
         "(none, dict, pandas, strict pandas, numpy matrix, polars, polars lazy, pyarrow) x ways to attach them "
         "x drivers (Builder, legacy Driver, task-based, async); the built object is compared cell by cell with "
         "the values the functions returned. Distinct = builder x driver x kinds and index relations",
    assumptions=["pandas' own alignment of unlike-length plain lists is not judged"],
    required=["dict", "pandas", "pandas_scalars", "pandas_frames", "pandas_join", "strict_ok", "strict_refused", "numpy",
              "numpy_broadcast", "numpy_refused", "polars", "polars_lazy", "pyarrow", "pyarrow_refused", "async", "taskbased", "legacy",
              "single_frame"],
)


@check.setup
def setup_env():
    import numpy as np
    import pandas as pd
    import polars as pl
    import pyarrow as pa

    from hamilton import async_driver, base, driver
    from hamilton.plugins import h_polars, h_polars_lazyframe, h_pyarrow
    globals().update(np=np, pd=pd, pl=pl, pa=pa, base=base, driver=driver, async_driver=async_driver, h_polars=h_polars,
                     h_polars_lazyframe=h_polars_lazyframe, h_pyarrow=h_pyarrow)


ANN = dict(series="pd.Series", frame="pd.DataFrame", array="np.ndarray", list="list", int="int", float="float", str="str",
           none="Any", bool="bool", tuple="tuple", dictv="dict", npint="Any", npfloat="Any", npbool="Any", index="pd.Index", obj="Any", plseries="pl.Series", plframe="pl.DataFrame", lazy="pl.LazyFrame")


def build_mod(rng, vals, kinds, is_async):
    L = ["from typing import *\nimport pandas as pd\nimport numpy as np\nimport polars as pl\n_VALS = {}\n"]
    names = list(vals)
    for nm in rng.sample(names, len(names)):
        deps = rng.sample([x for x in names if names.index(x) < names.index(nm)], rng.randrange(0, min(2, names.index(nm)) + 1))
        ps = ", ".join(f"{d}: {ANN[kinds[d]]}" for d in deps)
        a = "async " if is_async and rng.random() < .5 else ""
        L.append(f"{a}def {nm}({ps}) -> {ANN[kinds[nm]]}:\n    return _VALS[{nm!r}]\n")
    mod = load_module("\n".join(L))
    mod._VALS.update(vals)
    return mod


def execute(ctx, rng, mod, builder, final, how, attach):
    """One request through a driver with the given result builder."""
    fv = [getattr(mod, f) if rng.random() < .15 else f for f in final]
    if how == "legacy":
        ctx.observe("legacy")
        ad = base.DefaultAdapter() if builder is None else base.SimplePythonGraphAdapter(builder)
        if isinstance(builder, base.PandasDataFrameResult) and type(builder) is base.PandasDataFrameResult and rng.random() < .5:
            return driver.Driver({}, mod).execute(fv)       # the documented default of the legacy constructor
        return driver.Driver({}, mod, adapter=ad).execute(fv)
    if how == "async":
        ctx.observe("async")

        async def go():
            if rng.random() < .5:
                b = async_driver.Builder().with_modules(mod)
                if builder is not None:
                    b = b.with_adapters(builder)
                dr = await b.build()
            else:
                dr = await async_driver.AsyncDriver({}, mod, result_builder=builder or base.DictResult()).ainit()
            return await dr.execute(fv)
        return asyncio.run(go())
    b = driver.Builder().with_modules(mod)
    if how == "taskbased":
        ctx.observe("taskbased")
        b = b.enable_dynamic_execution(allow_experimental_mode=True)
    if builder is not None:
        ad = builder if attach == "direct" else base.SimplePythonGraphAdapter(builder)
        b = b.with_adapter(ad) if attach == "with_adapter" else b.with_adapters(ad)
    dr = b.build()
    out = dr.execute(fv)
    if rng.random() < .2:
        again = dr.execute(fv)
        ctx.require(type(again) is type(out) and cheap_same(out, again), "second-run-differs", f"{short(out)} / {short(again)}")
    return out


def cheap_same(a, b):
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, pd.DataFrame):
        return a.equals(b) and list(a.columns) == list(b.columns)
    if isinstance(a, pl.LazyFrame):
        return a.collect().equals(b.collect())
    if isinstance(a, (pl.DataFrame, pa.Table)):
        return a.equals(b)
    return repr(a) == repr(b)


def eqv(a, b):
    if a is b:
        return True
    try:
        if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
            return True
        if a is None or b is None or a is pd.NaT or b is pd.NaT:
            return bool(pd.isna(a)) and bool(pd.isna(b))
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return False


HOWS = ["builder", "builder", "builder", "legacy", "taskbased", "async"]
ATTACH = ["direct", "wrapped", "with_adapter"]


def gen_index(rng, kind, n):
    off = rng.choice([0, 0, 1, 3])
    if kind == "range":
        return pd.RangeIndex(off, off + n)
    if kind == "int":
        return pd.Index([off + i for i in range(n)], dtype="int64")
    if kind == "str":
        return pd.Index([f"r{off + i}" for i in range(n)])
    if kind == "float":
        return pd.Index([off + i + .5 for i in range(n)])
    if kind == "time":
        return pd.date_range("2020-01-01", periods=n, freq="D") + pd.Timedelta(days=off)
    if kind == "cat":
        return pd.CategoricalIndex([f"c{i}" for i in range(n)], categories=[f"c{i}" for i in range(8)])
    raise ValueError(kind)


def gen_cells(rng, n):
    k = rng.choice(["int", "float", "str", "nan", "bool"])
    if k == "int":
        return [rng.randrange(-50, 50) for _ in range(n)]
    if k == "float":
        return [rng.randrange(-50, 50) / 4 for _ in range(n)]
    if k == "str":
        return [rng.choice(["", "x", "yy", "ü"]) + str(rng.randrange(9)) for _ in range(n)]
    if k == "bool":
        return [rng.random() < .5 for _ in range(n)]
    return [float("nan") if rng.random() < .4 else float(rng.randrange(9)) for _ in range(n)]


def scalar(rng):
    return rng.choice([("int", rng.randrange(-5, 5)), ("float", rng.randrange(9) / 2), ("str", rng.choice(["", "abc"])),
                       ("none", None), ("bool", rng.random() < .5)])


def decide(ctx, rng, vals, kinds, builder, name, want_fail=False):
    """Run one case; returns (result or None, error)."""
    final = rng.sample(list(vals), len(vals))
    how = rng.choice(HOWS)
    attach = rng.choice(ATTACH)
    mod = build_mod(rng, vals, kinds, how == "async")
    before = {k: copy.deepcopy(v) if not isinstance(v, (pl.LazyFrame,)) else v for k, v in vals.items()}
    det = dict(builder=name, how=how, attach=attach, final=final, values={k: repr(v)[:300] for k, v in vals.items()})
    out = err = None
    try:
        out = execute(ctx, rng, mod, builder, final, how, attach)
    except Exception as e:  # noqa: BLE001
        err = e
    for k, v in before.items():
        if not isinstance(v, pl.LazyFrame):
            ctx.require(cheap_same(vals[k], v) if isinstance(v, (pd.DataFrame, pl.DataFrame)) else same(vals[k], v),
                        "value-modified", f"{k} was modified by building the result", **det)
    unload(mod)
    ctx.sig(name, how, attach, tuple(kinds[k] for k in final))
    return final, out, err, det


# ----------------------------------------------------------------------------------------------- dict
@check.family("dict", quick=1200, thorough=6000)
def f_dict(ctx):
    rng = ctx.rng
    vals, kinds = {}, {}
    for nm in fresh_names(rng, rng.randrange(1, 7)):
        if rng.random() < .5:
            kinds[nm], vals[nm] = scalar(rng)
        else:
            n = rng.randrange(4)
            kinds[nm] = rng.choice(["series", "list", "array"])
            c = gen_cells(rng, n)
            vals[nm] = {"series": lambda: pd.Series(c), "list": lambda: c, "array": lambda: np.array(c)}[kinds[nm]]()
    builder = rng.choice([None, base.DictResult()])
    final, out, err, det = decide(ctx, rng, vals, kinds, builder, "dict")
    if err is not None:
        raise err
    ctx.observe("dict")
    ctx.require(type(out) is dict and list(out) == final, "dict-keys", f"{short(out)} for {final}", **det)
    for k in final:
        ctx.require(out.get(k) is vals[k], "dict-value", f"{k}: {short(out.get(k))} is not the computed {short(vals[k])}", **det)


# --------------------------------------------------------------------------------------------- pandas
def gen_pandas(rng, idx_kinds, frames=.25, lists=.3, scalars=.4, mono=.5):
    vals, kinds = {}, {}
    n = rng.choice([0, 1, 1, 2, 3, 5])
    common = gen_index(rng, rng.choice(idx_kinds), n)
    aligned = rng.random() < mono
    for nm in fresh_names(rng, rng.randrange(1, 6)):
        x = rng.random()
        if x < frames:
            idx = common if aligned else gen_index(rng, rng.choice(idx_kinds), rng.choice([1, 2, 3]))
            vals[nm] = pd.DataFrame({c: gen_cells(rng, len(idx)) for c in rng.sample(["a", "b", "c d"], rng.randrange(1, 3))}, index=idx)
            kinds[nm] = "frame"
        elif x < frames + .45:
            idx = common if aligned else gen_index(rng, rng.choice(idx_kinds), rng.choice([1, 2, 3]))
            s = pd.Series(gen_cells(rng, len(idx)), index=idx, name=rng.choice([None, "other", nm]))
            if not aligned and rng.random() < .5 and len(s) > 1:
                s = s.sample(frac=1, random_state=rng.randrange(99))
            vals[nm] = s
            kinds[nm] = "series"
        elif x < frames + .45 + .15 and aligned and n:
            kinds[nm] = rng.choice(["list", "array", "tuple", "index", "dictv"])
            c = gen_cells(rng, n)
            if kinds[nm] == "dictv" and isinstance(common, pd.CategoricalIndex):
                kinds[nm] = "tuple"
            vals[nm] = {"list": lambda: c, "array": lambda: np.array(c), "tuple": lambda: tuple(c), "index": lambda: pd.Index(c),
                        "dictv": lambda: dict(zip(common, c))}[kinds[nm]]()
        else:
            kinds[nm], vals[nm] = scalar(rng)
    if any(k in ("list", "array", "tuple", "index") for k in kinds.values()):
        for nm in [x for x in kinds if kinds[x] == "dictv"]:        # pandas refuses to mix dicts and lists
            kinds[nm], vals[nm] = "tuple", tuple(vals[nm].values())
    return vals, kinds, aligned


def index_kinds(vals):
    return {(type(v.index).__name__, str(v.index.dtype)) for v in vals.values() if isinstance(v, (pd.Series, pd.DataFrame))} | \
        {("Index", "int64") for v in vals.values() if isinstance(v, pd.Index)}


def expected_columns(vals, final):
    """name -> ('s', series) | ('l', list) | ('v', scalar), in order; None when the sole output is a frame."""
    cols = []
    anyframe = any(isinstance(v, pd.DataFrame) for v in vals.values())
    for f in final:
        v = vals[f]
        if isinstance(v, pd.DataFrame):
            for c in v.columns:
                cols.append((f"{f}.{c}", "s", v[c]))
        elif isinstance(v, pd.Series):
            cols.append((f, "s", v))
        elif isinstance(v, dict):
            cols.append((f, "s", pd.Series(v)))
        elif isinstance(v, (list, np.ndarray, tuple, pd.Index)):
            cols.append((f, "l", list(v)))
        else:
            cols.append((f, "v", v))
    return cols, anyframe


def check_pandas(ctx, vals, final, out, err, det):
    if len(final) == 1 and isinstance(vals[final[0]], pd.DataFrame):
        ctx.observe("single_frame")
        if err is not None:
            raise err
        ctx.require(out is vals[final[0]] or (isinstance(out, pd.DataFrame) and cheap_same(out, vals[final[0]])), "sole-frame",
                    f"{short(out)}", **det)
        return
    cols, anyframe = expected_columns(vals, final)
    if err is not None:
        raise err
    if not ctx.require(isinstance(out, pd.DataFrame), "not-a-frame", f"{type(out)}", **det):
        return
    ctx.require(list(out.columns) == [c[0] for c in cols], "columns", f"{list(out.columns)} instead of {[c[0] for c in cols]}", **det)
    if list(out.columns) != [c[0] for c in cols]:
        return
    ser = [c for c in cols if c[1] == "s"]
    lst = [c for c in cols if c[1] == "l"]
    if not ser and not lst:
        ctx.observe("pandas_scalars")
        ctx.require(len(out) == 1, "scalar-rows", f"{len(out)} rows", **det)
        for nm, _, v in cols:
            ctx.require(len(out) == 1 and eqv(out[nm].iloc[0], v), "scalar-cell", f"{nm}: {out[nm].tolist()} for {v!r}", **det)
        return
    if ser:
        labels = set()
        for c in ser:
            labels |= set(c[2].index)
        if anyframe:
            ctx.observe("pandas_frames")
        if len({tuple(c[2].index) for c in ser}) > 1:
            ctx.observe("pandas_join")
        ctx.require(len(out) == len(labels) and set(out.index) == labels, "rows",
                    f"index {list(out.index)} instead of the union {sorted(map(str, labels))}", **det)
        for nm, _, s in ser:
            have = dict(zip(s.index, s.tolist()))
            for lab, got in zip(out.index, out[nm].tolist()):
                if lab in have:
                    ctx.require(eqv(got, have[lab]), "cell", f"{nm}[{lab}] = {got!r}, computed {have[lab]!r}", **det)
                else:
                    ctx.require(bool(pd.isna(got)), "cell-invented", f"{nm}[{lab}] = {got!r}, not computed", **det)
    else:
        ctx.require(len(out) == len(lst[0][2]), "rows", f"{len(out)} rows for lists of {len(lst[0][2])}", **det)
    for nm, _, l in lst:
        ctx.require(all(eqv(a, b) for a, b in zip(out[nm].tolist(), l)) and len(out) == len(l), "list-cell",
                    f"{nm}: {out[nm].tolist()} instead of {l}", **det)
    for nm, k, v in cols:
        if k == "v":
            ctx.require(all(eqv(x, v) for x in out[nm].tolist()), "broadcast", f"{nm}: {out[nm].tolist()} instead of {v!r}", **det)


@check.family("pandas", quick=2800, thorough=14000)
def f_pandas(ctx):
    rng = ctx.rng
    vals, kinds, aligned = gen_pandas(rng, rng.choice([["range"], ["int", "range"], ["str"], ["time"], ["int"], ["float"], ["cat"]]))
    ctx.observe("pandas")
    final, out, err, det = decide(ctx, rng, vals, kinds, base.PandasDataFrameResult(), "pandas")
    check_pandas(ctx, vals, final, out, err, det)
    ctx.sample(dict(det, out=repr(out)[:400]))


@check.family("strict", quick=1800, thorough=9000)
def f_strict(ctx):
    rng = ctx.rng
    vals, kinds, aligned = gen_pandas(rng, rng.choice([["range"], ["range", "int"], ["time"], ["str", "time"], ["int"], ["time", "cat"], ["cat"], ["int", "str"], ["int", "float"], ["str", "float"]]))
    final, out, err, det = decide(ctx, rng, vals, kinds, base.StrictIndexTypePandasDataFrameResult(), "strict")
    ik = index_kinds(vals)
    det["index_kinds"] = sorted(map(str, ik))
    if len(ik) == 1:
        ctx.observe("strict_ok")
        check_pandas(ctx, vals, final, out, err, det)
    else:
        ctx.observe("strict_refused")
        ctx.require(isinstance(err, ValueError), "strict-accepted", f"index types {ik} were joined: {short(out)} {err!r}", **det)


@check.family("collide", quick=300, thorough=1500)
def f_collide(ctx):
    """An output named like a column of another output's frame is not silently dropped."""
    rng = ctx.rng
    inner = load_module("import pandas as pd\n_VALS = {}\ndef a() -> pd.Series:\n    return _VALS['s']\n")
    src = ("import pandas as pd\nfrom hamilton.function_modifiers import subdag, source\n_VALS = {}\n"
           f"import {inner.__name__} as _inner\n"
           "@subdag(_inner, namespace='fr')\ndef whole(a: pd.Series) -> pd.Series:\n    return a\n"
           "def fr() -> pd.DataFrame:\n    return _VALS['f']\n")
    mod = load_module(src)
    s, f = pd.Series([1, 2]), pd.DataFrame({"a": [3, 4], "b": [5, 6]})
    inner._VALS["s"], mod._VALS["f"] = s, f
    final = rng.choice([["fr", "fr.a"], ["fr.a", "fr"], ["whole", "fr.a", "fr"]])
    dr = driver.Builder().with_modules(mod).with_adapters(base.PandasDataFrameResult()).build()
    try:
        out = dr.execute(final)
    except ValueError:
        ctx.observe("collision_refused")
    else:
        ok = list(out.columns).count("fr.a") == 2
        ctx.require(ok, "output-lost", f"request {final}: columns {list(out.columns)}, one of the two fr.a is gone", final=final)
    ctx.sig("collide", tuple(final))
    unload(mod, inner)


# ---------------------------------------------------------------------------------------------- numpy
@check.family("numpy", quick=1200, thorough=6000)
def f_numpy(ctx):
    rng = ctx.rng
    n = rng.choice([0, 1, 1, 2, 3, 5])
    bad = rng.random() < .2
    vals, kinds, vec = {}, {}, []
    for nm in fresh_names(rng, rng.randrange(1, 6)):
        if rng.random() < .35:
            kinds[nm] = rng.choice(["int", "float", "bool", "npint", "npfloat", "npbool"])
            vals[nm] = {"int": int, "float": float, "bool": bool, "npint": rng.choice([np.int64, np.int32, np.uint8]), "npfloat": rng.choice([np.float64, np.float32]),
                        "npbool": np.bool_}[kinds[nm]](rng.randrange(9))
        else:
            k = n if not (bad and vec) else n + rng.choice([1, 2])
            c = [rng.randrange(99) / 2 for _ in range(k)]
            kinds[nm] = rng.choice(["array", "array", "list", "series"])
            vals[nm] = {"array": lambda: np.array(c), "list": lambda: c, "series": lambda: pd.Series(c)}[kinds[nm]]()
            vec.append(k)
    final, out, err, det = decide(ctx, rng, vals, kinds, base.NumpyMatrixResult(), "numpy")
    if len(set(vec)) > 1:
        ctx.observe("numpy_refused")
        ctx.require(isinstance(err, ValueError), "numpy-accepted", f"vectors of lengths {vec} gave {short(out)} {err!r}", **det)
        return
    if err is not None:
        ctx.violation("numpy-refused", f"{err!r}", **det)
        return
    ctx.observe("numpy")
    rows = vec[0] if vec else 1
    if vec and len(vec) < len(final):
        ctx.observe("numpy_broadcast")
    want = np.array([[vals[f]] * rows if kinds[f] not in ("array", "list", "series") else list(vals[f]) for f in final], dtype=float).T
    ctx.require(isinstance(out, np.matrix) and out.shape == (rows, len(final)), "matrix-shape", f"{getattr(out, 'shape', out)} instead of {(rows, len(final))}", **det)
    if getattr(out, "shape", None) == want.shape:
        ctx.require(np.array_equal(np.asarray(out), want), "matrix-cells", f"{out} instead of {want}", **det)


# --------------------------------------------------------------------------------------------- polars
@check.family("polars", quick=1400, thorough=7000)
def f_polars(ctx):
    rng = ctx.rng
    lazy = rng.random() < .4
    n = rng.choice([0, 1, 2, 4])
    vals, kinds = {}, {}
    names = fresh_names(rng, rng.randrange(1, 5))
    if len(names) == 1:
        k = rng.choice(["plseries", "plframe", "lazy", "int", "str", "list"] if not lazy else ["plseries", "lazy", "list"])
        c = gen_cells(rng, max(n, 1))
        vals[names[0]] = {"plseries": lambda: pl.Series(rng.choice(["", "zz"]), c), "plframe": lambda: pl.DataFrame({"q": c, "r": c}),
                          "lazy": lambda: pl.LazyFrame({"q": c, "r": c}), "int": lambda: 3, "str": lambda: "t", "list": lambda: c}[k]()
        kinds[names[0]] = k
    else:
        for nm in names:
            kinds[nm] = rng.choice(["plseries", "plseries", "list"])
            c = gen_cells(rng, n)
            vals[nm] = pl.Series(rng.choice(["", "zz"]), c) if kinds[nm] == "plseries" else c
    b = h_polars_lazyframe.PolarsLazyFrameResult() if lazy else h_polars.PolarsDataFrameResult()
    final, out, err, det = decide(ctx, rng, vals, kinds, b, "polars-lazy" if lazy else "polars")
    if err is not None:
        raise err
    ctx.observe("polars_lazy" if lazy else "polars")
    ctx.require(isinstance(out, pl.LazyFrame if lazy else pl.DataFrame), "polars-type", f"{type(out)}", **det)
    if isinstance(out, pl.LazyFrame):
        out = out.collect()
    v = vals[final[0]]
    if len(final) == 1 and kinds[final[0]] in ("plframe", "lazy"):
        w = v.collect() if kinds[final[0]] == "lazy" else v
        ctx.require(out.equals(w) and out.columns == w.columns, "polars-frame", f"{out} instead of {w}", **det)
        return
    ctx.require(out.columns == final, "polars-columns", f"{out.columns} instead of {final}", **det)
    for f in final:
        if f not in out.columns:
            continue
        k = kinds[f]
        if k == "list" and len(final) == 1 and not lazy:
            want = [vals[f]]              # a sole non-series output is one cell
        elif k in ("int", "str"):
            want = [vals[f]]
        else:
            want = list(vals[f])
        got = out[f].to_list()
        ok = len(got) == len(want) and all(eqv(a, b2) or (isinstance(a, list) and same(a, b2)) for a, b2 in zip(got, want))
        ctx.require(ok, "polars-cells", f"{f}: {got} instead of {want}", **det)


@check.family("pyarrow", quick=600, thorough=3000)
def f_pyarrow(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 4])
    data = {c: [rng.randrange(99) for _ in range(n)] for c in rng.sample(["a", "b", "c"], rng.randrange(1, 4))}
    nm = fresh_names(rng, 1)[0]
    kinds = {nm: rng.choice(["frame", "plframe"])}
    vals = {nm: pd.DataFrame(data) if kinds[nm] == "frame" else pl.DataFrame(data)}
    two = rng.random() < .2
    if two:
        kinds[nm + "_x"], vals[nm + "_x"] = kinds[nm], vals[nm]
    final, out, err, det = decide(ctx, rng, vals, kinds, h_pyarrow.PyarrowTableResult(), "pyarrow")
    if two:
        ctx.observe("pyarrow_refused")
        ctx.require(isinstance(err, AssertionError), "pyarrow-accepted", f"{err!r} {short(out)}", **det)
        return
    if err is not None:
        raise err
    ctx.observe("pyarrow")
    ctx.require(isinstance(out, pa.Table) and out.to_pydict() == data, "pyarrow-cells", f"{short(out)} instead of {data}", **det)


if __name__ == "__main__":
    check.main()
