"""P17: the shipped data adapters write and read what the user's data and options say, whatever the format."""
import contextlib
import copy
import dataclasses
import gzip
import inspect
import io
import json
import os
import pickle
import sqlite3
import sys
import types
import warnings

import vf
from cmpv import same, short

check = vf.Check(
    "P17",
    rule="random data x every shipped format for plain values, numpy, pandas, polars (eager and lazy), yaml, through to./from_ materializers, @save_to/@load_from or the adapter itself, x random "
         "options drawn from the values each library accepts (falsy values and explicit None included). Oracles: the value saved comes back; an independent reader decodes the file; direct call of the "
         "library with the same options gives the same bytes/frame/error; recorder in place of the library function sees each option; metadata equals the file and frame. "
         "Distinct = format x options x data shape",
    required=["roundtrips", "written", "read", "forwarded", "metadata", "via_materialize", "via_static", "via_decorator", "same_error", "compressed", "empty_frame", "unicode", "nulls",
              "fmt_json", "fmt_pickle", "fmt_file", "fmt_bytes", "fmt_yaml", "fmt_npy", "fmt_memory", "fmt_literal", "fmt_environment", "fmt_pd_csv", "fmt_pd_parquet", "fmt_pd_pickle",
              "fmt_pd_json", "fmt_pd_feather", "fmt_pd_excel", "fmt_pd_xml", "fmt_pd_sql", "fmt_pd_stata", "fmt_pd_orc", "fmt_pl_csv", "fmt_pl_parquet", "fmt_pl_feather", "fmt_pl_json", "fmt_pl_avro", "fmt_pl_database", "lazy_saved",
              "fmt_lz_csv", "fmt_lz_parquet", "fmt_lz_feather", "overwritten"],
)


@check.setup
def setup_env():
    warnings.filterwarnings("ignore")
    import numpy as np
    import pandas as pd
    import polars as pl
    import yaml
    from hamilton import base, driver
    from hamilton.function_modifiers import load_from, save_to, source, value
    from hamilton.io.materialization import from_, to
    from hamilton.plugins import numpy_extensions, pandas_extensions, polars_extensions, yaml_extensions  # noqa: F401
    from hamilton.plugins import polars_lazyframe_extensions
    from hamilton.registry import LOADER_REGISTRY, SAVER_REGISTRY
    globals().update(np=np, pd=pd, pl=pl, yaml=yaml, base=base, driver=driver, load_from=load_from, save_to=save_to, source=source, value=value, from_=from_, to=to,
                     LOADERS=LOADER_REGISTRY, SAVERS=SAVER_REGISTRY)


# ---------------------------------------------------------------------------------------------------- running the adapters
COUNT = [0]


def module_with(**fns):
    COUNT[0] += 1
    m = types.ModuleType(f"vfio_{COUNT[0]}")
    sys.modules[m.__name__] = m
    for k, f in fns.items():
        f.__name__ = f.__qualname__ = k
        f.__module__ = m.__name__
        setattr(m, k, f)
    return m


def typed_fn(typ, val=None, arg=None):
    if arg is None:
        def f():
            return val
        f.__annotations__ = {"return": typ}
    else:
        def f(arg):
            return arg
        f.__annotations__ = {"return": typ, "arg": typ}
        f.__signature__ = inspect.Signature([inspect.Parameter("arg", inspect.Parameter.POSITIONAL_OR_KEYWORD, annotation=typ)], return_annotation=typ)
    return f


def lit(kw, rng):
    return {k: (value(v) if rng.random() < 0.3 else v) for k, v in kw.items()}


def save(ctx, node_type, node_data, fmt, how, **kw):
    """Metadata reported by saving `node_data` (a node of type `node_type`) as `fmt`."""
    rng = ctx.rng
    if how == "decorator":
        f = typed_fn(node_type, node_data)
        f.__name__ = "thing"
        m = module_with(thing=f)
        f2 = getattr(save_to, fmt)(output_name_="saved", **{k: value(v) for k, v in kw.items()})(m.thing)
        m.thing = f2
        ctx.observe("via_decorator")
        dr = driver.Builder().with_modules(m).build()
        return dr.execute(["saved"])["saved"]
    m = module_with(thing=typed_fn(node_type, node_data))
    mat = getattr(to, fmt)(id="saved", dependencies=["thing"], **lit(kw, rng))
    if how == "static":
        ctx.observe("via_static")
        dr = driver.Builder().with_modules(m).with_materializers(mat).build()
        return dr.execute(["saved"])["saved"]
    ctx.observe("via_materialize")
    dr = driver.Builder().with_modules(m).build()
    return dr.materialize(mat)[0]["saved"]


def load(ctx, node_type, fmt, how, **kw):
    rng = ctx.rng
    f = typed_fn(node_type, arg="arg")
    if how == "decorator":
        m = module_with(thing=f)
        m.thing = getattr(load_from, fmt)(**{k: value(v) for k, v in kw.items()})(m.thing)
        ctx.observe("via_decorator")
        dr = driver.Builder().with_modules(m).build()
        return dr.execute(["thing"])["thing"]
    m = module_with(thing=f)
    mat = getattr(from_, fmt)(target="arg", **lit(kw, rng))
    if how == "static":
        ctx.observe("via_static")
        dr = driver.Builder().with_modules(m).with_materializers(mat).build()
        return dr.execute(["thing"])["thing"]
    ctx.observe("via_materialize")
    dr = driver.Builder().with_modules(m).build()
    return dr.materialize(mat, additional_vars=["thing"])[1]["thing"]


HOW = ["materialize", "materialize", "static", "decorator"]


def attempt(fn):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return True, fn()
    except Exception as e:
        return False, e


def check_file_meta(ctx, fmt, meta, path):
    ctx.observe("metadata")
    fm = (meta or {}).get("file_metadata")
    ctx.require(isinstance(fm, dict) and fm.get("size") == os.path.getsize(path) and str(fm.get("path")) == str(path), f"metadata:{fmt}",
                f"{fmt}: reported file {fm}, the file is {path} of {os.path.getsize(path)} bytes")


def check_frame_meta(ctx, fmt, meta, df):
    dm = (meta or {}).get("dataframe_metadata")
    want = (len(df), list(df.columns), len(df.columns), [str(t) for t in df.dtypes])
    ctx.require(isinstance(dm, dict) and (dm.get("rows"), dm.get("column_names"), dm.get("columns"), dm.get("datatypes")) == want, f"frame-metadata:{fmt}",
                f"{fmt}: reported frame metadata {dm}, the frame has rows/columns {want}")


# ---------------------------------------------------------------------------------------------------- data
TEXTS = ["", "plain", "a,b;c|d", 'say "hi"', "tab\there", "ünï—漢字", "it's", " lead trail ", "None", "nan", "0012", "1.5", "#x", "line1\nline2", "{}", "true"]


def rand_json(rng, d=0):
    k = rng.randint(0, 6 if d < 3 else 4)
    if k == 0:
        return rng.choice([None, True, False])
    if k == 1:
        return rng.choice([0, -1, 7, 2**40, -2**63])
    if k == 2:
        return rng.choice([0.0, 1.5, -2.25, 1e300, 0.1])
    if k in (3, 4):
        return rng.choice(TEXTS)
    if k == 5:
        return [rand_json(rng, d + 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(TEXTS) + str(i): rand_json(rng, d + 1) for i in range(rng.randint(0, 3))}


def rand_cols(rng, n, kinds, nulls=True, texts=None):
    texts = texts or TEXTS
    out = {}
    for i, k in enumerate(kinds):
        if k == "int":
            v = [rng.randint(-1000, 10**9) for _ in range(n)]
        elif k == "float":
            v = [rng.choice([0.5, -1.25, 3.0, 1e10, 0.125]) for _ in range(n)]
        elif k == "bool":
            v = [rng.random() < 0.5 for _ in range(n)]
        elif k == "date":
            v = [pd.Timestamp(2020, 1 + rng.randint(0, 11), 1 + rng.randint(0, 27), rng.randint(0, 23), rng.randint(0, 59)) for _ in range(n)]
        else:
            v = [rng.choice(texts) for _ in range(n)]
        if nulls and k in ("float", "str") and n and rng.random() < 0.4:
            v[rng.randrange(n)] = None
        out[f"{k}_{i}"] = v
    return out


def rand_pd(ctx, kinds=("int", "float", "str", "bool", "date"), nulls=True, nmin=0, texts=None, index=True):
    rng = ctx.rng
    n = rng.choice([0, 1, 3, 7, 20]) if nmin == 0 else rng.randint(nmin, 12)
    ks = [rng.choice(kinds) for _ in range(rng.randint(1, 5))]
    cols = rand_cols(rng, n, ks, nulls, texts)
    dt = {"int": "int64", "float": "float64", "bool": "bool", "date": "datetime64[ns]", "str": "object"}
    df = pd.DataFrame({c: pd.Series(v, dtype=dt[c.split("_")[0]]) for c, v in cols.items()})
    if index and rng.random() < 0.25 and n:
        df.index = [f"r{i}" for i in range(n)]
    if n == 0:
        ctx.observe("empty_frame")
    if df.isna().any().any():
        ctx.observe("nulls")
    if any("漢" in str(x) for x in df.to_numpy().ravel()):
        ctx.observe("unicode")
    return df


def rand_pl(ctx, kinds=("int", "float", "str", "bool", "date"), nulls=True, nmin=0, texts=None):
    rng = ctx.rng
    n = rng.choice([0, 1, 3, 7, 20]) if nmin == 0 else rng.randint(nmin, 12)
    ks = [rng.choice(kinds) for _ in range(rng.randint(1, 5))]
    cols = rand_cols(rng, n, ks, nulls, texts)
    dt = {"int": pl.Int64, "float": pl.Float64, "bool": pl.Boolean, "date": pl.Datetime("us"), "str": pl.String}
    df = pl.DataFrame({c: pl.Series(c, [x.to_pydatetime() if c.startswith("date") else x for x in v], dtype=dt[c.split("_")[0]]) for c, v in cols.items()})
    if n == 0:
        ctx.observe("empty_frame")
    if df.null_count().sum_horizontal().sum():
        ctx.observe("nulls")
    return df


# ---------------------------------------------------------------------------------------------------- round trips
def rt_plain(ctx, fmt, d):
    rng = ctx.rng
    how, how2 = rng.choice(HOW), rng.choice(HOW)
    p = os.path.join(d, rng.choice(["f.bin", "sub dir.x", "ünï.dat"]))
    if fmt == "json":
        val = rng.choice([dict, list])
        while True:
            data = rand_json(rng)
            if isinstance(data, val):
                break
        typ, dec = val, lambda: json.load(open(p))
    elif fmt == "pickle":
        data = rng.choice([rand_json(rng), (1, "a", {2, 3}), {1: b"\x00\xff", (2, 3): 1j}, np.arange(4), rand_pd(ctx)])
        data = 7 if data is None else data
        typ, dec = type(data), lambda: pickle.load(open(p, "rb"))
    elif fmt == "file":
        data, typ = "".join(rng.choice(TEXTS) + "\n" for _ in range(rng.randint(0, 5))), str
        dec = None
    elif fmt == "yaml":
        while True:
            data = rand_json(rng)
            if data is not None:
                break
        typ, dec = type(data), lambda: yaml.safe_load(open(p))
    elif fmt == "npy":
        p = os.path.join(d, "a.npy")
        data = np.array([rng.random() for _ in range(rng.choice([0, 1, 6]))], dtype=rng.choice(["float64", "float32", "complex64"]))
        if len(data) == 6:
            data = data.reshape(rng.choice([(2, 3), (3, 2), (1, 6), (6,)]))
        typ, dec = np.ndarray, lambda: np.load(p)
    kw = {}
    if fmt == "file" and rng.random() < 0.5:
        kw = {"encoding": rng.choice(["utf-16", "utf-8"])}
        if rng.random() < 0.3:
            data, kw = "café", {"encoding": "latin-1"}
    if fmt == "file":
        def dec():
            return open(p, "rb").read().decode(kw.get("encoding", "utf-8"))
    if rng.random() < 0.4:
        with open(p, "wb") as f:
            f.write(b"previous content " * 200)
        ctx.observe("overwritten")
    if fmt == "pickle" and isinstance(data, (pd.DataFrame, np.ndarray)) and typ is pd.DataFrame:
        fmt_label = "pd_pickle"
    else:
        fmt_label = fmt
    meta = save(ctx, typ, data, fmt, how, path=p, **kw)
    check_file_meta(ctx, fmt_label, meta, p)
    got = dec()
    ctx.require(same(got, data), f"written:{fmt_label}", f"{fmt_label}: the saved file decodes to {short(got)} instead of {short(data)}", data=repr(data)[:500])
    back = load(ctx, typ, fmt, how2, path=p, **kw)
    ctx.require(same(back, data), f"roundtrip:{fmt_label}", f"{fmt_label}: loading what was saved gives {short(back)} instead of {short(data)}", data=repr(data)[:500])
    ctx.sig(fmt, how, how2, typ.__name__, repr(data)[:60])
    ctx.observe("roundtrips")
    ctx.observe("fmt_" + fmt_label)


def rt_bytes(ctx, d):
    rng = ctx.rng
    p = os.path.join(d, "b.bin")
    raw = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 300])))
    data = raw
    if rng.random() < 0.5:
        data = io.BytesIO(raw)
        data.seek(rng.randint(0, len(raw)))
    meta = save(ctx, type(data), data, "file", ctx.rng.choice(HOW), path=p)
    check_file_meta(ctx, "bytes", meta, p)
    ctx.require(open(p, "rb").read() == raw, "written:bytes", f"file saver wrote {os.path.getsize(p)} bytes instead of the {len(raw)} given ({type(data).__name__})")
    ctx.sig("bytes", type(data).__name__, len(raw))
    ctx.observe("fmt_bytes")


def rt_misc(ctx, d):
    rng = ctx.rng
    data = rand_json(rng)
    data = {"x": data}
    got = save(ctx, dict, data, "memory", rng.choice(HOW))
    ctx.require(same(got, data), "memory", f"to.memory returned {short(got)} for {short(data)}")
    ctx.observe("fmt_memory")
    got = load(ctx, dict, "literal", rng.choice(HOW), value=data)
    ctx.require(same(got, data), "literal", f"from_.literal loaded {short(got)} for {short(data)}")
    ctx.observe("fmt_literal")
    names = [f"VF_ENV_{i}" for i in range(rng.randint(1, 3))]
    for n in names:
        os.environ[n] = rng.choice(["", "v", "ü=1"]) + n
    want = {n: os.environ[n] for n in names}
    got = load(ctx, dict, "environment", rng.choice(HOW), names=tuple(names))
    ctx.require(same(got, want), "environment", f"from_.environment loaded {got} instead of {want}")
    ctx.observe("fmt_environment")
    ok, r = attempt(lambda: load(ctx, dict, "environment", "materialize", names=("VF_ABSENT_ENV",)))
    ctx.require(not ok, "environment-missing", f"from_.environment loaded {r} for a variable that is not set")
    for n in names:
        del os.environ[n]


@check.family("plain", quick=800)
def plain(ctx):
    d = ctx.tmpdir()
    k = ctx.rng.choice(["json", "pickle", "file", "yaml", "npy", "json", "pickle", "file", "bytes", "misc"])
    if k == "bytes":
        rt_bytes(ctx, d)
    elif k == "misc":
        rt_misc(ctx, d)
    else:
        rt_plain(ctx, k, d)


# frame formats: what is saved comes back (in the domain each format represents exactly)
def pd_formats(ctx):
    safe = [t for t in TEXTS if t not in ("", "None", "nan", "0012", "1.5", "true") and "\n" not in t and t == t.strip() and "\t" not in t]
    nonum = [t for t in TEXTS if t not in ("", "nan", "None", "0012", "1.5", "true")]
    nd = {"dtype_backend": "numpy_nullable"}
    return {
        "csv": dict(df=lambda: rand_pd(ctx, ("int", "float", "str"), nmin=1, texts=nonum, index=False), path="path", exts=["csv", "csv.gz", "csv.bz2"], strict=False),
        "parquet": dict(df=lambda: rand_pd(ctx), path="path", exts=["parquet"], strict=False),
        "pickle": dict(df=lambda: rand_pd(ctx), path="path", exts=["pkl", "pkl.gz"], strict=True),
        "json": dict(df=lambda: rand_pd(ctx, ("int", "float", "str"), nulls=False, nmin=1, texts=safe, index=False), path="filepath_or_buffer", exts=["json", "json.gz"], strict=False),
        "feather": dict(df=lambda: rand_pd(ctx, index=False), path="path", exts=["feather"], strict=False),
        "orc": dict(df=lambda: rand_pd(ctx, ("int", "float", "str", "bool"), nulls=False, nmin=1, index=False), path="path", exts=["orc"], strict=False),
        "excel": dict(df=lambda: rand_pd(ctx, ("int", "float", "str", "bool"), nulls=False, nmin=1, texts=safe, index=False), path="path", exts=["xlsx"], strict=False, wkw={"index": False}),
        "xml": dict(df=lambda: rand_pd(ctx, ("int", "float", "str"), nulls=False, nmin=1, texts=safe, index=False), path="path_or_buffer", exts=["xml"], strict=False, wkw={"index": False}),
        "stata": dict(df=lambda: rand_pd(ctx, ("float", "str"), nulls=False, nmin=1, texts=["a", "bc", "def g"], index=False), path=("path", "filepath_or_buffer"), exts=["dta"], strict=False,
                      wkw={"write_index": False}),
    }


def norm(df):
    """Values only: [column -> list of python values, nulls as None]."""
    return {str(c): [None if x is None or x is pd.NA or x is pd.NaT or x != x else (x.isoformat() if hasattr(x, "isoformat") else (x.item() if hasattr(x, "item") else x)) for x in df[c].tolist()]
            for c in df.columns}


def same_values(a, b):
    na, nb = norm(a), norm(b)
    if list(na) != list(nb):
        return False
    for c in na:
        if len(na[c]) != len(nb[c]):
            return False
        for x, y in zip(na[c], nb[c]):
            if x is None and y is None:
                continue
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool):
                if float(x) != float(y):
                    return False
            elif x != y:
                return False
    return True


def index_of(df):
    return [str(x) for x in df.index]


def rt_database(ctx, df, d):
    import sqlalchemy
    rng = ctx.rng
    eng = sqlalchemy.create_engine(f"sqlite:///{d}/x.db")
    times = rng.choice([1, 2])
    for _ in range(times):
        save(ctx, pl.DataFrame, df, "database", rng.choice(HOW[:3]), table_name="tab", connection=f"sqlite:///{d}/x.db", if_table_exists="append")
    with eng.connect() as con:
        got = load(ctx, pl.DataFrame, "database", rng.choice(HOW[:3]), query="SELECT * FROM tab", connection=con)
    eng.dispose()
    want = pl.concat([df] * times)
    a, b = got.to_dict(as_series=False), want.to_dict(as_series=False)
    ctx.require(a == b, "roundtrip:pl_database", f"database: loaded {a} instead of {b}")
    ok, e = attempt(lambda: save(ctx, pl.DataFrame, df, "database", "materialize", table_name="tab", connection=f"sqlite:///{d}/x.db"))
    ctx.require(not ok, "database-overwritten", "to.database(if_table_exists='fail') wrote to a table that exists")
    ctx.sig("pl", "database", times, df.columns)
    ctx.observe("roundtrips")
    ctx.observe("fmt_pl_database")


@check.family("frames", quick=1000)
def frames(ctx):
    rng, d = ctx.rng, ctx.tmpdir()
    lib = rng.choice(["pd", "pd", "pd", "pl", "lz"])
    if lib == "pd":
        fmts = pd_formats(ctx)
        fmt = rng.choice(list(fmts) + ["sql"])
        if fmt == "sql":
            df = rand_pd(ctx, ("int", "float", "str"), nmin=1, index=False)
            con = sqlite3.connect(os.path.join(d, "x.db"))
            times = rng.choice([1, 1, 2])
            for i in range(times):
                meta = save(ctx, pd.DataFrame, df, "sql", rng.choice(HOW[:3]), table_name="tab", db_connection=con, index=False, if_exists="append")
                check_frame_meta(ctx, "pd_sql", meta, df)
                ctx.require(meta.get("sql_metadata", {}).get("table_name") == "tab" and meta["sql_metadata"].get("rows") == len(df), "metadata:pd_sql", f"sql metadata {meta.get('sql_metadata')}")
            want = pd.concat([df] * times, ignore_index=True)
            got = load(ctx, pd.DataFrame, "sql", rng.choice(HOW[:3]), query_or_table="SELECT * FROM tab", db_connection=con)
            ctx.require(same_values(got, want), "roundtrip:pd_sql", f"sql: loaded {norm(got)} instead of {norm(want)}")
            con.close()
            ctx.sig("sql", times, list(df.columns), len(df))
            ctx.observe("roundtrips")
            ctx.observe("fmt_pd_sql")
            return
        spec = fmts[fmt]
        df = spec["df"]()
        p = os.path.join(d, "f." + rng.choice(spec["exts"]))
        wp, rp = spec["path"] if isinstance(spec["path"], tuple) else (spec["path"],) * 2
        if rng.random() < 0.3:
            with open(p, "wb") as f:
                f.write(b"junk" * 10000)
            ctx.observe("overwritten")
        before = df.copy(deep=True)
        meta = save(ctx, pd.DataFrame, df, fmt, rng.choice(HOW), **{wp: p}, **spec.get("wkw", {}))
        ctx.require(same(df, before), f"data-mutated:pd_{fmt}", f"saving as {fmt} changed the data frame in memory")
        check_file_meta(ctx, "pd_" + fmt, meta, p)
        check_frame_meta(ctx, "pd_" + fmt, meta, df)
        if p.endswith(("gz", "bz2")):
            raw = open(p, "rb").read(3)
            ctx.require(raw[:2] == b"\x1f\x8b" or raw == b"BZh", f"compression:pd_{fmt}", f"{p} was written uncompressed")
            ctx.observe("compressed")
        got = load(ctx, pd.DataFrame, fmt, rng.choice(HOW), **{rp: p})
        good = same(got, df) if spec["strict"] else same_values(got, df)
        if fmt in ("parquet", "pickle"):
            good = good and index_of(got) == index_of(df)
        ctx.require(good, f"roundtrip:pd_{fmt}", lambda: f"{fmt}: loaded {norm(got)} index {index_of(got)} instead of {norm(df)} index {index_of(df)}")
        ctx.sig("pd", fmt, p[-4:], [c.split("_")[0] for c in df.columns], len(df))
        ctx.observe("roundtrips")
        ctx.observe("fmt_pd_" + fmt)
        return
    safe = [t for t in TEXTS if t not in ("", "None", "nan", "0012", "1.5", "true")]
    fmt = rng.choice(["csv", "parquet", "feather", "json", "avro", "database"] if lib == "pl" else ["csv", "parquet", "feather"])
    kinds = ("int", "float", "str") if fmt in ("csv", "json", "database") else ("int", "float", "str", "bool", "date")
    df = rand_pl(ctx, kinds, nulls=fmt != "csv", nmin=1 if fmt in ("csv", "json", "database") else 0, texts=safe)
    p = os.path.join(d, "f." + fmt)
    typ = pl.DataFrame if lib == "pl" else pl.LazyFrame
    if fmt == "database":
        rt_database(ctx, df, d)
        return
    if rng.random() < 0.3:
        ctx.observe("lazy_saved")
        meta = save(ctx, pl.LazyFrame, df.lazy(), fmt, rng.choice(HOW), file=p)
    else:
        meta = save(ctx, pl.DataFrame, df, fmt, rng.choice(HOW), file=p)
        check_frame_meta(ctx, "pl_" + fmt, meta, df)
    check_file_meta(ctx, f"{lib}_{fmt}", meta, p)
    arg = {"csv": "file", "parquet": "file", "feather": "source", "json": "source", "avro": "file"}[fmt]
    got = load(ctx, typ, fmt, rng.choice(HOW), **{arg: p})
    ctx.require(isinstance(got, typ), f"type:{lib}_{fmt}", f"{fmt}: loaded a {type(got).__name__} for a {typ.__name__} node")
    if isinstance(got, pl.LazyFrame):
        got = got.collect()
    a, b = got.to_dict(as_series=False), df.to_dict(as_series=False)
    good = list(a) == list(b) and all(len(a[c]) == len(b[c]) and all(x == y for x, y in zip(a[c], b[c])) for c in a)
    ctx.require(good, f"roundtrip:{lib}_{fmt}", lambda: f"{fmt}: loaded {a} instead of {b}")
    ctx.sig(lib, fmt, [c.split("_")[0] for c in df.columns], len(df))
    ctx.observe("roundtrips")
    ctx.observe(f"fmt_{lib}_{fmt}")


# ---------------------------------------------------------------------------------------------------- options: same as calling the library
def pick(rng, table, k=4):
    return {n: rng.choice(vals) for n, vals in rng.sample(sorted(table.items()), min(len(table), rng.randint(0, k)))}


def direct_excel(df):
    def f(p, **kw):
        wk = {k: kw.pop(k) for k in ("date_format", "datetime_format", "mode", "engine") if k in kw}
        with pd.ExcelWriter(p, **wk) as w:
            df.to_excel(w, **kw)
    return f


def cells(p):
    import openpyxl
    wb = openpyxl.load_workbook(p)
    return [(ws.title, ws.freeze_panes, sorted((c.coordinate, repr(c.value), c.number_format) for row in ws.iter_rows() for c in row if c.value is not None),
             sorted(map(str, ws.merged_cells.ranges))) for ws in wb.worksheets]


def write_specs(df):
    cols = list(df.columns)
    some = [cols[:1], cols[::-1], cols]
    return {
        "csv": ("path", lambda p, **kw: df.to_csv(p, **{"index": False, **kw}), {
            "sep": [",", ";", "\t", "|"], "na_rep": ["", "NULL", "-"], "float_format": ["%.2f", "%g"], "columns": some, "header": [True, False, ["h"] * len(cols)], "index": [True, False],
            "index_label": ["idx", "", False], "mode": ["w", "a"], "encoding": ["utf-8", "utf-16", "utf-8-sig"], "compression": [None, "infer", "gzip", "bz2", "xz"], "quoting": [0, 1, 2],
            "quotechar": ['"', "'"], "lineterminator": ["\n", "\r\n"], "date_format": ["%Y", "%d/%m/%y"], "doublequote": [True], "decimal": [".", ","], "errors": ["strict", "replace"], "chunksize": [1, 2]}),
        "parquet": ("path", lambda p, **kw: df.to_parquet(p, **kw), {
            "engine": ["auto", "pyarrow"], "compression": [None, "snappy", "gzip", "brotli"], "index": [None, True, False]}),
        "json": ("filepath_or_buffer", lambda p, **kw: df.to_json(p, **{"date_format": "epoch", "indent": 0, **kw}), {
            "date_format": ["epoch", "iso"], "date_unit": ["s", "ms", "us"], "double_precision": [0, 3, 15], "force_ascii": [True, False], "indent": [0, 2], "orient": ["split", "records", "index", "columns", "values", "table"],
            "lines": [True], "compression": ["infer", "gzip", "bz2"], "index": [True, False]}),
        "feather": ("path", lambda p, **kw: df.to_feather(p, **kw), {"compression": ["zstd", "lz4", "uncompressed"], "compression_level": [1, 3], "version": [1, 2], "chunksize": [1, 100]}),
        "xml": ("path_or_buffer", lambda p, **kw: df.to_xml(p, **kw), {
            "index": [True, False], "root_name": ["top", "data"], "row_name": ["line"], "na_rep": ["NA"], "attr_cols": some, "elems_cols": some, "namespaces": [{"": "http://e.x"}], "prefix": ["doc"],
            "encoding": ["utf-8", "utf-16"], "xml_declaration": [True, False], "pretty_print": [True, False], "parser": ["lxml", "etree"], "compression": [None, "infer", "gzip"]}),
        "html": ("buf", lambda p, **kw: df.to_html(p, **{"sparsify": True, "encoding": "utf-8", **kw}), {
            "columns": some, "header": [True, False], "index": [True, False], "na_rep": ["", "x"], "float_format": [lambda v: f"{v:.1f}"], "max_rows": [1, 2], "max_cols": [1], "show_dimensions": [True, False],
            "decimal": [","], "bold_rows": [True, False], "classes": ["k", ["a", "b"]], "escape": [True, False], "border": [0, 3], "table_id": ["t"], "render_links": [True, False], "justify": ["left"]}),
        "excel": ("path", direct_excel(df), {
            "sheet_name": ["S", "two words"], "na_rep": ["", "x"], "columns": some, "header": [True, False], "index": [True, False], "index_label": ["i"], "startrow": [0, 2], "startcol": [0, 1],
            "engine": ["openpyxl", "xlsxwriter", None], "merge_cells": [True, False], "inf_rep": ["inf"], "freeze_panes": [(1, 1)], "float_format": ["%.1f"], "date_format": ["YYYY"], "datetime_format": ["YYYY-MM"],
            "mode": ["w"]}),
        "pickle": ("path", lambda p, **kw: df.to_pickle(p, **kw), {"compression": [None, "infer", "gzip", "bz2"], "protocol": [2, 4, 5]}),
        "stata": ("path", lambda p, **kw: df.to_stata(p, **kw), {
            "write_index": [True, False], "byteorder": ["<", ">"], "data_label": ["lab"], "version": [114, 117, 118], "compression": ["infer", "gzip"], "variable_labels": [{c: "v" + c for c in cols}]}),
    }


EXT = {"csv": "csv", "parquet": "parquet", "json": "json", "feather": "feather", "xml": "xml", "html": "html", "pickle": "pkl", "stata": "dta", "excel": "xlsx"}


def content(p):
    raw = open(p, "rb").read()
    if raw[:2] == b"\x1f\x8b":
        return ("gz", gzip.decompress(raw))
    return ("raw", raw)


@check.family("write_options", quick=1400)
def write_options(ctx):
    rng, d = ctx.rng, ctx.tmpdir()
    df = rand_pd(ctx, index=rng.random() < 0.5)
    specs = write_specs(df)
    fmt = rng.choice(list(specs) + ["csv", "parquet", "json", "xml"])
    arg, direct, table = specs[fmt]
    kw = pick(rng, table, 5)
    if fmt == "stata":
        df2 = df.rename(columns=str)
        kw.setdefault("time_stamp", None)
        import datetime
        kw["time_stamp"] = datetime.datetime(2020, 1, 1)
    ext = EXT[fmt] + rng.choice(["", "", ".gz", ".bz2"] if fmt in ("csv", "json", "xml", "pickle") else [""])
    os.makedirs(os.path.join(d, "a"))
    os.makedirs(os.path.join(d, "b"))
    pa, pb = os.path.join(d, "a", "f." + ext), os.path.join(d, "b", "f." + ext)
    if kw.get("mode") == "a" and not ext.endswith(("gz", "bz2")) and kw.get("compression") in (None, "infer"):
        for p in (pa, pb):
            with open(p, "w") as f:
                f.write("before\n")
    lib_kw = {{"elems_cols": "elem_cols"}.get(k, k): v for k, v in kw.items()}
    ok_b, rb = attempt(lambda: direct(pb, **copy.deepcopy(lib_kw)))
    how = rng.choice(HOW)
    ok_a, ra = attempt(lambda: save(ctx, pd.DataFrame, df, fmt, how, **{arg: pa}, **copy.deepcopy(kw)))
    label = f"to.{fmt}({arg}=…{ext}, {kw})"
    ctx.sig(fmt, ext, sorted((k, repr(v)) for k, v in kw.items() if not callable(v)), len(df))
    if not ok_b:
        if ctx.require(not ok_a, f"error-hidden:pd_{fmt}", f"{label} saved silently, the library raises {rb!r}"):
            ctx.observe("same_error")
        return
    if not ctx.require(ok_a, f"write-failed:pd_{fmt}", f"{label} raised {ra!r}; the library writes it"):
        return
    ctx.observe("written")
    if os.path.exists(pb):
        ca, cb = content(pa), content(pb)
        if fmt == "excel":
            good = cells(pa) == cells(pb)
        elif fmt == "pickle":
            good = ca[0] == cb[0] and same(pd.read_pickle(pa, compression=kw.get("compression", "infer")), df)
        else:
            good = ca == cb
        ctx.require(good, f"written:pd_{fmt}", lambda: f"{label} wrote {ca[0]} {ca[1][:300]!r}; pandas with the same options writes {cb[0]} {cb[1][:300]!r}", options=repr(kw))
        check_file_meta(ctx, "pd_" + fmt, ra, pa)
        check_frame_meta(ctx, "pd_" + fmt, ra, df)


CSV_TEXTS = [
    "a;b;c\n1;2,5;x\n2;3,5;y\n3;4,25;z\nfooter;0;0\n", "a,b,c\n1,2.5,x\n,,\n3,4.5,z\n\n7,8,w\n", "1,2,3\n4,5,6\n7,8,9\n", "# comment\na,b,a\n1,NA,yes\n2,-,no\nTotal,0,no\n",
    "a\tb\tc\n1\t2020-01-02\tx\n2\t2021-03-04\ty\n", "a,b,c\n\"1,000\",'q,r',x\n\"2,500\",'s',y\n", "a|b\n 1| x\n 2| y\n", "id,when,val\n1,03/04/2020,1e3\n2,05/06/2021,2.25\n3,01/02/2022,7\n",
]


def read_specs():
    tab = {
        "sep": [",", ";", "\t", "|"], "delimiter": [",", ";", "|"], "header": [None, 0, 1, "infer"], "names": [["x", "y", "z"], ["q", "w"]], "index_col": [0, False], "usecols": [[0], [0, 1]], "dtype": ["str", "object"],
        "engine": ["c", "python"], "skipinitialspace": [True, False], "skiprows": [1, [0], 2, 0], "skipfooter": [0, 1, 2], "nrows": [0, 1, 2], "na_values": [["-"], ["x", "2"]], "keep_default_na": [True, False],
        "na_filter": [True, False], "skip_blank_lines": [True, False], "parse_dates": [False, [1]], "dayfirst": [True, False], "thousands": [","], "decimal": [".", ","], "quotechar": ['"', "'"], "quoting": [0, 3],
        "comment": ["#"], "encoding": ["utf-8", "latin-1"], "on_bad_lines": ["error", "skip"], "true_values": [["yes"]], "false_values": [["no"]], "low_memory": [True, False],
        "dtype_backend": ["pyarrow", "numpy_nullable"], "compression": [None, "infer"], "converters": [{0: str}], "skiprows ": []}
    tab.pop("skiprows ")
    return tab


@check.family("read_options", quick=1800)
def read_options(ctx):
    rng, d = ctx.rng, ctx.tmpdir()
    fmt = rng.choice(["csv", "csv", "csv", "json", "parquet", "feather", "excel", "xml", "table", "fwf", "pl_csv", "pl_parquet", "stata", "pickle"])
    typ, dflt, ren = pd.DataFrame, {"dtype_backend": "numpy_nullable"}, {}
    arg = "path"
    if fmt in ("csv", "table", "fwf"):
        text = rng.choice(CSV_TEXTS)
        p = os.path.join(d, "f." + rng.choice(["csv", "txt", "csv.gz"]))
        with open(p, "wb") as f:
            f.write(gzip.compress(text.encode()) if p.endswith("gz") else text.encode())
        tab = read_specs()
        fn = {"csv": pd.read_csv, "table": pd.read_table, "fwf": pd.read_fwf}[fmt]
        if fmt == "csv":
            kw = pick(rng, tab, 5)
            if "sep" in kw:
                kw.pop("delimiter", None)  # synonyms: refused together
        elif fmt == "table":
            arg, dflt = "filepath_or_buffer", {"sep": None, "dtype_backend": "numpy_nullable"}  # the adapter declares sep=None: detect it
            kw = pick(rng, {k: tab[k] for k in ("sep", "header", "names", "usecols", "skiprows", "nrows", "na_values", "keep_default_na", "decimal", "comment", "skip_blank_lines", "thousands", "quotechar")}, 4)
        else:
            arg = "filepath_or_buffer"
            kw = pick(rng, {"colspecs": ["infer", [(0, 2), (2, 6)]], "widths": [[2, 3], [1, 4, 2]], "infer_nrows": [1, 100]}, 2)
    elif fmt == "json":
        df = rand_pd(ctx, index=False)
        orient = rng.choice(["records", "split", "columns", "values", "table"])
        lines = orient == "records" and rng.random() < 0.5
        p, arg = os.path.join(d, "f.json" + rng.choice(["", ".gz"])), "filepath_or_buffer"
        df.to_json(p, orient=orient, lines=lines)
        fn, dflt = pd.read_json, {}
        kw = pick(rng, {"orient": [orient, orient, None, "split"], "lines": [lines, lines, True, False], "convert_axes": [True, False], "convert_dates": [True, False, ["date_0"]], "keep_default_dates": [True, False],
                        "precise_float": [True, False], "dtype": [False, True], "nrows": [1, 2], "typ": ["frame"], "compression": ["infer", "gzip", None], "date_unit": ["ms", "s"], "encoding": ["utf-8"]}, 5)
        kw.setdefault("orient", orient)
        if lines:
            kw.setdefault("lines", lines)
    elif fmt in ("parquet", "feather"):
        df = rand_pd(ctx, index=fmt == "parquet")
        p = os.path.join(d, "f." + fmt)
        getattr(df, "to_" + fmt)(p)
        fn = getattr(pd, "read_" + fmt)
        kw = pick(rng, {"columns": [list(df.columns)[:1], list(df.columns)[::-1], ["absent"]], "dtype_backend": ["pyarrow", "numpy_nullable"],
                        **({"engine": ["auto", "pyarrow"], "filters": [[(df.columns[0], "!=", None)], None]} if fmt == "parquet" else {"use_threads": [True, False]})}, 3)
        kw = {k: v for k, v in kw.items() if not (k == "filters" and v)}
    elif fmt == "excel":
        df = rand_pd(ctx, ("int", "float", "str", "bool"), nmin=2, index=False)
        p = os.path.join(d, "f.xlsx")
        with pd.ExcelWriter(p) as w:
            df.to_excel(w, sheet_name="one", index=False)
            df.iloc[:1].to_excel(w, sheet_name="two")
        fn = pd.read_excel
        kw = pick(rng, {"sheet_name": [0, 1, "two", "nope"], "header": [None, 0, 1], "index_col": [0, None], "usecols": [[0], None], "skiprows": [0, 1], "nrows": [0, 1], "keep_default_na": [True, False],
                        "na_filter": [True, False], "skipfooter": [0, 1], "dtype": ["object", None], "names": [None], "decimal": [".", ","], "thousands": [None, ","],
                        "dtype_backend": ["pyarrow", "numpy_nullable"], "engine": ["openpyxl", None]}, 5)
    elif fmt == "xml":
        p, arg = os.path.join(d, "f.xml"), "path_or_buffer"
        body = "".join(f'<x:row id="{i}"><x:a>{rng.randint(0, 9)}</x:a><x:b>{rng.choice(["u", "v"])}</x:b></x:row>' for i in range(3))
        with open(p, "w") as f:
            f.write(f'<data xmlns:x="http://e.x">{body}<other><a>1</a></other></data>')
        fn, ren = pd.read_xml, {"namespace": "namespaces"}
        kw = pick(rng, {"xpath": [".//z:row", "./*", "//other"], "namespace": [{"z": "http://e.x"}, {"z": "http://wrong"}], "elems_only": [True, False], "attrs_only": [True, False], "names": [["p", "q", "r"]],
                        "dtype": [{"a": "str"}], "parser": ["lxml", "etree"], "encoding": ["utf-8"], "dtype_backend": ["pyarrow", "numpy_nullable"], "compression": [None, "infer"]}, 5)
    elif fmt == "stata":
        df = rand_pd(ctx, ("int", "float", "str"), nulls=False, nmin=1, texts=["a", "b"], index=False)
        p, arg = os.path.join(d, "f.dta"), "filepath_or_buffer"
        ok, _ = attempt(lambda: df.to_stata(p))
        if not ok:
            raise vf.Skip("not a stata frame")
        fn, dflt = pd.read_stata, {}
        kw = pick(rng, {"convert_dates": [True, False], "index_col": ["index", None], "convert_missing": [True, False], "preserve_dtypes": [True, False], "columns": [list(df.columns)[:1]], "order_categoricals": [True, False]}, 4)
    elif fmt == "pickle":
        df = rand_pd(ctx)
        p, arg = os.path.join(d, "f.pkl" + rng.choice(["", ".gz"])), rng.choice(["path", "filepath_or_buffer"])
        df.to_pickle(p, compression=rng.choice([None, "infer", "gzip"]))
        fn, dflt = pd.read_pickle, {}
        kw = pick(rng, {"compression": [None, "infer", "gzip"]}, 1)
    elif fmt == "pl_csv":
        typ, arg, dflt = pl.DataFrame, "file", {}
        p = os.path.join(d, "f.csv")
        with open(p, "w") as f:
            f.write(rng.choice(CSV_TEXTS))
        fn = pl.read_csv
        kw = pick(rng, {"has_header": [True, False], "columns": [[0], ["a"]], "new_columns": [["n1", "n2"]], "separator": [",", ";", "|"], "skip_rows": [0, 1], "null_values": ["NA", ["-", "2"]], "ignore_errors": [True, False],
                        "n_rows": [0, 1, 2], "infer_schema_length": [0, 1, 100], "skip_rows_after_header": [0, 1], "try_parse_dates": [True, False], "missing_utf8_is_empty_string": [True, False], "quote_char": ['"', "'"],
                        "raise_if_empty": [True, False], "row_count_name": ["rn"], "row_count_offset": [3], "eol_char": ["\n"], "truncate_ragged_lines": [True, False], "low_memory": [True, False], "rechunk": [True, False]}, 5)
        if "truncate_ragged_lines" in kw and not field_of("csv", pl.DataFrame, "truncate_ragged_lines", LOADERS):
            kw.pop("truncate_ragged_lines")
    else:
        typ, arg, dflt = pl.DataFrame, "file", {}
        df = rand_pl(ctx)
        p = os.path.join(d, "f.parquet")
        df.write_parquet(p)
        fn = pl.read_parquet
        kw = pick(rng, {"columns": [df.columns[:1], df.columns[::-1], ["absent"]], "n_rows": [0, 1, 5], "row_count_name": ["rn"], "row_count_offset": [2], "low_memory": [True, False], "parallel": ["auto", "columns"],
                        "use_statistics": [True, False], "rechunk": [True, False]}, 4)
    name = fmt[3:] if fmt.startswith("pl_") else fmt
    ok_b, rb = attempt(lambda: fn(p, **{**dflt, **{ren.get(k, k): v for k, v in kw.items()}}))
    ok_a, ra = attempt(lambda: load(ctx, typ, name, rng.choice(HOW), **{arg: p}, **kw))
    label = f"from_.{name}({arg}=…{os.path.basename(p)}, {kw}) for {typ.__module__.split('.')[0]}"
    ctx.sig(fmt, os.path.basename(p), sorted((k, repr(v)) for k, v in kw.items()))
    detail = dict(options=repr(kw), content=repr(open(p, "rb").read()[:400]))
    if ok_b and isinstance(rb, dict):
        raise vf.Skip("several sheets")
    if not ok_b:
        if ctx.require(not ok_a, f"error-hidden:{fmt}", lambda: f"{label} loaded {short(ra)} silently, the library raises {rb!r}", **detail):
            ctx.observe("same_error")
        return
    if not ctx.require(ok_a, f"read-failed:{fmt}", f"{label} raised {ra!r}; the library reads it", **detail):
        return
    ctx.observe("read")
    ctx.require(same(ra, rb), f"read:{fmt}", lambda: f"{label} loaded\n{ra}\n{getattr(ra, 'dtypes', '')}\nthe library with the same options gives\n{rb}\n{getattr(rb, 'dtypes', '')}", **detail)


def field_of(name, typ, field, reg):
    return any(field in {f.name for f in dataclasses.fields(c)} for c in reg.get(name, []) if typ in c.applicable_types())


# ---------------------------------------------------------------------------------------------------- every option reaches the library
class Called(Exception):
    pass


RENAMES = {"namespace": "namespaces", "elems_cols": "elem_cols", "dtypes": "schema_overrides", "row_count_name": "row_index_name", "row_count_offset": "row_index_offset", "comment_char": "comment_prefix",
           "table_name": "name", "query_or_table": "sql", "db_connection": "con", "file": "source"}
VALUES = [False, True, 0, 1, 7, "", "x", [], ["q"], {}, {"k": 1}, 2.5]


@contextlib.contextmanager
def recorders(rec):
    saved = []

    def put(owner, name, method):
        orig = getattr(owner, name)
        sig = inspect.signature(orig)

        def f(*a, **k):
            k = {(RENAMES[n] if n in RENAMES and n not in sig.parameters and RENAMES[n] in sig.parameters else n): v for n, v in k.items()}
            b = sig.bind(*a, **k)
            args = dict(b.arguments)
            for prm in sig.parameters.values():
                if prm.kind is prm.VAR_KEYWORD:
                    args.update(args.pop(prm.name, {}))
            if method:
                args.pop(next(iter(sig.parameters)), None)
            rec.append((name, args, sig))
            raise Called()
        saved.append((owner, name, orig))
        setattr(owner, name, f)
    try:
        for owner, prefixes, method in ((pd, ("read_",), False), (pl, ("read_", "scan_"), False), (pd.DataFrame, ("to_",), True), (pl.DataFrame, ("write_",), True), (pl.LazyFrame, ("sink_", "collect"), True)):
            for n in dir(owner):
                if n.startswith(prefixes) and callable(getattr(owner, n)) and n not in ("to_numpy", "to_dict", "to_records", "to_string"):
                    try:
                        put(owner, n, method)
                    except (ValueError, TypeError, AttributeError):
                        pass
        yield
    finally:
        for owner, name, orig in saved:
            setattr(owner, name, orig)


PD_TYPES = None


@check.family("forwarding", quick=1800, thorough=8000)
def forwarding(ctx):
    """Each case: one adapter class, a handful of its options with arbitrary (often falsy) values; the recorded library call must carry them."""
    rng = ctx.rng
    loader = rng.random() < 0.5
    reg = LOADERS if loader else SAVERS
    cands = sorted({(n, c.__module__, c.__qualname__): c for n, cs in reg.items() for c in cs if c.__module__.startswith("hamilton.plugins.p") and c.__module__.split(".")[-1].startswith(("pandas_", "polars_"))
                    and dataclasses.is_dataclass(c)}.items(), key=lambda kv: kv[0])
    (name, mod, qual), cls = rng.choice(cands)
    if (name, loader) in (("excel", False), ("spreadsheet", False)):
        raise vf.Skip("excel writers are covered by write_options/frames")
    fields = [f for f in dataclasses.fields(cls) if f.init]
    required = [f for f in fields if f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING]
    kw = {f.name: "the_path.xx" for f in required}
    if name in ("pickle", "excel") and loader or name in ("stata", "html") and not loader:
        kw = {("buf" if name == "html" else "path"): "the_path.xx"}
    if name in ("feather", "avro", "json") and not kw:
        kw = {"file": "the_path.xx"}
    opt = [f for f in fields if f.name not in kw and f.name not in ("path", "filepath_or_buffer", "extra_kwargs", "use_nullable_dtypes")]
    chosen = rng.sample(opt, min(len(opt), rng.randint(1, 4)))
    vals = {f.name: rng.choice(VALUES) for f in chosen}
    if "convert_strl" in vals:
        vals["version"] = 117
    df = pd.DataFrame({"a": [1]}) if "pandas" in mod else pl.DataFrame({"a": [1]})
    obj = cls(**kw, **vals)
    rec = []
    with recorders(rec):
        try:
            if loader:
                obj.load_data(type(df))
            else:
                obj.save_data(df)
        except Called:
            pass
        except TypeError as e:
            rec.append(("TypeError", e, None))
    if not rec or rec[0][0] == "TypeError":
        if "polars" in mod:
            raise vf.Skip("library no longer has one of the options")
        ctx.require(False, f"not-callable:{qual}", f"{qual}({kw}, {vals}) could not call the library: {rec[0][1] if rec else 'no call recorded'}")
        return
    fn, args, sig = rec[0]
    ctx.sig(qual, sorted((k, repr(v)) for k, v in vals.items()))
    for k, v in vals.items():
        ln = k if k in sig.parameters or k in args else RENAMES.get(k, k)
        varkw = any(p.kind is p.VAR_KEYWORD for p in sig.parameters.values())
        if ln not in sig.parameters and not varkw:
            continue
        if ln in ("sample_size",):
            continue
        if v is False and name == "json" and k == "lines":
            continue
        ctx.observe("forwarded")
        ctx.require(ln in args and type(args[ln]) is type(v) and args[ln] == v, f"dropped:{qual}:{k}",
                    f"{qual}({k}={v!r}) called {fn} with {ln}={args.get(ln, '<not passed>')!r}", call=repr({a: args[a] for a in args if a != 'self'})[:600])
    ctx.require(any(isinstance(x, str) and x == "the_path.xx" for x in args.values()), f"path:{qual}", f"{qual} called {fn} without the path given: {args}")


if __name__ == "__main__":
    check.main()
