"""P28: column functions on Spark dataframes give what the functions define."""
import os
import sys

import vf
from cmpv import short
from gen import load_module, unload

check = vf.Check(
    "P28",
    rule="random groups of column functions (row UDFs, pandas UDFs, @require_columns and plain Spark functions "
         "returning columns or dataframes) with random dependencies between them, on base columns and on outside "
         "values, under h_spark.with_columns / select (select, namespace, pass_dataframe_as, mode) and "
         "PySparkUDFGraphAdapter, on a real local Spark session. Oracle: the same expressions evaluated row by row "
         "in Python. Distinct = structure x options",
    required=["spark_runs", "row_udf", "pandas_udf", "column_fn", "dataframe_fn", "default_fn", "selected",
              "namespaced", "select_mode", "pass_dataframe", "outside_values", "left_to_default", "adapter_runs",
              "adapter_again", "empty_frames", "overwritten", "two_groups", "refused"],
    workers=7, hang_s=200, extensions=("pandas",),
)

HDR = '''# no __future__ import here: the decorators look at the annotations themselves
import pandas as pd
from pyspark.sql import DataFrame, Column, functions as F
from hamilton import htypes
from hamilton.plugins import h_spark
'''


@check.setup
def setup_env():
    scratch = os.environ.get("TMPDIR", "/tmp")
    os.environ.update(PYSPARK_PYTHON=sys.executable, PYSPARK_DRIVER_PYTHON=sys.executable, SPARK_LOCAL_IP="127.0.0.1",
                      SPARK_LOCAL_DIRS=os.path.join(scratch, "spark"),
                      PYSPARK_SUBMIT_ARGS="--driver-memory 1g pyspark-shell")
    import pandas as pd
    from pyspark import cloudpickle
    from pyspark.sql import SparkSession
    from pyspark.sql import types as T
    from hamilton import driver
    from hamilton.plugins import h_spark
    spark = (SparkSession.builder.master("local[1]").appName("p28").config("spark.ui.enabled", "false")
             .config("spark.driver.host", "127.0.0.1").config("spark.sql.shuffle.partitions", "1")
             .config("spark.sql.warehouse.dir", os.path.join(scratch, "warehouse"))
             .config("spark.sql.execution.arrow.pyspark.enabled", "false").getOrCreate())
    spark.sparkContext.setLogLevel("OFF")
    globals().update(pd=pd, cloudpickle=cloudpickle, T=T, driver=driver, h_spark=h_spark, spark=spark)


BASE = ["c0", "c1", "c2", "c3", "c4"]
BTYPE = {"c0": "int", "c1": "int", "c2": "float", "c3": "str", "c4": "int"}


def frame(rng):
    n = rng.choice([0, 1, 3, 5])
    mk = {"int": lambda: rng.randrange(-9, 10), "float": lambda: rng.randrange(-8, 9) / 2, "str": lambda: rng.choice(["", "u", "vvv"])}
    rows = [{c: mk[BTYPE[c]]() for c in BASE} for _ in range(n)]
    ty = {"int": T.IntegerType(), "float": T.DoubleType(), "str": T.StringType()}
    df = spark.createDataFrame([tuple(r[c] for c in BASE) for r in rows],
                               T.StructType([T.StructField(c, ty[BTYPE[c]]) for c in BASE]))
    return rows, df


class Fn:
    """name, kind, deps [(column, type)], lits [(name, mode)], coefficients, out type"""


def num(t, x, kind):
    if t == "str":
        return {"row": f"len({x})", "pd": f"{x}.str.len()", "col": f"F.length({x})"}[kind]
    if t == "bool":
        return {"row": f"(1 if {x} else 0)", "pd": f"{x}.astype(int)", "col": f'{x}.cast("int")'}[kind]
    return x


def gen_fns(rng, avail, nfn, lits, kinds, names):
    """avail: columns (name -> type) usable at the start."""
    fns, cols = [], dict(avail)
    for i in range(nfn):
        f = Fn()
        f.name = names[i]
        f.kind = rng.choice(kinds)
        usable = [c for c in cols if cols[c] != "list"]
        f.deps = [(c, cols[c]) for c in rng.sample(usable, min(len(usable), rng.choice([1, 1, 2, 3])))]
        if f.kind == "default":
            f.deps = f.deps[:1]
        f.lits = []
        if lits and f.kind != "default" and rng.random() < .5:
            f.lits = sorted(rng.sample(sorted(lits), rng.choice([1, min(2, len(lits))])), key=lambda n: lits[n][0] == "default")
        f.coef = [rng.choice([1, 2, 3, -1]) for _ in f.deps]
        f.const = rng.randrange(10)
        flt = any(t == "float" for _, t in f.deps)
        f.out = rng.choice(["float"] if flt else ["int", "int", "float", "bool"])
        if f.kind == "row" and rng.random() < .25:
            f.out = rng.choice(["str", "list"])
        cols[f.name] = f.out
        fns.append(f)
    return fns


def expr(f, kind, ref):
    e = " + ".join(f"{k} * {num(t, ref(c), kind)}" for (c, t), k in zip(f.deps, f.coef))
    e += "".join(f" + {n}" for n in f.lits) + f" + {f.const}"
    if f.out == "float":
        return {"row": f"float({e}) / 2", "pd": f"({e}) / 2.0", "col": f'(({e}) / 2).cast("float")'}[kind]
    if f.out == "bool":
        return f"(({e}) % 3) == 0"
    if f.out == "str":
        return f"'s' + str({e})"
    if f.out == "list":
        return f"[int({e}), 7]"
    return f"({e})" + ('.cast("int")' if kind == "col" else "")


PYT = {"int": "int", "float": "float", "bool": "bool", "str": "str", "list": "list[int]"}


def render(f, lits, ctx):
    lp = "".join(f", {n}: int" + (f" = {lits[n][1]}" if lits[n][0] == "default" else "") for n in f.lits)
    if f.kind == "row":
        ctx.observe("row_udf")
        return (f"def {f.name}(" + ", ".join(f"{c}: {PYT[t]}" for c, t in f.deps) + lp + f") -> {PYT[f.out]}:\n"
                f"    return {expr(f, 'row', lambda c: c)}\n\n")
    if f.kind == "pd":
        ctx.observe("pandas_udf")
        return (f"def {f.name}(" + ", ".join(f"{c}: pd.Series" for c, t in f.deps) + lp +
                f") -> htypes.column[pd.Series, {PYT[f.out]}]:\n    return {expr(f, 'pd', lambda c: c)}\n\n")
    if f.kind == "default":
        ctx.observe("default_fn")
        c = f.deps[0][0]
        return f"def {f.name}({c}: DataFrame) -> Column:\n    return {expr(f, 'col', lambda x: f'{c}[{x!r}]')}\n\n"
    dec = "@h_spark.require_columns(" + ", ".join(repr(c) for c, _ in f.deps) + ")\n"
    e = expr(f, "col", lambda c: f"frame_in[{c!r}]")
    if f.kind == "col":
        ctx.observe("column_fn")
        return dec + f"def {f.name}(frame_in: DataFrame{lp}) -> Column:\n    return {e}\n\n"
    ctx.observe("dataframe_fn")
    return dec + f"def {f.name}(frame_in: DataFrame{lp}) -> DataFrame:\n    return frame_in.withColumn({f.name!r}, {e})\n\n"


def evaluate(fns, rows, litvals):
    out = []
    for r in rows:
        env = dict(r)
        for f in fns:
            env[f.name] = eval(expr(f, "row", lambda c: c), {"len": len, "str": str, "float": float, "int": int}, {**env, **litvals})
        out.append(env)
    return out


def collect(df):
    return [tuple(r) for r in df.collect()]


@check.family("with_columns", quick=260, thorough=1600)
def f_with_columns(ctx):
    rng = ctx.rng
    rows, base = frame(rng)
    if not rows:
        ctx.observe("empty_frames")
    lits = {}
    for n in ("k1", "k2", "k3"):
        z = rng.random()
        if z < .6:
            lits[n] = rng.choice([("input", rng.randrange(9)), ("node", rng.randrange(9)), ("default", rng.randrange(9))])
    pass_as = rng.random() < .2
    ngroups = 1 if rng.random() < .75 else 2
    src = HDR
    for n, (k, v) in lits.items():
        if k == "node":
            src += f"def {n}() -> int:\n    return {v}\n\n"
    groups = []
    for g in range(ngroups):
        passed = rng.sample(BASE, rng.randrange(1, len(BASE) + 1))
        over = None
        nfn = rng.choice([1, 2, 3, 4])
        names = [f"{rng.choice(['a', 'z', 'm'])}{g}_{i}" for i in range(nfn)]
        free = [c for c in BASE if c not in passed]
        if not pass_as and free and rng.random() < .25:
            over = rng.choice(free)         # a function that replaces a column of the frame
            names[-1] = over
        if pass_as:
            fns = []
            f0 = gen_fns(rng, {c: BTYPE[c] for c in passed}, 1, {}, ["default"], names)[0]
            fns = [f0] + gen_fns(rng, {f0.name: f0.out}, nfn - 1, lits, ["row", "pd", "col", "df"], names[1:])
            body = (f"def {f0.name}(whole: DataFrame) -> Column:\n"
                    f"    return {expr(f0, 'col', lambda x: f'whole[{x!r}]')}\n\n")
            defs = [body] + [render(f, lits, ctx) for f in fns[1:]]
            ctx.observe("pass_dataframe")
        else:
            fns = gen_fns(rng, {c: BTYPE[c] for c in passed}, nfn, lits, ["row", "row", "pd", "pd", "col", "df", "default"], names)
            defs = [render(f, lits, ctx) for f in fns]
        fmod = load_module(HDR + "".join(rng.sample(defs, len(defs))))
        cloudpickle.register_pickle_by_value(fmod)
        sel = rng.sample(names, rng.randrange(1, nfn + 1)) if rng.random() < .5 and not over else None
        mode = rng.choice(["append", "append", "select", "decorator_select"])
        ns = rng.choice([None, f"spc{g}"]) if ngroups == 1 else f"spc{g}"
        groups.append(dict(fns=fns, mod=fmod, sel=sel, mode=mode, ns=ns, passed=passed, over=over, defs="".join(defs)))
        opts = [f"pass_dataframe_as='whole'" if pass_as else f"columns_to_pass={passed!r}"]
        if sel:
            opts.append(f"{'output_cols' if mode == 'decorator_select' else 'select'}={sel!r}")
        if ns:
            opts.append(f"namespace={ns!r}")
        if mode == "select":
            opts.append("mode='select'")
        given = f"sys.modules[{fmod.__name__!r}]" if rng.random() < .6 else ", ".join(
            f"sys.modules[{fmod.__name__!r}].{f.name}" for f in rng.sample(fns, len(fns)))
        extra = rng.random() < .3 and bool([n for n in lits if lits[n][0] != "default"])
        ex = rng.choice([n for n in lits if lits[n][0] != "default"]) if extra else None
        src += (f"import sys\n@h_spark.{'select' if mode == 'decorator_select' else 'with_columns'}({given}, {', '.join(opts)})\n"
                f"def final{g}(base: DataFrame{', ' + ex + ': int' if ex else ''}) -> DataFrame:\n"
                "    return base" + (f".withColumn('plus', F.lit({ex}))" if ex else "") + "\n\n")
        groups[-1]["ex"] = ex
    if ngroups == 2:
        ctx.observe("two_groups")
    mod = load_module(src)
    det = dict(source=src, functions=[g["defs"] for g in groups], rows=rows, outside=lits)
    inputs = {"base": base, **{n: v for n, (k, v) in lits.items() if k == "input"}}
    vals = {n: v for n, (k, v) in lits.items()}
    ctx.observe("outside_values", sum(lits[n][0] != "default" for g in groups for f in g["fns"] for n in f.lits))
    ctx.observe("left_to_default", sum(lits[n][0] == "default" for g in groups for f in g["fns"] for n in f.lits))
    dr = driver.Builder().with_modules(mod).build()
    want = [f"final{g}" for g in range(ngroups)]
    used = {n for g in groups for f in g["fns"] for n in f.lits} | {g["ex"] for g in groups}
    got = dr.execute(want, inputs={k: v for k, v in inputs.items() if k == "base" or k in used})
    ctx.observe("spark_runs")
    for g, gr in enumerate(groups):
        res = got[f"final{g}"]
        ev = evaluate(gr["fns"], rows, vals)
        names = [f.name for f in gr["fns"]]
        tail = ["plus"] if gr["ex"] else []
        for e in ev:
            e["plus"] = vals.get(gr["ex"])
        cols = list(res.columns)
        if gr["over"]:
            ctx.observe("overwritten")
        if gr["ns"]:
            ctx.observe("namespaced")
        if gr["sel"]:
            ctx.observe("selected")
        if gr["mode"] != "append":
            ctx.observe("select_mode")
            if gr["sel"]:
                ok = cols == gr["sel"] + tail
            else:
                ok = sorted(cols) == sorted(names + tail)
        else:
            new = gr["sel"] or names
            ok = cols[:len(BASE)] == BASE and sorted(cols[len(BASE):]) == sorted([n for n in new if n not in BASE] + tail)
        if ctx.require(ok, "spark-columns", f"final{g}: {cols}; functions {names}, {gr['mode']}, {gr['sel']}", **det):
            exp = [tuple(e[c] for c in cols) for e in ev]
            have = collect(res)
            ctx.require(have == exp, "spark-values", f"final{g} {cols}: {short(have)} expected {short(exp)}", **det)
    ctx.sig(tuple((tuple(f.kind for f in g["fns"]), g["mode"], bool(g["sel"]), bool(g["ns"]), bool(g["over"])) for g in groups),
            len(rows), pass_as)
    ctx.sample(dict(source=src[-800:], functions=groups[0]["defs"][:800], rows=len(rows)))
    unload(mod, *[g["mod"] for g in groups])


@check.family("udf_adapter", quick=130, thorough=700)
def f_adapter(ctx):
    rng = ctx.rng
    lits = {n: ("input", rng.randrange(9)) for n in ("k1", "k2") if rng.random() < .5}
    if rng.random() < .4:
        lits["k3"] = ("default", rng.randrange(9))
    nfn = rng.choice([1, 2, 3, 4])
    names = [f"{rng.choice(['a', 'z', 'm'])}_{i}" for i in range(nfn)]
    used = rng.sample(BASE, rng.randrange(1, len(BASE) + 1))
    fns = gen_fns(rng, {c: BTYPE[c] for c in used}, nfn, lits, ["row", "pd"], names)
    # the adapter compares declared types: columns made by a row function are asked for by value type,
    # pandas ones as series, so a function only builds on functions of its own kind or on base columns
    kind = {c: rng.choice(["row", "pd"]) for c in used}
    for f in fns:
        f.deps = [(c, t) for c, t in f.deps if kind[c] == f.kind]
        if not f.deps:
            f.kind, f.deps = kind[used[0]], [(used[0], BTYPE[used[0]])]
        if f.kind == "pd" and f.out in ("str", "list"):
            f.out = "int"
        kind[f.name] = f.kind
        if any(t == "float" for _, t in f.deps):
            f.out = "float"
        f.coef = f.coef[:len(f.deps)] + [1] * (len(f.deps) - len(f.coef))
    types = {f.name: f.out for f in fns}
    for f in fns:
        f.deps = [(c, types.get(c, t)) for c, t in f.deps]
        if any(t == "float" for _, t in f.deps):
            f.out = "float"
            types[f.name] = "float"
    for f in fns:
        f.deps = [(c, types.get(c, t)) for c, t in f.deps]
    defs = [render(f, lits, ctx) for f in fns]
    src = HDR + "".join(rng.sample(defs, len(defs))) + "def lone(k9: int) -> int:\n    return k9 * 3\n"
    if any(t == "list" for f in fns for _, t in f.deps):
        raise vf.Skip("list columns are not combined")
    mod = load_module(src)
    cloudpickle.register_pickle_by_value(mod)
    if rng.random() < .5:
        dr = driver.Driver({}, mod, adapter=h_spark.PySparkUDFGraphAdapter())
    else:
        dr = driver.Builder().with_modules(mod).with_adapters(h_spark.PySparkUDFGraphAdapter()).build()
    for run in range(rng.choice([1, 2])):
        rows, base = frame(rng)
        if not rows:
            ctx.observe("empty_frames")
        final = rng.sample(names, rng.randrange(1, nfn + 1))
        if rng.random() < .3:
            final.insert(rng.randrange(len(final) + 1), "lone")
        if rng.random() < .3:
            final.append(rng.choice([c for c, _ in [d for f in fns if f.name in final for d in f.deps] if c in BASE] or ["c0"]))
        det = dict(source=src, final=final, rows=rows, run=run, outside=lits)
        ins = {c: base for c in BASE}
        ins.update({n: v for n, (k, v) in lits.items() if k == "input"}, k9=5)
        known = {c for f in fns for c, _ in f.deps} | {n for f in fns for n in f.lits} | {"k9"}
        final = [x for x in final if x in known or x in names or x == "lone"]
        got = dr.execute(final, inputs={k: v for k, v in ins.items() if k in known})
        ctx.observe("adapter_runs")
        if run:
            ctx.observe("adapter_again")
        ev = evaluate(fns, rows, {n: v for n, (k, v) in lits.items()})
        for e in ev:
            e["lone"] = 15
        cols = BASE + [x for x in final if x not in BASE]
        if ctx.require(list(got.columns) == cols, "adapter-columns", f"{got.columns} expected {cols}", **det):
            exp = [tuple(e[c] for c in cols) for e in ev]
            have = collect(got)
            ctx.require(have == exp, "adapter-values", f"{cols}: {short(have)} expected {short(exp)}", **det)
    ctx.sig("adapter", tuple(f.kind for f in fns), len(lits), run, len(final))
    unload(mod)


@check.family("refused", quick=60, thorough=400)
def f_refused(ctx):
    """What cannot be computed is refused when the driver is built, not silently computed from something else."""
    rng = ctx.rng
    case = rng.choice(["both", "first_param", "unknown_df", "no_use"])
    fns = {"both": "def x1(c0: int) -> int:\n    return c0\n",
           "first_param": "def x1(c0: int) -> int:\n    return c0\n",
           "unknown_df": "def x1(whole: DataFrame) -> Column:\n    return whole['c0']\ndef x2(others: DataFrame) -> Column:\n    return others['c0']\n",
           "no_use": "def x1(c0: int) -> int:\n    return c0\n"}[case]
    opts = {"both": "columns_to_pass=['c0'], pass_dataframe_as='whole'",
            "first_param": "columns_to_pass=['c0']", "unknown_df": "pass_dataframe_as='whole'",
            "no_use": "pass_dataframe_as='whole'"}[case]
    fmod = load_module(HDR + fns)
    sig = "n: int, base: DataFrame" if case == "first_param" else "base: DataFrame"
    err = None
    try:
        mod = load_module(HDR + f"import sys\n@h_spark.with_columns(sys.modules[{fmod.__name__!r}], {opts})\n"
                          f"def final({sig}) -> DataFrame:\n    return base\n")
        driver.Builder().with_modules(mod).build()
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.observe("refused")
    ctx.require(err is not None, "spark-accepted", f"{case}: with_columns({opts}) was accepted")
    ctx.sig("refused", case)
    unload(fmod)


if __name__ == "__main__":
    check.main()
