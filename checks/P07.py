"""P07: caching is transparent: over any history of runs the cached driver returns what an uncached one would."""
import collections
import os
import random
import shutil
import subprocess
import sys

import vf
import vrt
from cachelib import CACHE_KINDS, CACHE_PANDAS, Stores, edit_dag, load_dag
from cmpv import same, short
from gen import HEADER, RefError, evaluate, gen_dag, input_value, load_module, required_inputs, unload
from pargen import evaluate_p, gen_pdag, required_p

check = vf.Check(
    "P07",
    rule="random histories of 4-14 steps on one cache location: executions with changing requests, inputs, "
         "config and overrides; edits and reverts of function code, defaults and decorator arguments; restarts; "
         "failing functions; deleted results, metadata and materialised files; SQLite/file and in-memory stores; "
         "plain, task-based (sync/threads/processes/adversarial, three groupings) and multi-process histories. "
         "Oracle: reference evaluation of the current code. Distinct = structure x step-kind sequence",
    assumptions=["user functions are deterministic and do not mutate their arguments",
                 "helper functions are not edited (documented limitation of code versions)"],
    required=["runs_ok", "runs_raised", "hits", "executed", "edits", "restarts", "deleted_results", "deleted_meta",
              "runs_override", "parallel_runs", "parallel_hits", "format_hits", "materialised_removed",
              "decorator_edits", "process_runs", "thread_parallel", "grouped_runs", "damaged_files", "wiped", "opaque_runs"],
)


@check.setup
def setup_env():
    from hamilton import driver
    from hamilton.execution import executors, grouping

    import execs
    globals().update(driver=driver, executors=executors, grouping=grouping, execs=execs)


def pick_run(rng, dag, config):
    final = rng.sample(list(dag.nodes), rng.randrange(1, min(4, len(dag.nodes)) + 1))
    overrides = {}
    if rng.random() < .25:
        for nm in rng.sample(list(dag.nodes), min(len(dag.nodes), rng.choice([1, 1, 2]))):
            if nm not in config:
                overrides[nm] = vrt.shape(dag.nodes[nm].kind, rng.randrange(5))
    if rng.random() < .15:
        # an external input can be overridden too, also one given in inputs
        for nm in rng.sample(sorted(dag.inputs), min(1, len(dag.inputs))):
            if nm not in config:
                overrides[nm] = input_value(rng, dag.inputs[nm])
    return final, overrides


def expected(dag, final, config, inputs, overrides, raises=()):
    try:
        return evaluate(dag, final, config, inputs, overrides, raises=raises), None
    except RefError as e:
        return None, e


def cached_run(ctx, dag, dr, final, config, inputs, overrides, raises, hist, fam):
    exp, exp_err = expected(dag, final, config, inputs, overrides)
    vrt.EVENTS.clear()
    vrt.RAISE.clear()
    for r in raises:
        vrt.RAISE[r] = vrt.VErr
    det = dict(history=hist[-14:], final=final, inputs=short(inputs), overrides=short(overrides), config=short(config))
    got = err = None
    try:
        got = dr.execute(final, inputs=inputs, overrides=overrides)
    except vrt.VErr as e:
        err = e
    calls = collections.Counter(vrt.calls())
    vrt.RAISE.clear()
    allowed = set(exp[1]) if exp else set()
    ctx.observe("executed", sum(calls.values()))
    ctx.observe("hits", len(allowed) - len(calls) if err is None else 0)
    over = {c: n for c, n in calls.items() if n > 1 or c not in allowed}
    ctx.require(not over, "ran-unneeded-or-twice", lambda: f"{over}", **det)
    if err is not None:
        ctx.observe("runs_raised")
        ctx.require(bool(raises) and str(err) in raises and str(err) in calls, "unexpected-raise", f"{err}", **det)
        return
    ctx.observe("runs_ok")
    if overrides:
        ctx.observe("runs_override")
    bad = set(calls) & set(raises)
    ctx.require(not bad, "raise-swallowed", f"{bad} raised but the run succeeded", **det)
    ctx.require(same(got, exp[0]), "wrong-value",
                lambda: f"cached {short(got)} expected {short(exp[0])}", source=dag.sources()[0][-3000:], **det)


def history(ctx, kinds, fam):
    rng = ctx.rng
    vrt.reset()
    dag = gen_dag(rng, n_nodes=rng.choice([2, 3, 4, 5, 6, 8]), kinds=kinds, strict=True)
    if rng.random() < .3:     # formats
        for n in dag.nodes.values():
            f = {"dict": "json", "frame": "pickle", "list": "pickle", "series": "pickle", "int": "pickle",
                 "str": "pickle"}.get(n.kind)
            if f and rng.random() < .5:
                n.decorators.append(f"@_fm.cache(format={f!r})")
    st = Stores(ctx, rng.choice(["path", "path", "sql_file", "mem", "mem_file", "sql_mem"]))
    config = {nm: input_value(rng, k) for nm, k in dag.inputs.items() if rng.random() < .2}
    pools = {nm: [input_value(rng, k) for _ in range(rng.choice([1, 2, 2, 3]))] for nm, k in dag.inputs.items()}
    versions = []
    hist, sig = [], []
    mods, dr, known = [], None, {}

    def sources(d):
        return [s.replace(HEADER, HEADER + "from hamilton import function_modifiers as _fm\n") for s in d.sources()]

    def rebuild():
        nonlocal mods, dr
        unload(*mods)
        mods = [load_module(s) for s in sources(dag)]
        b = driver.Builder().with_modules(*mods).with_config(dict(config))
        kw = st.kwargs()
        if beh:
            kw.update(beh)
        if dyn:
            b = (b.enable_dynamic_execution(allow_experimental_mode=True)
                 .with_grouping_strategy(getattr(grouping, dyn)()))
        dr = b.with_cache(**kw).build()

    dyn = rng.choice([None] * 6 + ["GroupNodesByLevel", "GroupNodesAllAsOne", "GroupByRepeatableBlocks",
                                   "GroupNodesIndividually"])
    beh = {}
    if rng.random() < .3:
        names = list(dag.nodes)
        rng.shuffle(names)
        beh = {"recompute": names[:rng.randrange(2)], "disable": names[2:2 + rng.randrange(2)]}
    rebuild()
    steps = rng.randrange(4, 15)
    last_inputs, wiped = {}, False
    for _ in range(steps):
        r = rng.random()
        if r < .12:
            ed = edit_dag(dag, rng, rng.choice([1, 1, 2])) if not versions or rng.random() < .6 else None
            if ed is None:        # revert to an earlier version of the code
                for nm, s in rng.choice(versions).items():
                    dag.nodes[nm].salt = s
                ed = "revert"
            versions.append({nm: n.salt for nm, n in dag.nodes.items()})
            hist.append(["edit", ed])
            sig.append("E")
            ctx.observe("edits")
            rebuild()
        elif r < .17:
            # change a default value
            cands = [(n, i) for n in dag.nodes.values() for i, p in enumerate(n.params) if p[1] != "<required>"]
            if cands:
                n, i = rng.choice(cands)
                n.params[i] = (n.params[i][0], rng.choice([5, 6, "other", None]), n.params[i][2])
                hist.append(["default", n.name, n.params[i][:2]])
                sig.append("D")
                ctx.observe("edits")
                rebuild()
        elif r < .25:
            hist.append(["restart"])
            sig.append("R")
            ctx.observe("restarts")
            rebuild()
        elif r < .30 and config:
            nm = rng.choice(list(config))
            config[nm] = input_value(rng, dag.inputs[nm])
            hist.append(["config", nm, config[nm]])
            sig.append("C")
            rebuild()
        elif r < .37 and dr.cache.run_ids:
            run = rng.choice(dr.cache.run_ids)
            for nm in rng.sample(list(dag.nodes), min(len(dag.nodes), 2)):
                dv = known.get((run, nm))
                if dv and dr.cache.result_store.exists(dv):
                    dr.cache.result_store.delete(dv)
                    ctx.observe("deleted_results")
            hist.append(["delete_results"])
            sig.append("d")
        elif r < .42 and dr.cache.run_ids and not wiped:
            run = rng.choice(dr.cache.run_ids)
            for row in dr.cache.metadata_store.get_run(run) if not beh else []:
                if rng.random() < .5 and dr.cache.metadata_store.exists(row["cache_key"]):
                    dr.cache.metadata_store.delete(row["cache_key"])
                    ctx.observe("deleted_meta")
            hist.append(["delete_meta"])
            sig.append("m")
            # in-memory get_run() reads the data version of every key of the run: start a fresh run list
            if st.mm is not None:
                st.mm._cache_keys_by_run = {k: [c for c in v if st.mm.exists(c)]
                                            for k, v in st.mm._cache_keys_by_run.items()}
        elif r < .46 and st.result_dir() and os.path.isdir(st.result_dir()):
            for f in os.listdir(st.result_dir()):
                if f.endswith((".json", ".parquet", ".pickle")) and rng.random() < .6:
                    os.unlink(os.path.join(st.result_dir(), f))
                    ctx.observe("materialised_removed")
            hist.append(["remove_materialised"])
            sig.append("x")
        elif r < .50 and st.result_dir() and os.path.isdir(st.result_dir()):
            for f in st.damage(rng, .5):
                ctx.observe("damaged_files")
            hist.append(["damage"])
            sig.append("y")
        elif r < .53:
            if st.kind in ("path", "sql_file") and rng.random() < .6:
                shutil.rmtree(st.dir, ignore_errors=True)
                hist.append(["remove_directory"])
            else:
                gone = st.kind in ("path", "sql_file") and not os.path.isdir(st.dir)
                if rng.random() < .7 and not gone and (not st.result_dir() or os.path.isdir(st.result_dir())):
                    dr.cache.result_store.delete_all()
                if rng.random() < .7 and not gone:
                    dr.cache.metadata_store.delete_all()
                hist.append(["delete_all"])
            known.clear()
            wiped = True
            sig.append("w")
            ctx.observe("wiped")
        else:
            final, overrides = pick_run(rng, dag, config)
            inputs = {nm: rng.choice(p) for nm, p in pools.items()
                      if nm not in config and (rng.random() < .75)}
            if last_inputs and rng.random() < .5:
                inputs = {k: v for k, v in last_inputs.items() if k not in config}
            req, _ = required_inputs(dag, final, config, overrides)
            inputs.update({nm: rng.choice(pools[nm]) for nm in set(req) | (set(overrides) & set(pools)) if nm not in inputs})
            last_inputs = inputs
            raises = rng.sample(list(dag.nodes), 1) if rng.random() < .12 else []
            hist.append(["run", final, short(inputs, 120), short(overrides, 80), raises])
            sig.append("r" if not raises else "f")
            cached_run(ctx, dag, dr, final, config, inputs, overrides, raises, hist, fam)
            if dyn:
                ctx.observe("grouped_runs")
                continue
            run = dr.cache.last_run_id
            for nm in dag.nodes:
                ck = dr.cache.get_cache_key(run_id=run, node_name=nm)
                if ck and dr.cache.metadata_store.exists(ck):
                    known[(run, nm)] = dr.cache.metadata_store.get(ck)
            if any(e.msg == "hit" and e.event_type.value == "get_result" and dag.nodes[nm2].decorators
                   for nm2, es in dr.cache.logs(run_id=run).items() for e in es if nm2 in dag.nodes):
                ctx.observe("format_hits")
    ctx.sig(dag.shape_sig(), "".join(sig), st.kind)
    ctx.sample(dict(steps=hist[:8], store=st.kind))
    unload(*mods)


@check.family("history", 600, 12000)
def fam_history(ctx):
    history(ctx, CACHE_KINDS, "history")


@check.family("pandas", 250, 3000)
def fam_pandas(ctx):
    history(ctx, CACHE_KINDS[:8] + CACHE_PANDAS * 3, "pandas")


# ----------------------------------------------------------------------------------- parallel blocks
def par_history(ctx, kind, nsteps):
    rng = ctx.rng
    vrt.reset(file=os.path.join(ctx.tmpdir(), "ev") if kind == "procs" else None)
    d = gen_pdag(rng, max_items=4)
    st = Stores(ctx, rng.choice(["path", "sql_file"]) if kind == "procs" else
                rng.choice(["path", "sql_file", "mem", "mem_file"]))
    mods, sig, hist = [], [], []

    def rebuild():
        nonlocal mods
        unload(*mods)
        mods = [load_module(d.source())]
        ex = execs.make(kind, rng, n=rng.choice([1, 2, 4, 8]))
        b = (driver.Builder().with_modules(*mods).enable_dynamic_execution(allow_experimental_mode=True)
             .with_remote_executor(ex))
        if kind != "procs":
            b = b.with_local_executor(execs.make(rng.choice(["sync", kind]), rng))
        else:
            b = b.with_local_executor(executors.SynchronousLocalTaskExecutor())
        return b.with_cache(**st.kwargs()).build()

    dr = rebuild()
    pools = {nm: [input_value(rng, k) for _ in range(2)] for nm, k in d.inputs.items()}
    names = [n for n, x in d.nodes.items() if x.role in ("plain", "collect")]
    if not names:
        raise vf.Skip("no requestable node")
    for step in range(nsteps):
        r = rng.random()
        if r < .3 and step:
            nm = rng.choice(list(d.nodes))
            d.nodes[nm].salt = rng.randrange(1000, 9999)
            hist.append(["edit", nm])
            sig.append("E")
            dr = rebuild()
        elif r < .4 and step:
            hist.append(["restart"])
            sig.append("R")
            dr = rebuild()
        final = rng.sample(names, rng.randrange(1, min(3, len(names)) + 1))
        req, opt = required_p(d, final, {})
        inputs = {nm: rng.choice(pools[nm]) for nm in set(req) | {o for o in opt if rng.random() < .6}}
        exp, counts, allowed = evaluate_p(d, final, inputs)
        hist.append(["run", final, short(inputs, 100)])
        sig.append("r")
        if kind == "procs":
            open(vrt.FILE, "w").close()
        vrt.EVENTS.clear()
        got = dr.execute(final, inputs=inputs)
        calls = collections.Counter(e[1] for e in vrt.file_events() if e[0] == "call") if kind == "procs" else \
            collections.Counter(vrt.calls())
        det = dict(history=hist[-12:], executor=kind)
        ctx.observe("parallel_runs")
        if kind == "threads":
            ctx.observe("thread_parallel")
        ctx.require(same(got, exp), "parallel-wrong-value", lambda: f"cached {short(got)} expected {short(exp)}",
                    **det)
        over = {c: (n, counts.get(c, 0)) for c, n in calls.items() if n > counts.get(c, 0) and (c in counts or c not in allowed)}
        det.update(source=d.source()[-3500:], calls=dict(calls), counts=dict(counts))
        ctx.require(not over, "parallel-extra-calls", f"{over}", **det)
        ctx.observe("parallel_hits", sum(counts.values()) - sum(calls.values()))
    ctx.sig(d.sig(), "".join(sig), kind, st.kind)
    unload(*mods)


@check.family("par_sync", 200, 2000)
def fam_par_sync(ctx):
    par_history(ctx, "sync", ctx.rng.randrange(2, 6))


@check.family("par_threads", 200, 2500)
def fam_par_threads(ctx):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        par_history(ctx, "threads", ctx.rng.randrange(2, 5))
    finally:
        sys.setswitchinterval(old)


@check.family("par_adv", 120, 1500)
def fam_par_adv(ctx):
    par_history(ctx, "adv", ctx.rng.randrange(2, 6))


@check.family("par_procs", 16, 160)
def fam_par_procs(ctx):
    par_history(ctx, "procs", 3)


@check.family("reorder", 60, 600)
def fam_reorder(ctx):
    """The items of a block come in another order / multiplicity than before."""
    rng = ctx.rng
    vrt.reset()
    st = Stores(ctx, rng.choice(["path", "mem"]))
    src = HEADER + """
from hamilton.htypes import Parallelizable, Collect
def items(xs: list) -> Parallelizable[int]:
    for x in xs:
        yield x
def body(items: int, k: int) -> int:
    return _H("body", 1, "int", {"items": items, "k": k})
def out(body: Collect[int]) -> list:
    return [b for b in body]
"""
    m = load_module(src)
    base_items = [rng.randrange(50) for _ in range(rng.randrange(2, 7))]
    seqs = []
    for _ in range(rng.randrange(2, 6)):
        x = base_items[:]
        r = rng.random()
        if r < .5:
            rng.shuffle(x)
        elif r < .7:
            x = x[:-1]
        elif r < .85:
            x = x + [rng.choice(x)]
        seqs.append(x)
    dr = (driver.Builder().with_modules(m).enable_dynamic_execution(allow_experimental_mode=True)
          .with_remote_executor(executors.SynchronousLocalTaskExecutor()).with_cache(**st.kwargs()).build())
    for x in seqs:
        got = dr.execute(["out"], inputs={"xs": x, "k": 1})["out"]
        exp = [vrt.value("body", 1, "int", {"items": i, "k": 1}) for i in x]
        ctx.observe("parallel_runs")
        ctx.require(got == exp, "parallel-wrong-value", f"items {x}: cached {got} expected {exp}", history=seqs)
    ctx.sig(tuple(tuple(s) for s in seqs))
    unload(m)


# ----------------------------------------------------------------------------------- decorators
TEMPLATES = {
    "subdag_value": ("def g(x: int) -> int:\n    return x * 10\n"
                     "@subdag(g, inputs={'x': value(L)})\ndef out(g: int) -> int:\n    return g + 1\n", ["out"], {}),
    "subdag_source": ("def g(x: int, w: int) -> int:\n    return x * 10 + w\n"
                      "@subdag(g, inputs={'x': source('z'), 'w': value(L)})\ndef out(g: int) -> int:\n    return g\n",
                      ["out"], {"z": 3}),
    "subdag_config_when": ("@config.when(k=1)\ndef g__a(x: int) -> int:\n    return x * 10\n"
                           "@config.when_not(k=1)\ndef g__b(x: int) -> int:\n    return x * 20\n"
                           "@subdag(g__a, g__b, inputs={'x': source('z')}, config={'k': L})\n"
                           "def out(g: int) -> int:\n    return g\n", ["out"], {"z": 3}),
    "subdag_config_value": ("def g(x: int, k: int) -> int:\n    return x * 10 + k\n"
                            "@subdag(g, inputs={'x': source('z')}, config={'k': L})\n"
                            "def out(g: int) -> int:\n    return g\n", ["out"], {"z": 3}),
    "psubdag": ("def g(x: int, k: int) -> int:\n    return x * 10 + k\n"
                "@parameterized_subdag(g, inputs={'k': value(5)}, o1={'inputs': {'x': value(L)}}, "
                "o2={'inputs': {'x': value(9)}})\ndef out(g: int) -> int:\n    return g\n", ["o1", "o2"], {}),
    "parameterize": ("@parameterize(o1={'x': value(L), 'y': source('z')}, o2={'x': source('z'), 'y': value(3)})\n"
                     "def out(x: int, y: int) -> int:\n    return x * 7 + y\n", ["o1", "o2"], {"z": 5}),
    "parameterize_values": ("@parameterize_values('x', {('o1', ''): L, ('o2', ''): 3})\n"
                            "def out(x: int) -> int:\n    return x * 7\n", ["o1", "o2"], {}),
    "parameterize_extract": ("@parameterize_extract_columns(ParameterizedExtract(('a', 'b'), {'x': value(L)}))\n"
                             "def out(x: int) -> pd.DataFrame:\n    return pd.DataFrame({'a': [x], 'b': [x + 1]})\n",
                             ["a", "b"], {}),
    "inject": ("@inject(x=value(L))\ndef out(x: int, z: int) -> int:\n    return x * 3 + z\n", ["out"], {"z": 2}),
    "inject_group": ("def a() -> int:\n    return 1\n@inject(x=group(value(L), source('a')))\n"
                     "def out(x: List[int]) -> int:\n    return sum(x)\n", ["out"], {}),
    "pipe_input": ("def _f(x: int, y: int) -> int:\n    return x + y\n@pipe_input(step(_f, y=value(L)))\n"
                   "def out(x: int) -> int:\n    return x\n", ["out"], {"x": 2}),
    "pipe_output": ("def _f(x: int, y: int) -> int:\n    return x + y\n@pipe_output(step(_f, y=value(L)))\n"
                    "def out(x: int) -> int:\n    return x\n", ["out"], {"x": 2}),
    "extract_fields": ("@extract_fields({'a': int, 'b': int})\ndef out(x: int) -> dict:\n"
                       "    return {'a': x + L, 'b': 2 * L}\n", ["a", "b"], {"x": 3}),
    "extract_fill": ("@extract_columns('a', 'b', fill_with=L)\ndef out(x: int) -> pd.DataFrame:\n"
                     "    return pd.DataFrame({'a': [x]})\n", ["a", "b"], {"x": 3}),
    "check_output": ("@check_output(range=(0, 100 + L))\ndef out(x: int) -> int:\n    return x + L\n", ["out"], {"x": 3}),
    "default": ("def mid(x: int = L) -> int:\n    return x\ndef out(mid: int, y: int = L) -> int:\n    return mid * y\n",
                ["out"], {}),
    "parameterize_sources": ("def s1() -> int:\n    return 1\ndef s2() -> int:\n    return 2\ndef s3() -> int:\n"
                             "    return 3\ndef s4() -> int:\n    return 4\n@parameterize_sources(o1={'x': 'sL'})\n"
                             "def out(x: int) -> int:\n    return x\n", ["o1"], {}),
    "with_columns": ("from hamilton.plugins.h_pandas import with_columns\n"
                     "def c(a: pd.Series) -> pd.Series:\n    return a + L\n"
                     "def df() -> pd.DataFrame:\n    return pd.DataFrame({'a': [1]})\n"
                     "@with_columns(c, columns_to_pass=['a'], select=['c'])\n"
                     "def out(df: pd.DataFrame) -> pd.DataFrame:\n    return df\n", ["out"], {}),
    "config_when": ("@config.when(k=1)\ndef out__a(x: int) -> int:\n    return x + 1\n"
                    "@config.when(k=2)\ndef out__b(x: int) -> int:\n    return x + 2\n"
                    "@config.when_in(k=[3, 4])\ndef out__c(x: int, k: int) -> int:\n    return x + k\n"
                    "def fin(out: int) -> int:\n    return out * L\n", ["fin"], {"x": 4}),
    "dataloader": ("@dataloader()\ndef data(x: int) -> Tuple[tuple, dict]:\n    return (x, x + L), {'meta': 1}\n"
                   "def out(data: tuple) -> int:\n    return data[0] * 1000 + data[1]\n", ["out", "data"], {"x": 3}),
    "dataloader_list": ("@dataloader()\ndef data(x: int) -> Tuple[list, dict]:\n    return [x, L], {'meta': L}\n"
                        "def out(data: list) -> int:\n    return sum(data)\n", ["out", "data"], {"x": 3}),
    "load_from": ("@load_from.json(path=source('p'), inject_='data')\ndef out(data: dict, x: int) -> int:\n"
                  "    return data['v'] * x + L\n", ["out"], {"x": 3, "p": "FILE"}),
    "unpack": ("@unpack_fields('a', 'b')\ndef tup(x: int) -> Tuple[int, int]:\n    return x + L, x * L\n"
               "def out(a: int, b: int) -> int:\n    return a * 100 + b\n", ["out"], {"x": 3}),
}


@check.family("decorators", 200, 2000)
def fam_decorators(ctx):
    rng = ctx.rng
    from hamilton import function_modifiers as fm
    name = rng.choice([t for t in TEMPLATES if t != "unpack" or hasattr(fm, "unpack_fields")])
    tmpl, outs, base_inp = TEMPLATES[name]
    st = Stores(ctx, rng.choice(["path", "path", "sql_file", "mem"]))
    seq = [rng.choice([1, 2, 3, 4]) for _ in range(rng.randrange(3, 7))]
    tmp = ctx.tmpdir()
    hist = []
    for L in seq:
        src = (HEADER + "from hamilton.function_modifiers import *\n" +
               tmpl.replace("'sL'", f"'s{L}'").replace("L", str(L)).replace("1ist", "List").replace(f"{L}ist", "List"))
        inp = {k: (v if v != "FILE" else os.path.join(tmp, f"{rng.choice([1, 2])}.json")) for k, v in base_inp.items()}
        if "p" in inp:
            with open(inp["p"], "w") as f:
                f.write('{"v": %s}' % os.path.basename(inp["p"])[0])
        if "x" in inp and rng.random() < .4:
            inp["x"] += rng.randrange(3)
        cfg = {"k": L} if name == "config_when" else {}
        final = outs if rng.random() < .6 else [rng.choice(outs)]
        m = load_module(src)
        plain = driver.Builder().with_modules(m).with_config(cfg).build().execute(final, inputs=inp)
        dr = driver.Builder().with_modules(m).with_config(cfg).with_cache(**st.kwargs()).build()
        hist.append([L, final, inp])
        for _ in range(rng.choice([1, 2])):
            got = dr.execute(final, inputs=inp)
            ctx.observe("decorator_edits")
            ctx.require(same(got, plain), f"decorator-wrong-value", lambda: f"{name}: cached {short(got)} plain {short(plain)}",
                        history=hist, source=src[-1500:])
        unload(m)
    ctx.sig(name, tuple(seq), st.kind)


# ----------------------------------------------------------------------------------- separate processes
CHILD = r'''
import json, logging, sys
logging.disable(50)
sys.path[:0] = json.loads(sys.argv[2])
import vrt
from gen import load_module
from cmpv import same
from hamilton import driver
spec = json.load(open(sys.argv[1]))
m = load_module(spec["source"], "vfproc")
dr = driver.Builder().with_modules(m).with_cache(path=spec["dir"]).build()
out = dr.execute(spec["final"], inputs=spec["inputs"])
print("RESULT" + json.dumps(dict(out={k: repr(v) for k, v in out.items()}, calls=vrt.calls())))
'''


@check.family("process", 8, 100)
def fam_process(ctx):
    """Restarts are real processes with different hash seeds; equal runs are served from the cache."""
    import json
    rng = ctx.rng
    dag = gen_dag(rng, n_nodes=rng.choice([3, 5, 7]), n_mods=1, kinds=["int", "float", "str", "list", "dict", "bool"],
                  strict=True)
    tmp = ctx.tmpdir()
    for i in list(dag.inputs):
        if dag.inputs[i] in ("dict", "bool"):
            pass
    pools = {nm: [v for v in (input_value(rng, k) for _ in range(2))] for nm, k in dag.inputs.items()}
    final = rng.sample(list(dag.nodes), min(2, len(dag.nodes)))
    inputs = {nm: p[0] for nm, p in pools.items()}
    prev = None
    for step in range(3):
        if step == 2:
            if rng.random() < .5:
                edit_dag(dag, rng, 1)
            else:
                inputs = {nm: p[-1] for nm, p in pools.items()}
        spec = os.path.join(tmp, "spec.json")
        with open(spec, "w") as f:
            json.dump(dict(source=dag.sources()[0], dir=os.path.join(tmp, "c"), final=final, inputs=inputs), f)
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1000)), HAMILTON_AUTOLOAD_EXTENSIONS="0")
        r = subprocess.run([sys.executable, "-c", CHILD, spec, json.dumps(sys.path[:3])], env=env, cwd=tmp,
                           capture_output=True, text=True, timeout=90)
        if "RESULT" not in r.stdout:
            raise vf.Violation("process-run-failed", r.stderr[-1500:])
        got = json.loads(r.stdout.split("RESULT", 1)[1])
        exp, called, _ = evaluate(dag, final, {}, inputs, {})
        ctx.observe("process_runs")
        ctx.require(got["out"] == {k: repr(v) for k, v in exp.items()}, "process-wrong-value",
                    lambda: f"{got['out']} expected {exp}", step=step)
        if step == 1:
            ctx.require(got["calls"] == [], "process-no-reuse", f"an identical run in a new process re-executed {got['calls']}",
                        previous=prev)
        prev = got["calls"]
    ctx.sig(dag.shape_sig())


# ----------------------------------------------------------------------------------- values sharing a fingerprint
PAIRS = {
    "int-str": ("1", "'1'"), "list-tuple": ("[1, 2]", "(1, 2)"), "empty-containers": ("[]", "{}"),
    "bytes-str": ("b'xy'", "'xy'"), "object-dict": ("_K(v=1)", "{'v': 1}"),
    "array-dtype": ("np.zeros(2)", "np.zeros(2, dtype='int64')"),
    "array-shape": ("np.arange(6).reshape(2, 3)", "np.arange(6).reshape(3, 2)"),
    "frame-columns": ("pd.DataFrame({'a': [1]})", "pd.DataFrame({'b': [1]})"),
    "float-str": ("1.5", "'1.5'"), "bool-str": ("True", "'True'"),
    # and some that must not
    "int-float": ("1", "1.0"), "int-bool": ("1", "True"), "none-str": ("None", "'None'"),
    "series-name": ("pd.Series([1], name='a')", "pd.Series([1], name='b')"),
    "series-values": ("pd.Series([1, 2])", "pd.Series([2, 1])"),
    "frame-dup-index": ("pd.DataFrame({'a': [1, 2]}, index=[0, 0])", "pd.DataFrame({'a': [3, 2]}, index=[0, 0])"),
    "array-values": ("np.array([1, 2])", "np.array([2, 1])"),
    "nested-order": ("[[1], [2]]", "[[2], [1]]"), "dict-values": ("{'a': 1, 'b': 2}", "{'a': 2, 'b': 1}"),
    "list-of-np": ("[np.int64(1)]", "[np.int64(2)]"), "dict-of-np": ("{'a': np.float64(1)}", "{'a': np.float64(2)}"),
    "str-case": ("'a'", "'A'"), "set-frozen": ("{1, 2}", "{1, 3}"),
    "date": ("[datetime.date(2020, 1, 1)]", "[datetime.date(2020, 1, 2)]"),
    "decimal": ("[decimal.Decimal('1')]", "[decimal.Decimal('2')]"),
    "nested-unhashable": ("{'a': {'b': [decimal.Decimal('1')]}}", "{'a': {'b': [decimal.Decimal('2')]}}"),
    "polars-columns": ("pl.DataFrame({'a': [1]})", "pl.DataFrame({'b': [1]})"),
    "polars-values": ("pl.DataFrame({'a': [1, 2]})", "pl.DataFrame({'a': [2, 1]})"),
    "polars-series-name": ("pl.Series('a', [1])", "pl.Series('b', [1])"),
}


@check.family("values", len(PAIRS) * 2, len(PAIRS) * 2)
def fam_values(ctx):
    """Two nodes, and one input, whose values differ: a cached run never confuses them."""
    name = sorted(PAIRS)[ctx.idx // 2]
    va, vb = PAIRS[name]
    src = (HEADER + "import datetime, decimal\nimport polars as pl\nclass _K:\n    def __init__(self, v):\n        self.v = v\n"
           "    def __eq__(self, o):\n        return type(o) is _K and o.v == self.v\n"
           f"def a() -> Any:\n    return {va}\ndef b() -> Any:\n    return {vb}\n"
           "def c(x: Any) -> str:\n    return repr((type(x), x))\n")
    m = load_module(src)
    st = Stores(ctx, ["path", "mem"][ctx.idx % 2])
    if name == "object-dict" and st.kind == "path":
        st = Stores(ctx, "sql_mem")   # _K is not importable from a pickle
    exp = [m.a(), m.b()]
    for _ in range(2):
        dr = driver.Builder().with_modules(m).with_cache(**st.kwargs()).build()
        got = dr.execute(["a", "b"])
        ctx.require(same([got["a"], got["b"]], exp), f"shared-fingerprint:{name}",
                    lambda: f"a={short(got['a'])} b={short(got['b'])} expected {short(exp)}")
    for v in exp:
        dr = driver.Builder().with_modules(m).with_cache(**st.kwargs()).build()
        got = dr.execute(["c"], inputs={"x": v})["c"]
        ctx.require(got == repr((type(v), v)) or name == "object-dict" and "_K" in got and type(v) is not dict,
                    f"shared-fingerprint:{name}", lambda: f"c({short(v)}) gave {got}")
    ctx.sig(name, st.kind)
    unload(m)


OPAQUE = HEADER + """
def hold(box: Any) -> Any:
    return box
def read(hold: Any, k: int) -> list:
    return [_H("read", 1, "int", {"k": k}), list(hold.items)]
def out(read: list, box: Any) -> list:
    return [len(read), list(box.items)]
"""


class Box:
    """Has no fingerprint."""
    __slots__ = ("items",)

    def __init__(self, *items):
        self.items = list(items)


@check.family("opaque", 60, 600)
def fam_opaque(ctx):
    """Values without a fingerprint: what depends on them is never reused, although the object stays the same."""
    rng = ctx.rng
    vrt.reset()
    m = load_module(OPAQUE)
    st = Stores(ctx, rng.choice(["path", "mem", "sql_mem", "mem_file"]))
    box, hist = Box(), []
    dr = driver.Builder().with_modules(m).with_cache(**st.kwargs(), **rng.choice([{}, {"disable": ["hold"]}, {"recompute": ["hold"]}])).build()
    for _ in range(rng.randrange(2, 6)):
        r = rng.random()
        if r < .6:
            box.items.append(rng.randrange(9))
        elif r < .8:
            box = Box(*box.items, 1)
        if rng.random() < .3:
            dr = driver.Builder().with_modules(m).with_cache(**st.kwargs()).build()
        k = rng.randrange(2)
        hist.append([list(box.items), k])
        how = rng.choice(["input", "override"])
        if how == "input":
            got = dr.execute(["read", "out"], inputs={"box": box, "k": k})
        else:
            got = dr.execute(["read", "out"], inputs={"box": box, "k": k}, overrides={"hold": box})
        exp = m.read(box, k)
        ctx.observe("opaque_runs")
        ctx.require(got == {"read": exp, "out": m.out(exp, box)}, "opaque-stale", f"{got} for {box.items}", history=hist, store=st.kind)
    ctx.sig(repr(hist), st.kind)
    unload(m)


if __name__ == "__main__":
    check.main()
