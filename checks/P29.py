"""P29: Datadog traces and MLflow runs record exactly what a run did."""
import asyncio
import json
import os
import pickle
import threading

os.environ.setdefault("DD_INSTRUMENTATION_TELEMETRY_ENABLED", "false")
os.environ.setdefault("DD_REMOTE_CONFIGURATION_ENABLED", "false")
os.environ.setdefault("DD_TRACE_STARTUP_LOGS", "false")
os.environ.setdefault("DD_TRACE_PARTIAL_FLUSH_ENABLED", "false")
os.environ.setdefault("DD_CRASHTRACKING_ENABLED", "false")
os.environ.setdefault("MLFLOW_ENABLE_ASYNC_LOGGING", "false")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("GIT_PYTHON_REFRESH", "quiet")

import vf
from cmpv import same, short
from gen import load_module, unload

check = vf.Check(
    "P29",
    rule="random dataflows (tags, failing functions, parallel blocks, overrides, callers with an open "
         "span, several runs at once, tasks run on pickled copies, the async driver) under DDOGTracer and "
         "AsyncDDOGTracer, with every finished span taken from ddtrace itself; random dataflows with "
         "results of many types, savers, figures, failures and user calls of mlflow under MLFlowTracker, "
         "on real file stores read back with the MLflow client; models saved, registered and loaded "
         "through the mlflow materializers. Oracle: an independent hook and the values themselves. "
         "Distinct = structure x options x outcome",
    required=["dd_runs", "dd_failures", "dd_node_spans", "dd_task_spans", "dd_links", "dd_pickled", "dd_caller_span",
              "dd_concurrent", "dd_async_runs", "dd_async_failures", "ml_runs", "ml_failures", "ml_metrics",
              "ml_texts", "ml_jsons", "ml_pickles", "ml_figures", "ml_savers", "ml_reused", "ml_user_metrics",
              "ml_other_store", "ml_unpicklable", "ml_models", "ml_registered", "ml_loaded",
              "dd_spans_released"],
    extensions=("pandas", "matplotlib", "mlflow"),
)


@check.setup
def setup_env():
    import mlflow
    import tracelib
    from ddtrace.trace import TraceFilter, tracer
    from hamilton import async_driver, driver
    from hamilton.execution import executors
    from hamilton.io.materialization import from_, to
    from hamilton.plugins import h_ddog, h_mlflow
    spans = []

    class Take(TraceFilter):
        def process_trace(self, trace):
            spans.extend(trace)
            return None  # never sent anywhere

    tracer.configure(trace_processors=[Take()])
    globals().update(mlflow=mlflow, tracelib=tracelib, tracer=tracer, SPANS=spans, driver=driver,
                     async_driver=async_driver, executors=executors, to=to, from_=from_, h_ddog=h_ddog,
                     h_mlflow=h_mlflow, STATE=tracelib.STATE)


class Boom(Exception):
    pass


HDR = '''
from typing import *
import pandas as pd
import tracelib
from hamilton.function_modifiers import tag, datasaver, save_to, value, parameterize, tag_outputs
from hamilton.htypes import Parallelizable, Collect

def _boom(name, item=None):
    if tracelib.STATE.get("fail") == name and tracelib.STATE.get("item") == item:
        raise tracelib.STATE["error"]

'''


def errors(rng):
    return rng.choice([Boom("it broke"), Boom(), KeyError("k'ey"), ValueError("über\nline")])


def mk_flow(rng, is_async=False):
    """source, names, names in the parallel block"""
    names, block = [], []
    src = HDR
    dyn = not is_async and rng.random() < .6
    for i in range(rng.randrange(1, 6)):
        deps = rng.sample(names, min(len(names), rng.randrange(0, 3)))
        sig = ", ".join([f"{d}: int" for d in deps] + (["k: int = 2"] if rng.random() < .5 else []))
        tags = rng.choice(["", "", f"@tag(owner='o{i}', team='a,b')\n", "@tag(xs=['p', 'q'])\n", "@tag(**{'my.key': 'v'})\n"])
        a = "async " if is_async and rng.random() < .6 else ""
        nap = f"    await __import__('asyncio').sleep({rng.choice([0, .001, .003])})\n" if a else ""
        src += f"{tags}{a}def n{i}({sig}) -> int:\n{nap}    _boom('n{i}')\n    return {i} + {' + '.join(deps) or 1}\n\n"
        names.append(f"n{i}")
    if dyn:
        n = rng.choice([0, 1, 2, 4])
        x = rng.choice(names)
        src += (f"def part({x}: int) -> Parallelizable[int]:\n    for i in range({n}):\n        yield i\n\n"
                f"@tag(block='yes')\ndef step(part: int) -> int:\n    _boom('step', part)\n    return part + 1\n\n"
                f"def step2(step: int, part: int) -> int:\n    return step * part\n\n"
                f"def total(step2: Collect[int]) -> int:\n    _boom('total')\n    return sum(step2)\n\n")
        block = ["total"]
    return src, names, block


def plan_failure(rng, names, block):
    STATE.clear()
    if rng.random() < .35:
        STATE["fail"] = rng.choice(names + block + (["step"] if block else []))
        STATE["item"] = rng.choice([0, 1]) if STATE["fail"] == "step" else None
        STATE["error"] = errors(rng)


def judge_trace(ctx, run_id, log, spans, opts, caller, det):
    """spans: finished spans of one run (all of them, in any order)"""
    log = [e for e in log if e[1] == run_id]
    ends = {(e[2], e[3]): e for e in log if e[0] == "node_end"}
    tends = {e[2]: e for e in log if e[0] == "task_end"}
    (_, _, ok, err), = [e for e in log if e[0] == "run_end"]
    roots = [s for s in spans if s.name == opts["root"] and s.parent_id == (caller.span_id if caller else None)]
    if not ctx.require(len(roots) == 1, "dd-root", f"{len(roots)} root spans among {[s.name for s in spans]}", **det):
        return
    root = roots[0]
    if caller:
        ctx.require(root.trace_id == caller.trace_id, "dd-caller-trace", "the run is not in the caller's trace", **det)
    by_id = {s.span_id: s for s in spans}
    judge_span(ctx, root, "root", err, opts, det)
    tspan = {}
    used = {root.span_id}
    for e in log:
        if e[0] == "task":
            got = [s for s in spans if s.name == e[2] and s.parent_id == root.span_id and s.span_id not in used
                   and s.get_tag("hamilton.hamilton.node_name") is None]
            if not ctx.require(len(got) == 1, "dd-task", f"{len(got)} spans for task {e[2]}", **det):
                return
            tspan[e[2]] = got[0]
            used.add(got[0].span_id)
            ctx.observe("dd_task_spans")
            judge_span(ctx, got[0], f"task {e[2]}", tends[e[2]][4], opts, det)
    nspan = {}
    for e in log:
        if e[0] == "node":
            _, _, tid, name, tags, kws = e
            parent = tspan[tid] if tid in tspan else root
            want = (f"{tid}:" if tid is not None else "") + name
            got = [s for s in spans if s.name == want and s.parent_id == parent.span_id and s.span_id not in used]
            if not ctx.require(len(got) == 1, "dd-node", f"{len(got)} spans named {want} under {parent.name}", **det):
                return
            s = nspan[(tid, name)] = got[0]
            used.add(s.span_id)
            ctx.observe("dd_node_spans")
            judge_span(ctx, s, f"node {want}", ends[(tid, name)][5], opts, det)
            wt = {f"hamilton.{k}": str(v) for k, v in tags.items()}
            wt["hamilton.hamilton.node_name"] = name
            gt = {k: v for k, v in s.get_tags().items() if k.startswith("hamilton.")}
            ctx.require(gt == wt, "dd-tags", f"{want}: {gt} expected {wt}", **det)
            links = sorted((l.span_id, (l.attributes or {}).get("link.name")) for l in s._get_links())
            wl = sorted((nspan[(tid, k)].span_id, f"{k}_to_{name}") for k in kws if (tid, k) in nspan) if opts["links"] else []
            ctx.observe("dd_links", len(wl))
            ctx.require(links == wl, "dd-links", f"{want}: {links} expected {wl}", **det)
    extra = [s.name for s in spans if s.span_id not in used and s is not caller]
    ctx.require(not extra, "dd-extra", f"spans of nothing that ran: {extra}", **det)
    for s in spans:
        p = by_id.get(s.parent_id)
        if p is not None:
            ctx.require(p.trace_id == s.trace_id, "dd-trace-id", f"{s.name} not in the trace of its parent", **det)
            ctx.require(p.start_ns <= s.start_ns + 5e6 and s.start_ns + s.duration_ns <= p.start_ns + p.duration_ns + 5e6,
                        "dd-interval", f"{s.name} is not within {p.name}", **det)


def judge_span(ctx, s, what, err, opts, det):
    ctx.require(s.finished and s.service == (opts["service"] or s.service), "dd-span", f"{what}: service {s.service}", **det)
    got = (bool(s.error), s.get_tag("error.message"), (s.get_tag("error.type") or "").split(".")[-1])
    want = (err is not None, str(err) if err is not None else None, type(err).__name__ if err is not None else "")
    if err is not None and not str(err):
        got, want = (got[0], got[1] or "", got[2]), (want[0], "", want[2])
    ctx.require(got == want, "dd-error", f"{what}: error {got}, expected {want}", **det)


@check.family("datadog", quick=1200, thorough=12000)
def f_datadog(ctx):
    rng = ctx.rng
    src, names, block = mk_flow(rng)
    mod = load_module(src)
    opts = dict(root=rng.choice(["root", "my.run", "n0"]), links=rng.random() < .6, service=rng.choice([None, "svc"]))
    t = h_ddog.DDOGTracer(opts["root"], include_causal_links=opts["links"], service=opts["service"])
    kind = rng.choice(["sync", "threads", "pickled"]) if block else rng.choice(["plain", "plain", "sync", "threads", "pickled"])
    ads = [tracelib.Truth(), t]
    rng.shuffle(ads)
    b = driver.Builder().with_modules(mod).with_adapters(*ads)
    if kind != "plain":
        ex = {"sync": lambda: executors.SynchronousLocalTaskExecutor(),
              "threads": lambda: executors.MultiThreadingExecutor(rng.choice([1, 3])),
              "pickled": lambda: tracelib.PicklingExecutor()}[kind]
        b = b.enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(ex())
        if kind == "pickled" and rng.random() < .5:
            b = b.with_local_executor(tracelib.PicklingExecutor())
    dr = b.build()
    if kind == "pickled":
        ctx.observe("dd_pickled")
    idle = len(pickle.dumps(t))
    for r in range(rng.choice([1, 2])):
        plan_failure(rng, names, block)
        final = rng.sample(names + block, rng.randrange(1, len(names + block) + 1))
        inputs = rng.choice([None, {"k": 3}])
        ov = rng.choice([None, None, {names[0]: 7}])
        par = rng.choice([1, 1, 1, 3]) if kind == "plain" else 1
        det = dict(source=src, final=final, inputs=inputs, overrides=ov, fail=STATE.get("fail"), executor=kind, opts=opts, par=par)
        SPANS.clear()
        tracelib.LOG.clear()
        caller = tracer.start_span("caller", activate=True) if par == 1 and rng.random() < .4 else None
        outs = []

        def go():
            try:
                outs.append((dr.execute(final, inputs=inputs, overrides=ov), None))
            except Exception as e:  # noqa: BLE001
                outs.append((None, e))
        if par == 1:
            go()
        else:
            ths = [threading.Thread(target=go) for _ in range(par)]
            [x.start() for x in ths]
            [x.join() for x in ths]
            ctx.observe("dd_concurrent")
        cur = tracer.current_span()
        if kind != "pickled":  # copies of tasks normally run in another process
            ctx.require(cur is caller, "dd-active", f"{cur} is active after the run, not {caller}", **det)
        if caller:
            ctx.observe("dd_caller_span")
            caller.finish()
            tracer.context_provider.activate(None)
        log = list(tracelib.LOG)
        ran = {(e[2], e[3]) for e in log if e[0] == "node"}
        failed = any(e[0] == "node_end" and not e[4] for e in log)
        for res, err in outs:
            if kind == "pickled":
                good = type(err) is type(STATE.get("error") if failed else None) and str(err) == str(STATE.get("error") if failed else None)
            else:
                good = err is (STATE["error"] if failed else None)
            ctx.require(good, "dd-outcome", f"{err!r}", **det)
            if not err:
                vals = {e[3]: e[6] for e in log if e[0] == "node_end"}
                vals.update(ov or {})
                ctx.require({k: res.get(k) for k in final} == {k: vals.get(k) for k in final}, "dd-result", f"{res}", **det)
        spans = list(SPANS)
        runs = [e[1] for e in log if e[0] == "run"]
        ctx.observe("dd_runs", len(runs))
        ctx.observe("dd_failures", int(failed))
        if par == 1:
            judge_trace(ctx, runs[0], log, spans, opts, caller, det)
        else:
            traces = {}
            for s in spans:
                traces.setdefault(s.trace_id, []).append(s)
            if ctx.require(len(traces) == par, "dd-concurrent", f"{len(traces)} traces of {par} runs", **det):
                for rid, ss in zip(runs, traces.values()):
                    judge_trace(ctx, rid, log, ss, opts, None, det)
        ctx.require(len(pickle.dumps(t)) == idle, "dd-leak", "the tracer holds on to finished runs", **det)
        ctx.sig(kind, tuple(sorted(opts.items(), key=str)), len(names), len(block), failed, par, caller is not None, len(ran), bool(ov))
    ctx.sample(dict(source=src[-1200:], spans=[(s.name, s.error) for s in spans]))
    unload(mod)


@check.family("datadog_async", quick=300, thorough=4000)
def f_dd_async(ctx):
    rng = ctx.rng
    src, names, _ = mk_flow(rng, is_async=True)
    mod = load_module(src)
    opts = dict(root=rng.choice(["root", "my.run"]), links=rng.random() < .6, service=rng.choice([None, "svc"]))
    par = rng.choice([1, 1, 2, 4])
    plan_failure(rng, names, [])
    final = rng.sample(names, rng.randrange(1, len(names) + 1))
    inputs = rng.choice([None, {"k": 3}])
    det = dict(source=src, final=final, inputs=inputs, fail=STATE.get("fail"), opts=opts, par=par)
    SPANS.clear()
    tracelib.LOG.clear()
    t = h_ddog.AsyncDDOGTracer(opts["root"], include_causal_links=opts["links"], service=opts["service"])
    outs = []

    async def main():
        dr = await async_driver.Builder().with_modules(mod).with_adapters(tracelib.AsyncTruth(), t).build()

        async def go():
            try:
                outs.append((await dr.execute(final, inputs=inputs), None))
            except Exception as e:  # noqa: BLE001
                outs.append((None, e))
        await asyncio.gather(*[go() for _ in range(par)])
    asyncio.run(main())
    log = list(tracelib.LOG)
    failed = any(e[0] == "node_end" and not e[4] for e in log)
    for res, err in outs:
        ctx.require(err is (STATE["error"] if failed else None), "dd-outcome", f"{err!r}", **det)
    runs = [e[1] for e in log if e[0] == "run"]
    ctx.observe("dd_async_runs", len(runs))
    ctx.observe("dd_async_failures", int(failed))
    if not failed:
        traces = {}
        for s in SPANS:
            traces.setdefault(s.trace_id, []).append(s)
        if ctx.require(len(traces) == par, "dd-concurrent", f"{len(traces)} traces of {par} runs", **det):
            for rid, ss in zip(runs, traces.values()):
                judge_trace(ctx, rid, log, ss, opts, None, det)
    else:
        bad = [s for s in SPANS if s.error and s.name == STATE["fail"]]
        roots = [s for s in SPANS if s.name == opts["root"]]
        if roots:  # a trace appears once all of its spans are finished
            ctx.require(all(s.error for s in roots) and bad, "dd-async-error", f"{[(s.name, s.error) for s in SPANS]}", **det)
    ctx.sig("async", par, failed, len(names), tuple(sorted(opts.items(), key=str)))
    unload(mod)


@check.family("datadog_memory", quick=16, thorough=200)
def f_dd_memory(ctx):
    """A tracer serves any number of runs: it does not keep the spans of those that are over."""
    import gc
    import weakref
    rng = ctx.rng
    src, names, block = mk_flow(rng)
    mod = load_module(src)
    STATE.clear()
    t = h_ddog.DDOGTracer("root", include_causal_links=rng.random() < .5)
    b = driver.Builder().with_modules(mod).with_adapters(t)
    if block:
        b = b.enable_dynamic_execution(allow_experimental_mode=True)
    dr = b.build()
    tags = {v.name: dict(v.tags) for v in dr.list_available_variables()}
    refs = []
    for r in range(4):
        SPANS.clear()
        dr.execute(names + block)
        refs.append([weakref.ref(s) for s in SPANS])
    SPANS.clear()
    gc.collect()
    alive = [sum(x() is not None for x in rr) for rr in refs]
    ctx.observe("dd_spans_released", sum(map(len, refs[:-1])))
    ctx.require(not any(alive[:-1]), "dd-kept", f"spans of finished runs still referenced: {alive}", source=src)
    now = {v.name: dict(v.tags) for v in dr.list_available_variables()}
    ctx.require(now == tags, "dd-flow-changed", f"{now} was {tags}", source=src)
    ctx.sig("memory", len(names), bool(block))
    unload(mod)


# ---------------------------------------------------------------- MLflow
TYPES = {
    "int": ("int", ["3", "-7", "0", "k"]),
    "float": ("float", ["2.5", "k / 3", "-1e9"]),
    "str": ("str", ["'text ü\\n'", "''", "f'v{k}'"]),
    "dict": ("dict", ["{'a': [1, k], 'b': None}", "{}"]),
    "tdict": ("Dict[str, int]", ["{'a': k}"]),
    "odict": ("dict", ["{'a': {1, 2}}", "{'f': print}"]),
    "list": ("list", ["[1, k]", "[]"]),
    "bool": ("bool", ["k > 1"]),
    "set": ("set", ["{k}"]),
    "frame": ("pd.DataFrame", ["pd.DataFrame({'a': [1, k]})"]),
    "tuple": ("Tuple[int, str]", ["(k, 'q')"]),
    "unpick": ("object", ["(i for i in [1])", "(lambda: 1)"]),
    "figure": ("matplotlib.figure.Figure", ["_fig(k)"]),
}


def read_runs(store, exp):
    c = mlflow.client.MlflowClient(store)
    e = c.get_experiment_by_name(exp)
    return c, e, {r.info.run_id: r for r in c.search_runs([e.experiment_id], max_results=500)} if e else {}


def artifacts(c, rid, path=None):
    out = []
    for a in c.list_artifacts(rid, path):
        out += artifacts(c, rid, a.path) if a.is_dir else [a.path]
    return out


@check.family("mlflow", quick=320, thorough=4000)
def f_mlflow(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    cwd = os.path.join(d, "cwd")
    os.makedirs(cwd)
    old = os.getcwd()
    os.chdir(cwd)
    try:
        run_mlflow(ctx, rng, d, cwd)
    finally:
        os.chdir(old)
        while mlflow.active_run():
            mlflow.end_run()


def run_mlflow(ctx, rng, d, cwd):
    src = HDR + ('import mlflow, matplotlib\nmatplotlib.use("Agg")\nimport matplotlib.figure\n'
                 'def _fig(k):\n    f = matplotlib.figure.Figure(figsize=(1, 1))\n    f.subplots().plot([1, k])\n    return f\n\n')
    kinds = {}
    for i in range(rng.randrange(2, 7)):
        kd = rng.choice(list(TYPES))
        if kd == "figure" and rng.random() < .3:
            kd = "float"
        ty, vals = TYPES[kd]
        kinds[f"r{i}"] = kd
        dep = rng.choice(["", f", r{i - 1}: {TYPES[kinds[f'r{i - 1}'].rstrip('!')][0]}"]) if i else ""
        user = f"    mlflow.log_metric('user_r{i}', {i})\n" if rng.random() < .2 else ""
        src += f"{rng.choice(['', chr(64) + 'tag(owner=chr(97))' + chr(10)])}def r{i}(k: int = 4{dep}) -> {ty}:\n    _boom('r{i}')\n{user}    return {rng.choice(vals)}\n\n"
        if user:
            kinds[f"r{i}"] += "!"
    # a parameter without default after one with: put k last
    src = src.replace("(k: int = 4, ", "(").replace("@tag(owner=chr(97))", "@tag(owner='a')")
    lines = []
    for ln in src.split("\n"):
        if ln.startswith("def r") and "k: int" not in ln:
            ln = ln.replace(") ->", ", k: int = 4) ->")
        lines.append(ln)
    src = "\n".join(lines)
    savers = {}
    if rng.random() < .4:
        p = os.path.join(d, "kept.bin")
        form = rng.choice(["path", "file_metadata", "none"])
        meta = {"path": f"{{'path': {p!r}}}", "file_metadata": f"{{'file_metadata': {{'path': {p!r}}}}}", "none": "{'rows': 3}"}[form]
        src += (f"@datasaver()\ndef keep(r0: {TYPES[kinds['r0'].rstrip('!')][0]}) -> dict:\n    _boom('keep')\n"
                f"    with open({p!r}, 'w') as f:\n        f.write('kept')\n    return {meta}\n\n")
        savers["keep"] = (p, form)
    mats = []
    frames = [n for n, k in kinds.items() if k.startswith("frame")]
    if frames and rng.random() < .7:
        p = os.path.join(d, "out.csv")
        mats.append(to.csv(id="out_csv", dependencies=[frames[0]], path=p))
        savers["out_csv"] = (p, "path")
    figs = [n for n, k in kinds.items() if k.startswith("figure")]
    if figs and rng.random() < .7:
        p = rng.choice([os.path.join(d, "saved.png"), "saved.png"])
        mats.append(to.plt(id="out_fig", dependencies=[figs[0]], path=p))
        savers["out_fig"] = (p, "figure")
    mod = load_module(src)
    store = "file://" + os.path.join(d, "store")
    other = "file://" + os.path.join(d, "elsewhere")
    outer = rng.choice([store, other])
    mlflow.set_tracking_uri(outer)
    ctx.observe("ml_other_store", int(outer == other))
    exp = rng.choice(["Hamilton", "my exp"])
    tags = rng.choice([None, {}, {"q": "1", "z": "two words"}])
    etags = rng.choice([None, {"et": "1"}])
    kw = dict(run_name=rng.choice([None, "named"]), run_tags=tags, run_description=rng.choice([None, "said so"]),
              experiment_tags=etags, experiment_description=rng.choice([None, "exp said"]))
    before = json.dumps([tags, etags])
    reuse = None
    if rng.random() < .2:
        c = mlflow.client.MlflowClient(store)
        eid = c.create_experiment(exp)
        reuse = c.create_run(eid).info.run_id
        kw["run_id"] = reuse
        ctx.observe("ml_reused")
    tr = h_mlflow.MLFlowTracker(tracking_uri=store, experiment_name=exp, **kw)
    config = rng.choice([{}, {"mode": "fast", "n": 3}, {"lst": [1, 2]}])
    ads = [tracelib.Truth(), tr]
    b = driver.Builder().with_modules(mod).with_config(config).with_adapters(*ads)
    static = rng.random() < .5
    if static:
        b = b.with_materializers(*mats)
    dyn = rng.random() < .35
    if dyn:
        b = b.enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(
            executors.MultiThreadingExecutor(2) if rng.random() < .5 else executors.SynchronousLocalTaskExecutor())
    dr = b.build()
    names = list(kinds) + (["keep"] if "keep" in savers else [])
    inputs = rng.choice([None, {}, {"k": 9}])
    for r in range(rng.choice([1, 2, 2])):
        plan_failure(rng, names, [])
        tracelib.LOG.clear()
        if not reuse:
            inputs = rng.choice([None, {}, {"k": 9}])
        ov = rng.choice([None, None, None, {"r0": 7}]) if kinds["r0"] in ("int",) else None
        final = rng.sample(names, rng.randrange(1, len(names) + 1))
        det = dict(source=src, final=final, inputs=inputs, overrides=ov, fail=STATE.get("fail"), config=config, opts=kw,
                   dynamic=dyn, savers=savers, outer=outer == store)
        _, _, known = read_runs(store, exp)
        err = res = None
        try:
            if static or not mats:
                res = dr.execute(final + [m.id for m in mats], inputs=inputs, overrides=ov)
            else:
                _, res = dr.materialize(*mats, additional_vars=final, inputs=inputs, overrides=ov)
        except Exception as e:  # noqa: BLE001
            err = e
        log = list(tracelib.LOG)
        failed = any(e[0] == "node_end" and not e[4] for e in log)
        ctx.require(err is (STATE.get("error") if failed else None), "ml-outcome", f"{err!r}", **det)
        vals = {e[3]: e[6] for e in log if e[0] == "node_end" and e[4]}
        if err is None:
            for n in final:
                ctx.require((res.get(n) is vals.get(n)) or same(res.get(n), vals.get(n, (ov or {}).get(n))), "ml-result", f"{n}", **det)
        ctx.require(mlflow.active_run() is None, "ml-active", "a run is still active", **det)
        while mlflow.active_run():
            mlflow.end_run()
        ctx.require(mlflow.get_tracking_uri() == outer, "ml-uri", f"{mlflow.get_tracking_uri()} is not {outer}", **det)
        mlflow.set_tracking_uri(outer)
        ctx.require(json.dumps([tags, etags]) == before, "ml-tags-mutated", f"{tags} {etags}", **det)
        stray = [f for f in os.listdir(cwd) if f not in ("saved.png",)]
        ctx.require(not stray, "ml-stray", f"files left in the working directory: {stray}", **det)
        c, e, runs = read_runs(store, exp)
        new = [x for x in runs if x not in known]
        rid = reuse
        if reuse:
            if not ctx.require(not new, "ml-runs", f"{len(new)} runs besides the given one", **det):
                return
        else:
            if not ctx.require(len(new) == 1, "ml-runs", f"{len(new)} new runs", **det):
                return
            rid = new[0]
        ctx.observe("ml_runs")
        ctx.observe("ml_failures", int(failed))
        run = runs[rid]
        ctx.require(run.info.status == ("FAILED" if failed else "FINISHED"), "ml-status", f"{run.info.status}, failed={failed}", **det)
        wp = {k: str(v) for k, v in {**config, **(inputs or {})}.items()}
        ctx.require(run.data.params == wp, "ml-params", f"{run.data.params} expected {wp}", **det)
        hid = [x[1] for x in log if x[0] == "run"][0]
        wt = {**(tags or {}), "hamilton_run_id": hid}
        if kw["run_description"]:
            wt["mlflow.note.content"] = kw["run_description"]
        if kw["run_name"] and not reuse:
            wt["mlflow.runName"] = kw["run_name"]
        gt = run.data.tags
        ctx.require({k: gt.get(k) for k in wt} == wt and "code_version" in gt, "ml-tags", f"{gt} expected {wt}", **det)
        own = {k for k in gt if not k.startswith("mlflow.")} - {"code_version"}
        ctx.require(own == {k for k in wt if not k.startswith("mlflow.")}, "ml-tags", f"{own} expected {sorted(wt)}", **det)
        et = dict(e.tags)
        we = {**(etags or {}), **({"mlflow.note.content": kw["experiment_description"]} if kw["experiment_description"] else {})}
        ctx.require({k: et.get(k) for k in we} == we, "ml-experiment", f"{et} expected {we}", **det)
        done = {n: v for n, v in vals.items() if n in final}
        wm = {n: float(v) for n, v in done.items() if kinds.get(n, "").rstrip("!") in ("int", "float")}
        um = {f"user_{n}": float(n[1:]) for n in vals if kinds.get(n, "").endswith("!")}
        ctx.observe("ml_metrics", len(wm))
        ctx.observe("ml_user_metrics", len(um))
        wm.update(um)
        gm = dict(run.data.metrics)
        if reuse and r:
            gm = {k: v for k, v in gm.items() if k in wm}
        ctx.require(gm == wm, "ml-metrics", f"{gm} expected {wm}", **det)
        files = artifacts(c, rid)
        ad = run.info.artifact_uri.replace("file://", "")
        want = {"config.json": ("json", config), "hamilton_graph.json": ("graph", None)}
        for n, v in done.items():
            k = kinds.get(n, "").rstrip("!")
            if k == "str":
                want[f"{n}.txt"] = ("text", v)
                ctx.observe("ml_texts")
            elif k in ("dict", "tdict"):
                want[f"{n}.json"] = ("json", v)
                ctx.observe("ml_jsons")
            elif k == "figure":
                want[f"{n}.png"] = ("figure", None)
                ctx.observe("ml_figures")
            elif k and k not in ("int", "float"):
                try:
                    pickle.dumps(v)
                except Exception:  # noqa: BLE001
                    ctx.observe("ml_unpicklable")
                    continue
                want[f"{n}.pickle"] = ("pickle", v)
                ctx.observe("ml_pickles")
        for n, (p, form) in savers.items():
            if n in vals and form != "none":
                ctx.observe("ml_savers")
                if form == "figure":
                    want[os.path.basename(p)] = ("figure", None)
                else:
                    want[f"{n}/{os.path.basename(p)}"] = ("bytes", p)
        if reuse and r:
            ctx.require(set(want) <= set(files), "ml-artifacts", f"{sorted(files)} expected {sorted(want)}", **det)
        else:
            ctx.require(set(want) == set(files), "ml-artifacts", f"{sorted(files)} expected {sorted(want)}", **det)
        for f in set(want) & set(files):
            how, v = want[f]
            with open(os.path.join(ad, f), "rb") as fh:
                raw = fh.read()
            if how == "json":
                ok = json.loads(raw) == v
            elif how == "graph":
                g = json.loads(raw)
                ok = set(dr.graph.nodes) <= set(g) and all(g[n]["name"] == n for n in g)
            elif how == "text":
                ok = raw.decode() == v
            elif how == "pickle":
                ok = same(pickle.loads(raw), v)
            elif how == "figure":
                ok = raw[:4] == b"\x89PNG"
            else:
                with open(v, "rb") as fh:
                    ok = fh.read() == raw
            ctx.require(ok, "ml-content", f"{f}: {short(raw[:300])}", **det)
        ctx.sig("mlflow", tuple(sorted(set(kinds.values()))), failed, bool(reuse), r, static, dyn, tuple(sorted(savers)), len(final))
    ctx.sample(dict(source=src[-1200:], artifacts=files, params=run.data.params))
    unload(mod)


@check.family("mlflow_models", quick=32, thorough=400)
def f_models(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    slope = rng.randrange(2, 9)
    doc = rng.choice(["The doc", "über", "Two lines.\n\n    More."])
    mod = load_module(f'''
import sklearn.linear_model as lm
from hamilton.function_modifiers import tag
@tag(team="t{slope}", other="o")
def model(k: int) -> lm.LinearRegression:
    """{doc}"""
    return lm.LinearRegression().fit([[1], [2]], [k, 2 * k])

def model_b(k: int) -> lm.LinearRegression:
    """B"""
    return lm.LinearRegression().fit([[1], [2]], [k + 100, 2 * k + 200])

def coef(loaded: object) -> float:
    return float(loaded.coef_[0])
''')
    store = "file://" + os.path.join(d, "store")
    mlflow.set_tracking_uri(store)
    tracked = rng.random() < .6
    node_ = rng.choice(["model", "model_b"])
    reg = rng.choice([None, "Reg", "Reg"])
    path = rng.choice(["model", "deep/mod"])
    flavor = rng.choice([None, "sklearn", mlflow.sklearn])
    nver = rng.choice([1, 2])
    det = dict(slope=slope, node=node_, register_as=reg, path=path, flavor=str(flavor), tracked=tracked, versions=nver)
    infos = []
    given = None
    for v in range(nver):
        kw = dict(path=path, mlflow_kwargs={"pip_requirements": []})
        if flavor is not None:
            kw["flavor"] = flavor
        if reg:
            kw["register_as"] = reg
        if not tracked and rng.random() < .5:
            c = mlflow.client.MlflowClient(store)
            given = c.create_run("0").info.run_id
            kw["run_id"] = given
        b = driver.Builder().with_modules(mod)
        if tracked:
            b = b.with_adapters(h_mlflow.MLFlowTracker(tracking_uri=store, experiment_name="ex"))
        dr = b.build()
        res, _ = dr.materialize(to.mlflow(id="sv", dependencies=[node_], **kw), inputs={"k": slope + v})
        info = res["sv"]
        infos.append(info)
        ctx.observe("ml_models")
        ctx.require(mlflow.active_run() is None, "ml-active", "a run is still active", **det)
        if given:
            ctx.require(info["run_id"] == given, "ml-model-run", f"{info['run_id']} is not {given}", **det)
        given = None
    ctx.require(len({i["run_id"] for i in infos}) == nver, "ml-model-run", "two executions share a run", **det)
    c = mlflow.client.MlflowClient(store)
    for v, info in enumerate(infos):
        if tracked:
            e = c.get_experiment_by_name("ex")
            ctx.require(c.get_run(info["run_id"]).info.experiment_id == e.experiment_id, "ml-model-run",
                        "the model is not in the tracked run", **det)
        want = slope + v + (100 if node_ == "model_b" else 0)
        loads = [from_.mlflow(target="loaded", run_id=info["run_id"], path=path),
                 from_.mlflow(target="loaded", model_uri=info["model_uri"])]
        if reg:
            ver = info["registered_model"]["version"]
            ctx.observe("ml_registered")
            ctx.require(int(ver) == v + 1, "ml-version", f"{ver} of {v + 1}", **det)
            loads.append(from_.mlflow(target="loaded", mode="registry", model_name=reg, version=ver))
            c.set_registered_model_alias(reg, f"al{v}", str(ver))
            loads.append(from_.mlflow(target="loaded", mode="registry", model_name=reg, version_alias=f"al{v}"))
        for ld in loads:
            dr = driver.Builder().with_modules(mod).with_materializers(ld).build()
            got = dr.execute(["coef"])["coef"]
            ctx.observe("ml_loaded")
            ctx.require(abs(got - want) < 1e-6, "ml-loaded", f"coefficient {got}, expected {want}, version {v + 1}", **det)
        if reg and tracked:
            mv = c.get_model_version(reg, str(info["registered_model"]["version"]))
            wt = {"node_name": node_, "function_name": node_, "module": mod.__name__}
            if node_ == "model":
                wt.update(team=f"t{slope}", other="o")
            ctx.require(dict(mv.tags) == wt, "ml-model-tags", f"{mv.tags} expected {wt}", **det)
            rm = c.get_registered_model(reg)
            ctx.require(dict(rm.tags) == wt, "ml-model-tags", f"{rm.tags} expected {wt}", **det)
            wd = getattr(mod, node_).__doc__
            ctx.require(mv.description == wd and rm.description == wd, "ml-model-doc", f"{mv.description!r} {rm.description!r}", **det)
    ctx.sig("models", tracked, node_, reg, path, str(flavor), nver)
    unload(mod)


if __name__ == "__main__":
    check.main()
