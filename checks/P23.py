"""P23: handing nodes or tasks to Dask / Ray changes where they run, not what is computed."""
import collections
import os
import random
import sys
import threading
import types

os.environ.setdefault("DASK_DATAFRAME__QUERY_PLANNING", "False")
os.environ.setdefault("DASK_DISTRIBUTED__WORKER__DAEMON", "False")

import vf
import vrt
from cmpv import same, short
from gen import PLAIN_KINDS, evaluate, gen_dag, input_value, load_module, required_inputs, unload
from pargen import evaluate_p, gen_pdag, required_p

check = vf.Check(
    "P23",
    rule="random dataflows run through DaskGraphAdapter (delayed / eager, computed at the end or by "
         "the caller, dict / pandas / dask dataframe builders) and DaskExecutor (parallel blocks, "
         "groupings, failures, hooks) on an in-process dask.distributed cluster, and through "
         "RayGraphAdapter, RayWorkflowGraphAdapter and RayTaskExecutor on a recording Ray stand-in "
         "that executes remote calls lazily, out of order, with pickled arguments, on threads "
         "(the thorough tier also runs them on real Ray); oracle = reference values, call counts, "
         "error and hook records. Distinct = structure x adapter x options",
    assumptions=["task keys dask reserves (parameters named `pure` / `dask_key_name`) are not used",
                 "DaskDataFrameResult is used with dask's legacy dataframes, as its tests do"],
    required=["dask_nodes", "dask_eager", "dask_delayed_result", "dask_errors", "dask_tasks", "dask_blocks",
              "dask_hooks", "dask_frames", "dask_overlap", "ray_nodes", "ray_errors", "ray_options", "ray_hooks",
              "ray_tasks", "ray_workflow", "ray_out_of_order", "repeat_runs", "wrong_inputs", "ray_other_tags", "dask_ragged", "dask_default_builder"],
    hang_s=150,
)


# --------------------------------------------------------------------------- Ray stand-in
class Ref:
    def __init__(self, fn, args, kwargs, opts, world):
        import cloudpickle
        # like Ray: the function and the arguments are serialized when the call is submitted, references are not
        self.refs = {("a", i): a for i, a in enumerate(args) if isinstance(a, Ref)}
        self.refs.update({("k", k): a for k, a in kwargs.items() if isinstance(a, Ref)})
        self.blob = cloudpickle.dumps((fn, [None if isinstance(a, Ref) else a for a in args],
                                       {k: None if isinstance(a, Ref) else a for k, a in kwargs.items()}))
        self.opts, self.world = opts, world
        self.done, self.val, self.err = False, None, None
        self.lock = threading.RLock()

    def run(self):
        """Executes once, whatever it depends on first; arguments and results are serialized."""
        import cloudpickle
        with self.lock:
            if self.done:
                return
            try:
                got = {k: r.get() for k, r in self.refs.items()}
                fn, args, kw = cloudpickle.loads(self.blob)
                for (where, k), v in got.items():
                    (args if where == "a" else kw)[k] = v
                self.world.runs.append(self.opts)
                self.val = cloudpickle.dumps(fn(*args, **kw))
            except Exception as e:  # noqa: BLE001
                self.err = e
            self.done = True

    def get(self):
        import cloudpickle
        self.run()
        if self.err is not None:
            raise self.err
        return cloudpickle.loads(self.val)

    def future(self):
        from concurrent.futures import Future
        f = Future()
        f.set_running_or_notify_cancel()

        def go():
            try:
                f.set_result(self.get())
            except BaseException as e:  # noqa: BLE001
                f.set_exception(e)
        threading.Thread(target=go, daemon=True).start()
        return f


class Remote:
    def __init__(self, world, fn, opts=None):
        self.world, self.fn, self.opts = world, fn, opts or {}

    def options(self, **o):
        return Remote(self.world, self.fn, {**self.opts, **o})

    def remote(self, *a, **k):
        r = Ref(self.fn, a, k, self.opts, self.world)
        self.world.refs.append(r)
        if self.world.rng.random() < .3:
            # the cluster may run any submitted call at any time
            x = self.world.rng.choice(self.world.refs)
            self.world.eager += 1
            x.run()
        return r

    bind = remote


class World:
    def __init__(self):
        self.rng = random.Random(0)
        self.reset()

    def reset(self, seed=0):
        self.refs, self.runs, self.eager = [], [], 0
        self.inits, self.shutdowns = [], 0
        self.rng = random.Random(seed)


WORLD = World()


def fake_ray():
    ray = types.ModuleType("ray")
    ray._raylet = types.SimpleNamespace(ObjectRef=Ref)
    ray.ObjectRef = Ref
    ray.remote = lambda fn: Remote(WORLD, fn)
    ray.get = lambda r: [x.get() for x in r] if isinstance(r, list) else r.get()
    ray.init = lambda **k: WORLD.inits.append(k)

    def shutdown():
        WORLD.shutdowns += 1
    ray.shutdown = shutdown
    wf = types.ModuleType("ray.workflow")
    wf.ids = []

    def run(ref, workflow_id=None, **k):
        wf.ids.append(workflow_id)
        return ref.get()
    wf.run = run
    ray.workflow = wf
    return ray, wf


@check.setup
def setup_env():
    import dask
    dask.config.set({"dataframe.query-planning": False, "distributed.worker.daemon": False,
                     "distributed.admin.tick.limit": "600s"})
    from distributed import Client, LocalCluster

    from hamilton import base, driver, lifecycle
    from hamilton.execution import executors, grouping
    ray, wf = fake_ray()
    sys.modules["ray"], sys.modules["ray.workflow"] = ray, wf
    from hamilton.plugins import h_dask, h_ray
    import pandas as pd
    cluster = LocalCluster(n_workers=1, threads_per_worker=4, processes=False, dashboard_address=None,
                           silence_logs=50)
    client = Client(cluster)
    globals().update(driver=driver, base=base, lifecycle=lifecycle, executors=executors,
                     grouping=grouping, h_dask=h_dask, h_ray=h_ray, client=client, pd=pd, ray=ray,
                     wf=wf, dask=dask)


# what legacy result builders do is P21's subject; here: dict, and frames of equal-length series
def plan(rng, dag, config):
    final = rng.sample(list(dag.nodes), rng.randrange(1, min(4, len(dag.nodes)) + 1))
    overrides = {}
    if rng.random() < .3:
        for nm in rng.sample(list(dag.nodes), min(2, len(dag.nodes))):
            overrides[nm] = vrt.shape(rng.choice(PLAIN_KINDS), rng.randrange(999))
    req, opt = required_inputs(dag, final, config, overrides)
    inputs = {nm: input_value(rng, dag.inputs[nm]) for nm in dag.inputs
              if nm not in config and (nm in req or rng.random() < .4)}
    return final, overrides, inputs


class Hooks:
    """Built lazily (needs hamilton); records what the lifecycle API is told, across threads."""
    @staticmethod
    def make(log):
        from hamilton.lifecycle import NodeExecutionHook

        class Rec(NodeExecutionHook):
            def run_before_node_execution(self, *, node_name, node_kwargs, **kw):
                vrt.log("pre", node_name, {k: vrt.ival(v) for k, v in node_kwargs.items()})

            def run_after_node_execution(self, *, node_name, node_kwargs, result, error, success, **kw):
                vrt.log("post", node_name, (success, type(error).__name__ if error else None,
                                            vrt.ival(result) if success else None))
        return Rec()


def check_run(ctx, what, dag, got, exp, called, final, det):
    cnt = collections.Counter(vrt.calls())
    det = dict(det, calls=dict(cnt), got=short(got))
    ctx.observe("events", sum(cnt.values()))
    ctx.require(list(got) == final, f"{what}-keys", f"{list(got)} vs {final}", **det)
    for k in final:
        ctx.require(same(got.get(k), exp[k]), f"{what}-value",
                    f"{k}: {short(got.get(k))} expected {short(exp[k])}", **det)
    want = collections.Counter(called)
    ctx.require(cnt == want, f"{what}-calls", f"ran {dict(cnt)} expected {dict(want)}", **det)


def quiesce():
    """Dask lets tasks in flight run on after a failed run: wait until nothing is, neither on the scheduler, nor
    on a worker, nor on its way there (a task of ours passes through each of those channels last)."""
    import gc
    import time
    t = time.time()
    quiet = 0
    while quiet < 2:
        gc.collect()
        while any(ws.processing for ws in client.cluster.scheduler.workers.values()) or any(
                ts.state in ("waiting", "processing", "queued", "no-worker")
                for ts in list(client.cluster.scheduler.tasks.values())) or any(
                w.state.executing_count or w.state.ready for w in client.cluster.workers.values()) or vrt.ACTIVE:
            quiet = 0
            time.sleep(0.004)
            if time.time() - t > 100:
                raise RuntimeError("cluster never quiet")
        for w in list(client.cluster.scheduler.workers):
            client.submit(int, 1, workers=[w], pure=False).result()
        quiet += 1


def raising(e):
    """The user's exception, whatever the cluster wraps it in."""
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        if isinstance(e, vrt.VErr):
            return e
        e = e.__cause__ or e.__context__
    return None


@check.family("dask_adapter", quick=700, thorough=12000)
def f_dask(ctx):
    rng = ctx.rng
    dag = gen_dag(rng, strict=True, kinds=[k for k in PLAIN_KINDS if k != "none"])
    mods = dag.modules(rng)
    config = {nm: input_value(rng, k) for nm, k in dag.inputs.items() if rng.random() < .2}
    delayed = rng.random() < .75
    at_end = rng.random() < .7
    ad = h_dask.DaskGraphAdapter(client, base.DictResult(), use_delayed=delayed, compute_at_end=at_end)
    api = rng.choice(["builder", "legacy"])
    if api == "builder":
        dr = driver.Builder().with_modules(*mods).with_config(config).with_adapter(ad).build()
    else:
        dr = driver.Driver(config, *mods, adapter=ad)
    prev = None
    for r in range(2):
        if prev and rng.random() < .4:
            final, overrides, inputs = prev
            ctx.observe("repeat_runs")
        else:
            final, overrides, inputs = prev = plan(rng, dag, config)
        exp, called, memo = evaluate(dag, final, config, inputs, overrides)
        vrt.reset()
        wrong_input(ctx, "dask", dag, dr, final, inputs, overrides, config)
        det = dict(source=dag.sources(), final=final, inputs=inputs, overrides=overrides, config=config,
                   delayed=delayed, at_end=at_end, api=api)
        fail = rng.choice(called) if called and rng.random() < .25 else None
        if fail:
            vrt.RAISE[fail] = vrt.VErr
        try:
            got = dr.execute(final, inputs=inputs, overrides=overrides)
            if delayed and not at_end:
                ctx.require(not vrt.calls(), "dask-computed-early",
                            "compute_at_end=False, but functions ran", calls=vrt.calls(), **det)
                ctx.observe("dask_delayed_result")
                (got,) = dask.compute(got)
        except Exception as e:  # noqa: BLE001
            if not (fail and raising(e)):
                raise
            ctx.observe("dask_errors")
            quiesce()
            cnt = collections.Counter(vrt.calls())
            ctx.require(all(c == 1 and n in called for n, c in cnt.items()) and fail in cnt,
                        "dask-error-calls", f"{dict(cnt)}", **det)
            continue
        if not ctx.require(not fail, "dask-error-lost", f"{fail} raised, but the run succeeded",
                           got=short(got), **det):
            continue
        check_run(ctx, "dask", dag, got, exp, called, final, det)
        ctx.observe("dask_nodes" if delayed else "dask_eager", len(called))
        ctx.sig("dask", dag.shape_sig(), delayed, at_end, api)
        ctx.sample(dict(det, got=short(got)))
    unload(*mods)


@check.family("dask_overlap", quick=120, thorough=3000)
def f_overlap(ctx):
    """Two dataflows that use the same names (two versions of a module, two runs of one) are under way on one
    cluster at the same time: each gets its own values, and each runs its own functions."""
    rng = ctx.rng
    st = rng.getstate()
    dag = gen_dag(rng, strict=True, kinds=[k for k in PLAIN_KINDS if k != "none"])
    rng2 = random.Random()
    rng2.setstate(st)
    other = gen_dag(rng2, strict=True, kinds=[k for k in PLAIN_KINDS if k != "none"])
    changed = [n for n in other.nodes if rng.random() < .6]
    for n in changed:
        other.nodes[n].salt += 7
    how = rng.choice(["together", "kept", "computed"])
    final = rng.sample(list(dag.nodes), rng.randrange(1, min(4, len(dag.nodes)) + 1))
    req, opt = required_inputs(dag, final, {}, {})
    inputs = {nm: input_value(rng, dag.inputs[nm]) for nm in dag.inputs if nm in req or rng.random() < .4}
    runs = []
    vrt.reset()
    for i, d in enumerate((dag, other)):
        mods = d.modules(rng)
        ad = h_dask.DaskGraphAdapter(client, base.DictResult(), use_delayed=True, compute_at_end=False)
        dr = driver.Builder().with_modules(*mods).with_adapter(ad).build()
        exp, called, _ = evaluate(d, final, {}, inputs, {})
        res = dr.execute(final, inputs=inputs)
        if how == "kept":
            res = client.persist(res)
        elif how == "computed":
            res = client.compute(res)
        runs.append([d, mods, res, exp, called])
    if how == "computed":
        got = client.gather([r[2] for r in runs])
    else:
        got = dask.compute(*[r[2] for r in runs])
    det = dict(source=dag.sources(), changed=changed, final=final, inputs=inputs, how=how)
    for (d, mods, _, exp, called), g in zip(runs, got):
        for k in final:
            ctx.require(same(g.get(k), exp[k]), "dask-overlap-value",
                        f"{k}: {short(g.get(k))} expected {short(exp[k])}", **det)
    cnt = collections.Counter(vrt.calls())
    want = collections.Counter(runs[0][4]) + collections.Counter(runs[1][4])
    ctx.require(cnt == want, "dask-overlap-calls", f"ran {dict(cnt)} expected {dict(want)}", **det)
    ctx.observe("dask_overlap")
    ctx.sig("overlap", dag.shape_sig(), how, len(changed))
    for r in runs:
        unload(*r[1])


@check.family("dask_frames", quick=300, thorough=6000)
def f_frames(ctx):
    """Frame builders on dask: same cells as pandas."""
    import dask.dataframe as dd
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 9])
    idx = rng.choice([list(range(n)), [10 + i for i in range(n)], [f"k{i}" for i in range(n)]])
    ragged = rng.random() < .25
    if ragged:
        idx = list(range(n))
    outs, exp, src = {}, {}, []
    kinds = ["series", "dseries"] if rng.random() < .5 else ["series"]
    names = [f"c{i}" for i in range(rng.randrange(1, 5))]
    for i, nm in enumerate(names):
        k = rng.choice(kinds) if i == 0 or ragged else rng.choice(kinds + ["frame", "scalar", "str", "dscalar"])
        vals = [rng.randrange(100) for _ in range(n)]
        s = pd.Series(vals, index=idx, name=rng.choice([None, nm, "mine"]))
        if k in ("series", "dseries") and i and ragged:
            m = rng.randrange(1, n + 3)
            s = pd.Series([rng.randrange(100) for _ in range(m)], index=range(m), name=rng.choice([None, "mine"]))
            outs[nm] = s if k == "series" else dd.from_pandas(s, npartitions=1)
            exp[nm] = s
        elif k == "series":
            outs[nm], exp[nm] = s, vals
        elif k == "dseries":
            outs[nm], exp[nm] = dd.from_pandas(s, npartitions=1), vals
        elif k == "frame":
            outs[nm] = pd.DataFrame({"x": vals, "y": vals[::-1]}, index=idx)
            exp[f"{nm}.x"], exp[f"{nm}.y"] = vals, vals[::-1]
        elif k == "dscalar":
            outs[nm], exp[nm] = dd.from_pandas(s, npartitions=1).sum(), [sum(vals)] * n
        else:
            v = rng.choice([3, 1.5, True]) if k == "scalar" else "txt"
            outs[nm], exp[nm] = v, [v] * n
        src.append((nm, k))
    mod = load_module("from typing import *\nVALUES = {}\n" + "".join(
        f"def {nm}() -> Any:\n    return VALUES[{nm!r}]\n\n" for nm in names))
    mod.VALUES.update(outs)
    delayed = rng.random() < .3 and all(k in ("series", "frame", "scalar", "str") for _, k in src)
    builder = "dask" if not delayed or rng.random() < .4 else rng.choice(["pandas", "default"])
    rb = {"dask": [h_dask.DaskDataFrameResult()], "pandas": [base.PandasDataFrameResult()], "default": []}[builder]
    ad = h_dask.DaskGraphAdapter(client, *rb, use_delayed=delayed, compute_at_end=True)
    if builder == "default":
        ctx.observe("dask_default_builder")
        builder = "pandas"
    if ragged:
        ctx.observe("dask_ragged")
        tot = pd.concat([v if isinstance(v, pd.Series) else pd.Series(v, index=idx) for v in exp.values()], axis=1,
                        join="outer").sort_index()
        tot.columns = list(exp)
        exp = {c: tot[c].tolist() for c in tot.columns}
        idx = list(tot.index)
    dr = driver.Driver({}, mod, adapter=ad)
    order = names[:]
    got = dr.execute(order)
    det = dict(outputs=src, n=n, index=idx, delayed=delayed, builder=builder)
    if not isinstance(got, pd.DataFrame):
        (got,) = dask.compute(got)
    ctx.observe("dask_frames")
    if builder == "pandas" and len(src) == 1 and src[0][1] == "frame":
        exp = {k.split(".")[1]: v for k, v in exp.items()}
    ctx.require(list(got.columns) == list(exp), "dask-frame-columns",
                f"{list(got.columns)} vs {list(exp)}", **det)
    if list(got.columns) == list(exp):
        ctx.require([str(x) for x in got.index] == [str(x) for x in idx], "dask-frame-index",
                    f"{list(got.index)}", **det)
        for c, v in exp.items():
            ctx.require([str(x) for x in got[c].tolist()] == [str(x) for x in v], "dask-frame-cells",
                        f"{c}: {got[c].tolist()} vs {v}", **det)
    ctx.sig("frames", tuple(src), n, delayed, builder)
    unload(mod)


def run_tasks(ctx, what, remote, finish=lambda: None):
    rng = ctx.rng
    d = gen_pdag(rng)
    mod = load_module(d.source())
    hooks = rng.random() < .5
    b = (driver.Builder().with_modules(mod).enable_dynamic_execution(allow_experimental_mode=True)
         .with_remote_executor(remote))
    both = rng.random() < .5
    if both:
        b = b.with_local_executor(remote)
    if hooks:
        b = b.with_adapters(Hooks.make([]))
    dr = b.build()
    for r in range(2):
        pool = d.outer()
        final = rng.sample(pool, rng.randrange(1, min(3, len(pool)) + 1))
        if d.blocks[-1][2] not in final:
            final.append(d.blocks[-1][2])
        req, opt = required_p(d, final, {})
        inputs = {nm: input_value(rng, d.inputs[nm]) for nm in d.inputs if nm in req or rng.random() < .5}
        exp, calls, allowed = evaluate_p(d, final, inputs, {})
        vrt.reset()
        det = dict(source=d.source(), final=final, inputs=inputs, hooks=hooks, both=both)
        ran = [n for n in calls if calls[n]]
        fail = rng.choice(ran) if ran and rng.random() < .25 else None
        if fail:
            vrt.RAISE[fail] = vrt.VErr
        try:
            got = dr.execute(final, inputs=inputs)
        except Exception as e:  # noqa: BLE001
            if not (fail and raising(e)):
                raise
            ctx.observe("dask_errors" if what == "dask-task" else "ray_errors")
            if what == "dask-task":
                quiesce()
            else:
                for ref in WORLD.refs:
                    ref.run()
            finish()
            continue
        finish()
        if not ctx.require(not fail, f"{what}-error-lost", f"{fail} raised, but the run succeeded",
                           got=short(got), **det):
            continue
        cnt = collections.Counter(vrt.calls())
        det.update(calls=dict(cnt), got=short(got))
        ctx.require(list(got) == final, f"{what}-keys", f"{list(got)} vs {final}", **det)
        for k in final:
            ctx.require(same(got.get(k), exp[k]), f"{what}-value",
                        f"{k}: {short(got.get(k))} expected {short(exp[k])}", **det)
        for nm, c in calls.items():
            ctx.require(cnt.get(nm, 0) == c, f"{what}-calls",
                        f"{nm} ran {cnt.get(nm, 0)} times, expected {c}", **det)
        for nm, c in cnt.items():
            if nm not in calls:
                n = d.nodes[nm]
                lim = d.nodes[d.blocks[n.block][0]].n if n.role == "body" else 1
                ctx.require(nm in allowed and c <= lim, f"{what}-unneeded", f"{nm} ran {c} times", **det)
        if hooks:
            ev = [e for e in vrt.EVENTS if e[0] in ("pre", "post")]
            pre = collections.Counter(e[1] for e in ev if e[0] == "pre" and e[1] in d.nodes)
            post = collections.Counter(e[1] for e in ev if e[0] == "post" and e[1] in d.nodes)
            for nm in cnt:
                want = cnt[nm]
                ctx.require(pre[nm] == want and post[nm] == want, f"{what}-hooks",
                            f"{nm} ran {want} times, hooks {pre[nm]}/{post[nm]}", **det)
            ctx.observe("dask_hooks" if what == "dask-task" else "ray_hooks", len(ev))
        ctx.observe("dask_tasks" if what == "dask-task" else "ray_tasks", sum(cnt.values()))
        ctx.observe("dask_blocks", len(d.blocks))
        ctx.observe("repeat_runs", r)
        ctx.sig(what, d.sig(), hooks, both)
        ctx.sample(dict(source=d.source(), final=final, got=short(got)))
    unload(mod)


class Odd:
    pass


def wrong_input(ctx, what, dag, dr, final, inputs, overrides, config):
    """A required input of another type is refused, as by the plain driver."""
    req, _ = required_inputs(dag, final, config, overrides)
    names = [n for n in sorted(req) if n in inputs and n not in overrides and dag.inputs[n] in ("int", "str")]
    if not names or ctx.rng.random() > .4:
        return
    nm = ctx.rng.choice(names)
    try:
        dr.execute(final, inputs={**inputs, nm: Odd()}, overrides=overrides)
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.require(isinstance(err, ValueError) and nm in str(err) and not vrt.calls(), f"{what}-wrong-input",
                f"{nm}: {type(err).__name__} {str(err)[:200]}, ran {vrt.calls()}", source=dag.sources(), final=final)
    ctx.observe("wrong_inputs")
    vrt.reset()


@check.family("dask_executor", quick=300, thorough=6000)
def f_dask_exec(ctx):
    run_tasks(ctx, "dask-task", h_dask.DaskExecutor(client=client))


@check.family("ray_executor", quick=500, thorough=8000)
def f_ray_exec(ctx):
    rng = ctx.rng
    skip = rng.random() < .5
    cfg = rng.choice([None, {"address": "local"}])
    ncpu = rng.choice([None, 3])
    WORLD.reset(rng.random())
    ex = h_ray.RayTaskExecutor(num_cpus=ncpu, ray_init_config=cfg, skip_init=skip)

    def finish():
        ctx.require(len(WORLD.inits) == (0 if skip else WORLD.shutdowns), "ray-init-shutdown",
                    f"skip_init={skip}: {len(WORLD.inits)} inits, {WORLD.shutdowns} shutdowns")
        ctx.require(skip or WORLD.shutdowns > 0, "ray-no-shutdown", "cluster left running")
        ctx.require(not skip or WORLD.shutdowns == 0, "ray-shut-foreign",
                    "shut down a cluster it did not start")
        for k in WORLD.inits:
            ctx.require(k == {"num_cpus": ncpu, **(cfg or {})}, "ray-init-args", f"{k}")
        WORLD.inits.clear()
        WORLD.shutdowns = 0
    run_tasks(ctx, "ray-task", ex, finish)


OPTS = ["num_cpus=2", "resources={'special': 1}", "num_gpus=1, max_retries=3", "num_cpus=0.5"]


@check.family("ray_adapter", quick=900, thorough=12000)
def f_ray(ctx):
    rng = ctx.rng
    dag = gen_dag(rng, strict=True, n_mods=1, kinds=[k for k in PLAIN_KINDS if k != "none"])
    opts = {}
    for nm, n in dag.nodes.items():
        if rng.random() < .25:
            o = rng.choice(OPTS)
            n.decorators.append(f"@_ray_options({o})")
            opts[nm] = eval(f"dict({o})")
        if rng.random() < .15:
            n.decorators.append("@_tag(**{'ray_remote_notes.num_cpus': '7', 'ray': 'x'})")
            ctx.observe("ray_other_tags")
    src = "from hamilton.function_modifiers.metadata import ray_remote_options as _ray_options, tag as _tag\n" + dag.sources(rng)[0]
    mod = load_module(src)
    config = {nm: input_value(rng, k) for nm, k in dag.inputs.items() if rng.random() < .2}
    kind = rng.choice(["graph", "graph", "workflow"])
    hooks = kind == "graph" and rng.random() < .6
    off = rng.random() < .2 and kind == "graph"
    WORLD.reset(rng.random())
    wf.ids.clear()
    if kind == "graph":
        ini = rng.choice([None, {"num_cpus": 2}, {}])
        ad = h_ray.RayGraphAdapter(base.DictResult(), ray_init_config=ini, shutdown_ray_on_completion=off)
        ctx.require(WORLD.inits == ([ini] if ini is not None else []), "ray-init", f"{WORLD.inits} vs {ini}")
    else:
        ad = h_ray.RayWorkflowGraphAdapter(base.DictResult(), workflow_id="wid")
    b = driver.Builder().with_modules(mod).with_config(config)
    b = b.with_adapters(*([ad] + ([Hooks.make([])] if hooks else [])))
    dr = b.build()
    for r in range(2):
        final, overrides, inputs = plan(rng, dag, config)
        exp, called, memo = evaluate(dag, final, config, inputs, overrides)
        vrt.reset()
        if not off:
            wrong_input(ctx, "ray", dag, dr, final, inputs, overrides, config)
        WORLD.reset(rng.random())
        det = dict(source=src, final=final, inputs=inputs, overrides=overrides, config=config, kind=kind,
                   hooks=hooks)
        fail = rng.choice(called) if called and rng.random() < .25 else None
        if fail:
            vrt.RAISE[fail] = vrt.VErr
        sleep = h_ray.time.sleep
        h_ray.time.sleep = lambda s: None if s > 1 else sleep(s)
        try:
            got = dr.execute(final, inputs=inputs, overrides=overrides)
        except Exception as e:  # noqa: BLE001
            if not (fail and raising(e)):
                raise
            ctx.observe("ray_errors")
            cnt = collections.Counter(vrt.calls())
            ctx.require(all(c == 1 and n in called for n, c in cnt.items()) and fail in cnt,
                        "ray-error-calls", f"{dict(cnt)}", **det)
            if hooks:
                bad = [e for e in vrt.EVENTS if e[0] == "post" and e[1] == fail and e[2][0]]
                ctx.require(not bad, "ray-hook-success", f"{bad}", **det)
            continue
        finally:
            h_ray.time.sleep = sleep
        if not ctx.require(not fail, "ray-error-lost", f"{fail} raised, but the run succeeded",
                           got=short(got), **det):
            continue
        for ref in WORLD.refs:
            ref.run()
        check_run(ctx, "ray", dag, got, exp, called, final, det)
        ctx.observe("ray_nodes", len(called))
        if WORLD.eager:
            ctx.observe("ray_out_of_order", WORLD.eager)
        ran = [o for o in WORLD.runs if o]
        want = [opts[n] for n in called if n in opts]
        key = lambda o: sorted((k, repr(v)) for k, v in o.items())     # noqa: E731
        ctx.require(sorted(map(key, ran)) == sorted(map(key, want)), "ray-options",
                    f"remote calls ran with {ran}, decorated {want}", **det)
        ctx.observe("ray_options", len(want))
        if kind == "workflow":
            ctx.observe("ray_workflow")
            ctx.require(wf.ids[-1:] == ["wid"], "ray-workflow-id", f"{wf.ids}", **det)
        else:
            ctx.require(WORLD.shutdowns == (1 if off else 0), "ray-shutdown",
                        f"asked {off}, shutdowns {WORLD.shutdowns}", **det)
        if hooks:
            ev = [e for e in vrt.EVENTS if e[0] in ("pre", "post")]
            pre = {e[1]: e[2] for e in ev if e[0] == "pre" and e[1] in dag.nodes}
            post = {e[1]: e[2] for e in ev if e[0] == "post" and e[1] in dag.nodes}
            args = {e[1]: e[2] for e in vrt.EVENTS if e[0] == "call"}
            ctx.require(sorted(e[1] for e in ev if e[0] == "pre" and e[1] in dag.nodes) == sorted(called)
                        and sorted(e[1] for e in ev if e[0] == "post" and e[1] in dag.nodes) == sorted(called),
                        "ray-hooks", f"hooks {ev} for {called}", **det)
            for nm in called:
                if nm in pre and nm in post:
                    # defaults are filled in by the function itself, so compare what was passed
                    ok = all(args[nm].get(k) == v for k, v in pre[nm].items())
                    ctx.require(ok, "ray-hook-args", f"{nm}: {pre[nm]} vs {args[nm]}", **det)
                    ctx.require(post[nm] == (True, None, vrt.ival(memo[nm])), "ray-hook-result",
                                f"{nm}: {post[nm]}", **det)
            ctx.observe("ray_hooks", len(ev))
        ctx.sig("ray", dag.shape_sig(), kind, hooks, len(opts))
        ctx.sample(dict(det, got=short(got), remote_calls=len(WORLD.refs), ran_before_needed=WORLD.eager))
    unload(mod)


if __name__ == "__main__":
    check.main()
