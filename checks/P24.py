"""P24: the Hamilton UI tracker reports exactly the runs that happened and never disturbs them."""
import asyncio
import collections
import datetime
import inspect
import json
import linecache
import math
import os
import random
import subprocess
import sys
import threading
import time

import vf
import vrt
from cmpv import same, short
from gen import PLAIN_KINDS, evaluate, gen_dag, input_value, required_inputs
from pargen import evaluate_p, gen_pdag, required_p

check = vf.Check(
    "P24",
    rule="HamiltonTracker / AsyncHamiltonTracker attached to random dataflows (plain, parallel blocks "
         "on threads with seeded delays, failing nodes, repeated runs, several drivers on one "
         "tracker), talking HTTP to a recording backend on loopback; oracle = what the functions and "
         "an independent hook saw: one template per graph, one record per run, one final record per "
         "node execution, right status / value / error / times, everything delivered once stop() "
         "returns or the process exits. Distinct = structure x workload x client settings x "
         "number of batches the backend received",
    required=["sync_runs", "node_records", "failed_records", "task_records", "stops", "racing_stops",
              "batches", "exits", "async_runs", "stats_columns", "templates", "driver_churn", "odd_values",
              "sampled", "materialize_runs", "outages", "versions_run", "code_artifacts", "same_again", "dq_failures"],
    extensions=("pandas", "polars", "numpy"),
    hang_s=150,
)


@check.setup
def setup_env():
    os.environ["NO_PROXY"] = "*"
    import pandas as pd
    import polars as pl
    from hamilton_sdk import adapters
    from hamilton_sdk.api import clients
    from hamilton_sdk.tracking import data_observation, runs, utils

    import trackserver
    from hamilton import async_driver, driver
    from hamilton.execution import executors
    from hamilton.io.materialization import to
    from hamilton.lifecycle import NodeExecutionHook
    global Truth

    class Truth(NodeExecutionHook):
        """Independent record of node executions, with times taken inside the tracker's."""

        def __init__(self):
            self.recs, self.loc = [], threading.local()
            self.lock = threading.Lock()

        def run_before_node_execution(self, *, node_name, task_id, run_id, **kw):
            r = dict(node=node_name, task=task_id, run=run_id, t0=now(), body=None, done=False)
            self.loc.cur = r
            with self.lock:
                self.recs.append(r)

        def body(self):
            r = getattr(self.loc, "cur", None)
            if r is not None and r["body"] is None:
                r["body"] = now()

        def run_after_node_execution(self, *, node_name, task_id, run_id, success, error, result, **kw):
            r = self.loc.cur
            r.update(done=True, ok=success, err=error, val=result, t1=now())

    globals().update(adapters=adapters, clients=clients, driver=driver, async_driver=async_driver,
                     executors=executors, pd=pd, pl=pl, Truth=Truth, data_observation=data_observation,
                     runs=runs, utils=utils, to=to, SRV=trackserver.Server(), trackserver=trackserver)


_n = [0]


def load_module(ctx, source):
    """A module with a real file (the tracker reads it)."""
    import importlib.util
    _n[0] += 1
    name = f"tkmod{_n[0]}x"
    p = os.path.join(ctx.tmpdir(), name + ".py")
    open(p, "w").write(source)
    spec = importlib.util.spec_from_file_location(name, p)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def modules(ctx, dag, rng=None):
    return [load_module(ctx, s) for s in dag.sources(rng)]


def unload(*mods):
    for m in mods:
        sys.modules.pop(m.__name__, None)


def now():
    return datetime.datetime.now(datetime.timezone.utc)


def parse_t(s):
    t = datetime.datetime.fromisoformat(s)
    return t if t.tzinfo else t.replace(tzinfo=datetime.timezone.utc)


def tracker(ctx, **kw):
    t = adapters.HamiltonTracker(project_id=1, username="u", dag_name=kw.pop("name", "d"), api_key="k",
                                 hamilton_api_url=SRV.url, **kw)
    t.client.flush_interval = ctx.rng.choice([0.01, 0.03, 0.2])
    t.client.max_batch_size = ctx.rng.choice([1, 2, 3, 100])
    return t


def stop(ctx, t):
    th = threading.Thread(target=t.stop, daemon=True)
    th.start()
    th.join(60)
    ctx.observe("stops")
    ctx.require(not th.is_alive(), "stop-hangs", "stop() did not return")


def name_of(r):
    return r["node"] if r["task"] is None else f"{r['task']}-{r['node']}"


def check_record(ctx, run, truth, rid, deps, det, times=True, sample=None):
    tasks, attrs = SRV.tasks(run), SRV.attrs(run)
    recs = [r for r in truth.recs if r["run"] == rid]
    want = {name_of(r): r for r in recs}
    det = dict(det, tasks={k: str(v) for k, v in list(tasks.items())[:20]})
    ctx.require(len(want) == len(recs), "truth-names", f"{[name_of(r) for r in recs]}", **det)
    if sample is not None:
        dropped = {k for k, r in want.items() if not sample(r)}
        ctx.observe("sampled", len(dropped))
        for k in dropped:
            # started but not reported is what sampling is for; failures are always reported
            ctx.require(k not in tasks and k not in attrs, "unsampled-reported", k, **det)
            want.pop(k)
    ctx.require(set(tasks) == set(want), "task-records",
                f"missing {sorted(set(want) - set(tasks))} extra {sorted(set(tasks) - set(want))}", **det)
    for k, r in want.items():
        t = tasks.get(k)
        if t is None:
            continue
        ctx.observe("node_records")
        if r["task"] is not None:
            ctx.observe("task_records")
        st = "SUCCESS" if r["ok"] else "FAILURE"
        ctx.require(t["status"] == st, "task-status", f"{k}: {t['status']} but {st}", **det)
        ctx.require(t["node_template_name"] == r["node"], "task-template", f"{k}: {t}", **det)
        if r["node"] in deps:
            ctx.require(sorted(t["realized_dependencies"]) == sorted(deps[r["node"]]), "task-deps",
                        f"{k}: {t['realized_dependencies']} vs {deps[r['node']]}", **det)
        if times:
            a, b = parse_t(t["start_time"]), parse_t(t["end_time"] or t["start_time"])
            ctx.require(t["end_time"] is not None, "task-no-end", f"{k}", **det)
            ctx.require(r["t0"] <= a <= (r["body"] or r["t1"]) <= b, "task-times",
                        f"{k}: reported {a} .. {b}; ran {r['t0']} {r['body']} {r['t1']}", **det)
        at = attrs.get(k, [])
        summ = [x for x in at if x["name"] == "result_summary"]
        errs = [x for x in at if x["name"] == "stack_trace"]
        if r["ok"]:
            ctx.require(len(summ) == 1 and not errs, "task-attributes",
                        f"{k} succeeded, attributes {[x['name'] for x in at]}", **det)
            if len(summ) == 1:
                check_value(ctx, k, summ[0], r["val"], det)
        else:
            ctx.observe("failed_records")
            ctx.require(len(errs) == 1 and not summ, "task-attributes",
                        f"{k} failed, attributes {[x['name'] for x in at]}", **det)
            if len(errs) == 1:
                txt = "".join(errs[0]["value"]["stack_trace"])
                ctx.require(str(r["err"]) in txt and type(r["err"]).__name__ in txt, "task-error-text",
                            f"{k}: {txt[-300:]}", **det)


def check_value(ctx, k, s, val, det):
    v = s["value"]
    if isinstance(val, bool) or isinstance(val, (int, str)):
        ok = s["type"] == "primitive" and v["value"] == val and v["type"] == str(type(val))
    elif isinstance(val, float):
        if math.isfinite(val):
            ok = s["type"] == "primitive" and v["value"] == val
        else:
            ok = s["type"] == "primitive" and (v["value"] is None or str(val) in str(v["value"]).lower())
    elif isinstance(val, (list, dict)) and json_plain(val):
        ok = s["type"] == "dict" and v["value"] == json.loads(json.dumps(val))
    elif isinstance(val, pd.DataFrame):
        ok = s["type"] == "dagworks_describe" and sorted(v) == sorted(map(str, val.columns))
    else:
        ok = True
    ctx.require(ok, "result-summary", f"{k}: {short(val)} reported as {s['type']} {short(v)}", **det)


def json_plain(v):
    if isinstance(v, dict):
        return len(v) < 50 and all(isinstance(k, str) and json_plain(x) for k, x in v.items())
    if isinstance(v, list):
        return len(v) < 40 and all(map(json_plain, v))
    return v is None or isinstance(v, (str, int, bool)) or (isinstance(v, float) and math.isfinite(v))


def the_run(ctx, before, det):
    new = [r for r in SRV.runs if r not in before]
    ctx.require(len(new) == 1, "run-records", f"{len(new)} run records for one execution", **det)
    return new[0] if new else None


def check_end(ctx, run, ok, det):
    ends = [d for r, d in SRV.ends if r == run]
    st = "SUCCESS" if ok else "FAILURE"
    ctx.require(len(ends) == 1 and ends[0]["run_status"] == st, "run-end", f"{ends}, expected {st}", **det)


def check_template(ctx, run, dr, det, name, tags):
    t = SRV.templates.get(SRV.runs[run]["template"])
    ctx.observe("templates")
    if not ctx.require(t is not None, "run-template-unknown", f"{SRV.runs[run]['template']}", **det):
        return
    nodes = {n["name"]: sorted(n["dependencies"]) for n in t["nodes"]}
    want = {n.name: sorted(d.name for d in n.dependencies) for n in dr.graph.nodes.values()}
    ctx.require(nodes == want, "template-nodes", f"run filed under a template with nodes {nodes}, "
                f"graph has {want}", **det)
    ctx.require(t["name"] == name and t["tags"] == tags, "template-name", f"{t['name']} {t['tags']}", **det)
    for d in t["nodes"]:
        n = dr.graph.nodes.get(d["name"])
        if n is None:
            continue
        ctx.require(d["output"].get("type_name") == str(n.type), "template-type", f"{n.name}: {d['output']} {n.type}",
                    **det)
        ctx.require((d["documentation"] or "") == (n.documentation or ""), "template-doc",
                    f"{n.name}: {d['documentation']!r}", **det)
        if json_plain(n.tags):
            ctx.require(d["tags"] == n.tags, "template-tags", f"{n.name}: {d['tags']}", **det)
        specs = {a: b["type_name"] for a, b in zip(d["dependencies"], d["dependency_specs"])}
        ctx.require(specs == {x.name: str(x.type) for x in n.dependencies}, "template-dep-types",
                    f"{n.name}: {specs}", **det)
        ctx.require(("input" in d["classifications"]) == bool(n.user_defined), "template-class",
                    f"{n.name}: {d['classifications']}", **det)
    check_code(ctx, t, dr, det)


def check_code(ctx, t, dr, det):
    """The template carries the code of the functions in this graph."""
    fns = {}
    for n in dr.graph.nodes.values():
        for fn in n.originating_functions or ():
            m = inspect.getmodule(fn)
            if m is not None and m.__name__.startswith("tkmod"):
                fns.setdefault(f"{m.__name__}.{fn.__name__}", (fn, m, []))[2].append(n.name)
    arts = {a["name"]: a for a in t["code_artifacts"]}
    files = {os.path.basename(f["path"]): f["contents"] for f in t["code_log"]["files"]}
    pts = {d["name"]: d["code_artifact_pointers"] for d in t["nodes"]}
    for full, (fn, m, nodes) in fns.items():
        ctx.observe("code_artifacts")
        base = os.path.basename(m.__file__)
        text = open(m.__file__).read()
        ctx.require(files.get(base) == text, "template-code",
                    f"code of {base} in the template is not the code that was run", **det)
        a = arts.get(full)
        if ctx.require(a is not None, "template-artifact", f"{full}: {sorted(arts)}", **det):
            lines = text.splitlines(True)[a["start"]:a["end"]]
            ctx.require("".join(lines).strip() == inspect.getsource(fn).strip(), "template-artifact-lines",
                        f"{full}: {a}", **det)
        for n in nodes:
            ctx.require(full in pts.get(n, []), "template-pointers", f"{n}: {pts.get(n)}", **det)


KINDS = PLAIN_KINDS + ["series", "frame", "array", "nan"]


@check.family("sync", quick=220, thorough=6000)
def f_sync(ctx):
    rng = ctx.rng
    SRV.reset()
    dag = gen_dag(rng, kinds=KINDS, n_nodes=rng.choice([1, 3, 5, 8, 14]))
    mods = modules(ctx, dag, rng)
    config = {nm: input_value(rng, k) for nm, k in dag.inputs.items() if rng.random() < .2}
    tags = rng.choice([{}, {"env": "x"}])
    t = tracker(ctx, name="dd", tags=tags)
    truth = Truth()
    b = driver.Builder().with_modules(*mods).with_config(config).with_adapters(truth, t)
    tb = rng.random() < .3
    if tb:
        b = b.enable_dynamic_execution(allow_experimental_mode=True)
    dr = b.build()
    todo = []
    for r in range(rng.choice([1, 2, 3])):
        final = rng.sample(list(dag.nodes), rng.randrange(1, min(4, len(dag.nodes)) + 1))
        overrides = {}
        if rng.random() < .2:
            overrides[rng.choice(list(dag.nodes))] = 5
        req, opt = required_inputs(dag, final, config, overrides)
        inputs = {nm: input_value(rng, dag.inputs[nm]) for nm in dag.inputs
                  if nm not in config and (nm in req or rng.random() < .4)}
        exp, called, memo = evaluate(dag, final, config, inputs, overrides)
        fail = rng.choice(called) if called and rng.random() < .3 else None
        vrt.reset()
        if fail:
            vrt.RAISE[fail] = vrt.VErr
        for nm in dag.nodes:
            vrt.GATES[nm] = truth.body
        n0 = len(truth.recs)
        before = set(SRV.runs)
        det = dict(source=dag.sources(), final=final, inputs=inputs, overrides=overrides, config=config,
                   fail=fail, task_based=tb, batch=t.client.max_batch_size, flush=t.client.flush_interval)
        try:
            got = dr.execute(final, inputs=inputs, overrides=overrides)
            ctx.require(not fail, "error-swallowed", f"{fail}", **det)
            for k in final:
                ctx.require(same(got.get(k), exp[k]), "tracking-changed-result",
                            f"{k}: {short(got.get(k))} vs {short(exp[k])}", **det)
        except vrt.VErr:
            if not fail:
                raise
        ctx.observe("sync_runs")
        cnt = collections.Counter(vrt.calls())
        rids = {x["run"] for x in truth.recs[n0:]}
        run = the_run(ctx, before, det)
        if run is None:
            continue
        rec = SRV.runs[run]
        ctx.require(sorted(rec["outputs"]) == sorted(final) and sorted(rec["inputs"]) == sorted(inputs),
                    "run-record", f"{rec}", **det)
        for k, v in inputs.items():
            if json_plain(v):
                ctx.require(rec["inputs"].get(k) == v, "run-inputs", f"{k}: {rec['inputs'].get(k)!r}", **det)
        check_end(ctx, run, not fail, det)
        check_template(ctx, run, dr, det, "dd", tags)
        if called or rids:
            ctx.require(len(rids) <= 1, "truth-run", f"{rids}")
        ctx.require(set(cnt) <= {x["node"] for x in truth.recs[n0:]}, "truth-calls", f"{cnt}")
        if rids:
            todo.append((run, rids.pop(), det))
        if rng.random() < .3:
            time.sleep(rng.choice([.01, .05]))
    stop(ctx, t)
    deps = {n.name: [d.name for d in n.dependencies] for n in dr.graph.nodes.values()}
    for run, rid, det in todo:
        check_record(ctx, run, truth, rid, deps, det)
    ctx.require(len(SRV.templates) == 1, "template-count", f"{len(SRV.templates)}")
    ctx.require(not SRV.bad, "bad-request", f"{SRV.bad}", **todo[0][2] if todo else {})
    ctx.observe("batches", len(SRV.bulks))
    ctx.sig("sync", dag.shape_sig(), tb, t.client.max_batch_size, len(SRV.bulks), len(todo))
    ctx.sample(dict(source=dag.sources(), batches=len(SRV.bulks), runs=len(todo),
                    records={r: list(SRV.tasks(r)) for r, _, _ in todo}))
    unload(*mods)


@check.family("parallel", quick=180, thorough=5000)
def f_par(ctx):
    rng = ctx.rng
    SRV.reset()
    d = gen_pdag(rng, n_blocks=rng.choice([1, 1, 2]))
    mod = load_module(ctx, d.source())
    t = tracker(ctx)
    truth = Truth()
    strat = rng.choice([None, None, None, 2, 3, 0.5, 0.0, 1])
    t.special_parallel_sample_strategy = strat
    b = (driver.Builder().with_modules(mod).with_adapters(truth, t)
         .enable_dynamic_execution(allow_experimental_mode=True)
         .with_remote_executor(executors.MultiThreadingExecutor(rng.choice([2, 4, 8]))))
    dr = b.build()
    final = rng.sample(d.outer(), rng.randrange(1, min(3, len(d.outer())) + 1))
    if d.blocks[-1][2] not in final:
        final.append(d.blocks[-1][2])
    req, opt = required_p(d, final, {})
    inputs = {nm: input_value(rng, d.inputs[nm]) for nm in d.inputs if nm in req or rng.random() < .5}
    exp, calls, allowed = evaluate_p(d, final, inputs, {})
    bodies = [x for _, body, _ in d.blocks for x in body if x in calls]
    fail = rng.choice(bodies or list(calls)) if rng.random() < .3 and calls else None
    vrt.reset()
    nth = rng.choice([0, 0, 1, 2])
    if fail:
        seen = []

        def gate():
            truth.body()
            seen.append(1)
            if len(seen) == nth + 1:
                raise vrt.VErr(fail)
        if calls[fail] <= nth:
            fail = None
    r2 = random.Random(rng.random())
    for nm in d.nodes:
        vrt.GATES[nm] = gate if nm == fail else truth.body
        vrt.DELAY[nm] = lambda: r2.choice([0, 0, .001, .003, .008])
    det = dict(source=d.source(), final=final, inputs=inputs, fail=fail, strategy=strat,
               batch=t.client.max_batch_size, flush=t.client.flush_interval)
    try:
        got = dr.execute(final, inputs=inputs)
        ctx.require(not fail, "error-swallowed", f"{fail}", **det)
        for k in final:
            ctx.require(same(got.get(k), exp[k]), "tracking-changed-result",
                        f"{k}: {short(got.get(k))} vs {short(exp[k])}", **det)
    except vrt.VErr:
        if not fail:
            raise
    ctx.observe("sync_runs")
    run = the_run(ctx, set(), det)
    stop(ctx, t)
    if run is not None:
        check_end(ctx, run, not fail, det)
        rids = {x["run"] for x in truth.recs}
        deps = {n.name: [x.name for x in n.dependencies] for n in dr.graph.nodes.values()}
        sample = None
        if strat is not None:
            groups = {}

            def idx(r):
                return int(r["task"].split(".")[1]) if r["task"] and r["task"].startswith("expand-") \
                    and "block" in r["task"] else None

            def sample(r):
                i = idx(r)
                if i is None or not r["ok"]:
                    return True
                if isinstance(strat, float):
                    if strat in (0.0, 1.0):
                        return strat == 1.0
                    return r["task"] in reported
                return i % strat == 0
            tasks = SRV.tasks(run)
            reported = {r["task"] for r in truth.recs if name_of(r) in tasks and r["ok"]}
        if rids:
            check_record(ctx, run, truth, rids.pop(), deps, det, sample=sample)
    ctx.require(not SRV.bad, "bad-request", f"{SRV.bad}", **det)
    ctx.observe("batches", len(SRV.bulks))
    ctx.sig("par", d.sig(), strat, t.client.max_batch_size, len(SRV.bulks), bool(fail))
    ctx.sample(dict(source=d.source(), batches=len(SRV.bulks), records=len(truth.recs)))
    unload(mod)


@check.family("delivery", quick=180, thorough=5000)
def f_delivery(ctx):
    """update_tasks from several threads, then stop(): every update reaches the backend once."""
    rng = ctx.rng
    SRV.reset()
    c = clients.BasicSynchronousHamiltonClient("k", "u", SRV.url)
    c.flush_interval = rng.choice([.001, .005, .02, .1, .5])
    c.max_batch_size = rng.choice([1, 2, 5, 20, 100])
    mode = rng.choice(["fast", "slow", "mixed"])
    r2 = random.Random(rng.random())
    if mode == "slow":
        SRV.delay = lambda: r2.choice([0, .005, .02])
    nruns, nthreads, per = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 4]), rng.choice([1, 5, 30, 80])
    exp = collections.defaultdict(dict)
    for th in range(nthreads):
        for i in range(per):
            exp[1 + i % nruns][f"n{th}_{i}"] = i
    seeds = [rng.random() for _ in range(nthreads)]

    def work(th):
        r3 = random.Random(seeds[th])
        for i in range(per):
            nm = f"n{th}_{i}"
            c.update_tasks(1 + i % nruns, attributes=[None], in_samples=[True], task_updates=[
                dict(node_name=nm, status="RUNNING", start=i, end=None)])
            if r3.random() < .1:
                time.sleep(r3.choice([.0005, .002]))
            c.update_tasks(1 + i % nruns, attributes=[dict(node_name=nm, name="a", value=i)],
                           in_samples=[True],
                           task_updates=[dict(node_name=nm, status="SUCCESS", start=i, end=i)])
    inline = rng.random() < .5
    ths = [threading.Thread(target=work, args=(i,)) for i in range(nthreads - inline)]
    for x in ths:
        x.start()
    if inline:
        for x in ths:
            x.join()
        work(nthreads - 1)
        c.stop()                # at once, with whatever is still queued
        ctx.observe("stops")
    else:
        for x in ths:
            x.join()
        time.sleep(rng.choice([0, 0, 0, .0003, .001, .004, .03]))
        stop(ctx, c)
    if rng.random() < .3:
        stop(ctx, c)
    ctx.observe("racing_stops")
    ctx.observe("batches", len(SRV.bulks))
    for run, want in exp.items():
        ts, at = SRV.tasks(run), SRV.attrs(run)
        det = dict(nthreads=nthreads, per=per, nruns=nruns, flush=c.flush_interval, batch=c.max_batch_size,
                   bulks=len(SRV.bulks))
        lost = [n for n in want if ts.get(n, {}).get("status") != "SUCCESS"]
        ctx.require(not lost, "updates-lost", f"{len(lost)} of {len(want)}: {lost[:5]}", **det)
        ctx.require(set(ts) <= set(want), "updates-misfiled", f"{set(ts) - set(want)}", **det)
        bad = [n for n in want if [a["value"] for a in at.get(n, [])] != [want[n]]]
        ctx.require(not bad, "attributes-lost", f"{bad[:5]}", **det)
    ctx.sig("delivery", nthreads, per, nruns, c.flush_interval, c.max_batch_size, len(SRV.bulks))


EXIT = '''
import sys, os, json, threading, time
sys.path[:0] = {path!r}
os.environ["NO_PROXY"] = "*"
import logging; logging.disable(logging.CRITICAL)
from hamilton_sdk import adapters
from hamilton import driver
import exmod
t = adapters.HamiltonTracker(project_id=1, username="u", dag_name="d", api_key="k", hamilton_api_url={url!r})
t.client.flush_interval = {flush}
t.client.max_batch_size = {batch}
dr = driver.Builder().with_modules(exmod).with_adapters(t).build()
{body}
'''
BODIES = {
    "plain": "dr.execute(['n{n}'])",
    "stop": "dr.execute(['n{n}']); t.stop()",
    "stop_then_wait": "dr.execute(['n{n}']); t.stop(); time.sleep(.05)",
    "sysexit": "dr.execute(['n{n}']); sys.exit(0)",
    "raise": "dr.execute(['n{n}']); raise SystemExit(0)",
    "thread": "th = threading.Thread(target=lambda: (time.sleep(.05), dr.execute(['n{n}'])))\nth.start()",
    "twice": "dr.execute(['n{n}']); dr.execute(['n{n}'])",
}


@check.family("exit", quick=24, thorough=240)
def f_exit(ctx):
    """Leaving the process in any orderly way delivers everything, quietly."""
    rng = ctx.rng
    SRV.reset()
    d = ctx.tmpdir()
    n = rng.choice([0, 3, 12, 60])
    src = "def n0() -> int:\n    return 1\n\n" + "".join(
        f"def n{i}(n{i-1}: int) -> int:\n    return n{i-1} + {i}\n\n" for i in range(1, n + 1))
    open(os.path.join(d, "exmod.py"), "w").write(src)
    mode = list(BODIES)[ctx.idx % len(BODIES)]
    flush, batch = rng.choice([.02, .3, 5]) if mode not in ("stop", "stop_then_wait") else rng.choice([.02, .3]), \
        rng.choice([1, 7, 100])
    code = EXIT.format(path=[d], url=SRV.url, flush=flush, batch=batch, body=BODIES[mode].format(n=n))
    open(os.path.join(d, "run.py"), "w").write(code)
    env = dict(os.environ)
    p = subprocess.run([sys.executable, os.path.join(d, "run.py")], env=env, cwd=d, capture_output=True,
                       text=True, timeout=90)
    det = dict(mode=mode, n=n, flush=flush, batch=batch, stderr=p.stderr[-1500:], rc=p.returncode)
    ctx.observe("exits")
    ctx.require(p.returncode == 0, "exit-code", f"{p.returncode}", **det)
    ctx.require("Traceback" not in p.stderr, "exit-traceback", p.stderr[-600:], **det)
    nr = 2 if mode == "twice" else 1
    ctx.require(len(SRV.runs) == nr, "exit-runs", f"{len(SRV.runs)}", **det)
    val, vals = 1, [1]
    for i in range(1, n + 1):
        val += i
        vals.append(val)
    for run in SRV.runs:
        ts, at = SRV.tasks(run), SRV.attrs(run)
        bad = [i for i in range(n + 1) if ts.get(f"n{i}", {}).get("status") != "SUCCESS"]
        ctx.require(not bad, "lost-at-exit", f"{len(bad)} of {n + 1} nodes not reported: {bad[:8]}", **det)
        bad = [i for i in range(n + 1) if [a["value"]["value"] for a in at.get(f"n{i}", [])] != [vals[i]]]
        ctx.require(not bad, "lost-at-exit", f"summaries of {bad[:8]}", **det)
        check_end(ctx, run, True, det)
    ctx.sig("exit", mode, n, flush, batch)


ODD = ["float('nan')", "float('inf')", "-float('inf')", "{(1, 2): 3}", "{1: 'a', None: 2}", "{'a': {(1,): {2}}}",
       "{'s': {1, 2}}", "[float('nan'), 1]", "{'x': float('inf')}", "b'bytes'", "object()", "{1, 2}",
       "(1, 2)", "[object()]", "'nul\\x00byte'", "10**400", "1j", "range(3)", "np.float64('nan')",
       "np.int64(3)", "np.array([])", "np.array([[1.0, np.nan]])", "np.zeros((2, 2, 2))", "np.bool_(True)",
       "pd.DataFrame()", "pd.DataFrame({'a': [1]})", "pd.DataFrame({'a': [np.nan, np.inf]})",
       "pd.DataFrame({1: [1, 2], 'b': ['x', None]})", "pd.DataFrame({('a', 'b'): [1, 2]})",
       "pd.Series([], dtype=float)", "pd.Series([pd.Timestamp('2020-01-01'), pd.NaT])",
       "pd.Series(['a', 'b'], dtype='category')", "pd.Series([True, False])", "pd.Series([pd.Timedelta(1)])",
       "pd.Series([[1], {2: 3}])", "pd.Series([1, None], dtype='Int64')", "pd.NaT", "pd.NA",
       "pd.Timestamp('2020-01-01')", "pl.DataFrame({'a': [1, None]})", "pl.DataFrame()",
       "pl.DataFrame({'a': [float('nan')]})", "pl.Series('s', ['a', None])", "pl.DataFrame({'d': [[1], [2]]})",
       "list(range(200))", "{i: i for i in range(300)}", "{'k%d' % i: object() for i in range(120)}",
       "datetime.date(2020, 1, 2)", "datetime.datetime(2020, 1, 2)", "Path('/tmp/x')", "print", "Bad()", "BadLen()",
       "[[{'a': float('nan')}]]", "{'a': [1, (2, {3})]}", "Dc(1, {(1,): 2})", "Nt(1, 2)", "E.A", "[E.A]", "int",
       "{'f': pd.DataFrame({'a': [1]})}", "[pd.Series([1.0])]", "'\\ud800'"]
ODD_HDR = '''
from typing import Any
import collections, dataclasses, datetime, enum
from pathlib import Path
import numpy as np, pandas as pd, polars as pl
class Bad:
    def __repr__(self): raise RuntimeError("no repr")
class BadLen(list):
    def __len__(self): raise RuntimeError("no len")
@dataclasses.dataclass
class Dc:
    a: int
    b: dict
Nt = collections.namedtuple("Nt", "a b")
class E(enum.Enum):
    A = 1
'''


@check.family("odd", quick=189, thorough=3000)
def f_odd(ctx):
    """Whatever a node returns, it is recorded, and so is everything around it."""
    rng = ctx.rng
    SRV.reset()
    exprs = [ODD[ctx.idx % len(ODD)]] + rng.sample(ODD, 2)
    rng.shuffle(exprs)
    src = ODD_HDR + "def before() -> int:\n    return 5\n\n"
    for i, e in enumerate(exprs):
        src += f"def odd{i}(before: int, inp: Any = None) -> Any:\n    return {e}\n\n"
    src += "def after(%s) -> int:\n    return 7\n" % ", ".join(f"odd{i}: Any" for i in range(len(exprs)))
    mod = load_module(ctx, src)
    t = tracker(ctx)
    tr = Truth()
    dr = driver.Builder().with_modules(mod).with_adapters(t).build()
    asinput = rng.random() < .4
    kw = dict(inputs={"inp": eval(exprs[0], mod.__dict__)}) if asinput and exprs[0] != "Bad()" else {}
    det = dict(exprs=exprs, batch=t.client.max_batch_size, flush=t.client.flush_interval)
    got = dr.execute(["after", "before"], **kw)
    ctx.require(got == {"after": 7, "before": 5}, "tracking-changed-result", f"{got}", **det)
    stop(ctx, t)
    run = the_run(ctx, set(), det)
    ctx.observe("odd_values", len(exprs))
    if run is None:
        return
    check_end(ctx, run, True, det)
    ts, at = SRV.tasks(run), SRV.attrs(run)
    for nm in ["before", "after"] + [f"odd{i}" for i in range(len(exprs))]:
        e = exprs[int(nm[3:])] if nm.startswith("odd") else nm
        ctx.require(ts.get(nm, {}).get("status") == "SUCCESS", "odd-record", f"{nm} ({e}): {ts.get(nm)}", **det)
        ctx.require(len([a for a in at.get(nm, []) if a["name"] == "result_summary"]) == 1, "odd-summary",
                    f"{nm} ({e}): {at.get(nm)}", **det)
    ctx.require(not SRV.bad, "bad-request", f"{SRV.bad}", **det)
    ctx.sig("odd", tuple(sorted(exprs)))
    unload(mod)


@check.family("churn", quick=60, thorough=1000)
def f_churn(ctx):
    """One tracker, many drivers: every run is filed under its own graph's template."""
    rng = ctx.rng
    SRV.reset()
    t = tracker(ctx)
    dags = [gen_dag(rng, n_nodes=rng.choice([1, 2, 4])) for _ in range(4)]
    mods = [modules(ctx, d) for d in dags]
    runs_ = []
    dr = None
    for i in range(rng.choice([4, 8, 12])):
        j = rng.randrange(len(dags))
        d = dags[j]
        if rng.random() < .5:
            dr = None
        dr = driver.Builder().with_modules(*mods[j]).with_adapters(t).build()
        vrt.reset()
        final = [next((n for n in reversed(d.nodes) if d.nodes[n].kind != "none"), list(d.nodes)[-1])]
        req, opt = required_inputs(d, final)
        inputs = {nm: input_value(rng, d.inputs[nm]) for nm in req}
        before = set(SRV.runs)
        det = dict(i=i, j=j, sources=d.sources())
        if rng.random() < .3 and d.nodes[final[0]].kind != "none":
            p = os.path.join(ctx.tmpdir(), "x.pkl")
            dr.materialize(to.pickle(path=p, dependencies=final, id="sv"), inputs=inputs)
            ctx.observe("materialize_runs")
            run = the_run(ctx, before, det)
            if run is None:
                continue
            tmpl = SRV.templates.get(SRV.runs[run]["template"])
            names = {n["name"] for n in tmpl["nodes"]} if tmpl else set()
            ctx.require("sv" in names and set(d.nodes) <= names, "run-filed-under-wrong-template",
                        f"{sorted(names)}", **det)
            continue
        dr.execute(final, inputs=inputs)
        run = the_run(ctx, before, det)
        ctx.observe("driver_churn")
        if run is not None:
            check_template(ctx, run, dr, det, "d", {})
    stop(ctx, t)
    ctx.sig("churn", ctx.idx)
    for m in mods:
        unload(*m)


VSRC = '''
from hamilton.function_modifiers import config, inject, resolve, source, tag
from hamilton.function_modifiers.delayed import ResolveAt
@tag(owner="o")
def feature_input_a() -> int:
    return {a}

def feature_input_b() -> int:
    """Doc b {b}."""
    return {b}

def feature_input_aa(feature_input_a: int) -> {ty}:
    return feature_input_a

@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda dep: inject(x=source(dep)))
def picked(x: int) -> int:
    return x + {c}

@config.when(kind="one")
def total__one(picked: int) -> int:
    return picked * 10

@config.when(kind="two")
def total__two(picked: int, feature_input_a: int) -> int:
    return picked * 10 + feature_input_a
'''


DQ = '''
from hamilton.function_modifiers import check_output_custom, check_output
from hamilton.data_quality.base import DataValidator, ValidationResult

class V(DataValidator):
    def __init__(self, tag, ok, importance):
        super().__init__(importance)
        self.tag, self.ok = tag, ok
    def applies_to(self, datatype): return True
    def description(self): return "v " + self.tag
    @classmethod
    def name(cls): return "v"
    def validate(self, dataset):
        return ValidationResult(passes=self.ok, message="verdict-" + self.tag, diagnostics={{}})
{names}

@check_output_custom({vs})
{a}def checked(start: int) -> int:
    return start

{a}def after(checked: int) -> int:
    return checked + 1
'''


@check.family("dq", quick=40, thorough=600)
def f_dq(ctx):
    """Failed data-quality checks are reported with every failed validator."""
    rng = ctx.rng
    SRV.reset()
    n = rng.choice([1, 2, 3, 5])
    vs = [(f"t{i}q", rng.random() < .4, rng.choice(["fail", "fail", "warn"])) for i in range(n)]
    src = DQ.format(a="", names="\n".join(
        f"class V{i}(V):\n    @classmethod\n    def name(cls): return 'v{i}'\n" for i in range(n)),
        vs=", ".join(f"V{i}({t!r}, {ok}, {imp!r})" for i, (t, ok, imp) in enumerate(vs)))
    mod = load_module(ctx, src)
    t = tracker(ctx)
    dr = driver.Builder().with_modules(mod).with_adapters(t).build()
    bad = [tag for tag, ok, imp in vs if not ok and imp == "fail"]
    det = dict(source=src, validators=vs)
    err = None
    try:
        got = dr.execute(["after"], inputs={"start": 5})
        ctx.require(not bad and got == {"after": 6}, "tracking-changed-result", f"{got}", **det)
    except Exception as e:  # noqa: BLE001
        err = e
        ctx.require(bool(bad), "error-invented", repr(e), **det)
    stop(ctx, t)
    run = the_run(ctx, set(), det)
    if run is None:
        return
    check_end(ctx, run, not bad, det)
    ts, at = SRV.tasks(run), SRV.attrs(run)
    for k, v in ts.items():
        ctx.require(v["status"] == ("FAILURE" if k == "checked" and bad else "SUCCESS"), "dq-status", f"{k}: {v}", **det)
    ctx.require({"checked"} <= set(ts) and ("after" in ts) == (not bad), "dq-records", f"{sorted(ts)}", **det)
    if bad:
        ctx.observe("dq_failures", len(bad))
        tr = [a for a in at.get("checked", []) if a["name"] == "stack_trace"]
        if ctx.require(len(tr) == 1, "dq-error-missing", f"{at.get('checked')}", **det):
            txt = "".join(tr[0]["value"]["stack_trace"])
            for tag in bad:
                ctx.require("verdict-" + tag in txt, "dq-error-text", f"{tag}: {txt}", **det)
    ctx.sig("dq", tuple((ok, imp) for _, ok, imp in vs))
    unload(mod)


@check.family("versions", quick=60, thorough=1200)
def f_versions(ctx):
    """Edited code or another graph is another template; the same again is not."""
    import importlib.util
    rng = ctx.rng
    SRV.reset()
    t = tracker(ctx)
    name = f"tkmod_v{ctx.idx}_{rng.randrange(10 ** 6)}"
    p = os.path.join(ctx.tmpdir(), name + ".py")
    seen = {}
    mods = []
    for i in range(rng.choice([3, 5, 7])):
        a, b, c, ty = rng.choice([1, 2]), rng.choice([3, 4]), rng.choice([0, 5]), rng.choice(["int", "float", "int"])
        dep = rng.choice(["feature_input_a", "feature_input_b"] + ["feature_input_aa"] * (ty == "int"))
        kind = rng.choice(["one", "two"])
        src = VSRC.format(a=a, b=b, c=c, ty=ty)
        open(p, "w").write(src)
        linecache.checkcache(p)
        linecache.clearcache()
        spec = importlib.util.spec_from_loader(name, loader=None)
        mod = type(sys)(name)
        mod.__file__ = p
        sys.modules[name] = mod
        exec(compile(src, p, "exec"), mod.__dict__)
        mods.append(mod)
        dr = (driver.Builder().with_modules(mod).with_adapters(t)
              .with_config({"dep": dep, "kind": kind, "hamilton.enable_power_user_mode": True}).build())
        before = set(SRV.runs)
        det = dict(i=i, source=src, dep=dep, kind=kind)
        got = dr.execute(["total"])
        v = {"feature_input_a": a, "feature_input_b": b, "feature_input_aa": a}[dep] + c
        want = v * 10 + (a if kind == "two" else 0)
        ctx.require(got == {"total": want}, "tracking-changed-result", f"{got} vs {want}", **det)
        ctx.observe("versions_run")
        run = the_run(ctx, before, det)
        if run is None:
            continue
        check_template(ctx, run, dr, det, "d", {})
        tid = SRV.runs[run]["template"]
        key_ = (a, b, c, ty, dep, kind)
        if key_ in seen:
            ctx.observe("same_again")
            ctx.require(seen[key_] == tid, "template-duplicated", f"{seen[key_]} {tid}", **det)
        else:
            ctx.require(tid not in seen.values(), "template-shared",
                        f"run filed under the template of {[k for k, x in seen.items() if x == tid]}", **det)
            seen[key_] = tid
    stop(ctx, t)
    ctx.sig("versions", tuple(seen))
    unload(*mods[:1])


@check.family("async", quick=80, thorough=1500)
def f_async(ctx):
    rng = ctx.rng
    SRV.reset()
    dag = gen_dag(rng, kinds=KINDS, n_nodes=rng.choice([1, 3, 6]))
    for n in dag.nodes.values():
        n.is_async = rng.random() < .6
    mods = modules(ctx, dag, rng)
    nruns = rng.choice([1, 2, 3])
    plans = []
    for _ in range(nruns):
        final = rng.sample(list(dag.nodes), rng.randrange(1, min(3, len(dag.nodes)) + 1))
        req, opt = required_inputs(dag, final)
        inputs = {nm: input_value(rng, dag.inputs[nm]) for nm in dag.inputs if nm in req}
        plans.append((final, inputs) + evaluate(dag, final, {}, inputs))
    fail = None
    if rng.random() < .3 and plans[0][3]:
        fail = rng.choice(plans[0][3])
    conc = rng.random() < .5
    vrt.reset()
    if fail:
        vrt.RAISE[fail] = vrt.VErr
    res = []
    outage = rng.random() < .3       # the first delivery is refused; what comes later is not lost

    async def main():
        SRV.refuse = outage
        t = adapters.AsyncHamiltonTracker(project_id=1, username="u", dag_name="d", api_key="k",
                                          hamilton_api_url=SRV.url)
        t.client.flush_interval = rng.choice([.01, .03])
        t.client.max_batch_size = rng.choice([1, 3, 100])
        dr = await async_driver.Builder().with_modules(*mods).with_adapters(await t.ainit()).build()

        async def one(p):
            try:
                return await dr.execute(p[0], inputs=p[1])
            except vrt.VErr as e:
                return e
        if conc:
            out = await asyncio.gather(*[one(p) for p in plans])
        else:
            out = [await one(p) for p in plans]
        if outage:
            # wait out the refused deliveries, then run everything once more: that is what is checked
            await asyncio.sleep(.1)
            with SRV.lock:
                n = SRV.nbulk
                SRV.reset_records()
                SRV.refuse = False
            ctx.observe("outages", n)
            out = [await one(p) for p in plans]
        res.extend(out)
        deadline = time.time() + 20
        want = sum(1 for p in plans for _ in p[3]) if not fail else 0
        last = None
        while time.time() < deadline:
            await asyncio.sleep(.05)
            cur = (len(SRV.bulks), t.client.data_queue.qsize())
            if cur == last and cur[1] == 0:
                break
            last = cur
        await asyncio.sleep(.1)
        return dr
    dr = asyncio.run(main())
    ctx.observe("async_runs", nruns)
    det = dict(source=dag.sources(), plans=[p[:2] for p in plans], fail=fail, concurrent=conc)
    ctx.require(len(SRV.runs) == nruns, "run-records", f"{len(SRV.runs)}", **det)
    left = dict(SRV.runs)
    for p, got in zip(plans, res):
        failed = fail in p[3]
        if failed:
            ctx.require(isinstance(got, vrt.VErr), "error-swallowed", f"{got}", **det)
        else:
            for k in p[0]:
                ctx.require(same(got[k], p[2][k]), "tracking-changed-result", f"{k}", **det)
        run = next((r for r, d in left.items() if d["outputs"] == p[0] and sorted(d["inputs"]) == sorted(p[1])), None)
        if not ctx.require(run is not None, "run-record", f"{SRV.runs}", **det):
            continue
        left.pop(run)
        check_end(ctx, run, not failed, det)
        ts, at = SRV.tasks(run), SRV.attrs(run)
        if not failed and not (fail and conc):
            ctx.require({k for k in ts if k in dag.nodes} == set(p[3]), "task-records",
                        f"{sorted(ts)} vs {sorted(p[3])}", **det)
            for k in p[3]:
                if k in ts:
                    ctx.require(ts[k]["status"] == "SUCCESS", "task-status", f"{k} {ts[k]}", **det)
                    ctx.observe("node_records")
                    s = [a for a in at.get(k, []) if a["name"] == "result_summary"]
                    ctx.require(len(s) == 1, "task-attributes", f"{k}: {at.get(k)}", **det)
                    if len(s) == 1 and len([q for q in plans]) == 1:
                        check_value(ctx, k, s[0], p[4][k], det)
        if failed:
            ctx.observe("failed_records")
            if fail in ts:
                ctx.require(ts[fail]["status"] == "FAILURE", "task-status", f"{fail} {ts[fail]}", **det)
    ctx.require(not SRV.bad, "bad-request", f"{SRV.bad}", **det)
    ctx.sig("async", dag.shape_sig(), nruns, conc, bool(fail), len(SRV.bulks))
    unload(*mods)


@check.family("stats", quick=200, thorough=4000)
def f_stats(ctx):
    """Column statistics of frames say what the data says."""
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 5, 20])
    lib = rng.choice(["pandas", "polars"])
    cols, kinds = {}, {}
    for i in range(rng.randrange(1, 5)):
        k = rng.choice(["int", "float", "str", "bool"])
        v = {"int": lambda: rng.randrange(-5, 6), "float": lambda: rng.choice([0.0, 1.5, -2.25, 8.0]),
             "str": lambda: rng.choice(["", "a", "bcd"]), "bool": lambda: rng.random() < .5}[k]
        miss = .2 if k in ("float", "str") else 0
        cols[f"c{i}"] = [None if rng.random() < miss else v() for _ in range(n)]
        kinds[f"c{i}"] = k
    if lib == "pandas":
        dt = dict(int="int64", float="float64", str="string", bool="bool")
        df = pd.DataFrame({c: pd.Series(v, dtype=dt[kinds[c]]) for c, v in cols.items()})
    else:
        dt = dict(int=pl.Int64, float=pl.Float64, str=pl.Utf8, bool=pl.Boolean)
        df = pl.DataFrame({c: pl.Series(c, v, dtype=dt[kinds[c]]) for c, v in cols.items()})
    copy = df.copy() if lib == "pandas" else df.clone()
    s = data_observation.compute_stats(df, "nd", {})
    det = dict(lib=lib, cols=cols, kinds=kinds)
    ctx.require(df.equals(copy), "stats-modified-data", "", **det)
    v = s["observability_value"]
    ctx.require(list(sorted(v)) == sorted(cols), "stats-columns", f"{list(v)}", **det)
    for pos, (c, vals) in enumerate(cols.items()):
        ctx.observe("stats_columns")
        st = v.get(c, {})
        have = [x for x in vals if x is not None]
        ctx.require(st.get("name") == c and st.get("pos") == pos, "stats-position", f"{c} {st}", **det)
        if st.get("base_data_type", "").startswith("unknown"):
            ctx.observe("stats_unknown")
            ctx.require(n == 0 or not have, "stats-missing", f"{c}: {st}", **det)
            continue
        ctx.require(st["count"] == n if lib == "pandas" else st["count"] in (n, len(have)), "stats-count",
                    f"{c}: {st['count']}", **det)
        ctx.require(st["missing"] == n - len(have), "stats-missing-count", f"{c}: {st['missing']}", **det)
        if kinds[c] in ("int", "float") and have:
            ctx.require(st["min"] == min(have) and st["max"] == max(have) and
                        math.isclose(st["mean"], sum(have) / len(have), abs_tol=1e-9) and
                        st["zeros"] == sum(1 for x in have if x == 0), "stats-numbers", f"{c}: {st}", **det)
            h = st.get("histogram") or {}
            if h and lib == "pandas":
                ctx.require(sum(h.values()) == len(have), "stats-histogram", f"{c}: {h}", **det)
        if kinds[c] == "str" and have:
            ctx.require(st["empty"] == sum(1 for x in have if x == "") and math.isclose(
                st["avg_str_len"], sum(map(len, have)) / len(have)), "stats-strings", f"{c}: {st}", **det)
        if kinds[c] == "bool" and lib == "pandas":     # (polars: the SDK's tests say 0)
            ctx.require(st["zeros"] == sum(1 for x in have if not x), "stats-bools", f"{c}: {st}", **det)
    ctx.sig("stats", lib, n, tuple(kinds.values()))


if __name__ == "__main__":
    check.main()
