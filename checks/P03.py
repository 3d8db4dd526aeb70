"""P03: task-based / parallel execution gives what sequential evaluation gives."""
import collections
import os
import random

import vf
import vrt
from cmpv import same, short
from gen import evaluate, gen_dag, input_value, load_module, required_inputs, unload, PLAIN_KINDS
from pargen import evaluate_p, gen_pdag, required_p

check = vf.Check(
    "P03",
    rule="random dataflows with 0-3 Parallelizable/Collect blocks (0-6 items, generators, lists, "
         "falsy items, values from outside the block, chained blocks) run on the task-based executor "
         "with synchronous, thread-pool, process-pool and adversarial (seeded completion order and "
         "refusals) executors, all grouping strategies, injected delays; oracle = sequential "
         "reference value and per-function call counts. Distinct = structure x executor x grouping "
         "x completion order",
    assumptions=["documented limits: one Collect per Parallelizable, no nesting"],
    required=["blocks_run", "empty_blocks", "items", "exec_threads", "exec_procs", "exec_adv",
              "exec_sync", "grouping_level", "grouping_all", "grouping_individual", "overridden_expand",
              "orders", "decorated_blocks", "slow_pickles"],
)


@check.setup
def setup_env():
    global driver, base, execs, executors, grouping
    from hamilton import base, driver
    from hamilton.execution import executors, grouping

    import execs
    globals().update(driver=driver, base=base, execs=execs, executors=executors, grouping=grouping)


def counts(kind):
    if kind == "procs":
        return collections.Counter(e[1] for e in vrt.file_events() if e[0] == "call")
    return collections.Counter(vrt.calls())


def builder(mods, remote, local, config=None):
    b = driver.Builder().with_modules(*mods).enable_dynamic_execution(allow_experimental_mode=True)
    if config:
        b = b.with_config(config)
    b = b.with_remote_executor(remote)
    if local is not None:
        b = b.with_local_executor(local)
    return b


def run_parallel(ctx, kind, nruns=2):
    rng = ctx.rng
    d = gen_pdag(rng)
    mod = load_module(d.source())
    log = []
    lk = rng.choice(["sync", "sync", "threads", "adv"]) if kind != "procs" else "sync"
    arng = random.Random(rng.random())
    remote = execs.make(kind, arng, log)
    local = None if lk == "sync" and rng.random() < .5 else execs.make(lk, arng, log)
    config = {}
    for nm in d.inputs:
        if rng.random() < .2:
            config[nm] = input_value(rng, d.inputs[nm])
    b = builder([mod], remote, local, config)
    if rng.random() < .2:
        b = b.with_adapters(base.DictResult())
    dr = b.build()
    for _ in range(nruns):
        pool = d.outer()
        final = rng.sample(pool, rng.randrange(1, min(4, len(pool)) + 1))
        if rng.random() < .6 and d.blocks[-1][2] not in final:
            final.append(d.blocks[-1][2])
        if rng.random() < .1:
            final.append(rng.choice(d.blocks)[0])       # the expanded list itself
            final = list(dict.fromkeys(final))
        overrides = {}
        if rng.random() < .35:
            # (overriding a node inside a block is documented as undefined, so never done here)
            nm = rng.choice([x for x, n in d.nodes.items() if n.role != "body"])
            n = d.nodes[nm]
            if n.role == "collect":
                final = [f for f in final if f != d.blocks[n.block][0]]
            if n.role == "expand":
                overrides[nm] = [vrt.shape(n.kind, 100 + i) for i in range(rng.choice([0, 1, 2, 3, 12]))]
            else:
                overrides[nm] = vrt.shape(rng.choice(PLAIN_KINDS), rng.randrange(999))
        # a request downstream of nothing: drop blocks cut by the override but still asked for
        req, opt = required_p(d, final, overrides)
        inputs = {nm: input_value(rng, d.inputs[nm]) for nm in d.inputs
                  if nm not in config and (nm in req or rng.random() < .5)}
        if inputs and rng.random() < .15:
            # a given input can be overridden as well
            nm = rng.choice(sorted(inputs))
            overrides[nm] = input_value(rng, d.inputs[nm])
        allin = {**config, **inputs}
        # a body node overridden and requested blocks
        exp, calls, allowed = evaluate_p(d, final, allin, overrides)
        f = os.path.join(ctx.scratch, "events.jsonl")
        vrt.reset(f if kind == "procs" else None)
        if kind in ("threads",) or lk == "threads":
            for nm in d.nodes:
                if rng.random() < .4:
                    vrt.DELAY[nm] = rng.choice([0.001, 0.003])
            r2 = random.Random(rng.random())
            for e, body, c in d.blocks:
                if rng.random() < .7:
                    vrt.DELAY[body[0]] = lambda: r2.choice([0, 0.001, 0.004])
        got = dr.execute(final, inputs=inputs, overrides=overrides)
        cnt = counts(kind)
        det = dict(source=d.source(), final=final, inputs=inputs, overrides=overrides, config=config,
                   executor=kind, local=lk, calls=dict(cnt), got=short(got))
        ctx.observe(f"exec_{kind}")
        ctx.observe("events", sum(cnt.values()))
        ctx.require(list(got) == final, "result-keys", f"{list(got)} vs {final}", **det)
        for k in final:
            ctx.require(same(got.get(k), exp[k]), "differs-from-sequential",
                        f"{k}: parallel {short(got.get(k))} sequential {short(exp[k])}", **det)
        for nm, c in calls.items():
            ctx.require(cnt.get(nm, 0) == c, "call-count",
                        f"{nm} ran {cnt.get(nm, 0)} times, expected {c}", **det)
        for nm, c in cnt.items():
            if nm not in calls:
                n = d.nodes[nm]
                lim = 1
                if n.role == "body":
                    e = d.blocks[n.block][0]
                    lim = len(overrides[e]) if e in overrides else d.nodes[e].n
                ok = nm in allowed and c <= lim
                ctx.require(ok, "unneeded-node-computed", f"{nm} ran {c} times", **det)
        for e, body, c in d.blocks:
            if c in calls:
                nitems = len(overrides[e]) if e in overrides else d.nodes[e].n
                ctx.observe("blocks_run")
                ctx.observe("items", nitems)
                if nitems == 0:
                    ctx.observe("empty_blocks")
                if e in overrides:
                    ctx.observe("overridden_expand")
        fin = tuple(x[2] for x in log if x[0] == "finish")
        seq = tuple(e[1] for e in vrt.EVENTS if e[0] == "call")
        ctx.observe("orders")
        ctx.sig(d.sig(), kind, lk, hash(fin + seq) & 0xffffffff)
        ctx.sample(dict(source=d.source(), final=final, executor=kind, completion_order=list(fin)[:20],
                        call_order=list(seq)[:20], result=short(got)))
        log.clear()
    unload(mod)


@check.family("threads", quick=450, thorough=12000)
def f_threads(ctx):
    run_parallel(ctx, "threads")


@check.family("adversarial", quick=1350, thorough=32000)
def f_adv(ctx):
    run_parallel(ctx, "adv", 3)


@check.family("sync", quick=450, thorough=8000)
def f_sync(ctx):
    run_parallel(ctx, "sync")


@check.family("procs", quick=72, thorough=800)
def f_procs(ctx):
    run_parallel(ctx, "procs")


@check.family("procs_slow", quick=24, thorough=300)
def f_procs_slow(ctx):
    """Serializing a task for the process pool takes a while (default values of parameters), and the local executor
    goes on running other tasks meanwhile."""
    rng = ctx.rng
    n, late, chain = rng.randrange(1, 5), rng.randrange(2, 6), rng.random() < .8
    src = ["import vrt", "from hamilton.htypes import Parallelizable, Collect",
           "def items(n: int) -> Parallelizable[int]:\n    yield from range(n)",
           "def body(items: int, k: int) -> int:\n    return items * 2 + k"]
    for i in range(late):
        dep = f"late_{i - 1}: int, " if i and chain else ""
        src.append(f"def late_{i}({dep}k: int, x: vrt.SlowPickle = vrt.SlowPickle({i}, {rng.choice([.005, .02])})) -> int:\n"
                   f"    return x.v + k + {i}")
    src.append("def out(body: Collect[int], k: int" + "".join(f", late_{i}: int" for i in range(late)) + ") -> int:\n"
               "    return sum(body) + k" + "".join(f" + 100 * late_{i}" for i in range(late)))
    mod = load_module("\n\n".join(src) + "\n")
    local = rng.choice(["sync", "threads"])
    dr = builder([mod], executors.MultiProcessingExecutor(max_tasks=rng.randrange(1, 4)),
                 executors.SynchronousLocalTaskExecutor() if local == "sync" else
                 executors.MultiThreadingExecutor(max_tasks=2)).build()
    for _ in range(2):
        k = rng.randrange(9)
        exp = sum(i * 2 + k for i in range(n)) + k + sum(100 * (2 * i + k) for i in range(late))
        got = dr.execute(["out"], inputs={"n": n, "k": k})
        ctx.require(got == {"out": exp}, "slow-value", f"{got} expected {exp}", source="\n".join(src), local=local)
        ctx.observe("slow_pickles", n)
        ctx.observe("exec_procs")
    ctx.sig("slow", n, late, local)
    unload(mod)


@check.family("grouping", quick=900, thorough=20000)
def f_grouping(ctx):
    """Any grouping of a plain DAG into tasks gives the sequential result."""
    rng = ctx.rng
    dag = gen_dag(rng)
    mods = dag.modules(rng)
    g = rng.choice(["level", "all", "individual", "default"])
    strat = dict(level=grouping.GroupNodesByLevel, all=grouping.GroupNodesAllAsOne,
                 individual=grouping.GroupNodesIndividually, default=grouping.GroupByRepeatableBlocks)[g]()
    arng = random.Random(rng.random())
    kind = rng.choice(["sync", "threads", "adv"])
    config = {nm: input_value(rng, k) for nm, k in dag.inputs.items() if rng.random() < .2}
    dr = builder(mods, execs.make(kind, arng), None, config).with_grouping_strategy(strat).build()
    for _ in range(3):
        final = rng.sample(list(dag.nodes), rng.randrange(1, min(4, len(dag.nodes)) + 1))
        overrides = {}
        if rng.random() < .4:
            for nm in rng.sample(list(dag.nodes), min(2, len(dag.nodes))):
                overrides[nm] = vrt.shape(rng.choice(PLAIN_KINDS), rng.randrange(999))
        req, opt = required_inputs(dag, final, config, overrides)
        inputs = {nm: input_value(rng, dag.inputs[nm]) for nm in dag.inputs
                  if nm not in config and (nm in req or rng.random() < .4)}
        if rng.random() < .2 and inputs:
            # an input can also be asked for directly
            final.append(rng.choice(sorted(inputs)))
        if inputs and rng.random() < .2:
            nm = rng.choice(sorted(inputs))
            overrides[nm] = input_value(rng, dag.inputs[nm])
        exp, called, memo = evaluate(dag, final, config, inputs, overrides)
        vrt.reset()
        got = dr.execute(final, inputs=inputs, overrides=overrides)
        cnt = collections.Counter(vrt.calls())
        det = dict(source=dag.sources(), final=final, inputs=inputs, overrides=overrides, config=config,
                   executor=kind, grouping=g, calls=dict(cnt), got=short(got))
        ctx.observe(f"grouping_{g}")
        ctx.require(list(got) == final, "result-keys", f"{list(got)} vs {final}", **det)
        for k in final:
            ctx.require(same(got.get(k), exp[k]), "differs-from-sequential",
                        f"{k}: {short(got.get(k))} expected {short(exp[k])}", **det)
        ctx.require(cnt == collections.Counter(called), "call-count",
                    f"{dict(cnt)} expected each of {called} once", **det)
        ctx.sig(dag.shape_sig(), g, kind, tuple(vrt.calls()))
    unload(*mods)


DHEAD = """
import vrt as _vrt
from typing import Dict, List
from hamilton.htypes import Parallelizable, Collect
from hamilton.function_modifiers import (check_output, config, does, extract_fields, inject, mutate, apply_to,
    parameterize, pipe_input, pipe_output, source, step, subdag, tag, value)
def _C(n):
    _vrt.log("call", n)
def _inc(v: int) -> int:
    _C("_inc"); return v + 1
def _dbl(v: int) -> int:
    _C("_dbl"); return 2 * v
def _total(parts, off):
    return sum((i + 1) * x for i, x in enumerate(parts)) + off
"""


@check.family("decorated", quick=260, thorough=6000)
def f_decorated(ctx):
    """Expanders, block bodies and collectors carrying other decorators, and blocks inside subdags."""
    rng = ctx.rng
    ek, bk, ck = (rng.choice(["plain", "inject", "param", "tag", "check", "pipe_in", "config"]),
                  rng.choice(["plain", "fields", "pipe_out", "pipe_in", "check", "inject", "mutate"]),
                  rng.choice(["plain", "check", "fields", "pipe_out", "does", "mutate", "config"]))
    n, off, k = rng.choice([0, 1, 2, 3, 11]), rng.randrange(1, 9), rng.randrange(1, 9)
    src, items = [], [k + 3 * i for i in range(n)]
    calls = collections.Counter(expand=1, collect=1)
    body_e = "    _C('expand')\n    for i in range(n):\n        yield k + 3 * i\n"
    e = "its"
    if ek == "inject":
        src.append(f"@inject(k=value({k}))\ndef its(n: int, k: int) -> Parallelizable[int]:\n{body_e}")
    elif ek == "param":
        e = "its_b"
        src.append(f"@parameterize(its_a=dict(k=value(1000)), its_b=dict(k=source('kk')))\n"
                   f"def its(n: int, k: int) -> Parallelizable[int]:\n{body_e}")
    elif ek == "pipe_in":
        src.append(f"@pipe_input(step(_dbl), on_input='k')\ndef its(n: int, k: int) -> Parallelizable[int]:\n{body_e}")
        items = [2 * k + 3 * i for i in range(n)]
        calls["_dbl"] += 1
    else:
        deco = dict(plain="", tag="@tag(a='b')\n", check="@check_output(allow_none=False, importance='fail')\n",
                    config="@config.when(cc=1)\n")[ek]
        nm = "its__one" if ek == "config" else "its"
        src.append(f"{deco}def {nm}(n: int, k: int) -> Parallelizable[int]:\n{body_e}")
    vals = list(items)
    calls["body"] = n
    if bk == "fields":
        src.append(f"@extract_fields(dict(p=int, q=int))\ndef wk(aaa: int) -> dict:\n    _C('body')\n"
                   f"    return dict(p=aaa + 1, q=10 * aaa)\ndef out(p: int, q: int) -> int:\n    _C('out'); return q - p\n")
        vals = [10 * v - (v + 1) for v in vals]
        calls["out"] = n
    else:
        deco = dict(plain="", pipe_out="@pipe_output(step(_inc), step(_dbl))\n", pipe_in="@pipe_input(step(_inc))\n",
                    check="@check_output(range=(-10, 10**9), importance='fail')\n",
                    inject="@inject(z=value(5))\n", mutate="")[bk]
        src.append(f"{deco}def out(aaa: int{', z: int' if bk == 'inject' else ''}) -> int:\n    _C('body'); return aaa * 3"
                   f"{' + z' if bk == 'inject' else ''}\n")
        if bk == "pipe_out":
            vals = [2 * (3 * v + 1) for v in vals]
            calls["_inc"] += n
            calls["_dbl"] += n
        elif bk == "pipe_in":
            vals = [3 * (v + 1) for v in vals]
            calls["_inc"] += n
        else:
            vals = [3 * v + (5 if bk == "inject" else 0) for v in vals]
        if bk == "mutate":
            src.append("@mutate(out)\ndef _mb(v: int) -> int:\n    _C('_mb'); return v + 7\n")
            vals = [v + 7 for v in vals]
            calls["_mb"] = n
    tot = sum((i + 1) * v for i, v in enumerate(vals)) + off
    cbody = "    _C('collect'); return _total(out, off)\n"
    if ck == "fields":
        src.append("@extract_fields(dict(res=int, cnt=int))\ndef coll(out: Collect[int], off: int) -> dict:\n"
                   "    _C('collect'); out = list(out); return dict(res=_total(out, off), cnt=len(out))\n")
    elif ck == "does":
        src.append("def _rep(out, off):\n    _C('collect'); return _total(out, off)\n"
                   "@does(_rep)\ndef res(out: Collect[int], off: int) -> int:\n    pass\n")
    else:
        deco = dict(plain="", check="@check_output(range=(-10**9, 10**9), importance='fail')\n",
                    pipe_out="@pipe_output(step(_inc))\n", mutate="", config="@config.when(cc=1)\n")[ck]
        src.append(f"{deco}def res{'__x' if ck == 'config' else ''}(out: Collect[int], off: int) -> int:\n{cbody}")
        if ck == "pipe_out":
            tot += 1
            calls["_inc"] += 1
        elif ck == "mutate":
            src.append("@mutate(res)\ndef _mc(v: int) -> int:\n    _C('_mc'); return v + 9\n")
            tot += 9
            calls["_mc"] += 1
    text = "\n".join(src).replace("aaa", e)
    inner = None
    sub = ek not in ("config",) and ck != "config" and "mutate" not in (bk, ck) and rng.random() < .3
    if sub:
        # the same block twice, as subdags with their own inputs
        inner = load_module(DHEAD + text)
        n2 = rng.choice([0, 2, 4])
        outer = (DHEAD + f"import {inner.__name__} as _in\n"
                 f"@subdag(_in, inputs=dict(n=source('n'), off=source('off')))\ndef s1(res: int) -> int:\n    return res\n"
                 f"@subdag(_in, inputs=dict(n=value({n}), k=value({k}), kk=value({k}), off=value({off + 1})))\n"
                 f"def s2(res: int) -> int:\n    return res\n"
                 "def fin(s1: int, s2: int) -> list:\n    _C('fin'); return [s1, s2]\n")
        exp = [tot, tot + 1]
        calls = collections.Counter({x: 2 * c for x, c in calls.items()})
    else:
        outer = DHEAD + text + "\ndef fin(res: int) -> list:\n    _C('fin'); return [res]\n"
        exp = [tot]
    calls["fin"] = 1
    mod = load_module(outer)
    kind = rng.choice(["sync", "threads", "adv"])
    dr = builder([mod], execs.make(kind, random.Random(rng.random()), []), None, dict(cc=1)).build()
    for r in range(2):
        vrt.reset()
        inputs = dict(n=n, k=k, kk=k, off=off)
        got = dr.execute(["fin"], inputs={x: v for x, v in inputs.items() if x in dr.graph.nodes})
        cnt = collections.Counter(x[1] for x in vrt.EVENTS if x[0] == "call")
        det = dict(source=outer, inner=text, executor=kind, kinds=[ek, bk, ck], calls=dict(cnt), got=short(got))
        ctx.require(got["fin"] == exp, "differs-from-sequential", f"{got} expected {exp}", **det)
        ctx.require(cnt == +calls, "call-count", f"{dict(cnt)} expected {dict(+calls)}", **det)
        ctx.observe("decorated_blocks")
    ctx.sig("deco", ek, bk, ck, n, sub, kind)
    unload(mod)
    if inner is not None:
        unload(inner)


if __name__ == "__main__":
    check.main()
