"""P05: the async driver computes what plain evaluation computes, for every interleaving."""
import asyncio
import collections
import random

import vf
import vrt
from cmpv import same, short
from gen import PANDAS_KINDS, PLAIN_KINDS, evaluate, gen_dag, input_value, load_module, required_inputs, unload

check = vf.Check(
    "P05",
    rule="random dataflows mixing async and plain functions, with seeded await points in every coroutine "
         "(interleavings), executed by AsyncDriver (both constructors), also many executions at once on one "
         "driver; async lifecycle hooks recorded; failures injected; decorated async functions. Oracle = "
         "reference evaluation, call counts, hook trace rules. Distinct = structure x interleaving",
    assumptions=["decorators the async driver documents as unsupported are not used",
                 "only asynchronous hooks (the async driver says synchronous ones may behave strangely)"],
    required=["runs", "async_calls", "concurrent_runs", "failures", "hook_events", "rendezvous", "decorated"],
)


@check.setup
def setup_env():
    from hamilton import async_driver, base
    from hamilton.lifecycle import base as lb
    globals().update(async_driver=async_driver, base=base, lb=lb)


def make_adapter(log):
    class Rec(lb.BasePreNodeExecuteAsync, lb.BasePostNodeExecuteAsync, lb.BasePreGraphExecuteAsync,
              lb.BasePostGraphExecuteAsync):
        async def pre_graph_execute(self, *, run_id, graph, final_vars, inputs, overrides):
            log.append(("pre_graph", run_id, None, list(final_vars)))

        async def post_graph_execute(self, *, run_id, graph, success, error, results):
            log.append(("post_graph", run_id, None, (success, error, results)))

        async def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None):
            log.append(("pre_node", run_id, node_.name, dict(kwargs)))
            await asyncio.sleep(0)

        async def post_node_execute(self, *, run_id, node_, success, error, result, task_id=None, **kw):
            log.append(("post_node", run_id, node_.name, (success, error, result)))
    return Rec()


def gates(rng, names):
    r2 = random.Random(rng.random())

    def mk():
        async def g():
            k = r2.choice([0, 0, 1, 2, 5, 9])
            if k == 9:
                await asyncio.sleep(r2.choice([.0005, .002]))
            for _ in range(k):
                await asyncio.sleep(0)
        return g
    for nm in names:
        if r2.random() < .8:
            vrt.AGATES[nm] = mk()


async def build(rng, mods, config, adapters):
    if rng.random() < .7:
        b = async_driver.Builder().with_modules(*mods).with_config(config)
        if adapters:
            b = b.with_adapters(*adapters)
        return await b.build()
    dr = async_driver.AsyncDriver(config, *mods, result_builder=base.DictResult(), adapters=adapters)
    return await dr.ainit()


def make_req(rng, dag, config):
    final = rng.sample(list(dag.nodes), rng.randrange(1, min(4, len(dag.nodes)) + 1))
    overrides = {}
    if rng.random() < .3:
        for nm in rng.sample(list(dag.nodes), 1):
            overrides[nm] = vrt.shape(rng.choice(PLAIN_KINDS), rng.randrange(999))
    req, opt = required_inputs(dag, final, config, overrides)
    inputs = {nm: input_value(rng, dag.inputs[nm]) for nm in dag.inputs
              if nm not in config and (nm in req or rng.random() < .4)}
    if inputs and rng.random() < .15:
        nm = rng.choice(sorted(inputs))
        overrides[nm] = input_value(rng, dag.inputs[nm])
    return final, inputs, overrides


def check_hooks(ctx, log, dag, runs, det):
    """Per run: pre_graph first, post_graph last, one pre/post pair per executed node, right values."""
    by = collections.defaultdict(list)
    for e in log:
        by[e[1]].append(e)
    ctx.observe("hook_events", len(log))
    ctx.require(len(by) == len(runs), "run-ids", f"{len(by)} run ids for {len(runs)} executions", **det)
    outcomes = []
    for rid, ev in by.items():
        kinds = [e[0] for e in ev]
        ctx.require(kinds[0] == "pre_graph" and kinds.count("pre_graph") == 1 and
                    kinds.count("post_graph") == 1, "graph-hooks", f"{kinds}", **det)
        pre = collections.Counter(e[2] for e in ev if e[0] == "pre_node")
        post = collections.Counter(e[2] for e in ev if e[0] == "post_node")
        ctx.require(all(c == 1 for c in pre.values()) and all(c == 1 for c in post.values()),
                    "node-hook-repeated", f"pre {dict(pre)} post {dict(post)}", **det)
        seen = set()
        for e in ev:
            if e[0] == "pre_node":
                seen.add(e[2])
            elif e[0] == "post_node":
                ctx.require(e[2] in seen, "post-before-pre", e[2], **det)
        pg = [e for e in ev if e[0] == "post_graph"][0][3]
        outcomes.append((ev, pre, post, pg))
    return outcomes


@check.family("equal", quick=6000, thorough=40000)
def f_equal(ctx):
    rng = ctx.rng
    dag = gen_dag(rng, kinds=PLAIN_KINDS + (PANDAS_KINDS if rng.random() < .2 else []))
    for n in dag.nodes.values():
        n.is_async = rng.random() < .65
    mods = dag.modules(rng)
    config = {nm: input_value(rng, k) for nm, k in dag.inputs.items() if rng.random() < .2}
    use_hooks = rng.random() < .6
    conc = rng.random() < .5
    log = []
    nreq = rng.choice([2, 3, 6]) if conc else 2
    reqs = [make_req(rng, dag, config) for _ in range(nreq)]
    exps = [evaluate(dag, f, config, i, o) for f, i, o in reqs]
    vrt.reset()
    gates(rng, dag.nodes)

    async def go():
        dr = await build(rng, mods, config, [make_adapter(log)] if use_hooks else [])
        if conc:
            return await asyncio.gather(*[dr.execute(f, inputs=i, overrides=o) for f, i, o in reqs])
        out = []
        for f, i, o in reqs:
            out.append(await dr.execute(f, inputs=i, overrides=o))
        return out
    outs = asyncio.run(go())
    cnt = collections.Counter(vrt.calls())
    det = dict(source=dag.sources(), requests=[dict(final=f, inputs=i, overrides=o) for f, i, o in reqs],
               config=config, concurrent=conc, calls=dict(cnt))
    ctx.observe("runs", nreq)
    if conc:
        ctx.observe("concurrent_runs", nreq)
    ctx.observe("async_calls", sum(1 for e in vrt.EVENTS if e[0] == "enter"))
    expc = collections.Counter()
    for (f, i, o), (vals, called, memo), got in zip(reqs, exps, outs):
        expc.update(called)
        ctx.require(set(got) == set(f), "result-keys", f"{list(got)} vs {f}", **det)
        for k in f:
            ctx.require(same(got.get(k), vals[k]), "differs-from-reference",
                        f"{k}: async {short(got.get(k))} expected {short(vals[k])}", **det)
    ctx.require(cnt == expc, "call-count", f"calls {dict(cnt)} expected {dict(expc)}", **det)
    if use_hooks:
        res = check_hooks(ctx, log, dag, reqs, det)
        tot = collections.Counter()
        for ev, pre, post, pg in res:
            ctx.require(pre == post, "hook-pairs", f"pre {dict(pre)} post {dict(post)}", **det)
            ctx.require(pg[0] is True and pg[1] is None, "post-graph-outcome", f"{pg[:2]}", **det)
            ctx.require(any(set(pg[2]) == set(f) and all(same(pg[2][k], v[0][k]) for k in f)
                            for (f, _, _), v in zip(reqs, exps)), "post-graph-results", short(pg[2]), **det)
            tot.update({k: c for k, c in pre.items() if k in dag.nodes})
        # every executed function has its hooks (values that merely pass through may have them too)
        for nm, c in expc.items():
            ctx.require(tot[nm] >= c, "node-without-hooks", f"{nm} ran {c} times, hooks {tot[nm]}", **det)
        vals = {(e[2]): [] for e in log}
        for e in log:
            if e[0] == "post_node" and e[2] in dag.nodes:
                ok = any(e[2] in m and same(e[3][2], m[e[2]]) for _, _, m in exps)
                ctx.require(ok and e[3][0] is True, "hook-result", f"{e[2]} hook saw {short(e[3])}", **det)
    order = tuple(e[:2] for e in vrt.EVENTS if e[0] in ("enter", "call"))
    ctx.sig(dag.shape_sig(), hash(order))
    ctx.sample(dict(source=dag.sources(), order=order[:30], result=short(outs)))
    unload(*mods)


@check.family("failure", quick=2400, thorough=12000)
def f_failure(ctx):
    """A failing function surfaces unchanged; what depends on it never runs; the driver stays usable."""
    rng = ctx.rng
    dag = gen_dag(rng, n_nodes=rng.choice([2, 4, 7]))
    for n in dag.nodes.values():
        n.is_async = rng.random() < .65
    mods = dag.modules(rng)
    final, inputs, overrides = make_req(rng, dag, {})
    vals, called, _ = evaluate(dag, final, {}, inputs, overrides)
    if not called:
        unload(*mods)
        raise vf.Skip("nothing-runs")
    bad = rng.choice(called)
    boom = rng.choice(vrt.ERRS)(f"boom-{rng.random()}")
    log = []
    vrt.reset()
    gates(rng, dag.nodes)
    vrt.RAISE[bad] = boom
    other = {}

    async def go():
        dr = await build(rng, mods, {}, [make_adapter(log)] if rng.random() < .7 else [])
        try:
            got = await dr.execute(final, inputs=inputs, overrides=overrides)
            err = None
        except Exception as e:  # noqa: BLE001
            got, err = None, e
        for _ in range(60):
            await asyncio.sleep(0)
        await asyncio.sleep(.003)
        first = list(log), vrt.calls()
        vrt.RAISE.clear()
        other["again"] = await dr.execute(final, inputs=inputs, overrides=overrides)
        return got, err, first
    got, err, (hooks, calls) = asyncio.run(go())
    det = dict(source=dag.sources(), final=final, inputs=inputs, overrides=overrides, failing=bad, calls=calls)
    ctx.observe("failures")
    ctx.require(err is boom, "wrong-exception", f"{bad} raised {boom!r}, execute gave {err!r} / {short(got)}", **det)
    dn, st = set(), [bad]
    while st:
        x = st.pop()
        for n in dag.nodes.values():
            if any(p[0] == x for p in n.params) and n.name not in dn and n.name not in overrides:
                dn.add(n.name)
                st.append(n.name)
    ctx.require(not (dn & set(calls)), "ran-downstream-of-failure", f"{sorted(dn & set(calls))}", **det)
    if hooks:
        pg = [e for e in hooks if e[0] == "post_graph"]
        ctx.require(len(pg) == 1 and pg[0][3][0] is False and pg[0][3][1] is boom, "post-graph-outcome", short(pg), **det)
        pn = [e for e in hooks if e[0] == "post_node" and e[2] == bad]
        ctx.require(len(pn) == 1 and pn[0][3][0] is False and pn[0][3][1] is boom, "post-node-outcome", short(pn), **det)
    for k in final:
        ctx.require(same(other["again"][k], vals[k]), "unusable-after-failure", k, **det)
    ctx.sig(dag.shape_sig(), bad, tuple(calls))
    unload(*mods)


@check.family("rendezvous", quick=480, thorough=1200)
def f_rendezvous(ctx):
    """Independent coroutines really make progress together."""
    rng = ctx.rng
    k = rng.randrange(2, 7)
    names = [f"w{i}" for i in range(k)]
    src = "import vrt as _vrt\n" + "".join(
        f"async def {n}(x: int) -> int:\n    await _vrt.AH({n!r})\n    return _vrt.H({n!r}, 1, 'int', dict(x=x))\n" for n in names)
    src += f"async def join({', '.join(n + ': int' for n in names)}) -> list:\n    return [{', '.join(names)}]\n"
    if rng.random() < .5:
        src = src.replace("async def join", "def join")
    mod = load_module(src)
    vrt.reset()
    state = dict(n=0)

    async def go():
        ev = asyncio.Event()

        async def gate():
            state["n"] += 1
            if state["n"] == k:
                ev.set()
            await asyncio.wait_for(ev.wait(), 30)
        for n in names:
            vrt.AGATES[n] = gate
        dr = await build(rng, [mod], {}, [])
        return await dr.execute(["join"] if rng.random() < .5 else ["join"] + names[:2], inputs={"x": 3})
    try:
        got = asyncio.run(go())
    except asyncio.TimeoutError:
        raise vf.Violation("not-concurrent", f"{k} independent async functions did not run concurrently "
                           f"({state['n']} started)")
    exp = [vrt.value(n, 1, "int", {"x": 3}) for n in names]
    ctx.require(got["join"] == exp, "wrong-value", short(got))
    ctx.observe("rendezvous")
    ctx.sig(k, ctx.idx % 8)
    unload(mod)


DECOR = {
    "tag": ("@tag(a='b')\nasync def f(x: int) -> int:\n    await _vrt.AH('f')\n    return x + 1\n", lambda x: dict(f=x + 1)),
    "config": ("@config.when(k=1)\nasync def f__a(x: int) -> int:\n    await _vrt.AH('f')\n    return x + 1\n"
               "@config.when(k=2)\ndef f__b(x: int) -> int:\n    return x + 2\n"
               "async def g(f: int) -> int:\n    await _vrt.AH('g')\n    return f * 3\n",
               lambda x: dict(f=x + 1, g=3 * (x + 1))),
    "fields": ("@extract_fields(dict(a=int, b=str))\nasync def f(x: int) -> dict:\n    await _vrt.AH('f')\n"
               "    return dict(a=x, b=str(x))\nasync def g(a: int, b: str) -> str:\n    await _vrt.AH('g')\n    return b * a\n",
               lambda x: dict(a=x, b=str(x), f=dict(a=x, b=str(x)), g=str(x) * x)),
    "fields_filled": ("@extract_fields(dict(a=int, b=str, c=int, e=list), fill_with=7)\nasync def f(x: int) -> dict:\n    await _vrt.AH('f')\n"
                      "    return dict(a=x % 2, b='', e=[])\nasync def g(a: int, b: str, c: int, e: list) -> list:\n    await _vrt.AH('g')\n"
                      "    return [a, b, c, e]\n",
                      lambda x: dict(a=x % 2, b="", c=7, e=[], g=[x % 2, "", 7, []])),
    "columns_filled": ("@extract_columns('a', 'b', fill_with=0)\nasync def f(x: int) -> pd.DataFrame:\n    await _vrt.AH('f')\n"
                       "    return pd.DataFrame(dict(a=[x, 5]))\ndef g(a: pd.Series, b: pd.Series) -> list:\n"
                       "    return [list(a), list(b)]\n", lambda x: dict(g=[[x, 5], [0, 0]])),
    "columns": ("@extract_columns('a', 'b')\nasync def f(x: int) -> pd.DataFrame:\n    await _vrt.AH('f')\n"
                "    return pd.DataFrame(dict(a=[x], b=[2 * x]))\ndef g(a: pd.Series, b: pd.Series) -> int:\n"
                "    return int((a + b).sum())\n", lambda x: dict(g=3 * x)),
    "check": ("@check_output(range=(0, 50), importance='fail')\nasync def f(x: int) -> int:\n    await _vrt.AH('f')\n"
              "    return x\nasync def g(f: int) -> int:\n    await _vrt.AH('g')\n    return f + 1\n",
              lambda x: dict(f=x, g=x + 1)),
    "pipe_input": ("async def _a(x: int) -> int:\n    await _vrt.AH('_a')\n    return x * 10\ndef _b(x: int, y: int) -> int:\n"
                   "    return x + y\n@pipe_input(step(_a), step(_b, y=3), step(_a))\nasync def f(x: int) -> int:\n"
                   "    await _vrt.AH('f')\n    return x + 1\n", lambda x: dict(f=(x * 10 + 3) * 10 + 1)),
    "pipe_output": ("async def _a(x: int) -> int:\n    await _vrt.AH('_a')\n    return x * 10\ndef _b(x: int, y: int) -> int:\n"
                    "    return x + y\n@pipe_output(step(_a), step(_b, y=3))\nasync def f(x: int) -> int:\n"
                    "    await _vrt.AH('f')\n    return x + 1\nasync def g(f: int) -> int:\n    await _vrt.AH('g')\n    return f + 1\n",
                    lambda x: dict(f=(x + 1) * 10 + 3, g=(x + 1) * 10 + 4)),
    "mutate": ("async def f(x: int) -> int:\n    await _vrt.AH('f')\n    return x + 1\n@mutate(f)\n"
               "async def _m(f: int) -> int:\n    await _vrt.AH('_m')\n    return f * 10\n", lambda x: dict(f=(x + 1) * 10)),
    "subdag": ("async def a(x: int) -> int:\n    await _vrt.AH('a')\n    return x + 1\n"
               "@subdag(a, inputs={'x': source('y')})\nasync def f(a: int) -> int:\n    await _vrt.AH('f')\n    return a + 1\n"
               "def y(x: int) -> int:\n    return x * 2\n", lambda x: dict(f=2 * x + 2, a=x + 1)),
}


@check.family("decorated", quick=720, thorough=2400)
def f_decorated(ctx):
    rng = ctx.rng
    nm = sorted(DECOR)[ctx.idx % len(DECOR)]
    src, ref = DECOR[nm]
    mod = load_module("from typing import *\nimport pandas as pd\nimport vrt as _vrt\n"
                      "from hamilton.function_modifiers import *\n" + src)
    vrt.reset()
    gates(rng, ["f", "g", "a", "_a", "_m"])
    x = rng.randrange(1, 40)
    exp = ref(x)
    outs = rng.sample(sorted(exp), rng.randrange(1, len(exp) + 1))

    async def go():
        dr = await build(rng, [mod], {"k": 1} if nm == "config" else {}, [])
        return await asyncio.gather(*[dr.execute(outs, inputs={"x": x + j}) for j in range(3)])
    got = asyncio.run(go())
    for j, g in enumerate(got):
        e = ref(x + j)
        for k in outs:
            ctx.require(same(g[k], e[k]), f"decorated-{nm}", f"{k} = {short(g[k])}, expected {short(e[k])}", source=src, x=x + j)
    ctx.observe("decorated")
    ctx.sig(nm, tuple(outs), ctx.idx)
    unload(mod)


if __name__ == "__main__":
    check.main()
