"""P01: executing a request == plain evaluation of the functions, each needed node exactly once."""
import collections

import vf
import vrt
from cmpv import same, short
from gen import (PANDAS_KINDS, PLAIN_KINDS, RefError, evaluate, gen_dag, input_value, load_module,
                 required_inputs, unload)

check = vf.Check(
    "P01",
    rule="random modules (1-3 modules, 1-200 functions, chain/wide/diamond/random shapes, falsy and "
         "pandas values), random config / inputs / overrides / requested outputs, executed through "
         "every public entry point, several executions per driver; monitor = call recorder inside "
         "the user functions + reference evaluator. Distinct = structure x request x overrides "
         "signature; trivial (no function called) runs are not counted",
    assumptions=["user functions are deterministic", "single-threaded default executor"],
    required=["calls", "runs_ok", "runs_raised", "runs_override", "runs_optional_default",
              "runs_api_driver", "runs_api_builder", "runs_api_raw"],
)


def setup_env():
    global driver, base
    from hamilton import base, driver  # noqa: F401
    globals().update(driver=driver, base=base)


check.setup(setup_env)


class MyKeyError(KeyError):
    pass


EXC = [vrt.VErr, MyKeyError, ValueError, StopIteration, AttributeError, NotImplementedError,
       RuntimeError, TypeError]


def build(ctx, mods, config, api):
    if api == "driver":
        return driver.Driver(config, *mods, adapter=base.SimplePythonGraphAdapter(base.DictResult()))
    if api == "driver_default":
        return driver.Driver(config, *mods, adapter=base.DefaultAdapter())
    b = driver.Builder().with_modules(*mods).with_config(config)
    if api == "builder_adapter":
        b = b.with_adapters(base.DictResult())
    return b.build()


def one_run(ctx, rng, dag, mods, dr, api, config, raises_allowed=True):
    allnames = list(dag.nodes) + [i for i in dag.inputs]
    k = rng.choice([1, 1, 2, 3, len(allnames)])
    pool = list(dag.nodes) if rng.random() < .7 else allnames
    final = [rng.choice(pool) for _ in range(min(k, len(pool)))] if rng.random() < .3 else \
        rng.sample(pool, min(k, len(pool)))
    overrides = {}
    if rng.random() < .5:
        for nm in rng.sample(list(dag.nodes), min(len(dag.nodes), rng.choice([1, 1, 2, 3]))):
            if nm in config:
                continue
            overrides[nm] = vrt.shape(rng.choice(PLAIN_KINDS), rng.randrange(10**6))
    req, opt = required_inputs(dag, final, config, overrides)
    inputs = {}
    for nm in dag.inputs:
        if nm in config:
            continue
        if nm in req or nm in final or rng.random() < .5:
            inputs[nm] = input_value(rng, dag.inputs[nm])
            if rng.random() < .05:
                inputs[nm] = None
    # override a *supplied* input as well (the override wins)
    if rng.random() < .1 and inputs:
        nm = rng.choice(list(inputs))
        if any(v.name == nm for v in dr.list_available_variables()):
            overrides[nm] = input_value(rng, dag.inputs[nm])
    if rng.random() < .15:
        inputs["unrelated_extra_input"] = 5
    called_nodes = evaluate(dag, final, config, inputs, overrides)[1]
    raises = {}
    if raises_allowed and called_nodes and rng.random() < .25:
        raises[rng.choice(called_nodes)] = rng.choice(EXC)("boom", rng.randrange(100))
    exp_err = None
    try:
        exp, called, memo = evaluate(dag, final, config, inputs, overrides, raises)
    except RefError as e:
        exp_err = e
    vrt.reset()
    vrt.RAISE.update(raises)
    fv = []
    for f in final:
        r = rng.random()
        if r < .15 and f in dag.nodes:
            fv.append(getattr(mods[dag.nodes[f].mod], f))
        elif r < .25:
            fv.append(([v for v in dr.list_available_variables() if v.name == f] or [f])[0])
        else:
            fv.append(f)
    inputs_arg = inputs if (inputs or rng.random() < .5) else None
    ov_arg = overrides if (overrides or rng.random() < .5) else None
    snap = (dict(inputs), dict(overrides), dict(config))
    use_raw = api == "driver" and rng.random() < .3 and all(isinstance(x, str) for x in fv)
    got, err = None, None
    try:
        got = (dr.raw_execute if use_raw else dr.execute)(fv, inputs=inputs_arg, overrides=ov_arg)
    except BaseException as e:  # noqa: BLE001
        err = e
    calls = vrt.calls()
    ctx.observe("calls", len(calls))
    ctx.observe("runs_api_raw" if use_raw else f"runs_api_{api.split('_')[0]}")
    cnt = collections.Counter(calls)
    det = dict(source=dag.sources(), final=final, inputs=inputs, overrides=overrides,
               config=config, api=api, raises={k: repr(v) for k, v in raises.items()},
               calls=calls, got=short(got), err=repr(err))
    dup = [k for k, c in cnt.items() if c > 1]
    ctx.require(not dup, "node-computed-more-than-once", f"{dup} ran more than once", **det)
    if snap[0] != inputs or snap[1] != overrides or snap[2] != config:
        if not (short(snap[0]) == short(inputs) and short(snap[1]) == short(overrides)
                and short(snap[2]) == short(config)):
            ctx.violation("caller-dict-mutated", "execute changed the caller's dictionaries", **det)
    if exp_err is not None:
        ctx.observe("runs_raised")
        ctx.require(err is raises[exp_err.name], "exception-not-surfaced",
                    f"function {exp_err.name} raised {raises[exp_err.name]!r}, caller saw {err!r}, "
                    f"result {short(got)}", **det)
        # nothing depending on the failed function may have run
        needed = set(evaluate(dag, final, config, inputs, overrides)[1])
        ctx.require(set(calls) <= needed, "unneeded-node-computed",
                    f"{set(calls) - needed} ran but is not needed", **det)
        bad = [c for c in calls if depends_on(dag, c, exp_err.name, config, overrides)]
        ctx.require(not bad, "ran-after-failed-dependency", f"{bad} ran", **det)
        return
    if err is not None:
        ctx.violation("valid-run-raised", f"{err!r}", **det)
        return
    ctx.observe("runs_ok")
    if overrides:
        ctx.observe("runs_override")
    if any(p[1] != "<required>" and memo.get(p[0], 0) is not None and p[0] in dag.inputs
           and p[0] not in inputs and p[0] not in config
           for c in called for p in dag.nodes[c].params):
        ctx.observe("runs_optional_default")
    ctx.require(list(got) == list(dict.fromkeys(final)), "result-keys",
                f"keys {list(got)} expected {final}", **det)
    for f in final:
        if f in got:
            ctx.require(same(got[f], exp[f]), "wrong-value",
                        f"{f}: got {short(got[f])} expected {short(exp[f])}", **det)
    ctx.require(set(calls) - set(called) == set(), "unneeded-node-computed",
                f"{set(calls) - set(called)} ran but is not needed", **det)
    ctx.require(set(called) - set(calls) == set(), "needed-node-not-computed",
                f"{set(called) - set(calls)} never ran", **det)
    # arguments each function saw
    for ev in list(vrt.EVENTS):
        if ev[0] == "call":
            n = dag.nodes[ev[1]]
            for p, d, _ in n.params:
                v = memo.get(p)
                v = d if (p not in memo or v is evaluate.__globals__["MISSING"]) else v
                ctx.require(ev[2][p] == vrt.ival(v), "wrong-argument",
                            f"{ev[1]} saw a wrong value for {p}", **det)
    if called:
        ctx.sig(dag.shape_sig(), tuple(sorted(list(dag.nodes).index(f) if f in dag.nodes else -1
                                              for f in final)),
                tuple(sorted(overrides)), api)
    ctx.sample(dict(dag=dag.describe(), final=final, inputs=short(inputs),
                    overrides=short(overrides), order_of_calls=calls, result=short(got)))


def depends_on(dag, a, b, config, overrides):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x in seen or x not in dag.nodes or x in config or x in overrides:
            continue
        seen.add(x)
        for p in dag.nodes[x].params:
            if p[0] == b:
                return True
            st.append(p[0])
    return False


def pick_config(rng, dag):
    config = {}
    for nm in dag.inputs:
        if rng.random() < .25:
            config[nm] = input_value(rng, dag.inputs[nm])
    if rng.random() < .15 and len(dag.nodes) > 1:
        nm = rng.choice(list(dag.nodes))
        anns = {p[2] for n in dag.nodes.values() for p in n.params if p[0] == nm}
        if len(anns) <= 1:
            config[nm] = vrt.shape(dag.nodes[nm].kind, rng.randrange(1000))
    if rng.random() < .1:
        config["zz_unused_config"] = "u"
    return config


def run_dag(ctx, dag, nruns):
    rng = ctx.rng
    config = pick_config(rng, dag)
    mods = dag.modules(rng)
    api = rng.choice(["driver", "driver", "builder", "builder", "builder_adapter", "driver_default"])
    dr = build(ctx, mods, config, api)
    for _ in range(nruns):
        one_run(ctx, rng, dag, mods, dr, api, config)
    unload(*mods)


@check.family("dag", quick=10080, thorough=80000)
def f_dag(ctx):
    run_dag(ctx, gen_dag(ctx.rng), ctx.rng.choice([1, 2, 3, 4]))


@check.family("frames", quick=1344, thorough=8000)
def f_frames(ctx):
    run_dag(ctx, gen_dag(ctx.rng, kinds=PANDAS_KINDS + ["int"]), 2)


@check.family("large", quick=448, thorough=2400)
def f_large(ctx):
    rng = ctx.rng
    dag = gen_dag(rng, n_nodes=rng.choice([30, 60, 120, 200]), n_inputs=rng.randrange(1, 8),
                  p_opt=.1)
    run_dag(ctx, dag, 3)


@check.family("discovery", quick=672, thorough=2400)
def f_discovery(ctx):
    """Only functions defined in the given modules and not starting with an underscore are nodes;
    names imported from elsewhere are not."""
    rng = ctx.rng
    other = load_module("from vrt import log as _log\n"
                        "def helper_fn(x: int) -> int:\n    _log('call','helper_fn'); return x*2\n"
                        "def imported_node(x: int) -> int:\n    _log('call','imported_node'); return x\n")
    uses = rng.random() < .5
    src = (f"from {other.__name__} import helper_fn, imported_node\n"
           "from vrt import log as _log\nimport functools\n"
           "def _private(x: int) -> int:\n    return x + 100\n"
           "class Klass:\n    def method(self, x: int) -> int:\n        return x\n"
           "CONST = 3\n"
           f"def pub(x: int) -> int:\n    _log('call','pub'); return {'helper_fn(_private(x))' if uses else '_private(x)'}\n"
           "def pub2(pub: int, *, kwonly: int = 4) -> int:\n    _log('call','pub2'); return pub + kwonly\n")
    mod = load_module(src)
    dr = driver.Builder().with_modules(mod).build()
    names = {v.name for v in dr.list_available_variables()}
    ctx.require(names == {"pub", "pub2", "x", "kwonly"}, "node-discovery", f"nodes are {names}")
    x = rng.randrange(1000)
    inp = dict(x=x)
    if rng.random() < .5:
        inp["kwonly"] = rng.randrange(50)
    vrt.reset()
    got = dr.execute(["pub2"], inputs=inp)
    exp = (x + 100) * (2 if uses else 1) + inp.get("kwonly", 4)
    ctx.require(got == {"pub2": exp}, "wrong-value", f"{got} != {exp}")
    ctx.observe("calls", len(vrt.calls()))
    ctx.sig("discovery", uses, "kwonly" in inp)
    unload(mod, other)


if __name__ == "__main__":
    check.main()
