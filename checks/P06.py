"""P06: lifecycle hooks see exactly what happened, in order, exactly once."""
import collections
import random
import threading

import vf
import vrt
from cmpv import same, short
from gen import PLAIN_KINDS, RefError, evaluate, gen_dag, input_value, load_module, required_inputs, unload
from pargen import evaluate_p, gen_pdag, required_p

check = vf.Check(
    "P06",
    rule="random dataflows (plain and with parallel blocks) x random sets of 1-4 recording adapters x "
         "default / task-based (sync, threads, adversarial) executors x injected failures in functions and "
         "hooks, overrides; online trace automaton over hook and function events. Distinct = structure x "
         "adapter capabilities x executor x failing site",
    assumptions=["hooks run in the same process as the recorder"],
    required=["runs_ok", "runs_failed", "hook_events", "node_pairs", "task_pairs", "graph_pairs", "method_runs",
              "hook_failures", "failed_pairs", "none_results", "validators", "overridden_runs", "construct_events"],
)


@check.setup
def setup_env():
    from hamilton import base, driver, lifecycle
    from hamilton.execution import executors, grouping
    from hamilton.lifecycle import api

    import execs
    globals().update(driver=driver, base=base, lifecycle=lifecycle, executors=executors, grouping=grouping,
                     api=api, execs=execs)


LOG = []
LK = threading.Lock()


def rec(*e):
    with LK:
        LOG.append(e + (threading.get_ident(),))


def make_adapter(i, caps, fail):
    """caps: subset of {node, graph, task, construct, method}; fail: dict hook-> (name, exc)."""
    def boom(kind, name):
        f = fail.get((i, kind))
        if f and (f[0] is None or f[0] == name):
            rec("hookfail", i, kind, name)
            raise f[1]

    bases, ns = [], {}
    if "node" in caps:
        bases.append(api.NodeExecutionHook)

        def before(self, *, node_name, node_tags, node_kwargs, node_return_type, task_id, run_id, node_input_types, **f):
            rec("pre_node", i, node_name, dict(node_kwargs), task_id, run_id, dict(node_tags), node_return_type)
            boom("pre_node", node_name)

        def after(self, *, node_name, node_tags, node_kwargs, node_return_type, result, error, success, task_id, run_id, **f):
            rec("post_node", i, node_name, dict(node_kwargs), task_id, run_id, result, error, success)
            boom("post_node", node_name)
        ns.update(run_before_node_execution=before, run_after_node_execution=after)
    if "graph" in caps:
        bases.append(api.GraphExecutionHook)

        def gb(self, *, graph, final_vars, inputs, overrides, execution_path, run_id, **f):
            rec("pre_graph", i, list(final_vars), dict(inputs or {}), dict(overrides or {}), sorted(execution_path), run_id,
                sorted(n.name for n in graph.nodes))

        def ga(self, *, graph, success, error, results, run_id, **f):
            rec("post_graph", i, success, error, results, run_id)
        ns.update(run_before_graph_execution=gb, run_after_graph_execution=ga)
    if "task" in caps:
        bases.append(api.TaskExecutionHook)

        def tb(self, *, task_id, run_id, nodes, inputs, overrides, **f):
            rec("pre_task", i, task_id, run_id, sorted(n.name for n in nodes), dict(inputs), dict(overrides))

        def ta(self, *, task_id, run_id, nodes, results, success, error, **f):
            rec("post_task", i, task_id, run_id, sorted(n.name for n in nodes), results, success, error)
        ns.update(run_before_task_execution=tb, run_after_task_execution=ta)
    if "construct" in caps:
        bases.append(api.GraphConstructionHook)

        def gc(self, *, graph, config, **f):
            rec("construct", i, sorted(n.name for n in graph.nodes), None, dict(config))
        ns.update(run_after_graph_construction=gc)
    if "method" in caps:
        bases.append(api.NodeExecutionMethod)

        def ex(self, *, node_name, node_tags, node_callable, node_kwargs, task_id, is_expand, is_collect, **f):
            rec("method", i, node_name, dict(node_kwargs), task_id, is_expand, is_collect)
            return node_callable(**node_kwargs)
        ns.update(run_to_execute_node=ex)
    if "validate" in caps:
        bases.append(api.StaticValidator)

        def vn(self, *, node, **f):
            rec("validate_node", i, node.name)
            return True, None

        def vg(self, *, graph, **f):
            rec("validate_graph", i, sorted(n.name for n in graph.nodes))
            return True, None
        ns.update(run_to_validate_node=vn, run_to_validate_graph=vg)
    return type(f"Rec{i}", tuple(bases), ns)()


ALL = ["node", "graph", "task", "construct", "validate"]


def gen_adapters(rng, fail):
    out, caps = [], []
    k = rng.choice([1, 2, 2, 3, 4])
    m = rng.randrange(k) if rng.random() < .4 else None
    for i in range(k):
        c = set(rng.sample(ALL, rng.randrange(1, len(ALL) + 1)))
        if i == 0:
            c |= {"node", "graph"}
        if i == m:
            c.add("method")
        out.append(make_adapter(i, c, fail))
        caps.append(c)
    return out, caps


def analyse(ctx, log, caps, calls, final, inputs, overrides, failing, err, got, taskbased, det, hookfail, allowed, nodes):
    """The trace automaton."""
    runs = set()
    node_ad = [i for i, c in enumerate(caps) if "node" in c]
    graph_ad = [i for i, c in enumerate(caps) if "graph" in c]
    task_ad = [i for i, c in enumerate(caps) if "task" in c]
    ctx.observe("hook_events", len(log))
    # --- graph hooks
    for i in graph_ad:
        pre = [(p, e) for p, e in enumerate(log) if e[0] == "pre_graph" and e[1] == i]
        post = [(p, e) for p, e in enumerate(log) if e[0] == "post_graph" and e[1] == i]
        if not ctx.require(len(pre) == 1 and len(post) == 1, "graph-hook-count",
                           f"adapter {i}: {len(pre)} pre, {len(post)} post", **det):
            continue
        ctx.observe("graph_pairs")
        ep, e = pre[0]
        qp, q = post[0]
        runs |= {e[6], q[5]}
        others = [p for p, x in enumerate(log) if x[0] not in ("pre_graph", "post_graph")]
        ctx.require(not others or (ep < others[0] and qp > others[-1]), "graph-hook-order",
                    "graph hooks do not enclose the run", **det)
        ctx.require(e[2] == final and same(e[3], inputs) and same(e[4], overrides), "pre-graph-args",
                    f"got {short(e[2:5])}", **det)
        ctx.require(set(calls) - set(e[5]) == set(), "execution-path-misses", f"{e[5]} lacks {set(calls) - set(e[5])}", **det)
        extra = {x for x in e[5] if x not in allowed and x not in overrides}
        ctx.require(not extra, "execution-path-extra", f"{sorted(extra)} announced but not needed", **det)
        ctx.require(q[2] is (err is None) and q[3] is err, "post-graph-outcome",
                    f"success={q[2]} error={q[3]!r} but the run ended with {err!r}", **det)
        if err is None:
            ctx.require(same(q[4], got), "post-graph-results", f"{short(q[4])} vs {short(got)}", **det)
    for kind in ("pre_graph", "post_graph"):
        seq = [e[1] for e in log if e[0] == kind]
        ctx.require(seq == sorted(seq), "adapter-order", f"{kind}: adapters called in order {seq}", **det)
    # --- node hooks, per adapter and key (node, task, thread)
    for i in node_ad:
        pre, post, nfun = collections.Counter(), collections.Counter(), collections.Counter()
        stack = collections.defaultdict(list)
        for e in log:
            tid = e[-1]
            if e[0] == "pre_node" and e[1] == i:
                stack[tid].append([e[2], False, e, False])
                pre[e[2]] += 1
                runs.add(e[5])
            elif e[0] == "call":
                if stack[tid] and stack[tid][-1][0] == e[1]:
                    ctx.require(not stack[tid][-1][1], "called-twice-in-one-hook-pair", e[1], **det)
                    stack[tid][-1][1] = True
                else:
                    ctx.violation("call-outside-hooks", f"{e[1]} ran without pre hook of adapter {i}", **det)
            elif e[0] == "raise":
                if stack[tid] and stack[tid][-1][0] == e[1]:
                    stack[tid][-1][3] = True
            elif e[0] == "post_node" and e[1] == i:
                post[e[2]] += 1
                runs.add(e[5])
                if not ctx.require(bool(stack[tid]) and stack[tid][-1][0] == e[2], "post-without-pre", e[2], **det):
                    continue
                nm, called, p, raised = stack[tid].pop()
                ctx.observe("node_pairs")
                ctx.require(p[4] == e[4] and p[5] == e[5], "pair-ids", f"{p[4:6]} vs {e[4:6]}", **det)
                ctx.require(same(p[3], e[3]), "pair-kwargs", f"{short(p[3])} vs {short(e[3])}", **det)
                if raised:
                    ctx.observe("failed_pairs")
                    ctx.require(e[8] is False and e[6] is None and e[7] is failing.get(nm), "failure-report",
                                f"{nm}: success={e[8]} error={e[7]!r} result={short(e[6])}", **det)
                else:
                    if e[6] is None:
                        ctx.observe("none_results")
                    ctx.require(e[8] is True and e[7] is None, "success-report",
                                f"{nm} returned, but success={e[8]} error={e[7]!r}", **det)
        if not hookfail:
            ctx.require(pre == post, "node-hook-pairs", f"adapter {i}: pre {dict(pre)} post {dict(post)}", **det)
        if not failing and not hookfail:
            exp = collections.Counter(calls)
            seen = collections.Counter({k: v for k, v in pre.items() if k in nodes})
            extra = {k: v for k, v in seen.items() if k not in exp}
            ctx.require(all(seen[k] == v for k, v in exp.items()) and all(k in allowed for k in extra),
                        "node-hook-count", f"adapter {i}: pre {dict(seen)} expected {dict(exp)}", **det)
        for k in pre:
            ctx.require(k not in overrides, "hook-on-overridden", k, **det)
    # adapters in order around each single node execution
    per = collections.defaultdict(list)
    for e in log:
        if e[0] in ("pre_node", "post_node"):
            key = (e[-1],)
            L = per[key]
            if L and L[-1][0] == e[0] and L[-1][1] == e[2] and e[1] > L[-1][2][-1]:
                L[-1][2].append(e[1])
            else:
                L.append([e[0], e[2], [e[1]]])
    if not hookfail and not any(e[0] == "hookfail" for e in log):
        for key, L in per.items():
            for kind, nm, seq in L:
                ctx.require(seq == node_ad, "adapter-order",
                            f"{kind} of {nm}: adapters called {seq}, expected {node_ad}", **det)
    # --- task hooks
    if taskbased:
        for i in task_ad:
            open_ = {}
            cur, bad = {}, {}
            done = collections.Counter()
            for e in log:
                if e[0] == "pre_task" and e[1] == i:
                    ctx.require(e[2] not in open_, "task-opened-twice", e[2], **det)
                    open_[e[2]] = e
                    cur[e[-1]], bad[e[2]] = e[2], None
                    runs.add(e[3])
                elif e[0] == "post_task" and e[1] == i:
                    ctx.observe("task_pairs")
                    done[e[2]] += 1
                    runs.add(e[3])
                    o = open_.pop(e[2], None)
                    ctx.require(o is not None, "post-task-without-pre", e[2], **det)
                    ctx.require((e[6] is True and e[7] is None) or (e[6] is False and e[7] is not None),
                                "task-outcome", short(e[5:8]), **det)
                    if e[2] in bad and not hookfail:
                        ctx.require(e[6] is (bad[e[2]] is None) and e[7] is bad[e[2]], "task-outcome-wrong",
                                    f"task {e[2]}: success={e[6]} error={e[7]!r}, really {bad[e[2]]!r}", **det)
                    cur.pop(e[-1], None)
                elif e[0] == "raise":
                    if e[-1] in cur:
                        bad[cur[e[-1]]] = failing.get(e[1])
                elif e[0] in ("pre_node", "post_node"):
                    if e[4] is not None:
                        ctx.require(e[4] in open_, "node-outside-its-task",
                                    f"{e[2]} has task id {e[4]}, open tasks {list(open_)}", **det)
                        if e[4] in open_:
                            ctx.require(e[2] in open_[e[4]][4], "node-not-in-task",
                                        f"{e[2]} not among {open_[e[4]][4]}", **det)
            ctx.require(not open_, "task-never-closed", f"{list(open_)}", **det)
            ctx.require(all(c == 1 for c in done.values()), "task-repeated", f"{dict(done)}", **det)
        ids = [e[4] for e in log if e[0] == "pre_node"]
        ctx.require(all(t is not None for t in ids), "missing-task-id", f"{ids}", **det)
    # --- method
    for i, c in enumerate(caps):
        if "method" in c:
            mc = collections.Counter(e[2] for e in log if e[0] == "method" and e[1] == i)
            fc = collections.Counter(e[1] for e in log if e[0] == "call")
            ctx.observe("method_runs", sum(mc.values()))
            ctx.require(all(mc[k] == v for k, v in fc.items()), "method-bypassed",
                        f"method {dict(mc)} functions {dict(fc)}", **det)
    ctx.require(len(runs) <= 1, "run-id", f"several run ids in one run: {runs}", **det)
    return runs


def driver_for(rng, mods, adapters, config, kind):
    b = driver.Builder().with_modules(*mods).with_config(config).with_adapters(*adapters)
    if kind != "default":
        b = b.enable_dynamic_execution(allow_experimental_mode=True)
        arng = random.Random(rng.random())
        b = b.with_remote_executor(execs.make(kind, arng)).with_local_executor(
            execs.make(rng.choice(["sync", kind]), arng))
    return b.build()


def value_table(ctx, log, memo, det, single):
    """Values handed to hooks are the values of the dataflow."""
    for e in log:
        if e[0] == "pre_node":
            for k, v in e[3].items():
                if k in memo and single(e[2], k):
                    ctx.require(same(v, memo[k]), "hook-kwargs", f"{e[2]} got {k}={short(v)}, is {short(memo[k])}", **det)
        elif e[0] == "post_node" and e[8] and e[2] in memo and single(e[2], None):
            ctx.require(same(e[6], memo[e[2]]), "hook-result", f"{e[2]}: {short(e[6])} is {short(memo[e[2]])}", **det)


def merge_events():
    """Function events go to the same ordered log as the hook events."""
    def log(kind, name, payload=None):
        with vrt._lock:
            vrt.EVENTS.append((kind, name, payload, threading.get_ident()))
        if kind in ("call", "raise"):
            rec(kind, name)
    vrt.log = log


def static_events(ctx, caps, mods, config, names, det):
    ev = list(LOG)
    for i, c in enumerate(caps):
        if "construct" in c:
            x = [e for e in ev if e[0] == "construct" and e[1] == i]
            ok = len(x) == 1 and same(x[0][4], config) and names <= set(x[0][2])
            ctx.require(ok, "construct-hook", f"adapter {i}: {short(x)}", **det)
            ctx.observe("construct_events")
        if "validate" in c:
            x = collections.Counter(e[2] for e in ev if e[0] == "validate_node" and e[1] == i)
            ctx.require(names <= set(x), "validator-skipped-node", f"{names - set(x)}", **det)
            ctx.require(sum(1 for e in ev if e[0] == "validate_graph" and e[1] == i) >= 1, "graph-validator", "not called", **det)
            ctx.observe("validators")
    cons = [p for p, e in enumerate(ev) if e[0] == "construct"]
    vals = [p for p, e in enumerate(ev) if e[0].startswith("validate_")]
    if cons and vals:
        ctx.require(max(vals) < min(cons), "construct-before-validation", "", **det)
    LOG.clear()


def go(ctx, kind, parallel):
    rng = ctx.rng
    merge_events()
    fail = {}
    adapters, caps = gen_adapters(rng, fail)
    config = {}
    if parallel:
        d = gen_pdag(rng)
        mods = [load_module(d.source())]
        src = d.source()
    else:
        d = gen_dag(rng)
        mods = d.modules(rng)
        src = d.sources()
        config = {nm: input_value(rng, k) for nm, k in d.inputs.items() if rng.random() < .2}
    LOG.clear()
    dr = driver_for(rng, mods, adapters, config, kind)
    det0 = dict(source=src, caps=[sorted(c) for c in caps], executor=kind, config=config)
    static_events(ctx, caps, mods, config, set(d.nodes), det0)
    allruns = set()
    for r in range(2):
        overrides = {}
        if parallel:
            pool = d.outer()
            final = rng.sample(pool, rng.randrange(1, min(3, len(pool)) + 1))
        else:
            final = rng.sample(list(d.nodes), rng.randrange(1, min(4, len(d.nodes)) + 1))
        if rng.random() < .3:
            nm = rng.choice([x for x, n in d.nodes.items() if getattr(n, "role", "plain") == "plain"] or [None])
            if nm:
                overrides[nm] = vrt.shape(rng.choice(PLAIN_KINDS), rng.randrange(999))
                ctx.observe("overridden_runs")
        if parallel:
            req, _ = required_p(d, final, overrides)
            inputs = {nm: input_value(rng, d.inputs[nm]) for nm in d.inputs if nm in req or rng.random() < .5}
            vals, calls, allowed = evaluate_p(d, final, inputs, overrides)
            memo = {**vals}
        else:
            req, _ = required_inputs(d, final, config, overrides)
            inputs = {nm: input_value(rng, d.inputs[nm]) for nm in d.inputs
                      if nm not in config and (nm in req or rng.random() < .4)}
            vals, called, memo = evaluate(d, final, config, inputs, overrides)
            calls = dict.fromkeys(called, 1)
            allowed = set(called)
        vrt.reset()
        LOG.clear()
        fail.clear()
        failing, hookexc = {}, None
        x = rng.random()
        if calls and x < .3:
            nm = rng.choice(sorted(calls))
            failing[nm] = rng.choice(vrt.ERRS + ([] if parallel else [vrt.VStop]))(f"boom {nm} {rng.random()}")
            vrt.RAISE[nm] = failing[nm]
        elif calls and x < .42:
            i = rng.choice([i for i, c in enumerate(caps) if "node" in c])
            nm = rng.choice(sorted(calls))
            hookexc = rng.choice(vrt.ERRS)(f"hook boom {rng.random()}")
            hk = rng.choice(["pre_node", "post_node"])
            fail[(i, hk)] = (nm, hookexc)
        err = got = None
        try:
            got = dr.execute(final, inputs=inputs, overrides=overrides)
        except Exception as e:  # noqa: BLE001
            err = e
        log = list(LOG)
        det = dict(det0, final=final, inputs=inputs, overrides=overrides, failing=sorted(failing),
                   hook_failing=str(dict(fail)), trace=[short(e[:4], 120) for e in log][:150])
        if failing:
            ctx.observe("runs_failed")
            ctx.require(err is list(failing.values())[0], "wrong-exception", f"{err!r}", **det)
        elif hookexc:
            ctx.observe("hook_failures")
            ctx.require(err is hookexc, "hook-exception-lost", f"{err!r} / {short(got)}", **det)
            (i, hk), (nm, _) = list(fail.items())[0]
            if hk == "pre_node":
                ctx.require(not any(e[0] == "call" and e[1] == nm for e in log), "ran-despite-failed-pre-hook", nm, **det)
        else:
            if err is not None:
                raise err
            ctx.observe("runs_ok")
        runs = analyse(ctx, log, caps, calls if not (failing or hookexc) else {}, final, inputs, overrides, failing, err,
                       got, kind != "default", det, hookexc is not None, allowed, set(d.nodes))
        if parallel:
            body = {n for n, x in d.nodes.items() if x.role in ("body", "expand", "collect")}
            value_table(ctx, log, memo, det, lambda n, k: n not in body and (k is None or k not in body))
        else:
            value_table(ctx, log, memo, det, lambda n, k: True)
        ctx.require(not (runs & allruns), "run-id-reused", f"{runs}", **det)
        allruns |= runs
        ctx.sig(d.sig() if parallel else d.shape_sig(), tuple(tuple(sorted(c)) for c in caps), kind,
                tuple(sorted(failing)), str(sorted(fail)))
        ctx.sample(dict(source=src, caps=[sorted(c) for c in caps], trace=[short(e[:3], 100) for e in log][:40]))
    unload(*mods)


@check.family("default", quick=3000, thorough=32000)
def f_default(ctx):
    go(ctx, "default", False)


@check.family("tasks", quick=1500, thorough=16000)
def f_tasks(ctx):
    go(ctx, ctx.rng.choice(["sync", "threads", "adv"]), False)


@check.family("parallel", quick=1800, thorough=20000)
def f_parallel(ctx):
    go(ctx, ctx.rng.choice(["sync", "threads", "adv"]), True)


@check.family("rejecting", quick=480, thorough=2400)
def f_rejecting(ctx):
    """A validator's veto stops construction; an edge-type method decides what fits."""
    rng = ctx.rng
    dag = gen_dag(rng, n_nodes=rng.choice([2, 4, 6]))
    mods = dag.modules(rng)
    bad = rng.choice(list(dag.nodes))
    where = rng.choice(["node", "graph"])

    why = rng.choice([f"veto on {bad} xyzzy", f"veto on {bad} xyzzy", ""])

    class Veto(api.StaticValidator):
        def run_to_validate_node(self, *, node, **f):
            if where == "node" and node.name == bad:
                return False, why
            return True, None

        def run_to_validate_graph(self, *, graph, **f):
            if where == "graph" and any(n.name == bad for n in graph.nodes):
                return False, why
            return True, None
    vrt.reset()
    err = None
    try:
        driver.Builder().with_modules(*mods).with_adapters(Veto()).build()
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.require(err is not None and why in str(err), "veto-ignored", f"{where}: {err!r}", source=dag.sources())
    ctx.require(not vrt.calls(), "user-code-ran", "", source=dag.sources())
    ctx.observe("validators")
    ctx.sig(dag.shape_sig(), where, bad)
    unload(*mods)


if __name__ == "__main__":
    check.main()
