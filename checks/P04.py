"""P04: scheduling protocol of task-based execution."""
import collections
import random
import threading

import vf
import vrt
from cmpv import same, short
from gen import REQ, input_value, load_module, unload
from pargen import downstream, evaluate_p, gen_pdag, required_p

check = vf.Check(
    "P04",
    rule="random Parallelizable/Collect dataflows on recorded real (sync, thread pool) and adversarial "
         "executors; injected failures at every kind of node, delays, refusals, empty requests and driver "
         "reuse. Online trace checker over submit/finish/init/finalize events and user-function "
         "call/return events. Distinct = structure x executors x failing node x event order",
    assumptions=["documented limits: one Collect per Parallelizable, no nesting",
                 "a hang is judged by a generous wall-clock limit and confirmed by two isolated reruns"],
    required=["runs_ok", "runs_failed", "fail_body", "fail_expand", "fail_collect", "fail_plain",
              "bound_reached", "order_checks", "reuse_after_failure", "block_tasks", "empty_requests",
              "real_parallelism"],
)


@check.setup
def setup_env():
    from hamilton import base, driver
    from hamilton.execution import executors

    import execs
    globals().update(driver=driver, base=base, execs=execs, executors=executors)


def check_trace(ctx, log, det, failed):
    """Executor-boundary protocol."""
    for name in ("remote", "local"):
        ev = [e for e in log if e[1] == name]
        if not ev:
            continue
        kinds = [e[0] for e in ev]
        ctx.require(kinds.count("init") == 1 and kinds[0] == "init", "executor-init",
                    f"{name}: init events {kinds[:5]}", **det)
        ctx.require(kinds.count("finalize") == 1, "executor-finalize",
                    f"{name}: finalized {kinds.count('finalize')} times (failed run: {failed})", **det)
        if kinds.count("finalize"):
            after = kinds[kinds.index("finalize") + 1:]
            ctx.require("submit" not in after, "submit-after-finalize", f"{name}: {after}", **det)
        ready = None
        for e in ev:
            if e[0] == "can_submit":
                ready = e[2]
            elif e[0] == "submit":
                ctx.require(ready is True, "submitted-without-capacity",
                            f"{name}: task {e[2]} submitted although the executor said it cannot take one", **det)
                ready = None
    subs = [e for e in log if e[0] == "submit"]
    dup = [t for t, c in collections.Counter(e[2] for e in subs).items() if c > 1]
    ctx.require(not dup, "task-submitted-twice", f"tasks submitted more than once: {dup}", **det)


def check_order(ctx, d, final, overrides, n_items, det):
    """A function starts only after everything it depends on has returned."""
    returned = collections.Counter()
    for kind, nm, payload, tid in list(vrt.EVENTS):
        if kind == "return":
            returned[nm] += 1
        elif kind == "call":
            n = d.nodes[nm]
            for p, dv, ann in n.params:
                if p in overrides or p not in d.nodes:
                    continue
                m = d.nodes[p]
                need = 1
                if n.role == "collect" and p == n.collect:
                    need = n_items[n.block]
                ctx.require(returned[p] >= need, "started-before-dependency",
                            f"{nm} started when {p} had returned {returned[p]}/{need} times", **det)
                ctx.observe("order_checks")


def cut(d, nm, overrides):
    """What depends on nm only through overridden nodes."""
    seen, st = {nm}, [nm]
    while st:
        x = st.pop()
        for n in d.nodes.values():
            if n.name not in seen and n.name not in overrides and any(p[0] == x for p in n.params):
                seen.add(n.name)
                st.append(n.name)
    return set(d.nodes) - seen


def one(ctx, kind, nruns):
    rng = ctx.rng
    d = gen_pdag(rng, max_items=rng.choice([3, 6, 12]))
    mod = load_module(d.source())
    log = []
    arng = random.Random(rng.random())
    cap = rng.choice([1, 2, 3, 4])
    if kind == "adv":
        remote = execs.AdversarialExecutor(arng, cap, log, name="remote",
                                           p_refuse=rng.choice([0, .3, .8]), p_run=rng.choice([.1, .4, 1]))
    else:
        remote = execs.RecordingExecutor(execs.make(kind, arng, n=cap), log, "remote")
    lk = rng.choice(["sync", "threads", "adv"])
    if lk == "adv":
        local = execs.AdversarialExecutor(arng, rng.choice([1, 3]), log, name="local")
    else:
        local = execs.RecordingExecutor(execs.make(lk, arng, n=2), log, "local")
    dr = (driver.Builder().with_modules(mod).enable_dynamic_execution(allow_experimental_mode=True)
          .with_remote_executor(remote).with_local_executor(local).build())
    prev_failed = False
    n_items = {i: d.nodes[e].n for i, (e, _, _) in enumerate(d.blocks)}
    for r in range(nruns):
        pool = d.outer()
        final = rng.sample(pool, rng.randrange(1, min(4, len(pool)) + 1))
        if rng.random() < .6 and d.blocks[-1][2] not in final:
            final.append(d.blocks[-1][2])
        if rng.random() < .04:
            final = []
        overrides = {}
        if rng.random() < .2:
            pl = [x for x, n in d.nodes.items() if n.role == "plain"]
            for nm in rng.sample(pl, min(len(pl), rng.choice([1, 2]))):
                overrides[nm] = vrt.shape(d.nodes[nm].kind, rng.randrange(999))
        req, opt = required_p(d, final, overrides)
        inputs = {nm: input_value(rng, d.inputs[nm]) for nm in d.inputs if nm in req or rng.random() < .5}
        exp, calls, allowed = evaluate_p(d, final, inputs, overrides)
        vrt.reset()
        log.clear()
        failing = {}
        if rng.random() < .5 and calls:
            for nm in rng.sample(sorted(calls), rng.choice([1, 1, 2]) if len(calls) > 1 else 1):
                failing[nm] = rng.choice(vrt.ERRS)(f"boom-{nm}-{rng.randrange(10**6)}")
                if d.nodes[nm].role == "body" and rng.random() < .7:
                    # only one of the items fails
                    k = rng.randrange(1, calls[nm] + 1)
                    cnt = [0]
                    lk_ = threading.Lock()

                    def gate(exc=failing[nm], k=k, cnt=cnt, nm=nm, lk_=lk_):
                        with lk_:
                            cnt[0] += 1
                            mine = cnt[0]
                        if mine == k:
                            vrt.log("raise", nm)
                            raise exc
                    vrt.GATES[nm] = gate
                else:
                    vrt.RAISE[nm] = failing[nm]
        if kind == "threads":
            r2 = random.Random(rng.random())
            for nm in d.nodes:
                if rng.random() < .5:
                    vrt.DELAY[nm] = lambda: r2.choice([0, .001, .003])
        det = dict(source=d.source(), final=final, inputs=inputs, executor=kind, capacity=cap, local=lk,
                   failing=sorted(failing), overrides=overrides)
        err = got = None
        try:
            got = dr.execute(final, inputs=inputs, overrides=overrides)
        except Exception as e:  # noqa: BLE001
            err = e
        ev = list(vrt.EVENTS)
        det["trace"] = [e[:2] for e in ev][:120]
        det["log"] = [e for e in log if e[0] != "can_submit"][:120]
        ctx.observe("events", len(ev) + len(log))
        ctx.require(vrt.ACTIVE == 0, "still-running-after-return",
                    f"{vrt.ACTIVE} user functions still running after execute() returned", **det)
        n_ev = len(ev)
        if failing:
            ctx.observe("runs_failed")
            raised = {e[1] for e in ev if e[0] == "raise"}
            for nm in raised:
                ctx.observe("fail_" + d.nodes[nm].role)
            ctx.require(err is not None, "failure-swallowed",
                        f"{sorted(raised)} raised but execute returned {short(got)}", **det)
            if err is not None:
                ctx.require(any(err is failing[nm] for nm in raised), "wrong-exception",
                            f"execute raised {err!r}; functions raised {[str(failing[x]) for x in raised]}", **det)
            # nothing that (transitively, outside sibling items) depends on a failed call may run
            called = {e[1] for e in ev if e[0] == "call"}
            for nm in raised:
                n = d.nodes[nm]
                dn = downstream(d, nm)
                if n.role == "body":
                    # sibling items legitimately run the rest of the body
                    dn = {x for x in dn if not (d.nodes[x].role == "body" and d.nodes[x].block == n.block)}
                bad = (dn - cut(d, nm, overrides)) & called
                ctx.require(not bad, "ran-downstream-of-failure", f"{nm} failed but {sorted(bad)} ran", **det)
            prev_failed = True
        else:
            if err is not None:
                raise err
            ctx.observe("runs_ok")
            if prev_failed:
                ctx.observe("reuse_after_failure")
            if not final:
                ctx.observe("empty_requests")
            for k in final:
                ctx.require(same(got.get(k), exp[k]), "wrong-value", f"{k}: {short(got.get(k))} vs {short(exp[k])}", **det)
        check_order(ctx, d, final, overrides, n_items, det)
        check_trace(ctx, log, det, bool(failing))
        for e in log:
            if e[0] == "submit":
                names = e[4]
                is_block = any(d.nodes[x].role == "body" for x in names if x in d.nodes)
                if is_block:
                    ctx.observe("block_tasks")
                ctx.require((e[1] == "remote") == is_block, "wrong-executor",
                            f"task of {names} went to the {e[1]} executor", **det)
        # capacity at the boundary: in flight = submitted and not yet seen finished
        fl, mx = 0, 0
        for e in log:
            if e[1] == "remote" and e[0] == "submit":
                fl += 1
                mx = max(mx, fl)
            elif e[1] == "remote" and e[0] == "finish":
                fl -= 1
        if mx >= cap:
            ctx.observe("bound_reached")
        ctx.require(len(vrt.EVENTS) == n_ev, "activity-after-return", "user code ran after execute() returned", **det)
        ctx.sig(d.sig(), kind, lk, cap, tuple(sorted(failing)), hash(tuple(e[:2] for e in ev)))
        ctx.sample(dict(source=d.source(), final=final, failing=sorted(failing),
                        log=[e for e in log if e[0] != "can_submit"][:40]))
    unload(mod)


@check.family("adversarial", quick=1500, thorough=32000)
def f_adv(ctx):
    one(ctx, "adv", 3)


@check.family("threads", quick=600, thorough=12000)
def f_threads(ctx):
    one(ctx, "threads", 3)


@check.family("sync", quick=300, thorough=6000)
def f_sync(ctx):
    one(ctx, "sync", 3)


SRC = """
import vrt as _vrt
from hamilton.htypes import Parallelizable, Collect
def items(n: int) -> Parallelizable[int]:
    for i in range(n):
        yield i
def work(items: int) -> int:
    return _vrt.H('work', 1, 'int', {'items': items})
def total(work: Collect[int]) -> list:
    return list(work)
"""


@check.family("bound", quick=144, thorough=2000)
def f_bound(ctx):
    """Never more than max_tasks user functions at once, and really that many when there is work."""
    rng = ctx.rng
    cap = rng.choice([1, 2, 3, 4, 6])
    n = rng.choice([cap, cap + 1, 2 * cap, 25])
    mod = load_module(SRC)
    dr = (driver.Builder().with_modules(mod).enable_dynamic_execution(allow_experimental_mode=True)
          .with_remote_executor(executors.MultiThreadingExecutor(max_tasks=cap)).build())
    for rep in range(2):
        vrt.reset()
        bar = threading.Barrier(cap)
        broken = []
        seen = [0]
        lk = threading.Lock()

        def gate():
            with lk:
                seen[0] += 1
                k = seen[0]
            if k <= cap and cap > 1:
                try:
                    bar.wait(45)
                except threading.BrokenBarrierError:
                    broken.append(k)
        vrt.GATES["work"] = gate
        vrt.DELAY["work"] = .001
        got = dr.execute(["total"], inputs={"n": n})
        det = dict(max_tasks=cap, items=n, max_active=vrt.MAX_ACTIVE)
        ctx.require(vrt.MAX_ACTIVE <= cap, "too-many-concurrent-tasks",
                    f"{vrt.MAX_ACTIVE} block tasks ran at once, max_tasks={cap}", **det)
        ctx.require(not broken, "not-parallel",
                    f"{cap} workers and {n} items, but {cap} tasks never ran at the same time", **det)
        exp = [vrt.value("work", 1, "int", {"items": i}) for i in range(n)]
        ctx.require(got["total"] == exp, "collect-order", f"{short(got)}", **det)
        if cap > 1 and not broken:
            ctx.observe("real_parallelism")
    ctx.sig(cap, n)
    unload(mod)


@check.family("many", quick=24, thorough=160)
def f_many(ctx):
    """A large fan-out completes, each item once, in order."""
    rng = ctx.rng
    n = rng.choice([300, 150])
    mod = load_module(SRC)
    dr = (driver.Builder().with_modules(mod).enable_dynamic_execution(allow_experimental_mode=True)
          .with_remote_executor(executors.MultiThreadingExecutor(max_tasks=rng.choice([1, 8, 20]))).build())
    vrt.reset()
    got = dr.execute(["total"], inputs={"n": n})
    exp = [vrt.value("work", 1, "int", {"items": i}) for i in range(n)]
    ctx.require(got["total"] == exp and len(vrt.calls()) == n, "fan-out", "wrong result or call count", n=n)
    ctx.sig(n, ctx.idx)
    unload(mod)


if __name__ == "__main__":
    check.main()
