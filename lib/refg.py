"""Reference graphs for decorated code: what every expanded node must depend on and compute, written
down independently of Hamilton's own expansion."""
import asyncio
import sys

import vrt
from gen import MISSING, RefError


class Ref:
    """deps: name -> optional?;  fn(kw) gets the available dependencies by name; a None fn is not
    evaluated.  `calls` are the user functions that run when the node is computed."""

    def __init__(self, deps, fn, calls=(), doc=None, tags=None, static=False):
        self.static = static        # plumbing (an injected value), not a node users name
        self.deps = deps if isinstance(deps, dict) else {d: False for d in deps}
        self.fn, self.calls, self.doc, self.tags = fn, tuple(calls), doc, tags


class RefRaise(Exception):
    def __init__(self, node, exc):
        super().__init__(node, exc)
        self.node, self.exc = node, exc


def evaluate(refs, final, inputs=None, overrides=None):
    inputs, overrides = inputs or {}, overrides or {}
    memo, calls = {}, []
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 10000))

    def need(nm):
        if nm in memo:
            return memo[nm]
        if nm in overrides:
            v = overrides[nm]
        elif nm in refs:
            kw = {}
            for d, opt in refs[nm].deps.items():
                x = need(d)
                if x is MISSING:
                    if not opt:
                        raise RefError("missing", d)
                else:
                    kw[d] = x
            calls.extend(refs[nm].calls)
            try:
                v = refs[nm].fn(kw)
            except RefError:
                raise
            except Exception as e:      # noqa: BLE001
                raise RefRaise(nm, e)
        elif nm in inputs:
            v = inputs[nm]
        else:
            v = MISSING
        memo[nm] = v
        return v
    return {f: need(f) for f in final}, calls, memo


def externals(refs, final, overrides=()):
    req, opt, seen = set(), set(), set()

    def visit(nm):
        if nm in seen or nm in overrides or nm not in refs:
            return
        seen.add(nm)
        for d, o in refs[nm].deps.items():
            if d in refs:
                visit(d)
            elif d not in overrides:
                (opt if o else req).add(d)
    for f in final:
        visit(f)
    return req, opt - req


def upstream(refs, final):
    out = set()

    def visit(nm):
        if nm in out:
            return
        out.add(nm)
        for d in refs[nm].deps if nm in refs else ():
            visit(d)
    for f in final:
        visit(f)
    return out


MODES = ["v1", "v1", "v2", "async"]


def build(mode, mods, config=None, adapters=(), materializers=()):
    from hamilton import async_driver, driver
    if mode == "async":
        async def mk():
            return await async_driver.Builder().with_modules(*mods).with_config(config or {}).with_adapters(*adapters).build()
        return asyncio.run(mk())
    b = driver.Builder().with_modules(*mods).with_config(config or {}).with_adapters(*adapters)
    if materializers:
        b = b.with_materializers(*materializers)
    if mode == "v2":
        from hamilton.execution import executors
        b = b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(
            executors.SynchronousLocalTaskExecutor()).with_remote_executor(executors.SynchronousLocalTaskExecutor())
    return b.build()


def run(mode, dr, final, inputs=None, overrides=None):
    if mode == "async":
        async def go():
            return await dr.execute(final, inputs=dict(inputs or {}), overrides=dict(overrides or {}))
        return asyncio.run(go())
    return dr.execute(final, inputs=dict(inputs or {}), overrides=dict(overrides or {}))


def check_graph(ctx, dr, refs, det, subset=None):
    """Node names, dependencies (required/optional), documentation and tags as the reference says."""
    vs = {v.name: v for v in dr.list_available_variables()}
    got = {n for n, v in vs.items() if not v.is_external_input}
    if subset is not None:      # only the named nodes are public behaviour here
        ctx.require(set(subset) <= got, "missing-nodes", lambda: f"no {sorted(set(subset) - got)} in {sorted(got)}", **det)
        refs = {n: refs[n] for n in subset}
    else:
        ctx.require(got == set(refs), "wrong-nodes", lambda: f"nodes {sorted(got)} expected {sorted(refs)}", **det)
    for n, r in refs.items():
        if n not in vs or n not in got:
            continue
        v = vs[n]
        req, opt = set(v.required_dependencies), set(v.optional_dependencies)
        ctx.require(req == {d for d, o in r.deps.items() if not o} and opt == {d for d, o in r.deps.items() if o},
                    "wrong-dependencies", lambda: f"{n}: {req} / {opt} expected {r.deps}", **det)
        if r.doc is not None:
            ctx.require(v.documentation == r.doc, "wrong-doc", lambda: f"{n}: {v.documentation!r} expected {r.doc!r}", **det)
        if r.tags is not None:
            t = {k: x for k, x in v.tags.items() if k != "module"}
            ctx.require(t == r.tags, "wrong-tags", lambda: f"{n}: {t} expected {r.tags}", **det)
    return got


def check_run(ctx, mode, dr, refs, final, inputs, overrides, same, det):
    try:
        exp, calls, _ = evaluate(refs, final, inputs, overrides)
    except RefRaise as e:
        ctx.observe("failing_runs")
        try:
            got = run(mode, dr, final, inputs, overrides)
        except Exception as err:    # noqa: BLE001
            ctx.require(True, "", "")
            return None
        ctx.violation("failure-hidden", f"{e.node} must fail with {e.exc!r}; got {got}", **det)
        return None
    vrt.EVENTS.clear()
    try:
        got = run(mode, dr, final, inputs, overrides)
    except Exception as err:        # noqa: BLE001
        ctx.violation("unexpected-error", f"{final}: {type(err).__name__}: {str(err)[-1500:]} expected {exp}", inputs=inputs, overrides=overrides, **det)
        return None
    ctx.require(same(got, exp), "wrong-value", lambda: f"{final}: {got} expected {exp}", inputs=inputs, overrides=overrides, **det)
    ctx.require(sorted(vrt.calls()) == sorted(calls), "wrong-calls", lambda: f"{sorted(vrt.calls())} expected {sorted(calls)}", **det)
    return got
