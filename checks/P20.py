"""P20: the adapters Hamilton ships do what they say and otherwise leave an execution as it is."""
import collections
import io
import re
import threading
import typing

import vf
from cmpv import same, short
from gen import fresh_names, load_module, unload

check = vf.Check(
    "P20",
    rule="random dataflows, plain or with a Parallelizable/Collect block, whose functions succeed, fail with a caught / subclass / uncaught error or return special values x shipped adapters "
         "(GracefulErrorAdapter, PrintLn, FunctionInputOutputTypeChecker, PDBDebugger, NoEdgeAndInputTypeChecking, SlowDownYouMoveTooFast, ProgressBar, SlackNotifier, OpenTelemetryTracer) x their options x executors, "
         "adapters reused over several runs. Oracles: independent evaluator with the adapter's documented semantics, independent instance-of model, recorded messages / spans / posts. Distinct = dataflow x adapter options",
    required=["graceful", "graceful_sentinels", "graceful_skipped", "graceful_injected", "graceful_uncaught", "graceful_parallel", "graceful_partial_generator", "println", "println_filtered", "println_tasks", "println_failures", "println_v2",
              "typecheck_ok", "typecheck_refused_output", "typecheck_refused_input", "typecheck_original_error", "typecheck_parallel", "pdb_before", "pdb_during", "pdb_after", "permissive_built", "permissive_refused_without",
              "progress", "slack_posts", "slack_quiet", "otel_node_spans", "otel_error_spans", "otel_tasks", "slowdown", "reused", "threads"],
)


@check.setup
def setup_env():
    from hamilton import driver
    from hamilton.execution import executors
    from hamilton.lifecycle import default
    globals().update(driver=driver, executors=executors, default=default)


HDR = """import typing
from typing import Any
from hamilton.htypes import Parallelizable, Collect
from hamilton.lifecycle.default import accept_error_sentinels
from hamilton.function_modifiers import tag
import pandas as pd

class Stop(Exception):
    pass

class SubStop(Stop):
    pass

class Boom(Exception):
    pass

CALLS = []

"""


class Nd:
    pass


def gen(rng, parallel, allow_fail=True, n=None):
    """nodes in topological order; each: name, deps, mode, tagged, injectable, zone (None / 'expand' / 'block' / 'collect')."""
    nodes = []
    names = fresh_names(rng, 24)
    n = n or rng.choice([2, 4, 6, 9])
    out_pool = []

    def mk(deps, zone=None):
        x = Nd()
        x.name, x.deps, x.zone = names.pop(), deps, zone
        x.mode = rng.choice(["ok"] * 6 + (["stop", "substop", "boom"] if allow_fail and rng.random() < 0.5 else ["stop"] if allow_fail else []) + ["none", "frame", "zero"])
        x.inject = rng.random() < 0.15
        x.tag = rng.choice([None, "a", "b"])
        x.items, x.fail_at = rng.choice([0, 1, 3, 5]), None
        if zone == "expand":
            x.mode = rng.choice(["ok", "ok", "partial", "stop"]) if allow_fail else "ok"
            x.fail_at = rng.randrange(0, x.items + 1)
            x.style = "gen" if x.mode != "ok" else rng.choice(["gen", "list"])
        elif zone == "block":
            x.mode = rng.choice(["ok", "ok", "ok", "odd_stop", "none"]) if allow_fail else rng.choice(["ok", "none"])
        elif zone == "collect" and x.mode in ("frame",):
            x.mode = "ok"
        nodes.append(x)
        return x
    for _ in range(n):
        deps = rng.sample(out_pool, min(len(out_pool), rng.choice([0, 1, 1, 2, 3])))
        x = mk(deps)
        out_pool.append(x.name)
    if parallel:
        safe = [q.name for q in nodes]
        e = mk(rng.sample(safe, min(len(safe), rng.choice([0, 1]))), "expand")
        inner = [e.name]
        for _ in range(rng.choice([1, 2, 3])):
            deps = rng.sample(inner, 1) + rng.sample(safe, min(len(safe), rng.choice([0, 0, 1])))
            b = mk(deps, "block")
            inner.append(b.name)
        c = mk([inner[-1]], "collect")
        out_pool.append(c.name)
        for _ in range(rng.choice([0, 1, 2])):
            x = mk([c.name] + rng.sample(safe, min(len(safe), rng.choice([0, 1]))))
            out_pool.append(x.name)
    return nodes


def source(nodes):
    out = [HDR]
    kinds = {x.name: x for x in nodes}
    for x in nodes:
        ps = ", ".join(f"{d}: " + ("Collect[Any]" if x.zone == "collect" else "Any") for d in x.deps)
        if x.tag:
            out.append(f"@tag(team={x.tag!r})\n")
        if x.inject:
            out.append("@accept_error_sentinels\n")
        out.append(f"def {x.name}({ps}) -> {'Parallelizable[Any]' if x.zone == 'expand' else 'Any'}:\n    CALLS.append({x.name!r})\n")
        val = f"({x.name!r}," + "".join(f" repr({'list(' + d + ')' if x.zone == 'collect' else d})," for d in x.deps) + ")"
        if x.zone == "expand":
            if x.mode == "stop":
                out.append("    raise Stop('no')\n    yield 1\n")
            elif x.mode == "partial":
                out.append(f"    for i in range({x.items}):\n        if i == {x.fail_at}:\n            raise Stop('mid')\n        yield ({x.name!r}, i)\n    raise Stop('end')\n")
            elif x.style == "gen":
                out.append(f"    for i in range({x.items}):\n        yield ({x.name!r}, i)\n")
            else:
                out.append(f"    return [({x.name!r}, i) for i in range({x.items})]\n")
        elif x.mode in ("stop", "substop", "boom"):
            out.append(f"    raise {dict(stop='Stop', substop='SubStop', boom='Boom')[x.mode]}('{x.name} failed')\n")
        elif x.mode == "odd_stop":
            out.append(f"    if len({x.deps[0]!s} and str({x.deps[0]}) or '') % 2 or '1' in repr({x.deps[0]}):\n        raise Stop('{x.name} failed')\n    return {val}\n")
        else:
            out.append("    return " + {"ok": val, "none": "None", "frame": "pd.DataFrame({'a': [1, 2]})", "zero": "0"}[x.mode] + "\n")
        out.append("\n")
    return "".join(out)


class Fail(Exception):
    def __init__(self, kind, node):
        self.kind, self.node = kind, node


def model(nodes, final, adapter=None):
    """Expected results, calls (multiset) and statuses [(node, ok)] of a run.  adapter: dict(sentinel, all, inject, catch) or None."""
    import pandas as pd
    by = {x.name: x for x in nodes}
    calls, stats = collections.Counter(), []
    val = {}

    def is_sent(v):
        return adapter is not None and type(v) is type(adapter["sentinel"]) and v == adapter["sentinel"]

    def run(x, kw):
        """value or Fail; for an expand, the list of items"""
        if adapter is not None and not (x.inject and adapter["inject"]) and any(is_sent(v) for v in kw.values()):
            stats.append((x.name, "skipped"))
            return [adapter["sentinel"]] if x.zone == "expand" else adapter["sentinel"]
        calls[x.name] += 1
        err = None
        if x.zone == "expand":
            items = [(x.name, i) for i in range(x.items)]
            if x.mode == "stop":
                err, items = "stop", []
            elif x.mode == "partial":
                err, items = "stop", items[:x.fail_at]
            if err:
                if adapter is None or not caught(err):
                    stats.append((x.name, "error"))
                    raise Fail(err, x.name)
                stats.append((x.name, "sentinel"))
                return items + [adapter["sentinel"]] if adapter["all"] else [adapter["sentinel"]]
            stats.append((x.name, "ok"))
            return items
        if x.mode in ("stop", "substop", "boom"):
            err = x.mode
        elif x.mode == "odd_stop":
            v = kw[x.deps[0]]
            truthy = v and str(v) or ""
            if len(truthy) % 2 or "1" in repr(v):
                err = "stop"
        if err:
            if adapter is None or not caught(err):
                stats.append((x.name, "error"))
                raise Fail(err, x.name)
            stats.append((x.name, "sentinel"))
            return adapter["sentinel"]
        stats.append((x.name, "ok"))
        if x.mode in ("ok", "odd_stop"):
            return (x.name,) + tuple(repr(kw[d]) for d in x.deps)
        return {"none": None, "frame": pd.DataFrame({"a": [1, 2]}), "zero": 0}[x.mode]

    def caught(err):
        return err in adapter["catch"]
    need, todo = set(), list(final)
    while todo:
        q = todo.pop()
        if q not in need:
            need.add(q)
            todo += by[q].deps
    expand = next((x for x in nodes if x.zone == "expand"), None)
    block = [x for x in nodes if x.zone == "block" and x.name in need]
    for x in nodes:
        if x.name not in need or x.zone == "block":
            continue
        if x.zone == "collect":
            got = []
            for it in val[expand.name]:
                local = dict(val)
                local[expand.name] = it
                for b in block:
                    local[b.name] = run(b, {d: local[d] for d in b.deps})
                got.append(local[x.deps[0]])
            val[x.name] = run(x, {x.deps[0]: got})
            continue
        val[x.name] = run(x, {d: val[d] for d in x.deps})
    return val, calls, stats, need


EXECS = ["v1", "sync", "threads1", "threads4"]


def make(rng, nodes, adapters, kind, mod):
    b = driver.Builder().with_modules(mod)
    parallel = any(x.zone for x in nodes)
    if kind == "v1" and not parallel:
        pass
    else:
        b = b.enable_dynamic_execution(allow_experimental_mode=True)
        ex = {"v1": executors.SynchronousLocalTaskExecutor, "sync": executors.SynchronousLocalTaskExecutor, "threads1": lambda: executors.MultiThreadingExecutor(1),
              "threads4": lambda: executors.MultiThreadingExecutor(4)}[kind]()
        b = b.with_remote_executor(ex)
    if adapters:
        b = b.with_adapters(*adapters)
    return b.build()


def setup_case(ctx, parallel=None, **kw):
    rng = ctx.rng
    parallel = rng.random() < 0.4 if parallel is None else parallel
    nodes = gen(rng, parallel, **kw)
    src = source(nodes)
    mod = load_module(src)
    outs = [x.name for x in nodes if x.zone not in ("expand", "block")]
    final = rng.sample(outs, rng.randrange(1, len(outs) + 1))
    return nodes, src, mod, final, (rng.choice(EXECS) if not parallel else rng.choice(EXECS[1:]))


class Marker:
    """A sentinel of a class of its own."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Marker) and o.n == self.n

    def __hash__(self):
        return 1

    def __repr__(self):
        return f"Marker({self.n})"


def errkind(mod, e):
    return {mod.Stop: "stop", mod.SubStop: "substop", mod.Boom: "boom"}.get(type(e))


def outcome(mod, dr, final):
    """(results or None, error kind) of a run"""
    mod.CALLS.clear()
    try:
        return dr.execute(list(final)), None
    except Exception as e:
        k = errkind(mod, e)
        if k is None:
            raise
        return None, k


def expect(nodes, final, adapter):
    try:
        return model(nodes, final, adapter) + (None,)
    except Fail as f:
        return None, None, None, None, f


@check.family("graceful", 3000, 30000)
def graceful(ctx):
    rng = ctx.rng
    nodes, src, mod, final, ex = setup_case(ctx)
    try:
        sent = rng.choice([None, None, "SENT", -999, Marker(1), (), 0])
        catch = rng.choice(["Stop", "SubStop", "Exception"])
        cfg = {"sentinel": sent, "all": rng.random() < 0.6, "inject": rng.random() < 0.7, "catch": {"Stop": {"stop", "substop"}, "SubStop": {"substop"}, "Exception": {"stop", "substop", "boom"}}[catch]}
        ad = default.GracefulErrorAdapter(error_to_catch=Exception if catch == "Exception" else getattr(mod, catch), sentinel_value=sent, try_all_parallel=cfg["all"], allow_injection=cfg["inject"])
        dr = make(rng, nodes, [ad], ex, mod)
        for rep in range(rng.choice([1, 2])):
            val, calls, stats, need, fail = expect(nodes, final, cfg)
            res, err = outcome(mod, dr, final)
            ctx.observe("graceful")
            if fail is not None:
                ctx.observe("graceful_uncaught")
                # a parallel or differently ordered run may meet another uncaught failure first
                ctx.require(err is not None and err not in cfg["catch"], "graceful-uncaught", f"an error the adapter was not asked to catch ({fail.kind}) did not reach the caller (got {err})", source=src, options=repr(cfg))
                continue
            ctx.require(err is None, "graceful-raised", f"error {err} reached the caller although it is caught", source=src, options=repr(cfg))
            if err is not None:
                continue
            for f in final:
                ctx.require(same(res[f], val[f]), "graceful-value", f"{f} = {short(res[f])}, expected {short(val[f])}", source=src, options=repr(cfg), final=final)
            ctx.require(collections.Counter(mod.CALLS) == calls, "graceful-calls", f"functions run {dict(collections.Counter(mod.CALLS))}, expected {dict(calls)}", source=src, options=repr(cfg), final=final)
            ctx.observe("graceful_sentinels", sum(s == "sentinel" for _, s in stats))
            ctx.observe("graceful_skipped", sum(s == "skipped" for _, s in stats))
            if any(x.zone for x in nodes):
                ctx.observe("graceful_parallel")
                if ex.startswith("threads"):
                    ctx.observe("threads")
                if any(x.mode == "partial" and x.name in need for x in nodes):
                    ctx.observe("graceful_partial_generator")
            bad = {n for n, s in stats if s in ("sentinel", "skipped")}
            if cfg["inject"] and any(x.inject and set(x.deps) & bad for x in nodes if x.name in need):
                ctx.observe("graceful_injected")
            if rep:
                ctx.observe("reused")
        ctx.sig(src, repr(cfg), final)
    finally:
        unload(mod)


@check.family("println", 1800, 18000)
def println(ctx):
    rng = ctx.rng
    nodes, src, mod, final, ex = setup_case(ctx)
    try:
        lines, lock = [], threading.Lock()

        def pr(s):
            with lock:
                lines.append(s)
        names = [x.name for x in nodes]
        tags = {x.name: x.tag for x in nodes}
        fk = rng.choice(["none", "str", "list", "fn"])
        flt, accept = {"none": (None, lambda n: True), "str": (names[0], lambda n: n == names[0])}.get(fk, (None, None))
        if fk == "list":
            flt = rng.sample(names, rng.randrange(0, len(names) + 1))
            accept = lambda n: n in flt
        elif fk == "fn":
            flt = lambda n, t: t.get("team") == "a"
            accept = lambda n: tags.get(n) == "a"
        verbosity = rng.choice([1, 2])
        ad = default.PrintLn(verbosity=verbosity, print_fn=pr, node_filter=flt)
        dr = make(rng, nodes, [ad], ex, mod)
        for rep in range(rng.choice([1, 2, 3])):
            lines.clear()
            val, calls, stats, need, fail = expect(nodes, final, None)
            res, err = outcome(mod, dr, final)
            ctx.observe("println")
            ctx.require((err is None) == (fail is None), "println-outcome", f"with PrintLn the run ends with {err}, without with {fail and fail.kind}", source=src)
            if err is None and fail is None:
                for f in final:
                    ctx.require(same(res[f], val[f]), "println-value", f"with PrintLn {f} = {short(res[f])}, expected {short(val[f])}", source=src)
            called = collections.Counter(mod.CALLS)
            start, end, bad = collections.Counter(), collections.Counter(), collections.Counter()
            opened = {}
            for ln in lines:
                m = re.match(r"(Executing|Finished debugging) node: ([\w.:\-]+?)(?:\.$|\. Inputs|\.\n| in )", ln)
                ctx.require(m, "println-format", f"unexpected line {ln!r}")
                if not m:
                    continue
                uid = m.group(2)
                nm = uid.rsplit(":", 1)[-1]
                if m.group(1) == "Executing":
                    start[nm] += 1
                    ctx.require(uid not in opened, "println-ambiguous", f"two executions of one run are both announced as {uid}", lines=lines, source=src)
                    opened[uid] = opened.get(uid, 0) + 1
                    if start[nm] == 2:
                        ctx.observe("println_tasks")
                    ctx.require(("Inputs:" in ln) == (verbosity == 2), "println-verbosity", f"verbosity {verbosity}: {ln!r}")
                else:
                    end[nm] += 1
                    ctx.require(opened.get(uid, 0) > 0, "println-order", f"{uid} finished without having started", lines=lines)
                    opened[uid] = opened.get(uid, 0) - 1
                    ok = "Status: Success" in ln
                    if not ok:
                        bad[nm] += 1
                        ctx.observe("println_failures")
                    ctx.require(ok != ("Status: Failure" in ln), "println-status", f"no status in {ln!r}")
                    if verbosity == 2:
                        ctx.require(("Result:" in ln) == ok and ("Error:" in ln) != ok, "println-verbosity", f"verbosity 2: {ln!r}")
                    else:
                        ctx.require("Result:" not in ln and "Error:" not in ln, "println-verbosity", f"verbosity 1: {ln!r}")
            exp = collections.Counter({n: c for n, c in called.items() if accept(n)})
            if fk != "none":
                ctx.observe("println_filtered")
            if verbosity == 2:
                ctx.observe("println_v2")
            ctx.require(start == exp, "println-starts", f"PrintLn announced {dict(start)}, functions run {dict(exp)}", source=src, lines=lines, filter=repr(flt))
            ctx.require(end == exp, "println-ends", f"PrintLn reported the end of {dict(end)}, functions run {dict(exp)}", source=src, lines=lines, filter=repr(flt))
            if fail is None:
                ctx.require(not bad, "println-status", f"PrintLn reports failures {dict(bad)} in a successful run", lines=lines)
            elif not any(x.zone for x in nodes):
                ctx.require(sum(bad.values()) == (1 if accept(next(iter(bad), fail.node)) and bad else 0) and (bad or not all(map(accept, names))), "println-status", f"PrintLn reports failures {dict(bad)} in a failing run", lines=lines, source=src)
            if rep:
                ctx.observe("reused")
            if ex.startswith("threads"):
                ctx.observe("threads")
        ctx.sig(src, fk, verbosity, final)
    finally:
        unload(mod)


# ---------------------------------------------------------------- run-time type checking
ATOMS = [("int", int, lambda r: r.choice([0, 7, -1])), ("str", str, lambda r: r.choice(["", "x"])), ("float", float, lambda r: r.choice([0.5, -1.0])), ("bytes", bytes, lambda r: b"b")]


class Unsure(Exception):
    """Element types the run-time checker need not look into."""


def unsure():
    raise Unsure


def rtype(rng, depth):
    """(source text, make(rng) -> value of the type, isinstance model)"""
    k = rng.choice(["atom"] * 4 + ["any", "none"] + (["list", "list", "dict", "set", "tuple", "vtuple", "opt", "union", "pipe", "lit", "barelist", "seq", "frozen"] if depth else []))
    if k == "atom":
        n, t, m = rng.choice(ATOMS)
        return n, m, lambda v, t=t: isinstance(v, t)
    if k == "any":
        return "Any", lambda r: r.choice([1, "a", None, [1]]), lambda v: True
    if k == "none":
        return "None", lambda r: None, lambda v: v is None
    if k == "barelist":
        n = rng.choice(["list", "typing.List"])
        return n, lambda r: [1, "a"], lambda v: isinstance(v, list)
    if k == "lit":
        return "typing.Literal['a', 3]", lambda r: r.choice(["a", 3]), lambda v: v in ("a", 3) if not isinstance(v, (list, dict, set, tuple, frozenset)) else False
    s, m, c = rtype(rng, depth - 1)
    if k == "list":
        return rng.choice([f"typing.List[{s}]", f"list[{s}]"]), lambda r: [m(r) for _ in range(r.choice([0, 1, 3]))], lambda v: isinstance(v, list) and all(map(c, v))
    if k == "seq":
        return f"typing.Sequence[{s}]", lambda r: r.choice([list, tuple])([m(r) for _ in range(r.choice([0, 1, 2]))]), lambda v: isinstance(v, (list, tuple)) and all(map(c, v)) or (isinstance(v, (str, bytes)) and unsure())
    if k == "set":
        n, t, mm = rng.choice(ATOMS)
        return f"typing.Set[{n}]", lambda r: {mm(r)}, lambda v: isinstance(v, set) and all(isinstance(i, t) for i in v)
    if k == "frozen":
        n, t, mm = rng.choice(ATOMS)
        return f"typing.FrozenSet[{n}]", lambda r: frozenset([mm(r)]), lambda v: isinstance(v, frozenset) and (all(isinstance(i, t) for i in v) or unsure())
    if k == "dict":
        return rng.choice([f"typing.Dict[str, {s}]", f"dict[str, {s}]"]), lambda r: {x: m(r) for x in r.sample("abc", r.randrange(3))}, lambda v: isinstance(v, dict) and all(isinstance(q, str) for q in v) and all(map(c, v.values()))
    if k == "vtuple":
        return f"typing.Tuple[{s}, ...]", lambda r: tuple(m(r) for _ in range(r.choice([0, 1, 3]))), lambda v: isinstance(v, tuple) and all(map(c, v))
    if k == "opt":
        return f"typing.Optional[{s}]", lambda r: r.choice([None, m(r)]), lambda v: v is None or c(v)
    s2, m2, c2 = rtype(rng, depth - 1)
    if k == "tuple":
        return rng.choice([f"typing.Tuple[{s}, {s2}]", f"tuple[{s}, {s2}]"]), lambda r: (m(r), m2(r)), lambda v: isinstance(v, tuple) and len(v) == 2 and c(v[0]) and c2(v[1])
    if k == "union" or s == "None" and s2 == "None" or "None" in (s, s2) or "Literal" in s + s2:
        return f"typing.Union[{s}, {s2}]", lambda r: r.choice([m, m2])(r), lambda v: c(v) or c2(v)
    if s == "Any" or s2 == "Any":
        return f"typing.Union[{s}, {s2}]", lambda r: r.choice([m, m2])(r), lambda v: True
    return f"{s} | {s2}", lambda r: r.choice([m, m2])(r), lambda v: c(v) or c2(v)


VALUES = [1, 0.5, "s", None, [1, "a"], ["x"], [2], {"a": 1}, {"a": "b"}, {1: 2}, (1, "a"), ("a", 1), (1, 2, 3), (), {1}, {"s"}, frozenset([1]), b"z", [[1], ["a"]], True]


@check.family("typecheck", 5000, 50000)
def typecheck(ctx):
    rng = ctx.rng
    mode = rng.choice(["output", "output", "input", "input", "error", "parallel"])
    s, m, c = rtype(rng, 2)
    if mode == "parallel" and s == "None":
        raise vf.Skip("Collect[None]")
    v = m(rng) if rng.random() < 0.5 else rng.choice(VALUES)
    try:
        ok = c(v)
    except Unsure:
        ok = None
    hold = {}
    src = "import typing\nfrom typing import Any\nfrom hamilton.htypes import Parallelizable, Collect\n"
    if mode in ("output", "error"):
        src += f"def made() -> {s}:\n    return HOLD['fn']()\n\ndef after(made: {s}) -> Any:\n    return made\n"
    elif mode == "input":
        src += f"def before() -> Any:\n    return HOLD['fn']()\n\ndef made(before: {s}) -> Any:\n    return before\n\ndef after(made: Any) -> Any:\n    return made\n"
    else:
        src += f"def many() -> Parallelizable[{s}]:\n    for i in range(2):\n        yield HOLD['fn']()\n\ndef made(many: {s}) -> {s}:\n    return many\n\ndef after(made: Collect[{s}]) -> Any:\n    return list(made)\n"
    mod = load_module("HOLD = {}\n" + src)
    mod.HOLD = mod.__dict__["HOLD"] = hold
    try:
        ci, co = rng.choice([(True, True), (True, True), (True, False), (False, True), (False, False)])

        def fn():
            if mode == "error":
                raise KeyError("original")
            return v
        hold["fn"] = fn
        adapters = [default.FunctionInputOutputTypeChecker(check_input=ci, check_output=co)]
        b = driver.Builder().with_modules(mod)
        if mode == "parallel" or rng.random() < 0.3:
            b = b.enable_dynamic_execution(allow_experimental_mode=True)
        if mode == "input":
            adapters.append(default.NoEdgeAndInputTypeChecking())
        dr = b.with_adapters(*adapters).build()
        try:
            res, err = dr.execute(["after"])["after"], None
        except (TypeError, KeyError) as e:
            res, err = None, e
        ctx.sig(s, repr(v), mode, ci, co)
        if mode == "error":
            ctx.observe("typecheck_original_error")
            ctx.require(isinstance(err, KeyError), "typecheck-masked", f"a node that fails with KeyError surfaces as {type(err).__name__}: {err}", source=src)
            return
        checked = {"output": ci or co, "input": ci, "parallel": ci or co}[mode]
        if ok is None:      # element types the checker need not look into
            return
        if err is not None:
            ctx.require(isinstance(err, TypeError) and "expected" in str(err), "typecheck-crash", f"checking {v!r} against {s} failed with {type(err).__name__}: {err}", source=src)
        if ok or not checked:
            ctx.require(err is None, "typecheck-false-alarm", f"{v!r} was refused as {s} ({mode}): {err}", source=src)
            if err is None:
                ctx.require(same(res, [v, v] if mode == "parallel" else v), "typecheck-value", f"result {short(res)}", source=src)
            ctx.observe("typecheck_ok")
            if mode == "parallel":
                ctx.observe("typecheck_parallel")
        else:
            ctx.require(err is not None, "typecheck-missed", f"{v!r} passed as {s} ({mode}, check_input={ci}, check_output={co})", source=src)
            ctx.observe("typecheck_refused_input" if mode == "input" else "typecheck_refused_output")
    finally:
        unload(mod)


# ---------------------------------------------------------------- debugger, permissive typing, slow-down
@check.family("debugger", 600, 5000)
def debugger(ctx):
    import pdb
    rng = ctx.rng
    nodes, src, mod, final, ex = setup_case(ctx, parallel=False)
    ex = rng.choice(["v1", "sync"])
    real = pdb.set_trace, pdb.runcall
    traces, runs = [], []
    try:
        pdb.set_trace = lambda *a, **k: traces.append(1)

        def runcall(f, *a, **k):
            runs.append(1)
            return f(*a, **k)
        pdb.runcall = runcall
        names = [x.name for x in nodes]
        tags = {x.name: x.tag for x in nodes}
        flt, acc = rng.choice([(None, lambda n: True), (names[-1], lambda n: n == names[-1]), (names[:2], lambda n: n in names[:2]), (lambda n, t: t.get("team") == "b", lambda n: tags[n] == "b")])
        bf, du, af = (rng.random() < 0.5 for _ in range(3))
        dr = make(rng, nodes, [default.PDBDebugger(flt, before=bf, during=du, after=af)], ex, mod)
        val, calls, stats, need, fail = expect(nodes, final, None)
        res, err = outcome(mod, dr, final)
        ctx.require((err is None) == (fail is None), "pdb-outcome", f"with the debugger the run ends with {err}", source=src)
        if err is None and fail is None:
            for f in final:
                ctx.require(same(res[f], val[f]), "pdb-value", f"{f} = {short(res[f])}, expected {short(val[f])}", source=src)
        hit = sum(acc(n) for n in mod.CALLS)
        ctx.require(len(traces) == hit * (bf + af), "pdb-stops", f"debugger stopped {len(traces)} times, expected {hit * (bf + af)}", source=src, before=bf, after=af)
        ctx.require(len(runs) == hit * du, "pdb-runs", f"debugger stepped {len(runs)} functions, expected {hit * du}", source=src)
        for n, f in (("before", bf), ("during", du), ("after", af)):
            if f and hit:
                ctx.observe("pdb_" + n)
        ctx.sig(src, bf, du, af)
    finally:
        pdb.set_trace, pdb.runcall = real
        unload(mod)


@check.family("permissive", 400, 3000)
def permissive(ctx):
    rng = ctx.rng
    ta, tb = rng.sample(["int", "str", "float", "list", "dict", "bytes"], 2)
    v = {"int": 3, "str": "s", "float": 0.5, "list": [1], "dict": {"a": 1}, "bytes": b"x"}[ta]
    edge = rng.random() < 0.5
    src = (f"def one() -> {ta}:\n    return {v!r}\n\ndef two(one: {tb}) -> {tb}:\n    return [one]\n" if edge else f"def two(one: {tb}) -> {tb}:\n    return [one]\n")
    mod = load_module(src)
    try:
        inputs = {} if edge else {"one": v}
        dyn = rng.random() < 0.3

        def build(*a):
            b = driver.Builder().with_modules(mod)
            if dyn:
                b = b.enable_dynamic_execution(allow_experimental_mode=True)
            if a:
                b = b.with_adapters(*a)
            return b.build()
        try:
            build().execute(["two"], inputs=inputs)
        except ValueError:
            ctx.observe("permissive_refused_without")
        else:
            ctx.violation("types-unchecked", f"a {ta} was accepted for a {tb} parameter ({'edge' if edge else 'input'})", source=src)
        res = build(default.NoEdgeAndInputTypeChecking(), *([default.SlowDownYouMoveTooFast(0.001, 0.001)] if rng.random() < 0.4 else [])).execute(["two"], inputs=inputs)
        ctx.require(same(res["two"], [v]), "permissive-value", f"result {short(res)}", source=src)
        ctx.observe("permissive_built")
        ctx.sig(src, dyn)
    finally:
        unload(mod)


# ---------------------------------------------------------------- plugins that observe
@check.family("observers", 1000, 8000)
def observers(ctx):
    rng = ctx.rng
    which = rng.choice(["progress", "slack", "otel", "slow"])
    nodes, src, mod, final, ex = setup_case(ctx)
    parallel = any(x.zone for x in nodes)
    undo = []
    try:
        posts, lock = [], threading.Lock()
        exporter = None
        if which == "progress":
            from hamilton.plugins import h_tqdm
            stream = io.StringIO()
            ad = h_tqdm.ProgressBar(desc="D", file=stream, mininterval=0, miniters=1)
            if ex == "threads4":
                ex = "threads1"
        elif which == "slack":
            import slack_sdk
            from hamilton.plugins import h_slack
            real = slack_sdk.WebClient.chat_postMessage
            undo.append(lambda: setattr(slack_sdk.WebClient, "chat_postMessage", real))

            def post(self, *, channel, text=None, **k):
                with lock:
                    posts.append((channel, text))
            slack_sdk.WebClient.chat_postMessage = post
            ad = h_slack.SlackNotifier(api_key="k", channel="#c")
        elif which == "otel":
            from hamilton.plugins import h_opentelemetry
            from opentelemetry.sdk.trace import TracerProvider
            from opentelemetry.sdk.trace.export import SimpleSpanProcessor
            from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
            exporter = InMemorySpanExporter()
            tp = TracerProvider()
            tp.add_span_processor(SimpleSpanProcessor(exporter))
            ad = h_opentelemetry.OpenTelemetryTracer(tracer=tp.get_tracer("t"))
        else:
            ad = default.SlowDownYouMoveTooFast(0.0005, 0.0005)
        dr = make(rng, nodes, [ad], ex, mod)
        for rep in range(rng.choice([1, 2])):
            posts.clear()
            if exporter:
                exporter.clear()
            val, calls, stats, need, fail = expect(nodes, final, None)
            res, err = outcome(mod, dr, final)
            ctx.require((err is None) == (fail is None), f"{which}-outcome", f"with the adapter the run ends with {err}, without with {fail and fail.kind}", source=src)
            if err is None and fail is None:
                for f in final:
                    ctx.require(same(res[f], val[f]), f"{which}-value", f"{f} = {short(res[f])}, expected {short(val[f])}", source=src)
            called = collections.Counter(mod.CALLS)
            if which == "progress":
                ctx.observe("progress")
            elif which == "slow":
                ctx.observe("slowdown")
            elif which == "slack":
                if err is None:
                    ctx.require(not posts, "slack-noise", f"messages posted for a successful run: {short(posts)}", source=src)
                    ctx.observe("slack_quiet")
                else:
                    failing = re.findall(r"Error Executing Node: `([\w.]+)`", " ".join(t for _, t in posts))
                    ctx.require(posts and all(c == "#c" for c, _ in posts), "slack-missing", f"failing run posted {short(posts)}", source=src)
                    by = {x.name: x for x in nodes}
                    ctx.require(all(f in by and by[f].mode in ("stop", "substop", "boom", "odd_stop", "partial") for f in failing) and len(failing) == len(posts), "slack-node", f"posts name {failing}", source=src)
                    if not parallel:
                        ctx.require(len(failing) == 1 and f"{failing[0]} failed" in posts[0][1], "slack-once", f"posts name {failing}", source=src)
                    ctx.observe("slack_posts")
            else:
                spans = exporter.get_finished_spans()
                got = collections.Counter(s.name for s in spans)
                byn = {x.name: x for x in nodes}
                for n in byn:
                    extra = [s for s in spans if s.name == n and "node_version" in (s.attributes or {})]
                    ctx.require(len(extra) == called[n], "otel-nodes", f"{len(extra)} spans for {n}, executed {called[n]} times", source=src, spans=dict(got))
                    for s in extra:
                        if s.status.status_code.name == "ERROR":
                            ctx.observe("otel_error_spans")
                            ctx.require(err is not None and byn[n].mode in ("stop", "substop", "boom", "odd_stop", "partial"), "otel-status", f"span of {n} has status ERROR", source=src)
                        elif byn[n].mode in ("stop", "substop", "boom", "partial"):
                            ctx.violation("otel-status", f"span of failing node {n} has status {s.status.status_code.name}", source=src)
                    ctx.observe("otel_node_spans", len(extra))
                roots = [s for s in spans if "graph_version" in (s.attributes or {})]
                ctx.require(len(roots) == 1, "otel-root", f"{len(roots)} graph spans", source=src)
                for r in roots:
                    ctx.require((r.status.status_code.name == "ERROR") == (err is not None), "otel-root-status", f"graph span has status {r.status.status_code.name}, run ended with {err}", source=src)
                ctx.observe("otel_tasks", sum("nodes" in (s.attributes or {}) for s in spans))
                if ex in ("v1", "sync"):
                    ids = {s.context.span_id for s in spans}
                    rid = roots[0].context.span_id if roots else None
                    ctx.require(all(s.parent is not None and s.parent.span_id in ids for s in spans if s.context.span_id != rid), "otel-parents", "a span lies outside the run's span", source=src, spans=dict(got))
            if rep:
                ctx.observe("reused")
        ctx.sig(src, which, final)
    finally:
        for u in undo:
            u()
        unload(mod)


if __name__ == "__main__":
    check.main()
