"""P02: invalid dataflows / requests are rejected before any user function runs; valid ones are not."""
import collections
import collections.abc
import typing
from typing import *  # noqa: F401,F403

import vf
import vrt
from cmpv import same, short
from gen import (HEADER, REQ, evaluate, fresh_names, gen_dag, input_value, load_module,
                 required_inputs, unload)

check = vf.Check(
    "P02",
    rule="random dataflows, then one or several injected faults (missing / wrongly typed / clashing "
         "inputs, unknown outputs, duplicate or untyped functions, incompatible edges, parallel "
         "nodes without dynamic execution, cycles); oracle = independent rule for what must be "
         "rejected + recorder proving no user function ran. Valid neighbours of every fault are "
         "executed too and must be accepted. Distinct = (fault kinds, structure) signatures",
    required=["rejected_missing", "rejected_type", "rejected_unknown", "rejected_clash",
              "rejected_edge", "rejected_duplicate", "accepted", "edge_ok", "value_ok",
              "value_rejected", "cycles_found", "acyclic", "rejected_parallel",
              "tightest_decides"],
)


@check.setup
def setup_env():
    global driver, base, htypes
    from hamilton import base, driver, htypes
    globals().update(driver=driver, base=base, htypes=htypes)


def mk(mods, config=None, api="builder"):
    if api == "driver":
        return driver.Driver(config or {}, *mods,
                             adapter=base.SimplePythonGraphAdapter(base.DictResult()))
    b = driver.Builder().with_modules(*mods).with_config(config or {})
    if api == "v2":
        from hamilton.execution import executors
        b = b.enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(
            executors.SynchronousLocalTaskExecutor())
    return b.build()


WRONG = {"int": ["str", "list", "float"], "str": ["int", "list"], "float": ["str", "dict"],
         "bool": ["str", "list"], "list": ["int", "dict"], "dict": ["int", "list"]}


@check.family("requests", quick=5600, thorough=36000)
def f_requests(ctx):
    rng = ctx.rng
    dag = gen_dag(rng, n_inputs=rng.randrange(1, 5))
    config = {nm: input_value(rng, k) for nm, k in dag.inputs.items() if rng.random() < .2}
    api = rng.choice(["builder", "driver", "v2"])
    mods = dag.modules(rng)
    dr = mk(mods, config, api)
    for _ in range(3):
        final = rng.sample(list(dag.nodes), rng.randrange(1, min(4, len(dag.nodes)) + 1))
        overrides = {}
        if rng.random() < .3:
            nm = rng.choice(list(dag.nodes))
            overrides[nm] = vrt.shape(dag.nodes[nm].kind, 5)
        req, opt = required_inputs(dag, final, config, overrides)
        inputs = {nm: input_value(rng, dag.inputs[nm]) for nm in req}
        for nm in opt:
            if rng.random() < .5:
                inputs[nm] = input_value(rng, dag.inputs[nm])
        faults = []
        culprits = []
        if rng.random() < .75:
            for f in rng.sample(["missing", "type", "unknown", "clash", "foreign_fn"],
                                rng.choice([1, 1, 2])):
                if f == "missing" and req:
                    gone = rng.sample(sorted(req), rng.randrange(1, len(req) + 1))
                    for g in gone:
                        inputs.pop(g, None)
                    faults.append(f)
                    culprits += gone
                elif f == "type":
                    cands = [i for i in inputs if i in req or i in opt]
                    if cands:
                        bad = rng.choice(sorted(cands))
                        inputs[bad] = vrt.shape(rng.choice(WRONG[dag.inputs[bad]]), 12)
                        faults.append(f)
                        culprits.append(bad)
                elif f == "unknown":
                    final = final + ["no_such_node_" + str(rng.randrange(9))]
                    faults.append(f)
                    culprits.append(final[-1])
                elif f == "clash" and config:
                    k = rng.choice(sorted(config))
                    inputs[k] = config[k]
                    faults.append(f)
                    culprits.append(k)
                elif f == "foreign_fn":
                    final = final + [load_module]
                    faults.append(f)
                    culprits.append("load_module")
        vrt.reset()
        err = got = verr = None
        inp = inputs if inputs or rng.random() < .5 else None
        if rng.random() < .3:
            final = [getattr(mods[dag.nodes[f].mod], f) if f in dag.nodes and rng.random() < .5 else f
                     for f in final]
            ctx.observe("requested_by_function")
        fnames = [f if isinstance(f, str) else f.__name__ for f in final]
        # the same question asked without executing
        try:
            dr.validate_execution(final, inputs=inp, overrides=overrides)
        except Exception as e:  # noqa: BLE001
            verr = e
        try:
            got = dr.execute(final, inputs=inp, overrides=overrides)
        except Exception as e:  # noqa: BLE001
            err = e
        calls = vrt.calls()
        det = dict(source=dag.sources(), final=[str(f) for f in final], inputs=inputs,
                   overrides=overrides, config=config, faults=faults, err=repr(err),
                   validate_err=repr(verr), calls=calls)
        ctx.require((verr is None) == (err is None), "dry-run-disagrees",
                    f"validation said {verr!r}, execution said {err!r}", **det)
        if faults:
            ctx.require(err is not None, f"invalid-request-accepted:{faults[0]}",
                        f"faults {faults} ({culprits}) accepted, result {short(got)}", **det)
            ctx.require(not calls, "user-code-ran-before-rejection", f"{calls} ran", **det)
            if err is not None:
                ctx.require(isinstance(err, ValueError), "error-kind", repr(err), **det)
                ctx.require(any(c in str(err) for c in culprits), "error-does-not-name-culprit",
                            f"{culprits} not in {err}", **det)
                if set(faults) <= {"missing", "type"}:
                    miss = [c for c in culprits if c not in str(err)
                            and not (c in inputs and "type" not in faults)]
                    ctx.require(not miss, "error-omits-culprit", f"{miss} not in {err}", **det)
            for f in faults:
                ctx.observe(f"rejected_{f}")
            ctx.sig(tuple(sorted(faults)), dag.shape_sig(), api)
        else:
            if err is not None:
                ctx.violation("valid-request-rejected", repr(err), **det)
            else:
                exp = evaluate(dag, fnames, config, inputs, overrides)[0]
                ctx.require(same(dict(got), exp), "wrong-value", f"{short(got)} vs {short(exp)}", **det)
                ctx.observe("accepted")
                ctx.sig("ok", dag.shape_sig(), api)
    unload(*mods)


# ------------------------------------------------------------------ edge types
class A_: ...
class B_(A_): ...
class C_: ...


CLS = {"int": int, "str": str, "float": float, "bool": bool, "A_": A_, "B_": B_, "C_": C_,
       "list": list, "dict": dict, "bytes": bytes, "tuple": tuple, "set": set}
GEN = {"List[int]": (list, ("int",)), "List[str]": (list, ("str",)),
       "Dict[str, int]": (dict, ("str", "int")), "Dict[str, Any]": (dict, ("str", "Any")),
       "Dict[str, str]": (dict, ("str", "str")),
       "Set[int]": (set, ("int",)), "List[A_]": (list, ("A_",)), "List[List[int]]": (list, ("List[int]",)),
       "list[int]": (list, ("int",)), "list[str]": (list, ("str",)), "dict[str, int]": (dict, ("str", "int")),
       "Callable[[int], int]": (collections.abc.Callable, ("[int]", "int")),
       "Tuple[int, str]": (tuple, ("int", "str")), "Tuple[int, ...]": (tuple, ("int", "..."))}


def rtype(rng, depth=0):
    r = rng.random()
    if r < .45:
        return rng.choice(list(CLS))
    if r < .75:
        return rng.choice(list(GEN))
    if r < .8:
        return "Any"
    if depth:
        return rng.choice(list(CLS))
    k = rng.random()
    if k < .5:
        return f"Optional[{rtype(rng, 1)}]"
    a, b = rtype(rng, 1), rtype(rng, 1)
    return f"Union[{a}, {b}]"


def members(t):
    if t.startswith("Optional["):
        return [t[9:-1], "None"]
    if t.startswith("Union["):
        body, out, depth, cur = t[6:-1], [], 0, ""
        for ch in body:
            if ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
            depth += ch == "["
            depth -= ch == "]"
            cur += ch
        return out + [cur.strip()]
    return None


def ev(t):
    return eval(t, dict(typing.__dict__, A_=A_, B_=B_, C_=C_))


def edge_ok(prod, param):
    """True: must be accepted; False: must be rejected; None: unspecified."""
    if prod == "Any" or param == "Any":
        return True
    if ev(prod) == ev(param):
        return True
    pm, rm = members(param), members(prod)
    if pm is not None and "Any" in pm or rm is not None and "Any" in rm:
        return None
    if rm is not None:
        # a union produced: every member must fit for this to be sound; accepting it is
        # unspecified, but if one member fits nowhere it must be rejected
        each = [edge_ok(m, param) if m != "None" else (pm is not None and "None" in pm) for m in rm]
        return False if any(e is False for e in each) else None
    if pm is not None:
        each = [edge_ok(prod, m) for m in pm if m != "None"]
        if any(e is True for e in each):
            return True
        return False if all(e is False for e in each) else None
    if prod in CLS and param in CLS:
        return issubclass(CLS[prod], CLS[param])
    po = CLS.get(prod) or GEN[prod][0]
    qo = CLS.get(param) or GEN[param][0]
    if po is not qo and not issubclass(po, qo):
        return False
    if po is qo and (prod in CLS or param in CLS):
        return True            # bare container against a parametrised one
    if po is qo:
        a, b = GEN[prod][1], GEN[param][1]
        return True if a == b else (None if "Any" in a + b else False)
    return None


@check.family("edges", quick=7839, thorough=48000)
def f_edges(ctx):
    rng = ctx.rng
    p, q = rtype(rng), rtype(rng)
    if rng.random() < .3:
        q = p
    elif rng.random() < .35:
        q = f"Union[{p}, {rng.choice(['C_', 'bytes'])}]" if members(p) is None else q
    expect = edge_ok(p, q)
    where = rng.choice(["direct", "across_modules", "deep", "optional_param"])
    dflt = " = None" if where == "optional_param" else ""
    hdr = "from typing import *\nfrom vrt import log as _log\nfrom __main__ import A_, B_, C_\n"
    prod = f"def prod(x: int) -> {p}:\n    _log('call', 'prod')\n    return None\n"
    cons = f"def cons(prod: {q}{dflt}) -> int:\n    _log('call', 'cons')\n    return 5\n"
    more = "def more(cons: int) -> int:\n    _log('call', 'more')\n    return cons + 1\n"
    if where == "across_modules":
        srcs = [hdr + cons, hdr + prod + more]
        if rng.random() < .5:
            srcs.reverse()
    else:
        srcs = [hdr + cons + prod + (more if where == "deep" else "")]
    import sys
    sys.modules["__main__"].__dict__.update(A_=A_, B_=B_, C_=C_)
    vrt.reset()
    mods = [load_module(s) for s in srcs]
    api = rng.choice(["builder", "driver", "v2"])
    err = None
    try:
        dr = mk(mods, {}, api)
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.require(not vrt.calls(), "user-code-ran-at-build", str(vrt.calls()))
    if expect is True:
        ctx.observe("edge_ok")
        if ctx.require(err is None, "compatible-edge-rejected", f"{p} -> {q}: {err!r}", prod=p, param=q):
            got = dr.execute(["cons"], inputs=dict(x=1))
            ctx.require(got == {"cons": 5}, "wrong-value", str(got))
        ctx.sig("ok", p, q)
    elif expect is False:
        ctx.observe("rejected_edge")
        ctx.require(isinstance(err, ValueError), "incompatible-edge-accepted",
                    f"{p} -> {q} was accepted ({err!r})", prod=p, param=q)
        if err is not None:
            ctx.require("prod" in str(err), "error-does-not-name-culprit", str(err))
        # ... unless the user explicitly opts out of checking
        from hamilton.lifecycle.default import NoEdgeAndInputTypeChecking
        if rng.random() < .3:
            dr = driver.Builder().with_modules(*mods).with_adapters(NoEdgeAndInputTypeChecking()).build()
            ctx.require(dr.execute(["cons"], inputs=dict(x="not an int")) == {"cons": 5},
                        "opt-out-ignored", "NoEdgeAndInputTypeChecking still rejects")
            ctx.observe("optout")
        ctx.sig("bad", p, q)
    else:
        raise vf.Skip("unspecified")
    ctx.sample(dict(produced=p, param=q, expected=expect, error=repr(err)[:200]))
    unload(*mods)


# ------------------------------------------------------------------ input values
VALS = [0, 1, True, False, "", "abc", 1.5, float("inf"), [], [1, 2], ["a"], (), (1, "a"), {}, {"a": 1},
        {"a": "b"}, collections.OrderedDict(a=1), len, (2,), set(), {1, 2}, b"x", "A()", "B()", "C()", None]


def val_ok(t, v):
    """True accept / False reject / None unspecified.  Containers: origin decides; element types are
    only claimed when every element agrees."""
    if v is None or t == "Any":
        return True
    m = members(t)
    if m is not None:
        each = [val_ok(x, v) for x in m if x != "None"]
        return True if any(e is True for e in each) else (
            False if all(e is False for e in each) else None)
    if t in CLS:
        return isinstance(v, CLS[t])
    origin, args = GEN[t]
    if isinstance(v, origin):
        if origin is list and args[0] in CLS and v and not isinstance(v[0], CLS[args[0]]):
            return None
        return True
    if origin is set and hasattr(v, "__iter__"):
        return None
    if origin in (list, tuple) and isinstance(v, (list, tuple, str, bytes)):
        return None
    return False


@check.family("input_values", quick=5600, thorough=32000)
def f_inputs(ctx):
    rng = ctx.rng
    t = rtype(rng)
    v = rng.choice(VALS)
    v = {"A()": A_(), "B()": B_(), "C()": C_()}.get(v, v) if isinstance(v, str) else v
    expect = val_ok(t, v)
    if expect is None:
        raise vf.Skip("unspecified")
    import sys
    sys.modules["__main__"].__dict__.update(A_=A_, B_=B_, C_=C_)
    src = ("from typing import *\nfrom vrt import log as _log\nfrom __main__ import A_, B_, C_\n"
           f"def use(x: {t}) -> int:\n    _log('call', 'use', id(x))\n    return 3\n"
           "def unrelated(y: int) -> int:\n    return y\n")
    mod = load_module(src)
    vrt.reset()
    err = None
    via_config = rng.random() < .25
    api = rng.choice(["builder", "driver", "v2"])
    try:
        dr = mk([mod], {"x": v} if via_config else {}, api)
        got = dr.execute(["use"], inputs={} if via_config else {"x": v})
    except Exception as e:  # noqa: BLE001
        err = e
    if expect:
        ctx.observe("value_ok")
        ctx.require(err is None, "valid-input-rejected", f"{t} <- {v!r}: {err!r}")
        if err is None:
            ctx.require(got == {"use": 3} and vrt.EVENTS[0][2] == id(v), "input-not-passed-through",
                        f"{t} <- {v!r}")
    else:
        ctx.observe("value_rejected")
        ctx.require(isinstance(err, ValueError) and "x" in str(err), "invalid-input-accepted",
                    f"{t} <- {v!r} accepted ({err!r})")
        ctx.require(not vrt.calls(), "user-code-ran-before-rejection", "use ran")
    ctx.sig(t, type(v).__name__, short(v), via_config)
    ctx.sample(dict(declared=t, value=repr(v), expected=expect))
    unload(mod)


@check.family("shared_input", quick=1680, thorough=8000)
def f_shared_input(ctx):
    """Several functions ask for the same input: compatible demands are merged to the tighter one,
    incompatible ones are rejected at build, whatever the order of the functions."""
    rng = ctx.rng
    fits = [("int", "int", True), ("int", "Any", True), ("int", "Optional[int]", True),
            ("int", "Union[int, str]", True), ("str", "int", False), ("List[int]", "List[str]", False),
            ("A_", "C_", False), ("B_", "A_", True), ("dict", "list", False),
            ("Union[int, str]", "str", True), ("float", "str", False), ("bool", "int", True)]
    a, b, ok = rng.choice(fits)
    if rng.random() < .5:
        a, b = b, a
    n1, n2 = fresh_names(rng, 2)
    import sys
    sys.modules["__main__"].__dict__.update(A_=A_, B_=B_, C_=C_)
    hdr = "from typing import *\nfrom vrt import log as _log\nfrom __main__ import A_, B_, C_\n"
    f1 = f"def {n1}(q: {a}) -> int:\n    _log('call', '{n1}')\n    return 1\n"
    f2 = f"def {n2}(q: {b}) -> int:\n    _log('call', '{n2}')\n    return 2\n"
    srcs = [hdr + f1 + f2] if rng.random() < .5 else [hdr + f1, hdr + f2]
    mods = [load_module(s) for s in srcs]
    err = None
    try:
        dr = mk(mods)
    except Exception as e:  # noqa: BLE001
        err = e
    if ok:
        ctx.require(err is None, "compatible-inputs-rejected", f"{a} / {b}: {err!r}")
        ctx.observe("shared_ok")
        if err is None:
            # a value good for both is accepted; one bad for the tighter is rejected
            val = {"int": 3, "A_": B_(), "B_": B_(), "str": "s", "bool": True}
            tight = a if len(a) <= len(b) and a != "Any" else b
            tight = "B_" if {a, b} == {"A_", "B_"} else tight
            tight = "int" if "int" in (a, b) and "bool" not in (a, b) else tight
            tight = "bool" if "bool" in (a, b) else tight
            tight = "str" if "str" in (a, b) and tight != "int" else tight
            vrt.reset()
            got = dr.execute([n1, n2], inputs=dict(q=val[tight]))
            ctx.require(got == {n1: 1, n2: 2}, "wrong-value", str(got))
            bad = "Any" if "Any" in (a, b) else None
            try:
                dr.execute([n1, n2], inputs=dict(q=object()))
            except ValueError as e:
                bad = e
            ctx.require(bad is not None, "input-check-loosened",
                        f"an object() passed for an input declared {a} and {b}")
    else:
        ctx.require(isinstance(err, ValueError) and "q" in str(err), "incompatible-inputs-accepted",
                    f"{a} / {b} ({err!r})")
        ctx.observe("rejected_shared")
    ctx.sig(a, b, len(srcs), n1 < n2)
    unload(*mods)


@check.family("shared_input_many", quick=2100, thorough=9000)
def f_shared_many(ctx):
    """Any number of functions ask for one input.  Their demands form a chain from loose to tight (or one of
    them contradicts the rest): what is passed has to suit the tightest, in whatever order they are declared."""
    rng = ctx.rng
    # loose -> tight, and values: the i-th value suits the chain up to its i-th member only
    chains = [(["Union[int, str]", "int", "bool"], ["s", 3, True]),
              (["Union[A_, C_]", "A_", "B_"], ["C()", "A()", "B()"]),
              (["Union[str, float]", "str"], [1.5, "s"]),
              (["Optional[dict]", "dict"], [None, {}]),
              (["A_", "B_"], ["A()", "B()"])]
    chain, vals = rng.choice(chains)
    vals = [{"A()": A_(), "B()": B_(), "C()": C_()}.get(v, v) if isinstance(v, str) else v for v in vals]
    n = rng.randrange(2, 6)
    pos = [rng.randrange(len(chain)) for _ in range(n)]
    kinds = [chain[i] for i in pos]
    clash = rng.random() < .3
    if clash:
        j = rng.randrange(n)
        kinds[j] = "bytes"
        if all(k == "bytes" for k in kinds):
            raise vf.Skip("no contradiction")
    names = fresh_names(rng, n + 1)
    import sys
    sys.modules["__main__"].__dict__.update(A_=A_, B_=B_, C_=C_)
    hdr = "from typing import *\nfrom vrt import log as _log\nfrom __main__ import A_, B_, C_\n"
    fns = [f"def {names[i]}(q: {k}) -> int:\n    _log('call', '{names[i]}')\n    return {i}\n"
           for i, k in enumerate(kinds)]
    extra = f"def {names[n]}({names[0]}: int, q: {kinds[1]}) -> int:\n    _log('call', 'last')\n    return 99\n"
    if rng.random() < .5:
        fns.append(extra)
    rng.shuffle(fns)
    k = rng.randrange(1, len(fns) + 1) if rng.random() < .5 else len(fns)
    srcs = [hdr + "".join(fns[:k])] + ([hdr + "".join(fns[k:])] if k < len(fns) else [])
    mods = [load_module(x) for x in srcs]
    err, dr = None, None
    vrt.reset()
    try:
        dr = mk(mods, {}, rng.choice(["builder", "driver", "v2"]))
    except Exception as e:  # noqa: BLE001
        err = e
    det = dict(source=srcs)
    if clash:
        ctx.observe("rejected_shared")
        ctx.require(isinstance(err, ValueError) and "q" in str(err), "incompatible-inputs-accepted",
                    f"{kinds} ({err!r})", **det)
    elif ctx.require(err is None, "compatible-inputs-rejected", f"{kinds}: {err!r}", **det):
        ctx.observe("shared_ok")
        tight = max(pos)
        i = rng.randrange(len(vals))
        none = vals[i] is None      # None is accepted for every input
        try:
            got = dr.execute(names[:n], inputs=dict(q=vals[i]))
        except ValueError as e:
            err = e
        if i >= tight or none:
            ctx.require(err is None and got == {names[x]: x for x in range(n)}, "valid-input-rejected",
                        f"{vals[i]!r} for {kinds}: {err!r}", **det)
        else:
            ctx.observe("tightest_decides")
            ctx.require(err is not None, "input-check-loosened", f"{vals[i]!r} passed for {kinds}", **det)
            ctx.require(not vrt.calls(), "user-code-ran-before-rejection", str(vrt.calls()), **det)
    ctx.sig(tuple(kinds), k)
    unload(*mods)


@check.family("definitions", quick=1680, thorough=6000)
def f_definitions(ctx):
    rng = ctx.rng
    dag = gen_dag(rng, n_nodes=rng.randrange(2, 7), n_mods=1)
    src = dag.sources()[0]
    kind = rng.choice(["duplicate", "duplicate", "untyped_param", "untyped_return", "none"])
    victim = rng.choice(list(dag.nodes))
    srcs = [src]
    if kind == "duplicate":
        n = dag.nodes[victim]
        srcs.append(HEADER + f"def {victim}() -> {vrt.PYTYPE[n.kind]}:\n    _vrt.log('call', 'dup')\n    return None\n")
    elif kind == "untyped_param":
        srcs = [src + "\ndef zz_bad(q) -> int:\n    _vrt.log('call', 'bad')\n    return 1\n"]
    elif kind == "untyped_return":
        srcs = [src + "\ndef zz_bad(q: int):\n    _vrt.log('call', 'bad')\n    return 1\n"]
    rng.shuffle(srcs)
    mods = [load_module(s) for s in srcs]
    vrt.reset()
    err = None
    try:
        mk(mods, {}, rng.choice(["builder", "driver", "v2"]))
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.require(not vrt.calls(), "user-code-ran-at-build", str(vrt.calls()))
    if kind == "none":
        ctx.require(err is None, "valid-dataflow-rejected", repr(err), source=srcs)
        ctx.observe("accepted")
    else:
        ctx.require(err is not None, f"invalid-definition-accepted:{kind}", f"{kind} {victim}", source=srcs)
        ctx.observe(f"rejected_{kind}")
        if kind == "duplicate" and err is not None:
            ctx.require(isinstance(err, ValueError) and victim in str(err), "error-does-not-name-culprit",
                        repr(err))
    ctx.sig(kind, dag.shape_sig())
    unload(*mods)


@check.family("parallel_needs_dynamic", quick=448, thorough=1600)
def f_par(ctx):
    rng = ctx.rng
    src = ("from hamilton.htypes import Parallelizable, Collect\nfrom vrt import log as _log\n"
           "def src() -> int:\n    _log('call', 'src')\n    return 3\n"
           "def item(src: int) -> Parallelizable[int]:\n    _log('call', 'item')\n    yield from range(src)\n"
           "def sq(item: int) -> int:\n    _log('call', 'sq')\n    return item * item\n"
           "def total(sq: Collect[int]) -> int:\n    _log('call', 'total')\n    return sum(sq)\n"
           "def side(src: int) -> int:\n    _log('call', 'side')\n    return src + 1\n")
    mod = load_module(src)
    api = rng.choice(["builder", "driver"])
    dr = mk([mod], {}, api)
    vrt.reset()
    got = dr.execute(["side"])
    ctx.require(got == {"side": 4}, "valid-request-rejected", str(got))
    vrt.reset()
    err = verr = None
    final = rng.choice([["total"], ["sq"], ["side", "total"], ["item"]])
    try:
        dr.validate_execution(final)
    except Exception as e:  # noqa: BLE001
        verr = e
    try:
        dr.execute(final)
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.require(err is not None and verr is not None, "parallel-accepted-by-sequential-executor",
                f"{final}: {err!r}, dry run {verr!r}")
    ctx.require(not vrt.calls(), "user-code-ran-before-rejection", str(vrt.calls()))
    ctx.observe("rejected_parallel")
    ctx.sig(api, tuple(final))
    unload(mod)


@check.family("cycles", quick=1680, thorough=8000)
def f_cycles(ctx):
    rng = ctx.rng
    n = rng.randrange(2, 9)
    names = fresh_names(rng, n)
    deps = {nm: set(rng.sample(names[:i], min(i, rng.randrange(0, 3)))) for i, nm in enumerate(names)}
    back = rng.random() < .6
    if back:
        for _ in range(rng.randrange(1, 3)):
            a, b = rng.choice(names), rng.choice(names)
            deps[a].add(b)
    src = "".join(f"def {a}({', '.join(f'{d}: int' for d in sorted(ds))}) -> int:\n    return 1\n"
                  for a, ds in deps.items())
    mod = load_module(src)
    dr = mk([mod])
    for _ in range(3):
        final = rng.sample(names, rng.randrange(1, min(3, n) + 1))
        reach, st = set(), list(final)
        while st:
            x = st.pop()
            if x not in reach:
                reach.add(x)
                st += list(deps[x])

        def cyc(x, stack, done):
            if x in stack:
                return True
            if x in done:
                return False
            done.add(x)
            return any(cyc(d, stack | {x}, done) for d in deps[x])
        exp = any(cyc(x, frozenset(), set()) for x in reach)
        # a fresh `done` per root keeps the search exact
        exp = any(_on_cycle(deps, x) for x in reach)
        got = dr.has_cycles(final)
        ctx.require(bool(got) == exp, "cycle-report-wrong", f"{deps} {final}: {got} expected {exp}")
        ctx.observe("cycles_found" if exp else "acyclic")
        ctx.sig(exp, tuple(sorted((names.index(a), tuple(sorted(names.index(b) for b in ds)))
                                  for a, ds in deps.items())))
    unload(mod)


def _on_cycle(deps, x):
    st, seen = list(deps[x]), set()
    while st:
        y = st.pop()
        if y == x:
            return True
        if y not in seen:
            seen.add(y)
            st += list(deps[y])
    return False


if __name__ == "__main__":
    check.main()
