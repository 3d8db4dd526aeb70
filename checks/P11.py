"""P11: configuration and module order select exactly the implementations they name."""
import collections

import vf
import vrt
from cmpv import same, short
from gen import Dag, HEADER, N, REQ, RefError, evaluate, fresh_names, load_module, required_inputs, unload

check = vf.Check(
    "P11",
    rule="random modules whose nodes have several @config variants (when, when_not, when_in, when_not_in, resolver functions, stacked, renamed), "
         "built under several configs in turn and executed after all builds; random modules overriding one another. "
         "Oracle: boolean evaluation of the conditions + reference evaluation. Distinct = condition structure x config",
    required=["drivers", "variants_selected", "variants_rejected", "unset_keys", "none_left", "ambiguous", "config_value_wins", "stacked",
              "renamed", "overridden", "override_refused", "rebuilt_same_module", "delayed", "excluded"],
)
# values that differ but print, compare or hash almost alike are part of the domain
DOM = {"region": ["us", "uk", None, "None"], "mode": ["a", "b", "", "A"], "size": [0, 1, 2, "1", [1]],
       "flag": [True, False, "True"]}


@check.setup
def setup_env():
    from hamilton import driver
    globals().update(driver=driver)


def gen_cond(rng):
    """(source of the decorator argument list, predicate over config)"""
    op = rng.choice(["when", "when", "when_not", "when_in", "when_not_in", "custom"])
    keys = rng.sample(sorted(DOM), rng.choice([1, 1, 1, 2]))
    if op in ("when", "when_not"):
        kv = {k: rng.choice(DOM[k]) for k in keys}
        src = f"config.{op}(" + ", ".join(f"{k}={v!r}" for k, v in kv.items()) + "{name})"
        pred = (lambda c: all(c.get(k) == v for k, v in kv.items())) if op == "when" else \
            (lambda c: all(c.get(k) != v for k, v in kv.items()))
    elif op in ("when_in", "when_not_in"):
        kv = {k: rng.sample(DOM[k], rng.randrange(0, 3)) for k in keys}
        nm = "{name}" if op == "when_in" else ""
        src = f"config.{op}(" + ", ".join(f"{k}={v!r}" for k, v in kv.items()) + nm + ")"
        pred = (lambda c: all(c.get(k) in v for k, v in kv.items())) if op == "when_in" else \
            (lambda c: all(c.get(k) not in v for k, v in kv.items()))
    else:
        k = keys[0]
        v = rng.choice(DOM[k])
        src = f"config(lambda c: c.get({k!r}) == {v!r})"
        pred = lambda c: c.get(k) == v      # noqa: E731
    return src, pred, op


class Variant:
    def __init__(self, node, fname, conds, params, salt, target=None):
        self.node, self.fname, self.conds, self.params, self.salt, self.target = node, fname, conds, params, salt, target
        self.kind = "int"

    def active(self, cfg):
        return all(p(cfg) for _, p, _ in self.conds)

    def render(self):
        decs = ""
        for i, (src, _, op) in enumerate(self.conds):
            decs += "@" + src.replace("{name}", f", name={self.target!r}" if self.target and i == 0 else "") + "\n"
        ps = [f"{p}: Any" for p, d, _ in self.params if d == REQ] + [f"{p}: Any = {d!r}" for p, d, _ in self.params if d != REQ]
        kw = ", ".join(f"{p[0]!r}: {p[0]}" for p in self.params)
        return f"{decs}def {self.fname}({', '.join(ps)}) -> int:\n    return _H({self.node!r}, {self.salt}, 'int', {{{kw}}})\n"

    def as_n(self):
        return N(self.node, self.params, "int", self.salt)


def gen_variants(rng):
    names = fresh_names(rng, rng.choice([2, 3, 4, 6]))
    inputs = ["in1", "in2"]
    avail = list(inputs)
    out = []
    for nm in names:
        ops = rng.choice([0, 1, 2, 3])
        pool = avail + sorted(DOM)

        def params():
            ps = rng.sample(pool, min(len(pool), rng.randrange(0, 4)))
            return [(p, rng.choice([REQ, REQ, 5]), "Any") for p in ps]
        if ops == 0:
            out.append(Variant(nm, nm, [], params(), rng.randrange(1000)))
        else:
            style = rng.choice(["suffix", "suffix", "suffix2", "target"])
            for i in range(ops):
                conds = [gen_cond(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
                target = None
                fname = f"{nm}__{'abc'[i]}"
                if style == "suffix2":
                    fname = f"{nm}__{'abc'[i]}x__v{i}"      # only what follows the last __ is dropped
                elif style == "target" and conds[0][2] in ("when", "when_not", "when_in") and len(conds) == 1:
                    fname, target = f"fn_{nm}_{i}", nm
                node = nm if style != "suffix2" else f"{nm}__{'abc'[i]}x"
                out.append(Variant(node, fname, conds, params(), rng.randrange(1000), target))
        avail.append(nm)
    return out


@check.family("config", 7500, 50000)
def fam_config(ctx):
    rng = ctx.rng
    vrt.reset()
    variants = gen_variants(rng)
    excluded = rng.random() < .2
    order = variants[:]
    rng.shuffle(order)
    src = HEADER + "from hamilton.function_modifiers import config, hamilton_exclude\n" + "\n".join(v.render() for v in order)
    if excluded:
        src += "\n@hamilton_exclude\ndef not_a_node(q):\n    return q\n\ndef _private(zz: int) -> int:\n    return 1\n"
    mod = load_module(src)
    drivers = []
    nodes_all = {v.node for v in variants}
    for b in range(rng.choice([1, 2, 3])):
        cfg = {k: rng.choice(v) for k, v in DOM.items() if rng.random() < .7}
        if rng.random() < .2:
            cfg[rng.choice(sorted(nodes_all))] = rng.randrange(100)
        act = [v for v in variants if v.active(cfg)]
        by = collections.defaultdict(list)
        for v in act:
            by[v.node].append(v)
        amb = [n for n, vs in by.items() if len(vs) > 1 and n not in cfg]
        ctx.observe("variants_selected", len(act))
        ctx.observe("variants_rejected", len(variants) - len(act))
        ctx.observe("stacked", sum(len(v.conds) > 1 for v in act))
        ctx.observe("renamed", sum(v.target is not None for v in act))
        ctx.observe("unset_keys", len(DOM.keys() - cfg.keys()))
        ctx.observe("none_left", len(nodes_all - set(by)))
        ctx.observe("config_value_wins", sum(n in cfg for n in by))
        det = dict(source=src[-3000:], config=cfg)
        try:
            dr = driver.Builder().with_modules(mod).with_config(dict(cfg)).build()
            built = True
        except ValueError as e:
            built, err = False, e
        ctx.observe("drivers")
        if amb:
            ctx.observe("ambiguous")
            ctx.require(not built and any(a in str(err) for a in amb), "ambiguous-accepted",
                        lambda: f"several variants of {amb} apply but the driver was built" if built else f"unhelpful: {err}", **det)
            continue
        if not ctx.require(built, "valid-rejected", lambda: f"{err}", **det):
            continue
        dag = Dag()
        for v in act:
            if v.node not in cfg:
                dag.nodes[v.node] = v.as_n()
        drivers.append((dr, dag, cfg, det))
        names = {x.name for x in dr.list_available_variables() if not x.is_external_input}
        ctx.require(names == set(dag.nodes), "wrong-nodes", lambda: f"{names} expected {set(dag.nodes)}", **det)
        if excluded:
            ctx.observe("excluded")
            ctx.require("not_a_node" not in dr.graph.nodes and "zz" not in dr.graph.nodes, "excluded-included", "excluded function is in the graph")
        ctx.sig(repr(sorted(cfg.items(), key=str)), repr([(v.fname, [c[0] for c in v.conds]) for v in variants])[:500])
    if len(drivers) > 1:
        ctx.observe("rebuilt_same_module")
    rng.shuffle(drivers)
    for dr, dag, cfg, det in drivers:
        if not dag.nodes:
            continue
        final = rng.sample(list(dag.nodes), min(len(dag.nodes), rng.randrange(1, 4)))
        if cyclic(dag, cfg):
            continue
        req, opt = required_inputs(dag, final, cfg)
        inputs = {n: rng.randrange(100) for n in req} | {n: 7 for n in opt if rng.random() < .5}
        inputs = {k: v for k, v in inputs.items() if k not in cfg}
        exp, called, _ = evaluate(dag, final, cfg, inputs)
        vrt.EVENTS.clear()
        got = dr.execute(final, inputs=inputs)
        ctx.require(same(got, exp), "wrong-variant", lambda: f"{final}: {got} expected {exp}", inputs=inputs, **det)
        ctx.require(sorted(vrt.calls()) == sorted(called), "wrong-calls", lambda: f"{vrt.calls()} expected {called}", **det)
    ctx.sample(dict(source=src[-800:], configs=[d[2] for d in drivers]))
    unload(mod)


def cyclic(dag, cfg):
    state = {}

    def visit(n):
        if n not in dag.nodes or n in cfg or state.get(n) == 2:
            return False
        if state.get(n) == 1:
            return True
        state[n] = 1
        r = any(visit(p[0]) for p in dag.nodes[n].params)
        state[n] = 2
        return r
    return any(visit(n) for n in dag.nodes)


@check.family("overrides", 3000, 20000)
def fam_overrides(ctx):
    """Several modules defining the same names."""
    rng = ctx.rng
    vrt.reset()
    names = fresh_names(rng, rng.choice([2, 3, 5]))
    nmods = rng.choice([2, 2, 3])
    defs, srcs = [], []
    for m in range(nmods):
        d = {}
        for i, nm in enumerate(names):
            if rng.random() < .6:
                ps = [(p, REQ, "int") for p in rng.sample(names[:i] + ["in1"], rng.randrange(0, min(3, i + 2)))]
                d[nm] = N(nm, ps, "int", rng.randrange(1000))
        defs.append(d)
        ns = list(d.values())
        rng.shuffle(ns)
        srcs.append(HEADER + "\n".join(n.render() for n in ns))
    mods = [load_module(s) for s in srcs]
    clash = len(set().union(*defs)) < sum(map(len, defs))
    allow = rng.random() < .6
    dag = Dag()
    for d in defs:
        dag.nodes.update(d)
    how = rng.choice(["builder", "builder_split", "ctor"])
    det = dict(sources=srcs, how=how)
    try:
        if how == "ctor":
            from hamilton import base
            dr = driver.Driver({}, *mods, adapter=base.SimplePythonGraphAdapter(base.DictResult()), allow_module_overrides=allow)
        else:
            b = driver.Builder()
            b = b.with_modules(*mods) if how == "builder" else b.with_modules(mods[0]).with_modules(*mods[1:])
            if allow:
                b = b.allow_module_overrides()
                if rng.random() < .3:
                    b = b.copy()
            dr = b.build()
        ok = True
    except ValueError as e:
        ok, err = False, e
    if clash and not allow:
        ctx.observe("override_refused")
        ctx.require(not ok, "clash-accepted", "two modules define the same node and the driver was built", **det)
        unload(*mods)
        return
    if ctx.require(ok, "overrides-rejected", lambda: f"{err}", **det) and dag.nodes:
        if clash:
            ctx.observe("overridden")
        final = rng.sample(list(dag.nodes), rng.randrange(1, len(dag.nodes) + 1))
        inputs = {n: rng.randrange(50) for n in required_inputs(dag, final)[0]}
        exp, called, _ = evaluate(dag, final, {}, inputs)
        vrt.EVENTS.clear()
        got = dr.execute(final, inputs=inputs)
        ctx.require(same(got, exp), "wrong-override", lambda: f"{got} expected {exp}", **det)
        ctx.require(sorted(vrt.calls()) == sorted(called), "wrong-calls", lambda: f"{vrt.calls()} expected {called}", **det)
    ctx.sig(how, allow, repr(srcs)[:600])
    unload(*mods)


@check.family("delayed", 1000, 5000)
def fam_delayed(ctx):
    """@resolve builds the decorator from the config of the driver at hand."""
    rng = ctx.rng
    vrt.reset()
    style = rng.choice(["parameterize_values", "parameterize_sources", "inject", "extract", "default"])
    deco = {
        "parameterize_values": "lambda ks: parameterize(**{f'out_{k}': {'x': value(v)} for k, v in ks.items()})",
        "parameterize_sources": "lambda ks: parameterize(**{f'out_{k}': {'x': source(f'src_{v}')} for k, v in ks.items()})",
        "inject": "lambda ks: inject(x=group(*[source(f'src_{v}') for v in ks.values()]))",
        "extract": "lambda ks: extract_fields({f'out_{k}': int for k in ks})",
        "default": "lambda ks, dflt=3: parameterize(**{f'out_{k}': {'x': value(v + dflt)} for k, v in ks.items()})",
    }[style]
    body = {"extract": "def f(x: int) -> dict:\n    return {f'out_{k}': _H('f', i, 'int', {'x': x}) for i, k in enumerate('abc')}\n",
            "inject": "def f(x: List[int]) -> int:\n    return _H('f', 0, 'int', {'x': list(x)})\n"}.get(
        style, "def f(x: int) -> int:\n    return _H('f', 0, 'int', {'x': x})\n")
    src = (HEADER + "from hamilton.function_modifiers import *\n"
           "def src_0() -> int:\n    return 10\ndef src_1() -> int:\n    return 11\ndef src_2() -> int:\n    return 12\n"
           + rng.choice([f"@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with={deco})\n",
                         f"@resolve_from_config(decorate_with={deco})\n"]) + body)
    mod = load_module(src)
    built = []
    for _ in range(rng.choice([1, 2, 3])):
        ks = {k: rng.randrange(3) for k in rng.sample("abc", rng.randrange(1, 4))}
        cfg = {"hamilton.enable_power_user_mode": True, "ks": ks}
        if style == "default" and rng.random() < .5:
            cfg["dflt"] = rng.choice([8, 0])
        built.append((driver.Builder().with_modules(mod).with_config(cfg).build(), ks, cfg))
    rng.shuffle(built)
    for dr, ks, cfg in built:
        ctx.observe("delayed")
        val = lambda x, salt=0: vrt.value("f", salt, "int", {"x": x})      # noqa: E731
        inputs = {}
        if style == "inject":
            exp = {"f": val([10 + v for v in ks.values()])}
        elif style == "extract":
            inputs = {"x": 4}
            exp = {f"out_{k}": val(4, "abc".index(k)) for k in ks}
        else:
            off = {"parameterize_values": 0, "parameterize_sources": 10, "default": cfg.get("dflt", 3)}[style]
            exp = {f"out_{k}": val(v + off) for k, v in ks.items()}
        names = {x.name for x in dr.list_available_variables() if not x.is_external_input} - {"src_0", "src_1", "src_2"}
        want = set(exp) | ({"f"} if style == "extract" else set())
        ctx.require(names == want, "delayed-nodes", lambda: f"{style} {ks}: {names} expected {want}")
        got = dr.execute(list(exp), inputs=inputs)
        ctx.require(same(got, exp), "delayed-value", lambda: f"{style} {cfg}: {got} expected {exp}")
    try:
        driver.Builder().with_modules(mod).with_config({"hamilton.enable_power_user_mode": False, "ks": {"a": 1}}).build()
        ctx.violation("delayed-without-power-mode", "accepted")
    except Exception:   # noqa: BLE001
        ctx.observe("oracle_evaluations")
    ctx.sig(style, repr([b[1] for b in built]))
    unload(mod)


if __name__ == "__main__":
    check.main()
