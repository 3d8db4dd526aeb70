"""P22: with_columns appends exactly the selected computed columns."""
import collections

import vf
import vrt
from cmpv import short
from gen import fresh_names, load_module, unload

check = vf.Check(
    "P22",
    rule="random groups of column operations (columns, earlier operations, outer nodes, inputs and scalar helpers as "
         "parameters; config variants) x pandas / polars / polars lazy x columns_to_pass / on_input x select given or not x "
         "functions or modules x namespaces x several uses and several builds with different configs x executors; the "
         "frame the decorated function receives is compared column by column with plain integer evaluation. "
         "Distinct = library x mode x structure",
    assumptions=[],
    required=["pandas", "polars", "lazy", "columns_to_pass", "on_input", "select", "no_select", "overwritten", "config_variants",
              "rebuilt", "intermediate", "two_uses", "clash_refused", "taskbased", "pruned_ops", "outer_node", "scalar_helper"],
)


@check.setup
def setup_env():
    import pandas as pd
    import polars as pl

    from hamilton import driver
    from hamilton.plugins import h_pandas, h_polars, h_polars_lazyframe
    globals().update(pd=pd, pl=pl, driver=driver, h_pandas=h_pandas, h_polars=h_polars, h_polars_lazyframe=h_polars_lazyframe)


LIB = dict(
    pandas=dict(mod="hamilton.plugins.h_pandas", df="pd.DataFrame", col="pd.Series", get="{d}[{c!r}]"),
    polars=dict(mod="hamilton.plugins.h_polars", df="pl.DataFrame", col="pl.Series", get="{d}[{c!r}]"),
    lazy=dict(mod="hamilton.plugins.h_polars_lazyframe", df="pl.LazyFrame", col="pl.Expr", get="pl.col({c!r})"),
)
HEAD = ("from typing import *\nimport pandas as pd\nimport polars as pl\nimport vrt as _vrt\n"
        "from hamilton.function_modifiers import config\n")


CFG = dict(x="x", y="y")


class Op:
    def __init__(self, name, params, base, kind, variant=None, flt=False, flip=False):
        self.name, self.params, self.base, self.kind, self.variant, self.flt, self.flip = name, params, base, kind, variant, flt, flip

    def render(self, lib):
        L = LIB[lib]
        ps, expr = [], [str(self.base)]
        for p, how, w in self.params:
            if how == "frame":
                if f"{p[0]}: {L['df']}" not in ps:
                    ps.append(f"{p[0]}: {L['df']}")
                expr.append(f"{L['get'].format(d=p[0], c=p[1])} * {w}")
            else:
                ps.append(f"{p}: {L['col'] if how == 'col' else 'int'}")
                expr.append(f"{p} * {w}")
        nm, dec = self.name, ""
        if self.variant is not None:
            nm, dec = f"{self.name}__{self.variant}", f"@config.when(mode={CFG[self.variant]!r})\n"
        rt = L["col"] if self.kind == "col" else "int"
        return f"{dec}def {nm}({', '.join(ps)}) -> {rt}:\n    _vrt.log('call', {self.name!r})\n    return (({' + '.join(expr)}){' * 1.0' if self.flt else ''}){self.flip and lib == 'pandas' and '.iloc[::-1]' or ''}\n"


def gen_case(rng, lib, mode, cols, dfname, outer, helpers=True):
    """Operations in dependency order; each name may have one Op per config variant."""
    ops = []
    passed = rng.sample(cols, rng.randrange(1, len(cols) + 1)) if mode == "columns_to_pass" else []
    taken = set(cols) | {dfname} | set(outer)
    names = fresh_names(rng, rng.randrange(1, 6), taken)
    if rng.random() < .35:      # overwrite a column of the frame
        free = cols if mode == "on_input" else [c for c in cols if c not in passed]
        if free:
            names[rng.randrange(len(names))] = rng.choice(free)
    for nm in names:
        variants = ["x", "y"] if rng.random() < .25 else (["x"] if rng.random() < .12 else [None])
        kind = "int" if helpers and rng.random() < .15 else "col"
        for v in variants:
            params, used = [], set()

            def take(p, how):
                key = p if isinstance(p, str) else p[0]
                if key not in used or how == "frame":
                    used.add(key)
                    params.append((p, how, rng.randrange(1, 9)))
            prev = [o for o in ops if o.variant is None and o.name != nm]
            if kind == "col":
                srcs = [("col", c) for c in passed] + [("col", o.name) for o in prev if o.kind == "col"]
                if mode == "on_input":
                    srcs += [("frame", (dfname, c)) for c in cols] * 2
                pick = rng.sample(srcs, min(len(srcs), rng.randrange(1, 4)))
                for how, p in pick:
                    if how == "frame" and p[0] in used:
                        params.append((p, how, rng.randrange(1, 9)))
                    else:
                        take(p, how)
            for o in [o for o in prev if o.kind == "int"] + list(outer):
                if rng.random() < .3:
                    take(o if isinstance(o, str) else o.name, "int")
            if kind == "col" and not any(h in ("col", "frame") for _, h, _ in params):
                continue
            ops.append(Op(nm, params, rng.randrange(-9, 9), kind, v, kind == "col" and rng.random() < .2, kind == "col" and rng.random() < .2))
    return ops, passed


def live(ops, mode_cfg):
    return [o for o in ops if o.variant is None or o.variant == mode_cfg]


def reference(ops, frame, n, outer_vals):
    """Plain evaluation; returns {op: list or int}."""
    val = {}

    def get(p, how):
        if how == "frame":
            return frame[p[1]]
        if p in val:
            return val[p]
        if p in outer_vals:
            return outer_vals[p]
        return frame[p]
    for o in ops:
        acc = [o.base] * n if o.kind == "col" else o.base
        for p, how, w in o.params:
            x = get(p, how)
            if isinstance(acc, list):
                acc = [a + (b if isinstance(x, list) else x) * w for a, b in zip(acc, x if isinstance(x, list) else [0] * n)]
            else:
                acc += x * w
        val[o.name] = acc
    return val


def needed(ops, select):
    by = {o.name: o for o in ops}
    out, todo = set(), list(select)
    while todo:
        x = todo.pop()
        if x in out or x not in by:
            continue
        out.add(x)
        todo += [p for p, how, _ in by[x].params if how != "frame"]
    return out


def as_columns(lib, df):
    if lib == "pandas":
        return {c: [int(x) for x in df[c].tolist()] for c in df.columns}, list(df.index)
    if lib == "lazy":
        df = df.collect()
    return {c: df[c].to_list() for c in df.columns}, None


def make_frame(rng, lib, cols, n):
    data = {c: [rng.randrange(-99, 99) for _ in range(n)] for c in cols}
    if lib == "pandas":
        idx = rng.choice([None, [f"r{i}" for i in range(n)], list(range(10, 10 + n))])
        return data, pd.DataFrame(data, index=idx), None if idx is None else idx
    return data, (pl.DataFrame(data) if lib == "polars" else pl.LazyFrame(data)), None


@check.family("columns", quick=5200, thorough=26000)
def f_columns(ctx):
    rng = ctx.rng
    CFG["x"], CFG["y"] = rng.choice([("x", "y"), ("x", "y"), (0, 1), (False, True), ("", "y"), (None, "y")])
    lib = rng.choice(["pandas", "polars", "lazy"])
    mode = rng.choice(["columns_to_pass", "on_input"])
    L = LIB[lib]
    cols = rng.sample(["a", "b", "c", "dd", "total"], rng.randrange(1, 5))
    n = rng.choice([1, 2, 3])
    outer = rng.sample(["scale", "shift", "outer_node"], rng.randrange(0, 3))
    dfname = "initial_df"
    ops, passed = gen_case(rng, lib, mode, cols, dfname, outer)
    if not any(o.kind == "col" for o in ops):
        raise vf.Skip()
    # every op must be well defined under both configs, and at least one column op be live
    def consistent(m):
        lv = live(ops, m)
        names = {o.name for o in lv}
        if len({o.name for o in ops if o.kind == "int"} & {o.name for o in ops if o.kind == "col"}):
            return False
        return all(p in names or p in cols or p in outer for o in lv for p, how, _ in o.params if how != "frame") and \
            any(o.kind == "col" for o in lv)
    modes = [m for m in ("x", "y") if consistent(m)]
    if not modes:
        raise vf.Skip()
    sure = [o.name for o in ops if o.variant is None or {q.variant for q in ops if q.name == o.name} >= set(modes)]
    select = None
    if rng.random() < .6:
        cand = sorted({x for x in sure if any(o.name == x and o.kind == "col" for o in ops)})
        if cand:
            select = rng.sample(cand, rng.randrange(1, len(cand) + 1))
    uses = 2 if rng.random() < .3 else 1
    opsrc = "\n".join(o.render(lib) for o in ops)
    as_module = rng.random() < .6
    opmod = load_module(HEAD + opsrc)
    fnames = ["final_df", "second_df"][:uses]
    body = [HEAD, f"from {L['mod']} import with_columns\nimport {opmod.__name__} as _ops\n"]
    split = rng.random() < .3
    nss = {}
    first = rng.random() < .6 or mode == "columns_to_pass"
    for f in fnames:
        ns = rng.choice([None, None, f"ns_{f}"])
        nss[f] = ns or f
        loads = "_ops" if as_module else ", ".join(f"_ops.{o.name if o.variant is None else o.name + '__' + o.variant}" for o in ops)
        kw = [f"columns_to_pass={passed!r}" if mode == "columns_to_pass" else f"on_input={dfname!r}"]
        if select is not None:
            kw.append(f"select={select!r}")
        if ns:
            kw.append(f"namespace={ns!r}")
        ps = [f"{dfname}: {L['df']}"]
        if rng.random() < .5:
            ps.insert(0 if not first else 1, "extra: int")
        body.append(f"@with_columns({loads}, {', '.join(kw)})\ndef {f}({', '.join(ps)}) -> {L['df']}:\n"
                    f"    _vrt.log('call', {f!r})\n    return {dfname}\n")
    if "outer_node" in outer:
        body.append("def outer_node(extra: int) -> int:\n    return extra * 3\n")
    src = "\n".join(body)
    data, df, idx = make_frame(rng, lib, cols, n)
    mod = load_module(src)
    det = dict(lib=lib, mode=mode, ops=opsrc, source=src, data=data)
    order = rng.sample(modes, len(modes)) * (2 if rng.random() < .3 else 1)
    if len(order) > 1:
        ctx.observe("rebuilt")
    for m in order:
        b = driver.Builder().with_modules(mod).with_config({"mode": CFG[m]})
        if rng.random() < .25:
            b = b.enable_dynamic_execution(allow_experimental_mode=True)
            ctx.observe("taskbased")
        dr = b.build()
        lv = live(ops, m)
        for r in range(2 if rng.random() < .3 else 1):
            extra = rng.randrange(1, 20)
            inputs = {dfname: df, "extra": extra, **{o: rng.randrange(1, 50) for o in outer if o != "outer_node"}}
            ov = {o: inputs[o] for o in outer if o != "outer_node"}
            ov["outer_node"] = extra * 3
            ref = reference(lv, data, n, ov)
            sel = select if select is not None else [o.name for o in lv if o.kind == "col"]
            want = dict(data)
            for s in sel:
                want[s] = ref[s]
            final = rng.sample(fnames, rng.randrange(1, uses + 1))
            need = needed(lv, sel)
            inter = [x for x in need] if rng.random() < .4 else []
            req = list(final) + [f"{nss[final[0]]}.{x}" for x in inter]
            vrt.reset()
            ins = {k: v for k, v in inputs.items() if k in ("extra", dfname) or k in outer}
            out = dr.execute(req, inputs=ins)
            d2 = dict(det, config=m, request=req, inputs={k: v for k, v in ins.items() if k != dfname})
            calls = collections.Counter(vrt.calls())
            for f in final:
                got, gi = as_columns(lib, out[f])
                ctx.require(got == want, "columns", f"{f}: received {short(got, 400)} instead of {short(want, 400)}", **d2)
                ctx.require(list(got)[:len(data)] == list(data), "column-order", f"{list(got)} from {list(data)}", **d2)
                ctx.require(set(list(got)[len(data):]) == set(want) - set(data), "appended", f"{list(got)}", **d2)
                if idx is not None:
                    ctx.require(gi == idx, "index-changed", f"{gi}", **d2)
                ctx.require(calls[f] == 1, "function-calls", f"{f} called {calls[f]} times", **d2)
            for o in lv:
                exp = len(final) if o.name in need else 0
                ctx.require(calls[o.name] == exp, "op-calls", f"{o.name} called {calls[o.name]} times, expected {exp}", **d2)
            if lib != "lazy":
                for x in inter:
                    v = out[f"{nss[final[0]]}.{x}"]
                    if lib == "pandas" and hasattr(v, "loc"):
                        v = v.loc[df.index]
                    v = v.tolist() if lib == "pandas" and hasattr(v, "tolist") else (v.to_list() if hasattr(v, "to_list") else v)
                    ctx.require(v == ref[x], "intermediate", f"{x}: {v} instead of {ref[x]}", **d2)
                    ctx.observe("intermediate")
            now, _ = as_columns(lib, df)
            ctx.require(now == data, "input-frame-modified", f"{short(now)} from {short(data)}", **d2)
            ctx.observe(lib)
            ctx.observe(mode)
            ctx.observe("select" if select is not None else "no_select")
            if set(sel) & set(data):
                ctx.observe("overwritten")
            if any(o.variant for o in ops):
                ctx.observe("config_variants")
            if len(need) < len(lv):
                ctx.observe("pruned_ops")
            if uses == 2:
                ctx.observe("two_uses")
            if outer:
                ctx.observe("outer_node")
            if any(o.kind == "int" for o in lv):
                ctx.observe("scalar_helper")
    ctx.sig(lib, mode, select is None, uses, tuple((o.name in data, o.kind, o.variant, tuple(h for _, h, _ in o.params)) for o in ops))
    ctx.sample(dict(source=src, ops=opsrc))
    unload(mod, opmod)


@check.family("clash", quick=300, thorough=900)
def f_clash(ctx):
    """A function named like a column that was passed would shadow it: refused when building."""
    rng = ctx.rng
    lib = rng.choice(list(LIB))
    L = LIB[lib]
    src = (HEAD + f"from {L['mod']} import with_columns\n"
           f"def a(b: {L['col']}) -> {L['col']}:\n    return b\n"
           f"def q(a: {L['col']}) -> {L['col']}:\n    return a\n")
    ops = load_module(src)
    bad = rng.choice(["clash", "unknown"])
    main = HEAD + f"from {L['mod']} import with_columns\nimport {ops.__name__} as _ops\n"
    if bad == "clash":
        main += "@with_columns(_ops.a, _ops.q, columns_to_pass=['a', 'b'], select=['q'])\n"
    else:
        main += "@with_columns(_ops.q, columns_to_pass=['a'], select=['nope'])\n"
    main += f"def final_df(df: {L['df']}) -> {L['df']}:\n    return df\n"
    err = None
    mod = None
    try:
        mod = load_module(main)
        driver.Builder().with_modules(mod).build()
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.require(err is not None, f"{bad}-accepted", "building succeeded", source=main, ops=src)
    ctx.observe("clash_refused")
    ctx.sig(lib, bad)
    unload(ops, *([mod] if mod else []))


if __name__ == "__main__":
    check.main()
