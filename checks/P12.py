"""P12: expanding decorators create exactly the nodes they describe, each computing the function on what it names."""
import refg
import vf
import vrt
from cmpv import same
from gen import HEADER, MISSING, fresh_names, load_module, unload
from refg import Ref

check = vf.Check(
    "P12",
    rule="random functions under @parameterize / @parameterize_values / @parameterize_sources / @inject (source, value, group lists and dicts, "
         "swapped parameter names, optional sources), @extract_columns / @extract_fields / @parameterize_extract_columns (pandas, polars, lazy, fill_with, "
         "missing columns), @does with argument mappings; sync, task-based and async drivers. Oracle: expansion written down independently "
         "(names, dependencies, docs, values, function calls). Distinct = decorator structure x request",
    required=["drivers", "nodes_checked", "parameterize", "parameterize_values", "parameterize_sources", "inject", "group_list", "group_dict",
              "swapped", "optional_absent", "columns", "fields", "filled", "missing_column", "param_extract", "does_mapped", "mode_v1", "mode_v2",
              "mode_async", "async_functions", "overridden_expanded", "docs", "optional_none"],
)
IMP = HEADER + "import polars as pl\nfrom hamilton.function_modifiers import *\nfrom hamilton.htypes import *\n"


@check.setup
def setup_env():
    import pandas as pd
    import polars as pl
    globals().update(pd=pd, pl=pl)


def literal(rng):
    return rng.choice([0, 1, -3, 17, "a", "", None, True, 2.5, [1, 2], {"k": 3}, (1, "z"), []])


def bases(rng, refs):
    """A few plain nodes and inputs the decorated function may use."""
    names = fresh_names(rng, 4)
    src = ""
    for nm in names[:2]:
        salt = rng.randrange(1000)
        src += f"def {nm}(in0: Any) -> Any:\n    return _H({nm!r}, {salt}, 'int', {{'in0': in0}})\n\n"
        refs[nm] = Ref(["in0"], lambda kw, nm=nm, salt=salt: vrt.value(nm, salt, "int", kw), [nm])
    return src, names[:2], names[2:] + ["in1"]        # source text, nodes, externals


def execute(ctx, mode, mod, refs, det, p_over=.2):
    rng = ctx.rng
    dr = refg.build(mode, [mod])
    ctx.observe("drivers")
    ctx.observe("mode_" + mode)
    refg.check_graph(ctx, dr, refs, det)
    ctx.observe("nodes_checked", len(refs))
    for _ in range(rng.choice([1, 2])):
        final = rng.sample(sorted(refs), rng.randrange(1, min(len(refs), 6) + 1))
        overrides = {}
        if rng.random() < p_over:
            o = rng.choice(sorted(refs))
            overrides[o] = 4242
            ctx.observe("overridden_expanded")
        req, opt = refg.externals(refs, final, overrides)
        given = lambda: rng.choice([rng.randrange(100), rng.randrange(100), rng.randrange(100), None, 0, ""])     # noqa: E731
        inputs = {r: given() for r in req}
        for o in opt:
            if rng.random() < .5:
                inputs[o] = given()
                ctx.observe("optional_none", int(inputs[o] is None))
            else:
                ctx.observe("optional_absent")
        refg.check_run(ctx, mode, dr, refs, final, inputs, overrides, same, det)
    return dr


@check.family("parameterize", 6250, 40000)
def fam_param(ctx):
    rng = ctx.rng
    vrt.reset()
    refs = {}
    src, nodes, ext = bases(rng, refs)
    avail = nodes + ext
    params = fresh_names(rng, rng.choice([1, 2, 3, 4]), avail + ["output_name"])
    if rng.random() < .3:       # a parameter that is itself the name of something else in the graph
        params[0] = rng.choice([a for a in avail if a not in params])
    mode = rng.choice(refg.MODES)
    is_async = False        # documented: @parameterize et al. do not work on async functions (extract_* do)
    kind = rng.choice(["parameterize"] * 4 + ["parameterize_values", "parameterize_sources", "inject", "inject"])
    ctx.observe(kind)
    # shape of every parameter: plain or group container
    shapes = {p: rng.choice(["plain", "plain", "list", "dict"]) if kind in ("parameterize", "inject") else "plain" for p in params}
    defaults = {p: rng.choice([3, None, "d"]) for p in params if rng.random() < .25 and shapes[p] == "plain"}
    params.sort(key=lambda p: p in defaults)
    fname = fresh_names(rng, 1, avail + params)[0]
    outs = [fname] if kind == "inject" else fresh_names(rng, rng.choice([1, 2, 3]), avail + params + [fname])
    use_doc = rng.random() < .4 and kind != "inject"
    tagged = rng.random() < .2
    specs, docs = {}, {}
    for o in outs:
        m = {}
        for p in params:
            if shapes[p] == "list":
                m[p] = ("list", [dep(rng, avail) for _ in range(rng.randrange(1, 4))])
            elif shapes[p] == "dict":
                m[p] = ("dict", {f"g{i}": dep(rng, avail) for i in range(rng.randrange(1, 4))})
            elif rng.random() < .7 or kind == "parameterize_sources":
                m[p] = dep(rng, avail)
        if kind == "parameterize_values":
            m = {params[0]: ("value", literal(rng))}
        if kind == "parameterize_sources":
            keep = rng.sample(params, rng.randrange(1, len(params) + 1))
            m = {p: ("source", rng.choice(avail)) for p in keep}
        if kind == "parameterize" and len(params) >= 2 and rng.random() < .3 and not any(shapes[p] != "plain" for p in params[:2]):
            m[params[0]], m[params[1]] = ("source", params[1]), ("source", params[0])
            ctx.observe("swapped")
        specs[o] = m
    if not all(well_formed(m, params, defaults) for m in specs.values()):
        raise vf.Skip("one source for parameters of different optionality (documented as undefined)")
    # decorator text
    def d2s(d):
        return f"{d[0]}({d[1]!r})" if d[0] in ("value", "source") else (
            "group(" + (", ".join(map(d2s, d[1])) if d[0] == "list" else ", ".join(f"{k}={d2s(v)}" for k, v in d[1].items())) + ")")
    if kind == "parameterize":
        items = []
        for o, m in specs.items():
            body = "{" + ", ".join(f"{p!r}: {d2s(d)}" for p, d in m.items()) + "}"
            if use_doc and rng.random() < .5:
                docs[o] = f"doc of {o}"
                body = f"({body}, {docs[o]!r})"
            items.append(f"{o}={body}")
        deco = "@parameterize(" + ", ".join(items) + ")"
    elif kind == "parameterize_values":
        for o in outs:
            docs[o] = f"doc of {o}"
        deco = f"@parameterize_values(parameter={params[0]!r}, assigned_output={{" + ", ".join(
            f"({o!r}, {docs[o]!r}): {specs[o][params[0]][1]!r}" for o in outs) + "})"
    elif kind == "parameterize_sources":
        deco = "@parameterize_sources(" + ", ".join(f"{o}=dict(" + ", ".join(f"{p}={d[1]!r}" for p, d in m.items()) + ")" for o, m in specs.items()) + ")"
    else:
        deco = "@inject(" + ", ".join(f"{p}={d2s(d)}" for p, d in specs[fname].items()) + ")"
        if not specs[fname]:
            raise vf.Skip("nothing injected")
    salt = rng.randrange(1000)
    ann = {"plain": "Any", "list": "List[Any]", "dict": "Dict[str, Any]"}
    sig = ", ".join(f"{p}: {ann[shapes[p]]}" + (f" = {defaults[p]!r}" if p in defaults else "") for p in params)
    tmpl = f"    \"\"\"{{output_name}} from {{{params[0]}}}.\"\"\"\n" if use_doc else ""
    a = "async " if is_async else ""
    w = f"    await _vrt.AH({fname!r})\n" if is_async else ""
    decs = [deco] + (["@tag(owner='me')"] if tagged else [])
    rng.shuffle(decs)
    src += "\n".join(decs) + f"\n{a}def {fname}({sig}) -> Any:\n{tmpl}{w}    return _H({fname!r}, {salt}, 'int', {{{', '.join(f'{p!r}: {p}' for p in params)}}})\n"
    if is_async:
        ctx.observe("async_functions")
    for o, m in specs.items():
        deps = {}
        for p in params:
            d = m.get(p, ("source", p))
            if d[0] == "source":
                deps[d[1]] = deps.get(d[1], True) and p in defaults
            elif d[0] in ("list", "dict"):
                ctx.observe("group_" + d[0])
                for x in (d[1] if d[0] == "list" else d[1].values()):
                    if x[0] == "source":
                        deps[x[1]] = False

        def fn(kw, m=m):
            new = {}
            for p in params:
                d = m.get(p, ("source", p))
                r = lambda x: x[1] if x[0] == "value" else kw[x[1]]      # noqa: E731
                if d[0] == "list":
                    new[p] = [r(x) for x in d[1]]
                elif d[0] == "dict":
                    new[p] = {k: r(x) for k, x in d[1].items()}
                elif d[0] == "source" and d[1] not in kw:
                    new[p] = defaults[p]
                else:
                    new[p] = r(d)
            return vrt.value(fname, salt, "int", new)
        doc = docs.get(o)
        if doc is None and use_doc:
            d = m.get(params[0])
            # a template may name the parameter's source or literal; groups and untouched parameters keep their name
            doc = f"{o} from {d[1] if d and d[0] in ('source', 'value') else params[0]}."
        if doc:
            ctx.observe("docs")
        refs[o] = Ref(deps, fn, [fname], doc=doc, tags={"owner": "me"} if tagged else None)
    mod = load_module(IMP + src)
    execute(ctx, mode, mod, refs, dict(source=src, mode=mode))
    ctx.sig(kind, mode, repr(specs), repr(defaults))
    ctx.sample(dict(source=src))
    unload(mod)


def dep(rng, avail):
    return ("value", literal(rng)) if rng.random() < .4 else ("source", rng.choice(avail))


def well_formed(m, params, defaults):
    """inject's docs leave one name used for several parameters undefined; allowed here when all uses agree on optionality."""
    uses = {}
    for p in params:
        d = m.get(p, ("source", p))
        for x in ([d] if d[0] in ("source", "value") else d[1] if d[0] == "list" else d[1].values()):
            if x[0] == "source":
                uses.setdefault(x[1], set()).add(p in defaults)
    return all(len(v) == 1 for v in uses.values())


@check.family("columns", 3750, 20000)
def fam_columns(ctx):
    rng = ctx.rng
    vrt.reset()
    refs = {}
    src, nodes, ext = bases(rng, refs)
    lib = rng.choice(["pd", "pd", "pl", "lazy"])
    mode = rng.choice(refg.MODES)
    is_async = mode == "async" and rng.random() < .5
    cols = fresh_names(rng, rng.choice([1, 2, 4]), nodes + ext)
    present = [c for c in cols if rng.random() < .8] + ["extra_col"]
    fill = rng.choice([None, None, 0, -1, 2.5, "x"])
    rows = rng.choice([0, 1, 3])
    fname = fresh_names(rng, 1, nodes + ext + cols)[0]
    dep_ = rng.choice(nodes + ext)
    withdoc = {c: f"about {c}" for c in cols if rng.random() < .3}
    text = {"pd": "pd.DataFrame", "pl": "pl.DataFrame", "lazy": "pl.LazyFrame"}[lib]
    args = ", ".join(repr((c, withdoc[c]) if c in withdoc else c) for c in cols) + (f", fill_with={fill!r}" if fill is not None else "")
    salt = rng.randrange(1000)
    a = "async " if is_async else ""
    w = f"    await _vrt.AH({fname!r})\n" if is_async else ""
    if is_async:
        ctx.observe("async_functions")
    src += (f"@extract_columns({args})\n{a}def {fname}({dep_}: Any) -> {text}:\n    \"\"\"Frame.\"\"\"\n{w}"
            f"    v = _H({fname!r}, {salt}, 'int', {{{dep_!r}: {dep_}}})\n"
            f"    return {text}({{c: [v % (7 + i + j) for j in range({rows})] for i, c in enumerate({present!r})}}"
            + (f", schema={{c: pl.Int64 for c in {present!r}}})\n" if lib != "pd" else ", dtype='int64')\n"))

    def frame(kw):
        v = vrt.value(fname, salt, "int", kw)
        data = {c: [v % (7 + i + j) for j in range(rows)] for i, c in enumerate(present)}
        for c in cols:
            if c not in present and fill is not None:
                data[c] = [fill] * rows
        if lib == "pd":
            df = pd.DataFrame({c: data[c] for c in present}, dtype="int64")
            for c in cols:
                if c not in present and fill is not None:
                    df[c] = fill
            return df
        ty = {int: pl.Int64, float: pl.Float64, str: pl.String}
        df = pl.DataFrame(data, schema={c: pl.Int64 if c in present else ty[type(fill)] for c in data})
        return df.lazy() if lib == "lazy" else df
    refs[fname] = Ref([dep_], frame, [fname], doc="Frame.")
    for c in cols:
        def col(kw, c=c):
            df = kw[fname]
            if isinstance(df, int):
                raise TypeError("overridden frame")
            if lib == "lazy":
                if c not in df.collect_schema().names():
                    raise KeyError(c)
                return df.collect()[c]
            if c not in df.columns:
                raise KeyError(c)
            return df[c]
        refs[c] = Ref([fname], col, [], doc=withdoc.get(c, "Frame."))
        ctx.observe("filled" if c not in present and fill is not None else "missing_column" if c not in present else "columns")

    def same_lazy(x, y):
        """an extracted column of a lazy frame is a one-column lazy expression: compare what it evaluates to"""
        if isinstance(x, dict):
            return x.keys() == y.keys() and all(same_lazy(x[k], y[k]) for k in x)
        if isinstance(x, pl.LazyFrame):
            x = x.collect()
        if isinstance(y, pl.LazyFrame):
            y = y.collect()
        if isinstance(x, pl.DataFrame) and isinstance(y, pl.Series):
            x = x[y.name] if x.columns == [y.name] else x
        if isinstance(x, pl.Expr):
            return True
        if lib == "lazy" and isinstance(x, pl.DataFrame):
            return x.columns == y.columns and x.rows() == y.rows()
        if lib == "lazy" and isinstance(x, pl.Series):
            return x.to_list() == y.to_list()
        return same(x, y)
    mod = load_module(IMP + src)
    dr = refg.build(mode, [mod])
    det = dict(source=src, mode=mode)
    ctx.observe("drivers")
    ctx.observe("mode_" + mode)
    refg.check_graph(ctx, dr, refs, det)
    ctx.observe("nodes_checked", len(refs))
    for final in [rng.sample(sorted(refs), rng.randrange(1, len(refs) + 1)), [rng.choice(cols)]]:
        inputs = {r: rng.randrange(100) for r in refg.externals(refs, final)[0]}
        refg.check_run(ctx, mode, dr, refs, final, inputs, {}, same_lazy, det)
    ctx.sig(lib, mode, len(cols), tuple(c in present for c in cols), repr(fill), rows, is_async)
    ctx.sample(dict(source=src))
    unload(mod)


@check.family("fields", 3000, 20000)
def fam_fields(ctx):
    rng = ctx.rng
    vrt.reset()
    refs = {}
    src, nodes, ext = bases(rng, refs)
    mode = rng.choice(refg.MODES)
    is_async = mode == "async" and rng.random() < .5
    fields = fresh_names(rng, rng.choice([1, 2, 4]), nodes + ext)
    present = {f: rng.choice(["v", "v", "None", "0", "[v]", "{'k': v}", "''"]) for f in fields if rng.random() < .8}
    fill = rng.choice([None, None, 0, -1, "", "x", False])
    fname = fresh_names(rng, 1, nodes + ext + fields)[0]
    dep_ = rng.choice(nodes + ext)
    salt = rng.randrange(1000)
    a = "async " if is_async else ""
    w = f"    await _vrt.AH({fname!r})\n" if is_async else ""
    if is_async:
        ctx.observe("async_functions")
    body = "{" + ", ".join(f"{f!r}: {e}" for f, e in {**present, "other": 1}.items()) + "}"
    src += ("@extract_fields({" + ", ".join(f"{f!r}: Any" for f in fields) + "}" + (f", fill_with={fill!r}" if fill is not None else "") + ")\n"
            f"{a}def {fname}({dep_}: Any) -> {rng.choice(['dict', 'Dict[str, Any]'])}:\n    \"\"\"Fields.\"\"\"\n{w}"
            f"    v = _H({fname!r}, {salt}, 'int', {{{dep_!r}: {dep_}}})\n    return {body}\n")

    def whole(kw):
        d = eval(body, {"v": vrt.value(fname, salt, "int", kw)})
        for f in fields:
            if f not in d and fill is not None:
                d[f] = fill
        return d
    refs[fname] = Ref([dep_], whole, [fname], doc="Fields.")
    for f in fields:
        def field(kw, f=f):
            if not isinstance(kw[fname], dict):
                raise TypeError("overridden dict")
            return kw[fname][f]
        refs[f] = Ref([fname], field, [], doc="Fields.")
        ctx.observe("filled" if f not in present and fill is not None else "missing_column" if f not in present else "fields")
    # a consumer of a field sees the field
    src += f"\ndef consumer_x({fields[0]}: Any) -> Any:\n    return [{fields[0]}]\n"
    refs["consumer_x"] = Ref([fields[0]], lambda kw: [kw[fields[0]]])
    mod = load_module(IMP + src)
    execute(ctx, mode, mod, refs, dict(source=src, mode=mode), p_over=.1)
    ctx.sig(mode, len(fields), tuple(present.get(f) for f in fields), repr(fill), is_async)
    unload(mod)


@check.family("param_extract", 1250, 8000)
def fam_param_extract(ctx):
    rng = ctx.rng
    vrt.reset()
    refs = {}
    src, nodes, ext = bases(rng, refs)
    mode = rng.choice(["v1", "v2"])
    n = rng.choice([1, 2, 3])
    ncol = rng.choice([1, 2, 3])
    names = fresh_names(rng, n * ncol, nodes + ext)
    fname = fresh_names(rng, 1, nodes + ext + names)[0]
    reassign = rng.random() < .6
    specs = []
    for i in range(n):
        specs.append((tuple(names[i * ncol:(i + 1) * ncol]), {p: dep(rng, nodes + ext) for p in ("p0", "p1") if rng.random() < .8}))
    if any(len({d[1] for d in m.values() if d[0] == "source"}) < sum(d[0] == "source" for d in m.values()) for _, m in specs):
        raise vf.Skip("same source twice")
    salt = rng.randrange(1000)
    d2s = lambda d: f"{d[0]}({d[1]!r})"     # noqa: E731
    deco = "@parameterize_extract_columns(" + ", ".join(
        f"ParameterizedExtract({o!r}, {{" + ", ".join(f"{p!r}: {d2s(d)}" for p, d in m.items()) + "})" for o, m in specs) + (
        "" if reassign else ", reassign_columns=False") + ")"
    cols = [f"c{i}" for i in range(ncol)] if reassign else names
    src += (f"{deco}\ndef {fname}(p0: Any, p1: Any) -> pd.DataFrame:\n    v = _H({fname!r}, {salt}, 'int', {{'p0': p0, 'p1': p1}})\n"
            f"    return pd.DataFrame({{c: [v % (9 + i)] for i, c in enumerate({cols!r})}})\n")
    for i, (outs, m) in enumerate(specs):
        whole = f"{fname}__{i}"

        def frame(kw, m=m, outs=outs):
            new = {p: (m[p][1] if m[p][0] == "value" else kw[m[p][1]]) if p in m else kw[p] for p in ("p0", "p1")}
            v = vrt.value(fname, salt, "int", new)
            df = pd.DataFrame({c: [v % (9 + j)] for j, c in enumerate(cols)})
            if reassign:
                df.columns = outs
            return df
        refs[whole] = Ref({(m[p][1] if p in m else p): False for p in ("p0", "p1") if p not in m or m[p][0] == "source"}, frame, [fname])
        for c in outs:
            def col(kw, c=c, whole=whole):
                if not isinstance(kw[whole], pd.DataFrame):
                    raise TypeError
                return kw[whole][c]
            refs[c] = Ref([whole], col)
    ctx.observe("param_extract")
    mod = load_module(IMP + src)
    execute(ctx, mode, mod, refs, dict(source=src, mode=mode), p_over=.1)
    ctx.sig(mode, repr(specs), reassign)
    unload(mod)


@check.family("does", 1250, 8000)
def fam_does(ctx):
    rng = ctx.rng
    vrt.reset()
    refs = {}
    src, nodes, ext = bases(rng, refs)
    avail = nodes + ext
    mode = rng.choice(["v1", "v2"])
    params = rng.sample(avail, rng.randrange(1, 4))
    defaults = {p: rng.choice([5, 5, None, 0]) for p in params if rng.random() < .4}
    params.sort(key=lambda p: p in defaults)
    fname = fresh_names(rng, 1, avail)[0]
    kwonly = rng.random() < .4
    mapping = {}
    if kwonly:      # replacing function takes **kwargs
        targets = rng.sample(["a0", "a1"] + params, rng.randrange(0, 3))
        mapping = {t: rng.choice(params) for t in targets}
        rsig = "**kw"
    else:           # every parameter of the replacing function is mapped or shares the name
        rparams = []
        pool = params[:]
        rng.shuffle(pool)
        for i, p in enumerate(pool):
            t = rng.choice([p, f"a{i}"])
            rparams.append(t)
            if t != p:
                mapping[t] = p
        if rng.random() < .3 and len(params) >= 2:     # a permutation
            perm = params[1:] + params[:1]
            mapping = dict(zip(params, perm))
            rparams = params[:]
        elif rng.random() < .3:
            mapping["twice"] = rng.choice(pool)
            rparams.append("twice")
            if mapping["twice"] in rparams:
                mapping[mapping["twice"]] = mapping["twice"]
        rsig = ", ".join(rparams)
    ctx.observe("does_mapped", len(mapping))
    salt = rng.randrange(1000)
    kwbody = "kw" if kwonly else "{" + ", ".join(f"{p!r}: {p}" for p in rparams) + "}"
    src += f"def _replacement({rsig}):\n    return _H({fname!r}, {salt}, 'int', {kwbody})\n\n"
    sig = ", ".join(f"{p}: Any" + (f" = {defaults[p]!r}" if p in defaults else "") for p in params)
    margs = "".join(f", {k}={v!r}" for k, v in mapping.items())
    src += f"@does(_replacement{margs})\ndef {fname}({sig}) -> Any:\n    pass\n"

    def fn(kw):
        vals = {p: kw.get(p, defaults.get(p)) for p in params}
        new = {t: vals[p] for t, p in mapping.items()}
        for p in params:
            if p not in mapping.values() and p not in new:
                new[p] = vals[p]
        return vrt.value(fname, salt, "int", new)
    refs[fname] = Ref({p: p in defaults for p in params}, fn, [fname])
    mod = load_module(IMP + src)
    execute(ctx, mode, mod, refs, dict(source=src, mode=mode))
    ctx.sig(rsig, repr(mapping), repr(defaults))
    unload(mod)


if __name__ == "__main__":
    check.main()
