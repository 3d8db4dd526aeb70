"""P18: what the driver says about a dataflow (lists, lineage, tags, exports, drawings) is what it executes."""
import html
import json
import re

import vf
import vrt
from cmpv import same
from gen import HEADER, REQ, fresh_names, gen_dag, input_value, load_module, unload

check = vf.Check(
    "P18",
    rule="random dataflows (several modules, optional inputs, config, @tag, @parameterize, @extract_fields, @subdag) x every query: list_available_variables (tag filters), what_is_upstream_of / "
         "downstream_of, what_is_the_path_between, export_execution, visualize_execution, display_*, visualize_path_between, with inputs, overrides and drawing options. Oracles: independent reference "
         "graph of the generated source, and the functions an execution is seen to call. Distinct = dataflow x query",
    required=["listed", "tag_queries", "tag_hits", "tag_refused", "upstream", "downstream", "paths", "no_path", "exports", "drawings", "draw_execution", "draw_all", "draw_upstream", "draw_downstream", "draw_path",
              "hide_inputs", "deduplicated", "overridden", "unknown_refused", "observed_lineage", "expanded", "subdag", "optional_absent", "callable_request"],
)


@check.setup
def setup_env():
    from hamilton import driver, graph_types
    globals().update(driver=driver, graph_types=graph_types)


class Ground:
    """nodes: name -> {dep: optional?}; fns: node -> function that runs."""

    def __init__(self):
        self.deps, self.fn, self.tags, self.doc, self.src, self.type, self.hidden = {}, {}, {}, {}, {}, {}, set()


def build(ctx):
    rng = ctx.rng
    dag = gen_dag(rng, n_nodes=rng.choice([2, 4, 6, 9, 13]), kinds=["int", "str", "list", "dict"], p_opt=0.25)
    g = Ground()
    names = list(dag.nodes) + list(dag.inputs)
    extra = [""] * dag.nmods
    modof = {}
    for n in dag.nodes.values():
        g.deps[n.name] = {p[0]: p[1] != REQ for p in n.params}
        g.fn[n.name] = n.name
        modof[n.name] = n.mod
        tags = {}
        for k in rng.sample(["owner", "stage", "pii", "t.x"], rng.choice([0, 0, 1, 2])):
            tags[k] = rng.choice(["a", "b", "", "c d", ["a", "b"], ["z"], ["b", "c d"]])
        if tags:
            n.decorators.append("@tag(**" + repr(tags) + ")")
        g.tags[n.name] = tags
    new = fresh_names(rng, 12, names)
    pool = [n for n in dag.nodes if dag.nodes[n].kind in ("int", "str", "list", "dict")]
    if rng.random() < 0.6 and pool:      # parameterize
        f, n1, n2 = new[0], new[1], new[2]
        s1, s2 = rng.choice(pool), rng.choice(pool)
        m = rng.randrange(dag.nmods)
        extra[m] += (f"@parameterize({n1}=dict(x=source({s1!r}), y=value(1)), {n2}=dict(x=source({s2!r}), y=source({s1!r})))\n"
                     f"def {f}(x: Any, y: Any) -> dict:\n    return _H({f!r}, 1, 'dict', dict(x=x, y=y))\n\n")
        g.deps[n1], g.deps[n2] = {s1: False}, {s1: False, s2: False}
        for n in (n1, n2):
            g.fn[n], g.tags[n], modof[n] = f, {}, m
        ctx.observe("expanded")
    if rng.random() < 0.5 and pool:      # extract_fields
        f, n1, n2 = new[3], new[4], new[5]
        s1 = rng.choice(pool)
        m = rng.randrange(dag.nmods)
        extra[m] += f"@extract_fields(dict({n1}=int, {n2}=str))\ndef {f}({s1}: Any) -> dict:\n    _H({f!r}, 1, 'int', dict(a={s1}))\n    return dict({n1}=1, {n2}='x')\n\n"
        g.deps[f], g.deps[n1], g.deps[n2] = {s1: False}, {f: False}, {f: False}
        for n in (f, n1, n2):
            g.fn[n], g.tags[n], modof[n] = (f if n == f else None), {}, m
        ctx.observe("expanded")
    if rng.random() < 0.4 and pool:      # subdag
        f, i1, i2 = new[6], new[7], new[8]
        s1 = rng.choice(pool)
        m = rng.randrange(dag.nmods)
        extra[m] += (f"def _{i1}_body({i2}: Any) -> int:\n    return 1\n\n")
        sub = load_module(HEADER + f"def {i1}({i2}: Any) -> dict:\n    return _H({i1!r}, 1, 'dict', dict(a={i2}))\n")
        extra[m] += f"import {sub.__name__} as _sub\n@subdag(_sub, inputs=dict({i2}=source({s1!r})))\ndef {f}({i1}: dict) -> dict:\n    return _H({f!r}, 1, 'dict', dict(a={i1}))\n\n"
        g.sub = sub
        g.subdag = (f, f"{f}.{i1}", f"{f}.{i2}", s1, i1)
        ctx.observe("subdag")
    srcs = dag.sources(rng)
    mods = [load_module(s.replace("from vrt import H as _H\n", "from vrt import H as _H\nfrom hamilton.function_modifiers import *\n", 1) + extra[i]) for i, s in enumerate(srcs)]
    config = {}
    ins = sorted({d for ds in g.deps.values() for d in ds if d not in g.deps})
    for i in ins:
        if rng.random() < 0.2:
            config[i] = input_value(rng, dag.inputs.get(i, "int"))
    if rng.random() < 0.2:
        config["unused_cfg"] = rng.choice([1, "a<b>&", None])
    dr = driver.Builder().with_modules(*mods).with_config(config).build()
    if hasattr(g, "subdag"):
        f, inner, inp, s1, i1 = g.subdag
        vs = {v.name: v for v in dr.list_available_variables()}
        # the inner input is plumbing; accept whatever single-parent chain leads from s1 to the inner node
        g.deps[f], g.fn[f] = {inner: False}, f
        g.deps[inner], g.fn[inner] = {inp: False}, i1
        g.deps[inp], g.fn[inp] = {s1: False}, None
        for n in (f, inner, inp):
            g.tags[n] = None
            modof[n] = None
        if set(vs) & {f, inner, inp} != {f, inner, inp}:
            raise vf.Skip("subdag plumbing differs")
    g.config, g.inputs, g.mods, g.modof, g.dag = config, [i for i in ins if i not in config], mods, modof, dag
    g.external = set(ins)
    return g, dr


def closure(g, start, step):
    out, todo = set(), list(start)
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo += step(n)
    return out


def up(g, start):
    return closure(g, start, lambda n: list(g.deps.get(n, {})))


def down(g, start):
    return closure(g, start, lambda n: [m for m in g.deps if n in g.deps[m]])


def needed(g, final, inputs, overrides):
    """Nodes an execution looks at: (all incl. externals)."""
    def step(n):
        if n in overrides:
            return []
        return [d for d, opt in g.deps.get(n, {}).items() if not (opt and d in g.external and d not in inputs and d not in g.config)]
    return closure(g, final, step)


def det(g):
    return dict(deps={n: {d: ("?" if o else "!") for d, o in ds.items()} for n, ds in g.deps.items()}, config=g.config)


def names_of(vs):
    return sorted(v.name for v in vs)


# ---------------------------------------------------------------------------------------------------- queries
def q_list(ctx, g, dr):
    vs = dr.list_available_variables()
    want = set(g.deps) | g.external | set(g.config)
    ctx.observe("listed")
    ctx.require(sorted(v.name for v in vs) == sorted(want), "list", lambda: f"list_available_variables gives {names_of(vs)}, the dataflow has {sorted(want)}", **det(g))
    for v in vs:
        if v.name in g.deps:
            ctx.require(not v.is_external_input and set(v.required_dependencies) == {d for d, o in g.deps[v.name].items() if not o}
                        and set(v.optional_dependencies) == {d for d, o in g.deps[v.name].items() if o}, "variable",
                        lambda: f"{v.name}: external={v.is_external_input} dependencies {v.required_dependencies} / {v.optional_dependencies}, expected {g.deps[v.name]}", **det(g))
            if g.tags.get(v.name) is not None:
                got = {k: x for k, x in v.tags.items() if k != "module" and not k.startswith("hamilton")}
                ctx.require(got == g.tags[v.name] and (g.modof[v.name] is None or v.tags.get("module") == g.mods[g.modof[v.name]].__name__), "tags",
                            lambda: f"{v.name}: tags {v.tags}, expected {g.tags[v.name]} in module {g.mods[g.modof[v.name]].__name__}", **det(g))
        else:
            ctx.require(bool(v.is_external_input), "variable", lambda: f"input {v.name} is not listed as external", **det(g))


def q_tags(ctx, g, dr):
    rng = ctx.rng
    tagged = {n: t for n, t in g.tags.items() if t is not None}
    for _ in range(3):
        q = {k: rng.choice(["a", "b", "", "c d", None, None, ["a"], ["b", "z"], ["c d", "a"], "zz"]) for k in rng.sample(["owner", "stage", "pii", "t.x", "absent"], rng.choice([1, 1, 2, 3]))}

        def hit(t):
            for k, v in q.items():
                if k not in t:
                    return False
                have = t[k] if isinstance(t[k], list) else [t[k]]
                if v is not None and not set(have) & set(v if isinstance(v, list) else [v]):
                    return False
            return True
        got = [v.name for v in dr.list_available_variables(tag_filter=q)]
        want = [n for n, t in tagged.items() if hit(t)]
        ctx.observe("tag_queries")
        ctx.observe("tag_hits", len(want))
        ctx.require(sorted(n for n in got if n in tagged) == sorted(want) and not [n for n in got if n in g.external], "tag-filter",
                    lambda: f"tag_filter={q} gives {sorted(got)}, expected {sorted(want)}; tags {tagged}", **det(g))
    bad = {"owner": rng.choice([[], 3, True, {}, 1.5])}
    try:
        r = dr.list_available_variables(tag_filter=bad)
        ctx.require(False, "tag-filter-accepted", f"tag_filter={bad} was answered with {names_of(r)}", **det(g))
    except ValueError:
        ctx.observe("tag_refused")


def q_lineage(ctx, g, dr):
    rng = ctx.rng
    alln = sorted(set(g.deps) | g.external)
    for _ in range(3):
        s = rng.sample(alln, min(len(alln), rng.choice([1, 1, 2, 3])))
        got, want = names_of(dr.what_is_upstream_of(*s)), sorted(up(g, s))
        ctx.observe("upstream")
        ctx.require(got == want, "upstream", lambda: f"upstream of {s}: {got}, expected {want}", **det(g))
        got, want = names_of(dr.what_is_downstream_of(*s)), sorted(down(g, s))
        ctx.observe("downstream")
        ctx.require(got == want, "downstream", lambda: f"downstream of {s}: {got}, expected {want}", **det(g))
        ctx.sig("lineage", g.dag.shape_sig(), len(want))
        a, b = rng.choice(alln), rng.choice(alln)
        got, want = names_of(dr.what_is_the_path_between(a, b)), sorted(down(g, [a]) & up(g, [b]))
        ctx.observe("paths" if want else "no_path")
        ctx.require(got == want, "path", lambda: f"path {a} -> {b}: {got}, expected {want}", **det(g))
    bogus = "not_a_node_at_all"
    a = rng.choice(alln)
    for what, f in (("upstream", lambda: dr.what_is_upstream_of(a, bogus)), ("downstream", lambda: dr.what_is_downstream_of(bogus)), ("path", lambda: dr.what_is_the_path_between(bogus, a)),
                    ("path", lambda: dr.what_is_the_path_between(a, bogus)), ("draw", lambda: dr.visualize_path_between(a, bogus))):
        try:
            r = f()
            ctx.require(False, f"unknown-accepted:{what}", f"a query about an unknown node was answered: {r}", **det(g))
        except ValueError as e:
            ctx.observe("unknown_refused")
            ctx.require(bogus in str(e), "unknown-not-named", f"the error does not name the unknown node: {e}")


def request(ctx, g):
    rng = ctx.rng
    fns = sorted(g.deps)
    final = rng.sample(fns, min(len(fns), rng.choice([1, 1, 2, 3])))
    opt_only = {i for i in g.inputs if all(ds[i] for ds in g.deps.values() if i in ds)}
    inputs = {}
    for i in g.inputs:
        if i in opt_only and rng.random() < 0.5:
            ctx.observe("optional_absent")
            continue
        inputs[i] = input_value(rng, g.dag.inputs.get(i, "int"))
        if inputs[i] is None:
            inputs[i] = 0
    overrides = {}
    if rng.random() < 0.4:
        n = rng.choice(fns)
        if n in g.dag.nodes:
            overrides[n] = rng.choice([1, "o", None])
            ctx.observe("overridden")
    return final, inputs, overrides


def q_observed(ctx, g, dr):
    """The functions an execution calls are those the lineage names."""
    final, inputs, overrides = request(ctx, g)
    arg = list(final)
    if ctx.rng.random() < 0.3 and final[0] in g.dag.nodes:
        arg[0] = getattr(g.mods[g.dag.nodes[final[0]].mod], final[0])
        ctx.observe("callable_request")
    vrt.EVENTS.clear()
    res = dr.execute(arg, inputs=inputs, overrides=overrides)
    calls = sorted(vrt.calls())
    lineage = {v.name for f in final for v in dr.what_is_upstream_of(f)}
    need = needed(g, final, inputs, overrides)
    want = sorted(g.fn[n] for n in need if n in g.fn and g.fn[n] and n not in overrides)
    ctx.observe("observed_lineage")
    ctx.require(calls == want, "executed-vs-lineage", lambda: f"executing {final} called {calls}; by the lineage it needs {want}", inputs=inputs, overrides=overrides, **det(g))
    ctx.require(set(need) <= lineage, "lineage-incomplete", lambda: f"what_is_upstream_of{final} = {sorted(lineage)} lacks {sorted(set(need) - lineage)}", **det(g))
    ctx.require(set(res) == set(final), "keys", lambda: f"execute({final}) returned {sorted(res)}")


def q_export(ctx, g, dr):
    final, inputs, overrides = request(ctx, g)
    out = json.loads(dr.export_execution(final, inputs=inputs, overrides=overrides))
    need = needed(g, final, inputs, overrides)
    ctx.observe("exports")
    got = [n["name"] for n in out["nodes"]]
    ctx.require(sorted(got) == sorted(need), "export-nodes", lambda: f"export of {final} has {got}, it needs {sorted(need)}", inputs=inputs, overrides=overrides, **det(g))
    for n in out["nodes"]:
        nm = n["name"]
        if nm in g.deps:
            ctx.require(n["required_dependencies"] == sorted(d for d, o in g.deps[nm].items() if not o) and n["optional_dependencies"] == sorted(d for d, o in g.deps[nm].items() if o), "export-dependencies",
                        lambda: f"exported {nm}: {n['required_dependencies']} / {n['optional_dependencies']}, expected {g.deps[nm]}", **det(g))
            if g.fn[nm] and g.tags[nm] is not None:
                ctx.require(n["source"] is not None and f"def {g.fn[nm]}(" in n["source"], "export-source", lambda: f"exported {nm}: source {n['source']!r}", **det(g))
        else:
            ctx.require(not n["required_dependencies"] and not n["optional_dependencies"], "export-input", lambda: f"exported input {nm}: {n}", **det(g))
    ctx.sig("export", g.dag.shape_sig(), sorted(got), bool(overrides))
    out2 = dr.export_execution(final, inputs=inputs, overrides=overrides)
    ctx.require(json.loads(out2) == out, "export-unstable", lambda: "two exports of the same request differ", **det(g))


# ---------------------------------------------------------------------------------------------------- drawings
STR = re.compile(r'"(?:[^"\\]|\\.)*"|[\w.À-￿]+')


def unq(s):
    return s[1:-1].replace('\\"', '"') if s.startswith('"') else s


def parse(dot):
    """(nodes: name -> label, edges) outside the legend and field clusters."""
    nodes, edges, depth = {}, set(), 0
    for line in dot.body:
        s = line.strip()
        if re.match(r"(subgraph\b.*)?\{$", s) or s.startswith("subgraph"):
            depth += 1
            continue
        if s == "}":
            depth -= 1
            continue
        if depth:
            continue
        m = STR.match(s)
        if not m:
            continue
        a = unq(m.group())
        rest = s[m.end():].lstrip()
        if rest.startswith("->"):
            m2 = STR.match(rest[2:].lstrip())
            edges.add((a, unq(m2.group())))
        elif a in ("graph", "node", "edge") and rest.startswith("["):
            continue
        else:
            nodes[a] = s
    return nodes, edges


def input_names(label, candidates):
    text = html.unescape(label)
    toks = re.findall(r"<td>(.*?)</td>", text, re.S)
    if toks:
        return {t for t in toks if t in candidates}
    return {c for c in candidates if re.search(rf"(?<![\w.]){re.escape(c)}(?![\w.])", text)}


def judge(ctx, g, dot, shown, what, hide, overrides=(), strict_edges=True):
    """`shown`: names (functions and externals) this drawing is about."""
    ctx.observe("drawings")
    nodes, edges = parse(dot)
    fns = {n for n in shown if n in g.deps}
    boxes = {n: input_names(lbl, g.external) for n, lbl in nodes.items() if n not in g.deps and n not in g.config}
    drawn = {n for n in nodes if n in g.deps}
    ctx.require(drawn == fns, f"drawn-nodes:{what}", lambda: f"{what} draws {sorted(drawn)}, expected {sorted(fns)}", dot=dot.source[:3000], **det(g))
    e = {(a, b) for a, b in edges if a in g.deps and b in g.deps and b not in overrides}
    want = {(d, n) for n in fns if n not in overrides for d in g.deps[n] if d in fns}
    ctx.require(e == want, f"drawn-edges:{what}", lambda: f"{what}: extra edges {sorted(e - want)}, missing {sorted(want - e)}", dot=dot.source[:3000], **det(g))
    for n in fns:
        if n in overrides:
            continue
        got = set()
        for a, b in edges:
            if b == n and a in boxes:
                got |= boxes[a]
            elif b == n and a in g.external and a not in g.deps:
                got.add(a)
        ext = set() if hide else {d for d in g.deps[n] if d in g.external and d in shown}
        ctx.require(got == ext, f"drawn-inputs:{what}", lambda: f"{what}: {n} is drawn with inputs {sorted(got)}, it takes {sorted(ext)}", dot=dot.source[:3000], **det(g))
    ctx.sig("draw", what, hide, g.dag.shape_sig(), len(fns))


def q_draw(ctx, g, dr):
    rng = ctx.rng
    kw = {}
    if rng.random() < 0.4:
        kw["show_legend"] = False
    hide = rng.random() < 0.3
    if hide:
        kw["hide_inputs"] = True
        ctx.observe("hide_inputs")
    if rng.random() < 0.4:
        kw["deduplicate_inputs"] = True
        ctx.observe("deduplicated")
    if rng.random() < 0.2:
        kw["orient"] = "TB"
    which = rng.choice(["execution", "execution", "all", "upstream", "downstream", "path"])
    alln = sorted(set(g.deps) | g.external)
    ctx.observe("draw_" + which)
    if which == "all":
        judge(ctx, g, dr.display_all_functions(**kw), set(alln), "display_all_functions", hide)
    elif which == "execution":
        final, inputs, overrides = request(ctx, g)
        dot = dr.visualize_execution(final, inputs=inputs, overrides=overrides, **kw)
        judge(ctx, g, dot, needed(g, final, inputs, overrides), "visualize_execution", hide, overrides)
    elif which == "upstream":
        s = rng.sample(sorted(g.deps), min(len(g.deps), rng.choice([1, 2])))
        judge(ctx, g, dr.display_upstream_of(*s, **kw), up(g, s), "display_upstream_of", hide)
    elif which == "downstream":
        s = rng.sample(alln, min(len(alln), rng.choice([1, 2])))
        d = down(g, s)
        judge(ctx, g, dr.display_downstream_of(*s, **kw), d | {x for n in d for x in g.deps.get(n, ())}, "display_downstream_of", hide)
    else:
        a = rng.choice(alln)
        b = rng.choice(sorted(down(g, [a])))
        p = down(g, [a]) & up(g, [b])
        strict = rng.random() < 0.5
        dot = dr.visualize_path_between(a, b, strict_path_visualization=strict, **kw)
        shown = p if strict else p | {x for n in p for x in g.deps.get(n, ())}
        judge(ctx, g, dot, shown, "visualize_path_between", hide)


@check.family("queries", quick=2250)
def queries(ctx):
    g, dr = build(ctx)
    try:
        before = names_of(dr.list_available_variables())
        qs = [q_list, q_tags, q_lineage, q_observed, q_export, q_draw, q_draw]
        ctx.rng.shuffle(qs)
        for q in qs:
            q(ctx, g, dr)
        ctx.require(names_of(dr.list_available_variables()) == before, "query-changed-dataflow", "asking about the dataflow changed it", **det(g))
        ctx.sample(det(g))
    finally:
        unload(*g.mods)
        if hasattr(g, "sub"):
            unload(g.sub)


if __name__ == "__main__":
    check.main()
