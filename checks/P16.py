"""P16: loaders and savers run exactly when needed, once, with the data and arguments named, and replace what they target."""
import dataclasses
import sys
import typing

import refg
import vf
import vrt
from cmpv import same
from gen import HEADER, MISSING, REQ, fresh_names, gen_dag, load_module, unload
from refg import Ref

check = vf.Check(
    "P16",
    rule="random dataflows with random ad-hoc (Driver.materialize) and static (Builder.with_materializers) to./from_ adapters, @load_from / @save_to (stacked, targeted, injected), "
         "@dataloader / @datasaver, literal and source arguments (shared sources, names colliding with parameters), overrides, invalid requests; sync, task-based, async. "
         "Oracle: adapters as plain functions in a reference graph + exactly-once accounting of load/save events. Distinct = dataflow x adapters x request",
    required=["drivers", "adhoc", "static", "decorators", "saves", "loads", "combined", "source_args", "shared_source", "name_collision", "loader_on_input", "loader_on_node",
              "loader_unneeded", "saver_unneeded", "overridden", "refused", "driver_untouched", "mode_v1", "mode_v2", "mode_async", "stacked_savers", "stacked_loaders",
              "injected", "default_name", "dataloader", "datasaver", "resolution", "resolution_any", "resolution_none", "optional_source_absent", "fn_dependency",
              "hooks_balanced", "late_registration", "late_key", "same_parameter", "targeted_field"],
)
IMP = HEADER + "from typing import Tuple\nfrom hamilton.function_modifiers import *\n"
KINDS = ["int", "int", "str", "list", "dict", "float"]
NKINDS = KINDS + ["zero", "none_int", "empty_str", "empty_list", "empty_dict"]
ONLY = ["knob_a", "knob_b"]       # inputs that only adapters use


@check.setup
def setup_env():
    from hamilton import base, driver, lifecycle, registry
    from hamilton.function_modifiers import load_from, save_to, source, value
    from hamilton.io.data_adapters import DataLoader, DataSaver
    from hamilton.io.materialization import from_, to
    globals().update(base=base, driver=driver, lifecycle=lifecycle, registry=registry, source=source, value=value, DataLoader=DataLoader,
                     DataSaver=DataSaver, from_=from_, to=to, load_from=load_from, save_to=save_to)

    @dataclasses.dataclass
    class VSave(DataSaver):
        dest: typing.Any
        tag: typing.Any
        mode: typing.Any = "w"
        extra: typing.Any = None

        @classmethod
        def applicable_types(cls):
            return [int, str, list, dict, float, typing.Any]

        @classmethod
        def name(cls):
            return "vfs"

        def save_data(self, data):
            kw = dict(dest=self.dest, extra=self.extra, mode=self.mode, tag=self.tag)
            vrt.log("save", self.dest, (kw, data))
            return saved(kw, data)

    @dataclasses.dataclass
    class VLoad(DataLoader):
        key: typing.Any
        alt: typing.Any = 5
        dest: typing.Any = None

        @classmethod
        def applicable_types(cls):
            return [int, str, list, dict, float]

        @classmethod
        def name(cls):
            return "vfl"

        def load_data(self, type_):
            kw = dict(alt=self.alt, dest=self.dest, key=self.key)
            vrt.log("load", repr(type_), kw)
            return loaded(kw, type_)
    registry.register_adapter(VSave)
    registry.register_adapter(VLoad)


def saved(kw, data):
    return {"kw": kw, "digest": vrt.ival(data), "data": data}


def loaded(kw, type_):
    k = {int: "int", str: "str", list: "list", dict: "dict", float: "float"}[type_]
    return vrt.value("loader", 3, k, kw), {"meta": vrt.ival(kw)}


PTYPES = dict(int=int, str=str, list=list, dict=dict, float=float)


class _Types:
    def __getitem__(self, kind):
        return PTYPES[vrt.PYTYPE[kind]]


TYPES = _Types()


def in_value(rng, dag, i):
    if i in ONLY:
        return rng.choice([None, 0, "", [1], 7, {}, "v"])
    return loaded({"k": rng.randrange(999)}, TYPES[dag.inputs[i]])[0]


def to_refs(dag):
    refs = {}
    for n in dag.nodes.values():
        def fn(kw, n=n):
            return vrt.value(n.name, n.salt, n.kind, {p: kw.get(p, d) for p, d, _ in n.params})
        refs[n.name] = Ref({p: d != REQ for p, d, _ in n.params}, fn, [n.name])
    return refs


def gen_args(ctx, rng, params, required, pool, fixed=()):
    """adapter arguments: {param: ('lit', v) | ('src', name)}"""
    out = {}
    share = rng.choice(pool) if pool else None
    for p in params:
        if p not in required and rng.random() < .5:
            continue
        if pool and rng.random() < .5:
            out[p] = ("src", share if rng.random() < .4 else rng.choice(pool))
        else:
            out[p] = ("lit", rng.choice([f"{p}1", 7, None, [1], {"a": 1}, "", 0, False]))
    srcs = [v for k, v in out.values() if k == "src"]
    if srcs:
        ctx.observe("source_args")
    if len(srcs) != len(set(srcs)):
        ctx.observe("shared_source")
    if set(srcs) & set(params):
        ctx.observe("name_collision")
    return out


def arg_obj(rng, v):
    if v[0] == "src":
        return source(v[1])
    return value(v[1]) if rng.random() < .5 else v[1]


def arg_src(rng, v):
    if v[0] == "src":
        return f"source({v[1]!r})"
    return f"value({v[1]!r})" if rng.random() < .5 else repr(v[1])


DEFAULTS = dict(vfs=dict(mode="w", extra=None), vfl=dict(alt=5, dest=None))


def arg_deps(args, required):
    deps = {}
    for p, v in args.items():
        if v[0] == "src":
            deps[v[1]] = deps.get(v[1], True) and p not in required
    return deps


def arg_values(kind, args, kw):
    out = dict(DEFAULTS[kind])
    for p, v in args.items():
        if v[0] == "lit":
            out[p] = v[1]
        elif kw.get(v[1], MISSING) is not MISSING:
            out[p] = kw[v[1]]
    return dict(sorted(out.items()))


def saver_ref(args, data):
    deps = arg_deps(args, ("dest", "tag"))
    deps[data] = False

    def fn(kw):
        k = arg_values("vfs", args, kw)
        return saved(k, kw[data])
    return Ref(deps, fn)


def loader_ref(args, typ):
    return Ref(arg_deps(args, ("key",)), lambda kw: loaded(arg_values("vfl", args, kw), typ))


def collide(rng, dag):
    """Some dataflow names equal adapter parameter names."""
    names = list(dag.inputs) + list(dag.nodes)
    new = [w for w in ("dest", "tag", "mode", "extra", "key", "alt") if w not in names]
    ren = {}
    for w in rng.sample(new, rng.randrange(0, 3)):
        x = rng.choice(names)
        if x not in ren:
            ren[x] = w
    if not ren:
        return
    dag.inputs = {ren.get(k, k): v for k, v in dag.inputs.items()}
    nodes = {}
    for n in dag.nodes.values():
        n.name = ren.get(n.name, n.name)
        n.params = [(ren.get(p, p), d, a) for p, d, a in n.params]
        nodes[n.name] = n
    dag.nodes = nodes


def events(kind):
    return sorted(repr(e[1:3]) for e in vrt.EVENTS if e[0] == kind)


def make_hook():
    class H(lifecycle.GraphExecutionHook):
        def __init__(self):
            self.log = []

        def run_before_graph_execution(self, **kw):
            self.log.append(("pre", kw["run_id"]))

        def run_after_graph_execution(self, **kw):
            self.log.append(("post", kw["run_id"], kw["success"]))
    return H()


def make_builder():
    class RB(lifecycle.ResultBuilder):
        def build_result(self, **outputs):
            vrt.log("build", "rb", dict(outputs))
            return {"built": dict(outputs)}

        def output_type(self):
            return dict
    return RB()


@check.family("materializers", 4400, 30000)
def fam_materializers(ctx):
    rng = ctx.rng
    vrt.reset()
    dag = gen_dag(rng, n_nodes=rng.choice([2, 3, 4, 6, 8]), n_inputs=rng.choice([1, 2, 3]), kinds=NKINDS, strict=True, n_mods=rng.choice([1, 1, 2]), p_opt=.15)
    for k in dag.inputs:
        dag.inputs[k] = rng.choice(KINDS)
    for n in dag.nodes.values():
        n.params = [(p, d, vrt.PYTYPE[dag.inputs[p]] if p in dag.inputs else a) for p, d, a in n.params]
    collide(rng, dag)
    base_refs = to_refs(dag)
    refs = dict(base_refs)
    mods = dag.modules(rng)
    # external inputs that some function actually has
    used_inputs = [i for i in dag.inputs if any(i == p[0] for n in dag.nodes.values() for p in n.params)]
    pool = list(dag.nodes) + used_inputs
    mats, savers, loaders, desc = [], [], [], []
    order = {n: i for i, n in enumerate(dag.nodes)}
    for t in rng.sample(pool, min(len(pool), rng.choice([0, 0, 1, 1, 2]))):
        # the loader's own arguments must not depend on what it feeds
        src = ONLY + [p for p in used_inputs if p != t] + [n for n in dag.nodes if t in order and order[n] < order[t]]
        if any(x in [l[0] for l in loaders] for x in src):
            src = [x for x in src if x in used_inputs + ONLY and x not in [l[0] for l in loaders]]
        args = gen_args(ctx, rng, ["key", "alt", "dest"], ("key",), src)
        typ = TYPES[dag.inputs[t] if t in dag.inputs else dag.nodes[t].kind]
        loaders.append((t, args))
        ctx.observe("loader_on_input" if t in dag.inputs else "loader_on_node")
        mats.append(("from", t, args))
        refs["load_data." + t] = loader_ref(args, typ)
        refs[t] = Ref(["load_data." + t], lambda kw, t=t: kw["load_data." + t][0])
    # no cycle through loader arguments
    def cyc(nm, stack):
        if nm in stack:
            return True
        return nm in refs and any(cyc(d, stack | {nm}) for d in refs[nm].deps)
    if any(cyc(n, frozenset()) for n in list(refs)):
        raise vf.Skip("cyclic loaders")
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        ident = f"mat_{i}_{rng.choice('xyz')}"
        comb = rng.choice([None, None, "dict", "custom"])
        deps = rng.sample(list(dag.nodes), rng.randrange(1, min(3, len(dag.nodes)) + 1)) if comb else [rng.choice(list(dag.nodes))]
        apool = ONLY + [p for p in pool if p not in refs or p in dag.nodes]
        args = gen_args(ctx, rng, ["dest", "tag", "mode", "extra"], ("dest", "tag"), apool)
        data = deps[0]
        if data in [v[1] for v in args.values()]:
            ctx.observe("shared_source")
        if data in ("dest", "tag", "mode", "extra"):
            ctx.observe("name_collision")
        if comb:
            ctx.observe("combined")
            data = ident + "_build_result"
            refs[data] = Ref(deps, (lambda kw: dict(kw)) if comb == "dict" else (lambda kw: {"built": dict(kw)}))
        refs[ident] = saver_ref(args, data)
        savers.append(ident)
        mats.append(("to", ident, args, deps, comb))
    desc = [str(m) for m in mats]
    mode = rng.choice(["v1", "v1", "v2"])
    static = rng.random() < .35
    rng.shuffle(mats)

    def mk(m):
        if m[0] == "from":
            return from_.vfl(target=m[1], **{p: arg_obj(rng, v) for p, v in m[2].items()})
        deps = list(m[3])
        if rng.random() < .3:
            k = rng.randrange(len(deps))
            deps[k] = getattr(mods[dag.nodes[deps[k]].mod], deps[k])
            ctx.observe("fn_dependency")
        kw = {}
        if m[4]:
            kw["combine"] = base.DictResult() if m[4] == "dict" else make_builder()
        return to.vfs(id=m[1], dependencies=deps, **kw, **{p: arg_obj(rng, v) for p, v in m[2].items()})
    factories = [mk(m) for m in mats]
    hook = make_hook()
    det = dict(source="\n".join(dag.sources()), mats=desc, mode=mode, static=static)
    dr = refg.build(mode, mods, adapters=[hook], materializers=factories if static else ())
    ctx.observe("drivers")
    ctx.observe("mode_" + mode)
    ctx.observe("static" if static else "adhoc")
    plain_vars = sorted(v.name for v in dr.list_available_variables())
    if static:
        got = {v.name for v in dr.list_available_variables() if not v.is_external_input}
        ctx.require(got == set(refs), "wrong-nodes", lambda: f"{sorted(got)} expected {sorted(refs)}", **det)
    for _ in range(2):
        extra = rng.sample(list(dag.nodes), rng.randrange(0, len(dag.nodes) + 1))
        if static:
            want = rng.sample(sorted(refs), rng.randrange(1, len(refs) + 1))
        else:
            want = savers + extra
        if not want:
            continue
        over = {}
        if rng.random() < .3:
            o = rng.choice(list(dag.nodes))
            over[o] = loaded({"k": rng.randrange(99)}, TYPES[dag.nodes[o].kind])[0]
            ctx.observe("overridden")
        req, opt = refg.externals(refs, want, over)
        inputs = {i: in_value(rng, dag, i) for i in req}
        for i in opt:
            if rng.random() < .5:
                inputs[i] = in_value(rng, dag, i)
            else:
                ctx.observe("optional_source_absent")
        exp, calls, memo = refg.evaluate(refs, want, inputs, over)
        if mode == "v2" and any(v is MISSING for v in exp.values()):
            continue
        vrt.EVENTS.clear()
        hook.log.clear()
        if static:
            out = dr.execute(want, inputs=dict(inputs), overrides=dict(over))
        else:
            meta, add = dr.materialize(*factories, additional_vars=list(extra), inputs=dict(inputs), overrides=dict(over))
            ctx.require(set(meta) == set(savers) and set(add) == set(extra), "wrong-keys", lambda: f"{sorted(meta)} {sorted(add)}", **det)
            out = {**meta, **add}
        d2 = dict(det, inputs=inputs, overrides=over, request=want)
        ctx.require(same(out, exp), "wrong-value", lambda: f"{out} expected {exp}", **d2)
        ctx.require(sorted(vrt.calls()) == sorted(calls), "wrong-calls", lambda: f"{sorted(vrt.calls())} expected {sorted(calls)}", **d2)
        ex = sorted(repr((memo[s]["kw"]["dest"], (memo[s]["kw"], memo[s]["data"]))) for s in savers if s in memo)
        ctx.require(events("save") == ex, "wrong-saves", lambda: f"{events('save')} expected {ex}", **d2)
        lx = sorted(repr((repr(TYPES[dag.inputs[t] if t in dag.inputs else dag.nodes[t].kind]), arg_values("vfl", a, memo)))
                    for t, a in loaders if "load_data." + t in memo)
        ctx.require(events("load") == lx, "wrong-loads", lambda: f"{events('load')} expected {lx}", **d2)
        ctx.observe("saves", len(ex))
        ctx.observe("loads", len(lx))
        if len(lx) < len(loaders):
            ctx.observe("loader_unneeded")
        if len(ex) < len(savers):
            ctx.observe("saver_unneeded")
        ctx.require([h[0] for h in hook.log] == ["pre", "post"] and len({h[1] for h in hook.log}) == 1, "hooks", lambda: f"{hook.log}", **d2)
        ctx.observe("hooks_balanced")
    if not static:
        ctx.require(sorted(v.name for v in dr.list_available_variables()) == plain_vars, "driver-changed", "materialize changed the driver's dataflow", **det)
        want = list(dag.nodes)
        req, _ = refg.externals(base_refs, want)
        inputs = {i: loaded({"k": rng.randrange(999)}, TYPES[dag.inputs[i]])[0] for i in req}
        refg.check_run(ctx, mode, dr, base_refs, want, inputs, {}, same, det)
        ctx.observe("driver_untouched")
        refused(ctx, rng, dr, hook, dag, mods, det)
    ctx.sig(dag.shape_sig(), tuple(desc), mode, static)
    ctx.sample(dict(mats=desc, source=det["source"]))
    unload(*mods)


def refused(ctx, rng, dr, hook, dag, mods, det):
    """Requests that cannot be honoured fail with the reason, before any user code runs."""
    n = rng.choice(list(dag.nodes))
    what = rng.choice(["no_dep", "no_target", "two_deps", "nothing", "missing_arg", "extra_arg", "missing_input", "unknown_var"])
    good = dict(dest=1, tag=2)
    vrt.EVENTS.clear()
    hook.log.clear()
    name = None
    try:
        if what == "no_dep":
            name = "ghost_dep"
            dr.materialize(to.vfs(id="m", dependencies=[name], **good))
        elif what == "no_target":
            name = "ghost_target"
            dr.materialize(from_.vfl(target=name, key=1), additional_vars=[n])
        elif what == "two_deps":
            if len(dag.nodes) < 2:
                return
            name = "m_two"
            dr.materialize(to.vfs(id=name, dependencies=rng.sample(list(dag.nodes), 2), **good))
        elif what == "nothing":
            dr.materialize()
        elif what == "missing_arg":
            name = "tag"
            dr.materialize(to.vfs(id="m", dependencies=[n], dest=1))
        elif what == "extra_arg":
            name = "colour"
            dr.materialize(to.vfs(id="m", dependencies=[n], colour=1, **good))
        elif what == "missing_input":
            name = "nowhere_to_find"
            ax = [dict(dest=source(name), tag=1), dict(dest=source(name), tag=1, extra=source(name)), dict(mode=source(name), dest=1, tag=source(name))]
            dr.materialize(to.vfs(id="m", dependencies=[n], **rng.choice(ax)), inputs={i: loaded({"k": 1}, TYPES[k])[0] for i, k in dag.inputs.items()})
        else:
            name = "no_such_var"
            dr.materialize(to.vfs(id="m", dependencies=[n], **good), additional_vars=[name], inputs={i: loaded({"k": 1}, TYPES[k])[0] for i, k in dag.inputs.items()})
        err = None
    except Exception as e:      # noqa: BLE001
        err = e
    ctx.observe("refused")
    ctx.require(err is not None and not isinstance(err, (UnboundLocalError, NameError, KeyError)), f"bad-request-accepted:{what}", lambda: f"{what}: {err!r}", **det)
    if name and err is not None:
        ctx.require(name in str(err), f"reason-missing:{what}", lambda: f"{what}: {type(err).__name__}: {str(err)[:500]} does not name {name}", **det)
    ctx.require(not vrt.calls() and not events("save") and not events("load"), f"ran-before-refusal:{what}", lambda: f"{vrt.EVENTS}", **det)
    pre, post = [h for h in hook.log if h[0] == "pre"], [h for h in hook.log if h[0] == "post"]
    ctx.require(len(pre) == len(post) and all(h[2] is False for h in post), "hooks", lambda: f"{hook.log}", **det)


# ------------------------------------------------------------------ decorators
@check.family("decorators", 5000, 30000)
def fam_decorators(ctx):
    rng = ctx.rng
    vrt.reset()
    mode = rng.choice(refg.MODES)
    names = fresh_names(rng, 12)
    if rng.random() < .4:
        for w in rng.sample(["dest", "tag", "mode", "key", "alt"], 2):
            if w not in names:
                names[rng.randrange(10)] = w
    f, b1, b2, i1, i2, after, fl, fs, g, h, ha, hb = names[:12]
    src = (f"def {b1}({i1}: int) -> int:\n    return _H({b1!r}, 1, 'int', {{{i1!r}: {i1}}})\n"
           f"def {b2}({b1}: int, {i2}: int) -> str:\n    return _H({b2!r}, 2, 'str', {{{b1!r}: {b1}, {i2!r}: {i2}}})\n")
    refs = {b1: Ref([i1], lambda kw: vrt.value(b1, 1, "int", kw), [b1]), b2: Ref([b1, i2], lambda kw: vrt.value(b2, 2, "str", kw), [b2])}
    pool = [b1, b2, i1, i2] + ONLY
    # a function with some loaded and some plain parameters
    params = [f"p{i}" for i in range(rng.choice([1, 1, 2, 3]))]
    ptypes = {p: rng.choice(["int", "str", "list", "dict", "float"]) for p in params}
    n_load = rng.randrange(0, len(params) + 1)
    load = rng.sample(params, n_load)
    plain = {p: ("int" if True else None) for p in params if p not in load}
    decs, largs = [], {}
    for p in load:
        args = gen_args(ctx, rng, ["key", "alt", "dest"], ("key",), pool)
        largs[p] = args
        inj = "" if len(params) == 1 and rng.random() < .6 else f", inject_={p!r}"
        if inj:
            ctx.observe("injected")
        decs.append(f"@load_from.vfl({', '.join(f'{k}={arg_src(rng, v)}' for k, v in args.items())}{inj})")
    if len(load) > 1:
        ctx.observe("stacked_loaders")
    # the remaining parameters are wired to dataflow names
    wire = {p: rng.choice([b1, i1]) for p in params if p not in load}
    names_in = {}
    sig = []
    for p in params:
        if p in load:
            sig.append((p, ptypes[p]))
            names_in[p] = p
        else:
            sig.append((wire[p], "int"))
    sig = list(dict(sig).items())
    pn = [s[0] for s in sig]
    if len(load) and len(pn) > 1:
        decs = [d if "inject_" in d else d[:-1] + f", inject_={load[0]!r})" for d in decs]
    fk = rng.choice(NKINDS)
    is_async = mode == "async" and not load and rng.random() < .5
    savers = []
    n_save = rng.choice([0, 1, 1, 2])
    for k in range(n_save):
        args = gen_args(ctx, rng, ["dest", "tag", "mode", "extra"], ("dest", "tag"), pool)
        dflt = n_save == 1 and rng.random() < .4
        nm = f"save.{f}" if dflt else f"saved_{k}_{f}"
        ctx.observe("default_name" if dflt else "saves", 1)
        tgt = f", target_={f!r}" if n_save > 1 or rng.random() < .2 else ""
        decs.append(f"@save_to.vfs({', '.join(f'{q}={arg_src(rng, v)}' for q, v in args.items())}" + ("" if dflt else f", output_name_={nm!r}") + tgt + ")")
        savers.append((nm, args))
        if f in ("dest", "tag", "mode", "extra"):
            ctx.observe("name_collision")
    if n_save > 1:
        ctx.observe("stacked_savers")
    rng.shuffle(decs)
    salt = rng.randrange(1000)
    kwtext = ", ".join(f"{p!r}: {p}" for p in pn)
    aw = f"    await _vrt.AH({f!r})\n" if is_async else ""
    src += "\n".join(decs) + ("\n" if decs else "") + (f"{'async ' if is_async else ''}def {f}({', '.join(f'{p}: {t}' for p, t in sig)}) -> {vrt.PYTYPE[fk]}:\n{aw}"
                                                      f"    return _H({f!r}, {salt}, {fk!r}, {{{kwtext}}})\n")
    deps = {}
    for p in pn:
        if p in load:
            for d, o in arg_deps(largs[p], ("key",)).items():
                deps[d] = deps.get(d, True) and o
        else:
            deps[p] = False
    lv = {}
    for p in load:
        refs[f"?load {p}"] = loader_ref(largs[p], TYPES[ptypes[p]])
    refs[f] = Ref([p if p not in load else f"?load {p}" for p in pn],
                  lambda kw: vrt.value(f, salt, fk, {p: (kw[f"?load {p}"][0] if p in load else kw[p]) for p in pn}), [f])
    for nm, args in savers:
        refs[nm] = saver_ref(args, f)
    # another function that loads into a parameter of the same name
    gp = rng.choice(load) if load else None
    if gp:
        gargs = gen_args(ctx, rng, ["key", "alt", "dest"], ("key",), pool)
        gt = rng.choice(["int", "str", "list", "dict", "float"])
        src += (f"@load_from.vfl({', '.join(f'{k}={arg_src(rng, v)}' for k, v in gargs.items())})\n"
                f"def {g}({gp}: {gt}) -> int:\n    return _H({g!r}, 8, 'int', {{{gp!r}: {gp}}})\n")
        refs[f"?load2 {gp}"] = loader_ref(gargs, TYPES[gt])
        refs[g] = Ref([f"?load2 {gp}"], lambda kw: vrt.value(g, 8, "int", {gp: kw[f"?load2 {gp}"][0]}), [g])
        ctx.observe("same_parameter")
    # a saver of one of the several values a function gives
    if rng.random() < .4:
        hargs = gen_args(ctx, rng, ["dest", "tag", "mode", "extra"], ("dest", "tag"), pool)
        tgt = rng.choice([h, ha, hb])
        hnm = rng.choice([f"saved_{h}", None])
        hd = [f"@extract_fields({{{ha!r}: int, {hb!r}: str}})",
              f"@save_to.vfs({', '.join(f'{q}={arg_src(rng, v)}' for q, v in hargs.items())}, target_={tgt!r}" + (f", output_name_={hnm!r})" if hnm else ")")]
        hd.reverse()        # the saver comes after the fields are extracted
        src += "\n".join(hd) + f"\ndef {h}({i1}: int) -> dict:\n    v = _H({h!r}, 9, 'int', {{{i1!r}: {i1}}})\n    return {{{ha!r}: v, {hb!r}: str(v)}}\n"
        refs[h] = Ref([i1], lambda kw: {ha: vrt.value(h, 9, "int", kw), hb: str(vrt.value(h, 9, "int", kw))}, [h])
        refs[ha] = Ref([h], lambda kw: kw[h][ha])
        refs[hb] = Ref([h], lambda kw: kw[h][hb])
        hnm = hnm or f"save.{tgt}"
        refs[hnm] = saver_ref(hargs, tgt)
        savers.append((hnm, hargs))
        ctx.observe("targeted_field")
    src += f"def {after}({f}: {vrt.PYTYPE[fk]}) -> int:\n    return _H({after!r}, 4, 'int', {{{f!r}: {f}}})\n"
    refs[after] = Ref([f], lambda kw: vrt.value(after, 4, "int", kw), [after])
    # function-style loader and saver
    lk = rng.choice(["int", "dict", "str", "none_int", "zero", "empty_dict"])
    lt = vrt.PYTYPE[lk]
    src += (f"@dataloader()\ndef {fl}({i1}: int) -> Tuple[{lt}, dict]:\n    v = _H({fl!r}, 6, {lk!r}, {{{i1!r}: {i1}}})\n    return v, {{'m': {i1}}}\n"
            f"@datasaver()\ndef {fs}({fl}: {lt}, {after}: int) -> dict:\n    return {{'wrote': _H({fs!r}, 7, 'int', {{{fl!r}: {fl}, {after!r}: {after}}})}}\n")
    refs[fl + ".loader"] = Ref([i1], lambda kw: (vrt.value(fl, 6, lk, kw), {"m": kw[i1]}), [fl])
    refs[fl] = Ref([fl + ".loader"], lambda kw: kw[fl + ".loader"][0])
    refs[fs] = Ref([fl, after], lambda kw: {"wrote": vrt.value(fs, 7, "int", kw)}, [fs])
    det = dict(source=src, mode=mode)
    mod = load_module(IMP + src)
    dr = refg.build(mode, [mod])
    ctx.observe("drivers")
    ctx.observe("decorators")
    ctx.observe("mode_" + mode)
    vs = {v.name: v for v in dr.list_available_variables() if not v.is_external_input}
    public = [n for n in refs if not n.startswith("?")]
    ctx.require(set(public) <= set(vs), "missing-nodes", lambda: f"no {set(public) - set(vs)} in {sorted(vs)}", **det)
    # tags let trackers find loaders and savers
    tl = {}
    for v in vs.values():
        if v.tags.get("hamilton.data_loader") and v.tags.get("hamilton.data_loader.has_metadata"):
            tl.setdefault(v.tags.get("hamilton.data_loader.node"), []).append(v)
    ctx.require(set(tl) == set(load) | {fl} and all(len(x) == 1 + (p == gp) for p, x in tl.items()), "wrong-loader-tags", lambda: f"{sorted(tl)}", **det)
    ts = sorted(v.name for v in vs.values() if v.tags.get("hamilton.data_saver"))
    ctx.require(ts == sorted([s[0] for s in savers] + [fs]), "wrong-saver-tags", lambda: f"{ts}", **det)
    for p in load:
        ctx.require(tl[p][0].tags.get("hamilton.data_loader.source") == "vfl", "wrong-loader-tags", lambda: f"{tl[p][0].tags}", **det)
    meta_of = {tl[p][0].name: f"?load {p}" for p in load if p in tl and p != gp}
    for _ in range(3):
        want = rng.sample(sorted(public) + sorted(meta_of), rng.randrange(1, len(public) + 1))
        rq = [meta_of.get(w, w) for w in want]
        over = {}
        if rng.random() < .25:
            o = rng.choice([b1, b2, f, fl])
            k = {b1: "int", b2: "str", f: fk, fl: lt}[o]
            over[o] = loaded({"k": rng.randrange(99)}, TYPES[k])[0]
            ctx.observe("overridden")
        req, opt = refg.externals(refs, rq, over)
        inputs = {i: in_value(rng, None, i) if i in ONLY else rng.randrange(1000) for i in req}
        for i in opt:
            if rng.random() < .5:
                inputs[i] = in_value(rng, None, i) if i in ONLY else rng.randrange(1000)
            else:
                ctx.observe("optional_source_absent")
        exp, calls, memo = refg.evaluate(refs, rq, inputs, over)
        exp = {w: exp[r] for w, r in zip(want, rq)}
        vrt.EVENTS.clear()
        out = refg.run(mode, dr, want, inputs, over)
        d2 = dict(det, inputs=inputs, overrides=over, request=want)
        ctx.require(same(out, exp), "wrong-value", lambda: f"{out} expected {exp}", **d2)
        ctx.require(sorted(vrt.calls()) == sorted(calls), "wrong-calls", lambda: f"{sorted(vrt.calls())} expected {sorted(calls)}", **d2)
        ex = sorted(repr((memo[s]["kw"]["dest"], (memo[s]["kw"], memo[s]["data"]))) for s, _ in savers if s in memo)
        ctx.require(events("save") == ex, "wrong-saves", lambda: f"{events('save')} expected {ex}", **d2)
        lx = sorted(repr((repr(TYPES[ptypes[p]]), arg_values("vfl", largs[p], memo))) for p in load if f"?load {p}" in memo)
        if gp and f"?load2 {gp}" in memo:
            lx = sorted(lx + [repr((repr(TYPES[gt]), arg_values("vfl", gargs, memo)))])
        ctx.require(events("load") == lx, "wrong-loads", lambda: f"{events('load')} expected {lx}", **d2)
        ctx.observe("loads", len(lx))
        if fl in memo:
            ctx.observe("dataloader")
        if fs in memo:
            ctx.observe("datasaver")
    ctx.sig(mode, tuple(decs), fk, len(params), is_async)
    ctx.sample(det)
    unload(mod)


# ------------------------------------------------------------------ which adapter is used
class B0:
    pass


class B1(B0):
    pass


class B2(B1):
    pass


class Other:
    pass


CLS = [B0, B1, B2, Other]
_reg = [0]


@check.family("resolution", 1000, 5000)
def fam_resolution(ctx):
    rng = ctx.rng
    vrt.reset()
    _reg[0] += 1
    key = f"vfr{_reg[0]}"
    load = rng.random() < .5
    adapters = []
    only_any = rng.random() < .1
    for i in range(rng.randrange(1, 5)):
        # (the priority of Any among savers is not specified)
        ts = rng.choice([[c] for c in CLS] + [[B0, Other], [B1, Other]] + ([[typing.Any], [typing.Any], [typing.Any, B1]] if load or only_any else []))
        ts = [typing.Any] if only_any else ts
        fields = [("own", typing.Any, dataclasses.field(default="dflt"))] if rng.random() < .5 else []
        ns = dict(applicable_types=classmethod(lambda cls, ts=ts: ts), name=classmethod(lambda cls, key=key: key))
        if load:
            ns["load_data"] = lambda self, t, i=i: ((f"L{i}", getattr(self, "own", None)), {})
        else:
            ns["save_data"] = lambda self, d, i=i: {"by": f"S{i}", "own": getattr(self, "own", None)}
        c = dataclasses.make_dataclass(f"A{i}", [("path", typing.Any)] + fields, bases=((DataLoader if load else DataSaver),), namespace=ns)
        adapters.append((c, ts, bool(fields)))
        registry.register_adapter(c)
    t = rng.choice(CLS)
    exp = None
    for i, (c, ts, own) in enumerate(adapters):
        if any((issubclass(x, t) if load else issubclass(t, x)) for x in ts if x is not typing.Any):
            exp = i
    if exp is None:
        for i, (c, ts, own) in enumerate(adapters):
            if typing.Any in ts:
                exp = i
                ctx.observe("resolution_any")
    kw = dict(path=1)
    if exp is not None and adapters[exp][2] and rng.random() < .6:
        kw["own"] = "given"
    ctx.observe("resolution" if exp is not None else "resolution_none")
    det = dict(adapters=[str(a[1]) for a in adapters], type=str(t), load=load, kwargs=kw)
    from types import ModuleType
    m = ModuleType(f"{key}_mod")
    sys.modules[m.__name__] = m
    got, err = None, None
    try:
        if load:
            def node(x):
                return x
            node.__annotations__ = {"x": t, "return": t}
            node.__module__ = m.__name__
            m.node = getattr(load_from, key)(**kw)(node)
            dr = driver.Builder().with_modules(m).build()
            got = dr.execute(["node"])["node"]
        else:
            def node():
                return t()
            node.__annotations__ = {"return": t}
            node.__module__ = m.__name__
            adhoc = rng.random() < .3
            if adhoc:
                m.node = node
                dr = driver.Builder().with_modules(m).build()
                got = dr.materialize(getattr(to, key)(id="out", dependencies=["node"], **kw))[0]["out"]
                ctx.observe("late_registration")
            else:
                m.node = getattr(save_to, key)(output_name_="out", **kw)(node)
                dr = driver.Builder().with_modules(m).build()
                got = dr.execute(["out"])["out"]
    except Exception as e:      # noqa: BLE001
        err = e
    finally:
        registry.LOADER_REGISTRY.pop(key, None)
        registry.SAVER_REGISTRY.pop(key, None)
        sys.modules.pop(m.__name__, None)
    if exp is None:
        ctx.require(err is not None, "no-adapter-accepted", lambda: f"got {got}", **det)
    else:
        own = kw.get("own", "dflt") if adapters[exp][2] else None
        want = (f"L{exp}", own) if load else {"by": f"S{exp}", "own": own}
        ctx.require(err is None and got == want, "wrong-adapter", lambda: f"{got} {err!r} expected {want}", **det)
    ctx.sig(load, tuple(map(str, det["adapters"])), str(t))


@check.family("late", 20, 100)
def fam_late(ctx):
    """An adapter registered under an existing key is usable with its own parameters at once."""
    rng = ctx.rng
    cls = type(f"Late{rng.randrange(10**9)}", (), {})
    fields = [f"colour{rng.randrange(10**6)}" for _ in range(rng.randrange(1, 3))]
    key = rng.choice(["json", "pickle", "vfs"])
    c = dataclasses.make_dataclass("LateSaver", [("path", typing.Any)] + [(f, typing.Any, dataclasses.field(default=1)) for f in fields], bases=(DataSaver,),
                                   namespace=dict(applicable_types=classmethod(lambda k: [cls]), name=classmethod(lambda k: key),
                                                  save_data=lambda self, d: {f: getattr(self, f) for f in fields}))
    getattr(to, key)
    registry.register_adapter(c)
    from types import ModuleType
    m = ModuleType(f"late_mod{rng.randrange(10**9)}")
    sys.modules[m.__name__] = m

    def node():
        return cls()
    node.__annotations__ = {"return": cls}
    node.__module__ = m.__name__
    m.node = node
    kw = {f: rng.randrange(100) for f in fields if rng.random() < .7}
    try:
        dr = driver.Builder().with_modules(m).build()
        got = dr.materialize(getattr(to, key)(id="out", dependencies=["node"], path=1, **kw))[0]["out"]
    except Exception as e:      # noqa: BLE001
        got = e
    finally:
        registry.SAVER_REGISTRY[key].remove(c)
        sys.modules.pop(m.__name__, None)
    ctx.observe("late_registration")
    ctx.require(got == {f: kw.get(f, 1) for f in fields}, "late-adapter", lambda: f"{key} {kw}: {got!r}")
    ctx.sig(key, tuple(sorted(kw)))
    # a loader and a saver under keys nobody used before: reachable through from_ / to and the decorators at once
    key = f"vfkey{rng.randrange(10**9)}"
    val = rng.randrange(100)
    lc = dataclasses.make_dataclass("LateLoader", [("n", int), ("plus", int, dataclasses.field(default=1))], bases=(DataLoader,),
                                    namespace=dict(applicable_types=classmethod(lambda k: [int]), name=classmethod(lambda k: key),
                                                   load_data=lambda self, t: (self.n + self.plus, {"n": self.n})))
    sc = dataclasses.make_dataclass("LateSaver2", [("n", int)], bases=(DataSaver,),
                                    namespace=dict(applicable_types=classmethod(lambda k: [int]), name=classmethod(lambda k: key),
                                                   save_data=lambda self, d: {"saved": d, "n": self.n}))
    registry.register_adapter(lc)
    registry.register_adapter(sc)
    m = ModuleType(f"late_mod{rng.randrange(10**9)}")
    sys.modules[m.__name__] = m

    def out(given: int) -> int:
        return given * 2
    out.__module__ = m.__name__
    m.out = out
    via = rng.choice(["materialize", "static"])
    try:
        from hamilton.io.materialization import from_
        mats = [getattr(from_, key)(target="given", n=val), getattr(to, key)(id="kept", dependencies=["out"], n=3)]
        if via == "static":
            got = driver.Builder().with_modules(m).with_materializers(*mats).build().execute(["kept", "out"])
        else:
            a, b = driver.Builder().with_modules(m).build().materialize(*mats, additional_vars=["out"])
            got = {**a, **b}
    except Exception as e:      # noqa: BLE001
        got = e
    finally:
        registry.LOADER_REGISTRY.pop(key)
        registry.SAVER_REGISTRY.pop(key)
        sys.modules.pop(m.__name__, None)
    ctx.observe("late_key")
    ctx.require(got == {"out": 2 * (val + 1), "kept": {"saved": 2 * (val + 1), "n": 3}}, "late-key", lambda: f"{via}: {got!r}")


if __name__ == "__main__":
    check.main()
