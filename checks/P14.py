"""P14: pipe_input, pipe_output and mutate apply exactly the resolved steps, in order, to what they target."""
import refg
import vf
import vrt
from cmpv import same
from gen import HEADER, fresh_names, load_module, unload
from refg import Ref

check = vf.Check(
    "P14",
    rule="random modules with @pipe_input / @pipe_output / @mutate (literal, value and source arguments, also ones sharing an input or named like "
         "another parameter; positional and keyword; conditions on config; targets among extracted fields; stacked decorators; named and namespaced steps), "
         "several drivers over one module; sync, task-based, async. Oracle: plain function composition. Distinct = decorators x config x request",
    required=["drivers", "pipe_input", "pipe_output", "mutate", "on_input", "on_output", "steps_applied", "steps_skipped", "all_skipped",
              "named_requested", "source_args", "shared_source", "name_collision", "positional", "default_arg", "repeated_step", "apply_to",
              "mode_v1", "mode_v2", "mode_async", "async_functions", "stacked", "rebuilt_same_module", "step_namespace"],
)
IMP = HEADER + "from hamilton.function_modifiers import *\n"
DOM = {"region": ["us", "uk", None], "size": [0, 1, 2]}


@check.setup
def setup_env():
    pass


def literal(rng):
    return rng.choice([0, 1, -3, 17, "a", "", None, True, 2.5, [1, 2], {"k": 3}])


class StepFn:
    def __init__(self, rng, name, is_async):
        self.name, self.salt, self.is_async = name, rng.randrange(1000), is_async
        self.params = ["x"] + rng.sample(["y", "z", "in0", "src_a"], rng.randrange(0, 3))
        self.default = rng.random() < .2

    def render(self):
        sig = ", ".join(f"{p}: Any" for p in self.params) + (", unset_q: int = 4" if self.default else "")
        ps = self.params + (["unset_q"] if self.default else [])
        w = f"    await _vrt.AH({self.name!r})\n" if self.is_async else ""
        return (f"{'async ' if self.is_async else ''}def {self.name}({sig}) -> Any:\n{w}"
                f"    return _H({self.name!r}, {self.salt}, 'int', {{{', '.join(f'{p!r}: {p}' for p in ps)}}})\n\n")

    def ref(self, kw):
        return vrt.value(self.name, self.salt, "int", {**kw, **({"unset_q": 4} if self.default else {})})


def gen_cond(rng):
    op = rng.choice(["when", "when_not", "when_in", "when_not_in"])
    k = rng.choice(sorted(DOM))
    v = rng.choice(DOM[k]) if op in ("when", "when_not") else rng.sample(DOM[k], rng.randrange(1, 3))
    pred = {"when": lambda c: c.get(k) == v, "when_not": lambda c: c.get(k) != v,
            "when_in": lambda c: c.get(k) in v, "when_not_in": lambda c: c.get(k) not in v}[op]
    return f".{op}({k}={v!r})", pred


class Step:
    """One application of a step function: bound arguments, conditions, name."""

    def __init__(self, rng, ctx, fn, avail, current, ctor="step", allow_pos=True):
        self.fn = fn
        self.args = {}          # param -> (how, value)
        for p in fn.params[1:]:
            r = rng.random()
            if r < .3:
                self.args[p] = ("raw", literal(rng))
            elif r < .5:
                self.args[p] = ("value", literal(rng))
            else:
                self.args[p] = ("source", rng.choice(avail + [current]))
                ctx.observe("source_args")
        srcs = [v for h, v in self.args.values() if h == "source"] + [current]
        if len(set(srcs)) < len(srcs):
            ctx.observe("shared_source")
        if any(s in fn.params for s in srcs):
            ctx.observe("name_collision")
        if fn.default:
            ctx.observe("default_arg")
        npos = rng.randrange(0, len(self.args) + 1) if allow_pos and rng.random() < .4 else 0
        if npos:
            ctx.observe("positional")
        txt = lambda h, v: repr(v) if h == "raw" else f"{h}({v!r})"     # noqa: E731
        parts = [txt(*self.args[p]) for p in fn.params[1:1 + npos]] + [f"{p}={txt(*self.args[p])}" for p in fn.params[1 + npos:]]
        self.argtext = parts
        self.conds = [gen_cond(rng) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
        self.named = None
        self.ns = ...           # a namespace of the step's own
        self.targets = None
        self.order = rng.random()

    def own_namespace(self, rng, ctx, tag):
        if self.named and rng.random() < .3:
            self.ns = rng.choice([None, f"own{tag}"])
            ctx.observe("step_namespace")

    def text(self, head=None):
        t = (head or f"step({', '.join([self.fn.name] + self.argtext)})")
        mods = [c[0] for c in self.conds]
        if self.targets is not None:
            mods.append(f".on_output({self.targets!r})")
        if self.named and self.ns is ...:
            mods.append(f".named({self.named!r})")
        elif self.named and self.order < .4:
            mods += [f".namespaced({self.ns!r})", f".named({self.named!r})"]
        elif self.named:
            mods.append(f".named({self.named!r}, namespace={self.ns!r})")
        if self.order > .7:
            mods.reverse()
        return t + "".join(mods)

    def active(self, cfg):
        return all(p(cfg) for _, p in self.conds)


def chain(refs, cur, steps, cfg, prefix, ctx, visible, ns):
    for i, st in enumerate(steps):
        if not st.active(cfg):
            ctx.observe("steps_skipped")
            continue
        ctx.observe("steps_applied")
        use = ns if st.ns is ... else st.ns
        nm = (f"{use}.{st.named}" if use else st.named) if st.named else f"${prefix}.{i}"
        deps = {cur: False} | {v: False for h, v in st.args.values() if h == "source"}

        def fn(kw, st=st, cur=cur):
            new = {p: kw[v] if h == "source" else v for p, (h, v) in st.args.items()}
            return st.fn.ref({st.fn.params[0]: kw[cur], **new})
        refs[nm] = Ref(deps, fn, [st.fn.name])
        if st.named:
            visible.append(nm)
        cur = nm
    return cur


@check.family("pipes", 8750, 50000)
def fam_pipes(ctx):
    rng = ctx.rng
    vrt.reset()
    mode = rng.choice(refg.MODES)
    a_ok = mode == "async" and rng.random() < .6
    nodes, ext = ["src_a", "src_b"], ["in0", "y"]
    avail = nodes + ext
    head = ""
    base = {}
    for nm in nodes:
        salt = rng.randrange(1000)
        head += f"def {nm}(in0: Any) -> Any:\n    return _H({nm!r}, {salt}, 'int', {{'in0': in0}})\n\n"
        base[nm] = Ref(["in0"], lambda kw, nm=nm, salt=salt: vrt.value(nm, salt, "int", kw), [nm])
    fns = [StepFn(rng, f"_s{i}", a_ok and rng.random() < .4) for i in range(rng.choice([1, 2, 3]))]
    head += "".join(f.render() for f in fns)
    targets = []
    body = ""
    for t in range(rng.choice([1, 1, 2])):
        fname = f"target{t}"
        params = rng.sample(avail, rng.randrange(1, 4))
        T = dict(fname=fname, params=params, salt=rng.randrange(1000), pin=[], pout=[], fields=None, mutated=[], is_async=a_ok and rng.random() < .5)
        if T["is_async"]:
            ctx.observe("async_functions")
        decs = []
        if rng.random() < .25:
            T["fields"] = rng.choice([[f"fld{t}_a", f"fld{t}_b"], [f"fld{t}", f"fld{t}_b"], [f"fld{t}", f"more_fld{t}"]])
        for k in range(rng.choice([0, 1, 1, 2])):
            on = rng.choice([None] + params) if k == 0 else rng.choice(params)
            tgt = on or params[0]
            if any(o == tgt for o, *_ in T["pin"]):
                continue
            ns = rng.choice([..., ..., None, f"ns{t}{k}"]) if k == 0 else f"ns{t}{k}"
            if k:       # a stacked pipe may reroute names the other pipe's steps use: leave that case alone
                used = {v for _, ss, _ in T["pin"] for s in ss for h, v in s.args.values() if h == "source"}
                if tgt in used:
                    continue
            srcs = [a for a in avail if a not in [o for o, *_ in T["pin"]]]
            steps = [Step(rng, ctx, rng.choice(fns), srcs, tgt) for _ in range(rng.choice([1, 1, 2, 3]))]
            for i, s in enumerate(steps):
                if ns is None or rng.random() < .3:
                    s.named = f"nm{t}{k}{i}"
                if ns is ...:
                    s.own_namespace(rng, ctx, f"{t}{k}")
            if len({s.fn.name for s in steps}) < len(steps):
                ctx.observe("repeated_step")
            T["pin"].append((tgt, steps, ns))
            ctx.observe("pipe_input")
            if on:
                ctx.observe("on_input")
            args = [s.text() for s in steps] + ([f"on_input={on!r}"] if on else []) + ([] if ns is ... else [f"namespace={ns!r}"])
            decs.append("@pipe_input(" + ", ".join(args) + ")")
        if len(T["pin"]) > 1:
            ctx.observe("stacked")
        if rng.random() < .6:
            # one function's pipes need different namespaces (or names) when they share step functions
            ns = ... if T["fields"] else rng.choice([..., f"out{t}"]) if not any(n is ... for *_, n in T["pin"]) else f"out{t}"
            steps = [Step(rng, ctx, rng.choice(fns), avail, avail[0]) for _ in range(rng.choice([1, 2, 3]))]
            glob = None
            if T["fields"] and rng.random() < .4:
                glob = rng.choice([T["fields"][0], [T["fields"][1]], T["fields"]])
            for i, s in enumerate(steps):
                if rng.random() < .3:
                    s.named = f"po{t}{i}"
                if ns is ... and not T["fields"]:
                    s.own_namespace(rng, ctx, f"o{t}")
                if T["fields"] and glob is None and rng.random() < .5:
                    s.targets = rng.choice([T["fields"][0], [T["fields"][1]], list(T["fields"])])
                    ctx.observe("on_output")
            T["pout"] = [(steps, ns, glob)]
            ctx.observe("pipe_output")
            if glob:
                ctx.observe("on_output")
            args = [s.text() for s in steps] + ([f"on_output={glob!r}"] if glob else []) + ([] if ns is ... else [f"namespace={ns!r}"])
            decs.insert(0, "@pipe_output(" + ", ".join(args) + ")")
        if T["fields"]:
            decs.append("@extract_fields({" + ", ".join(f"{f!r}: Any" for f in T["fields"]) + "})")
        w = f"    await _vrt.AH({fname!r})\n" if T["is_async"] else ""
        kws = "{" + ", ".join(f"{p!r}: {p}" for p in params) + "}"
        val = f"_H({fname!r}, {T['salt']}, 'int', {kws})"
        ret = f"    v = {val}\n    return {{{', '.join(f'{f!r}: v + {i}' for i, f in enumerate(T['fields']))}}}\n" if T["fields"] else f"    return {val}\n"
        body += ("\n".join(decs) + "\n" if decs else "") + f"{'async ' if T['is_async'] else ''}def {fname}({', '.join(f'{p}: Any' for p in params)}) -> {'dict' if T['fields'] else 'Any'}:\n{w}{ret}\n"
        targets.append(T)
    for m in range(rng.choice([0, 0, 1, 2])):
        fn = StepFn(rng, f"_m{m}", False)
        common = Step(rng, ctx, fn, avail, avail[0], allow_pos=False)
        common.conds, parts = [], []
        for T in rng.sample(targets, rng.randrange(1, len(targets) + 1)):
            how = rng.choice(["plain", "apply_to", "apply_to_kw"])
            st = Step(rng, ctx, fn, avail, avail[0], allow_pos=False)
            if how != "apply_to_kw":
                st.args, st.argtext = common.args, common.argtext
            if how == "plain":
                st.conds = []
                parts.append(T["fname"])
            else:
                ctx.observe("apply_to")
                if T["fields"] and rng.random() < .5:
                    st.targets = rng.choice([T["fields"][0], list(T["fields"])])
                parts.append(st.text("apply_to(" + ", ".join([T["fname"]] + (st.argtext if how == "apply_to_kw" else [])) + ")"))
            T["mutated"].append(st)
        body += f"@mutate({', '.join(parts + common.argtext)})\n" + fn.render()
        ctx.observe("mutate")
    src = head + body
    # a clash of explicit names is the user's business
    det0 = dict(source=src, mode=mode)
    mod = load_module(IMP + src)
    drivers = []
    for b in range(rng.choice([1, 2])):
        cfg = {k: rng.choice(v) for k, v in DOM.items() if rng.random() < .7}
        refs, visible = dict(base), list(nodes)
        for T in targets:
            f = T["fname"]
            bind = {p: p for p in T["params"]}
            for tgt, steps, ns in T["pin"]:
                bind[tgt] = chain(refs, tgt, steps, cfg, f"{f}.{tgt}", ctx, visible, f if ns is ... else ns)

            def raw(kw, T=T, bind=bind):
                v = vrt.value(T["fname"], T["salt"], "int", {p: kw[n] for p, n in bind.items()})
                return {x: v + i for i, x in enumerate(T["fields"])} if T["fields"] else v
            deps = {n: False for n in bind.values()}
            outs = T["fields"] or [f]
            if T["fields"]:
                refs[f] = Ref(deps, raw, [f])
                visible.append(f)
            for o in outs:
                po = T["pout"][0] if T["pout"] else ((), ..., None)
                steps = []
                if po[2] is None or o == po[2] or (isinstance(po[2], list) and o in po[2]):
                    steps = [s for s in list(po[0]) + T["mutated"] if s.targets is None or s.targets == o or (isinstance(s.targets, list) and o in s.targets)]
                if not T["fields"]:
                    refs[f"${o}.raw"] = Ref(deps, raw, [f])
                else:
                    refs[f"${o}.raw"] = Ref([f], lambda kw, o=o, f=f: kw[f][o])
                last = chain(refs, f"${o}.raw", steps, cfg, f"{o}.out", ctx, visible, o if po[1] is ... else po[1])
                if steps and last == f"${o}.raw":
                    ctx.observe("all_skipped")
                refs[o] = Ref([last], lambda kw, last=last: kw[last])
                visible.append(o)
        drivers.append((refg.build(mode, [mod], config=dict(cfg)), refs, visible, cfg))
        ctx.observe("drivers")
        ctx.observe("mode_" + mode)
    if len(drivers) > 1:
        ctx.observe("rebuilt_same_module")
    rng.shuffle(drivers)
    for dr, refs, visible, cfg in drivers:
        for _ in range(2):
            final = rng.sample(visible, rng.randrange(1, min(5, len(visible)) + 1))
            ctx.observe("named_requested", sum("nm" in f or "po" in f for f in final))
            req, _ = refg.externals(refs, final)
            inputs = {r: rng.randrange(100) for r in req}
            refg.check_run(ctx, mode, dr, refs, final, inputs, {}, same, dict(det0, config=cfg))
    ctx.sig(mode, src, repr([d[3] for d in drivers]))
    ctx.sample(dict(source=src))
    unload(mod)


if __name__ == "__main__":
    check.main()
