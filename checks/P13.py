"""P13: a subdag computes what its functions compute in a driver of their own, isolated from its siblings."""
import refg
import vf
import vrt
from cmpv import same
from gen import HEADER, fresh_names, load_module, unload
from refg import Ref

check = vf.Check(
    "P13",
    rule="random inner modules (plain, @config variants, @parameterize, @extract_fields, nested @subdag, async) instantiated several times in one "
         "outer module through @subdag / @parameterized_subdag with source/value inputs, config, namespaces, external inputs; sync, task-based and "
         "async drivers. Oracle: flattening written down independently + reference evaluation. Distinct = instantiation structure x request",
    required=["drivers", "instances", "value_inputs", "source_inputs", "config_given", "outer_fallthrough", "nested", "parameterized",
              "external_inputs", "functions_not_module", "same_module_twice", "inner_requested", "overridden_inner", "config_variants",
              "mode_v1", "mode_v2", "mode_async", "async_functions", "driver_config", "own_external_inputs",
              "external_named_as_input", "config_none"],
)
IMP = HEADER + "from hamilton.function_modifiers import *\n"


@check.setup
def setup_env():
    pass


def literal(rng):
    return rng.choice([0, 1, -3, 17, "a", "", None, True, 2.5, [1, 2], {"k": 3}])


class Inner:
    """A module usable as a subdag: `refs(cfg)` -> (local name -> Ref) for a config."""

    def __init__(self, rng, ctx, outer, depth, is_async):
        self.free = [f"x{depth}0", f"x{depth}1"]                 # bound by the subdag's inputs
        self.funcs = []                          # top-level function names
        self.builders = []                       # cfg -> {local: Ref}
        self.children = []
        src = ""
        names = fresh_names(rng, rng.choice([1, 2, 3, 4]), outer + self.free + ["mode", "k1"])
        avail = self.free + [o for o in outer if o != "k1"] + ["k1"]
        for nm in names:
            kind = rng.choice(["plain", "plain", "plain", "variants", "parameterize", "fields"] + (["nested"] * 2 if depth else []))
            ps = rng.sample(avail, rng.randrange(0, min(4, len(avail) + 1)))
            salt = rng.randrange(1000)
            a_ = is_async and rng.random() < .5
            if kind == "plain":
                dflt = {p: 8 for p in ps if p in outer and rng.random() < .2 and p.startswith("in")}
                ps.sort(key=lambda p: p in dflt)
                sig = ", ".join(f"{p}: Any" + (" = 8" if p in dflt else "") for p in ps)
                src += self.fn(nm, sig, ps, salt, a_)
                self.funcs.append(nm)
                self.builders.append(lambda cfg, nm=nm, ps=ps, salt=salt, dflt=dflt: {nm: Ref(
                    {p: p in dflt for p in ps}, lambda kw: vrt.value(nm, salt, "int", {**dflt, **kw}), [nm])})
                if a_:
                    ctx.observe("async_functions")
            elif kind == "variants":
                ctx.observe("config_variants")
                vs = {}
                for v in ("a", "b"):
                    vps = rng.sample(avail, rng.randrange(0, min(3, len(avail) + 1)))
                    vs[v] = (vps, rng.randrange(1000))
                    src += f"@config.when(mode={v!r})\n" + self.fn(f"{nm}__{v}", ", ".join(f"{p}: Any" for p in vps), vps, vs[v][1], False, f"{nm}__{v}")
                    self.funcs.append(f"{nm}__{v}")
                src += f"@config.when_not_in(mode=['a', 'b'])\n" + self.fn(f"{nm}__o", "", [], salt, False, f"{nm}__o")
                self.funcs.append(f"{nm}__o")

                def bld(cfg, nm=nm, vs=vs, salt=salt):
                    v = cfg.get("mode")
                    ps_, s_, label = (*vs[v], f"{nm}__{v}") if v in vs else ([], salt, f"{nm}__o")
                    return {nm: Ref(ps_, lambda kw: vrt.value(label, s_, "int", kw), [label])}
                self.builders.append(bld)
            elif kind == "parameterize":
                other = f"{nm}_p"
                lit = literal(rng)
                tgt = rng.choice(avail)
                src += f"@parameterize({nm}={{'q': value({lit!r})}}, {other}={{'q': source({tgt!r})}})\n" + self.fn(f"f_{nm}", "q: Any", ["q"], salt, False)
                self.funcs.append(f"f_{nm}")
                self.builders.append(lambda cfg, nm=nm, other=other, lit=lit, tgt=tgt, salt=salt: {
                    nm: Ref([], lambda kw: vrt.value(f"f_{nm}", salt, "int", {"q": lit}), [f"f_{nm}"]),
                    other: Ref([tgt], lambda kw: vrt.value(f"f_{nm}", salt, "int", {"q": kw[tgt]}), [f"f_{nm}"])})
            elif kind == "fields":
                sig = ", ".join(f"{p}: Any" for p in ps)
                kws = ", ".join(f"{p!r}: {p}" for p in ps)
                src += (f"@extract_fields({{{nm + '_k'!r}: int}})\ndef {nm}({sig}) -> dict:\n"
                        f"    return {{{nm + '_k'!r}: _H({nm!r}, {salt}, 'int', {{{kws}}})}}\n\n")
                self.funcs.append(nm)

                def bld(cfg, nm=nm, ps=ps, salt=salt):
                    return {nm: Ref(ps, lambda kw: {nm + "_k": vrt.value(nm, salt, "int", kw)}, [nm]),
                            nm + "_k": Ref([nm], lambda kw: kw[nm][nm + "_k"])}
                self.builders.append(bld)
            else:
                ctx.observe("nested")
                ch = Inner(rng, ctx, avail[:], depth - 1, is_async)
                self.children.append(ch)
                inst = Instance(rng, ctx, ch, nm, avail)
                src += f"import {ch.mod.__name__}\n" + inst.render()
                self.funcs.append(nm)
                self.builders.append(lambda cfg, inst=inst: inst.flatten(cfg))
                avail += list(inst.insts)
                continue
            avail.append(nm)
        self.src = src
        self.mod = load_module(IMP + src)

    @staticmethod
    def fn(nm, sig, ps, salt, a_, label=None):
        kws = ", ".join(f"{p!r}: {p}" for p in ps)
        label = label or nm
        w = f"    await _vrt.AH({label!r})\n" if a_ else ""
        return f"{'async ' if a_ else ''}def {nm}({sig}) -> Any:\n{w}    return _H({label!r}, {salt}, 'int', {{{kws}}})\n\n"

    def refs(self, cfg):
        out = {}
        for b in self.builders:
            out.update(b(cfg))
        return out

    def unload(self):
        for c in self.children:
            c.unload()
        unload(self.mod)


class Instance:
    """One @subdag / @parameterized_subdag function."""

    def __init__(self, rng, ctx, inner, fname, outer_avail, parameterized=False, a_=False):
        self.inner, self.fname, self.a_ = inner, fname, a_
        self.salt = rng.randrange(1000)
        self.param = parameterized
        locs = sorted(n for n, r in inner.refs({}).items() if n.isidentifier())          # names existing whatever the config
        self.fparams = rng.sample(locs, rng.randrange(1, min(3, len(locs)) + 1))
        self.ext = [p for p in outer_avail if rng.random() < .2 and p not in self.fparams][:1]
        if rng.random() < .15:                    # an outer value that has the name of one of the subdag's inputs
            self.ext.append(rng.choice(inner.free))
            ctx.observe("external_named_as_input")
        self.own_ext = {}
        if self.ext:
            ctx.observe("external_inputs")
        mk = lambda: (self.gen_inputs(rng, ctx, outer_avail), self.gen_config(rng, ctx))     # noqa: E731
        self.insts = {}
        if parameterized:
            ctx.observe("parameterized")
            self.common = mk()
            for nm in [f"{fname}_v{i}" for i in range(rng.choice([1, 2, 3]))]:
                i, c = mk()
                i = {k: v for k, v in i.items() if k not in self.common[1] and rng.random() < .7}
                c = {k: v for k, v in c.items() if k not in self.common[0]}
                self.insts[nm] = (nm, i, c)
                if rng.random() < .3:             # replaces the common list, does not merge with it
                    self.own_ext[nm] = self.ext + rng.sample(self.fparams, 1)
                    ctx.observe("own_external_inputs")
        else:
            ns = rng.choice([None, None, f"{fname}_ns"])
            fin = rng.choice([None, None, f"{fname}_final"]) if ns is not None else None
            self.ns, self.fin = ns, fin
            i, c = mk()
            self.insts[fin or fname] = (ns or fname, i, c)
        self.as_functions = rng.random() < .3
        if self.as_functions:
            ctx.observe("functions_not_module")
        self.order = inner.funcs[:]
        rng.shuffle(self.order)

    def gen_inputs(self, rng, ctx, outer_avail):
        out = {}
        for x in self.inner.free:
            r = rng.random()
            if r < .4:
                out[x] = ("value", literal(rng))
                ctx.observe("value_inputs")
            elif r < .8:
                out[x] = ("source", rng.choice(outer_avail))
                ctx.observe("source_inputs")
            else:
                ctx.observe("outer_fallthrough")
        return out

    def gen_config(self, rng, ctx):
        c = {}
        if rng.random() < .5:
            c["mode"] = rng.choice(["a", "b", "zzz", None])
        if rng.random() < .4:
            c["k1"] = rng.choice([rng.randrange(50), rng.randrange(50), 0, None])
        if None in c.values():
            ctx.observe("config_none")
        if c:
            ctx.observe("config_given")
        return c

    def render(self):
        d = lambda i: "{" + ", ".join(f"{k!r}: {v[0]}({v[1]!r})" for k, v in i.items()) + "}"     # noqa: E731
        mod = self.inner.mod.__name__
        what = ", ".join(f"{mod}.{f}" for f in self.order) if self.as_functions else mod
        args = [what]
        if self.param:
            args += [f"inputs={d(self.common[0])}", f"config={self.common[1]!r}"]
            if self.ext:
                args.append(f"external_inputs={self.ext!r}")
            for nm, (_, i, c) in self.insts.items():
                own = f", 'external_inputs': {self.own_ext[nm]!r}" if nm in self.own_ext else ""
                args.append(f"{nm}={{'inputs': {d(i)}, 'config': {c!r}{own}}}")
            deco = "parameterized_subdag"
        else:
            (_, i, c), = self.insts.values()
            args += [f"inputs={d(i)}", f"config={c!r}"]
            if self.ns:
                args.append(f"namespace={self.ns!r}")
            if self.fin:
                args.append(f"final_node_name={self.fin!r}")
            if self.ext:
                args.append(f"external_inputs={self.ext!r}")
            deco = "subdag"
        ps = self.fparams + self.ext
        return f"@{deco}({', '.join(args)})\n" + Inner.fn(self.fname, ", ".join(f"{p}: Any" for p in ps), ps, self.salt, self.a_)

    def flatten(self, cfg):
        out = {}
        self.public = set()
        for final, (ns, inputs, config) in self.insts.items():
            if self.param:
                inputs = {**self.common[0], **inputs}
                config = {**self.common[1], **config}
            refs = self.inner.refs({**cfg, **config})
            local = set(refs) | set(inputs) | set(config)
            q = lambda n: f"{ns}.{n}" if n in local else n      # noqa: E731,B023
            for n, r in refs.items():
                back = {q(d): d for d in r.deps}
                out[q(n)] = Ref({q(d): o for d, o in r.deps.items()},
                                lambda kw, r=r, back=back: r.fn({back[k]: v for k, v in kw.items()}), r.calls, static=r.static)
                if not r.static:
                    self.public.add(q(n))
            for n, (how, v) in inputs.items():
                out[q(n)] = Ref([], lambda kw, v=v: v, static=True) if how == "value" else Ref([v], lambda kw, v=v: kw[v], static=True)
            for n, v in config.items():
                out[q(n)] = Ref([], lambda kw, v=v: v, static=True)
            ext = self.own_ext.get(final, self.ext)
            m = {p if p in ext else f"{ns}.{p}": p for p in self.fparams + self.ext}
            out[final] = Ref(list(m), lambda kw, m=m: vrt.value(self.fname, self.salt, "int", {m[k]: v for k, v in kw.items()}), [self.fname])
            self.public.add(final)
        return out


@check.family("subdag", 6250, 40000)
def fam_subdag(ctx):
    rng = ctx.rng
    vrt.reset()
    mode = rng.choice(refg.MODES)
    outer_in = ["in0", "in1"]
    nodes = fresh_names(rng, 2)
    src, refs = "", {}
    for nm in nodes:
        salt = rng.randrange(1000)
        src += Inner.fn(nm, "in0: Any", ["in0"], salt, False)
        refs[nm] = Ref(["in0"], lambda kw, nm=nm, salt=salt: vrt.value(nm, salt, "int", kw), [nm])
    cfg = {}
    if rng.random() < .5:
        cfg["mode"] = rng.choice(["a", "b"])
        ctx.observe("driver_config")
    if rng.random() < .3:
        cfg["k1"] = rng.randrange(50)
    inners = [Inner(rng, ctx, nodes + outer_in, rng.choice([0, 0, 1, 2]), mode == "async") for _ in range(rng.choice([1, 1, 2]))]
    avail = nodes + outer_in
    public, insts = set(nodes), []
    for i in range(rng.choice([1, 2, 2, 3])):
        inner = rng.choice(inners)
        fname = fresh_names(rng, 1, list(refs) + avail + ["mode", "k1"] + [i.fname for i in insts])[0]
        a_ = mode == "async" and rng.random() < .3
        inst = Instance(rng, ctx, inner, fname, avail, parameterized=rng.random() < .35, a_=a_)
        ctx.observe("instances", len(inst.insts))
        if any(o.inner is inner for o in insts):
            ctx.observe("same_module_twice")
        insts.append(inst)
        src += f"import {inner.mod.__name__}\n" + inst.render()
        new = inst.flatten(cfg)
        if set(new) & set(refs):
            raise vf.Skip("name clash")
        refs.update(new)
        public |= inst.public
        avail += list(inst.insts)
    det = dict(source=src, inner=[i.src for i in inners] + [c.src for i in inners for c in i.children], config=cfg, mode=mode)
    mod = load_module(IMP + src)
    dr = refg.build(mode, [mod], config=dict(cfg))
    ctx.observe("drivers")
    ctx.observe("mode_" + mode)
    names = {v.name for v in dr.list_available_variables() if not v.is_external_input}
    ctx.require(public <= names, "missing-nodes", lambda: f"no {sorted(public - names)}", **det)
    for _ in range(2):
        final = rng.sample(sorted(public), rng.randrange(1, min(len(public), 5) + 1))
        ctx.observe("inner_requested", sum("." in f for f in final))
        overrides = {}
        if rng.random() < .25:
            o = rng.choice(sorted(public - {n for n, r in refs.items() if n.endswith("_k")} - {d for n, r in refs.items() if n.endswith("_k") for d in r.deps}))
            overrides[o] = 777
            ctx.observe("overridden_inner", int("." in o))
        req, opt = refg.externals(refs, final, overrides)
        inputs = {r: rng.randrange(100) for r in req if r not in cfg}
        inputs |= {o: rng.randrange(100) for o in opt if rng.random() < .5 and o not in cfg}
        exp, calls, _ = refg.evaluate(refs, final, {**cfg, **inputs}, overrides)
        vrt.EVENTS.clear()
        try:
            got = refg.run(mode, dr, final, inputs, overrides)
        except Exception as e:      # noqa: BLE001
            ctx.violation("unexpected-error", f"{final}: {type(e).__name__} {str(e)[-1500:]}", inputs=inputs, overrides=overrides, **det)
            continue
        ctx.require(same(got, exp), "wrong-value", lambda: f"{final}: {got} expected {exp}", inputs=inputs, overrides=overrides, **det)
        ctx.require(sorted(vrt.calls()) == sorted(calls), "wrong-calls", lambda: f"{sorted(vrt.calls())} expected {sorted(calls)}", **det)
    ctx.sig(mode, src)
    ctx.sample(dict(source=src, config=cfg))
    unload(mod)
    for i in inners:
        i.unload()


@check.family("own_driver", 1500, 8000)
def fam_own(ctx):
    """Differential: the inner module in a driver of its own gives the same values."""
    from hamilton import driver
    rng = ctx.rng
    vrt.reset()
    inner = Inner(rng, ctx, [], rng.choice([0, 1]), False)
    cfg = {"mode": rng.choice(["a", "b", "c"]), "k1": rng.randrange(50)}
    locs = sorted(n for n, r in inner.refs(cfg).items() if n.isidentifier())
    vals = {x: literal(rng) for x in inner.free}
    for ch in inner.children:       # free names a nested instance leaves unbound
        vals |= {x: literal(rng) for x in ch.free}
    own = driver.Builder().with_modules(inner.mod).with_config(dict(cfg)).build()
    exp = own.execute(locs, inputs=vals)
    src = (f"import {inner.mod.__name__}\n@subdag({inner.mod.__name__}, inputs={{" + ", ".join(f"{k!r}: value({v!r})" for k, v in vals.items())
           + f"}}, config={cfg!r})\ndef outer_fn(" + ", ".join(f"{n}: Any" for n in locs) + ") -> Any:\n    return {" + ", ".join(f"{n!r}: {n}" for n in locs) + "}\n")
    mod = load_module(IMP + src)
    mode = rng.choice(["v1", "v2"])
    dr = refg.build(mode, [mod])
    got = dr.execute(["outer_fn"] + [f"outer_fn.{n}" for n in locs])
    ctx.require(same(got["outer_fn"], exp), "differs-from-own-driver", lambda: f"{got['outer_fn']} expected {exp}", inner=inner.src, source=src)
    ctx.require(all(same(got[f"outer_fn.{n}"], exp[n]) for n in locs), "inner-differs", lambda: f"{got} expected {exp}", inner=inner.src, source=src)
    ctx.observe("drivers")
    ctx.sig(src, inner.src)
    unload(mod)
    inner.unload()


if __name__ == "__main__":
    check.main()
