"""P25: drivers are independent of one another, of their builder and of what the caller passes in."""
import collections
import copy
import gc
import os
import pickle
import subprocess
import sys
import threading

import vf
import vrt
from cmpv import same, short
from gen import (PLAIN_KINDS, REQ, evaluate, gen_dag, input_value, load_module, required_inputs,
                 unload)

check = vf.Check(
    "P25",
    rule="random sequences of Builder calls (settings in any order, repeated and contradictory ones, "
         "copies, builds in between, changes after a build) against a model of the builder; random "
         "histories of executions, failing executions, materializations, queries, drawings and "
         "validations on several drivers sharing modules, adapters and materializers; concurrent "
         "executions of one driver from several threads with seeded delays; pickled drivers, also in "
         "another process. Oracle: what a fresh driver over a freshly loaded module does / reference "
         "evaluation; deep snapshots of everything passed in. Distinct = sequence x structure",
    assumptions=["user functions do not modify their arguments",
                 "concurrent executions use the default executor (a task executor serves one run at a time)"],
    required=["builders", "built", "copied", "changed_after_build", "refused_twice", "refused_v2",
              "refused_disjoint", "adapter_events", "local_tasks", "remote_tasks", "materialized",
              "history_ops", "history_runs", "history_failures", "history_queries", "shared_modules",
              "thread_runs", "overlapping", "pickled", "pickled_process", "async_builders",
              "snapshots", "grouping_used", "duplicate_refused", "override_allowed", "module_again"],
)


def setup_env():
    import asyncio
    from hamilton import async_driver, base, driver, lifecycle, registry
    from hamilton.execution import executors, grouping
    from hamilton.io import materialization
    from hamilton.io.data_adapters import DataSaver, DataLoader
    import dataclasses
    g = globals()
    g.update(driver=driver, base=base, lifecycle=lifecycle, executors=executors, grouping=grouping,
             async_driver=async_driver, asyncio=asyncio)

    @dataclasses.dataclass
    class Keep(DataSaver):
        where: str

        def save_data(self, data):
            SAVED.append((self.where, data))
            return {"where": self.where}

        @classmethod
        def applicable_types(cls):
            return [object]

        @classmethod
        def name(cls):
            return "vkeep"

    @dataclasses.dataclass
    class Give(DataLoader):
        number: int

        def load_data(self, type_):
            return self.number, {"n": self.number}

        @classmethod
        def applicable_types(cls):
            return [int]

        @classmethod
        def name(cls):
            return "vgive"

    registry.register_adapter(Keep)
    registry.register_adapter(Give)
    from hamilton.io.materialization import from_, to
    g.update(to=to, from_=from_)

    class Rec(lifecycle.NodeExecutionHook):
        def __init__(self, tag):
            self.tag, self.before, self.after = tag, [], []

        def run_before_node_execution(self, *, node_name, **kw):
            self.before.append(node_name)

        def run_after_node_execution(self, *, node_name, **kw):
            self.after.append(node_name)

    class LegacyRec(base.SimplePythonGraphAdapter, lifecycle.NodeExecutionHook):
        def __init__(self, tag):
            super().__init__(base.DictResult())
            self.tag, self.before, self.after = tag, [], []

        def run_before_node_execution(self, *, node_name, **kw):
            self.before.append(node_name)

        def run_after_node_execution(self, *, node_name, **kw):
            self.after.append(node_name)

    class RecExec(executors.SynchronousLocalTaskExecutor):
        def __init__(self, tag):
            self.tag, self.tasks = tag, []

        def submit_task(self, task):
            self.tasks.append(task.task_id)
            return super().submit_task(task)

    class RecGroup(grouping.GroupByRepeatableBlocks):
        def __init__(self, tag):
            self.tag, self.n = tag, 0

        def group_nodes(self, nodes):
            self.n += 1
            return super().group_nodes(nodes)

    g.update(Rec=Rec, LegacyRec=LegacyRec, RecExec=RecExec, RecGroup=RecGroup)


SAVED = []
check.setup(setup_env)

# --------------------------------------------------------------------------------- builder model
M_A = '''
from hamilton.function_modifiers import config
from hamilton.htypes import Parallelizable, Collect

def base_val(cval: int) -> int:
    return cval * 10 + {s}

@config.when(mode="one")
def pick__one(base_val: int) -> int:
    return base_val + 1

@config.when(mode="two")
def pick__two(base_val: int) -> int:
    return base_val + 2

@config.when_not_in(mode=["one", "two"])
def pick__other(base_val: int) -> int:
    return base_val + 3
'''
M_B = '''
def second(pick: int, extra: int = {s}) -> int:
    return pick * 100 + extra
'''
M_C = '''
def base_val(cval: int) -> int:
    return -cval * 7 - {s}
'''
M_P = '''
from hamilton.htypes import Parallelizable, Collect

def fan(base_val: int) -> Parallelizable[int]:
    for i in range({n}):
        yield base_val + i

def leg(fan: int) -> int:
    return fan * 2

def joined(leg: Collect[int]) -> int:
    return sum(leg)
'''


class Model:
    """What a builder has been told."""

    def __init__(self):
        self.v2 = False
        self.config, self.mods, self.adapters, self.mats = {}, [], [], []
        self.legacy = self.manager = self.local = self.remote = self.group = None
        self.allow = False
        self.cache = False

    def copy(self):
        m = copy.copy(self)
        m.config, m.mods = dict(self.config), list(self.mods)
        m.adapters, m.mats = list(self.adapters), list(self.mats)
        return m


def evaluate_model(m, salts, n_items):
    """(values by node, error) of a driver built from this model."""
    fns = {}
    dup = False
    for k in m.mods:
        for f in {"A": ["base_val", "pick"], "B": ["second"], "C": ["base_val"],
                  "P": ["fan", "leg", "joined"]}[k]:
            if f in fns and not m.allow:
                dup = True
            fns[f] = k
    return fns, dup


def values(m, fns, salts, n_items, inputs):
    cval = m.config.get("cval", inputs.get("cval"))
    out = {}
    if "base_val" in fns:
        out["base_val"] = cval * 10 + salts["A"] if fns["base_val"] == "A" else -cval * 7 - salts["C"]
    bv = out.get("base_val", inputs.get("base_val"))
    if "pick" in fns:
        out["pick"] = bv + {"one": 1, "two": 2}.get(m.config.get("mode"), 3)
    pk = out.get("pick", inputs.get("pick"))
    if "second" in fns:
        out["second"] = pk * 100 + m.config.get("extra", inputs.get("extra", salts["B"]))
    if "joined" in fns:
        out["joined"] = sum((bv + i) * 2 for i in range(n_items))
    return out


@check.family("builder", quick=2200, thorough=30000)
def f_builder(ctx):
    rng = ctx.rng
    salts = {k: rng.randrange(100) for k in "ABCP"}
    n_items = rng.choice([0, 1, 3])
    mods = {"A": load_module(M_A.format(s=salts["A"])), "B": load_module(M_B.format(s=salts["B"])),
            "C": load_module(M_C.format(s=salts["C"])), "P": load_module(M_P.format(n=n_items))}
    ctx.observe("builders")
    b = driver.Builder()
    live = [(b, Model())]
    built, steps = [], []
    uniq = iter(range(1000))
    nsteps = rng.choice([6, 10, 14, 20])
    force = rng.random() < .6
    for i in range(nsteps):
        bi = rng.randrange(len(live))
        b, m = live[bi]
        op = rng.choice(["config", "config", "modules", "modules", "adapters", "legacy", "v2", "local",
                         "remote", "manager", "group", "mats", "allow", "copy", "build", "build", "cache"])
        if force and i == 0:
            op = "modules"
        steps.append((bi, op))
        det = dict(steps=steps)

        def expect(fn, ok, apply, why):
            err = None
            before = dict(m.config)
            try:
                r = fn()
            except Exception as e:  # noqa: BLE001
                err = e
            if ok:
                if ctx.require(err is None, f"builder-refuses:{op}", f"{op}: {err!r}", **det):
                    ctx.require(r is b, "builder-not-chainable", f"{op} returned {r!r}", **det)
                    apply()
            else:
                ctx.observe(why)
                ctx.require(err is not None, f"builder-accepts:{op}:{why}",
                            f"{op} accepted although {why}", **det)

        if op == "config":
            c = {}
            for k in rng.sample(["cval", "mode", "extra"], rng.choice([0, 1, 1, 2])):
                c[k] = {"cval": rng.randrange(50), "mode": rng.choice(["one", "two", "three", None, "one", "two"]),
                        "extra": rng.choice([0, 5, 9])}[k]
            given = dict(c)
            expect(lambda: b.with_config(c), True, lambda: m.config.update(given), "")
            ctx.observe("snapshots")
            ctx.require(c == given, "caller-config-changed", f"{c} was {given}", **det)
            if rng.random() < .3:
                c["cval"] = 999999      # the caller goes on using its dictionary
        elif op == "modules":
            ks = [rng.choice("ABC")] if rng.random() < .7 else ["A", "B"]
            if m.allow and rng.random() < .5:       # the same module again: again the last word
                ctx.observe("module_again", len(set(ks) & set(m.mods)))
            else:
                ks = [k for k in ks if k not in m.mods]
            if not m.mods and "A" not in ks and rng.random() < .8:
                ks = ["A"] + ks
            if m.v2 and "P" not in m.mods and rng.random() < .6:
                ks.append("P")
            expect(lambda: b.with_modules(*[mods[k] for k in ks]), True, lambda: m.mods.extend(ks), "")
        elif op == "adapters":
            a = [Rec(next(uniq)) for _ in range(rng.choice([1, 1, 2]))]
            expect(lambda: b.with_adapters(*a), True, lambda: m.adapters.extend(a), "")
        elif op == "legacy":
            a = LegacyRec(next(uniq))
            expect(lambda: b.with_adapter(a), m.legacy is None, lambda: setattr(m, "legacy", a), "refused_twice")
        elif op == "cache":
            from hamilton.caching.stores.memory import InMemoryMetadataStore, InMemoryResultStore
            if rng.random() < .4:
                expect(lambda: b.with_cache(metadata_store=InMemoryMetadataStore(),
                                            result_store=InMemoryResultStore(), default_behavior="disable"),
                       not m.cache, lambda: setattr(m, "cache", True), "refused_twice")
        elif op == "v2":
            if rng.random() < .1:
                expect(lambda: b.enable_dynamic_execution(), False, None, "refused_v2")
            else:
                expect(lambda: b.enable_dynamic_execution(allow_experimental_mode=True), True,
                       lambda: setattr(m, "v2", True), "")
        elif op == "local":
            x = RecExec(next(uniq))
            ok = m.v2 and m.local is None and m.manager is None
            expect(lambda: b.with_local_executor(x), ok, lambda: setattr(m, "local", x),
                   "refused_v2" if not m.v2 else ("refused_twice" if m.local else "refused_disjoint"))
        elif op == "remote":
            x = RecExec(next(uniq))
            ok = m.v2 and m.remote is None and m.manager is None
            expect(lambda: b.with_remote_executor(x), ok, lambda: setattr(m, "remote", x),
                   "refused_v2" if not m.v2 else ("refused_twice" if m.remote else "refused_disjoint"))
        elif op == "manager":
            x = executors.DefaultExecutionManager(RecExec(next(uniq)), RecExec(next(uniq)))
            ok = m.v2 and m.manager is None and m.remote is None and m.local is None
            expect(lambda: b.with_execution_manager(x), ok, lambda: setattr(m, "manager", x),
                   "refused_v2" if not m.v2 else ("refused_twice" if m.manager else "refused_disjoint"))
        elif op == "group":
            x = RecGroup(next(uniq))
            expect(lambda: b.with_grouping_strategy(x), m.v2 and m.group is None,
                   lambda: setattr(m, "group", x), "refused_v2" if not m.v2 else "refused_twice")
        elif op == "mats":
            if "A" in m.mods:
                k = f"mat{next(uniq)}"
                f = to.vkeep(id=k, dependencies=[rng.choice(["base_val", "pick"])], where=k)
                expect(lambda: b.with_materializers(f), True,
                       lambda: m.mats.append((k, f.dependencies[0])), "")
        elif op == "allow":
            expect(lambda: b.allow_module_overrides(), True, lambda: setattr(m, "allow", True), "")
        elif op == "copy":
            live.append((b.copy(), m.copy()))
            ctx.observe("copied")
        elif op == "build":
            if not m.mods:
                continue
            do_build(ctx, b, m, salts, n_items, built, det)
    for b, m in live:
        if m.mods:
            do_build(ctx, b, m, salts, n_items, built, dict(steps=steps))
    ctx.sig(tuple(steps), tuple(sorted(salts)))
    # only now run them all, in any order, some twice
    order = built + rng.sample(built, min(2, len(built)))
    rng.shuffle(order)
    for dr, m, fns, upd in order:
        run_built(ctx, rng, dr, m, fns, salts, n_items, dict(steps=steps))
    ctx.sample(dict(steps=steps, built=len(built)))
    unload(*mods.values())


def do_build(ctx, b, m, salts, n_items, built, det):
    fns, dup = evaluate_model(m, salts, n_items)
    snap = m.copy()
    err = None
    try:
        dr = b.build()
    except Exception as e:  # noqa: BLE001
        err = e
    if dup:
        ctx.observe("duplicate_refused")
        ctx.require(err is not None, "duplicate-function-accepted",
                    f"modules {m.mods} define a function twice, overrides not allowed", **det)
        return
    if m.cache and m.legacy:
        ctx.require(err is not None, "two-executing-adapters-accepted",
                    "the cache and a graph adapter both execute nodes", **det)
        return
    if len(set(m.mods)) > 1 and m.allow and "A" in m.mods and "C" in m.mods:
        ctx.observe("override_allowed")
    if not ctx.require(err is None, "valid-build-refused", f"{err!r}", **det):
        return
    ctx.observe("built")
    built.append((dr, snap, fns, None))


def run_built(ctx, rng, dr, m, fns, salts, n_items, det):
    names = [v.name for v in dr.list_available_variables()]
    exp_nodes = set(fns) | {k for k, _ in m.mats}
    got_nodes = {v.name for v in dr.list_available_variables() if not v.is_external_input}
    det = dict(det, model={k: short(v, 200) for k, v in vars(m).items()})
    ctx.observe("changed_after_build")
    if not ctx.require(exp_nodes <= got_nodes and not any(
            n in got_nodes for n in {"base_val", "pick", "second", "joined"} - exp_nodes),
            "driver-has-other-nodes", f"nodes {sorted(got_nodes)}, expected {sorted(exp_nodes)}", **det):
        return
    if not ctx.require(not (set(k for k in got_nodes if k.startswith("mat")) - {k for k, _ in m.mats}),
                       "driver-has-other-materializers", f"{sorted(got_nodes)}", **det):
        return
    inputs = {}
    for nm, v in (("cval", rng.randrange(40)), ("base_val", 11), ("pick", 13), ("extra", 4)):
        if nm not in fns and nm not in m.config and (nm != "extra" or rng.random() < .5):
            inputs[nm] = v
    cands = [f for f in fns if f not in ("fan", "leg")] + [k for k, _ in m.mats]
    final = rng.sample(cands, rng.randrange(1, len(cands) + 1))
    if "joined" in final and not m.v2:
        final.remove("joined")
    if not final:
        return
    vals = values(m, fns, salts, n_items, inputs)
    recs = m.adapters + ([m.legacy] if m.legacy else [])
    for r in recs:
        r.before.clear()
        r.after.clear()
    ex = [x for x in (m.local, m.remote) if x] + (list(m.manager.executors) if m.manager else [])
    for x in ex:
        x.tasks.clear()
    g0 = m.group.n if m.group else 0
    given, fv = dict(inputs), list(final)
    SAVED.clear()
    try:
        got = dr.execute(fv, inputs=inputs)
    except Exception as e:  # noqa: BLE001
        ctx.violation("built-driver-raised", f"{final}: {e!r}", **det)
        return
    ctx.require(inputs == given and fv == final, "caller-arguments-changed", f"{inputs} {fv}", **det)
    saved = dict(SAVED)
    for f in final:
        if f in vals:
            ctx.require(got[f] == vals[f], "built-driver-wrong-value",
                        f"{f} = {got[f]}, expected {vals[f]} (inputs {inputs})", **det)
    for k, dep in m.mats:
        ctx.require((k in saved) == (k in final) and (k not in final or saved[k] == vals.get(dep, inputs.get(dep))),
                    "materializer-of-builder", f"{k}: saved {saved}, requested {final}", **det)
        if k in final:
            ctx.observe("materialized")
    # which nodes ran
    run = set()

    def visit(n):
        if n in run or n not in exp_all:
            return
        run.add(n)
        for d in deps.get(n, []):
            visit(d)
    deps = {"pick": ["base_val"], "second": ["pick"], "fan": ["base_val"], "leg": ["fan"], "joined": ["leg"]}
    deps.update({k: [d] for k, d in m.mats})
    exp_all = set(fns) | {k for k, _ in m.mats}
    for f in final:
        visit(f)
    want = collections.Counter({n: (n_items if n == "leg" else 1) for n in run})
    for r in recs:
        ctx.observe("adapter_events", len(r.before))
        cb, ca = collections.Counter(r.before), collections.Counter(r.after)
        ctx.require(+cb == +want and +ca == +want, "adapter-of-builder",
                    f"adapter {r.tag} saw {dict(cb)} / {dict(ca)}, expected {dict(want)}", **det)
    if m.v2:
        loc = m.local or (m.manager.executors[0] if m.manager else None)
        rem = m.remote or (m.manager.executors[1] if m.manager else None)
        block = n_items if "joined" in final else 0
        if rem is not None:
            ctx.require(len(rem.tasks) == block, "remote-executor-of-builder",
                        f"remote executor ran {rem.tasks}", **det)
            ctx.observe("remote_tasks", len(rem.tasks))
        if loc is not None:
            ctx.require(len(loc.tasks) > 0 and not (rem is not None and set(loc.tasks) & set(rem.tasks)),
                        "local-executor-of-builder", f"local executor ran {loc.tasks}", **det)
            ctx.observe("local_tasks", len(loc.tasks))
        if m.group:
            ctx.require(m.group.n > g0, "grouping-of-builder", "grouping strategy not used", **det)
            ctx.observe("grouping_used")


@check.family("async_builder", quick=300, thorough=3000)
def f_async_builder(ctx):
    rng = ctx.rng
    salts = {k: rng.randrange(100) for k in "ABCP"}
    mods = {"A": load_module(M_A.format(s=salts["A"])), "B": load_module(M_B.format(s=salts["B"])),
            "C": load_module(M_C.format(s=salts["C"]))}
    b, m = async_driver.Builder(), Model()
    built, steps = [], []
    for i in range(rng.choice([4, 8])):
        op = rng.choice(["config", "config", "modules", "allow", "build"]) if i else "modules"
        steps.append(op)
        if op == "config":
            c = {k: {"cval": rng.randrange(50), "mode": rng.choice(["one", "two", "three"])}[k]
                 for k in rng.sample(["cval", "mode"], rng.choice([1, 2]))}
            b.with_config(c)
            m.config.update(c)
        elif op == "modules":
            ks = [k for k in (["A"] if not m.mods else [rng.choice("BC")]) if k not in m.mods]
            b.with_modules(*[mods[k] for k in ks])
            m.mods += ks
        elif op == "allow":
            b.allow_module_overrides()
            m.allow = True
        if op == "build" or i == 3:
            fns, dup = evaluate_model(m, salts, 0)
            err = None
            try:
                dr = b.build_without_init()
            except Exception as e:  # noqa: BLE001
                err = e
            ctx.require((err is not None) == dup, "async-build-verdict", f"{err!r}, duplicate {dup}", steps=steps)
            if not err:
                built.append((dr, m.copy(), fns))
    rng.shuffle(built)
    for dr, mm, fns in built:
        inputs = {"cval": 3} if "cval" not in mm.config else {}
        final = rng.sample([f for f in fns], rng.randrange(1, len(fns) + 1))
        exp = values(mm, fns, salts, 0, inputs)
        try:
            got = asyncio.run(dr.execute(final, inputs=inputs))
        except Exception as e:  # noqa: BLE001
            ctx.violation("async-built-driver-raised", repr(e), steps=steps)
            continue
        ctx.observe("async_builders")
        ctx.require(got == {f: exp[f] for f in final}, "async-built-driver-wrong-value",
                    f"{got}, expected { {f: exp[f] for f in final} }", steps=steps)
    ctx.sig("async", tuple(steps))
    unload(*mods.values())


# --------------------------------------------------------------------------------- histories
SNIP = {
    "plain": ("def pl_a(x: int, k: int = {a}) -> int:\n    return x * 3 + k\n"
              "def pl_b(pl_a: int, lst: list) -> list:\n    return lst + [pl_a]\n", ["pl_a", "pl_b"]),
    "param": ("@parameterize(pm_1=dict(p=source('x'), q=value({a})), pm_2=dict(p=value({b}), q=source('x')))\n"
              "def pm(p: int, q: int) -> int:\n    return p * 17 + q\n", ["pm_1", "pm_2"]),
    "fields": ("@extract_fields(dict(f_one=int, f_two=str))\n"
               "def fd(x: int) -> dict:\n    return dict(f_one=x + {a}, f_two='s%d' % x)\n", ["fd", "f_one", "f_two"]),
    "columns": ("@extract_columns('c_one', 'c_two')\n"
                "def cf(x: int) -> pd.DataFrame:\n    return pd.DataFrame(dict(c_one=[x, {a}], c_two=[{b}, x]))\n",
                ["cf", "c_one", "c_two"]),
    "config": ("@config.when(mode='one')\ndef cfgd__one(x: int) -> int:\n    return x + {a}\n"
               "@config.when_not(mode='one')\ndef cfgd__not(x: int) -> int:\n    return x - {b}\n", ["cfgd"]),
    "subdag": ("def sd_in(x: int, y: int) -> int:\n    return x * y + {a}\n"
               "def sd_out(sd_in: int) -> int:\n    return sd_in - 1\n"
               "@subdag(sd_in, sd_out, inputs=dict(y=value({b})), namespace='ns1')\n"
               "def sub_one(sd_out: int) -> int:\n    return sd_out * 2\n"
               "@subdag(sd_in, sd_out, inputs=dict(y=source('x')), namespace='ns2')\n"
               "def sub_two(sd_out: int) -> int:\n    return sd_out * 5\n", ["sub_one", "sub_two"]),
    "pipe": ("def _inc(v: int, by: int = 1) -> int:\n    return v + by\n"
             "def _mul(v: int, by: int) -> int:\n    return v * by\n"
             "@pipe_input(step(_inc), step(_mul, by=source('x')).named('pp_mul'))\n"
             "def piped(k2: int) -> int:\n    return k2 + {a}\n"
             "def k2(x: int) -> int:\n    return x + 2\n"
             "@pipe_output(step(_inc, by={b}), step(_mul, by=3).when(mode='one'))\n"
             "def piped_out(x: int) -> int:\n    return x\n", ["piped", "piped_out", "k2"]),
    "mutate": ("def mt(x: int) -> int:\n    return x + {a}\n"
               "@mutate(mt, m2=source('x'))\ndef _mutator(mt: int, m2: int) -> int:\n    return mt * 2 + m2\n", ["mt"]),
    "check": ("@check_output(range=(-10**6, 10**6), importance='fail')\n"
              "def checked(x: int) -> int:\n    return x + {a}\n", ["checked"]),
    "inject": ("def ia(x: int) -> int:\n    return x + {a}\n"
               "@inject(vals=group(source('x'), source('ia'), value({b})))\n"
               "def inj(vals: List[int]) -> int:\n    return sum(vals)\n", ["ia", "inj"]),
    "tagged": ("@tag(owner='me', level='{a}')\ndef tg(x: int) -> int:\n    return x - {a}\n", ["tg"]),
    "does": ("def _sum(**kw) -> int:\n    return sum(kw.values())\n"
             "@does(_sum)\ndef dd(x: int, xx: int = {a}) -> int:\n    pass\n", ["dd"]),
    "save": ("@save_to.vkeep(where=value('sv'), output_name_='saved_sv')\n"
             "def sv(x: int) -> int:\n    return x + {b}\n", ["sv", "saved_sv"]),
    "load": ("@load_from.vgive(number=source('x'))\n"
             "def ld(num: int) -> int:\n    return num + {b}\n", ["ld"]),
    "withcols": ("def wc_c(a: pd.Series, x: int) -> pd.Series:\n    return a + x\n"
                 "def wc_frame(x: int) -> pd.DataFrame:\n    return pd.DataFrame(dict(a=[x, {a}]))\n"
                 "@pd_with_columns(wc_c, columns_to_pass=['a'], select=['wc_c'], namespace='wcn')\n"
                 "def wc(wc_frame: pd.DataFrame) -> pd.DataFrame:\n    return wc_frame\n", ["wc", "wc_frame"]),
    "cached": ("@cache(behavior='disable')\ndef cch(x: int) -> int:\n    return x ^ {a}\n", ["cch"]),
}
SNIP_HDR = ("import pandas as pd\nfrom typing import *\n"
            "from hamilton.function_modifiers import *\n"
            "from hamilton.function_modifiers import base as _b\n"
            "from hamilton.function_modifiers.metadata import cache\n"
            "from hamilton.plugins.h_pandas import with_columns as pd_with_columns\n")


def snap_module(m):
    out = {}
    for k, v in vars(m).items():
        if k.startswith("__"):
            continue
        out[k] = (id(v), repr(sorted((kk, len(vv) if isinstance(vv, (list, dict)) else None)
                                     for kk, vv in getattr(v, "__dict__", {}).items()))
                  if callable(v) and not isinstance(v, type) else None)
    return out


def all_vars(dr):
    return sorted((v.name, str(v.type), repr(sorted((k, t) for k, t in v.tags.items() if k != "module")), v.is_external_input,
                   tuple(sorted(v.required_dependencies)), tuple(sorted(v.optional_dependencies)))
                  for v in dr.list_available_variables())


@check.family("history", quick=500, thorough=9000)
def f_history(ctx):
    rng = ctx.rng
    parts = rng.sample(sorted(SNIP), rng.choice([2, 4, 6, 9, len(SNIP)]))
    pars = {p: dict(a=rng.randrange(1, 60), b=rng.randrange(1, 60)) for p in parts}
    src = SNIP_HDR + "\n".join(SNIP[p][0].format(**pars[p]) for p in parts)
    names = [n for p in parts for n in SNIP[p][1]]
    mod = load_module(src)
    nd = rng.choice([1, 2, 3])
    cfgs = [rng.choice([{}, {"mode": "one"}, {"mode": "two"}]) for _ in range(nd)]
    rec = Rec("shared")
    drs = []
    v2 = [rng.random() < .35 for _ in range(nd)]

    def mk(m, i):
        b = driver.Builder().with_modules(m).with_config(cfgs[i]).with_adapters(rec)
        if v2[i]:
            b = b.enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(
                executors.SynchronousLocalTaskExecutor())
        return b.build()
    try:
        drs = [mk(mod, i) for i in range(nd)]
    except Exception as e:  # noqa: BLE001
        ctx.violation("history-build-raised", repr(e), source=src)
        return
    if nd > 1:
        ctx.observe("shared_modules")
    xs = [rng.randrange(-50, 50) for _ in range(3)]
    lst = [1, 2]

    def plain_run(dr, final, x):
        SAVED.clear()
        r = dr.execute(list(final), inputs=dict(x=x, lst=list(lst)))
        return r, list(SAVED)
    # baseline: each (config, x) on a fresh driver over a freshly loaded copy of the source
    fresh, fresh_vars = {}, {}
    for i in range(nd):
        m2 = load_module(src)
        f2 = mk(m2, i)
        fresh_vars[i] = all_vars(f2)
        for x in xs:
            fresh[i, x] = plain_run(f2, [n for n in names if n != "saved_sv"], x)[0]
        unload(m2)
        del f2, m2
    if rng.random() < .2:
        gc.collect()
    snap = snap_module(mod)
    factories = [to.vkeep(id="h_m1", dependencies=[rng.choice([n for n in names if n != "saved_sv"])], where="h1"),
                 from_.vgive(target="x", number=7)]
    ops = []
    for step in range(rng.choice([4, 8, 14])):
        i = rng.randrange(nd)
        dr = drs[i]
        x = rng.choice(xs)
        final = rng.sample(names, rng.randrange(1, len(names) + 1))
        op = rng.choice(["run", "run", "raw", "fail", "bad", "materialize", "matfrom", "validate", "visual",
                         "list", "upstream", "export", "override", "vmat", "dmat", "cycles"])
        ops.append((i, op))
        det = dict(source=src, ops=ops, final=final, x=x, config=cfgs[i], v2=v2)
        ctx.observe("history_ops")
        inputs = dict(x=x, lst=[1, 2])
        args, fv = copy.deepcopy(inputs), list(final)
        ov = {}
        try:
            if op == "run":
                got = dr.execute(fv, inputs=inputs)
                compare(ctx, got, fresh[i, x], final, det)
            elif op == "raw" and not v2[i]:
                got = dr.raw_execute(fv, inputs=inputs)
                compare(ctx, got, fresh[i, x], final, det)
            elif op == "override":
                nm = rng.choice([n for n in names if n != "saved_sv"])
                ov = {nm: fresh[i, x][nm]}
                got = dr.execute(fv, inputs=inputs, overrides=ov)
                compare(ctx, got, fresh[i, x], final, det)
                ctx.require(list(ov) == [nm], "overrides-changed", f"{ov}", **det)
            elif op == "fail":
                try:
                    dr.execute(fv + (["pl_a"] if "pl_a" in names else []), inputs=dict(x="no int", lst=[]))
                except Exception:  # noqa: BLE001
                    ctx.observe("history_failures")
            elif op == "bad":
                try:
                    dr.execute(fv + ["no_such_node"], inputs=inputs)
                    ctx.violation("unknown-output-accepted", "no_such_node", **det)
                except Exception:  # noqa: BLE001
                    ctx.observe("history_failures")
            elif op in ("materialize", "matfrom"):
                fs = factories[:1] if op == "materialize" else factories
                if op == "matfrom":
                    inputs.pop("x")
                    args.pop("x")
                SAVED.clear()
                meta, res = dr.materialize(*fs, additional_vars=fv, inputs=inputs)
                dep = factories[0].dependencies[0]
                if op == "materialize":
                    compare(ctx, res, fresh[i, x], final, det)
                    ctx.require(any(w == "h1" and same(v, fresh[i, x][dep]) for w, v in SAVED),
                                "materialized-value", f"{SAVED}", **det)
            elif op == "validate":
                dr.validate_execution(fv, inputs=inputs)
            elif op == "vmat":
                dr.validate_materialization(factories[0], additional_vars=fv, inputs=inputs)
            elif op == "dmat":
                dr.visualize_materialization(factories[0], additional_vars=fv, inputs=inputs)
            elif op == "visual":
                rng.choice([lambda: dr.visualize_execution(fv, inputs=inputs), lambda: dr.display_all_functions(),
                            lambda: dr.display_upstream_of(*fv), lambda: dr.display_downstream_of("x")])()
            elif op == "list":
                ctx.observe("history_queries")
                ctx.require(all_vars(dr) == fresh_vars[i], "variables-changed",
                            f"{sorted(set(all_vars(dr)) ^ set(fresh_vars[i]))}", **det)
            elif op == "upstream":
                up = {v.name for v in dr.what_is_upstream_of(*fv)}
                ctx.require(set(final) <= up, "upstream-lost", f"{up}", **det)
                # the returned list is the caller's
                vs = dr.list_available_variables()
                vs.clear()
            elif op == "cycles":
                ctx.require(dr.has_cycles(fv) is False, "cycle-reported", f"{fv}", **det)
            elif op == "export":
                dr.export_execution(fv, inputs=inputs)
        except Exception as e:  # noqa: BLE001
            ctx.violation(f"history-op-raised:{op}", f"{e!r}", **det)
        else:
            ctx.observe("snapshots")
            ctx.require(same(inputs, args) and fv == final, "arguments-changed",
                        f"{op}: {inputs} {fv} were {args} {final}", **det)
    # in the end every driver still is what it was
    for i, dr in enumerate(drs):
        det = dict(source=src, ops=ops, config=cfgs[i], v2=v2)
        ctx.require(all_vars(dr) == fresh_vars[i], "variables-changed",
                    f"{sorted(set(map(repr, all_vars(dr))) ^ set(map(repr, fresh_vars[i])))[:6]}", **det)
        for x in xs[:2]:
            final = [n for n in names if n != "saved_sv"]
            rec.before.clear()
            try:
                got, saved = plain_run(dr, final, x)
            except Exception as e:  # noqa: BLE001
                ctx.violation("history-final-run-raised", repr(e), **det)
                continue
            ctx.observe("history_runs")
            compare(ctx, got, fresh[i, x], final, det)
            ctx.require(not saved, "stray-save", f"{saved}", **det)
    ctx.require(snap_module(mod) == snap, "module-changed",
                f"{[(k, snap.get(k), v) for k, v in snap_module(mod).items() if snap.get(k) != v][:5]}",
                source=src, ops=ops)
    # a driver built after all this is like one built before
    for i in range(nd):
        late = mk(mod, i)
        ctx.require(all_vars(late) == fresh_vars[i], "later-driver-differs",
                    f"{sorted(set(map(repr, all_vars(late))) ^ set(map(repr, fresh_vars[i])))[:6]}",
                    source=src, ops=ops)
        compare(ctx, plain_run(late, [n for n in names if n != "saved_sv"], xs[0])[0], fresh[i, xs[0]],
                [n for n in names if n != "saved_sv"], dict(source=src, ops=ops))
    ctx.sig(tuple(sorted(parts)), tuple(ops))
    ctx.sample(dict(parts=parts, ops=ops))
    unload(mod)


def compare(ctx, got, fresh, final, det):
    ctx.observe("history_runs")
    for f in final:
        if f == "saved_sv":
            ctx.require(f in got and got[f] == {"where": "sv"}, "history-save-metadata", f"{got.get(f)}", **det)
            continue
        ctx.require(f in got and same(got[f], fresh[f]), "history-wrong-value",
                    f"{f}: {short(got.get(f))}, a fresh driver gives {short(fresh[f])}", **det)


# --------------------------------------------------------------------------------- threads
@check.family("threads", quick=200, thorough=4000)
def f_threads(ctx):
    rng = ctx.rng
    dag = gen_dag(rng, n_nodes=rng.choice([4, 8, 12]), n_inputs=3, p_opt=.3)
    mods = dag.modules(rng)
    dr = driver.Builder().with_modules(*mods).build()
    k = rng.choice([2, 4, 6])
    jobs = []
    for _ in range(k):
        final = rng.sample(list(dag.nodes), rng.randrange(1, len(dag.nodes) + 1))
        ov = {}
        if rng.random() < .4:
            nm = rng.choice(list(dag.nodes))
            ov[nm] = vrt.shape(rng.choice(PLAIN_KINDS), rng.randrange(10**6))
        req, _ = required_inputs(dag, final, {}, ov)
        inp = {n: input_value(rng, dag.inputs[n]) for n in dag.inputs if n in req or rng.random() < .4}
        jobs.append((final, inp, ov, evaluate(dag, final, {}, inp, ov)))
    vrt.reset()
    for nm in dag.nodes:
        if rng.random() < .6:
            vrt.DELAY[nm] = rng.choice([.001, .003, .006])
    res = [None] * k
    bar = threading.Barrier(k)

    def go(i):
        final, inp, ov, _ = jobs[i]
        bar.wait()
        try:
            res[i] = ("ok", dr.execute(final, inputs=dict(inp), overrides=dict(ov)))
        except BaseException as e:  # noqa: BLE001
            res[i] = ("err", e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    ths = [threading.Thread(target=go, args=(i,)) for i in range(k)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    sys.setswitchinterval(old)
    evs = list(vrt.EVENTS)
    by = collections.defaultdict(list)
    for e in evs:
        if e[0] == "call":
            by[e[3]].append(e[1])
    seq = [e[3] for e in evs if e[0] == "call"]
    ctx.observe("overlapping", sum(1 for a, b in zip(seq, seq[1:]) if a != b))
    for i in range(k):
        final, inp, ov, (exp, called, _) = jobs[i]
        det = dict(source=dag.sources(), jobs=[(j[0], j[1], j[2]) for j in jobs])
        ctx.observe("thread_runs")
        if not ctx.require(res[i][0] == "ok", "concurrent-run-raised", f"{res[i][1]!r}", **det):
            continue
        for f in final:
            ctx.require(same(res[i][1].get(f), exp[f]), "concurrent-wrong-value",
                        f"thread {i}: {f} = {short(res[i][1].get(f))}, expected {short(exp[f])}", **det)
        got = collections.Counter(by.get(ths[i].ident, []))
        if len(set(t.ident for t in ths)) == k:
            ctx.require(got == collections.Counter(called), "concurrent-calls",
                        f"thread {i} called {dict(got)}, expected {called}", **det)
    vrt.reset()
    ctx.sig(dag.shape_sig(), k, tuple(seq.index(s) for s in seq[:12]))
    unload(*mods)


# --------------------------------------------------------------------------------- pickling
@check.family("pickle", quick=60, thorough=800)
def f_pickle(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    dag = gen_dag(rng, n_inputs=2)
    names = []
    srcs = dag.sources(rng)
    uid = f"{os.getpid()}_{ctx.idx}"
    for j, s in enumerate(srcs):
        nm = f"vfpick_{uid}_{j}"
        open(os.path.join(d, nm + ".py"), "w").write(s)
        names.append(nm)
    sys.path.insert(0, d)
    try:
        import importlib
        importlib.invalidate_caches()
        mods = [importlib.import_module(n) for n in names]
        dr = driver.Builder().with_modules(*mods).build()
        lib = pickle
        if rng.random() < .5:
            import cloudpickle as lib
        if rng.random() < .5:
            run_one(ctx, rng, dag, dr, "before")
        blob = lib.dumps(dr)
        dr2 = pickle.loads(blob)
        ctx.observe("pickled")
        det = dict(source=srcs)
        ctx.require([m.__name__ for m in dr2.graph_modules] == names, "pickled-modules",
                    f"{dr2.graph_modules}", **det)
        ctx.require(all_vars(dr) == all_vars(dr2), "pickled-variables", "variables differ", **det)
        for who, x in (("restored", dr2), ("original", dr)):
            run_one(ctx, rng, dag, x, who)
        if ctx.idx % 6 == 0:
            final = list(dag.nodes)
            inp = {n: input_value(rng, dag.inputs[n]) for n in dag.inputs}
            open(os.path.join(d, "b.pkl"), "wb").write(blob)
            open(os.path.join(d, "i.pkl"), "wb").write(pickle.dumps((final, inp)))
            code = ("import pickle,sys\nsys.path.insert(0,sys.argv[1])\n"
                    "dr=pickle.load(open(sys.argv[1]+'/b.pkl','rb'))\n"
                    "f,i=pickle.load(open(sys.argv[1]+'/i.pkl','rb'))\n"
                    "pickle.dump(dr.execute(f,inputs=i),open(sys.argv[1]+'/o.pkl','wb'))\n")
            p = subprocess.run([sys.executable, "-c", code, d], capture_output=True, text=True)
            if ctx.require(p.returncode == 0, "restored-in-process", p.stderr[-1500:], **det):
                got = pickle.load(open(os.path.join(d, "o.pkl"), "rb"))
                exp = evaluate(dag, final, {}, inp, {})[0]
                ctx.require(same(got, exp), "restored-in-process-value", f"{short(got)} {short(exp)}", **det)
                ctx.observe("pickled_process")
        ctx.sig("pickle", dag.shape_sig())
    finally:
        sys.path.remove(d)
        for n in names:
            sys.modules.pop(n, None)


def run_one(ctx, rng, dag, dr, who):
    final = rng.sample(list(dag.nodes), rng.randrange(1, len(dag.nodes) + 1))
    inp = {n: input_value(rng, dag.inputs[n]) for n in dag.inputs}
    exp = evaluate(dag, final, {}, inp, {})[0]
    try:
        got = dr.execute(final, inputs=inp)
    except Exception as e:  # noqa: BLE001
        ctx.violation(f"pickle-run-raised:{who}", repr(e), source=dag.sources())
        return
    ctx.require(all(same(got.get(f), exp[f]) for f in final), f"pickle-wrong-value:{who}",
                f"{short(got)} expected {short(exp)}", source=dag.sources())


if __name__ == "__main__":
    check.main()
