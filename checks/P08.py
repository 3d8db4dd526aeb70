"""P08: the caching behaviours execute, reuse and store exactly what they promise."""
import collections
import json
import os

import vf
import vrt
from cachelib import Stores, digest, edit_comments
from cmpv import same, short
from gen import HEADER, MISSING, REQ, gen_dag, input_value, load_module, required_inputs, unload

check = vf.Check(
    "P08",
    rule="random histories (6-16 steps: runs, code edits, comment/docstring-only edits, rebuilds with other behaviours, "
         "changes of the outside world, deletions, failures) judged by an exact model of the cache: "
         "metadata (node, code, argument values) -> value and the set of stored values. Distinct = structure x behaviours x steps",
    assumptions=["argument and result values whose fingerprints are known to be shared (KNOWN_FINDINGS of P10) are not used"],
    required=["runs", "executed", "hits", "b_default", "b_recompute", "b_disable", "b_ignore", "from_list", "from_tag",
              "from_default", "from_true", "comment_edits_hit", "world_stale_hit", "world_refreshed", "conflicts", "failed_runs",
              "parallel_item_hits", "parallel_item_runs", "loader_runs", "saver_runs", "log_files", "store_reads", "damaged", "healed"],
)
BEH = ["default", "recompute", "disable", "ignore"]
KINDS = ["int", "int", "str", "list", "dict", "float"]
WORLD = {}


@check.setup
def setup_env():
    from hamilton import driver
    from hamilton.execution import executors
    vrt.W = lambda nm: WORLD.get(nm, 0)
    globals().update(driver=driver, executors=executors)


class Model:
    """What a cache location knows."""

    def __init__(self):
        self.meta = {}          # key -> digest
        self.res = {}           # digest -> value
        self.n = 0

    def unique(self):
        self.n += 1
        return f"<unique{self.n}>"


def render(n, impure):
    s = n.render()
    if n.name in impure:
        s = s.rstrip("\n")
        assert s.endswith("})")
        s = s[:-2] + (", " if n.params else "") + f"'w': _vrt.W({n.name!r})" + "})\n"
    return s


def source_of(dag, impure):
    head = HEADER + "from hamilton.function_modifiers import cache\n"
    return head + "\n" + "\n\n".join(render(n, impure) for n in dag.nodes.values()) + "\n"


def resolve(dag, names, tags, kw):
    """Builder lists, then the @cache tag, then the default behaviour."""
    out, how = {}, {}
    for nm in names:
        lists = [b for b in BEH if kw.get(b) is not None and (kw[b] is True or nm in kw[b])]
        assert len(lists) < 2
        if lists:
            out[nm], how[nm] = lists[0], "from_true" if kw[lists[0]] is True else "from_list"
        elif nm in tags:
            out[nm], how[nm] = tags[nm], "from_tag"
        else:
            out[nm], how[nm] = kw.get("default_behavior") or "default", "from_default"
    return out, how


def model_run(model, dag, impure, beh, final, config, inputs, overrides, raises, called=None):
    """(values, executed, hits, data versions).  With `called` (a failed run) only the nodes in it are stored."""
    memo, vers, executed, hits = {}, {}, [], []
    boom = []

    class Stop(Exception):
        pass

    def need(nm):
        if nm in memo:
            return memo[nm]
        if nm in overrides:
            v = overrides[nm]
            vers[nm] = digest(v)
        elif nm in dag.nodes and nm not in config:
            n = dag.nodes[nm]
            kw, dead = {}, False
            for p, d, _ in n.params:
                try:
                    v = need(p)
                except Stop:
                    dead = True
                    continue
                kw[p] = d if v is MISSING else v
            if dead:
                memo[nm] = Stop
                raise Stop
            v = run_node(n, kw)
        elif nm in config:
            v = config[nm]
            vers[nm] = digest(v)
        elif nm in inputs:
            v = inputs[nm]
            vers[nm] = digest(v)
        else:
            v = MISSING
        memo[nm] = v
        if v is Stop:
            raise Stop
        return v

    def run_node(n, kw):
        nm, b = n.name, beh[n.name]

        def execute():
            executed.append(nm)
            if nm in raises:
                boom.append(nm)
                return Stop
            full = dict(kw, w=WORLD.get(nm, 0)) if nm in impure else kw
            return vrt.value(nm, n.salt, n.kind, full)
        store = called is None or nm in called
        if b in ("disable", "ignore"):
            return execute()
        deps = []
        for p in kw:
            db = beh[p]
            deps.append((p, "<ignore>" if db == "ignore" else model.unique() if db == "disable"
                         else vers.get(p) or digest(kw[p])))
        key = (nm, render(n, impure), tuple(sorted(deps)))
        if b == "default" and key in model.meta and model.meta[key] in model.res:
            hits.append(nm)
            vers[nm] = model.meta[key]
            return model.res[model.meta[key]]
        v = execute()
        if v is Stop:
            return v
        vers[nm] = digest(v)
        if store:
            model.meta[key] = vers[nm]
            model.res[vers[nm]] = v
        return v

    out = {}
    for f in final:
        try:
            v = need(f)
            out[f] = None if v is MISSING else v
        except Stop:
            pass
    return out, executed, hits, vers, boom


def snapshot(model):
    m = Model()
    m.meta, m.res, m.n = dict(model.meta), dict(model.res), model.n
    return m


def gen_behaviours(rng, dag):
    kw = {}
    names = list(dag.nodes) + list(dag.inputs)
    r = rng.random()
    if r < .15:
        kw[rng.choice(BEH)] = True
    elif r < .75:
        rng.shuffle(names)
        i = 0
        for b in rng.sample(BEH, rng.randrange(1, 4)):
            k = rng.randrange(0, 3)
            if rng.random() < .8:
                kw[b] = rng.choice([list, tuple, set])(names[i:i + k])
            i += k
    if rng.random() < .3:
        kw["default_behavior"] = rng.choice(BEH)
    return kw


@check.family("model", 2000, 40000)
def fam_model(ctx):
    rng = ctx.rng
    vrt.reset()
    WORLD.clear()
    dag = gen_dag(rng, n_nodes=rng.choice([2, 3, 4, 5, 6, 8]), n_mods=1, kinds=KINDS, strict=True)
    tags = {}
    for nm, n in dag.nodes.items():
        if rng.random() < .25:
            tags[nm] = rng.choice(BEH)
            n.decorators.append(f"@cache(behavior={tags[nm]!r})")
    impure = {nm for nm in dag.nodes if rng.random() < .3}
    kind = rng.choice(["path", "path", "sql_file", "mem", "mem_file", "sql_mem"])
    st = Stores(ctx, kind)
    config = {nm: input_value(rng, k) for nm, k in dag.inputs.items() if rng.random() < .15}
    pools = {nm: [input_value(rng, k) for _ in range(rng.choice([1, 2, 3]))] for nm, k in dag.inputs.items()}
    model = Model()
    hist, sig = [], []
    mod = dr = None
    log_file = kind == "path" and rng.random() < .2
    events = []
    kwb = gen_behaviours(rng, dag) if rng.random() < .7 else {}

    def rebuild(comments=False):
        nonlocal mod, dr
        if mod:
            unload(mod)
        src = source_of(dag, impure)
        mod = load_module(edit_comments(src, rng) if comments else src)
        kw = dict(st.kwargs(), **kwb)
        if log_file:
            kw["log_to_file"] = True
        dr = driver.Builder().with_modules(mod).with_config(dict(config)).with_cache(**kw).build()

    rebuild()
    last = None
    commented = world_moved = False
    for _ in range(rng.randrange(6, 17)):
        r = rng.random()
        if r < .10:
            nm = rng.choice(list(dag.nodes))
            dag.nodes[nm].salt = rng.choice([1, 2, 3, rng.randrange(1000)])
            hist.append(["edit", nm])
            sig.append("E")
            rebuild()
        elif r < .18:
            hist.append(["comments"])
            sig.append("C")
            commented = True
            rebuild(comments=True)
        elif r < .26:
            kwb = gen_behaviours(rng, dag) if rng.random() < .7 else {}
            hist.append(["behaviours", short(kwb)])
            sig.append("B")
            rebuild()
        elif r < .34 and impure:
            nm = rng.choice(sorted(impure))
            WORLD[nm] = WORLD.get(nm, 0) + 1
            world_moved = True
            hist.append(["world", nm])
            sig.append("W")
        elif r < .40 and model.res:
            # delete some stored results through the public store API
            vals = rng.sample(sorted(model.res), min(2, len(model.res)))
            for d in vals:
                dv = dr.cache.version_data(model.res[d])
                dr.cache.result_store.delete(dv)
                del model.res[d]
            hist.append(["delete", vals])
            sig.append("d")
        else:
            final = rng.sample(list(dag.nodes), rng.randrange(1, min(4, len(dag.nodes)) + 1))
            beh, how = resolve(dag, list(dag.nodes) + list(dag.inputs), tags, kwb)
            overrides = {}
            if rng.random() < .15:
                for nm in rng.sample(list(dag.nodes), 1):
                    if nm not in config and beh[nm] in ("default", "recompute"):
                        overrides[nm] = vrt.shape(dag.nodes[nm].kind, rng.randrange(5))
            if rng.random() < .1 and dag.inputs:
                nm = rng.choice(sorted(dag.inputs))
                if nm not in config and beh[nm] in ("default", "recompute"):
                    overrides[nm] = input_value(rng, dag.inputs[nm])
            inputs = {nm: rng.choice(p) for nm, p in pools.items() if nm not in config and rng.random() < .8}
            if last and rng.random() < .6:
                inputs, final = dict(last[0]), list(last[1])
            req, _ = required_inputs(dag, final, config, overrides)
            inputs.update({nm: pools[nm][0] for nm in set(req) | (set(overrides) & set(pools)) if nm not in inputs})
            last = (inputs, final)
            raises = rng.sample(list(dag.nodes), 1) if rng.random() < .1 else []
            hist.append(["run", final, short(inputs, 200), short(overrides, 80), raises])
            sig.append("r")
            vrt.EVENTS.clear()
            vrt.RAISE.clear()
            for x in raises:
                vrt.RAISE[x] = vrt.VErr
            err = got = None
            try:
                got = dr.execute(final, inputs=inputs, overrides=overrides)
            except vrt.VErr as e:
                err = str(e)
            vrt.RAISE.clear()
            calls = vrt.calls()
            det = dict(history=hist[-16:], behaviours=beh, store=kind, source=source_of(dag, impure)[-2500:])
            before = snapshot(model)
            exp, executed, hits, vers, boom = model_run(model, dag, impure, beh, final, config, inputs, overrides, raises)
            ctx.observe("runs")
            for nm in set(executed) | set(hits):
                ctx.observe("b_" + beh[nm])
                ctx.observe(how[nm])
            dup = [c for c, k in collections.Counter(calls).items() if k > 1]
            ctx.require(not dup, "executed-twice", f"{dup}", **det)
            if boom:
                ctx.observe("failed_runs")
                model = before
                model_run(model, dag, impure, beh, final, config, inputs, overrides, raises, called=set(calls))
                ctx.require(err in boom, "failure-lost", f"raised {err}, model says {boom}", **det)
                ctx.require(set(calls) <= set(executed), "executed-instead-of-reused",
                            lambda: f"ran {sorted(set(calls) - set(executed))}", **det)
            else:
                ctx.observe("executed", len(executed))
                ctx.observe("hits", len(hits))
                if commented and hits:
                    ctx.observe("comment_edits_hit")
                if world_moved and any(h in impure for h in hits):
                    ctx.observe("world_stale_hit")
                if world_moved and any(e in impure for e in executed):
                    ctx.observe("world_refreshed")
                if not ctx.require(err is None, "unexpected-failure", f"{err}", **det):
                    break
                missing, extra = set(executed) - set(calls), set(calls) - set(executed)
                b = {nm: beh[nm] for nm in missing | extra}
                ok = ctx.require(not missing, "reused-instead-of-executed", f"{sorted(missing)} {b}", **det)
                ok &= ctx.require(not extra, "executed-instead-of-reused", f"{sorted(extra)} {b}", **det)
                ok &= ctx.require(same(got, exp), "wrong-value", lambda: f"got {short(got)} model {short(exp)}", **det)
                if not ok:
                    break
                run = dr.cache.last_run_id
                logs = dr.cache.logs(run_id=run)
                seen = {"execute_node": set(), "get_result": set()}
                for nm, es in logs.items():
                    for e in es:
                        seen[e.event_type.value].add(nm)
                ctx.require(seen["execute_node"] == set(calls), "log-executed",
                            lambda: f"log {seen['execute_node']} actual {calls}", **det)
                ctx.require(seen["get_result"] == set(hits), "log-hits",
                            lambda: f"log {seen['get_result']} actual {hits}", **det)
                rb = {nm: b.name.lower() for nm, b in dr.cache.behaviors[run].items() if nm in beh}
                ctx.require(rb == {nm: beh[nm] for nm in rb}, "behaviour-resolution", lambda: f"{rb} model {beh}", **det)
                for nm in rng.sample(sorted(set(executed) | set(hits)), min(2, len(executed) + len(hits))):
                    ck = dr.cache.get_cache_key(run_id=run, node_name=nm)
                    if beh[nm] in ("disable", "ignore"):
                        ctx.require(ck is None, "uncached-has-key", f"{nm} {beh[nm]} {ck}", **det)
                        continue
                    dv = dr.cache.metadata_store.get(ck)
                    ctx.observe("store_reads")
                    ctx.require(dv == dr.cache.get_data_version(run_id=run, node_name=nm), "stored-version",
                                f"{nm}: {dv}", **det)
                    sv = dr.cache.result_store.get(dv)
                    ctx.require(digest(sv) == vers[nm], "stored-result", lambda: f"{nm}: stored {short(sv)} model {vers[nm]}", **det)
            # nothing is stored for values only ignored/disabled nodes produced
            for nm in executed:
                if beh[nm] in ("disable", "ignore") and nm in calls and not boom and got and nm in got:
                    d = digest(got[nm])
                    if d not in model.res:
                        dv = dr.cache.version_data(got[nm])
                        ctx.require(dr.cache.result_store.exists(dv) is False, "uncached-result-stored",
                                    f"{nm} ({beh[nm]}) left its result in the store", **det)
            if log_file:
                events += [(e.run_id, e.node_name, e.event_type.value) for e in dr.cache.logs(level="debug")[dr.cache.last_run_id]]
    if log_file and events:
        ctx.observe("log_files")
        f = os.path.join(st.dir, "cache_logs.jsonl")
        seen = collections.Counter((x["run_id"], x["node_name"], x["event_type"]) for x in map(json.loads, open(f)))
        want = collections.Counter(events)
        ctx.require(all(seen[k] >= v for k, v in want.items()), "log-file", lambda: f"{short(want - seen)} missing in the file")
    ctx.sig(dag.shape_sig(), "".join(sig), repr(sorted(tags.items())))
    ctx.sample(dict(history=hist[:10], tags=tags, store=kind))
    unload(mod)


@check.family("conflicts", 200, 2000)
def fam_conflicts(ctx):
    """Contradictory behaviours are refused before any user function runs."""
    rng = ctx.rng
    vrt.reset()
    dag = gen_dag(rng, n_nodes=rng.choice([2, 4]), n_mods=1, kinds=KINDS, strict=True)
    mod = load_module(source_of(dag, ()))
    st = Stores(ctx, rng.choice(["path", "mem"]))
    a, b = rng.sample(BEH, 2)
    nm = rng.choice(list(dag.nodes))
    mode = rng.choice(["lists", "true_true", "true_list"])
    kw = {"lists": {a: [nm], b: [nm]}, "true_true": {a: True, b: True}, "true_list": {a: True, b: [nm]}}[mode]
    inputs = {i: input_value(rng, k) for i, k in dag.inputs.items()}
    try:
        dr = driver.Builder().with_modules(mod).with_cache(**st.kwargs(), **kw).build()
        dr.execute(list(dag.nodes), inputs=inputs)
        ok = False
    except ValueError:
        ok = True
    ctx.observe("conflicts")
    ctx.require(ok and not vrt.calls(), "conflict-accepted", f"{kw} accepted or functions ran: {vrt.calls()}")
    ctx.sig(mode, a, b, dag.shape_sig())
    unload(mod)


PAR = HEADER + '''
from hamilton.htypes import Parallelizable, Collect
def items(src: list) -> Parallelizable[int]:
    _H("items", 0, "int", {})
    for i in src:
        yield i
def b1(items: int, x: int) -> int:
    return _H("b1", %d, "int", {"items": items, "x": x})
def b2(b1: int%s) -> int:
    return _H("b2", %d, "int", {"b1": b1%s})
def out(b2: Collect[int]) -> list:
    return [_H("out", 0, "int", {"b2": list(b2)}), list(b2)]
def post(out: list, z: int) -> int:
    return _H("post", 0, "int", {"out": out, "z": z})
'''


@check.family("parallel", 160, 2000)
def fam_parallel(ctx):
    """Per-item reuse inside Parallelizable/Collect blocks."""
    rng = ctx.rng
    vrt.reset()
    two = rng.random() < .5
    salts = [rng.randrange(100), rng.randrange(100)]
    ex = rng.choice(["sync", "sync", "threads"])
    st = Stores(ctx, "path" if ex == "threads" else rng.choice(["path", "mem", "sql_file"]))
    model, hist = {}, []
    pool = [rng.randrange(50) for _ in range(8)]
    cur = rng.sample(pool, rng.randrange(0, 5))
    x, z = 1, 1
    disabled = rng.random() < .15
    for step in range(rng.randrange(3, 7)):
        r = rng.random()
        if step:
            if r < .2:
                x += 1
            elif r < .4:
                salts[rng.randrange(2)] += 1
            elif r < .5:
                z += 1
            elif r < .8:
                cur = rng.sample(pool, rng.randrange(0, 6))
            elif r < .9:
                rng.shuffle(cur)
        src = PAR % (salts[0], ", items: int" if two else "", salts[1], ', "items": items' if two else "")
        mod = load_module(src)
        kw = dict(st.kwargs())
        if disabled:
            kw["disable"] = ["b1"]
        dr = (driver.Builder().with_modules(mod).enable_dynamic_execution(allow_experimental_mode=True)
              .with_remote_executor(executors.SynchronousLocalTaskExecutor() if ex == "sync"
                                    else executors.MultiThreadingExecutor(max_tasks=3))
              .with_cache(**kw).build())
        vrt.EVENTS.clear()
        got = dr.execute(["out", "post"], inputs=dict(src=list(cur), x=x, z=z))
        calls = collections.Counter(e[1] for e in vrt.EVENTS if e[0] == "call")
        hist.append([list(cur), x, z, list(salts)])
        # model
        lo, hi = collections.Counter(items=1), collections.Counter(items=1)
        vals, known = [], dict(model)

        def node(nm, key, compute, always=False):
            hit = (nm, key) in known and not always
            if not hit:
                hi[nm] += 1
                # equal items may or may not see one another's fresh result within one run
                if (nm, key) not in model or always:
                    lo[nm] += 1
            else:
                ctx.observe("parallel_item_hits")
            model[(nm, key)] = 1
            return compute()
        for it in cur:
            v1 = node("b1", (salts[0], it, x), lambda: vrt.value("b1", salts[0], "int", {"items": it, "x": x}), always=disabled)
            kw2 = {"b1": v1, **({"items": it} if two else {})}
            v2 = node("b2", (salts[1], v1, it if two else None), lambda: vrt.value("b2", salts[1], "int", kw2), always=disabled)
            vals.append(v2)
        out = node("out", tuple(vals), lambda: [vrt.value("out", 0, "int", {"b2": vals}), vals])
        post = node("post", (tuple(vals), z), lambda: vrt.value("post", 0, "int", {"out": out, "z": z}))
        ctx.observe("parallel_item_runs", calls["b1"])
        det = dict(history=hist, executor=ex, store=st.kind, disabled=disabled)
        ctx.require(same(got, {"out": out, "post": post}), "parallel-wrong-value", lambda: f"{got} expected {out} {post}", **det)
        bad = {k: (calls[k], lo[k], hi[k]) for k in set(hi) | set(calls) if not lo[k] <= calls[k] <= hi[k]}
        ctx.require(not bad, "parallel-executions", f"(ran, least, most) {bad}", **det)
        unload(mod)
    ctx.sig(ex, two, repr(hist))


LS = '''
from hamilton.function_modifiers import dataloader, datasaver, cache
from typing import *
from vrt import H as _H
import vrt as _vrt
%s@dataloader()
def raw(path: str) -> Tuple[int, dict]:
    return _H("raw", 1, "int", {"path": path, "w": _vrt.W("raw")}), {"path": path}
def mid(raw: int) -> int:
    return _H("mid", 2, "int", {"raw": raw})
%s@datasaver()
def save(mid: int, to: str) -> dict:
    return {"to": to, "id": _H("save", 3, "int", {"mid": mid})}
'''


@check.family("loaders", 200, 2000)
def fam_loaders(ctx):
    """Defaults for data loaders and savers."""
    rng = ctx.rng
    vrt.reset()
    WORLD.clear()
    kw, want = {}, {}
    tag = {}
    d = rng.choice([None, None] + BEH)
    if d:
        kw["default_behavior"] = d
    for part, nm in (("loader", "raw"), ("saver", "save")):
        want[nm] = "default"
        if rng.random() < .6:
            b = kw[f"default_{part}_behavior"] = rng.choice(BEH)
            want[nm] = b
        if rng.random() < .2:
            want[nm] = tag[nm] = rng.choice(BEH)
        if rng.random() < .2:
            b = rng.choice(BEH)
            kw.setdefault(b, []).append(nm)
            want[nm] = b
    want["mid"] = d or "default"
    inb = d or "default"
    st = Stores(ctx, rng.choice(["path", "mem"]))
    mod = load_module(LS % tuple(f"@cache(behavior={tag[n]!r})\n" if n in tag else "" for n in ("raw", "save")))
    keys, hist = {}, []
    uniq = [0]
    if rng.random() < .5:
        kws = st.kwargs()
        dr = driver.Builder().with_modules(mod).with_cache(**kws, **kw).build()
    else:
        dr = None
    for step in range(rng.randrange(2, 6)):
        d2 = dr or driver.Builder().with_modules(mod).with_cache(**st.kwargs(), **kw).build()
        if rng.random() < .3:
            WORLD["raw"] = WORLD.get("raw", 0) + 1
        inputs = dict(path=rng.choice("ab"), to=rng.choice("yz"))
        hist.append([dict(inputs), WORLD.get("raw", 0)])
        vrt.EVENTS.clear()
        got = d2.execute(["raw", "mid", "save"], inputs=inputs)
        calls = collections.Counter(vrt.calls())
        exp_calls, vals, vers = collections.Counter(), {}, {}

        def node(nm, deps, compute, version=None):
            b = want[nm]
            k = (nm, tuple(("<ignore>" if db == "ignore" else uniq.__setitem__(0, uniq[0] + 1) or uniq[0] if db == "disable"
                            else v) for db, v in deps))
            if b == "default" and k in keys:
                return keys[k]
            exp_calls[nm] += 1
            v = compute()
            if b in ("default", "recompute"):
                keys[k] = v
            return v
        raw = node("raw", [(inb, inputs["path"])],
                   lambda: vrt.value("raw", 1, "int", {"path": inputs["path"], "w": WORLD.get("raw", 0)}))
        mid = node("mid", [(want["raw"], raw)], lambda: vrt.value("mid", 2, "int", {"raw": raw}))
        save = node("save", [(want["mid"], mid), (inb, inputs["to"])],
                    lambda: {"to": inputs["to"], "id": vrt.value("save", 3, "int", {"mid": mid})})
        ctx.observe("loader_runs", exp_calls["raw"])
        ctx.observe("saver_runs", exp_calls["save"])
        det = dict(history=hist, kw=kw, tags=tag, store=st.kind)
        ctx.require(calls == exp_calls, "loader-executions", f"ran {dict(calls)} expected {dict(exp_calls)} behaviours {want}", **det)
        exp = {"raw": raw, "mid": mid, "save": save}
        if want["save"] == "recompute" or not exp_calls["save"]:
            pass
        if not ctx.require(same(got, exp), "loader-values", lambda: f"{got} expected {exp}", **det):
            break
    ctx.sig(repr(want), repr(hist), st.kind)
    unload(mod)


DAMAGE = HEADER + """
from hamilton.function_modifiers import cache
%sdef a(x: int) -> dict:
    return {"k": _H("a", 1, "int", {"x": x})}
%sdef b(a: dict) -> list:
    return [_H("b", 2, "int", {"a": a})]
%sdef c(b: list, a: dict) -> dict:
    return {"c": _H("c", 3, "int", {"b": b, "a": a})}
"""


@check.family("damage", 150, 1500)
def fam_damage(ctx):
    """Lost or unreadable stored results are recomputed once and are there again afterwards."""
    rng = ctx.rng
    vrt.reset()
    fmt = {"a": ["", "@cache(format='json')\n", "@cache(format='pickle')\n"], "b": ["", "@cache(format='pickle')\n"],
           "c": ["", "@cache(format='json')\n"]}
    decs = {n: rng.choice(o) for n, o in fmt.items()}
    m = load_module(DAMAGE % tuple(decs[n] for n in "abc"))
    st = Stores(ctx, rng.choice(["path", "sql_file", "mem_file"]))
    va = m.a(5)
    exp = {"a": va, "b": m.b(va), "c": m.c(m.b(va), va)}
    hist = []

    def mk(**kw):
        return driver.Builder().with_modules(m).with_cache(**st.kwargs(), **kw).build()

    def run(dr):
        vrt.EVENTS.clear()
        got = dr.execute(["a", "b", "c"], inputs={"x": 5})
        ctx.require(same(got, exp), "wrong-value", lambda: f"{got} expected {exp}", history=hist, formats=decs)
        return set(vrt.calls())
    dr = mk()
    run(dr)
    files = {n: dr.cache.metadata_store.get(dr.cache.get_cache_key(run_id=dr.cache.last_run_id, node_name=n)) for n in "abc"}
    for _ in range(rng.randrange(1, 4)):
        hit = rng.sample("abc", rng.randrange(1, 4))
        how = rng.choice(["truncate", "garbage", "unlink", "materialised"])
        hist.append([how, hit])
        damaged = set()
        for n in hit:
            f = os.path.join(st.result_dir(), files[n])
            mats = [x for x in os.listdir(st.result_dir()) if x.startswith(files[n] + ".")]
            if how == "materialised":
                for x in mats:
                    os.unlink(os.path.join(st.result_dir(), x))
                if mats:
                    damaged.add(n)
                continue
            damaged.add(n)
            if how == "unlink":
                os.unlink(f)
            else:
                data = open(f, "rb").read()
                with open(f, "wb") as fh:
                    fh.write(data[:len(data) // 2] if how == "truncate" else b"junk" + data)
        ctx.observe("damaged", len(damaged))
        if rng.random() < .5:
            dr = mk()
        # recomputing everything also replaces what was lost
        if how in ("unlink", "materialised") and rng.random() < .4:
            hist.append(["recompute"])
            calls = run(mk(recompute=True))
            ctx.require(calls == set("abc"), "reused-instead-of-executed", f"{calls}", history=hist)
            damaged = set()
        calls = run(dr)
        ctx.require(calls == damaged, "damage-executions", f"executed {sorted(calls)}, damaged {sorted(damaged)}", history=hist,
                    formats=decs, store=st.kind)
        calls = run(rng.choice([dr, mk()]))
        ctx.observe("healed")
        ctx.require(not calls, "damage-not-healed", f"executed {sorted(calls)} again", history=hist, formats=decs, store=st.kind)
    ctx.sig(repr(hist), repr(decs), st.kind)
    unload(m)


if __name__ == "__main__":
    check.main()
