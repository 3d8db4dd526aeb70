"""P27: lineage events, recorded schemas and experiment records say exactly what a run did."""
import json
import logging
import os
import threading

import vf
from cmpv import same, short
from gen import load_module, unload

check = vf.Check(
    "P27",
    rule="random dataflows with loaders, savers, dataframes, failing functions, overrides and repeated "
         "runs under OpenLineageAdapter (recording transport; sequential, task-based and threaded "
         "drivers), SchemaValidator (all option combinations, over histories of runs with edited "
         "functions and changing frames on one schema directory) and ExperimentTracker; random pairs "
         "of Arrow schemas for the schema diff. Oracle: an independent hook, the files on disk and a "
         "model of the schema directory. Distinct = structure x options x outcome",
    required=["lineage_runs", "lineage_failures", "datasets_in", "datasets_out", "sql_datasets", "sql_queries", "sql_outputs", "block_datasets",
              "schema_runs", "schema_created", "schema_same", "schema_differs", "schema_missing",
              "schema_warned", "schema_refused", "schema_namespaced", "schema_overwritten", "schema_extra_inputs",
              "diffs", "diffs_nonempty", "experiments", "experiment_failures", "experiment_savers",
              "experiment_reused"],
    extensions=("pandas", "polars", "yaml"),
)


@check.setup
def setup_env():
    import pandas as pd
    import polars as pl
    import pyarrow as pa
    from hamilton import driver, lifecycle
    from hamilton.execution import executors
    from hamilton.io.materialization import from_, to
    from hamilton.plugins import h_openlineage, h_schema
    from hamilton.plugins.h_experiments import hook as h_exp
    from openlineage.client import OpenLineageClient
    from openlineage.client.serde import Serde
    from openlineage.client.transport import Transport

    class Tr(Transport):
        kind = "rec"

        def __init__(self):
            self.events, self.lock = [], threading.Lock()

        def emit(self, event):
            with self.lock:
                self.events.append(Serde.to_dict(event))

    class Truth(lifecycle.NodeExecutionHook, lifecycle.GraphExecutionHook):
        def __init__(self):
            self.runs, self.nodes, self.lock = [], [], threading.Lock()

        def run_before_graph_execution(self, *, run_id, **kw):
            self.runs.append(run_id)

        def run_after_graph_execution(self, **kw):
            pass

        def run_before_node_execution(self, **kw):
            pass

        def run_after_node_execution(self, *, node_name, result, success, **kw):
            with self.lock:
                self.nodes.append((node_name, result, success))

    globals().update(pd=pd, pl=pl, pa=pa, driver=driver, executors=executors, from_=from_, to=to,
                     h_openlineage=h_openlineage, h_schema=h_schema, h_exp=h_exp, Tr=Tr, Truth=Truth,
                     OpenLineageClient=OpenLineageClient)


class Boom(Exception):
    pass


STATE = {}
HDR = '''
import pandas as pd, polars as pl
import json
from typing import *
from hamilton.function_modifiers import dataloader, datasaver, load_from, save_to, source, value, tag, subdag, extract_columns
from hamilton.io import utils
from hamilton.htypes import Parallelizable, Collect
import sys
_S = sys.modules["__main__"].STATE

def _boom(name):
    if _S.get("fail") == name:
        raise _S["error"]
'''


def frame(rng, n=3):
    cols = {}
    for i in range(rng.randrange(1, 4)):
        k = rng.choice(["int", "float", "str"])
        cols[f"c{i}"] = {"int": lambda: [rng.randrange(9) for _ in range(n)],
                         "float": lambda: [rng.randrange(9) + .5 for _ in range(n)],
                         "str": lambda: [rng.choice(["u", "vv"]) for _ in range(n)]}[k]()
    return pd.DataFrame(cols)


def mkdriver(rng, b):
    k = rng.choice(["plain", "plain", "tasks", "threads"])
    if k != "plain":
        b = b.enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(
            executors.SynchronousLocalTaskExecutor() if k == "tasks" else executors.MultiThreadingExecutor(3))
    return b.build(), k


@check.family("lineage", quick=800, thorough=6000)
def f_lineage(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    src = HDR
    names, loaders, savers = ["seed"], {}, {}
    src += "def seed(k: int = 2) -> int:\n    _boom('seed')\n    return k\n\n"
    frames = []
    for i in range(rng.randrange(0, 3)):
        df = frame(rng)
        ext = rng.choice(["csv", "json", "parquet"])
        p = os.path.join(d, f"in{i}.v2.{ext}" if rng.random() < .5 else f"in{i}.{ext}")
        {"csv": lambda: df.to_csv(p, index=False), "json": lambda: df.to_json(p),
         "parquet": lambda: df.to_parquet(p)}[ext]()
        form = rng.choice(["load_from", "dataloader", "sql", "sql", "plain"])
        nm = f"src{i}"
        if form == "load_from":
            src += (f"@load_from.{ext}({'filepath_or_buffer' if ext == 'json' else 'path'}=value({p!r}), inject_='raw{i}')\n"
                    f"def {nm}(raw{i}: pd.DataFrame, seed: int) -> pd.DataFrame:\n    _boom('{nm}')\n    return raw{i}\n\n")
            loaders[nm] = ("file", p, ext, df)
        elif form == "dataloader":
            src += (f"@dataloader()\ndef {nm}(seed: int) -> Tuple[pd.DataFrame, dict]:\n    _boom('{nm}')\n"
                    f"    df = pd.read_{ext}({p!r})\n"
                    f"    return df, utils.get_file_and_dataframe_metadata({p!r}, df)\n\n")
            loaders[nm] = ("file", p, ext, df)
        else:
            what = rng.choice([f"tab{i}", f"SELECT * FROM tab{i}"])
            src += (f"@dataloader()\ndef {nm}(seed: int) -> Tuple[pd.DataFrame, dict]:\n    _boom('{nm}')\n"
                    f"    df = pd.read_{ext}({p!r})\n"
                    f"    return df, " + (f"utils.get_sql_metadata({what!r}, df)" if form == "sql" else "{'rows': len(df)}") + "\n\n")
            loaders[nm] = (form, what, None, df)
        frames.append(nm)
        names.append(nm)
    for i in range(rng.randrange(1, 4)):
        nm = f"calc{i}"
        deps = rng.sample(frames, min(len(frames), rng.choice([0, 1, 2])))
        sig = ", ".join([f"{x}: pd.DataFrame" for x in deps] + ["seed: int"])
        src += (f"def {nm}({sig}) -> pd.DataFrame:\n    _boom('{nm}')\n"
                f"    return pd.DataFrame({{'a{i}': [seed, seed + 1]" +
                "".join(f", 'n{j}': [len({x}), {j}]" for j, x in enumerate(deps)) + "})\n\n")
        frames.append(nm)
        names.append(nm)
    mats = []
    for i in range(rng.choice([0, 1, 1, 2])):
        dep = rng.choice([f for f in frames if f.startswith("calc")])
        ext = rng.choice(["csv", "json", "parquet", "pickle"])
        p = os.path.join(d, f"out{i}.{ext}")
        sid = f"save_it{i}"
        mats.append(getattr(to, ext)(id=sid, dependencies=[dep],
                                     **{"filepath_or_buffer" if ext == "json" else "path": p}))
        savers[sid] = (dep, p, ext)
    if rng.random() < .4:
        p = os.path.join(d, "ds.csv")
        dep = rng.choice([f for f in frames if f.startswith("calc")])
        src += (f"@datasaver()\ndef keep(" + f"{dep}: pd.DataFrame) -> dict:\n    _boom('keep')\n    {dep}.to_csv({p!r})\n"
                f"    return utils.get_file_and_dataframe_metadata({p!r}, {dep})\n\n")
        savers["keep"] = (dep, p, "csv")
        names.append("keep")
    if rng.random() < .3:
        dep = rng.choice([f for f in frames if f.startswith("calc")])
        src += (f"@datasaver()\ndef insert({dep}: pd.DataFrame) -> dict:\n    _boom('insert')\n"
                f"    return utils.get_sql_metadata('outtab', {dep})\n\n")
        savers["insert"] = (dep, "outtab", "sql")
        names.append("insert")
    mod = load_module(src)
    tr, truth = Tr(), Truth()
    ad = h_openlineage.OpenLineageAdapter(OpenLineageClient(transport=tr), "myns", "myjob")
    static = rng.random() < .5
    b = driver.Builder().with_modules(mod).with_adapters(truth, ad)
    if static:
        b = b.with_materializers(*mats)
    dr, kind = mkdriver(rng, b)
    for r in range(rng.choice([1, 2])):
        tr.events.clear(); truth.nodes.clear(); truth.runs.clear()
        final = rng.sample(names, rng.randrange(1, len(names) + 1))
        ids = [m.id for m in mats]
        how = "execute" if static or not mats else "materialize"
        want_ids = rng.sample(ids, rng.randrange(0, len(ids) + 1)) if static else (ids if mats else [])
        inputs = rng.choice([None, {}, {"k": 5}, {"k": 5, "unused": 1}])
        ov = rng.choice([None, None, {}, {"seed": 9}])
        STATE.clear()
        if rng.random() < .3:
            STATE["fail"] = rng.choice(names)
            STATE["error"] = rng.choice([Boom("it broke"), Boom(), KeyError("k'ey"), ValueError("über\nline")])
        det = dict(source=src, final=final, ids=want_ids, how=how, inputs=inputs, overrides=ov, fail=STATE.get("fail"),
                   executor=kind)
        err = res = None
        try:
            if how == "execute":
                res = dr.execute(final + want_ids, inputs=inputs, overrides=ov)
            else:
                _, res = dr.materialize(*mats, additional_vars=final, inputs=inputs, overrides=ov)
        except Exception as e:  # noqa: BLE001
            err = e
        failed = "fail" in STATE and any(not ok for _, _, ok in truth.nodes)
        det["events"] = [(e["eventType"], len(e["inputs"]), len(e["outputs"])) for e in tr.events]
        ctx.require(err is (STATE.get("error") if failed else None), "lineage-changed-outcome", f"{err!r}", **det)
        if not failed:
            for nm, v, ok in truth.nodes:
                if nm in final and nm in res:
                    ctx.require(same(res[nm], v), "lineage-changed-result", f"{nm}", **det)
        ctx.observe("lineage_runs")
        check_lineage(ctx, tr.events, truth, dr, final + want_ids, inputs, ov, loaders, savers, err, det, how)
    ctx.sig(kind, how, len(loaders), len(savers), bool(STATE), r, tuple(l[0] for l in loaders.values()))
    ctx.sample(dict(source=src[-1500:], events=[(e["eventType"], [i.get("name") for i in e["inputs"] + e["outputs"]])
                                               for e in tr.events]))
    unload(mod)


@check.family("lineage_blocks", quick=200, thorough=3000)
def f_lineage_blocks(ctx):
    """Loaders and savers inside a parallel block: one event per item, whatever the executor."""
    rng = ctx.rng
    d = ctx.tmpdir()
    n = rng.choice([0, 1, 2, 4, 7])
    for i in range(n):
        pd.DataFrame({"a": list(range(i + 1))}).to_csv(os.path.join(d, f"p{i}.csv"), index=False)
    bad = rng.choice([None, None, rng.randrange(n)]) if n else None
    mod = load_module(HDR + f'''
import os
def part(n: int) -> Parallelizable[int]:
    for i in range(n):
        yield i

@dataloader()
def chunk(part: int) -> Tuple[pd.DataFrame, dict]:
    if part == {bad!r}:
        raise _S["error"]
    p = os.path.join({d!r}, f"p{{part}}.csv")
    df = pd.read_csv(p)
    return df, utils.get_file_and_dataframe_metadata(p, df)

@datasaver()
def kept(chunk: pd.DataFrame, part: int) -> dict:
    p = os.path.join({d!r}, f"o{{part}}.csv")
    chunk.to_csv(p)
    return utils.get_file_and_dataframe_metadata(p, chunk)

def total(kept: Collect[dict]) -> int:
    return len(kept)
''')
    STATE.clear()
    STATE["error"] = Boom("chunk")
    tr, truth = Tr(), Truth()
    ad = h_openlineage.OpenLineageAdapter(OpenLineageClient(transport=tr), "myns", "myjob")
    ex = rng.choice(["sync", "threads"])
    dr = (driver.Builder().with_modules(mod).with_adapters(truth, ad).enable_dynamic_execution(allow_experimental_mode=True)
          .with_remote_executor(executors.SynchronousLocalTaskExecutor() if ex == "sync" else
                                executors.MultiThreadingExecutor(rng.choice([1, 3]))).build())
    err = res = None
    try:
        res = dr.execute(["total"], inputs={"n": n})
    except Exception as e:  # noqa: BLE001
        err = e
    det = dict(n=n, bad=bad, executor=ex, events=[(e["eventType"], len(e["inputs"]), len(e["outputs"])) for e in tr.events])
    ctx.require(err is (STATE["error"] if bad is not None else None), "lineage-changed-outcome", f"{err!r}", **det)
    if err is None:
        ctx.require(res == {"total": n}, "lineage-changed-result", f"{res}", **det)
    types = [e["eventType"] for e in tr.events]
    ctx.require(types[0] == "START" and types[-1] == ("FAIL" if err else "COMPLETE") and set(types[1:-1]) <= {"RUNNING"},
                "lineage-order", f"{types}", **det)
    ctx.require({e["run"]["runId"] for e in tr.events} == set(truth.runs), "lineage-run-id", f"{truth.runs}", **det)
    ins = sorted(i["facets"]["dataSource"]["uri"] for e in tr.events for i in e["inputs"])
    outs = sorted(i["name"] for e in tr.events for i in e["outputs"])
    wi = sorted(r[1]["file_metadata"]["path"] for nm, r, ok in truth.nodes if ok and nm == "chunk.loader")
    wo = sorted(r["file_metadata"]["path"] for nm, r, ok in truth.nodes if ok and nm == "kept")
    if bad is None:
        ctx.require(wi == sorted(os.path.join(d, f"p{i}.csv") for i in range(n)), "lineage-block-nodes", f"{wi}", **det)
    ctx.observe("block_datasets", len(wi) + len(wo))
    ctx.require(ins == wi and outs == wo, "lineage-block-datasets", f"{ins} / {outs} expected {wi} / {wo}", **det)
    ctx.sig("blocks", n, bad, ex)
    unload(mod)


def check_lineage(ctx, evs, truth, dr, req, inputs, ov, loaders, savers, err, det, how):
    types = [e["eventType"] for e in evs]
    end = "FAIL" if err is not None else "COMPLETE"
    if not ctx.require(len(types) >= 2 and types[0] == "START" and types[-1] == end and
                       all(t == "RUNNING" for t in types[1:-1]), "lineage-order", f"{types}, end {end}", **det):
        return
    rid = truth.runs[-1]
    for e in evs:
        ctx.require(e["run"]["runId"] == rid, "lineage-run-id", f"{e['run']['runId']} is not {rid}", **det)
        ctx.require((e["job"]["namespace"], e["job"]["name"]) == ("myns", "myjob"), "lineage-job", f"{e['job']}", **det)
    h = evs[0]["run"]["facets"]["hamilton"]
    ctx.require(h["hamilton_run_id"] == rid and sorted(h["final_vars"]) == sorted(req) and
                sorted(h["inputs"]) == sorted(inputs or {}) and sorted(h["overrides"]) == sorted(ov or {}),
                "lineage-start", f"{h}; requested {req}", **det)
    code = json.loads(evs[0]["job"]["facets"]["sourceCode"]["sourceCode"])
    names = {n["name"] for n in code}
    want = set(dr.graph.nodes)
    ctx.require(want <= names and (names == want or how == "materialize"), "lineage-source",
                f"{sorted(names ^ want)}", **det)
    if err is not None:
        ctx.observe("lineage_failures")
        m = evs[-1]["run"]["facets"].get("errorMessage", {})
        ctx.require(m.get("message") == str(err) and type(err).__name__ in m.get("stackTrace", ""), "lineage-error",
                    f"{m} for {err!r}", **det)
    else:
        ctx.require("errorMessage" not in evs[-1]["run"]["facets"], "lineage-error", "error in a successful run", **det)
    # datasets
    def fc(o, *path):
        for k in ("facets",) + path:
            o = (o or {}).get(k)
        return o
    outs = sorted((o["name"], fc(o, "dataSource", "name"), fc(o, "dataSource", "uri"), fc(o, "storage", "fileFormat"),
                   tuple((f["name"], f["type"]) for f in fc(o, "schema", "fields") or [])) for e in evs for o in e["outputs"])
    ok = [n for n, _, s in truth.nodes if s]
    vals = {n: v for n, v, s in truth.nodes if s}
    wanted = []
    for sid, (dep, p, ext) in savers.items():
        for _ in range(ok.count(sid)):
            if ext == "sql":
                wanted.append((p, None, None, None, ()))
                ctx.observe("sql_outputs")
                continue
            df = vals[dep]
            cols = tuple(zip(map(str, df.columns), map(str, df.dtypes))) if ext != "pickle" else ()
            wanted.append((p, sid, p, ext, cols))
    wanted.sort()
    ctx.observe("datasets_out", len(wanted))
    ctx.require([o if o[3] != "pickle" else o[:4] + ((),) for o in outs] == wanted, "lineage-outputs",
                f"{outs} expected {wanted}", **det)
    ins = [(e, i) for e in evs for i in e["inputs"]]
    want_in = []
    for nm, (k, where, ext, df) in loaders.items():
        cands = [x for x in ok if x not in loaders and (x.startswith(nm + ".") or f".{nm}." in x or
                                                        x.endswith(f".raw{nm[3:]}")) and isinstance(vals[x], tuple)]
        want_in += [(k, where, ext, vals[x][0]) for x in cands]
        if nm + ".loader" in cands and k == "file":
            ctx.require([i.get("name") for _, i in ins].count(nm) == 1, "lineage-input-name",
                        f"{nm}: {[i.get('name') for _, i in ins]}", **det)
    ctx.require(len(ins) == len(want_in), "lineage-inputs", f"{[i.get('name') for _, i in ins]} expected "
                f"{[w[1] for w in want_in]}", ran=ok, **det)
    for k, where, ext, df in want_in:
        if k == "file":
            ctx.observe("datasets_in")
            m = [i for _, i in ins if i.get("facets", {}).get("dataSource", {}).get("uri") == where]
            if ctx.require(len(m) == 1, "lineage-input", f"{where}: {[i for _, i in ins]}", **det):
                ctx.require(m[0]["facets"]["storage"]["fileFormat"] == ext, "lineage-input-format",
                            f"{where} reported as {m[0]['facets']['storage']['fileFormat']}", **det)
                fl = [(f["name"], f["type"]) for f in m[0]["facets"].get("schema", {}).get("fields", [])]
                ctx.require(fl == list(zip(map(str, df.columns), map(str, df.dtypes))), "lineage-input-schema",
                            f"{where}: {fl} expected {df.dtypes}", **det)
        elif k == "plain":
            ctx.require(any(not i.get("facets") for _, i in ins), "lineage-plain-input", f"{[i for _, i in ins]}", **det)
        elif "SELECT" in where:
            ctx.observe("sql_queries")
            m = [e for e, i in ins if e["job"].get("facets", {}).get("sql", {}).get("query") == where]
            ctx.require(len(m) == 1, "lineage-sql-query", f"{where}: {[e['job'] for e, _ in ins]}", **det)
        else:
            ctx.observe("sql_datasets")
            m = [i for _, i in ins if i.get("name") == where]
            ctx.require(len(m) == 1, "lineage-sql-input", f"{where}: {[i for _, i in ins]}", **det)


# ------------------------------------------------------------------------------------- schemas
TYPES = {"int64": lambda: [1, 2], "float64": lambda: [1.5, 2.5], "bool": lambda: [True, False], "object": lambda: ["a", "b"]}
PL = {"int64": "Int64", "float64": "Float64", "bool": "Boolean", "object": "String"}


def render(spec, ver):
    """spec: node -> (lib, [(col, type)], doc); ver: changes the code of a node without its frame."""
    out = HDR
    for nm, (lib, cols, doc) in spec.items():
        body = "{" + ", ".join(f"{c!r}: {TYPES[t]()!r}" for c, t in cols) + "}"
        if lib == "pd":
            ret, typ = f"pd.DataFrame({body})", "pd.DataFrame"
        elif lib == "pl":
            ret, typ = f"pl.DataFrame({body})", "pl.DataFrame"
        else:
            ret, typ = f"{len(cols)}", "int"
        out += (f"def {nm}(dep_in: Any = None) -> {typ}:\n    '''{doc}'''\n    _boom({nm!r})\n    _v = {ver.get(nm, 0)}\n"
                f"    return {ret}\n\n")
    return out


class CatchLog(logging.Handler):
    def __init__(self):
        super().__init__()
        self.msgs = []

    def emit(self, record):
        self.msgs.append(record.getMessage())


@check.family("schema", quick=900, thorough=9000)
def f_schema(ctx):
    rng = ctx.rng
    d = os.path.join(ctx.tmpdir(), "sch")
    names = rng.sample(["users", "orders", "items", "sess"], rng.randrange(1, 4))

    def cols():
        return [(c, rng.choice(list(TYPES))) for c in sorted(rng.sample("abcd", rng.randrange(1, 4)))]
    spec = {n: (rng.choice(["pd", "pd", "pl", "int"]), cols(), rng.choice(["Doc.", "Doc. Longer.", "Other doc."])) for n in names}
    ver = {}
    stored = {}           # node -> (lib, cols, doc, ver)
    hist = []
    for run in range(rng.choice([2, 3, 5])):
        if run:
            for n in names:
                z = rng.random()
                lib, cs, doc = spec[n]
                if z < .2:
                    cs = cols()
                elif z < .3 and lib != "int":
                    cs = [(c, rng.choice(list(TYPES))) for c, _ in cs]
                elif z < .4:
                    doc = rng.choice(["Doc.", "Doc. Longer.", "Other doc."])
                elif z < .5:
                    ver[n] = ver.get(n, 0) + 1
                spec[n] = (lib, cs, doc)
        opt = dict(check=rng.random() < .8, must_exist=rng.random() < .2, importance=rng.choice(["warn", "fail"]),
                   check_schema_metadata=rng.random() < .3, check_field_metadata=rng.random() < .25)
        ns = rng.random() < .5          # the same nodes below a namespace: names with dots
        src = render(spec, ver)
        mod = load_module(src)
        mods = [mod]
        pre = ""
        if ns:
            pre = "spc."
            other = load_module(HDR + f'''
import sys
_m = sys.modules[{mod.__name__!r}]
@subdag({", ".join("_m." + n for n in names)})
def spc({", ".join(f"{n}: Any" for n in names)}) -> int:
    return 1
''')
            mods = [other]
            ctx.observe("schema_namespaced")
        STATE.clear()
        sv = h_schema.SchemaValidator(schema_dir=d, **opt)
        truth = Truth()
        dr = driver.Builder().with_modules(*mods).with_adapters(truth, sv).build()
        req = rng.sample(names, rng.randrange(1, len(names) + 1))
        inputs = {}
        if rng.random() < .3:
            inputs["unused_frame"] = pd.DataFrame({"q": [1]})
            ctx.observe("schema_extra_inputs")
        elif rng.random() < .3:
            inputs["dep_in"] = pd.DataFrame({"z" + rng.choice("12"): [1.5]})
        final = [pre + n for n in req]
        hist.append(dict(opt=opt, spec=dict(spec), ver=dict(ver), namespaced=ns, inputs=list(inputs), final=final))
        lg = CatchLog()
        logging.disable(logging.NOTSET)
        log = logging.getLogger("hamilton.plugins.h_schema")
        quiet = logging.getLogger("hamilton")
        lvl, prop, qp = log.level, log.propagate, quiet.level
        log.addHandler(lg)
        log.propagate = False
        log.setLevel(logging.WARNING)
        root = logging.getLogger()
        rl = root.level
        hx = logging.getLogger("hamilton.execution")
        old = hx.disabled
        err = res = None
        for nme in ("hamilton.execution.graph_functions", "hamilton.driver"):
            logging.getLogger(nme).disabled = True
        try:
            res = dr.execute(final, inputs=inputs)
        except Exception as e:  # noqa: BLE001
            err = e
        finally:
            logging.disable(logging.CRITICAL)
            log.removeHandler(lg)
            log.propagate = prop
            log.setLevel(lvl)
            for nme in ("hamilton.execution.graph_functions", "hamilton.driver"):
                logging.getLogger(nme).disabled = False
        det = dict(history=hist, error=repr(err))
        ctx.observe("schema_runs")
        # model
        order = [n for n, _, _ in truth.nodes]
        seq = []
        if "dep_in" in inputs and not ns:
            seq.append(("dep_in", ("pd", [(inputs["dep_in"].columns[0], "float64")], "", "input")))
        elif "dep_in" in inputs:
            seq.append(("dep_in", ("pd", [(inputs["dep_in"].columns[0], "float64")], "", "input")))
        for nm in order:
            base = nm[len(pre):]
            if base in spec and nm == pre + base and spec[base][0] != "int":
                seq.append((nm, spec[base] + (ver.get(base, 0),)))
        expect, diffs = None, []
        for nm, cur in seq:
            if not opt["check"]:
                if nm in stored:
                    ctx.observe("schema_overwritten")
                stored[nm] = cur
                continue
            if nm not in stored:
                if opt["must_exist"]:
                    expect = ("missing", nm)
                    ctx.observe("schema_missing")
                    break
                stored[nm] = cur
                ctx.observe("schema_created")
                continue
            ref = stored[nm]
            if cur[0] != ref[0]:
                return
            meta = opt["check_schema_metadata"] and (cur[2] != ref[2] or cur[3] != ref[3])
            if nm == "dep_in":
                meta = False if not opt["check_schema_metadata"] else None
            if meta is None and cur[1] == ref[1]:
                # the version of an input node is not defined here
                return
            if cur[1] == ref[1] and not meta:
                ctx.observe("schema_same")
                continue
            ctx.observe("schema_differs")
            diffs.append((nm, cur, ref))
            if opt["importance"] == "fail":
                expect = ("differs", nm)
                ctx.observe("schema_refused")
                break
            ctx.observe("schema_warned")
        if expect is None:
            ctx.require(err is None, "schema-run-fails", f"{err!r}", **det)
        elif expect[0] == "missing":
            ctx.require(isinstance(err, FileNotFoundError), "schema-missing-accepted", f"{err!r} {expect}", **det)
        else:
            if ctx.require(isinstance(err, RuntimeError), "schema-difference-accepted", f"{err!r} {expect}", **det):
                check_readable(ctx, str(err), diffs[-1], det)
        if expect is None or expect[0] != "differs":
            ctx.require(len(lg.msgs) == len(diffs), "schema-warnings", f"{lg.msgs} expected {[x[0] for x in diffs]}", **det)
            for msg, df in zip(lg.msgs, diffs):
                check_readable(ctx, msg[msg.index("{"):], df, det)
        if err is None:
            ctx.require(sorted(res) == sorted(final), "schema-changed-result", f"{list(res)}", **det)
            for nm, v, okk in truth.nodes:
                if nm in res:
                    ctx.require(same(res[nm], v), "schema-changed-result", f"{nm}", **det)
            js = json.load(open(os.path.join(d, "schemas.json")))
            ctx.require(sorted(js) == sorted(nm for nm, _ in seq), "schema-json", f"{sorted(js)} expected "
                        f"{sorted(nm for nm, _ in seq)}", **det)
            for nm, cur in seq:
                ctx.require([c for c in js.get(nm, {}) if c != "__metadata"] == [c for c, _ in cur[1]], "schema-json-columns",
                            f"{nm}: {js.get(nm)}", **det)
        unload(*mods, mod)
    ctx.sig("schema", tuple(sorted((h["opt"]["check"], h["opt"]["importance"], h["namespaced"]) for h in hist)), len(names))


def check_readable(ctx, text, diff, det):
    nm, cur, ref = diff
    try:
        got = json.loads(text[:text.rindex("}") + 1])
    except ValueError:
        ctx.violation("schema-diff-text", text, **det)
        return
    c, r = dict(cur[1]), dict(ref[1])
    want = {k: "+" for k in c if k not in r}
    want.update({k: "-" for k in r if k not in c})
    chg = {k for k in c if k in r and c[k] != r[k]}
    body = got.get(nm)
    if not ctx.require(isinstance(body, dict), "schema-diff-node", f"{got} should be about {nm}", **det):
        return
    seen = {k: v for k, v in body.items() if k != "__metadata"}
    ctx.require({k: v for k, v in seen.items() if isinstance(v, str)} == want and
                {k for k, v in seen.items() if not isinstance(v, str)} == chg, "schema-diff-fields",
                f"{seen} expected {want} and changes of {chg}", **det)


@check.family("diff", quick=1800, thorough=20000)
def f_diff(ctx):
    rng = ctx.rng
    mode = rng.choice(["none", "field", "schema", "both"])
    T = [pa.int64(), pa.float64(), pa.string(), pa.bool_(), pa.list_(pa.int64()), pa.timestamp("us")]

    def md(p):
        return {k: rng.choice(["1", "2", ""]) for k in ("key", "unit", "cur") if rng.random() < p} or None

    def fld(n):
        return pa.field(n, rng.choice(T), nullable=rng.random() < .7,
                        metadata=md(.4) if rng.random() < .6 else None)
    names = rng.sample(["foo", "bar", "baz", "cur", "ref", "name", "type"], rng.randrange(1, 5))
    ref = [fld(n) for n in names]
    cur = []
    for f in ref:
        z = rng.random()
        if z < .2:
            continue
        if z < .35:
            f = pa.field(f.name, rng.choice(T), nullable=f.nullable, metadata=f.metadata)
        elif z < .5:
            f = f.with_nullable(not f.nullable)
        elif z < .65:
            f = f.with_metadata(md(.5) or {}) if rng.random() < .7 else f.remove_metadata()
        cur.append(f)
    for n in ["new1", "new2"]:
        if rng.random() < .2:
            cur.append(fld(n))
    sm_ref, sm_cur = md(.5), md(.5)
    if rng.random() < .4:
        sm_cur = sm_ref
    a, b = pa.schema(cur, metadata=sm_cur), pa.schema(ref, metadata=sm_ref)
    cf, cs = mode in ("field", "both"), mode in ("schema", "both")
    det = dict(current=str(a), reference=str(b), mode=mode,
               cur_meta=[str(f.metadata) for f in cur], ref_meta=[str(f.metadata) for f in ref])
    ctx.observe("diffs")
    diff = h_schema.diff_schemas(a, b, check_schema_metadata=cs, check_field_metadata=cf)
    got = h_schema.human_readable_diff(diff)

    def dm(x, y):
        x = {k.decode() if isinstance(k, bytes) else k: v.decode() if isinstance(v, bytes) else v for k, v in (x or {}).items()}
        y = {k.decode() if isinstance(k, bytes) else k: v.decode() if isinstance(v, bytes) else v for k, v in (y or {}).items()}
        o = {k: "+" for k in x if k not in y}
        o.update({k: "-" for k in y if k not in x})
        o.update({k: {"cur": x[k], "ref": y[k]} for k in x if k in y and x[k] != y[k]})
        return o
    want = {}
    cd, rd = {f.name: f for f in cur}, {f.name: f for f in ref}
    for n in cd.keys() | rd.keys():
        if n not in rd:
            want[n] = "+"
        elif n not in cd:
            want[n] = "-"
        else:
            x, y, o = cd[n], rd[n], {}
            if x.type != y.type:
                o["type"] = {"cur": str(x.type), "ref": str(y.type)}
            if x.nullable != y.nullable:
                o["nullable"] = {"cur": x.nullable, "ref": y.nullable}
            if cf and dm(x.metadata, y.metadata):
                o["metadata"] = dm(x.metadata, y.metadata)
            if o:
                want[n] = o
    if cs and dm(sm_cur, sm_ref):
        want["__metadata"] = dm(sm_cur, sm_ref)
    if want:
        ctx.observe("diffs_nonempty")
    ctx.require(got == want, "schema-diff", f"{got} expected {want}", **det)
    ctx.require(bool(diff) == bool(want), "schema-diff-empty", f"{diff} but differences {want}", **det)
    # a stored schema is read back as it was
    p = os.path.join(ctx.tmpdir(), "x.schema")
    h_schema.save_schema(p, a)
    ctx.require(h_schema.load_schema(p).equals(a, check_metadata=True), "schema-stored", f"{a}", **det)
    ctx.sig("diff", mode, tuple(sorted(map(str, want.items())))[:6], len(cur))


# ------------------------------------------------------------------------------------- experiments
@check.family("experiment", quick=300, thorough=3000)
def f_experiment(ctx):
    rng = ctx.rng
    home = os.getcwd()
    d = ctx.tmpdir()
    src = HDR + '''
def start(k: int, opt: int = 4) -> int:
    _boom('start')
    return k + opt

def table(start: int) -> pd.DataFrame:
    _boom('table')
    return pd.DataFrame({'a': [start, 1]})

def last(start: int) -> int:
    _boom('last')
    return start * 2

@datasaver()
def nopath(last: int) -> dict:
    _boom('nopath')
    return {'rows': last}

@datasaver()
def filed(table: pd.DataFrame) -> dict:
    _boom('filed')
    table.to_csv('filed.csv')
    return {'path': 'filed.csv'}
'''
    mod = load_module(src)
    os.chdir(d)
    try:
        tk = h_exp.ExperimentTracker("exp-1", base_directory=os.path.join(d, "base"))
        cfg = rng.choice([{}, {"mode": "x"}])
        truth = Truth()
        dr = driver.Builder().with_modules(mod).with_config(cfg).with_adapters(truth, tk).build()
        for run in range(rng.choice([1, 2])):
            if run:
                ctx.observe("experiment_reused")
            truth.nodes.clear()
            STATE.clear()
            if rng.random() < .35:
                STATE["fail"] = rng.choice(["start", "table", "last", "nopath", "filed"])
                STATE["error"] = Boom("no")
            ins = {"k": rng.randrange(9)}
            if rng.random() < .4:
                ins["opt"] = rng.randrange(9)
            ov = rng.choice([None, {}, {"start": 50}])
            if ov and rng.random() < .5:
                ins = None
            final = rng.sample(["start", "last", "table", "nopath", "filed"], rng.randrange(1, 6))
            mats = []
            for i in range(rng.choice([0, 0, 1, 2])):
                mats.append(to.csv(id=f"m{i}", dependencies=["table"], path=f"rel{i}.csv"))
            det = dict(final=final, mats=[m.id for m in mats], inputs=ins, overrides=ov, config=cfg,
                       fail=STATE.get("fail"), run=run)
            err = res = None
            try:
                if mats:
                    _, res = dr.materialize(*mats, additional_vars=final, inputs=ins, overrides=ov)
                else:
                    res = dr.execute(final, inputs=ins, overrides=ov)
            except Exception as e:  # noqa: BLE001
                err = e
            failed = "fail" in STATE and any(not ok for _, _, ok in truth.nodes)
            ctx.observe("experiments")
            ctx.require(err is (STATE.get("error") if failed else None), "experiment-changed-outcome", f"{err!r}", **det)
            ctx.require(os.getcwd() == os.path.realpath(d), "experiment-cwd", f"working directory left at {os.getcwd()}", **det)
            os.chdir(d)
            if failed:
                ctx.observe("experiment_failures")
            rec = json.loads(tk.cache.read(tk.run_id))
            ctx.require(rec["success"] is (not failed) and rec["experiment"] == "exp-1" and rec["config"] == cfg,
                        "experiment-record", f"{rec}", **det)
            gi = {i["name"]: (i["value"], i["default_value"]) for i in rec["inputs"]}
            ctx.require(len(gi) == len(rec["inputs"]) and gi == {"k": ((ins or {}).get("k"), None),
                                                                "opt": ((ins or {}).get("opt"), 4)},
                        "experiment-inputs", f"{rec['inputs']}", **det)
            ctx.require({o["name"]: o["value"] for o in rec["overrides"]} == (ov or {}), "experiment-overrides",
                        f"{rec['overrides']}", **det)
            saved = [n for n, _, ok in truth.nodes if ok and (n in ("filed",) or n.startswith("m"))]
            ctx.observe("experiment_savers", len(saved))
            want = sorted(os.path.join(os.path.realpath(str(tk.run_directory)),
                                       "filed.csv" if n == "filed" else f"rel{n[1:]}.csv") for n in saved)
            got = sorted(os.path.realpath(m["path"]) for m in rec["materialized"])
            ctx.require(got == want, "experiment-materialized", f"{got} expected {want}", **det)
            for p in want:
                ctx.require(os.path.exists(p), "experiment-file", f"{p} was not written in the run directory", **det)
        tk.cache.write("{}", "other")
        tk.cache.delete(tk.run_id)
        ctx.require([k.decode() if isinstance(k, bytes) else k for k in tk.cache.keys()] == ["other"], "experiment-delete",
                    f"{tk.cache.keys()}", **det)
    finally:
        os.chdir(home)
    ctx.sig("experiment", len(final), len(mats), failed, run, bool(ov))
    unload(mod)


if __name__ == "__main__":
    check.main()
