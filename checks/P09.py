"""P09: cache stores are durable maps, also under crashes, full disks and concurrency."""
import collections
import json
import os
import random
import signal
import subprocess
import sys
import threading
import time

import vf
import vrt
from cmpv import same, short
from gen import gen_dag, input_value, load_module, unload, evaluate

check = vf.Check(
    "P09",
    rule="random operation sequences on metadata and result stores against a map model, over reopenings and several handles; "
         "writer processes killed by SIGKILL at random times or by SIGXFSZ in the middle of a write (RLIMIT_FSIZE at a random byte), or failing with EFBIG; "
         "concurrent threads and processes; cached driver runs killed inside a node. Distinct = op sequence / crash point x store",
    required=["meta_ops", "meta_reopened", "result_ops", "crashes", "crash_partial_write", "acked_ops_checked", "write_errors",
              "concurrent_reads", "concurrent_writers", "driver_crashes", "driver_reused", "transferred_runs", "keys"],
    hang_s=150,
)
LIBS = [os.path.join(vf.VERIF, "lib"), os.path.join(vf.VERIF, "checks"), vf.REPO]


@check.setup
def setup_env():
    from hamilton import driver
    from hamilton.caching.cache_key import create_cache_key, decode_key
    from hamilton.caching.stores.base import ResultRetrievalError, search_data_adapter_registry
    from hamilton.caching.stores.file import FileResultStore
    from hamilton.caching.stores.memory import InMemoryMetadataStore, InMemoryResultStore
    from hamilton.caching.stores.sqlite import SQLiteMetadataStore
    globals().update(driver=driver, create_cache_key=create_cache_key, decode_key=decode_key, FileResultStore=FileResultStore,
                     InMemoryMetadataStore=InMemoryMetadataStore, InMemoryResultStore=InMemoryResultStore,
                     SQLiteMetadataStore=SQLiteMetadataStore, ResultRetrievalError=ResultRetrievalError,
                     search_data_adapter_registry=search_data_adapter_registry)


def gen_key(rng):
    deps = {f"d{i}": f"v{rng.randrange(3)}" for i in range(rng.randrange(3))}
    return (f"n{rng.randrange(3)}", f"c{rng.randrange(2)}", tuple(sorted(deps.items())))


# ------------------------------------------------------------------------------------------------- keys
@check.family("keys", 400, 6000)
def fam_keys(ctx):
    rng = ctx.rng
    seen = {}
    alpha = "abcXYZ0189_"
    for _ in range(40):
        name = "n" + "".join(rng.choice(alpha) for _ in range(rng.randrange(5)))
        code = "".join(rng.choice("0123456789abcdef") for _ in range(rng.choice([1, 2, 64])))
        deps = {}
        for _ in range(rng.randrange(4)):
            dn = "".join(rng.choice(alpha) for _ in range(rng.randrange(1, 4)))
            if rng.random() < .2:
                dn += "." + dn
            deps[dn] = rng.choice(["<ignore>", "<none>", "<unhashable>_1-2-3", "AB-c_d==", "x", ""]) + \
                "".join(rng.choice(alpha + "-=") for _ in range(rng.randrange(4)))
        k = create_cache_key(node_name=name, code_version=code, dependencies_data_versions=dict(deps))
        items = list(deps.items())
        rng.shuffle(items)
        k2 = create_cache_key(node_name=name, code_version=code, dependencies_data_versions=dict(items))
        ctx.observe("keys")
        ident = (name, code, tuple(sorted(deps.items())))
        ctx.require(k == k2, "key-order", f"{ident}: the key depends on the order of the dependencies")
        ctx.require(seen.setdefault(k, ident) == ident, "key-collision", lambda: f"{ident} and {seen[k]} share {k}")
        d = decode_key(k)
        ctx.require(d == dict(node_name=name, code_version=code, dependencies_data_versions=deps), "key-decode",
                    lambda: f"{ident} decoded as {d}")
    ctx.sig(repr(sorted(seen))[:400])


# --------------------------------------------------------------------------------------------- metadata
@check.family("metadata", 500, 8000)
def fam_metadata(ctx):
    rng = ctx.rng
    kind = rng.choice(["mem", "sqlite", "sqlite"])
    path = ctx.tmpdir()

    def open_():
        return InMemoryMetadataStore() if kind == "mem" else SQLiteMetadataStore(path=path)
    handles = [open_()]
    if kind == "sqlite" and rng.random() < .5:
        handles.append(open_())
    data, runs, log = {}, {}, []
    keys = [gen_key(rng) for _ in range(6)]
    fresh = True
    rid = 0
    for _ in range(rng.randrange(10, 60)):
        s = rng.choice(handles)
        op = rng.choice(["set", "set", "set", "get", "get", "exists", "delete", "len", "run", "run_ids", "get_run", "reopen", "wipe"])
        if op == "wipe" and rng.random() < .7:
            continue
        if fresh and op in ("set", "get_run"):
            op = "run"
        ident = rng.choice(keys)
        ck = create_cache_key(ident[0], ident[1], dict(ident[2]))
        ctx.observe("meta_ops")
        det = dict(kind=kind, log=log[-20:])
        if op == "run":
            rid += 1
            s.initialize(f"r{rid}")
            runs[f"r{rid}"] = []
            fresh = False
            log.append(["run", rid])
        elif op == "set":
            v = f"dv{rng.randrange(5)}"
            run = rng.choice(list(runs))
            kw = dict(node_name=ident[0], code_version=ident[1]) if rng.random() < .5 else {}
            s.set(cache_key=ck, data_version=v, run_id=run, **kw)
            data[ck] = v
            runs[run].append(ck)
            log.append(["set", keys.index(ident), v, run])
        elif op == "get":
            ctx.require(s.get(ck) == data.get(ck), "meta-get", lambda: f"{s.get(ck)} model {data.get(ck)}", **det)
        elif op == "exists":
            ctx.require(s.exists(ck) is (ck in data), "meta-exists", f"model {ck in data}", **det)
        elif op == "delete" and ck in data:
            s.delete(ck)
            del data[ck]
            log.append(["delete", keys.index(ident)])
        elif op == "len":
            ctx.require(len(s) == len(data) == s.size, "meta-len", lambda: f"{len(s)} model {len(data)}", **det)
        elif op == "run_ids":
            ctx.require(list(s.get_run_ids()) == list(runs), "meta-run-ids", lambda: f"{s.get_run_ids()} model {list(runs)}", **det)
            if runs:
                ctx.require(s.last_run_id == list(runs)[-1], "meta-last-run", s.last_run_id, **det)
        elif op == "get_run":
            run = rng.choice(list(runs))
            rows = s.get_run(run) if rng.random() < .7 or run != list(runs)[-1] else s.get_last_run()
            got = collections.Counter((r["cache_key"], r["data_version"], r["node_name"], r["code_version"]) for r in rows)
            exp = collections.Counter((c, data[c], decode_key(c)["node_name"], decode_key(c)["code_version"])
                                      for c in runs[run] if c in data)
            ctx.require(got == exp, "meta-get-run", lambda: f"{run}: {got} model {exp}", **det)
            try:
                s.get_run("nope")
                ctx.violation("meta-unknown-run", "an unknown run id is not refused", **det)
            except IndexError:
                pass
        elif op == "reopen" and kind == "sqlite":
            handles[rng.randrange(len(handles))] = open_()
            ctx.observe("meta_reopened")
            log.append(["reopen"])
        elif op == "wipe":
            s.delete_all()
            data.clear()
            runs.clear()
            fresh = True
            rid += 1
            s.initialize(f"r{rid}")
            runs[f"r{rid}"] = []
            fresh = False
            log.append(["delete_all"])
    ctx.sig(kind, len(handles), repr(log))
    ctx.sample(dict(kind=kind, log=log[:10]))


# ---------------------------------------------------------------------------------------------- results
def gen_value(rng, big=False):
    import numpy as np
    import pandas as pd
    r = rng.randrange(10)
    if big:
        return rng.randbytes(rng.choice([10, 5000, 100000, 400000]))
    return [lambda: None, lambda: rng.randrange(99), lambda: "s" * rng.randrange(4), lambda: [1, {"a": rng.random()}],
            lambda: {}, lambda: (1, 2), lambda: pd.DataFrame({"a": [1, rng.randrange(9)], "b": ["x", None]}, index=[5, 3]),
            lambda: pd.Series([1.5, rng.random()], name="q"), lambda: np.arange(rng.randrange(5)),
            lambda: float("nan")][r]()


@check.family("results", 500, 8000)
def fam_results(ctx):
    rng = ctx.rng
    kind = rng.choice(["mem", "file", "file"])
    path = os.path.join(ctx.tmpdir(), "r")

    def open_():
        return InMemoryResultStore() if kind == "mem" else FileResultStore(path=path)
    handles = [open_()] + ([open_()] if kind == "file" and rng.random() < .4 else [])
    data, log, fmt = {}, [], {}
    for _ in range(rng.randrange(10, 50)):
        s = rng.choice(handles)
        dv = f"dv-{rng.randrange(6)}_=="
        op = rng.choice(["set", "set", "set_format", "get", "get", "get", "exists", "delete", "reopen", "wipe", "lose"])
        ctx.observe("result_ops")
        det = dict(kind=kind, log=log[-20:])
        if op == "set":
            v = gen_value(rng)
            s.set(dv, v)
            data[dv] = v
            fmt.pop(dv, None)
            log.append(["set", dv, short(v, 60)])
        elif op == "set_format" and kind == "file":
            import pandas as pd
            f, v = rng.choice([("json", {"a": rng.randrange(99), "b": [1, "x"]}), ("pickle", (1, rng.randrange(99))),
                               ("pickle", pd.DataFrame({"a": [rng.randrange(99)]})),
                               ("parquet", pd.DataFrame({"a": [1.5, rng.random()], "b": ["u", "v"]})),
                               ("csv", pd.DataFrame({"a": [1.5, rng.random()]})), ("feather", pd.DataFrame({"a": [0.5, rng.random()]}))])
            try:
                sc, lc = search_data_adapter_registry(name=f, type_=type(v))
            except KeyError:
                continue
            if f in ("csv",):
                continue      # writes the index as a column: not a faithful format by itself
            s.set(dv, v, saver_cls=sc, loader_cls=lc)
            data[dv] = v
            fmt[dv] = os.path.join(path, dv + "." + sc.name())
            log.append(["set", f, dv, short(v, 60)])
        elif op == "lose" and fmt:
            dv = rng.choice(list(fmt))
            if os.path.exists(fmt[dv]):
                os.unlink(fmt[dv])
                try:
                    got = s.get(dv)
                    ctx.violation("result-lost-file", f"reading a result whose file is gone gave {short(got)}", **det)
                except ResultRetrievalError:
                    ctx.observe("oracle_evaluations")
                s.delete(dv)
                data.pop(dv)
                for k in [k for k, f in fmt.items() if f == fmt[dv] or k == dv]:
                    fmt.pop(k)
        elif op == "get":
            got = s.get(dv)
            exp = data.get(dv)
            ok = same(got, exp)
            if not ok and dv in fmt:      # tabular formats may change dtypes, not values
                try:
                    ok = got.reset_index(drop=True).astype(object).values.tolist() == exp.astype(object).values.tolist() \
                        and list(got.columns) == list(exp.columns)
                except AttributeError:
                    ok = False
            ctx.require(ok, "result-get", lambda: f"{short(got)} model {short(exp)}", **det)
        elif op == "exists":
            ctx.require(s.exists(dv) is (dv in data), "result-exists", f"model {dv in data}", **det)
        elif op == "delete" and dv in data:
            s.delete(dv)
            del data[dv]
            fmt.pop(dv, None)
            log.append(["delete", dv])
        elif op == "reopen" and kind == "file":
            handles[rng.randrange(len(handles))] = open_()
            log.append(["reopen"])
        elif op == "wipe" and rng.random() < .3:
            s.delete_all()
            data.clear()
            fmt.clear()
            log.append(["wipe"])
    ctx.sig(kind, len(handles), repr(log))


# ---------------------------------------------------------------------------------------------- crashes
CRASH = r'''
import json, os, random, resource, signal, sys
spec = json.loads(sys.argv[1])
sys.path[:0] = spec["libs"]
from hamilton.caching.stores.file import FileResultStore
from hamilton.caching.stores.sqlite import SQLiteMetadataStore
rng = random.Random(spec["seed"])
rs = FileResultStore(path=spec["res"])
ms = SQLiteMetadataStore(path=spec["meta"])
ms.initialize("run" + str(spec["seed"]))
def ack(*a):
    os.write(1, (json.dumps(a) + "\n").encode())
ack("ready")
if spec["mode"] == "xfsz":
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_FSIZE, (spec["limit"], spec["limit"]))
elif spec["mode"] == "efbig":
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (spec["limit"], spec["limit"]))
for i in range(spec["n"]):
    k = rng.randrange(8)
    op = rng.choice(["set", "set", "set", "delete"])
    size = rng.choice(spec["sizes"])
    if op == "set":
        # an honest store is keyed by content; the value carries its key so that the parent can judge it
        ack("begin", "set", k, i)
        try:
            rs.set(f"dv{k}", [k, i, bytes([i % 251]) * size])
            ack("end", "set", k, i)
        except OSError as e:
            ack("err", "set", k, i, str(e))
    else:
        ack("begin", "delete", k, i)
        rs.delete(f"dv{k}")
        ack("end", "delete", k, i)
    if spec["mode"] == "kill":
        ack("begin", "mset", k, i)
        ms.set(cache_key=f"key{k}", data_version=f"v{i}", run_id="run" + str(spec["seed"]), node_name="n", code_version="c")
        ack("end", "mset", k, i)
ack("finished")
'''


def run_child(code, spec, kill_after=None, env=None):
    p = subprocess.Popen([sys.executable, "-c", code, json.dumps(spec)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0,
                         env=dict(os.environ, HAMILTON_AUTOLOAD_EXTENSIONS="0", **(env or {})))
    lines = []
    if kill_after is not None:
        while True:                          # wait until the child works
            ln = p.stdout.readline()
            lines.append(ln)
            if not ln or b"ready" in ln:
                break
        time.sleep(kill_after)
        p.send_signal(signal.SIGKILL)
    out, err = p.communicate(timeout=120)
    data = b"".join(lines) + out
    msgs = []
    for ln in data.split(b"\n"):
        try:
            msgs.append(json.loads(ln))
        except ValueError:
            pass
    return p.returncode, msgs, err.decode(errors="replace")


@check.family("crash", 40, 800)
def fam_crash(ctx):
    """Acknowledged writes survive, the write in flight happened or did not, nothing else changed."""
    rng = ctx.rng
    tmp = ctx.tmpdir()
    mode = ["kill", "xfsz", "efbig"][ctx.idx % 3]
    res, meta = os.path.join(tmp, "res"), os.path.join(tmp, "meta")
    allowed = {k: [None] for k in range(8)}      # result key -> possible iteration numbers
    mallowed = {k: [None] for k in range(8)}
    plan = []
    for life in range(rng.choice([1, 2, 3])):
        spec = dict(libs=LIBS, seed=rng.randrange(10**6), res=res, meta=meta, mode=mode, limit=rng.randrange(200, 300000),
                    n=rng.choice([5, 20]) if mode != "kill" else 100000,
                    sizes=[10, 3000, 250000] if mode != "kill" else [10, 100000, 2000000])
        if mode != "kill":
            spec["limit"] = rng.choice([rng.randrange(60, 200), rng.randrange(200, 4000), rng.randrange(4000, 260000)])
        rc, msgs, err = run_child(CRASH, spec, rng.uniform(0, .15) if mode == "kill" else None)
        if not msgs or msgs[0] != ["ready"]:
            raise RuntimeError(f"child failed: {err[-800:]}")
        plan.append([mode, spec["limit"] if mode != "kill" else "t", len(msgs)])
        died = ["finished"] not in msgs
        if died:
            if mode == "efbig" or (mode == "xfsz" and rc != -signal.SIGXFSZ):
                raise RuntimeError(f"child died: {rc} {err[-1500:]}")
            ctx.observe("crashes")
        inflight = None
        for m in msgs:
            if m[0] == "begin":
                inflight = m
            elif m[0] in ("end", "err"):
                inflight = None
                ctx.observe("acked_ops_checked")
                a = mallowed if m[1] == "mset" else allowed
                if m[0] == "err":
                    ctx.observe("write_errors")     # refused: the previous value stays
                elif m[1] == "delete":
                    a[m[2]] = [None]
                else:
                    a[m[2]] = [(spec["seed"], m[3])]
        if inflight:
            a = mallowed if inflight[1] == "mset" else allowed
            new = None if inflight[1] == "delete" else (spec["seed"], inflight[3])
            a[inflight[2]] = a[inflight[2]] + [new]
            if inflight[1] == "set" and mode == "xfsz":
                ctx.observe("crash_partial_write")
        # a fresh process (here: fresh objects) looks at what is left
        rs, ms = FileResultStore(path=res), SQLiteMetadataStore(path=meta)
        for k in range(8):
            its = [None if x is None else x[1] for x in allowed[k]]
            got = None
            try:
                if rs.exists(f"dv{k}"):
                    got = rs.get(f"dv{k}")
                    ok = isinstance(got, list) and got[0] == k and got[1] in its and set(got[2]) <= {got[1] % 251}
                    why = f"holds {short(got, 80)}"
                else:
                    ok, why = None in its, "is gone"
            except ResultRetrievalError as e:
                ok, why = False, f"cannot be read: {e} {e.__cause__!r}"
            ctx.require(ok, f"crash-result", lambda: f"dv{k} {why}; allowed writes {its}", plan=plan, mode=mode,
                        inflight=inflight)
            if ok and mode == "kill":
                # continue from what is really there
                allowed[k] = [x for x in allowed[k] if (x is None) == (got is None) and (x is None or x[1] == got[1])]
            elif ok:
                allowed[k] = [x for x in allowed[k] if (None if x is None else x[1]) == (None if got is None else got[1])]
        if mode == "kill":
            rows = {k: ms.get(f"key{k}") for k in range(8)}
            for k, v in rows.items():
                its = [None if x is None else f"v{x[1]}" for x in mallowed[k]]
                if ctx.require(v in its, "crash-metadata", f"key{k} holds {v}, allowed {its}", plan=plan, inflight=inflight):
                    mallowed[k] = [x for x in mallowed[k] if (None if x is None else f"v{x[1]}") == v]
        # and still works
        rs.set("again", 1)
        ctx.require(rs.get("again") == 1, "crash-unusable", "the store does not work after the crash", plan=plan)
    ctx.sig(repr(plan), mode)


# ------------------------------------------------------------------------------------------ concurrency
CONC = r'''
import json, os, random, sys, time
spec = json.loads(sys.argv[1])
sys.path[:0] = spec["libs"]
from hamilton.caching.stores.file import FileResultStore
from hamilton.caching.stores.sqlite import SQLiteMetadataStore
import P09
bad, n = P09.hammer(FileResultStore(path=spec["res"]), SQLiteMetadataStore(path=spec["meta"]), spec["who"], spec["seed"], spec["n"])
print(json.dumps([bad, n]))
'''


def hammer(rs, ms, who, seed, n):
    """One of several concurrent users of the same location."""
    rng = random.Random(f"{seed}{who}")
    bad, reads = [], 0
    ms.initialize(f"run{who}")
    for i in range(n):
        k = rng.randrange(6)
        op = rng.choice(["set", "get", "get", "delete", "own", "shared", "mget"])
        if op == "set":
            rs.set(f"dv{k}", [k, bytes([k]) * (1 + k * 60000)])
        elif op == "get":
            if rs.exists(f"dv{k}"):
                v = rs.get(f"dv{k}")
                reads += 1
                if v is not None and v != [k, bytes([k]) * (1 + k * 60000)]:
                    bad.append(f"partial result dv{k}: {str(v)[:80]}")
        elif op == "delete":
            if rng.random() < .2:
                rs.delete(f"dv{k}")
        elif op == "own":
            ms.set(cache_key=f"own{who}_{k}", data_version=f"{who}:{i}", run_id=f"run{who}", node_name="n", code_version="c")
            v = ms.get(f"own{who}_{k}")
            reads += 1
            if v != f"{who}:{i}":
                bad.append(f"own key lost its value: {v} instead of {who}:{i}")
        elif op == "shared":
            ms.set(cache_key=f"sh{k}", data_version=f"{who}:{i}", run_id=f"run{who}", node_name="n", code_version="c")
        else:
            v = ms.get(f"sh{k}")
            reads += 1
            if v is not None and ":" not in v:
                bad.append(f"shared key holds {v}")
    return bad, reads


@check.family("concurrent", 24, 300)
def fam_concurrent(ctx):
    rng = ctx.rng
    tmp = ctx.tmpdir()
    res, meta = os.path.join(tmp, "res"), os.path.join(tmp, "meta")
    mode = ["processes", "threads", "thread_handles"][ctx.idx % 3]
    n = rng.choice([30, 60])
    who = list(range(rng.choice([2, 3, 4])))
    seed = rng.randrange(10**6)
    results = {}
    if mode == "processes":
        ps = [subprocess.Popen([sys.executable, "-c", CONC, json.dumps(dict(libs=LIBS, res=res, meta=meta, who=w, seed=seed, n=n))],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=dict(os.environ, HAMILTON_AUTOLOAD_EXTENSIONS="0")) for w in who]
        for w, p in zip(who, ps):
            out, err = p.communicate(timeout=120)
            if p.returncode:
                ctx.violation("concurrent-error", f"a concurrent user failed: {err[-1500:]}")
                continue
            results[w] = json.loads(out.strip().splitlines()[-1])
    else:
        shared = (FileResultStore(path=res), SQLiteMetadataStore(path=meta))

        def body(w):
            try:
                rs, ms = shared if mode == "threads" else (FileResultStore(path=res), SQLiteMetadataStore(path=meta))
                results[w] = hammer(rs, ms, w, seed, n)
            except Exception as e:      # noqa: BLE001
                results[w] = ([f"{type(e).__name__}: {e}"], 0)
        ts = [threading.Thread(target=body, args=(w,)) for w in who]
        [t.start() for t in ts]
        [t.join() for t in ts]
    ctx.observe("concurrent_writers", len(who))
    for w, (bad, reads) in results.items():
        ctx.observe("concurrent_reads", reads)
        ctx.require(not bad, "concurrent", lambda: f"{mode} user {w}: {bad[:3]}", mode=mode)
    # all acknowledged writes are there
    ms = SQLiteMetadataStore(path=meta)
    exp_own, shared_vals = {}, collections.defaultdict(set)
    for w in who:
        r2 = random.Random(f"{seed}{w}")
        for i in range(n):
            k = r2.randrange(6)
            op = r2.choice(["set", "get", "get", "delete", "own", "shared", "mget"])
            if op == "delete":
                r2.random()
            elif op == "own":
                exp_own[f"own{w}_{k}"] = f"{w}:{i}"
            elif op == "shared":
                shared_vals[f"sh{k}"].add(f"{w}:{i}")
    if len(results) == len(who):
        got = {k: ms.get(k) for k in exp_own}
        ctx.require(got == exp_own, "concurrent-lost", lambda: f"{ {k: (got[k], v) for k, v in exp_own.items() if got[k] != v} }", mode=mode)
        ctx.require(all(ms.get(k) in v for k, v in shared_vals.items()), "concurrent-shared", "a shared key holds a value nobody wrote")
        ctx.require(len(ms) == len(exp_own) + len(shared_vals), "concurrent-count", f"{len(ms)}")
        ctx.require(sorted(ms.get_run_ids()) == sorted(f"run{w}" for w in who), "concurrent-runs", f"{ms.get_run_ids()}")
    ctx.sig(mode, seed, n, len(who))


# ------------------------------------------------------------------------------ cached runs that crash
DRV = r'''
import json, logging, os, signal, sys
logging.disable(50)
spec = json.loads(sys.argv[1])
sys.path[:0] = spec["libs"]
import vrt
from gen import load_module
from hamilton import driver
m = load_module(spec["source"], "vfcrash")
if spec["victim"]:
    def die():
        os.kill(os.getpid(), signal.SIGKILL)
    vrt.GATES[spec["victim"]] = die
_log = vrt.log
def log(kind, name, payload=None):
    os.write(1, (json.dumps([kind, name]) + "\n").encode())
    _log(kind, name, payload)
vrt.log = log
dr = driver.Builder().with_modules(m).with_cache(path=spec["dir"]).build()
out = dr.execute(spec["final"], inputs=spec["inputs"])
print(json.dumps(["out", {k: repr(v) for k, v in out.items()}]))
'''


@check.family("driver_crash", 16, 300)
def fam_driver_crash(ctx):
    """A run killed inside a function: the next run is right and does not redo what was completed."""
    rng = ctx.rng
    dag = gen_dag(rng, n_nodes=rng.choice([4, 6, 8]), n_mods=1, kinds=["int", "str", "list", "dict"], strict=True, p_opt=0)
    final = rng.sample(list(dag.nodes), min(2, len(dag.nodes)))
    inputs = {i: input_value(rng, k) for i, k in dag.inputs.items()}
    exp, called, _ = evaluate(dag, final, {}, inputs, {})
    d = os.path.join(ctx.tmpdir(), "c")
    spec = dict(libs=LIBS, source=dag.sources()[0], final=final, inputs=inputs, dir=d, victim=rng.choice(called))
    rc, msgs, err = run_child(DRV, spec)
    if rc != -signal.SIGKILL:
        raise RuntimeError(f"{rc} {err[-800:]}")
    ctx.observe("driver_crashes")
    done = {m[1] for m in msgs if m[0] == "return"}
    rc, msgs, err = run_child(DRV, dict(spec, victim=None))
    outs = [m for m in msgs if m[0] == "out"]
    if not ctx.require(bool(outs), "after-crash-fails", f"the run after the crash fails: {err[-900:]}"):
        return
    ctx.require(outs[0][1] == {k: repr(v) for k, v in exp.items()}, "after-crash-value", f"{outs[0][1]} expected {exp}")
    again = {m[1] for m in msgs if m[0] == "call"}
    ctx.observe("driver_reused", len(done))
    ctx.require(not (again & done), "after-crash-redone", f"{again & done} had completed before the crash but ran again")
    ctx.sig(dag.shape_sig(), spec["victim"])


# ------------------------------------------------------------------------------------- moving a cache
@check.family("transfer", 120, 2000)
def fam_transfer(ctx):
    """persist_to / load_from move a cache without changing what it knows."""
    rng = ctx.rng
    vrt.reset()
    dag = gen_dag(rng, n_nodes=rng.choice([2, 4, 6]), n_mods=1, kinds=["int", "str", "list", "dict", "none"], strict=True)
    mod = load_module(dag.sources()[0])
    pools = {i: [input_value(rng, k) for _ in range(2)] for i, k in dag.inputs.items()}
    tmp = ctx.tmpdir()
    to_disk = rng.random() < .5
    beh = {"ignore": [rng.choice(list(dag.nodes))]} if rng.random() < .3 else {}
    src = (InMemoryMetadataStore(), InMemoryResultStore()) if to_disk else \
        (SQLiteMetadataStore(path=tmp + "/m"), FileResultStore(path=tmp + "/r"))
    dr = driver.Builder().with_modules(mod).with_cache(metadata_store=src[0], result_store=src[1], **beh).build()
    runs = []
    for _ in range(rng.randrange(1, 4)):
        inputs = {i: rng.choice(p) for i, p in pools.items()}
        final = rng.sample(list(dag.nodes), min(len(dag.nodes), 2))
        runs.append((final, inputs, dr.execute(final, inputs=inputs)))
    if rng.random() < .4:      # some entries were deleted
        rows = src[0].get_run(rng.choice(list(src[0].get_run_ids())))
        for r in rows[:1]:
            if src[1].exists(r["data_version"]):
                src[1].delete(r["data_version"])
            if rng.random() < .5:
                src[0].delete(r["cache_key"])
    if to_disk:
        dst = (SQLiteMetadataStore(path=tmp + "/m"), FileResultStore(path=tmp + "/r"))
        src[0].persist_to(dst[0])
        src[1].persist_to(dst[1])
    else:
        dst = (InMemoryMetadataStore.load_from(src[0]), InMemoryResultStore.load_from(src[1], metadata_store=src[0]))
    ctx.require(list(dst[0].get_run_ids()) == list(src[0].get_run_ids()), "transfer-runs", "run ids changed")

    def rows(s, r):
        return collections.Counter((x["cache_key"], x["data_version"], x["node_name"], x["code_version"]) for x in s.get_run(r))
    for r in src[0].get_run_ids():
        a, b = rows(src[0], r), rows(dst[0], r)
        ctx.require(a == b, "transfer-metadata", lambda: f"{a} became {b}")
        for row in src[0].get_run(r):
            dv = row["data_version"]
            ctx.require(src[1].exists(dv) == dst[1].exists(dv), "transfer-exists", f"{dv}: {src[1].exists(dv)} -> {dst[1].exists(dv)}")
            ctx.require(same(src[1].get(dv), dst[1].get(dv)), "transfer-result", f"{dv}")
    for final, inputs, out in runs:
        # the same runs behave on the copy as on the original
        outs, calls = [], []
        for ms, rs in (src, dst):
            d2 = driver.Builder().with_modules(mod).with_cache(metadata_store=ms, result_store=rs, **beh).build()
            vrt.EVENTS.clear()
            outs.append(d2.execute(final, inputs=inputs))
            calls.append(sorted(vrt.calls()))
        ctx.observe("transferred_runs")
        ctx.require(same(outs[0], out) and same(outs[1], out), "transfer-value", lambda: f"{outs} originally {out}")
        ctx.require(calls[0] == calls[1], "transfer-reuse", f"original executes {calls[0]}, copy {calls[1]}")
    ctx.sig(dag.shape_sig(), to_disk, len(runs))
    unload(mod)


if __name__ == "__main__":
    check.main()
