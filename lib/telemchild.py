"""Child process of P26: runs a list of operations against hamilton with the network replaced by a
recorder, and writes what was sent after each operation. Everything it may delete is a stand-in."""
import json
import os
import sys
import threading
import time

spec = json.load(open(sys.argv[1]))
OUT = sys.argv[2]
M = spec["marker"]

# ---- stand-ins for the network, installed before hamilton is imported
import io
import shutil
import socket
import urllib.error
import urllib.request
import http.client

sent = []          # every payload handed to the network
raw_net = []       # any other attempt to reach the network
release = threading.Event()
blocked = []
waiting = set()
lock = threading.Lock()


class Resp(io.BytesIO):
    def __init__(self, code):
        super().__init__(b"{}")
        self.code = self.status = code

    def getcode(self):
        return self.code


def fake_open(self, fullurl, data=None, timeout=None):
    url = fullurl if isinstance(fullurl, str) else fullurl.full_url
    body = data if data is not None else getattr(fullurl, "data", None)
    headers = {} if isinstance(fullurl, str) else dict(fullurl.header_items())
    with lock:
        sent.append({"url": url, "body": body.decode() if body else None, "headers": headers,
                     "main": threading.current_thread() is threading.main_thread()})
    mode = spec["endpoint"]
    if mode == "ok":
        return Resp(200)
    if mode == "500":
        return Resp(500)
    if mode == "urlerror":
        raise urllib.error.URLError("no route")
    if mode == "httperror":
        raise urllib.error.HTTPError(url, 503, "busy", {}, None)
    if mode == "oserror":
        raise OSError("broken")
    if mode == "badstatus":
        raise http.client.BadStatusLine("x")
    if mode == "hang":
        waiting.add(threading.get_ident())
        if not release.wait(40):
            blocked.append(url)
        raise TimeoutError("timed out")
    raise AssertionError(mode)


def fake_net(*a, **k):
    with lock:
        raw_net.append(repr(a)[:300])
    raise OSError("no network")


thread_errors, waits = [], []


def on_thread_error(a):
    thread_errors.append(f"{a.exc_type.__name__}: {a.exc_value}")


threading.excepthook = on_thread_error
real_join = threading.Thread.join


def join(self, timeout=None):
    f = sys._getframe(1)
    if os.path.basename(f.f_code.co_filename) == "telemetry.py":
        waits.append(f"{f.f_code.co_name}:{f.f_lineno}")
    return real_join(self, timeout)


threading.Thread.join = join
urllib.request.OpenerDirector.open = fake_open
socket.getaddrinfo = fake_net
socket.create_connection = fake_net
removed = []
shutil.rmtree = lambda p, *a, **k: removed.append(str(p))

if spec.get("log_debug"):
    import logging
    logging.basicConfig(level=logging.DEBUG, stream=open(os.devnull, "w"))

results = []


def finish(code=0):
    json.dump({"ops": results, "blocked": blocked, "raw_net": raw_net, "waits": waits, "thread_errors": thread_errors, "removed": removed,
               "total": len(sent)}, open(OUT, "w"))
    release.set()
    sys.stdout.flush()
    os._exit(code)


t_import = time.time()
try:
    import hamilton
    from hamilton import async_driver, base, driver, telemetry
    import hamilton.dataflows as hdf
    from hamilton.io.materialization import to  # noqa
except BaseException as e:
    import traceback
    results.append({"op": {"op": "import"}, "error": [type(e).__name__, traceback.format_exc()[-2500:]], "events": []})
    finish()
assert hamilton.__file__.startswith(spec["repo"]), hamilton.__file__

sys.path[:0] = spec["moddirs"]
import importlib
mods = [importlib.import_module(m) for m in spec["modules"]]
main, extra, bad = mods
amod = importlib.import_module(spec["amodule"])

AClass = type(f"Adapter{M}", (base.SimplePythonGraphAdapter,), {"__module__": f"user_{M}"})
BClass = type(f"Builder{M}", (base.ResultMixin,), {"__module__": f"user_{M}",
                                                  "build_result": staticmethod(lambda **k: [M, k])})
from hamilton.lifecycle import NodeExecutionHook


class Hook(NodeExecutionHook):
    def run_before_node_execution(self, **k):
        pass

    def run_after_node_execution(self, **k):
        pass


Hook.__name__ = Hook.__qualname__ = f"Hook{M}"
Hook.__module__ = f"user_{M}"


def settle():
    if spec["endpoint"] == "hang":
        # every thread that sends is waiting in the recorder
        t0 = time.time()
        while time.time() - t0 < 20:
            if all(t is threading.main_thread() or t.daemon or t.ident in waiting
                   for t in threading.enumerate()):
                return
            time.sleep(0.002)
        return
    for t in threading.enumerate():
        if t is not threading.main_thread() and not t.daemon:
            t.join(20)


drs = []
state = {}


def do(op):
    k = op["op"]
    if k == "build":
        b = driver.Builder().with_config({f"cfg_{M}_{i}": f"val_{M}_{i}" for i in range(op["config"])})
        ms = [main] + ([extra] if op["mods"] == 2 else [])
        if op.get("bad"):
            ms.append(bad)
        b = b.with_modules(*ms)
        ad = op["adapter"]
        if ad == "custom":
            b = b.with_adapters(AClass(base.DictResult()))
        elif ad == "builder":
            b = b.with_adapters(base.SimplePythonGraphAdapter(BClass()))
        elif ad == "pandas":
            b = b.with_adapters(base.PandasDataFrameResult())
        elif ad == "hook":
            b = b.with_adapters(Hook())
        elif ad == "simple":
            b = b.with_adapters(base.SimplePythonGraphAdapter(base.DictResult()))
        dr = b.build()
        drs.append((dr, ad))
        return {"nodes": len(dr.list_available_variables.__wrapped__(dr)),
                "run_id": str(dr.driver_run_id), "mods": len(ms), "config": op["config"]}
    if k == "exec":
        dr, ad = drs[op["dr"] % len(drs)]
        n = f"n_{M}"
        outs = [x.replace("@", M) for x in op["outs"]]
        inputs = {f"x_{M}": op["x"]}
        inputs.update({f"unused_{M}_{i}": M for i in range(op["more"])})
        ov = op["overrides"]
        if ov is not None:
            ov = {f"ov_{M}_{i}": M for i in range(ov)}
            if "mid" in op:
                ov[f"mid_{M}"] = op["mid"]
        r = dr.execute(outs, inputs=inputs, overrides=ov)
        if ad == "builder":
            r = r[1]
        if ad == "pandas":
            r = {c: r[c].tolist()[0] for c in r.columns}
        return {"value": {a: int(b) for a, b in r.items()}, "run_id": str(dr.driver_run_id),
                "inputs": len(inputs), "overrides": len(ov or {}), "outs": len(outs)}
    if k == "noinput":
        dr, ad = drs[op["dr"] % len(drs)]
        return {"value": dr.execute([f"const_{M}"], overrides=op["overrides"]) is not None,
                "run_id": str(dr.driver_run_id), "inputs": 0, "overrides": 0, "outs": 1}
    if k == "mat":
        dr, ad = drs[op["dr"] % len(drs)]
        inputs = {f"x_{M}": op["x"]}
        _, r = dr.materialize(additional_vars=[f"b_{M}"], inputs=inputs)
        return {"value": {a: int(b) for a, b in r.items()}, "run_id": str(dr.driver_run_id),
                "inputs": 1, "overrides": 0, "outs": 1}
    if k == "query":
        dr, ad = drs[op["dr"] % len(drs)]
        f = getattr(dr, op["fn"])
        args = [a.replace("@", M) for a in op["args"]]
        if op["fn"] in ("export_execution", "has_cycles"):
            args = [[*args]]
        f(*args)
        return {}
    if k == "async":
        import asyncio

        async def go():
            dr = await async_driver.Builder().with_modules(amod).build()
            r = None
            err = None
            try:
                r = await dr.execute([op["out"].replace("@", M)], inputs={f"x_{M}": op["x"]})
            except ValueError as e:
                err = [type(e).__name__, str(e)]
            await asyncio.sleep(0.02)
            return dr, r, err

        dr, r, err = asyncio.run(go())
        return {"value": r and {a: int(b) for a, b in r.items()}, "async_error": err,
                "run_id": str(dr.driver_run_id),
                "nodes": len(dr.list_available_variables.__wrapped__(dr)), "inputs": 1, "overrides": 0, "outs": 1,
                "mods": 1, "config": 0}
    if k == "cli":
        from typer.testing import CliRunner
        from hamilton.cli.__main__ import cli
        r = CliRunner().invoke(cli, op["args"])
        return {"exit": r.exit_code, "exc": repr(r.exception)}
    if k == "df":
        if op["fn"] == "find":
            return {"value": len(hdf.find(M))}
        if op["fn"] == "list":
            return {"value": len(hdf.list())}
        if op["fn"] == "install":
            return {"value": hdf.install_dependencies_string(f"flow{M}", f"user{M}", version="abc")}
        if op["fn"] == "deps":
            return {"value": hdf.are_py_dependencies_satisfied(f"flow{M}", f"user{M}", version="abc")}
        if op["fn"] == "clear":
            hdf.clear_storage()
            return {"value": None}
        if op["fn"] == "copy":
            hdf.copy(main, os.path.join(spec["scratch"], "copies"), overwrite=True)
            return {"value": None}
        if op["fn"] == "inspect_module":
            return {"value": hdf.inspect_module(main)}
    if k == "contrib":
        from hamilton import contrib
        import logging
        with contrib.catch_import_errors(op["name"].replace("@", M), op["file"].replace("@", M),
                                         logging.getLogger("x")):
            pass
        return {}
    if k == "disable":
        telemetry.disable_telemetry()
        return {}
    if k == "threads":
        dr, ad = drs[op["dr"] % len(drs)]
        errs, got = [], []

        def run(i):
            try:
                r = dr.execute([f"b_{M}"], inputs={f"x_{M}": i})
                got.append(i)
            except BaseException as e:
                errs.append(repr(e))
        ts = [threading.Thread(target=run, args=(i,)) for i in range(op["n"])]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return {"errs": errs, "got": sorted(got)}
    raise AssertionError(k)


for op in spec["ops"]:
    n0 = len(sent)
    t0 = time.time()
    rec = {"op": op}
    try:
        rec["result"] = do(op)
    except BaseException as e:
        import traceback
        rec["error"] = [type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:]]
    rec["secs"] = time.time() - t0
    settle()
    rec["events"] = sent[n0:]
    results.append(rec)
finish()
