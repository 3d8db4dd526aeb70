"""P26: usage telemetry: off means off, never gets in the way, never carries what the user wrote."""
import configparser
import json
import os
import re
import subprocess
import sys
import uuid

import vf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHILD = os.path.join(HERE, "lib", "telemchild.py")

check = vf.Check(
    "P26",
    rule="each case is one or two processes with their own HOME, configuration file and environment, in "
         "which the network is replaced by a recorder that answers, fails or never answers, and a random "
         "program runs: building drivers (also failing), executing (also failing), materializing, "
         "queries, drawings, the asynchronous driver, the command line, the dataflow hub helpers, "
         "threads, turning telemetry off half-way. Every name, value, message and path of the user "
         "carries a marker. Oracle: recorded payloads against the operations performed; results "
         "against direct computation. Distinct = configuration x program shape",
    assumptions=["names of community dataflows and of their authors are public (documented as sent)",
                 "the limit of events is per process and checked for one thread"],
    required=["processes", "disabled_env", "disabled_conf", "disabled_call", "enabled", "events_start",
              "events_end", "events_function", "ops", "failing_execs", "failing_builds", "hangs",
              "endpoint_errors", "limit_reached", "async_runs", "cli_runs", "hub_calls", "contrib_imports",
              "same_id_again", "conf_preserved", "user_code_under_hamilton_dir", "threads",
              "custom_adapters", "env_overrides_file", "event_counts_checked"],
)

FALSE = ["false", "False", "FALSE", "0", "no", "off"]
TRUE = ["true", "True", "1", "yes", "on"]
JUNK = ["", "maybe", "2", "disabled"]


def parse(v):
    v = v.strip().lower()
    if v in ("1", "yes", "true", "on"):
        return True
    if v in ("0", "no", "false", "off"):
        return False
    return None


def write_modules(ctx, marker, under):
    root = os.path.join(ctx.tmpdir(), f"dir_{marker}", *under)
    os.makedirs(root, exist_ok=True)
    M = marker
    open(os.path.join(root, f"main_{M}.py"), "w").write(f'''
from hamilton.function_modifiers import tag, extract_fields
from typing import Dict

def mid_{M}(x_{M}: int) -> int:
    return x_{M} * 3

@tag(owner_{M}="{M}")
def b_{M}(mid_{M}: int) -> int:
    return mid_{M} + 1

@extract_fields({{"f1_{M}": int, "f2_{M}": int}})
def fields_{M}(b_{M}: int) -> Dict[str, int]:
    return {{"f1_{M}": b_{M} - 1, "f2_{M}": b_{M} * 2}}

def const_{M}() -> int:
    return 7

def boom_{M}(mid_{M}: int) -> int:
    return _helper_{M}(mid_{M})

def _helper_{M}(v):
    raise ValueError("secret {M} " + str(v))
''')
    open(os.path.join(root, f"extra_{M}.py"), "w").write(f'''
def more_{M}(b_{M}: int) -> int:
    return b_{M} + 100
''')
    open(os.path.join(root, f"bad_{M}.py"), "w").write(f'''
def wrong_{M}(b_{M}: str) -> int:
    return 1
''')
    open(os.path.join(root, f"am_{M}.py"), "w").write(f'''
async def b_{M}(x_{M}: int) -> int:
    return x_{M} * 3 + 1

async def boom_{M}(x_{M}: int) -> int:
    raise ValueError("secret {M}")
''')
    return root


QUERIES = [("list_available_variables", []), ("what_is_upstream_of", ["b_@"]),
           ("what_is_downstream_of", ["mid_@"]), ("has_cycles", ["b_@"]),
           ("export_execution", ["const_@"]), ("display_all_functions", []),
           ("display_upstream_of", ["b_@"]), ("display_downstream_of", ["mid_@"]),
           ("what_is_the_path_between", ["mid_@", "b_@"])]


def gen_ops(rng, marker, n, modpath):
    ops = [build_op(rng)]
    good = 1 if not ops[0].get("bad") else 0
    while len(ops) < n:
        k = rng.random()
        if not good or k < 0.15:
            o = build_op(rng)
            good += 0 if o.get("bad") else 1
        elif k < 0.45:
            outs = rng.sample(["b_@", "mid_@", "f1_@", "f2_@", "const_@"], rng.randint(1, 3))
            o = {"op": "exec", "dr": rng.randrange(5), "outs": outs, "x": rng.randrange(-5, 50),
                 "more": rng.choice([0, 0, 1, 3]), "overrides": rng.choice([None, None, 0, 2])}
            if o["overrides"] is not None and rng.random() < 0.5:
                o["mid"] = rng.randrange(100)
            r = rng.random()
            if r < 0.25:
                o["outs"] = outs + ["boom_@"]
            elif r < 0.35:
                o["outs"] = outs + ["nosuch_@"]
        elif k < 0.50:
            o = {"op": "noinput", "dr": rng.randrange(5), "overrides": rng.choice([None, {}])}
        elif k < 0.56:
            o = {"op": "mat", "dr": rng.randrange(5), "x": rng.randrange(9)}
        elif k < 0.68:
            fn, args = rng.choice(QUERIES)
            o = {"op": "query", "fn": fn, "args": args, "dr": rng.randrange(5)}
        elif k < 0.75:
            o = {"op": "async", "out": rng.choice(["b_@", "b_@", "boom_@"]), "x": rng.randrange(9)}
        elif k < 0.80:
            o = {"op": "cli", "args": rng.choice([["version", modpath], ["--json-out", "version", modpath],
                                                  ["version", modpath + ".missing"]])}
        elif k < 0.90:
            o = {"op": "df", "fn": rng.choice(["find", "list", "install", "deps", "clear", "copy", "inspect_module"])}
        elif k < 0.94:
            name, file = rng.choice([
                ("hamilton.contrib.user.someone.flow", "/x/@/__init__.py"),
                ("hamilton.contrib.dagworks.flow", "/x/@/__init__.py"),
                ("flow", "/h/.hamilton/dataflows/abc123/contrib/hamilton/contrib/user/someone/flow/__init__.py"),
                ("__main__", "/x/@.py"), ("flow", "/home/@/flow/__init__.py")])
            o = {"op": "contrib", "name": name, "file": file}
        elif k < 0.97:
            o = {"op": "threads", "dr": rng.randrange(5), "n": rng.randint(2, 6)}
        else:
            o = {"op": "disable"}
        ops.append(o)
    return ops


def build_op(rng):
    o = {"op": "build", "config": rng.randrange(4), "mods": rng.randint(1, 2),
         "adapter": rng.choice([None, None, "custom", "builder", "pandas", "hook", "simple"])}
    if rng.random() < 0.15:
        o["bad"] = True
    return o


def child(ctx, spec, home, env_extra):
    d = ctx.tmpdir()
    sp, out = os.path.join(d, "spec.json"), os.path.join(d, "out.json")
    json.dump(spec, open(sp, "w"))
    env = {k: v for k, v in os.environ.items() if not k.startswith("HAMILTON_")}
    env.update(HOME=home, **env_extra)
    p = subprocess.run([sys.executable, CHILD, sp, out], env=env, cwd=d, stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, timeout=90)
    if not os.path.exists(out):
        raise RuntimeError(f"child gave nothing: rc {p.returncode} {p.stderr[-2000:]!r}")
    return json.load(open(out))


def expect_exec(op, M):
    x = op["x"]
    mid = op["mid"] if "mid" in op else x * 3
    vals = {"mid": mid, "b": mid + 1, "f1": mid, "f2": (mid + 1) * 2, "const": 7}
    if any(o.startswith("boom") for o in op["outs"]) or any(o.startswith("nosuch") for o in op["outs"]):
        return None
    return {f"{o[:-2]}_{M}": vals[o[:-2]] for o in op["outs"]}


def judge(ctx, spec, out, enabled, anon, how):
    M = spec["marker"]
    ctx.observe("processes")
    ctx.require(not out["blocked"], "blocked", "an operation waited for an endpoint that does not answer",
                how=how)
    ctx.require(not out["waits"], "waited", "an operation waited for a thread that sends", how=how, waits=out["waits"][:3])
    ctx.require(not out["thread_errors"], "thread_error", "a sending thread died with a traceback", how=how, endpoint=spec["endpoint"], errors=out["thread_errors"][:2])
    if enabled and out["ops"] and out["ops"][0]["op"]["op"] == "build" and not out["ops"][0]["op"].get("bad"):
        ctx.require(bool(out["ops"][0]["events"]), "not_sent", "telemetry is on, yet building a driver sent no event", how=how)
        if how["conf"] is not None and parse(how["conf"]) is False:
            ctx.observe("env_overrides_file")
    ctx.require(not out["raw_net"], "other_network", "the network was used in another way", calls=out["raw_net"])
    on = enabled
    total, single = 0, True
    calls = 0
    for rec in out["ops"]:
        op, k = rec["op"], rec["op"]["op"]
        det = dict(op=op, how=how, endpoint=spec["endpoint"])
        ctx.observe("ops")
        err = rec.get("error")
        res = rec.get("result")
        if k == "import":
            ctx.violation("import", "importing hamilton fails", error=err, **det)
            return
        # ---- the operation itself does what it does without telemetry
        if k == "build" and op.get("bad"):
            ctx.observe("failing_builds")
            ctx.require(err is not None, "bad_build_accepted", "bad module accepted", **det)
        elif k == "exec":
            want = expect_exec(op, M)
            if want is None:
                ctx.observe("failing_execs")
                boom_first = any(o.startswith("boom") for o in op["outs"])
                ctx.require(err is not None and err[0] == "ValueError" and
                            (not boom_first or f"secret {M}" in err[1]), "exec_error",
                            "the error of the run is not the user's", error=err, **det)
            else:
                ctx.require(err is None and res["value"] == want, "exec_value", "wrong result", error=err,
                            got=res and res["value"], want=want, **det)
        elif k == "mat":
            ctx.require(err is None and res["value"] == {f"b_{M}": op["x"] * 3 + 1}, "mat_value",
                        "wrong result", error=err, got=res, **det)
        elif k == "async":
            ctx.observe("async_runs")
            ctx.require(err is None, "async_failed", "the asynchronous run failed", error=err, **det)
            if err is None:
                if op["out"] == "b_@":
                    ctx.require(res["value"] == {f"b_{M}": op["x"] * 3 + 1}, "async_value", "wrong result",
                                got=res, **det)
                else:
                    ctx.require(res["async_error"] == ["ValueError", f"secret {M}"] or
                                (res["async_error"] and f"secret {M}" in res["async_error"][1]), "async_error",
                                "the error of the run is not the user's", got=res, **det)
        elif k == "cli":
            ctx.observe("cli_runs")
            good = not op["args"][-1].endswith(".missing")
            ctx.require(err is None and (res["exit"] == 0) == good, "cli", "the command line failed", got=res, error=err,
                        **det)
        elif k == "threads":
            ctx.observe("threads", op["n"])
            ctx.require(err is None and not res["errs"] and res["got"] == list(range(op["n"])), "threads",
                        "concurrent runs failed", got=res, error=err, **det)
        else:
            if k == "df":
                ctx.observe("hub_calls")
                want = {"find": 0, "list": 0, "install": "", "deps": True, "clear": None, "copy": None,
                        "inspect_module": None}[op["fn"]]
                ctx.require(err is not None or res["value"] == want, "hub_value", "wrong result", got=res, **det)
            if k == "contrib":
                ctx.observe("contrib_imports")
            ctx.require(err is None, f"{k}_failed", "the operation failed", error=err, **det)
        # ---- what was sent
        ev = rec["events"]
        if k == "disable":
            on = False
            ctx.observe("disabled_call")
        if k == "threads":
            single = False
        for e in ev:
            ctx.require(on, "sent_when_off", "an event was sent although telemetry is off", event=e, **det)
            ctx.require(not e["main"], "sent_inline", "the event is sent by the caller's thread", event=e, **det)
            total += 1
            body = e["body"] or ""
            text = json.dumps([e["url"], body, e["headers"]])
            i = text.find(M)
            ctx.require(i < 0, "leak", "an event carries what the user wrote",
                        around=text[max(0, i - 200):i + 200], **det)
            ctx.require(spec["scratch"] not in text, "leak_path", "an event carries a path of the user",
                        event=body[:1500], **det)
            try:
                p = json.loads(body)
                props = p["properties"]
            except Exception as x:
                ctx.violation("payload", f"payload is not the documented JSON: {x}", event=body[:500], **det)
                continue
            ctx.require(props.get("distinct_id") == anon, "anonymous_id",
                        "the anonymous id is not the one of the configuration file", got=props.get("distinct_id"),
                        want=anon, **det)
            check_event(ctx, op, res, err, p, props, det)
        limit = 2 if k == "async" else op["n"] if k == "threads" else 2 if k == "cli" else 3 if k == "df" \
            else 2 if k == "mat" else 1
        ctx.require(len(ev) <= limit, "too_many", "more events than operations", n=len(ev), limit=limit, **det)
        calls += 1
    if single:
        ctx.require(total <= 10, "limit", "more than ten events in one process", n=total, how=how)
        if total == 10 and calls > 10:
            ctx.observe("limit_reached")
    if spec["endpoint"] == "hang" and total:
        ctx.observe("hangs")
    elif spec["endpoint"] != "ok" and total:
        ctx.observe("endpoint_errors")
    ctx.observe("enabled" if enabled else "disabled_runs")


def check_event(ctx, op, res, err, p, props, det):
    name, k = p.get("event"), op["op"]
    if name == "os_hamilton_run_start":
        ctx.observe("events_start")
        ok = k in ("build", "async", "cli")
        if ok and k == "build" and not err:
            ok = (props["number_of_nodes"], props["number_of_modules"], props["number_of_config_items"],
                  props["driver_run_id"]) == (res["nodes"], res["mods"], res["config"], res["run_id"]) and \
                props["error"] is None
            ctx.observe("event_counts_checked")
            if op["adapter"] in ("custom", "hook"):
                ctx.observe("custom_adapters")
                ok = ok and "custom_adapter" in props["lifecycle_adapters_used"]
            if op["adapter"] == "builder":
                ctx.observe("custom_adapters")
                ok = ok and props["result_builder_used"] == "custom_builder"
            if op["adapter"] == "pandas":
                ok = ok and props["result_builder_used"] == "hamilton.base.PandasDataFrameResult"
        elif ok and k == "build":
            ok = bool(props["error"])
        ctx.require(ok, "start_event", "the start event does not describe the driver built", event=props,
                    result=res, **det)
    elif name == "os_hamilton_run_end":
        ctx.observe("events_end")
        ok = k in ("exec", "noinput", "mat", "async", "threads")
        failed = err is not None or bool(res and res.get("async_error"))
        if ok:
            ok = props["is_success"] is (not failed) and bool(props["error"]) is failed \
                and props["runtime_seconds"] >= 0
        if ok and res and k != "threads":
            ok = (props["number_of_outputs"], props["number_of_inputs"], props["number_of_overrides"],
                  props["driver_run_id"]) == (res["outs"], res["inputs"], res["overrides"], res["run_id"])
            ctx.observe("event_counts_checked")
        ctx.require(ok, "end_event", "the end event does not describe the run", event=props, result=res,
                    error=err, **det)
        if failed and not det.get("how", {}).get("plain_dir"):
            ctx.observe("user_code_under_hamilton_dir")
    elif name == "os_hamilton_driver_function_call":
        ctx.observe("events_function")
        ok = (k == "query" and props["function_name"] == op["fn"]) or \
             (k == "mat" and props["function_name"] == "materialize") or k in ("df", "cli")
        ctx.require(ok, "function_event", "the event names another function", event=props, **det)


@check.family("process", quick=96, thorough=1500, weight=6)
def process(ctx):
    rng = ctx.rng
    M = "zq" + "".join(rng.choice("abcdefghjkm") for _ in range(8))
    home = ctx.tmpdir()
    under = rng.choice([[], ["hamilton"], ["hamilton", "proj"], ["proj", "hamilton"], ["proj"]])
    moddir = write_modules(ctx, M, under)
    # ---- configuration
    conf_val = rng.choice([None, None, None, "T", "F", "F", "junk"])
    conf_val = {"T": rng.choice(TRUE), "F": rng.choice(FALSE), "junk": rng.choice(JUNK[1:])}.get(conf_val)
    env_val = rng.choice([None, None, None, None, "T", "T", "F", "F", "junk"])
    env_val = {"T": rng.choice(TRUE), "F": rng.choice(FALSE), "junk": rng.choice(JUNK)}.get(env_val)
    conf_path = os.path.join(home, ".hamilton.conf")
    env = {}
    if rng.random() < 0.2:
        conf_path = os.path.join(ctx.tmpdir(), "other.conf")
        env["HAMILTON_CONFIG_URI"] = conf_path
    anon = str(uuid.UUID(int=rng.getrandbits(128))) if rng.random() < 0.5 else None
    has_conf = conf_val is not None or anon is not None or rng.random() < 0.3
    keep = {}
    if has_conf:
        c = configparser.ConfigParser()
        c["DEFAULT"] = {}
        if conf_val is not None:
            c["DEFAULT"]["telemetry_enabled"] = conf_val
        if anon:
            c["DEFAULT"]["anonymous_id"] = anon
        if rng.random() < 0.5:
            c["DEFAULT"]["other"] = keep["other"] = "kept"
        c.write(open(conf_path, "w"))
    if rng.random() < 0.92:
        env["HAMILTON_AUTOLOAD_EXTENSIONS"] = "0"      # importing all of them takes seconds
    unwritable = not has_conf and rng.random() < 0.15
    if unwritable:
        os.mkdir(conf_path)       # neither readable nor writable as a file
    if env_val is not None:
        env["HAMILTON_TELEMETRY_ENABLED"] = env_val
    enabled = True
    if conf_val is not None and parse(conf_val) is not None:
        enabled = parse(conf_val)
    if env_val is not None and parse(env_val) is not None:
        enabled = parse(env_val)
    if not enabled:
        ctx.observe("disabled_env" if env_val is not None and parse(env_val) is False else "disabled_conf")
    how = dict(conf=conf_val, env=env_val, under=under, plain_dir="hamilton" not in under)
    spec = dict(marker=M, endpoint=rng.choice(["ok", "ok", "500", "urlerror", "httperror", "oserror",
                                               "badstatus", "hang"]),
                repo=vf.REPO, moddirs=[moddir], modules=[f"main_{M}", f"extra_{M}", f"bad_{M}"],
                amodule=f"am_{M}", scratch=ctx.scratch, log_debug=rng.random() < 0.3,
                ops=gen_ops(rng, M, rng.choice([4, 6, 8, 14, 20]), os.path.join(moddir, f"main_{M}.py")))
    if rng.random() < 0.15:
        # many plain operations, to reach the limit
        spec["ops"] = [dict(op="build", config=1, mods=1, adapter=None)] + [
            rng.choice([dict(op="query", fn="list_available_variables", args=[], dr=0),
                        dict(op="df", fn="list"),
                        dict(op="exec", dr=0, outs=["b_@"], x=1, more=0, overrides=None)]) for _ in range(25)]
    runs = 2 if not unwritable and rng.random() < 0.3 else 1
    seen = anon
    for i in range(runs):
        out = child(ctx, spec, home, env)
        if unwritable:
            ids = {json.loads(e["body"])["properties"].get("distinct_id") for r in out["ops"] for e in r["events"]
                   if e["body"]}
            ctx.require(len(ids) <= 1, "several_ids", "several anonymous ids in one process", ids=list(ids))
            now = ids.pop() if ids else None
        else:
            c = configparser.ConfigParser()
            c.read(conf_path)
            now = c["DEFAULT"].get("anonymous_id")
            ctx.require(now and (seen is None or now == seen), "anonymous_id_changed",
                        "the anonymous id of the configuration file was lost or changed", before=seen, now=now)
            if seen:
                ctx.observe("same_id_again")
            seen = now
            ctx.require(c["DEFAULT"].get("telemetry_enabled") == conf_val, "conf_flag",
                        "the telemetry flag in the configuration file changed", before=conf_val,
                        now=c["DEFAULT"].get("telemetry_enabled"))
            for a, b in keep.items():
                ctx.require(c["DEFAULT"].get(a) == b, "conf_lost", "a setting of the configuration file was lost")
                ctx.observe("conf_preserved")
        judge(ctx, spec, out, enabled, now, how)
    ctx.sig(conf_val, env_val, tuple(under), spec["endpoint"], tuple(o["op"] + str(o.get("fn", "")) for o in spec["ops"]))
    ctx.sample(dict(how=how, endpoint=spec["endpoint"], ops=[o["op"] for o in spec["ops"]],
                    sent=out["total"]))


@check.family("autoload_conf", quick=8, thorough=60, weight=4)
def autoload_conf(ctx):
    """The commands that switch extension autoloading on and off share the file with telemetry."""
    rng = ctx.rng
    home = ctx.tmpdir()
    conf_path = os.path.join(home, ".hamilton.conf")
    base = {"telemetry_enabled": rng.choice(FALSE + TRUE), "anonymous_id": str(uuid.UUID(int=rng.getrandbits(128))),
            "other": "kept"}
    c = configparser.ConfigParser()
    c["DEFAULT"] = dict(base)
    if rng.random() < 0.5:
        c["section"] = {"a": "1"}
    c.write(open(conf_path, "w"))
    env = {k: v for k, v in os.environ.items() if not k.startswith("HAMILTON_")}
    env["HOME"] = home
    steps = [rng.choice(["config_disable_autoload", "config_enable_autoload"]) for _ in range(rng.randint(1, 4))]
    code = ("from hamilton import registry\n" + "".join(f"registry.{s}()\n" for s in steps))
    p = subprocess.run([sys.executable, "-c", code], env=env, cwd=home, capture_output=True, text=True, timeout=90)
    ctx.require(p.returncode == 0, "autoload_failed", "switching autoloading failed", err=p.stderr[-1500:])
    r = configparser.ConfigParser()
    r.read(conf_path)
    for k, v in base.items():
        ctx.require(r["DEFAULT"].get(k) == v, "autoload_conf_lost", "switching autoloading changed another setting",
                    setting=k, before=v, now=r["DEFAULT"].get(k), steps=steps)
    off = steps[-1] == "config_disable_autoload"
    code = "from hamilton import driver, telemetry, registry\nprint(len(registry.DF_TYPE_AND_COLUMN_TYPES), telemetry.g_telemetry_enabled)"
    p = subprocess.run([sys.executable, "-c", code], env=env, cwd=home, capture_output=True, text=True, timeout=90)
    ctx.require(p.returncode == 0, "autoload_import", "importing fails afterwards", err=p.stderr[-1500:])
    n, flag = p.stdout.split()[-2:]
    ctx.require((n == "0") == off, "autoload", "extensions (not) loaded against the setting", steps=steps, n=n)
    ctx.require((flag == "True") == parse(base["telemetry_enabled"]), "autoload_flag",
                "telemetry flag not as configured", flag=flag, conf=base)
    ctx.observe("conf_preserved")
    ctx.sig(tuple(steps), base["telemetry_enabled"])


if __name__ == "__main__":
    check.main()
