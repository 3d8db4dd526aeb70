"""Source of truth for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), technique="", level="exploration",
         note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=list(observe), technique=technique, level=level, note=note))


prop("P01", "Executing a request equals plain evaluation, each needed node once",
     "For any modules, config, inputs and overrides, executing a set of requested outputs returns, for each of them, "
     "the value obtained by plainly calling the Python functions with every parameter bound to the value of the function, "
     "input, config entry or override of that name (or to its default when an optional one is absent). Every function the "
     "request needs runs exactly once per execution, anything it does not need (including what lies only upstream of an "
     "override) never runs, and an exception raised by a function reaches the caller unchanged.",
     ["programs", "inputs", "configurations"],
     "all dataflow modules, requests, inputs, configs and overrides, through every synchronous driver entry point",
     "The tests execute a few dozen hand-written modules; the DFS with memoisation, pruning and override short-circuiting "
     "has to be right for every DAG shape, falsy/NaN/frame value and request.",
     ["hamilton/driver.py", "hamilton/graph.py", "hamilton/execution/graph_functions.py", "hamilton/node.py",
      "hamilton/graph_utils.py", "hamilton/common/__init__.py"],
     [("memoised DFS, override short circuit, pruning", "hamilton/execution/graph_functions.py:execute_subdag"),
      ("graph construction from modules", "hamilton/graph.py:create_function_graph"),
      ("request conversion and result selection", "hamilton/driver.py:DefaultGraphExecutor.execute")],
     ["Driver.execute / raw_execute return values", "calls recorded inside the user functions"],
     "online call monitor + reference evaluator over random dataflows")

prop("P02", "Invalid dataflows and requests are rejected before user code runs",
     "Building a driver fails when two modules define the same node, a function lacks type annotations, or a produced type does "
     "not fit the parameter that consumes it; executing fails when an output is unknown, a required input is missing, wrongly "
     "typed or also set in the config, or a parallel node is requested without dynamic execution - in every case with an error naming "
     "a culprit and before any user function is called. Valid dataflows and requests are never rejected, and the dry-run "
     "validation gives the same verdict as the execution; cycle queries report a cycle exactly when one is reachable.",
     ["programs", "inputs", "configurations"],
     "all combinations of faults in modules, types, inputs and requests, and their valid neighbours",
     "Type compatibility, optional/required and override interactions multiply; tests sample a handful of type pairs and single faults.",
     ["hamilton/driver.py", "hamilton/graph.py", "hamilton/htypes.py", "hamilton/node.py", "hamilton/execution/graph_functions.py"],
     [("input validation", "hamilton/driver.py:Driver.validate_inputs"),
      ("edge type check", "hamilton/graph.py:add_dependency, hamilton/htypes.py:types_match"),
      ("input value check", "hamilton/htypes.py:check_input_type"),
      ("cycle detection", "hamilton/graph.py:get_cycles")],
     ["exceptions of build/execute/validate", "absence of recorded user calls"],
     "fault-injected requests judged by an independent acceptance rule, with a call monitor")

EXTRA = os.path.join(ROOT, "tools", "props_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

NA = {}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".py")):
            checks.append(dict(
                property=p["id"], quick_cmd=f"bash run.sh {p['id']} --tier quick",
                thorough_cmd=f"bash run.sh {p['id']} --tier thorough",
                technique="runtime monitoring: " + p["technique"], level=p["level"],
                level_note=p["note"] or
                "Held on the executions explored (counts in the evidence file); says nothing about paths the "
                "generators do not drive. Trusts the reference model in the check and the Python runtime."))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "check under construction; not claimed yet")))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
                       notes="No hooks in /repo: all monitors observe public behaviour (user functions, "
                             "lifecycle hooks, stores, files, HTTP)."), f, indent=1)
    print(len(P), "properties,", len(checks), "claimed")


main()
