"""Random dataflow generator + an independent reference evaluator.

A Dag is a description; `Dag.source()` renders it to ordinary Hamilton modules and `evaluate()` says,
without using any code under test, which functions must run and what every name's value is."""
import itertools
import linecache
import sys
import zlib
from types import ModuleType

import vrt

REQ = "<required>"
MISSING = object()
_counter = itertools.count()

PLAIN_KINDS = ["int", "int", "int", "float", "str", "bool", "list", "dict", "zero", "false",
               "empty_str", "none", "empty_list", "empty_dict", "nan"]
PANDAS_KINDS = ["series", "frame", "array"]

HEADER = ("from typing import *\nimport pandas as pd\nimport numpy as np\nimport vrt as _vrt\n"
          "from vrt import H as _H\n")

WORDS = ("alpha beta gamma delta eps zeta eta theta iota kappa lam mu nu xi omi pi rho sigma tau "
         "ups phi chi psi omega spend signup avg raw feat model pred score agg total norm clean "
         "load split train valid test loss lr epoch batch rate cost price qty user item").split()


def fresh_names(rng, n, taken=()):
    out, taken = [], set(taken)
    while len(out) < n:
        k = rng.random()
        w = rng.choice(WORDS)
        if k < 0.35:
            nm = w
        elif k < 0.8:
            nm = f"{w}_{rng.choice(WORDS)}"
        elif k < 0.9:
            nm = f"{w}{rng.randrange(10)}"
        else:
            nm = f"{w}_{rng.choice(WORDS)}_{rng.randrange(3)}"
        if nm not in taken:
            taken.add(nm)
            out.append(nm)
    return out


def load_module(source, name=None):
    name = name or f"vfmod{next(_counter)}x"
    if zlib.crc32(source.encode()) % 4 == 0 and "__future__" not in source:
        # a quarter of the generated modules postpone the evaluation of annotations
        source = "from __future__ import annotations\n" + source
    fn = f"/vfgen/{name}.py"
    mod = ModuleType(name)
    mod.__file__ = fn
    sys.modules[name] = mod
    linecache.cache[fn] = (len(source), None, source.splitlines(True), fn)
    exec(compile(source, fn, "exec"), mod.__dict__)
    return mod


def unload(*mods):
    for m in mods:
        sys.modules.pop(m.__name__, None)
        linecache.cache.pop(m.__file__, None)


class N:
    def __init__(self, name, params, kind, salt, mod=0):
        self.name, self.params, self.kind, self.salt, self.mod = name, params, kind, salt, mod
        self.decorators = []      # source lines
        self.rtype = None         # override annotation
        self.is_async = False

    def render(self):
        ps = []
        req = [p for p in self.params if p[1] == REQ]
        opt = [p for p in self.params if p[1] != REQ]
        for nm, d, ann in req + opt:
            ps.append(f"{nm}: {ann}" + ("" if d == REQ else f" = {d!r}"))
        kw = ", ".join(f"{p[0]!r}: {p[0]}" for p in self.params)
        rt = self.rtype or vrt.PYTYPE[self.kind]
        decs = "".join(d + "\n" for d in self.decorators)
        a = "async " if self.is_async else ""
        w = f"    await _vrt.AH({self.name!r})\n" if self.is_async else ""
        return (f"{decs}{a}def {self.name}({', '.join(ps)}) -> {rt}:\n{w}"
                f"    return _H({self.name!r}, {self.salt}, {self.kind!r}, {{{kw}}})\n")


class Dag:
    def __init__(self):
        self.nodes = {}        # name -> N, topological insertion order
        self.inputs = {}       # name -> kind
        self.nmods = 1

    def sources(self, rng=None):
        out = []
        for m in range(self.nmods):
            ns = [n for n in self.nodes.values() if n.mod == m]
            if rng:
                ns = ns[:]
                rng.shuffle(ns)
            out.append(HEADER + "\n" + "\n\n".join(n.render() for n in ns) + "\n")
        return out

    def modules(self, rng=None):
        return [load_module(s) for s in self.sources(rng)]

    def describe(self):
        return {n.name: dict(params=[f"{p[0]}" + ("" if p[1] == REQ else "?") for p in n.params],
                             kind=n.kind) for n in self.nodes.values()}

    def shape_sig(self):
        """Structure up to renaming (index-based)."""
        idx = {}
        for nm in list(self.inputs) + list(self.nodes):
            idx[nm] = len(idx)
        return tuple((idx[n.name], n.kind, tuple((idx.get(p[0], -1), p[1] == REQ) for p in n.params))
                     for n in self.nodes.values())


def ann_for(rng, kind, strict=False):
    t = vrt.PYTYPE[kind]
    if strict:
        return t
    r = rng.random()
    if r < 0.6:
        return t
    if r < 0.75:
        return "Any"
    if r < 0.88 and not t.startswith("Optional"):
        return f"Optional[{t}]"
    if not t.startswith("Optional"):
        return f"Union[{t}, bytes]"
    return t


def gen_dag(rng, n_nodes=None, n_inputs=None, kinds=None, p_opt=0.2, n_mods=None, strict=False,
            max_fan=4, p_missing_opt=0.5):
    d = Dag()
    n_nodes = n_nodes or rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14])
    n_inputs = rng.choice([0, 1, 2, 3, 4]) if n_inputs is None else n_inputs
    d.nmods = n_mods or rng.choice([1, 1, 1, 2, 3])
    kinds = kinds or PLAIN_KINDS
    names = fresh_names(rng, n_nodes + n_inputs)
    in_names, node_names = names[:n_inputs], names[n_inputs:]
    for nm in in_names:
        d.inputs[nm] = rng.choice(["int", "int", "str", "float", "list", "dict", "bool"])
    avail = list(in_names)
    prev = {}
    style = rng.choice(["random", "chain", "wide", "diamond"])
    for i, nm in enumerate(node_names):
        if style == "chain" and prev:
            base = [list(prev)[-1]]
            k = rng.randrange(0, 2)
        elif style == "wide":
            base, k = [], rng.randrange(0, max_fan + 1)
        elif style == "diamond" and len(prev) >= 2:
            base = rng.sample(list(prev)[-4:], 2)
            k = rng.randrange(0, 2)
        else:
            base, k = [], rng.randrange(0, max_fan)
        pool = [a for a in avail if a not in base]
        ps = base + rng.sample(pool, min(k, len(pool)))
        rng.shuffle(ps)
        params = []
        for p in ps:
            kind = d.inputs.get(p) or d.nodes[p].kind
            opt = rng.random() < p_opt
            # the type of an input is what its first consumer says: keep it exact there
            ann = vrt.PYTYPE[kind] if p in d.inputs else ann_for(rng, kind, strict)
            dflt = rng.choice([3, 0, None, "dflt"]) if opt else REQ
            params.append((p, dflt, ann))
        n = N(nm, params, rng.choice(kinds), rng.randrange(1000), rng.randrange(d.nmods))
        d.nodes[nm] = n
        prev[nm] = n
        avail.append(nm)
    # every module needs at least nothing; empty modules are legal
    return d


def input_value(rng, kind):
    return {"int": lambda: rng.choice([0, 1, -5, 12345, None]) if rng.random() < .3 else rng.randrange(10**6),
            "str": lambda: rng.choice(["", "a", "xyz", "s%d" % rng.randrange(1000)]),
            "float": lambda: rng.choice([0.0, 1.5, -2.25, float(rng.randrange(1000))]),
            "bool": lambda: rng.random() < .5,
            "list": lambda: [rng.randrange(9) for _ in range(rng.randrange(4))],
            "dict": lambda: {"k": rng.randrange(50)} if rng.random() < .8 else {}}[kind]()


class RefError(Exception):
    """The reference says the run must fail (kind, name)."""

    def __init__(self, kind, name):
        super().__init__(f"{kind}:{name}")
        self.kind, self.name = kind, name


def evaluate(dag, final, config=None, inputs=None, overrides=None, raises=()):
    """Reference semantics: demand-driven, memoized evaluation of plain Python functions.
    Returns (values of final, set of functions called, memo of all values)."""
    config, inputs, overrides = config or {}, inputs or {}, overrides or {}
    memo, called = {}, []

    def need(nm):
        if nm in memo:
            return memo[nm]
        if nm in overrides:
            v = overrides[nm]
        elif nm in dag.nodes and nm not in config:
            n = dag.nodes[nm]
            kw, seen = {}, set()
            for p, d, _ in n.params:
                v = need(p)
                if v is MISSING:
                    if d == REQ:
                        raise RefError("missing", p)
                    v = d
                kw[p] = v
            called.append(nm)
            if nm in raises:
                raise RefError("raised", nm)
            v = vrt.value(nm, n.salt, n.kind, kw)
        elif nm in config:
            v = config[nm]
        elif nm in inputs:
            v = inputs[nm]
        else:
            v = MISSING
        memo[nm] = v
        return v

    sys.setrecursionlimit(max(sys.getrecursionlimit(), 10000))
    out = {}
    for f in final:
        v = need(f)
        out[f] = None if v is MISSING else v
    return out, called, memo


def required_inputs(dag, final, config=None, overrides=None):
    """(required, optional) external names reachable from `final` given overrides."""
    config, overrides = config or {}, overrides or {}
    req, opt, seen = set(), set(), set()

    def visit(nm):
        if nm in seen or nm in overrides or nm not in dag.nodes or nm in config:
            return
        seen.add(nm)
        for p, d, _ in dag.nodes[nm].params:
            if p in dag.nodes and p not in config:
                visit(p)
            elif p not in config and p not in overrides:
                (req if d == REQ else opt).add(p)
    for f in final:
        visit(f)
    return req, opt - req
