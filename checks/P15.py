"""P15: data quality checks judge the real output, never change it, and stop it exactly when they must."""
import logging
import math
import statistics
import typing

import refg
import vf
import vrt
from cmpv import same, short
from gen import HEADER, fresh_names, load_module, unload
from refg import Ref

check = vf.Check(
    "P15",
    rule="random functions under @check_output (every default validator, warn/fail) and @check_output_custom (several, equally named, failing, raising), on plain, "
         "parameterised, extracted and piped nodes with every kind of target, sync, task-based and async. Oracles: the checks' own arithmetic over the raw "
         "Python values; exactly-once accounting of validator calls; captured log records. Distinct = validators x values x request",
    required=["siblings", "drivers", "passed", "failed", "warned", "fail_level", "series", "primitives", "nan_values", "empty_series", "custom", "same_name_validators",
              "several_failures", "target_none", "target_name", "target_list", "target_all", "target_bad", "raw_requested", "validator_requested",
              "overridden_raw", "overridden_final", "dependents_blocked", "raising_validator", "mode_v1", "mode_v2", "mode_async", "pandera", "pydantic", "pydantic_instances", "pandera_typed", "unsupported", "parallel_tot", "parallel_wk", "parallel_its"],
)
IMP = HEADER + "import pandas as pd, numpy as np\nfrom hamilton.function_modifiers import *\nimport P15rt as _q\n"
DQ, SRC = "hamilton.data_quality.contains_dq_results", "hamilton.data_quality.source_node"


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, r):
        self.records.append((r.levelno, r.getMessage()))


CAP = Capture()


@check.setup
def setup_env():
    import sys
    import types

    import numpy as np
    import pandas as pd
    import pandera as pa
    import pydantic
    from hamilton.data_quality import base as dq
    from hamilton.plugins import h_pandera, h_pydantic, pydantic_extensions  # noqa: F401
    globals().update(np=np, pd=pd, dq=dq, pa=pa)
    lg = logging.getLogger("hamilton")
    lg.addHandler(CAP)
    lg.propagate = False
    lg.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    rt = types.ModuleType("P15rt")
    rt.h_pandera, rt.h_pydantic = h_pandera, h_pydantic

    class Inner(pydantic.BaseModel):
        x: int

    class Model(pydantic.BaseModel):
        a: int
        b: float
        c: str = "d"
        n: typing.Optional[Inner] = None
        xs: typing.List[int] = []

    class Narrow(Model):
        a: int = pydantic.Field(ge=3, le=7)

    class Frame(pa.DataFrameModel):
        a: int = pa.Field(ge=2, le=8)
        b: float = pa.Field(nullable=True)

    rt.Inner, rt.Model, rt.Narrow, rt.Frame = Inner, Model, Narrow, Frame
    rt.VALUE = None
    rt.VALIDATORS = []

    class Custom(dq.DataValidator):
        """Verdict scripted by the test: a table of value -> bool, or an exception."""
        def __init__(self, ident, nm, importance, rule):
            super().__init__(importance)
            self.ident, self.nm, self.rule = ident, nm, rule

        def applies_to(self, datatype):
            return True

        def description(self):
            return f"describes {self.ident}"

        def name(self):
            return self.nm

        def validate(self, dataset):
            vrt.log("validate", self.ident, dataset)
            ok = self.rule(dataset)
            return dq.ValidationResult(passes=ok, message=f"<{self.ident}>", diagnostics={"id": self.ident})
    rt.Custom = Custom
    sys.modules["P15rt"] = rt
    globals()["rt"] = rt


# ------------------------------------------------------------------ default validators
def isnan(x):
    return x is None or x is getattr(pd, "NaT", None) or (isinstance(x, float) and math.isnan(x))


def gen_series(rng):
    """(python list, dtype)"""
    n = rng.choice([0, 1, 1, 2, 3, 5, 8])
    k = rng.choice(["int", "int", "float", "float", "nanfloat", "str", "nanstr", "bool"])
    if k == "int":
        return [rng.randrange(-5, 12) for _ in range(n)], "int64"
    if k == "float":
        return [rng.choice([0.0, -0.5, 1.0, 2.25, 10.0, rng.random() * 10]) for _ in range(n)], "float64"
    if k == "nanfloat":
        return [rng.choice([float("nan"), float("nan"), 1.0, 5.0, float("inf")]) for _ in range(n)], "float64"
    if k == "str":
        return [rng.choice(["a", "b", "cc", ""]) for _ in range(n)], "object"
    if k == "nanstr":
        return [rng.choice(["a", "b", None, float("nan")]) for _ in range(n)], "object"
    return [rng.random() < .5 for _ in range(n)], "bool"


KIND = {"int64": [("int", int), ("np.int64", "i"), ("np.integer", "i"), ("np.number", "n"), ("np.float64", "f"), ("np.int32", "x")],
        }


def series_check(rng, vals, dt):
    """(validator argument source, verdict, expected diagnostics) for a random default validator applicable to the data."""
    numeric = dt in ("int64", "float64")
    opts = ["allow_nans", "max_fraction_nans", "values_in", "data_type", "allow_none"]
    if numeric:
        opts += ["range", "range", "max_standard_dev", "mean_in_range"]
    o = rng.choice(opts)
    nn = sum(isnan(v) for v in vals)
    if o == "allow_nans":
        return "allow_nans=False", nn == 0, dict(total_nan=nn, total_length=len(vals))
    if o == "max_fraction_nans":
        f = rng.choice([0, 0.0, .25, .5, nn / len(vals) if vals else .1, 1, 1.0])
        return f"max_fraction_nans={f!r}", (nn <= f * len(vals) + 1e-12) if vals else True, dict(total_nan=nn, total_length=len(vals))
    if o == "values_in":
        pool = sorted({v for v in vals if not isnan(v)}, key=repr)
        vs = [v for v in pool if rng.random() < .7]
        if dt == "object":
            vs += ["zz"]
        elif dt == "bool":
            vs = vs or [True]
        else:
            vs += [77]
        bad = [v for v in vals if not isnan(v) and v not in vs]
        kind = rng.choice([list, tuple, set]) if vs else list
        vs = [v for v in vs if v != float("inf")]
        bad = [v for v in vals if not isnan(v) and v not in vs]
        d = dict(incorrect_values_count=len(bad), correct_values_count=len(vals) - len(bad), data_size=len(vals))
        return f"values_in={kind(vs)!r}", not bad, d
    if o == "data_type":
        table = {"int64": [("np.int64", 1), ("np.integer", 1), ("np.number", 1), ("np.float64", 0), ("np.int32", 0), ("np.bool_", 0), ("np.object_", 0)],
                 "float64": [("np.float64", 1), ("np.floating", 1), ("np.number", 1), ("np.int64", 0), ("np.integer", 0)],
                 "object": [("np.object_", 1), ("np.int64", 0), ("np.float64", 0)],
                 "bool": [("np.bool_", 1), ("np.int64", 0), ("np.number", 0)]}[dt]
        t, ok = rng.choice(table)
        return f"data_type={t}", bool(ok), {}
    if o == "allow_none":
        a = rng.random() < .5
        return f"allow_none={a}", True, {}
    lo = rng.choice([-5, 0, 1.0, 2, -0.5])
    hi = lo + rng.choice([0, 1, 5, 9.75, 100])
    if vals and rng.random() < .5:      # boundaries are inclusive
        real = [v for v in vals if not isnan(v) and not math.isinf(v)]
        if real:
            lo, hi = min(real), max(real)
            if rng.random() < .4:
                hi = hi - .25
    if o == "range":
        bad = sum(not (lo <= v <= hi) for v in vals)
        return f"range=({lo!r}, {hi!r})", bad == 0, dict(in_range=len(vals) - bad, out_range=bad, data_size=len(vals))
    real = [v for v in vals if not isnan(v)]
    if any(math.isinf(v) for v in real):
        return "allow_none=False", True, {}
    if o == "max_standard_dev":
        m = rng.choice([0, .5, 1.0, 3, 100])
        sd = statistics.stdev(real) if len(real) > 1 else float("nan")
        if abs(sd - m) < 1e-9:
            m = m + 1
        return f"max_standard_dev={m!r}", sd <= m, {}
    mean = statistics.fmean(real) if real else float("nan")
    if min(abs(mean - lo), abs(mean - hi)) < 1e-9:
        lo, hi = lo - 1, hi + 1
    return f"mean_in_range=({lo!r}, {hi!r})", lo <= mean <= hi, {}


def primitive_check(rng, v, typ):
    opts = ["values_in", "data_type"]
    if typ in ("int", "float"):
        opts += ["range", "range"]
    if typ == "str":
        opts += ["contains", "does_not_contain"] * 2
    opts.append("allow_none")
    o = rng.choice(opts)
    if v is None:
        a = rng.random() < .5
        return f"allow_none={a}", a
    if o == "allow_none":
        return f"allow_none={rng.random() < .5}", True
    if o == "values_in":
        if isinstance(v, float) and math.isnan(v):
            return "values_in=[1.5]", False
        has = rng.random() < .5
        vs = ([v] if has else []) + {"int": [7001], "float": [.123], "str": ["qq"], "bool": [not v]}[typ]
        if any(isinstance(x, float) and math.isinf(x) for x in vs):
            return "values_in=[0.0]", False
        rng.shuffle(vs)
        return f"values_in={rng.choice([list, tuple, set])(vs)!r}", has
    if o == "data_type":
        t = rng.choice(["int", "float", "str", "bool"])
        return f"data_type={t}", isinstance(v, dict(int=int, float=float, str=str, bool=bool)[t])
    if o == "range":
        lo = rng.choice([v if not (isinstance(v, float) and not math.isfinite(v)) else 0, -3, 0])
        hi = rng.choice([lo, lo + 1, lo + 10.5])
        return f"range=({lo!r}, {hi!r})", lo <= v <= hi
    subs = [rng.choice(["a", "b", "ab", "", "z", " ", "a "]) for _ in range(rng.randrange(1, 3))]
    one = len(subs) == 1 and rng.random() < .5
    arg = repr(subs[0]) if one else repr(subs)
    if o == "contains":
        return f"contains={arg}", all(s in v for s in subs)
    return f"does_not_contain={arg}", not any(s in v for s in subs)


@check.family("defaults", 7000, 50000)
def fam_defaults(ctx):
    rng = ctx.rng
    vrt.reset()
    args, verdicts, diags = {}, {}, {}
    if rng.random() < .55:
        vals, dt = gen_series(rng)
        text = "pd.Series"
        value = pd.Series(vals, dtype=dt)
        if rng.random() < .2 and len(vals):
            value.index = [0] * len(vals)
        ctx.observe("series")
        if not vals:
            ctx.observe("empty_series")
        if any(isnan(v) for v in vals):
            ctx.observe("nan_values")
        for _ in range(rng.randrange(1, 4)):
            a, ok, d = series_check(rng, vals, dt)
            k = a.split("=")[0]
            args[k], verdicts[k], diags[k] = a, bool(ok), d
    else:
        text = rng.choice(["int", "float", "str", "bool"])
        value = {"int": lambda: rng.choice([0, 1, -3, 7, 10**20]), "float": lambda: rng.choice([0.0, -2.5, 3.25, float("nan"), float("inf")]),
                 "str": lambda: rng.choice(["", "a", "abab", "xyz", "zab" * 60, "a b"]), "bool": lambda: rng.random() < .5}[text]()
        none = rng.random() < .12
        if none:
            value = None
        ctx.observe("primitives")
        for _ in range(rng.randrange(1, 4)):
            a, ok = primitive_check(rng, value, text)
            k = a.split("=")[0]
            args[k], verdicts[k], diags[k] = a, bool(ok), {}
    importance = rng.choice(["warn", "fail", None])
    mode = rng.choice(refg.MODES)
    fn = [x + "q" for x in fresh_names(rng, 2)]     # never <other>_raw
    dep = fn[1]
    src = (f"@check_output({', '.join(args.values())}{', importance=' + repr(importance) if importance else ''})\n"
           f"def {fn[0]}(x: int) -> {text}:\n    \"\"\"Made.\"\"\"\n    _vrt.log('call', {fn[0]!r})\n    return _q.VALUE\n"
           f"def {dep}({fn[0]}: {text}) -> int:\n    _vrt.log('call', {dep!r})\n    return 5\n")
    rt.VALUE = value
    before = value.copy(deep=True) if isinstance(value, pd.Series) else value
    mod = load_module(IMP + src)
    dr = refg.build(mode, [mod])
    ctx.observe("drivers")
    ctx.observe("mode_" + mode)
    det = dict(source=src, value=short(value, 400), mode=mode)
    vs = {v.name: v for v in dr.list_available_variables()}
    checks = {n: v for n, v in vs.items() if v.tags.get(DQ) is True and v.tags.get(SRC) == fn[0]}
    ctx.require(len(checks) == len(args), "wrong-validators", lambda: f"{sorted(checks)} for {args}", **det)
    ctx.require({f"{fn[0]}_{k}_validator" for k in args} == set(checks), "wrong-validators", lambda: f"{sorted(checks)} for {args}", **det)
    res = refg.run(mode, dr, sorted(checks), {"x": 1})
    for k, ok in verdicts.items():
        r = res[f"{fn[0]}_{k}_validator"]
        ctx.require(bool(r.passes) == ok and isinstance(bool(r.passes), bool), f"wrong-verdict:{k}", lambda: f"{args[k]} on {short(value)} -> {r}", **det)
        for dk, dv in diags[k].items():
            ctx.require(r.diagnostics.get(dk) == dv, f"wrong-diagnostics:{k}", lambda: f"{dk}: {r.diagnostics} expected {dv}", **det)
    bad = [k for k, ok in verdicts.items() if not ok]
    CAP.records.clear()
    vrt.EVENTS.clear()
    final = [dep] if rng.random() < .5 else [dep, fn[0]]
    try:
        got, err = refg.run(mode, dr, final, {"x": 1}), None
    except Exception as e:      # noqa: BLE001
        got, err = None, e
    if importance == "fail":
        ctx.observe("fail_level")
    must_fail = bool(bad) and importance == "fail"
    if must_fail:
        ctx.observe("failed")
        ctx.require(isinstance(err, dq.DataValidationError), "failure-missed", lambda: f"{bad} fail on {short(value)} but got {got} / {err!r}", **det)
        for k in args:
            named = f"{fn[0]}:{k}_validator]" in str(err)
            ctx.require(named == (k in bad), "wrong-failures-listed", lambda: f"{err} should name {bad}", **det)
        ctx.require(dep not in vrt.calls(), "dependent-ran", f"{dep} ran although {fn[0]} failed {bad}", **det)
        ctx.observe("dependents_blocked")
    else:
        ctx.observe("passed")
        ctx.require(err is None, "false-failure", lambda: f"nothing must fail on {short(value)}: {err!r}", **det)
        if got and fn[0] in got:
            ctx.require(got[fn[0]] is value, "value-replaced", lambda: f"{short(got[fn[0]])} is not what the function returned", **det)
        ctx.require(sorted(vrt.calls()) == sorted([fn[0], dep]), "wrong-calls", lambda: f"{vrt.calls()}", **det)
        warned = [m for lv, m in CAP.records if lv == logging.WARNING]
        for k in args:
            n = sum(f"[{fn[0]}:{k}_validator]" in m for m in warned)
            ctx.require(n == (k in bad), "wrong-warnings", lambda: f"{n} warnings about {k}, failing: {bad}: {warned}", **det)
        if bad:
            ctx.observe("warned")
    ctx.require(same(value, before) if not isinstance(before, pd.Series) else value.equals(before), "value-mutated", lambda: f"{short(value)} was {short(before)}", **det)
    ctx.sig(tuple(sorted(args.values())), short(value, 60), importance, mode)
    ctx.sample(dict(source=src, value=short(value)))
    unload(mod)


@check.family("siblings", 1000, 8000)
def fam_siblings(ctx):
    """Several checked functions of one module: every one is judged by its own checks and limits."""
    rng = ctx.rng
    vrt.reset()
    names = [n for n in fresh_names(rng, rng.choice([2, 3, 5])) if not n.endswith("_raw")] or ["single"]
    series = rng.random() < .5
    src, exp, values, bad = "", {}, {}, {}
    same_arg = rng.random() < .7
    typ = rng.choice(["int", "float", "str", "bool"])
    first = None
    for nm in names:
        for _ in range(60):
            if series:
                vals, dt = gen_series(rng)
                values[nm], text = pd.Series(vals, dtype=dt), "pd.Series"
                a, ok, _d = series_check(rng, vals, dt)
            else:
                text = typ
                values[nm] = {"int": lambda: rng.choice([0, 1, -3, 7]), "float": lambda: rng.choice([0.0, -2.5, 3.25]),
                              "str": lambda: rng.choice(["", "a", "abab", "xyz"]), "bool": lambda: rng.random() < .5}[typ]()
                a, ok = primitive_check(rng, values[nm], typ)
            k = a.split("=")[0]
            if first is None or k == first or not same_arg:
                break
        first = first or k
        imp = rng.choice(["warn", "fail"])
        src += (f"@check_output({a}, importance={imp!r})\ndef {nm}(x: int) -> {text}:\n    _vrt.log('call', {nm!r})\n    return _q.VALUES[{nm!r}]\n")
        exp[f"{nm}_{k}_validator"] = bool(ok)
        bad[nm] = (not ok, imp, k)
    rt.VALUES = values
    mode = rng.choice(refg.MODES)
    mod = load_module(IMP + src)
    dr = refg.build(mode, [mod])
    det = dict(source=src, values=short(values, 600), mode=mode)
    got = refg.run(mode, dr, sorted(exp), {"x": 1})
    for k, ok in exp.items():
        ctx.require(bool(got[k].passes) == ok, "sibling-verdict", lambda: f"{k}: {got[k]} expected {ok}", **det)
    for nm in rng.sample(names, len(names)):
        CAP.records.clear()
        try:
            out, err = refg.run(mode, dr, [nm], {"x": 1}), None
        except dq.DataValidationError as e:
            out, err = None, e
        fails, imp, k = bad[nm]
        ctx.require((err is not None) == (fails and imp == "fail"), "sibling-outcome", lambda: f"{nm} ({imp}, fails={fails}): {out} {err!r}", **det)
        if err is None:
            ctx.require(out[nm] is values[nm], "value-replaced", lambda: f"{nm}: {short(out)}", **det)
            n = sum(f"[{nm}:{k}_validator]" in m for lv, m in CAP.records if lv == logging.WARNING)
            ctx.require(n == int(fails), "wrong-warnings", lambda: f"{n} warnings about {nm} ({imp}, fails={fails})", **det)
    ctx.observe("siblings")
    ctx.sig(src, repr(values))
    unload(mod)


# ------------------------------------------------------------------ wrapping
class Scripted:
    """A validator of the generated module: identity, name, importance and verdict rule."""

    def __init__(self, rng, i, names):
        self.ident = f"v{i}"
        self.nm = rng.choice(names)
        self.importance = rng.choice(["warn", "fail", "fail"])
        self.mod, self.bad = rng.choice([1, 2, 3, 5]), 0
        self.bad = rng.randrange(self.mod) if self.mod > 1 else rng.choice([0, 9])
        self.raises = rng.random() < .04

    def rule(self, v):
        if self.raises:
            raise vrt.VErr("validator " + self.ident)
        return vrt.ival(v) % self.mod != self.bad


@check.family("custom", 6000, 40000)
def fam_custom(ctx):
    rng = ctx.rng
    vrt.reset()
    mode = rng.choice(refg.MODES)
    shape = rng.choice(["plain", "plain", "parameterize", "fields", "fields", "pipe", "config"])
    names = [x + "q" for x in fresh_names(rng, 7)]     # never <other>_raw
    f, a, b, base, dep1, dep2 = names[:6]
    is_async = mode == "async" and rng.random() < .5 and shape in ("plain", "fields", "config")
    aw = f"    await _vrt.AH({f!r})\n" if is_async else ""
    ad = "async def" if is_async else "def"
    salt = rng.randrange(1000)
    vals = [Scripted(rng, i, rng.choice([["alpha"], ["alpha", "beta"], ["alpha", "beta", "gamma_validator"]])) for i in range(rng.choice([1, 2, 3, 4]))]
    rt.VALIDATORS[:] = [rt.Custom(v.ident, v.nm, v.importance, v.rule) for v in vals]
    listed = ", ".join(f"_q.VALIDATORS[{i}]" for i in range(len(vals)))
    src = f"def {base}(x: int) -> int:\n    return _H({base!r}, 1, 'int', {{'x': x}})\n"
    plain = {base: Ref(["x"], lambda kw: vrt.value(base, 1, "int", kw), [base])}
    calc = lambda s: (lambda kw: vrt.value(f, s, "int", kw))      # noqa: E731
    if shape == "plain" or shape == "config":
        cand, default = [f], [f]
        dec = "@config.when(m=1)\n" if shape == "config" else ""
        body = (f"{ad} {f}({base}: int, y: int) -> int:\n    \"\"\"Doc f.\"\"\"\n{aw}    return _H({f!r}, {salt}, 'int', {{{base!r}: {base}, 'y': y}})\n")
        inner = {f: Ref([base, "y"], calc(salt), [f], doc="Doc f.")}
    elif shape == "parameterize":
        cand, default = [a, b], [a, b]
        dec = f"@parameterize({a}={{'y': value(3)}}, {b}={{'y': source('y')}})\n"
        body = (f"def {f}({base}: int, y: int) -> int:\n    \"\"\"Doc f.\"\"\"\n    return _H({f!r}, {salt}, 'int', {{{base!r}: {base}, 'y': y}})\n")
        inner = {a: Ref([base], lambda kw: vrt.value(f, salt, "int", {base: kw[base], "y": 3}), [f]), b: Ref([base, "y"], calc(salt), [f])}
    elif shape == "fields":
        cand, default = [f, a, b], [a, b]
        dec = f"@extract_fields(dict({a}=int, {b}=int))\n"
        body = (f"{ad} {f}({base}: int) -> dict:\n    \"\"\"Doc f.\"\"\"\n{aw}    v = _H({f!r}, {salt}, 'int', {{{base!r}: {base}}})\n"
                f"    return {{{a!r}: v + 1, {b!r}: v * 2, 'other': 0}}\n")

        def whole(kw):
            v = vrt.value(f, salt, "int", kw)
            return {a: v + 1, b: v * 2, "other": 0}
        inner = {f: Ref([base], whole, [f]), a: Ref([f], lambda kw: kw[f][a]), b: Ref([f], lambda kw: kw[f][b])}
    else:
        cand, default = [f], [f]
        src += f"def _step(v: int, k: int) -> int:\n    return _H('_step', 3, 'int', {{'v': v, 'k': k}})\n"
        dec = f"@pipe_input(step(_step, k=4).named({a!r}, namespace=None))\n"
        body = (f"def {f}({base}: int) -> int:\n    \"\"\"Doc f.\"\"\"\n    return _H({f!r}, {salt}, 'int', {{{base!r}: {base}}})\n")
        inner = {a: Ref([base], lambda kw: vrt.value("_step", 3, "int", {"v": kw[base], "k": 4}), ["_step"]),
                 f: Ref([a], lambda kw: vrt.value(f, salt, "int", {base: kw[a]}), [f])}
        cand = [f]
    target = rng.choice(["none", "none", "name", "list", "all", "bad"])
    if target == "none":
        tgt, sel = "", default
    elif target == "name":
        n = rng.choice(cand)
        tgt, sel = f", target_={n!r}", [n]
    elif target == "list":
        ns = rng.sample(cand, rng.randrange(1, len(cand) + 1))
        tgt, sel = f", target_={ns!r}", ns
    elif target == "all":
        if shape == "pipe":
            target, tgt, sel = "none", "", default
        else:
            tgt, sel = ", target_=...", cand
    else:
        tgt, sel = ", target_='no_such_node'", None
    ctx.observe("target_" + target)
    ctx.observe("custom")
    text = src + f"@check_output_custom({listed}{tgt})\n" + dec + body
    out1 = rng.choice([n for n in inner if n != f] or [f]) if shape == "fields" else rng.choice(sorted(inner))
    ty = "dict" if shape == "fields" and out1 == f else "int"
    text += f"def {dep1}({out1}: {ty}) -> int:\n    return _H({dep1!r}, 2, 'int', {{{out1!r}: {out1}}})\n"
    plain[dep1] = Ref([out1], lambda kw: vrt.value(dep1, 2, "int", kw), [dep1])
    det = dict(source=text, mode=mode, validators=[(v.ident, v.nm, v.importance, v.mod, v.bad, v.raises) for v in vals])
    mod = load_module(IMP + text)
    if target == "bad":
        try:
            refg.build(mode, [mod], {"m": 1})
            ok = False
        except Exception as e:       # noqa: BLE001
            ok = "no_such_node" in str(e)
        ctx.require(ok and not vrt.calls(), "bad-target-accepted", "a target that does not exist was accepted", **det)
        unload(mod)
        ctx.sig("bad", shape, mode)
        return
    dr = refg.build(mode, [mod], {"m": 1})
    ctx.observe("drivers")
    ctx.observe("mode_" + mode)
    # reference: which nodes exist and what they compute
    refs = dict(plain)
    vnodes = {}
    for n, r in inner.items():
        if n not in sel:
            refs[n] = r
            continue
        raw = n + "_raw"
        refs[raw] = Ref(r.deps, r.fn, r.calls)
        seen = {}
        for v in vals:
            k = seen.get(v.nm, 0)
            seen[v.nm] = k + 1
            vn = f"{n}_{v.nm}" + (f"_{k}" if k else "")
            if k:
                ctx.observe("same_name_validators")
            vnodes[vn] = (v, n)
            refs[vn] = Ref([raw], lambda kw, v=v, raw=raw: v.rule(kw[raw]), [], doc=f"describes {v.ident}",
                           tags={DQ: True, SRC: n})
        refs[n] = Ref([raw] + [x for x in vnodes if vnodes[x][1] == n], None, doc=r.doc)

        def final(kw, n=n, raw=raw):
            failing = [vn for vn in vnodes if vnodes[vn][1] == n and not kw[vn] and vnodes[vn][0].importance == "fail"]
            if failing:
                raise refg.RefError("dq", n)
            return kw[raw]
        refs[n].fn = final
    got = {v.name: v for v in dr.list_available_variables() if not v.is_external_input}
    ctx.require(set(refs) <= set(got), "missing-nodes", lambda: f"no {sorted(set(refs) - set(got))} in {sorted(got)}", **det)
    checks = {n for n, v in got.items() if v.tags.get(DQ) is True}
    ctx.require(checks == set(vnodes), "wrong-validators", lambda: f"validators {sorted(checks)} expected {sorted(vnodes)}", **det)
    for vn, (v, n) in vnodes.items():
        ctx.require(got[vn].tags.get(SRC) == n and got[vn].documentation == f"describes {v.ident}", "wrong-validator",
                    lambda: f"{vn}: {got[vn].tags} {got[vn].documentation}", **det)
    for n in sel:
        ctx.require(DQ not in got[n].tags and DQ not in got[n + "_raw"].tags, "data-tagged-as-validator", lambda: f"{n}: {got[n].tags}", **det)

    pick = ["all", "dep", "raw", "validator", "over_raw", "over_final"]
    for what in rng.sample(pick, 3):
        inputs = {"x": rng.randrange(50), "y": rng.randrange(50)}
        over = {}
        if what == "all":
            final = sorted(set(inner) | {dep1})
        elif what == "dep":
            final = [dep1]
        elif what == "raw":
            final = [rng.choice(sel) + "_raw"]
        elif what == "validator":
            final = [rng.choice(sorted(vnodes))]
        else:
            n = rng.choice(sel)
            ov = {a: 11, b: 12, "other": 0} if shape == "fields" and n == f else rng.randrange(100)
            over = {n + ("_raw" if what == "over_raw" else ""): ov}
            final = sorted({n, dep1} - set(over)) or [n]
        judge(ctx, rng, mode, dr, refs, vnodes, inner, sel, final, inputs, over, what, det)
    ctx.sig(shape, target, mode, is_async, tuple((v.nm, v.importance, v.mod, v.bad) for v in vals), out1)
    ctx.sample(dict(source=text))
    unload(mod)


def judge(ctx, rng, mode, dr, refs, vnodes, inner, sel, final, inputs, over, what, det):
    # expected evaluation, tolerant of several nodes failing: walk everything needed
    memo, val_calls, warns, dq_fail, raised = {}, [], [], {}, []

    def need(n):
        if n in memo:
            return memo[n]
        if n in over:
            memo[n] = ("ok", over[n])
        elif n not in refs:
            memo[n] = ("ok", inputs[n])
        else:
            kw, dead = {}, False
            for d in refs[n].deps:
                s, v = need(d)
                dead |= s != "ok"
                kw[d] = v
            if dead:
                memo[n] = ("dead", None)
            elif n in vnodes:
                v = vnodes[n][0]
                raw = kw[vnodes[n][1] + "_raw"]
                val_calls.append((v.ident, raw))
                if v.raises:
                    raised.append(n)
                    memo[n] = ("dead", None)
                else:
                    memo[n] = ("ok", v.rule(raw))
            elif n in sel:
                failing = [x for x in refs[n].deps if x in vnodes and not kw[x]]
                warns.extend((n, vnodes[x][0]) for x in failing if vnodes[x][0].importance == "warn")
                hard = [vnodes[x][0] for x in failing if vnodes[x][0].importance == "fail"]
                if hard:
                    dq_fail[n] = hard
                    memo[n] = ("dead", None)
                else:
                    memo[n] = ("ok", kw[n + "_raw"])
            else:
                memo[n] = ("ok", refs[n].fn(kw))
        return memo[n]
    exp = {n: need(n) for n in final}
    calls = [c for n, s in memo.items() if s[0] == "ok" and n not in over and n in refs for c in refs[n].calls]
    if raised:
        ctx.observe("raising_validator")
    for k in ("raw", "validator"):
        if what == k:
            ctx.observe(k + "_requested")
    if what.startswith("over_"):
        ctx.observe("overridden_" + what[5:])
    vrt.EVENTS.clear()
    CAP.records.clear()
    try:
        got, err = refg.run(mode, dr, final, inputs, over), None
    except Exception as e:      # noqa: BLE001
        got, err = None, e
    seen = [(e[1], e[2]) for e in vrt.EVENTS if e[0] == "validate"]
    det = dict(det, final=final, inputs=inputs, overrides=over)
    if dq_fail or raised:
        ctx.observe("failed")
        if any(len(v) > 1 for v in dq_fail.values()):
            ctx.observe("several_failures")
        ctx.require(err is not None, "failure-missed", lambda: f"{dq_fail or raised} must fail; got {got}", **det)
        if isinstance(err, dq.DataValidationError):
            msg = str(err)
            hit = [n for n in dq_fail if f"[{n}:" in msg]
            ctx.require(len(hit) == 1 and not raised or bool(hit), "wrong-failure", lambda: f"{err} but failing nodes are {dq_fail}", **det)
            for n in hit[:1]:
                want = {v.ident for v in dq_fail[n]}
                named = {v.ident for v in {x[0] for x in vnodes.values()} if f"<{v.ident}>" in msg}
                ctx.require(named == want, "wrong-failures-listed", lambda: f"{err} should list exactly {want}", **det)
        else:
            ctx.require(bool(raised) and isinstance(err, vrt.VErr), "wrong-error", lambda: f"{err!r} expected {dq_fail or raised}", **det)
        ran = vrt.calls()
        ctx.require(all(ran.count(c) <= calls.count(c) for c in set(ran)), "dependent-ran", lambda: f"ran {ran}, may run {calls}", **det)
        ctx.require(all(seen.count(x) <= val_calls.count(x) for x in seen), "wrong-validations", lambda: f"{seen} expected among {val_calls}", **det)
        ctx.observe("dependents_blocked")
        return
    ctx.observe("passed")
    ctx.require(err is None, "false-failure", lambda: f"nothing fails but got {err!r}", **det)
    if err is not None:
        return
    for n in final:
        v = exp[n][1]
        g = got[n]
        if n in vnodes:
            ctx.require(bool(g.passes) == v, "wrong-verdict", lambda: f"{n}: {g} expected {v}", **det)
        else:
            ctx.require(same(g, v), "wrong-value", lambda: f"{n}: {g} expected {v}", **det)
    key = lambda l: sorted(map(repr, l))        # noqa: E731
    ctx.require(key(seen) == key(val_calls), "wrong-validations", lambda: f"validated {key(seen)} expected {key(val_calls)}", **det)
    ctx.require(sorted(vrt.calls()) == sorted(calls), "wrong-calls", lambda: f"{sorted(vrt.calls())} expected {sorted(calls)}", **det)
    logs = [m for lv, m in CAP.records if lv == logging.WARNING and "validator failed" in m]
    want = sorted(f"[{n}:{v.nm}]<{v.ident}>" for n, v in warns)
    found = sorted(w for w in (f"[{n}:{v.nm}]<{v.ident}>" for v, n in vnodes.values()) for m in logs if w.split("<")[0] in m and "<" + w.split("<")[1] in m)
    ctx.require(found == want, "wrong-warnings", lambda: f"{logs} expected {want}", **det)
    if warns:
        ctx.observe("warned")


# ------------------------------------------------------------------ pandera, and what must be refused
@check.family("pandera", 500, 3000)
def fam_pandera(ctx):
    rng = ctx.rng
    vrt.reset()
    n = rng.choice([0, 1, 3, 5])
    data = {c: [rng.randrange(10) for _ in range(n)] for c in "ab"}
    lo, hi = rng.choice([(0, 9), (0, 5), (3, 9)])
    frame = rng.random() < .6
    ok_type = n == 0 or rng.random() < .8
    t = int if ok_type else str
    if frame:
        value = pd.DataFrame(data, dtype="int64")
        schema = pa.DataFrameSchema({"a": pa.Column(t, pa.Check.in_range(lo, hi)), "b": pa.Column(int)})
    else:
        value = pd.Series(data["a"], dtype="int64")
        schema = pa.SeriesSchema(t, pa.Check.in_range(lo, hi))
    ok = ok_type and all(lo <= v <= hi for v in data["a"])
    rt.VALUE, rt.SCHEMA = value, schema
    before = value.copy(deep=True)
    importance = rng.choice(["warn", "fail"])
    mode = rng.choice(refg.MODES)
    src = (f"@check_output(schema=_q.SCHEMA, importance={importance!r})\n"
           f"def made(x: int) -> {'pd.DataFrame' if frame else 'pd.Series'}:\n    _vrt.log('call', 'made')\n    return _q.VALUE\n")
    mod = load_module(IMP + src)
    dr = refg.build(mode, [mod])
    CAP.records.clear()
    det = dict(source=src, value=short(value), lo=lo, hi=hi, ok_type=ok_type)
    ctx.observe("pandera")
    try:
        got, err = refg.run(mode, dr, ["made"], {"x": 1}), None
    except dq.DataValidationError as e:
        got, err = None, e
    ctx.require((err is None) == (ok or importance == "warn"), "wrong-pandera-verdict", lambda: f"ok={ok} {importance}: {err!r}", **det)
    if err is None:
        ctx.require(got["made"] is value and value.equals(before), "value-replaced", "the validated frame is not what the function returned", **det)
        warned = sum("made:" in m for lv, m in CAP.records if lv == logging.WARNING)
        ctx.require(warned == (not ok), "wrong-warnings", lambda: f"{warned} warnings, ok={ok}", **det)
    ctx.require(vrt.calls() == ["made"], "wrong-calls", lambda: f"{vrt.calls()}", **det)
    ctx.sig(frame, ok, importance, mode, n, lo, hi)
    unload(mod)


@check.family("models", 500, 3000)
def fam_models(ctx):
    """Pydantic models (given or declared; strict, so nothing is coerced) and declared pandera frames."""
    rng = ctx.rng
    vrt.reset()
    importance = rng.choice(["warn", "fail"])
    mode = rng.choice(refg.MODES)
    if rng.random() < .3:
        n = rng.choice([0, 1, 3])
        a = [rng.choice([0, 2, 3, 8, 9]) if rng.random() < .3 else rng.randrange(2, 9) for _ in range(n)]
        value = pd.DataFrame({"a": pd.Series(a, dtype="int64"), "b": pd.Series([rng.choice([.5, None]) for _ in a], dtype="float64")})
        ok = all(2 <= x <= 8 for x in a)
        if rng.random() < .2:
            value, ok = value.drop(columns=["b"]), False
        before = value.copy(deep=True)
        dec, ann = f"_q.h_pandera.check_output(importance={importance!r})", "_pt.DataFrame[_q.Frame]"
        kind = "pandera_typed"
    else:
        narrow = rng.random() < .4
        cls = rt.Narrow if narrow else rt.Model
        d, ok = {}, True

        def put(k, good, bad, need=False):
            nonlocal ok
            r = rng.random()
            if r < .12:
                d[k] = rng.choice(bad)
                ok = False
            elif r < .24:
                ok = ok and not need
            else:
                d[k] = rng.choice(good)
        put("a", [3, 5, 7] + ([] if narrow else [0, -4, 10**12]), ["3", 3.0, True, None] + ([2, 8] if narrow else []), True)
        put("b", [1.5, 2, -0.0, float("inf")], ["1.5", False, None], True)
        put("c", ["", "x"], [3, None, b"x"])
        put("n", [None, {"x": 1}, rt.Inner(x=2)], [{"x": "1"}, {}, 5])
        put("xs", [[], [1, 2]], [(1, 2), [1, "2"], {1}])
        if rng.random() < .2:
            d["extra"] = 1
        value = d
        inst = ok and rng.random() < .4
        if inst:
            value = cls(**d)
            ctx.observe("pydantic_instances")
        declared = rng.random() < .5
        dec = (f"_q.h_pydantic.check_output(importance={importance!r})" if declared else
               f"check_output(model=_q.{cls.__name__}, importance={importance!r})")
        ann = f"_q.{cls.__name__}" if declared or inst else "dict"
        if not declared and inst and not narrow and rng.random() < .3:
            # an instance of a class that is not the model's
            dec, ok = f"check_output(model=_q.Narrow, importance={importance!r})", False
        before = repr(value)
        kind = "pydantic"
    rt.VALUE = value
    src = (f"import pandera.typing as _pt\n@{dec}\ndef made(x: int) -> {ann}:\n    _vrt.log('call', 'made')\n    return _q.VALUE\n"
           f"def user(made: {ann}) -> int:\n    _vrt.log('call', 'user')\n    return 1\n")
    mod = load_module(IMP + src)
    dr = refg.build(mode, [mod])
    CAP.records.clear()
    det = dict(source=src, value=short(value), ok=ok)
    ctx.observe(kind)
    try:
        got, err = refg.run(mode, dr, ["made", "user"], {"x": 1}), None
    except dq.DataValidationError as e:
        got, err = None, e
    ctx.require((err is None) == (ok or importance == "warn"), "wrong-model-verdict", lambda: f"ok={ok} {importance}: {err!r}", **det)
    if err is None:
        kept = value.equals(before) if kind == "pandera_typed" else repr(value) == before
        ctx.require(got["made"] is value and kept, "value-replaced", "the validated value is not what the function returned", **det)
        warned = sum("made:" in m for lv, m in CAP.records if lv == logging.WARNING)
        ctx.require(warned == (not ok), "wrong-warnings", lambda: f"{warned} warnings, ok={ok}", **det)
    ctx.require(vrt.calls() == ["made"] + (["user"] if err is None else []), "wrong-calls", lambda: f"{vrt.calls()}", **det)
    ctx.sig(kind, ok, importance, mode, dec[:20], ann)
    unload(mod)


@check.family("refused", 300, 1000)
def fam_refused(ctx):
    """An argument no validator supports for the type, or a nonsensical one, is refused when the driver is built."""
    rng = ctx.rng
    vrt.reset()
    ty, arg = rng.choice([("str", "range=(0, 1)"), ("pd.Series", "contains='a'"), ("dict", "values_in=[1]"), ("list", "data_type=list"), ("int", "max_standard_dev=1"),
                          ("pd.DataFrame", "mean_in_range=(0, 1)"), ("int", "no_such=1"), ("pd.Series", "max_fraction_nans=1.5"), ("pd.Series", "max_fraction_nans=-.1"),
                          ("pd.Series", "allow_nans=True"), ("int", "contains='a'"), ("float", "range=(0, 1), importance='fatal'")])
    src = f"@check_output({arg})\ndef made(x: int) -> {ty}:\n    _vrt.log('call', 'made')\n    return None\n"
    mode = rng.choice(["v1", "v2", "async"])
    err = None
    mod = None
    try:
        mod = load_module(IMP + src)
        refg.build(mode, [mod])
    except Exception as e:      # noqa: BLE001
        err = e
    ctx.observe("unsupported")
    ctx.require(isinstance(err, ValueError) and not vrt.calls(), "unsupported-accepted", f"{arg} on {ty}: {err!r}", source=src)
    ctx.sig(ty, arg, mode)
    if mod is not None:
        unload(mod)


@check.family("parallel", 400, 3000)
def fam_parallel(ctx):
    """Checked functions that expand, work on the items of, or collect a parallel block."""
    rng = ctx.rng
    vrt.reset()
    n = rng.choice([0, 1, 2, 3, 7])
    salt = rng.randrange(100)
    where = rng.sample(["its", "wk", "tot"], rng.choice([1, 1, 2]))
    items = [salt + i for i in range(n)]
    work = [3 * x for x in items]
    values = dict(its=[items], wk=work, tot=[sum(work)])
    level = {w: rng.choice(["warn", "fail"]) for w in where}
    bad = {w: rng.choice([None, None, rng.choice(values[w])]) if values[w] else None for w in where}
    rt.VALIDATORS[:] = [rt.Custom(w, "alpha", level[w], (lambda v, w=w: v != bad[w] or bad[w] is None)) for w in where]

    def dec(w):
        return f"@check_output_custom(_q.VALIDATORS[{where.index(w)}])\n" if w in where else ""
    src = ("from hamilton.htypes import Parallelizable, Collect\n"
           f"{dec('its')}def its(n: int) -> Parallelizable[int]:\n    _vrt.log('call', 'its')\n    return [{salt} + i for i in range(n)]\n"
           f"{dec('wk')}def wk(its: int) -> int:\n    _vrt.log('call', 'wk')\n    return 3 * its\n"
           f"{dec('tot')}def tot(wk: Collect[int]) -> int:\n    _vrt.log('call', 'tot')\n    return sum(wk)\n"
           "def fin(tot: int) -> list:\n    _vrt.log('call', 'fin')\n    return [tot]\n")
    mod = load_module(IMP + src)
    from hamilton import driver
    from hamilton.execution import executors
    ex = rng.choice([executors.SynchronousLocalTaskExecutor, lambda: executors.MultiThreadingExecutor(max_tasks=3)])()
    dr = driver.Builder().with_modules(mod).enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(ex).build()
    CAP.records.clear()
    got = err = None
    try:
        got = dr.execute(["fin"], inputs=dict(n=n))
    except Exception as e:      # noqa: BLE001
        err = e
    ctx.observe("parallel_" + "_".join(sorted(where)))
    seen = {w: [e[2] for e in vrt.EVENTS if e[0] == "validate" and e[1] == w] for w in where}
    det = dict(source=src, n=n, levels=level, bad=bad, got=short(got), error=repr(err), validated=seen, calls=vrt.calls())
    fatal = [w for w in where if level[w] == "fail" and bad[w] is not None]
    if fatal:
        ctx.observe("failed")
        ctx.require(isinstance(err, dq.DataValidationError) and any(f"<{w}>" in str(err) for w in fatal), "wrong-error", f"{err!r}", **det)
        first = min(["its", "wk", "tot"].index(w) for w in fatal)
        after = [["wk", "tot", "fin"], ["tot", "fin"], ["fin"]][first]
        ctx.require(not set(after) & set(vrt.calls()), "dependents-ran", f"{vrt.calls()}", **det)
    else:
        if err is not None:
            raise err
        ctx.observe("passed")
        ctx.require(got == dict(fin=[sum(work)]), "value-changed", f"{got} expected {[sum(work)]}", **det)
        for w in where:
            ctx.require(sorted(map(repr, seen[w])) == sorted(map(repr, values[w])), "validated-values", f"{w}: {seen[w]} expected {values[w]}", **det)
            warned = [m for lv, m in CAP.records if lv == logging.WARNING and f"<{w}>" in m]
            ctx.require(len(warned) == (0 if bad[w] is None else values[w].count(bad[w])), "warnings", f"{w}: {len(warned)} warnings", **det)
    ctx.sig("par", tuple(where), n, tuple(sorted(level.items())), tuple((w, bad[w] is None) for w in where))
    unload(mod)


if __name__ == "__main__":
    check.main()
