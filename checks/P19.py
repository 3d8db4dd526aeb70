"""P19: code versions follow the code, and `hamilton diff/version/validate` report exactly what changed."""
import importlib.util
import inspect
import json
import linecache
import os
import re
import subprocess
import sys
from pathlib import Path

import vf

check = vf.Check(
    "P19",
    rule="random module sources (defaults, keyword-only parameters, nested functions, async, decorators producing several nodes, config.when variants) x cosmetic rewrites (comments, docstrings, blank "
         "lines, form feeds, quoting, line breaks, function order) and behavioural edits (constants, operators, defaults, annotations, decorator arguments, statements, parameters); git histories of "
         "several modules diffed against several references; module forms (file, module_from_source, create_module, create_temporary_module); context files. Distinct = source x edit",
    required=["cosmetic", "semantic", "edit:const", "edit:default", "edit:op", "edit:annotation", "edit:decorator", "edit:stmt", "edit:param", "edit:swap", "edit:string", "edit:nested", "edit:consttype",
              "formfeed", "node_added", "node_removed", "git_diffs", "diff_current_only", "diff_reference_only", "diff_edit", "diff_same", "new_file", "bad_reference", "diff_colours", "diff_config", "diff_turned_input", "does_nodes", "forms", "form:temporary",
              "form:source", "form:created", "contexts", "validate_ok", "validate_refused", "other_process", "cli_runs", "async", "kwonly"],
)

HEAD = "import typing\nfrom hamilton.function_modifiers import *\ndef _gather(**kw):\n    return sorted(kw.items(), key=str)\n"


@check.setup
def setup_env():
    from hamilton import ad_hoc_utils, driver, graph_types
    from hamilton.cli import commands, logic
    globals().update(ah=ad_hoc_utils, driver=driver, graph_types=graph_types, commands=commands, logic=logic)


def unload(*mods):
    for m in mods:
        sys.modules.pop(m.__name__, None)
        linecache.cache.pop(getattr(m, "__file__", m.__name__), None)


# ---------------------------------------------------------------- source model
STRS = ["a", "b#c", "it's", 'q"q', "x\\n", "", "é", "# not a comment", "doc", "a\tb", "p \n   q  \n", "    "]


class Fn:
    """A function as data; render() writes it down in some style."""

    def __init__(self, rng, name, deps, kind="plain"):
        self.name, self.kind = name, kind
        self.params = [[d, None, False] for d in deps]
        if rng.random() < 0.4:
            self.params.append([f"{name}_opt", rng.choice(["3", "'d'", "None", "1.5", "True", "-1"]), rng.random() < 0.5])
        self.ret = "dict" if kind == "fields" else "typing.Any"
        self.ann = {p[0]: "typing.Any" for p in self.params}
        self.consts = [rng.randrange(100) for _ in range(2)]
        self.op = rng.choice(["+", "-", "*"])
        self.text = rng.choice(STRS)
        self.nested = rng.random() < 0.3
        self.nconst = rng.randrange(50)
        self.stmts = [f"v{i} = {rng.randrange(100)}" for i in range(rng.choice([0, 1, 2, 3]))]
        self.tag = rng.choice([None, "x", "y"])
        self.more = [rng.choice("xyz") for _ in range(rng.choice([0, 0, 0, 1, 3]))]
        if kind == "does":
            self.nested, self.stmts = False, []
        self.doc = rng.choice([None, "Doc of it.", "Two\n    lines."])
        self.variant = None
        self.is_async = False

    def nodes(self, config=None):
        if self.kind in ("plain", "does"):
            return {self.name}
        if self.kind == "fields":
            return {self.name, self.name + "_f1", self.name + "_f2"}
        if self.kind == "param":
            return {self.name + "_p1", self.name + "_p2"}
        if self.kind == "when":
            return {self.name} if (config or {}).get("mode") == self.variant else set()

    def inputs(self):
        return [p[0] for p in self.params]

    def copy(self):
        f = object.__new__(Fn)
        f.__dict__ = {k: (list(map(list, v)) if k == "params" else (dict(v) if isinstance(v, dict) else (list(v) if isinstance(v, list) else v))) for k, v in self.__dict__.items()}
        return f


def render(fn, r):
    """Source of fn; r(*alternatives) picks among equivalent spellings."""
    decs = []
    if fn.tag:
        decs.append(r(f"@tag(team={fn.tag!r})", f'@tag(team="{fn.tag}")', f"@tag(\n    team={fn.tag!r},  # who\n)"))
    for i, t in enumerate(fn.more):
        decs.append(r(f"@tag(k{i}={t!r})", f'@tag( k{i}="{t}")'))
    if fn.kind == "does":
        decs.append("@does(_gather)")
    if fn.kind == "fields":
        decs.append(f"@extract_fields(dict({fn.name}_f1=int, {fn.name}_f2=str))")
    if fn.kind == "param":
        decs.append(f"@parameterize({fn.name}_p1=dict(k=value({fn.consts[1]})), {fn.name}_p2=dict(k=value(2)))")
    if fn.kind == "when":
        decs.append(f"@config.when(mode={fn.variant!r})")
    pos = [p for p in fn.params if not p[2]]
    pos = [p for p in pos if p[1] is None] + [p for p in pos if p[1] is not None]
    kw = [p for p in fn.params if p[2]]
    if fn.kind == "param":
        pos = [["k", None, False]] + pos
    ps = []
    for p in pos + ([["*", None, None]] if kw else []) + kw:
        ps.append("*" if p[0] == "*" else f"{p[0]}: {fn.ann.get(p[0], 'int')}" + (f" = {p[1]}" if p[1] is not None else ""))
    sep = r(", ", ",\n        ", " , ")
    name = fn.name + (f"__{fn.variant}" if fn.kind == "when" else "")
    out = "".join(d + "\n" + r("", "# between decorators\n") for d in decs)
    out += ("async " if fn.is_async else "") + f"def {name}({r('', ' ')}{sep.join(ps)}{r('', ',') if ps and not kw else ''}) -> {fn.ret}:{r('', '  # trailing')}\n"
    doc = r(fn.doc, None, "Other words.", "It has 'quotes' and # hashes.")
    if fn.kind == "does" and doc is None:
        doc = "Words."
    if doc is not None:
        q = r('"""', "'''")
        out += f"    {r('', 'r')}{q}{doc}{q}\n"
    if fn.kind == "does":
        return out
    note = lambda: r("", "    # a remark\n", "\n\n", "  # oddly indented remark\n")
    out += note()
    for s in fn.stmts:
        out += f"    {s}{r('', '  # why', ' ;')}\n" + note()
    if fn.nested:
        out += "    def inner(z):\n" + r("", "        '''inner words'''\n", '        """others"""\n') + f"        return z {fn.op} {fn.nconst}\n" + note()
    text = r(repr(fn.text), json.dumps(fn.text, ensure_ascii=False), f'"""{fn.text}"""' if "\t" in fn.text or "\n" in fn.text else repr(fn.text))
    args = ", ".join(p[0] for p in fn.params) + (", k" if fn.kind == "param" else "")
    inner = f"inner({fn.consts[0]})" if fn.nested else str(fn.consts[0])
    expr = f"[{text}, {inner} {fn.op} {fn.consts[1]}, [{args.strip(', ')}], [{', '.join(s.split()[0] for s in fn.stmts)}]]"
    if fn.kind == "fields":
        expr = f"dict({fn.name}_f1={fn.consts[1]}, {fn.name}_f2={text}, rest={expr})"
    out += r(f"    return {expr}\n", f"    return ({expr})\n", f"    return (\n        {expr}\n    )\n", f"    return {expr}  # done\n")
    return out


CANON = lambda *a: a[0]


def module_source(fns, r=CANON, order=None, rng=None, head=True):
    fns = list(fns)
    if order:
        order(fns)
    parts = [HEAD if head else ""]
    for f in fns:
        parts.append(r("\n", "\n\n\n# section\n", "\n\x0c\n", "\n'''stray module string'''\n") + render(f, r))
    return "".join(parts)


def gen_fns(rng, n, with_async=False):
    fns = []
    avail = ["in_a", "in_b"]
    for i in range(n):
        kind = rng.choice(["plain"] * 5 + ["fields", "param", "when", "does"])
        name = f"n{i}"
        deps = rng.sample(avail, min(len(avail), rng.choice([0, 1, 1, 2])))
        if kind == "when":
            vs = []
            for v in ("v1", "v2"):
                f = Fn(rng, name, deps, kind)
                f.variant = v
                vs.append(f)
            fns += vs
            avail.append(name)
            continue
        f = Fn(rng, name, deps, kind)
        if with_async and kind == "plain" and rng.random() < 0.3:
            f.is_async = True
        fns.append(f)
        avail += sorted(f.nodes())
    return fns


def edit(rng, fn):
    """A behavioural edit of fn in place; returns its label."""
    while True:
        k = rng.choice(["const", "default", "op", "annotation", "decorator", "stmt", "param", "swap", "string", "nested", "consttype", "body2", "kwonly", "async"])
        if fn.kind == "does" and k not in ("default", "annotation", "decorator", "param"):
            continue
        if k == "const":
            i = rng.randrange(2)
            fn.consts[i] += 1
        elif k == "default":
            ps = [p for p in fn.params if p[1] is not None]
            if not ps:
                continue
            p = rng.choice(ps)
            p[1] = rng.choice([d for d in ["4", "'e'", "None", "2.5", "False", "-1", "3.0"] if d != p[1]])
        elif k == "op":
            fn.op = rng.choice([o for o in "+-*" if o != fn.op])
        elif k == "annotation":
            if rng.random() < 0.5 or not fn.params:
                if fn.kind == "fields":
                    continue
                fn.ret = "object" if fn.ret != "object" else "typing.Any"
            else:
                p = rng.choice(fn.params)[0]
                fn.ann[p] = "object" if fn.ann[p] != "object" else "typing.Any"
        elif k == "decorator":
            if fn.kind == "param" and rng.random() < 0.5:
                fn.consts[1] += 7
            elif fn.more and rng.random() < 0.5:
                i = rng.randrange(len(fn.more))
                fn.more[i] = rng.choice([t for t in "xyzw" if t != fn.more[i]])
            else:
                fn.tag = rng.choice([t for t in (None, "x", "y", "z z") if t != fn.tag])
        elif k == "stmt":
            if fn.stmts and rng.random() < 0.4:
                fn.stmts.pop(rng.randrange(len(fn.stmts)))
            else:
                fn.stmts.insert(rng.randrange(len(fn.stmts) + 1), f"w{rng.randrange(1000)} = {rng.randrange(9)}")
        elif k == "param":
            if fn.kind == "when" or f"{fn.name}_new" in fn.ann:
                continue
            fn.params.append([f"{fn.name}_new", "7", False])
            fn.ann[f"{fn.name}_new"] = "int"
        elif k == "swap":
            if len(set(fn.stmts)) < 2:
                continue
            i, j = 0, len(fn.stmts) - 1
            fn.stmts[i], fn.stmts[j] = fn.stmts[j], fn.stmts[i]
        elif k == "string":
            fn.text = rng.choice([s for s in STRS if s != fn.text])
        elif k == "nested":
            if fn.nested:
                fn.nconst += 1
            else:
                fn.nested = True
        elif k == "consttype":
            fn.stmts.append("t = 1")
            return "consttype"
        elif k == "kwonly":
            ps = [p for p in fn.params if p[1] is not None]
            if not ps:
                continue
            p = rng.choice(ps)
            p[2] = not p[2]
        else:
            continue
        return k


def build(srcs, config=None, loader=None):
    mods = [(loader or ah.module_from_source)(s) for s in srcs]
    dr = driver.Builder().with_modules(*mods).with_config(dict(config or {})).build()
    return dr, mods


def versions(ctx, dr):
    vs = {v.name: v.version for v in dr.list_available_variables()}
    rep = commands.version(dr)
    ctx.require(rep["nodes_hash"] == vs, "version-report", "`hamilton version` reports other node versions than the driver's variables", report=rep["nodes_hash"], driver=vs)
    return vs, graph_types.HamiltonGraph.from_graph(dr.graph).version, rep["dataflow_hash"]


def picker(rng):
    return lambda *a: a[rng.randrange(len(a))]


def externals(dr):
    return {v.name for v in dr.list_available_variables() if v.is_external_input}


@check.family("versions", 700, 14000)
def versions_case(ctx):
    rng = ctx.rng
    fns = gen_fns(rng, rng.choice([1, 2, 4, 7]))
    if any(p[2] for f in fns for p in f.params):
        ctx.observe("kwonly")
    if any(f.kind == "does" for f in fns):
        ctx.observe("does_nodes")
    config = {"mode": rng.choice(["v1", "v2"])} if any(f.kind == "when" for f in fns) else {}
    src = module_source(fns)
    made = []
    try:
        dr, mods = build([src], config)
        made += mods
        v0, g0, h0 = versions(ctx, dr)
        ctx.sig(src)
        ext = externals(dr)
        for n, v in v0.items():
            ctx.require(isinstance(v, str) and v, "version-missing", f"variable {n} has no version", source=src)
        # the source a variable reports is the source of its function
        for var in dr.list_available_variables():
            if var.name in ext:
                continue
            f = next(f for f in fns if var.name in f.nodes(config))
            nm = f.name + (f"__{f.variant}" if f.kind == "when" else "")
            text = inspect.getsource(var.originating_functions[0])
            ctx.require(f"def {nm}(" in text, "version-source", f"variable {var.name} of function {nm} reports another function's source", source=src, reported=text)
        # functions with different code have different versions
        byv = {}
        for n, v in v0.items():
            if n not in ext:
                byv.setdefault(v, set()).add(next(f.name + str(f.variant) for f in fns if n in f.nodes(config)))
        for v, names in byv.items():
            ctx.require(len(names) == 1, "version-collision", f"functions {sorted(names)} differ but share a version", source=src)
        # cosmetic rewrites
        for _ in range(2):
            src2 = module_source(fns, picker(rng), order=rng.shuffle)
            if rng.random() < 0.2:
                src2 = src2.replace("\n", "\r\n") if "\\n" not in src2 else src2
            dr2, mods = build([src2], config)
            made += mods
            v2, g2, h2 = versions(ctx, dr2)
            ctx.observe("cosmetic")
            if "\x0c" in src2:
                ctx.observe("formfeed")
            bad = {n for n in v0 if v0[n] != v2.get(n)} | (set(v2) - set(v0))
            ctx.require(not bad, "version-cosmetic", f"a rewrite without behavioural change altered the version of {sorted(bad)}", before=src, after=src2)
            ctx.require(g0 == g2 and h0 == h2, "version-cosmetic-dataflow", "a rewrite without behavioural change altered the dataflow's version", before=src, after=src2)
        # behavioural edits
        cur = [f.copy() for f in fns]
        for _ in range(3):
            tgt = rng.choice(cur)
            before = tgt.copy()
            label = edit(rng, tgt)
            r = picker(rng) if rng.random() < 0.5 else CANON
            if label == "consttype":
                tgt.stmts[-1] = "t = 1"
                a = module_source(cur, CANON)
                tgt.stmts[-1] = rng.choice(["t = 1.0", "t = True", "t = '1'", "t = b'1'", "t = 1j"])
                b = module_source(cur, r)
            else:
                after = tgt.copy()
                tgt.__dict__.update(before.__dict__)
                a = module_source(cur, CANON)
                tgt.__dict__.update(after.__dict__)
                b = module_source(cur, r)
            dra, ma = build([a], config)
            drb, mb = build([b], config)
            made += ma + mb
            va, ga, ha = versions(ctx, dra)
            vb, gb, hb = versions(ctx, drb)
            touched = tgt.nodes(config)
            ext = externals(dra) | externals(drb)
            ctx.observe("semantic")
            ctx.observe("edit:" + label)
            for n in set(va) & set(vb) - ext:
                if n in touched:
                    ctx.require(va[n] != vb[n], "version-edit-missed", f"edit `{label}` of {tgt.name} left the version of {n} unchanged", before=a, after=b)
                else:
                    ctx.require(va[n] == vb[n], "version-edit-spread", f"edit `{label}` of {tgt.name} changed the version of {n}", before=a, after=b)
            if touched:
                ctx.require(ga != gb and ha != hb, "version-dataflow-missed", f"edit `{label}` of {tgt.name} left the dataflow's version unchanged", before=a, after=b)
            else:
                ctx.require(ga == gb and ha == hb, "version-dataflow-spread", f"edit of an inactive variant changed the dataflow's version", before=a, after=b)
        # additions / removals
        extra = Fn(rng, "zz_extra", [])
        drc, mc = build([module_source(fns + [extra])], config)
        made += mc
        vc, gc, hc = versions(ctx, drc)
        ctx.require(gc != g0 and hc != h0, "version-dataflow-added", "adding a function left the dataflow's version unchanged", before=src)
        ctx.require(all(vc.get(n) == v for n, v in v0.items()), "version-added-spread", "adding a function changed other versions", before=src)
        ctx.observe("node_added")
    finally:
        unload(*made)


@check.family("forms", 300, 5000)
def forms(ctx):
    """However the functions are handed over, the dataflow, its results and its versions are the same."""
    rng = ctx.rng
    fns = gen_fns(rng, rng.choice([1, 3, 5]))
    config = {"mode": rng.choice(["v1", "v2"])} if any(f.kind == "when" for f in fns) else {}
    src = module_source(fns, picker(rng))
    d = ctx.tmpdir()
    path = os.path.join(d, f"vfm_{os.getpid()}_{ctx.idx}.py")
    open(path, "w", encoding="utf-8", newline="").write(src)
    name = os.path.basename(path)[:-3]
    spec = importlib.util.spec_from_file_location(name, path)
    file_mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = file_mod
    spec.loader.exec_module(file_mod)
    made = [file_mod]
    try:
        forms = {"source": ah.module_from_source(src), "created": ah.create_module(src, f"vfc_{os.getpid()}_{ctx.idx}_{ctx.seed}"),
                 "temporary": ah.create_temporary_module(*[o for n, o in vars(file_mod).items() if inspect.isfunction(o) and o.__module__ == name and not n.startswith("_")])}
        if rng.random() < 0.3:
            forms["named"] = ah.module_from_source(src, f"vfs_{os.getpid()}_{ctx.idx}_{ctx.seed}")
        made += list(forms.values())
        inputs = {"in_a": rng.randrange(9), "in_b": rng.choice(["s", [1]])}
        ref = None
        for label, m in [("file", file_mod)] + list(forms.items()):
            dr = driver.Builder().with_modules(m).with_config(config).build()
            vs = {v.name: v for v in dr.list_available_variables()}
            nodes = sorted(n for n in vs if not vs[n].is_external_input)
            res = dr.execute(nodes, inputs={k: v for k, v in inputs.items() if k in vs})
            desc = {n: (str(v.type), sorted(v.required_dependencies), sorted(v.optional_dependencies), v.version, v.is_external_input, repr(v.tags.get("team"))) for n, v in vs.items()}
            got = (desc, repr(dict(res)))
            if ref is None:
                ref = got
            else:
                ctx.observe("forms")
                ctx.observe("form:" + label)
                ctx.require(got[0] == ref[0], "form-dataflow", f"functions given as `{label}` describe another dataflow than the imported file", source=src, file=ref[0], other=got[0])
                ctx.require(got[1] == ref[1], "form-result", f"functions given as `{label}` compute other results than the imported file", source=src, file=ref[1], other=got[1])
        if any(p[2] for f in fns for p in f.params):
            ctx.observe("kwonly")
        ctx.sig(src)
    finally:
        unload(*made)


# ---------------------------------------------------------------- git
def git(d, *a):
    env = dict(os.environ, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b", GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", HOME=d)
    r = subprocess.run(["git", *a], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(f"git {a}: {r.stderr}")
    return r.stdout


def snapshot(files):
    return {p: [f.copy() for f in fs] for p, fs in files.items()}


def truth(files, config):
    """node -> (file-independent identity of its function's code)"""
    out, ins = {}, {}
    for p, fs in files.items():
        for f in fs:
            for n in f.nodes(config):
                out[n] = render(f, CANON_NODOC)
                for i in f.inputs():
                    ins.setdefault(i, set()).add(n)
    ext = {i: c for i, c in ins.items() if i not in out}
    return out, ext


def CANON_NODOC(*a):
    return None if None in a else a[0]


@check.family("diff", 160, 3000)
def diff_case(ctx):
    rng = ctx.rng
    d = os.path.realpath(ctx.tmpdir())
    git(d, "init", "-q")
    fns = gen_fns(rng, rng.choice([2, 4, 6]), with_async=True)
    if any(f.is_async for f in fns):
        ctx.observe("async")
    has_when = any(f.kind == "when" for f in fns)
    config = {"mode": rng.choice(["v1", "v2"])} if has_when else ({"cfg": 1} if rng.random() < 0.3 else {})
    paths = rng.choice([["m.py"], ["m.py", "sub/k.py"], ["a/b/m.py", "k.py"]])
    files = {p: [] for p in paths}
    by_name = {}
    for f in fns:
        by_name.setdefault(f.name, rng.choice(paths))
        files[by_name[f.name]].append(f)
    late = rng.choice(paths[1:]) if len(paths) > 1 and rng.random() < 0.35 else None

    def write(files, skip=None, r=CANON):
        for p, fs in files.items():
            if p == skip:
                continue
            os.makedirs(os.path.join(d, os.path.dirname(p)), exist_ok=True)
            open(os.path.join(d, p), "w", encoding="utf-8").write(module_source(fs, r))
    write(files, skip=late)
    open(os.path.join(d, "README"), "w").write("x")
    git(d, "add", "-A")
    git(d, "commit", "-qm", "c0")
    git(d, "tag", "first")
    hist = {"first": snapshot({p: fs for p, fs in files.items() if p != late})}
    counter = [0]

    def mutate():
        k = rng.choice(["edit", "edit", "add", "remove", "cosmetic"])
        p = rng.choice(paths)
        if k == "edit" and files[p]:
            edit_ok(rng.choice(files[p]))
        elif k == "add":
            counter[0] += 1
            files[p].append(Fn(rng, f"new{counter[0]}_{rng.randrange(99)}", rng.sample(["in_a", "in_b"], rng.choice([0, 1, 2]))))
        elif k == "remove" and files[p]:
            f = rng.choice(files[p])
            files[p] = [g for g in files[p] if g.name != f.name]

    def edit_ok(f):
        if edit(rng, f) == "consttype":
            f.stmts[-1] = "t = 1.0"
    for _ in range(rng.choice([0, 1, 2])):
        mutate()
    write(files, r=picker(rng))
    git(d, "add", "-A")
    git(d, "commit", "-qm", "c1", "--allow-empty")
    hist["HEAD"] = snapshot(files)
    hist["HEAD~1"] = hist["first"]
    for _ in range(rng.choice([0, 1, 2, 3])):
        mutate()
    write(files, r=picker(rng))
    mods = [Path(d) / p for p in paths]
    cwd = os.getcwd()
    os.chdir(rng.choice([d, os.path.join(d, os.path.dirname(paths[-1]))]))
    ctxp = None
    if config:
        ctxp = Path(d) / "ctx.json"
        ctxp.write_text(json.dumps({"HAMILTON_CONFIG": config}))
        ctx.observe("diff_config")
    loaded = set(sys.modules)
    try:
        cur_dr = commands.build(mods, ctxp)
        for ref in rng.sample(["HEAD", "first", "HEAD~1"], 2):
            try:
                got = commands.diff(cur_dr, mods, git_reference=ref, context_path=ctxp)
            except ValueError as e:
                raise
            cur, cext = truth(files, config)
            old, oext = truth(hist[ref], config)
            # an external input of one side may be a computed node of the other
            allc, allo = set(cur) | set(cext) | set(config), set(old) | set(oext) | set(config)
            exp_c, exp_r = allc - allo, allo - allc
            ctx.require(set(got["current_only"]) == exp_c, "diff-added", f"diff against {ref} reports {sorted(got['current_only'])} as only current, expected {sorted(exp_c)}", history=dump(hist[ref]), current=dump(files))
            ctx.require(set(got["reference_only"]) == exp_r, "diff-removed", f"diff against {ref} reports {sorted(got['reference_only'])} as only in the reference, expected {sorted(exp_r)}", history=dump(hist[ref]), current=dump(files))
            must = {n for n in set(cur) & set(old) if cur[n] != old[n]}
            may = set()
            for n in allc & allo - must:
                if n in cur and n in old:
                    continue
                users = cext.get(n, set()) | oext.get(n, set())
                if n in cur or n in old or any(cur.get(u) != old.get(u) for u in users):
                    may.add(n)
            e = set(got["edit"])
            turned = (set(cur) ^ set(old)) - e - set(got["current_only"]) - set(got["reference_only"])
            ctx.require(not turned, "diff-turned-missed", f"diff against {ref} says nothing of {sorted(turned)}, a function on one side only", history=dump(hist[ref]), current=dump(files))
            if (set(cur) ^ set(old)) & allc & allo:
                ctx.observe("diff_turned_input")
            ctx.require(must <= e, "diff-edit-missed", f"diff against {ref} does not report {sorted(must - e)} as edited", history=dump(hist[ref]), current=dump(files))
            ctx.require(e <= must | may, "diff-edit-spurious", f"diff against {ref} reports {sorted(e - must - may)} as edited", history=dump(hist[ref]), current=dump(files))
            ctx.observe("git_diffs")
            ctx.observe("diff_current_only", len(exp_c))
            ctx.observe("diff_reference_only", len(exp_r))
            if exp_r:
                ctx.observe("node_removed")
            ctx.observe("diff_edit", len(must))
            ctx.observe("diff_same", len(set(cur) & set(old)) - len(must))
            if late and ref != "HEAD":
                ctx.observe("new_file")
            for status in got.values():
                for n, f in status.items():
                    if (n in allc and n not in cur) or (n not in allc and n not in old):
                        continue         # an input there: attributed to a consumer
                    want = {nm for fs in list(files.values()) + list(hist[ref].values()) for g in fs if n in g.nodes(config)
                            for nm in ([g.name, f"{g.name}__{g.variant}"] if g.kind == "when" else [g.name])}
                    if want:
                        ctx.require(f in want, "diff-function", f"diff attributes {n} to function {f}, expected {sorted(want)}")
            if rng.random() < 0.4:
                colours(ctx, cur_dr, files, hist[ref], ref, mods, config, got, set(cur), set(old))
            ctx.sig(dump(files), ref)
        if rng.random() < 0.3:
            ctx.observe("bad_reference")
            try:
                got = commands.diff(cur_dr, mods, git_reference="no-such-reference", context_path=ctxp)
            except Exception:
                pass
            else:
                ctx.violation("diff-bad-reference", "diff against a reference that does not exist returned a report", got=got)
    finally:
        os.chdir(cwd)
        for m in set(sys.modules) - loaded:
            if m.startswith("temporary_module_"):
                del sys.modules[m]


def dump(files):
    return {p: [render(f, CANON) for f in fs] for p, fs in files.items()}


COL = {"current_only": "greenyellow", "reference_only": "tomato1", "edit": "yellow2"}


def colours(ctx, cur_dr, files, old_files, ref, mods, config, got, cur, old):
    old_mods = logic.load_modules_from_git(mods, ref)
    ref_dr = driver.Builder().enable_dynamic_execution(allow_experimental_mode=True).with_modules(*old_mods).with_config(dict(config)).build()
    dot = logic.visualize_diff(current_dr=cur_dr, reference_dr=ref_dr, **{k: list(v) for k, v in got.items()})
    seen = {}
    for line in dot.source.splitlines():
        m = re.match(r'\s*"?([\w.]+)"?\s*\[label=<<b>', line)
        if m:
            c = re.search(r'fillcolor="?([#\w]+)"?', line)
            seen.setdefault(m.group(1), set()).add(c.group(1) if c else None)
    for n in cur | old:
        ctx.require(n in seen, "diff-view-missing", f"the diff drawing lacks node {n}", source=dot.source)
        if n not in seen:
            continue
        want = next((c for k, c in COL.items() if n in got[k]), None)
        if want:
            ctx.require(seen[n] == {want}, "diff-view-colour", f"the diff drawing shows {n} as {seen[n]}, expected {want}", source=dot.source)
        else:
            ctx.require(not seen[n] & set(COL.values()), "diff-view-colour", f"the diff drawing marks unchanged node {n} as {seen[n]}", source=dot.source)
    ctx.observe("diff_colours")


# ---------------------------------------------------------------- contexts
@check.family("context", 250, 4000)
def context_case(ctx):
    rng = ctx.rng
    d = Path(ctx.tmpdir())
    fns = gen_fns(rng, rng.choice([1, 3, 5]))
    config = {"mode": rng.choice(["v1", "v2"])} if any(f.kind == "when" for f in fns) else {}
    src = module_source(fns)
    (d / "m.py").write_text(src, encoding="utf-8")
    nodes = sorted(set().union(*[f.nodes(config) for f in fns]))
    ins = sorted({i for f in fns if f.nodes(config) for i in f.inputs()} - set(nodes))
    content = {"HAMILTON_CONFIG": config, "HAMILTON_FINAL_VARS": rng.sample(nodes, rng.randrange(0, len(nodes) + 1)),
               "HAMILTON_INPUTS": {i: rng.choice([1, "s", None, [1, 2]]) for i in ins if rng.random() < 0.8},
               "HAMILTON_OVERRIDES": {n: rng.choice([1, "s", {"a": 1}]) for n in nodes if rng.random() < 0.15}}
    given = {k: v for k, v in content.items() if rng.random() < 0.85 or k == "HAMILTON_CONFIG"}
    given = {k: (None if not v and rng.random() < 0.2 else v) for k, v in given.items()}
    empty = {"HAMILTON_CONFIG": {}, "HAMILTON_FINAL_VARS": [], "HAMILTON_INPUTS": {}, "HAMILTON_OVERRIDES": {}}
    want = {k: (given.get(k) if given.get(k) is not None else e) for k, e in empty.items()}
    (d / "c.json").write_text(json.dumps(dict(given, SOMETHING_ELSE=3)))
    (d / "c.py").write_text("OTHER = 5\n" + "".join(f"{k} = {v!r}\n" for k, v in given.items()))
    for p in ("c.json", "c.py"):
        got = logic.load_context(d / p)
        ctx.require(got == want, "context", f"context {p} reads as {got}, expected {want}")
        ctx.observe("contexts")
    p = d / rng.choice(["c.json", "c.py"])
    dr = commands.build([d / "m.py"], p)
    # independent validity: every required external input reachable without passing an override
    fmap = {}
    for f in fns:
        for n in f.nodes(config):
            fmap[n] = f
    supplied = set(want["HAMILTON_INPUTS"]) | set(want["HAMILTON_CONFIG"])
    ov = set(want["HAMILTON_OVERRIDES"])
    todo, seen, missing = list(want["HAMILTON_FINAL_VARS"]), set(), set()
    while todo:
        n = todo.pop()
        if n in seen or n in ov:
            continue
        seen.add(n)
        if n in fmap and fmap[n].kind == "fields" and n != fmap[n].name:
            todo.append(fmap[n].name)
        elif n in fmap:
            for q in fmap[n].params:
                if q[1] is None or q[0] in fmap:
                    todo.append(q[0])
        elif n not in supplied:
            missing.add(n)
    try:
        got = commands.validate(dr, p)
    except ValueError as e:
        ctx.observe("validate_refused")
        ctx.require(missing, "validate-refused", f"validate refuses an executable context: {e}", context=want, source=src)
    else:
        ctx.observe("validate_ok")
        ctx.require(not missing, "validate-passed", f"validate accepts a context lacking {sorted(missing)}", context=want, source=src)
        ctx.require(got == want, "validate-context", f"validate returns {got}, expected {want}")
    ctx.sig(src, repr(want))
    for m in [m for m in sys.modules if m.startswith("temporary_module_")]:
        del sys.modules[m]


# ---------------------------------------------------------------- other processes
@check.family("process", 8, 60)
def process_case(ctx):
    """Versions computed by the command line in another process (other hash seed) match this one's."""
    rng = ctx.rng
    d = os.path.realpath(ctx.tmpdir())
    fns = gen_fns(rng, 5)
    config = {"mode": "v1"}
    src = module_source(fns, picker(rng))
    Path(d, "m.py").write_text(src, encoding="utf-8", newline="")
    Path(d, "c.json").write_text(json.dumps({"HAMILTON_CONFIG": config, "HAMILTON_FINAL_VARS": []}))
    git(d, "init", "-q")
    git(d, "add", "-A")
    git(d, "commit", "-qm", "c")
    dr = commands.build([Path(d, "m.py")], Path(d, "c.json"))
    here = commands.version(dr)
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 1000)), HAMILTON_TELEMETRY_ENABLED="false", HOME=d, PYTHONPATH=vf.REPO)

    def cli(*a):
        r = subprocess.run([sys.executable, "-m", "hamilton.cli", "--json-out", *a], cwd=d, env=env, capture_output=True, text=True)
        ctx.observe("cli_runs")
        return r
    r = cli("version", "-ctx", os.path.join(d, "c.json"), os.path.join(d, "m.py"))
    ctx.require(r.returncode == 0, "cli-version", f"`hamilton version` failed: {r.stderr[-500:]}", source=src)
    if r.returncode == 0:
        msg = json.loads(r.stdout.strip().splitlines()[-1])["message"]
        ctx.require(msg == here, "version-process", "another process computes other versions", here=here, there=msg, source=src)
        ctx.observe("other_process")
    victim = rng.choice([f for f in fns if f.nodes(config) and f.kind != "does"] or [None])
    if victim is None:
        return
    victim.consts[1] += 1
    Path(d, "m.py").write_text(module_source(fns, picker(rng)), encoding="utf-8", newline="")
    r = cli("diff", "-ctx", os.path.join(d, "c.json"), "--view", "--output", os.path.join(d, "o.dot"), os.path.join(d, "m.py"))
    ctx.require(r.returncode == 0, "cli-diff", f"`hamilton diff --view` failed: {r.stderr[-800:]}", source=src)
    if r.returncode == 0:
        msg = json.loads(r.stdout.strip().splitlines()[-1])["message"]
        ctx.require(victim.nodes(config) <= set(msg["edit"]) and not msg["current_only"] and not msg["reference_only"], "cli-diff-report", f"`hamilton diff` reports {msg} after an edit of {victim.name}", source=src)
        ctx.require(os.path.exists(os.path.join(d, "o.dot")), "cli-diff-view", "`hamilton diff --view --output` did not write the drawing")
    ctx.sig(src)


if __name__ == "__main__":
    check.main()
