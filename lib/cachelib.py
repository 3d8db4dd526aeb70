"""Shared pieces of the caching checks: store factory, value digests, source edits."""
import os

import vrt
from gen import load_module

CACHE_KINDS = ["int", "int", "int", "float", "str", "bool", "list", "dict", "zero", "false", "empty_str",
               "none", "empty_list", "nan"]
CACHE_PANDAS = ["series", "frame", "array"]
# one value kind per fingerprint: see KNOWN_FINDINGS (values of different types share fingerprints)


def digest(v):
    t = type(v).__name__
    if t == "DataFrame" or t == "Series":
        return f"{t}:{v.to_json()}"
    if t == "ndarray":
        return f"{t}:{v.tolist()}"
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{digest(v[k])}" for k in sorted(v)) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(digest(x) for x in v) + "]"
    return f"{t}:{v!r}"


class Stores:
    """A persistent cache location; `open()` gives fresh store objects on it (a 'restart')."""

    def __init__(self, ctx, kind):
        from hamilton.caching.stores.file import FileResultStore
        from hamilton.caching.stores.memory import InMemoryMetadataStore, InMemoryResultStore
        from hamilton.caching.stores.sqlite import SQLiteMetadataStore
        self.kind = kind
        self.dir = os.path.join(ctx.tmpdir(), "cache")
        self.mm = InMemoryMetadataStore() if kind in ("mem", "mem_file") else None
        self.mr = InMemoryResultStore() if kind in ("mem", "sql_mem") else None
        self.F, self.S = FileResultStore, SQLiteMetadataStore

    def kwargs(self):
        if self.kind == "path":
            return dict(path=self.dir)
        ms = self.mm if self.mm is not None else self.S(os.path.join(self.dir, "meta"))
        rs = self.mr if self.mr is not None else self.F(os.path.join(self.dir, "res"))
        return dict(metadata_store=ms, result_store=rs)

    def result_dir(self):
        """Where the result files are, if there are any."""
        return {"path": self.dir, "sql_file": os.path.join(self.dir, "res"), "mem_file": os.path.join(self.dir, "res")}.get(self.kind)

    def damage(self, rng, p):
        """Truncate or garble some stored results (not the materialised files); yields their names."""
        for f in sorted(os.listdir(self.result_dir())):
            path = os.path.join(self.result_dir(), f)
            if "." in f or not os.path.isfile(path) or rng.random() >= p:
                continue
            data = open(path, "rb").read()
            with open(path, "wb") as fh:
                fh.write(rng.choice([b"", data[:len(data) // 2], data[:-1], b"garbage" + data]))
            yield f


def edit_comments(src, rng):
    """A source edit that leaves every function's code alone: comments, blank lines, docstrings."""
    out = []
    for line in src.split("\n"):
        out.append(line)
        if line.startswith("def ") and line.rstrip().endswith(":"):
            r = rng.random()
            if r < .3:
                out.append(f'    """doc {rng.randrange(1000)}"""')
            elif r < .6:
                out.append(f"    # comment {rng.randrange(1000)}")
        elif line.startswith("    return _H(") and rng.random() < .3:
            out[-1] = line + f"  # trailing {rng.randrange(1000)}"
    return "\n".join(out)


def load_dag(dag, rng=None, comments=False):
    mods = []
    for s in dag.sources(rng):
        mods.append(load_module(edit_comments(s, rng) if comments else s))
    return mods


def edit_dag(dag, rng, n=1):
    """Change the code of n random nodes (their salt); returns the edited names."""
    out = []
    for nm in rng.sample(list(dag.nodes), min(n, len(dag.nodes))):
        dag.nodes[nm].salt = rng.randrange(1000, 100000)
        out.append(nm)
    return out


__all__ = ["CACHE_KINDS", "CACHE_PANDAS", "Stores", "digest", "edit_comments", "edit_dag", "load_dag", "vrt"]
