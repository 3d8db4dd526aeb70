"""Runtime support imported by generated dataflow modules: the event recorder and the arithmetic
the generated functions compute.  Nothing here touches the code under test."""
import json
import os
import threading
import time
import zlib

_lock = threading.Lock()
EVENTS = []          # (kind, name, payload, thread id)
FILE = None          # when set, events also go (atomically, O_APPEND) to this file
DELAY = {}           # name -> seconds (schedule perturbation), or callable
RAISE = {}           # name -> exception instance/factory
GATES = {}           # name -> callable run on entry (barriers etc.)
ACTIVE = 0
MAX_ACTIVE = 0


class VErr(Exception):
    """An exception raised by a generated user function."""


class VKey(VErr, KeyError):
    pass


class VAssert(VErr, AssertionError):
    pass


class VTimeout(VErr, TimeoutError):
    pass


class VType(VErr, TypeError):
    pass


class VStop(VErr, StopIteration):
    """(not for coroutines and generators, where Python itself replaces it)"""


ERRS = [VErr, VErr, VKey, VAssert, VTimeout, VType]


class VBase(BaseException):
    pass


def reset(file=None):
    global FILE, ACTIVE, MAX_ACTIVE
    with _lock:
        EVENTS.clear()
        DELAY.clear()
        RAISE.clear()
        GATES.clear()
        AGATES.clear()
        ACTIVE = MAX_ACTIVE = 0
        FILE = file
        if file:
            open(file, "w").close()


def log(kind, name, payload=None):
    with _lock:
        EVENTS.append((kind, name, payload, threading.get_ident()))
    if FILE:
        line = json.dumps([kind, name, repr(payload), os.getpid(), time.monotonic_ns()]) + "\n"
        fd = os.open(FILE, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        try:
            os.write(fd, line.encode())
        finally:
            os.close(fd)


def file_events(file=None):
    with open(file or FILE) as f:
        return [json.loads(x) for x in f]


def calls():
    with _lock:
        return [e[1] for e in EVENTS if e[0] == "call"]


def ival(x):
    """Order- and type-sensitive integer digest of a value (deterministic across processes)."""
    if x is None:
        return 7919
    if isinstance(x, bool):
        return 104729 + int(x)
    if isinstance(x, int):
        return x * 3 + 1
    if isinstance(x, (str, bytes)):
        b = x.encode() if isinstance(x, str) else x
        return zlib.crc32(b) % 99991 + (5 if isinstance(x, str) else 6)
    if isinstance(x, float):
        return zlib.crc32(repr(x).encode()) % 99991 + 9
    if isinstance(x, (list, tuple)):
        acc = 11 if isinstance(x, list) else 13
        for v in x:
            acc = (acc * 1009 + ival(v)) % 1000003
        return acc
    if isinstance(x, dict):
        acc = 17
        for k in sorted(x, key=repr):
            acc = (acc * 1013 + ival(k) * 31 + ival(x[k])) % 1000003
        return acc
    if isinstance(x, (set, frozenset)):
        return sum(ival(v) for v in x) % 1000003
    t = type(x).__name__
    if t in ("DataFrame", "Series"):
        try:
            return zlib.crc32((t + x.to_json()).encode()) % 99991
        except Exception:
            return zlib.crc32((t + repr(x)).encode()) % 99991
    return zlib.crc32(repr(x).encode()) % 99991


def mix(name, salt, kw):
    acc = (zlib.crc32(name.encode()) % 99991) * 7 + salt
    for k in sorted(kw):
        acc = (acc * 1000033 + zlib.crc32(k.encode()) % 997 + ival(kw[k])) % 1000000007
    return acc


def shape(kind, v):
    """Turn the mixed integer into a value of the node's declared kind."""
    if kind == "int":
        return v
    if kind == "zero":
        return 0
    if kind == "bool":
        return bool(v & 1)
    if kind == "false":
        return False
    if kind == "float":
        return v / 8.0
    if kind == "nan":
        return float("nan")
    if kind == "str":
        return f"s{v}"
    if kind == "empty_str":
        return ""
    if kind in ("none", "none_int"):
        return None
    if kind == "list":
        return [v, v % 97, str(v % 13)]
    if kind == "empty_list":
        return []
    if kind == "dict":
        return {"k": v, "j": v % 17}
    if kind == "empty_dict":
        return {}
    if kind == "series":
        import pandas as pd
        return pd.Series([v % 1000, v % 77, v % 5])
    if kind == "frame":
        import pandas as pd
        return pd.DataFrame({"a": [v % 1000, v % 31], "b": [v % 7, 1]})
    if kind == "array":
        import numpy as np
        return np.array([v % 1000, v % 91, v % 3])
    raise ValueError(kind)


PYTYPE = dict(int="int", zero="int", none_int="int", bool="bool", false="bool", float="float", nan="float",
              str="str", empty_str="str", none="Optional[int]", list="list", empty_list="list",
              dict="dict", empty_dict="dict", series="pd.Series", frame="pd.DataFrame",
              array="np.ndarray")


def value(name, salt, kind, kw):
    return shape(kind, mix(name, salt, kw))


AGATES = {}          # name -> async callable awaited by async functions before they compute


async def AH(name):
    log("enter", name)
    g = AGATES.get(name)
    if g:
        await g()


def H(name, salt, kind, kw):
    """Body of every generated function."""
    global ACTIVE, MAX_ACTIVE
    log("call", name, {k: ival(v) for k, v in kw.items()})
    with _lock:
        ACTIVE += 1
        MAX_ACTIVE = max(MAX_ACTIVE, ACTIVE)
    try:
        g = GATES.get(name)
        if g:
            g()
        d = DELAY.get(name)
        if d:
            time.sleep(d() if callable(d) else d)
        r = RAISE.get(name)
        if r is not None:
            log("raise", name)
            raise r(name) if isinstance(r, type) else r
        out = value(name, salt, kind, kw)
        log("return", name)
        return out
    finally:
        with _lock:
            ACTIVE -= 1


class SlowPickle:
    """A value whose serialization takes a moment (in Python code, as with data frames)."""

    def __init__(self, v, delay=.01):
        self.v, self.delay = v, delay

    def __reduce__(self):
        import time
        time.sleep(self.delay)
        return SlowPickle, (self.v, self.delay)
