"""Strict deep equality (types matter, NaN equals NaN)."""
import math


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, (int, str, bytes, bool)):
        return a == b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return (len(a) == len(b) and all(k in b for k in a)
                and all(same(a[k], b[k]) for k in a))
    mod = type(a).__module__.split(".")[0]
    if mod == "pandas":
        import pandas as pd
        try:
            if isinstance(a, pd.DataFrame):
                pd.testing.assert_frame_equal(a, b, check_exact=True)
            elif isinstance(a, pd.Series):
                pd.testing.assert_series_equal(a, b, check_exact=True)
            elif isinstance(a, pd.Index):
                pd.testing.assert_index_equal(a, b, exact=True)
            else:
                return bool(a == b)
            return True
        except AssertionError:
            return False
    if mod == "polars":
        import polars as pl
        if isinstance(a, pl.LazyFrame):
            a, b = a.collect(), b.collect()
        if isinstance(a, pl.DataFrame):
            return a.schema == b.schema and a.columns == b.columns and a.equals(b, null_equal=True)
        if isinstance(a, pl.Series):
            return a.name == b.name and a.dtype == b.dtype and a.equals(b, null_equal=True)
        return bool(a == b)
    if mod == "numpy":
        import numpy as np
        if isinstance(a, np.ndarray):
            return (a.dtype == b.dtype and a.shape == b.shape
                    and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind in "fc"
                         else np.array_equal(a, b)))
        return bool(a == b) or (a != a and b != b)
    if isinstance(a, BaseException):
        return repr(a) == repr(b)
    return bool(a == b)


def short(x, n=300):
    try:
        return repr(x)[:n]
    except Exception as e:
        return f"<unrepr {e}>"
