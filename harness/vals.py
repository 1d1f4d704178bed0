"""Tagged values shared by programs, traces and the specification (see specs/Values.tla)."""
from __future__ import annotations

import math
from fractions import Fraction

NAN = ["nan"]
PINF = ["pinf"]
NINF = ["ninf"]


def num(x, d=1):
    f = Fraction(x) / d if d != 1 else Fraction(x)
    return ["n", f.numerator, f.denominator]


def text(s):
    return ["s", [ord(c) for c in s]]


def boolean(b):
    return ["b", 1 if b else 0]


def untext(v):
    return "".join(chr(c) for c in v[1])


def py(v):
    """The Python object for a tagged value."""
    t = v[0]
    if t == "n":
        return v[1] if v[2] == 1 else v[1] / v[2]
    if t == "b":
        return bool(v[1])
    if t == "s":
        return untext(v)
    if t == "nan":
        return float("nan")
    if t == "pinf":
        return float("inf")
    if t == "ninf":
        return float("-inf")
    raise ValueError(v)


def frac(v):
    return Fraction(v[1], v[2])


def project(x, den=2000, tol=1e-9):
    """The tagged value for a float. One that is not close to a small rational becomes ["x", ...] and matches nothing."""
    if x != x:
        return NAN
    if x == math.inf:
        return PINF
    if x == -math.inf:
        return NINF
    if x == int(x) and abs(x) < 2 ** 31:
        return ["n", int(x), 1]
    f = Fraction(float(x)).limit_denominator(den)
    if abs(float(f) - x) > tol * max(1.0, abs(x)) or abs(f.numerator) >= 2 ** 31:
        return ["x", repr(float(x)), 0]
    return ["n", f.numerator, f.denominator]


def observe(x, den=2000, tol=1e-9):
    """The tagged value of any scalar found in a result."""
    import numpy as np
    import pandas as pd
    if x is None or x is pd.NA or x is pd.NaT:
        return NAN
    if isinstance(x, (bool, np.bool_)):
        return boolean(bool(x))
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return ["n", x, 1] if abs(x) < 2 ** 31 else ["x", str(x), 0]
    if isinstance(x, (float, np.floating)):
        return project(float(x), den, tol)
    if isinstance(x, bytes):
        return ["s", list(x)]
    if isinstance(x, str):
        return text(x)
    if isinstance(x, (pd.Timestamp, np.datetime64)):
        t = pd.Timestamp(x)
        return NAN if t is pd.NaT else ["n", int((t - pd.Timestamp("2000-01-01")).days), 1]
    return ["x", repr(x), 0]


def key_label(v):
    """A hashable, sortable Python label for a tagged value."""
    return py(v)


def label(vs):
    """A pandas index label for a sequence of tagged values."""
    out = tuple(py(v) for v in vs)
    return out[0] if len(out) == 1 else out


def labels_of(index):
    """The labels of a pandas index as sequences of tagged values."""
    if index.nlevels == 1:
        return [[observe(x)] for x in index]
    return [[observe(y) for y in x] for x in index]


def make_index(labels, names=None, nlevels=None):
    import pandas as pd
    n = nlevels if nlevels is not None else (len(labels[0]) if labels else 1)
    if n == 1:
        vals = [py(x[0]) for x in labels]
        name = names[0] if names else None
        if not vals:
            return pd.Index([], dtype="int64", name=name)
        return pd.Index(vals, name=name)
    if not labels:
        return pd.MultiIndex.from_arrays([[] for _ in range(n)], names=names)
    return pd.MultiIndex.from_tuples([tuple(py(y) for y in x) for x in labels], names=names)


def make_array(kind, values):
    """A column of the given kind: i u f b s c t, n (integers or nothing), or a machine type such as i4, f4, string."""
    import numpy as np
    import pandas as pd
    if kind in ("i", "i8"):
        return np.array([py(v) for v in values], dtype="i8")
    if kind == "i4":
        return np.array([py(v) for v in values], dtype="i4")
    if kind in ("i1", "i2", "u1", "u2", "u4", "f2"):
        return np.array([py(v) for v in values], dtype=kind)
    if kind == "u":
        return np.array([py(v) for v in values], dtype="u8")
    if kind in ("f", "f8"):
        return np.array([py(v) for v in values], dtype="f8")
    if kind == "f4":
        return np.array([py(v) for v in values], dtype="f4")
    if kind == "b":
        return np.array([py(v) for v in values], dtype=bool)
    if kind == "s":
        a = np.empty(len(values), dtype=object)
        for n, v in enumerate(values):
            a[n] = None if v == NAN else py(v)
        return a
    if kind == "o":
        a = np.empty(len(values), dtype=object)
        for n, v in enumerate(values):
            a[n] = None if v == NAN else py(v)
        return a
    if kind == "c":
        vals = [None if v == NAN else py(v) for v in values]
        return pd.Categorical(vals, categories=sorted({v for v in vals if v is not None}) or ["x"])
    if kind in ("ci", "cb"):
        # Categories of integers or booleans, some of which may be unused
        vals = [None if v == NAN else py(v) for v in values]
        return pd.Categorical(vals, categories=sorted({v for v in vals if v is not None} | {True if kind == "cb" else 3}))
    if kind == "t":
        return np.array([np.datetime64("nat") if v == NAN else np.datetime64("2000-01-01") + np.timedelta64(v[1], "D")
                         for v in values], dtype="M8[ns]")
    if kind == "string":
        return pd.array([pd.NA if v == NAN else py(v) for v in values], dtype="string")
    if kind in ("Int64", "n"):
        return pd.array([pd.NA if v == NAN else py(v) for v in values], dtype="Int64")
    raise ValueError(kind)


def kind_of(series):
    """The kind of a series, as in specs/Semantics.tla."""
    import pandas as pd
    dt = series.dtype
    if isinstance(dt, pd.CategoricalDtype):
        return "c"
    if str(dt) == "string":
        return "s"
    if str(dt) == "Int64":
        return "n"
    if dt == object:
        return "s" if all(isinstance(x, str) or x is None or x is pd.NA or x != x for x in series) else "o"
    return {"i": "i", "u": "u", "f": "f", "b": "b", "M": "t"}.get(getattr(dt, "kind", "o"), "o")
