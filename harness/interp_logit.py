"""Runs logit models and samplers (specs/Logit.tla)."""
from __future__ import annotations

import math
import random
from fractions import Fraction

import numpy as np
import pandas as pd
from cheval import ChoiceModel

from interp_model import attempt, choice_labels, label_names
from vals import NAN, NINF, PINF, labels_of, make_index, py, text, untext

ZEROS = {"inf": -math.inf, "big": -1e9, "huge": -1e300, "low": -800.0}


def rational(x, den, tol):
    """The tagged value of a float, which has to be as close as that, relatively, to a rational number"""
    x = float(x)
    if x != x:
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    if x == 0:
        return ["n", 0, 1]
    f = Fraction(x).limit_denominator(den)
    if f == 0 or abs(float(f) - x) > tol * abs(x) or abs(f.numerator) >= 2 ** 31:
        return ["x", repr(x), 0]
    return ["n", f.numerator, f.denominator]


def build(e):
    """A model with the choices of e.nodes. Returns it and the scale by which each utility is divided."""
    m = ChoiceModel(precision=e.get("precision", 8))
    handles, scales, over = {}, {}, []
    for node in e["nodes"]:
        path = tuple(untext(p) for p in node["path"])
        parent = m if len(path) == 1 else handles[path[:-1]]
        handles[path] = parent.add_choice(path[-1], logsum_scale=py(node["scale"]))
        scales[path] = py(node["scale"])
    for node in e["nodes"]:
        path = tuple(untext(p) for p in node["path"])
        over.append(scales[path[:-1]] if len(path) > 1 and e["scaling"] else 1.0)
    m.decision_units = make_index(e["du"])
    return m, np.array(over)


def utilities(e, over):
    """The table of utilities, one row per decision unit"""
    top = np.array([len(n["path"]) == 1 for n in e["nodes"]])
    rows = []
    for k, b in enumerate(e["b"]):
        row = []
        for j, v in enumerate(b):
            if v == ["pinf"]:
                row.append(1000.0 if e["large"] == "big" else math.inf)
            elif v[1] == 0:
                row.append(ZEROS[e["zeros"][k][j]])
            else:
                f = Fraction(v[1], v[2])
                row.append(over[j] * (math.log(f.numerator) - math.log(f.denominator)))
        rows.append(np.array(row) + np.where(top, e["shift"][k], 0.0))
    return np.array(rows)[[k - 1 for k in e["pat"]]].reshape(len(e["pat"]), len(e["nodes"]))


def give(m, e, u):
    """Gives the utilities to the model in one of the ways there are"""
    index, cols = m.decision_units, m.choices
    dt = "f4" if e.get("precision") == 4 else "f8"
    how = e["how"]
    if how == "partial":
        m.add_partial_utilities(pd.DataFrame(u.astype(dt), index=index, columns=cols))
    elif how == "matrix":
        m.declare_matrix("m")
        m["m"].assign(pd.DataFrame(u.astype(dt), index=index, columns=cols))
        m.expressions.append("m")
    elif how == "fortran":
        m.declare_matrix("m")
        m["m"].assign(pd.DataFrame(np.asfortranarray(u.astype(dt)), index=index, columns=cols))
        m.expressions.append("m")
    else:       # One expression per choice
        for j in range(len(cols)):
            m.declare_vector("v%d" % j, 0)
            m["v%d" % j].assign(u[:, j].copy())
            c = cols[j]
            name = c if isinstance(c, str) else ".".join(x for x in c if x != ".")
            m.expressions.append("v%d @ %s" % (j, name))


def seed_of(w, e):
    if e["seed"]["k"] == "int":
        return getattr(np, e["seed"]["as"])(e["seed"]["v"]) if "as" in e["seed"] else e["seed"]["v"]
    return w["rng"][e["seed"]["name"]]


def distinct(rows):
    """The distinct rows, and for every row which one it is, counting from 1"""
    seen, at, where = [], [], {}
    for r in rows:
        key = repr(r)
        if key not in where:
            seen.append(r)
            where[key] = len(seen)
        at.append(where[key])
    return seen, at


def run(program, events):
    w = {"rng": {}}
    for op in program["ops"]:
        e = dict(op)
        globals()["do_" + e["op"]](w, e)
        for k in ("zeros", "shift", "how", "large", "precision"):
            e.pop(k, None)
        events.append(e)


def tolerances(e):
    return (150, 5e-6) if e.get("precision") == 4 else (20000, 1e-10)


def do_stochastic(w, e):
    m, over = build(e)
    give(m, e, utilities(e, over))
    kw = {} if e.get("defaults") else dict(scale_utilities=e["scaling"], check_infeasible=e["check"])
    r = attempt(e, lambda: m.run_stochastic(n_threads=e["threads"], **kw))
    e.update(rows=[], pcols=[], cols=[], at=[], seen=[])
    if r is None:
        return
    p, ls, t = r
    den, tol = tolerances(e)
    e["rows"] = labels_of(p.index)
    if not (p.index.equals(ls.index) and p.index.equals(t.index)):
        e["rows"] = [[["x", "indexes differ", 0]]]
    e["pcols"], e["cols"] = choice_labels(p.columns), choice_labels(t.columns)
    factor = np.array([math.exp(-e["shift"][k - 1]) for k in e["pat"]])
    top = np.array([len(n["path"]) == 1 for n in e["nodes"]])
    pv, lv, tv = np.asarray(p, dtype="f8"), np.asarray(ls, dtype="f8"), np.array(t, dtype="f8")
    with np.errstate(all="ignore"):
        lv = lv * factor
        tv = np.where(top, tv * factor[:, None], tv)
    seen, at = distinct([tuple(a) + (x,) + tuple(c) for a, x, c in zip(pv, lv, tv)])
    k = pv.shape[1]
    e["at"] = at
    e["seen"] = [{"p": [rational(x, den, tol) for x in s[:k]], "ls": rational(s[k], den, tol),
                  "t": [rational(x, den, tol) for x in s[k + 1:]]} for s in seen]


def describe(e, res):
    """The form of the result of a discrete run"""
    e["form"] = "series" if isinstance(res, pd.Series) else "frame" if isinstance(res, pd.DataFrame) else "other"
    name = res.name if e["form"] == "series" else res.columns.name
    e["rname"] = "" if name is None else str(name)
    e["dcols"] = [] if e["form"] == "series" else [int(c) for c in res.columns]
    types = [res.dtype] if e["form"] == "series" else list(res.dtypes)
    kinds = {"c" if isinstance(t, pd.CategoricalDtype) else "i" if t.kind == "i" else "s" if t == object else "?" for t in types}
    e["kind"] = kinds.pop() if len(kinds) == 1 else "?"


def do_draws(w, e):
    m, over = build(e)
    give(m, e, utilities(e, over))
    kw = {} if e.get("defaults") else dict(scale_utilities=e["scaling"])
    if e["squeeze"] is False:
        kw["squeeze"] = False
    if e["name"]:
        kw["result_name"] = e["name"]
    if e["astype"] != "category":
        kw["astype"] = e["astype"]
    seed = seed_of(w, e)
    r = attempt(e, lambda: m.run_discrete(random_seed=seed, n_draws=e["draws"], n_threads=e["threads"], **kw))
    e.update(rows=[], picks=[], at=[], seen=[], form="", rname="", dcols=[], kind="")
    if r is None:
        return
    res, ls = r
    den, tol = tolerances(e)
    describe(e, res)
    e["rows"] = labels_of(res.index)
    if not ls.index.equals(res.index):
        e["rows"] = [[["x", "indexes differ", 0]]]
    a = np.asarray(res).reshape(len(res.index), -1)
    if e["astype"] == "index":
        e["picks"] = [[["n", int(x), 1] for x in row] for row in a]
    else:
        e["picks"] = [[label_names(x) for x in row] for row in a]
    factor = np.array([math.exp(-e["shift"][k - 1]) for k in e["pat"]])
    with np.errstate(all="ignore"):
        seen, e["at"] = distinct(list(np.asarray(ls, dtype="f8") * factor))
    e["seen"] = [{"ls": rational(s, den, tol)} for s in seen]


def do_cells(w, e):
    """Draws from a model of many equally probable choices"""
    seed = seed_of(w, e)
    if e.get("by") == "weights":
        from cheval.core import worker_weighted_sample
        import numba
        numba.set_num_threads(e["threads"])
        r = attempt(e, lambda: worker_weighted_sample(np.ones((e["n"], e["count"])), e["draws"], seed))
    else:
        m = ChoiceModel()
        m.add_choices(["c%d" % k for k in range(e["count"])])
        m.decision_units = list(range(e["n"]))
        if e.get("du"):
            m.decision_units = make_index(e["du"])
        r = attempt(e, lambda: m.run_discrete(random_seed=seed, n_draws=e["draws"], astype="index",
                                              n_threads=e["threads"])[0])
    e["cells"] = []
    if r is not None:
        e["cells"] = [[int(x) for x in row] for row in np.asarray(r).reshape(e["n"], -1)]


def do_pick(w, e):
    import cheval.core as core
    weights = np.array([py(x) for x in e["w"]], dtype="f8")
    r = py(e["r"])
    r = {"-": math.nextafter(r, 0), "+": math.nextafter(r, 1), "=": r}[e["side"]]
    by = e["by"]
    p = weights / weights.sum()
    if by == "once":
        fn = lambda: core.sample_once(p, r)
    elif by == "search":
        fn = lambda: core.logarithmic_search(r, np.cumsum(p))
    elif by == "simple":
        fn = lambda: core.simple_sample(weights, r)
    elif by == "logit":
        with np.errstate(all="ignore"):
            fn = lambda: core.multinomial_sample(np.log(weights), r)[0]
    e["got"] = -1
    x = attempt(e, fn)
    if x is not None:
        e["got"] = int(x)


def do_state(w, e):
    w["rng"][e["name"]] = np.random.RandomState(e["init"])


def do_noise(w, e):
    """Other random-number activity in the process"""
    what = e["what"]
    if what == "numpy":
        np.random.seed(e["v"])
        np.random.uniform(size=e["v"] % 50)
    elif what == "python":
        random.seed(e["v"])
        random.random()
    elif what == "draw":
        np.random.uniform(size=7)
    else:
        m = ChoiceModel()
        m.add_choices("ABC")
        m.decision_units = range(e["v"] % 30 + 1)
        m.run_discrete(random_seed=e["v"], n_draws=e["v"] % 3 + 1, n_threads=e["v"] % 4 + 1)
