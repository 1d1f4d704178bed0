"""Runs operations on choice models (specs/Model.tla), and the frame operations that programs about models need."""
from __future__ import annotations

import copy
import logging
import math

import numpy as np
import pandas as pd
from cheval import ChoiceModel, LinkedDataFrame

import interp_frame
from astlib import source
from vals import (labels_of, label, make_array, make_index, observe, project, py, text, untext)


def attempt(e, fn):
    """Runs fn and notes how it ended. Returns its result, or None."""
    try:
        r = fn()
    except Exception as exc:
        e["res"] = type(exc).__name__
        e["errs"] = [c.__name__ for c in type(exc).__mro__]
        e["msg"] = str(exc)[:200]
        return None
    e["res"] = "ok"
    e["errs"] = []
    return r


def expr_text(x):
    """The text of an expression of a program, with its filter"""
    if x.get("raw") is not None:
        return x["raw"]
    s = source(x["ast"])
    if x["flt"]:
        s += x.get("at", " @ ") + ".".join(untext(p) for p in x["flt"])
    for _ in range(x["nat"] - (1 if x["flt"] else 0)):
        s += x.get("tail", " @ A")
    return s


def group_key(g):
    """The name of a group, which can be anything hashable"""
    return {"": None, "g2": ("seg", 2), "g3": 0}.get(g, g)


def choice_label(path):
    names = [untext(p) for p in path]
    return names[0] if len(names) == 1 else tuple(names)


def label_names(x):
    return [text(y) for y in x] if isinstance(x, tuple) else [text(str(x))]


def choice_labels(index):
    if index.nlevels == 1:
        return [[text(x)] for x in index]
    return [[text(y) for y in x] for x in index]


class World:
    def __init__(self, program):
        self.models = {}
        self.handles = {}
        self.scales = {}
        self.names = set()
        self.groups = set()
        self.snapshots = []
        self.den = program.get("den", 2000)
        self.tol = program.get("tol", 1e-9)
        self.frames = interp_frame.World(program)

    def remember(self, obj):
        """Keeps the data given to a model, to see that nothing happens to it"""
        self.snapshots.append((obj, copy.deepcopy(obj) if isinstance(obj, np.ndarray) else pd_copy(obj)))
        return obj

    def intact(self):
        return all(same(a, b) for a, b in self.snapshots)


def pd_copy(obj):
    if isinstance(obj, LinkedDataFrame):
        return pd.DataFrame(obj, copy=True)
    return obj.copy(deep=True)


def same(a, b):
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, pd.Series):
        return a.equals(b) and a.index.equals(b.index)
    a = pd.DataFrame(a)
    return a.equals(b) and a.index.equals(b.index) and a.columns.equals(b.columns)


def laid_out(a, data):
    """The same values at another place in memory"""
    if data.get("lay") == "strided" and isinstance(a, np.ndarray):
        wide = np.zeros(2 * len(a) + 1, dtype=a.dtype)
        wide[1::2] = a
        return wide[1::2]
    if data.get("lay") == "reversed" and isinstance(a, np.ndarray):
        return a[::-1].copy()[::-1]
    return a


def build(w, data):
    """The object that a piece of data stands for"""
    t = data["t"]
    if t == "scalar":
        v = py(data["v"])
        return {"f": float, "f4": np.float32, "i8": np.int64, "nb": np.bool_, "0d": np.array}.get(data.get("dt"), lambda x: x)(v)
    if t == "array":
        return w.remember(laid_out(np.asarray(make_array(data["dt"], data["v"])), data))
    if t == "array2":
        return np.zeros((len(data["v"]), 2))
    if t == "series":
        return w.remember(pd.Series(laid_out(make_array(data["dt"], data["v"]), data), index=make_index(data["idx"])))
    if t == "table":
        obj = w.frames.frames[data["fid"]]
        return w.remember(obj)
    if t == "frame":
        n = len(data["idx"])
        arr = np.array([[py(x) for x in row] for row in data["v"]], dtype=data["dt"]).reshape(n, len(data["cols"]))
        if data.get("lay") == "F":
            arr = np.asfortranarray(arr)
        t = pd.DataFrame(arr, index=make_index(data["idx"]), columns=make_index(data["cols"]))
        if data.get("mixed"):   # Columns of several types
            t = pd.concat([t.iloc[:, [k]].astype(data["mixed"][k]) for k in range(t.shape[1])], axis=1)
            t.columns = make_index(data["cols"])
        return w.remember(t)
    if t == "list":
        return [py(x) for x in data["v"]]
    if t == "none":
        return None
    raise ValueError(t)


def decode_utilities(m, terms, scales, w):
    """The utilities behind the exponentials that a stochastic run returns, as tagged values.

    For a nest, exp((u + scale * ln(sum of the children's exponentials)) / scale of parent) is returned.
    """
    index = m.choices
    paths = [tuple(x for x in (c if isinstance(c, tuple) else (c,)) if x != ".") for c in index]
    pos = {p: n for n, p in enumerate(paths)}
    kids = {}
    for p in paths:
        kids.setdefault(p[:-1], []).append(p)
    a = np.asarray(terms, dtype="f8")
    out = []
    with np.errstate(all="ignore"):
        for row in a:
            us = []
            for n, p in enumerate(paths):
                t = row[n]
                up = scales.get(p[:-1], 1.0) if len(p) > 1 else 1.0
                lt = math.log(t) * up if t > 0 and t < math.inf else (-math.inf if t == 0 else math.inf)
                if p in kids:
                    s = sum(row[pos[k]] for k in kids[p])
                    if s <= 0:
                        us.append(["unk"])
                        continue
                    lt -= scales.get(p, 1.0) * math.log(s)
                us.append(project(lt, w.den, w.tol))
            out.append(us)
    return out


def run(program, events):
    w = World(program)
    for op in program["ops"]:
        e = dict(op)
        if e["dom"] == "frame":
            ok = interp_frame.execute(w.frames, e)
        else:
            try:
                ok = execute(w, e)
            except (KeyError, TypeError) as exc:
                if "res" in e:
                    raise
                # An earlier operation did not do what it should have, so this one makes no sense
                events.append({"op": "skip", "dom": "-", "why": repr(exc)})
                break
            finish(w, e)
        events.append(e)
        if ok is False:
            break


def symbols_of(expressions):
    return [sorted(set(expressions.itersimple())), sorted(set(expressions.iterchained()))]


def note_debug(w, e, m):
    """The table about the debugged decision unit"""
    e["dbg"] = {"raws": [], "cols": [], "v": []}
    t = m.debug_results if e["res"] == "ok" else None
    if t is not None:
        e["dbg"] = {"raws": [str(x) for x in t.index], "cols": choice_labels(t.columns),
                    "v": [[project(x, w.den, w.tol) for x in row] for row in np.asarray(t, dtype="f8")]}


class _Log(logging.Handler):
    """A log that needs all messages to be well-formed"""

    def emit(self, record):
        record.getMessage()


def logger(e):
    """A logger, for the operations that take one"""
    if not e.get("log"):
        return {}
    log = logging.Logger("runs", logging.DEBUG)
    log.addHandler(_Log())
    return {"logger": log}


def flags(e):
    if "flags" not in e:
        return {}
    f = e["flags"]
    return dict(tree=f["tree"], decision_units=f["du"], expressions=f["exprs"], assignment=f["assign"])


def finish(w, e):
    e["intact"] = w.intact()
    after = {}
    for name, m in w.models.items():
        decl = []
        for n in sorted(w.names):
            try:
                m[n]
                decl.append(n)
            except KeyError:
                pass
        groups = []
        for g in sorted(w.groups):
            try:
                groups.append([g, [x.raw for x in m.expressions.get_group(group_key(g))]])
            except KeyError:
                groups.append([g, ["none"]])
        after[name] = {"decl": decl, "exl": [list(m.expressions.tolist()), groups, symbols_of(m.expressions)]}
    e["after"] = after


def execute(w, e):
    op = e["op"]
    if op == "new":
        kw = {"debug_id": label(e["debug"])} if e.get("debug") else {}
        m = attempt(e, lambda: ChoiceModel(precision=e["precision"], **kw))
        if m is None:
            return True
        w.models[e["m"]] = m
        w.handles[e["m"]] = {}
        w.scales[e["m"]] = {}
        return True
    m = w.models[e["m"]]
    handles, scales = w.handles[e["m"]], w.scales[e["m"]]

    if op == "add_choice":
        name, scale = untext(e["name"]), py(e["scale"])
        parent = tuple(untext(p) for p in e["parent"])
        kw = {} if e.get("defscale") else {"logsum_scale": scale}
        adder = m if not parent else handles[parent]
        node = attempt(e, lambda: adder.add_choice(name, **kw))
        if e["res"] == "ok":
            path = parent + (name,)
            for d in (handles, scales):
                for k in [k for k in d if k[:len(path)] == path]:
                    del d[k]
            handles[path] = node
            scales[path] = scale
    elif op == "add_choices":
        names, sc = [untext(n) for n in e["names"]], [py(s) for s in e["scales"]]
        arg = {"list": list, "tuple": tuple, "iter": iter, "gen": lambda x: (y for y in x)}[e["form"]](names)
        kw = {} if e.get("defscale") else {"logsum_scales": {"gen": lambda x: (y for y in x)}.get(e["form"], list)(sc)}
        nodes = attempt(e, lambda: m.add_choices(arg, **kw))
        for n, s in zip(names, sc if len(sc) == len(names) else []):
            if e["res"] != "ok" and (n == "_" or "." in n or not 0 < s <= 1):
                break
            for d in (handles, scales):
                for k in [k for k in d if k[:1] == (n,)]:
                    del d[k]
            if e["res"] == "ok":
                handles[(n,)] = nodes[n]
                scales[(n,)] = s
    elif op == "set_scale":
        path = tuple(untext(p) for p in e["path"])
        attempt(e, lambda: setattr(handles[path], "logsum_scale", py(e["scale"])))
        if e["res"] == "ok":
            scales[path] = py(e["scale"])
    elif op == "set_du":
        if e["form"] == "list":
            du = [label(x) for x in e["du"]]
        else:
            du = make_index(e["du"], e.get("names"))
            if e["form"] == "range":
                du = pd.RangeIndex(du[0], du[-1] + 1)
        attempt(e, lambda: setattr(m, "decision_units", du))
    elif op == "declare":
        w.names.add(e["name"])
        k = e["k"]
        if k == "number":
            attempt(e, lambda: m.declare_number(e["name"]))
        elif k == "vector":
            attempt(e, lambda: m.declare_vector(e["name"], e["o"]))
        elif k == "table":
            attempt(e, lambda: m.declare_table(e["name"], e["o"], mandatory_attributes=set(e["mand"]) or None,
                                               allow_links=e["links"]))
        else:
            kw = {} if e.get("defaults") else dict(reindex_cols=e["rcol"], reindex_rows=e["rrow"], fill_value=py(e["fill"]))
            attempt(e, lambda: m.declare_matrix(e["name"], e["o"], **kw))
    elif op == "assign":
        data = build(w, e["data"])
        attempt(e, lambda: m[e["name"]].assign(data))
    elif op == "append":
        x = e["x"] = dict(e["x"])
        x["raw"] = expr_text(x)
        if x["grp"]:
            w.groups.add(x["grp"])
            attempt(e, lambda: m.expressions.append(x["raw"], group=group_key(x["grp"])))
        elif e.get("setter"):
            attempt(e, lambda: setattr(m, "expressions", [x["raw"]]))
        else:
            attempt(e, lambda: m.expressions.append(x["raw"]))
    elif op == "clear_exprs":
        attempt(e, lambda: m.expressions.clear())
    elif op == "drop_group":
        w.groups.add(e["g"])
        attempt(e, lambda: m.expressions.drop_group(group_key(e["g"])))
    elif op == "clear_scope":
        attempt(e, lambda: m.clear_scope())
    elif op == "validate":
        attempt(e, lambda: m.validate(group=group_key(e["g"]), **flags(e)))
    elif op == "run":
        r = attempt(e, lambda: m.run_stochastic(n_threads=e.get("threads", 1), clear_scope=e["clear"],
                                                group=group_key(e["g"]), check_infeasible=e["check"], **logger(e)))
        note_debug(w, e, m)
        e.update(rows=[], cols=[], pcols=[], u=[])
        if r is not None:
            p, ls, terms = r
            e["rows"] = labels_of(p.index)
            e["pcols"] = choice_labels(p.columns)
            e["cols"] = choice_labels(terms.columns)
            e["u"] = decode_utilities(m, terms, scales, w)
            if not (p.index.equals(terms.index) and ls.index.equals(terms.index)):
                e["rows"] = [[["x", "indexes differ", 0]]]
    elif op == "discrete":
        r = attempt(e, lambda: m.run_discrete(random_seed=e["seed"], n_draws=e["draws"], astype=e["astype"],
                                              clear_scope=e["clear"], n_threads=e.get("threads", 1), **logger(e)))
        note_debug(w, e, m)
        e.update(rows=[], chosen=[])
        if r is not None:
            res, ls = r
            e["rows"] = labels_of(res.index)
            if not ls.index.equals(res.index):
                e["rows"] = [[["x", "indexes differ", 0]]]
            a = np.asarray(res)
            a = a if a.ndim == 2 else a[:, np.newaxis]
            chs = choice_labels(m.choices)
            e["chosen"] = [[chs[int(x)] if e["astype"] == "index" else label_names(x) for x in row] for row in a]
    elif op == "preval":
        attempt(e, lambda: m.preval(group_key(e["g"]), drop_group=e["drop"], cleanup_scope=e["cleanup"],
                                    n_threads=e.get("threads", 1), **logger(e)))
        note_debug(w, e, m)
    elif op == "set_precision":
        attempt(e, lambda: setattr(m, "precision", e["v"]))
    elif op == "plus":
        both = attempt(e, lambda: m.expressions + w.models[e["n"]].expressions)
        e["sum"] = [[], [], [[], []]]
        if both is not None:
            groups = []
            for g in sorted(w.groups):
                try:
                    groups.append([g, [x.raw for x in both.get_group(group_key(g))]])
                except KeyError:
                    pass
            e["sum"] = [list(both.tolist()), groups, symbols_of(both)]
            for g in sorted(w.groups) + [""]:   # Of no consequence to the models
                both.append("1", group=group_key(g))
    elif op == "partial":
        n = len(e["idx"])
        arr = np.array([[py(x) for x in row] for row in e["v"]], dtype=e["dt"]).reshape(n, len(e["cols"]))
        t = w.remember(pd.DataFrame(arr, index=make_index(e["idx"]), columns=make_index(e["cols"])))
        attempt(e, lambda: m.add_partial_utilities(t, reindex_rows=e["rr"], reindex_columns=e["rc"]))
    elif op == "copy":
        if e.get("defaults"):
            n = attempt(e, lambda: m.copy())
        else:
            n = attempt(e, lambda: m.copy(decision_units=e["o_du"], scope_declared=e["o_declared"],
                                          scope_assigned=e["o_assigned"], expressions=e["o_exprs"],
                                          utilities=e["o_utils"]))
        return copied(w, e, n)
    elif op == "subset":
        mask = pd.Series([bool(b) for b in e["mask"]], index=make_index(e["idx"]))
        n = attempt(e, lambda: m.copy_subset(mask))
        return copied(w, e, n)
    elif op == "look":
        attempt(e, lambda: None)
        for key, attr in (("choices", "choices"), ("elemental", "elemental_choices")):
            try:
                e[key] = choice_labels(getattr(m, attr))
                e[key + "_ok"] = True
            except Exception:
                e[key] = []
                e[key + "_ok"] = False
        try:
            e["depth"] = int(m.depth)
        except Exception:
            e["depth"] = -1
        e["precision"] = int(m.precision)
        e["nodes"] = [{"path": [text(x) for x in path], "level": int(node.level), "nkids": int(node.n_children),
                       "parent": bool(node.is_parent), "kids": [text(c.name) for c in node.children()],
                       "full": [text(x) for x in node.full_name.split(".")], "deepest": int(node.max_level()),
                       "scale": project(node.logsum_scale, 100, 1e-12)} for path, node in handles.items()]
    else:
        raise ValueError(op)
    return True


def copied(w, e, n):
    if n is not None:
        w.models[e["n"]] = n
        w.handles[e["n"]] = {}
        w.scales[e["n"]] = dict(w.scales[e["m"]])
    return n is not None
