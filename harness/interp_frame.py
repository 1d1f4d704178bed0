"""Runs operations on linked frames (specs/Frames.tla)."""
from __future__ import annotations

import ast
import io
import json

import numpy as np
import pandas as pd
from cheval import LinkedDataFrame

from astlib import source
from vals import kind_of, labels_of, make_array, make_index, observe, py, untext

FILL_NAMES = {"i": "INT_NAME", "u": "UINT_NAME", "f": "FLOAT_NAME", "b": "BOOL_NAME", "s": "TEXT_NAME",
              "o": "OBJ_NAME", "c": "CAT_NAME", "t": "TIME_NAME"}


class _Stop(Exception):
    pass


class World:
    def __init__(self, program):
        self.frames = {}
        self.shadows = {}  # The same data as plain frames, with the number of each row in column __row
        self.temps = []
        self.den = program.get("den", 20000)
        self.tol = program.get("tol", 1e-9)
        self.absent = set()  # Frames that could not be made, as the operation is not one for the frame


def run(program, events):
    w = World(program)
    LinkedDataFrame.reset_fill_defaults()
    try:
        for op in program["ops"]:
            e = dict(op)
            ok = execute(w, e)
            if "do" in e:
                e["do"] = json.dumps(e["do"])
            events.append(e)
            if ok is False:
                break
    finally:
        while w.temps:
            try:
                w.temps.pop().__exit__(None, None, None)
            except Exception:
                pass
        LinkedDataFrame.reset_fill_defaults()


def attempt(e, fn):
    try:
        r = fn()
    except Exception as exc:
        e["res"] = type(exc).__name__
        e["errs"] = [c.__name__ for c in type(exc).__mro__]
        e["msg"] = str(exc)[:200]
        return None
    e["res"] = "ok"
    e["errs"] = []
    return r


def describe(e, df):
    """The contents of a frame, for the specification"""
    df = pd.DataFrame(df)
    cols = [str(c) for c in df.columns]
    e["cols"] = cols
    e["kind"] = {str(c): e.get("kinds", {}).get(str(c)) or kind_of(df[c]) for c in df.columns}
    e["data"] = {str(c): [observe(x) for x in df[c]] for c in df.columns}
    e["idx"] = labels_of(df.index)
    e["inames"] = [str(n) for n in df.index.names]


def links_of(w, f):
    df = w.frames[f]
    if not isinstance(df, LinkedDataFrame):
        return []
    try:
        return [str(x) for x in df.link_summary().index]
    except Exception:
        return ["?"]


def set_fill_value(kind, v):
    if v == ["nan"]:
        return {"t": np.datetime64("nat"), "o": None}.get(kind, np.nan)
    if kind == "t":
        return np.datetime64("2000-01-01") + np.timedelta64(v[1], "D")
    return py(v)


def read_back(df, via):
    """The frame read from a file with the data of a plain one"""
    text = df.to_csv(sep="\t" if via == "table" else ",")
    kw = {"index_col": 0, "dtype": dict(df.dtypes)}
    if via == "table":
        return LinkedDataFrame.read_table(io.StringIO(text), **kw)
    return LinkedDataFrame.read_csv(io.StringIO(text), **kw) if via == "csv" else LinkedDataFrame.read_("csv", io.StringIO(text), **kw)


def walk(node, names, how):
    for n in names:
        node = getattr(node, n) if how == "attr" else node[n]
    return node


def note_series(w, e, s, square=False, tol=None):
    if not isinstance(s, pd.Series):
        e["v"], e["idx"], e["kind"] = [["x", "not a series", 0]], [], "?"
        return
    if square:
        s = s * s
    e["v"] = [observe(x, w.den if tol is None else 200, tol or w.tol) for x in s]
    e["idx"] = labels_of(s.index)
    e["kind"] = kind_of(s)


def snapshot(w):
    return {f: pd.DataFrame(df).copy(deep=True) for f, df in w.frames.items()}


def unchanged(w, snap, but=None):
    for f, df in snap.items():
        if f == but:
            continue
        cur = pd.DataFrame(w.frames[f])
        if not (cur.equals(df) and cur.index.equals(df.index) and list(cur.columns) == list(df.columns)):
            return False
    return True


def execute(w, e):
    if e.get("f") in w.absent:
        if "id" in e:
            w.absent.add(e["id"])
        e.update(op="noop", dom="-", res="ok", errs=[], why="not there", intact=True, after={})
        return None
    snap = snapshot(w)
    but = None
    ok = _execute(w, e)
    if e["op"] == "derive" and e.get("inplace"):
        but = e["id"]
    if e["op"] == "rekey":
        but = e["f"]
    e["intact"] = unchanged(w, snap, but) and e.pop("kept", True)
    e["after"] = {f: links_of(w, f) for f in w.frames}
    return ok


LINK_ARGS = ("on", "levels", "on_self", "on_other", "self_levels", "other_levels")


def _labels(ls, scalar):
    out = [x["v"] if x["k"] == "name" else x["n"] for x in ls]
    return out[0] if scalar and len(out) == 1 else out


def _meta(s):
    """The description of one side of a link"""
    where, _, labels = s.partition(": ")
    got = ast.literal_eval(labels) or []
    return [where.rpartition(" ")[2], [{"k": "name", "v": x, "n": 0} if isinstance(x, str) else {"k": "pos", "v": "", "n": x}
                                       for x in got]]


def _execute(w, e):
    op = e["op"]
    if op == "frame":
        index = make_index(e["idx"], e["inames"], len(e["inames"]))
        df = pd.DataFrame({c: make_array(e["dt"].get(c, e["kind"][c]), e["data"][c]) for c in e["cols"]},
                          index=index if len(e["idx"]) else index[:0], columns=e["cols"])
        if e["idx"] == []:
            df.index = index
        shadow = df.copy(deep=True)
        shadow["__row"] = np.arange(1, len(df) + 1)
        w.shadows[e["id"]] = shadow
        w.frames[e["id"]] = attempt(e, lambda: read_back(df, e["via"]) if e.get("via") else LinkedDataFrame(df) if e["ldf"] else df)
        return w.frames[e["id"]] is not None
    if op == "link":
        kw = {k: _labels(e["args"][k], e.get("scalar", True)) for k in LINK_ARGS if e["args"][k]}
        r = attempt(e, lambda: w.frames[e["f"]].link_to(w.frames[e["target"]], e["name"], precompute=e["precompute"], **kw))
        e["agg"] = bool(r) if r is None else r.name == "YES"
        return True
    if op == "derive":
        return derive(w, e)
    if op == "compute":
        attempt(e, lambda: w.frames[e["f"]].compute_indexers(refresh=e["refresh"]))
        return True
    if op == "rekey":
        values = make_array({"O": "s"}.get(w.frames[e["f"]][e["col"]].dtype.kind, w.frames[e["f"]][e["col"]].dtype.kind), e["v"])
        for df in (w.frames[e["f"]], w.shadows[e["f"]]):
            df[e["col"]] = values

        def again():
            for df in w.frames.values():
                if isinstance(df, LinkedDataFrame):
                    df.compute_indexers()
        attempt(e, again)
        return True
    if op == "summary":
        t = attempt(e, lambda: w.frames[e["f"]].link_summary())
        e["table"], e["pre"], e["dir"] = [], {}, []
        if t is not None:
            attributes = set(dir(w.frames[e["f"]]))
            e["dir"] = [str(x) for x in t.index if x in attributes]
            for name, row in t.iterrows():
                e["pre"][str(name)] = "yes" if row["preindexed"] else "no"
                shape = row["target_shape"].strip("()").split(",")
                e["table"].append({"name": str(name), "rows": int(shape[0]), "cols": int(shape[1]),
                                   "chained": bool(row["chained"]), "agg": bool(row["aggregation"]),
                                   "self": _meta(row["on_self"]), "other": _meta(row["on_other"])})
        return True
    if op == "target":
        t = attempt(e, lambda: w.frames[e["f"]].get_link_target(e["name"]))
        e["target"] = "?"
        for f, df in w.frames.items():
            if df is t:
                e["target"] = f
        return True
    if op == "lookup":
        r = attempt(e, lambda: walk(w.frames[e["f"]], e["names"], e["how"]))
        if r is not None and not isinstance(r, pd.Series):
            e["res"], e["errs"] = "NotASeries", []
        elif r is not None:
            note_series(w, e, r)
        return True
    if op == "agg":
        def fn():
            agg = getattr(walk(w.frames[e["f"]], e["path"], e["how"]), e["func"])
            kw = {}
            if e["func"] == "nth":
                kw["n"] = int(py(e["q"]))
            if e["func"] == "quantile":
                kw["q"] = py(e["q"])
            if e.get("setfill"):
                kw["int_fill"] = int(py(e["intfill"]))
            args = [] if e.get("noargs") else [source(e["arg"]) if e["arg"][0] != "col" else e["arg"][1]]
            return agg(*args, **kw)
        r = attempt(e, fn)
        if r is not None:
            note_series(w, e, r, square=e["func"] == "std")
        return True
    if op == "eval":
        loc = {}
        for n, v in e["loc"].items():
            loc[n] = make_array(v["dt"], v["v"]) if v["arr"] else py(v["v"])
        given = {n: np.array(v) for n, v in loc.items()}
        s = e["raw"] if e.get("raw") else source(e["ast"])
        for _ in range(e["nat"]):
            s += " @ A"
        e["raw"] = s
        e.setdefault("cast", True)
        e["out"] = e["out"] or ""
        e["stored"] = True

        def fn():
            f = w.frames[e["f"]]
            if e["out"]:
                out = pd.Series(np.zeros(len(f), dtype=e["out"]), index=f.index)
                got = f.evaluate(s, local_dict=loc, out=out) if e["cast"] else f.evaluate(s, local_dict=loc, out=out,
                                                                                          allow_casting=False)
                e["stored"] = got.equals(out)
                return got
            return f.evaluate(s, local_dict=loc) if loc or e.get("passloc") else f.evaluate(s)
        r = attempt(e, fn)
        e["kept"] = given.keys() == loc.keys() and all(
            given[n].dtype == np.array(v).dtype and given[n].shape == np.shape(v) and given[n].tobytes() == np.array(v).tobytes()
            for n, v in loc.items())
        if r is not None:
            note_series(w, e, r, tol=1e-6 if e["out"] == "f4" else None)
        return True
    if op == "members":
        r = attempt(e, lambda: dir(walk(w.frames[e["f"]], e["path"], e["how"])))
        e["v"] = [str(x) for x in r or []]
        names = {str(c) for df in w.frames.values() for c in df.columns}
        e["idents"] = sorted(x for x in names if x.isidentifier())
        return True
    if op == "export":
        f = w.frames[e["f"]]
        t = attempt(e, lambda: f.to_csv(index=e["index"]))
        e["same"] = t == pd.DataFrame(f).to_csv(index=e["index"])
        return True
    if op == "pivot":
        def names(items, form):
            out = [x["name"] if x.get("col") else source(x["ast"]) for x in items]
            if not out or form == "none":
                return None
            return out[0] if form == "str" and len(out) == 1 else out
        i, c, v = (names(e[k], e["forms"][k]) for k in ("index", "columns", "values"))
        kw = {} if e["func"] == "mean" and e.get("defaultfunc") else {"aggfunc": e["func"]}
        e.setdefault("fill", [])
        if e["fill"]:
            kw["fill_value"] = py(e["fill"][0])
        t = attempt(e, lambda: w.frames[e["f"]].pivot_table(values=v, index=i, columns=c, **kw))
        e["cells"] = []
        if t is not None:
            vnames = [x["name"] if x.get("col") else source(x["ast"]) for x in e["values"]]
            nvalcol = e["forms"]["values"] != "str"
            nc = len(e["columns"])
            for rk, row in t.iterrows():
                rkey = list(rk) if isinstance(rk, tuple) else [rk]
                if not e["index"]:
                    rkey = []
                for ck, x in row.items():
                    ckey = list(ck) if isinstance(ck, tuple) else [ck]
                    if not e["index"]:   # The rows are then the values
                        vn, ckey = rk, ckey
                    elif nvalcol or len(ckey) > nc:
                        vn, ckey = ckey[0], ckey[1:]
                    else:
                        vn = vnames[0]
                    o = observe(x, w.den, w.tol)
                    if o != ["nan"]:
                        e["cells"].append([[observe(k) for k in rkey], [observe(k) for k in ckey], vnames.index(vn) + 1, o])
        return True
    if op in ("setfill", "resetfill", "tempfill"):
        owner = LinkedDataFrame if not e["who"] else w.frames[e["who"]]
        if op == "resetfill":
            attempt(e, lambda: owner.reset_fill_defaults())
            return True
        kw = {FILL_NAMES[k]: set_fill_value(k, v) for k, v in e["fills"].items()}
        if e.get("bad"):
            kw["NO_SUCH_TYPE"] = 0
        if op == "setfill":
            attempt(e, lambda: owner.set_fill_defaults(**kw))
        else:
            def fn():
                cm = owner.temporary_fill_defaults(**kw)
                cm.__enter__()
                w.temps.append(cm)
            attempt(e, fn)
            return e["res"] == "ok"
        return True
    if op == "endfill":
        cm = w.temps.pop()

        def fn():
            if e["error"]:
                try:
                    raise _Stop()
                except _Stop as exc:
                    try:
                        if cm.__exit__(_Stop, exc, exc.__traceback__):
                            raise RuntimeError("the error was swallowed")
                    except _Stop:
                        pass
            else:
                cm.__exit__(None, None, None)
        attempt(e, fn)
        return True
    if op == "colfill":
        f = w.frames[e["f"]]
        k = kind_of(pd.DataFrame(f)[e["col"]]) if e["col"] in f.columns else "f"
        attempt(e, lambda: f.set_column_fill(e["col"], set_fill_value(k, e["v"])))
        return True
    raise ValueError(op)


def _at(df, positions):
    """Labels of rows by their position, whatever the number of rows"""
    return [df.index[p % len(df)] for p in positions] if len(df) else []


def _bits(df, bits):
    return np.array([bool(bits[p % len(bits)]) for p in range(len(df))], dtype=bool)


def _new_label(x, n):
    if isinstance(x, tuple):
        return tuple(_new_label(y, n) for y in x)
    return "new%d" % n if isinstance(x, str) else bool(n % 2) if isinstance(x, (bool, np.bool_)) else 9000 + n


def _reindexed(df, positions):
    """Labels for reindexing: negative numbers stand for new rows"""
    out = []
    for p in positions:
        if p >= 0:
            out.append(df.index[p % len(df)])
        elif p == -1 or len(df) == 0:
            x = df.index[0] if len(df) else 0
            if not any(_new_label(x, -p) == y for y in out):
                out.append(_new_label(x, -p))
        else:
            x = _new_label(df.index[0], -p)
            if x not in out:
                out.append(x)
    if df.index.nlevels > 1:
        return pd.MultiIndex.from_tuples(out, names=df.index.names)
    return pd.Index(out, name=df.index.name)


def apply_op(df, do):
    """One row operation of pandas, on a linked or on a plain frame. Rows are named by their position, modulo the number
    of rows."""
    k, a = do[0], do[1:]
    n = len(df)
    own = [c for c in df.columns if c != "__row"]
    keep = ["__row"] if "__row" in df.columns else []
    if k == "mask":
        return df[_bits(df, a[0])]
    if k == "mask_series":
        return df[pd.Series(_bits(df, a[0]), index=df.index)]
    if k == "loc_mask":
        return df.loc[_bits(df, a[0])]
    if k == "loc_mask_cols":
        return df.loc[_bits(df, a[0]), [c for c in own if c in a[1]] + keep]
    if k == "loc_list":
        return df.loc[_at(df, a[0])]
    if k == "loc_slice":
        x, y = _at(df, a[:2])
        return df.loc[x:y]
    if k == "loc_from":
        return df.loc[_at(df, a[:1])[0]:]
    if k == "loc_callable":
        return df.loc[lambda d: _bits(d, a[0])]
    if k == "iloc_list":
        return df.iloc[[p % n if p >= 0 else -1 - (-p % n) for p in a[0]]]
    if k == "iloc_mask":
        return df.iloc[_bits(df, a[0])]
    if k == "iloc_slice":
        return df.iloc[a[0]:a[1]:a[2]]
    if k == "iloc_rows_cols":
        return df.iloc[a[0]:a[1], [m for m, c in enumerate(df.columns) if c in a[2] or c == "__row"]]
    if k == "slice":
        return df[a[0]:a[1]]
    if k == "head":
        return df.head(a[0])
    if k == "tail":
        return df.tail(a[0])
    if k == "take":
        return df.take([p % n for p in a[0]])
    if k == "sort_values":
        return df.sort_values(a[0], ascending=a[1], kind="mergesort")
    if k == "sort_values_ignore":
        return df.sort_values(a[0], ignore_index=True, kind="mergesort")
    if k == "sort_index":
        return df.sort_index(ascending=a[0], kind="mergesort")
    if k == "sample":
        return df.sample(n=a[0] if a[2] else min(a[0], n), random_state=a[1], replace=a[2])
    if k == "drop":
        return df.drop(_at(df, a[0]))
    if k == "drop_index":
        return df.drop(index=_at(df, a[0]), errors="ignore")
    if k == "drop_col":
        return df.drop(columns=a[0])
    if k == "query":
        return df.query(a[0])
    if k == "filter":
        return df.filter(items=_at(df, a[0]), axis=0)
    if k == "truncate":
        x, y = sorted(_at(df, a[:2]))
        return df.truncate(before=x, after=y)
    if k == "reindex":
        return df.reindex(_reindexed(df, a[0]))
    if k == "reindex_index":
        return df.reindex(index=_reindexed(df, a[0]), copy=False)
    if k == "columns":
        return df[[c for c in own if c in a[0]] + keep]
    if k == "reorder_columns":
        return df[own[::-1] + keep]
    if k == "copy":
        return df.copy(deep=a[0])
    if k == "assign":
        return df.assign(**{a[0]: np.arange(n)})
    if k == "drop_duplicates":
        return df.drop_duplicates(subset=a[0], keep=a[1])
    if k == "dropna":
        return df.dropna(subset=a[0])
    if k == "group":
        groups = list(df.groupby(a[0], sort=a[2]))
        return groups[a[1] % len(groups)][1]
    if k == "group_level":
        groups = list(df.groupby(level=0))
        return groups[a[0] % len(groups)][1]
    if k == "group_function":
        groups = list(df.groupby(_bits(df, a[0])))
        return groups[a[1] % len(groups)][1]
    if k == "get_group":
        g = df.groupby(a[0], sort=True)
        keys = list(g.groups)
        return g.get_group(keys[a[1] % len(keys)])
    if k == "group_head":
        return df.groupby(a[0]).head(a[1])
    if k == "group_tail":
        return df.groupby(a[0]).tail(a[1])
    if k == "group_filter":
        return df.groupby(a[0]).filter(lambda g: len(g) > 1)
    if k == "rename_col":
        return df.rename(columns={a[0]: a[1]})
    if k == "reset_index":
        return df.reset_index(drop=a[0])
    if k == "set_index":
        return df.set_index(a[0])
    if k == "nlargest":
        return df.nlargest(a[0], a[1])
    if k == "nsmallest":
        return df.nsmallest(a[0], a[1])
    if k == "xs":
        return df.xs(df.index.get_level_values(a[1])[a[0] % n], level=a[1], drop_level=False)
    if k == "loc_rows_cols":
        return df.loc[_at(df, a[0]), [c for c in own if c in a[1]] + keep]
    if k == "iloc_single":
        return df.iloc[[a[0] % n]]
    if k == "isin":
        return df[df[a[0]].isin([df[a[0]].iloc[p % n] for p in a[1]])]
    if k == "inplace_sort":
        df.sort_values(a[0], ascending=a[1], inplace=True, kind="mergesort")
        return df
    if k == "inplace_sort_index":
        df.sort_index(ascending=a[0], inplace=True, kind="mergesort")
        return df
    if k == "inplace_drop":
        df.drop(_at(df, a[0]), inplace=True)
        return df
    if k == "inplace_query":
        df.query(a[0], inplace=True)
        return df
    if k == "inplace_dropna":
        df.dropna(subset=a[0], inplace=True)
        return df
    if k == "swaplevel":
        return df.swaplevel()
    if k == "reorder_levels":
        return df.reorder_levels(list(range(df.index.nlevels))[::-1])
    if k == "droplevel":
        return df.droplevel(a[0])
    if k == "rename_axis":
        return df.rename_axis(["renamed%d" % m for m in range(df.index.nlevels)])
    if k == "sort_level":
        return df.sort_index(level=a[0], ascending=a[1], kind="mergesort")
    if k == "fillna":
        return df.fillna({c: 0 for c in own if c in a[0]})
    if k == "eval_new":
        return df.eval("newcol = %s + 1" % a[0])
    if k == "concat":
        return pd.concat([df.iloc[a[0]:], df.iloc[:a[0]]])
    if k == "append":
        return df.append(df.iloc[a[0]:a[0] + 2])
    if k == "merge":
        return df.merge(pd.DataFrame({a[0]: list(dict.fromkeys(df[a[0]]))[::-1][:3], "other": 1}), on=a[0], how=a[1])
    if k == "join":
        return df.join(pd.DataFrame({"other": range(n)}, index=df.index[::-1]))
    if k == "group_apply":
        return df.groupby(a[0], group_keys=False).apply(lambda g: g.iloc[:1])
    if k == "columns_at":
        return df.iloc[:, [m for m, c in enumerate(df.columns) if c in a[0] or c == "__row"]]
    if k == "loc_columns":
        return df.loc[:, [c for c in own if c in a[0]] + keep]
    if k == "reindex_columns":
        return df.reindex(columns=[c for c in own if c in a[0]] + keep)
    if k == "reindex_like":
        return df.reindex_like(df.iloc[::-1])
    if k == "where":
        return df.where(df == df, df)
    if k == "reverse":
        return df[::-1]
    if k == "add_prefix":
        return df.rename(columns={c: "p_" + c for c in own})
    if k == "set_axis":
        return df.set_axis(df.index[::-1], axis=0)
    if k == "explode":
        return df.explode(a[0])
    if k == "sort_columns":
        return df.sort_index(axis=1)
    if k == "combine":
        return df.iloc[:a[0]].combine_first(df.iloc[a[0]:])
    if k == "infer":
        return df.infer_objects()
    if k == "astype":
        return df.astype({a[0]: "float64"})
    if k == "select_dtypes":
        return df.select_dtypes(include="number")
    if k == "inplace_drop_col":
        df.drop(columns=a[0], inplace=True)
        return df
    if k == "inplace_reset":
        df.reset_index(drop=True, inplace=True)
        return df
    if k == "inplace_set":
        df[a[0]] = np.arange(n)
        return df
    if k == "inplace_insert":
        df.insert(0, "ins%d" % len(own), np.arange(n))
        return df
    if k == "inplace_rename":
        df.rename(columns={a[0]: a[1]}, inplace=True)
        return df
    if k == "inplace_index":
        df.index = pd.RangeIndex(500, 500 + n, name="i0")
        return df
    raise ValueError(k)


def derive(w, e):
    """Derives a frame, and the same from a plain frame with numbered rows to see which rows it was made from."""
    try:
        source = w.shadows[e["f"]]
        try:
            shadow = apply_op(source if e.get("inplace") else source.copy(deep=True), e["do"])
        except Exception:
            if e.get("inplace"):
                raise
            e["do"] = ["reverse"]    # Not an operation for this frame
            shadow = apply_op(source.copy(deep=True), e["do"])
        if not isinstance(shadow, pd.DataFrame):
            raise TypeError("not a frame")
    except Exception as exc:
        # Not an operation for this frame (the program is wrong, not cheval)
        e.update(op="noop", dom="-", res="ok", errs=[], why=repr(exc))
        w.absent.add(e["id"])
        return None
    frame = attempt(e, lambda: apply_op(w.frames[e["f"]], e["do"]))
    plain = shadow.drop(columns="__row")
    describe(e, plain)
    e["ldf"] = True
    e["rows"] = [0 if x != x else int(x) for x in shadow["__row"]]
    shadow = shadow.copy()
    shadow["__row"] = np.arange(1, len(shadow) + 1)
    if e["res"] == "ok":
        got = pd.DataFrame(frame)
        e["ldf"] = isinstance(frame, LinkedDataFrame)
        if not isinstance(frame, pd.DataFrame) or not got.index.equals(plain.index) or not got.equals(plain):
            e["res"], e["errs"] = "DifferentFrame", []
            e["msg"] = (repr(got) + repr(plain))[:3000]
            e["links"] = []
            return False
        w.frames[e["id"]] = frame
        w.shadows[e["id"]] = shadow
        e["links"] = links_of(w, e["id"])
        return True
    e["links"] = []
    return False
