"""The suites of programs for probabilities and draws."""
from __future__ import annotations

from fractions import Fraction as F

from common import rng
from gen_logit import Tree, rows_for, table
from genlib import *
from vals import PINF, num, text


def labels(r, n):
    how = r.randrange(4)
    if how == 0:
        return [[num(k)] for k in range(n)]
    if how == 1:
        return [[num(k * 3 + 100)] for k in reversed(range(n))]
    if how == 2:
        return [[text("u%d" % k)] for k in range(n)]
    return [[num(k // 2), num(k % 2 + 1)] for k in range(n)]


def model_fields(r, k, nested, jit, small=False, depth=None, **kw):
    """The fields that describe a model with its utilities"""
    while True:
        tree = Tree(r, depth or r.choice((2, 2, 3, 4)) if nested else 1, wide=r.choice((2, 3, 3)), nested=nested,
                    flat_scales=kw.get("unit_nests") or (nested and r.random() < 0.15))
        if len(tree.paths) > 14:
            continue
        scaling = r.random() < 0.7
        n_pat = r.choice((1, 2, 3, 5))
        rows = rows_for(r, tree, scaling, n_pat, small, **kw)
        if rows:
            break
    n = r.choice((1, 2, 5, 17, 40)) if not jit else r.choice((3, 40, 150, 700))
    pat = [r.randrange(n_pat) + 1 for _ in range(n)] if r.random() < 0.7 else [i % n_pat + 1 for i in range(n)]
    f = {"dom": "logit", "nodes": tree.nodes(), "scaling": scaling, "du": labels(r, n), "pat": pat, "large": "big",
         "how": r.choice(("matrix", "matrix", "fortran", "partial", "vectors")), "threads": r.choice((1, 2, 3, 4, 8)) if jit else 1,
         "precision": 4 if small else 8}
    f.update(table(r, tree, rows, shifts=not small))
    return tree, rows, f


def uses(f, k):
    return k + 1 in f["pat"]


def stochastic(prop, nested, n, jit=False):
    out = []
    for k in range(n):
        r = rng(prop, k, jit)
        ops = []
        for step in range(3):
            small = r.random() < 0.2
            tree, rows, f = model_fields(r, k, nested, jit, small, infeasible=0.0 if r.random() < 0.6 else 0.4,
                                         unit_nests=nested and r.random() < 0.1)
            check = r.random() < 0.6
            f.update(op="stochastic", check=check)
            if r.random() < 0.12 and not small:      # Something too large to exponentiate
                at, j = r.randrange(len(rows)), r.randrange(len(tree.paths))
                f["b"] = [list(x) for x in f["b"]]
                f["b"][at][j] = PINF
                f["large"] = r.choice(("big", "inf"))
                f["shift"][at] = 0
            if f["scaling"] and check and r.random() < 0.3:
                f["defaults"] = True
            ops.append(f)
        out.append({"id": "%s-%d" % (prop, k), "interp": "logit", "ops": ops})
    return out


def c01_rows(n):
    return stochastic("C01", False, n)


def c01_parallel(n):
    return stochastic("C01", False, n, jit=True)


def c02_rows(n):
    return stochastic("C02", True, n)


def c02_parallel(n):
    return stochastic("C02", True, n, jit=True)


# ---------------------------------------------------------------------------------------------------------------------
# Draws

def draw_op(r, k, nested, jit, key, **kw):
    tree, rows, f = model_fields(r, k, nested, jit, infeasible=0.0 if r.random() < 0.9 else 0.3,
                                 zero=r.choice((0.1, 0.3, 0.5)))
    n, draws, seed = key
    n_pat = len(rows)
    f["pat"] = [r.randrange(n_pat) + 1 for _ in range(n)]
    f["du"] = labels(r, n)
    f.update(op="draws", n=n, draws=draws, seed=seed, squeeze=r.random() < 0.7, name=r.choice(("", "", "choice")),
             astype=r.choice(("category", "index", "index") if nested else ("category", "index", "index", "str", "O")))
    if f["scaling"] and r.random() < 0.3:
        f["defaults"] = True
    return f


def int_seed(v):
    return {"k": "int", "v": v}


def any_seed(r):
    """Seeds of all sizes and types; a NumPy integer is the same seed as the Python one"""
    s = int_seed(r.randrange(10 ** 4) if r.random() < 0.6 else r.choice((0, 0, 0, 1, 9999, 10000, 65536, 2 ** 31 - 1)))
    if r.random() < 0.2:
        s["as"] = r.choice(("int64", "int32", "uint32"))
    return s


def cells_op(key, count, r=None, **kw):
    n, draws, seed = key
    return dict({"dom": "logit", "op": "cells", "n": n, "draws": draws, "seed": seed, "count": count, "threads": 1}, **kw)


def c03_draws(n, jit=False):
    out = []
    for k in range(n):
        r = rng("C03", k, jit)
        size = r.choice((1, 3, 12, 25)) if not jit else r.choice((30, 200, 400))
        draws = r.choice((1, 1, 1, 2, 4)) if not jit else r.choice((1, 1, 3, 6))
        key = (size, draws, int_seed(r.choice((0, 1, 7, 12345, 2 ** 31 - 1, r.randrange(10 ** 9)))))
        ops = [cells_op(key, 128 if not jit else 2048)]
        for _ in range(4):
            ops.append(draw_op(r, k, r.random() < 0.5, jit, key))
        out.append({"id": "draws-%d" % k, "interp": "logit", "ops": ops})
    return out


def c03_parallel(n):
    return c03_draws(n, jit=True)


def c03_picks(n):
    """Single draws, with zeros in every place and numbers at and around every boundary"""
    out = []
    for k in range(n):
        r = rng("C03p", k)
        ops = []
        for _ in range(12):
            size = r.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17))
            exact = r.random() < 0.6
            while True:
                w = [r.choice((0, 0, 1, 1, 2, 3)) for _ in range(size)]
                if not exact or (sum(w) and bin(sum(w)).count("1") == 1):
                    if sum(w):
                        break
            total = sum(w)
            cums = [sum(w[:j]) for j in range(size + 1)]
            at = r.choice(cums) if r.random() < 0.6 else None
            if at is None:
                rr, side = F(2 * r.randrange(8 * total) + 1, 16 * total), "="
            else:
                rr, side = F(at, total), r.choice("-+=")
                if rr == 0:
                    side = r.choice("+=")
                if rr == 1:
                    side = r.choice("-=")
            by = r.choice(("once", "search", "simple", "logit"))
            ops.append({"dom": "logit", "op": "pick", "w": [num(x) for x in w], "r": num(rr), "side": side, "by": by})
        out.append({"id": "picks-%d" % k, "interp": "logit", "ops": ops})
    return out


def c03_statistics(n):
    """Many draws: uniform and independent"""
    out = []
    for k in range(n):
        r = rng("C03s", k)
        for rows, draws in ((4000, 1), (2000, 3), (2500, 2)):
            ops = [cells_op((rows, draws, int_seed(r.randrange(10 ** 6))), 16, threads=r.choice((1, 4)),
                            **({"by": "weights"} if r.random() < 0.3 else {}))]
            out.append({"id": "stats-%d-%d-%d" % (k, rows, draws), "interp": "logit", "ops": ops})
    return out


# ---------------------------------------------------------------------------------------------------------------------
# C04 Reproducible, whatever the schedule

def noise(r, jit):
    return {"dom": "logit", "op": "noise", "what": r.choice(("numpy", "python", "draw", "run")), "v": r.randrange(1000)}


def c04_histories(n, jit=False):
    out = []
    for k in range(n):
        r = rng("C04", k, jit)
        ops = []
        size = r.choice((2, 9, 30)) if not jit else r.choice((8, 60, 300))
        keys = [(size, r.choice((1, 2, 6)), any_seed(r)) for _ in range(2)]
        if r.random() < 0.5:
            n_, d_, s_ = keys[0]
            keys.append((n_, d_, int_seed(abs(s_["v"] + r.choice((1, 1, 2, 7, 10, 100, 256, 1000, 4096, 10000, 65536, 10 ** 6, 2 ** 30))
                                                  * (-1 if s_["v"] > 2 ** 30 else 1)))))
        count = 64 if not jit else 1024
        states = []
        for name in ("A", "B"):
            if r.random() < 0.7:
                init = r.choice((3, 4))
                ops.append({"dom": "logit", "op": "state", "name": name, "init": init})
                states.append(name)
        for _ in range(7):
            if r.random() < 0.4:
                ops.append(noise(r, jit))
            if states and r.random() < 0.4:
                key = (size, keys[0][1], {"k": "rs", "name": r.choice(states)})
            else:
                key = r.choice(keys)
                if r.random() < 0.2:
                    key = (key[0], key[1], dict(int_seed(key[2]["v"]), **({"as": "int64"} if r.random() < 0.5 else {})))
            threads = r.choice((1, 2, 3, 5, 8)) if jit else 1
            if r.random() < 0.65:
                ops.append(cells_op(key, count, threads=threads))
            else:
                ops.append(draw_op(r, k, r.random() < 0.5, jit, key))
        out.append({"id": "seeds-%d" % k, "interp": "logit", "ops": ops})
    return out


def c04_parallel(n):
    return c04_histories(n, jit=True)
