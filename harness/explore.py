"""Explores a specification exhaustively with TLC and has the implementation make the transitions that were found.

The transitions are covered by walks from the starts; after every step that changes something, the operations which show
most of the state follow. What the implementation does is judged as any other trace.
"""
from __future__ import annotations

import json
import os
import random
import re
import shutil
import time
from collections import deque

import tlc
from common import MachineryError, rng, run_suite, scratch

LINE = re.compile(r'<<"([IT])", (-?\d+), (-?\d+)(?:, (-?\d+))?>>')
MAPS = ("kind", "data", "dt", "loc", "fills", "seed", "forms")   # Records that may be empty, which look like sequences


def tidy(op):
    """An operation as programs have it"""
    return {k: {} if k in MAPS and v == [] else v for k, v in op.items()}


def states_of(report, module, cfg=None, timeout=600, heap="6g"):
    """Checks a specification and returns its starts, operations, first states and transitions"""
    cfg = cfg or module + ".cfg"
    work = scratch()
    t0 = time.time()
    try:
        out = os.path.join(work, "ops.json")
        r = tlc.run(module, cfg, work, workers=1, timeout=timeout, heap=heap, env={"OUT": out})
        if "No error has been found" not in r["out"]:
            raise MachineryError(f"specification {module}: " + tlc.problem(r))
        with open(out) as f:
            tables = json.load(f)
        first, edges = {}, {}
        for kind, a, b, c in LINE.findall(r["out"]):
            if kind == "I":
                first[int(a)] = int(b)
            else:
                edges.setdefault(int(a), []).append((int(b), int(c)))
        report.states += r["distinct"]
        report.transitions += r["generated"]
        model = {"module": module, "config": cfg, "generated": r["generated"], "distinct": r["distinct"],
                 "wall_s": round(time.time() - t0, 1)}
        report.models.append(model)
        starts = [[tidy(x) for x in s] for s in tables["starts"]]
        return starts, [tidy(x) for x in tables["ops"]], tables["observers"], first, edges, model
    finally:
        shutil.rmtree(work, ignore_errors=True)


def walks(starts, ops, observers, first, edges, r, limit, length):
    """Programs that make (up to limit of) the transitions"""
    every = [(s, k, t) for s in sorted(edges) for k, t in edges[s]]
    todo = set(every if limit is None or limit >= len(every) else r.sample(every, limit))
    wanted = len(todo)
    left = {}
    for s, k, t in sorted(todo):
        left.setdefault(s, []).append((k, t))
    for x in left.values():
        r.shuffle(x)
    # Transitions that change something, for getting on
    nexts = {}
    for s in edges:
        seen = {}
        for k, t in edges[s]:
            if t != s and t not in seen:
                seen[t] = k
        nexts[s] = [(k, t) for t, k in seen.items()]
    watch = {s: [k for k, t in edges[s] if k in observers and t == s] for s in edges}

    def path_to_work(s):
        """The shortest way from s to a state with transitions left to make"""
        if left.get(s):
            return []
        queue, back = deque([s]), {s: None}
        while queue:
            u = queue.popleft()
            for k, t in nexts.get(u, ()):
                if t in back:
                    continue
                back[t] = (u, k)
                if left.get(t):
                    way = []
                    while back[t] is not None:
                        way.append((back[t][1], t))
                        t = back[t][0]
                    return way[::-1]
                queue.append(t)
        return None

    programs = []
    order = sorted(first)
    while True:
        ready = [(n, path_to_work(first[n])) for n in order]
        ready = [(n, p) for n, p in ready if p is not None]
        if not ready:
            break
        n, way = r.choice(ready)
        s, path = first[n], list(starts[n - 1])
        path += [ops[k - 1] for k in watch.get(s, ())]
        steps = 0
        while way is not None and steps < length:
            for k, t in way:
                path.append(ops[k - 1])
                steps += 1
                s = t
            mine = left.get(s)
            if not mine:
                break
            # First those that change nothing
            same = [x for x in mine if x[1] == s]
            for x in same[:2 * length]:
                path.append(ops[x[0] - 1])
                mine.remove(x)
                steps += 1
            onward = [x for x in mine if x[1] != s]
            if onward:
                k, t = onward[-1]
                mine.remove(onward[-1])
                path.append(ops[k - 1])
                steps += 1
                s = t
                path += [ops[k - 1] for k in watch.get(s, ())]
            way = path_to_work(s)
        programs.append(path)
    if any(left.values()):
        raise MachineryError("transitions left")
    return programs, wanted, len(every)


def explored(module, limit, deep=None, interp="model", cfg=None, length=40, name=None, deep_cfg=None, **kw):
    """A part of a check: a specification with its invariants, and the transitions of the implementation"""
    extra = {k: kw.pop(k) for k in ("den", "tol") if k in kw}

    def part(report):
        from common import thorough
        c = (deep_cfg or cfg) if thorough() else cfg
        starts, ops, observers, first, edges, model = states_of(report, module, c)
        n = deep if thorough() else limit
        paths, wanted, every = walks(starts, ops, observers, first, edges, rng("explore", module), n, length)
        model["transitions_made_by_the_implementation"] = wanted
        model["transitions"] = every
        programs = [dict({"id": f"{module}-{k}", "interp": interp, "ops": p}, **extra) for k, p in enumerate(paths)]
        run_suite(report, name or module, programs, **kw)
    return part
