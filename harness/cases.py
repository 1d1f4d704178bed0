"""Checks a specification that enumerates cases, rather than histories, and gives each of them to the implementation."""
from __future__ import annotations

import glob
import json
import os
import shutil
import time

import tlc
from common import MachineryError, rng, run_suite, scratch, thorough
from vals import num

SOME = ("matrix", "fortran", "partial", "vectors")


def cases_of(report, module, cfg, timeout=800):
    work = scratch()
    t0 = time.time()
    try:
        r = tlc.run(module, cfg, work, workers=8, timeout=timeout, heap="8g", env={"OUT": os.path.join(work, "case")})
        if "No error has been found" not in r["out"]:
            raise MachineryError(f"specification {module}: " + tlc.problem(r))
        found = []
        for path in glob.glob(os.path.join(work, "case-*")):
            with open(path) as f:
                found.append(json.load(f))
        report.states += r["distinct"]
        report.transitions += r["generated"]
        report.models.append({"module": module, "config": cfg, "generated": r["generated"], "distinct": r["distinct"],
                              "cases": sum(len(c["b"]) for c in found), "wall_s": round(time.time() - t0, 1)})
        return sorted(found, key=lambda c: json.dumps(c, sort_keys=True))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def stochastic_programs(prop, cases, part):
    """All rows of every case, some at a time, in runs with and without the check for units without a feasible choice"""
    out = []
    for k, c in enumerate(cases):
        r = rng(prop, "case", k)
        rows = list(range(len(c["b"])))
        r.shuffle(rows)
        for at in range(0, len(rows), part):
            some = rows[at:at + part]
            good = [x for x in some if c["possible"][x]]
            bad = [x for x in some if not c["possible"][x]]
            ops = []
            for check, which in ((False, some), (True, good), (True, good[:3] + bad[:1])):
                if not which:
                    continue
                pat = [i % len(which) + 1 for i in range(len(which))]
                ops.append({"op": "stochastic", "dom": "logit", "nodes": c["nodes"], "scaling": c["scaling"], "check": check,
                            "du": [[num(i)] for i in range(len(which))], "pat": pat, "b": [c["b"][x] for x in which],
                            "zeros": [[r.choice(("inf", "big", "huge")) for _ in c["nodes"]] for _ in which],
                            "shift": [r.choice((0, 0, 40, -300, 640)) for _ in which],
                            "how": r.choice(SOME), "large": "big", "threads": 1, "precision": 8})
            out.append({"id": "%s-case-%d-%d" % (prop, k, at), "interp": "logit", "ops": ops})
    return out


def enumerated(prop, module, quick, deep, part=60):
    def run(report):
        cfg = deep if thorough() else quick
        run_suite(report, cfg[:-4], stochastic_programs(prop, cases_of(report, module, cfg), part))
    return run
