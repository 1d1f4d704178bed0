"""Running suites of programs and reporting what they show."""
from __future__ import annotations

import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import tlc

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PYTHON = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
REPO = os.environ.get("CHEVAL_REPO", "/repo")


def rng(*key):
    """A random generator for a purpose, from the seed of the run"""
    h = hashlib.sha256(repr((SEED,) + key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def thorough():
    return TIER == "thorough"


class MachineryError(Exception):
    pass


class Report:
    """What a check did and found"""

    def __init__(self, prop):
        self.prop = prop
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.programs = 0
        self.samples = []
        self.models = []
        self.suites = []
        self.violations = []   # [(title, replay content)]
        self.findings = []
        self.assumptions = []
        self.ops = {}

    def violation(self, title, content):
        self.violations.append((title, content))


def scratch():
    base = os.path.join(ROOT, ".work")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix="run-", dir=base)


def driver_env(jit=False, extra=None):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CHEVAL_REPO=REPO, OMP_NUM_THREADS="1",
               NUMEXPR_MAX_THREADS="8", PYTHONWARNINGS="ignore")
    if jit:
        env.pop("NUMBA_DISABLE_JIT", None)
        env["NUMBA_CACHE_DIR"] = numba_cache()
    else:
        env["NUMBA_DISABLE_JIT"] = "1"
    env.update(extra or {})
    return env


def numba_cache():
    """A directory for compiled code, for exactly this version of the numerical core"""
    h = hashlib.sha256()
    with open(os.path.join(REPO, "cheval", "core.py"), "rb") as f:
        h.update(f.read())
    d = os.path.join(ROOT, ".cache", "numba-" + h.hexdigest()[:16])
    os.makedirs(d, exist_ok=True)
    return d


def run_shard(n, programs, work, jit, timeout, module, cfg):
    pf, tf = os.path.join(work, f"p{n}.json"), os.path.join(work, f"t{n}.ndjson")
    with open(pf, "w") as f:
        json.dump(programs, f)
    died = None
    try:
        p = subprocess.run([PYTHON, "-B", os.path.join(HERE, "driver.py"), pf, tf], env=driver_env(jit),
                           capture_output=True, text=True, timeout=timeout, cwd=work)
        if p.returncode != 0:
            died = f"exit {p.returncode}: {p.stderr[-3000:]}"
    except subprocess.TimeoutExpired:
        died = f"no end after {timeout} s"
    res = {"died": died, "at": None, "bad": [], "events": [], "generated": 0, "distinct": 0}
    if died:
        if not os.path.exists(tf + ".now"):
            raise MachineryError(f"driver: {died}")
        with open(tf + ".now") as f:
            res["at"] = int(f.read())
        # This includes results that have so unexpected a form that they cannot even be recorded
    events = []
    if os.path.exists(tf):
        with open(tf) as f:
            for line in f:
                if line.endswith("\n"):
                    events.append(json.loads(line))
    res["events"] = events
    if not events:
        return res
    if died:
        with open(tf, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
    r = tlc.run(module, cfg, work, env={"TRACE": tf}, timeout=timeout, heap="2500m")
    res["bad"] = tlc.bad_lines(r["out"])
    if "Model checking completed. No error has been found" not in r["out"]:
        line = tlc.stopped_at(r["out"])
        if line is None or not 1 <= line <= len(events):
            raise MachineryError("TLC: " + tlc.problem(r))
        # An observation of a form that the specification cannot even interpret
        res["bad"].append((line, ["the observation has a form that the specification allows"]))
        res["problem"] = tlc.problem(r)
    res["generated"], res["distinct"] = r["generated"], r["distinct"]
    return res


def warm_up(work):
    """Compiles the numerical core once, before several processes need it"""
    subprocess.run([PYTHON, "-B", "-c", "import sys; sys.path.insert(0, %r); import cheval.core" % REPO],
                   env=driver_env(True), capture_output=True, timeout=600, cwd=work)


def run_suite(report, name, programs, jit=False, shards=8, timeout=600, module="Trace", cfg="Trace.cfg"):
    """Runs programs on the real code and checks the traces against the specification."""
    if not programs:
        return
    work = scratch()
    t0 = time.time()
    try:
        if jit:
            warm_up(work)
        shards = max(1, min(shards, len(programs)))
        parts = [list(range(k, len(programs), shards)) for k in range(shards)]
        with ThreadPoolExecutor(shards) as ex:
            futs = [ex.submit(run_shard, k, [programs[i] for i in part], work, jit, timeout, module, cfg)
                    for k, part in enumerate(parts)]
            results = [f.result() for f in futs]
        nbad = skipped = 0
        for part, r in zip(parts, results):
            evs = r["events"]
            report.events += len(evs)
            report.states += r["distinct"]
            report.transitions += max(0, r["generated"] - 1)
            done = {e["prog"] for e in evs}
            report.traces += len(done)
            report.programs += len(done)
            for e in evs:
                key = e["op"] if e.get("res", "ok") == "ok" else e["op"] + "!" + e["res"]
                report.ops[key] = report.ops.get(key, 0) + 1
                skipped += e["op"] == "skip"
            by_prog = {}
            for line, clauses in r["bad"]:
                e = evs[line - 1]
                by_prog.setdefault(e["prog"], []).append((line, clauses, e))
            for k, items in sorted(by_prog.items()):
                nbad += 1
                prog = programs[part[k]]
                first = min(i for i, e in enumerate(evs) if e["prog"] == k)
                verdicts = [{"op_number": line - 2 - first, "op": e["op"], "clauses": clauses, "event": e}
                            for line, clauses, e in items]
                report.violation(f"{name}: {verdicts[0]['op']}: {'; '.join(verdicts[0]['clauses'])}",
                                 {"suite": name, "jit": jit, "module": module, "cfg": cfg, "program": prog,
                                  "verdicts": verdicts[:5], "problem": r.get("problem", "")[:3000]})
            if r["died"]:
                nbad += 1
                report.violation(f"{name}: the process running cheval died or hung ({r['died'][:200]})",
                                 {"suite": name, "jit": jit, "module": module, "cfg": cfg, "verdicts": [],
                                  "program": programs[part[r["at"]]], "died": r["died"]})
        if skipped and not nbad:
            raise MachineryError(f"{name}: {skipped} operations could not be run, but nothing is wrong")
        if len(report.samples) < 3:
            evs = results[0]["events"]
            report.samples.append({"suite": name, "trace": [trim(e) for e in evs[1:6]]})
        report.suites.append({"suite": name, "programs": len(programs), "events": sum(len(r["events"]) for r in results),
                              "failing": nbad, "wall_s": round(time.time() - t0, 1)})
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def trim(e):
    e = {k: v for k, v in e.items() if k not in ("after", "errs", "intact", "prog", "dom")}
    s = json.dumps(e)
    return e if len(s) < 1500 else {"op": e["op"], "text": s[:1500]}


def check_model(report, module, cfg, workers=8, timeout=800, min_states=1, extra=(), heap="12g", env=None):
    """Checks a specification exhaustively. It has to hold: this does not depend on the implementation."""
    work = scratch()
    t0 = time.time()
    try:
        r = tlc.run(module, cfg, work, workers=workers, timeout=timeout, extra=extra, heap=heap, env=env)
        if "No error has been found" not in r["out"] or r["distinct"] < min_states:
            raise MachineryError(f"specification {module} with {cfg}: " + tlc.problem(r))
        report.states += r["distinct"]
        report.transitions += r["generated"]
        report.models.append({"module": module, "config": cfg, "generated": r["generated"], "distinct": r["distinct"],
                              "wall_s": round(time.time() - t0, 1)})
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------------------

def known_findings():
    path = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x.get("status") == "open"]


def is_known(prop, content):
    """The listed finding that a violation is, if any: the same program, failing in the same operation and clauses"""
    prog = content.get("program", {})
    for k in known_findings():
        if k["property"] == prop and prog.get("finding") == k["id"] and not content.get("died"):
            if all(v["op_number"] == k["op_number"] and v["clauses"] == k["clauses"] for v in content["verdicts"]):
                return k
    return None


def finish(report, level, technique):
    """Prints the verdict, writes the evidence and returns the exit code"""
    new, seen = [], {}
    for title, content in report.violations:
        k = is_known(report.prop, content)
        if k:
            seen[k["id"]] = k
        else:
            new.append((title, content))
    for k in seen.values():
        print(f"KNOWN-FINDING: property={report.prop} {k['what']}")
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    shown = 0
    for title, content in new:
        if shown >= 5:
            break
        shown += 1
        h = hashlib.sha256(json.dumps(content, sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(ROOT, "replays", f"{report.prop}-{h}.json")
        with open(path, "w") as f:
            json.dump(dict(content, property=report.prop, title=title), f, indent=1)
        print(f"VIOLATION property={report.prop} replay={path}")
        print(f"  {title}"[:600])
    wall = time.time() - report.start
    ev = {"property": report.prop, "technique": technique, "level": level, "tier": TIER, "seed": SEED,
          "coverage": {"states": report.states, "transitions": report.transitions,
                       "traces_validated_against_impl": report.traces, "samples": report.samples[:5],
                       "evaluations": report.events,
                       "explanation": json.dumps({"models": report.models, "suites": report.suites,
                                                  "operations": dict(sorted(report.ops.items()))})},
          "assumptions": report.assumptions,
          "wall_s": round(wall, 1), "violations": len(new)}
    write_evidence(ev)
    print(f"{report.prop}: {report.programs} programs, {report.events} events checked against the specification, "
          f"{report.states} states, {len(new)} violations, {wall:.1f} s")
    return 1 if new else 0


def write_evidence(ev):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ev["property"] + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
