"""Runs programs on the real cheval, through its public interface, and records what can be observed.

usage: driver.py PROGRAMS.json TRACE.ndjson

A program is {"id", "ops": [...]}; an operation has the fields of the events in specs/Model.tla and specs/Frames.tla, less
the observations, which are added here. The name of the program being run is kept in TRACE.ndjson.now, to tell which one
was running if the process dies.
"""
from __future__ import annotations

import json
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("CHEVAL_REPO", "/repo"))
warnings.simplefilter("ignore")


def main(programs_file, trace_file):
    import importlib
    with open(programs_file) as f:
        programs = json.load(f)
    interpreters = {}
    with open(trace_file, "w") as out:
        line = 0
        for n, program in enumerate(programs):
            with open(trace_file + ".now", "w") as f:
                f.write(str(n))
            kind = program.get("interp", "model")
            if kind not in interpreters:
                interpreters[kind] = importlib.import_module("interp_" + kind)
            events = [{"op": "reset", "dom": "-"}]
            interpreters[kind].run(program, events)
            for e in events:
                e["prog"] = n
                out.write(json.dumps(e) + "\n")
            out.flush()
    os.remove(trace_file + ".now")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
