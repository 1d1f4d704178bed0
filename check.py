#!/usr/bin/env python3
"""Decides one property: check.py ID [--replay FILE]

Runs the exhaustive specifications and the conformance suites of the property. See DESIGN.md.
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True

import common  # noqa: E402


def main(argv):
    prop = argv[0]
    import registry
    if len(argv) > 2 and argv[1] == "--replay":
        with open(argv[2]) as f:
            c = json.load(f)
        report = common.Report(prop)
        common.run_suite(report, c["suite"], [c["program"]], jit=c["jit"], module=c["module"], cfg=c["cfg"])
        for title, content in report.violations:
            print("VIOLATION property=%s replay=%s" % (prop, argv[2]))
            print(json.dumps(content.get("verdicts", content.get("died")), indent=1)[:20000])
        return 1 if report.violations else 0
    report = common.Report(prop)
    try:
        registry.CHECKS[prop].run(report)
        return common.finish(report, registry.CHECKS[prop].level, registry.CHECKS[prop].technique)
    except common.MachineryError as e:
        print("ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
