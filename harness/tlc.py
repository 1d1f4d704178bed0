"""Runs TLC."""
from __future__ import annotations

import json
import os
import re
import subprocess

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")


class TlcError(Exception):
    pass


def run(module, cfg, workdir, env=None, workers=1, timeout=600, extra=(), heap="3g", spec_dir=SPECS):
    """Runs TLC on specs/MODULE.tla and returns its output, states and transitions."""
    meta = os.path.join(workdir, "meta-" + os.path.basename(cfg))
    cmd = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + workdir, "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-nowarning", "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg, *extra, module]
    full = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=spec_dir, env=full, capture_output=True, text=True, timeout=timeout)
    out = p.stdout
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
    return {"out": out, "err": p.stderr, "code": p.returncode, "generated": gen, "distinct": dist}


BAD = re.compile(r'<<"BAD", (\d+), "(.*)">>')


def bad_lines(out):
    """The verdicts that a trace specification printed: [(line, [clauses])]"""
    res = []
    for m in BAD.finditer(out):
        res.append((int(m.group(1)), json.loads(m.group(2).encode().decode("unicode_escape"))))
    return res


def problem(r):
    """The telling part of the output of a failed run"""
    out = r["out"]
    k = out.find("Error:")
    return out[k:k + 3000] + " ... " + out[-1500:] + r["err"][-1000:]


def stopped_at(out):
    """The line that was being judged when the evaluation of a trace specification failed"""
    found = re.findall(r"^/?\\?\s*(?:/\\ )?l = (\d+)", out, re.M)
    return int(found[-1]) if found else None
