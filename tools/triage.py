"""Runs a suite and groups the violations: triage.py MODULE FUNCTION N [OUTCOME...]"""
import json, sys
sys.path.insert(0, '/verif/harness'); sys.path.insert(0, '/verif/tools')
from collections import Counter
import importlib
import common
rep = common.Report("X")
common.run_suite(rep, "a", getattr(importlib.import_module(sys.argv[1]), sys.argv[2])(int(sys.argv[3])), jit="jit" in sys.argv)
C = Counter(); ex = {}
for t, c in rep.violations:
    if c.get("died"):
        C["died " + c["died"][-300:]] += 1; ex.setdefault("died", c); continue
    if c.get("problem"): print(c["problem"][:1500])
    for v in c['verdicts'][:1]:
        e = v['event']
        k = (e['op'], e.get('res'), e.get('func'), e.get('do','')[:22], tuple(v['clauses']), (e.get('msg') or '')[:100])
        C[k] += 1; ex.setdefault(k, c)
for k, n in C.most_common(60): print(n, k)
print(rep.ops)
for i, k in enumerate(sorted(ex, key=lambda k: -C[k])):
    json.dump(dict(ex[k], title="%s" % (k,)), open('/tmp/tri%d.json' % i, 'w'))
