"""Prints a replay file readably."""
import json, sys
sys.path.insert(0, "/verif/harness")
from astlib import source
def val(v):
    if isinstance(v, list) and v and isinstance(v[0], str):
        if v[0] == "n" and len(v) == 3: return str(v[1]) if v[2] == 1 else "%s/%s" % (v[1], v[2])
        if v[0] == "s" and len(v) == 2: return repr("".join(map(chr, v[1])))
        if v[0] == "b" and len(v) == 2: return str(bool(v[1]))
        if len(v) == 1: return v[0]
    if isinstance(v, list): return "[" + ", ".join(val(x) for x in v) + "]"
    if isinstance(v, dict):
        if "ast" in v: 
            return source(v["ast"]) + (" @ " + val(v["flt"]) if v.get("flt") else "") + (" group " + v["grp"] if v.get("grp") else "")
        return "{" + ", ".join("%s: %s" % (k, val(x)) for k, x in v.items()) + "}"
    return str(v)
def show(o, skip=("dom", "m", "after", "errs", "prog", "intact")):
    d = {k: v for k, v in o.items() if k not in skip}
    op = d.pop("op")
    if "arg" in d: d["arg"] = source(d["arg"]) if d["arg"][0] != "col" else d["arg"][1]
    if "ast" in d: d["ast"] = source(d["ast"])
    return op + " " + " ".join("%s=%s" % (k, val(v)) for k, v in d.items())
for f in sys.argv[1:]:
    c = json.load(open(f)); v = c.get("verdicts", [{"op_number": 10**6}])
    print("=====", f, c["title"])
    for i, o in enumerate(c["program"]["ops"][:v[0]["op_number"]+1]):
        print(i, o.get("m", ""), show(o)[:1500])
    for x in v[:3]:
        if "event" in x: print("-->", x["op_number"], x["clauses"], "\n   ", show(x["event"])[:3000]); 
        if not x.get("event",{}).get("intact",True): print("NOT INTACT")
    if c.get("died"): print(c["died"])
