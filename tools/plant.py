"""Makes the folders of planted bugs from tools/plants/*.py and tries them out.

plant.py make ID...    writes /verif/seeded/ID
plant.py try ID...     tests, demo and checks with and without the change (in copies, mounted over /repo and /verif)
"""
import glob, json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = """#!/bin/bash
# Exits 0 if the behaviour is right. Runs in the root of the repository.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR="$scratch" PYTHONPATH="$PWD"%s
/opt/venv/bin/python "$here/demo.py"
"""


def plants():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "plants", "*.py"))):
        for p in runpy.run_path(f)["PLANTS"]:
            assert p["id"] not in out, p["id"]
            out[p["id"]] = p
    return out


def git(*a, cwd=REPO, **kw):
    return subprocess.run(["git", "-C", cwd, *a], check=True, capture_output=True, text=True, **kw).stdout


def make(p):
    d = os.path.join(HERE, "seeded", p["id"])
    os.makedirs(d, exist_ok=True)
    base = p.get("base", "7b06e36")
    work = "/tmp/plant-make-" + p["id"]
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", REPO, work], check=True)
    try:
        for file, old, new in p["edits"]:
            s = open(os.path.join(work, file)).read()
            assert s.count(old) == 1, (p["id"], file, s.count(old), old)
            original = git("show", base + ":" + file).split("\n")
            gone = [x for x in old.split("\n") if x not in new.split("\n")]
            for x in gone:
                if not any(x in y for y in original):
                    print("NOT ORIGINAL", p["id"], repr(x))
            open(os.path.join(work, file), "w").write(s.replace(old, new))
        diff = git("diff", cwd=work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % ("" if p.get("jit") else " NUMBA_DISABLE_JIT=1"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(p["demo"].strip() + "\n")
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def demo(id):
    r = subprocess.run(["bash", os.path.join(HERE, "seeded", id, "demo.sh")], cwd=REPO, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def attempt(p, checks=True, tests=True):
    """Runs in a mount namespace of its own, in which /repo and /verif are copies"""
    id = p["id"]
    line = [id, p["property"]]
    rc, out = demo(id)
    line.append("demo-clean=%d" % rc)
    if rc:
        print(out)
    subprocess.run(["git", "-C", REPO, "apply", os.path.join(HERE, "seeded", id, "patch.diff")], check=True)
    rc, out = demo(id)
    line.append("demo-bug=%d" % rc)
    if tests:
        subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/plant-%s/tests.json" % id], capture_output=True)
        passed = set(json.load(open("/tmp/plant-%s/tests.json" % id))["passed"])
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        line.append("tests=%s" % ("ok" if all(x in passed for x in stable) else "FAIL"))
    if checks:
        r = subprocess.run(["python3", "check.py", p["property"]], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        line.append("check=%d %s" % (r.returncode, "CAUGHT" if "VIOLATION property=" + p["property"] in r.stdout else "missed"))
    print(*line, flush=True)


def isolated(id, how):
    d = "/tmp/plant-" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        subprocess.run(["cp", "-a", "/repo", "/verif", d], check=True)
        r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && "
                            "exec python3 tools/plant.py _%s %s" % (d, d, how, id)], capture_output=True, text=True)
        print((r.stdout + r.stderr[-1500:]).strip(), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    all_ = plants()
    how, ids = sys.argv[1], sys.argv[2:] or list(all_)
    if how == "make":
        for id in ids:
            make(all_[id])
    elif how.startswith("_"):
        attempt(all_[ids[0]], tests=how == "_try", checks=how != "_demo")
    else:
        with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", 3))) as pool:
            list(pool.map(lambda id: isolated(id, how), ids))
