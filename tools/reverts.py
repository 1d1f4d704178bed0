"""Undoes each repair of known-findings.json in turn (in a mount namespace of its own) and runs the property's check.

reverts.py [COMMIT...]
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def attempt(commit, props):
    r = subprocess.run("git -c user.name=x -c user.email=x@x revert --no-commit %s && git reset -q" % commit, shell=True, cwd="/repo",
                       capture_output=True, text=True)
    if r.returncode:
        conflicts = subprocess.run(["git", "-C", "/repo", "diff", "--name-only", "--diff-filter=U"], capture_output=True, text=True).stdout.split()
        print(commit, "CONFLICT", conflicts)
        return
    for p in props.split(","):
        r = subprocess.run(["python3", "check.py", p], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        print(commit, p, r.returncode, "CAUGHT" if "VIOLATION property=" + p in r.stdout else "missed " + r.stdout[-300:], flush=True)
        if "VIOLATION" in r.stdout:
            break


def isolated(commit, props):
    d = "/tmp/revert-" + commit
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        subprocess.run(["cp", "-a", "/repo", "/verif", d], check=True)
        r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && "
                            "exec python3 tools/reverts.py _ %s %s" % (d, d, commit, props)], capture_output=True, text=True)
        print((r.stdout + r.stderr[-1500:]).strip(), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1:2] == ["_"]:
        attempt(*sys.argv[2:])
    else:
        todo = [(f["commit"], f["property"]) for f in json.load(open(os.path.join(HERE, "known-findings.json")))["findings"]
                if f["status"] == "fixed" and (not sys.argv[1:] or f["commit"] in sys.argv[1:])]
        with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", 3))) as pool:
            list(pool.map(lambda x: isolated(*x), todo))
