"""Reverts each "fix:" commit of /repo in a scratch clone and runs the quick check of its property: python3 tools/revert.py [HASH...]
Results in tools/reverts.json."""
import json, os, shutil, subprocess, sys
V = "/verif"


def sh(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, **k)
    return r.returncode, r.stdout + r.stderr


f = os.path.join(V, "tools", "reverts.json")
for x in json.load(open(V + "/known_findings.json"))["fixed"]:
    _, prop, h, what = x.split(" ", 3)
    pid = prop.split("=")[1]
    if len(sys.argv) > 1 and h not in sys.argv[1:]:
        continue
    w = "/tmp/revert-" + h
    shutil.rmtree(w, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", w])
    rc, out = sh(["git", "-C", w, "-c", "user.name=x", "-c", "user.email=x", "revert", "--no-edit", h])
    if rc:
        res = "does not revert cleanly"
    else:
        env = dict(os.environ, VERIF_REPO=w, VERIF_OUT="/tmp/revert-out", VERIF_TIER="quick", VERIF_SEED="1")
        rc, out = sh(["python3", V + "/lib/check.py", pid], env=env)
        res = "caught" if rc == 1 and "VIOLATION property=" + pid in out else "missed" if rc == 0 else "exit %d: %s" % (rc, out[-200:])
    print(h, pid, res, what[:70], flush=True)
    d = json.load(open(f)) if os.path.exists(f) else {}
    d[h] = {"property": pid, "result": res}
    json.dump(d, open(f, "w"), indent=1, sort_keys=True)
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree("/tmp/revert-out", ignore_errors=True)
print("done")
