"""Plants bugs: python3 tools/plant.py ID...  (definitions in tools/bugs.py)
For each one, in a scratch copy of /repo under /tmp: makes the change, checks that it compiles and that the stable
tests pass, that the demonstration fails with it and passes without it, writes seeded/<id>/, and, with --check, runs the
quick check of its property (and the ones given with --also) against the changed copy."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs
V = "/verif"
SH = """#!/bin/bash
# exit 0: the property holds on the sources of the current directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -std=c++11 -O1 -g -fpermissive -w%s -I"$PWD/src" "$here/demo.cpp" -o "$t/demo" && timeout 100 "$t/demo"
r=$?
[ -e "$t/demo" ] && unlink "$t/demo"
rmdir "$t"
exit $r
"""


def sh(cmd, **k):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)
    return r.returncode, r.stdout + r.stderr


def note(bid, pid, res):
    f = os.path.join(V, "tools", "catch.json")
    d = json.load(open(f)) if os.path.exists(f) else {}
    d.setdefault(bid, {})[pid] = res
    json.dump(d, open(f, "w"), indent=1, sort_keys=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    res = {}
    for b in bugs.BUGS:
        if args and b["id"] not in args:
            continue
        bid = b["id"]
        d = os.path.join(V, "seeded", bid)
        w = "/tmp/plant-" + bid
        shutil.rmtree(w, ignore_errors=True)
        sh(["git", "clone", "-q", "/repo", w])
        p = os.path.join(w, "src", b["file"])
        s = open(p).read()
        ok = True
        for old, new in b["edits"]:
            if s.count(old) < 1 or (s.count(old) != 1 and not b.get("nth")):
                print(bid, "EDIT DOES NOT APPLY (%d)" % s.count(old), old[:60])
                ok = False
                break
            if b.get("nth"):
                i = -1
                for _ in range(b["nth"]):
                    i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            else:
                s = s.replace(old, new)
        if not ok:
            continue
        # lines of the original repository only
        base = open(p).read()
        open(p, "w").write(s)
        rc, diff = sh(["git", "-C", w, "diff"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(SH % b.get("flags", ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc0, out0 = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
        rc1, out1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=w)
        msg = "demo unchanged=%d changed=%d" % (rc0, rc1)
        if rc0 != 0:
            msg += " [" + out0[-300:] + "]"
        # stable tests
        t, out = sh("cd %s && mkdir t && gcc -O2 -c /opt/vp/orpaille/fixed_time.c -o t/f.o && (ls tests/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -Os -O3 -w -fpermissive -Isrc -c {} -o t/$(basename {}).o') && g++ t/*.o -o /tmp/plant-%s-test -lgtest -lpthread && g++ -std=c++11 -w -Isrc -fsyntax-only main.cpp && g++ -std=c++11 -w -Isrc -fsyntax-only main-performance.cpp" % (w, bid))
        tests = "no build " + out[-300:] if t else ""
        if not t:
            rc, lst = sh(["/tmp/plant-%s-test" % bid, "--gtest_list_tests"])
            suite, names = "", []
            for x in lst.splitlines():
                if not x.startswith(" "):
                    suite = x.split()[0]
                elif "DISABLED" not in x:
                    names.append(suite + x.split()[0])
            want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            fails = []
            procs = [(n, subprocess.Popen(["timeout", "120", "/tmp/plant-%s-test" % bid, "--gtest_filter=" + n], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)) for n in names if n in want]
            for n, q in procs:
                if q.wait() != 0:
                    fails.append(n)
            tests = "%d tests, failed: %s" % (len(procs), fails) if fails else "%d tests pass" % len(procs)
            os.unlink("/tmp/plant-%s-test" % bid)
        print(bid, b["property"], "|", msg, "|", tests, flush=True)
        if check:
            for pid in [b["property"]] + list(b.get("also", ())):
                env = dict(os.environ, VERIF_REPO=w, VERIF_OUT="/tmp/plant-out", VERIF_TIER="quick", VERIF_SEED="1")
                rc, out = sh(["python3", V + "/lib/check.py", pid], env=env)
                note(bid, pid, "caught" if rc == 1 and "VIOLATION property=" + pid in out else "missed" if rc == 0 else "exit %d" % rc)
                print("   check %s: exit %d %s" % (pid, rc, "CAUGHT" if rc == 1 and "VIOLATION property=" + pid in out else "MISSED" if rc == 0 else out[-400:]), flush=True)
        shutil.rmtree(w, ignore_errors=True)
    if os.path.exists("/tmp/plant-out"):
        shutil.rmtree("/tmp/plant-out")


main()
