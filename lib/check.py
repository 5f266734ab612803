"""python3 lib/check.py C01        run the check of a property
   python3 lib/check.py --replay F  validate the history of a replay file again"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vk


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        c = vk.Check(d["property"] + "-replay")
        f = os.path.join(c.dir, "t.ndjson")
        open(f, "w").write(json.dumps(d["history"]) + "\n")
        r = c.tlc(d["module"], d["cfg"], env={"TRACE": f}, workers=1)
        print(r.out)
        return 0 if r.ok else 1
    pid = sys.argv[1]
    mod = importlib.import_module("props")
    try:
        c = vk.Check(pid)
        getattr(mod, pid)(c)
        return c.finish()
    except vk.MachineryError as e:
        print("MACHINERY ERROR in %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
