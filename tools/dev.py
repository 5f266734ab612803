"""python3 tools/dev.py C24 SEED...   the conformance part of a check only, for several seeds"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
pid = sys.argv[1]
for s in sys.argv[2:]:
    os.environ["VERIF_SEED"] = s
    os.environ["VERIF_OUT"] = "/tmp/dev-%s-%s" % (pid, s)
    if os.fork() == 0:
        import vk, props
        c = vk.Check(pid)
        c.mc = lambda *a, **k: None
        getattr(props, pid)(c)
        os._exit(c.finish())
    os.wait()
