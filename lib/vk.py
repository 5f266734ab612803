"""Runner shared by all checks: builds drivers against /repo, runs TLC, validates traces, writes evidence."""
import collections, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SPEC = os.path.join(VERIF, "spec")
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HOOK = "ORPAILLECC_VERIF"


class MachineryError(Exception):
    """The check itself failed: exit 2, never a verdict."""


class Rejected(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd,
                           text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")) + "\nTIMEOUT"


def java_classes():
    d = os.path.join(OUT, "java")
    os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    h = hashlib.sha1(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    stamp = os.path.join(d, "stamp")
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (os.path.exists(stamp) and open(stamp).read() == h):
            rc, out = sh(["javac", "-cp", TLA, "-d", d] + srcs)
            if rc:
                raise MachineryError("javac failed:\n" + out)
            open(stamp, "w").write(h)
    return d


class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.gen, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out
        self.actions = {}
        for m in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([\d ]+\))?>: (\d+):(\d+)", out, re.M):
            k = m.group(1)
            self.actions[k] = max(self.actions.get(k, 0), int(m.group(4)))

    def last_state(self):
        blocks = re.split(r"^State \d+:.*$", self.out, flags=re.M)
        if len(blocks) < 2:
            return None
        last = blocks[-1].split("\n\n")[0]
        vals = dict(re.findall(r"^/\\ (\w+) = (.*)$", last, re.M))
        if not vals:  # a single variable, or one-line state
            vals = dict(re.findall(r"(\w+) = (\S+)", last))
        return last.strip(), vals

    def error(self):
        m = re.findall(r"^Error: (.*?)$", self.out, re.M)
        m = [x for x in m if "The behavior up to this point" not in x]
        return m[0] if m else "TLC ended with %d" % self.rc


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = os.path.join(OUT, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.cp = TLA + ":" + java_classes()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.parts, self.violations, self.known = [], [], [], []
        self.ops = collections.Counter()
        self.actions = {}
        self.assumptions = []
        self.extra = {}
        self.n = 0
        self.findings = self.load_findings()

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick else t

    def load_findings(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [f for f in json.load(open(p))["findings"] if f["property"] == self.pid]

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- building
    def build(self, name, src, defs=(), san=True, std="c++17", opt="-O1", hook=False, lib=()):
        exe = os.path.join(self.dir, name)
        cmd = ["g++", "-std=" + std, opt, "-g", "-fpermissive", "-w", "-I" + SRC, "-I" + os.path.join(VERIF, "harness")]
        if san:
            cmd += ["-fsanitize=address,bounds-strict", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-fwrapv"]
        if hook:
            cmd += ["-D" + HOOK]
        cmd += ["-D" + d for d in defs] + [os.path.join(VERIF, "harness", src), "-o", exe] + list(lib)
        rc, out = sh(cmd, timeout=600)
        if rc:
            raise MachineryError("the driver %s does not build against %s:\n%s" % (src, SRC, out[-4000:]))
        return exe

    def build_all(self, specs):
        """specs: list of kwargs for build; parallel."""
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda k: self.build(**k), specs))

    # ---------------------------------------------------------------- drivers
    def drive(self, exe, args=(), name=None, timeout=300, seed=None):
        """Run a driver.  It writes one history per line; a crash, failed assertion or hang inside the
        library becomes a CRASH event, which no specification allows."""
        self.n += 1
        f = os.path.join(self.dir, (name or os.path.basename(exe)) + "-%d.ndjson" % self.n)
        env = {"TRACE_OUT": f, "SEED": str(self.seed if seed is None else seed), "TIER": self.tier}
        rc, out = sh([exe] + [str(a) for a in args], timeout=timeout, env=env)
        if rc == 77:
            self.log("driver", os.path.basename(exe), "recorded a crash/hang of the library")
        elif rc != 0:
            raise MachineryError("driver %s ended with %d\n%s" % (exe, rc, out[-3000:]))
        return f

    def drive_all(self, jobs, timeout=300):
        with ThreadPoolExecutor(8) as ex:
            fs = []
            for j in jobs:
                fs.append(ex.submit(self.drive, *j[:1], **dict(j[1], timeout=timeout)))
                time.sleep(0.005)
            return [f.result() for f in fs]

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, timeout=800, extra=(), heap="6g"):
        self.n += 1
        meta = os.path.join(self.dir, "meta%d" % self.n)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + self.dir, "-cp", self.cp, "-DTLA-Library=" + SPEC, "tlc2.TLC",
               "-config", os.path.join(SPEC, cfg), "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
               "-fp", "7", "-lncheck", "final"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        rc, out = sh(cmd, timeout=timeout, env=env, cwd=self.dir)
        shutil.rmtree(meta, ignore_errors=True)
        open(os.path.join(self.dir, "tlc-%s-%d.log" % (cfg, self.n)), "w").write(out)
        return Tlc(rc, out)

    def mc(self, module, cfg=None, env=None, must=(), timeout=800, heap="6g", workers=8):
        """Exhaustive model checking of the specification itself."""
        r = self.tlc(module, cfg or module + ".cfg", env=env, extra=["-coverage", "1"], timeout=timeout, heap=heap, workers=workers)
        if not r.ok:
            raise MachineryError("the specification %s fails its own check: %s\n%s" % (module, r.error(), r.out[-3000:]))
        for a in must:
            if not r.actions.get(a):
                raise MachineryError("action %s of %s is never taken (%s)" % (a, module, r.actions))
        self.states += r.distinct
        self.transitions += r.gen
        self.actions[cfg or module] = {k: v for k, v in r.actions.items() if v and not k.startswith("Trace")}
        self.parts.append("TLC %s/%s: %d distinct states, %d transitions, exhaustive" % (module, cfg or module + ".cfg", r.distinct, r.gen))
        self.log(self.parts[-1])
        return r

    def edges(self, module, cfg, key="EDGE", timeout=400):
        """All transitions of a small instance, printed by its ACTION_CONSTRAINT as JSON [from, act, to]."""
        r = self.tlc(module, cfg, workers=1, timeout=timeout)
        if not r.ok:
            raise MachineryError("cannot enumerate %s/%s: %s\n%s" % (module, cfg, r.error(), r.out[-2000:]))
        es = []
        for line in r.out.splitlines():
            if line.startswith('"' + key):
                es.append(json.loads(json.loads(line)[len(key):]))
        if not es:
            raise MachineryError("no transition printed by %s/%s" % (module, cfg))
        self.states += r.distinct
        self.transitions += r.gen
        self.parts.append("state graph of %s/%s: %d states, %d transitions, each one replayed in the implementation" % (module, cfg, r.distinct, len(es)))
        return es

    @staticmethod
    def walks(edges, maxlen=400):
        """Op sequences from the initial state that together take every edge."""
        key = lambda s: json.dumps(s, sort_keys=True)
        adj = collections.OrderedDict()
        init = None
        for e in edges:
            f, t = key(e["from"]), key(e["to"])
            if e.get("init"):
                init = f
            adj.setdefault(f, []).append([e["act"], t, False])
            adj.setdefault(t, [])
        if init is None:
            init = key(edges[0]["from"])
        left = len(edges)
        out = []
        while left:
            cur, walk = init, []
            progressed = False
            while len(walk) < maxlen:
                nxt = next((x for x in adj[cur] if not x[2]), None)
                if nxt is not None:
                    nxt[2] = True
                    left -= 1
                    progressed = True
                    walk.append(nxt[0])
                    cur = nxt[1]
                    continue
                # BFS to the closest node with an unused edge
                prev = {cur: None}
                q = collections.deque([cur])
                goal = None
                while q:
                    u = q.popleft()
                    if any(not x[2] for x in adj[u]):
                        goal = u
                        break
                    for x in adj[u]:
                        if x[1] not in prev:
                            prev[x[1]] = (u, x[0])
                            q.append(x[1])
                if goal is None:
                    break
                path = []
                while prev[goal] is not None:
                    u, a = prev[goal]
                    path.append((a, goal))
                    goal = u
                for a, v in reversed(path):
                    walk.append(a)
                    cur = v
            out.append(walk)
            if not progressed:
                break
        return out

    # ---------------------------------------------------------------- traces
    def validate(self, module, files, cfg=None, what="", timeout=800, chunks=None, heap="3g", need_ops=(), cover=None, need_cover=()):
        """Every recorded history has to be a behaviour of the specification."""
        files = [files] if isinstance(files, str) else list(files)
        lines = []
        for f in files:
            if os.path.exists(f):
                lines += [x for x in open(f, encoding="utf-8", errors="replace").read().split("\n") if x]
        if not lines:
            raise MachineryError("no history recorded for %s" % module)
        nev, ops = 0, collections.Counter()
        weights = []
        early = [x for x in lines if x.startswith('{"cfg":{"crash"')]
        lines = [x for x in lines if not x.startswith('{"cfg":{"crash"')]
        for x in early:  # no specification allows the library to crash
            h = json.loads(x)
            self.violation({"property": self.pid, "module": module, "cfg": cfg or module + ".cfg", "tlc": "crash before any operation",
                            "event_index": 1, "event": h["ev"][0], "history": h, "last_state": None})
        if not lines:
            return False
        for x in lines:
            c = collections.Counter(re.findall(r'"op":"(\w+)"', x))
            ops += c
            w = sum(c.values())
            nev += w
            weights.append(w)
        cov = collections.Counter()
        if cover:  # what the histories exercised (vacuity control and evidence)
            for x in lines:
                try:
                    cov.update(cover(json.loads(x)))
                except (KeyError, IndexError, TypeError):
                    pass
            self.extra.setdefault("exercised", {}).update(cov)
        k = chunks or max(1, min(8, nev // 1500))
        buckets = [[] for _ in range(k)]
        load = [0] * k
        for x, w in sorted(zip(lines, weights), key=lambda p: -p[1]):
            i = load.index(min(load))
            buckets[i].append((x, w))
            load[i] += w + 5
        buckets = [b for b in buckets if b]
        cfgf = cfg or module + ".cfg"

        def one(ib):
            i, b = ib
            tf = os.path.join(self.dir, "%s-%d-chunk%d.ndjson" % (module, self.n + 1000 + i, i))
            open(tf, "w").write("\n".join(x for x, _ in b) + "\n")
            r = self.tlc(module, cfgf, env={"TRACE": tf}, workers=2 if k > 3 else 4, timeout=timeout, heap=heap)
            return b, r, tf

        with ThreadPoolExecutor(4 if k > 3 else 2) as ex:
            res = list(ex.map(one, enumerate(buckets)))
        bad = []
        for b, r, tf in res:
            if r.ok:
                want = sum(w for _, w in b) + len(b)
                if r.distinct < want:
                    raise MachineryError("%s visited %d states for %d events" % (module, r.distinct, want))
                os.unlink(tf)
            else:
                bad.append((b, r))
            self.states += r.distinct
            self.transitions += r.gen
            n = r.out.count('"UNJUDGED"')
            if n:
                self.extra["events_not_judged"] = self.extra.get("events_not_judged", 0) + n
        self.events += nev
        self.ops += ops
        good = sum(len(b) for b, r, _ in res if r.ok)
        self.traces += good
        if lines and len(self.samples) < 6:
            s = min(lines, key=len)
            m = lines[len(lines) // 2]
            for x in (s, m):
                if len(self.samples) < 6:
                    self.samples.append({"module": module, "history": x if len(x) < 1500 else x[:1500] + "..."})
        msg = "%s%s: %d histories, %d events validated against the implementation" % (module, " (" + what + ")" if what else "", len(lines), nev)
        self.parts.append(msg)
        self.log(msg, dict(ops), dict(cov) or '', {k: v for k, v in self.extra.items() if k == 'events_not_judged'} or '')
        for b, r in bad:
            self.reject(module, cfgf, b, r)
        if not self.violations:
            for o in need_ops:
                if not ops.get(o):
                    raise MachineryError("no event %s in the histories for %s" % (o, module))
            for o in need_cover:
                if not cov.get(o):
                    raise MachineryError("the histories for %s never exercise: %s" % (module, o))
        return not bad

    def reject(self, module, cfgf, bucket, r):
        if "StackOverflowError" in r.out or "OutOfMemoryError" in r.out:
            raise MachineryError("TLC ran out of memory on %s: %s\n%s" % (module, r.error(), r.out[-2000:]))
        ls = r.last_state()
        if not ls or "tid" not in ls[1]:
            raise MachineryError("TLC failed on %s: %s\n%s" % (module, r.error(), r.out[-3000:]))
        tid = int(ls[1]["tid"])
        line = bucket[tid - 1][0]
        one = os.path.join(self.dir, "%s-rejected-%d.ndjson" % (module, len(self.violations)))
        open(one, "w").write(line + "\n")
        r2 = self.tlc(module, cfgf, env={"TRACE": one}, workers=1)
        ls2 = r2.last_state()
        if r2.ok or not ls2 or "l" not in ls2[1]:
            raise MachineryError("a rejection by %s did not repeat: %s" % (module, r.error()))
        l = int(ls2[1]["l"])
        evs = json.loads(line)
        ev = evs["ev"][l - 1] if l <= len(evs["ev"]) else None
        prev = evs["ev"][l - 2] if l >= 2 else None
        detail = {"property": self.pid, "module": module, "cfg": cfgf, "tlc": r2.error(), "event_index": l, "event": ev,
                  "previous_event": prev, "last_state": ls2[0], "history": evs}
        self.violation(detail)

    def violation(self, detail):
        for f in self.findings:
            if f.get("match") and all(json.dumps(_get(detail, k), sort_keys=True) == json.dumps(v, sort_keys=True) for k, v in f["match"].items()):
                self.known.append(f)
                return
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        json.dump(detail, open(p, "w"), indent=1)
        self.violations.append(p)
        self.log("REJECTED by %s: %s; event %s = %s" % (detail.get("module"), detail.get("tlc"), detail.get("event_index"), json.dumps(detail.get("event"))[:600]))
        self.log("specification state:", (detail.get("last_state") or "")[:1500])

    # ---------------------------------------------------------------- end
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "events_by_kind": dict(self.ops), "spec_actions": self.actions,
               "parts": self.parts, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for f in {x["id"]: x for x in self.known}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        for p in self.violations[:1]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        if not self.violations:
            self.log("held on everything explored")
            # keep only small files
            for f in glob.glob(os.path.join(self.dir, "*")):
                if os.path.isfile(f) and not f.endswith(".log"):
                    os.unlink(f)
        sys.stdout.flush()
        return 1 if self.violations else 0


def _get(d, path):
    for k in path.split("."):
        if isinstance(d, list):
            k = int(k)
            d = d[k] if k < len(d) else None
        else:
            d = (d or {}).get(k)
    return d
