"""python3 tools/mutate.py FILE.hpp COUNT SEED [JOBS]   mutation runs: random small changes of a header in copies of /repo under /tmp.
A mutant that compiles and passes the unit tests of its header is given to the quick checks of the header (conformance part) until one
reports it; prints the survivors. They are either equivalent for every property or a gap of the checks."""
import os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROPS = {"bloom_filter": "C01", "cuckoo_filter": "C02 C03 C04", "reservoir_sampling": "C05 C07 C06", "chained_reservoir": "C09 C08", "ltc": "C10 C11", "mc_nn": "C12 C13",
         "hoeffding_tree": "C14 C15", "naive_bayes": "C16", "perceptron": "C17 C18", "mondrian": "C19 C20 C22 C21", "mondrian_unbound": "C23 C22 C21 C19", "metrics": "C26 C27", "utils": "C28",
         "mondrian_coarse": "C24 C25 C29 C30 C31 C32"}
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " /= "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"(?<![\w.])0(?![\w.])", "1"),
       (r"(?<![\w.])1(?![\w.])", "2"), (r"\bi\]", "0]"), (r"\bleft\b", "right"), (r"child_left", "child_right"), (r"child_right", "child_left"), (r"\blower\b", "upper"), (r"bound_lower", "bound_upper"), (r"bound_upper", "bound_lower"), (r"- ", "+ ")]


def mutants(src):
    out, skip, com = [], 0, False
    lines = src.split("\n")
    for n, l in enumerate(lines):
        t = l.strip()
        if re.match(r"#\s*if", t):
            skip = skip + 1 if skip else (1 if re.search(r"DEBUG|VERIF", t) else 0)
            continue
        if t.startswith("#endif") and skip:
            skip -= 1
        if t.startswith("/*"):
            com = True
        was = com
        if "*/" in t:
            com = False
        if skip or was or not t or t[0] in "#*/" or "assert" in t or "cout" in t or t.startswith("template"):
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                out.append((n, l[:m.start()] + b + l[m.end():], ""))
        if re.match(r"[\w.\[\]>()*-]+(\s*[-+*/|&]?=[^=]|\+\+|\().*;$", t) and not re.match(r"(return|break|continue|delete|if|for|while|else)\b", t):
            out.append((n, re.match(r"\s*", l).group() + ";", "delete"))
    return out


def main():
    name, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 3
    stem = name[:-4]
    src = open("%s/src/%s" % (REPO, name)).read()
    lo, hi = [int(x) for x in os.environ.get("LINES", "0,100000").split(",")]
    ms = [m for m in mutants(src) if lo <= m[0] + 1 <= hi]
    total = len(ms)
    random.Random(seed).shuffle(ms)
    ms = ms[:count]
    test = [t for t in sorted(os.listdir(REPO + "/tests")) if 'include "%s"' % name in open("%s/tests/%s" % (REPO, t)).read()]
    pids = os.environ.get("PROPS", PROPS[stem]).split()

    def one(k):
        n, new, what = ms[k]
        w = "/tmp/mut-%s-%d-%d" % (stem, seed, k)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w + "/src")
        for f in os.listdir(REPO + "/src"):
            shutil.copy("%s/src/%s" % (REPO, f), w + "/src")
        lines = src.split("\n")
        old = lines[n]
        lines[n] = new
        open("%s/src/%s" % (w, name), "w").write("\n".join(lines))
        res = None
        try:
            for t in test:
                if subprocess.run("g++ -std=c++17 -O1 -w -fpermissive -I%s/src %s/tests/%s %s/tests/test.cpp /tmp/mut-fixed.o -o %s/t -lgtest -lpthread" % (w, REPO, t, REPO, w), shell=True, capture_output=True).returncode:
                    res = "no build"
                    break
                try:
                    if subprocess.run([w + "/t"], capture_output=True, timeout=60).returncode:
                        res = "tests"
                        break
                except subprocess.TimeoutExpired:
                    res = "tests"
                    break
            for p in pids if res is None else []:
                code = ("import sys,os; sys.path.insert(0,'%s/lib'); import vk, props\ntry:\n  c=vk.Check('%s'); c.mc=lambda *a,**k: None; getattr(props,'%s')(c); r=c.finish()\nexcept vk.MachineryError as e:\n  print(e); r=2\nsys.exit(r)" % (V, p, p))
                env = dict(os.environ, VERIF_REPO=w, VERIF_OUT=w + "/out", VERIF_SEED="1", VERIF_TIER="quick")
                try:
                    r = subprocess.run(["python3", "-c", code], env=env, capture_output=True, text=True, timeout=850)
                    if r.returncode:
                        res = p if r.returncode == 1 else "%s exit %d %s" % (p, r.returncode, (r.stdout + r.stderr)[:150].replace("\n", " "))
                        break
                except subprocess.TimeoutExpired:
                    res = p + " timeout"
                    break
        finally:
            shutil.rmtree(w, ignore_errors=True)
        print("%s:%d %-10s %s  ==> %s" % (name, n + 1, res or "SURVIVED", old.strip(), what or new.strip()), flush=True)
        return res or "SURVIVED"
    if not os.path.exists("/tmp/mut-fixed.o"):
        subprocess.run("gcc -O2 -c /opt/vp/orpaille/fixed_time.c -o /tmp/mut-fixed.o", shell=True)
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(one, range(len(ms))))
    print("%s: %d of %d mutants: %s" % (name, len(ms), total, {r: rs.count(r) for r in sorted(set(rs))}))


main()
