"""Fills the tables of DESIGN.md from tools/catch.json, seeded/*/meta.json and tools/reverts.json."""
import glob, json, os, re
V = "/verif"
d = open(V + "/DESIGN.md").read()


def load(n):
    f = os.path.join(V, "tools", n)
    return json.load(open(f)) if os.path.exists(f) else {}


def put(mark, text):
    global d
    a, b = "<!-- %s -->" % mark, "<!-- end %s -->" % mark
    assert a in d and b in d, mark
    d = d[:d.index(a) + len(a)] + "\n" + text + d[d.index(b):]


catch = load("catch.json")
rows = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], ", ".join("%s %s" % x for x in sorted(catch.get(i, {}).items())) or "not run"))
put("catch", "\n".join(rows) + "\n")
rev = load("reverts.json")
fixed = json.load(open(V + "/known_findings.json"))["fixed"]
rows = ["| reverted fix | property | result |", "|---|---|---|"]
for x in fixed:
    _, prop, h, what = x.split(" ", 3)
    rows.append("| %s %s | %s | %s |" % (h, what, prop.split("=")[1], rev.get(h, {}).get("result", "not run")))
put("reverts", "\n".join(rows) + "\n")
d = re.sub(r"(FIXCOUNT|\d+) \"fix:\" commits", '%d "fix:" commits' % len(fixed), d)
open(V + "/DESIGN.md", "w").write(d)
