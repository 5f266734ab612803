"""Writes known_findings.json: repaired defects (they suppress nothing) and findings that were recorded instead of repaired."""
import json, subprocess
PROP = {"ReservoirSampling returned": "C05", "ExponentialReservoir": "C07", "ChainedReservoirSampling did": "C08", "shift_chain": "C09", "obsolete kept": "C09", "more than 5000 elements": "C09",
        "LTC rounded": "C10", "beyond the timestamp type": "C10", "beyond the element type": "C11", "LTC ended": "C11", "count_clusters": "C13", "MCNN ignored": "C12", "same counters": "C14", "nodes it could not": "C15",
        "box of its root": "C15", "best limit": "C15", "best split": "C15", "empty_value": "C03", "last entry": "C04", "shuffle": "C28", "layer_size": "C18",
        "pick_from_distribution": "C28", "uninitialized value": "C20", "predict did not": "C22", "node -1": "C20", "lost a node": "C20",
        "branching probability": "C22", "unsigned division": "C12", "NaN clusters": "C12", "copying a MondrianForest": "C19", "rounded up": "C19"}
EXTRA = {}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for x in log:
    h, s = x.split(" ", 1)
    if s.startswith("fix: "):
        p = [v for k, v in PROP.items() if k in s]
        if "Coarse" in s:
            p = ["C32" if any(k in s for k in ("forced extends", "odd counter", "without width", "counters of an inner node")) else "C31" if any(k in s for k in ("split leaves", "count_sides", "leaf without points", "find_barycenter did not divide")) else "C31" if "truncated" in s or "sum of the features" in s else "C30" if "trimmed leaf" in s else "C30" if "predict" in s else "C29" if any(k in s for k in ("beyond the data point", "EXTEND_NONE never", "counted a data point twice", "split time was exactly")) else
                 "C25" if any(k in s for k in ("free", "size", "buffer", "deeper")) else "C24"]
        assert len(p) == 1, (s, p)
        fixed.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
f = "/verif/known_findings.json"
try:
    old = json.load(open(f))["findings"]
except OSError:
    old = []
json.dump({"findings": old, "fixed": fixed}, open(f, "w"), indent=1)
print(len(fixed), "fixed")
