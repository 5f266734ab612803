"""One function per property: builds the drivers, model-checks the specification and validates the recorded histories."""
import json, os


def script_file(c, name, walks, flat):
    p = os.path.join(c.dir, name)
    with open(p, "w") as f:
        for w in walks:
            f.write(" ".join(str(x) for a in w for x in flat(a)) + "\n")
    return p


def C01(c):
    c.mc("MCBloom", must=["DoAdd", "DoLookup", "Clear", "DoSet"])
    exe = c.build("bloom", "bloom.cpp")
    es = c.edges("MCBloom", "EdgeBloom.cfg")
    flat = lambda a: a if a[0] != 3 else [3, len(a[1])] + list(a[1])
    sf = script_file(c, "bloom.scripts", c.walks(es), flat)
    f1 = c.drive(exe)
    f2 = c.drive(exe, [sf])
    c.validate("TraceBloom", f1, what="random histories of 16 instances", need_ops=["add", "probe", "lookup", "clear", "set"])
    c.validate("TraceBloom", f2, what="every transition of the 4-bit instance")


def cuckoo_mc(c):
    c.mc("MCCuckoo", "MCCuckoo1.cfg", must=["Start", "Place", "Relocate", "GiveUp", "Remove", "Clear"])
    if not c.quick:
        c.mc("MCCuckoo", "MCCuckoo2.cfg")


def C02(c):
    cuckoo_mc(c)
    exe = c.build("cuckoo", "cuckoo.cpp")
    c.validate("TraceCuckoo", c.drive(exe, [2]), cfg="TraceCuckoo2.cfg", need_ops=["add", "remove", "probe", "clear"],
               what="histories without failed adds, 14 geometries")


def C03(c):
    cuckoo_mc(c)
    exe = c.build("cuckoo", "cuckoo.cpp")
    c.validate("TraceCuckoo", c.drive(exe, [3]), cfg="TraceCuckoo3.cfg", need_ops=["add", "remove", "probe", "clear", "count"],
               what="unrestricted histories, 14 geometries")


def C04(c):
    cuckoo_mc(c)
    exe = c.build("cuckoo", "cuckoo.cpp")
    c.validate("TraceCuckoo", c.drive(exe, [4]), cfg="TraceCuckoo4.cfg", need_ops=["add", "remove", "probe", "try", "count"],
               what="fill histories, 8 geometries")


def C05(c):
    c.mc("MCReservoir", must=["DoFill", "DoSkip", "DoReplace"])
    exe = c.build("reservoir", "reservoir.cpp")
    c.validate("TraceReservoir", c.drive(exe, [5]), need_ops=["add", "index", "twin", "write", "many"],
               what="random histories of 6 instances and every sequence of edge draws on small ones")


def C06(c):
    c.mc("MCReservoirLaw", must=["DoAdd"])
    exe = c.build("reservoir", "reservoir.cpp", san=False, opt="-O2")
    c.validate("TraceReservoirLaw", c.drive(exe, [6]), need_ops=["dist", "step", "measure"], what="histograms over all draw sequences of a grid")


def C07(c):
    c.mc("MCReservoir", must=["DoFill", "DoSkip", "DoReplace"])
    c.mc("MCReservoirLaw", must=["DoAdd"])
    exe, fast = c.build_all([dict(name="reservoir", src="reservoir.cpp"), dict(name="reservoir_fast", src="reservoir.cpp", san=False, opt="-O2")])
    f1, f2 = c.drive_all([(exe, dict(args=[7])), (fast, dict(args=[70]))])
    c.validate("TraceReservoir", f1, need_ops=["add", "index", "twin", "write", "many"],
               what="random histories of 6 instances and every sequence of edge draws on small ones")
    c.validate("TraceReservoirLaw", f2, need_ops=["dist", "step", "measure"], what="histograms over all draw sequences of a grid")


def C08(c):
    c.mc("MCChainLaw", must=["DoAdd"])
    if not c.quick:
        c.mc("MCChainLaw", "MCChainLaw2.cfg")
    exe = c.build("chain", "chain.cpp", san=False, opt="-O2")
    c.validate("TraceChainLaw", c.drive_all([(exe, dict(args=[80 + i], name="chain%d" % i)) for i in range(c.pick(7, 16))], timeout=700), need_ops=["heads", "chains", "step", "measure"], what="histograms over all draw sequences of a grid")


def C09(c):
    c.mc("MCChain", must=["DoAdd", "DoObsolete"])
    if not c.quick:
        c.mc("MCChain", "MCChain2.cfg")
    exe = c.build("chain", "chain.cpp")
    c.validate("TraceChain", c.drive(exe, [9]), need_ops=["add", "obsolete", "many"],
               what="random histories of 6 instances and every sequence of draws on small ones, chains observed after every operation")


def ltc_mc(c):
    for m in ["Int", "Real", "Zero"] + c.pick([], ["Deep"]):
        c.mc("MCLtc", "MCLtc%s.cfg" % m, must=["Point"])


def ltc(c, level):
    ltc_mc(c)
    exe = c.build("ltc", "ltc.cpp")
    c.validate("TraceLtc", c.drive(exe), cfg="TraceLtc%d.cfg" % level, need_ops=["add"],
               what="random histories of 13 instances and all short histories of 3 small ones")


def C10(c):
    ltc(c, 10)


def C11(c):
    ltc(c, 11)


def mcnn(c, level):
    for i in c.pick([1, 2, 4], [1, 2, 3, 4, 5]):
        c.mc("MCMcnn", "MCMcnn%d.cfg" % i, must=["DoTrain"])
    exe = c.build("mcnn", "mcnn.cpp")
    c.validate("TraceMcnn", c.drive(exe), cfg="TraceMcnn%d.cfg" % level, need_ops=["train", "many", "predict", "params"],
               what="random histories of 10 instances, long runs of one point, and all short histories of small ones, predictions probed after every operation")


def C12(c):
    mcnn(c, 12)


def C13(c):
    mcnn(c, 13)


def hoeffding_cover(h):
    n, room, c = 1, h["cfg"]["room"], {"splits": 0, "full_buffer": 0, "proposals": 0}
    for e in h["ev"]:
        if e["op"] == "train":
            c["splits"] += len(e["tree"]) > n
            c["full_buffer"] += not e["r"]
            n = len(e["tree"])
        c["proposals"] += e["op"] == "ntrain" and e["f"] > 0
    return c


def hoeffding(c, level):
    c.mc("MCHoeffding", must=["Count1", "Split1"])
    if not c.quick:
        c.mc("MCHoeffding", "MCHoeffding2.cfg", must=["Count1", "Split1"])
    exe = c.build("hoeffding", "hoeffding.cpp", hook=True)
    c.validate("TraceHoeffding", c.drive(exe, [level]), cfg="TraceHoeffding%d.cfg" % level, need_ops=["train", "many", "ntrain", "gains", "limits", "look"],
               what="random histories of 14 instances with small and large buffers, long runs of one point, all short histories of small ones; tree and predictions observed after every point",
               cover=hoeffding_cover, need_cover=["splits", "full_buffer", "proposals"])


def C14(c):
    hoeffding(c, 14)


def C15(c):
    hoeffding(c, 15)


def C16(c):
    c.mc("MCNaiveBayes", must=["Train"])
    if not c.quick:
        c.mc("MCNaiveBayes", "MCNaiveBayes2.cfg", must=["Train"])
    exe = c.build("nb", "nb.cpp")
    c.validate("TraceNaiveBayes", c.drive(exe), need_ops=["train", "many", "predict", "smoothing"],
               what="random weighted histories of 12 instances (some with the same point up to 70000 times) and all short histories of small ones")


def mlp(c, level):
    for k in ["id", "inv", "deep"]:
        c.mc("MCPerceptron", "MCPerceptron_%s.cfg" % k, must=["Weigh", "Input", "Target"])
    exe = c.build("mlp", "mlp.cpp")
    c.validate("TracePerceptron", c.drive(exe), cfg="TracePerceptron%d.cfg" % level, need_ops=["new", "set1", "set2", "set3", "feed", "back"],
               what="random histories of 14 networks with 4 activations, all small weight assignments of small linear networks")


def C17(c):
    mlp(c, 17)


def C18(c):
    mlp(c, 18)


def metrics(c, mode, what):
    for f in c.pick(["MCMetrics.cfg"], ["MCMetrics.cfg", "MCMetrics2.cfg"]):
        c.mc("MCMetrics", f, must=["Update", "Increase", "Reset", "Assign"])
    exe = c.build("metrics", "metrics.cpp")
    c.validate("TraceMetrics", c.drive(exe, [mode]), need_ops=["new", "reset", "update", "updates", "increase", "assign", "score"], what=what)


def C26(c):
    metrics(c, 26, "histories over three interleaved instances of 7 metrics")


def C27(c):
    metrics(c, 27, "histories over three interleaved instances sharing the arrival counter")


def C28(c):
    c.mc("MCUtils", c.pick("MCUtils.cfg", "MCUtils2.cfg"), must=["Grow", "More"])
    exe = c.build("utils", "utils.cpp")
    c.validate("TraceUtils", c.drive(exe), need_ops=["pick", "normal", "shuffle", "keep", "exponential", "index_max", "scalar", "int"],
               what="random and edge arguments, all small distributions, permutation histograms over all draw sequences of a grid")


def mondrian_cover(h):
    c = {"splits": 0, "full_pool": 0, "refused": 0, "deep": 0, "copies": 0}

    def size(t):
        return 0 if "none" in t else 1 if t["leaf"] else 1 + size(t["l"]) + size(t["r"])
    old = None
    for e in h["ev"]:
        if "trees" not in e:
            continue
        new = [size(t) for t in e["trees"]]
        if e["op"] == "train":
            c["refused"] += not e["r"]
            if old and sum(new) > sum(old):
                c["splits"] += 1
            c["full_pool"] += h["cfg"]["cap"] >= 0 and h["cfg"]["cap"] - sum(new) < 2
        c["deep"] += max(new) >= 7
        c["copies"] += e["op"] == "copy"
        old = new
    return c


def mondrian(c, level):
    for i in c.pick([1, 2, 3, 4], [1, 2, 3, 4, 5, 6, 7]):
        c.mc("MCMondrian", "MCMondrian%d.cfg" % i, must=["Train"])
    kinds = {19: "b", 20: "b", 21: "bu", 22: "bu", 23: "u"}[level]
    specs = [dict(name="mondrian_" + k, src="mondrian.cpp", hook=True, opt="-O0", defs=["UNBOUND"] if k == "u" else []) for k in kinds]
    exes = dict(zip(kinds, c.build_all(specs)))
    cfg = "TraceMondrian%d.cfg" % level
    for k in kinds:
        name = "MondrianForest" if k == "b" else "MondrianForestUnbound"
        c.validate("TraceMondrian", c.drive(exes[k], timeout=600), cfg=cfg, need_ops=["train", "again", "late", "predict", "destroy"] + (["copy"] if k == "b" else []),
                   what="random histories of 14 instances of %s and all short histories of 3 small ones, the trees observed after every operation" % name,
                   cover=mondrian_cover, need_cover=["splits", "deep"] + (["full_pool", "refused", "copies"] if k == "b" else []))
        if level == 21:
            c.validate("TraceMondrian", c.drive(exes[k], [21], timeout=800), cfg=cfg, need_ops=["law", "apart"],
                       what="distribution of one training of %s over every draw of a grid" % name)


def C19(c):
    mondrian(c, 19)


def C20(c):
    mondrian(c, 20)


def C21(c):
    mondrian(c, 21)


def C22(c):
    mondrian(c, 22)


def C23(c):
    mondrian(c, 23)


def coarse_cover(h):
    c = mondrian_cover(h)
    c = {k: c[k] for k in ("splits", "full_pool", "copies")}
    c["ext%d" % h["cfg"]["ext"]] = 1
    c["management%d" % h["cfg"]["mgmt"]] = 1
    c["trimming%d" % h["cfg"]["trim"]] = 1
    c["shrunk"] = 0

    def size(t):
        return 0 if "none" in t else 1 if t["leaf"] else 1 + size(t["l"]) + size(t["r"])
    old = None
    for e in h["ev"]:
        if "trees" not in e:
            continue
        new = [size(t) for t in e["trees"]]
        c["shrunk"] += old is not None and any(a > b for a, b in zip(old, new))
        old = new
    return c


def coarse(c, level):
    for i in c.pick([1, 2, 3, 4, 5, 7, 9], range(1, 12)):
        c.mc("MCCoarse", "MCCoarse%d.cfg" % i, must=["Train"])
    specs = [dict(name="coarse", src="mondrian.cpp", hook=True, opt="-O0", defs=["COARSE"]),
             dict(name="coarse_quick", src="mondrian.cpp", hook=True, opt="-O0", defs=["COARSE", "UNBOUND_OPTIMIZE"])]
    exe, quick = c.build_all(specs)
    cfg = "TraceCoarse%d.cfg" % level
    kinds = ["splits", "full_pool", "copies"] + ["ext%d" % i for i in range(6)] + ["management%d" % i for i in range(5)] + ["trimming%d" % i for i in range(4)]
    c.validate("TraceCoarse", c.drive(exe, timeout=600), cfg=cfg, need_ops=["train", "again", "late", "predict", "trim", "copy", "destroy"], cover=coarse_cover, need_cover=kinds + ["shrunk"],
               what="random histories of 8 instances of CoarseMondrianForest with every extension, management and trimming rule, the trees observed after every operation")
    c.validate("TraceCoarse", c.drive(quick, timeout=600), cfg=cfg, need_ops=["train", "predict", "trim", "copy", "destroy"],
               what="the same with UNBOUND_OPTIMIZE")
    c.validate("TraceCoarse", c.drive(exe, [100], timeout=600), cfg=cfg, need_ops=["train", "predict", "deep", "grown"],
               what="histories of hundreds of points with trimming, a tree of more than 100 levels")
    if level in (25, 29):
        c.validate("TraceCoarse", c.drive(exe, [21], timeout=800), cfg=cfg, need_ops=["law", "apart", "lots"],
                   what="distribution of one training and of TRIM_RANDOM over every draw of a grid")


def C24(c):
    coarse(c, 24)


def C25(c):
    coarse(c, 25)


def C29(c):
    coarse(c, 29)


def C30(c):
    coarse(c, 30)


def coarse_all(c, level, ops, what, cover, need_cover):
    for i in (12, 13) if level == 31 else (14, 15, 16):
        c.mc("MCCoarse", "MCCoarse%d.cfg" % i, must=["Train"] + (["DoTrim"] if i != 14 else []))
    exe = c.build("coarse", "mondrian.cpp", hook=True, opt="-O0", defs=["COARSE"])
    c.validate("TraceCoarse", c.drive(exe, [level], timeout=600), cfg="TraceCoarse%d.cfg" % level, need_ops=["train", "predict", "trim", "copy", "destroy"] + ops, what=what, cover=cover, need_cover=need_cover)


def slice_cover(h):
    c = coarse_cover(h)

    def cuts(t):  # the splits of leaves: both sides touch the split
        if "none" in t or t["leaf"]:
            return 0
        f = t["f"] - 1
        return (t["l"]["hi"][f] == t["v"] == t["r"]["lo"][f]) + cuts(t["l"]) + cuts(t["r"])
    c["sliced"] = max(sum(cuts(t) for t in e["trees"]) for e in h["ev"] if "trees" in e)
    return c


def halved_cover(h):
    c = slice_cover(h)
    c["halved"] = c["halved_inner"] = 0
    old = {}

    def walk(t, out):
        if "none" not in t:
            out[t["id"]] = t
            if not t["leaf"]:
                walk(t["l"], out)
                walk(t["r"], out)

    for e in h["ev"]:
        if "trees" not in e:
            continue
        new = {}
        for t in e["trees"]:
            walk(t, new)
        for i, t in new.items():
            if t["leaf"] or i in old:
                continue
            f = t["f"] - 1
            o = t["r"] if t["l"]["id"] not in old else t["l"]
            s = t["l"] if o is t["r"] else t["r"]
            a = old.get(o["id"])
            if a and s["leaf"] and s["id"] not in old and (o["lo"][f] == t["v"] != a["lo"][f] or o["hi"][f] == t["v"] != a["hi"][f]):
                c["halved"] += 1
                c["halved_inner"] += not a["leaf"]
        old = new
    return c


def C32(c):
    coarse_all(c, 32, [], "random histories of 5 instances under EXTEND_BARYCENTER with trimming, split triggers and the four ways to share out refusals", halved_cover, ["halved", "halved_inner", "splits", "full_pool", "copies", "sliced", "shrunk"])


def C31(c):
    coarse_all(c, 31, ["grown"], "random histories of 4 instances under EXTEND_BARYCENTER with trimming and splits of leaves", slice_cover, ["splits", "full_pool", "copies", "sliced", "shrunk"])
