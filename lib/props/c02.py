import os
from vf import Script, Mismatch, sig
import gen
PROP = "C02"
VARIANTS = ["asan"]
RULE = ("random regions over every policy model and parameter mix (1-300 policies, 0-40 features), executed, trained, stored, "
        "reloaded into other regions (also ones with fewer policies) and queried with ordinary, extreme, never-measured, infinite and NaN features; "
        "non-trivial: distinct (model, policies, selections) outcomes with more than one policy available")
INF = float("inf")
WEIRD = [INF, -INF, float("nan"), 3.4028234663852886e38, -3.4028234663852886e38, 1e-45, -1.0, 0.0, 4294967296.0, 2147483648.0]


def spec(rng, np_, name):
    k = rng.choice(["Static", "StaticP", "StaticRegion", "Random", "RoundRobin", "DecisionTree", "DecisionTree",
                    "RandomForest", "RandomForest", "PolicyNet", "PolicyNet", "DatasetMap", "Optimal"])
    if k == "StaticP":
        return "Static,policy=%d" % rng.choice([0, np_ - 1, np_, np_ + 1, 1000000])
    if k == "StaticRegion":
        return "StaticRegion,other=3,%s=%d" % (name, rng.choice([0, np_ - 1, np_, np_ + 7]))
    ex = rng.choice(["", "", ",explore=RoundRobin", ",explore=Random"])
    if k == "DecisionTree":
        return k + rng.choice(["", ",max_depth=%d" % rng.choice([0, 1, 3, 50])]) + ex
    if k == "RandomForest":
        return k + rng.choice(["", ",num_trees=%d" % rng.choice([1, 2, 5, 13])]) + rng.choice(["", ",max_depth=6"]) + ex
    if k == "PolicyNet":
        return k + rng.choice(["", ",lr=0.5", ",lr=1000", ",beta=0.9", ",threshold=0.5", ",threshold=0.01,lr=2"])
    return k


def cases(rng, tier):
    for i in range(900 if tier == "quick" else 14000):
        regs = []
        for k in range(rng.choice([1, 1, 2, 3])):
            np_ = rng.choice([1, 2, 3, 4, 5, 8, 20, 40, 40, 130, 300])
            name = "reg%d" % k
            nf = rng.choice([0, 1, 1, 2, 3, 4, 4, 9, 40])
            sp = spec(rng, np_, name)
            if sp.startswith("PolicyNet"):
                nf = max(1, min(nf, 2))
                vecs = [tuple(float(rng.choice([0, 1, 7, 100, 65536, 2 ** 40]) + rng.randint(0, 5)) for _ in range(nf)) for _ in range(4)]
            else:
                vecs = gen.vectors(rng, nf, rng.choice([1, 3, 8, 20] + [300] * (i % 10 == 0)))
            regs.append({"np": np_, "nf": nf, "name": name, "spec": sp, "vecs": vecs,
                         "opt": [rng.randrange(np_) for _ in range(60)],
                         "dmap": [(v, rng.randrange(np_), gen.metric(rng)) for v in vecs for _ in range(2)]})
        ops = []
        for _ in range(rng.choice([10, 30, 60] + [400] * (i % 10 == 0))):
            r = rng.randrange(len(regs))
            k = rng.random()
            nv = len(regs[r]["vecs"])
            if k < .05 and not regs[r]["spec"].startswith(("PolicyNet", "DatasetMap")):
                ops.append(("xr", r, [gen.scalar(rng, rng.choice(gen.FAMS)) for _ in range(regs[r]["nf"])], gen.metric(rng)))
            elif k < .14:
                # the last (or first) policy is the best one at a feature vector
                ops.append(("ins", r, rng.randrange(nv), rng.choice([regs[r]["np"] - 1] * 3 + [0]), 1e-9))
            elif k < .6:
                ops.append(("x", r, rng.randrange(nv), gen.metric(rng)))
            elif k < .7:
                ops.append(("train",))
            elif k < .78:
                ops.append(("rtrain", r, rng.random() < .5))
            elif k < .86:
                ops.append(("reload", r))
            else:
                ops.append(("q", r, [[rng.choice(WEIRD) if rng.random() < .4 else gen.scalar(rng, rng.choice(gen.FAMS))
                                      for _ in range(regs[r]["nf"])] for _ in range(5)]))
        yield {"regs": regs, "ops": ops}
    # what was stored for a region with more policies is loaded into one with fewer
    for i in range(120 if tier == "quick" else 2000):
        np_ = rng.choice([2, 3, 4, 5, 9, 40])
        nf = rng.choice([1, 1, 2, 3])
        vecs = gen.vectors(rng, nf, rng.choice([1, 2, 4, 8]))
        data = [[list(v), rng.choice([np_ - 1, np_ - 1, 0, rng.randrange(np_)]), gen.metric(rng)] for v in vecs]
        data[rng.randrange(len(data))][1] = np_ - 1
        yield {"foreign": rng.choice(["DecisionTree", "RandomForest", "dataset"]), "nf": nf, "np": np_, "data": data,
               "less": sorted({np_ - 1, rng.randint(1, np_ - 1)}), "q": [list(v) for v in gen.neighbours(rng, vecs, 5)]}


def run_foreign(case, env, obs):
    nf, np_, kind = case["nf"], case["np"], case["foreign"]
    with env.scratch() as cwd:
        os.makedirs(cwd + "/.apollo/datasets")
        w = Script()
        w.add("dnew", "D")
        for v, p, m in case["data"]:
            w.add("dins", "D", p, m, *v)
        w.add("dstore", "D", ".apollo/datasets/Dataset-r.yaml")
        if kind != "dataset":
            w.add("mk", "m", kind, nf, np_)
            w.add("mtrain", "m", "D")
            w.add("mst", "m", "f")
        if not obs.conform(env.go(w, cwd), "writing run"):
            return
        s = Script()
        ask = []
        for k in [np_] + case["less"]:
            for path in range(3):
                b = Script()
                q = [d[0] for d in case["data"]] if kind == "dataset" and path == 2 else case["q"]
                if kind == "dataset":
                    if path == 0:
                        b.env(APOLLO_PERSISTENT_DATASETS=1)
                        b.region("r", nf, k, "r", info="DecisionTree")
                        b.add("rtrain", "r", 1, 1, 0)
                    else:
                        b.region("r", nf, k, "r", info=["DecisionTree,load-dataset", "DatasetMap"][path - 1])
                elif path == 0:
                    b.region("r", nf, k, "r", info=kind + ",load=f")
                elif path == 1:
                    b.region("r", nf, k, "r", info=kind, yaml="f")
                else:
                    b.region("r", nf, k, "r", info=kind)
                    b.add("mload", "r", "f")
                ln = b.query("r", q)
                f = s.add("fork", len(b.lines))
                s.lines += b.lines
                ask.append((f, f + ln, k, path))
        res = env.go(s, cwd)
    obs.events += res.events
    if not res.done:
        return obs.bad("driver ended: %s" % res.problem())
    h = []
    for f, ln, k, path in ask:
        st, r = res.out.get(f, ""), res.out.get(ln, "")
        if st == "child exit 77" or st in ("child signal 11", "child signal 8", "child signal 7", "child signal 4"):
            return obs.bad("%s of %d policies loaded into a region with %d (path %d): memory error: %s" % (kind, np_, k, path, st))
        if r and not r.startswith("exc"):
            for p in res.ints(ln):
                obs.count("selections")
                h.append(p)
                if not 0 <= p < k:
                    raise Mismatch("region with %d policies selected policy %d after loading what was stored for %d policies (%s, path %d)" % (
                        k, p, np_, kind, path))
        elif k == np_:
            return obs.bad("%s of %d policies is not loaded back (path %d): %s %s" % (kind, np_, path, st, r))
        else:
            obs.count("foreign_rejected")
    obs.sig = sig(kind, np_, case["data"], h)
    obs.note = "%s of %d policies loaded into regions with %r" % (kind, np_, case["less"])


def run(case, env, obs):
    if "foreign" in case:
        return run_foreign(case, env, obs)
    s = Script()
    ask = []
    with env.scratch() as cwd:
        os.makedirs(cwd + "/.apollo/datasets")
        for k, g in enumerate(case["regs"]):
            if g["spec"] == "Optimal":
                open(cwd + "/opt-%s-rank-0.txt" % g["name"], "w").write(",".join(map(str, g["opt"])))
            if g["spec"] == "DatasetMap":
                # written by the library itself in a preparatory run
                w = Script()
                w.add("dnew", "D")
                for v, p, m in g["dmap"]:
                    w.add("dins", "D", p, m, *v)
                w.add("dstore", "D", ".apollo/datasets/Dataset-%s.yaml" % g["name"])
                if not obs.conform(env.go(w, cwd), "writing dataset"):
                    return
            s.region("r%d" % k, g["nf"], g["np"], g["name"], info=g["spec"])
        left = [60] * len(case["regs"])
        n = 0
        for op in case["ops"]:
            if op[0] == "train":
                s.add("train", 1)
                continue
            r = op[1]
            g = case["regs"][r]
            kind = g["spec"].split(",")[0]
            if kind == "Optimal":
                if op[0] in ("q", "ins") or left[r] <= 0:
                    continue
                left[r] -= 1
            if op[0] == "x":
                ask.append((s.x("r%d" % r, op[3], g["vecs"][op[2]]), r, 0))
            elif op[0] == "ins":
                s.add("rins", "r%d" % r, op[3], op[4], *g["vecs"][op[2]])
            elif op[0] == "xr":
                ask.append((s.x("r%d" % r, op[3], op[2]), r, 0))
            elif op[0] == "rtrain":
                if op[2] and kind in ("DecisionTree", "RandomForest"):
                    s.add("dump", "r%d" % r)
                s.add("rtrain", "r%d" % r, 5, 1, 0)
            elif op[0] == "reload" and kind == "PolicyNet":
                s.add("mstore", "r%d" % r, "m%d.bin" % n)
                s.add("mload", "r%d" % r, "m%d.bin" % n)
                n += 1
            elif op[0] == "reload" and kind in ("DecisionTree", "RandomForest"):
                # train on the measurements so far, store, load into a new region with the same policies
                s.x("r%d" % r, 1.0, g["vecs"][0])
                s.add("rtrain", "r%d" % r, 5, 1, 0)
                s.add("mstore", "r%d" % r, "m%d.yaml" % n)
                s.region("c%d" % n, g["nf"], g["np"], "copy%d" % n, info=kind + ",load=m%d.yaml" % n)
                ask.append((s.query("c%d" % n, g["vecs"]), r, 1))
                n += 1
            elif op[0] == "q" and kind != "DatasetMap":
                ask.append((s.query("r%d" % r, op[2]), r, 1))
        res = env.go(s, cwd)
    if not obs.conform(res):
        return
    h = []
    for ln, r, many in ask:
        ps = res.ints(ln) if many else [res.p(ln)]
        for p in ps:
            obs.count("selections")
            if not 0 <= p < case["regs"][r]["np"]:
                raise Mismatch("region with %d policies and model %s selected policy %d" % (
                    case["regs"][r]["np"], case["regs"][r]["spec"], p))
            h.append((r, p))
    for g in case["regs"]:
        obs.count("model_" + g["spec"].split(",")[0])
    if any(g["np"] > 1 for g in case["regs"]) and len(set(h)) > 1:
        obs.sig = sig(case["regs"], h)
        obs.note = "models %s, %d selections" % ([g["spec"] for g in case["regs"]], len(h))
