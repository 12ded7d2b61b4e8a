import os
from vf import Script, Mismatch, f32_next, sig
import gen
from props.c08 import queries
PROP = "C23"
VARIANTS = ["asan", "mpi"]
RULE = ("the same set of measurements (with ties, depth limits, all feature families) is recorded in several orders and ways (insertion, "
        "merging of parts, region executions) after different histories (other models trained, the same model trained or loaded before, other "
        "regions, different entropy, clock and process), in one process, several processes and (MPI) several ranks; all resulting predictors "
        "are compared on training points, thresholds +-1 ulp and random vectors; non-trivial: the predictor is not constant")


def mkdata(rng, nf, np_):
    vecs = gen.vectors(rng, nf, rng.choice([1, 4, 12, 40, 100] + ([400] if rng.random() < .2 else [])), ["int", "neg"] if rng.random() < .4 else None)
    tie = rng.random() < .5
    d = []
    for v in vecs:
        for p in rng.sample(range(np_), rng.randint(1, np_)):
            d.append((v, p, float(rng.choice([1, 1, 2])) if tie else gen.metric(rng)))
    return vecs, d


def cases(rng, tier):
    q = tier == "quick"
    for i in range(900 if q else 20000):
        yield mkcase(rng, False)
    for i in range(16 if q else 150):
        yield mkcase(rng, True)


def mkcase(rng, mpi):
    nf, np_ = rng.choice([0, 1, 1, 2, 3, 5]), rng.choice([1, 2, 3, 6, 20])
    m = rng.choice(["DecisionTree", "RandomForest", "RandomForest"])
    vecs, d = mkdata(rng, nf, np_)
    v2, d2 = mkdata(rng, nf, np_)
    par = ["max_depth=%d" % rng.choice([0, 1, 2, 4, 12])]
    if m == "RandomForest":
        par.append("num_trees=%d" % rng.choice([1, 2, 5, 10, 17]))
    procs = []
    for _ in range(rng.choice([2, 3])):
        hist = []
        for _ in range(rng.choice([1, 2, 3])):
            hist.append({"pre": [rng.choice(["train2", "load2", "other", "otherrf", "region", "self", "renew"]) for _ in range(rng.choice([0, 1, 2, 4]))],
                         "way": rng.choice(["ins", "merge", "region", "rexec"]), "seed": rng.getrandbits(32)})
        procs.append({"hist": hist, "ent": rng.getrandbits(40), "clk": rng.choice([0, 10 ** 9, 123456789012])})
    return {"t": "mpi" if mpi else "seq", "m": m, "nf": nf, "np": np_, "d": d, "d2": d2, "par": par, "procs": procs,
            "q": queries(rng, vecs + v2, 12)}


def script(case, proc, qs, first):
    import random
    s = Script()
    m, nf, np_, par = case["m"], case["nf"], case["np"], case["par"]
    info = m + "," + ",".join(par)
    if case["t"] == "mpi":
        s.add("instance")  # collective
    s.add("entropy", proc["ent"])
    s.add("clk", proc["clk"], proc["clk"] * 3, proc["clk"])
    s.add("dnew", "B")
    for v, p, x in case["d2"]:
        s.add("dins", "B", p, x, *v)
    s.add("mk", "o", m, nf, np_, *par)
    s.add("mtrain", "o", "B")
    bf = "b%d.yaml" % proc["ent"]
    s.add("mst", "o", bf)
    qs_ln, sets = [], []
    for n, h in enumerate(proc["hist"]):
        r = random.Random(h["seed"])
        d = list(case["d"])
        r.shuffle(d)
        H = "m%d" % n
        isreg = h["way"] in ("region", "rexec")
        if isreg:
            s.region(H, nf, np_, "R%d" % n, info=info)
        else:
            s.add("mk", H, m, nf, np_, *par)
        for k, pre in enumerate(h["pre"]):
            if pre == "train2":
                if isreg:
                    s.add("rclr", H)
                    for v, p, x in case["d2"]:
                        s.add("rins", H, p, x, *v)
                    s.add("rtrain", H, 1, 1, 1)
                    s.add("rclr", H)
                else:
                    s.add("mtrain", H, "B")
            elif pre == "load2":
                s.add("mload" if isreg else "mld", H, bf)
            elif pre == "other":
                s.add("mk", "x%d" % k, "DecisionTree", nf, np_, "max_depth=5")
                s.add("mtrain", "x%d" % k, "B")
            elif pre == "otherrf":
                s.add("mk", "x%d" % k, "RandomForest", nf, np_, "num_trees=3")
                s.add("mtrain", "x%d" % k, "B")
            elif pre == "region":
                s.region("z", nf, np_, "Z%d_%d" % (n, k), info="Random")
                for v, p, x in case["d2"][:5]:
                    s.x("z", x, v)
            elif pre == "self" and not isreg:
                s.add("dnew", "S")
                for v, p, x in case["d"]:
                    s.add("dins", "S", p, x, *v)
                s.add("mtrain", H, "S")
            elif pre == "renew" and not isreg:
                s.add("mdel", H)
                s.add("mk", H, m, nf, np_, *par)
        if h["way"] == "ins":
            s.add("dnew", "A")
            for v, p, x in d:
                s.add("dins", "A", p, x, *v)
            sets.append(s.add("ddump", "A"))
            s.add("mtrain", H, "A")
        elif h["way"] == "merge":
            cut = r.randint(0, len(d))
            for nm, part in (("A", d[:cut]), ("A2", d[cut:])):
                s.add("dnew", nm)
                for v, p, x in part:
                    s.add("dins", nm, p, x, *v)
            s.add("dmrg", "A", "A2")
            sets.append(s.add("ddump", "A"))
            s.add("mtrain", H, "A")
        else:
            for v, p, x in d:
                s.add("rins", H, p, x, *v)
            sets.append(s.add("dump", H))
            s.add("rtrain", H, 7, 1, 1)
        qs_ln.append(s.query(H, qs, "q" if isreg else "mq"))
        if first and n == 0:
            s.add("mstore" if isreg else "mst", H, "ref.yaml")
    return s, qs_ln, sets


def run(case, env, obs):
    qs = [tuple(v) for v in case["q"]]
    case["d"] = [(tuple(v), p, x) for v, p, x in case["d"]]
    with env.scratch() as cwd:
        # reference predictor: plain insertion; its thresholds become further queries
        s = Script()
        s.add("dnew", "A")
        for v, p, x in case["d"]:
            s.add("dins", "A", p, x, *v)
        s.add("mk", "m", case["m"], case["nf"], case["np"], *case["par"])
        s.add("mtrain", "m", "A")
        s.add("mst", "m", "ref.yaml")
        if not obs.conform(env.go(s, cwd), "reference"):
            return
        ref = os.path.join(cwd, "ref.yaml")
        ths = gen.thresholds(gen.parse_tree_file(ref)["root"]) if case["m"] == "DecisionTree" else \
            [t for tr in gen.parse_forest_file(ref)["trees"] for t in gen.thresholds(tr["root"])]
        for n, (j, t) in enumerate(ths[:120]):
            for z in (t, f32_next(t, False)):
                v = list(qs[n % len(qs)])
                v[j] = z
                qs.append(tuple(v))
        ln0 = s.query("m", qs, "mq")
        res0 = env.go(s, cwd)
        if not obs.conform(res0, "reference"):
            return
        want = res0.ints(ln0)
        sc = [script(case, p, qs, i == 0) for i, p in enumerate(case["procs"])]
        rs = env.mpi([x[0] for x in sc], cwd) if case["t"] == "mpi" else [env.go(x[0], cwd) for x in sc]
        truth = {(v, p): x for v, p, x in case["d"]}
        for k, ((s, lns, sets), res) in enumerate(zip(sc, rs)):
            if not obs.conform(res, "process %d" % k):
                return
            for n, ln in enumerate(lns):
                if res.ds(sets[n]) != truth:
                    continue   # not the same set of measurements: another property's business
                got = res.ints(ln)
                if got != want:
                    i = next(i for i in range(len(want)) if got[i] != want[i])
                    raise Mismatch("%s %s: after history %r in %s %d selects %d for %r, another one trained on the same measurements %d" %
                                   (case["m"], case["par"], case["procs"][k]["hist"][n], "rank" if case["t"] == "mpi" else "process", k,
                                    got[i], qs[i], want[i]))
                obs.count("predictors_compared")
                obs.count("selections_compared", len(got))
        if len(set(want)) > 1:
            obs.sig = sig(case["m"], case["par"], want)
            obs.note = "%s %s on %d measurements, %d selections each" % (case["m"], case["par"], len(case["d"]), len(want))
