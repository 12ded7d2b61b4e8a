import math, os
from vf import Script, Mismatch, f32, sig
import gen
PROP = "C07"
VARIANTS = ["asan", "mpi"]
RULE = ("histories of 2-5 successive processes with persistent datasets over several regions (0-6 features, any model, training, "
        "regions absent in some runs, all finite values incl. subnormals and extremes), dataset at start and end of every run compared "
        "bit-exactly with a model of the whole history; non-trivial: a run started from a non-empty dataset of at least two entries")
MODELS = ["Static", "RoundRobin", "Random", "DecisionTree,max_depth=4", "RandomForest,num_trees=3", "PolicyNet",
          "DecisionTree,explore=Random", "Static,policy=1"]
NAMES = ["r", "kernel_1", "a.b-c", "daxpy@0x4005d0", "with space", "x:y", "UPPER", "loop{1}", "n" * 62, "m" * 63, "k" * 64, "l" * 65, "long" * 30, "q,1", "#h", "region[3]"]


def met(rng):
    k = rng.random()
    if k < .5:
        return gen.metric(rng)
    if k < .7:
        return rng.uniform(0, 1)
    if k < .8:
        return 0.0
    if k < .9:
        return math.ldexp(rng.random() + .1, rng.randint(-1070, 1000))
    return rng.choice([5e-324, 4.4e307, 2.2250738585072014e-308, 1 / 3, 0.1, 123456789.123456789])


def cases(rng, tier):
    for i in range(500 if tier == "quick" else 8000):
        big = i % 25 == 3
        regs = []
        names = rng.sample(NAMES, rng.choice([1, 2, 3]))
        for n in names:
            nf = rng.choice([0, 1, 1, 2, 3, 6] if not big else [1, 2, 40, 100])
            m = rng.choice(MODELS)
            if big and m == "PolicyNet":
                m = "RoundRobin"
            fams = ["int", "big"] if m == "PolicyNet" else None
            if m == "PolicyNet":
                nf = min(max(nf, 1), 2)
            regs.append({"name": n, "nf": nf, "np": rng.choice([1, 2, 3, 5] if not big else [2, 40, 300]), "m": m, "mt": rng.choice([0, 0, 0, 3]),
                         "vecs": gen.vectors(rng, nf, rng.choice([1, 4, 12, 40]) if not big else 700, fams)})
        runs = []
        for _ in range(rng.choice([2, 2, 3, 5])):
            ops = []
            present = [r for r in range(len(regs)) if rng.random() < .85]
            for _ in range((rng.choice([0, 3, 12, 50]) if not big else 1500) if present else 0):
                r = rng.choice(present)
                k = rng.random()
                if k < .93:
                    ops.append(["x", r, rng.randrange(len(regs[r]["vecs"])), met(rng)])
                else:
                    ops.append(["train"])
            runs.append({"present": present, "ops": ops})
        yield {"regs": regs, "runs": runs, "out": rng.choice([None, None, "odir"]), "ds": rng.choice([None, None, "dsets"]),
               "last": rng.choice([None, "load-dataset"])}
    yield {"t": "shared"}
    for i in range(30 if tier == "quick" else 300):
        regs = [{"name": n, "nf": nf, "np": rng.choice([1, 2, 5]), "vecs": gen.vectors(rng, nf, rng.choice([1, 8, 30]))}
                for n in rng.sample(NAMES, rng.choice([2, 3, 5])) for nf in [rng.choice([0, 1, 3])]]
        yield {"t": "mpi", "nr": rng.choice([2, 3]), "regs": regs,
               "x": [[[[rng.randrange(len(g["vecs"])), met(rng)] for _ in range(rng.choice([0, 3, 20]))] for g in regs] for _ in range(3)]}


def run_mpi(case, env, obs):
    """Ranks of an MPI run; each region is executed by one rank."""
    regs, nr = case["regs"], case["nr"]
    state = [dict() for _ in regs]
    own = [[k for k in range(len(regs)) if k % nr == r] for r in range(nr)]
    with env.scratch() as cwd:
        for i in range(3):
            ss, mk = [], []
            for r in range(nr):
                s = Script()
                s.env(APOLLO_PERSISTENT_DATASETS=1)
                s.add("instance")
                d0, xs = {}, []
                for k in own[r]:
                    g = regs[k]
                    s.region("r%d" % k, g["nf"], g["np"], g["name"], info="RoundRobin")
                    d0[k] = s.add("dump", "r%d" % k)
                    for v, m in case["x"][i][k]:
                        xs.append((k, v, m, s.x("r%d" % k, m, g["vecs"][v])))
                mk.append((d0, xs, {k: s.add("dump", "r%d" % k) for k in own[r]}))
                ss.append(s)
            rs = env.mpi(ss, cwd)
            for r, res in enumerate(rs):
                if not obs.conform(res, "run %d, rank %d" % (i, r)):
                    return
            for r, res in enumerate(rs):
                d0, xs, d1 = mk[r]
                for k, l in d0.items():
                    same(res.ds(l), state[k], "run %d starts region %r on rank %d" % (i, regs[k]["name"], r))
                    obs.count("restarts_compared")
                for k, v, m, ln in xs:
                    gen.ema(state[k], (tuple(regs[k]["vecs"][v]), res.p(ln)), m)
                for k, l in d1.items():
                    same(res.ds(l), state[k], "run %d ends region %r on rank %d" % (i, regs[k]["name"], r), 1e-11)
                    state[k] = res.ds(l)
                obs.count("mpi_ranks")


def run_shared(case, env, obs):
    """Known finding: two ranks that execute the same region share one dataset file."""
    data = [{((f,), 0): 1.5 for f in fs} for fs in ((1.0, 2.0), (3.0, 4.0))]

    def go(fill):
        ss, ls = [], []
        for r in range(2):
            s = Script()
            s.env(APOLLO_PERSISTENT_DATASETS=1)
            s.add("instance")
            s.region("r", 1, 1, "reg", info="RoundRobin")
            ls.append(s.add("dump", "r"))
            s.add("barrier")
            for (f, p), m in data[r].items() if fill else []:
                s.x("r", m, f)
            ss.append(s)
        rs = env.mpi(ss, cwd)
        return [obs.conform(x, "rank") for x in rs], [x.ds(l) for x, l in zip(rs, ls)]

    with env.scratch() as cwd:
        if not all(go(True)[0]):
            return
        ok, got = go(False)
        if not all(ok):
            return
        if got != data:
            obs.bad("two ranks measured %r and %r in region reg, the next run starts with %r" % (data[0], data[1], got),
                    "mpi-shared-dataset" if got[0] == got[1] and got[0] in data else None)


def run(case, env, obs):
    if "t" in case:
        return {"mpi": run_mpi, "shared": run_shared}[case["t"]](case, env, obs)
    state = [dict() for _ in case["regs"]]
    with env.scratch() as cwd:
        nontriv = False
        for i, rn in enumerate(case["runs"]):
            s = Script()
            s.env(APOLLO_PERSISTENT_DATASETS=1)
            if case["out"]:
                s.env(APOLLO_OUTPUT_DIR=case["out"])
            if case["ds"]:
                s.env(APOLLO_DATASETS_DIR=case["ds"])
            d0, xs = {}, []
            for r in rn["present"]:
                g = case["regs"][r]
                s.region("r%d" % r, g["nf"], g["np"], g["name"], mt=g["mt"], info=g["m"])
                d0[r] = s.add("dump", "r%d" % r)
            for op in rn["ops"]:
                if op[0] == "x":
                    xs.append((op[1], op[2], op[3], s.x("r%d" % op[1], op[3], case["regs"][op[1]]["vecs"][op[2]])))
                else:
                    s.add("train", 0)
            d1 = {r: s.add("dump", "r%d" % r) for r in rn["present"]}
            res = env.go(s, cwd)
            if not obs.conform(res, "run %d" % i):
                return
            for r in rn["present"]:
                same(res.ds(d0[r]), state[r], "run %d starts region %r" % (i, case["regs"][r]["name"]))
                obs.count("restarts_compared")
                obs.count("entries_reloaded", len(state[r]))
                nontriv |= len(state[r]) >= 2
            for r, v, m, ln in xs:
                gen.ema(state[r], (tuple(case["regs"][r]["vecs"][v]), res.p(ln)), m)
                obs.count("measurements")
            for r in rn["present"]:
                end = res.ds(d1[r])
                same(end, state[r], "run %d ends region %r" % (i, case["regs"][r]["name"]), 1e-11)
                state[r] = end  # what the next run has to start from, to the last bit
        # a last run that only reads
        s = Script()
        if case["out"]:
            s.env(APOLLO_OUTPUT_DIR=case["out"])
        if case["ds"]:
            s.env(APOLLO_DATASETS_DIR=case["ds"])
        if not case["last"]:
            s.env(APOLLO_PERSISTENT_DATASETS=1)
        dl = {}
        for r, g in enumerate(case["regs"]):
            if case["last"] and not state[r]:
                continue
            s.region("r%d" % r, g["nf"], g["np"], g["name"], info="DecisionTree,load-dataset" if case["last"] else "RoundRobin")
            dl[r] = s.add("dump", "r%d" % r)
        res = env.go(s, cwd)
        if not obs.conform(res, "reading run"):
            return
        for r in dl:
            same(res.ds(dl[r]), state[r], "reading run has for region %r" % case["regs"][r]["name"])
            obs.count("restarts_compared")
    if nontriv:
        obs.sig = sig(case)
        obs.note = "%d runs, final sizes %s" % (len(case["runs"]), [len(x) for x in state])


def same(got, want, what, tol=0):
    if got == want:
        return
    for k in want:
        if k not in got:
            raise Mismatch("%s without the entry %r (of %d)" % (what, k, len(want)))
        if got[k] != want[k] and not abs(got[k] - want[k]) <= tol * abs(want[k]) + (tol > 0) * 2e-323:
            raise Mismatch("%s with metric %s for %r, was %s" % (what, got[k].hex(), k, want[k].hex()))
    if len(got) != len(want):
        raise Mismatch("%s with unknown entries %r" % (what, [k for k in got if k not in want][:3]))
