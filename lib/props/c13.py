import os, struct
from vf import Script, Mismatch, sig
import gen
PROP = "C13"
VARIANTS = ["asan"]
RULE = ("histories of executions and training requests over 1-3 regions of mixed models with global periods, per-region periods and minimum "
        "data sizes; after every operation the trainable state of each region (and the training count of policy networks, read from the "
        "stored net) compared with a reference automaton, at each training the tree's selections compared with the best measured policy "
        "at that moment, untrainable models compared for being unchanged; non-trivial: at least one automatic training")
MODELS = ["DecisionTree,max_depth=25", "DecisionTree,max_depth=25,explore=Random", "RandomForest,num_trees=3", "PolicyNet", "Static",
          "RoundRobin", "Random", "load"]


STEPS = [3, 0, -1, -1000, 1, 999, 5000, 2**31 - 1, -2**31]


def cases(rng, tier):
    for i in range(1500 if tier == "quick" else 25000):
        regs = []
        long_ = i % 35 == 11
        for k in range(rng.choice([1, 2, 3] if not long_ else [2, 3])):
            m = rng.choice(MODELS[:4] if rng.random() < .7 else MODELS)
            if long_ and m == "PolicyNet":
                m = "DecisionTree,max_depth=25"
            nf = 1 if m == "PolicyNet" else rng.choice([0, 1, 2])
            regs.append({"m": m, "nf": nf, "np": rng.choice([1, 2, 3, 4]), "mt": 0,
                         "vecs": [[float(rng.randint(1, 9)) for _ in range(nf)] for _ in range(rng.choice([1, 3, 8]))]})
        net = any(g["m"] == "PolicyNet" for g in regs)
        trig = rng.choice(["P", "Q", "mt", "none"]) if net else rng.choice(["P", "Q", "mt", "none", "all", "all"])
        if long_:
            trig = rng.choice(["P", "P", "Q", "all"])
        P = rng.choice([1, 2, 3, 5, 7, 20, 50] if not long_ else [100, 256, 300, 333]) if trig in ("P", "all") else 0
        Q = rng.choice([1, 2, 3, 5, 9, 30] if not long_ else [100, 257]) if trig in ("Q", "all") else 0
        if trig in ("mt", "all"):
            for g in regs:
                g["mt"] = rng.choice([0, 1, 2, 3, 6, 15])
        ops = []
        pt = rng.choice([0, .05, .2]) if not long_ else 0
        late = rng.choice([0, 300, 520]) if long_ else 0   # some regions start after others have been trained
        for j in range(rng.choice([5, 15, 40]) if not long_ else 1000):
            r = rng.randrange(len(regs) if j >= late else (len(regs) + 1) // 2)
            if rng.random() < pt:
                ops.append(rng.choice([["train"], ["flush"], ["rtrain", r], ["ctrain", r], ["train0"]]))
            else:
                ops.append(["x", r, rng.randrange(len(regs[r]["vecs"])), gen.metric(rng), rng.choice(["x", "x", "nest", "c"])])
        yield {"regs": regs, "P": P, "Q": Q, "ops": ops, "persist": rng.random() < .25, "step": rng.choice(STEPS)}


def run(case, env, obs):
    with env.scratch() as cwd:
        if any(g["m"] == "load" for g in case["regs"]):
            s = Script()
            for k, g in enumerate(case["regs"]):
                if g["m"] == "load":
                    s.add("mk", "m", "DecisionTree", g["nf"], g["np"])
                    s.add("dnew", "D")
                    for i, v in enumerate(g["vecs"]):
                        s.add("dins", "D", i % g["np"], 1. + i, *v)
                    s.add("mtrain", "m", "D")
                    s.add("mst", "m", "l%d.yaml" % k)
            res = env.go(s, cwd)
            if not obs.conform(res):
                return
        ds = one(case, env, obs, cwd, [dict() for _ in case["regs"]], 0)
        if ds is not None and case["persist"]:
            one(case, env, obs, cwd, ds, 1)


def one(case, env, obs, cwd, ds, nrun):
    regs = case["regs"]
    s = Script()
    s.env(APOLLO_GLOBAL_TRAIN_PERIOD=case["P"], APOLLO_PER_REGION_TRAIN_PERIOD=case["Q"], APOLLO_PERSISTENT_DATASETS=int(case["persist"]))
    tree = [g["m"].startswith(("DecisionTree", "RandomForest")) for g in regs]
    net = [g["m"] == "PolicyNet" for g in regs]
    steps = []
    nst = [0]
    nstep = [STEPS.index(case.get("step", 3))]

    def step():
        nstep[0] += 1
        return STEPS[(nstep[0] - 1) % len(STEPS)]


    def observe(what, pol=None):
        o = {"what": what, "pol": pol, "tr": [s.add("tr", "r%d" % k) for k in range(len(regs))], "net": {}, "q": {}}
        for k, g in enumerate(regs):
            if net[k]:
                nst[0] += 1
                f = "n%d" % nst[0]
                s.add("mstore", "r%d" % k, f)
                o["net"][k] = f
            elif g["m"] == "load":
                o["q"][k] = s.query("r%d" % k, g["vecs"])
            elif tree[k]:
                # selections of an untrained tree would advance its explorer, so the
                # queries go through the stored form's loader only once it is trained
                o["q"][k] = None
        steps.append(o)

    for k, g in enumerate(regs):
        s.region("r%d" % k, g["nf"], g["np"], "g%d" % k, mt=g["mt"], info="DecisionTree,load=l%d.yaml" % k if g["m"] == "load" else g["m"])
    observe(("new",))
    for op in case["ops"]:
        if op[0] == "x":
            _, r, v, m, st = op
            h, vec = "r%d" % r, regs[r]["vecs"][v]
            if st == "x":
                ln = s.x(h, m, vec)
            elif st == "c":
                s.add("cbegin", h)
                for f in vec:
                    s.add("cfeat", h, f)
                ln = s.add("cpol", h)
                s.add("enddm", h, m)
            else:
                s.add("beginv", h, "c", *vec)
                ln = s.add("pol", h, "c")
                s.add("endm", h, "c", m)
            observe(op, ln)
        else:
            if op[0] == "train":
                s.add("train", step())
            elif op[0] == "train0":
                s.add("train", step(), 0)
            elif op[0] == "flush":
                s.add("flush", step())
            elif op[0] == "rtrain":
                s.add("rtrain", "r%d" % op[1], step(), 1, 0)
            else:
                s.add("ctrain", "r%d" % op[1], step())
            observe(op)
    for k in range(len(regs)):
        if tree[k]:
            s.add("mark")
    final = [s.query("r%d" % k, g["vecs"]) if tree[k] else None for k, g in enumerate(regs)]
    res = env.go(s, cwd)
    if not obs.conform(res, "run %d" % nrun):
        return None
    n, idx = 0, [0] * len(regs)
    trained = [False] * len(regs)
    at = [None] * len(regs)
    count = [0] * len(regs)
    auto = 0
    loaded = {}

    def can(k):
        return net[k] or (tree[k] and not trained[k])

    def train(k):
        if can(k) and ds[k]:
            if net[k]:
                count[k] += 1
            else:
                trained[k] = True
                at[k] = dict(ds[k])

    for i, o in enumerate(steps):
        w = o["what"]
        before = (list(trained), list(count))
        if w[0] == "new":
            for k, g in enumerate(regs):
                if case["persist"] and g["mt"] and len(ds[k]) >= g["mt"]:
                    train(k)
        elif w[0] == "x":
            r = w[1]
            p = res.p(o["pol"])
            if can(r) or case["persist"]:
                gen.ema(ds[r], (tuple(regs[r]["vecs"][w[2]]), p), w[3])
            n += 1
            idx[r] += 1
            if can(r):
                if case["P"] and n % case["P"] == 0:
                    for k in range(len(regs)):
                        train(k)
                elif case["Q"] and idx[r] % case["Q"] == 0:
                    train(r)
                elif regs[r]["mt"] and len(ds[r]) >= regs[r]["mt"]:
                    train(r)
            auto += (list(trained), list(count)) != before
        else:
            for k in range(len(regs)):
                if len(w) < 2 or w[1] == k:
                    train(k)
        for k, g in enumerate(regs):
            if res.t(o["tr"][k]) != can(k):
                raise Mismatch("run %d, after operation %d %r (execution %d overall, %s of region): region %d (%s, %d entries, min %d, P=%d, "
                               "Q=%d) %s" % (nrun, i, w[:3], n, idx[k], k, g["m"], len(ds[k]), g["mt"], case["P"], case["Q"],
                                             "is still trainable but training was due" if not can(k) else "is trained although it was not due"))
            obs.count("states_compared")
            if k in o["net"]:
                raw = gen.read_file(os.path.join(cwd, o["net"][k]), True)
                c = struct.unpack("<i", raw[-4:])[0]
                if c != count[k]:
                    raise Mismatch("run %d, after operation %d %r: PolicyNet of region %d has %d trainings, %d were due" % (
                        nrun, i, w[:3], k, c, count[k]))
                obs.count("net_counts_compared")
            if o["q"].get(k) is not None:
                if loaded.setdefault(k, res.ints(o["q"][k])) != res.ints(o["q"][k]):
                    raise Mismatch("a loaded tree changed its selections after %r" % (w[:2],))
    for k, g in enumerate(regs):
        if trained[k] and g["m"].startswith("DecisionTree"):
            best = gen.argmins(at[k])
            for v, p in zip(g["vecs"], res.ints(final[k])):
                if tuple(v) in best and p not in best[tuple(v)]:
                    raise Mismatch("region %d selects %d for %r, the best policy at its training was %r" % (k, p, v, sorted(best[tuple(v)])))
                obs.count("trained_selections_compared")
    obs.count("automatic_trainings", auto)
    obs.count("executions", n)
    if auto:
        obs.sig = sig(case["P"], case["Q"], [g["m"] for g in regs], case["ops"])
        obs.note = "P=%d Q=%d min=%s: %d executions, %d automatic trainings" % (case["P"], case["Q"], [g["mt"] for g in regs], n, auto)
    return ds
