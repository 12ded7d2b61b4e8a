import os
from vf import Script, Mismatch, sig
import gen
PROP = "C09"
VARIANTS = ["asan"]
RULE = ("policy networks trained 0-6 times, stored and loaded (model load, load=path, load latest, model-file argument; same and other "
        "process) into fresh nets and nets that were trained, loaded and queried before; selection sequences of storing and loading net "
        "compared draw by draw with the random engine aligned by controlled entropy, stored files compared byte for byte; "
        "non-trivial: sequence contains at least two policies")


def feats(rng, nf, n):
    return [tuple(float(rng.choice([rng.randint(1, 9), rng.randint(1, 10 ** 6), 2 ** rng.randint(0, 40)])) for _ in range(nf)) for _ in range(n)]


def cases(rng, tier):
    for i in range(1500 if tier == "quick" else 12000):
        nf, np_ = rng.choice([1, 1, 2]), rng.choice([1, 2, 3, 4, 8])
        fv = feats(rng, nf, rng.choice([1, 3, 6]))

        def train():
            sc = rng.choice([.05, 1., 4.])
            return [[rng.choice(fv), p, rng.uniform(0, sc)] for p in range(np_) for _ in range(rng.choice([1, 2, 5]))]

        th = rng.choice([0, 0, 0, .3, .6, .9])
        par = ["lr=%g" % rng.choice([.01, .1, .5])] + (["threshold=%g" % th] if th else []) + \
            (["beta=%g" % rng.choice([.2, .9])] if rng.random() < .4 else [])
        yield {"nf": nf, "np": np_, "par": par, "th": th, "fv": fv, "A": [train() for _ in range(rng.choice([0, 1, 2, 6]) if i % 40 else 25)],
               "B": [train() for _ in range(rng.choice([0, 1, 3]))], "pre": rng.choice([0, 5, 20]) if not th else 0,
               "seed": rng.getrandbits(50), "seed2": rng.getrandbits(50)}


def run(case, env, obs):
    nf, np_, par = case["nf"], case["np"], case["par"]
    Q = [v for v in case["fv"] for _ in range(8)] * 3
    pre = [case["fv"][i % len(case["fv"])] for i in range(case["pre"])]
    info = "PolicyNet," + ",".join(par)

    def fill(s, name, d):
        s.add("dnew", name)
        for v, p, x in d:
            s.add("dins", name, p, x, *v)

    with env.scratch() as cwd:
        s = Script()
        s.env(APOLLO_STORE_MODELS=1)
        for i, d in enumerate(case["A"]):
            fill(s, "A%d" % i, d)
        for i, d in enumerate(case["B"]):
            fill(s, "B%d" % i, d)
        s.add("entropy", case["seed"])
        s.add("mk", "x", "PolicyNet", nf, np_, *par)
        for i in range(len(case["A"])):
            s.add("mtrain", "x", "A%d" % i)
        if pre:
            s.query("x", pre, "mq")
        s.add("mst", "x", "x.net")
        ref = s.query("x", Q, "mq")
        s.add("mst", "x", "x2.net")
        # a different network, stored to be loaded as well
        s.add("entropy", case["seed2"])
        s.add("mk", "o", "PolicyNet", nf, np_, *par)
        s.add("mst", "o", "o.net")
        got = {}
        for h, steps in (("fresh", ""), ("trained", "t"), ("loaded", "l"), ("cached", "tl"), ("twice", "x")):
            s.add("entropy", case["seed"])
            s.add("mk", h, "PolicyNet", nf, np_, *par)
            if "t" in steps:
                for i in range(len(case["B"])):
                    s.add("mtrain", h, "B%d" % i)
            if "l" in steps:
                s.add("mld", h, "o.net")
            if pre:
                s.query(h, pre, "mq")
            s.add("mld", h, "x.net")
            if "x" in steps:
                s.add("mld", h, "x.net")
            got[h] = s.query(h, Q, "mq")
            s.add("mst", h, h + ".net")
        # a region that stores its own latest model
        s.add("entropy", case["seed"])
        s.region("R", nf, np_, "R", info=info)
        for d in case["A"]:
            s.add("rclr", "R")
            for v, p, x in d:
                s.add("rins", "R", p, x, *v)
            s.add("train", 7)
        rref = s.query("R", Q)
        res = env.go(s, cwd)
        if not obs.conform(res, "storing process"):
            return
        s2 = Script()
        got2 = {}
        s2.add("entropy", case["seed"])
        s2.region("P", nf, np_, "P", info=info + ",load=x.net")
        if pre:
            s2.query("P", pre)
        got2["load=path"] = s2.query("P", Q)
        s2.add("entropy", case["seed"])
        s2.region("Y", nf, np_, "Y", info=info, yaml="x.net")
        if pre:
            s2.query("Y", pre)
        got2["model file argument"] = s2.query("Y", Q)
        s2.add("mload", "P", "x.net")
        s2.add("mstore", "P", "p.net")
        rl = None
        if case["A"]:
            s2.add("entropy", case["seed"])
            s2.region("R", nf, np_, "R", info=info + ",load")
            rl = s2.query("R", Q)
        res2 = env.go(s2, cwd)
        if not obs.conform(res2, "loading process"):
            return
        want = res.ints(ref)
        for r, gg in ((res, got), (res2, got2)):
            for h, ln in gg.items():
                if r.ints(ln) != want:
                    p = r.ints(ln)
                    i = next(i for i in range(len(want)) if p[i] != want[i])
                    raise Mismatch("loaded net (%s) draws %d at selection %d for %r, the stored net drew %d with the same random numbers"
                                   % (h, p[i], i, Q[i], want[i]))
                obs.count("sequences_compared")
        if rl is not None:
            if res2.ints(rl) != res.ints(rref):
                raise Mismatch("a region loading its latest PolicyNet draws %r, the trained one drew %r" % (res2.ints(rl)[:20], res.ints(rref)[:20]))
            obs.count("latest_compared")
            a = gen.read_file(os.path.join(cwd, ".apollo/models/PolicyNet-latest-rank-0-R.yaml"), True)
            b = gen.read_file(os.path.join(cwd, ".apollo/models/PolicyNet-step-7-rank-0-R.yaml"), True)
            if a != b:
                raise Mismatch("latest and step file of a PolicyNet differ")
        x = gen.read_file(os.path.join(cwd, "x.net"), True)
        for f in list(got) + ["x2", "p"]:
            if gen.read_file(os.path.join(cwd, f + ".net"), True) != x:
                raise Mismatch("storing the loaded net again (%s) gives a different file" % f)
            obs.count("files_compared")
    if len(set(want)) > 1:
        obs.sig = sig(want, x[:64])
        obs.note = "%d trainings, first draws %s" % (len(case["A"]), want[:12])
