import os
from vf import Script, Mismatch, sig
import gen
PROP = "C10"
VARIANTS = ["asan"]
RULE = ("decision trees trained on random datasets (all feature families, shared coordinates, up to 200 samples and 24 classes, every 60th case up to 1500 samples, 70 features, 300 classes, another 60th with 1-3 samples of a rare class among up to 2200, depth limit "
        "0-30), stored trees checked node by node against the best-policy samples with an exhaustive reference search for the smallest "
        "weighted Gini, and compared with the model's own predictions; non-trivial: tree has at least two splits")


def dataset(rng, nf, np_, n):
    vecs = gen.vectors(rng, nf, n)
    out, best = [], []
    how = rng.random()
    w = [rng.uniform(-1, 1) for _ in range(nf)]
    for v in vecs:
        if how < .4:
            b = rng.randrange(np_)
        elif how < .7:
            b = int(abs(sum(a * x for a, x in zip(w, v)))) % np_ if v else 0
        else:
            b = 0 if rng.random() < .7 else rng.randrange(np_)
        ms = [rng.uniform(1, 2) for _ in range(np_)]
        ms[b] = rng.uniform(.1, .9)
        for p in range(np_):
            if p == b or rng.random() < (.4 if np_ < 30 else .02):
                out.append((v, p, ms[p]))
        best.append((v, b))
    rng.shuffle(out)
    return vecs, out, best


def cases(rng, tier):
    for i in range(3000 if tier == "quick" else 30000):
        nf, np_ = rng.choice([0, 1, 1, 2, 3, 4, 8]), rng.choice([1, 2, 2, 3, 5, 24])
        n = rng.choice([1, 2, 3, 5, 10, 30, 60] + ([200] if rng.random() < .3 else []))
        if i % 60 == 0:
            nf, np_, n = rng.choice([(1, 300, 600), (40, 2, 120), (70, 3, 60), (2, 5, 1500), (3, 140, 300)])
        vecs, d, best = dataset(rng, nf, np_, n)
        if i % 1000 == 90:  # hundreds of classes, one sample each
            nf, np_ = 1, 450
            vecs = gen.vectors(rng, 1, 450, ["frac"])
            best = list(zip(vecs, rng.sample(range(np_), len(vecs))))
            d = [(v, b, .5) for v, b in best]
        depths = [None, 0, 1, 2, 3, 5, 8, 30]
        if i % 60 == 45:  # alternating answers: deep trees
            nf, np_, depths = 1, rng.choice([2, 3]), [10, 20, 31, 40, 100]
            vecs = sorted(gen.vectors(rng, 1, rng.choice([60, 150]), ["frac"]))
            best = [(v, k % np_) for k, v in enumerate(vecs)]
            d = [(v, b, .5) for v, b in best]
        if i % 60 == 30:  # a rare class among hundreds or thousands of samples
            nf, np_ = rng.choice([(1, 2), (1, 3), (2, 4)])
            vecs = gen.vectors(rng, nf, rng.choice([150, 400, 900, 2200]) // nf, ["frac"])
            odd = set(rng.sample(range(len(vecs)), rng.choice([1, 1, 2, 3])))
            best = [(v, np_ - 1 if k in odd else 0) for k, v in enumerate(vecs)]
            d = [(v, b, .5) for v, b in best] + [(v, (b + 1) % np_, 1.) for v, b in best[:20]]
        yield {"nf": nf, "np": np_, "depth": rng.choice(depths), "d": d, "best": best,
               "how": rng.choice(["region", "bare", "retrain"]), "q": gen.neighbours(rng, vecs, 20)}


def run(case, env, obs):
    s = Script()
    nf, np_, dep = case["nf"], case["np"], case["depth"]
    par = [] if dep is None else ["max_depth=%d" % dep]
    if case["how"] == "region":
        s.region("r", nf, np_, "r", info=",".join(["DecisionTree"] + par))
        for v, p, x in case["d"]:
            s.add("rins", "r", p, x, *v)
        s.add("train", 0)
        q = s.query("r", case["q"])
        s.add("mstore", "r", "t.yaml")
    else:
        s.add("dnew", "D")
        for v, p, x in case["d"]:
            s.add("dins", "D", p, x, *v)
        s.add("mk", "m", "DecisionTree", nf, np_, *par)
        if case["how"] == "retrain":
            s.add("dnew", "E")
            for i, (v, p, x) in enumerate(case["d"]):
                s.add("dins", "E", (p + 1) % np_, x + i, *v)
            s.add("mtrain", "m", "E")
        s.add("mtrain", "m", "D")
        q = s.query("m", case["q"], "mq")
        s.add("mst", "m", "t.yaml")
    with env.scratch() as cwd:
        res = env.go(s, cwd)
        if not obs.conform(res):
            return
        t = gen.parse_tree_file(os.path.join(cwd, "t.yaml"))
    lim = 2 if dep is None else dep
    samples = [(tuple(v), b) for v, b in case["best"]]
    n = gen.check_tree(t["root"], samples, nf, lim)
    for v, p in zip(case["q"], res.ints(q)):
        if gen.eval_tree(t["root"], v) != p:
            raise Mismatch("the tree selects %d for %r, its stored form %d" % (p, v, gen.eval_tree(t["root"], v)))
    obs.count("nodes_checked", n)
    obs.count("depth_%d" % min(gen.tree_depth(t["root"]), 9))
    obs.count("predictions_compared", len(case["q"]))
    if n >= 5:
        obs.sig = sig(t["root"])
        obs.note = "%d nodes, depth %d (limit %d), %d samples" % (n, gen.tree_depth(t["root"]), lim, len(samples))
