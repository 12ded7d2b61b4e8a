import os
from vf import Script, Mismatch, sig
import gen
from props.c10 import dataset
PROP = "C11"
VARIANTS = ["asan"]
RULE = ("random forests (1-1100 trees, depth 0-12) trained once and again on random data; stored forest checked: number of trees, each tree "
        "against its own sample (C10 oracle), sample size and membership in the best-policy data, uniformity of the bootstrap "
        "(chi-square, alarm at p<1e-10), and every prediction against the vote count of the stored trees; non-trivial: trees disagree")


def cases(rng, tier):
    q = tier == "quick"
    for i in range(900 if q else 15000):
        nf, np_ = rng.choice([0, 1, 2, 3, 5]), rng.choice([1, 2, 3, 5, 12])
        n, nt = rng.choice([1, 2, 4, 10, 25, 50]), rng.choice([None, 1, 2, 3, 7, 10, 31, 60])
        if i % 60 == 0:
            nf, np_, n, nt = rng.choice([(1, 150, 300, 5), (40, 3, 60, 10), (2, 4, 30, 300), (2, 2, 600, 4), (2, 3, 1500, 3)])
        depths = [None, 0, 1, 2, 4, 12]
        if i % 30 == 11:  # many trees with divided opinions
            nf, np_, n, nt, depths = rng.choice([1, 2]), rng.choice([2, 3, 4]), rng.choice([6, 12, 25]), rng.choice([101, 150, 257, 300, 520, 1100]), [1, 2]
        vecs, d, best = dataset(rng, nf, np_, n)
        yield {"t": "f", "nf": nf, "np": np_, "depth": rng.choice(depths), "nt": nt,
               "d": d, "best": best, "how": rng.choice(["region", "bare", "retrain", "reload"]), "q": gen.neighbours(rng, vecs, 25)}
    for i in range(24 if q else 300):
        n = rng.choice([2, 3, 5, 8, 16, 30]) if i % 6 else rng.choice([130, 700, 1100])
        yield {"t": "boot", "n": n, "nt": 400 if n < 100 else 100, "seed": rng.randrange(10 ** 6)}


def run_boot(case, env, obs):
    s = Script()
    s.add("dnew", "D")
    for i in range(case["n"]):
        s.add("dins", "D", i % 3, 1.0, float(i))
    s.add("mk", "m", "RandomForest", 1, 3, "num_trees=%d" % case["nt"], "max_depth=1")
    s.add("mtrain", "m", "D")
    s.add("mst", "m", "f.yaml")
    with env.scratch() as cwd:
        res = env.go(s, cwd)
        if not obs.conform(res):
            return
        f = gen.parse_forest_file(os.path.join(cwd, "f.yaml"))
    from scipy.stats import chi2
    cnt = {}
    for t in f["trees"]:
        if len(t["data"]) != case["n"]:
            raise Mismatch("a tree of the forest is fitted to %d samples of %d" % (len(t["data"]), case["n"]))
        for v, c in t["data"]:
            cnt[v] = cnt.get(v, 0) + 1
    N, e = case["n"], case["nt"]
    x = sum((cnt.get((float(i),), 0) - e) ** 2 / e for i in range(N))
    # multinomial per tree: the counts over all draws are multinomial
    if chi2.sf(x, N - 1) < 1e-10:
        raise Mismatch("bootstrap of %d samples is not uniform: counts %r over %d trees" % (N, sorted(cnt.items())[:30], e))
    kinds = {tuple(sorted(t["data"])) for t in f["trees"]}
    if len(kinds) < 2:
        raise Mismatch("all %d trees are fitted to the same sample of %d points" % (e, N))
    if N <= 3:
        # ordered pairs of distinctness: with replacement, repeats must occur
        rep = sum(1 for t in f["trees"] if len(set(t["data"])) < N)
        p = 1 - {2: 2 / 4, 3: 6 / 27}[N]
        sd = (e * p * (1 - p)) ** .5
        if abs(rep - e * p) > 7 * sd:
            raise Mismatch("%d of %d samples of %d points contain repeats, expected about %.0f" % (rep, e, N, e * p))
    obs.count("bootstrap_draws", N * e)
    obs.sig = sig("boot", N, sorted(cnt.items()))


def run(case, env, obs):
    if case["t"] == "boot":
        return run_boot(case, env, obs)
    s = Script()
    nf, np_, dep, nt = case["nf"], case["np"], case["depth"], case["nt"]
    par = ([] if dep is None else ["max_depth=%d" % dep]) + ([] if nt is None else ["num_trees=%d" % nt])
    if case["how"] == "region":
        s.region("r", nf, np_, "r", info=",".join(["RandomForest"] + par))
        for v, p, x in case["d"]:
            s.add("rins", "r", p, x, *v)
        s.add("train", 0)
        q = s.query("r", case["q"])
        s.add("mstore", "r", "f.yaml")
    else:
        s.add("dnew", "D")
        for v, p, x in case["d"]:
            s.add("dins", "D", p, x, *v)
        s.add("mk", "m", "RandomForest", nf, np_, *par)
        if case["how"] == "retrain":
            s.add("dnew", "E")
            for i, (v, p, x) in enumerate(case["d"][:7]):
                s.add("dins", "E", (p + 1) % np_, x + i, *v)
            s.add("mtrain", "m", "E")
            s.query("m", case["q"][:3], "mq")
        s.add("mtrain", "m", "D")
        q = s.query("m", case["q"], "mq")
        s.add("mst", "m", "f.yaml")
        if case["how"] == "reload":
            s.add("mld", "m", "f.yaml")
            q = s.query("m", case["q"], "mq")
            s.add("mst", "m", "f.yaml")
    with env.scratch() as cwd:
        res = env.go(s, cwd)
        if not obs.conform(res):
            return
        f = gen.parse_forest_file(os.path.join(cwd, "f.yaml"))
    want = 10 if nt is None else nt
    if len(f["trees"]) != want:
        raise Mismatch("forest of %d trees, configured are %d" % (len(f["trees"]), want))
    lim = 2 if dep is None else dep
    best = {tuple(v): b for v, b in case["best"]}
    for i, t in enumerate(f["trees"]):
        if len(t["data"]) != len(best):
            raise Mismatch("tree %d is fitted to %d samples, the training data has %d" % (i, len(t["data"]), len(best)))
        for v, c in t["data"]:
            if best.get(v) != c:
                raise Mismatch("tree %d has the training sample %r class %d, best policy there is %r" % (i, v, c, best.get(v)))
        obs.count("nodes_checked", gen.check_tree(t["root"], t["data"], nf, lim))
        obs.count("trees_checked")
    dis = False
    for v, p in zip(case["q"], res.ints(q)):
        votes = {}
        for t in f["trees"]:
            c = gen.eval_tree(t["root"], v)
            votes[c] = votes.get(c, 0) + 1
        dis |= len(votes) > 1
        if votes.get(p, 0) != max(votes.values()):
            raise Mismatch("forest selects %d for %r, votes are %r" % (p, v, votes))
        obs.count("votes_compared")
    if dis:
        obs.sig = sig(res.ints(q), [t["root"] for t in f["trees"]])
        obs.note = "%d trees, %d samples" % (want, len(best))
