import collections
from vf import Script, Mismatch, sig
import gen
PROP = "C03"
VARIANTS = ["asan"]
RULE = ("RoundRobin/Static/untrained-tree selection sequences of interleaved regions compared exactly with the cyclic order, "
        "Random draws tested by chi-square (single draws, successive pairs, first draws of fresh models; alarm at p<1e-10), "
        "repeated queries of trained and loaded models compared for being a fixed function; non-trivial: more than one policy")
ALPHA = 1e-10


def cases(rng, tier):
    q = tier == "quick"
    for i in range(500 if q else 6000):
        regs = []
        for k in range(rng.choice([1, 2, 3])):
            np_ = rng.choice([1, 2, 3, 4, 7, 16, 33, 70])
            m = rng.choice(["RoundRobin", "RoundRobin", "Static", "Static,policy=%d" % rng.randrange(np_), "DecisionTree",
                            "DecisionTree,max_depth=4,explore=RoundRobin", "RandomForest,num_trees=3",
                            "RandomForest,explore=RoundRobin", "DecisionTree,explore=Random", "RandomForest,num_trees=2,max_depth=1,explore=RoundRobin",
                            "RandomForest,explore=RoundRobin,max_depth=3,num_trees=5"])
            nf = rng.choice([0, 1, 2, 3])
            regs.append({"np": np_, "nf": nf, "m": m, "vecs": gen.vectors(rng, nf, rng.choice([1, 2, 6]))})
        ops = []
        for _ in range(rng.choice([20, 60, 120])):
            r = rng.randrange(len(regs))
            k = rng.random()
            v = rng.randrange(len(regs[r]["vecs"]))
            ops.append(("x", r, v, gen.metric(rng)) if k < .85 else ("train",) if k < .88 else ("rtrain", r) if k < .92
                       else ("load", r) if k < .94 else ("pol2", r, v, gen.metric(rng)))
        yield {"t": "seq", "regs": regs, "ops": ops}
    for i in range(8 if q else 60):  # long runs
        m = rng.choice(["RoundRobin", "DecisionTree", "RandomForest", "Static,policy=2"])
        yield {"t": "long", "m": m, "np": rng.choice([3, 7, 129, 256, 300, 1000, 33000, 66000]), "n": rng.choice([70000, 140000])}
    for i in range(60 if q else 500):
        yield {"t": "rand", "np": rng.choice([2, 3, 4, 5, 7, 10, 20, 32, 100]), "ent": rng.getrandbits(60),
               "m": rng.choice(["Random", "Random", "DecisionTree,explore=Random", "DecisionTree,max_depth=3,explore=Random", "RandomForest,explore=Random",
                                "RandomForest,num_trees=3,explore=Random", "RandomForest,explore=Random,max_depth=1,num_trees=2"]),
               "how": rng.choice(["q", "x", "two"]), "nf": rng.choice([0, 1, 2])}
    for np_ in (257, 300, 1000, 5000):
        yield {"t": "rand", "np": np_, "ent": rng.getrandbits(60), "m": "Random", "how": "q", "nf": 1, "n": 60 * np_}
    for np_ in (2, 3, 4, 6, 16, 64):  # long sequences, also judged by position
        for m in ("Random", "RandomForest,explore=Random"):
            yield {"t": "rand", "np": np_, "ent": rng.getrandbits(60), "m": m, "how": "q", "nf": 1, "n": 150000 if q else 600000}
    for i in range(16 if q else 100):
        yield {"t": "first", "np": rng.choice([2, 3, 5, 8]), "ent": rng.getrandbits(60)}


def expected_static(m, np_):
    if m == "Static":
        return 0
    return int(m.split("=")[1])


def run_seq(case, env, obs):
    s = Script()
    for k, g in enumerate(case["regs"]):
        s.region("r%d" % k, g["nf"], g["np"], "g%d" % k, info=g["m"])
    log = []
    for op in case["ops"]:
        if op[0] == "train":
            s.add("train", 0)
            log.append(("train", None))
        elif op[0] == "rtrain":
            s.add("rtrain", "r%d" % op[1], 0, 1, 0)
            log.append(("rtrain", op[1]))
        elif op[0] == "load":
            g = case["regs"][op[1]]
            if not g["m"].startswith(("DecisionTree", "RandomForest")):
                continue
            # a bare model trained elsewhere, loaded into the region
            b = g["m"].split(",")[0]
            s.add("mk", "B", b, g["nf"], g["np"])
            s.add("dnew", "D")
            for i, v in enumerate(g["vecs"]):
                s.add("dins", "D", i % g["np"], 1.0, *v)
            s.add("mtrain", "B", "D")
            s.add("mst", "B", "b.yaml")
            s.add("mload", "r%d" % op[1], "b.yaml")
            log.append(("load", op[1]))
        elif op[0] == "x":
            log.append(("x", op[1], op[2], s.x("r%d" % op[1], op[3], case["regs"][op[1]]["vecs"][op[2]])))
        else:  # two selections within one execution
            h = "r%d" % op[1]
            s.add("beginv", h, "c", *case["regs"][op[1]]["vecs"][op[2]])
            a = s.add("pol", h, "c")
            b = s.add("pol", h, "c")
            s.add("endm", h, "c", op[3])
            log.append(("x", op[1], op[2], a))
            log.append(("s", op[1], op[2], b))
    with env.scratch() as cwd:
        res = env.go(s, cwd)
    if not obs.conform(res):
        return
    nsel = [0] * len(case["regs"])
    data = [0] * len(case["regs"])
    fixed = [None] * len(case["regs"])
    hist = []
    for e in log:
        if e[0] in ("train", "rtrain"):
            for r, g in enumerate(case["regs"]):
                if (e[1] is None or e[1] == r) and data[r] and g["m"].startswith(("DecisionTree", "RandomForest")) and fixed[r] is None:
                    fixed[r] = {}
        elif e[0] == "load":
            fixed[e[1]] = {}
        else:
            _, r, v, ln = e
            g = case["regs"][r]
            p = res.p(ln)
            hist.append((r, p))
            if fixed[r] is not None:
                obs.count("after_training")
                if fixed[r].setdefault(v, p) != p:
                    raise Mismatch("%s after training selects both %d and %d for features %r" % (g["m"], fixed[r][v], p, g["vecs"][v]))
                continue
            if g["m"].startswith("Static"):
                want = expected_static(g["m"], g["np"])
            elif "Random" in g["m"] and "RandomForest" not in g["m"] or "explore=Random" in g["m"]:
                want = None
                if not 0 <= p < g["np"]:
                    raise Mismatch("random exploration selected %d of %d" % (p, g["np"]))
            else:
                want = nsel[r] % g["np"]
            nsel[r] += 1
            if e[0] == "x":
                data[r] += 1
            obs.count("explored")
            if want is not None and p != want:
                raise Mismatch("region %d (%s, %d policies): selection %d is %d, expected %d" % (r, g["m"], g["np"], nsel[r] - 1, p, want))
    if any(g["np"] > 1 for g in case["regs"]):
        obs.sig = sig(case["regs"], hist)
        obs.note = "%d selections over %s" % (len(hist), [g["m"] for g in case["regs"]])


def run_long(case, env, obs):
    s = Script()
    s.region("a", 1, case["np"], "a", info=case["m"])
    s.region("b", 1, case["np"], "b", info=case["m"])
    lns, k = [], case["n"] // 7
    for _ in range(7):
        lns.append(s.add("qn", "a", k, 1.0))
        s.add("qn", "b", 5, 1.0)
    with env.scratch() as cwd:
        res = env.go(s, cwd)
    if not obs.conform(res):
        return
    seq = [p for ln in lns for p in res.ints(ln)]
    for i, p in enumerate(seq):
        want = 2 if case["m"].startswith("Static") else i % case["np"]
        if p != want:
            raise Mismatch("%s with %d policies: selection %d is %d, expected %d" % (case["m"], case["np"], i, p, want))
    obs.count("explored", len(seq))
    obs.sig = sig("long", case)


def chi(counts, what):
    from scipy.stats import chi2
    n, k = sum(counts), len(counts)
    e = n / k
    x = sum((c - e) ** 2 / e for c in counts)
    p = float(chi2.sf(x, k - 1))
    if p < ALPHA:
        raise Mismatch("%s is not uniform: counts %r, chi-square %.1f, p=%.2g" % (what, counts[:40], x, p))


def run_rand(case, env, obs):
    np_ = case["np"]
    n = case.get("n") or 500 * np_
    s = Script()
    s.add("entropy", case["ent"])
    s.region("a", case["nf"], np_, "a", info=case["m"])
    s.region("b", case["nf"], np_, "b", info=case["m"])
    lns = []
    v = [1.0] * case["nf"]
    if case["how"] == "q":
        lns = [s.add("qn", "a", n, *v)]
    elif case["how"] == "x":
        n = min(n, 3000)
        lns = [s.x("a", 1.0, v) for _ in range(n)]
    else:  # alternate two regions, judge one
        for _ in range(20):
            lns.append(s.add("qn", "a", n // 20, *v))
            s.add("qn", "b", 7, *v)
    with env.scratch() as cwd:
        res = env.go(s, cwd)
    if not obs.conform(res):
        return
    seq = [p for ln in lns for p in res.ints(ln)]
    if any(not 0 <= p < np_ for p in seq):
        raise Mismatch("Random selected %r of %d policies" % (sorted(set(seq)), np_))
    cnt = collections.Counter(seq)
    chi([cnt[k] for k in range(np_)], "Random selection over %d policies" % np_)
    if len(seq) >= 100000:
        for per in (2, 3, 4, 5, 7, 8, 10, 16, 32, 50, 64, 100, 128, 256, 1000):
            if len(seq) < 20 * per * np_:
                continue
            cells = collections.Counter((i % per) * np_ + x for i, x in enumerate(seq[:len(seq) // per * per]))
            chi([cells[k] for k in range(per * np_)], "Random selection by position modulo %d" % per)
    if np_ <= 5:
        for lag in (1, 2, np_):
            pr = [0] * (np_ * np_)
            for a, b in zip(seq[::lag + 1], seq[lag::lag + 1]):
                pr[a * np_ + b] += 1
            if sum(pr) > 5 * len(pr):
                chi(pr, "pair distribution at lag %d of Random" % lag)
    obs.count("random_draws", len(seq))
    obs.sig = sig(np_, seq)


def run_first(case, env, obs):
    s = Script()
    s.add("entropy", case["ent"])
    lns = []
    for k in range(150 * case["np"]):
        s.add("mk", "m", "Random", 1, case["np"])
        lns.append(s.add("mqn", "m", 2, 1.0))
    with env.scratch() as cwd:
        res = env.go(s, cwd)
    if not obs.conform(res):
        return
    for j, w in enumerate(("first", "second")):
        seq = [res.ints(ln)[j] for ln in lns]
        if any(not 0 <= p < case["np"] for p in seq):
            raise Mismatch("Random selected %r of %d policies" % (sorted(set(seq)), case["np"]))
        chi([seq.count(k) for k in range(case["np"])], "%s selection of fresh Random models" % w)
    obs.count("fresh_models", len(lns))
    obs.sig = sig(seq)


def run(case, env, obs):
    {"seq": run_seq, "long": run_long, "rand": run_rand, "first": run_first}[case["t"]](case, env, obs)
