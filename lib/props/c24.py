import os
from vf import Script, Mismatch, f32, f32_next, sig
import gen
PROP = "C24"
VARIANTS = ["asan", "mpi"]
RULE = ("dataset-map regions on dataset files written by the library (a recorded run or the Dataset class) and by hand: every selection "
        "compared with the minimum-metric policies of the file while the regions execute, train and record; optimal-sequence regions on "
        "sequence files, interleaved over regions, forms of the API and (MPI) ranks: every selection compared with the file; unknown "
        "features, used-up sequences, missing and empty files must end the process; non-trivial: at least two distinct policies prescribed")


def cases(rng, tier):
    q = tier == "quick"
    for i in range(2500 if q else 30000):
        regs = []
        for k in range(rng.choice([1, 1, 2, 3])):
            nf, np_ = rng.choice([0, 1, 1, 2, 4]), rng.choice([1, 2, 3, 8])
            vecs = gen.vectors(rng, nf, rng.choice([1, 3, 10, 40]))
            tie = rng.random() < .15
            d = []
            for v in vecs:
                for p in rng.sample(range(np_), rng.randint(1, np_)):
                    d.append((v, p, 1.0 if tie else gen.metric(rng)))
            rng.shuffle(d)
            regs.append({"nf": nf, "np": np_, "d": d, "vecs": vecs, "name": rng.choice(["r%d", "m-%d", "%d", "k" * 62 + "%d", "n%d" + "w" * 70]) % k})
        ops = []
        for _ in range(rng.choice([5, 20, 60])):
            r = rng.randrange(len(regs))
            k = rng.random()
            if k < .75:
                ops.append(["x", r, rng.randrange(len(regs[r]["vecs"])), gen.metric(rng)])
            elif k < .85:
                ops.append(["train"])
            elif k < .9:
                ops.append(["rtrain", r])
            else:
                ops.append(["q", r])
        unk = None
        if rng.random() < .4:
            r = rng.randrange(len(regs))
            have = set(regs[r]["vecs"])
            c = [v for v in gen.neighbours(rng, regs[r]["vecs"], 12) if v not in have]
            if regs[r]["nf"] and c:
                unk = [r, rng.choice(c)]
        yield {"t": "map", "regs": regs, "ops": ops, "unk": unk, "persist": rng.random() < .3, "via": rng.choice(["store", "run", "text"]),
               "out": rng.choice([None, "od"]), "dd": rng.choice([None, "dsets"]), "env": rng.random() < .3, "mt": rng.choice([0, 0, 2]),
               "P": rng.choice([0, 0, 3]), "Q": rng.choice([0, 0, 2])}
    for i in range(2500 if q else 30000):
        yield optcase(rng)
    for i in range(6 if q else 60):
        n = rng.choice([2, 3])
        yield {"t": "optmpi", "ranks": [optcase(rng, False) for _ in range(n)]}
    for t in ("nomap", "emptymap", "noopt", "mapmiss2", "emptyopt"):
        for i in range(3):
            yield {"t": "bad", "k": t, "name": "r%d" % i, "nf": i}


def optcase(rng, fail=True):
    regs = []
    for k in range(rng.choice([1, 2, 3])):
        np_ = rng.choice([2, 3, 8, 300])
        seq = [rng.randrange(np_) for _ in range(rng.choice([1, 4, 20, 200] if rng.random() < .97 else [3000]))]
        regs.append({"np": np_, "nf": rng.choice([0, 1, 3]), "seq": seq, "name": "o%d" % k if rng.random() < .7 else "p" * 60 + str(k),
                     "fmt": rng.choice([",", ",", ", ", ",\n"]), "nl": rng.random() < .4})
    ops = []
    left = [len(g["seq"]) for g in regs]
    for _ in range(rng.choice([3, 20, 300]) if max(left) < 3000 else 4000):
        r = rng.randrange(len(regs))
        if left[r] and rng.random() < .9:
            left[r] -= 1
            ops.append(["s", r, rng.choice("xcdq")])
        elif rng.random() < .3:
            ops.append(["train"])
    ex = None
    if fail and rng.random() < .5:
        r = rng.randrange(len(regs))
        while left[r]:
            left[r] -= 1
            ops.append(["s", r, "x"])
        ex = r
    return {"t": "opt", "regs": regs, "ops": ops, "ex": ex, "persist": rng.random() < .2}


def dsdir(case):
    return (case["out"] or ".apollo") + "/" + (case["dd"] or "datasets")


def stopped(obs, res, lastline, what):
    """The process must have ended in an error without a response to lastline or after it."""
    obs.events += res.events
    if res.sanitizer:
        raise Mismatch(what + ": " + res.problem())
    v = res.out.get(lastline)
    if v is not None and not v.startswith("exc "):
        raise Mismatch("%s did not stop the program: %s" % (what, v))
    if res.rc == 0 and not (v or "").startswith("exc "):
        raise Mismatch("%s: the program ended normally" % what)
    obs.count("stops_confirmed")


def run_map(case, env, obs):
    regs = case["regs"]
    for g in regs:
        g["vecs"] = [tuple(v) for v in g["vecs"]]
        g["d"] = [(tuple(v), p, m) for v, p, m in g["d"]]

    def envs(s):
        if case["out"]:
            s.env(APOLLO_OUTPUT_DIR=case["out"])
        if case["dd"]:
            s.env(APOLLO_DATASETS_DIR=case["dd"])

    with env.scratch() as cwd:
        d = dsdir(case)
        os.makedirs(os.path.join(cwd, d))
        s = Script()
        if case["via"] == "run":
            envs(s)
            s.env(APOLLO_PERSISTENT_DATASETS=1)
        for k, g in enumerate(regs):
            f = "%s/Dataset-%s.yaml" % (d, g["name"][:63])
            if case["via"] == "store":
                s.add("dnew", "D")
                for v, p, m in g["d"]:
                    s.add("dins", "D", p, m, *v)
                s.add("dstore", "D", f)
            elif case["via"] == "run":
                s.region("r%d" % k, g["nf"], g["np"], g["name"], info="RoundRobin")
                for v, p, m in g["d"]:
                    s.add("rins", "r%d" % k, p, m, *v)
        if s.lines and not obs.conform(env.go(s, cwd), "writing datasets"):
            return
        if case["via"] == "text":
            # the file format, written independently of the library
            for g in regs:
                with open(os.path.join(cwd, d, "Dataset-%s.yaml" % g["name"][:63]), "w") as f:
                    f.write("data: {\n")
                    for i, (v, p, m) in enumerate(g["d"]):
                        f.write("  %d: { features: [ %s], policy: %d, xtime: %.17g },\n" % (i, "".join("%.9g, " % x for x in v), p, m))
                    f.write("}\n")
        s = Script()
        envs(s)
        s.env(APOLLO_PERSISTENT_DATASETS=int(case["persist"]), APOLLO_GLOBAL_TRAIN_PERIOD=case["P"], APOLLO_PER_REGION_TRAIN_PERIOD=case["Q"])
        if case["env"]:
            s.env(APOLLO_POLICY_MODEL="DatasetMap")
        chk = []
        for k, g in enumerate(regs):
            s.region("r%d" % k, g["nf"], g["np"], g["name"], mt=case["mt"], info="" if case["env"] else "DatasetMap")
            g["best"] = gen.argmins({(v, p): m for v, p, m in g["d"]})
            for i, v in enumerate(g["vecs"]):
                chk.append((g, i, s.query("r%d" % k, [v])))
        for op in case["ops"]:
            if op[0] == "x":
                chk.append((regs[op[1]], op[2], s.x("r%d" % op[1], op[3], regs[op[1]]["vecs"][op[2]])))
            elif op[0] == "train":
                s.add("train", 1)
            elif op[0] == "rtrain":
                s.add("rtrain", "r%d" % op[1], 1, 1, 0)
            else:
                for i, v in enumerate(regs[op[1]]["vecs"][:5]):
                    chk.append((regs[op[1]], i, s.query("r%d" % op[1], [v])))
        bad = None
        if case["unk"]:
            bad = s.x("r%d" % case["unk"][0], 1.0, case["unk"][1])
        res = env.go(s, cwd)
        if bad:
            stopped(obs, res, bad, "selecting for features %r that are not in the dataset" % (case["unk"][1],))
        elif not obs.conform(res, "dataset-map run"):
            return
        for g, i, ln in chk:
            o = res.out.get(ln, "")
            if o[:2] not in ("p ", "s "):
                raise Mismatch("no selection for measured features %r: %r" % (g["vecs"][i], o or res.problem()))
            p = int(o[2:])
            if p not in g["best"][g["vecs"][i]]:
                raise Mismatch("dataset-map selects %d for %r, the file's best is %r" % (p, g["vecs"][i], sorted(g["best"][g["vecs"][i]])))
            obs.count("map_selections")
        if len({tuple(b) for g in regs for b in g["best"].values()}) > 1:
            obs.sig = sig("map", [sorted(g["best"].items()) for g in regs if True], bool(bad))
            obs.note = "%d lookups over %d regions" % (len(chk), len(regs))


def optscript(case, rank, cwd):
    s = Script()
    s.env(APOLLO_PERSISTENT_DATASETS=int(case["persist"]))
    for k, g in enumerate(case["regs"]):
        with open(os.path.join(cwd, "opt-%s-rank-%d.txt" % (g["name"], rank)), "w") as f:
            f.write(g["fmt"].join(str(p) for p in g["seq"]) + ("\n" if g["nl"] else ""))
        s.region("r%d" % k, g["nf"], g["np"], g["name"], info="Optimal")
    pos = [0] * len(case["regs"])
    chk = []
    for op in case["ops"]:
        if op[0] == "train":
            s.add("train", 1)
            continue
        r = op[1]
        g, h = case["regs"][r], "r%d" % r
        vec = [float(pos[r] % 7)] * g["nf"]
        if op[2] == "x":
            ln = s.x(h, .5, vec)
        elif op[2] == "q":
            ln = s.query(h, [vec])
        elif op[2] == "c":
            s.add("cbegin", h)
            for v in vec:
                s.add("cfeat", h, v)
            ln = s.add("cpol", h)
            s.add("cend", h)
        else:
            s.add("begin", h, "c")
            for v in vec:
                s.add("featd", h, v)
            ln = s.add("pold", h)
            s.add("endd", h)
        chk.append((r, pos[r], ln))
        pos[r] += 1
    return s, chk


def optjudge(case, chk, res, obs):
    for r, i, ln in chk:
        o = res.out.get(ln, "")
        if o[:2] not in ("p ", "s "):
            raise Mismatch("optimal: no selection %d of region %d: %r" % (i, r, o or res.problem()))
        if int(o[2:]) != case["regs"][r]["seq"][i]:
            raise Mismatch("optimal: selection %d of region %d is %s, the file says %d" % (i, r, o[2:], case["regs"][r]["seq"][i]))
        obs.count("optimal_selections")
    if len({case["regs"][r]["seq"][i] for r, i, _ in chk}) > 1:
        obs.sig = sig("opt", [g["seq"] for g in case["regs"]], case["ops"])


def run_opt(case, env, obs):
    with env.scratch() as cwd:
        s, chk = optscript(case, 0, cwd)
        bad = None
        if case["ex"] is not None:
            bad = s.x("r%d" % case["ex"], 1.0, [0.0] * case["regs"][case["ex"]]["nf"])
        res = env.go(s, cwd)
        if bad:
            stopped(obs, res, bad, "selecting from a used-up sequence")
        elif not obs.conform(res, "optimal run"):
            return
        optjudge(case, chk, res, obs)


def run_optmpi(case, env, obs):
    with env.scratch() as cwd:
        sc = [optscript(c, r, cwd) for r, c in enumerate(case["ranks"])]
        rs = env.mpi([s for s, _ in sc], cwd)
        for r, res in enumerate(rs):
            if not obs.conform(res, "rank %d" % r):
                return
        for c, (s, chk), res in zip(case["ranks"], sc, rs):
            optjudge(c, chk, res, obs)
        obs.count("mpi_ranks", len(rs))


def run_bad(case, env, obs):
    with env.scratch() as cwd:
        s = Script()
        k, n = case["k"], case["name"]
        os.makedirs(os.path.join(cwd, ".apollo/datasets"))
        put = lambda f, t: open(os.path.join(cwd, f), "w").write(t)
        if k == "emptymap":
            put(".apollo/datasets/Dataset-%s.yaml" % n, "data: {\n}\n")
        elif k == "mapmiss2":  # a dataset of another region is not used
            put(".apollo/datasets/Dataset-other.yaml", "data: {\n  0: { features: [ %s], policy: 1, xtime: 1 },\n}\n" % ("1, " * case["nf"]))
        elif k == "noopt":
            put("opt-other-rank-0.txt", "1,0,1")
            put("opt-%s-rank-1.txt" % n, "1,0,1")
        elif k == "emptyopt":
            put("opt-%s-rank-0.txt" % n, "")
        s.region("r", case["nf"], 2, n, info="Optimal" if "opt" in k else "DatasetMap")
        ln = s.x("r", 1.0, [1.0] * case["nf"])
        res = env.go(s, cwd)
        if k != "emptyopt" and res.out.get(1, "").startswith("exc ") and res.out.get(ln) is None:
            obs.count("stops_confirmed")
            return
        stopped(obs, res, ln, k)
        obs.sig = sig(k)


def run(case, env, obs):
    {"map": run_map, "opt": run_opt, "optmpi": run_optmpi, "bad": run_bad}[case["t"]](case, env, obs)
