import os
from vf import Script, Mismatch, f32, f32_next, sig
import gen
PROP = "C08"
VARIANTS = ["asan", "mpi"]
RULE = ("trees and forests trained on random data (all feature families), stored, and loaded in the same and in another process through "
        "every loading path (model load, factory by path, load=path, load latest, model-file argument), into fresh, trained and loaded "
        "models; predictions compared on training points, midpoints +-1 ulp and random vectors, restored files compared structurally, "
        "stored file names and contents compared per training step (steps in any order, also after an earlier run in the same directory); non-trivial: the predictor is not constant")


def queries(rng, vecs, k):
    q = gen.neighbours(rng, vecs, k)
    nf = len(vecs[0])
    for _ in range(2 * k if nf else 0):
        j = rng.randrange(nf)
        a, b = rng.choice(vecs), rng.choice(vecs)
        t = f32((a[j] + b[j]) / 2)
        for z in (t, f32_next(t, True), f32_next(t, False)):
            v = list(rng.choice((a, b)))
            v[j] = gen.norm(z)
            q.append(tuple(v))
    return q


def data(rng, nf, np_, n):
    vecs = gen.vectors(rng, nf, n)
    lab = rng.random()
    out = []
    chain = {v: k for k, v in enumerate(sorted(vecs))} if lab > .9 else None  # alternating answers make deep trees
    for v in vecs:
        best = chain[v] % min(np_, 2) if chain else rng.randrange(np_) if lab < .6 else (int(sum(1 for x in v if x > 0)) + (1 if v and v[0] > 3 else 0)) % np_
        for p in range(np_):
            if p == best:
                out.append((v, p, rng.uniform(.1, 1)))
            elif rng.random() < (.5 if np_ < 30 else .01):
                out.append((v, p, rng.uniform(1.5, 3)))
    return vecs, out


def storecase(rng):
    m = rng.choice(["DecisionTree", "RandomForest"])
    regs = []
    for k in range(rng.choice([1, 2, 3])):
        nf, np_ = rng.choice([0, 1, 2, 3]), rng.choice([2, 3, 5])
        steps = [data(rng, nf, np_, rng.choice([1, 4, 12, 30])) for _ in range(rng.choice([1, 2, 3]))]
        regs.append({"nf": nf, "np": np_, "name": rng.choice(["r%d", "k-%d", "a.b%d", "lat-%d-" + "z" * 50, "same%d", "rank-0-%d", "%d",
                                                              "w" * 70 + "%d"]) % k,
                     "steps": [s[1] for s in steps], "q": queries(rng, sum((s[0] for s in steps), []), 8),
                     "depth": rng.choice([1, 2, 6])})
    if len({g["name"][:63] for g in regs}) < len(regs):
        return None
    n = max(len(g["steps"]) for g in regs)
    def nums(n):
        r = rng.random()
        if r < .25:
            return [rng.choice([0, 0, 1, 5])] * n
        v = rng.sample(range(-3, 40), n)
        if rng.random() < .3:
            v[rng.randrange(n)] = 0
        return sorted(v) if r < .6 else v
    c = {"t": "store", "m": m, "regs": regs, "nums": nums(n),
           "global": rng.random() < .5, "out": rng.choice([None, "o2"]), "md": rng.choice([None, "mods"])}
    if rng.random() < .4:  # an earlier run of the same regions in the same directory
        pr = [dict(g, steps=[data(rng, g["nf"], g["np"], rng.choice([1, 4, 12]))[1] for _ in range(rng.choice([1, 2]))]) for g in regs]
        c["prev"] = {"t": "store", "m": m, "regs": pr, "nums": nums(max(len(g["steps"]) for g in pr)), "global": rng.random() < .5,
                     "out": c["out"], "md": c["md"]}
    return c


def cases(rng, tier):
    q = tier == "quick"
    for i in range(1200 if q else 20000):
        nf, np_ = rng.choice([0, 1, 1, 2, 3, 5]), rng.choice([1, 2, 3, 6, 20])
        m = rng.choice(["DecisionTree", "RandomForest"])
        n = rng.choice([1, 3, 10, 30, 80])
        big = i % 40 == 0
        if big:
            nf, np_, n = rng.choice([(1, 300, 400), (40, 3, 40), (3, 5, 500), (2, 130, 200)])
        vecs, d = data(rng, nf, np_, n)
        v2, d2 = data(rng, nf, np_, rng.choice([1, 5, 20]))
        par = ["max_depth=%d" % rng.choice([0, 1, 2, 4, 12, 60] if not big else [12, 40])]
        if m == "RandomForest":
            par.append("num_trees=%d" % rng.choice([1, 2, 5, 10, 17] if not big else [1, 2]))
        yield {"t": "bare", "m": m, "par": par, "nf": nf, "np": np_, "d": d, "d2": d2, "q": queries(rng, vecs + v2, 20),
               "retrain": rng.random() < .3}
    for i in range(300 if q else 5000):
        c = storecase(rng)
        if c:
            yield c
    for i in range(40 if q else 400):
        cs = [storecase(rng) for _ in range(rng.choice([2, 2, 3]))]
        if None in cs:
            continue
        for c in cs:
            c.pop("prev", None)
            c.update({k: cs[0][k] for k in ("m", "out", "md")})
            if rng.random() < .6:
                # the same regions on every rank, other measurements
                c["nums"] = cs[0]["nums"]
                c["regs"] = [dict(g, steps=[data(rng, g["nf"], g["np"], 10)[1] for _ in g["steps"]]) for g in cs[0]["regs"]]
        yield {"t": "mpi", "ranks": cs}


def parse(m, path):
    return gen.parse_tree_file(path) if m == "DecisionTree" else gen.parse_forest_file(path)


def run_bare(case, env, obs):
    nf, np_, m = case["nf"], case["np"], case["m"]

    def fill(s, name, d):
        s.add("dnew", name)
        for v, p, x in d:
            s.add("dins", name, p, x, *v)

    with env.scratch() as cwd:
        s = Script()
        fill(s, "A", case["d"])
        fill(s, "B", case["d2"])
        s.add("mk", "a", m, nf, np_, *case["par"])
        if case["retrain"]:
            s.add("mtrain", "a", "B")
        s.add("mtrain", "a", "A")
        ref = s.query("a", case["q"], "mq")
        s.add("mst", "a", "a.yaml")
        got, tr = {}, {}
        other = ["max_depth=3"] + (["num_trees=4"] if m == "RandomForest" else [])
        s.add("mk", "f", m, nf, np_, *other)
        s.add("mk", "t", m, nf, np_, *other)
        s.add("mtrain", "t", "B")
        s.add("mst", "t", "b.yaml")
        for h in ("f", "t", "t"):
            s.add("mld", h, "a.yaml")
            got[h] = s.query(h, case["q"], "mq")
            tr[h] = s.add("mtr", h)
        s.add("mk", "l", m, nf, np_)
        s.add("mld", "l", "b.yaml")
        s.add("mld", "l", "a.yaml")
        got["l"] = s.query("l", case["q"], "mq")
        tr["l"] = s.add("mtr", "l")
        s.add("mst", "l", "l.yaml")
        s.add("mst", "t", "t.yaml")
        s.add("mld", "a", "a.yaml")
        got["a"] = s.query("a", case["q"], "mq")
        res = env.go(s, cwd)
        if not obs.conform(res, "storing process"):
            return
        want = res.ints(ref)
        s2 = Script()
        got2, tr2 = {}, {}
        s2.add("mkp", "p", m, np_, "a.yaml")
        got2["factory by path"] = s2.query("p", case["q"], "mq")
        tr2["factory by path"] = s2.add("mtr", "p")
        s2.add("mst", "p", "p.yaml")
        s2.region("R", nf, np_, "R", info=m + ",load=a.yaml")
        s2.region("S", nf, np_, "S", info=m, yaml="a.yaml")
        s2.region("T", nf, np_, "T", info=m + ",load=b.yaml", yaml="a.yaml")
        for h in "RS":
            got2["region " + h] = s2.query(h, case["q"])
            tr2["region " + h] = s2.add("tr", h)
        # executing, training and reloading do not change a loaded predictor
        xs = [(v, s2.x("R", 1.0, v)) for v in case["q"][:6]]
        s2.add("train", 1)
        got2["region R after training request"] = s2.query("R", case["q"])
        s2.add("mload", "T", "a.yaml")
        got2["region T loaded twice"] = s2.query("T", case["q"])
        res2 = env.go(s2, cwd)
        if not obs.conform(res2, "loading process"):
            return
        for r, gg, tt in ((res, got, tr), (res2, got2, tr2)):
            for h, ln in gg.items():
                p = r.ints(ln)
                if p != want:
                    i = next(i for i in range(len(want)) if p[i] != want[i])
                    raise Mismatch("%s loaded (%s) selects %d for %r, the stored one %d" % (m, h, p[i], case["q"][i], want[i]))
                obs.count("loads_compared")
                obs.count("predictions_compared", len(p))
            for h, ln in tt.items():
                if r.t(ln):
                    raise Mismatch("%s loaded (%s) is still exploring/trainable" % (m, h))
        for i, (v, ln) in enumerate(xs):
            if res2.p(ln) != want[i]:
                raise Mismatch("%s loaded by a region executes policy %d for %r, the stored one selects %d" % (m, res2.p(ln), v, want[i]))
        a = parse(m, os.path.join(cwd, "a.yaml"))
        for f in ("l", "t", "p"):
            if parse(m, os.path.join(cwd, f + ".yaml")) != a:
                raise Mismatch("storing a loaded %s again gives a different model file (%s)" % (m, f))
            obs.count("files_compared")
    if len(set(want)) > 1:
        obs.sig = sig(m, want)
        obs.note = "%s %s: %d predictions, %d distinct" % (m, case["par"], len(want), len(set(want)))


def envs(case, s):
    if case["out"]:
        s.env(APOLLO_OUTPUT_DIR=case["out"])
    if case["md"]:
        s.env(APOLLO_MODELS_DIR=case["md"])


def store_script(case):
    s = Script()
    envs(case, s)
    s.env(APOLLO_STORE_MODELS=1)
    hist = [[] for _ in case["regs"]]
    for k, g in enumerate(case["regs"]):
        s.region("r%d" % k, g["nf"], g["np"], g["name"], info="%s,max_depth=%d" % (case["m"], g["depth"]))
    for i, st in enumerate(case["nums"]):
        todo = [(k, g) for k, g in enumerate(case["regs"]) if i < len(g["steps"])]
        for k, g in todo:
            s.add("rclr", "r%d" % k)
            for v, p, x in g["steps"][i]:
                s.add("rins", "r%d" % k, p, x, *v)
        if case["global"] and i == 0:
            s.add("train", st)
        else:
            for k, g in todo:
                s.add("rtrain", "r%d" % k, st, 1, 1)
        for k, g in todo:
            hist[k].append((st, s.query("r%d" % k, g["q"])))
    return s, hist


def load_script(case, res, hist, cwd, rank):
    m = case["m"]
    base = (case["out"] or ".apollo") + "/" + (case["md"] or "models")
    files, chk = set(), []
    s2 = Script()
    envs(case, s2)
    for k, g in enumerate(case["regs"]):
        nm = g["name"][:63]
        last = {}
        for st, ln in hist[k]:
            last[st] = res.ints(ln)
        for st, want in last.items():
            f = "%s/%s-step-%d-rank-%d-%s.yaml" % (base, m, st, rank, nm)
            files.add(os.path.basename(f))
            if not os.path.exists(os.path.join(cwd, f)):
                raise Mismatch("training at step %d left no model file %s" % (st, os.path.basename(f)))
            s2.add("mkp", "m", m, g["np"], f)
            chk.append(("step %d of %s" % (st, nm), s2.query("m", g["q"], "mq"), want, g))
        lf = "%s-latest-rank-%d-%s.yaml" % (m, rank, nm)
        files.add(lf)
        if not os.path.exists(os.path.join(cwd, base, lf)):
            raise Mismatch("training left no latest model file " + lf)
        s2.region("r%d" % k, g["nf"], g["np"], g["name"], info="%s,max_depth=%d,load" % (m, g["depth"]))
        chk.append(("latest of " + nm, s2.query("r%d" % k, g["q"]), res.ints(hist[k][-1][1]), g))
        for v in g["q"][:3]:
            s2.x("r%d" % k, 1.0, v)
    return s2, chk, files


def run_store(case, env, obs):
    ranks = case["ranks"] if case["t"] == "mpi" else [case]
    go = env.mpi if case["t"] == "mpi" else lambda ss, cwd: [env.go(ss[0], cwd)]
    m = ranks[0]["m"]
    base = (ranks[0]["out"] or ".apollo") + "/" + (ranks[0]["md"] or "models")
    with env.scratch() as cwd:
        old = set()
        if "prev" in case:
            x = store_script(case["prev"])
            res = env.go(x[0], cwd)
            if not obs.conform(res, "earlier storing run"):
                return
            old = load_script(case["prev"], res, x[1], cwd, 0)[2]
            obs.count("earlier_runs")
        b = [store_script(c) for c in ranks]
        rs = go([x[0] for x in b], cwd)
        for r, res in enumerate(rs):
            if not obs.conform(res, "storing run, rank %d" % r):
                return
        b2 = [load_script(c, res, x[1], cwd, r) for r, (c, res, x) in enumerate(zip(ranks, rs, b))]
        files = old.union(*[x[2] for x in b2])
        have = set(os.listdir(os.path.join(cwd, base)))
        if have != files:
            raise Mismatch("stored model files %r, expected %r" % (sorted(have), sorted(files)))
        rs2 = go([x[0] for x in b2], cwd)
        for r, res in enumerate(rs2):
            if not obs.conform(res, "loading run, rank %d" % r):
                return
        for r, res in enumerate(rs2):
            for what, ln, want, g in b2[r][1]:
                p = res.ints(ln)
                if p != want:
                    i = next(i for i in range(len(want)) if p[i] != want[i])
                    raise Mismatch("%s model loaded on rank %d for %s selects %d for %r, the trained one selected %d" % (m, r, what, p[i], g["q"][i], want[i]))
                obs.count("stored_steps_compared")
            if case["t"] == "mpi":
                obs.count("mpi_ranks")
        if len(b2[0][1]) > 2:
            obs.sig = sig("store", [c[2] for c in b2[0][1]])


def run(case, env, obs):
    case["q"] = [tuple(v) for v in case.get("q", [])]
    (run_bare if case["t"] == "bare" else run_store)(case, env, obs)
