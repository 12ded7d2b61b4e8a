from vf import Script, Mismatch, sig
import gen
PROP = "C01"
VARIANTS = ["asan"]
RULE = ("random measurement sets (0-6 features, families int/neg/frac/big/huge/wide/tiny/ulp, 1-12 policies; every 40th case up to 70 features, 300 policies, 2500 vectors; another 40th with 1-3 odd ones among 50-2500 vectors) recorded "
        "through region executions, direct dataset inserts or a bare model, then trained with a non-binding depth limit; "
        "non-trivial: at least two distinct best policies")
ASSUME = ["finite feature values; the depth limit exceeds the number of distinct feature vectors"]


def cases(rng, tier):
    n = 3000 if tier == "quick" else 40000
    for i in range(n):
        nf = rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 6])
        np_ = rng.choice([1, 2, 2, 3, 4, 7, 12])
        nv = 1 if nf == 0 else rng.choice([1, 2, 3, 4, 5, 8, 12, 20, 40, 120])
        big = i % 40 == 0  # sizes beyond one byte, one cache line, one machine word of flags
        if big:
            nf, np_, nv = rng.choice([(1, 300, 600), (33, 5, 60), (70, 3, 40), (2, 130, 300), (1, 2, 2500), (3, 40, 1000), (12, 66, 70)])
        fams = rng.choice([None, None, ["ulp"], ["huge"], ["int"], ["wide"], ["neg"], ["tiny"], ["big"]])
        vecs = gen.vectors(rng, nf, nv, fams)
        style = rng.choice(["region", "region", "rins", "model"])
        if style == "region":
            table = [[(gen.metric(rng) if rng.random() < .97 else -gen.metric(rng)) for _ in range(np_)] for _ in vecs]
            order = [k for k in range(len(vecs)) for _ in range(rng.choice([1, np_, np_ + 1]) if not big else 3)]
            if rng.random() < .7:
                rng.shuffle(order)
            data = {"table": table, "order": order[:400 if not big else 2500]}
        else:
            ins = []
            for v in range(len(vecs)):
                for p in rng.sample(range(np_), rng.randint(1, np_ if not big else min(3, np_))):
                    for _ in range(rng.choice([1, 1, 1, 2, 3])):
                        ins.append((v, p, gen.metric(rng)))
            rng.shuffle(ins)
            data = {"ins": ins}
        if i % 40 == 20:  # one or a few vectors whose best policy differs from that of hundreds or thousands of others
            nf, np_ = rng.choice([(1, 2), (1, 3), (2, 2), (3, 4)])
            vecs = gen.vectors(rng, nf, rng.choice([150, 300, 700, 1500, 2500]) // nf, ["frac"])
            odd = set(rng.sample(range(len(vecs)), rng.choice([1, 1, 2, 3])))
            style, big = rng.choice(["rins", "model"]), True
            data = {"ins": [(v, (1 if v in odd else 0), .5) for v in range(len(vecs))] +
                           [(v, rng.randrange(np_), .75) for v in rng.sample(range(len(vecs)), 20)]}
            rng.shuffle(data["ins"])
        yield {"style": style, "nf": nf, "np": np_, "vecs": vecs, "data": data,
               "model": rng.choice(["DecisionTree", "DecisionTree,explore=RoundRobin", "DecisionTree,explore=Random"]),
               "again": rng.random() < .25, "depth": rng.choice([64, 1000, 4000000000]) if not big else 1000000,
               "extra": [(rng.randrange(len(vecs)), rng.randrange(np_), gen.metric(rng)) for _ in range(6)]}


def run(case, env, obs):
    s = Script()
    vecs, d = case["vecs"], case["data"]
    depth = "max_depth=%d" % case["depth"]
    st = case["style"]
    if st == "model":
        s.add("mk", "M", "DecisionTree", case["nf"], case["np"], depth)
        s.add("dnew", "D")
        for v, p, m in d["ins"]:
            s.add("dins", "D", p, m, *vecs[v])
        dump = [s.add("ddump", "D")]
        s.add("mtrain", "M", "D")
        q = [s.query("M", vecs, "mq")]
        if case["again"]:
            for v, p, m in case["extra"]:
                s.add("dins", "D", p, m, *vecs[v])
            dump.append(s.add("ddump", "D"))
            s.add("mtrain", "M", "D")
            q.append(s.query("M", vecs, "mq"))
    else:
        s.region("r", case["nf"], case["np"], "reg", info=case["model"] + "," + depth)
        if st == "region":
            for k in d["order"]:
                s.add("xt", "r", case["nf"], *vecs[k], *d["table"][k])
        else:
            for v, p, m in d["ins"]:
                s.add("rins", "r", p, m, *vecs[v])
        dump = [s.add("dump", "r")]
        s.add("train", 0)
        q = [s.query("r", vecs)]
        if not case["again"]:  # the application's view: what executions of the region run
            dump.append(dump[0])
            q.append(s.queryx("r", vecs[::-1]))
        if case["again"]:
            for v, p, m in case["extra"]:
                s.add("rins", "r", p, m, *vecs[v])
            dump.append(s.add("dump", "r"))
            s.add("rtrain", "r", 1, 1, 1)
            q.append(s.query("r", vecs))
    with env.scratch() as cwd:
        r = env.go(s, cwd)
    if not obs.conform(r):
        return
    classes = set()
    for k, (dl, ql) in enumerate(zip(dump, q)):
        ds = r.ds(dl)
        best = gen.argmins(ds)
        alt = {}
        for f, _ in ds:
            alt[f] = alt.get(f, 0) + 1
        ex = k == 1 and st != "model" and not case["again"]
        for v, p in zip(vecs[::-1] if ex else vecs, r.ints(ql)):
            v = tuple(v)
            if v not in best:
                continue
            obs.count("selections_judged")
            if alt[v] > 1:
                obs.count("with_alternatives")
            if p not in best[v]:
                raise Mismatch("features %r " % (v,) + ("execute" if ex else "select") + " policy %d, measured best is %r; metrics %r" % (
                    p, sorted(best[v]), {pp: m for (f, pp), m in ds.items() if f == v}))
            classes |= best[v] if len(best[v]) == 1 else set()
    if len(classes) > 1:
        obs.sig = sig(vecs, sorted(ds.items()))
        obs.note = "%d vectors, %d classes, %s" % (len(vecs), len(classes), st)
