import os
from vf import Script, Mismatch, f32, sig
import gen
PROP = "C14"
VARIANTS = ["asan"]
RULE = ("each region of an interleaved (also nested) multi-region history is replayed alone with the same random seed: selection sequence, "
        "dataset, trainable state and stored model must be identical; single-model histories: all regions' selections compared with each "
        "other, with the best policy of the union of the recorded datasets and with a separate model trained on that union; "
        "non-trivial: several regions with interleaved executions / data in several regions")
MODELS = ["DecisionTree,max_depth=8", "DecisionTree,explore=Random", "RandomForest,num_trees=5,max_depth=6", "PolicyNet,lr=0.2", "Random",
          "RoundRobin", "Static,policy=1", "Static", "RandomForest,explore=Random"]


def cases(rng, tier):
    q = tier == "quick"
    for i in range(600 if q else 10000):
        regs = []
        for k in range(rng.choice([2, 2, 3, 5])):
            m = rng.choice(MODELS)
            nf = 1 if m.startswith("PolicyNet") else rng.choice([0, 1, 2])
            np_ = rng.choice([2, 3, 5])
            vecs = gen.vectors(rng, nf, rng.choice([1, 3, 6]), ["int"] if m.startswith("PolicyNet") else None)
            if m.startswith("PolicyNet"):
                vecs = [tuple(f32(x + 1) for x in v) for v in vecs]
            regs.append({"m": m, "nf": nf, "np": np_, "mt": rng.choice([0, 0, 0, 5]), "vecs": vecs, "seed": rng.getrandbits(40),
                         "cost": [[rng.uniform(.1, 2) for _ in range(np_)] for _ in vecs],
                         "name": rng.choice(["reg%d", "a%d", "%d", "reg%d_long_" + "x" * 40]) % k})
        ops, opened = [], []
        for _ in range(rng.choice([10, 30, 80])):
            k = rng.random()
            r = rng.randrange(len(regs))
            if k < .6 and r not in opened:
                ops.append(["x", r, rng.randrange(len(regs[r]["vecs"]))])
            elif k < .8 and r not in opened:
                ops.append(["b", r, rng.randrange(len(regs[r]["vecs"])), rng.random() < .5])
                opened.append(r)
            elif k < .92 and opened:
                r = opened.pop(rng.randrange(len(opened)))
                ops.append(["e", r, gen.metric(rng)])
            elif k < .95 and not opened:
                ops.append(["train"])
            elif k < .98 and r not in opened:
                ops.append(["rtrain", r])
        for r in opened:
            ops.append(["e", r, gen.metric(rng)])
        yield {"t": "iso", "regs": regs, "ops": ops, "Q": rng.choice([0, 0, 7]), "late": rng.random() < .3, "csv": rng.random() < .2,
               "persist": rng.random() < .25, "store": rng.random() < .2}
    for i in range(600 if q else 10000):
        m = rng.choice(["DecisionTree,max_depth=25", "DecisionTree,max_depth=25", "RandomForest,num_trees=7,max_depth=20", "PolicyNet"])
        nf = 1 if m == "PolicyNet" else rng.choice([0, 1, 2, 3])
        np_ = rng.choice([2, 3, 5])
        nr = rng.choice([1, 2, 3, 4, 4, 12])
        V = [[x + 1 for x in v] for v in gen.vectors(rng, nf, 8, ["int"])] if m == "PolicyNet" else gen.vectors(rng, nf, 12)
        own = [rng.sample(range(len(V)), rng.randint(0, min(len(V), 6))) for _ in range(nr)]
        rounds = []
        base = gen.metric(rng) if rng.random() < .25 else 0  # metrics that differ by less than single precision
        for _ in range(rng.choice([1, 2])):
            rounds.append([[r, rng.choice(own[r]), base * (1 + rng.randint(0, 60) * 1e-11) if base else gen.metric(rng)] for r in [rng.randrange(nr) for _ in range(rng.choice([0, 4, 20, 50]))] if own[r]])
        yield {"t": "single", "m": m, "nf": nf, "np": np_, "nr": nr, "V": V, "rounds": rounds, "persist": rng.random() < .4,
               "q": gen.neighbours(rng, [tuple(v) for v in V], 20) if m != "PolicyNet" else [tuple(v) for v in V], "seed": rng.getrandbits(40),
               "P": rng.choice([0, 0, 5]), "late": rng.choice([0, 0, 1, 2])}


def iso_script(case, only=None):
    s = Script()
    s.env(APOLLO_PER_REGION_TRAIN_PERIOD=case["Q"], APOLLO_TRACE_CSV=int(case["csv"]),
          APOLLO_PERSISTENT_DATASETS=int(case["persist"]), APOLLO_STORE_MODELS=int(case["store"]))
    regs = case["regs"]
    rs = [only] if only is not None else list(range(len(regs)))
    made = set()

    def make(r):
        if r in made or r not in rs:
            return
        made.add(r)
        g = regs[r]
        s.add("entropy", g["seed"])
        s.region("r%d" % r, g["nf"], g["np"], g["name"], mt=g["mt"], info=g["m"])

    if not case["late"]:
        for r in rs:
            make(r)
    log = {r: [] for r in rs}
    for op in case["ops"]:
        if op[0] == "train":
            s.add("train", 0)
            continue
        r = op[1]
        if r not in rs:
            continue
        make(r)
        g, h = regs[r], "r%d" % r
        if op[0] == "x":
            log[r].append(s.add("xt", h, g["nf"], *(list(g["vecs"][op[2]]) + g["cost"][op[2]])))
        elif op[0] == "b":
            if op[3]:
                s.add("begin", h, "c%d" % r)
                for f in g["vecs"][op[2]]:
                    s.add("feat", h, "c%d" % r, f)
            else:
                s.add("cbegin", h)
                for f in g["vecs"][op[2]]:
                    s.add("cfeat", h, f)
            log[r].append(s.add("pol", h, "c%d" % r) if op[3] else s.add("pold", h))
            g["_open"] = op[3]
        elif op[0] == "e":
            if g.pop("_open", True):
                s.add("endm", h, "c%d" % r, op[2])
            else:
                s.add("enddm", h, op[2])
        elif op[0] == "rtrain":
            s.add("rtrain", h, 0, 1, 0)
    end = {}
    for r in rs:
        if r in made:
            h = "r%d" % r
            tr = s.add("tr", h)
            d = s.add("dump", h)
            qq = s.query(h, regs[r]["vecs"] * 2)
            end[r] = (tr, d, qq)
    return s, log, end




def run_iso(case, env, obs):
    s, log, end = iso_script(case)
    with env.scratch() as cwd:
        res = env.go(s, cwd)
    if not obs.conform(res, "interleaved run"):
        return
    for r in log:
        if not log[r]:
            continue
        s1, l1, e1 = iso_script(case, r)
        with env.scratch() as cwd:
            r1 = env.go(s1, cwd)
        if not obs.conform(r1, "run of region %d alone" % r):
            return
        g = case["regs"][r]
        a, b = [res.p(x) for x in log[r]], [r1.p(x) for x in l1[r]]
        if a != b:
            i = next(i for i in range(len(a)) if a[i] != b[i])
            raise Mismatch("region %d (%s): its selection %d is %d among other regions and %d alone" % (r, g["m"], i, a[i], b[i]))
        for what, j in (("trainable state", 0), ("dataset", 1), ("later selections", 2)):
            x, y = res.out.get(end[r][j]), r1.out.get(e1[r][j])
            if j == 1:
                x, y = res.ds(end[r][j]), r1.ds(e1[r][j])
            if x != y:
                raise Mismatch("region %d (%s): %s among other regions is %s, alone %s" % (r, g["m"], what, str(x)[:200], str(y)[:200]))
        obs.count("regions_replayed_alone")
        obs.count("selections_compared", len(a))
    if len([r for r in log if log[r]]) > 1:
        obs.sig = sig([g["m"] for g in case["regs"]], case["ops"])
        obs.note = "%d regions, %d operations" % (len(case["regs"]), len(case["ops"]))


def run_single(case, env, obs):
    with env.scratch() as cwd:
        if single_run(case, env, obs, cwd, False) and case["persist"]:
            # a later run starts from the stored datasets; only some of its regions execute
            single_run(case, env, obs, cwd, True)


def single_run(case, env, obs, cwd, again):
    m, nf, np_, nr = case["m"], case["nf"], case["np"], case["nr"]
    rounds, late = case["rounds"], case.get("late", 0)
    if again:
        rounds, late = [[x for x in rounds[-1] if x[0] % 3 == 0]], 0
    s = Script()
    s.env(APOLLO_SINGLE_MODEL=1, APOLLO_REGION_MODEL=0, APOLLO_PERSISTENT_DATASETS=int(case["persist"]), APOLLO_GLOBAL_TRAIN_PERIOD=case["P"])

    def make(r):
        s.add("entropy", case["seed"])
        s.region("r%d" % r, nf, np_, "reg%d" % r, info=m)

    late = min(late, nr - 1) if len(rounds) > 1 and m != "PolicyNet" else 0
    first = nr - late
    for r in range(first):
        make(r)
    tr0 = tr1 = []
    if not again:
        tr0 = [s.add("tr", "r%d" % r) for r in range(first)]
        s.add("train", 0)  # no data: changes nothing
        tr1 = [s.add("tr", "r%d" % r) for r in range(first)]
    s.add("entropy", case["seed"])
    if case["seed"] % 2:
        s.region("ref0", nf, np_, "unrelated", info="Static")
    log = []
    all_ = nr
    for i, rd in enumerate(rounds):
        nr = first if i == 0 else all_
        if i == 1:
            for r in range(first, all_):
                make(r)
        xs = [(r, v, s.x("r%d" % r, mt, case["V"][v])) for r, v, mt in rd if r < nr]
        d = [s.add("dump", "r%d" % r) for r in range(nr)]
        s.add("train", i + 1)
        tr = [s.add("tr", "r%d" % r) for r in range(nr)]
        net = []
        if m == "PolicyNet":
            for r in range(nr):
                s.add("mstore", "r%d" % r, "n%d_%d" % (i, r))
        q = [s.query("r%d" % r, case["q"]) for r in range(nr)]
        log.append((xs, d, tr, q))
    if True:
        res = env.go(s, cwd)
        if not obs.conform(res):
            return
        if [res.t(l) for l in tr0] != [res.t(l) for l in tr1]:
            raise Mismatch("training without any data changed the models")
        if not case["P"] and not again:
            nr = first
            seq = {r: [res.p(l) for r2, _, l in log[0][0] if r2 == r] for r in range(nr)}
            for r in range(nr):
                if m != "PolicyNet" and seq[r] != [i % np_ for i in range(len(seq[r]))]:
                    raise Mismatch("region %d does not explore its policies in order after a training without data: %r" % (r, seq[r][:12]))
        multi = False
        for i, (xs, d, tr, q) in enumerate(log):
            nr = len(tr)
            ds = [res.ds(l) for l in d]
            lo, hi, share = {}, {}, {}
            for x in ds:
                for k, v in x.items():
                    lo[k] = min(v, lo.get(k, v))
                    hi[k] = max(v, hi.get(k, v))
                    share[k] = share.get(k, 0) + 1
            multi |= sum(1 for x in ds if x) > 1
            if not lo:
                if m != "PolicyNet" and not all(res.t(l) for l in tr):
                    raise Mismatch("training without any data trained a model")
                continue
            if m == "PolicyNet":
                raws = [gen.read_file(os.path.join(cwd, "n%d_%d" % (i, r)), True) for r in range(nr)]
                if len(set(raws)) > 1:
                    raise Mismatch("single-model training left different networks in the regions (same initial weights)")
                obs.count("networks_compared", nr)
                continue
            if any(res.t(l) for l in tr):
                raise Mismatch("single-model training left regions %r untrained" % [r for r in range(nr) if res.t(tr[r])])
            P = [res.ints(l) for l in q]
            for r in range(1, nr):
                if P[r] != P[0]:
                    j = next(j for j in range(len(P[0])) if P[r][j] != P[0][j])
                    raise Mismatch("after single-model training region 0 selects %d and region %d selects %d for %r" % (P[0][j], r, P[r][j], case["q"][j]))
            pol = {}
            for k in lo:
                pol.setdefault(k[0], []).append(k[1])
            if m.startswith("DecisionTree"):
                for v, p in zip(case["q"], P[0]):
                    v = tuple(v)
                    if v in pol:
                        if p not in pol[v] or any(hi[(v, o)] < lo[(v, p)] for o in pol[v]):
                            raise Mismatch("single model selects %d for %r, measured over all regions: %r" % (
                                p, v, {o: (lo[(v, o)], hi[(v, o)]) for o in pol[v]}))
                        obs.count("union_selections_compared")
            # a separate model trained on the union
            if max(share.values()) <= 2:
                b = m.split(",")
                s3 = Script()
                s3.add("dnew", "D")
                for x in ds:
                    for (v, p), y in x.items():
                        s3.add("dins", "D", p, y, *v)
                s3.add("mk", "m", b[0], nf, np_, *b[1:])
                s3.add("mtrain", "m", "D")
                l3 = s3.query("m", case["q"], "mq")
                with env.scratch() as c3:
                    r3 = env.go(s3, c3)
                if not obs.conform(r3, "reference model"):
                    return
                if r3.ints(l3) != P[0]:
                    raise Mismatch("the single model differs from one trained on the union of the datasets")
                obs.count("union_models_compared")
        obs.count("single_runs_restarted" if again else "single_runs")
        if multi:
            obs.sig = sig(m, case["rounds"])
            obs.note = "%d regions share one %s" % (nr, m)
    return True


def run(case, env, obs):
    case.setdefault("q", [])
    case["q"] = [tuple(v) for v in case["q"]]
    (run_iso if case["t"] == "iso" else run_single)(case, env, obs)
