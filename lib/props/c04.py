from vf import Script, Mismatch, sig
import gen
PROP = "C04"
VARIANTS = ["asan"]
RULE = ("random histories of nested and interleaved executions over 1-4 regions through all four API styles (context, "
        "feature vector, deprecated, C), few feature vectors so that pairs repeat; every dataset dump is compared with a "
        "reference map (first value kept, later ones averaged); non-trivial: at least one repeated (features, policy) pair")
ASSUME = ["one open synchronous execution per region; features as declared"]


def cases(rng, tier):
    for i in range(1500 if tier == "quick" else 20000):
        pers = rng.random() < .35
        big = i % 25 == 0
        huge = i % 300 == 25   # a dataset of several thousand entries
        regs = []
        for k in range(1 if huge else rng.choice([1, 2, 3, 4])):
            nf = rng.choice([0, 1, 1, 2, 3, 3, 8, 40])
            models = ["DecisionTree", "RandomForest,num_trees=2", "DecisionTree,explore=Random", "PolicyNet"]
            if pers:
                models += ["Static", "Static,policy=1", "RoundRobin", "Random"]
            m = rng.choice(models)
            if big and m == "PolicyNet":
                m = "DecisionTree"
            if m == "PolicyNet":
                nf = min(max(nf, 1), 2)
            fams = ["int", "big"] if m == "PolicyNet" else None
            if huge:
                regs.append({"np": rng.choice([3, 300]), "nf": 2, "m": m, "vecs": gen.vectors(rng, 2, 3000, ["frac", "wide"])})
                continue
            regs.append({"np": rng.choice([1, 2, 3, 5] if not big else [1, 3, 300]), "nf": nf, "m": m,
                         "vecs": gen.vectors(rng, nf, rng.choice([1, 2, 3] if not big else [1, 3, 200]), fams)})
        ops, open_, n = [], [], 0
        for _ in range(rng.choice([8, 20, 50]) if not big else 9000 if huge else 1200):
            free = [r for r in range(len(regs)) if r not in [o[0] for o in open_]]
            k = rng.random()
            if open_ and (not free or k < .45):
                # mostly innermost first, sometimes any open one
                r, st = open_.pop() if rng.random() < .7 else open_.pop(rng.randrange(len(open_)))
                ops.append(["end", r, st, gen.metric(rng) if rng.random() < .9 else rng.choice([0.0, -1.5, 1e200, 1e-300])])
            elif k < .9 and free:
                r = rng.choice(free)
                st = rng.choice(["ctx", "ctx", "vec", "dep", "c", "clk"])
                ops.append(["begin", r, st, rng.randrange(len(regs[r]["vecs"])), rng.choice([1, 1, 1, 2])])
                open_.append((r, st))
            elif k < .95 and not huge or k < .9003:
                ops.append(["dump"])
            elif not open_ and not huge:
                ops.append(["train", rng.choice([-1] + list(range(len(regs))))])
        while open_:
            r, st = open_.pop()
            ops.append(["end", r, st, gen.metric(rng)])
        if pers:  # recorded also after the automatic training
            for g in regs:
                g["mt"] = rng.choice([0, 0, 1, 3, 6])
        yield {"pers": pers, "regs": regs, "ops": ops}


def run(case, env, obs):
    s = Script()
    if case["pers"]:
        s.env(APOLLO_PERSISTENT_DATASETS=1)
    regs = case["regs"]
    for k, g in enumerate(regs):
        s.region("r%d" % k, g["nf"], g["np"], "g%d" % k, info=g["m"], mt=g.get("mt", 0))
    ev = []      # reference events
    cur = {}
    mono = 0     # ns of virtual monotonic time
    begun = {}

    def dumps():
        ev.append(("dump", [s.add("dump", "r%d" % k) for k in range(len(regs))]))

    for op in case["ops"]:
        if op[0] == "begin":
            _, r, st, v, npol = op
            h, vec = "r%d" % r, regs[r]["vecs"][v]
            if st in ("ctx", "clk"):
                s.add("begin", h, "c%d" % r)
                for f in vec:
                    s.add("feat", h, "c%d" % r, f)
                pl = [s.add("pol", h, "c%d" % r) for _ in range(npol)][-1]
            elif st == "vec":
                s.add("beginv", h, "c%d" % r, *vec)
                pl = [s.add("pol", h, "c%d" % r) for _ in range(npol)][-1]
            elif st == "dep":
                s.add("begin", h, "c%d" % r)
                for f in vec:
                    s.add("featd", h, f)
                pl = [s.add("pold", h) for _ in range(npol)][-1]
            else:
                s.add("cbegin", h)
                for f in vec:
                    s.add("cfeat", h, f)
                pl = [s.add("cpol", h) for _ in range(npol)][-1]
            begun[r] = mono
            cur[r] = (tuple(vec), pl)
            s.add("clk", 1500000 + 1000 * len(ev), 7, 3)
            mono += 1500000 + 1000 * len(ev)
        elif op[0] == "end":
            _, r, st, m = op
            h = "r%d" % r
            if st in ("ctx", "vec"):
                s.add("endm", h, "c%d" % r, m)
            elif st == "dep":
                s.add("enddm", h, m)
            else:
                s.add("cend", h) if st == "c" else s.add("end", h, "c%d" % r)
                m = None
            ev.append(("rec", r, cur[r], m if m is not None else (mono - begun[r]) * 1e-9, m is None))
        elif op[0] == "dump":
            dumps()
        else:
            dumps()
            if op[1] < 0:
                s.add("train", 0)
            else:
                s.add("rtrain", "r%d" % op[1], 0, 1, 0)
            ev.append(("tr", [s.add("tr", "r%d" % k) for k in range(len(regs))]))
    dumps()
    with env.scratch() as cwd:
        res = env.go(s, cwd)
    if not obs.conform(res):
        return
    ref = [{} for _ in regs]
    timed = [set() for _ in regs]  # pairs with measured (not supplied) durations
    live = [True] * len(regs)
    rep = 0
    for e in ev:
        if e[0] == "rec":
            _, r, (vec, pl), m, approx = e
            key = (vec, res.p(pl))
            rep += key in ref[r]
            gen.ema(ref[r], key, m)
            if approx:
                timed[r].add(key)
            obs.count("executions")
        elif e[0] == "tr":
            if not case["pers"]:
                for r, ln in enumerate(e[1]):
                    live[r] = live[r] and res.t(ln)
        else:
            for r, ln in enumerate(e[1]):
                if not live[r]:
                    continue
                got = res.ds(ln)
                if set(got) != set(ref[r]):
                    raise Mismatch("region %d: recorded pairs differ: unexpected %r, missing %r" % (
                        r, sorted(set(got) - set(ref[r]))[:3], sorted(set(ref[r]) - set(got))[:3]))
                for k, m in ref[r].items():
                    obs.count("entries_compared")
                    if abs(got[k] - m) > 1e-12 * abs(m) + 1e-8 * (k in timed[r]):
                        raise Mismatch("region %d: %r has metric %r, expected %r" % (r, k, got[k], m))
    obs.count("repeated_pairs", rep)
    if rep:
        obs.sig = sig(case)
        obs.note = "%d executions, %d repeats, %d regions" % (sum(e[0] == "rec" for e in ev), rep, len(regs))
