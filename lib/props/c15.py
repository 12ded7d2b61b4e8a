import os, re
from vf import Script, Mismatch, sig
import gen
PROP = "C15"
VARIANTS = ["mpi"]
PROCS = 4
RULE = ("mpirun with 1-4 ranks, 1-5 regions known to random subsets of ranks, name lengths 1-80, 0-6 features, 0-60 measurements per rank "
        "and region, one or two collective trainings (requested or by global period); every rank's dataset after training compared with "
        "the union of all ranks' datasets before it; control runs without collective training must not mix; non-trivial: a rank received "
        "measurements of another rank")
ASSUME = ["ranks run on one node over shared memory"]


def cases(rng, tier):
    for i in range(600 if tier == "quick" else 1500):
        nr = rng.choice([1, 2, 2, 3, 3, 4]) if i % 40 else 8
        regs = []
        big = i % 40 == 5
        pool = ["r", "reg", "region_1", "region_12", "x" * 62, "y" * 63, "z" * 64, "w" * 80, "a b", "k@0x12", "r" * 31, "q-0"]
        for n in rng.sample(pool, rng.choice([1, 2, 3, 5])):
            nf, np_ = rng.choice([0, 1, 2, 6] if not big else [1, 3, 30]), rng.choice([1, 2, 4] if not big else [4, 200])
            regs.append({"name": n, "nf": nf, "np": np_, "on": [rng.random() < .8 for _ in range(nr)],
                         "vecs": gen.vectors(rng, nf, rng.choice([2, 8, 30]) if not big else 400)})
        data = []
        for _ in range(rng.choice([1, 1, 2])):
            rd = []
            for r in range(nr):
                rk = []
                for k, g in enumerate(regs):
                    if g["on"][r]:
                        disjoint = rng.random() < .5
                        for _ in range(rng.choice([0, 1, 5, 20, 60]) if not big else 1000):
                            v = rng.randrange(len(g["vecs"]))
                            if disjoint:
                                v = v // nr * nr + r
                                if v >= len(g["vecs"]):
                                    continue
                            rk.append([k, v, rng.randrange(g["np"]), gen.metric(rng) * rng.choice([1, 1, 1, 1, 1, -1])])
                rng.shuffle(rk)
                rd.append(rk)
            data.append(rd)
        single = rng.random() < .15
        if single:
            for g in regs:
                g.update({k: regs[0][k] for k in ("nf", "np", "vecs")})
            for rd in data:
                for rk in rd:
                    rk[:] = [[k, v % len(regs[0]["vecs"]), p % regs[0]["np"], m] for k, v, p, m in rk]
        yield {"single": single, "nr": nr, "regs": regs, "data": data, "coll": rng.random() < .85, "trace": rng.random() < .2,
               "m": rng.choice(["DecisionTree,max_depth=6", "DecisionTree", "RandomForest,num_trees=2"]),
               "period": rng.random() < .2, "exec": rng.random() < .5}


def gathered(case, pre, i, cwd, r, obs):
    """The all-gather trace of rank r for step i lists every measurement that every rank contributed."""
    f = os.path.join(cwd, "step-%d-rank-%d-allgather.txt" % (i, r))
    if not os.path.exists(f):
        raise Mismatch("no all-gather trace of step %d on rank %d" % (i, r))
    rest = {}
    for k, p in enumerate(pre):
        for g, ds in p.items():
            for (v, pol), m in ds.items():
                rest.setdefault((k, case["regs"][g]["name"][:63], pol), []).append((v, m))
    n = 0
    for l in open(f, encoding="latin1").read().splitlines()[1:]:
        if not l.strip():
            continue
        t = re.match(r"(\d+), (.*), \[ (.*)\], (-?\d+), (\S+)$", l)
        if not t:
            raise Mismatch("all-gather trace line %r" % l)
        fs, m = [int(x) for x in t.group(3).split(",") if x.strip()], float(t.group(5))
        c = rest.get((int(t.group(1)), t.group(2), int(t.group(4))), [])
        hit = next((z for z in c if abs(z[1] - m) <= 1e-5 * abs(z[1]) + 1e-300 and len(z[0]) == len(fs)
                    and all(abs(a) >= 2 ** 31 or int(a) == b for a, b in zip(z[0], fs))), None)
        if hit is None:
            raise Mismatch("all-gather trace of rank %d has %r, which no rank measured" % (r, l))
        c.remove(hit)
        n += 1
    left = [(k, z) for k, z in rest.items() if z]
    if left:
        raise Mismatch("all-gather trace of rank %d lacks %r" % (r, left[0]))
    obs.count("allgather_rows", n)


def run(case, env, obs):
    nr, regs = case["nr"], case["regs"]
    scripts, marks = [], []
    # the global period is only well defined when all ranks execute equally often
    per = 3 if case["period"] and case["coll"] and all(any(g["on"][r] for g in regs) for r in range(nr)) else 0
    for r in range(nr):
        s = Script()
        s.env(APOLLO_COLLECTIVE_TRAINING=int(case["coll"]), APOLLO_LOCAL_TRAINING=int(not case["coll"]),
              APOLLO_TRACE_ALLGATHER=int(case["trace"]), APOLLO_GLOBAL_TRAIN_PERIOD=per)
        if case["single"]:
            s.env(APOLLO_SINGLE_MODEL=1, APOLLO_REGION_MODEL=0)
        s.add("instance")
        for k, g in enumerate(regs):
            if g["on"][r]:
                s.region("r%d" % k, g["nf"], g["np"], g["name"], info=case["m"])
        mk = []
        for i, rd in enumerate(case["data"]):
            for k, v, p, m in rd[r]:
                s.add("rins", "r%d" % k, p, m, *regs[k]["vecs"][v])
            if per and i == 0:
                k = next(k for k, g in enumerate(regs) if g["on"][r])
                for j in range(2):
                    s.x("r%d" % k, 1.5 + j, regs[k]["vecs"][0])
            pre = {k: s.add("dump", "r%d" % k) for k, g in enumerate(regs) if g["on"][r]}
            x = None
            if per and i == 0:
                x = (k, s.x("r%d" % k, 2.25, regs[k]["vecs"][0]), tuple(regs[k]["vecs"][0]), 2.25)
            else:
                s.add("train", i)
            post = {k: s.add("dump", "r%d" % k) for k, g in enumerate(regs) if g["on"][r]}
            tr = {k: s.add("tr", "r%d" % k) for k, g in enumerate(regs) if g["on"][r]}
            q = {k: s.query("r%d" % k, g["vecs"]) for k, g in enumerate(regs) if g["on"][r]}
            mk.append((pre, post, tr, q, x))
        scripts.append(s)
        marks.append(mk)
    with env.scratch() as cwd:
        rs = env.mpi(scripts, cwd)
        for r, res in enumerate(rs):
            if not obs.conform(res, "rank %d" % r):
                return
        if case["trace"] and case["coll"]:
            for i in range(len(case["data"])):
                if not (per and i == 0):
                    pre = [{k: rs[r].ds(l) for k, l in marks[r][i][0].items()} for r in range(nr)]
                    for r in range(nr):
                        gathered(case, pre, i, cwd, r, obs)
    moved = 0
    for i in range(len(case["data"])):
        pre = [{k: rs[r].ds(l) for k, l in marks[r][i][0].items()} for r in range(nr)]
        for r in range(nr):
            x = marks[r][i][4]
            if x:
                gen.ema(pre[r][x[0]], (x[2], rs[r].p(x[1])), x[3])
        for k, g in enumerate(regs):
            con = {}
            for r in range(nr):
                for key, m in pre[r].get(k, {}).items():
                    con.setdefault(key, []).append(m)
            for r in range(nr):
                if not g["on"][r]:
                    continue
                got = rs[r].ds(marks[r][i][1][k])
                obs.count("rank_datasets_compared")
                if not case["coll"]:
                    if got.keys() != pre[r][k].keys() or any(abs(got[z] - y) > 1e-12 * abs(y) for z, y in pre[r][k].items()):
                        raise Mismatch("local training changed the dataset of region %r on rank %d" % (g["name"], r))
                    continue
                for key in got:
                    if key not in con:
                        raise Mismatch("rank %d, region %r: entry %r was recorded by no rank for that region" % (r, g["name"], key))
                for key, ms in con.items():
                    if key not in got:
                        raise Mismatch("rank %d, region %r: measurement %r of another rank is missing after collective training" % (r, g["name"], key))
                    soft = any(mk[i][4] for mk in marks)  # the reference average of a period-triggered run is rounded its own way
                    if len(ms) == 1 and got[key] != ms[0] and not (soft and abs(got[key] - ms[0]) <= 1e-12 * abs(ms[0])):
                        raise Mismatch("rank %d, region %r: %r has metric %r, recorded was %r" % (r, g["name"], key, got[key], ms[0]))
                    if not min(ms) - 1e-12 * abs(min(ms)) <= got[key] <= max(ms) + 1e-12 * abs(max(ms)):
                        raise Mismatch("rank %d, region %r: %r has metric %r, contributed were %r" % (r, g["name"], key, got[key], ms))
                    obs.count("entries_compared")
                moved += len(got) - len(pre[r][k])
                if con and not case["single"] and rs[r].t(marks[r][i][2][k]):
                    raise Mismatch("rank %d, region %r is not trained by the collective training although there are measurements" % (r, g["name"]))
            if case["coll"] and con and not case["single"] and all(len(ms) == 1 for ms in con.values()):
                qs = [rs[r].ints(marks[r][i][3][k]) for r in range(nr) if g["on"][r]]
                if i == 0 and any(q != qs[0] for q in qs):
                    raise Mismatch("region %r: ranks trained on the same measurements select differently" % g["name"])
                obs.count("rank_models_compared", len(qs))
    if case["single"] and case["coll"]:
        # ranks that know the same regions fit the same union
        for r in range(nr):
            if any(g["on"][r] for g in regs):
                qs = [rs[r].ints(marks[r][0][3][k]) for k, g in enumerate(regs) if g["on"][r]]
                if any(rs[r].t(marks[r][0][2][k]) for k, g in enumerate(regs) if g["on"][r]) != (not any(
                        rs[r].ds(marks[r][0][1][k]) for k, g in enumerate(regs) if g["on"][r])):
                    raise Mismatch("rank %d: the single model is not trained exactly when there are measurements" % r)
                if not rs[r].t(marks[r][0][2][[k for k, g in enumerate(regs) if g["on"][r]][0]]) and any(q != qs[0] for q in qs):
                    raise Mismatch("rank %d: regions with a single model select differently" % r)
                obs.count("single_model_ranks")
    obs.count("entries_received", moved)
    if moved > 0:
        obs.sig = sig(case["data"], nr)
        obs.note = "%d ranks, %d regions, %d entries received" % (nr, len(regs), moved)
