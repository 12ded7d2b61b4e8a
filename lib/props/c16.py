import os, re
from vf import Script, Mismatch, f32, sig
import gen
from props import c05, c15
PROP = "C16"
VARIANTS = ["asan", "async", "mpi"]
RULE = ("nested and interleaved executions of 1-4 regions with any model and all tracing options; region traces, the global trace, "
        "execution-info, best-policy and policy traces parsed and compared row by row with the driver's own log of begins, selections "
        "and ends, also in a directory with an earlier run's files, with persistent datasets and periodic training, and for asynchronously timed regions; non-trivial: executions of two regions overlap or at least 10 rows")
MODELS = ["RoundRobin", "Random", "Static,policy=1", "DecisionTree,max_depth=3", "RandomForest,num_trees=2", "PolicyNet,lr=0.1",
          "DecisionTree,load=sub/m.yaml", "DecisionTree,explore=Random"]


def onecase(rng, mpi=False, long=False):
    regs = []
    for k in range(rng.choice([1, 2, 2, 4])):
        m = rng.choice([x for x in MODELS if not mpi or "load" not in x])
        nf = rng.choice([1, 2]) if m.startswith("PolicyNet") else rng.choice([0, 1, 2, 5] if rng.random() < .9 else [12, 40])
        if "load" in m:
            nf = 1
        vecs = gen.vectors(rng, nf, rng.choice([1, 3, 9]), ["int", "big"] if m.startswith("PolicyNet") else ["int", "neg", "frac", "big"])
        if m.startswith("PolicyNet"):
            vecs = [tuple(f32(x + 1) for x in v) for v in vecs]
        regs.append({"m": m, "nf": nf, "np": rng.choice([2, 3, 5]), "vecs": vecs,
                     "name": rng.choice(["reg%d", "a-%d", "%d", "k@0x%d", "n%d" + "y" * 50, "v%d" + "y" * 70]) % k})
    ops, opened, uid = [], [], 0
    for _ in range(rng.choice([4, 20, 60]) if not long else 6000):
        r = rng.randrange(len(regs))
        if r not in [o[0] for o in opened] and rng.random() < .6:
            ops.append(["b", r, uid, rng.randrange(len(regs[r]["vecs"])), rng.random() < .15, rng.choice("vfc")])
            opened.append((r, uid))
            uid += 1
        elif opened and rng.random() < .8:
            r, u = opened.pop(rng.randrange(len(opened)))
            ops.append(["e", r, u, (gen.metric(rng) if rng.random() < .9 else -rng.random()) if rng.random() < .7 else None])
        elif not opened and rng.random() < .5:
            ops.append(["train", rng.randrange(100)])
        if rng.random() < .3:
            ops.append(["clk", rng.randint(1, 10 ** 9)])
    for r, u in opened:
        ops.append(["e", r, u, None])
    best = rng.random() < .5
    return {"prior": rng.random() < .2, "persist": rng.random() < .3, "best": best,
           "gp": 0 if best else rng.choice([0, 0, 0, 3, 10]), "rp": 0 if best else rng.choice([0, 0, 0, 2, 7]),
           "regs": regs, "ops": ops, "csv": rng.random() < .9, "info": rng.random() < .8, "pol": rng.random() < .5,
           "out": rng.choice([None, None, "od"]), "td": rng.choice([None, None, "tr"])}


def cases(rng, tier):
    for i in range(900 if tier == "quick" else 15000):
        yield onecase(rng, long=i % 150 == 17)
    for i in range(60 if tier == "quick" else 600):
        n = rng.choice([2, 2, 3])
        rk = [onecase(rng, True) for _ in range(n)]
        if rng.random() < .6:
            rk = [dict(rk[k], regs=rk[0]["regs"], ops=rk[0]["ops"]) if rng.random() < .6 else rk[k] for k in range(n)]
        for c in rk:
            c.update({x: rk[0][x] for x in ("csv", "best", "pol", "gp", "rp", "out", "td")})
            # the clock of MPI processes is the real one
            c["ops"] = [[o[0], o[1], o[2], (gen.metric(rng) if rng.random() < .9 else -rng.random())] if o[0] == "e" and o[3] is None else o for o in c["ops"]]
            c.update(info=False, persist=False, prior=False)
        yield {"t": "mpi", "ranks": rk}
    yield {"t": "mpiinfo"}
    n = 0
    for c in c15.cases(rng, "quick"):
        if n == (25 if tier == "quick" else 300):
            break
        if sum(len(x) for rd in c["data"] for x in rd) < 800:
            n += 1
            yield {"t": "gather", "case": dict(c, trace=True, coll=True)}
    for c in c05.cases(rng, tier, 150 if tier == "quick" else 3000, csv=True):
        yield {"t": "async", "case": c}


def near(txt, v):
    try:
        x = float(txt)
    except ValueError:
        return False
    return abs(x - v) <= 1e-5 * abs(v) + 1e-300


def build(case):
    regs = case["regs"]
    out, td = case["out"] or ".apollo", case["td"] or "traces"
    s = Script()
    s.env(APOLLO_PERSISTENT_DATASETS=int(case["persist"]), APOLLO_GLOBAL_TRAIN_PERIOD=case["gp"], APOLLO_PER_REGION_TRAIN_PERIOD=case["rp"])
    s.env(APOLLO_TRACE_CSV=int(case["csv"]), APOLLO_STORE_EXEC_INFO=int(case["info"]), APOLLO_TRACE_BEST_POLICIES=int(case["best"]),
          APOLLO_TRACE_POLICY=int(case["pol"]))
    if case["out"]:
        s.env(APOLLO_OUTPUT_DIR=out)
    if case["td"]:
        s.env(APOLLO_TRACES_DIR=td)
    for k, g in enumerate(regs):
        s.region("r%d" % k, g["nf"], g["np"], g["name"], info=g["m"])
    ex, order, sel, trains, n = {}, [], [], [], [0] * len(regs)
    mono, overlap, openc = 0, False, 0
    for op in case["ops"]:
        if op[0] == "b":
            _, r, u, v, twice, st = op
            h, c, vec = "r%d" % r, "c%d" % u, regs[r]["vecs"][v]
            if st == "v":
                s.add("beginv", h, c, *vec)
            elif st == "f":
                s.add("begin", h, c)
                for f in vec:
                    s.add("feat", h, c, f)
            else:
                s.add("begin", h, c)
                for f in vec:
                    s.add("featd", h, f)
            p = s.add("pol", h, c)
            sel.append((r, vec, p))
            if twice:
                p = s.add("pol", h, c)
                sel.append((r, vec, p))
            ex[u] = {"r": r, "v": vec, "p": p, "idx": n[r], "t0": mono}
            n[r] += 1
            overlap |= openc > 0
            openc += 1
        elif op[0] == "e":
            _, r, u, m = op
            e = ex[u]
            if m is None:
                s.add("end", "r%d" % r, "c%d" % u)
                e["m"] = (mono - e["t0"]) / 1e9
                e["timed"] = True
            else:
                s.add("endm", "r%d" % r, "c%d" % u, m)
                e["m"] = m
            order.append(u)
            openc -= 1
        elif op[0] == "clk":
            s.add("clk", op[1], 0, 0)
            mono += op[1]
        else:
            d = [(s.add("tr", "r%d" % k), s.add("dump", "r%d" % k)) for k in range(len(regs))]
            s.add("train", op[1])
            trains.append((op[1], d))
    return s, {"ex": ex, "order": order, "sel": sel, "trains": trains, "n": n, "overlap": overlap}


def judge(case, res, st, cwd, rank, old, obs):
    regs, ex, order, sel, trains, n = case["regs"], st["ex"], st["order"], st["sel"], st["trains"], st["n"]
    out, td = case["out"] or ".apollo", case["td"] or "traces"
    D = os.path.join(cwd, out)
    if case["csv"]:
        check_csv(case, res, ex, order, os.path.join(D, td), obs, rank)
    if case["info"]:
        rows = sorted(l for l in gen.read_file(os.path.join(D, "apollo_exec_info.csv")).splitlines() if l.strip())
        got = sorted(tuple(x.strip() for x in l.rsplit(",", 1)) for l in rows)
        want = sorted((g["name"][:63], str(n[k])) for k, g in enumerate(regs))
        if got != want:
            raise Mismatch("execution info %r, executed were %r" % (got, want))
        obs.count("exec_info_rows", len(rows))
    if case["pol"] and sel:
        rows = gen.read_file(os.path.join(cwd, "rank-%d-policies.txt" % rank)).splitlines()[old:]
        want = []
        for r, vec, p in sel:
            want.append((regs[r]["name"][:63], regs[r]["m"].split(",")[0], [int(f) for f in vec], res.p(p)))
        got = []
        for l in rows:
            m = re.match(r"Rank %d region (.*) model (\S+) features \[(.*)\] policy (-?\d+)$" % rank, l)
            if not m:
                raise Mismatch("policy trace line %r" % l)
            got.append((m.group(1), m.group(2).split(",")[0], [int(x) for x in m.group(3).split(",") if x.strip()], int(m.group(4))))
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            raise Mismatch("policy trace: selection %d is %r, the application got %r (%d lines, %d selections)" % (
                i, got[i:i + 1], want[i:i + 1], len(got), len(want)))
        obs.count("policy_rows", len(rows))
    if case["best"]:
        check_best(case, res, trains, cwd, obs, rank)
    if st["overlap"] or len(order) >= 10:
        obs.sig = sig(case["ops"], [g["m"] for g in regs])
        obs.note = "%d executions of %d regions" % (len(order), len(regs))


def run(case, env, obs):
    if case.get("t") == "async":
        return c05.run(case["case"], env, obs)
    if case.get("t") == "gather":
        return c15.run(case["case"], env, obs)
    if case.get("t") == "mpi":
        return run_mpi(case, env, obs)
    if case.get("t") == "mpiinfo":
        return run_mpiinfo(case, env, obs)
    regs = case["regs"]
    with env.scratch() as cwd:
        if any("load" in g["m"] for g in regs):
            os.mkdir(os.path.join(cwd, "sub"))
            s = Script()
            s.add("mk", "m", "DecisionTree", 1, 2)
            s.add("dnew", "D")
            s.add("dins", "D", 1, 1.0, 3.0)
            s.add("dins", "D", 0, 1.0, 5.0)
            s.add("mtrain", "m", "D")
            s.add("mst", "m", "sub/m.yaml")
            if not obs.conform(env.go(s, cwd)):
                return
        s, st = build(case)
        old = 0
        if case["prior"]:  # an earlier run of the program in the same directory
            if not obs.conform(env.go(s, cwd), "earlier run"):
                return
            for f in os.listdir(cwd):
                if f.endswith("-best_policies.txt"):
                    os.unlink(os.path.join(cwd, f))
                if f == "rank-0-policies.txt":
                    old = len(gen.read_file(os.path.join(cwd, f)).splitlines())
            obs.count("repeated_runs")
        res = env.go(s, cwd)
        if not obs.conform(res):
            return
        judge(case, res, st, cwd, 0, old, obs)


def run_mpi(case, env, obs):
    with env.scratch() as cwd:
        b = [build(c) for c in case["ranks"]]
        rs = env.mpi([s for s, _ in b], cwd)
        for r, res in enumerate(rs):
            if not obs.conform(res, "rank %d" % r):
                return
        for r, (res, c, (_, st)) in enumerate(zip(rs, case["ranks"], b)):
            judge(c, res, st, cwd, r, 0, obs)
            obs.count("mpi_ranks")
        d = os.path.join(cwd, case["ranks"][0]["out"] or ".apollo", case["ranks"][0]["td"] or "traces")
        if case["ranks"][0]["csv"]:
            want = sum(len(c["regs"]) + 1 for c in case["ranks"])
            if len(os.listdir(d)) != want:
                raise Mismatch("%d trace files of %d ranks, expected %d" % (len(os.listdir(d)), len(rs), want))


def run_mpiinfo(case, env, obs):
    """Known finding: the ranks of a run share one execution-info file."""
    sc = []
    for r in range(2):
        s = Script()
        s.env(APOLLO_STORE_EXEC_INFO=1)
        s.region("r", 1, 2, "reg", info="RoundRobin")
        for i in range(3 + 4 * r):
            s.x("r", 1.0, [1.0])
        sc.append(s)
    with env.scratch() as cwd:
        rs = env.mpi(sc, cwd)
        for r, res in enumerate(rs):
            if not obs.conform(res, "rank %d" % r):
                return
        fs = [f for f in os.listdir(os.path.join(cwd, ".apollo")) if "exec_info" in f]
        rows = [l.split(",")[-1].strip() for f in fs for l in gen.read_file(os.path.join(cwd, ".apollo", f)).splitlines() if l.strip()]
        if sorted(rows) != ["3", "7"]:
            obs.bad("two ranks executed region reg 3 and 7 times, execution info of the run: %r in %r" % (rows, fs),
                    "mpi-exec-info" if rows in (["3"], ["7"]) and len(fs) == 1 else None)


def check_best(case, res, trains, cwd, obs, rank):
    last = {}
    for st, d in trains:
        for k, (tr, du) in enumerate(d):
            ds = res.ds(du)
            if res.t(tr) and ds:
                last[(st, k)] = ds
    files = {f for f in os.listdir(cwd) if f.endswith("-best_policies.txt") and "-rank-%d-" % rank in f}
    want = {"step-%d-rank-%d-%s-best_policies.txt" % (st, rank, case["regs"][k]["name"][:63]) for st, k in last}
    if files != want:
        raise Mismatch("best-policy traces %r, trainings took place for %r" % (sorted(files), sorted(want)))
    for (st, k), ds in last.items():
        nm = case["regs"][k]["name"][:63]
        rows = gen.read_file(os.path.join(cwd, "step-%d-rank-%d-%s-best_policies.txt" % (st, rank, nm))).splitlines()
        if nm not in rows[0]:
            raise Mismatch("best-policy trace of %s is headed %r" % (nm, rows[0]))
        best = gen.argmins(ds)
        rest = [(list(int(f) for f in v), ps, ds[(v, sorted(ps)[0])]) for v, ps in best.items()]
        for l in rows[1:]:
            m = re.match(r"\[(.*)\] P:(-?\d+) T: (\S+)$", l)
            if not m:
                raise Mismatch("best-policy trace line %r" % l)
            fs = [int(x) for x in m.group(1).split(",") if x.strip()]
            hit = next((z for z in rest if z[0] == fs and int(m.group(2)) in z[1] and near(m.group(3), z[2])), None)
            if hit is None:
                raise Mismatch("best-policy trace of %s has %r, not the best of the trained data" % (nm, l))
            rest.remove(hit)
            obs.count("best_rows")
        if rest:
            raise Mismatch("best-policy trace of %s lacks %r" % (nm, rest[0]))


def check_csv(case, res, ex, order, D, obs, rank):
    regs = case["regs"]
    for k, g in enumerate(regs):
        nm = g["name"][:63]
        f = [x for x in os.listdir(D) if x.endswith("-region-%s-rank-%d.csv" % (nm, rank)) and x.startswith("trace-" + g["m"].split(",")[0])]
        if len(f) != 1:
            raise Mismatch("trace files of region %s: %r" % (nm, f))
        rows = gen.read_file(os.path.join(D, f[0])).splitlines()
        hd = ["rankid", "training", "region", "idx"] + ["f%d" % i for i in range(g["nf"])] + ["policy", "xtime"]
        if not rows or rows[0].split() != hd:
            raise Mismatch("trace header of %s is %r" % (nm, rows[:1]))
        mine = [u for u in order if ex[u]["r"] == k]
        if len(rows) - 1 != len(mine):
            raise Mismatch("trace of %s has %d rows, %d executions completed" % (nm, len(rows) - 1, len(mine)))
        for l, u in zip(rows[1:], mine):
            e, t = ex[u], l.split()
            ok = len(t) == len(hd) and [t[0], t[1].split(",")[0]] + t[2:4] == [str(rank), g["m"].split(",")[0], nm, str(e["idx"])] and t[-2] == str(res.p(e["p"])) and \
                all(near(a, b) for a, b in zip(t[4:-2], e["v"]))
            tol = 1e-5 * abs(e["m"]) + (2e-7 if e.get("timed") else 1e-300)
            if not ok or abs(float(t[-1]) - e["m"]) > tol:
                raise Mismatch("trace row %r of %s, the execution was number %d, features %r, policy %d, metric %r" % (
                    l, nm, e["idx"], e["v"], res.p(e["p"]), e["m"]))
            obs.count("trace_rows")
    rows = gen.read_file(os.path.join(D, "trace-rank-%d.csv" % rank)).splitlines()
    body = [l for l in rows if not l.startswith("#")]
    if len(rows) - len(body) != 1:
        raise Mismatch("global trace without header")
    if len(body) != len(order):
        raise Mismatch("global trace has %d rows, %d executions completed" % (len(body), len(order)))
    for l, u in zip(body, order):
        e, t = ex[u], l.split()
        g = regs[e["r"]]
        if t[1:3] + [x.split(",")[0] for x in t[3:4]] + t[4:] != [g["name"][:63], str(e["idx"]), g["m"].split(",")[0], str(res.p(e["p"]))] or not t[0].isdigit():
            raise Mismatch("global trace row %r, completed was execution %d of %s with policy %d" % (l, e["idx"], g["name"], res.p(e["p"])))
        obs.count("global_rows")
