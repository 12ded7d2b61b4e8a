import itertools, os
from vf import Script, Mismatch, f32, sig
import gen
PROP = "C05"
VARIANTS = ["async"]
RULE = ("regions timed by CUDA/HIP events of a stand-in event runtime whose operations complete in scripted or poll-driven order; "
        "the event log (record/complete/poll/destroy) and every dataset dump, CSV trace row and the next run's persistent dataset "
        "are compared: recorded only after completion, exactly once, own features/policy, elapsed ms/1000; non-trivial: at least two "
        "executions in flight completing out of order")
ASSUME = ["the event runtime is a stand-in with CUDA/HIP event semantics, there is no GPU in the sandbox"]


def cases(rng, tier, n=None, csv=False):
    for i in range(n or (900 if tier == "quick" else 15000)):
        mode = rng.choice(["dt", "pnet", "dtp", "staticp", "pnetp", "dtp"])
        regs = [{"kind": rng.choice(["cuda", "hip"]), "np": rng.choice([1, 2, 3, 4]),
                 "mt": rng.choice([0, 0, 0, 3, 8]) if mode in ("pnet", "pnetp", "dtp") else 0} for _ in range(rng.choice([1, 1, 2, 3]))]
        ops, infl, pend, todo, uid = [], [], [], {}, 0
        dup = rng.random() < .2
        wave = i % 30 == 7  # many executions in flight at once
        for j in range(rng.choice([8, 20, 50, 120]) if not wave else 850):
            k = rng.random()
            if wave:
                k = k * .42 if j < 350 else .4 + k * .22 if j < 550 else .4 + k * .6
            if k < .34:
                r = rng.randrange(len(regs))
                f = float(rng.randrange(1, 4)) if dup else float(uid + 1)
                ops.append(["b", r, uid, f])
                infl.append((r, uid))
                todo[uid] = [["f", r, uid, f], ["p", r, uid]]
                if rng.random() < .5:  # otherwise between the calls of other executions
                    ops += todo.pop(uid)
                uid += 1
            elif k < .4 and todo:
                u = rng.choice(sorted(todo))
                ops.append(todo[u].pop(0))
                if not todo[u]:
                    del todo[u]
            elif k < .6 and infl:
                r, u = infl.pop(rng.randrange(len(infl)))
                ops += todo.pop(u, [])
                if rng.random() < .07:
                    ops.append(["em", r, u, gen.metric(rng)])
                else:
                    ops.append(["e", r, u])
                    pend.append((r, u))
            elif k < .82 and pend:
                r, u = pend.pop(rng.choice([0, -1, rng.randrange(len(pend))]))
                ops.append(["done", r, u, f32(10 ** rng.uniform(-3, 6)) if rng.random() < .9 else 0.0])
            elif k < .87:
                ops.append(["collect", rng.randrange(len(regs))])
            elif k < .90:
                ops.append(["train"] if mode in ("pnet", "dtp", "staticp", "pnetp") else ["collect", 0])
            elif k < .93:
                ops.append(["rtrain", rng.randrange(len(regs))] if mode != "dt" else ["collect", 0])
            elif k < .96:
                ops.append(["dump", rng.randrange(len(regs))])
            elif k < .97:
                ops.append(["drain", rng.choice([0, 0, 1, 1, 3, 3, 150, 1200])])
            elif k < .98:
                ops.append(["drain", -1])
        for r, u in infl:
            ops += todo.pop(u, [])
            ops.append(["e", r, u])
        for r in range(len(regs)):
            ops.append(["dump", r])
        yield {"mode": mode, "regs": regs, "ops": ops, "csv": csv or rng.random() < .6, "polls": rng.choice([0, 0, 1, 1, 2, 7, 7, 120, 1100]),
               "dep": rng.choice([0, 0, 2, 3]),
               "gp": rng.choice([0, 0, 0, 4, 7]) if mode in ("pnet", "pnetp") else 0,
               "pp": rng.choice([0, 0, 5]) if mode in ("pnet", "pnetp") else 0}


def model(mode):
    return {"dt": "DecisionTree", "dtp": "DecisionTree,max_depth=3", "pnet": "PolicyNet", "pnetp": "PolicyNet",
            "staticp": "RoundRobin"}[mode]


def perms(ms):
    out = set()
    for p in itertools.permutations(ms):
        v = p[0]
        for m in p[1:]:
            v = .5 * v + .5 * m
        out.add(v)
    return out


def run(case, env, obs):
    s = Script()
    persist = case["mode"].endswith("p")
    s.env(APOLLO_TRACE_CSV=int(case["csv"]), APOLLO_PERSISTENT_DATASETS=int(persist),
          APOLLO_GLOBAL_TRAIN_PERIOD=case["gp"], APOLLO_PER_REGION_TRAIN_PERIOD=case["pp"])
    for r, g in enumerate(case["regs"]):
        s.region("r%d" % r, 1, g["np"], "g%d" % r, mt=g["mt"], info=model(case["mode"]))
    ex, lines, cur = {}, {}, {}

    def dep(r, u, k):  # through the calls without a context, which act on the region's latest begun execution
        return case.get("dep") and cur.get(r) == u and (u + k) % case["dep"]

    for op in case["ops"]:
        if op[0] == "b":
            _, r, u, f = op
            cur[r] = u
            ex[u] = {"r": r, "f": f, "begin": s.add("begintk", "r%d" % r, "c%d" % u, case["regs"][r]["kind"]), "end": None, "m": None}
        elif op[0] == "f":
            s.add("featd", "r%d" % op[1], op[3]) if dep(op[1], op[2], 0) else s.add("feat", "r%d" % op[1], "c%d" % op[2], op[3])
        elif op[0] == "p":
            ex[op[2]]["pol"] = s.add("pold", "r%d" % op[1]) if dep(op[1], op[2], 1) else s.add("pol", "r%d" % op[1], "c%d" % op[2])
        elif op[0] == "e":
            ex[op[2]]["end"] = s.add("endcur" if dep(op[1], op[2], 0) else "end", "r%d" % op[1], "c%d" % op[2])
            lines[ex[op[2]]["end"]] = ("end", op[1], op[2])
        elif op[0] == "em":
            ex[op[2]]["m"] = op[3]
            ex[op[2]]["end"] = s.add("endm", "r%d" % op[1], "c%d" % op[2], op[3])
            lines[ex[op[2]]["end"]] = ("endm", op[1], op[2])
        elif op[0] == "done":
            s.add("evdonec", "c%d" % op[2], op[3])
        elif op[0] == "collect":
            lines[s.add("collect", "r%d" % op[1])] = ("coll", op[1])
        elif op[0] == "train":
            tr = {r: s.add("tr", "r%d" % r) for r in range(len(case["regs"]))}
            lines[s.add("train", 1)] = ("train", tr)
        elif op[0] == "rtrain":
            tr = {op[1]: s.add("tr", "r%d" % op[1])}
            lines[s.add("rtrain", "r%d" % op[1], 1, 1, 0)] = ("train", tr)
        elif op[0] == "dump":
            lines[s.add("dump", "r%d" % op[1])] = ("dump", op[1])
        elif op[0] == "drain":
            s.add("evdrain", op[1])
    s.add("evdrain", case["polls"])
    with env.scratch() as cwd:
        res = env.go(s, cwd, variant="async")
        if not obs.conform(res):
            return
        check_log(case, s, res, ex, lines, persist, obs)
        if case["csv"]:
            check_csv(case, res, ex, cwd, obs)
        if persist:
            s2 = Script()
            s2.env(APOLLO_PERSISTENT_DATASETS=1)
            d = []
            for r, g in enumerate(case["regs"]):
                s2.region("r%d" % r, 1, g["np"], "g%d" % r, info="RoundRobin")
                d.append(s2.add("dump", "r%d" % r))
            res2 = env.go(s2, cwd, variant="async")
            if not obs.conform(res2, "next run"):
                return
            for r in range(len(case["regs"])):
                want = expected(ex, r, [u for u in ex if ex[u]["r"] == r])
                compare(res2.ds(d[r]), want, want, "persistent dataset of region %d in the next run" % r)
                obs.count("drained_and_persisted", len(want))


def expected(ex, r, us):
    d = {}
    for u in us:
        e = ex[u]
        d.setdefault(((e["f"],), e["p"]), []).append(e["metric"])
    return d


def compare(got, must, may, what):
    for k in got:
        if k not in may:
            raise Mismatch("%s has an entry %r that no completed execution accounts for" % (what, k))
    for k in must:
        if k not in got:
            raise Mismatch("%s lacks the completed execution(s) %r" % (what, k))
    for k, v in got.items():
        if len(may[k]) <= 3:
            ok = set()
            lo = len(must.get(k, []))
            for n in range(max(1, lo), len(may[k]) + 1):
                for sub in itertools.combinations(may[k], n):
                    ok |= perms(sub)
            if v not in ok:
                raise Mismatch("%s: entry %r has metric %r, device times in seconds were %r" % (what, k, v, may[k]))
        elif not min(may[k]) <= v <= max(may[k]):
            raise Mismatch("%s: entry %r has metric %r outside the device times %r" % (what, k, v, may[k]))


def check_log(case, s, res, ex, lines, persist, obs):
    done, rec_of = {}, {}
    for u, e in ex.items():
        e["p"] = res.p(e["pol"])
        if e["m"] is None:
            v = res.out.get(e["end"], "").split()
            if len(v) != 2:
                raise Mismatch("no end of execution %d" % u)
            e["rec"] = int(v[1])
            if e["rec"] < 0:
                raise Mismatch("ending execution %d did not record a stop event" % u)
    # metrics by record number from the whole log
    for l in res.raw:
        t = l.split()
        if t[:2] == ["0", "evdone"] and int(t[2]) not in done:
            done[int(t[2])] = float.fromhex(t[3])
        if t[:2] == ["0", "evbad"]:
            raise Mismatch("event misuse: " + l)
    by_rec = {e["rec"]: u for u, e in ex.items() if e["m"] is None}
    if len(by_rec) != sum(1 for e in ex.values() if e["m"] is None):
        raise Mismatch("two executions share a stop event")
    for u, e in ex.items():
        e["metric"] = e["m"] if e["m"] is not None else f32(done.get(e.get("rec"), 0.0)) / 1000.0
    completed, must = set(), set()
    order_done, order_end = [], []
    trained = set()
    for l in res.raw:
        a, _, b = l.partition(" ")
        t = b.split()
        if a == "0":
            if t and t[0] == "evdone" and int(t[1]) in by_rec:
                completed.add(by_rec[int(t[1])])
                order_done.append(by_rec[int(t[1])])
            if t and t[0] == "evfinal":
                if t[1] != t[2]:
                    raise Mismatch("%s timing events were created and %s destroyed" % (t[1], t[2]))
                obs.count("events_created_destroyed", int(t[1]))
            continue
        op = lines.get(int(a))
        if op is None:
            continue
        if op[0] in ("end", "endm", "coll"):
            if op[0] == "endm":
                completed.add(op[2])
            if op[0] == "end":
                order_end.append(op[2])
            r = op[1]
            # an execution that completed before this call (log order) must be in by now
            must |= {u for u in completed if r is None or ex[u]["r"] == r}
        elif op[0] == "train":  # only models that still train collect
            must |= {u for u in completed if ex[u]["r"] in op[1] and res.t(op[1][ex[u]["r"]])}
        else:
            obs.count("dumps")
            r = op[1]
            compare(res.ds(int(a)), expected(ex, r, [u for u in must if ex[u]["r"] == r]),
                    expected(ex, r, [u for u in completed if ex[u]["r"] == r]), "dataset of region %d at line %s" % (r, a))
    obs.count("executions", len(ex))
    n = [l for l in res.stderr.splitlines() if "total region executions" in l]
    if n and int(n[-1].split(":")[-1]) != len(ex):
        raise Mismatch("%d executions ended, the library collected %s" % (len(ex), n[-1].split(":")[-1].strip()))
    if order_done != [u for u in order_end if u in set(order_done)]:
        obs.count("out_of_order_runs")
        obs.sig = sig(case["mode"], order_done, order_end)
        obs.note = "%d executions, completion order %s" % (len(ex), order_done[:12])


def check_csv(case, res, ex, cwd, obs):
    for r in range(len(case["regs"])):
        p = os.path.join(cwd, ".apollo/traces/trace-%s-region-g%d-rank-0.csv" % (model(case["mode"]), r))
        rows = [l.split() for l in gen.read_file(p).splitlines()[1:]]
        want = {int(res.out[e["begin"]].split()[1]): e for e in ex.values() if e["r"] == r}
        ids = [int(x[3]) for x in rows]
        if sorted(ids) != sorted(want):
            raise Mismatch("trace of region %d has execution numbers %r, executed were %r" % (r, ids[:30], sorted(want)[:30]))
        for x in rows:
            e = want[int(x[3])]
            if float(x[4]) != e["f"] or int(x[5]) != e["p"] or abs(float(x[6]) - e["metric"]) > 1e-5 * abs(e["metric"]):
                raise Mismatch("trace row %r, execution had feature %g policy %d device time %r s" % (x, e["f"], e["p"], e["metric"]))
            obs.count("trace_rows")
    rows = [l.split() for l in gen.read_file(os.path.join(cwd, ".apollo/traces/trace-rank-0.csv")).splitlines() if l[0] != "#"]
    got = sorted((x[1], int(x[2]), int(x[4])) for x in rows)
    want = sorted(("g%d" % e["r"], int(res.out[e["begin"]].split()[1]), e["p"]) for e in ex.values())
    if got != want:
        raise Mismatch("the global trace has %d rows of executions (region, number, policy) that differ from the %d completed: %r" % (
            len(got), len(want), sorted(set(got) ^ set(want))[:4]))
