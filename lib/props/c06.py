from vf import Script, Mismatch, sig
import gen
PROP = "C06"
VARIANTS = ["asan"]
RULE = ("executions under a virtual clock (monotonic, wall and CPU time advance independently; wall clock also jumps "
        "backwards; uptimes up to a year; durations 0 ns to 20 days, nested regions, all API styles), recorded metric compared "
        "with the monotonic difference within 2e-7 s, supplied metrics compared exactly, plus real-clock runs bracketed by "
        "independent clock readings; non-trivial: distinct duration patterns with a nonzero duration")
ASSUME = ["clock reads go through the libc clock functions, which the driver interposes"]


def dur(rng):
    k = rng.random()
    if k < .05:
        return 0
    if k < .3:
        return rng.randint(1, 5000)
    if k < .7:
        return int(10 ** rng.uniform(3, 9.5))
    if k < .9:
        return rng.randint(0, 5) * 1000000000 + rng.randint(0, 999999999)
    return int(10 ** rng.uniform(10, 15.2))


def cases(rng, tier):
    for i in range(1200 if tier == "quick" else 20000):
        n = rng.choice([1, 1, 2, 3])
        ops, open_ = [], []
        for _ in range(rng.choice([4, 10, 24])):
            free = [r for r in range(n) if r not in [o for o in open_]]
            if open_ and (not free or rng.random() < .5):
                r = open_.pop(rng.randrange(len(open_)) if rng.random() < .3 else -1)
                ops.append(["e", r, (gen.metric(rng) if rng.random() < .7 else rng.choice([0.0, -1.5, 1e-12, 1e-300, 1e30])) if rng.random() < .2 else None])
            else:
                r = rng.choice(free)
                open_.append(r)
                ops.append(["b", r, rng.choice(["begin", "beginv", "begintk", "c", "dep"])])
            if rng.random() < .85:
                ops.append(["clk", dur(rng), rng.choice([0, dur(rng), -dur(rng), -10 ** 15]), dur(rng)])
        while open_:
            ops.append(["e", open_.pop(), None])
        yield {"t": "virt", "n": n, "up": rng.choice([0, 0, 10 ** 15, 3 * 10 ** 16, rng.randint(0, 10 ** 12), -123456789000000]), "ops": ops}
    for i in range(24 if tier == "quick" else 120):
        yield {"t": "real", "ms": [rng.choice([0, 1, 3, 12, 35]) for _ in range(3)]}


def run_real(case, env, obs):
    s = Script()
    s.add("clkreal")
    s.region("r", 1, 2, "r", info="DecisionTree")
    b = []
    for i, ms in enumerate(case["ms"]):
        n0 = s.add("now")
        s.add("begin", "r", "c")
        n1 = s.add("now")
        s.add("feat", "r", "c", float(i))
        p = s.add("pol", "r", "c")
        s.add("sleepms", ms)
        n2 = s.add("now")
        s.add("end", "r", "c")
        b.append((i, p, n0, n1, n2, s.add("now")))
    d = s.add("dump", "r")
    with env.scratch() as cwd:
        res = env.go(s, cwd)
    if not obs.conform(res):
        return
    ds = res.ds(d)
    for i, p, n0, n1, n2, n3 in b:
        t = [res.ints(x)[0] for x in (n0, n1, n2, n3)]
        m = ds.get(((float(i),), res.p(p)))
        lo, hi = (t[2] - t[1]) * 1e-9, (t[3] - t[0]) * 1e-9
        if m is None or not lo - 2e-7 <= m <= hi + 2e-7:
            raise Mismatch("recorded metric %r, real duration is between %.9f and %.9f s" % (m, lo, hi))
        obs.count("real_executions")
    obs.sig = sig("real", case["ms"])


def run(case, env, obs):
    if case["t"] == "real":
        return run_real(case, env, obs)
    s = Script()
    s.add("clk", case["up"], 0, 0)
    for r in range(case["n"]):
        s.region("r%d" % r, 1, 3, "g%d" % r, info="DecisionTree")
    mono, start, uid, exp = 0, {}, 0, []
    for op in case["ops"]:
        if op[0] == "clk":
            s.add("clk", *op[1:])
            mono += op[1]
        elif op[0] == "b":
            r, st = op[1], op[2]
            h, f = "r%d" % r, float(uid)
            uid += 1
            if st == "beginv":
                s.add("beginv", h, "c%d" % r, f)
            elif st == "begintk":
                s.add("begintk", h, "c%d" % r, "sync")
                s.add("feat", h, "c%d" % r, f)
            elif st == "c":
                s.add("cbegin", h)
                s.add("cfeat", h, f)
            else:
                s.add("begin", h, "c%d" % r)
                s.add("feat", h, "c%d" % r, f)
            pl = s.add("cpol", h) if st == "c" else s.add("pol", h, "c%d" % r)
            start[r] = (mono, st, f, pl)
        else:
            r, m = op[1], op[2]
            h = "r%d" % r
            t0, st, f, pl = start.pop(r)
            if m is not None and st != "c":
                s.add(*(("enddm", h, m) if st == "dep" else ("endm", h, "c%d" % r, m)))
                exp.append((r, f, pl, m, 0.0))
            else:
                s.add(*(("cend", h) if st == "c" else ("endd", h) if st == "dep" else ("end", h, "c%d" % r)))
                exp.append((r, f, pl, (mono - t0) / 1e9, 2e-7 + (mono - t0) / 1e9 * 1e-14))
    dl = [s.add("dump", "r%d" % r) for r in range(case["n"])]
    with env.scratch() as cwd:
        res = env.go(s, cwd)
    if not obs.conform(res):
        return
    ds = [res.ds(l) for l in dl]
    for r, f, pl, m, tol in exp:
        got = ds[r].get(((f,), res.p(pl)))
        obs.count("supplied" if tol == 0 else "timed")
        if got is None or not abs(got - m) <= tol:
            raise Mismatch("execution with feature %g: recorded metric %r, %s %r s" % (
                f, got, "supplied" if tol == 0 else "monotonic time between begin and end is", m))
    if any(e[3] > 0 for e in exp):
        obs.sig = sig(case)
        obs.note = "%d executions, durations %s" % (len(exp), [e[3] for e in exp[:6]])
