import itertools, math, os
from vf import Script, Mismatch, esc, sig
PROP = "C19"
VARIANTS = ["kokkos"]
RULE = ("1-4 tuning variables per problem (integer, real and text sets; integer and real ranges with all combinations of open and closed "
        "bounds, steps that do and do not hit the bounds, continuous ranges, empty and unbounded ones) of 1-3 problems, requested in "
        "interleaved order; every assigned value checked against the declaration, and the first N requests of a problem against the full "
        "product of its candidates (each combination exactly once, then the same cycle again); non-trivial: a range or two variables")
ASSUME = ["variables that cannot be tuned (no candidates, more than 2^21 combinations) keep the values Kokkos passed in",
          "exploration is RoundRobin, the connector's default, so that N requests try N policies"]


def rand_var(rng):
    k = rng.random()
    if k < .2:
        n = rng.choice([1, 2, 3, 5, 9])
        return {"ty": "int", "k": "set", "v": rng.sample([-9, -1, 0, 1, 2, 3, 4, 8, 16, 32, 1024, 2 ** 40, -2 ** 62], n)}
    if k < .32:
        n = rng.choice([1, 2, 3, 5])
        return {"ty": "double", "k": "set", "v": rng.sample([0.0, 0.1, -0.1, 1.5, 1e300, -1e-300, 3.0, 7.25, 1 / 3], n)}
    if k < .44:
        n = rng.choice([1, 2, 4])
        return {"ty": "str", "k": "set", "v": rng.sample(["a", "b", "static", "dynamic schedule", "x" * 40, "y" * 62, "", "A", "z" * 63, "w" * 48, "w" * 47 + "v", "b ", "static,1"], n)}
    if k < .72:
        lo = rng.choice([-20, -3, -1, 0, 1, 2, 7, 100, 2 ** 33])
        st = rng.choice([1, 1, 2, 3, 5, 8])
        hi = lo + rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 10, 13, 16, 20]) * rng.choice([1, 1, st])
        return {"ty": "int", "k": "range", "v": [lo, hi, st], "ol": rng.random() < .5, "ou": rng.random() < .5}
    if k < .92:
        lo = rng.choice([-2.0, 0.0, 0.5, 1.0, 10.0, -1e6])
        st = rng.choice([0.25, 0.5, 1.0, 2.0, 0.1, 0.3])
        if rng.random() < .3:
            st = rng.choice([rng.uniform(.01, 3), 1 / 3, 1e-3, 7e5])
        hi = lo + st * rng.choice([0, 1, 2, 3, 5, 8, 1.5, 2.25, 4.75])
        if rng.random() < .4:
            # a bound within rounding of a multiple of the step
            hi = max(lo, math.nextafter(hi, rng.choice([-math.inf, math.inf])))
        return {"ty": "double", "k": "range", "v": [lo, hi, st], "ol": rng.random() < .5, "ou": rng.random() < .5}
    if k < .98:
        lo = rng.choice([-2.0, 0.0, 1.0, 1e6])
        hi = lo + rng.choice([0.5, 1.0, 100.0])
        return {"ty": "double", "k": "range", "v": [lo, hi, 0.0], "ol": rng.random() < .5, "ou": rng.random() < .5}
    return {"ty": rng.choice(["int", "double", "str"]), "k": "unbounded", "v": []}


def candidates(v):
    """Set of declared values; None when continuous. Real ranges: (list of sure points, list of points on a closed bound within rounding)."""
    if v["k"] == "unbounded":
        return [], []
    if v["k"] == "set":
        return list(v["v"]), []
    lo, hi, st = v["v"]
    if v["ty"] == "int":
        a = lo + st if v["ol"] else lo
        return [x for x in range(a, hi + 1, st) if x < hi or not v["ou"]], []
    if st == 0:
        return None, []
    sure, edge = [], []
    k = 1 if v["ol"] else 0
    while True:
        x = lo + k * st
        if abs(x - hi) <= 1e-9 * max(abs(hi), abs(lo), st):
            # on the upper bound: up to rounding when the step does not hit it exactly
            if not exact(lo, hi, st):
                edge.append(x)
            elif not v["ou"]:
                sure.append(x)
            break
        if x > hi:
            break
        sure.append(x)
        k += 1
    return sure, edge


def exact(lo, hi, st):
    # no rounding in lo + k * st
    return all(float(x * 1024).is_integer() for x in (lo, hi, st))


def legal(v, x, c, e):
    """x is a declared value of v, whose candidates are c and perhaps e."""
    if v["k"] == "unbounded":
        return False
    if c is None:
        lo, hi, _ = v["v"]
        return (lo < x if v["ol"] else lo <= x) and (x < hi if v["ou"] else x <= hi)
    if v["k"] == "range" and v["ty"] == "double":
        return any(abs(x - y) <= 1e-12 * max(abs(y), abs(v["v"][0]), v["v"][2]) for y in c + e) and \
            (v["v"][0] < x if v["ol"] else v["v"][0] <= x) and (x < v["v"][1] if v["ou"] else x <= v["v"][1])
    return x in c


def size(v):
    c, e = candidates(v)
    return 100 if c is None else len(c) + len(e)


def cases(rng, tier):
    for i in range(2500 if tier == "quick" else 40000):
        nv = rng.choice([1, 2, 3, 4, 6])
        vars_ = [rand_var(rng) for _ in range(nv)]
        if i % 9 == 4:
            n = rng.choice([100, 260, 513])
            vars_[0] = rng.choice([{"ty": "int", "k": "set", "v": rng.sample(range(-2000, 2000), n)},
                                   {"ty": "double", "k": "set", "v": [x / 4 for x in rng.sample(range(4000), n)]},
                                   {"ty": "str", "k": "set", "v": ["choice_%d" % x for x in range(n)]}])
        if i % 9 == 0:
            vars_[0] = {"ty": "int", "k": "range", "v": [0, rng.choice([99, 300]), 1], "ol": rng.random() < .5, "ou": rng.random() < .5}
        for v in vars_:
            v["name"] = rng.choice(["kokkos.team_size", "t", "vector length", "n" * 63, "m" * 64, "p" * 90, "tile_x"])
        probs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            p = rng.sample(range(nv), rng.randint(1, min(nv, 4)))
            n = 1
            for j in p:
                n *= max(1, size(vars_[j]))
            if n <= 700 and p not in [x["out"] for x in probs]:
                probs.append({"out": p, "n": n, "nin": rng.choice([0, 0, 1, 2])})
        if not probs:
            j = min(range(nv), key=lambda j: size(vars_[j]))
            probs = [{"out": [j], "n": size(vars_[j]), "nin": 0}]
        reqs = []
        for k, p in enumerate(probs):
            reqs += [k] * min(2 * p["n"] + rng.randint(0, 5), 1000)
        if rng.random() < .6:
            rng.shuffle(reqs)
        yield {"vars": vars_, "probs": probs, "reqs": reqs, "opt": rng.random() < .3, "rs": rng.getrandbits(30)}
    # hostile shapes: too many variables or choices
    for i in range(20 if tier == "quick" else 200):
        kind = rng.choice(["manyvars", "manyin", "manychoices"])
        if kind == "manychoices":
            vars_ = [{"ty": "int", "k": "range", "v": [0, 999, 1], "ol": False, "ou": False, "name": "v%d" % j} for j in range(rng.choice([3, 4, 5, 7]))]
            p = {"out": list(range(len(vars_))), "n": 1000 ** len(vars_), "nin": 1}
        else:
            n = rng.choice([48, 49, 50, 51, 52, 60, 200])
            no = rng.randint(1, n - 1) if kind == "manyvars" else 1
            vars_ = [{"ty": "int", "k": "set", "v": [j] if j else [0, 5], "name": "v%d" % j} for j in range(no)]
            p = {"out": list(range(no)), "n": 2, "nin": n - no}
        yield {"vars": vars_, "probs": [p], "reqs": [0] * 6, "opt": False, "rs": 1, "big": True}


def dec(t):
    return int(t[2:]) if t[0] == "i" else float.fromhex(t[2:]) if t[0] == "d" else bytes.fromhex(t[2:]).decode("latin1")


DEF = {"int": -777777, "double": -7.77e77, "str": "unset"}


def lit(ty, x):
    return esc(x) if ty == "str" else float(x) if ty == "double" else x


def run(case, env, obs):
    V, P = case["vars"], case["probs"]
    s = Script()
    s.add("args", *(["app"] if not case["opt"] else ["app", "--flush-rate=100000000", "--trace"]))
    s.env(APOLLO_POLICY_MODEL="RandomForest,explore=RoundRobin")
    s.add("args", "app", "--flush-rate=100000000")
    s.add("init")
    maxin = max(p["nin"] for p in P)
    for j in range(maxin):
        s.add("din", 1000 + j, "in%d" % j, "int", "unbounded")
    for j, v in enumerate(V):
        if v["k"] == "range":
            s.add("dout", 1 + j, esc(v["name"]), v["ty"], "range", *([lit(v["ty"], x) for x in v["v"]] + [int(v["ol"]), int(v["ou"])]))
        elif v["k"] == "set":
            s.add("dout", 1 + j, esc(v["name"]), v["ty"], "set", len(v["v"]), *[lit(v["ty"], x) for x in v["v"]])
        else:
            s.add("dout", 1 + j, esc(v["name"]), v["ty"], "unbounded")
    ls = {k: [] for k in range(len(P))}
    for c, k in enumerate(case["reqs"]):
        p = P[k]
        a = []
        for j in range(p["nin"]):
            a += [1000 + j, (c * 7 + j) % 5]
        o = []
        for j in p["out"]:
            o += [1 + j, lit(V[j]["ty"], DEF[V[j]["ty"]])]
        ls[k].append(s.add("req", c, p["nin"], *(a + [len(p["out"])] + o)))
        s.add("endctx", c)
    s.add("fini")
    with env.scratch() as cwd:
        res = env.go(s, cwd, "kokkos")
    if not obs.conform(res):
        return
    for k, p in enumerate(P):
        got = []
        for l in ls[k]:
            t = res.out.get(l, "").split()
            if not t or t[0] != "v" or "BADID" in t or "BADIN" in t or len(t) != 1 + len(p["out"]):
                raise Mismatch("request at line %d answered with %r" % (l, t[:9]))
            got.append(tuple(dec(x) for x in t[1:]))
        cs = [candidates(V[j]) for j in p["out"]]
        untunable = any(c is not None and not c for c, e in cs)
        n = 1
        for c, e in cs:
            n *= 100 if c is None else max(1, len(c) + len(e))
        if n > 2 ** 21 or len(p["out"]) + p["nin"] > 50:
            # values must still be the defaults or legal candidates
            for g in got:
                if g != tuple(DEF[V[j]["ty"]] for j in p["out"]):
                    for j, x, (c, e) in zip(p["out"], g, cs):
                        if not legal(V[j], x, c, e):
                            raise Mismatch("variable %r got %r, not a candidate" % (V[j], x))
            obs.count("untunable_requests", len(got))
            continue
        if untunable:
            for g in got:
                for j, x, (c, e) in zip(p["out"], g, cs):
                    if x != DEF[V[j]["ty"]] and not legal(V[j], x, c, e):
                        raise Mismatch("variable without candidates in the request: %r got %r" % (V[j], x))
            obs.count("untunable_requests", len(got))
            continue
        for g in got:
            for j, x, (c, e) in zip(p["out"], g, cs):
                v = V[j]
                ok = legal(v, x, c, e)
                if not ok:
                    raise Mismatch("variable %s got %r, not one of its candidates %r" % (
                        {k2: v[k2] for k2 in v if k2 != "name"}, x, "continuous" if c is None else (c + e)[:12]))
            obs.count("values_checked", len(g))
        # the exploration cycle: period and completeness
        seen = {}
        T = len(got)
        for i, g in enumerate(got):
            if g in seen:
                T = i
                break
            seen[g] = i
        for i in range(T, len(got)):
            if got[i] != got[i - T]:
                raise Mismatch("request %d of a problem got %r, but combination %d of the cycle of %d is %r" % (i, got[i], i - T, T, got[i - T]))
        cont = any(c is None for c, e in cs)
        lo_n, hi_n = 1, 1
        for c, e in cs:
            if c is not None:
                lo_n *= len(c)
                hi_n *= len(c) + len(e)
        if cont:
            if T < 2 * lo_n and T < len(got):
                raise Mismatch("a problem with a continuous range tries only %d combinations" % T)
        elif T < len(got) or len(got) >= hi_n:
            # all edge points may or may not be included, per variable
            opts = {1}
            for c, e in cs:
                opts = {o * m for o in opts for m in range(len(c), len(c) + len(e) + 1)}
            if T not in opts:
                raise Mismatch("%d combinations tried before repeating, the candidates have %d: %r" % (
                    T, hi_n, [{k2: V[j][k2] for k2 in V[j] if k2 != "name"} for j in p["out"]]))
            obs.count("products_completed")
        obs.count("requests", len(got))
        if len(got) > 1 and (len(p["out"]) > 1 or V[p["out"][0]]["k"] == "range"):
            obs.sig = sig([[V[j].get(x) for x in ("ty", "k", "v", "ol", "ou")] for j in p["out"]])
            obs.note = "%d combinations" % T
