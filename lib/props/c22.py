import importlib, random, re, resource
from vf import Script, Mismatch, Hang, Obs, Res, f32, sig, run_script
import gen
PROP = "C22"
VARIANTS = ["asan", "kokkos", "async", "mpi", "jit", "plain", "kplain"]
RULE = ("random conforming call sequences over all models, settings, API forms, user timers, stores, loads, retrainings, long names, unused "
        "regions and contexts left open at exit; plus samples of every other check's workload (asynchronous timing, MPI, Kokkos, JIT, damaged "
        "files included), all under AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions, and a sample of both under "
        "Valgrind memcheck (uninitialised values) with unsanitized builds; judged: sanitizer and memcheck reports, signals, unexpected "
        "exceptions or aborts; non-trivial: at least ten calls answered")
ASSUME = ["MemorySanitizer needs an instrumented libstdc++, which is not installed: uninitialised values are looked for by Valgrind memcheck"]
SRC = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19",
       "c20", "c21", "c23", "c24"]
SLOW = {"c15": 6, "c18": 40, "c21": 4, "c12": 25, "c17": 6, "c23": 25}


def cases(rng, tier):
    q = tier == "quick"
    for i in range(1500 if q else 30000):
        yield {"t": "fuzz", "seed": rng.getrandbits(40), "v": "asan"}
    for i in range(60 if q else 2000):
        yield {"t": "fuzz", "seed": rng.getrandbits(40), "v": "plain"}
    yield {"t": "stack", "n": 30000, "stack": 200000}
    for m in ("RandomForest,num_trees=2", "DecisionTree", "Random", "RoundRobin"):  # as many policies as the Kokkos connector allows
        yield {"t": "manypol", "m": m, "np": 2 ** 21}
    for m in SRC:
        mod = importlib.import_module("props." + m)
        n = SLOW.get(m, 50) if q else 10 * SLOW.get(m, 50)
        nv = 0 if m in ("c05", "c15", "c21", "c17") else (8 if q else 150)
        for tag, k in (("other", n), ("vg", nv)):
            if not k:
                continue
            # a spread over the module's case list, which is ordered by kind
            cs = list(mod.cases(random.Random(rng.getrandbits(40)), "quick"))
            for j in range(k):
                c = cs[int(len(cs) * (j + rng.random()) / k)]
                if tag == "vg" and ("mpi" in str(c.get("t", "")) or c.get("t") in ("bad", "async") or len(str(c)) > 30000):
                    continue
                yield {"t": tag, "m": m, "case": c}


# ------------------------------------------------------------ generator
def fuzz(seed):
    r = random.Random(seed)
    s = Script()
    single = r.random() < .12
    if single:
        s.env(APOLLO_SINGLE_MODEL=1, APOLLO_REGION_MODEL=0)
    for k, vs in (("APOLLO_TRACE_CSV", [0, 1]), ("APOLLO_TRACE_POLICY", [0, 1]), ("APOLLO_TRACE_BEST_POLICIES", [0, 1]),
                  ("APOLLO_STORE_MODELS", [0, 1]), ("APOLLO_PERSISTENT_DATASETS", [0, 1]), ("APOLLO_GLOBAL_TRAIN_PERIOD", [0, 1, 3, 10]),
                  ("APOLLO_STORE_EXEC_INFO", [0, 1]), ("APOLLO_OUTPUT_DIR", ["od"]), ("APOLLO_POLICY_MODEL", ["RoundRobin", "RandomForest,num_trees=2"])):
        if r.random() < .35:
            s.env(**{k: r.choice(vs)})
    if not single and r.random() < .3:
        s.env(APOLLO_PER_REGION_TRAIN_PERIOD=r.choice([1, 4, 9]))
    s.add("entropy", r.getrandbits(40))
    MODELS = ["", "RoundRobin", "Random", "Static", "Static,policy=%d", "DecisionTree", "DecisionTree,max_depth=%d", "DecisionTree,explore=Random",
              "RandomForest,num_trees=%d", "RandomForest,max_depth=9,explore=Random", "PolicyNet", "PolicyNet,lr=0.3,threshold=0.4"]
    sm, snf, snp = r.choice(["DecisionTree", "RandomForest,num_trees=3", "PolicyNet"]), r.choice([1, 2]), r.choice([2, 4])
    regs, openr, files, bare, sets = [], {}, {}, [], {}
    alpha = "abcXYZ0189_-.@:+() "
    uid = [0]

    def metric():
        return r.choice([gen.metric(r), 0.0, 1e-300, 1e300]) if r.random() < .2 else gen.metric(r)

    def vec(g):
        if g["m"].startswith("PolicyNet"):
            return [float(r.choice([0, 1, 5, 1000, 2 ** 33]) + r.randint(0, 9)) for _ in range(g["nf"])]
        if g["pool"] and r.random() < .7:
            return list(r.choice(g["pool"]))
        v = [gen.scalar(r, r.choice(gen.FAMS)) for _ in range(g["nf"])]
        g["pool"].append(v)
        return v

    def new_region():
        k = len(regs)
        np_ = snp if single else r.choice([1, 2, 3, 7, 50])
        nf = snf if single else r.choice([0, 1, 2, 5, 30])
        m = sm if single else r.choice(MODELS)
        if "%d" in m:
            m = m % r.choice([0, 1, 3, 12] if "trees" not in m else [1, 2, 6])
        if m.startswith("PolicyNet"):
            nf = max(1, min(nf, 2))
        n = r.choice([1, 5, 20, 58, 59, 60, 61, 62, 63, 100, 300])
        body = "".join(r.choice(alpha) for _ in range(n))
        # distinct within the significant length, for file names as well
        name = ("%d" % k + body)[:max(n, 1)] if n > 3 else "%d" % k
        mt = 0 if single else r.choice([0, 0, 1, 4, 20])
        g = {"h": "r%d" % k, "nf": nf, "np": np_, "m": m, "pool": [], "name": name}
        if m.split(",")[0] in ("DecisionTree", "RandomForest") and not single:
            fs = [f for f, key in files.items() if key == (m.split(",")[0], nf, np_)]
            if fs and r.random() < .5:
                g["m"] = m = m + ",load=" + r.choice(fs)
        if r.random() < .25 and m and not single:
            s.add("cregion", g["h"], nf, np_, mt, esc_(name), esc_(m))
        else:
            s.region(g["h"], nf, np_, name, mt=mt, info=m)
        regs.append(g)

    from vf import esc as esc_
    for _ in range(r.choice([1, 1, 2, 4, 8])):
        new_region()
    for _ in range(r.choice([5, 30, 80, 200])):
        k = r.random()
        g = r.choice(regs)
        h = g["h"]
        closed = h not in openr
        if k < .4 and closed:
            s.x(h, metric(), vec(g))
        elif k < .55 and closed:
            c = "c%d" % uid[0]
            uid[0] += 1
            v = vec(g)
            form = r.choice("vfdc")
            if form == "v":
                s.add("beginv", h, c, *v)
            elif form == "c":
                s.add("cbegin", h)
                for x in v:
                    s.add("cfeat", h, x)
            else:
                s.add("begin", h, c)
                for x in v:
                    s.add(*(("feat", h, c, x) if form == "f" else ("featd", h, x)))
            openr[h] = (c, form)
            for _ in range(r.choice([1, 1, 2])):
                if form == "c":
                    s.add("cpol", h)
                elif r.random() < .5:
                    s.add("pold", h)
                else:
                    s.add("pol", h, c)
            if form != "c" and r.random() < .15:
                s.add("utimer", c, r.choice([0, 0, 1, 5]), gen.metric(r))
        elif k < .72 and openr:
            h = r.choice(sorted(openr))
            c, form = openr.pop(h)
            if form == "c":
                s.add("cend", h)
            else:
                e = r.choice(["end", "endm", "endd", "enddm"])
                s.add(*([e, h] + ([c] if e in ("end", "endm") else []) + ([metric()] if e.endswith("m") else [])))
        elif k < .76:
            s.add("train", r.randint(-1, 99))
        elif k < .79 and not single:
            s.add("rtrain", h, r.randint(0, 9), r.choice([0, 1]), r.choice([0, 0, 1]))
        elif k < .80:
            s.add("clk", r.randint(0, 10 ** 9), 0, 0)
        elif k < .815:
            s.add("flush", r.randint(0, 5))
        elif k < .83:
            s.add("collect", h)
        elif k < .85:
            s.add("dump", h)
        elif k < .86:
            s.add("rclr", h)
        elif k < .87 and len(regs) < 12:
            new_region()
        elif k < .93:
            # models used directly
            op = r.random()
            if not bare or op < .25:
                b = {"h": "b%d" % len(bare), "m": r.choice(["DecisionTree", "RandomForest", "PolicyNet", "Random", "RoundRobin", "Static"]),
                     "nf": r.choice([1, 2, 3]), "np": r.choice([1, 2, 6]), "pool": [], "ok": False}
                s.add("mk", b["h"], b["m"], b["nf"], b["np"], *(["max_depth=%d" % r.choice([0, 2, 40])] if b["m"] in ("DecisionTree", "RandomForest") else []))
                bare.append(b)
            else:
                b = r.choice(bare)
                key = (b["m"], b["nf"], b["np"])
                if op < .55:
                    s.add("dnew", "D")
                    for _ in range(r.choice([1, 2, 12, 40])):
                        s.add("dins", "D", r.randrange(b["np"]), gen.metric(r), *vec(b))
                    s.add("mtrain", b["h"], "D")
                    b["ok"] = True
                elif op < .7:
                    s.query(b["h"], [vec(b) for _ in range(r.choice([1, 9]))], "mq")
                elif op < .85 and (b["ok"] and b["m"] in ("DecisionTree", "RandomForest", "PolicyNet")):
                    f = "f%d_%d.yaml" % (len(files), r.randint(0, 3))
                    s.add("mst", b["h"], f)
                    files[f] = key
                else:
                    fs = [f for f, kk in files.items() if kk == key]
                    if fs:
                        s.add("mld", b["h"], r.choice(fs))
                        b["ok"] = True
        elif k < .96:
            key = (g["m"].split(",")[0], g["nf"], g["np"])
            fs = [f for f, kk in files.items() if kk == key]
            if fs and closed:
                s.add("mload", h, r.choice(fs))
        elif k < .98 and g["m"].split(",")[0] == "PolicyNet":
            f = "p%d.bin" % len(files)
            s.add("mstore", h, f)
            files[f] = ("PolicyNet", g["nf"], g["np"])
        else:
            s.query(h, [vec(g) for _ in range(3)])
    if r.random() < .7:
        for h, (c, form) in sorted(openr.items()):
            s.add(*(["cend", h] if form == "c" else ["end", h, c]))
    return s


# ------------------------------------------------------------ judges
VG = ["valgrind", "-q", "--error-exitcode=88", "--exit-on-first-error=no", "--track-origins=no", "--leak-check=no", "--num-callers=12",
      "--undef-value-errors=yes", "--malloc-fill=a5", "--free-fill=5a"]


def vg_problem(res):
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid |Syscall param|Process terminating|Source and dest|Jump to|Mismatched|Argument )[^\n]*"
                  r"(?:\n==\d+==[^\n]*){0,6}", res.stderr)
    if m and not m.group(0).split("== ", 1)[1].startswith("Process terminating with default action of signal 6"):
        return "memcheck: " + re.sub(r"\s*\n==\d+==\s*", " | ", m.group(0))[:500]
    if res.rc == 88:
        return "memcheck error exit"
    return None


class Watch:
    """Environment for another check's case runner that keeps what each process ended with."""

    def __init__(self, env, vg):
        self.e, self.vg, self.res = env, vg, []
        self.tier = env.tier
        self.bin = env.bin
        self.base = env.base

    def scratch(self):
        return self.e.scratch()

    def go(self, script, cwd, variant="asan", **kw):
        if self.vg:
            kw["wrap"], kw["timeout"] = VG, 200
            variant = {"asan": "plain", "kokkos": "kplain"}[variant]
        r = self.e.go(script, cwd, variant, **kw)
        self.res.append(r)
        return r

    def mpi(self, scripts, cwd, **kw):
        rs = self.e.mpi(scripts, cwd, **kw)
        self.res += rs
        return rs


def run(case, env, obs):
    t = case["t"]
    if t == "fuzz":
        s = fuzz(case["seed"])
        with env.scratch() as cwd:
            if case["v"] == "asan":
                res = env.go(s, cwd)
            else:
                res = env.go(s, cwd, "plain", wrap=VG, timeout=200)
                p = vg_problem(res)
                obs.count("memcheck_processes")
                if p:
                    raise Mismatch(p)
            if not obs.conform(res, "conforming sequence"):
                return
            obs.count("conforming_sequences")
            obs.count("calls", len(s.lines))
            if res.events >= 10:
                obs.sig = sig(sorted(res.out.items()))
                obs.note = "%d calls" % len(s.lines)
        return
    if t == "stack":
        s = Script()
        s.add("mk", "m", "PolicyNet", 1, 2)
        s.add("dnew", "D")
        for i in range(case["n"]):
            s.add("dins", "D", i % 2, .5, float(i // 2))
        s.add("mtrain", "m", "D")
        s.query("m", [(3.0,)], "mq")
        old = resource.getrlimit(resource.RLIMIT_STACK)
        with env.scratch() as cwd:
            resource.setrlimit(resource.RLIMIT_STACK, (case["stack"], old[1]))
            try:
                res = env.go(s, cwd, timeout=200)
            finally:
                resource.setrlimit(resource.RLIMIT_STACK, old)
            obs.conform(res, "training on %d measurements with a stack of %d bytes" % (case["n"], case["stack"]))
        obs.count("limited_stack_runs")
        return
    if t == "manypol":
        s = Script()
        s.region("r", 1, case["np"], "R", info=case["m"])
        for i in range(5):
            s.x("r", 1.0 + i, [float(i)])
        s.add("train", 0)
        ln = s.query("r", [(3.0,), (0.0,), (7.0,)])
        s.queryx("r", [(3.0,), (-1.0,)])
        with env.scratch() as cwd:
            res = env.go(s, cwd, timeout=200)
            if obs.conform(res, "%s with %d policies" % (case["m"], case["np"])):
                if any(not 0 <= p < case["np"] for p in res.ints(ln)):
                    raise Mismatch("selections %r of %d policies" % (res.ints(ln), case["np"]))
        obs.count("many_policy_runs")
        obs.sig = sig("manypol", case)
        return
    mod = importlib.import_module("props." + case["m"])
    w = Watch(env, t == "vg")
    o = Obs()
    try:
        mod.run(case["case"], w, o)
    except Mismatch:
        pass
    except Hang:
        if t != "vg":
            raise
    except Exception:
        if not w.res:
            raise
    for r in w.res:
        obs.events += r.events
        if t == "vg":
            obs.count("memcheck_processes")
            p = vg_problem(r)
        else:
            obs.count("sanitized_processes_" + case["m"])
            p = r.problem() if r.sanitizer else None
        if p:
            raise Mismatch("workload of %s: %s" % (case["m"].upper(), p))
    # ends that the other check's workload expects to be normal
    for msg, _ in o.viol:
        if t != "vg" and re.search(r"abnormal end rc=|unexpected exception at|sanitizer report", msg):
            raise Mismatch("workload of %s: %s" % (case["m"].upper(), msg))
    obs.sig = sig(t, case["m"], len(w.res), obs.events)


def cleanup():
    import props.c21
    props.c21.cleanup()
