import concurrent.futures, glob, os, shutil
from vf import Script, Mismatch, f32, f32_next, sig
import gen
from props.c08 import data, queries
PROP = "C21"
VARIANTS = ["asan", "jit"]
RULE = ("the same script (trainings, retrainings, loads from files, deletions, stores, several trees and forests and regions) runs in the "
        "interpreting and in the JIT build and every selection is compared, on training points, at every threshold of the trained trees and "
        "one ulp to each side, and on random vectors; bursts of concurrent JIT processes with a compiler wrapper that delays its exit; "
        "non-trivial: a compared predictor is not constant")


def mkops(rng, nm, nd):
    ops, have = [], set()
    for _ in range(rng.choice([3, 4, 6])):
        m = rng.randrange(nm)
        k = rng.random()
        if m not in have or k < .45:
            ops.append(["train", m, rng.randrange(nd)])
            have.add(m)
        elif k < .8:
            ops.append(["load", m, rng.randrange(nd)])
        elif k < .9:
            ops.append(["renew", m])
            have.discard(m)
        else:
            ops.append(["store", m])
    if not any(o[0] == "load" for o in ops):
        ops.append(["load", rng.randrange(nm), rng.randrange(nd)])
    return ops


def cases(rng, tier):
    q = tier == "quick"
    for i in range(220 if q else 1500):
        nf, np_ = rng.choice([0, 1, 1, 2, 3, 5] if i % 20 else [14, 30]), rng.choice([1, 2, 3, 6, 20])
        rf = rng.random() < .35
        ds = []
        for k in range(rng.choice([1, 2, 3])):
            vecs, d = data(rng, nf, np_, rng.choice([1, 3, 10, 30, 80]))
            ds.append(d)
        nm = rng.choice([1, 2, 3])
        allv = [v for d in ds for v, _, _ in d]
        yield {"t": "ops", "m": "RandomForest" if rf else "DecisionTree", "nf": nf, "np": np_, "ds": ds, "nm": nm,
               "par": ["max_depth=%d" % rng.choice([0, 1, 2, 4, 12, 30])] + (["num_trees=%d" % rng.choice([1, 2, 3])] if rf else []),
               "ops": mkops(rng, nm, len(ds)), "q": queries(rng, allv, 12), "region": rng.random() < .4}
    for i in range(2 if q else 12):
        nf, np_ = rng.choice([1, 2]), 7
        n = rng.choice([2500, 4000])
        d = [((float(j * 3 - 500), ) if nf == 1 else (float(j % 60), float(j // 60)), rng.randrange(np_), 1.0) for j in range(n)]
        yield {"t": "ops", "m": "DecisionTree", "nf": nf, "np": np_, "ds": [d], "nm": 1, "par": ["max_depth=100"],
               "ops": [["train", 0, 0], ["load", 0, 0]], "q": queries(rng, [v for v, _, _ in d[:400]], 10), "region": False}
    for i in range(6 if q else 60):
        nf, np_ = rng.choice([1, 2]), 5
        procs = []
        for k in range(6):
            vecs, d = data(rng, nf, np_, 12)
            vecs2, d2 = data(rng, nf, np_, 12)
            procs.append({"ds": [d, d2], "q": queries(rng, vecs + vecs2, 6)})
        yield {"t": "burst", "nf": nf, "np": np_, "procs": procs}


def fill(s, ds):
    for k, d in enumerate(ds):
        s.add("dnew", "D%d" % k)
        for v, p, x in d:
            s.add("dins", "D%d" % k, p, x, *v)


def script(case, qs, prefix):
    s = Script()
    fill(s, case["ds"])
    marks = []
    mk = lambda j: s.add("mk", "m%d" % j, case["m"], case["nf"], case["np"], *case["par"])
    for j in range(case["nm"]):
        mk(j)
    ready = set()
    for i, op in enumerate(case["ops"]):
        h = "m%d" % op[1]
        if op[0] == "train":
            s.add("mtrain", h, "D%d" % op[2])
            ready.add(op[1])
        elif op[0] == "load":
            s.add("mld", h, "f%d.yaml" % op[2])
            ready.add(op[1])
        elif op[0] == "renew":
            s.add("mdel", h)
            mk(op[1])
            ready.discard(op[1])
        elif op[0] == "store" and op[1] in ready:
            s.add("mst", h, "%s%d.yaml" % (prefix, i))
        for j in sorted(ready):
            marks.append((i, j, s.query("m%d" % j, qs, "mq")))
    if case["region"]:
        info = case["m"] + "," + ",".join(case["par"])
        s.region("L", case["nf"], case["np"], "L", info=info + ",load=f0.yaml")
        s.region("T", case["nf"], case["np"], "T", info=info)
        d = case["ds"][-1]
        for v, p, x in d:
            s.add("rins", "T", p, x, *v)
        s.add("train", 1)
        for h in "LT":
            marks.append((h, h, s.query(h, qs)))
            for v in qs[:4]:
                marks.append((h, "execution", s.x(h, 1.0, v)))
        s.add("rtrain", "T", 2, 1, 1)
        marks.append(("retrained", "T", s.query("T", qs)))
    return s, marks


def delay_path(cwd):
    """A compiler wrapper that returns late, so that concurrent compilations overlap."""
    b = os.path.join(cwd, "bin")
    os.mkdir(b)
    for n in ("c++", "g++"):
        real = shutil.which(n)
        if real:
            with open(os.path.join(b, n), "w") as f:
                f.write('#!/bin/sh\n%s "$@"\nrc=$?\nsleep 0.$((($$ %% 4) + 1))\nexit $rc\n' % real)
            os.chmod(os.path.join(b, n), 0o755)
    return b + ":" + os.environ.get("PATH", "/usr/bin:/bin")


def same(obs, a, b, marks, qs, what):
    for i, j, ln in marks:
        x, y = a.out.get(ln), b.out.get(ln)
        if x is None or y is None:
            raise Mismatch("no selections of model %s after operation %s" % (j, i))
        if x != y:
            u, w = x.split()[1:], y.split()[1:]
            k = next((k for k in range(min(len(u), len(w))) if u[k] != w[k]), 0)
            raise Mismatch("%s, model %s after operation %s: interpreted selects %s, JIT %s for %r" %
                           (what, j, i, u[k], w[k], qs[k] if k < len(qs) else None))
        obs.count("predictors_compared")
        obs.count("selections_compared", len(x.split()) - 1)


def tree_thresholds(m, path):
    if m == "DecisionTree":
        return gen.thresholds(gen.parse_tree_file(path)["root"])
    return [t for tr in gen.parse_forest_file(path)["trees"] for t in gen.thresholds(tr["root"])]


def run_ops(case, env, obs):
    qs = list(case["q"])
    with env.scratch() as cwd:
        s = Script()
        fill(s, case["ds"])
        for k in range(len(case["ds"])):
            s.add("mk", "m", case["m"], case["nf"], case["np"], *case["par"])
            s.add("mtrain", "m", "D%d" % k)
            s.add("mst", "m", "f%d.yaml" % k)
        if not obs.conform(env.go(s, cwd), "preparing run"):
            return
        ths = []
        for k in range(len(case["ds"])):
            ths += tree_thresholds(case["m"], os.path.join(cwd, "f%d.yaml" % k))
        base = qs[:8] or [()]
        ths = ths if len(ths) <= 400 else [ths[i * len(ths) // 400] for i in range(400)]
        for n, (j, t) in enumerate(ths):
            for z in (t, f32_next(t, True), f32_next(t, False)):
                v = list(base[n % len(base)])
                v[j] = z
                qs.append(tuple(v))
        if case["nf"]:
            for j in range(case["nf"]):
                for z in (gen.FMAX, -gen.FMAX, -0.0, 0.0):
                    v = list(base[0])
                    v[j] = z
                    qs.append(tuple(v))
        obs.count("thresholds_probed", len(ths))
        s1, marks = script(case, qs, "i")
        s2, _ = script(case, qs, "j")
        a = env.go(s1, cwd, "asan")
        if not obs.conform(a, "interpreting build"):
            return
        b = env.go(s2, cwd, "jit", timeout=150)
        if not obs.conform(b, "JIT build"):
            return
        same(obs, a, b, marks, qs, case["m"])
        for f in glob.glob(cwd + "/i*.yaml"):
            g = os.path.join(cwd, "j" + os.path.basename(f)[1:])
            if gen.read_file(f) != gen.read_file(g):
                raise Mismatch("the JIT build stores a different model")
        sel = [a.out[m[2]] for m in marks]
        if any(len(set(x.split()[1:])) > 1 for x in sel):
            obs.sig = sig(sel)
            obs.note = "%s: %d predictors on %d vectors" % (case["m"], len(sel), len(qs))


def run_burst(case, env, obs):
    with env.scratch() as cwd:
        path = delay_path(cwd)
        jobs = []
        for k, pr in enumerate(case["procs"]):
            s = Script()
            fill(s, pr["ds"])
            marks = []
            for j in range(2):
                s.add("mk", "m%d" % j, "DecisionTree", case["nf"], case["np"], "max_depth=20")
                s.add("mtrain", "m%d" % j, "D%d" % j)
                marks.append((j, j, s.query("m%d" % j, pr["q"], "mq")))
            s.add("mtrain", "m0", "D1")
            marks += [("r", 0, s.query("m0", pr["q"], "mq")), ("r", 1, s.query("m1", pr["q"], "mq"))]
            d = os.path.join(cwd, "p%d" % k)
            os.mkdir(d)
            jobs.append((s, marks, d, pr))
        with concurrent.futures.ThreadPoolExecutor(len(jobs)) as ex:
            js = list(ex.map(lambda z: env.go(z[0], z[2], "jit", env={"PATH": path}, timeout=150), jobs))
        for (s, marks, d, pr), b in zip(jobs, js):
            if not obs.conform(b, "one of %d concurrent JIT processes" % len(jobs)):
                return
            a = env.go(s, d, "asan")
            if not obs.conform(a, "interpreting build"):
                return
            same(obs, a, b, marks, pr["q"], "concurrent processes")
        obs.count("concurrent_processes", len(jobs))
        obs.sig = sig("burst", [j.out for j in js])


def run(case, env, obs):
    for d in [case] + case.get("procs", []):
        d["q"] = [tuple(v) for v in d.get("q", [])]
    (run_ops if case["t"] == "ops" else run_burst)(case, env, obs)


def cleanup():
    """Libraries of processes that were stopped half way."""
    for f in glob.glob("/tmp/_jit_eval_*.so"):
        pid = os.path.basename(f).split("_")[3]
        try:
            if not os.path.exists("/proc/" + pid):
                os.unlink(f)
        except OSError:
            pass
