import glob, os, re
from vf import Script, Mismatch, esc, f32, sig
import gen
from props.c19 import dec, lit, DEF
PROP = "C20"
VARIANTS = ["kokkos"]
RULE = ("1-4 tuning problems over shared pools of input and tuning variables (int, real, text; names up to 90 characters that begin alike), "
        "nested and interleaved requests and ends, ends of unknown contexts, kernels with and without a fence callback, flush intervals, "
        "1-3 successive runs in one directory; reference table of regions, measurements (virtual clock), trainings and fences; persistent "
        "datasets, returned values and fence callbacks compared; non-trivial: two problems, nesting or a trained problem")
ASSUME = ["variable sets have different joined names", "variables of a set are always passed in the same order, as Kokkos does",
          "one open context per variable set at a time (synchronous timing)"]


def cases(rng, tier):
    for i in range(900 if tier == "quick" else 15000):
        long_ = rng.random() < .4
        nin, nout = rng.choice([0, 1, 2, 3]), rng.choice([1, 2, 3])
        wide = i % 8 == 0
        if wide:
            nin = rng.choice([9, 12, 20])
        def nm(k, j):
            return ("kokkos.kernel_with_a_long_common_prefix_" + "x" * rng.choice([5, 24, 60]) + "_%s%d" % (k, j)) if long_ else "%s%d" % (k, j)
        ins = [{"name": nm("i", j), "ty": rng.choice(["int", "int", "double", "str"])} for j in range(nin)]
        outs = []
        for j in range(nout):
            ty = rng.choice(["int", "int", "str", "double"])
            n = rng.choice([2, 2, 3])
            vals = rng.sample({"int": [1, 2, 4, 8, -5], "str": ["a", "b", "c", "long value " * 3], "double": [0.5, 1.0, 2.5, -3.0]}[ty], n)
            outs.append({"name": nm("o", j), "ty": ty, "v": vals})
        probs = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            p = [sorted(rng.sample(range(nin), rng.randint(0, nin))) if not wide else sorted(set(range(nin)) - {rng.choice([0, 5, nin - 3, nin - 2, nin - 1, nin])}), sorted(rng.sample(range(nout), rng.randint(1, min(2, nout))))]
            if p not in [[q["in"], q["out"]] for q in probs]:
                pool = []
                for _ in range(rng.choice([1, 1, 2, 4])):
                    v = [rng.choice({"int": [0, 1, 7, -3, 100000, 2 ** 31, 2 ** 40, -2 ** 33], "double": [0.5, -2.0, 1e6, 1e12, 0.125, 1e-7, 2.5e-8, 1.0000001, -0.3], "str": ["k1", "k2", "kernel two", "kernel three", "K" * 50, "K" * 49 + "L"]}[ins[j]["ty"]])
                         for j in p[0]]
                    if v not in pool:
                        pool.append(v)
                n = 1
                for j in p[1]:
                    n *= len(outs[j]["v"])
                probs.append({"in": p[0], "out": p[1], "n": n, "pool": pool, "cost": rng.random() < .6})
        F = rng.choice([3, 7, 20, 20, 50, 500])
        runs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops, op_, uid = [], [], rng.choice([0, 1, 1000, 2 ** 31 - 2, 2 ** 32 + 5])
            for _ in range(rng.choice([5, 40, 90])):
                k = rng.random()
                free = [q for q in range(len(probs)) if q not in [o[1] for o in op_]]
                if k < .45 and free and len(op_) < 3:
                    q = rng.choice(free)
                    ops.append(["req", uid, q, rng.randrange(len(probs[q]["pool"])), rng.randint(1, 10 ** rng.choice([4, 7, 9]))])
                    op_.append((uid, q))
                    uid += rng.choice([1, 1, 3])
                elif k < .85 and op_:
                    u, q = op_.pop(rng.choice([-1, -1, rng.randrange(len(op_))]))
                    ops.append(["end", u, q])
                elif k < .90:
                    # unknown ids: never used, or of a context that has ended
                    over = [o[1] for o in ops if o[0] == "end" and o[2] is not None]
                    known = {o[0] for o in op_}
                    bad = [x for x in [10 ** 6 + uid, rng.randrange(300)] + [o[0] + d for o in op_ for d in (2 ** 32, 2 ** 31, 64, 256, 65536, -1)]
                           if x >= 0 and x not in known]
                    ops.append(["end", rng.choice(over) if over and rng.random() < .5 else rng.choice(bad), None])
                else:
                    ops.append(["kernel", rng.choice(["for", "scan", "reduce"]), rng.choice([0, 1, 2 ** 24 + 3, 4000000000])])
            runs.append({"ops": ops, "fence": rng.random() < .8, "left": rng.random() < .5, "open": [list(o) for o in op_]})
        opts = ["--flush-rate=%d"] + rng.sample(["--trace", "--disable_retrain", "--distributed-training", "verbose"], rng.choice([0, 0, 1, 2, 4]))
        rng.shuffle(opts)
        yield {"opts": opts, "ins": ins, "outs": outs, "probs": probs, "F": F, "runs": runs, "persist": rng.random() < .8, "out": rng.choice([None, None, "od"]),
               "seed": rng.getrandbits(30)}


def parse_ds(path):
    txt = gen.read_file(path)
    d = []
    for m in re.finditer(r"features:\s*\[([^\]]*)\],\s*policy:\s*(-?\d+),\s*xtime:\s*([^\s}]+)", txt):
        d.append((tuple(float(x) for x in m.group(1).split(",") if x.strip()), int(m.group(2)), float(m.group(3))))
    if len(d) != txt.count("features:"):
        raise Mismatch("dataset file %s is malformed" % os.path.basename(path))
    return d


def same(file_d, ref, types, smap):
    """Dataset file content equals the reference up to an injective encoding of text values; extends smap."""
    if len(file_d) != len(ref):
        return False
    a = sorted(file_d, key=lambda e: (e[1], e[2]))
    b = sorted([(k[0], k[1], m) for k, m in ref.items()], key=lambda e: (e[1], e[2]))
    new = dict(smap)
    for (fa, pa, ma), (fb, pb, mb) in zip(a, b):
        if pa != pb or abs(ma - mb) > 1e-9 * abs(mb) + 2e-7 or len(fa) != len(fb):
            return False
        for x, y, t in zip(fa, fb, types):
            if t == "str":
                if new.setdefault(y, f32(x)) != f32(x):
                    return False
            elif f32(x) != f32(float(y)):
                return False
    if len(set(new.values())) != len(new):
        return False
    smap.update(new)
    return True


def run(case, env, obs):
    I, O, P = case["ins"], case["outs"], case["probs"]
    combo = [{} for _ in P]        # policy -> values
    stored = [False] * len(P)      # a trained model exists on disk
    tsel = [{} for _ in P]         # features -> values selected once trained
    must = [None] * len(P)         # the only policy a trained model may select
    data, ever = [{} for _ in P], [False] * len(P)
    base = case["out"] or ".apollo"
    smap = {}
    nontriv = len(P) > 1
    with env.scratch() as cwd:
        for ri, rd in enumerate(case["runs"]):
            s = Script()
            if case["out"]:
                s.env(APOLLO_OUTPUT_DIR=case["out"])
            s.env(APOLLO_PERSISTENT_DATASETS=int(case["persist"]))
            s.add("args", "app", *[o % case["F"] if "%" in o else o for o in case["opts"]])
            s.add("init")
            if rd["fence"]:
                s.add("fencecb")
            st = s.add("settings")
            for j, v in enumerate(I):
                s.add("din", 100 + j, esc(v["name"]), v["ty"], "unbounded")
            for j, v in enumerate(O):
                s.add("dout", 200 + j, esc(v["name"]), v["ty"], "set", len(v["v"]), *[lit(v["ty"], x) for x in v["v"]])
            mono, lines = 0, []
            ops = rd["ops"] + ([] if rd["left"] else [["end", u, q] for u, q in rd["open"]])
            for op in ops:
                if op[0] == "req":
                    p = P[op[2]]
                    a, o = [], []
                    for j, x in zip(p["in"], p["pool"][op[3]]):
                        a += [100 + j, lit(I[j]["ty"], x)]
                    for j in p["out"]:
                        o += [200 + j, lit(O[j]["ty"], DEF[O[j]["ty"]])]
                    lines.append(s.add("req", op[1], len(p["in"]), *(a + [len(p["out"])] + o)))
                    s.add("clk", op[4], 0, 0)
                elif op[0] == "end":
                    lines.append(s.add("endctx", op[1]))
                else:
                    lines.append(s.add("kernel", op[1], op[2]))
            s.add("fini")
            res = env.go(s, cwd, "kokkos")
            if not obs.conform(res, "run %d" % ri):
                return
            if res.out.get(st) != "set 0":
                raise Mismatch("the tool requests global fencing")
            if not case["persist"]:
                data = [{} for _ in P]
            exists, trained, nsel = [False] * len(P), [False] * len(P), [0] * len(P)
            start, ended = {}, 0
            for op, ln in zip(ops, lines):
                r = res.out.get(ln, "")
                if op[0] == "req":
                    q, p = op[2], P[op[2]]
                    f = tuple(p["pool"][op[3]])
                    if not exists[q]:
                        exists[q], trained[q], ever[q] = True, stored[q], True
                    t = r.split()
                    if not t or t[0] != "v" or len(t) != 1 + len(p["out"]) or "BADIN" in t:
                        raise Mismatch("run %d: request answered with %r" % (ri, r))
                    v = tuple(dec(x) for x in t[1:])
                    for j, x in zip(p["out"], v):
                        if x not in O[j]["v"]:
                            raise Mismatch("run %d: %r is not a candidate" % (ri, x))
                    if not trained[q]:
                        pol = nsel[q] % p["n"]
                        nsel[q] += 1
                        if combo[q].setdefault(pol, v) != v:
                            raise Mismatch("run %d: request %d of an untrained problem got %r, in an earlier cycle policy %d was %r" % (ri, nsel[q], v, pol, combo[q][pol]))
                    else:
                        k = [c for c, w in combo[q].items() if w == v]
                        if not k:
                            raise Mismatch("run %d: trained problem selects %r, which was never measured" % (ri, v))
                        pol = k[0]
                        if tsel[q].setdefault(f, v) != v:
                            raise Mismatch("run %d: trained problem selects %r for %r, before it selected %r" % (ri, v, f, tsel[q][f]))
                        if must[q] is not None and pol != must[q]:
                            raise Mismatch("run %d: trained problem selects policy %d for %r, the best policy for everything measured is %d" % (ri, pol, f, must[q]))
                        obs.count("trained_selections")
                        nontriv = True
                        if stored[q] and ri:
                            obs.count("reused_model_selections")
                    if len(set(combo[q].values())) != len(combo[q]):
                        raise Mismatch("run %d: two policies of a problem have the same values %r" % (ri, v))
                    start[op[1]] = (q, f, pol, mono)
                    nontriv |= len(start) > 1
                    # costs the run advances the clock by
                    mono += op[4]
                elif op[0] == "end":
                    if r != "ok":
                        raise Mismatch("run %d: end of context %d answered %r" % (ri, op[1], r))
                    if op[2] is None:
                        obs.count("unknown_contexts")
                        continue
                    q, f, pol, t0 = start.pop(op[1])
                    if case["persist"] or not trained[q]:
                        gen.ema(data[q], (f, pol), (mono - t0) / 1e9)
                    obs.count("measurements")
                    ended += 1
                    if ended % case["F"] == 0:
                        for x in range(len(P)):
                            if exists[x] and not trained[x] and data[x]:
                                trained[x] = stored[x] = True
                                b = gen.argmins(data[x])
                                u = set(map(tuple, [sorted(z) for z in b.values()]))
                                must[x] = list(u)[0][0] if len(u) == 1 and len(list(u)[0]) == 1 else None
                                tsel[x] = {}
                                obs.count("trainings")
                else:
                    want = 1 if rd["fence"] and any(exists[x] and not trained[x] for x in range(len(P))) else 0
                    m = re.match(r"f (\d+)((?: \d+)*) \| (\d+)((?: \d+)*)$", r)
                    if not m or (int(m.group(1)), int(m.group(3))) != (want, want):
                        raise Mismatch("run %d: kernel requested fences %r, expected %d before and after (untrained problems: %r)" % (
                            ri, r, want, [x for x in range(len(P)) if exists[x] and not trained[x]]))
                    if want and (m.group(2) != " %d" % op[2] or m.group(4) != " %d" % op[2]):
                        raise Mismatch("run %d: fence of the wrong device: %r for %d" % (ri, r, op[2]))
                    obs.count("fenced_kernels" if want else "unfenced_kernels")
            nm = len(glob.glob(os.path.join(cwd, base, "models", "*latest*")))
            if nm != sum(stored):
                raise Mismatch("run %d: %d models on disk, %d problems have been trained" % (ri, nm, sum(stored)))
            if case["persist"]:
                files = [parse_ds(f) for f in sorted(glob.glob(os.path.join(cwd, base, "datasets", "*")))]
                known = [q for q in range(len(P)) if ever[q]]
                if len(files) != len(known):
                    raise Mismatch("run %d: %d datasets on disk, %d variable sets were used" % (ri, len(files), len(known)))
                for q in sorted(known, key=lambda q: len(data[q])):
                    ty = [I[j]["ty"] for j in P[q]["in"]]
                    for i, d in enumerate(files):
                        if d is not None and same(d, data[q], ty, smap):
                            files[i] = None
                            break
                    else:
                        raise Mismatch("run %d: no dataset holds exactly the %d measurements of problem %d: %r; datasets on disk: %r" % (
                            ri, len(data[q]), q, list(data[q].items())[:4], [d[:4] for d in files if d is not None]))
                    obs.count("datasets_compared")
    if nontriv:
        obs.sig = sig([[op[:4] for op in r["ops"]] for r in case["runs"]])
        obs.note = "%d variable sets, %d runs" % (len(P), len(case["runs"]))
