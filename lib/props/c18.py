import os
from vf import Script, Mismatch, esc, sig
import gen
from props import c12
PROP = "C18"
VARIANTS = ["asan", "mpi"]
RULE = ("model strings with all models and parameter subsets in random order, given to the region and/or the environment, for 1-12 policies; "
        "the model actually used is identified by behaviour (selection sequences, depth and size of the trained and stored trees, network "
        "update against the reference of C12); all combinations of the training and modelling modes (default and MPI build, alone and among random other settings), the output directories and the files found in them, unknown models, "
        "parameters and explorers, missing files, bad values: region creation must fail; "
        "non-trivial: a string with parameters or a rejected setting")
ASSUME = ["a number followed by other characters is not judged", "parameter values outside their documented domain other than the listed ones are not judged"]


def good(rng, np_):
    m = rng.choice(["Static", "Static", "RoundRobin", "Random", "DecisionTree", "DecisionTree", "RandomForest", "RandomForest", "StaticRegion"])
    p = {}
    if m == "Static" and rng.random() < .8:
        p["policy"] = rng.choice([0, 1, np_ - 1, np_, np_ + 3, rng.randrange(np_), 1000000])
    if m in ("DecisionTree", "RandomForest"):
        if rng.random() < .7:
            p["max_depth"] = rng.choice([0, 1, 2, 3, 4, 6])
        if rng.random() < .6:
            p["explore"] = rng.choice(["RoundRobin", "Random"])
        if m == "RandomForest" and rng.random() < .7:
            p["num_trees"] = rng.choice([1, 2, 5, 13, 13, 100 if rng.random() < .8 else 300])
    if m == "StaticRegion":
        for k in range(rng.choice([1, 2, 4])):
            p["reg%d" % k] = rng.choice([0, np_ - 1, rng.randrange(np_), np_ + 1])
        p.setdefault("reg0", rng.randrange(np_))
    o = list(p)
    rng.shuffle(o)
    return {"m": m, "p": p, "o": o}


def text(g):
    return ",".join([g["m"]] + ["%s=%s" % (k, g["p"][k]) for k in g["o"]])


BAD = ["NoSuchModel", "static,policy=1", "DecisionTree2", "Static;policy=1", "Static,policies=1", "Static,Policy=1", "Static,policy=-1", "Static,policy=-7",
       "DecisionTree,depth=3", "DecisionTree,num_trees=3", "DecisionTree,policy=1", "DecisionTree,max_depth=3,foo=1", "DecisionTree,foo,max_depth=3",
       "DecisionTree,lr=0.1", "RandomForest,trees=3", "RandomForest,max_depth=2,num_tree=5", "RandomForest,policy=0", "RandomForest,beta=1",
       "PolicyNet,max_depth=2", "PolicyNet,alpha=0.1", "PolicyNet,lr=0.1,explore=Random", "PolicyNet,policy=1", "RoundRobin,policy=1", "Random,seed=4",
       "RoundRobin,start=2", "DecisionTree,explore=Foo", "RandomForest,explore=roundrobin", "RandomForest,explore=", "DecisionTree,max_depth=abc",
       "RandomForest,num_trees=x", "Static,policy=x", "PolicyNet,lr=fast", "DecisionTree,load=nofile.yaml", "RandomForest,load=nofile.yaml",
       "PolicyNet,load=nofile", "DecisionTree,load", "RandomForest,load,num_trees=3", "PolicyNet,load", "DecisionTree,load-dataset",
       "RandomForest,max_depth=3,load-dataset", "PolicyNet,load-dataset", "DatasetMap", "Optimal", "StaticRegion,other=1", "StaticRegion,reg=1,rex=2",
       "StaticRegion", "StaticRegion,reg0=-1", "StaticRegion,default=1", "StaticRegion,reg00=1", "StaticRegion,Reg0=1", "StaticRegion,policy=1",
       "StaticRegion,reg1=1,reg2=0", "StaticRegion,*=1", "StaticRegion,all=1", "DatasetMap,policy=1", "Optimal,x=1", "DecisionTree,", "Static,"]


KEYS = {"Static": ["policy"], "DecisionTree": ["max_depth", "explore", "load", "load-dataset"],
        "RandomForest": ["num_trees", "max_depth", "explore", "load", "load-dataset"],
        "PolicyNet": ["lr", "beta", "beta1", "beta2", "threshold", "load", "load-dataset"], "RoundRobin": [], "Random": []}
WORDS = ["gamma", "epsilon", "eps", "seed", "num_threads", "min_samples", "max_leaf", "trees", "depth", "learning_rate", "beta0", "beta3", "decay",
         "batch", "momentum", "hidden", "layers", "thresh", "explorer", "exploration", "load_model", "load-model", "load-data", "loadd", "store",
         "model", "path", "file", "num_tree", "ntrees", "max-depth", "MAX_DEPTH", "Explore", "rank", "train", "policies", "pol", "lr2", "l", "p", "", "x",
         "min_training_data", "period", "window", "alpha", "dataset", "name", "reg0"]
VALS = {"policy": "1", "max_depth": "3", "explore": "Random", "num_trees": "4", "lr": "0.1", "beta": "0.5", "beta1": "0.5", "beta2": "0.9",
        "threshold": "0.0"}


def pairs():
    return [(m, w) for m in KEYS for w in sorted(set(WORDS + [x for y in KEYS.values() for x in y if not x.startswith("load")])) if w not in KEYS[m]]


def unknown(rng, m, k):
    ps = ["%s=%s" % (x, VALS[x]) for x in KEYS[m] if x in VALS and rng.random() < .4]
    ps.append(rng.choice([k, k + "=1", k + "=1"]))
    rng.shuffle(ps)
    return ",".join([m] + ps)


OTHERS = {"GLOBAL_TRAIN_PERIOD": [0, 0, 1, 3, 100], "PER_REGION_TRAIN_PERIOD": [0, 0, 1, 3], "TRACE_POLICY": [0, 1], "STORE_MODELS": [0, 1],
          "TRACE_RETRAIN": [0, 1], "TRACE_ALLGATHER": [0, 1], "TRACE_BEST_POLICIES": [0, 1],
          "RETRAIN_TIME_THRESHOLD": ["2.0", "0.5", "100"], "RETRAIN_REGION_THRESHOLD": ["0.5", "0", "1"], "TRACE_CSV": [0, 1],
          "PERSISTENT_DATASETS": [0, 1], "STORE_EXEC_INFO": [0, 1], "POLICY_MODEL": ["Static", "RandomForest"]}


def others(rng):
    """Settings that say nothing about the modes of training and modelling."""
    return {k: rng.choice(OTHERS[k]) for k in rng.sample(sorted(OTHERS), rng.randint(1, 7))}


def cases(rng, tier):
    q = tier == "quick"
    for m, k in pairs() * (1 if q else 10):
        yield {"t": "bad", "s": unknown(rng, m, k), "via": rng.choice(["arg", "env", "both"]), "np": rng.choice([2, 5]), "c": rng.random() < .3}
    for i in range(700 if q else 12000):
        np_ = rng.choice([2, 3, 4, 7, 12])
        yield {"t": "good", "np": np_, "arg": good(rng, np_) if rng.random() < .7 else None, "env": good(rng, np_) if rng.random() < .7 else None,
               "c": rng.random() < .2, "ent": rng.getrandbits(40), "nreg": rng.choice([1, 1, 2])}
    for i in range(60 if q else 600):
        for c in c12.cases(rng, "quick"):
            c["how"], c["draws"] = "region", rng.choice([0, 0, 60])
            c["steps"] = c["steps"][:2]
            c["order"] = rng.sample(range(5), 5)
            c["via"] = rng.choice(["env", "arg"])
            yield {"t": "net", "c": c}
            break
    for i in range(120 if q else 1500):
        m = rng.choice(["DecisionTree", "RandomForest", "PolicyNet"])
        src = rng.choice(["load", "load=sub/m.file", "load-dataset"] if m != "PolicyNet" else ["load", "load=sub/m.file"])
        ps = [src]
        d, nt = rng.choice([None, 1, 3, 4]), None
        if m == "PolicyNet":
            ps += rng.sample(["lr=0.1", "beta=0.9", "threshold=0.5"], rng.randint(0, 3))
        else:
            if d is not None:
                ps.append("max_depth=%d" % d)
            if rng.random() < .5:
                ps.append("explore=Random")
            if m == "RandomForest" and rng.random() < .7:
                nt = rng.choice([1, 4, 12])
                ps.append("num_trees=%d" % nt)
        unk = rng.random() < .35
        if unk:
            ps.append(rng.choice(["foo", "foo=1", "policy=1", "Load", "depth=3", "load_dataset"]))
        rng.shuffle(ps)
        yield {"t": "load", "m": m, "s": ",".join([m] + ps), "src": src, "d": d, "nt": nt, "unk": unk, "env": rng.random() < .5,
               "ent": rng.getrandbits(40), "exp": "explore=Random" in ps}
    for b in BAD:
        for via in (["arg", "env", "both"] if not q else [rng.choice(["arg", "env"]), "both"]):
            yield {"t": "bad", "s": b, "via": via, "np": rng.choice([2, 5]), "c": rng.random() < .3}
    for variant in ("asan", "mpi"):
        for c in (None, 0, 1):
            for l in (None, 0, 1):
                for s_, r in ((None, None), (0, 1), (1, 0), (0, 0), (1, 1), (1, None), (None, 0)):
                    if variant == "mpi" and q and (s_, r) != (None, None) and (c, l) not in ((1, 0), (1, 1)):
                        continue
                    yield {"t": "mode", "v": variant, "c": c, "l": l, "s": s_, "r": r, "e": {}}
                    if variant == "asan" or not q:
                        for i in range(2 if q else 12):
                            yield {"t": "mode", "v": variant, "c": c, "l": l, "s": s_, "r": r, "e": others(rng)}
    for i in range(120 if q else 1200):
        e = {k: v for k, v in others(rng).items() if not k.startswith("TRACE_") and not k.startswith("RETRAIN_")}
        for k in ("STORE_MODELS", "TRACE_CSV", "PERSISTENT_DATASETS"):
            e[k] = rng.choice([0, 1])
        d = {}
        for k in ("OUTPUT", "DATASETS", "TRACES", "MODELS"):
            if rng.random() < .6:
                d[k] = "%s%d" % (rng.choice(["d", "my out", ".hid", "a.b", "x-y_z", "D" * 60]), rng.randrange(100)) + k[0]
        yield {"t": "dirs", "e": e, "d": d, "m": rng.choice(["DecisionTree", "RandomForest,num_trees=3", "PolicyNet", "Static", "RoundRobin"]),
               "nreg": rng.choice([1, 2]), "train": rng.choice([0, 1, 3]), "single": rng.random() < .3}


def hard_data():
    """Alternating best policies over 64 values: any depth limit up to 5 is binding."""
    return [(float(x), 1 if x % 2 else 0) for x in range(64)]


def is_cycle(seq, n):
    return seq == [i % n for i in range(len(seq))]


def judge_seq(kind, seq, np_, what):
    if kind == "RoundRobin":
        if not is_cycle(seq, np_):
            raise Mismatch("%s: RoundRobin selection expected, observed %r" % (what, seq[:20]))
    else:
        if min(seq) < 0 or max(seq) >= np_:
            raise Mismatch("%s: selections %r outside the policies" % (what, sorted(set(seq))))
        # 100 uniform draws: each of these has probability < 1e-13
        if len(seq) >= 100 and (is_cycle(seq, np_) or max(seq.count(k) for k in range(np_)) > 90):
            raise Mismatch("%s: Random selection expected, observed %r" % (what, seq[:20]))


def run_good(case, env, obs):
    np_ = case["np"]
    used = case["arg"] or case["env"] or {"m": "Static", "p": {}, "o": []}
    if used["m"] == "StaticRegion":
        if any("reg%d" % k not in used["p"] for k in range(case["nreg"])):
            case = dict(case, nreg=1)
    s = Script()
    s.add("entropy", case["ent"])
    if case["env"]:
        s.env(APOLLO_POLICY_MODEL=text(case["env"]))
    sel, tr, dep = [], [], []
    n = 100
    for k in range(case["nreg"]):
        h = "r%d" % k
        if case["c"]:
            s.add("cregion", h, 1, np_, 0, "reg%d" % k, esc(text(case["arg"])) if case["arg"] else "-")
        else:
            s.region(h, 1, np_, "reg%d" % k, info=text(case["arg"]) if case["arg"] else "")
        a = [s.x(h, 1.0, [5.0]) for _ in range(n)]
        t1 = s.add("tr", h)
        s.add("rclr", h)
        for x, b in hard_data():
            s.add("rins", h, b, 1.0, x)
        s.add("train", 0)
        t2 = s.add("tr", h)
        p2 = [s.x(h, 1.0, [7.0]) for _ in range(20)]
        if used["m"] in ("DecisionTree", "RandomForest"):
            s.add("mstore", h, "m%d" % k)
        sel.append((a, t1, t2, p2))
    with env.scratch() as cwd:
        res = env.go(s, cwd)
        if not obs.conform(res, text(used)):
            return
        for k, (a, t1, t2, p2) in enumerate(sel):
            what = "region %d of %r (argument %r, environment %r)" % (
                k, text(used), case["arg"] and text(case["arg"]), case["env"] and text(case["env"]))
            A, B = [res.p(l) for l in a], [res.p(l) for l in p2]
            m, p = used["m"], used["p"]
            if m in ("Static", "StaticRegion"):
                want = p.get("policy", 0) if m == "Static" else p["reg%d" % k]
                want = want if want < np_ else 0
                if set(A + B) != {want}:
                    raise Mismatch("%s: policy %d expected, selected %r" % (what, want, sorted(set(A + B))))
                if res.t(t1):
                    raise Mismatch("%s: model is trainable" % what)
                obs.count("static")
            elif m in ("RoundRobin", "Random"):
                judge_seq(m, A + B, np_, what)
                if res.t(t1) or res.t(t2):
                    raise Mismatch("%s: model is trainable" % what)
                obs.count("exploring")
            else:
                judge_seq(p.get("explore", "RoundRobin"), A, np_, what)
                if not res.t(t1) or res.t(t2):
                    raise Mismatch("%s: trainable before/after training: %s/%s" % (what, res.t(t1), res.t(t2)))
                if len(set(B)) != 1:
                    raise Mismatch("%s: trained model explores" % what)
                f = os.path.join(cwd, "m%d" % k)
                d = p.get("max_depth", 2)
                if m == "DecisionTree":
                    trees = [gen.parse_tree_file(f)]
                else:
                    trees = gen.parse_forest_file(f)["trees"]
                    if len(trees) != p.get("num_trees", 10):
                        raise Mismatch("%s: forest has %d trees" % (what, len(trees)))
                dep = [gen.tree_depth(t["root"]) for t in trees]
                if m == "DecisionTree" and dep[0] != d and d < 6:
                    raise Mismatch("%s: tree of depth %d on data that needs more than %d" % (what, dep[0], d))
                if max(dep) > d or (d < 4 and max(dep) < d):
                    raise Mismatch("%s: trees have depths %r" % (what, dep))
                obs.count("trees_and_forests")
    if used["p"] or case["arg"]:
        obs.sig = sig(text(used), case["arg"] is None, case["env"] is None, np_)
        obs.note = "argument %r, environment %r" % (case["arg"] and text(case["arg"]), case["env"] and text(case["env"]))


def run_load(case, env, obs):
    m, what = case["m"], "model string %r" % case["s"]
    Q = [[float(x)] for x in range(64)]
    with env.scratch() as cwd:
        os.mkdir(os.path.join(cwd, "sub"))
        # the run that leaves a model (latest and copy) and a dataset
        s = Script()
        s.env(APOLLO_STORE_MODELS=1, APOLLO_PERSISTENT_DATASETS=1)
        s.add("entropy", case["ent"])
        s.region("r", 1, 2, "reg0", info=m + (",max_depth=5" if m != "PolicyNet" else ""))
        for x, b in hard_data():
            s.add("rins", "r", b, 1.0, x)
        s.add("train", 0)
        s.add("mstore", "r", "sub/m.file")
        l0 = s.query("r", Q)
        r0 = env.go(s, cwd)
        if not obs.conform(r0, "preparing run"):
            return
        s = Script()
        s.add("entropy", case["ent"])
        if case["env"]:
            s.env(APOLLO_POLICY_MODEL=case["s"])
        lr = s.region("r", 1, 2, "reg0", info="" if case["env"] else case["s"])
        t1, d1 = s.add("tr", "r"), s.add("dump", "r")
        l1 = s.query("r", Q)
        s.add("mstore", "r", "again")
        res = env.go(s, cwd)
        obs.events += res.events + 1
        if case["unk"]:
            if res.out.get(lr) == "ok":
                raise Mismatch("%s with an unknown parameter is accepted" % what)
            if res.sanitizer:
                raise Mismatch("%s: %s" % (what, res.problem()))
            obs.count("rejected_strings")
            obs.sig = sig(case["s"])
            return
        if not obs.conform(res, what):
            return
        f = os.path.join(cwd, "again")
        if case["src"] == "load-dataset":
            want = {((x,), b): 1.0 for x, b in hard_data()}
            if res.ds(d1) != want:
                raise Mismatch("%s: the region starts with %d measurements of the %d stored" % (what, len(res.ds(d1)), len(want)))
            if res.t(t1):
                raise Mismatch("%s: the model is not trained on the stored dataset" % what)
            trees = [gen.parse_tree_file(f)] if m == "DecisionTree" else gen.parse_forest_file(f)["trees"]
            if m == "RandomForest" and len(trees) != (case["nt"] or 10):
                raise Mismatch("%s: forest has %d trees" % (what, len(trees)))
            d = 2 if case["d"] is None else case["d"]
            if max(gen.tree_depth(t["root"]) for t in trees) != d:
                raise Mismatch("%s: trees have depths %r" % (what, [gen.tree_depth(t["root"]) for t in trees]))
        elif m == "PolicyNet":
            if gen.read_file(f, True) != gen.read_file(os.path.join(cwd, "sub/m.file"), True):
                raise Mismatch("%s: the region does not use the stored network" % what)
        else:
            if res.t(t1):
                raise Mismatch("%s: the loaded model is trainable" % what)
            if res.ints(l1) != r0.ints(l0):
                raise Mismatch("%s: the region does not use the stored model" % what)
        obs.count("loading_strings")
        obs.sig = sig(case["s"])
        obs.note = case["s"]


def run_bad(case, env, obs):
    s = Script()
    info = ""
    if case["via"] == "env":
        s.env(APOLLO_POLICY_MODEL=case["s"])
    else:
        info = case["s"]
        if case["via"] == "both":
            s.env(APOLLO_POLICY_MODEL="RoundRobin")
    if case["c"]:
        l = s.add("cregion", "r", 1, case["np"], 0, "reg0", esc(info))
    else:
        l = s.region("r", 1, case["np"], "reg0", info=info)
    with env.scratch() as cwd:
        res = env.go(s, cwd)
    obs.events += res.events + 1
    if res.out.get(l) == "ok":
        raise Mismatch("model string %r (%s) is accepted" % (case["s"], case["via"]))
    if res.sanitizer:
        raise Mismatch("model string %r: %s" % (case["s"], res.problem()))
    if not res.out.get(l, "").startswith("exc ") and res.rc in (0, 98, 97):
        raise Mismatch("model string %r: no error, rc %r" % (case["s"], res.rc))
    obs.count("rejected_strings")
    obs.sig = sig(case["s"], case["via"])


def run_mode(case, env, obs):
    s = Script()
    if case["v"] == "asan":
        s.add("unenv", "APOLLO_COLLECTIVE_TRAINING")
    for k, v in (("COLLECTIVE_TRAINING", case["c"]), ("LOCAL_TRAINING", case["l"]), ("SINGLE_MODEL", case["s"]), ("REGION_MODEL", case["r"])):
        if v is not None:
            s.add("env", "APOLLO_" + k, v)
    # per-region training needs per-region models
    s.env(**{"APOLLO_" + k: v for k, v in case["e"].items() if not (case["s"] and k == "PER_REGION_TRAIN_PERIOD")})
    l = s.region("r", 1, 2, "reg0", info="DecisionTree")
    s.x("r", 1.0, [1.0])
    s.add("train", 0)
    c, lo = case["c"] or 0, 1 if case["l"] is None else case["l"]
    sm, rm = case["s"] or 0, 1 if case["r"] is None else case["r"]
    ok = (c != lo) and (sm != rm) and not (c and case["v"] == "asan")
    with env.scratch() as cwd:
        res = env.go(s, cwd) if case["v"] == "asan" else env.mpi([s], cwd)[0]
    obs.events += res.events + 1
    what = "collective=%r local=%r single=%r region=%r (%s build; %r)" % (case["c"], case["l"], case["s"], case["r"], case["v"], case["e"])
    if ok:
        if not obs.conform(res, what):
            return
        obs.count("modes_accepted")
    else:
        if res.out.get(l) == "ok" or (res.rc == 0 and not res.out.get(l, "").startswith("exc ")):
            raise Mismatch("%s: accepted" % what)
        if res.sanitizer:
            raise Mismatch("%s: %s" % (what, res.problem()))
        obs.count("modes_rejected")
        obs.sig = sig(what)


def run_dirs(case, env, obs):
    e, d = case["e"], case["d"]
    s = Script()
    s.env(**{"APOLLO_" + k: v for k, v in e.items() if not (case["single"] and k == "PER_REGION_TRAIN_PERIOD")})
    s.env(**{"APOLLO_%s_DIR" % k: v for k, v in d.items()})
    if case["single"]:
        s.env(APOLLO_SINGLE_MODEL=1, APOLLO_REGION_MODEL=0)
    for k in range(case["nreg"]):
        s.region("r%d" % k, 1, 2, "reg%d" % k, info=case["m"])
    for i in range(case["train"] + 1):
        for k in range(case["nreg"]):
            for x in range(4):
                s.x("r%d" % k, 1.0 + x % 2, [float(x)])
        if i < case["train"]:
            s.add("train", i)
    what = "settings %r, directories %r, model %s, %d explicit trainings" % (e, d, case["m"], case["train"])
    with env.scratch() as cwd:
        pre = set(os.listdir(cwd))
        res = env.go(s, cwd)
        if not obs.conform(res, what):
            return
        out = d.get("OUTPUT", ".apollo")
        extra = [f for f in os.listdir(cwd) if f not in pre and f != out]
        if extra:
            raise Mismatch("%s: %r written outside the output directory" % (what, sorted(extra)))
        sub = {k: d.get(k, k.lower()) for k in ("DATASETS", "TRACES", "MODELS")}
        root = os.path.join(cwd, out)
        if not os.path.isdir(root):
            raise Mismatch("%s: no output directory %r" % (what, out))
        info = ["apollo_exec_info.csv"] if e.get("STORE_EXEC_INFO") else []
        extra = [f for f in os.listdir(root) if f not in list(sub.values()) + info]
        if extra:
            raise Mismatch("%s: %r in the output directory" % (what, extra))

        def files(k):
            p = os.path.join(root, sub[k])
            return sorted(os.listdir(p)) if os.path.isdir(p) else []

        if bool(files("DATASETS")) != bool(e["PERSISTENT_DATASETS"]):
            raise Mismatch("%s: dataset files %r" % (what, files("DATASETS")))
        if bool(files("TRACES")) != bool(e["TRACE_CSV"]):
            raise Mismatch("%s: trace files %r" % (what, files("TRACES")))
        if not e["STORE_MODELS"] and files("MODELS"):
            raise Mismatch("%s: model files %r" % (what, files("MODELS")))
        if e["STORE_MODELS"] and case["train"] and not case["single"] and case["m"] not in ("Static", "RoundRobin") and not files("MODELS"):
            raise Mismatch("%s: no model files" % what)
        obs.count("output_directories")
        obs.sig = sig(sorted(d.items()), sorted(e.items()))


def run(case, env, obs):
    if case["t"] == "net":
        return c12.run(case["c"], env, obs)
    {"good": run_good, "load": run_load, "bad": run_bad, "mode": run_mode, "dirs": run_dirs}[case["t"]](case, env, obs)
