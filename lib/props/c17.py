import os, re
from vf import Script, Mismatch, f32, sig
import gen
PROP = "C17"
VARIANTS = ["asan"]
LEVEL = "fault_enumeration"
RULE = ("files written by the library itself (datasets, trees, forests, networks of random shapes and data); every truncation point of each "
        "(up to a limit per file, sampled beyond) and structural damage of random tokens (deleted, doubled, misspelt, replaced by garbage or by "
        "indices out of range, feature lists of the wrong length, non-existing policies; consistent files of another region with a further class or another number of features); each damaged file loaded in a forked child through "
        "one of the loading paths: it must end in an error before a selection, without sanitizer report or hang; the undamaged file must "
        "load; after a failed load that raised an exception the model must behave and store as before; "
        "non-trivial: every distinct (file content, damage) that was rejected")
ASSUME = ["a file that only lacks its final newline, or that has bytes after its end, is not considered damaged",
          "a number replaced by another valid number within range is not detectable damage"]


def tree_data(rng, nf, np_):
    V = gen.vectors(rng, nf, rng.choice([1, 3, 6, 12]))
    return [[list(v), p, gen.metric(rng)] for v in V for p in rng.sample(range(np_), rng.randint(1, np_))]


def cases(rng, tier):
    q = tier == "quick"
    for i in range(300 if q else 4000):
        k = ["dataset", "tree", "forest", "net"][i % 4]
        nf = rng.choice([1, 1, 2, 3]) if k == "net" else rng.choice([0, 1, 1, 2, 4])
        np_ = rng.choice([2, 2, 3, 5])
        yield {"k": k, "nf": nf, "np": np_, "data": tree_data(rng, nf, np_), "depth": rng.choice([1, 2, 5]), "trees": rng.choice([1, 2, 4]),
               "path": rng.randrange(6), "mode": rng.choice(["cut", "cut", "damage", "damage", "damage"]), "limit": 400 if q else 1500,
               "rs": rng.getrandbits(32), "ent": rng.getrandbits(30)}
    for i in range(200 if q else 2000):
        k = rng.choice(["tree", "forest", "net", "forest"])
        nf, np_ = (rng.choice([1, 2]), rng.choice([2, 3, 4])) if k == "net" else (rng.choice([1, 2]), rng.choice([2, 3, 4]))
        yield {"k": k, "nf": nf, "np": np_, "data": tree_data(rng, nf, np_), "depth": rng.choice([1, 5]), "trees": rng.choice([1, 3]),
               "mode": "keep", "how": rng.choice(["missing", "dir", "mismatch", "mismatch", "short"]), "trained": rng.random() < .6,
               "q": gen.neighbours(rng, gen.vectors(rng, nf, 4), 6) if k != "net" else [[float(rng.randint(1, 50)) for _ in range(nf)] for _ in range(6)],
               "rs": rng.getrandbits(32), "ent": rng.getrandbits(30)}


MODEL = {"tree": "DecisionTree", "forest": "RandomForest", "net": "PolicyNet"}


def params(case):
    return {"tree": ["max_depth=%d" % case["depth"]], "forest": ["num_trees=%d" % case["trees"], "max_depth=%d" % case["depth"]],
            "net": []}[case["k"]]


def make(s, case, f):
    """Script lines that write the file."""
    s.add("dnew", "D")
    for v, p, m in case["data"]:
        if case["k"] == "net":
            v = [abs(float(int(x) % 1000)) + 1 if abs(x) < 1e9 else 5.0 for x in v]
        s.add("dins", "D", p, m, *v)
    if case["k"] == "dataset":
        s.add("dstore", "D", f)
        return
    s.add("mk", "m0", MODEL[case["k"]], case["nf"], case["np"], *params(case))
    s.add("mtrain", "m0", "D")
    s.add("mst", "m0", f)


def load_lines(case, f, path):
    """(script lines that load f and then select, number of the line whose answer tells the load succeeded)"""
    b = Script()
    nf, np_ = case["nf"], case["np"]
    v = case["data"][0][0] if case["k"] != "net" else [3.0] * nf
    if case["k"] == "dataset":
        path %= 4
        if path == 0:
            b.add("dnew", "E")
            ok = b.add("dload", "E", f)
            # entries are checked against the region by the region, not here
            return b.lines + ["ddump E"], ok, path
        b.env(APOLLO_OUTPUT_DIR=".", APOLLO_DATASETS_DIR=os.path.dirname(f), APOLLO_PERSISTENT_DATASETS=int(path == 1))
        name = os.path.basename(f)[len("Dataset-"):-len(".yaml")]
        ok = b.region("r", nf, np_, name, info={1: "DecisionTree", 2: "DecisionTree,max_depth=9,load-dataset", 3: "DatasetMap"}[path])
        b.x("r", 1.0, v)
        return b.lines, ok, path
    m = MODEL[case["k"]]
    path %= 4
    if path == 0:
        b.add("mk", "m", m, nf, np_, *params(case))
        ok = b.add("mld", "m", f)
        b.query("m", [v], "mq")
    elif path == 1:
        ok = b.region("r", nf, np_, "reg", info=m + ",load=" + f)
        b.x("r", 1.0, v)
    elif path == 2:
        ok = b.region("r", nf, np_, "reg", info=m, yaml=f)
        b.x("r", 1.0, v)
    else:
        if case["k"] == "net":
            b.add("mk", "m", m, nf, np_)
            ok = b.add("mld", "m", f)
        else:
            ok = b.add("mkp", "m", m, np_, f)
        b.query("m", [v], "mq")
    return b.lines, ok, path


def damages(case, raw, rng):
    """[(description, bytes)]"""
    out = []
    if case["mode"] == "cut":
        end = len(raw) if case["k"] == "net" else len(raw.rstrip())
        pts = list(range(end))
        if len(pts) > case["limit"]:
            keep = set(rng.sample(pts, case["limit"] - 40)) | set(pts[:20]) | set(pts[-20:])
            pts = sorted(keep)
        return [("truncated to %d of %d bytes" % (n, len(raw)), raw[:n]) for n in pts]
    if case["k"] == "net":
        for _ in range(20):
            n = rng.choice([1, 4, 7, 8, 12, 16, 64, 8 * 70])
            o = rng.randrange(len(raw))
            out.append(("%d bytes removed at %d" % (n, o), raw[:o] + raw[o + n:]))
            out.append(("%d bytes added at %d" % (n, o), raw[:o] + bytes(n) + raw[o:]))
        return [(d, b) for d, b in out if len(b) != len(raw)]
    txt = raw.decode()
    toks = [(m.start(), m.end(), m.group()) for m in re.finditer(r"[^\s]+", "\n".join(
        " " * len(l) if l.lstrip().startswith("#") else l for l in txt.split("\n")))]
    last = len(toks) - 1
    key = {}
    for i, (a, b, t) in enumerate(toks):
        prev = toks[i - 1][2] if i else ""
        nxt = toks[i + 1][2] if i < last else ""
        if re.fullmatch(r"[a-z_]+:", t):
            kind = "keyword"
        elif re.fullmatch(r"[{}\[\]]+,?", t):
            kind = "brace"
        elif re.fullmatch(r"\d+:", t) or (re.fullmatch(r"-?\d+:", t)):
            kind = "label"
        else:
            kind = "number"
        key[i] = (kind, prev, nxt)
    def put(i, new, why):
        a, b, t = toks[i]
        out.append(("token %d %r %s" % (i, t, why), (txt[:a] + new + txt[b:]).encode()))
    idx = list(range(len(toks)))
    rng.shuffle(idx)
    for i in idx[:case["limit"] // 4]:
        kind, prev, nxt = key[i]
        t = toks[i][2]
        c = rng.random()
        if kind == "keyword":
            if c < .3:
                put(i, "", "deleted")
            elif c < .6:
                put(i, rng.choice([t[:-1], t[1:], "x" + t, t.upper(), t + ":", t[:-1] + " :", "y" * 70, "{", "}"]), "misspelt")
            else:
                put(i, t + " " + t, "doubled")
        elif kind == "brace":
            if i == last:
                put(i, rng.choice(["", "{", "]", "},", ")"]), "replaced")
            elif c < .4:
                put(i, "", "deleted")
            elif c < .6:
                put(i, rng.choice([x for x in ["{", "}", "[", "]", "},", "],", "(", ";"] if x != t]), "replaced")
            else:
                put(i, t + " " + t, "doubled")
        elif kind == "number":
            body, comma = (t[:-1], ",") if t.endswith(",") else (t, "")
            if c < .5:
                bad = rng.choice(["abc", "", "--1", "one", "x" + body, "{", "_"])
                put(i, bad + comma, "replaced by garbage %r" % bad)
            elif c < .6:
                put(i, body + "x" + comma, "with garbage after the number")
            elif c < .7 and comma:
                put(i, body, "without its comma")
            elif c < .8:
                put(i, t + " " + t, "doubled") if not in_list(toks, i) else None
            elif prev == "feature_idx:":
                for bad in ("-2", str(case["nf"]), str(case["nf"] + 7), "2147483647", "99999999999"):
                    put(i, bad + comma, "out of range: " + bad)
            elif prev == "predicted_class:" or prev == "policy:":
                for bad in ("-1", str(case["np"]), "1000000", "99999999999"):
                    put(i, bad + comma, "out of range: " + bad)
        elif kind == "label" and c < .3:
            put(i, "", "deleted")
    # directed: indices out of range, feature lists of the wrong length, classes that do not exist
    for i, (a, b, t) in enumerate(toks):
        kind, prev, nxt = key[i]
        if prev == "policy:" or prev == "predicted_class:":
            if rng.random() < .2:
                put(i, rng.choice(["-1", "-3", str(case["np"]), str(case["np"] + 1), "70000"]) + ("," if t.endswith(",") else ""), "out of range")
        if prev == "feature_idx:" and rng.random() < .3:
            put(i, rng.choice(["-2", str(case["nf"]), "900000"]) + ",", "out of range")
        if prev == "feature_idx:" and rng.random() < .3:
            if t != "-1,":
                put(i, "-1,", "split marked as leaf")
            elif case["nf"]:
                put(i, "0,", "leaf marked as split")
        if kind == "label" and re.fullmatch(r"\d+,", nxt) and rng.random() < .1:  # an entry of count_per_class
            out.append(("class count %d deleted" % i, (txt[:a] + txt[toks[i + 1][1]:]).encode()))
        if case["k"] == "dataset" and t == "[" and rng.random() < .2:
            put(i, "[ 1.5,", "feature list with one more entry")
        if case["k"] == "dataset" and prev == "[" and kind == "number" and rng.random() < .2:
            put(i, "", "feature list with one entry less")
        if prev == "classes:" and rng.random() < .5 and not (case["k"] == "forest" and i < 12):
            put(i, "[ %d," % rng.choice([-1, case["np"], 100000]), "class out of range added")
    # consistent files that belong to another region: a class beyond the policies, another number of features
    if case["k"] in ("tree", "forest"):
        pre, sep, body = txt.partition("trees:") if case["k"] == "forest" else ("", "", txt)
        used = sorted(set(re.findall(r"predicted_class: (\d+),", body)))
        for c in used:
            for new in {str(case["np"]), str(case["np"] + rng.choice([1, 3, 1000])), "-1"}:
                b = re.sub(r"predicted_class: %s," % c, "predicted_class: %s," % new, body)
                b = re.sub(r"(?m)^(\s*)%s: (\d+),$" % c, r"\g<1>%s: \2," % new, b)
                b = re.sub(r"class: %s }" % c, "class: %s }" % new, b)
                b = re.sub(r"classes: \[[^\]]*\]", lambda m: re.sub(r"(?<![-\d])%s," % c, new + ",", m.group()), b)
                out.append(("class %s replaced by %s throughout" % (c, new), (pre + sep + b).encode()))
        for n in {case["nf"] + 1, case["nf"] + 2, case["nf"] + 1000, max(0, case["nf"] - 1)} - {case["nf"]}:
            out.append(("num_features %d" % n, re.sub(r"num_features: \d+,", "num_features: %d," % n, txt).encode()))
            out.append(("features %d" % n, re.sub(r"feature_idx: \d+,", "feature_idx: %d," % max(0, n - 1),
                                                  re.sub(r"num_features: \d+,", "num_features: %d," % n, txt)).encode()))
    return out


def in_list(toks, i):
    j = i
    while j >= 0 and toks[j][2] not in ("[", "],"):
        j -= 1
    return j >= 0 and toks[j][2] == "["


def lenient(case, path, d):
    """Damage the chosen loading path cannot or need not see."""
    if case["k"] == "dataset" and path == 0 and ("out of range" in d and "999999" not in d or "feature list" in d):
        return True
    return False


def run_damage(case, env, obs):
    import random
    rng = random.Random(case["rs"])
    with env.scratch() as cwd:
        s = Script()
        s.add("entropy", case["ent"])
        os.mkdir(os.path.join(cwd, "ds"))
        os.mkdir(os.path.join(cwd, "w"))
        make(s, case, "w/orig")
        if not obs.conform(env.go(s, cwd), "writing run"):
            return
        raw = gen.read_file(os.path.join(cwd, "w", "orig"), True)
        todo = [("undamaged", raw, True)] + [(d, b, False) for d, b in damages(case, raw, rng) if b != raw]
        s = Script()
        chk = []
        for n, (d, b, good) in enumerate(todo):
            f = "ds/Dataset-n%d.yaml" % n
            with open(os.path.join(cwd, f), "wb") as fh:
                fh.write(b)
            body, ok, path = load_lines(case, f, case["path"] if rng.random() < .7 else rng.randrange(8))
            fl = s.add("fork", len(body))
            okl = fl + ok
            for l in body:
                s.lines.append(l)
            chk.append((d, good, fl, okl, path, fl + len(body)))
        res = env.go(s, cwd, timeout=300)
        obs.events += res.events
        if not res.done:
            return obs.bad("driver ended: %s" % res.problem())
        sgs = []
        for d, good, fl, okl, path, last in chk:
            st, r = res.out.get(fl, ""), res.out.get(okl, "")
            if good:
                if st != "child exit 0" or not r.startswith("ok"):
                    return obs.bad("undamaged %s file is not accepted (path %d): %s %s" % (case["k"], path, st, r))
                obs.count("undamaged_loads")
                continue
            if lenient(case, path, d):
                continue
            if st == "child exit 77" or st in ("child signal 11", "child signal 8", "child signal 7", "child signal 4"):
                m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)", res.stderr)
                return obs.bad("%s file (%s), path %d: memory error or undefined behaviour: %s %s" % (case["k"], d, path, st, m.group(1) if m else ""))
            if st == "child signal 14":
                return obs.bad("%s file (%s), path %d: loading hangs" % (case["k"], d, path))
            sel = res.out.get(last, "")
            if (r.startswith("ok") if case["k"] == "dataset" else sel and not sel.startswith("exc")) or st == "child exit 0":
                return obs.bad("%s file (%s), path %d: accepted (%s)" % (case["k"], d, path, st))
            if not (st in ("child exit 42", "child signal 6") or st.startswith("child exit ")):
                return obs.bad("%s file (%s), path %d: ended by %s" % (case["k"], d, path, st))
            obs.count("rejected_" + case["k"])
            obs.count("rejected_cut" if case["mode"] == "cut" else "rejected_damage")
        obs.sig = sig(case["k"], case["mode"], raw)
        obs.note = "%s file of %d bytes, %d damaged versions rejected" % (case["k"], len(raw), len(chk) - 1)


def run_keep(case, env, obs):
    k, nf, np_ = case["k"], case["nf"], case["np"]
    with env.scratch() as cwd:
        os.mkdir(os.path.join(cwd, "adir"))
        s = Script()
        s.add("entropy", case["ent"])
        other = dict(case, np=np_ + 1, nf=nf + (1 if k == "net" else 0))
        if k == "net":
            other["data"] = [[v + [1.0], p, m] for v, p, m in case["data"]]
        make(s, other, "other")
        make(s, case, "good")
        if not obs.conform(env.go(s, cwd), "writing run"):
            return
        raw = gen.read_file(os.path.join(cwd, "other"), True)
        with open(os.path.join(cwd, "short"), "wb") as f:
            f.write(raw[:len(raw) // 2])
        bad = {"missing": "nofile", "dir": "adir", "mismatch": "other", "short": "short"}[case["how"]]
        if bad == "adir" or (bad == "short" and k != "net") or (bad == "other" and k == "tree"):
            bad = "nofile"   # these stop the program, which the damage cases judge

        def script(load):
            s = Script()
            s.add("entropy", case["ent"])
            if k == "tree" or k == "forest":
                s.add("mk", "m", MODEL[k], nf, np_, *params(case))
            else:
                s.add("mk", "m", MODEL[k], nf, np_, "threshold=0")
            if case["trained"]:
                s.add("mld", "m", "good")
            ex = s.add("mld", "m", bad) if load else None
            tr = s.add("mtr", "m")
            q1 = s.query("m", case["q"] * 3, "mq")
            s.add("dnew", "D")
            for v, p, m in case["data"]:
                if k == "net":
                    v = [abs(float(int(x) % 1000)) + 1 if abs(x) < 1e9 else 5.0 for x in v]
                s.add("dins", "D", p, m, *v)
            if not case["trained"]:
                s.add("mtrain", "m", "D")
            q2 = s.query("m", case["q"] * 3, "mq")
            s.add("mst", "m", "after%d" % load)
            return s, ex, (tr, q1, q2)

        s0, _, l0 = script(0)
        r0 = env.go(s0, cwd)
        if not obs.conform(r0, "reference"):
            return
        s1, ex, l1 = script(1)
        r1 = env.go(s1, cwd)
        obs.events += r1.events
        if not r1.out.get(ex, "").startswith("exc "):
            if r1.out.get(ex) == "ok":
                raise Mismatch("loading %s into a %s model succeeded" % (bad, k))
            if r1.sanitizer:
                raise Mismatch("loading %s into a %s model: %s" % (bad, k, r1.problem()))
            obs.count("stopped")   # an error exit is a reported failure as well
            return
        if not r1.done or r1.rc or r1.sanitizer:
            raise Mismatch("after a failed load (%s): %s" % (bad, r1.problem()))
        for a, b, what in zip(l0, l1, ("trainable state", "selections", "selections after training")):
            if r0.out.get(a) != r1.out.get(b):
                raise Mismatch("after the failed load of %s the %s model's %s is %r, without it %r" % (bad, k, what, r1.out.get(b), r0.out.get(a)))
        if gen.read_file(os.path.join(cwd, "after0"), True) != gen.read_file(os.path.join(cwd, "after1"), True):
            raise Mismatch("after the failed load of %s the %s model stores differently" % (bad, k))
        obs.count("failed_loads_compared")
        obs.sig = sig("keep", k, case["trained"], bad, r0.out.get(l0[1]))


def run(case, env, obs):
    (run_keep if case["mode"] == "keep" else run_damage)(case, env, obs)
