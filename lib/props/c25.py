import json, os, re, subprocess
from vf import Script, Mismatch, BASE_ENV, REPO, sig, f32
import gen
PROP = "C25"
VARIANTS = ["asan"]
PY = "/usr/bin/python3"
ANALYSIS = os.path.join(REPO, "src", "python", "analysis")
RULE = ("trees and forests trained by the library, stored, drawn by dtree2dot.py / rfc2dot.py, the drawing read back with graphviz and compared "
        "vertex by vertex and edge by edge with the stored file (own parser); run-exhaustive.py over recording programs (some failing at a "
        "chosen run) and over a real Apollo program whose traces are read back; non-trivial: more than one split or more than one policy")
ASSUME = ["graphviz's dot parser (-Knop) reads the drawing", "PyYAML of the system python reads the stored model"]


def cases(rng, tier):
    q = tier == "quick"
    for i in range(160 if q else 2500):
        nf, np_ = rng.choice([0, 1, 1, 2, 3, 12]), rng.choice([1, 2, 3, 5, 12])
        vecs = gen.vectors(rng, nf, rng.choice([1, 2, 5, 12, 40]))
        d = []
        for v in vecs:
            for p in rng.sample(range(np_), rng.randint(1, np_)):
                d.append((v, p, gen.metric(rng)))
        m = rng.choice(["DecisionTree", "RandomForest"])
        par = ["max_depth=%d" % rng.choice([0, 1, 2, 4, 8])] if rng.random() < .8 else []
        if i % 20 == 7:  # deep trees
            nf, np_ = 1, rng.choice([2, 3])
            d = [((float(j),), j % np_, 1.0) for j in range(rng.choice([40, 90, 160]))]
            par = ["max_depth=100"]
        if m == "RandomForest":
            par.append("num_trees=%d" % rng.choice([1, 2, 3, 10, 12]))
        yield {"t": "dot", "m": m, "par": par, "nf": nf, "np": np_, "d": d}
    for i in range(60 if q else 600):
        n = rng.choice([1, 2, 3, 4, 7, 12])
        env = {}
        for k, vs in (("APOLLO_TRACE_CSV", ["0", "1"]), ("APOLLO_RETRAIN_ENABLE", ["1", "0"]), ("APOLLO_POLICY_MODEL", ["Random", "DecisionTree"]),
                      ("APOLLO_OUTPUT_DIR", ["out"]), ("USERVAR", ["a b", "x"])):
            if rng.random() < .5:
                env[k] = rng.choice(vs)
        yield {"t": "rec", "n": n, "env": env, "fail": rng.choice([None, None, rng.randrange(n + 1)]), "args": rng.choice(["", " a b", " 'a b' c"]),
               "code": rng.choice([1, 2, 77, 134])}
    for i in range(8 if q else 60):
        n = rng.choice([1, 2, 3, 5])
        yield {"t": "real", "n": n, "nf": rng.choice([0, 1, 2]), "ex": rng.choice([1, 3, 2 * n + 1]), "nr": rng.choice([1, 2])}


def py(script, args, cwd, env=None):
    e = dict(BASE_ENV)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.update(env or {})
    return subprocess.run([PY, "-B", os.path.join(ANALYSIS, script)] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)


def close(a, b):
    return a == b or abs(a - b) <= 1e-6 * max(abs(a), abs(b))


def attrs(label, name):
    """Attributes of a vertex label: 'name', then 'key: value,' lines."""
    lines = [l for l in label.split("\n") if l.strip()]
    if not lines or lines[0].strip() != name:
        raise Mismatch("vertex %s is labelled %r" % (name, label[:80]))
    out = {}
    for l in lines[1:]:
        k, _, v = l.partition(":")
        k = k.strip()
        if k in out:
            raise Mismatch("vertex %s shows %s twice" % (name, k))
        out[k] = v.strip().rstrip(",").strip()
    return out


def same(name, a, k, want):
    if k not in a:
        raise Mismatch("vertex %s does not show %s" % (name, k))
    v = a[k]
    if isinstance(want, dict):
        got = {int(x): int(y) for x, y in re.findall(r"(-?\d+)\s*:\s*(-?\d+)", v)}
        ok = got == want
    elif isinstance(want, list):
        ok = [int(x) for x in re.findall(r"-?\d+", v)] == want
    else:
        try:
            ok = close(float(v), float(want))
        except ValueError:
            ok = False
    if not ok:
        raise Mismatch("vertex %s shows %s: %s, the stored model has %r" % (name, k, v, want))


class Graph:
    def __init__(self, path, obs):
        r = subprocess.run(["dot", "-Knop", "-Tdot_json", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        try:
            j = json.loads(r.stdout.decode())
        except ValueError:
            raise Mismatch("the drawing is not a dot graph: %s" % r.stderr.decode()[:200])
        if not j.get("directed"):
            raise Mismatch("the drawing is not a directed graph")
        self.v = {o["_gvid"]: o for o in j.get("objects", [])}
        self.kids, indeg = {}, {}
        for e in j.get("edges", []):
            self.kids.setdefault(e["tail"], []).append(e["head"])
            indeg[e["head"]] = indeg.get(e["head"], 0) + 1
        if any(n > 1 for n in indeg.values()):
            raise Mismatch("a vertex has several parents")
        self.roots = [i for i in self.v if i not in indeg]
        self.seen = 0
        obs.count("vertices_drawn", len(self.v))

    def vertex(self, i):
        self.seen += 1
        o = self.v[i]
        return o["name"], attrs(o.get("label", ""), o["name"]), self.kids.get(i, [])


def check_node(g, i, node, obs):
    name, a, kids = g.vertex(i)
    for k in ("gini", "num_samples", "predicted_class", "feature_idx", "threshold", "count_per_class"):
        if k in node:
            same(name, a, k, node[k])
            obs.count("attributes_compared")
    want = {k: node[k] for k in ("left", "right") if node[k] is not None}
    got = {}
    for c in kids:
        k = g.v[c]["name"].rsplit("_", 1)[-1]
        if k in got or k not in want:
            raise Mismatch("vertex %s has a child %s, the stored node has %r" % (name, g.v[c]["name"], sorted(want)))
        got[k] = c
    if set(got) != set(want):
        raise Mismatch("vertex %s has children %r, the stored node %r" % (name, sorted(got), sorted(want)))
    return 1 + sum(check_node(g, got[k], want[k], obs) for k in got)


def check_tree(g, i, tree, obs):
    name, a, kids = g.vertex(i)
    for k in ("max_depth", "classes", "num_features"):
        if k in tree:
            same(name, a, k, tree[k])
    if len(kids) != 1:
        raise Mismatch("tree vertex %s has %d children" % (name, len(kids)))
    return check_node(g, kids[0], tree["root"], obs)


def run_dot(case, env, obs):
    s = Script()
    s.add("mk", "m", case["m"], case["nf"], case["np"], *case["par"])
    s.add("dnew", "D")
    for v, p, x in case["d"]:
        s.add("dins", "D", p, x, *v)
    s.add("mtrain", "m", "D")
    s.add("mst", "m", "m.yaml")
    with env.scratch() as cwd:
        if not obs.conform(env.go(s, cwd)):
            return
        p = os.path.join(cwd, "m.yaml")
        before = gen.read_file(p)
        tree = case["m"] == "DecisionTree"
        r = py("dtree2dot.py" if tree else "rfc2dot.py", ["-i", p, "-o", os.path.join(cwd, "m.dot")], cwd)
        if r.returncode != 0:
            raise Mismatch("the script fails on a stored model: %s" % r.stderr.decode()[-300:])
        if gen.read_file(p) != before:
            raise Mismatch("the script changed the stored model")
        g = Graph(os.path.join(cwd, "m.dot"), obs)
        if len(g.roots) != 1:
            raise Mismatch("the drawing has %d roots" % len(g.roots))
        if tree:
            n = check_tree(g, g.roots[0], gen.parse_tree_file(p), obs)
        else:
            f = gen.parse_forest_file(p)
            name, a, kids = g.vertex(g.roots[0])
            for k in ("max_depth", "classes"):
                if k in f:
                    same(name, a, k, f[k])
            if len(kids) != len(f["trees"]):
                raise Mismatch("%d trees are drawn, %d are stored" % (len(kids), len(f["trees"])))
            order = sorted(kids, key=lambda i: int(re.search(r"(\d+)$", g.v[i]["name"]).group(1)))
            n = sum(check_tree(g, i, t, obs) for i, t in zip(order, f["trees"]))
        if g.seen != len(g.v):
            raise Mismatch("%d vertices are drawn, %d belong to the model" % (len(g.v), g.seen))
        obs.count("drawings_compared")
        if n > 3:
            obs.sig = sig(case["d"], case["par"])
            obs.note = "%s with %d nodes" % (case["m"], n)


REC = """import json, os, sys
n = len(open('log').readlines()) if os.path.exists('log') else 0
open('log', 'a').write(json.dumps([dict(os.environ), sys.argv[1:], os.getcwd()]) + '\\n')
sys.exit(%d if n == %d else 0)
"""


def run_rec(case, env, obs):
    with env.scratch() as cwd:
        with open(os.path.join(cwd, "rec.py"), "w") as f:
            f.write(REC % (case["code"], -1 if case["fail"] is None else case["fail"]))
        r = py("run-exhaustive.py", ["-n", str(case["n"]), "-x", PY + " -B rec.py" + case["args"]], cwd, case["env"])
        logp = os.path.join(cwd, "log")
        log = [json.loads(l) for l in gen.read_file(logp).splitlines()] if os.path.exists(logp) else []
    want = ["Static,policy=%d" % i for i in range(case["n"])] + ["RoundRobin"]
    if case["fail"] is not None:
        want = want[:case["fail"] + 1]
    got = [e.get("APOLLO_POLICY_MODEL") for e, _, _ in log]
    if got != want:
        raise Mismatch("exhaustive run of %d policies (failing run: %r) ran the program with %r" % (case["n"], case["fail"], got))
    if (r.returncode != 0) != (case["fail"] is not None):
        raise Mismatch("exit status %d although %s" % (r.returncode, "no run failed" if case["fail"] is None else "run %d failed" % case["fail"]))
    argv = {"": [], " a b": ["a", "b"], " 'a b' c": ["a b", "c"]}[case["args"]]
    for e, a, d in log:
        if e.get("APOLLO_TRACE_CSV") != "1" or e.get("APOLLO_RETRAIN_ENABLE") != "0":
            raise Mismatch("a run is not traced or has retraining on: %r" % {k: v for k, v in e.items() if k.startswith("APOLLO")})
        for k, v in case["env"].items():
            if k not in ("APOLLO_TRACE_CSV", "APOLLO_RETRAIN_ENABLE", "APOLLO_POLICY_MODEL") and e.get(k) != v:
                raise Mismatch("the caller's %s=%s reaches the program as %r" % (k, v, e.get(k)))
        if a != argv or os.path.realpath(d) != os.path.realpath(cwd):
            raise Mismatch("the program is run with arguments %r in %s" % (a, d))
        obs.count("recorded_runs")
    obs.sig = sig(case)
    obs.note = "%d policies, failing run %r" % (case["n"], case["fail"])


def run_real(case, env, obs):
    n, nf = case["n"], case["nf"]
    s = Script()
    for r in range(case["nr"]):
        s.region("r%d" % r, nf, n, "reg%d" % r)
    for i in range(case["ex"]):
        for r in range(case["nr"]):
            s.x("r%d" % r, 1. + i, [float(i + 1)] * nf)
    with env.scratch() as cwd:
        with open(os.path.join(cwd, "s"), "w") as f:
            f.write(s.text())
        r = py("run-exhaustive.py", ["-n", str(n), "-x", "%s s out.$APOLLO_POLICY_MODEL" % env.bin["asan"]], cwd)
        if r.returncode != 0:
            raise Mismatch("exhaustive run failed: %s" % r.stderr.decode()[-300:])
        for i in range(n + 1):
            info = "Static,policy=%d" % i if i < n else "RoundRobin"
            for k in range(case["nr"]):
                p = os.path.join(cwd, ".apollo", "traces", "trace-%s-region-reg%d-rank-0.csv" % (info, k))
                if not os.path.exists(p):
                    raise Mismatch("no trace of region %d under %s: %r" % (k, info, os.listdir(os.path.dirname(p))))
                rows = [l.split() for l in gen.read_file(p).splitlines()[1:]]
                pol = [int(x[-2]) for x in rows]
                want = [i if i < n else j % n for j in range(case["ex"])]
                if pol != want:
                    raise Mismatch("trace under %s has policies %r, expected %r" % (info, pol, want))
                obs.count("trace_rows_compared", len(rows))
    obs.sig = sig(case)
    obs.note = "%d policies, %d executions, traces complete" % (n, case["ex"])


def run(case, env, obs):
    {"dot": run_dot, "rec": run_rec, "real": run_real}[case["t"]](case, env, obs)
