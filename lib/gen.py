"""Generators and reference computations shared by the checks."""
import math, os, re, struct
from vf import f32, f32_next, Mismatch

FMAX = 3.4028234663852886e38


def scalar(rng, fam):
    if fam == "int":
        return float(rng.randint(0, 12))
    if fam == "neg":
        return float(rng.randint(-8, 8))
    if fam == "frac":
        return f32(rng.uniform(-3, 3))
    if fam == "big":
        return f32(rng.choice([1e4, 1e6, 123456.0, 16777216.0, 987654.0]) + rng.randint(0, 64))
    if fam == "huge":
        return f32(rng.choice([-1, 1]) * rng.uniform(0.6, 1.0) * FMAX)
    if fam == "wide":
        return f32(rng.choice([-1, 1]) * 10 ** rng.uniform(-37, 38))
    if fam == "tiny":
        return f32(rng.choice([-1, 1]) * 10 ** rng.uniform(-44, -30))
    if fam == "ulp":
        b = rng.choice([1.0, 1000.0, 0.1, 3.0e7, 5e-5, -1.0, -0.1, 0.0, 0.0])
        if b == 0.0:  # zero and the smallest subnormals on both sides
            return rng.randint(-3, 4) * 2.0 ** -149
        i = struct.unpack("i", struct.pack("f", b))[0] + rng.randint(0, 6)
        return struct.unpack("f", struct.pack("i", i))[0]
    raise KeyError(fam)


FAMS = ["int", "neg", "frac", "big", "huge", "wide", "tiny", "ulp"]


def norm(v):
    return 0.0 if v == 0 else v


def vectors(rng, nf, n, fams=None):
    """n distinct feature vectors (fewer when the family is small)."""
    fams = fams or FAMS
    col = [rng.choice(fams) for _ in range(nf)] if rng.random() < .5 else [rng.choice(fams)] * nf
    out = []
    seen = set()
    for _ in range(4 * n):
        v = tuple(norm(scalar(rng, col[j])) for j in range(nf))
        if out and nf > 1 and rng.random() < .3:  # share all coordinates but one with an earlier one
            w = list(rng.choice(out))
            j = rng.randrange(nf)
            w[j] = v[j]
            v = tuple(w)
        if v not in seen:
            seen.add(v)
            out.append(v)
        if len(out) >= n:
            break
    return out


def metric(rng):
    k = rng.random()
    if k < .02:
        return 0.0
    if k < .5:
        return rng.uniform(1e-6, 2.0)
    if k < .8:
        return 10 ** rng.uniform(-9, 5)
    return float(rng.randint(1, 5))


def neighbours(rng, vecs, k):
    """Query vectors near and far from the given ones."""
    nf = len(vecs[0]) if vecs else 0
    out = [tuple(v) for v in vecs]
    for _ in range(k):
        v = list(rng.choice(vecs))
        w = rng.choice(vecs)
        for j in range(nf):
            r = rng.random()
            if r < .25:
                v[j] = f32_next(v[j], rng.random() < .5)
            elif r < .5:
                v[j] = f32(v[j] / 2 + w[j] / 2)
            elif r < .6:
                v[j] = scalar(rng, rng.choice(FAMS))
            elif r < .8:
                v[j] = w[j]
            if math.isinf(v[j]) or math.isnan(v[j]):
                v[j] = math.copysign(FMAX, v[j])
        out.append(tuple(norm(z) for z in v))
    return out


def ema(d, key, m):
    if key in d:
        d[key] = .5 * d[key] + .5 * m
    else:
        d[key] = m


def argmins(ds):
    """{features: set of policies with the smallest metric}"""
    best = {}
    for (f, p), m in ds.items():
        if f not in best or m < best[f][0]:
            best[f] = (m, {p})
        elif m == best[f][0]:
            best[f][1].add(p)
    return {f: s for f, (m, s) in best.items()}


# ------------------------------------------------------- stored model files
def read_file(path, binary=False):
    try:
        with open(path, "rb" if binary else "r") as f:
            return f.read()
    except OSError as e:
        raise Mismatch("expected file is missing: %s" % os.path.basename(path))


class TreeParser:
    def __init__(self, text):
        text = "\n".join(l for l in text.split("\n") if not l.lstrip().startswith("#"))
        self.t = re.findall(r"[{}\[\],:]|[^\s{}\[\],:]+", text)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Mismatch("stored model file ends early")
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, s):
        t = self.next()
        if t != s:
            raise Mismatch("stored model file: expected %r found %r" % (s, t))

    def opt(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def key(self, k):
        self.expect(k)
        self.expect(":")

    def num(self, conv):
        t = self.next()
        try:
            v = conv(t)
        except ValueError:
            raise Mismatch("stored model file: bad number %r" % t)
        return v

    def node(self):
        self.expect("{")
        n = {"left": None, "right": None}
        while not self.opt("}"):
            k = self.next()
            self.expect(":")
            if k in ("gini", "threshold"):
                n[k] = self.num(float)
            elif k in ("num_samples", "predicted_class", "feature_idx"):
                n[k] = self.num(int)
            elif k == "count_per_class":
                self.expect("{")
                c = {}
                while not self.opt("}"):
                    kk = self.num(int)
                    self.expect(":")
                    c[kk] = self.num(int)
                    self.opt(",")
                n[k] = c
            elif k in ("left", "right"):
                n[k] = self.node()
            else:
                raise Mismatch("stored model file: unknown key %r" % k)
            self.opt(",")
        for k in ("predicted_class", "feature_idx", "threshold"):
            if k not in n:
                raise Mismatch("stored model file: node without " + k)
        return n

    def tree(self):
        self.key("tree")
        self.expect("{")
        t = {"data": []}
        while not self.opt("}"):
            k = self.next()
            self.expect(":")
            if k in ("max_depth", "num_features"):
                t[k] = self.num(int)
            elif k == "classes":
                self.expect("[")
                t[k] = []
                while not self.opt("]"):
                    t[k].append(self.num(int))
                    self.opt(",")
            elif k == "root":
                t[k] = self.node()
            elif k == "data":
                self.expect("{")
                while not self.opt("}"):
                    self.next()
                    self.expect(":")
                    self.expect("{")
                    self.key("features")
                    self.expect("[")
                    fs = []
                    while not self.opt("]"):
                        fs.append(self.num(float))
                        self.opt(",")
                    self.opt(",")
                    self.key("class")
                    c = self.num(int)
                    self.expect("}")
                    self.opt(",")
                    t["data"].append((tuple(f32(x) for x in fs), c))
            else:
                raise Mismatch("stored model file: unknown key %r" % k)
            self.opt(",")
        if "root" not in t:
            raise Mismatch("stored model file: no root")
        return t

    def forest(self):
        self.key("rfc")
        self.expect("{")
        f = {"trees": []}
        while not self.opt("}"):
            k = self.next()
            self.expect(":")
            if k in ("num_trees", "max_depth"):
                f[k] = self.num(int)
            elif k == "classes":
                self.expect("[")
                f[k] = []
                while not self.opt("]"):
                    f[k].append(self.num(int))
                    self.opt(",")
            elif k == "trees":
                self.expect("[")
                while not self.opt("]"):
                    f["trees"].append(self.tree())
                    self.opt(",")
            else:
                raise Mismatch("stored model file: unknown key %r" % k)
            self.opt(",")
        return f


def parse_tree_file(path):
    return TreeParser(read_file(path)).tree()


def parse_forest_file(path):
    return TreeParser(read_file(path)).forest()


def is_leaf(n):
    return n["feature_idx"] < 0 or (n["left"] is None and n["right"] is None)


def eval_tree(n, v):
    while not is_leaf(n):
        if n["feature_idx"] >= len(v):
            raise Mismatch("tree splits on feature %d of %d" % (n["feature_idx"], len(v)))
        c = n["left"] if v[n["feature_idx"]] < f32(n["threshold"]) else n["right"]
        if c is None:
            return n["predicted_class"]
        n = c
    return n["predicted_class"]


def tree_depth(n):
    if is_leaf(n):
        return 0
    return 1 + max(tree_depth(c) for c in (n["left"], n["right"]) if c)


def thresholds(n, acc=None):
    acc = [] if acc is None else acc
    if not is_leaf(n):
        acc.append((n["feature_idx"], f32(n["threshold"])))
        for c in (n["left"], n["right"]):
            if c:
                thresholds(c, acc)
    return acc


def gini(counts):
    s = sum(counts)
    return 1 - sum((c / s) ** 2 for c in counts) if s else 0.0


def best_split(samples, nf):
    """Smallest weighted Gini over all features and cut points (or None)."""
    best = None
    n = len(samples)
    for j in range(nf):
        o = sorted(samples, key=lambda s: s[0][j])
        tot = {}
        for _, c in o:
            tot[c] = tot.get(c, 0) + 1
        left = {}
        right = dict(tot)
        sl, sr = 0, sum(c * c for c in tot.values())  # sums of squared class counts
        for i in range(1, n):
            c = o[i - 1][1]
            k = left.get(c, 0)
            sl += 2 * k + 1
            left[c] = k + 1
            sr -= 2 * right[c] - 1
            right[c] -= 1
            if o[i - 1][0][j] == o[i][0][j]:
                continue
            g = (i - sl / i + (n - i) - sr / (n - i)) / n
            if best is None or g < best:
                best = g
    return best


def check_tree(root, samples, nf, max_depth, depth=0):
    """C10's statement on a stored tree and its training samples; raises Mismatch."""
    cnt = {}
    for _, c in samples:
        cnt[c] = cnt.get(c, 0) + 1
    if is_leaf(root):
        if samples and cnt.get(root["predicted_class"], 0) != max(cnt.values()):
            raise Mismatch("leaf answers class %d with class counts %r" % (root["predicted_class"], cnt))
        if len(cnt) > 1 and depth < max_depth and best_split(samples, nf) is not None:
            raise Mismatch("impure node %r at depth %d < %d is not split" % (cnt, depth, max_depth))
        return 1
    if depth >= max_depth:
        raise Mismatch("split at depth %d although the depth limit is %d" % (depth, max_depth))
    if root["left"] is None or root["right"] is None:
        raise Mismatch("split node with one child")
    j, th = root["feature_idx"], f32(root["threshold"])
    if j >= nf:
        raise Mismatch("split on feature %d of %d" % (j, nf))
    L = [s for s in samples if s[0][j] < th]
    R = [s for s in samples if not s[0][j] < th]
    if not L or not R:
        raise Mismatch("split on feature %d at %r does not separate the %d samples reaching it" % (j, th, len(samples)))
    cl, cr = {}, {}
    for _, c in L:
        cl[c] = cl.get(c, 0) + 1
    for _, c in R:
        cr[c] = cr.get(c, 0) + 1
    g = (len(L) * gini(cl.values()) + len(R) * gini(cr.values())) / len(samples)
    b = best_split(samples, nf)
    if g > b + 2e-5:
        raise Mismatch("split has weighted Gini %.6f but %.6f is attainable" % (g, b))
    return 1 + check_tree(root["left"], L, nf, max_depth, depth + 1) + \
        check_tree(root["right"], R, nf, max_depth, depth + 1)
