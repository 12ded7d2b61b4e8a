import math, os
from vf import Script, Mismatch, f32, sig
import gen
PROP = "C12"
VARIANTS = ["asan"]
RULE = ("sequences of trainings (batch sizes 1-60 varying within a sequence, 1-3 features up to 2^62, 1-200 policies, feature vectors whose digits coincide, all documented "
        "parameters, thresholds crossed in both directions); the stored network after each training compared with an independent "
        "reference implementation (forward pass, policy gradient, Adam, reward average), selections before and after each training "
        "tested against the softmax of the stored weights (chi-square, alarm at p<1e-10); non-trivial: at least one weight update")


def cases(rng, tier):
    for i in range(700 if tier == "quick" else 10000):
        nf, np_ = rng.choice([1, 1, 2, 3, 3]), rng.choice([1, 2, 2, 3, 5, 8])

        def fv():
            v = [float(rng.choice([rng.randint(1, 15), rng.randint(1, 10 ** 6), 2 ** rng.randint(0, 62), rng.randint(0, 3)])) for _ in range(nf)]
            if rng.random() < .1:
                v[0] += .75
            if not any(int(x) for x in v):
                v[0] = 1.0
            if rng.random() < .4:  # combinations and permutations of few values
                v = [float(rng.choice(few)) for _ in range(nf)]
            return [f32(x) for x in v]
        few = [rng.randint(1, 9), 2 ** rng.randint(0, 40), 10 ** 6 + 1][:rng.choice([2, 3])]
        batch, many = i % 25 == 3, i % 25 == 9   # large batches; many trainings
        wide, digits = i % 25 == 14, i % 25 == 19  # more policies than inputs; vectors of the same digits (1 11, 11 1)
        if wide:
            nf, np_ = rng.choice([(1, 65), (1, 90), (1, 130), (1, 200), (2, 129), (2, 180)])
        V = [fv() for _ in range(rng.choice([1, 2, 4, 8]) if not batch else 150)]
        if digits:
            nf, d = rng.choice([2, 3]), rng.randint(1, 9)
            n = rng.randint(nf + 1, nf + 4)
            V = []
            for _ in range(10):
                c = sorted(rng.sample(range(1, n), nf - 1))
                v = [float(str(d) * (b - a)) for a, b in zip([0] + c, c + [n])]
                if v not in V:
                    V.append(v)
        steps = []
        for _ in range(rng.choice([1, 2, 3, 5]) if not many else 16):
            sc = rng.choice([.01, .5, 1., 3., 50.])
            n = rng.choice([1, 2, 5, 20, 60]) if not batch else rng.choice([300, 1000])
            steps.append([[rng.choice(V), rng.randrange(np_), rng.uniform(0, sc) if rng.random() < .9 else gen.metric(rng)] for _ in range(n)])
        par = {}
        for k, vs in (("lr", [.001, .05, .3]), ("beta", [.1, .9, .99]), ("beta1", [.1, .9]), ("beta2", [.5, .99, .999]),
                      ("threshold", [.05, .3, .5, .8, .95])):
            if rng.random() < .4:
                par[k] = rng.choice(vs)
        if rng.random() < .1:  # saturating networks: only the selections are compared
            par["lr"] = rng.choice([5, 100, 1000])
        yield {"nf": nf, "np": np_, "V": V, "steps": steps, "par": par, "how": rng.choice(["bare", "region"]),
               "draws": 0 if batch else rng.choice([200, 400]) if wide or digits else rng.choice([0, 60, 400]), "ent": rng.getrandbits(50)}


class Net:
    def __init__(self, raw, nf, np_):
        import numpy as np
        I, H = 64 * nf, (64 * nf + np_) // 2
        shapes = [(H, I), (H,), (H, H), (H,), (np_, H), (np_,)]
        n = sum(int(np.prod(s)) for s in shapes)
        if len(raw) != 8 * n + 12:
            raise Mismatch("stored network has %d bytes, %d-feature %d-policy three-layer network needs %d" % (len(raw), nf, np_, 8 * n + 12))
        a = np.frombuffer(raw[:8 * n], dtype="<f8")
        self.W, o = [], 0
        for s in shapes:
            k = int(np.prod(s))
            self.W.append(a[o:o + k].reshape(s).copy())
            o += k
        self.avg = float(np.frombuffer(raw[8 * n:8 * n + 8], dtype="<f8")[0])
        self.count = int(np.frombuffer(raw[8 * n + 8:], dtype="<i4")[0])


def bits(v):
    import numpy as np
    return np.array([float((int(x) >> j) & 1) for x in v for j in range(64)])


def forward(W, X):
    import numpy as np
    o1 = X @ W[0].T + W[1]
    a1 = np.maximum(o1, 0)
    o2 = a1 @ W[2].T + W[3]
    a2 = np.maximum(o2, 0)
    z = a2 @ W[4].T + W[5]
    e = np.exp(z - z.max(axis=1, keepdims=True))
    return o1, a1, o2, a2, e / e.sum(axis=1, keepdims=True)


def chi(seq, probs, what):
    from scipy.stats import chi2
    n = len(seq)
    cnt = [seq.count(k) for k in range(len(probs))]
    if sum(cnt) != n:
        raise Mismatch("%s: selections %r outside the policies" % (what, sorted(set(seq))))
    for k, p in enumerate(probs):
        if cnt[k] and n * p < 1e-11:
            raise Mismatch("%s: policy %d selected although its probability is %.3g" % (what, k, p))
    cells, o, e = [], 0, 0.0
    for k in sorted(range(len(probs)), key=lambda k: probs[k]):
        o, e = o + cnt[k], e + n * probs[k]
        if e >= 5:
            cells.append((o, e))
            o, e = 0, 0.0
    if cells and e > 0:
        cells[-1] = (cells[-1][0] + o, cells[-1][1] + e)
    if len(cells) < 2:
        return
    x = sum((a - b) ** 2 / b for a, b in cells)
    if chi2.sf(x, len(cells) - 1) < 1e-10:
        raise Mismatch("%s: %d selections distributed %r, the network's probabilities are %s" % (
            what, n, cnt, ["%.4f" % p for p in probs]))


def run(case, env, obs):
    import numpy as np
    nf, np_, par, V = case["nf"], case["np"], case["par"], case["V"]
    s = Script()
    s.add("entropy", case["ent"])
    ps = ["%s=%g" % kv for kv in sorted(par.items(), key=lambda kv: (len(kv[0]), kv[0]))]
    region = case["how"] == "region"
    if "order" in case:
        ps = [ps[i] for i in case["order"] if i < len(ps)]
    if region and case.get("via") == "env":
        s.env(APOLLO_POLICY_MODEL=",".join(["PolicyNet"] + ps))
        s.region("r", nf, np_, "r")
    elif region:
        if "via" in case:
            s.env(APOLLO_POLICY_MODEL="Static,policy=0")
        s.region("r", nf, np_, "r", info=",".join(["PolicyNet"] + ps))
    else:
        s.add("mk", "m", "PolicyNet", nf, np_, *ps)

    def query(v):
        return s.add("qn" if region else "mqn", "r" if region else "m", case["draws"], *v)

    def store(i):
        s.add("mstore" if region else "mst", "r" if region else "m", "n%d" % i)

    store(0)
    qs = [[query(v) for v in V] if case["draws"] else []]
    for i, d in enumerate(case["steps"]):
        if region:
            for v, p, x in d:
                s.add("rins", "r", p, x, *v)
            s.add("train", i)
        else:
            s.add("dnew", "D")
            for v, p, x in d:
                s.add("dins", "D", p, x, *v)
            s.add("mtrain", "m", "D")
        qs.append([query(v) for v in V] if case["draws"] else [])
        store(i + 1)
    with env.scratch() as cwd:
        res = env.go(s, cwd)
        if not obs.conform(res):
            return
        nets = [Net(gen.read_file(os.path.join(cwd, "n%d" % i), True), nf, np_) for i in range(len(case["steps"]) + 1)]
    lr, beta, b1, b2, th = [par.get(k, d) for k, d in (("lr", .01), ("beta", .5), ("beta1", .5), ("beta2", .9), ("threshold", 0.))]
    W = [w.copy() for w in nets[0].W]
    M, U = [np.zeros_like(w) for w in W], [np.zeros_like(w) for w in W]
    t, avg, cnt, upd = 0, 0.0, 0, 0
    ds = {}
    for i, net in enumerate(nets):
        skip = False
        if i:
            if not region:
                ds = {}
            for v, p, x in case["steps"][i - 1]:
                gen.ema(ds, (tuple(v), p), x)
            ent = sorted(ds.items())
            X = np.array([bits(k[0]) for k, _ in ent])
            A = np.array([k[1] for k, _ in ent])
            R = np.array([math.exp(-m) for _, m in ent])
            avg = beta * avg + (1 - beta) * float(R.mean())
            cnt += 1
            base = avg / (1 - beta ** cnt)
            if abs(base - th) < 1e-9 and th:
                obs.count("ambiguous_threshold")
                return
            if net.count != cnt or abs(net.avg - avg) > 1e-12 + 1e-9 * abs(avg):
                raise Mismatch("after training %d the running reward average is %r (count %d), expected %r (count %d)" % (
                    i, net.avg, net.count, avg, cnt))
            prev = [w.copy() for w in W]
            if base >= th:
                upd += 1
                o1, a1, o2, a2, P = forward(W, X)
                if lr <= 1 and (np.abs(o1).min() < 1e-9 or np.abs(o2).min() < 1e-9):
                    # the gradient of the rectifier is ambiguous there
                    obs.count("ambiguous_relu")
                    skip = True
                n = len(ent)
                r = (R - base)[:, None]
                G = -r * P / n
                G[np.arange(n), A] += r[:, 0] / n
                g = [None] * 6
                g[4], g[5] = G.T @ a2, G.sum(0)
                D2 = (G @ W[4]) * (o2 > 0)
                g[2], g[3] = D2.T @ a1, D2.sum(0)
                D1 = (D2 @ W[2]) * (o1 > 0)
                g[0], g[1] = D1.T @ X, D1.sum(0)
                t += 1
                for k in range(6):
                    M[k] = b1 * M[k] + (1 - b1) * g[k]
                    U[k] = b2 * U[k] + (1 - b2) * g[k] ** 2
                    W[k] = W[k] + lr * (M[k] / (1 - b1 ** t)) / (np.sqrt(U[k] / (1 - b2 ** t)) + 1e-8)
            if skip:
                return
            for k in range(6):
                if not np.isfinite(net.W[k]).all():
                    raise Mismatch("training %d makes the network's parameters infinite or NaN" % i)
                if lr > 1:
                    continue
                err = np.abs(net.W[k] - W[k])
                tol = 1e-5 * lr + 1e-9 * np.abs(W[k])
                if (err > tol).any():
                    j = np.unravel_index(int(np.argmax(err - tol)), err.shape)
                    raise Mismatch("training %d (%d measurements, %s): parameter %s%r is %r, one documented step from %r gives %r" % (
                        i, len(ent), "baseline %.4g, threshold %.4g" % (base, th), "W1 b1 W2 b2 W3 b3".split()[k],
                        tuple(int(z) for z in j), float(net.W[k][j]), float(prev[k][j]), float(W[k][j])))
                obs.count("parameters_compared", err.size)
            # continue from the real values so that rounding does not accumulate
            W = [w.copy() for w in net.W]
        base = avg / (1 - beta ** cnt) if cnt else 0.0
        for v, ln in zip(V, qs[i]):
            seq = res.ints(ln)
            obs.count("selections", len(seq))
            what = "selection for %r after %d trainings" % (v, i)
            if base < th:
                obs.count("below_threshold")
                if any(seq):
                    raise Mismatch("%s: policy %d although the baseline %.4g is below the threshold %.4g" % (what, max(seq), base, th))
            else:
                chi(seq, [float(p) for p in forward(net.W, bits(v)[None, :])[4][0]], what)
    obs.count("updates", upd)
    if upd:
        obs.sig = sig([float(w.sum()) for w in nets[-1].W])
        obs.note = "%d trainings, %d updates, parameters %r" % (len(case["steps"]), upd, par)
