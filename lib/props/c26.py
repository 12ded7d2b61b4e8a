import os, shutil, subprocess
from vf import Script, Mismatch, HarnessError, esc, run_script, sig, Hang
PROP = "C26"
VARIANTS = ["plain"]
RULE = ("call-path identifiers requested from several call sites, at walk distances up to the depth of the stack, through recursion, different "
        "callers and dlopened shared libraries, by programs under plain and unusual paths; compared with the stack as the driver's own unwinder "
        "recorded it at the same place: module name and address of the frame, equality for the same place, difference for different ones; "
        "non-trivial: at least two different frames named")
ASSUME = ["the walk distance is at least two (the caller) and does not exceed the depth of the stack"]
LIBSRC = """
typedef void (*leaf_t)(int, int);
typedef void (*mid_t)(leaf_t, int, int, int);
extern "C" __attribute__((noinline)) void cp_in(mid_t f, leaf_t leaf, int d, int w, int second)
{
  if (d % 2) { f(leaf, 0, w, second); asm volatile("" ::: "memory"); }
  else { f(leaf, d / 2, w, second); asm volatile("" ::: "memory"); }
}
extern "C" void cp_via(void *f, leaf_t leaf, int d, int w, int second)
{
  if (second) { cp_in((mid_t)f, leaf, d, w, second); asm volatile("" ::: "memory"); }
  else { cp_in((mid_t)f, leaf, d, w, second); asm volatile("" ::: "memory"); }
}
"""
LIBS = ["libsite.so", "lib-site.v2.so.1", "plug in.so", "libsite(copy).so"] + ["libcopy%d.so" % i for i in range(12)]


def dist(c):
    # leaf, the caller's depth + 1 frames, two of the library, and the driver's own below
    n = (0 if c[3] % 2 else c[3] // 2) + 5 if c[5] is not None else c[3] + 4
    return min(c[4], n)


def cases(rng, tier):
    for i in range(200 if tier == "quick" else 3000):
        calls = []
        for _ in range(rng.choice([10, 40])):
            calls.append([rng.randrange(3), rng.randrange(2), rng.randrange(2), rng.choice([0, 0, 1, 2, 5, 30]), rng.choice([2, 2, 3, 4, 5, 6, 8, 20]),
                          rng.choice([None, None, 0, 1, 2, 3])])
        if i % 10 == 0:  # the same code at many load addresses
            calls += [[0, sec, 0, 0, w, 4 + k] for k in range(12) for sec in (0, 1) for w in (4, 5)]
        calls += [list(c) for c in rng.sample(calls, 6)]  # again, later
        rng.shuffle(calls)
        yield {"calls": calls, "dir": rng.choice(["", "", "bin", "my apps", "build (2)", "v1.2-rc", "a b/c d", "[x]", "my [old] tools"]),
               "exe": rng.choice(["drv", "drv", "app.exe", "my app", "app(1)", "x" * 100]), "regions": rng.choice([0, 3])}


def run(case, env, obs):
    with env.scratch() as cwd:
        built = None
        for n in {c[5] for c in case["calls"]} - {None}:
            if built:
                shutil.copy(built, os.path.join(cwd, LIBS[n]))
                continue
            built = os.path.join(cwd, LIBS[n])
            src = os.path.join(cwd, "s.cpp")
            with open(src, "w") as f:
                f.write(LIBSRC)
            p = subprocess.run(["g++", "-O1", "-fno-omit-frame-pointer", "-fasynchronous-unwind-tables", "-shared", "-fPIC", "-o",
                                os.path.join(cwd, LIBS[n]), src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise HarnessError("shared library: %s" % p.stdout[-500:])
        binp = env.bin["plain"]
        if case["dir"] or case["exe"] != "drv":
            d = os.path.join(cwd, case["dir"])
            os.makedirs(d, exist_ok=True)
            shutil.copy(binp, os.path.join(d, case["exe"]))
            binp = os.path.join(d, case["exe"])
        s = Script()
        for k in range(case["regions"]):
            s.region("r%d" % k, 1, 2, "g%d" % k, info="RoundRobin")
            s.x("r%d" % k, 1.0, [1.0])
        lns = [(c, s.add("cps", c[0], c[1], c[2], c[3], dist(c), esc("") if c[5] is None else esc(os.path.join(cwd, LIBS[c[5]]))))
               for c in case["calls"]]
        res = run_script(binp, s, cwd)
        if res.timeout:
            raise Hang(s)
        if not obs.conform(res):
            return
    by_id, frames = {}, set()
    for c, ln in lns:
        v = res.out.get(ln, "")
        f = v[3:].split("\t")
        if not v.startswith("cp ") or len(f) < 5:
            raise Mismatch("no identifier at line %d: %r" % (ln, v[:100]))
        n, want, mod, inside, ident = int(f[0]), f[1], f[2], f[3], "\t".join(f[4:])
        w = dist(c)
        m, at, a = ident.rpartition("@")
        if not at or m != mod:
            raise Mismatch("identifier %r of a frame of module %r" % (ident, mod))
        if w == 2:
            # the call itself lies in the leaf, which of its calls is told apart by the identifier
            if inside != "1":
                raise Mismatch("identifier %r of the direct caller, which is near %s" % (ident, want))
            place = ("leaf", c[0], c[1])
        else:
            if a != want:
                raise Mismatch("identifier %r at distance %d, the frame is %s in %s" % (ident, w, want, mod))
            place = ("frame", want, mod)
        if by_id.setdefault(ident, place) != place:
            raise Mismatch("identifier %r for %r and %r" % (ident, by_id[ident], place))
        frames.add(place)
        obs.count("identifiers")
    ids = {}
    for i, pl in by_id.items():
        if ids.setdefault(pl, i) != i:
            raise Mismatch("the same place %r is called %r and %r" % (pl, ids[pl], i))
    obs.count("frames", len(frames))
    if len(frames) > 1:
        obs.sig = sig(case["dir"], case["exe"], case["calls"])
        obs.note = "%d identifiers of %d frames" % (len(lns), len(frames))
