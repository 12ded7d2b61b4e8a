"""Runtime-monitoring framework for Apollo: builds instrumented variants of the
library from /repo's working tree, runs generated scenarios against them,
judges the recorded event logs and reports."""
import concurrent.futures, contextlib, copy, glob, hashlib, json, math, multiprocessing, os, random, re, shutil
import struct, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
BUILD = os.path.join(VERIF, "build")
NPROC = 8

SAN = "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"
STUBS = os.path.join(LIB, "stubs")
VARIANTS = {
    # name: (cmake args, c++ flags, driver sources, driver flags, link libs)
    "asan": ([], SAN, ["drv.cpp", "envctl.cpp"], [], []),
    "kokkos": ([], SAN, ["kdrv.cpp", "envctl.cpp"], ["-I" + REPO + "/src/connectors/kokkos/include"], []),
    "plain": ([], "-O1 -g1 -fno-omit-frame-pointer", ["drv.cpp", "envctl.cpp"], [], []),
    "async": (["-DENABLE_CUDA=ON", "-DENABLE_HIP=ON", "-DCMAKE_MODULE_PATH=" + STUBS + "/cmake"], SAN,
              ["drv.cpp", "envctl.cpp", "evstub.cpp"],
              ["-DDRV_ASYNC", "-I" + STUBS + "/cuda", "-I" + STUBS + "/hip", "-D__HIP_PLATFORM_AMD__"], []),
    "jit": (["-DENABLE_JIT_DTREE=ON"], SAN, ["drv.cpp", "envctl.cpp"], [], []),
    "mpi": (["-DENABLE_MPI=ON"], SAN, ["drv.cpp", "envctl.cpp"], ["-DENABLE_MPI"], []),
    "kplain": ([], "-O1 -g1 -fno-omit-frame-pointer", ["kdrv.cpp", "envctl.cpp"],
               ["-I" + REPO + "/src/connectors/kokkos/include"], []),
}


class HarnessError(Exception):
    pass


def _hash_inputs(root, subs, *extra):
    h = hashlib.sha256(repr(extra).encode())
    for s in subs:
        p = os.path.join(root, s)
        fs = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            if "/src/python/" in f:
                continue
            h.update(os.path.relpath(f, root).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


REPO_INPUTS = ["src", "include", "cmake", "CMakeLists.txt", "apollo-config.h.in", "apollo.pc.in", "apollo-config.cmake.in"]


def _sh(cmd, log, timeout=800):
    log.write(("$ " + " ".join(cmd) + "\n").encode())
    log.flush()
    r = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode


def _fail(what, logp):
    with open(logp) as f:
        tail = f.read()[-3000:]
    raise HarnessError("build of %s failed:\n%s" % (what, tail))


def _build_lib(group, cm, flags):
    """The instrumented library; variants that only differ in their driver share it."""
    d = os.path.join(BUILD, "lib-%s-%s" % (group, _hash_inputs(REPO, REPO_INPUTS, cm, flags, _hash_inputs(LIB, ["stubs"]))))
    done = os.path.join(d, "path")
    if not os.path.exists(done):
        for old in glob.glob(os.path.join(BUILD, "lib-%s-*" % group)):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d)
        logp = os.path.join(d, "build.log")
        with open(logp, "wb") as log:
            rc = _sh(["cmake", "-S", REPO, "-B", d + "/lib", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                      "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_C_COMPILER=gcc",
                      "-DCMAKE_CXX_FLAGS=" + flags, "-DENABLE_TESTS=OFF"] + cm, log)
            rc = rc or _sh(["ninja", "-C", d + "/lib", "apollo"], log)
        a = (glob.glob(d + "/lib/**/libapollo.a", recursive=True) or [None])[0]
        if rc != 0 or not a:
            _fail("library (%s)" % group, logp)
        with open(done, "w") as f:
            f.write(a)
    with open(done) as f:
        return d + "/lib", f.read()


GROUP = {"kokkos": "asan", "kplain": "plain"}


def build(variant):
    """Build the library variant and its driver; returns the driver binary."""
    cm, flags, srcs, dflags, libs = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    libd, a = _build_lib(GROUP.get(variant, variant), cm, flags)
    key = _hash_inputs(LIB, ["drv", "stubs"], VARIANTS[variant], a)
    d = os.path.join(BUILD, variant + "-" + key)
    binp = os.path.join(d, "drv")
    if os.path.exists(binp):
        return binp
    for old in glob.glob(os.path.join(BUILD, variant + "-*")):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d)
    logp = os.path.join(d, "build.log")
    with open(logp, "wb") as log:
        cxx = "mpicxx" if variant == "mpi" else "g++"
        procs, objs, rc = [], [], 0
        for s in srcs:
            o = os.path.join(d, s + ".o")
            objs.append(o)
            procs.append(subprocess.Popen([cxx, "-std=c++14"] + flags.split() + dflags +
                                          ["-I" + REPO + "/include", "-I" + libd, "-c",
                                           os.path.join(LIB, "drv", s), "-o", o],
                                          stdout=log, stderr=subprocess.STDOUT))
        for p in procs:
            rc = p.wait() or rc
        rc = rc or _sh([cxx] + flags.split() + ["-rdynamic", "-o", binp + ".tmp"] + objs + [a] + libs + ["-ldl", "-lpthread"], log)
        if rc == 0:
            os.rename(binp + ".tmp", binp)
    if rc != 0:
        _fail("driver " + variant, logp)
    return binp


def build_all(variants):
    groups = {}
    for v in variants:
        groups.setdefault(GROUP.get(v, v), []).append(v)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda vs: [(v, build(v)) for v in vs], groups.values()))
    return dict(x for r in rs for x in r)


# ------------------------------------------------------------------ scripts
def f32(x):
    """Round to float32."""
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def f32_next(x, up=True):
    if x == 0:
        return struct.unpack("f", struct.pack("I", 1))[0] * (1 if up else -1)
    i = struct.unpack("i", struct.pack("f", x))[0]
    i += 1 if (x > 0) == up else -1
    return struct.unpack("f", struct.pack("i", i))[0]


def esc(s):
    if s == "":
        return "-"
    r = "".join(c if (c.isalnum() or c in "_.,=/:+@()[]") else "%%%02x" % ord(c) for c in s)
    return r if r != "-" else "%2d"


def tok(t):
    if isinstance(t, bool):
        return "1" if t else "0"
    if isinstance(t, float):
        if math.isnan(t):
            return "nan"
        if math.isinf(t):
            return "inf" if t > 0 else "-inf"
        return t.hex()
    return str(t)


class Script:
    def __init__(self):
        self.lines = []

    def add(self, *toks):
        self.lines.append(" ".join(tok(t) for t in toks))
        return len(self.lines)

    def env(self, **kw):
        for k, v in kw.items():
            self.add("env", k, esc(str(v)))

    def region(self, h, nf, np_, name, mt=0, info="", yaml=""):
        return self.add("region", h, nf, np_, mt, esc(name), esc(info), esc(yaml))

    def x(self, h, metric, feats):
        return self.add("x", h, float(metric), *feats)

    def query(self, h, vecs, cmd="q"):
        n = len(vecs[0]) if vecs else 0
        return self.add(cmd, h, len(vecs), n, *[f for v in vecs for f in v])

    def queryx(self, h, vecs, metric=1.0):
        """Like query, through whole executions of the region."""
        n = len(vecs[0]) if vecs else 0
        return self.add("qx", h, len(vecs), n, float(metric), *[f for v in vecs for f in v])

    def text(self):
        return "\n".join(self.lines) + "\n"


class Res:
    """Outcome of one driver process."""

    def __init__(self, rc, lines, stderr, timeout, nlines):
        self.rc, self.raw, self.stderr, self.timeout = rc, lines, stderr, timeout
        self.out = {}
        self.done = False
        self.events = 0
        for l in lines:
            a, _, b = l.partition(" ")
            if a == "0":
                if b == "done":
                    self.done = True
                continue
            self.events += 1
            try:
                self.out[int(a)] = b
            except ValueError:
                pass

    @property
    def sanitizer(self):
        return (self.rc == 77 or "AddressSanitizer" in self.stderr or "runtime error:" in self.stderr
                or self.rc == -11 or bool(re.search(r"/c\+\+/\d+/[^\n]*Assertion '", self.stderr)))

    @property
    def clean(self):
        return self.done and self.rc == 0 and not self.sanitizer

    @property
    def excs(self):
        return [(k, v) for k, v in self.out.items() if v.startswith("exc ")]

    def problem(self):
        """Description of an abnormal ending, or None for a conforming run."""
        if self.timeout:
            return "hang: no end after repeated runs"
        if self.sanitizer:
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|[^\n]*/c\+\+/\d+/[^\n]*Assertion '[^\n]*)", self.stderr)
            return "sanitizer report: " + (m.group(1) if m else "rc %s" % self.rc)
        if not self.done or self.rc != 0:
            t = [l for l in self.stderr.splitlines() if l.strip() and not l.startswith("==")]
            return "abnormal end rc=%s after %d responses: %s" % (self.rc, self.events, " / ".join(t[-3:])[:300])
        if self.excs:
            return "unexpected exception at line %d: %s" % (self.excs[0][0], self.excs[0][1][4:200])
        return None

    def ints(self, ln):
        v = self.out.get(ln)
        if v is None:
            raise Mismatch("no response to line %d" % ln)
        return [int(t) for t in v.split()[1:]]

    def p(self, ln):
        v = self.out.get(ln, "")
        if not v.startswith("p "):
            raise Mismatch("no selection at line %d: %r" % (ln, v))
        return int(v[2:])

    def t(self, ln):
        return self.out.get(ln) == "t 1"

    def ds(self, ln):
        """Dataset dump -> {(features tuple, policy): metric}; checks sizes and uniqueness."""
        v = self.out.get(ln, "")
        if not v.startswith("ds "):
            raise Mismatch("no dataset at line %d: %r" % (ln, v[:80]))
        parts = v.split(" | ")
        n1, n2 = [int(t) for t in parts[0].split()[1:]]
        d = {}
        for e in parts[1:]:
            t = e.split()
            k = (tuple(float.fromhex(z) for z in t[2:]), int(t[0]))
            if k in d:
                raise Mismatch("duplicate dataset entry %r" % (k,))
            d[k] = float.fromhex(t[1])
        if not (n1 == n2 == len(d)):
            raise Mismatch("dataset size %d but %d entries" % (n1, len(d)))
        return d


class Mismatch(Exception):
    """The observed history refutes the property."""


BASE_ENV = {
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/tmp", "LC_ALL": "C",
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:hard_rss_limit_mb=3000:allocator_may_return_null=0"
                    ":detect_stack_use_after_return=1:strict_string_checks=0:check_initialization_order=0"
                    ":log_path=stderr:detect_odr_violation=0",
    "UBSAN_OPTIONS": "exitcode=77:print_stacktrace=1:abort_on_error=0",
}
MPI_ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_pml": "ob1", "OMPI_MCA_plm": "isolated", "OMPI_MCA_oob_tcp_if_include": "lo",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
}


def _exec(cmd, cwd, env, timeout):
    errp = os.path.join(cwd, ".stderr")
    with open(errp, "wb") as err:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=err, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            to = True
            rc = -9
        finally:
            with contextlib.suppress(ProcessLookupError, PermissionError):
                os.killpg(p.pid, 9)
            p.wait()
    with open(errp, "rb") as f:
        data = f.read()
    if len(data) > 60000:
        data = data[:30000] + data[-30000:]
    os.unlink(errp)
    return rc, to, data.decode("utf-8", "replace")


def _readlines(p):
    try:
        with open(p, "r", errors="replace") as f:
            return f.read().split("\n")[:-1]
    except OSError:
        return []


def run_script(binp, script, cwd, env=None, timeout=60, wrap=None, keep=False):
    """Run one driver process on a script (in cwd); hangs are retried once."""
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    sp, op = os.path.join(cwd, ".script"), os.path.join(cwd, ".out")
    with open(sp, "w") as f:
        f.write(script.text())
    if os.path.exists(op):
        os.unlink(op)
    rc, to, err = _exec((wrap or []) + [binp, sp, op], cwd, e, timeout)
    lines = _readlines(op)
    os.unlink(sp)
    if os.path.exists(op):
        os.unlink(op)
    return Res(rc, lines, err, to, len(script.lines))


def run_mpi(binp, scripts, cwd, env=None, timeout=120):
    e = dict(BASE_ENV)
    e.update(MPI_ENV)
    e["TMPDIR"] = cwd
    e["OMPI_MCA_orte_tmpdir_base"] = cwd
    if env:
        e.update(env)
    sp, op = os.path.join(cwd, ".script"), os.path.join(cwd, ".out")
    for r, s in enumerate(scripts):
        with open("%s.%d" % (sp, r), "w") as f:
            f.write(s.text())
        if os.path.exists("%s.%d" % (op, r)):
            os.unlink("%s.%d" % (op, r))
    rc, to, err = _exec(["mpirun", "--oversubscribe", "-np", str(len(scripts)), binp, sp, op], cwd, e, timeout)
    return [Res(rc, _readlines("%s.%d" % (op, r)), err, to, len(s.lines)) for r, s in enumerate(scripts)]


# ------------------------------------------------------------------ checks
class Env:
    """What a property's case runner gets."""

    def __init__(self, bins, base, tier):
        self.bin, self.base, self.tier = bins, base, tier

    @contextlib.contextmanager
    def scratch(self):
        d = tempfile.mkdtemp(dir=self.base)
        try:
            yield d
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def go(self, script, cwd, variant="asan", **kw):
        r = run_script(self.bin[variant], script, cwd, **kw)
        if r.timeout:
            raise Hang(script)
        return r

    def mpi(self, scripts, cwd, **kw):
        rs = run_mpi(self.bin["mpi"], scripts, cwd, **kw)
        if any(r.timeout for r in rs):
            raise Hang(scripts)
        return rs


class Hang(Exception):
    pass


class Obs:
    """What one case observed."""

    def __init__(self):
        self.viol, self.events, self.sig, self.note, self.counters = [], 0, None, None, {}

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def bad(self, msg, key=None):
        self.viol.append((msg, key))

    def conform(self, res, what=""):
        """Record an abnormal end as a violation; True when the run conformed."""
        self.events += res.events
        p = res.problem()
        if p:
            self.bad((what + ": " if what else "") + p)
            return False
        return True


_W = {}


def _init_worker(mod, bins, base, tier):
    _W["mod"], _W["env"] = mod, Env(bins, base, tier)


def _work(case):
    mod, env = _W["mod"], _W["env"]
    for attempt in (0, 1):
        obs = Obs()
        try:
            mod.run(copy.deepcopy(case), env, obs)
            return case, obs, None
        except Mismatch as e:
            obs.bad(str(e))
            return case, obs, None
        except Hang:
            if attempt == 1:
                obs.bad("hang: the run did not end within its time limit, twice")
                return case, obs, None
        except Exception:
            return case, obs, traceback.format_exc()


def load_known():
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' suppresses that key only."""
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main(mod, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = mod.PROP
    rep = os.path.join(VERIF, "replay")
    try:
        bins = build_all(mod.VARIANTS)
    except (HarnessError, OSError, subprocess.TimeoutExpired) as e:
        print("HARNESS-ERROR", e)
        return 2
    t_build = time.time() - t0
    base = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    try:
        if len(argv) > 1 and argv[0] == "--replay":
            with open(argv[1]) as f:
                cases = [json.load(f)["case"]]
        else:
            rng = random.Random("%s/%d/%s" % (prop, seed, tier))
            cases = list(mod.cases(rng, tier))
        tot = Obs()
        sigs, samples, viols, errors = set(), [], [], []
        with multiprocessing.Pool(getattr(mod, "PROCS", NPROC), _init_worker, (mod, bins, base, tier)) as pool:
            for case, obs, err in pool.imap_unordered(_work, cases):
                if err:
                    errors.append((case, err))
                    continue
                tot.events += obs.events
                for k, v in obs.counters.items():
                    tot.count(k, v)
                if obs.sig is not None:
                    sigs.add(obs.sig)
                    if len(samples) < 3:
                        samples.append({"case": _short(case), "observed": obs.note or obs.counters or obs.events})
                if obs.viol:
                    viols.append((case, obs.viol))
    finally:
        shutil.rmtree(base, ignore_errors=True)
        if hasattr(mod, "cleanup"):
            mod.cleanup()
    known = load_known()
    new, seen_known = [], set()
    for case, vs in viols:
        vs2 = []
        for msg, key in vs:
            if key and (prop, key) in known:
                seen_known.add(key)
            else:
                vs2.append((msg, key))
        if vs2:
            new.append((case, vs2))
    for key in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, key)]))
    if len(argv) < 2:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL if hasattr(mod, "LEVEL") else "exploration",
              "coverage": {"evaluations": len(cases), "distinct_nontrivial": len(sigs), "rule": mod.RULE,
                           "samples": samples, "events_observed": tot.events,
                           "observed": dict(sorted(tot.counters.items())), "variants": mod.VARIANTS,
                           "build_s": round(t_build, 1)},
              "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(time.time() - t0, 1),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if new:
        os.makedirs(rep, exist_ok=True)
        new.sort(key=lambda cv: len(json.dumps(cv[0])))
        for i, (case, vs) in enumerate(new[:3]):
            path = os.path.join(rep, "%s-%s.json" % (prop, hashlib.sha1(json.dumps(case).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": prop, "case": case, "messages": [m for m, _ in vs]}, f)
            print("  " + "\n  ".join(m[:600] for m, _ in vs[:4]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%s: %d of %d cases violated the property" % (prop, len(new), len(cases)))
        return 1
    if errors:
        print("HARNESS-ERROR in %d cases; first:\n%s\ncase %s" % (len(errors), errors[0][1], json.dumps(errors[0][0])[:1000]))
        return 2
    if len(argv) < 2 and len(sigs) < getattr(mod, "MIN_SIGS", 2):
        print("HARNESS-ERROR: too little observed (%d distinct)" % len(sigs))
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial, %d events) in %.1fs (build %.1fs)" %
          (prop, tier, len(cases), len(sigs), tot.events, time.time() - t0, t_build))
    print("  observed: " + ", ".join("%s=%s" % kv for kv in sorted(tot.counters.items())))
    return 0


def _short(case, n=1500):
    s = json.dumps(case)
    return case if len(s) <= n else s[:n] + "..."


def sig(*parts):
    return hashlib.sha1(repr(parts).encode()).hexdigest()[:16]
