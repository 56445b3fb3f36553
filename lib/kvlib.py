"""Common machinery of the checks: building drivers from /repo, running TLC, reporting.

Only exit codes used by a check: 0 (held), 1 (VIOLATION line printed).  Anything
else is an error of the check (raised as CheckError -> exit 2).
"""
import atexit, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KNP_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")


def _writable(d):
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
        return True
    except OSError:
        return False


CACHE = os.path.join(VERIF, ".cache")
if not _writable(CACHE):
    CACHE = os.path.join("/tmp", "verif-cache")
    os.makedirs(CACHE, exist_ok=True)

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"


class CheckError(Exception):
    pass


# --------------------------------------------------------------------------- build
K = REPO + "/knp/"
INCLUDES = [K + d for d in (
    "core-library/include", "core-library/impl", "neuron-traits-library/include", "meta-library/include",
    "synapse-traits-library/include", "backends/cpu/cpu-devices/include", "backends/cpu/cpu-library/include",
    "backends/cpu/cpu-library/impl", "backends/cpu/cpu-single-threaded-backend/include",
    "backends/cpu/cpu-multi-threaded-backend/include", "backends/cpu/thread_pool/include",
    "base-framework/include", "base-framework/impl")] + ["/opt/vp/knp-cmake/deps/rapidjson/include"]
DEFS = ["-DFMT_SHARED", "-DKNP_FULL_LIBRARY_NAME=libknp-core", "-DKNP_LIBRARY_NAME=knp-core",
        "-DKNP_LIBRARY_NAME_PREFIX=lib", "-DSPDLOG_ACTIVE_LEVEL=0", "-DSPDLOG_FMT_EXTERNAL", "-D_KNP_INTERNAL",
        "-DNDEBUG"]


def group_sources(group):
    g = lambda p: sorted(glob.glob(K + p, recursive=True))
    if group == "core":
        return g("core-library/impl/**/*.cpp")
    if group == "pool":
        return g("backends/cpu/thread_pool/impl/**/*.cpp")
    if group == "devices":
        return [f for f in g("backends/cpu/cpu-devices/impl/**/*.cpp") if "x86" not in os.path.basename(f)]
    if group == "cpulib":
        return g("backends/cpu/cpu-library/impl/**/*.cpp")
    if group == "st":
        return g("backends/cpu/cpu-single-threaded-backend/impl/**/*.cpp")
    if group == "mt":
        return g("backends/cpu/cpu-multi-threaded-backend/impl/**/*.cpp")
    if group == "loader":
        return g("base-framework/impl/backend_loader.cpp")
    if group == "vis":
        return g("base-framework/impl/visualizer/*.cpp")
    if group == "fw":
        return [f for f in g("base-framework/impl/**/*.cpp")
                if "/sonata/" not in f and "/storage/" not in f and "/visualizer/" not in f
                and os.path.basename(f) not in ("backend_loader.cpp",)]
    raise CheckError("unknown source group " + group)


def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def gen_fbs():
    """Flatbuffers headers generated from the current .fbs files."""
    src = sorted(glob.glob(K + "core-library/impl/messaging/fbs/*.fbs"))
    h = hashlib.sha256()
    for f in src:
        h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read())
    d = os.path.join(CACHE, "fbs-" + h.hexdigest()[:16])
    out = os.path.join(d, "knp_gen_headers")
    if not os.path.exists(os.path.join(d, "ok")):
        os.makedirs(out, exist_ok=True)
        for f in src:
            r = _sh(["flatc", "--cpp", "-o", out, f])
            if r.returncode:
                raise CheckError("flatc failed: " + r.stdout)
        open(os.path.join(d, "ok"), "w").close()
    return d


def build(name, drivers, groups=("core",), defs=(), flags=("-O1",), libs=(), cxx="g++", exclude=(), instrument=(), asan=(), shared=False):
    """Compile the drivers (files of /verif/harness) with the given groups of /repo sources."""
    t0 = time.time()
    fbs = gen_fbs()
    flagset = list(flags) + ["-std=c++17", "-g0", "-fPIC", "-w", "-pthread"] + DEFS + list(defs)
    inc = ["-I" + i for i in INCLUDES] + ["-I" + fbs, "-I" + HARNESS]
    srcs = [os.path.join(HARNESS, d) for d in drivers]
    for g in groups:
        srcs += [s for s in group_sources(g) if os.path.basename(s) not in exclude]
    tag = hashlib.sha256((cxx + " ".join(flagset) + REPO).encode()).hexdigest()[:10]
    objd = os.path.join(CACHE, "obj-" + tag)
    os.makedirs(objd, exist_ok=True)
    env = dict(os.environ)
    env.update(CCACHE_DIR=os.path.join(CACHE, "ccache"), CCACHE_MAXSIZE="3G", CCACHE_NOHASHDIR="1",
               CCACHE_SLOPPINESS="time_macros", LC_ALL="C")
    cc = (["ccache"] if shutil.which("ccache") else []) + [cxx]

    def one(s):
        # code compiled as for the thread sanitizer calls the stubs of csched.cpp at every memory access
        ins = ["-fsanitize=thread"] if os.path.basename(s) in instrument or instrument == "all" and os.path.basename(s) != "csched.cpp" else []
        ins += ["-fsanitize=address"] if os.path.basename(s) in asan else []
        o = os.path.join(objd, hashlib.sha256(s.encode()).hexdigest()[:16] + "-%d.o" % os.getpid())
        r = _sh(cc + flagset + ins + inc + ["-c", s, "-o", o], env=env)
        return s, o, r

    objs = []
    # longest first is a good schedule: the drivers are the biggest translation units
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for s, o, r in ex.map(one, srcs):
            if r.returncode:
                raise CheckError("compilation of %s failed:\n%s" % (s, r.stdout[-4000:]))
            objs.append(o)
    bind = os.path.join(CACHE, "bin")
    os.makedirs(bind, exist_ok=True)
    exe = os.path.join(bind, "%s-%d%s" % (name, os.getpid(), ".so" if shared else ""))
    r = _sh([cxx, "-pthread"] + (["-shared"] if shared else []) + (["-fsanitize=address"] if asan else []) + [f for f in flags if f.startswith("-fsanitize")] + ["-o", exe] + objs +
            ["-lfmt", "-lzmq", "-lflatbuffers", "-lpthread", "-ldl"] + ([] if shared else ["-Wl,--allow-multiple-definition"]) + list(libs))
    for o in objs:
        os.unlink(o)
    if r.returncode:
        raise CheckError("link failed:\n" + r.stdout[-4000:])
    atexit.register(lambda: os.path.exists(exe) and os.unlink(exe))
    log("built %s in %.1f s" % (name, time.time() - t0))
    return exe


PYDIRS = ("core", "neuron_traits", "synapse_traits", "base_framework")
PY_SO = "/usr/lib/x86_64-linux-gnu/libboost_python312.so"


def build_python(helpers=("kvpy.cpp", "kvpy_bus.cpp")):
    """The Python package (four modules and the Python sources) from the current tree, and the helper module of the harness.

    Returns the directory to put on PYTHONPATH. Layout and linking follow the project: the core library is linked statically into
    the modules that use it, the framework is a library of its own."""
    t0 = time.time()
    d = os.path.join(CACHE, "bin", "py-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    fbs = gen_fbs()
    env = dict(os.environ)
    env.update(CCACHE_DIR=os.path.join(CACHE, "ccache"), CCACHE_MAXSIZE="3G", CCACHE_NOHASHDIR="1", CCACHE_SLOPPINESS="time_macros", LC_ALL="C")
    base = ["-O1", "-std=c++17", "-g0", "-fPIC", "-w", "-pthread"]
    inc = ["-I" + i for i in INCLUDES] + ["-I" + fbs, "-I" + HARNESS]
    pyflags = ["-DBOOST_PYTHON_DYN_LINK", "-DBOOST_PYTHON_NO_LIB", "-DPy_NO_ENABLE_SHARED", "-D_KNP_BUILD_SHARED_LIBS"]
    cc = (["ccache"] if shutil.which("ccache") else []) + ["g++"]
    jobs = []       # (set, source, flags)
    PF = K + "python-framework/"
    for m in PYDIRS:
        name = "_knp_python_framework_" + m
        defs = ["-DFMT_SHARED", "-DKNP_FULL_LIBRARY_NAME=" + name, "-DKNP_LIBRARY_NAME=" + name[1:], "-DKNP_LIBRARY_NAME_PREFIX=_",
                "-DSPDLOG_ACTIVE_LEVEL=0", "-DSPDLOG_FMT_EXTERNAL", "-D_KNP_INTERNAL", "-DNDEBUG"]
        jobs += [(m, f, base + defs + pyflags + ["-I" + PF + "include", "-isystem", "/usr/include/python3.12"])
                 for f in sorted(glob.glob(PF + "impl/%s/cpp/*.cpp" % m)) if os.path.basename(f) != "network_io.cpp"]
    jobs += [("kvpy", os.path.join(HARNESS, h), base + DEFS + pyflags + ["-isystem", "/usr/include/python3.12"]) for h in helpers]
    jobs.append(("base_framework", os.path.join(HARNESS, "no_network_io.cpp"), base))
    for g, t in (("core", "CORE"), ("fw", "FW"), ("loader", "FW"), ("devices", "CPU"), ("cpulib", "CPU"), ("pool", "CPU"), ("st", "st"), ("mt", "mt")):
        jobs += [(t, f, base + DEFS) for f in group_sources(g)]

    def one(j):
        t, s, fl = j
        o = os.path.join(d, hashlib.sha256((t + s).encode()).hexdigest()[:16] + ".o")
        return t, s, o, _sh(cc + fl + inc + ["-c", s, "-o", o], env=env)

    objs = {}
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for t, s, o, r in ex.map(one, jobs):
            if r.returncode:
                raise CheckError("compilation of %s failed:\n%s" % (s, r.stdout[-4000:]))
            objs.setdefault(t, []).append(o)
    ll = ["-lfmt", "-lzmq", "-lflatbuffers", "-lpthread", "-ldl", "-lboost_filesystem"]

    def link(out, o, extra):
        r = _sh(["g++", "-shared", "-pthread", "-o", out] + o + extra + ll)
        if r.returncode:
            raise CheckError("link failed:\n" + r.stdout[-4000:])

    fw = os.path.join(d, "libkvfw.so")
    core = os.path.join(d, "libcore.a")
    _sh(["ar", "rcs", core] + objs["CORE"])
    link(fw, objs["FW"], [core, "-Wl,-soname,libkvfw.so"])
    for m in PYDIRS + ("kvpy",):
        out = os.path.join(d, "kvpy.so") if m == "kvpy" else os.path.join(d, "knp", m, "_knp_python_framework_%s.so" % m)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        x = ["-Wl,-rpath," + d, PY_SO]
        if m in ("core", "base_framework", "kvpy"):
            x += [core, fw, core]
        if m == "kvpy":
            x.append("-Wl,--allow-multiple-definition")
        link(out, objs[m], x)
        for f in glob.glob(PF + "impl/%s/python/*.py" % m):
            shutil.copy(f, os.path.dirname(out))
    cpu = os.path.join(d, "libcpu.a")
    _sh(["ar", "rcs", cpu] + objs["CPU"])
    for b in ("st", "mt"):
        link(os.path.join(d, b + ".so"), objs[b], [cpu, core])
    for f in glob.glob(PF + "packaging/python/*.py"):
        shutil.copy(f, os.path.join(d, "knp"))
    for f in glob.glob(d + "/*.o"):
        os.unlink(f)
    log("built the Python package in %.1f s" % (time.time() - t0))
    return d


def py_exe(pkg, script, work):
    """A program running a Python driver of the harness with the package."""
    p = os.path.join(work, "py-" + os.path.basename(script))
    with open(p, "w") as f:
        f.write("#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s exec /usr/bin/python3 -X faulthandler %s \"$@\"\n" % (pkg, os.path.join(HARNESS, script)))
    os.chmod(p, 0o755)
    return p


# the drivers: name -> (name, harness files, source groups)
BUILDS = {
    "bus": ("bus", ["bus_driver.cpp"], ["core"]),
    "net": ("net", ["net_driver.cpp"], ["core", "fw"]),
    "cont": ("cont", ["cont_driver.cpp"], ["core"]),
    "msg": ("msg", ["msg_driver.cpp"], ["core"]),
    "backend": ("backend", ["backend_driver.cpp"], ["core", "devices", "cpulib", "pool", "st", "mt"]),
    "pool": ("pool", ["pool_driver.cpp", "csched.cpp"], ["pool"], {"instrument": "all"}),
    "busmt": ("busmt", ["busmt_driver.cpp", "csched.cpp"], ["core"], {"instrument": "all"}),
    "enginesched": ("enginesched", ["engine_driver.cpp", "csched.cpp"], ["core", "devices", "cpulib", "pool", "st", "mt"],
                    {"instrument": "all", "defs": ("-DKVH_SCHED",)}),
    "engine": ("engine", ["engine_driver.cpp"], ["core", "devices", "cpulib", "pool", "st", "mt"]),
    "io": ("io", ["io_driver.cpp"], ["core", "fw"], {"asan": ("io_driver.cpp", "message_handlers.cpp", "input_converter.cpp")}),
    "lib": ("lib", ["lib_driver.cpp"], ["core", "fw"], {"asan": ("lib_driver.cpp", "dataset.cpp", "image.cpp", "processor.cpp", "executor.cpp", "connectivity.cpp")}),
    "loader": ("loader", ["loader_driver.cpp"], ["core", "fw", "loader"], {"libs": ("-lboost_filesystem",)}),
    "hold": ("hold", ["hold_driver.cpp"], ["core", "devices", "cpulib", "pool", "st", "mt"]),
    "stso": ("stso", [], ["core", "devices", "cpulib", "pool", "st"], {"shared": True}),
    "mtso": ("mtso", [], ["core", "devices", "cpulib", "pool", "mt"], {"shared": True}),
    "ident": ("ident", ["ident_driver.cpp"], ["core", "devices", "cpulib", "pool", "st", "mt", "fw"]),
    "vis": ("vis", ["vis_driver.cpp"], ["core", "fw", "vis"], {"flags": ("-O1", "-I/usr/include/opencv4"), "libs": ("-lopencv_imgproc", "-lopencv_highgui", "-lopencv_core")}),
    "model": ("model", ["model_driver.cpp"], ["core", "devices", "cpulib", "pool", "st", "mt", "fw"]),
}


def driver(name, **kw):
    n, d, g = BUILDS[name][:3]
    kw = dict(*BUILDS[name][3:4], **kw)
    return build(n, d, g, **kw)


def log(*a):
    print("[%7.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()

# --------------------------------------------------------------------------- TLC
JAR = None


def _jar():
    global JAR
    if JAR is None:
        c = ["/opt/veriftools/tla/tla2tools.jar"]
        JAR = [x for x in c if os.path.exists(x)][0]
        m = glob.glob("/opt/veriftools/tla/*ommunity*.jar")
        if m:
            JAR += ":" + m[0]
    return JAR


class TlcResult:
    pass


def tlc(module, cfg, env=None, workers="auto", args=(), timeout=600, heap="3g", simulate=None, workdir=None,
        deadlock=False):
    """Run TLC on specs/<module>.tla with the given cfg text (or file name). Returns TlcResult."""
    wd = workdir or os.path.join(CACHE, "tlc", "%s-%d-%d" % (module, os.getpid(), random.randrange(10 ** 9)))
    os.makedirs(wd, exist_ok=True)
    for f in glob.glob(SPECS + "/*.tla"):
        shutil.copy(f, wd)
    cfgp = os.path.join(wd, module + ".cfg")
    if "\n" in cfg or " " in cfg:
        open(cfgp, "w").write(cfg)
    else:
        shutil.copy(os.path.join(SPECS, cfg), cfgp)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.TLC.ide=verif", "-cp", _jar(), "tlc2.TLC", "-config",
           cfgp, "-workers", str(workers), "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate"] + simulate.split()
    cmd += list(args) + [os.path.join(wd, module + ".tla")]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout,
                           cwd=wd)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b""
        out = out.decode(errors="replace") if isinstance(out, bytes) else out
        rc = -9
    R = TlcResult()
    R.out, R.rc, R.wall = out, rc, time.time() - t0
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    R.states = int(m[-1][0].replace(",", "")) if m else 0
    R.distinct = int(m[-1][1].replace(",", "")) if m else 0
    m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
    R.depth = int(m[-1]) if m else 0
    R.ok = rc == 0 and "Error:" not in out
    R.violated = rc in (10, 11, 12, 13)
    shutil.rmtree(wd, ignore_errors=True)
    return R


def short(out, n=60):
    ls = [l for l in out.splitlines() if l.strip() and not re.match("Parsing file|Semantic processing", l)]
    return "\n".join(ls[-n:])


class Check:
    """One property check: collects coverage, reports violations, writes evidence."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier, self.seed = TIER, SEED
        self.rng = random.Random("%s-%d" % (pid, SEED))
        self.states = self.transitions = self.traces = 0
        self.events = 0
        self.samples, self.assumptions, self.violations = [], [], []
        self.extra = {}
        self.t0 = time.time()
        self.work = os.path.join(CACHE, "work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(VERIF, "replays", pid)
        self.known = load_known(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- design-level model checking
    def model(self, module, cfg, what, min_distinct=10, timeout=600, expect_ok=True, workers="auto", **kw):
        r = tlc(module, cfg, timeout=timeout, workers=workers, **kw)
        if not expect_ok:
            # a design known to be wrong: the specification must see it
            if "is violated" not in r.out:
                raise CheckError("model checking %s (%s) found no violation in a design known to be wrong:\n%s" % (module, what, short(r.out)))
            log("model %s [%s]: violated as expected" % (module, what))
            return r
        if not r.ok:
            raise CheckError("model checking %s (%s) did not succeed (rc %s):\n%s" % (module, what, r.rc, short(r.out)))
        if r.distinct < min_distinct:
            raise CheckError("%s: vacuous model: %d distinct states" % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.states
        self.extra.setdefault("models", []).append(
            {"module": module, "what": what, "distinct_states": r.distinct, "generated": r.states, "depth": r.depth,
             "wall_s": round(r.wall, 1)})
        log("model %s [%s]: %d distinct states, %.1f s" % (module, what, r.distinct, r.wall))
        return r

    # -- behaviours out of the specification
    def behaviours(self, module, cfg, simulate=None, timeout=300, marker="BEH", env=None, limit=None, workers=1, **kw):
        r = tlc(module, cfg, simulate=simulate, timeout=timeout, workers=workers, env=env, **kw)
        beh = []
        for l in r.out.splitlines():
            if marker in l:
                m = re.search(r'"%s (.*)"\s*$' % marker, l) or re.search(r'"%s", "(.*)">>' % marker, l)
                if m:
                    beh.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        if not beh or (simulate is None and not r.ok):
            raise CheckError("no behaviours from %s (rc %s):\n%s" % (module, r.rc, short(r.out)))
        if simulate is not None:    # TLC evaluates Emit on every candidate successor of the last step: keep one of them
            groups = {}
            for b in beh:
                groups.setdefault(json.dumps(b[:-1]), []).append(b)
            beh = [self.rng.choice(g) for g in groups.values()]
        if limit and len(beh) > limit:
            beh = self.rng.sample(beh, limit)
        self.states += r.distinct
        self.transitions += r.states
        self.extra.setdefault("generated_behaviours", []).append({"module": module, "count": len(beh), "simulate": simulate})
        log("behaviours from %s: %d (%.1f s)" % (module, len(beh), r.wall))
        return beh

    # -- running the real code
    def drive(self, exe, script_lines, name="run", timeout=300, env=None, args=()):
        sp = os.path.join(self.work, name + ".script")
        tp = os.path.join(self.work, name + ".ndjson")
        with open(sp, "w") as f:
            f.write("\n".join(script_lines) + "\n")
        if os.path.exists(tp):
            os.unlink(tp)
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run([exe, sp, tp] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               env=e)
            rc, err = r.returncode, r.stderr.decode(errors="replace")[-2000:]
        except subprocess.TimeoutExpired:
            rc, err = "timeout after %d s" % timeout, ""
        n = 0
        if os.path.exists(tp):
            with open(tp, "rb") as f:
                data = f.read()
            if data and not data.endswith(b"\n"):   # a truncated last line
                data = data[:data.rfind(b"\n") + 1]
                open(tp, "wb").write(data)
            n = data.count(b"\n")
        return rc, err, tp, n

    # -- conformance: a recorded trace against the specification
    def trace(self, module, cfg, tp, n, what, env=None, timeout=600, heap="4g", dfs=False):
        """True if accepted; otherwise the 1-based number of the first line not explained."""
        if n == 0:
            raise CheckError("empty trace for " + module)
        e = {"TRACE": tp}
        e.update(env or {})
        if dfs:
            e["JAVA_TOOL_OPTIONS"] = "-Dtlc2.tool.queue.IStateQueue=StateDeque"
        r = tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap)
        m = re.search(r'"?MATCHED"?,? (\d+)', r.out)
        if not m:
            raise CheckError("trace validation with %s gave no verdict (rc %s):\n%s" % (module, r.rc, short(r.out)))
        k = int(m.group(1))
        self.states += r.distinct
        self.transitions += r.states
        inv = re.search(r"Invariant (\w+) is violated", r.out)
        if k >= n and not inv:
            if not r.ok:
                raise CheckError("trace validation with %s ended oddly (rc %s):\n%s" % (module, r.rc, short(r.out)))
            self.events += n
            log("trace %s [%s]: %d events accepted, %.1f s" % (module, what, n, r.wall))
            return True, n, None
        log("trace %s [%s]: matched %d of %d events" % (module, what, k, n))
        return False, k + 1, inv.group(1) if inv else None

    def violation(self, text, replay_files=(), key=None):
        """Report a violation; replay_files are copied next to a README."""
        if key and key in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]), flush=True)
            return
        d = os.path.join(self.replays, "v%d" % (len(self.violations) + 1))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        for f in replay_files:
            if f and os.path.exists(f):
                shutil.copy(f, d)
        with open(os.path.join(d, "README.txt"), "w") as f:
            f.write("property %s\n%s\n" % (self.pid, text))
        self.violations.append(text)
        print(text, file=sys.stderr)
        print("VIOLATION property=%s replay=%s" % (self.pid, d), flush=True)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "trace_events": self.events, "samples": self.samples[:5]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        log("%s: %s, %d traces, %d events" % (self.pid, "VIOLATED" if self.violations else "held", self.traces, self.events))
        return 1 if self.violations else 0


def load_known(pid):
    """known_findings.txt: 'finding: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


# --------------------------------------------------------------------------- episodes
def conform(chk, exe, module, cfg, episodes, what, header=None, env=None, tenv=None, timeout=300, chunk=400,
            tlc_timeout=600, max_viol=3, parallel=4, drvargs=(), classify=None):
    """Run each episode (list of script lines) through the real code, validate the traces with TLC.

    Every episode's script starts with a line the driver answers with a 'reset' event, so a chunk of episodes is
    one driver run and one TLC run.  A rejected episode is re-run alone, twice, before it is reported.
    """
    if chk.tier == "quick":
        timeout = min(timeout, 150)
    chunks = [episodes[i:i + chunk] for i in range(0, len(episodes), chunk)]

    def run(idx_eps):
        idx, eps = idx_eps
        bad = []
        rest = list(eps)
        rounds = 0
        while rest and rounds < 4:
            rounds += 1
            lines = [l for e in rest for l in e]
            rc, err, tp, n = chk.drive(exe, lines, "%s-%d" % (what.replace(" ", "_").replace("/", "_"), idx), timeout=timeout, env=env,
                                       args=drvargs)
            starts = [i for i, l in enumerate(lines) if l.startswith("new")]
            full = n == len(lines) and rc == 0
            if n == 0:
                ok, k, inv = False, 1, None
            else:
                ok, k, inv = chk.trace(module, cfg, tp, n, what, env=tenv, timeout=tlc_timeout)
            if ok and full:
                break
            if ok and not full:
                k, inv = n + 1, None
            # the episode that contains line k
            cum, hit = 0, None
            for j, e in enumerate(rest):
                if cum < k <= cum + len(e):
                    hit = j
                    break
                cum += len(e)
            if hit is None and rc != 0 and k == len(lines) + 1:      # died while ending
                hit, cum = len(rest) - 1, len(lines) - len(rest[-1])
            if hit is None:
                raise CheckError("%s: trace/script mismatch: rc=%s lines=%d events=%d k=%d\n%s" %
                                 (what, rc, len(lines), n, k, err))
            e = rest[hit]
            bad.append((e, k - cum, rc, err, inv, [l for x in rest[:hit] for l in x]))
            rest = rest[hit + 1:]
            if str(rc).startswith("timeout"):
                break
        return bad, len(eps)

    badall = []
    with cf.ThreadPoolExecutor(max_workers=parallel) as ex:
        for bad, cnt in ex.map(run, list(enumerate(chunks))):
            chk.traces += cnt
            badall += bad
    seen_known = set()
    for n_, (e, k, rc, err, inv, prefix) in enumerate(badall):
        if len(chk.violations) >= max_viol or chk.violations and time.time() - T0 > 420:
            break
        # confirm: alone, twice
        again = []
        e0 = e
        for rep in range(4):
            if rep == 2:
                if len(again) >= 2 or not prefix:
                    break
                again, e = [], prefix + e0     # needs what ran before it in the same process
            rc2, err2, tp2, n2 = chk.drive(exe, e, "confirm%d" % n_, timeout=min(timeout, 40) if chk.tier == "quick" else timeout, env=env, args=drvargs)
            if rc2 != 0 or n2 != len(e):
                again.append("driver stopped (%s) after event %d of %d: next call %r %s" %
                             (rc2, n2, len(e), e[min(n2, len(e) - 1)], err2[-400:]))
                if n2:
                    ok2, k2, inv2 = chk.trace(module, cfg, tp2, n2, what + " confirm", env=tenv)
                    if not ok2:
                        again[-1] = "event %d (%r) is not allowed by the specification" % (k2, e[k2 - 1])
                continue
            ok2, k2, inv2 = chk.trace(module, cfg, tp2, n2, what + " confirm", env=tenv)
            if not ok2:
                again.append("event %d (%r) is not allowed by the specification%s" %
                             (k2, e[k2 - 1], " (invariant %s)" % inv2 if inv2 else ""))
        if len(again) < 2:
            # not reproduced in isolation: state carried over between episodes?  re-run the whole chunk is covered
            # by the first run; an unreproducible rejection is reported only if it repeats.
            log("rejection of an episode did not repeat in isolation; ignored as non-reproducible: %s" % (e[:1],))
            chk.extra["unreproduced_rejections"] = chk.extra.get("unreproduced_rejections", 0) + 1
            continue
        sp = os.path.join(chk.work, "episode%d.script" % n_)
        open(sp, "w").write("\n".join(e) + "\n")
        evs = open(tp2).read().splitlines() if os.path.exists(tp2) else []
        text = "[%s] %s\nscript:\n%s\n\nevents:\n%s" % (what, again[-1], "\n".join("  %3d %s" % (i + 1, l) for i, l in enumerate(e)),
                                                "\n".join("  %3d %s" % (i + 1, l) for i, l in enumerate(evs)))
        key = classify(e, k) if classify else None
        if key and key in chk.known:
            if key in seen_known:
                continue
            seen_known.add(key)
        chk.violation(text, [sp, tp2], key=key)
    return badall


def main(fn, pid):
    try:
        chk = Check(pid)
        fn(chk)
        sys.exit(chk.finish())
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e), file=sys.stderr)
        sys.exit(2)
