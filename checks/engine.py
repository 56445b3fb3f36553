"""E02-E05: networks run step by step on the real backends."""
import struct
from kvlib import *

MAXC = 2000000000
S = 4096


def bits(w):
    return struct.unpack("<i", struct.pack("<f", w))[0]


def fix(x):
    y = x * S
    assert y == int(y), x
    return int(y)


# documented defaults: name in the specification -> (name in the code, default, coded as)
F, I, B, C = "fix", "int", "bool", "code"
BLIFAT = {"n": ("n_time_steps_since_last_firing", None, C), "act": ("activation_threshold", 1.0, F),
          "add": ("additional_threshold", 0.0, F), "dyn": ("dynamic_threshold", 0.0, F), "tdec": ("threshold_decay", 0.0, F),
          "tinc": ("threshold_increment", 0.0, F), "tr": ("postsynaptic_trace", 0.0, F),
          "trdec": ("postsynaptic_trace_decay", 0.0, F), "trinc": ("postsynaptic_trace_increment", 0.0, F),
          "cond": ("inhibitory_conductance", 0.0, F), "cdec": ("inhibitory_conductance_decay", 0.0, F),
          "pot": ("potential", 0.0, F), "pdec": ("potential_decay", 0.0, F), "bph": ("bursting_phase", 0, I),
          "bper": ("bursting_period", 0, I), "refl": ("reflexive_weight", 0.0, F),
          "rev": ("reversal_inhibitory_potential", None, F), "refr": ("absolute_refractory_period", 0, I),
          "reset": ("potential_reset_value", 0.0, F), "min": ("min_potential", None, F),
          "blk": ("total_blocking_period", None, C), "dop": ("dopamine_value", 0.0, F)}
ALTAI = {"diff": ("is_diff", 0, B), "isreset": ("is_reset", 1, B), "leakrev": ("leak_rev", 1, B), "sat": ("saturate", 1, B),
         "nosave": ("do_not_save", 0, B), "pot": ("potential", 0.0, F), "act": ("activation_threshold", 1, F),
         "nact": ("negative_activation_threshold", None, F), "leak": ("potential_leak", 0, F),
         "reset": ("potential_reset_value", 0, F), "dop": ("dopamine_value", 0.0, F), "add": ("additional_threshold", 0.0, F),
         "at": ("activity_time", 0, C)}
LIF = {"pot": ("potential", 0.0, F), "reset": ("potential_reset_value", 0.0, F), "act": ("activation_threshold", 1.0, F),
       "leak": ("leak_coefficient", 1.0, F), "rc": ("refract_counter", 0, I), "rp": ("refract_period", 0, I)}
TABLES = {"blifat": BLIFAT, "srblifat": BLIFAT, "altai": ALTAI, "sraltai": ALTAI, "lif": LIF}
# where the documented default is not a number of the specification: always set explicitly
MUST = {"rev": -0.25, "min": -500.0, "nact": 1500}
SPECIAL = {"n": MAXC, "blk": MAXC}


def neuron(kind, given, extra=None):
    """(driver object, specification object) of a neuron with the given parameters, documented defaults elsewhere."""
    drv, spec = dict(extra or {}), {}
    for k, (name, dflt, how) in TABLES[kind].items():
        v = given.get(k)
        if v is None and k in MUST:
            v = MUST[k]
        if v is None:
            spec[k] = SPECIAL[k] if k in SPECIAL else (fix(dflt) if how == F else bool(dflt) if how == B else dflt)
            continue
        drv[name] = v
        spec[k] = fix(v) if how == F else bool(v) if how == B else v
    spec["pre"] = spec["pot"]
    if kind.startswith("sr"):
        spec["forced"] = False
    return drv, spec


class Net:
    def __init__(self, rng):
        self.rng, self.pops, self.projs = rng, [], []

    def pop(self, pid, kind, neurons, extra=None):
        self.pops.append((pid, kind, [neuron(kind, n, extra(i) if callable(extra) else extra) for i, n in enumerate(neurons)], neurons))

    def proj(self, pid, kind, pre, post, syn, chans=(), locked=1, stdp=None, par=None):
        """syn: list of (source, target, weight, delay, type)"""
        self.projs.append(dict(id=pid, kind=kind, pre=pre, post=post, syn=syn, chans=list(chans), locked=locked, stdp=stdp or {},
                               par=par or (lambda i: {})))

    def line(self, mt=0, threads=0, pp=1000, jp=1000, learn=False, salt=None, sched=0):
        d = {"salt": salt or self.rng.randrange(1, 10 ** 9), "mt": mt, "threads": threads, "pp": pp, "jp": jp, "pops": [], "projs": []}
        s = {"pops": [], "projs": [], "w": []}
        if learn:
            d["learn"] = 1
        if sched:
            d["sched"] = sched
        for pid, kind, ns, _ in self.pops:
            d["pops"].append({"id": pid, "kind": kind, "n": [a for a, b in ns]})
            s["pops"].append({"id": pid, "kind": kind, "n": [b for a, b in ns]})
        for p in self.projs:
            d["projs"].append({"id": p["id"], "kind": p["kind"], "pre": p["pre"], "post": p["post"], "locked": p["locked"],
                               "chans": p["chans"], "stdp": p["stdp"],
                               "syn": [dict({"s": a, "d": b, "weight": w, "delay": dl, "output_type": ty}, **p["par"](i))
                                       for i, (a, b, w, dl, ty) in enumerate(p["syn"])]})
            src = set(p["chans"]) | set(p["stdp"]) | ({p["pre"]} if p["pre"] else set())
            s["projs"].append({"id": p["id"], "kind": p["kind"], "pre": p["pre"], "post": p["post"], "locked": bool(p["locked"]),
                               "src": sorted(src), "only": sorted(k for k, v in p["stdp"].items() if v == 0),
                               "syn": [{"s": a, "d": b, "dl": dl, "ty": ty} for a, b, w, dl, ty in p["syn"]]})
            s["w"].append([[bits(w), fix(w) if w * S == int(w * S) else 1999999999] for a, b, w, dl, ty in p["syn"]])
        return "new %s\t%s" % (json.dumps(d, separators=(",", ":")), json.dumps(s, separators=(",", ":")))


def relay(kind, rng):
    """A neuron that fires when the impacts of a step reach its threshold, and forgets."""
    if kind in ("blifat", "srblifat"):
        return {"act": rng.choice([1.0, 1.0, 2.0, 3.0]), "pdec": rng.choice([0.0, 0.0, 1.0]), "n": rng.choice([None, None, 5, 0])}
    if kind in ("altai", "sraltai"):
        return {"act": rng.choice([1, 1, 2, 3]), "nosave": rng.choice([1, 1, 0])}
    return {"act": rng.choice([0.5, 0.5, 1.5]), "leak": rng.choice([0.0, 0.0, 1.0])}


ST_KINDS = ["blifat", "srblifat", "altai", "sraltai", "lif"]
MT_KINDS = ["blifat", "srblifat", "lif"]


def msgs(rng, chans, pre_sizes, load):
    """Input of one step: several messages, several spikes, repeated indexes, indexes nobody listens to."""
    r = []
    for c in chans:
        for _ in range(rng.choices([0, 1, 2, 3], [3, 5, 1, 1])[0]):
            k = rng.choice([0, 1, 1, 2, 3, load])
            r.append("%s=%s" % (c, ",".join(str(rng.randrange(pre_sizes[c] + (1 if rng.random() < .1 else 0))) for _ in range(k)) or "-"))
    rng.shuffle(r)
    return "|".join(r)


def topology(rng, kinds, steps, types=(0, 0, 0, 1), wild=False, neurons=relay, mt=False, sizes=(1, 1, 2, 3, 4, 6), forget=None):
    """A random network and its run: (Net, list of step lines)."""
    net = Net(rng)
    names = ["a", "b", "c", "d"][:rng.choice([1, 2, 2, 3, 4])]
    size = {}
    for p in names:
        k = rng.choice(kinds)
        size[p] = rng.choice(sizes)
        net.pop(p, k, [neurons(k, rng) for _ in range(size[p])])
    kind_of = {p[0]: p[1] for p in net.pops}
    chans = ["x", "y", "z"][:rng.choice([1, 1, 2, 3])]
    csz = {c: rng.choice([1, 2, 4]) for c in chans}
    blockv = rng.choice([-3, -2, -1, 1, 2, 4])
    maxdelay = rng.choice([1, 2, 3, 7])

    def synapses(n, ns, nd, post, kind):
        r = []
        for _ in range(n):
            tys = [t for t in types if accepts(kind_of.get(post, "blifat"), t)]
            ty = rng.choice(tys)
            w = float(rng.choice([1, 1, 2, 3])) if ty < 2 else (float(blockv) if ty == 4 else rng.choice([0.25, 0.5, 1.0, -0.5]))
            if wild and ty < 2:
                w = rng.choice([w, w / 2, w / 4, -w])
            r.append((rng.randrange(ns), rng.randrange(nd), w, rng.randint(1, maxdelay), ty))
            if rng.random() < .15:
                r.append(r[-1])         # a second, equal connection
        rng.shuffle(r)
        return r

    nj = 0
    for c in chans:     # input projections
        for _ in range(rng.choice([1, 1, 2])):
            nj += 1
            post = rng.choice(names)
            k = rng.choice(["delta", "delta", "sr"] + ([] if mt else ["add"]))
            cs = [c] if rng.random() < .7 else sorted(set([c, rng.choice(chans)]))
            net.proj("i%d" % nj, k, "", post, synapses(rng.choice([1, 3, 6]), max(csz[x] for x in cs), size[post], post, k), chans=cs)
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        nj += 1
        pre, post = rng.choice(names), rng.choice(names)
        k = rng.choice(["delta", "delta", "sr"] + ([] if mt else ["add"]))
        ch = [rng.choice(chans)] if rng.random() < .15 else []
        net.proj("p%d" % nj, k, pre, post, synapses(rng.choice([0, 1, 2, 4, 8]), size[pre], size[post], post, k), chans=ch)
    if rng.random() < .2:
        nj += 1
        net.proj("o%d" % nj, "delta", rng.choice(names), "", synapses(3, 1, 1, "", "delta"))   # leads nowhere
    rng.shuffle(net.projs)
    quietness = rng.choice([0.0, 0.3, 0.6])
    run = []
    for i in range(steps):
        run.append("step " + ("" if rng.random() < quietness else msgs(rng, chans, csz, 4)))
    run = [r if r.strip() != "step" else "step -" for r in run]
    return net, run


def far(rng, mt, longest):
    """A network with long delays, and its run: quiet stretches at once, the steps around an event one by one."""
    net = Net(rng)
    big = longest > 2000
    kinds = ["lif"] if big else ["blifat", "lif"] if mt else ["blifat", "lif", "altai"]
    fire = {"blifat": {"act": 1.0}, "lif": {"act": 0.5, "leak": 0.0}, "altai": {"act": 1, "nosave": 1}}
    size = {}
    for p in ["a", "b"]:
        k = rng.choice(kinds)
        size[p] = rng.choice([1, 2, 3])
        more = {} if big or k != "blifat" else rng.choice([{}, {"refr": rng.choice([3, 130, 300])}, {"blk": rng.choice([-2, 130, 300])}, {"n": rng.choice([0, 200])}])
        net.pop(p, k, [dict(fire[k], **more) for _ in range(size[p])])
    ds = lambda: rng.choice([1, 2, 127, 128, 129, 255, 256, 257, 300, 511, 512, longest, longest + 1, longest - 1])
    syn = lambda ns, nd, c: [(rng.randrange(ns), rng.randrange(nd), float(rng.choice([1, 2])), min(ds(), longest + 1), 0) for _ in range(c)]
    net.proj("i", rng.choice(["delta", "sr"]), "", "a", syn(2, size["a"], rng.choice([2, 3, 5])), chans=["x"])
    net.proj("p", rng.choice(["delta", "sr"]), "a", "b", syn(size["a"], size["b"], rng.choice([1, 2, 4])))
    run, t, busy = [], 0, set()
    ins = sorted(set([0] + [rng.choice([1, 2, 3, 200, 256, longest // 2, longest]) for _ in range(rng.choice([0, 1, 2]))]))
    for x in ins:       # an impact is on its way the step after it was sent; a neuron may fire then
        busy.add(x)
        for q in net.projs[0]["syn"]:
            d = x + q[3] - 1
            busy |= {d, d + 1}
            for r in net.projs[1]["syn"]:
                busy |= {d + r[3], d + 1 + r[3]}
    for x in sorted(busy):
        if x > t: run.append("calm %d" % (x - t))
        run.append("step " + ("x=%s" % rng.choice(["0", "1", "0,1"]) if x in ins else "-"))
        t = x + 1
    run.append("calm 5")
    return net, run


def accepts(kind, ty):
    return {"b": ty <= 4, "a": ty != 2, "l": ty <= 1}[kind.replace("sr", "")[0]]


TCFG = "SPECIFICATION Spec\nINVARIANT Free\nPOSTCONDITION Accepted\n"


# ------------------------------------------------------------- rich neurons
def pick(rng, d, p=.55):
    """A random subset of the parameters gets a random value, the others keep their documented default."""
    return {k: rng.choice(v) for k, v in d.items() if rng.random() < p}


def rich(kind, rng):
    if kind in ("blifat", "srblifat"):
        g = pick(rng, {"act": [.5, 1.0, 2.0, 3.0, -1.0, 0.0], "add": [0.5, 1.0, -0.5], "dyn": [0.5, 2.0], "tdec": [0.0, .5, 1.0],
                       "tinc": [.5, 1.0, 2.0], "tr": [1.0, 4.0], "trdec": [0.0, .5, 1.0], "trinc": [1.0, .5],
                       "cond": [.25, .5, 1.0, 2.0], "cdec": [0.0, .5, 1.0], "rev": [-.25, -1.0, .5, 0.0],
                       "pot": [1.0, -1.0, .5, 3.0], "pdec": [0.0, .5, 1.0, 1.0], "bph": [0, 1, 2], "bper": [0, 1, 1, 2, 3, 4],
                       "refl": [1.0, .5, -1.0, 2.0], "refr": [0, 1, 2, 3], "reset": [0.0, -1.0, .5], "min": [-500.0, -1.0, -.5, 0.0],
                       "dop": [1.0, -1.0]}, rng.choice([.15, .4, .7]))
        if rng.random() < .35:
            g["blk"] = rng.choice([-3, -2, -1, 0, 1, 2, 3, 5])
        if rng.random() < .4:
            g["n"] = rng.choice([0, 1, 2, 7])
        return g
    if kind in ("altai", "sraltai"):
        g = pick(rng, {"diff": [0, 1], "isreset": [0, 1], "leakrev": [0, 1], "sat": [0, 1], "nosave": [0, 0, 1],
                       "pot": [1.0, 1.5, -2.5, .5, -.5, 4.0, 2.25], "act": [0, 1, 2, 3, 5], "nact": [0, 1, 2, 3], "leak": [-2, -1, 1, 2],
                       "reset": [1, 2, 3], "dop": [1.0, -1.0], "add": [.5, 1.0, -1.0], "at": [-3, -2, -1, 1, 2, 5]}, rng.choice([.3, .6]))
        return g
    return pick(rng, {"pot": [1.0, .5, -1.0, 2.0], "reset": [.5, -1.0, 1.0], "act": [.5, 2.0, -1.0, 0.0], "leak": [0.0, .5, 1.0],
                      "rc": [1, 2], "rp": [1, 2, 3]}, .5)


def small(rng, kinds, steps, mt=False):
    """One population of neurons with rich parameters, fed with impacts of every kind (and, sometimes, by itself)."""
    net = Net(rng)
    k = rng.choice(kinds)
    n = rng.choice([1, 2, 3, 5])
    net.pop("a", k, [rich(k, rng) for _ in range(n)], (lambda i: {"synapse_sum_threshold_coefficient": rng.choice([0.0, 1.0])}) if k.startswith("sr") else None)
    blockv = float(rng.choice([-3, -2, -1, 0, 1, 2, 4]))
    tys = [t for t in (0, 0, 1, 2, 3, 4) if accepts(k, t)]

    def syn(ns, cnt):
        r = []
        for _ in range(cnt):
            ty = rng.choice(tys)
            w = blockv if ty == 4 else rng.choice([.25, .5, 1.0, 1.0, 2.0, -.5, -1.0]) if ty in (2, 3) else rng.choice([.25, .5, 1.0, 1.0, 2.0, 3.0, -1.0])
            if k in ("altai", "sraltai") and ty < 2 and rng.random() < .5:
                w = float(round(w)) or 1.0
            r.append((rng.randrange(ns), rng.randrange(n), w, rng.choice([1, 1, 2, 3]), ty))
        return r
    ns = rng.choice([2, 4, 6])
    net.proj("i", rng.choice(["delta", "delta", "sr"]), "", "a", syn(ns, rng.choice([ns, 2 * ns, 3 * ns])), chans=["x"])
    if rng.random() < .5:
        net.proj("j", rng.choice(["delta", "sr"]), "", "a", syn(ns, ns), chans=["x", "y"])
    if rng.random() < .3:
        net.proj("r", "delta", "a", "a", syn(n, n))
    q = rng.choice([.1, .4, .7])
    run = []
    for i in range(steps):
        m = "" if rng.random() < q else msgs(rng, ["x", "y"], {"x": ns, "y": ns}, 6)
        run.append("step " + (m or "-"))
    return net, run


def neuron_check(chk, kinds, label):
    exe = driver("engine")
    inv = "INVARIANTS MinPotential AltaiFloor Since BurstCount ResetOnSpike ResetAltai BlockedSilent Commute\nPROPERTIES Refractory FreshFires BlockedDeaf LifHolds\n"
    for k in kinds:
        chk.model("NeuronMC", 'SPECIFICATION Spec\nCONSTANTS KIND="%s" MAXT=%d WIDE=%s\n' %
                  (k, chk.n(7 if k == "lif" else 3, 9 if k == "lif" else 5), "TRUE" if chk.thorough and k == "lif" else "FALSE") + inv, k, 100, 900)
    eps = []
    for i in range(chk.n(500, 8000)):
        net, run = small(chk.rng, kinds, chk.rng.choice([6, 12, 25]))
        eps.append([net.line()] + run)
    for i in range(chk.n(100, 1500)):
        net, run = topology(chk.rng, kinds, chk.rng.choice([10, 20]), types=(0, 0, 0, 1, 2, 3, 4), neurons=rich)
        eps.append([net.line()] + run)
    chk.samples += [eps[0][:6]]
    conform(chk, exe, "EngineTrace", TCFG, eps, label, chunk=chk.n(75, 400), parallel=8, tlc_timeout=2000)


def e03(chk):
    neuron_check(chk, ["blifat", "srblifat"], "BLIFAT networks")


def e04(chk):
    neuron_check(chk, ["altai", "sraltai", "lif"], "AltAI and LIF networks")


# ------------------------------------------------------------- model nets
def model_nets(chk, n, maxpop=2, kinds=("blifat", "lif", "altai"), alph=True):
    """Small networks for the model checker: written as one JSON line each."""
    rng = chk.rng
    path = os.path.join(chk.work, "nets%d.ndjson" % rng.randrange(10 ** 9))
    specs, drvs = [], []
    for _ in range(n):
        net = Net(rng)
        names = ["a", "b"][:maxpop]
        size = {p: rng.choice([1, 2, 2]) for p in names}
        for p in names:
            k = rng.choice(kinds)
            net.pop(p, k, [relay(k, rng) for _ in range(size[p])])
        def syn(ns, nd, c):
            return [(rng.randrange(ns), rng.randrange(nd), float(rng.choice([1, 2])), rng.choice([1, 1, 2, 3]), 0) for _ in range(c)]
        net.proj("i", "delta", "", "a", syn(2, size["a"], rng.choice([2, 3])), chans=["x"])
        net.proj("p", "delta", "a", names[-1], syn(size["a"], size[names[-1]], rng.choice([2, 3])))
        if rng.random() < .6:
            net.proj("q", rng.choice(["delta", "sr"]), names[-1], "a", syn(size[names[-1]], size["a"], 2))
        l = net.line()
        d, s = l[4:].split("\t")
        s = json.loads(s)
        s["alph"] = rng.choice([[[], [["x", [0]]], [["x", [1, 0]]]], [[["x", [0]]], [["x", [0, 0, 1]]], []], [[], [["x", [0]], ["x", [0]]], [["x", [1]]]]])
        specs.append(s)
        drvs.append(net)
    with open(path, "w") as f:
        f.write("\n".join(json.dumps(s) for s in specs) + "\n")
    return path, specs, drvs


def beh_episode(b, drvs, **kw):
    """A behaviour of EngineMC ([network, input, input, ...]) as a script."""
    net = drvs[b[0] - 1]
    return [net.line(salt=7, **kw)] + ["step " + ("|".join("%s=%s" % (m[0], ",".join(map(str, m[1])) or "-") for m in i) or "-") for i in b[1:]]


def e02(chk):
    exe = driver("engine")
    path, specs, drvs = model_nets(chk, chk.n(12, 60))
    chk.model("EngineMC", "SPECIFICATION Spec\nCONSTANTS MAXT=%d GEN=FALSE\nINVARIANTS OnceAfterDelay PendingComplete NoPast OwnTarget\n" % chk.n(5, 7),
              "small random networks, every input", 100, 1500, env={"NETS": path})
    path, specs, drvs = model_nets(chk, chk.n(40, 200))
    eps = []
    for b in chk.behaviours("EngineMC", "SPECIFICATION Spec\nCONSTANTS MAXT=12 GEN=TRUE\nINVARIANT Emit\n", env={"NETS": path},
                            simulate="num=%d" % chk.n(120, 2000), args=["-depth", "14", "-seed", str(SEED)]):
        eps.append(beh_episode(b, drvs))
    conform(chk, exe, "EngineTrace", TCFG, eps, "specification behaviours", chunk=60, parallel=8)
    eps = []
    for i in range(chk.n(500, 8000)):
        mt = chk.rng.random() < .3
        net, run = topology(chk.rng, MT_KINDS if mt else ST_KINDS, chk.rng.choice([8, 15, 30]), mt=mt)
        eps.append([net.line(mt=int(mt), threads=chk.rng.choice([1, 2, 4]), pp=chk.rng.choice([1, 2, 1000]),
                             jp=chk.rng.choice([1, 3, 1000]))] + run)
    chk.samples += [eps[0][:6]]
    conform(chk, exe, "EngineTrace", TCFG, eps, "random networks", chunk=chk.n(63, 400), parallel=8, tlc_timeout=2000)
    eps = []
    for i in range(chk.n(40, 1500)):
        mt = chk.rng.random() < .3
        net, run = far(chk.rng, mt, chk.rng.choice([300, 300, 520]) if i % 20 else chk.rng.choice([65536, 65537, 66000] if chk.thorough else [65537]))
        eps.append([net.line(mt=int(mt), threads=2)] + run)
    chk.samples.append(eps[0])
    conform(chk, exe, "EngineTrace", TCFG, eps, "long delays", chunk=chk.n(5, 50), parallel=8, tlc_timeout=2000)


def e05(chk):
    exe = driver("engine")
    path, specs, drvs = model_nets(chk, chk.n(4, 12), kinds=("blifat", "lif", "srblifat"))
    for pp, jp, wk, mt in ((1, 1, 2, 1), (1, 2, 3, 1), (2, 1, 2, 2))[:chk.n(2, 3)]:
        chk.model("EngineMT", "SPECIFICATION Spec\nCONSTANTS MAXT=%d POPPART=%d PROJPART=%d WORKERS=%d\nINVARIANTS SameAsSequential OneHolder\n" % (chk.n(mt, mt + 1), pp, jp, wk),
                  "parts %d/%d, %d workers" % (pp, jp, wk), 100, 1500, env={"NETS": path})
    path, specs, drvs = model_nets(chk, chk.n(30, 150), kinds=("blifat", "lif", "srblifat"))
    eps = []
    cfgs = lambda: dict(mt=1, threads=chk.rng.choice([1, 2, 3, 8]), pp=chk.rng.choice([1, 2, 3, 1000]), jp=chk.rng.choice([1, 2, 3, 1000]))
    for b in chk.behaviours("EngineMC", "SPECIFICATION Spec\nCONSTANTS MAXT=12 GEN=TRUE\nINVARIANT Emit\n", env={"NETS": path},
                            simulate="num=%d" % chk.n(60, 1000), args=["-depth", "14", "-seed", str(SEED)]):
        eps.append(beh_episode(b, drvs, **cfgs()))
        eps.append(beh_episode(b, drvs))
    for i in range(chk.n(250, 4000)):
        what = chk.rng.random()
        steps = chk.rng.choice([8, 15, 30])
        if what < .4: net, run = topology(chk.rng, MT_KINDS, steps, mt=True, types=(0, 0, 0, 1, 2, 3, 4), neurons=chk.rng.choice([relay, rich]))
        elif what < .6: net, run = small(chk.rng, MT_KINDS, steps)
        else: net, run = topology(chk.rng, MT_KINDS, steps, mt=True, sizes=(2, 5, 9, 17))
        for j in range(chk.rng.choice([1, 2])):
            eps.append([net.line(**cfgs())] + run)
        eps.append([net.line()] + run)
    chk.samples += [eps[0][:6]]
    conform(chk, exe, "EngineTrace", TCFG, eps, "same networks on both backends", chunk=chk.n(80, 400), parallel=8, tlc_timeout=2000)
    # the same under controlled schedules: the scheduler also interleaves unsynchronised memory accesses
    exe = driver("enginesched")
    eps = []
    for i in range(chk.n(320, 6000)):
        net, run = (small if chk.rng.random() < .3 else topology)(chk.rng, MT_KINDS, chk.rng.choice([3, 6, 12]), mt=True)
        eps.append([net.line(mt=1, threads=chk.rng.choice([1, 2, 2, 3, 4]), pp=chk.rng.choice([1, 1, 2, 3]), jp=chk.rng.choice([1, 1, 2, 3]),
                             sched=chk.rng.randrange(1, 2 ** 31))] + run)
    conform(chk, exe, "EngineTrace", TCFG, eps, "controlled schedules", chunk=chk.n(40, 200), parallel=8, tlc_timeout=2000)
