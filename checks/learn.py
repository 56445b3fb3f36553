"""L01, L02: learning in networks run on the real backends."""
from kvlib import *
from engine import Net, relay, bits, msgs, TCFG

U = 65536
HUGE = 1999999999
# name in the specification -> (name in the code, documented default, has fractional bits)
NP = {"coef": ("synapse_sum_threshold_coefficient", 0.0, 1), "time": ("dopamine_plasticity_time", 1, 0), "thr": ("synaptic_resource_threshold", None, 1),
      "drain": ("resource_drain_coefficient", 0, 0), "dh": ("d_h", 1.0, 1), "scp": ("stability_change_parameter", 0.0, 1),
      "imax": ("isi_max", 1, 0), "isichg": ("stability_change_at_isi", 0.0, 1)}
SP = {"wmin": ("w_min", 0.0, 1), "wmax": ("w_max", 1.0, 1), "du": ("d_u", 0.0, 1), "per": ("dopamine_plasticity_period", 0, 0)}


def split(table, d):
    """(driver names, specification record) for the given values, defaults elsewhere."""
    drv, spec = {}, {}
    for k, (name, dflt, frac) in table.items():
        v = d.get(k, dflt)
        if k in d:
            drv[name] = v
        spec[k] = HUGE if v is None else round(v * U) if frac else v
    return drv, spec


class LNet(Net):
    """A network with the learning parameters written down for the specification."""
    def __init__(self, rng):
        super().__init__(rng)
        self.lp, self.sp = {}, {}

    def lpop(self, pid, kind, neurons, learn, state=()):
        self.lp[pid] = [split(NP, x)[1] for x in learn]
        ex = [dict(split(NP, x)[0], **(state[i] if state else {})) for i, x in enumerate(learn)]
        self.pop(pid, kind, neurons, lambda i: ex[i])

    def lproj(self, pid, kind, pre, post, syn, learn=None, state=(), **kw):
        learn = learn or [{} for _ in syn]
        if kind == "sr":
            self.sp[pid] = [dict(split(SP, x)[1], dl=s[3]) for x, s in zip(learn, syn)]
            ex = [dict(split(SP, x)[0], **(state[i] if state else {})) for i, x in enumerate(learn)]
            kw["par"] = lambda i: ex[i]
        elif kind == "add":
            self.sp[pid] = [{"tp": round(x["tau_plus"] * U), "tm": round(x["tau_minus"] * U)} for x in learn]
            kw["par"] = lambda i: learn[i]
        self.proj(pid, kind, pre, post, syn, **kw)

    def line(self, **kw):
        l = super().line(learn=True, **kw)
        d, s = l[4:].split("\t")
        s = json.loads(s)
        for p in s["pops"]:
            p["lp"] = self.lp.get(p["id"], [])
        for p in s["projs"]:
            p["sp"] = self.sp.get(p["id"], [])
        for p, q in zip(s["projs"], self.projs):
            p["stdp"] = sorted(q["stdp"])
        return "new %s\t%s" % (d, json.dumps(s, separators=(",", ":")))


def pick(rng, d, p):
    return {k: rng.choice(v) for k, v in d.items() if rng.random() < p}


def lneuron(rng, p):
    return pick(rng, {"coef": [.5, 1.0], "time": [0, 2, 5, 50], "thr": [.5, 1.0, 1.5, 2.0, .0], "drain": [1, 2, 5], "dh": [.5, .25, 2.0, -.25],
                      "scp": [.5, 1.0], "imax": [1, 2, 4, 10], "isichg": [.25, 1.0, -.5]}, p)


def lstate(rng):
    return pick(rng, {"free_synaptic_resource": [0.0, 2.5, -2.0, 10.0], "stability": [.5, 1.0, 3.0]}, .4)


def lsyn(rng, p):
    r = pick(rng, {"wmin": [-1.0, -.5, .25], "wmax": [2.0, 4.0, .5], "du": [.125, .0625], "per": [1, 3, 6, 20]}, p)
    if rng.random() < .05:
        r["wmin"] = r["wmax"] = 1.0
    return r


def sstate(rng):
    return pick(rng, {"synaptic_resource": [.5, 1.0, 3.0, -1.0, .3]}, .6)


def plastic(rng, kinds, steps, mt=False, locks=True):
    net = LNet(rng)
    names = ["a", "b", "c"][:rng.choice([1, 1, 2, 3])]
    size, kind = {}, {}
    p = rng.choice([.3, .6])
    for x in names:
        kind[x] = rng.choice(kinds)
        size[x] = n = rng.choice([1, 1, 2, 3, 5])
        if kind[x].startswith("sr"):
            same = rng.random() < .5 and lneuron(rng, p)
            net.lpop(x, kind[x], [relay(kind[x], rng) for _ in range(n)], [same or lneuron(rng, p) for _ in range(n)], [lstate(rng) for _ in range(n)])
        else:
            net.pop(x, kind[x], [relay(kind[x], rng) for _ in range(n)])
    chans = ["x", "y", "z"]
    csz = {c: rng.choice([2, 3, 5]) for c in chans}

    def syn(n, ns, nd, ty=0, w=(1.0, 1.0, 2.0, .5)):
        r = [(rng.randrange(ns), rng.randrange(nd), rng.choice(w), rng.choice([1, 1, 1, 2, 3]), ty) for _ in range(n)]
        if r and rng.random() < .2:
            r.append(r[0])
        return r

    def sr(pid, pre, post, n, ns, **kw):
        s = syn(n, ns, size[post], rng.choice([0, 0, 0, 1]))
        same = rng.random() < .5 and lsyn(rng, p)
        net.lproj(pid, "sr", pre, post, s, [same or lsyn(rng, p) for _ in s], [sstate(rng) for _ in s], locked=int(rng.random() < .2), **kw)
    for i, x in enumerate(names):
        sr("i%d" % i, "", x, rng.choice([2, 4, 8]), csz["x"], chans=[rng.choice(["x", "x", "y"])])
        if rng.random() < .5:
            net.lproj("f%d" % i, "delta", "", x, syn(rng.choice([1, 3]), csz["y"], size[x]), chans=["y"])      # forces
        if rng.random() < .8:
            net.lproj("d%d" % i, "delta", "", x, [s[:2] + (rng.choice([1.0, .5, -1.0, -.5, 2.0]),) + s[3:] for s in
                      syn(rng.choice([1, 3, 4]), csz["z"], size[x], 3 if kind[x] != "lif" else 0)], chans=["z"])
    for j in range(rng.choice([0, 1, 1, 2])):
        a, b = rng.choice(names), rng.choice(names)
        if rng.random() < .7:
            sr("s%d" % j, a, b, rng.choice([1, 3, 6]), size[a])
        else:
            net.lproj("s%d" % j, "delta", a, b, syn(2, size[a], size[b]))
    if rng.random() < .2:
        net.lproj("o", "sr", rng.choice(names), "", syn(2, 1, 1), locked=0)        # plastic, but leads nowhere
    rng.shuffle(net.projs)
    run = []
    quiet = rng.choice([.1, .4, .7])
    for i in range(steps):
        if locks and rng.random() < .04:
            run.append(rng.choice(["lock", "unlock", "unlock"]))
        cs = [c for c in chans if rng.random() > (quiet if c == "x" else .7)]
        run.append("step " + (msgs(rng, cs, csz, 3) or "-"))
    return net, run


def l01(chk):
    inv = "INVARIANTS WeightFn Bounds Conserved\nPROPERTIES LockedStill HebbOnce OnlyContributors Still\n"
    chk.model("LearningMC", "SPECIFICATION Spec\nCONSTANTS MAXT=%d WIDE=FALSE\n" % chk.n(2, 3) + inv, "one neuron, two connections", 100, 1500)
    if chk.thorough:
        chk.model("LearningMC", "SPECIFICATION Spec\nCONSTANTS MAXT=2 WIDE=TRUE\n" + inv, "parameter grid", 100, 2500)
    exe = driver("engine")
    eps = []
    for i in range(chk.n(480, 8000)):
        mt = chk.rng.random() < .3
        net, run = plastic(chk.rng, ["srblifat"] * 3 + ["blifat"] + ([] if mt else ["sraltai"] * 3 + ["altai"]), chk.rng.choice([15, 30, 50]), mt)
        eps.append([net.line(mt=int(mt), threads=chk.rng.choice([1, 2, 4]), pp=chk.rng.choice([1, 2, 1000]), jp=chk.rng.choice([1, 3, 1000]))] + run)
    chk.samples += [eps[0][:6]]
    conform(chk, exe, "LearnTrace", "SPECIFICATION Spec\nPOSTCONDITION Accepted\n", eps, "plastic networks", chunk=chk.n(60, 400), parallel=8, tlc_timeout=2000)
    # a locked additive projection
    net = LNet(chk.rng)
    net.pop("a", "blifat", [relay("blifat", chk.rng)])
    net.lproj("q", "add", "", "a", [(0, 0, 1.0, 1, 0)], [{"tau_plus": 1.0, "tau_minus": 1.0}], chans=["x"], locked=1, stdp={"x": 1, "a": 0})
    net.lproj("f", "delta", "", "a", [(0, 0, 9.0, 1, 0)], chans=["y"])
    conform(chk, exe, "LearnTrace", "SPECIFICATION Spec\nPOSTCONDITION Accepted\n", [[net.line()] + ["step x=0|y=0"] * 12],
            "locked additive projection", classify=lambda e, k: "additive-locked" if k > 1 else None)


def additive(rng, kinds, steps):
    """Additive projections between populations and channels, every registration of learning sources."""
    net = LNet(rng)
    names = ["a", "b", "c"][:rng.choice([1, 2, 2, 3])]
    size, kind = {}, {}
    for x in names:
        kind[x], size[x] = rng.choice(kinds), rng.choice([1, 2, 3, 5])
        net.pop(x, kind[x], [relay(kind[x], rng) for _ in range(size[x])])
    chans = ["x", "y"]
    csz = {c: rng.choice([2, 3, 5]) for c in chans}
    taus = rng.choice([[1.0], [.5, 1.0], [1.0, 2.0, 3.0], [1.5, 4.0], [10.0]])

    def add(pid, pre, post, n, ns, cs):
        s = [(rng.randrange(ns), rng.randrange(size[post]), float(rng.choice([1, 1, 2, 3])), rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 0, 1]))
             for _ in range(n)]
        t = (rng.choice(taus), rng.choice(taus))
        same = rng.random() < .7
        par = [{"tau_plus": t[0] if same else rng.choice(taus), "tau_minus": t[1] if same else rng.choice(taus)} for _ in s]
        st = {}
        for y in set(([pre] if pre else []) + [post] + cs + ([rng.choice(names)] if rng.random() < .2 else [])):
            if rng.random() < .8:
                # the postsynaptic population only teaches; what comes in also crosses
                st[y] = rng.choice([0, 1] if y == pre == post or rng.random() < .2 else [0] if y == post else [1])
        net.lproj(pid, "add", pre, post, s, par, chans=cs, locked=0, stdp=st)
    for i, x in enumerate(names):
        add("i%d" % i, "", x, rng.choice([2, 4]), csz["x"], [rng.choice(["x", "x", "y"])])
        net.lproj("f%d" % i, "delta", "", x, [(rng.randrange(csz["y"]), rng.randrange(size[x]), 3.0, 1, 0) for _ in range(3)], chans=["y"])
    for j in range(rng.choice([0, 1, 1, 2])):
        a, b = rng.choice(names), rng.choice(names)
        add("s%d" % j, a, b, rng.choice([1, 3, 5]), size[a], [])
    rng.shuffle(net.projs)
    run = []
    quiet = rng.choice([.1, .3, .6])
    for i in range(steps):
        run.append("step " + (msgs(rng, [c for c in chans if rng.random() > quiet], csz, 4) or "-"))
    return net, run


def l02(chk):
    chk.model("AdditiveMC", "SPECIFICATION Spec\nCONSTANTS MAXT=%d\nINVARIANTS Bounded Sorted Direction Mirror\n" % chk.n(4, 6), "one connection, every pair of trains", 100, 2500)
    exe = driver("engine")
    eps = []
    for i in range(chk.n(320, 6000)):
        net, run = additive(chk.rng, ["blifat", "altai", "lif", "srblifat"], chk.rng.choice([15, 30, 60]))
        eps.append([net.line()] + run)
    chk.samples += [eps[0][:6]]
    conform(chk, exe, "AdditiveTrace", "SPECIFICATION Spec\nPOSTCONDITION Accepted\n", eps, "additive projections", chunk=chk.n(40, 400), parallel=8, tlc_timeout=2000)
    # the weights so learned are the ones spikes are delivered with
    conform(chk, exe, "EngineTrace", TCFG, eps[:chk.n(120, 2000)], "impacts of additive projections", chunk=chk.n(15, 200), parallel=8, tlc_timeout=2000)
