"""X01, X02: models run by the model executor, loaded and copied back."""
from kvlib import *
from engine import Net, relay, bits, topology, ST_KINDS, MT_KINDS
from learn import LNet, plastic, additive


def wrap(net, rng, inch, outch, gens, handlers, obs, wta=None, logs=(), **kw):
    """'new' line of a model around a network: declared channels, handlers, observers."""
    d, s = net.line(**kw)[4:].split("\t")
    d, s = json.loads(d), json.loads(s)
    declared = {"inch": inch, "outch": outch, "handlers": handlers, "obs": obs, "logs": list(logs),
                "wta": wta or {"k": 0, "b": [], "pairs": []}}
    d.pop("learn", None)
    d.update(declared, gens={c: v for c, v in gens}, pre=rng.choice([0, 0, 0, 1, 2]))
    s.update(declared, gens=[{"ch": c, "data": v} for c, v in gens])
    return "new %s\t%s" % (json.dumps(d, separators=(",", ":")), json.dumps(s, separators=(",", ":")))


def subset(rng, xs, lo=0):
    xs = list(xs)
    return rng.sample(xs, rng.randint(min(lo, len(xs)), len(xs)))


def random_model(rng, mt=False, base=None, wide=False):
    """(new line, channels, output channels, handler ids, observer ids)"""
    kinds = MT_KINDS if mt else ST_KINDS
    net = base
    if net is None:
        net = Net(rng)
        for p in ["a", "b", "c"][:rng.choice([1, 2, 2, 3])]:
            k = rng.choice(kinds)
            net.pop(p, k, [relay(k, rng) for _ in range(rng.choice([1, 2, 3]))])
        names = [p[0] for p in net.pops]
        size = {p[0]: len(p[2]) for p in net.pops}

        def syn(n, post):
            return [(rng.randrange(3), rng.randrange(size.get(post, 3)), rng.choice([1.0, 1.0, 2.0]), rng.choice([1, 1, 1, 2, 3]), 0) for _ in range(n)]
        for j in range(rng.choice([1, 2, 3, 4]) + (8 if wide else 0)):
            post = rng.choice(names + ([""] if rng.random() < .1 else []))
            pre = rng.choice(names + ["", ""])
            kind = rng.choice(["delta", "delta", "sr"])
            net.proj("j%d" % j, kind, pre, post, syn(rng.choice([0, 1, 3, 5]), post), locked=1)
    names = [p[0] for p in net.pops]
    projs = [p["id"] for p in net.projs]
    chans = ["x%d" % i for i in range(rng.choice([1, 2, 3]) + (rng.choice([3, 9, 20]) if wide else 0))]
    outs = ["o%d" % i for i in range(rng.choice([0, 1, 2]) + (rng.choice([3, 9, 20]) if wide else 0))]
    if base is not None:
        inch = [[c, p["id"]] for p in net.projs for c in p["chans"]]
        chans = sorted({c for c, _ in inch})
        for p in net.projs:
            p["chans"] = []
    else:
        inch = [[c, j] for c in chans for j in subset(rng, projs, 1)[:3]]
        if rng.random() < .2 and inch:
            inch.append(rng.choice(inch))
        rng.shuffle(inch)
    outch = [[c, p] for c in outs for p in subset(rng, names, 1)]
    if rng.random() < .2 and outch:
        outch.append(rng.choice(outch))
    rng.shuffle(outch)
    density = rng.choice([.3, .7, 1.0])
    gens = [[c, [[rng.randrange(3) for _ in range(rng.choice([1, 1, 2, 4]))] if rng.random() < density else [] for _ in range(rng.choice([1, 3, 7]))]]
            for c in chans + (["spare"] if rng.random() < .3 else [])]
    gens = [g if rng.random() > .05 else [g[0], []] for g in gens]
    rng.shuffle(gens)
    hs = ["h%d" % i for i in range(rng.choice([0, 1, 2, 3]))]
    senders = names + chans + hs
    handlers = [{"id": h, "fn": rng.choice(["union", "union", "count", "const", "none"]), "from": subset(rng, senders, 1)[:4],
                 "to": subset(rng, projs)[:3] if base is None else []} for h in hs]
    obs = []
    for i in range(rng.choice([0, 1, 2, 3])):
        obs.append({"id": "w%d" % i, "kind": 0, "from": subset(rng, senders)} if rng.random() < .6 else
                   {"id": "w%d" % i, "kind": 1, "from": subset(rng, projs)})
    wta = {"k": rng.choice([0, 1, 1, 2]), "b": rng.choice([[], [1], [2], [1, 2]]),
           "pairs": [{"id": "wta%d" % i, "from": [rng.choice(names + chans)], "to": subset(rng, projs)[:3] if base is None else []}
                     for i in range(rng.choice([0, 0, 1, 2, 3]))]}
    ids = [x["id"] for x in wta["pairs"]]
    for o in handlers + [o for o in obs if o.get("kind", 0) == 0]:
        o["from"] += subset(rng, ids)[:1]
    return net, inch, outch, gens, handlers, obs, wta


def commands(rng, n, outch, handlers, obs):
    r, t = [], 0
    outs = sorted({c for c, _ in outch})
    while len(r) < n:
        x = rng.random()
        if x < .45 or not outs:
            k = rng.choice([0, 1, 1, 2, 3, 6])
            stop = ""
            if rng.random() < .25:
                who = [("p:", 0)] + [("h:" + h["id"], 1) for h in handlers] + [("o:" + o["id"], 1) for o in obs]
                stop = " %s@%d" % (rng.choice(who)[0], rng.randint(1, k + 1))
            r.append("run %d%s" % (k, stop))
            t += k
        elif x < .9:
            a = rng.randint(0, t + 1)
            r.append("read %s %d %d" % (rng.choice(outs), *rng.choice([(a, a), (a, rng.randint(0, t + 1)), (0, t), (0, a), (a, t + 3), (a + 1, a)])))
        else:
            r.append("update " + rng.choice(outs))
    return r


MCFG = "SPECIFICATION Spec\nPOSTCONDITION Accepted\n"


def small_models(chk, n):
    """One- and two-neuron models for the model checker."""
    rng, r = chk.rng, []
    while len(r) < n:
        net = Net(rng)
        net.pop("a", "lif", [{"act": .5, "leak": 0.0} for _ in range(2)])
        net.pop("b", "blifat", [{"act": 1.0, "pdec": 1.0}])
        net.proj("i", "delta", "", "a", [(rng.randrange(2), rng.randrange(2), 1.0, rng.choice([1, 2]), 0) for _ in range(2)])
        net.proj("j", "delta", rng.choice(["a", ""]), "b", [(rng.randrange(2), 0, 1.0, rng.choice([1, 1, 3]), 0)])
        chans = ["x"] + (["y"] if rng.random() < .5 else [])
        inch = [["x", "i"]] + [["y", rng.choice(["i", "j"])]] * (len(chans) - 1)
        outch = [["o", "a"]] + ([["o", "b"]] if rng.random() < .5 else [["q", "b"]])
        gens = [[c, [rng.choice([[], [0], [1], [0, 1], [0, 0]]) for _ in range(rng.choice([1, 2, 3]))]] for c in chans]
        hs = [{"id": "h", "fn": rng.choice(["union", "count", "const"]), "from": subset(rng, ["a", "b", "x", "g"], 1), "to": subset(rng, ["i", "j"])},
              {"id": "g", "fn": "union", "from": ["h"], "to": ["j"]}][:rng.choice([0, 1, 2])]
        for h in hs:
            h["from"] = [f for f in h["from"] if f != "g" or len(hs) > 1] or ["a"]
        r.append((net, inch, outch, gens, hs, [{"id": "w", "kind": 0, "from": ["a", "b", "x"]}, {"id": "v", "kind": 1, "from": ["i", "j"]}]))
    return r


def x01(chk):
    ms = small_models(chk, chk.n(24, 160))
    nets = os.path.join(chk.work, "nets.ndjson")
    open(nets, "w").write("".join(wrap(m[0], chk.rng, *m[1:]).split("\t")[1] + "\n" for m in ms))
    inv = "INVARIANTS Stamped ChannelData HandlerData Kept Crossed\n"
    cfg = "SPECIFICATION Spec\nCONSTANTS MAXT=%d MAXOPS=%d GEN=%s\nVIEW View\n"
    chk.model("ModelMC", cfg % (chk.n(5, 6), chk.n(3, 4), "FALSE") + inv, "small models", 300, 1800, env={"NETS": nets})
    exe = driver("model")
    eps = []
    for b in chk.behaviours("ModelMC", cfg.replace("VIEW View\n", "") % (20, 10, "TRUE") + "INVARIANT Emit\n", env={"NETS": nets},
                            simulate="num=%d" % chk.n(90, 2500), args=["-depth", "12", "-seed", str(SEED)]):
        m = ms[b[0] - 1]
        mt = chk.rng.randrange(2)
        eps.append([wrap(m[0], chk.rng, *m[1:], mt=mt, threads=chk.rng.choice([1, 2]), pp=1, jp=1)] + [" ".join(map(str, x)) for x in b[1:]])
    conform(chk, exe, "ModelTrace", MCFG, eps, "specification behaviours", chunk=chk.n(40, 300), parallel=8, tlc_timeout=1500)
    eps = []
    for _ in range(chk.n(400, 6000)):
        mt = int(chk.rng.random() < .4)
        m = random_model(chk.rng, mt)
        eps.append([wrap(m[0], chk.rng, *m[1:], mt=mt, threads=chk.rng.choice([1, 2, 4]), pp=chk.rng.choice([1, 1000]), jp=chk.rng.choice([1, 1000]))] +
                   commands(chk.rng, chk.rng.choice([8, 20]), m[2], m[4], m[5]))
    chk.samples += [eps[0][:8]]
    conform(chk, exe, "ModelTrace", MCFG, eps, "random models", chunk=chk.n(50, 400), parallel=8, tlc_timeout=1500)


def x02(chk):
    ms = small_models(chk, chk.n(12, 60))
    nets = os.path.join(chk.work, "nets.ndjson")
    open(nets, "w").write("".join(wrap(m[0], chk.rng, *m[1:]).split("\t")[1] + "\n" for m in ms))
    chk.model("ModelMC", "SPECIFICATION Spec\nCONSTANTS MAXT=5 MAXOPS=2 GEN=FALSE\nVIEW View\nINVARIANTS Crossed Kept\n", "small models", 100, 1800, env={"NETS": nets})
    exe = driver("model")
    eps = []
    for i in range(chk.n(300, 5000)):
        mt = int(chk.rng.random() < .4)
        m = list(random_model(chk.rng, mt, wide=chk.rng.random() < .6))
        if chk.rng.random() < .25:          # a channel without data
            drop = chk.rng.choice(m[1])[0]
            m[3] = [g for g in m[3] if g[0] != drop]
            eps.append([wrap(*m[:1], chk.rng, *m[1:], mt=mt, threads=2)])
            continue
        run = []
        for c in sorted({c for c, _ in m[2]}):
            run.append("read %s 0 100" % c)
        eps.append([wrap(*m[:1], chk.rng, *m[1:], mt=mt, threads=2)] + ["copy", "run 3"] + run + ["copy", "run 2"] + run)
    chk.samples += [eps[0][:3]]
    conform(chk, exe, "ModelTrace", MCFG, eps, "many channels", chunk=chk.n(40, 400), parallel=8, tlc_timeout=1500)
    eps = []
    for i in range(chk.n(200, 3000)):
        mt = int(chk.rng.random() < .4)
        if mt or chk.rng.random() < .6:
            net, _ = plastic(chk.rng, ["srblifat"] * 3 + ["blifat"] + ([] if mt else ["sraltai"] * 2 + ["altai", "lif"]), 1, mt)
        else:
            net, _ = additive(chk.rng, ["blifat", "lif", "srblifat"], 1)
        m = random_model(chk.rng, mt, base=net)
        eps.append([wrap(m[0], chk.rng, *m[1:], mt=mt, threads=2, pp=chk.rng.choice([1, 1000]), jp=chk.rng.choice([1, 1000]))] +
                   ["copy", "run 5", "copy", "lock", "copy", "run 3", "unlock", "run 10", "copy"])
    conform(chk, exe, "ModelTrace", MCFG, eps, "learned state", chunk=chk.n(40, 400), parallel=8, tlc_timeout=1500)


LABELS = ["alpha", "Beta", "zz", "a b", "0", "pop_1", "x" * 30, "Aa", "aA", "~"]


def loggers(rng, m, weights):
    """Loggers of a model; the names of one logger all different, in ascending order."""
    net, inch, _, _, hs = m[:5]
    pops, senders = [p[0] for p in net.pops], [p[0] for p in net.pops] + sorted({c for c, _ in inch}) + [h["id"] for h in hs]
    r = []
    for i in range(rng.choice([1, 2, 3, 4])):
        kind = rng.choice(["spikes", "agg", "agg", "status"] + ["weights"] * 3 * bool(weights))
        who = subset(rng, senders, 1 if kind == "spikes" else 0) if kind in ("spikes", "agg") else pops
        names = sorted(rng.sample(LABELS, min(len(who), len(LABELS))), key=lambda x: x.encode())
        rng.shuffle(who)
        r.append({"id": "g%d" % i, "kind": kind, "names": [list(x) for x in zip(who, names)], "period": rng.choice([1, 1, 2, 3, 5, 7]),
                  "proj": rng.choice(weights) if kind == "weights" else ""})
    return r


def n04(chk):
    import library
    cfg = "SPECIFICATION Spec\nCONSTANTS PERIOD=%d MAXT=%d MAXS=%d\nINVARIANTS Periods Conserved\n"
    for p in (1, 2, 3):
        chk.model("LogsMC", cfg % (p, chk.n(4, 5), chk.n(1, 2)), "every history of messages, period %d" % p, 100, 1500)
    exe = driver("model")
    eps = []
    for i in range(chk.n(300, 5000)):
        mt = int(chk.rng.random() < .4)
        m = random_model(chk.rng, mt)
        lg = loggers(chk.rng, m, [p["id"] for p in m[0].projs if p["kind"] == "sr"])
        eps.append([wrap(m[0], chk.rng, *m[1:], logs=lg, mt=mt, threads=2)] + ["run %d" % chk.rng.choice([0, 1, 2, 5, 9]) for _ in range(4)])
    chk.samples += [eps[0][:3]]
    conform(chk, exe, "ModelTrace", MCFG, eps, "random models with loggers", chunk=chk.n(40, 400), parallel=8, tlc_timeout=1500)
    eps = []
    for i in range(chk.n(120, 2000)):
        mt = int(chk.rng.random() < .4)
        net, _ = plastic(chk.rng, ["srblifat"] * 3 + ["blifat"] + ([] if mt else ["sraltai"]), 1, mt)
        m = random_model(chk.rng, mt, base=net)
        lg = loggers(chk.rng, m, [p["id"] for p in m[0].projs if p["kind"] == "sr"])
        eps.append([wrap(m[0], chk.rng, *m[1:], logs=lg, mt=mt, threads=2)] + ["run 5", "lock", "run 3", "unlock", "run 8"])
    conform(chk, exe, "ModelTrace", MCFG, eps, "loggers of learning models", chunk=chk.n(40, 400), parallel=8, tlc_timeout=1500)
    conform(chk, driver("lib"), "LibTrace", library.LCFG, library.normals(chk.rng, chk.n(400, 4000)), "normalisers", chunk=20, parallel=8)
