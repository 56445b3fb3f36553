"""N01: builders.  N02: network validation.  N03: data sets and scoring.  N04 (part): normalisers."""
from kvlib import *

LCFG = "SPECIFICATION Spec\nPOSTCONDITION Accepted\n"


def J(op, **a):
    return op + " " + json.dumps(a, separators=(",", ":"))


def group(lines, size):
    return [["new"] + lines[i:i + size] for i in range(0, len(lines), size)]


def n01(chk):
    chk.model("BuildersMC", "SPECIFICATION Spec\nCONSTANTS MAX=%d GEN=FALSE\nINVARIANTS Arithmetic Inside\n" % chk.n(7, 14), "index arithmetic of every small size", 4000, 2500)
    exe = driver("lib")
    beh = chk.behaviours("BuildersMC", "SPECIFICATION Spec\nCONSTANTS MAX=%d GEN=TRUE\nINVARIANT Emit\n" % chk.n(5, 7))
    rng = chk.rng
    lines = []
    for a in beh:
        for s in (["delta", "sr", "add"] if rng.random() < .3 else [rng.choice(["delta", "sr", "add"])]):
            b = dict(a, syn=s, gen=rng.choice(["pair", "pair", "copy", "default"]) if a["kind"] not in ("one", "index") else rng.choice(["pair", "default"]) if a["kind"] == "one" else "pair")
            lines.append(J("build", **b))
    chk.extra["builder_requests_enumerated"] = len(lines)
    rng.shuffle(lines)
    conform(chk, exe, "LibTrace", LCFG, group(lines, 20), "every small size", chunk=15, parallel=8)
    lines = []
    sz = lambda: rng.choice([1, 2, 3, 7, 10, 16, 17, 25, 30])
    for _ in range(chk.n(500, 8000)):
        kind = rng.choice(["all", "aligned", "aligned", "exclusive", "one", "index", "prob", "post", "pre", "connect", "list", "deque", "map", "clone", "clone", "connectgen", "pop", "pop"])
        syn = rng.choice(["delta", "sr", "add"])
        a = dict(kind=kind, syn=syn, gen="pair", n=sz(), m=sz(), k=rng.choice([0, 1, 2, 5]), p=rng.choice([-1, 0, 1, 8, 15, 16, 17]))
        if kind in ("list", "deque", "map", "clone"):
            cs = [[rng.randrange(9), rng.randrange(9), rng.randrange(1000)] for _ in range(rng.choice([0, 1, 5, 15]))]
            if kind == "map":
                cs = list({(x[0], x[1]): x for x in cs}.values())
            elif cs and rng.random() < .3:
                cs.append(list(rng.choice(cs)))
            drop, left = [], len(cs)
            for _ in range(rng.choice([0, 0, 1, 3])):
                if left:
                    drop.append(rng.randrange(left))
                    left -= 1
            a.update(conns=cs, drop=drop, newpre=rng.randrange(2), newpost=rng.randrange(2), gen=rng.choice(["pair", "pair", "default"]))
            a["from"] = rng.choice(["delta", "sr", "add"])
        elif kind == "connectgen":
            a["iter"] = rng.choice([0, 1, 4, 13])
        elif kind == "pop":
            tags = [rng.randrange(-50, 50) for _ in range(rng.choice([0, 1, 4, 20]))]
            lines.append(J("pop", kind=rng.choice(["list", "deque", "default", "clone", "random"]), neuron=rng.choice(["blifat", "lif", "altai", "sr"]), n=rng.choice([0, 1, 5, 30]), tag=rng.randrange(-9, 9), tags=tags))
            continue
        elif kind not in ("index", "one") and rng.random() < .3:
            a["gen"] = rng.choice(["copy", "default"])
        lines.append(J("build", **a))
    for _ in range(chk.n(40, 400)):
        lines.append(J("spread", kind=rng.choice(["prob", "post", "pre"]), syn=rng.choice(["delta", "sr", "add"]), gen="pair", n=rng.choice([1, 2, 5]), m=rng.choice([1, 3, 4]),
                       k=rng.choice([1, 2, 6]), p=rng.choice([0, 1, 4, 8, 12, 15, 16]), times=rng.choice([600, 1000])))
    rng.shuffle(lines)
    eps = group(lines, 12)
    chk.samples += [eps[0][:5]]
    conform(chk, exe, "LibTrace", LCFG, eps, "random requests", chunk=6, parallel=8)


def n02(chk):
    cfg = "SPECIFICATION Spec\nCONSTANTS NPROJ=%d GEN=%s\n"
    chk.model("ValidationMC", cfg % (chk.n(2, 3), "FALSE") + "INVARIANT Right\n", "every small network", 4000, 2500)
    exe = driver("lib")
    beh = chk.behaviours("ValidationMC", cfg % (2, "TRUE") + "INVARIANT Emit\n")
    rng = chk.rng
    rng.shuffle(beh)
    lines = [x for b in beh[:chk.n(2500, 10 ** 6)] for x in (J("net", **b), "connectivity")]
    conform(chk, exe, "LibTrace", LCFG, group(lines, 50), "every small network", chunk=10, parallel=8)
    eps = []
    for _ in range(chk.n(300, 5000)):
        pops = ["p%d" % i for i in range(rng.choice([0, 1, 2, 4, 9, 20]))]
        ends = pops + ["0"] * (1 + len(pops) // 2) + ["ghost"]
        used = rng.sample(ends, rng.randint(1, len(ends)))
        projs = [["j%d" % i, rng.choice(used), rng.choice(used)] for i in range(rng.choice([0, 1, 3, 8, 20]))]
        e = ["new " + json.dumps({"salt": rng.randrange(10 ** 6)}), J("net", pops=pops, projs=projs), "connectivity"]
        for _ in range(rng.choice([1, 2])):
            vs = []
            for i in range(rng.choice([0, 1, 2, 3, 6])):
                v = {"of": rng.choice(["pop", "proj", "net"]), "issues": [[rng.choice(["info", "warning", "error"]), rng.choice(["x", "y z", "w"])] for _ in range(rng.choice([0, 1, 1, 2, 3]))]}
                if rng.random() < .6:
                    v["name"] = rng.choice(["v%d" % i, "same"])
                vs.append(v)
            # results of two validators with equal issues cannot be told apart by what they report, but by who they are
            e.append(J("exec", validators=vs, times=rng.choice([1, 1, 2])))
        e.append("connectivity")
        eps.append(e)
    chk.samples += [eps[0]]
    conform(chk, exe, "LibTrace", LCFG, eps, "random networks and validators", chunk=20, parallel=8)


def dataset(rng, n, classes, size, steps, big=False, **kw):
    im = [[rng.choice([0, 1, 2, 3, 127, 128, 254, 255, rng.randrange(256)]) for _ in range(size)] for _ in range(n)]
    lb = [rng.randrange(classes) for _ in range(n)]
    a = dict(images=im, labels=lb, size=size, steps=steps, classes=classes, max=n + 3, cut=0, nl=1, conv=0, active=0, factor=0)
    a.update(kw)
    return a


def n03(chk):
    cfg = "SPECIFICATION Spec\nCONSTANTS NREC=%d NCLS=%d STEPS=%d GEN=%s\n"
    chk.model("ScoringMC", cfg % (chk.n(2, 3), 2, 2, "FALSE") + "INVARIANTS NothingLost AddsUp OnceEach Local Agree\n", "every small data set and answer", 4000, 2500)
    exe = driver("lib")
    rng = chk.rng
    beh = chk.behaviours("ScoringMC", cfg % (2, 2, 2, "TRUE") + "INVARIANT Emit\n")
    rng.shuffle(beh)
    beh = beh[:chk.n(1500, 10 ** 6)]
    seen, eps = set(), []
    for b in beh:
        k = json.dumps(b)
        if k in seen:
            continue
        seen.add(k)
        n = len(b["labels"])
        a = dataset(rng, n, b["classes"], 1, b["steps"], labels=b["labels"])
        eps.append(["new", J("data", **a), J("split", train=b["train"], infer=b["infer"]), J("infer", spikes=b["spikes"], strict=0, documented=0)])
    conform(chk, exe, "LibTrace", LCFG, eps, "every small evaluation", chunk=60, parallel=8)
    eps = []
    for _ in range(chk.n(500, 8000)):
        n, classes, size, steps = rng.choice([0, 1, 2, 5, 12]), rng.choice([1, 2, 3, 10]), rng.choice([1, 2, 3, 9]), rng.choice([1, 2, 3, 10])
        a = dataset(rng, n, classes, size, steps)
        if rng.random() < .3: a["max"] = rng.choice([1, max(n - 1, 1), n or 1])
        if rng.random() < .2: a["cut"] = rng.choice([1, size, size + 1])
        if rng.random() < .2: a["labels"] = a["labels"][:rng.randrange(n + 1)]
        elif rng.random() < .2: a["labels"] = a["labels"] + [rng.randrange(classes) for _ in range(rng.choice([1, 2]))]
        if rng.random() < .4: a["nl"] = 0
        if rng.random() < .4: a.update(conv=1, active=rng.randint(0, steps), factor=rng.choice([1, 2, 4, 6, 16]))
        e = ["new", J("data", **a)]
        have = min(max(len(a["images"]) * size - a["cut"], 0) // size, len(a["labels"]), a["max"])
        tr, inf = have, 0
        for _ in range(rng.choice([1, 2, 3])):
            x, y = rng.randint(0, have), rng.randint(0, have)
            if rng.random() < .7:
                y = rng.randint(0, have - x)
            e.append(J("split", train=x, infer=y))
            if x + y <= have:
                tr, inf = x, y
            if tr: e.append(J("gen", train=1, steps=[rng.randrange(3 * tr * steps) for _ in range(6)] + list(range(steps))))
            if inf: e.append(J("gen", train=0, steps=[rng.randrange(3 * inf * steps) for _ in range(6)] + list(range(steps))))
            total = inf * steps
            sp = []
            for t in range(total + rng.choice([0, 0, 3])):
                for _ in range(rng.choice([0, 0, 1, 1, 2])):
                    sp.append([t, [rng.randrange(classes * rng.choice([1, 3])) for _ in range(rng.choice([0, 1, 1, 2, 5]))]])
            if rng.random() < .2:      # a silent stretch
                z = rng.randrange(total + 1)
                sp = [x for x in sp if not z <= x[0] < z + 2 * steps]
            e.append(J("infer", spikes=sp, strict=0, documented=0))
        eps.append(e)
    chk.samples += [eps[0][:4]]
    conform(chk, exe, "LibTrace", LCFG, eps, "random data sets", chunk=20, parallel=8)
    # what cannot be repaired without editing existing tests
    a = dataset(rng, 4, 2, 1, 1, labels=[1, 1, 0, 0])
    base = ["new", J("data", **a), J("split", train=0, infer=4)]
    sp = [[0, [1, 3]], [1, [5, 1]], [2, [2, 0]], [3, [3, 1]]]
    conform(chk, exe, "LibTrace", LCFG, [base + [J("infer", spikes=[], strict=0, documented=0), J("infer", spikes=sp, strict=1, documented=0)]],
            "recall column", classify=lambda e, k: "csv-recall" if k == 5 else None)
    conform(chk, exe, "LibTrace", LCFG, [base + [J("infer", spikes=[], strict=0, documented=0), J("infer", spikes=sp, strict=0, documented=1)]],
            "documented counters", classify=lambda e, k: "false-positive-class" if k == 5 else None)


def normals(rng, n):
    lines = []
    for _ in range(n):
        lo = rng.randrange(-8, 8)
        w = rng.choice([1, 2, 4, 8])
        ol = rng.randrange(-8, 8)
        lines.append(J("norm", what=rng.choice(["neurons", "synapses"]), copy=rng.randrange(2), lo=lo, hi=lo + w, ol=ol, oh=ol + w * rng.choice([-2, 0, 1, 2, 3]),
                       pops=[[rng.randrange(-50, 50) for _ in range(rng.choice([0, 1, 3]))] for _ in range(rng.choice([0, 1, 4, 5]))],
                       projs=[[[rng.randrange(5), rng.randrange(5), rng.randrange(90)] for _ in range(rng.choice([0, 1, 4]))] for _ in range(rng.choice([0, 1, 3, 4]))]))
    return group(lines, 10)
