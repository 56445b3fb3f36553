"""E06: what a backend holds and runs."""
from kvlib import *

TCFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\n"
NK, SK = ["B", "SB", "A", "SA", "L"], ["D", "AD", "SD"]
HEAR = "P1 P2 P3 P4 J1 J2 J3 J4"


def lines(b, rng):
    r = ["new %s %d %s" % (b[0], rng.randrange(1, 10 ** 9), HEAR)]
    for h in b[1:]:
        if h[0] in ("pops", "projs"): r.append(" ".join([h[0]] + [":".join(map(str, x)) for x in h[1]]))
        elif h[0] == "learn": r.append("learn " + ("start" if h[1] else "stop"))
        elif h[0] == "run": r.append("run 1")
        else: r.append(" ".join([h[0]] + list(h[1])))
    return r


def episode(rng, nops):
    be = rng.choice(["st", "mt"])
    r = ["new %s %d %s" % (be, rng.randrange(1, 10 ** 9), HEAR)]
    nk, sk = (NK, SK) if be == "st" else (["B", "SB", "L"], ["D", "SD"])
    okp = okj = True
    while len(r) < nops:
        op = rng.choices(["pops", "projs", "rmpops", "rmprojs", "learn", "run"], [3, 3, 3, 3, 1, 8])[0]
        if op == "pops":
            ks = NK if rng.random() < .15 else nk
            us = rng.sample(["P1", "P2", "P3", "P4"], rng.choice([0, 1, 2, 2, 3, 4]))
            c = [(u, rng.choice(ks), rng.choice([1, 2, 3])) for u in us]
            okp = all(k in nk for _, k, _ in c)
            r.append(" ".join(["pops"] + ["%s:%s:%d" % x for x in c]))
        elif op == "projs":
            ks = SK if rng.random() < .15 else sk
            us = rng.sample(["J1", "J2", "J3", "J4"], rng.choice([0, 1, 2, 2, 3, 4]))
            # the presynaptic population of a projection is always the same; its synapses read the first neuron
            c = [(u, rng.choice(ks), "P" + u[1], rng.choice(["P1", "P2", "P3", "P4"]), 1, rng.choice([1, 1, 2, 3]), rng.choice([0, 1])) for u in us]
            okj = all(k in sk for _, k, *_ in c)
            r.append(" ".join(["projs"] + [":".join(map(str, x)) for x in c]))
        elif op == "rmpops" and okp: r.append("rmpops " + " ".join(rng.choice(["P1", "P2", "P3", "P4", "P9", "J1"]) for _ in range(rng.choice([0, 1, 1, 2]))))
        elif op == "rmprojs" and okj: r.append("rmprojs " + " ".join(rng.choice(["J1", "J2", "J3", "J4", "J9", "P1"]) for _ in range(rng.choice([0, 1, 1, 2]))))
        elif op == "learn" and okj: r.append("learn " + rng.choice(["start", "stop"]))
        elif op == "run" and okp and okj: r.append("run %d" % rng.choice([1, 1, 2, 4]))
    return r


def e06(chk):
    exe = driver("hold")
    C = "SPECIFICATION Spec\nCONSTANTS MaxOps=%d GEN=%s\n"
    chk.model("HoldMC", C % (chk.n(5, 7), "FALSE") + "VIEW V\nINVARIANTS Held DueSoon\nPROPERTIES FromHeld Apart Silent\n", "every short history", 1000, 900)
    eps = [lines(b, chk.rng) for b in chk.behaviours("HoldMC", C % (14, "TRUE") + "INVARIANT Emit\n", simulate="num=%d" % chk.n(300, 6000),
                                                     args=["-depth", "16", "-seed", str(SEED)])]
    eps += [episode(chk.rng, chk.rng.choice([6, 12, 25])) for _ in range(chk.n(700, 12000))]
    chk.samples += [eps[0], eps[-1]]
    conform(chk, exe, "HoldTrace", TCFG, eps, "what a backend holds", chunk=100, parallel=8)
