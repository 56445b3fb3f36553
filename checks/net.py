"""C03: networks and models."""
from kvlib import *
from cont import line, PCFG


def episode(rng, nops):
    lines = ["new %d" % rng.randrange(1, 10 ** 9)]
    P, J, C = ["a", "b", "c", "d"][:rng.choice([2, 4])], ["j", "k", "l", "a"][:rng.choice([2, 4])], ["x", "y"]
    tag = [0]

    def tags():
        r = []
        for _ in range(rng.choice([0, 1, 3])): r.append(str(tag[0])); tag[0] += 1
        return ",".join(r) or "-"

    def conns():
        r = []
        for _ in range(rng.choice([0, 1, 3])): r.append("%d>%d:%d" % (rng.randrange(4), rng.randrange(4), tag[0])); tag[0] += 1
        return ",".join(r) or "-"

    wl = dict(addpop=14, addproj=14, rmpop=8, rmproj=8, getpop=10, getproj=10, haspop=3, hasproj=3, editpop=4, editproj=4, copynet=2,
              inch=5, outch=5, connect=3)
    nc = 0
    while len(lines) < nops:
        op = rng.choices(list(wl), list(wl.values()))[0]
        p, j = rng.choice(P), rng.choice(J)
        if op == "addpop": lines.append("addpop %s %d %s %s" % (p, rng.randrange(5), tags(), rng.choice(["variant", "move", "copy"])))
        elif op == "addproj": lines.append("addproj %s %d %s %s %s %s" % (j, rng.randrange(3), rng.choice(P), rng.choice(P), conns(), rng.choice(["variant", "move", "copy", "gen"])))
        elif op == "connect":
            nc += 1
            J.append("n%d" % nc)
            lines.append("connect n%d %d %s %s %s" % (nc, rng.randrange(3), rng.choice(P), rng.choice(P), conns()))
        elif op in ("rmpop", "haspop"): lines.append("%s %s" % (op, p))
        elif op in ("rmproj", "hasproj"): lines.append("%s %s" % (op, j))
        elif op == "getpop": lines.append("getpop %s %d %s" % (p, rng.randrange(5), rng.choice(["const", "ref", "variant", "variant"])))
        elif op == "getproj": lines.append("getproj %s %d %s" % (j, rng.randrange(3), rng.choice(["const", "ref", "variant"])))
        elif op == "editpop": lines.append("editpop %s %s" % (p, tags()))
        elif op == "editproj": lines.append("editproj %s %s" % (j, conns()))
        elif op == "inch": lines.append("inch %s %s %s" % (rng.choice(C), j, rng.choice(["uid", "obj"])))
        elif op == "outch": lines.append("outch %s %s %s" % (rng.choice(C), p, rng.choice(["uid", "obj"])))
        else: lines.append(op)
    return lines


def c03(chk):
    exe = driver("net")
    base = "SPECIFICATION Spec\nCONSTANTS PopIds={%s} ProjIds={%s} Kinds={0,1} Chans={%s} MaxOps=%d MaxReg=%d GEN=%s\n"
    chk.model("NetworkMC", base % ('"a","b"', '"j","k"', '"x"', 99, chk.n(1, 2), "FALSE") +
              "INVARIANTS KeyedByUid ProjsAndPopsApart\nPROPERTIES Bystander NoOverwrite\n", "2 populations, 2 projections, 2 kinds, channels", 300)
    eps = []
    for depth, num in ((8, chk.n(100, 1500)), (25, chk.n(100, 1500))):
        for i, h in enumerate(chk.behaviours("NetworkMC", base % ('"a","b","c"', '"j","k"', '"x","y"', depth, 4, "TRUE") + "INVARIANT Emit\n",
                                             simulate="num=%d" % num, args=["-depth", str(depth + 2), "-seed", str(SEED)])):
            eps.append(["new %d" % (i + 1)] + [line(x) for x in h])
    conform(chk, exe, "NetworkTrace", PCFG, eps, "specification behaviours", chunk=60)
    eps = [episode(chk.rng, chk.rng.choice([20, 60])) for _ in range(chk.n(300, 6000))]
    chk.samples += [eps[0][:30], eps[1][:30]]
    conform(chk, exe, "NetworkTrace", PCFG, eps, "random histories", chunk=40, parallel=8)
