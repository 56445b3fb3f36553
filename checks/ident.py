"""C04: identifiers and tags."""
from kvlib import *

TCFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\n"
KINDS = ["map", "p0", "p1", "p2", "j0", "j1", "j2", "net"]
WAYS = ["copy", "assign", "variant", "net", "netvar", "model", "st", "mt"]


def lines(b, rng):
    r = ["new %d" % rng.randrange(1, 10 ** 9)]
    for h in b:
        x = " ".join(str(v) for v in h)
        r.append(x + " " + rng.choice(["ref", "get"]) if h[0] == "set" else x)
    return r


def value(rng):
    t = rng.choice("isdv") if rng.random() < .8 else "io"
    return t + ":" + {"i": lambda: str(rng.randrange(-5, 2000000000)), "d": lambda: str(rng.randrange(0, 1000)),
                      "s": lambda: "".join(rng.choice("abXY01:._") for _ in range(rng.choice([1, 3, 40]))),
                      "v": lambda: "".join("%d." % rng.randrange(1000) for _ in range(rng.choice([0, 1, 5]))),
                      "io": lambda: rng.choice(["input", "output"])}[t]()


def rand_bytes(rng, pool):
    if pool and rng.random() < .5:
        b = list(rng.choice(pool))
        if rng.random() < .7: b[rng.randrange(16)] ^= rng.choice([1, 128, 255])      # near one another
    else:
        b = rng.choice([[0] * 16, [rng.randrange(256) for _ in range(16)], [rng.choice([0, 1, 127, 128, 255]) for _ in range(16)]])
    pool.append(b)
    return ".".join(map(str, b))


def episode(rng, nops):
    r, hs, at, pool = ["new %d" % rng.randrange(1, 10 ** 9)], {}, {}, []
    names = ["h%d" % i for i in range(rng.choice([1, 3, 6]))]
    while len(r) < nops:
        op = rng.choices(["make", "set", "inplace", "setname", "get", "carry", "move", "fresh", "count", "uid", "rel"],
                         [6, 10, 3, 3, 6, 9, 2, 2, 1, 3, 1])[0]
        h = rng.choice(names)
        if op == "make":
            k = rng.choice(KINDS)
            r.append("make %s %s %s" % (h, k, "-" if k == "map" else rng.choice(["fresh", "fresh", "u1", "u2", "u3"])))
            hs[h], at[h] = k, {}
        elif op == "fresh": r.append("%s %d %d" % (rng.choice(["fresh", "fresh2"]), rng.choice([1, 5, 60]), rng.choice([1, 2, 4])))
        elif op == "count":
            # numbers small enough for the specification's arithmetic, across byte borders
            n = rng.choice([1, 7, 100])
            r.append("count %d %d %d" % (rng.choice([0, 1, 250, 65530, 16777210, rng.randrange(2 ** 30 - 200)]), n, rng.choice([1, 2, 4])))
        elif op == "uid": r.append("uid " + rand_bytes(rng, pool))
        elif op == "rel": r.append("rel " + " ".join(rand_bytes(rng, pool) for _ in range(rng.choice([1, 2, 4, 7]))))
        elif not hs: continue
        else:
            h = rng.choice(list(hs))
            t = rng.choice(["a", "b", "name", "io_type"])
            if op == "set":
                v = "s:" + rng.choice(["n1", "n2"]) if t == "name" else value(rng)
                r.append("set %s %s %s %s" % (h, t, v, rng.choice(["ref", "get"]))); at[h][t] = v[0] if v[:2] != "io" else "io"
            elif op == "inplace":
                ok = [x for x in at[h] if at[h][x] in "si"]
                if ok:
                    t = rng.choice(ok)
                    r.append("set %s %s %s typed" % (h, t, "s:" + rng.choice(["p", "qq"]) if at[h][t] == "s" else "i:%d" % rng.randrange(99)))
            elif op == "setname": r.append("setname %s %s" % (h, rng.choice(["one", "two", "three"]))); at[h]["name"] = "s"
            elif op == "get": r.append("get %s %s %s" % (h, t, rng.choice(["i", "s", "d", "io", "v"])))
            else:
                to = rng.choice(names)
                if to == h: continue
                w = rng.choice(WAYS)
                if w == "mt" and hs[h] not in ("p0", "p2", "j0", "j2"): w = "st"
                r.append("carry %s %s %s" % (h, to, w) if op == "carry" else "move %s %s" % (h, to))
                hs[to], at[to] = hs[h], dict(at[h])
                if op == "move": del hs[h], at[h]
    return r


def c04(chk):
    exe = driver("ident")
    C = "SPECIFICATION Spec\nCONSTANTS Handles=%s Kinds=%s MaxOps=%d GEN=%s\n"
    chk.model("IdentityMC", C % ('{"h1","h2","h3"}', '{"p0","net"}', chk.n(4, 5), "FALSE") + "VIEW V\nINVARIANTS Drawn\nPROPERTIES OneAtATime UidKept ReadsLast\n",
              "every short history", 1000, 900)
    eps = [lines(b, chk.rng) for b in chk.behaviours("IdentityMC", C % ('{"h1","h2","h3"}', '{"map","p0","p1","p2","j0","j1","j2","net"}', 14, "TRUE") + "INVARIANT Emit\n",
                                           simulate="num=%d" % chk.n(400, 6000), args=["-depth", "16", "-seed", str(SEED)])]
    eps += [episode(chk.rng, chk.rng.choice([6, 15, 30])) for _ in range(chk.n(700, 12000))]
    chk.samples += [eps[0], eps[-1]]
    chk.assumptions += ["random identifiers of 128 bits are drawn some tens of thousands at a time; that they never collide is not shown"]
    conform(chk, exe, "IdentityTrace", TCFG, eps, "identifiers and tags", chunk=150, parallel=8)
