"""X05: backends loaded from libraries."""
import shutil

from kvlib import *

TCFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\n"


def episode(rng, nops):
    r, ls, bs, es, n = ["new"], set(), set(), set(), 0
    while len(r) < nops:
        op = rng.choices(["loader", "droploader", "load", "is", "run", "drop", "ep", "use", "dropep"], [3, 3, 8, 2, 5, 3, 4, 4, 2])[0]
        if op == "loader": ls.add("l%d" % n); r.append("loader l%d" % n); n += 1
        elif op == "is": r.append("is " + rng.choice(["ST", "MT", "STB", "STC", "MTD", "LIB", "TXT", "GONE"]))
        elif op == "droploader" and ls:
            x = rng.choice(sorted(ls)); ls.discard(x); r.append("droploader " + x)
        elif op == "load" and ls:
            p, b = rng.choice(["ST", "ST", "MT", "MT", "STB", "STC", "MTD", "LIB", "TXT", "GONE"]), "b%d" % n
            n += 1
            if p[:2] in ("ST", "MT"):
                if len(bs) > 5: continue
                bs.add(b)
            r.append("load %s %s %s" % (rng.choice(sorted(ls)), p, b))
        elif op == "run" and bs: r.append("run %s %d" % (rng.choice(sorted(bs)), rng.choice([0, 1, 3])))
        elif op == "drop" and bs:
            b = rng.choice(sorted(bs)); bs.discard(b); r.append("drop " + b)
        elif op == "ep" and bs and len(es) < 6: es.add("e%d" % n); r.append("ep %s e%d" % (rng.choice(sorted(bs)), n)); n += 1
        elif op == "use" and es: r.append("use " + rng.choice(sorted(es)))
        elif op == "dropep" and es: e = rng.choice(sorted(es)); es.discard(e); r.append("dropep " + e)
    return r


def x05(chk):
    exe = driver("loader")
    so = {k: driver(k.lower() + "so") for k in ("ST", "MT")}
    txt = os.path.join(chk.work, "text.so")
    open(txt, "w").write("not a library\n")
    lib, src = os.path.join(chk.work, "other.so"), os.path.join(chk.work, "other.c")
    open(src, "w").write("int other(void) { return 1; }\n")
    if subprocess.run(["gcc", "-shared", "-fPIC", "-o", lib, src]).returncode:
        raise CheckError("cannot build a library")
    d = {k: os.path.join(chk.work, k) for k in "abc"}
    for k in d: os.makedirs(d[k], exist_ok=True)
    for a, b in (("ST", d["a"] + "/be.so"), ("MT", d["b"] + "/be.so"), ("ST", d["c"] + "/be.so"), ("MT", d["b"] + "/libother.so")): shutil.copy(so[a], b)
    env = {"KVH_ST": d["a"] + "/be.so", "KVH_MT": d["b"] + "/be.so", "KVH_STB": d["c"] + "/../a/./be.so", "KVH_STC": d["c"] + "/be.so",
           "KVH_MTD": d["b"] + "/other", "KVH_TXT": txt, "KVH_LIB": lib}
    C = "SPECIFICATION Spec\nCONSTANTS Ls={\"l1\",\"l2\"} Bs={\"b1\",\"b2\",\"b3\"} Es={\"e1\",\"e2\"} MaxOps=%d HOLD=\"%s\" GEN=%s\n"
    chk.model("LoaderMC", C % (chk.n(6, 8), "process", "FALSE") + "VIEW V\nINVARIANTS CodeThere NoLeak Own\nPROPERTIES OthersKeep\n", "every short history, libraries held by the process", 500, 900)
    chk.model("LoaderMC", C % (4, "none", "FALSE") + "VIEW V\nINVARIANTS CodeThere\n", "only loaders hold libraries: the specification sees one go under a backend", 5, 300, expect_ok=False)
    chk.model("LoaderMC", C % (6, "backend", "FALSE") + "VIEW V\nINVARIANTS CodeThere\n", "backends hold their library: the specification sees one go under an endpoint", 5, 300, expect_ok=False)
    eps = [["new"] + [" ".join(map(str, x)) for x in b] for b in
           chk.behaviours("LoaderMC", C % (14, "process", "TRUE") + "INVARIANT Emit\n", simulate="num=%d" % chk.n(150, 3000), args=["-depth", "16", "-seed", str(SEED)])]
    eps += [episode(chk.rng, chk.rng.choice([6, 12, 25])) for _ in range(chk.n(150, 3000))]
    chk.samples += [eps[0], eps[-1]]
    conform(chk, exe, "LoaderTrace", TCFG, eps, "loading backends", chunk=1 + len(eps) // 16, parallel=8, env=env)
