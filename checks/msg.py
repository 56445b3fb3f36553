"""B03: messages and their encodings."""
import struct
from kvlib import *

U64 = [0, 1, 7, 255, 256, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1]
U32 = [0, 1, 9, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]
FLT = [0.0, 1.0, -1.0, 0.1, 1 / 3, -2 / 3, 1e-3, 123456.789, 16777217.0, 16777215.0, 3.4e38, 1.17549435e-38, 1e-20, 2.5, 1e10, 0.30000001]


def fb(x): return str(struct.unpack("<I", struct.pack("<f", x))[0])


def rfloat(rng):
    if rng.random() < .4: return fb(rng.choice(FLT))
    while True:
        b = rng.randrange(2**32)
        if (b >> 23) & 255 not in (0, 255): return str(b)      # no zeros, denormals, infinities, NaN


def ruid(rng): return "00" * 16 if rng.random() < .1 else "".join("%02x" % rng.choice([0, 1, 9, 10, 13, 32, 127, 128, 255, rng.randrange(256)]) for _ in range(16))
def r64(rng): return str(rng.choice(U64) if rng.random() < .6 else rng.randrange(2**64))
def r32(rng): return str(rng.choice(U32) if rng.random() < .6 else rng.randrange(2**32))
def rimp(rng): return [r64(rng), rfloat(rng), rng.randrange(5), r32(rng), r32(rng)]


def rmsg(rng, k=None, n=None):
    n = rng.choice([0, 0, 1, 2, 3, 10, 300]) if n is None else n
    if (k or rng.choice(["spike", "impact"])) == "spike":
        return {"k": "spike", "snd": ruid(rng), "time": r64(rng), "idx": [r32(rng) for _ in range(n)]}
    return {"k": "impact", "snd": ruid(rng), "time": r64(rng), "pre": ruid(rng), "post": ruid(rng), "forcing": rng.randrange(2),
            "imps": [rimp(rng) for _ in range(min(n, 60))]}


def change(rng, m):
    """The same message with exactly one thing different."""
    m = json.loads(json.dumps(m))
    f = rng.choice([x for x in m if x != "k"])
    if f in ("idx", "imps"):
        s = m[f]
        how = rng.choice(["add", "drop", "edit", "swap"])
        new = (lambda: r32(rng)) if f == "idx" else (lambda: rimp(rng))
        if how == "add" or not s: s.insert(rng.randrange(len(s) + 1), new())
        elif how == "drop": s.pop(rng.randrange(len(s)))
        elif how == "swap" and len(s) > 1: s[0], s[-1] = s[-1], s[0]
        elif f == "idx": s[rng.randrange(len(s))] = r32(rng)
        else:
            i = rng.choice(s)
            j = rng.randrange(5)
            i[j] = [r64(rng), rfloat(rng), (i[2] + rng.randrange(1, 5)) % 5, r32(rng), r32(rng)][j]
    elif f == "time":
        m[f] = str((int(m[f]) + rng.choice([1, 256, 2**32, 2**63])) % 2**64)
    elif f == "forcing": m[f] = 1 - m[f]
    else:
        i = 2 * rng.randrange(16)
        m[f] = m[f][:i] + "%02x" % ((int(m[f][i:i + 2], 16) + rng.choice([1, 128])) % 256) + m[f][i + 2:]
    return m


def zeros(m):   # equal as numbers, different as bits
    return m["k"] == "impact" and any(i[1] in ("2147483648",) for i in m["imps"])


def vector(b, rng):
    """A message of the specification with its symbolic values made concrete."""
    u = {"u1": ruid(rng), "u2": ruid(rng), "nil": "00" * 16}
    t = {"lo": "0", "mid": r64(rng), "hi": str(2**64 - 1)}
    x = {"lo": "0", "hi": str(2**32 - 1), "v1": rfloat(rng), "v2": fb(1 / 3)}
    m = dict(b)
    for f in ("snd", "pre", "post"):
        if f in m: m[f] = u[m[f]]
    m["time"] = t[m["time"]]
    if "idx" in m: m["idx"] = [x[i] for i in m["idx"]]
    else: m["imps"] = [[t[i[0]], x[i[1]], i[2], x[i[3]], x[i[4]]] for i in m["imps"]]
    return m


J = lambda x: json.dumps(x, separators=(",", ":"))


def b03(chk):
    rng = chk.rng
    exe = driver("msg")
    cfg = "SPECIFICATION Spec\nCONSTANT MaxLen=%d\nINVARIANTS RoundTrip SelfDelimiting\n" % chk.n(2, 2)
    chk.model("MessageMC", cfg, "every small message", 1000, 900)
    eps = []
    beh = chk.behaviours("MessageMC", "SPECIFICATION Spec\nCONSTANT MaxLen=%d\nINVARIANT Emit\n" % chk.n(1, 2), limit=chk.n(1500, 20000))
    for i in range(0, len(beh), 10):
        e = ["new"]
        for m, old in beh[i:i + 10]:
            m = vector(m, rng)
            e.append("pack " + J(m))
            e.append("text " + J({"in": m, "old": rmsg(rng, m["k"], 0 if old == "empty" else rng.choice([1, 3]))}))
        eps.append(e)
    for _ in range(chk.n(500, 8000)):
        e = ["new"]
        for _ in range(rng.choice([2, 8])):
            m = rmsg(rng)
            op = rng.choice(["pack", "pack", "text", "texts", "eq", "eq", "header"])
            if op == "pack": e.append("pack " + J(m))
            elif op == "text": e.append("text " + J({"in": m, "old": rmsg(rng, m["k"])}))
            elif op == "texts": e.append("texts " + J([rmsg(rng, n=rng.choice([0, 1, 2])) for _ in range(4)]))
            elif op == "eq":
                o = rng.choice([lambda: m, lambda: change(rng, m), lambda: change(rng, m), lambda: rmsg(rng, m["k"])])()
                if not zeros(m) and not zeros(o): e.append("eq " + J({"a": m, "b": o}))
            else: e.append("header " + J([m["snd"], m["time"]]))
        eps.append(e)
    chk.samples += [eps[-1][:3]]
    chk.assumptions += ["impact values are finite, normal numbers"]
    conform(chk, exe, "MessageTrace", "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\n", eps, "messages", chunk=100, parallel=8)
