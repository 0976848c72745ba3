"""Family: the functions the bases are made of, validated against spec/Basis.tla (BasisTrace)."""
import collections
import json
import random

import pool
import tlc
from result import Result

SIG = ["Sigmoid", "SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas"]


def ncoef(p):
    n = p["n"]
    if p["basis"] in ("Fourier", "Chebyshev"):
        return 2 * n
    if p["basis"] == "Sinc":
        return n
    return n + 1 + (n if p["basis"] == "SigmoidTimeDep" or p["basis"] == "SigmoidAllParas" and p["tv"] else 0) \
        + (n if p["basis"] == "SigmoidSigmas" or p["basis"] == "SigmoidAllParas" and p["sv"] else 0)


def pulse(r, nsi):
    b = r.choice(["Fourier", "Fourier", "Chebyshev", "Sinc"] + SIG + SIG[1:])
    n = r.choice([1, 1, 2, 3, 4])
    p = {"basis": b, "n": n, "q": 1, "S": 0, "O": 0, "tv": 0, "sv": 0, "wu": 1.0, "dflt": False, "av": 2.0**r.choice([0, 1, -2, 5]),
         "h": r.choice([1.0, 0.5, 2.0**-10, 2.0**20]), "ow": r.random() < 0.3}
    if b == "Fourier":
        # the angle per step is 360 * w / (N - 1) degrees
        N = r.choice([2, 3, 4, 5, 7, 13])
        p["N"], p["q"] = N, 12 // (N - 1)
        if N == 7 and r.random() < 0.5:
            p["q"], p["wu"] = 1, 0.5
        if r.random() < 0.5:
            p["h"] = r.choice([0.1, 1e-9, 3.7e5])
        p["ws"] = [[r.randint(0, 7) for _ in range(n)] for _ in range(nsi)]
    elif b == "Chebyshev":
        p["N"] = 5
        p["wu"] = 1.0
        if r.random() < 0.5:
            p["h"] = r.choice([0.1, 1e-9, 3.7e5])
        p["ws"] = [[r.randint(0, 7) for _ in range(n)] for _ in range(nsi)]
    elif b == "Sinc":
        p["N"], p["q"] = r.choice([2, 5, 9, 12]), r.choice([1, 2, 3, 4])
        p["ws"] = [[r.randint(0, p["N"] - 1) for _ in range(n)] for _ in range(nsi)]
    else:
        p["N"] = r.choice([8, 12, 20, 31])
        p["S"], p["O"] = r.choice([0, 0, 1, 1, 2, 3]), r.choice([1, 2, 3] + ([0] if b != "SigmoidAllParas" else []))
        if b != "Sigmoid" and r.random() < 0.3:
            p["dflt"], p["S"], p["O"], p["h"] = True, 0, -1, min(p["h"], 1.0)
        if b in ("SigmoidTimeDep", "SigmoidAllParas"):
            p["tv"] = r.choice([1, 1, 2] + ([0, 0] if b == "SigmoidAllParas" else []))
        if b in ("SigmoidSigmas", "SigmoidAllParas"):
            p["sv"] = r.choice([1, 1, 2] + ([0, 0] if b == "SigmoidAllParas" else []))
        lo = max(p["O"], 0)
        p["ws"] = [[r.randint(lo, p["N"] - 1 - lo) for _ in range(n)] for _ in range(nsi)]
    return p


def coefficients(r, p):
    m, n = ncoef(p), p["n"]
    a = r.random()
    if a < 0.3:
        x = [0] * m
        x[r.randrange(m)] = r.choice([1, -1, 3])
        if p["basis"] in ("Chebyshev",) + tuple(SIG[1:]):
            x[r.randrange(m)] = r.choice([1, -2])
    else:
        x = [r.randint(-4, 4) for _ in range(m)]
    if p["basis"] == "Chebyshev":
        # the second coefficient is a phase, in units of 30 degrees
        return x
    big = r.choice([1, 1, 3, 10])
    k = n + 1
    if p["basis"] == "SigmoidTimeDep" or p["basis"] == "SigmoidAllParas" and p["tv"]:
        for j in range(k, k + n):
            x[j] = r.choice([0, 0, x[j], x[j] * big])
        k += n
    if p["basis"] == "SigmoidSigmas" or p["basis"] == "SigmoidAllParas" and p["sv"]:
        for j in range(k, k + n):
            x[j] = r.choice([0, x[j]])
    return x


def scenario(r, i):
    nsi = r.choice([1, 1, 2, 3])
    ps = [pulse(r, nsi) for _ in range(r.choice([1, 2, 3]))]
    vecs = [[[coefficients(r, p) for p in ps] for _ in range(r.choice([2, 5]))] for _ in range(nsi)]
    return {"id": i, "pulses": ps, "vecs": vecs, "foms": [r.randint(0, 50) for _ in range(17)]}


def run(prop, tier, seed):
    r = random.Random(seed * 9007 + int(prop[1:]))
    return bind(prop, [scenario(r, i) for i in range({"quick": 2500, "thorough": 40000}[tier])])


def bind(prop, scs, name="Basis functions, trace validation"):
    by = {s["id"]: s for s in scs}
    res = Result(name)
    cnt = collections.Counter()
    for c in range(0, len(scs), 10000):
        trs = pool.run(scs[c:c + 10000], "bas.execute")
        verdict, g, d = tlc.validate("BasisTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs], workers=8)
        res.transitions += g
        res.states += d
        res.traces += len(trs)
        for tr in trs:
            res.events += len(tr["ev"])
            for e in tr["ev"]:
                if e["e"] == "val":
                    cnt[tr["cfg"]["p"][e["p"] - 1]["basis"]] += 1
            for clause, k in verdict[tr["id"]][1]:
                e = tr["ev"][k - 1]
                res.add(clause, "%s event %d %s" % (tr["cfg"]["p"][e["p"] - 1] if e["e"] == "val" else "", k, json.dumps(e)[:400]),
                        {"family": "basis", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                         "cfg": tr["cfg"], "traceback": tr["tb"]})
        if not res.samples:
            res.samples.append({"scenario": scs[0], "events": trs[0]["ev"][:4]})
    res.notes = {"pulses by basis": dict(cnt)}
    return res
