"""Family: gradients of GRAPE and AD, validated against spec/Gradient.tla (GradientTrace)."""
import collections
import json
import random

import pool
import tlc
from result import Result


def cmul(a, b):
    return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]


def mmul(A, B):
    out = []
    for row in A:
        o = []
        for j in range(len(B[0])):
            s = [0, 0]
            for k, v in enumerate(row):
                p = cmul(v, B[k][j])
                s = [s[0] + p[0], s[1] + p[1]]
            o.append(s)
        out.append(o)
    return out


def kron(A, B):
    return [[cmul(a, b) for a in ra for b in rb] for ra in A for rb in B]


PH = [[1, 0], [0, 1], [-1, 0], [0, -1]]
H = [[[1, 0], [1, 0]], [[1, 0], [-1, 0]]]
I2 = [[[1, 0], [0, 0]], [[0, 0], [1, 0]]]


def unitary(r, d):
    """an exact unitary: permutations with phases and Hadamards"""
    p = list(range(d))
    r.shuffle(p)
    m = [[r.choice(PH) if j == p[i] else [0, 0] for j in range(d)] for i in range(d)]
    e = 0
    if d == 2 and r.random() < 0.6:
        m, e = mmul(H, m), 1
    if d == 4 and r.random() < 0.5:
        m, e = mmul(kron(H, I2) if r.random() < 0.5 else kron(I2, H), m), 1
    return {"m": m, "d": e}


def hermitian(r, d, real=False):
    m = [[[0, 0] for _ in range(d)] for _ in range(d)]
    for i in range(d):
        m[i][i] = [r.randint(-2, 2), 0]
        for j in range(i):
            a, b = r.randint(-2, 2), 0 if real else r.randint(-2, 2)
            m[i][j], m[j][i] = [a, b], [a, -b]
    return m


def scenario(r, i, alg):
    d = r.choice([2, 2, 3, 4])
    sc = {"id": i, "alg": alg, "seed": r.randrange(2**31), "fac": r.choice([1, -1]), "nsi": 1 if alg == 0 else r.choice([1, 2, 3]),
          "dt": r.choice([1.0, 0.1, 0.37, 1e-9, 1e-6, 40.0]) if alg == 0 else 0.5, "par": []}
    sc["stop"] = {k: v for k, v in (("ftol", r.choice([1e-4, 1e-9, 0.25])), ("gtol", r.choice([1e-3, 1e-7])),
                                    ("maxls", r.choice([5, 40])), ("max_eval_total", r.choice([100, 5000]))) if r.random() < 0.4}
    npul = 1 if alg == 0 else r.choice([1, 2])
    bins = [r.choice([1, 2, 3, 4, 5]) if alg == 0 else r.choice([2, 3]) for _ in range(npul)]
    if alg == 0 and bins[0] == 1:
        bins[0] = 2
    sc["pulses"] = [{"bins": b, "guess": [r.randint(-3, 3) for _ in range(b)], "sc": r.choice([1, 1, 2, -1]), "lo": -100000, "hi": 100000}
                    for b in bins]
    sc["plim"] = []
    if alg:
        for p in sc["pulses"]:
            if r.random() < 0.5:
                p["lo"], p["hi"] = -r.randint(3, 8), r.randint(3, 8)
        sc["par"] = [r.randint(-2, 3) for _ in range(r.choice([0, 1, 2]))]
        sc["plim"] = [r.choice([[-100000, 100000], [-r.randint(3, 5), r.randint(3, 5)]]) for _ in sc["par"]]
        sc["coef"] = [[[r.randint(-5, 5), r.randint(-2, 2)] for _ in range(b)] for b in bins]
        sc["pcoef"] = [[r.randint(-5, 5), r.randint(-2, 2)] for _ in sc["par"]]
        sc["cross"] = r.randint(-3, 3)
    else:
        sc["real"] = r.choice([0, 0, 1, 2])
        sc["rho"], sc["target"], sc["B"] = [hermitian(r, d, sc["real"] and r.random() < 0.7) for _ in range(3)]
        sc["us"] = [[unitary(r, d) for _ in range(bins[0])] for _ in range(5)]
        v = list(range(-20, 20))
        r.shuffle(v)
        sc["vals"] = v
    n = sum(bins) + len(sc["par"])
    sc["asks"] = [[[[r.randint(-6, 6) for _ in range(n)], r.choice(["f", "g", "fg", "fg"])]
                   for _ in range(r.choice([1, 2, 4]))] for _ in range(sc["nsi"])]
    return sc


def run(prop, tier, seed):
    r = random.Random(seed * 11003 + int(prop[1:]))
    n, a = {"quick": (700, 110), "thorough": (12000, 800)}[tier]
    scs = [scenario(r, i, 0) for i in range(n)] + [scenario(r, n + i, 1) for i in range(a)]
    return bind(prop, scs, "random points")


def bind(prop, scs, name):
    by = {s["id"]: s for s in scs}
    res = Result("Gradients of GRAPE and AD, " + name)
    trs = pool.run(scs, "grad.execute")
    verdict, res.transitions, res.states = tlc.validate("GradientTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs],
                                                        workers=8)
    res.traces = len(trs)
    cnt = collections.Counter()
    for tr in trs:
        res.events += len(tr["ev"])
        alg = ["GRAPE", "AD"][by[tr["id"]]["alg"]]
        for e in tr["ev"]:
            cnt["%s %s" % (alg, e["e"])] += 1
        for clause, k in verdict[tr["id"]][1]:
            res.add(clause, "%s event %d %s" % (alg, k, json.dumps(tr["ev"][k - 1])[:300]),
                    {"family": "gradient", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                     "cfg": tr["cfg"], "traceback": tr["tb"]})
    res.samples.append({"scenario": scs[0], "events": trs[0]["ev"][:4]})
    res.notes = {"events": dict(cnt)}
    return res
