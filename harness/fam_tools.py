"""Family: state and signal tools, validated against spec/Tools.tla (ToolsTrace)."""
import collections
import json
import random

import pool
import tlc
from fam_grad import hermitian, kron
from result import Result


def matrix(r, n, m=None, lo=-4, hi=4):
    return [[[r.randint(lo, hi), r.randint(lo, hi)] for _ in range(m or n)] for _ in range(n)]


def vector(r, n):
    while True:
        v = [[r.randint(-3, 3), r.randint(-3, 3)] for _ in range(n)]
        if any(z != [0, 0] for z in v):
            return v


def prod(q):
    p = 1
    for x in q:
        p *= x
    return p


OS = [[[1, 0], [0, 1]], [[1, 1], [1, -1]], [[3, -4], [4, 3]], [[0, -2], [1, 0]], [[1, 2, 2], [2, 1, -2], [2, -2, 1]],
      [[0, 0, -1], [2, 0, 0], [0, 3, 0]], [[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]], [[-1]], [[2]]]


def case(r):
    k = r.choice(["ptrace", "ptrace", "ptrace", "badtrace", "dm", "comm", "sqrt", "sqrt", "fid", "fid", "pure", "disp", "gs", "liou", "simplex", "simplex",
                  "resample", "resample", "ou", "ou"])
    c = {"kind": k}
    if k == "ptrace":
        while True:
            c["dims"] = [r.choice([1, 2, 2, 2, 3, 4]) for _ in range(r.choice([1, 2, 2, 3, 3, 4]))]
            if prod(c["dims"]) <= 16:
                break
        c["out"] = [i for i in range(len(c["dims"])) if r.random() < 0.5]
        r.shuffle(c["out"])
        c["tuple"] = r.random() < 0.5
        c["m"] = matrix(r, prod(c["dims"]), lo=-30, hi=30)
    elif k == "badtrace":
        c["dims"] = [2] * r.choice([1, 2, 3])
        c["out"] = [r.choice([-1, len(c["dims"]), len(c["dims"]) + 2])] + ([0] if r.random() < 0.5 else [])
    elif k == "dm":
        c["v"] = vector(r, r.choice([1, 2, 3, 4, 8]))
    elif k == "comm":
        n = r.choice([1, 2, 3, 4])
        c["a"], c["b"] = matrix(r, n), matrix(r, n)
    elif k == "sqrt":
        n = r.choice([1, 2, 3, 4])
        c["g"] = matrix(r, r.choice([1, n, n]), n, -2, 2)
    elif k == "fid":
        n = r.choice([2, 2, 3, 4])
        c["p"], c["q"] = [[r.choice([0, 1, 1, 2, 3]) for _ in range(n)] for _ in range(2)]
        if r.random() < 0.6:
            c["p"], c["q"] = [[max(1, x) for x in c[y]] for y in ("p", "q")]
        p = list(range(n))
        r.shuffle(p)
        c["rot"] = {"perm": p, "ph": [r.randrange(4) for _ in range(n)], "had": r.random() < 0.6}
    elif k == "pure":
        n = r.choice([2, 2, 3, 4])
        a = r.choice([1, 2, 3])             # |v| an integer power of the scale, so that the square root is exact enough
        c["v"] = [[0, 0] for _ in range(n)]
        c["v"][r.randrange(n)] = r.choice([[a, 0], [0, a], [-a, 0]])
        if r.random() < 0.6:
            i, j = r.sample(range(n), 2)
            c["v"] = [[0, 0] for _ in range(n)]
            c["v"][i], c["v"][j] = r.choice([[[3, 0], [0, 4]], [[0, -3], [4, 0]], [[1, 1], [1, -1]], [[4, 0], [3, 0]]])
        c["w"] = vector(r, n)
    elif k == "disp":
        c["left"], c["k"], c["dir"] = r.choice([1, 1, 2]), r.randint(-4, 4), r.randrange(8)
    elif k == "gs":
        c["o"] = r.choice(OS)
        n = len(c["o"])
        c["r"] = [[0 if j < i else r.randint(1, 3) if i == j else r.randint(-3, 3) for j in range(n)] for i in range(n)]
    elif k == "liou":
        n = r.choice([1, 2, 3, 4])
        c["h"], c["rho"] = hermitian(r, n), matrix(r, n)
    elif k == "simplex":
        n = r.choice([1, 2, 3, 4, 7])
        c.update(mean=[r.randint(-9, 9) for _ in range(n)], sig=[r.choice([1, 2, 5, 0.1, 30]) for _ in range(n)],
                 seed=r.randrange(2**31), own=r.random() < 0.6)
    elif k == "resample":
        n, m = r.choice([2, 3, 5, 8]), r.choice([1, 1, 2, 3])
        c["vals"] = [[r.randint(-99, 99) for _ in range(m)] for _ in range(n)]
        c["per"] = r.choice([1, 3, 5, 7])
        c["times"] = [r.randint(-2 * c["per"], (n + 2) * c["per"]) for _ in range(r.choice([1, 3, 9, 20]))]
        if r.random() < 0.6:
            c["times"].sort()
        c["dt"], c["float"], c["arr"] = r.choice([1.0, 0.1, 1e-9, 0.03]), r.random() < 0.6, r.random() < 0.6
    elif k == "ou":
        c.update(tau=r.choice([1.0, 0.5, 20.0, 1e-3]), h=r.choice([1, 1, 2, 3]), ct=r.choice([1, 2, 8]), ns=r.choice([1, 2, 3, 7, 30]),
                 frac=r.choice([0, 0, 1, 3, 5, 9]), x0=r.choice([0, 1, -3, 10]), seed=r.randrange(2**31), traj=r.choice([1, 2, 4]))
    return c


def run(prop, tier, seed):
    r = random.Random(seed * 13007 + int(prop[1:]))
    n, m = {"quick": (1200, 8), "thorough": (20000, 100)}[tier]
    scs = [{"id": i, "cases": [case(r) for _ in range(4)]} for i in range(n)]
    for i in range(m):
        scs.append({"id": n + i, "cases": [{"kind": "oustat", "tau": r.choice([1.0, 7.0, 0.02]), "h": r.choice([1, 2, 3]),
                                            "ct": r.choice([1, 2, 8]), "ns": 301, "traj": 80, "seed": r.randrange(2**31)}]})
    return bind(prop, scs, "random inputs")


def bind(prop, scs, name):
    by = {s["id"]: s for s in scs}
    res = Result("State and signal tools, " + name)
    trs = pool.run(scs, "tools.execute")
    verdict, res.transitions, res.states = tlc.validate("ToolsTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs],
                                                        workers=8)
    res.traces = len(trs)
    cnt = collections.Counter()
    for tr in trs:
        res.events += len(tr["ev"])
        for e in tr["ev"]:
            cnt[e["e"]] += 1
        for clause, k in verdict[tr["id"]][1]:
            res.add(clause, "event %d %s" % (k, json.dumps(tr["ev"][k - 1])[:300]),
                    {"family": "tools", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                     "cfg": tr["cfg"], "traceback": tr["tb"]})
    res.samples.append({"scenario": scs[0], "events": trs[0]["ev"][:3]})
    res.notes = {"events": dict(cnt)}
    return res
