"""Family: the example problems, validated against spec/Problems.tla (ProblemsTrace)."""
import collections
import json
import random

import pool
import tlc
from fam_tools import vector
from result import Result


def slices(r, two, tilted, d1, n):
    """slices of one evaluation: amplitude k, direction, and the rotation they make"""
    out = []
    for _ in range(n):
        if tilted:
            s = r.choice([1, -1])
            if two:
                dr = r.choice([0, 2, 4, 6])
                out.append({"k": s * d1, "dir": dr, "op": [1, 3, 1 if dr in (0, 4) else 2, s if dr < 4 else -s, d1]})
            else:
                out.append({"k": s * d1, "dir": 0, "op": [1, 3, 1, s, d1]})
        elif d1:
            out.append({"k": 0, "dir": r.randrange(8), "op": [0, 3, d1]})
        else:
            k, dr = r.choice([0, 1, 1, -1, 2, 3, -3, 5, 10, -7]), 0
            op = [0, 1, k]
            if two:
                dr = r.randrange(8)
                if dr % 2:
                    m = r.choice([1, 1, -1, 3, 2])
                    k = 2 * m
                    op = [1, 1, 2] + {1: [1, m], 3: [-1, -m], 5: [1, -m], 7: [-1, m]}[dr]
                else:
                    op = [0, {0: 1, 2: 2, 4: 1, 6: 2}[dr], k if dr < 4 else -k]
            out.append({"k": k, "dir": dr, "op": op})
    return out


def scenario(r, i):
    prob = r.choice(["one", "one", "one", "two", "two", "ising", "ising", "isingad", "rosen"])
    sc = {"id": i, "prob": prob, "seed": r.randrange(2**31), "how": r.random() < 0.5, "dt": r.choice([1.0, 0.1, 0.37, 1e-9, 25.0, 1e9])}
    if prob in ("one", "two"):
        sc["tilted"] = r.random() < 0.4
        nz = [1, -1, 2, 3, -5]
        sc["d1"] = r.choice(nz) if sc["tilted"] else r.choice([0, 0, 0] + nz)
        sc["d2"] = r.choice([0, 0.1, 0.25, -0.5, 1.0] if prob == "two" else [0, 0.1, 3.0, -20.0])
        sc["psi0"], sc["target"] = [r.choice([[[1, 0], [0, 0]], [[0, 0], [1, 0]], vector(r, 2), vector(r, 2)]) for _ in range(2)]
        sc["fac"] = r.choice([0, 1, -1])
        sc["drift"] = r.choice([0, 0, 0, 1, 20]) if prob == "one" else 0
        sc["noise"] = r.choice([0, 0, 0, 0, 5, 30])
        sc["off"] = r.random() < 0.2
        sc["calls"] = []
        par = None
        for _ in range(r.choice([1, 2, 4])):
            if prob == "one" and (par is not None or r.random() < 0.3):
                par = r.choice(nz) if sc["tilted"] else r.choice([0, 0] + nz)
            d1 = sc["d1"] if par is None else par
            sc["calls"].append({"par": par, "slices": slices(r, prob == "two", sc["tilted"], d1, r.choice([1, 2, 3, 5, 8]))})
    elif prob == "rosen":
        sc["noise"] = r.choice([0, 0, 10])
        sc["xs"] = [[r.randint(-6, 6) for _ in range(r.choice([1, 2, 2, 3, 5]))] for _ in range(4)]
    else:
        sc["n"], sc["ns"] = r.choice([3, 3, 3, 4]), r.choice([2, 3, 5])
        sc["J"], sc["g"] = r.choice([(0, 0), (0, 0), (0, 0), (1, 2), (1, 0), (0, 1), (2, -1)])
        if sc["J"] or sc["g"]:
            # (a coupling of 1 over a slice of 1e9 is not a computation with a defined outcome)
            sc["dt"] = min(sc["dt"], 25.0)
        sc["max"] = r.choice([None, 0, 1])
        sc["calls"] = [{"k": [r.choice([0, 1, 1, 2, -1, 3]) for _ in range(sc["ns"])] if not (sc["J"] and r.random() < 0.5) else [0] * sc["ns"],
                        "ask": r.random() < 0.5} for _ in range(r.choice([1, 3]))]
    return sc


def run(prop, tier, seed):
    r = random.Random(seed * 17011 + int(prop[1:]))
    return bind(prop, [scenario(r, i) for i in range({"quick": 900, "thorough": 15000}[tier])])


def bind(prop, scs, name="Example problems"):
    by = {s["id"]: s for s in scs}
    res = Result(name)
    trs = pool.run(scs, "prob.execute")
    verdict, res.transitions, res.states = tlc.validate("ProblemsTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs],
                                                        workers=8)
    res.traces = len(trs)
    cnt = collections.Counter()
    for tr in trs:
        res.events += len(tr["ev"])
        for e in tr["ev"]:
            cnt[by[tr["id"]]["prob"] + " " + e["e"]] += 1
        for clause, k in verdict[tr["id"]][1]:
            res.add(clause, "%s event %d %s" % (by[tr["id"]]["prob"], k, json.dumps(tr["ev"][k - 1])[:300]),
                    {"family": "problems", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                     "cfg": tr["cfg"], "traceback": tr["tb"]})
    res.samples.append({"scenario": scs[0], "events": trs[0]["ev"][:3]})
    res.notes = {"events": dict(cnt)}
    return res
