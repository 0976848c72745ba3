"""Family: piecewise propagators, validated against spec/Evolution.tla (EvolutionTrace)."""
import collections
import json
import random

import pool
import tlc
from result import Result


def commute(p, q):
    return sum(1 for a, b in zip(p, q) if a and b and a != b) % 2 == 0


def string(r, n):
    while True:
        q = [r.randint(0, 3) for _ in range(n)]
        if any(q):
            return q


def angle(r):
    return r.choice([-9, -7, -5, -3, -2, -1, 1, 1, 1, 2, 3, 4, 5, 6, 8, 11])


def scenario(r, i, ad=False):
    n = r.choice([1, 1, 2, 2, 3]) if not ad else r.choice([1, 2])
    K = r.choice([1, 2, 3]) if not ad else r.choice([1, 2])
    ns = r.choice([1, 2, 3, 4, 5, 6]) if not ad else r.choice([1, 4])
    ctrl = [string(r, n) for _ in range(K)]
    tilted = r.random() < 0.25
    drift = None
    if tilted:
        drift = [string(r, n), r.choice([1, -1, 3])]
        q = string(r, n)
        while commute(q, drift[0]):
            q = string(r, n)
        ctrl[r.randrange(K)] = q
    elif r.random() < 0.5:
        drift = [string(r, n), angle(r)]
    slices = []
    for _ in range(ns):
        js = list(range(K))
        r.shuffle(js)
        if tilted:
            j = next(j for j in js if not commute(ctrl[j], drift[0]))
            s = r.choice([1, -1])
            slices.append({"tilt": drift[1], "s": s, "set": [[j, s * drift[1]]], "ops": [[drift[0], 0], [ctrl[j], 0]]})
            continue
        pair = [(a, b) for a in js for b in js if a < b and not commute(ctrl[a], ctrl[b])]
        if not drift and pair and r.random() < 0.4:
            a, b = r.choice(pair)
            m, s = r.choice([1, -1, 3, 2]), r.choice([1, -1])
            slices.append({"tilt": m, "s": s, "set": [[a, m], [b, s * m]], "ops": [[ctrl[a], 0], [ctrl[b], 0]]})
            continue
        act, ops = [], [[drift[0], drift[1]]] if drift else []
        for j in js:
            if r.random() < 0.7 and all(commute(ctrl[j], q) for q, _ in ops):
                k = angle(r)
                act.append([j, k])
                ops.append([ctrl[j], k])
        slices.append({"tilt": 0, "s": 1, "set": act, "ops": ops})
    return {"id": i, "n": n, "dt": r.choice([1.0, 0.1, 0.37, 12.5, 1e-6, 1e-9, 1e9]), "ctrl": ctrl,
            "w": [r.choice([1.0, 1.0, 2.0, -0.5]) for _ in ctrl], "drift": drift, "tilted": tilted, "slices": slices,
            "first": [[string(r, n), angle(r)] for _ in range(r.choice([0, 1, 3]))], "extra": r.choice([0, 0, 2]),
            "room": r.choice([0, 0, 1]), "ad": ad, "store": r.choice([1, 2]) if not ad else r.choice([0, 1, 2]),
            "matrix": r.random() < 0.2}


def run(prop, tier, seed):
    r = random.Random(seed * 9001 + int(prop[1:]))
    n, a = {"quick": (900, 60), "thorough": (12000, 600)}[tier]
    return bind(prop, [scenario(r, i) for i in range(n)] + [scenario(r, n + i, True) for i in range(a)], "random slices")


def bind(prop, scs, name):
    by = {s["id"]: s for s in scs}
    res = Result("Piecewise propagators, " + name)
    trs = pool.run(scs, "evo.execute")
    verdict, res.transitions, res.states = tlc.validate("EvolutionTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs],
                                                        workers=8)
    res.traces = len(trs)
    cnt = collections.Counter()
    for tr in trs:
        res.events += len(tr["ev"])
        for e in tr["ev"]:
            cnt[e["e"] + ("_AD" if e.get("fn") else "")] += 1
        for clause, k in verdict[tr["id"]][1]:
            if clause == "E_spec":
                raise tlc.TlcError("a slice of the model is not unitary")
            res.add(clause, "event %d %s" % (k, json.dumps(tr["ev"][k - 1])[:300]),
                    {"family": "evolution", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                     "cfg": tr["cfg"], "traceback": tr["tb"]})
    res.samples.append({"scenario": scs[0], "events": trs[0]["ev"][:3]})
    res.notes = {"events": dict(cnt)}
    return res
