"""Family: CMA-ES alone on scripted functions, validated against spec/Cmaes.tla (CmaesTrace)."""
import collections
import json
import random

import pool
import tlc
from result import Result

BIG = 999999999

TAGS = {"C17": None,
        "C09": {"P_goeson", "R_early", "R_reason"},
        "C08": {"P_goeson", "R_early", "R_reason"},
        "C10": {"R_early", "R_reason", "R_user", "R_middle"}}


def scenario(r, i, prop):
    dim = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8])
    pop = r.choice([None, None, None, 2, 3, 4, 5, 6, 7, 9, 12])
    l = pop or [4, 6, 7, 8, 8, 9, 9, 10][dim - 1]
    n = 60
    sc = {"id": i, "seed": r.randrange(2**31), "pop": pop, "x0": [r.randint(-600, 600) for _ in range(dim)],
          "sv": [4 * r.randint(5, 60) for _ in range(dim)], "zper": l, "zoff": r.randrange(1, l)}
    if r.random() < 0.4:
        sc["line"] = True
    style = r.choice(["ties", "few", "distinct", "distinct", "down", "up", "walk"])
    if style == "ties":
        v = [r.randint(0, 1) for _ in range(n)]
    elif style == "few":
        v = [r.randint(0, 6) for _ in range(n)]
    elif style == "distinct":
        v = list(range(n))
        r.shuffle(v)
    elif style in ("down", "up"):
        v = [3 * k + r.randint(0, 2) for k in range(n)]
        v = v if style == "up" else [-x for x in v]
    else:
        v, a = [], 0
        for _ in range(n):
            a += r.randint(-9, 9)
            v.append(a)
    sc["vals"] = [6 * x for x in v]
    if r.random() < 0.2:            # evaluations which failed
        q = r.choice([0.1, 0.3, 0.9])
        sc["vals"] = [BIG if r.random() < q else x for x in sc["vals"]]
    sc["durs"] = [r.choice([0, 2, 2, 4, 10]) for _ in range(n)]
    sc["maxev"] = r.choice([1, l - 1, l, l + 1, 2 * l, 2 * l + 1, 3 * l, 4 * l, 5 * l, 40, 60])
    p = r.random
    if p() < (0.7 if prop == "C09" else 0.2):
        sc["fatol"] = r.choice([1, 3, 10, 25, 60])
    if p() < (0.7 if prop == "C08" else 0.2):
        sc["tlim"] = r.choice([3, 15, 41, 77, 20, 40])
    if p() < (0.25 if prop != "C10" else 0.7):
        sc["cbn"] = r.choice([1, l, l + 1, 2 * l - 1, 2 * l, 3 * l])
    elif p() < 0.5:
        sc["cbtrue"] = True
    if r.random() < 0.25:
        k = r.choice([601, 7201, 40001])
        sc["durs"] = [d * k for d in sc["durs"]]
        for x in ("tlim", "dsec"):
            if sc.get(x):
                sc[x] *= k
    if r.random() < 0.5:
        sc["unit"] = 2.0 ** r.choice([-30, -20, -7, 7, 24, 40])
    if r.random() < 0.4:
        sc["cunit"] = 2.0 ** r.choice([-24, -12, 12, 30])
    return sc


def batch(prop, tier, seed):
    r = random.Random(seed * 6007 + int(prop[1:]))
    n = {"quick": 2000, "thorough": 40000}[tier]
    return [scenario(r, i, prop) for i in range(n)]


def run(prop, tier, seed):
    return bind(prop, batch(prop, tier, seed), "random scripts")


def bind(prop, scs, name, chunk=10000):
    res = Result("CMA-ES trace validation, " + name)
    tags = TAGS[prop]
    reasons = collections.Counter()
    decided = means = 0
    for c in range(0, len(scs), chunk):
        part = scs[c:c + chunk]
        trs = pool.run(part, "cma.execute")
        verdict, g, d = tlc.validate("CmaesTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs], workers=8)
        by = {s["id"]: s for s in part}
        res.states += d
        res.transitions += g
        res.traces += len(trs)
        for tr in trs:
            dead, bad = verdict[tr["id"]]
            res.events += len(tr["ev"])
            decided += not dead
            means += sum(1 for e in tr["ev"] if e.get("z") and not any(e["z"]))
            reasons[tr["ev"][-1].get("r", -1)] += 1
            for clause, k in bad:
                if tags is None or clause in tags or clause in ("R_crash", "X_eval"):
                    res.add(clause, "call %d %s" % (k, json.dumps(tr["ev"][k - 1])),
                            {"family": "cma", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                             "cfg": tr["cfg"], "traceback": tr["tb"]})
        if not res.samples:
            res.samples.append({"cfg": trs[0]["cfg"], "events": trs[0]["ev"][:5] + ["..."] + trs[0]["ev"][-1:]})
    res.notes = {"complete_runs": decided, "means_observed": means, "reasons": {str(k): v for k, v in reasons.items()}}
    return res
