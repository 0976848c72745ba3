"""Family: the Nelder-Mead search alone on scripted functions, validated against spec/NMSearch.tla (NMTrace)."""
import collections
import json
import random

import pool
import tlc
from result import Result

BIG = 999999999

TAGS = {"C16": None,
        "C09": {"M_goeson", "R_early", "R_reason"},
        "C08": {"M_goeson", "R_early", "R_reason"},
        "C10": {"R_early", "R_reason", "R_user", "R_middle"},
        "C13": {"M_drift", "M_note", "M_notevalue", "R_best", "M_reflect"}}


def scenario(r, i, prop):
    dim = r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 6])
    sc = {"id": i, "seed": r.randrange(2**31), "adaptive": r.random() < 0.4}
    n = 40
    x0 = [r.choice([-1, 1]) * 20 * r.randint(500, 4000) for _ in range(dim)]
    if r.random() < 0.15:
        sc["default_start"] = True
        x0 = [x * 10 for x in x0]
        start = [x0] + [[(x * 21 // 20 if j == k else x) for j, x in enumerate(x0)] for k in range(dim)]
    else:
        start = [x0] + [[x + (r.choice([-1, 1]) * r.randint(20000, 90000) if j == k else r.randint(-9000, 9000))
                         for j, x in enumerate(x0)] for k in range(dim)]
    sc["start"] = start
    style = r.choice(["ties", "few", "distinct", "down", "walk", "up"] if dim < 5 else ["distinct", "down", "up"])
    U = 6
    if style == "ties":
        v = [r.randint(0, 1) for _ in range(n)]
    elif style == "few":
        v = [r.randint(0, 4) for _ in range(n)]
    elif style == "distinct":
        v = list(range(n))
        r.shuffle(v)
    elif style == "down":
        v = [r.randint(0, 30) - 3 * k for k in range(n)]
    elif style == "up":
        v = [r.randint(0, 30) + 3 * k for k in range(n)]
    else:
        v, a = [], 0
        for _ in range(n):
            a += r.randint(-4, 4)
            v.append(a)
    sc["vals"] = [x * U for x in v]
    if dim < 4 and r.random() < 0.25:            # evaluations which failed
        q = r.choice([0.1, 0.3, 0.9])
        sc["vals"] = [BIG if r.random() < q else x for x in sc["vals"]]
    sc["durs"] = [r.choice([0, 2, 2, 4, 10]) for _ in range(n)]
    sc["maxev"] = r.choice([dim + 1, dim + 2, dim + 3, 8, 12, 20, 30, 30, 40])
    p = r.random
    if p() < (0.7 if prop == "C09" else 0.15):
        sc["xatol"] = r.choice([5000, 20000, 40000, 100000])
    if p() < (0.7 if prop == "C09" else 0.15):
        sc["fatol"] = r.choice([1, 5, 10, 25, 60])
    if p() < (0.7 if prop == "C08" else 0.15):
        sc["tlim"] = r.choice([3, 15, 41, 77, 20, 40])
    if p() < (0.3 if prop != "C10" else 0.6):
        sc["cbn"] = r.choice([dim + 2, 6, 9, 14, 25])
    elif p() < 0.5:
        sc["cbtrue"] = True
    if p() < (0.15 if prop != "C13" else 1.0):
        sc["dsec"], sc["navg"] = r.choice([1, 5, 13, 31, 12, 20]), r.choice([1, 2, 3])
    if BIG in sc["vals"]:
        sc.pop("dsec", None)
    if r.random() < 0.25:
        k = r.choice([601, 7201, 40001])
        sc["durs"] = [d * k for d in sc["durs"]]
        for x in ("tlim", "dsec"):
            if sc.get(x):
                sc[x] *= k
    if r.random() < 0.5:
        sc["unit"] = 2.0 ** r.choice([-30, -20, -7, 7, 24, 40])
    if r.random() < 0.4:
        sc["cunit"] = 2.0 ** r.choice([-24, -20, -10, 10, 30])
    return sc


def batch(prop, tier, seed):
    r = random.Random(seed * 7919 + int(prop[1:]))
    n = {"quick": 2500, "thorough": 40000}[tier]
    return [scenario(r, i, prop) for i in range(n)]


def run(prop, tier, seed):
    return bind(prop, batch(prop, tier, seed), "random scripts")


def bind(prop, scs, name, chunk=10000):
    res = Result("Nelder-Mead trace validation, " + name)
    tags = TAGS[prop]
    other, reasons = collections.Counter(), collections.Counter()
    decided = 0
    for c in range(0, len(scs), chunk):
        part = scs[c:c + chunk]
        trs = pool.run(part, "nm.execute")
        verdict, g, d = tlc.validate("NMTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs], workers=8)
        by = {s["id"]: s for s in part}
        res.states += d
        res.transitions += g
        res.traces += len(trs)
        for tr in trs:
            dead, bad = verdict[tr["id"]]
            res.events += len(tr["ev"])
            decided += not dead
            reasons[tr["ev"][-1].get("r", -1)] += 1
            for clause, k in bad:
                if tags is None or clause in tags or clause in ("R_crash", "X_eval"):
                    res.add(clause, "call %d %s" % (k, json.dumps(tr["ev"][k - 1])),
                            {"family": "nm", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                             "cfg": tr["cfg"], "traceback": tr["tb"]})
                else:
                    other[clause] += 1
        if not res.samples:
            res.samples.append({"cfg": trs[0]["cfg"], "events": trs[0]["ev"][:5] + ["..."] + trs[0]["ev"][-1:]})
    res.notes = {"complete_runs": decided, "reasons": {str(k): v for k, v in reasons.items()}}
    if other:
        res.notes["clauses_of_other_properties_broken"] = dict(other)
    return res
