"""Family: pairs of optimizations with equivalent settings, validated against spec/Lockstep.tla (LockTrace)."""
import collections
import json
import random

import gen
import pool
import tlc
from result import Result

KINDS = ["default", "default", "default", "select", "select", "order", "extra", "output", "function", "json", "numbers", "times",
         "names", "stored"]


def scenarios(prop, tier, seed):
    n = 1500 if tier == "quick" else 16000
    foci = gen.FOCI + ["re", "drift", "goal", "fail", "ds"]
    scs = gen.batch(seed * 1000 + 311, n, foci)
    scs += gen.batch(seed * 1000 + 313, 16 if tier == "quick" else 200, ["ad"], base=10**6)
    r = random.Random(seed * 37 + 31)
    for sc in scs:
        sc["linestop"] = None
        sc["rng"] = sc["rng"] if sc["rng"] is not None else r.randint(0, 999)
        sc["vseed"] = r.randrange(10**9)
        if sc.get("unit") and r.random() < 0.3:
            sc["unit"] = 2.0 ** r.choice([-100, -60, -45, 30])
        vs = list(dict.fromkeys(r.choice(KINDS) for _ in range(r.choice([1, 1, 2, 3]))))
        if "stored" in vs:
            vs = ["stored"]
        # (numpy's numbers and classes are not JSON)
        vs.sort(key=lambda v: {"default": 0, "json": 2, "numbers": 3, "select": 3}.get(v, 1))
        if sc["alg"] == "AD":
            vs = [v for v in vs if v != "function"] or ["default"]
        sc["variants"] = vs
        for k in ("chdir",):
            if "function" in vs:
                sc.pop(k, None)
    return scs


def run(prop, tier, seed):
    scs = scenarios(prop, tier, seed)
    res = Result("Lockstep of equivalent settings")
    chunk = 5000
    kinds = collections.Counter()
    for c in range(0, len(scs), chunk):
        part = scs[c:c + chunk]
        trs = pool.run(part, "same.execute")
        if len(trs) < len(part) and not any(t["hang"] for t in trs):
            raise pool.HarnessError("missing traces")
        verdict, g, d = tlc.validate("LockTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs])
        by = {s["id"]: s for s in part}
        res.states += d
        res.transitions += g
        res.traces += 2 * len(trs)
        for tr in trs:
            res.events += 2 * len(tr["ev"])
            for v in by[tr["id"]]["variants"]:
                kinds[v] += 1
            for clause, k in verdict[tr["id"]][1]:
                res.add(clause, "event %d %s" % (k, json.dumps(tr["ev"][k - 1])[:400]),
                        {"family": "same", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                         "traceback": tr["tb"]})
        if not res.samples:
            res.samples.append(trs[0]["ev"][:4])
    res.notes = {"pairs by variant": dict(kinds)}
    return res
