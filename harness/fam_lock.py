"""Family: pairs of whole optimizations, validated against spec/Lockstep.tla (LockTrace)."""
import collections
import json
import random

import gen
import pool
import tlc
from result import Result


def scenarios(prop, tier, seed):
    n = 1500 if tier == "quick" else 20000
    foci = gen.FOCI + ["re", "drift", "goal", "fail"]
    scs = gen.batch(seed * 1000 + 700 + int(prop[1:]), n, foci)
    scs += gen.batch(seed * 1000 + 900 + int(prop[1:]), 16 if tier == "quick" else 200, ["ad"], base=10**6)
    r = random.Random(seed * 31 + int(prop[1:]))
    for sc in scs:
        # a stop raised at the k-th line of the library is not the same stop in two runs that take different lines
        sc["linestop"] = None
        if prop == "C14":
            sc["rel"] = -1
        else:
            sc["rel"] = 1
            sc["rng"] = sc["rng"] if sc["rng"] is not None else r.randint(0, 999)
            sc["variant"] = r.choice(["", "before", "pollute", "pollute", "nested", "dict"])
            sc["nest_at"] = r.randint(0, 12)
            if sc["alg"] == "AD" and sc["variant"] in ("nested", "dict"):
                sc["variant"] = "before"
            if sc["variant"] == "nested" and any(row[4] == "sigint" for row in sc["script"]):
                sc["variant"] = "pollute"        # the other optimization takes over the process's signal handler
    return scs


def run(prop, tier, seed):
    scs = scenarios(prop, tier, seed)
    res = Result("Lockstep of two runs")
    chunk = 5000
    seeds = collections.Counter()
    for c in range(0, len(scs), chunk):
        part = scs[c:c + chunk]
        trs = pool.run(part, "lock.execute")
        if len(trs) < len(part) and not any(t["hang"] for t in trs):
            raise pool.HarnessError("missing traces")
        verdict, g, d = tlc.validate("LockTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs])
        by = {s["id"]: s for s in part}
        res.states += d
        res.transitions += g
        res.traces += 2 * len(trs)
        for tr in trs:
            res.events += 2 * len(tr["ev"])
            seeds[by[tr["id"]].get("variant", "neg")] += 1
            for clause, k in verdict[tr["id"]][1]:
                res.add(clause, "event %d %s" % (k, json.dumps(tr["ev"][k - 1])[:400]),
                        {"family": "lock", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                         "traceback": tr["tb"]})
        if not res.samples:
            res.samples.append(trs[0]["ev"][:4])
    res.notes = {"pairs by variant": dict(seeds)}
    return res
