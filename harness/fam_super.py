"""Family: random super-parameters of whole dCRAB runs, validated against spec/Super.tla (SuperTrace)."""
import collections
import json
import random

import pool
import tlc
from result import Result

TAGS = {"C21": {"S_number", "S_strat", "S_flat", "S_repeat", "S_shape", "S_constant", "S_linear", "S_report", "S_para",
                "S_cover"},
        "C15": {"S_repeat"}}


def scenario(r, i):
    ps = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        b = r.choice(["Fourier", "Chebyshev", "Sinc", "Sigmoid"])
        p = {"basis": b, "n": r.choice([1, 2, 3, 4, 5]), "T": r.choice([1, 2, 3]), "sigma": 0.1, "offset": 0.1, "bmax": 1.0}
        if b == "Fourier":
            p["lo"] = r.choice([0.0, 0.1, 1.0, 2.5])
            p["up"] = p["lo"] + r.choice([1.0, 3.0, 4.5])
        elif b == "Chebyshev":
            p["lo"] = r.choice([0.5, 1.0])
            p["up"] = p["lo"] + r.choice([1.0, 4.0])
        else:
            p["lo"] = r.choice([0.0, 0.25])
            p["up"] = p["T"] * r.choice([0.6, 0.8])
            p["sigma"], p["offset"], p["bmax"] = r.choice([0.1, 0.2]), r.choice([0.05, 0.1]), r.choice([0.5, 1.0])
        if r.random() < 0.3:
            p["ow"] = True
        if r.random() < 0.3:
            p["guess"] = True
        if r.random() < 0.2:
            p["pw"] = r.choice([2, 3, 5])          # a piecewise pulse in front of it
        if r.random() < 0.2:
            p["shaping"] = r.choice([["add_base_pulse", "add_new_update_pulse", "limit_pulse"],
                                     ["add_new_update_pulse"], ["add_new_update_pulse", "add_base_pulse", "add_initial_guess"]])
        ps.append(p)
    m = r.choice(["none", "seeds", "mixed"])
    n = r.choice([1, 2, 3])
    runs = [0 if m == "none" else r.randint(1, 9) if m == "seeds" else r.choice([0, r.randint(1, 9)]) for _ in range(n)]
    return {"id": i, "npar": r.choice([0, 0, 1, 2]), "seed": r.randrange(2**31), "nsi": r.choice([1, 2, 3]), "pulses": ps, "runs": runs}


def run(prop, tier, seed):
    r = random.Random(seed * 5003 + int(prop[1:]))
    n = {"quick": 500, "thorough": 9000}[tier]
    if prop == "C15":
        n //= 2
    scs = [scenario(r, i) for i in range(n)]
    by = {s["id"]: s for s in scs}
    res = Result("Super-parameters, trace validation")
    trs = pool.run(scs, "sup.execute")
    hits, cnt, bases = collections.defaultdict(set), collections.Counter(), collections.Counter()
    for t in trs:
        for p in by[t["id"]]["pulses"]:
            bases[p["basis"]] += 1
        for e in t["ev"]:
            if e["e"] == "si":
                for dr in e["d"]:
                    cnt[len(dr)] += 1
                    for k, v in enumerate(dr):
                        hits[len(dr), k].add(v["f"] // 10**8)
    ev = [{"e": "cover", "n": cnt[k], "hit": [len(hits[k, j]) for j in range(k)]} for k in sorted(cnt) if k]
    trs.append({"id": len(scs), "cfg": {"pulses": []}, "ev": ev, "tb": "", "hang": False})
    by[len(scs)] = {"summary": "all runs"}
    verdict, res.transitions, res.states = tlc.validate("SuperTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs],
                                                        workers=8)
    res.traces = len(trs)
    for tr in trs:
        res.events += len(tr["ev"])
        for clause, k in verdict[tr["id"]][1]:
            if clause in TAGS[prop] or clause in ("X_crash", "X_eval"):
                res.add(clause, "event %d %s" % (k, json.dumps(tr["ev"][k - 1])[:400]),
                        {"family": "super", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                         "cfg": tr["cfg"], "traceback": tr["tb"]})
    res.samples.append({"scenario": scs[0], "events": trs[0]["ev"][:4]})
    res.notes = {"pulses by basis": dict(bases), "draws by number of super-parameters": dict(cnt)}
    return res
