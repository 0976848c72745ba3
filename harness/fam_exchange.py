"""Family: file exchange, validated against spec/Exchange.tla; the schedules of the design model ExchangeMC are replayed."""
import collections
import itertools
import json
import os
import random
import re
import tempfile

import pool
import tlc
from result import Result

ALL = {"E_controls", "E_forever", "E_stale", "E_bound", "E_early", "E_ignored", "E_unreadable", "E_value", "E_slow",
       "E_result", "X_crash"}
MAXSLOT, SLOTS = 4, 6


def action(r):
    u = r.random()
    return [1 if u < 0.75 else 2 if u < 0.95 else 0, r.randint(-900, 900), r.randrange(30)]


def scenario(r, i):
    mx = r.choice([50, 100, 200, 200, 500, 6000])
    reqs = []
    for _ in range(r.randint(1, 5)):
        q = {"before": [action(r) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))], "during": []}
        u = r.random()
        if u < 0.75:
            q["during"].append([r.choice([-1, -1, 1, 30, 50, 77, 100, r.randint(0, mx)]), [1, r.randint(-900, 900), r.randrange(30)]])
        elif u < 0.85:
            q["during"].append([r.randint(0, mx), [2, 0, r.randrange(30)]])
        elif u < 0.92:
            q["during"].append([mx + r.randint(150, 400), [1, r.randint(-900, 900), 0]])
        reqs.append(q)
    alg = r.choice(["", "", "dCRAB", "DirectSearch"])
    np_, nq, L = r.randint(1, 3), r.randint(0, 2), r.choice([1, 2, 3, 3, 3, 3])
    u = r.random()
    if u < 0.03:
        np_, nq = r.randint(9, 12), r.randint(9, 12)
    elif u < 0.05:
        L = r.choice([101, 1500]) if alg == "" else 31
    return {"id": i, "amp": r.choice([1.0, 1.0, 1e-9, 3e-7, 1e11]), "tim": r.choice([1.0, 1.0, 2e-9, 1e-6, 1e4]), "len": L, "seed": r.randrange(2**31), "alg": alg, "ext":
            r.choice(["json", "json", "txt"]), "split": r.random() < 0.5, "max": mx, "np": np_, "nq":
            nq, "reqs": reqs}


def model(m):
    fd, path = tempfile.mkstemp(prefix="verif_cfg_", suffix=".cfg")
    with os.fdopen(fd, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MAXSLOT = %d\n SLOTS = %d\n" % (MAXSLOT, SLOTS))
        f.write("".join("INVARIANT %s\n" % x for x in ("Sound", "Bounded", "Fresh", "Answered")))
    try:
        rc, out = tlc.tlc("ExchangeMC", cfg=path, workers=8)
    finally:
        os.unlink(path)
    if rc != 0:
        raise tlc.TlcError("ExchangeMC: " + out[-3000:])
    m.transitions, m.states = tlc.stats(out)
    return int(re.findall(r"initial states?: (\d+) distinct", out)[-1])


def bind(prop, scs, name):
    res = Result(name)
    by = {s["id"]: s for s in scs}
    trs = pool.run(scs, "exch.execute")
    verdict, res.transitions, res.states = tlc.validate(
        "ExchangeTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs], workers=8)
    res.traces = len(trs)
    algs, rets = collections.Counter(), collections.Counter()
    for tr in trs:
        res.events += len(tr["ev"])
        algs[by[tr["id"]]["alg"] or "alone"] += 1
        rets.update("value" if e["ok"] else "failure" for e in tr["ev"] if e["e"] == "ret")
        for clause, k in verdict[tr["id"]][1]:
            if clause in ALL or clause == "X_eval":
                res.add(clause, "event %d %s" % (k, json.dumps(tr["ev"][k - 1])[:400]),
                        {"family": "exchange", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                         "cfg": tr["cfg"], "traceback": tr["tb"]})
    res.samples.append({"scenario": scs[0], "events": trs[0]["ev"][:6]})
    res.notes = {"runs": dict(algs), "requests": dict(rets)}
    return res


def run(prop, tier, seed):
    r = random.Random(seed * 8009 + int(prop[1:]))
    n = {"quick": 3000, "thorough": 40000}[tier]
    m = Result("File exchange design model")
    initial = model(m)
    plans = list(itertools.product(range(3), range(SLOTS + 1), (1, 2)))
    if len(plans)**2 != initial:
        raise tlc.TlcError("ExchangeMC has %d initial states" % initial)
    scs = []
    for pair in itertools.product(plans, repeat=2):
        reqs = []
        for k, (stale, slot, kind) in enumerate(pair):
            reqs.append({"before": [[stale, 900 + k, slot]] if stale else [], "during": [[slot * 50 - 49 if slot else -1, [kind, 10 * (k + 1), slot]]]})
        scs.append({"id": len(scs), "seed": 3, "alg": "", "ext": "json", "split": False, "max": 50 * MAXSLOT, "np": 1, "nq": 1,
                    "reqs": reqs})
    m.samples.append({"schedule of the design model": scs[77]["reqs"]})
    return [m, bind(prop, scs, "schedules of the design model"),
            bind(prop, [scenario(r, i) for i in range(n)], "File exchange, trace validation")]
