"""Family: files of whole optimizations with awkward names and settings, validated against spec/Results.tla; the design model
ResultsMC is explored exhaustively and each of its choices of names is run on the real code."""
import collections
import itertools
import json
import os
import random
import re
import tempfile

import pool
import tlc
from result import Result

TAGS = {"C22": {"D_readable", "D_pulse", "D_param", "D_name", "D_extra", "D_fom", "D_number", "D_status", "D_names",
                "D_single", "D_settings_readable", "D_settings", "D_results_readable", "D_results"},
        "C03": {"D_readable", "D_pulse", "D_param", "D_fom", "D_number", "D_extra"}}
A = ["a", "a1", "time_grid_for_a", "FoM", "file"]
NAMES = ["P", "P1", "P11", "P2", "Q", "FoM", "file", "iteration_number", "status_code", "is_record", "super_it", "sigma",
         "pulse_names", "parameter_names", "time_names", "allow_pickle", "time_grid_for_P", "time_grid_for_P1", "pulse_1",
         "parameter_1", "time_grid_for_time_grid_for_P", "with blank", "x.npy", "é", "arr_0", "pulses", "parameters",
         "timegrids", "self", "kwargs"]


def scenario(r, i, alg=None):
    alg = alg or r.choice(["dCRAB"] * 4 + ["DS"])
    np_, nq = {"GRAPE": (1, 0), "DS": (0, r.randint(1, 4)), "AD": (r.randint(1, 2), r.randint(0, 2))}.get(
        alg, (r.randint(1, 4), r.randint(0, 3)))
    pool_ = NAMES if r.random() < 0.6 else r.sample(NAMES, 3)
    sc = {"id": i, "seed": r.randrange(2**31), "alg": alg, "steps": r.randint(1, 3), "fmt": r.choice(["npz", "json"]),
          "max": r.random() < 0.3, "pn": [r.choice(pool_) for _ in range(np_)], "qn": [r.choice(pool_) for _ in range(nq)]}
    ex = {}
    if r.random() < 0.4:
        for k in range(r.randint(1, 3)):
            ex["user_%d" % k] = r.choice([
                {"$np": ["int64", 7]}, {"$np": ["float32", 0.5]}, {"$np": ["float64", 0.1]}, {"$np": ["bool", 1]},
                {"$np": ["longdouble", 0.25]}, {"$arr": [1, 2, 3]}, {"$arr": [0.5, 0.25]}, {"$tuple": [1, "x"]}, None, "text",
                {"deep": {"$np": ["int64", 3]}}, [1, {"$np": ["float32", 2.5]}], True, 10**12, 1e-9])
    sc["extra"] = ex
    if sc["pn"] and r.random() < 0.3:
        sc["pextra"] = {r.choice(["lower_limit"]): {"$np": ["int64", -50]}}
    return sc


def bind(prop, scs, name):
    res = Result(name)
    by = {s["id"]: s for s in scs}
    trs = pool.run(scs, "dmp.execute")
    verdict, res.transitions, res.states = tlc.validate(
        "ResultsTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs], workers=8)
    res.traces = len(trs)
    algs = collections.Counter()
    for tr in trs:
        res.events += len(tr["ev"])
        algs[by[tr["id"]]["alg"] + " " + by[tr["id"]]["fmt"]] += 1
        for clause, k in verdict[tr["id"]][1]:
            if clause in TAGS[prop] or clause in ("X_crash", "X_eval"):
                res.add(clause, "event %d %s" % (k, json.dumps(tr["ev"][k - 1])[:400]),
                        {"family": "dump", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                         "cfg": tr["cfg"], "traceback": tr["tb"]})
    res.samples.append({"scenario": scs[0], "events": trs[0]["ev"][:2]})
    res.notes = {"runs": dict(algs)}
    return res


def model(m):
    for rule in ("any", "count"):
        fd, path = tempfile.mkstemp(prefix="verif_cfg_", suffix=".cfg")
        with os.fdopen(fd, "w") as f:
            f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n RULE = "%s"\n' % rule)
            f.write("INVARIANT Complete\nINVARIANT Unique\nINVARIANT CanStore\n")
        try:
            rc, out = tlc.tlc("ResultsMC", cfg=path, workers=8)
        finally:
            os.unlink(path)
        if rc != 0:
            raise tlc.TlcError("ResultsMC: " + out[-3000:])
        g, d = tlc.stats(out)
        m.transitions += g
        m.states += d
    return int(re.findall(r"initial states?: (\d+) distinct", out)[-1])


def run(prop, tier, seed):
    r = random.Random(seed * 6007 + int(prop[1:]))
    n, g = {"quick": (1200, 24), "thorough": (20000, 200)}[tier]
    if prop == "C03":
        n, g = n // 4, 8
    scs = [scenario(r, i) for i in range(n)] + [scenario(r, n + i, ["GRAPE", "AD"][i % 2]) for i in range(g)]
    out = [bind(prop, scs, "Files of optimizations, trace validation")]
    if prop == "C22":
        m = Result("Best-controls file design model")
        initial = model(m)
        scs = []
        for names in itertools.product(A, repeat=4):
            for fmt in ("npz", "json"):
                scs.append({"id": len(scs), "seed": 7, "alg": "dCRAB", "steps": 1, "fmt": fmt, "max": False,
                            "pn": list(names[:2]), "qn": list(names[2:])})
        if 2 * initial != len(scs):
            raise tlc.TlcError("ResultsMC has %d initial states" % initial)
        m.samples.append({"choice of names of the design model": scs[len(scs) // 3]})
        out += [m, bind(prop, scs, "names of the design model")]
    return out
