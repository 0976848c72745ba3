"""Design model of the optimizer (OptimMC), explored exhaustively; the runs it prints are replayed into the real code, which must
have the outcome of the model and satisfy the trace specification."""
import json
import os
import random
import re
import tempfile

import fam_optim
import pool
import tlc
from result import Result

U, INF = 60, 999999999
INV = ("Sound Reported NothingMeasured Measured Budgeted LastStop NoEvalPastGoal Timed FileHolds WarmStart AllDone TrueReason Repeats "
       "Lists Drifts Mirrored").split()


def conf(nsi, asks, maxtot=INF, goal=0, tlim=INF, re_=0, navg=0):
    return {"nsi": nsi, "asks": asks, "maxtot": maxtot, "hasgoal": goal, "tlim": tlim, "re": re_, "navg": navg}


QUICK = [conf(2, 2), conf(3, 1), conf(2, 2, maxtot=3), conf(2, 2, goal=1), conf(2, 2, tlim=5), conf(1, 2, re_=1), conf(1, 2, re_=2),
         conf(2, 1, re_=1), conf(2, 1, navg=1), conf(2, 1, navg=2), conf(2, 2, navg=1, maxtot=3), conf(2, 1, navg=2, goal=1),
         conf(2, 1, re_=1, maxtot=2), conf(1, 2, re_=1, goal=1), conf(2, 1, navg=2, tlim=5), conf(2, 1, re_=1, navg=1),
         conf(2, 2, maxtot=2, goal=1, tlim=3), conf(1, 1, maxtot=0)]
DEEP = QUICK + [conf(3, 2), conf(2, 3), conf(4, 1), conf(3, 2, maxtot=5), conf(3, 2, goal=1), conf(3, 1, navg=1), conf(3, 1, navg=2),
                conf(2, 2, navg=2), conf(2, 2, re_=1), conf(1, 3, re_=1), conf(2, 1, re_=2), conf(2, 2, re_=1, navg=1, maxtot=6),
                conf(3, 2, tlim=7, maxtot=5), conf(2, 2, re_=1, goal=1), conf(2, 2, navg=2, maxtot=5, goal=1)]
OWN = {"C01": {"O_fom"}, "C02": {"O_file"}, "C04": {"O_count"}, "C06": {"O_reason"}, "C07": {"O_count", "O_lists"}, "C10": {"O_reason"},
       "C11": {"O_sies"}, "C12": {"O_fom", "O_sd"}, "C13": {"O_fom", "O_count"}, "C25": {"O_lists"}, "C05": {"O_count"}}


def explore(confs, vals, m):
    fd, cfg = tempfile.mkstemp(prefix="verif_cfg_", suffix=".cfg")
    with os.fdopen(fd, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n VALS = {%s}\n U = %d\n" % (", ".join(map(str, vals)), U))
        f.write("".join("INVARIANT %s\n" % x for x in INV) + "PROPERTY Ends\n")
    fd, cj = tempfile.mkstemp(prefix="verif_confs_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(confs, f)
    try:
        rc, out = tlc.tlc("OptimMC", cfg=cfg, workers=8, env={"CONFS_FILE": cj})
    finally:
        os.unlink(cfg)
        os.unlink(cj)
    if rc != 0:
        raise tlc.TlcError("OptimMC: " + out[:200] + out[out.find("Error"):][:3000])
    m.transitions, m.states = tlc.stats(out)
    runs = {x for x in re.findall(r'"RUN (.*)"', out)}
    runs = sorted((json.loads(x.replace('\\"', '"')) for x in runs), key=lambda r: (r[0], json.dumps(r[1])))
    if not runs:
        raise tlc.TlcError("OptimMC printed no run")
    return runs


def scenario(i, c, script, r):
    """The run as a scenario of the harness; half of them as a maximization of the negative."""
    mx = i % 2 == 1
    sg = -1 if mx else 1
    sc = {"id": i, "seed": i, "focus": "mc", "alg": "dCRAB", "dir": "max" if mx else "min", "nsi": c["nsi"], "dsm": "DUMB",
          "dumb_n": c["asks"], "careless": False, "times": [{"time_name": "T", "initial_value": 1.0}], "params": [], "maxev": 10**6,
          "pulses": [{"pulse_name": "P0", "upper_limit": 1000.0, "lower_limit": -1000.0, "time_name": "T",
                      "amplitude_variation": 4.0, "bins_number": 2, "basis": {"basis_name": "PiecewiseBasis", "bins_number": 2}}],
          "bdim": [2], "rng": r.choice([None, 0, 3]), "fmt": r.choice(["npz", "json"]), "signals": False}
    if not c["re"]:
        sc["unit"] = r.choice([1.0, 2.0**-24, 2.0**30])
    if c["maxtot"] != INF:
        sc["maxtot"] = c["maxtot"]
    if c["hasgoal"]:
        sc["goal"] = 0
    if c["tlim"] != INF:
        sc["tlim"] = c["tlim"]
    if c["re"]:
        sc["reev"] = [[0, 1]] * c["re"]
    if c["navg"]:
        sc["drift"] = {"si": True, "navg": c["navg"], "sec": 0}
    sc["script"] = [[sg * f * U, None, -1 if a == "fail" else 0, 2, "stop" if a == "stop" else ""] for f, a in script] or [[0, None, 0, 2, ""]]
    return sc


def outcome(tr, sg):
    """The same projection of a real run as Outcome in the model."""
    e = tr["ev"][-1]
    d = e["disk"]
    big = e["fom"] if abs(e["fom"]) < 9 * 10**8 else sg * 999999999
    return {"fom": sg * big, "n": e["n"], "hr": e["hr"], "run": e["run"], "sies": sum(1 for x in tr["ev"] if x["e"] == "sie"), "sd": e["sd"],
            "flist": [sg * v for v in e["flist"]], "ilist": e["ilist"], "dk": d["k"], "df": sg * d["f"], "di": d["it"], "ds": d["si"]}


FIELD = {"fom": "O_fom", "n": "O_count", "hr": "O_reason", "run": "O_reason", "sies": "O_sies", "sd": "O_sd", "flist": "O_lists",
         "ilist": "O_lists", "dk": "O_file", "df": "O_file", "di": "O_file", "ds": "O_file"}


def run(prop, tier, seed):
    m = Result("Optimizer design model")
    confs, vals = (QUICK, (0, 1, 2)) if tier == "quick" else (DEEP, (0, 1, 2))
    runs = explore(confs, vals, m)
    m.notes = {"configurations": len(confs), "complete runs": len(runs)}
    m.samples.append({"run of the design model": runs[len(runs) // 2]})
    r = random.Random(seed * 977 + int(prop[1:]))
    limit = 2000 if tier == "quick" else 40000
    part = runs if len(runs) <= limit else r.sample(runs, limit)
    scs = [scenario(i, confs[c - 1], script, r) for i, (c, script, o) in enumerate(part)]
    want = {i: o for i, (c, script, o) in enumerate(part)}
    traces = []
    real, pool_run = pool.run, pool.run

    def keep(*a, **k):
        t = real(*a, **k)
        traces.extend(t)
        return t
    pool.run = keep
    try:
        res = fam_optim.bind(prop, scs, "runs of the design model")
    finally:
        pool.run = pool_run
    own = OWN.get(prop, set())
    same = 0
    for tr in traces:
        got, exp = outcome(tr, -1 if tr["id"] % 2 else 1), want[tr["id"]]
        diff = [k for k in exp if got[k] != exp[k]]
        same += not diff
        for cl in sorted({FIELD[k] for k in diff} & own):
            res.add(cl, "outcome %s, the design model has %s" % ({k: got[k] for k in diff}, {k: exp[k] for k in diff}),
                    {"family": "optim", "scenario": scs[tr["id"]], "clause": cl, "event": len(tr["ev"]), "trace": tr["ev"],
                     "cfg": tr["cfg"], "expected": exp, "got": got, "traceback": tr["tb"]})
    res.notes["outcomes equal to the design model"] = same
    return [m, res]
