"""Family: optimizations that compete for results folders, validated against spec/Folders.tla; FoldersMC is the design model."""
import collections
import json
import os
import random
import tempfile

import pool
import tlc
from result import Result

ALL = {"F_foreign", "F_deleted", "F_outside", "F_log_foreign", "F_trace", "F_spurious", "F_shared", "F_reuse", "F_missing",
       "F_other", "F_name", "F_dir", "F_content", "F_log", "F_log_off"}
LINES = 200            # a constructor executes about this many lines; interruptions later than its end happen after it


def cr(r, a, name=None, dt=0.0, cwd=0, **kw):
    return dict({"op": "create", "a": a, "name": name or "job", "us": int(r.random() < 0.3), "dt": dt, "log":
                 int(r.random() < 0.7), "cwd": cwd, "alg": r.choice(["dCRAB", "DirectSearch"]), "fmt": r.choice(["npz", "json"])},
                **kw)


def preempt(r, i, at, clash=True):
    """Actor 1 is interrupted at a line of its creation by actor 2 in another process, then both run."""
    one = cr(r, 1)
    two = cr(r, 2, name="job" if clash else "other")
    two["us"] = one["us"]
    ops2 = [two] + ([{"op": "run", "a": 2, "cwd": r.randint(0, 2)}] if r.random() < 0.6 else [])
    one["pre"] = [{"at": at, "ops": ops2}]
    if r.random() < 0.2:
        two["pre"] = [{"at": r.randint(1, LINES), "ops": [dict(cr(r, 3), us=one["us"]), {"op": "run", "a": 3, "cwd": 0}]}]
    ops = [one, {"op": "run", "a": 1, "cwd": r.randint(0, 2)}]
    if r.random() < 0.3:
        ops.insert(0, dict(cr(r, 4), us=one["us"]))
    return {"id": i, "ops": ops, "kind": "preemption"}


def history(r, i):
    """Creations and runs in one process, at times and places that may or may not clash."""
    ops, made = [], []
    for a in range(1, r.randint(2, 5)):
        if r.random() < 0.15:
            ops.append({"op": "put", "cwd": 0, "name": "job"})
        c = cr(r, a, name=r.choice(["job", "job", "job2", "a b", "jo"]), dt=r.choice([0.0, 0.0, 0.000003, 0.4, 1.0, 60.0]),
               cwd=r.choice([0, 0, 1]))
        ops.append(c)
        made.append(a)
        if r.random() < 0.5:
            b = r.choice(made)
            run = {"op": "run", "a": b, "cwd": r.randint(0, 2)}
            if r.random() < 0.5 and a < 5:
                x = a + 4
                run["nest"] = [[r.randint(1, 3), [cr(r, x, name=r.choice(["job", "x"]), dt=r.choice([0.0, 1.0])),
                                                  {"op": "run", "a": x, "cwd": 0}]]]
            ops.append(run)
    for a in made:
        ops.append({"op": "run", "a": a, "cwd": r.randint(0, 2)})
    if sum(o["op"] == "put" for o in ops) > 1:
        ops = [o for k, o in enumerate(ops) if o["op"] != "put" or k == min(j for j, q in enumerate(ops) if q["op"] == "put")]
    return {"id": i, "ops": ops, "kind": "history"}


def model(tier):
    m = Result("Results folders design model")
    confs = [(3, 2), (2, 3)] if tier == "quick" else [(3, 2), (4, 2), (3, 3)]
    for p, k in confs:
        fd, path = tempfile.mkstemp(prefix="verif_cfg_", suffix=".cfg")
        with os.fdopen(fd, "w") as f:
            f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n P = %d\n K = %d\n" % (p, k))
            f.write("".join("INVARIANT %s\n" % x for x in ("Sound", "Exclusive", "NoTrace", "Kept")))
        try:
            rc, out = tlc.tlc("FoldersMC", cfg=path, workers=8)
        finally:
            os.unlink(path)
        if rc != 0:
            raise tlc.TlcError("FoldersMC: " + out[-3000:])
        g, d = tlc.stats(out)
        m.transitions += g
        m.states += d
        m.notes["%d processes, %d names" % (p, k)] = {"states": d}
    return m


def run(prop, tier, seed):
    r = random.Random(seed * 7001 + int(prop[1:]))
    rep, n = {"quick": (3, 500), "thorough": (60, 12000)}[tier]
    scs = []
    for k in range(1, LINES + 1):
        for j in range(rep):
            scs.append(preempt(r, len(scs), k, clash=j < 2 or r.random() < 0.7))
    scs += [history(r, len(scs) + i) for i in range(n)]
    res = Result("Results folders, trace validation")
    by = {s["id"]: s for s in scs}
    trs = pool.run(scs, "fold.execute")
    verdict, res.transitions, res.states = tlc.validate(
        "FoldersTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs], workers=8)
    res.traces = len(trs)
    kinds = collections.Counter()
    outcome = collections.Counter()
    for tr in trs:
        res.events += len(tr["ev"])
        kinds[by[tr["id"]]["kind"]] += 1
        outcome.update("created" if e["ok"] else "refused" for e in tr["ev"] if e["e"] == "create")
        for clause, k in verdict[tr["id"]][1]:
            if clause in ALL or clause == "X_eval":
                res.add(clause, "event %d %s" % (k, json.dumps(tr["ev"][k - 1])[:400]),
                        {"family": "folder", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                         "cfg": tr["cfg"], "traceback": tr["tb"]})
    res.samples.append({"scenario": scs[0], "events": trs[0]["ev"][:3]})
    res.notes = {"runs": dict(kinds), "creations": dict(outcome), "lines executed by a creation": max(t["lines"] for t in trs)}
    return [model(tier), res]
