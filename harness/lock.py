"""Pairs of runs of the real optimizer for the lockstep specification."""
import copy
import os
import shutil
import tempfile
import contextlib
import io

import qh
import numpy as np
from quocslib.Optimizer import Optimizer
from quocslib.utils.AbstractFoM import AbstractFoM


class Plain(AbstractFoM):
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        return {"FoM": float(sum(np.sum(np.asarray(p)**2) for p in pulses) + sum(float(x)**2 for x in parameters))}


def other_run(seed, workdir):
    """Build and run an unrelated optimization."""
    d = tempfile.mkdtemp(prefix="o", dir=workdir)
    old = os.getcwd()
    os.chdir(d)
    sc = {"alg": "dCRAB", "dir": "min", "nsi": 2, "rng": seed, "dsm": "PCMAES", "maxev": 6, "pop": 4,
          "pulses": [{"pulse_name": "X", "upper_limit": 9.0, "lower_limit": -9.0, "time_name": "T", "amplitude_variation": 1.0,
                      "bins_number": 4, "basis": {"basis_name": "Fourier", "basis_vector_number": 2,
                                                  "random_super_parameter_distribution": {
                                                      "distribution_name": "Uniform", "lower_limit": 0.1,
                                                      "upper_limit": 3.0}}}],
          "params": [], "times": [{"time_name": "T", "initial_value": 1.0}]}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            Optimizer(qh.optimization_dict(sc), Plain()).execute()
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def execute(sc, workdir):
    rel = sc["rel"]
    sc["dseed"] = sc["seed"]
    ids = (qh.Ids(1e-4 if sc["alg"] == "AD" else 1e-8), qh.Ids(1e-9))
    a = copy.deepcopy(sc)
    b = copy.deepcopy(sc)
    if rel == -1:
        a["dir"], b["dir"] = "min", "max"
        for row in b["script"]:
            row[0] = -row[0]
        b["neg"] = True
        if b.get("goal") is not None:
            b["goal"] = -b["goal"]
        if sc["rng"] is None:
            sc["rng"] = 3
        a["rng"] = b["rng"] = sc["rng"]
    hook = None
    var = sc.get("variant", "")
    od = qh.optimization_dict(a) if var == "dict" else None
    if rel == 1:
        b["seed"] = sc["seed"] ^ 0x5555
        if var == "pollute":
            def hook(rec):
                np.random.seed((rec.n * 7919 + sc["seed"]) % 2**32)
                np.random.rand(rec.n % 3)
    ra = qh.execute(a, workdir, ids=ids, od=od)
    if rel == 1 and var == "before":
        other_run(sc["seed"] % 1000, workdir)
    if rel == 1 and var == "nested":
        def hook(rec):
            if rec.n == sc["nest_at"]:
                h = list(qh.logging.getLogger("oc_logger").handlers)
                other_run(sc["rng"], workdir)
                qh.logging.getLogger("oc_logger").handlers = h
    rb = qh.execute(b, workdir, ids=ids, hook=hook, od=od)
    for r in (ra, rb):
        r["ev"][-1]["intact"] = r["intact"]
    n = max(len(ra["ev"]), len(rb["ev"]))
    none = {"e": "none"}
    ev = [{"a": ra["ev"][k] if k < len(ra["ev"]) else none, "b": rb["ev"][k] if k < len(rb["ev"]) else none}
          for k in range(n)]
    return {"id": sc["id"], "cfg": {"rel": rel}, "ev": ev, "tb": ra["tb"] + rb["tb"], "hang": ra["hang"] or rb["hang"]}
